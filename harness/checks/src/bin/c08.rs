//! C08: no WASM module, however hostile, can crash the server.
use arrow::array::*;
use checks::wasmgen::*;
use datafusion::common::ScalarValue;
use datafusion::logical_expr::{ColumnarValue, Volatility};
use pbt::*;
use seafowl::wasm_udf::data_types::{CreateFunctionDataType as T, CreateFunctionLanguage as L};
use seafowl::wasm_udf::wasm::create_udf_from_wasm;
use std::sync::mpsc;
use std::sync::{Arc, OnceLock};
use std::time::Duration;

const TYPES: &[T] = &[
    T::INT, T::BIGINT, T::DOUBLE, T::FLOAT, T::REAL, T::TEXT, T::VARCHAR, T::CHAR, T::BOOLEAN, T::DATE, T::TIMESTAMP, T::SMALLINT,
    T::DECIMAL { precision: 38, scale: 10 }, T::I32, T::I64, T::F32, T::F64,
    T::DECIMAL { precision: 5, scale: -2 }, T::DECIMAL { precision: 0, scale: 0 }, T::DECIMAL { precision: 200, scale: 100 },
];

fn ty(s: &mut Src) -> T {
    s.pick(TYPES).clone()
}

fn arg(s: &mut Src, t: &T) -> ScalarValue {
    let n = s.below(8) as i64;
    if s.chance(1, 10) {
        return match t {
            T::TEXT | T::VARCHAR | T::CHAR => ScalarValue::Utf8(None),
            T::DOUBLE | T::F64 => ScalarValue::Float64(None),
            _ => ScalarValue::Int32(None),
        };
    }
    match t {
        T::SMALLINT => ScalarValue::Int16(Some(n as i16)),
        T::INT | T::I32 => ScalarValue::Int32(Some(n as i32)),
        T::BIGINT | T::I64 => ScalarValue::Int64(Some(n)),
        T::FLOAT | T::REAL | T::F32 => ScalarValue::Float32(Some(n as f32)),
        T::DOUBLE | T::F64 => ScalarValue::Float64(Some(n as f64)),
        T::CHAR | T::VARCHAR | T::TEXT => ScalarValue::Utf8(Some("x".repeat(*s.pick(&[0usize, 1, 40, 70000])))),
        T::BOOLEAN => ScalarValue::Boolean(Some(n % 2 == 0)),
        T::DATE => ScalarValue::Date32(Some(n as i32)),
        T::TIMESTAMP => ScalarValue::TimestampNanosecond(Some(n), None),
        T::DECIMAL { precision, scale } => ScalarValue::Decimal128(Some(n as i128), *precision, *scale),
    }
}

struct Case {
    lang: L,
    wasm: Vec<u8>,
    entry: String,
    inputs: Vec<T>,
    ret: T,
    args: Vec<ColumnarValue>,
    rows: usize,
}

enum Outcome {
    Refused,
    Called(Result<ColumnarValue, String>),
    Panic(String, String),
    Timeout,
}

/// creates and calls the function on a thread with the stack of a server thread
fn attempt(c: Case, calls: usize) -> Vec<Outcome> {
    let (tx, rx) = mpsc::channel();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            let made = no_panic(|| {
                create_udf_from_wasm(&c.lang, "f", &c.wasm, &c.entry, &c.inputs, &c.ret, Volatility::Volatile)
            });
            let u = match made {
                Err((f, m)) => {
                    let _ = tx.send(Outcome::Panic(f, m));
                    return;
                }
                Ok(Err(_)) => {
                    let _ = tx.send(Outcome::Refused);
                    return;
                }
                Ok(Ok(u)) => u,
            };
            for _ in 0..calls {
                let o = match no_panic(|| u.invoke_batch(&c.args, c.rows)) {
                    Err((f, m)) => Outcome::Panic(f, m),
                    Ok(r) => Outcome::Called(r.map_err(|e| e.to_string())),
                };
                let _ = tx.send(o);
            }
        })
        .expect("thread");
    let mut out = vec![];
    loop {
        match rx.recv_timeout(Duration::from_secs(20)) {
            Ok(o) => out.push(o),
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                out.push(Outcome::Timeout);
                break;
            }
        }
    }
    out
}

fn good() -> &'static datafusion::logical_expr::ScalarUDF {
    static GOOD: OnceLock<datafusion::logical_expr::ScalarUDF> = OnceLock::new();
    GOOD.get_or_init(|| {
        create_udf_from_wasm(
            &L::WasmMessagePack,
            "good",
            &msgpack_guest(&[], false),
            "echo",
            &vec![T::BIGINT],
            &T::BIGINT,
            Volatility::Volatile,
        )
        .unwrap()
    })
}

fn judge(s: &mut Src, ctx: &mut Ctx, c: Case, what: String) -> Res {
    let rows = if c.args.iter().any(|a| matches!(a, ColumnarValue::Array(_))) { c.rows } else { 1 };
    let calls = s.urange(1, 2);
    ctx.describe(format!("{what}\nlanguage {:?} entrypoint {:?} {:?} -> {:?}", c.lang, c.entry, c.inputs, c.ret));
    ctx.nontrivial(&(&c.wasm, &c.entry, format!("{:?} {:?} {:?}", c.inputs, c.ret, c.args)));
    for o in attempt(c, calls) {
        match o {
            Outcome::Panic(f, m) => {
                let file = f.rsplit('/').next().unwrap_or("").to_string();
                fail!(format!("crash:{file}"), "the server panics: {m}\n{}", ctx.desc)
            }
            Outcome::Timeout => ctx.label("guest does not end"),
            Outcome::Refused => ctx.label("refused"),
            Outcome::Called(Err(_)) => ctx.label("call fails"),
            Outcome::Called(Ok(v)) => {
                ctx.label("call gives a result");
                let a = match v {
                    ColumnarValue::Array(a) => a,
                    ColumnarValue::Scalar(v) => v.to_array().unwrap(),
                };
                ensure!(a.len() == rows || a.len() == 1, "result-rows", "{} results for {rows} rows\n{}", a.len(), ctx.desc);
                if let Err(e) = a.to_data().validate_full() {
                    fail!("result-invalid", "the result is not a valid array: {e}\n{}", ctx.desc);
                }
            }
        }
    }
    // later calls of other functions are not affected
    if s.chance(1, 4) {
        let v = s.edgy_i64();
        let r = good().invoke_batch(&[ColumnarValue::Array(Arc::new(Int64Array::from(vec![v, 7])))], 2);
        match r {
            Ok(ColumnarValue::Array(a)) => {
                let a = a.as_primitive::<arrow::datatypes::Int64Type>();
                ensure!(a.values().to_vec() == vec![v, 7], "later-call", "a later call of another function gives {a:?}");
            }
            o => fail!("later-call", "a later call of another function fails: {o:?}"),
        }
    }
    Ok(())
}

fn args(s: &mut Src, inputs: &[T]) -> (Vec<ColumnarValue>, usize) {
    let rows = *s.pick(&[1usize, 2, 0, 3]);
    let args = inputs
        .iter()
        .map(|t| {
            let v = arg(s, t);
            if s.bool() {
                match v.to_array_of_size(rows) {
                    Ok(a) => ColumnarValue::Array(a),
                    Err(_) => ColumnarValue::Scalar(v),
                }
            } else {
                ColumnarValue::Scalar(v)
            }
        })
        .collect();
    (args, rows)
}

// ------------------------------------------------------------------------------------------------

/// modules without loops, as raw material for the byte mutations
fn seeds() -> &'static Vec<Vec<u8>> {
    static SEEDS: OnceLock<Vec<Vec<u8>>> = OnceLock::new();
    SEEDS.get_or_init(|| {
        [
            r#"(module (func (export "f") (param i32) (result i32) (i32.add (local.get 0) (i32.const 1))))"#,
            r#"(module (func (export "f") (param f64 i64) (result f64) (f64.add (local.get 0) (f64.convert_i64_s (local.get 1)))))"#,
            r#"(module (memory (export "memory") 1 3) (data (i32.const 256) "\01\00\00\00\05")
                (func (export "alloc") (param i32) (result i32) (i32.const 1024))
                (func (export "dealloc") (param i32 i32))
                (func (export "f") (param i32) (result i32) (i32.const 256)))"#,
            r#"(module (import "wasi_snapshot_preview1" "fd_write" (func (param i32 i32 i32 i32) (result i32)))
                (memory (export "memory") 1) (data (i32.const 256) "\06\00\00\00\a5hello")
                (global $g (mut i32) (i32.const 4096))
                (func (export "alloc") (param i32) (result i32)
                  (global.set $g (i32.add (global.get $g) (local.get 0))) (i32.sub (global.get $g) (local.get 0)))
                (func (export "dealloc") (param i32 i32))
                (func (export "f") (param i32) (result i32) (i32.const 256)))"#,
        ]
        .iter()
        .map(|t| wat::parse_str(t).unwrap())
        .collect()
    })
}

fn bytes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let which = s.usize(4);
    let mut b = match s.weighted(&[10, 1]) {
        0 => seeds()[which].clone(),
        _ => {
            let mut b = if s.bool() { b"\0asm\x01\0\0\0".to_vec() } else { vec![] };
            b.extend(s.vec(0, 40, |s| s.below(256) as u8));
            b
        }
    };
    for _ in 0..*s.pick(&[1usize, 1, 2, 4]) {
        if b.is_empty() {
            break;
        }
        // mostly small changes of the code and data at the end of the module
        let i = if s.chance(3, 4) { b.len() - 1 - s.usize(b.len().min(40)) } else { s.usize(b.len()) };
        match s.weighted(&[6, 6, 1, 1, 1, 1]) {
            0 => b[i] ^= 1 << s.below(8),
            1 => b[i] = s.below(256) as u8,
            2 => b.truncate(i),
            3 => b.insert(i, *s.pick(&[0u8, 0xff, 0x7f, 0x80, 0x41, 0x0b])),
            4 => {
                b.remove(i);
            }
            _ => {
                let j = s.usize(b.len());
                b.swap(i, j);
            }
        }
    }
    // mostly declared as the original module has it
    let as_is = !s.chance(1, 4);
    let (lang, inputs, ret) = match which {
        _ if !as_is => (if s.bool() { L::Wasm } else { L::WasmMessagePack }, s.vec(0, 3, ty), ty(s)),
        0 => (L::Wasm, vec![T::INT], T::INT),
        1 => (L::Wasm, vec![T::DOUBLE, T::BIGINT], T::DOUBLE),
        2 => (L::WasmMessagePack, s.vec(0, 3, ty), T::INT),
        _ => (L::WasmMessagePack, s.vec(0, 3, ty), T::TEXT),
    };
    let (args, rows) = args(s, &inputs);
    let entry = s.pick(&["f", "f", "f", "f", "f", "f", "f", "alloc", "memory", "", "dealloc", "\0"]).to_string();
    let what = format!("module bytes {}", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
    let c = Case { lang, wasm: b, entry, inputs, ret, args, rows };
    judge(s, ctx, c, what)
}

// ------------------------------------------------------------------------------------------------

fn edge_ptr(s: &mut Src, pages: u32) -> i32 {
    let end = (pages as u64 * 65536) as u32;
    match s.usize(6) {
        0 => 4096,
        1 => *s.pick(&[0, -1, i32::MIN, i32::MAX, -4, -8, 1, 3]),
        2 => end.wrapping_sub(s.below(12) as u32) as i32,
        3 => end.wrapping_add(s.below(12) as u32) as i32,
        4 => 256,
        _ => s.edgy_u64() as i32,
    }
}

fn nasty_payload(s: &mut Src) -> Vec<u8> {
    match s.usize(12) {
        0 => vec![5],
        1 => vec![0xc0],
        2 => {
            let n = *s.pick(&[10usize, 500, 1023, 1024, 1025, 5000, 60000]);
            vec![*s.pick(&[0x91u8, 0x81, 0x92]); n]
        }
        3 => {
            let mut b = vec![*s.pick(&[0xddu8, 0xdf, 0xdb, 0xc6, 0xc9])];
            b.extend(s.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x1000_0000, 70000]).to_be_bytes());
            b.extend(s.vec(0, 6, |s| s.below(256) as u8));
            b
        }
        4 => vec![*s.pick(&[0xc1u8, 0xc7, 0xc8, 0xc9, 0xd4, 0xd8, 0xdc, 0xde, 0xcf, 0xcb])],
        5 => s.vec(0, 24, |s| s.below(256) as u8),
        6 => {
            // decimal parts of all kinds
            let n = *s.pick(&[4u8, 4, 4, 3, 2, 1, 5]);
            let mut b = vec![0x90 + n];
            for _ in 0..n {
                match s.usize(4) {
                    0 => b.push(38),
                    1 => {
                        b.push(0xcf);
                        b.extend(s.edgy_u64().to_be_bytes());
                    }
                    2 => {
                        b.push(0xd3);
                        b.extend(s.edgy_i64().to_be_bytes());
                    }
                    _ => b.push(0xc0),
                }
            }
            b
        }
        7 => [vec![0xcf], s.edgy_u64().to_be_bytes().to_vec()].concat(),
        8 => [vec![0xd3], s.edgy_i64().to_be_bytes().to_vec()].concat(),
        9 => vec![0xa4, 0xff, 0xc3, 0x28, 0x00],
        10 => [vec![0xc4, 3], vec![1, 2, 3]].concat(),
        _ => [vec![0xcb], s.u64().to_be_bytes().to_vec()].concat(),
    }
}

fn hostile_guest(s: &mut Src) -> (String, bool) {
    let pages = *s.pick(&[1u32, 2, 1, 0, 200]);
    let mem = match s.weighted(&[40, 1, 1, 4]) {
        0 => format!(r#"(memory (export "memory") {pages})"#),
        1 => format!(r#"(memory (export "mem") {pages})"#),
        2 => format!(r#"(memory {pages}) (func (export "memory"))"#),
        _ => format!(r#"(memory (export "memory") {pages} {pages})"#),
    };
    let trap = s.pick(&[
        "unreachable",
        "(drop (i32.div_s (i32.const 1) (i32.const 0)))",
        "(call $deep)",
        "(drop (i32.load (i32.const -4)))",
        "(drop (memory.grow (i32.const 1)))",
        "(call_indirect (i32.const 5))",
        "(call $exit (i32.const 3))",
    ]);
    let alloc = match s.weighted(&[20, 15, 4, 1, 1]) {
        0 => format!(
            r#"(func (export "alloc") (param $n i32) (result i32)
              (global.set $g (i32.add (global.get $g) (local.get $n))) (i32.sub (global.get $g) (local.get $n)))"#
        ),
        1 => format!(r#"(func (export "alloc") (param i32) (result i32) (i32.const {}))"#, edge_ptr(s, pages)),
        2 => format!(r#"(func (export "alloc") (param i32) (result i32) {trap} (i32.const 4096))"#),
        3 => s
            .pick(&[
                r#"(func (export "alloc") (param i64) (result i32) (i32.const 0))"#,
                r#"(func (export "alloc") (param i32) (result i64) (i64.const 0))"#,
                r#"(func (export "alloc"))"#,
                r#"(global (export "alloc") i32 (i32.const 0))"#,
            ])
            .to_string(),
        _ => String::new(),
    };
    let dealloc = match s.weighted(&[24, 5, 1, 1]) {
        0 => r#"(func (export "dealloc") (param i32 i32))"#.to_string(),
        1 => format!(r#"(func (export "dealloc") (param i32 i32) {trap})"#),
        2 => r#"(func (export "dealloc") (param i32))"#.to_string(),
        _ => String::new(),
    };
    let out = edge_ptr(s, pages);
    let payload = nasty_payload(s);
    let size = match s.usize(4) {
        0 | 1 => payload.len() as i32,
        2 => *s.pick(&[-1, i32::MIN, i32::MAX, 0, i32::MAX - 3, i32::MAX - 4, 65536, -4]),
        _ => s.edgy_u64() as i32,
    };
    // where the output can be placed as data, do so; otherwise the pointer goes to whatever is there
    let mut image = size.to_le_bytes().to_vec();
    image.extend(&payload);
    let end = pages as u64 * 65536;
    let at = out as u32 as u64;
    let fits = at + image.len() as u64 <= end;
    let part = if fits { image.len() } else { end.saturating_sub(at).min(4) as usize };
    let data = if part > 0 {
        format!(r#"(data (i32.const {out}) "{}")"#, image[..part].iter().map(|b| format!("\\{b:02x}")).collect::<String>())
    } else {
        String::new()
    };
    let body = match s.weighted(&[10, 2, 2, 1]) {
        0 => format!("(i32.const {out})"),
        1 => format!("{trap} (i32.const {out})"),
        2 => "(local.get 0)".to_string(), // the input as the output
        _ => format!("(i32.store (local.get 0) (i32.const {size})) (local.get 0)"),
    };
    let udf = match s.weighted(&[30, 1]) {
        0 => format!(r#"(func (export "f") (param i32) (result i32) {body})"#),
        _ => s
            .pick(&[
                r#"(func (export "f") (param i32 i32) (result i32) (i32.const 0))"#,
                r#"(func (export "f") (param i32) (result i32 i32) (i32.const 0) (i32.const 0))"#,
                r#"(func (export "f") (param i32) (result f32) (f32.const 0))"#,
                r#"(func (export "f") (param externref) (result i32) (i32.const 0))"#,
                r#"(table (export "f") 1 funcref)"#,
            ])
            .to_string(),
    };
    let import = if s.chance(1, 50) { r#"(import "env" "nosuch" (func))"# } else { "" };
    let start = if s.chance(1, 30) { format!("(func $start {trap}) (start $start)") } else { String::new() };
    let wat = format!(
        r#"(module {import} (import "wasi_snapshot_preview1" "proc_exit" (func $exit (param i32)))
  {mem} (table 2 funcref) (global $g (mut i32) (i32.const 8192))
  (func $deep (call $deep))
  {data}
  {alloc}
  {dealloc}
  {udf}
  {start})"#
    );
    (wat, fits)
}

fn guest(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (wat, fits) = hostile_guest(s);
    let wasm = wat::parse_str(&wat).unwrap_or_else(|e| panic!("{e}\n{wat}"));
    if fits {
        ctx.label("output in memory");
    }
    let inputs = s.vec(0, 3, ty);
    let (args, rows) = args(s, &inputs);
    let c = Case { lang: L::WasmMessagePack, wasm, entry: "f".into(), inputs, ret: ty(s), args, rows };
    judge(s, ctx, c, dbg_short(&wat).replace("\\n", "\n").replace("\\\"", "\""))
}

/// plain functions of all shapes
fn native(s: &mut Src, ctx: &mut Ctx) -> Res {
    let vt = |s: &mut Src| *s.pick(&["i32", "i64", "f32", "f64", "i32", "i64", "f32", "f64", "i32", "i64", "v128", "externref", "funcref"]);
    let zero = |t: &str| match t {
        "v128" => "(v128.const i64x2 0 0)".to_string(),
        "externref" => "(ref.null extern)".into(),
        "funcref" => "(ref.null func)".into(),
        t => format!("({t}.const 0)"),
    };
    let ps: Vec<&str> = s.vec(0, 4, vt);
    let rs: Vec<&str> = match s.weighted(&[16, 1, 1]) {
        0 => vec![vt(s)],
        1 => vec![],
        _ => vec![vt(s), vt(s)],
    };
    let trap = *s.pick(&["", "", "", "unreachable", "(call $deep)", "(drop (i32.load (i32.const -4)))", "(call_indirect (i32.const 5))"]);
    let func = match s.weighted(&[8, 1]) {
        0 => format!(
            r#"(func (export "f"){}{} {trap} {})"#,
            ps.iter().map(|p| format!(" (param {p})")).collect::<String>(),
            rs.iter().map(|p| format!(" (result {p})")).collect::<String>(),
            rs.iter().map(|t| zero(t)).collect::<String>()
        ),
        _ => s
            .pick(&[
                r#"(global (export "f") i32 (i32.const 0))"#,
                r#"(memory (export "f") 1)"#,
                r#"(table (export "f") 1 funcref)"#,
                r#"(func)"#,
            ])
            .to_string(),
    };
    let start = if s.chance(1, 8) { "(func $s unreachable) (start $s)" } else { "" };
    let import = if s.chance(1, 50) { r#"(import "env" "x" (func))"# } else { "" };
    let wat = format!("(module {import} (table 2 funcref) (func $deep (call $deep)) (memory 1) {func} {start})");
    let wasm = match wat::parse_str(&wat) {
        Ok(w) => w,
        Err(_) => return native_fallback(s, ctx),
    };
    // declared as the module has it where that is possible, or as anything
    let decl = |s: &mut Src, t: &str| {
        if s.chance(1, 12) {
            return ty(s);
        }
        match t {
            "i32" => T::INT,
            "i64" => T::BIGINT,
            "f32" => T::REAL,
            "f64" => T::DOUBLE,
            _ => ty(s),
        }
    };
    let mut inputs: Vec<T> = ps.iter().map(|p| decl(s, p)).collect();
    if s.chance(1, 8) {
        inputs.push(ty(s));
    }
    let ret = decl(s, rs.first().unwrap_or(&"i32"));
    let (args, rows) = args(s, &inputs);
    let c = Case { lang: L::Wasm, wasm, entry: "f".into(), inputs, ret, args, rows };
    judge(s, ctx, c, wat)
}

fn native_fallback(_: &mut Src, ctx: &mut Ctx) -> Res {
    ctx.label("module not expressible");
    Ok(())
}

/// after failures on some rows the same function still works on others
fn recover(s: &mut Src, ctx: &mut Ctx) -> Res {
    // the last byte of the input selects: 0..3 good payloads, others hostile outcomes
    let hostile = [
        "unreachable (i32.const 0)".to_string(),
        "(i32.const -1)".into(),
        "(i32.const 65535)".into(),
        "(i32.store (i32.const 2000) (i32.const -5)) (i32.const 2000)".into(),
        "(i32.store (i32.const 2000) (i32.const 2147483647)) (i32.const 2000)".into(),
        "(i32.store (i32.const 2000) (i32.const 1)) (i32.store8 (i32.const 2004) (i32.const 193)) (i32.const 2000)".into(),
        "(call $deep) (i32.const 0)".into(),
        "(memory.fill (i32.const 0) (i32.const 255) (i32.const 65536)) (i32.const 0)".into(),
    ];
    let k = s.usize(hostile.len());
    let wat = format!(
        r#"(module (memory (export "memory") 1) (global $g (mut i32) (i32.const 8192))
  (func $deep (call $deep))
  (func (export "alloc") (param $n i32) (result i32)
    (global.set $g (i32.add (global.get $g) (local.get $n))) (i32.sub (global.get $g) (local.get $n)))
  (func (export "dealloc") (param i32 i32))
  (func (export "f") (param $in i32) (result i32) (local $b i32)
    (local.set $b (i32.load8_u offset=3 (i32.add (local.get $in) (i32.load (local.get $in)))))
    (if (result i32) (i32.lt_u (local.get $b) (i32.const 64))
      (then (i32.store (i32.const 1000) (i32.const 1)) (i32.store8 (i32.const 1004) (local.get $b)) (i32.const 1000))
      (else {}))))"#,
        hostile[k]
    );
    let wasm = wat::parse_str(&wat).unwrap_or_else(|e| panic!("{e}\n{wat}"));
    let u = match no_panic(|| create_udf_from_wasm(&L::WasmMessagePack, "f", &wasm, "f", &vec![T::INT], &T::INT, Volatility::Volatile)) {
        Ok(Ok(u)) => u,
        o => fail!("recover-create", "a valid function is refused: {o:?}"),
    };
    ctx.describe(format!("hostile rows: {}", hostile[k]));
    let mut keys = vec![];
    for _ in 0..s.urange(2, 6) {
        let rows: Vec<i32> = s.vec(1, 5, |s| if s.chance(1, 5) { 64 + s.below(60) as i32 } else { s.below(64) as i32 });
        let bad = rows.iter().any(|r| *r >= 64);
        let r = match no_panic(|| u.invoke_batch(&[ColumnarValue::Array(Arc::new(Int32Array::from(rows.clone())))], rows.len())) {
            Ok(r) => r,
            Err((_, m)) => fail!("recover-panic", "the server panics: {m}\n{} rows {rows:?}", ctx.desc),
        };
        match (r, bad) {
            (Err(_), true) => {}
            (Ok(ColumnarValue::Array(a)), false) => {
                ensure_eq!(a.as_primitive::<arrow::datatypes::Int32Type>().values().to_vec(), rows, "recover-value", "a call after failed calls")
            }
            (o, _) => fail!("recover-outcome", "rows {rows:?} after {keys:?}: {o:?}\n{}", ctx.desc),
        }
        keys.push(rows);
        ctx.evals += 1;
    }
    if keys.iter().flatten().any(|r| *r >= 64) && keys.len() > 1 {
        ctx.nontrivial(&(k, &keys));
        ctx.label(format!("hostile behaviour {k}"));
    }
    ctx.describe_more(format!(" calls {keys:?}"));
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C08",
        rule: "non-trivial: a module other than a well-behaved one is registered and, if accepted, called (legs bytes, guest, native); hostile rows are followed by further calls (leg recover). Distinct by module and arguments.",
        assumptions: &[
            "guests that never end, or fill memory that they may legally have, are outside the property (Seafowl sets no such limits); guests that do not end within 20 s are left behind and counted",
            "every call runs on a thread with a 2 MiB stack, like those of the server",
        ],
        legs: vec![
            leg("bytes", 8000, 300000, bytes),
            leg("guest", 4000, 100000, guest),
            leg("native", 3000, 60000, native),
            leg("recover", 500, 8000, recover),
        ],
    })
}
