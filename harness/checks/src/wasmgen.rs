//! Random WASM functions with a reference evaluator.
use pbt::Src;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum W {
    I32,
    I64,
    F32,
    F64,
}

impl W {
    pub fn wat(self) -> &'static str {
        match self {
            W::I32 => "i32",
            W::I64 => "i64",
            W::F32 => "f32",
            W::F64 => "f64",
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum V {
    I32(i32),
    I64(i64),
    F32(f32),
    F64(f64),
}

impl V {
    pub fn i32(&self) -> i32 {
        if let V::I32(v) = self { *v } else { panic!("{self:?}") }
    }
    pub fn i64(&self) -> i64 {
        if let V::I64(v) = self { *v } else { panic!("{self:?}") }
    }
    pub fn f32(&self) -> f32 {
        if let V::F32(v) = self { *v } else { panic!("{self:?}") }
    }
    pub fn f64(&self) -> f64 {
        if let V::F64(v) = self { *v } else { panic!("{self:?}") }
    }
}

pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::I32(a), V::I32(b)) => a == b,
        (V::I64(a), V::I64(b)) => a == b,
        (V::F32(a), V::F32(b)) => (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits(),
        (V::F64(a), V::F64(b)) => (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits(),
        _ => false,
    }
}

pub fn same_opt(a: &Option<V>, b: &Option<V>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => same(a, b),
        _ => false,
    }
}

pub fn value(s: &mut Src, t: W) -> V {
    match t {
        W::I32 => V::I32(s.edgy_i64() as i32),
        W::I64 => V::I64(s.edgy_i64()),
        W::F32 => V::F32(float(s) as f32),
        W::F64 => V::F64(float(s)),
    }
}

pub fn float(s: &mut Src) -> f64 {
    match s.usize(5) {
        0 => s.range(0, 100) as f64,
        1 => s.range(-1000, 1000) as f64 / 8.0,
        2 => *s.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 1e-310, 16777217.0, 0.1]),
        3 => s.edgy_i64() as f64,
        _ => f64::from_bits(s.u64()),
    }
}

/// a constant and its SQL text
pub fn literal(s: &mut Src, t: W) -> (Option<V>, String) {
    if s.chance(1, 6) {
        return (None, "NULL".into());
    }
    let n = s.range(-1000, 1000);
    match t {
        W::I32 => (Some(V::I32(n as i32)), format!("({n})")),
        W::I64 => (Some(V::I64(n)), format!("({n})")),
        W::F32 => (Some(V::F32(n as f32 / 8.0)), format!("({:?})", n as f64 / 8.0)),
        W::F64 => (Some(V::F64(n as f64 / 8.0)), format!("({:?})", n as f64 / 8.0)),
    }
}

#[derive(Clone, Debug)]
pub enum E {
    Param(usize, W),
    Const(V),
    Bin(&'static str, W, Box<E>, Box<E>),
    /// op, from, to
    Un(&'static str, W, W, Box<E>),
}

const INT_OPS: &[&str] = &["add", "sub", "mul", "xor", "and", "or", "shl", "rotl"];
const FLOAT_OPS: &[&str] = &["add", "sub", "mul", "min", "max"];

pub fn expr(s: &mut Src, params: &[W], t: W, depth: usize, traps: bool) -> E {
    let own: Vec<usize> = (0..params.len()).filter(|i| params[*i] == t).collect();
    if depth == 0 || s.chance(1, 4) {
        if own.is_empty() || s.chance(1, 5) {
            // prefer a converted parameter over a constant
            if depth > 0 || params.is_empty() || s.chance(1, 4) {
                return E::Const(value(s, t));
            }
            let i = s.usize(params.len());
            return convert(E::Param(i, params[i]), params[i], t);
        }
        let i = *s.pick(&own);
        return E::Param(i, t);
    }
    match s.weighted(&[5, 2]) {
        0 => {
            let op = match t {
                W::I32 | W::I64 if traps && s.chance(1, 3) => s.pick(&["div_s", "div_u", "rem_s"]),
                W::I32 | W::I64 => s.pick(INT_OPS),
                _ => s.pick(FLOAT_OPS),
            };
            let a = expr(s, params, t, depth - 1, traps);
            let b = expr(s, params, t, depth - 1, traps);
            E::Bin(op, t, Box::new(a), Box::new(b))
        }
        _ => {
            let from = *s.pick(&[W::I32, W::I64, W::F32, W::F64]);
            let e = expr(s, params, from, depth - 1, traps);
            convert(e, from, t)
        }
    }
}

fn convert(e: E, from: W, to: W) -> E {
    use W::*;
    let op = match (from, to) {
        (a, b) if a == b => return e,
        (I32, I64) => "i64.extend_i32_s",
        (I64, I32) => "i32.wrap_i64",
        (I32, F32) => "f32.convert_i32_s",
        (I32, F64) => "f64.convert_i32_s",
        (I64, F32) => "f32.convert_i64_s",
        (I64, F64) => "f64.convert_i64_s",
        (F32, F64) => "f64.promote_f32",
        (F64, F32) => "f32.demote_f64",
        (F32, I32) => "i32.trunc_sat_f32_s",
        (F32, I64) => "i64.trunc_sat_f32_s",
        (F64, I32) => "i32.trunc_sat_f64_s",
        (F64, I64) => "i64.trunc_sat_f64_s",
        _ => unreachable!(),
    };
    E::Un(op, from, to, Box::new(e))
}

pub fn wat_of(e: &E) -> String {
    match e {
        E::Param(i, _) => format!("(local.get {i})"),
        E::Const(V::I32(v)) => format!("(i32.const {v})"),
        E::Const(V::I64(v)) => format!("(i64.const {v})"),
        E::Const(V::F32(v)) => format!("(f32.reinterpret_i32 (i32.const {}))", v.to_bits() as i32),
        E::Const(V::F64(v)) => format!("(f64.reinterpret_i64 (i64.const {}))", v.to_bits() as i64),
        E::Bin(op, t, a, b) => format!("({}.{op} {} {})", t.wat(), wat_of(a), wat_of(b)),
        E::Un(op, _, _, a) => format!("({op} {})", wat_of(a)),
    }
}

pub fn module(name: &str, params: &[W], ret: W, body: &E) -> String {
    let ps: String = params.iter().map(|p| format!(" (param {})", p.wat())).collect();
    format!("(module (func (export {name:?}){ps} (result {}) {}))", ret.wat(), wat_of(body))
}

fn fmin(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() {
        f64::NAN
    } else if a == b {
        if a.is_sign_negative() { a } else { b }
    } else if a < b {
        a
    } else {
        b
    }
}
fn fmax(a: f64, b: f64) -> f64 {
    -fmin(-a, -b)
}

/// None: the function traps
pub fn eval(e: &E, args: &[V]) -> Option<V> {
    Some(match e {
        E::Param(i, _) => args[*i],
        E::Const(v) => *v,
        E::Bin(op, _, a, b) => {
            let (a, b) = (eval(a, args)?, eval(b, args)?);
            match (a, b) {
                (V::I32(a), V::I32(b)) => V::I32(match *op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    "shl" => a.wrapping_shl(b as u32),
                    "rotl" => a.rotate_left(b as u32 & 31),
                    "div_s" => a.checked_div(b)?,
                    "div_u" => (a as u32).checked_div(b as u32)? as i32,
                    "rem_s" => if b == 0 { return None } else { a.wrapping_rem(b) },
                    _ => unreachable!(),
                }),
                (V::I64(a), V::I64(b)) => V::I64(match *op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    "shl" => a.wrapping_shl((b & 63) as u32),
                    "rotl" => a.rotate_left((b & 63) as u32),
                    "div_s" => a.checked_div(b)?,
                    "div_u" => (a as u64).checked_div(b as u64)? as i64,
                    "rem_s" => if b == 0 { return None } else { a.wrapping_rem(b) },
                    _ => unreachable!(),
                }),
                (V::F32(a), V::F32(b)) => V::F32(match *op {
                    "add" => a + b,
                    "sub" => a - b,
                    "mul" => a * b,
                    "min" => fmin(a as f64, b as f64) as f32,
                    "max" => fmax(a as f64, b as f64) as f32,
                    _ => unreachable!(),
                }),
                (V::F64(a), V::F64(b)) => V::F64(match *op {
                    "add" => a + b,
                    "sub" => a - b,
                    "mul" => a * b,
                    "min" => fmin(a, b),
                    "max" => fmax(a, b),
                    _ => unreachable!(),
                }),
                _ => unreachable!(),
            }
        }
        E::Un(_, _, to, a) => {
            let a = eval(a, args)?;
            match (a, *to) {
                (V::I32(a), W::I64) => V::I64(a as i64),
                (V::I32(a), W::F32) => V::F32(a as f32),
                (V::I32(a), W::F64) => V::F64(a as f64),
                (V::I64(a), W::I32) => V::I32(a as i32),
                (V::I64(a), W::F32) => V::F32(a as f32),
                (V::I64(a), W::F64) => V::F64(a as f64),
                (V::F32(a), W::I32) => V::I32(a as i32),
                (V::F32(a), W::I64) => V::I64(a as i64),
                (V::F32(a), W::F64) => V::F64(a as f64),
                (V::F64(a), W::I32) => V::I32(a as i32),
                (V::F64(a), W::I64) => V::I64(a as i64),
                (V::F64(a), W::F32) => V::F32(a as f32),
                _ => unreachable!(),
            }
        }
    })
}

// ------------------------------------------------------------------------------------------------
// MessagePack guests

fn data_str(bytes: &[u8]) -> String {
    bytes.iter().map(|b| format!("\\{b:02x}")).collect()
}

/// A well-behaved guest that checks its host: the allocator keeps each buffer between a header and
/// a canary, fills it with garbage, and traps if a buffer is released with another size, twice, or
/// after something wrote past its end, or when more than 48 buffers are in use (a call needs two). Exports:
/// * `hex`: its whole input (the bytes announced by the size prefix), as a hexadecimal text
/// * `echo`: the only element of its input array
/// * `pick`: the payload with the number given by the last byte of its input
/// `base` is where the heap starts (high values give addresses above 2^31).
pub fn msgpack_guest(payloads: &[Vec<u8>], high: bool) -> Vec<u8> {
    let table = 64usize;
    let mut data = vec![];
    let mut dir = vec![];
    let start = table + 8 * payloads.len();
    for p in payloads {
        dir.extend(((start + data.len()) as u32).to_le_bytes());
        dir.extend((p.len() as u32).to_le_bytes());
        data.extend(p);
    }
    let low = (start + data.len() + 15) & !15;
    let pages = if high { 32770 } else { low / 65536 + 1 };
    let heap = if high { 0x8000_0010u32 as i32 } else { low as i32 };
    let wat = format!(
        r#"(module
  (memory (export "memory") {pages})
  (data (i32.const {table}) "{dir}{data}")
  (global $next (mut i32) (i32.const {heap}))
  (global $live (mut i32) (i32.const 0))
  (func $alloc (export "alloc") (param $n i32) (result i32) (local $p i32)
    (global.set $live (i32.add (global.get $live) (i32.const 1)))
    (if (i32.gt_u (global.get $live) (i32.const 48)) (then unreachable))
    (local.set $p (i32.add (global.get $next) (i32.const 8)))
    (global.set $next (i32.and (i32.add (i32.add (local.get $p) (local.get $n)) (i32.const 23)) (i32.const -8)))
    (block $done (loop $more
      (br_if $done (i64.ge_u (i64.mul (i64.extend_i32_u (memory.size)) (i64.const 65536)) (i64.extend_i32_u (global.get $next))))
      (if (i32.eq (memory.grow (i32.const 4)) (i32.const -1)) (then unreachable))
      (br $more)))
    (i32.store (i32.sub (local.get $p) (i32.const 8)) (local.get $n))
    (memory.fill (local.get $p) (i32.const 204) (local.get $n))
    (i64.store align=1 (i32.add (local.get $p) (local.get $n)) (i64.const 0x1122334455667788))
    (local.get $p))
  (func $check (param $p i32) (param $n i32)
    (if (i32.ne (i32.load (i32.sub (local.get $p) (i32.const 8))) (local.get $n)) (then unreachable))
    (if (i64.ne (i64.load align=1 (i32.add (local.get $p) (local.get $n))) (i64.const 0x1122334455667788)) (then unreachable)))
  (func (export "dealloc") (param $p i32) (param $n i32)
    (call $check (local.get $p) (local.get $n))
    (global.set $live (i32.sub (global.get $live) (i32.const 1)))
    (i32.store (i32.sub (local.get $p) (i32.const 8)) (i32.const -1))
    (memory.fill (local.get $p) (i32.const 221) (local.get $n)))
  (func $size (param $in i32) (result i32) (local $n i32)
    (local.set $n (i32.load (local.get $in)))
    (call $check (local.get $in) (i32.add (local.get $n) (i32.const 4)))
    (local.get $n))
  (func $digit (param $d i32) (result i32)
    (i32.add (local.get $d) (select (i32.const 48) (i32.const 87) (i32.lt_u (local.get $d) (i32.const 10)))))
  (func (export "hex") (param $in i32) (result i32) (local $n i32) (local $m i32) (local $out i32) (local $i i32) (local $o i32) (local $b i32)
    (local.set $n (call $size (local.get $in)))
    (local.set $m (i32.mul (local.get $n) (i32.const 2)))
    (local.set $out (call $alloc (i32.add (local.get $m) (i32.const 9))))
    (i32.store (local.get $out) (i32.add (local.get $m) (i32.const 5)))
    (i32.store8 offset=4 (local.get $out) (i32.const 219))
    (i32.store8 offset=5 (local.get $out) (i32.shr_u (local.get $m) (i32.const 24)))
    (i32.store8 offset=6 (local.get $out) (i32.shr_u (local.get $m) (i32.const 16)))
    (i32.store8 offset=7 (local.get $out) (i32.shr_u (local.get $m) (i32.const 8)))
    (i32.store8 offset=8 (local.get $out) (local.get $m))
    (block $done (loop $more
      (br_if $done (i32.ge_u (local.get $i) (local.get $n)))
      (local.set $b (i32.load8_u offset=4 (i32.add (local.get $in) (local.get $i))))
      (local.set $o (i32.add (local.get $out) (i32.mul (local.get $i) (i32.const 2))))
      (i32.store8 offset=9 (local.get $o) (call $digit (i32.shr_u (local.get $b) (i32.const 4))))
      (i32.store8 offset=10 (local.get $o) (call $digit (i32.and (local.get $b) (i32.const 15))))
      (local.set $i (i32.add (local.get $i) (i32.const 1)))
      (br $more)))
    (local.get $out))
  (func (export "echo") (param $in i32) (result i32) (local $n i32) (local $out i32)
    (local.set $n (i32.sub (call $size (local.get $in)) (i32.const 1)))
    (local.set $out (call $alloc (i32.add (local.get $n) (i32.const 4))))
    (i32.store (local.get $out) (local.get $n))
    (memory.copy (i32.add (local.get $out) (i32.const 4)) (i32.add (local.get $in) (i32.const 5)) (local.get $n))
    (local.get $out))
  (func (export "pick") (param $in i32) (result i32) (local $e i32) (local $n i32) (local $out i32)
    (local.set $e (i32.add (i32.const {table}) (i32.mul (i32.const 8)
      (i32.load8_u offset=3 (i32.add (local.get $in) (call $size (local.get $in)))))))
    (local.set $n (i32.load offset=4 (local.get $e)))
    (local.set $out (call $alloc (i32.add (local.get $n) (i32.const 4))))
    (i32.store (local.get $out) (local.get $n))
    (memory.copy (i32.add (local.get $out) (i32.const 4)) (i32.load (local.get $e)) (local.get $n))
    (local.get $out)))"#,
        dir = data_str(&dir),
        data = data_str(&data),
    );
    wat::parse_str(&wat).unwrap_or_else(|e| panic!("{e}\n{wat}"))
}
