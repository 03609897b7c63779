//! C07: a MessagePack WASM UDF sees and returns exactly the SQL values.
use arrow::array::*;
use arrow::datatypes::*;
use arrow_buffer::NullBuffer;
use checks::wasmgen::{float, msgpack_guest};
use datafusion::common::ScalarValue;
use datafusion::datasource::MemTable;
use datafusion::logical_expr::{ColumnarValue, Volatility};
use datafusion::prelude::SessionContext;
use pbt::*;
use rmpv::Value as M;
use seafowl::wasm_udf::data_types::{CreateFunctionDataType as T, CreateFunctionLanguage as L};
use seafowl::wasm_udf::wasm::create_udf_from_wasm;
use std::cell::RefCell;
use std::sync::Arc;

#[derive(Clone, Debug)]
enum X {
    Null,
    Int(i64),
    Dec(i128),
    F32(f32),
    F64(f64),
    Text(String),
    Bool(bool),
}

fn same(a: &X, b: &X) -> bool {
    match (a, b) {
        (X::Null, X::Null) => true,
        (X::Int(a), X::Int(b)) => a == b,
        (X::Dec(a), X::Dec(b)) => a == b,
        (X::F32(a), X::F32(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (X::F64(a), X::F64(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
        (X::Text(a), X::Text(b)) => a == b,
        (X::Bool(a), X::Bool(b)) => a == b,
        _ => false,
    }
}

fn ty(s: &mut Src) -> T {
    match s.usize(17) {
        0 => T::INT,
        1 => T::BIGINT,
        2 => T::SMALLINT,
        3 => T::TEXT,
        4 => T::VARCHAR,
        5 => T::CHAR,
        6 => T::BOOLEAN,
        7 => T::DATE,
        8 => T::TIMESTAMP,
        9 => T::FLOAT,
        10 => T::REAL,
        11 => T::DOUBLE,
        12 => T::I32,
        13 => T::I64,
        14 => T::F32,
        15 => T::F64,
        _ => {
            let p = s.urange(1, 38) as i64;
            let sc = match s.usize(3) {
                0 => s.range(0, p),
                1 => 0,
                _ => s.range(-10, p),
            };
            T::DECIMAL { precision: p as u8, scale: sc as i8 }
        }
    }
}

fn arrow_type(t: &T) -> DataType {
    match t {
        T::SMALLINT => DataType::Int16,
        T::INT | T::I32 => DataType::Int32,
        T::BIGINT | T::I64 => DataType::Int64,
        T::CHAR | T::VARCHAR | T::TEXT => DataType::Utf8,
        T::FLOAT | T::REAL | T::F32 => DataType::Float32,
        T::DOUBLE | T::F64 => DataType::Float64,
        T::BOOLEAN => DataType::Boolean,
        T::DATE => DataType::Date32,
        T::TIMESTAMP => DataType::Timestamp(TimeUnit::Nanosecond, None),
        T::DECIMAL { precision, scale } => DataType::Decimal128(*precision, *scale),
    }
}

fn text(s: &mut Src) -> String {
    match s.usize(6) {
        0 => s.string_of(&['a', 'b', ' ', '\'', '"', '\\'], 0, 12),
        1 => s.string_of(&['é', '漢', '😀', '\0', '\n', '\u{7f}', '\u{10ffff}'], 0, 8),
        2 => {
            // around the msgpack length classes
            let n = *s.pick(&[31usize, 32, 255, 256, 300]);
            "x".repeat(n)
        }
        3 => {
            let n = *s.pick(&[65535usize, 65536, 70000]);
            "y".repeat(if s.chance(1, 6) { n } else { 33 })
        }
        4 => String::new(),
        _ => checks::sqlgen::text(s),
    }
}

fn value(s: &mut Src, t: &T, null: bool) -> X {
    if null && s.chance(1, 5) {
        return X::Null;
    }
    match t {
        T::SMALLINT => X::Int(s.edgy_i64() as i16 as i64),
        T::INT | T::I32 | T::DATE => X::Int(s.edgy_i64() as i32 as i64),
        T::BIGINT | T::I64 | T::TIMESTAMP => X::Int(s.edgy_i64()),
        T::CHAR | T::VARCHAR | T::TEXT => X::Text(text(s)),
        T::FLOAT | T::REAL | T::F32 => X::F32(float(s) as f32),
        T::DOUBLE | T::F64 => X::F64(float(s)),
        T::BOOLEAN => X::Bool(s.bool()),
        T::DECIMAL { precision, .. } => {
            let max = 10i128.pow(*precision as u32) - 1;
            let v = match s.usize(4) {
                0 => s.range(0, 100) as i128,
                1 => max - s.below(3) as i128,
                2 => {
                    // around the 64-bit halves
                    let k = *s.pick(&[31u32, 32, 62, 63, 64, 65, 96, 120]);
                    (1i128 << k) + s.range(-2, 2) as i128
                }
                _ => ((s.u64() as i128) << 64 | s.u64() as i128) % (max + 1),
            };
            let v = v.clamp(0, max);
            X::Dec(if s.bool() { -v } else { v })
        }
    }
}

fn array(t: &T, vals: &[X], s: &mut Src) -> ArrayRef {
    // NULL slots hold arbitrary values
    let junk: Vec<X> = vals.iter().map(|v| if let X::Null = v { value(s, t, false) } else { v.clone() }).collect();
    let nulls = Some(NullBuffer::from(vals.iter().map(|v| !matches!(v, X::Null)).collect::<Vec<_>>()));
    let int = |x: &X| if let X::Int(v) = x { *v } else { panic!() };
    match t {
        T::SMALLINT => Arc::new(Int16Array::new(junk.iter().map(|x| int(x) as i16).collect(), nulls)),
        T::INT | T::I32 => Arc::new(Int32Array::new(junk.iter().map(|x| int(x) as i32).collect(), nulls)),
        T::BIGINT | T::I64 => Arc::new(Int64Array::new(junk.iter().map(int).collect(), nulls)),
        T::DATE => Arc::new(Date32Array::new(junk.iter().map(|x| int(x) as i32).collect(), nulls)),
        T::TIMESTAMP => Arc::new(TimestampNanosecondArray::new(junk.iter().map(int).collect(), nulls)),
        T::FLOAT | T::REAL | T::F32 => Arc::new(Float32Array::new(
            junk.iter().map(|x| if let X::F32(v) = x { *v } else { panic!() }).collect(),
            nulls,
        )),
        T::DOUBLE | T::F64 => Arc::new(Float64Array::new(
            junk.iter().map(|x| if let X::F64(v) = x { *v } else { panic!() }).collect(),
            nulls,
        )),
        T::BOOLEAN => Arc::new(BooleanArray::new(
            junk.iter().map(|x| if let X::Bool(v) = x { *v } else { panic!() }).collect::<Vec<_>>().into(),
            nulls,
        )),
        T::CHAR | T::VARCHAR | T::TEXT => {
            let plain = StringArray::from_iter_values(junk.iter().map(|x| if let X::Text(v) = x { v.as_str() } else { panic!() }));
            let (off, values, _) = plain.into_parts();
            Arc::new(StringArray::new(off, values, nulls))
        }
        T::DECIMAL { precision, scale } => Arc::new(
            Decimal128Array::new(junk.iter().map(|x| if let X::Dec(v) = x { *v } else { panic!() }).collect(), nulls)
                .with_precision_and_scale(*precision, *scale)
                .unwrap(),
        ),
    }
}

fn cell(t: &T, a: &ArrayRef, i: usize) -> X {
    if a.is_null(i) {
        return X::Null;
    }
    match t {
        T::SMALLINT => X::Int(a.as_primitive::<Int16Type>().value(i) as i64),
        T::INT | T::I32 => X::Int(a.as_primitive::<Int32Type>().value(i) as i64),
        T::BIGINT | T::I64 => X::Int(a.as_primitive::<Int64Type>().value(i)),
        T::DATE => X::Int(a.as_primitive::<Date32Type>().value(i) as i64),
        T::TIMESTAMP => X::Int(a.as_primitive::<TimestampNanosecondType>().value(i)),
        T::FLOAT | T::REAL | T::F32 => X::F32(a.as_primitive::<Float32Type>().value(i)),
        T::DOUBLE | T::F64 => X::F64(a.as_primitive::<Float64Type>().value(i)),
        T::BOOLEAN => X::Bool(a.as_boolean().value(i)),
        T::CHAR | T::VARCHAR | T::TEXT => X::Text(a.as_string::<i32>().value(i).to_string()),
        T::DECIMAL { .. } => X::Dec(a.as_primitive::<Decimal128Type>().value(i)),
    }
}

/// what the guest has to receive, as documented in the source of the protocol
fn seen_as(t: &T, x: &X, m: &M) -> bool {
    match x {
        X::Null => m.is_nil(),
        X::Int(v) => m.as_i64() == Some(*v) && m.is_number() && !matches!(m, M::F32(_) | M::F64(_)),
        X::Bool(b) => m.as_bool() == Some(*b),
        X::Text(v) => m.as_str() == Some(v.as_str()),
        X::F32(v) => matches!(m, M::F32(w) if w.to_bits() == v.to_bits() || (w.is_nan() && v.is_nan())),
        X::F64(v) => matches!(m, M::F64(w) if w.to_bits() == v.to_bits() || (w.is_nan() && v.is_nan())),
        X::Dec(v) => {
            let T::DECIMAL { precision, scale } = t else { return false };
            let Some(parts) = m.as_array() else { return false };
            let low = |m: &M| m.as_i64().map(|v| v as u64).or(m.as_u64());
            parts.len() == 4
                && parts[0].as_i64() == Some(*precision as i64)
                && parts[1].as_i64() == Some(*scale as i64)
                && parts[2].as_i64() == Some((*v >> 64) as i64)
                && low(&parts[3]) == Some(*v as u64)
        }
    }
}

thread_local! {
    static PLAIN: RefCell<Option<(Vec<u8>, Vec<u8>)>> = const { RefCell::new(None) };
}

fn plain_guest(high: bool) -> Vec<u8> {
    PLAIN.with(|p| {
        let mut p = p.borrow_mut();
        let (a, b) = p.get_or_insert_with(|| (msgpack_guest(&[], false), msgpack_guest(&[], true)));
        if high { b.clone() } else { a.clone() }
    })
}

/// argument columns of the given types; returns what to pass and, per row, the values
fn arguments(s: &mut Src, types: &[T], rows: usize, ctx: &mut Ctx) -> (Vec<ColumnarValue>, Vec<Vec<X>>) {
    let mut model: Vec<Vec<X>> = vec![vec![]; rows];
    let mut args = vec![];
    let (mut cols, mut consts) = (0, 0);
    for t in types {
        if s.chance(1, 3) {
            let v = value(s, t, true);
            let a = array(t, &[v.clone()], s);
            args.push(ColumnarValue::Scalar(ScalarValue::try_from_array(&a, 0).unwrap()));
            model.iter_mut().for_each(|r| r.push(v.clone()));
            consts += 1;
        } else {
            let pad = if s.chance(1, 4) { 1 } else { 0 };
            let vals: Vec<X> = (0..rows + pad).map(|_| value(s, t, true)).collect();
            let a = array(t, &vals, s);
            args.push(ColumnarValue::Array(a.slice(pad, rows)));
            model.iter_mut().zip(&vals[pad..]).for_each(|(r, v)| r.push(v.clone()));
            cols += 1;
        }
    }
    if cols > 0 && consts > 0 {
        ctx.label("mixed columns and constants");
    }
    if cols == 0 {
        // the call is on constants only: one value stands for all rows
        model.truncate(1);
    }
    (args, model)
}

fn to_array(v: ColumnarValue) -> ArrayRef {
    match v {
        ColumnarValue::Array(a) => a,
        ColumnarValue::Scalar(v) => v.to_array().unwrap(),
    }
}

/// the bytes the guest receives
fn seen(s: &mut Src, ctx: &mut Ctx) -> Res {
    let types = match s.weighted(&[8, 1]) {
        0 => s.vec(1, 5, ty),
        _ => (0..s.urange(14, 18)).map(|_| ty(s)).collect(),
    };
    let high = s.chance(1, 12);
    let u = create_udf_from_wasm(&L::WasmMessagePack, "f", &plain_guest(high), "hex", &types, &T::TEXT, Volatility::Volatile)
        .map_err(|e| Fail::new("create", format!("a valid function is refused: {e}")))?;
    let rows = *s.pick(&[2usize, 1, 3, 0, 6]);
    let (args, model) = arguments(s, &types, rows, ctx);
    let rows = if args.iter().any(|a| matches!(a, ColumnarValue::Array(_))) { rows } else { 1 };
    if model.is_empty() && rows == 1 {
        return Ok(());
    }
    ctx.describe(format!("{types:?} {}", dbg_short(&model)));
    ctx.label(format!("arity {}", types.len()));
    types.iter().for_each(|t| ctx.label(format!("type {}", t.to_string())));
    if rows > 0 {
        ctx.nontrivial(&format!("{types:?} {model:?}"));
    }
    ctx.evals += rows as u64;
    let out = match u.invoke_batch(&args, rows) {
        Ok(o) => to_array(o),
        Err(e) => fail!("seen-error", "the call fails: {}\n{}", dbg_short(&e.to_string()), ctx.desc),
    };
    ensure_eq!(out.len(), rows, "seen-rows", "number of results\n{}", ctx.desc);
    for i in 0..rows {
        let hex = out.as_string::<i32>().value(i).to_string();
        let bytes: Vec<u8> = (0..hex.len() / 2).map(|k| u8::from_str_radix(&hex[2 * k..2 * k + 2], 16).unwrap()).collect();
        let mut rest = &bytes[..];
        let m = rmpv::decode::read_value(&mut rest);
        let good = match &m {
            Ok(M::Array(vs)) => {
                rest.is_empty() && vs.len() == types.len() && vs.iter().zip(&types).zip(&model[i]).all(|((m, t), x)| seen_as(t, x, m))
            }
            _ => false,
        };
        ensure!(good, "seen-value", "row {i} of types {types:?}: values {}\n arrive in the guest as {}", dbg_short(&model[i]), dbg_short(&m));
    }
    Ok(())
}

/// an identity function of each type
fn identity(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = ty(s);
    let high = s.chance(1, 12);
    let u = create_udf_from_wasm(&L::WasmMessagePack, "same", &plain_guest(high), "echo", &vec![t.clone()], &t, Volatility::Volatile)
        .map_err(|e| Fail::new("create", format!("a valid function is refused: {e}")))?;
    let rows = *s.pick(&[2usize, 1, 3, 0, 6]);
    let sql = s.chance(1, 4);
    ctx.label(format!("type {t}"));
    if sql {
        // as a query over a table of two batches
        ctx.label("through SQL");
        let session = SessionContext::new();
        session.register_udf(u);
        let schema = Arc::new(Schema::new(vec![
            Field::new("n", DataType::Int64, false),
            Field::new("c", arrow_type(&t), true),
        ]));
        let mut model = vec![];
        let mut batches = vec![];
        for _ in 0..2 {
            let vals: Vec<X> = (0..rows).map(|_| value(s, &t, true)).collect();
            let ns = Int64Array::from_iter_values((0..rows).map(|i| (model.len() + i) as i64));
            batches.push(RecordBatch::try_new(schema.clone(), vec![Arc::new(ns), array(&t, &vals, s)]).unwrap());
            model.extend(vals);
        }
        session.register_table("t", Arc::new(MemTable::try_new(schema, vec![batches]).unwrap())).unwrap();
        ctx.describe(format!("SELECT n, same(c) ORDER BY n, {t:?} {}", dbg_short(&model)));
        ctx.evals += model.len() as u64;
        if rows > 0 {
            ctx.nontrivial(&format!("{t:?} {model:?}"));
        }
        let res = block_on(async { session.sql("SELECT n, same(c) FROM t ORDER BY n").await?.collect().await });
        let res = match res {
            Ok(r) => r,
            Err(e) => fail!("identity-error", "the query fails: {}\n{}", dbg_short(&e.to_string()), ctx.desc),
        };
        let got: Vec<X> = res.iter().flat_map(|b| (0..b.num_rows()).map(|i| cell(&t, b.column(1), i)).collect::<Vec<_>>()).collect();
        ensure!(
            got.len() == model.len() && got.iter().zip(&model).all(|(a, b)| same(a, b)),
            "identity-value", "{t:?}: identity of {} gives {}", dbg_short(&model), dbg_short(&got)
        );
        return Ok(());
    }
    let (args, model) = arguments(s, &[t.clone()], rows, ctx);
    let rows = if matches!(args[0], ColumnarValue::Array(_)) { rows } else { 1 };
    if model.is_empty() && rows == 1 {
        return Ok(());
    }
    ctx.describe(format!("{t:?} {}", dbg_short(&model)));
    ctx.evals += rows as u64;
    if rows > 0 {
        ctx.nontrivial(&format!("{t:?} {model:?}"));
    }
    let out = match u.invoke_batch(&args, rows) {
        Ok(o) => to_array(o),
        Err(e) => fail!("identity-error", "the call fails: {}\n{}", dbg_short(&e.to_string()), ctx.desc),
    };
    ensure_eq!(out.data_type().clone(), arrow_type(&t), "identity-type", "type of the result");
    ensure_eq!(out.len(), rows, "identity-rows", "number of results\n{}", ctx.desc);
    for i in 0..rows {
        let got = cell(&t, &out, i);
        ensure!(same(&got, &model[i][0]), "identity-value", "{t:?}: identity of {} gives {}", dbg_short(&model[i][0]), dbg_short(&got));
    }
    Ok(())
}

/// what a payload means for a declared result type
enum Meaning {
    Is(X),
    Error,
    /// either an error or this value
    ErrorOr(X),
}

fn int_bytes(s: &mut Src, v: i128) -> Vec<u8> {
    // any legal encoding of the number
    let mut opts: Vec<Vec<u8>> = vec![];
    let mut b = vec![];
    if v <= i64::MAX as i128 {
        rmp::encode::write_sint(&mut b, v as i64).unwrap();
    } else {
        rmp::encode::write_uint(&mut b, v as u64).unwrap();
    }
    opts.push(b);
    let mut add = |marker: u8, be: &[u8]| {
        let mut b = vec![marker];
        b.extend(be);
        opts.push(b);
    };
    if let Ok(x) = i8::try_from(v) {
        add(0xd0, &x.to_be_bytes());
    }
    if let Ok(x) = i16::try_from(v) {
        add(0xd1, &x.to_be_bytes());
    }
    if let Ok(x) = i32::try_from(v) {
        add(0xd2, &x.to_be_bytes());
    }
    if let Ok(x) = i64::try_from(v) {
        add(0xd3, &x.to_be_bytes());
    }
    if let Ok(x) = u8::try_from(v) {
        add(0xcc, &x.to_be_bytes());
    }
    if let Ok(x) = u16::try_from(v) {
        add(0xcd, &x.to_be_bytes());
    }
    if let Ok(x) = u32::try_from(v) {
        add(0xce, &x.to_be_bytes());
    }
    if let Ok(x) = u64::try_from(v) {
        add(0xcf, &x.to_be_bytes());
    }
    s.pick(&opts).clone()
}

fn str_bytes(s: &mut Src, t: &str) -> Vec<u8> {
    let n = t.len();
    let mut opts = vec![];
    let mut add = |head: Vec<u8>| {
        let mut b = head;
        b.extend(t.as_bytes());
        opts.push(b);
    };
    if n < 32 {
        add(vec![0xa0 | n as u8]);
    }
    if n < 256 {
        add(vec![0xd9, n as u8]);
    }
    if n < 65536 {
        add(vec![0xda, (n >> 8) as u8, n as u8]);
    }
    add(vec![0xdb, (n >> 24) as u8, (n >> 16) as u8, (n >> 8) as u8, n as u8]);
    s.pick(&opts).clone()
}

fn dec_bytes(s: &mut Src, p: i64, sc: i64, v: i128) -> Vec<u8> {
    let mut b = vec![0x94];
    b.extend(int_bytes(s, p as i128));
    b.extend(int_bytes(s, sc as i128));
    b.extend(int_bytes(s, v >> 64));
    b.extend(int_bytes(s, v as i64 as i128));
    b
}

fn is_int(t: &T) -> Option<(i128, i128)> {
    Some(match t {
        T::SMALLINT => (i16::MIN as i128, i16::MAX as i128),
        T::INT | T::I32 | T::DATE => (i32::MIN as i128, i32::MAX as i128),
        T::BIGINT | T::I64 | T::TIMESTAMP => (i64::MIN as i128, i64::MAX as i128),
        _ => return None,
    })
}

fn payload(s: &mut Src, t: &T) -> (Vec<u8>, Meaning, &'static str) {
    let k = s.weighted(&[10, 2, 3, 3, 1]);
    if k == 1 {
        return (vec![0xc0], Meaning::Is(X::Null), "nil");
    }
    if k == 4 {
        // not MessagePack
        let bytes = s.pick(&[vec![], vec![0xc1], vec![0xcd, 1], vec![0xa3, b'x'], vec![0x92, 1]]).clone();
        return (bytes, Meaning::Error, "malformed");
    }
    if k == 3 {
        // a value of another kind
        let kind = s.usize(7);
        let (b, m): (Vec<u8>, Meaning) = match kind {
            0 if is_int(t).is_none() => {
                let v = s.range(-5, 300);
                // an integer for a float column: not specified, but never another number
                let m = match t {
                    T::DOUBLE | T::F64 => Meaning::ErrorOr(X::F64(v as f64)),
                    T::FLOAT | T::REAL | T::F32 => Meaning::ErrorOr(X::F32(v as f32)),
                    _ => Meaning::Error,
                };
                (int_bytes(s, v as i128), m)
            }
            1 if !matches!(t, T::CHAR | T::VARCHAR | T::TEXT) => {
                let x = s.pick(&["", "1", "true", "é"]).to_string();
                (str_bytes(s, &x), Meaning::Error)
            }
            2 if !matches!(t, T::BOOLEAN) => (vec![0xc2 | s.below(2) as u8], Meaning::Error),
            3 if !matches!(t, T::DOUBLE | T::F64) => {
                let v = *s.pick(&[0.5f64, 1.0, -3.0, 1e300]);
                let mut b = vec![0xcb];
                b.extend(v.to_be_bytes());
                let m = match t {
                    T::FLOAT | T::REAL | T::F32 if v.abs() < 1e10 => Meaning::ErrorOr(X::F32(v as f32)),
                    _ => Meaning::Error,
                };
                (b, m)
            }
            4 if !matches!(t, T::FLOAT | T::REAL | T::F32) => {
                let v = *s.pick(&[0.5f32, 1.0, -3.0]);
                let mut b = vec![0xca];
                b.extend(v.to_be_bytes());
                let m = match t {
                    T::DOUBLE | T::F64 => Meaning::ErrorOr(X::F64(v as f64)),
                    _ => Meaning::Error,
                };
                (b, m)
            }
            5 => (s.pick(&[vec![0x90], vec![0x80], vec![0x91, 0x05], vec![0xc4, 1, 65], vec![0xd4, 1, 1]]).clone(), Meaning::Error),
            _ => {
                // text that is not UTF-8
                (vec![0xa2, 0xff, 0xfe], Meaning::Error)
            }
        };
        // binary for a text column could be argued about; leave it out
        if b == [0xc4, 1, 65] && matches!(t, T::CHAR | T::VARCHAR | T::TEXT) {
            return (vec![0x90], Meaning::Error, "other kind");
        }
        return (b, m, "other kind");
    }
    if k == 2 {
        // a value outside the declared type
        if let Some((lo, hi)) = is_int(t) {
            let d = 1 + s.below(3) as i128;
            let v = if s.bool() && lo > i64::MIN as i128 { lo - d } else { hi + d };
            return (int_bytes(s, v), Meaning::Error, "out of range");
        }
        if let T::DECIMAL { precision, scale } = t {
            let max = 10i128.pow(*precision as u32) - 1;
            let (p, sc, v) = match s.usize(4) {
                0 => (*precision as i64, *scale as i64, max + 1 + s.below(5) as i128),
                1 => (*precision as i64, *scale as i64, -max - 1 - s.below(5) as i128),
                2 => (*precision as i64 + *s.pick(&[1i64, -1, 256]), *scale as i64, 1),
                _ => (*precision as i64, *scale as i64 + *s.pick(&[1i64, -1, 256]), 1),
            };
            let mut b = dec_bytes(s, p, sc, v);
            if s.chance(1, 3) {
                // wrong number of parts
                let right = dec_bytes(s, *precision as i64, *scale as i64, 1);
                b = match s.usize(4) {
                    0 => [vec![0x95], right[1..].to_vec(), vec![0]].concat(),
                    1 => [vec![0x93, *precision, *scale as u8, 0]].concat(),
                    2 => [vec![0x92, *precision, *scale as u8]].concat(),
                    _ => [vec![0x96], right[1..].to_vec(), vec![0xc0, 0xc0]].concat(),
                };
            }
            return (b, Meaning::Error, "out of range");
        }
    }
    let v = value(s, t, false);
    let b = match &v {
        X::Int(n) => int_bytes(s, *n as i128),
        X::Bool(b) => vec![0xc2 | *b as u8],
        X::Text(x) => str_bytes(s, x),
        X::F32(f) => [vec![0xca], f.to_bits().to_be_bytes().to_vec()].concat(),
        X::F64(f) => [vec![0xcb], f.to_bits().to_be_bytes().to_vec()].concat(),
        X::Dec(v) => {
            let T::DECIMAL { precision, scale } = t else { unreachable!() };
            dec_bytes(s, *precision as i64, *scale as i64, *v)
        }
        X::Null => unreachable!(),
    };
    (b, Meaning::Is(v), "in range")
}

/// what SQL makes of the bytes the guest returns
fn returned(s: &mut Src, ctx: &mut Ctx) -> Res {
    let t = ty(s);
    let n = s.urange(1, 24);
    let ps: Vec<(Vec<u8>, Meaning, &str)> = (0..n).map(|_| payload(s, &t)).collect();
    let good: Vec<usize> = (0..n).filter(|i| matches!(ps[*i].1, Meaning::Is(_))).collect();
    let bytes: Vec<Vec<u8>> = ps.iter().map(|p| p.0.clone()).collect();
    let guest = msgpack_guest(&bytes, s.chance(1, 12));
    let u = create_udf_from_wasm(&L::WasmMessagePack, "f", &guest, "pick", &vec![T::INT], &t, Volatility::Volatile)
        .map_err(|e| Fail::new("create", format!("a valid function is refused: {e}")))?;
    let batches = s.urange(1, 6);
    let short: Vec<String> = bytes.iter().map(|b| dbg_short(&b.iter().map(|x| format!("{x:02x}")).collect::<String>())).collect();
    ctx.describe(format!("{t:?} payloads {}", short.join(" ")));
    ctx.label(format!("type {t}"));
    for _ in 0..batches {
        // mostly good values with at most one bad one, so that it is looked for among good ones
        let rows = if s.chance(1, 12) { 60 + s.usize(60) } else { s.urange(1, 8) };
        let pure = s.chance(1, 8) || good.is_empty();
        let mut idx: Vec<i32> = (0..rows).map(|_| if pure { s.usize(n) as i32 } else { *s.pick(&good) as i32 }).collect();
        if s.bool() {
            let at = s.usize(rows);
            idx[at] = s.usize(n) as i32;
        }
        ctx.describe_more(format!("rows {idx:?}"));
        idx.iter().for_each(|i| ctx.label(ps[*i as usize].2));
        ctx.nontrivial(&(format!("{t:?}"), &bytes, &idx));
        ctx.evals += rows as u64;
        let out = u.invoke_batch(&[ColumnarValue::Array(Arc::new(Int32Array::from(idx.clone())))], rows);
        let must_fail = idx.iter().find(|i| matches!(ps[**i as usize].1, Meaning::Error));
        let may_fail = idx.iter().any(|i| matches!(ps[*i as usize].1, Meaning::ErrorOr(_)));
        let out = match (out, must_fail) {
            (Ok(_), Some(i)) => fail!("returned-accepted", "{t:?}: result {} ({}) is accepted\n{}", short[*i as usize], ps[*i as usize].2, ctx.desc),
            (Err(_), Some(_)) => continue,
            (Err(_), None) if may_fail => continue,
            (Err(e), None) => fail!("returned-error", "{t:?}: good results fail: {}\n{}", dbg_short(&e.to_string()), ctx.desc),
            (Ok(o), None) => to_array(o),
        };
        ensure_eq!(out.data_type().clone(), arrow_type(&t), "returned-type", "type of the result");
        ensure_eq!(out.len(), rows, "returned-rows", "number of results");
        for (i, k) in idx.iter().enumerate() {
            let (Meaning::Is(x) | Meaning::ErrorOr(x)) = &ps[*k as usize].1 else { unreachable!() };
            let got = cell(&t, &out, i);
            ensure!(same(&got, x), "returned-value", "{t:?}: row {i}: guest returned {} = {}, SQL sees {}", short[*k as usize], dbg_short(x), dbg_short(&got));
        }
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C07",
        rule: "non-trivial: at least one row goes through the guest. Distinct by types, values (or returned bytes) and row order.",
        assumptions: &[
            "wasmtime runs the guests correctly; the guests were written for this check and verify the host's side of the buffer protocol (sizes, bounds, release exactly once)",
            "NULL travels as nil; an integer returned for a floating-point type may be an error or that number",
        ],
        legs: vec![
            leg("seen", 4000, 60000, seen),
            leg("identity", 4000, 60000, identity),
            leg("returned", 4000, 60000, returned),
        ],
    })
}
