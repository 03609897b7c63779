//! C06: a native WASM UDF is the guest function applied row by row.
use arrow::array::*;
use arrow::datatypes::*;
use checks::wasmgen::*;
use datafusion::common::ScalarValue;
use datafusion::datasource::MemTable;
use datafusion::logical_expr::{ColumnarValue, TypeSignature, Volatility};
use datafusion::prelude::SessionContext;
use pbt::*;
use seafowl::wasm_udf::data_types::{CreateFunctionDataType as T, CreateFunctionLanguage as L};
use seafowl::wasm_udf::wasm::create_udf_from_wasm;
use std::sync::Arc;

/// declared types that stand for each WASM type, from the documentation
const DECL: &[(T, W, fn() -> DataType)] = &[
    (T::INT, W::I32, || DataType::Int32),
    (T::BIGINT, W::I64, || DataType::Int64),
    (T::DOUBLE, W::F64, || DataType::Float64),
    (T::FLOAT, W::F32, || DataType::Float32),
    (T::REAL, W::F32, || DataType::Float32),
    (T::I32, W::I32, || DataType::Int32),
    (T::I64, W::I64, || DataType::Int64),
    (T::F32, W::F32, || DataType::Float32),
    (T::F64, W::F64, || DataType::Float64),
];
const UNSUPPORTED: &[T] =
    &[T::SMALLINT, T::CHAR, T::VARCHAR, T::TEXT, T::DECIMAL { precision: 10, scale: 2 }, T::BOOLEAN, T::DATE, T::TIMESTAMP];

/// a column whose NULL slots hold arbitrary values
fn column(ty: W, vals: &[V], valid: &[bool], pad: usize) -> ArrayRef {
    let nulls = || Some(arrow_buffer::NullBuffer::from(valid.to_vec()));
    let a: ArrayRef = match ty {
        W::I32 => Arc::new(Int32Array::new(vals.iter().map(|v| v.i32()).collect(), nulls())),
        W::I64 => Arc::new(Int64Array::new(vals.iter().map(|v| v.i64()).collect(), nulls())),
        W::F32 => Arc::new(Float32Array::new(vals.iter().map(|v| v.f32()).collect(), nulls())),
        W::F64 => Arc::new(Float64Array::new(vals.iter().map(|v| v.f64()).collect(), nulls())),
    };
    a.slice(pad, a.len() - pad)
}

fn scalar(ty: W, v: Option<V>) -> ScalarValue {
    match ty {
        W::I32 => ScalarValue::Int32(v.map(|v| v.i32())),
        W::I64 => ScalarValue::Int64(v.map(|v| v.i64())),
        W::F32 => ScalarValue::Float32(v.map(|v| v.f32())),
        W::F64 => ScalarValue::Float64(v.map(|v| v.f64())),
    }
}

fn cell(ty: W, a: &ArrayRef, i: usize) -> Option<V> {
    if a.is_null(i) {
        return None;
    }
    Some(match ty {
        W::I32 => V::I32(a.as_primitive::<Int32Type>().value(i)),
        W::I64 => V::I64(a.as_primitive::<Int64Type>().value(i)),
        W::F32 => V::F32(a.as_primitive::<Float32Type>().value(i)),
        W::F64 => V::F64(a.as_primitive::<Float64Type>().value(i)),
    })
}

struct Func {
    params: Vec<usize>, // indexes into DECL
    ret: usize,
    body: E,
    name: String,
    wasm: Vec<u8>,
}

fn func(s: &mut Src, traps: bool) -> Func {
    let params = s.vec(0, 4, |s| s.usize(DECL.len()));
    let ret = s.usize(DECL.len());
    let ptys: Vec<W> = params.iter().map(|p| DECL[*p].1).collect();
    let body = expr(s, &ptys, DECL[ret].1, 4, traps);
    let name = s.pick(&["f", "main", "my func", "é"]).to_string();
    let wat = module(&name, &ptys, DECL[ret].1, &body);
    let wasm = wat::parse_str(&wat).unwrap_or_else(|e| panic!("{wat}: {e}"));
    Func { params, ret, body, name, wasm }
}

fn udf(f: &Func, lang: L, vol: Volatility) -> datafusion::error::Result<datafusion::logical_expr::ScalarUDF> {
    create_udf_from_wasm(
        &lang,
        "fn1",
        &f.wasm,
        &f.name,
        &f.params.iter().map(|p| DECL[*p].0.clone()).collect(),
        &DECL[f.ret].0,
        vol,
    )
}

/// one call of the UDF on one batch
fn batch(s: &mut Src, ctx: &mut Ctx) -> Res {
    let traps = s.chance(1, 6);
    let f = func(s, traps);
    let vol = *s.pick(&[Volatility::Immutable, Volatility::Stable, Volatility::Volatile]);
    let u = match udf(&f, L::Wasm, vol) {
        Ok(u) => u,
        Err(e) => fail!("create", "a valid function is refused: {e}"),
    };
    ensure_eq!(u.signature().volatility, vol, "volatility", "volatility of the function");
    let want: Vec<DataType> = f.params.iter().map(|p| DECL[*p].2()).collect();
    ensure_eq!(u.signature().type_signature, TypeSignature::Exact(want.clone()), "signature", "argument types");
    ensure_eq!(u.return_type(&want).map_err(|e| e.to_string()), Ok(DECL[f.ret].2()), "return-type", "return type");
    ensure_eq!(u.name(), "fn1", "name", "name of the function");
    // two batches through the same function, so that one call cannot leak into the next
    for round in 0..2 {
        let rows = *s.pick(&[3usize, 1, 2, 0, 5, 9]);
        let mut args = vec![];
        let mut model: Vec<Vec<Option<V>>> = vec![];
        let (mut cols, mut scals, mut nulls) = (0, 0, 0);
        for p in &f.params {
            let ty = DECL[*p].1;
            if s.chance(1, 3) {
                let v = (!s.chance(1, 6)).then(|| value(s, ty));
                scals += 1;
                nulls += v.is_none() as usize;
                model.push(vec![v; rows]);
                args.push(ColumnarValue::Scalar(scalar(ty, v)));
            } else {
                let pad = if s.chance(1, 4) { 2 } else { 0 };
                let vals: Vec<V> = (0..rows + pad).map(|_| value(s, ty)).collect();
                let some_null = s.chance(1, 2);
                let valid: Vec<bool> = (0..rows + pad).map(|_| !(some_null && s.chance(1, 3))).collect();
                cols += 1;
                nulls += valid.iter().filter(|v| !**v).count();
                model.push((pad..rows + pad).map(|i| valid[i].then_some(vals[i])).collect());
                args.push(ColumnarValue::Array(column(ty, &vals, &valid, pad)));
            }
        }
        let n = if cols > 0 { rows } else { 1 };
        if cols == 0 && rows == 0 {
            model.iter_mut().for_each(|m| m.push(None));
            continue; // nothing to observe
        }
        // expected
        let mut expected: Vec<Option<V>> = vec![];
        let mut trap = false;
        for i in 0..n {
            let row: Vec<Option<V>> = model.iter().map(|m| m[i]).collect();
            if row.iter().any(|v| v.is_none()) {
                expected.push(None);
                continue;
            }
            let row: Vec<V> = row.into_iter().flatten().collect();
            match eval(&f.body, &row) {
                Some(v) => expected.push(Some(v)),
                None => {
                    trap = true;
                    break;
                }
            }
        }
        let desc = format!("({}) cols {cols} consts {scals} rows {rows} nulls {nulls}", wat_of(&f.body));
        ctx.describe(desc.clone());
        ctx.evals += n as u64;
        if n > 0 && !f.params.is_empty() {
            ctx.nontrivial(&(wat_of(&f.body), &format!("{model:?}")));
        }
        if round == 0 {
            ctx.label(format!("arity {}", f.params.len()));
            if cols > 0 && scals > 0 {
                ctx.label("mixed columns and constants");
            }
            if nulls > 0 {
                ctx.label("with NULLs");
            }
            if rows == 0 {
                ctx.label("empty batch");
            }
        }
        let out = u.invoke_batch(&args, rows);
        if trap {
            ctx.label("trap");
            ensure!(out.is_err(), "trap-ignored", "a trap of the guest is not reported: {desc}\nmodel {model:?}\ngot {out:?}");
            continue;
        }
        let out = match out {
            Ok(o) => o,
            Err(e) => fail!("call-error", "call fails: {e}\n{desc}\nargs {model:?}"),
        };
        let arr = match &out {
            ColumnarValue::Array(a) => a.clone(),
            ColumnarValue::Scalar(v) => {
                ensure!(cols == 0, "scalar-for-columns", "a scalar is returned for column arguments: {desc}");
                v.to_array().unwrap()
            }
        };
        ensure_eq!(arr.data_type().clone(), DECL[f.ret].2(), "result-type", "type of the result array: {desc}");
        ensure_eq!(arr.len(), n, "row-count", "number of results: {desc}\nargs {model:?}");
        for i in 0..n {
            let got = cell(DECL[f.ret].1, &arr, i);
            ensure!(
                same_opt(&got, &expected[i]),
                if got.is_none() != expected[i].is_none() { "null" } else { "value" },
                "row {i}: expected {:?}, observed {got:?}\nfunction {desc}\narguments {model:?}", expected[i]
            );
        }
    }
    Ok(())
}

/// the same through SQL, over a table of several record batches
fn sql(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = func(s, false);
    let vol = *s.pick(&[Volatility::Immutable, Volatility::Stable, Volatility::Volatile]);
    let u = match udf(&f, L::Wasm, vol) {
        Ok(u) => u,
        Err(e) => fail!("create", "a valid function is refused: {e}"),
    };
    let session = SessionContext::new();
    session.register_udf(u);
    // columns c0.. of the argument types, and the row number
    let mut fields = vec![Field::new("n", DataType::Int64, false)];
    for (i, p) in f.params.iter().enumerate() {
        fields.push(Field::new(format!("c{i}"), DECL[*p].2(), true));
    }
    let schema = Arc::new(Schema::new(fields));
    let mut batches = vec![];
    let mut rows: Vec<Vec<Option<V>>> = vec![];
    for _ in 0..s.urange(1, 3) {
        let n = *s.pick(&[2usize, 1, 0, 4]);
        let mut arrays: Vec<ArrayRef> =
            vec![Arc::new(Int64Array::from_iter_values((0..n).map(|i| (rows.len() + i) as i64)))];
        let mut cols = vec![];
        for p in &f.params {
            let ty = DECL[*p].1;
            let vals: Vec<V> = (0..n).map(|_| value(s, ty)).collect();
            let valid: Vec<bool> = (0..n).map(|_| !s.chance(1, 5)).collect();
            arrays.push(column(ty, &vals, &valid, 0));
            cols.push((0..n).map(|i| valid[i].then_some(vals[i])).collect::<Vec<_>>());
        }
        for i in 0..n {
            rows.push(cols.iter().map(|c| c[i]).collect());
        }
        batches.push(RecordBatch::try_new(schema.clone(), arrays).unwrap());
    }
    session.register_table("t", Arc::new(MemTable::try_new(schema.clone(), vec![batches]).unwrap())).unwrap();
    // each argument is its column, or a constant that replaces it
    let mut args = vec![];
    for (i, p) in f.params.iter().enumerate() {
        let ty = DECL[*p].1;
        if s.chance(1, 3) {
            let (v, text) = literal(s, ty);
            rows.iter_mut().for_each(|r| r[i] = v);
            let cast = match ty {
                W::I32 => "INT",
                W::I64 => "BIGINT",
                W::F32 => "FLOAT",
                W::F64 => "DOUBLE",
            };
            args.push(format!("CAST({text} AS {cast})"));
        } else {
            args.push(format!("c{i}"));
        }
    }
    let q = format!("SELECT n, fn1({}) FROM t ORDER BY n", args.join(", "));
    ctx.describe(format!("{q} -- {} rows, fn1 = {}", rows.len(), wat_of(&f.body)));
    if !f.params.is_empty() && !rows.is_empty() {
        ctx.nontrivial(&(&q, wat_of(&f.body), format!("{rows:?}")));
    }
    ctx.evals += rows.len() as u64;
    let res = block_on(async { session.sql(&q).await?.collect().await });
    let res = match res {
        Ok(r) => r,
        Err(e) => fail!("sql-error", "{q} fails: {e}\nrows {rows:?}"),
    };
    let mut seen = 0usize;
    for b in &res {
        for i in 0..b.num_rows() {
            let n = b.column(0).as_primitive::<Int64Type>().value(i) as usize;
            ensure_eq!(n, seen, "sql-rows", "row numbers of {q}");
            let row = &rows[n];
            let expected = if row.iter().any(|v| v.is_none()) {
                None
            } else {
                eval(&f.body, &row.iter().map(|v| v.unwrap()).collect::<Vec<_>>())
            };
            let got = cell(DECL[f.ret].1, b.column(1), i);
            ensure!(same_opt(&got, &expected), "sql-value", "{q}: row {n} {row:?}: expected {expected:?}, observed {got:?}\nfn1 = {}", wat_of(&f.body));
            seen += 1;
        }
    }
    ensure_eq!(seen, rows.len(), "sql-rows", "number of rows of {q}");
    Ok(())
}

/// declared types against the module's
fn declared(s: &mut Src, ctx: &mut Ctx) -> Res {
    let f = func(s, false);
    let pick = |s: &mut Src, own: usize| -> (T, Option<W>) {
        match s.weighted(&[6, 2, 1]) {
            0 => (DECL[own].0.clone(), Some(DECL[own].1)),
            1 => {
                let d = s.pick(DECL);
                (d.0.clone(), Some(d.1))
            }
            _ => (s.pick(UNSUPPORTED).clone(), None),
        }
    };
    let mut ins: Vec<(T, Option<W>)> = f.params.iter().map(|p| pick(s, *p)).collect();
    if s.chance(1, 6) {
        ins.push(pick(s, 0));
    } else if s.chance(1, 6) {
        ins.pop();
    }
    let ret = pick(s, f.ret);
    let name = if s.chance(1, 8) { "nosuch".to_string() } else { f.name.clone() };
    let own: Vec<Option<W>> = f.params.iter().map(|p| Some(DECL[*p].1)).collect();
    let good = name == f.name && ret.1 == Some(DECL[f.ret].1) && ins.iter().map(|i| i.1).collect::<Vec<_>>() == own;
    ctx.describe(format!("{name}: {own:?} -> {:?} declared {:?} -> {:?}", DECL[f.ret].1, ins, ret));
    ctx.label(if good { "matching" } else { "not matching" });
    if !good {
        ctx.nontrivial(&ctx.desc.clone());
    }
    let made = no_panic(|| {
        create_udf_from_wasm(
            &L::Wasm,
            "fn1",
            &f.wasm,
            &name,
            &ins.iter().map(|i| i.0.clone()).collect(),
            &ret.0,
            Volatility::Volatile,
        )
    });
    let made = match made {
        Ok(m) => m,
        Err((_, m)) => fail!("declared-panic", "creating the function panics: {m}\n{}", ctx.desc),
    };
    let u = match (made, good) {
        (Err(e), true) => fail!("declared-refused", "a matching declaration is refused: {e}\n{}", ctx.desc),
        (Err(_), false) => return Ok(()),
        (Ok(u), _) => u,
    };
    // a call that cannot be typed has to fail, at the latest here
    let args: Vec<ColumnarValue> = ins
        .iter()
        .map(|(t, w)| {
            let w = match (t, w) {
                (_, Some(w)) => *w,
                _ => W::I32,
            };
            ColumnarValue::Scalar(scalar(w, Some(value(s, w))))
        })
        .collect();
    match no_panic(|| u.invoke_batch(&args, 1)) {
        Err((_, m)) => fail!("declared-call-panic", "calling the function panics: {m}\n{}", ctx.desc),
        Ok(Ok(_)) if !good => fail!("declared-accepted", "a declaration that does not match the module gives a result\n{}", ctx.desc),
        Ok(Err(e)) if good => fail!("declared-call-error", "a matching declaration cannot be called: {e}\n{}", ctx.desc),
        _ => Ok(()),
    }
}

fn main() {
    pbt::main(Property {
        id: "C06",
        rule: "non-trivial: the guest function has at least one argument and is applied to at least one row (legs batch, sql); the declaration differs from the module (leg declared). Distinct by function body and argument values.",
        assumptions: &[
            "wasmtime executes the generated arithmetic as the WebAssembly specification says (the reference evaluator is an independent implementation of it); NaN payloads are not compared",
            "NULL in any argument gives NULL (WASM has no NULL)",
        ],
        legs: vec![
            leg("batch", 4000, 60000, batch),
            leg("sql", 800, 12000, sql),
            leg("declared", 2500, 30000, declared),
        ],
    })
}
