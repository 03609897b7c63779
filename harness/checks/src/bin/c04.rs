//! C04: command plan nodes keep their identity through plan rewriting.
use arrow_schema::{DataType, Field, Schema};
use checks::sqlgen::{ident, text};
use datafusion::common::tree_node::{Transformed, TreeNode};
use datafusion::common::{DFSchema, DFSchemaRef};
use datafusion::prelude::SessionContext;
use datafusion_expr::{Explain, Extension, LogicalPlan, UserDefinedLogicalNode};
use pbt::*;
use seafowl::nodes::*;
use seafowl::wasm_udf::data_types::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

/// reference description of a node; two nodes are the same operation iff these are equal
#[derive(Clone, Debug, PartialEq)]
enum Desc {
    Convert { location: String, name: String, out: usize },
    Create { schema: Vec<(String, DataType, bool)>, name: String, ine: bool, out: usize },
    Func { name: String, or_replace: bool, entry: String, lang: usize, inputs: Vec<usize>, ret: usize, data: String, vol: usize, out: usize },
    DropF { if_exists: bool, names: Vec<String>, out: usize },
    Rename { old: String, new: String, out: usize },
    Vacuum { db: Option<String>, table: Option<String>, out: usize },
    Truncate { table: String, out: usize },
}

fn name(s: &mut Src) -> String {
    ident(s).value
}

fn gen(s: &mut Src) -> Desc {
    let out = s.weighted(&[6, 1, 1]);
    match s.usize(7) {
        0 => Desc::Convert { location: text(s), name: name(s), out },
        1 => Desc::Create {
            schema: s.vec(0, 4, |s| (name(s), s.pick(&[DataType::Int32, DataType::Utf8, DataType::Boolean]).clone(), s.bool())),
            name: name(s),
            ine: s.bool(),
            out,
        },
        2 => Desc::Func {
            name: name(s),
            or_replace: s.bool(),
            entry: name(s),
            lang: s.usize(2),
            inputs: s.vec(0, 3, |s| s.usize(TYPES.len())),
            ret: s.usize(TYPES.len()),
            data: text(s),
            vol: s.usize(3),
            out,
        },
        3 => Desc::DropF { if_exists: s.bool(), names: s.vec(0, 3, name), out },
        4 => Desc::Rename { old: name(s), new: name(s), out },
        5 => {
            let db = if s.bool() { Some(name(s)) } else { None };
            let table = if s.bool() { Some(name(s)) } else { None };
            Desc::Vacuum { db, table, out }
        }
        _ => Desc::Truncate { table: name(s), out },
    }
}

const TYPES: &[CreateFunctionDataType] = &[
    CreateFunctionDataType::INT,
    CreateFunctionDataType::BIGINT,
    CreateFunctionDataType::TEXT,
    CreateFunctionDataType::DECIMAL { precision: 10, scale: 2 },
    CreateFunctionDataType::DECIMAL { precision: 10, scale: 3 },
    CreateFunctionDataType::DATE,
];

/// the same operation with one argument changed
fn tweak(s: &mut Src, d: &Desc) -> Desc {
    let mut d = d.clone();
    let k = s.usize(9);
    let how = s.usize(6);
    let flip = |x: &String| {
        let o = match how {
            0 => format!("_{x}"),
            1 => x.to_uppercase(),
            2 => x.to_lowercase(),
            3 => format!("{x} "),
            4 => x.chars().skip(1).collect(),
            _ => String::new(),
        };
        if o == *x { format!("{x}_") } else { o }
    };
    match &mut d {
        Desc::Convert { location, name, out } => match k % 3 {
            0 => *location = flip(location),
            1 => *name = flip(name),
            _ => *out = (*out + 1) % 3,
        },
        Desc::Create { schema, name, ine, out } => match k % 5 {
            0 => *name = flip(name),
            1 => *ine = !*ine,
            2 => *out = (*out + 1) % 3,
            3 => schema.push(("extra".into(), DataType::Int8, true)),
            _ => {
                if let Some(f) = schema.last_mut() {
                    match s.usize(3) {
                        0 => f.2 = !f.2,
                        1 => f.1 = DataType::Float64,
                        _ => f.0 = flip(&f.0),
                    }
                }
            }
        },
        Desc::Func { name, or_replace, entry, lang, inputs, ret, data, vol, out } => match k {
            0 => *name = flip(name),
            1 => *or_replace = !*or_replace,
            2 => *entry = flip(entry),
            3 => *lang = 1 - *lang,
            4 => inputs.push(0),
            5 => *ret = (*ret + 1) % TYPES.len(),
            6 => *data = flip(data),
            7 => *vol = (*vol + 1) % 3,
            _ => *out = (*out + 1) % 3,
        },
        Desc::DropF { if_exists, names, out } => match k % 4 {
            0 => *if_exists = !*if_exists,
            1 => names.push("x".into()),
            2 => names.reverse(),
            _ => *out = (*out + 1) % 3,
        },
        Desc::Rename { old, new, out } => match k % 4 {
            0 => *old = flip(old),
            1 => *new = flip(new),
            2 => std::mem::swap(old, new),
            _ => *out = (*out + 1) % 3,
        },
        Desc::Vacuum { db, table, out } => match k % 4 {
            0 => *db = db.as_ref().map_or(Some("d".into()), |_| None),
            1 => *table = table.as_ref().map_or(Some("t".into()), |_| None),
            2 => std::mem::swap(db, table),
            _ => *out = (*out + 1) % 3,
        },
        Desc::Truncate { table, out } => match k % 2 {
            0 => *table = flip(table),
            _ => *out = (*out + 1) % 3,
        },
    }
    d
}

fn out_schema(i: usize) -> DFSchemaRef {
    match i {
        0 => Arc::new(DFSchema::empty()),
        1 => Arc::new(DFSchema::try_from(Schema::new(vec![Field::new("a", DataType::Int32, true)])).unwrap()),
        _ => Arc::new(DFSchema::try_from(Schema::new(vec![Field::new("b", DataType::Utf8, false)])).unwrap()),
    }
}

fn build(d: &Desc) -> SeafowlExtensionNode {
    match d.clone() {
        Desc::Convert { location, name, out } => SeafowlExtensionNode::ConvertTable(ConvertTable { location, name, output_schema: out_schema(out) }),
        Desc::Create { schema, name, ine, out } => SeafowlExtensionNode::CreateTable(CreateTable {
            schema: Schema::new(schema.into_iter().map(|(n, t, b)| Field::new(n, t, b)).collect::<Vec<_>>()),
            name,
            if_not_exists: ine,
            output_schema: out_schema(out),
        }),
        Desc::Func { name, or_replace, entry, lang, inputs, ret, data, vol, out } => SeafowlExtensionNode::CreateFunction(CreateFunction {
            name,
            or_replace,
            details: CreateFunctionDetails {
                entrypoint: entry,
                language: if lang == 0 { CreateFunctionLanguage::Wasm } else { CreateFunctionLanguage::WasmMessagePack },
                input_types: inputs.into_iter().map(|i| TYPES[i].clone()).collect(),
                return_type: TYPES[ret].clone(),
                data,
                volatility: [CreateFunctionVolatility::Immutable, CreateFunctionVolatility::Stable, CreateFunctionVolatility::Volatile][vol].clone(),
            },
            output_schema: out_schema(out),
        }),
        Desc::DropF { if_exists, names, out } => SeafowlExtensionNode::DropFunction(DropFunction { if_exists, func_names: names, output_schema: out_schema(out) }),
        Desc::Rename { old, new, out } => SeafowlExtensionNode::RenameTable(RenameTable { old_name: old, new_name: new, output_schema: out_schema(out) }),
        Desc::Vacuum { db, table, out } => SeafowlExtensionNode::Vacuum(Vacuum { database: db, table_name: table, output_schema: out_schema(out) }),
        Desc::Truncate { table, out } => SeafowlExtensionNode::Truncate(Truncate { table_name: table, output_schema: out_schema(out) }),
    }
}

/// reads the node back field by field
fn read(n: &SeafowlExtensionNode) -> Desc {
    let o = |x: &DFSchemaRef| (0..3).find(|i| out_schema(*i) == *x).unwrap_or(9);
    match n.clone() {
        SeafowlExtensionNode::ConvertTable(c) => Desc::Convert { location: c.location, name: c.name, out: o(&c.output_schema) },
        SeafowlExtensionNode::CreateTable(c) => Desc::Create {
            schema: c.schema.fields().iter().map(|f| (f.name().clone(), f.data_type().clone(), f.is_nullable())).collect(),
            name: c.name,
            ine: c.if_not_exists,
            out: o(&c.output_schema),
        },
        SeafowlExtensionNode::CreateFunction(c) => {
            let ix = |t: &CreateFunctionDataType| TYPES.iter().position(|x| x == t).unwrap_or(99);
            Desc::Func {
                name: c.name,
                or_replace: c.or_replace,
                entry: c.details.entrypoint,
                lang: (c.details.language != CreateFunctionLanguage::Wasm) as usize,
                inputs: c.details.input_types.iter().map(ix).collect(),
                ret: ix(&c.details.return_type),
                data: c.details.data,
                vol: match c.details.volatility {
                    CreateFunctionVolatility::Immutable => 0,
                    CreateFunctionVolatility::Stable => 1,
                    CreateFunctionVolatility::Volatile => 2,
                },
                out: o(&c.output_schema),
            }
        }
        SeafowlExtensionNode::DropFunction(c) => Desc::DropF { if_exists: c.if_exists, names: c.func_names, out: o(&c.output_schema) },
        SeafowlExtensionNode::RenameTable(c) => Desc::Rename { old: c.old_name, new: c.new_name, out: o(&c.output_schema) },
        SeafowlExtensionNode::Vacuum(c) => Desc::Vacuum { db: c.database, table: c.table_name, out: o(&c.output_schema) },
        SeafowlExtensionNode::Truncate(c) => Desc::Truncate { table: c.table_name, out: o(&c.output_schema) },
    }
}

fn plan(d: &Desc) -> LogicalPlan {
    LogicalPlan::Extension(Extension { node: Arc::new(build(d)) })
}

fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}
fn dh(n: &dyn UserDefinedLogicalNode) -> u64 {
    let mut s = DefaultHasher::new();
    n.dyn_hash(&mut s);
    s.finish()
}

fn node_of(p: &LogicalPlan) -> Option<&SeafowlExtensionNode> {
    match p {
        LogicalPlan::Extension(e) => SeafowlExtensionNode::from_dynamic(&e.node),
        _ => None,
    }
}

fn pairs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = gen(s);
    let b = match s.usize(3) {
        0 => a.clone(),
        1 => tweak(s, &a),
        _ => gen(s),
    };
    ctx.describe(format!("{a:?}\n{b:?}"));
    ctx.nontrivial(&format!("{a:?}{b:?}"));
    let same = a == b;
    ctx.label(if same { "same operation" } else { "different" });
    let (na, nb) = (build(&a), build(&b));
    let (da, db): (&dyn UserDefinedLogicalNode, &dyn UserDefinedLogicalNode) = (&na, &nb);
    ensure_eq!(da.dyn_eq(db), same, "eq", "node equality of {a:?} and {b:?}");
    ensure_eq!(db.dyn_eq(da), same, "eq", "node equality of {b:?} and {a:?}");
    ensure_eq!(da.dyn_ord(db) == Some(std::cmp::Ordering::Equal), same, "ord", "node order of {a:?} and {b:?}");
    let (pa, pb) = (plan(&a), plan(&b));
    ensure_eq!(pa == pb, same, "plan-eq", "plan equality of {a:?} and {b:?}");
    if same {
        ensure_eq!(dh(da), dh(db), "hash", "node hash of equal nodes {a:?}");
        ensure_eq!(h(&pa), h(&pb), "plan-hash", "plan hash of equal plans {a:?}");
    } else if dh(da) == dh(db) {
        ctx.label("hash collision"); // allowed
    }
    Ok(())
}

fn rewrite(s: &mut Src, ctx: &mut Ctx) -> Res {
    let d = gen(s);
    ctx.describe(format!("{d:?}"));
    ctx.nontrivial(&format!("{d:?}"));
    let node = build(&d);
    ensure_eq!(read(&node), d.clone(), "harness", "description of node");
    let p = plan(&d);
    // rebuild laws
    let exprs = node.expressions();
    let inputs: Vec<LogicalPlan> = node.inputs().into_iter().cloned().collect();
    let r = node.with_exprs_and_inputs(exprs, inputs).map_err(|e| Fail::new("rebuild", e.to_string()))?;
    let back = SeafowlExtensionNode::from_dynamic(&r);
    ensure!(back.is_some(), "rebuild", "the rebuilt node of {d:?} is no Seafowl node");
    ensure_eq!(read(back.unwrap()), d.clone(), "rebuild", "node rebuilt from its expressions and inputs");
    let t = p.clone().with_new_exprs(p.expressions(), p.inputs().into_iter().cloned().collect()).map_err(|e| Fail::new("rebuild", e.to_string()))?;
    ensure_eq!(node_of(&t).map(read), Some(d.clone()), "rebuild", "plan rebuilt from its expressions and inputs");
    let t = p.clone().transform_up(|x| Ok(Transformed::yes(x))).map_err(|e| Fail::new("transform", e.to_string()))?.data;
    ensure_eq!(node_of(&t).map(read), Some(d.clone()), "transform", "plan after an identity transform");
    // output schema
    let out = match &d {
        Desc::Convert { out, .. } | Desc::Create { out, .. } | Desc::Func { out, .. } | Desc::DropF { out, .. } | Desc::Rename { out, .. } | Desc::Vacuum { out, .. } | Desc::Truncate { out, .. } => *out,
    };
    ensure_eq!(p.schema(), &out_schema(out), "schema", "output schema of {d:?}");
    // EXPLAIN shows the operation
    let shown = format!("{}", p.display_indent());
    let words: Vec<&str> = match &d {
        Desc::Convert { location, name, .. } => vec![location, name],
        Desc::Create { name, .. } | Desc::Func { name, .. } => vec![name],
        Desc::DropF { names, .. } => names.iter().map(|x| x.as_str()).collect(),
        Desc::Rename { old, new, .. } => vec![old, new],
        Desc::Vacuum { .. } => vec!["acuum"],
        Desc::Truncate { table, .. } => vec![table],
    };
    for w in words {
        ensure!(shown.contains(w), "explain", "EXPLAIN of {d:?} does not show {w:?}: {shown}");
    }
    let distinct = matches!(d, Desc::Rename { .. });
    if distinct {
        if let Desc::Rename { old, new, .. } = &d {
            ensure!(shown.rfind(new.as_str()) >= shown.find(old.as_str()), "explain", "EXPLAIN shows the names of {d:?} in the wrong order: {shown}");
        }
    }
    // full optimiser, plain and under EXPLAIN
    thread_local! { static CTX: SessionContext = SessionContext::new(); }
    let opt = CTX.with(|c| c.state().optimize(&p)).map_err(|e| Fail::new("optimize", format!("optimising {d:?} fails: {e}")))?;
    ensure_eq!(node_of(&opt).map(read), Some(d.clone()), "optimize", "optimised plan");
    ensure_eq!(opt == p, true, "optimize", "optimised plan of {d:?} compares equal to the original");
    if s.bool() {
        let e = LogicalPlan::Explain(Explain {
            verbose: false,
            plan: Arc::new(p.clone()),
            stringified_plans: vec![],
            schema: Arc::new(DFSchema::try_from(LogicalPlan::explain_schema().as_ref().clone()).unwrap()),
            logical_optimization_succeeded: false,
        });
        let opt = CTX.with(|c| c.state().optimize(&e)).map_err(|e| Fail::new("optimize", format!("optimising EXPLAIN {d:?} fails: {e}")))?;
        match &opt {
            LogicalPlan::Explain(x) => ensure_eq!(node_of(&x.plan).map(read), Some(d.clone()), "optimize-explain", "plan under EXPLAIN"),
            o => fail!("optimize-explain", "EXPLAIN became {o:?}"),
        }
        ctx.label("under explain");
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C04",
        rule: "Command descriptions are generated, built into plan nodes, and pairs (identical, differing in exactly one argument, unrelated) compared against equality of the descriptions; single nodes go through rebuild, transform, the full optimiser and EXPLAIN and are read back field by field. Non-trivial: every case, distinct by description.",
        assumptions: &["hash equality is only required of equal nodes"],
        legs: vec![leg("pairs", 200_000, 5_000_000, pairs), leg("rewrite", 15_000, 400_000, rewrite)],
    });
}
