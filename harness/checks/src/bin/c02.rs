//! C02: every clause written in Seafowl DDL arrives in the parsed statement.
use checks::ddlgen::{self, normalise_parts, Ddl};
use pbt::*;
use seafowl::datafusion::parser::DFParser;

fn check(s: &mut Src, ctx: &mut Ctx, d: Ddl) -> Res {
    let text = d.toks.render(s);
    ctx.describe(format!("{text}\n  -> {}", if d.expected.is_some() { "accepted" } else { d.why }));
    ctx.label(format!("kind:{}", d.kind));
    for f in &d.feats {
        ctx.label(format!("feature:{f}"));
    }
    if !d.why.is_empty() {
        ctx.label(format!("rejected:{}", d.why));
    }
    ctx.nontrivial(&text);
    match (d.expected, DFParser::parse_sql(&text)) {
        (Some(e), Ok(got)) => {
            ensure_eq!(got.len(), 1, "count", "number of statements in {text:?}");
            let (got, e) = (normalise_parts(&got[0]), normalise_parts(&e));
            ensure_eq!(got, e, format!("fields:{}", d.kind), "parsed statement of {text:?}");
        }
        (Some(e), Err(err)) => fail!(format!("rejected:{}", d.kind), "legal statement {text:?} is rejected: {err}; expected {e:?}"),
        (None, Ok(got)) => fail!(format!("accepted:{}:{}", d.kind, d.why), "{text:?} must be rejected ({}), but parses to {got:?}", d.why),
        (None, Err(_)) => {}
    }
    Ok(())
}

fn main() {
    pbt::main(Property {
        id: "C02",
        rule: "A Seafowl statement is generated with its expected parsed form (clauses in random order, random case, whitespace, comments, quoting, literals), or with one clause duplicated/missing/unknown so that it must be rejected; every case compares all fields. Non-trivial: every case, distinct by text.",
        assumptions: &["column definitions and expressions inside clauses are compared with what sqlparser makes of the same text", "quotes around partition column names may or may not be kept"],
        legs: vec![
            leg("external", 300_000, 8_000_000, |s, ctx| { let d = ddlgen::create_external(s); check(s, ctx, d) }),
            leg("copy", 200_000, 6_000_000, |s, ctx| { let d = ddlgen::copy(s); check(s, ctx, d) }),
            leg("small", 200_000, 6_000_000, |s, ctx| { let d = ddlgen::small(s); check(s, ctx, d) }),
        ],
    });
}
