//! A small model of SQL: values, three-valued predicates and scalar expressions, each with its text and its meaning.
use pbt::Src;
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    I(i64),
    F(f64),
    S(String),
    B(bool),
    /// days
    D(i64),
    /// microseconds
    T(i64),
}

impl V {
    pub fn key(&self) -> String {
        match self {
            V::F(f) => format!("F{f:?}"),
            v => format!("{v:?}"),
        }
    }
    pub fn null(&self) -> bool {
        matches!(self, V::Null)
    }
    pub fn sql(&self) -> String {
        match self {
            V::Null => "NULL".into(),
            V::I(i) => i.to_string(),
            V::F(f) => format!("{f:?}"),
            V::S(s) => format!("'{}'", s.replace('\'', "''")),
            V::B(b) => b.to_string(),
            V::D(d) => format!("DATE '{}'", date(*d)),
            V::T(t) => format!("TIMESTAMP '{}'", chrono::DateTime::from_timestamp_micros(*t).unwrap().naive_utc().format("%Y-%m-%d %H:%M:%S%.6f")),
        }
    }
}

fn date(d: i64) -> String {
    chrono::DateTime::from_timestamp(d * 86400, 0).unwrap().format("%Y-%m-%d").to_string()
}

/// The order of two values of one type; None when one is NULL.
pub fn cmp(a: &V, b: &V) -> Option<Ordering> {
    match (a, b) {
        (V::I(a), V::I(b)) | (V::D(a), V::D(b)) | (V::T(a), V::T(b)) => Some(a.cmp(b)),
        (V::F(a), V::F(b)) => Some(a.total_cmp(b)),
        (V::S(a), V::S(b)) => Some(a.as_bytes().cmp(b.as_bytes())),
        (V::B(a), V::B(b)) => Some(a.cmp(b)),
        _ => None,
    }
}

pub type Row = Vec<V>;

pub fn bag(rows: &[Row]) -> Vec<String> {
    let mut k: Vec<String> = rows.iter().map(|r| r.iter().map(V::key).collect::<Vec<_>>().join(", ")).collect();
    k.sort();
    k
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Int,
    Big,
    Double,
    Text,
    Bool,
    Date,
    Ts,
}

pub const TYPES: [T; 7] = [T::Int, T::Big, T::Double, T::Text, T::Bool, T::Date, T::Ts];
const WORDS: [&str; 9] = ["", "a", "ab", "b", "O'Hara", "é", "A", "zz", "%_"];

impl T {
    pub fn sql(self) -> &'static str {
        match self {
            T::Int => "INTEGER",
            T::Big => "BIGINT",
            T::Double => "DOUBLE",
            T::Text => "TEXT",
            T::Bool => "BOOLEAN",
            T::Date => "DATE",
            T::Ts => "TIMESTAMP",
        }
    }
    pub fn value(self, s: &mut Src) -> V {
        match self {
            T::Int | T::Big => V::I(s.range(-3, 12)),
            T::Double => V::F(s.range(-4, 8) as f64 / 2.0),
            T::Text => V::S(s.pick(&WORDS).to_string()),
            T::Bool => V::B(s.bool()),
            T::Date => V::D(18990 + s.range(-2, 4)),
            T::Ts => V::T(1_650_000_000_000_000 + s.range(-2, 4) * 1_234_567),
        }
    }
    pub fn maybe(self, s: &mut Src) -> V {
        if s.chance(1, 6) {
            V::Null
        } else {
            self.value(s)
        }
    }
    pub fn num(self) -> bool {
        matches!(self, T::Int | T::Big)
    }
}

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub ty: T,
    /// NOT NULL
    pub nn: bool,
}

/// Whether the row may be in a table of these columns.
pub fn fits(r: &Row, cols: &[Col]) -> bool {
    r.iter().zip(cols).all(|(v, c)| !(c.nn && v.null()))
}

/// An identifier as SQL text.
pub fn id(n: &str) -> String {
    let plain = n.chars().next().is_some_and(|c| c.is_ascii_lowercase())
        && n.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_');
    if plain {
        n.to_string()
    } else {
        format!("\"{}\"", n.replace('"', "\"\""))
    }
}

#[derive(Clone, Debug)]
pub enum E {
    Col(usize, String),
    Lit(V),
    /// column + k
    Plus(Box<E>, i64),
    Concat(Box<E>, String),
    Case(Box<P>, Box<E>, Box<E>),
    Coalesce(Box<E>, V),
    /// CAST(NULL AS type)
    Nothing(T),
}

#[derive(Clone, Debug)]
pub enum P {
    Cmp(E, &'static str, E),
    IsNull(E, bool),
    In(E, Vec<V>, bool),
    Between(E, V, V, bool),
    And(Box<P>, Box<P>),
    Or(Box<P>, Box<P>),
    Not(Box<P>),
    Const(Option<bool>),
    BoolCol(usize, String),
    Like(E, &'static str, bool),
    Is(Box<P>, &'static str, Option<bool>, bool),
}

impl E {
    pub fn sql(&self, q: &str) -> String {
        match self {
            E::Col(_, n) => format!("{q}{}", id(n)),
            E::Lit(v) => v.sql(),
            E::Plus(e, k) if *k < 0 => format!("({} - {})", e.sql(q), -k),
            E::Plus(e, k) => format!("({} + {k})", e.sql(q)),
            E::Concat(e, w) => format!("({} || '{w}')", e.sql(q)),
            E::Case(p, a, b) => format!("CASE WHEN {} THEN {} ELSE {} END", p.sql(q), a.sql(q), b.sql(q)),
            E::Coalesce(e, v) => format!("COALESCE({}, {})", e.sql(q), v.sql()),
            E::Nothing(t) => format!("CAST(NULL AS {})", t.sql()),
        }
    }
    pub fn eval(&self, r: &Row) -> V {
        match self {
            E::Col(i, _) => r[*i].clone(),
            E::Lit(v) => v.clone(),
            E::Plus(e, k) => match e.eval(r) {
                V::I(i) => V::I(i + k),
                v => v,
            },
            E::Concat(e, w) => match e.eval(r) {
                V::S(s) => V::S(s + w),
                v => v,
            },
            E::Case(p, a, b) => match p.eval(r) {
                Some(true) => a.eval(r),
                _ => b.eval(r),
            },
            E::Coalesce(e, v) => match e.eval(r) {
                V::Null => v.clone(),
                x => x,
            },
            E::Nothing(_) => V::Null,
        }
    }
    /// An expression of the type.
    pub fn gen(s: &mut Src, cols: &[Col], t: T, depth: u32) -> E {
        let mine: Vec<(usize, &Col)> = cols.iter().enumerate().filter(|(_, c)| c.ty == t).collect();
        let atom = |s: &mut Src| match s.below(4) {
            0 => E::Lit(t.value(s)),
            1 if s.chance(1, 4) => E::Nothing(t),
            _ if !mine.is_empty() => {
                let (i, c) = s.pick(&mine);
                E::Col(*i, c.name.clone())
            }
            _ => E::Lit(t.value(s)),
        };
        if depth == 0 {
            return atom(s);
        }
        match s.below(6) {
            0 | 1 if t.num() => E::Plus(Box::new(E::gen(s, cols, t, depth - 1)), s.range(-3, 3)),
            0 | 1 if t == T::Text => E::Concat(Box::new(E::gen(s, cols, t, depth - 1)), s.pick(&["x", "", "yz"]).to_string()),
            // (DataFusion 44 gets CASE wrong when its condition is NULL, or it is of booleans: not the subject here)
            2 if t != T::Bool => E::Case(
                Box::new(P::Is(Box::new(P::gen(s, cols, depth - 1)), "TRUE", Some(true), false)),
                Box::new(E::gen(s, cols, t, depth - 1)),
                Box::new(E::gen(s, cols, t, depth - 1)),
            ),
            3 => E::Coalesce(Box::new(E::gen(s, cols, t, depth - 1)), t.value(s)),
            _ => atom(s),
        }
    }
}

impl P {
    pub fn sql(&self, q: &str) -> String {
        let not = |n: bool| if n { "NOT " } else { "" };
        match self {
            P::Cmp(a, op, b) => format!("{} {op} {}", a.sql(q), b.sql(q)),
            P::IsNull(e, n) => format!("{} IS {}NULL", e.sql(q), not(*n)),
            P::In(e, vs, n) => {
                format!("{} {}IN ({})", e.sql(q), not(*n), vs.iter().map(V::sql).collect::<Vec<_>>().join(", "))
            }
            P::Between(e, a, b, n) => format!("{} {}BETWEEN {} AND {}", e.sql(q), not(*n), a.sql(), b.sql()),
            P::And(a, b) => format!("({}) AND ({})", a.sql(q), b.sql(q)),
            P::Or(a, b) => format!("({}) OR ({})", a.sql(q), b.sql(q)),
            P::Not(p) => format!("NOT ({})", p.sql(q)),
            P::Const(Some(b)) => b.to_string(),
            P::Const(None) => "CAST(NULL AS BOOLEAN)".into(),
            P::BoolCol(_, n) => format!("{q}{}", id(n)),
            P::Like(e, w, n) => format!("{} {}LIKE '{w}'", e.sql(q), not(*n)),
            P::Is(p, name, _, n) => format!("({}) IS {}{name}", p.sql(q), not(*n)),
        }
    }
    pub fn eval(&self, r: &Row) -> Option<bool> {
        let neg = |v: Option<bool>, n: bool| v.map(|b| b != n);
        match self {
            P::Cmp(a, op, b) => {
                let (a, b) = (a.eval(r), b.eval(r));
                if op.starts_with("IS") {
                    let same = match (a.null(), b.null()) {
                        (true, true) => true,
                        (false, false) => cmp(&a, &b)?.is_eq(),
                        _ => false,
                    };
                    return Some(same == op.contains("NOT"));
                }
                let o = cmp(&a, &b)?;
                Some(match *op {
                    "=" => o.is_eq(),
                    "<>" => o.is_ne(),
                    "<" => o.is_lt(),
                    "<=" => o.is_le(),
                    ">" => o.is_gt(),
                    _ => o.is_ge(),
                })
            }
            P::IsNull(e, n) => Some(e.eval(r).null() != *n),
            P::In(e, vs, n) => {
                let v = e.eval(r);
                if v.null() {
                    return None;
                }
                let hit = vs.iter().any(|x| cmp(&v, x).is_some_and(|o| o.is_eq()));
                match hit || !vs.iter().any(V::null) {
                    true => neg(Some(hit), *n),
                    false => None,
                }
            }
            P::Between(e, a, b, n) => {
                let v = e.eval(r);
                let lo = cmp(&v, a).map(|o| o.is_ge());
                let hi = cmp(&v, b).map(|o| o.is_le());
                neg(and(lo, hi), *n)
            }
            P::And(a, b) => and(a.eval(r), b.eval(r)),
            P::Or(a, b) => and(a.eval(r).map(|x| !x), b.eval(r).map(|x| !x)).map(|x| !x),
            P::Not(p) => p.eval(r).map(|x| !x),
            P::Const(b) => *b,
            P::BoolCol(i, _) => match &r[*i] {
                V::B(b) => Some(*b),
                _ => None,
            },
            P::Like(e, w, n) => match e.eval(r) {
                V::S(x) => neg(
                    Some(match w.strip_suffix('%') {
                        Some(head) => x.starts_with(head),
                        None => x == *w,
                    }),
                    *n,
                ),
                _ => None,
            },
            P::Is(p, _, want, n) => Some((p.eval(r) == *want) != *n),
        }
    }
    pub fn gen(s: &mut Src, cols: &[Col], depth: u32) -> P {
        if depth > 0 && s.chance(2, 5) {
            return match s.below(5) {
                0 | 1 => P::And(Box::new(P::gen(s, cols, depth - 1)), Box::new(P::gen(s, cols, depth - 1))),
                2 | 3 => P::Or(Box::new(P::gen(s, cols, depth - 1)), Box::new(P::gen(s, cols, depth - 1))),
                _ => P::Not(Box::new(P::gen(s, cols, depth - 1))),
            };
        }
        let i = s.usize(cols.len());
        let (c, t) = (cols[i].name.clone(), cols[i].ty);
        let operand = |s: &mut Src| {
            let e = E::Col(i, c.clone());
            match t {
                _ if !s.chance(1, 4) => e,
                T::Int | T::Big => E::Plus(Box::new(e), s.range(-2, 2)),
                T::Text => E::Concat(Box::new(e), s.pick(&["x", ""]).to_string()),
                _ => E::Coalesce(Box::new(e), t.value(s)),
            }
        };
        match s.below(14) {
            0..=5 => {
                let op = *s.pick(&["=", "<>", "<", "<=", ">", ">=", "=", "<", ">", "IS DISTINCT FROM", "IS NOT DISTINCT FROM"]);
                let rhs = match s.below(6) {
                    0 => E::gen(s, cols, t, 1),
                    _ => E::Lit(t.value(s)),
                };
                P::Cmp(operand(s), op, rhs)
            }
            6 | 7 => P::IsNull(operand(s), s.bool()),
            8 => {
                let n = s.urange(1, 5);
                let vs = (0..n).map(|_| if s.chance(1, 12) { V::Null } else { t.value(s) }).collect();
                P::In(operand(s), vs, s.chance(1, 3))
            }
            9 => P::Between(operand(s), t.value(s), t.value(s), s.chance(1, 3)),
            10 if s.chance(1, 2) => P::Const(*s.pick(&[Some(true), Some(false), None])),
            11 if t == T::Bool => P::BoolCol(i, c),
            12 if t == T::Text => P::Like(operand(s), *s.pick(&["a%", "A%", "%", "ab", "O%"]), s.bool()),
            13 if depth > 0 => {
                let (name, want) = *s.pick(&[("TRUE", Some(true)), ("FALSE", Some(false)), ("UNKNOWN", None)]);
                P::Is(Box::new(P::gen(s, cols, depth - 1)), name, want, s.bool())
            }
            _ => P::Cmp(E::Col(i, c), *s.pick(&["=", "<", ">="]), E::Lit(t.value(s))),
        }
    }
}

fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
