//! Readers for conditions in the SQL of Postgres and MySQL, and their value in each row of a table.
//!
//! Written from the two databases' own grammars (gram.y and scan.l; sql_yacc.yy and the manual's
//! chapters on literals and expressions), as far as conditions on one table go. Anything else, such
//! as an unquoted word, a comment or a function call, is an error.
use crate::pushgen::*;
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Db {
    Postgres,
    MySql,
}
use Db::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Word(String), // upper case
    Ident(String),
    Str(String),
    Num(String),
    Op(String),
}

pub type Res<T> = Result<T, String>;

pub fn lex(db: Db, sql: &str) -> Res<Vec<Tok>> {
    let c: Vec<char> = sql.chars().collect();
    let mut i = 0;
    let mut out: Vec<Tok> = vec![];
    let quoted = |i: &mut usize, q: char, escapes: bool| -> Res<String> {
        let mut s = String::new();
        *i += 1;
        loop {
            match c.get(*i) {
                None => return Err(format!("unterminated {q}")),
                Some('\\') if escapes => {
                    *i += 1;
                    let e = *c.get(*i).ok_or("unterminated escape")?;
                    match e {
                        '0' => s.push('\0'),
                        'b' => s.push('\u{8}'),
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'Z' => s.push('\u{1a}'),
                        '%' | '_' => {
                            s.push('\\');
                            s.push(e);
                        }
                        e => s.push(e),
                    }
                    *i += 1;
                }
                Some(x) if *x == q => {
                    *i += 1;
                    if c.get(*i) != Some(&q) {
                        return Ok(s);
                    }
                    s.push(q);
                    *i += 1;
                }
                Some('\0') => return Err("zero character".into()),
                Some(x) => {
                    s.push(*x);
                    *i += 1;
                }
            }
        }
    };
    while i < c.len() {
        let x = c[i];
        let next = c.get(i + 1).copied();
        match x {
            ' ' | '\t' | '\n' | '\r' => i += 1,
            '\'' => {
                if let Some(Tok::Str(_)) = out.last() {
                    return Err("adjacent strings".into());
                }
                out.push(Tok::Str(quoted(&mut i, '\'', db == MySql)?));
            }
            '"' if db == MySql => out.push(Tok::Str(quoted(&mut i, '"', true)?)),
            '"' => out.push(Tok::Ident(quoted(&mut i, '"', false)?)),
            '`' if db == MySql => out.push(Tok::Ident(quoted(&mut i, '`', false)?)),
            '(' | ')' | ',' => {
                out.push(Tok::Op(x.to_string()));
                i += 1;
            }
            '0'..='9' | '.' => {
                let start = i;
                while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                    i += 1;
                }
                if i < c.len() && (c[i] == 'e' || c[i] == 'E') {
                    i += 1;
                    if i < c.len() && (c[i] == '-' || c[i] == '+') {
                        i += 1;
                    }
                    while i < c.len() && c[i].is_ascii_digit() {
                        i += 1;
                    }
                }
                if i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    return Err(format!("trailing junk after the number at {start}"));
                }
                let text: String = c[start..i].iter().collect();
                text.parse::<f64>().map_err(|_| format!("not a number: {text}"))?;
                out.push(Tok::Num(text));
            }
            _ if x.is_alphabetic() || x == '_' => {
                let start = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '$') {
                    i += 1;
                }
                if c.get(i) == Some(&'\'') {
                    return Err("string with a prefix".into());
                }
                out.push(Tok::Word(c[start..i].iter().collect::<String>().to_uppercase()));
            }
            '#' if db == MySql => return Err("comment".into()),
            '-' if next == Some('-') && (db == Postgres || c.get(i + 2).is_none_or(|x| x.is_whitespace())) => return Err("comment".into()),
            '/' if next == Some('*') => return Err("comment".into()),
            _ if db == Postgres && "+-*/<>=~!@#%^&|`?".contains(x) => {
                let start = i;
                while i < c.len() && "+-*/<>=~!@#%^&|`?".contains(c[i]) {
                    let two: String = c[i..(i + 2).min(c.len())].iter().collect();
                    if two == "--" || two == "/*" {
                        break;
                    }
                    i += 1;
                }
                // An operator ends in + or - only if it contains one of these
                if !c[start..i].iter().any(|x| "~!@#%^&|`?".contains(*x)) {
                    while i > start + 1 && "+-".contains(c[i - 1]) {
                        i -= 1;
                    }
                }
                let op: String = c[start..i].iter().collect();
                out.push(Tok::Op(if op == "!=" { "<>".into() } else { op }));
            }
            _ if db == MySql => {
                let op = ["<=>", "<<", ">>", "<=", ">=", "<>", "!=", "||", "&&", "<", ">", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!"]
                    .into_iter()
                    .find(|o| c[i..].starts_with(&o.chars().collect::<Vec<_>>()))
                    .ok_or(format!("unexpected {x:?}"))?;
                i += op.chars().count();
                out.push(Tok::Op(if op == "!=" { "<>".into() } else { op.into() }));
            }
            _ => return Err(format!("unexpected {x:?}")),
        }
    }
    Ok(out)
}

#[derive(Clone, Debug)]
pub enum N {
    Col(String),
    Str(String),
    Num(String),
    Bool(bool),
    Null,
    Un(String, Box<N>),
    Bin(String, Box<N>, Box<N>),
    /// NULL, TRUE, FALSE or UNKNOWN
    Is(Box<N>, String, bool),
    In(Box<N>, Vec<N>, bool),
    Distinct(Box<N>, Box<N>, bool),
}

struct P {
    db: Db,
    t: Vec<Tok>,
    i: usize,
}

pub fn parse(db: Db, sql: &str) -> Res<N> {
    let mut p = P { db, t: lex(db, sql)?, i: 0 };
    let n = match db {
        Postgres => p.pg(0)?,
        MySql => p.my_or()?,
    };
    if p.i < p.t.len() {
        return Err(format!("unexpected {:?}", p.t[p.i]));
    }
    Ok(n)
}

fn bin(op: &str, l: N, r: N) -> N {
    N::Bin(op.to_string(), Box::new(l), Box::new(r))
}

impl P {
    fn word(&mut self, w: &str) -> bool {
        let hit = matches!(self.t.get(self.i), Some(Tok::Word(x)) if x == w);
        self.i += hit as usize;
        hit
    }
    fn peek_word(&self, at: usize, w: &str) -> bool {
        matches!(self.t.get(self.i + at), Some(Tok::Word(x)) if x == w)
    }
    fn op(&mut self, o: &str) -> bool {
        let hit = matches!(self.t.get(self.i), Some(Tok::Op(x)) if x == o);
        self.i += hit as usize;
        hit
    }
    fn one_of(&mut self, ops: &[&str]) -> Option<String> {
        ops.iter().find(|o| self.op(o)).map(|o| o.to_string())
    }
    fn need(&mut self, o: &str) -> Res<()> {
        if self.op(o) {
            Ok(())
        } else {
            Err(format!("expected {o} before {:?}", self.t.get(self.i)))
        }
    }
    fn any(&mut self) -> Res<N> {
        match self.db {
            Postgres => self.pg(0),
            MySql => self.my_or(),
        }
    }
    fn list(&mut self) -> Res<Vec<N>> {
        self.need("(")?;
        let mut v = vec![self.any()?];
        while self.op(",") {
            v.push(self.any()?);
        }
        self.need(")")?;
        Ok(v)
    }
    fn atom(&mut self) -> Res<N> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(match t {
            Tok::Ident(n) => N::Col(n),
            Tok::Str(s) => N::Str(s),
            Tok::Num(n) => N::Num(n),
            Tok::Word(w) if w == "TRUE" => N::Bool(true),
            Tok::Word(w) if w == "FALSE" => N::Bool(false),
            Tok::Word(w) if w == "NULL" => N::Null,
            Tok::Op(o) if o == "(" => {
                let n = self.any()?;
                self.need(")")?;
                n
            }
            other => return Err(format!("unexpected {other:?}")),
        })
    }
    /// The kind after IS
    fn is(&mut self, x: N) -> Res<N> {
        let negated = self.word("NOT");
        for k in ["NULL", "TRUE", "FALSE", "UNKNOWN"] {
            if self.word(k) {
                return Ok(N::Is(Box::new(x), k.to_string(), negated));
            }
        }
        Err(format!("unexpected {:?} after IS", self.t.get(self.i)))
    }

    // Postgres: OR 1, AND 2, NOT 3, IS 4, comparison 5, IN 6, other operators 7, + - 8, * / % 9, ^ 10, unary minus 12
    fn pg(&mut self, min: u32) -> Res<N> {
        let mut l = if self.word("NOT") {
            N::Un("NOT".into(), Box::new(self.pg(3)?))
        } else if self.op("-") {
            N::Un("-".into(), Box::new(self.pg(12)?))
        } else if self.op("+") {
            self.pg(12)?
        } else if let Some(Tok::Op(o)) = self.t.get(self.i).cloned().filter(|t| !matches!(t, Tok::Op(o) if o == "(")) {
            return Err(format!("unexpected operator {o}"));
        } else {
            self.atom()?
        };
        // The level of the last operator that does not associate
        let mut stuck = 0;
        loop {
            let Some(t) = self.t.get(self.i).cloned() else { break };
            let level = match &t {
                Tok::Word(w) if w == "OR" => 1,
                Tok::Word(w) if w == "AND" => 2,
                Tok::Word(w) if w == "IS" => 4,
                Tok::Word(w) if w == "IN" => 6,
                Tok::Word(w) if w == "NOT" && self.peek_word(1, "IN") => 6,
                Tok::Op(o) => match o.as_str() {
                    ")" | "," => break,
                    "(" => return Err("function call".into()),
                    "<" | ">" | "=" | "<=" | ">=" | "<>" => 5,
                    "+" | "-" => 8,
                    "*" | "/" | "%" => 9,
                    "^" => 10,
                    _ => 7,
                },
                other => return Err(format!("unexpected {other:?}")),
            };
            if level <= min && !(level == min && matches!(level, 4..=6)) {
                break;
            }
            if level == stuck || (level == min && matches!(level, 4..=6)) {
                return Err("operator does not associate".into());
            }
            self.i += 1;
            match level {
                1 => l = bin("OR", l, self.pg(1)?),
                2 => l = bin("AND", l, self.pg(2)?),
                4 => {
                    let (a, b) = (self.peek_word(0, "DISTINCT"), self.peek_word(1, "DISTINCT"));
                    if a || (b && self.peek_word(0, "NOT")) {
                        self.i += 1 + b as usize;
                        if !self.word("FROM") {
                            return Err("DISTINCT without FROM".into());
                        }
                        l = N::Distinct(Box::new(l), Box::new(self.pg(4)?), !a);
                        stuck = 4;
                    } else {
                        l = self.is(l)?;
                    }
                }
                6 => {
                    let negated = matches!(&t, Tok::Word(w) if w == "NOT");
                    self.i += negated as usize;
                    l = N::In(Box::new(l), self.list()?, negated);
                    stuck = 6;
                }
                _ => {
                    let Tok::Op(o) = t else { unreachable!() };
                    l = bin(&o, l, self.pg(level)?);
                    if level == 5 {
                        stuck = 5;
                    }
                }
            }
        }
        Ok(l)
    }

    // MySQL
    fn my_or(&mut self) -> Res<N> {
        let mut l = self.my_xor()?;
        while self.word("OR") || self.op("||") {
            l = bin("OR", l, self.my_xor()?);
        }
        Ok(l)
    }
    fn my_xor(&mut self) -> Res<N> {
        let mut l = self.my_and()?;
        while self.word("XOR") {
            l = bin("XOR", l, self.my_and()?);
        }
        Ok(l)
    }
    fn my_and(&mut self) -> Res<N> {
        let mut l = self.my_not()?;
        while self.word("AND") || self.op("&&") {
            l = bin("AND", l, self.my_not()?);
        }
        Ok(l)
    }
    fn my_not(&mut self) -> Res<N> {
        if self.word("NOT") {
            return Ok(N::Un("NOT".into(), Box::new(self.my_not()?)));
        }
        let l = self.my_pri()?;
        if self.word("IS") {
            return self.is(l);
        }
        Ok(l)
    }
    fn my_pri(&mut self) -> Res<N> {
        let mut l = self.my_pred()?;
        loop {
            if self.peek_word(0, "IS") && (self.peek_word(1, "NULL") || (self.peek_word(1, "NOT") && self.peek_word(2, "NULL"))) {
                self.i += 1;
                l = self.is(l)?;
            } else if let Some(o) = self.one_of(&["=", "<=>", ">=", ">", "<=", "<", "<>"]) {
                l = bin(&o, l, self.my_pred()?);
            } else {
                return Ok(l);
            }
        }
    }
    fn my_pred(&mut self) -> Res<N> {
        let l = self.my_bits(0)?;
        let negated = self.peek_word(0, "NOT") && (self.peek_word(1, "IN") || self.peek_word(1, "RLIKE") || self.peek_word(1, "REGEXP"));
        self.i += negated as usize;
        if self.word("IN") {
            return Ok(N::In(Box::new(l), self.list()?, negated));
        }
        if self.word("RLIKE") || self.word("REGEXP") {
            let r = self.my_bits(0)?;
            return Ok(bin(if negated { "!~" } else { "~" }, l, r));
        }
        Ok(l)
    }
    fn my_bits(&mut self, level: usize) -> Res<N> {
        const LEVELS: [&[&str]; 6] = [&["|"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"], &["^"]];
        if level == LEVELS.len() {
            return self.my_simple();
        }
        let mut l = self.my_bits(level + 1)?;
        loop {
            if let Some(o) = self.one_of(LEVELS[level]) {
                l = bin(&o, l, self.my_bits(level + 1)?);
            } else if level == 4 && self.word("DIV") {
                l = bin("DIV", l, self.my_bits(level + 1)?);
            } else if level == 4 && self.word("MOD") {
                l = bin("%", l, self.my_bits(level + 1)?);
            } else {
                return Ok(l);
            }
        }
    }
    fn my_simple(&mut self) -> Res<N> {
        if self.op("-") {
            return Ok(N::Un("-".into(), Box::new(self.my_simple()?)));
        }
        if self.op("+") {
            return self.my_simple();
        }
        if self.op("!") {
            return Ok(N::Un("NOT".into(), Box::new(self.my_simple()?)));
        }
        if self.op("~") {
            return Ok(N::Un("~".into(), Box::new(self.my_simple()?)));
        }
        self.atom()
    }
}

// ------------------------------------------------------------------------------------------------
// values

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    Int,
    /// A literal with a point, an exponent or too many digits
    Dec,
    Float,
    Text,
    Bool,
    Date,
    Time,
    /// A literal string or NULL, which takes the type of the other side
    Unknown,
}

/// Microseconds of a date, or of a date and time
fn instant(s: &str, with_time: bool) -> Res<i64> {
    let bad = || format!("not a {}: {s:?}", if with_time { "timestamp" } else { "date" });
    let (d, rest) = if s.len() >= 10 && s.is_char_boundary(10) { s.split_at(10) } else { return Err(bad()) };
    let b = d.as_bytes();
    if !(0..10).all(|i| if i == 4 || i == 7 { b[i] == b'-' } else { b[i].is_ascii_digit() }) || d.starts_with("0000") {
        return Err(bad());
    }
    let date = chrono::NaiveDate::parse_from_str(d, "%Y-%m-%d").map_err(|_| bad())?;
    let mut us = date.signed_duration_since(chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()).num_days() * 86_400_000_000;
    if rest.is_empty() {
        return Ok(us);
    }
    if !with_time {
        return Err(bad());
    }
    let t = rest.as_bytes();
    if t.len() < 9 || t[0] != b' ' || t[3] != b':' || t[6] != b':' {
        return Err(bad());
    }
    let num = |r: std::ops::Range<usize>| rest.get(r).and_then(|x| x.parse::<i64>().ok()).ok_or_else(bad);
    us += (num(1..3)? * 3600 + num(4..6)? * 60 + num(7..9)?) * 1_000_000;
    if t.len() > 9 {
        let f = &rest[10..];
        if t[9] != b'.' || f.is_empty() || f.len() > 6 || !f.bytes().all(|b| b.is_ascii_digit()) {
            return Err(bad());
        }
        us += format!("{f:0<6}").parse::<i64>().unwrap();
    }
    Ok(us)
}

pub struct Sql<'a> {
    pub db: Db,
    pub t: &'a Table,
    pub row: &'a [V],
}

type Typed = (T, V);

fn tri(v: &V) -> Option<bool> {
    match v {
        V::Bool(b) => Some(*b),
        V::Int(i) => Some(*i != 0),
        _ => None,
    }
}

fn num(v: &V) -> f64 {
    match v {
        V::Int(i) => *i as f64,
        V::Float(f) => *f,
        other => panic!("{other:?}"),
    }
}

impl Sql<'_> {
    fn cast(&self, (t, v): Typed, to: T) -> Res<V> {
        if t == to {
            return Ok(v);
        }
        if t != T::Unknown {
            return Err(format!("{t:?} where a {to:?} is needed"));
        }
        let V::Text(s) = v else { return Ok(V::Null) };
        match to {
            T::Text | T::Unknown => Ok(V::Text(s)),
            T::Date => instant(&s, false).map(V::Time),
            T::Time => instant(&s, true).map(V::Time),
            _ => Err(format!("string {s:?} where a {to:?} is needed")),
        }
    }
    fn cond(&self, x: Typed) -> Res<Option<bool>> {
        match (self.db, x.0) {
            (MySql, T::Int) => Ok(tri(&x.1)),
            (_, T::Bool) => Ok(tri(&x.1)),
            (_, T::Unknown) if x.1 == V::Null => Ok(None),
            _ => Err(format!("{:?} as a condition", x.0)),
        }
    }
    fn truth(&self, b: Option<bool>) -> Typed {
        // MySQL has no booleans, but nothing other than booleans may be compared with one
        (T::Bool, of(b))
    }
    /// Both sides with a common type; None if one is NULL
    fn pair(&self, l: Typed, r: Typed) -> Res<Option<Ordering>> {
        let number = |t: T| matches!(t, T::Int | T::Dec | T::Float);
        let (l, r) = if number(l.0) && number(r.0) {
            match (&l.1, &r.1) {
                (V::Null, _) | (_, V::Null) => return Ok(None),
                (V::Int(a), V::Int(b)) => return Ok(Some(a.cmp(b))),
                (a, b) => return Ok(num(a).partial_cmp(&num(b))),
            }
        } else if l.0 == T::Unknown {
            let to = r.0;
            (self.cast(l, to)?, r.1)
        } else {
            let to = l.0;
            (l.1, self.cast(r, to)?)
        };
        if l == V::Null || r == V::Null {
            return Ok(None);
        }
        Ok(Some(cmp(&l, &r)))
    }
    pub fn eval(&self, n: &N) -> Res<Result<Typed, Outside>> {
        // An Outside anywhere makes the row not comparable, but the types are still checked
        macro_rules! sub {
            ($n:expr) => {
                match self.eval($n)? {
                    Ok(x) => x,
                    Err(o) => return Ok(Err(o)),
                }
            };
        }
        let ok = |t: T, v: V| Ok(Ok((t, v)));
        match n {
            N::Col(name) => {
                let Some(i) = self.t.cols.iter().position(|c| c.name == *name) else { return Err(format!("no column {name:?}")) };
                let ty = self.t.cols[i].ty;
                let v = self.row[i].clone();
                match ty {
                    Ty::Text => ok(T::Text, v),
                    Ty::Bool => ok(T::Bool, v),
                    Ty::F32 | Ty::F64 => ok(T::Float, v),
                    Ty::Date => ok(T::Date, if let V::Time(d) = v { V::Time(d * 86_400_000_000) } else { v }),
                    Ty::Date64 | Ty::Ts(_) => ok(T::Time, if let V::Time(x) = v { V::Time((x as i128 * 1_000_000 / ty.ticks() as i128) as i64) } else { v }),
                    _ => ok(T::Int, v),
                }
            }
            N::Str(s) => ok(T::Unknown, V::Text(s.clone())),
            N::Null => ok(T::Unknown, V::Null),
            N::Bool(b) => ok(T::Bool, V::Bool(*b)),
            N::Num(s) => match s.parse::<i64>() {
                Ok(i) => ok(T::Int, V::Int(i as i128)),
                Err(_) => ok(T::Dec, V::Float(s.parse().unwrap())),
            },
            N::Un(o, x) => {
                let x = sub!(x);
                match o.as_str() {
                    "NOT" => Ok(Ok(self.truth(self.cond(x)?.map(|b| !b)))),
                    "-" => match x {
                        (T::Int, V::Int(i)) => ok(T::Int, V::Int(-i)),
                        (t @ (T::Dec | T::Float), V::Float(f)) => ok(t, V::Float(-f)),
                        (t @ (T::Int | T::Dec | T::Float), V::Null) => ok(t, V::Null),
                        (t, _) => Err(format!("minus {t:?}")),
                    },
                    o => Err(format!("unary {o}")),
                }
            }
            N::Is(x, k, negated) => {
                let x = sub!(x);
                let b = match k.as_str() {
                    "NULL" => x.1 == V::Null,
                    "TRUE" => self.cond(x)? == Some(true),
                    "FALSE" => self.cond(x)? == Some(false),
                    _ => self.cond(x)?.is_none(),
                };
                ok(T::Bool, V::Bool(b != *negated))
            }
            N::In(x, list, negated) => {
                let x = sub!(x);
                let mut found = Some(false);
                for e in list {
                    let e = sub!(e);
                    found = or(found, self.pair(x.clone(), e)?.map(|o| o == Ordering::Equal));
                }
                Ok(Ok(self.truth(found.map(|f| f != *negated))))
            }
            N::Distinct(l, r, negated) => {
                let (l, r) = (sub!(l), sub!(r));
                let nulls = (l.1 == V::Null) as u8 + (r.1 == V::Null) as u8;
                let o = self.pair(l, r)?;
                let same = nulls == 2 || (nulls == 0 && o == Some(Ordering::Equal));
                ok(T::Bool, V::Bool(same == *negated))
            }
            N::Bin(o, l, r) => {
                let (l, r) = (sub!(l), sub!(r));
                let o = o.as_str();
                match o {
                    "AND" => return Ok(Ok(self.truth(and(self.cond(l)?, self.cond(r)?)))),
                    "OR" => return Ok(Ok(self.truth(or(self.cond(l)?, self.cond(r)?)))),
                    "<=>" => {
                        let nulls = (l.1 == V::Null) as u8 + (r.1 == V::Null) as u8;
                        let o = self.pair(l, r)?;
                        return ok(T::Bool, V::Bool(nulls == 2 || (nulls == 0 && o == Some(Ordering::Equal))));
                    }
                    "=" | "<>" | "<" | "<=" | ">" | ">=" => {
                        let c = self.pair(l, r)?;
                        return Ok(Ok(self.truth(c.map(|c| match o {
                            "=" => c == Ordering::Equal,
                            "<>" => c != Ordering::Equal,
                            "<" => c == Ordering::Less,
                            "<=" => c != Ordering::Greater,
                            ">" => c == Ordering::Greater,
                            _ => c != Ordering::Less,
                        }))));
                    }
                    "~" | "~*" | "!~" | "!~*" | "~~" | "~~*" | "!~~" | "!~~*" | "||" => {
                        if self.db == MySql && !matches!(o, "~" | "!~") {
                            return Err(format!("operator {o}"));
                        }
                        let (a, b) = (self.cast(l, T::Text)?, self.cast(r, T::Text)?);
                        let (V::Text(a), V::Text(b)) = (a, b) else { return ok(if o == "||" { T::Text } else { T::Bool }, V::Null) };
                        let low = (a.to_lowercase(), b.to_lowercase());
                        return match o {
                            "||" => ok(T::Text, V::Text(a + &b)),
                            "~" => ok(T::Bool, V::Bool(regex(&a, &b, false))),
                            "~*" => ok(T::Bool, V::Bool(regex(&a, &b, true))),
                            "!~" => ok(T::Bool, V::Bool(!regex(&a, &b, false))),
                            "!~*" => ok(T::Bool, V::Bool(!regex(&a, &b, true))),
                            "~~" => ok(T::Bool, V::Bool(like(&a, &b))),
                            "!~~" => ok(T::Bool, V::Bool(!like(&a, &b))),
                            "~~*" => ok(T::Bool, V::Bool(like(&low.0, &low.1))),
                            _ => ok(T::Bool, V::Bool(!like(&low.0, &low.1))),
                        };
                    }
                    _ => {}
                }
                // NULL takes the type of the other side
                let unknown = |a: &Typed, b: &Typed| -> Res<T> {
                    if a.0 == T::Unknown && a.1 == V::Null && b.0 != T::Unknown {
                        Ok(b.0)
                    } else {
                        Ok(a.0)
                    }
                };
                let (lt, rt) = (unknown(&l, &r)?, unknown(&r, &l)?);
                let ty = match (lt, rt) {
                    (T::Int, T::Int) => T::Int,
                    (T::Float | T::Dec, T::Float | T::Dec) => T::Float,
                    _ => return Err(format!("{lt:?} {o} {rt:?}")),
                };
                let known = match (self.db, o) {
                    (_, "+" | "-" | "*" | "/") => true,
                    (Postgres, "%") => ty == T::Int,
                    (MySql, "%") => true,
                    (MySql, "DIV") => ty == T::Int,
                    (Postgres, "^") => false, // a float, which nothing here is compared with
                    (MySql, "^") | (Postgres, "#") | (_, "&" | "|" | "<<" | ">>") => ty == T::Int,
                    _ => false,
                };
                if !known {
                    return Err(format!("{ty:?} {o} {ty:?}"));
                }
                // MySQL divides integers into decimals
                let out = if self.db == MySql && o == "/" { T::Float } else { ty };
                let (a, b) = match (&l.1, &r.1) {
                    (V::Null, _) | (_, V::Null) => return ok(out, V::Null),
                    (a, b) => (a, b),
                };
                let zero = num(b) == 0.0;
                if matches!(o, "/" | "%" | "DIV") && zero {
                    return Ok(Err(Outside("division by zero")));
                }
                if let (V::Int(a), V::Int(b)) = (a, b) {
                    let bits = matches!(o, "&" | "|" | "^" | "#" | "<<" | ">>");
                    if self.db == MySql && bits && (*a < 0 || *b < 0) {
                        return Ok(Err(Outside("bits of a negative number")));
                    }
                    let shift = matches!(o, "<<" | ">>");
                    if shift && !(0..64).contains(b) {
                        return Err(format!("shift by {b}"));
                    }
                    let v = match o {
                        "+" => a + b,
                        "-" => a - b,
                        "*" => a * b,
                        "/" if self.db == MySql => return ok(out, V::Float(*a as f64 / *b as f64)),
                        "/" | "DIV" => a / b,
                        "%" => a % b,
                        "&" => a & b,
                        "|" => a | b,
                        "^" | "#" => a ^ b,
                        "<<" => a << b,
                        _ => a >> b,
                    };
                    if v < i64::MIN as i128 || v > i64::MAX as i128 {
                        return Ok(Err(Outside("overflow")));
                    }
                    return ok(out, V::Int(v));
                }
                let (a, b) = (num(a), num(b));
                let v = match o {
                    "+" => a + b,
                    "-" => a - b,
                    "*" => a * b,
                    "/" => a / b,
                    _ => a % b,
                };
                ok(out, V::Float(v))
            }
        }
    }
    pub fn filter(&self, n: &N) -> Res<Result<Option<bool>, Outside>> {
        match self.eval(n)? {
            Ok(x) => Ok(Ok(self.cond(x)?)),
            Err(o) => Ok(Err(o)),
        }
    }
}
