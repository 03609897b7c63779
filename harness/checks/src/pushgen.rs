//! Filters over a small remote table: typed columns and rows, well-typed filter expressions over
//! them, and their value under DataFusion's semantics.
use arrow::array::*;
use arrow::datatypes::*;
use datafusion::common::{Column, DFSchema, ScalarValue};
use datafusion::common::tree_node::{Transformed, TreeNode};
use datafusion::execution::context::ExecutionProps;
use datafusion::physical_expr::create_physical_expr;
use datafusion_expr::expr::InList;
use datafusion_expr::{BinaryExpr, ColumnarValue, Expr, Operator};
use pbt::*;
use std::cmp::Ordering;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    I16,
    I32,
    I64,
    U64,
    F32,
    F64,
    Text,
    Bool,
    Date,
    Date64,
    Ts(u8), // 0 s, 1 ms, 2 us, 3 ns
}
use Ty::*;

pub const INTS: [Ty; 4] = [I64, I32, I16, U64];

impl Ty {
    pub fn is_int(self) -> bool {
        INTS.contains(&self)
    }
    pub fn bounds(self) -> (i128, i128) {
        match self {
            I16 => (i16::MIN as i128, i16::MAX as i128),
            I32 => (i32::MIN as i128, i32::MAX as i128),
            I64 => (i64::MIN as i128, i64::MAX as i128),
            // A remote database's integers are signed
            U64 => (0, i64::MAX as i128),
            _ => panic!(),
        }
    }
    pub fn bits(self) -> u32 {
        match self {
            I16 => 16,
            I32 => 32,
            _ => 64,
        }
    }
    pub fn arrow(self) -> DataType {
        match self {
            I16 => DataType::Int16,
            I32 => DataType::Int32,
            I64 => DataType::Int64,
            U64 => DataType::UInt64,
            F32 => DataType::Float32,
            F64 => DataType::Float64,
            Text => DataType::Utf8,
            Bool => DataType::Boolean,
            Date => DataType::Date32,
            Date64 => DataType::Date64,
            Ts(u) => DataType::Timestamp(
                [TimeUnit::Second, TimeUnit::Millisecond, TimeUnit::Microsecond, TimeUnit::Nanosecond][u as usize],
                None,
            ),
        }
    }
    /// Ticks per second of the types with a time of day
    pub fn ticks(self) -> i64 {
        match self {
            Ts(u) => [1, 1_000, 1_000_000, 1_000_000_000][u as usize],
            Date64 => 1_000,
            _ => panic!(),
        }
    }
}

/// A value; the type is that of the column or literal it stems from
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Text(String),
    /// days, or ticks of the unit
    Time(i64),
}

#[derive(Clone, Debug)]
pub struct Col {
    pub name: String,
    pub ty: Ty,
}

pub struct Table {
    pub cols: Vec<Col>,
    pub rows: Vec<Vec<V>>,
    pub texts: Vec<String>,
    pub seconds: Vec<i64>,
    pub ints: Vec<i64>,
    pub floats: Vec<f64>,
}

/// Text of an instant as chrono prints it, which is how the catalog's remote tables spell them
pub fn time_text(ty: Ty, t: i64) -> String {
    match ty {
        Date => (chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(t)).to_string(),
        _ => {
            let per = ty.ticks();
            chrono::DateTime::from_timestamp(t.div_euclid(per), (t.rem_euclid(per) * (1_000_000_000 / per)) as u32)
                .unwrap()
                .naive_utc()
                .to_string()
        }
    }
}

const NAMES: [&str; 26] = [
    "a", "b", "c", "value", "select", "order", "NULL", "Mixed Case", "UPPER", "with \"quotes\"", "with `ticks`", "with 'apostrophe'",
    "semi;colon", "dash--dash", "/* c */", "back\\slash", "percent%", "naïve", "日本", "1st", "a.b", "a b", "\"", "`", "''", "x\"\"y",
];

const TEXT_ALPHABET: [char; 24] = [
    'a', 'b', 'A', 'B', '\'', '"', '\\', '`', '%', '_', ' ', ';', '-', '0', '1', 'é', '日', '\n', '(', ')', '?', '$', 'n', '/',
];

pub fn text(s: &mut Src) -> String {
    match s.weighted(&[6, 4]) {
        0 => s.string_of(&TEXT_ALPHABET, 0, 5),
        _ => s
            .pick(&[
                "", "'", "''", "\\", "\\'", "it's", "' OR 1=1 --", "\\' OR 1=1 -- ", "a\\", "%", "NULL", "1", "true", "\"", "`", "a\tb", "a''b", "\\\\", "\\n",
                "a\u{1a}b", "2020-01-01", "\\%", "x'41'",
            ])
            .to_string(),
    }
}

pub fn table(s: &mut Src, special: &[&str]) -> Table {
    let ints = s.vec(3, 5, |s| match s.weighted(&[8, 2, 1]) {
        0 => s.range(-3, 9),
        1 => s.range(-40000, 40000),
        _ => s.edgy_i64(),
    });
    let floats = s.vec(3, 4, |s| match s.weighted(&[6, 3, 1]) {
        0 => s.range(-16, 32) as f64 / 8.0,
        1 => *s.pick(&[0.1, 0.3, 2.5, -0.7, 1e10, 1e-7, 1e300, 123456.789, 100.0, -1e22]),
        _ => s.range(-1000, 1000) as f64,
    });
    let texts = s.vec(3, 5, text);
    let seconds = s.vec(3, 4, |s| match s.weighted(&[4, 3, 2, 1]) {
        0 => s.range(0, 4) * 86_400,
        1 => s.range(-5_000_000_000, 5_000_000_000),
        2 => s.range(0, 100_000),
        // within the years 1 and 9999
        _ => s.range(-62_000_000_000, 253_000_000_000),
    });
    let mut names: Vec<&str> = vec![];
    let cols = s.vec(4, 8, |s| {
        let mut name = if !special.is_empty() && s.chance(1, 3) { *s.pick(special) } else { *s.pick(&NAMES) };
        let mut n = 0;
        while names.iter().any(|m| m.eq_ignore_ascii_case(name)) {
            name = NAMES[n];
            n += 1;
        }
        names.push(name);
        let ty = match s.weighted(&[8, 4, 1, 5, 5, 2, 2, 5]) {
            0 => *s.pick(&INTS),
            1 => F64,
            2 => F32,
            3 => Text,
            4 => Bool,
            5 => Date,
            6 => Date64,
            _ => Ts(s.below(4) as u8),
        };
        Col { name: name.to_string(), ty }
    });
    let mut t = Table { cols, rows: vec![], texts, seconds, ints, floats };
    let tys: Vec<Ty> = t.cols.iter().map(|c| c.ty).collect();
    t.rows = s.vec(6, 14, |s| tys.iter().map(|ty| if s.chance(1, 7) { V::Null } else { t.value(s, *ty) }).collect());
    t
}

impl Table {
    pub fn value(&self, s: &mut Src, ty: Ty) -> V {
        match ty {
            I16 | I32 | I64 | U64 => {
                let v = *s.pick(&self.ints) as i128;
                let (lo, hi) = ty.bounds();
                let v = if v < lo || v > hi { v.rem_euclid(1000) } else { v };
                V::Int(v + if s.chance(1, 5) && v < hi { 1 } else { 0 })
            }
            F64 => V::Float(*s.pick(&self.floats)),
            F32 => V::Float(*s.pick(&[0.5f32, 0.1, 2.0, -1.5, 16777217.0, 0.3]) as f64),
            Text => V::Text(s.pick(&self.texts).clone()),
            Bool => V::Bool(s.bool()),
            Date => V::Time(s.pick(&self.seconds).div_euclid(86_400)),
            Date64 | Ts(_) => {
                let per = ty.ticks();
                let mut secs = *s.pick(&self.seconds);
                if ty == Ts(3) {
                    secs = secs.rem_euclid(9_000_000_000);
                }
                let frac = match s.weighted(&[3, 1, 1]) {
                    0 => 0,
                    1 => *s.pick(&[1i64, 5, 120, 999, 1_000, 500_000, 123_456, 1_000_000, 999_999_999, 123_456_789]) % per,
                    _ => s.range(0, per - 1),
                };
                V::Time(secs * per + frac)
            }
        }
    }
    pub fn cols_of(&self, ty: Ty) -> Vec<usize> {
        (0..self.cols.len()).filter(|i| self.cols[*i].ty == ty).collect()
    }
    pub fn schema(&self) -> Schema {
        Schema::new(self.cols.iter().map(|c| Field::new(&c.name, c.ty.arrow(), true)).collect::<Vec<_>>())
    }
    pub fn batch(&self) -> RecordBatch {
        let arrays: Vec<ArrayRef> = self
            .cols
            .iter()
            .enumerate()
            .map(|(i, c)| ScalarValue::iter_to_array(self.rows.iter().map(|r| scalar(c.ty, &r[i]))).unwrap())
            .collect();
        RecordBatch::try_new(Arc::new(self.schema()), arrays).unwrap()
    }
    pub fn describe(&self) -> String {
        let mut d = String::new();
        for (i, c) in self.cols.iter().enumerate() {
            let vals: Vec<String> = self.rows.iter().map(|r| format!("{}", scalar(c.ty, &r[i]))).collect();
            d += &format!("column {:?} {:?}: {}\n", c.name, c.ty, vals.join(" | "));
        }
        d
    }
}

pub fn scalar(ty: Ty, v: &V) -> ScalarValue {
    use ScalarValue as S;
    let int = match v {
        V::Int(i) => Some(*i),
        V::Time(t) => Some(*t as i128),
        _ => None,
    };
    let float = if let V::Float(f) = v { Some(*f) } else { None };
    match ty {
        I16 => S::Int16(int.map(|i| i as i16)),
        I32 => S::Int32(int.map(|i| i as i32)),
        I64 => S::Int64(int.map(|i| i as i64)),
        U64 => S::UInt64(int.map(|i| i as u64)),
        F32 => S::Float32(float.map(|f| f as f32)),
        F64 => S::Float64(float),
        Text => S::Utf8(if let V::Text(t) = v { Some(t.clone()) } else { None }),
        Bool => S::Boolean(if let V::Bool(b) = v { Some(*b) } else { None }),
        Date => S::Date32(int.map(|i| i as i32)),
        Date64 => S::Date64(int.map(|i| i as i64)),
        Ts(0) => S::TimestampSecond(int.map(|i| i as i64), None),
        Ts(1) => S::TimestampMillisecond(int.map(|i| i as i64), None),
        Ts(2) => S::TimestampMicrosecond(int.map(|i| i as i64), None),
        Ts(_) => S::TimestampNanosecond(int.map(|i| i as i64), None),
    }
}

pub fn unscalar(v: &ScalarValue) -> V {
    use ScalarValue as S;
    match v {
        S::Null => V::Null,
        S::Int16(i) => i.map_or(V::Null, |i| V::Int(i as i128)),
        S::Int32(i) => i.map_or(V::Null, |i| V::Int(i as i128)),
        S::Int64(i) => i.map_or(V::Null, |i| V::Int(i as i128)),
        S::UInt64(i) => i.map_or(V::Null, |i| V::Int(i as i128)),
        S::Float32(f) => f.map_or(V::Null, |f| V::Float(f as f64)),
        S::Float64(f) => f.map_or(V::Null, V::Float),
        S::Utf8(t) | S::LargeUtf8(t) | S::Utf8View(t) => t.clone().map_or(V::Null, V::Text),
        S::Boolean(b) => b.map_or(V::Null, V::Bool),
        S::Date32(d) => d.map_or(V::Null, |d| V::Time(d as i64)),
        S::Date64(t)
        | S::TimestampSecond(t, None)
        | S::TimestampMillisecond(t, None)
        | S::TimestampMicrosecond(t, None)
        | S::TimestampNanosecond(t, None) => t.map_or(V::Null, V::Time),
        S::Dictionary(_, v) => unscalar(v),
        other => panic!("unscalar {other:?}"),
    }
}

// ------------------------------------------------------------------------------------------------
// expressions

/// What a filter is made of
pub struct Gen<'a> {
    pub t: &'a Table,
    pub like: bool,
    pub regex: bool,
    pub xor: bool,
}

fn bin(l: Expr, op: Operator, r: Expr) -> Expr {
    Expr::BinaryExpr(BinaryExpr::new(Box::new(l), op, Box::new(r)))
}

impl Gen<'_> {
    fn col(&self, s: &mut Src, ty: Ty) -> Option<Expr> {
        let cols = self.t.cols_of(ty);
        (!cols.is_empty()).then(|| Expr::Column(Column::from_name(&self.t.cols[*s.pick(&cols)].name)))
    }
    fn lit(&self, s: &mut Src, ty: Ty) -> Expr {
        let v = if s.chance(1, 25) { V::Null } else { self.t.value(s, ty) };
        let mut sv = scalar(ty, &v);
        if ty == Text {
            if let V::Text(t) = &v {
                sv = match s.weighted(&[12, 1, 1, 1]) {
                    0 => sv,
                    1 => ScalarValue::LargeUtf8(Some(t.clone())),
                    2 => ScalarValue::Utf8View(Some(t.clone())),
                    _ => ScalarValue::Dictionary(Box::new(DataType::Int32), Box::new(sv)),
                };
            }
        }
        Expr::Literal(sv)
    }
    /// A column or literal
    fn leaf(&self, s: &mut Src, ty: Ty) -> Expr {
        if s.chance(3, 4) {
            if let Some(c) = self.col(s, ty) {
                return c;
            }
        }
        self.lit(s, ty)
    }
    /// An operand of arithmetic: literals alone would be folded long before pushdown
    fn column_first(&self, s: &mut Src, ty: Ty, depth: u32) -> Option<Expr> {
        if depth > 0 && s.chance(1, 2) {
            self.arith(s, ty, depth - 1)
        } else {
            self.col(s, ty)
        }
    }
    fn arith(&self, s: &mut Src, ty: Ty, depth: u32) -> Option<Expr> {
        use Operator::*;
        let c = self.column_first(s, ty, depth)?;
        if ty == Text {
            let other = if s.bool() { self.lit(s, ty) } else { self.value(s, ty, depth.saturating_sub(1)) };
            return Some(if s.bool() { bin(c, StringConcat, other) } else { bin(other, StringConcat, c) });
        }
        if ty != U64 && s.chance(1, 8) {
            return Some(Expr::Negative(Box::new(c)));
        }
        let op = if ty.is_int() {
            *s.pick(&[Plus, Minus, Multiply, Divide, Modulo, BitwiseAnd, BitwiseOr, BitwiseXor, BitwiseShiftLeft, BitwiseShiftRight])
        } else {
            *s.pick(&[Plus, Minus, Multiply, Divide, Modulo])
        };
        let op = if op == BitwiseXor && !self.xor { BitwiseAnd } else { op };
        if matches!(op, BitwiseShiftLeft | BitwiseShiftRight) && s.chance(4, 5) {
            let n = if s.chance(1, 6) { s.range(0, 70) } else { s.range(0, 5) };
            return Some(bin(c, op, Expr::Literal(scalar(ty, &V::Int(n as i128)))));
        }
        let other = if s.bool() { self.lit(s, ty) } else { self.value(s, ty, depth.saturating_sub(1)) };
        Some(if s.bool() { bin(c, op, other) } else { bin(other, op, c) })
    }
    /// An expression of a type other than Bool
    pub fn value(&self, s: &mut Src, ty: Ty, depth: u32) -> Expr {
        if depth > 0 && (ty.is_int() || matches!(ty, F64 | Text)) && s.chance(1, 2) {
            if let Some(e) = self.arith(s, ty, depth - 1) {
                return e;
            }
        }
        self.leaf(s, ty)
    }
    fn any(&self, s: &mut Src, ty: Ty, depth: u32) -> Expr {
        if ty == Bool {
            self.filter(s, depth)
        } else {
            self.value(s, ty, depth)
        }
    }
    pub fn filter(&self, s: &mut Src, depth: u32) -> Expr {
        use Operator::*;
        let ty = s.pick(&self.t.cols).ty;
        if depth == 0 {
            return match s.weighted(&[6, 1, 1]) {
                0 => {
                    let op = *s.pick(&[Eq, NotEq, Lt, LtEq, Gt, GtEq]);
                    let (l, r) = (self.leaf(s, ty), self.leaf(s, ty));
                    bin(l, op, r)
                }
                1 => self.leaf(s, Bool),
                _ => Expr::IsNull(Box::new(self.leaf(s, ty))),
            };
        }
        let d = depth - 1;
        match s.weighted(&[8, 8, 3, 3, 4, 4, 2, 1, 1, 1]) {
            0 => {
                let op = *s.pick(&[And, Or]);
                let (l, r) = (self.filter(s, d), self.filter(s, d));
                bin(l, op, r)
            }
            1 => {
                let op = *s.pick(&[Eq, NotEq, Lt, LtEq, Gt, GtEq]);
                let (l, r) = (self.any(s, ty, d), self.any(s, ty, d));
                bin(l, op, r)
            }
            2 => Expr::Not(Box::new(self.filter(s, d))),
            3 => {
                let e = Box::new(self.any(s, ty, d));
                if s.bool() { Expr::IsNull(e) } else { Expr::IsNotNull(e) }
            }
            4 => {
                let e = Box::new(self.filter(s, d));
                match s.below(4) {
                    0 => Expr::IsTrue(e),
                    1 => Expr::IsFalse(e),
                    2 => Expr::IsNotTrue(e),
                    _ => Expr::IsNotFalse(e),
                }
            }
            5 => {
                let e = self.any(s, ty, d);
                let list = s.vec(0, 4, |s| if s.chance(1, 6) { self.any(s, ty, d.saturating_sub(1)) } else { self.lit(s, ty) });
                // The empty list only now and then
                let list = if list.is_empty() && !s.chance(1, 8) { vec![self.lit(s, ty)] } else { list };
                Expr::InList(InList::new(Box::new(e), list, s.bool()))
            }
            6 => {
                let op = *s.pick(&[IsDistinctFrom, IsNotDistinctFrom]);
                let (l, r) = (self.any(s, ty, d), self.any(s, ty, d));
                bin(l, op, r)
            }
            7 if self.regex => {
                let op = *s.pick(&[RegexMatch, RegexIMatch, RegexNotMatch, RegexNotIMatch]);
                let l = self.value(s, Text, d);
                let p = s.pick(&["a", "^a", "b$", "a.*b", "^$", "[ab]", "A", "^.b", "'"]).to_string();
                bin(l, op, Expr::Literal(ScalarValue::Utf8(Some(p))))
            }
            8 if self.like => {
                let op = *s.pick(&[LikeMatch, NotLikeMatch, ILikeMatch, NotILikeMatch]);
                let l = self.value(s, Text, d);
                let p = s.pick(&["a%", "%a", "%a%", "_", "", "%", "A_%", "a'b%"]).to_string();
                bin(l, op, Expr::Literal(ScalarValue::Utf8(Some(p))))
            }
            9 => self.unlikely(s, d, ty),
            _ => bin(self.filter(s, 0), And, self.filter(s, d)),
        }
    }
    /// Nodes and literals that the pushdown may well refuse
    fn unlikely(&self, s: &mut Src, d: u32, ty: Ty) -> Expr {
        let e = Box::new(self.filter(s, d));
        match s.below(6) {
            0 => Expr::IsUnknown(e),
            1 => Expr::IsNotUnknown(e),
            2 => {
                let v = self.any(s, ty, d);
                v.between(self.lit(s, ty), self.lit(s, ty))
            }
            3 => {
                let v = self.value(s, Text, d);
                v.like(Expr::Literal(ScalarValue::Utf8(Some("a%".to_string()))))
            }
            4 => match self.col(s, F64) {
                Some(c) => {
                    let x = *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, f64::MIN_POSITIVE, f64::MAX]);
                    let op = *s.pick(&[Operator::Eq, Operator::NotEq, Operator::Lt, Operator::GtEq]);
                    bin(c, op, Expr::Literal(ScalarValue::Float64(Some(x))))
                }
                None => *e,
            },
            _ => match { let unit = s.below(3) as u8; self.col(s, Ts(unit)) } {
                Some(c) => {
                    // Years that have no four digits
                    let v = *s.pick(&[-63_000_000_000i64, 253_500_000_000, 300_000_000_000, -100_000_000_000]);
                    let ty = self.t.cols.iter().find(|x| c == Expr::Column(Column::from_name(&x.name))).unwrap().ty;
                    let op = *s.pick(&[Operator::Eq, Operator::NotEq, Operator::Lt, Operator::GtEq]);
                    bin(c, op, Expr::Literal(scalar(ty, &V::Time(v * ty.ticks()))))
                }
                None => *e,
            },
        }
    }
}

// ------------------------------------------------------------------------------------------------
// reference

/// Where the remote's arithmetic and DataFusion's are not comparable
#[derive(Debug)]
pub struct Outside(pub &'static str);

pub struct Eval<'a> {
    pub t: &'a Table,
    pub row: &'a [V],
    /// MySQL has only unsigned results of bit operations
    pub nonnegative_bits: bool,
}

pub fn cmp(l: &V, r: &V) -> Ordering {
    match (l, r) {
        (V::Bool(a), V::Bool(b)) => a.cmp(b),
        (V::Int(a), V::Int(b)) => a.cmp(b),
        (V::Float(a), V::Float(b)) => a.partial_cmp(b).unwrap(),
        (V::Text(a), V::Text(b)) => a.as_bytes().cmp(b.as_bytes()),
        (V::Time(a), V::Time(b)) => a.cmp(b),
        _ => panic!("cmp {l:?} {r:?}"),
    }
}

pub fn like(text: &str, pattern: &str) -> bool {
    fn go(t: &[char], p: &[char]) -> bool {
        match p.split_first() {
            None => t.is_empty(),
            Some(('%', p)) => (0..=t.len()).any(|i| go(&t[i..], p)),
            Some(('_', p)) => !t.is_empty() && go(&t[1..], p),
            Some((c, p)) => t.first() == Some(c) && go(&t[1..], p),
        }
    }
    go(&text.chars().collect::<Vec<_>>(), &pattern.chars().collect::<Vec<_>>())
}

pub fn regex(text: &str, pattern: &str, fold: bool) -> bool {
    regex::RegexBuilder::new(pattern).case_insensitive(fold).build().unwrap().is_match(text)
}

fn tri(v: &V) -> Option<bool> {
    match v {
        V::Null => None,
        V::Bool(b) => Some(*b),
        other => panic!("not a condition: {other:?}"),
    }
}
pub fn and(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
pub fn or(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    and(a.map(|x| !x), b.map(|x| !x)).map(|x| !x)
}
pub fn of(b: Option<bool>) -> V {
    b.map_or(V::Null, V::Bool)
}

impl Eval<'_> {
    fn ty(&self, e: &Expr) -> Ty {
        match e {
            Expr::Column(c) => self.t.cols.iter().find(|x| x.name == c.name).unwrap().ty,
            Expr::Literal(v) => INTS.into_iter().chain([F32, F64]).find(|t| t.arrow() == v.data_type()).unwrap_or(Text),
            Expr::Negative(e) => self.ty(e),
            Expr::BinaryExpr(b) => self.ty(&b.left),
            _ => Bool,
        }
    }
    pub fn eval(&self, e: &Expr) -> Result<V, Outside> {
        Ok(match e {
            Expr::Column(c) => self.row[self.t.cols.iter().position(|x| x.name == c.name).unwrap()].clone(),
            Expr::Literal(v) => {
                let v = unscalar(v);
                if let V::Float(f) = v {
                    if f.is_nan() || (f == 0.0 && f.is_sign_negative()) {
                        return Err(Outside("NaN or negative zero"));
                    }
                }
                v
            }
            Expr::Not(e) => of(tri(&self.eval(e)?).map(|b| !b)),
            Expr::IsNull(e) => V::Bool(self.eval(e)? == V::Null),
            Expr::IsNotNull(e) => V::Bool(self.eval(e)? != V::Null),
            Expr::IsTrue(e) => V::Bool(tri(&self.eval(e)?) == Some(true)),
            Expr::IsFalse(e) => V::Bool(tri(&self.eval(e)?) == Some(false)),
            Expr::IsUnknown(e) => V::Bool(tri(&self.eval(e)?).is_none()),
            Expr::IsNotTrue(e) => V::Bool(tri(&self.eval(e)?) != Some(true)),
            Expr::IsNotFalse(e) => V::Bool(tri(&self.eval(e)?) != Some(false)),
            Expr::IsNotUnknown(e) => V::Bool(tri(&self.eval(e)?).is_some()),
            Expr::Negative(x) => match self.eval(x)? {
                V::Null => V::Null,
                V::Int(i) => self.int(self.ty(x), -i)?,
                V::Float(f) => float(-f)?,
                other => panic!("-{other:?}"),
            },
            Expr::InList(InList { expr, list, negated }) => {
                let v = self.eval(expr)?;
                let mut found = Some(false);
                for x in list {
                    let x = self.eval(x)?;
                    let eq = (v != V::Null && x != V::Null).then(|| cmp(&v, &x) == Ordering::Equal);
                    found = or(found, eq);
                }
                of(found.map(|f| f != *negated))
            }
            Expr::Between(b) => {
                let (v, lo, hi) = (self.eval(&b.expr)?, self.eval(&b.low)?, self.eval(&b.high)?);
                let c = |a: &V, b: &V| (*a != V::Null && *b != V::Null).then(|| cmp(a, b) != Ordering::Greater);
                of(and(c(&lo, &v), c(&v, &hi)).map(|x| x != b.negated))
            }
            Expr::Like(l) => match (self.eval(&l.expr)?, self.eval(&l.pattern)?) {
                (V::Text(t), V::Text(p)) => V::Bool(like(&t, &p) != l.negated),
                _ => V::Null,
            },
            Expr::BinaryExpr(BinaryExpr { left, op, right }) => {
                use Operator::*;
                let (l, r) = (self.eval(left)?, self.eval(right)?);
                match op {
                    And => return Ok(of(and(tri(&l), tri(&r)))),
                    Or => return Ok(of(or(tri(&l), tri(&r)))),
                    IsDistinctFrom | IsNotDistinctFrom => {
                        let same = match (&l, &r) {
                            (V::Null, V::Null) => true,
                            (V::Null, _) | (_, V::Null) => false,
                            _ => cmp(&l, &r) == Ordering::Equal,
                        };
                        return Ok(V::Bool(same == (*op == IsNotDistinctFrom)));
                    }
                    _ => {}
                }
                if l == V::Null || r == V::Null {
                    return Ok(V::Null);
                }
                match (op, &l, &r) {
                    (Eq, ..) => V::Bool(cmp(&l, &r) == Ordering::Equal),
                    (NotEq, ..) => V::Bool(cmp(&l, &r) != Ordering::Equal),
                    (Lt, ..) => V::Bool(cmp(&l, &r) == Ordering::Less),
                    (LtEq, ..) => V::Bool(cmp(&l, &r) != Ordering::Greater),
                    (Gt, ..) => V::Bool(cmp(&l, &r) == Ordering::Greater),
                    (GtEq, ..) => V::Bool(cmp(&l, &r) != Ordering::Less),
                    (StringConcat, V::Text(a), V::Text(b)) => V::Text(format!("{a}{b}")),
                    (RegexMatch, V::Text(a), V::Text(b)) => V::Bool(regex(a, b, false)),
                    (RegexIMatch, V::Text(a), V::Text(b)) => V::Bool(regex(a, b, true)),
                    (RegexNotMatch, V::Text(a), V::Text(b)) => V::Bool(!regex(a, b, false)),
                    (RegexNotIMatch, V::Text(a), V::Text(b)) => V::Bool(!regex(a, b, true)),
                    (LikeMatch, V::Text(a), V::Text(b)) => V::Bool(like(a, b)),
                    (NotLikeMatch, V::Text(a), V::Text(b)) => V::Bool(!like(a, b)),
                    (ILikeMatch, V::Text(a), V::Text(b)) => V::Bool(like(&a.to_lowercase(), &b.to_lowercase())),
                    (NotILikeMatch, V::Text(a), V::Text(b)) => V::Bool(!like(&a.to_lowercase(), &b.to_lowercase())),
                    (_, V::Int(a), V::Int(b)) => {
                        let ty = self.ty(left);
                        let bits = matches!(op, BitwiseAnd | BitwiseOr | BitwiseXor | BitwiseShiftLeft | BitwiseShiftRight);
                        if bits && self.nonnegative_bits && (*a < 0 || *b < 0) {
                            return Err(Outside("bits of a negative number"));
                        }
                        if matches!(op, Divide | Modulo) && *b == 0 {
                            return Err(Outside("division by zero"));
                        }
                        let n = (*b as u32) & (ty.bits() - 1);
                        self.int(
                            ty,
                            match op {
                                Plus => a + b,
                                Minus => a - b,
                                Multiply => a * b,
                                Divide => a / b,
                                Modulo if *b == -1 && *a == ty.bounds().0 => return Err(Outside("overflow")),
                                Modulo => a % b,
                                BitwiseAnd => a & b,
                                BitwiseOr => a | b,
                                BitwiseXor => a ^ b,
                                BitwiseShiftLeft => a << n,
                                BitwiseShiftRight => a >> n,
                                _ => panic!("{op} on integers"),
                            },
                        )?
                    }
                    (_, V::Float(a), V::Float(b)) => float(match op {
                        Plus => a + b,
                        Minus => a - b,
                        Multiply => a * b,
                        Divide => a / b,
                        Modulo => a % b,
                        _ => panic!("{op} on floats"),
                    })?,
                    _ => panic!("{l:?} {op} {r:?}"),
                }
            }
            other => panic!("eval {other:?}"),
        })
    }
    fn int(&self, ty: Ty, v: i128) -> Result<V, Outside> {
        let (lo, hi) = ty.bounds();
        if v < lo || v > hi {
            return Err(Outside("overflow"));
        }
        Ok(V::Int(v))
    }
}

fn float(v: f64) -> Result<V, Outside> {
    if !v.is_finite() || (v == 0.0 && v.is_sign_negative()) || (v != 0.0 && v.abs() < f64::MIN_POSITIVE) {
        return Err(Outside("float range"));
    }
    Ok(V::Float(v))
}

/// The value of the filter in each row
pub fn reference(t: &Table, e: &Expr, nonnegative_bits: bool) -> Result<Vec<Option<bool>>, Outside> {
    t.rows.iter().map(|row| Ok(tri(&Eval { t, row, nonnegative_bits }.eval(e)?))).collect()
}

/// The same through DataFusion itself; None where it reports an error
pub fn datafusion(t: &Table, e: &Expr) -> Option<Vec<Option<bool>>> {
    let schema = DFSchema::try_from(t.schema()).unwrap();
    // The columns are all Utf8; the other kinds of text literals mean the same
    let plain = e
        .clone()
        .transform(|e| {
            Ok(match &e {
                Expr::Literal(v @ (ScalarValue::LargeUtf8(_) | ScalarValue::Utf8View(_) | ScalarValue::Dictionary(..))) => {
                    Transformed::yes(Expr::Literal(scalar(Text, &unscalar(v))))
                }
                _ => Transformed::no(e),
            })
        })
        .unwrap()
        .data;
    let physical = create_physical_expr(&plain, &schema, &ExecutionProps::new()).ok()?;
    let batch = t.batch();
    let value = no_panic(|| physical.evaluate(&batch)).ok()?.ok()?;
    let array = match value {
        ColumnarValue::Array(a) => a,
        ColumnarValue::Scalar(s) => s.to_array_of_size(t.rows.len()).ok()?,
    };
    if array.data_type() == &DataType::Null {
        return Some(vec![None; t.rows.len()]);
    }
    Some(array.as_boolean().iter().collect())
}

/// Operators and nodes of a filter, for the statistics
pub fn shape(e: &Expr) -> Vec<String> {
    use datafusion::common::tree_node::TreeNodeRecursion;
    let mut out = vec![];
    e.apply(|e| {
        match e {
            Expr::Column(_) => {}
            Expr::Literal(v) => out.push(format!("literal {}", v.data_type())),
            Expr::BinaryExpr(b) => out.push(format!("{}", b.op)),
            other => out.push(other.variant_name().to_string()),
        }
        Ok(TreeNodeRecursion::Continue)
    })
    .unwrap();
    out
}
