//! Values of the reference model, written from the language description and
//! kept independent of the crate's `Variable`.

use sieve::runtime::Variable;

#[derive(Clone, Debug)]
pub enum Val {
    S(String),
    I(i64),
    F(f64),
    A(Vec<Val>),
}

impl Default for Val {
    fn default() -> Self {
        Val::S(String::new())
    }
}

impl Val {
    pub fn text(&self) -> String {
        match self {
            Val::S(s) => s.clone(),
            Val::I(i) => i.to_string(),
            Val::F(f) => f.to_string(),
            Val::A(a) => a.iter().map(|v| v.text()).collect::<Vec<_>>().join("\n"),
        }
    }

    /// Text as a host or header sees it (arrays one item per line).
    pub fn text_joined(&self) -> String {
        match self {
            Val::A(a) => {
                let mut o = String::new();
                for i in a {
                    if !o.is_empty() {
                        o.push_str("\r\n");
                    }
                    if !matches!(i, Val::A(_)) {
                        o.push_str(&i.text());
                    }
                }
                o
            }
            v => v.text(),
        }
    }

    /// An unset or empty-string value. Numbers and arrays are never "empty".
    pub fn is_empty(&self) -> bool {
        matches!(self, Val::S(s) if s.is_empty())
    }

    pub fn truth(&self) -> bool {
        match self {
            Val::S(s) => !s.is_empty(),
            Val::I(i) => *i != 0,
            Val::F(f) => *f != 0.0,
            Val::A(a) => !a.is_empty(),
        }
    }

    /// Storage size accounted against the variable size limit.
    pub fn size(&self) -> usize {
        match self {
            Val::A(a) => a.iter().map(|v| v.size() + 2).sum(),
            _ => self.text().len(),
        }
    }

    fn num(&self) -> Val {
        match self {
            Val::S(s) if s.is_empty() => Val::I(0),
            Val::S(s) => {
                if let Ok(i) = s.parse::<i64>() {
                    Val::I(i)
                } else if let Ok(f) = s.parse::<f64>() {
                    Val::F(f)
                } else {
                    Val::I(0)
                }
            }
            Val::I(i) => Val::I(*i),
            Val::F(f) => Val::F(*f),
            Val::A(a) => Val::I(a.is_empty() as i64),
        }
    }

    fn as_f(&self) -> f64 {
        match self {
            Val::I(i) => *i as f64,
            Val::F(f) => *f,
            v => v.num().as_f(),
        }
    }

    pub fn index(&self) -> usize {
        match self {
            Val::I(i) => *i as usize,
            Val::F(f) => *f as usize,
            Val::S(s) => s.parse::<usize>().unwrap_or(0),
            Val::A(_) => 0,
        }
    }

    pub fn items(self) -> Vec<Val> {
        match self {
            Val::A(a) => a,
            v if v.is_empty() => vec![],
            v => vec![v],
        }
    }

    pub fn eq(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::I(a), Val::I(b)) => a == b,
            (Val::S(a), Val::S(b)) => a == b,
            (Val::A(a), Val::A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.eq(y)),
            (Val::A(_), _) | (_, Val::A(_)) => false,
            (Val::S(_), n) => self.num().eq(n),
            (n, Val::S(_)) => n.eq(&o.num()),
            (a, b) => a.as_f() == b.as_f(),
        }
    }

    pub fn cmp(&self, o: &Val) -> Option<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        match (self, o) {
            (Val::I(a), Val::I(b)) => Some(a.cmp(b)),
            (Val::S(a), Val::S(b)) => Some(a.cmp(b)),
            (Val::A(a), Val::A(b)) => {
                for (x, y) in a.iter().zip(b) {
                    match x.cmp(y) {
                        Some(Equal) => (),
                        r => return r,
                    }
                }
                Some(a.len().cmp(&b.len()))
            }
            (Val::A(_), _) => Some(Greater),
            (Val::S(_), Val::A(_)) => Some(Greater),
            (_, Val::A(_)) => Some(Less),
            (Val::S(_), n) => self.num().cmp(n),
            (n, Val::S(_)) => n.cmp(&o.num()),
            (a, b) => a.as_f().partial_cmp(&b.as_f()),
        }
    }

    pub fn from_var(v: &Variable) -> Val {
        match v {
            Variable::String(s) => Val::S(s.as_ref().to_string()),
            Variable::Integer(i) => Val::I(*i),
            Variable::Float(f) => Val::F(*f),
            Variable::Array(a) => Val::A(a.iter().map(Val::from_var).collect()),
        }
    }

    pub fn to_var(&self) -> Variable {
        match self {
            Val::S(s) => Variable::from(s.clone()),
            Val::I(i) => Variable::Integer(*i),
            Val::F(f) => Variable::Float(*f),
            Val::A(a) => Variable::Array(a.iter().map(|v| v.to_var()).collect::<Vec<_>>().into()),
        }
    }

    /// Same type and same content (what a host would see as argument).
    pub fn same(&self, o: &Val) -> bool {
        match (self, o) {
            (Val::S(a), Val::S(b)) => a == b,
            (Val::I(a), Val::I(b)) => a == b,
            (Val::F(a), Val::F(b)) => a.to_bits() == b.to_bits() || a == b,
            (Val::A(a), Val::A(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    And,
    Or,
    Xor,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
}

pub const OPS: [Op; 13] = [
    Op::Add,
    Op::Sub,
    Op::Eq,
    Op::Lt,
    Op::And,
    Op::Or,
    Op::Mul,
    Op::Div,
    Op::Xor,
    Op::Ne,
    Op::Le,
    Op::Gt,
    Op::Ge,
];

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::And => "&&",
            Op::Or => "||",
            Op::Xor => "^",
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
        }
    }
    pub fn precedence(self) -> u8 {
        match self {
            Op::Mul | Op::Div => 7,
            Op::Add | Op::Sub => 6,
            Op::Gt | Op::Ge | Op::Lt | Op::Le => 5,
            Op::Eq | Op::Ne => 4,
            Op::Xor => 3,
            Op::And => 2,
            Op::Or => 1,
        }
    }
}

fn b(x: bool) -> Val {
    Val::I(x as i64)
}

pub fn negate(v: Val) -> Val {
    match v.num() {
        Val::I(i) => Val::I(i.checked_neg().unwrap_or(i64::MAX)),
        Val::F(f) => Val::F(-f),
        v => v,
    }
}

pub fn not(v: &Val) -> Val {
    b(!v.truth())
}

pub fn binary(op: Op, l: Val, r: Val) -> Val {
    use std::cmp::Ordering::*;
    match op {
        Op::And => b(l.truth() && r.truth()),
        Op::Or => b(l.truth() || r.truth()),
        Op::Xor => b(l.truth() != r.truth()),
        Op::Eq => b(l.eq(&r)),
        Op::Ne => b(!l.eq(&r)),
        Op::Lt => b(l.cmp(&r) == Some(Less)),
        Op::Gt => b(l.cmp(&r) == Some(Greater)),
        Op::Le => b(matches!(l.cmp(&r), Some(Less | Equal))),
        Op::Ge => b(matches!(l.cmp(&r), Some(Greater | Equal))),
        Op::Add => match (l, r) {
            (Val::A(mut x), Val::A(y)) => {
                x.extend(y);
                Val::A(x)
            }
            (Val::A(mut x), y) => {
                x.push(y);
                Val::A(x)
            }
            (x, Val::A(mut y)) => {
                y.insert(0, x);
                Val::A(y)
            }
            (Val::I(x), Val::I(y)) => Val::I(x.saturating_add(y)),
            (x @ Val::S(_), y) | (x, y @ Val::S(_)) => {
                // An empty string is neutral: the other operand keeps its type.
                if x.is_empty() {
                    y
                } else if y.is_empty() && !matches!(x, Val::S(_)) {
                    x
                } else {
                    Val::S(x.text() + &y.text())
                }
            }
            (x, y) => Val::F(x.as_f() + y.as_f()),
        },
        Op::Sub => match (l, r) {
            (Val::A(x), y) | (y, Val::A(x)) => Val::A(x.into_iter().filter(|v| !v.eq(&y)).collect()),
            (x, y) => match (x.num(), y.num()) {
                (Val::I(x), Val::I(y)) => Val::I(x.saturating_sub(y)),
                (x, y) => Val::F(x.as_f() - y.as_f()),
            },
        },
        Op::Mul => match (l.num(), r.num()) {
            (Val::I(x), Val::I(y)) => Val::I(x.saturating_mul(y)),
            (x, y) => Val::F(x.as_f() * y.as_f()),
        },
        Op::Div => {
            let (x, y) = (l.num().as_f(), r.num().as_f());
            Val::F(if y != 0.0 { x / y } else { 0.0 })
        }
    }
}
