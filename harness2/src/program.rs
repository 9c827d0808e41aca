//! Programs: written in both syntaxes, and what they mean by the documentation.
use crate::ir::Value;
use crate::bridge::*;
use ddverif::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

/// Scalar terms.
#[derive(Clone, Debug)]
pub enum T {
    /// `$n`, and in a list of fields the fields of that row.
    Row(usize),
    Field(usize, usize),
    Int(i64),
    /// `+ - *`, comparisons, `&&`.
    Op(&'static str, Box<T>, Box<T>),
    Or(Box<T>, Box<T>),
    Not(Box<T>),
    Neg(Box<T>),
    If(Box<T>, Box<T>, Box<T>),
    Tuple(Vec<T>),
    List(Vec<T>),
    Proj(Box<T>, usize),
    Len(Box<T>),
    Inject(Box<T>, Box<T>),
    IsTag(i64, Box<T>),
    /// An arm for each tag from 0; the payload is `Bound(0)`.
    Case(Box<T>, Vec<T>),
    Fold(Box<T>, Box<T>, Box<T>),
    Bound(usize),
    /// By `con` declarations `C0(1) = 0`, `C1(2) = 1`, `C2(1) = 2`: with a pattern for `C0(x)` and `C1(y, z)`, and a default.
    Con(usize, Vec<T>),
    Match(Box<T>, Box<T>, Box<T>, Box<T>),
    /// A name bound by a pattern: its text, and its binder's distance and field.
    Name(&'static str, usize, usize),
}
pub use T::*;
pub fn bx(t: T) -> Box<T> { Box::new(t) }
pub fn op(o: &'static str, a: T, b: T) -> T { Op(o, bx(a), bx(b)) }

fn level(t: &T) -> u32 {
    match t { Op("&&", ..) => 0, Op("==" | "!=" | "<" | "<=" | ">" | ">=", ..) => 1, Op("+" | "-", ..) => 2, Op(..) => 3, Neg(_) => 4, _ => 5 }
}
fn list(ts: &[T]) -> String { ts.iter().map(|t| t.text()).collect::<Vec<_>>().join(", ") }
impl T {
    fn at(&self, l: u32) -> String { if level(self) < l { format!("({})", self.text()) } else { self.text() } }
    pub fn text(&self) -> String {
        match self {
            Row(n) => format!("${n}"),
            Field(n, i) => format!("${n}[{i}]"),
            Int(n) => format!("{n}"),
            Op(o, a, b) => { let l = level(self); let left = if l == 1 { 2 } else { l }; format!("{} {o} {}", a.at(left), b.at(l + 1)) },
            Or(a, b) => format!("or({}, {})", a.text(), b.text()),
            Not(a) => format!("not({})", a.text()),
            Neg(a) => format!("- {}", a.at(5)),
            If(a, b, d) => format!("if({}, {}, {})", a.text(), b.text(), d.text()),
            Tuple(ts) => format!("tuple({})", list(ts)),
            List(ts) => format!("list({})", list(ts)),
            Proj(t, i) => if level(t) == 5 && i % 2 == 0 { format!("{}[{i}]", t.text()) } else { format!("proj({}, {i})", t.text()) },
            Len(t) => format!("len({})", t.text()),
            Inject(a, b) => format!("inject({}, {})", a.text(), b.text()),
            IsTag(n, t) => format!("istag({n}, {})", t.text()),
            Case(s, arms) => format!("case({}, {})", s.text(), list(arms)),
            Fold(a, b, d) => format!("fold({}, {}, {})", a.text(), b.text(), d.text()),
            Bound(k) => format!("^{k}"),
            Con(k, ts) => format!("C{k}({})", list(ts)),
            Match(s, a, b, d) => format!("case {} {{ C1(y, z) => {}, C0(x) => {}, _ => {} }}", s.text(), b.text(), a.text(), d.text()),
            Name(n, _, _) => n.to_string(),
        }
    }
    /// Only one of the syntaxes has these.
    pub fn piped(&self) -> bool {
        match self {
            Case(..) => false,
            _ => true,
        }
    }
    pub fn eval(&self, env: &mut Vec<Value>) -> Value {
        let int = |b: bool| Value::Int(c(b as i64));
        let truth = |v: Value| match v { Value::Int(n) => n != c(0), _ => false };
        let number = |v: Value| match v { Value::Int(n) => n, v => panic!("not a number: {v:?}") };
        let fields = |v: Value| match v { Value::Tuple(xs) | Value::List(xs) => xs, v => panic!("no fields: {v:?}") };
        fn row(ts: &[T], env: &mut Vec<Value>) -> Vec<Value> { ts.iter().map(|t| t.eval(env)).collect() }
        match self {
            Row(n) => env[*n].clone(),
            Field(n, i) => fields(env[*n].clone())[*i].clone(),
            Int(n) => Value::Int(c(*n)),
            Op("&&", a, b) => { let x = truth(a.eval(env)); int(x && truth(b.eval(env))) },
            Op(o, a, b) => {
                let (x, y) = (a.eval(env), b.eval(env));
                match *o {
                    "+" => Value::Int(number(x) + number(y)), "-" => Value::Int(number(x) - number(y)), "*" => Value::Int(number(x) * number(y)),
                    "==" => int(x == y), "!=" => int(x != y), "<" => int(x < y), "<=" => int(!(y < x)), ">" => int(y < x), ">=" => int(!(x < y)),
                    o => unreachable!("{o}"),
                }
            },
            Or(a, b) => { let x = truth(a.eval(env)); int(x || truth(b.eval(env))) },
            Not(a) => int(!truth(a.eval(env))),
            Neg(a) => Value::Int(c(0) - number(a.eval(env))),
            If(a, b, d) => if truth(a.eval(env)) { b.eval(env) } else { d.eval(env) },
            Tuple(ts) => Value::Tuple(row(ts, env)),
            List(ts) => Value::List(row(ts, env)),
            Proj(t, i) => fields(t.eval(env))[*i].clone(),
            Len(t) => Value::Int(c(fields(t.eval(env)).len() as i64)),
            Inject(a, b) => { let tag = number(a.eval(env)); Value::Variant(concrete(tag) as u32, Box::new(b.eval(env))) },
            IsTag(n, t) => int(matches!(t.eval(env), Value::Variant(k, _) if k as i64 == *n)),
            Case(s, arms) => { let Value::Variant(k, p) = s.eval(env) else { panic!() }; env.push(*p); let out = arms[k as usize].eval(env); env.pop(); out },
            Fold(l, i, s) => {
                let mut acc = i.eval(env);
                for x in fields(l.eval(env)) { env.push(acc); env.push(x); acc = s.eval(env); env.pop(); env.pop(); }
                acc
            },
            Bound(k) => env[env.len() - 1 - k].clone(),
            Con(k, ts) => Value::Variant(*k as u32, Box::new(Value::Tuple(row(ts, env)))),
            Match(s, a, b, d) => {
                let Value::Variant(k, p) = s.eval(env) else { panic!() };
                if k > 1 { return d.eval(env) }
                env.push(*p);
                let out = if k == 0 { a.eval(env) } else { b.eval(env) };
                env.pop();
                out
            },
            Name(_, k, i) => fields(env[env.len() - 1 - k].clone())[*i].clone(),
        }
    }
}
pub fn matched(s: T, a: T, b: T, d: T) -> T { Match(bx(s), bx(a), bx(b), bx(d)) }

/// Key fields and value fields.
#[derive(Clone, Debug)]
pub struct P(pub Vec<T>, pub Vec<T>);
impl P {
    fn text(&self) -> String {
        // A field that starts with a row is that row's fields.
        let side = |ts: &[T]| ts.iter().map(|t| match t { Op(..) => t.at(6), t => t.text() }).collect::<Vec<_>>().join(", ");
        format!("({} ; {})", side(&self.0), side(&self.1))
    }
    pub fn eval(&self, mut env: Vec<Value>) -> (Value, Value) {
        let mut side = |ts: &[T]| {
            let mut out = vec![];
            for t in ts { match t { Row(n) => { let (Value::Tuple(xs) | Value::List(xs)) = env[*n].clone() else { panic!() }; out.extend(xs) }, t => out.push(t.eval(&mut env)) } }
            Value::Tuple(out)
        };
        (side(&self.0), side(&self.1))
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum R { Min, Distinct, Count, Collect }

/// Collections.
#[derive(Clone, Debug)]
pub enum E {
    Input(usize), Of(String), In(String, String),
    Map(Box<E>, P), Join(Box<E>, Box<E>, P), Reduce(Box<E>, R), Filter(Box<E>, T), Negate(Box<E>), EnterAt(Box<E>, T), Lift(usize, Box<E>), Flat(Box<E>, T),
    /** The flags tell which are subtracted. */ Sum(Vec<(bool, E)>), Arrange(Box<E>),
}
thread_local! { static LIFTS: Cell<usize> = const { Cell::new(0) } }
pub fn of(n: &str) -> E { E::Of(n.to_string()) }
pub fn within(s: &str, n: &str) -> E { E::In(s.to_string(), n.to_string()) }
impl E {
    pub fn map(self, k: Vec<T>, v: Vec<T>) -> E { E::Map(Box::new(self), P(k, v)) }
    pub fn join(self, o: E, k: Vec<T>, v: Vec<T>) -> E { E::Join(Box::new(self), Box::new(o), P(k, v)) }
    pub fn reduce(self, r: R) -> E { E::Reduce(Box::new(self), r) }
    pub fn filter(self, t: T) -> E { E::Filter(Box::new(self), t) }
    pub fn negate(self) -> E { E::Negate(Box::new(self)) }
    pub fn enter_at(self, t: T) -> E { E::EnterAt(Box::new(self), t) }
    pub fn lift(self) -> E { E::Lift(LIFTS.with(|l| { l.set(l.get() + 1); l.get() }), Box::new(self)) }
    pub fn flat(self, t: T) -> E { E::Flat(Box::new(self), t) }
    pub fn plus(self, o: E) -> E { E::Sum(vec![(false, self), (false, o)]) }
    pub fn minus(self, o: E) -> E { E::Sum(vec![(false, self), (true, o)]) }
    pub fn arrange(self) -> E { E::Arrange(Box::new(self)) }
    fn atom(&self) -> String { match self { E::Input(_) | E::Of(_) | E::In(..) => self.pipe(), _ => format!("({})", self.pipe()) } }
    fn head(&self) -> String { match self { E::Sum(_) => self.pipe(), _ => self.pipe() } }
    pub fn pipe(&self) -> String {
        match self {
            E::Input(n) => format!("input {n}"),
            E::Of(n) => n.clone(),
            E::In(s, n) => format!("{s}::{n}"),
            E::Map(e, p) => format!("{} | key{}", e.head(), p.text()),
            E::Join(e, o, p) => format!("{} | join({}, {})", e.head(), match &**o { E::Sum(_) => o.atom(), _ => o.pipe() }, p.text()),
            E::Reduce(e, r) => format!("{} | {}", e.head(), format!("{r:?}").to_lowercase()),
            E::Filter(e, t) => format!("{} | filter({})", e.head(), t.text()),
            E::Negate(e) => format!("{} | negate", e.head()),
            E::EnterAt(e, t) => format!("{} | enter_at({})", e.head(), t.text()),
            E::Lift(_, e) => format!("{} | lift_iter", e.head()),
            E::Flat(e, t) => format!("{} | flatmap({})", e.head(), t.text()),
            E::Sum(es) => es.iter().enumerate().map(|(i, (m, e))| { assert!(i > 0 || !m); format!("{}{}", if i == 0 { "" } else if *m { " - " } else { " + " }, e.atom()) }).collect(),
            E::Arrange(e) => format!("{} | arrange", e.head()),
        }
    }
    pub fn applied(&self) -> String {
        match self {
            E::Input(n) => format!("INPUT {n}"),
            E::Of(n) => n.clone(),
            E::In(s, n) => format!("{s}::{n}"),
            E::Map(e, p) => format!("MAP({}, {})", e.applied(), p.text()),
            E::Join(e, o, p) => format!("JOIN({}, {}, {})", e.applied(), o.applied(), p.text()),
            E::Reduce(e, r) => format!("REDUCE({}, {})", e.applied(), format!("{r:?}").to_uppercase()),
            E::Filter(e, t) => format!("FILTER({}, {})", e.applied(), t.text()),
            E::Negate(e) => format!("NEGATE({})", e.applied()),
            E::EnterAt(e, t) => format!("ENTER_AT({}, {})", e.applied(), t.text()),
            E::Lift(_, e) => format!("LIFT_ITER({})", e.applied()),
            E::Flat(e, t) => format!("FLATMAP({}, {})", e.applied(), t.text()),
            E::Sum(es) => format!("CONCAT({})", es.iter().map(|(m, e)| if *m { format!("NEGATE({})", e.applied()) } else { e.applied() }).collect::<Vec<_>>().join(", ")),
            E::Arrange(e) => format!("ARRANGE({})", e.applied()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum S { Let(String, E), Var(String, E), Scope(String, Vec<S>), Export(String, E) }
pub fn let_(n: &str, e: E) -> S { S::Let(n.to_string(), e) }
pub fn var_(n: &str, e: E) -> S { S::Var(n.to_string(), e) }
pub fn scope_(n: &str, b: Vec<S>) -> S { S::Scope(n.to_string(), b) }
pub fn export_(n: &str, e: E) -> S { S::Export(n.to_string(), e) }

pub fn pipe(body: &[S]) -> String {
    body.iter().map(|s| match s {
        S::Let(n, e) => format!("let {n} = {};\n", e.pipe()),
        S::Var(n, e) => format!("var {n} = {};\n", e.pipe()),
        S::Scope(n, b) => format!("{n}: {{\n{}}}\n", pipe(b)),
        S::Export(n, e) => format!("export \"{n}\" = {};\n", e.pipe()),
    }).collect()
}
pub fn applied(body: &[S]) -> String {
    body.iter().map(|s| match s {
        S::Let(n, e) => format!("let {n} = {};\n", e.applied()),
        S::Var(n, e) => format!("var {n} = {};\n", e.applied()),
        S::Scope(n, b) => format!("{n}: {{\n{}}}\n", applied(b)),
        S::Export(n, e) => format!("export \"{n}\" = {};\n", e.applied()),
    }).collect()
}

pub type Row_ = (Value, Value);
pub type Bag = BTreeMap<Row_, i64>;
fn add(b: &mut Bag, r: Row_, d: i64) { let e = b.entry(r.clone()).or_insert(0); *e += d; if *e == 0 { b.remove(&r); } }

/// A scope as it is at one iteration.
struct Round<'a> {
    body: &'a [S],
    outer: &'a dyn Fn(&str) -> Result<Rc<Bag>, Unstated>,
    inputs: &'a [Vec<Row_>],
    n: usize,
    vars: &'a BTreeMap<String, Rc<Bag>>,
    memo: RefCell<BTreeMap<String, Rc<Bag>>>,
    kids: RefCell<BTreeMap<String, Rc<BTreeMap<String, Rc<Bag>>>>>,
    /// What entries wait for, and lifted collections: as last seen, and as accumulated.
    late: &'a Cell<usize>,
    lifts: &'a RefCell<BTreeMap<usize, (Bag, Bag)>>,
    seen: RefCell<BTreeMap<usize, Bag>>,
}
/// The program does not settle, or is not one whose meaning is stated.
pub struct Unstated;
impl<'a> Round<'a> {
    fn name(&self, n: &str) -> Result<Rc<Bag>, Unstated> {
        if let Some(b) = self.vars.get(n) { return Ok(b.clone()) }
        if let Some(b) = self.memo.borrow().get(n) { return Ok(b.clone()) }
        for s in self.body {
            if let S::Let(m, e) = s { if m == n { let b = Rc::new(self.eval(e)?); self.memo.borrow_mut().insert(n.to_string(), b.clone()); return Ok(b) } }
        }
        (self.outer)(n)
    }
    fn kid(&self, n: &str) -> Result<Rc<BTreeMap<String, Rc<Bag>>>, Unstated> {
        if let Some(k) = self.kids.borrow().get(n) { return Ok(k.clone()) }
        for s in self.body {
            if let S::Scope(m, b) = s { if m == n {
                let k = Rc::new(scope(b, &|x| self.name(x), self.inputs)?);
                self.kids.borrow_mut().insert(n.to_string(), k.clone());
                return Ok(k);
            } }
        }
        panic!("no scope {n}")
    }
    fn eval(&self, e: &E) -> Result<Bag, Unstated> {
        let mut out = Bag::new();
        match e {
            E::Input(n) => for r in &self.inputs[*n] { add(&mut out, r.clone(), 1) },
            E::Of(n) => return Ok((*self.name(n)?).clone()),
            E::In(s, n) => return Ok((*self.kid(s)?[n]).clone()),
            E::Map(e, p) => for ((k, v), d) in self.eval(e)? { add(&mut out, p.eval(vec![k, v]), d) },
            E::Join(e, o, p) => {
                let (a, b) = (self.eval(e)?, self.eval(o)?);
                for ((k, v), d) in &a { for ((l, w), f) in &b { if k == l { add(&mut out, p.eval(vec![k.clone(), v.clone(), w.clone()]), d * f) } } }
            },
            E::Reduce(e, r) => {
                let mut groups: Vec<(Value, Vec<(Value, i64)>)> = vec![];
                for ((k, v), d) in self.eval(e)? {
                    if d < 0 { return Err(Unstated) }
                    match groups.last_mut() { Some((l, g)) if *l == k => g.push((v, d)), _ => groups.push((k, vec![(v, d)])) }
                }
                for (k, g) in groups {
                    let v = match r {
                        R::Min => g[0].0.clone(),
                        R::Distinct => Value::Tuple(vec![]),
                        R::Count => Value::Tuple(vec![Value::Int(c(g.iter().map(|x| x.1).sum()))]),
                        R::Collect => Value::List(g.into_iter().flat_map(|(v, d)| std::iter::repeat(v).take(d as usize)).collect()),
                    };
                    add(&mut out, (k, v), 1);
                }
            },
            E::Filter(e, t) => for ((k, v), d) in self.eval(e)? { if let Value::Int(n) = t.eval(&mut vec![k.clone(), v.clone()]) { if n != c(0) { add(&mut out, (k, v), d) } } },
            E::Negate(e) => for (r, d) in self.eval(e)? { add(&mut out, r, -d) },
            E::EnterAt(e, t) => for ((k, v), d) in self.eval(e)? {
                let Value::Int(n) = t.eval(&mut vec![k.clone(), v.clone()]) else { panic!() };
                let when = 256 * (64 - (concrete(n) as u64).leading_zeros() as usize);
                self.late.set(self.late.get().max(when));
                if when <= self.n { add(&mut out, (k, v), d) }
            },
            E::Lift(i, e) => {
                let now = self.eval(e)?;
                let (was, mut sum) = self.lifts.borrow().get(i).cloned().unwrap_or_default();
                let mut delta = now.clone();
                for (r, d) in was { add(&mut delta, r, -d) }
                for ((k, v), d) in delta {
                    let v = match v { Value::Tuple(mut xs) => { xs.push(Value::Int(c(self.n as i64))); Value::Tuple(xs) }, v => Value::Tuple(vec![v, Value::Int(c(self.n as i64))]) };
                    add(&mut sum, (k, v), d);
                }
                self.seen.borrow_mut().insert(*i, now);
                // The same collection may be asked for again in this round.
                self.lifts.borrow_mut().insert(*i, (self.seen.borrow()[i].clone(), sum.clone()));
                return Ok(sum);
            },
            E::Flat(e, t) => for ((k, v), d) in self.eval(e)? {
                let Value::List(xs) = t.eval(&mut vec![k.clone(), v.clone()]) else { panic!() };
                for (i, x) in xs.into_iter().enumerate() { add(&mut out, (k.clone(), Value::Tuple(vec![Value::Int(c(i as i64)), x])), d) }
            },
            E::Sum(es) => for (minus, e) in es { for (r, d) in self.eval(e)? { add(&mut out, r, if *minus { -d } else { d }) } },
            E::Arrange(e) => return self.eval(e),
        }
        Ok(out)
    }
}
/// The collections of a scope, once its variables settle.
pub fn scope(body: &[S], outer: &dyn Fn(&str) -> Result<Rc<Bag>, Unstated>, inputs: &[Vec<Row_>]) -> Result<BTreeMap<String, Rc<Bag>>, Unstated> {
    let mut vars: BTreeMap<String, Rc<Bag>> = body.iter().filter_map(|s| if let S::Var(n, _) = s { Some((n.clone(), Rc::new(Bag::new()))) } else { None }).collect();
    let (late, lifts) = (Cell::new(0), RefCell::new(BTreeMap::new()));
    let mut n = 0;
    for _ in 0..16 {
        let round = Round { body, outer, inputs, n, vars: &vars, memo: Default::default(), kids: Default::default(), late: &late, lifts: &lifts, seen: Default::default() };
        let mut next = vars.clone();
        let mut all = vars.clone();
        for s in body {
            match s {
                S::Let(m, _) => { all.insert(m.clone(), round.name(m)?); },
                S::Var(m, e) => { next.insert(m.clone(), Rc::new(round.eval(e)?)); },
                S::Scope(m, _) => { round.kid(m)?; },
                S::Export(m, e) => { let b = Rc::new(round.eval(e)?); all.insert(format!("export {m}"), b); },
            }
        }
        let settled = vars == next;
        drop(round);
        if settled && n >= late.get() { return Ok(all) }
        n = if settled { (n / 256 + 1) * 256 } else { n + 1 };
        vars = next;
    }
    Err(Unstated)
}
