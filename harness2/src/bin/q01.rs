//! The interpreter: programs mean what they are documented to mean, before and after optimisation, and explanations suffice.
use ddverif::runner::*;
use ddverif::*;
use ddverif_interactive::backend::vec::evaluate;
use ddverif_interactive::explain::{clone_identity, explain};
use ddverif_interactive::ir::Value;
use ddverif_interactive::lower::lower_tree;
use ddverif_interactive::parse;
use ddverif_interactive::program::*;
use ddverif_interactive::scope_ir::Program;
use std::collections::BTreeMap;

const CONS: &str = "con C0(1) = 0;\ncon C1(2) = 1;\ncon C2(1) = 2;\n";

fn ints(xs: &[Sym]) -> Value { Value::Tuple(xs.iter().map(|x| Value::Int(*x)).collect()) }
fn rows(name: &str, n: usize, width: usize, top: i64) -> Vec<Row_> {
    (0..n).map(|i| (ints(&(0..width).map(|j| var(&format!("{name}{i}.{j}"), 0, top)).collect::<Vec<_>>()), ints(&[]))).collect()
}
fn same(x: &Value, y: &Value) -> B {
    match (x, y) {
        (Value::Int(x), Value::Int(y)) => x.is(*y),
        (Value::Tuple(x), Value::Tuple(y)) | (Value::List(x), Value::List(y)) => if x.len() != y.len() { FALSE } else { B::all(x.iter().zip(y).map(|(x, y)| same(x, y))) },
        (Value::Variant(k, x), Value::Variant(l, y)) => if k != l { FALSE } else { same(x, y) },
        _ => FALSE,
    }
}
fn agree(got: &Bag, want: &Bag, what: &str) {
    let one = |x: (&Row_, &i64), y: (&Row_, &i64)| same(&x.0.0, &y.0.0) & same(&x.0.1, &y.0.1) & B::of(x.1 == y.1);
    let eq = if got.len() != want.len() { FALSE } else { B::all(got.iter().zip(want.iter()).map(|(x, y)| one(x, y))) };
    if eq != TRUE { note(|| format!("{what}: {got:?} rather than {want:?}")); }
    check(eq, what);
}
fn outputs(p: &Program, inputs: &[Vec<Row_>]) -> BTreeMap<String, Bag> {
    evaluate(p, inputs).into_iter().map(|(n, rows)| (n, rows.into_iter().collect())).collect()
}
fn lowered(body: &[S], syntax: usize) -> Program {
    let text = if syntax == 0 { format!("{CONS}{}", pipe(body)) } else { applied(body) };
    note(|| text.clone());
    lower_tree(if syntax == 0 { parse::pipe::parse(&text) } else { parse::applicative::parse(&text) })
}
fn optimized(p: &Program) -> Program { let mut p = p.clone(); p.optimize(); p }
fn meaning(body: &[S], inputs: &[Vec<Row_>]) -> Option<BTreeMap<String, Bag>> {
    let all = scope(body, &|n| panic!("no {n}"), inputs).ok()?;
    Some(all.into_iter().filter_map(|(n, b)| n.strip_prefix("export ").map(|n| (n.to_string(), (*b).clone()))).collect())
}

/// The program gives what it means: as lowered, optimised, and cloned.
fn judge(body: &[S], inputs: &[Vec<Row_>], syntax: usize) -> bool {
    let Some(want) = meaning(body, inputs) else { return false };
    for b in want.values() { if b.len() > 1 { reached("some rows") } }
    let p = lowered(body, syntax);
    let q = clone_identity(&p);
    for (p, what) in [
        (optimized(&p), "an optimised program's output is not what it means"),
        (p, "a program's output is not what it means"),
        (optimized(&q), "an optimised cloned program's output is not what it means"),
        (q, "a cloned program's output is not what it means"),
    ] {
        let got = outputs(&p, inputs);
        for (n, b) in &want { agree(&got[n], b, what); }
    }
    true
}

/// Collections of a pair of rows' fields, from a base that is one.
fn unary(name: &str, e: E, kinds: &[usize]) -> E {
    match kinds[choose(name, kinds.len())] {
        0 => e,
        1 => e.map(vec![Row(1)], vec![Row(0)]),
        2 => e.map(vec![Field(0, 0)], vec![op("+", Field(0, 0), Field(1, 0))]),
        3 => e.filter(op("<", Field(0, 0), Field(1, 0))),
        4 => e.negate(),
        5 => e.reduce(R::Distinct).map(vec![Row(0)], vec![Row(0)]),
        6 => e.reduce(R::Min),
        7 => e.reduce(R::Count),
        8 => e.reduce(R::Collect).flat(Row(1)).map(vec![Row(0)], vec![Proj(bx(Field(1, 1)), 0)]),
        9 => e.flat(List(vec![Field(1, 0), Field(0, 0)])).map(vec![Field(1, 1)], vec![Field(1, 0)]),
        10 => e.arrange(),
        11 => e.enter_at(Field(1, 0)),
        12 => e.enter_at(Field(0, 0)),
        13 => e.map(vec![Int(1)], vec![Field(0, 0)]),
        14 => e.reduce(R::Collect).map(vec![Len(bx(Row(1)))], vec![Row(0)]),
        16 => e.enter_at(Field(1, 0)).enter_at(Field(0, 0)),
        15 => e.filter(op("!=", Field(1, 0), Int(1))),
        17 => e.filter(op("<=", Row(0), Row(1))),
        18 => e.filter(op("==", Len(bx(Row(1))), Int(1))),
        19 => e.flat(List(vec![Row(1), Row(0), Tuple(vec![Field(1, 0)])])).map(vec![Proj(bx(Field(1, 1)), 0)], vec![Field(1, 0)]),
        20 => e.map(vec![op("+", Len(bx(Row(1))), Field(0, 0))], vec![op("==", Row(0), Row(1))]),
        _ => unreachable!(),
    }
}
fn binary(name: &str, a: E, b: E, kinds: &[usize]) -> E {
    match kinds[choose(name, kinds.len())] {
        0 => a.plus(b),
        1 => a.minus(b),
        2 => a.join(b, vec![Row(1)], vec![Row(2)]),
        3 => a.join(b, vec![Row(0)], vec![op("*", Field(1, 0), Field(2, 0))]),
        4 => a.join(b, vec![Row(2)], vec![Row(0)]),
        5 => a.join(b, vec![op("<", Row(1), Row(2))], vec![Len(bx(Row(2)))]),
        _ => unreachable!(),
    }
}
fn base() -> E { E::Input(0).map(vec![Field(0, 0)], vec![Field(0, 1)]) }

/// Lets shared by several uses.
fn shared(n: usize, top: i64, first: &'static [usize], second: &'static [usize], both: &'static [usize]) {
    let inputs = vec![rows("r", n, 2, top)];
    let a = unary("a", base(), first);
    let body = vec![
        let_("a", a),
        let_("b", unary("b", of("a"), second)),
        let_("d", unary("d", of("a"), second)),
        let_("f", binary("f", of("b"), of("d"), both)),
        export_("result", of("f")), export_("again", of("a")), export_("third", unary("b", base(), &[0, 1])),
    ];
    let body = if choose("order", 2) == 0 { body } else { body.into_iter().rev().collect() };
    judge(&body, &inputs, choose("syntax", 2));
}

/// One variable.
fn recursive(n: usize, top: i64, starts: &'static [usize], steps: &'static [usize], joins: &'static [usize], closes: &'static [usize]) {
    let inputs = vec![rows("r", n, 2, top)];
    let lift = choose("lift", 2) == 1;
    let start = unary("start", of("base"), starts);
    let step = unary("step", binary("join", of("x"), of("base"), joins), steps);
    let all = E::Sum(vec![(false, of("start")), (false, of("step"))]);
    let close = match closes[choose("close", closes.len())] {
        0 => all.map(vec![Field(0, 0), Field(1, 0)], vec![]).reduce(R::Distinct).map(vec![Field(0, 0)], vec![Field(0, 1)]),
        1 => all.reduce(R::Min),
        2 => all.reduce(R::Count),
        3 => all.map(vec![Row(0)], vec![]).reduce(R::Distinct).map(vec![Row(0)], vec![Row(0)]),
        _ => unreachable!(),
    };
    let mut inner = vec![let_("start", start), let_("step", step), var_("x", close)];
    let mut body = vec![let_("base", base())];
    if lift {
        inner.push(let_("seen", of("x").lift()));
        inner.push(let_("late", unary("late", of("base"), &[0, 11, 16]).lift()));
    }
    if choose("order", 2) == 1 { inner.reverse() }
    body.push(scope_("s", inner));
    body.push(export_("result", within("s", "x")));
    if lift { body.push(export_("seen", within("s", "seen"))); body.push(export_("late", within("s", "late"))); }
    if judge(&body, &inputs, choose("syntax", 2)) { reached("settles") }
}

/// A scope in a scope, each with a variable.
fn nested(n: usize, top: i64, starts: &'static [usize], joins: &'static [usize], closes: &'static [usize], backs: &'static [usize]) {
    let inputs = vec![rows("r", n, 2, top)];
    let inner = vec![
        let_("start", unary("start", of("now"), starts)),
        let_("step", of("x").join(of(["now", "base"][choose("with", 2)]), vec![Row(2)], vec![Row(1)])),
        var_("x", match closes[choose("close", closes.len())] {
            0 => of("start").plus(of("step")).reduce(R::Min),
            1 => of("start").plus(of("step")).map(vec![Row(0), Row(1)], vec![]).reduce(R::Distinct).map(vec![Field(0, 0)], vec![Field(0, 1)]),
            _ => unreachable!(),
        }),
        let_("seen", of("x").lift()),
    ];
    let found = binary("found", of("base"), within("inner", "x"), joins);
    let trim = match backs[choose("back", backs.len())] {
        0 => found.minus(of("base")),
        1 => found.map(vec![Row(0), Row(1)], vec![]).reduce(R::Distinct).map(vec![Field(0, 0)], vec![Field(0, 1)]).minus(of("base")),
        2 => found.reduce(R::Min).filter(op("<", Field(0, 0), Field(1, 0))),
        _ => unreachable!(),
    };
    let mut outer = vec![let_("now", of("base").plus(of("trim"))), scope_("inner", inner), var_("trim", trim), let_("twice", within("inner", "seen").lift()), let_("last", within("inner", "x"))];
    if choose("order", 2) == 1 { outer.reverse() }
    let body = vec![let_("base", base()), scope_("outer", outer), export_("result", within("outer", "now")), export_("last", within("outer", "last")), export_("twice", within("outer", "twice"))];
    if judge(&body, &inputs, choose("syntax", 2)) { reached("settles") }
}

/// What terms may name, from the innermost: integers, and payloads.
#[derive(Clone)]
enum Slot { Int, Pay(&'static [&'static str]) }
fn leaf(name: &str, slots: &[Slot]) -> T {
    let mut all = vec![Field(0, 0), Field(1, 0), Int(2)];
    let mut shadowed = vec![];
    for (k, s) in slots.iter().enumerate() {
        match s {
            Slot::Int => all.push(Bound(k)),
            Slot::Pay(names) => { for (i, n) in names.iter().enumerate() { if !shadowed.contains(n) { all.push(Name(n, k, i)) } } shadowed.extend(names.iter().cloned()); },
        }
    }
    all.swap_remove(choose(name, all.len()))
}
/// A number's term; `deep` parts may have parts in turn.
fn number(name: &str, deep: usize, slots: &[Slot], piped: bool) -> T {
    if deep == 0 { return leaf(name, slots) }
    const OPS: [&str; 10] = ["+", "-", "*", "==", "!=", "<", "<=", ">", ">=", "&&"];
    let form = choose(name, 23);
    let two = |what: &str| choose(&format!("{name}{what}"), 2);
    // One part is deep.
    let part = |i: usize, at: usize, slots: &[Slot]| number(&format!("{name}.{i}"), if i == at { deep - 1 } else { 0 }, slots, piped);
    let under = |more: &[Slot]| { let mut s = more.to_vec(); s.extend(slots.iter().cloned()); s };
    match form {
        0..=9 => { let at = two("at"); op(OPS[form], part(0, at, slots), part(1, at, slots)) },
        10 => { let at = two("at"); Or(bx(part(0, at, slots)), bx(part(1, at, slots))) },
        11 => Not(bx(part(0, 0, slots))),
        12 => Neg(bx(part(0, 0, slots))),
        13 => { let at = choose(&format!("{name}at"), 3); If(bx(part(0, at, slots)), bx(part(1, at, slots)), bx(part(2, at, slots))) },
        14 => { let at = two("at"); Proj(bx(Tuple(vec![part(0, at, slots), part(1, at, slots)])), two("which")) },
        15 => { let at = two("at"); Proj(bx(List(vec![part(0, at, slots), part(1, at, slots)])), two("which")) },
        16 => Len(bx(if two("which") == 0 { Tuple(vec![part(0, 0, slots)]) } else { List(vec![part(0, 0, slots), Field(0, 0)]) })),
        17 => IsTag(1, bx(Inject(bx(part(0, 0, slots)), bx(Field(1, 0))))),
        18 => { let at = two("at"); Fold(bx(List(vec![Field(0, 0), part(0, at, slots)])), bx(Field(1, 0)), bx(part(1, at, &under(&[Slot::Int, Slot::Int])))) },
        19 => { let at = two("at"); Fold(bx(List(vec![Field(0, 0), Int(1)])), bx(part(0, at, slots)), bx(part(1, at, &under(&[Slot::Int, Slot::Int])))) },
        20 => if piped {
            let at = two("at");
            matched(Con(1, vec![part(0, at, slots), Field(1, 0)]), Int(0), part(1, at, &under(&[Slot::Pay(&["y", "z"])])), Int(1))
        } else {
            let at = two("at");
            Case(bx(Inject(bx(op("<", Field(0, 0), Field(1, 0))), bx(part(0, at, slots)))), vec![Int(7), part(1, at, &under(&[Slot::Int]))])
        },
        21 => if piped {
            let at = two("at");
            matched(Con(0, vec![part(0, at, slots)]), part(1, at, &under(&[Slot::Pay(&["x"])])), Int(0), Int(1))
        } else {
            op("==", Tuple(vec![part(0, 0, slots), Field(0, 0)]), Tuple(vec![Field(1, 0), Field(0, 0)]))
        },
        _ => if piped {
            matched(If(bx(part(0, 0, slots)), bx(Con(2, vec![Field(0, 0)])), bx(Con(0, vec![Field(1, 0)]))), Int(3), Int(4), Int(5))
        } else {
            op("<", Tuple(vec![Field(0, 0), part(0, 0, slots)]), Tuple(vec![Field(1, 0), Int(1)]))
        },
    }
}
/// A term's value is what it means, from either syntax.
fn terms(deep: usize) {
    let piped = choose("syntax", 2) == 0;
    let t = number("t", deep, &[], piped);
    let env = vec![ints(&[var("a", 0, 2)]), ints(&[var("b", -1, 2)])];
    let text = t.text();
    let parsed = if piped { parse::pipe::parse(&format!("{CONS} let x = y | filter({text});")) } else { parse::applicative::parse(&format!("let x = FILTER(y, {text});")) };
    let Some(parse::Stmt::Let(_, parse::Expr::Filter(_, parsed))) = parsed.into_iter().next() else { fail("not a filter") };
    let want = t.eval(&mut env.clone());
    let mut stack = env.clone();
    let got = ddverif_interactive::ir::eval(&parsed, &mut stack);
    note(|| format!("{text} is {got:?} rather than {want:?}"));
    check(same(&got, &want), "a term's value is not what it means");
    check(B::of(stack.len() == 2), "a term leaves its environment changed");
    witness("a number other than 0 and 1", if let Value::Int(n) = got { Sym::lt(c(1), n) } else { FALSE });
}

/// Demanded rows regenerate what they explain.
fn explained(body: &[S], shapes: &[(usize, usize)], inputs: &[Vec<Row_>], queries: usize) -> bool {
    let Some(want) = meaning(body, inputs) else { return false };
    let want = &want["result"];
    if want.is_empty() || want.values().any(|d| *d < 0) { return false }
    let asked: Vec<Row_> = (0..queries).map(|q| want.keys().nth(choose(&format!("asked{q}"), want.len())).unwrap().clone()).collect();
    let p = lowered(body, 0);
    let p = explain(&p, shapes);
    let p = if choose("optimised", 2) == 1 { optimized(&p) } else { p };
    let envelope = asked.iter().enumerate().map(|(q, (k, v))| {
        let mut fields = match v { Value::Tuple(xs) => xs.clone(), v => vec![v.clone()] };
        fields.push(Value::Int(c(q as i64)));
        (k.clone(), Value::Tuple(fields))
    }).collect();
    let mut all = inputs.to_vec();
    all.push(envelope);
    let out = outputs(&p, &all);
    let restricted: Vec<Vec<Row_>> = inputs.iter().enumerate().map(|(i, rows)| {
        let demand = &out[&format!("demand:input{i}")];
        for (r, d) in demand { check(B::of(*d == 1), "a demanded row is not demanded once"); check(B::any(rows.iter().map(|s| same(&s.0, &r.0) & same(&s.1, &r.1))), "a demanded row is not one of the input"); }
        rows.iter().filter(|r| demand.contains_key(r)).cloned().collect()
    }).collect();
    if restricted.iter().zip(inputs).any(|(r, i)| r.len() < i.len()) { reached("some rows are not demanded") }
    note(|| format!("{asked:?} demands {restricted:?} of {inputs:?}"));
    let Some(again) = meaning(body, &restricted) else { fail("the demanded rows do not settle") };
    for row in &asked { if again["result"].get(row).copied().unwrap_or(0) <= 0 { fail("the demanded rows do not regenerate what they explain") } }
    reached("explained");
    true
}
const PAIRS: &[(usize, usize)] = &[(2, 0)];
fn scc() -> Vec<S> {
    let trim = |from: &str, s: &str| of(from)
        .join(within(s, "labels"), vec![Row(1)], vec![Row(0), Row(2)])
        .join(within(s, "labels"), vec![Row(0)], vec![Row(1), Row(2)])
        .filter(op("==", Field(1, 1), Field(1, 2)))
        .map(vec![Row(0)], vec![Field(1, 0)]);
    let flood = |from: &str, by: &str| vec![
        let_("nodes", of(from).map(vec![Row(1)], vec![Row(1)]).enter_at(Field(1, 0))),
        let_("labels", of("proposals").plus(of("nodes")).reduce(R::Min)),
        var_("proposals", of("labels").join(of(by), vec![Row(2)], vec![Row(1)])),
    ];
    vec![
        let_("edges", base()), let_("trans", of("edges").map(vec![Row(1)], vec![Row(0)])),
        scope_("outer", vec![
            let_("scc", of("edges").plus(of("trim"))),
            scope_("fwd", flood("edges", "scc")), let_("trim_fwd", trim("edges", "fwd")),
            scope_("bwd", flood("trans", "trim_fwd")), let_("trim_bwd", trim("trans", "bwd")),
            var_("trim", of("trim_bwd").minus(of("edges"))),
        ]),
        export_("result", within("outer", "scc")),
    ]
}
fn closure() -> Vec<S> {
    vec![let_("edges", base()), scope_("outer", vec![
        let_("tc", of("edges").plus(of("more")).map(vec![Field(0, 0), Field(1, 0)], vec![]).reduce(R::Distinct).map(vec![Field(0, 0)], vec![Field(0, 1)])),
        var_("more", of("tc").map(vec![Row(1)], vec![Row(0)]).join(of("edges"), vec![Row(1)], vec![Row(2)])),
    ]), export_("result", within("outer", "tc"))]
}
fn reach() -> Vec<S> {
    vec![let_("edges", base()), let_("roots", E::Input(1).map(vec![Field(0, 0)], vec![])), scope_("reach", vec![
        let_("proposals", of("reach").join(of("edges"), vec![Row(2)], vec![])),
        var_("reach", of("roots").plus(of("proposals")).reduce(R::Distinct)),
    ]), export_("result", within("reach", "reach"))]
}
fn flood() -> Vec<S> {
    vec![let_("edges", base()), scope_("s", vec![
        let_("nodes", of("edges").map(vec![Row(0)], vec![Row(0)])),
        let_("labels", of("proposals").plus(of("nodes")).reduce(R::Min)),
        var_("proposals", of("labels").join(of("edges"), vec![Row(2)], vec![Row(1)])),
    ]), export_("result", within("s", "labels"))]
}
/// Programs without iteration, of which rows are explained.
fn flat(n: usize, top: i64, kinds: &'static [usize], both: &'static [usize]) {
    let inputs = vec![rows("r", n, 2, top)];
    let body = vec![
        let_("a", unary("a", base(), kinds)), let_("b", unary("b", of("a"), kinds)),
        let_("d", binary("d", of("b"), of("a"), both)), export_("result", of("d")),
    ];
    explained(&body, PAIRS, &inputs, 1);
}
/// Programs with it: what is carried in, over, and out.
fn looped(n: usize, top: i64, starts: &'static [usize], joins: &'static [usize], steps: &'static [usize], closes: &'static [usize], ends: &'static [usize]) {
    let inputs = vec![rows("r", n, 2, top)];
    let all = unary("start", of("base"), starts).plus(unary("step", binary("join", of("x"), of("base"), joins), steps));
    let close = match closes[choose("close", closes.len())] {
        0 => all.map(vec![Field(0, 0), Field(1, 0)], vec![]).reduce(R::Distinct).map(vec![Field(0, 0)], vec![Field(0, 1)]),
        1 => all.reduce(R::Min),
        3 => all.map(vec![Row(0)], vec![]).reduce(R::Distinct).map(vec![Row(0)], vec![Row(0)]),
        _ => unreachable!(),
    };
    let body = vec![let_("base", base()), scope_("s", vec![var_("x", close)]), let_("out", unary("end", within("s", "x"), ends)), export_("result", of("out"))];
    explained(&body, PAIRS, &inputs, 1);
}
fn sorted(rs: &[Row_]) { for w in rs.windows(2) { if w[1] < w[0] { assume(FALSE) } } }

const LANG: &[&str] = &["parse::pipe::parse", "parse::applicative::parse", "lower::lower_tree", "scope_ir::Program::optimize", "explain::clone_identity", "backend::vec::evaluate", "backend::render_tree", "backend::vec render_linear, render_join, render_reduce", "ir::eval"];
const WHY: &[&str] = &["parse::pipe::parse", "lower::lower_tree", "scope_ir::Program::optimize", "explain::explain", "explain::decouple", "backend::vec::evaluate", "backend::render_tree", "ir::eval"];
const ONE: &[&str] = &["parse::pipe::parse", "parse::applicative::parse", "ir::eval"];
fn main() {
    let graph = |n: usize, nodes: i64| { let r = rows("e", n, 2, nodes - 1); sorted(&r); r };
    let cases = vec![
        Case::new("shared", "two rows of fields 0..=1; lets with several uses: one of 6 collections, two of 8 from it, one of 3 from those; in either order and syntax", LANG, &["some rows"], || shared(2, 1, &[0, 1, 3, 5, 6, 7], &[0, 1, 2, 3, 4, 6, 8, 9], &[0, 1, 2])),
        Case::new("shared, more values", "two rows of fields 0..=2; as above", LANG, &["some rows"], || shared(2, 2, &[0, 1, 3, 5, 6, 7, 10, 13, 14, 15], &[0, 1, 2, 3, 4, 6, 8, 9, 17, 18, 20], &[0, 1, 2, 3, 4, 5])).thorough(),
        Case::new("recursive", "two rows of fields 0..=2; one variable, of 54 steps around it, settling within 16 rounds; what it lifts out of its scope, with and without delays", LANG, &["some rows", "settles"], || recursive(2, 2, &[0, 1, 11], &[0, 3, 11], &[2, 4], &[0, 1, 3])),
        Case::new("recursive, more rows", "three rows of fields 0..=2; as above", LANG, &["some rows", "settles"], || recursive(3, 2, &[0, 1, 11, 12], &[0, 3, 11], &[2, 4, 0, 1], &[0, 1, 2, 3])).thorough(),
        Case::new("nested", "two rows of fields 0..=1; a variable in a scope in a scope with another, settling within 16 rounds", LANG, &["some rows", "settles"], || nested(2, 1, &[0, 12], &[2, 4], &[0, 1], &[0, 1, 2])),
        Case::new("nested, more values", "two rows of fields 0..=2; as above", LANG, &["some rows", "settles"], || nested(2, 2, &[0, 1, 12], &[2, 4], &[0, 1], &[0, 1, 2])).thorough(),
        Case::new("terms", "terms two deep over fields 0..=2 and -1..=2", ONE, &["a number other than 0 and 1"], || terms(2)),
        Case::new("terms, deeper", "terms three deep", ONE, &["a number other than 0 and 1"], || terms(3)).thorough(),
        Case::new("flat, explained", "two rows of fields 0..=2; programs of two linear operators or reductions (of 12) and one of 4 of two inputs; one row explained", WHY, &["explained", "some rows are not demanded"], || flat(2, 2, &[0, 1, 3, 5, 6, 7, 9, 13, 17, 18, 19, 20], &[0, 2, 3, 5])),
        Case::new("looped, explained", "two rows of fields 0..=1; one variable, of 54 steps around it, and 3 ends; one row explained", WHY, &["explained"], || looped(2, 1, &[0, 1, 11], &[2, 4], &[0, 3, 6], &[0, 1, 3], &[0, 1, 5])),
        Case::new("looped, more values, explained", "two rows of fields 0..=2; as above", WHY, &["explained"], || looped(2, 2, &[0, 1, 11, 12], &[2, 4], &[0, 3, 6], &[0, 1, 3], &[0, 1, 5, 7])).thorough(),
        Case::new("components, explained", "strongly connected edges by nested iteration: 3 edges on 3 nodes; one row explained", WHY, &["explained", "some rows are not demanded"], move || { explained(&scc(), PAIRS, &[graph(3, 3)], 1); }),
        Case::new("more components, explained", "as above: 4 edges on 3 nodes; two rows explained", WHY, &["explained", "some rows are not demanded"], move || { explained(&scc(), PAIRS, &[graph(4, 3)], 2); }).thorough(),
        Case::new("closure, explained", "transitive closure: 3 edges on 3 nodes; two rows explained", WHY, &["explained", "some rows are not demanded"], move || { explained(&closure(), PAIRS, &[graph(3, 3)], 2); }),
        Case::new("reach, explained", "reachability: 3 edges on 3 nodes, 2 roots; two rows explained", WHY, &["explained", "some rows are not demanded"], move || { explained(&reach(), &[(2, 0), (1, 0)], &[graph(3, 3), rows("root", 2, 1, 2)], 2); }),
        Case::new("flood, explained", "least labels: 3 edges on 3 nodes; one row explained", WHY, &["explained", "some rows are not demanded"], move || { explained(&flood(), PAIRS, &[graph(3, 3)], 1); }),
        Case::new("more flood, explained", "least labels: 4 edges on 4 nodes; two rows explained", WHY, &["explained", "some rows are not demanded"], move || { explained(&flood(), PAIRS, &[graph(4, 4)], 2); }).thorough(),
    ];
    run(Prop { id: "Q01", title: "programs mean what they are documented to mean", outside: "larger programs and inputs; the server; the columnar backend, which the crate does not build; Hash terms; inputs that change (the interpreter's operators are those of the other properties); several workers", assumptions: &[
        "machine integers are those of unbounded arithmetic", "iterations settle within 16 rounds", "reductions see no negative multiplicities", "explained programs and rows have positive multiplicities",
    ], cases });
}
