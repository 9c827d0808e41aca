//! Path-exploring symbolic executor.
//!
//! The code under test is the real compiled code, instantiated at the symbolic scalar type
//! [`Sym`]; every comparison or zero-test it performs on such a scalar is a branch that is decided
//! here. A path is one run of a harness; when both outcomes of a branch are satisfiable under the path condition
//! (decided by z3), the other outcome becomes a new work item, explored by deterministic re-execution
//! from its decision prefix. Assertions are decided by z3 for all values satisfying the path condition.
use std::cell::RefCell;
use std::collections::HashMap;
use std::time::Instant;

use crate::z3::{Ast, Res, Z3};

/// A symbolic integer: a tagged handle. Even payloads are constants, odd ones name a linear term.
#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct Sym(pub(crate) u64);

/// A symbolic Boolean: condition index shifted left by one, low bit is negation. Index zero is `true`.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct B(pub(crate) u32);

pub const TRUE: B = B(0);
pub const FALSE: B = B(1);

#[derive(Clone, PartialEq, Eq, Hash)]
struct Lin { c: i64, ts: Box<[(u32, i64)]> }

#[derive(Clone, PartialEq, Eq, Hash)]
enum Atom { Var(u32), Ite(B, u64, u64), Mul(u64, u64) }

#[derive(Clone, PartialEq, Eq, Hash)]
enum Cond { True, Le0(u32), Eq0(u32), And(Box<[B]>) }

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 29)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct VarInfo { index: u32, name: String, lo: i64, hi: i64 }

/// One recorded decision: a structural hash of the condition, its outcome, and whether it was implied.
#[derive(Clone, Copy, Debug)]
pub struct Dec { h: u32, v: bool, forced: bool }

/// A unit of exploration: a decision prefix and a model of its path condition.
#[derive(Clone, Debug, Default)]
pub struct Item { pub prefix: Vec<Dec>, pub model: Vec<i64> }

#[derive(Clone, Debug)]
pub struct Violation { pub message: String, pub values: Vec<(String, i64)>, pub flips: String }

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub paths: u64, pub aborted: u64, pub forks: u64, pub implied: u64,
    pub feas: u64, pub asserts: u64, pub asserts_const: u64, pub witness_q: u64, pub unknown: u64,
    pub solver_ns: u64, pub max_decisions: u64, pub dead: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.paths += o.paths; self.aborted += o.aborted; self.forks += o.forks; self.implied += o.implied;
        self.feas += o.feas; self.asserts += o.asserts; self.asserts_const += o.asserts_const; self.witness_q += o.witness_q;
        self.unknown += o.unknown; self.solver_ns += o.solver_ns;
        self.max_decisions = self.max_decisions.max(o.max_decisions); self.dead += o.dead;
    }
}

enum Mode { Explore, Concrete(Vec<i64>) }

pub struct Engine {
    // Persistent, hash-consed terms.
    lins: Vec<Lin>, lin_ix: HashMap<Lin, u32>, lin_h: Vec<u64>, lin_rng: Vec<(i128, i128)>,
    atoms: Vec<Atom>, atom_ix: HashMap<Atom, u32>, atom_h: Vec<u64>, atom_rng: Vec<(i128, i128)>,
    conds: Vec<Cond>, cond_ix: HashMap<Cond, u32>, cond_h: Vec<u64>,
    vars: Vec<VarInfo>, var_ix: HashMap<VarInfo, u32>,
    lin_z: HashMap<u32, Ast>, atom_z: HashMap<u32, Ast>, cond_z: HashMap<u32, Ast>,
    // Solver and the trail it currently holds (one push per literal).
    z3: Z3, strail: Vec<u64>, spos: usize,
    // Current path.
    mode: Mode,
    prefix: Vec<Dec>, pos: usize, decs: Vec<Dec>,
    facts: HashMap<u32, bool>,
    path_vars: Vec<u32>, model: Vec<i64>, var_val: HashMap<u32, i64>,
    eval_gen: u32, lin_memo: Vec<(u32, i64)>, cond_memo: Vec<(u32, bool)>,
    pub new_items: Vec<Item>,
    pub violation: Option<Violation>,
    pub stats: Stats,
    pub witnesses: Vec<&'static str>,
    pub global_witnessed: std::collections::HashSet<String>,
    pub last_panic: Option<String>,
    pub lookahead: bool,
    pub diverged: Option<String>,
    pub notes: Vec<String>,
}

/// Panic payload that ends a path without reporting anything (an assumption is unsatisfiable, or a violation is recorded).
pub struct Abort;

thread_local! {
    pub static ENG: RefCell<Engine> = RefCell::new(Engine::new());
}

pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R { ENG.with(|e| f(&mut e.borrow_mut())) }

const LITERAL_BOUND: u64 = 1 << 40; // strail entries at or above name variable bounds.

impl Engine {
    fn new() -> Self {
        let mut e = Engine {
            lins: vec![], lin_ix: HashMap::new(), lin_h: vec![], lin_rng: vec![],
            atoms: vec![], atom_ix: HashMap::new(), atom_h: vec![], atom_rng: vec![],
            conds: vec![], cond_ix: HashMap::new(), cond_h: vec![],
            vars: vec![], var_ix: HashMap::new(),
            lin_z: HashMap::new(), atom_z: HashMap::new(), cond_z: HashMap::new(),
            z3: Z3::new(20_000), strail: vec![], spos: 0,
            mode: Mode::Explore, prefix: vec![], pos: 0, decs: vec![], facts: HashMap::new(),
            path_vars: vec![], model: vec![], var_val: HashMap::new(),
            eval_gen: 1, lin_memo: vec![], cond_memo: vec![],
            new_items: vec![], violation: None, stats: Stats::default(), witnesses: vec![],
            global_witnessed: Default::default(), last_panic: None, lookahead: true, diverged: None, notes: vec![],
        };
        e.conds.push(Cond::True); e.cond_ix.insert(Cond::True, 0); e.cond_h.push(1); e.cond_memo.push((0, true));
        e
    }

    // ---- terms ----
    fn lin_of(&self, s: Sym) -> Lin {
        if s.0 & 1 == 0 { Lin { c: (s.0 as i64) >> 1, ts: Box::new([]) } } else { self.lins[(s.0 >> 1) as usize].clone() }
    }
    fn mk_lin(&mut self, l: Lin) -> Sym {
        if l.ts.is_empty() { return Sym::c(l.c); }
        if let Some(ix) = self.lin_ix.get(&l) { return Sym(((*ix as u64) << 1) | 1); }
        let ix = self.lins.len() as u32;
        let mut h = mix(17, l.c as u64);
        let (mut lo, mut hi) = (l.c as i128, l.c as i128);
        for (a, k) in l.ts.iter() {
            h = h.wrapping_add(mix(self.atom_h[*a as usize], *k as u64));
            let (alo, ahi) = self.atom_rng[*a as usize];
            let k = *k as i128;
            if k >= 0 { lo += k * alo; hi += k * ahi } else { lo += k * ahi; hi += k * alo }
        }
        self.lin_h.push(h); self.lin_rng.push((lo, hi)); self.lin_memo.push((0, 0));
        self.lin_ix.insert(l.clone(), ix);
        self.lins.push(l);
        Sym(((ix as u64) << 1) | 1)
    }
    fn mk_atom(&mut self, a: Atom) -> u32 {
        if let Some(ix) = self.atom_ix.get(&a) { return *ix; }
        let ix = self.atoms.len() as u32;
        let (h, rng) = match &a {
            Atom::Var(v) => { let i = &self.vars[*v as usize]; (mix(mix(3, i.index as u64), i.name.bytes().fold(0, |h, b| mix(h, b as u64))), (i.lo as i128, i.hi as i128)) },
            Atom::Ite(c, x, y) => {
                let (rx, ry) = (self.rng(Sym(*x)), self.rng(Sym(*y)));
                (mix(mix(self.cond_hash(*c), self.hash(Sym(*x))), self.hash(Sym(*y))), (rx.0.min(ry.0), rx.1.max(ry.1)))
            },
            Atom::Mul(x, y) => {
                let (rx, ry) = (self.rng(Sym(*x)), self.rng(Sym(*y)));
                let c = [rx.0 * ry.0, rx.0 * ry.1, rx.1 * ry.0, rx.1 * ry.1];
                (mix(self.hash(Sym(*x)).wrapping_add(self.hash(Sym(*y))), 77), (*c.iter().min().unwrap(), *c.iter().max().unwrap()))
            },
        };
        self.atom_h.push(h); self.atom_rng.push(rng);
        self.atom_ix.insert(a.clone(), ix);
        self.atoms.push(a);
        ix
    }
    fn hash(&self, s: Sym) -> u64 { if s.0 & 1 == 0 { mix(5, s.0) } else { self.lin_h[(s.0 >> 1) as usize] } }
    fn cond_hash(&self, b: B) -> u64 { mix(self.cond_h[(b.0 >> 1) as usize], (b.0 & 1) as u64) }
    fn rng(&self, s: Sym) -> (i128, i128) {
        if s.0 & 1 == 0 { let v = ((s.0 as i64) >> 1) as i128; (v, v) } else { self.lin_rng[(s.0 >> 1) as usize] }
    }
    fn mk_cond(&mut self, c: Cond) -> u32 {
        if let Some(ix) = self.cond_ix.get(&c) { return *ix; }
        let ix = self.conds.len() as u32;
        let h = match &c {
            Cond::True => 1,
            Cond::Le0(l) => mix(21, self.lin_h[*l as usize]),
            Cond::Eq0(l) => mix(22, self.lin_h[*l as usize]),
            Cond::And(bs) => bs.iter().fold(23u64, |h, b| h.wrapping_add(mix(29, self.cond_hash(*b)))),
        };
        self.cond_h.push(h); self.cond_memo.push((0, false));
        self.cond_ix.insert(c.clone(), ix);
        self.conds.push(c);
        ix
    }
    pub fn lin2(&mut self, x: Sym, kx: i64, y: Sym, ky: i64) -> Sym {
        if x.0 & 1 == 0 && y.0 & 1 == 0 {
            let (a, b) = ((x.0 as i64) >> 1, (y.0 as i64) >> 1);
            return Sym::c(a.checked_mul(kx).and_then(|a| b.checked_mul(ky).and_then(|b| a.checked_add(b))).expect("Sym constant overflow"));
        }
        let (a, b) = (self.lin_of(x), self.lin_of(y));
        let mut ts = Vec::with_capacity(a.ts.len() + b.ts.len());
        let (mut i, mut j) = (0, 0);
        while i < a.ts.len() || j < b.ts.len() {
            if j >= b.ts.len() || (i < a.ts.len() && a.ts[i].0 < b.ts[j].0) { ts.push((a.ts[i].0, a.ts[i].1 * kx)); i += 1; }
            else if i >= a.ts.len() || b.ts[j].0 < a.ts[i].0 { ts.push((b.ts[j].0, b.ts[j].1 * ky)); j += 1; }
            else { ts.push((a.ts[i].0, a.ts[i].1 * kx + b.ts[j].1 * ky)); i += 1; j += 1; }
        }
        ts.retain(|t| t.1 != 0);
        let c = a.c * kx + b.c * ky;
        self.mk_lin(Lin { c, ts: ts.into_boxed_slice() })
    }
    fn atom_sym(&mut self, a: u32) -> Sym { self.mk_lin(Lin { c: 0, ts: Box::new([(a, 1)]) }) }
    fn negate_lin(&mut self, s: Sym) -> Sym { self.lin2(s, -1, Sym::c(0), 1) }
    fn leading_negative(&self, l: &Lin) -> bool {
        // Orientation by structural hash, so that it is the same in every thread.
        let lead = l.ts.iter().min_by_key(|(a, _)| self.atom_h[*a as usize]).unwrap();
        lead.1 < 0
    }
    /// The condition `s <= 0`.
    pub fn le0(&mut self, s: Sym) -> B {
        let (lo, hi) = self.rng(s);
        if hi <= 0 { return TRUE; }
        if lo > 0 { return FALSE; }
        let l = self.lin_of(s);
        // Divide by the gcd of coefficients (floor on the constant).
        let g = l.ts.iter().fold(0i64, |g, (_, k)| gcd(g, k.abs()));
        let s = if g > 1 {
            let ts = l.ts.iter().map(|(a, k)| (*a, k / g)).collect();
            self.mk_lin(Lin { c: -((-l.c).div_euclid(g)), ts })
        } else { s };
        let l = self.lin_of(s);
        if self.leading_negative(&l) {
            let n = self.lin2(s, -1, Sym::c(1), 1);
            B((self.mk_cond(Cond::Le0((n.0 >> 1) as u32)) << 1) | 1)
        } else {
            B(self.mk_cond(Cond::Le0((s.0 >> 1) as u32)) << 1)
        }
    }
    /// The condition `s == 0`.
    pub fn eq0(&mut self, s: Sym) -> B {
        let (lo, hi) = self.rng(s);
        if lo == 0 && hi == 0 { return TRUE; }
        if lo > 0 || hi < 0 { return FALSE; }
        let l = self.lin_of(s);
        let g = l.ts.iter().fold(0i64, |g, (_, k)| gcd(g, k.abs()));
        if l.c % g != 0 { return FALSE; }
        let s = if g > 1 {
            let ts = l.ts.iter().map(|(a, k)| (*a, k / g)).collect();
            self.mk_lin(Lin { c: l.c / g, ts })
        } else { s };
        let l = self.lin_of(s);
        let s = if self.leading_negative(&l) { self.negate_lin(s) } else { s };
        B(self.mk_cond(Cond::Eq0((s.0 >> 1) as u32)) << 1)
    }
    pub fn and(&mut self, xs: &[B]) -> B {
        let mut v: Vec<B> = Vec::with_capacity(xs.len());
        for x in xs {
            if *x == FALSE { return FALSE; }
            if *x == TRUE { continue; }
            match &self.conds[(x.0 >> 1) as usize] { Cond::And(ys) if x.0 & 1 == 0 => v.extend(ys.iter().cloned()), _ => v.push(*x) }
        }
        v.sort_by_key(|b| b.0); v.dedup();
        for w in v.windows(2) { if w[0].0 ^ 1 == w[1].0 { return FALSE; } }
        match v.len() { 0 => TRUE, 1 => v[0], _ => B(self.mk_cond(Cond::And(v.into_boxed_slice())) << 1) }
    }
    pub fn or(&mut self, xs: &[B]) -> B {
        let v: Vec<B> = xs.iter().map(|b| B(b.0 ^ 1)).collect();
        B(self.and(&v).0 ^ 1)
    }
    pub fn ite(&mut self, c: B, x: Sym, y: Sym) -> Sym {
        if c == TRUE || x.0 == y.0 { return x; }
        if c == FALSE { return y; }
        // Within a path, decided conditions need no case split.
        let (c, x, y) = if c.0 & 1 == 1 { (B(c.0 ^ 1), y, x) } else { (c, x, y) };
        if let Some(v) = self.facts.get(&(c.0 >> 1)) { return if *v { x } else { y }; }
        // ite(c, x, y) = y + ite(c, x - y, 0), which shares more structure.
        let d = self.lin2(x, 1, y, -1);
        let a = self.mk_atom(Atom::Ite(c, d.0, Sym::c(0).0));
        let s = self.atom_sym(a);
        self.lin2(s, 1, y, 1)
    }
    pub fn mul(&mut self, x: Sym, y: Sym) -> Sym {
        if x.0 & 1 == 0 { let k = (x.0 as i64) >> 1; return self.lin2(y, k, Sym::c(0), 1); }
        if y.0 & 1 == 0 { let k = (y.0 as i64) >> 1; return self.lin2(x, k, Sym::c(0), 1); }
        // Distribute over sums, so that products of sums and sums of products are the same term.
        let (lx, ly) = (self.lin_of(x), self.lin_of(y));
        let single = |l: &Lin| l.c == 0 && l.ts.len() == 1 && l.ts[0].1 == 1;
        if !(single(&lx) && single(&ly)) && lx.ts.len() * ly.ts.len() <= 12 {
            let parts = |e: &mut Engine, l: &Lin| { let mut v: Vec<(Sym, i64)> = l.ts.iter().map(|(a, k)| (e.atom_sym(*a), *k)).collect(); if l.c != 0 { v.push((Sym::c(1), l.c)) } v };
            let (px, py) = (parts(self, &lx), parts(self, &ly));
            let mut acc = Sym::c(0);
            for (a, ka) in px.iter() { for (b, kb) in py.iter() {
                let m = self.mul(*a, *b);
                acc = self.lin2(acc, 1, m, ka * kb);
            } }
            return acc;
        }
        // Ordered by structure, so that it is the same in every thread.
        let (x, y) = if self.lin_h[(x.0 >> 1) as usize] <= self.lin_h[(y.0 >> 1) as usize] { (x, y) } else { (y, x) };
        let (rx, ry) = (self.rng(x), self.rng(y));
        let (wx, wy) = (rx.1 - rx.0, ry.1 - ry.0);
        // Multiplication by a small-range term is a case split over its values, which stays linear.
        let (s, o, r) = if wx <= wy { (x, y, rx) } else { (y, x, ry) };
        if r.1 - r.0 <= 6 {
            let mut acc = Sym::c(0);
            for k in (r.0 as i64)..=(r.1 as i64) {
                if k == 0 { continue; }
                let d = self.lin2(s, 1, Sym::c(k), -1);
                let c = self.eq0(d);
                let v = self.lin2(o, k, Sym::c(0), 1);
                let t = self.ite(c, v, Sym::c(0));
                acc = self.lin2(acc, 1, t, 1);
            }
            return acc;
        }
        let at = self.mk_atom(Atom::Mul(x.0, y.0));
        self.atom_sym(at)
    }

    // ---- evaluation under the current model ----
    fn eval(&mut self, s: Sym) -> i64 {
        if s.0 & 1 == 0 { return (s.0 as i64) >> 1; }
        let ix = (s.0 >> 1) as usize;
        if self.lin_memo[ix].0 == self.eval_gen { return self.lin_memo[ix].1; }
        let l = self.lins[ix].clone();
        let mut v = l.c;
        for (a, k) in l.ts.iter() {
            let av = match self.atoms[*a as usize].clone() {
                Atom::Var(x) => *self.var_val.get(&x).unwrap_or(&self.vars[x as usize].lo),
                Atom::Ite(c, x, y) => if self.eval_b(c) { self.eval(Sym(x)) } else { self.eval(Sym(y)) },
                Atom::Mul(x, y) => self.eval(Sym(x)) * self.eval(Sym(y)),
            };
            v += k * av;
        }
        self.lin_memo[ix] = (self.eval_gen, v);
        v
    }
    fn eval_b(&mut self, b: B) -> bool {
        let ix = (b.0 >> 1) as usize;
        let v = if self.cond_memo[ix].0 == self.eval_gen { self.cond_memo[ix].1 } else {
            let v = match self.conds[ix].clone() {
                Cond::True => true,
                Cond::Le0(l) => self.eval(Sym(((l as u64) << 1) | 1)) <= 0,
                Cond::Eq0(l) => self.eval(Sym(((l as u64) << 1) | 1)) == 0,
                Cond::And(bs) => bs.iter().all(|b| self.eval_b(*b)),
            };
            self.cond_memo[ix] = (self.eval_gen, v);
            v
        };
        v ^ (b.0 & 1 == 1)
    }
    fn set_model(&mut self, m: Vec<i64>) {
        self.eval_gen += 1;
        for (i, v) in m.iter().enumerate() { if i < self.path_vars.len() { self.var_val.insert(self.path_vars[i], *v); } }
        self.model = m;
    }

    // ---- z3 translation ----
    fn z_lin(&mut self, s: Sym) -> Ast {
        if s.0 & 1 == 0 { return self.z3.int((s.0 as i64) >> 1); }
        let ix = (s.0 >> 1) as u32;
        if let Some(a) = self.lin_z.get(&ix) { return *a; }
        let l = self.lins[ix as usize].clone();
        let mut parts = vec![];
        for (a, k) in l.ts.iter() {
            let za = self.z_atom(*a);
            if *k == 1 { parts.push(za) } else { let zk = self.z3.int(*k); parts.push(self.z3.mul(zk, za)); }
        }
        if l.c != 0 { parts.push(self.z3.int(l.c)); }
        let z = if parts.len() == 1 { parts[0] } else { self.z3.add(&parts) };
        self.lin_z.insert(ix, z);
        z
    }
    fn z_atom(&mut self, a: u32) -> Ast {
        if let Some(z) = self.atom_z.get(&a) { return *z; }
        let z = match self.atoms[a as usize].clone() {
            Atom::Var(v) => self.z3.var(&format!("v{}", v)),
            Atom::Ite(c, x, y) => { let (c, x, y) = (self.z_b(c), self.z_lin(Sym(x)), self.z_lin(Sym(y))); self.z3.ite(c, x, y) },
            Atom::Mul(x, y) => { let (x, y) = (self.z_lin(Sym(x)), self.z_lin(Sym(y))); self.z3.mul(x, y) },
        };
        self.atom_z.insert(a, z);
        z
    }
    fn z_b(&mut self, b: B) -> Ast {
        let ix = b.0 >> 1;
        let z = if let Some(z) = self.cond_z.get(&ix) { *z } else {
            let z = match self.conds[ix as usize].clone() {
                Cond::True => self.z3.tru(),
                Cond::Le0(l) | Cond::Eq0(l) => {
                    // Put negated terms on the right, which suits difference constraints.
                    let is_le = matches!(self.conds[ix as usize], Cond::Le0(_));
                    let lin = self.lins[l as usize].clone();
                    let (mut pos, mut neg) = (vec![], vec![]);
                    for (a, k) in lin.ts.iter() {
                        let za = self.z_atom(*a);
                        let t = if k.abs() == 1 { za } else { let zk = self.z3.int(k.abs()); self.z3.mul(zk, za) };
                        if *k > 0 { pos.push(t) } else { neg.push(t) }
                    }
                    if lin.c > 0 { pos.push(self.z3.int(lin.c)) } else if lin.c < 0 { neg.push(self.z3.int(-lin.c)) }
                    let side = |z3: &mut Z3, v: Vec<Ast>| match v.len() { 0 => z3.int(0), 1 => v[0], _ => z3.add(&v) };
                    let p = side(&mut self.z3, pos);
                    let n = side(&mut self.z3, neg);
                    if is_le { self.z3.le(p, n) } else { self.z3.eq(p, n) }
                },
                Cond::And(bs) => { let v: Vec<Ast> = bs.iter().map(|b| self.z_b(*b)).collect(); self.z3.and(&v) },
            };
            self.cond_z.insert(ix, z);
            z
        };
        if b.0 & 1 == 1 { self.z3.not(z) } else { z }
    }

    // ---- solver trail ----
    fn trail(&mut self, lit: u64) {
        if self.spos < self.strail.len() && self.strail[self.spos] == lit { self.spos += 1; return; }
        self.sync();
        self.z3.push();
        if lit >= LITERAL_BOUND {
            let v = (lit - LITERAL_BOUND) as u32;
            let info = self.vars[v as usize].clone();
            let a = self.mk_atom(Atom::Var(v));
            let za = self.z_atom(a);
            let (zl, zh) = (self.z3.int(info.lo), self.z3.int(info.hi));
            let c1 = self.z3.le(zl, za); let c2 = self.z3.le(za, zh);
            self.z3.assert(c1); self.z3.assert(c2);
        } else {
            let z = self.z_b(B(lit as u32));
            self.z3.assert(z);
        }
        self.strail.push(lit);
        self.spos += 1;
    }
    fn sync(&mut self) {
        let extra = self.strail.len() - self.spos;
        if extra > 0 { self.z3.pop(extra); self.strail.truncate(self.spos); }
    }
    /// Is the path condition together with `b` satisfiable? Yields a model if so.
    fn query(&mut self, b: B) -> (Res, Option<Vec<i64>>) {
        self.sync();
        let t = Instant::now();
        let z = self.z_b(b);
        self.z3.push();
        self.z3.assert(z);
        let r = self.z3.check();
        let mut m = None;
        let mut r = r;
        if r == Res::Sat {
            let zs: Vec<Ast> = self.path_vars.clone().into_iter().map(|v| { let a = self.mk_atom(Atom::Var(v)); self.z_atom(a) }).collect();
            m = self.z3.model(&zs);
            if m.is_none() { r = Res::Unknown; }
        }
        self.z3.pop(1);
        self.stats.solver_ns += t.elapsed().as_nanos() as u64;
        if r == Res::Unknown { self.stats.unknown += 1; }
        (r, m)
    }

    // ---- path protocol ----
    pub fn begin(&mut self, item: Item) {
        if self.lins.len() + self.conds.len() > 2_000_000 {
            // Bound memory: forget everything (only between paths).
            let keep = (std::mem::take(&mut self.stats), std::mem::take(&mut self.global_witnessed), std::mem::take(&mut self.witnesses));
            *self = Engine::new();
            self.stats = keep.0; self.global_witnessed = keep.1; self.witnesses = keep.2;
        }
        self.mode = Mode::Explore;
        self.prefix = item.prefix; self.model = item.model;
        self.pos = 0; self.decs.clear(); self.facts.clear(); self.path_vars.clear(); self.var_val.clear();
        self.eval_gen += 1; self.spos = 0; self.new_items.clear(); self.violation = None; self.diverged = None;
        self.last_panic = None;
        self.notes.clear();
    }
    pub fn begin_concrete(&mut self, values: Vec<i64>) {
        self.begin(Item::default());
        self.mode = Mode::Concrete(values);
    }
    pub fn finished_prefix(&self) -> bool { self.pos >= self.prefix.len() }
    pub fn decisions(&self) -> usize { self.decs.len() }

    pub fn fresh(&mut self, name: &str, lo: i64, hi: i64) -> Sym {
        let index = self.path_vars.len() as u32;
        let info = VarInfo { index, name: name.to_string(), lo, hi };
        let v = match self.var_ix.get(&info) { Some(v) => *v, None => {
            let v = self.vars.len() as u32; self.vars.push(info.clone()); self.var_ix.insert(info, v); v
        } };
        self.path_vars.push(v);
        if let Mode::Concrete(vals) = &self.mode {
            let x = vals.get(index as usize).cloned().unwrap_or(lo);
            self.var_val.insert(v, x);
            return Sym::c(x);
        }
        if lo == hi { self.var_val.insert(v, lo); if self.model.len() <= index as usize { self.model.push(lo); } return Sym::c(lo); }
        let val = self.model.get(index as usize).cloned().unwrap_or(lo);
        self.var_val.insert(v, val);
        if self.model.len() <= index as usize { self.model.push(val); }
        self.trail(LITERAL_BOUND + v as u64);
        let a = self.mk_atom(Atom::Var(v));
        self.atom_sym(a)
    }

    fn known(&mut self, b: B) -> Option<bool> {
        if b == TRUE { return Some(true); }
        if b == FALSE { return Some(false); }
        if let Some(v) = self.facts.get(&(b.0 >> 1)) { return Some(*v ^ (b.0 & 1 == 1)); }
        if let Cond::And(bs) = &self.conds[(b.0 >> 1) as usize] {
            let bs = bs.clone();
            let mut all = true;
            for x in bs.iter() { match self.known(*x) { Some(false) => return Some(b.0 & 1 == 1), Some(true) => {}, None => all = false } }
            if all { return Some(b.0 & 1 == 0); }
        }
        None
    }
    fn learn(&mut self, b: B, v: bool) {
        self.facts.insert(b.0 >> 1, v ^ (b.0 & 1 == 1));
        if let Cond::And(bs) = &self.conds[(b.0 >> 1) as usize] {
            if v ^ (b.0 & 1 == 1) { for x in bs.clone().iter() { self.learn(*x, true); } }
        }
        // An equality settles both orders, and a strict order refutes equality.
        if let Cond::Eq0(l) = self.conds[(b.0 >> 1) as usize] {
            if v ^ (b.0 & 1 == 1) {
                let s = Sym(((l as u64) << 1) | 1);
                let x = self.le0(s); if x.0 > 1 { self.facts.insert(x.0 >> 1, x.0 & 1 == 0); }
                let n = self.negate_lin(s);
                let x = self.le0(n); if x.0 > 1 { self.facts.insert(x.0 >> 1, x.0 & 1 == 0); }
            }
        }
        if let Cond::Le0(l) = self.conds[(b.0 >> 1) as usize] {
            let s = Sym(((l as u64) << 1) | 1);
            if v ^ (b.0 & 1 == 1) {
                // s <= 0: so s == 1 is impossible, and s <= 1 holds.
                let t = self.lin2(s, 1, Sym::c(1), -1);
                let e = self.eq0(t); if e.0 > 1 { self.facts.insert(e.0 >> 1, e.0 & 1 == 1); }
                let e = self.le0(t); if e.0 > 1 { self.facts.insert(e.0 >> 1, e.0 & 1 == 0); }
            } else {
                // s >= 1: s != 0, and not s + 1 <= 0.
                let e = self.eq0(s); if e.0 > 1 { self.facts.insert(e.0 >> 1, e.0 & 1 == 1); }
                let t = self.lin2(s, 1, Sym::c(1), 1);
                let e = self.le0(t); if e.0 > 1 { self.facts.insert(e.0 >> 1, e.0 & 1 == 1); }
            }
        }
    }

    pub fn branch(&mut self, b: B) -> bool {
        if let Some(v) = self.known(b) { return v; }
        if self.diverged.is_some() { std::panic::panic_any(Abort); }
        let h = (self.cond_h[(b.0 >> 1) as usize] as u32) ^ (b.0 & 1);
        if self.pos < self.prefix.len() {
            let d = self.prefix[self.pos];
            if d.h != h {
                self.diverged = Some(format!("replayed decision {} differs", self.pos));
                std::panic::panic_any(Abort);
            }
            self.pos += 1;
            self.decs.push(d);
            if !d.forced { self.trail(lit(b, d.v)); }
            self.learn(b, d.v);
            return d.v;
        }
        let v = self.eval_b(b);
        self.stats.feas += 1;
        let (r, m) = self.query(B(b.0 ^ (v as u32)));
        let forced = match r {
            Res::Unsat => { self.stats.implied += 1; true },
            Res::Sat => {
                self.stats.forks += 1;
                let mut prefix = self.decs.clone();
                prefix.push(Dec { h, v: !v, forced: false });
                self.new_items.push(Item { prefix, model: m.unwrap() });
                false
            },
            Res::Unknown => false,
        };
        self.decs.push(Dec { h, v, forced });
        if !forced { self.trail(lit(b, v)); }
        self.learn(b, v);
        self.prefix.push(Dec { h, v, forced }); self.pos += 1;
        v
    }

    /// Restricts the path to `b`; `false` when that is unsatisfiable.
    pub fn assume(&mut self, b: B) -> bool {
        match self.known(b) { Some(true) => return true, Some(false) => return false, None => {} }
        if let Mode::Concrete(_) = self.mode { return false; }
        if !self.eval_b(b) {
            self.stats.feas += 1;
            match self.query(b) {
                (Res::Sat, Some(m)) => { self.set_model(m); },
                (Res::Unsat, _) => return false,
                _ => return false,
            }
        }
        self.trail(lit(b, true));
        self.learn(b, true);
        true
    }

    fn values(&self) -> Vec<(String, i64)> {
        self.path_vars.iter().map(|v| (self.vars[*v as usize].name.clone(), *self.var_val.get(v).unwrap_or(&self.vars[*v as usize].lo))).collect()
    }

    pub fn record_violation(&mut self, message: String) {
        if self.violation.is_some() { return; }
        let flips = self.decs.iter().map(|d| if d.forced { if d.v { 'T' } else { 'F' } } else if d.v { '1' } else { '0' }).collect();
        self.violation = Some(Violation { message, values: self.values(), flips });
    }

    /// Decides whether `b` holds for all values satisfying the path condition.
    pub fn check(&mut self, b: B, message: &str) -> bool {
        match self.known(b) {
            Some(true) => { self.stats.asserts_const += 1; return true; },
            Some(false) => { self.record_violation(message.to_string()); return false; },
            None => {},
        }
        self.stats.asserts += 1;
        if !self.eval_b(b) { self.record_violation(message.to_string()); return false; }
        match self.query(B(b.0 ^ 1)) {
            (Res::Unsat, _) => true,
            (Res::Sat, Some(m)) => { self.set_model(m); self.record_violation(message.to_string()); false },
            _ => true, // counted as unknown, which makes the run inconclusive.
        }
    }

    pub fn witness(&mut self, name: &'static str, b: B) {
        if self.global_witnessed.contains(name) || self.witnesses.contains(&name) { return; }
        let hit = match self.known(b) { Some(v) => v, None => {
            if let Mode::Concrete(_) = self.mode { false } else if self.eval_b(b) { true } else {
                self.stats.witness_q += 1;
                self.query(b).0 == Res::Sat
            }
        } };
        if hit { self.witnesses.push(name); }
    }
    pub fn is_concrete(&self) -> bool { matches!(self.mode, Mode::Concrete(_)) }
    pub fn describe(&mut self, s: Sym) -> String {
        if s.0 & 1 == 0 { return format!("{}", (s.0 as i64) >> 1); }
        format!("~{}", self.eval(s))
    }
    pub fn val(&mut self, s: Sym) -> i64 { self.eval(s) }
}

fn lit(b: B, v: bool) -> u64 { (b.0 ^ (!v as u32)) as u64 }
fn gcd(a: i64, b: i64) -> i64 { if b == 0 { a } else { gcd(b, a % b) } }

impl Sym {
    pub const fn c(v: i64) -> Sym { Sym((v << 1) as u64) }
    /// The very same term.
    pub fn same(self, o: &Sym) -> bool { self.0 == o.0 }
    pub fn as_const(self) -> Option<i64> { if self.0 & 1 == 0 { Some((self.0 as i64) >> 1) } else { None } }
    pub fn lt(self, o: Sym) -> B {
        if let (Some(a), Some(b)) = (self.as_const(), o.as_const()) { return B::of(a < b); }
        with(|e| { let d = e.lin2(self, 1, o, -1); let d = e.lin2(d, 1, Sym::c(1), 1); e.le0(d) })
    }
    pub fn le(self, o: Sym) -> B {
        if let (Some(a), Some(b)) = (self.as_const(), o.as_const()) { return B::of(a <= b); }
        with(|e| { let d = e.lin2(self, 1, o, -1); e.le0(d) })
    }
    pub fn is(self, o: Sym) -> B {
        if self.0 == o.0 { return TRUE; }
        if let (Some(a), Some(b)) = (self.as_const(), o.as_const()) { return B::of(a == b); }
        with(|e| { let d = e.lin2(self, 1, o, -1); e.eq0(d) })
    }
    pub fn add(self, o: Sym) -> Sym { with(|e| e.lin2(self, 1, o, 1)) }
    pub fn sub(self, o: Sym) -> Sym { with(|e| e.lin2(self, 1, o, -1)) }
    pub fn times(self, o: Sym) -> Sym { with(|e| e.mul(self, o)) }
    pub fn max_of(self, o: Sym) -> Sym { let c = self.lt(o); c.ite(o, self) }
    pub fn min_of(self, o: Sym) -> Sym { let c = o.lt(self); c.ite(o, self) }
}
impl B {
    pub fn of(b: bool) -> B { if b { TRUE } else { FALSE } }
    pub fn ite(self, x: Sym, y: Sym) -> Sym { if self == TRUE { return x } if self == FALSE { return y } with(|e| e.ite(self, x, y)) }
    pub fn and(self, o: B) -> B { with(|e| e.and(&[self, o])) }
    pub fn or(self, o: B) -> B { with(|e| e.or(&[self, o])) }
    pub fn not(self) -> B { B(self.0 ^ 1) }
    pub fn implies(self, o: B) -> B { self.not().or(o) }
    pub fn iff(self, o: B) -> B { with(|e| { let a = e.and(&[self, o]); let b = e.and(&[B(self.0 ^ 1), B(o.0 ^ 1)]); e.or(&[a, b]) }) }
    pub fn all(xs: impl IntoIterator<Item = B>) -> B { let v: Vec<B> = xs.into_iter().collect(); with(|e| e.and(&v)) }
    pub fn any(xs: impl IntoIterator<Item = B>) -> B { let v: Vec<B> = xs.into_iter().collect(); with(|e| e.or(&v)) }
    /// Forks exploration on this condition.
    pub fn decide(self) -> bool {
        if self == TRUE { return true; }
        if self == FALSE { return false; }
        with(|e| e.branch(self))
    }
}
