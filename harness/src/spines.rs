//! Histories of insertion, compaction, effort and reads on a spine of batches.
use crate::model::*;
use crate::traces::*;
use crate::*;
use differential_dataflow::trace::implementations::spine_fueled::Spine;
use differential_dataflow::trace::{BatchReader, Description, Trace, TraceReader};
use timely::dataflow::operators::generic::OperatorInfo;
use timely::progress::{Antichain, Timestamp};

const HI: i64 = 30;
const R: i64 = 30;

pub struct Plan {
    /// Possible numbers of updates for each batch.
    pub sizes: &'static [&'static [usize]],
    /// Updates have concrete keys and times, and only this many symbolic differences.
    pub concrete: Option<usize>,
    /// Maintenance after each insertion: 0 nothing, 1 logical compaction, 2 physical compaction to the upper frontier,
    /// 3 physical compaction to the previous frontier, 4 effort, 5 logical and physical.
    pub ops: &'static [usize],
    pub effort: usize,
    /// Largest boundary and logical compaction frontiers.
    pub widths: (usize, usize),
}

fn mint<T: Timestamp>() -> Antichain<T> { Antichain::from_elem(T::minimum()) }

pub fn history<KD: Kind>(plan: &Plan, concrete_time: impl Fn(i64) -> KD::T, concrete_data: impl Fn(i64) -> (KD::K, KD::V)) {
    let info = OperatorInfo::new(0, 0, [].into());
    let mut spine: Spine<KD::B> = Spine::with_effort(plan.effort, info, None, None);
    if plan.ops.contains(&4) { spine.set_exert_logic(std::sync::Arc::new(|levels| { if levels.iter().any(|x| x.1 > 0) { Some(2) } else { None } })); }
    let d: (KD::K, KD::V) = (KD::K::fresh("k", HI), KD::V::fresh("v", HI));
    let q = KD::T::fresh("q", HI);
    let mut bounds: Vec<Antichain<KD::T>> = vec![mint()];
    let mut batches: Vec<Vec<Up<KD::K, KD::V, KD::T>>> = vec![];
    let mut logical: Antichain<KD::T> = mint();
    let mut physical = 0; // index of the boundary to which physical compaction has been permitted
    let mut symbolic = 0;
    let n = plan.sizes.len();
    for i in 0..n {
        let lower = bounds[i].clone();
        let size = plan.sizes[i][choose(&format!("size{i}"), plan.sizes[i].len())];
        let upper: Antichain<KD::T>;
        let ups: Vec<Up<KD::K, KD::V, KD::T>>;
        match plan.concrete {
            Some(budget) => {
                upper = if i + 1 == n && choose("closed", 2) == 1 { Antichain::new() } else { Antichain::from_elem(concrete_time(3 * (i as i64 + 1))) };
                ups = (0..size as i64).map(|j| (concrete_data(j), concrete_time(3 * i as i64 + j % 3), if symbolic < budget && (j == 0 || j == size as i64 - 1) { symbolic += 1; let r = var(&format!("r{i}.{j}"), -1, 1); assume(!r.is(c(0))); r } else { c(1 + (i as i64 + j) % 2 * -2) })).collect();
            },
            None => {
                upper = anti(&format!("b{i}"), if i + 1 == n { 0 } else { 1 }, plan.widths.0, HI);
                assume(after(&lower, &upper) & !same(&lower, &upper));
                ups = canon::<KD>(&format!("{i}"), size, &lower, &upper, HI, R);
            },
        }
        spine.insert(KD::build(vec![ups.clone()], Description::new(lower.clone(), upper.clone(), mint())));
        batches.push(ups);
        bounds.push(upper.clone());
        let op = plan.ops[choose(&format!("op{i}"), plan.ops.len())];
        if op == 1 || op == 5 {
            let f: Antichain<KD::T> = anti(&format!("f{i}"), 1, plan.widths.1, HI);
            assume(after(&logical, &f));
            spine.set_logical_compaction(f.borrow());
            logical = f;
        }
        if op == 2 || op == 5 { physical = i + 1; spine.set_physical_compaction(bounds[physical].borrow()); }
        if op == 3 && physical <= i { physical = i; spine.set_physical_compaction(bounds[physical].borrow()); }
        if op == 4 { spine.exert(); spine.exert(); }
        check(same(&spine.get_logical_compaction().to_owned(), &logical), "reported logical compaction");
        check(same(&spine.get_physical_compaction().to_owned(), &bounds[physical]), "reported physical compaction");
        // The batches form a chain.
        let mut at: Antichain<KD::T> = mint();
        let mut links: Vec<(Antichain<KD::T>, Antichain<KD::T>)> = vec![];
        let mut sinces: Vec<Antichain<KD::T>> = vec![];
        spine.map_batches(|b| { links.push((b.lower().clone(), b.upper().clone())); sinces.push(b.description().since().clone()); });
        for (l, u) in links.iter() { check(same(l, &at), "batches are not contiguous"); at = u.clone(); }
        check(same(&at, &upper), "batches do not reach the trace's upper frontier");
        let mut read_upper = Antichain::new();
        spine.read_upper(&mut read_upper);
        check(same(&read_upper, &upper), "reported upper frontier");
        for s in sinces { check(beyond(&logical, &q).implies(beyond(&s, &q)), "a batch is compacted beyond the logical frontier"); }
        if links.len() < i + 1 { reached("merged"); }
        // Reads through every permitted frontier.
        for j in physical..=i + 1 {
            let (mut cursor, storage) = match spine.cursor_through(bounds[j].borrow()) { Some(x) => x, None => fail("a permitted read was refused") };
            let seen = {
                use differential_dataflow::trace::cursor::Cursor;
                let mut out = vec![];
                let mut last: Option<KD::K> = None;
                while cursor.key_valid(&storage) {
                    let k = KD::key(cursor.key(&storage));
                    if let Some(l) = &last { check(l.s_less(&k), "keys out of order"); }
                    while cursor.val_valid(&storage) {
                        let v = KD::val(cursor.val(&storage));
                        cursor.map_times(&storage, |t, r| out.push(((k.clone(), v.clone()), <KD::C as Cursor>::owned_time(t), <KD::C as Cursor>::owned_diff(r))));
                        cursor.step_val(&storage);
                    }
                    cursor.step_key(&storage);
                    last = Some(k);
                }
                out
            };
            let expect: Vec<_> = batches[..j].iter().flatten().cloned().collect();
            if j == i + 1 { note(|| format!("after {:?} with op {} and logical {:?}, read {:?}", expect, op, logical, seen)); }
            check(beyond(&logical, &q).implies(accum(&expect, &d, &q).is(accum(&seen, &d, &q))), "an accumulation read from the trace is wrong");
            if seen.len() < expect.len() { reached("compacted"); }
        }
        if upper.is_empty() { break; }
    }
}

