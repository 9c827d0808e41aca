//! The reduction engines on the same arrangement, against each other and against the definition.
use ddverif::flow::*;
use ddverif::model::*;
use ddverif::reduces::*;
use ddverif::*;

const HI: i64 = 20;
const NOW: Hist = Hist { rounds: &[1, 1, 1], hi: HI, r: 3, times: Times::Now, free: false };
const LATER: Hist = Hist { rounds: &[2, 1], hi: HI, r: 3, times: Times::Later, free: false };

fn history<T: Fed>(engines: &'static [Engine], logic: Logic, h: Hist, fixed: usize) {
    let mut w = worker();
    let (mut feed, sinks) = T::build(&mut w, |scope| {
        let (feed, coll) = Feed::<(Sym, Sym), T>::new(scope);
        let arr = coll.clone().arrange_by_key();
        let out: Vec<_> = engines.iter().map(|e| Sink::new(apply(*e, logic, &coll, &arr, Default::default()))).collect();
        (feed, out)
    });
    let (k, y, q) = (if fixed > 0 { c(0) } else { var("k", 0, HI) }, var("y", -4, HI), T::fresh("q", HI));
    let judge = |log: &Vec<((Sym, Sym), T, Sym)>, done: bool| {
        let f0 = sinks[0].frontier();
        for (s, e) in sinks.iter().zip(engines) {
            if !same(&f0, &s.frontier()).decide() { fail(&format!("{e:?} defers different work from {:?}", engines[0])); }
            let when = if done { TRUE } else { s.done(&q) };
            check(when.implies(s.accum(&(k, y), &q).is(logic.expect(log, k, y, &q))), &format!("the accumulated output of {e:?} is not the logic applied to the accumulated input"));
        }
    };
    for i in 0..h.rounds.len() {
        let before = feed.log.len();
        round(&mut feed, "", &h, i);
        pin(&feed.log[before..], fixed);
        if i + 1 < h.rounds.len() && choose("flush", 2) == 1 {
            feed.flush();
            steps(&mut w, 12);
            judge(&feed.log, false);
        }
    }
    feed.close();
    finish(&mut w);
    judge(&feed.log, true);
    if sinks[0].out.borrow().len() > 1 { reached("revised"); }
    note(|| format!("{:?} gives {:?}", feed.log, sinks[0].out.borrow()));
}

fn main() {
    const G: &[&str] = &["reduce_with_tactic", "CursorTactic::retire", "HistoryReplayer::compute", "ReferenceTactic::retire", "ReferenceThinker::compute", "ProxyReduceTactic::retire", "discover_times", "tile_descriptions", "ValueHistory", "TimeHistory", "OrdValBuilder, OrdValSpine"];
    use Engine::*;
    use Logic::*;
    const ALL: &[Engine] = &[Reference, Replay, Proxy(0, false, 0), Proxy(1, true, 0)];
    const HASH: &[Engine] = &[Reference, Proxy(0, true, 1), Proxy(1, false, 2)];
    const PR: &[Engine] = &[Reference, Proxy(0, false, 0)];
    let b = |h: &Hist, t: &str| format!("{:?} arbitrary updates per round (keys and values 0..=20, differences -3..=3) {t}; any flushing between rounds", h.rounds);
    let n = "at session times 0, 1, 2";
    let l = "at any time at or after session times 0, 1";
    let p = "at any pair of integers at or after (0,0), (1,0), (2,0)";
    let f = "at arbitrary successive session times";
    const FREE: Hist = Hist { rounds: &[1, 1, 1], hi: HI, r: 3, times: Times::Now, free: true };
    let mut cases = vec![];
    let mut add = |name: &'static str, bounds: String, thorough: bool, f: Box<dyn Fn() + Send + Sync>| { let c = Case::new(name, bounds, G, &["revised"], move || f()); cases.push(if thorough { c.thorough() } else { c }); };
    add("first", b(&NOW, n), false, Box::new(|| history::<Sym>(ALL, First, NOW, 0)));
    add("both later", b(&LATER, l), false, Box::new(|| history::<Sym>(ALL, Both, LATER, 0)));
    add("first, hash collisions", b(&NOW, n), false, Box::new(|| history::<Sym>(HASH, First, NOW, 0)));
    add("double pairs", b(&Hist { rounds: &[1, 1], ..LATER }, p), false, Box::new(|| history::<P2>(ALL, Double, Hist { rounds: &[1, 1], ..LATER }, 0)));
    add("present pairs one key", b(&LATER, p), true, Box::new(|| history::<P2>(ALL, Present, LATER, 1)));
    add("double pairs one key 1 1 1", b(&Hist { rounds: &[1, 1, 1], ..LATER }, p), true, Box::new(|| history::<P2>(ALL, Double, Hist { rounds: &[1, 1, 1], ..LATER }, 1)));
    add("both pairs free one key", b(&FREE, f), false, Box::new(|| history::<P2>(PR, Both, FREE, 1)));
    add("double pairs one datum 2 1", b(&LATER, p) + ", all of one key and value", false, Box::new(|| history::<P2>(ALL, Double, LATER, 2)));
    add("double pairs one datum 1 1 1", b(&Hist { rounds: &[1, 1, 1], ..LATER }, p) + ", all of one key and value", false, Box::new(|| history::<P2>(PR, Double, Hist { rounds: &[1, 1, 1], ..LATER }, 2)));
    const APART: Hist = Hist { rounds: &[2, 1], hi: 2, r: 1, times: Times::Apart, free: false };
    let ap = "at any pairs of integers 0..=2, the input's frontier moving through arbitrary antichains of one or two pairs; all of one key and value, differences -1 and 1";
    add("square apart", b(&APART, ap), false, Box::new(|| history::<P2>(PR, Square, APART, 2)));
    add("twice apart", b(&APART, ap), false, Box::new(|| history::<P2>(PR, Twice, Hist { rounds: &[1, 2], hi: 2, ..APART }, 3)));
    add("square apart, then nothing", b(&Hist { rounds: &[2, 0], ..APART }, ap), false, Box::new(|| history::<P2>(ALL, Square, Hist { rounds: &[2, 0], ..APART }, 2)));
    add("square apart, then nothing twice", b(&Hist { rounds: &[2, 0, 0], ..APART }, ap), false, Box::new(|| history::<P2>(ALL, Square, Hist { rounds: &[2, 0, 0], ..APART }, 3)));
    add("square apart 1 1, then nothing", b(&Hist { rounds: &[1, 1, 0], ..APART }, ap), false, Box::new(|| history::<P2>(ALL, Square, Hist { rounds: &[1, 1, 0], ..APART }, 3)));
    add("square apart, all engines", b(&APART, ap), true, Box::new(|| history::<P2>(ALL, Square, APART, 2)));
    add("square apart 1 1 1", b(&APART, ap), true, Box::new(|| history::<P2>(ALL, Square, Hist { rounds: &[1, 1, 1], ..APART }, 2)));
    add("present apart 1 1 1 one key", b(&APART, ap), true, Box::new(|| history::<P2>(PR, Present, Hist { rounds: &[1, 1, 1], ..APART }, 1)));
    add("pairs, hash collisions", b(&Hist { rounds: &[1, 1], ..LATER }, p), false, Box::new(|| history::<P2>(HASH, First, Hist { rounds: &[1, 1], ..LATER }, 0)));
    add("last 2 2", b(&Hist { rounds: &[2, 2], ..LATER }, l), true, Box::new(|| history::<Sym>(ALL, LastPositive, Hist { rounds: &[2, 2], ..LATER }, 1)));
    add("double 1 1 1 1", b(&Hist { rounds: &[1, 1, 1, 1], ..NOW }, n), true, Box::new(|| history::<Sym>(ALL, Double, Hist { rounds: &[1, 1, 1, 1], ..NOW }, 0)));
    add("double pairs 2 1", b(&LATER, p), true, Box::new(|| history::<P2>(ALL, Double, LATER, 0)));
    add("present pairs 2 1 1 one key", b(&Hist { rounds: &[2, 1, 1], ..LATER }, p), true, Box::new(|| history::<P2>(ALL, Present, Hist { rounds: &[2, 1, 1], ..LATER }, 1)));
    runner::run(Prop { id: "R02", title: "reduce engines", outside: "longer histories; backends other than the plain one of the harness; one worker", assumptions: &["the backend of the opaque-identifier engine is the harness's own, following its documented protocol"], cases });
}
