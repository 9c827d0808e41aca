//! Navigation commands on cursors, against positions in sorted lists.
use crate::model::*;
use crate::traces::*;
use crate::*;
use differential_dataflow::trace::cursor::{cursor_list, Cursor};
use differential_dataflow::trace::Navigable;

pub const HI: i64 = 30;

/// Runs `steps` arbitrary commands on a cursor over the union of `batches`.
pub fn navigate<KD: Kind, C>(c: &mut C, s: &C::Storage, batches: &[Vec<Up<KD::K, KD::V, KD::T>>], steps: usize)
where C: for<'a> Cursor<Key<'a> = <KD::C as Cursor>::Key<'a>, Val<'a> = <KD::C as Cursor>::Val<'a>, Time = KD::T, Diff = Sym> {
    // The reference: the sorted distinct keys, each with its sorted distinct values.
    let mut keys: Vec<KD::K> = batches.iter().flatten().map(|u| u.0.0.clone()).collect();
    keys.sort(); keys.dedup();
    let vals: Vec<Vec<KD::V>> = keys.iter().map(|k| {
        let mut v: Vec<KD::V> = batches.iter().flatten().filter(|u| &u.0.0 == k).map(|u| u.0.1.clone()).collect();
        v.sort(); v.dedup(); v
    }).collect();
    let (mut kp, mut vp) = (0usize, 0usize);
    let mut trail: Vec<String> = vec![];
    for step in 0..=steps {
        let kv = kp < keys.len();
        let vv = kv && vp < vals[kp].len();
        check(B::of(c.key_valid(s) == kv), "key validity");
        if kv { check(KD::key(c.key(s)).s_is(&keys[kp]), "wrong key"); }
        match c.get_key(s) { Some(k) => { check(B::of(kv), "a key past the end"); if kv { check(KD::key(k).s_is(&keys[kp]), "wrong key") } }, None => check(B::of(!kv), "no key") }
        if kv {
            check(B::of(c.val_valid(s) == vv), "value validity");
            match c.get_val(s) { Some(v) => { check(B::of(vv), "a value past the end"); if vv { check(KD::val(v).s_is(&vals[kp][vp]), "wrong value") } }, None => check(B::of(!vv), "no value") }
        }
        if vv {
            check(KD::val(c.val(s)).s_is(&vals[kp][vp]), "wrong value");
            let mut seen = vec![];
            c.map_times(s, |t, r| seen.push((C::owned_time(t), C::owned_diff(r))));
            let want: Vec<(KD::T, Sym)> = batches.iter().flatten().filter(|u| u.0.0 == keys[kp] && u.0.1 == vals[kp][vp]).map(|u| (u.1.clone(), u.2)).collect();
            check(B::of(seen.len() == want.len()), "wrong number of updates");
            check(B::all(seen.iter().zip(want.iter()).map(|(a, b)| a.0.s_eq(&b.0) & a.1.is(b.1))), "wrong updates");
            reached("updates read");
        }
        if step == steps { break; }
        match choose("command", 6) {
            0 => { trail.push("step_key".into()); c.step_key(s); if kv { kp += 1; } vp = 0; },
            1 => {
                let k = KD::K::fresh(&format!("k{step}"), HI);
                // Some layouts serve targets behind the cursor from the front, which no reader relies on.
                if KD::FORWARD { if !kv { return; } assume(!k.s_less(&keys[kp])); }
                trail.push(format!("seek_key({:?})", k));
                KD::seek_key(c, s, &k);
                let was = kp;
                while kp < keys.len() && keys[kp] < k { kp += 1; }
                vp = 0;
                if kp > was { reached("key seek"); }
            },
            2 if kv => { trail.push("step_val".into()); c.step_val(s); if vv { vp += 1; } },
            3 if kv => {
                let v = KD::V::fresh(&format!("v{step}"), HI);
                trail.push(format!("seek_val({:?})", v));
                KD::seek_val(c, s, &v);
                while vp < vals[kp].len() && vals[kp][vp] < v { vp += 1; reached("value seek"); }
            },
            4 => { trail.push("rewind_keys".into()); c.rewind_keys(s); kp = 0; vp = 0; },
            5 if kv => { trail.push("rewind_vals".into()); c.rewind_vals(s); vp = 0; },
            _ => return,
        }
    }
    // Read out in one go, wherever the cursor is.
    let all = c.to_vec(s, |k| KD::key(k), |v| KD::val(v));
    let want: Vec<(&KD::K, &KD::V)> = keys.iter().zip(vals.iter()).flat_map(|(k, vs)| vs.iter().map(move |v| (k, v))).collect();
    check(B::of(all.len() == want.len()), "reading out finds a wrong number of pairs");
    for (((k, v), ups), (k2, v2)) in all.iter().zip(want.iter()) {
        check(k.s_is(k2) & v.s_is(v2), "reading out finds the wrong pairs");
        check(B::of(ups.len() == batches.iter().flatten().filter(|u| &&u.0.0 == k2 && &&u.0.1 == v2).count()), "reading out finds a wrong number of updates");
    }
    note(|| format!("{:?} after {:?}", batches, trail));
}


/// Commands on the cursor of one batch.
pub fn navigate_batch<KD: Kind>(b: &KD::B, ups: Vec<Up<KD::K, KD::V, KD::T>>, steps: usize) { navigate::<KD, KD::C>(&mut b.cursor(), b, &[ups], steps) }
/// Commands on a cursor over several batches.
pub fn navigate_list<KD: Kind>(bs: Vec<KD::B>, ups: &[Vec<Up<KD::K, KD::V, KD::T>>], steps: usize) {
    let (mut c, s) = cursor_list(bs);
    navigate::<KD, _>(&mut c, &s, ups, steps);
}
