//! C29: the identifier store next to a map.

use std::collections::BTreeMap;

use node_tree::structs::rid::{ RIDHolder, RID };

use crate::report::{ count, evaluated, fail, sample, wants_sample };
use crate::rng::Rng;

pub fn run(mut r: Rng) {
    let mut next: u64 = 1000; // Every stored item is a new one.
    let mut trace: Vec<String> = Vec::new();
    let (mut s, mut m): (RIDHolder<u64>, BTreeMap<RID, u64>) = match r.below(4) {
        0 => { trace.push("new".into()); (RIDHolder::new(), BTreeMap::new()) },
        1 => { trace.push("default".into()); (RIDHolder::default(), BTreeMap::new()) },
        _ => {
            let n = match r.below(40) { 0 => r.range(250, 700), 1..=8 => 0, _ => r.range(1, 9) };
            trace.push(format!("from_vec of {n}"));
            let items: Vec<u64> = (0..n as u64).map(|i| 500 + i).collect();
            (RIDHolder::from_vec(items.clone()), items.into_iter().enumerate().map(|(i, x)| (i as RID, x)).collect())
        }
    };
    let mut key = m.len() as u64;
    let mut taken: Vec<RID> = Vec::new();
    let (grow, steps) = (r.range(20, 70), if r.chance(4) { let most = if r.chance(10) { 1500 } else { 600 }; r.range(100, most) } else { r.range(2, 50) });
    let mut most = m.len();
    for _ in 0..steps {
        let any = |r: &mut Rng, m: &BTreeMap<RID, u64>, taken: &[RID]| -> RID {
            match r.below(10) {
                0 => m.keys().last().copied().unwrap_or(0) + 1 + r.u64() % 3,
                1 => *r.pick(&[0, u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63]),
                2 | 3 if !taken.is_empty() => *r.pick(taken),
                _ => if m.is_empty() { r.u64() % 4 } else { *m.keys().nth(r.below(m.len())).unwrap() }
            }
        };
        let roll = r.below(100);
        let op = if roll < grow { 0 } else { 1 + r.below(9) };
        key = key.wrapping_mul(31).wrapping_add(op as u64);
        match op {
            0 => {
                next += 1;
                let id = s.push(next);
                trace.push(format!("push -> {id}"));
                count("stored");
                if let Some(old) = m.insert(id, next) { return fail(format!("the new item got the identifier {id}, which the item {old} still has, after {}", trace.join(", "))); }
            },
            1..=4 => {
                let id = any(&mut r, &m, &taken);
                let got = s.take(id);
                trace.push(format!("take {id}"));
                count("taken");
                let want = m.remove(&id);
                if want.is_some() { taken.push(id); }
                if got != want { return fail(format!("take({id}) gives {got:?} instead of {want:?} after {}", trace.join(", "))); }
            },
            5 => {
                let id = any(&mut r, &m, &taken);
                next += 1;
                let got = s.modify(id).map(|x| std::mem::replace(x, next));
                trace.push(format!("modify {id}"));
                let want = m.get_mut(&id).map(|x| std::mem::replace(x, next));
                if got != want { return fail(format!("modify({id}) gives {got:?} instead of {want:?} after {}", trace.join(", "))); }
            },
            6 => {
                trace.push("clone".into());
                // Go on with either; the other must not be affected by what follows.
                let other = s.clone();
                let keep = r.chance(50);
                let (go, mut stay) = if keep { (s, other) } else { (other, s) };
                s = go;
                count("copied");
                let before = m.clone();
                next += 1;
                let id = stay.push(next);
                if before.contains_key(&id) { return fail(format!("a copy gave the identifier {id} of a stored item again after {}", trace.join(", "))); }
                let victim = any(&mut r, &m, &taken);
                if victim != id && stay.take(victim) != before.get(&victim).copied() { return fail(format!("take({victim}) on a copy goes wrong after {}", trace.join(", "))); }
            },
            7 => {
                trace.push("iter_mut".into());
                for x in s.iter_mut() { *x += 1_000_000; }
                for x in m.values_mut() { *x += 1_000_000; }
            },
            8 => {
                trace.push("iter_mut_enumerated".into());
                for (id, x) in s.iter_mut_enumerated() { *x += 1_000_000 * (1 + *id % 3); }
                for (id, x) in m.iter_mut() { *x += 1_000_000 * (1 + *id % 3); }
            },
            _ => {
                for _ in 0..3 {
                    let id = any(&mut r, &m, &taken);
                    if s.retrieve(id) != m.get(&id) { return fail(format!("retrieve({id}) gives {:?} instead of {:?} after {}", s.retrieve(id), m.get(&id), trace.join(", "))); }
                }
            }
        }
        most = most.max(m.len());
        // The whole content after every step.
        count("contents_compared");
        if s.len() != m.len() || s.is_empty() != m.is_empty() { return fail(format!("the count is {} instead of {} after {}", s.len(), m.len(), trace.join(", "))); }
        let mut all: Vec<(RID, u64)> = s.iter_enumerated().map(|(a, b)| (*a, *b)).collect();
        all.sort();
        let want: Vec<(RID, u64)> = m.iter().map(|(a, b)| (*a, *b)).collect();
        if all != want { return fail(format!("the store holds {all:?} instead of {want:?} after {}", trace.join(", "))); }
        let mut items: Vec<u64> = s.iter().copied().collect();
        items.sort();
        let mut want: Vec<u64> = m.values().copied().collect();
        want.sort();
        if items != want { return fail(format!("the iterator gives {items:?} instead of {want:?} after {}", trace.join(", "))); }
        for (id, x) in &m {
            if s.retrieve(*id) != Some(x) { return fail(format!("retrieve({id}) gives {:?} instead of {x} after {}", s.retrieve(*id), trace.join(", "))); }
        }
    }
    if !taken.is_empty() { for id in &taken { if !m.contains_key(id) && s.retrieve(*id).is_some() { return fail(format!("the taken identifier {id} still gives an item")); } } }
    evaluated(trace.len() > 2, key);
    if wants_sample() { sample(trace.join(", ")); }
}
