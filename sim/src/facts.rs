//! Oracles that decode the saved file.
use crate::core::{Rng, Sched};
use crate::exec::Out;
use crate::judge::*;
use crate::{decode, model, objects, pkg};
use crate::spec::*;
use std::collections::BTreeMap;

pub fn prepare(mut w: World, r: &mut Rng, thorough: bool) -> World {
    let k = if thorough { 2 } else { 1 };
    let base = |note: &str, r: &mut Rng| Variant { note: note.into(), cfg: cfg0(r.next()), sched: Sched::plain(), ..Variant::default() };
    match w.prop.as_str() {
        "C07" => {
            // x: the kind of each worksheet, by handle.
            let n = w.progs[0].ops.iter().filter(|o| matches!(o, Op::Add { .. })).count();
            for i in 0..4 * k as u64 {
                let mut v = base("other memory modes", r);
                v.x = (0..n)
                    .map(|_| match i {
                        0 => 0,
                        1 => 1,
                        2 => 2,
                        _ => r.below(3),
                    })
                    .collect();
                w.variants.push(v);
            }
        }
        "C08" => {
            let p = parallel(&w.progs[0], r);
            let b = exec(&p, &base("", r));
            w.progs = vec![p];
            for _ in 0..4 * k {
                let mut v = base("worksheets filled by several threads", r);
                v.sched = rand_sched(r, b.stats.steps);
                w.variants.push(v);
            }
        }
        _ => {
            let mut v = base("history", r);
            if r.chance(1, 2) {
                let b = exec(&w.progs[0], &v);
                v.sched = rand_sched(r, b.stats.steps);
            }
            w.variants.push(v);
        }
    }
    w
}

/// Operations on different worksheets, one after the other, become operations
/// made by one thread for each worksheet.
fn parallel(p: &Program, r: &mut Rng) -> Program {
    let mut q = Program { fmts: p.fmts.clone(), ops: vec![] };
    let mut block: Vec<(usize, Vec<SOp>)> = vec![];
    let flush = |q: &mut Program, block: &mut Vec<(usize, Vec<SOp>)>| {
        for (h, l) in block.iter().filter(|_| block.len() == 1) {
            q.ops.extend(l.iter().map(|s| Op::S(*h, s.clone())));
        }
        if block.len() > 1 {
            q.ops.push(Op::Par(std::mem::take(block)));
        }
        block.clear();
    };
    for o in &p.ops {
        match o {
            Op::S(_, SOp::State(State::Name(_))) => {
                flush(&mut q, &mut block);
                q.ops.push(o.clone());
            }
            Op::S(h, s) => {
                if r.chance(1, 40) {
                    flush(&mut q, &mut block);
                }
                match block.iter_mut().find(|b| b.0 == *h) {
                    Some(b) => b.1.push(s.clone()),
                    None => block.push((*h, vec![s.clone()])),
                }
            }
            _ => {
                flush(&mut q, &mut block);
                q.ops.push(o.clone());
            }
        }
    }
    flush(&mut q, &mut block);
    q
}

/// The same program made by one thread.
fn serial(p: &Program) -> Program {
    let mut q = Program { fmts: p.fmts.clone(), ops: vec![] };
    for o in &p.ops {
        match o {
            Op::Par(b) => q.ops.extend(b.iter().flat_map(|(h, l)| l.iter().map(|s| Op::S(*h, s.clone())))),
            _ => q.ops.push(o.clone()),
        }
    }
    q
}

fn with_kinds(p: &Program, kinds: &[u64]) -> Program {
    let mut q = p.clone();
    let mut h = 0;
    for o in q.ops.iter_mut() {
        if let Op::Add { kind, .. } = o {
            if *kind != Kind::Chart {
                *kind = [Kind::Std, Kind::Low, Kind::Const][kinds.get(h).copied().unwrap_or(0) as usize % 3];
            }
            h += 1;
        }
    }
    q
}

type Parts = BTreeMap<String, String>;
fn forms(r: &Run, f: fn(&[u8]) -> Result<Parts, String>) -> Result<Vec<(usize, Option<Parts>)>, String> {
    let mut v = vec![];
    for (i, b) in &r.saves {
        let ok = r.outs.get(*i).is_some_and(|o| o.ok());
        v.push((
            *i,
            match b {
                Some(b) if ok => Some(f(b).map_err(|e| format!("the file of operation {i} cannot be read: {e}"))?),
                _ => None,
            },
        ));
    }
    Ok(v)
}

pub fn judge(w: &World) -> Res {
    let p = &w.progs[0];
    match w.prop.as_str() {
        "C07" => {
            let b = exec(p, &plain(&w.variants[0]));
            let want = match forms(&b, pkg::modal) {
                Ok(x) => x,
                Err(e) => return viol(0, "unreadable", e),
            };
            for (i, v) in w.variants.iter().enumerate() {
                let q = with_kinds(p, &v.x);
                if q == *p {
                    continue;
                }
                let r = exec(&q, v);
                info().sigs.push(r.sig());
                if let Some((k, t)) = has_panic(&r) {
                    return viol(i, "panic", format!("memory modes {:?}: operation {k} {} panicked: {t}", v.x, op_text(p, k)));
                }
                for (k, o) in r.outs.iter().enumerate() {
                    if b.outs[k].ok() != o.ok() {
                        return viol(i, "results differ", format!("operation {k} {} gave {} as generated and {} in memory modes {:?}", op_text(p, k), b.outs[k].text(), o.text(), v.x));
                    }
                }
                let got = match forms(&r, pkg::modal) {
                    Ok(x) => x,
                    Err(e) => return viol(i, "unreadable", format!("memory modes {:?}: {e}", v.x)),
                };
                for (a, z) in want.iter().zip(&got) {
                    if let (Some(x), Some(y)) = (&a.1, &z.1) {
                        if let Some(d) = pkg::first_difference(x, y) {
                            return viol(i, "memory modes differ", format!("the file of operation {}, as generated and in memory modes {:?}: {d}", a.0, v.x));
                        }
                    }
                }
            }
        }
        "C08" => {
            let b = exec(&serial(p), &plain(&w.variants[0]));
            if !b.complete {
                tally("the serial program panics", 1);
                return Ok(());
            }
            let want = match forms(&b, pkg::canonical) {
                Ok(x) => x,
                Err(e) => return viol(0, "unreadable", e),
            };
            let q = p;
            for (i, v) in w.variants.iter().enumerate() {
                let r = exec(q, v);
                info().sigs.push(r.sig());
                if let Some((k, t)) = has_panic(&r) {
                    return viol(i, "panic", format!("operation {k} panicked with several threads: {t}"));
                }
                let got = match forms(&r, pkg::canonical) {
                    Ok(x) => x,
                    Err(e) => return viol(i, "unreadable", format!("with several threads: {e}")),
                };
                for (a, z) in want.iter().zip(&got) {
                    match (&a.1, &z.1) {
                        (Some(x), Some(y)) => {
                            if let Some(d) = pkg::first_difference(x, y) {
                                return viol(i, "threads change the file", format!("the file of operation {}, filled by one thread and by several: {d}", a.0));
                            }
                        }
                        (None, None) => {}
                        _ => return viol(i, "threads change the result", format!("the save of operation {} gave {:?} with one thread and {:?} with several", z.0, b.outs.get(a.0), r.outs.get(z.0))),
                    }
                }
            }
        }
        "C11" => {
            for (i, v) in w.variants.iter().enumerate() {
                let r = exec(p, v);
                info().sigs.push(r.sig());
                for (k, b) in &r.saves {
                    let Some(b) = b else { continue };
                    if r.outs.get(*k) != Some(&Out::Ok) {
                        continue;
                    }
                    match pkg::Pkg::read(b) {
                        Err(e) => return viol(i, "package damaged", format!("the file of operation {k}: {e}")),
                        Ok(x) => {
                            if let Some(e) = pkg::integrity(&x).first() {
                                return viol(i, "package inconsistent", format!("the file of operation {k}: {e}"));
                            }
                            tally("packages examined", 1);
                        }
                    }
                }
                if let Some((k, t)) = has_panic(&r) {
                    return viol(i, "panic", format!("operation {k} {} panicked: {t}", op_text(p, k)));
                }
            }
        }
        "C09" => return refine(w, &["cell"]),
        "C10" => return refine(w, &["fmt"]),
        "C23" => return refine(w, &["cell", "fmt", "rowcol"]),
        "C24" => return refine(w, &["rowcol"]),
        "C14" => return refine(w, &["book"]),
        "C12" => return refine(w, &["obj", "cell"]),
        "C22" => return refine(w, &["cache"]),
        "C13" => return refine(w, &["range"]),
        _ => {}
    }
    Ok(())
}

/// Each saved file shows what the model says it must show.
fn refine(w: &World, cats: &[&str]) -> Res {
    let p = &w.progs[0];
    for (i, v) in w.variants.iter().enumerate() {
        let r = exec(p, v);
        info().sigs.push(r.sig());
        if let Some((k, t)) = has_panic(&r) {
            return viol(i, "panic", format!("operation {k} {} panicked: {t}", op_text(p, k)));
        }
        let mut m = model::Model::new(p);
        let mut saves = r.saves.iter().filter_map(|(k, b)| b.as_ref().map(|b| (*k, b)));
        let mut next = saves.next();
        for (k, op) in p.ops.iter().enumerate() {
            if !model::ok(r.outs.get(k)) {
                continue;
            }
            if matches!(op, Op::S(_, SOp::Bad(_))) {
                // Accepted after all: what it was meant to collide with isn't there.
                tally("histories with an accepted invalid call", 1);
                break;
            }
            m.step(op);
            while next.is_some_and(|n| n.0 < k) {
                next = saves.next();
            }
            let Some((_, b)) = next.filter(|n| n.0 == k) else { continue };
            let read = pkg::Pkg::read(b).and_then(|x| decode::decode(&x).map(|f| (x, f)));
            let (package, mut got) = match read {
                Ok(x) => x,
                Err(e) => return viol(i, "unreadable", format!("the file of operation {k}: {e}")),
            };
            let mut want = m.facts();
            if cats.iter().any(|c| matches!(*c, "obj" | "cache")) {
                if let Err(e) = objects::decode(&package, &mut got) {
                    return viol(i, "unreadable", format!("the file of operation {k}: {e}"));
                }
                m.objects(&objects::geometry(&package), &mut want);
            }
            if let Some(d) = model::differ(cats, &want, &got) {
                return viol(i, "content differs", format!("the file of operation {k}\n      {d}"));
            }
            tally("packages compared with the model", 1);
            tally("statements compared", model::count(cats, &want));
        }
    }
    Ok(())
}
