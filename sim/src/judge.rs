//! Worlds, their execution and the oracles that compare executions with each
//! other. The oracles that compare a saved file with the reference model are in
//! `model.rs` and `facts.rs`.
use crate::core::{self, hash_bytes, mix, Mode, Rng, Sched};
use crate::exec::{self, Exec, Out};
use crate::fs::{self, Act, Fault, IoCfg, Op as FOp, Role};
use crate::gen::{self, Prof};
use crate::pkg::{self, Pkg};
use crate::spec::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const MAX_STEPS: u64 = 3_000_000_000;

/// Everything that determines a set of executions.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub prop: String,
    pub seed: u64,
    pub progs: Vec<Program>,
    pub variants: Vec<Variant>,
}
/// One execution of the programs of a world.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Variant {
    #[serde(default)]
    pub note: String,
    #[serde(default)]
    pub cfg: IoCfg,
    #[serde(default = "Sched::plain")]
    pub sched: Sched,
    /// Faults that apply during one operation only: (operation index, faults).
    #[serde(default)]
    pub arms: Vec<(usize, IoCfg)>,
    /// Further parameters, by property.
    #[serde(default)]
    pub x: Vec<u64>,
    #[serde(default)]
    pub vias: Vec<Via>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub variant: usize,
    /// Class of the violation; the minimiser keeps it.
    pub kind: String,
    pub msg: String,
}

/// What the executions of a world covered.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Info {
    pub runs: u64,
    pub steps: u64,
    pub switches: u64,
    pub tasks: u64,
    pub spurious: u64,
    pub sim_ns: u64,
    pub saves: u64,
    pub ops: u64,
    /// Signatures of the non-trivial executions.
    pub sigs: Vec<u64>,
    pub scheds: Vec<u64>,
    pub injected: BTreeMap<String, u64>,
    pub io: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub sample: String,
}
#[allow(static_mut_refs)]
pub static mut INFO: Option<Info> = None;
#[allow(static_mut_refs)]
pub fn info() -> &'static mut Info {
    unsafe { INFO.get_or_insert_with(Info::default) }
}
pub fn tally(k: &str, n: u64) {
    *info().counts.entry(k.to_string()).or_insert(0) += n;
}

/// The result of executing one program.
#[derive(Default)]
pub struct Run {
    pub outs: Vec<Out>,
    pub saves: Vec<(usize, Option<Vec<u8>>)>,
    /// Operation counts of the simulated file system before each operation.
    pub marks: Vec<BTreeMap<(Role, FOp), u64>>,
    /// Temporary files opened before each operation.
    pub temp_marks: Vec<usize>,
    /// Clock before each operation.
    pub clocks: Vec<i128>,
    pub stats: core::RunStats,
    pub io: fs::IoStats,
    pub end_fds: usize,
    pub left: Vec<String>,
    pub order: Vec<usize>,
    pub names: Vec<String>,
    pub complete: bool,
}
impl Run {
    pub fn sig(&self) -> u64 {
        mix(self.stats.trace_hash, self.stats.sched_hash)
    }
    pub fn save_at(&self, i: usize) -> Option<&Vec<u8>> {
        self.saves.iter().find(|s| s.0 == i)?.1.as_ref()
    }
    pub fn last(&self) -> Option<&Vec<u8>> {
        self.saves.last()?.1.as_ref()
    }
    /// Operations of a kind that the `i`-th operation made.
    pub fn ops_in(&self, i: usize, role: Role, op: FOp) -> u64 {
        let g = |m: &BTreeMap<(Role, FOp), u64>| m.get(&(role, op)).copied().unwrap_or(0);
        if i + 1 < self.marks.len() {
            g(&self.marks[i + 1]) - g(&self.marks[i])
        } else {
            0
        }
    }
    pub fn total(&self, role: Role, op: FOp) -> u64 {
        self.marks.last().and_then(|m| m.get(&(role, op))).copied().unwrap_or(0)
    }
}

pub fn account(stats: &core::RunStats, io: &fs::IoStats) {
    let i = info();
    i.runs += 1;
    i.steps += stats.steps;
    i.switches += stats.switches;
    i.tasks += stats.tasks as u64;
    i.spurious += stats.spurious;
    i.scheds.push(stats.sched_hash);
    for (k, v) in &io.injected {
        *i.injected.entry(k.clone()).or_insert(0) += v;
    }
    for (k, v) in &io.ops {
        *i.io.entry(k.clone()).or_insert(0) += v;
    }
}

pub const T0: i64 = 1_700_000_000;
pub fn cfg0(seed: u64) -> IoCfg {
    IoCfg { clock: T0, entropy: seed, seed, ..IoCfg::default() }
}

/// Execute one program in one world.
pub fn exec(p: &Program, v: &Variant) -> Run {
    exec_with(p, v, |_| {})
}
pub fn exec_with(p: &Program, v: &Variant, setup: impl FnOnce(&mut fs::Fs)) -> Run {
    fs::Fs::reset(&v.cfg);
    exec::put_media(p);
    setup(fs::fs());
    let mut r = Run::default();
    let rr = &mut r;
    let stats = core::run(&v.sched, MAX_STEPS, || {
        let mut x = Exec::new(p);
        let mut all = true;
        for (i, op) in p.ops.iter().enumerate() {
            core::busy(|| {
                rr.marks.push(fs::fs().counts());
                rr.temp_marks.push(fs::fs().stats.temp_opens.len());
                rr.clocks.push(fs::fs().peek());
                if let Some((_, c)) = v.arms.iter().find(|a| a.0 == i) {
                    fs::fs().arm(Some(c));
                }
            });
            let o = x.step(op);
            core::busy(|| {
                fs::fs().arm(None);
            });
            if o.panic() {
                all = false;
                break;
            }
        }
        core::busy(|| {
            rr.marks.push(fs::fs().counts());
            rr.temp_marks.push(fs::fs().stats.temp_opens.len());
            rr.clocks.push(fs::fs().peek());
            rr.outs = std::mem::take(&mut x.outs);
            rr.saves = std::mem::take(&mut x.saves);
            rr.order = x.order.clone();
            rr.names = x.names.clone();
            rr.complete = all;
        });
        let _ = exec::guard(|| {
            drop(x);
            Ok(())
        });
    });
    r.stats = stats;
    r.io = fs::fs().stats.clone();
    r.end_fds = fs::fs().open_fds();
    r.left = fs::fs().files();
    info().saves += r.saves.len() as u64;
    info().ops += r.outs.len() as u64;
    account(&r.stats, &r.io);
    r
}

/// How two files differ.
pub fn explain(a: &[u8], b: &[u8]) -> String {
    if a == b {
        return "identical".into();
    }
    let (x, y) = match (pkg::read_zip(a), pkg::read_zip(b)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) => return format!("{} and {} bytes; the first is not a readable package: {e}", a.len(), b.len()),
        (_, Err(e)) => return format!("{} and {} bytes; the second is not a readable package: {e}", a.len(), b.len()),
    };
    let mx: BTreeMap<&str, &Vec<u8>> = x.iter().map(|e| (e.name.as_str(), &e.data)).collect();
    let my: BTreeMap<&str, &Vec<u8>> = y.iter().map(|e| (e.name.as_str(), &e.data)).collect();
    for (n, d) in &mx {
        match my.get(n) {
            None => return format!("part {n} is only in the first"),
            Some(e) if e != d => {
                let k = d.iter().zip(e.iter()).take_while(|(p, q)| p == q).count();
                let cut = |v: &Vec<u8>| String::from_utf8_lossy(&v[k.saturating_sub(60)..(k + 80).min(v.len())]).into_owned();
                return format!("part {n} differs at byte {k}: {:?} / {:?}", cut(d), cut(e));
            }
            _ => {}
        }
    }
    for n in my.keys() {
        if !mx.contains_key(n) {
            return format!("part {n} is only in the second");
        }
    }
    if x.iter().map(|e| &e.name).ne(y.iter().map(|e| &e.name)) {
        return "the parts are in a different order".into();
    }
    let k = a.iter().zip(b.iter()).take_while(|(p, q)| p == q).count();
    format!("same parts, but the containers differ at byte {k} ({} and {} bytes)", a.len(), b.len())
}

pub type Res = Result<(), Viol>;
pub fn viol<T>(variant: usize, kind: &str, msg: String) -> Result<T, Viol> {
    Err(Viol { variant, kind: kind.into(), msg })
}
pub fn op_text(p: &Program, i: usize) -> String {
    p.ops.get(i).map(|o| format!("{o:?}").chars().take(300).collect()).unwrap_or_default()
}

/// All results and all saved files of two executions are equal.
fn same(i: usize, p: &Program, a: &Run, b: &Run) -> Res {
    for (k, (x, y)) in a.outs.iter().zip(&b.outs).enumerate() {
        if x != y {
            let kind = if y.panic() { "panic" } else { "result differs" };
            return viol(i, kind, format!("operation {k} {} gave {} undisturbed but {}", op_text(p, k), x.text(), y.text()));
        }
    }
    if a.outs.len() != b.outs.len() {
        return viol(i, "result differs", "a different number of operations ran".into());
    }
    for (x, y) in a.saves.iter().zip(&b.saves) {
        if x.1 != y.1 {
            let e: Vec<u8> = vec![];
            return viol(
                i,
                "file differs",
                format!("the file saved by operation {} differs: {}", x.0, explain(x.1.as_ref().unwrap_or(&e), y.1.as_ref().unwrap_or(&e))),
            );
        }
    }
    Ok(())
}
/// How two saved files differ: exactly, or up to the numbering of shared
/// strings and style records (which follows the order in which saves and writes
/// registered them).
fn unlike(exact: bool, a: Option<&Vec<u8>>, b: Option<&Vec<u8>>) -> Option<String> {
    match (a, b) {
        (None, None) => None,
        (Some(a), Some(b)) if a == b => None,
        (Some(a), Some(b)) if exact => Some(explain(a, b)),
        (Some(a), Some(b)) => pkg::differ(a, b),
        (Some(_), None) => Some("only the first was written".into()),
        (None, Some(_)) => Some("only the second was written".into()),
    }
}
pub fn has_panic(r: &Run) -> Option<(usize, String)> {
    r.outs.iter().enumerate().find(|(_, o)| o.panic()).map(|(i, o)| (i, o.text()))
}

pub fn last_save(p: &Program) -> usize {
    p.ops.iter().rposition(|o| matches!(o, Op::Save(_))).unwrap_or(0)
}
fn rand_via(r: &mut Rng, tag: u64) -> Via {
    match r.below(7) {
        0 | 1 => Via::Path(format!("f{tag}.xlsx")),
        2 => Via::Buffer,
        3 => Via::Writer,
        4 => Via::BufWriter(*r.pick(&[1, 16, 512, 8192, 65536])),
        5 => Via::Cursor,
        _ => Via::File(format!("g{tag}.xlsx")),
    }
}
/// Give the saves of a program random destinations.
fn spread(p: &mut Program, r: &mut Rng, tag: u64) {
    let mut n = 0;
    for o in p.ops.iter_mut() {
        if let Op::Save(v) = o {
            n += 1;
            *v = rand_via(r, tag * 100 + n % 2);
        }
    }
}
pub fn rand_sched(r: &mut Rng, steps: u64) -> Sched {
    let mode = match r.below(10) {
        0 => Mode::Serial,
        1..=5 => {
            let e = r.f01();
            let hi = (steps.max(100) as f64 / 4.0).ln();
            let lo = 8f64.ln();
            Mode::Walk((lo + (hi - lo) * e).exp() as u64 + 1)
        }
        _ => Mode::Pct(1 + r.below(8) as u32, steps.max(100)),
    };
    Sched { seed: r.next(), mode, spurious: if r.chance(1, 3) { 200 } else { 0 } }
}
const ERRNOS: &[i32] = &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::ESTALE];
fn pos_in(r: &mut Rng, n: u64) -> u64 {
    match r.below(4) {
        0 => n.saturating_sub(1 + r.below(4)),
        1 => r.below(4).min(n.saturating_sub(1)),
        _ => r.below(n),
    }
}

/// Faults of the destination of a save that makes `n(op)` operations of each
/// kind and writes `bytes` bytes.
fn dest_fault(r: &mut Rng, role: Role, n: &dyn Fn(FOp) -> u64, bytes: u64) -> (IoCfg, String) {
    let mut c = IoCfg::default();
    if r.chance(1, 5) {
        let q = match r.below(3) {
            0 => bytes.saturating_sub(1 + r.below(30)),
            1 => r.below(64),
            _ => r.below(bytes.max(1)),
        };
        c.quota.push((role, q));
        return (c, format!("{role:?} full after {q} bytes"));
    }
    let kinds: Vec<FOp> = [FOp::Open, FOp::Write, FOp::Seek, FOp::Flush, FOp::Any, FOp::Write, FOp::Trunc].into_iter().filter(|k| n(*k) > 0).collect();
    if kinds.is_empty() {
        return (c, "no operation to hit".into());
    }
    let op = *r.pick(&kinds);
    let at = pos_in(r, n(op));
    let times = if r.chance(1, 2) { 1 } else { 1 << 40 };
    let act = if op == FOp::Write && r.chance(1, 6) {
        Act::Zero
    } else if op == FOp::Open {
        Act::Errno(*r.pick(&[libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::EIO]))
    } else {
        Act::Errno(*r.pick(ERRNOS))
    };
    if op == FOp::Write && r.chance(1, 4) {
        // A short write first, then the error.
        c.faults.push(Fault { role, op, at, n: 1, act: Act::Short(1 + r.below(40) as u32) });
        c.faults.push(Fault { role, op, at: at + 1, n: times, act });
    } else {
        c.faults.push(Fault { role, op, at, n: times, act });
    }
    (c, format!("{role:?} {op:?} {at} x{times}: {act:?}"))
}
fn role_of_via(v: &Via) -> Option<Role> {
    match v {
        Via::Path(_) | Via::File(_) => Some(Role::Out),
        Via::Writer | Via::BufWriter(_) => Some(Role::Writer),
        _ => None,
    }
}

// ---------------------------------------------------------------------------
// Profiles
// ---------------------------------------------------------------------------
pub fn small(ops: (u64, u64)) -> Prof {
    let mut p = Prof::all();
    p.ops = ops;
    p
}
fn profile(prop: &str, r: &mut Rng) -> Prof {
    let mut p = Prof::all();
    match prop {
        "C01" => {
            p.ops = (8, 45);
            p.sheets = (2, 7);
            p.kinds = [8, 1, 1, 1];
            p.w.save = 1;
        }
        "C02" => {
            p.ops = (3, 25);
            p.sheets = (1, 3);
        }
        "C03" => {
            p.ops = (5, 35);
            p.kinds = [3, 3, 3, 1];
            p.sheets = (1, 4);
            p.w.image = 6;
        }
        "C04" | "C05" => {
            p.ops = (8, 45);
            p.sheets = (1, 4);
            p.w.save = 6;
            p.w.ser = 4;
            p.w.filter = 4;
            p.invalid = prop == "C04";
            if r.chance(1, 2) {
                p.kinds = [3, 3, 3, 1];
            }
        }
        "C06" => {
            p.ops = (8, 45);
            p.sheets = (1, 3);
            p.kinds = [1, 4, 4, 0];
            p.w.save = 2;
            p.w.cell = 60;
            p.extremes = true;
        }
        "C15" => {
            p.ops = (10, 50);
            p.sheets = (1, 4);
            p.w.bad = 40;
            p.w.save = 1;
            if r.chance(1, 3) {
                p.kinds = [2, 3, 3, 1];
            }
        }
        "C17" => {
            p.ops = (4, 25);
            p.sheets = (0, 3);
            p.kinds = [3, 3, 3, 1];
            p.w.save = 3;
            p.w.addsheet = 5;
        }
        "C18" => {
            p.ops = (4, 40);
            p.sheets = (1, 4);
        }
        "C19" => {
            p.ops = (5, 25);
            p.sheets = (1, 3);
            p.kinds = [4, 3, 3, 1];
            p.w.save = 2;
        }
        "C20" => {
            p.ops = (3, 25);
            p.sheets = (1, 3);
            p.w.jump = 6;
            p.w.props = 4;
            p.w.save = 3;
            p.w.table = 1;
        }
        "C21" => {
            p.ops = (3, 25);
            p.sheets = (1, 3);
        }
        "C07" => {
            p.ops = (8, 60);
            p.sheets = (1, 4);
            p.kinds = [0, 1, 5, 0];
            p.modal = true;
            p.conditions = false;
            p.w.save = 2;
            p.w.cell = 40;
        }
        "C08" => {
            p.ops = (15, 70);
            p.sheets = (2, 5);
            p.kinds = [3, 4, 4, 0];
            p.w.cell = 50;
            p.w.fmt = 8;
            p.w.embed = 0;
            p.w.addsheet = 0;
            p.w.names = 0;
            p.w.reorder = 0;
        }
        "C11" => {
            p.ops = (8, 70);
            p.sheets = (1, 6);
            p.w.save = 2;
            p.w.bad = 6;
            p.extremes = r.chance(1, 3);
            if r.chance(1, 2) {
                p.kinds = [4, 3, 3, 1];
            }
        }
        "C09" | "C10" | "C12" | "C13" | "C14" | "C22" | "C23" | "C24" => {
            p.ops = (8, 60);
            p.sheets = (1, 4);
            p.w.save = 2;
            p.w.bad = 1;
            p.conditions = false;
            p.modal = r.chance(1, 2);
            p.kinds = if p.modal { [3, 3, 3, 0] } else { [1, 0, 0, 0] };
            match prop {
                "C09" => {
                    p.w.cell = 60;
                    p.w.embed = 5;
                    p.w.link = 6;
                    p.extremes = r.chance(1, 3);
                }
                "C10" => {
                    p.fmts = (4, 16);
                    p.w.fmt = 20;
                    p.w.rowcol = 20;
                    p.w.cell = 40;
                    p.w.cf = 8;
                }
                "C12" => {
                    p.sheets = (1, 5);
                    p.kinds[3] = 1;
                    p.extremes = r.chance(1, 4);
                    p.w.cell = 8;
                    p.w.rowcol = 14;
                    p.w.image = 16;
                    p.w.embed = 8;
                    p.w.hdrimg = 5;
                    p.w.chart = 12;
                    p.w.note = 12;
                    p.w.shape = 12;
                    p.w.button = 8;
                    p.w.reorder = 3;
                    p.w.addsheet = 3;
                    p.w.vba = 2;
                }
                "C22" => {
                    p.kinds = [6, 1, 1, 1];
                    p.modal = false;
                    p.w.cell = 40;
                    p.w.chart = 40;
                    p.w.save = 6;
                    p.w.merge = 3;
                    p.w.ser = 6;
                    p.w.table = 4;
                    p.w.reorder = 4;
                    p.w.addsheet = 3;
                }
                "C13" => {
                    p.conditions = true;
                    p.w.merge = 12;
                    p.w.link = 14;
                    p.w.table = 14;
                    p.w.cf = 20;
                    p.w.dv = 16;
                    p.w.filter = 8;
                    p.w.spark = 12;
                    p.w.protect = 5;
                }
                "C14" => {
                    p.sheets = (1, 7);
                    p.kinds[3] = 1;
                    p.w.protect = 8;
                    p.w.view = 20;
                    p.w.print = 30;
                    p.w.state = 25;
                    p.w.names = 10;
                    p.w.reorder = 8;
                    p.w.addsheet = 5;
                    p.w.hdrimg = 0;
                    p.w.vba = 2;
                    p.w.filter = 4;
                    p.w.cell = 10;
                }
                "C23" => {
                    p.w.ser = 50;
                }
                _ => {
                    p.w.rowcol = 60;
                    p.w.note = 8;
                }
            }
            return p;
        }
        _ => {}
    }
    // Now and then a workbook dominated by one kind of thing.
    if r.chance(1, 3) {
        let b = 40;
        match r.below(9) {
            0 => p.w.cf += b,
            1 => p.w.table += b,
            2 => p.w.note += b,
            3 => {
                p.w.image += b;
                p.w.embed += b / 2;
                p.w.hdrimg += b / 2
            }
            4 => p.w.chart += b,
            5 => p.w.filter += b,
            6 => p.w.ser += b,
            7 => {
                p.w.shape += b;
                p.w.button += b
            }
            _ => {
                p.w.fmt += b;
                p.w.rowcol += b
            }
        }
    }
    p
}

// ---------------------------------------------------------------------------
// Worlds
// ---------------------------------------------------------------------------
pub fn prepare(prop: &str, seed: u64, thorough: bool) -> World {
    let mut r = Rng::new(mix(hash_bytes(prop.as_bytes()), seed));
    let pr = profile(prop, &mut r);
    let mut prog = gen::generate(r.next(), &pr);
    let mut w = World { prop: prop.into(), seed, progs: vec![], variants: vec![] };
    let base = |note: &str, r: &mut Rng| Variant { note: note.into(), cfg: cfg0(r.next()), sched: Sched::plain(), ..Variant::default() };
    let k = if thorough { 2 } else { 1 };
    match prop {
        "C01" => {
            let b = exec(&prog, &base("", &mut r));
            for _ in 0..5 * k {
                let mut v = base("schedule and hash seeds", &mut r);
                v.sched = rand_sched(&mut r, b.stats.steps);
                w.variants.push(v);
            }
            w.progs.push(prog);
        }
        "C02" => {
            let i = last_save(&prog);
            let via = loop {
                let v = rand_via(&mut r, 1);
                if role_of_via(&v).is_some() {
                    break v;
                }
            };
            prog.ops[i] = Op::Save(via.clone());
            let role = role_of_via(&via).unwrap();
            let b = exec(&prog, &base("", &mut r));
            let bytes = b.last().map_or(0, |b| b.len() as u64);
            if b.outs.last().is_some_and(|o| o.ok()) {
                for _ in 0..10 * k {
                    let (c, note) = dest_fault(&mut r, role, &|o| b.ops_in(i, role, o), bytes);
                    let mut v = base(&format!("{note} during operation {i}"), &mut r);
                    v.arms = vec![(i, c)];
                    if r.chance(1, 4) {
                        v.sched = rand_sched(&mut r, b.stats.steps);
                    }
                    w.variants.push(v);
                }
            }
            w.progs.push(prog);
        }
        "C03" => {
            spread(&mut prog, &mut r, 3);
            for _ in 0..4 * k {
                let mut v = base("short transfers and EINTR", &mut r);
                for role in [Role::Out, Role::Temp, Role::Media, Role::Writer] {
                    if r.chance(2, 3) {
                        v.cfg.dribble.push((role, *r.pick(&[1, 3, 17, 100, 1000, 5000])));
                    }
                }
                v.cfg.eintr = *r.pick(&[0, 10, 100, 400]);
                if r.chance(1, 4) {
                    v.cfg.eintr_dest = *r.pick(&[1, 10, 100]);
                }
                w.variants.push(v);
            }
            w.progs.push(prog);
        }
        "C04" => {
            spread(&mut prog, &mut r, 4);
            let b = exec(&prog, &base("", &mut r));
            let saves: Vec<usize> = b.saves.iter().map(|s| s.0).collect();
            for n in 0..5 * k {
                let mut v = base("", &mut r);
                if n > 0 {
                    for i in &saves[..saves.len().saturating_sub(1)] {
                        if r.chance(1, 3) && saves.len() > 2 {
                            continue;
                        }
                        let Op::Save(via) = &prog.ops[*i] else { continue };
                        let temp = b.ops_in(*i, Role::Temp, FOp::Read) > 0 && r.chance(1, 2);
                        let role = if temp { Some(Role::Temp) } else { role_of_via(via) };
                        let Some(role) = role else { continue };
                        let bytes = b.save_at(*i).map_or(0, |b| b.len() as u64);
                        let (c, note) = if temp {
                            let op = *r.pick(&[FOp::Read, FOp::Seek]);
                            let m = b.ops_in(*i, role, op).max(1);
                            let times = if r.chance(1, 2) { 1 } else { 1 << 40 };
                            let at = r.below(m);
                            (
                                IoCfg { faults: vec![Fault { role, op, at, n: times, act: Act::Errno(libc::EIO) }], ..IoCfg::default() },
                                format!("Temp {op:?} {at} x{times}: EIO"),
                            )
                        } else {
                            dest_fault(&mut r, role, &|o| b.ops_in(*i, role, o), bytes)
                        };
                        v.note.push_str(&format!("operation {i}: {note}; "));
                        v.arms.push((*i, c));
                    }
                }
                if n == 0 || !v.arms.is_empty() {
                    w.variants.push(v);
                }
            }
            w.progs.push(prog);
        }
        "C05" => {
            spread(&mut prog, &mut r, 5);
            if r.chance(1, 3) {
                // Save twice in a row.
                let i = last_save(&prog);
                let v = rand_via(&mut r, 55);
                prog.ops.insert(i, Op::Save(v));
            }
            w.variants.push(base("with and without the earlier saves", &mut r));
            w.progs.push(prog);
        }
        "C06" => {
            let b = exec(&prog, &base("", &mut r));
            for _ in 0..8 * k {
                let mut v = base("", &mut r);
                let kinds: Vec<FOp> =
                    [FOp::Open, FOp::Write, FOp::Write, FOp::Seek, FOp::Read, FOp::Any].into_iter().filter(|o| b.total(Role::Temp, *o) > 0).collect();
                if kinds.is_empty() {
                    break;
                }
                if r.chance(1, 4) {
                    let q = r.below(20_000) * r.below(3) / 2 + r.below(400);
                    v.cfg.quota.push((Role::Temp, q));
                    v.note = format!("temporary storage full after {q} bytes");
                } else {
                    let op = *r.pick(&kinds);
                    let at = pos_in(&mut r, b.total(Role::Temp, op));
                    let n = *r.pick(&[1, 1, 2, 1 << 40]);
                    let e = *r.pick(ERRNOS);
                    if op == FOp::Write && r.chance(1, 3) {
                        v.cfg.faults.push(Fault { role: Role::Temp, op, at, n: 1, act: Act::Short(1 + r.below(60) as u32) });
                        v.cfg.faults.push(Fault { role: Role::Temp, op, at: at + 1, n, act: Act::Errno(e) });
                    } else {
                        v.cfg.faults.push(Fault { role: Role::Temp, op, at, n, act: Act::Errno(e) });
                    }
                    v.note = format!("Temp {op:?} {at} x{n}: {}", fs::errname(e));
                }
                w.variants.push(v);
            }
            w.progs.push(prog);
        }
        "C15" => {
            w.variants.push(base("with and without the rejected calls", &mut r));
            w.progs.push(prog);
        }
        "C16" => return media_world(w, &mut r, thorough),
        "C17" => {
            spread(&mut prog, &mut r, 17);
            if r.chance(2, 3) {
                let i = r.below(prog.ops.len() as u64 / 2 + 1) as usize;
                prog.ops.insert(i, Op::TempDir("/simfs/alt".into()));
                if r.chance(1, 3) {
                    prog.ops.insert(0, Op::TempDir("/simfs/alt".into()));
                }
            }
            let b = exec(&prog, &base("", &mut r));
            for n in 0..6 * k {
                let mut v = base("undisturbed", &mut r);
                v.cfg.no_otmpfile = r.chance(1, 3);
                if matches!(prog.ops[0], Op::TempDir(_)) && r.chance(1, 2) && !prog.ops.iter().any(|o| matches!(o, Op::Add { kind: Kind::Std | Kind::Chart, how: 1, .. })) {
                    v.cfg.no_default_tmp = true;
                    v.note = "default temporary directory unusable".into();
                }
                if n > 0 {
                    let (role, op) = *r.pick(&[(Role::Temp, FOp::Any), (Role::Temp, FOp::Write), (Role::Out, FOp::Any), (Role::Writer, FOp::Any), (Role::Media, FOp::Any)]);
                    let m = b.total(role, op);
                    if m > 0 {
                        let at = r.below(m);
                        let n = *r.pick(&[1, 1 << 40]);
                        let e = *r.pick(ERRNOS);
                        v.cfg.faults.push(Fault { role, op, at, n, act: Act::Errno(e) });
                        v.note = format!("{} {role:?} {op:?} {at} x{n}: {}", v.note, fs::errname(e));
                    }
                }
                if r.chance(1, 4) {
                    v.sched = rand_sched(&mut r, b.stats.steps);
                }
                w.variants.push(v);
            }
            w.progs.push(prog);
        }
        "C18" => {
            let i = last_save(&prog);
            prog.ops.truncate(i);
            for n in 0..2 * k {
                let mut v = base("", &mut r);
                let m = if n == 0 { 7 } else { 3 };
                if n == 0 {
                    v.note = "each entry point alone".into();
                    v.x = vec![0];
                    v.vias = vec![
                        Via::Path("a.xlsx".into()),
                        Via::Buffer,
                        Via::Writer,
                        Via::BufWriter(*r.pick(&[1, 7, 64, 1000])),
                        Via::BufWriter(*r.pick(&[8192, 65536, 1 << 20])),
                        Via::Cursor,
                        Via::File("b.xlsx".into()),
                    ];
                } else {
                    v.note = "entry points in sequence".into();
                    v.x = vec![1];
                    for j in 0..m {
                        let j = r.below(2) + j % 2;
                        v.vias.push(rand_via(&mut r, j));
                    }
                }
                v.cfg.eintr = 0;
                w.variants.push(v);
            }
            w.progs.push(prog);
        }
        "C19" => {
            spread(&mut prog, &mut r, 190);
            w.progs.push(prog);
            for n in 0..r.range(1, 2) {
                let mut p = if r.chance(1, 5) { w.progs[0].clone() } else { gen::generate(r.next(), &pr) };
                spread(&mut p, &mut r, 191 + n);
                w.progs.push(p);
            }
            let b = exec(&w.progs[0], &base("", &mut r));
            let n = w.progs.len() as u64;
            for m in 0..4 * k {
                let mut v = base("", &mut r);
                if m % 2 == 0 {
                    v.note = "on concurrent threads".into();
                    v.x = vec![0];
                    v.sched = rand_sched(&mut r, b.stats.steps * n);
                } else {
                    v.note = "interleaved call by call".into();
                    v.x = vec![1, r.next()];
                }
                w.variants.push(v);
            }
        }
        "C20" => {
            spread(&mut prog, &mut r, 20);
            // Some properties without a creation time of their own.
            for o in prog.ops.iter_mut() {
                if let Op::Props { created, .. } = o {
                    if r.chance(1, 2) {
                        *created = None;
                    }
                }
            }
            for _ in 0..4 * k {
                let mut v = base("another clock", &mut r);
                v.cfg.clock = match r.below(6) {
                    0 => r.below(4_102_444_800) as i64,
                    // Around the end of a day, month, year, or February.
                    1 => {
                        let day = *r.pick(&[59i64, 60, 365, 366, 31, 789, 790, 11015, 11016, 11017, 19722, 19723, 47541, 47542]);
                        day * 86400 + r.below(5) as i64 - 2
                    }
                    2 => {
                        let y = 1970 + r.below(130) as i64;
                        (days_from_civil(y, 3, 1)) * 86400 - r.below(3) as i64
                    }
                    3 => {
                        let y = 1970 + r.below(130) as i64;
                        (days_from_civil(y, 1, 1)) * 86400 - r.below(3) as i64
                    }
                    4 => r.below(253_402_300_799) as i64,
                    _ => T0 + r.below(86400 * 400) as i64,
                };
                v.cfg.tick_ns = *r.pick(&[0, 1, 1_000_000, 1_500_000_000, 86_400_000_000_000, -3_600_000_000_000]);
                if v.cfg.clock < 86400 * 36500 && v.cfg.clock > 86400 * 4000 {
                    v.note = format!("clock {} tick {}", v.cfg.clock, v.cfg.tick_ns);
                } else {
                    v.cfg.tick_ns = v.cfg.tick_ns.max(0);
                }
                w.variants.push(v);
            }
            w.progs.push(prog);
        }
        "C21" => {
            let i = last_save(&prog);
            prog.ops[i] = Op::Save(Via::Path("crash.xlsx".into()));
            for n in 0..2 * k {
                let mut v = base(if n % 2 == 0 { "crash with an ordered prefix of the writes" } else { "crash with a subset of the writes" }, &mut r);
                v.x = vec![n % 2, r.next(), 40];
                w.variants.push(v);
            }
            w.progs.push(prog);
        }
        _ => {
            w.progs.push(prog);
            return crate::facts::prepare(w, &mut r, thorough);
        }
    }
    w
}

// ---------------------------------------------------------------------------
// Oracles
// ---------------------------------------------------------------------------
pub fn plain(v: &Variant) -> Variant {
    Variant { cfg: IoCfg { clock: v.cfg.clock, entropy: v.cfg.entropy, seed: 0, ..IoCfg::default() }, sched: Sched::plain(), ..Variant::default() }
}
/// The program without some of its operations.
pub fn without(p: &Program, skip: &BTreeSet<usize>) -> Program {
    Program { fmts: p.fmts.clone(), ops: p.ops.iter().enumerate().filter(|(i, _)| !skip.contains(i)).map(|(_, o)| o.clone()).collect() }
}
fn sample(w: &World) {
    if info().sample.is_empty() {
        let p = &w.progs[0];
        let ops: Vec<String> = p.ops.iter().take(8).map(|o| format!("{o:?}").chars().take(120).collect()).collect();
        let vs: Vec<String> = w.variants.iter().take(3).map(|v| format!("{} {:?}", v.note, v.sched.mode).chars().take(160).collect()).collect();
        info().sample = format!("seed {}: {} operations: {} ...; executions: {}", w.seed, p.ops.len(), ops.join("; "), vs.join(" | "));
    }
}

pub fn judge(w: &World) -> Res {
    sample(w);
    let p = &w.progs[0];
    if w.variants.is_empty() {
        tally("worlds without a variant", 1);
        return Ok(());
    }
    match w.prop.as_str() {
        "C01" => {
            let b = exec(p, &plain(&w.variants[0]));
            if let Some((i, t)) = has_panic(&b) {
                if matches!(p.ops[i], Op::Save(_)) {
                    return viol(0, "panic", format!("operation {i} {}: {t}", op_text(p, i)));
                }
                tally("program stopped by a panic", 1);
                return Ok(());
            }
            for (i, v) in w.variants.iter().enumerate() {
                let r = exec(p, v);
                if r.stats.switches > 0 && r.stats.tasks > 1 {
                    info().sigs.push(r.sig());
                }
                same(i, p, &b, &r)?;
            }
        }
        "C03" => {
            let b = exec(p, &plain(&w.variants[0]));
            if !b.complete {
                tally("program stopped by a panic", 1);
                return Ok(());
            }
            for (i, v) in w.variants.iter().enumerate() {
                let r = exec(p, v);
                if !r.io.injected.is_empty() {
                    info().sigs.push(r.sig());
                }
                if v.cfg.eintr_dest == 0 {
                    same(i, p, &b, &r)?;
                    continue;
                }
                // An interrupted write to the destination may be reported.
                let mut failed = false;
                for (k, (x, y)) in b.outs.iter().zip(&r.outs).enumerate() {
                    if matches!(p.ops[k], Op::Save(_)) && x.ok() && matches!(y, Out::Err(_)) {
                        tally("interrupted write to the destination reported", 1);
                        failed = true;
                    } else if x != y {
                        return viol(i, "result differs", format!("operation {k} {} gave {} undisturbed but {}", op_text(p, k), x.text(), y.text()));
                    } else if matches!(p.ops[k], Op::Save(_)) && x.ok() {
                        if let Some(d) = unlike(!failed, b.save_at(k), r.save_at(k)) {
                            return viol(i, "file differs", format!("the file saved by operation {k} differs: {d}"));
                        }
                    }
                }
            }
        }
        "C02" => {
            let k = last_save(p);
            let b = exec(p, &plain(&w.variants[0]));
            if !b.complete || !b.outs[k].ok() {
                tally("save fails without faults", 1);
                return Ok(());
            }
            for (i, v) in w.variants.iter().enumerate() {
                let r = exec(p, v);
                if !r.io.injected.is_empty() {
                    info().sigs.push(r.sig());
                }
                match r.outs.get(k) {
                    Some(Out::Ok) => {
                        if r.save_at(k) != b.save_at(k) {
                            let e: Vec<u8> = vec![];
                            return viol(
                                i,
                                "Ok with a damaged file",
                                format!("{}: {} returned Ok, but {}", v.note, op_text(p, k), explain(b.save_at(k).unwrap_or(&e), r.save_at(k).unwrap_or(&e))),
                            );
                        }
                        tally("save Ok despite the fault, file complete", 1);
                    }
                    Some(Out::Err(_)) => tally("save returned Err", 1),
                    Some(Out::Panic(t)) => return viol(i, "panic", format!("{}: {} panicked: {t}", v.note, op_text(p, k))),
                    None => {}
                }
            }
        }
        "C04" => {
            for (i, v) in w.variants.iter().enumerate() {
                let r = exec(p, v);
                let failed: BTreeSet<usize> = r.outs.iter().enumerate().filter(|(k, o)| matches!(p.ops[*k], Op::Save(_)) && !o.ok()).map(|(k, _)| k).collect();
                if let Some((k, t)) = has_panic(&r) {
                    // The library panics where it cannot use its temporary files;
                    // anything else that fails has to come back as an error.
                    let temp = v.arms.iter().any(|(_, c)| c.faults.iter().any(|f| f.role == fs::Role::Temp) || c.quota.iter().any(|q| q.0 == fs::Role::Temp));
                    if matches!(p.ops[k], Op::Save(_)) && !v.arms.is_empty() && !temp {
                        return viol(i, "panic", format!("{}: operation {k} {} panicked: {t}", v.note, op_text(p, k)));
                    }
                    tally("program stopped by a panic", 1);
                    continue;
                }
                if failed.is_empty() {
                    tally("no save failed", 1);
                    continue;
                }
                let q = without(p, &failed);
                let b = exec(&q, &plain(v));
                if b.saves.is_empty() {
                    continue;
                }
                info().sigs.push(r.sig());
                tally("failed saves", failed.len() as u64);
                let mut j = 0;
                for (k, o) in r.outs.iter().enumerate() {
                    if failed.contains(&k) {
                        continue;
                    }
                    if b.outs.get(j) != Some(o) {
                        return viol(
                            i,
                            "result differs after a failed save",
                            format!("{}: operation {k} {} gave {} but {:?} without the failed saves {failed:?}", v.note, op_text(p, k), o.text(), b.outs.get(j)),
                        );
                    }
                    if matches!(p.ops[k], Op::Save(_)) {
                        let exact = (*failed.first().unwrap()..k).all(|x| matches!(p.ops[x], Op::Save(_)));
                        if let Some(d) = unlike(exact, b.save_at(j), r.save_at(k)) {
                            return viol(
                                i,
                                "file differs after a failed save",
                                format!("{}: the file of operation {k}, without and with the failed saves {failed:?} before it: {d}", v.note),
                            );
                        }
                    }
                    j += 1;
                }
            }
        }
        "C05" => {
            let v = &w.variants[0];
            let r = exec(p, v);
            let saves: Vec<usize> = r.outs.iter().enumerate().filter(|(k, _)| matches!(p.ops[*k], Op::Save(_))).map(|(k, _)| k).collect();
            if !r.complete && saves.is_empty() {
                tally("program stopped by a panic", 1);
                return Ok(());
            }
            // Compare the last save, and up to two others after the first.
            let mut todo: Vec<usize> = saves.iter().skip(1).copied().collect();
            while todo.len() > 3 {
                todo.remove(todo.len() / 2);
            }
            for k in todo {
                let skip: BTreeSet<usize> = saves.iter().copied().filter(|s| *s < k).collect();
                let mut q = without(p, &skip);
                q.ops.truncate(k + 1 - skip.len());
                let b = exec(&q, v);
                let kb = k - skip.len();
                if !b.complete && !b.outs.get(kb).is_some_and(|o| o.panic()) {
                    continue;
                }
                info().sigs.push(mix(r.sig(), k as u64));
                if b.outs[kb] != r.outs[k] {
                    return viol(
                        0,
                        "result of the save differs",
                        format!("save at operation {k} gave {} after the saves {skip:?}, but {} without them", r.outs[k].text(), b.outs[kb].text()),
                    );
                }
                let exact = (*skip.first().unwrap()..k).all(|x| matches!(p.ops[x], Op::Save(_)));
                if let Some(d) = unlike(exact, b.save_at(kb), r.save_at(k)) {
                    return viol(0, "file depends on earlier saves", format!("the file of operation {k}, without and with the saves {skip:?} before it: {d}"));
                }
            }
        }
        "C06" => {
            let b = exec(p, &plain(&w.variants[0]));
            if !b.complete {
                tally("program stopped by a panic", 1);
                return Ok(());
            }
            for (i, v) in w.variants.iter().enumerate() {
                let r = exec(p, v);
                if r.io.injected.is_empty() {
                    continue;
                }
                info().sigs.push(r.sig());
                let mut ok = true;
                for (k, o) in r.outs.iter().enumerate() {
                    if let Op::Save(_) = p.ops[k] {
                        match o {
                            Out::Ok => {
                                if let Some(d) = unlike(ok, b.save_at(k), r.save_at(k)) {
                                    return viol(i, "Ok with missing data", format!("{}: save at operation {k} returned Ok, but fault-free and this file: {d}", v.note));
                                }
                            }
                            Out::Err(_) => {
                                tally("surfaced as Err from save", 1);
                                ok = false
                            }
                            Out::Panic(_) => {
                                tally("surfaced as panic in save", 1);
                                ok = false
                            }
                        }
                    } else if *o != b.outs[k] {
                        tally(if o.panic() { "surfaced as panic in a write" } else { "surfaced as Err from a call" }, 1);
                        ok = false;
                        break;
                    }
                }
                if ok {
                    tally("fault without consequence", 1);
                }
            }
        }
        "C15" => {
            let v = &w.variants[0];
            let r = exec(p, v);
            let rejected: BTreeSet<usize> = r.outs.iter().enumerate().filter(|(k, o)| matches!(o, Out::Err(_)) && !matches!(p.ops[*k], Op::Save(_) | Op::Par(_))).map(|(k, _)| k).collect();
            if let Some((k, t)) = has_panic(&r) {
                if matches!(p.ops[k], Op::S(_, SOp::Bad(_)) | Op::BadName { .. } | Op::BadLookup { .. }) {
                    return viol(0, "panic", format!("operation {k} {} panicked: {t}", op_text(p, k)));
                }
                tally("program stopped by a panic", 1);
                return Ok(());
            }
            tally("rejected calls", rejected.len() as u64);
            let q = without(p, &rejected);
            let b = exec(&q, v);
            if !rejected.is_empty() {
                info().sigs.push(r.sig());
            }
            let mut j = 0;
            for (k, o) in r.outs.iter().enumerate() {
                if rejected.contains(&k) {
                    continue;
                }
                let before: Vec<usize> = rejected.iter().copied().filter(|x| *x < k).collect();
                if b.outs.get(j) != Some(o) {
                    return viol(
                        0,
                        "result differs after a rejected call",
                        format!("operation {k} {} gave {} but {:?} without the rejected calls {before:?}", op_text(p, k), o.text(), b.outs.get(j)),
                    );
                }
                if matches!(p.ops[k], Op::Save(_)) && r.save_at(k) != b.save_at(j) {
                    let e: Vec<u8> = vec![];
                    return viol(
                        0,
                        "rejected call changed the file",
                        format!("file without and with the rejected calls {before:?}: {}", explain(b.save_at(j).unwrap_or(&e), r.save_at(k).unwrap_or(&e))),
                    );
                }
                j += 1;
            }
        }
        "C16" => return media_judge(w),
        "C17" => {
            for (i, v) in w.variants.iter().enumerate() {
                let r = exec(p, v);
                info().sigs.push(r.sig());
                if r.end_fds != 0 {
                    return viol(i, "open handle left", format!("{}: {} file handles are still open after the workbook was dropped", v.note, r.end_fds));
                }
                if let Some(e) = r.io.escapes.first() {
                    return viol(i, "file elsewhere", format!("{}: the library tried to create or remove {e}", v.note));
                }
                let mut ok: BTreeSet<String> = BTreeSet::new();
                for o in &p.ops {
                    if let Op::Save(Via::Path(n) | Via::File(n)) = o {
                        ok.insert(format!("/simfs/out/{n}"));
                    }
                }
                for f in &r.left {
                    if !ok.contains(f) && !f.starts_with("/simfs/media/") {
                        return viol(i, "file left", format!("{}: {f} is left after the workbook was dropped", v.note));
                    }
                }
                // Where were temporary files created?
                let mut dir = "/simfs/tmp".to_string();
                for (k, o) in r.outs.iter().enumerate() {
                    let (a, z) = (r.temp_marks[k], r.temp_marks[k + 1]);
                    let want = match &p.ops[k] {
                        Op::TempDir(d) => d.clone(),
                        Op::Add { kind: Kind::Std | Kind::Chart, how, .. } if *how != 0 => "/simfs/tmp".into(),
                        _ => dir.clone(),
                    };
                    for t in &r.io.temp_opens[a..z] {
                        if !(*t == want || t.starts_with(&format!("{want}/"))) {
                            return viol(i, "wrong temporary directory", format!("{}: operation {k} {} created a temporary file in {t} instead of {want}", v.note, op_text(p, k)));
                        }
                    }
                    if v.cfg.no_default_tmp && v.cfg.faults.is_empty() && !o.ok() && matches!(p.ops[k], Op::Add { .. }) {
                        return viol(i, "default directory needed", format!("{}: operation {k} {}: {}", v.note, op_text(p, k), o.text()));
                    }
                    if let Op::TempDir(d) = &p.ops[k] {
                        if o.ok() {
                            dir = d.clone();
                        }
                    }
                }
            }
        }
        "C18" => {
            let mut q = p.clone();
            q.ops.push(Op::Save(Via::Buffer));
            let b = exec(&q, &plain(&w.variants[0]));
            if !b.complete || !b.outs.last().unwrap().ok() {
                tally("save fails without faults", 1);
                return Ok(());
            }
            let want = b.last().unwrap();
            let long = vec![0x5Au8; want.len() + 5000];
            for (i, v) in w.variants.iter().enumerate() {
                let groups: Vec<Vec<Via>> = if v.x[0] == 0 { v.vias.iter().map(|x| vec![x.clone()]).collect() } else { vec![v.vias.clone()] };
                for g in groups {
                    let mut q = p.clone();
                    q.ops.extend(g.iter().map(|x| Op::Save(x.clone())));
                    let r = exec_with(&q, v, |f| {
                        for x in &g {
                            if let Via::Path(n) | Via::File(n) = x {
                                f.put(&format!("/simfs/out/{n}"), &long);
                            }
                        }
                    });
                    info().sigs.push(r.sig());
                    for (j, x) in g.iter().enumerate() {
                        let k = p.ops.len() + j;
                        if r.outs.get(k) != Some(&Out::Ok) {
                            return viol(i, "save fails", format!("{x:?} (number {j} of {g:?}) gave {:?}, save_to_buffer is Ok", r.outs.get(k)));
                        }
                        if r.save_at(k) != Some(want) {
                            let e: Vec<u8> = vec![];
                            return viol(i, "file differs", format!("save_to_buffer and {x:?} (number {j} of {g:?}): {}", explain(want, r.save_at(k).unwrap_or(&e))));
                        }
                    }
                }
            }
        }
        "C19" => return isolation(w),
        "C20" => return clock(w),
        "C21" => return crash(w),
        _ => return crate::facts::judge(w),
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C19
// ---------------------------------------------------------------------------
fn isolation(w: &World) -> Res {
    let mut alone = vec![];
    for p in &w.progs {
        let b = exec(p, &plain(&w.variants[0]));
        alone.push(b);
    }
    for (i, v) in w.variants.iter().enumerate() {
        fs::Fs::reset(&v.cfg);
        for p in &w.progs {
            exec::put_media(p);
        }
        let mut res: Vec<(Vec<Out>, Vec<(usize, Option<Vec<u8>>)>)> = vec![];
        let rr = &mut res;
        let stats = core::run(&v.sched, MAX_STEPS, || {
            if v.x[0] == 0 {
                let hs: Vec<_> = w
                    .progs
                    .iter()
                    .map(|p| {
                        let p = p.clone();
                        std::thread::spawn(move || {
                            let mut x = Exec::new(&p);
                            x.run(&p.ops);
                            (x.outs.clone(), x.saves.clone())
                        })
                    })
                    .collect();
                for h in hs {
                    let o = h.join().unwrap_or_default();
                    core::busy(|| rr.push(o));
                }
            } else {
                let mut r = Rng::new(v.x[1]);
                let mut xs: Vec<(Exec, usize)> = w.progs.iter().map(|p| (Exec::new(p), 0)).collect();
                loop {
                    let live: Vec<usize> = (0..xs.len()).filter(|k| xs[*k].1 < w.progs[*k].ops.len()).collect();
                    if live.is_empty() {
                        break;
                    }
                    let k = *r.pick(&live);
                    let o = xs[k].1;
                    if xs[k].0.step(&w.progs[k].ops[o]).panic() {
                        xs[k].1 = usize::MAX;
                    } else {
                        xs[k].1 += 1;
                    }
                }
                for (x, _) in &xs {
                    core::busy(|| rr.push((x.outs.clone(), x.saves.clone())));
                }
            }
        });
        let io = fs::fs().stats.clone();
        account(&stats, &io);
        info().sigs.push(mix(stats.trace_hash, stats.sched_hash));
        for (k, (o, s)) in res.into_iter().enumerate() {
            let r = Run { outs: o, saves: s, ..Run::default() };
            same(i, &w.progs[k], &alone[k], &r).map_err(|mut e| {
                e.msg = format!("workbook {k} of {}, {}: {}", w.progs.len(), v.note, e.msg);
                e
            })?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C20
// ---------------------------------------------------------------------------
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn parse_iso(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() != 20 || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' || b[19] != b'Z' {
        return None;
    }
    let n = |r: std::ops::Range<usize>| s.get(r)?.parse::<i64>().ok();
    let (y, mo, d, h, mi, se) = (n(0..4)?, n(5..7)?, n(8..10)?, n(11..13)?, n(14..16)?, n(17..19)?);
    let len = match mo {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => return None,
    };
    if d < 1 || d > len || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    Some(days_from_civil(y, mo, d) * 86400 + h * 3600 + mi * 60 + se)
}
/// Entries of the container with everything a clock could influence, the
/// creation time replaced by a mark, and its text.
fn masked(b: &[u8]) -> Result<(Vec<(String, Vec<u8>, u16)>, Vec<String>, Vec<u8>), String> {
    let es = pkg::read_zip(b)?;
    let mut times = vec![];
    let mut v = vec![];
    for e in es {
        let mut data = e.data;
        if e.name == "docProps/core.xml" {
            let mut s = String::from_utf8(data).map_err(|e| e.to_string())?;
            for tag in ["created", "modified"] {
                let open = format!("<dcterms:{tag} xsi:type=\"dcterms:W3CDTF\">");
                let a = s.find(&open).ok_or(format!("no {tag} time"))? + open.len();
                let z = a + s[a..].find('<').ok_or("no end")?;
                times.push(s[a..z].to_string());
                s.replace_range(a..z, "TIME");
            }
            data = s.into_bytes();
        }
        v.push((e.name, data, e.method));
    }
    // The dates and times in the headers of the container.
    let mut stamps = vec![];
    let mut i = 0;
    while i + 46 <= b.len() {
        if &b[i..i + 4] == b"PK\x01\x02" {
            stamps.extend_from_slice(&b[i + 12..i + 16]);
            i += 46;
        } else {
            i += 1;
        }
    }
    Ok((v, times, stamps))
}
fn clock(w: &World) -> Res {
    let p = &w.progs[0];
    let mut q = p.clone();
    q.ops.retain(|o| !matches!(o, Op::Jump(_)));
    let b = exec(&q, &Variant { cfg: cfg0(w.variants[0].cfg.entropy), sched: Sched::plain(), ..Variant::default() });
    for (i, v) in w.variants.iter().enumerate() {
        let r = exec(p, v);
        info().sigs.push(mix(r.sig(), v.cfg.clock as u64));
        let mut span: (i128, i128) = (r.clocks[0], r.clocks[0]);
        // The workbook was made before the first operation.
        span.0 = (v.cfg.clock as i128) * 1_000_000_000;
        let mut fixed: Option<i64> = None;
        let mut nb = 0;
        for (k, o) in r.outs.iter().enumerate() {
            match &p.ops[k] {
                Op::Jump(_) => continue,
                Op::Props { created, .. } => {
                    span = (r.clocks[k], r.clocks[k + 1]);
                    fixed = created.map(|(y, m, d)| days_from_civil(y as i64, m as i64, d as i64) * 86400);
                }
                _ => {}
            }
            if b.outs.get(nb) != Some(o) {
                return viol(i, "result depends on the clock", format!("{}: operation {k} {} gave {}, {:?} at another time", v.note, op_text(p, k), o.text(), b.outs.get(nb)));
            }
            if matches!(p.ops[k], Op::Save(_)) && o.ok() {
                let e: Vec<u8> = vec![];
                let (x, y) = (b.save_at(nb).unwrap_or(&e), r.save_at(k).unwrap_or(&e));
                let (ma, mb) = match (masked(x), masked(y)) {
                    (Ok(a), Ok(b)) => (a, b),
                    (Err(m), _) | (_, Err(m)) => return viol(i, "unreadable", format!("{}: {m}", v.note)),
                };
                if ma.0 != mb.0 || ma.2 != mb.2 {
                    let what = ma.0.iter().zip(&mb.0).find(|(a, b)| a != b).map(|(a, _)| a.0.clone()).unwrap_or("container".into());
                    return viol(i, "bytes depend on the clock", format!("{}: {what} depends on the clock", v.note));
                }
                for t in &mb.1 {
                    let Some(s) = parse_iso(t) else {
                        return viol(i, "invalid time", format!("{}: the creation time {t:?} is not a valid ISO 8601 UTC time", v.note));
                    };
                    match fixed {
                        Some(f) => {
                            if s != f {
                                return viol(i, "wrong time", format!("{}: the creation time is {t} but {f} was set", v.note));
                            }
                        }
                        None => {
                            let (lo, hi) = (span.0.min(span.1).div_euclid(1_000_000_000), span.0.max(span.1).div_euclid(1_000_000_000));
                            if (s as i128) < lo || (s as i128) > hi {
                                return viol(i, "wrong time", format!("{}: the creation time is {t} ({s}) but the properties were created between {lo} and {hi}", v.note));
                            }
                        }
                    }
                }
            }
            nb += 1;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C21
// ---------------------------------------------------------------------------
fn crash(w: &World) -> Res {
    let p = &w.progs[0];
    let k = last_save(p);
    for (i, v) in w.variants.iter().enumerate() {
        let r = exec_with(p, &Variant { x: vec![], ..v.clone() }, |f| f.log = Some(vec![]));
        if !r.complete || !r.outs[k].ok() {
            tally("save fails without faults", 1);
            return Ok(());
        }
        let full = r.save_at(k).unwrap().clone();
        let log = fs::fs().log.take().unwrap_or_default();
        let good: Vec<(String, Vec<u8>)> = match pkg::read_zip(&full) {
            Ok(e) => e.into_iter().map(|e| (e.name, e.data)).collect(),
            Err(e) => return viol(i, "unreadable", e),
        };
        let mut g = Rng::new(v.x[1]);
        for _ in 0..v.x[2] {
            let mut img: Vec<u8> = vec![];
            let apply = |img: &mut Vec<u8>, off: u64, d: &[u8]| {
                let e = off as usize + d.len();
                if img.len() < e {
                    img.resize(e, 0);
                }
                img[off as usize..e].copy_from_slice(d);
            };
            let what;
            let n = log.len();
            if v.x[0] == 0 {
                // All writes before a point, and a part of the one in progress.
                let c = if g.chance(1, 2) { n.saturating_sub(1 + g.below(12) as usize) } else { g.below(n as u64) as usize };
                for l in &log[..c] {
                    apply(&mut img, l.off, &l.data);
                }
                let torn = g.below(log[c].data.len() as u64 + 1) as usize;
                apply(&mut img, log[c].off, &log[c].data[..torn]);
                what = format!("after {c} of {n} writes and {torn} bytes of the next");
            } else {
                // Any subset of the writes before a point survived.
                let c = if g.chance(2, 3) { n } else { 1 + g.below(n as u64) as usize };
                let lost = 1 + g.below(3);
                let drop: BTreeSet<usize> = if g.chance(3, 4) {
                    (0..lost).map(|_| g.below(c as u64) as usize).collect()
                } else {
                    (0..c).filter(|_| g.chance(1, 3)).collect()
                };
                for (m, l) in log[..c].iter().enumerate() {
                    if !drop.contains(&m) {
                        apply(&mut img, l.off, &l.data);
                    }
                }
                what = format!("{c} of {n} writes issued, lost {:?}", drop.iter().take(10).collect::<Vec<_>>());
            }
            *info().injected.entry(if v.x[0] == 0 { "crash at a write".into() } else { "crash with lost writes".into() }).or_insert(0) += 1;
            info().sigs.push(hash_bytes(&img));
            if img == full {
                tally("complete file after the crash", 1);
                continue;
            }
            match pkg::read_zip(&img) {
                Err(_) => tally("recognisably damaged", 1),
                Ok(e) => {
                    let got: Vec<(String, Vec<u8>)> = e.into_iter().map(|e| (e.name, e.data)).collect();
                    if got != good {
                        let d: Vec<String> = got.iter().zip(&good).filter(|(a, b)| a != b).map(|(a, b)| format!("{} {} / {} {} bytes", a.0, a.1.len(), b.0, b.1.len())).take(3).collect();
                        return viol(i, "damaged file reads as complete", format!("{what}: the file reads as a valid package with {} of {} parts, different {d:?}", got.len(), good.len()));
                    }
                    tally("other bytes, same content", 1);
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------
// C16
// ---------------------------------------------------------------------------
/// Mutations of a media file, as numbers: [what, mode, params...].
/// what: 0..3 image type, 4 vba. mode: 0 unchanged, 1 truncate at x, 2 set byte
/// x to y, 3 truncate and set, 4 random bytes of length x and seed y with the
/// magic number, 5 several bytes, 6 file missing, 7 insert bytes, 8 32 bit
/// field.
fn media_bytes(x: &[u64]) -> Option<Vec<u8>> {
    let mut b = if x[0] < 4 {
        exec::img_bytes(&Img { id: 1 + (x[2] % 5) as u32, ty: x[0] as u8, w: 40, h: 30, alt: None, decorative: false, url: None, tip: None, from_file: false, mov: 0, scale: 0 })
    } else {
        exec::vba_bytes()
    };
    let n = b.len() as u64;
    let at = |v: u64| (v % n.max(1)) as usize;
    match x[1] {
        0 => {}
        1 => b.truncate(x[3] as usize),
        2 => b[at(x[3])] = x[4] as u8,
        3 => {
            b[at(x[3])] = x[4] as u8;
            b.truncate(x[5] as usize);
        }
        4 => {
            let mut g = Rng::new(x[4]);
            let magic: Vec<u8> = b[..(x[5] as usize).min(b.len())].to_vec();
            b = (0..x[3]).map(|_| g.next() as u8).collect();
            for (i, m) in magic.iter().enumerate() {
                if i < b.len() {
                    b[i] = *m;
                }
            }
        }
        5 => {
            let mut g = Rng::new(x[4]);
            for _ in 0..x[3] {
                let i = g.below(n.min(200)) as usize;
                b[i] = *g.pick(&[0u8, 0xFF, 0x7F, 0x80, 1]);
            }
        }
        6 => return None,
        7 => {
            let mut g = Rng::new(x[4]);
            let i = at(x[3]);
            let extra: Vec<u8> = (0..1 + g.below(20)).map(|_| *g.pick(&[0u8, 0xFF, 0xD8, 0xE0, 0xC0, 0x41])).collect();
            b.splice(i..i, extra);
        }
        _ => {
            let i = at(x[3]).min(n as usize - 4);
            b[i..i + 4].copy_from_slice(&(x[4] as u32).to_be_bytes());
        }
    }
    Some(b)
}
fn media_world(mut w: World, r: &mut Rng, thorough: bool) -> World {
    w.progs.push(Program::default());
    for _ in 0..if thorough { 60 } else { 30 } {
        let what = r.below(5);
        let id = r.below(5);
        let n = media_bytes(&[what, 0, id]).unwrap().len() as u64;
        let hd = n.min(120);
        let mut x = vec![what, 0, id];
        match r.below(12) {
            0 => {}
            1 | 2 => {
                let m = if r.chance(1, 2) { hd } else { n };
                x.push(r.below(m))
            }
            3 | 4 => x.extend([if r.chance(3, 4) { r.below(hd) } else { r.below(n) }, *r.pick(&[0, 1, 0x7F, 0x80, 0xFF, 0xD8, 0xC0, 0xD9])]),
            5 => x.extend([r.below(hd), *r.pick(&[0, 1, 0x80, 0xFF]), r.below(hd)]),
            6 => x.extend([r.below(200), r.next(), r.below(40)]),
            7 => x.extend([1 + r.below(6), r.next()]),
            8 => {}
            9 => x.extend([r.below(hd), r.next()]),
            _ => x.extend([r.below(hd), *r.pick(&[0, 0xFFFF_FFFF, 0x7FFF_FFFF, 0x8000_0000, 1, 0xFFFF, 0x10000])]),
        }
        x[1] = match x.len() {
            3 => {
                if r.chance(1, 3) {
                    6
                } else {
                    0
                }
            }
            4 => 1,
            _ => 0,
        };
        if x.len() == 5 {
            x[1] = *r.pick(&[2, 2, 5, 7, 8, 8]);
            if x[1] == 5 {
                x[3] = 1 + x[3] % 6;
            }
        } else if x.len() == 6 {
            x[1] = if r.chance(1, 2) { 3 } else { 4 };
        }
        let mut v = Variant { note: format!("media {x:?}"), cfg: cfg0(r.next()), sched: Sched::plain(), x, ..Variant::default() };
        match r.below(6) {
            0 => {
                let op = *r.pick(&[FOp::Open, FOp::Read]);
                v.cfg.faults.push(Fault { role: Role::Media, op, at: if op == FOp::Read { r.below(3) } else { 0 }, n: 1 << 40, act: Act::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::ESTALE, libc::EISDIR])) });
            }
            1 => {
                v.cfg.dribble.push((Role::Media, *r.pick(&[1, 5, 50])));
                v.cfg.eintr = *r.pick(&[0, 100]);
            }
            _ => {}
        }
        // Through a buffer instead of a file.
        if v.cfg.faults.is_empty() && v.x[1] != 6 && v.x[0] < 4 && r.chance(1, 4) {
            v.note.push_str(" from a buffer");
            v.vias.push(Via::Buffer);
        }
        w.variants.push(v);
    }
    w
}
fn media_judge(w: &World) -> Res {
    use rust_xlsxwriter::{Image, Workbook};
    for (i, v) in w.variants.iter().enumerate() {
        fs::Fs::reset(&v.cfg);
        let path = if v.x[0] < 4 { format!("/simfs/media/m.{}", exec::img_ext(v.x[0] as u8)) } else { "/simfs/media/p.bin".into() };
        let data = media_bytes(&v.x);
        if let Some(d) = &data {
            fs::fs().put(&path, d);
        }
        let mut load = Out::Ok;
        let mut out = Out::Ok;
        let mut file: Option<Vec<u8>> = None;
        let stats = core::run(&v.sched, 200_000_000, || {
            let mut wb = Workbook::new();
            if v.x[0] < 4 {
                let mut img = None;
                load = exec::guard(|| {
                    img = Some(if v.vias.is_empty() { Image::new(&path)? } else { Image::new_from_buffer(data.as_ref().unwrap())? });
                    Ok(())
                });
                if let Some(img) = img {
                    out = exec::guard(|| {
                        let ws = wb.add_worksheet();
                        match v.x[2] % 4 {
                            0 => ws.insert_image(1, 1, &img)?,
                            1 => ws.embed_image(1, 1, &img)?,
                            2 => ws.insert_background_image(&img),
                            _ => ws.insert_image_fit_to_cell(2, 2, &img, true)?,
                        };
                        let b = wb.save_to_buffer()?;
                        core::busy(|| file = Some(b));
                        Ok(())
                    });
                }
            } else {
                load = exec::guard(|| if v.x[2] % 2 == 0 { wb.add_vba_project(&path).map(|_| ()) } else { wb.add_vba_project_with_signature(&path, &path).map(|_| ()) });
                if load.ok() {
                    out = exec::guard(|| {
                        wb.add_worksheet().write(0, 0, 1)?;
                        let b = wb.save_to_buffer()?;
                        core::busy(|| file = Some(b));
                        Ok(())
                    });
                }
            }
        });
        let io = fs::fs().stats.clone();
        account(&stats, &io);
        info().sigs.push(mix(hash_bytes(data.as_deref().unwrap_or(b"none")), io.injected.len() as u64));
        let hard = io.injected.keys().any(|k| k.starts_with("Media") && !k.ends_with("EINTR") && !k.ends_with("short"));
        match &load {
            Out::Panic(t) => return viol(i, "panic while loading", format!("{}: {t}", v.note)),
            Out::Ok if hard => return viol(i, "read error ignored", format!("{}: reading failed ({:?}) but the file was accepted", v.note, io.injected)),
            Out::Ok if data.is_none() => return viol(i, "missing file accepted", v.note.clone()),
            Out::Err(_) if v.x[1] == 0 && !hard => return viol(i, "good file rejected", format!("{}: {}", v.note, load.text())),
            _ => {}
        }
        tally(if load.ok() { "media accepted" } else { "media rejected" }, 1);
        if !load.ok() {
            continue;
        }
        match &out {
            Out::Panic(t) => return viol(i, "panic while saving", format!("{}: {t}", v.note)),
            Out::Err(_) => {
                tally("save rejected the media", 1);
                continue;
            }
            Out::Ok => {}
        }
        let d = data.unwrap();
        let b = file.unwrap_or_default();
        let p = match Pkg::read(&b) {
            Ok(p) => p,
            Err(e) => return viol(i, "unreadable", format!("{}: {e}", v.note)),
        };
        let found = p.parts.iter().any(|(n, c)| (n.starts_with("xl/media/") || n == "xl/vbaProject.bin") && *c == d);
        if !found {
            return viol(i, "stored bytes differ", format!("{}: no part of the file holds exactly the {} bytes that were read", v.note, d.len()));
        }
        if let Some(e) = pkg::integrity(&p).first() {
            return viol(i, "inconsistent package", format!("{}: {e}", v.note));
        }
    }
    Ok(())
}
