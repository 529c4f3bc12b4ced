#![allow(invalid_runtime_symbol_definitions, dead_code)]
mod book;
mod core;
mod decode;
mod model;
mod objects;
mod driver;
mod exec;
mod facts;
mod fs;
mod gen;
mod judge;
mod pkg;
mod ranges;
mod spec;

/// Development: run generated programs and count what was unexpected.
/// The distinct violations of many worlds.
fn survey(prop: &str, n: u64) {
    let mut outs = std::collections::BTreeMap::<String, (u64, u64, String)>::new();
    for seed in 0..n {
        let w = judge::prepare(prop, seed, false);
        if let Err(v) = judge::judge(&w) {
            let t: String = format!("{} {}", v.kind, v.msg).chars().filter(|c| !c.is_ascii_digit()).take(140).collect();
            let key = t.split("expected:").last().unwrap_or("").to_string();
            outs.entry(key).or_insert((0, seed, v.msg.clone())).0 += 1;
        }
    }
    let mut v: Vec<_> = outs.into_values().collect();
    v.sort_by_key(|x| std::cmp::Reverse(x.0));
    let total: u64 = v.iter().map(|x| x.0).sum();
    println!("{total} of {n} worlds violate");
    for (k, seed, m) in v.iter().take(25) {
        println!("{k} (first seed {seed}) {m}");
    }
}
fn tune(n: u64, bad: bool) {
    let mut outs = std::collections::BTreeMap::<String, (u64, u64)>::new();
    let strip = |s: String| -> String { s.chars().filter(|c| !c.is_ascii_digit()).take(170).collect() };
    let mut ok = 0;
    for seed in 0..n {
        let mut pr = gen::Prof::all();
        if bad {
            pr.w.bad = 30;
        }
        let p = gen::generate(seed, &pr);
        let r = judge::exec(&p, &judge::Variant { cfg: judge::cfg0(seed), sched: core::Sched::plain(), ..Default::default() });
        for (i, o) in r.outs.iter().enumerate() {
            if let spec::Op::S(_, spec::SOp::Bad(b)) = &p.ops[i] {
                if o.ok() {
                    outs.entry(strip(format!("{b:?} accepted"))).or_insert((0, seed)).0 += 1;
                }
            } else if !o.ok() {
                outs.entry(strip(format!("{} :: {:?}", o.text(), p.ops[i]))).or_insert((0, seed)).0 += 1;
            }
        }
        for (_, b) in &r.saves {
            let Some(b) = b else { continue };
            match pkg::Pkg::read(b) {
                Err(e) => outs.entry(strip(format!("READ {e}"))).or_insert((0, seed)).0 += 1,
                Ok(k) => {
                    ok += 1;
                    for x in pkg::integrity(&k) {
                        outs.entry(strip(format!("INT {x}"))).or_insert((0, seed)).0 += 1;
                    }
                }
            }
        }
    }
    for (k, v) in &outs {
        println!("{:5} seed {} {}", v.0, v.1, k);
    }
    println!("{ok} ok of {n}");
}

fn main() {
    std::env::set_var("TMPDIR", "/simfs/tmp");
    core::init_process();
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let seed = arg("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&arg("--property").expect("--property"), tier == "thorough", seed, arg("--worlds").and_then(|s| s.parse().ok())),
        Some("replay") => driver::replay(&a[2]),
        Some("one") => driver::one(&a[2], a[3].parse().unwrap(), tier == "thorough", a.len() > 4),
        Some("survey") => {
            survey(&a[2], a[3].parse().unwrap());
            0
        }
        Some("tune") => {
            tune(a[2].parse().unwrap(), a.len() > 3);
            0
        }
        _ => {
            eprintln!("usage: dst check --property ID [--tier quick|thorough] [--seed N] [--worlds N] | replay FILE | one ID SEED [show] | tune N [bad]");
            2
        }
    };
    core::exit_group(code);
}
