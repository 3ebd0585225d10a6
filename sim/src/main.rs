#![allow(clippy::all)]
#![allow(dead_code)]
use simcore::*;
use case::*;
use mem::*;
use run::*;
use std::collections::BTreeMap;

fn explore(kind: &str, seed: u64, n: u64, only: &str) {
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut shown: BTreeMap<String, Case> = BTreeMap::new();
    for i in 0..n {
        let mut r = rng::Rng::new(rng::mix(seed) ^ rng::mix(i));
        let c = match props::PROPS.iter().find(|p| p.id == kind) {
            Some(p) => p.draw(&mut r).1,
            None => panic!("no such property"),
        };
        let mut info = Info::default();
        if std::env::var("V").is_ok() { std::fs::write("/tmp/last_case", c.text()).unwrap(); }
        let fs = judge_case(&c, &mut info);
        *cnt.entry(if info.skipped { "skipped".into() } else { format!("end {}", info.end) }).or_default() += 1;
        for f in fs {
            *cnt.entry(format!("FAIL {}", f.aspect)).or_default() += 1;
            if !only.is_empty() && f.aspect != only {
                continue;
            }
            if shown.len() >= 40 {
                continue;
            }
            let small = minimise(
                c.clone(),
                &mut |k| {
                    let mut i = Info::default();
                    judge_case(k, &mut i).iter().any(|x| x.aspect == f.aspect)
                },
                3000,
            );
            let mut ops = vec![];
            for p in &small.parts { if let Some(g) = &p.g { g.ops(&mut ops) } }
            ops.sort();
            ops.dedup();
            shown.entry(format!("{} {:?}", f.aspect, ops)).or_insert(small);
        }
    }
    println!("{:#?}", cnt);
    let mut v: Vec<_> = shown.into_iter().collect();
    v.sort_by_key(|(_, c)| c.size());
    for (k, c) in v {
        let mut i = Info::default();
        println!("--- {}\n{}", k, c.text());
        for f in judge_case(&c, &mut i) {
            println!("    {}: {}", f.aspect, f.detail);
        }
    }
}
fn main() {
    inst_b0::set();
    inst_b1::set();
    inst_b2::set();
    inst_b3::set();
    inst_s0::set();
    inst_s1::set();
    inst_s2::set();
    inst_s3::set();
    inst_lb::set();
    inst_lc::set();
    inst_zb0::set();
    inst_zb2::set();
    inst_zs2::set();
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::thread::current().name() == Some("main") {
            eprintln!("{}", i)
        }
    }));
    let usage = || -> ! {
        eprintln!("sim check <property> [quick|thorough] [runs] | sim replay <file> | sim list | sim explore <property> <seed> <runs> [aspect]");
        std::process::exit(2)
    };
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() > 2 => {
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let runs = a.get(4).and_then(|s| s.parse().ok());
            std::process::exit(if sup::is_child() || !props::PROPS.iter().any(|p| p.id == a[2]) { check(&a[2], &tier, env_seed, runs) } else { sup::check(&a[1..], &a[2], env_seed) })
        }
        Some("replay") if a.len() > 2 => std::process::exit(if sup::is_child() { replay(std::path::Path::new(&a[2])) } else { sup::replay(&a[2]) }),
        Some("list") => props::PROPS.iter().for_each(|p| println!("{} {} {}", p.id, p.quick, p.thorough)),
        Some("genzoo") => genzoo::main(a.get(2).map(|s| s.as_str()) == Some("text")),
        Some("explore") if a.len() > 4 => {
            let b = a.clone();
            std::thread::Builder::new().stack_size(256 << 20).spawn(move || explore(&b[2], b[3].parse().unwrap(), b[4].parse().unwrap(), b.get(5).map(|s| s.as_str()).unwrap_or(""))).unwrap().join().unwrap();
        }
        _ => usage(),
    }
}
