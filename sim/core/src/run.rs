//! Running a property's simulations: sharding, known findings, minimisation, replay files, evidence.
use crate::ast::Op;
use crate::case::*;
use crate::mem::{Fail, Info, STREAMS};
use crate::props::{Prop, PROPS};
use crate::rng::{fnv, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn judge_case(c: &Case, info: &mut Info) -> Vec<Fail> {
    if c.parts.iter().any(|p| p.g.as_ref().map_or(false, |g| remade_factory(g, remade(c)))) {
        let mut d = c.clone();
        for g in d.parts.iter_mut().filter_map(|p| p.g.as_mut()) {
            one_factory(g, remade(c))
        }
        return judge_case(&d, info);
    }
    match c.kind.as_str() {
        "mem" => crate::mem::judge(c, info),
        "dec" => crate::dec::judge(c, info),
        "bufr" => crate::bufr::judge(c, info),
        "codec" => crate::codec::judge(c, info),
        "look" => crate::look::judge(c, info),
        _ => vec![],
    }
}
/// A parser that is built anew for every call asks a factory inside it again, at another position; one that serves two
/// sessions in turn keeps the parser built for one of them. Such factories only ever build one parser.
fn remade(c: &Case) -> bool {
    c.o("rebuild") > 0 || c.o("guest") == 2
}
fn one_factory(g: &mut crate::ast::Node, remade: bool) {
    use crate::ast::Op::*;
    let remade = remade || matches!(g.op, Lazy | ThenPartial | ParserM | Iterate);
    if g.op == Factory2 && remade {
        g.op = Factory;
        g.kids.truncate(1);
    }
    g.kids.iter_mut().for_each(|k| one_factory(k, remade))
}
fn remade_factory(g: &crate::ast::Node, remade: bool) -> bool {
    use crate::ast::Op::*;
    let remade = remade || matches!(g.op, Lazy | ThenPartial | ParserM | Iterate);
    g.op == Factory2 && remade || g.kids.iter().any(|k| remade_factory(k, remade))
}
pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

/// Lines "known: property=C15 id=errpos-resumed-conversion <what fails>".
pub fn known_findings(prop: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut w = r.splitn(3, ' ');
                let p = w.next().unwrap_or("").trim_start_matches("property=");
                let id = w.next().unwrap_or("").trim_start_matches("id=");
                if p == prop {
                    out.insert(format!("known:{}", id), w.next().unwrap_or("").to_string());
                }
            }
        }
    }
    out
}

#[derive(Default)]
struct Stats {
    runs: u64,
    skipped: u64,
    nontrivial: u64,
    msgs: u64,
    calls: u64,
    nones: u64,
    work: u64,
    faults: BTreeMap<&'static str, u64>,
    ends: BTreeMap<String, u64>,
    gens: BTreeMap<&'static str, u64>,
    streams: BTreeMap<&'static str, u64>,
    flavs: BTreeMap<String, u64>,
    ops: BTreeMap<Op, u64>,
    hashes: HashSet<u64>,
    grammars: HashSet<u64>,
    scheds: HashSet<u64>,
    known: BTreeMap<String, (u64, u64)>,
    samples: Vec<(u64, String)>,
    replayed: u64,
}
impl Stats {
    fn add(&mut self, o: Stats) {
        self.runs += o.runs;
        self.skipped += o.skipped;
        self.nontrivial += o.nontrivial;
        self.msgs += o.msgs;
        self.calls += o.calls;
        self.nones += o.nones;
        self.work += o.work;
        self.replayed += o.replayed;
        macro_rules! m {
            ($($f:ident)*) => { $(for (k, v) in o.$f { *self.$f.entry(k).or_default() += v })* };
        }
        m!(faults ends gens streams flavs ops);
        for (k, (n, i)) in o.known {
            let e = self.known.entry(k).or_insert((0, i));
            e.0 += n;
            e.1 = e.1.min(i);
        }
        self.hashes.extend(o.hashes);
        self.grammars.extend(o.grammars);
        self.scheds.extend(o.scheds);
        self.samples.extend(o.samples);
    }
}
pub const HASH_CAP: usize = 4_000_000;

fn flav_name(c: &Case, p: &Part) -> String {
    match c.kind.as_str() {
        "dec" => crate::dec::FLAVOURS[p.flav as usize % 10].to_string(),
        "codec" => ["FramedRead", "codec by hand"][p.flav as usize % 2].to_string(),
        "look" => ["buffered(position(read))", "buffered(easy(position(read)))", "buffered(position(iterator))", "buffered(easy(position(iterator)))", "buffered(easy(position(fed bytes)))", "buffered(easy(position(fed chars)))"][p.flav as usize % 6].to_string(),
        "bufr" => crate::bufr::FLAVOURS[p.flav as usize % 4].to_string(),
        _ => "in-memory decode".into(),
    }
}

pub fn seed_of(seed: u64, prop: &str, i: u64) -> Rng {
    Rng::new(mix(seed ^ fnv(11, prop.as_bytes())) ^ mix(i.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
}

fn replay_text(prop: &str, seed: u64, idx: u64, f: &Fail, c: &Case) -> String {
    format!("# replay with: /verif/run.sh replay <this file>\nproperty {}\nseed {}\nrun {}\naspect {}\ndetail {}\n{}", prop, seed, idx, f.aspect, f.detail.replace('\n', " "), c.text())
}

/// The relevant failures of a case.
fn fails_of(prop: &Prop, c: &Case, known: &BTreeMap<String, String>, info: &mut Info) -> Vec<Fail> {
    let mut fs = judge_case(c, info);
    fs.retain(|f| prop.aspects.contains(&f.aspect) && !known.contains_key(f.aspect));
    fs
}

pub fn check(id: &str, tier: &str, seed: u64, only_runs: Option<u64>) -> i32 {
    let prop = match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no property {}", id);
            return 2;
        }
    };
    let total = only_runs.unwrap_or(if tier == "thorough" { prop.thorough } else { prop.quick });
    let known = Arc::new(known_findings(id));
    let start = Instant::now();
    // (a machine that is far too slow gets fewer runs, the same ones in the same order)
    let limit = Duration::from_secs(if tier == "thorough" { 3 * 3600 } else { 400 });
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) as u64;
    let first_bad = Arc::new(AtomicU64::new(u64::MAX));
    let nondet = Arc::new(Mutex::new(None::<String>));
    // what each worker is busy with, for the watchdog
    let slots: Arc<Vec<Mutex<(u64, Option<(Instant, Case)>)>>> = Arc::new((0..threads).map(|_| Mutex::new((0, None))).collect());
    let next = Arc::new(AtomicU64::new(0));
    const BLOCK: u64 = 256;
    let mut hs = vec![];
    for w in 0..threads {
        let (known, first_bad, nondet, slots, next) = (known.clone(), first_bad.clone(), nondet.clone(), slots.clone(), next.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut st = Stats::default();
                    loop {
                        let b = next.fetch_add(BLOCK, SeqCst);
                        if b >= total || b > first_bad.load(SeqCst) || start.elapsed() > limit {
                            break;
                        }
                        for i in b..(b + BLOCK).min(total) {
                            if i > first_bad.load(SeqCst) {
                                break;
                            }
                            let mut r = seed_of(seed, prop.id, i);
                            let (gi, c) = prop.draw(&mut r);
                            *slots[w as usize].lock().unwrap() = (i, Some((Instant::now(), c.clone())));
                            crate::sup::busy(w, Some(i));
                            let mut info = Info::default();
                            let mut fs = judge_case(&c, &mut info);
                            fs.retain(|f| prop.aspects.contains(&f.aspect));
                            if i % 997 == 0 {
                                // the same seed has to be the same execution
                                let mut info2 = Info::default();
                                let c2 = prop.draw(&mut seed_of(seed, prop.id, i)).1;
                                let mut fs2 = judge_case(&c2, &mut info2);
                                fs2.retain(|f| prop.aspects.contains(&f.aspect));
                                st.replayed += 1;
                                let a = format!("{:?} {:?} {:?}", c.text(), info, fs);
                                let b = format!("{:?} {:?} {:?}", c2.text(), info2, fs2);
                                if a != b {
                                    *nondet.lock().unwrap() = Some(format!("run {}: {}\n--- {}", i, a, b));
                                }
                            }
                            st.runs += 1;
                            st.skipped += info.skipped as u64;
                            st.msgs += info.msgs as u64;
                            st.calls += info.calls;
                            st.nones += info.nones;
                            st.work += info.work;
                            for (k, v) in &info.faults {
                                *st.faults.entry(k).or_default() += v;
                            }
                            if let Some(e) = info.end.split(' ').next().filter(|e| !e.is_empty()) {
                                *st.ends.entry(e.to_string()).or_default() += 1;
                            }
                            *st.gens.entry(prop.gens[gi].1).or_default() += 1;
                            let mut gh = 0;
                            for p in &c.parts {
                                if p.input.is_empty() && p.g.is_none() {
                                    continue;
                                }
                                *st.streams.entry(STREAMS[p.stream]).or_default() += 1;
                                *st.flavs.entry(flav_name(&c, p)).or_default() += 1;
                                if let Some(g) = &p.g {
                                    let mut o = vec![];
                                    g.ops(&mut o);
                                    o.sort();
                                    o.dedup();
                                    for o in o {
                                        *st.ops.entry(o).or_default() += 1;
                                    }
                                    gh = fnv(gh, g.text().as_bytes());
                                }
                            }
                            // (memory is bounded: past the cap the count is a lower bound)
                            if st.grammars.len() < HASH_CAP {
                                st.grammars.insert(gh);
                            }
                            if !info.skipped && (info.nones > 0 || info.calls > 1) {
                                st.nontrivial += 1;
                                if st.scheds.len() < HASH_CAP {
                                    st.scheds.insert(info.hash);
                                }
                                if st.hashes.len() < HASH_CAP {
                                    st.hashes.insert(info.hash ^ gh.rotate_left(23));
                                }
                            }
                            if i < 3 {
                                st.samples.push((i, c.text()));
                            }
                            for f in &fs {
                                if known.contains_key(f.aspect) {
                                    let e = st.known.entry(f.aspect.to_string()).or_insert((0, i));
                                    e.0 += 1;
                                    e.1 = e.1.min(i);
                                } else {
                                    first_bad.fetch_min(i, SeqCst);
                                }
                            }
                        }
                    }
                    *slots[w as usize].lock().unwrap() = (0, None);
                    crate::sup::busy(w, None);
                    st
                })
                .unwrap(),
        );
    }
    // watchdog: a run that stays inside the code under test without any unit of simulated work
    let mut hang = None;
    while !hs.iter().all(|h| h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for s in slots.iter() {
            let g = s.lock().unwrap();
            if let Some((t, c)) = &g.1 {
                if t.elapsed() > Duration::from_secs(60) {
                    hang = Some((g.0, c.clone()));
                }
            }
        }
        if hang.is_some() {
            break;
        }
    }
    if let Some((i, c)) = hang {
        let f = Fail { aspect: "bad", detail: "a call does not end (60 s without any simulated step)".into() };
        let path = write_replay(id, seed, i, &f, &c);
        println!("{}\n{}", f.detail, c.text());
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    let mut st = Stats::default();
    for h in hs {
        match h.join() {
            Ok(s) => st.add(s),
            Err(_) => {
                eprintln!("HARNESS FAILURE: a worker died");
                return 2;
            }
        }
    }
    let bad = first_bad.load(SeqCst);
    if let Some(t) = nondet.lock().unwrap().take() {
        if bad == u64::MAX {
            eprintln!("HARNESS FAILURE: not deterministic: {}", t);
            return 2;
        }
        println!("note: the code under test is not deterministic: {}", t);
    }
    let mut violations = 0;
    let mut code = 0;
    if bad != u64::MAX {
        let seed0 = seed;
        let known = known.clone();
        let best = Arc::new(Mutex::new(None::<(Fail, Case)>));
        let best2 = best.clone();
        let h = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                crate::sup::busy(63, Some(bad));
                let c = prop.draw_run(seed0, bad);
                // (code that reads memory it must not read may fail only sometimes)
                let fs = (0..100).map(|_| fails_of(prop, &c, &known, &mut Info::default())).find(|f| !f.is_empty());
                let fs = fs.unwrap_or_else(|| vec![Fail { aspect: "bad", detail: "the run failed, but not when it was executed again".into() }]);
                let aspect = fs[0].aspect;
                *best2.lock().unwrap() = Some((fs[0].clone(), c.clone()));
                let (first, whole) = (fs[0].clone(), c.clone());
                let t = Instant::now();
                let small = minimise(
                    c,
                    &mut |k| {
                        // (a time limit only cuts the minimisation short, never the verdict)
                        t.elapsed() < Duration::from_secs(40) && fails_of(prop, k, &known, &mut Info::default()).iter().any(|f| f.aspect == aspect)
                    },
                    20_000,
                );
                let fs = fails_of(prop, &small, &known, &mut Info::default());
                let (f, small) = match fs.into_iter().find(|f| f.aspect == aspect) {
                    Some(f) => (f, small),
                    None => (first, whole),
                };
                let path = write_replay(prop.id, seed0, bad, &f, &small);
                // the file alone has to reproduce it
                let back = Case::parse(&std::fs::read_to_string(&path).unwrap()).unwrap();
                let again = fails_of(prop, &back, &known, &mut Info::default());
                let same = again.iter().any(|g| g.aspect == f.aspect && g.detail == f.detail);
                (f, small, path, same)
            })
            .unwrap();
        // a smaller case may hang where the original did not
        let t = Instant::now();
        while !h.is_finished() && t.elapsed() < Duration::from_secs(150) {
            std::thread::sleep(Duration::from_millis(20));
        }
        if !h.is_finished() {
            let (f, c) = best.lock().unwrap().clone().expect("harness: the failing run hangs");
            let path = write_replay(id, seed, bad, &f, &c);
            println!("run {} of seed {}: {}: {}\n{}", bad, seed, f.aspect, f.detail, c.text());
            println!("VIOLATION property={} replay={}", id, path.display());
            return 1;
        }
        match h.join() {
            Ok((f, small, path, same)) => {
                if !same {
                    println!("note: the code under test behaves differently when the same run is executed again");
                }
                println!("run {} of seed {}: {}: {}\n{}", bad, seed, f.aspect, f.detail, small.text());
                println!("VIOLATION property={} replay={}", id, path.display());
                violations = 1;
                code = 1;
            }
            Err(_) => {
                eprintln!("HARNESS FAILURE: minimisation died");
                return 2;
            }
        }
    }
    for (k, (n, i)) in &st.known {
        println!("KNOWN-FINDING: property={} {} ({}; {} of {} runs, first run {})", id, known[k], k.trim_start_matches("known:"), n, st.runs, i);
    }
    let wall = start.elapsed().as_secs_f64();
    let ev = evidence(prop, tier, seed, &st, wall, violations, &known);
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{}.json", id)), ev).is_err() {
        eprintln!("HARNESS FAILURE: cannot write the evidence");
        return 2;
    }
    println!("{}: {} runs, {} non-trivial, {} distinct, {} skipped, {} messages, {} calls, {:.1} s", id, st.runs, st.nontrivial, st.hashes.len(), st.skipped, st.msgs, st.calls, wall);
    code
}

pub fn write_replay(id: &str, seed: u64, i: u64, f: &Fail, c: &Case) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let t = replay_text(id, seed, i, f, c);
    let path = dir.join(format!("{}-{:016x}.replay", id, fnv(3, t.as_bytes())));
    std::fs::write(&path, t).expect("harness: cannot write the replay file");
    path
}

pub fn replay(path: &Path) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", path.display(), e);
            return 2;
        }
    };
    let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k).map(|x| x.trim().to_string())).unwrap_or_default();
    let (id, aspect, detail) = (get("property "), get("aspect "), get("detail "));
    let c = match Case::parse(&t) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let known = known_findings(&id);
    let prop = PROPS.iter().find(|p| p.id == id);
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut info = Info::default();
        (judge_case(&c, &mut info), c)
    });
    let h = h.unwrap();
    let t = Instant::now();
    while !h.is_finished() && t.elapsed() < Duration::from_secs(60) {
        std::thread::sleep(Duration::from_millis(2));
    }
    if !h.is_finished() {
        println!("bad: a call does not end (60 s)");
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    let (fs, c) = h.join().expect("harness: died");
    println!("{}", c.text());
    let mut hit = false;
    for f in &fs {
        println!("{}: {}", f.aspect, f.detail);
        hit |= prop.map_or(true, |p| p.aspects.contains(&f.aspect)) && !known.contains_key(f.aspect);
    }
    if fs.iter().any(|f| f.aspect == aspect && f.detail.replace('\n', " ") == detail) {
        println!("reproduced exactly");
    }
    if hit {
        println!("VIOLATION property={} replay={}", id, path.display());
        1
    } else {
        println!("no violation of {}", id);
        0
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jm<K: ToString, V: ToString>(m: impl IntoIterator<Item = (K, V)>) -> String {
    format!("{{{}}}", m.into_iter().map(|(k, v)| format!("{}: {}", js(&k.to_string()), v.to_string())).collect::<Vec<_>>().join(", "))
}

fn evidence(prop: &Prop, tier: &str, seed: u64, st: &Stats, wall: f64, violations: u64, known: &BTreeMap<String, String>) -> String {
    let mut samples = st.samples.clone();
    samples.sort();
    let perh = |n: u64| ((n as f64) / wall.max(0.001) * 3600.0) as u64;
    let capped = |n: usize| if n >= HASH_CAP { "lower bound" } else { "exact" };
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n \"coverage\": {{\n",
        js(prop.id),
        js(tier),
        seed
    );
    let _ = write!(s, "  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", st.runs, st.hashes.len(), js(&format!("{}. A run counts as non-trivial when the reference model is exact for its grammar and the code under test was called again after it ran out of data, was refused, was pending or had delivered a message; distinct by grammar and by the schedule, faults and outcomes of every call ({} count).", prop.rule, capped(st.hashes.len()))));
    let _ = write!(s, "  \"samples\": [{}],\n", samples.iter().map(|(_, t)| js(t)).collect::<Vec<_>>().join(", "));
    let _ = write!(s, "  \"runs_per_hour\": {}, \"seeds_per_run\": 1,\n", perh(st.runs));
    let _ = write!(s, "  \"nontrivial_runs\": {}, \"runs_outside_the_reference_model\": {}, \"runs_executed_twice_for_determinism\": {},\n", st.nontrivial, st.skipped, st.replayed);
    let _ = write!(
        s,
        "  \"simulated_time\": {{\"unit\": \"scheduler steps (the code under test has no clock)\", \"calls_into_the_code\": {}, \"source_calls_or_requests_for_more\": {}, \"units_of_metered_work\": {}, \"messages_delivered\": {}}},\n",
        st.calls, st.nones, st.work, st.msgs
    );
    let _ = write!(s, "  \"faults_injected\": {},\n", jm(st.faults.iter()));
    let _ = write!(s, "  \"outcomes\": {},\n", jm(st.ends.iter()));
    let _ = write!(s, "  \"distinct_grammars\": {}, \"distinct_schedules_with_outcome\": {},\n", st.grammars.len(), st.scheds.len());
    let _ = write!(s, "  \"runs_by_simulation\": {},\n  \"sessions_by_stream\": {},\n  \"sessions_by_driver\": {},\n", jm(st.gens.iter()), jm(st.streams.iter()), jm(st.flavs.iter()));
    let _ = write!(s, "  \"runs_by_parser\": {},\n", jm(st.ops.iter().map(|(o, n)| (o.name(), *n))));
    let _ = write!(s, "  \"known_findings_seen\": {},\n", jm(st.known.iter().map(|(k, v)| (k.clone(), v.0))));
    let _ = write!(s, "  \"real_components\": [\"combine: parsers, streams, decoder, decode macros, buffered reader, all from /repo\", \"tokio-util FramedRead where used\"],\n");
    let _ = write!(s, "  \"stub_components\": [\"byte source and sink (scripted)\", \"executor and wakers (hand-driven polls)\", \"buffer memory (moved and scribbled between calls)\", \"user closures (logging)\"]\n }},\n");
    let mut ass: Vec<String> = vec![
        "grammars are those of the generator: repeated elements consume input, values do not depend on hidden state".into(),
        "the reference model (sim/src/refm.rs) and the one-shot parse are the oracles".into(),
        "a parser object and its saved state are used by one session at a time".into(),
    ];
    for (_, v) in known {
        ass.push(format!("known finding, not reported as a violation: {}", v));
    }
    let _ = write!(s, " \"assumptions\": [{}],\n \"wall_s\": {:.2}, \"violations\": {}\n}}\n", ass.iter().map(|a| js(a)).collect::<Vec<_>>().join(", "), wall, violations);
    s
}
