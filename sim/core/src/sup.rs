//! Supervision: a check runs in a child process, so that an abort (failed allocation, stack overflow, double panic) of
//! the code under test is an observation like any other: the parent finds the run, minimises it and writes the replay.
use crate::case::*;
use crate::mem::Fail;
use crate::props::PROPS;
use crate::run::*;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

const VAR: &str = "SIM_CHILD";
const SLOTS: u64 = 64;
/// Address space of a child: an allocation which no input of this size can justify fails instead of taking the machine.
const LIMIT: u64 = 16 << 30;

#[repr(C)]
struct Rlimit(u64, u64);
extern "C" {
    fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
}
fn limits() {
    unsafe {
        setrlimit(9, &Rlimit(LIMIT, LIMIT)); // RLIMIT_AS
        setrlimit(4, &Rlimit(0, 0)); // RLIMIT_CORE
    }
}

static FILE: OnceLock<Option<std::fs::File>> = OnceLock::new();
/// In a child: remember what worker `w` is busy with (0 = nothing).
pub fn busy(w: u64, run: Option<u64>) {
    let f = FILE.get_or_init(|| std::env::var_os(VAR).and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok()));
    if let Some(f) = f {
        let _ = f.write_all_at(&run.map_or(0, |r| r + 1).to_le_bytes(), (w % SLOTS) * 8);
    }
}
pub fn is_child() -> bool {
    let c = std::env::var_os(VAR).is_some();
    if c {
        limits();
    }
    c
}
struct Tmp(PathBuf);
impl Drop for Tmp {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}
fn tmp(what: &str) -> Tmp {
    Tmp(std::env::temp_dir().join(format!("sim-{}-{}", what, std::process::id())))
}
fn child(args: &[String], slots: &Path, quiet: bool) -> ExitStatus {
    let mut c = Command::new(std::env::current_exe().expect("harness: own path"));
    c.args(args).env(VAR, slots);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    c.status().expect("harness: cannot start the child")
}
fn how(s: &ExitStatus) -> String {
    match s.signal() {
        Some(6) => "it aborted (failed allocation or a panic that cannot unwind)".into(),
        Some(11) | Some(7) => "it crashed (stack overflow or invalid memory access)".into(),
        Some(n) => format!("it was ended by signal {}", n),
        None => format!("exit {:?}", s.code()),
    }
}

pub fn check(args: &[String], id: &str, seed: u64) -> i32 {
    let slots = tmp("slots");
    if std::fs::write(&slots.0, vec![0u8; SLOTS as usize * 8]).is_err() {
        eprintln!("HARNESS FAILURE: no temporary file");
        return 2;
    }
    let s = child(args, &slots.0, false);
    if let Some(c) = s.code() {
        return c;
    }
    let prop = PROPS.iter().find(|p| p.id == id).expect("harness: property");
    let raw = std::fs::read(&slots.0).unwrap_or_default();
    let mut runs: Vec<u64> = raw.chunks(8).filter_map(|c| c.try_into().ok().map(u64::from_le_bytes)).filter(|r| *r > 0).map(|r| r - 1).collect();
    runs.sort();
    let left = runs.clone();
    let file = tmp("case");
    let none = tmp("none");
    for i in runs {
        let c = prop.draw_run(seed, i);
        let dies = |c: &Case| {
            std::fs::write(&file.0, format!("property {}\n{}", id, c.text())).expect("harness: temporary file");
            let s = child(&["replay".into(), file.0.display().to_string()], &none.0, true);
            s.signal().map(|_| how(&s))
        };
        if let Some(h) = dies(&c) {
            let t = Instant::now();
            let small = minimise(c, &mut |k| t.elapsed() < Duration::from_secs(60) && dies(k).is_some(), 20_000);
            let h = dies(&small).unwrap_or(h);
            let f = Fail { aspect: "bad", detail: format!("the process did not survive the run: {}", h) };
            let path = write_replay(id, seed, i, &f, &small);
            println!("run {} of seed {}: {}: {}\n{}", i, seed, f.aspect, f.detail, small.text());
            println!("VIOLATION property={} replay={}", id, path.display());
            return 1;
        }
    }
    for i in left {
        // it failed in an ordinary way, and a smaller variant of it ended the process
        let c = prop.draw_run(seed, i);
        std::fs::write(&file.0, format!("property {}\n{}", id, c.text())).expect("harness: temporary file");
        if child(&["replay".into(), file.0.display().to_string()], &none.0, true).code() == Some(1) {
            let f = Fail { aspect: "bad", detail: "the run fails (not minimised: a smaller one ends the process)".into() };
            let path = write_replay(id, seed, i, &f, &c);
            println!("run {} of seed {}: {}: {}\n{}", i, seed, f.aspect, f.detail, c.text());
            println!("VIOLATION property={} replay={}", id, path.display());
            return 1;
        }
    }
    eprintln!("HARNESS FAILURE: the check died ({}) but none of its runs does", how(&s));
    2
}
pub fn replay(path: &str) -> i32 {
    let s = child(&["replay".into(), path.to_string()], &tmp("none").0, false);
    if let Some(c) = s.code() {
        return c;
    }
    let t = std::fs::read_to_string(path).unwrap_or_default();
    let id = t.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("?").trim();
    println!("bad: the process did not survive the run: {}", how(&s));
    println!("VIOLATION property={} replay={}", id, path);
    1
}
