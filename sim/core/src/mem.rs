//! Judging in-memory sessions: incremental run against the one-shot run against the reference model.
use std::sync::OnceLock;
use crate::ast::{Node, Op};
use crate::case::{Case, Ev, Part};
use crate::drv::*;
use crate::mk::mk;
use crate::strm::*;
use std::collections::BTreeMap;

pub const NSTREAMS: usize = 8;
pub const STREAMS: [&str; NSTREAMS] = ["bytes", "easy-bytes", "easy-pos-bytes", "str", "easy-str", "easy-pos-str", "layered-bytes", "layered-str"];
/// those with positions that do not depend on the buffer
pub const POS_STREAMS: [usize; 4] = [2, 5, 6, 7];
macro_rules! with_stream {
    ($i:expr, $I:ident => $e:expr) => {
        match $i {
            0 => { type $I = $crate::strm::B0; $e }
            1 => { type $I = $crate::strm::B1; $e }
            2 => { type $I = $crate::strm::B2; $e }
            3 => { type $I = $crate::strm::S0; $e }
            4 => { type $I = $crate::strm::S1; $e }
            5 => { type $I = $crate::strm::S2; $e }
            6 => { type $I = $crate::strm::B3; $e }
            _ => { type $I = $crate::strm::S3; $e }
        }
    };
}
pub(crate) use with_stream;
pub fn is_text(stream: usize) -> bool {
    matches!(stream, 3 | 4 | 5 | 7)
}
pub fn posmode(stream: usize) -> u8 {
    match stream {
        2 | 6 => 1,
        5 | 7 => 2,
        _ => 0,
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub aspect: &'static str,
    pub detail: String,
}
pub fn fail(aspect: &'static str, detail: String) -> Fail {
    Fail { aspect, detail }
}
#[derive(Default, Clone, Debug)]
pub struct Info {
    pub skipped: bool,
    pub msgs: usize,
    pub calls: u64,
    pub nones: u64,
    pub work: u64,
    /// identifies the interleaving: schedule, faults and outcome
    pub hash: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub end: String,
}

pub fn has(g: &Node, ops: &[Op]) -> bool {
    g.any(&mut |n| ops.contains(&n.op))
}
/// Ops by which a grammar asks for a restart of what it wraps (their actions may run again).
pub const RESTART_OPS: &[Op] = &[
    Op::NoPartial,
    Op::FnParser,
    Op::ByMut,
    Op::IterMany,
    Op::LookAhead,
    Op::NotFollow,
    Op::ChainR1,
    Op::Escaped,
];

/// A recognizer rewinds to its start to keep the whole slice visible; where that is the first thing an alternative does,
/// the alternatives are all tried again.
pub struct ZooEntry {
    pub n: Node,
    pub restarts: bool,
    pub position: bool,
}
pub fn zoo_all(text: bool) -> &'static [ZooEntry] {
    static B: OnceLock<Vec<ZooEntry>> = OnceLock::new();
    static T: OnceLock<Vec<ZooEntry>> = OnceLock::new();
    let make = |t: &[&str]| {
        let one = |(i, s): (usize, &&str)| {
            let g = Node::parse(s).expect("zoo");
            ZooEntry { restarts: restarts(&g), position: g.any(&mut |n| n.op == Op::Position), n: Node::new(Op::Zoo, b"", &[i as u32], vec![g]) }
        };
        t.iter().enumerate().map(one).collect()
    };
    if text {
        T.get_or_init(|| make(&crate::zootext::TEXT))
    } else {
        B.get_or_init(|| make(&crate::zootext::BYTES))
    }
}
pub fn restarts(g: &Node) -> bool {
    // (length_prefix keeps no partial state, it reads its length again)
    has(g, RESTART_OPS)
        || g.any(&mut |n| n.op == Op::LenPrefix || n.op == Op::TakeN && n.n.first().map_or(true, |k| k % 2 == 0))
        || g.any(&mut |n| {
            matches!(n.op, Op::Or | Op::Choice | Op::ChoiceArr | Op::ChoiceSlice | Op::Opt | Op::SepBy | Op::SepEndBy | Op::SepEndBy1)
                && has(n, &[Op::Recog, Op::RecogRange, Op::RecogVal])
        })
}

/// Whether resuming may look at data again: an alternative that has consumed nothing is tried again, which shows with
/// slices that stay visible while they are scanned; the end of a repeat-until is looked for at every element.
pub fn rescans(g: &Node) -> bool {
    use Op::*;
    g.any(&mut |n| {
        let scans = |n: &Node| has(n, &[TakeWhile, TakeWhile1, TakeUntilRange, TakeUntilByte, TakeUntilBytes, TakeFn, Recog, RecogRange, RecogVal, Take, Range, Str, StrCmp, Num, FromStr, AndThen]);
        match n.op {
            Or | Choice | ChoiceArr | ChoiceSlice | Opt | SepBy | SepEndBy | SepEndBy1 | CountMM | SkipCountMM | CountSink | CountN => scans(n),
            TakeUntil | SkipUntil | RepeatUntil | RepeatSkipUntil => n.kids.iter().any(|k| !k.kids.is_empty() || scans(k)),
            // a searcher that asks for everything again
            TakeFn => n.n.first() == Some(&0),
            _ => false,
        }
    })
}

/// positions in text form, "index" or "line:column"
pub fn after(p: &str, q: &str) -> bool {
    let k = |s: &str| s.split(':').map(|x| x.parse::<u64>().unwrap_or(0)).collect::<Vec<_>>();
    k(p) >= k(q)
}

pub fn diff(what: &'static str, a: &Trace, an: &str, b: &Trace, bn: &str) -> Option<Fail> {
    for i in 0..a.msgs.len().max(b.msgs.len()) {
        match (a.msgs.get(i), b.msgs.get(i)) {
            (Some(x), Some(y)) => {
                if x.v != y.v {
                    return Some(fail(what, format!("message {}: {} gives {} but {} gives {}", i, an, x.v.show(), bn, y.v.show())));
                }
                if x.len != y.len {
                    return Some(fail(what, format!("message {}: {} consumes {} bytes but {} consumes {}", i, an, x.len, bn, y.len)));
                }
                if x.pos != y.pos {
                    return Some(fail("position", format!("message {}: {} ends at {} but {} at {}", i, an, x.pos, bn, y.pos)));
                }
            }
            (Some(x), None) => return Some(fail(what, format!("message {}: {} gives {} but {} ends with {:?}", i, an, x.v.show(), bn, b.end))),
            (None, Some(y)) => return Some(fail(what, format!("message {}: {} ends with {:?} but {} gives {}", i, an, a.end, bn, y.v.show()))),
            _ => {}
        }
    }
    if a.end.class() != b.end.class() {
        return Some(fail(what, format!("after {} messages {} ends with {:?} but {} with {:?}", a.msgs.len(), an, a.end, bn, b.end)));
    }
    None
}

/// The two ways a session ended in an error have to agree.
pub fn judge_err(g: &Node, inc: &End, one: &End, rf: &RefTrace, rebuilt: bool, out: &mut Vec<Fail>) {
    if let (End::Err { eoi: a, pos: p }, End::Err { eoi: b, pos: q }) = (inc, one) {
        // a rejection that did not need the end of input is allowed to be noticed before the end is known
        let early = !*a && *b && rf.err_touched != usize::MAX;
        // error merging needs the alternatives tried earlier, which a parser built anew does not know
        let rebuilt = rebuilt && *a && rf.err_touched == usize::MAX;
        if a != b && !early && !rebuilt {
            out.push(fail("eoi", format!("incremental error unexpected-end={} but one-shot {}", a, b)));
        }
        if p.is_some() && q.is_some() && p != q {
            let resumed_check = has(g, &[Op::AndThen, Op::FromStr]) && p.as_ref().zip(q.as_ref()).map_or(false, |(p, q)| after(p, q));
            let k = if has(g, &[Op::Spanned]) {
                "known:errpos-resumed-span"
            } else if resumed_check { "known:errpos-resumed-conversion" } else { "errpos" };
            out.push(fail(k, format!("incremental error at {:?}, one-shot at {:?}", p, q)));
        }
    }
}

/// Every action of the one-shot parse runs, in its order, exactly once; again only in an alternative that is tried again.
pub fn judge_actions(g: &Node, inc: &Trace, one: &Trace, out: &mut Vec<Fail>) {
    let (a, b) = (&inc.actions, &one.actions);
    if a == b {
        return;
    }
    let again = restarts(g)
        || g.any(&mut |n| {
            matches!(n.op, Op::Or | Op::Choice | Op::ChoiceArr | Op::ChoiceSlice | Op::Opt | Op::SepBy | Op::SepEndBy | Op::SepEndBy1)
                && n.any(&mut |k| k.op == Op::Attempt && has(k, &[Op::Map, Op::MapInput]))
        });
    let mut it = a.iter();
    let in_order = b.iter().all(|x| it.any(|y| x == y));
    if !again || !in_order || !a.iter().all(|x| b.contains(x)) {
        out.push(fail("actions", format!("incremental actions {:?} one-shot {:?}", a, b)));
    }
}

/// However the input was delivered, a rejection lists the same causes.
pub fn judge_causes(inc: &Trace, one: &Trace, rf: &RefTrace, rebuilt: bool, out: &mut Vec<Fail>) {
    if let (End::Err { pos: a, .. }, End::Err { pos: b, .. }) = (&inc.end, &one.end) {
        // error merging needs the alternatives tried earlier, which a parser built anew does not know
        if a.is_some() && b.is_some() && a != b || rebuilt {
            return;
        }
        let lost: Vec<&Cause> = one.errs.iter().filter(|c| !inc.errs.contains(c)).collect();
        let new: Vec<&Cause> = inc.errs.iter().filter(|c| !one.errs.contains(c)).collect();
        // a rejection that is settled before the next token is known cannot name it
        let blind = rf.err_touched != usize::MAX && lost.iter().all(|c| c.kind == 'U' && (c.tok.is_some() || c.what == "end of input"));
        if !new.is_empty() || !lost.is_empty() && !blind {
            out.push(fail("causes", format!("incremental error lists {:?}, one-shot lists {:?}", inc.errs, one.errs)));
        }
    }
}

pub fn sched_of(p: &Part, late: bool) -> Sched {
    Sched { chunks: p.ev.iter().filter(|e| e.0 == 0).map(|e| e.1).collect(), eof_late: late }
}
fn note(info: &mut Info, t: &Trace, s: &Sched) {
    info.msgs += t.msgs.len();
    info.calls += t.calls;
    info.nones += t.nones;
    info.work += t.work;
    info.end = t.end.class();
    let mut h = crate::rng::fnv(s.eof_late as u64, &[]);
    for c in &s.chunks {
        h = crate::rng::fnv(h, &c.to_le_bytes());
    }
    info.hash = crate::rng::fnv(h ^ info.hash.rotate_left(7), &[t.nones as u8, t.calls as u8]);
    let mut f = |k: &'static str, n: u64| {
        if n > 0 {
            *info.faults.entry(k).or_default() += n
        }
    };
    f("delivery cut", t.nones);
    f("empty delivery", s.chunks.iter().filter(|c| **c == 0).count() as u64);
    f("buffer moved and scribbled", t.calls.saturating_sub(1));
    f("late end of input", s.eof_late as u64);
    f("end of input", matches!(t.end, End::Err { eoi: true, .. }) as u64);
}

fn judge_on<I: Bufd>(c: &Case, info: &mut Info) -> Vec<Fail> {
    let mut out = vec![];
    let part = &c.parts[0];
    let g = part.g.as_ref().unwrap();
    let sched = sched_of(part, c.o("late") > 0);
    let mut boxed = mk::<I>(g);
    let p = &mut boxed;
    let rebuild = c.o("rebuild") > 0;
    let o = Opts { rebuild: if rebuild { Some(g.clone()) } else { None }, ..Opts::default() };
    let input = &part.input;
    let rf = run_ref(g, input, I::TEXT, posmode(part.stream), o.max_msgs);
    if rf.stop || rf.soft {
        info.skipped = rf.stop;
        if !rf.stop {
            // how the input is cut may matter for this grammar, but that it is decoded with a saved state may not
            let one = run_once::<I>(p, input, &o);
            if let End::Bad(s) = &one.end {
                out.push(fail("bad", format!("one-shot: {}", s)));
                return out;
            }
            if let Some(f) = diff("oracle", &one, "one-shot parse", &rf.t, "reference") {
                out.push(f);
            }
            let inc = run_inc::<I>(p, input, &sched, &Opts { whole: true, ..o.clone() });
            if let End::Bad(s) = &inc.end {
                out.push(fail("bad", s.clone()));
                return out;
            }
            if let Some(f) = diff("values", &inc, "decoding it whole", &one, "one-shot parse") {
                let fresh = run_inc::<I>(p, input, &sched, &Opts { whole: true, fresh_state: true, ..o.clone() });
                if diff("session", &fresh, "", &one, "").is_none() {
                    out.push(fail("session", f.detail.clone()));
                }
                out.push(f);
            } else {
                judge_err(g, &inc.end, &one.end, &rf, rebuild, &mut out);
                judge_causes(&inc, &one, &rf, rebuild, &mut out);
                if inc.actions != one.actions {
                    out.push(fail("actions", format!("actions when decoded whole {:?} one-shot {:?}", inc.actions, one.actions)));
                }
            }
        }
        // still no panics or runaways
        let inc = run_inc::<I>(p, input, &sched, &o);
        note(info, &inc, &sched);
        if let End::Bad(s) = &inc.end {
            out.push(fail("bad", s.clone()));
        }
        return out;
    }
    let one = run_once::<I>(p, input, &o);
    if let End::Bad(s) = &one.end {
        out.push(fail("bad", format!("one-shot: {}", s)));
        return out;
    }
    if let Some(f) = diff("oracle", &one, "one-shot parse", &rf.t, "reference") {
        out.push(f);
    }
    let mut inc = run_inc::<I>(p, input, &sched, &o);
    if rf.rejects_blindly && one.end == End::Clean && matches!(inc.end, End::Err { .. }) && inc.msgs.len() == one.msgs.len() {
        // the session was polled between messages with a grammar that rejects without looking
        inc.end = End::Clean;
    }
    note(info, &inc, &sched);
    if let End::Bad(s) = &inc.end {
        out.push(fail("bad", s.clone()));
        return out;
    }
    if let Some(f) = diff("values", &inc, "incremental parse", &one, "one-shot parse") {
        out.push(f);
    } else {
        judge_err(g, &inc.end, &one.end, &rf, rebuild, &mut out);
        judge_causes(&inc, &one, &rf, rebuild, &mut out);
        judge_actions(g, &inc, &one, &mut out);
        if one.actions != rf.t.actions {
            out.push(fail("actions", format!("one-shot actions {:?} reference {:?}", one.actions, rf.t.actions)));
        }
        for (i, given) in &inc.asks {
            if let Some(t) = rf.touched.get(*i) {
                if t <= given {
                    out.push(fail("demand", format!("message {} is settled by byte {} but more was asked for with {} bytes at hand", i, t, given)));
                    break;
                }
            }
        }
        if c.o("work") > 0 && !restarts(g) && !rescans(g) {
            let mut k = g.size() as u64 + 4;
            g.any(&mut |n| {
                k += n.s.len() as u64;
                false
            });
            let bound = (one.work + input.len() as u64) * 4 + (inc.calls + 1) * k * 6;
            if inc.work > bound {
                out.push(fail("work", format!("{} units of work in {} calls for {} bytes, but {} in one go", inc.work, inc.calls, input.len(), one.work)));
            }
        }
    }
    if c.o("fresh") > 0 {
        let mut fresh = run_inc::<I>(p, input, &sched, &Opts { fresh_state: true, ..o.clone() });
        if rf.rejects_blindly && fresh.msgs.len() == inc.msgs.len() && matches!((&fresh.end, &inc.end), (End::Err { .. }, End::Clean)) {
            fresh.end = End::Clean;
        }
        if let Some(f) = diff("session", &inc, "one saved state", &fresh, "a fresh state per message") {
            out.push(f);
        }
    }
    if c.o("guest") > 0 {
        let bytes = c.parts.get(1).map_or(vec![], |p| p.input.clone());
        let mut with = run_inc::<I>(p, input, &sched, &Opts { guest: Some((c.o("guest"), bytes)), ..o.clone() });
        if rf.rejects_blindly && with.msgs.len() == inc.msgs.len() && matches!((&with.end, &inc.end), (End::Err { .. }, End::Clean)) {
            with.end = End::Clean;
        }
        let what = if c.o("guest") == 2 { "another session in turn on the same parser" } else { "sessions dropped before each message" };
        if let End::Bad(s) = &with.end {
            out.push(fail("session", format!("with {}: {}", what, s)));
        } else if let Some(f) = diff("session", &with, what, &inc, "the session alone") {
            out.push(f);
        }
    }
    if c.o("cut") > 0 {
        let mut k = (c.o("cut") as usize - 1).min(input.len());
        if I::TEXT {
            k = char_up(input, k);
        }
        let pre = run_inc::<I>(p, &input[..k], &sched, &Opts { announce: false, ..o.clone() });
        note(info, &pre, &sched);
        if let End::Bad(s) = &pre.end {
            out.push(fail("bad", format!("prefix of {} bytes: {}", k, s)));
            return out;
        }
        final_(&pre, k, &one, rf.rejects_blindly, "the rest that was left out", &mut out);
        if let Some(alt) = c.parts.get(1) {
            let mut full = input[..k].to_vec();
            full.extend_from_slice(&alt.input);
            if I::TEXT && std::str::from_utf8(&full).is_err() {
                return out;
            }
            let rf2 = run_ref(g, &full, I::TEXT, posmode(part.stream), o.max_msgs);
            if rf2.soft || rf2.stop {
                return out;
            }
            let two = run_once::<I>(p, &full, &o);
            if let End::Bad(s) = &two.end {
                out.push(fail("bad", format!("one-shot: {}", s)));
                return out;
            }
            final_(&pre, k, &two, rf2.rejects_blindly, "another continuation", &mut out);
        }
    }
    out
}
/// What was answered before the end of input was known holds for a continuation of it.
fn final_(pre: &Trace, k: usize, one: &Trace, blind: bool, what: &str, out: &mut Vec<Fail>) {
    let n = pre.msgs.len() - (pre.end == End::Zero) as usize;
    for i in 0..n {
        match one.msgs.get(i) {
            Some(m) if *m == pre.msgs[i] => {}
            o => {
                let o = o.map_or(format!("{:?}", one.end), |m| m.v.show());
                out.push(fail("final", format!("with {} bytes and more to come, message {} was answered {}, but with {} it is {}", k, i, pre.msgs[i].v.show(), what, o)));
                return;
            }
        }
    }
    if matches!(pre.end, End::Err { .. }) && !blind {
        if one.msgs.len() > n || !matches!(one.end, End::Err { .. }) {
            out.push(fail("final", format!("with {} bytes and more to come, message {} was rejected, but with {} it is accepted", k, n, what)));
        }
    }
}
/// Two parsers that take turns on one type-erased saved state.
fn judge_turns<I: Bufd>(c: &Case, info: &mut Info) -> Vec<Fail> {
    let mut out = vec![];
    let part = &c.parts[0];
    let (g, h) = match (&part.g, c.parts.get(1).and_then(|p| p.g.as_ref())) {
        (Some(g), Some(h)) if g.op == h.op && matches!(g.op, Op::AnyState | Op::AnySend | Op::AnySendSync) => (g, h),
        _ => return out,
    };
    let sched = sched_of(part, c.o("late") > 0);
    let input = &part.input;
    let o = Opts { turns: Some(h.clone()), ..Opts::default() };
    let rf = run_ref_turns(g, Some(h), input, I::TEXT, posmode(part.stream), o.max_msgs);
    if rf.stop || rf.soft {
        info.skipped = true;
        return out;
    }
    let mut boxed = mk::<I>(g);
    let p = &mut boxed;
    let one = run_once::<I>(p, input, &o);
    if let End::Bad(s) = &one.end {
        out.push(fail("bad", format!("one-shot: {}", s)));
        return out;
    }
    if let Some(f) = diff("oracle", &one, "one-shot parses in turn", &rf.t, "reference") {
        out.push(f);
    }
    let mut inc = run_inc::<I>(p, input, &sched, &o);
    if rf.rejects_blindly && one.end == End::Clean && matches!(inc.end, End::Err { .. }) && inc.msgs.len() == one.msgs.len() {
        inc.end = End::Clean;
    }
    note(info, &inc, &sched);
    if let End::Bad(s) = &inc.end {
        out.push(fail("bad", s.clone()));
        return out;
    }
    if let Some(f) = diff("session", &inc, "two parsers in turn on one erased state", &one, "one-shot parses in turn") {
        out.push(f);
    }
    out
}
pub fn judge(c: &Case, info: &mut Info) -> Vec<Fail> {
    match c.parts.first() {
        Some(p) if p.g.is_some() => {}
        _ => return vec![],
    }
    if c.o("turns") > 0 {
        return with_stream!(c.parts[0].stream, I => judge_turns::<I>(c, info));
    }
    with_stream!(c.parts[0].stream, I => judge_on::<I>(c, info))
}

/// What the delivery schedule of a case is drawn as.
pub fn sched_ev(r: &mut crate::rng::Rng, len: usize) -> (Vec<Ev>, u64) {
    let s = Sched::random(r, len);
    (s.chunks.iter().map(|c| (0u8, *c)).collect(), s.eof_late as u64)
}

// ------------------------------------------------------------------------------------------------ minimisation
pub fn shrink_node(n: &Node, out: &mut Vec<Node>) {
    for k in &n.kids {
        out.push(k.clone());
    }
    use Op::*;
    if matches!(n.op, Seq | Choice | ChoiceArr | ChoiceSlice) && n.kids.len() > 1 {
        for i in 0..n.kids.len() {
            let mut m = n.clone();
            m.kids.remove(i);
            out.push(m);
        }
    }
    if n.op == Iterate && !n.n.is_empty() {
        for i in 0..n.n.len() {
            let mut m = n.clone();
            m.n.remove(i);
            out.push(m);
        }
    } else if !matches!(n.op, Map | MapInput) {
        for i in 0..n.n.len() {
            if n.n[i] > 0 {
                for v in [0, n.n[i] / 2, n.n[i] - 1] {
                    if v < n.n[i] {
                        let mut m = n.clone();
                        m.n[i] = v;
                        out.push(m);
                    }
                }
            }
        }
    }
    if n.s.len() > 1 && !matches!(n.op, TakeUntilByte) && n.s.is_ascii() {
        for i in 0..n.s.len() {
            let mut m = n.clone();
            m.s.remove(i);
            out.push(m);
        }
    }
    if !n.kids.is_empty() && n.op != Any {
        out.push(Node::leaf(Any));
    }
    for i in 0..n.kids.len() {
        let mut sub = vec![];
        shrink_node(&n.kids[i], &mut sub);
        for s in sub {
            let mut m = n.clone();
            m.kids[i] = s;
            out.push(m);
        }
    }
}
/// Keeps the generator's rule that repetition makes progress.
pub fn valid(n: &Node) -> bool {
    use Op::*;
    let nl = crate::gen::nullable;
    let ok = match n.op {
        Many | Many1 | SkipMany | SkipMany1 | IterMany | Count | SkipCount | CountMM | SkipCountMM | CountSink | NotFollow => {
            !nl(&n.kids[0])
        }
        Map | MapInput => n.n[0] == 0 || !nl(&n.kids[0]),
        CountN => !nl(&n.kids[1]) && !nl(&n.kids[0]),
        SepBy | SepBy1 | SepEndBy | SepEndBy1 | ChainL1 | ChainR1 => !nl(&n.kids[0]) && !nl(&n.kids[1]),
        RepeatUntil | RepeatSkipUntil => !nl(&n.kids[0]),
        Escaped => !nl(&n.kids[0]) && !nl(&n.kids[1]),
        TakeUntilRange | TakeUntilBytes | TakeFn => !n.s.is_empty(),
        Iterate => !n.kids.is_empty(),
        TakeN => !nl(&n.kids[0]),
        Zoo => n.kids.len() == 1 && (crate::zootext::BYTES.get(n.n[0] as usize) == Some(&&n.kids[0].text()[..]) || crate::zootext::TEXT.get(n.n[0] as usize) == Some(&&n.kids[0].text()[..])),
        Seq => !n.kids.is_empty() && (n.kids.len() < 10 || n.kids.len() == 12),
        Choice | ChoiceArr => !n.kids.is_empty() && (n.kids.len() < 6 || n.kids.len() == 9),
        _ => true,
    };
    ok && n.kids.iter().all(valid)
}
pub fn shrink_bytes(v: &[u8], text: bool) -> Vec<Vec<u8>> {
    let mut out = vec![];
    let n = v.len();
    let mut w = n;
    while w >= 1 {
        let mut i = 0;
        while i + w <= n {
            let mut x = v[..i].to_vec();
            x.extend_from_slice(&v[i + w..]);
            out.push(x);
            i += w;
        }
        w /= 2;
    }
    for i in 0..n {
        if v[i] != b'a' && v[i] < 128 {
            let mut x = v.to_vec();
            x[i] = b'a';
            out.push(x);
        }
    }
    if text {
        out.retain(|x| std::str::from_utf8(x).is_ok());
    }
    out
}
