//! The in-memory simulation: one incremental parse session driven by a delivery schedule, the one-shot session it has
//! to agree with, and the reference model's view of the same session.
use crate::ast::{Node, V};
use crate::ctx;
use crate::mk::{BoxP, St};
use crate::refm::{tokenize, M, R};
use crate::rng::Rng;
use crate::strm::*;
use combine::Parser;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub struct Sched {
    /// bytes delivered before each further call (0 = the parser is called again with nothing new)
    pub chunks: Vec<u32>,
    /// end of input announced together with the last bytes, or in a call of its own
    pub eof_late: bool,
}
impl Sched {
    pub fn random(r: &mut Rng, len: usize) -> Sched {
        let mut chunks = vec![];
        let mut left = len;
        let style = r.below(7);
        if r.chance(1, 3) {
            chunks.push(0);
        }
        while left > 0 && chunks.len() < 4000 {
            let k = match style {
                0 => 1,
                1 => r.range(1, 2),
                2 => r.range(0, 3),
                3 => {
                    if r.chance(1, 4) {
                        r.range(1, left)
                    } else {
                        1
                    }
                }
                4 => {
                    // one cut somewhere
                    if chunks.len() <= 1 {
                        r.range(1, left)
                    } else {
                        left
                    }
                }
                5 => r.range(1, 8),
                _ if len > 300 => *r.pick(&[1, 7, 16, 64, 255, 256, 1000]),
                _ => *r.pick(&[1, 2, 4, 8, 16]),
            }
            .min(left);
            left -= k;
            chunks.push(k as u32);
            if r.chance(1, 12) {
                chunks.push(0);
            }
        }
        Sched { chunks, eof_late: r.chance(1, 2) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// everything consumed, end of input at a message boundary
    Clean,
    /// a message that consumed nothing (the session is stopped by the driver)
    Zero,
    Err { eoi: bool, pos: Option<String> },
    /// asked for more although the end was announced
    NoneAtEof,
    /// no end of input announced; everything given was processed
    Open,
    /// broken accounting, panic, runaway
    Bad(String),
}
impl End {
    pub fn class(&self) -> String {
        match self {
            End::Err { .. } => "error".into(),
            End::Bad(s) => format!("BAD {}", s),
            e => format!("{:?}", e),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct Msg {
    pub v: V,
    pub len: usize,
    pub pos: String,
}
#[derive(Clone, Debug)]
pub struct Trace {
    pub msgs: Vec<Msg>,
    pub end: End,
    pub actions: Vec<(u32, u64)>,
    pub positions: Vec<String>,
    pub preds: u64,
    pub work: u64,
    pub errs: Vec<Cause>,
    pub calls: u64,
    pub nones: u64,
    /// largest prefix (absolute) that was visible when each message was delivered
    pub seen: Vec<usize>,
    /// where the parser asked for more: (message index, absolute bytes visible)
    pub asks: Vec<(usize, usize)>,
    /// positions at which the calls of the last message started
    pub starts: Vec<String>,
}
impl Trace {
    pub fn new() -> Trace {
        Trace { msgs: vec![], end: End::Open, actions: vec![], positions: vec![], preds: 0, work: 0, errs: vec![], calls: 0, nones: 0, seen: vec![], asks: vec![], starts: vec![] }
    }
    pub fn show(&self) -> String {
        let m: Vec<String> = self.msgs.iter().map(|m| format!("{}/{}{}", m.v.show(), m.len, if m.pos.is_empty() { "".into() } else { format!("@{}", m.pos) })).collect();
        format!("{} -> {:?}", m.join(" "), self.end)
    }
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let s = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    };
    if s.contains("harness:") {
        eprintln!("HARNESS FAILURE: {}", s);
        std::process::exit(2);
    }
    s
}

pub fn char_up(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && (b[i] & 0xC0) == 0x80 {
        i += 1
    }
    i
}

#[derive(Clone)]
pub struct Opts {
    /// the parser is built anew before every call
    pub rebuild: Option<Node>,
    pub fresh_state: bool,
    /// everything is there and known to be everything from the first call on
    pub whole: bool,
    /// announce the end of input once everything is delivered
    pub announce: bool,
    pub budget: u64,
    pub max_msgs: usize,
    /// every other message is parsed by this grammar
    pub turns: Option<Node>,
    /// another session's bytes go through the same parser object, with a state of their own: 1 before a message, dropped
    /// unfinished; 2 before every call
    pub guest: Option<(u64, Vec<u8>)>,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts { rebuild: None, fresh_state: false, whole: false, announce: true, budget: 400_000, max_msgs: 400, turns: None, guest: None }
    }
}

/// Work one call may cost at most: repeat-until with a backtracking end is quadratic by nature.
pub fn budget_for(len: usize) -> u64 {
    (60 * (len as u64).pow(2)).min(1_000_000_000)
}

/// A second session on the parser object of the first; what it delivers is not looked at.
struct Guest<I: Bufd> {
    input: Vec<u8>,
    st: St,
    base: usize,
    given: usize,
    pos: I::Pos,
}
impl<I: Bufd> Guest<I> {
    fn restart(&mut self) {
        self.st = St::default();
        self.base = 0;
        self.given = 0;
        self.pos = I::Pos::default();
    }
    fn step(&mut self, p: &mut BoxP<I>, add: usize) {
        self.given = (self.given + add).min(self.input.len());
        if I::TEXT {
            self.given = char_up(&self.input, self.given);
        }
        let mut buf = self.input[self.base..self.given].to_vec();
        let view: &'static [u8] = unsafe { stat(&buf[..]) };
        let mut s = I::over(view, self.given < self.input.len(), self.pos.clone());
        let r = ctx::aside(|| catch_unwind(AssertUnwindSafe(|| combine::stream::decode(p, &mut s, &mut self.st).map(|x| (x.0.is_some(), x.1)).ok())));
        match r {
            Ok(Some((done, n))) if n <= buf.len() && !(done && n == 0) && (done || self.given < self.input.len()) => {
                self.base += n;
                self.pos = s.pos();
            }
            _ => self.restart(),
        }
        drop(s);
        buf.iter_mut().for_each(|b| *b = if I::TEXT { b'!' } else { 0xAA });
        std::hint::black_box(&buf);
    }
}

/// The incremental session.
pub fn run_inc<I: Bufd>(p: &mut BoxP<I>, input: &[u8], sched: &Sched, o: &Opts) -> Trace {
    ctx::reset();
    let mut other = o.turns.as_ref().map(|g| crate::mk::mk::<I>(g));
    let mut guest = o.guest.as_ref().map(|x| Guest::<I> { input: x.1.clone(), st: St::default(), base: 0, given: 0, pos: I::Pos::default() });
    let mut t = Trace::new();
    let mut st = St::default();
    let mut base = 0usize;
    let mut given = 0usize;
    let mut ci = 0usize;
    let mut eof = input.is_empty() && !sched.eof_late && o.announce;
    if o.whole {
        given = input.len();
        eof = true;
    }
    let mut pos = I::Pos::default();
    let mut msg_len = 0usize;
    let mut msg_start = true;
    let mut old: Vec<u8> = vec![];
    // nothing has been asked for since the last message
    let mut between = true;
    loop {
        if msg_start && base == given && eof {
            t.end = End::Clean;
            break;
        }
        // a new home for the unconsumed bytes
        let mut buf: Vec<u8> = Vec::with_capacity(given - base + (t.calls as usize % 3) + 1);
        buf.extend_from_slice(&input[base..given]);
        old.iter_mut().for_each(|b| *b = if I::TEXT { b'!' } else { 0xAA });
        old = std::mem::take(&mut buf);
        let view: &'static [u8] = unsafe { stat(&old[..]) };
        let mut s = I::over(view, !eof, pos.clone());
        if let Some(g) = &o.rebuild {
            *p = crate::mk::mk::<I>(g);
        }
        if let (Some(gu), Some((how, _))) = (&mut guest, &o.guest) {
            if *how == 2 {
                gu.step(p, 1 + t.calls as usize % 3)
            } else if between {
                gu.restart();
                gu.step(p, (t.calls as usize * 7 + 3) % (gu.input.len() + 1));
            }
        }
        if I::HAS_POS {
            if msg_len == 0 && msg_start {
                t.starts.clear();
            }
            t.starts.push(I::show_pos(&s.position()));
        }
        between = false;
        ctx::set_budget(o.budget + budget_for(input.len()));
        t.calls += 1;
        let q = match &mut other {
            Some(q) if t.msgs.len() % 2 == 1 => q,
            _ => &mut *p,
        };
        let r = catch_unwind(AssertUnwindSafe(|| combine::stream::decode(q, &mut s, &mut st)));
        ctx::no_budget();
        match r {
            Err(e) => {
                t.end = End::Bad(format!("panic: {}", panic_text(e)));
                break;
            }
            Ok(Ok((v, n))) => {
                let avail = given - base;
                if n > avail {
                    t.end = End::Bad(format!("reported {} bytes consumed of {}", n, avail));
                    break;
                }
                if s.rest_len() != avail - n {
                    t.end = End::Bad(format!("reported {} of {} bytes consumed but the stream was left with {}", n, avail, s.rest_len()));
                    break;
                }
                base += n;
                msg_len += n;
                pos = s.pos();
                match v {
                    Some(v) => {
                        t.msgs.push(Msg { v, len: msg_len, pos: if I::HAS_POS { I::show_pos(&s.position()) } else { String::new() } });
                        t.seen.push(given);
                        if msg_len == 0 {
                            t.end = End::Zero;
                            break;
                        }
                        msg_len = 0;
                        msg_start = true;
                        between = true;
                        if o.fresh_state {
                            st = St::default();
                        }
                        if t.msgs.len() >= o.max_msgs {
                            t.end = End::Open;
                            break;
                        }
                    }
                    None => {
                        t.nones += 1;
                        msg_start = msg_len == 0 && base == given;
                        t.asks.push((t.msgs.len(), given));
                        if eof {
                            t.end = End::NoneAtEof;
                            break;
                        }
                        if ci < sched.chunks.len() && given < input.len() {
                            let c = sched.chunks[ci] as usize;
                            ci += 1;
                            given = (given + c).min(input.len());
                            if I::TEXT {
                                given = char_up(input, given);
                            }
                        } else if given < input.len() {
                            given = input.len();
                        } else if o.announce {
                            eof = true;
                        } else {
                            t.end = End::Open;
                            break;
                        }
                        if given == input.len() && !sched.eof_late && o.announce {
                            eof = true;
                        }
                    }
                }
            }
            Ok(Err(e)) => {
                t.end = End::Err { eoi: err_eoi::<I>(&e), pos: I::err_at(&e, view, base) };
                t.errs = I::err_items(e);
                break;
            }
        }
    }
    finish(&mut t);
    t
}
fn finish(t: &mut Trace) {
    t.actions = ctx::take_actions();
    t.positions = ctx::take_pos();
    t.preds = ctx::preds();
    t.work = ctx::work();
}

/// One parse of the complete remaining input per message, no partial state carried anywhere.
pub fn run_once<I: Bufd>(p: &mut BoxP<I>, input: &[u8], o: &Opts) -> Trace {
    ctx::reset();
    let mut other = o.turns.as_ref().map(|g| crate::mk::mk::<I>(g));
    let mut t = Trace::new();
    let mut base = 0usize;
    let mut pos = I::Pos::default();
    loop {
        if base == input.len() {
            t.end = End::Clean;
            break;
        }
        let buf = input[base..].to_vec();
        let view = unsafe { stat(&buf[..]) };
        let s = I::over(view, false, pos.clone());
        ctx::set_budget(o.budget + budget_for(input.len()));
        t.calls += 1;
        let q = match &mut other {
            Some(q) if t.msgs.len() % 2 == 1 => q,
            _ => &mut *p,
        };
        let r = catch_unwind(AssertUnwindSafe(|| q.parse(s)));
        ctx::no_budget();
        match r {
            Err(e) => {
                t.end = End::Bad(format!("panic: {}", panic_text(e)));
                break;
            }
            Ok(Ok((v, rest))) => {
                let n = buf.len() - rest.rest_len();
                base += n;
                pos = rest.pos();
                t.msgs.push(Msg { v, len: n, pos: if I::HAS_POS { I::show_pos(&rest.position()) } else { String::new() } });
                t.seen.push(input.len());
                if n == 0 {
                    t.end = End::Zero;
                    break;
                }
                if t.msgs.len() >= o.max_msgs {
                    t.end = End::Open;
                    break;
                }
            }
            Ok(Err(e)) => {
                t.end = End::Err { eoi: err_eoi::<I>(&e), pos: I::err_at(&e, view, base) };
                t.errs = I::err_items(e);
                break;
            }
        }
    }
    finish(&mut t);
    t
}

pub struct RefTrace {
    pub t: Trace,
    pub soft: bool,
    pub stop: bool,
    /// per message: bytes (absolute) that had to be looked at before its outcome was settled (usize::MAX = the end of input itself)
    pub touched: Vec<usize>,
    /// the parse that ended the session
    pub err_touched: usize,
    /// the grammar rejects even before it looks at a byte after the last message
    pub rejects_blindly: bool,
}
/// The reference model's session.
pub fn run_ref(g: &Node, input: &[u8], text: bool, posmode: u8, max_msgs: usize) -> RefTrace {
    run_ref_turns(g, None, input, text, posmode, max_msgs)
}
pub fn run_ref_turns(first: &Node, other: Option<&Node>, input: &[u8], text: bool, posmode: u8, max_msgs: usize) -> RefTrace {
    let mut t = Trace::new();
    let mut out = RefTrace { t: Trace::new(), soft: false, stop: false, touched: vec![], err_touched: 0, rejects_blindly: false };
    let (toks, offs) = tokenize(input, text);
    let mut p = 0;
    let mut m = M::new(&toks, &offs, input, text, posmode, if posmode == 2 { (1, 1) } else { (0, 0) });
    loop {
        let g = match other {
            Some(g) if t.msgs.len() % 2 == 1 => g,
            _ => first,
        };
        if p == toks.len() {
            t.end = End::Clean;
            let keep = (std::mem::take(&mut m.actions), std::mem::take(&mut m.positions), m.soft);
            m.furthest = 0;
            out.rejects_blindly = matches!(m.eval(g, p), R::Err(_)) && m.furthest <= p;
            m.actions = keep.0;
            m.positions = keep.1;
            m.soft = keep.2;
            break;
        }
        m.furthest = 0;
        match m.eval(g, p) {
            R::Ok(v, q, _) => {
                t.msgs.push(Msg { v, len: offs[q] - offs[p], pos: m.pos_str(q) });
                out.touched.push(if m.furthest > toks.len() { usize::MAX } else { offs[m.furthest] });
                if q == p {
                    t.end = End::Zero;
                    break;
                }
                p = q;
                if t.msgs.len() >= max_msgs {
                    break;
                }
            }
            R::Err(_) => {
                t.end = End::Err { eoi: false, pos: None };
                out.err_touched = if m.furthest > toks.len() { usize::MAX } else { offs[m.furthest] };
                break;
            }
            R::Stop => {
                out.stop = true;
                break;
            }
        }
    }
    out.soft = m.soft;
    t.actions = std::mem::take(&mut m.actions);
    t.positions = std::mem::take(&mut m.positions);
    out.t = t;
    out
}
