//! One-shot token sources behind a look-back buffer: `buffered::Stream` over `read::Stream` and over iterators, against
//! the same grammar over an in-memory slice that rejects at the same tokens.
use crate::ast::{Node, Op};
use crate::case::*;
use crate::ctx;
use crate::drv::*;
use crate::mem::{diff, fail, Fail, Info};
use crate::mk::{mk, BoxP, Slots, St};
use crate::src::{SimErr, ERRS};
use crate::strm::*;
use combine::easy;
use combine::error::UnexpectedParse;
use combine::stream::position::{self, IndexPositioner, SourcePosition};
use combine::stream::{buffered, read, IteratorStream, Positioned, ResetStream, StreamErrorFor, StreamOnce};
use combine::Parser;
use std::cell::RefCell;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// More messages than the longest input of these runs can hold: the sessions end by their input.
const MAX_MSGS: usize = 4000;

/// What happens at which token of the source. `(0, i)` nothing, `(1 + k, i)` an error of kind k before token i.
#[derive(Default)]
pub struct Script {
    /// per token: error kinds still to come
    errs: Vec<Vec<u32>>,
    sticky: bool,
    pub fired: Vec<(usize, io::ErrorKind)>,
    pub retried: u64,
    reads_after_end: u64,
    calls: u64,
    /// tokens handed out, in order of hand-out
    handed: usize,
}
impl Script {
    fn new(ev: &[Ev], len: usize, sticky: bool) -> Script {
        let mut errs = vec![vec![]; len + 1];
        for (k, i) in ev {
            if *k > 0 {
                errs[(*i as usize).min(len)].push(*k as u32 - 1);
            }
        }
        Script { errs, sticky, ..Script::default() }
    }
    /// the error in the way of token i, if any
    fn at(&mut self, i: usize) -> Option<io::ErrorKind> {
        ctx::tick();
        self.calls += 1;
        let k = *self.errs.get(i)?.first()?;
        let kind = ERRS[k as usize % ERRS.len()];
        if !self.sticky || kind == io::ErrorKind::Interrupted {
            self.errs[i].remove(0);
        }
        Some(kind)
    }
}
/// The blocking reader.
pub struct Rd {
    data: Vec<u8>,
    at: usize,
    s: Rc<RefCell<Script>>,
}
impl io::Read for Rd {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let mut s = self.s.borrow_mut();
        if b.is_empty() {
            return Ok(0);
        }
        if let Some(k) = s.at(self.at) {
            if k == io::ErrorKind::Interrupted {
                s.retried += 1;
            } else {
                s.fired.push((self.at, k));
            }
            return Err(if self.at % 2 == 0 { io::Error::new(k, SimErr(self.at as u64)) } else { io::Error::from(k) });
        }
        if self.at >= self.data.len() {
            s.reads_after_end += 1;
            return Ok(0);
        }
        b[0] = self.data[self.at];
        self.at += 1;
        s.handed = s.handed.max(self.at);
        Ok(1)
    }
}
/// The slice the reference run parses; it rejects where the reader fails.
#[derive(Clone)]
pub struct Fslice<T: 'static> {
    data: Rc<Vec<T>>,
    at: usize,
    s: Rc<RefCell<Script>>,
}
impl<T: Tk> StreamOnce for Fslice<T> {
    type Token = T;
    type Range = T;
    type Position = ();
    type Error = UnexpectedParse;
    fn uncons(&mut self) -> Result<T, UnexpectedParse> {
        loop {
            let mut s = self.s.borrow_mut();
            // a token that was once handed out is in the buffer of the other side
            if self.at < s.handed {
                break;
            }
            match s.at(self.at) {
                None => break,
                Some(io::ErrorKind::Interrupted) => continue,
                Some(k) => {
                    s.fired.push((self.at, k));
                    return Err(UnexpectedParse::Unexpected);
                }
            }
        }
        match self.data.get(self.at) {
            Some(t) => {
                self.at += 1;
                let mut s = self.s.borrow_mut();
                s.handed = s.handed.max(self.at);
                Ok(*t)
            }
            None => Err(UnexpectedParse::Eoi),
        }
    }
}
impl<T: Tk> Positioned for Fslice<T> {
    fn position(&self) {}
}
impl<T: Tk> ResetStream for Fslice<T> {
    type Checkpoint = usize;
    fn checkpoint(&self) -> usize {
        self.at
    }
    fn reset(&mut self, c: usize) -> Result<(), UnexpectedParse> {
        self.at = c;
        Ok(())
    }
}

/// A source whose tokens arrive in pieces and can be taken once each. It is partial until its end is announced.
pub struct Feed<T: 'static> {
    data: Rc<Vec<T>>,
    at: usize,
    d: Rc<RefCell<Delivered>>,
}
#[derive(Default)]
pub struct Delivered {
    upto: usize,
    end: bool,
    starved: u64,
}
impl<T: Tk> StreamOnce for Feed<T> {
    type Token = T;
    type Range = T;
    type Position = ();
    type Error = UnexpectedParse;
    fn uncons(&mut self) -> Result<T, UnexpectedParse> {
        let mut d = self.d.borrow_mut();
        if self.at >= d.upto {
            d.starved += 1;
            return Err(UnexpectedParse::Eoi);
        }
        self.at += 1;
        Ok(self.data[self.at - 1])
    }
    fn is_partial(&self) -> bool {
        !self.d.borrow().end
    }
}
impl<T: Tk> Positioned for Feed<T> {
    fn position(&self) {}
}

/// Counts tokens and how far back resets go.
pub struct Probe<S> {
    s: S,
    at: usize,
    far: usize,
    back: usize,
    refused: u64,
}
impl<S> Probe<S> {
    fn new(s: S) -> Probe<S> {
        Probe { s, at: 0, far: 0, back: 0, refused: 0 }
    }
}
impl<S: StreamOnce> StreamOnce for Probe<S> {
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = S::Error;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<Self>> {
        ctx::tick();
        let t = self.s.uncons()?;
        self.at += 1;
        self.far = self.far.max(self.at);
        Ok(t)
    }
    fn is_partial(&self) -> bool {
        self.s.is_partial()
    }
}
impl<S: ResetStream> ResetStream for Probe<S> {
    type Checkpoint = (S::Checkpoint, usize);
    fn checkpoint(&self) -> Self::Checkpoint {
        ctx::tick();
        (self.s.checkpoint(), self.at)
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), S::Error> {
        self.back = self.back.max(self.far - c.1.min(self.far));
        match self.s.reset(c.0) {
            Ok(()) => {
                self.at = c.1;
                Ok(())
            }
            Err(e) => {
                self.refused += 1;
                Err(e)
            }
        }
    }
}
impl<S: Positioned> Positioned for Probe<S> {
    fn position(&self) -> S::Position {
        self.s.position()
    }
}

type IxPos<S> = position::Stream<S, IndexPositioner>;
pub type R0 = Probe<buffered::Stream<IxPos<read::Stream<Rd>>>>;
pub type R1 = Probe<buffered::Stream<easy::Stream<IxPos<read::Stream<Rd>>>>>;
pub type R2 = Probe<buffered::Stream<position::Stream<IteratorStream<std::vec::IntoIter<char>>, SourcePosition>>>;
pub type R3 = Probe<buffered::Stream<easy::Stream<position::Stream<IteratorStream<std::vec::IntoIter<char>>, SourcePosition>>>>;
pub type R4 = Probe<buffered::Stream<easy::Stream<IxPos<Feed<u8>>>>>;
pub type R5 = Probe<buffered::Stream<easy::Stream<position::Stream<Feed<char>, SourcePosition>>>>;
pub type MB = Probe<easy::Stream<IxPos<Fslice<u8>>>>;
pub type MC = Probe<easy::Stream<position::Stream<Fslice<char>, SourcePosition>>>;

pub trait Light {
    fn io(&self) -> Option<io::ErrorKind>;
    fn far(&self) -> Option<bool>;
    fn at(&self) -> Option<String>;
}
impl Light for read::Error {
    fn io(&self) -> Option<io::ErrorKind> {
        match self {
            read::Error::Io(e) => Some(e.kind()),
            _ => None,
        }
    }
    fn far(&self) -> Option<bool> {
        None
    }
    fn at(&self) -> Option<String> {
        None
    }
}
impl Light for UnexpectedParse {
    fn io(&self) -> Option<io::ErrorKind> {
        None
    }
    fn far(&self) -> Option<bool> {
        None
    }
    fn at(&self) -> Option<String> {
        None
    }
}
trait PosText {
    fn text(&self) -> String;
}
impl PosText for usize {
    fn text(&self) -> String {
        format!("{}", self)
    }
}
impl PosText for SourcePosition {
    fn text(&self) -> String {
        format!("{}:{}", self.line, self.column)
    }
}
impl<T, R, P: PosText> Light for easy::Errors<T, R, P> {
    fn io(&self) -> Option<io::ErrorKind> {
        self.errors.iter().find_map(|e| match e {
            easy::Error::Other(e) => e.downcast_ref::<io::Error>().map(|e| e.kind()),
            _ => None,
        })
    }
    fn far(&self) -> Option<bool> {
        Some(self.errors.iter().any(|e| matches!(e, easy::Error::Message(easy::Info::Static("Backtracked to far")))))
    }
    fn at(&self) -> Option<String> {
        Some(self.position.text())
    }
}

macro_rules! look_in {
    ($t:ty, $tok:ty, $text:expr, $some:expr) => {
        impl In for $t {
            type T = $tok;
            const TEXT: bool = $text;
            const HAS_POS: bool = true;
            fn slots() -> &'static Slots<Self> {
                static S: Slots<$t> = Slots::new();
                &S
            }
            fn some_pos() -> Self::Position {
                $some
            }
            fn show_pos(p: &Self::Position) -> String {
                p.text()
            }
            fn err_pos(e: &Self::Error) -> Option<String> {
                e.at()
            }
        }
    };
}
look_in!(R0, u8, false, 0);
look_in!(R1, u8, false, 0);
look_in!(R4, u8, false, 0);
look_in!(R5, char, true, SourcePosition::default());
look_in!(MB, u8, false, 0);
look_in!(R2, char, true, SourcePosition::default());
look_in!(R3, char, true, SourcePosition::default());
look_in!(MC, char, true, SourcePosition::default());

struct Run {
    t: Trace,
    back: usize,
    refused: u64,
    io: Option<io::ErrorKind>,
    far: Option<bool>,
}

/// The session over a source whose tokens arrive in pieces: the parser is called again with its saved state on the very
/// same stream whenever it asked for more.
fn fed<S>(g: &Node, s: Probe<S>, len: usize, chunks: &[u32], late: bool, d: &Rc<RefCell<Delivered>>) -> Run
where
    Probe<S>: In,
    <Probe<S> as StreamOnce>::Error: Light,
{
    ctx::reset();
    let mut p: BoxP<Probe<S>> = mk(g);
    let mut out = Run { t: Trace::new(), back: 0, refused: 0, io: None, far: None };
    let mut s = s;
    let mut st = St::default();
    let mut start = 0;
    let mut ci = 0;
    d.borrow_mut().end = len == 0 && !late;
    let mut between = true;
    loop {
        if between && s.at == len && d.borrow().end {
            out.t.end = End::Clean;
            break;
        }
        if out.t.msgs.len() >= MAX_MSGS {
            break;
        }
        ctx::set_budget(200_000);
        out.t.calls += 1;
        let r = catch_unwind(AssertUnwindSafe(|| p.parse_with_state(&mut s, &mut st)));
        ctx::no_budget();
        match r {
            Err(e) => {
                out.t.end = End::Bad(format!("panic: {}", panic_text(e)));
                break;
            }
            Ok(Ok(v)) => {
                let n = s.at - start;
                out.t.msgs.push(Msg { v, len: n, pos: <Probe<S> as In>::show_pos(&s.position()) });
                start = s.at;
                between = true;
                if n == 0 {
                    out.t.end = End::Zero;
                    break;
                }
            }
            Ok(Err(e)) => {
                let mut d = d.borrow_mut();
                if !d.end && err_eoi::<Probe<S>>(&e) && s.refused == 0 {
                    out.t.nones += 1;
                    between = s.at == start && s.at == d.upto;
                    if d.upto < len {
                        d.upto = (d.upto + chunks.get(ci).map_or(len, |c| *c as usize)).min(len);
                        ci += 1;
                        d.end = d.upto == len && !late;
                    } else {
                        d.end = true;
                    }
                    continue;
                }
                out.t.end = End::Err { eoi: err_eoi::<Probe<S>>(&e), pos: e.at() };
                out.far = e.far();
                break;
            }
        }
    }
    out.back = s.back;
    out.refused = s.refused;
    out.t.positions = ctx::take_pos();
    out.t.actions = ctx::take_actions();
    out.t.work = ctx::work();
    out
}
fn judge_fed(c: &Case, p: &Part, g: &Node, info: &mut Info) -> Vec<Fail> {
    let mut out = vec![];
    let n = p.cap as usize;
    let text: Vec<char> = String::from_utf8_lossy(&p.input).chars().collect();
    let chars = p.flav == 5;
    let len = if chars { text.len() } else { p.input.len() };
    let rf = run_ref(g, &p.input, chars, if chars { 2 } else { 1 }, MAX_MSGS);
    if rf.stop || rf.soft {
        info.skipped = true;
        return out;
    }
    let none = || Rc::new(RefCell::new(Script::new(&[], len, false)));
    let model = if chars {
        session(g, MC_new(&text, none()), len)
    } else {
        session(g, Probe::new(easy::Stream(position::Stream::with_positioner(Fslice { data: Rc::new(p.input.clone()), at: 0, s: none() }, IndexPositioner::default()))), len)
    };
    let d = Rc::new(RefCell::new(Delivered::default()));
    let chunks: Vec<u32> = p.ev.iter().filter(|e| e.0 == 0).map(|e| e.1).collect();
    let late = c.o("late") > 0;
    let mut real = if chars {
        fed(g, R5::new(buffered::Stream::new(easy::Stream(position::Stream::with_positioner(Feed { data: Rc::new(text), at: 0, d: d.clone() }, SourcePosition::default())), n)), len, &chunks, late, &d)
    } else {
        fed(g, R4::new(buffered::Stream::new(easy::Stream(position::Stream::with_positioner(Feed { data: Rc::new(p.input.clone()), at: 0, d: d.clone() }, IndexPositioner::default())), n)), len, &chunks, late, &d)
    };
    info.msgs = real.t.msgs.len();
    info.calls = real.t.calls;
    info.nones = real.t.nones;
    info.work = real.t.work;
    info.end = real.t.end.class();
    info.hash = crate::rng::fnv(p.flav, &[n as u8, real.back as u8, real.refused as u8, late as u8]);
    for k in &chunks {
        info.hash = crate::rng::fnv(info.hash, &k.to_le_bytes());
    }
    info.hash = crate::rng::fnv(info.hash, g.text().as_bytes());
    let mut f = |k: &'static str, n: u64| {
        if n > 0 {
            *info.faults.entry(k).or_default() += n
        }
    };
    f("delivery cut", real.t.nones);
    f("empty delivery", chunks.iter().filter(|c| **c == 0).count() as u64);
    f("look-back exceeded", real.refused);
    f("look-back used", (real.back > 0) as u64);
    f("late end of input", late as u64);
    for (t, s) in [(&model.t, "over a slice: "), (&real.t, "")] {
        if let End::Bad(e) = &t.end {
            out.push(fail("bad", format!("{}{}", s, e)));
            return out;
        }
    }
    if real.refused > 0 {
        let k = real.t.msgs.len();
        if real.back <= n {
            out.push(fail("look", format!("look-back {} refused although {} suffices", n, real.back)));
        } else if k > model.t.msgs.len() || real.t.msgs[..] != model.t.msgs[..k] {
            out.push(fail("look", format!("look-back {} (needed {}) was refused, but it delivered {} against {}", n, real.back, real.t.show(), model.t.show())));
        } else if !matches!(real.t.end, End::Err { .. }) {
            out.push(fail("refused", format!("look-back {} (needed {}) was refused, but the parse went on: {} against {}", n, real.back, real.t.show(), model.t.show())));
        } else if real.far == Some(false) {
            out.push(fail("refused", format!("look-back {} (needed {}) was refused, but the error does not say so", n, real.back)));
        }
        return out;
    }
    if rf.rejects_blindly && model.t.end == End::Clean && matches!(real.t.end, End::Err { .. }) && real.t.msgs.len() == model.t.msgs.len() {
        // the session was polled between messages with a grammar that rejects without looking
        real.t.end = End::Clean;
    }
    if let Some(f) = diff("values", &real.t, "the look-back buffer fed in pieces", &model.t, "a slice") {
        out.push(f);
    }
    out
}

fn session<S>(g: &Node, s: Probe<S>, len: usize) -> Run
where
    Probe<S>: In,
    <Probe<S> as StreamOnce>::Error: Light,
{
    ctx::reset();
    let mut p: BoxP<Probe<S>> = mk(g);
    let mut out = Run { t: Trace::new(), back: 0, refused: 0, io: None, far: None };
    let mut s = s;
    loop {
        if s.at == len {
            out.t.end = End::Clean;
            break;
        }
        if out.t.msgs.len() >= MAX_MSGS {
            break;
        }
        let start = s.at;
        ctx::set_budget(200_000);
        out.t.calls += 1;
        // (`parse` takes the stream along; the session keeps the counters by lending it)
        let r = catch_unwind(AssertUnwindSafe(|| p.parse_with_state(&mut s, &mut Default::default())));
        ctx::no_budget();
        match r {
            Err(e) => {
                out.t.end = End::Bad(format!("panic: {}", panic_text(e)));
                break;
            }
            Ok(Ok(v)) => {
                let n = s.at - start;
                out.t.msgs.push(Msg { v, len: n, pos: <Probe<S> as In>::show_pos(&s.position()) });
                if n == 0 {
                    out.t.end = End::Zero;
                    break;
                }
            }
            Ok(Err(e)) => {
                out.t.end = End::Err { eoi: err_eoi::<Probe<S>>(&e), pos: e.at() };
                out.io = e.io();
                out.far = e.far();
                break;
            }
        }
    }
    out.back = s.back;
    out.refused = s.refused;
    out.t.positions = ctx::take_pos();
    out.t.actions = ctx::take_actions();
    out.t.work = ctx::work();
    out
}

pub const NO_IO: u64 = 2;
/// (and the next)
pub const FED: u64 = 4;

pub fn judge(c: &Case, info: &mut Info) -> Vec<Fail> {
    let mut out = vec![];
    let p = match c.parts.first() {
        Some(p) if p.g.is_some() => p,
        _ => return out,
    };
    let g = p.g.as_ref().unwrap();
    let n = p.cap as usize;
    let sticky = c.o("sticky") > 0;
    let iter = p.flav >= NO_IO;
    if !tokens_only(g) || (iter && p.flav != FED && std::str::from_utf8(&p.input).is_err()) {
        return out;
    }
    if p.flav >= FED {
        return judge_fed(c, p, g, info);
    }
    let text: Vec<char> = String::from_utf8_lossy(&p.input).chars().collect();
    let len = if iter { text.len() } else { p.input.len() };
    let ev: &[Ev] = if iter { &[] } else { &p.ev };
    let sc = || Rc::new(RefCell::new(Script::new(ev, len, sticky)));
    let ms = sc();
    let model = if iter {
        session(g, MC_new(&text, ms.clone()), len)
    } else {
        session(g, Probe::new(easy::Stream(position::Stream::with_positioner(Fslice { data: Rc::new(p.input.clone()), at: 0, s: ms.clone() }, IndexPositioner::default()))), len)
    };
    let rs = sc();
    let rd = || Rd { data: p.input.clone(), at: 0, s: rs.clone() };
    let real = match p.flav {
        0 => session::<_>(g, R0::new(buffered::Stream::new(position::Stream::new(read::Stream::new(rd())), n)), len),
        1 => session::<_>(g, R1::new(buffered::Stream::new(easy::Stream(position::Stream::new(read::Stream::new(rd()))), n)), len),
        2 => session::<_>(g, R2::new(buffered::Stream::new(position::Stream::with_positioner(IteratorStream::new(text.clone()), SourcePosition::default()), n)), len),
        _ => session::<_>(g, R3::new(buffered::Stream::new(easy::Stream(position::Stream::with_positioner(IteratorStream::new(text.clone()), SourcePosition::default())), n)), len),
    };
    let (ms, rs) = (ms.borrow(), rs.borrow());
    info.msgs = real.t.msgs.len();
    info.calls = real.t.calls;
    info.work = real.t.work;
    info.end = real.t.end.class();
    info.hash = crate::rng::fnv(p.flav, &[n as u8, model.back as u8, real.refused as u8]);
    info.hash = crate::rng::fnv(info.hash, g.text().as_bytes());
    let mut f = |k: &'static str, n: u64| {
        if n > 0 {
            *info.faults.entry(k).or_default() += n
        }
    };
    f("interrupted read", rs.retried);
    f("read error", rs.fired.len() as u64);
    f("look-back exceeded", real.refused);
    f("look-back used", (model.back > 0) as u64);
    f("end of input", (rs.reads_after_end > 0) as u64);
    if let End::Bad(s) = &model.t.end {
        out.push(fail("bad", format!("over a slice: {}", s)));
        return out;
    }
    if let End::Bad(s) = &real.t.end {
        out.push(fail("bad", s.clone()));
        return out;
    }
    let refusable = model.back > n;
    if refusable && real.refused > 0 {
        // everything before the refusal has to be right, and nothing may come after it
        let k = real.t.msgs.len();
        if k > model.t.msgs.len() || real.t.msgs[..] != model.t.msgs[..k] {
            out.push(fail("look", format!("look-back {} (needed {}) was refused, but it delivered {} against {}", n, model.back, real.t.show(), model.t.show())));
        } else if !matches!(real.t.end, End::Err { .. }) {
            out.push(fail("refused", format!("look-back {} (needed {}) was refused, but the parse went on: {} against {}", n, model.back, real.t.show(), model.t.show())));
        } else if real.far == Some(false) {
            out.push(fail("refused", format!("look-back {} (needed {}) was refused, but the error does not say so", n, model.back)));
        }
        return out;
    }
    if real.refused > 0 {
        out.push(fail("look", format!("look-back {} refused although {} suffices", n, model.back)));
        return out;
    }
    if let Some(f) = diff("look", &real.t, "the one-shot source", &model.t, "a slice") {
        // with too little look-back nothing but a refusal may differ
        out.push(f);
        return out;
    }
    if real.t.positions != model.t.positions {
        out.push(fail("position", format!("positions seen {:?} but over a slice {:?}", real.t.positions, model.t.positions)));
    }
    if let (End::Err { pos: a, .. }, End::Err { pos: b, .. }) = (&real.t.end, &model.t.end) {
        if a.is_some() && a != b {
            out.push(fail("errpos", format!("error at {:?} but over a slice at {:?}", a, b)));
        }
    }
    if rs.fired != ms.fired {
        out.push(fail("io", format!("the reader failed at {:?} but was expected to at {:?}", rs.fired, ms.fired)));
    }
    if !iter && !rs.fired.is_empty() {
        match &real.t.end {
            End::Err { .. } => match real.io {
                Some(k) if rs.fired.iter().any(|f| f.1 == k) => {}
                o => out.push(fail("known:read-error-masked", format!("the reader failed at {:?} but the error is {:?}", rs.fired, o))),
            },
            e => out.push(fail("known:read-error-succeeds", format!("the reader failed at {:?} but the parse ended with {:?}", rs.fired, e))),
        }
    }
    out
}
#[allow(non_snake_case)]
fn MC_new(text: &[char], s: Rc<RefCell<Script>>) -> MC {
    Probe::new(easy::Stream(position::Stream::with_positioner(Fslice { data: Rc::new(text.to_vec()), at: 0, s }, SourcePosition::default())))
}

pub fn tokens_only(g: &Node) -> bool {
    use Op::*;
    !g.any(&mut |n| {
        matches!(
            n.op,
            Str | StrCmp
                | FromStr
                | Range
                | Take
                | TakeWhile
                | TakeWhile1
                | TakeUntilRange
                | TakeFn
                | TakeUntilByte
                | TakeUntilBytes
                | Num
                | LenPrefix
                | RecogRange
                | RecogVal
                | Escaped
        )
    })
}

pub fn gen(r: &mut crate::rng::Rng, faults: bool) -> Case {
    let mut c = Case { kind: "look".into(), ..Case::default() };
    let flav = if faults { r.below(2) } else { r.below(4) };
    let mut pr = crate::gen::Profile::base().swarm(r);
    pr.position = r.chance(1, 2);
    pr.attempt *= 2;
    let mode = if flav >= 2 { crate::gen::Mode::TokensOnlyText } else { crate::gen::Mode::TokensOnly };
    let max = if r.chance(1, 40) { 500 } else { 60 };
    pr.big = max > 60;
    let mut g = crate::gen::G { r, m: mode, p: pr };
    let (gr, input) = g.pair(max, 20);
    let mut ev = vec![];
    if faults {
        for _ in 0..r.below(4) {
            let k = if r.chance(1, 2) { 1 } else { r.below(ERRS.len()) };
            let i = if r.chance(1, 6) { input.len() } else { r.below(input.len() + 1) };
            let n = if r.chance(1, 40) { r.range(4, 300) } else { r.range(1, 3) };
            for _ in 0..n {
                ev.push((1 + k as u8, i as u32));
            }
        }
    }
    let cap = match r.below(4) {
        0 => r.below(3),
        1 => r.below(8),
        2 => r.below(20),
        _ if max > 60 => r.below(600),
        _ => 64,
    };
    c.parts.push(Part { stream: if flav >= 2 { 3 } else { 0 }, flav: flav as u64, cap: cap as u64, g: Some(gr), input, ev, ops: vec![] });
    c.set("sticky", r.chance(1, 2) as u64);
    c
}

/// Look-back buffers over a source whose tokens arrive in pieces.
pub fn gen_fed(r: &mut crate::rng::Rng, tweak: impl Fn(&mut crate::gen::Profile)) -> Case {
    let mut c = Case { kind: "look".into(), ..Case::default() };
    let flav = FED + r.below(2) as u64;
    let mut pr = crate::gen::Profile::base().swarm(r);
    tweak(&mut pr);
    let mode = if flav > FED { crate::gen::Mode::TokensOnlyText } else { crate::gen::Mode::TokensOnly };
    let max = if r.chance(1, 40) { 500 } else { 60 };
    pr.big = max > 60;
    let mut g = crate::gen::G { r, m: mode, p: pr };
    let (gr, input) = g.pair(max, 20);
    let cap = match r.below(8) {
        0 => r.below(4),
        1 => r.below(if max > 60 { 600 } else { 20 }),
        _ => if max > 60 { 1000 } else { 100 },
    };
    let (ev, late) = crate::mem::sched_ev(r, input.len());
    c.parts.push(Part { stream: if flav > FED { 3 } else { 0 }, flav, cap: cap as u64, g: Some(gr), input, ev, ops: vec![] });
    c.set("late", late);
    c
}
