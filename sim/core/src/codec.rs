//! Framed codecs on `decode_tokio`: through tokio-util's FramedRead over a simulated source, and driven by hand.
use crate::ast::{Node, V};
use crate::case::*;
use crate::ctx;
use crate::drv::*;
use crate::mem::{diff, fail, is_text, judge_err, posmode, with_stream, Fail, Info};
use crate::mk::{mk, BoxP, St};
use crate::src::*;
use crate::strm::*;
use bytes::{Buf, BytesMut};
use futures_core::Stream as _;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio_util::codec::{Decoder, FramedRead};

#[derive(Debug)]
enum CErr {
    Io(io::Error),
    Parse { eoi: bool, pos: Option<String> },
    Bad(String),
}
impl From<io::Error> for CErr {
    fn from(e: io::Error) -> CErr {
        CErr::Io(e)
    }
}
struct Codec<I: Bufd> {
    p: BoxP<I>,
    st: St,
    g: Node,
    rebuild: bool,
    pos: I::Pos,
    /// log of what the framing did: (bytes at hand, consumed, frame?, at the end?)
    log: Vec<(usize, usize, bool, bool)>,
    consumed: usize,
    marks: Vec<(usize, String)>,
}
impl<I: Bufd> Codec<I> {
    fn new(g: &Node, rebuild: bool) -> Codec<I> {
        Codec { p: mk::<I>(g), st: St::default(), g: g.clone(), rebuild, pos: I::Pos::default(), log: vec![], consumed: 0, marks: vec![] }
    }
    fn go(&mut self, src: &mut BytesMut, end: bool) -> Result<Option<V>, CErr> {
        if self.rebuild {
            self.p = mk::<I>(&self.g);
        }
        let (r, n, left, whole) = {
            let mut b: &[u8] = &src[..];
            if I::TEXT {
                b = match std::str::from_utf8(b) {
                    Ok(_) => b,
                    Err(e) => &b[..e.valid_up_to()],
                };
            }
            let mut s = I::over(unsafe { stat(b) }, !end, self.pos.clone());
            match combine::stream::decode_tokio(&mut self.p, &mut s, &mut self.st) {
                Ok((v, n)) => {
                    self.pos = s.pos();
                    (v, n, s.rest_len(), b.len())
                }
                Err(e) => return Err(CErr::Parse { eoi: err_eoi::<I>(&e), pos: I::err_pos(&e) }),
            }
        };
        if n > whole {
            return Err(CErr::Bad(format!("reported {} bytes consumed of {}", n, whole)));
        }
        if left != whole - n {
            return Err(CErr::Bad(format!("reported {} of {} bytes consumed but the stream was left with {}", n, whole, left)));
        }
        self.log.push((src.len(), n, r.is_some(), end));
        src.advance(n);
        self.consumed += n;
        if r.is_some() {
            self.marks.push((self.consumed, if I::HAS_POS { format!("{}", show::<I>(&self.pos)) } else { String::new() }));
        }
        Ok(r)
    }
}
fn show<I: Bufd>(p: &I::Pos) -> String {
    // `Pos` of positioned streams is their position
    let s = I::over(b"", false, p.clone());
    I::show_pos(&combine::stream::Positioned::position(&s))
}
impl<I: Bufd> Decoder for Codec<I> {
    type Item = V;
    type Error = CErr;
    fn decode(&mut self, src: &mut BytesMut) -> Result<Option<V>, CErr> {
        self.go(src, false)
    }
    fn decode_eof(&mut self, src: &mut BytesMut) -> Result<Option<V>, CErr> {
        self.go(src, true)
    }
}

struct Out_ {
    t: Trace,
    fails: Vec<Fail>,
    polls: u64,
    /// nothing was left in the buffer
    all: bool,
}

fn settle<I: Bufd>(t: &mut Trace, c: &Codec<I>, vals: Vec<V>) {
    let mut start = 0;
    for (v, (end, pos)) in vals.into_iter().zip(c.marks.iter()) {
        t.msgs.push(Msg { v, len: end - start, pos: pos.clone() });
        start = *end;
    }
}

fn framed<I: Bufd>(p: &Part, rebuild: bool) -> (Out_, Src) {
    let src = Src::new(&p.input, &p.ev);
    let mut out = Out_ { t: Trace::new(), fails: vec![], polls: 0, all: false };
    let codec = Codec::<I>::new(p.g.as_ref().unwrap(), rebuild);
    let mut fr = if p.cap == 99 { FramedRead::new(src.clone(), codec) } else { FramedRead::with_capacity(src.clone(), codec, p.cap as usize) };
    let limit = p.input.len() as u64 * 2 + p.ev.iter().map(|e| e.1 as u64 % 100 + 2).sum::<u64>() + 50;
    let mut vals = vec![];
    let mut after_err = false;
    let mut clean = 0;
    loop {
        out.polls += 1;
        if out.polls > limit {
            out.t.end = End::Bad("the framed reader does not end".into());
            break;
        }
        let flag = Arc::new(Flag(std::sync::atomic::AtomicBool::new(false)));
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        let before = src.0.borrow().calls.len();
        ctx::set_budget(400_000);
        let r = catch_unwind(AssertUnwindSafe(|| Pin::new(&mut fr).poll_next(&mut cx)));
        ctx::no_budget();
        let last = src.0.borrow().calls[before..].last().map(|c| c.out);
        match r {
            Err(e) => {
                out.t.end = End::Bad(format!("panic: {}", panic_text(e)));
                break;
            }
            Ok(Poll::Pending) => {
                src.0.borrow_mut().cancel = 0;
                if last != Some(Out::Pend) {
                    out.t.end = End::Bad(format!("pending although the source is not ({:?})", last));
                    break;
                }
            }
            Ok(Poll::Ready(Some(Ok(v)))) => {
                after_err = false;
                vals.push(v);
                let n = fr.decoder().marks.len();
                if n != vals.len() {
                    out.t.end = End::Bad(format!("{} frames decoded but {} delivered", n, vals.len()));
                    break;
                }
                let prev = if n > 1 { fr.decoder().marks[n - 2].0 } else { 0 };
                if fr.decoder().marks[n - 1].0 == prev {
                    out.t.end = End::Zero;
                    break;
                }
            }
            Ok(Poll::Ready(Some(Err(CErr::Io(e))))) => {
                match last {
                    Some(Out::Err(_, k)) if ERRS[k] == e.kind() => {}
                    o => out.fails.push(fail("io", format!("I/O error {:?} but the source answered {:?}", e.kind(), o))),
                }
                after_err = true;
            }
            Ok(Poll::Ready(Some(Err(CErr::Parse { eoi, pos })))) => {
                out.t.end = End::Err { eoi, pos };
                break;
            }
            Ok(Poll::Ready(Some(Err(CErr::Bad(s))))) => {
                out.t.end = End::Bad(s);
                break;
            }
            Ok(Poll::Ready(None)) => {
                if after_err {
                    // tokio-util: one None after an error, then reading goes on
                    after_err = false;
                    continue;
                }
                clean += 1;
                if clean < 3 {
                    // polling a finished reader again must stay harmless
                    continue;
                }
                out.t.end = End::Clean;
                break;
            }
        }
        let buf = fr.read_buffer();
        let c = fr.decoder();
        let s = src.0.borrow();
        if c.consumed + buf.len() != s.pos || buf[..] != p.input[c.consumed.min(s.pos)..s.pos] {
            out.fails.push(fail("bytes", format!("{} bytes consumed, {} held, {} received", c.consumed, buf.len(), s.pos)));
            break;
        }
    }
    {
        let c = fr.decoder();
        settle(&mut out.t, c, vals);
        finish_log(&mut out, &c.log, p.input.len(), c.consumed);
    }
    out.t.actions = ctx::take_actions();
    let _ = catch_unwind(AssertUnwindSafe(move || drop(fr)));
    (out, src)
}

fn finish_log(out: &mut Out_, log: &[(usize, usize, bool, bool)], len: usize, consumed: usize) {
    for (have, n, frame, end) in log {
        if *end && !*frame && (*n > 0 || *have > 0) {
            out.fails.push(fail("eof", format!("at the end of input, {} bytes left, it answered \"no frame\" and consumed {}", have, n)));
        }
    }
    out.all = consumed == len;
    if out.t.end == End::Clean && consumed != len {
        out.fails.push(fail("eof", format!("the stream ended cleanly after {} of {} bytes", consumed, len)));
    }
}

/// The codec driven without FramedRead: the caller decides how much arrives before each call, may call again with nothing
/// new, and may ask at the end more than once.
fn direct<I: Bufd>(p: &Part, rebuild: bool) -> (Out_, Src) {
    let src = Src::new(&p.input, &p.ev);
    let mut out = Out_ { t: Trace::new(), fails: vec![], polls: 0, all: false };
    let mut c = Codec::<I>::new(p.g.as_ref().unwrap(), rebuild);
    let mut buf = BytesMut::with_capacity(p.cap as usize);
    let mut vals = vec![];
    let mut end = false;
    let mut nones = 0;
    let limit = p.input.len() as u64 * 3 + p.ev.len() as u64 * 2 + 60;
    loop {
        out.polls += 1;
        if out.polls > limit {
            out.t.end = End::Bad("the codec does not end".into());
            break;
        }
        ctx::set_budget(400_000);
        let r = catch_unwind(AssertUnwindSafe(|| if end { c.decode_eof(&mut buf) } else { c.decode(&mut buf) }));
        ctx::no_budget();
        match r {
            Err(e) => {
                out.t.end = End::Bad(format!("panic: {}", panic_text(e)));
                break;
            }
            Ok(Ok(Some(v))) => {
                vals.push(v);
                let n = c.marks.len();
                let prev = if n > 1 { c.marks[n - 2].0 } else { 0 };
                if c.marks[n - 1].0 == prev {
                    out.t.end = End::Zero;
                    break;
                }
            }
            Ok(Ok(None)) => {
                if end {
                    nones += 1;
                    // asking again is harmless between frames; inside one the saved state is spent
                    let inside = c.consumed > c.marks.last().map_or(0, |m| m.0);
                    if nones < 3 && !inside {
                        continue;
                    }
                    out.t.end = End::Clean;
                    break;
                }
                // a source step: data moves into the buffer, which may be reallocated at will
                let mut s = src.0.borrow_mut();
                let (o, d, _) = s.read(usize::MAX / 2, None);
                match o {
                    Out::Data(_) => {
                        if out.polls % 3 == 0 {
                            let mut nb = BytesMut::with_capacity(buf.len() + d.len());
                            nb.extend_from_slice(&buf);
                            buf = nb;
                        }
                        buf.extend_from_slice(d)
                    }
                    Out::Eof => end = true,
                    _ => {}
                }
            }
            Ok(Err(CErr::Parse { eoi, pos })) => {
                out.t.end = End::Err { eoi, pos };
                break;
            }
            Ok(Err(CErr::Bad(s))) => {
                out.t.end = End::Bad(s);
                break;
            }
            Ok(Err(CErr::Io(_))) => unreachable!("harness: the codec does no I/O"),
        }
    }
    settle(&mut out.t, &c, vals);
    finish_log(&mut out, &c.log, p.input.len(), c.consumed);
    out.t.actions = ctx::take_actions();
    (out, src)
}

pub fn judge(c: &Case, info: &mut Info) -> Vec<Fail> {
    let mut out = vec![];
    let p = match c.parts.first() {
        Some(p) if p.g.is_some() => p,
        _ => return out,
    };
    let (one, rf) = crate::dec::once_of(p);
    ctx::reset();
    let rb = c.o("rebuild") > 0;
    let (o, src) = with_stream!(p.stream, I => if p.flav % 2 == 0 { framed::<I>(p, rb) } else { direct::<I>(p, rb) });
    let s = src.0.borrow();
    info.msgs = o.t.msgs.len();
    info.calls = o.polls;
    info.nones = s.calls.len() as u64;
    info.work = o.polls;
    for (k, v) in &s.faults {
        *info.faults.entry(k).or_default() += v;
    }
    info.hash = p.flav % 2;
    for k in &s.calls {
        let (a, b) = match k.out {
            Out::Data(n) => (0u8, n),
            Out::Eof => (1, 0),
            Out::Err(_, k) => (2, k),
            Out::Pend => (3, 0),
        };
        info.hash = crate::rng::fnv(info.hash, &[a, b as u8, (b >> 8) as u8]);
    }
    if s.eofs > 0 {
        *info.faults.entry("end of input").or_default() += 1;
    }
    out.extend(o.fails);
    if let End::Bad(s) = &o.t.end {
        out.push(fail("bad", s.clone()));
        return out;
    }
    if rf.soft || rf.stop {
        info.skipped = true;
        return out;
    }
    if let End::Bad(s) = &one.end {
        out.push(fail("bad", format!("one-shot: {}", s)));
        return out;
    }
    if let Some(f) = diff("oracle", &one, "one-shot parse", &rf.t, "reference") {
        out.push(f);
    }
    let mut inc = o.t.clone();
    if rf.rejects_blindly && one.end == End::Clean && matches!(inc.end, End::Err { .. }) && inc.msgs.len() == one.msgs.len() {
        inc.end = End::Clean;
    }
    info.end = inc.end.class();
    if inc.end == End::Clean && matches!(one.end, End::Err { eoi: true, .. }) && inc.msgs.len() == one.msgs.len() && o.all {
        // everything was taken in, a part of it for a frame that never ended
        out.push(fail("known:eof-inside-frame", format!("the input ended inside a frame of which nothing was left in the buffer; it ended with {:?}", inc.end)));
        inc.end = one.end.clone();
    }
    if let Some(f) = diff("values", &inc, "codec", &one, "one-shot parse") {
        out.push(f);
        return out;
    }
    judge_err(p.g.as_ref().unwrap(), &inc.end, &one.end, &rf, rb, &mut out);
    out
}

pub fn gen(r: &mut crate::rng::Rng) -> Case {
    let mut c = Case { kind: "codec".into(), ..Case::default() };
    let (e, p) = (if r.chance(1, 2) { 0 } else { r.range(2, 20) }, if r.chance(1, 3) { 0 } else { r.range(5, 40) });
    let stream = r.below(crate::mem::NSTREAMS);
    let mut pr = crate::gen::Profile::base().swarm(r);
    pr.position = posmode(stream) > 0 && r.chance(1, 3);
    let mode = if is_text(stream) { crate::gen::Mode::Text } else { crate::gen::Mode::Bytes };
    let mut g = crate::gen::G { r, m: mode, p: pr };
    let (gr, mut input) = g.pair(60, 20);
    if r.chance(1, 3) {
        let k = r.below(input.len() + 1);
        input.truncate(k);
        if mode == crate::gen::Mode::Text {
            input = crate::gen::fix_utf8(input);
        }
    }
    let ev = script(r, input.len(), e, p, 0);
    let cap = if r.chance(1, 4) { 99 } else { r.below(20) as u64 };
    c.parts.push(Part { stream, flav: r.below(2) as u64, cap, g: Some(gr), input, ev, ops: vec![] });
    c.set("rebuild", r.chance(1, 6) as u64);
    c
}
