//! Decoder sessions over simulated sources: every decode macro, both buffering modes, any number of sessions interleaved.
use crate::ast::{Node, V};
use crate::case::*;
use crate::ctx;
use crate::drv::*;
use crate::mem::{diff, fail, judge_actions, judge_causes, judge_err, posmode, with_stream, Fail, Info};
use crate::mk::{mk, BoxP, St};
use crate::refm::{tokenize, M};
use crate::src::*;
use crate::strm::*;
use combine::stream::buf_reader::{Buffer, BufReader, Bufferless};
use combine::stream::decoder::Error as DErr;
use combine::stream::{Decoder, MaybePartialStream};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub const FLAVOURS: [&str; 10] = [
    "sync/owned",
    "sync/bufferless",
    "tokio/owned",
    "tokio/bufferless",
    "tokio-0.2/owned",
    "tokio-0.2/bufferless",
    "tokio-0.3/owned",
    "tokio-0.3/bufferless",
    "futures/owned",
    "futures/bufferless",
];

type Res<I> = Result<V, DErr<<I as combine::StreamOnce>::Error, <I as combine::StreamOnce>::Position>>;

trait Conn<I: Bufd> {
    /// Begins a decode call (a blocking flavour does nothing yet).
    fn start(&mut self);
    fn pending(&self) -> bool;
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Res<I>>;
    fn cancel(&mut self);
    fn buffer(&self) -> Vec<u8>;
    fn position(&self) -> I::P;
}

/// Largest prefix that is whole characters.
fn trim<I: In>(b: &[u8]) -> &[u8] {
    if !I::TEXT {
        return b;
    }
    match std::str::from_utf8(b) {
        Ok(_) => b,
        Err(e) => &b[..e.valid_up_to()],
    }
}
struct PGen<I: Bufd> {
    g: Node,
    rebuild: bool,
    p: BoxP<I>,
}
impl<I: Bufd> PGen<I> {
    fn get(&mut self) -> &mut BoxP<I> {
        if self.rebuild {
            self.p = mk::<I>(&self.g);
        }
        &mut self.p
    }
}
fn open<I: Bufd>(input: MaybePartialStream<&[u8]>, pos: I::P) -> I {
    ctx::attempt();
    let b: &'static [u8] = unsafe { stat(trim::<I>(input.0)) };
    I::over_at(b, input.1, pos)
}

struct C<I: Bufd, B, R> {
    d: *mut Decoder<St, I::P, B>,
    r: *mut R,
    p: *mut PGen<I>,
    fut: Option<Pin<Box<dyn Future<Output = Res<I>>>>>,
    buf: fn(&Decoder<St, I::P, B>, &R) -> Vec<u8>,
    fut_of: fn(*mut Decoder<St, I::P, B>, *mut R, *mut PGen<I>) -> Pin<Box<dyn Future<Output = Res<I>>>>,
}
impl<I: Bufd, B, R> Drop for C<I, B, R> {
    fn drop(&mut self) {
        self.fut = None;
        unsafe {
            drop(Box::from_raw(self.d));
            drop(Box::from_raw(self.r));
            drop(Box::from_raw(self.p));
        }
    }
}
impl<I: Bufd, B, R> Conn<I> for C<I, B, R> {
    fn start(&mut self) {
        self.fut = Some((self.fut_of)(self.d, self.r, self.p));
    }
    fn pending(&self) -> bool {
        self.fut.is_some()
    }
    fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Res<I>> {
        let r = self.fut.as_mut().unwrap().as_mut().poll(cx);
        if r.is_ready() {
            self.fut = None;
        }
        r
    }
    fn cancel(&mut self) {
        self.fut = None;
    }
    fn buffer(&self) -> Vec<u8> {
        unsafe { (self.buf)(&*self.d, &*self.r) }
    }
    fn position(&self) -> I::P {
        unsafe { *(*self.d).position() }
    }
}

macro_rules! conn {
    ($I:ident, $mac:ident, $new:ident, $B:ty, $r:expr, $R:ty, |$d:ident, $rr:ident| $buf:expr, $p:expr) => {
        Box::new(C::<$I, $B, $R> {
            d: Box::into_raw(Box::new(Decoder::$new())),
            r: Box::into_raw(Box::new($r)),
            p: Box::into_raw(Box::new($p)),
            fut: None,
            buf: |$d, $rr| $buf,
            fut_of: |d, r, p| {
                Box::pin(async move {
                    let (d, r, p) = unsafe { (&mut *d, &mut *r, &mut *p) };
                    combine::$mac!(*d, *r, p.get(), |i: MaybePartialStream<&[u8]>, pos: $I::P| open::<$I>(i, pos), |s: $I| {
                        if $I::HAS_POS {
                            ctx::log_pos(format!("post {}", $I::show_pos(&s.position())))
                        }
                    })
                })
            },
        }) as Box<dyn Conn<$I>>
    };
}

fn connect<I: Bufd>(flav: u64, cap: u64, src: Src, g: &Node, rebuild: bool) -> Box<dyn Conn<I>> {
    let p = PGen::<I> { g: g.clone(), rebuild, p: mk::<I>(g) };
    let b = || BufReader::with_capacity(cap as usize, src.clone());
    match flav % 10 {
        0 => conn!(I, decode, new, Buffer, src, Src, |d, _r| d.buffer().to_vec(), p),
        1 => conn!(I, decode, new_bufferless, Bufferless, b(), BufReader<Src>, |_d, r| r.buffer().to_vec(), p),
        2 => conn!(I, decode_tokio, new, Buffer, src, Src, |d, _r| d.buffer().to_vec(), p),
        3 => conn!(I, decode_tokio, new_bufferless, Bufferless, b(), BufReader<Src>, |_d, r| r.buffer().to_vec(), p),
        4 => conn!(I, decode_tokio_02, new, Buffer, src, Src, |d, _r| d.buffer().to_vec(), p),
        5 => conn!(I, decode_tokio_02, new_bufferless, Bufferless, b(), BufReader<Src>, |_d, r| r.buffer().to_vec(), p),
        6 => conn!(I, decode_tokio_03, new, Buffer, src, Src, |d, _r| d.buffer().to_vec(), p),
        7 => conn!(I, decode_tokio_03, new_bufferless, Bufferless, b(), BufReader<Src>, |_d, r| r.buffer().to_vec(), p),
        8 => conn!(I, decode_futures_03, new, Buffer, src, Src, |d, _r| d.buffer().to_vec(), p),
        _ => conn!(I, decode_futures_03, new_bufferless, Bufferless, b(), BufReader<Src>, |_d, r| r.buffer().to_vec(), p),
    }
}

pub struct DecTrace {
    pub t: Trace,
    pub src: Src,
    pub steps: u64,
    pub polls: u64,
    pub cancels: u64,
    pub fails: Vec<Fail>,
}
trait Sess {
    fn step(&mut self) -> bool;
    fn done(self: Box<Self>) -> DecTrace;
}

pub fn pos_at(input: &[u8], off: usize, text: bool, pm: u8) -> String {
    let (toks, offs) = tokenize(input, text);
    let m = M::new(&toks, &offs, input, text, pm, if pm == 2 { (1, 1) } else { (0, 0) });
    let i = offs.binary_search(&off).unwrap_or_else(|i| i);
    m.pos_str(i)
}

struct S<I: Bufd> {
    c: Option<Box<dyn Conn<I>>>,
    src: Src,
    input: Vec<u8>,
    pm: u8,
    t: Trace,
    fails: Vec<Fail>,
    msg_start: usize,
    consumed: usize,
    errs_seen: usize,
    steps: u64,
    polls: u64,
    cancels: u64,
    limit: u64,
    budget: u64,
    attempts: u64,
    waker: Option<(Arc<Flag>, Waker)>,
}
impl<I: Bufd> S<I> {
    fn bad(&mut self, aspect: &'static str, s: String) -> bool {
        self.fails.push(fail(aspect, s));
        false
    }
    /// Bytes received, minus bytes still held, are the bytes consumed; what is held must be the source's own bytes.
    fn account(&mut self) -> Result<(), String> {
        let buf = self.c.as_ref().unwrap().buffer();
        let got = self.src.0.borrow().pos;
        if buf.len() > got {
            return Err(format!("{} bytes buffered but only {} received", buf.len(), got));
        }
        if buf[..] != self.input[got - buf.len()..got] {
            return Err(format!("buffer holds {:?}, the source delivered {:?}", crate::ast::esc(&buf), crate::ast::esc(&self.input[got - buf.len()..got])));
        }
        let now = got - buf.len();
        if now < self.consumed {
            return Err(format!("consumed count went back from {} to {}", self.consumed, now));
        }
        self.consumed = now;
        Ok(())
    }
    fn check_pos(&mut self, what: &str) {
        if !I::HAS_POS {
            return;
        }
        let p = I::show_pos(&self.c.as_ref().unwrap().position());
        let want = pos_at(&self.input, self.consumed, I::TEXT, self.pm);
        if p != want {
            self.fails.push(fail("position", format!("{}: decoder is at {} after {} bytes, which is {}", what, p, self.consumed, want)));
        }
        let posts = ctx::take_pos();
        if let Some(l) = posts.iter().rev().find(|l| l.starts_with("post ")) {
            if l[5..] != p {
                self.fails.push(fail("position", format!("{}: decoder is at {} but its last stream ended at {}", what, p, &l[5..])));
            }
        }
        self.t.positions.extend(posts.into_iter().filter(|l| !l.starts_with("post ")));
    }
}
impl<I: Bufd> Sess for S<I> {
    fn step(&mut self) -> bool {
        if self.steps > self.limit {
            self.t.end = End::Bad("the session does not end".into());
            return self.bad("bad", "the session does not end".into());
        }
        self.steps += 1;
        let c = self.c.as_mut().unwrap();
        if !c.pending() {
            c.start();
            self.t.calls += 1;
        }
        let flag = Arc::new(Flag(std::sync::atomic::AtomicBool::new(false)));
        let waker = Waker::from(flag.clone());
        let mut cx = Context::from_waker(&waker);
        let before = self.src.0.borrow().calls.len();
        self.src.0.borrow_mut().waker = None;
        self.src.0.borrow_mut().msg = self.t.msgs.len();
        ctx::set_budget(self.budget);
        self.polls += 1;
        let a0 = ctx::attempts();
        let r = catch_unwind(AssertUnwindSafe(|| c.poll(&mut cx)));
        ctx::no_budget();
        self.attempts += ctx::attempts() - a0;
        self.t.actions.extend(ctx::take_actions());
        let r = match r {
            Err(e) => {
                let s = panic_text(e);
                self.t.end = End::Bad(format!("panic: {}", s));
                c.cancel();
                return self.bad("bad", format!("panic: {}", s));
            }
            Ok(r) => r,
        };
        // what the source did during this poll
        let (calls, v) = {
            let mut s = self.src.0.borrow_mut();
            let v = std::mem::take(&mut s.violations);
            (s.calls[before..].to_vec(), v)
        };
        for v in v {
            self.fails.push(fail("bytes", v));
        }
        for w in calls.windows(2) {
            if matches!(w[0].out, Out::Data(_)) && w[0].attempts == w[1].attempts {
                self.fails.push(fail("demand", format!("the source was asked again at byte {} before the bytes it had delivered were looked at", w[1].at)));
            }
            if matches!(w[0].out, Out::Pend) {
                self.fails.push(fail("wake", "the source was polled again after it had been pending".into()));
            }
            if matches!(w[0].out, Out::Err(..)) {
                self.fails.push(fail("io", "the source was asked again after it had failed, without telling the caller".into()));
            }
        }
        for k in &calls {
            if k.out == Out::Eof && self.src.0.borrow().eofs > 1 {
                self.fails.push(fail("demand", "the source was asked again after it had reported its end".into()));
                self.src.0.borrow_mut().eofs = 1;
            }
            self.t.asks.push((k.msg, k.at));
        }
        // "eofs" counts only the first end; a call after it is logged as Eof too
        let eof_calls = self.src.0.borrow().calls.iter().filter(|c| c.out == Out::Eof && c.cap > 0).count();
        if eof_calls > 1 && !self.fails.iter().any(|f| f.detail.contains("reported its end")) {
            self.fails.push(fail("demand", "the source was asked again after it had reported its end".into()));
        }
        let last = calls.last().map(|c| c.out);
        match r {
            Poll::Pending => {
                if let Err(e) = self.account() {
                    return self.bad("bytes", e);
                }
                if last != Some(Out::Pend) {
                    self.t.end = End::Bad("pending".into());
                    return self.bad("wake", format!("decode is pending although the source is not (its last answer: {:?})", last));
                }
                self.check_pos("pending");
                match self.src.0.borrow_mut().waker.take() {
                    None => return false,
                    Some(w) => w.wake(),
                }
                if !flag.0.load(Ordering::SeqCst) {
                    self.t.end = End::Bad("lost wake-up".into());
                    return self.bad("wake", "waking the source's waker does not wake the task that polled last".into());
                }
                self.waker = Some((flag, waker));
                let k = std::mem::take(&mut self.src.0.borrow_mut().cancel);
                if k > 0 {
                    self.cancels += 1;
                    let c = self.c.as_mut().unwrap();
                    c.cancel();
                    // a future that is created and dropped without being polled must be harmless, too
                    for _ in 1..k {
                        c.start();
                        c.cancel();
                    }
                }
                true
            }
            Poll::Ready(Ok(v)) => {
                if let Err(e) = self.account() {
                    self.t.end = End::Bad(e.clone());
                    return self.bad("bytes", e);
                }
                if let Some(Out::Err(id, k)) = last {
                    self.errs_seen += 1;
                    self.fails.push(fail("io", format!("error {} ({:?}) of the source was swallowed: decode answered {}", id, ERRS[k], v.show())));
                }
                if last == Some(Out::Pend) {
                    self.fails.push(fail("wake", "the source was pending but decode answered".into()));
                }
                self.check_pos("message");
                let len = self.consumed - self.msg_start;
                let pos = if I::HAS_POS { I::show_pos(&self.c.as_ref().unwrap().position()) } else { String::new() };
                self.t.msgs.push(Msg { v, len, pos });
                self.t.seen.push(self.src.0.borrow().pos);
                self.msg_start = self.consumed;
                if len == 0 {
                    self.t.end = End::Zero;
                    return false;
                }
                if self.t.msgs.len() >= 4000 {
                    return false;
                }
                true
            }
            Poll::Ready(Err(DErr::Io { position, error })) => {
                if let Err(e) = self.account() {
                    self.t.end = End::Bad(e.clone());
                    return self.bad("bytes", e);
                }
                match last {
                    Some(Out::Err(id, k)) => {
                        self.errs_seen += 1;
                        if error.kind() != ERRS[k] {
                            self.fails.push(fail("io", format!("the source failed with {:?}, decode reports {:?}", ERRS[k], error.kind())));
                        }
                        if let Some(x) = err_id(&error) {
                            if x != id {
                                self.fails.push(fail("io", format!("the source failed with error {}, decode reports error {}", id, x)));
                            }
                        } else if error.get_ref().is_some() {
                            self.fails.push(fail("io", "the reported error is not the one of the source".into()));
                        }
                    }
                    o => {
                        self.t.end = End::Bad("io".into());
                        return self.bad("io", format!("decode reports the I/O error {:?} but the source's last answer was {:?}", error.kind(), o));
                    }
                }
                if I::HAS_POS {
                    let want = pos_at(&self.input, self.consumed, I::TEXT, self.pm);
                    let got = I::show_pos(&position);
                    if want != got {
                        self.fails.push(fail("position", format!("the I/O error is reported at {}, the first unconsumed byte is at {}", got, want)));
                    }
                }
                self.check_pos("I/O error");
                if let Some(e) = I::io_as_stream_error(DErr::Io { position, error }) {
                    self.fails.push(fail("io", e));
                }
                true
            }
            Poll::Ready(Err(DErr::Parse(e))) => {
                let eoi = err_eoi::<I>(&e);
                let pos = I::err_pos(&e);
                self.t.errs = I::err_items(e);
                if let Err(e) = self.account() {
                    self.t.end = End::Bad(e.clone());
                    return self.bad("bytes", e);
                }
                if let Some(Out::Err(id, k)) = last {
                    self.errs_seen += 1;
                    self.fails.push(fail("io", format!("error {} ({:?}) of the source was reported as a parse error", id, ERRS[k])));
                }
                if last == Some(Out::Pend) {
                    self.fails.push(fail("wake", "the source was pending but decode answered".into()));
                }
                if I::HAS_POS {
                    ctx::take_pos().into_iter().filter(|l| !l.starts_with("post ")).for_each(|l| self.t.positions.push(l));
                }
                let s = self.src.0.borrow();
                self.t.end = if s.eofs > 0 && self.msg_start == self.input.len() { End::Clean } else { End::Err { eoi, pos } };
                false
            }
        }
    }
    fn done(mut self: Box<Self>) -> DecTrace {
        if let Some(c) = self.c.take() {
            // a panicking or overdue run may be abandoned in the middle of a poll
            let _ = catch_unwind(AssertUnwindSafe(move || drop(c)));
        }
        self.t.work = self.attempts;
        DecTrace {
            t: std::mem::replace(&mut self.t, Trace::new()),
            src: self.src.clone(),
            steps: self.steps,
            polls: self.polls,
            cancels: self.cancels,
            fails: std::mem::take(&mut self.fails),
        }
    }
}

fn open_sess(p: &Part, rebuild: bool) -> Box<dyn Sess> {
    with_stream!(p.stream, I => {
        let src = Src::new(&p.input, &p.ev);
        let g = p.g.clone().unwrap();
        let extra: u64 = p.ev.iter().map(|e| match e.0 { PEND => e.1 as u64 + 2, DATA => 1, _ => 2 }).sum();
        Box::new(S::<I> {
            c: Some(connect::<I>(p.flav, p.cap, src.clone(), &g, rebuild)),
            src,
            input: p.input.clone(),
            pm: posmode(p.stream),
            t: Trace::new(),
            fails: vec![],
            msg_start: 0,
            consumed: 0,
            errs_seen: 0,
            steps: 0,
            polls: 0,
            cancels: 0,
            limit: extra + p.input.len() as u64 * 2 + 40,
            budget: 400_000 + 2_000 * p.input.len() as u64,
            attempts: 0,
            waker: None,
        })
    })
}

/// The one-shot session and the model for one part.
pub fn once_of(p: &Part) -> (Trace, RefTrace) {
    let g = p.g.as_ref().unwrap();
    let o = Opts { max_msgs: 4000, budget: 400_000 + 2_000 * p.input.len() as u64, ..Opts::default() };
    let rf = run_ref(g, &p.input, crate::mem::is_text(p.stream), posmode(p.stream), o.max_msgs);
    let one = with_stream!(p.stream, I => { let mut q = mk::<I>(g); run_once::<I>(&mut q, &p.input, &o) });
    (one, rf)
}

pub fn judge(c: &Case, info: &mut Info) -> Vec<Fail> {
    let mut out = vec![];
    let parts: Vec<&Part> = c.parts.iter().filter(|p| p.g.is_some()).collect();
    if parts.is_empty() {
        return out;
    }
    let refs: Vec<(Trace, RefTrace)> = parts.iter().map(|p| once_of(p)).collect();
    ctx::reset();
    let mut live: Vec<(usize, Box<dyn Sess>)> = parts.iter().enumerate().map(|(i, p)| (i, open_sess(p, c.o("rebuild") > 0))).collect();
    let mut done: Vec<Option<DecTrace>> = parts.iter().map(|_| None).collect();
    let mut oi = 0;
    let mut sched_hash = 7u64;
    while !live.is_empty() {
        let k = if oi < c.order.len() { c.order[oi] as usize % live.len() } else { oi % live.len() };
        oi += 1;
        sched_hash = crate::rng::fnv(sched_hash, &[live[k].0 as u8]);
        if !live[k].1.step() {
            let (i, s) = live.remove(k);
            done[i] = Some(s.done());
        }
    }
    info.hash = sched_hash;
    for (i, p) in parts.iter().enumerate() {
        let d = done[i].take().unwrap();
        let (one, rf) = &refs[i];
        let s = d.src.0.borrow();
        info.msgs += d.t.msgs.len();
        info.calls += d.t.calls;
        info.nones += s.calls.len() as u64;
        info.work += d.polls;
        for (k, v) in &s.faults {
            *info.faults.entry(k).or_default() += v;
        }
        for k in &s.calls {
            let (a, b) = match k.out {
                Out::Data(n) => (0u8, n),
                Out::Eof => (1, 0),
                Out::Err(_, k) => (2, k),
                Out::Pend => (3, 0),
            };
            info.hash = crate::rng::fnv(info.hash, &[a, b as u8, (b >> 8) as u8]);
        }
        info.hash = crate::rng::fnv(info.hash, &[p.flav as u8]);
        if s.eofs > 0 {
            *info.faults.entry("end of input").or_default() += 1;
        }
        let who = format!("session {} ({})", i, FLAVOURS[p.flav as usize % 10]);
        for f in &d.fails {
            out.push(fail(f.aspect, format!("{}: {}", who, f.detail)));
        }
        if rf.soft || rf.stop {
            info.skipped = true;
            continue;
        }
        if let End::Bad(s) = &one.end {
            out.push(fail("bad", format!("one-shot: {}", s)));
            continue;
        }
        if let Some(f) = diff("oracle", one, "one-shot parse", &rf.t, "reference") {
            out.push(f);
        }
        if matches!(d.t.end, End::Bad(_)) {
            continue;
        }
        let mut inc = d.t.clone();
        if rf.rejects_blindly && one.end == End::Clean && matches!(inc.end, End::Err { .. }) && inc.msgs.len() == one.msgs.len() {
            inc.end = End::Clean;
        }
        info.end = inc.end.class();
        if let Some(f) = diff("values", &inc, "decoder", one, "one-shot parse") {
            out.push(fail(f.aspect, format!("{}: {}", who, f.detail)));
            continue;
        }
        let mut fs = vec![];
        judge_err(p.g.as_ref().unwrap(), &inc.end, &one.end, rf, c.o("rebuild") > 0, &mut fs);
        judge_causes(&inc, one, rf, c.o("rebuild") > 0, &mut fs);
        out.extend(fs.into_iter().map(|f| fail(f.aspect, format!("{}: {}", who, f.detail))));
        if matches!(one.end, End::Clean) {
            let mut fs = vec![];
            judge_actions(p.g.as_ref().unwrap(), &inc, one, &mut fs);
            out.extend(fs.into_iter().map(|f| fail(f.aspect, format!("{}: {}", who, f.detail))));
        }
        for (i, given) in &inc.asks {
            if let Some(t) = rf.touched.get(*i) {
                if t <= given {
                    out.push(fail("demand", format!("{}: message {} is settled by byte {} but the source was asked for more with {} bytes at hand", who, i, t, given)));
                    break;
                }
            }
        }
    }
    out
}
