//! The buffered reader against a byte-stream model: plain reads, fill/consume, decoders that borrow its buffer and
//! writes, in any interleaving over a simulated source.
use crate::ast::V;
use crate::case::*;
use crate::ctx;
use crate::drv::{panic_text, run_once, run_ref, End, Opts};
use crate::mem::{fail, Fail, Info};
use crate::mk::{mk, BoxP, St};
use crate::src::*;
use crate::strm::*;
use combine::stream::buf_reader::{BufReader, Bufferless};
use combine::stream::decoder::Error as DErr;
use combine::stream::{Decoder, MaybePartialStream, PointerOffset};
use std::future::Future;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub const FLAVOURS: [&str; 4] = ["sync", "tokio", "tokio-0.2", "tokio-0.3"];
pub const OPS: [&str; 9] = ["read", "fill+consume", "decode", "write", "flush", "shutdown", "read_until", "read_buf", "fresh decoder"];

type Dec = Decoder<St, PointerOffset<[u8]>, Bufferless>;
type Res = Result<V, DErr<<B0 as combine::StreamOnce>::Error, PointerOffset<[u8]>>>;

trait Rd {
    fn read(&mut self, b: &mut [u8], cx: &mut Context<'_>) -> Poll<io::Result<usize>>;
    fn fill(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>>;
    fn consume(&mut self, n: usize);
    fn buffer(&self) -> Vec<u8>;
    fn write(&mut self, b: &[u8], what: u8, cx: &mut Context<'_>) -> Option<Poll<io::Result<usize>>>;
    fn until(&mut self, b: u8, out: &mut Vec<u8>) -> Option<io::Result<usize>>;
    fn read_buf(&mut self, cap: usize, cx: &mut Context<'_>) -> Option<Poll<io::Result<Vec<u8>>>>;
    fn decode(&mut self, d: *mut Dec, p: *mut BoxP<B0>) -> Pin<Box<dyn Future<Output = Res>>>;
    fn inner_pos(&self) -> usize;
}
fn open(i: MaybePartialStream<&[u8]>) -> B0 {
    ctx::attempt();
    B0::over(unsafe { stat(i.0) }, i.1, ())
}

struct Sync_(Box<BufReader<Src>>);
impl Rd for Sync_ {
    fn read(&mut self, b: &mut [u8], _: &mut Context<'_>) -> Poll<io::Result<usize>> {
        Poll::Ready(io::Read::read(&mut *self.0, b))
    }
    fn fill(&mut self, _: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
        Poll::Ready(io::BufRead::fill_buf(&mut *self.0).map(|b| b.to_vec()))
    }
    fn consume(&mut self, n: usize) {
        io::BufRead::consume(&mut *self.0, n)
    }
    fn buffer(&self) -> Vec<u8> {
        self.0.buffer().to_vec()
    }
    fn write(&mut self, _: &[u8], _: u8, _: &mut Context<'_>) -> Option<Poll<io::Result<usize>>> {
        None
    }
    fn until(&mut self, b: u8, out: &mut Vec<u8>) -> Option<io::Result<usize>> {
        Some(io::BufRead::read_until(&mut *self.0, b, out))
    }
    fn read_buf(&mut self, _: usize, _: &mut Context<'_>) -> Option<Poll<io::Result<Vec<u8>>>> {
        None
    }
    fn decode(&mut self, d: *mut Dec, p: *mut BoxP<B0>) -> Pin<Box<dyn Future<Output = Res>>> {
        let r: *mut BufReader<Src> = &mut *self.0;
        Box::pin(async move {
            let (d, r, p) = unsafe { (&mut *d, &mut *r, &mut *p) };
            combine::decode!(*d, *r, &mut *p, |i: MaybePartialStream<&[u8]>, _| open(i))
        })
    }
    fn inner_pos(&self) -> usize {
        self.0.get_ref().0.borrow().pos
    }
}
macro_rules! tok {
    ($name:ident, $m:ident, $mac:ident, |$s:ident, $b:ident, $cx:ident| $read:expr, |$s2:ident, $c2:ident, $cx2:ident| $rb:expr, |$s3:ident, $b3:ident, $cx3:ident| $wr:expr) => {
        struct $name(Box<BufReader<Src>>);
        impl Rd for $name {
            fn read(&mut self, $b: &mut [u8], $cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
                let $s = Pin::new(&mut *self.0);
                $read
            }
            fn fill(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<Vec<u8>>> {
                $m::io::AsyncBufRead::poll_fill_buf(Pin::new(&mut *self.0), cx).map(|r| r.map(|b| b.to_vec()))
            }
            fn consume(&mut self, n: usize) {
                $m::io::AsyncBufRead::consume(Pin::new(&mut *self.0), n)
            }
            fn buffer(&self) -> Vec<u8> {
                self.0.buffer().to_vec()
            }
            fn write(&mut self, $b3: &[u8], what: u8, $cx3: &mut Context<'_>) -> Option<Poll<io::Result<usize>>> {
                use $m::io::AsyncWrite;
                let $s3 = Pin::new(&mut *self.0);
                Some(match what {
                    0 => $wr,
                    1 => $s3.poll_flush($cx3).map(|r| r.map(|_| 0)),
                    _ => $s3.poll_shutdown($cx3).map(|r| r.map(|_| 0)),
                })
            }
            fn until(&mut self, _: u8, _: &mut Vec<u8>) -> Option<io::Result<usize>> {
                None
            }
            fn read_buf(&mut self, $c2: usize, $cx2: &mut Context<'_>) -> Option<Poll<io::Result<Vec<u8>>>> {
                let $s2 = Pin::new(&mut *self.0);
                $rb
            }
            fn decode(&mut self, d: *mut Dec, p: *mut BoxP<B0>) -> Pin<Box<dyn Future<Output = Res>>> {
                let r: *mut BufReader<Src> = &mut *self.0;
                Box::pin(async move {
                    let (d, r, p) = unsafe { (&mut *d, &mut *r, &mut *p) };
                    combine::$mac!(*d, *r, &mut *p, |i: MaybePartialStream<&[u8]>, _| open(i))
                })
            }
            fn inner_pos(&self) -> usize {
                self.0.get_ref().0.borrow().pos
            }
        }
    };
}
tok!(
    Tok1,
    tokio,
    decode_tokio,
    |s, b, cx| {
        // part of the caller's buffer is filled already: only the rest may be written
        let mut rb = tokio::io::ReadBuf::new(b);
        tokio::io::AsyncRead::poll_read(s, cx, &mut rb).map(|r| r.map(|_| rb.filled().len()))
    },
    |s, cap, cx| {
        let mut v = vec![0x5a; cap + 2];
        let mut rb = tokio::io::ReadBuf::new(&mut v);
        rb.put_slice(b"PQ");
        Some(tokio::io::AsyncRead::poll_read(s, cx, &mut rb).map(|r| {
            r.map(|_| {
                if rb.filled()[..2] != b"PQ"[..] {
                    panic!("bytes already in the caller's buffer were overwritten");
                }
                rb.filled()[2..].to_vec()
            })
        }))
    },
    |s, b, cx| s.poll_write(cx, b)
);
tok!(
    Tok2,
    tokio_02_dep,
    decode_tokio_02,
    |s, b, cx| tokio_02_dep::io::AsyncRead::poll_read(s, cx, b),
    |s, cap, cx| {
        let mut b = bytes_05::BytesMut::with_capacity(cap);
        Some(tokio_02_dep::io::AsyncRead::poll_read_buf(s, cx, &mut b).map(|r| {
            r.map(|n| {
                if n != b.len() {
                    panic!("poll_read_buf answered {} but {} bytes were added", n, b.len());
                }
                b.to_vec()
            })
        }))
    },
    |s, b, cx| {
        if b.len() % 2 == 0 {
            s.poll_write(cx, b)
        } else {
            let mut rest = b;
            let r = s.poll_write_buf(cx, &mut rest);
            let taken = b.len() - rest.len();
            match &r {
                Poll::Ready(Ok(n)) if *n == taken => {}
                Poll::Ready(Ok(n)) => panic!("poll_write_buf answered {} but {} bytes were taken", n, taken),
                _ if taken == 0 => {}
                _ => panic!("poll_write_buf took {} bytes without an answer", taken),
            }
            r
        }
    }
);
tok!(
    Tok3,
    tokio_03_dep,
    decode_tokio_03,
    |s, b, cx| {
        let mut rb = tokio_03_dep::io::ReadBuf::new(b);
        tokio_03_dep::io::AsyncRead::poll_read(s, cx, &mut rb).map(|r| r.map(|_| rb.filled().len()))
    },
    |s, cap, cx| {
        let mut v = vec![0x5a; cap + 2];
        let mut rb = tokio_03_dep::io::ReadBuf::new(&mut v);
        rb.put_slice(b"PQ");
        Some(tokio_03_dep::io::AsyncRead::poll_read(s, cx, &mut rb).map(|r| {
            r.map(|_| {
                if rb.filled()[..2] != b"PQ"[..] {
                    panic!("bytes already in the caller's buffer were overwritten");
                }
                rb.filled()[2..].to_vec()
            })
        }))
    },
    |s, b, cx| s.poll_write(cx, b)
);

struct Run<'a> {
    src: Src,
    input: &'a [u8],
    rd: Box<dyn Rd>,
    given: usize,
    fails: Vec<Fail>,
    hash: u64,
    pendings: u64,
}
enum Got<T> {
    Ok(T),
    Err,
    Cancelled,
}
impl<'a> Run<'a> {
    fn bad(&mut self, s: String) {
        self.fails.push(fail("bufr", s));
    }
    /// Drives one operation to its end and checks that errors and pending results pass through.
    fn drive<T>(&mut self, what: &str, buffered_suffices: bool, f: &mut dyn FnMut(&mut dyn Rd, &mut Context<'_>) -> Poll<io::Result<T>>) -> Got<T> {
        loop {
            let flag = Arc::new(Flag(std::sync::atomic::AtomicBool::new(false)));
            let waker = Waker::from(flag.clone());
            let mut cx = Context::from_waker(&waker);
            let before = (self.src.0.borrow().calls.len(), self.src.0.borrow().wcalls.len());
            let held = self.rd.buffer();
            self.src.0.borrow_mut().waker = None;
            let r = f(&mut *self.rd, &mut cx);
            let last = {
                let s = self.src.0.borrow();
                let w = s.wcalls[before.1..].last().map(|c| c.2);
                s.calls[before.0..].last().map(|c| c.out).or(w)
            };
            match r {
                Poll::Pending => {
                    self.pendings += 1;
                    if last != Some(Out::Pend) {
                        self.bad(format!("{}: pending although the source is not ({:?})", what, last));
                        return Got::Cancelled;
                    }
                    if !held.is_empty() && buffered_suffices {
                        self.bad(format!("{}: pending although {} bytes are buffered", what, held.len()));
                    }
                    if self.rd.buffer() != held {
                        self.bad(format!("{}: a pending source changed the buffered bytes", what));
                    }
                    let w = self.src.0.borrow_mut().waker.take();
                    if let Some(w) = w {
                        w.wake()
                    }
                    if !flag.0.load(Ordering::SeqCst) {
                        self.bad(format!("{}: the wake-up of the source is lost", what));
                        return Got::Cancelled;
                    }
                    let k = std::mem::take(&mut self.src.0.borrow_mut().cancel);
                    if k > 0 {
                        return Got::Cancelled;
                    }
                }
                Poll::Ready(Err(e)) => {
                    match last {
                        Some(Out::Err(id, k)) => {
                            if e.kind() != ERRS[k] || err_id(&e).map_or(e.get_ref().is_some(), |x| x != id) {
                                self.bad(format!("{}: the source failed with {:?} ({}), reported is {:?} ({:?})", what, ERRS[k], id, e.kind(), err_id(&e)));
                            }
                        }
                        o => self.bad(format!("{}: reports {:?} but the source answered {:?}", what, e.kind(), o)),
                    }
                    if !held.is_empty() && buffered_suffices {
                        self.bad(format!("{}: failed although {} bytes are buffered", what, held.len()));
                    }
                    if self.rd.buffer() != held {
                        self.bad(format!("{}: a failing source changed the buffered bytes", what));
                    }
                    return Got::Err;
                }
                Poll::Ready(Ok(v)) => {
                    if let Some(Out::Err(id, k)) = last {
                        self.bad(format!("{}: error {} ({:?}) of the source was swallowed", what, id, ERRS[k]));
                    }
                    if last == Some(Out::Pend) {
                        self.bad(format!("{}: the source was pending but an answer was given", what));
                    }
                    return Got::Ok(v);
                }
            }
        }
    }
    fn got(&mut self, what: &str, b: &[u8], wanted: usize) {
        let end = (self.given + b.len()).min(self.input.len());
        if b != &self.input[self.given..end] {
            self.bad(format!("{}: delivered {:?} but the next bytes are {:?}", what, crate::ast::esc(b), crate::ast::esc(&self.input[self.given..end])));
        }
        if b.len() > wanted {
            self.bad(format!("{}: delivered {} of {} bytes asked for", what, b.len(), wanted));
        }
        self.given = end;
        if b.is_empty() && wanted > 0 {
            let at_end = self.src.0.borrow().eofs > 0;
            if !at_end || self.given != self.input.len() {
                self.bad(format!("{}: reports the end of input at byte {} of {}", what, self.given, self.input.len()));
            }
        }
    }
    fn invariant(&mut self, what: &str) {
        let b = self.rd.buffer();
        let pos = self.src.0.borrow().pos;
        if self.rd.inner_pos() != pos {
            self.bad(format!("{}: get_ref is not the source", what));
        }
        if self.given > pos || b[..] != self.input[self.given..pos] {
            self.bad(format!(
                "{}: buffer is {:?} but the unread bytes received are {:?}",
                what,
                crate::ast::esc(&b),
                crate::ast::esc(&self.input[self.given.min(pos)..pos])
            ));
        }
        let v = std::mem::take(&mut self.src.0.borrow_mut().violations);
        for v in v {
            self.bad(format!("{}: {}", what, v));
        }
    }
}

pub fn judge(c: &Case, info: &mut Info) -> Vec<Fail> {
    let r = catch_unwind(AssertUnwindSafe(|| inner(c, info)));
    ctx::no_budget();
    match r {
        Ok(f) => f,
        Err(e) => vec![fail("bufr", format!("panic: {}", panic_text(e)))],
    }
}
fn inner(c: &Case, info: &mut Info) -> Vec<Fail> {
    let p = match c.parts.first() {
        Some(p) => p,
        None => return vec![],
    };
    ctx::reset();
    let src = Src::new(&p.input, &p.ev);
    if let Some(w) = c.parts.get(1) {
        src.0.borrow_mut().wev = w.ev.clone();
    }
    let mk_r = || Box::new(if p.cap == 99 { BufReader::new(src.clone()) } else { BufReader::with_capacity(p.cap as usize, src.clone()) });
    let rd: Box<dyn Rd> = match p.flav % 4 {
        0 => Box::new(Sync_(mk_r())),
        1 => Box::new(Tok1(mk_r())),
        2 => Box::new(Tok2(mk_r())),
        _ => Box::new(Tok3(mk_r())),
    };
    let mut run = Run { src: src.clone(), input: &p.input, rd, given: 0, fails: vec![], hash: p.flav, pendings: 0 };
    let mut dec: Box<Dec> = Box::new(Decoder::new_bufferless());
    let mut written: Vec<u8> = vec![];
    let mut flushes = (0u64, 0u64);
    ctx::set_budget(2_000_000 + 3_000 * p.input.len() as u64);
    for (oi, &(op, arg)) in p.ops.iter().enumerate() {
        let name = OPS[op as usize % OPS.len()];
        let what = format!("op {} {}({})", oi, name, arg);
        match op as usize % OPS.len() {
            0 => {
                let mut b = vec![0xEEu8; arg as usize];
                let n = b.len();
                match run.drive(&what, true, &mut |r, cx| r.read(&mut b, cx)) {
                    Got::Ok(k) => {
                        if k > n {
                            run.bad(format!("{}: claims {} bytes", what, k));
                        } else {
                            if b[k..].iter().any(|x| *x != 0xEE) && p.flav % 4 == 0 && false {
                                run.bad(format!("{}: wrote past the bytes it claims", what));
                            }
                            run.got(&what, &b[..k], n);
                        }
                    }
                    Got::Err | Got::Cancelled => {}
                }
            }
            1 => match run.drive(&what, true, &mut |r, cx| r.fill(cx)) {
                Got::Ok(b) => {
                    let at = run.given;
                    run.got(&what, &b, usize::MAX);
                    run.given = at;
                    let k = (arg as usize).min(b.len());
                    run.rd.consume(k);
                    run.given += k;
                }
                _ => {}
            },
            2 => {
                let g = match &p.g {
                    Some(g) => g,
                    None => continue,
                };
                let rest = &p.input[run.given..];
                if rest.len() > 400 {
                    continue;
                }
                let o = Opts { max_msgs: 1, ..Opts::default() };
                let rf = run_ref(g, rest, false, 0, 1);
                if rf.soft || rf.stop {
                    continue;
                }
                let mut q = mk::<B0>(g);
                let mut want = run_once::<B0>(&mut q, rest, &o);
                if matches!(want.end, End::Bad(_)) {
                    continue;
                }
                if want.end == End::Clean {
                    want.end = End::Err { eoi: true, pos: None };
                }
                ctx::set_budget(2_000_000 + 3_000 * p.input.len() as u64);
                let mut parser = mk::<B0>(g);
                let d: *mut Dec = &mut *dec;
                let pp: *mut BoxP<B0> = &mut parser;
                let mut tries = 0;
                loop {
                    tries += 1;
                    let mut fut: Option<Pin<Box<dyn Future<Output = Res>>>> = None;
                    let mut parse_end: Option<Result<V, bool>> = None;
                    let g2 = {
                        let pe = &mut parse_end;
                        run.drive_decode(&what, &mut |r, cx| {
                            let f = fut.get_or_insert_with(|| r.decode(d, pp));
                            match f.as_mut().poll(cx) {
                                Poll::Pending => Poll::Pending,
                                Poll::Ready(Ok(v)) => {
                                    *pe = Some(Ok(v));
                                    Poll::Ready(Ok(()))
                                }
                                Poll::Ready(Err(DErr::Parse(e))) => {
                                    *pe = Some(Err(err_eoi::<B0>(&e)));
                                    Poll::Ready(Ok(()))
                                }
                                Poll::Ready(Err(DErr::Io { error, .. })) => Poll::Ready(Err(error)),
                            }
                        })
                    };
                    drop(fut);
                    match g2 {
                        Got::Ok(()) => {
                            let now = run.src.0.borrow().pos - run.rd.buffer().len().min(run.src.0.borrow().pos);
                            match parse_end {
                                Some(Ok(v)) => {
                                    match want.msgs.first() {
                                        Some(m) if m.v == v => {
                                            if now != run.given + m.len {
                                                run.bad(format!("{}: the message at {} has {} bytes but reading goes on at {}", what, run.given, m.len, now));
                                            }
                                        }
                                        Some(m) => run.bad(format!("{}: gives {} but parsing the rest gives {}", what, v.show(), m.v.show())),
                                        None => run.bad(format!("{}: gives {} but parsing the rest ends with {:?}", what, v.show(), want.end)),
                                    }
                                    run.given = now;
                                    info.msgs += 1;
                                }
                                _ => {
                                    if let Some(m) = want.msgs.first() {
                                        run.bad(format!("{}: rejected but parsing the rest gives {}", what, m.v.show()));
                                    }
                                    // the bytes consumed by a rejected message are gone; the decoder is not used again
                                    run.given = now;
                                    *dec = Decoder::new_bufferless();
                                }
                            }
                            break;
                        }
                        // the decoder is called again: nothing may be lost
                        Got::Err | Got::Cancelled => {
                            let pos = run.src.0.borrow().pos;
                            let b = run.rd.buffer();
                            if b.len() > pos || b[..] != p.input[pos - b.len()..pos] {
                                run.bad(format!("{}: buffer is no longer what the source delivered", what));
                                break;
                            }
                            if tries > p.ev.len() + 5 {
                                run.bad(format!("{}: does not end", what));
                                break;
                            }
                        }
                    }
                }
            }
            3 | 4 | 5 => {
                let w = (op as usize % OPS.len() - 3) as u8;
                let data: Vec<u8> = (0..arg.min(3000)).map(|i| (i as u8).wrapping_mul(7).wrapping_add(oi as u8)).collect();
                if p.flav % 4 == 0 {
                    continue;
                }
                let before = src.0.borrow().calls.len();
                match run.drive(&what, false, &mut |r, cx| r.write(&data, w, cx).unwrap()) {
                    Got::Ok(n) => match w {
                        0 => {
                            let claimed = src.0.borrow().wcalls.last().map(|c| c.2);
                            if claimed != Some(Out::Data(n)) && !(n == 0 && data.is_empty()) {
                                run.bad(format!("{}: reports {} bytes written, the object accepted {:?}", what, n, claimed));
                            }
                            written.extend_from_slice(&data[..n.min(data.len())]);
                        }
                        1 => flushes.0 += 1,
                        _ => flushes.1 += 1,
                    },
                    _ => {}
                }
                if src.0.borrow().calls.len() != before {
                    run.bad(format!("{}: read from the source", what));
                }
                let s = src.0.borrow();
                let seen = (s.written.clone(), s.flushes, s.shutdowns);
                drop(s);
                if seen.0 != written || seen.1 != flushes.0 || seen.2 != flushes.1 {
                    run.bad(format!("{}: the object saw {} bytes, {} flushes, {} shutdowns; the caller made {}, {}, {}", what, seen.0.len(), seen.1, seen.2, written.len(), flushes.0, flushes.1));
                    written = seen.0;
                    flushes = (seen.1, seen.2);
                }
            }
            6 => {
                let mut v = vec![];
                let byte = *p.input.get(arg as usize).unwrap_or(&b'\n');
                let before = src.0.borrow().calls.len();
                if let Some(r) = run.rd.until(byte, &mut v) {
                    run.got(&what, &v, usize::MAX - 1);
                    let last = src.0.borrow().calls[before..].last().map(|c| c.out);
                    match r {
                        Ok(n) => {
                            if n != v.len() {
                                run.bad(format!("{}: claims {} of {} bytes", what, n, v.len()));
                            }
                            if v.last() != Some(&byte) && run.given != p.input.len() {
                                run.bad(format!("{}: stopped at {} without having found the byte", what, run.given));
                            }
                        }
                        Err(e) => {
                            run.fails.retain(|f| !f.detail.contains("end of input at byte"));
                            match last {
                                Some(Out::Err(_, k)) if ERRS[k] == e.kind() => {}
                                o => run.bad(format!("{}: {:?} but the source answered {:?}", what, e.kind(), o)),
                            }
                        }
                    }
                }
            }
            7 => match run.drive(&what, true, &mut |r, cx| r.read_buf(arg as usize, cx).unwrap_or(Poll::Ready(Ok(vec![])))) {
                Got::Ok(b) => {
                    if p.flav % 4 != 0 {
                        run.got(&what, &b, if p.flav % 4 == 2 { usize::MAX - 1 } else { arg as usize });
                    }
                }
                _ => {}
            },
            _ => *dec = Decoder::new_bufferless(),
        }
        run.invariant(&what);
        if run.fails.len() > 3 {
            break;
        }
        run.hash = crate::rng::fnv(run.hash, &[op, run.given as u8, (run.given >> 8) as u8]);
    }
    ctx::no_budget();
    let s = src.0.borrow();
    info.calls += p.ops.len() as u64;
    info.nones += s.calls.len() as u64;
    for (k, v) in &s.faults {
        *info.faults.entry(k).or_default() += v;
    }
    if s.eofs > 0 {
        *info.faults.entry("end of input").or_default() += 1;
    }
    for k in &s.calls {
        let (a, b) = match k.out {
            Out::Data(n) => (0u8, n),
            Out::Eof => (1, 0),
            Out::Err(_, k) => (2, k),
            Out::Pend => (3, 0),
        };
        run.hash = crate::rng::fnv(run.hash, &[a, b as u8, (b >> 8) as u8]);
    }
    info.hash = run.hash;
    info.work += run.pendings;
    info.end = format!("{}", FLAVOURS[p.flav as usize % 4]);
    run.fails
}
impl<'a> Run<'a> {
    /// Like `drive`, for a decode: it may take bytes into the buffer before the source fails or is pending.
    fn drive_decode(&mut self, what: &str, f: &mut dyn FnMut(&mut dyn Rd, &mut Context<'_>) -> Poll<io::Result<()>>) -> Got<()> {
        loop {
            let flag = Arc::new(Flag(std::sync::atomic::AtomicBool::new(false)));
            let waker = Waker::from(flag.clone());
            let mut cx = Context::from_waker(&waker);
            let before = self.src.0.borrow().calls.len();
            self.src.0.borrow_mut().waker = None;
            let r = f(&mut *self.rd, &mut cx);
            let last = self.src.0.borrow().calls[before..].last().map(|c| c.out);
            match r {
                Poll::Pending => {
                    self.pendings += 1;
                    if last != Some(Out::Pend) {
                        self.bad(format!("{}: pending although the source is not ({:?})", what, last));
                        return Got::Ok(());
                    }
                    let w = self.src.0.borrow_mut().waker.take();
                    if let Some(w) = w {
                        w.wake()
                    }
                    if !flag.0.load(Ordering::SeqCst) {
                        self.bad(format!("{}: the wake-up of the source is lost", what));
                    }
                    let k = std::mem::take(&mut self.src.0.borrow_mut().cancel);
                    if k > 0 {
                        return Got::Cancelled;
                    }
                }
                Poll::Ready(Err(e)) => {
                    match last {
                        Some(Out::Err(id, k)) => {
                            if e.kind() != ERRS[k] || err_id(&e).map_or(e.get_ref().is_some(), |x| x != id) {
                                self.bad(format!("{}: the source failed with {:?} ({}), reported is {:?}", what, ERRS[k], id, e.kind()));
                            }
                        }
                        o => self.bad(format!("{}: reports {:?} but the source answered {:?}", what, e.kind(), o)),
                    }
                    return Got::Err;
                }
                Poll::Ready(Ok(())) => {
                    if let Some(Out::Err(id, k)) = last {
                        self.bad(format!("{}: error {} ({:?}) of the source was swallowed", what, id, ERRS[k]));
                    }
                    return Got::Ok(());
                }
            }
        }
    }
}

pub fn gen(r: &mut crate::rng::Rng) -> Case {
    let mut c = Case { kind: "bufr".into(), ..Case::default() };
    let (e, p, k) = (
        if r.chance(1, 2) { 0 } else { r.range(2, 30) },
        if r.chance(1, 3) { 0 } else { r.range(5, 50) },
        if r.chance(1, 2) { 0 } else { r.range(2, 20) },
    );
    let pr = crate::gen::Profile::base().swarm(r);
    let mut g = crate::gen::G { r, m: crate::gen::Mode::Bytes, p: pr };
    let (gr, mut input) = g.pair(80, 10);
    let big = r.chance(1, 120);
    if big {
        let n = r.range(7000, 30000);
        let x = r.below(251) + 1;
        while input.len() < n {
            let l = input.len();
            input.push((l * x % 256) as u8);
        }
    }
    let mut ev = vec![];
    if big {
        let mut left = input.len();
        while left > 0 && ev.len() < 400 {
            let k = (*r.pick(&[1usize, 7, 64, 1000, 4096, 8095, 8096, 8097, 8192, 20000])).min(left);
            if r.chance(e, 100) {
                ev.push((ERR, r.below(ERRS.len() * 2) as u32));
            }
            if r.chance(p, 100) {
                ev.push((PEND, 0));
            }
            left -= k;
            ev.push((DATA, k as u32));
        }
    } else {
        ev = script(r, input.len(), e, p, k);
    }
    let n = r.range(1, 40);
    let dec_w = if r.chance(1, 2) { 6 } else { 1 };
    let wr = if r.chance(1, 3) { 3 } else { 0 };
    let mut ops = vec![];
    for _ in 0..n {
        let o = r.weighted(&[8, 6, dec_w, wr, wr / 3, wr / 3, 1, 3, 1]) as u8;
        let a = match o {
            0 | 7 => {
                if big {
                    *r.pick(&[1, 100, 4096, 8096, 9000, 16384])
                } else {
                    *r.pick(&[0, 1, 1, 2, 3, 4, 8, 16, 64])
                }
            }
            1 => {
                if big {
                    *r.pick(&[1, 100, 8000, 20000])
                } else {
                    r.below(12)
                }
            }
            3 => r.below(20),
            6 => r.below(input.len() + 1),
            _ => 0,
        };
        ops.push((o, a as u32));
    }
    // read everything that is left at the end
    for _ in 0..r.below(6) {
        ops.push((0, if big { 8192 } else { 32 }));
    }
    let cap = if r.chance(1, 8) || big { 99 } else { r.below(20) as u64 };
    c.parts.push(Part { stream: 0, flav: r.below(4) as u64, cap, g: Some(gr), input, ev, ops });
    let w = script(r, if wr > 0 { 40 } else { 0 }, if e > 0 { 10 } else { 0 }, p.min(20), 0);
    c.parts.push(Part { ev: w, ..Part::default() });
    c
}
