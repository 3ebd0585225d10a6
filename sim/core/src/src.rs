//! The simulated byte source. A script decides the result of every call: how many bytes a read returns, which error it
//! fails with, how often it is pending. Everything the code under test asks of it is recorded.
use crate::case::Ev;
use crate::ctx;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub const DATA: u8 = 0;
pub const ERR: u8 = 1;
pub const PEND: u8 = 2;
pub const CANCEL: u8 = 3;
/// Left behind in the part of a caller's buffer that a read does not return.
pub const JUNK: u8 = b'0';

pub const ERRS: [io::ErrorKind; 12] = [
    io::ErrorKind::WouldBlock,
    io::ErrorKind::Interrupted,
    io::ErrorKind::TimedOut,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::NotConnected,
    io::ErrorKind::WriteZero,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
];

/// Payload of an injected error, so that it can be recognised when it is handed back.
#[derive(Debug)]
pub struct SimErr(pub u64);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected error {}", self.0)
    }
}
impl std::error::Error for SimErr {}
pub fn err_id(e: &io::Error) -> Option<u64> {
    e.get_ref().and_then(|e| e.downcast_ref::<SimErr>()).map(|e| e.0)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Data(usize),
    Eof,
    Err(u64, usize),
    Pend,
}
#[derive(Clone, Debug)]
pub struct Call {
    /// bytes the source had handed out before this call
    pub at: usize,
    pub attempts: u64,
    pub msg: usize,
    pub cap: usize,
    pub out: Out,
}

#[derive(Default)]
pub struct State {
    pub data: Vec<u8>,
    pub pos: usize,
    pub ev: Vec<Ev>,
    pub ei: usize,
    pend: u32,
    pub next_err: u64,
    pub calls: Vec<Call>,
    pub eofs: u64,
    pub waker: Option<Waker>,
    pub cancel: u32,
    pub msg: usize,
    pub violations: Vec<String>,
    pub faults: BTreeMap<&'static str, u64>,
    // write side
    pub written: Vec<u8>,
    pub wev: Vec<Ev>,
    pub wi: usize,
    pub flushes: u64,
    pub shutdowns: u64,
    pub wcalls: Vec<(u8, usize, Out)>,
    /// writes accept into this many slices at most per vectored call
    pub vectored: bool,
}
impl State {
    pub fn new(data: &[u8], ev: &[Ev]) -> State {
        State { data: data.to_vec(), ev: ev.to_vec(), ..State::default() }
    }
    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
    }
    fn log(&mut self, at: usize, cap: usize, out: Out) -> Out {
        self.calls.push(Call { at, attempts: ctx::attempts(), msg: self.msg, cap, out });
        out
    }
    pub fn mk_err(&mut self, k: u32) -> (u64, usize, io::Error) {
        let kind = (k / 2) as usize % ERRS.len();
        let id = self.next_err;
        self.next_err += 1;
        // half of the errors carry a payload, half are bare kinds as the operating system produces them
        let e = if k % 2 == 0 { io::Error::new(ERRS[kind], SimErr(id)) } else { io::Error::from(ERRS[kind]) };
        (id, kind, e)
    }
    /// One read of at most `cap` bytes.
    pub fn read(&mut self, cap: usize, waker: Option<&Waker>) -> (Out, &[u8], Option<io::Error>) {
        ctx::tick();
        let at = self.pos;
        if self.calls.len() > 200_000 {
            panic!("{}", ctx::BUDGET_MSG);
        }
        if cap == 0 {
            self.violations.push("the source was asked to read into an empty buffer".into());
        }
        if self.eofs > 0 {
            // fused: the end of the input stays the end of the input
            let o = self.log(at, cap, Out::Eof);
            return (o, &[], None);
        }
        while let Some(&(k, n)) = self.ev.get(self.ei) {
            match k {
                ERR => {
                    self.ei += 1;
                    let (id, kind, e) = self.mk_err(n);
                    self.fault("read error");
                    let o = self.log(at, cap, Out::Err(id, kind));
                    return (o, &[], Some(e));
                }
                PEND | CANCEL => {
                    let w = match waker {
                        Some(w) => w,
                        None => {
                            self.ei += 1;
                            continue;
                        }
                    };
                    if k == CANCEL {
                        self.ei += 1;
                        self.cancel = n + 1;
                        self.fault("pending then future dropped");
                    } else if self.pend < n {
                        self.pend += 1;
                        self.fault("pending (repeated)");
                        if self.pend == n {
                            self.pend = 0;
                            self.ei += 1;
                        }
                    } else {
                        self.pend = 0;
                        self.ei += 1;
                        self.fault("pending");
                    }
                    self.waker = Some(w.clone());
                    let o = self.log(at, cap, Out::Pend);
                    return (o, &[], None);
                }
                _ => {
                    self.ei += 1;
                    let n = (n.max(1) as usize).min(cap).min(self.data.len() - at);
                    if n == 0 {
                        break;
                    }
                    if n < cap && n < self.data.len() - at {
                        self.fault("short read");
                    }
                    self.pos += n;
                    let o = self.log(at, cap, Out::Data(n));
                    return (o, &self.data[at..at + n], None);
                }
            }
        }
        let n = cap.min(self.data.len() - at);
        if n == 0 {
            if cap > 0 {
                self.eofs += 1;
            }
            let o = self.log(at, cap, Out::Eof);
            return (o, &[], None);
        }
        self.pos += n;
        let o = self.log(at, cap, Out::Data(n));
        (o, &self.data[at..at + n], None)
    }
    /// One write of at most `n` bytes; the write script uses the same event codes.
    pub fn write(&mut self, b: &[u8], waker: Option<&Waker>, what: u8) -> Poll<io::Result<usize>> {
        ctx::tick();
        loop {
            match self.wev.get(self.wi).copied() {
                Some((ERR, n)) => {
                    self.wi += 1;
                    let (id, kind, e) = self.mk_err(n);
                    self.fault("write error");
                    self.wcalls.push((what, b.len(), Out::Err(id, kind)));
                    return Poll::Ready(Err(e));
                }
                Some((PEND, _)) | Some((CANCEL, _)) => {
                    self.wi += 1;
                    if let Some(w) = waker {
                        self.waker = Some(w.clone());
                        self.fault("write pending");
                        self.wcalls.push((what, b.len(), Out::Pend));
                        return Poll::Pending;
                    }
                }
                x => {
                    if x.is_some() {
                        self.wi += 1;
                    }
                    let n = x.map_or(b.len(), |x| (x.1.max(1) as usize).min(b.len()));
                    if n < b.len() {
                        self.fault("short write");
                    }
                    if what == 0 {
                        self.written.extend_from_slice(&b[..n]);
                    }
                    self.wcalls.push((what, b.len(), Out::Data(n)));
                    return Poll::Ready(Ok(n));
                }
            }
        }
    }
}

#[derive(Clone)]
pub struct Src(pub Rc<RefCell<State>>);
impl Src {
    pub fn new(data: &[u8], ev: &[Ev]) -> Src {
        Src(Rc::new(RefCell::new(State::new(data, ev))))
    }
}

impl io::Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        buf.fill(JUNK);
        let (_, d, e) = s.read(buf.len(), None);
        if let Some(e) = e {
            return Err(e);
        }
        buf[..d.len()].copy_from_slice(d);
        Ok(d.len())
    }
}
impl tokio::io::AsyncRead for Src {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        buf.initialize_unfilled().fill(JUNK);
        let mut s = self.0.borrow_mut();
        let (o, d, e) = s.read(buf.remaining(), Some(cx.waker()));
        if let Some(e) = e {
            return Poll::Ready(Err(e));
        }
        if o == Out::Pend {
            return Poll::Pending;
        }
        buf.put_slice(d);
        Poll::Ready(Ok(()))
    }
}
impl tokio_03_dep::io::AsyncRead for Src {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio_03_dep::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        buf.initialize_unfilled().fill(JUNK);
        let mut s = self.0.borrow_mut();
        let (o, d, e) = s.read(buf.remaining(), Some(cx.waker()));
        if let Some(e) = e {
            return Poll::Ready(Err(e));
        }
        if o == Out::Pend {
            return Poll::Pending;
        }
        buf.put_slice(d);
        Poll::Ready(Ok(()))
    }
}
impl tokio_02_dep::io::AsyncRead for Src {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        buf.fill(JUNK);
        let mut s = self.0.borrow_mut();
        let (o, d, e) = s.read(buf.len(), Some(cx.waker()));
        if let Some(e) = e {
            return Poll::Ready(Err(e));
        }
        if o == Out::Pend {
            return Poll::Pending;
        }
        buf[..d.len()].copy_from_slice(d);
        Poll::Ready(Ok(d.len()))
    }
}
impl futures_io::AsyncRead for Src {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        buf.fill(JUNK);
        let mut s = self.0.borrow_mut();
        let (o, d, e) = s.read(buf.len(), Some(cx.waker()));
        if let Some(e) = e {
            return Poll::Ready(Err(e));
        }
        if o == Out::Pend {
            return Poll::Pending;
        }
        buf[..d.len()].copy_from_slice(d);
        Poll::Ready(Ok(d.len()))
    }
}

macro_rules! write_impl {
    ($t:path, $shut:ident) => {
        impl $t for Src {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
                self.0.borrow_mut().write(buf, Some(cx.waker()), 0)
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                let mut s = self.0.borrow_mut();
                let r = s.write(b"f", Some(cx.waker()), 1);
                if let Poll::Ready(Ok(_)) = r {
                    s.flushes += 1;
                }
                r.map(|r| r.map(|_| ()))
            }
            fn $shut(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                let mut s = self.0.borrow_mut();
                let r = s.write(b"s", Some(cx.waker()), 2);
                if let Poll::Ready(Ok(_)) = r {
                    s.shutdowns += 1;
                }
                r.map(|r| r.map(|_| ()))
            }
        }
    };
}
write_impl!(tokio::io::AsyncWrite, poll_shutdown);
write_impl!(tokio_03_dep::io::AsyncWrite, poll_shutdown);
write_impl!(tokio_02_dep::io::AsyncWrite, poll_shutdown);

/// A waker that only records that it was used.
pub struct Flag(pub std::sync::atomic::AtomicBool);
impl std::task::Wake for Flag {
    fn wake(self: std::sync::Arc<Self>) {
        self.0.store(true, std::sync::atomic::Ordering::SeqCst)
    }
}

/// A random source script. `len` = bytes of the source.
pub fn script(r: &mut crate::rng::Rng, len: usize, errs: usize, pends: usize, cancels: usize) -> Vec<Ev> {
    let mut out = vec![];
    let mut left = len;
    let style = r.below(7);
    let extra = |r: &mut crate::rng::Rng, out: &mut Vec<Ev>| {
        while r.chance(errs, 100) {
            out.push((ERR, r.below(ERRS.len() * 2) as u32));
        }
        if r.chance(pends, 100) {
            out.push((PEND, if r.chance(1, 4) { r.below(4) as u32 } else { 0 }));
        }
        while r.chance(cancels, 100) {
            out.push((CANCEL, r.below(3) as u32));
        }
    };
    // now and then the same fault many times in a row
    let burst = |r: &mut crate::rng::Rng, out: &mut Vec<Ev>| {
        let (w, p) = [(ERR, errs), (PEND, pends), (CANCEL, cancels)][r.below(3)];
        if p > 0 {
            let k = r.below(if w == ERR { ERRS.len() * 2 } else { 3 }) as u32;
            let n = if r.chance(1, 2) { r.range(4, 20) } else { r.range(20, 300) };
            out.extend((0..n).map(|_| (w, k)));
        }
    };
    let mut at = if r.chance(1, 60) { r.below(out.len() + len.min(30) + 1) } else { usize::MAX };
    while left > 0 && out.len() < 5000 {
        if out.len() >= at {
            at = usize::MAX;
            burst(r, &mut out)
        }
        extra(r, &mut out);
        let k = match style {
            0 => 1,
            1 => r.range(1, 2),
            2 => r.range(1, 4),
            3 => {
                if r.chance(1, 4) {
                    r.range(1, left)
                } else {
                    1
                }
            }
            4 => {
                if r.chance(1, 2) {
                    r.range(1, left)
                } else {
                    left
                }
            }
            5 => r.range(1, 8),
            _ => *r.pick(&[1, 2, 3, 4, 7, 8, 9, 16, 64]),
        }
        .min(left);
        left -= k;
        out.push((DATA, k as u32));
    }
    extra(r, &mut out);
    out
}
