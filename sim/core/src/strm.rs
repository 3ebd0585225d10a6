//! Stream plumbing: the metered wrapper and the trait the grammar builder is generic over.
use crate::ast::V;
use crate::ctx;
use crate::mk::{BoxP, Slots};
use combine::error::{ParseError, ParseResult};
use combine::stream::position::{IndexPositioner, SourcePosition};
use combine::stream::span::Span;
use combine::stream::*;
use combine::{easy, stream};

pub trait Tk: Copy + PartialEq + std::fmt::Debug + 'static {
    fn u(self) -> u32;
    fn of(c: u32) -> Self;
}
impl Tk for u8 {
    fn u(self) -> u32 {
        self as u32
    }
    fn of(c: u32) -> u8 {
        c as u8
    }
}
impl Tk for char {
    fn u(self) -> u32 {
        self as u32
    }
    fn of(c: u32) -> char {
        char::from_u32(c).unwrap_or('?')
    }
}

/// Counts every stream operation as a unit of work.
#[derive(Clone, Debug, PartialEq)]
pub struct Metered<S>(pub S);

impl<S: StreamOnce> StreamOnce for Metered<S> {
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = S::Error;
    #[inline]
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<Self>> {
        ctx::tick();
        self.0.uncons()
    }
    fn is_partial(&self) -> bool {
        self.0.is_partial()
    }
}
impl<S: ResetStream> ResetStream for Metered<S> {
    type Checkpoint = S::Checkpoint;
    fn checkpoint(&self) -> Self::Checkpoint {
        ctx::tick();
        self.0.checkpoint()
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), S::Error> {
        self.0.reset(c)
    }
}
impl<S: Positioned> Positioned for Metered<S> {
    fn position(&self) -> S::Position {
        self.0.position()
    }
}
impl<S: RangeStreamOnce> RangeStreamOnce for Metered<S>
where
    S::Range: combine::stream::Range,
{
    fn uncons_range(&mut self, size: usize) -> Result<Self::Range, StreamErrorFor<Self>> {
        ctx::tick();
        self.0.uncons_range(size)
    }
    fn uncons_while<F: FnMut(Self::Token) -> bool>(&mut self, f: F) -> Result<Self::Range, StreamErrorFor<Self>> {
        ctx::tick();
        self.0.uncons_while(f)
    }
    fn uncons_while1<F: FnMut(Self::Token) -> bool>(&mut self, f: F) -> ParseResult<Self::Range, StreamErrorFor<Self>> {
        ctx::tick();
        self.0.uncons_while1(f)
    }
    fn distance(&self, end: &Self::Checkpoint) -> usize {
        self.0.distance(end)
    }
    fn range(&self) -> Self::Range {
        // what a searcher is given while more may arrive, it searches: work
        if self.0.is_partial() {
            ctx::ticks(self.0.range().len() as u64);
        }
        self.0.range()
    }
}

/// `PartialStream` until the end of input is known, then `CompleteStream`.
#[derive(Clone, Debug, PartialEq)]
pub enum PC<S> {
    P(PartialStream<S>),
    C(CompleteStream<S>),
}
impl<S> PC<S> {
    pub fn new(s: S, partial: bool) -> PC<S> {
        if partial {
            PC::P(PartialStream(s))
        } else {
            PC::C(CompleteStream(s))
        }
    }
    pub fn get(&self) -> &S {
        match self {
            PC::P(s) => &s.0,
            PC::C(s) => &s.0,
        }
    }
}
macro_rules! pc {
    ($self:ident, $s:ident => $e:expr) => {
        match $self {
            PC::P($s) => $e,
            PC::C($s) => $e,
        }
    };
}
impl<S: StreamOnce> StreamOnce for PC<S> {
    type Token = S::Token;
    type Range = S::Range;
    type Position = S::Position;
    type Error = S::Error;
    fn uncons(&mut self) -> Result<S::Token, StreamErrorFor<Self>> {
        pc!(self, s => s.uncons())
    }
    fn is_partial(&self) -> bool {
        pc!(self, s => s.is_partial())
    }
}
impl<S: ResetStream> ResetStream for PC<S> {
    type Checkpoint = S::Checkpoint;
    fn checkpoint(&self) -> S::Checkpoint {
        pc!(self, s => s.checkpoint())
    }
    fn reset(&mut self, c: S::Checkpoint) -> Result<(), S::Error> {
        pc!(self, s => s.reset(c))
    }
}
impl<S: Positioned> Positioned for PC<S> {
    fn position(&self) -> S::Position {
        pc!(self, s => s.position())
    }
}
impl<S: RangeStreamOnce> RangeStreamOnce for PC<S> {
    fn uncons_range(&mut self, size: usize) -> Result<S::Range, StreamErrorFor<Self>> {
        pc!(self, s => s.uncons_range(size))
    }
    fn uncons_while<F: FnMut(S::Token) -> bool>(&mut self, f: F) -> Result<S::Range, StreamErrorFor<Self>> {
        pc!(self, s => s.uncons_while(f))
    }
    fn uncons_while1<F: FnMut(S::Token) -> bool>(&mut self, f: F) -> ParseResult<S::Range, StreamErrorFor<Self>> {
        pc!(self, s => s.uncons_while1(f))
    }
    fn distance(&self, end: &S::Checkpoint) -> usize {
        pc!(self, s => s.distance(end))
    }
    fn range(&self) -> S::Range {
        pc!(self, s => s.range())
    }
}

/// `SliceStream` (whose tokens are references) under grammars over bytes.
#[derive(Clone, Debug, PartialEq)]
pub struct Copied(pub SliceStream<'static, u8>);
impl StreamOnce for Copied {
    type Token = u8;
    type Range = &'static [u8];
    type Position = PointerOffset<[u8]>;
    type Error = combine::error::UnexpectedParse;
    fn uncons(&mut self) -> Result<u8, StreamErrorFor<Self>> {
        self.0.uncons().map(|b| *b)
    }
    fn is_partial(&self) -> bool {
        self.0.is_partial()
    }
}
impl ResetStream for Copied {
    type Checkpoint = SliceStream<'static, u8>;
    fn checkpoint(&self) -> Self::Checkpoint {
        self.0.checkpoint()
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), Self::Error> {
        self.0.reset(c)
    }
}
impl Positioned for Copied {
    fn position(&self) -> Self::Position {
        self.0.position()
    }
}
impl RangeStreamOnce for Copied {
    fn uncons_range(&mut self, size: usize) -> Result<Self::Range, StreamErrorFor<Self>> {
        self.0.uncons_range(size)
    }
    fn uncons_while<F: FnMut(u8) -> bool>(&mut self, mut f: F) -> Result<Self::Range, StreamErrorFor<Self>> {
        self.0.uncons_while(|c| f(*c))
    }
    fn uncons_while1<F: FnMut(u8) -> bool>(&mut self, mut f: F) -> ParseResult<Self::Range, StreamErrorFor<Self>> {
        // a stream may leave this one to the trait, which has to come to the same
        if self.0 .0.len() % 2 == 0 {
            return Dflt(self).uncons_while1(f);
        }
        self.0.uncons_while1(|c| f(*c))
    }
    fn distance(&self, end: &Self::Checkpoint) -> usize {
        self.0.distance(end)
    }
    fn range(&self) -> Self::Range {
        self.0.range()
    }
}

/// A stream that implements no more than it has to.
struct Dflt<'a>(&'a mut Copied);
impl StreamOnce for Dflt<'_> {
    type Token = u8;
    type Range = &'static [u8];
    type Position = PointerOffset<[u8]>;
    type Error = combine::error::UnexpectedParse;
    fn uncons(&mut self) -> Result<u8, StreamErrorFor<Self>> {
        self.0.uncons()
    }
}
impl ResetStream for Dflt<'_> {
    type Checkpoint = SliceStream<'static, u8>;
    fn checkpoint(&self) -> Self::Checkpoint {
        self.0.checkpoint()
    }
    fn reset(&mut self, c: Self::Checkpoint) -> Result<(), Self::Error> {
        self.0.reset(c)
    }
}
impl Positioned for Dflt<'_> {
    fn position(&self) -> Self::Position {
        self.0.position()
    }
}
impl RangeStreamOnce for Dflt<'_> {
    fn uncons_range(&mut self, size: usize) -> Result<Self::Range, StreamErrorFor<Self>> {
        self.0.uncons_range(size)
    }
    fn uncons_while<F: FnMut(u8) -> bool>(&mut self, f: F) -> Result<Self::Range, StreamErrorFor<Self>> {
        self.0.uncons_while(f)
    }
    fn distance(&self, end: &Self::Checkpoint) -> usize {
        self.0.distance(end)
    }
    fn range(&self) -> Self::Range {
        self.0.range()
    }
}

/// One cause listed by an error: U unexpected, E expected, M message, O other.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Cause {
    pub kind: char,
    pub what: String,
    /// the token, for an unexpected or expected token
    pub tok: Option<u32>,
}
pub fn causes<T: Tk, R: std::fmt::Debug>(errs: &[easy::Error<T, R>]) -> Vec<Cause> {
    fn info<T: Tk, R: std::fmt::Debug>(kind: char, i: &easy::Info<T, R>) -> Cause {
        match i {
            easy::Info::Token(t) => Cause { kind, what: "token".into(), tok: Some(t.u()) },
            easy::Info::Range(r) => Cause { kind, what: format!("range {:?}", r), tok: None },
            easy::Info::Owned(s) => Cause { kind, what: s.to_string(), tok: None },
            easy::Info::Static(s) => Cause { kind, what: s.to_string(), tok: None },
        }
    }
    let mut v: Vec<Cause> = errs
        .iter()
        .map(|e| match e {
            easy::Error::Unexpected(i) => info('U', i),
            easy::Error::Expected(i) => info('E', i),
            easy::Error::Message(i) => info('M', i),
            easy::Error::Other(e) => Cause { kind: 'O', what: e.to_string(), tok: None },
        })
        .collect();
    v.sort();

    v
}

/// What a grammar needs from its input stream.
pub trait In: combine::Stream + Sized + 'static
where
    Self: StreamOnce<Token = <Self as In>::T>,
{
    type T: Tk;
    const TEXT: bool;
    const HAS_POS: bool;
    /// Leaves that only exist for byte or for text streams, or only for range streams.
    fn slots() -> &'static Slots<Self>;
    fn some_pos() -> Self::Position;
    fn show_pos(p: &Self::Position) -> String;
    fn err_pos(e: &Self::Error) -> Option<String>;
    /// `spanned`, where positions are spans
    fn spanned(p: BoxP<Self>) -> BoxP<Self> {
        p
    }
    /// What an error that lists its causes lists.
    fn err_items(_e: Self::Error) -> Vec<Cause> {
        vec![]
    }
    /// What is wrong with an I/O error that a decoder reports, once it has become an error of the stream.
    fn io_as_stream_error(_e: decoder::Error<Self::Error, Self::Position>) -> Option<String> {
        None
    }
}

/// A range stream which a driver can construct over a buffer.
pub trait Bufd: In + combine::RangeStream
where
    Self: StreamOnce<Position = <Self as Bufd>::P>,
{
    type P: Copy + Default + 'static;
    /// What user code writes in the stream argument of the decode macros.
    fn over_at(buf: &'static [u8], partial: bool, pos: Self::P) -> Self;
    type Pos: Clone + Default + std::fmt::Debug + PartialEq + Send + 'static;
    /// Stream over `buf`; `partial` = more may follow; `pos` = position where the previous stream over this source ended.
    fn over(buf: &'static [u8], partial: bool, pos: Self::Pos) -> Self;
    fn pos(&self) -> Self::Pos;
    fn rest_len(&self) -> usize;
    const NAME: &'static str;
    /// Position of an error of a stream over `buf`, whose first byte is byte `base` of the input.
    fn err_at(e: &Self::Error, _buf: &'static [u8], _base: usize) -> Option<String> {
        Self::err_pos(e)
    }
}
/// (a distance to the null pointer is the address)
fn ptr_at<T: ?Sized>(p: PointerOffset<T>, view: &T, buf: &[u8], base: usize) -> Option<String> {
    let start = buf.as_ptr() as usize;
    Some(if p.0 >= start && p.0 <= start + buf.len() { format!("{}", base + p.translate_position(view)) } else { "a place outside of the given buffer".into() })
}

pub unsafe fn stat<T: ?Sized>(b: &T) -> &'static T {
    &*(b as *const T)
}

/// An error's span; where it is empty, its position.
fn show_span(a: String, b: String) -> String {
    if a == b {
        a
    } else {
        format!("{}..{}", a, b)
    }
}

pub type B0 = Metered<PC<&'static [u8]>>;
pub type B1 = easy::Stream<Metered<MaybePartialStream<&'static [u8]>>>;
pub type B2 = easy::Stream<position::Stream<Metered<MaybePartialStream<&'static [u8]>>, IndexPositioner>>;
pub type S0 = Metered<PC<&'static str>>;
pub type S1 = easy::Stream<Metered<MaybePartialStream<&'static str>>>;
pub type S2 = easy::Stream<position::Stream<Metered<MaybePartialStream<&'static str>>, SourcePosition>>;

/// Every layer the library offers: user state over spans over (easy errors over) positions.
pub type B3 = state::Stream<
    span::Stream<easy::Stream<position::Stream<Metered<MaybePartialStream<Copied>>, IndexPositioner>>, easy::Errors<u8, &'static [u8], Span<usize>>>,
    u64,
>;
pub type S3 = state::Stream<
    span::Stream<position::Stream<Metered<MaybePartialStream<&'static str>>, SourcePosition>, easy::Errors<char, &'static str, Span<SourcePosition>>>,
    u64,
>;

macro_rules! impl_in {
    (@items easy decoded) => {
        impl_in!(@items easy);
        fn io_as_stream_error(e: decoder::Error<Self::Error, Self::Position>) -> Option<String> {
            let (pos, id, kind) = match &e {
                decoder::Error::Io { position, error } => (*position, crate::src::err_id(error), error.kind()),
                decoder::Error::Parse(_) => return None,
            };
            let x: Self::Error = e.into();
            if x.position != pos {
                return Some(format!("the I/O error moves from {:?} to {:?} when it is converted", pos, x.position));
            }
            if x.is_unexpected_end_of_input() {
                return Some("an I/O error becomes an unexpected end of input when it is converted".into());
            }
            match &x.errors[..] {
                [easy::Error::Other(o)] => match o.downcast_ref::<std::io::Error>() {
                    Some(o) if o.kind() == kind && crate::src::err_id(o) == id => None,
                    o => Some(format!("a {:?} error becomes {:?} when it is converted", kind, o)),
                },
                o => Some(format!("a {:?} error becomes {:?} when it is converted", kind, o)),
            }
        }
    };
    (@items easy $($span:ident)?) => {
        fn err_items(e: Self::Error) -> Vec<Cause> {
            // (an error which is to outlive the buffer goes through these)
            causes(&e.map_position(drop).map_token(|t| t).map_range(|r| r).errors)
        }
    };
    (@items) => {};
    (@span easy span) => {
        fn spanned(p: BoxP<Self>) -> BoxP<Self> {
            crate::mk::bx(combine::parser::combinator::spanned(p))
        }
    };
    (@span $($easy:ident)*) => {};
    ($t:ty, $tok:ty, $text:expr, $pos:ty, $has:expr, $some:expr, |$p:ident| $show:expr, |$e:ident| $err:expr $(, $easy:ident)* ) => {
        impl In for $t {
            type T = $tok;
            const TEXT: bool = $text;
            const HAS_POS: bool = $has;
            fn slots() -> &'static Slots<Self> {
                static S: Slots<$t> = Slots::new();
                &S
            }
            fn some_pos() -> Self::Position {
                $some
            }
            fn show_pos($p: &Self::Position) -> String {
                $show
            }
            fn err_pos($e: &Self::Error) -> Option<String> {
                $err
            }
            impl_in!(@items $($easy)*);
            impl_in!(@span $($easy)*);
        }
    };
}
impl_in!(B0, u8, false, PointerOffset<[u8]>, false, PointerOffset::new(0), |_p| String::new(), |_e| None);
impl_in!(B1, u8, false, PointerOffset<[u8]>, false, PointerOffset::new(0), |_p| String::new(), |_e| None, easy, decoded);
impl_in!(B2, u8, false, usize, true, 0, |p| format!("{}", p), |e| Some(format!("{}", e.position)), easy, decoded);
impl_in!(S0, char, true,  PointerOffset<str>, false, PointerOffset::new(0), |_p| String::new(), |_e| None);
impl_in!(S1, char, true,  PointerOffset<str>, false, PointerOffset::new(0), |_p| String::new(), |_e| None, easy);
impl_in!(
    S2,
    char,
    true,
    SourcePosition,
    true,
    SourcePosition::default(),
    |p| format!("{}:{}", p.line, p.column),
    |e| Some(format!("{}:{}", e.position.line, e.position.column)),
    easy
);

impl_in!(B3, u8, false, Span<usize>, true, Span::default(), |p| format!("{}", p.start), |e| Some(show_span(format!("{}", e.position.start), format!("{}", e.position.end))), easy, span);
impl_in!(
    S3,
    char,
    true,
    Span<SourcePosition>,
    true,
    Span::from(SourcePosition::default()),
    |p| format!("{}:{}", p.start.line, p.start.column),
    |e| Some(show_span(
        format!("{}:{}", e.position.start.line, e.position.start.column),
        format!("{}:{}", e.position.end.line, e.position.end.column)
    )),
    easy,
    span
);
impl Bufd for B3 {
    type P = Span<usize>;
    fn over_at(buf: &'static [u8], partial: bool, pos: Span<usize>) -> Self {
        Self::over(buf, partial, pos.end)
    }
    type Pos = usize;
    const NAME: &'static str = "layered-bytes";
    fn over(buf: &'static [u8], partial: bool, pos: usize) -> Self {
        let s = MaybePartialStream(Copied(SliceStream(buf)), partial);
        let s = position::Stream::with_positioner(Metered(s), IndexPositioner::new_with_position(pos));
        state::Stream { stream: span::Stream::from(easy::Stream(s)), state: 7 }
    }
    fn pos(&self) -> usize {
        Positioned::position(self).start
    }
    fn rest_len(&self) -> usize {
        self.stream.0 .0.input.0 .0 .0 .0.len()
    }
}
impl Bufd for S3 {
    type P = Span<SourcePosition>;
    fn over_at(buf: &'static [u8], partial: bool, pos: Span<SourcePosition>) -> Self {
        Self::over(buf, partial, pos.end)
    }
    type Pos = SourcePosition;
    const NAME: &'static str = "layered-str";
    fn over(buf: &'static [u8], partial: bool, pos: SourcePosition) -> Self {
        let s = position::Stream::with_positioner(Metered(MaybePartialStream(s(buf), partial)), pos);
        state::Stream { stream: span::Stream::from(s), state: 7 }
    }
    fn pos(&self) -> SourcePosition {
        Positioned::position(self).start
    }
    fn rest_len(&self) -> usize {
        self.stream.0.input.0 .0.len()
    }
}
impl Bufd for B0 {
    type P = PointerOffset<[u8]>;
    fn over_at(buf: &'static [u8], partial: bool, _pos: PointerOffset<[u8]>) -> Self {
        Self::over(buf, partial, ())
    }
    type Pos = ();
    const NAME: &'static str = "bytes";
    fn over(buf: &'static [u8], partial: bool, _: ()) -> Self {
        Metered(PC::new(buf, partial))
    }
    fn pos(&self) {}
    fn rest_len(&self) -> usize {
        self.0.get().len()
    }
}
impl Bufd for B1 {
    type P = PointerOffset<[u8]>;
    fn over_at(buf: &'static [u8], partial: bool, _pos: PointerOffset<[u8]>) -> Self {
        Self::over(buf, partial, ())
    }
    type Pos = ();
    const NAME: &'static str = "easy-bytes";
    fn err_at(e: &Self::Error, buf: &'static [u8], base: usize) -> Option<String> {
        ptr_at(e.position, buf, buf, base)
    }
    fn over(buf: &'static [u8], partial: bool, _: ()) -> Self {
        easy::Stream(Metered(MaybePartialStream(buf, partial)))
    }
    fn pos(&self) {}
    fn rest_len(&self) -> usize {
        self.0 .0 .0.len()
    }
}
impl Bufd for B2 {
    type P = usize;
    fn over_at(buf: &'static [u8], partial: bool, pos: usize) -> Self {
        Self::over(buf, partial, pos)
    }
    type Pos = usize;
    const NAME: &'static str = "easy-pos-bytes";
    fn over(buf: &'static [u8], partial: bool, pos: usize) -> Self {
        easy::Stream(position::Stream::with_positioner(Metered(MaybePartialStream(buf, partial)), IndexPositioner::new_with_position(pos)))
    }
    fn pos(&self) -> usize {
        Positioned::position(self)
    }
    fn rest_len(&self) -> usize {
        self.0.input.0 .0.len()
    }
}
fn s(b: &'static [u8]) -> &'static str {
    std::str::from_utf8(b).expect("harness: text stream over invalid utf-8")
}
impl Bufd for S0 {
    type P = PointerOffset<str>;
    fn over_at(buf: &'static [u8], partial: bool, _pos: PointerOffset<str>) -> Self {
        Self::over(buf, partial, ())
    }
    type Pos = ();
    const NAME: &'static str = "str";
    fn over(buf: &'static [u8], partial: bool, _: ()) -> Self {
        Metered(PC::new(s(buf), partial))
    }
    fn pos(&self) {}
    fn rest_len(&self) -> usize {
        self.0.get().len()
    }
}
impl Bufd for S1 {
    type P = PointerOffset<str>;
    fn over_at(buf: &'static [u8], partial: bool, _pos: PointerOffset<str>) -> Self {
        Self::over(buf, partial, ())
    }
    type Pos = ();
    const NAME: &'static str = "easy-str";
    fn err_at(e: &Self::Error, buf: &'static [u8], base: usize) -> Option<String> {
        ptr_at(e.position, s(buf), buf, base)
    }
    fn over(buf: &'static [u8], partial: bool, _: ()) -> Self {
        easy::Stream(Metered(MaybePartialStream(s(buf), partial)))
    }
    fn pos(&self) {}
    fn rest_len(&self) -> usize {
        self.0 .0 .0.len()
    }
}
impl Bufd for S2 {
    type P = SourcePosition;
    fn over_at(buf: &'static [u8], partial: bool, pos: SourcePosition) -> Self {
        Self::over(buf, partial, pos)
    }
    type Pos = SourcePosition;
    const NAME: &'static str = "easy-pos-str";
    fn over(buf: &'static [u8], partial: bool, pos: SourcePosition) -> Self {
        easy::Stream(position::Stream::with_positioner(Metered(MaybePartialStream(s(buf), partial)), pos))
    }
    fn pos(&self) -> SourcePosition {
        Positioned::position(self)
    }
    fn rest_len(&self) -> usize {
        self.0.input.0 .0.len()
    }
}
#[allow(unused_imports)]
use stream::position;
pub fn err_eoi<I: In>(e: &I::Error) -> bool {
    e.is_unexpected_end_of_input()
}
pub fn unit() -> V {
    V::U
}
