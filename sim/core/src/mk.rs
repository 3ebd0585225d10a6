//! Builds the real combine parser described by a grammar tree. Every node is boxed; its partial state is kept in `St`,
//! which (like the typed states of unboxed parsers) lives as long as its parent's state does.
use crate::ast::{class, Node, Op, V};
use crate::ctx;
use crate::strm::*;
use combine::error::{ParseError, ParseResult, StreamError, Tracked};
use combine::parser::combinator::{any_partial_state, any_send_partial_state, any_send_sync_partial_state, factory, lazy, no_partial, recognize};
use combine::parser::repeat::{escaped, iterate, repeat_skip_until, repeat_until, skip_until, take_until};
use combine::parser::sequence::then_partial;
use combine::parser::token::{tokens, tokens_cmp};
use combine::parser::{function, range};
use combine::stream::StreamErrorFor;
use combine::{
    any, attempt, between, chainl1, chainr1, choice, count, count_min_max, eof, look_ahead, many, many1, none_of, not_followed_by, one_of, optional,
    position, produce, satisfy, satisfy_map, sep_by, sep_by1, sep_end_by, sep_end_by1, skip_count, skip_count_min_max, skip_many, skip_many1, struct_parser,
    token, unexpected, value, ErrorOffset, Parser, StreamOnce,
};
use std::any::Any;
use std::sync::OnceLock;

/// A boxed parser. (`dyn Parser` would do the same; its table of provided methods makes the build twice as long.)
pub struct BoxP<I: combine::Stream>(Box<dyn Dy<I>>);
pub type DynP<I> = Box<dyn Parser<I, Output = V, PartialState = St>>;
trait Dy<I: combine::Stream> {
    fn lazy(&mut self, input: &mut I) -> ParseResult<V, I::Error>;
    fn first(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error>;
    fn partial(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error>;
    fn err(&mut self, e: &mut Tracked<I::Error>);
    fn committed_err(&mut self, e: &mut Tracked<I::Error>);
    fn parts(&self) -> ErrorOffset;
}
impl<I, P> Dy<I> for Keep<P>
where
    I: combine::Stream,
    P: Parser<I, Output = V>,
    P::PartialState: 'static,
{
    fn lazy(&mut self, input: &mut I) -> ParseResult<V, I::Error> {
        self.0.parse_lazy(input)
    }
    fn first(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error> {
        self.parse_first(input, state)
    }
    fn partial(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error> {
        self.parse_partial(input, state)
    }
    fn err(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn committed_err(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parts(&self) -> ErrorOffset {
        self.0.parser_count()
    }
}
impl<I: combine::Stream> Parser<I> for BoxP<I> {
    type Output = V;
    type PartialState = St;
    fn parse_lazy(&mut self, input: &mut I) -> ParseResult<V, I::Error> {
        self.0.lazy(input)
    }
    fn parse_first(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error> {
        self.0.first(input, state)
    }
    fn parse_partial(&mut self, input: &mut I, state: &mut St) -> ParseResult<V, I::Error> {
        self.0.partial(input, state)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.err(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.committed_err(e)
    }
    fn parser_count(&self) -> ErrorOffset {
        self.0.parts()
    }
}

#[derive(Default)]
pub struct St(Option<Box<dyn Any>>);
// SAFETY: states never leave the thread they were created on; the markers are only needed to put them behind the
// thread-movable erased states of the library.
unsafe impl Send for St {}
unsafe impl Sync for St {}

pub struct Keep<P>(pub P);
impl<I, P> Parser<I> for Keep<P>
where
    I: combine::Stream,
    P: Parser<I>,
    P::PartialState: 'static,
{
    type Output = P::Output;
    type PartialState = St;
    fn parse_lazy(&mut self, input: &mut I) -> ParseResult<P::Output, I::Error> {
        self.0.parse_lazy(input)
    }
    fn parse_first(&mut self, input: &mut I, state: &mut St) -> ParseResult<P::Output, I::Error> {
        // Alternatives of one homogeneous list share a state slot; a state left there by a different parser type is
        // what a default state is to a typed parser.
        if !matches!(&state.0, Some(s) if s.is::<P::PartialState>()) {
            state.0 = Some(Box::new(P::PartialState::default()));
        }
        self.0.parse_first(input, state.0.as_mut().unwrap().downcast_mut().unwrap())
    }
    fn parse_partial(&mut self, input: &mut I, state: &mut St) -> ParseResult<P::Output, I::Error> {
        let s = state.0.get_or_insert_with(|| Box::new(P::PartialState::default()));
        self.0.parse_partial(input, s.downcast_mut().expect("a parser was resumed with the saved state of another one"))
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_error(e)
    }
    fn add_committed_expected_error(&mut self, e: &mut Tracked<I::Error>) {
        self.0.add_committed_expected_error(e)
    }
    fn parser_count(&self) -> ErrorOffset {
        self.0.parser_count()
    }
}

/// Top-level wrapper which works on a borrowed grammar: an `attempt`-less parser reference with `St` state.
pub fn bx<I, P>(p: P) -> BoxP<I>
where
    I: combine::Stream + 'static,
    P: Parser<I, Output = V> + 'static,
    P::PartialState: 'static,
{
    BoxP(Box::new(Keep(p)))
}

pub fn intern(s: &[u8]) -> &'static [u8] {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local!(static TAB: RefCell<HashMap<Vec<u8>, &'static [u8]>> = RefCell::new(HashMap::new()));
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.get(s) {
            return *x;
        }
        let l: &'static [u8] = Box::leak(s.to_vec().into_boxed_slice());
        t.insert(s.to_vec(), l);
        l
    })
}
pub fn intern_str(s: &[u8]) -> &'static str {
    std::str::from_utf8(intern(s)).expect("harness: text grammar with invalid utf-8")
}

/// The tokens of a literal for a byte or text stream.
pub fn toks<I: In>(s: &[u8]) -> Vec<I::T> {
    if I::TEXT {
        intern_str(s).chars().map(|c| I::T::of(c as u32)).collect()
    } else {
        s.iter().map(|b| I::T::of(*b as u32)).collect()
    }
}
pub fn lower(c: u32) -> u32 {
    if (65..=90).contains(&c) {
        c + 32
    } else {
        c
    }
}
pub fn tv<T: Tk>(t: T) -> V {
    V::T(t.u())
}
pub fn vl(v: Vec<V>) -> V {
    V::L(v)
}
fn satv<I: In>(k: u32) -> impl FnMut(I::T) -> bool + Clone {
    move |c: I::T| {
        ctx::pred_call();
        class(k, c.u())
    }
}
pub fn vhash(v: &V) -> u64 {
    use std::hash::{Hash, Hasher};
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            self.0 = crate::rng::fnv(self.0, b)
        }
    }
    let mut f = F(7);
    v.hash(&mut f);
    f.0
}
pub fn fm_err<I: In>() -> I::Error {
    I::Error::from_error(I::some_pos(), StreamErrorFor::<I>::unexpected_static_message("rejected value"))
}

/// Which of two parsers a factory builds at a position.
pub fn by_pos(p: &str) -> usize {
    p.bytes().map(|b| b as usize).sum::<usize>() % 2
}
pub struct Trip {
    pub a: V,
    pub b: V,
}
struct Pair2(V, V);

combine::parser! {
    type PartialState = combine::parser::combinator::AnyPartialState;
    fn parser_macro[I](p: BoxP<I>)(I) -> V
    where [ I: In ]
    {
        any_partial_state(p.by_ref())
    }
}
/// `choice` over a slice borrowed for each call, as user code with a `Vec` of parsers does.
struct SliceChoice<I: In>(Vec<BoxP<I>>);
type SC<I> = combine::parser::choice::Choice<&'static mut [BoxP<I>]>;
impl<I: In> Parser<I> for SliceChoice<I> {
    type Output = V;
    type PartialState = <SC<I> as Parser<I>>::PartialState;
    fn parse_first(&mut self, input: &mut I, s: &mut Self::PartialState) -> ParseResult<V, I::Error> {
        choice::<I, _>(&mut self.0[..]).parse_first(input, s)
    }
    fn parse_partial(&mut self, input: &mut I, s: &mut Self::PartialState) -> ParseResult<V, I::Error> {
        choice::<I, _>(&mut self.0[..]).parse_partial(input, s)
    }
    fn add_error(&mut self, e: &mut Tracked<I::Error>) {
        choice::<I, _>(&mut self.0[..]).add_error(e)
    }
}

macro_rules! seqn {
    ($k:ident; $($v:ident)*) => {{
        let mut it = $k.into_iter();
        $( let $v = it.next().unwrap(); )*
        bx(($($v,)*).map(|($($v,)*)| V::L(vec![$($v),*])))
    }};
}
macro_rules! choicen {
    ($k:ident; $($v:ident)*) => {{
        let mut it = $k.into_iter();
        $( let $v = it.next().unwrap(); )*
        bx(choice(($($v,)*)))
    }};
}
macro_rules! choicearr {
    ($k:ident, $n:literal) => {{
        let a: [BoxP<I>; $n] = match $k.try_into() { Ok(x) => x, Err(_) => unreachable!() };
        bx(choice(a))
    }};
}

pub fn chain_op(op: V) -> impl FnOnce(V, V) -> V {
    move |l, r| V::L(vec![l, op, r])
}

/// The builders of a stream type, which are compiled in crates of their own (see ../inst).
pub struct Slots<I: combine::Stream> {
    pub mk: OnceLock<fn(&Node) -> BoxP<I>>,
    pub special: OnceLock<fn(&Node) -> Option<BoxP<I>>>,
    pub zoo: OnceLock<fn(usize) -> BoxP<I>>,
}
impl<I: combine::Stream> Slots<I> {
    pub const fn new() -> Self {
        Slots { mk: OnceLock::new(), special: OnceLock::new(), zoo: OnceLock::new() }
    }
}
pub fn install<I: In>(special: fn(&Node) -> Option<BoxP<I>>) {
    let _ = I::slots().mk.set(build::<I>);
    let _ = I::slots().special.set(special);
}
pub fn mk<I: In>(n: &Node) -> BoxP<I> {
    (I::slots().mk.get().expect("builder not installed"))(n)
}
fn build<I: In>(n: &Node) -> BoxP<I> {
    use Op::*;
    if n.op == Zoo {
        return match I::slots().zoo.get() {
            Some(z) => z(n.n[0] as usize),
            None => mk::<I>(&n.kids[0]),
        };
    }
    if let Some(p) = I::slots().special.get().unwrap()(n) {
        return p;
    }
    let k0 = n.n.first().copied().unwrap_or(0);
    let k1 = n.n.get(1).copied().unwrap_or(0);
    let kid = |i: usize| mk::<I>(&n.kids[i]);
    let s = &n.s;
    match n.op {
        Any => bx(any().map(tv)),
        Sat => bx(satisfy(satv::<I>(k0)).map(tv)),
        SatMap => bx(satisfy_map(move |c: I::T| {
            ctx::pred_call();
            if class(k0, c.u()) {
                Some(V::N(c.u() as u64))
            } else {
                None
            }
        })),
        Tok => bx(token(toks::<I>(s)[0]).map(tv)),
        OneOf => bx(one_of(toks::<I>(s)).map(tv)),
        NoneOf => bx(none_of(toks::<I>(s)).map(tv)),
        Tokens => {
            let s2 = s.clone();
            bx(tokens(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(s)).map(move |_| V::S(s2.clone())))
        }
        TokensCmp => {
            let s2 = s.clone();
            bx(tokens_cmp(toks::<I>(s), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(move |_| V::S(s2.clone())))
        }
        Eof => bx(eof().map(|_| V::U)),
        Value => bx(value(V::N(k0 as u64))),
        Produce => bx(produce(move || V::N(k0 as u64))),
        Unexpected if k0 == 1 => bx(combine::unexpected_any::<I, _, V>("unexpected")),
        Unexpected => bx(unexpected::<I, _>("unexpected").map(|_| V::U)),
        Position => bx(position().map(|p: I::Position| {
            let s = I::show_pos(&p);
            ctx::log_pos(s.clone());
            V::S(s.into_bytes())
        })),
        Seq => {
            let k: Vec<BoxP<I>> = n.kids.iter().map(mk::<I>).collect();
            match k.len() {
                1 => seqn!(k; a),
                2 => seqn!(k; a b),
                3 => seqn!(k; a b c),
                4 => seqn!(k; a b c d),
                5 => seqn!(k; a b c d e),
                6 => seqn!(k; a b c d e f),
                7 => seqn!(k; a b c d e f g),
                8 => seqn!(k; a b c d e f g h),
                9 => seqn!(k; a b c d e f g h i),
                _ => seqn!(k; a b c d e f g h i j k2 l),
            }
        }
        And => bx(kid(0).and(kid(1)).map(|(a, b)| V::L(vec![a, b]))),
        With => bx(kid(0).with(kid(1))),
        Skip => bx(kid(0).skip(kid(1))),
        Between => bx(between(kid(0), kid(1), kid(2))),
        StructP => {
            let (x, y, z) = (kid(0), kid(1), kid(2));
            bx(struct_parser! { Trip { a: x, _: y, b: z } }.map(|t| V::L(vec![t.a, t.b])))
        }
        StructT => {
            let (x, y, z) = (kid(0), kid(1), kid(2));
            bx((x, y, z).map(|t| Pair2(t.0, t.2)).map(|t| V::L(vec![t.0, t.1])))
        }
        ParserM => bx(parser_macro(kid(0))),
        Then => {
            let (a, b) = (n.kids[1].clone(), n.kids[2].clone());
            bx(kid(0).then(move |v| if v.pred(k0) { mk::<I>(&a) } else { mk::<I>(&b) }))
        }
        ThenPartial => {
            let (a, b) = (n.kids[1].clone(), n.kids[2].clone());
            bx(then_partial(kid(0), move |v: &mut V| if v.pred(k0) { mk::<I>(&a) } else { mk::<I>(&b) }))
        }
        ThenRef => {
            let (a, b) = (n.kids[1].clone(), n.kids[2].clone());
            bx(kid(0).then_ref(move |v: &V| if v.pred(k0) { mk::<I>(&a) } else { mk::<I>(&b) }).map(|(a, b)| V::L(vec![a, b])))
        }
        Dispatch => {
            let (a, b, c) = (n.kids[1].clone(), n.kids[2].clone(), n.kids[3].clone());
            bx(kid(0).then(move |v| {
                combine::dispatch!(v.num() % 3;
                    0 => mk::<I>(&a),
                    1 => Keep(mk::<I>(&b)),
                    _ => mk::<I>(&c)
                )
            }))
        }
        Map => bx(kid(0).map(move |v| {
            ctx::log_action(k0, vhash(&v));
            v
        })),
        MapInput => bx(kid(0).map_input(move |v, _i| {
            ctx::log_action(k0, vhash(&v));
            v
        })),
        FlatMap => bx(kid(0).flat_map(move |v| {
            ctx::pred_call();
            if v.pred(k0) {
                Ok(v)
            } else {
                Err(fm_err::<I>())
            }
        })),
        AndThen => bx(kid(0).and_then(move |v| {
            ctx::pred_call();
            if v.pred(k0) {
                Ok(v)
            } else {
                Err(StreamErrorFor::<I>::unexpected_static_message("rejected"))
            }
        })),
        Message => bx(kid(0).message("message")),
        Expected => bx(kid(0).expected("expected")),
        Silent => bx(kid(0).silent()),
        Spanned => I::spanned(kid(0)),
        Or => bx(kid(0).or(kid(1))),
        Choice => {
            let k: Vec<BoxP<I>> = n.kids.iter().map(mk::<I>).collect();
            match k.len() {
                1 => choicen!(k; a),
                2 => choicen!(k; a b),
                3 => choicen!(k; a b c),
                4 => choicen!(k; a b c d),
                5 => choicen!(k; a b c d e),
                _ => choicen!(k; a b c d e f g h i),
            }
        }
        ChoiceArr => {
            let k: Vec<BoxP<I>> = n.kids.iter().map(mk::<I>).collect();
            match k.len() {
                1 => choicearr!(k, 1),
                2 => choicearr!(k, 2),
                3 => choicearr!(k, 3),
                4 => choicearr!(k, 4),
                5 => choicearr!(k, 5),
                _ => choicearr!(k, 9),
            }
        }
        ChoiceSlice => bx(SliceChoice::<I>(n.kids.iter().map(mk::<I>).collect())),
        Opt => bx(optional(kid(0)).map(|o| V::O(o.map(Box::new)))),
        Attempt => bx(attempt(kid(0))),
        LookAhead => bx(look_ahead(kid(0))),
        NotFollow => bx(not_followed_by(kid(0).map(|_| "x")).map(|_| V::U)),
        Recog => bx(recognize::<Vec<I::T>, I, _>(kid(0)).map(|v| V::L(v.into_iter().map(tv).collect()))),
        NoPartial => bx(no_partial(kid(0))),
        Lazy => {
            let k = n.kids[0].clone();
            bx(lazy(move || mk::<I>(&k)))
        }
        Factory => {
            let k = n.kids[0].clone();
            bx(factory(move |_i: &mut I| mk::<I>(&k)))
        }
        Factory2 => {
            let k = n.kids.clone();
            bx(factory(move |i: &mut I| mk::<I>(&k[by_pos(&I::show_pos(&i.position()))])))
        }
        Opaque => {
            let mut p = kid(0);
            bx(combine::parser::combinator::opaque::<I, _, V, St>(move |f: &mut dyn FnMut(&mut dyn Parser<I, Output = V, PartialState = St>)| f(&mut p)))
        }
        Left => bx((Box::new(kid(0)) as DynP<I>).left::<BoxP<I>>()),
        Right => bx(kid(0).right::<BoxP<I>>()),
        FnParser => match k0 % 3 {
            0 => {
                let mut p = kid(0);
                bx(function::parser(move |i: &mut I| p.parse_lazy(i).into_result()))
            }
            1 => {
                fn with_env<I: In>(n: std::rc::Rc<Node>, i: &mut I) -> combine::StdParseResult<V, I> {
                    mk::<I>(&n).parse_stream(i).into_result()
                }
                bx(function::env_parser(std::rc::Rc::new(n.kids[0].clone()), with_env::<I>))
            }
            _ => {
                let mut p = kid(0);
                let f: Box<dyn FnMut(&mut I) -> combine::StdParseResult<V, I>> = Box::new(move |i: &mut I| p.parse_lazy(i).into_result());
                bx(f)
            }
        },
        ByMut => bx(function::parser(move |i: &mut I| by_mut_tokens::<I>(k0, k1 / 2, i).into_result())),
        AnyState => bx(any_partial_state(kid(0))),
        AnySend => bx(any_send_partial_state(kid(0))),
        AnySendSync => bx(any_send_sync_partial_state(kid(0))),
        Count => bx(count::<Vec<V>, _, _>(k0 as usize, kid(0)).map(vl)),
        SkipCount => bx(skip_count(k0 as usize, kid(0)).map(|_| V::U)),
        CountMM => bx(count_min_max::<Vec<V>, _, _>(k0 as usize, (k0 + k1) as usize, kid(0)).map(vl)),
        SkipCountMM => bx(skip_count_min_max(k0 as usize, (k0 + k1) as usize, kid(0)).map(|_| V::U)),
        Many => bx(many::<Vec<V>, _, _>(kid(0)).map(vl)),
        Many1 => bx(many1::<Vec<V>, _, _>(kid(0)).map(vl)),
        SkipMany => bx(skip_many(kid(0)).map(|_| V::U)),
        SkipMany1 => bx(skip_many1(kid(0)).map(|_| V::U)),
        SepBy => bx(sep_by::<Vec<V>, _, _, _>(kid(0), kid(1)).map(vl)),
        SepBy1 => bx(sep_by1::<Vec<V>, _, _, _>(kid(0), kid(1)).map(vl)),
        SepEndBy => bx(sep_end_by::<Vec<V>, _, _, _>(kid(0), kid(1)).map(vl)),
        SepEndBy1 => bx(sep_end_by1::<Vec<V>, _, _, _>(kid(0), kid(1)).map(vl)),
        ChainL1 => bx(chainl1(kid(0), kid(1).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r])))),
        ChainR1 => bx(chainr1(kid(0), kid(1).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r])))),
        CountSink => bx(count_min_max::<Counter, _, _>(k0 as usize, (k0 + k1) as usize, kid(0)).map(|c| V::N(c.0))),
        TakeUntil => bx(take_until::<Vec<I::T>, _, _>(kid(0)).map(|v| V::L(v.into_iter().map(tv).collect()))),
        SkipUntil => bx(skip_until(kid(0)).map(|_| V::U)),
        RepeatUntil => bx(repeat_until::<Vec<V>, _, _, _>(kid(0), kid(1)).map(vl)),
        RepeatSkipUntil => bx(repeat_skip_until(kid(0), kid(1)).map(|_| V::U)),
        Escaped => bx(escaped(kid(0), toks::<I>(s)[0], kid(1)).map(|_| V::U)),
        Iterate => {
            let items: Vec<u32> = n.n.clone();
            let kids = n.kids.clone();
            if kids.len() == 3 {
                return bx(iterate::<Vec<V>, _, _, I, _>(items, move |i: &u32, _inp: &mut I| {
                    combine::dispatch!(*i % 3;
                        0 => mk::<I>(&kids[0]),
                        1 => Keep(mk::<I>(&kids[1])),
                        _ => mk::<I>(&kids[2])
                    )
                })
                .map(vl));
            }
            bx(iterate::<Vec<V>, _, _, I, _>(items, move |i: &u32, _inp: &mut I| mk::<I>(&kids[*i as usize % kids.len()])).map(vl))
        }
        CountN => {
            let item = n.kids[1].clone();
            bx(kid(0).then(move |v| {
                let c = v.big() as usize;
                let k = mk::<I>(&item);
                match k0 % 5 {
                    0 => bx(count_min_max::<Vec<V>, _, _>(c, c, k).map(vl)),
                    1 => bx(count::<Vec<V>, _, _>(c, k).map(vl)),
                    2 => bx(count_min_max::<Vec<V>, _, _>(c / 2, c, k).map(vl)),
                    3 => bx(skip_count(c, k).map(|_| V::U)),
                    _ => bx(skip_count_min_max(c, c, k).map(|_| V::U)),
                }
            }))
        }
        IterMany => {
            let mut p = kid(0);
            bx(function::parser(move |i: &mut I| {
                let mut it = p.by_ref().iter(i);
                let v: Vec<V> = it.by_ref().collect();
                it.into_result(V::L(v))
            }))
        }
        Zoo | Digit | Letter | AlphaNum | Hex | Oct | Upper | Lower | Space | Spaces | Newline | Crlf | Tab | TakeN | Str | StrCmp | Range | Take | TakeWhile
        | TakeWhile1 | TakeUntilRange | TakeFn | TakeUntilByte | TakeUntilBytes | Num | LenPrefix | FromStr | RecogRange | RecogVal => {
            panic!("harness: op {:?} unsupported on this stream", n.op)
        }
    }
}

/// The same stream through a mutable reference, which is a stream of its own.
fn by_mut_tokens<I: In>(k: u32, how: u32, mut i: &mut I) -> ParseResult<V, I::Error> {
    let r: &mut &mut I = &mut i;
    let text = |v: Vec<I::T>| {
        let f = |t: I::T| if I::TEXT { char::from_u32(t.u()).unwrap().to_string().into_bytes() } else { vec![t.u() as u8] };
        V::S(v.into_iter().flat_map(f).collect())
    };
    match how % 4 {
        0 => many1::<Vec<I::T>, _, _>(satisfy(satv::<I>(k))).map(text).parse_lazy(r),
        1 => recognize::<Vec<I::T>, _, _>(skip_many1(satisfy(satv::<I>(k)))).map(text).parse_lazy(r),
        2 => (look_ahead(any()), many1::<Vec<I::T>, _, _>(attempt(satisfy(satv::<I>(k))))).map(|(_, v)| text(v)).parse_lazy(r),
        _ => many1::<Vec<I::T>, _, _>((position(), satisfy(satv::<I>(k))).map(|t: (I::Position, I::T)| t.1)).map(text).parse_lazy(r),
    }
}
fn by_mut_range<I>(k: u32, how: u32, mut i: &mut I) -> ParseResult<V, I::Error>
where
    I: In + combine::RangeStream,
    I::Range: Rg + AsRef<[u8]> + combine::stream::Range,
{
    let r: &mut &mut I = &mut i;
    match how % 4 {
        0 => range::take_while1(satv::<I>(k)).map(rv).parse_lazy(r),
        1 => range::recognize(skip_many1(satisfy(satv::<I>(k)))).map(rv).parse_lazy(r),
        2 => (range::take(0), range::take_while1(satv::<I>(k))).map(|(_, v)| rv(v)).parse_lazy(r),
        _ => (range::take_while(|_| false), look_ahead(satisfy(satv::<I>(k))), range::take_while(satv::<I>(k))).map(|(_, _, v)| rv(v)).parse_lazy(r),
    }
}

#[derive(Default)]
pub struct Counter(pub u64);
impl Extend<V> for Counter {
    fn extend<T: IntoIterator<Item = V>>(&mut self, it: T) {
        for _ in it {
            self.0 += 1
        }
    }
}

trait Rg: Copy + 'static {
    fn by(&self) -> Vec<u8>;
}
impl Rg for &'static [u8] {
    fn by(&self) -> Vec<u8> {
        self.to_vec()
    }
}
impl Rg for &'static str {
    fn by(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
}
fn rv<R: Rg>(r: R) -> V {
    V::S(r.by())
}

fn special_range<I>(n: &Node) -> Option<BoxP<I>>
where
    I: In + combine::RangeStream,
    I::Range: Rg + AsRef<[u8]> + combine::stream::Range,
{
    let k0 = n.n.first().copied().unwrap_or(0);
    Some(match n.op {
        Op::Take => bx(range::take(k0 as usize).map(rv)),
        Op::TakeN => {
            if k0 % 2 == 0 {
                bx(range::length_prefix(mk::<I>(&n.kids[0]).map(move |v| v.big() as usize)).map(rv))
            } else {
                bx(mk::<I>(&n.kids[0]).then(|v| range::take(v.big() as usize)).map(rv))
            }
        }
        Op::TakeWhile => bx(range::take_while(satv::<I>(k0)).map(rv)),
        Op::ByMut if n.n.get(1).map_or(false, |h| h % 2 == 1) => {
            let h = n.n[1] / 2;
            bx(function::parser(move |i: &mut I| by_mut_range::<I>(k0, h, i).into_result()))
        }
        Op::TakeWhile1 => bx(range::take_while1(satv::<I>(k0)).map(rv)),
        Op::TakeFn => {
            // A user-written searcher: finds the literal, keeps a resume offset that can never miss it.
            let needle = n.s.clone();
            bx(range::take_fn(move |r: I::Range| {
                ctx::tick();
                let h = r.as_ref();
                match h.windows(needle.len().max(1)).position(|w| w == &needle[..]) {
                    Some(i) => range::TakeRange::Found(i),
                    None if k0 == 0 => range::TakeRange::NotFound(0),
                    None => range::TakeRange::NotFound(h.len().saturating_sub(needle.len() - 1)),
                }
            })
            .map(rv))
        }
        Op::TakeUntilByte => match n.s.len() {
            1 => bx(combine::parser::byte::take_until_byte(n.s[0]).map(rv)),
            2 => bx(combine::parser::byte::take_until_byte2(n.s[0], n.s[1]).map(rv)),
            _ => bx(combine::parser::byte::take_until_byte3(n.s[0], n.s[1], n.s[2]).map(rv)),
        },
        Op::TakeUntilBytes => bx(combine::parser::byte::take_until_bytes(intern(&n.s)).map(rv)),
        Op::RecogRange => bx(range::recognize(mk::<I>(&n.kids[0])).map(rv)),
        Op::RecogVal => bx(range::recognize_with_value(mk::<I>(&n.kids[0])).map(|(r, v)| V::L(vec![rv(r), v]))),
        _ => return None,
    })
}
macro_rules! chars {
    ($m:ident, $n:ident) => {
        match $n.op {
            Op::Digit => bx($m::digit().map(tv)),
            Op::Letter => bx($m::letter().map(tv)),
            Op::AlphaNum => bx($m::alpha_num().map(tv)),
            Op::Hex => bx($m::hex_digit().map(tv)),
            Op::Oct => bx($m::oct_digit().map(tv)),
            Op::Upper => bx($m::upper().map(tv)),
            Op::Lower => bx($m::lower().map(tv)),
            Op::Space => bx($m::space().map(tv)),
            Op::Spaces => bx($m::spaces().map(|_| V::U)),
            Op::Newline => bx($m::newline().map(tv)),
            Op::Crlf => bx($m::crlf().map(tv)),
            Op::Tab => bx($m::tab().map(tv)),
            _ => return None,
        }
    };
}
pub const NUMS: u32 = 16;
pub fn num_len(k: u32) -> usize {
    [2, 2, 4, 4, 8, 8, 2, 2, 4, 4, 8, 8, 4, 4, 8, 8][(k % NUMS) as usize]
}

/// Range leaves shared by byte and text streams that need the concrete range type.
macro_rules! tail {
    ($n:ident, $I:ident, $int:ident, $m:ident) => {{
        if let Some(p) = special_range::<$I>($n) {
            return Some(p);
        }
        match $n.op {
            Op::Range => bx(range::range($int(&$n.s)).map(rv)),
            Op::TakeUntilRange => bx(range::take_until_range($int(&$n.s)).map(rv)),
            Op::LenPrefix => {
                // length byte/char, then that many bytes
                let k0 = $n.n.first().copied().unwrap_or(0) as u64;
                bx(range::length_prefix(mk::<$I>(&$n.kids[0]).map(move |v| (v.num() % (k0 + 1)) as usize)).map(rv))
            }
            _ => chars!($m, $n),
        }
    }};
}
pub fn special_bytes<I>(n: &Node) -> Option<BoxP<I>>
where
    I: In<T = u8> + combine::RangeStream + StreamOnce<Token = u8, Range = &'static [u8]>,
{
    use combine::parser::byte::{self, num};
    Some(match n.op {
        Op::Str => bx(byte::bytes(intern(&n.s)).map(|x| V::S(x.to_vec()))),
        Op::StrCmp => bx(byte::bytes_cmp(intern(&n.s), |a: u8, b: u8| lower(a as u32) == lower(b as u32)).map(|x| V::S(x.to_vec()))),
        Op::FromStr => bx(combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(byte::digit())).map(V::N)),
        Op::Num => {
            macro_rules! nn {
                ($p:expr) => {
                    bx($p.map(|x| V::S(x.to_be_bytes().to_vec())))
                };
            }
            match n.n[0] % NUMS {
                0 => nn!(num::be_u16()),
                1 => nn!(num::le_u16()),
                2 => nn!(num::be_u32()),
                3 => nn!(num::le_u32()),
                4 => nn!(num::be_u64()),
                5 => nn!(num::le_u64()),
                6 => nn!(num::be_i16()),
                7 => nn!(num::le_i16()),
                8 => nn!(num::be_i32()),
                9 => nn!(num::le_i32()),
                10 => nn!(num::be_i64()),
                11 => nn!(num::le_i64()),
                12 => nn!(num::be_f32()),
                13 => nn!(num::le_f32()),
                14 => nn!(num::be_f64()),
                _ => nn!(num::le_f64()),
            }
        }
        _ => tail!(n, I, intern, byte),
    })
}
pub fn special_text<I>(n: &Node) -> Option<BoxP<I>>
where
    I: In<T = char> + combine::RangeStream + StreamOnce<Token = char, Range = &'static str>,
{
    use combine::parser::char;
    Some(match n.op {
        Op::Str => bx(char::string(intern_str(&n.s)).map(|x| V::S(x.as_bytes().to_vec()))),
        Op::StrCmp => bx(char::string_cmp(intern_str(&n.s), |a: char, b: char| lower(a as u32) == lower(b as u32)).map(|x| V::S(x.as_bytes().to_vec()))),
        Op::FromStr => bx(combine::from_str::<I, u64, _>(many1::<String, _, _>(char::digit())).map(V::N)),
        _ => tail!(n, I, intern_str, char),
    })
}
/// Leaves for streams that only have tokens.
pub fn special_tokens_u8<I>(n: &Node) -> Option<BoxP<I>>
where
    I: In<T = u8> + StreamOnce<Token = u8>,
{
    use combine::parser::byte;
    Some(chars!(byte, n))
}
pub fn special_tokens_char<I>(n: &Node) -> Option<BoxP<I>>
where
    I: In<T = char> + StreamOnce<Token = char>,
{
    use combine::parser::char;
    Some(chars!(char, n))
}

/// What the nested expressions of zoo.rs are made of.
pub mod zoo_prelude {
    use super::*;
    pub use super::{bx, lower, toks, BoxP, Counter, Trip};
    pub use crate::ast::V;
    pub use crate::strm::{In, Tk};
    pub use combine::parser::combinator::{any_partial_state, any_send_partial_state, any_send_sync_partial_state, factory, lazy, no_partial, recognize};
    pub use combine::parser::repeat::{escaped, iterate, repeat_skip_until, repeat_until, skip_until, take_until};
    pub use combine::parser::sequence::then_partial;
    pub use combine::parser::token::{tokens, tokens_cmp};
    pub use combine::parser::{function, range};
    pub use combine::{
        any, attempt, between, chainl1, chainr1, choice, count, count_min_max, eof, look_ahead, many, many1, none_of, not_followed_by, one_of, optional,
        produce, satisfy, satisfy_map, sep_by, sep_by1, sep_end_by, sep_end_by1, skip_count, skip_count_min_max, skip_many, skip_many1, struct_parser,
        token, unexpected, value, Parser,
    };
    pub trait ZB: In<T = u8> + combine::RangeStream + StreamOnce<Token = u8, Range = &'static [u8]> {}
    impl<I> ZB for I where I: In<T = u8> + combine::RangeStream + StreamOnce<Token = u8, Range = &'static [u8]> {}
    pub trait ZT: In<T = char> + combine::RangeStream + StreamOnce<Token = char, Range = &'static str> {}
    impl<I> ZT for I where I: In<T = char> + combine::RangeStream + StreamOnce<Token = char, Range = &'static str> {}
    /// Natural outputs as values.
    pub trait IV {
        fn iv(self) -> V;
    }
    impl IV for V {
        fn iv(self) -> V {
            self
        }
    }
    impl IV for u8 {
        fn iv(self) -> V {
            tv(self)
        }
    }
    impl IV for char {
        fn iv(self) -> V {
            tv(self)
        }
    }
    impl IV for u64 {
        fn iv(self) -> V {
            V::N(self)
        }
    }
    impl IV for () {
        fn iv(self) -> V {
            V::U
        }
    }
    impl IV for &'static [u8] {
        fn iv(self) -> V {
            rv(self)
        }
    }
    impl IV for &'static str {
        fn iv(self) -> V {
            rv(self)
        }
    }
    impl<T: IV> IV for Option<T> {
        fn iv(self) -> V {
            V::O(self.map(|x| Box::new(x.iv())))
        }
    }
    impl<T: IV> IV for Vec<T> {
        fn iv(self) -> V {
            V::L(self.into_iter().map(|x| x.iv()).collect())
        }
    }
    macro_rules! tuples {
        ($($($t:ident)*;)*) => { $(
            impl<$($t: IV),*> IV for ($($t,)*) {
                #[allow(non_snake_case)]
                fn iv(self) -> V {
                    let ($($t,)*) = self;
                    V::L(vec![$($t.iv()),*])
                }
            }
        )* };
    }
    tuples! { A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; A B C D E F G H J; A B C D E F G H J K L M; }
    pub fn w<I, P>(p: P) -> combine::parser::combinator::Map<P, fn(P::Output) -> V>
    where
        I: combine::Stream,
        P: Parser<I>,
        P::Output: IV,
    {
        p.map(IV::iv as fn(P::Output) -> V)
    }
    pub fn satv<I: In>(k: u32) -> impl FnMut(I::T) -> bool + Clone + 'static {
        super::satv::<I>(k)
    }
    pub fn satm<I: In>(k: u32) -> impl FnMut(I::T) -> Option<V> + 'static {
        move |c: I::T| {
            ctx::pred_call();
            if class(k, c.u()) {
                Some(V::N(c.u() as u64))
            } else {
                None
            }
        }
    }
    pub fn zpos<I: In>() -> impl Parser<I, Output = V, PartialState = impl Default + 'static> + 'static {
        position().map(|p: I::Position| {
            let s = I::show_pos(&p);
            ctx::log_pos(s.clone());
            V::S(s.into_bytes())
        })
    }
    pub fn find<I>(needle: &'static [u8], k0: u32) -> impl FnMut(I::Range) -> range::TakeRange + 'static
    where
        I: In,
        I::Range: AsRef<[u8]>,
    {
        move |r: I::Range| {
            ctx::tick();
            let h = r.as_ref();
            match h.windows(needle.len().max(1)).position(|w| w == needle) {
                Some(i) => range::TakeRange::Found(i),
                None if k0 == 0 => range::TakeRange::NotFound(0),
                None => range::TakeRange::NotFound(h.len().saturating_sub(needle.len() - 1)),
            }
        }
    }
    pub fn act(k: u32) -> impl FnMut(V) -> V + 'static {
        move |v| {
            ctx::log_action(k, vhash(&v));
            v
        }
    }
    pub fn fm<I: In>(k: u32) -> impl FnMut(V) -> Result<V, I::Error> + 'static {
        move |v| {
            ctx::pred_call();
            if v.pred(k) {
                Ok(v)
            } else {
                Err(fm_err::<I>())
            }
        }
    }
    pub fn at<I: In>(k: u32) -> impl FnMut(V) -> Result<V, StreamErrorFor<I>> + 'static {
        move |v| {
            ctx::pred_call();
            if v.pred(k) {
                Ok(v)
            } else {
                Err(StreamErrorFor::<I>::unexpected_static_message("rejected"))
            }
        }
    }
    combine::parser! {
        type PartialState = combine::parser::combinator::AnyPartialState;
        pub fn pm[I, F, P](f: F)(I) -> V
        where [ I: In, F: FnMut() -> P, P: Parser<I, Output = V>, P::PartialState: 'static ]
        {
            any_partial_state(f())
        }
    }
    pub fn op<I, F, P>(mut f: F) -> impl Parser<I, Output = V, PartialState = combine::parser::combinator::AnyPartialState> + 'static
    where
        I: In,
        F: FnMut() -> P + 'static,
        P: Parser<I, Output = V> + 'static,
        P::PartialState: 'static,
    {
        use combine::parser::combinator::AnyPartialState;
        combine::parser::combinator::opaque::<I, _, V, AnyPartialState>(move |g: &mut dyn FnMut(&mut dyn Parser<I, Output = V, PartialState = AnyPartialState>)| g(&mut any_partial_state(f())))
    }
    /// Its state may be put behind the thread-movable erased states whatever it is made of (nothing leaves its thread).
    pub fn as_send<P>(p: P) -> Keep<P> {
        Keep(p)
    }
}
