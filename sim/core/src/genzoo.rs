//! Writes zoo.rs: grammars as ordinary nested combinator expressions, the way user code has them, without a box around
//! every node. Each comes with its tree, so that the reference model can judge it. (`sim genzoo > src/zoo.rs`)
use crate::ast::{esc, Node, Op};
use crate::gen::{Mode, Profile, G};
use crate::rng::Rng;
use std::collections::BTreeSet;

/// The nested expression for a tree, with the natural output types. Slices of the input become values at once: they must
/// not stay in the partial state when the buffer goes away (which lifetimes see to in user code).
fn expr(n: &Node, text: bool) -> Option<String> {
    use Op::*;
    let e = expr_of(n, text)?;
    Some(match n.op {
        Range | Take | TakeWhile | TakeWhile1 | TakeUntilRange | TakeFn | TakeUntilByte | TakeUntilBytes | LenPrefix | RecogRange | RecogVal | TakeN => format!("w({})", e),
        _ => e,
    })
}
fn expr_of(n: &Node, text: bool) -> Option<String> {
    use Op::*;
    let k0 = n.n.first().copied().unwrap_or(0);
    let k1 = n.n.get(1).copied().unwrap_or(0);
    let k = |i: usize| expr(&n.kids[i], text);
    let w = |i: usize| expr(&n.kids[i], text).map(|e| format!("w({})", e));
    let m = if text { "char" } else { "byte" };
    let bytes = || format!("b\"{}\"", esc(&n.s));
    let lit = || if text { format!("{:?}", std::str::from_utf8(&n.s).unwrap()) } else { format!("&b\"{}\"[..]", esc(&n.s)) };
    let tok = |i: usize| if text { format!("{:?}", std::str::from_utf8(&n.s).unwrap().chars().nth(i).unwrap()) } else { format!("{}u8", n.s[i]) };
    let all = || -> Option<Vec<String>> { n.kids.iter().map(|k| expr(k, text)).collect() };
    let allw = || -> Option<Vec<String>> { n.kids.iter().map(|k| expr(k, text).map(|e| format!("w({})", e))).collect() };
    let small = |name: &str| format!("combine::parser::{}::{}::<I>()", m, name);
    Some(match n.op {
        Any => "any::<I>()".into(),
        Sat => format!("satisfy::<I, _>(satv::<I>({}))", k0),
        SatMap => format!("satisfy_map::<I, _, V>(satm::<I>({}))", k0),
        Tok => format!("token::<I>({})", tok(0)),
        OneOf => format!("one_of::<_, I>(toks::<I>({}))", bytes()),
        NoneOf => format!("none_of::<_, I>(toks::<I>({}))", bytes()),
        Tokens => format!("tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, \"tokens\", toks::<I>({b})).map(|_| V::S({b}.to_vec()))", b = bytes()),
        TokensCmp => format!("tokens_cmp::<_, _, I>(toks::<I>({b}), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(|_| V::S({b}.to_vec()))", b = bytes()),
        Str if text => format!("combine::parser::char::string::<I>({})", lit()),
        Str => format!("combine::parser::byte::bytes::<I>({})", lit()),
        StrCmp if text => format!("combine::parser::char::string_cmp::<_, I>({}, |a: char, b: char| lower(a as u32) == lower(b as u32))", lit()),
        StrCmp => format!("combine::parser::byte::bytes_cmp::<_, I>({}, |a: u8, b: u8| lower(a as u32) == lower(b as u32))", lit()),
        Digit => small("digit"),
        Letter => small("letter"),
        AlphaNum => small("alpha_num"),
        Hex => small("hex_digit"),
        Oct => small("oct_digit"),
        Upper => small("upper"),
        Lower => small("lower"),
        Space => small("space"),
        Spaces => small("spaces"),
        Newline => small("newline"),
        Crlf => small("crlf"),
        Tab => small("tab"),
        Eof => "eof::<I>()".into(),
        Value => format!("value::<I, V>(V::N({}))", k0),
        Produce => format!("produce::<I, _, V>(|| V::N({}))", k0),
        Unexpected => "unexpected::<I, _>(\"unexpected\").map(|_| V::U)".into(),
        Position => "zpos::<I>()".into(),
        Range => format!("range::range::<I>({})", lit()),
        Take => format!("range::take::<I>({})", k0),
        TakeWhile => format!("range::take_while::<I, _>(satv::<I>({}))", k0),
        TakeWhile1 => format!("range::take_while1::<I, _>(satv::<I>({}))", k0),
        TakeUntilRange => format!("range::take_until_range::<I>({})", lit()),
        TakeFn => format!("range::take_fn::<_, _, I>(find::<I>({}, {}))", bytes(), k0),
        TakeUntilByte => match n.s.len() {
            1 => format!("combine::parser::byte::take_until_byte::<I>({})", n.s[0]),
            2 => format!("combine::parser::byte::take_until_byte2::<I>({}, {})", n.s[0], n.s[1]),
            _ => format!("combine::parser::byte::take_until_byte3::<I>({}, {}, {})", n.s[0], n.s[1], n.s[2]),
        },
        TakeUntilBytes => format!("combine::parser::byte::take_until_bytes::<I>({})", bytes()),
        Num => {
            let f = [
                "be_u16", "le_u16", "be_u32", "le_u32", "be_u64", "le_u64", "be_i16", "le_i16", "be_i32", "le_i32", "be_i64", "le_i64", "be_f32", "le_f32", "be_f64", "le_f64",
            ][k0 as usize % 16];
            format!("combine::parser::byte::num::{}::<I>().map(|x| V::S(x.to_be_bytes().to_vec()))", f)
        }
        FromStr => format!("combine::from_str::<I, u64, _>(many1::<{}, _, _>(combine::parser::{}::digit()))", if text { "String" } else { "Vec<u8>" }, m),
        Seq => format!("({},)", all()?.join(", ")),
        And => format!("{}.and({})", k(0)?, k(1)?),
        With => format!("{}.with({})", k(0)?, k(1)?),
        Skip => format!("{}.skip({})", k(0)?, k(1)?),
        Between => format!("between({}, {}, {})", k(0)?, k(1)?, k(2)?),
        StructP => format!("struct_parser! {{ Trip {{ a: {}, _: {}, b: {} }} }}.map(|t| V::L(vec![t.a, t.b]))", w(0)?, k(1)?, w(2)?),
        StructT => format!("({}, {}, {}).map(|(a, _, b)| V::L(vec![a, b]))", w(0)?, k(1)?, w(2)?),
        ParserM => format!("pm::<I, _, _>(|| {})", w(0)?),
        Then => format!("{}.then(|v| if v.iv().pred({}) {{ {}.left() }} else {{ {}.right() }})", k(0)?, k0, w(1)?, w(2)?),
        ThenPartial => format!("then_partial({}, |v: &mut V| if v.pred({}) {{ {}.left() }} else {{ {}.right() }})", w(0)?, k0, w(1)?, w(2)?),
        ThenRef => format!("{}.then_ref(|v: &V| if v.pred({}) {{ {}.left() }} else {{ {}.right() }})", w(0)?, k0, w(1)?, w(2)?),
        Dispatch => format!("{}.then(|v| combine::dispatch!(v.iv().num() % 3; 0 => {}, 1 => {}, _ => {}))", k(0)?, w(1)?, w(2)?, w(3)?),
        LenPrefix => format!("range::length_prefix::<I, _>({}.map(|v| (v.num() % {}) as usize))", w(0)?, k0 + 1),
        TakeN if k0 % 2 == 0 => format!("range::length_prefix::<I, _>({}.map(|v| v.big() as usize))", w(0)?),
        TakeN => format!("{}.then(|v| range::take::<I>(v.big() as usize))", w(0)?),
        CountN => {
            let c = match k0 % 5 {
                0 => "count_min_max::<Vec<_>, I, _>(c, c, k).map(IV::iv)",
                1 => "count::<Vec<_>, I, _>(c, k).map(IV::iv)",
                2 => "count_min_max::<Vec<_>, I, _>(c / 2, c, k).map(IV::iv)",
                3 => "skip_count::<I, _>(c, k).map(IV::iv)",
                _ => "skip_count_min_max::<I, _>(c, c, k).map(IV::iv)",
            };
            format!("{}.then(|v| {{ let (c, k) = (v.iv().big() as usize, {}); {} }})", k(0)?, k(1)?, c)
        }
        Map => format!("{}.map(act({}))", w(0)?, k0),
        MapInput => format!("{}.map_input(|v, _i| act({})(v))", w(0)?, k0),
        FlatMap => format!("{}.flat_map(fm::<I>({}))", w(0)?, k0),
        AndThen => format!("{}.and_then(at::<I>({}))", w(0)?, k0),
        Message => format!("{}.message(\"message\")", k(0)?),
        Expected => format!("{}.expected(\"expected\")", k(0)?),
        Silent => format!("{}.silent()", k(0)?),
        Spanned => k(0)?,
        Or => format!("{}.or({})", w(0)?, w(1)?),
        Choice => format!("choice(({},))", allw()?.join(", ")),
        Opt => format!("optional({})", k(0)?),
        Attempt => format!("attempt({})", k(0)?),
        LookAhead => format!("look_ahead({})", k(0)?),
        NotFollow => format!("not_followed_by({}.map(|_| \"x\"))", w(0)?),
        Recog => format!("recognize::<Vec<I::T>, I, _>({})", k(0)?),
        RecogRange => format!("range::recognize::<I, _>({})", k(0)?),
        RecogVal => format!("range::recognize_with_value::<I, _>({})", k(0)?),
        NoPartial => format!("no_partial({})", k(0)?),
        Lazy => format!("lazy(|| {})", k(0)?),
        Factory => format!("factory(|_: &mut I| {})", k(0)?),
        Left => format!("{}.left::<BoxP<I>>()", w(0)?),
        Right => format!("{}.right::<BoxP<I>>()", w(0)?),
        FnParser => format!("function::parser(|i: &mut I| {}.parse_lazy(i).into_result())", k(0)?),
        AnyState => format!("any_partial_state({})", k(0)?),
        AnySend => format!("any_send_partial_state(as_send({}))", w(0)?),
        AnySendSync => format!("any_send_sync_partial_state(as_send({}))", w(0)?),
        Opaque => format!("op::<I, _, _>(|| {})", w(0)?),
        Count => format!("count::<Vec<_>, I, _>({}, {})", k0, k(0)?),
        SkipCount => format!("skip_count::<I, _>({}, {})", k0, k(0)?),
        CountMM => format!("count_min_max::<Vec<_>, I, _>({}, {}, {})", k0, k0 + k1, k(0)?),
        SkipCountMM => format!("skip_count_min_max::<I, _>({}, {}, {})", k0, k0 + k1, k(0)?),
        CountSink => format!("count_min_max::<Counter, I, _>({}, {}, {}).map(|c| c.0)", k0, k0 + k1, w(0)?),
        Many => format!("many::<Vec<_>, I, _>({})", k(0)?),
        Many1 => format!("many1::<Vec<_>, I, _>({})", k(0)?),
        SkipMany => format!("skip_many::<I, _>({})", k(0)?),
        SkipMany1 => format!("skip_many1::<I, _>({})", k(0)?),
        SepBy => format!("sep_by::<Vec<_>, I, _, _>({}, {})", k(0)?, k(1)?),
        SepBy1 => format!("sep_by1::<Vec<_>, I, _, _>({}, {})", k(0)?, k(1)?),
        SepEndBy => format!("sep_end_by::<Vec<_>, I, _, _>({}, {})", k(0)?, k(1)?),
        SepEndBy1 => format!("sep_end_by1::<Vec<_>, I, _, _>({}, {})", k(0)?, k(1)?),
        ChainL1 => format!("chainl1({}, {}.map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r])))", w(0)?, w(1)?),
        ChainR1 => format!("chainr1({}, {}.map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r])))", w(0)?, w(1)?),
        TakeUntil => format!("take_until::<Vec<I::T>, I, _>({})", k(0)?),
        SkipUntil => format!("skip_until::<I, _>({})", k(0)?),
        RepeatUntil => format!("repeat_until::<Vec<_>, I, _, _>({}, {})", k(0)?, k(1)?),
        RepeatSkipUntil => format!("repeat_skip_until::<I, _, _>({}, {})", k(0)?, k(1)?),
        Escaped => format!("escaped({}, {}, {})", k(0)?, tok(0), k(1)?),
        Iterate if n.kids.len() == 2 => format!(
            "iterate::<Vec<V>, _, _, I, _>(vec!{:?}, |i: &u32, _: &mut I| if *i % 2 == 0 {{ {}.left() }} else {{ {}.right() }})",
            n.n, w(0)?, w(1)?
        ),
        ChoiceArr | ChoiceSlice | Iterate | IterMany | ByMut | Factory2 | Zoo => return None,
    })
}

/// Realistic protocols.
const HAND_BYTES: &[&str] = &[
    // RESP: simple string, integer, bulk string, array of bulk strings
    r##"(Choice (With (Tok "+") (Skip (TakeUntilBytes "\x0d\x0a") (Crlf))) (With (Tok ":") (Skip (FromStr) (Crlf))) (With (Tok "$") (Skip (TakeN 1 (Skip (FromStr) (Crlf))) (Crlf))) (With (Tok "*") (CountN 0 (Skip (FromStr) (Crlf)) (With (Tok "$") (Skip (TakeN 1 (Skip (FromStr) (Crlf))) (Crlf))))))"##,
    // header block
    r##"(And (Seq (TakeWhile1 4) (Skip (Tok " ") (SkipMany (Tok " "))) (TakeUntilBytes "\x0d\x0a") (Crlf)) (Skip (Many (Seq (TakeWhile1 4) (Tok ":") (Skip (RecogRange (SkipMany (NoneOf "\x0d"))) (Crlf)))) (Crlf)))"##,
    // netstring
    r##"(Skip (TakeN 1 (Skip (FromStr) (Tok ":"))) (Tok ","))"##,
    // tagged binary records
    r##"(Dispatch (Any) (Num 2) (Seq (Num 1) (Num 0)) (TakeN 1 (Num 0)))"##,
    // sums of products
    r##"(Skip (ChainL1 (ChainL1 (FromStr) (Attempt (Between (Spaces) (Spaces) (Tok "*")))) (Attempt (Between (Spaces) (Spaces) (OneOf "+-")))) (Tok ";"))"##,
    // length-delimited frame with a header
    r##"(TakeN 1 (Between (Str "Content-Length: ") (Str "\x0d\x0a\x0d\x0a") (FromStr)))"##,
];
const HAND_TEXT: &[&str] = &[
    // comma separated values with quoted fields
    r##"(Skip (SepBy1 (Or (Between (Tok "\"") (Tok "\"") (Many (Or (Attempt (Str "\"\"")) (NoneOf "\"")))) (Recog (SkipMany (NoneOf ",\x0a\"")))) (Tok ",")) (Newline))"##,
    // key = value lines with comments
    r##"(With (SkipMany (Seq (Tok "#") (SkipMany (NoneOf "\x0a")) (Newline))) (Seq (Many1 (Letter)) (Between (SkipMany (Tok " ")) (SkipMany (Tok " ")) (Tok "=")) (TakeWhile 7) (Newline)))"##,
    r##"(Skip (ChainL1 (ChainL1 (FromStr) (Attempt (Between (Spaces) (Spaces) (Tok "*")))) (Attempt (Between (Spaces) (Spaces) (OneOf "+-")))) (Tok ";"))"##,
    // quoted string with escapes
    r##"(Between (Tok "\"") (Tok "\"") (RecogRange (Escaped "\\" (TakeWhile1 4) (OneOf "nr\"\\"))))"##,
];

fn pairs(n: &Node, out: &mut BTreeSet<(Op, usize, Op)>) {
    for (i, k) in n.kids.iter().enumerate() {
        out.insert((n.op, i.min(2), k.op));
        pairs(k, out);
    }
}
fn draw(r: &mut Rng, text: bool) -> Node {
    let mut p = Profile::base();
    p.depth = 2 + r.below(3) as u32;
    p.restart = r.chance(1, 2);
    p.position = r.chance(1, 4);
    p.zoo = false;
    G { r, m: if text { Mode::Text } else { Mode::Bytes }, p }.message()
}
fn pick(seed: u64, text: bool, count: usize, hand: &[&str]) -> Vec<Node> {
    let mut v: Vec<Node> = hand.iter().map(|s| Node::parse(s).expect(s)).collect();
    let mut have = BTreeSet::new();
    v.iter().for_each(|n| pairs(n, &mut have));
    let mut r = Rng::new(seed);
    let cand: Vec<Node> = (0..30_000).map(|_| draw(&mut r, text)).filter(|n| (5..=13).contains(&n.size()) && expr(n, text).is_some() && crate::mem::valid(n)).collect();
    while v.len() < count {
        // the most new parent/child pairs per node
        let best = cand
            .iter()
            .max_by_key(|n| {
                let mut p = BTreeSet::new();
                pairs(n, &mut p);
                (p.difference(&have).count() * 1000 / n.size(), n.size())
            })
            .unwrap()
            .clone();
        pairs(&best, &mut have);
        v.push(best);
    }
    eprintln!("{} grammars, {} parent/child pairs", v.len(), have.len());
    v
}
/// `sim genzoo text > core/src/zootext.rs; sim genzoo > zoo/src/lib.rs`
pub fn main(trees: bool) {
    let b = pick(11, false, 36, HAND_BYTES);
    let t = pick(12, true, 26, HAND_TEXT);
    if trees {
        println!("// Written by `sim genzoo text`.");
        for (name, v) in [("BYTES", &b), ("TEXT", &t)] {
            println!("pub const {}: [&str; {}] = [", name, v.len());
            for n in v.iter() {
                println!("    {:?},", n.text());
            }
            println!("];");
        }
        return;
    }
    println!("// Written by `sim genzoo`.\n#![allow(clippy::all)]\nuse simcore::mk::zoo_prelude::*;\n");
    for (f, bound, text, v) in [("bytes", "ZB", false, &b), ("text", "ZT", true, &t)] {
        println!("pub fn {}<I: {}>(k: usize) -> BoxP<I> {{\n    match k {{", f, bound);
        for (i, _) in v.iter().enumerate() {
            println!("        {} => {}{}(),", if i + 1 < v.len() { i.to_string() } else { "_".into() }, f, i);
        }
        println!("    }}\n}}");
        for (i, n) in v.iter().enumerate() {
            println!("fn {}{}<I: {}>() -> BoxP<I> {{\n    bx(w({}))\n}}", f, i, bound, expr(n, text).expect("hand-written grammar without an expression"));
        }
    }
}
