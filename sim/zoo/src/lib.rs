// Written by `sim genzoo`.
#![allow(clippy::all)]
use simcore::mk::zoo_prelude::*;

pub fn bytes<I: ZB>(k: usize) -> BoxP<I> {
    match k {
        0 => bytes0(),
        1 => bytes1(),
        2 => bytes2(),
        3 => bytes3(),
        4 => bytes4(),
        5 => bytes5(),
        6 => bytes6(),
        7 => bytes7(),
        8 => bytes8(),
        9 => bytes9(),
        10 => bytes10(),
        11 => bytes11(),
        12 => bytes12(),
        13 => bytes13(),
        14 => bytes14(),
        15 => bytes15(),
        16 => bytes16(),
        17 => bytes17(),
        18 => bytes18(),
        19 => bytes19(),
        20 => bytes20(),
        21 => bytes21(),
        22 => bytes22(),
        23 => bytes23(),
        24 => bytes24(),
        25 => bytes25(),
        26 => bytes26(),
        27 => bytes27(),
        28 => bytes28(),
        29 => bytes29(),
        30 => bytes30(),
        31 => bytes31(),
        32 => bytes32(),
        33 => bytes33(),
        34 => bytes34(),
        _ => bytes35(),
    }
}
fn bytes0<I: ZB>() -> BoxP<I> {
    bx(w(choice((w(token::<I>(43u8).with(w(combine::parser::byte::take_until_bytes::<I>(b"\x0d\x0a")).skip(combine::parser::byte::crlf::<I>()))), w(token::<I>(58u8).with(combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())).skip(combine::parser::byte::crlf::<I>()))), w(token::<I>(36u8).with(w(w(combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())).skip(combine::parser::byte::crlf::<I>())).then(|v| range::take::<I>(v.big() as usize))).skip(combine::parser::byte::crlf::<I>()))), w(token::<I>(42u8).with(combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())).skip(combine::parser::byte::crlf::<I>()).then(|v| { let (c, k) = (v.iv().big() as usize, token::<I>(36u8).with(w(w(combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())).skip(combine::parser::byte::crlf::<I>())).then(|v| range::take::<I>(v.big() as usize))).skip(combine::parser::byte::crlf::<I>()))); count_min_max::<Vec<_>, I, _>(c, c, k).map(IV::iv) }))),))))
}
fn bytes1<I: ZB>() -> BoxP<I> {
    bx(w((w(range::take_while1::<I, _>(satv::<I>(4))), token::<I>(32u8).skip(skip_many::<I, _>(token::<I>(32u8))), w(combine::parser::byte::take_until_bytes::<I>(b"\x0d\x0a")), combine::parser::byte::crlf::<I>(),).and(many::<Vec<_>, I, _>((w(range::take_while1::<I, _>(satv::<I>(4))), token::<I>(58u8), w(range::recognize::<I, _>(skip_many::<I, _>(none_of::<_, I>(toks::<I>(b"\x0d"))))).skip(combine::parser::byte::crlf::<I>()),)).skip(combine::parser::byte::crlf::<I>()))))
}
fn bytes2<I: ZB>() -> BoxP<I> {
    bx(w(w(w(combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())).skip(token::<I>(58u8))).then(|v| range::take::<I>(v.big() as usize))).skip(token::<I>(44u8))))
}
fn bytes3<I: ZB>() -> BoxP<I> {
    bx(w(any::<I>().then(|v| combine::dispatch!(v.iv().num() % 3; 0 => w(combine::parser::byte::num::be_u32::<I>().map(|x| V::S(x.to_be_bytes().to_vec()))), 1 => w((combine::parser::byte::num::le_u16::<I>().map(|x| V::S(x.to_be_bytes().to_vec())), combine::parser::byte::num::be_u16::<I>().map(|x| V::S(x.to_be_bytes().to_vec())),)), _ => w(w(w(combine::parser::byte::num::be_u16::<I>().map(|x| V::S(x.to_be_bytes().to_vec()))).then(|v| range::take::<I>(v.big() as usize))))))))
}
fn bytes4<I: ZB>() -> BoxP<I> {
    bx(w(chainl1(w(chainl1(w(combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit()))), w(attempt(between(combine::parser::byte::spaces::<I>(), combine::parser::byte::spaces::<I>(), token::<I>(42u8)))).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r])))), w(attempt(between(combine::parser::byte::spaces::<I>(), combine::parser::byte::spaces::<I>(), one_of::<_, I>(toks::<I>(b"+-"))))).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r]))).skip(token::<I>(59u8))))
}
fn bytes5<I: ZB>() -> BoxP<I> {
    bx(w(w(w(between(combine::parser::byte::bytes::<I>(&b"Content-Length: "[..]), combine::parser::byte::bytes::<I>(&b"\x0d\x0a\x0d\x0a"[..]), combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())))).then(|v| range::take::<I>(v.big() as usize)))))
}
fn bytes6<I: ZB>() -> BoxP<I> {
    bx(w((w(satisfy::<I, _>(satv::<I>(5)).skip(look_ahead(token::<I>(49u8)))).or(w(sep_by1::<Vec<_>, I, _, _>(w(range::range::<I>(&b";;;"[..])), w(range::range::<I>(&b"aaa"[..]))))), w(w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b";;")).map(|_| V::S(b";;".to_vec()))).right::<BoxP<I>>()).map(act(1)), combine::parser::byte::newline::<I>(),)))
}
fn bytes7<I: ZB>() -> BoxP<I> {
    bx(w((optional(then_partial(w(w(combine::parser::byte::take_until_byte2::<I>(98, 97)).and(any::<I>())), |v: &mut V| if v.pred(3) { w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b",ba")).map(|_| V::S(b",ba".to_vec()))).left() } else { w(w(range::take::<I>(1))).right() })), attempt(then_partial(w(w(range::take_while1::<I, _>(satv::<I>(0)))), |v: &mut V| if v.pred(1) { w(satisfy_map::<I, _, V>(satm::<I>(6))).left() } else { w(combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit()))).right() })),)))
}
fn bytes8<I: ZB>() -> BoxP<I> {
    bx(w(optional(sep_end_by1::<Vec<_>, I, _, _>(op::<I, _, _>(|| w(w(w(range::take_fn::<_, _, I>(find::<I>(b"b", 0))).skip(w(range::range::<I>(&b"b"[..])))).and_then(at::<I>(3)))), w(combine::parser::byte::crlf::<I>()).flat_map(fm::<I>(1)))).skip((w(range::take_until_range::<I>(&b"00"[..])), w(range::range::<I>(&b"00"[..])),))))
}
fn bytes9<I: ZB>() -> BoxP<I> {
    bx(w(then_partial(w(any_partial_state(w(combine::parser::byte::num::le_u16::<I>().map(|x| V::S(x.to_be_bytes().to_vec()))).flat_map(fm::<I>(3)))), |v: &mut V| if v.pred(3) { w(w(optional(pm::<I, _, _>(|| w(one_of::<_, I>(toks::<I>(b"x")))))).right::<BoxP<I>>()).left() } else { w(op::<I, _, _>(|| w(w(zpos::<I>()).or(w(attempt(combine::parser::byte::crlf::<I>())))))).right() })))
}
fn bytes10<I: ZB>() -> BoxP<I> {
    bx(w((skip_count_min_max::<I, _>(0, 2, any_partial_state(combine::parser::byte::num::le_u16::<I>().map(|x| V::S(x.to_be_bytes().to_vec())))), repeat_skip_until::<I, _, _>(not_followed_by(w(w(range::range::<I>(&b"bb"[..]))).map(|_| "x")).with(token::<I>(59u8)), attempt(count_min_max::<Vec<_>, I, _>(2, 2, none_of::<_, I>(toks::<I>(b"ax"))))), token::<I>(59u8),)))
}
fn bytes11<I: ZB>() -> BoxP<I> {
    bx(w(w(zpos::<I>()).right::<BoxP<I>>().then(|v| combine::dispatch!(v.iv().num() % 3; 0 => w(zpos::<I>().and(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"0,")).map(|_| V::S(b"0,".to_vec())))), 1 => w(any_send_partial_state(as_send(w(w(range::take::<I>(3)))))), _ => w(eof::<I>().with(combine::parser::byte::bytes::<I>(&b"\x0d "[..]))))).skip(combine::parser::byte::newline::<I>())))
}
fn bytes12<I: ZB>() -> BoxP<I> {
    bx(w(many::<Vec<_>, I, _>(choice((w(attempt(combine::parser::byte::bytes::<I>(&b"b"[..]))), w((combine::parser::byte::letter::<I>(), combine::parser::byte::newline::<I>(),)), w(w(w(range::range::<I>(&b" ,,b"[..]))).then_ref(|v: &V| if v.pred(3) { w(satisfy::<I, _>(satv::<I>(2))).left() } else { w(combine::parser::byte::spaces::<I>()).right() })),))).and(combine::parser::byte::newline::<I>())))
}
fn bytes13<I: ZB>() -> BoxP<I> {
    bx(w((any_send_sync_partial_state(as_send(w(chainl1(w(between(value::<I, V>(V::N(7)), pm::<I, _, _>(|| w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"xxaa")).map(|_| V::S(b"xxaa".to_vec())))), optional(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"00;")).map(|_| V::S(b"00;".to_vec()))))), w(w(range::range::<I>(&b";"[..])).silent()).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r])))))), any::<I>(), w(range::take::<I>(4)),)))
}
fn bytes14<I: ZB>() -> BoxP<I> {
    bx(w(w(then_partial(w(lazy(|| combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())))), |v: &mut V| if v.pred(3) { w(then_partial(w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"0,")).map(|_| V::S(b"0,".to_vec()))), |v: &mut V| if v.pred(3) { w(combine::parser::byte::bytes::<I>(&b";\x0d;"[..])).left() } else { w(w(range::take_while1::<I, _>(satv::<I>(7)))).right() })).left() } else { w(w(range::recognize::<I, _>(escaped(satisfy::<I, _>(satv::<I>(4)), 92u8, no_partial(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"x0")).map(|_| V::S(b"x0".to_vec()))))))).right() })).map(act(1))))
}
fn bytes15<I: ZB>() -> BoxP<I> {
    bx(w(iterate::<Vec<V>, _, _, I, _>(vec![0], |i: &u32, _: &mut I| if *i % 2 == 0 { w(pm::<I, _, _>(|| w(combine::parser::byte::num::be_u32::<I>().map(|x| V::S(x.to_be_bytes().to_vec())).then(|v| { let (c, k) = (v.iv().big() as usize, one_of::<_, I>(toks::<I>(b"x"))); count_min_max::<Vec<_>, I, _>(c, c, k).map(IV::iv) })))).left() } else { w(attempt(no_partial(w(range::take_while1::<I, _>(satv::<I>(0))))).and(function::parser(|i: &mut I| zpos::<I>().parse_lazy(i).into_result()))).right() }).and(token::<I>(59u8))))
}
fn bytes16<I: ZB>() -> BoxP<I> {
    bx(w((skip_count::<I, _>(0, combine::parser::byte::bytes::<I>(&b",0"[..])).with(struct_parser! { Trip { a: w(w(range::take::<I>(2))), _: combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())), b: w(w(range::range::<I>(&b"\x0d\x0da"[..]))) } }.map(|t| V::L(vec![t.a, t.b]))), pm::<I, _, _>(|| w(w(satisfy::<I, _>(satv::<I>(3))).or(w(unexpected::<I, _>("unexpected").map(|_| V::U))))), combine::parser::byte::num::be_f32::<I>().map(|x| V::S(x.to_be_bytes().to_vec())),)))
}
fn bytes17<I: ZB>() -> BoxP<I> {
    bx(w(w(w(attempt(satisfy::<I, _>(satv::<I>(3)))).then_ref(|v: &V| if v.pred(3) { w(w(w(range::take_while1::<I, _>(satv::<I>(4)))).then_ref(|v: &V| if v.pred(0) { w(combine::parser::byte::bytes::<I>(&b"a"[..])).left() } else { w(w(range::take::<I>(4))).right() })).left() } else { w(choice((w(token::<I>(44u8)), w(combine::parser::byte::num::le_u16::<I>().map(|x| V::S(x.to_be_bytes().to_vec()))),))).right() })).map(act(1)).and(combine::parser::byte::num::be_i32::<I>().map(|x| V::S(x.to_be_bytes().to_vec())))))
}
fn bytes18<I: ZB>() -> BoxP<I> {
    bx(w(between(combine::parser::byte::num::le_u32::<I>().map(|x| V::S(x.to_be_bytes().to_vec())), w(satisfy_map::<I, _, V>(satm::<I>(0)).then(|v| combine::dispatch!(v.iv().num() % 3; 0 => w(combine::parser::byte::digit::<I>()), 1 => w(w(range::range::<I>(&b"0 b0"[..]))), _ => w(w(range::take_while1::<I, _>(satv::<I>(7))))))).and_then(at::<I>(1)), w(then_partial(w(combine::parser::byte::lower::<I>()), |v: &mut V| if v.pred(2) { w(produce::<I, _, V>(|| V::N(8))).left() } else { w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"0aa")).map(|_| V::S(b"0aa".to_vec()))).right() })).map_input(|v, _i| act(1)(v)))))
}
fn bytes19<I: ZB>() -> BoxP<I> {
    bx(w(w(range::recognize::<I, _>(between(count_min_max::<Vec<_>, I, _>(1, 1, w(w(range::take_while1::<I, _>(satv::<I>(3)))).and_then(at::<I>(3))), optional(attempt(combine::parser::byte::num::le_i64::<I>().map(|x| V::S(x.to_be_bytes().to_vec())))), (w(range::range::<I>(&b"Aaa"[..])), w(range::take::<I>(2)), one_of::<_, I>(toks::<I>(b",,")),).message("message"))))))
}
fn bytes20<I: ZB>() -> BoxP<I> {
    bx(w(w(choice((w((tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"xxxx")).map(|_| V::S(b"xxxx".to_vec())), satisfy::<I, _>(satv::<I>(4)),)), w(sep_end_by1::<Vec<_>, I, _, _>(w(range::range::<I>(&b"b,ba"[..])), tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"aa")).map(|_| V::S(b"aa".to_vec())))), w(w(combine::parser::byte::crlf::<I>()).map_input(|v, _i| act(2)(v))), w(iterate::<Vec<V>, _, _, I, _>(vec![1, 1, 1], |i: &u32, _: &mut I| if *i % 2 == 0 { w(zpos::<I>()).left() } else { w(satisfy::<I, _>(satv::<I>(3))).right() })),))).map(act(1))))
}
fn bytes21<I: ZB>() -> BoxP<I> {
    bx(w(w(between(combine::parser::byte::bytes_cmp::<_, I>(&b";,a"[..], |a: u8, b: u8| lower(a as u32) == lower(b as u32)), combine::parser::byte::hex_digit::<I>(), w(range::range::<I>(&b"ba\x0d"[..]))).then(|v| combine::dispatch!(v.iv().num() % 3; 0 => w(w(combine::parser::byte::upper::<I>()).or(w(w(range::take::<I>(2))))), 1 => w(combine::parser::byte::bytes::<I>(&b"aaa"[..])), _ => w(op::<I, _, _>(|| w(token::<I>(65u8))))))).map(act(1)).silent()))
}
fn bytes22<I: ZB>() -> BoxP<I> {
    bx(w((w(any::<I>().expected("expected")).map(act(1)), struct_parser! { Trip { a: w(any_send_sync_partial_state(as_send(w(zpos::<I>())))), _: w(combine::parser::byte::num::le_i16::<I>().map(|x| V::S(x.to_be_bytes().to_vec()))).map(act(2)), b: w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"0,,x")).map(|_| V::S(b"0,,x".to_vec())).skip(w(range::take_while1::<I, _>(satv::<I>(7))))) } }.map(|t| V::L(vec![t.a, t.b])), combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())),)))
}
fn bytes23<I: ZB>() -> BoxP<I> {
    bx(w((sep_by1::<Vec<_>, I, _, _>((w(range::take_while::<I, _>(satv::<I>(5))), w(range::recognize_with_value::<I, _>(token::<I>(48u8))), eof::<I>(), combine::from_str::<I, u64, _>(many1::<Vec<u8>, _, _>(combine::parser::byte::digit())).message("message"),), chainl1(w(combine::parser::byte::num::be_f64::<I>().map(|x| V::S(x.to_be_bytes().to_vec()))), w(combine::parser::byte::lower::<I>()).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r])))), one_of::<_, I>(toks::<I>(b"a")),)))
}
fn bytes24<I: ZB>() -> BoxP<I> {
    bx(w(w(range::recognize_with_value::<I, _>((w(tokens_cmp::<_, _, I>(toks::<I>(b"x0"), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(|_| V::S(b"x0".to_vec()))).flat_map(fm::<I>(3)), w(w(range::range::<I>(&b"\x0a\x0a\x0a\x0a"[..]))).or(w(combine::parser::byte::bytes::<I>(&b"x0x0"[..]))), w(token::<I>(49u8)).or(w(token::<I>(98u8))), tokens_cmp::<_, _, I>(toks::<I>(b"xa"), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(|_| V::S(b"xa".to_vec())),))).skip(satisfy_map::<I, _, V>(satm::<I>(1)))))
}
fn bytes25<I: ZB>() -> BoxP<I> {
    bx(w((w(range::recognize_with_value::<I, _>(chainl1(w(attempt(struct_parser! { Trip { a: w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"1")).map(|_| V::S(b"1".to_vec()))), _: one_of::<_, I>(toks::<I>(b"b0")), b: w(any::<I>()) } }.map(|t| V::L(vec![t.a, t.b])))), w(struct_parser! { Trip { a: w(w(range::range::<I>(&b";a"[..]))), _: token::<I>(98u8), b: w(combine::parser::byte::bytes_cmp::<_, I>(&b"bb"[..], |a: u8, b: u8| lower(a as u32) == lower(b as u32))) } }.map(|t| V::L(vec![t.a, t.b]))).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r]))))), tokens_cmp::<_, _, I>(toks::<I>(b";0"), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(|_| V::S(b";0".to_vec())),)))
}
fn bytes26<I: ZB>() -> BoxP<I> {
    bx(w(between(iterate::<Vec<V>, _, _, I, _>(vec![], |i: &u32, _: &mut I| if *i % 2 == 0 { w(recognize::<Vec<I::T>, I, _>(satisfy::<I, _>(satv::<I>(5)))).left() } else { w(count_min_max::<Vec<_>, I, _>(2, 2, w(range::range::<I>(&b"101x"[..])))).right() }), w(then_partial(w(combine::parser::byte::oct_digit::<I>()), |v: &mut V| if v.pred(3) { w(w(range::take_while::<I, _>(satv::<I>(0)))).left() } else { w(one_of::<_, I>(toks::<I>(b"00"))).right() })).flat_map(fm::<I>(0)), any_partial_state(token::<I>(97u8)))))
}
fn bytes27<I: ZB>() -> BoxP<I> {
    bx(w(choice((w(w(range::take::<I>(3))), w(w(count_min_max::<Counter, I, _>(2, 2, w(w(token::<I>(97u8)).then_ref(|v: &V| if v.pred(1) { w(combine::parser::byte::bytes_cmp::<_, I>(&b"b"[..], |a: u8, b: u8| lower(a as u32) == lower(b as u32))).left() } else { w(w(range::take_while1::<I, _>(satv::<I>(5)))).right() }))).map(|c| c.0)).map(act(1))), w(sep_end_by1::<Vec<_>, I, _, _>(tokens_cmp::<_, _, I>(toks::<I>(b"aa"), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(|_| V::S(b"aa".to_vec())), combine::parser::byte::num::le_u64::<I>().map(|x| V::S(x.to_be_bytes().to_vec())).message("message"))),))))
}
fn bytes28<I: ZB>() -> BoxP<I> {
    bx(w(then_partial(w(combine::parser::byte::crlf::<I>()), |v: &mut V| if v.pred(3) { w((satisfy_map::<I, _, V>(satm::<I>(4)), any_send_partial_state(as_send(w(any::<I>()))), take_until::<Vec<I::T>, I, _>(satisfy_map::<I, _, V>(satm::<I>(5))), optional(w(range::take_while1::<I, _>(satv::<I>(6)))),)).left() } else { w(look_ahead(w(range::take_while1::<I, _>(satv::<I>(7))))).right() })))
}
fn bytes29<I: ZB>() -> BoxP<I> {
    bx(w(w(iterate::<Vec<V>, _, _, I, _>(vec![1, 0, 1], |i: &u32, _: &mut I| if *i % 2 == 0 { w(combine::parser::byte::digit::<I>().skip(w(range::take_until_range::<I>(&b"x00"[..])))).left() } else { w(w(range::recognize_with_value::<I, _>(satisfy::<I, _>(satv::<I>(4))))).right() })).or(w(w(w(range::length_prefix::<I, _>(w(combine::parser::byte::digit::<I>()).map(|v| (v.num() % 2) as usize)))).or(w(count_min_max::<Vec<_>, I, _>(3, 3, w(range::take_while1::<I, _>(satv::<I>(7))))))))))
}
fn bytes30<I: ZB>() -> BoxP<I> {
    bx(w((op::<I, _, _>(|| w(w(w(range::take_while1::<I, _>(satv::<I>(7)))).flat_map(fm::<I>(2)))), sep_by::<Vec<_>, I, _, _>(eof::<I>().then(|v| if v.iv().pred(2) { w(token::<I>(98u8)).left() } else { w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"bb")).map(|_| V::S(b"bb".to_vec()))).right() }), any_send_sync_partial_state(as_send(w(token::<I>(98u8))))), none_of::<_, I>(toks::<I>(b",")),)))
}
fn bytes31<I: ZB>() -> BoxP<I> {
    bx(w(factory(|_: &mut I| between(w(none_of::<_, I>(toks::<I>(b"b"))).and_then(at::<I>(2)), sep_by1::<Vec<_>, I, _, _>(combine::parser::byte::newline::<I>(), combine::parser::byte::tab::<I>()), sep_by::<Vec<_>, I, _, _>(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"x0xx")).map(|_| V::S(b"x0xx".to_vec())), tokens_cmp::<_, _, I>(toks::<I>(b"aa"), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(|_| V::S(b"aa".to_vec()))))).and(combine::parser::byte::crlf::<I>())))
}
fn bytes32<I: ZB>() -> BoxP<I> {
    bx(w(struct_parser! { Trip { a: w(none_of::<_, I>(toks::<I>(b"b")).skip(none_of::<_, I>(toks::<I>(b"bx\x0d")))), _: attempt(token::<I>(59u8)), b: w(w(range::recognize_with_value::<I, _>(combine::parser::byte::alpha_num::<I>()))) } }.map(|t| V::L(vec![t.a, t.b])).and(w(range::recognize::<I, _>(count::<Vec<_>, I, _>(0, satisfy::<I, _>(satv::<I>(3))))))))
}
fn bytes33<I: ZB>() -> BoxP<I> {
    bx(w(any_partial_state(w(range::range::<I>(&b"a0"[..]))).then(|v| combine::dispatch!(v.iv().num() % 3; 0 => w(w(combine::parser::byte::num::be_u16::<I>().map(|x| V::S(x.to_be_bytes().to_vec()))).and_then(at::<I>(1))), 1 => w(repeat_until::<Vec<_>, I, _, _>(combine::parser::byte::bytes::<I>(&b"AA"[..]), satisfy_map::<I, _, V>(satm::<I>(7)))), _ => w(w(range::take_while1::<I, _>(satv::<I>(5))).then(|v| if v.iv().pred(3) { w(satisfy::<I, _>(satv::<I>(1))).left() } else { w(w(range::take::<I>(2))).right() }))))))
}
fn bytes34<I: ZB>() -> BoxP<I> {
    bx(w(w(range::recognize_with_value::<I, _>(then_partial(w(combine::parser::byte::digit::<I>()), |v: &mut V| if v.pred(0) { w(w(one_of::<_, I>(toks::<I>(b"00a"))).flat_map(fm::<I>(1))).left() } else { w((none_of::<_, I>(toks::<I>(b",a")), w(range::length_prefix::<I, _>(w(any::<I>()).map(|v| (v.num() % 2) as usize))), w(range::range::<I>(&b" "[..])), combine::parser::byte::lower::<I>(),)).right() })))))
}
fn bytes35<I: ZB>() -> BoxP<I> {
    bx(w(sep_end_by1::<Vec<_>, I, _, _>(w(range::take::<I>(3)), count_min_max::<Vec<_>, I, _>(2, 2, combine::parser::byte::bytes::<I>(&b"b"[..]))).skip(sep_end_by::<Vec<_>, I, _, _>(w(range::range::<I>(&b" a"[..])), any_send_sync_partial_state(as_send(w(w(range::take::<I>(4))))))).skip(combine::parser::byte::num::le_i16::<I>().map(|x| V::S(x.to_be_bytes().to_vec())))))
}
pub fn text<I: ZT>(k: usize) -> BoxP<I> {
    match k {
        0 => text0(),
        1 => text1(),
        2 => text2(),
        3 => text3(),
        4 => text4(),
        5 => text5(),
        6 => text6(),
        7 => text7(),
        8 => text8(),
        9 => text9(),
        10 => text10(),
        11 => text11(),
        12 => text12(),
        13 => text13(),
        14 => text14(),
        15 => text15(),
        16 => text16(),
        17 => text17(),
        18 => text18(),
        19 => text19(),
        20 => text20(),
        21 => text21(),
        22 => text22(),
        23 => text23(),
        24 => text24(),
        _ => text25(),
    }
}
fn text0<I: ZT>() -> BoxP<I> {
    bx(w(sep_by1::<Vec<_>, I, _, _>(w(between(token::<I>('"'), token::<I>('"'), many::<Vec<_>, I, _>(w(attempt(combine::parser::char::string::<I>("\"\""))).or(w(none_of::<_, I>(toks::<I>(b"\""))))))).or(w(recognize::<Vec<I::T>, I, _>(skip_many::<I, _>(none_of::<_, I>(toks::<I>(b",\x0a\"")))))), token::<I>(',')).skip(combine::parser::char::newline::<I>())))
}
fn text1<I: ZT>() -> BoxP<I> {
    bx(w(skip_many::<I, _>((token::<I>('#'), skip_many::<I, _>(none_of::<_, I>(toks::<I>(b"\x0a"))), combine::parser::char::newline::<I>(),)).with((many1::<Vec<_>, I, _>(combine::parser::char::letter::<I>()), between(skip_many::<I, _>(token::<I>(' ')), skip_many::<I, _>(token::<I>(' ')), token::<I>('=')), w(range::take_while::<I, _>(satv::<I>(7))), combine::parser::char::newline::<I>(),))))
}
fn text2<I: ZT>() -> BoxP<I> {
    bx(w(chainl1(w(chainl1(w(combine::from_str::<I, u64, _>(many1::<String, _, _>(combine::parser::char::digit()))), w(attempt(between(combine::parser::char::spaces::<I>(), combine::parser::char::spaces::<I>(), token::<I>('*')))).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r])))), w(attempt(between(combine::parser::char::spaces::<I>(), combine::parser::char::spaces::<I>(), one_of::<_, I>(toks::<I>(b"+-"))))).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r]))).skip(token::<I>(';'))))
}
fn text3<I: ZT>() -> BoxP<I> {
    bx(w(between(token::<I>('"'), token::<I>('"'), w(range::recognize::<I, _>(escaped(w(range::take_while1::<I, _>(satv::<I>(4))), '\\', one_of::<_, I>(toks::<I>(b"nr\"\\"))))))))
}
fn text4<I: ZT>() -> BoxP<I> {
    bx(w(sep_end_by::<Vec<_>, I, _, _>(w(combine::parser::byte::take_until_byte2::<I>(44, 59)).and(any::<I>()).skip((w(range::take_until_range::<I>(";;")), w(range::range::<I>(";;")),)), w(range::take_fn::<_, _, I>(find::<I>(b"bb", 1))).skip(w(range::range::<I>("bb")))).and(combine::parser::char::crlf::<I>())))
}
fn text5<I: ZT>() -> BoxP<I> {
    bx(w((optional(recognize::<Vec<I::T>, I, _>(token::<I>('é'))), w(recognize::<Vec<I::T>, I, _>(w(range::range::<I>("0b")))).or(w(sep_by1::<Vec<_>, I, _, _>(w(range::range::<I>("é11")), w(combine::parser::byte::take_until_bytes::<I>(b",10a")).skip(combine::parser::char::string::<I>(",10a"))))), token::<I>(';'),)))
}
fn text6<I: ZT>() -> BoxP<I> {
    bx(w(count::<Vec<_>, I, _>(1, w(range::take_while1::<I, _>(satv::<I>(0)))).then(|v| combine::dispatch!(v.iv().num() % 3; 0 => w(combine::parser::char::string_cmp::<_, I>("0x", |a: char, b: char| lower(a as u32) == lower(b as u32))), 1 => w((combine::parser::char::string_cmp::<_, I>("bb;", |a: char, b: char| lower(a as u32) == lower(b as u32)), combine::parser::char::string::<I>(",,"), w(range::take::<I>(4)), combine::parser::char::string_cmp::<_, I>("a;", |a: char, b: char| lower(a as u32) == lower(b as u32)), w(range::take_while1::<I, _>(satv::<I>(7))),)), _ => w(token::<I>('x')))).and(combine::parser::char::newline::<I>())))
}
fn text7<I: ZT>() -> BoxP<I> {
    bx(w(between(sep_end_by1::<Vec<_>, I, _, _>(w(range::range::<I>(",,")), w(range::take::<I>(2))), tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"x")).map(|_| V::S(b"x".to_vec())).then(|v| combine::dispatch!(v.iv().num() % 3; 0 => w(w(range::take_while1::<I, _>(satv::<I>(6)))), 1 => w(w(range::range::<I>("𝄞xaé"))), _ => w(satisfy_map::<I, _, V>(satm::<I>(6))))), attempt(satisfy::<I, _>(satv::<I>(7)))).and(token::<I>(';'))))
}
fn text8<I: ZT>() -> BoxP<I> {
    bx(w((count_min_max::<Counter, I, _>(2, 3, w((w(range::range::<I>("aab")), satisfy::<I, _>(satv::<I>(3)), tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"x0\xf0\x9d\x84\x9e0")).map(|_| V::S(b"x0\xf0\x9d\x84\x9e0".to_vec())), combine::parser::char::letter::<I>(),))).map(|c| c.0).expected("expected").skip(look_ahead(w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b";a")).map(|_| V::S(b";a".to_vec()))).map(act(1)))), combine::parser::char::newline::<I>(),)))
}
fn text9<I: ZT>() -> BoxP<I> {
    bx(w(w(w(range::take_while1::<I, _>(satv::<I>(7))).message("message").then(|v| if v.iv().pred(3) { w(w(combine::parser::char::lower::<I>()).or(w(combine::parser::char::digit::<I>()))).left() } else { w(struct_parser! { Trip { a: w(unexpected::<I, _>("unexpected").map(|_| V::U)), _: combine::parser::char::oct_digit::<I>(), b: w(combine::parser::char::crlf::<I>()) } }.map(|t| V::L(vec![t.a, t.b]))).right() })).map(act(1)).skip(satisfy::<I, _>(satv::<I>(7)))))
}
fn text10<I: ZT>() -> BoxP<I> {
    bx(w(w(w(w(range::take_while1::<I, _>(satv::<I>(0)))).left::<BoxP<I>>()).and_then(at::<I>(0)).with(sep_by1::<Vec<_>, I, _, _>(w(range::take::<I>(4)).then(|v| if v.iv().pred(3) { w(w(range::take_fn::<_, _, I>(find::<I>(b"x\xf0\x9d\x84\x9e", 1)))).left() } else { w(combine::parser::char::newline::<I>()).right() }), attempt(satisfy_map::<I, _, V>(satm::<I>(0))))).and(w(range::take::<I>(3)))))
}
fn text11<I: ZT>() -> BoxP<I> {
    bx(w(between(struct_parser! { Trip { a: w(w(range::range::<I>("x𝄞x0"))), _: tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"b")).map(|_| V::S(b"b".to_vec())), b: w(w(range::take_while1::<I, _>(satv::<I>(2)))) } }.map(|t| V::L(vec![t.a, t.b])), choice((w(combine::parser::char::hex_digit::<I>()), w(combine::parser::char::string::<I>("ab𝄞")), w(token::<I>('x')), w(any::<I>()), w(w(range::take_while1::<I, _>(satv::<I>(2)))),)), w(zpos::<I>()).left::<BoxP<I>>())))
}
fn text12<I: ZT>() -> BoxP<I> {
    bx(w(between(w(w(w(range::take_while1::<I, _>(satv::<I>(0)))).and_then(at::<I>(3))).or(w(w(range::recognize_with_value::<I, _>(none_of::<_, I>(toks::<I>(b"xx;")))))), optional(attempt(no_partial(tokens_cmp::<_, _, I>(toks::<I>(b"x"), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(|_| V::S(b"x".to_vec()))))), w(w(range::recognize::<I, _>(combine::parser::char::string_cmp::<_, I>("xxé", |a: char, b: char| lower(a as u32) == lower(b as u32))))).map(act(1)))))
}
fn text13<I: ZT>() -> BoxP<I> {
    bx(w((sep_end_by1::<Vec<_>, I, _, _>(chainl1(w(w(tokens_cmp::<_, _, I>(toks::<I>(b"x"), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(|_| V::S(b"x".to_vec()))).flat_map(fm::<I>(1))), w(w(w(range::take_while1::<I, _>(satv::<I>(3)))).then_ref(|v: &V| if v.pred(0) { w(satisfy::<I, _>(satv::<I>(5))).left() } else { w(w(range::range::<I>(","))).right() })).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r]))), combine::parser::char::crlf::<I>().and(combine::from_str::<I, u64, _>(many1::<String, _, _>(combine::parser::char::digit())))), token::<I>(';'),)))
}
fn text14<I: ZT>() -> BoxP<I> {
    bx(w(sep_end_by1::<Vec<_>, I, _, _>(w(any_send_sync_partial_state(as_send(w(w(range::take_while1::<I, _>(satv::<I>(1))).with(w(range::take_while::<I, _>(satv::<I>(1)))))))).or(w(w(w(token::<I>('ß')).flat_map(fm::<I>(3))).flat_map(fm::<I>(3)))), recognize::<Vec<I::T>, I, _>(satisfy::<I, _>(satv::<I>(6)))).and(satisfy::<I, _>(satv::<I>(7)))))
}
fn text15<I: ZT>() -> BoxP<I> {
    bx(w(choice((w(w(range::range::<I>("x0"))), w(w(token::<I>('0')).or(w(combine::parser::char::string_cmp::<_, I>("x", |a: char, b: char| lower(a as u32) == lower(b as u32))))), w(function::parser(|i: &mut I| combine::parser::char::crlf::<I>().parse_lazy(i).into_result())),)).skip(w(range::recognize_with_value::<I, _>(w(combine::from_str::<I, u64, _>(many1::<String, _, _>(combine::parser::char::digit()))).then_ref(|v: &V| if v.pred(3) { w(none_of::<_, I>(toks::<I>(b"111"))).left() } else { w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b",,\xc3\x9f")).map(|_| V::S(b",,\xc3\x9f".to_vec()))).right() }))))))
}
fn text16<I: ZT>() -> BoxP<I> {
    bx(w((op::<I, _, _>(|| w(one_of::<_, I>(toks::<I>(b";;0")))), w(range::recognize::<I, _>(unexpected::<I, _>("unexpected").map(|_| V::U))), choice((w(none_of::<_, I>(toks::<I>(b",b"))), w(satisfy::<I, _>(satv::<I>(1))), w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"a\xf0\x9d\x84\x9e,")).map(|_| V::S(b"a\xf0\x9d\x84\x9e,".to_vec()))), w(combine::parser::char::string_cmp::<_, I>("éa", |a: char, b: char| lower(a as u32) == lower(b as u32))),)), combine::parser::char::string::<I>("ß;;"), skip_count::<I, _>(1, combine::parser::char::upper::<I>()),)))
}
fn text17<I: ZT>() -> BoxP<I> {
    bx(w(choice((w(recognize::<Vec<I::T>, I, _>(zpos::<I>())), w(w(range::recognize_with_value::<I, _>(combine::from_str::<I, u64, _>(many1::<String, _, _>(combine::parser::char::digit()))))), w(sep_by1::<Vec<_>, I, _, _>(satisfy::<I, _>(satv::<I>(5)), w(range::take_while1::<I, _>(satv::<I>(5))))), w(combine::from_str::<I, u64, _>(many1::<String, _, _>(combine::parser::char::digit()))), w(w(range::recognize_with_value::<I, _>(combine::parser::char::string::<I>(";;;")))),)).with(satisfy_map::<I, _, V>(satm::<I>(7)))))
}
fn text18<I: ZT>() -> BoxP<I> {
    bx(w(((many::<Vec<_>, I, _>(w(range::take_while1::<I, _>(satv::<I>(5)))), w(range::recognize_with_value::<I, _>(combine::parser::char::string_cmp::<_, I>("ßßx", |a: char, b: char| lower(a as u32) == lower(b as u32)))), lazy(|| combine::parser::char::string_cmp::<_, I>("xa", |a: char, b: char| lower(a as u32) == lower(b as u32))), w(w(range::take_while1::<I, _>(satv::<I>(2)))).flat_map(fm::<I>(2)), many1::<Vec<_>, I, _>(satisfy::<I, _>(satv::<I>(0))),), w(range::take_while1::<I, _>(satv::<I>(5))),)))
}
fn text19<I: ZT>() -> BoxP<I> {
    bx(w((recognize::<Vec<I::T>, I, _>(w(range::take_while1::<I, _>(satv::<I>(7)))), w(combine::parser::char::string::<I>("b")).and_then(at::<I>(1)), struct_parser! { Trip { a: w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"aa")).map(|_| V::S(b"aa".to_vec()))), _: satisfy::<I, _>(satv::<I>(7)), b: w(token::<I>('x')) } }.map(|t| V::L(vec![t.a, t.b])), many::<Vec<_>, I, _>(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b";a0a")).map(|_| V::S(b";a0a".to_vec()))),).and(w(range::range::<I>("0;")))))
}
fn text20<I: ZT>() -> BoxP<I> {
    bx(w(w(w(w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b"0")).map(|_| V::S(b"0".to_vec()))).flat_map(fm::<I>(3))).and_then(at::<I>(0))).then_ref(|v: &V| if v.pred(0) { w(attempt(w(combine::parser::char::string_cmp::<_, I>("é", |a: char, b: char| lower(a as u32) == lower(b as u32))).or(w(w(range::range::<I>(";")))))).left() } else { w(w(satisfy::<I, _>(satv::<I>(4)).with(one_of::<_, I>(toks::<I>(b"\x0d;;")))).and_then(at::<I>(0))).right() })))
}
fn text21<I: ZT>() -> BoxP<I> {
    bx(w(w(w((one_of::<_, I>(toks::<I>(b"xa")), satisfy_map::<I, _, V>(satm::<I>(4)),)).or(w(struct_parser! { Trip { a: w(satisfy_map::<I, _, V>(satm::<I>(7)).silent()), _: none_of::<_, I>(toks::<I>(b"\xc3\xa9;")), b: w(w(any::<I>()).or(w(token::<I>('𝄞')))) } }.map(|t| V::L(vec![t.a, t.b]))))).map(act(1))))
}
fn text22<I: ZT>() -> BoxP<I> {
    bx(w((combine::parser::char::tab::<I>(), w(token::<I>('\r').with(w(range::range::<I>("bb")))).then_ref(|v: &V| if v.pred(0) { w(count::<Vec<_>, I, _>(3, combine::parser::char::oct_digit::<I>())).left() } else { w(chainr1(w(satisfy::<I, _>(satv::<I>(6))), w(w(range::range::<I>("0 "))).map(|op: V| move |l: V, r: V| V::L(vec![l, op.clone(), r])))).right() }), satisfy::<I, _>(satv::<I>(1)),)))
}
fn text23<I: ZT>() -> BoxP<I> {
    bx(w(sep_end_by1::<Vec<_>, I, _, _>(between(w(range::recognize::<I, _>(combine::parser::char::crlf::<I>())), any::<I>(), w(w(range::range::<I>(";;;"))).or(w(satisfy_map::<I, _, V>(satm::<I>(4))))), combine::parser::char::upper::<I>().silent()).skip(combine::parser::char::alpha_num::<I>())))
}
fn text24<I: ZT>() -> BoxP<I> {
    bx(w((then_partial(w(w(pm::<I, _, _>(|| w(w(range::range::<I>(","))))).left::<BoxP<I>>()), |v: &mut V| if v.pred(2) { w(w(then_partial(w(satisfy::<I, _>(satv::<I>(3))), |v: &mut V| if v.pred(0) { w(satisfy::<I, _>(satv::<I>(7))).left() } else { w(tokens::<_, _, _, I>(|a: I::T, b: I::T| a == b, "tokens", toks::<I>(b",0")).map(|_| V::S(b",0".to_vec()))).right() })).and_then(at::<I>(2))).left() } else { w(w(range::range::<I>("x"))).right() }), combine::parser::char::crlf::<I>(),)))
}
fn text25<I: ZT>() -> BoxP<I> {
    bx(w(w(combine::parser::char::lower::<I>().then(|v| combine::dispatch!(v.iv().num() % 3; 0 => w(then_partial(w(tokens_cmp::<_, _, I>(toks::<I>(b"0"), |a: I::T, b: I::T| lower(a.u()) == lower(b.u())).map(|_| V::S(b"0".to_vec()))), |v: &mut V| if v.pred(3) { w(none_of::<_, I>(toks::<I>(b","))).left() } else { w(combine::parser::char::string::<I>("\na;")).right() })), 1 => w(no_partial(w(range::range::<I>("𝄞")))), _ => w(take_until::<Vec<I::T>, I, _>(attempt(w(range::range::<I>("a,a")))))))).flat_map(fm::<I>(3))))
}
