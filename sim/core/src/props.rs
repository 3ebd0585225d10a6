//! What decides each property: the simulations that are run for it, and which of their observations count.
use crate::ast::Op;
use crate::case::*;
use crate::gen::{Mode, Profile, G};
use crate::mem::{is_text, posmode, sched_ev, NSTREAMS, POS_STREAMS};
use crate::rng::Rng;

type Gen = fn(&mut Rng) -> Case;
pub struct Prop {
    pub id: &'static str,
    /// weight, name, generator
    pub gens: &'static [(u32, &'static str, Gen)],
    pub aspects: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

/// A grammar and an input for it, over `stream`.
fn body(r: &mut Rng, stream: usize, tune: fn(&mut Profile), max: usize, corrupt: usize, long: bool, raw: bool) -> (crate::ast::Node, Vec<u8>) {
    let mut p = Profile::base().swarm(r);
    p.position = posmode(stream) > 0 && r.chance(1, 3);
    tune(&mut p);
    p.raw = raw;
    if raw {
        p.attempt = p.attempt.max(3) * 3;
    }
    if long {
        p.big = r.chance(3, 4);
        p.depth = p.depth.min(2);
    }
    let m = if is_text(stream) { Mode::Text } else { Mode::Bytes };
    let mut g = G { r, m, p };
    let (n, mut input) = g.pair(max, corrupt);
    if long {
        for _ in 0..if g.r.chance(1, 2) { 20 } else { 300 } {
            if input.len() >= max {
                break;
            }
            let x = g.input(&n, max, 0);
            input.extend(x);
        }
        input.truncate(max);
        if is_text(stream) {
            input = crate::gen::fix_utf8(input);
        }
    }
    (n, input)
}
fn mem(r: &mut Rng, stream: usize, tune: fn(&mut Profile), max: usize, corrupt: usize) -> Case {
    let mut c = Case { kind: "mem".into(), ..Case::default() };
    let (g, input) = if r.chance(1, 150) {
        // hundreds of messages or elements, now and then a long one
        let max = *r.pick(&[600, 2000, 2000, 9000]);
        body(r, stream, tune, max, corrupt, true, false)
    } else {
        let raw = r.chance(1, 10);
        body(r, stream, tune, max, corrupt, false, raw)
    };
    let (ev, late) = sched_ev(r, input.len());
    c.parts.push(Part { stream, g: Some(g), input, ev, ..Part::default() });
    c.set("late", late);
    if r.chance(1, 8) {
        c.set("rebuild", 1);
    }
    c
}
/// Sequences of hundreds of parts, as records with many fields are.
fn wide(r: &mut Rng) -> Case {
    let mut c = Case { kind: "mem".into(), ..Case::default() };
    let stream = if r.chance(1, 2) { *r.pick(&EASY) } else { r.below(NSTREAMS) };
    let mut p = Profile::base().swarm(r);
    p.depth = 1;
    let m = if is_text(stream) { Mode::Text } else { Mode::Bytes };
    let mut x = G { r, m, p };
    let mut els: Vec<crate::ast::Node> = vec![];
    while els.len() < 3 {
        let e = x.pair(8, 0).0;
        if e.size() < 8 {
            els.push(e)
        }
    }
    let node = |op: Op, k: Vec<crate::ast::Node>| crate::ast::Node::new(op, b"", &[], k);
    let opts = x.r.below(5);
    let mut rows = vec![];
    for _ in 0..x.r.range(2, 12) {
        let k = if x.r.chance(2, 3) { 12 } else { x.r.range(2, 9) };
        let row = (0..k).map(|_| {
            let e = x.r.pick(&els).clone();
            if x.r.below(4) < opts { node(Op::Opt, vec![e]) } else { e }
        });
        let row = row.collect();
        rows.push(node(Op::Seq, row));
    }
    if rows.len() == 10 || rows.len() == 11 {
        rows.push(rows[0].clone());
        rows.resize_with(12, || node(Op::Seq, vec![els[0].clone()]));
    }
    let page = node(Op::Seq, rows);
    let end = crate::ast::Node::new(Op::Tok, b";", &[], vec![]);
    let g = match x.r.below(4) {
        0 => node(Op::Seq, vec![page, end]),
        1 => node(Op::Seq, vec![page.clone(), page, end]),
        2 => node(Op::Seq, vec![node(Op::And, vec![page.clone(), page]), end]),
        _ => node(Op::Or, vec![node(Op::Attempt, vec![node(Op::Seq, vec![page.clone(), end.clone()])]), node(Op::Seq, vec![page, els[0].clone(), end])]),
    };
    let mut input = vec![];
    for _ in 0..x.r.range(1, 2) {
        let mut fuel = 800;
        x.sample(&g, &mut input, &mut fuel);
    }
    if x.r.chance(1, 2) && !input.is_empty() {
        let k = x.r.below(input.len());
        match x.r.below(3) {
            0 => input.truncate(k),
            1 => input[k] = *x.r.pick(b"ab;,x0"),
            _ => {
                input.remove(k);
            }
        }
    }
    input.truncate(1200);
    if is_text(stream) {
        input = crate::gen::fix_utf8(input);
    }
    let (ev, late) = sched_ev(x.r, input.len());
    c.parts.push(Part { stream, g: Some(g), input, ev, ..Part::default() });
    c.set("late", late);
    c
}
fn plain(_: &mut Profile) {}
fn seqs(p: &mut Profile) {
    p.seq = p.seq.max(8) * 2;
    p.choice = p.choice.max(5) * 2;
    p.then = p.then.max(3) * 2;
    p.map = p.map.max(3);
    p.plumb *= 2;
    p.attempt *= 2;
    p.depth = p.depth.max(2);
}
fn reps(p: &mut Profile) {
    p.rep = p.rep.max(8) * 4;
    p.until = p.until.max(3) * 2;
    p.iterate = p.iterate.max(3);
    p.depth = p.depth.max(2);
}
fn zero_copy(p: &mut Profile) {
    p.leaf_range = p.leaf_range.max(7) * 5;
    p.leaf_bin = p.leaf_bin.max(3) * 4;
    p.zero *= 2;
    p.recog = p.recog.max(3) * 3;
    p.escaped *= 2;
}
fn decisive(p: &mut Profile) {
    p.look = p.look.max(3) * 4;
    p.zero = p.zero.max(2) * 3;
    p.choice *= 2;
    p.restart = true;
}
fn rejecting(p: &mut Profile) {
    p.reject = p.reject.max(3) * 3;
    p.attempt *= 2;
}
fn acting(p: &mut Profile) {
    p.map = p.map.max(4) * 4;
    p.reject *= 2;
    p.then *= 2;
    p.restart = false;
}

/// One message far beyond any counter narrower than `usize`, in few pieces.
fn mem_big(r: &mut Rng) -> Case {
    let mut c = Case { kind: "mem".into(), ..Case::default() };
    let stream = r.below(NSTREAMS);
    let n = *r.pick(&[65_535, 65_536, 65_537, 70_000, 100_000]) as u32;
    let k = format!("{} ", n);
    let g = crate::ast::Node::parse(
        &r.pick(&[
            "(And (Many1 (NoneOf \";\")) (Tok \";\"))",
            "(And (Map 9 (SkipMany1 (NoneOf \";\"))) (Tok \";\"))",
            "(And (Count # (Any)) (Tok \";\"))",
            "(And (SkipCount # (Any)) (Tok \";\"))",
            "(And (CountMM # 0 (NoneOf \";\")) (Tok \";\"))",
            "(And (RecogRange (SkipMany1 (NoneOf \";\"))) (Tok \";\"))",
            "(And (Recog (SkipMany1 (NoneOf \";\"))) (Tok \";\"))",
            "(And (Take #) (Tok \";\"))",
            "(And (SepBy (Many1 (OneOf \"0a1\")) (OneOf \",\\x0a\")) (Tok \";\"))",
            "(And (SepEndBy1 (Many (OneOf \"0a1\")) (OneOf \",\\x0a\")) (Tok \";\"))",
            "(Skip (TakeUntilRange \"01;\") (Range \"01;\"))",
            "(And (ChainL1 (OneOf \"0a1\") (OneOf \",\\x0a\")) (Tok \";\"))",
            "(And (Skip (TakeWhile 3) (SkipMany (NoneOf \";\"))) (Tok \";\"))",
        ])
        .replace("# ", &k)
        .replace("#)", &format!("{})", n)),
    )
    .unwrap();
    let chain = g.text().contains("ChainL1");
    let mut input = vec![];
    for i in 0..n as usize {
        input.push(if chain && i % 2 == 1 || !chain && i % 7 == 6 && r.chance(1, 2) { *r.pick(b",\n") } else { *r.pick(b"0a1") });
    }
    if g.text().contains("Until") {
        input.extend_from_slice(b"01");
    } else if !input.last().map_or(false, |b| b"0a1".contains(b)) {
        let l = input.len();
        input[l - 1] = b'0';
    }
    input.extend_from_slice(b";0;");
    let mut ev = vec![];
    let mut left = input.len();
    while left > 0 {
        let x = if r.chance(1, 3) { r.range(1, 3) } else { r.range(1, 20_000) }.min(left);
        ev.push((0u8, x as u32));
        left -= x;
    }
    c.parts.push(Part { stream, g: Some(g), input, ev, ..Part::default() });
    c.set("late", r.below(2) as u64);
    c
}
fn c01(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    mem(r, s, seqs, 60, 15)
}
fn c02(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    mem(r, s, reps, 80, 15)
}
fn c03(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    mem(r, s, zero_copy, 80, 15)
}
fn c04(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    let mut c = mem(r, s, rejecting, 50, 70);
    // truncated messages
    if r.chance(1, 3) {
        let p = &mut c.parts[0];
        let k = r.below(p.input.len() + 1);
        p.input.truncate(k);
        if is_text(s) {
            p.input = crate::gen::fix_utf8(std::mem::take(&mut p.input));
        }
    }
    with_cut(r, &mut c);
    c
}
fn any_mem(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    let t = [plain, seqs, reps, zero_copy, decisive, rejecting][r.below(6)];
    mem(r, s, t, 60, 30)
}
fn with_cut(r: &mut Rng, c: &mut Case) {
    let n = c.parts[0].input.len();
    c.set("cut", 1 + r.below(n + 1) as u64);
    let (stream, g) = (c.parts[0].stream, c.parts[0].g.clone().unwrap());
    let m = if is_text(stream) { Mode::Text } else { Mode::Bytes };
    let mut x = G { r, m, p: Profile::base() };
    let mut input = x.input(&g, 20, 60);
    let k = x.r.below(input.len() + 1);
    if x.r.chance(1, 2) {
        input.drain(..k);
    }
    if is_text(stream) {
        input = crate::gen::fix_utf8(input);
    }
    c.parts.push(Part { stream, input, ..Part::default() });
}
fn c05(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    let t = if r.chance(2, 3) { decisive } else { plain };
    let mut c = mem(r, s, t, 50, 30);
    with_cut(r, &mut c);
    c
}
fn c06(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    let t = [plain, zero_copy, seqs][r.below(3)];
    mem(r, s, t, 60, 20)
}
fn c07(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    mem(r, s, acting, 60, 10)
}
fn c07_again(r: &mut Rng) -> Case {
    fn tune(p: &mut Profile) {
        acting(p);
        p.restart = true;
        p.attempt *= 2;
    }
    let s = r.below(NSTREAMS);
    mem(r, s, tune, 60, 10)
}
fn c07_work(r: &mut Rng) -> Case {
    let stream = r.below(NSTREAMS);
    let mut c = Case { kind: "mem".into(), ..Case::default() };
    let t = [acting, reps, zero_copy, seqs][r.below(4)];
    let (g, input) = body(r, stream, t, 500, 0, true, false);
    let step = r.range(1, 3);
    let ev = (0..input.len() / step + 1).map(|_| (0u8, step as u32)).collect();
    c.parts.push(Part { stream, g: Some(g), input, ev, ..Part::default() });
    c.set("late", 1);
    c.set("work", 1);
    c
}
fn c08(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    let t = [plain, seqs, reps][r.below(3)];
    let mut c = mem(r, s, t, 90, 10);
    c.set("fresh", 1);
    c
}
/// The parser object serves another session, too.
fn c08_guest(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    let t = [plain, seqs, reps, zero_copy][r.below(4)];
    let mut c = mem(r, s, t, 70, 10);
    c.opt.remove("rebuild");
    let mut input = c.parts[0].input.clone();
    if input.len() > 300 {
        input.truncate(300);
    }
    if r.chance(1, 3) && !input.is_empty() {
        let k = r.below(input.len());
        input.rotate_left(k);
    }
    if is_text(s) {
        input = crate::gen::fix_utf8(input);
    }
    c.parts.push(Part { stream: s, input, ..Part::default() });
    c.set("guest", 1 + r.below(2) as u64);
    c
}
/// Header and body, say: two parsers in turn over the same bytes with one erased state.
fn c08_turns(r: &mut Rng) -> Case {
    let mut c = Case { kind: "mem".into(), ..Case::default() };
    let stream = r.below(NSTREAMS);
    let tune = [plain, seqs, reps, zero_copy][r.below(4)];
    let mut p = Profile::base().swarm(r);
    tune(&mut p);
    p.depth = p.depth.min(2);
    let m = if is_text(stream) { Mode::Text } else { Mode::Bytes };
    let op = *r.pick(&[Op::AnyState, Op::AnySend, Op::AnySendSync]);
    let mut x = G { r, m, p };
    let wrap = |g: crate::ast::Node| crate::ast::Node::new(op, b"", &[], vec![g]);
    let g = x.pair(40, 0).0;
    let h = x.pair(40, 0).0;
    let mut input = vec![];
    for i in 0..x.r.range(2, 6) {
        let mut fuel = 60;
        x.sample(if i % 2 == 0 { &g } else { &h }, &mut input, &mut fuel);
        if input.len() > 120 {
            break;
        }
    }
    if x.r.chance(1, 10) {
        let k = x.r.below(input.len() + 1);
        input.truncate(k);
    }
    if is_text(stream) {
        input = crate::gen::fix_utf8(input);
    }
    let (ev, late) = sched_ev(x.r, input.len());
    c.parts.push(Part { stream, g: Some(wrap(g)), input, ev, ..Part::default() });
    c.parts.push(Part { stream, g: Some(wrap(h)), ..Part::default() });
    c.set("late", late);
    c.set("turns", 1);
    c
}
fn c15_mem(r: &mut Rng) -> Case {
    let s = if r.chance(1, 4) { *r.pick(&[1, 4]) } else { *r.pick(&POS_STREAMS) };
    let mut c = mem(r, s, plain, 70, 25);
    c.opt.remove("rebuild");
    c
}
fn c19_mem(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    let mut c = mem(r, s, plain, 60, 60);
    if r.chance(1, 2) {
        let p = &mut c.parts[0];
        let n = r.below(40);
        p.input = (0..n).map(|_| if r.chance(1, 3) { r.below(256) as u8 } else { *r.pick(b"ab,;x0\n\r 1") }).collect();
        if is_text(s) {
            p.input = crate::gen::fix_utf8(std::mem::take(&mut p.input));
        }
    }
    with_cut(r, &mut c);
    c.set("fresh", r.chance(1, 4) as u64);
    c
}

// ------------------------------------------------------------------------------------------------ decoders
#[derive(Clone, Copy)]
struct D {
    sync: bool,
    asyn: bool,
    errs: bool,
    pends: bool,
    cancels: bool,
    many: bool,
    pos: bool,
    truncate: bool,
    corrupt: usize,
}
const D0: D = D { sync: true, asyn: true, errs: false, pends: false, cancels: false, many: false, pos: false, truncate: false, corrupt: 20 };
fn dec(r: &mut Rng, d: D) -> Case {
    let mut c = Case { kind: "dec".into(), ..Case::default() };
    let n = if d.many { r.range(2, 4) } else { 1 };
    let e = if d.errs { r.range(5, 35) } else { 0 };
    let p = if d.pends { r.range(5, 50) } else { 0 };
    let k = if d.cancels { r.range(3, 25) } else { 0 };
    for _ in 0..n {
        let stream = if d.pos { *r.pick(&POS_STREAMS) } else { r.below(NSTREAMS) };
        let t = [plain, plain, seqs, reps, zero_copy][r.below(5)];
        let (g, mut input) = body(r, stream, t, 60, d.corrupt, false, false);
        if d.truncate && r.chance(2, 3) {
            let k = r.below(input.len() + 1);
            input.truncate(k);
            if is_text(stream) {
                input = crate::gen::fix_utf8(input);
            }
        }
        let ev = crate::src::script(r, input.len(), e, p, k);
        let flav = if d.sync && d.asyn { r.below(10) } else if d.sync { r.below(2) } else { 2 + r.below(8) };
        c.parts.push(Part { stream, flav: flav as u64, cap: r.below(20) as u64, g: Some(g), input, ev, ops: vec![] });
    }
    if n > 1 {
        c.order = (0..r.below(60)).map(|_| r.below(4) as u32).collect();
    }
    c.set("rebuild", r.chance(1, 4) as u64);
    c
}
/// A message far larger than any buffer the decoders start with.
fn dec_big(r: &mut Rng, d: D) -> Case {
    let mut c = Case { kind: "dec".into(), ..Case::default() };
    let stream = r.below(NSTREAMS);
    let g = crate::ast::Node::parse(*r.pick(&[
        "(Skip (TakeUntilBytes \"\\x0d\\x0a\") (Str \"\\x0d\\x0a\"))",
        "(Skip (Many1 (NoneOf \";\")) (Tok \";\"))",
        "(Skip (RecogRange (SkipMany1 (NoneOf \";\"))) (Tok \";\"))",
        "(Skip (SepBy (Many1 (Digit)) (Tok \",\")) (Tok \";\"))",
        "(Skip (TakeWhile1 7) (Tok \";\"))",
    ]))
    .unwrap();
    let n = *r.pick(&[300, 300, 1000, 1000, 5000, 5000, 9000, 9000, 17000, 17000, 70_000]);
    let mut input = vec![];
    while input.len() < n {
        let k = r.range(1, n);
        let f = *r.pick(b"0a1");
        for i in 0..k {
            input.push(if i % 7 == 6 && r.chance(1, 2) { b',' } else { f });
        }
        if input.last() == Some(&b',') {
            input.push(b'0');
        }
        input.extend_from_slice(if g.s.is_empty() && g.text().contains("TakeUntilBytes") { b"\r\n" } else { b";" });
    }
    let e = if d.errs { 10 } else { 0 };
    let p = if d.pends { 20 } else { 0 };
    let mut ev = crate::src::script(r, 60, e, p, if d.cancels { 10 } else { 0 });
    for x in ev.iter_mut() {
        if x.0 == crate::src::DATA {
            x.1 *= r.range(1, if n > 20_000 { 4000 } else { 400 }) as u32;
        }
    }
    let flav = if d.sync && d.asyn { r.below(10) } else if d.sync { r.below(2) } else { 2 + r.below(8) };
    c.parts.push(Part { stream, flav: flav as u64, cap: r.below(40) as u64, g: Some(g), input, ev, ops: vec![] });
    c
}
fn c09(r: &mut Rng) -> Case {
    dec(r, D { asyn: false, ..D0 })
}
fn c09_big(r: &mut Rng) -> Case {
    dec_big(r, D { asyn: false, ..D0 })
}
fn c10(r: &mut Rng) -> Case {
    let errs = r.chance(1, 4);
    dec(r, D { sync: false, pends: true, errs, ..D0 })
}
fn c10_big(r: &mut Rng) -> Case {
    dec_big(r, D { sync: false, pends: true, ..D0 })
}
fn c11(r: &mut Rng) -> Case {
    let pends = r.chance(1, 2);
    dec(r, D { errs: true, pends, ..D0 })
}
fn c11_big(r: &mut Rng) -> Case {
    dec_big(r, D { errs: true, ..D0 })
}
fn c13(r: &mut Rng) -> Case {
    let (errs, pends) = (r.chance(1, 4), r.chance(1, 4));
    dec(r, D { truncate: true, errs, pends, ..D0 })
}
fn c13_mem(r: &mut Rng) -> Case {
    let s = r.below(NSTREAMS);
    let mut c = mem(r, s, plain, 50, 10);
    let p = &mut c.parts[0];
    if r.chance(1, 2) {
        let k = r.below(p.input.len() + 1);
        p.input.truncate(k);
        if is_text(s) {
            p.input = crate::gen::fix_utf8(std::mem::take(&mut p.input));
        }
    }
    c
}
fn c15_dec(r: &mut Rng) -> Case {
    let (errs, pends) = (r.chance(1, 3), r.chance(1, 3));
    dec(r, D { pos: true, errs, pends, corrupt: 30, ..D0 })
}
fn c16(r: &mut Rng) -> Case {
    let many = r.chance(1, 2);
    let errs = r.chance(1, 5);
    dec(r, D { sync: many, pends: true, cancels: true, many, errs, ..D0 })
}
fn c16_big(r: &mut Rng) -> Case {
    dec_big(r, D { sync: false, pends: true, cancels: true, ..D0 })
}
fn c19_dec(r: &mut Rng) -> Case {
    let (errs, pends, cancels) = (r.chance(1, 3), r.chance(1, 3), r.chance(1, 4));
    dec(r, D { errs, pends, cancels, truncate: true, corrupt: 60, ..D0 })
}
const EASY: [usize; 6] = [1, 2, 4, 5, 6, 7];
fn c20(r: &mut Rng) -> Case {
    let s = *r.pick(&EASY);
    let t = [plain, rejecting, seqs, reps, zero_copy, decisive][r.below(6)];
    let mut c = mem(r, s, t, 50, 70);
    c.opt.remove("rebuild");
    c
}
fn c20_dec(r: &mut Rng) -> Case {
    let (errs, pends) = (r.chance(1, 4), r.chance(1, 4));
    let mut c = dec(r, D { errs, pends, corrupt: 70, truncate: true, ..D0 });
    c.opt.remove("rebuild");
    c
}
fn codec(r: &mut Rng) -> Case {
    crate::codec::gen(r)
}
fn codec_direct(r: &mut Rng) -> Case {
    let mut c = crate::codec::gen(r);
    c.parts[0].flav = 1;
    c
}
fn codec_pos(r: &mut Rng) -> Case {
    let mut c = crate::codec::gen(r);
    let text = is_text(c.parts[0].stream);
    c.parts[0].stream = match (text, r.chance(1, 2)) {
        (false, false) => 2,
        (false, true) => 6,
        (true, false) => 5,
        (true, true) => 7,
    };
    c
}
fn bufr(r: &mut Rng) -> Case {
    crate::bufr::gen(r)
}
fn look(r: &mut Rng) -> Case {
    crate::look::gen(r, false)
}
fn look_fed(r: &mut Rng) -> Case {
    let t = [plain, seqs, reps, decisive, rejecting][r.below(5)];
    crate::look::gen_fed(r, t)
}
fn look_fed_seqs(r: &mut Rng) -> Case {
    crate::look::gen_fed(r, seqs)
}
fn look_fed_reps(r: &mut Rng) -> Case {
    crate::look::gen_fed(r, reps)
}
fn look_faults(r: &mut Rng) -> Case {
    crate::look::gen(r, true)
}

const VALUES: &[&str] = &["values", "oracle", "bad"];

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", gens: &[(12000, "in-memory session, sequences and alternatives", c01), (2, "one message of 65535 elements and more", mem_big), (1000, "look-back buffer fed in pieces", look_fed_seqs), (32, "a sequence of hundreds of parts", wide)], aspects: VALUES, quick: 4_800_000, thorough: 30_000_000,
        rule: "seeded random grammars weighted to sequencing, alternation, value-dependent continuation and backtracking x generated/corrupted inputs x delivery schedules; distinct by (schedule, calls, requests for more, grammar); non-trivial: the reference model is exact for the grammar and at least one message or error came from a session that was cut" },
    Prop { id: "C02", gens: &[(12000, "in-memory session, repetition", c02), (2, "one message of 65535 elements and more", mem_big), (1000, "look-back buffer fed in pieces", look_fed_reps)], aspects: VALUES, quick: 4_800_000, thorough: 30_000_000,
        rule: "as C01 with grammars weighted to repetition" },
    Prop { id: "C03", gens: &[(12000, "in-memory session, zero-copy and binary", c03), (2, "one message of 65535 elements and more", mem_big)], aspects: VALUES, quick: 4_800_000, thorough: 30_000_000,
        rule: "as C01 with grammars weighted to ranges, recognizers and numbers" },
    Prop { id: "C04", gens: &[(564, "in-memory session, corrupted and truncated input", c04), (141, "in-memory session, any grammar", any_mem), (1, "a sequence of hundreds of parts", wide)], aspects: &["values", "oracle", "bad", "eoi", "final"], quick: 4_800_000, thorough: 30_000_000,
        rule: "as C01 over corrupted, truncated and foreign inputs" },
    Prop { id: "C05", gens: &[(1, "in-memory session cut off before the end is known, with two continuations", c05)], aspects: &["final", "values", "oracle", "bad"], quick: 3_600_000, thorough: 25_000_000,
        rule: "a session that is given a prefix and never told the end, against one-shot parses of two continuations of that prefix" },
    Prop { id: "C06", gens: &[(4, "in-memory session", c06), (1, "codec driven by hand", codec_direct)], aspects: &["values", "oracle", "bad", "bytes"], quick: 4_000_000, thorough: 25_000_000,
        rule: "sessions in which after every call exactly the reported bytes are dropped and the rest moves to a new, scribbled-over home" },
    Prop { id: "C07", gens: &[(4, "in-memory session with logged user actions", c07), (2, "in-memory session with logged user actions in parts that start over", c07_again), (1, "work measured on long inputs in small pieces", c07_work)], aspects: &["actions", "work", "bad"], quick: 2_000_000, thorough: 12_000_000,
        rule: "grammars whose actions log themselves; long inputs in pieces of 1-3 bytes against a linear work bound" },
    Prop { id: "C08", gens: &[(6, "in-memory session, one state against a fresh state per message", c08), (1, "two parsers in turn on one erased state", c08_turns), (1, "another session on the same parser object", c08_guest)], aspects: &["session", "values", "oracle", "bad"], quick: 3_200_000, thorough: 20_000_000,
        rule: "histories of several messages through one saved state, against the same deliveries with a fresh state per message" },
    Prop { id: "C09", gens: &[(40, "blocking decoder over a simulated source", c09), (1, "large messages", c09_big)], aspects: &["values", "oracle", "bytes", "bad"], quick: 2_000_000, thorough: 12_000_000,
        rule: "decode! over a simulated source with short reads, owned and borrowed buffers" },
    Prop { id: "C10", gens: &[(40, "asynchronous decoders over a simulated source", c10), (1, "large messages", c10_big)], aspects: &["values", "oracle", "bytes", "wake", "bad"], quick: 2_000_000, thorough: 12_000_000,
        rule: "the asynchronous decode macros polled by hand over a simulated source with short reads, pending results and some errors" },
    Prop { id: "C11", gens: &[(40, "decoders over a failing source", c11), (1, "large messages", c11_big)], aspects: &["io", "wake", "values", "bytes", "bad"], quick: 2_000_000, thorough: 12_000_000,
        rule: "all decoders over a source that fails at random reads with random error kinds, decoding again after each error" },
    Prop { id: "C12", gens: &[(1, "buffered reader driven by random operations", bufr)], aspects: &["bufr", "bytes", "io", "wake", "values", "bad"], quick: 6_000_000, thorough: 40_000_000,
        rule: "random interleavings of read, fill, consume, decode and write operations on the buffered reader over a simulated source" },
    Prop { id: "C13", gens: &[(3, "decoders over truncated sources", c13), (2, "in-memory session, demand for data", c13_mem)], aspects: &["demand", "eoi", "values", "bad"], quick: 2_800_000, thorough: 15_000_000,
        rule: "truncated inputs; the reference model says from how many bytes a message is settled" },
    Prop { id: "C14", gens: &[(1, "codec under FramedRead or by hand", codec)], aspects: &["values", "oracle", "eof", "eoi", "io", "bytes", "bad", "known:eof-inside-frame"], quick: 2_400_000, thorough: 15_000_000,
        rule: "decode_tokio behind tokio-util's FramedRead over a simulated source, and driven by hand" },
    Prop { id: "C15", gens: &[(3000, "in-memory session with positions", c15_mem), (3000, "decoders with positions", c15_dec), (1000, "codec with positions", codec_pos), (1, "one message of 65535 elements and more", mem_big)], aspects: &["position", "errpos", "values", "bad", "known:errpos-resumed-conversion", "known:errpos-resumed-span"], quick: 2_800_000, thorough: 15_000_000,
        rule: "streams with index and line/column positions; positions after messages, inside the grammar and of errors" },
    Prop { id: "C16", gens: &[(40, "cancelled and interleaved sessions", c16), (1, "large messages", c16_big)], aspects: &["values", "oracle", "bytes", "io", "bad"], quick: 1_400_000, thorough: 9_000_000,
        rule: "one to four sessions advanced in a seeded interleaving; pending decode futures dropped at seeded points" },
    Prop { id: "C17", gens: &[(4, "look-back buffers of any size", look), (2, "fed in pieces", look_fed), (1, "over failing readers", look_faults)], aspects: &["look", "values", "refused", "position", "errpos", "bad"], quick: 6_000_000, thorough: 40_000_000,
        rule: "buffered::Stream of random size over read-once sources against an in-memory slice" },
    Prop { id: "C18", gens: &[(3, "reader stream over a failing reader", look_faults), (1, "reader stream", look)], aspects: &["look", "io", "errpos", "bad", "known:read-error-succeeds", "known:read-error-masked"], quick: 6_000_000, thorough: 40_000_000,
        rule: "read::Stream over a reader with interruptions and errors against a slice that rejects at the same bytes" },
    Prop { id: "C19", gens: &[(312, "in-memory session, arbitrary bytes", c19_mem), (156, "decoders, arbitrary bytes and faults", c19_dec), (78, "buffered reader", bufr), (78, "codec", codec), (78, "look-back", look_faults), (1, "a sequence of hundreds of parts", wide)], aspects: &["bad", "oracle"], quick: 3_600_000, thorough: 20_000_000,
        rule: "everything at once on arbitrary bytes; panics, runaways, broken accounting" },
    Prop { id: "C20", gens: &[(423, "in-memory session over corrupted input, errors that list their causes", c20), (282, "decoders over corrupted and truncated input", c20_dec), (1, "a sequence of hundreds of parts", wide)], aspects: &["causes", "eoi", "values", "bad"], quick: 2_800_000, thorough: 15_000_000,
        rule: "error-listing streams over corrupted and truncated inputs; the causes an error lists (unexpected, expected, messages) against those of the uncut parse" },
];

impl Prop {
    pub fn draw_run(&self, seed: u64, i: u64) -> Case {
        self.draw(&mut crate::run::seed_of(seed, self.id, i)).1
    }
    pub fn draw(&self, r: &mut Rng) -> (usize, Case) {
        let w: Vec<u32> = self.gens.iter().map(|g| g.0).collect();
        let k = r.weighted(&w);
        (k, (self.gens[k].2)(r))
    }
}
