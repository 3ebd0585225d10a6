//! Random grammars and inputs.
use crate::ast::{class, Node, Op, CLASSES};
use crate::mk::{num_len, NUMS};
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Bytes,
    Text,
    /// only tokens, no ranges (read / buffered streams)
    TokensOnly,
    TokensOnlyText,
}
impl Mode {
    pub fn text(self) -> bool {
        matches!(self, Mode::Text | Mode::TokensOnlyText)
    }
    pub fn tokens_only(self) -> bool {
        matches!(self, Mode::TokensOnly | Mode::TokensOnlyText)
    }
}

/// Weights of the op groups; a swarm-style random perturbation is applied per run.
#[derive(Clone, Debug)]
pub struct Profile {
    pub leaf_tok: u32,
    pub leaf_range: u32,
    pub leaf_bin: u32,
    pub zero: u32,
    pub seq: u32,
    pub then: u32,
    pub map: u32,
    pub reject: u32,
    pub choice: u32,
    pub attempt: u32,
    pub look: u32,
    pub recog: u32,
    pub plumb: u32,
    pub rep: u32,
    pub until: u32,
    pub iterate: u32,
    pub escaped: u32,
    /// parsers that throw away their progress when data runs out
    pub restart: bool,
    pub position: bool,
    pub depth: u32,
    /// now and then: hundreds of elements, long tokens, high counts
    pub big: bool,
    /// alternatives that are abandoned after data was streamed into them
    pub raw: bool,
    /// grammars written as one nested expression
    pub zoo: bool,
}
impl Profile {
    pub fn base() -> Profile {
        Profile {
            leaf_tok: 10,
            leaf_range: 7,
            leaf_bin: 2,
            zero: 1,
            seq: 10,
            then: 3,
            map: 3,
            reject: 2,
            choice: 7,
            attempt: 3,
            look: 2,
            recog: 3,
            plumb: 4,
            rep: 8,
            until: 2,
            iterate: 1,
            escaped: 1,
            restart: true,
            position: false,
            depth: 4,
            big: false,
            raw: false,
            zoo: true,
        }
    }
    /// Swarm testing: each run uses a random subset of the groups with random weights.
    pub fn swarm(mut self, r: &mut Rng) -> Profile {
        for w in [
            &mut self.leaf_tok,
            &mut self.leaf_range,
            &mut self.leaf_bin,
            &mut self.zero,
            &mut self.seq,
            &mut self.then,
            &mut self.map,
            &mut self.reject,
            &mut self.choice,
            &mut self.attempt,
            &mut self.look,
            &mut self.recog,
            &mut self.plumb,
            &mut self.rep,
            &mut self.until,
            &mut self.iterate,
            &mut self.escaped,
        ] {
            match r.below(6) {
                0 => *w = 0,
                1 => *w *= 3,
                _ => {}
            }
        }
        if self.leaf_tok + self.leaf_range == 0 {
            self.leaf_tok = 5;
        }
        if r.chance(1, 3) {
            self.restart = false;
        }
        self.depth = 1 + r.below(self.depth as usize) as u32;
        self
    }
}

pub struct G<'a> {
    pub r: &'a mut Rng,
    pub m: Mode,
    pub p: Profile,
}

fn leaf(op: Op) -> Node {
    Node::leaf(op)
}
fn nd(op: Op, n: &[u32], kids: Vec<Node>) -> Node {
    Node::new(op, b"", n, kids)
}

impl<'a> G<'a> {
    fn ch(&mut self) -> Vec<u8> {
        let t = [&b"a"[..], b"b", b"x", b",", b";", b"0", b"1", b"\n", b" ", b"A", b"\r"];
        if self.m.text() && self.r.chance(1, 6) {
            return self.r.pick(&["é", "ß", "𝄞"]).as_bytes().to_vec();
        }
        let i = if self.r.chance(3, 4) { self.r.below(6) } else { self.r.below(t.len()) };
        t[i].to_vec()
    }
    fn lit(&mut self, min: usize, max: usize) -> Vec<u8> {
        let n = if self.p.big && self.r.chance(1, 4) { self.r.range(min, 70) } else { self.r.range(min, max) };
        let mut o = vec![];
        // repetitive literals (aab, abab) make scan-resume interesting
        let c = self.ch();
        for _ in 0..n {
            if self.r.chance(1, 2) {
                o.extend_from_slice(&c)
            } else {
                let d = self.ch();
                o.extend(d)
            }
        }
        o
    }
    /// A count below `n`, or far above it.
    fn cnt(&mut self, n: usize) -> u32 {
        let big = self.p.big && self.r.chance(1, 2);
        self.r.below(if big { 300 } else { n }) as u32
    }
    fn one_char(&mut self) -> Vec<u8> {
        self.ch()
    }
    fn cls(&mut self) -> u32 {
        self.r.below(CLASSES as usize) as u32
    }
    pub fn leaf_consuming(&mut self) -> Node {
        if self.p.zoo && self.r.chance(1, 100) {
            if let Some(z) = self.zoo() {
                return z;
            }
        }
        let bin = if self.m == Mode::Bytes { self.p.leaf_bin } else { 0 };
        let rng = if self.m.tokens_only() { 0 } else { self.p.leaf_range };
        match self.r.weighted(&[self.p.leaf_tok.max(1), rng, bin]) {
            0 => match self.r.below(18) {
                0 => leaf(Op::Any),
                1 | 2 => nd(Op::Sat, &[self.cls()], vec![]),
                3 => nd(Op::SatMap, &[self.cls()], vec![]),
                4 | 5 | 6 => Node::new(Op::Tok, &self.one_char(), &[], vec![]),
                7 => Node::new(Op::OneOf, &self.lit(1, 3), &[], vec![]),
                8 => Node::new(Op::NoneOf, &self.lit(1, 3), &[], vec![]),
                9 | 10 => Node::new(Op::Tokens, &self.lit(1, 4), &[], vec![]),
                11 => Node::new(Op::TokensCmp, &self.lit(1, 3), &[], vec![]),
                12 if !self.m.tokens_only() => Node::new(Op::Str, &self.lit(1, 4), &[], vec![]),
                17 if self.p.restart && self.r.chance(1, 2) => nd(Op::ByMut, &[self.cls(), self.r.below(8) as u32], vec![]),
                13 if !self.m.tokens_only() => Node::new(Op::StrCmp, &self.lit(1, 3), &[], vec![]),
                14 => leaf(Op::Crlf),
                15 if !self.m.tokens_only() => leaf(Op::FromStr),
                _ => leaf(*self.r.pick(&[
                    Op::Digit,
                    Op::Digit,
                    Op::Letter,
                    Op::AlphaNum,
                    Op::Hex,
                    Op::Oct,
                    Op::Upper,
                    Op::Lower,
                    Op::Space,
                    Op::Newline,
                    Op::Tab,
                ])),
            },
            1 => match self.r.below(9) {
                0 | 1 => Node::new(Op::Range, &self.lit(1, 4), &[], vec![]),
                2 => {
                    let k = 1 + self.cnt(4);
                    nd(Op::Take, &[k], vec![])
                }
                3 | 4 => nd(Op::TakeWhile1, &[self.cls()], vec![]),
                5 => {
                    let l = self.lit(1, 3);
                    // delimiter is then consumed so that progress is made
                    nd(Op::Seq, &[], vec![Node::new(Op::TakeUntilRange, &l, &[], vec![]), Node::new(Op::Range, &l, &[], vec![])])
                }
                6 => {
                    let l = self.lit(1, 3);
                    let k = self.r.below(2) as u32;
                    nd(Op::Skip, &[], vec![Node::new(Op::TakeFn, &l, &[k], vec![]), Node::new(Op::Range, &l, &[], vec![])])
                }
                7 => {
                    let n = self.r.range(1, 3);
                    let l: Vec<u8> = (0..n).map(|_| *self.r.pick(b",;ab\n0")).collect();
                    nd(Op::And, &[], vec![Node::new(Op::TakeUntilByte, &l, &[], vec![]), leaf(Op::Any)])
                }
                _ => {
                    let l = self.lit(1, 4);
                    nd(Op::Skip, &[], vec![Node::new(Op::TakeUntilBytes, &l, &[], vec![]), Node::new(Op::Str, &l, &[], vec![])])
                }
            },
            _ => {
                if self.r.chance(1, 6) {
                    let k = if self.p.restart { self.r.below(2) as u32 } else { 1 };
                    let num = if self.r.chance(3, 4) { nd(Op::Num, &[self.r.below(12) as u32], vec![]) } else { leaf(Op::FromStr) };
                    nd(Op::TakeN, &[k], vec![num])
                } else if self.p.restart && self.r.chance(1, 3) {
                    let k = 1 + self.r.below(5) as u32;
                    nd(Op::LenPrefix, &[k], vec![leaf(*self.r.pick(&[Op::Any, Op::Digit]))])
                } else {
                    let k = self.r.below(NUMS as usize) as u32;
                    nd(Op::Num, &[k], vec![])
                }
            }
        }
    }
    fn zero_leaf(&mut self) -> Node {
        match self.r.below(if self.m.tokens_only() { 5 } else { 11 }) {
            0 => leaf(Op::Eof),
            1 => nd(Op::Value, &[7], vec![]),
            2 => nd(Op::Produce, &[8], vec![]),
            3 => nd(Op::Unexpected, &[self.r.below(2) as u32], vec![]),
            4 | 5 => leaf(Op::Spaces),
            6 | 7 => nd(Op::TakeWhile, &[self.cls()], vec![]),
            8 => Node::new(Op::TakeUntilRange, &self.lit(1, 3), &[], vec![]),
            9 => Node::new(Op::TakeUntilBytes, &self.lit(1, 3), &[], vec![]),
            _ => {
                let l = self.lit(1, 2);
                Node::new(Op::TakeFn, &l, &[1], vec![])
            }
        }
    }
    /// A grammar of the zoo that this profile allows.
    fn zoo(&mut self) -> Option<Node> {
        if !self.p.zoo || self.m.tokens_only() {
            return None;
        }
        let all = crate::mem::zoo_all(self.m.text());
        for _ in 0..4 {
            let z = self.r.pick(all);
            if (self.p.restart || !z.restarts) && (self.p.position || !z.position) {
                return Some(z.n.clone());
            }
        }
        None
    }
    /// A parser that always consumes when it succeeds.
    pub fn nn(&mut self, d: u32) -> Node {
        for _ in 0..6 {
            let n = self.any(d);
            if !nullable(&n) {
                return n;
            }
        }
        self.leaf_consuming()
    }
    fn kids(&mut self, d: u32, lo: usize, hi: usize) -> Vec<Node> {
        let k = self.r.range(lo, hi);
        (0..k).map(|_| self.any(d)).collect()
    }
    pub fn any(&mut self, d: u32) -> Node {
        if d == 0 {
            return self.leafy();
        }
        let p = &self.p;
        let w = [
            (p.leaf_tok + p.leaf_range) / 3 + 1,
            p.seq,
            p.then,
            p.map,
            p.reject,
            p.choice,
            p.attempt,
            p.look,
            p.recog,
            p.plumb,
            p.rep,
            p.until,
            p.iterate,
            if p.restart { p.escaped } else { 0 },
        ];
        let ranges = !self.m.tokens_only();
        let d = d - 1;
        match self.r.weighted(&w) {
            0 => self.leafy(),
            1 => match self.r.below(9) {
                0 | 1 | 2 => nd(Op::Seq, &[], self.kids(d, 2, 5)),
                3 => nd(Op::And, &[], self.kids(d, 2, 2)),
                4 => nd(Op::With, &[], self.kids(d, 2, 2)),
                5 => nd(Op::Skip, &[], self.kids(d, 2, 2)),
                6 => nd(Op::Between, &[], self.kids(d, 3, 3)),
                7 => nd(Op::StructP, &[], self.kids(d, 3, 3)),
                _ => {
                    let mut k = self.kids(d.min(1), 1, 12);
                    if k.len() > 9 && k.len() < 12 {
                        k.truncate(9)
                    }
                    nd(Op::Seq, &[], k)
                }
            },
            2 => {
                let k = self.r.below(4) as u32;
                match self.r.below(4) {
                    0 => nd(Op::Then, &[k], self.kids(d, 3, 3)),
                    1 => nd(Op::ThenPartial, &[k], self.kids(d, 3, 3)),
                    2 => nd(Op::ThenRef, &[k], self.kids(d, 3, 3)),
                    _ => nd(Op::Dispatch, &[], self.kids(d, 4, 4)),
                }
            }
            3 => match self.r.below(7) {
                0 => nd(Op::Map, &[0], vec![self.any(d)]),
                1 => {
                    let k = if self.r.chance(1, 3) { self.any(d) } else { self.nn(d) };
                    nd(Op::MapInput, &[0], vec![k])
                }
                2 => nd(Op::Message, &[], vec![self.any(d)]),
                3 => nd(Op::Expected, &[], vec![self.any(d)]),
                4 => nd(Op::Silent, &[], vec![self.any(d)]),
                5 => nd(Op::Spanned, &[], vec![self.any(d)]),
                _ => nd(Op::Map, &[0], vec![self.nn(d)]),
            },
            4 => {
                let k = self.r.below(4) as u32;
                let op = if self.r.chance(1, 2) { Op::FlatMap } else { Op::AndThen };
                let kid = if self.r.chance(1, 4) { self.any(d) } else { self.nn(d) };
                nd(op, &[k], vec![kid])
            }
            5 => {
                let k = match self.r.below(8) {
                    0 => return nd(Op::Opt, &[], vec![self.any(d)]),
                    1 => {
                        let k = self.probe(d);
                        return nd(Op::Opt, &[], vec![k]);
                    }
                    2 | 3 => Op::Or,
                    4 => Op::ChoiceArr,
                    5 => Op::ChoiceSlice,
                    _ => Op::Choice,
                };
                if k == Op::ChoiceSlice && self.r.chance(1, 30) {
                    // no alternative at all
                    return nd(k, &[], vec![]);
                }
                let n = if k == Op::Or { 2 } else if self.r.chance(1, 12) { 9 } else { self.r.range(2, 5) };
                let d = if n == 9 { d.min(1) } else { d };
                let mut kids: Vec<Node> = (0..n).map(|_| if self.r.chance(3, 4) { self.nn(d) } else { self.any(d) }).collect();
                // alternatives sharing a prefix, with backtracking
                if self.r.chance(1, 3) {
                    let pre = self.lit(1, 2);
                    for k in kids.iter_mut() {
                        let t = std::mem::replace(k, leaf(Op::Any));
                        let inner = nd(Op::Seq, &[], vec![Node::new(Op::Tokens, &pre, &[], vec![]), t]);
                        *k = if self.p.raw && self.r.chance(3, 4) {
                            nd(Op::Attempt, &[], vec![inner])
                        } else if self.p.restart && self.r.chance(3, 4) { nd(Op::Attempt, &[], vec![nd(Op::NoPartial, &[], vec![inner])]) } else { inner };
                    }
                }
                nd(k, &[], kids)
            }
            6 => {
                if self.p.restart && !self.p.raw && self.r.chance(1, 2) {
                    nd(Op::Attempt, &[], vec![nd(Op::NoPartial, &[], vec![self.any(d)])])
                } else {
                    nd(Op::Attempt, &[], vec![self.any(d)])
                }
            }
            7 => {
                if !self.p.restart {
                    return self.leafy();
                }
                match self.r.below(4) {
                    0 => nd(Op::LookAhead, &[], vec![self.any(d.min(1))]),
                    1 => nd(Op::NotFollow, &[], vec![self.nn(d.min(1))]),
                    2 => {
                        let a = self.nn(d.min(1));
                        nd(Op::With, &[], vec![nd(Op::NotFollow, &[], vec![a]), self.nn(d)])
                    }
                    _ => {
                        let a = self.nn(d.min(1));
                        nd(Op::Skip, &[], vec![self.nn(d), nd(Op::LookAhead, &[], vec![a])])
                    }
                }
            }
            8 => match self.r.below(3) {
                0 => nd(Op::Recog, &[], vec![self.any(d)]),
                1 if ranges => nd(Op::RecogRange, &[], vec![self.any(d)]),
                2 if ranges => nd(Op::RecogVal, &[], vec![self.any(d)]),
                _ => nd(Op::Recog, &[], vec![self.any(d)]),
            },
            9 if self.p.position && self.r.chance(1, 4) => {
                let a = self.any(d);
                let b = if self.r.chance(1, 2) { nd(Op::Seq, &[], vec![a.clone()]) } else { self.any(d) };
                nd(Op::Factory2, &[], if self.r.chance(1, 2) { vec![a, b] } else { vec![b, a] })
            }
            9 => {
                let ops = [
                    Op::ParserM,
                    Op::Lazy,
                    Op::Factory,
                    Op::Opaque,
                    Op::Left,
                    Op::Right,
                    Op::AnyState,
                    Op::AnySend,
                    Op::AnySendSync,
                    Op::NoPartial,
                    Op::FnParser,
                ];
                let n = if self.p.restart { ops.len() } else { ops.len() - 2 };
                let op = *self.r.pick(&ops[..n]);
                let k = self.r.below(3) as u32;
                nd(op, if op == Op::FnParser { std::slice::from_ref(&k) } else { &[] }, vec![self.any(d)])
            }
            10 => match self.r.below(16) {
                0 => {
                    let k = self.cnt(4);
                    nd(Op::Count, &[k], vec![self.counted(d, k)])
                }
                1 => {
                    let k = self.cnt(4);
                    nd(Op::SkipCount, &[k], vec![self.counted(d, k)])
                }
                2 => {
                    let (a, b) = (self.cnt(4), self.cnt(4));
                    nd(Op::CountMM, &[a, b], vec![self.counted(d, a.max(b))])
                }
                3 => {
                    let (a, b) = (self.cnt(4), self.cnt(3));
                    nd(*self.r.pick(&[Op::SkipCountMM, Op::CountSink]), &[a, b], vec![self.counted(d, a.max(b))])
                }
                4 | 5 => nd(Op::Many, &[], vec![self.nn(d)]),
                6 => nd(Op::Many1, &[], vec![self.nn(d)]),
                7 => nd(*self.r.pick(&[Op::SkipMany, Op::SkipMany1]), &[], vec![self.nn(d)]),
                8 => nd(Op::SepBy, &[], vec![self.elem(d), self.nn(d.min(1))]),
                9 | 10 => nd(Op::SepBy1, &[], vec![self.elem(d), self.nn(d.min(1))]),
                11 => nd(Op::SepEndBy, &[], vec![self.elem(d), self.nn(d.min(1))]),
                12 => nd(Op::SepEndBy1, &[], vec![self.elem(d), self.nn(d.min(1))]),
                13 => nd(Op::ChainL1, &[], vec![self.elem(d), self.nn(d.min(1))]),
                14 if self.r.chance(1, 2) => {
                    let num = match self.m {
                        Mode::Bytes if self.r.chance(2, 3) => nd(Op::Num, &[self.r.below(12) as u32], vec![]),
                        Mode::TokensOnly | Mode::TokensOnlyText => leaf(Op::Digit),
                        _ => leaf(Op::FromStr),
                    };
                    let k = self.r.below(5) as u32;
                    nd(Op::CountN, &[k], vec![num, self.nn(d)])
                }
                15 if self.p.restart && self.r.chance(1, 3) => nd(Op::IterMany, &[], vec![self.nn(d)]),
                14 if self.p.restart => nd(Op::ChainR1, &[], vec![self.elem(d.min(1)), self.nn(d.min(1))]),
                _ => {
                    let k = 1 + self.cnt(3);
                    nd(Op::CountMM, &[k, 0], vec![self.nn(d)])
                }
            },
            11 => {
                if !self.p.restart {
                    return self.leafy();
                }
                let end = match self.r.below(16) {
                    0..=7 => self.leaf_consuming(),
                    8..=11 => nd(Op::Attempt, &[], vec![self.nn(d.min(1))]),
                    // ends that consume nothing: what was skipped is all that the whole has consumed
                    12 => nd(Op::LookAhead, &[], vec![self.leaf_consuming()]),
                    13 => nd(Op::LookAhead, &[], vec![self.nn(d.min(1))]),
                    14 => leaf(Op::Eof),
                    _ => nd(Op::NotFollow, &[], vec![self.leaf_consuming()]),
                };
                match self.r.below(4) {
                    0 => nd(Op::TakeUntil, &[], vec![end]),
                    1 => nd(Op::SkipUntil, &[], vec![end]),
                    2 => nd(Op::RepeatUntil, &[], vec![self.nn(d), end]),
                    _ => nd(Op::RepeatSkipUntil, &[], vec![self.nn(d), end]),
                }
            }
            12 => {
                let k = self.r.range(1, 3);
                let kids: Vec<Node> = (0..k).map(|_| self.any(d)).collect();
                let n: Vec<u32> = (0..self.r.below(5)).map(|_| self.r.below(k) as u32).collect();
                nd(Op::Iterate, &n, kids)
            }
            _ => {
                let body = match self.r.below(3) {
                    0 => nd(Op::Sat, &[4], vec![]),
                    1 if ranges => nd(Op::TakeWhile1, &[4], vec![]),
                    _ => Node::new(Op::NoneOf, b"\\\"", &[], vec![]),
                };
                let q = match self.r.below(3) {
                    0 => Node::new(Op::OneOf, b"nr\"\\", &[], vec![]),
                    1 => leaf(Op::Any),
                    _ => nd(Op::NoPartial, &[], vec![Node::new(Op::Tokens, b"x0", &[], vec![])]),
                };
                let e = Node::new(Op::Escaped, b"\\", &[], vec![body, q]);
                if ranges {
                    nd(Op::RecogRange, &[], vec![e])
                } else {
                    nd(Op::Recog, &[], vec![e])
                }
            }
        }
    }
    /// Something followed by a plain token: when the token is missing it shows whether the something claims to have
    /// consumed data.
    fn probe(&mut self, d: u32) -> Node {
        let k = self.any(d);
        let t = Node::new(Op::Tok, &self.ch(), &[], vec![]);
        nd(*self.r.pick(&[Op::Skip, Op::And, Op::Seq]), &[], vec![k, t])
    }
    /// An element of a list whose separators or counts keep it finite: may consume nothing.
    fn elem(&mut self, d: u32) -> Node {
        if self.r.chance(1, 6) {
            self.any(d)
        } else {
            self.nn(d)
        }
    }
    fn counted(&mut self, d: u32, k: u32) -> Node {
        if k <= 16 {
            self.elem(d)
        } else {
            self.nn(d)
        }
    }
    fn leafy(&mut self) -> Node {
        if self.p.position && self.r.chance(1, 5) {
            return leaf(Op::Position);
        }
        if self.r.below((self.p.leaf_tok + self.p.leaf_range + self.p.zero).max(1) as usize) < self.p.zero as usize {
            self.zero_leaf()
        } else {
            self.leaf_consuming()
        }
    }
    /// A message grammar: consumes, and usually ends in a definite terminator.
    pub fn message(&mut self) -> Node {
        if self.p.zoo && self.r.chance(1, 10) {
            if let Some(z) = self.zoo() {
                return z;
            }
        }
        let d = self.p.depth;
        let mut n = match self.r.below(6) {
            0 => self.nn(d),
            5 => {
                let k = self.probe(d);
                let t = self.term();
                let op = if self.r.chance(2, 3) { Op::Opt } else { Op::Many };
                nd(Op::Skip, &[], vec![nd(op, &[], vec![k]), t])
            }
            1 => {
                let t = self.term();
                nd(Op::Seq, &[], vec![self.any(d), self.any(d), t])
            }
            _ => {
                let t = self.term();
                nd(*self.r.pick(&[Op::Skip, Op::And, Op::Seq]), &[], vec![self.any(d), t])
            }
        };
        if nullable(&n) {
            n = nd(Op::Seq, &[], vec![n, leaf(Op::Any)]);
        }
        let mut c = 1;
        n.number(&mut c);
        n
    }
    /// A grammar and an input for it, usually one of which at least one message is accepted.
    pub fn pair(&mut self, max: usize, corrupt: usize) -> (Node, Vec<u8>) {
        let tries = if self.r.chance(3, 4) { 3 } else { 0 };
        for _ in 0..tries {
            let n = self.message();
            let i = self.input(&n, max, corrupt);
            let rf = crate::drv::run_ref(&n, &i, self.m.text(), 0, 2);
            if !rf.t.msgs.is_empty() && (!rf.soft || self.p.raw) && !rf.stop {
                return (n, i);
            }
        }
        let n = self.message();
        let i = self.input(&n, max, corrupt);
        (n, i)
    }
    fn term(&mut self) -> Node {
        match self.r.below(3) {
            0 => Node::new(Op::Tok, b";", &[], vec![]),
            1 => leaf(Op::Newline),
            _ => self.leaf_consuming(),
        }
    }

    // ---------------------------------------------------------------- inputs
    fn put_class(&mut self, k: u32, out: &mut Vec<u8>) {
        let cands: Vec<&[u8]> = [&b"a"[..], b"b", b"x", b",", b";", b"0", b"7", b" ", b"A", b"z"].iter().copied().filter(|c| class(k, c[0] as u32)).collect();
        if self.m.text() && k % CLASSES == 6 && self.r.chance(1, 2) || (self.m.text() && matches!(k % CLASSES, 3 | 5 | 7) && self.r.chance(1, 5)) {
            out.extend("é".as_bytes());
            return;
        }
        if cands.is_empty() {
            return;
        }
        let c = *self.r.pick(&cands);
        out.extend(c)
    }
    fn rnd_char(&mut self, out: &mut Vec<u8>) {
        if self.m == Mode::Bytes && self.r.chance(1, 10) {
            out.push(self.r.below(256) as u8);
            return;
        }
        let c = self.ch();
        out.extend(c)
    }
    fn reps(&mut self) -> usize {
        if self.p.big && self.r.chance(1, 3) {
            return self.r.range(5, 300);
        }
        match self.r.below(8) {
            0 => 0,
            1 | 2 => 1,
            3 | 4 => 2,
            5 => 3,
            6 => self.r.range(0, 6),
            _ => self.r.range(2, 9),
        }
    }
    /// A text for `num` whose value is `c`, if that can be seen to be possible.
    fn sample_number(&mut self, num: &Node, c: u64, out: &mut Vec<u8>, fuel: &mut u32) {
        match num.op {
            Op::Num => {
                let l = num_len(num.n[0]);
                let mut b = c.to_be_bytes()[8 - l..].to_vec();
                if num.n[0] % 2 == 1 {
                    b.reverse()
                }
                out.extend(b)
            }
            Op::FromStr => out.extend(format!("{}", c).bytes()),
            Op::Skip => {
                self.sample_number(&num.kids[0], c, out, fuel);
                self.sample(&num.kids[1], out, fuel)
            }
            Op::With => {
                self.sample(&num.kids[0], out, fuel);
                self.sample_number(&num.kids[1], c, out, fuel)
            }
            Op::Between => {
                self.sample(&num.kids[0], out, fuel);
                self.sample_number(&num.kids[2], c, out, fuel);
                self.sample(&num.kids[1], out, fuel)
            }
            Op::Zoo => self.sample_number(&num.kids[0], c, out, fuel),
            _ => self.sample(num, out, fuel),
        }
    }
    pub fn sample(&mut self, n: &Node, out: &mut Vec<u8>, fuel: &mut u32) {
        use Op::*;
        if *fuel == 0 {
            return;
        }
        *fuel -= 1;
        let k0 = n.n.first().copied().unwrap_or(0);
        match n.op {
            Any => self.rnd_char(out),
            Sat | SatMap => self.put_class(k0, out),
            ByMut => {
                for _ in 0..1 + self.reps() {
                    self.put_class(k0, out)
                }
            }
            Tok => out.extend(&n.s),
            OneOf => {
                let t: Vec<Vec<u8>> = chars(&n.s, self.m);
                let c = self.r.pick(&t).clone();
                out.extend(c)
            }
            NoneOf => {
                for _ in 0..4 {
                    let c = self.ch();
                    if !chars(&n.s, self.m).contains(&c) {
                        out.extend(c);
                        return;
                    }
                }
                out.push(b'z')
            }
            Tokens | Str | Range => out.extend(&n.s),
            TokensCmp | StrCmp => {
                let up = self.r.chance(1, 2);
                out.extend(n.s.iter().map(|b| if up { b.to_ascii_uppercase() } else { *b }))
            }
            Digit => out.push(*self.r.pick(b"0179")),
            Hex => out.push(*self.r.pick(b"0aF9")),
            Oct => out.push(*self.r.pick(b"07")),
            Letter | AlphaNum => out.push(*self.r.pick(b"abxA")),
            Upper => out.push(b'A'),
            Lower => out.push(*self.r.pick(b"abx")),
            Space => out.push(*self.r.pick(b" \n\t")),
            Spaces => {
                for _ in 0..self.reps() {
                    out.push(*self.r.pick(b" \n\t"))
                }
            }
            Newline => out.push(b'\n'),
            Tab => out.push(b'\t'),
            Crlf => out.extend(b"\r\n"),
            Eof | Value | Produce | Unexpected | Position | NotFollow => {}
            LookAhead => {
                if self.r.chance(1, 4) {
                    self.sample(&n.kids[0], out, fuel)
                }
            }
            Take => {
                let st = out.len();
                while out.len() < st + k0 as usize {
                    self.rnd_char(out)
                }
                if self.m == Mode::Bytes {
                    out.truncate(st + k0 as usize);
                }
            }
            TakeWhile | TakeWhile1 => {
                let k = self.reps() + (n.op == TakeWhile1) as usize;
                for _ in 0..k {
                    self.put_class(k0, out)
                }
            }
            TakeUntilRange | TakeFn | TakeUntilBytes => {
                for _ in 0..self.reps() {
                    // proper prefixes of the needle are the interesting filler
                    if self.r.chance(1, 2) && !n.s.is_empty() {
                        let c = chars(&n.s, self.m);
                        let k = self.r.below(c.len());
                        for x in &c[..k] {
                            out.extend(x)
                        }
                    } else {
                        self.rnd_char(out)
                    }
                }
            }
            TakeUntilByte => {
                for _ in 0..self.reps() {
                    out.push(*self.r.pick(b"xyz "))
                }
            }
            Num => {
                for _ in 0..num_len(k0) {
                    out.push(*self.r.pick(&[0u8, 1, b'a', b';', 255, 128]))
                }
            }
            LenPrefix => {
                let l = self.r.below(k0 as usize + 1);
                if n.kids[0].op == Digit {
                    // num() of a digit token is its code
                    let c = (b'0'..=b'9').find(|c| (*c as usize) % (k0 as usize + 1) == l).unwrap_or(b'0');
                    out.push(c);
                } else {
                    out.push(l as u8);
                }
                for _ in 0..l {
                    out.push(*self.r.pick(b"abx;"))
                }
            }
            CountN | TakeN => {
                // usually a small number that fits, sometimes an absurd one
                let c = if self.r.chance(3, 4) { self.r.below(5) as u64 } else { *self.r.pick(&[255u64, 256, 65535, 0xffff_ffff, 0x7fff_ffff_ffff_ffff, u64::MAX, u64::MAX / 2, 1 << 62, 300]) };
                self.sample_number(&n.kids[0], c, out, fuel);
                for _ in 0..if c < 5 { c as usize } else { self.reps() } {
                    if n.op == TakeN {
                        out.push(*self.r.pick(b"abx;"))
                    } else {
                        self.sample(&n.kids[1], out, fuel)
                    }
                }
            }
            FromStr => {
                for _ in 0..self.reps() + 1 {
                    out.push(*self.r.pick(b"0123456789"))
                }
            }
            Factory2 => {
                let i = self.r.below(2);
                self.sample(&n.kids[i], out, fuel)
            }
            Then | ThenPartial | ThenRef => {
                self.sample(&n.kids[0], out, fuel);
                let i = self.r.range(1, 2);
                self.sample(&n.kids[i], out, fuel)
            }
            Dispatch => {
                self.sample(&n.kids[0], out, fuel);
                let i = self.r.range(1, 3);
                self.sample(&n.kids[i], out, fuel)
            }
            Between => {
                for i in [0, 2, 1] {
                    self.sample(&n.kids[i], out, fuel)
                }
            }
            Or | Choice | ChoiceArr | ChoiceSlice => {
                if n.kids.is_empty() {
                    return;
                }
                let i = self.r.below(n.kids.len());
                self.sample(&n.kids[i], out, fuel)
            }
            Opt => {
                if self.r.chance(2, 3) {
                    self.sample(&n.kids[0], out, fuel)
                }
            }
            Count | SkipCount => {
                for _ in 0..self.r.below(k0 as usize + 2) {
                    self.sample(&n.kids[0], out, fuel)
                }
            }
            CountMM | SkipCountMM | CountSink => {
                let k = k0 as usize + self.r.below(n.n[1] as usize + 2);
                for _ in 0..k {
                    self.sample(&n.kids[0], out, fuel)
                }
            }
            Many | SkipMany | IterMany | Many1 | SkipMany1 => {
                for _ in 0..self.reps() + matches!(n.op, Many1 | SkipMany1) as usize {
                    self.sample(&n.kids[0], out, fuel)
                }
            }
            SepBy | SepBy1 | SepEndBy | SepEndBy1 | ChainL1 | ChainR1 => {
                let k = self.reps() + !matches!(n.op, SepBy | SepEndBy) as usize;
                for i in 0..k {
                    if i > 0 {
                        self.sample(&n.kids[1], out, fuel)
                    }
                    self.sample(&n.kids[0], out, fuel)
                }
                if k > 0 && matches!(n.op, SepEndBy | SepEndBy1) && self.r.chance(1, 2) {
                    self.sample(&n.kids[1], out, fuel)
                }
            }
            TakeUntil | SkipUntil => {
                for _ in 0..self.reps() {
                    self.rnd_char(out)
                }
                self.sample(&n.kids[0], out, fuel)
            }
            RepeatUntil | RepeatSkipUntil => {
                for _ in 0..self.reps() {
                    self.sample(&n.kids[0], out, fuel)
                }
                self.sample(&n.kids[1], out, fuel)
            }
            Escaped => {
                for _ in 0..self.reps() {
                    if self.r.chance(1, 2) {
                        self.sample(&n.kids[0], out, fuel)
                    } else {
                        out.push(b'\\');
                        self.sample(&n.kids[1], out, fuel)
                    }
                }
            }
            Iterate => {
                for i in n.n.clone() {
                    self.sample(&n.kids[i as usize % n.kids.len()], out, fuel)
                }
            }
            _ => {
                for k in &n.kids {
                    self.sample(k, out, fuel)
                }
            }
        }
    }
    /// An input of several messages, sometimes corrupted or truncated.
    pub fn input(&mut self, g: &Node, max: usize, corrupt: usize) -> Vec<u8> {
        let mut out = vec![];
        let k = 1 + self.r.below(4);
        for _ in 0..k {
            let mut fuel = if self.p.big { 3000 } else { 200 };
            let st = out.len();
            self.sample(g, &mut out, &mut fuel);
            if out.len() > max {
                if st > 0 {
                    out.truncate(st);
                }
                break;
            }
        }
        if self.r.chance(corrupt, 100) {
            for _ in 0..1 + self.r.below(2) {
                if out.is_empty() {
                    break;
                }
                let i = self.r.below(out.len());
                match self.r.below(5) {
                    0 => {
                        out.remove(i);
                    }
                    1 => {
                        let mut c = vec![];
                        self.rnd_char(&mut c);
                        let b = c[0];
                        out.insert(i, if b < 128 || self.m == Mode::Bytes { b } else { b'z' });
                    }
                    2 => out[i] = *self.r.pick(b"ab,;x0\n\r"),
                    3 => out.truncate(i),
                    _ => {
                        let mut c = vec![];
                        self.rnd_char(&mut c);
                        out.extend(c)
                    }
                }
            }
        }
        if self.r.chance(corrupt, 400) {
            out.clear();
            for _ in 0..self.r.below(12) {
                self.rnd_char(&mut out)
            }
        }
        out.truncate(max);
        if self.m.text() {
            out = fix_utf8(out);
        }
        out
    }
}
pub fn fix_utf8(v: Vec<u8>) -> Vec<u8> {
    match String::from_utf8(v) {
        Ok(s) => s.into_bytes(),
        Err(e) => String::from_utf8_lossy(e.as_bytes()).replace('\u{fffd}', "z").into_bytes(),
    }
}
pub fn chars(s: &[u8], m: Mode) -> Vec<Vec<u8>> {
    if m.text() {
        std::str::from_utf8(s).unwrap_or("?").chars().map(|c| c.to_string().into_bytes()).collect()
    } else {
        s.iter().map(|b| vec![*b]).collect()
    }
}

/// Whether the parser can succeed without consuming anything (conservative: may say yes when it cannot).
pub fn nullable(n: &Node) -> bool {
    use Op::*;
    let k0 = n.n.first().copied().unwrap_or(0);
    match n.op {
        Eof | Value | Produce | Position | Spaces | TakeWhile | TakeUntilRange | TakeFn | TakeUntilByte | TakeUntilBytes | LookAhead | NotFollow | Opt => true,
        Unexpected => false,
        Take => k0 == 0,
        Tokens | TokensCmp | Str | StrCmp | Range => n.s.is_empty(),
        Seq | And | With | Skip | Between | StructP | StructT => n.kids.iter().all(nullable),
        Then | ThenPartial | ThenRef => nullable(&n.kids[0]) && (nullable(&n.kids[1]) || nullable(&n.kids[2])),
        Dispatch => nullable(&n.kids[0]) && n.kids[1..].iter().any(nullable),
        Or | Choice | ChoiceArr | ChoiceSlice | Factory2 => n.kids.iter().any(nullable),
        Count | SkipCount | Many | SkipMany | IterMany | SepBy | SepEndBy => true,
        CountN | TakeN => nullable(&n.kids[0]),
        CountMM | SkipCountMM | CountSink => k0 == 0 || nullable(&n.kids[0]),
        TakeUntil | SkipUntil | RepeatUntil | RepeatSkipUntil | Escaped => true,
        Iterate => n.n.iter().all(|i| nullable(&n.kids[*i as usize % n.kids.len()])),
        LenPrefix => nullable(&n.kids[0]),
        _ if n.kids.is_empty() => false,
        _ => nullable(&n.kids[0]),
    }
}
