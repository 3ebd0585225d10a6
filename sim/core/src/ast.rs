//! Grammars as data: an S-expression tree that can be generated, executed by the real library (mk.rs),
//! executed by the reference model (refm.rs), minimised and written to a replay file.
use std::fmt::Write;

macro_rules! ops { ($($n:ident),* $(,)?) => {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum Op { $($n),* }
    impl Op {
        pub const ALL: &'static [Op] = &[$(Op::$n),*];
        pub fn name(self) -> &'static str { match self { $(Op::$n => stringify!($n)),* } }
        pub fn from_name(s: &str) -> Option<Op> { match s { $(stringify!($n) => Some(Op::$n),)* _ => None } }
    }
} }
ops! {
    // tokens
    Any, Sat, SatMap, Tok, OneOf, NoneOf, Tokens, TokensCmp, Str, StrCmp,
    Digit, Letter, AlphaNum, Hex, Oct, Upper, Lower, Space, Spaces, Newline, Crlf, Tab,
    Eof, Value, Produce, Unexpected, Position,
    // ranges and binary
    Range, Take, TakeWhile, TakeWhile1, TakeUntilRange, TakeFn, TakeUntilByte, TakeUntilBytes, Num,
    // sequencing
    Seq, And, With, Skip, Between, StructP, StructT, ParserM, Then, ThenPartial, ThenRef, LenPrefix,
    // mapping
    Map, MapInput, FlatMap, AndThen, FromStr, Message, Expected, Silent, Spanned,
    // choice
    Or, Choice, ChoiceArr, ChoiceSlice, Opt, Dispatch,
    // look-ahead and backtracking
    Attempt, LookAhead, NotFollow,
    // recognizers
    Recog, RecogRange, RecogVal,
    // state plumbing
    NoPartial, Lazy, Factory, Factory2, Opaque, Left, Right, FnParser, AnyState, AnySend, AnySendSync, ByMut,
    // repetition
    Count, SkipCount, CountMM, SkipCountMM, Many, Many1, SkipMany, SkipMany1,
    SepBy, SepBy1, SepEndBy, SepEndBy1, ChainL1, ChainR1, CountSink,
    TakeUntil, SkipUntil, RepeatUntil, RepeatSkipUntil, Escaped, Iterate, CountN, TakeN, IterMany,
    // a whole grammar as one nested expression; the child is its tree
    Zoo,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub s: Vec<u8>,
    pub n: Vec<u32>,
    pub kids: Vec<Node>,
}

pub fn esc(s: &[u8]) -> String {
    let mut o = String::new();
    for &b in s {
        match b {
            b'"' | b'\\' => {
                o.push('\\');
                o.push(b as char)
            }
            0x20..=0x7e => o.push(b as char),
            _ => {
                let _ = write!(o, "\\x{:02x}", b);
            }
        }
    }
    o
}
pub fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 1 < b.len() {
            if b[i + 1] == b'x' {
                o.push(u8::from_str_radix(&s[i + 2..i + 4], 16).unwrap_or(0));
                i += 4;
            } else {
                o.push(b[i + 1]);
                i += 2;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl Node {
    pub fn new(op: Op, s: &[u8], n: &[u32], kids: Vec<Node>) -> Node {
        Node { op, s: s.to_vec(), n: n.to_vec(), kids }
    }
    pub fn leaf(op: Op) -> Node {
        Node::new(op, b"", &[], vec![])
    }
    pub fn write(&self, o: &mut String) {
        o.push('(');
        o.push_str(self.op.name());
        if !self.s.is_empty() {
            let _ = write!(o, " \"{}\"", esc(&self.s));
        }
        for n in &self.n {
            let _ = write!(o, " {}", n);
        }
        for k in &self.kids {
            o.push(' ');
            k.write(o);
        }
        o.push(')');
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(t: &str) -> Result<Node, String> {
        let b = t.as_bytes();
        let mut i = 0;
        let n = parse_node(t, b, &mut i)?;
        Ok(n)
    }
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn any(&self, f: &mut dyn FnMut(&Node) -> bool) -> bool {
        f(self) || self.kids.iter().any(|k| k.any(f))
    }
    pub fn ops(&self, out: &mut Vec<Op>) {
        out.push(self.op);
        for k in &self.kids {
            k.ops(out)
        }
    }
    /// Gives every action node a distinct number so that the action log identifies who ran.
    pub fn number(&mut self, next: &mut u32) {
        if matches!(self.op, Op::Map | Op::MapInput) {
            // (what consumes nothing keeps no progress: its action may run again, so it has no number)
            if crate::gen::nullable(&self.kids[0]) {
                self.n = vec![0];
            } else {
                self.n = vec![*next];
                *next += 1;
            }
        }
        if self.op == Op::Zoo {
            return;
        }
        for k in &mut self.kids {
            k.number(next)
        }
    }
}

fn ws(b: &[u8], i: &mut usize) {
    while *i < b.len() && (b[*i] as char).is_whitespace() {
        *i += 1
    }
}
fn parse_node(t: &str, b: &[u8], i: &mut usize) -> Result<Node, String> {
    ws(b, i);
    if *i >= b.len() || b[*i] != b'(' {
        return Err(format!("expected ( at {}", i));
    }
    *i += 1;
    let st = *i;
    while *i < b.len() && (b[*i].is_ascii_alphanumeric()) {
        *i += 1
    }
    let op = Op::from_name(&t[st..*i]).ok_or(format!("bad op {}", &t[st..*i]))?;
    let mut n = Node::leaf(op);
    loop {
        ws(b, i);
        if *i >= b.len() {
            return Err("eof".into());
        }
        match b[*i] {
            b')' => {
                *i += 1;
                return Ok(n);
            }
            b'(' => n.kids.push(parse_node(t, b, i)?),
            b'"' => {
                let st = *i + 1;
                *i += 1;
                while b[*i] != b'"' {
                    if b[*i] == b'\\' {
                        *i += 1;
                    }
                    *i += 1;
                }
                n.s = unesc(&t[st..*i]);
                *i += 1;
            }
            c if c.is_ascii_digit() => {
                let st = *i;
                while *i < b.len() && b[*i].is_ascii_digit() {
                    *i += 1
                }
                n.n.push(t[st..*i].parse().map_err(|_| "num".to_string())?);
            }
            c => return Err(format!("unexpected {:?}", c as char)),
        }
    }
}

/// Values produced by grammars.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub enum V {
    #[default]
    U,
    T(u32),
    S(Vec<u8>),
    N(u64),
    L(Vec<V>),
    O(Option<Box<V>>),
}
impl V {
    pub fn show(&self) -> String {
        match self {
            V::U => "()".into(),
            V::T(c) => match char::from_u32(*c) {
                Some(ch) if (0x20..0x7f).contains(c) => format!("'{}'", ch),
                _ => format!("t{}", c),
            },
            V::S(s) => format!("\"{}\"", esc(s)),
            V::N(n) => format!("{}", n),
            V::L(l) => format!("[{}]", l.iter().map(|v| v.show()).collect::<Vec<_>>().join(" ")),
            V::O(None) => "none".into(),
            V::O(Some(v)) => format!("some({})", v.show()),
        }
    }
    /// A small number derived from the value, used by value-dependent grammars.
    pub fn num(&self) -> u64 {
        match self {
            V::U => 0,
            V::T(c) => *c as u64,
            V::S(s) => s.iter().map(|b| *b as u64).sum(),
            V::N(n) => *n,
            V::L(l) => l.iter().map(|v| v.num()).fold(l.len() as u64, |a, b| a.wrapping_mul(3).wrapping_add(b)),
            V::O(None) => 1,
            V::O(Some(v)) => v.num().wrapping_add(5),
        }
    }
    /// The number a length field stands for.
    pub fn big(&self) -> u64 {
        match self {
            V::S(s) => s.iter().fold(0, |a, b| a << 8 | *b as u64),
            v => v.num(),
        }
    }
    pub fn pred(&self, k: u32) -> bool {
        match k % 4 {
            0 => true,
            1 => self.num() % 2 == 0,
            2 => self.num() % 3 != 0,
            _ => self.num() % 5 != 1,
        }
    }
    /// Visits every byte/token in the value in input order.
    pub fn atoms(&self, out: &mut Vec<u32>) {
        match self {
            V::U | V::N(_) | V::O(None) => {}
            V::T(c) => out.push(*c),
            V::S(s) => out.extend(s.iter().map(|b| *b as u32)),
            V::L(l) => l.iter().for_each(|v| v.atoms(out)),
            V::O(Some(v)) => v.atoms(out),
        }
    }
}

/// Character classes used by `satisfy` / `take_while`.
pub const CLASSES: u32 = 8;
pub fn class(k: u32, c: u32) -> bool {
    let a = |x: char| c == x as u32;
    match k % CLASSES {
        0 => a('a'),
        1 => a('a') || a('b'),
        2 => (b'0' as u32..=b'9' as u32).contains(&c),
        3 => !a(','),
        4 => (b'a' as u32..=b'z' as u32).contains(&c),
        5 => !(a('x') || a('\n')),
        6 => a('a') || c == 0xe9 || c == 0xc3 || c == 0xa9,
        _ => !(a(';') || a(',') || a('\n')),
    }
}
