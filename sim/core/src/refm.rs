//! Reference model: an independent interpreter of grammar trees over a complete input. It is the executable
//! specification that the real one-shot parse and every simulated incremental run are compared with.
use crate::ast::{class, Node, Op, V};
use crate::mk::{lower, num_len, vhash};

#[derive(Clone, Debug)]
pub enum R {
    /// value, new position, committed?
    Ok(V, usize, bool),
    /// failed; committed?
    Err(bool),
    /// the interpreter ran out of fuel / grammar outside the model
    Stop,
}
use R::{Err, Ok, Stop};

pub struct M<'a> {
    pub toks: &'a [u32],
    /// byte offset of every token, plus the end
    pub offs: &'a [usize],
    pub bytes: &'a [u8],
    pub text: bool,
    /// 0: no positions, 1: token index, 2: line:column
    pub posmode: u8,
    /// position of token 0 (posmode 1: .0, posmode 2: line, column)
    pub base: (usize, usize),
    pub actions: Vec<(u32, u64)>,
    pub positions: Vec<String>,
    restart: u32,
    /// an alternative was abandoned after input had been streamed into a parser that cannot be restarted, or a
    /// recoverable failure was produced after progress: behaviour that is chunk-dependent by design
    pub soft: bool,
    pub fuel: u64,
    pub furthest: usize,
}

pub fn tokenize(b: &[u8], text: bool) -> (Vec<u32>, Vec<usize>) {
    let mut t = vec![];
    let mut o = vec![];
    if text {
        let s = std::str::from_utf8(b).expect("harness: text input must be utf-8");
        for (i, c) in s.char_indices() {
            t.push(c as u32);
            o.push(i);
        }
    } else {
        for (i, c) in b.iter().enumerate() {
            t.push(*c as u32);
            o.push(i);
        }
    }
    o.push(b.len());
    (t, o)
}

impl<'a> M<'a> {
    pub fn new(toks: &'a [u32], offs: &'a [usize], bytes: &'a [u8], text: bool, posmode: u8, base: (usize, usize)) -> M<'a> {
        M { toks, offs, bytes, text, posmode, base, actions: vec![], positions: vec![], restart: 0, soft: false, fuel: 200_000, furthest: 0 }
    }
    fn lit(&self, s: &[u8]) -> Vec<u32> {
        tokenize(s, self.text).0
    }
    pub fn pos_str(&self, p: usize) -> String {
        match self.posmode {
            1 => format!("{}", self.base.0 + p),
            2 => {
                let (mut l, mut c) = self.base;
                for t in &self.toks[..p] {
                    c += 1;
                    if *t == 10 {
                        l += 1;
                        c = 1;
                    }
                }
                format!("{}:{}", l, c)
            }
            _ => String::new(),
        }
    }
    /// Records that the parse had to look at token `i` (the end of input counts as one more token).
    fn touch(&mut self, i: usize) {
        self.furthest = self.furthest.max(i.min(self.toks.len()) + 1);
    }
    fn touch_bytes(&mut self, p: usize, n: usize) {
        if n == 0 {
            return;
        }
        let last = self.offs[p].saturating_add(n - 1);
        if last >= self.bytes.len() {
            self.touch(self.toks.len());
        } else {
            let i = match self.offs.binary_search(&last) {
                std::result::Result::Ok(i) => i,
                std::result::Result::Err(i) => i - 1,
            };
            self.touch(i);
        }
    }
    fn one(&mut self, p: usize, f: impl Fn(u32) -> bool) -> R {
        self.touch(p);
        match self.toks.get(p) {
            Some(&t) if f(t) => {
                Ok(V::T(t), p + 1, true)
            }
            _ => Err(false),
        }
    }
    fn literal(&mut self, p: usize, lit: &[u32], eq: impl Fn(u32, u32) -> bool) -> Option<(usize, bool)> {
        // Some((new pos, committed)) or None => failure; failure commit in self.lit_commit
        for (i, l) in lit.iter().enumerate() {
            self.touch(p + i);
            match self.toks.get(p + i) {
                Some(&t) if eq(*l, t) => {}
                _ => return None,
            }
        }
        Some((p + lit.len(), !lit.is_empty()))
    }
    fn lit_fail(&self, p: usize, lit: &[u32], eq: impl Fn(u32, u32) -> bool) -> R {
        // committed iff at least one token matched
        let first = matches!((lit.first(), self.toks.get(p)), (Some(l), Some(t)) if eq(*l, *t));
        Err(first)
    }
    fn at_byte(&self, p: usize, n: usize) -> Option<usize> {
        let target = self.offs[p].checked_add(n)?;
        self.offs.binary_search(&target).ok()
    }
    fn slice(&self, a: usize, b: usize) -> V {
        V::S(self.bytes[self.offs[a]..self.offs[b]].to_vec())
    }
    fn take(&mut self, p: usize, n: usize) -> R {
        self.touch_bytes(p, n);
        match self.at_byte(p, n) {
            Some(q) => Ok(self.slice(p, q), q, n > 0),
            None => Err(false),
        }
    }
    fn restartable(&mut self, n: &Node, p: usize) -> R {
        self.restart += 1;
        let r = self.eval(n, p);
        self.restart -= 1;
        r
    }
    /// Sequence without keeping values.
    fn seq2(&mut self, a: &Node, b: &Node, p: usize) -> (R, V) {
        match self.eval(a, p) {
            Ok(v, q, c) => match self.eval(b, q) {
                Ok(w, r, d) => (Ok(w, r, c || d), v),
                Err(d) => (Err(c || d), v),
                Stop => (Stop, v),
            },
            x => (x, V::U),
        }
    }
    fn reps(&mut self, n: &Node, p: usize, max: usize) -> Result<(Vec<V>, usize, bool), R> {
        let mut out = vec![];
        let (mut q, mut com) = (p, false);
        while out.len() < max {
            match self.eval(n, q) {
                Ok(v, r, c) => {
                    if r == q && max == usize::MAX {
                        return std::result::Result::Err(Stop); // would not terminate
                    }
                    out.push(v);
                    q = r;
                    com |= c;
                }
                Err(false) => break,
                Err(true) => return std::result::Result::Err(Err(true)),
                Stop => return std::result::Result::Err(Stop),
            }
        }
        std::result::Result::Ok((out, q, com))
    }

    pub fn eval(&mut self, n: &Node, p: usize) -> R {
        if self.fuel == 0 {
            return Stop;
        }
        self.fuel -= 1;
        use Op::*;
        let k0 = n.n.first().copied().unwrap_or(0);
        let k1 = n.n.get(1).copied().unwrap_or(0);
        let asc = |lo: u8, hi: u8| move |c: u32| (lo as u32..=hi as u32).contains(&c);
        match n.op {
            Any => self.one(p, |_| true),
            Sat => self.one(p, |c| class(k0, c)),
            SatMap => match self.one(p, |c| class(k0, c)) {
                Ok(V::T(t), q, c) => Ok(V::N(t as u64), q, c),
                x => x,
            },
            ByMut => {
                let mut q = p;
                while q < self.toks.len() && class(k0, self.toks[q]) {
                    q += 1
                }
                self.touch(q);
                if q == p {
                    return Err(false);
                }
                Ok(self.slice(p, q), q, true)
            }
            Tok => {
                let t = self.lit(&n.s)[0];
                self.one(p, |c| c == t)
            }
            OneOf => {
                let t = self.lit(&n.s);
                self.one(p, |c| t.contains(&c))
            }
            NoneOf => {
                let t = self.lit(&n.s);
                self.one(p, |c| !t.contains(&c))
            }
            Tokens | Str => {
                let l = self.lit(&n.s);
                match self.literal(p, &l, |a, b| a == b) {
                    Some((q, c)) => Ok(V::S(n.s.clone()), q, c),
                    None => self.lit_fail(p, &l, |a, b| a == b),
                }
            }
            TokensCmp | StrCmp => {
                let l = self.lit(&n.s);
                let eq = |a, b| lower(a) == lower(b);
                match self.literal(p, &l, eq) {
                    Some((q, c)) => Ok(V::S(n.s.clone()), q, c),
                    None => self.lit_fail(p, &l, eq),
                }
            }
            Digit => self.one(p, asc(b'0', b'9')),
            Hex => self.one(p, |c| asc(b'0', b'9')(c) || asc(b'a', b'f')(c) || asc(b'A', b'F')(c)),
            Oct => self.one(p, asc(b'0', b'7')),
            Letter | AlphaNum | Upper | Lower | Space => {
                let (op, text) = (n.op, self.text);
                self.one(p, |c| charclass(op, text, c))
            }
            Spaces => {
                let mut q = p;
                while q < self.toks.len() && charclass(Space, self.text, self.toks[q]) {
                    q += 1
                }
                self.touch(q);
                Ok(V::U, q, q > p)
            }
            Newline => self.one(p, |c| c == 10),
            Tab => self.one(p, |c| c == 9),
            Crlf => {
                self.touch(p);
                match (self.toks.get(p), self.toks.get(p + 1)) {
                    (Some(13), x) => {
                        let ok = x == Some(&10);
                        self.touch(p + 1);
                        if ok {
                            Ok(V::T(10), p + 2, true)
                        } else {
                            Err(true)
                        }
                    }
                    _ => Err(false),
                }
            }
            Eof => {
                self.touch(p);
                if p == self.toks.len() {
                    Ok(V::U, p, false)
                } else {
                    Err(false)
                }
            }
            Value | Produce => Ok(V::N(k0 as u64), p, false),
            Unexpected => Err(false),
            Position => {
                let s = self.pos_str(p);
                self.positions.push(s.clone());
                Ok(V::S(s.into_bytes()), p, false)
            }
            Range => {
                self.touch_bytes(p, n.s.len());
                match self.at_byte(p, n.s.len()) {
                    Some(q) if self.bytes[self.offs[p]..self.offs[q]] == n.s[..] => Ok(V::S(n.s.clone()), q, true),
                    _ => Err(false),
                }
            }
            Take => self.take(p, k0 as usize),
            TakeWhile | TakeWhile1 => {
                let mut q = p;
                while q < self.toks.len() && class(k0, self.toks[q]) {
                    q += 1
                }
                self.touch(q);
                if n.op == TakeWhile1 && q == p {
                    return Err(false);
                }
                Ok(self.slice(p, q), q, q > p)
            }
            TakeUntilRange | TakeUntilBytes | TakeFn => {
                let hay = &self.bytes[self.offs[p]..];
                let found = if n.s.is_empty() { Some(0) } else { hay.windows(n.s.len()).position(|w| w == &n.s[..]) };
                self.touch_bytes(p, found.map(|i| i + n.s.len()).unwrap_or(usize::MAX / 4));
                match found {
                    Some(i) => match self.at_byte(p, i) {
                        Some(q) => Ok(self.slice(p, q), q, i > 0),
                        None => Stop,
                    },
                    None => Err(n.op != TakeUntilRange && !hay.is_empty()),
                }
            }
            TakeUntilByte => {
                let hay = &self.bytes[self.offs[p]..];
                let found = hay.iter().position(|b| n.s.contains(b));
                self.touch_bytes(p, found.map(|i| i + 1).unwrap_or(usize::MAX / 4));
                match found {
                    Some(i) => match self.at_byte(p, i) {
                        Some(q) => Ok(self.slice(p, q), q, i > 0),
                        None => Stop,
                    },
                    None => Err(!hay.is_empty()),
                }
            }
            Num => {
                let l = num_len(k0);
                self.touch_bytes(p, l);
                if p + l > self.toks.len() {
                    return Err(false);
                }
                let mut b: Vec<u8> = self.toks[p..p + l].iter().map(|t| *t as u8).collect();
                if k0 % 2 == 1 {
                    b.reverse()
                }
                Ok(V::S(b), p + l, true)
            }
            Seq => {
                let mut vs = vec![];
                let (mut q, mut com) = (p, false);
                for k in &n.kids {
                    match self.eval(k, q) {
                        Ok(v, r, c) => {
                            vs.push(v);
                            q = r;
                            com |= c;
                        }
                        Err(c) => return Err(com || c),
                        Stop => return Stop,
                    }
                }
                Ok(V::L(vs), q, com)
            }
            And => match self.seq2(&n.kids[0], &n.kids[1], p) {
                (Ok(w, q, c), v) => Ok(V::L(vec![v, w]), q, c),
                (x, _) => x,
            },
            With => self.seq2(&n.kids[0], &n.kids[1], p).0,
            Skip => match self.seq2(&n.kids[0], &n.kids[1], p) {
                (Ok(_, q, c), v) => Ok(v, q, c),
                (x, _) => x,
            },
            Between | StructP | StructT => {
                let mut vs = vec![];
                let (mut q, mut com) = (p, false);
                // between(open, close, parser): kids are open, close, parser
                let order: &[usize] = if n.op == Between { &[0, 2, 1] } else { &[0, 1, 2] };
                for i in order {
                    match self.eval(&n.kids[*i], q) {
                        Ok(v, r, c) => {
                            vs.push(v);
                            q = r;
                            com |= c;
                        }
                        Err(c) => return Err(com || c),
                        Stop => return Stop,
                    }
                }
                if n.op == Between {
                    Ok(vs.swap_remove(1), q, com)
                } else {
                    let z = vs.pop().unwrap();
                    Ok(V::L(vec![vs.swap_remove(0), z]), q, com)
                }
            }
            ParserM | Lazy | Factory | Opaque | Left | Right | AnyState | AnySend | AnySendSync | Message | Expected | Silent | Spanned => self.eval(&n.kids[0], p),
            Factory2 => self.eval(&n.kids[crate::mk::by_pos(&self.pos_str(p))], p),
            NoPartial | FnParser => self.restartable(&n.kids[0], p),
            Then | ThenPartial | ThenRef | Dispatch => match self.eval(&n.kids[0], p) {
                Ok(v, q, c) => {
                    let i = if n.op == Dispatch {
                        1 + (v.num() % 3) as usize
                    } else if v.pred(k0) {
                        1
                    } else {
                        2
                    };
                    match self.eval(&n.kids[i], q) {
                        Ok(w, r, d) => Ok(if n.op == ThenRef { V::L(vec![v, w]) } else { w }, r, c || d),
                        Err(d) => Err(c || d),
                        Stop => Stop,
                    }
                }
                x => x,
            },
            LenPrefix => match self.eval(&n.kids[0], p) {
                Ok(v, q, c) => {
                    let len = (v.num() % (k0 as u64 + 1)) as usize;
                    match self.take(q, len) {
                        Ok(w, r, d) => Ok(w, r, c || d),
                        Err(d) => Err(c || d),
                        Stop => Stop,
                    }
                }
                x => x,
            },
            Zoo => self.eval(&n.kids[0], p),
            TakeN => match self.eval(&n.kids[0], p) {
                Ok(v, q, c) => match self.take(q, v.big() as usize) {
                    Ok(w, r, d) => Ok(w, r, c || d),
                    Err(d) => Err(c || d),
                    Stop => Stop,
                },
                x => x,
            },
            CountN => match self.eval(&n.kids[0], p) {
                Ok(v, q, c) => {
                    let max = v.big() as usize;
                    let min = match k0 % 5 {
                        0 | 4 => max,
                        2 => max / 2,
                        _ => 0,
                    };
                    match self.reps(&n.kids[1], q, max) {
                        std::result::Result::Ok((vs, r, d)) => {
                            if vs.len() < min {
                                if r > q && !c && !d && self.restart == 0 {
                                    self.soft = true;
                                }
                                return Err(c || d);
                            }
                            Ok(if k0 % 5 < 3 { V::L(vs) } else { V::U }, r, c || d)
                        }
                        std::result::Result::Err(Err(d)) => Err(c || d),
                        std::result::Result::Err(r) => r,
                    }
                }
                x => x,
            },
            IterMany => {
                self.restart += 1;
                let r = self.reps(&n.kids[0], p, usize::MAX);
                self.restart -= 1;
                match r {
                    std::result::Result::Ok((vs, q, c)) => Ok(V::L(vs), q, c),
                    std::result::Result::Err(r) => r,
                }
            }
            Map | MapInput => match self.eval(&n.kids[0], p) {
                Ok(v, q, c) => {
                    if k0 > 0 {
                        self.actions.push((k0, vhash(&v)));
                    }
                    Ok(v, q, c)
                }
                x => x,
            },
            FlatMap | AndThen => match self.eval(&n.kids[0], p) {
                Ok(v, q, c) => {
                    if v.pred(k0) {
                        Ok(v, q, c)
                    } else {
                        if q > p && !c && self.restart == 0 {
                            self.soft = true;
                        }
                        Err(c)
                    }
                }
                x => x,
            },
            FromStr => {
                let mut q = p;
                while q < self.toks.len() && asc(b'0', b'9')(self.toks[q]) {
                    q += 1
                }
                self.touch(q);
                if q == p {
                    return Err(false);
                }
                let s: String = self.toks[p..q].iter().map(|t| char::from_u32(*t).unwrap()).collect();
                match s.parse::<u64>() {
                    std::result::Result::Ok(x) => Ok(V::N(x), q, true),
                    _ => Err(true),
                }
            }
            Or | Choice | ChoiceArr | ChoiceSlice => {
                for k in &n.kids {
                    match self.eval(k, p) {
                        Err(false) => {}
                        x => return x,
                    }
                }
                Err(false)
            }
            Opt => match self.eval(&n.kids[0], p) {
                Ok(v, q, c) => Ok(V::O(Some(Box::new(v))), q, c),
                Err(false) => Ok(V::O(None), p, false),
                x => x,
            },
            Attempt => match self.eval(&n.kids[0], p) {
                Err(true) => {
                    if self.restart == 0 && !restartable(&n.kids[0]) {
                        self.soft = true;
                    }
                    Err(false)
                }
                x => x,
            },
            LookAhead => match self.restartable(&n.kids[0], p) {
                Ok(v, _, _) => Ok(v, p, false),
                x => x,
            },
            NotFollow => match self.restartable(&n.kids[0], p) {
                Ok(..) => Err(false),
                Err(_) => Ok(V::U, p, false),
                Stop => Stop,
            },
            Recog => match self.eval(&n.kids[0], p) {
                Ok(_, q, c) => Ok(V::L(self.toks[p..q].iter().map(|t| V::T(*t)).collect()), q, c),
                x => x,
            },
            RecogRange | RecogVal => match self.eval(&n.kids[0], p) {
                Ok(v, q, _) => {
                    let s = self.slice(p, q);
                    Ok(if n.op == RecogVal { V::L(vec![s, v]) } else { s }, q, q > p)
                }
                x => x,
            },
            Count | SkipCount | CountMM | SkipCountMM | CountSink => {
                let (min, max) = if matches!(n.op, Count | SkipCount) { (0, k0) } else { (k0, k0 + k1) };
                match self.reps(&n.kids[0], p, max as usize) {
                    std::result::Result::Ok((vs, q, c)) => {
                        if vs.len() < min as usize {
                            if q > p && !c && self.restart == 0 {
                                self.soft = true;
                            }
                            return Err(c);
                        }
                        let v = match n.op {
                            Count | CountMM => V::L(vs),
                            CountSink => V::N(vs.len() as u64),
                            _ => V::U,
                        };
                        Ok(v, q, c)
                    }
                    std::result::Result::Err(r) => r,
                }
            }
            Many | SkipMany => match self.reps(&n.kids[0], p, usize::MAX) {
                std::result::Result::Ok((vs, q, c)) => Ok(if n.op == Many { V::L(vs) } else { V::U }, q, c),
                std::result::Result::Err(r) => r,
            },
            Many1 | SkipMany1 => match self.eval(&n.kids[0], p) {
                Ok(v, q, c) => match self.reps(&n.kids[0], q, usize::MAX) {
                    std::result::Result::Ok((mut vs, r, d)) => {
                        vs.insert(0, v);
                        Ok(if n.op == Many1 { V::L(vs) } else { V::U }, r, c || d)
                    }
                    std::result::Result::Err(r) => r,
                },
                x => x,
            },
            SepBy | SepBy1 => match self.eval(&n.kids[0], p) {
                Ok(v, mut q, mut c) => {
                    let mut vs = vec![v];
                    loop {
                        match self.seq2(&n.kids[1], &n.kids[0], q).0 {
                            Ok(v, r, d) => {
                                if r == q {
                                    return Stop;
                                }
                                vs.push(v);
                                q = r;
                                c |= d;
                            }
                            Err(false) => return Ok(V::L(vs), q, c),
                            Err(true) => return Err(true),
                            Stop => return Stop,
                        }
                    }
                }
                Err(false) if n.op == SepBy => Ok(V::L(vec![]), p, false),
                x => x,
            },
            SepEndBy | SepEndBy1 => match self.eval(&n.kids[0], p) {
                Ok(v, mut q, mut c) => {
                    let mut vs = vec![v];
                    loop {
                        match self.eval(&n.kids[1], q) {
                            Ok(_, r, d) => match self.eval(&n.kids[0], r) {
                                Ok(v, r2, e) => {
                                    if r2 == q {
                                        return Stop;
                                    }
                                    vs.push(v);
                                    q = r2;
                                    c |= d || e;
                                }
                                Err(false) => return Ok(V::L(vs), r, c || d),
                                Err(true) => return Err(true),
                                Stop => return Stop,
                            },
                            Err(false) => return Ok(V::L(vs), q, c),
                            Err(true) => return Err(true),
                            Stop => return Stop,
                        }
                    }
                }
                Err(false) if n.op == SepEndBy => Ok(V::L(vec![]), p, false),
                x => x,
            },
            ChainL1 => match self.eval(&n.kids[0], p) {
                Ok(mut l, mut q, mut c) => loop {
                    match self.seq2(&n.kids[1], &n.kids[0], q) {
                        (Ok(r, q2, d), op) => {
                            if q2 == q {
                                return Stop;
                            }
                            l = V::L(vec![l, op, r]);
                            q = q2;
                            c |= d;
                        }
                        (Err(false), _) => return Ok(l, q, c),
                        (Err(true), _) => return Err(true),
                        (Stop, _) => return Stop,
                    }
                },
                x => x,
            },
            ChainR1 => match self.eval(&n.kids[0], p) {
                Ok(mut l, mut q, mut c) => loop {
                    let (op, q1) = match self.eval(&n.kids[1], q) {
                        Ok(op, q1, d) => {
                            c |= d;
                            (op, q1)
                        }
                        Err(false) => return Ok(l, q, c),
                        x => return x,
                    };
                    match self.eval(n, q1) {
                        Ok(r, q2, d) => {
                            if q2 == q {
                                return Stop;
                            }
                            l = V::L(vec![l, op, r]);
                            q = q2;
                            c |= d;
                        }
                        // quirk of the library: the operator stays consumed
                        Err(false) => return Ok(l, q1, c),
                        x => return x,
                    }
                },
                x => x,
            },
            TakeUntil | SkipUntil => {
                let mut q = p;
                loop {
                    match self.eval(&n.kids[0], q) {
                        Ok(_, _, c) => {
                            let v = if n.op == TakeUntil { V::L(self.toks[p..q].iter().map(|t| V::T(*t)).collect()) } else { V::U };
                            return Ok(v, q, c || q > p);
                        }
                        Err(false) => {
                            self.touch(q);
                            if q >= self.toks.len() {
                                if q > p && self.restart == 0 {
                                    self.soft = true;
                                }
                                return Err(false);
                            }
                            q += 1;
                        }
                        x => return x,
                    }
                }
            }
            RepeatUntil | RepeatSkipUntil => {
                let (mut q, mut c, mut vs) = (p, false, vec![]);
                loop {
                    match self.eval(&n.kids[1], q) {
                        Ok(_, _, d) => return Ok(if n.op == RepeatUntil { V::L(vs) } else { V::U }, q, c || d),
                        Err(false) => match self.eval(&n.kids[0], q) {
                            Ok(v, r, d) => {
                                if r == q {
                                    return Stop;
                                }
                                vs.push(v);
                                q = r;
                                c |= d;
                            }
                            Err(false) => {
                                if q > p && self.restart == 0 {
                                    self.soft = true;
                                }
                                return Err(false);
                            }
                            x => return x,
                        },
                        x => return x,
                    }
                }
            }
            Escaped => {
                let esc = self.lit(&n.s)[0];
                let (mut q, mut c) = (p, false);
                loop {
                    match self.eval(&n.kids[0], q) {
                        Ok(_, r, d) => {
                            if r == q {
                                return Stop;
                            }
                            q = r;
                            c |= d;
                        }
                        Err(false) => {
                            self.touch(q);
                            if self.toks.get(q) == Some(&esc) {
                                match self.eval(&n.kids[1], q + 1) {
                                    Ok(_, r, d) => {
                                        q = r;
                                        c |= d;
                                    }
                                    Stop => return Stop,
                                    _ => return Err(true),
                                }
                            } else {
                                return Ok(V::U, q, c);
                            }
                        }
                        x => return x,
                    }
                }
            }
            Iterate => {
                let (mut q, mut c, mut vs) = (p, false, vec![]);
                for i in &n.n {
                    match self.eval(&n.kids[*i as usize % n.kids.len()], q) {
                        Ok(v, r, d) => {
                            vs.push(v);
                            q = r;
                            c |= d;
                        }
                        Err(d) => {
                            return Err(c || d);
                        }
                        Stop => return Stop,
                    }
                }
                Ok(V::L(vs), q, c)
            }
        }
    }
}
pub fn charclass(op: Op, text: bool, c: u32) -> bool {
    if text {
        let ch = match char::from_u32(c) {
            Some(c) => c,
            None => return false,
        };
        return match op {
            Op::Letter => ch.is_alphabetic(),
            Op::AlphaNum => ch.is_alphanumeric(),
            Op::Upper => ch.is_uppercase(),
            Op::Lower => ch.is_lowercase(),
            _ => ch.is_whitespace(),
        };
    }
    let b = c as u8;
    match op {
        Op::Letter => b.is_ascii_alphabetic(),
        Op::AlphaNum => b.is_ascii_alphanumeric(),
        Op::Upper => b.is_ascii_uppercase(),
        Op::Lower => b.is_ascii_lowercase(),
        _ => b.is_ascii_whitespace(),
    }
}
/// Parsers that consume nothing until they have everything they need, so that abandoning them later is possible.
pub fn restartable(n: &Node) -> bool {
    use Op::*;
    match n.op {
        NoPartial | FnParser | ByMut | LookAhead | NotFollow | IterMany | LenPrefix => true,
        TakeN => n.n.first().map_or(true, |k| k % 2 == 0),
        Any | Sat | SatMap | Tok | OneOf | NoneOf | Eof | Value | Produce | Unexpected | Position | Range | Take | TakeWhile | TakeWhile1
        | TakeUntilRange | TakeFn | TakeUntilByte | TakeUntilBytes | Num | Crlf | Digit | Letter | AlphaNum | Hex | Oct | Upper | Lower | Space | Newline
        | Tab | ChainR1 => true,
        ParserM | Lazy | Factory | Opaque | Left | Right | AnyState | AnySend | AnySendSync | Message | Expected | Silent | Spanned | Map | MapInput | FlatMap
        | AndThen | Opt | Attempt => restartable(&n.kids[0]),
        Factory2 => n.kids.iter().all(restartable),
        RecogRange | RecogVal | Zoo => restartable(&n.kids[0]),
        _ => false,
    }
}
