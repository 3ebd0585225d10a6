//! A simulated case (everything one run depends on), its replay-file form, and the generic minimiser.
use crate::ast::{esc, unesc, Node};
use crate::mem::{is_text, shrink_bytes, shrink_node, valid, STREAMS};
use std::collections::BTreeMap;
use std::fmt::Write;

pub type Ev = (u8, u32);

/// One session: a grammar, the bytes its source holds, the schedule of that source and what is done with it.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Part {
    pub stream: usize,
    pub flav: u64,
    pub cap: u64,
    pub g: Option<Node>,
    pub input: Vec<u8>,
    pub ev: Vec<Ev>,
    pub ops: Vec<Ev>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
    pub kind: String,
    pub parts: Vec<Part>,
    pub order: Vec<u32>,
    pub opt: BTreeMap<String, u64>,
}

fn evs(e: &[Ev]) -> String {
    e.iter().map(|(a, b)| format!("{}:{}", a, b)).collect::<Vec<_>>().join(" ")
}
fn pevs(s: &str) -> Vec<Ev> {
    s.split_whitespace().filter_map(|x| x.split_once(':').map(|(a, b)| (a.parse().unwrap_or(0), b.parse().unwrap_or(0)))).collect()
}

impl Case {
    pub fn o(&self, k: &str) -> u64 {
        self.opt.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: u64) {
        self.opt.insert(k.to_string(), v);
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "kind {}", self.kind);
        for p in &self.parts {
            let _ = writeln!(s, "part");
            let _ = writeln!(s, " stream {}", STREAMS[p.stream]);
            let _ = writeln!(s, " flav {}", p.flav);
            let _ = writeln!(s, " cap {}", p.cap);
            if let Some(g) = &p.g {
                let _ = writeln!(s, " g {}", g.text());
            }
            let _ = writeln!(s, " input \"{}\"", esc(&p.input));
            let _ = writeln!(s, " ev {}", evs(&p.ev));
            let _ = writeln!(s, " ops {}", evs(&p.ops));
        }
        let _ = writeln!(s, "order {}", self.order.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        for (k, v) in &self.opt {
            let _ = writeln!(s, "opt {}={}", k, v);
        }
        s
    }
    pub fn parse(t: &str) -> Result<Case, String> {
        let mut c = Case::default();
        for l in t.lines() {
            let l = l.trim();
            let (k, v) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "kind" => c.kind = v.into(),
                "part" => c.parts.push(Part::default()),
                "order" => c.order = v.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect(),
                "opt" => {
                    if let Some((a, b)) = v.split_once('=') {
                        c.set(a, b.parse().unwrap_or(0))
                    }
                }
                "stream" | "flav" | "cap" | "g" | "input" | "ev" | "ops" => {
                    let p = c.parts.last_mut().ok_or("no part")?;
                    match k {
                        "stream" => p.stream = STREAMS.iter().position(|s| *s == v).ok_or("bad stream")?,
                        "flav" => p.flav = v.parse().map_err(|_| "flav")?,
                        "cap" => p.cap = v.parse().map_err(|_| "cap")?,
                        "g" => p.g = Some(Node::parse(v)?),
                        "input" => p.input = unesc(v.trim().trim_start_matches('"').strip_suffix('"').unwrap_or("")),
                        "ev" => p.ev = pevs(v),
                        _ => p.ops = pevs(v),
                    }
                }
                _ => {}
            }
        }
        Ok(c)
    }
    pub fn size(&self) -> usize {
        self.parts.iter().map(|p| p.g.as_ref().map_or(0, |g| g.size() * 10) + p.input.len() * 2 + p.ev.len() + p.ops.len()).sum()
    }
}

fn shrink_evs(e: &[Ev]) -> Vec<Vec<Ev>> {
    let mut out = vec![];
    let n = e.len();
    let mut w = n;
    while w >= 1 {
        let mut i = 0;
        while i + w <= n {
            let mut x = e[..i].to_vec();
            x.extend_from_slice(&e[i + w..]);
            out.push(x);
            i += w;
        }
        w /= 2;
    }
    // merge neighbouring deliveries
    for i in 0..n.saturating_sub(1) {
        if e[i].0 == 0 && e[i + 1].0 == 0 {
            let mut x = e.to_vec();
            x[i].1 += x[i + 1].1;
            x.remove(i + 1);
            out.push(x);
        }
    }
    for i in 0..n {
        if e[i].0 > 0 {
            let mut x = e.to_vec();
            x[i].0 = 0;
            out.push(x);
        }
        for v in [0, 1, e[i].1 / 2, e[i].1.saturating_sub(1)] {
            if v < e[i].1 {
                let mut x = e.to_vec();
                x[i].1 = v;
                out.push(x);
            }
        }
    }
    out
}

/// Candidates one step smaller.
pub fn candidates(c: &Case, out: &mut Vec<Case>) {
    if c.parts.len() > 1 && c.kind != "look" {
        for i in 0..c.parts.len() {
            let mut d = c.clone();
            d.parts.remove(i);
            d.order.retain(|x| *x as usize != i);
            d.order.iter_mut().for_each(|x| {
                if *x as usize > i {
                    *x -= 1
                }
            });
            out.push(d);
        }
    }
    if !c.order.is_empty() {
        for w in [c.order.len(), c.order.len() / 2, 1] {
            let mut i = 0;
            while w > 0 && i + w <= c.order.len() {
                let mut d = c.clone();
                d.order.drain(i..i + w);
                out.push(d);
                i += w;
            }
        }
    }
    for i in 0..c.parts.len() {
        let p = &c.parts[i];
        let mut with = |q: Part| {
            let mut d = c.clone();
            d.parts[i] = q;
            out.push(d);
        };
        let simple = if is_text(p.stream) { 3 } else { 0 };
        if p.stream != simple {
            with(Part { stream: simple, ..p.clone() });
        }
        if let Some(g) = &p.g {
            let mut gs = vec![];
            shrink_node(g, &mut gs);
            gs.sort_by_key(|g| g.size());
            for g in gs {
                if valid(&g) && !crate::gen::nullable(&g) {
                    with(Part { g: Some(g), ..p.clone() });
                }
            }
        }
        for input in shrink_bytes(&p.input, is_text(p.stream)) {
            with(Part { input, ..p.clone() });
        }
        for ev in shrink_evs(&p.ev) {
            with(Part { ev, ..p.clone() });
        }
        for ops in shrink_evs(&p.ops) {
            with(Part { ops, ..p.clone() });
        }
        for f in [0, p.flav.saturating_sub(1)] {
            if f < p.flav {
                with(Part { flav: f, ..p.clone() });
            }
        }
        for cap in [0, p.cap / 2, p.cap.saturating_sub(1)] {
            if cap < p.cap {
                with(Part { cap, ..p.clone() });
            }
        }
    }
    for (k, v) in &c.opt {
        for w in [0, v / 2, v.saturating_sub(1)] {
            if w < *v {
                let mut d = c.clone();
                d.opt.insert(k.clone(), w);
                out.push(d);
            }
        }
    }
}

/// Greedy minimisation: keeps the first smaller case that still fails the same way.
pub fn minimise(mut c: Case, fails: &mut dyn FnMut(&Case) -> bool, mut budget: usize) -> Case {
    loop {
        let mut cands = vec![];
        candidates(&c, &mut cands);
        let mut hit = false;
        for k in cands {
            if budget == 0 {
                return c;
            }
            budget -= 1;
            if k != c && fails(&k) {
                c = k;
                hit = true;
                break;
            }
        }
        if !hit {
            return c;
        }
    }
}
