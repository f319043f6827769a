//! Random grammars and inputs.
use crate::gram::*;
use crate::util::{long, spice, Rng};

#[derive(Clone)]
pub struct Opt {
    pub mode: Mode,
    pub rules: usize,
    pub depth: usize,
    pub valid: bool,
    pub cache: bool,
    pub raw: bool,
    pub choice: bool,
    pub wrap: bool,
    pub back_refs: bool,
    /// wide or deep grammars on long inputs
    pub big: bool,
}
pub fn opt(mode: Mode) -> Opt {
    Opt { mode, rules: 1, depth: 3, valid: false, cache: false, raw: false, choice: true, wrap: true, back_refs: false, big: false }
}
pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub o: Opt,
    pub key: usize,
    pub rule: usize,
    pub in_raw: bool,
    pub node: u8,
    known: Vec<&'static str>,
}
pub const WORDS: [&str; 14] = ["a", "b", "ab", "ba", "aa", "aab", "\n", "bb", "a", "ab", "A", "\r\n", "\0", "\u{e9}"];
impl<'a> Gen<'a> {
    pub fn val(&mut self) -> Option<u8> {
        if self.r.chance(2, 3) {
            self.node = 1 + (self.node % 200);
            Some(self.node)
        } else {
            None
        }
    }
    fn kinds(&mut self) -> Vec<i8> {
        let all: &[i8] = if self.in_raw { &[1, 2, 3, -1, -2] } else { &[1, 2, 3] };
        let n = 1 + self.r.below(3);
        let mut v: Vec<i8> = vec![];
        for _ in 0..n {
            let k = *self.r.pick(all);
            if !v.contains(&k) {
                v.push(k);
            }
        }
        v
    }
    fn words(&mut self) -> Vec<(&'static str, Option<u8>)> {
        let n = 1 + self.r.below(4);
        let mut v: Vec<(&'static str, Option<u8>)> = vec![];
        for _ in 0..n {
            let w = *self.r.pick(&WORDS);
            if !v.iter().any(|x| x.0 == w) {
                let b = self.val();
                v.push((w, b));
            }
        }
        if self.r.chance(1, 8) {
            let b = self.val();
            let at = self.r.below(v.len() + 1);
            v.insert(at, ("", b));
        }
        v
    }
    pub fn terminal(&mut self) -> G {
        if self.r.chance(1, 14) {
            let v = self.val();
            return G::Eof(v);
        }
        if self.r.chance(1, 14) {
            return G::Null(self.r.chance(1, 2));
        }
        let v = self.val();
        if self.o.mode == Mode::L {
            if self.o.big && self.r.chance(1, 2) {
                let w = self.big_words();
                return if self.r.chance(1, 2) { G::ConstSet(w) } else { G::Punct(w) };
            }
            match self.r.below(6) {
                0 | 1 => G::Const(self.r.pick(&WORDS), v),
                2 => G::ConstSet(self.words()),
                3 => G::Punct(self.words()),
                _ => G::Re(self.r.below(RES.len()), v),
            }
        } else {
            let mut k = self.kinds();
            if self.o.big && self.r.chance(1, 2) {
                // large sets: kinds no text has
                let f = self.r.below(20) as i8;
                for x in 40..60 + f {
                    let at = self.r.below(k.len() + 1);
                    k.insert(at, x);
                }
            }
            match self.r.below(6) {
                0 => G::TokSetV(k, v),
                1 | 2 => G::TokSet(k.into_iter().map(|t| (t, self.val())).collect()),
                _ => G::Tok(k[0], v),
            }
        }
    }
    pub fn many(&mut self, d: usize, lo: usize, hi: usize) -> Vec<G> {
        let n = lo + self.r.below(hi - lo + 1);
        (0..n).map(|_| self.gen(d)).collect()
    }
    fn boxed(&mut self, d: usize) -> Box<G> {
        Box::new(self.gen(d))
    }
    pub fn gen(&mut self, d: usize) -> G {
        if d == 0 || self.r.chance(1, 6) {
            if self.o.rules > 1 && self.r.chance(1, 3) {
                if let Some(g) = self.reference() {
                    return g;
                }
            }
            return self.terminal();
        }
        let d = d - 1;
        loop {
            return match self.r.below(20) {
                0..=2 => G::Concat(self.many(d, 1, 3)),
                3..=5 if self.o.choice => G::Union(self.many(d, 1, 3)),
                6 | 7 if self.o.choice => {
                    let l = self.boxed(d);
                    let n = 1 + self.r.below(2);
                    let s = (0..n)
                        .map(|_| {
                            self.node = 1 + (self.node % 200);
                            let v = self.node;
                            (self.gen(d), v)
                        })
                        .collect();
                    G::Suf(l, self.r.chance(1, 2), s)
                }
                8 => G::List(self.boxed(d)),
                9 => G::Sep(self.boxed(d), self.boxed(d), self.r.chance(1, 3)),
                10 => G::Opt(self.boxed(d)),
                11 => G::OptH(self.boxed(d)),
                12 if self.o.wrap => {
                    self.node = 1 + (self.node % 200);
                    G::Node(self.boxed(d), self.node)
                }
                13 if self.o.wrap => G::Hidden(self.boxed(d)),
                14 if self.o.wrap => {
                    let v = self.val();
                    G::Look(self.boxed(d), v)
                }
                15 if self.o.valid => {
                    let id = self.r.below(7);
                    let g = self.gen(d);
                    G::Valid(Box::new(g), id)
                }
                16 if self.o.cache && !self.in_raw => {
                    self.key += 1;
                    let k = self.key;
                    G::Cache(self.boxed(d), k)
                }
                17 if self.o.raw && !self.in_raw => {
                    self.in_raw = true;
                    let g = self.boxed(d);
                    self.in_raw = false;
                    G::NonStr(g, self.r.chance(1, 2))
                }
                18 if self.o.raw && self.in_raw => {
                    self.in_raw = false;
                    let g = self.boxed(d);
                    self.in_raw = true;
                    G::Str(g)
                }
                _ => continue,
            };
        }
    }
    fn reference(&mut self) -> Option<G> {
        let (lo, hi) = if self.o.back_refs { (0, self.o.rules) } else { (self.rule + 1, self.o.rules) };
        if lo >= hi {
            return None;
        }
        let j = lo + self.r.below(hi - lo);
        if self.o.cache && !self.in_raw && self.r.chance(3, 4) {
            Some(G::Cache(Box::new(G::Ref(j)), 1000 + j))
        } else {
            Some(G::Ref(j))
        }
    }
    pub fn grammar(&mut self) -> Grammar {
        let mut rules = vec![];
        for i in 0..self.o.rules {
            self.rule = i;
            self.in_raw = self.o.mode == Mode::R;
            let d = if i == 0 { self.o.depth } else { 2.min(self.o.depth) };
            let g = if i == 0 && self.o.big { self.wide() } else { self.gen(d) };
            rules.push(Some(g));
        }
        Grammar { rules }
    }
    /// one construct with many parts, many repetitions or many levels
    pub fn wide(&mut self) -> G {
        let n = 6 + self.r.below(40);
        loop {
            return match self.r.below(10) {
                0 | 1 => G::List(self.boxed(2)),
                2 => {
                    let s = Box::new(self.terminal());
                    G::Sep(self.boxed(1), s, self.r.chance(1, 3))
                }
                3 => G::Concat(
                    (0..n)
                        .map(|_| match self.r.below(4) {
                            0 => self.gen(1),
                            1 => G::Opt(self.boxed(1)),
                            _ => G::OptH(self.boxed(1)),
                        })
                        .collect(),
                ),
                4 if self.o.choice => G::List(Box::new(G::Union(self.many(1, 2, 4)))),
                5 if self.o.choice && self.r.chance(1, 2) => G::Union(self.many(1, 6, 40)),
                5 if self.o.choice => G::Union(self.skewed()),
                6 if self.o.choice => {
                    let l = self.boxed(1);
                    let p = if self.r.chance(1, 2) { self.skewed() } else { (0..n).map(|_| self.gen(1)).collect() };
                    let s = p
                        .into_iter()
                        .map(|x| {
                            self.node = 1 + (self.node % 200);
                            (x, self.node)
                        })
                        .collect();
                    G::Suf(l, self.r.chance(1, 2), s)
                }
                7 => G::Concat(vec![G::List(self.boxed(1)), self.gen(1), G::Opt(self.boxed(1))]),
                8 => self.terminal(),
                _ if self.o.wrap => {
                    let mut x = self.gen(1);
                    for _ in 0..n {
                        let b = Box::new(x);
                        x = match self.r.below(9) {
                            0 | 1 => {
                                self.node = 1 + (self.node % 200);
                                G::Node(b, self.node)
                            }
                            2 | 3 => {
                                let t = self.terminal();
                                G::Concat(vec![G::OptH(Box::new(t)), *b])
                            }
                            4 if self.o.choice => {
                                let t = self.terminal();
                                G::Union(vec![t, *b])
                            }
                            5 if self.o.cache && !self.in_raw => {
                                self.key += 1;
                                G::Cache(b, self.key)
                            }
                            6 if self.o.valid => G::Valid(b, self.r.below(7)),
                            7 => G::Opt(b),
                            _ => {
                                let t = self.terminal();
                                G::Concat(vec![t, *b])
                            }
                        };
                    }
                    x
                }
                _ => continue,
            };
        }
    }
    /// many alternatives that share one beginning, then a few others: those are reached only at a high index
    pub fn skewed(&mut self) -> Vec<G> {
        let t = self.terminal();
        let n = 6 + self.r.below(75);
        let mut v: Vec<G> = (0..n)
            .map(|_| match self.r.below(3) {
                0 => t.clone(),
                _ => G::Concat(vec![t.clone(), self.terminal()]),
            })
            .collect();
        for _ in 0..1 + self.r.below(4) {
            v.push(if self.r.chance(2, 3) { self.terminal() } else { self.gen(1) });
        }
        v
    }
    fn big_words(&mut self) -> Vec<(&'static str, Option<u8>)> {
        let n = 6 + self.r.below(30);
        let mut v: Vec<(&'static str, Option<u8>)> = vec![];
        for _ in 0..n {
            let k = long(self.r, 9);
            let w: String = (0..k).map(|_| *self.r.pick(&['a', 'a', 'b'])).collect();
            if !v.iter().any(|x| x.0 == w) {
                let b = self.val();
                let w: &'static str = Box::leak(w.into_boxed_str());
                if v.len() < 3 || w.len() > 9 {
                    self.known.push(w);
                }
                v.push((w, b));
            }
        }
        v
    }
    fn big_env(&mut self) -> Env {
        let n = 10 + self.r.below(120);
        let p = 1 + self.r.below(3);
        if self.o.mode == Mode::L {
            let w: Vec<u8> = (0..p).map(|_| *self.r.pick(b"aab\n")).collect();
            let mut c: Vec<u8> = (0..n).map(|i| if self.r.chance(1, 30) { *self.r.pick(b"ab\n") } else { w[i % p] }).collect();
            if !self.known.is_empty() {
                for k in 0..2 {
                    let at = if k == 0 { 0 } else { self.r.below(c.len() + 1) };
                    let w = *self.r.pick(&self.known);
                    c.splice(at..at, w.bytes());
                }
            }
            return Env::text(&spice(self.r, c));
        }
        let w: Vec<i8> = (0..p).map(|_| *self.r.pick(&[1, 1, 2, 3, -1])).collect();
        let k: Vec<i8> = (0..n).map(|i| if self.r.chance(1, 30) { *self.r.pick(&[1, 2, 3, -1, -2]) } else { w[i % p] }).collect();
        Env::tokens(self.o.mode, &k)
    }
    pub fn env(&mut self) -> Env {
        if self.o.big && self.r.chance(2, 3) {
            return self.big_env();
        }
        match self.o.mode {
            Mode::L => {
                let n = self.r.below(8);
                let c: Vec<u8> = (0..n).map(|_| *self.r.pick(b"aaabbb\n")).collect();
                Env::text(&spice(self.r, c))
            }
            m => {
                let n = self.r.below(7);
                let sparse = self.r.chance(1, 2);
                let k: Vec<i8> =
                    (0..n).map(|_| if sparse { *self.r.pick(&[1, 2, 3, -1, -2]) } else { *self.r.pick(&[1, 1, 2, 3, -1]) }).collect();
                let e = Env::tokens(m, &k);
                if self.r.chance(1, 10) {
                    e.stretch(self.r)
                } else {
                    e
                }
            }
        }
    }
}
pub fn gen<'a>(r: &'a mut Rng, o: Opt) -> Gen<'a> {
    let mut o = o;
    o.big = r.chance(1, 40);
    if o.big && o.rules > 1 && r.chance(1, 3) {
        o.rules += r.below(10);
    }
    Gen { r, o, key: 0, rule: 0, in_raw: false, node: 0, known: vec![] }
}

/// reaches itself at the same position; `leftrec(gr, through)` counts a symbol as passed over when `through` says so
pub fn left_rec(gr: &Grammar, pass: &dyn Fn(&G) -> bool) -> Option<usize> {
    fn lefts(g: &G, pass: &dyn Fn(&G) -> bool, out: &mut Vec<usize>) {
        match g {
            G::Ref(i) => out.push(*i),
            G::Concat(v) => {
                for x in v {
                    lefts(x, pass, out);
                    if !pass(x) {
                        break;
                    }
                }
            }
            G::Union(v) => v.iter().for_each(|x| lefts(x, pass, out)),
            G::Suf(l, _, v) => {
                lefts(l, pass, out);
                if pass(l) {
                    v.iter().for_each(|x| lefts(&x.0, pass, out));
                }
            }
            G::Sep(x, s, _) => {
                lefts(x, pass, out);
                if pass(x) {
                    lefts(s, pass, out);
                    // after an empty element and an empty separator the element again: the element is a left anyway
                }
            }
            G::List(x)
            | G::Opt(x)
            | G::OptH(x)
            | G::Node(x, _)
            | G::Hidden(x)
            | G::Look(x, _)
            | G::NonStr(x, _)
            | G::Str(x)
            | G::Cache(x, _)
            | G::Valid(x, _)
            | G::Count(x, _) => lefts(x, pass, out),
            _ => {}
        }
    }
    let n = gr.rules.len();
    let edges: Vec<Vec<usize>> = gr
        .rules
        .iter()
        .map(|r| {
            let mut o = vec![];
            if let Some(g) = r {
                lefts(g, pass, &mut o);
            }
            o
        })
        .collect();
    let live = reachable(gr);
    for s in 0..n {
        if !live[s] {
            continue;
        }
        let mut seen = vec![false; n];
        let mut todo = edges[s].clone();
        while let Some(x) = todo.pop() {
            if x == s {
                return Some(s);
            }
            if !seen[x] {
                seen[x] = true;
                todo.extend(&edges[x]);
            }
        }
    }
    None
}
pub fn reachable(gr: &Grammar) -> Vec<bool> {
    let mut live = vec![false; gr.rules.len()];
    let mut todo = vec![0];
    while let Some(i) = todo.pop() {
        if live[i] {
            continue;
        }
        live[i] = true;
        if let Some(g) = &gr.rules[i] {
            walk(g, &mut |x| {
                if let G::Ref(j) = x {
                    todo.push(*j);
                }
            });
        }
    }
    live
}
/// usable for parsing: every reachable rule assigned and no rule can come back to itself without consuming
pub fn sane(gr: &Grammar) -> bool {
    let live = reachable(gr);
    if gr.rules.iter().zip(&live).any(|(r, l)| *l && r.is_none()) {
        return false;
    }
    let s = still_rules(gr);
    left_rec(gr, &|g| still(g, &s)).is_none()
}
/// no alternative or suffix below starts with (or is guarded by) something whose failure prediction cannot see:
/// a switch back to structural tokens, or a validator over an empty match
pub fn strict(gr: &Grammar) -> bool {
    let n = null_rules(gr);
    let mut ok = true;
    for r in gr.rules.iter().flatten() {
        walk(r, &mut |g| match g {
            G::Str(..) => ok = false,
            G::Valid(x, _) if nullable(x, &n) => ok = false,
            _ => {}
        });
    }
    ok
}
pub fn has(gr: &Grammar, f: &dyn Fn(&G) -> bool) -> bool {
    let mut r = false;
    for g in gr.rules.iter().flatten() {
        walk(g, &mut |x| r |= f(x));
    }
    r
}
