//! Grammars as data: the real productions built from them, and an interpreter written from the property texts.
use lang_pt::production::*;
use lang_pt::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fmt::{Display, Write};
use std::rc::Rc;

pub type P = Rc<dyn IProduction<Node = u8, Token = i8>>;
pub const EOF: i8 = i8::MAX;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum G {
    Tok(i8, Option<u8>),
    TokSet(Vec<(i8, Option<u8>)>),
    TokSetV(Vec<i8>, Option<u8>),
    Eof(Option<u8>),
    Null(bool),
    Const(&'static str, Option<u8>),
    ConstSet(Vec<(&'static str, Option<u8>)>),
    Punct(Vec<(&'static str, Option<u8>)>),
    Re(usize, Option<u8>),
    Concat(Vec<G>),
    Union(Vec<G>),
    Suf(Box<G>, bool, Vec<(G, u8)>),
    List(Box<G>),
    Sep(Box<G>, Box<G>, bool),
    Opt(Box<G>),
    OptH(Box<G>),
    Node(Box<G>, u8),
    Hidden(Box<G>),
    Look(Box<G>, Option<u8>),
    NonStr(Box<G>, bool),
    Str(Box<G>),
    Cache(Box<G>, usize),
    Valid(Box<G>, usize),
    /// counts the attempts made at each position, under a tag
    Count(Box<G>, usize),
    Ref(usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Grammar {
    /// rule 0 is the root; `None` = symbols never assigned
    pub rules: Vec<Option<G>>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    L,
    F,
    R,
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Env {
    pub mode: Mode,
    pub code: Vec<u8>,
    pub toks: Vec<(i8, usize, usize)>,
    pub fl: Vec<usize>,
}
impl Env {
    pub fn text(code: &[u8]) -> Env {
        Env { mode: Mode::L, code: code.to_vec(), toks: vec![], fl: vec![] }
    }
    /// every token kind has a text of its own, so a token stream is a text
    pub fn tokens(mode: Mode, kinds: &[i8]) -> Env {
        let mut code = Vec::new();
        let mut toks = Vec::new();
        for k in kinds {
            let s: &[u8] = match k {
                1 => b"a",
                2 => b"bb",
                3 => b"c",
                -1 => b" ",
                -2 => b"\n\n",
                _ => b"?",
            };
            toks.push((*k, code.len(), code.len() + s.len()));
            code.extend_from_slice(s);
        }
        toks.push((EOF, code.len(), code.len()));
        let fl = (0..toks.len()).filter(|i| toks[*i].0 >= 0).collect();
        Env { mode, code, toks, fl }
    }
    /// the same tokens with other, also long, texts
    pub fn stretch(mut self, r: &mut crate::util::Rng) -> Env {
        let mut code = Vec::new();
        for t in &mut self.toks {
            if t.0 == EOF {
                t.1 = code.len();
                t.2 = code.len();
                continue;
            }
            let old = &self.code[t.1..t.2];
            let at = code.len();
            let most = if r.chance(1, 2) { 3 } else { 90 };
            for _ in 0..1 + r.below(most) {
                code.extend_from_slice(old);
            }
            match r.below(8) {
                0 => code.extend_from_slice("\u{e9}\u{2264}".as_bytes()),
                1 => code.push(b'\n'),
                2 => code.insert(at, 0xFF),
                _ => {}
            }
            t.1 = at;
            t.2 = code.len();
        }
        self.code = code;
        self
    }
    pub fn lexes(&self) -> Vec<Lex<i8>> {
        self.toks.iter().map(|t| Lex::new(t.0, t.1, t.2)).collect()
    }
    pub fn start(&self, m: Mode, i: usize) -> usize {
        match m {
            Mode::L => i,
            Mode::F => self.toks[self.fl[i]].1,
            Mode::R => self.toks[i].1,
        }
    }
    pub fn raw(&self, m: Mode, i: usize) -> Option<usize> {
        match m {
            Mode::L => None,
            Mode::F => Some(self.fl[i]),
            Mode::R => Some(i),
        }
    }
    pub fn kind(&self, m: Mode, i: usize) -> i8 {
        self.toks[self.raw(m, i).unwrap()].0
    }
    pub fn last(&self, m: Mode) -> usize {
        match m {
            Mode::L => self.code.len(),
            Mode::F => self.fl.len() - 1,
            Mode::R => self.toks.len() - 1,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct T {
    pub node: u8,
    pub start: usize,
    pub end: usize,
    pub bound: Option<(usize, usize)>,
    pub kids: Vec<T>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum E {
    Un,
    Inv(usize, String),
    /// outside the property (debug panic, step budget)
    Skip,
}
pub type Res = Result<(usize, Vec<T>), E>;

pub fn ptr(p: TokenPtr) -> usize {
    format!("{}", p).parse().unwrap()
}
pub fn tree(a: &ASTNode<u8>) -> T {
    T {
        node: a.node,
        start: a.start,
        end: a.end,
        bound: a.bound.map(|(x, y)| (ptr(x), ptr(y))),
        kids: a.children.iter().map(tree).collect(),
    }
}

// ------------------------------------------------------------------ validators
pub fn vmsg(id: usize) -> String {
    match id {
        1 => String::new(),
        2 => format!("rule {{2}} broken: {}\n\tä€ \"%s\"\n", "0123456789".repeat(40)),
        3 => "3".to_string(),
        _ => format!("rule {} broken", id),
    }
}
/// verdict of validator `id` on the children (number, first start) and the text
pub fn verdict(id: usize, n: usize, first: Option<usize>, code: &[u8]) -> Result<(), E> {
    match id {
        0 => Ok(()),
        1 if n == 0 => Err(E::Inv(code.len() / 2, vmsg(1))),
        2 if first.map_or(false, |s| s % 2 == 1) => Err(E::Inv(first.unwrap(), vmsg(2))),
        3 if n >= 2 => Err(E::Inv(0, vmsg(3))),
        4 => Err(E::Inv(code.len(), vmsg(4))),
        5 if n % 2 == 1 => Err(E::Un),
        7 if first.map_or(false, |s| s >= 60_000) => Err(E::Inv(first.unwrap(), vmsg(7))),
        6 if first.map_or(false, |s| s >= 2) => Err(E::Inv(1.min(code.len()), vmsg(6))),
        _ => Ok(()),
    }
}

// ------------------------------------------------------------------ the reference interpreter
pub const RES: [&str; 10] =
    ["^a+", "^[ab]+", "^a*b", "^b*", "^a?b", "^(ab|a)", "^(ab|(?-u:\\b))", "(?-u)^[\\x80-\\xFF]+", "(?-u)^[^a]", "^(?i:ab?)"];
pub fn re_match(i: usize, t: &[u8]) -> Option<usize> {
    let run = |s: &[u8], f: &dyn Fn(u8) -> bool| s.iter().take_while(|c| f(**c)).count();
    match i {
        0 => Some(run(t, &|c| c == b'a')).filter(|n| *n > 0),
        1 => Some(run(t, &|c| c == b'a' || c == b'b')).filter(|n| *n > 0),
        2 => {
            let n = run(t, &|c| c == b'a');
            if t.get(n) == Some(&b'b') {
                Some(n + 1)
            } else {
                None
            }
        }
        3 => Some(run(t, &|c| c == b'b')),
        4 => match t {
            [b'a', b'b', ..] => Some(2),
            [b'b', ..] => Some(1),
            _ => None,
        },
        5 => match t {
            [b'a', b'b', ..] => Some(2),
            [b'a', ..] => Some(1),
            _ => None,
        },
        // matches the empty slice in front of a word, but not in the empty text
        6 => match t {
            [b'a', b'b', ..] => Some(2),
            [c, ..] if c.is_ascii_alphanumeric() || *c == b'_' => Some(0),
            _ => None,
        },
        // bytes, whether or not they are UTF-8
        7 => Some(run(t, &|c| c >= 0x80)).filter(|n| *n > 0),
        8 => t.first().filter(|c| **c != b'a').map(|_| 1),
        9 => match t {
            [b'a' | b'A', b'b' | b'B', ..] => Some(2),
            [b'a' | b'A', ..] => Some(1),
            _ => None,
        },
        _ => unreachable!(),
    }
}

pub struct Ref<'g> {
    pub gr: &'g Grammar,
    pub e: &'g Env,
    pub reach: usize,
    pub steps: usize,
    pub limit: usize,
    pub null: Vec<bool>,
    pub nullh: Vec<bool>,
    /// attempts counted under a tag: (tag, position)
    pub counts: Vec<(usize, usize)>,
}

/// least fixpoint: which rules derive the empty input
pub fn null_rules(gr: &Grammar) -> Vec<bool> {
    let mut n = vec![false; gr.rules.len()];
    loop {
        let m: Vec<bool> = gr.rules.iter().map(|r| r.as_ref().map_or(false, |g| nullable(g, &n))).collect();
        if m == n {
            return n;
        }
        n = m;
    }
}
pub fn nullable(g: &G, r: &[bool]) -> bool {
    match g {
        G::Tok(..) | G::TokSet(..) | G::TokSetV(..) | G::Eof(_) => false,
        G::Null(_) => true,
        G::Const(s, _) => s.is_empty(),
        G::ConstSet(v) | G::Punct(v) => v.iter().any(|x| x.0.is_empty()),
        G::Re(i, _) => re_match(*i, b"").is_some(),
        G::Concat(v) => v.iter().all(|x| nullable(x, r)),
        G::Union(v) => v.iter().any(|x| nullable(x, r)),
        G::Suf(l, s, v) => nullable(l, r) && (*s || v.iter().any(|x| nullable(&x.0, r))),
        G::List(x) | G::Sep(x, _, _) => nullable(x, r),
        G::Opt(_) | G::OptH(_) => true,
        G::Node(x, _) | G::Hidden(x) | G::Look(x, _) | G::NonStr(x, _) | G::Str(x) | G::Cache(x, _) | G::Valid(x, _) | G::Count(x, _) => {
            nullable(x, r)
        }
        G::Ref(i) => r[*i],
    }
}
/// can succeed without consuming (a look-ahead and an end-of-file field do, though not nullable)
pub fn still_rules(gr: &Grammar) -> Vec<bool> {
    let mut n = vec![false; gr.rules.len()];
    loop {
        let m: Vec<bool> = gr.rules.iter().map(|r| r.as_ref().map_or(false, |g| still(g, &n))).collect();
        if m == n {
            return n;
        }
        n = m;
    }
}
pub fn still(g: &G, r: &[bool]) -> bool {
    match g {
        G::Eof(_) | G::Look(..) => true,
        G::NonStr(..) | G::Re(6, _) => true,
        G::Concat(v) => v.iter().all(|x| still(x, r)),
        G::Union(v) => v.iter().any(|x| still(x, r)),
        G::Suf(l, s, v) => still(l, r) && (*s || v.iter().any(|x| still(&x.0, r))),
        G::List(x) | G::Sep(x, _, _) => still(x, r),
        G::Opt(_) | G::OptH(_) => true,
        G::Node(x, _) | G::Hidden(x) | G::Str(x) | G::Cache(x, _) | G::Valid(x, _) | G::Count(x, _) => still(x, r),
        G::Ref(i) => r[*i],
        _ => nullable(g, r),
    }
}
/// does the empty match yield no node
pub fn nullh_rules(gr: &Grammar, n: &[bool]) -> Vec<bool> {
    let mut h = vec![false; gr.rules.len()];
    for _ in 0..gr.rules.len() + 1 {
        h = gr.rules.iter().map(|r| r.as_ref().map_or(false, |g| nullh(g, n, &h))).collect();
    }
    h
}
pub fn nullh(g: &G, n: &[bool], h: &[bool]) -> bool {
    match g {
        G::Tok(..) | G::TokSet(..) | G::TokSetV(..) | G::Eof(_) => false,
        G::Null(hid) => *hid,
        G::Const(s, v) => s.is_empty() && v.is_none(),
        G::ConstSet(v) | G::Punct(v) => v.iter().any(|x| x.0.is_empty() && x.1.is_none()),
        G::Re(_, v) => nullable(g, n) && v.is_none(),
        G::Concat(v) => v.iter().all(|x| nullable(x, n) && nullh(x, n, h)),
        G::Union(v) => v.iter().find(|x| nullable(x, n)).map_or(false, |x| nullh(x, n, h)),
        G::Suf(l, s, v) => *s && nullh(l, n, h) && !v.iter().any(|x| nullable(&x.0, n)),
        G::List(x) | G::Sep(x, _, _) => nullh(x, n, h),
        G::Opt(x) => nullable(x, n) && nullh(x, n, h) && false,
        G::OptH(x) => !nullable(x, n) || nullh(x, n, h),
        G::Node(..) => false,
        G::Hidden(x) => nullable(x, n),
        G::Look(x, v) => nullable(x, n) && v.is_none(),
        G::NonStr(x, _) | G::Str(x) | G::Cache(x, _) | G::Valid(x, _) | G::Count(x, _) => nullh(x, n, h),
        G::Ref(i) => h[*i],
    }
}
pub fn first(g: &G, gr: &Grammar, n: &[bool], out: &mut HashSet<i8>, seen: &mut HashSet<usize>) {
    match g {
        G::Tok(t, _) => {
            out.insert(*t);
        }
        G::TokSet(v) => out.extend(v.iter().map(|x| x.0)),
        G::TokSetV(v, _) => out.extend(v.iter()),
        G::Eof(_) => {
            out.insert(EOF);
        }
        G::Null(_) => {}
        G::Const(..) | G::ConstSet(..) | G::Punct(..) | G::Re(..) => {}
        G::Concat(v) => {
            for x in v {
                first(x, gr, n, out, seen);
                if !nullable(x, n) {
                    break;
                }
            }
        }
        G::Union(v) => v.iter().for_each(|x| first(x, gr, n, out, seen)),
        G::Suf(l, _, v) => {
            first(l, gr, n, out, seen);
            if nullable(l, n) {
                v.iter().for_each(|x| first(&x.0, gr, n, out, seen));
            }
        }
        G::Sep(x, s, _) => {
            first(x, gr, n, out, seen);
            if nullable(x, n) {
                first(s, gr, n, out, seen);
            }
        }
        G::List(x)
        | G::Opt(x)
        | G::OptH(x)
        | G::Node(x, _)
        | G::Hidden(x)
        | G::Look(x, _)
        | G::NonStr(x, _)
        | G::Str(x)
        | G::Cache(x, _)
        | G::Valid(x, _)
        | G::Count(x, _) => first(x, gr, n, out, seen),
        G::Ref(i) => {
            if seen.insert(*i) {
                if let Some(r) = &gr.rules[*i] {
                    first(r, gr, n, out, seen);
                }
            }
        }
    }
}
pub fn first_of(g: &G, gr: &Grammar, n: &[bool]) -> HashSet<i8> {
    let mut o = HashSet::new();
    first(g, gr, n, &mut o, &mut HashSet::new());
    o
}

impl<'g> Ref<'g> {
    pub fn new(gr: &'g Grammar, e: &'g Env) -> Ref<'g> {
        let null = null_rules(gr);
        let nullh = nullh_rules(gr, &null);
        Ref { gr, e, reach: 0, steps: 0, limit: 20_000, null, nullh, counts: vec![] }
    }
    fn leaf(&self, m: Mode, i: usize, j: usize, v: &Option<u8>) -> Vec<T> {
        let e = self.e;
        v.iter()
            .map(|n| T {
                node: *n,
                start: e.start(m, i),
                end: match m {
                    Mode::L => j,
                    _ if i == j => e.start(m, i),
                    _ => e.toks[e.raw(m, i).unwrap()].2,
                },
                bound: e.raw(m, i).map(|r| (r, if i == j { r } else { r + 1 })),
                kids: vec![],
            })
            .collect()
    }
    fn node(&self, m: Mode, i: usize, j: usize, v: u8, kids: Vec<T>) -> T {
        let e = self.e;
        T { node: v, start: e.start(m, i), end: e.start(m, j), bound: e.raw(m, i).map(|a| (a, e.raw(m, j).unwrap())), kids }
    }
    pub fn hit(&mut self, p: usize) {
        self.reach = self.reach.max(p);
    }
    fn nul(&self, g: &G) -> bool {
        nullable(g, &self.null)
    }
    fn nulh(&self, g: &G) -> bool {
        nullh(g, &self.null, &self.nullh)
    }
    /// alternatives (or suffixes) that can apply at this token: None = no prediction here, try all
    fn select(&self, alts: &[&G], m: Mode, i: usize) -> Result<Option<Vec<usize>>, E> {
        if m == Mode::L {
            return Ok(Some((0..alts.len()).collect()));
        }
        let k = self.e.kind(m, i);
        // are there non-structural tokens in front of this one?
        let skipped = m == Mode::F && self.e.fl[i] > if i > 0 { self.e.fl[i - 1] + 1 } else { 0 };
        if skipped && alts.iter().all(|a| !self.nul(a) && !first_of(a, self.gr, &self.null).contains(&k)) {
            // only those that start with a raw token can match
            return Ok(Some((0..alts.len()).collect()));
        }
        let mut any = false;
        let mut sel = vec![];
        for (j, a) in alts.iter().enumerate() {
            let f = first_of(a, self.gr, &self.null);
            if skipped && f.iter().any(|t| *t < 0) {
                return Err(E::Skip); // stated for alternatives that do not start with a non-structural token
            }
            if f.contains(&k) {
                any = true;
                sel.push(j);
            } else if self.nul(a) {
                sel.push(j);
            }
            if self.nul(a) {
                break;
            }
        }
        Ok(if any { Some(sel) } else { None })
    }
    pub fn eval(&mut self, g: &G, m: Mode, i: usize) -> Res {
        self.steps += 1;
        if self.steps > self.limit {
            return Err(E::Skip);
        }
        let e = self.e;
        match g {
            G::Tok(t, v) => {
                if m == Mode::L {
                    return Err(E::Skip);
                }
                if e.kind(m, i) == *t {
                    self.hit(e.toks[e.raw(m, i).unwrap()].2);
                    Ok((i + 1, self.leaf(m, i, i + 1, v)))
                } else {
                    Err(E::Un)
                }
            }
            G::TokSet(s) => {
                if m == Mode::L {
                    return Err(E::Skip);
                }
                match s.iter().find(|x| x.0 == e.kind(m, i)) {
                    Some((_, v)) => {
                        self.hit(e.toks[e.raw(m, i).unwrap()].2);
                        Ok((i + 1, self.leaf(m, i, i + 1, v)))
                    }
                    None => Err(E::Un),
                }
            }
            G::TokSetV(s, v) => self.eval(&G::TokSet(s.iter().map(|t| (*t, *v)).collect()), m, i),
            G::Eof(v) => {
                if i == e.last(m) {
                    self.hit(e.code.len());
                    Ok((i, self.leaf(m, i, i, v)))
                } else {
                    Err(E::Un)
                }
            }
            G::Null(h) => Ok((i, self.leaf(m, i, i, &if *h { None } else { Some(0) }))),
            G::Const(s, v) => self.eval(&G::ConstSet(vec![(s, *v)]), m, i),
            G::ConstSet(s) | G::Punct(s) => {
                if m != Mode::L {
                    return Err(E::Skip);
                }
                let best = s.iter().filter(|x| e.code[i..].starts_with(x.0.as_bytes())).max_by_key(|x| x.0.len());
                match best {
                    Some((w, v)) => {
                        self.hit(i + w.len());
                        Ok((i + w.len(), self.leaf(m, i, i + w.len(), v)))
                    }
                    None => Err(E::Un),
                }
            }
            G::Re(r, v) => {
                if m != Mode::L {
                    return Err(E::Skip);
                }
                match re_match(*r, &e.code[i..]) {
                    Some(n) => {
                        self.hit(i + n);
                        Ok((i + n, self.leaf(m, i, i + n, v)))
                    }
                    None => Err(E::Un),
                }
            }
            G::Concat(v) => {
                let mut p = i;
                let mut kids = vec![];
                for x in v {
                    let (q, k) = self.eval(x, m, p)?;
                    p = q;
                    kids.extend(k);
                }
                Ok((p, kids))
            }
            G::Union(v) => {
                let alts: Vec<&G> = v.iter().collect();
                match self.select(&alts, m, i)? {
                    Some(sel) => {
                        for j in sel {
                            match self.eval(&v[j], m, i) {
                                Err(E::Un) => {}
                                r => return r,
                            }
                        }
                        Err(E::Un)
                    }
                    // nothing can start here: the empty alternative, if there is one
                    None => match v.iter().find(|a| self.nul(a)) {
                        Some(a) => Ok((i, if self.nulh(a) { vec![] } else { self.leaf(m, i, i, &Some(0)) })),
                        None => Err(E::Un),
                    },
                }
            }
            G::Suf(l, standalone, v) => {
                let (p, mut kids) = self.eval(l, m, i)?;
                let alts: Vec<&G> = v.iter().map(|x| &x.0).collect();
                match self.select(&alts, m, p)? {
                    Some(sel) => {
                        for j in sel {
                            match self.eval(&v[j].0, m, p) {
                                Err(E::Un) => {}
                                Err(x) => return Err(x),
                                Ok((q, k)) => {
                                    kids.extend(k);
                                    return Ok((q, vec![self.node(m, i, q, v[j].1, kids)]));
                                }
                            }
                        }
                    }
                    None => {
                        if let Some(a) = v.iter().find(|a| self.nul(&a.0)) {
                            if !self.nulh(&a.0) {
                                kids.extend(self.leaf(m, p, p, &Some(0)));
                            }
                            return Ok((p, vec![self.node(m, i, p, a.1, kids)]));
                        }
                    }
                }
                if *standalone {
                    Ok((p, kids))
                } else {
                    Err(E::Un)
                }
            }
            G::List(x) => {
                let (mut p, mut kids) = self.eval(x, m, i)?;
                if p == i {
                    return Ok((p, kids));
                }
                loop {
                    match self.eval(x, m, p) {
                        Ok((q, k)) => {
                            kids.extend(k);
                            if q == p {
                                return Ok((p, kids));
                            }
                            p = q;
                        }
                        Err(E::Un) => return Ok((p, kids)),
                        Err(x) => return Err(x),
                    }
                }
            }
            G::Sep(x, s, incl) => {
                let (mut p, mut kids) = self.eval(x, m, i)?;
                loop {
                    let (q, sk) = match self.eval(s, m, p) {
                        Ok(r) => r,
                        Err(E::Un) => return Ok((p, kids)),
                        Err(x) => return Err(x),
                    };
                    match self.eval(x, m, q) {
                        Ok((r, k)) => {
                            if r == p {
                                return Ok((p, kids));
                            }
                            kids.extend(sk);
                            kids.extend(k);
                            p = r;
                        }
                        Err(E::Un) => {
                            return if *incl {
                                kids.extend(sk);
                                Ok((q, kids))
                            } else {
                                Ok((p, kids))
                            }
                        }
                        Err(x) => return Err(x),
                    }
                }
            }
            G::Opt(x) => match self.eval(x, m, i) {
                Err(E::Un) => Ok((i, self.leaf(m, i, i, &Some(0)))),
                r => r,
            },
            G::OptH(x) => match self.eval(x, m, i) {
                Err(E::Un) => Ok((i, vec![])),
                r => r,
            },
            G::Node(x, v) => {
                let (p, k) = self.eval(x, m, i)?;
                Ok((p, vec![self.node(m, i, p, *v, k)]))
            }
            G::Hidden(x) => self.eval(x, m, i).map(|(p, _)| (p, vec![])),
            G::Look(x, v) => {
                self.eval(x, m, i)?;
                Ok((i, self.leaf(m, i, i, v)))
            }
            G::NonStr(x, fill) => match m {
                Mode::F => {
                    let s = if i > 0 { e.fl[i - 1] + 1 } else { 0 };
                    let (p, k) = self.eval(x, Mode::R, s)?;
                    if *fill && p != e.fl[i] {
                        Err(E::Un)
                    } else {
                        Ok((i, k))
                    }
                }
                _ => self.eval(x, m, i),
            },
            G::Str(x) => match m {
                Mode::R => {
                    let f = e.fl.iter().position(|t| *t >= i).ok_or(E::Skip)?;
                    let (p, k) = self.eval(x, Mode::F, f)?;
                    let n = if p > 0 { e.fl[p - 1] + 1 } else { 0 };
                    Ok((n.max(i), k))
                }
                _ => self.eval(x, m, i),
            },
            G::Cache(x, _) => {
                if m == Mode::R {
                    return Err(E::Skip);
                }
                self.eval(x, m, i)
            }
            G::Valid(x, id) => {
                let (p, k) = self.eval(x, m, i)?;
                verdict(*id, k.len(), k.first().map(|t| t.start), &e.code)?;
                Ok((p, k))
            }
            G::Count(x, tag) => {
                self.counts.push((*tag, i));
                self.eval(x, m, i)
            }
            G::Ref(r) => match &self.gr.rules[*r] {
                Some(g) => self.eval(g, m, i),
                None => Err(E::Skip),
            },
        }
    }
}

// ------------------------------------------------------------------ the real productions
thread_local! {
    pub static COUNTS: RefCell<Vec<(usize, usize)>> = RefCell::new(vec![]);
}
/// any production as a sized one; with a tag it records the positions it is attempted at
pub struct Dyn(pub P, pub Option<usize>);
impl Display for Dyn {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Dyn {
    fn rec(&self, i: impl Display) {
        if let Some(t) = self.1 {
            COUNTS.with(|c| c.borrow_mut().push((t, format!("{}", i).parse().unwrap())));
        }
    }
}
impl IProduction for Dyn {
    type Node = u8;
    type Token = i8;
    fn is_nullable(&self) -> bool {
        self.0.is_nullable()
    }
    fn is_nullable_n_hidden(&self) -> bool {
        self.0.is_nullable_n_hidden()
    }
    fn obtain_nullability<'id>(&'id self, visited: HashMap<&'id str, usize>) -> Result<bool, ImplementationError> {
        self.0.obtain_nullability(visited)
    }
    fn impl_first_set(&self, s: &mut HashSet<i8>) {
        self.0.impl_first_set(s)
    }
    fn impl_grammar(&self, w: &mut dyn Write, a: &mut HashSet<&'static str>) -> Result<(), std::fmt::Error> {
        self.0.impl_grammar(w, a)
    }
    fn validate<'id>(&'id self, c: HashMap<&'id str, usize>, v: &mut HashSet<&'id str>) -> Result<(), ImplementationError> {
        self.0.validate(c, v)
    }
    fn advance_fltr_ptr(&self, code: &Code, i: FltrPtr, s: &TokenStream<i8>, c: &mut Cache<FltrPtr, u8>) -> ParsedResult<FltrPtr, u8> {
        self.rec(i);
        self.0.advance_fltr_ptr(code, i, s, c)
    }
    fn advance_token_ptr(&self, code: &Code, i: TokenPtr, s: &TokenStream<i8>, c: &mut Cache<FltrPtr, u8>) -> ParsedResult<TokenPtr, u8> {
        self.rec(i);
        self.0.advance_token_ptr(code, i, s, c)
    }
    fn advance_ptr(&self, code: &Code, i: usize, c: &mut Cache<usize, u8>) -> ParsedResult<usize, u8> {
        self.rec(i);
        self.0.advance_ptr(code, i, c)
    }
}

pub struct Built {
    pub rules: Vec<P>,
}
const IDS: [&str; 40] = [
    "i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9", "i10", "i11", "i12", "i13", "i14", "i15", "i16", "i17", "i18", "i19", "i20",
    "i21", "i22", "i23", "i24", "i25", "i26", "i27", "i28", "i29", "i30", "i31", "i32", "i33", "i34", "i35", "i36", "i37", "i38", "i39",
];
pub struct Build {
    /// build wrappers through the ProductionBuilder methods
    pub fluent: bool,
    /// drop the memoising wrappers
    pub strip: bool,
    next: usize,
    rules: Vec<P>,
}
impl Build {
    fn id(&mut self) -> &'static str {
        self.next += 1;
        match IDS.get(self.next - 1) {
            Some(s) => s,
            None => Box::leak(format!("i{}", self.next - 1).into_boxed_str()),
        }
    }
    fn sub(&mut self, g: &G) -> Rc<Dyn> {
        Rc::new(Dyn(self.g(g), None))
    }
    fn own(&mut self, g: &G) -> Dyn {
        Dyn(self.g(g), None)
    }
    pub fn g(&mut self, g: &G) -> P {
        let fl = self.fluent;
        match g {
            G::Tok(t, v) => Rc::new(TokenField::new(*t, *v)),
            G::TokSet(s) => Rc::new(TokenFieldSet::new(s.clone())),
            G::TokSetV(s, v) => Rc::new(TokenFieldSet::with_value(*v, s.clone())),
            G::Eof(v) => Rc::new(EOFProd::new(*v)),
            G::Null(false) => Rc::new(NullProd::new()),
            G::Null(true) => Rc::new(NullProd::hidden()),
            G::Const(s, v) => Rc::new(ConstantField::new(s, *v)),
            G::ConstSet(s) => Rc::new(ConstantFieldSet::new(s.clone())),
            G::Punct(s) => Rc::new(PunctuationsField::new(s.clone()).unwrap()),
            G::Re(i, v) => Rc::new(RegexField::new(RES[*i], *v).unwrap()),
            G::Concat(v) => {
                let v: Vec<P> = v.iter().map(|x| self.g(x)).collect();
                if fl {
                    let c = Concat::init(self.id());
                    c.set_symbols(v).unwrap();
                    Rc::new(c)
                } else {
                    Rc::new(Concat::new(self.id(), v))
                }
            }
            G::Union(v) => {
                let v: Vec<P> = v.iter().map(|x| self.g(x)).collect();
                if fl {
                    let c = Union::init(self.id());
                    c.set_symbols(v).unwrap();
                    Rc::new(c)
                } else {
                    Rc::new(Union::new(self.id(), v))
                }
            }
            G::Suf(l, st, v) => {
                let v: Vec<(P, u8)> = v.iter().map(|x| (self.g(&x.0), x.1)).collect();
                if fl {
                    let l = self.own(l);
                    let s = l.into_suffixes::<Dyn>(self.id(), *st);
                    s.set_suffixes(v).unwrap();
                    Rc::new(s)
                } else {
                    let l = self.sub(l);
                    Rc::new(Suffixes::new(self.id(), &l, *st, v))
                }
            }
            G::List(x) if fl => Rc::new(self.own(x).into_list()),
            G::List(x) => Rc::new(List::new(&self.sub(x))),
            G::Sep(x, s, i) => {
                let s = self.sub(s);
                if fl {
                    Rc::new(self.own(x).into_separated_list(&s, *i))
                } else {
                    Rc::new(SeparatedList::new(&self.sub(x), &s, *i))
                }
            }
            G::Opt(x) if fl => Rc::new(self.own(x).into_nullable()),
            G::Opt(x) => Rc::new(Nullable::new(&self.sub(x))),
            G::OptH(x) if fl => Rc::new(self.own(x).into_null_hidden()),
            G::OptH(x) => Rc::new(Nullable::hidden(&self.sub(x))),
            G::Node(x, v) if fl => Rc::new(self.own(x).into_node(*v)),
            G::Node(x, v) => Rc::new(Node::new(&self.sub(x), *v)),
            G::Hidden(x) if fl => Rc::new(self.own(x).into_hidden()),
            G::Hidden(x) if self.next % 2 == 0 => Rc::new(Hidden::hidden(&self.sub(x))),
            G::Hidden(x) => Rc::new(Hidden::new(&self.sub(x))),
            G::Look(x, v) if fl => Rc::new(self.own(x).into_lookahead(*v)),
            G::Look(x, v) => Rc::new(Lookahead::new(&self.sub(x), *v)),
            G::NonStr(x, f) => Rc::new(NonStructural::new(&self.sub(x), *f)),
            G::Str(x) => Rc::new(Structural::new(&self.sub(x))),
            G::Cache(x, _) if self.strip => self.g(x),
            G::Cache(x, k) => Rc::new(Cacheable::new(CacheKey::vf_new(*k), &self.sub(x))),
            G::Valid(x, id) => {
                let id = *id;
                let f = move |c: &Vec<ASTNode<u8>>, code: &[u8]| match verdict(id, c.len(), c.first().map(|t| t.start), code) {
                    Ok(()) => Ok(()),
                    Err(E::Inv(p, m)) => Err(ProductionError::Validation(p, m)),
                    Err(_) => Err(ProductionError::Unparsed),
                };
                if fl {
                    Rc::new(self.own(x).validate_with(f))
                } else {
                    Rc::new(Validator::new(&self.sub(x), f))
                }
            }
            G::Count(x, tag) => {
                let p = self.g(x);
                Rc::new(Dyn(p, Some(*tag)))
            }
            G::Ref(i) => self.rules[*i].clone(),
        }
    }
}
/// names of rules, leaked once each
fn rule_id(i: usize) -> &'static str {
    thread_local! {
        static IDS: RefCell<Vec<&'static str>> = RefCell::new(vec![]);
    }
    IDS.with(|v| {
        let mut v = v.borrow_mut();
        while v.len() <= i {
            let s = format!("r{}", v.len());
            v.push(Box::leak(s.into_boxed_str()));
        }
        v[i]
    })
}


enum Shell {
    C(Rc<Concat<u8, i8>>),
    U(Rc<Union<u8, i8>>),
    S(Rc<Suffixes<Dyn>>),
}
/// Rules first become empty shells (so that they can refer to one another) and then get their symbols.
pub fn build(gr: &Grammar, fluent: bool, strip: bool) -> Built {
    let mut b = Build { fluent, strip, next: 0, rules: vec![] };
    let mut shells = vec![];
    // a suffixes rule needs its left part when the shell is made: only simple (reference-free) left parts get one
    for (i, r) in gr.rules.iter().enumerate() {
        let id = rule_id(i);
        let s = match r {
            Some(G::Union(_)) => {
                let u = Rc::new(Union::init(id));
                b.rules.push(u.clone());
                Shell::U(u)
            }
            Some(G::Suf(l, st, _)) if !has_ref_from(l, i) => {
                let l = b.sub(l);
                let u = Rc::new(Suffixes::init(id, &l, *st));
                b.rules.push(u.clone());
                Shell::S(u)
            }
            _ => {
                let u = Rc::new(Concat::init(id));
                b.rules.push(u.clone());
                Shell::C(u)
            }
        };
        shells.push(s);
    }
    for (r, s) in gr.rules.iter().zip(&shells) {
        match (r, s) {
            (None, _) => {}
            (Some(G::Union(v)), Shell::U(u)) => u.set_symbols(v.iter().map(|x| b.g(x)).collect()).unwrap(),
            (Some(G::Suf(_, _, v)), Shell::S(u)) => u.set_suffixes(v.iter().map(|x| (b.g(&x.0), x.1)).collect()).unwrap(),
            (Some(G::Concat(v)), Shell::C(c)) => c.set_symbols(v.iter().map(|x| b.g(x)).collect()).unwrap(),
            (Some(g), Shell::C(c)) => c.set_symbols(vec![b.g(g)]).unwrap(),
            _ => unreachable!(),
        }
    }
    Built { rules: b.rules.clone() }
}
fn has_ref_from(g: &G, i: usize) -> bool {
    let mut r = false;
    walk(g, &mut |x| {
        if let G::Ref(j) = x {
            r |= *j >= i;
        }
    });
    r
}
pub fn walk(g: &G, f: &mut dyn FnMut(&G)) {
    f(g);
    match g {
        G::Concat(v) | G::Union(v) => v.iter().for_each(|x| walk(x, f)),
        G::Suf(l, _, v) => {
            walk(l, f);
            v.iter().for_each(|x| walk(&x.0, f))
        }
        G::Sep(a, b, _) => {
            walk(a, f);
            walk(b, f)
        }
        G::List(x)
        | G::Opt(x)
        | G::OptH(x)
        | G::Node(x, _)
        | G::Hidden(x)
        | G::Look(x, _)
        | G::NonStr(x, _)
        | G::Str(x)
        | G::Cache(x, _)
        | G::Valid(x, _)
        | G::Count(x, _) => walk(x, f),
        _ => {}
    }
}

pub struct Real {
    pub res: Res,
    pub max: usize,
}
fn conv<I: Display>(r: ParsedResult<I, u8>) -> Res {
    match r {
        Ok(d) => {
            let c = &d.children;
            let range = if c.is_empty() { None } else { Some((c[0].start, c[c.len() - 1].end)) };
            assert_eq!(d.range(), range, "range() of {:?}", c);
            Ok((format!("{}", d.consumed_index).parse().unwrap(), c.iter().map(tree).collect()))
        }
        Err(x) => {
            let inv = matches!(x, ProductionError::Validation(..));
            assert!(x.is_invalid() == inv && x.is_unparsed() != inv, "is_invalid, is_unparsed");
            Err(match x {
                ProductionError::Unparsed => E::Un,
                ProductionError::Validation(p, m) => E::Inv(p, m),
            })
        }
    }
}
thread_local! {
    static BUF: RefCell<Vec<u8>> = RefCell::new(Vec::with_capacity(1 << 18));
}
/// every text is parsed from the same buffer, as a program does that reads its inputs into one
pub fn with_text<T>(t: &[u8], f: impl FnOnce(&[u8]) -> T) -> T {
    let mut b = BUF.with(|b| std::mem::take(&mut *b.borrow_mut()));
    b.clear();
    b.extend_from_slice(t);
    let r = f(&b);
    BUF.with(|x| *x.borrow_mut() = b);
    r
}
/// attempt the real production at position i with everything before it already matched
pub fn real(p: &P, e: &Env, i: usize) -> Real {
    with_text(&e.code, |text| real_on(p, e, i, text))
}
fn real_on(p: &P, e: &Env, i: usize, text: &[u8]) -> Real {
    let code = Code::new(text);
    let s0 = e.start(e.mode, i);
    match e.mode {
        Mode::L => {
            let mut c: Cache<usize, u8> = Cache::root();
            c.update_index(s0);
            let r = p.advance_ptr(&code, i, &mut c);
            Real { res: conv(r), max: c.get_index() }
        }
        m => {
            let lexes = e.lexes();
            let st = TokenStream::from(&lexes);
            let mut c: Cache<FltrPtr, u8> = Cache::root();
            c.update_index(s0);
            let r = if m == Mode::F {
                conv(p.advance_fltr_ptr(&code, FltrPtr::debug_new(i), &st, &mut c))
            } else {
                conv(p.advance_token_ptr(&code, TokenPtr::debug_new(i), &st, &mut c))
            };
            Real { res: r, max: c.get_index() }
        }
    }
}
