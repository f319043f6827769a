//! C01 tokenization tiles, C02 first match and states, C04 lexeme building blocks.
use crate::gram::{re_match, with_text};
use crate::util::*;
use lang_pt::lexeme::*;
use lang_pt::*;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum A {
    Pop(bool),
    Push(u8, bool),
    Switch(u8, bool),
    None(bool),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum L {
    Pat(i8, usize),
    Con(Vec<(&'static str, i8)>),
    Pun(Vec<(&'static str, i8)>),
    Map(Box<L>, Vec<(&'static str, i8)>),
    Thunk(Box<L>, u8),
    Guard(Box<L>, u8),
    Mix(Box<L>, Vec<(i8, A)>),
    TMix(Box<L>, u8),
}
type Tk = (i8, usize, usize);
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Stop {
    /// the reference says the library must panic here (popping an empty stack, unknown state): outside the property
    Outside,
}

/// all patterns of the parse reference except the one that matches the empty text
const PATS: [usize; 9] = [0, 1, 2, 4, 5, 6, 7, 8, 9];

/// what the user's closures see: the text, and the tokens so far (their number and the last one)
type Past = (usize, Option<Tk>);
fn past(v: &Vec<Lex<i8>>) -> Past {
    (v.len(), v.last().map(tk))
}
fn thunk_token(k: u8, l: Tk, code: &[u8], n: Past) -> Option<i8> {
    match k {
        0 => None,
        1 => Some(l.0.wrapping_add(10) % 100),
        2 if n.0 % 2 == 0 => Some(70),
        3 if l.2 - l.1 >= 2 => Some(71),
        4 if code.len() % 2 == 1 => Some(72),
        5 if l.1 % 2 == 1 => Some(73),
        6 if n.1.map_or(true, |x| x.0 < 0) => Some(74),
        7 if code.get(l.2) == Some(&b'b') => Some(-75),
        8 if l.1 > 0 && code.first() == Some(&b'a') => Some(76),
        _ => None,
    }
}
fn guard(k: u8, code: &[u8], n: Past) -> bool {
    match k {
        0 => true,
        1 => n.0 % 2 == 0,
        2 => code.len() % 2 == 0,
        3 => n.0 < 2,
        4 => n.1.map_or(true, |x| x.0 != 1),
        5 => n.1.map_or(false, |x| x.2 - x.1 < 2),
        6 => code.first() != Some(&b'b'),
        _ => false,
    }
}
fn thunk_action(k: u8, l: Tk, code: &[u8], n: Past) -> A {
    match k {
        0 => A::None(false),
        1 if n.0 % 2 == 1 => A::Push(1, false),
        1 => A::Push(2, false),
        2 if l.2 - l.1 >= 2 => A::Switch(2, false),
        3 if l.0 % 2 == 0 => A::None(true),
        4 if n.0 > 1 => A::Switch(1, true),
        5 if code.get(l.2) == Some(&b'a') => A::Push(1, false),
        6 if n.1.map_or(false, |x| x.0 == l.0) => A::Switch(2, false),
        7 if code.len() % 2 == 0 && code.first() == Some(&b'a') => A::Push(2, true),
        _ => A::None(false),
    }
}
fn act(a: &A, st: &mut Vec<u8>) -> Result<bool, Stop> {
    Ok(match a {
        A::Pop(d) => {
            if st.pop().is_none() {
                return Err(Stop::Outside);
            }
            *d
        }
        A::Push(s, d) => {
            st.push(*s);
            *d
        }
        A::Switch(s, d) => {
            match st.last_mut() {
                Some(x) => *x = *s,
                None => st.push(*s),
            }
            *d
        }
        A::None(d) => *d,
    })
}
fn longest(v: &[(&'static str, i8)], t: &[u8], at: usize) -> Option<Tk> {
    // equal literals: the one registered last is asked first
    let mut best: Option<(usize, i8)> = None;
    for (w, k) in v {
        if !w.is_empty() && t[at..].starts_with(w.as_bytes()) && best.map_or(true, |b| w.len() >= b.0) {
            best = Some((w.len(), *k));
        }
    }
    best.map(|(n, k)| (k, at, at + n))
}
/// the meaning of a lexeme
pub fn lex(l: &L, t: &[u8], at: usize, n: Past, st: &mut Vec<u8>) -> Result<Option<Tk>, Stop> {
    Ok(match l {
        L::Pat(k, i) => re_match(*i, &t[at..]).filter(|n| *n > 0).map(|n| (*k, at, at + n)),
        L::Con(v) | L::Pun(v) => longest(v, t, at),
        L::Map(x, m) => lex(x, t, at, n, st)?.map(|r| {
            let w = &t[r.1..r.2];
            match m.iter().find(|e| e.0.as_bytes() == w) {
                Some(e) => (e.1, r.1, r.2),
                None => r,
            }
        }),
        L::Thunk(x, k) => lex(x, t, at, n, st)?.map(|r| (thunk_token(*k, r, t, n).unwrap_or(r.0), r.1, r.2)),
        L::Guard(x, k) => {
            if guard(*k, t, n) {
                lex(x, t, at, n, st)?
            } else {
                None
            }
        }
        L::Mix(x, acts) => match lex(x, t, at, n, st)? {
            None => None,
            Some(r) => match acts.iter().find(|a| a.0 == r.0) {
                Some(a) => {
                    if act(&a.1, st)? {
                        None
                    } else {
                        Some(r)
                    }
                }
                None => Some(r),
            },
        },
        L::TMix(x, k) => match lex(x, t, at, n, st)? {
            None => None,
            Some(r) => {
                if act(&thunk_action(*k, r, t, n), st)? {
                    None
                } else {
                    Some(r)
                }
            }
        },
    })
}
/// tokens, or the end of the tokenised prefix
pub fn tokens(states: &[(u8, Vec<L>)], default: u8, t: &[u8]) -> Result<Result<Vec<Tk>, usize>, Stop> {
    let mut out: Vec<Tk> = vec![];
    let mut st = vec![];
    let mut at = 0;
    let mut state = default;
    loop {
        let ls = match states.iter().find(|s| s.0 == state) {
            Some(s) => &s.1,
            None => return Err(Stop::Outside),
        };
        let mut hit = None;
        for l in ls {
            if let Some(r) = lex(l, t, at, (out.len(), out.last().copied()), &mut st)? {
                hit = Some(r);
                break;
            }
        }
        match hit {
            None => return Ok(Err(at)),
            Some(r) => {
                at = r.2;
                out.push(r);
                if at == t.len() {
                    out.push((i8::MAX, at, at));
                    return Ok(Ok(out));
                }
            }
        }
        state = st.last().copied().unwrap_or(default);
    }
}

// ------------------------------------------------------------------ the real ones
type D = Rc<dyn ILexeme<Token = i8, State = u8>>;
pub struct Dyn(pub D);
impl ILexeme for Dyn {
    type Token = i8;
    type State = u8;
    fn consume(&self, code: &Code, p: usize, s: &Vec<Lex<i8>>, st: &mut Vec<u8>) -> Option<Lex<i8>> {
        self.0.consume(code, p, s, st)
    }
    fn get_grammar_field(&self) -> Vec<(i8, String)> {
        self.0.get_grammar_field()
    }
}
fn conv(a: &A) -> Action<u8> {
    match a {
        A::Pop(d) => Action::remove(*d),
        A::Push(s, d) => Action::append(*s, *d),
        A::Switch(s, d) => Action::switch(*s, *d),
        A::None(false) => Action::default(),
        A::None(d) => Action::None { discard: *d },
    }
}
fn tk(l: &Lex<i8>) -> Tk {
    (l.token, l.start, l.end)
}
pub fn make(l: &L, fl: bool) -> D {
    match l {
        L::Pat(k, i) => Rc::new(Pattern::<i8, u8>::new(*k, crate::gram::RES[*i]).unwrap()),
        L::Con(v) => Rc::new(Constants::<i8, u8>::new(v.clone())),
        L::Pun(v) => Rc::new(Punctuations::<i8, u8>::new(v.clone()).unwrap()),
        L::Map(x, m) => {
            let d = Dyn(make(x, fl));
            // all words at once, or some of them later
            let n = if fl { m.len() } else { m.iter().map(|w| w.0.len()).sum::<usize>() % (m.len() + 1) };
            let mut x = if fl { d.mapping(m.clone()).unwrap() } else { Mapper::new(d, m[..n].to_vec()).unwrap() };
            for w in &m[n..] {
                x.extend_fields(vec![*w]).unwrap();
            }
            Rc::new(x)
        }
        L::Thunk(x, k) => {
            let k = *k;
            let f = move |l: &Lex<i8>, c: &[u8], v: &Vec<Lex<i8>>| thunk_token(k, tk(l), c, past(v));
            let d = Dyn(make(x, fl));
            if fl {
                Rc::new(d.thunk_mapping(f))
            } else {
                Rc::new(ThunkMapper::new(d, f))
            }
        }
        L::Guard(x, k) => {
            let k = *k;
            let f = move |c: &[u8], v: &Vec<Lex<i8>>| guard(k, c, past(v));
            let d = Dyn(make(x, fl));
            if fl {
                Rc::new(d.middleware(f))
            } else {
                Rc::new(Middleware::new(d, f))
            }
        }
        L::Mix(x, a) => {
            let a: Vec<(i8, Action<u8>)> = a.iter().map(|x| (x.0, conv(&x.1))).collect();
            let d = Dyn(make(x, fl));
            if fl {
                Rc::new(d.state_mixin(a))
            } else {
                Rc::new(StateMixin::new(d, a))
            }
        }
        L::TMix(x, k) => {
            let k = *k;
            let f = move |l: &Lex<i8>, c: &[u8], v: &Vec<Lex<i8>>| conv(&thunk_action(k, tk(l), c, past(v)));
            let d = Dyn(make(x, fl));
            if fl {
                Rc::new(d.thunk_mixin(f))
            } else {
                Rc::new(ThunkStateMixin::new(d, f))
            }
        }
    }
}

// ------------------------------------------------------------------ generators
const WORDS: [&str; 14] = ["a", "b", "ab", "ba", "aa", "aab", "\n", " ", "bb", "A", "\r\n", "\0", "\u{e9}", "\t"];
/// token kinds, structural and not
fn kind(r: &mut Rng) -> i8 {
    *r.pick(&[1, 2, 3, 4, -1, -2])
}
fn words(r: &mut Rng, big: bool) -> Vec<(&'static str, i8)> {
    let n = 1 + r.below(if big { 30 } else { 4 });
    let mut v: Vec<(&'static str, i8)> = vec![];
    for _ in 0..n {
        let w: &'static str = if big && r.chance(3, 4) {
            let m = long(r, 8);
            let w: String = (0..m).map(|_| *r.pick(&['a', 'a', 'b'])).collect();
            Box::leak(w.into_boxed_str())
        } else {
            *r.pick(&WORDS)
        };
        if !v.iter().any(|x| x.0 == w) {
            v.push((w, kind(r)));
        }
    }
    v
}
fn base(r: &mut Rng, big: bool) -> L {
    match r.below(4) {
        0 => L::Con(words(r, big)),
        1 => L::Pun(words(r, big)),
        _ => {
            let k = kind(r);
            L::Pat(k, *r.pick(&PATS))
        }
    }
}
/// states of the multi-state tokenizer: few, or (in the long cases) many
fn states(big: bool) -> Vec<u8> {
    if big {
        vec![0, 1, 2, 9, 20, 37, 90, 91, 200, 255]
    } else {
        vec![0, 1, 2]
    }
}
fn action(r: &mut Rng, st: &[u8]) -> A {
    let d = r.chance(1, 4);
    match r.below(6) {
        0 if st.len() > 3 && r.chance(4, 5) => A::Push(*r.pick(st), d),
        0 => A::Pop(d),
        1 | 2 => A::Push(*r.pick(st), d),
        3 | 4 => A::Switch(*r.pick(st), d),
        _ => A::None(d),
    }
}
/// `st`: the states actions may name; none = no actions
fn lexeme(r: &mut Rng, d: usize, st: &[u8]) -> L {
    let big = st.len() > 3;
    if d == 0 || r.chance(1, 3) {
        return base(r, big);
    }
    let x = Box::new(lexeme(r, d - 1, st));
    match r.below(if st.is_empty() { 3 } else { 6 }) {
        0 => {
            let mut m = words(r, big);
            for e in m.iter_mut() {
                e.1 = if r.chance(1, 5) { -e.1 } else { e.1 + 20 };
            }
            L::Map(x, m)
        }
        1 => L::Thunk(x, r.below(9) as u8),
        2 => L::Guard(x, r.below(8) as u8),
        3 | 4 => {
            let n = 1 + r.below(3);
            let mut v: Vec<(i8, A)> = vec![];
            for _ in 0..n {
                let k = kind(r);
                if !v.iter().any(|x| x.0 == k) {
                    v.push((k, action(r, st)));
                }
            }
            L::Mix(x, v)
        }
        _ => L::TMix(x, r.below(8) as u8),
    }
}
fn text(r: &mut Rng, big: bool) -> Vec<u8> {
    let n = r.below(if big { 250 } else { 10 });
    let odd = r.chance(1, 8);
    let t = (0..n).map(|_| if odd && !big && r.chance(1, 6) { 0xC3 } else { *r.pick(b"aaabbb\n ") }).collect();
    spice(r, t)
}

fn tokenizer(states: &[(u8, Vec<L>)], default: u8, combined: bool, fl: bool, order: usize) -> Rc<dyn ITokenization<Token = i8>> {
    if !combined {
        return Rc::new(Tokenizer::<i8, u8>::new(states[0].1.iter().map(|l| make(l, fl)).collect()));
    }
    let mk = |i: usize| states[i].1.iter().map(|l| make(l, fl)).collect::<Vec<_>>();
    let di = states.iter().position(|s| s.0 == default).unwrap();
    let mut c: CombinedTokenizer<i8, u8> = CombinedTokenizer::new(default, mk(di));
    let mut rest: Vec<usize> = (0..states.len()).filter(|i| *i != di).collect();
    if order % 2 == 1 {
        rest.reverse();
    }
    for i in rest {
        c.add_state(states[i].0, mk(i));
    }
    Rc::new(c)
}
type Tok = Result<Rc<dyn ITokenization<Token = i8>>, String>;
fn check_tokens(tok: &Tok, states: &[(u8, Vec<L>)], default: u8, t: &[u8], combined: bool) -> Option<Result<(), String>> {
    if t.is_empty() {
        return None;
    }
    let want = match tokens(states, default, t) {
        Err(_) => return None,
        Ok(w) => w,
    };
    let got = no_panic(|| {
        let tok = match tok {
            Ok(t) => t,
            Err(p) => panic!("{}", p),
        };
        let r = with_text(t, |t| tok.tokenize(&Code::new(t)));
        match r {
            Ok(v) => Ok(v.iter().map(tk).collect::<Vec<_>>()),
            Err(e) => Err(e.pointer),
        }
    });
    if got == Ok(want.clone()) {
        Some(Ok(()))
    } else {
        Some(Err(format!(
            "lexemes {:?} default state {} ({}), text {:?}: {:?}, expected {:?}",
            states,
            default,
            if combined { "combined" } else { "single" },
            String::from_utf8_lossy(t),
            got,
            want
        )))
    }
}
fn tiling(v: &[Tk], t: &[u8]) -> bool {
    let mut at = 0;
    for (i, x) in v.iter().enumerate() {
        if x.1 != at || x.2 < x.1 || (i + 1 < v.len() && x.2 == x.1) {
            return false;
        }
        at = x.2;
    }
    at == t.len() && v.last().map_or(false, |x| x.0 == i8::MAX && x.1 == x.2)
}
/// the words a lexeme knows
fn wordlist(l: &L, out: &mut Vec<&'static str>) {
    match l {
        L::Pat(..) => {}
        L::Con(v) | L::Pun(v) => out.extend(v.iter().map(|w| w.0)),
        L::Map(x, v) => {
            out.extend(v.iter().map(|w| w.0));
            wordlist(x, out)
        }
        L::Thunk(x, _) | L::Guard(x, _) | L::Mix(x, _) | L::TMix(x, _) => wordlist(x, out),
    }
}
/// one token of 70 000 bytes
fn huge_lexeme(run: &mut Run) {
    let w: &'static str = Box::leak("a".repeat(70_000).into_boxed_str());
    let v: &'static str = Box::leak("a".repeat(3_000).into_boxed_str());
    for l in [
        L::Pat(1, 0),
        L::Pat(1, 1),
        L::Pat(1, 2),
        L::Con(vec![("a", 1), (w, 2), (v, 3)]),
        L::Pun(vec![("a", 1), (v, 3)]),
        L::Map(Box::new(L::Pat(1, 0)), vec![("a", 1), (w, 4), (v, 5)]),
        L::Thunk(Box::new(L::Pat(1, 1)), 7),
    ] {
        for k in 0..4 {
            if !run.begin() {
                continue;
            }
            let t = format!("ab{}{}", if k % 2 == 0 { w } else { v }, ["b", "ab", "", "\n"][k]).into_bytes();
            let mut st = vec![];
            let want = lex(&l, &t, 2, (0, None), &mut st).unwrap();
            let got = no_panic(|| make(&l, k > 1).consume(&Code::new(&t), 2, &vec![], &mut vec![]).map(|x| tk(&x)));
            if got != Ok(want) {
                let s = format!("{:?}", l).chars().take(60).collect::<String>();
                return run.fail(format!("{}.. on \"ab\", {} times \"a\" and the rest, at 2: {:?}, expected {:?}", s, if k % 2 == 0 { 70_000 } else { 3_000 }, got, want));
            }
            run.count(&(&l, k), true);
        }
    }
}
/// texts of more than 2^16 tokens
fn huge_tok(run: &mut Run) {
    for combined in [false, true] {
        if !run.begin() {
            continue;
        }
        let base = || L::Pun(vec![("a", 1), ("b", 2), ("\n", -1)]);
        let push = L::Mix(Box::new(base()), vec![(1, A::Push(1, false)), (2, A::Pop(false))]);
        let states = vec![(0, vec![if combined { push.clone() } else { base() }]), (1, vec![push])];
        let mut t = vec![b'a'; 66_000];
        t.extend(vec![b'b'; 65_990]);
        t.extend_from_slice(b"\na?");
        for cut in [1, 0] {
            let t = &t[..t.len() - cut];
            let tok = no_panic(|| tokenizer(&states, 0, combined, false, 0));
            match check_tokens(&tok, &states, 0, t, combined) {
                Some(Err(_)) => run.fail(format!("66000 times \"a\", 65990 times \"b\" and {:?}, lexemes {:?}: wrong tokens or error position", if cut == 1 { "\na" } else { "\na?" }, states)),
                Some(Ok(())) => run.count(&(combined, cut), true),
                None => run.fail("the reference has no answer".into()),
            }
        }
        if run.done() {
            return;
        }
    }
}
fn run_tok(run: &mut Run, n: u64, states_p: bool) {
    huge_tok(run);
    for _ in 0..n {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let combined = r.chance(if states_p { 7 } else { 4 }, 8);
        let big = r.chance(1, 40);
        let st = if combined { states(big) } else { vec![0] };
        let acts = if combined { st.clone() } else { vec![] };
        let states: Vec<(u8, Vec<L>)> = st
            .iter()
            .map(|s| {
                let k = 1 + r.below(3);
                let mut v: Vec<L> = (0..k).map(|_| lexeme(&mut r, 2, &acts)).collect();
                if big || r.chance(1, 2) {
                    v.push(L::Pat(6, 1));
                    v.push(L::Con(vec![("\n", 5), (" ", 4)]));
                }
                (*s, v)
            })
            .collect();
        let default = *r.pick(&st);
        let toks: Vec<Tok> = (0..2).map(|k| no_panic(|| tokenizer(&states, default, combined, k == 0, k))).collect();
        for k in 0..5 {
            let t = text(&mut r, big);
            match check_tokens(&toks[k % 2], &states, default, &t, combined) {
                None => {}
                Some(Ok(())) => {
                    if let Ok(Ok(v)) = tokens(&states, default, &t) {
                        if !tiling(&v, &t) {
                            run.fail(format!("reference does not tile: {:?} {:?}", states, t));
                        }
                    }
                    run.count(&(&states, &t), t.len() > 1);
                    run.sample(|| format!("{:?} on {:?}", states, String::from_utf8_lossy(&t)));
                }
                Some(Err(s)) => {
                    run.fail(s);
                    break;
                }
            }
        }
        if run.done() {
            return;
        }
    }
}
pub fn c01(run: &mut Run) {
    let n = run.n(30_000, 600_000);
    run_tok(run, n, false);
}
pub fn c02(run: &mut Run) {
    let n = run.n(40_000, 800_000);
    run_tok(run, n, true);
}
pub fn c04(run: &mut Run) {
    huge_lexeme(run);
    for _ in 0..run.n(60_000, 1_200_000) {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let big = r.chance(1, 60);
        let l = lexeme(&mut r, 3, &states(big));
        let mut known = vec![];
        wordlist(&l, &mut known);
        let made: Vec<Result<D, String>> = (0..2).map(|k| no_panic(|| make(&l, k == 0))).collect();
        for k in 0..4 {
            let mut t = text(&mut r, big);
            if big && !known.is_empty() {
                for _ in 0..3 {
                    let at = r.below(t.len() + 1);
                    let w = r.pick(&known).bytes();
                    t.splice(at..at, w);
                }
            }
            let n = r.below(if big { 300 } else { 4 });
            let prev: Vec<Lex<i8>> = (0..n).map(|i| Lex::new(*r.pick(&[1, 2, -1]), i, i + 1 + i % 2)).collect();
            let st0: Vec<u8> = (0..r.below(3)).map(|i| i as u8).collect();
            let mut bad = None;
            for at in 0..=t.len() {
                let mut st = st0.clone();
                let want = match lex(&l, &t, at, past(&prev), &mut st) {
                    Ok(w) => w,
                    Err(_) => continue,
                };
                let got = no_panic(|| {
                    let l = match &made[k % 2] {
                        Ok(l) => l,
                        Err(p) => panic!("{}", p),
                    };
                    let mut s2 = st0.clone();
                    let r = with_text(&t, |t| l.consume(&Code::new(t), at, &prev, &mut s2));
                    (r.map(|x| tk(&x)), s2)
                });
                if got != Ok((want, st.clone())) {
                    bad = Some(format!(
                        "lexeme {:?}, text {:?} at {}, {} earlier tokens, states {:?}: {:?}, expected {:?}",
                        l,
                        String::from_utf8_lossy(&t),
                        at,
                        n,
                        st0,
                        got,
                        (want, st)
                    ));
                    break;
                }
            }
            match bad {
                Some(s) => {
                    run.fail(s);
                    break;
                }
                None => {
                    run.count(&(&l, &t, n), t.len() > 0);
                    run.sample(|| format!("{:?} on {:?}", l, String::from_utf8_lossy(&t)));
                }
            }
        }
        if run.done() {
            return;
        }
    }
}
