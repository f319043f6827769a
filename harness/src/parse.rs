//! Properties of parsing: C05-C10, C12, C13 (raw-token switches), C15-C19.
use crate::gen::*;
use crate::gram::*;
use crate::util::*;
use lang_pt::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

fn show(gr: &Grammar, e: &Env, i: usize) -> String {
    let toks: Vec<i8> = e.toks.iter().map(|t| t.0).collect();
    format!(
        "grammar={:?} mode={:?} {} at={}",
        gr.rules,
        e.mode,
        if e.mode == Mode::L { format!("text={:?}", String::from_utf8_lossy(&e.code)) } else { format!("tokens={:?} text={:?}", toks, String::from_utf8_lossy(&e.code)) },
        i
    )
}
fn reference<'g>(gr: &'g Grammar, e: &'g Env, i: usize) -> (Res, Ref<'g>) {
    let mut r = Ref::new(gr, e);
    r.hit(e.start(e.mode, i));
    let res = r.eval(&G::Ref(0), e.mode, i);
    (res, r)
}
/// compare the real root production with the reference; None = outside the property
/// a grammar's productions, built once and then used on every input
struct Real2 {
    b: [Result<Built, String>; 2],
}
fn prods(gr: &Grammar) -> Real2 {
    Real2 { b: [no_panic(|| build(gr, false, false)), no_panic(|| build(gr, true, false))] }
}
impl Real2 {
    fn get(&self, fluent: bool) -> &P {
        match &self.b[fluent as usize] {
            Ok(b) => &b.rules[0],
            Err(p) => panic!("{}", p),
        }
    }
}
fn differ(gr: &Grammar, pr: &Real2, e: &Env, i: usize, fluent: bool, cmp_max: bool) -> Option<Result<Res, String>> {
    let (want, rf) = reference(gr, e, i);
    if want == Err(E::Skip) {
        return None;
    }
    let reach = rf.reach;
    let got = no_panic(|| real(pr.get(fluent), e, i));
    Some(match got {
        Err(p) => Err(format!("{}; {}; expected {:?}", show(gr, e, i), p, want)),
        Ok(r) if r.res != want => Err(format!("{}; got {:?}, expected {:?}", show(gr, e, i), r.res, want)),
        Ok(r) if cmp_max && r.max != reach => {
            Err(format!("{}; furthest position {} instead of {} (result {:?})", show(gr, e, i), r.max, reach, want))
        }
        Ok(_) => Ok(want),
    })
}
fn all_envs(mode: Mode, max: usize, two_raw: bool) -> Vec<Env> {
    let kinds: &[i8] = match mode {
        Mode::L => &[],
        _ if two_raw => &[1, 2, -1, -2],
        _ => &[1, 2, -1],
    };
    let mut out = vec![];
    if mode == Mode::L {
        let mut cur: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..=max {
            let mut nx = vec![];
            for c in &cur {
                out.push(Env::text(c));
                for b in b"ab\n" {
                    let mut d = c.clone();
                    d.push(*b);
                    nx.push(d);
                }
            }
            cur = nx;
        }
    } else {
        let mut cur: Vec<Vec<i8>> = vec![vec![]];
        for _ in 0..=max {
            let mut nx = vec![];
            for c in &cur {
                out.push(Env::tokens(mode, c));
                for b in kinds {
                    let mut d = c.clone();
                    d.push(*b);
                    nx.push(d);
                }
            }
            cur = nx;
        }
    }
    out
}
/// inputs of more than 2^16 bytes and tokens, for grammars that read them in a few passes; attempts and whole parses
fn huge(run: &mut Run, fam: &[(Mode, Vec<G>)]) {
    for (mode, rules) in fam {
        let mut deep = false;
        rules.iter().enumerate().for_each(|(i, g)| walk(g, &mut |x| deep |= matches!(x, G::Ref(j) if *j <= i)));
        // one level of recursion for each item
        let n: usize = if deep { 10_000 } else { 66_000 };
        for tail in 0..3 {
            if !run.begin() {
                if run.done() {
                    return;
                }
                continue;
            }
            let gr = Grammar { rules: rules.iter().cloned().map(Some).collect() };
            let e = if *mode == Mode::L {
                let mut c = vec![b'a'; n];
                c.extend_from_slice([&b""[..], b"b", b"bb\naa"][tail]);
                Env::text(&c)
            } else {
                let mut k = vec![1i8; n];
                if tail == 1 {
                    // structural and raw positions apart from the start
                    k.insert(0, -1);
                }
                k.extend_from_slice([&[][..], &[-1, 2], &[2, 2, -1, 1, 1]][tail]);
                Env::tokens(*mode, &k)
            };
            let mut rf = Ref::new(&gr, &e);
            rf.limit = 4_000_000;
            let want = rf.eval(&G::Ref(0), *mode, 0);
            if want == Err(E::Skip) {
                continue;
            }
            let exp = expected_pointer(&e, rf.reach);
            let pr = prods(&gr);
            let got = no_panic(|| real(pr.get(false), &e, 0).res);
            let brief = |r: &Res| match r {
                Ok((j, t)) => format!("stops at {} with {} nodes, the last {:?}", j, t.len(), t.last().map(|t| (t.node, t.start, t.end, t.bound, t.kids.len()))),
                Err(x) => format!("{:?}", x),
            };
            let here = format!("grammar={:?} mode={:?} on {} times \"a\" (token 1) and ending {}", gr.rules, mode, n, tail);
            let mut bad = match &got {
                Err(p) => Some(p.clone()),
                Ok(r) if *r != want => Some(brief(r)),
                _ => None,
            };
            if bad.is_none() && *mode != Mode::R {
                bad = match (no_panic(|| full_parse(pr.get(true), &e)), &want) {
                    (Err(p), _) | (Ok(Err(p)), _) => Some(p),
                    (Ok(Ok(Ok(t))), Ok((_, u))) if t == *u => None,
                    (Ok(Ok(Err((q, msg)))), Err(E::Un)) if q == exp && msg.contains(&line_col(&e.code, q)) => None,
                    (Ok(Ok(Err((q, msg)))), Err(E::Inv(p, m))) if q == *p && msg.contains(m.as_str()) && msg.contains(&line_col(&e.code, q)) => None,
                    (Ok(Ok(Ok(t))), _) => Some(format!("the parser yields {} nodes", t.len())),
                    (Ok(Ok(Err(x))), _) => Some(format!("the parser reports {:?}, expected position {}", x, exp)),
                };
            }
            match bad {
                Some(b) => {
                    run.fail(format!("{}: {}; expected {}", here, b, brief(&want)));
                    return;
                }
                None => run.count(&(&gr, tail, n), true),
            }
        }
    }
}
fn huge_lists() -> Vec<(Mode, Vec<G>)> {
    let mut v = vec![];
    for m in MODES {
        let (a, b) = if m == Mode::L { (G::Const("a", Some(1)), G::Const("b", Some(2))) } else { (G::Tok(1, Some(1)), G::Tok(2, Some(2))) };
        let all = G::List(Box::new(G::Union(vec![G::Concat(vec![a.clone(), b.clone(), a.clone()]), a.clone()])));
        v.push((m, vec![G::Concat(vec![all, G::OptH(bx(&b)), G::Eof(Some(3))])]));
        v.push((m, vec![G::Node(Box::new(G::Sep(bx(&a), Box::new(G::Null(true)), true)), 4)]));
        v.push((m, vec![G::Concat(vec![G::Look(Box::new(G::List(bx(&a))), Some(5)), G::Suf(Box::new(G::Node(Box::new(G::List(bx(&a))), 6)), true, vec![(G::Concat(vec![b.clone(), b.clone()]), 7), (b.clone(), 8)])])]));
        v.push((m, vec![G::Concat(vec![G::Valid(Box::new(G::List(bx(&a))), 1), G::Valid(Box::new(G::OptH(bx(&b))), 4)])]));
        v.push((m, vec![G::Suf(Box::new(G::OptH(Box::new(G::List(Box::new(G::Valid(bx(&a), 7)))))), true, vec![(b.clone(), 5)])]));
        v.push((m, vec![G::Concat(vec![G::Opt(Box::new(G::Sep(Box::new(G::Valid(bx(&a), 7)), Box::new(G::Null(false)), true))), b.clone()])]));
        let n = || G::Union(vec![b.clone(), G::Null(false)]);
        v.push((m, vec![G::Concat(vec![G::List(bx(&a)), n(), n(), G::Opt(bx(&b)), G::Opt(bx(&a)), n()])]));
        v.push((m, vec![G::Concat(vec![G::List(bx(&a)), G::Suf(Box::new(n()), false, vec![(G::Null(true), 5)])])]));
        v.push((m, vec![G::Concat(vec![G::Node(bx(&a), 9), G::OptH(Box::new(G::Ref(0)))])]));
        v.push((m, vec![G::Node(Box::new(G::Suf(bx(&a), true, vec![(G::Concat(vec![G::Ref(0), G::OptH(bx(&b))]), 7)])), 4)]));
    }
    v
}
/// terminals which match more than 2^16 bytes, and a sequence which takes many nodes from one symbol
fn huge_terms() -> Vec<(Mode, Vec<G>)> {
    let long: &'static str = Box::leak("a".repeat(65_999).into_boxed_str());
    let rest = || G::OptH(Box::new(G::List(Box::new(G::Re(1, Some(5))))));
    let mut v = vec![];
    for t in [
        G::Re(0, Some(1)),
        G::Re(1, None),
        G::Re(2, Some(2)),
        G::Const(long, Some(3)),
        G::ConstSet(vec![("aa", Some(1)), (long, Some(4)), ("ab", None)]),
        G::Punct(vec![("a", Some(1)), (&long[..2_000], Some(6))]),
    ] {
        v.push((Mode::L, vec![G::Concat(vec![t, rest(), G::OptH(Box::new(G::Const("\n", None)))])]));
    }
    v
}
fn huge_later() -> Vec<(Mode, Vec<G>)> {
    let mut v = vec![];
    for m in MODES {
        let a = if m == Mode::L { G::Const("a", Some(1)) } else { G::Tok(1, Some(1)) };
        let l = || Box::new(G::List(bx(&a)));
        v.push((m, vec![G::Concat(vec![a.clone(), G::List(l()), G::Null(true)])]));
        v.push((m, vec![G::Suf(bx(&a), true, vec![(G::Sep(l(), Box::new(G::Null(false)), false), 4)])]));
    }
    v
}
fn huge_cached() -> Vec<(Mode, Vec<G>)> {
    let mut v = vec![];
    for m in [Mode::L, Mode::F] {
        let (a, b) = if m == Mode::L { (G::ConstSet(vec![("a", Some(1)), ("ab", None)]), G::Const("b", Some(2))) } else { (G::TokSet(vec![(1, Some(1)), (3, None)]), G::Tok(2, Some(2))) };
        let c = G::Cache(Box::new(G::Ref(1)), 1001);
        let l = G::List(bx(&c));
        // results remembered from the innermost outwards
        let r = G::Cache(Box::new(G::Hidden(Box::new(G::Concat(vec![a.clone(), G::OptH(Box::new(G::Ref(1)))])))), 1002);
        v.push((m, vec![G::Union(vec![G::Concat(vec![G::Ref(1), b.clone(), b.clone(), b.clone()]), G::Concat(vec![G::Ref(1), G::Eof(None)])]), r.clone()]));
        let c = if m == Mode::L { G::Const("c", None) } else { G::Tok(3, None) };
        v.push((m, vec![G::Concat(vec![G::Ref(1), c]), r]));
        v.push((m, vec![G::Union(vec![G::Concat(vec![l.clone(), b.clone(), b.clone()]), G::Concat(vec![l.clone(), G::Eof(None)]), G::Concat(vec![l, b])]), G::Node(bx(&a), 9)]));
    }
    v
}
const MODES: [Mode; 3] = [Mode::L, Mode::F, Mode::R];

/// a directed family: every grammar on every small input, from every position
fn family(run: &mut Run, fam: &[(Mode, G)], max: usize, cmp_max: bool) {
    for (mode, g) in fam {
        let gr = Grammar { rules: vec![Some(g.clone())] };
        if !run.begin() {
            continue;
        }
        let pr = prods(&gr);
        for e in all_envs(*mode, max, has(&gr, &|g| matches!(g, G::Tok(-2, _)))) {
            for i in 0..=e.last(*mode) {
                for fluent in [false, true] {
                    match differ(&gr, &pr, &e, i, fluent, cmp_max) {
                        None => {}
                        Some(Ok(w)) => {
                            run.count(&(&gr, &e, i), true);
                            run.sample(|| format!("{} -> {:?}", show(&gr, &e, i), w));
                        }
                        Some(Err(s)) => {
                            run.fail(s);
                            return;
                        }
                    }
                }
            }
        }
        if run.done() {
            return;
        }
    }
}
fn random(run: &mut Run, n: u64, mk: &dyn Fn(&mut Rng) -> Gn, accept: &dyn Fn(&Grammar) -> bool, cmp_max: bool) {
    for _ in 0..n {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let o = mk(&mut r);
        let mut g = gen(&mut r, o.o.clone());
        let gr = match &o.top {
            None => g.grammar(),
            Some(f) => {
                let mut gr = g.grammar();
                let t = f(&mut g);
                gr.rules[0] = Some(t);
                gr
            }
        };
        if !accept(&gr) || !sane(&gr) {
            continue;
        }
        let pr = prods(&gr);
        for k in 0..6 {
            let e = g.env();
            let i = if k % 2 == 0 { 0 } else { g.r.below(e.last(e.mode) + 1) };
            match differ(&gr, &pr, &e, i, k % 3 == 0, cmp_max) {
                None => {}
                Some(Ok(w)) => {
                    let nt = !matches!(w, Err(E::Un)) || e.code.len() > 0;
                    run.count(&(&gr, &e, i), nt);
                    run.sample(|| format!("{} -> {:?}", show(&gr, &e, i), w));
                }
                Some(Err(s)) => {
                    run.fail(s);
                    break;
                }
            }
        }
        if run.done() {
            return;
        }
    }
}
pub struct Gn {
    o: Opt,
    top: Option<Box<dyn Fn(&mut Gen) -> G>>,
}
fn plain(o: Opt) -> Gn {
    Gn { o, top: None }
}

fn terminals(mode: Mode) -> Vec<G> {
    let mut v = vec![G::Eof(Some(9)), G::Eof(None), G::Null(false), G::Null(true)];
    if mode == Mode::L {
        for w in WORDS {
            v.push(G::Const(w, Some(3)));
            v.push(G::Const(w, None));
        }
        v.push(G::ConstSet(vec![("a", Some(1)), ("ab", Some(2)), ("aab", None), ("", Some(4))]));
        v.push(G::ConstSet(vec![("ba", None), ("b", Some(2))]));
        v.push(G::ConstSet(vec![("aa", Some(1)), ("ab", Some(2)), ("", None)]));
        v.push(G::Punct(vec![("a", Some(1)), ("aab", Some(2)), ("b", None)]));
        v.push(G::Punct(vec![("aab", Some(1)), ("aa", None), ("\n", Some(5)), ("ab", Some(6))]));
        v.push(G::Punct(vec![("abb", Some(1))]));
        for i in 0..RES.len() {
            v.push(G::Re(i, Some(7)));
            v.push(G::Re(i, None));
        }
    } else {
        for t in [1, 2, -1] {
            v.push(G::Tok(t, Some(3)));
            v.push(G::Tok(t, None));
        }
        v.push(G::TokSet(vec![(2, Some(1)), (1, Some(2)), (3, None)]));
        v.push(G::TokSet(vec![(3, Some(1)), (-1, None), (1, Some(8))]));
        v.push(G::TokSet(vec![(1, None)]));
        v.push(G::TokSetV(vec![2, 1], Some(5)));
        v.push(G::TokSetV(vec![3, 2, -1], None));
    }
    v
}
fn small(mode: Mode) -> Vec<G> {
    if mode == Mode::L {
        vec![G::Const("a", Some(1)), G::Const("b", None), G::ConstSet(vec![("ab", Some(2)), ("", None)]), G::Re(3, Some(3)), G::Re(2, Some(4)), G::Null(false), G::Null(true), G::Eof(Some(6))]
    } else {
        vec![G::Tok(1, Some(1)), G::Tok(2, None), G::TokSet(vec![(2, Some(2)), (1, None)]), G::Null(false), G::Null(true), G::Eof(Some(6)), G::Tok(-1, Some(7))]
    }
}
fn bx(g: &G) -> Box<G> {
    Box::new(g.clone())
}

/// constructs of about 300 parts, where only the last few apply to the text
fn many_parts() -> Vec<(Mode, G)> {
    let mut v = vec![];
    let words: Vec<&'static str> = {
        // 290 words of nine letters, longer than the texts; leaked once per run
        let mut w: Vec<&'static str> = (0..290usize)
            .map(|i| &*Box::leak((0..9).map(|b| if i >> b & 1 == 1 { 'b' } else { 'a' }).collect::<String>().into_boxed_str()))
            .collect();
        w.extend(["ab", "b"]);
        w
    };
    for m in MODES {
        let t = |k: usize, n: u8| if m == Mode::L { G::Const(["a", "b"][k], Some(n)) } else { G::Tok(1 + k as i8, Some(n)) };
        let bb = G::Concat(vec![t(1, 1), t(1, 2)]);
        for n in [20, 70, 140, 300usize] {
            let mut alts = vec![bb.clone(); n];
            alts.extend([t(0, 3), t(1, 4)]);
            v.push((m, G::Union(alts.clone())));
            v.push((m, G::List(Box::new(G::Union(alts.clone())))));
            let mut alts_opt = alts.clone();
            alts_opt.push(G::Null(false));
            v.push((m, G::Concat(vec![G::Union(alts_opt), t(0, 5)])));
            for st in [false, true] {
                v.push((m, G::Suf(Box::new(t(0, 7)), st, alts.iter().enumerate().map(|(i, a)| (a.clone(), (i % 199) as u8 + 1)).collect())));
            }
            let mut c = vec![G::OptH(Box::new(bb.clone())); n];
            c.extend([t(0, 3), G::Opt(Box::new(t(1, 4)))]);
            v.push((m, G::Concat(c)));
            if m == Mode::L {
                let k = words.len() - n.min(words.len());
                let set: Vec<(&'static str, Option<u8>)> = words[k..].iter().enumerate().map(|(i, w)| (*w, if i % 7 == 0 { None } else { Some((i % 199) as u8 + 1) })).collect();
                v.push((m, G::ConstSet(set.clone())));
                v.push((m, G::Punct(set)));
            } else if n < 100 {
                let set: Vec<i8> = (0..n as i8).map(|i| i + 40).chain([2, 1]).collect();
                v.push((m, G::TokSetV(set.clone(), Some(9))));
                v.push((m, G::TokSet(set.iter().map(|t| (*t, if t % 7 == 0 { None } else { Some(*t as u8) })).collect())));
            }
        }
    }
    v
}
pub fn c05(run: &mut Run) {
    huge(run, &huge_terms());
    if run.done() {
        return;
    }
    let mut fam = vec![];
    for m in MODES {
        for t in terminals(m) {
            fam.push((m, t));
        }
    }
    family(run, &fam, run.n(4, 6) as usize, true);
    family(run, &many_parts(), 3, true);
    let n = run.n(20_000, 400_000);
    random(
        run,
        n,
        &|r| Gn { o: opt(MODES[r.below(3)]), top: Some(Box::new(|g| g.terminal())) },
        &|_| true,
        true,
    );
}
pub fn c06(run: &mut Run) {
    huge(run, &huge_lists());
    huge(run, &huge_later());
    if run.done() {
        return;
    }
    let mut fam = vec![];
    for m in MODES {
        let s = small(m);
        for a in &s {
            let nul = nullable(a, &[]);
            fam.push((m, G::List(bx(a))));
            fam.push((m, G::Opt(bx(a))));
            fam.push((m, G::OptH(bx(a))));
            fam.push((m, G::List(Box::new(G::Opt(bx(a))))));
            fam.push((m, G::Concat(vec![])));
            for b in &s {
                fam.push((m, G::Concat(vec![a.clone(), b.clone()])));
                fam.push((m, G::List(Box::new(G::Concat(vec![a.clone(), b.clone()])))));
                fam.push((m, G::Sep(bx(a), bx(b), false)));
                fam.push((m, G::Sep(bx(a), bx(b), true)));
                fam.push((m, G::Sep(Box::new(G::Opt(bx(a))), bx(b), true)));
                fam.push((m, G::Sep(Box::new(G::OptH(bx(a))), Box::new(G::Opt(bx(b))), false)));
                fam.push((m, G::Concat(vec![G::Sep(bx(a), bx(b), false), b.clone()])));
                if !nul {
                    fam.push((m, G::Concat(vec![G::OptH(bx(a)), b.clone(), a.clone()])));
                }
                fam.push((m, G::Concat(vec![G::List(bx(a)), G::Opt(bx(b)), a.clone()])));
            }
        }
    }
    family(run, &fam, run.n(4, 5) as usize, false);
    family(run, &many_parts(), 3, false);
    let n = run.n(25_000, 600_000);
    random(
        run,
        n,
        &|r| {
            let mut o = opt(MODES[r.below(3)]);
            o.choice = false;
            o.valid = r.chance(1, 6);
            o.raw = o.mode != Mode::L && r.chance(1, 4);
            plain(o)
        },
        &|_| true,
        false,
    );
}
pub fn c07(run: &mut Run) {
    huge(run, &huge_lists());
    huge(run, &huge_later());
    if run.done() {
        return;
    }
    let mut fam = vec![];
    for m in MODES {
        let s = small(m);
        for a in &s {
            for b in &s {
                fam.push((m, G::Union(vec![a.clone(), b.clone()])));
                fam.push((m, G::Union(vec![G::Concat(vec![a.clone(), b.clone()]), a.clone()])));
                fam.push((m, G::Union(vec![b.clone(), G::OptH(bx(a)), a.clone()])));
                fam.push((m, G::Union(vec![G::Concat(vec![a.clone(), b.clone()]), G::Concat(vec![a.clone(), a.clone()]), b.clone()])));
                fam.push((m, G::Union(vec![G::List(bx(b)), G::Opt(bx(a))])));
                for st in [false, true] {
                    fam.push((m, G::Suf(bx(a), st, vec![(b.clone(), 50), (a.clone(), 51)])));
                    fam.push((m, G::Suf(bx(a), st, vec![(G::Concat(vec![b.clone(), a.clone()]), 50), (b.clone(), 51)])));
                    fam.push((m, G::Suf(bx(a), st, vec![(b.clone(), 50), (G::Opt(bx(a)), 51)])));
                    fam.push((m, G::Suf(bx(a), st, vec![(G::OptH(bx(b)), 50), (a.clone(), 51)])));
                    fam.push((m, G::Concat(vec![a.clone(), G::Suf(Box::new(G::Opt(bx(a))), st, vec![(b.clone(), 50)])])));
                }
            }
        }
    }
    // alternatives and suffixes that all start with a raw token, and some that do among others
    let sp = |k, v| G::NonStr(Box::new(G::Tok(k, Some(v))), false);
    let fill = |k, v| G::NonStr(Box::new(G::Tok(k, Some(v))), true);
    let two = G::NonStr(Box::new(G::Concat(vec![G::Tok(-1, Some(5)), G::Tok(-2, Some(6))])), false);
    for alts in [
        vec![sp(-1, 1), sp(-2, 2)],
        vec![two.clone(), fill(-1, 1), sp(-2, 2), sp(-1, 3)],
        vec![fill(-2, 1), G::Hidden(Box::new(sp(-1, 2)))],
        vec![sp(-1, 1), G::Tok(1, Some(2))],
        vec![G::Tok(1, Some(1)), sp(-1, 2), G::Null(true)],
        vec![G::NonStr(Box::new(G::TokSet(vec![(-1, Some(1)), (1, Some(2))])), false), G::Tok(1, Some(3))],
    ] {
        let u = G::Union(alts.clone());
        fam.push((Mode::F, u.clone()));
        fam.push((Mode::F, G::Concat(vec![G::Tok(1, Some(7)), u.clone(), G::Tok(2, Some(8))])));
        fam.push((Mode::F, G::Concat(vec![G::Tok(1, None), G::OptH(bx(&u)), G::Tok(1, Some(8))])));
        for st in [false, true] {
            let v = alts.iter().enumerate().map(|(i, a)| (a.clone(), 50 + i as u8)).collect::<Vec<_>>();
            fam.push((Mode::F, G::Suf(Box::new(G::Tok(1, Some(7))), st, v.clone())));
            fam.push((Mode::F, G::Concat(vec![G::Tok(2, None), G::Suf(Box::new(G::OptH(Box::new(G::Tok(1, Some(7))))), st, v), G::Opt(Box::new(G::Tok(2, Some(8))))])));
        }
    }
    family(run, &fam, run.n(3, 5) as usize, false);
    family(run, &many_parts(), 3, false);
    let n = run.n(25_000, 600_000);
    random(
        run,
        n,
        &|r| {
            let mut o = opt(MODES[r.below(3)]);
            o.raw = o.mode == Mode::F && r.chance(1, 4);
            o.valid = r.chance(1, 5);
            o.rules = 1 + r.below(2);
            let suf = r.chance(1, 3);
            Gn {
                o,
                top: Some(Box::new(move |g| {
                    if g.o.big && suf {
                        G::Union(g.skewed())
                    } else if g.o.big {
                        g.wide()
                    } else if suf {
                        let l = Box::new(g.gen(1));
                        let n = 1 + g.r.below(3);
                        let s = (0..n).map(|i| (g.gen(1), 60 + i as u8)).collect();
                        G::Suf(l, g.r.chance(1, 2), s)
                    } else {
                        G::Union(g.many(2, 1, 4))
                    }
                })),
            }
        },
        &strict,
        false,
    );
}
pub fn c08(run: &mut Run) {
    let mut fam = vec![];
    for m in MODES {
        let s = small(m);
        for a in &s {
            for b in &s {
                let inner = [a.clone(), G::Concat(vec![a.clone(), b.clone()]), G::List(bx(a)), G::Concat(vec![a.clone(), G::Node(bx(b), 77)])];
                for x in &inner {
                    for w in [G::Hidden(bx(x)), G::Node(bx(x), 40), G::Look(bx(x), Some(41)), G::Look(bx(x), None)] {
                        fam.push((m, G::Concat(vec![w.clone(), G::Opt(bx(a))])));
                        fam.push((m, w));
                    }
                    for id in 0..7 {
                        fam.push((m, G::Valid(bx(x), id)));
                    }
                }
            }
        }
    }
    family(run, &fam, run.n(3, 4) as usize, false);
    let n = run.n(25_000, 600_000);
    random(
        run,
        n,
        &|r| {
            let mut o = opt(MODES[r.below(3)]);
            o.valid = r.chance(1, 2);
            o.choice = r.chance(1, 2);
            let w = r.below(4);
            Gn {
                o,
                top: Some(Box::new(move |g| {
                    let x = Box::new(if g.o.big { g.wide() } else { g.gen(2) });
                    match w {
                        0 => G::Hidden(x),
                        1 => G::Node(x, 99),
                        2 => G::Look(x, g.val()),
                        _ => G::Valid(x, g.r.below(7)),
                    }
                })),
            }
        },
        &strict,
        false,
    );
}

struct FixedTok(Vec<(i8, usize, usize)>);
impl ITokenization for FixedTok {
    type Token = i8;
    fn tokenize(&self, _: &Code) -> Result<Vec<Lex<i8>>, ParseError> {
        Ok(self.0.iter().map(|t| Lex::new(t.0, t.1, t.2)).collect())
    }
    fn build_grammar(&self) -> Result<String, std::fmt::Error> {
        Ok(String::new())
    }
}
/// a whole parse through the parser types
pub fn full_parse(p: &P, e: &Env) -> Result<Result<Vec<T>, (usize, String)>, String> {
    let r = if e.mode == Mode::L {
        let q = LexerlessParser::new(p.clone()).map_err(|e| format!("rejected: {}", e))?;
        with_text(&e.code, |t| q.parse(t))
    } else {
        let q = DefaultParser::new(Rc::new(FixedTok(e.toks.clone())), p.clone()).map_err(|e| format!("rejected: {}", e))?;
        with_text(&e.code, |t| q.parse(t))
    };
    Ok(match r {
        Ok(v) => Ok(v.iter().map(tree).collect()),
        Err(x) => Err((x.pointer, x.message)),
    })
}
fn line_col(code: &[u8], p: usize) -> String {
    let line = 1 + code[..p].iter().filter(|c| **c == b'\n').count();
    let col = 1 + code[..p].iter().rev().take_while(|c| **c != b'\n').count();
    format!("{{ line: {}, column: {} }}", line, col)
}
/// where a mismatch must be reported
fn expected_pointer(e: &Env, reach: usize) -> usize {
    if e.mode == Mode::L {
        reach
    } else {
        e.fl.iter().map(|f| e.toks[*f].1).find(|s| *s >= reach).unwrap_or(e.code.len())
    }
}
/// run whole parses of random grammars and compare outcome and report
fn whole(run: &mut Run, n: u64, mk: &dyn Fn(&mut Rng) -> Opt, accept: &dyn Fn(&Grammar) -> bool, only: &dyn Fn(&Res) -> bool, check_unparsed: bool) {
    for _ in 0..n {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let o = mk(&mut r);
        let mut g = gen(&mut r, o);
        let gr = g.grammar();
        if !accept(&gr) || !sane(&gr) {
            continue;
        }
        let pr = prods(&gr);
        for k in 0..8 {
            let e = g.env();
            let (want, rf) = reference(&gr, &e, 0);
            if want == Err(E::Skip) || !only(&want) {
                continue;
            }
            let exp = expected_pointer(&e, rf.reach);
            let got = no_panic(|| full_parse(pr.get(k % 2 == 0), &e));
            let mut bad = None;
            match got {
                Err(p) => bad = Some(p),
                Ok(Err(p)) => bad = Some(p),
                Ok(Ok(o)) => match (&want, &o) {
                    (Ok((_, t)), Ok(u)) => {
                        if t != u {
                            bad = Some(format!("returned {:?}", u))
                        }
                    }
                    (Err(E::Inv(p, m)), Err((q, msg))) => {
                        if p != q || !msg.contains(m.as_str()) || !msg.contains(&line_col(&e.code, *p)) {
                            bad = Some(format!("reported {} {:?}", q, msg))
                        }
                    }
                    (Err(E::Un), Err((q, msg))) => {
                        if check_unparsed && (*q != exp || !msg.contains(&line_col(&e.code, *q)) || msg.contains("broken")) {
                            bad = Some(format!("reported {} {:?} instead of position {}", q, msg, exp))
                        }
                        if !check_unparsed && msg.contains("broken") {
                            bad = Some(format!("reported {} {:?} for a mismatch", q, msg))
                        }
                    }
                    (_, o) => bad = Some(format!("gave {:?}", o)),
                },
            }
            match bad {
                Some(b) => {
                    run.fail(format!("{}; the parser {}; expected {:?}", show(&gr, &e, 0), b, want));
                    break;
                }
                None => {
                    run.count(&(&gr, &e), true);
                    run.sample(|| format!("{} -> {:?}", show(&gr, &e, 0), want));
                }
            }
        }
        if run.done() {
            return;
        }
    }
}
fn pick_mode(r: &mut Rng, raw: bool) -> Mode {
    if raw {
        MODES[r.below(3)]
    } else {
        [Mode::L, Mode::F][r.below(2)]
    }
}
pub fn c09(run: &mut Run) {
    huge(run, &huge_lists());
    if run.done() {
        return;
    }
    // every enclosing production form around a rejecting validator
    let n = run.n(20_000, 400_000);
    random(
        run,
        n,
        &|r| {
            let mut o = opt(pick_mode(r, true));
            o.valid = true;
            o.cache = r.chance(1, 4) && o.mode != Mode::R;
            o.raw = o.mode != Mode::L && r.chance(1, 4);
            o.choice = !o.raw;
            o.rules = 1 + r.below(3);
            plain(o)
        },
        &|g| has(g, &|x| matches!(x, G::Valid(..))) && (strict(g) || !has(g, &|x| matches!(x, G::Union(_) | G::Suf(..)))),
        false,
    );
    whole(
        run,
        n,
        &|r| {
            let mut o = opt(pick_mode(r, false));
            o.valid = true;
            o.depth = 4;
            o.cache = r.chance(1, 4);
            o.rules = 1 + r.below(3);
            o
        },
        &|g| has(g, &|x| matches!(x, G::Valid(..))) && strict(g),
        &|w| !matches!(w, Ok(_)),
        false,
    );
}
pub fn c10(run: &mut Run) {
    huge(run, &huge_lists());
    huge(run, &huge_cached());
    if run.done() {
        return;
    }
    let mut fam = vec![];
    for m in [Mode::L, Mode::F, Mode::R] {
        let s = small(m);
        for a in &s {
            for b in &s {
                fam.push((m, G::Union(vec![G::Concat(vec![a.clone(), b.clone(), a.clone()]), G::Concat(vec![a.clone(), a.clone()])])));
                fam.push((m, G::Concat(vec![G::List(bx(a)), G::OptH(Box::new(G::Concat(vec![b.clone(), b.clone()]))), G::Eof(None)])));
                fam.push((m, G::Concat(vec![G::Look(Box::new(G::Concat(vec![a.clone(), b.clone()])), None), a.clone(), a.clone()])));
            }
        }
    }
    family(run, &fam, 3, true);
    let n = run.n(30_000, 600_000);
    whole(
        run,
        n,
        &|r| {
            let mut o = opt(pick_mode(r, false));
            o.depth = 3 + r.below(2);
            o.valid = r.chance(1, 4);
            o.cache = r.chance(1, 3);
            o.rules = 1 + r.below(3);
            o
        },
        &strict,
        &|w| !matches!(w, Ok(_)),
        true,
    );
    // reports never panic, whatever bytes follow
    for _ in 0..run.n(4000, 60_000) {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let n = r.below(7);
        let code: Vec<u8> = (0..n).map(|_| *r.pick(&[b'a', b'\n', 0xC3, 0xA9, 0xE2, 0x82, 0xAC, 0xFF, 0xF0])).collect();
        let e = Env::text(&code);
        let gr = Grammar { rules: vec![Some(G::Concat(vec![G::OptH(Box::new(G::Re(0, None))), G::Const("b", None), G::Eof(None)]))] };
        let (_, rf) = reference(&gr, &e, 0);
        let exp = rf.reach;
        let got = no_panic(|| full_parse(&build(&gr, false, false).rules[0], &e));
        match got {
            Ok(Ok(Err((q, msg)))) if q == exp && msg.contains(&line_col(&code, q)) && std::str::from_utf8(msg.as_bytes()).is_ok() => run.count(&code, true),
            g => run.fail(format!("text bytes {:?}: {:?}, expected a report at {}", code, g, exp)),
        }
        // the same for tokens that are not text
        if !code.is_empty() {
            let exp = code.iter().position(|c| *c >= 0x80);
            let got = no_panic(|| {
                use lang_pt::production::*;
                let tk: Tokenizer<i8, u8> = Tokenizer::new(vec![
                    Rc::new(lang_pt::lexeme::Pattern::<i8, u8>::new(1, "^a").unwrap()),
                    Rc::new(lang_pt::lexeme::Pattern::<i8, u8>::new(-1, "^\n").unwrap()),
                    Rc::new(lang_pt::lexeme::Pattern::<i8, u8>::new(2, r"(?-u)^[\x80-\xff]{1,2}").unwrap()),
                ]);
                let a = Rc::new(List::new(&Rc::new(TokenField::<u8, i8>::new(1, None))).into_null_hidden());
                let root = Rc::new(Concat::new("r", vec![a, Rc::new(EOFProd::new(None))]));
                DefaultParser::new(Rc::new(tk), root).map_err(|e| (9999, e.to_string()))?.parse(&code).map(|_| ()).map_err(|e| (e.pointer, e.message))
            });
            match (got, exp) {
                (Ok(Ok(())), None) => run.count(&code, false),
                (Ok(Err((q, msg))), Some(x)) if q == x && msg.contains(&line_col(&code, q)) && std::str::from_utf8(msg.as_bytes()).is_ok() => run.count(&code, true),
                (g, _) => run.fail(format!("tokens of text bytes {:?}: {:?}, expected a report at {:?}", code, g, exp)),
            }
        }
        if run.done() {
            return;
        }
    }
}
pub fn c12(run: &mut Run) {
    huge(run, &huge_cached());
    if run.done() {
        return;
    }
    let n = run.n(30_000, 600_000);
    for _ in 0..n {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let mut o = opt(pick_mode(&mut r, false));
        o.cache = true;
        o.depth = 3 + r.below(2);
        o.rules = 2 + r.below(2);
        o.valid = r.chance(1, 4);
        let mut g = gen(&mut r, o);
        let gr = g.grammar();
        if !sane(&gr) || !has(&gr, &|x| matches!(x, G::Cache(..))) {
            continue;
        }
        let pr = prods(&gr);
        for k in 0..6 {
            let e = g.env();
            let (want, _) = reference(&gr, &e, 0);
            if want == Err(E::Skip) {
                continue;
            }
            let a = no_panic(|| {
                let b = pr.get(k % 2 == 0);
                (real(b, &e, 0).res, full_parse(b, &e))
            });
            let b = no_panic(|| {
                let b = build(&gr, k % 2 == 0, true);
                (real(&b.rules[0], &e, 0).res, full_parse(&b.rules[0], &e))
            });
            if a != b {
                run.fail(format!("{}; with memoisation {:?}, without {:?}", show(&gr, &e, 0), a, b));
                break;
            }
            run.count(&(&gr, &e), true);
            run.sample(|| format!("{} -> {:?}", show(&gr, &e, 0), want));
        }
        if run.done() {
            return;
        }
    }
}
/// C13, second half: switching between structural and raw tokens
pub fn c13_switch(run: &mut Run) {
    let mut fam = vec![];
    for a in [G::Tok(-1, Some(1)), G::Tok(1, Some(2)), G::List(Box::new(G::Tok(-1, Some(3)))), G::OptH(Box::new(G::Tok(-2, None))), G::Concat(vec![G::OptH(Box::new(G::Tok(-1, None))), G::Str(Box::new(G::Tok(1, Some(4)))), G::OptH(Box::new(G::Tok(-1, Some(5))))]), G::Str(Box::new(G::List(Box::new(G::Tok(1, Some(6))))))] {
        for b in [G::Tok(1, Some(7)), G::Tok(2, None), G::Null(false)] {
            for f in [false, true] {
                fam.push((Mode::F, G::Concat(vec![b.clone(), G::NonStr(bx(&a), f), b.clone()])));
                fam.push((Mode::F, G::Concat(vec![G::NonStr(bx(&a), f), b.clone()])));
                fam.push((Mode::F, G::List(Box::new(G::Concat(vec![b.clone(), G::OptH(Box::new(G::NonStr(bx(&a), f)))])))));
                fam.push((Mode::R, G::Concat(vec![a.clone(), G::Str(bx(&b)), G::Opt(bx(&a))])));
                fam.push((Mode::R, G::Concat(vec![G::NonStr(bx(&a), f), G::Str(bx(&b))])));
            }
        }
    }
    family(run, &fam, 4, false);
    let n = run.n(20_000, 400_000);
    random(
        run,
        n,
        &|r| {
            let mut o = opt(if r.chance(1, 2) { Mode::F } else { Mode::R });
            o.choice = false;
            o.raw = true;
            o.depth = 4;
            plain(o)
        },
        &|g| has(g, &|x| matches!(x, G::NonStr(..) | G::Str(_))),
        false,
    );
}

fn spans(e: &Env, m: Mode, i: usize, j: usize, ts: &[T]) -> Result<(), String> {
    let (s0, s1) = (e.start(m, i), e.start(m, j));
    let (r0, r1) = (e.raw(m, i), e.raw(m, j));
    fn go(ts: &[T], lo: usize, hi: usize, bl: Option<usize>, bh: Option<usize>) -> Result<(), String> {
        let mut at = lo;
        let mut bt = bl;
        for t in ts {
            if t.start > t.end || t.start < at || t.end > hi {
                return Err(format!("node {:?} outside {}..{}", t, at, hi));
            }
            at = t.end;
            if let (Some(b), Some(h), Some((x, y))) = (bt, bh, t.bound) {
                if x > y || x < b || y > h {
                    return Err(format!("token range of {:?} outside {}..{}", t, b, h));
                }
                bt = Some(y);
            }
            go(&t.kids, t.start, t.end, t.bound.map(|b| b.0), t.bound.map(|b| b.1))?;
        }
        Ok(())
    }
    if j < i || j > e.last(m) {
        return Err(format!("stopped at {} from {}", j, i));
    }
    go(ts, s0, s1, r0, r1)
}
pub fn c15(run: &mut Run) {
    crate::misc::create(run);
    huge(run, &huge_lists());
    huge(run, &huge_later());
    if run.done() {
        return;
    }
    let n = run.n(30_000, 600_000);
    for _ in 0..n {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let mut o = opt(pick_mode(&mut r, true));
        o.depth = 3 + r.below(2);
        o.rules = 1 + r.below(2);
        o.cache = r.chance(1, 4) && o.mode != Mode::R;
        o.valid = r.chance(1, 6);
        let mut g = gen(&mut r, o);
        let gr = g.grammar();
        if !sane(&gr) || !strict(&gr) {
            continue;
        }
        let pr = prods(&gr);
        for k in 0..6 {
            let e = g.env();
            let i = g.r.below(e.last(e.mode) + 1);
            let (want, _) = reference(&gr, &e, i);
            if want == Err(E::Skip) {
                continue;
            }
            let got = no_panic(|| real(pr.get(k % 2 == 0), &e, i));
            let v = match got {
                Err(p) => Err(p),
                Ok(r) => match r.res {
                    Ok((j, ts)) => spans(&e, e.mode, i, j, &ts).and_then(|_| {
                        // exact spans: those the reference assigns to leaves and built nodes
                        if want == Ok((j, ts.clone())) {
                            Ok(())
                        } else {
                            Err(format!("got {:?}, expected {:?}", (j, ts), want))
                        }
                    }),
                    Err(_) => Ok(()),
                },
            };
            match v {
                Ok(()) => {
                    run.count(&(&gr, &e, i), want.is_ok());
                    run.sample(|| format!("{} -> {:?}", show(&gr, &e, i), want));
                }
                Err(s) => {
                    run.fail(format!("{}; {}", show(&gr, &e, i), s));
                    break;
                }
            }
        }
        if run.done() {
            return;
        }
    }
}
/// a look-ahead, an end-of-file field, a raw-token production or a regex that matches the empty slice in front of a
/// word but not the empty text, in front of a left-recursive reference
pub fn c16_known() -> Vec<(&'static str, bool, Grammar)> {
    vec![
        ("left-recursion-behind-lookahead", false, Grammar { rules: vec![Some(G::Concat(vec![G::Look(Box::new(G::Const("a", None)), None), G::Ref(0)]))] }),
        ("left-recursion-behind-eof", false, Grammar { rules: vec![Some(G::Concat(vec![G::Eof(None), G::Ref(0)]))] }),
        ("left-recursion-behind-nonstructural", true, Grammar { rules: vec![Some(G::Concat(vec![G::NonStr(Box::new(G::Tok(1, None)), false), G::Ref(0)]))] }),
        ("left-recursion-behind-zero-width-regex", false, Grammar { rules: vec![Some(G::Concat(vec![G::Re(6, None), G::Ref(0)]))] }),
    ]
}
/// does creating a parser (twice, on the same productions) succeed
fn created(gr: &Grammar, mode: Mode) -> Result<(bool, bool), String> {
    no_panic(|| {
        let b = build(gr, false, false);
        let one = |p: &P| {
            if mode == Mode::L {
                LexerlessParser::new(p.clone()).map(|_| ()).map_err(|e| format!("{}", e))
            } else {
                DefaultParser::new(Rc::new(FixedTok(vec![(EOF, 0, 0)])), p.clone()).map(|_| ()).map_err(|e| format!("{}", e))
            }
        };
        let a = one(&b.rules[0]);
        let c = one(&b.rules[0]);
        (a.is_ok(), c.is_ok())
    })
}
/// rules that reach the next one along several paths each, and cycles through all of them
fn ladders() -> Vec<(Mode, Grammar, bool)> {
    let mut v = vec![];
    for m in MODES {
        let t = |k: usize| if m == Mode::L { G::Const(["a", "b"][k], Some(1)) } else { G::Tok(1 + k as i8, Some(1)) };
        for n in [3, 12, 60, 300usize] {
            for shape in 0..5 {
                for end in 0..4 {
                    let mut rules: Vec<Option<G>> = (1..n)
                        .map(|i| {
                            let r = || G::Ref(i);
                            Some(match shape {
                                0 => G::Union(vec![G::Concat(vec![r(), t(1)]), r()]),
                                1 => G::Concat(vec![G::OptH(Box::new(r())), r(), r()]),
                                2 => G::Suf(Box::new(G::Opt(Box::new(r()))), true, vec![(r(), 1), (G::Concat(vec![r(), t(1)]), 2)]),
                                3 => G::Concat(vec![G::Node(Box::new(r()), 1), G::Look(Box::new(r()), None), r()]),
                                _ => G::Union(vec![G::Concat(vec![G::OptH(Box::new(t(0))), r()]), G::Concat(vec![t(1), G::Ref(0), r()]), r()]),
                            })
                        })
                        .collect();
                    rules.push(match end {
                        0 => Some(t(0)),
                        1 => None,
                        2 => Some(G::Concat(vec![G::OptH(Box::new(t(0))), G::Ref(0)])),
                        _ => Some(G::Concat(vec![t(0), G::Ref(0)])),
                    });
                    v.push((m, Grammar { rules }, end == 0 || end == 3));
                }
            }
        }
    }
    v
}
pub fn c16(run: &mut Run) {
    for (name, tokens, gr) in c16_known() {
        let b = build(&gr, false, false);
        let ok = if tokens {
            DefaultParser::new(Rc::new(FixedTok(vec![(EOF, 0, 0)])), b.rules[0].clone()).is_ok()
        } else {
            LexerlessParser::new(b.rules[0].clone()).is_ok()
        };
        run.known.push((name.to_string(), ok));
    }
    for (m, gr, want) in ladders() {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let got = created(&gr, m);
        if got != Ok((want, want)) {
            run.fail(format!("grammar={:?} mode={:?}: parser creation (twice) gave {:?}, expected {}", gr.rules, m, got, want));
            return;
        }
        run.count(&gr, true);
    }
    let n = run.n(120_000, 2_500_000);
    for _ in 0..n {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let mut o = opt(pick_mode(&mut r, false));
        let most = if r.chance(1, 30) { 40 } else { 4 };
        o.rules = 1 + r.below(most);
        o.back_refs = true;
        o.depth = 2 + r.below(2);
        o.cache = r.chance(1, 4);
        o.valid = r.chance(1, 6);
        o.raw = o.mode == Mode::F && r.chance(1, 6);
        let mode = o.mode;
        let mut g = gen(&mut r, o);
        let mut gr = g.grammar();
        let last = gr.rules.len() - 1;
        if r.chance(1, 6) {
            gr.rules[last] = None;
        }
        let n0 = null_rules(&gr);
        let st = still_rules(&gr);
        let live = reachable(&gr);
        let unassigned = gr.rules.iter().zip(&live).any(|(r, l)| *l && r.is_none());
        let rec = left_rec(&gr, &|g| nullable(g, &n0)).is_some();
        let rec_still = left_rec(&gr, &|g| still(g, &st)).is_some();
        if !rec && rec_still && !unassigned {
            // the recorded known finding's class: recursion behind something that never consumes but is not nullable
            continue;
        }
        let got = created(&gr, mode);
        let want = !(unassigned || rec);
        if got != Ok((want, want)) {
            run.fail(format!(
                "grammar={:?} mode={:?}: parser creation (twice) gave {:?}, expected {} (unassigned {}, left recursion {})",
                gr.rules, mode, got, want, unassigned, rec
            ));
        }
        run.count(&gr, rec || unassigned || gr.rules.len() > 1);
        run.sample(|| format!("{:?} -> accepted: {}", gr.rules, want));
        if run.done() {
            return;
        }
    }
}
/// nullability, hiddenness and leading tokens of the root against the reference
fn sound(run: &mut Run, gr: &Grammar, mode: Mode) -> (bool, bool, HashSet<i8>) {
    let n0 = null_rules(gr);
    let h0 = nullh_rules(gr, &n0);
    let got = no_panic(|| {
        let b = build(gr, false, false);
        let p = &b.rules[0];
        let v = p.validate(HashMap::new(), &mut HashSet::new()).is_ok();
        let nn = p.is_nullable();
        let nl = p.obtain_nullability(HashMap::new()).ok();
        let hh = p.is_nullable_n_hidden();
        let f = if mode == Mode::L {
            HashSet::new()
        } else {
            let mut s = HashSet::new();
            p.impl_first_set(&mut s);
            s
        };
        (v, nn, nl, hh, f)
    });
    let root = G::Ref(0);
    let wn = nullable(&root, &n0);
    let wh = nullh(&root, &n0, &h0);
    let wf = if mode == Mode::L { HashSet::new() } else { first_of(&root, gr, &n0) };
    match got {
        Err(p) => run.fail(format!("grammar={:?}: {}", gr.rules, p)),
        Ok((v, nn, nl, hh, f)) => {
            let mut bad = vec![];
            if !v {
                bad.push("rejected".to_string());
            }
            if nn != wn || nl != Some(wn) {
                bad.push(format!("nullable {} / {:?}, expected {}", nn, nl, wn));
            }
            if hh && !wh {
                bad.push("reported hidden though its empty match yields a node".to_string());
            }
            if !hh && wh {
                bad.push("not reported hidden though its empty match yields no node".to_string());
            }
            if !wf.is_subset(&f) {
                bad.push(format!("leading tokens {:?} lack some of {:?}", f, wf));
            }
            if !bad.is_empty() {
                run.fail(format!("grammar={:?} mode={:?}: {}", gr.rules, mode, bad.join("; ")));
            }
        }
    }
    (wn, wh, wf)
}
pub fn c17(run: &mut Run) {
    for (m, gr, ok) in ladders() {
        if !ok || gr.rules.len() > 12 {
            continue;
        }
        if !run.begin() {
            continue;
        }
        sound(run, &gr, m);
        run.count(&gr, true);
    }
    let n = run.n(60_000, 1_500_000);
    for _ in 0..n {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let mut o = opt(MODES[r.below(3)]);
        o.rules = 1 + r.below(3);
        o.depth = 2 + r.below(2);
        o.raw = o.mode != Mode::L && r.chance(1, 4);
        o.back_refs = r.chance(1, 2);
        o.valid = r.chance(1, 6);
        o.cache = o.mode != Mode::R && r.chance(1, 6);
        let mode = o.mode;
        let mut g = gen(&mut r, o);
        let gr = g.grammar();
        if !sane(&gr) {
            continue;
        }
        let (wn, wh, wf) = sound(run, &gr, mode);
        // prediction must not lose a match: compare with the unpredicted reading on small inputs
        if strict(&gr) {
            let pr = prods(&gr);
            for _ in 0..3 {
                let e = g.env();
                if let Some(Err(s)) = differ(&gr, &pr, &e, 0, false, false) {
                    run.fail(s);
                    break;
                }
            }
        }
        run.count(&gr, true);
        run.sample(|| format!("{:?} -> nullable {} hidden {} first {:?}", gr.rules, wn, wh, wf));
        if run.done() {
            return;
        }
    }
}
pub fn c18(run: &mut Run) {
    huge(run, &huge_lists());
    if run.done() {
        return;
    }
    let mut fam = vec![];
    for m in MODES {
        let s = small(m);
        let mut els = vec![];
        for a in &s {
            els.push(a.clone());
            els.push(G::Opt(bx(a)));
            els.push(G::OptH(bx(a)));
            els.push(G::Look(bx(a), Some(1)));
            for b in &s {
                els.push(G::Concat(vec![G::OptH(bx(a)), G::Opt(bx(b))]));
                els.push(G::Union(vec![a.clone(), G::OptH(bx(b))]));
            }
        }
        for a in &els {
            fam.push((m, G::List(Box::new(G::Count(bx(a), 1)))));
            fam.push((m, G::List(Box::new(G::Count(Box::new(G::List(bx(a))), 1)))));
            for b in s.iter().take(4) {
                for c in [b.clone(), G::OptH(bx(b)), G::Look(bx(b), None)] {
                    for incl in [false, true] {
                        fam.push((m, G::Sep(Box::new(G::Count(bx(a), 1)), Box::new(G::Count(bx(&c), 2)), incl)));
                    }
                }
            }
        }
    }
    for (mode, g) in &fam {
        if !run.begin() {
            continue;
        }
        let gr = Grammar { rules: vec![Some(g.clone())] };
        let pr = prods(&gr);
        for e in all_envs(*mode, 3, false) {
            for i in 0..=e.last(*mode) {
                let (want, rf) = reference(&gr, &e, i);
                if want == Err(E::Skip) {
                    continue;
                }
                COUNTS.with(|c| c.borrow_mut().clear());
                let got = no_panic(|| real(pr.get(false), &e, i));
                let calls: Vec<(usize, usize)> = COUNTS.with(|c| c.borrow().clone());
                let seps: Vec<usize> = calls.iter().filter(|c| c.0 == 2).map(|c| c.1).collect();
                let mut bad = None;
                match got {
                    Err(p) => bad = Some(p),
                    Ok(r) => {
                        let els: Vec<usize> = calls.iter().filter(|c| c.0 == 1).map(|c| c.1).collect();
                        let prog = if seps.is_empty() && matches!(g, G::List(_)) { &els } else { &seps };
                        if prog.windows(2).any(|w| w[1] <= w[0]) {
                            bad = Some(format!("attempts at {:?} repeat a position", prog));
                        } else if r.res.is_ok() && calls.len() > rf.counts.len() {
                            bad = Some(format!("{} attempts, the property allows {}", calls.len(), rf.counts.len()));
                        }
                    }
                }
                if let Some(b) = bad {
                    run.fail(format!("{}; {}", show(&gr, &e, i), b));
                    return;
                }
                run.count(&(&gr, &e, i), true);
                run.sample(|| format!("{} -> {} attempts, {:?}", show(&gr, &e, i), calls.len(), want));
            }
        }
        if run.done() {
            return;
        }
    }
    let n = run.n(15_000, 300_000);
    random(
        run,
        n,
        &|r| {
            let mut o = opt(MODES[r.below(3)]);
            o.choice = r.chance(1, 2);
            let sep = r.chance(1, 2);
            Gn {
                o,
                top: Some(Box::new(move |g| {
                    let x = Box::new(if g.o.big { g.wide() } else { g.gen(2) });
                    if sep {
                        G::Sep(x, Box::new(g.gen(1)), g.r.chance(1, 2))
                    } else {
                        G::List(x)
                    }
                })),
            }
        },
        &strict,
        false,
    );
}
