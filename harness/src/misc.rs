//! C03 punctuation, C11 line/column, C13 structural view, C14 tree queries, C19 parser entry points.
use crate::gen::*;
use crate::gram::*;
use crate::parse::full_parse;
use crate::util::*;
use lang_pt::lexeme::*;
use lang_pt::production::*;
use lang_pt::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

fn tp(i: usize) -> TokenPtr {
    TokenPtr::from(i)
}
fn fp(i: usize) -> FltrPtr {
    FltrPtr::debug_new(i)
}

// ------------------------------------------------------------------ C03
fn check_punct(l: &Punctuations<i8, u8>, p: &PunctuationsField<u8, i8>, set: &[(&str, i8)], text: &[u8]) -> Result<(), String> {
    let code = Code::new(text);
    for at in 0..=text.len() {
        let want = set.iter().filter(|x| text[at..].starts_with(x.0.as_bytes())).max_by_key(|x| x.0.len());
        let got = ILexeme::consume(l, &code, at, &vec![], &mut vec![]);
        let want_l = want.map(|x| Lex::new(x.1, at, at + x.0.len()));
        if got != want_l {
            return Err(format!("lexeme on {:?} at {}: {:?}, expected {:?}", String::from_utf8_lossy(text), at, got, want_l));
        }
        let mut c: Cache<usize, u8> = Cache::root();
        let r = p.advance_ptr(&code, at, &mut c);
        let g = match r {
            Ok(d) => Some((d.consumed_index, d.children.iter().map(tree).collect::<Vec<_>>())),
            Err(_) => None,
        };
        let w = want.map(|x| {
            let e = at + x.0.len();
            (e, vec![T { node: x.1 as u8, start: at, end: e, bound: None, kids: vec![] }])
        });
        if g != w {
            return Err(format!("production on {:?} at {}: {:?}, expected {:?}", String::from_utf8_lossy(text), at, g, w));
        }
    }
    Ok(())
}
pub fn c03(run: &mut Run) {
    const W: [&str; 19] = [
        "a", "b", "ab", "ba", "aa", "abb", "aab", "bb", "abab", "b\u{e9}", "\u{e9}", "aabb", "bba", "<", "A", "a\0", "a\0b", "\r\n", "\u{e8}",
    ];
    let n = run.n(60_000, 1_000_000);
    for _ in 0..n {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let big = r.chance(1, 40);
        let k = if big { 8 + r.below(60) } else { r.below(6) + 1 };
        let dup = r.chance(1, 5);
        let mut set: Vec<(&str, i8)> = vec![];
        for i in 0..k {
            let w = if big && !r.chance(1, 8) {
                let m = long(&mut r, 14);
                let w: String = (0..m).map(|_| *r.pick(&['a', 'a', 'b'])).collect();
                Box::leak(w.into_boxed_str())
            } else {
                *r.pick(&W)
            };
            if dup || !set.iter().any(|x| x.0 == w) {
                set.push((w, i as i8 + 1));
            }
        }
        let first_dup = set.iter().enumerate().any(|(i, x)| set[..i].iter().any(|y| y.0 == x.0));
        let texts: Vec<Vec<u8>> = (0..3)
            .map(|_| {
                let mut text: String = (0..r.below(6)).map(|_| *r.pick(&["a", "b", "ab", "\u{e9}", "<", "c"])).collect();
                if big {
                    for _ in 0..6 {
                        text.push_str(r.pick(&set).0);
                        text.push_str(*r.pick(&["", "a", "b", "c"]));
                    }
                }
                spice(&mut r, text.into_bytes())
            })
            .collect();
        let got = no_panic(|| {
            let l: Result<Punctuations<i8, u8>, String> = Punctuations::new(set.clone());
            let p: Result<PunctuationsField<u8, i8>, String> = PunctuationsField::new(set.iter().map(|(w, v)| (*w, Some(*v as u8))).collect());
            match (l, p) {
                (Err(m), Err(_)) => {
                    if !first_dup {
                        return Err(format!("rejected: {}", m));
                    }
                    // the message names a duplicated word and the value registered first for it
                    let ok = set.iter().enumerate().any(|(i, x)| {
                        set[..i].iter().any(|y| y.0 == x.0) && {
                            let f = set.iter().find(|y| y.0 == x.0).unwrap();
                            m.contains(&format!("'{}'", x.0)) && m.contains(&format!("token {:?}", f.1))
                        }
                    });
                    if ok {
                        Ok(())
                    } else {
                        Err(format!("duplicate reported as {:?}", m))
                    }
                }
                (Ok(l), Ok(p)) => {
                    if first_dup {
                        return Err("duplicate registration accepted".into());
                    }
                    for text in &texts {
                        with_text(text, |text| check_punct(&l, &p, &set, text))?;
                    }
                    Ok(())
                }
                (a, b) => Err(format!("lexeme {:?} but production {:?} accepts", a.is_ok(), b.is_ok())),
            }
        });
        match got {
            Ok(Ok(())) => {
                run.count(&(&set, &texts), set.len() > 1);
                run.sample(|| format!("{:?} on {:?}", set, texts.iter().map(|t| String::from_utf8_lossy(t).to_string()).collect::<Vec<_>>()));
            }
            Ok(Err(s)) | Err(s) => run.fail(format!("punctuations {:?}, texts {:?}: {}", set, texts.iter().map(|t| String::from_utf8_lossy(t).to_string()).collect::<Vec<_>>(), s)),
        }
        if run.done() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C11
fn naive_pos(t: &[u8], p: usize) -> (usize, usize) {
    let line = 1 + t[..p].iter().filter(|c| **c == b'\n').count();
    let col = 1 + t[..p].iter().rev().take_while(|c| **c != b'\n').count();
    (line, col)
}
fn check_pos(t: &[u8]) -> Result<(), String> {
    with_text(t, |t| check_pos_in(t))
}
fn check_pos_in(t: &[u8]) -> Result<(), String> {
    let code = Code::new(t);
    let from = Code::from(t);
    let s = String::from_utf8_lossy(t).to_string();
    let n = t.len() + 1;
    let order: Vec<usize> = (0..n).rev().chain(0..n).chain((0..n).map(|i| i * 7 % n)).collect();
    for p in order {
        let a = code.obtain_position(p);
        let b = from.obtain_position(p);
        let w = naive_pos(t, p);
        let c = Position::from(&t[..p]);
        for (what, g) in [("obtain_position", a), ("obtain_position (From)", b), ("Position::from prefix", c)] {
            if (g.line, g.column) != w {
                return Err(format!("{} of {} in {:?}: line {} column {}, expected {:?}", what, p, s, g.line, g.column, w));
            }
        }
    }
    if code.value != t || from.value != t {
        return Err("text changed".into());
    }
    Ok(())
}
pub fn c11(run: &mut Run) {
    // texts of more than 2^16 bytes: one long line, many short ones, both
    const N: usize = 140_000;
    for k in 0..4 {
        if !run.begin() {
            continue;
        }
        let mut r = run.rng();
        let t: Vec<u8> = (0..N)
            .map(|i| match k {
                1 if i % 7 > 0 => b'\n',
                2 if i < 35_000 && i % 2 == 0 => b'\n',
                3 if i == 5 => b'\n',
                _ => b'x',
            })
            .collect();
        let ps: Vec<usize> = [N, 65_535, 65_536, 65_537, 0, N - 1].into_iter().chain((0..40).map(|_| r.below(N + 1))).collect();
        let got = no_panic(|| {
            with_text(&t, |t| {
                let c = Code::new(t);
                for p in &ps {
                    let (a, b, w) = (c.obtain_position(*p), Position::from(&t[..*p]), naive_pos(t, *p));
                    if (a.line, a.column) != w || (b.line, b.column) != w {
                        return Err(format!("140000 bytes (form {}), position {}: {}:{} and {}:{}, expected {:?}", k, p, a.line, a.column, b.line, b.column, w));
                    }
                }
                Ok(())
            })
        });
        match got {
            Ok(Ok(())) => run.count(&(k, N), true),
            Ok(Err(s)) | Err(s) => return run.fail(s),
        }
    }
    // every byte value, alone and twice, at the start and behind a line break
    for b in 0..=255u8 {
        for t in [vec![b, b'c'], vec![b'a', b, b'c', b'\n', b, b, b'd'], vec![0xC2, b, b'c', b'\r', b, b'\n', b]] {
            if run.begin() {
                match no_panic(|| check_pos(&t)) {
                    Ok(Ok(())) => run.count(&t, true),
                    Ok(Err(s)) | Err(s) => return run.fail(s),
                }
            }
        }
    }
    let max = run.n(7, 9) as usize;
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..=max {
        let mut nx = vec![];
        for t in &cur {
            if run.begin() {
                match no_panic(|| check_pos(t)) {
                    Ok(Ok(())) => {
                        run.count(t, t.contains(&b'\n'));
                        run.sample(|| format!("{:?}", String::from_utf8_lossy(t)));
                    }
                    Ok(Err(s)) | Err(s) => run.fail(s),
                }
                if run.done() {
                    return;
                }
            }
            for c in [b'a', b'\n', 0xC3u8] {
                let mut d = t.clone();
                d.push(c);
                nx.push(d);
            }
        }
        cur = nx;
    }
    for _ in 0..run.n(12_000, 100_000) {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let big = r.chance(1, 60);
        let n = r.below(if big { 900 } else { 120 });
        let wide = r.chance(1, 2);
        let t: Vec<u8> =
            (0..n).map(|_| if big && wide && !r.chance(1, 200) { b'x' } else { *r.pick(b"ab\n\r\n\xE2\x82\xAC ") }).collect();
        let t = spice(&mut r, t);
        match no_panic(|| check_pos(&t)) {
            Ok(Ok(())) => run.count(&t, true),
            Ok(Err(s)) | Err(s) => run.fail(s),
        }
        if run.done() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C13, first half
fn check_stream(e: &Env) -> Result<(), String> {
    let lx = e.lexes();
    let st = TokenStream::from(&lx);
    let raw: Vec<(i8, usize, usize)> = e.toks.clone();
    let fl: Vec<usize> = (0..raw.len()).filter(|i| raw[*i].0.is_structural()).collect();
    let t = |l: &Lex<i8>| (l.token, l.start, l.end);
    macro_rules! eq {
        ($what:expr, $a:expr, $b:expr) => {{
            let (a, b) = ($a, $b);
            if a != b {
                return Err(format!("{}: {:?}, expected {:?}", $what, a, b));
            }
        }};
    }
    eq!("length", st.length(), fl.len());
    eq!("iter_lex", st.iter_lex().map(t).collect::<Vec<_>>(), fl.iter().map(|i| raw[*i]).collect::<Vec<_>>());
    eq!("get_segments", st.get_segments(), &lx);
    eq!("eos_pointer", st.eos_pointer(), raw.last().unwrap().2);
    let text = String::from_utf8_lossy(&e.code).to_string();
    eq!(
        "token_pair",
        st.token_pair(&text).into_iter().map(|(k, s)| (*k, s.to_string())).collect::<Vec<_>>(),
        raw.iter().map(|x| (x.0, text[x.1..x.2].to_string())).collect::<Vec<_>>()
    );
    for i in 0..fl.len() {
        eq!(format!("get_token_ptr({})", i), st.get_token_ptr(fp(i)), tp(fl[i]));
        eq!(format!("[fltr {}]", i), t(&st[fp(i)]), raw[fl[i]]);
        eq!(format!("pointer({})", i), st.pointer(fp(i)), raw[fl[i]].1);
        eq!(format!("get({})", i), st.get(fp(i)).map(t), Some(raw[fl[i]]));
        eq!(format!("is_eos({})", i), st.is_eos(fp(i)), raw[fl[i]].0 == EOF);
        eq!(format!("iter_lex_at({})", i), st.iter_lex_at(fp(i)).map(t).collect::<Vec<_>>(), fl[i..].iter().map(|j| raw[*j]).collect::<Vec<_>>());
        for j in i..=fl.len() {
            eq!(
                format!("iter_lex_range({},{})", i, j),
                st.iter_lex_range(fp(i), fp(j)).map(t).collect::<Vec<_>>(),
                fl[i..j].iter().map(|j| raw[*j]).collect::<Vec<_>>()
            );
        }
    }
    for i in 0..fl.len() + 2 {
        eq!(format!("has_stream({})", i), st.has_stream(fp(i)), i < fl.len());
        if i >= fl.len() {
            eq!(format!("get({})", i), st.get(fp(i)).map(t), None);
        }
        if i <= fl.len() {
            eq!(format!("last_segment_index({})", i), st.last_segment_index(&fp(i)), if i > 0 { Some(tp(fl[i - 1])) } else { None });
        }
    }
    for i in 0..raw.len() {
        eq!(format!("[raw {}]", i), t(&st[tp(i)]), raw[i]);
        eq!(format!("is_eos_segment({})", i), st.is_eos_segment(tp(i)), raw[i].0 == EOF);
        eq!(format!("iter_at({})", i), st.iter_at(i).map(t).collect::<Vec<_>>(), raw[i..].to_vec());
        for j in i..=raw.len() {
            eq!(format!("iter_range({},{})", i, j), st.iter_range(i, j).map(t).collect::<Vec<_>>(), raw[i..j].to_vec());
        }
    }
    for i in 0..raw.len() + 2 {
        eq!(format!("token position {} + 0, + 3, is_origin", i), (tp(i) + 0, tp(i) + 3, tp(i).is_origin()), (tp(i), tp(i + 3), i == 0));
        eq!(format!("structural position {} + 1, + 3", i), (fp(i) + 1, fp(i) + 3), (fp(i + 1), fp(i + 3)));
        for j in 0..=i {
            eq!(format!("positions {} - {}", i, j), (tp(i) - j, fp(i) - j), (tp(i - j), fp(i - j)));
        }
    }
    eq!("origin and default positions", (TokenPtr::origin(), TokenPtr::default(), FltrPtr::default()), (tp(0), tp(0), fp(0)));
    // forwards, backwards and in strides, so that no query can lean on the one before
    let n = raw.len() + 1;
    for i in (0..n).chain((0..n).rev()).chain((0..n).map(|i| i * 7 % n)) {
        let k = fl.iter().take_while(|x| **x < i).count();
        let w = if fl.get(k) == Some(&i) { Ok(fp(k)) } else { Err(fp(k)) };
        eq!(format!("find_filter_ptr({})", i), st.find_filter_ptr(tp(i)), w);
        eq!(format!("find_filtered_index({})", i), st.find_filtered_index(&tp(i)), w);
    }
    // distinct starts only: a zero-width structural token before the end would make positions ambiguous
    let n = e.code.len() + 1;
    for p in (0..n).chain((0..n).rev()).chain((0..n).map(|i| i * 7 % n)) {
        let k = fl.iter().take_while(|x| raw[**x].1 < p).count();
        let on = fl.get(k).map_or(false, |x| raw[*x].1 == p);
        eq!(format!("filtered_index_at({})", p), st.filtered_index_at(p), if on { Ok(fp(k)) } else { Err(fp(k)) });
        if k < fl.len() {
            let d = raw[fl[k]];
            eq!(format!("filtered_data_at({})", p), st.filtered_data_at(p).map(t).map_err(t), if on { Ok(d) } else { Err(d) });
        }
        let r = raw.iter().take_while(|x| x.1 < p).count();
        if r < raw.len() {
            let d = raw[r];
            eq!(format!("lex_data_at({})", p), st.lex_data_at(p).map(t).map_err(t), if d.1 == p { Ok(d) } else { Err(d) });
        }
    }
    Ok(())
}
pub fn c13(run: &mut Run) {
    const N: usize = 140_000;
    // more than 2^17 tokens
    for gap in [1, 2, 40] {
        if !run.begin() {
            continue;
        }
        let mut r = run.rng();
        let k: Vec<i8> = (0..N).map(|i| if i % gap == 0 { 1 } else { -1 }).collect();
        let e = Env::tokens(Mode::F, &k);
        let ps: Vec<usize> = [0, 1, 65_535, 65_536, 65_537, N].into_iter().chain((0..60).map(|_| r.below(N + 1))).collect();
        let got = no_panic(|| {
            let lx = e.lexes();
            let st = TokenStream::from(&lx);
            if st.length() != e.fl.len() {
                return Err(format!("length {}, expected {}", st.length(), e.fl.len()));
            }
            for i in &ps {
                let f = i % e.fl.len();
                let j = e.fl.partition_point(|x| x < i);
                let w = if e.fl.get(j) == Some(i) { Ok(fp(j)) } else { Err(fp(j)) };
                let at = e.toks[*i].1;
                let v = st.filtered_index_at(at);
                if st.get_token_ptr(fp(f)) != tp(e.fl[f]) || st.pointer(fp(f)) != e.toks[e.fl[f]].1 || st.find_filter_ptr(tp(*i)) != w || st.find_filtered_index(&tp(*i)) != w || v != w {
                    return Err(format!("wrong answer about raw token {} or structural token {}", i, f));
                }
            }
            Ok(())
        });
        match got {
            Ok(Ok(())) => run.count(&(gap, N), true),
            Ok(Err(s)) | Err(s) => return run.fail(format!("140000 tokens, every {}. structural: {}", gap, s)),
        }
    }
    let max = run.n(5, 7) as usize;
    let mut cur: Vec<Vec<i8>> = vec![vec![]];
    for _ in 0..=max {
        let mut nx = vec![];
        for k in &cur {
            if run.begin() {
                let e = Env::tokens(Mode::F, k);
                match no_panic(|| check_stream(&e)) {
                    Ok(Ok(())) => {
                        run.count(k, k.iter().any(|x| *x < 0));
                        run.sample(|| format!("{:?}", e.toks));
                    }
                    Ok(Err(s)) | Err(s) => run.fail(format!("tokens {:?}: {}", e.toks, s)),
                }
                if run.done() {
                    return;
                }
            }
            for c in [1i8, 2, -1, -2] {
                let mut d = k.clone();
                d.push(c);
                nx.push(d);
            }
        }
        cur = nx;
    }
    for _ in 0..run.n(40, 400) {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let n = 10 + r.below(50);
        let gap = 1 + r.below(6);
        let k: Vec<i8> = (0..n).map(|_| if r.chance(1, gap) { *r.pick(&[1, 2, 3]) } else { *r.pick(&[-1, -2]) }).collect();
        let e = Env::tokens(Mode::F, &k);
        match no_panic(|| check_stream(&e)) {
            Ok(Ok(())) => run.count(&k, true),
            Ok(Err(s)) | Err(s) => run.fail(format!("tokens {:?}: {}", e.toks, s)),
        }
        if run.done() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C14
fn rtree(r: &mut Rng, d: usize, n: &mut usize) -> ASTNode<u8> {
    *n += 1;
    let id = *n;
    let k = if d == 0 { 0 } else { r.below(4) };
    let kids: Vec<ASTNode<u8>> = (0..k).map(|_| rtree(r, d - 1, n)).collect();
    // values 4 and 5 are rare; spans may be empty, and bounds given or not
    let v = if r.chance(1, 12) { 4 + r.below(2) } else { r.below(4) };
    let b = if r.chance(1, 3) { Some((tp(r.below(3)), tp(r.below(5)))) } else { None };
    ASTNode::new(v as u8, id, id + r.below(3), b, kids)
}
fn pre<'t>(t: &'t ASTNode<u8>, out: &mut Vec<&'t ASTNode<u8>>) {
    out.push(t);
    for c in &t.children {
        pre(c, out);
    }
}
fn check_tree(t: &ASTNode<u8>, r: &mut Rng) -> Result<(), String> {
    let mut v = vec![];
    pre(t, &mut v);
    let id = |x: Option<&ASTNode<u8>>| x.map(|x| x as *const ASTNode<u8>);
    for val in 0..7u8 {
        let w: Vec<*const ASTNode<u8>> = v.iter().filter(|x| x.node == val).map(|x| *x as *const _).collect();
        if id(t.find_tree_with_node(&val)) != w.first().copied() {
            return Err(format!("find_tree_with_node({})", val));
        }
        if t.contains(&val) != !w.is_empty() {
            return Err(format!("contains({})", val));
        }
        let l: Vec<*const ASTNode<u8>> = t.list_tree_with_token(&val).into_iter().map(|x| x as *const _).collect();
        if l != w {
            return Err(format!("list_tree_with_token({}): {} nodes, expected {}", val, l.len(), w.len()));
        }
        if id(t.get_child(&val)) != id(t.children.iter().find(|c| c.node == val)) {
            return Err(format!("get_child({})", val));
        }
    }
    // one node only, picked by its address
    for _ in 0..2 {
        let k = v[r.below(v.len())] as *const ASTNode<u8>;
        let f = move |x: &ASTNode<u8>| x as *const ASTNode<u8> == k;
        if id(t.find_tree(&f)) != Some(k) {
            return Err("find_tree(one node)".into());
        }
        let l = t.list_tree(&f);
        if l.len() != 1 || id(Some(l[0])) != Some(k) {
            return Err("list_tree(one node)".into());
        }
    }
    for m in 0..6usize {
        let f = move |x: &ASTNode<u8>| match m {
            0 => x.start == x.end,
            5 => x.bound.is_some() && x.children.len() > 0,
            _ => x.start % m == 0 && x.node > 0,
        };
        let w: Vec<*const ASTNode<u8>> = v.iter().filter(|x| f(x)).map(|x| *x as *const _).collect();
        if id(t.find_tree(&f)) != w.first().copied() {
            return Err(format!("find_tree(predicate {})", m));
        }
        let l: Vec<*const ASTNode<u8>> = t.list_tree(&f).into_iter().map(|x| x as *const _).collect();
        if l != w {
            return Err(format!("list_tree(predicate {})", m));
        }
    }
    for _ in 0..4 {
        let n = r.below(4);
        let mut path: Vec<u8> = (0..n).map(|_| r.below(5) as u8).collect();
        if r.chance(1, 2) {
            // the values on a way down
            path.clear();
            let mut c = t;
            for _ in 0..20 {
                if r.chance(2, 3) {
                    path.push(c.node);
                }
                if c.children.is_empty() {
                    break;
                }
                c = r.pick(&c.children);
            }
        }
        let mut cur = Some(t);
        for p in &path {
            cur = cur.and_then(|c| {
                let mut v = vec![];
                pre(c, &mut v);
                v.into_iter().find(|x| x.node == *p)
            });
        }
        if id(t.find_nested_tree_with_node(&path)) != id(cur) {
            return Err(format!("find_nested_tree_with_node({:?})", path));
        }
    }
    Ok(())
}
/// nodes made by the token stream
pub fn create(run: &mut Run) {
    for _ in 0..run.n(500, 5_000) {
        if !run.begin() {
            continue;
        }
        let mut r = run.rng();
        let n = r.below(30);
        let k: Vec<i8> = (0..n).map(|_| *r.pick(&[1, 2, 3, -1, -2])).collect();
        let e = Env::tokens(Mode::F, &k).stretch(&mut r);
        let i = r.below(e.fl.len());
        let j = i + r.below(e.fl.len() - i);
        let got = no_panic(|| {
            let l = e.lexes();
            let kid = ASTNode::new(2u8, e.toks[e.fl[i]].1, e.toks[e.fl[j]].1, None, vec![]);
            let d = TokenStream::from(&l).create_node(fp(i), 9u8, SuccessData::new(fp(j), vec![kid]));
            (d.consumed_index == fp(j), d.children.iter().map(tree).collect::<Vec<T>>())
        });
        let (s, t) = (e.toks[e.fl[i]].1, e.toks[e.fl[j]].1);
        match got {
            Ok((true, v)) if v.len() == 1 && (v[0].node, v[0].start, v[0].end, v[0].bound, v[0].kids.len()) == (9, s, t, Some((e.fl[i], e.fl[j])), 1) => {
                run.count(&(&k, i, j), true)
            }
            g => return run.fail(format!("create_node from {} to {} over {:?}: {:?}", i, j, e.toks, g)),
        }
    }
}
pub fn c14(run: &mut Run) {
    for wide in [true, false] {
        if !run.begin() {
            continue;
        }
        let got = no_panic(|| {
            let mut r = run.rng();
            let leaf = |i: usize| ASTNode::new((i % 2) as u8, i, i, None, vec![]);
            let mut t = ASTNode::new(3, 0, 0, None, if wide { (0..70_000).map(leaf).collect() } else { vec![] });
            if wide {
                t.children.push(ASTNode::new(6, 0, 70_000, None, vec![leaf(5)]));
            }
            if !wide {
                for i in 0..3_000 {
                    t = ASTNode::new((i % 3) as u8, i, i, None, vec![leaf(i), t, leaf(i + 1)]);
                }
            }
            check_tree(&t, &mut r)
        });
        match got {
            Ok(Ok(())) => run.count(&(wide, "large"), true),
            Ok(Err(s)) | Err(s) => return run.fail(format!("a tree of {}: {} differs from the pre-order walk", if wide { "70000 children" } else { "3000 levels" }, s)),
        }
    }
    for _ in 0..run.n(30_000, 600_000) {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let d = r.below(5);
        let mut t = rtree(&mut r, d, &mut 0);
        if r.chance(1, 60) {
            // a long spine or a wide node
            let mut id = 100_000;
            for _ in 0..5 + r.below(80) {
                id += 100;
                let mut k = vec![];
                for _ in 0..r.below(3) {
                    k.push(rtree(&mut r, 1, &mut id));
                }
                let at = r.below(k.len() + 1);
                k.insert(at, t);
                t = ASTNode::new(r.below(4) as u8, id + 50, id + 51, None, k);
            }
        } else if r.chance(1, 60) {
            let mut id = 1000;
            let n = 10 + r.below(200);
            let k = (0..n).map(|_| rtree(&mut r, 1, &mut id)).collect();
            t = ASTNode::new(r.below(4) as u8, 999, 999, None, k);
        }
        match no_panic(|| check_tree(&t, &mut r)) {
            Ok(Ok(())) => {
                run.count(&tree(&t), !t.children.is_empty());
                run.sample(|| format!("{:?}", tree(&t)));
            }
            Ok(Err(s)) | Err(s) => run.fail(format!("tree {:?}: {} differs from the pre-order walk", tree(&t), s)),
        }
        if run.done() {
            return;
        }
    }
}

// ------------------------------------------------------------------ C19
fn tokenizer() -> Tokenizer<i8, u8> {
    Tokenizer::new(vec![
        Rc::new(Punctuations::<i8, u8>::new(vec![("a", 1), ("bb", 2), ("c", 3)]).unwrap()),
        Rc::new(Pattern::<i8, u8>::new(-1, "^ +").unwrap()),
        Rc::new(Pattern::<i8, u8>::new(-2, "^\n+").unwrap()),
    ])
}
type Out = Result<Vec<T>, (usize, String)>;
/// a production of any type, as the debug entry points take one
struct Any(Rc<dyn IProduction<Node = u8, Token = i8>>);
impl std::fmt::Display for Any {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl IProduction for Any {
    type Node = u8;
    type Token = i8;
    fn is_nullable(&self) -> bool {
        self.0.is_nullable()
    }
    fn is_nullable_n_hidden(&self) -> bool {
        self.0.is_nullable_n_hidden()
    }
    fn obtain_nullability<'id>(&'id self, v: HashMap<&'id str, usize>) -> Result<bool, ImplementationError> {
        self.0.obtain_nullability(v)
    }
    fn impl_first_set(&self, s: &mut HashSet<i8>) {
        self.0.impl_first_set(s)
    }
    fn impl_grammar(&self, w: &mut dyn std::fmt::Write, a: &mut HashSet<&'static str>) -> std::fmt::Result {
        self.0.impl_grammar(w, a)
    }
    fn validate<'id>(&'id self, c: HashMap<&'id str, usize>, v: &mut HashSet<&'id str>) -> Result<(), ImplementationError> {
        self.0.validate(c, v)
    }
    fn advance_fltr_ptr(&self, c: &Code, i: FltrPtr, s: &TokenStream<i8>, m: &mut Cache<FltrPtr, u8>) -> ParsedResult<FltrPtr, u8> {
        self.0.advance_fltr_ptr(c, i, s, m)
    }
    fn advance_token_ptr(&self, c: &Code, i: TokenPtr, s: &TokenStream<i8>, m: &mut Cache<FltrPtr, u8>) -> ParsedResult<TokenPtr, u8> {
        self.0.advance_token_ptr(c, i, s, m)
    }
    fn advance_ptr(&self, c: &Code, i: usize, m: &mut Cache<usize, u8>) -> ParsedResult<usize, u8> {
        self.0.advance_ptr(c, i, m)
    }
}
fn out(r: Result<Vec<ASTNode<u8>>, ParseError>) -> Out {
    match r {
        Ok(v) => Ok(v.iter().map(tree).collect()),
        Err(e) => Err((e.pointer, e.message)),
    }
}
/// the entry points on texts of more than 2^16 bytes
fn c19_huge(run: &mut Run) {
    for mode in [Mode::L, Mode::F] {
        for k in 0..3 {
            if !run.begin() {
                continue;
            }
            let item = if mode == Mode::L { G::Const("a", Some(1)) } else { G::Tok(1, Some(1)) };
            let gr = Grammar { rules: vec![Some(G::Concat(vec![G::List(Box::new(item)), G::Eof(Some(2))]))] };
            let mut t = vec![b'a'; 140_000];
            match k {
                0 => {}
                1 => t.push(b'b'),
                _ => {
                    t.insert(70_000, b'\n');
                    t.push(b' ');
                }
            }
            let bad = no_panic(|| -> Result<(), String> {
                let b = build(&gr, false, false);
                let root = b.rules[0].clone();
                let code = Code::new(&t);
                let brief = |r: &Result<Vec<T>, (usize, String)>| match r {
                    Ok(v) => format!("{} nodes, the last {:?}", v.len(), v.last().map(|x| (x.node, x.start, x.end, x.bound))),
                    Err(e) => format!("{:?}", e),
                };
                let same = |what: &str, a: &Result<Vec<T>, (usize, String)>, w: &Result<Vec<T>, (usize, String)>| {
                    if a != w {
                        return Err(format!("{} gives {}, expected {}", what, brief(a), brief(w)));
                    }
                    Ok(())
                };
                if mode == Mode::L {
                    let p = LexerlessParser::new(root.clone()).map_err(|e| format!("{}", e))?;
                    let mut c: Cache<usize, u8> = Cache::root();
                    let w = out(match root.advance_ptr(&code, 0, &mut c) {
                        Ok(d) => Ok(d.children),
                        Err(e) => Err(c.create_error(&code, e)),
                    });
                    return same("parse", &out(p.parse(&t)), &w);
                }
                let tk = Rc::new(tokenizer());
                let p = DefaultParser::new(tk.clone(), root.clone()).map_err(|e| format!("{}", e))?;
                match tk.tokenize(&code) {
                    Err(e) => {
                        let w = Err((e.pointer, e.message));
                        same("parse", &out(p.parse(&t)), &w)?;
                        same("tokenize_n_parse", &out(p.tokenize_n_parse(&t).map(|x| x.1)), &w)
                    }
                    Ok(l) => {
                        let st = TokenStream::from(&l);
                        let mut c: Cache<FltrPtr, u8> = Cache::root();
                        let w = out(match root.advance_fltr_ptr(&code, fp(0), &st, &mut c) {
                            Ok(d) => Ok(d.children),
                            Err(e) => Err(c.create_error(&code, &st, e)),
                        });
                        same("parse", &out(p.parse(&t)), &w)?;
                        same("parse_stream", &out(p.parse_stream(&code, TokenStream::from(&l))), &w)?;
                        let n = p.tokenize_n_parse(&t);
                        if let Ok((x, _)) = &n {
                            if *x != l {
                                return Err("tokenize_n_parse returns other tokens than tokenize".into());
                            }
                        }
                        same("tokenize_n_parse", &out(n.map(|x| x.1)), &w)
                    }
                }
            });
            match bad {
                Ok(Ok(())) => run.count(&(&gr, k, 140_000), true),
                Ok(Err(s)) | Err(s) => return run.fail(format!("grammar {:?} mode {:?} on 140000 times \"a\" (form {}): {}", gr.rules, mode, k, s)),
            }
        }
    }
}
pub fn c19(run: &mut Run) {
    c19_huge(run);
    if run.done() {
        return;
    }
    for _ in 0..run.n(20_000, 400_000) {
        if !run.begin() {
            if run.done() {
                return;
            }
            continue;
        }
        let mut r = run.rng();
        let mut o = opt(if r.chance(1, 3) { Mode::L } else { Mode::F });
        o.cache = r.chance(2, 3);
        o.valid = r.chance(1, 4);
        o.rules = 1 + r.below(3);
        o.depth = 3;
        let mode = o.mode;
        let mut g = gen(&mut r, o);
        let gr = g.grammar();
        if !sane(&gr) || !strict(&gr) {
            continue;
        }
        let texts: Vec<Vec<u8>> = (0..4)
            .map(|_| {
                let n = if g.o.big { g.r.below(90) } else { g.r.below(7) };
                let junk = g.r.chance(1, 6);
                (0..n)
                    .flat_map(|_| {
                        if mode == Mode::L {
                            g.r.pick(&["a", "b", "ab", "\n"]).bytes().collect::<Vec<u8>>()
                        } else if junk {
                            g.r.pick(&["a", "bb", "b", "\n"]).bytes().collect()
                        } else {
                            g.r.pick(&["a", "bb", "c", " ", "\n", "a"]).bytes().collect()
                        }
                    })
                    .collect::<Vec<u8>>()
            })
            .collect();
        let texts: Vec<Vec<u8>> = texts.into_iter().map(|t| spice(g.r, t)).collect();
        let steps = texts.iter().any(|t| {
            let e = if mode == Mode::L { Env::text(t) } else { env_of(t).unwrap_or(Env::tokens(Mode::F, &[])) };
            let mut rf = Ref::new(&gr, &e);
            rf.eval(&G::Ref(0), e.mode, 0) == Err(E::Skip)
        });
        if steps {
            continue;
        }
        let bad = no_panic(|| -> Result<(), String> {
            let b = build(&gr, false, false);
            let root = b.rules[0].clone();
            if mode == Mode::L {
                let mut p = LexerlessParser::new(root.clone()).map_err(|e| format!("{}", e))?;
                p.add_debug_production("root", &Rc::new(Any(root.clone())));
                for round in 0..2 {
                    for t in &texts {
                        let a = out(with_text(t, |t| p.parse(t)));
                        let mut c: Cache<usize, u8> = Cache::root();
                        let code = Code::new(t);
                        let w = out(match root.advance_ptr(&code, 0, &mut c) {
                            Ok(d) => Ok(d.children),
                            Err(e) => Err(c.create_error(&code, e)),
                        });
                        if a != w {
                            return Err(format!("text {:?} round {}: parse {:?}, root production {:?}", String::from_utf8_lossy(t), round, a, w));
                        }
                        for k in 0..=t.len() {
                            let d = out(with_text(t, |t| p.debug_parser_at("root", t, k)));
                            let mut c: Cache<usize, u8> = Cache::root();
                            c.update_index(k);
                            let w = if k == 0 {
                                w.clone()
                            } else {
                                out(match root.advance_ptr(&code, k, &mut c) {
                                    Ok(d) => Ok(d.children),
                                    Err(e) => Err(c.create_error(&code, e)),
                                })
                            };
                            if d != w {
                                return Err(format!("text {:?} round {}: debug_parser_at({}) {:?}, root production {:?}", String::from_utf8_lossy(t), round, k, d, w));
                            }
                        }
                        let fresh = full_parse(&build(&gr, true, false).rules[0], &Env::text(t));
                        if fresh != Ok(a.clone()) {
                            return Err(format!("text {:?} round {}: {:?}, a fresh parser {:?}", String::from_utf8_lossy(t), round, a, fresh));
                        }
                        let mut r = Ref::new(&gr, &Env::text(t)).eval_owned();
                        if let Ok((_, v)) = &mut r {
                            if a != Ok(v.clone()) {
                                return Err(format!("text {:?}: {:?}, the root production yields {:?}", String::from_utf8_lossy(t), a, v));
                            }
                        }
                    }
                }
                return Ok(());
            }
            let tk = Rc::new(tokenizer());
            let mut p = DefaultParser::new(tk.clone(), root.clone()).map_err(|e| format!("{}", e))?;
            p.add_debug_production("root", &Rc::new(Any(root.clone())));
            for round in 0..2 {
                for t in &texts {
                    let code = Code::new(t);
                    let a = out(with_text(t, |t| p.parse(t)));
                    let tn = with_text(t, |t| p.tokenize_n_parse(t));
                    let toks = tk.tokenize(&code);
                    let toks2 = with_text(t, |t| p.tokenize(&Code::new(t)));
                    let show = String::from_utf8_lossy(t).to_string();
                    for k in 0..=t.len() {
                        let d = out(with_text(t, |t| p.debug_production_at("root", t, k)));
                        let w = match &toks {
                            Err(e) => Err((e.pointer, e.message.clone())),
                            Ok(l) if k == 0 => out(p.parse_stream(&code, TokenStream::from(l))),
                            Ok(l) => {
                                let st = TokenStream::from(l);
                                let i = l.iter().filter(|x| x.token >= 0 && x.start < k).count();
                                let mut c: Cache<FltrPtr, u8> = Cache::root();
                                c.update_index(k);
                                out(match root.advance_fltr_ptr(&code, fp(i), &st, &mut c) {
                                    Ok(d) => Ok(d.children),
                                    Err(e) => Err(c.create_error(&code, &st, e)),
                                })
                            }
                        };
                        if d != w {
                            return Err(format!("text {:?} round {}: debug_production_at({}) {:?}, root production {:?}", show, round, k, d, w));
                        }
                    }
                    match (toks, toks2) {
                        (Err(e), Err(e2)) => {
                            let w = (e.pointer, e.message);
                            let n = tn.map(|_| ()).map_err(|e| (e.pointer, e.message));
                            if (e2.pointer, e2.message) != w || a != Err(w.clone()) || n != Err(w.clone()) {
                                return Err(format!("text {:?}: tokenization error {:?}, parse {:?}, tokenize_n_parse {:?}", show, w, a, n));
                            }
                        }
                        (Ok(l), Ok(l2)) => {
                            if l != l2 {
                                return Err(format!("text {:?}: tokens {:?} and {:?}", show, l, l2));
                            }
                            let s = out(p.parse_stream(&code, TokenStream::from(&l)));
                            let st = TokenStream::from(&l);
                            let mut c: Cache<FltrPtr, u8> = Cache::root();
                            let w = out(match root.advance_fltr_ptr(&code, fp(0), &st, &mut c) {
                                Ok(d) => Ok(d.children),
                                Err(e) => Err(c.create_error(&code, &st, e)),
                            });
                            let (nt, n) = match tn {
                                Ok((x, y)) => (Some(x), out(Ok(y))),
                                Err(e) => (None, out(Err(e))),
                            };
                            if a != s || a != w || a != n || nt.map_or(false, |x| x != l) {
                                return Err(format!("text {:?} round {}: parse {:?}, parse_stream {:?}, tokenize_n_parse {:?}, root production {:?}", show, round, a, s, n, w));
                            }
                            let e = env_of(t).unwrap();
                            if let Ok((_, v)) = Ref::new(&gr, &e).eval_owned() {
                                if a != Ok(v.clone()) {
                                    return Err(format!("text {:?}: {:?}, the root production yields {:?}", show, a, v));
                                }
                            }
                            let fresh = {
                                let q = DefaultParser::new(tk.clone(), build(&gr, true, false).rules[0].clone()).map_err(|e| format!("{}", e))?;
                                out(with_text(t, |t| q.parse(t)))
                            };
                            if fresh != a {
                                return Err(format!("text {:?} round {}: {:?}, a fresh parser {:?}", show, round, a, fresh));
                            }
                        }
                        (x, y) => return Err(format!("text {:?}: tokenizing gave {:?} and {:?}", show, x.is_ok(), y.is_ok())),
                    }
                }
            }
            Ok(())
        });
        match bad {
            Ok(Ok(())) => {
                run.count(&(&gr, &texts), true);
                run.sample(|| format!("{:?} texts {:?}", gr.rules, texts.iter().map(|t| String::from_utf8_lossy(t).to_string()).collect::<Vec<_>>()));
            }
            Ok(Err(s)) | Err(s) => run.fail(format!("grammar {:?}: {}", gr.rules, s)),
        }
        if run.done() {
            return;
        }
    }
}
impl<'g> Ref<'g> {
    fn eval_owned(mut self) -> Res {
        let m = self.e.mode;
        self.eval(&G::Ref(0), m, 0)
    }
}
/// the tokens the C19 tokenizer must find (runs of blanks are one token)
fn env_of(t: &[u8]) -> Option<Env> {
    let mut toks = vec![];
    let mut i = 0;
    while i < t.len() {
        let (k, n) = match t[i] {
            b'a' => (1, 1),
            b'c' => (3, 1),
            b'b' if t.get(i + 1) == Some(&b'b') => (2, 2),
            b' ' => (-1, t[i..].iter().take_while(|c| **c == b' ').count()),
            b'\n' => (-2, t[i..].iter().take_while(|c| **c == b'\n').count()),
            _ => return None,
        };
        toks.push((k, i, i + n));
        i += n;
    }
    if t.is_empty() {
        return None;
    }
    toks.push((EOF, t.len(), t.len()));
    let fl = (0..toks.len()).filter(|i| toks[*i].0 >= 0).collect();
    Some(Env { mode: Mode::F, code: t.to_vec(), toks, fl })
}
