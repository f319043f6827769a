@module tables
@modprops C07 C17
## ---------------------------------------------------------------- which alternatives a token selects
/// alternatives considered: up to the first one that can be empty
pub open spec fn ncons<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> int decreases ps.len() - k {
    if k < 0 || k >= ps.len() { ps.len() as int } else if ps[k].null_s() { k + 1 } else { ncons(ps, k + 1) }
}
/// position of the first alternative that can be empty
pub open spec fn null_at<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> Option<int> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { None } else if ps[k].null_s() { Some(k) } else { null_at(ps, k + 1) }
}
pub open spec fn any_null<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>) -> bool { null_at(ps, 0) is Some }
/// some alternative before n can start with token t
pub open spec fn listed<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, t: T, n: int) -> bool { exists|q: int| 0 <= q < n && q < ps.len() && (#[trigger] ps[q]).first_s().contains(t) }
/// alternatives before n that can match with token t in front, in order
pub open spec fn alts<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, t: T, n: int) -> Seq<usize> decreases n {
    if n <= 0 || n > ps.len() { Seq::empty() } else if ps[n - 1].first_s().contains(t) || ps[n - 1].null_s() { alts(ps, t, n - 1).push((n - 1) as usize) } else { alts(ps, t, n - 1) }
}
pub open spec fn union_first<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> Set<T> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { Set::empty() } else { ps[k].first_s().union(union_first(ps, k + 1)) }
}
pub proof fn lemma_union_first<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int, q: int, t: T)
    requires 0 <= k <= q < ps.len(), ps[q].first_s().contains(t),
    ensures union_first(ps, k).contains(t),
    decreases q - k
{ if k < q { lemma_union_first(ps, k + 1, q, t); } }
pub proof fn lemma_null_at<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int)
    requires 0 <= k <= ps.len(),
    ensures
        k <= ncons(ps, k) <= ps.len(), k < ps.len() ==> k < ncons(ps, k),
        match null_at(ps, k) {
            Some(n) => k <= n < ps.len() && ps[n].null_s() && ncons(ps, k) == n + 1 && forall|q: int| k <= q < n ==> !(#[trigger] ps[q]).null_s(),
            None => ncons(ps, k) == ps.len() && forall|q: int| k <= q < ps.len() ==> !(#[trigger] ps[q]).null_s(),
        },
    decreases ps.len() - k
{ if k < ps.len() && !ps[k].null_s() { lemma_null_at(ps, k + 1); } }
/// alternatives up to k do not stop the search
pub proof fn lemma_null_skip<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int, q: int)
    requires 0 <= k <= q <= ps.len(), forall|x: int| k <= x < q ==> !(#[trigger] ps[x]).null_s(),
    ensures ncons(ps, k) == ncons(ps, q), null_at(ps, k) == null_at(ps, q),
    decreases q - k
{ if k < q { lemma_null_skip(ps, k + 1, q); } }
pub proof fn lemma_alts<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, t: T, n: int)
    requires 0 <= n <= ps.len(), ps.len() <= usize::MAX,
    ensures
        forall|x: int| 0 <= x < alts(ps, t, n).len() ==> (#[trigger] alts(ps, t, n)[x]) < n && (ps[alts(ps, t, n)[x] as int].first_s().contains(t) || ps[alts(ps, t, n)[x] as int].null_s()),
        forall|x: int, y: int| 0 <= x < y < alts(ps, t, n).len() ==> (#[trigger] alts(ps, t, n)[x]) < (#[trigger] alts(ps, t, n)[y]),
        forall|q: int| 0 <= q < n && ((#[trigger] ps[q]).first_s().contains(t) || ps[q].null_s()) ==> exists|x: int| 0 <= x < alts(ps, t, n).len() && (#[trigger] alts(ps, t, n)[x]) == q,
    decreases n
{
    if n > 0 {
        lemma_alts(ps, t, n - 1);
        let a = alts(ps, t, n - 1);
        let b = alts(ps, t, n);
        assert forall|q: int| 0 <= q < n && ((#[trigger] ps[q]).first_s().contains(t) || ps[q].null_s()) implies exists|x: int| 0 <= x < b.len() && (#[trigger] b[x]) == q by {
            if q < n - 1 { let x = choose|x: int| 0 <= x < a.len() && (#[trigger] a[x]) == q; assert(b[x] == q); } else { assert(b[b.len() - 1] == q); }
        }
    }
}
/// the table of a choice
pub open spec fn tab_ok<N: NodeImpl, T: TokenImpl>(v: (bool, Vec<(T, Vec<usize>)>), ps: Syms<N, T>) -> bool {
    let n = ncons(ps, 0);
    &&& ord_ok::<T>() ==> sorted_by(v.1@, |p: &(T, Vec<usize>)| p.0)
    &&& forall|k: int| 0 <= k < v.1@.len() ==> listed(ps, (#[trigger] v.1@[k]).0, n) && v.1@[k].1@ == alts(ps, v.1@[k].0, n)
    &&& forall|t: T| #[trigger] listed(ps, t, n) ==> exists|k: int| 0 <= k < v.1@.len() && (#[trigger] v.1@[k]).0 == t
    &&& v.0 == forall|k: int| 0 <= k < v.1@.len() ==> (#[trigger] v.1@[k]).0.structural_s()
}
/// what a search of the table finds
pub proof fn lemma_tab<N: NodeImpl, T: TokenImpl>(v: &(bool, Vec<(T, Vec<usize>)>), ps: Syms<N, T>, t: T, r: Result<usize, usize>)
    requires
        tab_ok(*v, ps), ord_ok::<T>(),
        match r { Ok(i) => i < v.1@.len() && v.1@[i as int].0 == t, Err(i) => i <= v.1@.len() && (forall|j: int| 0 <= j < i ==> T::lt((#[trigger] v.1@[j]).0, t)) && (forall|j: int| i <= j < v.1@.len() ==> T::lt(t, (#[trigger] v.1@[j]).0)) },
    ensures r is Ok <==> listed(ps, t, ncons(ps, 0)), r is Ok ==> v.1@[r->Ok_0 as int].1@ == alts(ps, t, ncons(ps, 0)),
{
    if r is Err && listed(ps, t, ncons(ps, 0)) {
        let k = choose|k: int| 0 <= k < v.1@.len() && (#[trigger] v.1@[k]).0 == t;
        assert(T::lt(v.1@[k].0, t) || T::lt(t, v.1@[k].0));
    }
}
## ---------------------------------------------------------------- trying alternatives in order
pub open spec fn alt_sem<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, js: Seq<usize>, k: int, i: int, reach: int) -> PRes<N> decreases js.len() - k {
    if k < 0 || k >= js.len() { unparsed(reach) } else {
        let r = ps[js[k] as int].sem(e, m, i);
        let reach1 = imax(reach, r.reach);
        match r.out {
            Ok(x) => PRes { out: Ok(x), reach: reach1 },
            Err(ProductionError::Validation(x, s)) => PRes { out: Err(ProductionError::Validation(x, s)), reach: reach1 },
            Err(_) => alt_sem(ps, e, m, js, k + 1, i, reach1),
        }
    }
}
pub open spec fn all_alts(n: int) -> Seq<usize> { Seq::new(n as nat, |k: int| k as usize) }
pub proof fn lemma_alt<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, js: Seq<usize>, k: int, i: int, reach: int)
    requires
        all_wf(ps, m), env_ok(e, m), at_ok(e, m, i), 0 <= k <= js.len(), 0 <= reach <= e.code.len(),
        forall|x: int| 0 <= x < js.len() ==> (#[trigger] js[x]) < ps.len(),
    ensures ({
        let r = alt_sem(ps, e, m, js, k, i, reach);
        &&& laws_hold(r, e, m, i, all_pure(ps), any_null(ps), union_first(ps, 0))
        &&& all_cons(ps) && !any_null(ps) ==> moves(r, i)
        &&& reach <= r.reach
        &&& r.out is Err ==> r.out->Err_0 is Validation || r.out->Err_0 is Unparsed
    }),
    decreases js.len() - k
{
    if k < js.len() {
        let q = js[k] as int;
        ps[q].laws(e, m, i);
        let r = ps[q].sem(e, m, i);
        match r.out {
            Ok((j, ts)) => {
                lemma_nm_mono(e, m, r.reach, imax(reach, r.reach));
                lemma_null_at(ps, 0);
                if m != Md::L && all_pure(ps) && (j > i || !any_null(ps)) { lemma_union_first(ps, 0, q, tok_at(e, m, i)); }
            },
            Err(_) => { lemma_alt(ps, e, m, js, k + 1, i, imax(reach, r.reach)); },
        }
    }
}
## ---------------------------------------------------------------- selection by the token in front
/// the token whose row of the table is used at position i
pub open spec fn pick<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, i: int) -> Option<T> {
    let n = ncons(ps, 0);
    let t = tok_at(e, m, i);
    if listed(ps, t, n) { Some(t) }
    else if m == Md::F {
        let u = e.toks[after_prev(e, i)].token;
        if !u.structural_s() && listed(ps, u, n) { Some(u) } else { None }
    } else { None }
}
## ---------------------------------------------------------------- building the table
pub proof fn lemma_vec_len<T>(v: &Vec<T>) ensures v@.len() <= usize::MAX { assert(v.len() == v@.len()); }
pub open spec fn seen<K>(s: Seq<K>, n: int, t: K) -> bool { exists|x: int| 0 <= x < n && x < s.len() && #[trigger] s[x] == t }
pub open spec fn map_ok<N: NodeImpl, T: TokenImpl>(m: Map<T, Vec<usize>>, ps: Syms<N, T>, n: int) -> bool {
    forall|t: T| #![trigger m.contains_key(t)] #![trigger listed(ps, t, n)] (m.contains_key(t) <==> listed(ps, t, n)) && (m.contains_key(t) ==> m[t]@ == alts(ps, t, n))
}
/// while the tokens d[0..x] that alternative n starts with are being added, and, if it can be empty, the keys kd[0..y] extended
pub open spec fn map_mid<N: NodeImpl, T: TokenImpl>(m: Map<T, Vec<usize>>, ps: Syms<N, T>, n: int, d: Seq<T>, x: int, kd: Seq<T>, y: int) -> bool {
    forall|t: T| #![trigger m.contains_key(t)] (m.contains_key(t) <==> listed(ps, t, n) || seen(d, x, t))
        && (m.contains_key(t) ==> m[t]@ == (if seen(d, x, t) || seen(kd, y, t) { alts(ps, t, n).push(n as usize) } else { alts(ps, t, n) }))
}
pub proof fn lemma_mid_start<N: NodeImpl, T: TokenImpl>(m: Map<T, Vec<usize>>, ps: Syms<N, T>, n: int, d: Seq<T>)
    requires map_ok(m, ps, n), 0 <= n < ps.len(),
    ensures map_mid(m, ps, n, d, 0, Seq::empty(), 0),
{}
pub proof fn lemma_unlisted<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, t: T, n: int)
    requires 0 <= n <= ps.len(), forall|q: int| 0 <= q < n ==> !(#[trigger] ps[q]).null_s(),
    ensures listed(ps, t, n) <==> alts(ps, t, n).len() > 0, !listed(ps, t, n) ==> alts(ps, t, n) == Seq::<usize>::empty(),
    decreases n
{
    if n > 0 {
        lemma_unlisted(ps, t, n - 1);
        if ps[n - 1].first_s().contains(t) { assert(listed(ps, t, n)); }
        else if listed(ps, t, n) { let q = choose|q: int| 0 <= q < n && q < ps.len() && (#[trigger] ps[q]).first_s().contains(t); assert(q < n - 1); }
        if listed(ps, t, n - 1) { let q = choose|q: int| 0 <= q < n - 1 && q < ps.len() && (#[trigger] ps[q]).first_s().contains(t); assert(ps[q].first_s().contains(t)); }
    }
}
/// one more token of alternative n
pub proof fn lemma_mid_add<N: NodeImpl, T: TokenImpl>(m: Map<T, Vec<usize>>, m1: Map<T, Vec<usize>>, ps: Syms<N, T>, n: int, d: Seq<T>, x: int, w: Vec<usize>)
    requires
        map_mid(m, ps, n, d, x, Seq::empty(), 0), 0 <= n < ps.len(), 0 <= x < d.len(), d.no_duplicates(),
        forall|q: int| 0 <= q < n ==> !(#[trigger] ps[q]).null_s(),
        m1 == m.insert(d[x], w), w@ == (if m.contains_key(d[x]) { m[d[x]]@ } else { Seq::empty() }).push(n as usize),
    ensures map_mid(m1, ps, n, d, x + 1, Seq::empty(), 0),
{
    lemma_unlisted(ps, d[x], n);
    assert forall|t: T| #![trigger m1.contains_key(t)] (m1.contains_key(t) <==> listed(ps, t, n) || seen(d, x + 1, t))
        && (m1.contains_key(t) ==> m1[t]@ == (if seen(d, x + 1, t) || seen(Seq::<T>::empty(), 0, t) { alts(ps, t, n).push(n as usize) } else { alts(ps, t, n) })) by {
        assert(m.contains_key(t) == m.contains_key(t));
        if t == d[x] { assert(seen(d, x + 1, t)); assert(!seen(d, x, t)); }
        else { assert(seen(d, x + 1, t) ==> seen(d, x, t)); assert(seen(d, x, t) ==> seen(d, x + 1, t)); }
    }
}
pub open spec fn lists_last<N: NodeImpl, T: TokenImpl>(m: Map<T, Vec<usize>>, ps: Syms<N, T>, n: int, t: T) -> bool {
    m[t]@.len() > 0 && (m[t]@.last() == n <==> ps[n].first_s().contains(t))
}
pub proof fn lemma_last<N: NodeImpl, T: TokenImpl>(m: Map<T, Vec<usize>>, ps: Syms<N, T>, n: int, d: Seq<T>, kd: Seq<T>, y: int)
    requires
        map_mid(m, ps, n, d, d.len() as int, kd, y), 0 <= n < ps.len(), ps.len() <= usize::MAX, 0 <= y < kd.len(), kd.no_duplicates(), m.contains_key(kd[y]),
        forall|t: T| #[trigger] ps[n].first_s().contains(t) <==> d.contains(t),
        forall|q: int| 0 <= q < n ==> !(#[trigger] ps[q]).null_s(),
    ensures lists_last(m, ps, n, kd[y]),
{
    let t = kd[y];
    lemma_unlisted(ps, t, n);
    lemma_alts(ps, t, n);
    if seen(d, d.len() as int, t) { assert(d.contains(t)); }
    if d.contains(t) { let x = choose|x: int| 0 <= x < d.len() && d[x] == t; assert(seen(d, d.len() as int, t)); }
    assert(!seen(kd, y, t));
}
pub proof fn lemma_mid_ext<N: NodeImpl, T: TokenImpl>(m: Map<T, Vec<usize>>, m1: Map<T, Vec<usize>>, ps: Syms<N, T>, n: int, d: Seq<T>, kd: Seq<T>, y: int, w: Vec<usize>)
    requires
        map_mid(m, ps, n, d, d.len() as int, kd, y), 0 <= n < ps.len(), 0 <= y < kd.len(), kd.no_duplicates(), m.contains_key(kd[y]),
        forall|t: T| #[trigger] ps[n].first_s().contains(t) <==> d.contains(t),
        m1 == m.insert(kd[y], w), w@ == (if ps[n].first_s().contains(kd[y]) { m[kd[y]]@ } else { m[kd[y]]@.push(n as usize) }),
    ensures map_mid(m1, ps, n, d, d.len() as int, kd, y + 1),
{
    assert forall|t: T| #![trigger m1.contains_key(t)] (m1.contains_key(t) <==> listed(ps, t, n) || seen(d, d.len() as int, t))
        && (m1.contains_key(t) ==> m1[t]@ == (if seen(d, d.len() as int, t) || seen(kd, y + 1, t) { alts(ps, t, n).push(n as usize) } else { alts(ps, t, n) })) by {
        assert(m.contains_key(t) == m.contains_key(t));
        if seen(d, d.len() as int, t) { assert(d.contains(t)); }
        if d.contains(t) { let x = choose|x: int| 0 <= x < d.len() && d[x] == t; assert(seen(d, d.len() as int, t)); }
        if t == kd[y] { assert(seen(kd, y + 1, t)); assert(!seen(kd, y, t)); }
        else { assert(seen(kd, y + 1, t) ==> seen(kd, y, t)); assert(seen(kd, y, t) ==> seen(kd, y + 1, t)); }
    }
}
/// alternative n has been added
pub proof fn lemma_mid_end<N: NodeImpl, T: TokenImpl>(m: Map<T, Vec<usize>>, ps: Syms<N, T>, n: int, d: Seq<T>, kd: Seq<T>, y: int)
    requires
        map_mid(m, ps, n, d, d.len() as int, kd, y), 0 <= n < ps.len(),
        forall|t: T| #[trigger] ps[n].first_s().contains(t) <==> d.contains(t),
        if ps[n].null_s() { y == kd.len() && forall|t: T| #[trigger] m.contains_key(t) ==> kd.contains(t) } else { y == 0 },
    ensures map_ok(m, ps, n + 1),
{
    assert forall|t: T| #![trigger m.contains_key(t)] #![trigger listed(ps, t, n + 1)] (m.contains_key(t) <==> listed(ps, t, n + 1)) && (m.contains_key(t) ==> m[t]@ == alts(ps, t, n + 1)) by {
        assert(m.contains_key(t) == m.contains_key(t));
        if seen(d, d.len() as int, t) { assert(d.contains(t)); assert(ps[n].first_s().contains(t)); }
        if ps[n].first_s().contains(t) { assert(d.contains(t)); let x = choose|x: int| 0 <= x < d.len() && d[x] == t; assert(seen(d, d.len() as int, t)); assert(listed(ps, t, n + 1)); }
        if listed(ps, t, n) { let q = choose|q: int| 0 <= q < n && q < ps.len() && (#[trigger] ps[q]).first_s().contains(t); assert(ps[q].first_s().contains(t)); }
        if listed(ps, t, n + 1) { let q = choose|q: int| 0 <= q < n + 1 && q < ps.len() && (#[trigger] ps[q]).first_s().contains(t); if q < n { assert(listed(ps, t, n)); } }
        if ps[n].null_s() && m.contains_key(t) { let x = choose|x: int| 0 <= x < kd.len() && kd[x] == t; assert(seen(kd, y, t)); }
        if !ps[n].null_s() { assert(!seen(kd, 0, t)); }
    }
}
/// the sorted entries of the map are the table
pub proof fn lemma_tab_sort<N: NodeImpl, T: TokenImpl>(m: &VfMap<T, Vec<usize>>, a: Seq<(T, Vec<usize>)>, v: Seq<(T, Vec<usize>)>, ps: Syms<N, T>, n: int)
    requires
        map_ok(m.map(), ps, n), a == m.items(), permuted(a, v), wsorted_by(v, |p: &(T, Vec<usize>)| p.0),
        forall|i: int| 0 <= i < a.len() ==> v.contains(#[trigger] a[i]),
    ensures
        ord_ok::<T>() ==> sorted_by(v, |p: &(T, Vec<usize>)| p.0),
        forall|k: int| 0 <= k < v.len() ==> listed(ps, (#[trigger] v[k]).0, n) && v[k].1@ == alts(ps, v[k].0, n),
        forall|t: T| #[trigger] listed(ps, t, n) ==> exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == t,
{
    m.vf_items();
    let p = choose|p: Seq<int>| #![trigger p.len()] p.len() == a.len()
        && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && v[i] == a[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]);
    let kf = |p: &(T, Vec<usize>)| p.0;
    assert forall|k: int| 0 <= k < v.len() implies listed(ps, (#[trigger] v[k]).0, n) && v[k].1@ == alts(ps, v[k].0, n) by {
        assert(v[k] == a[p[k]]);
        assert(m.map().contains_key(a[p[k]].0));
    }
    assert forall|t: T| #[trigger] listed(ps, t, n) implies exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == t by {
        assert(m.map().contains_key(t));
        let i = choose|i: int| 0 <= i < m.items().len() && (#[trigger] m.items()[i]).0 == t;
        assert(v.contains(a[i]));
        let k = choose|k: int| 0 <= k < v.len() && v[k] == a[i];
        assert(v[k].0 == t);
    }
    if ord_ok::<T>() {
        assert forall|i: int, j: int| 0 <= i < j < v.len() implies T::lt(kf(&#[trigger] v[i]), kf(&#[trigger] v[j])) by {
            assert(p[i] != p[j]);
            if p[i] < p[j] { assert(a[p[i]].0 != a[p[j]].0); } else { assert(a[p[j]].0 != a[p[i]].0); }
            assert(!T::lt(kf(&v[j]), kf(&v[i])));
            assert(T::lt(v[i].0, v[j].0) || v[i].0 == v[j].0 || T::lt(v[j].0, v[i].0));
        }
    }
}
@module union_
@modprops C07 C17
broadcast use {group_trees, lemma_nm_mono, lemma_at_word};
@struct Union rr
/// what is left when no alternative starts here
pub open spec fn null_res<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, i: int, reach: int) -> PRes<N> {
    match null_at(ps, 0) {
        Some(k) => okres(i, if ps[k].nullh_s() { Seq::empty() } else { seq![leaf(N::null_s(), st(e, m, i), st(e, m, i), bnd(e, m, i, i))] }, reach),
        None => unparsed(reach),
    }
}
pub open spec fn union_sem<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, i: int) -> PRes<N> {
    if m == Md::L { alt_sem(ps, e, m, all_alts(ps.len() as int), 0, i, 0) } else {
        match pick(ps, e, m, i) {
            Some(t) => {
                let r = alt_sem(ps, e, m, alts(ps, t, ncons(ps, 0)), 0, i, 0);
                if m == Md::R && r.out == Err::<(int, Seq<Tree<N>>), ProductionError>(ProductionError::Unparsed) { null_res(ps, e, m, i, r.reach) } else { r }
            },
            None => null_res(ps, e, m, i, 0),
        }
    }
}
## ---------------------------------------------------------------- the table loses no alternative
/// alternatives js[k..] before the one at x do not match
pub proof fn lemma_alt_skip<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, js: Seq<usize>, k: int, x: int, i: int, reach: int)
    requires 0 <= k <= x < js.len(), forall|y: int| k <= y < x ==> ps[#[trigger] js[y] as int].sem(e, m, i).out == Err::<(int, Seq<Tree<N>>), ProductionError>(ProductionError::Unparsed),
    ensures ps[js[x] as int].sem(e, m, i).out is Ok ==> alt_sem(ps, e, m, js, k, i, reach).out == ps[js[x] as int].sem(e, m, i).out,
    decreases x - k
{ if k < x { lemma_alt_skip(ps, e, m, js, k + 1, x, i, imax(reach, ps[js[k] as int].sem(e, m, i).reach)); } }
/// C07, C17: the earliest matching alternative gives the result, whatever the table leaves out
/// (alternatives that do not start with a non-structural token)
pub proof fn lemma_first_match<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, i: int, q: int)
    requires
        all_wf(ps, m), all_pure(ps), env_ok(e, m), at_ok(e, m, i), 0 <= q < ncons(ps, 0), ps.len() <= usize::MAX,
        m == Md::F && !listed(ps, tok_at(e, m, i), ncons(ps, 0)) ==> pick(ps, e, m, i) is None,
        ps[q].sem(e, m, i).out is Ok,
        forall|p: int| 0 <= p < q ==> (#[trigger] ps[p]).sem(e, m, i).out == Err::<(int, Seq<Tree<N>>), ProductionError>(ProductionError::Unparsed),
    ensures
        m == Md::L || listed(ps, tok_at(e, m, i), ncons(ps, 0)) || ps[q].sem(e, m, i).out->Ok_0.0 > i || !ps[q].null_s() ==> union_sem(ps, e, m, i).out == ps[q].sem(e, m, i).out,
        m != Md::L && ps[q].null_s() && !listed(ps, tok_at(e, m, i), ncons(ps, 0)) ==> union_sem(ps, e, m, i) == null_res(ps, e, m, i, 0) && null_at(ps, 0) == Some(q),
{
    lemma_null_at(ps, 0);
    ps[q].laws(e, m, i);
    let n = ncons(ps, 0);
    if m == Md::L {
        lemma_alt_skip(ps, e, m, all_alts(ps.len() as int), 0, q, i, 0);
    } else {
        let t = tok_at(e, m, i);
        if ps[q].sem(e, m, i).out->Ok_0.0 > i || !ps[q].null_s() { assert(ps[q].first_s().contains(t)); assert(listed(ps, t, n)); }
        if listed(ps, t, n) {
            lemma_alts(ps, t, n);
            let js = alts(ps, t, n);
            let x = choose|x: int| 0 <= x < js.len() && (#[trigger] js[x]) == q;
            assert forall|y: int| 0 <= y < x implies ps[#[trigger] js[y] as int].sem(e, m, i).out == Err::<(int, Seq<Tree<N>>), ProductionError>(ProductionError::Unparsed) by { assert(js[y] < js[x]); }
            lemma_alt_skip(ps, e, m, js, 0, x, i, 0);
        }
    }
}
@open impl<TN: NodeImpl, TL: TokenImpl> Union<TN, TL> {
/// as its constructors leave it
pub open spec fn cells(&self) -> bool {
    &&& nt_cells(self.nt_helper) && self.symbols.strict() && !self.first_set.strict()
    &&& forall|v: Vec<Rc<DynProd<TN, TL>>>| #[trigger] self.symbols.ok(v) <==> all_bwf(v@)
    &&& forall|v: (bool, Vec<(TL, Vec<usize>)>)| #[trigger] self.first_set.ok(v) <==> tab_ok(v, nt_syms::<TN, TL>(self.nt_helper.identifier))
}
/// no other nonterminal has its name
pub open spec fn named(&self) -> bool {
    let id = self.nt_helper.identifier;
    let ps = self.symbols.fin()@;
    &&& nts().contains(id)
    &&& nt_set(id) == self.symbols.filled() && nt_null(id) == any_null(ps) && nt_nullh(id) == (match null_at(ps, 0) { Some(k) => ps[k].nullh_s(), None => false })
    &&& nt_heads(id) == seq_heads(ps, 0) && nt_parts(id) == seq_parts(ps, 0) && nt_stay(id) == seq_stays(ps, 0) && nt_syms::<TN, TL>(id) == ps
}
@fn Union::init
@props C07 C16
@rewrite symbols : VfCell :: new ( ) ==>> symbols: VfCell::vf_user(Ghost(|v: Vec<Rc<DynProd<TN, TL>>>| all_bwf(v@)))
@rewrite first_set : VfCell :: new ( ) ==>> first_set: VfCell::vf_new(Ghost(|v: (bool, Vec<(TL, Vec<usize>)>)| tab_ok(v, nt_syms::<TN, TL>(identifier))))
@ensures
    r.cells() && r.nt_helper.identifier == identifier,
@fn Union::new
@props C07 C16
@rewrite production_cell = VfCell :: new ( ) ==>> production_cell = VfCell::vf_user(Ghost(|v: Vec<Rc<DynProd<TN, TL>>>| all_bwf(v@)))
@rewrite first_set : VfCell :: new ( ) ==>> first_set: VfCell::vf_new(Ghost(|v: (bool, Vec<(TL, Vec<usize>)>)| tab_ok(v, nt_syms::<TN, TL>(identifier))))
@opt panic.0=true
@requires
    all_bwf(symbols@),
@ensures
    [C07.built] r.cells() && r.nt_helper.identifier == identifier && r.symbols.filled() && r.symbols.fin() == symbols,
@fn Union::set_symbols
@props C07 C16
@requires
    self.cells(), all_bwf(symbols@),
@ensures
    [C07.assigned] r is Ok ==> self.symbols.filled() && self.symbols.fin() == symbols,
@fn Union::get_productions
@requires
    self.symbols.filled(),
@ensures
    *r == self.symbols.fin(),
@fn Union::obtain_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = vf_b
@ghostcall impl_first_set: = vf_b
@opt loopkind.1=into_iter
@opt loopkind.3=into_iter
@opt bs.0=(TL, Vec<usize>)
@opt bsk.0=TL
@requires
    self.nwf(), self.tokd(), vf_b@.0 > 3,
@ensures
    tab_ok(*r, self.symbols.fin()@),
@closure 0
|| -> (cr: (bool, Vec<(TL, Vec<usize>)>))
    requires self.nwf(), self.tokd(), vf_b@.0 > 3
    ensures tab_ok(cr, self.symbols.fin()@)
@loop 0
    invariant_except_break
        vf_b@.0 > 3, vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), vf_s0@.len() <= isize::MAX, all_nwf(self.symbols.fin()@), all_tokd(self.symbols.fin()@),
        forall|k: int| 0 <= k < vf_i0 ==> !(#[trigger] self.symbols.fin()@[k]).null_s(),
        map_ok(children_set.map(), self.symbols.fin()@, vf_i0 as int), ncons(self.symbols.fin()@, 0) == ncons(self.symbols.fin()@, vf_i0 as int),
    ensures map_ok(children_set.map(), self.symbols.fin()@, ncons(self.symbols.fin()@, 0)),
    decreases vf_s0@.len() - vf_i0
@proof loopbefore 1
    child_set.vf_items();
    assert forall|t: TL| #[trigger] self.symbols.fin()@[index as int].first_s().contains(t) <==> child_set.items().contains(t) by { assert(child_set.set().contains(t) <==> self.symbols.fin()@[index as int].first_s().contains(t)); }
    lemma_mid_start(children_set.map(), self.symbols.fin()@, index as int, child_set.items());
    lemma_null_skip(self.symbols.fin()@, 0, index as int);
@loop 1
    invariant
        vf_s0@ == self.symbols.fin()@, index < vf_s0@.len(), vf_s1@ == child_set.items(), vf_i1 <= vf_s1@.len(), vf_s1@.no_duplicates(),
        forall|k: int| 0 <= k < index ==> !(#[trigger] self.symbols.fin()@[k]).null_s(),
        map_mid(children_set.map(), self.symbols.fin()@, index as int, child_set.items(), vf_i1 as int, Seq::empty(), 0),
    decreases vf_s1@.len() - vf_i1
@proof looptop 1
    let ghost vf_m = children_set.map();
@proof loopend 1
    lemma_mid_add(vf_m, children_set.map(), self.symbols.fin()@, index as int, child_set.items(), vf_i1 - 1, children_set.map()[t]);
@proof loopafter 1
    if !self.symbols.fin()@[index as int].null_s() { lemma_mid_end(children_set.map(), self.symbols.fin()@, index as int, child_set.items(), Seq::empty(), 0); lemma_null_skip(self.symbols.fin()@, 0, index + 1); }
@loop 2
    invariant
        vf_s0@ == self.symbols.fin()@, index < vf_s0@.len(), vf_s0@.len() <= isize::MAX, vf_s2@ == vf_k2@, vf_i2 <= vf_s2@.len(), vf_k2@.no_duplicates(),
        forall|k: int| 0 <= k < index ==> !(#[trigger] self.symbols.fin()@[k]).null_s(),
        forall|t: TL| #[trigger] children_set.map().contains_key(t) <==> vf_k2@.contains(t),
        forall|t: TL| #[trigger] self.symbols.fin()@[index as int].first_s().contains(t) <==> child_set.items().contains(t),
        map_mid(children_set.map(), self.symbols.fin()@, index as int, child_set.items(), child_set.items().len() as int, vf_k2@, vf_i2 as int),
    decreases vf_s2@.len() - vf_i2
@proof looptop 2
    let ghost vf_m = children_set.map();
    assert(vf_k2@.contains(vf_k2@[vf_i2 as int]));
    lemma_last(vf_m, self.symbols.fin()@, index as int, child_set.items(), vf_k2@, vf_i2 as int);
@proof loopend 2
    lemma_mid_ext(vf_m, children_set.map(), self.symbols.fin()@, index as int, child_set.items(), vf_k2@, vf_i2 - 1, children_set.map()[vf_k2@[vf_i2 - 1]]);
@proof loopafter 2
    lemma_mid_end(children_set.map(), self.symbols.fin()@, index as int, child_set.items(), vf_k2@, vf_k2@.len() as int);
@loop 3
    invariant vf_s3@ == children_set.items(), vf_i3 <= vf_s3@.len(), vf_r3@ =~= children_set.items().subrange(0, vf_i3 as int),
    decreases vf_s3@.len() - vf_i3
@proof afterlet v#1
    let ghost vf_v = v@;
    assert(vf_v =~= children_set.items());
@proof loopbefore 4
    lemma_tab_sort(&children_set, vf_v, v@, self.symbols.fin()@, ncons(self.symbols.fin()@, 0));
@loop 4
    invariant vf_s4@ == v@, vf_i4 <= vf_s4@.len(), vf_r4 == (forall|k: int| 0 <= k < vf_i4 ==> (#[trigger] vf_s4@[k]).0.structural_s()),
    decreases vf_s4@.len() - vf_i4
@proof loopafter 4
    if !vf_r4 { }
    assert(vf_r4 == forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).0.structural_s());
    assert(ord_ok::<TL>() ==> sorted_by(v@, |p: &(TL, Vec<usize>)| p.0));
    assert(forall|k: int| 0 <= k < v@.len() ==> listed(self.symbols.fin()@, (#[trigger] v@[k]).0, ncons(self.symbols.fin()@, 0)) && v@[k].1@ == alts(self.symbols.fin()@, v@[k].0, ncons(self.symbols.fin()@, 0)));
    assert(forall|t: TL| #[trigger] listed(self.symbols.fin()@, t, ncons(self.symbols.fin()@, 0)) ==> exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k]).0 == t);
    let w = (vf_r4, v);
    assert(w.1@ == v@);
    assert(tab_ok(w, self.symbols.fin()@));
@close
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for Union<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> { union_sem(self.symbols.fin()@, e, m, i) }
    open spec fn wf(&self, m: Md) -> bool { self.nwf() && all_wf(self.symbols.fin()@, m) && (m != Md::L ==> self.tokd()) }
    open spec fn pure(&self) -> bool { all_pure(self.symbols.fin()@) }
    open spec fn tokd(&self) -> bool { all_tokd(self.symbols.fin()@) }
    open spec fn null_s(&self) -> bool { any_null(self.symbols.fin()@) }
    open spec fn cons(&self) -> bool { all_cons(self.symbols.fin()@) }
    open spec fn nullh_s(&self) -> bool { match null_at(self.symbols.fin()@, 0) { Some(k) => self.symbols.fin()@[k].nullh_s(), None => false } }
    open spec fn first_s(&self) -> Set<TL> { union_first(self.symbols.fin()@, 0) }
    open spec fn nwf(&self) -> bool { self.bwf() && sound(self.nt_helper.identifier) && self.symbols.filled() && all_nwf(self.symbols.fin()@) }
    open spec fn bwf(&self) -> bool { self.cells() && self.named() }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { !stay_rec(self.nt_helper.identifier) && all_fwd(self.symbols.fin()@, m) }
    open spec fn stays(&self) -> Set<&'static str> { set![self.nt_helper.identifier] }
    open spec fn heads(&self) -> Set<&'static str> { set![self.nt_helper.identifier] }
    open spec fn parts(&self) -> Set<&'static str> { set![self.nt_helper.identifier] }
    proof fn nlaw(&self) {
        let id = self.nt_helper.identifier;
        assert(self.parts().contains(id));
        lemma_sound_parts(id);
        lemma_lg_heads(id);
        self.symbols.vf_holds();
        lemma_all_nwf(self.symbols.fin()@);
    }
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) {
        lemma_st_inc(e, m, i, i);
        let ps = self.symbols.fin()@;
        lemma_null_at(ps, 0);
        let n = ncons(ps, 0);
        lemma_vec_len(&self.symbols.fin());
        if m == Md::L {
            lemma_alt(ps, e, m, all_alts(ps.len() as int), 0, i, 0);
        } else {
            match pick(ps, e, m, i) {
                Some(t) => { lemma_alts(ps, t, n); lemma_alt(ps, e, m, alts(ps, t, n), 0, i, 0); },
                None => {},
            }
        }
    }
@fn IProduction@Union::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17 ~C16
@ghostcall obtain_nullability: = &mut vf_now(), Ghost(m1(self.parts(), self.depth()))
@proof start
    lemma_sound_parts(self.nt_helper.identifier);
    assert(self.parts().contains(self.nt_helper.identifier));
@fn IProduction@Union::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@opt rty.0=Option<&Rc<DynProd<TN, TL>>>
@closure 0
|| -> (cr: bool)
    requires self.nwf()
    ensures cr == self.nullh_s()
@loop 0
    invariant vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), all_nwf(self.symbols.fin()@),
        match vf_r0 { Some(p) => null_at(self.symbols.fin()@, 0) is Some && *p == self.symbols.fin()@[null_at(self.symbols.fin()@, 0)->Some_0], None => null_at(self.symbols.fin()@, 0) == null_at(self.symbols.fin()@, vf_i0 as int) },
    decreases vf_s0@.len() - vf_i0 + (if vf_r0 is None { 1int } else { 0 })
@proof loopbefore 0
    lemma_null_at(self.symbols.fin()@, 0);
@proof loopafter 0
    if vf_r0 is Some {
        let k = null_at(self.symbols.fin()@, 0)->Some_0;
        lemma_seq_heads(self.symbols.fin()@, 0, k);
        lemma_kid_down(self.nt_helper.identifier, self.symbols.fin()@[k].heads());
    }
@fn IProduction@Union::obtain_nullability
@attr verifier::loop_isolation(false)
@attr verifier::allow_complex_invariants
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@rewrite nullability . get ( ) ==>> nullability.get_w(vf_w)
@rewrite nullability . set ( ==>> nullability.set_w(vf_w, 
@proof start
    let ghost id = self.nt_helper.identifier;
    let ghost v0 = visited.map().dom();
    let ghost vf_me = om(v0, self.depth());
    let ghost vf_d0 = vf_w.done();
    if !v0.contains(id) { lemma_left(v0, id); }
    assert(self.heads().contains(id));
    lemma_lg_heads(id);
    lemma_lreach_refl(id);
    self.symbols.vf_holds();
    assert(v0.contains(id) ==> hits(set![id], v0));
    assert(!v0.contains(id) ==> v0.insert(id).remove(id) =~= v0);
@loop 0
    invariant_except_break vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), all_bwf(vf_s0@), !is_nullable, null_at(self.symbols.fin()@, 0) == null_at(self.symbols.fin()@, vf_i0 as int),
        id == self.nt_helper.identifier, nt_heads(id) == seq_heads(vf_s0@, 0), nt_parts(id) == seq_parts(vf_s0@, 0), seq_heads(vf_s0@, vf_i0 as int).subset_of(nt_heads(id)), all_lg(nt_heads(id)), !left_rec(id),
        visited.map().dom() == v0.insert(id), v0.insert(id).remove(id) =~= v0, !v0.contains(id), left_of(v0.insert(id)) < left_of(v0), vf_w.on() == old(vf_w).on(), !vf_w.done().contains(id), same_done(v0, vf_d0, vf_w.done()),
    ensures is_nullable == any_null(self.symbols.fin()@),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    let ghost q = vf_s0@[vf_i0 as int];
    lemma_seq_parts(vf_s0@, 0, vf_i0 as int);
    lemma_kid(id, q.heads(), q.parts(), visited.map().dom());
    assert(q.heads().subset_of(seq_heads(vf_s0@, vf_i0 as int)));
    assert(q.heads().subset_of(nt_heads(id)));
    assert(all_lg(q.heads()));
@fn IProduction@Union::validate
@attr verifier::loop_isolation(false)
@props C16
@ghost vf_w: &mut World
@ghostcall validate_symbols: = vf_w
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vm(vf_c0, vf_p0, self.depth()))
@ghostcall obtain_nullability: = vf_w, Ghost(vm(vf_c0, vf_p0, self.depth()))
@proof start
    let ghost vf_c0 = connected_set.map().dom();
    let ghost vf_p0 = vf_w.on();
@closure 0
|connected_set: VfMap<&'id str, usize>, visited_prod: &mut VfSet<&'id str>, vf_w: &mut World| -> (cr: Result<(), ImplementationError>)
    requires self.bwf(), vpre(old(visited_prod).set(), old(vf_w).on()), connected_set.map().dom().contains(self.nt_helper.identifier), deeper(connected_set.map().dom(), old(vf_w).on(), vf_c0, vf_p0), deeper(Set::empty(), old(vf_w).on(), vf_c0, vf_p0)
    ensures final(vf_w).on() == old(vf_w).on(), bpost(cr is Ok, self.nt_helper.identifier, connected_set.map().dom(), old(visited_prod).set(), final(visited_prod).set(), old(vf_w).on())
@proof closurestart 0
    let ghost id = self.nt_helper.identifier;
    let ghost c = connected_set.map().dom();
    let ghost p = vf_w.on();
    let ghost v0 = visited_prod.set();
    self.symbols.vf_holds();
    if !nt_set(id) { lemma_defect_self(id); }
@loop 0
    invariant vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), all_bwf(vf_s0@), id == self.nt_helper.identifier, nt_set(id), nt_heads(id) == seq_heads(vf_s0@, 0), nt_parts(id) == seq_parts(vf_s0@, 0),
        c == connected_set.map().dom(), c.contains(id), vf_w.on() == p, deeper(c, p, vf_c0, vf_p0), deeper(Set::empty(), p, vf_c0, vf_p0), v0.subset_of(visited_prod.set()), vpre(visited_prod.set(), p),
        seq_heads(vf_s0@, vf_i0 as int).subset_of(nt_heads(id)),
        forall|y: &'static str| #[trigger] nt_heads(id).contains(y) ==> visited_prod.set().contains(y) || seq_heads(vf_s0@, vf_i0 as int).contains(y),
        forall|y: &'static str| #[trigger] nt_parts(id).contains(y) ==> visited_prod.set().contains(y) || p.contains(y) || seq_parts(vf_s0@, vf_i0 as int).contains(y),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    let ghost q = vf_s0@[vf_i0 as int];
    lemma_seq_parts(vf_s0@, 0, vf_i0 as int);
    lemma_kid(id, q.heads(), q.parts(), c);
    assert(q.heads().subset_of(seq_heads(vf_s0@, vf_i0 as int)));
    assert(q.heads().subset_of(nt_heads(id)));
    assert(c != Set::<&'static str>::empty());
@fn IProduction@Union::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@loop 0
    invariant vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), all_nwf(self.symbols.fin()@), all_tokd(self.symbols.fin()@), self.nwf(),
        old(first_set).set().union(self.first_s()) =~= first_set.set().union(union_first(self.symbols.fin()@, vf_i0 as int)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    lemma_seq_heads(vf_s0@, 0, vf_i0 as int);
    lemma_kid_down(self.nt_helper.identifier, vf_s0@[vf_i0 as int].heads());
@proof end
    assert(first_set.set().union(Set::<TL>::empty()) =~= first_set.set());
    assert(first_set.set() =~= old(first_set).set().union(self.first_s()));
@fn IProduction@Union::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall obtain_first_set: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall is_nullable: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@props C07 ~C09 ~C10 ~C15
@opt bs.0=(TL, Vec<usize>)
@opt bs.1=(TL, Vec<usize>)
@proof start
    let ghost vf_e = env(code, token_stream);
    let ghost vf_t = pick(self.symbols.fin()@, vf_e, Md::F, fltr_ptr.at());
    lemma_after_prev(vf_e, fltr_ptr.at());
    lemma_null_at(self.symbols.fin()@, 0);
    lemma_vec_len(&self.symbols.fin());
    match vf_t { Some(t) => { lemma_alts(self.symbols.fin()@, t, ncons(self.symbols.fin()@, 0)); }, None => {} }
@proof loopbefore 0
    let ghost mut vf_reach = 0int;
@loop 0
    invariant
        vf_s0@ == alts(self.symbols.fin()@, vf_t->Some_0, ncons(self.symbols.fin()@, 0)), vf_i0 <= vf_s0@.len(), productions@ == self.symbols.fin()@, vf_t is Some, vf_t == pick(self.symbols.fin()@, env(code, token_stream), Md::F, fltr_ptr.at()), self.nwf(), all_wf(self.symbols.fin()@, Md::F), forall|x: int| 0 <= x < vf_s0@.len() ==> (#[trigger] vf_s0@[x]) < self.symbols.fin()@.len(), 
        alt_sem(self.symbols.fin()@, env(code, token_stream), Md::F, alts(self.symbols.fin()@, vf_t->Some_0, ncons(self.symbols.fin()@, 0)), 0, fltr_ptr.at(), 0) == alt_sem(self.symbols.fin()@, env(code, token_stream), Md::F, alts(self.symbols.fin()@, vf_t->Some_0, ncons(self.symbols.fin()@, 0)), vf_i0 as int, fltr_ptr.at(), vf_reach),
        ppre(env(code, token_stream), Md::F, fltr_ptr.at(), *cache), 0 <= vf_reach <= env(code, token_stream).code.len(),
        old(cache).mx() <= cache.mx(), nm(env(code, token_stream), Md::F, cache.mx()) == imax(nm(env(code, token_stream), Md::F, old(cache).mx()), nm(env(code, token_stream), Md::F, vf_reach)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    let ghost vf_q = vf_s0@[vf_i0 as int] as int;
    self.symbols.fin()@[vf_q].laws(env(code, token_stream), Md::F, fltr_ptr.at());
    lemma_seq_stays(self.symbols.fin()@, 0, vf_q);
    if self.fwd(Md::F) { lemma_srank_down(self.nt_helper.identifier, self.symbols.fin()@[vf_q].stays()); }
    lemma_nm_max(env(code, token_stream), Md::F, vf_reach, self.symbols.fin()@[vf_q].sem(env(code, token_stream), Md::F, fltr_ptr.at()).reach);
    vf_reach = imax(vf_reach, self.symbols.fin()@[vf_q].sem(env(code, token_stream), Md::F, fltr_ptr.at()).reach);
@fn IProduction@Union::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall obtain_first_set: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@props C07 ~C09 ~C10 ~C15
@opt bs.0=(TL, Vec<usize>)
@proof start
    let ghost vf_e = env(code, token_stream);
    let ghost vf_t = pick(self.symbols.fin()@, vf_e, Md::R, index.at());
    lemma_null_at(self.symbols.fin()@, 0);
    lemma_vec_len(&self.symbols.fin());
    match vf_t { Some(t) => { lemma_alts(self.symbols.fin()@, t, ncons(self.symbols.fin()@, 0)); }, None => {} }
@proof loopbefore 0
    let ghost mut vf_reach = 0int;
@loop 0
    invariant
        vf_s0@ == alts(self.symbols.fin()@, vf_t->Some_0, ncons(self.symbols.fin()@, 0)), vf_i0 <= vf_s0@.len(), productions@ == self.symbols.fin()@, vf_t is Some, vf_t == pick(self.symbols.fin()@, env(code, token_stream), Md::R, index.at()), self.nwf(), all_wf(self.symbols.fin()@, Md::R), forall|x: int| 0 <= x < vf_s0@.len() ==> (#[trigger] vf_s0@[x]) < self.symbols.fin()@.len(), 
        alt_sem(self.symbols.fin()@, env(code, token_stream), Md::R, alts(self.symbols.fin()@, vf_t->Some_0, ncons(self.symbols.fin()@, 0)), 0, index.at(), 0) == alt_sem(self.symbols.fin()@, env(code, token_stream), Md::R, alts(self.symbols.fin()@, vf_t->Some_0, ncons(self.symbols.fin()@, 0)), vf_i0 as int, index.at(), vf_reach),
        ppre(env(code, token_stream), Md::R, index.at(), *cache), 0 <= vf_reach <= env(code, token_stream).code.len(),
        old(cache).mx() <= cache.mx(), nm(env(code, token_stream), Md::R, cache.mx()) == imax(nm(env(code, token_stream), Md::R, old(cache).mx()), nm(env(code, token_stream), Md::R, vf_reach)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    let ghost vf_q = vf_s0@[vf_i0 as int] as int;
    self.symbols.fin()@[vf_q].laws(env(code, token_stream), Md::R, index.at());
    lemma_seq_stays(self.symbols.fin()@, 0, vf_q);
    if self.fwd(Md::R) { lemma_srank_down(self.nt_helper.identifier, self.symbols.fin()@[vf_q].stays()); }
    lemma_nm_max(env(code, token_stream), Md::R, vf_reach, self.symbols.fin()@[vf_q].sem(env(code, token_stream), Md::R, index.at()).reach);
    vf_reach = imax(vf_reach, self.symbols.fin()@[vf_q].sem(env(code, token_stream), Md::R, index.at()).reach);
@fn IProduction@Union::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C07 ~C09 ~C10 ~C15
@proof loopbefore 0
    let ghost mut vf_reach = 0int;
@loop 0
    invariant
        vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), self.nwf(), all_wf(self.symbols.fin()@, Md::L), vf_s0@.len() <= isize::MAX, 
        alt_sem(self.symbols.fin()@, lenv::<TL>(code), Md::L, all_alts(self.symbols.fin()@.len() as int), 0, index.at(), 0) == alt_sem(self.symbols.fin()@, lenv::<TL>(code), Md::L, all_alts(self.symbols.fin()@.len() as int), vf_i0 as int, index.at(), vf_reach),
        ppre(lenv::<TL>(code), Md::L, index.at(), *cache), 0 <= vf_reach <= lenv::<TL>(code).code.len(),
        old(cache).mx() <= cache.mx(), nm(lenv::<TL>(code), Md::L, cache.mx()) == imax(nm(lenv::<TL>(code), Md::L, old(cache).mx()), nm(lenv::<TL>(code), Md::L, vf_reach)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    let ghost vf_q = vf_i0 as int;
    self.symbols.fin()@[vf_q].laws(lenv::<TL>(code), Md::L, index.at());
    lemma_seq_stays(self.symbols.fin()@, 0, vf_q);
    if self.fwd(Md::L) { lemma_srank_down(self.nt_helper.identifier, self.symbols.fin()@[vf_q].stays()); }
    lemma_nm_max(lenv::<TL>(code), Md::L, vf_reach, self.symbols.fin()@[vf_q].sem(lenv::<TL>(code), Md::L, index.at()).reach);
    vf_reach = imax(vf_reach, self.symbols.fin()@[vf_q].sem(lenv::<TL>(code), Md::L, index.at()).reach);
@close
