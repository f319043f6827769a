@module prod
@modprops C05
## ---------------------------------------------------------------- what every production promises
/// children of a parent node (or of the result) in order, inside lo..hi and inside the raw-token range
pub open spec fn fit1<N>(t: Tree<N>, lex: bool, lo: int, hi: int, blo: int, bhi: int) -> bool decreases t {
    &&& lo <= t.start <= t.end <= hi
    &&& (if lex { t.bound is None } else { t.bound is Some && blo <= t.bound->Some_0.0 <= t.bound->Some_0.1 <= bhi })
    &&& forall|k: int| 0 <= k < t.kids.len() ==> fit1(#[trigger] t.kids[k], lex, t.start, t.end, if lex { 0 } else { t.bound->Some_0.0 }, if lex { 0 } else { t.bound->Some_0.1 })
    &&& in_order(t.kids)
}
pub open spec fn in_order<N>(ts: Seq<Tree<N>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ts.len() ==> (#[trigger] ts[i]).end <= (#[trigger] ts[j]).start
        && (ts[i].bound is Some && ts[j].bound is Some ==> ts[i].bound->Some_0.1 <= ts[j].bound->Some_0.0)
}
pub open spec fn fits<T, N>(ts: Seq<Tree<N>>, e: Env<T>, m: Md, i: int, j: int) -> bool {
    &&& forall|k: int| 0 <= k < ts.len() ==> fit1(#[trigger] ts[k], m == Md::L, st(e, m, i), st(e, m, j), bd(e, m, i), bd(e, m, j))
    &&& in_order(ts)
}
pub open spec fn tok_at<T>(e: Env<T>, m: Md, i: int) -> T { e.toks[bd(e, m, i)].token }
/// cache contents agree with the productions that own the keys
pub open spec fn cm(m: Md) -> Md { if m == Md::L { Md::L } else { Md::F } }
pub open spec fn ent_ok<I: VfPtr, T, N>(v: ParsedResult<I, N>, ks: PRes<N>, e: Env<T>, m: Md, mx: int) -> bool {
    rv(v) == ks.out && nm(e, m, ks.reach) <= nm(e, m, mx)
}
pub open spec fn cinv<I: VfPtr, T, N>(c: Cache<I, N>, e: Env<T>, m: Md) -> bool {
    forall|k: CacheKey, s: usize, i: int| #![trigger c.map()[(k, s)], key_sem::<T, N>(k, e, m, i)]
        c.map().contains_key((k, s)) && at_ok(e, m, i) && st(e, m, i) == s ==> ent_ok(c.map()[(k, s)], key_sem::<T, N>(k, e, m, i), e, m, c.mx())
}
pub open spec fn ppre<I: VfPtr, T: TokenImpl, N>(e: Env<T>, m: Md, i: int, c: Cache<I, N>) -> bool {
    &&& env_ok(e, m) && at_ok(e, m, i) && cinv(c, e, cm(m))
    &&& nm(e, m, st(e, m, i)) <= nm(e, m, c.mx()) && c.mx() <= e.code.len()
}
/// the mark never moves backwards and moves to exactly the furthest position matched
pub open spec fn mark_post<I: VfPtr, T: TokenImpl, N>(s: PRes<N>, e: Env<T>, m: Md, c0: Cache<I, N>, c1: Cache<I, N>) -> bool {
    &&& c0.mx() <= c1.mx() <= e.code.len()
    &&& nm(e, m, c1.mx()) == imax(nm(e, m, c0.mx()), nm(e, m, s.reach))
}
/// the state part of every result: the mark, and a memory that is still right
pub open spec fn ppost<I: VfPtr, T: TokenImpl, N>(s: PRes<N>, e: Env<T>, m: Md, c0: Cache<I, N>, c1: Cache<I, N>) -> bool { cinv(c1, e, cm(m)) && mark_post(s, e, m, c0, c1) }
/// a validation error is the result exactly when it has to be, and is that one
pub open spec fn kept<X>(r: Result<X, ProductionError>, s: Result<X, ProductionError>) -> bool {
    (r matches Err(ProductionError::Validation(_, _)) || s matches Err(ProductionError::Validation(_, _))) ==> r == s
}
pub open spec fn nmax(a: nat, b: nat) -> nat { if a < b { b } else { a } }
/// facts about what a production can do at a position
pub open spec fn laws_hold<T: TokenImpl, N>(s: PRes<N>, e: Env<T>, m: Md, i: int, pure: bool, null: bool, first: Set<T>) -> bool {
    &&& 0 <= s.reach <= e.code.len()
    &&& match s.out {
        Ok((j, ts)) => {
            &&& i <= j && at_ok(e, m, j)
            &&& nm(e, m, st(e, m, j)) <= imax(nm(e, m, st(e, m, i)), nm(e, m, s.reach))
            &&& pure ==> fits(ts, e, m, i, j)
            &&& m != Md::L && pure && (j > i || !null) ==> first.contains(tok_at(e, m, i))
        },
        Err(ProductionError::Validation(p, _)) => p <= e.code.len(),
        Err(_) => true,
    }
}
/// does not match without moving forward
pub open spec fn moves<N>(s: PRes<N>, i: int) -> bool { match s.out { Ok((j, _)) => i < j, Err(_) => true } }
@open pub trait IProduction {
    type Node: NodeImpl;
    type Token: TokenImpl;
    /// result of the production at position i
    spec fn sem(&self, e: Env<Self::Token>, m: Md, i: int) -> PRes<Self::Node>;
    /// usable in mode m (symbols assigned, cells hold what they should)
    spec fn wf(&self, m: Md) -> bool;
    /// does not switch between structural and raw tokens
    spec fn pure(&self) -> bool;
    /// usable with tokens
    spec fn tokd(&self) -> bool;
    spec fn null_s(&self) -> bool;
    /// has to move forward unless nullable: no look-ahead or end-of-file field at its front
    spec fn cons(&self) -> bool;
    spec fn nullh_s(&self) -> bool;
    spec fn first_s(&self) -> Set<Self::Token>;
    /// nothing below is left recursive or without symbols
    spec fn nwf(&self) -> bool;
    /// built by its constructor; nonterminals have unique names
    spec fn bwf(&self) -> bool;
    /// wrappers above the nonterminals and terminals it is made of
    spec fn depth(&self) -> nat;
    /// every chain of calls moves on: it runs no nonterminal again at its own start, and from raw tokens goes back to structural ones
    /// only through productions that do not switch again
    spec fn fwd(&self, m: Md) -> bool;
    /// nonterminals it can run where it starts
    spec fn stays(&self) -> Set<&'static str>;
    /// nonterminals it can begin with
    spec fn heads(&self) -> Set<&'static str>;
    /// nonterminals it uses
    spec fn parts(&self) -> Set<&'static str>;
    proof fn nlaw(&self)
        requires self.bwf(), all_sound(self.parts()),
        ensures self.nwf();
    proof fn laws(&self, e: Env<Self::Token>, m: Md, i: int)
        requires self.wf(m), env_ok(e, m), at_ok(e, m, i),
        ensures laws_hold(self.sem(e, m, i), e, m, i, self.pure(), self.null_s(), self.first_s()), self.nwf(), m != Md::L ==> self.tokd(),
            self.cons() && !self.null_s() ==> moves(self.sem(e, m, i), i);
    fn is_nullable(&self, vf_b: Ghost<Meas>) -> (r: bool)
        requires self.nwf(), mlt(m1(self.parts(), self.depth()), vf_b@),
        ensures r == self.null_s();
    fn is_nullable_n_hidden(&self, vf_b: Ghost<Meas>) -> (r: bool)
        requires self.nwf(), mlt(m2(self.heads(), self.depth()), vf_b@),
        ensures r == self.nullh_s();
    fn obtain_nullability<'id>(&'id self, visited: VfMap<&'id str, usize>, vf_w: &mut World, vf_l: Ghost<Meas>) -> (r: Result<bool, ImplementationError>)
        requires self.bwf(), all_lg(self.heads()), mlt(om(visited.map().dom(), self.depth()), vf_l@),
        ensures
            final(vf_w).on() == old(vf_w).on(), // [C16.flags]
            r is Ok ==> same_done(visited.map().dom(), old(vf_w).done(), final(vf_w).done()), // [C16.fresh]
            r is Ok ==> r->Ok_0 == self.null_s(), // [C17.null]
            r is Err ==> hits(self.heads(), visited.map().dom()); // [C16.cycle]
    fn validate<'id>(&'id self, connected_sets: VfMap<&'id str, usize>, visited_prod: &mut VfSet<&'id str>, vf_w: &mut World, vf_l: Ghost<Meas>) -> (r: Result<(), ImplementationError>)
        requires self.bwf(), vpre(old(visited_prod).set(), old(vf_w).on()), mlt(vm(connected_sets.map().dom(), old(vf_w).on(), self.depth()), vf_l@),
        ensures final(vf_w).on() == old(vf_w).on(), // [C16.flags]
            vpost(r is Ok, self.heads(), self.parts(), connected_sets.map().dom(), old(visited_prod).set(), final(visited_prod).set(), final(vf_w).on()); // [C16.walk]
    fn impl_first_set(&self, first_set: &mut VfSet<Self::Token>, vf_b: Ghost<Meas>)
        requires self.nwf(), self.tokd(), mlt(m3(self.heads(), self.depth()), vf_b@),
        ensures final(first_set).set() == old(first_set).set().union(self.first_s());
    fn advance_fltr_ptr(&self, code: &Code, index: FltrPtr, token_stream: &TokenStream<Self::Token>, cache: &mut Cache<FltrPtr, Self::Node>, vf_b: Ghost<Meas>) -> (r: ParsedResult<FltrPtr, Self::Node>)
        requires self.wf(Md::F), ppre(env(code, token_stream), Md::F, index.at(), *old(cache)),
            can(self.fwd(Md::F), am(self.pure(), true, lim(env(code, token_stream), Md::F) - index.at(), self.stays(), self.depth()), vf_b@),
        ensures
            kept(rv(r), self.sem(env(code, token_stream), Md::F, index.at()).out), // [C09.fatal]
            rv(r) == self.sem(env(code, token_stream), Md::F, index.at()).out,
            mark_post(self.sem(env(code, token_stream), Md::F, index.at()), env(code, token_stream), Md::F, *old(cache), *final(cache)), // [C10.mark]
            cinv(*final(cache), env(code, token_stream), cm(Md::F)); // [C12.memory]
    fn advance_token_ptr(&self, code: &Code, index: TokenPtr, token_stream: &TokenStream<Self::Token>, cache: &mut Cache<FltrPtr, Self::Node>, vf_b: Ghost<Meas>) -> (r: ParsedResult<TokenPtr, Self::Node>)
        requires self.wf(Md::R), ppre(env(code, token_stream), Md::R, index.at(), *old(cache)),
            can(self.fwd(Md::R), am(self.pure(), false, lim(env(code, token_stream), Md::R) - index.at(), self.stays(), self.depth()), vf_b@),
        ensures
            kept(rv(r), self.sem(env(code, token_stream), Md::R, index.at()).out), // [C09.fatal]
            rv(r) == self.sem(env(code, token_stream), Md::R, index.at()).out,
            mark_post(self.sem(env(code, token_stream), Md::R, index.at()), env(code, token_stream), Md::R, *old(cache), *final(cache)), // [C10.mark]
            cinv(*final(cache), env(code, token_stream), cm(Md::R)); // [C12.memory]
    fn advance_ptr(&self, code: &Code, index: usize, cache: &mut Cache<usize, Self::Node>, vf_b: Ghost<Meas>) -> (r: ParsedResult<usize, Self::Node>)
        requires self.wf(Md::L), ppre(lenv::<Self::Token>(code), Md::L, index.at(), *old(cache)),
            can(self.fwd(Md::L), am(self.pure(), false, lim(lenv::<Self::Token>(code), Md::L) - index.at(), self.stays(), self.depth()), vf_b@),
        ensures
            kept(rv(r), self.sem(lenv(code), Md::L, index.at()).out), // [C09.fatal]
            rv(r) == self.sem(lenv(code), Md::L, index.at()).out,
            mark_post(self.sem(lenv(code), Md::L, index.at()), lenv::<Self::Token>(code), Md::L, *old(cache), *final(cache)), // [C10.mark]
            cinv(*final(cache), lenv::<Self::Token>(code), cm(Md::L)); // [C12.memory]
@close

/// bound of the calls that a run of q at i makes
pub open spec fn ma<T>(fw: bool, pure: bool, e: Env<T>, m: Md, i: int, stays: Set<&'static str>, d: nat) -> Meas { own(fw, am(pure, m == Md::F, lim(e, m) - i, stays, d)) }
## ---------------------------------------------------------------- dyn IProduction
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(T)]
pub struct DynProd<N, T> { n: core::marker::PhantomData<(N, T)> }
pub uninterp spec fn dyn_sem<N, T>(d: DynProd<N, T>, e: Env<T>, m: Md, i: int) -> PRes<N>;
pub uninterp spec fn dyn_wf<N, T>(d: DynProd<N, T>, m: Md) -> bool;
pub uninterp spec fn dyn_pure<N, T>(d: DynProd<N, T>) -> bool;
pub uninterp spec fn dyn_tokd<N, T>(d: DynProd<N, T>) -> bool;
pub uninterp spec fn dyn_cons<N, T>(d: DynProd<N, T>) -> bool;
pub uninterp spec fn dyn_null<N, T>(d: DynProd<N, T>) -> bool;
pub uninterp spec fn dyn_nullh<N, T>(d: DynProd<N, T>) -> bool;
pub uninterp spec fn dyn_bwf<N, T>(d: DynProd<N, T>) -> bool;
pub uninterp spec fn dyn_depth<N, T>(d: DynProd<N, T>) -> nat;
pub uninterp spec fn dyn_fwd<N, T>(d: DynProd<N, T>, m: Md) -> bool;
pub uninterp spec fn dyn_stays<N, T>(d: DynProd<N, T>) -> Set<&'static str>;
pub uninterp spec fn dyn_heads<N, T>(d: DynProd<N, T>) -> Set<&'static str>;
pub uninterp spec fn dyn_parts<N, T>(d: DynProd<N, T>) -> Set<&'static str>;
pub uninterp spec fn dyn_first<N, T>(d: DynProd<N, T>) -> Set<T>;
impl<N: NodeImpl, T: TokenImpl> IProduction for DynProd<N, T> {
    type Node = N;
    type Token = T;
    open spec fn sem(&self, e: Env<T>, m: Md, i: int) -> PRes<N> { dyn_sem(*self, e, m, i) }
    open spec fn wf(&self, m: Md) -> bool { dyn_wf(*self, m) }
    open spec fn pure(&self) -> bool { dyn_pure(*self) }
    open spec fn tokd(&self) -> bool { dyn_tokd(*self) }
    open spec fn null_s(&self) -> bool { dyn_null(*self) }
    open spec fn cons(&self) -> bool { dyn_cons(*self) }
    open spec fn nullh_s(&self) -> bool { dyn_nullh(*self) }
    open spec fn first_s(&self) -> Set<T> { dyn_first(*self) }
    open spec fn nwf(&self) -> bool { self.bwf() && all_sound(self.parts()) }
    open spec fn bwf(&self) -> bool { dyn_bwf(*self) }
    open spec fn depth(&self) -> nat { dyn_depth(*self) }
    open spec fn fwd(&self, m: Md) -> bool { dyn_fwd(*self, m) }
    open spec fn stays(&self) -> Set<&'static str> { dyn_stays(*self) }
    open spec fn heads(&self) -> Set<&'static str> { dyn_heads(*self) }
    open spec fn parts(&self) -> Set<&'static str> { dyn_parts(*self) }
    proof fn nlaw(&self) {}
    #[verifier::external_body]
    proof fn laws(&self, e: Env<T>, m: Md, i: int) {}
    #[verifier::external_body]
    fn is_nullable(&self, vf_b: Ghost<Meas>) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_nullable_n_hidden(&self, vf_b: Ghost<Meas>) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn obtain_nullability<'id>(&'id self, visited: VfMap<&'id str, usize>, vf_w: &mut World, vf_l: Ghost<Meas>) -> (r: Result<bool, ImplementationError>) { unimplemented!() }
    #[verifier::external_body]
    fn validate<'id>(&'id self, connected_sets: VfMap<&'id str, usize>, visited_prod: &mut VfSet<&'id str>, vf_w: &mut World, vf_l: Ghost<Meas>) -> (r: Result<(), ImplementationError>) { unimplemented!() }
    #[verifier::external_body]
    fn impl_first_set(&self, first_set: &mut VfSet<T>, vf_b: Ghost<Meas>) { unimplemented!() }
    #[verifier::external_body]
    fn advance_fltr_ptr(&self, code: &Code, index: FltrPtr, token_stream: &TokenStream<T>, cache: &mut Cache<FltrPtr, N>, vf_b: Ghost<Meas>) -> (r: ParsedResult<FltrPtr, N>) { unimplemented!() }
    #[verifier::external_body]
    fn advance_token_ptr(&self, code: &Code, index: TokenPtr, token_stream: &TokenStream<T>, cache: &mut Cache<FltrPtr, N>, vf_b: Ghost<Meas>) -> (r: ParsedResult<TokenPtr, N>) { unimplemented!() }
    #[verifier::external_body]
    fn advance_ptr(&self, code: &Code, index: usize, cache: &mut Cache<usize, N>, vf_b: Ghost<Meas>) -> (r: ParsedResult<usize, N>) { unimplemented!() }
}

## ---------------------------------------------------------------- building blocks of semantics
pub open spec fn opt_leaf<N>(n: Option<N>, start: int, end: int, b: Option<(int, int)>) -> Seq<Tree<N>> {
    match n { Some(v) => seq![leaf(v, start, end, b)], None => Seq::empty() }
}
pub open spec fn unparsed<N>(reach: int) -> PRes<N> { PRes { out: Err(ProductionError::Unparsed), reach } }
pub open spec fn okres<N>(j: int, ts: Seq<Tree<N>>, reach: int) -> PRes<N> { PRes { out: Ok((j, ts)), reach } }
pub open spec fn node_tree<T, N>(n: N, ts: Seq<Tree<N>>, e: Env<T>, m: Md, i: int, j: int) -> Tree<N> {
    Tree { node: n, start: st(e, m, i), end: st(e, m, j), bound: bnd(e, m, i, j), kids: ts }
}
pub proof fn lemma_fits_node<T, N>(n: N, ts: Seq<Tree<N>>, e: Env<T>, m: Md, i: int, j: int)
    requires fits(ts, e, m, i, j), st(e, m, i) <= st(e, m, j), bd(e, m, i) <= bd(e, m, j),
    ensures fits(seq![node_tree(n, ts, e, m, i, j)], e, m, i, j),
{}
pub proof fn lemma_fits_leaf<T, N>(n: Option<N>, a: int, b: int, x: int, y: int, e: Env<T>, m: Md, i: int, j: int)
    requires st(e, m, i) <= a <= b <= st(e, m, j), m != Md::L ==> bd(e, m, i) <= x <= y <= bd(e, m, j),
    ensures fits(opt_leaf(n, a, b, if m == Md::L { None } else { Some((x, y)) }), e, m, i, j),
{}

## ---------------------------------------------------------------- sets of keyed values
/// the pair registered for a token, if any
pub open spec fn set_find<T, V>(s: Seq<(T, V)>, t: T) -> Option<V> {
    if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t { Some(s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t].1) } else { None }
}
pub open spec fn uniq_keys<T, V>(s: Seq<(T, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn key_set<T, V>(s: Seq<(T, V)>) -> Set<T> { s.map_values(|p: (T, V)| p.0).to_set() }
pub broadcast proof fn lemma_key_set<T, V>(s: Seq<(T, V)>, t: T)
    ensures #[trigger] key_set(s).contains(t) <==> set_find(s, t) is Some,
{
    let q = s.map_values(|p: (T, V)| p.0);
    if set_find(s, t) is Some { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == t; assert(q[k] == t); }
    if q.contains(t) { let k = choose|k: int| 0 <= k < q.len() && q[k] == t; assert(s[k].0 == t); }
}
pub proof fn lemma_set_find<T, V>(s: Seq<(T, V)>, i: int)
    requires uniq_keys(s), 0 <= i < s.len(),
    ensures set_find(s, s[i].0) == Some(s[i].1),
{ let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == s[i].0; assert(k == i); }
pub proof fn lemma_strict<T: VfOrd, V>(s: Seq<(T, V)>)
    requires ord_ok::<T>(), uniq_keys(s), wsorted_by(s, |p: &(T, V)| p.0),
    ensures sorted_by(s, |p: &(T, V)| p.0),
{}
pub proof fn lemma_uniq<T: VfOrd, V>(s: Seq<(T, V)>)
    requires ord_ok::<T>(), sorted_by(s, |p: &(T, V)| p.0),
    ensures uniq_keys(s),
{
    let kf = |p: &(T, V)| p.0;
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(T::lt(kf(&s[i]), kf(&s[j]))); }
}
pub proof fn lemma_perm_find<T, V>(a: Seq<(T, V)>, b: Seq<(T, V)>)
    requires permuted(a, b), uniq_keys(a), forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]),
    ensures uniq_keys(b), forall|t: T| #[trigger] set_find(b, t) == set_find(a, t),
{
    let p = choose|p: Seq<int>| #![trigger p.len()] p.len() == a.len()
        && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by {
        assert(p[i] != p[j]);
        if p[i] < p[j] { assert(a[p[i]].0 != a[p[j]].0); } else { assert(a[p[j]].0 != a[p[i]].0); }
    }
    assert forall|t: T| #[trigger] set_find(b, t) == set_find(a, t) by {
        if set_find(a, t) is Some {
            let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == t;
            assert(b.contains(a[k]));
            let q = choose|q: int| 0 <= q < b.len() && b[q] == a[k];
            assert(b[q].0 == t);
            lemma_set_find(b, q); lemma_set_find(a, k);
        } else if set_find(b, t) is Some {
            let q = choose|q: int| 0 <= q < b.len() && (#[trigger] b[q]).0 == t;
            assert(a[p[q]].0 == t);
        }
    }
}
