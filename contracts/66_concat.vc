@module concat
@modprops C17
broadcast use {group_trees, lemma_nm_mono, lemma_at_word};
@struct NTHelper
@struct Concat rr
## entries of the recursion report, read from the back
#[verifier::external_body]
pub struct VfBack<'a, 'b> { v: core::marker::PhantomData<&'a &'b str> }
impl<'a, 'b> VfBack<'a, 'b> {
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn vf_new(v: &'a Vec<&'a (&'b str, usize)>) -> (r: Self) ensures r.left() == v@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<&'a (&'b str, usize)>) ensures r is None <==> old(self).left() == 0, r is Some ==> final(self).left() == old(self).left() - 1 { unimplemented!() }
}
#[verifier::external_body]
pub fn vf_sort_pairs<'a, 'b>(v: &mut Vec<&'a (&'b str, usize)>) ensures final(v)@.len() == old(v)@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vf_same_str(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// created under the name of its nonterminal
pub open spec fn nt_cells(h: NTHelper) -> bool {
    &&& h.nullability.owner() == h.identifier
    &&& forall|v: bool| #[trigger] h.nullability.ok(v) <==> v == nt_null(h.identifier)
    &&& forall|v: bool| #[trigger] h.null_hidden.ok(v) <==> v == nt_nullh(h.identifier)
    &&& !h.nullability.strict() && !h.null_hidden.strict() && h.validating.owner() == h.identifier
}
/// the closure validates the symbols of nonterminal `id`
#[verifier::prophetic]
pub open spec fn runs_body<'id, F: FnOnce(VfMap<&'id str, usize>, &mut VfSet<&'id str>, &mut World) -> Result<(), ImplementationError>>(f: F, id: &'static str, c0: Set<&'static str>, p0: Set<&'static str>) -> bool {
    &&& forall|c: VfMap<&'id str, usize>, v: &mut VfSet<&'id str>, w: &mut World| vpre(v.set(), w.on()) && c.map().dom().contains(id) && deeper(c.map().dom(), w.on(), c0, p0) && deeper(Set::empty(), w.on(), c0, p0) ==> #[trigger] f.requires((c, v, w))
    &&& forall|c: VfMap<&'id str, usize>, v: &mut VfSet<&'id str>, w: &mut World, r: Result<(), ImplementationError>| #[trigger] f.ensures((c, v, w), r)
        ==> final(w).on() == w.on() && bpost(r is Ok, id, c.map().dom(), v.set(), final(v).set(), w.on())
}
## text of a left-recursion report: opaque, but it is produced without a panic and ends
@fn build_circular_format
@props C16
@rewrite vf_seq (& connected_set) ==>> vf_seq(connected_set)
@rewrite Vec < (& & str , & usize) > ==>> Vec<&(&str, usize)>
@rewrite first_set_trees . sort_by_key (| s | { s . 1 }) ==>> vf_sort_pairs(&mut first_set_trees)
@rewrite first_set_trees . iter () ==>> VfBack::vf_new(&first_set_trees)
@rewrite * prod_id == & id ==>> vf_same_str(*prod_id, id)
@loop 0
    invariant vf_s0@.len() <= usize::MAX, vf_i0 <= vf_s0@.len(),
    decreases vf_s0@.len() - vf_i0,
@loop 1
    decreases vec_iter.left(),
@open impl NTHelper {
@fn NTHelper::new
@props C17 ~C16
@rewrite nullability : VfCell :: new ( ) ==>> nullability: VfCell::vf_owned(Ghost(|v: bool| v == nt_null(identifier)), Ghost(identifier))
@rewrite null_hidden : VfCell :: new ( ) ==>> null_hidden: VfCell::vf_new(Ghost(|v: bool| v == nt_nullh(identifier)))
@rewrite validating : VfFlag :: new ( false ) ==>> validating: VfFlag::vf_new(false, Ghost(identifier))
@ensures
    nt_cells(r) && r.identifier == identifier,
@fn NTHelper::validate_circular_dependency
@props C17 ~C16
@ensures
    match r { Ok(_) => !old(visited_set).map().contains_key(self.identifier) && final(visited_set).map().dom() == old(visited_set).map().dom().insert(self.identifier), Err(_) => old(visited_set).map().contains_key(self.identifier) },
@fn NTHelper::has_visited
@props C16
@ghost vf_w: &World
@ghostcall get: = vf_w
@requires
    nt_cells(*self),
@ensures
    [C16.visit] match r {
        Err(_) => old(connected_set).map().contains_key(self.identifier),
        Ok(true) => !old(connected_set).map().contains_key(self.identifier) && (visited_prod.set().contains(self.identifier) || (old(connected_set).map().dom() == Set::<&'static str>::empty() && vf_w.on().contains(self.identifier))),
        Ok(false) => !old(connected_set).map().contains_key(self.identifier) && !visited_prod.set().contains(self.identifier) && !(old(connected_set).map().dom() == Set::<&'static str>::empty() && vf_w.on().contains(self.identifier))
            && final(connected_set).map().dom() == old(connected_set).map().dom().insert(self.identifier),
    },
@fn NTHelper::validate_symbols
@opt fnarg.F=&mut World
@props C16
@ghost vf_w: &mut World
@ghostcall has_visited: = vf_w
@ghostcall validate: = vf_w
@ghostcall replace: = vf_w
@ghostcall set: = vf_w
@proof start
    let ghost id = self.identifier;
    let ghost c0 = connected_set.map().dom();
    let ghost p0 = vf_w.on();
    lemma_lreach_refl(id);
    if !c0.contains(id) && !(c0 == Set::<&'static str>::empty() && p0.contains(id)) { lemma_deeper(c0, p0, id); }
    assert(set![id].contains(id));
    assert(c0.contains(id) ==> hits(set![id], c0));
    assert(!c0.contains(id) ==> c0.insert(id).remove(id) =~= c0);
    assert(forall|v: Set<&'static str>| #[trigger] vparts(v, p0) ==> vparts(v, p0.insert(id)));
    assert(p0.contains(id) ==> p0.insert(id) =~= p0);
    assert(!p0.contains(id) ==> p0.insert(id).remove(id) =~= p0);
    assert forall|v: Set<&'static str>| #[trigger] vinv(v) && vparts(v, p0.insert(id)) && nt_set(id) && nt_heads(id).subset_of(v) && (forall|y: &'static str| #[trigger] nt_parts(id).contains(y) ==> v.contains(y) || p0.insert(id).contains(y))
        implies vinv(v.insert(id)) && vparts(v.insert(id), p0) && v.subset_of(v.insert(id)) by { lemma_visit(v, p0, id); }
@requires
    nt_cells(*self), vpre(old(visited_prod).set(), old(vf_w).on()), nts().contains(self.identifier), runs_body(validate, self.identifier, connected_set.map().dom(), old(vf_w).on()),
@ensures
    final(vf_w).on() == old(vf_w).on(),
    [C16.walk] vpost(r is Ok, set![self.identifier], set![self.identifier], connected_set.map().dom(), old(visited_prod).set(), final(visited_prod).set(), final(vf_w).on()),
@close
## ---------------------------------------------------------------- sequences of symbols
pub type Syms<N, T> = Seq<Rc<DynProd<N, T>>>;
pub open spec fn all_wf<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, m: Md) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).wf(m) }
pub open spec fn all_nwf<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).nwf() }
pub open spec fn all_fwd<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, m: Md) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).fwd(m) }
/// one of symbols k, k + 1, .. has to move forward
pub open spec fn any_cons<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> bool { exists|q: int| k <= q < ps.len() && !(#[trigger] ps[q]).null_s() && ps[q].cons() }
/// nonterminals that symbols k, k + 1, .. can run where the first of them starts
pub open spec fn cat_stays<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> Set<&'static str> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { Set::empty() } else if ps[k].null_s() || !ps[k].cons() { ps[k].stays().union(cat_stays(ps, k + 1)) } else { ps[k].stays() }
}
pub open spec fn seq_stays<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> Set<&'static str> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { Set::empty() } else { ps[k].stays().union(seq_stays(ps, k + 1)) }
}
pub proof fn lemma_cat_stays<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, j: int, k: int)
    requires 0 <= j <= k < ps.len(), forall|q: int| j <= q < k ==> (#[trigger] ps[q]).null_s() || !ps[q].cons(),
    ensures ps[k].stays().subset_of(cat_stays(ps, j)),
    decreases k - j
{ if j < k { lemma_cat_stays(ps, j + 1, k); } }
pub proof fn lemma_seq_stays<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, j: int, k: int)
    requires 0 <= j <= k < ps.len(),
    ensures ps[k].stays().subset_of(seq_stays(ps, j)),
    decreases k - j
{ if j < k { lemma_seq_stays(ps, j + 1, k); } }
pub open spec fn all_cons<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).cons() }
pub open spec fn all_tokd<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).tokd() }
pub open spec fn all_pure<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).pure() }
pub open spec fn all_null<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).null_s() }
pub open spec fn all_nullh<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).nullh_s() }
/// tokens that can start symbols k, k + 1, ..: up to the first one that cannot be empty
pub open spec fn cat_first<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> Set<T> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { Set::empty() } else if ps[k].null_s() { ps[k].first_s().union(cat_first(ps, k + 1)) } else { ps[k].first_s() }
}
pub open spec fn all_bwf<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>) -> bool { forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).bwf() }
/// nonterminals used by symbols k, k + 1, ..
pub open spec fn seq_parts<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> Set<&'static str> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { Set::empty() } else { ps[k].parts().union(seq_parts(ps, k + 1)) }
}
/// nonterminals that symbols k, k + 1, .. can begin with: up to the first one that cannot be empty
pub open spec fn cat_heads<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> Set<&'static str> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { Set::empty() } else if ps[k].null_s() { ps[k].heads().union(cat_heads(ps, k + 1)) } else { ps[k].heads() }
}
/// nonterminals that one of the symbols k, k + 1, .. can begin with
pub open spec fn seq_heads<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, k: int) -> Set<&'static str> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { Set::empty() } else { ps[k].heads().union(seq_heads(ps, k + 1)) }
}
/// symbols of the nonterminal
pub uninterp spec fn nt_syms<N: NodeImpl, T: TokenImpl>(id: &str) -> Syms<N, T>;
pub proof fn lemma_seq_parts<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, j: int, k: int)
    requires 0 <= j <= k < ps.len(),
    ensures ps[k].parts().subset_of(seq_parts(ps, j)),
    decreases k - j
{ if j < k { lemma_seq_parts(ps, j + 1, k); } }
pub proof fn lemma_all_nwf<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>)
    requires all_bwf(ps), all_sound(seq_parts(ps, 0)),
    ensures all_nwf(ps),
{
    assert forall|k: int| 0 <= k < ps.len() implies (#[trigger] ps[k]).nwf() by { lemma_seq_parts(ps, 0, k); ps[k].nlaw(); }
}
/// symbols k, k + 1, .. one after the other
pub open spec fn cat_sem<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, k: int, j: int, acc: Seq<Tree<N>>, reach: int) -> PRes<N> decreases ps.len() - k {
    if k < 0 || k >= ps.len() { okres(j, acc, reach) } else {
        let r = ps[k].sem(e, m, j);
        match r.out {
            Ok((l, ts)) => cat_sem(ps, e, m, k + 1, l, acc + ts, imax(reach, r.reach)),
            Err(x) => PRes { out: Err(x), reach: imax(reach, r.reach) },
        }
    }
}
pub proof fn lemma_cat<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, i: int, k: int, j: int, acc: Seq<Tree<N>>, reach: int)
    requires
        all_wf(ps, m), env_ok(e, m), 0 <= k <= ps.len(), step_ok(e, m, i, j, acc, reach, all_pure(ps)),
    ensures ({ let r = cat_sem(ps, e, m, k, j, acc, reach);
        &&& reach <= r.reach <= e.code.len()
        &&& match r.out {
            Ok((l, ts)) => j <= l && step_ok(e, m, i, l, ts, r.reach, all_pure(ps)) && (m != Md::L && all_pure(ps) && j == i && (l > i || exists|q: int| k <= q < ps.len() && !(#[trigger] ps[q]).null_s()) ==> cat_first(ps, k).contains(tok_at(e, m, i)))
                && (any_cons(ps, k) ==> j < l),
            Err(ProductionError::Validation(x, _)) => x <= e.code.len(),
            Err(_) => true,
        }
    }),
    decreases ps.len() - k
{
    if k < ps.len() {
        ps[k].laws(e, m, j);
        let r = ps[k].sem(e, m, j);
        match r.out {
            Ok((l, ts)) => {
                lemma_step(e, m, i, j, acc, reach, all_pure(ps), l, ts, r.reach, ps[k].pure());
                lemma_cat(ps, e, m, i, k + 1, l, acc + ts, imax(reach, r.reach));
            },
            Err(_) => {},
        }
    }
}
/// position at which symbol k is tried
pub open spec fn cat_at<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, k: int, i: int) -> Option<int> decreases k {
    if k <= 0 { Some(i) } else {
        match cat_at(ps, e, m, k - 1, i) { Some(j) => match ps[k - 1].sem(e, m, j).out { Ok((l, _)) => Some(l), Err(_) => None }, None => None }
    }
}
pub proof fn lemma_cat_heads<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, j: int, k: int)
    requires 0 <= j <= k < ps.len(), forall|q: int| j <= q < k ==> (#[trigger] ps[q]).null_s(),
    ensures ps[k].heads().subset_of(cat_heads(ps, j)),
    decreases k - j
{ if j < k { lemma_cat_heads(ps, j + 1, k); } }
/// C16: a symbol tried where the sequence starts is one of those the sequence can begin with
pub proof fn lemma_cat_front<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, e: Env<T>, m: Md, k: int, i: int)
    requires all_wf(ps, m), all_cons(ps), env_ok(e, m), at_ok(e, m, i), 0 <= k < ps.len(), cat_at(ps, e, m, k, i) is Some,
    ensures ({ let j = cat_at(ps, e, m, k, i)->Some_0; at_ok(e, m, j) && i <= j && (j == i ==> ps[k].heads().subset_of(cat_heads(ps, 0)) && forall|q: int| 0 <= q < k ==> (#[trigger] ps[q]).null_s()) }),
    decreases k
{
    if k > 0 {
        lemma_cat_front(ps, e, m, k - 1, i);
        ps[k - 1].laws(e, m, cat_at(ps, e, m, k - 1, i)->Some_0);
    }
    if cat_at(ps, e, m, k, i) == Some(i) { lemma_cat_heads(ps, 0, k); }
}
pub proof fn lemma_seq_heads<N: NodeImpl, T: TokenImpl>(ps: Syms<N, T>, j: int, k: int)
    requires 0 <= j <= k < ps.len(),
    ensures ps[k].heads().subset_of(seq_heads(ps, j)),
    decreases k - j
{ if j < k { lemma_seq_heads(ps, j + 1, k); } }
/// C18: collecting from the symbols of nonterminal `id` that it can begin with is collecting less
pub proof fn lemma_kid_down(id: &'static str, heads: Set<&'static str>)
    requires sound(id), nts().contains(id), heads.subset_of(nt_heads(id)),
    ensures rank(heads) < rank(set![id]),
{ lemma_sound_parts(id); lemma_lg_heads(id); lemma_rank_down(id, heads); }
@open impl<TN: NodeImpl, TL: TokenImpl> Concat<TN, TL> {
/// as its constructors leave it
pub open spec fn cells(&self) -> bool { nt_cells(self.nt_helper) && self.symbols.strict() && forall|v: Vec<Rc<DynProd<TN, TL>>>| #[trigger] self.symbols.ok(v) <==> all_bwf(v@) }
/// no other nonterminal has its name
pub open spec fn named(&self) -> bool {
    let id = self.nt_helper.identifier;
    let ps = self.symbols.fin()@;
    &&& nts().contains(id)
    &&& nt_set(id) == self.symbols.filled() && nt_null(id) == all_null(ps) && nt_nullh(id) == (all_null(ps) && all_nullh(ps))
    &&& nt_heads(id) == cat_heads(ps, 0) && nt_parts(id) == seq_parts(ps, 0) && nt_stay(id) == cat_stays(ps, 0)
}
@fn Concat::init
@props C06 C16
@rewrite symbols : VfCell :: new ( ) ==>> symbols: VfCell::vf_user(Ghost(|v: Vec<Rc<DynProd<TN, TL>>>| all_bwf(v@)))
@ensures
    r.cells() && r.nt_helper.identifier == identifier,
@fn Concat::new
@props C06 C16
@rewrite production_cell = VfCell :: new ( ) ==>> production_cell = VfCell::vf_user(Ghost(|v: Vec<Rc<DynProd<TN, TL>>>| all_bwf(v@)))
@opt panic.0=true
@requires
    all_bwf(symbols@),
@ensures
    [C06.built] r.cells() && r.nt_helper.identifier == identifier && r.symbols.filled() && r.symbols.fin() == symbols,
@fn Concat::set_symbols
@props C06 C16
@requires
    self.cells(), all_bwf(symbols@),
@ensures
    [C06.assigned] r is Ok ==> self.symbols.filled() && self.symbols.fin() == symbols,
@fn Concat::get_productions
@requires
    self.symbols.filled(),
@ensures
    *r == self.symbols.fin(),
@fn Concat::consume
@props C06 ~C09 ~C10 ~C15
@where T: VfPtr, TCache: VfPtr
@ghost Ghost(em): Ghost<(Env<TL>, Md)>
@requires
    self.symbols.filled(), all_wf(self.symbols.fin()@, em.1), ppre(em.0, em.1, index.at(), *old(cache)),
    runs_syms::<TN, TL, T, TCache, P>(parse_production, em.0, em.1, index.at(), self.fwd(em.1), self.pure(), cat_stays(self.symbols.fin()@, 0)),
@ensures
    [C06.concat] rv(r) == self.sem(em.0, em.1, index.at()).out,
    [C10.concat] ppost(self.sem(em.0, em.1, index.at()), em.0, em.1, *old(cache), *final(cache)),
@proof loopbefore 0
    let ghost mut vf_reach = 0int;
@loop 0
    invariant
        self.sem(em.0, em.1, index.at()) == cat_sem(self.symbols.fin()@, em.0, em.1, vf_i0 as int, moved_ptr.at(), trees(parsed_children@), vf_reach),
        vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(),
        all_wf(self.symbols.fin()@, em.1), runs_syms::<TN, TL, T, TCache, P>(parse_production, em.0, em.1, index.at(), self.fwd(em.1), self.pure(), cat_stays(self.symbols.fin()@, 0)),
        moved_ptr.at() > index.at() || forall|q: int| 0 <= q < vf_i0 ==> (#[trigger] vf_s0@[q]).null_s() || !vf_s0@[q].cons(),
        ppre(em.0, em.1, moved_ptr.at(), *cache), step_ok(em.0, em.1, index.at(), moved_ptr.at(), trees(parsed_children@), vf_reach, all_pure(self.symbols.fin()@)),
        old(cache).mx() <= cache.mx(), nm(em.0, em.1, cache.mx()) == imax(nm(em.0, em.1, old(cache).mx()), nm(em.0, em.1, vf_reach)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    let ghost vf_r = vf_s0@[vf_i0 as int].sem(em.0, em.1, moved_ptr.at());
    if moved_ptr.at() == index.at() { lemma_cat_stays(vf_s0@, 0, vf_i0 as int); }
    vf_s0@[vf_i0 as int].laws(em.0, em.1, moved_ptr.at());
    lemma_nm_max(em.0, em.1, vf_reach, vf_r.reach);
    match vf_r.out { Ok((k, ts)) => { lemma_step(em.0, em.1, index.at(), moved_ptr.at(), trees(parsed_children@), vf_reach, all_pure(self.symbols.fin()@), k, ts, vf_r.reach, vf_s0@[vf_i0 as int].pure()); }, Err(_) => {} }
    vf_reach = imax(vf_reach, vf_r.reach);
@close
/// the closure runs whichever symbol it is given, from lo on: at lo one that runs only nonterminals of hs there
#[verifier::prophetic]
pub open spec fn runs_syms<N: NodeImpl, T: TokenImpl, I: VfPtr, C: VfPtr, F: Fn(&Rc<DynProd<N, T>>, I, &mut Cache<C, N>) -> ParsedResult<I, N>>(f: F, e: Env<T>, m: Md, lo: int, fw: bool, pure: bool, hs: Set<&'static str>) -> bool {
    &&& forall|p: &Rc<DynProd<N, T>>, x: I, c: &mut Cache<C, N>| p.wf(m) && ppre(e, m, x.at(), *c) && sym_at(p.fwd(m), p.pure(), p.stays(), x.at(), lo, fw, pure, hs) ==> #[trigger] f.requires((p, x, c))
    &&& forall|p: &Rc<DynProd<N, T>>, x: I, c: &mut Cache<C, N>, r: ParsedResult<I, N>| #[trigger] f.ensures((p, x, c), r) ==> rv(r) == p.sem(e, m, x.at()).out && ppost(p.sem(e, m, x.at()), e, m, *c, *final(c))
}
pub open spec fn sym_at(pf: bool, pp: bool, ps: Set<&'static str>, x: int, lo: int, fw: bool, pure: bool, hs: Set<&'static str>) -> bool { (fw ==> pf) && (pure ==> pp) && x >= lo && (x == lo ==> ps.subset_of(hs)) }
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for Concat<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> { cat_sem(self.symbols.fin()@, e, m, 0, i, Seq::empty(), 0) }
    open spec fn wf(&self, m: Md) -> bool { self.nwf() && all_wf(self.symbols.fin()@, m) && (m != Md::L ==> self.tokd()) }
    open spec fn pure(&self) -> bool { all_pure(self.symbols.fin()@) }
    open spec fn tokd(&self) -> bool { all_tokd(self.symbols.fin()@) }
    open spec fn null_s(&self) -> bool { all_null(self.symbols.fin()@) }
    open spec fn cons(&self) -> bool { any_cons(self.symbols.fin()@, 0) }
    open spec fn nullh_s(&self) -> bool { self.null_s() && all_nullh(self.symbols.fin()@) }
    open spec fn first_s(&self) -> Set<TL> { cat_first(self.symbols.fin()@, 0) }
    open spec fn nwf(&self) -> bool { self.bwf() && sound(self.nt_helper.identifier) && self.symbols.filled() && all_nwf(self.symbols.fin()@) }
    open spec fn bwf(&self) -> bool { self.cells() && self.named() }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { !stay_rec(self.nt_helper.identifier) && all_fwd(self.symbols.fin()@, m) }
    open spec fn stays(&self) -> Set<&'static str> { set![self.nt_helper.identifier] }
    open spec fn heads(&self) -> Set<&'static str> { set![self.nt_helper.identifier] }
    open spec fn parts(&self) -> Set<&'static str> { set![self.nt_helper.identifier] }
    proof fn nlaw(&self) {
        let id = self.nt_helper.identifier;
        assert(self.parts().contains(id));
        lemma_sound_parts(id);
        lemma_lg_heads(id);
        self.symbols.vf_holds();
        lemma_all_nwf(self.symbols.fin()@);
    }
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) {
        lemma_st_inc(e, m, i, i);
        let ps = self.symbols.fin()@;
        lemma_cat(ps, e, m, i, 0, i, Seq::empty(), 0);
    }
@fn IProduction@Concat::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17 ~C16
@ghostcall obtain_nullability: = &mut vf_now(), Ghost(m1(self.parts(), self.depth()))
@proof start
    lemma_sound_parts(self.nt_helper.identifier);
    assert(self.parts().contains(self.nt_helper.identifier));
@fn IProduction@Concat::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@closure 0
|| -> (cr: bool)
    requires self.nwf()
    ensures cr == self.nullh_s()
@loop 0
    invariant vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), all_nwf(vf_s0@), self.nwf(), self.null_s(), vf_r0 == (forall|k: int| 0 <= k < vf_i0 ==> (#[trigger] vf_s0@[k]).nullh_s()),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    lemma_cat_heads(vf_s0@, 0, vf_i0 as int);
    lemma_kid_down(self.nt_helper.identifier, vf_s0@[vf_i0 as int].heads());
@fn IProduction@Concat::obtain_nullability
@attr verifier::loop_isolation(false)
@attr verifier::allow_complex_invariants
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@rewrite nullability . get ( ) ==>> nullability.get_w(vf_w)
@rewrite nullability . set ( ==>> nullability.set_w(vf_w, 
@proof start
    let ghost id = self.nt_helper.identifier;
    let ghost v0 = visited.map().dom();
    let ghost vf_me = om(v0, self.depth());
    let ghost vf_d0 = vf_w.done();
    if !v0.contains(id) { lemma_left(v0, id); }
    assert(self.heads().contains(id));
    lemma_lg_heads(id);
    lemma_lreach_refl(id);
    self.symbols.vf_holds();
    assert(v0.contains(id) ==> hits(set![id], v0));
    assert(!v0.contains(id) ==> v0.insert(id).remove(id) =~= v0);
@loop 0
    invariant_except_break vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), all_bwf(vf_s0@), is_nullable, forall|k: int| 0 <= k < vf_i0 ==> (#[trigger] vf_s0@[k]).null_s(),
        id == self.nt_helper.identifier, nt_heads(id) == cat_heads(vf_s0@, 0), nt_parts(id) == seq_parts(vf_s0@, 0), cat_heads(vf_s0@, vf_i0 as int).subset_of(nt_heads(id)), all_lg(nt_heads(id)), !left_rec(id),
        visited.map().dom() == v0.insert(id), v0.insert(id).remove(id) =~= v0, !v0.contains(id), left_of(v0.insert(id)) < left_of(v0), vf_w.on() == old(vf_w).on(), !vf_w.done().contains(id), same_done(v0, vf_d0, vf_w.done()),
    ensures is_nullable == self.null_s(),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    lemma_seq_parts(vf_s0@, 0, vf_i0 as int);
    lemma_kid(id, vf_s0@[vf_i0 as int].heads(), vf_s0@[vf_i0 as int].parts(), visited.map().dom());
    assert(vf_s0@[vf_i0 as int].heads().subset_of(cat_heads(vf_s0@, vf_i0 as int)));
    assert(vf_s0@[vf_i0 as int].heads().subset_of(nt_heads(id)));
    assert(all_lg(vf_s0@[vf_i0 as int].heads()));
@fn IProduction@Concat::validate
@attr verifier::loop_isolation(false)
@props C16
@ghost vf_w: &mut World
@ghostcall validate_symbols: = vf_w
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vm(vf_c0, vf_p0, self.depth()))
@ghostcall obtain_nullability: = vf_w, Ghost(vm(vf_c0, vf_p0, self.depth()))
@proof start
    let ghost vf_c0 = connected_set.map().dom();
    let ghost vf_p0 = vf_w.on();
@closure 0
|connected_set: VfMap<&'id str, usize>, visited_prod: &mut VfSet<&'id str>, vf_w: &mut World| -> (cr: Result<(), ImplementationError>)
    requires self.bwf(), vpre(old(visited_prod).set(), old(vf_w).on()), connected_set.map().dom().contains(self.nt_helper.identifier), deeper(connected_set.map().dom(), old(vf_w).on(), vf_c0, vf_p0), deeper(Set::empty(), old(vf_w).on(), vf_c0, vf_p0)
    ensures final(vf_w).on() == old(vf_w).on(), bpost(cr is Ok, self.nt_helper.identifier, connected_set.map().dom(), old(visited_prod).set(), final(visited_prod).set(), old(vf_w).on())
@proof closurestart 0
    let ghost id = self.nt_helper.identifier;
    let ghost c = connected_set.map().dom();
    let ghost p = vf_w.on();
    let ghost v0 = visited_prod.set();
    self.symbols.vf_holds();
    if !nt_set(id) { lemma_defect_self(id); }
@loop 0
    invariant vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), all_bwf(vf_s0@), id == self.nt_helper.identifier, nt_set(id), nt_heads(id) == cat_heads(vf_s0@, 0), nt_parts(id) == seq_parts(vf_s0@, 0),
        c == connected_set.map().dom(), c.contains(id), vf_w.on() == p, deeper(c, p, vf_c0, vf_p0), deeper(Set::empty(), p, vf_c0, vf_p0), v0.subset_of(visited_prod.set()), vpre(visited_prod.set(), p),
        is_nullable ==> cat_heads(vf_s0@, vf_i0 as int).subset_of(nt_heads(id)),
        forall|y: &'static str| #[trigger] nt_heads(id).contains(y) ==> visited_prod.set().contains(y) || (is_nullable && cat_heads(vf_s0@, vf_i0 as int).contains(y)),
        forall|y: &'static str| #[trigger] nt_parts(id).contains(y) ==> visited_prod.set().contains(y) || p.contains(y) || seq_parts(vf_s0@, vf_i0 as int).contains(y),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    lemma_seq_parts(vf_s0@, 0, vf_i0 as int);
    let ghost q = vf_s0@[vf_i0 as int];
    lemma_kid(id, q.heads(), q.parts(), c);
    assert(q.heads().subset_of(cat_heads(vf_s0@, vf_i0 as int)));
    assert(is_nullable ==> q.heads().subset_of(nt_heads(id)));
    assert(c != Set::<&'static str>::empty());
    assert forall|v: Set<&'static str>| #[trigger] vinv(v) && q.heads().subset_of(v) implies all_lg(q.heads()) by { lemma_vinv_lg(v, q.heads()); }
@fn IProduction@Concat::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@loop 0
    invariant_except_break vf_s0@ == self.symbols.fin()@, vf_i0 <= vf_s0@.len(), all_nwf(vf_s0@), all_tokd(vf_s0@), self.nwf(), forall|k: int| 0 <= k < vf_i0 ==> (#[trigger] vf_s0@[k]).null_s(),
        old(first_set).set().union(self.first_s()) =~= first_set.set().union(cat_first(vf_s0@, vf_i0 as int)),
    ensures first_set.set() =~= old(first_set).set().union(self.first_s()),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    lemma_cat_heads(vf_s0@, 0, vf_i0 as int);
    lemma_kid_down(self.nt_helper.identifier, vf_s0@[vf_i0 as int].heads());
@fn IProduction@Concat::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, stream), Md::F, index.at(), self.stays(), self.depth()))
@props C06 ~C09 ~C10 ~C15
@ghostcall consume: (env(code, stream), Md::F)
@closure 0
|q: &Rc<DynProd<TN, TL>>, x: FltrPtr, c: &mut Cache<FltrPtr, TN>| -> (cr: ParsedResult<FltrPtr, TN>)
    requires q.wf(Md::F), ppre(env(code, stream), Md::F, x.at(), *old(c)), self.nwf(), sym_at(q.fwd(Md::F), q.pure(), q.stays(), x.at(), index.at(), self.fwd(Md::F), self.pure(), nt_stay(self.nt_helper.identifier))
    ensures rv(cr) == q.sem(env(code, stream), Md::F, x.at()).out, ppost(q.sem(env(code, stream), Md::F, x.at()), env(code, stream), Md::F, *old(c), *final(c))
@proof closurestart 0
    if moved_pointer.at() == index.at() && self.fwd(Md::F) { lemma_srank_down(self.nt_helper.identifier, prod.stays()); }
@fn IProduction@Concat::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@props C06 ~C09 ~C10 ~C15
@ghostcall consume: (env(code, stream), Md::R)
@closure 0
|q: &Rc<DynProd<TN, TL>>, x: TokenPtr, c: &mut Cache<FltrPtr, TN>| -> (cr: ParsedResult<TokenPtr, TN>)
    requires q.wf(Md::R), ppre(env(code, stream), Md::R, x.at(), *old(c)), self.nwf(), sym_at(q.fwd(Md::R), q.pure(), q.stays(), x.at(), index.at(), self.fwd(Md::R), self.pure(), nt_stay(self.nt_helper.identifier))
    ensures rv(cr) == q.sem(env(code, stream), Md::R, x.at()).out, ppost(q.sem(env(code, stream), Md::R, x.at()), env(code, stream), Md::R, *old(c), *final(c))
@proof closurestart 0
    if moved_pointer.at() == index.at() && self.fwd(Md::R) { lemma_srank_down(self.nt_helper.identifier, prod.stays()); }
@fn IProduction@Concat::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TL>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C06 ~C09 ~C10 ~C15
@ghostcall consume: (lenv::<TL>(code), Md::L)
@closure 0
|q: &Rc<DynProd<TN, TL>>, x: usize, c: &mut Cache<usize, TN>| -> (cr: ParsedResult<usize, TN>)
    requires q.wf(Md::L), ppre(lenv::<TL>(code), Md::L, x.at(), *old(c)), self.nwf(), sym_at(q.fwd(Md::L), q.pure(), q.stays(), x.at(), index.at(), self.fwd(Md::L), self.pure(), nt_stay(self.nt_helper.identifier))
    ensures rv(cr) == q.sem(lenv::<TL>(code), Md::L, x.at()).out, ppost(q.sem(lenv::<TL>(code), Md::L, x.at()), lenv::<TL>(code), Md::L, *old(c), *final(c))
@proof closurestart 0
    if moved_pointer.at() == index.at() && self.fwd(Md::L) { lemma_srank_down(self.nt_helper.identifier, prod.stays()); }
@close
