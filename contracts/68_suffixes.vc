@module suffixes_
@modprops C07 C17
broadcast use {group_trees, lemma_nm_mono, lemma_at_word};
@type TSuffixMap
@struct Suffixes rr
pub type Sufs<N, T> = Seq<(Rc<DynProd<N, T>>, N)>;
/// the productions of the suffixes
pub open spec fn sy<N: NodeImpl, T: TokenImpl>(ss: Sufs<N, T>) -> Syms<N, T> { ss.map_values(|p: (Rc<DynProd<N, T>>, N)| p.0) }
/// the node built around the left part and a suffix
pub open spec fn joined<N: NodeImpl, T: TokenImpl>(ss: Sufs<N, T>, e: Env<T>, m: Md, i: int, k: int, lts: Seq<Tree<N>>, l: int, ts: Seq<Tree<N>>, reach: int) -> PRes<N> {
    okres(l, seq![node_tree(ss[k].1, lts + ts, e, m, i, l)], reach)
}
/// suffixes js[k..] in order, after a left part read from i to j
pub open spec fn suf_try<N: NodeImpl, T: TokenImpl>(ss: Sufs<N, T>, e: Env<T>, m: Md, js: Seq<usize>, k: int, i: int, j: int, lts: Seq<Tree<N>>, reach: int) -> PRes<N> decreases js.len() - k {
    if k < 0 || k >= js.len() { unparsed(reach) } else {
        let r = sy(ss)[js[k] as int].sem(e, m, j);
        let reach1 = imax(reach, r.reach);
        match r.out {
            Ok((l, ts)) => joined(ss, e, m, i, js[k] as int, lts, l, ts, reach1),
            Err(ProductionError::Validation(x, s)) => PRes { out: Err(ProductionError::Validation(x, s)), reach: reach1 },
            Err(_) => suf_try(ss, e, m, js, k + 1, i, j, lts, reach1),
        }
    }
}
/// what follows a left part read from i to j
pub open spec fn suf_more<N: NodeImpl, T: TokenImpl>(ss: Sufs<N, T>, standalone: bool, e: Env<T>, m: Md, i: int, j: int, lts: Seq<Tree<N>>, reach: int) -> PRes<N> {
    let bare = |reach: int| if standalone { okres(j, lts, reach) } else { unparsed::<N>(reach) };
    let tried = |js: Seq<usize>| { let r = suf_try(ss, e, m, js, 0, i, j, lts, reach); if r.out == Err::<(int, Seq<Tree<N>>), ProductionError>(ProductionError::Unparsed) { bare(r.reach) } else { r } };
    if m == Md::L { tried(all_alts(ss.len() as int)) } else {
        match pick(sy(ss), e, m, j) {
            Some(t) => tried(alts(sy(ss), t, ncons(sy(ss), 0))),
            None => match null_at(sy(ss), 0) {
                Some(k) => joined(ss, e, m, i, k, lts, j, if sy(ss)[k].nullh_s() { Seq::empty() } else { seq![leaf(N::null_s(), st(e, m, j), st(e, m, j), bnd(e, m, j, j))] }, reach),
                None => bare(reach),
            },
        }
    }
}
pub open spec fn suf_sem<Q: IProduction>(left: Q, ss: Sufs<Q::Node, Q::Token>, standalone: bool, e: Env<Q::Token>, m: Md, i: int) -> PRes<Q::Node> {
    let r = left.sem(e, m, i);
    match r.out {
        Ok((j, lts)) => suf_more(ss, standalone, e, m, i, j, lts, r.reach),
        Err(x) => PRes { out: Err(x), reach: r.reach },
    }
}
pub open spec fn suf_first<Q: IProduction>(left: Q, ss: Sufs<Q::Node, Q::Token>) -> Set<Q::Token> {
    if left.null_s() { left.first_s().union(union_first(sy(ss), 0)) } else { left.first_s() }
}
pub proof fn lemma_joined<N: NodeImpl, T: TokenImpl>(ss: Sufs<N, T>, e: Env<T>, m: Md, i: int, j: int, k: int, lts: Seq<Tree<N>>, l: int, ts: Seq<Tree<N>>, reach: int, r: int, p0: bool, p1: bool)
    requires env_ok(e, m), step_ok(e, m, i, j, lts, reach, p0), step_ok(e, m, j, l, ts, r, p1),
    ensures step_ok(e, m, i, l, seq![node_tree(ss[k].1, lts + ts, e, m, i, l)], imax(reach, r), p0 && p1),
{
    lemma_st_inc(e, m, i, l);
    if p0 && p1 { lemma_fits_add(lts, ts, e, m, i, j, l); lemma_fits_node(ss[k].1, lts + ts, e, m, i, l); }
    lemma_nm_max(e, m, reach, r);
}
pub proof fn lemma_suf_try<N: NodeImpl, T: TokenImpl>(ss: Sufs<N, T>, e: Env<T>, m: Md, js: Seq<usize>, k: int, i: int, j: int, lts: Seq<Tree<N>>, reach: int, p0: bool)
    requires
        all_wf(sy(ss), m), env_ok(e, m), 0 <= k <= js.len(), step_ok(e, m, i, j, lts, reach, p0),
        forall|x: int| 0 <= x < js.len() ==> (#[trigger] js[x]) < ss.len(),
    ensures ({
        let r = suf_try(ss, e, m, js, k, i, j, lts, reach);
        &&& reach <= r.reach <= e.code.len()
        &&& step_ok(e, m, i, j, lts, r.reach, p0)
        &&& match r.out {
            Ok((l, ts)) => j <= l && step_ok(e, m, i, l, ts, r.reach, p0 && all_pure(sy(ss))) && (m != Md::L && all_pure(sy(ss)) && (l > j || !any_null(sy(ss))) ==> union_first(sy(ss), 0).contains(tok_at(e, m, j)))
                && (all_cons(sy(ss)) && !any_null(sy(ss)) ==> j < l),
            Err(ProductionError::Validation(p, _)) => p <= e.code.len(),
            Err(x) => x is Unparsed,
        }
    }),
    decreases js.len() - k
{
    let ps = sy(ss);
    if k < js.len() {
        let q = js[k] as int;
        ps[q].laws(e, m, j);
        let r = ps[q].sem(e, m, j);
        lemma_step(e, m, i, j, lts, reach, p0, j, Seq::<Tree<N>>::empty(), r.reach, true);
        assert(lts + Seq::<Tree<N>>::empty() =~= lts);
        match r.out {
            Ok((l, ts)) => {
                lemma_joined(ss, e, m, i, j, q, lts, l, ts, reach, r.reach, p0, ps[q].pure());
                lemma_null_at(ps, 0);
                if m != Md::L && all_pure(ps) && (l > j || !any_null(ps)) { lemma_union_first(ps, 0, q, tok_at(e, m, j)); }
            },
            Err(_) => { lemma_suf_try(ss, e, m, js, k + 1, i, j, lts, imax(reach, r.reach), p0); },
        }
    }
}
pub proof fn lemma_suf_more<N: NodeImpl, T: TokenImpl>(ss: Sufs<N, T>, standalone: bool, e: Env<T>, m: Md, i: int, j: int, lts: Seq<Tree<N>>, reach: int, p0: bool)
    requires all_wf(sy(ss), m), env_ok(e, m), step_ok(e, m, i, j, lts, reach, p0), ss.len() <= usize::MAX,
    ensures ({
        let r = suf_more(ss, standalone, e, m, i, j, lts, reach);
        &&& reach <= r.reach <= e.code.len()
        &&& match r.out {
            Ok((l, ts)) => j <= l && step_ok(e, m, i, l, ts, r.reach, p0 && all_pure(sy(ss))) && (m != Md::L && all_pure(sy(ss)) && (l > j || !any_null(sy(ss)) && !standalone) ==> union_first(sy(ss), 0).contains(tok_at(e, m, j)))
                && (all_cons(sy(ss)) && !any_null(sy(ss)) && !standalone ==> j < l),
            Err(ProductionError::Validation(p, _)) => p <= e.code.len(),
            Err(_) => true,
        }
    }),
{
    let ps = sy(ss);
    lemma_null_at(ps, 0);
    lemma_st_inc(e, m, i, j);
    if m == Md::L { lemma_suf_try(ss, e, m, all_alts(ss.len() as int), 0, i, j, lts, reach, p0); } else {
        match pick(ps, e, m, j) {
            Some(t) => { lemma_alts(ps, t, ncons(ps, 0)); lemma_suf_try(ss, e, m, alts(ps, t, ncons(ps, 0)), 0, i, j, lts, reach, p0); },
            None => match null_at(ps, 0) {
                Some(k) => {
                    let ts = if ps[k].nullh_s() { Seq::<Tree<N>>::empty() } else { seq![leaf(N::null_s(), st(e, m, j), st(e, m, j), bnd(e, m, j, j))] };
                    lemma_joined(ss, e, m, i, j, k, lts, j, ts, reach, reach, p0, true);
                },
                None => {},
            },
        }
    }
}
pub open spec fn idx_ok<N: NodeImpl, T: TokenImpl>(v: Option<usize>, ps: Syms<N, T>) -> bool { match v { Some(k) => null_at(ps, 0) == Some(k as int), None => null_at(ps, 0) is None } }
/// nonterminals a production with suffixes can begin with
pub open spec fn suf_heads<Q: IProduction>(left: Q, ps: Syms<Q::Node, Q::Token>) -> Set<&'static str> { if left.null_s() { left.heads().union(seq_heads(ps, 0)) } else { left.heads() } }
/// nonterminals it can run where it starts
pub open spec fn suf_stays<Q: IProduction>(left: Q, ps: Syms<Q::Node, Q::Token>) -> Set<&'static str> { if left.null_s() || !left.cons() { left.stays().union(seq_stays(ps, 0)) } else { left.stays() } }
@open impl<TP: IProduction> Suffixes<TP> {
/// as its constructors leave it
pub open spec fn cells(&self) -> bool {
    let id = self.nt_helper.identifier;
    &&& nt_cells(self.nt_helper) && self.suffixes.strict() && !self.suffix_first_set.strict() && !self.null_suffix_index.strict()
    &&& forall|v: Vec<(Rc<DynProd<TP::Node, TP::Token>>, TP::Node)>| #[trigger] self.suffixes.ok(v) <==> all_bwf(sy(v@))
    &&& forall|v: Option<usize>| #[trigger] self.null_suffix_index.ok(v) <==> idx_ok(v, nt_syms::<TP::Node, TP::Token>(id))
    &&& forall|v: (bool, Vec<(TP::Token, Vec<usize>)>)| #[trigger] self.suffix_first_set.ok(v) <==> tab_ok(v, nt_syms::<TP::Node, TP::Token>(id))
}
/// no other nonterminal has its name
pub open spec fn named(&self) -> bool {
    let id = self.nt_helper.identifier;
    let ps = sy(self.suffixes.fin()@);
    &&& nts().contains(id)
    &&& nt_set(id) == self.suffixes.filled() && nt_null(id) == (self.left.null_s() && (self.standalone || any_null(ps))) && nt_nullh(id) == (self.standalone && !any_null(ps) && self.left.nullh_s())
    &&& nt_heads(id) == suf_heads(*self.left, ps) && nt_parts(id) == self.left.parts().union(seq_parts(ps, 0)) && nt_stay(id) == suf_stays(*self.left, ps) && nt_syms::<TP::Node, TP::Token>(id) == ps
}
@fn Suffixes::init
@props C07 C16
@rewrite suffixes : VfCell :: new ( ) ==>> suffixes: VfCell::vf_user(Ghost(|v: Vec<(Rc<DynProd<TP::Node, TP::Token>>, TP::Node)>| all_bwf(sy(v@))))
@rewrite suffix_first_set : VfCell :: new ( ) ==>> suffix_first_set: VfCell::vf_new(Ghost(|v: (bool, Vec<(TP::Token, Vec<usize>)>)| tab_ok(v, nt_syms::<TP::Node, TP::Token>(identifier))))
@rewrite null_suffix_index : VfCell :: new ( ) ==>> null_suffix_index: VfCell::vf_new(Ghost(|v: Option<usize>| idx_ok(v, nt_syms::<TP::Node, TP::Token>(identifier))))
@ensures
    r.cells() && r.nt_helper.identifier == identifier && r.left == *left && r.standalone == standalone,
@fn Suffixes::new
@props C07 C16
@rewrite production_cell = VfCell :: new ( ) ==>> production_cell = VfCell::vf_user(Ghost(|v: Vec<(Rc<DynProd<TP::Node, TP::Token>>, TP::Node)>| all_bwf(sy(v@))))
@rewrite suffix_first_set : VfCell :: new ( ) ==>> suffix_first_set: VfCell::vf_new(Ghost(|v: (bool, Vec<(TP::Token, Vec<usize>)>)| tab_ok(v, nt_syms::<TP::Node, TP::Token>(identifier))))
@rewrite null_suffix_index : VfCell :: new ( ) ==>> null_suffix_index: VfCell::vf_new(Ghost(|v: Option<usize>| idx_ok(v, nt_syms::<TP::Node, TP::Token>(identifier))))
@opt panic.0=true
@requires
    all_bwf(sy(suffixes@)),
@ensures
    [C07.built] r.cells() && r.nt_helper.identifier == identifier && r.left == *left && r.standalone == standalone && r.suffixes.filled() && r.suffixes.fin() == suffixes,
@fn Suffixes::set_suffixes
@props C07 C16
@requires
    self.cells(), all_bwf(sy(suffixes@)),
@ensures
    [C07.assigned] r is Ok ==> self.suffixes.filled() && self.suffixes.fin() == suffixes,
@fn Suffixes::get_suffixes
@requires
    self.suffixes.filled(),
@ensures
    *r == self.suffixes.fin(),
@fn Suffixes::obtain_first_null_suffix
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = vf_b
@requires
    self.nwf(), vf_b@.0 > 1,
@ensures
    [C17.null_suffix] match *r { Some(k) => null_at(sy(self.suffixes.fin()@), 0) == Some(k as int), None => null_at(sy(self.suffixes.fin()@), 0) is None },
@closure 0
|| -> (cr: Option<usize>)
    requires self.nwf(), vf_b@.0 > 1
    ensures match cr { Some(k) => null_at(sy(self.suffixes.fin()@), 0) == Some(k as int), None => null_at(sy(self.suffixes.fin()@), 0) is None }
@loop 0
    invariant vf_b@.0 > 1, vf_s0@ == self.suffixes.fin()@, vf_i0 <= vf_s0@.len(), all_nwf(sy(self.suffixes.fin()@)),
        match vf_r0 { Some(k) => null_at(sy(self.suffixes.fin()@), 0) == Some(k as int), None => null_at(sy(self.suffixes.fin()@), 0) == null_at(sy(self.suffixes.fin()@), vf_i0 as int) },
    decreases vf_s0@.len() - vf_i0 + (if vf_r0 is None { 1int } else { 0 })
@proof looptop 0
    assert(sy(vf_s0@)[vf_i0 as int] == vf_s0@[vf_i0 as int].0);
@fn Suffixes::obtain_suffixes_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = vf_b
@ghostcall impl_first_set: = vf_b
@opt loopkind.1=into_iter
@opt loopkind.3=into_iter
@opt bs.0=(TP::Token, Vec<usize>)
@opt bsk.0=TP::Token
@requires
    self.nwf(), self.tokd(), vf_b@.0 > 3,
@ensures
    tab_ok(*r, sy(self.suffixes.fin()@)),
@closure 0
|| -> (cr: (bool, Vec<(TP::Token, Vec<usize>)>))
    requires self.nwf(), self.tokd(), vf_b@.0 > 3
    ensures tab_ok(cr, sy(self.suffixes.fin()@))
@proof looptop 0
    assert(sy(self.suffixes.fin()@)[vf_i0 as int] == vf_s0@[vf_i0 as int].0);
@loop 0
    invariant_except_break
        vf_b@.0 > 3, vf_s0@ == self.suffixes.fin()@, vf_i0 <= vf_s0@.len(), vf_s0@.len() <= isize::MAX, all_nwf(sy(self.suffixes.fin()@)), all_tokd(sy(self.suffixes.fin()@)),
        forall|k: int| 0 <= k < vf_i0 ==> !(#[trigger] sy(self.suffixes.fin()@)[k]).null_s(),
        map_ok(children_set.map(), sy(self.suffixes.fin()@), vf_i0 as int), ncons(sy(self.suffixes.fin()@), 0) == ncons(sy(self.suffixes.fin()@), vf_i0 as int),
    ensures map_ok(children_set.map(), sy(self.suffixes.fin()@), ncons(sy(self.suffixes.fin()@), 0)),
    decreases vf_s0@.len() - vf_i0
@proof loopbefore 1
    assert(sy(self.suffixes.fin()@)[index as int] == vf_s0@[index as int].0);
    child_set.vf_items();
    assert forall|t: TP::Token| #[trigger] sy(self.suffixes.fin()@)[index as int].first_s().contains(t) <==> child_set.items().contains(t) by { assert(child_set.set().contains(t) <==> sy(self.suffixes.fin()@)[index as int].first_s().contains(t)); }
    lemma_mid_start(children_set.map(), sy(self.suffixes.fin()@), index as int, child_set.items());
    lemma_null_skip(sy(self.suffixes.fin()@), 0, index as int);
@loop 1
    invariant
        vf_s0@ == self.suffixes.fin()@, index < vf_s0@.len(), vf_s1@ == child_set.items(), vf_i1 <= vf_s1@.len(), vf_s1@.no_duplicates(),
        forall|k: int| 0 <= k < index ==> !(#[trigger] sy(self.suffixes.fin()@)[k]).null_s(),
        map_mid(children_set.map(), sy(self.suffixes.fin()@), index as int, child_set.items(), vf_i1 as int, Seq::empty(), 0),
    decreases vf_s1@.len() - vf_i1
@proof looptop 1
    let ghost vf_m = children_set.map();
@proof loopend 1
    lemma_mid_add(vf_m, children_set.map(), sy(self.suffixes.fin()@), index as int, child_set.items(), vf_i1 - 1, children_set.map()[t]);
@proof loopafter 1
    if !sy(self.suffixes.fin()@)[index as int].null_s() { lemma_mid_end(children_set.map(), sy(self.suffixes.fin()@), index as int, child_set.items(), Seq::empty(), 0); lemma_null_skip(sy(self.suffixes.fin()@), 0, index + 1); }
@loop 2
    invariant
        vf_s0@ == self.suffixes.fin()@, index < vf_s0@.len(), vf_s0@.len() <= isize::MAX, vf_s2@ == vf_k2@, vf_i2 <= vf_s2@.len(), vf_k2@.no_duplicates(),
        forall|k: int| 0 <= k < index ==> !(#[trigger] sy(self.suffixes.fin()@)[k]).null_s(),
        forall|t: TP::Token| #[trigger] children_set.map().contains_key(t) <==> vf_k2@.contains(t),
        forall|t: TP::Token| #[trigger] sy(self.suffixes.fin()@)[index as int].first_s().contains(t) <==> child_set.items().contains(t),
        map_mid(children_set.map(), sy(self.suffixes.fin()@), index as int, child_set.items(), child_set.items().len() as int, vf_k2@, vf_i2 as int),
    decreases vf_s2@.len() - vf_i2
@proof looptop 2
    let ghost vf_m = children_set.map();
    assert(vf_k2@.contains(vf_k2@[vf_i2 as int]));
    lemma_last(vf_m, sy(self.suffixes.fin()@), index as int, child_set.items(), vf_k2@, vf_i2 as int);
@proof loopend 2
    lemma_mid_ext(vf_m, children_set.map(), sy(self.suffixes.fin()@), index as int, child_set.items(), vf_k2@, vf_i2 - 1, children_set.map()[vf_k2@[vf_i2 - 1]]);
@proof loopafter 2
    lemma_mid_end(children_set.map(), sy(self.suffixes.fin()@), index as int, child_set.items(), vf_k2@, vf_k2@.len() as int);
@loop 3
    invariant vf_s3@ == children_set.items(), vf_i3 <= vf_s3@.len(), vf_r3@ =~= children_set.items().subrange(0, vf_i3 as int),
    decreases vf_s3@.len() - vf_i3
@proof afterlet v#2
    let ghost vf_v = v@;
    assert(vf_v =~= children_set.items());
@proof loopbefore 4
    lemma_tab_sort(&children_set, vf_v, v@, sy(self.suffixes.fin()@), ncons(sy(self.suffixes.fin()@), 0));
@loop 4
    invariant vf_s4@ == v@, vf_i4 <= vf_s4@.len(), vf_r4 == (forall|k: int| 0 <= k < vf_i4 ==> (#[trigger] vf_s4@[k]).0.structural_s()),
    decreases vf_s4@.len() - vf_i4
@proof loopafter 4
    if !vf_r4 { }
    assert(vf_r4 == forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k]).0.structural_s());
    assert(ord_ok::<TP::Token>() ==> sorted_by(v@, |p: &(TP::Token, Vec<usize>)| p.0));
    assert(forall|k: int| 0 <= k < v@.len() ==> listed(sy(self.suffixes.fin()@), (#[trigger] v@[k]).0, ncons(sy(self.suffixes.fin()@), 0)) && v@[k].1@ == alts(sy(self.suffixes.fin()@), v@[k].0, ncons(sy(self.suffixes.fin()@), 0)));
    assert(forall|t: TP::Token| #[trigger] listed(sy(self.suffixes.fin()@), t, ncons(sy(self.suffixes.fin()@), 0)) ==> exists|k: int| 0 <= k < v@.len() && (#[trigger] v@[k]).0 == t);
    let w = (vf_r4, v);
    assert(w.1@ == v@);
    assert(tab_ok(w, sy(self.suffixes.fin()@)));
@close
@open impl<TP: IProduction> IProduction for Suffixes<TP> {
    type Node = TP::Node;
    type Token = TP::Token;
    open spec fn sem(&self, e: Env<TP::Token>, m: Md, i: int) -> PRes<TP::Node> { suf_sem(*self.left, self.suffixes.fin()@, self.standalone, e, m, i) }
    open spec fn wf(&self, m: Md) -> bool { self.nwf() && self.left.wf(m) && all_wf(sy(self.suffixes.fin()@), m) && (m != Md::L ==> self.tokd()) }
    open spec fn pure(&self) -> bool { self.left.pure() && all_pure(sy(self.suffixes.fin()@)) }
    open spec fn tokd(&self) -> bool { self.left.tokd() && all_tokd(sy(self.suffixes.fin()@)) }
    open spec fn null_s(&self) -> bool { self.left.null_s() && (self.standalone || any_null(sy(self.suffixes.fin()@))) }
    open spec fn cons(&self) -> bool { if self.left.null_s() { all_cons(sy(self.suffixes.fin()@)) } else { self.left.cons() } }
    open spec fn nullh_s(&self) -> bool { self.standalone && !any_null(sy(self.suffixes.fin()@)) && self.left.nullh_s() }
    open spec fn first_s(&self) -> Set<TP::Token> { suf_first(*self.left, self.suffixes.fin()@) }
    open spec fn nwf(&self) -> bool { self.bwf() && sound(self.nt_helper.identifier) && self.left.nwf() && self.suffixes.filled() && all_nwf(sy(self.suffixes.fin()@)) }
    open spec fn bwf(&self) -> bool { self.cells() && self.named() && self.left.bwf() }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { !stay_rec(self.nt_helper.identifier) && self.left.fwd(m) && all_fwd(sy(self.suffixes.fin()@), m) }
    open spec fn stays(&self) -> Set<&'static str> { set![self.nt_helper.identifier] }
    open spec fn heads(&self) -> Set<&'static str> { set![self.nt_helper.identifier] }
    open spec fn parts(&self) -> Set<&'static str> { set![self.nt_helper.identifier] }
    proof fn nlaw(&self) {
        let id = self.nt_helper.identifier;
        assert(self.parts().contains(id));
        lemma_sound_parts(id);
        lemma_lg_heads(id);
        self.suffixes.vf_holds();
        lemma_all_nwf(sy(self.suffixes.fin()@));
        self.left.nlaw();
    }
    proof fn laws(&self, e: Env<TP::Token>, m: Md, i: int) {
        self.left.laws(e, m, i);
        lemma_vec_len(&self.suffixes.fin());
        lemma_null_at(sy(self.suffixes.fin()@), 0);
        let r = self.left.sem(e, m, i);
        match r.out { Ok((j, lts)) => { lemma_suf_more(self.suffixes.fin()@, self.standalone, e, m, i, j, lts, r.reach, self.left.pure()); lemma_st_inc(e, m, i, j); }, Err(_) => {} }
    }
@fn IProduction@Suffixes::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17 ~C16
@ghostcall obtain_nullability: = &mut vf_now(), Ghost(m1(self.parts(), self.depth()))
@proof start
    lemma_sound_parts(self.nt_helper.identifier);
    assert(self.parts().contains(self.nt_helper.identifier));
@fn IProduction@Suffixes::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@ghostcall obtain_first_null_suffix: = Ghost(m2(self.heads(), self.depth()))
@closure 0
|| -> (cr: bool)
    requires self.nwf()
    ensures cr == self.nullh_s()
@proof closurestart 0
    lemma_kid_down(self.nt_helper.identifier, self.left.heads());
@fn IProduction@Suffixes::obtain_nullability
@attr verifier::loop_isolation(false)
@attr verifier::allow_complex_invariants
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@rewrite nullability . get ( ) ==>> nullability.get_w(vf_w)
@rewrite nullability . set ( ==>> nullability.set_w(vf_w, 
@proof start
    let ghost id = self.nt_helper.identifier;
    let ghost v0 = visited.map().dom();
    let ghost vf_me = om(v0, self.depth());
    let ghost vf_d0 = vf_w.done();
    if !v0.contains(id) { lemma_left(v0, id); }
    let ghost ps = sy(self.suffixes.fin()@);
    assert(self.heads().contains(id));
    lemma_lg_heads(id);
    lemma_lreach_refl(id);
    self.suffixes.vf_holds();
    assert(v0.contains(id) ==> hits(set![id], v0));
    assert(!v0.contains(id) ==> v0.insert(id).remove(id) =~= v0);
    lemma_kid(id, self.left.heads(), self.left.parts(), v0.insert(id));
    assert(self.left.heads().subset_of(nt_heads(id)));
@loop 0
    invariant_except_break vf_s0@ == self.suffixes.fin()@, vf_i0 <= vf_s0@.len(), all_bwf(ps), ps == sy(self.suffixes.fin()@), !is_nullable, null_at(ps, 0) == null_at(ps, vf_i0 as int),
        id == self.nt_helper.identifier, self.left.null_s(), nt_parts(id) == self.left.parts().union(seq_parts(ps, 0)), seq_heads(ps, vf_i0 as int).subset_of(nt_heads(id)), all_lg(nt_heads(id)), !left_rec(id),
        visited.map().dom() == v0.insert(id), v0.insert(id).remove(id) =~= v0, !v0.contains(id), left_of(v0.insert(id)) < left_of(v0), vf_w.on() == old(vf_w).on(), !vf_w.done().contains(id), same_done(v0, vf_d0, vf_w.done()),
    ensures is_nullable == any_null(sy(self.suffixes.fin()@)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    assert(sy(vf_s0@)[vf_i0 as int] == vf_s0@[vf_i0 as int].0);
    let ghost q = ps[vf_i0 as int];
    lemma_seq_parts(ps, 0, vf_i0 as int);
    lemma_kid(id, q.heads(), q.parts(), visited.map().dom());
    assert(q.heads().subset_of(seq_heads(ps, vf_i0 as int)));
    assert(q.heads().subset_of(nt_heads(id)));
    assert(all_lg(q.heads()));
@fn IProduction@Suffixes::validate
@attr verifier::loop_isolation(false)
@props C16
@ghost vf_w: &mut World
@ghostcall validate_symbols: = vf_w
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vm(vf_c0, vf_p0, self.depth()))
@ghostcall obtain_nullability: = vf_w, Ghost(vm(vf_c0, vf_p0, self.depth()))
@proof start
    let ghost vf_c0 = connected_set.map().dom();
    let ghost vf_p0 = vf_w.on();
@closure 0
|connected_set: VfMap<&'id str, usize>, visited_prod: &mut VfSet<&'id str>, vf_w: &mut World| -> (cr: Result<(), ImplementationError>)
    requires self.bwf(), vpre(old(visited_prod).set(), old(vf_w).on()), connected_set.map().dom().contains(self.nt_helper.identifier), deeper(connected_set.map().dom(), old(vf_w).on(), vf_c0, vf_p0), deeper(Set::empty(), old(vf_w).on(), vf_c0, vf_p0)
    ensures final(vf_w).on() == old(vf_w).on(), bpost(cr is Ok, self.nt_helper.identifier, connected_set.map().dom(), old(visited_prod).set(), final(visited_prod).set(), old(vf_w).on())
@proof closurestart 0
    let ghost id = self.nt_helper.identifier;
    let ghost c = connected_set.map().dom();
    let ghost p = vf_w.on();
    let ghost v0 = visited_prod.set();
    let ghost ps = sy(self.suffixes.fin()@);
    self.suffixes.vf_holds();
    if !nt_set(id) { lemma_defect_self(id); }
    lemma_kid(id, self.left.heads(), self.left.parts(), c);
    assert(self.left.heads().subset_of(nt_heads(id)));
    assert(c != Set::<&'static str>::empty());
    assert forall|v: Set<&'static str>| #[trigger] vinv(v) && self.left.heads().subset_of(v) implies all_lg(self.left.heads()) by { lemma_vinv_lg(v, self.left.heads()); }
@loop 0
    invariant vf_s0@ == self.suffixes.fin()@, vf_i0 <= vf_s0@.len(), all_bwf(ps), ps == sy(self.suffixes.fin()@), id == self.nt_helper.identifier, nt_set(id), is_nullable == self.left.null_s(),
        c == connected_set.map().dom(), c.contains(id), vf_w.on() == p, deeper(c, p, vf_c0, vf_p0), deeper(Set::empty(), p, vf_c0, vf_p0), v0.subset_of(visited_prod.set()), vpre(visited_prod.set(), p), self.left.heads().subset_of(visited_prod.set()),
        forall|y: &'static str| #[trigger] self.left.parts().contains(y) ==> visited_prod.set().contains(y) || p.contains(y),
        is_nullable ==> seq_heads(ps, vf_i0 as int).subset_of(nt_heads(id)),
        forall|y: &'static str| is_nullable && #[trigger] seq_heads(ps, 0).contains(y) ==> visited_prod.set().contains(y) || seq_heads(ps, vf_i0 as int).contains(y),
        forall|y: &'static str| #[trigger] seq_parts(ps, 0).contains(y) ==> visited_prod.set().contains(y) || p.contains(y) || seq_parts(ps, vf_i0 as int).contains(y),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    assert(sy(vf_s0@)[vf_i0 as int] == vf_s0@[vf_i0 as int].0);
    let ghost q = ps[vf_i0 as int];
    lemma_seq_parts(ps, 0, vf_i0 as int);
    lemma_kid(id, q.heads(), q.parts(), c);
    assert(q.heads().subset_of(seq_heads(ps, vf_i0 as int)));
    assert(is_nullable ==> q.heads().subset_of(nt_heads(id)));
    assert(c != Set::<&'static str>::empty());
@fn IProduction@Suffixes::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@proof start
    lemma_kid_down(self.nt_helper.identifier, self.left.heads());
@proof loopbefore 0
    let ghost vf_f0 = first_set.set();
@loop 0
    invariant self.nwf(), self.left.null_s(), vf_s0@ == self.suffixes.fin()@, vf_i0 <= vf_s0@.len(), all_nwf(sy(self.suffixes.fin()@)), all_tokd(sy(self.suffixes.fin()@)), vf_f0 == old(first_set).set().union(self.left.first_s()),
        vf_f0.union(union_first(sy(self.suffixes.fin()@), 0)) =~= first_set.set().union(union_first(sy(self.suffixes.fin()@), vf_i0 as int)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    assert(sy(vf_s0@)[vf_i0 as int] == vf_s0@[vf_i0 as int].0);
    lemma_seq_heads(sy(vf_s0@), 0, vf_i0 as int);
    lemma_kid_down(self.nt_helper.identifier, vf_s0@[vf_i0 as int].0.heads());
@proof end
    assert(first_set.set().union(Set::<TP::Token>::empty()) =~= first_set.set());
    assert(first_set.set() =~= old(first_set).set().union(self.first_s()));
@fn IProduction@Suffixes::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall obtain_suffixes_set: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall obtain_first_null_suffix: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall is_nullable: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@props C07 ~C09 ~C10 ~C15
@opt bs.0=(TP::Token, Vec<usize>)
@opt bs.1=(TP::Token, Vec<usize>)
@proof start
    let ghost vf_e = env(code, token_stream);
    self.left.laws(vf_e, Md::F, fltr_ptr.at());
    if self.fwd(Md::F) { lemma_srank_down(self.nt_helper.identifier, self.left.stays()); }
    lemma_null_at(sy(self.suffixes.fin()@), 0);
    lemma_vec_len(&self.suffixes.fin());
@proof afterlet left_success_data
    let ghost vf_l = left_success_data;
    let ghost vf_lr = self.left.sem(vf_e, Md::F, fltr_ptr.at()).reach;
    let ghost vf_c = *cache;
    let ghost vf_n = leaf(<TP::Node as NodeImpl>::null_s(), st(vf_e, Md::F, vf_l.consumed_index.at()), st(vf_e, Md::F, vf_l.consumed_index.at()), bnd(vf_e, Md::F, vf_l.consumed_index.at(), vf_l.consumed_index.at()));
    assert(trees(vf_l.children@) + Seq::<Tree<TP::Node>>::empty() =~= trees(vf_l.children@));
    assert(trees(vf_l.children@) + seq![vf_n] =~= trees(vf_l.children@).push(vf_n));
    let ghost vf_t = pick(sy(self.suffixes.fin()@), vf_e, Md::F, vf_l.consumed_index.at());
    match vf_t { Some(t) => { lemma_alts(sy(self.suffixes.fin()@), t, ncons(sy(self.suffixes.fin()@), 0)); }, None => {} }
    assert forall|k: int| 0 <= k < self.suffixes.fin()@.len() implies (#[trigger] sy(self.suffixes.fin()@)[k]) == self.suffixes.fin()@[k].0 by {}
    lemma_after_prev(vf_e, vf_l.consumed_index.at());
@proof loopbefore 0
    let ghost mut vf_reach = vf_lr;
@loop 0
    invariant
        vf_s0@ == alts(sy(self.suffixes.fin()@), vf_t->Some_0, ncons(sy(self.suffixes.fin()@), 0)), vf_i0 <= vf_s0@.len(), self.nwf(), vf_l.consumed_index.at() > fltr_ptr.at() || self.left.null_s() || !self.left.cons(), all_wf(sy(self.suffixes.fin()@), Md::F), vf_e == env(code, token_stream),
        vf_t is Some, vf_t == pick(sy(self.suffixes.fin()@), vf_e, Md::F, vf_l.consumed_index.at()), forall|x: int| 0 <= x < vf_s0@.len() ==> (#[trigger] vf_s0@[x]) < sy(self.suffixes.fin()@).len(), suffixes@ == self.suffixes.fin()@, moved_ptr == vf_l.consumed_index,
        left_success_data == vf_l, self.left.sem(vf_e, Md::F, fltr_ptr.at()) == okres(vf_l.consumed_index.at(), trees(vf_l.children@), vf_lr), step_ok(vf_e, Md::F, fltr_ptr.at(), vf_l.consumed_index.at(), trees(vf_l.children@), vf_lr, self.left.pure()),
        suf_try(self.suffixes.fin()@, vf_e, Md::F, alts(sy(self.suffixes.fin()@), vf_t->Some_0, ncons(sy(self.suffixes.fin()@), 0)), 0, fltr_ptr.at(), vf_l.consumed_index.at(), trees(vf_l.children@), vf_lr) == suf_try(self.suffixes.fin()@, vf_e, Md::F, alts(sy(self.suffixes.fin()@), vf_t->Some_0, ncons(sy(self.suffixes.fin()@), 0)), vf_i0 as int, fltr_ptr.at(), vf_l.consumed_index.at(), trees(vf_l.children@), vf_reach),
        ppre(vf_e, Md::F, vf_l.consumed_index.at(), *cache), 0 <= vf_reach <= vf_e.code.len(),
        old(cache).mx() <= cache.mx(), nm(vf_e, Md::F, cache.mx()) == imax(nm(vf_e, Md::F, old(cache).mx()), nm(vf_e, Md::F, vf_reach)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    let ghost vf_q = vf_s0@[vf_i0 as int] as int;
    assert(sy(self.suffixes.fin()@)[vf_q] == self.suffixes.fin()@[vf_q].0);
    sy(self.suffixes.fin()@)[vf_q].laws(vf_e, Md::F, vf_l.consumed_index.at());
    lemma_seq_stays(sy(self.suffixes.fin()@), 0, vf_q);
    if self.fwd(Md::F) && vf_l.consumed_index.at() == fltr_ptr.at() { lemma_srank_down(self.nt_helper.identifier, sy(self.suffixes.fin()@)[vf_q].stays()); }
    lemma_nm_max(vf_e, Md::F, vf_reach, sy(self.suffixes.fin()@)[vf_q].sem(vf_e, Md::F, vf_l.consumed_index.at()).reach);
    vf_reach = imax(vf_reach, sy(self.suffixes.fin()@)[vf_q].sem(vf_e, Md::F, vf_l.consumed_index.at()).reach);
@fn IProduction@Suffixes::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall obtain_suffixes_set: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall obtain_first_null_suffix: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@props C07 ~C09 ~C10 ~C15
@opt bs.0=(TP::Token, Vec<usize>)
@proof start
    let ghost vf_e = env(code, stream);
    self.left.laws(vf_e, Md::R, index.at());
    if self.fwd(Md::R) { lemma_srank_down(self.nt_helper.identifier, self.left.stays()); }
    lemma_null_at(sy(self.suffixes.fin()@), 0);
    lemma_vec_len(&self.suffixes.fin());
@proof afterlet left_success_data
    let ghost vf_l = left_success_data;
    let ghost vf_lr = self.left.sem(vf_e, Md::R, index.at()).reach;
    let ghost vf_c = *cache;
    let ghost vf_n = leaf(<TP::Node as NodeImpl>::null_s(), st(vf_e, Md::R, vf_l.consumed_index.at()), st(vf_e, Md::R, vf_l.consumed_index.at()), bnd(vf_e, Md::R, vf_l.consumed_index.at(), vf_l.consumed_index.at()));
    assert(trees(vf_l.children@) + Seq::<Tree<TP::Node>>::empty() =~= trees(vf_l.children@));
    assert(trees(vf_l.children@) + seq![vf_n] =~= trees(vf_l.children@).push(vf_n));
    let ghost vf_t = pick(sy(self.suffixes.fin()@), vf_e, Md::R, vf_l.consumed_index.at());
    match vf_t { Some(t) => { lemma_alts(sy(self.suffixes.fin()@), t, ncons(sy(self.suffixes.fin()@), 0)); }, None => {} }
    assert forall|k: int| 0 <= k < self.suffixes.fin()@.len() implies (#[trigger] sy(self.suffixes.fin()@)[k]) == self.suffixes.fin()@[k].0 by {}
@proof loopbefore 0
    let ghost mut vf_reach = vf_lr;
@loop 0
    invariant
        vf_s0@ == alts(sy(self.suffixes.fin()@), vf_t->Some_0, ncons(sy(self.suffixes.fin()@), 0)), vf_i0 <= vf_s0@.len(), self.nwf(), vf_l.consumed_index.at() > index.at() || self.left.null_s() || !self.left.cons(), all_wf(sy(self.suffixes.fin()@), Md::R), vf_e == env(code, stream),
        vf_t is Some, vf_t == pick(sy(self.suffixes.fin()@), vf_e, Md::R, vf_l.consumed_index.at()), forall|x: int| 0 <= x < vf_s0@.len() ==> (#[trigger] vf_s0@[x]) < sy(self.suffixes.fin()@).len(), suffixes@ == self.suffixes.fin()@, moved_ptr == vf_l.consumed_index,
        left_success_data == vf_l, self.left.sem(vf_e, Md::R, index.at()) == okres(vf_l.consumed_index.at(), trees(vf_l.children@), vf_lr), step_ok(vf_e, Md::R, index.at(), vf_l.consumed_index.at(), trees(vf_l.children@), vf_lr, self.left.pure()),
        suf_try(self.suffixes.fin()@, vf_e, Md::R, alts(sy(self.suffixes.fin()@), vf_t->Some_0, ncons(sy(self.suffixes.fin()@), 0)), 0, index.at(), vf_l.consumed_index.at(), trees(vf_l.children@), vf_lr) == suf_try(self.suffixes.fin()@, vf_e, Md::R, alts(sy(self.suffixes.fin()@), vf_t->Some_0, ncons(sy(self.suffixes.fin()@), 0)), vf_i0 as int, index.at(), vf_l.consumed_index.at(), trees(vf_l.children@), vf_reach),
        ppre(vf_e, Md::R, vf_l.consumed_index.at(), *cache), 0 <= vf_reach <= vf_e.code.len(),
        old(cache).mx() <= cache.mx(), nm(vf_e, Md::R, cache.mx()) == imax(nm(vf_e, Md::R, old(cache).mx()), nm(vf_e, Md::R, vf_reach)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    let ghost vf_q = vf_s0@[vf_i0 as int] as int;
    assert(sy(self.suffixes.fin()@)[vf_q] == self.suffixes.fin()@[vf_q].0);
    sy(self.suffixes.fin()@)[vf_q].laws(vf_e, Md::R, vf_l.consumed_index.at());
    lemma_seq_stays(sy(self.suffixes.fin()@), 0, vf_q);
    if self.fwd(Md::R) && vf_l.consumed_index.at() == index.at() { lemma_srank_down(self.nt_helper.identifier, sy(self.suffixes.fin()@)[vf_q].stays()); }
    lemma_nm_max(vf_e, Md::R, vf_reach, sy(self.suffixes.fin()@)[vf_q].sem(vf_e, Md::R, vf_l.consumed_index.at()).reach);
    vf_reach = imax(vf_reach, sy(self.suffixes.fin()@)[vf_q].sem(vf_e, Md::R, vf_l.consumed_index.at()).reach);
@fn IProduction@Suffixes::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall obtain_suffixes_set: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall obtain_first_null_suffix: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C07 ~C09 ~C10 ~C15
@proof start
    let ghost vf_e = lenv::<TP::Token>(code);
    self.left.laws(vf_e, Md::L, index.at());
    if self.fwd(Md::L) { lemma_srank_down(self.nt_helper.identifier, self.left.stays()); }
    lemma_null_at(sy(self.suffixes.fin()@), 0);
    lemma_vec_len(&self.suffixes.fin());
@proof afterlet left_parsed_result
    let ghost vf_l = left_parsed_result;
    let ghost vf_lr = self.left.sem(vf_e, Md::L, index.at()).reach;
    let ghost vf_c = *cache;
@proof loopbefore 0
    let ghost mut vf_reach = vf_lr;
@loop 0
    invariant
        vf_s0@ == self.suffixes.fin()@, vf_i0 <= vf_s0@.len(), self.nwf(), vf_l.consumed_index.at() > index.at() || self.left.null_s() || !self.left.cons(), all_wf(sy(self.suffixes.fin()@), Md::L), vf_e == lenv::<TP::Token>(code),
        vf_s0@.len() <= isize::MAX, moved_ptr == vf_l.consumed_index,
        left_parsed_result == vf_l, self.left.sem(vf_e, Md::L, index.at()) == okres(vf_l.consumed_index.at(), trees(vf_l.children@), vf_lr), step_ok(vf_e, Md::L, index.at(), vf_l.consumed_index.at(), trees(vf_l.children@), vf_lr, self.left.pure()),
        suf_try(self.suffixes.fin()@, vf_e, Md::L, all_alts(self.suffixes.fin()@.len() as int), 0, index.at(), vf_l.consumed_index.at(), trees(vf_l.children@), vf_lr) == suf_try(self.suffixes.fin()@, vf_e, Md::L, all_alts(self.suffixes.fin()@.len() as int), vf_i0 as int, index.at(), vf_l.consumed_index.at(), trees(vf_l.children@), vf_reach),
        ppre(vf_e, Md::L, vf_l.consumed_index.at(), *cache), 0 <= vf_reach <= vf_e.code.len(),
        old(cache).mx() <= cache.mx(), nm(vf_e, Md::L, cache.mx()) == imax(nm(vf_e, Md::L, old(cache).mx()), nm(vf_e, Md::L, vf_reach)),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    let ghost vf_q = vf_i0 as int;
    assert(sy(self.suffixes.fin()@)[vf_q] == self.suffixes.fin()@[vf_q].0);
    sy(self.suffixes.fin()@)[vf_q].laws(vf_e, Md::L, vf_l.consumed_index.at());
    lemma_seq_stays(sy(self.suffixes.fin()@), 0, vf_q);
    if self.fwd(Md::L) && vf_l.consumed_index.at() == index.at() { lemma_srank_down(self.nt_helper.identifier, sy(self.suffixes.fin()@)[vf_q].stays()); }
    lemma_nm_max(vf_e, Md::L, vf_reach, sy(self.suffixes.fin()@)[vf_q].sem(vf_e, Md::L, vf_l.consumed_index.at()).reach);
    vf_reach = imax(vf_reach, sy(self.suffixes.fin()@)[vf_q].sem(vf_e, Md::L, vf_l.consumed_index.at()).reach);
@close
