@module token_field
@modprops C05 ~C10 ~C15
broadcast use {group_trees, lemma_nm_mono, lemma_at_word, lemma_key_set};
@struct TokenField rr
@struct TokenFieldSet rr
/// result of a terminal that matches the current token when `hit` gives a node choice
pub open spec fn tok_sem<N, T: TokenImpl>(hit: Option<Option<N>>, e: Env<T>, m: Md, i: int) -> PRes<N> {
    let k = bd(e, m, i);
    match hit {
        Some(n) => okres(i + 1, opt_leaf(n, e.toks[k].start as int, e.toks[k].end as int, Some((k, k + 1))), e.toks[k].end as int),
        None => unparsed(0),
    }
}
pub proof fn lemma_tok_laws<N, T: TokenImpl>(hit: Option<Option<N>>, first: Set<T>, e: Env<T>, m: Md, i: int)
    requires m != Md::L, env_ok(e, m), at_ok(e, m, i), hit is Some ==> tok_at(e, m, i) != T::eof_s() && first.contains(tok_at(e, m, i)),
    ensures laws_hold(tok_sem(hit, e, m, i), e, m, i, true, false, first),
{
    lemma_tok_in(e, bd(e, m, i));
    if hit is Some {
        lemma_starts_inc(e);
        if m == Md::F && i + 1 >= e.fl.len() { assert(e.fl[i].0 == e.toks.len() - 1); }
        lemma_st_inc(e, m, i, i + 1);
        lemma_nm_next(e, m, i);
        if m == Md::F { assert(e.fl[i].0 < e.fl[i + 1].0); }
        lemma_fits_leaf(hit->Some_0, e.toks[bd(e, m, i)].start as int, e.toks[bd(e, m, i)].end as int, bd(e, m, i), bd(e, m, i) + 1, e, m, i, i + 1);
    }
}
@open impl<TN: NodeImpl, TL: TokenImpl> TokenField<TN, TL> {
@fn TokenField::new
@ensures
    r.token == token && r.node_value == node_value,
@close
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenField<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> {
        tok_sem(if tok_at(e, m, i) == self.token { Some(self.node_value) } else { None }, e, m, i)
    }
    open spec fn wf(&self, m: Md) -> bool { m != Md::L && self.token != TL::eof_s() }
    open spec fn pure(&self) -> bool { true }
    open spec fn tokd(&self) -> bool { true }
    open spec fn null_s(&self) -> bool { false }
    open spec fn cons(&self) -> bool { true }
    open spec fn nullh_s(&self) -> bool { false }
    open spec fn first_s(&self) -> Set<TL> { set![self.token] }
    open spec fn nwf(&self) -> bool { self.bwf() }
    open spec fn bwf(&self) -> bool { true }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { true }
    open spec fn stays(&self) -> Set<&'static str> { Set::empty() }
    open spec fn heads(&self) -> Set<&'static str> { Set::empty() }
    open spec fn parts(&self) -> Set<&'static str> { Set::empty() }
    proof fn nlaw(&self) {}
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) {
        lemma_tok_laws(if tok_at(e, m, i) == self.token { Some(self.node_value) } else { None }, self.first_s(), e, m, i);
    }
@fn IProduction@TokenField::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17
@fn IProduction@TokenField::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@TokenField::obtain_nullability
@ghostcall is_nullable: = Ghost(om(vf_p1.map().dom(), self.depth()))
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@TokenField::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@TokenField::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@proof end
    assert(final(first_set).set() =~= old(first_set).set().union(self.first_s()));
@fn IProduction@TokenField::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@proof start
    self.laws(env(_code, stream), Md::F, index.at());
@fn IProduction@TokenField::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@proof start
    self.laws(env(_code, stream), Md::R, index.at());
@fn IProduction@TokenField::advance_ptr
@ghost vf_b: Ghost<Meas>
@close
@open impl<TN: NodeImpl, TL: TokenImpl> TokenFieldSet<TN, TL> {
@fn TokenFieldSet::new
@opt bs.0=(TL, Option<TN>)
@opt bsk.0=TL
@requires
    ord_ok::<TL>(),
@ensures
    uniq_keys(token_set@) ==> sorted_by(r.token_set@, |p: &(TL, Option<TN>)| p.0),
    forall|t: TL| uniq_keys(token_set@) ==> #[trigger] set_find(r.token_set@, t) == set_find(token_set@, t),
@proof start
    let ghost ts0 = token_set@;
@proof end
    if uniq_keys(ts0) { lemma_perm_find(ts0, token_set@); lemma_strict(token_set@); }
@fn TokenFieldSet::with_value
@opt bs.0=(TL, Option<TN>)
@opt bsk.0=TL
@requires
    ord_ok::<TL>(),
@ensures
    token_set@.no_duplicates() ==> sorted_by(r.token_set@, |p: &(TL, Option<TN>)| p.0),
    forall|t: TL| token_set@.no_duplicates() ==> #[trigger] set_find(r.token_set@, t) == (if token_set@.contains(t) { Some(node_value) } else { None }),
@loop 0
    invariant
        vf_s0@ == token_set@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < vf_i0 ==> #[trigger] vf_r0@[k] == (token_set@[k], node_value),
    decreases vf_s0@.len() - vf_i0
@proof afterlet tokens
    let ghost ts0 = tokens@;
@proof end
    if token_set@.no_duplicates() {
        assert(uniq_keys(ts0));
        lemma_perm_find(ts0, tokens@); lemma_strict(tokens@);
        assert forall|t: TL| #[trigger] set_find(tokens@, t) == (if token_set@.contains(t) { Some(node_value) } else { None }) by {
            assert(set_find(ts0, t) == set_find(tokens@, t));
            if token_set@.contains(t) { let k = choose|k: int| 0 <= k < token_set@.len() && token_set@[k] == t; assert(ts0[k].0 == t); }
        }
    }
@close
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for TokenFieldSet<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> {
        tok_sem(set_find(self.token_set@, tok_at(e, m, i)), e, m, i)
    }
    open spec fn wf(&self, m: Md) -> bool { m != Md::L && sorted_by(self.token_set@, |p: &(TL, Option<TN>)| p.0) && set_find(self.token_set@, TL::eof_s()) is None }
    open spec fn pure(&self) -> bool { true }
    open spec fn tokd(&self) -> bool { true }
    open spec fn null_s(&self) -> bool { false }
    open spec fn cons(&self) -> bool { true }
    open spec fn nullh_s(&self) -> bool { false }
    open spec fn first_s(&self) -> Set<TL> { key_set(self.token_set@) }
    open spec fn nwf(&self) -> bool { self.bwf() }
    open spec fn bwf(&self) -> bool { true }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { true }
    open spec fn stays(&self) -> Set<&'static str> { Set::empty() }
    open spec fn heads(&self) -> Set<&'static str> { Set::empty() }
    open spec fn parts(&self) -> Set<&'static str> { Set::empty() }
    proof fn nlaw(&self) {}
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) {
        lemma_tok_laws(set_find(self.token_set@, tok_at(e, m, i)), self.first_s(), e, m, i);
    }
@fn IProduction@TokenFieldSet::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17
@fn IProduction@TokenFieldSet::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@TokenFieldSet::obtain_nullability
@ghostcall is_nullable: = Ghost(om(vf_p1.map().dom(), self.depth()))
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@TokenFieldSet::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@TokenFieldSet::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@loop 0
    invariant
        vf_s0@ == self.token_set@, 0 <= vf_i0 <= vf_s0@.len(), vf_s0@.len() <= isize::MAX,
        forall|t: TL| #[trigger] first_set.set().contains(t) <==> old(first_set).set().contains(t) || exists|k: int| 0 <= k < vf_i0 && (#[trigger] self.token_set@[k]).0 == t,
    decreases vf_s0@.len() - vf_i0
@proof end
    assert(final(first_set).set() =~= old(first_set).set().union(self.first_s()));
@fn IProduction@TokenFieldSet::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@opt bs.0=(TL, Option<TN>)
@proof start
    self.laws(env(_code, stream), Md::F, index.at());
    lemma_uniq(self.token_set@);
@proof armstart Ok(i)
    lemma_set_find(self.token_set@, i as int);
@fn IProduction@TokenFieldSet::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@opt bs.0=(TL, Option<TN>)
@proof start
    self.laws(env(_code, stream), Md::R, index.at());
    lemma_uniq(self.token_set@);
@proof armstart Ok(i)
    lemma_set_find(self.token_set@, i as int);
@fn IProduction@TokenFieldSet::advance_ptr
@ghost vf_b: Ghost<Meas>
@close
