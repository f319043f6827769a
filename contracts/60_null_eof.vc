@module null_eof
@modprops C05 ~C10 ~C15
broadcast use {group_trees, lemma_nm_mono};
@struct NullProd rr
@struct EOFProd rr

@open impl<TN: NodeImpl, TL: TokenImpl> NullProd<TN, TL> {
@fn NullProd::new
@ensures
    r.node_value == Some(TN::null_s()),
@fn NullProd::hidden
@ensures
    r.node_value is None,
@close
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for NullProd<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> {
        okres(i, opt_leaf(self.node_value, st(e, m, i), st(e, m, i), bnd(e, m, i, i)), 0)
    }
    open spec fn wf(&self, m: Md) -> bool { true }
    open spec fn pure(&self) -> bool { true }
    open spec fn tokd(&self) -> bool { true }
    open spec fn null_s(&self) -> bool { true }
    open spec fn cons(&self) -> bool { true }
    open spec fn nullh_s(&self) -> bool { self.node_value is None }
    open spec fn first_s(&self) -> Set<TL> { Set::empty() }
    open spec fn nwf(&self) -> bool { self.bwf() }
    open spec fn bwf(&self) -> bool { true }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { true }
    open spec fn stays(&self) -> Set<&'static str> { Set::empty() }
    open spec fn heads(&self) -> Set<&'static str> { Set::empty() }
    open spec fn parts(&self) -> Set<&'static str> { Set::empty() }
    proof fn nlaw(&self) {}
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) { lemma_st_inc(e, m, i, i); }
@fn IProduction@NullProd::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17
@fn IProduction@NullProd::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@NullProd::obtain_nullability
@ghostcall is_nullable: = Ghost(om(vf_p1.map().dom(), self.depth()))
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@NullProd::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@NullProd::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@proof end
    assert(final(vf_p1).set() =~= old(vf_p1).set().union(self.first_s()));
@fn IProduction@NullProd::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@NullProd::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@NullProd::advance_ptr
@ghost vf_b: Ghost<Meas>
@close
@open impl<'field, TN: NodeImpl, TL: TokenImpl> EOFProd<TN, TL> {
@fn EOFProd::new
@ensures
    r.node_value == node,
@close
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for EOFProd<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> {
        if st(e, m, i) == e.code.len() { okres(i, opt_leaf(self.node_value, st(e, m, i), st(e, m, i), bnd(e, m, i, i)), e.code.len() as int) }
        else { unparsed(0) }
    }
    open spec fn wf(&self, m: Md) -> bool { true }
    open spec fn pure(&self) -> bool { true }
    open spec fn tokd(&self) -> bool { true }
    open spec fn null_s(&self) -> bool { false }
    open spec fn cons(&self) -> bool { false }
    open spec fn nullh_s(&self) -> bool { false }
    open spec fn first_s(&self) -> Set<TL> { set![TL::eof_s()] }
    open spec fn nwf(&self) -> bool { self.bwf() }
    open spec fn bwf(&self) -> bool { true }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { true }
    open spec fn stays(&self) -> Set<&'static str> { Set::empty() }
    open spec fn heads(&self) -> Set<&'static str> { Set::empty() }
    open spec fn parts(&self) -> Set<&'static str> { Set::empty() }
    proof fn nlaw(&self) {}
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) {
        lemma_st_inc(e, m, i, i);
        if m != Md::L { lemma_tok_in(e, bd(e, m, i)); }
    }
@fn IProduction@EOFProd::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17
@fn IProduction@EOFProd::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@EOFProd::obtain_nullability
@ghostcall is_nullable: = Ghost(om(vf_p1.map().dom(), self.depth()))
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@EOFProd::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@EOFProd::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@EOFProd::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@EOFProd::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@EOFProd::advance_ptr
@ghost vf_b: Ghost<Meas>
@close
