@module wrappers
@modprops C08
broadcast use {group_trees, lemma_nm_mono, lemma_at_word};
@struct Hidden rr
@struct Node rr
@struct Lookahead rr
@open impl<TProd: IProduction> Hidden<TProd> {
@fn Hidden::new
@ensures
    r.production == *production,
@fn Hidden::hidden
@ensures
    r.production == *production,
@fn Hidden::get_production
@ensures
    *r == *self.production,
@close
@open impl<TProd: IProduction> IProduction for Hidden<TProd> {
    type Node = TProd::Node;
    type Token = TProd::Token;
    open spec fn sem(&self, e: Env<TProd::Token>, m: Md, i: int) -> PRes<TProd::Node> {
        let r = self.production.sem(e, m, i);
        PRes { out: match r.out { Ok((j, _)) => Ok((j, Seq::empty())), Err(x) => Err(x) }, reach: r.reach }
    }
    open spec fn wf(&self, m: Md) -> bool { self.production.wf(m) }
    open spec fn pure(&self) -> bool { self.production.pure() }
    open spec fn tokd(&self) -> bool { self.production.tokd() }
    open spec fn null_s(&self) -> bool { self.production.null_s() }
    open spec fn cons(&self) -> bool { self.production.cons() }
    open spec fn nullh_s(&self) -> bool { self.production.null_s() }
    open spec fn first_s(&self) -> Set<TProd::Token> { self.production.first_s() }
    open spec fn nwf(&self) -> bool { self.production.nwf() }
    open spec fn bwf(&self) -> bool { self.production.bwf() }
    open spec fn depth(&self) -> nat { self.production.depth() + 1 }
    open spec fn fwd(&self, m: Md) -> bool { self.production.fwd(m) }
    open spec fn stays(&self) -> Set<&'static str> { self.production.stays() }
    open spec fn heads(&self) -> Set<&'static str> { self.production.heads() }
    open spec fn parts(&self) -> Set<&'static str> { self.production.parts() }
    proof fn nlaw(&self) { self.production.nlaw(); }
    proof fn laws(&self, e: Env<TProd::Token>, m: Md, i: int) {
        self.production.laws(e, m, i);
    }
@fn IProduction@Hidden::is_nullable
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m1(self.parts(), self.depth()))
@props C17
@fn IProduction@Hidden::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@Hidden::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = om(visited.map().dom(), self.depth());
@fn IProduction@Hidden::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(first_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@Hidden::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@Hidden::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@fn IProduction@Hidden::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@fn IProduction@Hidden::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@close
@open impl<TProd: IProduction> Node<TProd> {
@fn Node::new
@ensures
    r.production == *production && r.node_value == node_value,
@fn Node::get_production
@ensures
    *r == *self.production,
@close
@open impl<TProd: IProduction> IProduction for Node<TProd> {
    type Node = TProd::Node;
    type Token = TProd::Token;
    open spec fn sem(&self, e: Env<TProd::Token>, m: Md, i: int) -> PRes<TProd::Node> {
        let r = self.production.sem(e, m, i);
        PRes { out: match r.out { Ok((j, ts)) => Ok((j, seq![node_tree(self.node_value, ts, e, m, i, j)])), Err(x) => Err(x) }, reach: r.reach }
    }
    open spec fn wf(&self, m: Md) -> bool { self.production.wf(m) }
    open spec fn pure(&self) -> bool { self.production.pure() }
    open spec fn tokd(&self) -> bool { self.production.tokd() }
    open spec fn null_s(&self) -> bool { self.production.null_s() }
    open spec fn cons(&self) -> bool { self.production.cons() }
    open spec fn nullh_s(&self) -> bool { false }
    open spec fn first_s(&self) -> Set<TProd::Token> { self.production.first_s() }
    open spec fn nwf(&self) -> bool { self.production.nwf() }
    open spec fn bwf(&self) -> bool { self.production.bwf() }
    open spec fn depth(&self) -> nat { self.production.depth() + 1 }
    open spec fn fwd(&self, m: Md) -> bool { self.production.fwd(m) }
    open spec fn stays(&self) -> Set<&'static str> { self.production.stays() }
    open spec fn heads(&self) -> Set<&'static str> { self.production.heads() }
    open spec fn parts(&self) -> Set<&'static str> { self.production.parts() }
    proof fn nlaw(&self) { self.production.nlaw(); }
    proof fn laws(&self, e: Env<TProd::Token>, m: Md, i: int) {
        self.production.laws(e, m, i);
        match self.production.sem(e, m, i).out { Ok((j, ts)) => { lemma_st_inc(e, m, i, j); if self.pure() { lemma_fits_node(self.node_value, ts, e, m, i, j); } }, Err(_) => {} }
    }
@fn IProduction@Node::is_nullable
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m1(self.parts(), self.depth()))
@props C17
@fn IProduction@Node::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@Node::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = om(visited.map().dom(), self.depth());
@fn IProduction@Node::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(first_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@Node::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@Node::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@proof start
    self.laws(env(code, token_stream), Md::F, index.at());
@fn IProduction@Node::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@proof start
    self.laws(env(code, token_stream), Md::R, index.at());
@fn IProduction@Node::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@proof start
    self.laws(lenv(code), Md::L, index.at());
@close
@open impl<TProd: IProduction> Lookahead<TProd> {
@fn Lookahead::new
@ensures
    r.production == *symbol && r.node_value == node_value,
@fn Lookahead::get_production
@ensures
    *r == *self.production,
@close
@open impl<TProd: IProduction> IProduction for Lookahead<TProd> {
    type Node = TProd::Node;
    type Token = TProd::Token;
    open spec fn sem(&self, e: Env<TProd::Token>, m: Md, i: int) -> PRes<TProd::Node> {
        let r = self.production.sem(e, m, i);
        PRes { out: match r.out { Ok(_) => Ok((i, opt_leaf(self.node_value, st(e, m, i), st(e, m, i), bnd(e, m, i, i)))), Err(x) => Err(x) }, reach: r.reach }
    }
    open spec fn wf(&self, m: Md) -> bool { self.production.wf(m) }
    open spec fn pure(&self) -> bool { self.production.pure() }
    open spec fn tokd(&self) -> bool { self.production.tokd() }
    open spec fn null_s(&self) -> bool { self.production.null_s() }
    open spec fn cons(&self) -> bool { false }
    open spec fn nullh_s(&self) -> bool { self.production.null_s() && self.node_value is None }
    open spec fn first_s(&self) -> Set<TProd::Token> { self.production.first_s() }
    open spec fn nwf(&self) -> bool { self.production.nwf() }
    open spec fn bwf(&self) -> bool { self.production.bwf() }
    open spec fn depth(&self) -> nat { self.production.depth() + 1 }
    open spec fn fwd(&self, m: Md) -> bool { self.production.fwd(m) }
    open spec fn stays(&self) -> Set<&'static str> { self.production.stays() }
    open spec fn heads(&self) -> Set<&'static str> { self.production.heads() }
    open spec fn parts(&self) -> Set<&'static str> { self.production.parts() }
    proof fn nlaw(&self) { self.production.nlaw(); }
    proof fn laws(&self, e: Env<TProd::Token>, m: Md, i: int) {
        self.production.laws(e, m, i);
        lemma_st_inc(e, m, i, i);
    }
@fn IProduction@Lookahead::is_nullable
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m1(self.parts(), self.depth()))
@props C17
@fn IProduction@Lookahead::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@Lookahead::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = om(visited.map().dom(), self.depth());
@fn IProduction@Lookahead::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(first_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@Lookahead::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@Lookahead::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@fn IProduction@Lookahead::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@fn IProduction@Lookahead::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@close
