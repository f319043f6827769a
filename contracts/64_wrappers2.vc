@module wrappers2
@modprops C08
broadcast use {group_trees, lemma_nm_mono, lemma_at_word};
@struct Validator rr
@struct Cacheable rr
@struct Structural rr
@struct NonStructural rr
/// what a user check answers (checks are deterministic and depend on the tree and the text alone)
pub uninterp spec fn check_s<F, N>(f: F, ts: Seq<Tree<N>>, code: Bytes) -> Result<(), ProductionError>;
/// assumption on a user check: it answers on every input, always the same, with error positions inside the text
pub open spec fn check_ok<N, F: Fn(&Vec<ASTNode<N>>, &[u8]) -> Result<(), ProductionError>>(f: F) -> bool {
    &&& forall|ch: &Vec<ASTNode<N>>, code: &[u8]| #[trigger] f.requires((ch, code))
    &&& forall|ch: &Vec<ASTNode<N>>, code: &[u8], r: Result<(), ProductionError>| #[trigger] f.ensures((ch, code), r) ==> r == check_s(f, trees(ch@), code@)
    &&& forall|ts: Seq<Tree<N>>, code: Bytes| match #[trigger] check_s(f, ts, code) { Err(ProductionError::Validation(p, _)) => p <= code.len(), _ => true }
}
/// first structural position at or after raw token x
pub open spec fn fnext<T>(e: Env<T>, x: int, k: int) -> int decreases e.fl.len() - k {
    if k < 0 || k >= e.fl.len() { e.fl.len() as int } else if e.fl[k].0 >= x { k } else { fnext(e, x, k + 1) }
}
pub proof fn lemma_fnext<T: TokenImpl>(e: Env<T>, x: int, k: int)
    requires tok_ok(e), 0 <= k <= e.fl.len(), 0 <= x < e.toks.len(), forall|q: int| 0 <= q < k ==> (#[trigger] e.fl[q]).0 < x,
    ensures
        k <= fnext(e, x, k) < e.fl.len() && e.fl[fnext(e, x, k)].0 >= x,
        forall|q: int| 0 <= q < fnext(e, x, k) ==> (#[trigger] e.fl[q]).0 < x,
    decreases e.fl.len() - k
{
    lemma_starts_inc(e);
    if k < e.fl.len() { if e.fl[k].0 < x { lemma_fnext(e, x, k + 1); } }
}
/// raw position just after the structural token before structural position k
pub open spec fn after_prev<T>(e: Env<T>, k: int) -> int { if k > 0 { e.fl[k - 1].0 + 1 } else { 0 } }
pub proof fn lemma_after_prev<T: TokenImpl>(e: Env<T>, k: int)
    requires tok_ok(e), 0 <= k < e.fl.len(),
    ensures
        0 <= after_prev(e, k) <= e.fl[k].0, at_ok(e, Md::R, after_prev(e, k)), st(e, Md::R, after_prev(e, k)) <= st(e, Md::F, k),
        nm(e, Md::R, st(e, Md::R, after_prev(e, k))) == st(e, Md::F, k),
{
    if k > 0 { assert(e.fl[k - 1].0 < e.fl[k].0); }
    let a = after_prev(e, k);
    lemma_nm_raw(e, a, k);
}
/// the mark of a raw position is the start of the structural token at or after it
pub proof fn lemma_nm_raw<T: TokenImpl>(e: Env<T>, a: int, k: int)
    requires tok_ok(e), 0 <= k < e.fl.len(), 0 <= a <= e.fl[k].0, forall|q: int| 0 <= q < k ==> (#[trigger] e.fl[q]).0 < a,
    ensures nm(e, Md::R, st(e, Md::R, a)) == st(e, Md::F, k), st(e, Md::R, a) <= st(e, Md::F, k),
{
    lemma_st_inc(e, Md::R, a, e.fl[k].0 as int);
    assert forall|q: int| 0 <= q < k implies e.toks[(#[trigger] e.fl[q]).0 as int].start < st(e, Md::R, a) by { lemma_tok_inc(e, e.fl[q].0 as int, a); }
    lemma_nmk_at(e, st(e, Md::R, a), k, 0);
}
@open impl<TProd: IProduction, TF: Fn(&Vec<ASTNode<TProd::Node>>, &[u8]) -> Result<(), ProductionError>> Validator<TProd, TF> {
@fn Validator::new
@ensures
    r.production == *production && r.validation_fn == validation_fn,
@fn Validator::get_production
@ensures
    *r == *self.production,
@close
@open impl<TProd: IProduction, TF: Fn(&Vec<ASTNode<TProd::Node>>, &[u8]) -> Result<(), ProductionError>> IProduction for Validator<TProd, TF> {
    type Node = TProd::Node;
    type Token = TProd::Token;
    open spec fn sem(&self, e: Env<TProd::Token>, m: Md, i: int) -> PRes<TProd::Node> {
        let r = self.production.sem(e, m, i);
        PRes { out: match r.out { Ok((j, ts)) => match check_s(self.validation_fn, ts, e.code) { Ok(_) => Ok((j, ts)), Err(x) => Err(x) }, Err(x) => Err(x) }, reach: r.reach }
    }
    open spec fn wf(&self, m: Md) -> bool { self.production.wf(m) && check_ok(self.validation_fn) }
    open spec fn pure(&self) -> bool { self.production.pure() }
    open spec fn tokd(&self) -> bool { self.production.tokd() }
    open spec fn null_s(&self) -> bool { self.production.null_s() }
    open spec fn cons(&self) -> bool { self.production.cons() }
    open spec fn nullh_s(&self) -> bool { self.production.nullh_s() }
    open spec fn first_s(&self) -> Set<TProd::Token> { self.production.first_s() }
    open spec fn nwf(&self) -> bool { self.production.nwf() }
    open spec fn bwf(&self) -> bool { self.production.bwf() }
    open spec fn depth(&self) -> nat { self.production.depth() + 1 }
    open spec fn fwd(&self, m: Md) -> bool { self.production.fwd(m) }
    open spec fn stays(&self) -> Set<&'static str> { self.production.stays() }
    open spec fn heads(&self) -> Set<&'static str> { self.production.heads() }
    open spec fn parts(&self) -> Set<&'static str> { self.production.parts() }
    proof fn nlaw(&self) { self.production.nlaw(); }
    proof fn laws(&self, e: Env<TProd::Token>, m: Md, i: int) {
        self.production.laws(e, m, i);
    }
@fn IProduction@Validator::is_nullable
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m1(self.parts(), self.depth()))
@props C17
@fn IProduction@Validator::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@Validator::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = om(visited.map().dom(), self.depth());
@fn IProduction@Validator::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(first_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@Validator::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@Validator::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@fn IProduction@Validator::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@fn IProduction@Validator::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C08 ~C09 ~C10 ~C15
@close
@open impl<TProd: IProduction> Cacheable<TProd> {
@fn Cacheable::new
@ensures
    r.production == *production && r.cache_key == cache_key,
@fn Cacheable::get_production
@ensures
    *r == self.production,
@close
@open impl<TProd: IProduction> IProduction for Cacheable<TProd> {
    type Node = TProd::Node;
    type Token = TProd::Token;
    open spec fn sem(&self, e: Env<TProd::Token>, m: Md, i: int) -> PRes<TProd::Node> {
        self.production.sem(e, m, i)
    }
    open spec fn wf(&self, m: Md) -> bool { self.production.wf(m) && forall|e: Env<TProd::Token>, m: Md, i: int| #[trigger] key_sem::<TProd::Token, TProd::Node>(self.cache_key, e, m, i) == self.production.sem(e, m, i) }
    open spec fn pure(&self) -> bool { self.production.pure() }
    open spec fn tokd(&self) -> bool { self.production.tokd() }
    open spec fn null_s(&self) -> bool { self.production.null_s() }
    open spec fn cons(&self) -> bool { self.production.cons() }
    open spec fn nullh_s(&self) -> bool { self.production.nullh_s() }
    open spec fn first_s(&self) -> Set<TProd::Token> { self.production.first_s() }
    open spec fn nwf(&self) -> bool { self.production.nwf() }
    open spec fn bwf(&self) -> bool { self.production.bwf() }
    open spec fn depth(&self) -> nat { self.production.depth() + 1 }
    open spec fn fwd(&self, m: Md) -> bool { self.production.fwd(m) }
    open spec fn stays(&self) -> Set<&'static str> { self.production.stays() }
    open spec fn heads(&self) -> Set<&'static str> { self.production.heads() }
    open spec fn parts(&self) -> Set<&'static str> { self.production.parts() }
    proof fn nlaw(&self) { self.production.nlaw(); }
    proof fn laws(&self, e: Env<TProd::Token>, m: Md, i: int) {
        self.production.laws(e, m, i);
    }
@fn IProduction@Cacheable::is_nullable
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m1(self.parts(), self.depth()))
@props C17
@fn IProduction@Cacheable::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@Cacheable::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = om(visited.map().dom(), self.depth());
@fn IProduction@Cacheable::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(first_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@Cacheable::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@Cacheable::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@props C12 ~C10
@proof start
    assert(key_sem::<TProd::Token, TProd::Node>(self.cache_key, env(code, token_stream), cm(Md::F), index.at()) == self.production.sem(env(code, token_stream), Md::F, index.at()));
@proof armend None
    let ghost vf_e = env(code, token_stream);
    self.production.laws(vf_e, Md::F, index.at());
    assert forall|k: CacheKey, s: usize, i: int| #![trigger memory_cache.map()[(k, s)], key_sem::<TProd::Token, TProd::Node>(k, vf_e, cm(Md::F), i)]
        memory_cache.map().contains_key((k, s)) && at_ok(vf_e, Md::F, i) && st(vf_e, Md::F, i) == s implies ent_ok(memory_cache.map()[(k, s)], key_sem::<TProd::Token, TProd::Node>(k, vf_e, cm(Md::F), i), vf_e, Md::F, memory_cache.mx()) by {
        if i < index.at() { lemma_st_inc(vf_e, Md::F, i, index.at()); }
        if i > index.at() { lemma_st_inc(vf_e, Md::F, index.at(), i); }
    }
@fn IProduction@Cacheable::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, lexical_index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, lexical_index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, lexical_index.at(), self.stays(), self.depth()))
@props C12 ~C10
@fn IProduction@Cacheable::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C12 ~C10
@proof start
    assert(key_sem::<TProd::Token, TProd::Node>(self.cache_key, lenv::<TProd::Token>(code), cm(Md::L), index.at()) == self.production.sem(lenv(code), Md::L, index.at()));
@proof armend None
    let ghost vf_e = lenv::<TProd::Token>(code);
    self.production.laws(vf_e, Md::L, index.at());
    assert forall|k: CacheKey, s: usize, i: int| #![trigger cache.map()[(k, s)], key_sem::<TProd::Token, TProd::Node>(k, vf_e, cm(Md::L), i)]
        cache.map().contains_key((k, s)) && at_ok(vf_e, Md::L, i) && st(vf_e, Md::L, i) == s implies ent_ok(cache.map()[(k, s)], key_sem::<TProd::Token, TProd::Node>(k, vf_e, cm(Md::L), i), vf_e, Md::L, cache.mx()) by {
        if i < index.at() { lemma_st_inc(vf_e, Md::L, i, index.at()); }
        if i > index.at() { lemma_st_inc(vf_e, Md::L, index.at(), i); }
    }
@close
@open impl<TProd: IProduction> Structural<TProd> {
@fn Structural::new
@ensures
    r.production == *symbol,
@fn Structural::get_symbol
@ensures
    *r == *self.production,
@close
@open impl<TProd: IProduction> IProduction for Structural<TProd> {
    type Node = TProd::Node;
    type Token = TProd::Token;
    open spec fn sem(&self, e: Env<TProd::Token>, m: Md, i: int) -> PRes<TProd::Node> {
        if m == Md::R {
            let f = fnext(e, i, 0);
            let r = self.production.sem(e, Md::F, f);
            PRes { out: match r.out { Ok((j, ts)) => Ok((imax(after_prev(e, j), i), ts)), Err(x) => Err(x) }, reach: r.reach }
        } else { self.production.sem(e, m, i) }
    }
    open spec fn wf(&self, m: Md) -> bool { if m == Md::R { self.production.wf(Md::F) } else { self.production.wf(m) } }
    open spec fn pure(&self) -> bool { false }
    open spec fn tokd(&self) -> bool { self.production.tokd() }
    open spec fn null_s(&self) -> bool { self.production.null_s() }
    open spec fn cons(&self) -> bool { self.production.cons() }
    open spec fn nullh_s(&self) -> bool { self.production.nullh_s() }
    open spec fn first_s(&self) -> Set<TProd::Token> { self.production.first_s() }
    open spec fn nwf(&self) -> bool { self.production.nwf() }
    open spec fn bwf(&self) -> bool { self.production.bwf() }
    open spec fn depth(&self) -> nat { self.production.depth() + 1 }
    open spec fn fwd(&self, m: Md) -> bool { if m == Md::R { self.production.pure() && self.production.fwd(Md::F) } else { self.production.fwd(m) } }
    open spec fn stays(&self) -> Set<&'static str> { self.production.stays() }
    open spec fn heads(&self) -> Set<&'static str> { self.production.heads() }
    open spec fn parts(&self) -> Set<&'static str> { self.production.parts() }
    proof fn nlaw(&self) { self.production.nlaw(); }
    proof fn laws(&self, e: Env<TProd::Token>, m: Md, i: int) {
        if m == Md::R {
            let f = fnext(e, i, 0);
            lemma_fnext(e, i, 0);
            lemma_nm_raw(e, i, f);
            self.production.laws(e, Md::F, f);
            lemma_nm_st(e, Md::F, f);
            match self.production.sem(e, Md::F, f).out {
                Ok((j, ts)) => {
                    lemma_after_prev(e, j); lemma_nm_st(e, Md::F, j);
                    if after_prev(e, j) < i { if j < f { lemma_st_inc(e, Md::F, j, f); } if j > f { assert(e.fl[j - 1].0 >= i) by { if j - 1 > f { assert(e.fl[f].0 < e.fl[j - 1].0); } } } }
                },
                Err(_) => {},
            }
        } else { self.production.laws(e, m, i); }
    }
@fn IProduction@Structural::is_nullable
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m1(self.parts(), self.depth()))
@props C17
@fn IProduction@Structural::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@Structural::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = om(visited.map().dom(), self.depth());
@fn IProduction@Structural::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(first_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@Structural::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@Structural::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@props C13 ~C08 ~C09 ~C10
@fn IProduction@Structural::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@props C13 ~C08 ~C09 ~C10
@proof start
    let ghost vf_e = env(code, token_stream);
    lemma_fnext(vf_e, index.at(), 0);
    lemma_nm_raw(vf_e, index.at(), fnext(vf_e, index.at(), 0));
    lemma_nm_st(vf_e, Md::F, fnext(vf_e, index.at(), 0));
@proof afterlet parsed_data
    self.production.laws(vf_e, Md::F, fnext(vf_e, index.at(), 0));
    lemma_after_prev(vf_e, parsed_data.consumed_index.at());
@fn IProduction@Structural::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C13 ~C08 ~C09 ~C10
@close
@open impl<TProd: IProduction> NonStructural<TProd> {
@fn NonStructural::new
@ensures
    r.production == *symbol && r.fill_range == shall_fill_range,
@fn NonStructural::get_symbol
@ensures
    *r == *self.production,
@close
@open impl<TProd: IProduction> IProduction for NonStructural<TProd> {
    type Node = TProd::Node;
    type Token = TProd::Token;
    open spec fn sem(&self, e: Env<TProd::Token>, m: Md, i: int) -> PRes<TProd::Node> {
        if m == Md::F {
            let r = self.production.sem(e, Md::R, after_prev(e, i));
            PRes { out: match r.out { Ok((j, ts)) => if self.fill_range && j != e.fl[i].0 { Err(ProductionError::Unparsed) } else { Ok((i, ts)) }, Err(x) => Err(x) }, reach: r.reach }
        } else { self.production.sem(e, m, i) }
    }
    open spec fn wf(&self, m: Md) -> bool { if m == Md::F { self.production.wf(Md::R) } else { self.production.wf(m) } }
    open spec fn pure(&self) -> bool { false }
    open spec fn tokd(&self) -> bool { self.production.tokd() }
    open spec fn null_s(&self) -> bool { self.production.null_s() }
    open spec fn cons(&self) -> bool { false }
    open spec fn nullh_s(&self) -> bool { self.production.nullh_s() }
    open spec fn first_s(&self) -> Set<TProd::Token> { self.production.first_s() }
    open spec fn nwf(&self) -> bool { self.production.nwf() }
    open spec fn bwf(&self) -> bool { self.production.bwf() }
    open spec fn depth(&self) -> nat { self.production.depth() + 1 }
    open spec fn fwd(&self, m: Md) -> bool { if m == Md::F { self.production.fwd(Md::R) } else { self.production.fwd(m) } }
    open spec fn stays(&self) -> Set<&'static str> { self.production.stays() }
    open spec fn heads(&self) -> Set<&'static str> { self.production.heads() }
    open spec fn parts(&self) -> Set<&'static str> { self.production.parts() }
    proof fn nlaw(&self) { self.production.nlaw(); }
    proof fn laws(&self, e: Env<TProd::Token>, m: Md, i: int) {
        if m == Md::F {
            lemma_after_prev(e, i);
            self.production.laws(e, Md::R, after_prev(e, i));
        } else { self.production.laws(e, m, i); }
    }
@fn IProduction@NonStructural::is_nullable
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m1(self.parts(), self.depth()))
@props C17
@fn IProduction@NonStructural::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@NonStructural::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = om(visited.map().dom(), self.depth());
@fn IProduction@NonStructural::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(first_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@NonStructural::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@NonStructural::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, fltr_ptr.at(), self.stays(), self.depth()))
@props C13 ~C08 ~C09 ~C10
@proof start
    let ghost vf_e = env(code, token_stream);
    lemma_after_prev(vf_e, fltr_ptr.at());
    lemma_nm_st(vf_e, Md::F, fltr_ptr.at());
@fn IProduction@NonStructural::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, stream), Md::R, index.at(), self.stays(), self.depth()))
@props C13 ~C08 ~C09 ~C10
@fn IProduction@NonStructural::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C13 ~C08 ~C09 ~C10
@close
