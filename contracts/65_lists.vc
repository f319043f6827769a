@module lists
@modprops C06
broadcast use {group_trees, lemma_nm_mono, lemma_at_word, lemma_vinv_lg};
use std::hash::Hash;
@struct Nullable rr
@struct List rr
@struct SeparatedList rr
## ---------------------------------------------------------------- running a symbol through a closure
/// the closure runs production p in mode m, after position lo (or at it, when g)
#[verifier::prophetic]
pub open spec fn runs<Q: IProduction, I: VfPtr, C: VfPtr, F: Fn(I, &mut Cache<C, Q::Node>) -> ParsedResult<I, Q::Node>>(f: F, p: Q, e: Env<Q::Token>, m: Md, lo: int, g: bool) -> bool {
    &&& forall|x: I, c: &mut Cache<C, Q::Node>| ppre(e, m, x.at(), *c) && (x.at() > lo || (x.at() == lo && g)) ==> #[trigger] f.requires((x, c))
    &&& forall|x: I, c: &mut Cache<C, Q::Node>, r: ParsedResult<I, Q::Node>| #[trigger] f.ensures((x, c), r) ==> rv(r) == p.sem(e, m, x.at()).out && ppost(p.sem(e, m, x.at()), e, m, *c, *final(c))
}
/// positions are distinguished by `at`, and `==` on them is equality
pub open spec fn ptr_ok<I: VfPtr + PartialEq>() -> bool { eq_ok::<I>() && forall|a: I, b: I| #![trigger a.at(), b.at()] a.at() == b.at() ==> a == b }
pub proof fn lemma_fits_add<T: TokenImpl, N>(a: Seq<Tree<N>>, b: Seq<Tree<N>>, e: Env<T>, m: Md, i: int, j: int, k: int)
    requires env_ok(e, m), at_ok(e, m, i), at_ok(e, m, j), at_ok(e, m, k), i <= j <= k, fits(a, e, m, i, j), fits(b, e, m, j, k),
    ensures fits(a + b, e, m, i, k),
{
    lemma_st_inc(e, m, i, j);
    lemma_st_inc(e, m, j, k);
    assert forall|x: int, y: int| 0 <= x < y < (a + b).len() implies (#[trigger] (a + b)[x]).end <= (#[trigger] (a + b)[y]).start
        && ((a + b)[x].bound is Some && (a + b)[y].bound is Some ==> (a + b)[x].bound->Some_0.1 <= (a + b)[y].bound->Some_0.0) by {
        if x < a.len() { assert(fit1(a[x], m == Md::L, st(e, m, i), st(e, m, j), bd(e, m, i), bd(e, m, j))); }
        if y >= a.len() { assert(fit1(b[y - a.len()], m == Md::L, st(e, m, j), st(e, m, k), bd(e, m, j), bd(e, m, k))); }
    }
}
/// the law of results, for a run that started at i and stands at j with trees acc
pub open spec fn step_ok<T: TokenImpl, N>(e: Env<T>, m: Md, i: int, j: int, acc: Seq<Tree<N>>, reach: int, pure: bool) -> bool {
    &&& at_ok(e, m, i) && i <= j && at_ok(e, m, j) && 0 <= reach <= e.code.len()
    &&& nm(e, m, st(e, m, j)) <= imax(nm(e, m, st(e, m, i)), nm(e, m, reach))
    &&& pure ==> fits(acc, e, m, i, j)
}
pub proof fn lemma_step<T: TokenImpl, N>(e: Env<T>, m: Md, i: int, j: int, acc: Seq<Tree<N>>, reach: int, pure: bool, k: int, ts: Seq<Tree<N>>, r: int, p1: bool)
    requires env_ok(e, m), step_ok(e, m, i, j, acc, reach, pure), step_ok(e, m, j, k, ts, r, p1), pure ==> p1,
    ensures step_ok(e, m, i, k, acc + ts, imax(reach, r), pure), step_ok(e, m, i, j, acc, imax(reach, r), pure),
{
    if pure { lemma_fits_add(acc, ts, e, m, i, j, k); }
    lemma_nm_max(e, m, reach, r);
}

## ---------------------------------------------------------------- X | empty
@open impl<TProd: IProduction> Nullable<TProd> {
@fn Nullable::new
@ensures
    r.symbol == *symbol && r.node_value == Some(<TProd::Node as NodeImpl>::null_s()),
@fn Nullable::hidden
@ensures
    r.symbol == *production && r.node_value is None,
@fn Nullable::get_production
@ensures
    *r == *self.symbol,
@close
@open impl<TProd: IProduction> IProduction for Nullable<TProd> {
    type Node = TProd::Node;
    type Token = TProd::Token;
    open spec fn sem(&self, e: Env<TProd::Token>, m: Md, i: int) -> PRes<TProd::Node> {
        let r = self.symbol.sem(e, m, i);
        PRes { out: match r.out {
            Ok(x) => Ok(x),
            Err(ProductionError::Validation(p, s)) => Err(ProductionError::Validation(p, s)),
            Err(_) => Ok((i, opt_leaf(self.node_value, st(e, m, i), st(e, m, i), bnd(e, m, i, i)))),
        }, reach: r.reach }
    }
    open spec fn wf(&self, m: Md) -> bool { self.symbol.wf(m) }
    open spec fn pure(&self) -> bool { self.symbol.pure() }
    open spec fn tokd(&self) -> bool { self.symbol.tokd() }
    open spec fn null_s(&self) -> bool { true }
    open spec fn cons(&self) -> bool { true }
    open spec fn nullh_s(&self) -> bool { self.node_value is None && (!self.symbol.null_s() || self.symbol.nullh_s()) }
    open spec fn first_s(&self) -> Set<TProd::Token> { self.symbol.first_s() }
    open spec fn nwf(&self) -> bool { self.symbol.nwf() }
    open spec fn bwf(&self) -> bool { self.symbol.bwf() }
    open spec fn depth(&self) -> nat { self.symbol.depth() + 1 }
    open spec fn fwd(&self, m: Md) -> bool { self.symbol.fwd(m) }
    open spec fn stays(&self) -> Set<&'static str> { self.symbol.stays() }
    open spec fn heads(&self) -> Set<&'static str> { self.symbol.heads() }
    open spec fn parts(&self) -> Set<&'static str> { self.symbol.parts() }
    proof fn nlaw(&self) { self.symbol.nlaw(); }
    proof fn laws(&self, e: Env<TProd::Token>, m: Md, i: int) {
        self.symbol.laws(e, m, i);
        lemma_st_inc(e, m, i, i);
    }
@fn IProduction@Nullable::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17
@fn IProduction@Nullable::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@Nullable::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@Nullable::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(first_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@Nullable::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@Nullable::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@props C06 ~C09 ~C10 ~C15
@fn IProduction@Nullable::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, token_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, token_ptr.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, token_ptr.at(), self.stays(), self.depth()))
@props C06 ~C09 ~C10 ~C15
@fn IProduction@Nullable::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C06 ~C09 ~C10 ~C15
@close

## ---------------------------------------------------------------- X+
/// more items, after the ones read so far ended at j
pub open spec fn list_more<Q: IProduction>(p: Q, e: Env<Q::Token>, m: Md, j: int, acc: Seq<Tree<Q::Node>>, reach: int) -> PRes<Q::Node> decreases lim(e, m) - j {
    let r = p.sem(e, m, j);
    let reach1 = imax(reach, r.reach);
    match r.out {
        Ok((k, ts)) => if j < k <= lim(e, m) { list_more(p, e, m, k, acc + ts, reach1) } else { okres(k, acc + ts, reach1) },
        Err(ProductionError::Validation(x, s)) => PRes { out: Err(ProductionError::Validation(x, s)), reach: reach1 },
        Err(_) => okres(j, acc, reach1),
    }
}
pub open spec fn list_sem<Q: IProduction>(p: Q, e: Env<Q::Token>, m: Md, i: int) -> PRes<Q::Node> {
    let r = p.sem(e, m, i);
    match r.out {
        Ok((j, ts)) => if j == i { okres(j, ts, r.reach) } else { list_more(p, e, m, j, ts, r.reach) },
        Err(x) => PRes { out: Err(x), reach: r.reach },
    }
}
pub proof fn lemma_list<Q: IProduction>(p: &Q, e: Env<Q::Token>, m: Md, i: int, j: int, acc: Seq<Tree<Q::Node>>, reach: int)
    requires p.wf(m), env_ok(e, m), step_ok(e, m, i, j, acc, reach, p.pure()),
    ensures ({ let r = list_more(*p, e, m, j, acc, reach);
        &&& 0 <= r.reach <= e.code.len()
        &&& match r.out { Ok((k, ts)) => j <= k && step_ok(e, m, i, k, ts, r.reach, p.pure()), Err(ProductionError::Validation(x, _)) => x <= e.code.len(), Err(_) => true }
    }),
    decreases lim(e, m) - j
{
    p.laws(e, m, j);
    let r = p.sem(e, m, j);
    match r.out {
        Ok((k, ts)) => {
            lemma_step(e, m, i, j, acc, reach, p.pure(), k, ts, r.reach, p.pure());
            if j < k { lemma_list(p, e, m, i, k, acc + ts, imax(reach, r.reach)); }
        },
        Err(ProductionError::Validation(x, s)) => {},
        Err(_) => { lemma_step(e, m, i, j, acc, reach, p.pure(), j, Seq::<Tree<Q::Node>>::empty(), r.reach, p.pure()); assert(acc + Seq::<Tree<Q::Node>>::empty() =~= acc); },
    }
}
@open impl<TProd: IProduction> List<TProd> {
@fn List::new
@ensures
    r.symbol == *symbol,
@fn List::get_symbol
@ensures
    *r == *self.symbol,
@fn List::consume
@props C06 ~C18 ~C09 ~C10 ~C15
@where T: VfPtr, TCache: VfPtr
@ghost Ghost(em): Ghost<(Env<TProd::Token>, Md)>
@requires
    ptr_ok::<T>(), self.symbol.wf(em.1), ppre(em.0, em.1, index.at(), *old(cache)),
    runs::<TProd, T, TCache, P>(parse_production, *self.symbol, em.0, em.1, index.at(), true),
@ensures
    [C06.list] rv(r) == list_sem(*self.symbol, em.0, em.1, index.at()).out,
    [C10.list] ppost(list_sem(*self.symbol, em.0, em.1, index.at()), em.0, em.1, *old(cache), *final(cache)),
@proof start
    self.symbol.laws(em.0, em.1, index.at());
@proof loopbefore 0
    let ghost mut vf_reach = self.symbol.sem(em.0, em.1, index.at()).reach;
@loop 0
    invariant
        list_sem(*self.symbol, em.0, em.1, index.at()) == list_more(*self.symbol, em.0, em.1, moved_ptr.at(), trees(children@), vf_reach),
        ptr_ok::<T>(), self.symbol.wf(em.1), runs::<TProd, T, TCache, P>(parse_production, *self.symbol, em.0, em.1, index.at(), true),
        ppre(em.0, em.1, moved_ptr.at(), *cache), step_ok(em.0, em.1, index.at(), moved_ptr.at(), trees(children@), vf_reach, self.symbol.pure()),
        old(cache).mx() <= cache.mx(), nm(em.0, em.1, cache.mx()) == imax(nm(em.0, em.1, old(cache).mx()), nm(em.0, em.1, vf_reach)),
    decreases lim(em.0, em.1) - moved_ptr.at()
@proof looptop 0
    let ghost vf_r = self.symbol.sem(em.0, em.1, moved_ptr.at());
    self.symbol.laws(em.0, em.1, moved_ptr.at());
    lemma_nm_max(em.0, em.1, vf_reach, vf_r.reach);
    match vf_r.out { Ok((k, ts)) => { lemma_step(em.0, em.1, index.at(), moved_ptr.at(), trees(children@), vf_reach, self.symbol.pure(), k, ts, vf_r.reach, self.symbol.pure()); }, Err(_) => {} }
    vf_reach = imax(vf_reach, vf_r.reach);
@close
@open impl<TProd: IProduction> IProduction for List<TProd> {
    type Node = TProd::Node;
    type Token = TProd::Token;
    open spec fn sem(&self, e: Env<TProd::Token>, m: Md, i: int) -> PRes<TProd::Node> { list_sem(*self.symbol, e, m, i) }
    open spec fn wf(&self, m: Md) -> bool { self.symbol.wf(m) }
    open spec fn pure(&self) -> bool { self.symbol.pure() }
    open spec fn tokd(&self) -> bool { self.symbol.tokd() }
    open spec fn null_s(&self) -> bool { self.symbol.null_s() }
    open spec fn cons(&self) -> bool { self.symbol.cons() }
    open spec fn nullh_s(&self) -> bool { self.symbol.nullh_s() }
    open spec fn first_s(&self) -> Set<TProd::Token> { self.symbol.first_s() }
    open spec fn nwf(&self) -> bool { self.symbol.nwf() }
    open spec fn bwf(&self) -> bool { self.symbol.bwf() }
    open spec fn depth(&self) -> nat { self.symbol.depth() + 1 }
    open spec fn fwd(&self, m: Md) -> bool { self.symbol.fwd(m) }
    open spec fn stays(&self) -> Set<&'static str> { self.symbol.stays() }
    open spec fn heads(&self) -> Set<&'static str> { self.symbol.heads() }
    open spec fn parts(&self) -> Set<&'static str> { self.symbol.parts() }
    proof fn nlaw(&self) { self.symbol.nlaw(); }
    proof fn laws(&self, e: Env<TProd::Token>, m: Md, i: int) {
        self.symbol.laws(e, m, i);
        let r = self.symbol.sem(e, m, i);
        match r.out { Ok((j, ts)) => if j != i { lemma_list(&*self.symbol, e, m, i, j, ts, r.reach); }, Err(_) => {} }
    }
@fn IProduction@List::is_nullable
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m1(self.parts(), self.depth()))
@props C17
@fn IProduction@List::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@List::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = om(visited.map().dom(), self.depth());
@fn IProduction@List::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(first_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@List::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@List::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@props C06 ~C18 ~C09 ~C10 ~C15
@ghostcall consume: (env(code, token_stream), Md::F)
@closure 0
|x: FltrPtr, c: &mut Cache<FltrPtr, TProd::Node>| -> (cr: ParsedResult<FltrPtr, TProd::Node>)
    requires self.symbol.wf(Md::F), ppre(env(code, token_stream), Md::F, x.at(), *old(c)), x.at() >= index.at()
    ensures rv(cr) == self.symbol.sem(env(code, token_stream), Md::F, x.at()).out, ppost(self.symbol.sem(env(code, token_stream), Md::F, x.at()), env(code, token_stream), Md::F, *old(c), *final(c))
@fn IProduction@List::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@props C06 ~C18 ~C09 ~C10 ~C15
@ghostcall consume: (env(code, token_stream), Md::R)
@closure 0
|x: TokenPtr, c: &mut Cache<FltrPtr, TProd::Node>| -> (cr: ParsedResult<TokenPtr, TProd::Node>)
    requires self.symbol.wf(Md::R), ppre(env(code, token_stream), Md::R, x.at(), *old(c)), x.at() >= index.at()
    ensures rv(cr) == self.symbol.sem(env(code, token_stream), Md::R, x.at()).out, ppost(self.symbol.sem(env(code, token_stream), Md::R, x.at()), env(code, token_stream), Md::R, *old(c), *final(c))
@fn IProduction@List::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TProd::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C06 ~C18 ~C09 ~C10 ~C15
@ghostcall consume: (lenv::<TProd::Token>(code), Md::L)
@closure 0
|x: usize, c: &mut Cache<usize, TProd::Node>| -> (cr: ParsedResult<usize, TProd::Node>)
    requires self.symbol.wf(Md::L), ppre(lenv::<TProd::Token>(code), Md::L, x.at(), *old(c)), x.at() >= index.at()
    ensures rv(cr) == self.symbol.sem(lenv::<TProd::Token>(code), Md::L, x.at()).out, ppost(self.symbol.sem(lenv::<TProd::Token>(code), Md::L, x.at()), lenv::<TProd::Token>(code), Md::L, *old(c), *final(c))
@close

## ---------------------------------------------------------------- X (s X)* s?
pub open spec fn sep_more<Q: IProduction, S: IProduction<Node = Q::Node, Token = Q::Token>>(p: Q, s: S, incl: bool, e: Env<Q::Token>, m: Md, j: int, acc: Seq<Tree<Q::Node>>, reach: int) -> PRes<Q::Node> decreases lim(e, m) - j {
    let sr = s.sem(e, m, j);
    let reach1 = imax(reach, sr.reach);
    match sr.out {
        Ok((k, us)) => {
            let pr = p.sem(e, m, k);
            let reach2 = imax(reach1, pr.reach);
            match pr.out {
                Ok((l, ts)) => if j < l <= lim(e, m) { sep_more(p, s, incl, e, m, l, (acc + us) + ts, reach2) } else { okres(j, acc, reach2) },
                Err(ProductionError::Validation(x, t)) => PRes { out: Err(ProductionError::Validation(x, t)), reach: reach2 },
                Err(_) => if incl { okres(k, acc + us, reach2) } else { okres(j, acc, reach2) },
            }
        },
        Err(ProductionError::Validation(x, t)) => PRes { out: Err(ProductionError::Validation(x, t)), reach: reach1 },
        Err(_) => okres(j, acc, reach1),
    }
}
pub open spec fn sep_sem<Q: IProduction, S: IProduction<Node = Q::Node, Token = Q::Token>>(p: Q, s: S, incl: bool, e: Env<Q::Token>, m: Md, i: int) -> PRes<Q::Node> {
    let r = p.sem(e, m, i);
    match r.out {
        Ok((j, ts)) => sep_more(p, s, incl, e, m, j, ts, r.reach),
        Err(x) => PRes { out: Err(x), reach: r.reach },
    }
}
/// one round: separator, then symbol
pub proof fn lemma_sep_step<Q: IProduction, S: IProduction<Node = Q::Node, Token = Q::Token>>(p: &Q, s: &S, e: Env<Q::Token>, m: Md, i: int, j: int, acc: Seq<Tree<Q::Node>>, reach: int)
    requires p.wf(m), s.wf(m), env_ok(e, m), step_ok(e, m, i, j, acc, reach, p.pure() && s.pure()),
    ensures ({
        let pu = p.pure() && s.pure();
        let sr = s.sem(e, m, j);
        let reach1 = imax(reach, sr.reach);
        &&& step_ok(e, m, i, j, acc, reach1, pu)
        &&& nm(e, m, reach1) == imax(nm(e, m, reach), nm(e, m, sr.reach))
        &&& match sr.out {
            Ok((k, us)) => {
                let pr = p.sem(e, m, k);
                let reach2 = imax(reach1, pr.reach);
                &&& step_ok(e, m, i, k, acc + us, reach1, pu) && step_ok(e, m, i, k, acc + us, reach2, pu) && step_ok(e, m, i, j, acc, reach2, pu) && j <= k
                &&& nm(e, m, st(e, m, k)) <= imax(nm(e, m, st(e, m, j)), nm(e, m, sr.reach))
                &&& nm(e, m, reach2) == imax(nm(e, m, reach1), nm(e, m, pr.reach))
                &&& match pr.out { Ok((l, ts)) => step_ok(e, m, i, l, (acc + us) + ts, reach2, pu) && k <= l && nm(e, m, st(e, m, l)) <= imax(nm(e, m, st(e, m, k)), nm(e, m, pr.reach)), Err(ProductionError::Validation(x, _)) => x <= e.code.len(), Err(_) => true }
            },
            Err(ProductionError::Validation(x, _)) => x <= e.code.len(),
            Err(_) => true,
        }
    }),
{
    let pu = p.pure() && s.pure();
    s.laws(e, m, j);
    let sr = s.sem(e, m, j);
    lemma_nm_max(e, m, reach, sr.reach);
    let z = Seq::<Tree<Q::Node>>::empty();
    lemma_step(e, m, i, j, acc, reach, pu, j, z, sr.reach, pu);
    match sr.out {
        Ok((k, us)) => {
            lemma_step(e, m, i, j, acc, reach, pu, k, us, sr.reach, s.pure());
            p.laws(e, m, k);
            let pr = p.sem(e, m, k);
            let reach1 = imax(reach, sr.reach);
            lemma_nm_max(e, m, reach1, pr.reach);
            lemma_step(e, m, i, k, acc + us, reach1, pu, k, z, pr.reach, pu);
            lemma_step(e, m, i, j, acc, reach1, pu, j, z, pr.reach, pu);
            match pr.out { Ok((l, ts)) => { lemma_step(e, m, i, k, acc + us, reach1, pu, l, ts, pr.reach, p.pure()); }, Err(_) => {} }
        },
        Err(_) => {},
    }
}
pub proof fn lemma_sep<Q: IProduction, S: IProduction<Node = Q::Node, Token = Q::Token>>(p: &Q, s: &S, incl: bool, e: Env<Q::Token>, m: Md, i: int, j: int, acc: Seq<Tree<Q::Node>>, reach: int)
    requires p.wf(m), s.wf(m), env_ok(e, m), step_ok(e, m, i, j, acc, reach, p.pure() && s.pure()),
    ensures ({ let r = sep_more(*p, *s, incl, e, m, j, acc, reach);
        &&& 0 <= r.reach <= e.code.len()
        &&& match r.out { Ok((k, ts)) => j <= k && step_ok(e, m, i, k, ts, r.reach, p.pure() && s.pure()), Err(ProductionError::Validation(x, _)) => x <= e.code.len(), Err(_) => true }
    }),
    decreases lim(e, m) - j
{
    lemma_sep_step(p, s, e, m, i, j, acc, reach);
    let sr = s.sem(e, m, j);
    match sr.out {
        Ok((k, us)) => {
            let pr = p.sem(e, m, k);
            match pr.out { Ok((l, ts)) => { if j < l { lemma_sep(p, s, incl, e, m, i, l, (acc + us) + ts, imax(imax(reach, sr.reach), pr.reach)); } }, Err(_) => {} }
        },
        Err(_) => {},
    }
}
/// the separator may be tried where the list starts
pub open spec fn sep_first<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>>(s: &SeparatedList<TP, TS>) -> bool { s.production.null_s() || !s.production.cons() }
@open impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> SeparatedList<TP, TS> {
@fn SeparatedList::new
@ensures
    r.production == *production && r.separator == *separator && r.inclusive == inclusive,
@fn SeparatedList::get_production
@ensures
    *r == *self.production,
@fn SeparatedList::get_separator
@ensures
    *r == *self.separator,
@fn SeparatedList::consume
@props C06 ~C18 ~C09 ~C10 ~C15
@where T: VfPtr, TCache: VfPtr
@ghost Ghost(em): Ghost<(Env<TP::Token>, Md)>
@requires
    ptr_ok::<T>(), self.production.wf(em.1), self.separator.wf(em.1), ppre(em.0, em.1, index.at(), *old(cache)),
    runs::<TP, T, TCache, P>(parse_production, *self.production, em.0, em.1, index.at(), true),
    runs::<TS, T, TCache, S>(parse_separator, *self.separator, em.0, em.1, index.at(), sep_first(self)),
@ensures
    [C06.separated] rv(r) == sep_sem(*self.production, *self.separator, self.inclusive, em.0, em.1, index.at()).out,
    [C10.separated] ppost(sep_sem(*self.production, *self.separator, self.inclusive, em.0, em.1, index.at()), em.0, em.1, *old(cache), *final(cache)),
@proof start
    self.production.laws(em.0, em.1, index.at());
@proof loopbefore 0
    let ghost mut vf_reach = self.production.sem(em.0, em.1, index.at()).reach;
@loop 0
    invariant
        sep_sem(*self.production, *self.separator, self.inclusive, em.0, em.1, index.at()) == sep_more(*self.production, *self.separator, self.inclusive, em.0, em.1, moved_ptr.at(), trees(children@), vf_reach),
        ptr_ok::<T>(), self.production.wf(em.1), self.separator.wf(em.1),
        runs::<TP, T, TCache, P>(parse_production, *self.production, em.0, em.1, index.at(), true),
        runs::<TS, T, TCache, S>(parse_separator, *self.separator, em.0, em.1, index.at(), sep_first(self)),
        ppre(em.0, em.1, moved_ptr.at(), *cache), step_ok(em.0, em.1, index.at(), moved_ptr.at(), trees(children@), vf_reach, self.production.pure() && self.separator.pure()), moved_ptr.at() > index.at() || sep_first(self),
        old(cache).mx() <= cache.mx(), nm(em.0, em.1, cache.mx()) == imax(nm(em.0, em.1, old(cache).mx()), nm(em.0, em.1, vf_reach)),
    decreases lim(em.0, em.1) - moved_ptr.at()
@proof looptop 0
    lemma_sep_step(&*self.production, &*self.separator, em.0, em.1, index.at(), moved_ptr.at(), trees(children@), vf_reach);
    let sr = self.separator.sem(em.0, em.1, moved_ptr.at());
    vf_reach = imax(vf_reach, sr.reach);
    match sr.out { Ok((k, us)) => { vf_reach = imax(vf_reach, self.production.sem(em.0, em.1, k).reach); }, Err(_) => {} }
@close
@open impl<TP: IProduction, TS: IProduction<Node = TP::Node, Token = TP::Token>> IProduction for SeparatedList<TP, TS> {
    type Node = TP::Node;
    type Token = TP::Token;
    open spec fn sem(&self, e: Env<TP::Token>, m: Md, i: int) -> PRes<TP::Node> { sep_sem(*self.production, *self.separator, self.inclusive, e, m, i) }
    open spec fn wf(&self, m: Md) -> bool { self.production.wf(m) && self.separator.wf(m) }
    open spec fn pure(&self) -> bool { self.production.pure() && self.separator.pure() }
    open spec fn tokd(&self) -> bool { self.production.tokd() && self.separator.tokd() }
    open spec fn null_s(&self) -> bool { self.production.null_s() }
    open spec fn cons(&self) -> bool { self.production.cons() }
    open spec fn nullh_s(&self) -> bool { self.production.nullh_s() }
    open spec fn first_s(&self) -> Set<TP::Token> { if self.production.null_s() { self.production.first_s().union(self.separator.first_s()) } else { self.production.first_s() } }
    open spec fn nwf(&self) -> bool { self.production.nwf() && self.separator.nwf() }
    open spec fn bwf(&self) -> bool { self.production.bwf() && self.separator.bwf() }
    open spec fn depth(&self) -> nat { nmax(self.production.depth(), self.separator.depth()) + 1 }
    open spec fn fwd(&self, m: Md) -> bool { self.production.fwd(m) && self.separator.fwd(m) }
    open spec fn stays(&self) -> Set<&'static str> { if sep_first(self) { self.production.stays().union(self.separator.stays()) } else { self.production.stays() } }
    open spec fn heads(&self) -> Set<&'static str> { if self.production.null_s() { self.production.heads().union(self.separator.heads()) } else { self.production.heads() } }
    open spec fn parts(&self) -> Set<&'static str> { self.production.parts().union(self.separator.parts()) }
    proof fn nlaw(&self) { self.production.nlaw(); self.separator.nlaw(); }
    proof fn laws(&self, e: Env<TP::Token>, m: Md, i: int) {
        self.production.laws(e, m, i);
        self.separator.laws(e, m, i);
        let r = self.production.sem(e, m, i);
        match r.out { Ok((j, ts)) => {
            lemma_sep(&*self.production, &*self.separator, self.inclusive, e, m, i, j, ts, r.reach);
        }, Err(_) => {} }
    }
@fn IProduction@SeparatedList::is_nullable
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m1(self.parts(), self.depth()))
@props C17
@proof start
    assert(self.production.parts().subset_of(self.parts()));
    assert(self.parts() == Set::<&'static str>::empty() ==> self.production.parts() =~= Set::<&'static str>::empty());
@fn IProduction@SeparatedList::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@proof start
    lemma_rank_sub(self.production.heads(), self.heads());
@fn IProduction@SeparatedList::obtain_nullability
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = om(visited.map().dom(), self.depth());
@fn IProduction@SeparatedList::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@ghostcall validate: = vf_w, Ghost(vf_me)
@ghostcall obtain_nullability: = vf_w, Ghost(vf_me)
@proof start
    let ghost vf_me = vm(connected_sets.map().dom(), vf_w.on(), self.depth());
@fn IProduction@SeparatedList::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@proof start
    lemma_rank_sub(self.production.heads(), self.heads());
    if self.production.null_s() { lemma_rank_sub(self.separator.heads(), self.heads()); }
@proof end
    assert(first_set.set() =~= old(first_set).set().union(self.first_s()));
@fn IProduction@SeparatedList::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::F), self.pure(), env(code, token_stream), Md::F, index.at(), self.stays(), self.depth()))
@props C06 ~C18 ~C09 ~C10 ~C15
@ghostcall consume: (env(code, token_stream), Md::F)
@closure 0
|x: FltrPtr, c: &mut Cache<FltrPtr, TP::Node>| -> (cr: ParsedResult<FltrPtr, TP::Node>)
    requires self.production.wf(Md::F), ppre(env(code, token_stream), Md::F, x.at(), *old(c)), x.at() >= index.at()
    ensures rv(cr) == self.production.sem(env(code, token_stream), Md::F, x.at()).out, ppost(self.production.sem(env(code, token_stream), Md::F, x.at()), env(code, token_stream), Md::F, *old(c), *final(c))
@proof closurestart 0
    lemma_srank_sub(self.production.stays(), self.stays());
@closure 1
|x: FltrPtr, c: &mut Cache<FltrPtr, TP::Node>| -> (cr: ParsedResult<FltrPtr, TP::Node>)
    requires self.separator.wf(Md::F), ppre(env(code, token_stream), Md::F, x.at(), *old(c)), x.at() > index.at() || (x.at() == index.at() && sep_first(self))
    ensures rv(cr) == self.separator.sem(env(code, token_stream), Md::F, x.at()).out, ppost(self.separator.sem(env(code, token_stream), Md::F, x.at()), env(code, token_stream), Md::F, *old(c), *final(c))
@proof closurestart 1
    if sep_first(self) { lemma_srank_sub(self.separator.stays(), self.stays()); }
@fn IProduction@SeparatedList::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::R), self.pure(), env(code, token_stream), Md::R, index.at(), self.stays(), self.depth()))
@props C06 ~C18 ~C09 ~C10 ~C15
@ghostcall consume: (env(code, token_stream), Md::R)
@closure 0
|x: TokenPtr, c: &mut Cache<FltrPtr, TP::Node>| -> (cr: ParsedResult<TokenPtr, TP::Node>)
    requires self.production.wf(Md::R), ppre(env(code, token_stream), Md::R, x.at(), *old(c)), x.at() >= index.at()
    ensures rv(cr) == self.production.sem(env(code, token_stream), Md::R, x.at()).out, ppost(self.production.sem(env(code, token_stream), Md::R, x.at()), env(code, token_stream), Md::R, *old(c), *final(c))
@proof closurestart 0
    lemma_srank_sub(self.production.stays(), self.stays());
@closure 1
|x: TokenPtr, c: &mut Cache<FltrPtr, TP::Node>| -> (cr: ParsedResult<TokenPtr, TP::Node>)
    requires self.separator.wf(Md::R), ppre(env(code, token_stream), Md::R, x.at(), *old(c)), x.at() > index.at() || (x.at() == index.at() && sep_first(self))
    ensures rv(cr) == self.separator.sem(env(code, token_stream), Md::R, x.at()).out, ppost(self.separator.sem(env(code, token_stream), Md::R, x.at()), env(code, token_stream), Md::R, *old(c), *final(c))
@proof closurestart 1
    if sep_first(self) { lemma_srank_sub(self.separator.stays(), self.stays()); }
@fn IProduction@SeparatedList::advance_ptr
@ghost vf_b: Ghost<Meas>
@ghostcall advance_fltr_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_token_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@ghostcall advance_ptr: = Ghost(ma(self.fwd(Md::L), self.pure(), lenv::<TP::Token>(code), Md::L, index.at(), self.stays(), self.depth()))
@props C06 ~C18 ~C09 ~C10 ~C15
@ghostcall consume: (lenv::<TP::Token>(code), Md::L)
@closure 0
|x: usize, c: &mut Cache<usize, TP::Node>| -> (cr: ParsedResult<usize, TP::Node>)
    requires self.production.wf(Md::L), ppre(lenv::<TP::Token>(code), Md::L, x.at(), *old(c)), x.at() >= index.at()
    ensures rv(cr) == self.production.sem(lenv::<TP::Token>(code), Md::L, x.at()).out, ppost(self.production.sem(lenv::<TP::Token>(code), Md::L, x.at()), lenv::<TP::Token>(code), Md::L, *old(c), *final(c))
@proof closurestart 0
    lemma_srank_sub(self.production.stays(), self.stays());
@closure 1
|x: usize, c: &mut Cache<usize, TP::Node>| -> (cr: ParsedResult<usize, TP::Node>)
    requires self.separator.wf(Md::L), ppre(lenv::<TP::Token>(code), Md::L, x.at(), *old(c)), x.at() > index.at() || (x.at() == index.at() && sep_first(self))
    ensures rv(cr) == self.separator.sem(lenv::<TP::Token>(code), Md::L, x.at()).out, ppost(self.separator.sem(lenv::<TP::Token>(code), Md::L, x.at()), lenv::<TP::Token>(code), Md::L, *old(c), *final(c))
@proof closurestart 1
    if sep_first(self) { lemma_srank_sub(self.separator.stays(), self.stays()); }
@close
