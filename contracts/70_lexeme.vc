@module lexeme
@modprops C04
@struct Pattern rr
@struct Punctuations rr str=bytes
@struct Constants rr str=bytes
@struct Mapper
@struct ThunkMapper
@struct Middleware
@struct StateMixin
@struct ThunkStateMixin
@enum Action derive=Clone,Copy
## ---------------------------------------------------------------- what every lexeme promises
@open pub trait ILexeme {
    type Token: Copy + PartialEq + Eq + VfOrd;
    type State: Copy + PartialEq + Eq + VfOrd;
    /// created as documented
    spec fn lwf(&self) -> bool;
    /// token yielded at byte p after the tokens `toks`, and the state stack left behind
    spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<Self::Token>>, stk: Seq<Self::State>) -> (Option<Lex<Self::Token>>, Seq<Self::State>);
    /// a token starts at the pointer, is not empty and ends inside the text
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<Self::Token>>, stk: Seq<Self::State>)
        requires self.lwf(), 0 <= p <= code.len() <= usize::MAX,
        ensures match self.lex(code, p, toks, stk).0 { Some(l) => l.start == p && l.start < l.end <= code.len(), None => true };
    fn consume(&self, code: &Code, pointer: usize, tokenized_stream: &Vec<Lex<Self::Token>>, state_stack: &mut Vec<Self::State>) -> (r: Option<Lex<Self::Token>>)
        requires self.lwf(), code.wf(), pointer <= code.value@.len(),
        ensures
            match r { Some(l) => l.start == pointer && l.start < l.end <= code.value@.len(), None => true }, // [C01.token]
            r == self.lex(code.value@, pointer as int, tokenized_stream@, old(state_stack)@).0,
            final(state_stack)@ == self.lex(code.value@, pointer as int, tokenized_stream@, old(state_stack)@).1;
@close
## dyn ILexeme
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(S)]
pub struct DynLex<T, S> { n: core::marker::PhantomData<(T, S)> }
pub uninterp spec fn dyn_lwf<T, S>(d: DynLex<T, S>) -> bool;
pub uninterp spec fn dyn_lex<T, S>(d: DynLex<T, S>, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>) -> (Option<Lex<T>>, Seq<S>);
impl<T: Copy + PartialEq + Eq + VfOrd, S: Copy + PartialEq + Eq + VfOrd> ILexeme for DynLex<T, S> {
    type Token = T;
    type State = S;
    open spec fn lwf(&self) -> bool { dyn_lwf(*self) }
    open spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>) -> (Option<Lex<T>>, Seq<S>) { dyn_lex(*self, code, p, toks, stk) }
    #[verifier::external_body]
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>) {}
    #[verifier::external_body]
    fn consume(&self, code: &Code, pointer: usize, tokenized_stream: &Vec<Lex<T>>, state_stack: &mut Vec<S>) -> (r: Option<Lex<T>>) { unimplemented!() }
}
pub proof fn lemma_text_len(v: &[u8]) ensures v@.len() <= usize::MAX { assert(v.len() == v@.len()); }
/// a token of n bytes at p
pub open spec fn tok_of<T>(t: T, p: int, n: int) -> Lex<T> { Lex { token: t, start: p as usize, end: (p + n) as usize } }
pub open spec fn hit_lex<T>(h: Option<(T, int)>, p: int) -> Option<Lex<T>> { match h { Some(x) => if x.1 > 0 { Some(tok_of(x.0, p, x.1)) } else { None }, None => None } }
pub open spec fn retoken<T>(l: Lex<T>, t: T) -> Lex<T> { Lex { token: t, start: l.start, end: l.end } }
pub proof fn lemma_lit_len<V>(fs: Seq<(Vec<u8>, V)>, code: Bytes, p: int)
    requires 0 <= p <= code.len(),
    ensures match lit_find(fs, code, p) { Some(h) => 0 <= h.1 <= code.len() - p, None => true },
{}

## ---------------------------------------------------------------- pattern
@open impl<TToken, TState> Pattern<TToken, TState> {
@fn Pattern::new
@ensures
    [C04.pattern] r is Ok ==> r->Ok_0.token == token && r->Ok_0.regexp.rx(Seq::empty()) is None,
@close
@open impl<TToken: Copy + PartialEq + Eq + VfOrd, TState: Copy + PartialEq + Eq + VfOrd> ILexeme for Pattern<TToken, TState> {
    type Token = TToken;
    type State = TState;
    open spec fn lwf(&self) -> bool { true }
    open spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<TToken>>, stk: Seq<TState>) -> (Option<Lex<TToken>>, Seq<TState>) {
        (hit_lex(match self.regexp.rx(code.subrange(p, code.len() as int)) { Some(n) => Some((self.token, n)), None => None }, p), stk)
    }
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<TToken>>, stk: Seq<TState>) {}
@fn ILexeme@Pattern::consume
@proof start
    lemma_text_len(code.value);
@close

## ---------------------------------------------------------------- constants
@open impl<TToken: Copy, TState> Constants<TToken, TState> {
@fn Constants::new
@opt str=bytes
@opt bs.0=(&[u8], TToken)
@opt rty.0=Vec<(Vec<u8>, TToken)>
@opt bsk.0=usize
@ensures
    [C04.const_new] uniq_strs(fields@) ==> lits_ok(r.values@),
    [C04.const_new] forall|w: Bytes, n: TToken| #[trigger] has_lit(r.values@, w, n) <==> has_str(fields@, w, n),
@proof start
    let ghost vs0 = fields@;
@loop 0
    invariant
        vf_s0@ == fields@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < vf_i0 ==> (#[trigger] vf_r0@[k]).0@ == fields@[k].0@ && vf_r0@[k].1 == fields@[k].1,
    decreases vf_s0@.len() - vf_i0
@proof loopafter 0
    lemma_sorted_lits(vs0, fields@, vf_r0@);
@close
@open impl<TToken: Copy + PartialEq + Eq + VfOrd, TState: Copy + PartialEq + Eq + VfOrd> ILexeme for Constants<TToken, TState> {
    type Token = TToken;
    type State = TState;
    open spec fn lwf(&self) -> bool { lits_ok(self.values@) }
    open spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<TToken>>, stk: Seq<TState>) -> (Option<Lex<TToken>>, Seq<TState>) {
        (hit_lex(lit_find(self.values@, code, p), p), stk)
    }
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<TToken>>, stk: Seq<TState>) { lemma_lit_len(self.values@, code, p); }
@fn ILexeme@Constants::consume
@proof start
    lemma_text_len(code.value);
@loop 0
    invariant
        self.lwf(), pointer <= code.value@.len() <= usize::MAX,
        vf_s0@ == self.values@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(),
        match vf_r0 {
            Some(l) => hit_lex(lit_find(self.values@, code.value@, pointer as int), pointer as int) == Some(l),
            None => forall|q: int| vf_s0@.len() - vf_i0 <= q < vf_s0@.len() ==> !occurs(code.value@, pointer as int, (#[trigger] self.values@[q]).0@) || self.values@[q].0@.len() == 0,
        },
    decreases vf_s0@.len() - vf_i0
@proof loopafter 0
    if vf_r0 is None { lemma_only_empty(self.values@, code.value@, pointer as int); }
@proof afterlet lex
    lemma_scan2(self.values@, code.value@, pointer as int, vf_s0@.len() - vf_i0);
@close
/// scanning from the longest constant down past those that are empty or do not occur
pub proof fn lemma_scan2<V>(fs: Seq<(Vec<u8>, V)>, code: Bytes, i: int, k: int)
    requires lits_ok(fs), 0 <= k < fs.len(), occurs(code, i, fs[k].0@), fs[k].0@.len() > 0, forall|q: int| k < q < fs.len() ==> !occurs(code, i, (#[trigger] fs[q]).0@) || fs[q].0@.len() == 0,
    ensures lit_find(fs, code, i) == Some((fs[k].1, fs[k].0@.len() as int)),
{
    assert forall|q: int| 0 <= q < fs.len() && occurs(code, i, (#[trigger] fs[q]).0@) implies fs[q].0@.len() <= fs[k].0@.len() by {
        if q < k { let kf = |p: &(Vec<u8>, V)| p.0.len(); assert(!<usize as VfOrd>::lt(kf(&fs[k]), kf(&fs[q]))); }
    }
    lemma_longest(fs, code, i, k);
}
pub proof fn lemma_only_empty<V>(fs: Seq<(Vec<u8>, V)>, code: Bytes, i: int)
    requires forall|q: int| 0 <= q < fs.len() ==> !occurs(code, i, (#[trigger] fs[q]).0@) || fs[q].0@.len() == 0,
    ensures match lit_find(fs, code, i) { Some(h) => h.1 == 0, None => true },
{
    if lit_find(fs, code, i) is Some { let k = choose|k: int| longest(fs, code, i, k); assert(occurs(code, i, fs[k].0@)); }
}
/// literals sorted by length
pub proof fn lemma_sorted_lits<V>(a: Seq<(&[u8], V)>, b: Seq<(&[u8], V)>, c: Seq<(Vec<u8>, V)>)
    requires
        permuted(a, b), wsorted_by(b, |s: &(&[u8], V)| s.0.len()),
        forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]), forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]),
        c.len() == b.len(), forall|k: int| 0 <= k < b.len() ==> (#[trigger] c[k]).0@ == b[k].0@ && c[k].1 == b[k].1,
    ensures
        uniq_strs(a) ==> lits_ok(c),
        forall|w: Bytes, n: V| #[trigger] has_lit(c, w, n) <==> has_str(a, w, n),
{
    if uniq_strs(a) {
        let f = |p: (&[u8], V)| p.0@;
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies f(#[trigger] a[i]) != f(#[trigger] a[j]) by { assert(a[i].0@ != a[j].0@); }
        lemma_perm_uniq(a, b, f);
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0@ != (#[trigger] c[j]).0@ by { assert(f(b[i]) != f(b[j])); }
        let kf = |s: &(&[u8], V)| s.0.len();
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies !((#[trigger] c[j]).0@.len() < (#[trigger] c[i]).0@.len()) by { assert(!<usize as VfOrd>::lt(kf(&b[j]), kf(&b[i]))); }
    }
    assert forall|w: Bytes, n: V| #[trigger] has_lit(c, w, n) <==> has_str(a, w, n) by {
        if has_lit(c, w, n) { let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).0@ == w && c[k].1 == n; assert(a.contains(b[k])); }
        if has_str(a, w, n) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0@ == w && a[k].1 == n; assert(b.contains(a[k])); let q = choose|q: int| 0 <= q < b.len() && b[q] == a[k]; assert(c[q].0@ == w); }
    }
}

## ---------------------------------------------------------------- punctuations
/// the tree holds exactly these strings
pub open spec fn tree_strs<V>(t: FieldTree<V>, vs: Seq<(&[u8], V)>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < n ==> ft_get(t, (#[trigger] vs[k]).0@) == Some(vs[k].1)
    &&& forall|w: Bytes| (#[trigger] ft_get(t, w)) is Some ==> exists|k: int| 0 <= k < n && (#[trigger] vs[k]).0@ == w
    &&& forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] vs[i]).0@ != (#[trigger] vs[j]).0@
}
@open impl<TToken: Copy, TState> Punctuations<TToken, TState> {
@fn Punctuations::new
@props C03 ~C04
@opt str=bytes
@opt bs.0=(&[u8], TToken)
@opt rty.0=Vec<(Vec<u8>, TToken)>
@opt bsk.0=usize
@ensures
    [C03.punct_new] r is Ok <==> uniq_strs(fields@),
    [C03.punct_new] r is Ok ==> lits_ok(r->Ok_0.punctuations@) && ft_wf(r->Ok_0.field_tree) && tree_of(r->Ok_0.field_tree, r->Ok_0.punctuations@),
    [C03.punct_new] forall|w: Bytes, n: TToken| r is Ok ==> (#[trigger] has_lit(r->Ok_0.punctuations@, w, n) <==> has_str(fields@, w, n)),
@proof start
    let ghost vs0 = fields@;
@loop 0
    invariant
        vf_s0@ == fields@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < vf_i0 ==> (#[trigger] vf_r0@[k]).0@ == fields@[k].0@ && vf_r0@[k].1 == fields@[k].1,
    decreases vf_s0@.len() - vf_i0
@proof loopafter 0
    lemma_sorted_lits(vs0, fields@, vf_r0@);
@proof afterlet lexer
    let ghost vs1 = fields@;
    let ghost ps = lexer.punctuations@;
    assert(uniq_strs(vs0) <==> uniq_strs(vs1)) by { lemma_perm_strs(vs0, vs1); }
@proof end
    assert(lexer.punctuations@ == ps);
    lemma_tree_strs(lexer.field_tree, vs1, ps);
@fn Punctuations::add
@props C03
@opt str=bytes
@opt loopkind.0=into_iter
@requires
    ft_wf(old(self).field_tree), forall|w: Bytes| (#[trigger] ft_get(old(self).field_tree, w)) is None,
@ensures
    [C03.add] r is Ok <==> uniq_strs(fields@),
    [C03.add] r is Ok ==> ft_wf(final(self).field_tree) && tree_strs(final(self).field_tree, fields@, fields@.len() as int),
    final(self).punctuations == old(self).punctuations,
@loop 0
    invariant
        vf_s0@ == fields@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(), ft_wf(self.field_tree), tree_strs(self.field_tree, fields@, vf_i0 as int),
        self.punctuations == old(self).punctuations,
    decreases vf_s0@.len() - vf_i0
@close
pub proof fn lemma_perm_strs<V>(a: Seq<(&[u8], V)>, b: Seq<(&[u8], V)>)
    requires permuted(a, b), forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]),
    ensures uniq_strs(a) <==> uniq_strs(b),
{
    let f = |p: (&[u8], V)| p.0@;
    if uniq_strs(a) {
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies f(#[trigger] a[i]) != f(#[trigger] a[j]) by { assert(a[i].0@ != a[j].0@); }
        lemma_perm_uniq(a, b, f);
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0@ != (#[trigger] b[j]).0@ by { assert(f(b[i]) != f(b[j])); }
    }
    if uniq_strs(b) {
        lemma_perm_inv(a, b);
        assert forall|i: int, j: int| 0 <= i < j < b.len() implies f(#[trigger] b[i]) != f(#[trigger] b[j]) by { assert(b[i].0@ != b[j].0@); }
        lemma_perm_uniq(b, a, f);
        assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0@ != (#[trigger] a[j]).0@ by { assert(f(a[i]) != f(a[j])); }
    }
}
/// a rearrangement can be undone
pub proof fn lemma_perm_inv<T>(a: Seq<T>, b: Seq<T>)
    requires permuted(a, b),
    ensures permuted(b, a),
{
    let p = choose|p: Seq<int>| #![trigger p.len()] p.len() == a.len()
        && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]);
    let n = a.len() as int;
    lemma_onto(p, n);
    let q = Seq::new(a.len(), |i: int| choose|j: int| 0 <= j < n && p[j] == i);
    assert forall|i: int| 0 <= i < q.len() implies 0 <= #[trigger] q[i] < b.len() && p[q[i]] == i && a[i] == b[q[i]] by { assert(p.contains(i)); }
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies #[trigger] q[i] != #[trigger] q[j] by { assert(p[q[i]] == i && p[q[j]] == j); }
    assert(q.len() == b.len());
}
/// an injection of 0..n into itself is onto
pub proof fn lemma_onto(p: Seq<int>, n: int)
    requires p.len() == n, forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n, forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j],
    ensures forall|v: int| 0 <= v < n ==> #[trigger] p.contains(v),
{
    let s = p.to_set();
    let full = vstd::set_lib::set_int_range(0, n);
    assert(p.no_duplicates());
    p.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    assert(s.subset_of(full)) by { assert forall|v: int| s.contains(v) implies full.contains(v) by { let k = choose|k: int| 0 <= k < p.len() && p[k] == v; } }
    vstd::set_lib::lemma_subset_equality(s, full);
    assert forall|v: int| 0 <= v < n implies #[trigger] p.contains(v) by { assert(full.contains(v)); assert(s.contains(v)); }
}
pub proof fn lemma_tree_strs<V>(t: FieldTree<V>, vs: Seq<(&[u8], V)>, ps: Seq<(Vec<u8>, V)>)
    requires tree_strs(t, vs, vs.len() as int), ps.len() == vs.len(), forall|k: int| 0 <= k < vs.len() ==> (#[trigger] ps[k]).0@ == vs[k].0@ && ps[k].1 == vs[k].1,
    ensures tree_of(t, ps),
{
    assert forall|k: int| 0 <= k < ps.len() implies ft_get(t, (#[trigger] ps[k]).0@) == Some(ps[k].1) by { assert(ft_get(t, vs[k].0@) == Some(vs[k].1)); }
    assert forall|w: Bytes| (#[trigger] ft_get(t, w)) is Some implies exists|k: int| 0 <= k < ps.len() && (#[trigger] ps[k]).0@ == w by {
        let k = choose|k: int| 0 <= k < vs.len() && (#[trigger] vs[k]).0@ == w;
        assert(ps[k].0@ == w);
    }
}
@open impl<TToken: Copy + PartialEq + Eq + VfOrd, TState: Copy + PartialEq + Eq + VfOrd> ILexeme for Punctuations<TToken, TState> {
    type Token = TToken;
    type State = TState;
    open spec fn lwf(&self) -> bool {
        lits_ok(self.punctuations@) && ft_wf(self.field_tree) && tree_of(self.field_tree, self.punctuations@) && ft_get(self.field_tree, Seq::empty()) is None
    }
    open spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<TToken>>, stk: Seq<TState>) -> (Option<Lex<TToken>>, Seq<TState>) {
        (hit_lex(lit_find(self.punctuations@, code, p), p), stk)
    }
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<TToken>>, stk: Seq<TState>) { lemma_lit_len(self.punctuations@, code, p); }
@fn ILexeme@Punctuations::consume
@props C03 ~C04
@proof start
    lemma_text_len(code.value);
    lemma_tree_find(self.field_tree, self.punctuations@, code.value@, pointer as int);
    assert(code.value@.subrange(pointer as int, code.value@.len() as int).subrange(0, 0) =~= Seq::<u8>::empty());
@close

## ---------------------------------------------------------------- keyword map
/// the text of a token
pub open spec fn text_of<T>(code: Bytes, l: Lex<T>) -> Bytes { code.subrange(l.start as int, l.end as int) }
/// token registered for each string
pub open spec fn map_of<V>(m: Map<Bytes, V>, vs: Seq<(&[u8], V)>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < n ==> m.contains_key((#[trigger] vs[k]).0@) && m[vs[k].0@] == vs[k].1
    &&& forall|w: Bytes| #[trigger] m.contains_key(w) ==> exists|k: int| 0 <= k < n && (#[trigger] vs[k]).0@ == w
    &&& forall|i: int, j: int| 0 <= i < j < n ==> (#[trigger] vs[i]).0@ != (#[trigger] vs[j]).0@
}
@open impl<TS: ILexeme> Mapper<TS> {
@fn Mapper::new
@opt str=bytes
@rewrite VfMap :: new ==>> VfBMap :: new
@ensures
    [C04.map_new] r is Ok <==> uniq_strs(fields@),
    [C04.map_new] r is Ok ==> r->Ok_0.lexeme == lexeme && map_of(r->Ok_0.fields.map(), fields@, fields@.len() as int),
@fn Mapper::extend_fields
@opt str=bytes
@opt loopkind.0=into_iter
@requires
    forall|w: Bytes| !(#[trigger] old(self).fields.map().contains_key(w)),
@ensures
    [C04.map_new] r is Ok <==> uniq_strs(fields@),
    [C04.map_new] r is Ok ==> map_of(final(self).fields.map(), fields@, fields@.len() as int),
    final(self).lexeme == old(self).lexeme,
@loop 0
    invariant
        vf_s0@ == fields@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(), map_of(self.fields.map(), fields@, vf_i0 as int),
        self.lexeme == old(self).lexeme,
    decreases vf_s0@.len() - vf_i0
@close
@open impl<TLexer: ILexeme> ILexeme for Mapper<TLexer> {
    type Token = TLexer::Token;
    type State = TLexer::State;
    open spec fn lwf(&self) -> bool { self.lexeme.lwf() }
    open spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<TLexer::Token>>, stk: Seq<TLexer::State>) -> (Option<Lex<TLexer::Token>>, Seq<TLexer::State>) {
        let r = self.lexeme.lex(code, p, toks, stk);
        (match r.0 { Some(l) => Some(if self.fields.map().contains_key(text_of(code, l)) { retoken(l, self.fields.map()[text_of(code, l)]) } else { l }), None => None }, r.1)
    }
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<TLexer::Token>>, stk: Seq<TLexer::State>) { self.lexeme.lex_laws(code, p, toks, stk); }
@fn ILexeme@Mapper::consume
@proof start
    lemma_text_len(code.value);
    self.lexeme.lex_laws(code.value@, pointer as int, tokenized_stream@, info@);
@close

## ---------------------------------------------------------------- thunk around a token
/// what a user function answers (assumption: it answers on every input, and always the same)
pub uninterp spec fn thunk_s<F, T>(f: F, l: Lex<T>, code: Bytes, toks: Seq<Lex<T>>) -> Option<T>;
pub open spec fn thunk_ok<T, F: Fn(&Lex<T>, &[u8], &Vec<Lex<T>>) -> Option<T>>(f: F) -> bool {
    &&& forall|l: &Lex<T>, c: &[u8], v: &Vec<Lex<T>>| #[trigger] f.requires((l, c, v))
    &&& forall|l: &Lex<T>, c: &[u8], v: &Vec<Lex<T>>, r: Option<T>| #[trigger] f.ensures((l, c, v), r) ==> r == thunk_s(f, *l, c@, v@)
}
@open impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Option<TL::Token>> ThunkMapper<TL, TF> {
@fn ThunkMapper::new
@ensures
    [C04.thunk_new] r.lexeme == lexeme && r.thunk == thunk,
@close
@open impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Option<TL::Token>> ILexeme for ThunkMapper<TL, TF> {
    type Token = TL::Token;
    type State = TL::State;
    open spec fn lwf(&self) -> bool { self.lexeme.lwf() && thunk_ok(self.thunk) }
    open spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<TL::Token>>, stk: Seq<TL::State>) -> (Option<Lex<TL::Token>>, Seq<TL::State>) {
        let r = self.lexeme.lex(code, p, toks, stk);
        (match r.0 { Some(l) => Some(match thunk_s(self.thunk, l, code, toks) { Some(t) => retoken(l, t), None => l }), None => None }, r.1)
    }
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<TL::Token>>, stk: Seq<TL::State>) { self.lexeme.lex_laws(code, p, toks, stk); }
@fn ILexeme@ThunkMapper::consume
@close

## ---------------------------------------------------------------- guard
pub uninterp spec fn guard_s<F, T>(f: F, code: Bytes, toks: Seq<Lex<T>>) -> bool;
pub open spec fn guard_ok<T, F: Fn(&[u8], &Vec<Lex<T>>) -> bool>(f: F) -> bool {
    &&& forall|c: &[u8], v: &Vec<Lex<T>>| #[trigger] f.requires((c, v))
    &&& forall|c: &[u8], v: &Vec<Lex<T>>, r: bool| #[trigger] f.ensures((c, v), r) ==> r == guard_s(f, c@, v@)
}
@open impl<TS: ILexeme, TMiddleware: Fn(&[u8], &Vec<Lex<TS::Token>>) -> bool> Middleware<TS, TMiddleware> {
@fn Middleware::new
@ensures
    [C04.guard_new] r.lexeme == lexeme && r.middleware == middleware,
@close
@open impl<TL: ILexeme, TMiddleware: Fn(&[u8], &Vec<Lex<TL::Token>>) -> bool> ILexeme for Middleware<TL, TMiddleware> {
    type Token = TL::Token;
    type State = TL::State;
    open spec fn lwf(&self) -> bool { self.lexeme.lwf() && guard_ok(self.middleware) }
    open spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<TL::Token>>, stk: Seq<TL::State>) -> (Option<Lex<TL::Token>>, Seq<TL::State>) {
        if guard_s(self.middleware, code, toks) { self.lexeme.lex(code, p, toks, stk) } else { (None, stk) }
    }
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<TL::Token>>, stk: Seq<TL::State>) { self.lexeme.lex_laws(code, p, toks, stk); }
@fn ILexeme@Middleware::consume
@close

## ---------------------------------------------------------------- state actions
pub open spec fn act_stack<S>(a: Action<S>, stk: Seq<S>) -> Seq<S> {
    match a {
        Action::Pop { discard } => stk.drop_last(),
        Action::Append { state, discard } => stk.push(state),
        Action::Switch { state, discard } => if stk.len() > 0 { stk.update(stk.len() - 1, state) } else { stk.push(state) },
        Action::None { discard } => stk,
    }
}
pub open spec fn act_discards<S>(a: Action<S>) -> bool {
    match a { Action::Pop { discard } => discard, Action::Append { state, discard } => discard, Action::Switch { state, discard } => discard, Action::None { discard } => discard }
}
pub open spec fn act_lex<T, S>(l: Lex<T>, a: Action<S>, stk: Seq<S>) -> (Option<Lex<T>>, Seq<S>) { (if act_discards(a) { None } else { Some(l) }, act_stack(a, stk)) }
@open impl<T> Action<T> {
@fn Default@Action::default
@props C02
@ensures
    [C02.action] r == (Action::<T>::None { discard: false }),
@fn Action::remove
@props C02
@ensures
    [C02.action] r == (Action::Pop { discard }),
@fn Action::append
@props C02
@ensures
    [C02.action] r == (Action::Append { state, discard }),
@fn Action::switch
@props C02
@ensures
    [C02.action] r == (Action::Switch { state, discard }),
@close
@fn perform_state_action
@props C02
@opt panic.0=old(state_stack)@.len() == 0
@ensures
    [C02.action] (r, final(state_stack)@) == act_lex(lexical_data, action, old(state_stack)@),
@open impl<TL: ILexeme> StateMixin<TL> {
@fn StateMixin::new
@props C02
@opt bs.0=(TL::Token, Action<TL::State>)
@opt bsk.0=TL::Token
@requires
    ord_ok::<TL::Token>(),
@ensures
    [C02.mixin_new] r.lexeme == lexeme,
    [C02.mixin_new] uniq_keys(actions@) ==> acts_ok(r.actions@) && forall|t: TL::Token| #[trigger] set_find(r.actions@, t) == set_find(actions@, t),
@proof start
    let ghost a0 = actions@;
@proof end
    if uniq_keys(a0) { lemma_perm_find(a0, actions@); lemma_strict(actions@); }
@close
pub open spec fn acts_ok<T: VfOrd, S>(s: Seq<(T, Action<S>)>) -> bool { ord_ok::<T>() && sorted_by(s, |p: &(T, Action<S>)| p.0) }
@open impl<TL: ILexeme> ILexeme for StateMixin<TL> {
    type Token = TL::Token;
    type State = TL::State;
    open spec fn lwf(&self) -> bool { self.lexeme.lwf() && acts_ok(self.actions@) }
    open spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<TL::Token>>, stk: Seq<TL::State>) -> (Option<Lex<TL::Token>>, Seq<TL::State>) {
        let r = self.lexeme.lex(code, p, toks, stk);
        match r.0 {
            Some(l) => match set_find(self.actions@, l.token) { Some(a) => act_lex(l, a, r.1), None => r },
            None => r,
        }
    }
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<TL::Token>>, stk: Seq<TL::State>) { self.lexeme.lex_laws(code, p, toks, stk); }
@fn ILexeme@StateMixin::consume
@props C02
@opt bs.0=(TL::Token, Action<TL::State>)
@opt bsk.0=TL::Token
@proof start
    lemma_uniq(self.actions@);
@close
pub uninterp spec fn action_s<F, T, S>(f: F, l: Lex<T>, code: Bytes, toks: Seq<Lex<T>>) -> Action<S>;
pub open spec fn action_ok<T, S, F: Fn(&Lex<T>, &[u8], &Vec<Lex<T>>) -> Action<S>>(f: F) -> bool {
    &&& forall|l: &Lex<T>, c: &[u8], v: &Vec<Lex<T>>| #[trigger] f.requires((l, c, v))
    &&& forall|l: &Lex<T>, c: &[u8], v: &Vec<Lex<T>>, r: Action<S>| #[trigger] f.ensures((l, c, v), r) ==> r == action_s::<F, T, S>(f, *l, c@, v@)
}
@open impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Action<TL::State>> ThunkStateMixin<TL, TF> {
@fn ThunkStateMixin::new
@props C02
@ensures
    [C02.mixin_new] r.lexeme == lexeme && r.thunk_action == thunk_action,
@close
@open impl<TL: ILexeme, TF: Fn(&Lex<TL::Token>, &[u8], &Vec<Lex<TL::Token>>) -> Action<TL::State>> ILexeme for ThunkStateMixin<TL, TF> {
    type Token = TL::Token;
    type State = TL::State;
    open spec fn lwf(&self) -> bool { self.lexeme.lwf() && action_ok(self.thunk_action) }
    open spec fn lex(&self, code: Bytes, p: int, toks: Seq<Lex<TL::Token>>, stk: Seq<TL::State>) -> (Option<Lex<TL::Token>>, Seq<TL::State>) {
        let r = self.lexeme.lex(code, p, toks, stk);
        match r.0 { Some(l) => act_lex(l, action_s::<TF, TL::Token, TL::State>(self.thunk_action, l, code, toks), r.1), None => r }
    }
    proof fn lex_laws(&self, code: Bytes, p: int, toks: Seq<Lex<TL::Token>>, stk: Seq<TL::State>) { self.lexeme.lex_laws(code, p, toks, stk); }
@fn ILexeme@ThunkStateMixin::consume
@props C02
@close
## ---------------------------------------------------------------- the builder methods
@open pub trait LexemeBuilder: ILexeme + Sized {
    fn mapping(self, fields: Vec<(&[u8], Self::Token)>) -> (r: Result<Mapper<Self>, String>)
        ensures
            r is Ok <==> uniq_strs(fields@),
            r is Ok ==> r->Ok_0.lexeme == self && map_of(r->Ok_0.fields.map(), fields@, fields@.len() as int);
    fn state_mixin(self, actions: Vec<(Self::Token, Action<Self::State>)>) -> (r: StateMixin<Self>)
        requires ord_ok::<Self::Token>(),
        ensures r.lexeme == self && (uniq_keys(actions@) ==> acts_ok(r.actions@) && forall|t: Self::Token| #[trigger] set_find(r.actions@, t) == set_find(actions@, t));
    fn middleware<TM: Fn(&[u8], &Vec<Lex<Self::Token>>) -> bool>(self, middleware: TM) -> (r: Middleware<Self, TM>)
        ensures r.lexeme == self && r.middleware == middleware;
    fn thunk_mixin<TM: Fn(&Lex<Self::Token>, &[u8], &Vec<Lex<Self::Token>>) -> Action<Self::State>>(self, thunk: TM) -> (r: ThunkStateMixin<Self, TM>)
        ensures r.lexeme == self && r.thunk_action == thunk;
    fn thunk_mapping<TF: Fn(&Lex<Self::Token>, &[u8], &Vec<Lex<Self::Token>>) -> Option<Self::Token>>(self, thunk: TF) -> (r: ThunkMapper<Self, TF>)
        ensures r.lexeme == self && r.thunk == thunk;
@close
@open impl<T: ILexeme> LexemeBuilder for T {
@fn LexemeBuilder@T::mapping
@opt str=bytes
@fn LexemeBuilder@T::state_mixin
@props C02
@fn LexemeBuilder@T::middleware
@fn LexemeBuilder@T::thunk_mixin
@props C02
@fn LexemeBuilder@T::thunk_mapping
@close
