@module tokenizers
@modprops C01
broadcast use lemma_first_lex;
@struct Tokenizer rr
@struct CombinedTokenizer rr
/// tokens are not empty, in order and contiguous, from the first byte to the last, then one end-of-file token
pub open spec fn tiles<T: TokenImpl>(code: Bytes, ts: Seq<Lex<T>>) -> bool {
    let n = ts.len();
    &&& n > 1
    &&& ts[0].start == 0
    &&& forall|k: int| 0 <= k < n - 1 ==> (#[trigger] ts[k]).start < ts[k].end && ts[k].token != T::eof_s() && ts[k].end <= code.len()
    &&& forall|k: int, q: int| 0 <= k < n - 1 && q == k + 1 ==> (#[trigger] ts[q]).start == (#[trigger] ts[k]).end
    &&& ts[n - 1].token == T::eof_s() && ts[n - 1].start == code.len() && ts[n - 1].end == code.len()
}
/// ... up to byte p
pub open spec fn tiled<T: TokenImpl>(code: Bytes, ts: Seq<Lex<T>>, p: int) -> bool {
    let n = ts.len();
    &&& 0 <= p <= code.len()
    &&& (if n == 0 { p == 0 } else { p > 0 && ts[0].start == 0 && ts[n - 1].end == p })
    &&& forall|k: int| 0 <= k < n ==> (#[trigger] ts[k]).start < ts[k].end && ts[k].token != T::eof_s() && ts[k].end <= code.len()
    &&& forall|k: int, q: int| 0 <= k < n - 1 && q == k + 1 ==> (#[trigger] ts[q]).start == (#[trigger] ts[k]).end
}
pub open spec fn eof_at<T: TokenImpl>(code: Bytes) -> Lex<T> { Lex { token: T::eof_s(), start: code.len() as usize, end: code.len() as usize } }
/// what a tokenizer promises
@open pub trait ITokenization {
    type Token: TokenImpl;
    /// created as documented
    spec fn twf(&self) -> bool;
    /// the tokens of a text, or the position where tokenizing it fails
    spec fn tks(&self, code: Bytes) -> Result<Seq<Lex<Self::Token>>, int>;
    proof fn tok_laws(&self, code: Bytes)
        requires self.twf(), code.len() <= usize::MAX,
        ensures match self.tks(code) { Ok(ts) => tiles(code, ts), Err(p) => 0 <= p <= code.len() };
    fn tokenize(&self, code: &Code) -> (r: Result<Vec<Lex<Self::Token>>, ParseError>)
        requires self.twf(), code.wf(),
        ensures match r { Ok(v) => self.tks(code.value@) == Ok::<Seq<Lex<Self::Token>>, int>(v@), Err(e) => self.tks(code.value@) == Err::<Seq<Lex<Self::Token>>, int>(e.pointer as int) };
@close
## dyn ITokenization
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct DynTok<T> { n: core::marker::PhantomData<T> }
pub uninterp spec fn dyn_twf<T>(d: DynTok<T>) -> bool;
pub uninterp spec fn dyn_tks<T>(d: DynTok<T>, code: Bytes) -> Result<Seq<Lex<T>>, int>;
impl<T: TokenImpl> ITokenization for DynTok<T> {
    type Token = T;
    open spec fn twf(&self) -> bool { dyn_twf(*self) }
    open spec fn tks(&self, code: Bytes) -> Result<Seq<Lex<T>>, int> { dyn_tks(*self, code) }
    #[verifier::external_body]
    proof fn tok_laws(&self, code: Bytes) {}
    #[verifier::external_body]
    fn tokenize(&self, code: &Code) -> (r: Result<Vec<Lex<T>>, ParseError>) { unimplemented!() }
}
## ---------------------------------------------------------------- the single-state tokenizer
pub open spec fn run<T: TokenImpl, S: Copy + PartialEq + Eq + VfOrd>(ls: Seq<Rc<DynLex<T, S>>>, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>) -> Result<Seq<Lex<T>>, int> decreases code.len() - p {
    let r = first_lex(ls, 0, code, p, toks, stk);
    match r.0 {
        Some(l) => if l.end == code.len() { Ok(toks.push(l).push(eof_at(code))) } else if p < l.end < code.len() { run(ls, code, l.end as int, toks.push(l), r.1) } else { Err(p) },
        None => Err(p),
    }
}
pub proof fn lemma_run<T: TokenImpl, S: Copy + PartialEq + Eq + VfOrd>(ls: Seq<Rc<DynLex<T, S>>>, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>)
    requires lexers_ok(ls), tiled(code, toks, p), code.len() <= usize::MAX,
    ensures match run(ls, code, p, toks, stk) { Ok(ts) => tiles(code, ts), Err(q) => 0 <= q <= code.len() },
    decreases code.len() - p
{
    let r = first_lex(ls, 0, code, p, toks, stk);
    if r.0 is Some {
        let l = r.0->Some_0;
        lemma_tiled(code, toks, p, l);
        if l.end < code.len() { lemma_run(ls, code, l.end as int, toks.push(l), r.1); }
    }
}
pub proof fn lemma_tiled<T: TokenImpl>(code: Bytes, toks: Seq<Lex<T>>, p: int, l: Lex<T>)
    requires tiled(code, toks, p), l.start == p, l.start < l.end <= code.len() <= usize::MAX, l.token != T::eof_s(),
    ensures tiled(code, toks.push(l), l.end as int), l.end == code.len() ==> tiles(code, toks.push(l).push(eof_at(code))),
{}
@open impl<TToken> Tokenizer<TToken, u8> {
@fn Tokenizer::new
@ensures
    r.lexers == lexers,
@close
@open impl<TToken: TokenImpl, TState: Copy + PartialEq + Eq + VfOrd> ITokenization for Tokenizer<TToken, TState> {
    type Token = TToken;
    open spec fn twf(&self) -> bool { lexers_ok(self.lexers@) }
    open spec fn tks(&self, code: Bytes) -> Result<Seq<Lex<TToken>>, int> { run(self.lexers@, code, 0, Seq::empty(), Seq::empty()) }
    proof fn tok_laws(&self, code: Bytes) { lemma_run(self.lexers@, code, 0, Seq::empty(), Seq::empty()); }
@fn ITokenization@Tokenizer::tokenize
@props C01 C02
@loop 0
    invariant
        self.twf(), code.wf(), tiled(code.value@, tokenized_stream@, pointer as int), eof_pointer == code.value@.len(),
        self.tks(code.value@) == run(self.lexers@, code.value@, pointer as int, tokenized_stream@, state_stack@),
    decreases eof_pointer - pointer
@proof loopstart 0
    let ghost stk0 = state_stack@;
    let ghost toks0 = tokenized_stream@;
    let ghost p0 = pointer as int;
@loop 1
    invariant
        self.twf(), code.wf(), pointer <= code.value@.len(), vf_s1@ == self.lexers@, vf_s1@.len() <= isize::MAX, 0 <= vf_i1 <= vf_s1@.len(), lexers_ok(vf_s1@),
        first_lex(vf_s1@, 0, code.value@, pointer as int, tokenized_stream@, stk0)
            == (if vf_r1 is Some { (vf_r1, state_stack@) } else { first_lex(vf_s1@, vf_i1 as int, code.value@, pointer as int, tokenized_stream@, state_stack@) }),
    decreases vf_s1@.len() - vf_i1
@close
## ---------------------------------------------------------------- the multi-state tokenizer
/// the active state: top of the stack, or the default
pub open spec fn top_of<S>(stk: Seq<S>, d: S) -> S { if stk.len() > 0 { stk.last() } else { d } }
/// a state that is not registered aborts the run: nothing is said about it (the function does not return)
pub open spec fn run2<T: TokenImpl, S: Copy + PartialEq + Eq + VfOrd>(an: Seq<(S, Vec<Rc<DynLex<T, S>>>)>, d: S, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>) -> Result<Seq<Lex<T>>, int> decreases code.len() - p {
    match set_find(an, top_of(stk, d)) {
        Some(ls) => {
            let r = first_lex(ls@, 0, code, p, toks, stk);
            match r.0 {
                Some(l) => if l.end == code.len() { Ok(toks.push(l).push(eof_at(code))) } else if p < l.end < code.len() { run2(an, d, code, l.end as int, toks.push(l), r.1) } else { Err(p) },
                None => Err(p),
            }
        }
        None => Err(p),
    }
}
pub open spec fn states_ok<T: TokenImpl, S: Copy + PartialEq + Eq + VfOrd>(an: Seq<(S, Vec<Rc<DynLex<T, S>>>)>) -> bool {
    &&& ord_ok::<S>() && eq_ok::<S>()
    &&& sorted_by(an, |a: &(S, Vec<Rc<DynLex<T, S>>>)| a.0)
    &&& forall|k: int| 0 <= k < an.len() ==> lexers_ok((#[trigger] an[k]).1@)
}
pub proof fn lemma_run2<T: TokenImpl, S: Copy + PartialEq + Eq + VfOrd>(an: Seq<(S, Vec<Rc<DynLex<T, S>>>)>, d: S, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>)
    requires states_ok(an), tiled(code, toks, p), code.len() <= usize::MAX,
    ensures match run2(an, d, code, p, toks, stk) { Ok(ts) => tiles(code, ts), Err(q) => 0 <= q <= code.len() },
    decreases code.len() - p
{
    let s = set_find(an, top_of(stk, d));
    if s is Some {
        let r = first_lex(s->Some_0@, 0, code, p, toks, stk);
        if r.0 is Some {
            let l = r.0->Some_0;
            assert(lexers_ok(s->Some_0@));
            lemma_tiled(code, toks, p, l);
            if l.end < code.len() { lemma_run2(an, d, code, l.end as int, toks.push(l), r.1); }
        }
    }
}
@open impl<TT, TS: Copy + PartialEq + Eq + VfOrd> CombinedTokenizer<TT, TS> {
@fn CombinedTokenizer::new
@props C02
@ensures
    [C02.states] r.default_state == default_state && r.analyzers@ == seq![(default_state, lexemes)],
@fn CombinedTokenizer::add_state
@props C02
@opt bs.0=(TS, Vec<Rc<DynLex<TT, TS>>>)
@opt bsk.0=TS
@requires
    ord_ok::<TS>(), sorted_by(old(self).analyzers@, |a: &(TS, Vec<Rc<DynLex<TT, TS>>>)| a.0), old(self).analyzers@.len() < usize::MAX,
@ensures
    final(self).default_state == old(self).default_state,
    [C02.states] set_find(old(self).analyzers@, state) is None ==> sorted_by(final(self).analyzers@, |a: &(TS, Vec<Rc<DynLex<TT, TS>>>)| a.0),
    [C02.states] set_find(old(self).analyzers@, state) is None ==> forall|s: TS| #[trigger] set_find(final(self).analyzers@, s) == (if s == state { Some(lexemes) } else { set_find(old(self).analyzers@, s) }),
@proof end
    if set_find(old(self).analyzers@, state) is None { lemma_insert_state(old(self).analyzers@, self.analyzers@, index as int, state, lexemes); }
@close
pub proof fn lemma_insert_state<S: VfOrd, V>(a: Seq<(S, V)>, b: Seq<(S, V)>, i: int, s: S, v: V)
    requires
        ord_ok::<S>(), sorted_by(a, |p: &(S, V)| p.0), 0 <= i <= a.len(), b == a.insert(i, (s, v)), set_find(a, s) is None,
        forall|j: int| 0 <= j < i ==> S::lt((#[trigger] a[j]).0, s), forall|j: int| i <= j < a.len() ==> S::lt(s, (#[trigger] a[j]).0),
    ensures
        sorted_by(b, |p: &(S, V)| p.0),
        forall|t: S| #[trigger] set_find(b, t) == (if t == s { Some(v) } else { set_find(a, t) }),
{
    let kf = |p: &(S, V)| p.0;
    assert forall|x: int, y: int| 0 <= x < y < b.len() implies S::lt(kf(&#[trigger] b[x]), kf(&#[trigger] b[y])) by {
        if x < i && y > i { assert(S::lt(kf(&a[x]), kf(&a[y - 1]))); }
        else if y < i { assert(S::lt(kf(&a[x]), kf(&a[y]))); }
        else if x > i { assert(S::lt(kf(&a[x - 1]), kf(&a[y - 1]))); }
        else if x == i { assert(S::lt(s, a[y - 1].0)); }
    }
    lemma_uniq(a);
    lemma_uniq(b);
    assert(b[i] == (s, v));
    lemma_set_find(b, i);
    assert forall|t: S| #[trigger] set_find(b, t) == (if t == s { Some(v) } else { set_find(a, t) }) by {
        if t != s {
            if set_find(a, t) is Some {
                let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == t;
                let q = if k < i { k } else { k + 1 };
                assert(b[q] == a[k]);
                lemma_set_find(b, q); lemma_set_find(a, k);
            } else if set_find(b, t) is Some {
                let q = choose|q: int| 0 <= q < b.len() && (#[trigger] b[q]).0 == t;
                let k = if q < i { q } else { q - 1 };
                assert(a[k] == b[q]);
            }
        }
    }
}
@open impl<TToken: TokenImpl, TState: Copy + PartialEq + Eq + VfOrd> ITokenization for CombinedTokenizer<TToken, TState> {
    type Token = TToken;
    open spec fn twf(&self) -> bool { states_ok(self.analyzers@) }
    open spec fn tks(&self, code: Bytes) -> Result<Seq<Lex<TToken>>, int> { run2(self.analyzers@, self.default_state, code, 0, Seq::empty(), Seq::empty()) }
    proof fn tok_laws(&self, code: Bytes) { lemma_run2(self.analyzers@, self.default_state, code, 0, Seq::empty(), Seq::empty()); }
@fn ITokenization@CombinedTokenizer::tokenize
@props C01 C02
@opt bs.0=(TState, Vec<Rc<DynLex<TToken, TState>>>)
@opt bsk.0=TState
@opt bs.1=(TState, Vec<Rc<DynLex<TToken, TState>>>)
@opt bsk.1=TState
@opt panic.0=set_find(self.analyzers@, current_state) is None
@opt panic.1=set_find(self.analyzers@, latest_state) is None
@proof start
    lemma_uniq(self.analyzers@);
@loop 0
    invariant
        self.twf(), code.wf(), tiled(code.value@, tokenized_stream@, pointer as int), eof_pointer == code.value@.len(), uniq_keys(self.analyzers@),
        current_state == top_of(state_stack@, self.default_state),
        self.analyzers@.contains(*current_analyzer) && current_analyzer.0 == current_state,
        self.tks(code.value@) == run2(self.analyzers@, self.default_state, code.value@, pointer as int, tokenized_stream@, state_stack@),
    decreases eof_pointer - pointer
@proof loopstart 0
    let ghost stk0 = state_stack@;
    let ghost toks0 = tokenized_stream@;
    let ghost p0 = pointer as int;
@loop 1
    invariant
        self.twf(), code.wf(), pointer <= code.value@.len(), vf_s1@ == current_analyzer.1@, vf_s1@.len() <= isize::MAX, 0 <= vf_i1 <= vf_s1@.len(), lexers_ok(vf_s1@),
        first_lex(vf_s1@, 0, code.value@, pointer as int, tokenized_stream@, stk0)
            == (if vf_r1 is Some { (vf_r1, state_stack@) } else { first_lex(vf_s1@, vf_i1 as int, code.value@, pointer as int, tokenized_stream@, state_stack@) }),
    decreases vf_s1@.len() - vf_i1
@close
