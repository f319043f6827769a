@module env
@modprops C10
## ---------------------------------------------------------------- the input of a parse and positions in it
#[verifier::reject_recursive_types(T)]
pub struct Env<T> { pub code: Bytes, pub toks: Seq<Lex<T>>, pub fl: Seq<TokenPtr> }
/// plain text, structural tokens, raw tokens
#[derive(PartialEq, Eq)]
pub enum Md { L, F, R }
/// what a production does at a position: result, and the furthest position a terminal matched
#[verifier::reject_recursive_types(N)]
pub struct PRes<N> { pub out: Result<(int, Seq<Tree<N>>), ProductionError>, pub reach: int }

pub open spec fn env<T>(code: &Code, s: &TokenStream<T>) -> Env<T> { Env { code: code.value@, toks: s.toks(), fl: s.fl() } }
pub open spec fn lenv<T>(code: &Code) -> Env<T> { Env { code: code.value@, toks: Seq::empty(), fl: Seq::empty() } }
pub trait VfPtr: Sized { spec fn at(self) -> int; }
impl VfPtr for usize { open spec fn at(self) -> int { self as int } }
impl VfPtr for TokenPtr { open spec fn at(self) -> int { self.0 as int } }
impl VfPtr for FltrPtr { open spec fn at(self) -> int { self.0 as int } }
pub open spec fn rv<I: VfPtr, N>(r: ParsedResult<I, N>) -> Result<(int, Seq<Tree<N>>), ProductionError> {
    match r { Ok(d) => Ok((d.consumed_index.at(), trees(d.children@))), Err(e) => Err(e) }
}

/// tokens of a text as a tokenizer returns them (C01), with the structural view of C13
pub open spec fn tok_ok<T: TokenImpl>(e: Env<T>) -> bool {
    let n = e.toks.len();
    &&& eq_ok::<T>() && ord_ok::<T>()
    &&& n > 0
    &&& fl_exact(e.toks, e.fl)
    &&& e.toks[0].start == 0
    &&& forall|k: int| 0 <= k < n - 1 ==> (#[trigger] e.toks[k]).start < e.toks[k].end && e.toks[k].token != T::eof_s() && e.toks[k].end <= e.code.len()
    &&& forall|k: int, q: int| 0 <= k < n - 1 && q == k + 1 ==> (#[trigger] e.toks[q]).start == (#[trigger] e.toks[k]).end
    &&& e.toks[n - 1].token == T::eof_s() && e.toks[n - 1].start == e.code.len() && e.toks[n - 1].end == e.code.len()
    &&& T::eof_s().structural_s()
    &&& e.code.len() <= usize::MAX
}
pub open spec fn env_ok<T: TokenImpl>(e: Env<T>, m: Md) -> bool {
    match m { Md::L => e.code.len() <= usize::MAX && e.toks.len() == 0 && e.fl.len() == 0, _ => tok_ok(e) }
}
/// positions at which parsing can stand
pub open spec fn at_ok<T>(e: Env<T>, m: Md, i: int) -> bool {
    match m { Md::L => 0 <= i <= e.code.len(), Md::F => 0 <= i < e.fl.len(), Md::R => 0 <= i < e.toks.len() }
}
/// a position after the last one
pub open spec fn lim<T>(e: Env<T>, m: Md) -> int { match m { Md::L => e.code.len() as int + 1, Md::F => e.fl.len() as int, Md::R => e.toks.len() as int } }
/// byte offset of a position
pub open spec fn st<T>(e: Env<T>, m: Md, i: int) -> int {
    match m { Md::L => i, Md::F => e.toks[e.fl[i].0 as int].start as int, Md::R => e.toks[i].start as int }
}
/// raw-token bound of a position
pub open spec fn bd<T>(e: Env<T>, m: Md, i: int) -> int {
    match m { Md::L => 0, Md::F => e.fl[i].0 as int, Md::R => i }
}
pub open spec fn bnd<T>(e: Env<T>, m: Md, i: int, j: int) -> Option<(int, int)> {
    match m { Md::L => None, _ => Some((bd(e, m, i), bd(e, m, j))) }
}
pub open spec fn imax(a: int, b: int) -> int { if a < b { b } else { a } }
/// start of the first structural token at or after byte x, or the end of the text
pub open spec fn nmk<T>(e: Env<T>, x: int, k: int) -> int decreases e.fl.len() - k {
    if k < 0 || k >= e.fl.len() { e.code.len() as int }
    else if st(e, Md::F, k) >= x { st(e, Md::F, k) } else { nmk(e, x, k + 1) }
}
pub open spec fn nm<T>(e: Env<T>, m: Md, x: int) -> int { if m == Md::L { x } else { nmk(e, x, 0) } }

pub proof fn lemma_tok_inc<T: TokenImpl>(e: Env<T>, i: int, j: int)
    requires tok_ok(e), 0 <= i < j < e.toks.len(),
    ensures e.toks[i].start < e.toks[i].end <= e.toks[j].start,
    decreases j - i
{
    assert(e.toks[j - 1].start < e.toks[j - 1].end);
    assert(e.toks[j - 1 + 1].start == e.toks[j - 1].end);
    if i < j - 1 { lemma_tok_inc(e, i, j - 1); }
}
pub proof fn lemma_starts_inc<T: TokenImpl>(e: Env<T>)
    requires tok_ok(e),
    ensures starts_inc(e.toks), e.fl.len() > 0, e.fl.last().0 == e.toks.len() - 1, st(e, Md::F, e.fl.len() - 1) == e.code.len(),
{
    assert forall|i: int, j: int| 0 <= i < j < e.toks.len() implies (#[trigger] e.toks[i]).start < (#[trigger] e.toks[j]).start by { lemma_tok_inc(e, i, j); }
    let n = e.toks.len() as int;
    assert(e.toks[n - 1].token.structural_s());
    let k = choose|k: int| 0 <= k < e.fl.len() && (#[trigger] e.fl[k]).0 == n - 1;
    if k < e.fl.len() - 1 { assert(e.fl[k].0 < e.fl[e.fl.len() - 1].0); }
}
pub proof fn lemma_fl_ge<T: TokenImpl>(e: Env<T>, k: int)
    requires tok_ok(e), 0 <= k < e.fl.len(),
    ensures k <= e.fl[k].0,
    decreases k
{ if k > 0 { lemma_fl_ge(e, k - 1); assert(e.fl[k - 1].0 < e.fl[k].0); } }
/// positions fit in a machine word
pub broadcast proof fn lemma_at_word<T: TokenImpl>(e: Env<T>, m: Md, i: int)
    ensures env_ok(e, m) && #[trigger] at_ok(e, m, i) ==> 0 <= i <= usize::MAX,
{
    if env_ok(e, m) && at_ok(e, m, i) && m != Md::L { lemma_starts_inc(e); if m == Md::F { lemma_fl_ge(e, i); } }
}
pub proof fn lemma_st_inc<T: TokenImpl>(e: Env<T>, m: Md, i: int, j: int)
    requires env_ok(e, m), at_ok(e, m, i), at_ok(e, m, j), i <= j,
    ensures st(e, m, i) <= st(e, m, j) <= e.code.len(), bd(e, m, i) <= bd(e, m, j), i < j ==> st(e, m, i) < st(e, m, j),
{
    if m != Md::L {
        lemma_starts_inc(e);
        let n = e.toks.len() - 1;
        let a = bd(e, m, i);
        let b = bd(e, m, j);
        if i < j { if m == Md::F { assert(e.fl[i].0 < e.fl[j].0); } lemma_tok_inc(e, a, b); }
        if b < n { lemma_tok_inc(e, b, n); }
    }
}
pub proof fn lemma_nmk<T: TokenImpl>(e: Env<T>, x: int, k: int)
    requires tok_ok(e), 0 <= k <= e.fl.len(),
    ensures
        nmk(e, x, k) <= e.code.len(),
        x <= e.code.len() ==> nmk(e, x, k) >= x,
        k < e.fl.len() ==> nmk(e, x, k) >= st(e, Md::F, k),
        forall|q: int| k <= q < e.fl.len() && #[trigger] st(e, Md::F, q) >= x ==> nmk(e, x, k) <= st(e, Md::F, q),
    decreases e.fl.len() - k
{
    lemma_starts_inc(e);
    if k < e.fl.len() {
        lemma_st_inc(e, Md::F, k, e.fl.len() - 1);
        lemma_nmk(e, x, k + 1);
        assert forall|q: int| k <= q < e.fl.len() && #[trigger] st(e, Md::F, q) >= x implies nmk(e, x, k) <= st(e, Md::F, q) by { lemma_st_inc(e, Md::F, k, q); }
        if k + 1 < e.fl.len() { lemma_st_inc(e, Md::F, k, k + 1); }
    }
}
pub proof fn lemma_nmk_mono<T: TokenImpl>(e: Env<T>, x: int, y: int, k: int)
    requires tok_ok(e), 0 <= k <= e.fl.len(), x <= y,
    ensures nmk(e, x, k) <= nmk(e, y, k),
    decreases e.fl.len() - k
{
    if k < e.fl.len() {
        if st(e, Md::F, k) >= x { lemma_nmk(e, y, k); } else { lemma_nmk_mono(e, x, y, k + 1); }
    }
}
pub broadcast proof fn lemma_nm_mono<T: TokenImpl>(e: Env<T>, m: Md, x: int, y: int)
    requires env_ok(e, m),
    ensures x <= y ==> #[trigger] nm(e, m, x) <= #[trigger] nm(e, m, y),
{ if x <= y && m != Md::L { lemma_nmk_mono(e, x, y, 0); } }
pub proof fn lemma_nm_max<T: TokenImpl>(e: Env<T>, m: Md, x: int, y: int)
    requires env_ok(e, m),
    ensures nm(e, m, imax(x, y)) == imax(nm(e, m, x), nm(e, m, y)),
{ lemma_nm_mono(e, m, x, y); lemma_nm_mono(e, m, y, x); }
/// the mark of a structural position is its own start
pub proof fn lemma_nm_st<T: TokenImpl>(e: Env<T>, m: Md, k: int)
    requires env_ok(e, m), at_ok(e, m, k), m != Md::R,
    ensures nm(e, m, st(e, m, k)) == st(e, m, k),
{
    if m == Md::F { lemma_nmk(e, st(e, m, k), 0); lemma_st_inc(e, m, k, e.fl.len() - 1); }
}
/// the end of a matched token and the start of the next position carry the same mark
pub proof fn lemma_nm_next<T: TokenImpl>(e: Env<T>, m: Md, k: int)
    requires env_ok(e, m), at_ok(e, m, k), at_ok(e, m, k + 1), m != Md::L,
    ensures nm(e, m, e.toks[bd(e, m, k)].end as int) == nm(e, m, st(e, m, k + 1)), e.toks[bd(e, m, k)].end <= st(e, m, k + 1),
{
    let a = bd(e, m, k);
    let b = bd(e, m, k + 1);
    if m == Md::F { assert(e.fl[k].0 < e.fl[k + 1].0); }
    lemma_tok_inc(e, a, b);
    if m == Md::F {
        let x = e.toks[a].end as int;
        lemma_nm_st(e, m, k + 1);
        lemma_nmk(e, x, 0);
        assert(nmk(e, x, 0) <= st(e, m, k + 1));
        lemma_next(e, x, k, 0);
    }
}
pub proof fn lemma_next<T: TokenImpl>(e: Env<T>, x: int, k: int, q: int)
    requires tok_ok(e), 0 <= q <= k + 1, 0 <= k, k + 1 < e.fl.len(), x == e.toks[e.fl[k].0 as int].end,
    ensures nmk(e, x, q) == st(e, Md::F, k + 1),
    decreases k + 1 - q
{
    assert(e.fl[k].0 < e.fl[k + 1].0);
    lemma_tok_inc(e, e.fl[k].0 as int, e.fl[k + 1].0 as int);
    if q <= k { lemma_st_inc(e, Md::F, q, k); lemma_next(e, x, k, q + 1); }
}
pub proof fn lemma_nmk_at<T: TokenImpl>(e: Env<T>, x: int, i: int, q: int)
    requires
        tok_ok(e), 0 <= q <= i <= e.fl.len(),
        forall|k: int| 0 <= k < i ==> e.toks[(#[trigger] e.fl[k]).0 as int].start < x,
        i < e.fl.len() ==> st(e, Md::F, i) >= x,
    ensures nmk(e, x, q) == (if i < e.fl.len() { st(e, Md::F, i) } else { e.code.len() as int }),
    decreases i - q
{
    if q < i { assert(e.toks[e.fl[q].0 as int].start < x); lemma_nmk_at(e, x, i, q + 1); }
}
pub proof fn lemma_tok_in<T: TokenImpl>(e: Env<T>, k: int)
    requires tok_ok(e), 0 <= k < e.toks.len(),
    ensures e.toks[k].start <= e.toks[k].end <= e.code.len(), e.toks[k].token == T::eof_s() <==> k == e.toks.len() - 1,
        k < e.toks.len() - 1 ==> e.toks[k].start < e.toks[k].end,
{}
