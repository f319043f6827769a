@module cache
@modprops C10 C12
use vstd::std_specs::cmp::*;
@struct CacheKey derive=Clone,Copy,PartialEq,Eq
@struct Cache rr

/// what the production that owns a cache key does (each memoised production has its own key)
pub uninterp spec fn key_sem<T, N>(k: CacheKey, e: Env<T>, m: Md, i: int) -> PRes<N>;

impl<TP, TToken> Cache<TP, TToken> {
    pub open spec fn map(&self) -> Map<(CacheKey, usize), ParsedResult<TP, TToken>> { self.parsed_result_cache.map() }
    pub open spec fn mx(&self) -> int { self.max_parsed_point as int }
}
#[verifier::external_body]
pub struct VfSaid;
/// the text names this line and column
pub uninterp spec fn said(s: String, line: int, column: int) -> bool;
#[verifier::external_body]
pub fn vf_writeln_pos(w: &mut String, p: &Position) -> (r: Result<(), VfFmtErr>)
    ensures r is Ok, said(*final(w), p.line as int, p.column as int)
{ unimplemented!() }
pub open spec fn said_pos(s: String, code: Bytes, p: int) -> bool { said(s, pos_of(code, p).0, pos_of(code, p).1) }

@open impl<TP, TToken> Cache<TP, TToken> {
@fn Cache::root
@ensures
    [C19.root] r.map() == Map::<(CacheKey, usize), ParsedResult<TP, TToken>>::empty() && r.mx() == 0,
@fn Cache::contains
@ensures
    r == self.map().contains_key((key, index)),
@fn Cache::find
@ensures
    [C12.find] match r {
        Some(v) => self.map().contains_key((key, index)) && *v == self.map()[(key, index)],
        None => true,
    },
@fn Cache::insert
@ensures
    [C12.insert] final(self).map() == old(self).map().insert((key, index), result),
    [C10.insert] final(self).mx() == imax(index as int, old(self).mx()),
@fn Cache::update_index
@props C10
@ensures
    final(self).map() == old(self).map(),
    [C10.mark] final(self).mx() == imax(index as int, old(self).mx()),
@fn Cache::get_index
@props C10
@ensures
    r == self.mx(),
@close
@open impl<TNode: NodeImpl> Cache<FltrPtr, TNode> {
@fn Cache<FltrPtr,TNode>::create_error
@props C10 C09
@requires
    code.wf(), tok_ok(env(code, stream)),
    match err { ProductionError::Validation(p, _) => p <= code.value@.len(), _ => true },
@ensures
    [C10.pointer] err is Unparsed ==> r.pointer == nm(env(code, stream), Md::F, self.mx()),
    [C09.pointer] match err { ProductionError::Validation(p, _) => r.pointer == p, _ => true },
    [C10.position] said_pos(r.message, code.value@, r.pointer as int),
@proof start
    let ghost e = env(code, stream);
    lemma_starts_inc(e);
    assert(fl_ok(stream.toks(), stream.fl()));
@proof afterlet failed_index
    lemma_nmk_at(e, self.mx(), failed_index.0 as int, 0);
    if failed_index.0 < e.fl.len() { lemma_tok_in(e, e.fl[failed_index.0 as int].0 as int); }
@close
@open impl<TToken> Cache<usize, TToken> {
@fn Cache<usize,TToken>::create_error
@props C10 C09
@requires
    code.wf(), self.mx() <= code.value@.len(),
    match err { ProductionError::Validation(p, _) => p <= code.value@.len(), _ => true },
@ensures
    [C10.pointer] err is Unparsed ==> r.pointer == self.mx(),
    [C09.pointer] match err { ProductionError::Validation(p, _) => r.pointer == p, _ => true },
    [C10.position] said_pos(r.message, code.value@, r.pointer as int),
@close
