@module stream
@modprops C13
@struct TokenStream

## ---------------------------------------------------------------- what a token stream is
impl<'lex, T> TokenStream<'lex, T> {
    pub open spec fn toks(&self) -> Seq<Lex<T>> { self.original_stream@ }
    pub open spec fn fl(&self) -> Seq<TokenPtr> { self.filtered_stream@ }
}
/// the structural positions are in range and in order
pub open spec fn fl_ok<T>(toks: Seq<Lex<T>>, fl: Seq<TokenPtr>) -> bool {
    &&& forall|k: int| 0 <= k < fl.len() ==> (#[trigger] fl[k]).0 < toks.len()
    &&& forall|i: int, j: int| 0 <= i < j < fl.len() ==> (#[trigger] fl[i]).0 < (#[trigger] fl[j]).0
}
/// ... and are exactly the structural tokens
pub open spec fn fl_exact<T: TokenImpl>(toks: Seq<Lex<T>>, fl: Seq<TokenPtr>) -> bool {
    &&& fl_ok(toks, fl)
    &&& forall|k: int| 0 <= k < fl.len() ==> toks[(#[trigger] fl[k]).0 as int].token.structural_s()
    &&& forall|j: int| 0 <= j < toks.len() && (#[trigger] toks[j]).token.structural_s() ==> exists|k: int| 0 <= k < fl.len() && (#[trigger] fl[k]).0 == j
}
/// token starts strictly increase (non-empty contiguous tokens, then end-of-file)
pub open spec fn starts_inc<T>(toks: Seq<Lex<T>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < toks.len() ==> (#[trigger] toks[i]).start < (#[trigger] toks[j]).start
}

@open pub trait VfIndex<I> {
    type Output;
    spec fn ix_req(&self, i: I) -> bool;
    spec fn ix(&self, i: I) -> Self::Output;
    fn vf_index(&self, index: I) -> (r: &Self::Output)
        requires self.ix_req(index)
        ensures *r == self.ix(index);
@close
@open impl<'lex, TNode> VfIndex<FltrPtr> for TokenStream<'lex, TNode> {
    type Output = Lex<TNode>;
    open spec fn ix_req(&self, i: FltrPtr) -> bool { i.0 < self.fl().len() && self.fl()[i.0 as int].0 < self.toks().len() }
    open spec fn ix(&self, i: FltrPtr) -> Lex<TNode> { self.toks()[self.fl()[i.0 as int].0 as int] }
@fn Index<FltrPtr>@TokenStream::index
@as vf_index
@close
@open impl<'lex, TNode> VfIndex<TokenPtr> for TokenStream<'lex, TNode> {
    type Output = Lex<TNode>;
    open spec fn ix_req(&self, i: TokenPtr) -> bool { i.0 < self.toks().len() }
    open spec fn ix(&self, i: TokenPtr) -> Lex<TNode> { self.toks()[i.0 as int] }
@fn Index<TokenPtr>@TokenStream::index
@as vf_index
@close
@open impl<'lex, TNode> TokenStream<'lex, TNode> {
@fn TokenStream::new
@ensures
    r.toks() == original_stream@ && r.fl() == filtered_stream@,
@close
@open impl<'lex, TNode: TokenImpl> TokenStream<'lex, TNode> {
@fn From<&'lexVec<Lex<TNode>>>@TokenStream::from
@ensures
    [C13.exact] r.toks() == segments@ && fl_exact(segments@, r.fl()),
@loop 0
    invariant
        vf_s0@ == segments@, vf_i0 <= vf_s0@.len(), vf_s0@.len() <= isize::MAX,
        forall|k: int| 0 <= k < vf_r0@.len() ==> (#[trigger] vf_r0@[k]).0 < vf_i0,
        forall|i: int, j: int| 0 <= i < j < vf_r0@.len() ==> (#[trigger] vf_r0@[i]).0 < (#[trigger] vf_r0@[j]).0,
        forall|k: int| 0 <= k < vf_r0@.len() ==> segments@[(#[trigger] vf_r0@[k]).0 as int].token.structural_s(),
        forall|j: int| 0 <= j < vf_i0 && (#[trigger] segments@[j]).token.structural_s() ==> exists|k: int| 0 <= k < vf_r0@.len() && (#[trigger] vf_r0@[k]).0 == j,
    decreases vf_s0@.len() - vf_i0
@opt rty.0=Vec<TokenPtr>
@proof looptop 0
    let ghost vf_old = vf_r0@;
@proof loopend 0
    assert forall|j: int| 0 <= j < vf_i0 && (#[trigger] segments@[j]).token.structural_s() implies exists|k: int| 0 <= k < vf_r0@.len() && (#[trigger] vf_r0@[k]).0 == j by {
        if j == vf_i0 - 1 { assert(vf_r0@[vf_r0@.len() - 1].0 == j); }
        else {
            let k = choose|k: int| 0 <= k < vf_old.len() && (#[trigger] vf_old[k]).0 == j;
            assert(vf_r0@[k].0 == j);
        }
    }
@close
@open impl<'lex, TToken: TokenImpl> TokenStream<'lex, TToken> {
@fn TokenStream::is_eos
@requires
    self.ix_req(index),
    eq_ok::<TToken>(),
@ensures
    r == (self.ix(index).token == TToken::eof_s()),
@fn TokenStream::is_eos_segment
@requires
    self.ix_req(index),
    eq_ok::<TToken>(),
@ensures
    r == (self.ix(index).token == TToken::eof_s()),
@close
@open impl<'lex, TToken> TokenStream<'lex, TToken> {
@fn TokenStream::create_node
@props C15 C08
@requires
    self.ix_req(index) && self.ix_req(data.consumed_index),
@ensures
    [C15.node] r.consumed_index == data.consumed_index && r.children@.len() == 1,
    [C15.node] r.children@[0].start == self.ix(index).start && r.children@[0].end == self.ix(data.consumed_index).start,
    [C15.node] r.children@[0].bound == Some((self.fl()[index.0 as int], self.fl()[data.consumed_index.0 as int])),
    [C08.node] r.children@[0].node == node_value && r.children@[0].children == data.children,
@fn TokenStream::filtered_index_at
@opt bs.0=TokenPtr
@requires
    fl_ok(self.toks(), self.fl()) && starts_inc(self.toks()),
@ensures
    [C13.at] match r {
        Ok(i) => i.0 < self.fl().len() && self.ix(i).start == code_pointer,
        Err(i) => i.0 <= self.fl().len() && forall|k: int| 0 <= k < self.fl().len() ==> self.toks()[(#[trigger] self.fl()[k]).0 as int].start != code_pointer,
    },
    [C13.at] match r { Ok(i) => forall|k: int| 0 <= k < i.0 ==> self.toks()[(#[trigger] self.fl()[k]).0 as int].start < code_pointer, Err(i) => forall|k: int| 0 <= k < i.0 ==> self.toks()[(#[trigger] self.fl()[k]).0 as int].start < code_pointer },
    [C13.at] match r { Ok(i) => true, Err(i) => forall|k: int| i.0 <= k < self.fl().len() ==> self.toks()[(#[trigger] self.fl()[k]).0 as int].start > code_pointer },
@fn TokenStream::find_filtered_index
@requires
    fl_ok(self.toks(), self.fl()),
@ensures
    [C13.find] match r { Ok(i) => i.0 < self.fl().len() && self.fl()[i.0 as int] == *index, Err(i) => i.0 <= self.fl().len() },
    [C13.find] match r {
        Err(i) => (forall|k: int| 0 <= k < i.0 ==> (#[trigger] self.fl()[k]).0 < index.0) && (forall|k: int| i.0 <= k < self.fl().len() ==> index.0 < (#[trigger] self.fl()[k]).0),
        Ok(i) => true,
    },
@fn TokenStream::find_filter_ptr
@requires
    fl_ok(self.toks(), self.fl()),
@ensures
    [C13.find] match r { Ok(i) => i.0 < self.fl().len() && self.fl()[i.0 as int] == index, Err(i) => i.0 <= self.fl().len() },
    [C13.find] match r {
        Err(i) => (forall|k: int| 0 <= k < i.0 ==> (#[trigger] self.fl()[k]).0 < index.0) && (forall|k: int| i.0 <= k < self.fl().len() ==> index.0 < (#[trigger] self.fl()[k]).0),
        Ok(i) => true,
    },
@fn TokenStream::lex_data_at
@opt bs.0=Lex<TToken>
@requires
    starts_inc(self.toks()) && self.toks().len() > 0 && code_pointer <= self.toks().last().start,
@ensures
    [C13.at] match r { Ok(l) => self.toks().contains(*l) && l.start == code_pointer, Err(l) => self.toks().contains(*l) && l.start > code_pointer },
    [C13.at] match r { Ok(l) => true, Err(l) => forall|k: int| 0 <= k < self.toks().len() && (#[trigger] self.toks()[k]).start < l.start ==> self.toks()[k].start < code_pointer },
@fn TokenStream::filtered_data_at
@opt bs.0=TokenPtr
@requires
    fl_ok(self.toks(), self.fl()) && starts_inc(self.toks()),
    self.fl().len() > 0 && code_pointer <= self.toks()[self.fl().last().0 as int].start,
@ensures
    [C13.at] match r {
        Ok(l) => l.start == code_pointer && exists|k: int| 0 <= k < self.fl().len() && self.toks()[(#[trigger] self.fl()[k]).0 as int] == *l,
        Err(l) => exists|k: int| 0 <= k < self.fl().len() && self.toks()[(#[trigger] self.fl()[k]).0 as int] == *l
            && (forall|q: int| 0 <= q < k ==> self.toks()[(#[trigger] self.fl()[q]).0 as int].start < code_pointer) && l.start > code_pointer,
    },
@fn TokenStream::pointer
@requires
    self.ix_req(filtered_index),
@ensures
    r == self.ix(filtered_index).start,
@fn TokenStream::get
@requires
    fl_ok(self.toks(), self.fl()),
@ensures
    match r { Some(l) => index.0 < self.fl().len() && *l == self.ix(index), None => index.0 >= self.fl().len() },
@fn TokenStream::length
@ensures
    r == self.fl().len(),
@fn TokenStream::has_stream
@ensures
    r == (index.0 < self.fl().len()),
@fn TokenStream::eos_pointer
@requires
    self.toks().len() > 0,
@ensures
    r == self.toks().last().end,
@fn TokenStream::get_segments
@ensures
    r@ == self.toks(),
@fn TokenStream::token_pair
@opt str=bytes
@opt rty.0=Vec<(&TToken, &[u8])>
@requires
    forall|k: int| 0 <= k < self.toks().len() ==> (#[trigger] self.toks()[k]).start <= self.toks()[k].end <= code@.len(),
@ensures
    r@.len() == self.toks().len(),
    forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]).0 == self.toks()[k].token && r@[k].1@ == code@.subrange(self.toks()[k].start as int, self.toks()[k].end as int),
@loop 0
    invariant
        vf_s0@ == self.toks(), vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < self.toks().len() ==> (#[trigger] self.toks()[k]).start <= self.toks()[k].end <= code@.len(),
        forall|k: int| 0 <= k < vf_r0@.len() ==> *(#[trigger] vf_r0@[k]).0 == self.toks()[k].token && vf_r0@[k].1@ == code@.subrange(self.toks()[k].start as int, self.toks()[k].end as int),
    decreases vf_s0@.len() - vf_i0
@fn TokenStream::iter_lex
@opt rty.0=Vec<&Lex<TToken>>
@requires
    fl_ok(self.toks(), self.fl()),
@ensures
    [C13.iter_lex] r@.len() == self.fl().len() && forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.toks()[self.fl()[k].0 as int],
@loop 0
    invariant
        fl_ok(self.toks(), self.fl()),
        vf_s0@ == self.fl(), vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < vf_r0@.len() ==> *(#[trigger] vf_r0@[k]) == self.toks()[self.fl()[k].0 as int],
    decreases vf_s0@.len() - vf_i0
@fn TokenStream::iter_lex_at
@opt rty.0=Vec<&Lex<TToken>>
@requires
    fl_ok(self.toks(), self.fl()), index.0 <= self.fl().len(),
@ensures
    [C13.iter_lex_at] r@.len() == self.fl().len() - index.0 && forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.toks()[self.fl()[index.0 + k].0 as int],
@loop 0
    invariant
        fl_ok(self.toks(), self.fl()), index.0 <= self.fl().len(),
        vf_s0@ == self.fl().subrange(index.0 as int, self.fl().len() as int), vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < vf_r0@.len() ==> *(#[trigger] vf_r0@[k]) == self.toks()[self.fl()[index.0 + k].0 as int],
    decreases vf_s0@.len() - vf_i0
@fn TokenStream::iter_at
@opt rty.0=Vec<&Lex<TToken>>
@requires
    index <= self.toks().len(),
@ensures
    [C13.iter_at] r@.len() == self.toks().len() - index && forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.toks()[index + k],
@loop 0
    invariant
        index <= self.toks().len(),
        vf_s0@ == self.toks().subrange(index as int, self.toks().len() as int), vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < vf_r0@.len() ==> *(#[trigger] vf_r0@[k]) == self.toks()[index + k],
    decreases vf_s0@.len() - vf_i0
@fn TokenStream::iter_range
@opt rty.0=Vec<&Lex<TToken>>
@requires
    start <= end <= self.toks().len(),
@ensures
    [C13.iter_range] r@.len() == end - start && forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.toks()[start + k],
@loop 0
    invariant
        start <= end <= self.toks().len(),
        vf_s0@ == self.toks().subrange(start as int, end as int), vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < vf_r0@.len() ==> *(#[trigger] vf_r0@[k]) == self.toks()[start + k],
    decreases vf_s0@.len() - vf_i0
@fn TokenStream::iter_lex_range
@opt rty.0=Vec<&Lex<TToken>>
@requires
    fl_ok(self.toks(), self.fl()), start.0 <= end.0 <= self.fl().len(),
@ensures
    [C13.iter_lex_range] r@.len() == end.0 - start.0 && forall|k: int| 0 <= k < r@.len() ==> *(#[trigger] r@[k]) == self.toks()[self.fl()[start.0 + k].0 as int],
@loop 0
    invariant
        fl_ok(self.toks(), self.fl()), start.0 <= end.0 <= self.fl().len(),
        vf_s0@ == self.fl().subrange(start.0 as int, end.0 as int), vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < vf_r0@.len() ==> *(#[trigger] vf_r0@[k]) == self.toks()[self.fl()[start.0 + k].0 as int],
    decreases vf_s0@.len() - vf_i0
@fn TokenStream::get_token_ptr
@requires
    index.0 < self.fl().len(),
@ensures
    r == self.fl()[index.0 as int],
@fn TokenStream::last_segment_index
@requires
    lex_index.0 <= self.fl().len(),
@ensures
    r == (if lex_index.0 > 0 { Some(self.fl()[lex_index.0 - 1]) } else { None::<TokenPtr> }),
@close
