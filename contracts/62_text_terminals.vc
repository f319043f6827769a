@module text_terminals
@modprops C05 ~C10 ~C15
broadcast use {group_trees, lemma_nm_mono, lemma_at_word};
@struct ConstantField rr
@struct ConstantFieldSet rr
@struct PunctuationsField rr str=bytes
@struct RegexField rr
/// literal `w` occurs in `code` at byte `i`
pub open spec fn occurs(code: Bytes, i: int, w: Bytes) -> bool { is_prefix(w, code.subrange(i, code.len() as int)) }
/// result of a text terminal that matches `n` bytes and has a node choice
pub open spec fn txt_sem<N>(hit: Option<(Option<N>, int)>, i: int) -> PRes<N> {
    match hit { Some(h) => okres(i + h.1, opt_leaf(h.0, i, i + h.1, None), i + h.1), None => unparsed(0) }
}
/// the longest of the literals that occur
pub open spec fn longest<V>(fs: Seq<(Vec<u8>, V)>, code: Bytes, i: int, k: int) -> bool {
    &&& 0 <= k < fs.len() && occurs(code, i, fs[k].0@)
    &&& forall|q: int| 0 <= q < fs.len() && occurs(code, i, (#[trigger] fs[q]).0@) ==> fs[q].0@.len() <= fs[k].0@.len()
}
pub open spec fn lit_find<V>(fs: Seq<(Vec<u8>, V)>, code: Bytes, i: int) -> Option<(V, int)> {
    if exists|k: int| longest(fs, code, i, k) { let k = choose|k: int| longest(fs, code, i, k); Some((fs[k].1, fs[k].0@.len() as int)) } else { None }
}
pub open spec fn uniq_lits<V>(fs: Seq<(Vec<u8>, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] fs[i]).0@ != (#[trigger] fs[j]).0@ }
pub proof fn lemma_longest<V>(fs: Seq<(Vec<u8>, V)>, code: Bytes, i: int, k: int)
    requires uniq_lits(fs), longest(fs, code, i, k),
    ensures lit_find(fs, code, i) == Some((fs[k].1, fs[k].0@.len() as int)),
{
    let q = choose|q: int| longest(fs, code, i, q);
    let s = code.subrange(i, code.len() as int);
    assert(fs[q].0@.len() == fs[k].0@.len());
    assert(fs[q].0@ == fs[k].0@);
    if q < k { assert(fs[q].0@ != fs[k].0@); }
    if k < q { assert(fs[k].0@ != fs[q].0@); }
}
pub proof fn lemma_txt_laws<N, T: TokenImpl>(hit: Option<(Option<N>, int)>, e: Env<T>, i: int, null: bool, first: Set<T>)
    requires env_ok(e, Md::L), at_ok(e, Md::L, i), hit is Some ==> 0 <= hit->Some_0.1 <= e.code.len() - i,
    ensures laws_hold(txt_sem(hit, i), e, Md::L, i, true, null, first),
{
    if hit is Some {
        lemma_fits_leaf(hit->Some_0.0, i, i + hit->Some_0.1, 0, 0, e, Md::L, i, i + hit->Some_0.1);
    }
}
pub open spec fn tree_of<V>(t: FieldTree<V>, vs: Seq<(Vec<u8>, V)>) -> bool {
    &&& forall|k: int| 0 <= k < vs.len() ==> ft_get(t, (#[trigger] vs[k]).0@) == Some(vs[k].1)
    &&& forall|w: Bytes| (#[trigger] ft_get(t, w)) is Some ==> exists|k: int| 0 <= k < vs.len() && (#[trigger] vs[k]).0@ == w
}
pub open spec fn lits_ok<V>(fs: Seq<(Vec<u8>, V)>) -> bool { wsorted_by(fs, |p: &(Vec<u8>, V)| p.0.len()) && uniq_lits(fs) }
pub open spec fn uniq_strs<V>(fs: Seq<(&[u8], V)>) -> bool { forall|i: int, j: int| 0 <= i < j < fs.len() ==> (#[trigger] fs[i]).0@ != (#[trigger] fs[j]).0@ }
/// literal w registered with value n
pub open spec fn has_lit<V>(fs: Seq<(Vec<u8>, V)>, w: Bytes, n: V) -> bool { exists|k: int| 0 <= k < fs.len() && (#[trigger] fs[k]).0@ == w && fs[k].1 == n }
pub open spec fn has_str<V>(fs: Seq<(&[u8], V)>, w: Bytes, n: V) -> bool { exists|k: int| 0 <= k < fs.len() && (#[trigger] fs[k]).0@ == w && fs[k].1 == n }
pub proof fn lemma_perm_uniq<T>(a: Seq<T>, b: Seq<T>, f: spec_fn(T) -> Bytes)
    requires permuted(a, b), forall|i: int, j: int| 0 <= i < j < a.len() ==> f(#[trigger] a[i]) != f(#[trigger] a[j]),
    ensures forall|i: int, j: int| 0 <= i < j < b.len() ==> f(#[trigger] b[i]) != f(#[trigger] b[j]),
{
    let p = choose|p: Seq<int>| #![trigger p.len()] p.len() == a.len()
        && (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && b[i] == a[p[i]])
        && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]);
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies f(#[trigger] b[i]) != f(#[trigger] b[j]) by {
        assert(p[i] != p[j]);
        if p[i] < p[j] { assert(f(a[p[i]]) != f(a[p[j]])); } else { assert(f(a[p[j]]) != f(a[p[i]])); }
    }
}
/// scanning from the longest literal down, the first that occurs is the longest
pub proof fn lemma_scan<V>(fs: Seq<(Vec<u8>, V)>, code: Bytes, i: int, k: int)
    requires lits_ok(fs), 0 <= k < fs.len(), occurs(code, i, fs[k].0@), forall|q: int| k < q < fs.len() ==> !occurs(code, i, (#[trigger] fs[q]).0@),
    ensures lit_find(fs, code, i) == Some((fs[k].1, fs[k].0@.len() as int)),
{
    assert forall|q: int| 0 <= q < fs.len() && occurs(code, i, (#[trigger] fs[q]).0@) implies fs[q].0@.len() <= fs[k].0@.len() by {
        if q < k { let kf = |p: &(Vec<u8>, V)| p.0.len(); assert(!<usize as VfOrd>::lt(kf(&fs[k]), kf(&fs[q]))); }
    }
    lemma_longest(fs, code, i, k);
}
pub proof fn lemma_empty_first<V>(fs: Seq<(Vec<u8>, V)>)
    requires lits_ok(fs),
    ensures
        (exists|k: int| 0 <= k < fs.len() && (#[trigger] fs[k]).0@.len() == 0) <==> fs.len() > 0 && fs[0].0@.len() == 0,
        forall|k: int| 0 < k < fs.len() ==> (#[trigger] fs[k]).0@.len() > 0,
{
    let kf = |p: &(Vec<u8>, V)| p.0.len();
    assert forall|k: int| 0 < k < fs.len() implies (#[trigger] fs[k]).0@.len() > 0 by {
        assert(!<usize as VfOrd>::lt(kf(&fs[k]), kf(&fs[0])));
        if fs[k].0@.len() == 0 { assert(fs[0].0@ =~= fs[k].0@); assert(fs[0].0@ != fs[k].0@); }
    }
}
@open impl<TN: NodeImpl> ConstantField<TN, i8> {
@fn ConstantField::new
@opt str=bytes
@requires
    value@.len() > 0,
@ensures
    r.value@ == value@ && r.node_value == node_value,
@close
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for ConstantField<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> {
        txt_sem(if occurs(e.code, i, self.value@) { Some((self.node_value, self.value@.len() as int)) } else { None }, i)
    }
    open spec fn wf(&self, m: Md) -> bool { m == Md::L }
    open spec fn pure(&self) -> bool { true }
    open spec fn tokd(&self) -> bool { false }
    open spec fn null_s(&self) -> bool { self.value@.len() == 0 }
    open spec fn cons(&self) -> bool { true }
    open spec fn nullh_s(&self) -> bool { self.value@.len() == 0 && self.node_value is None }
    open spec fn first_s(&self) -> Set<TL> { Set::empty() }
    open spec fn nwf(&self) -> bool { self.bwf() }
    open spec fn bwf(&self) -> bool { true }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { true }
    open spec fn stays(&self) -> Set<&'static str> { Set::empty() }
    open spec fn heads(&self) -> Set<&'static str> { Set::empty() }
    open spec fn parts(&self) -> Set<&'static str> { Set::empty() }
    proof fn nlaw(&self) {}
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) {
        lemma_txt_laws(if occurs(e.code, i, self.value@) { Some((self.node_value, self.value@.len() as int)) } else { None }, e, i, self.null_s(), self.first_s());
    }
@fn IProduction@ConstantField::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17
@fn IProduction@ConstantField::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@ConstantField::obtain_nullability
@ghostcall is_nullable: = Ghost(om(vf_p1.map().dom(), self.depth()))
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@ConstantField::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@ConstantField::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@ConstantField::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@ConstantField::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@ConstantField::advance_ptr
@ghost vf_b: Ghost<Meas>
@close
@open impl<TN: NodeImpl> ConstantFieldSet<TN, i8> {
@fn ConstantFieldSet::new
@opt str=bytes
@opt bs.0=(&[u8], Option<TN>)
@opt rty.0=Vec<(Vec<u8>, Option<TN>)>
@opt bsk.0=usize
@ensures
    uniq_strs(values@) ==> lits_ok(r.fields@),
    forall|w: Bytes, n: Option<TN>| #[trigger] has_lit(r.fields@, w, n) <==> has_str(values@, w, n),
@proof start
    let ghost vs0 = values@;
@loop 0
    invariant
        vf_s0@ == values@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(), vf_r0@.len() == vf_i0,
        forall|k: int| 0 <= k < vf_i0 ==> (#[trigger] vf_r0@[k]).0@ == values@[k].0@ && vf_r0@[k].1 == values@[k].1,
    decreases vf_s0@.len() - vf_i0
@proof end
    if uniq_strs(vs0) {
        lemma_perm_uniq(vs0, values@, |p: (&[u8], Option<TN>)| p.0@);
        assert(uniq_strs(values@)) by {
            let f = |p: (&[u8], Option<TN>)| p.0@;
            assert forall|i: int, j: int| 0 <= i < j < values@.len() implies (#[trigger] values@[i]).0@ != (#[trigger] values@[j]).0@ by { assert(f(values@[i]) != f(values@[j])); }
        }
        assert(uniq_lits(fields@)) by {
            assert forall|i: int, j: int| 0 <= i < j < fields@.len() implies (#[trigger] fields@[i]).0@ != (#[trigger] fields@[j]).0@ by { assert(values@[i].0@ != values@[j].0@); }
        }
        let kf = |p: &(&[u8], Option<TN>)| p.0.len();
        assert forall|i: int, j: int| 0 <= i < j < fields@.len() implies !((#[trigger] fields@[j]).0@.len() < (#[trigger] fields@[i]).0@.len()) by { assert(!<usize as VfOrd>::lt(kf(&values@[j]), kf(&values@[i]))); }
    }
    assert forall|w: Bytes, n: Option<TN>| #[trigger] has_lit(fields@, w, n) <==> has_str(vs0, w, n) by {
        if has_lit(fields@, w, n) { let k = choose|k: int| 0 <= k < fields@.len() && (#[trigger] fields@[k]).0@ == w && fields@[k].1 == n; assert(vs0.contains(values@[k])); }
        if has_str(vs0, w, n) { let k = choose|k: int| 0 <= k < vs0.len() && (#[trigger] vs0[k]).0@ == w && vs0[k].1 == n; assert(values@.contains(vs0[k])); let q = choose|q: int| 0 <= q < values@.len() && values@[q] == vs0[k]; assert(fields@[q].0@ == w); }
    }
@close
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for ConstantFieldSet<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> { txt_sem(lit_find(self.fields@, e.code, i), i) }
    open spec fn wf(&self, m: Md) -> bool { m == Md::L && self.nwf() }
    open spec fn pure(&self) -> bool { true }
    open spec fn tokd(&self) -> bool { false }
    open spec fn null_s(&self) -> bool { exists|k: int| 0 <= k < self.fields@.len() && (#[trigger] self.fields@[k]).0@.len() == 0 }
    open spec fn cons(&self) -> bool { true }
    open spec fn nullh_s(&self) -> bool { exists|k: int| 0 <= k < self.fields@.len() && (#[trigger] self.fields@[k]).0@.len() == 0 && self.fields@[k].1 is None }
    open spec fn first_s(&self) -> Set<TL> { Set::empty() }
    open spec fn nwf(&self) -> bool { self.bwf() }
    open spec fn bwf(&self) -> bool { lits_ok(self.fields@) }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { true }
    open spec fn stays(&self) -> Set<&'static str> { Set::empty() }
    open spec fn heads(&self) -> Set<&'static str> { Set::empty() }
    open spec fn parts(&self) -> Set<&'static str> { Set::empty() }
    proof fn nlaw(&self) {}
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) {
        lemma_txt_laws(lit_find(self.fields@, e.code, i), e, i, self.null_s(), self.first_s());
    }
@fn IProduction@ConstantFieldSet::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17
@proof start
    lemma_empty_first(self.fields@);
@fn IProduction@ConstantFieldSet::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@proof start
    lemma_empty_first(self.fields@);
@loop 0
    invariant
        vf_s0@ == self.fields@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(),
        vf_stop0 ==> vf_i0 > 0 && self.fields@[vf_i0 - 1].0@.len() > 0,
        vf_r0 ==> self.nullh_s(),
        !vf_r0 ==> forall|k: int| 0 <= k < vf_i0 && (#[trigger] self.fields@[k]).0@.len() == 0 ==> self.fields@[k].1 is Some,
        forall|k: int| 0 < k < self.fields@.len() ==> (#[trigger] self.fields@[k]).0@.len() > 0,
    decreases vf_s0@.len() - vf_i0
@fn IProduction@ConstantFieldSet::obtain_nullability
@ghostcall is_nullable: = Ghost(om(vf_p1.map().dom(), self.depth()))
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@ConstantFieldSet::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@ConstantFieldSet::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@ConstantFieldSet::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@ConstantFieldSet::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@ConstantFieldSet::advance_ptr
@ghost vf_b: Ghost<Meas>
@loop 0
    invariant
        self.wf(Md::L), ppre(lenv::<TL>(code), Md::L, index.at(), *old(cache)), *cache == *old(cache),
        vf_s0@ == self.fields@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(),
        forall|q: int| vf_s0@.len() - vf_i0 <= q < vf_s0@.len() ==> !occurs(code.value@, index as int, (#[trigger] self.fields@[q]).0@),
    decreases vf_s0@.len() - vf_i0
@proof afterlet consumed_ptr
    lemma_scan(self.fields@, code.value@, index as int, vf_s0@.len() - vf_i0);
@close
/// the longest match in the tree is the longest literal that occurs
pub proof fn lemma_tree_find<V>(t: FieldTree<V>, vs: Seq<(Vec<u8>, V)>, code: Bytes, i: int)
    requires lits_ok(vs), tree_of(t, vs), 0 <= i <= code.len(),
    ensures ({
        let s = code.subrange(i, code.len() as int);
        &&& forall|n: int| 0 <= n <= s.len() && #[trigger] ft_get(t, s.subrange(0, n)) is Some && (forall|k: int| 0 <= k <= s.len() && (#[trigger] ft_get(t, s.subrange(0, k))) is Some ==> k <= n)
            ==> lit_find(vs, code, i) == Some((ft_get(t, s.subrange(0, n))->Some_0, n))
        &&& (forall|k: int| 0 <= k <= s.len() ==> (#[trigger] ft_get(t, s.subrange(0, k))) is None) ==> lit_find(vs, code, i) is None
    }),
{
    let s = code.subrange(i, code.len() as int);
    assert forall|n: int| 0 <= n <= s.len() && #[trigger] ft_get(t, s.subrange(0, n)) is Some && (forall|k: int| 0 <= k <= s.len() && (#[trigger] ft_get(t, s.subrange(0, k))) is Some ==> k <= n)
        implies lit_find(vs, code, i) == Some((ft_get(t, s.subrange(0, n))->Some_0, n)) by {
        let w = s.subrange(0, n);
        let k = choose|k: int| 0 <= k < vs.len() && (#[trigger] vs[k]).0@ == w;
        assert forall|q: int| 0 <= q < vs.len() && occurs(code, i, (#[trigger] vs[q]).0@) implies vs[q].0@.len() <= vs[k].0@.len() by {
            assert(ft_get(t, s.subrange(0, vs[q].0@.len() as int)) is Some);
        }
        assert(longest(vs, code, i, k));
        lemma_longest(vs, code, i, k);
    }
    if forall|k: int| 0 <= k <= s.len() ==> (#[trigger] ft_get(t, s.subrange(0, k))) is None {
        if lit_find(vs, code, i) is Some {
            let k = choose|k: int| longest(vs, code, i, k);
            assert(ft_get(t, s.subrange(0, vs[k].0@.len() as int)) is Some);
        }
    }
}
@open impl<TN: NodeImpl> PunctuationsField<TN, i8> {
@fn PunctuationsField::new
@opt str=bytes
@opt bs.0=(Vec<u8>, Option<TN>)
@opt rty.1=Vec<(Vec<u8>, Option<TN>)>
@opt bsk.0=usize
@props C03 C05
@ensures
    [C03.reg] r is Ok <==> values@.len() > 0 && uniq_strs(values@),
    [C03.reg] r is Ok ==> lits_ok(r->Ok_0.values@) && ft_wf(r->Ok_0.tree) && tree_of(r->Ok_0.tree, r->Ok_0.values@),
    [C03.reg] forall|w: Bytes, n: Option<TN>| r is Ok ==> (#[trigger] has_lit(r->Ok_0.values@, w, n) <==> has_str(values@, w, n)),
@proof start
    let ghost vs0 = values@;
@loop 0
    invariant
        vf_s0@ == values@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(), ft_wf(field_tree), values@ == vs0,
        forall|k: int| 0 <= k < vf_i0 ==> ft_get(field_tree, (#[trigger] values@[k]).0@) == Some(values@[k].1),
        forall|w: Bytes| (#[trigger] ft_get(field_tree, w)) is Some ==> exists|k: int| 0 <= k < vf_i0 && (#[trigger] values@[k]).0@ == w,
        forall|i: int, j: int| 0 <= i < j < vf_i0 ==> (#[trigger] values@[i]).0@ != (#[trigger] values@[j]).0@,
    decreases vf_s0@.len() - vf_i0
@loop 1
    invariant
        vf_s1@ == values@, vf_s1@.len() <= isize::MAX, 0 <= vf_i1 <= vf_s1@.len(), vf_r1@.len() == vf_i1, values@ == vs0,
        forall|k: int| 0 <= k < vf_i1 ==> (#[trigger] vf_r1@[k]).0@ == values@[k].0@ && vf_r1@[k].1 == values@[k].1,
    decreases vf_s1@.len() - vf_i1
@proof afterlet values
    let ghost vs1 = values@;
    assert(uniq_lits(vs1)) by { assert forall|i: int, j: int| 0 <= i < j < vs1.len() implies (#[trigger] vs1[i]).0@ != (#[trigger] vs1[j]).0@ by { assert(vs0[i].0@ != vs0[j].0@); } }
@proof end
    lemma_perm_uniq(vs1, values@, |p: (Vec<u8>, Option<TN>)| p.0@);
    assert(uniq_lits(values@)) by {
        let f = |p: (Vec<u8>, Option<TN>)| p.0@;
        assert forall|i: int, j: int| 0 <= i < j < values@.len() implies (#[trigger] values@[i]).0@ != (#[trigger] values@[j]).0@ by { assert(f(values@[i]) != f(values@[j])); }
    }
    let kf = |p: &(Vec<u8>, Option<TN>)| p.0.len();
    assert forall|i: int, j: int| 0 <= i < j < values@.len() implies !((#[trigger] values@[j]).0@.len() < (#[trigger] values@[i]).0@.len()) by { assert(!<usize as VfOrd>::lt(kf(&values@[j]), kf(&values@[i]))); }
    assert forall|w: Bytes, n: Option<TN>| #[trigger] has_lit(values@, w, n) <==> has_str(vs0, w, n) by {
        if has_lit(values@, w, n) { let k = choose|k: int| 0 <= k < values@.len() && (#[trigger] values@[k]).0@ == w && values@[k].1 == n; assert(vs1.contains(values@[k])); let q = choose|q: int| 0 <= q < vs1.len() && vs1[q] == values@[k]; assert(vs0[q].0@ == w); }
        if has_str(vs0, w, n) { let k = choose|k: int| 0 <= k < vs0.len() && (#[trigger] vs0[k]).0@ == w && vs0[k].1 == n; assert(values@.contains(vs1[k])); let q = choose|q: int| 0 <= q < values@.len() && values@[q] == vs1[k]; assert(values@[q].0@ == w); }
    }
    assert(tree_of(field_tree, values@)) by {
        assert forall|k: int| 0 <= k < values@.len() implies ft_get(field_tree, (#[trigger] values@[k]).0@) == Some(values@[k].1) by {
            assert(vs1.contains(values@[k])); let q = choose|q: int| 0 <= q < vs1.len() && vs1[q] == values@[k]; assert(vs0[q].0@ == values@[k].0@);
        }
        assert forall|w: Bytes| (#[trigger] ft_get(field_tree, w)) is Some implies exists|k: int| 0 <= k < values@.len() && (#[trigger] values@[k]).0@ == w by {
            let k = choose|k: int| 0 <= k < vs0.len() && (#[trigger] vs0[k]).0@ == w;
            assert(vs1[k].0@ == w);
            assert(values@.contains(vs1[k])); let q = choose|q: int| 0 <= q < values@.len() && values@[q] == vs1[k]; assert(values@[q].0@ == w);
        }
    }
@close
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for PunctuationsField<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> { txt_sem(lit_find(self.values@, e.code, i), i) }
    open spec fn wf(&self, m: Md) -> bool { m == Md::L && self.nwf() }
    open spec fn pure(&self) -> bool { true }
    open spec fn tokd(&self) -> bool { false }
    open spec fn null_s(&self) -> bool { exists|k: int| 0 <= k < self.values@.len() && (#[trigger] self.values@[k]).0@.len() == 0 }
    open spec fn cons(&self) -> bool { true }
    open spec fn nullh_s(&self) -> bool { exists|k: int| 0 <= k < self.values@.len() && (#[trigger] self.values@[k]).0@.len() == 0 && self.values@[k].1 is None }
    open spec fn first_s(&self) -> Set<TL> { Set::empty() }
    open spec fn nwf(&self) -> bool { self.bwf() }
    open spec fn bwf(&self) -> bool {
        &&& lits_ok(self.values@)
        &&& ft_wf(self.tree) && tree_of(self.tree, self.values@)
    }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { true }
    open spec fn stays(&self) -> Set<&'static str> { Set::empty() }
    open spec fn heads(&self) -> Set<&'static str> { Set::empty() }
    open spec fn parts(&self) -> Set<&'static str> { Set::empty() }
    proof fn nlaw(&self) {}
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) {
        lemma_txt_laws(lit_find(self.values@, e.code, i), e, i, self.null_s(), self.first_s());
    }
@fn IProduction@PunctuationsField::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17
@proof start
    lemma_empty_first(self.values@);
@fn IProduction@PunctuationsField::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@proof start
    lemma_empty_first(self.values@);
@loop 0
    invariant
        vf_s0@ == self.values@, vf_s0@.len() <= isize::MAX, 0 <= vf_i0 <= vf_s0@.len(),
        vf_stop0 ==> vf_i0 > 0 && self.values@[vf_i0 - 1].0@.len() > 0,
        vf_r0 ==> self.nullh_s(),
        !vf_r0 ==> forall|k: int| 0 <= k < vf_i0 && (#[trigger] self.values@[k]).0@.len() == 0 ==> self.values@[k].1 is Some,
        forall|k: int| 0 < k < self.values@.len() ==> (#[trigger] self.values@[k]).0@.len() > 0,
    decreases vf_s0@.len() - vf_i0
@fn IProduction@PunctuationsField::obtain_nullability
@ghostcall is_nullable: = Ghost(om(vf_p1.map().dom(), self.depth()))
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@PunctuationsField::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@PunctuationsField::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@PunctuationsField::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@PunctuationsField::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@PunctuationsField::advance_ptr
@ghost vf_b: Ghost<Meas>
@props C03
@proof start
    lemma_tree_find(self.tree, self.values@, code.value@, index as int);
@close
@open impl<TN: NodeImpl> RegexField<TN, i8> {
@fn RegexField::new
@ensures
    r is Ok ==> r->Ok_0.node_value == node_value,
@close
@open impl<TN: NodeImpl, TL: TokenImpl> IProduction for RegexField<TN, TL> {
    type Node = TN;
    type Token = TL;
    open spec fn sem(&self, e: Env<TL>, m: Md, i: int) -> PRes<TN> {
        txt_sem(match self.regexp.rx(e.code.subrange(i, e.code.len() as int)) { Some(n) => Some((self.node_value, n)), None => None }, i)
    }
    open spec fn wf(&self, m: Md) -> bool { m == Md::L }
    open spec fn pure(&self) -> bool { true }
    open spec fn tokd(&self) -> bool { false }
    open spec fn null_s(&self) -> bool { self.regexp.rx(Seq::empty()) is Some }
    open spec fn cons(&self) -> bool { forall|s: Bytes| #[trigger] self.regexp.rx(s) == Some(0int) ==> self.null_s() }
    open spec fn nullh_s(&self) -> bool { self.null_s() && self.node_value is None }
    open spec fn first_s(&self) -> Set<TL> { Set::empty() }
    open spec fn nwf(&self) -> bool { self.bwf() }
    open spec fn bwf(&self) -> bool { true }
    open spec fn depth(&self) -> nat { 0 }
    open spec fn fwd(&self, m: Md) -> bool { true }
    open spec fn stays(&self) -> Set<&'static str> { Set::empty() }
    open spec fn heads(&self) -> Set<&'static str> { Set::empty() }
    open spec fn parts(&self) -> Set<&'static str> { Set::empty() }
    proof fn nlaw(&self) {}
    proof fn laws(&self, e: Env<TL>, m: Md, i: int) {
        lemma_txt_laws(match self.regexp.rx(e.code.subrange(i, e.code.len() as int)) { Some(n) => Some((self.node_value, n)), None => None }, e, i, self.null_s(), self.first_s());
    }
@fn IProduction@RegexField::is_nullable
@ghost vf_b: Ghost<Meas>
@props C17
@fn IProduction@RegexField::is_nullable_n_hidden
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m2(self.heads(), self.depth()))
@ghostcall is_nullable_n_hidden: = Ghost(m2(self.heads(), self.depth()))
@props C17
@fn IProduction@RegexField::obtain_nullability
@ghostcall is_nullable: = Ghost(om(vf_p1.map().dom(), self.depth()))
@props C17 ~C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@RegexField::validate
@props C16
@ghost vf_w: &mut World
@ghost vf_l: Ghost<Meas>
@fn IProduction@RegexField::impl_first_set
@ghost vf_b: Ghost<Meas>
@ghostcall is_nullable: = Ghost(m3(self.heads(), self.depth()))
@ghostcall impl_first_set: = Ghost(m3(self.heads(), self.depth()))
@props C17
@fn IProduction@RegexField::advance_fltr_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@RegexField::advance_token_ptr
@ghost vf_b: Ghost<Meas>
@fn IProduction@RegexField::advance_ptr
@ghost vf_b: Ghost<Meas>
@close
