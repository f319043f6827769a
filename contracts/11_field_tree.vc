@module field_tree
@modprops C03
@struct FieldTree rr

/// the token registered for the byte string w
pub open spec fn ft_get<T>(t: FieldTree<T>, w: Bytes) -> Option<T> decreases w.len() {
    if w.len() == 0 { t.token }
    else {
        let j = ft_child(t, w[0]);
        if 0 <= j < t.children@.len() { ft_get(t.children@[j].1, w.drop_first()) } else { None }
    }
}
/// index of the child for byte b, or -1
pub open spec fn ft_child<T>(t: FieldTree<T>, b: u8) -> int {
    if exists|j: int| 0 <= j < t.children@.len() && #[trigger] t.children@[j].0 == b {
        choose|j: int| 0 <= j < t.children@.len() && #[trigger] t.children@[j].0 == b
    } else { -1 }
}
/// children are sorted by their byte, without duplicates, at every level
pub open spec fn ft_wf<T>(t: FieldTree<T>) -> bool decreases t {
    &&& forall|i: int, j: int| 0 <= i < j < t.children@.len() ==> (#[trigger] t.children@[i]).0 < (#[trigger] t.children@[j]).0
    &&& forall|j: int| 0 <= j < t.children@.len() ==> ft_wf((#[trigger] t.children@[j]).1)
}
pub proof fn lemma_child<T>(t: FieldTree<T>, b: u8, j: int)
    requires ft_wf(t), 0 <= j < t.children@.len(), t.children@[j].0 == b,
    ensures ft_child(t, b) == j,
{
    let k = ft_child(t, b);
    assert(0 <= k < t.children@.len() && t.children@[k].0 == b);
    if k < j { assert(t.children@[k].0 < t.children@[j].0); }
    if j < k { assert(t.children@[j].0 < t.children@[k].0); }
}
pub open spec fn is_prefix(p: Bytes, s: Bytes) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub proof fn lemma_get_none<T>(t: FieldTree<T>, w: Bytes)
    requires t.token is None, t.children@.len() == 0,
    ensures ft_get(t, w) is None,
{}

pub proof fn lemma_child_none<T>(t: FieldTree<T>, b: u8)
    requires forall|j: int| 0 <= j < t.children@.len() ==> (#[trigger] t.children@[j]).0 != b,
    ensures ft_child(t, b) == -1,
{}
/// replacing the subtree of one child
pub proof fn lemma_update<T>(o: FieldTree<T>, n: FieldTree<T>, j: int, c: FieldTree<T>)
    requires
        ft_wf(o), 0 <= j < o.children@.len(), n.token == o.token, ft_wf(c),
        n.children@ == o.children@.update(j, (o.children@[j].0, c)),
    ensures
        ft_wf(n),
        forall|w: Bytes| #[trigger] ft_get(n, w) == (if w.len() > 0 && w[0] == o.children@[j].0 { ft_get(c, w.drop_first()) } else { ft_get(o, w) }),
{
    assert forall|k: int| 0 <= k < n.children@.len() implies ft_wf((#[trigger] n.children@[k]).1) && n.children@[k].0 == o.children@[k].0 by {
        if k != j { assert(n.children@[k] == o.children@[k]); }
    }
    assert forall|i: int, k: int| 0 <= i < k < n.children@.len() implies (#[trigger] n.children@[i]).0 < (#[trigger] n.children@[k]).0 by {
        assert(o.children@[i].0 < o.children@[k].0);
    }
    assert forall|w: Bytes| #[trigger] ft_get(n, w) == (if w.len() > 0 && w[0] == o.children@[j].0 { ft_get(c, w.drop_first()) } else { ft_get(o, w) }) by {
        if w.len() > 0 {
            let b = w[0];
            let k = ft_child(o, b);
            if 0 <= k < o.children@.len() && o.children@[k].0 == b {
                lemma_child(o, b, k);
                assert(n.children@[k].0 == b);
                lemma_child(n, b, k);
                if b == o.children@[j].0 { lemma_child(o, b, j); assert(k == j); }
            } else {
                assert forall|q: int| 0 <= q < o.children@.len() implies (#[trigger] o.children@[q]).0 != b by {
                    if o.children@[q].0 == b { lemma_child(o, b, q); }
                }
                assert forall|q: int| 0 <= q < n.children@.len() implies (#[trigger] n.children@[q]).0 != b by { assert(o.children@[q].0 != b); }
                lemma_child_none(n, b);
            }
        }
    }
}
/// inserting a new child
pub proof fn lemma_insert<T>(o: FieldTree<T>, n: FieldTree<T>, i: int, b: u8, c: FieldTree<T>)
    requires
        ft_wf(o), 0 <= i <= o.children@.len(), n.token == o.token, ft_wf(c),
        forall|j: int| 0 <= j < i ==> (#[trigger] o.children@[j]).0 < b,
        forall|j: int| i <= j < o.children@.len() ==> b < (#[trigger] o.children@[j]).0,
        n.children@ == o.children@.insert(i, (b, c)),
    ensures
        ft_wf(n),
        ft_child(o, b) == -1,
        forall|w: Bytes| #[trigger] ft_get(n, w) == (if w.len() > 0 && w[0] == b { ft_get(c, w.drop_first()) } else { ft_get(o, w) }),
{
    let oc = o.children@;
    let nc = n.children@;
    assert forall|k: int| 0 <= k < nc.len() implies ft_wf((#[trigger] nc[k]).1) by {
        if k < i { assert(nc[k] == oc[k]); } else if k > i { assert(nc[k] == oc[k - 1]); }
    }
    assert forall|p: int, q: int| 0 <= p < q < nc.len() implies (#[trigger] nc[p]).0 < (#[trigger] nc[q]).0 by {
        if p < i { assert(nc[p] == oc[p]); } else if p > i { assert(nc[p] == oc[p - 1]); }
        if q < i { assert(nc[q] == oc[q]); } else if q > i { assert(nc[q] == oc[q - 1]); }
    }
    lemma_child_none(o, b);
    assert forall|w: Bytes| #[trigger] ft_get(n, w) == (if w.len() > 0 && w[0] == b { ft_get(c, w.drop_first()) } else { ft_get(o, w) }) by {
        if w.len() > 0 {
            let x = w[0];
            assert(nc[i] == (b, c));
            if x == b { lemma_child(n, b, i); }
            else {
                let k = ft_child(o, x);
                if 0 <= k < oc.len() && oc[k].0 == x {
                    let k2 = if k < i { k } else { k + 1 };
                    assert(nc[k2] == oc[k]);
                    lemma_child(n, x, k2);
                } else {
                    assert forall|q: int| 0 <= q < oc.len() implies (#[trigger] oc[q]).0 != x by {
                        if oc[q].0 == x { lemma_child(o, x, q); }
                    }
                    assert forall|q: int| 0 <= q < nc.len() implies (#[trigger] nc[q]).0 != x by {
                        if q < i { assert(nc[q] == oc[q]); } else if q > i { assert(nc[q] == oc[q - 1]); }
                    }
                    lemma_child_none(n, x);
                }
            }
        }
    }
}
/// a byte string is its first byte and the rest
pub proof fn lemma_cons(v: Bytes, w: Bytes)
    requires v.len() > 0, w.len() > 0, w[0] == v[0],
    ensures (w == v) == (w.drop_first() == v.drop_first()),
{
    assert(v =~= seq![v[0]] + v.drop_first());
    assert(w =~= seq![w[0]] + w.drop_first());
}
@open impl<TToken> FieldTree<TToken> {
@fn FieldTree::new
@ensures
    ft_wf(r) && r.token is None && r.children@.len() == 0,
    forall|w: Bytes| (#[trigger] ft_get(r, w)) is None,
@fn FieldTree::insert
@requires
    ft_wf(*old(self)),
@ensures
    [C03.insert] ft_wf(*final(self)),
    [C03.insert] forall|w: Bytes| #[trigger] ft_get(*final(self), w) == (if w == value@ { Some(token) } else { ft_get(*old(self), w) }),
    [C03.dup] match ft_get(*old(self), value@) { Some(t) => r == Err::<(), TToken>(t), None => r is Ok },
@decreases value@.len()
@opt bs.0=(u8, FieldTree<TToken>)
@proof start
    assert(value@.len() > 0 ==> value@.drop_first() =~= value@.subrange(1, value@.len() as int));
    assert forall|w: Bytes| value@.len() > 0 && w.len() > 0 && w[0] == value@[0] implies (w == value@) == (#[trigger] w.drop_first() == value@.drop_first()) by { lemma_cons(value@, w); }
    assert(value@.len() == 0 ==> value@ =~= Seq::<u8>::empty());
@proof armend Ok(index)
    lemma_child(*old(self), value@[0], index as int);
    lemma_update(*old(self), *self, index as int, self.children@[index as int].1);
@proof armend Err(index)
    lemma_insert(*old(self), *self, index as int, value@[0], self.children@[index as int].1);
@proof armend Some(t)
    assert forall|w: Bytes| w.len() == 0 implies #[trigger] ft_get(*self, w) == self.token && w =~= Seq::<u8>::empty() by {}
    assert(self.children == old(self).children);
    assert forall|w: Bytes| w.len() > 0 implies #[trigger] ft_get(*self, w) == ft_get(*old(self), w) by { assert(ft_child(*self, w[0]) == ft_child(*old(self), w[0])); }
@proof armend None
    assert forall|w: Bytes| w.len() == 0 implies #[trigger] ft_get(*self, w) == self.token && w =~= Seq::<u8>::empty() by {}
    assert(self.children == old(self).children);
    assert forall|w: Bytes| w.len() > 0 implies #[trigger] ft_get(*self, w) == ft_get(*old(self), w) by { assert(ft_child(*self, w[0]) == ft_child(*old(self), w[0])); }
@close
@open impl<TToken: Clone> FieldTree<TToken> {
@fn FieldTree::find
@requires
    ft_wf(*self),
@ensures
    [C03.found] match r {
        Some(p) => p.1 <= code_part@.len() && ft_get(*self, code_part@.subrange(0, p.1 as int)) == Some(p.0),
        None => true
    },
    [C03.longest] forall|k: int| 0 <= k <= code_part@.len() && (#[trigger] ft_get(*self, code_part@.subrange(0, k))) is Some ==> r is Some && k <= r->Some_0.1,
@opt bs.0=(u8, FieldTree<TToken>)
@loop 0
    invariant
        index <= code_part@.len(),
        ft_wf(*current_field),
        forall|w: Bytes| #[trigger] ft_get(*current_field, w) == ft_get(*self, code_part@.subrange(0, index as int) + w),
        match longest_match {
            Some(p) => p.1 < index && ft_get(*self, code_part@.subrange(0, p.1 as int)) == Some(p.0),
            None => true
        },
        forall|k: int| 0 <= k < index && (#[trigger] ft_get(*self, code_part@.subrange(0, k))) is Some ==> longest_match is Some && k <= longest_match->Some_0.1,
    decreases code_part@.len() - index
@proof start
    assert forall|w: Bytes| #[trigger] (code_part@.subrange(0, 0) + w) == w by { assert(code_part@.subrange(0, 0) + w =~= w); }
@proof looptop 0
    assert(ft_get(*current_field, Seq::<u8>::empty()) == current_field.token);
    assert(code_part@.subrange(0, index as int) + Seq::<u8>::empty() =~= code_part@.subrange(0, index as int));
@proof armstart Ok(i)
    let ghost vf_cf = *current_field;
    let ghost vf_ix = index as int;
@proof armend Ok(i)
    lemma_child(vf_cf, code_part@[vf_ix], i as int);
    assert forall|w: Bytes| #[trigger] ft_get(*current_field, w) == ft_get(*self, code_part@.subrange(0, index as int) + w) by {
        let w2 = seq![code_part@[vf_ix]] + w;
        assert(w2.drop_first() =~= w);
        assert(ft_get(vf_cf, w2) == ft_get(*current_field, w));
        assert(code_part@.subrange(0, vf_ix) + w2 =~= code_part@.subrange(0, index as int) + w);
    }
@proof armstart Err(_)
    assert(ft_child(*current_field, code_part@[index as int]) == -1);
    assert forall|k: int| index < k <= code_part@.len() implies (#[trigger] ft_get(*self, code_part@.subrange(0, k))) is None by {
        let w = code_part@.subrange(index as int, k);
        assert(code_part@.subrange(0, index as int) + w =~= code_part@.subrange(0, k));
        assert(ft_get(*current_field, w) is None);
    }
@close
