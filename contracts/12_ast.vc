@module ptrs
@modprops C13
@struct TokenPtr derive=Clone,Copy,PartialEq,Eq,PartialOrd,Ord
@struct FltrPtr derive=Clone,Copy,PartialEq,Eq,PartialOrd,Ord
use vstd::std_specs::cmp::*;
impl VfOrd for TokenPtr { open spec fn lt(a: TokenPtr, b: TokenPtr) -> bool { a.0 < b.0 } }
impl VfOrd for FltrPtr { open spec fn lt(a: FltrPtr, b: FltrPtr) -> bool { a.0 < b.0 } }
## derived order of the position types (derive(PartialOrd) on a single field)
impl PartialEqSpecImpl for TokenPtr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &TokenPtr) -> bool { self.0 == o.0 } }
impl PartialOrdSpecImpl for TokenPtr {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &TokenPtr) -> Option<core::cmp::Ordering> {
        if self.0 < o.0 { Some(core::cmp::Ordering::Less) } else if self.0 == o.0 { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
impl PartialEqSpecImpl for FltrPtr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &FltrPtr) -> bool { self.0 == o.0 } }
impl PartialOrdSpecImpl for FltrPtr {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &FltrPtr) -> Option<core::cmp::Ordering> {
        if self.0 < o.0 { Some(core::cmp::Ordering::Less) } else if self.0 == o.0 { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) }
    }
}
## bounds of generic parameters only (the contracts of these functions are below)
#[verifier::external]
impl core::hash::Hash for FltrPtr { fn hash<H: core::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
#[verifier::external]
impl Default for FltrPtr { fn default() -> Self { FltrPtr(0) } }
/// lawful equality (an assumption on the user's token / node types)
pub open spec fn eq_ok<T: PartialEq>() -> bool {
    &&& T::obeys_eq_spec()
    &&& forall|a: T, b: T| #![trigger a.eq_spec(&b)] a.eq_spec(&b) == (a == b)
}
@open impl TokenPtr {
@fn TokenPtr::new
@ensures
    r.0 == index,
@fn Default@TokenPtr::default
@ensures
    r.0 == 0,
@fn TokenPtr::origin
@ensures
    r.0 == 0,
@fn TokenPtr::is_origin
@ensures
    r == (self.0 == 0),
@fn From<usize>@TokenPtr::from
@ensures
    r.0 == us,
@close
@open impl vstd::std_specs::ops::AddSpecImpl<usize> for TokenPtr {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: usize) -> bool { self.0 + rhs <= usize::MAX }
    open spec fn add_spec(self, rhs: usize) -> TokenPtr { TokenPtr((self.0 + rhs) as usize) }
@close
@open impl core::ops::Add<usize> for TokenPtr {
    type Output = TokenPtr;
@fn Add<usize>@TokenPtr::add
@close
@open impl vstd::std_specs::ops::SubSpecImpl<usize> for TokenPtr {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: usize) -> bool { self.0 >= rhs }
    open spec fn sub_spec(self, rhs: usize) -> TokenPtr { TokenPtr((self.0 - rhs) as usize) }
@close
@open impl core::ops::Sub<usize> for TokenPtr {
    type Output = TokenPtr;
@fn Sub<usize>@TokenPtr::sub
@close
@open impl FltrPtr {
@fn FltrPtr::new
@ensures
    r.0 == index,
@fn Default@FltrPtr::default
@ensures
    r.0 == 0,
@close
@open impl vstd::std_specs::ops::AddSpecImpl<usize> for FltrPtr {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: usize) -> bool { rhs != 0 && self.0 + rhs <= usize::MAX }
    open spec fn add_spec(self, rhs: usize) -> FltrPtr { FltrPtr((self.0 + rhs) as usize) }
@close
@open impl core::ops::Add<usize> for FltrPtr {
    type Output = FltrPtr;
@fn Add<usize>@FltrPtr::add
@close
@open impl vstd::std_specs::ops::SubSpecImpl<usize> for FltrPtr {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, rhs: usize) -> bool { self.0 >= rhs }
    open spec fn sub_spec(self, rhs: usize) -> FltrPtr { FltrPtr((self.0 - rhs) as usize) }
@close
@open impl core::ops::Sub<usize> for FltrPtr {
    type Output = FltrPtr;
@fn Sub<usize>@FltrPtr::sub
@close

@module ast
@modprops C14
@struct ASTNode rr

/// pre-order walk: the node itself, then its children left to right
pub open spec fn pre<N>(t: ASTNode<N>) -> Seq<ASTNode<N>> decreases t, t.children@.len() + 1 {
    seq![t] + pre_upto(t, t.children@.len() as int)
}
pub open spec fn pre_upto<N>(t: ASTNode<N>, k: int) -> Seq<ASTNode<N>> decreases t, k {
    if 0 < k <= t.children@.len() { pre_upto(t, k - 1) + pre(t.children@[k - 1]) } else { Seq::empty() }
}
pub open spec fn first_in<A>(s: Seq<A>, p: spec_fn(A) -> bool) -> Option<A> decreases s.len() {
    if s.len() == 0 { None } else if p(s[0]) { Some(s[0]) } else { first_in(s.drop_first(), p) }
}
pub open spec fn all_in<A>(s: Seq<A>, p: spec_fn(A) -> bool) -> Seq<A> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { all_in(s.drop_last(), p) + (if p(s.last()) { seq![s.last()] } else { Seq::empty() }) }
}
pub proof fn lemma_first_add<A>(a: Seq<A>, b: Seq<A>, p: spec_fn(A) -> bool)
    ensures first_in(a + b, p) == (match first_in(a, p) { Some(x) => Some(x), None => first_in(b, p) }),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).drop_first() =~= a.drop_first() + b); lemma_first_add(a.drop_first(), b, p); }
}
pub proof fn lemma_all_add<A>(a: Seq<A>, b: Seq<A>, p: spec_fn(A) -> bool)
    ensures all_in(a + b, p) == all_in(a, p) + all_in(b, p),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(all_in(a, p) + all_in(b, p) =~= all_in(a, p)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_all_add(a, b.drop_last(), p);
        assert(all_in(a, p) + (all_in(b.drop_last(), p) + (if p(b.last()) { seq![b.last()] } else { Seq::empty() }))
            =~= (all_in(a, p) + all_in(b.drop_last(), p)) + (if p(b.last()) { seq![b.last()] } else { Seq::empty() }));
    }
}
pub proof fn lemma_first_one<A>(x: A, p: spec_fn(A) -> bool)
    ensures first_in(seq![x], p) == (if p(x) { Some(x) } else { None::<A> }), all_in(seq![x], p) == (if p(x) { seq![x] } else { Seq::empty() }),
{
    assert(seq![x].drop_first() =~= Seq::<A>::empty());
    assert(seq![x].drop_last() =~= Seq::<A>::empty());
    assert(first_in(Seq::<A>::empty(), p) is None);
    assert(all_in(Seq::<A>::empty(), p) =~= Seq::<A>::empty());
    assert(all_in(seq![x], p) =~= (if p(x) { seq![x] } else { Seq::empty() }));
}
/// once a match is found among the first children, the later ones do not matter
pub proof fn lemma_first_upto<N>(t: ASTNode<N>, k: int, p: spec_fn(ASTNode<N>) -> bool)
    requires 0 <= k <= t.children@.len(), first_in(pre_upto(t, k), p) is Some,
    ensures first_in(pre_upto(t, t.children@.len() as int), p) == first_in(pre_upto(t, k), p),
    decreases t.children@.len() - k
{
    if k < t.children@.len() {
        lemma_first_add(pre_upto(t, k), pre(t.children@[k]), p);
        lemma_first_upto(t, k + 1, p);
    }
}
pub proof fn lemma_first_step<N>(t: ASTNode<N>, k: int, p: spec_fn(ASTNode<N>) -> bool)
    requires 0 <= k < t.children@.len(),
    ensures first_in(pre_upto(t, k + 1), p) == (match first_in(pre_upto(t, k), p) { Some(x) => Some(x), None => first_in(pre(t.children@[k]), p) }),
        all_in(pre_upto(t, k + 1), p) == all_in(pre_upto(t, k), p) + all_in(pre(t.children@[k]), p),
{
    lemma_first_add(pre_upto(t, k), pre(t.children@[k]), p);
    lemma_all_add(pre_upto(t, k), pre(t.children@[k]), p);
}
pub proof fn lemma_first_root<N>(t: ASTNode<N>, p: spec_fn(ASTNode<N>) -> bool)
    ensures
        first_in(pre(t), p) == (if p(t) { Some(t) } else { first_in(pre_upto(t, t.children@.len() as int), p) }),
        all_in(pre(t), p) == (if p(t) { seq![t] } else { Seq::empty() }) + all_in(pre_upto(t, t.children@.len() as int), p),
{
    lemma_first_one(t, p);
    lemma_first_add(seq![t], pre_upto(t, t.children@.len() as int), p);
    lemma_all_add(seq![t], pre_upto(t, t.children@.len() as int), p);
}
/// first_in finds a match exactly when there is one
pub proof fn lemma_first_exists<A>(s: Seq<A>, p: spec_fn(A) -> bool)
    ensures first_in(s, p) is Some <==> exists|i: int| 0 <= i < s.len() && p(#[trigger] s[i]),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_first_exists(s.drop_first(), p);
        if p(s[0]) {} else {
            if exists|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) {
                let i = choose|i: int| 0 <= i < s.len() && p(#[trigger] s[i]);
                assert(s.drop_first()[i - 1] == s[i]);
            }
            if exists|i: int| 0 <= i < s.drop_first().len() && p(#[trigger] s.drop_first()[i]) {
                let i = choose|i: int| 0 <= i < s.drop_first().len() && p(#[trigger] s.drop_first()[i]);
                assert(s.drop_first()[i] == s[i + 1]);
            }
        }
    }
}
pub open spec fn has_node<N>(v: N) -> spec_fn(ASTNode<N>) -> bool { |x: ASTNode<N>| x.node == v }
/// the searches applied one inside the other
pub open spec fn nested<N>(t: ASTNode<N>, vs: Seq<N>, k: int) -> Option<ASTNode<N>> decreases k {
    if k <= 0 { Some(t) } else {
        match nested(t, vs, k - 1) { Some(x) => first_in(pre(x), has_node(vs[k - 1])), None => None }
    }
}
pub proof fn lemma_nested_none<N>(t: ASTNode<N>, vs: Seq<N>, k: int, n: int)
    requires 0 <= k <= n, nested(t, vs, k) is None,
    ensures nested(t, vs, n) is None,
    decreases n - k
{ if k < n { lemma_nested_none(t, vs, k + 1, n); } }
pub open spec fn fold_walk<N, R>(s: Seq<ASTNode<N>>, r: R, step: spec_fn(R, ASTNode<N>) -> R) -> R decreases s.len() {
    if s.len() == 0 { r } else { step(fold_walk(s.drop_last(), r, step), s.last()) }
}
pub proof fn lemma_fold_add<N, R>(a: Seq<ASTNode<N>>, b: Seq<ASTNode<N>>, r: R, step: spec_fn(R, ASTNode<N>) -> R)
    ensures fold_walk(a + b, r, step) == fold_walk(b, fold_walk(a, r, step), step),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_fold_add(a, b.drop_last(), r, step); }
}
pub open spec fn deref_seq<N>(s: Seq<&ASTNode<N>>) -> Seq<ASTNode<N>> { s.map_values(|x: &ASTNode<N>| *x) }
pub open spec fn derefs<'a, N>() -> spec_fn(Vec<&'a ASTNode<N>>) -> Seq<ASTNode<N>> { |l: Vec<&'a ASTNode<N>>| deref_seq(l@) }
pub open spec fn add_if<N>(p: spec_fn(ASTNode<N>) -> bool) -> spec_fn(Seq<ASTNode<N>>, ASTNode<N>) -> Seq<ASTNode<N>> {
    |s: Seq<ASTNode<N>>, n: ASTNode<N>| if p(n) { s.push(n) } else { s }
}
pub proof fn lemma_push_deref<N>(s: Seq<&ASTNode<N>>, n: &ASTNode<N>)
    ensures deref_seq(s.push(n)) == deref_seq(s).push(*n),
{ assert(deref_seq(s.push(n)) =~= deref_seq(s).push(*n)); }
pub proof fn lemma_fold_list<N>(s: Seq<ASTNode<N>>, p: spec_fn(ASTNode<N>) -> bool)
    ensures fold_walk(s, Seq::empty(), add_if(p)) == all_in(s, p),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_fold_list(s.drop_last(), p);
        assert(all_in(s.drop_last(), p) + seq![s.last()] =~= all_in(s.drop_last(), p).push(s.last()));
        assert(all_in(s.drop_last(), p) + Seq::empty() =~= all_in(s.drop_last(), p));
    }
}
@open impl<TNode> ASTNode<TNode> {
@fn ASTNode::new
@props C08 C15
@ensures
    r.node == node && r.start == start && r.end == end && r.bound == bound && r.children == children,
@fn ASTNode::leaf
@props C05 C15
@ensures
    r.node == node && r.start == start && r.end == end && r.bound == bound && r.children@.len() == 0,
@close
@open impl<TNode: Clone + Eq> ASTNode<TNode> {
@fn ASTNode::find_tree_with_node
@opt rty.0=Option<&ASTNode<TNode>>
@requires
    eq_ok::<TNode>(),
@ensures
    [C14.find] match r { Some(x) => first_in(pre(*self), has_node(*node)) == Some(*x), None => first_in(pre(*self), has_node(*node)) is None },
@decreases self
@proof start
    lemma_first_root(*self, has_node(*node));
@loop 0
    invariant
        eq_ok::<TNode>(), vf_s0@ == self.children@, vf_i0 <= vf_s0@.len(),
        match vf_r0 {
            Some(x) => first_in(pre_upto(*self, vf_i0 as int), has_node(*node)) == Some(*x),
            None => first_in(pre_upto(*self, vf_i0 as int), has_node(*node)) is None,
        },
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    lemma_first_step(*self, vf_i0 as int, has_node(*node));
@proof loopafter 0
    if vf_r0 is Some { lemma_first_upto(*self, vf_i0 as int, has_node(*node)); }
@fn ASTNode::find_nested_tree_with_node
@requires
    eq_ok::<TNode>(),
@ensures
    [C14.nested] match r { Some(x) => nested(*self, tokens@, tokens@.len() as int) == Some(*x), None => nested(*self, tokens@, tokens@.len() as int) is None },
@loop 0
    invariant
        eq_ok::<TNode>(), vf_s0@ == tokens@, vf_i0 <= vf_s0@.len(),
        match r { Some(x) => nested(*self, tokens@, vf_i0 as int) == Some(*x), None => nested(*self, tokens@, vf_i0 as int) is None },
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    if nested(*self, tokens@, vf_i0 as int + 1) is None { lemma_nested_none(*self, tokens@, vf_i0 as int + 1, tokens@.len() as int); }
    if nested(*self, tokens@, vf_i0 as int) is None { lemma_nested_none(*self, tokens@, vf_i0 as int, tokens@.len() as int); }
@fn ASTNode::find_tree
@opt rty.0=Option<&ASTNode<TNode>>
@ghost Ghost(q): Ghost<spec_fn(ASTNode<TNode>) -> bool>
@ghostcall find_tree: q
@requires
    forall|n: &ASTNode<TNode>| #[trigger] p.requires((n,)),
    forall|n: &ASTNode<TNode>, b: bool| #[trigger] p.ensures((n,), b) ==> b == q(*n),
@ensures
    [C14.find] match r { Some(x) => first_in(pre(*self), q) == Some(*x), None => first_in(pre(*self), q) is None },
@decreases self
@proof start
    lemma_first_root(*self, q);
@loop 0
    invariant
        forall|n: &ASTNode<TNode>| #[trigger] p.requires((n,)),
        forall|n: &ASTNode<TNode>, b: bool| #[trigger] p.ensures((n,), b) ==> b == q(*n),
        vf_s0@ == self.children@, vf_i0 <= vf_s0@.len(),
        match vf_r0 {
            Some(x) => first_in(pre_upto(*self, vf_i0 as int), q) == Some(*x),
            None => first_in(pre_upto(*self, vf_i0 as int), q) is None,
        },
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    lemma_first_step(*self, vf_i0 as int, q);
@proof loopafter 0
    if vf_r0 is Some { lemma_first_upto(*self, vf_i0 as int, q); }
@fn ASTNode::contains
@requires
    eq_ok::<TNode>(),
@ensures
    [C14.contains] r == (exists|i: int| 0 <= i < pre(*self).len() && (#[trigger] pre(*self)[i]).node == *node),
    r == (first_in(pre(*self), has_node(*node)) is Some),
@decreases self
@proof start
    lemma_first_root(*self, has_node(*node));
    lemma_first_exists(pre(*self), has_node(*node));
@loop 0
    invariant
        eq_ok::<TNode>(), vf_s0@ == self.children@, vf_i0 <= vf_s0@.len(),
        vf_r0 == (first_in(pre_upto(*self, vf_i0 as int), has_node(*node)) is Some),
    decreases vf_s0@.len() - vf_i0
@proof looptop 0
    lemma_first_step(*self, vf_i0 as int, has_node(*node));
@proof loopafter 0
    if vf_r0 { lemma_first_upto(*self, vf_i0 as int, has_node(*node)); }
@fn ASTNode::get_child
@opt rty.0=Option<&ASTNode<TNode>>
@requires
    eq_ok::<TNode>(),
@ensures
    [C14.child] match r { Some(x) => first_in(self.children@, has_node(*node)) == Some(*x), None => first_in(self.children@, has_node(*node)) is None },
@loop 0
    invariant
        eq_ok::<TNode>(), vf_s0@ == self.children@, vf_i0 <= vf_s0@.len(),
        match vf_r0 {
            Some(x) => first_in(self.children@, has_node(*node)) == Some(*x),
            None => first_in(self.children@, has_node(*node)) == first_in(self.children@.subrange(vf_i0 as int, self.children@.len() as int), has_node(*node)),
        },
    decreases vf_s0@.len() - vf_i0
@proof start
    assert(self.children@.subrange(0, self.children@.len() as int) =~= self.children@);
@proof looptop 0
    assert(self.children@.subrange(vf_i0 as int, self.children@.len() as int).drop_first() =~= self.children@.subrange(vf_i0 as int + 1, self.children@.len() as int));
@fn ASTNode::walk_tree
@ghost Ghost(vs): Ghost<(spec_fn(TR) -> Seq<ASTNode<TNode>>, spec_fn(Seq<ASTNode<TNode>>, ASTNode<TNode>) -> Seq<ASTNode<TNode>>)>
@ghostcall walk_tree: vs
@requires
    forall|n: &'this Self, l: &mut TR| #[trigger] p.requires((n, l)),
    forall|n: &'this Self, l: &mut TR, u: ()| #[trigger] p.ensures((n, l), u) ==> (vs.0)(*final(l)) == (vs.1)((vs.0)(*l), *n),
@ensures
    [C14.walk] (vs.0)(*final(r)) == fold_walk(pre(*self), (vs.0)(*old(r)), vs.1),
@decreases self
@loop 0
    invariant
        forall|n: &'this Self, l: &mut TR| #[trigger] p.requires((n, l)),
        forall|n: &'this Self, l: &mut TR, u: ()| #[trigger] p.ensures((n, l), u) ==> (vs.0)(*final(l)) == (vs.1)((vs.0)(*l), *n),
        vf_s0@ == self.children@, vf_i0 <= vf_s0@.len(),
        (vs.0)(*r) == fold_walk(seq![*self] + pre_upto(*self, vf_i0 as int), (vs.0)(*old(r)), vs.1),
    decreases vf_s0@.len() - vf_i0
@proof loopbefore 0
    assert(seq![*self] + pre_upto(*self, 0) =~= seq![*self]);
    assert(seq![*self].drop_last() =~= Seq::<ASTNode<TNode>>::empty());
    assert(fold_walk(Seq::<ASTNode<TNode>>::empty(), (vs.0)(*old(r)), vs.1) == (vs.0)(*old(r)));
@proof looptop 0
    lemma_fold_add(seq![*self] + pre_upto(*self, vf_i0 as int), pre(self.children@[vf_i0 as int]), (vs.0)(*old(r)), vs.1);
    assert((seq![*self] + pre_upto(*self, vf_i0 as int)) + pre(self.children@[vf_i0 as int]) =~= seq![*self] + pre_upto(*self, vf_i0 as int + 1));
@fn ASTNode::list_tree_with_token
@ghostcall walk_tree: (derefs::<TNode>(), add_if(has_node(*node)))
@requires
    eq_ok::<TNode>(),
@ensures
    [C14.list] derefs::<TNode>()(r) == all_in(pre(*self), has_node(*node)),
@closure 0
|tree: &'this ASTNode<TNode>, list: &mut Vec<&'this ASTNode<TNode>>|
    requires eq_ok::<TNode>()
    ensures derefs::<TNode>()(*final(list)) == add_if(has_node(*node))(derefs::<TNode>()(*old(list)), *tree)
@proof closurestart 0
    lemma_push_deref(list@, tree);
@proof start
    lemma_fold_list(pre(*self), has_node(*node));
@proof afterlet list_tree
    assert(derefs::<TNode>()(list_tree) =~= Seq::<ASTNode<TNode>>::empty());
@fn ASTNode::list_tree
@ghost Ghost(q): Ghost<spec_fn(ASTNode<TNode>) -> bool>
@ghostcall walk_tree: (derefs::<TNode>(), add_if(q))
@requires
    forall|n: &ASTNode<TNode>| #[trigger] p.requires((n,)),
    forall|n: &ASTNode<TNode>, b: bool| #[trigger] p.ensures((n,), b) ==> b == q(*n),
@ensures
    [C14.list] derefs::<TNode>()(r) == all_in(pre(*self), q),
@closure 0
|tree: &'this ASTNode<TNode>, list: &mut Vec<&'this ASTNode<TNode>>|
    requires
        forall|n: &ASTNode<TNode>| #[trigger] p.requires((n,)),
        forall|n: &ASTNode<TNode>, b: bool| #[trigger] p.ensures((n,), b) ==> b == q(*n),
    ensures derefs::<TNode>()(*final(list)) == add_if(q)(derefs::<TNode>()(*old(list)), *tree)
@proof closurestart 0
    lemma_push_deref(list@, tree);
@proof start
    lemma_fold_list(pre(*self), q);
@proof afterlet list_tree
    assert(derefs::<TNode>()(list_tree) =~= Seq::<ASTNode<TNode>>::empty());
@close
