@module base
@modprops C15
use vstd::std_specs::cmp::*;
pub use core::marker::PhantomData;
pub use std::rc::Rc;
@enum Log
@struct Lex
@struct SuccessData rr
@enum ProductionError
@struct ImplementationError derive=Debug
@struct ParseError
@type ParsedResult

/// assumption on the user's token type: lawful `==` and a strict total order
pub open spec fn ord_ok<T: VfOrd>() -> bool {
    &&& forall|a: T| #![trigger T::lt(a, a)] !T::lt(a, a)
    &&& forall|a: T, b: T, c: T| #![trigger T::lt(a, b), T::lt(b, c)] T::lt(a, b) && T::lt(b, c) ==> T::lt(a, c)
    &&& forall|a: T, b: T| #![trigger T::lt(a, b)] T::lt(a, b) || a == b || T::lt(b, a)
}
@open pub trait TokenImpl: Copy + PartialEq + Eq + VfOrd {
    spec fn eof_s() -> Self;
    spec fn structural_s(&self) -> bool;
    fn eof() -> (r: Self) ensures r == Self::eof_s();
    fn is_structural(&self) -> (r: bool) ensures r == self.structural_s();
@close
@open pub trait NodeImpl: Clone {
    spec fn null_s() -> Self;
    fn null() -> (r: Self) ensures r == Self::null_s();
@close

// ---------------------------------------------------------------- trees as mathematical values
#[verifier::reject_recursive_types(N)]
pub struct Tree<N> { pub node: N, pub start: int, pub end: int, pub bound: Option<(int, int)>, pub kids: Seq<Tree<N>> }
pub open spec fn bound_of(b: Option<(TokenPtr, TokenPtr)>) -> Option<(int, int)> {
    match b { Some(p) => Some((p.0.0 as int, p.1.0 as int)), None => None }
}
pub open spec fn tree<N>(t: ASTNode<N>) -> Tree<N> decreases t, t.children@.len() + 1 {
    Tree { node: t.node, start: t.start as int, end: t.end as int, bound: bound_of(t.bound), kids: trees_upto(t, t.children@.len() as int) }
}
pub open spec fn trees_upto<N>(t: ASTNode<N>, k: int) -> Seq<Tree<N>> decreases t, k {
    if 0 < k <= t.children@.len() { trees_upto(t, k - 1).push(tree(t.children@[k - 1])) } else { Seq::empty() }
}
pub open spec fn trees<N>(s: Seq<ASTNode<N>>) -> Seq<Tree<N>> { Seq::new(s.len(), |i: int| tree(s[i])) }
pub proof fn lemma_trees_upto<N>(t: ASTNode<N>, k: int)
    requires 0 <= k <= t.children@.len(),
    ensures trees_upto(t, k) =~= trees(t.children@.subrange(0, k)),
    decreases k
{
    if k > 0 { lemma_trees_upto(t, k - 1); }
}
pub broadcast proof fn lemma_tree<N>(t: ASTNode<N>)
    ensures #[trigger] tree(t) == (Tree { node: t.node, start: t.start as int, end: t.end as int, bound: bound_of(t.bound), kids: trees(t.children@) }),
{
    lemma_trees_upto(t, t.children@.len() as int);
    assert(t.children@.subrange(0, t.children@.len() as int) =~= t.children@);
}
pub broadcast proof fn lemma_trees_add<N>(a: Seq<ASTNode<N>>, b: Seq<ASTNode<N>>)
    ensures #[trigger] trees(a + b) == trees(a) + trees(b),
{ assert(trees(a + b) =~= trees(a) + trees(b)); }
pub broadcast proof fn lemma_trees_push<N>(a: Seq<ASTNode<N>>, b: ASTNode<N>)
    ensures #[trigger] trees(a.push(b)) == trees(a).push(tree(b)),
{ assert(trees(a.push(b)) =~= trees(a).push(tree(b))); }
pub broadcast proof fn lemma_trees_empty<N>(a: Seq<ASTNode<N>>)
    ensures a.len() == 0 ==> #[trigger] trees(a) == Seq::<Tree<N>>::empty(), trees(a).len() == a.len(),
{ if a.len() == 0 { assert(trees(a) =~= Seq::<Tree<N>>::empty()); } }
pub broadcast proof fn lemma_trees_one<N>(a: Seq<ASTNode<N>>)
    ensures a.len() == 1 ==> #[trigger] trees(a) == seq![tree(a[0])],
{ if a.len() == 1 { assert(trees(a) =~= seq![tree(a[0])]); } }
pub open spec fn leaf<N>(n: N, start: int, end: int, b: Option<(int, int)>) -> Tree<N> { Tree { node: n, start, end, bound: b, kids: Seq::empty() } }
pub broadcast proof fn lemma_tree_leaf<N>(t: ASTNode<N>)
    ensures t.children@.len() == 0 ==> #[trigger] tree(t) == leaf(t.node, t.start as int, t.end as int, bound_of(t.bound)),
{ lemma_tree(t); if t.children@.len() == 0 { assert(trees(t.children@) =~= Seq::<Tree<N>>::empty()); } }
pub broadcast group group_trees { lemma_tree, lemma_trees_add, lemma_trees_push, lemma_trees_empty, lemma_trees_one, lemma_tree_leaf }

@open impl<TToken> Lex<TToken> {
@fn Lex::new
@props C01 C04
@ensures
    r.token == token && r.start == start && r.end == end,
@close
@open impl<I, TNode> SuccessData<I, TNode> {
@fn SuccessData::new
@ensures
    r.consumed_index == consumed_index && r.children == children,
@fn SuccessData::hidden
@ensures
    r.consumed_index == consumed_index && r.children@.len() == 0,
@fn SuccessData::tree
@ensures
    r.consumed_index == consumed_index && r.children@ == seq![tree],
@fn SuccessData::range
@ensures
    match r { Some(x) => self.children@.len() > 0 && x.0 == self.children@[0].start && x.1 == self.children@.last().end, None => self.children@.len() == 0 },
@close
@open impl ProductionError {
@fn ProductionError::is_unparsed
@props C09
@ensures
    r == (*self is Unparsed),
@fn ProductionError::is_invalid
@props C09
@ensures
    r == (*self is Validation),
@close
@open impl ImplementationError {
@fn ImplementationError::new
@props C16
@close
@open impl ParseError {
@fn ParseError::new
@props C10
@ensures
    r.pointer == pointer && r.message == message,
@close
@open impl<TNode: NodeImpl> ASTNode<TNode> {
@fn ASTNode::null
@props C07 C15
@ensures
    r.node == TNode::null_s() && r.start == pointer && r.end == pointer && r.children@.len() == 0,
    r.bound == (match seg_index { Some(s) => Some((s, s)), None => None }),
@close
