## Ghost vocabulary for grammar validation: nonterminals are named by their (unique) identifier.
@module graph
@modprops C16
/// nonterminals that the nonterminal can begin with: reached before anything is consumed
pub uninterp spec fn nt_heads(id: &str) -> Set<&'static str>;
/// nonterminals used by the nonterminal
pub uninterp spec fn nt_parts(id: &str) -> Set<&'static str>;
/// its symbols are assigned
pub uninterp spec fn nt_set(id: &str) -> bool;
pub uninterp spec fn nt_null(id: &str) -> bool;
pub uninterp spec fn nt_nullh(id: &str) -> bool;
/// all ways to begin are shorter than n and run through assigned nonterminals: no left recursion below
pub open spec fn lgood(id: &str, n: nat) -> bool decreases n {
    n > 0 && nt_set(id) && forall|x: &'static str| #[trigger] nt_heads(id).contains(x) ==> lgood(x, (n - 1) as nat)
}
pub open spec fn lg(id: &str) -> bool { exists|n: nat| lgood(id, n) }
pub open spec fn all_lg(s: Set<&'static str>) -> bool { forall|x: &'static str| s.contains(x) ==> #[trigger] lg(x) }
/// y is reached from x in n steps before anything is consumed
pub open spec fn lpath(x: &str, y: &str, n: nat) -> bool decreases n {
    if n == 0 { x == y } else { exists|z: &'static str| #[trigger] nt_heads(x).contains(z) && lpath(z, y, (n - 1) as nat) }
}
pub open spec fn lreach(x: &str, y: &str) -> bool { exists|n: nat| lpath(x, y, n) }
/// left recursive: reaches itself before anything is consumed
pub open spec fn left_rec(x: &str) -> bool { exists|n: nat| n > 0 && #[trigger] lpath(x, x, n) }
/// y is used by x, n levels down
pub open spec fn upath(x: &str, y: &str, n: nat) -> bool decreases n {
    if n == 0 { x == y } else { exists|z: &'static str| #[trigger] nt_parts(x).contains(z) && upath(z, y, (n - 1) as nat) }
}
/// what validation has to reject: some nonterminal below has no symbols or is left recursive
pub open spec fn faulty(y: &str) -> bool { !nt_set(y) || left_rec(y) }
pub open spec fn defect(s: Set<&'static str>) -> bool {
    exists|x: &'static str, y: &'static str, n: nat| s.contains(x) && #[trigger] upath(x, y, n) && faulty(y)
}
/// nonterminals already validated
pub open spec fn vinv(v: Set<&'static str>) -> bool { forall|x: &'static str| v.contains(x) ==> #[trigger] lgood(x, v.len()) }
/// .. use only nonterminals validated or being validated
pub open spec fn vparts(v: Set<&'static str>, p: Set<&'static str>) -> bool {
    forall|x: &'static str, y: &'static str| v.contains(x) && #[trigger] nt_parts(x).contains(y) ==> v.contains(y) || p.contains(y)
}
/// nothing below is faulty: a set of nonterminals closed under use
pub open spec fn sound(id: &str) -> bool { exists|v: Set<&'static str>| #[trigger] vinv(v) && vparts(v, Set::empty()) && v.contains(id) }
pub open spec fn all_sound(s: Set<&'static str>) -> bool { forall|x: &'static str| s.contains(x) ==> #[trigger] sound(x) }
/// path y in c is reached from one of s
pub open spec fn hits(s: Set<&'static str>, c: Set<&'static str>) -> bool {
    exists|x: &'static str, y: &'static str| s.contains(x) && c.contains(y) && #[trigger] lreach(x, y)
}
pub proof fn lemma_lgood_mono(id: &str, n: nat, m: nat)
    requires lgood(id, n), n <= m,
    ensures lgood(id, m),
    decreases n
{
    assert forall|x: &'static str| #[trigger] nt_heads(id).contains(x) implies lgood(x, (m - 1) as nat) by { assert(lgood(x, (n - 1) as nat)); lemma_lgood_mono(x, (n - 1) as nat, (m - 1) as nat); }
}
pub proof fn lemma_lg_heads(id: &str)
    requires lg(id),
    ensures nt_set(id), all_lg(nt_heads(id)), !left_rec(id),
{
    let n = choose|n: nat| lgood(id, n);
    assert forall|x: &'static str| nt_heads(id).contains(x) implies #[trigger] lg(x) by { assert(lgood(x, (n - 1) as nat)); }
    if left_rec(id) { let m = choose|m: nat| m > 0 && #[trigger] lpath(id, id, m); lemma_no_loop(id, m, n); }
}
/// after k steps from a good nonterminal there are k fewer left
pub proof fn lemma_walk(x: &str, y: &str, k: nat, n: nat)
    requires lpath(x, y, k), lgood(x, n),
    ensures k < n, lgood(y, (n - k) as nat),
    decreases k
{
    if k > 0 { let z = choose|z: &'static str| #[trigger] nt_heads(x).contains(z) && lpath(z, y, (k - 1) as nat); assert(lgood(z, (n - 1) as nat)); lemma_walk(z, y, (k - 1) as nat, (n - 1) as nat); }
}
pub proof fn lemma_no_loop(x: &str, k: nat, n: nat)
    requires k > 0, lpath(x, x, k), lgood(x, n),
    ensures false,
    decreases n
{
    lemma_walk(x, x, k, n);
    lemma_no_loop(x, k, (n - k) as nat);
}
pub proof fn lemma_lreach_step(x: &str, z: &'static str, y: &str)
    requires nt_heads(x).contains(z), lreach(z, y),
    ensures lreach(x, y), x == y ==> left_rec(x),
{
    let n = choose|n: nat| lpath(z, y, n);
    assert(lpath(z, y, ((n + 1) - 1) as nat));
    assert(lpath(x, y, n + 1));
}
pub proof fn lemma_lreach_refl(x: &str) ensures lreach(x, x) { assert(lpath(x, x, 0)); }
/// validating one more nonterminal, all of whose beginnings are validated
pub proof fn lemma_visit(v: Set<&'static str>, p: Set<&'static str>, id: &'static str)
    requires vinv(v), vparts(v, p.insert(id)), nt_set(id), nt_heads(id).subset_of(v), forall|y: &'static str| #[trigger] nt_parts(id).contains(y) ==> v.contains(y) || p.insert(id).contains(y),
    ensures vinv(v.insert(id)), vparts(v.insert(id), p), v.subset_of(v.insert(id)),
{
    let w = v.insert(id);
    assert forall|x: &'static str| #[trigger] nt_heads(id).contains(x) implies lgood(x, v.len()) by {}
    assert(lgood(id, (v.len() + 1) as nat));
    assert forall|x: &'static str| w.contains(x) implies #[trigger] lgood(x, w.len()) by {
        if v.contains(x) { lemma_lgood_mono(x, v.len(), w.len()); }
    }
}
pub broadcast proof fn lemma_vinv_lg(v: Set<&'static str>, s: Set<&'static str>)
    requires #[trigger] vinv(v), s.subset_of(v),
    ensures #[trigger] all_lg(s),
{ assert forall|x: &'static str| s.contains(x) implies #[trigger] lg(x) by { assert(lgood(x, v.len())); } }
pub proof fn lemma_defect_up(id: &'static str, s: Set<&'static str>)
    requires s.subset_of(nt_parts(id)), defect(s),
    ensures defect(set![id]),
{
    let (x, y, n) = choose|x: &'static str, y: &'static str, n: nat| s.contains(x) && #[trigger] upath(x, y, n) && faulty(y);
    assert(upath(x, y, ((n + 1) - 1) as nat));
    assert(upath(id, y, n + 1));
    assert(set![id].contains(id));
}
pub proof fn lemma_defect_self(id: &'static str)
    requires faulty(id),
    ensures defect(set![id]),
{ assert(upath(id, id, 0)); assert(set![id].contains(id)); }
pub proof fn lemma_sound(v: Set<&'static str>)
    requires vinv(v), vparts(v, Set::empty()),
    ensures all_sound(v),
{}
/// nothing a sound nonterminal uses, at any depth, is faulty
pub proof fn lemma_sound_defect(s: Set<&'static str>)
    requires all_sound(s),
    ensures !defect(s),
{
    if defect(s) {
        let (x, y, n) = choose|x: &'static str, y: &'static str, n: nat| s.contains(x) && #[trigger] upath(x, y, n) && faulty(y);
        assert(sound(x));
        let v = choose|v: Set<&'static str>| #[trigger] vinv(v) && vparts(v, Set::empty()) && v.contains(x);
        lemma_upath_in(v, x, y, n);
        assert(lgood(y, v.len()));
        lemma_lg_heads(y);
    }
}
pub proof fn lemma_upath_in(v: Set<&'static str>, x: &'static str, y: &'static str, n: nat)
    requires vinv(v), vparts(v, Set::empty()), v.contains(x), upath(x, y, n),
    ensures v.contains(y),
    decreases n
{
    if n > 0 { let z = choose|z: &'static str| #[trigger] nt_parts(x).contains(z) && upath(z, y, (n - 1) as nat); lemma_upath_in(v, z, y, (n - 1) as nat); }
}
pub proof fn lemma_sound_parts(id: &str)
    requires sound(id),
    ensures lg(id), all_sound(nt_parts(id)),
{
    let v = choose|v: Set<&'static str>| #[trigger] vinv(v) && vparts(v, Set::empty()) && v.contains(id);
    lemma_sound(v);
    assert(lgood(id, v.len()));
}

## ---------------------------------------------------------------- which nonterminals are being validated
/// the content of every `validating` flag, by the name of the nonterminal it belongs to
#[verifier::external_body]
pub struct World { x: usize }
impl World {
    pub uninterp spec fn on(&self) -> Set<&'static str>;
    /// nonterminals whose `nullability` cell is written
    pub uninterp spec fn done(&self) -> Set<&'static str>;
}
/// the cells as they are: nothing is known of them
#[verifier::external_body]
pub fn vf_now() -> World { unimplemented!() }
## the `nullability` cell: what it holds is state of the World
impl VfCell<bool> {
    pub uninterp spec fn owner(&self) -> &'static str;
    #[verifier::external_body]
    pub fn vf_owned(p: Ghost<spec_fn(bool) -> bool>, o: Ghost<&'static str>) -> (r: VfCell<bool>)
        ensures !r.strict(), r.owner() == o@, forall|v: bool| #![trigger r.ok(v)] r.ok(v) == p@(v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_w(&self, w: &World) -> (r: Option<&bool>)
        ensures match r { Some(v) => *v == self.fin() && self.ok(*v), None => !w.done().contains(self.owner()) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_w(&self, w: &mut World, v: bool) -> (r: Result<(), bool>)
        requires self.ok(v)
        ensures final(w).on() == old(w).on(), final(w).done() == old(w).done().insert(self.owner()), !old(w).done().contains(self.owner()) ==> r is Ok
    { unimplemented!() }
}
/// the cells of the nonterminals on the path v are as before
pub open spec fn same_done(v: Set<&'static str>, a: Set<&'static str>, b: Set<&'static str>) -> bool {
    forall|x: &'static str| v.contains(x) ==> (#[trigger] b.contains(x) <==> a.contains(x))
}
## ---------------------------------------------------------------- termination: every call of a walk is made with a smaller measure
/// the nonterminals of the program: finitely many
pub uninterp spec fn nts() -> Set<&'static str>;
/// lexicographic; the first component is the tier of the method: a method calls those of its own tier with less, and those of lower tiers
pub type Meas = (nat, nat, nat, nat, nat);
pub open spec fn mlt(a: Meas, b: Meas) -> bool {
    a.0 < b.0 || (a.0 == b.0 && (a.1 < b.1 || (a.1 == b.1 && (a.2 < b.2 || (a.2 == b.2 && (a.3 < b.3 || (a.3 == b.3 && a.4 < b.4)))))))
}
/// nonterminals reached from s before anything is consumed
pub open spec fn reached(s: Set<&'static str>) -> Set<&'static str> { nts().filter(|x: &'static str| exists|h: &'static str| s.contains(h) && #[trigger] lreach(h, x)) }
pub open spec fn rank(s: Set<&'static str>) -> nat { reached(s).len() }
/// nothing is reached from less than s that is not reached from s
pub broadcast proof fn lemma_rank_sub(a: Set<&'static str>, b: Set<&'static str>)
    requires a.subset_of(b),
    ensures #[trigger] rank(a) <= #[trigger] rank(b),
{
    assert(reached(a).subset_of(reached(b)));
    vstd::set_lib::lemma_len_subset(reached(a), reached(b));
}
/// a nonterminal that is not left recursive is not reached from what it begins with
pub proof fn lemma_rank_down(id: &'static str, s: Set<&'static str>)
    requires nts().contains(id), !left_rec(id), s.subset_of(nt_heads(id)),
    ensures rank(s) < rank(set![id]),
{
    let a = reached(s);
    let b = reached(set![id]);
    lemma_lreach_refl(id);
    assert(set![id].contains(id));
    assert(b.contains(id));
    assert forall|x: &'static str| a.contains(x) implies b.contains(x) && x != id by {
        let h = choose|h: &'static str| s.contains(h) && #[trigger] lreach(h, x);
        lemma_lreach_step(id, h, x);
    }
    assert(a.subset_of(b.remove(id)));
    vstd::set_lib::lemma_len_subset(a, b.remove(id));
}
pub open spec fn left_of(s: Set<&'static str>) -> nat { nts().difference(s).len() }
pub open spec fn cl(c: Set<&'static str>) -> nat { if c == Set::<&'static str>::empty() { 0 } else { left_of(c) + 1 } }
/// of validating a production d wrappers above a nonterminal or terminal, c connected, p being validated
pub open spec fn vm(c: Set<&'static str>, p: Set<&'static str>, d: nat) -> Meas { (4, left_of(p), cl(c), d, 0) }
/// of asking it for its nullability with path v
pub open spec fn om(v: Set<&'static str>, d: nat) -> Meas { (0, left_of(v) + 1, d, 0, 0) }
/// of `is_nullable`: a terminal answers at once, a nonterminal asks the walk above
pub open spec fn m1(parts: Set<&'static str>, d: nat) -> Meas { if parts == Set::<&'static str>::empty() { (0, 0, d, 0, 0) } else { (1, d, 0, 0, 0) } }
/// of `is_nullable_n_hidden`
pub open spec fn m2(heads: Set<&'static str>, d: nat) -> Meas { (2, rank(heads), d, 0, 0) }
/// of collecting the first set
pub open spec fn m3(heads: Set<&'static str>, d: nat) -> Meas { (3, rank(heads), d, 0, 0) }
/// above everything
pub open spec fn mtop() -> Meas { (9, 0, 0, 0, 0) }
/// of a parse as a whole
pub open spec fn mroot() -> Meas { (8, 0, 0, 0, 0) }
/// of running a production with t positions before the end. Tier 5: those that stay with one kind of tokens, tier 6: those that switch,
/// from structural to raw tokens and then back to the former only
pub open spec fn am(pure: bool, fltr: bool, t: int, stays: Set<&'static str>, d: nat) -> Meas { (if pure { 5 } else { 6 }, if fltr { 1 } else { 0 }, t as nat, srank(stays), d) }
/// bound a production gives the calls it makes; none when the program is not `fwd`
pub open spec fn own(fw: bool, a: Meas) -> Meas { if fw { a } else { mtop() } }
/// a production can be called below bound b
pub open spec fn can(fw: bool, a: Meas, b: Meas) -> bool { b == mtop() || (fw && mlt(a, b)) }
/// nonterminals that the nonterminal can run where it starts: the ones it can begin with, and those behind something that may match without moving
pub uninterp spec fn nt_stay(id: &str) -> Set<&'static str>;
pub open spec fn spath(x: &str, y: &str, n: nat) -> bool decreases n {
    if n == 0 { x == y } else { exists|z: &'static str| #[trigger] nt_stay(x).contains(z) && spath(z, y, (n - 1) as nat) }
}
pub open spec fn sreach(x: &str, y: &str) -> bool { exists|n: nat| spath(x, y, n) }
/// can run itself where it starts
pub open spec fn stay_rec(x: &str) -> bool { exists|n: nat| n > 0 && #[trigger] spath(x, x, n) }
pub open spec fn sreached(s: Set<&'static str>) -> Set<&'static str> { nts().filter(|x: &'static str| exists|h: &'static str| s.contains(h) && #[trigger] sreach(h, x)) }
pub open spec fn srank(s: Set<&'static str>) -> nat { sreached(s).len() }
pub proof fn lemma_srank_sub(a: Set<&'static str>, b: Set<&'static str>)
    requires a.subset_of(b),
    ensures srank(a) <= srank(b),
{
    assert(sreached(a).subset_of(sreached(b)));
    vstd::set_lib::lemma_len_subset(sreached(a), sreached(b));
}
pub proof fn lemma_srank_down(id: &'static str, s: Set<&'static str>)
    requires nts().contains(id), !stay_rec(id), s.subset_of(nt_stay(id)),
    ensures srank(s) < srank(set![id]),
{
    let a = sreached(s);
    let b = sreached(set![id]);
    assert(spath(id, id, 0));
    assert(sreach(id, id));
    assert(set![id].contains(id));
    assert(b.contains(id));
    assert forall|x: &'static str| a.contains(x) implies b.contains(x) && x != id by {
        let h = choose|h: &'static str| s.contains(h) && #[trigger] sreach(h, x);
        let n = choose|n: nat| spath(h, x, n);
        assert(spath(h, x, ((n + 1) - 1) as nat));
        assert(spath(id, x, n + 1));
        assert(sreach(id, x));
    }
    assert(a.subset_of(b.remove(id)));
    vstd::set_lib::lemma_len_subset(a, b.remove(id));
}
/// C16: when nothing can stay in place but what is nullable, validation excludes recursion in place
pub proof fn lemma_stay_sound(id: &'static str)
    requires sound(id), forall|x: &'static str, y: &'static str| #[trigger] nt_stay(x).contains(y) ==> nt_heads(x).contains(y),
    ensures !stay_rec(id),
{
    lemma_sound_parts(id);
    lemma_lg_heads(id);
    if stay_rec(id) { let n = choose|n: nat| n > 0 && #[trigger] spath(id, id, n); lemma_spath(id, id, n); }
}
pub proof fn lemma_spath(x: &str, y: &str, n: nat)
    requires spath(x, y, n), forall|x: &'static str, y: &'static str| #[trigger] nt_stay(x).contains(y) ==> nt_heads(x).contains(y),
    ensures lpath(x, y, n),
    decreases n
{
    if n > 0 { let z = choose|z: &'static str| #[trigger] nt_stay(x).contains(z) && spath(z, y, (n - 1) as nat); lemma_spath(z, y, (n - 1) as nat); assert(nt_heads(x).contains(z)); }
}
pub open spec fn deeper(c: Set<&'static str>, p: Set<&'static str>, c0: Set<&'static str>, p0: Set<&'static str>) -> bool {
    left_of(p) < left_of(p0) || (left_of(p) == left_of(p0) && cl(c) < cl(c0))
}
pub proof fn lemma_left(s: Set<&'static str>, id: &'static str)
    requires nts().contains(id), !s.contains(id),
    ensures left_of(s.insert(id)) < left_of(s),
{
    let a = nts().difference(s);
    let b = nts().difference(s.insert(id));
    assert(a.contains(id));
    assert(b =~= a.remove(id));
}
/// entering a nonterminal that is not connected
pub proof fn lemma_deeper(c: Set<&'static str>, p: Set<&'static str>, id: &'static str)
    requires nts().contains(id), !c.contains(id), c == Set::<&'static str>::empty() ==> !p.contains(id),
    ensures deeper(c.insert(id), p.insert(id), c, p), deeper(Set::empty(), p.insert(id), c, p),
{
    if p.contains(id) { assert(p.insert(id) =~= p); lemma_left(c, id); assert(c.insert(id).contains(id)); } else { lemma_left(p, id); }
}
## std::cell::Cell<bool>
#[verifier::external_body]
pub struct VfFlag { x: usize }
impl VfFlag {
    pub uninterp spec fn owner(&self) -> &'static str;
    #[verifier::external_body]
    pub fn vf_new(b: bool, o: Ghost<&'static str>) -> (r: VfFlag) requires !b ensures r.owner() == o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, w: &World) -> (r: bool) ensures r == w.on().contains(self.owner()) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, b: bool, w: &mut World) ensures final(w).on() == (if b { old(w).on().insert(self.owner()) } else { old(w).on().remove(self.owner()) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn replace(&self, b: bool, w: &mut World) -> (r: bool)
        ensures r == old(w).on().contains(self.owner()), final(w).on() == (if b { old(w).on().insert(self.owner()) } else { old(w).on().remove(self.owner()) }) { unimplemented!() }
}
/// result of validating a production that begins with `heads` and uses `parts`
pub open spec fn vpost(r: bool, heads: Set<&'static str>, parts: Set<&'static str>, c: Set<&'static str>, v0: Set<&'static str>, v1: Set<&'static str>, p: Set<&'static str>) -> bool {
    if r {
        &&& v0.subset_of(v1) && vinv(v1) && vparts(v1, p)
        &&& forall|y: &'static str| #[trigger] parts.contains(y) ==> v1.contains(y) || p.contains(y)
        &&& c != Set::<&'static str>::empty() ==> heads.subset_of(v1)
    } else {
        defect(parts) || hits(heads, c)
    }
}
pub open spec fn vpre(v: Set<&'static str>, p: Set<&'static str>) -> bool { vinv(v) && vparts(v, p) }
/// the same for a nonterminal whose flag is set and which is on the path c
pub open spec fn bpost(r: bool, id: &'static str, c: Set<&'static str>, v0: Set<&'static str>, v1: Set<&'static str>, p: Set<&'static str>) -> bool {
    if r {
        &&& v0.subset_of(v1) && vinv(v1) && vparts(v1, p) && nt_set(id) && nt_heads(id).subset_of(v1)
        &&& forall|y: &'static str| #[trigger] nt_parts(id).contains(y) ==> v1.contains(y) || p.contains(y)
    } else {
        defect(set![id]) || hits(set![id], c.remove(id))
    }
}
/// what a failure below means for the nonterminal
pub proof fn lemma_kid(id: &'static str, heads: Set<&'static str>, parts: Set<&'static str>, c: Set<&'static str>)
    requires parts.subset_of(nt_parts(id)),
    ensures
        defect(parts) ==> defect(set![id]), !hits(heads, Set::empty()),
        heads.subset_of(nt_heads(id)) && hits(heads, c) ==> (left_rec(id) && defect(set![id])) || hits(set![id], c.remove(id)),
{
    if defect(parts) { lemma_defect_up(id, parts); }
    if heads.subset_of(nt_heads(id)) && hits(heads, c) {
        let (x, y) = choose|x: &'static str, y: &'static str| heads.contains(x) && c.contains(y) && #[trigger] lreach(x, y);
        lemma_lreach_step(id, x, y);
        if y == id { lemma_defect_self(id); } else { assert(c.remove(id).contains(y)); assert(set![id].contains(id)); }
    }
}
pub proof fn lemma_hits_sub(s: Set<&'static str>, c: Set<&'static str>, d: Set<&'static str>)
    requires hits(s, c), c.subset_of(d),
    ensures hits(s, d),
{
    let (x, y) = choose|x: &'static str, y: &'static str| s.contains(x) && c.contains(y) && #[trigger] lreach(x, y);
    assert(d.contains(y));
}
