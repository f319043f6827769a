@module code
@modprops C11
@struct Code
@struct Position

/// number of line feeds in s[0..p]
pub open spec fn lf_count(s: Bytes, p: int) -> int decreases p {
    if p <= 0 { 0 } else { lf_count(s, p - 1) + (if s[p - 1] == 10 { 1int } else { 0 }) }
}
/// position just after the last line feed in s[0..p], 0 if there is none
pub open spec fn line_start(s: Bytes, p: int) -> int decreases p {
    if p <= 0 { 0 } else if s[p - 1] == 10 { p } else { line_start(s, p - 1) }
}
pub open spec fn sorted_us(b: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] < b[j] }
/// b lists exactly the positions of the line feeds in s[0..p], in order
pub open spec fn lf_list(s: Bytes, p: int, b: Seq<usize>) -> bool {
    &&& sorted_us(b)
    &&& forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]) < p && s[b[k] as int] == 10
    &&& forall|i: int| 0 <= i < p && #[trigger] s[i] == 10 ==> exists|k: int| 0 <= k < b.len() && b[k] == i
}
pub proof fn lemma_lf(s: Bytes, b: Seq<usize>, p: int, ix: int)
    requires
        0 <= p <= s.len(), 0 <= ix <= b.len(), lf_list(s, s.len() as int, b),
        forall|j: int| 0 <= j < ix ==> b[j] < p,
        forall|j: int| ix <= j < b.len() ==> p <= b[j],
    ensures
        lf_count(s, p) == ix,
        line_start(s, p) == (if ix == 0 { 0int } else { b[ix - 1] as int + 1 }),
    decreases p
{
    if p > 0 {
        if s[p - 1] == 10 {
            let k = choose|k: int| 0 <= k < b.len() && b[k] == p - 1;
            assert(k < ix);
            assert(k == ix - 1) by { if k < ix - 1 { assert(b[k] < b[ix - 1]); } }
            lemma_lf(s, b, p - 1, ix - 1);
        } else {
            assert forall|j: int| 0 <= j < ix implies b[j] < p - 1 by { assert(s[b[j] as int] == 10); }
            lemma_lf(s, b, p - 1, ix);
        }
    } else {
        if ix > 0 { assert(b[0] < p); }
    }
}
pub proof fn lemma_line_start(s: Bytes, p: int)
    requires 0 <= p <= s.len(),
    ensures 0 <= line_start(s, p) <= p, 0 <= lf_count(s, p) <= p,
    decreases p
{ if p > 0 { lemma_line_start(s, p - 1); } }

pub open spec fn pos_of(s: Bytes, p: int) -> (int, int) { (1 + lf_count(s, p), 1 + p - line_start(s, p)) }

impl<'c> Code<'c> {
    /// type invariant: whatever the cached list holds is the list of the line feeds of the text
    pub open spec fn wf(&self) -> bool {
        !self.line_breaks.strict() && forall|v: Vec<usize>| #[trigger] self.line_breaks.ok(v) <==> lf_list(self.value@, self.value@.len() as int, v@)
    }
}
@open impl<'c> Code<'c> {
@fn Code::new
@ensures
    [C11.new] r.value@ == value@ && r.wf(),
@rewrite VfCell :: new ( ) ==>> VfCell :: vf_new ( Ghost ( | v : Vec < usize > | lf_list ( value @ , value @ . len ( ) as int , v @ ) ) )
@fn Code::obtain_line_breaks
@requires
    self.wf(),
@ensures
    [C11.breaks] lf_list(self.value@, self.value@.len() as int, r@),
@closure 0
|| -> (cr: Vec<usize>)
    requires self.wf()
    ensures lf_list(self.value@, self.value@.len() as int, cr@)
@loop 0
    invariant
        vf_s0@ == self.value@, vf_i0 <= vf_s0@.len(),
        lf_list(self.value@, vf_i0 as int, vf_r0@),
    decreases vf_s0@.len() - vf_i0
@proof loopend 0
    let vf_p = vf_i0 as int - 1;
    assert forall|i: int| 0 <= i < vf_i0 && #[trigger] self.value@[i] == 10 implies exists|k: int| 0 <= k < vf_r0@.len() && vf_r0@[k] == i by {
        if i == vf_p { assert(vf_r0@[vf_r0@.len() - 1] == vf_p); }
        else {
            let k = choose|k: int| 0 <= k < vf_r_old.len() && vf_r_old[k] == i;
            assert(vf_r0@[k] == i);
        }
    }
@proof looptop 0
    let ghost vf_r_old = vf_r0@;
@fn Code::obtain_position
@opt str.len=1
@requires
    self.wf(), pointer <= self.value@.len(),
@ensures
    [C11.position] (r.line as int, r.column as int) == pos_of(self.value@, pointer as int),
@proof start
    lemma_line_start(self.value@, pointer as int);
@proof afterlet index
    lemma_lf(self.value@, line_breaks@, pointer as int, index as int);
@close

@open impl Position {
@fn Position::new
@ensures
    r.line == line && r.column == column,
@close

@open impl<'c> Code<'c> {
@fn From<&'c[u8]>@Code::from
@as from_bytes
@ensures
    [C11.new] r.value@ == value@ && r.wf(),
@fn From<&'cstr>@Code::from
@as from_str
@opt str=bytes
@ensures
    [C11.new] r.value@ == value@ && r.wf(),
@close
@open impl Position {
@fn From<&[u8]>@Position::from
@opt str.len=1
@ensures
    [C11.prefix] (r.line as int, r.column as int) == pos_of(code@, code@.len() as int),
@proof start
    lemma_line_start(code@, code@.len() as int);
@loop 0
    invariant
        vf_s0@ == code@, vf_i0 <= vf_s0@.len(), vf_s0@.len() <= isize::MAX,
        line as int == lf_count(code@, vf_i0 as int),
        pointer as int == line_start(code@, vf_i0 as int),
        line <= vf_i0, pointer <= vf_i0,
    decreases vf_s0@.len() - vf_i0
@close
