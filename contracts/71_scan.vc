@module scan
@modprops C02
/// lexemes are created as documented and never yield the end-of-file token
pub open spec fn lexers_ok<T: TokenImpl, S: Copy + PartialEq + Eq + VfOrd>(ls: Seq<Rc<DynLex<T, S>>>) -> bool {
    &&& forall|k: int| 0 <= k < ls.len() ==> (#[trigger] ls[k]).lwf()
    &&& forall|k: int, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>| 0 <= k < ls.len() ==>
        match (#[trigger] ls[k].lex(code, p, toks, stk)).0 { Some(l) => l.token != T::eof_s(), None => true }
}
/// the first lexeme from number k on that yields a token
pub open spec fn first_lex<T: TokenImpl, S: Copy + PartialEq + Eq + VfOrd>(ls: Seq<Rc<DynLex<T, S>>>, k: int, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>) -> (Option<Lex<T>>, Seq<S>) decreases ls.len() - k {
    if k < 0 || k >= ls.len() { (None, stk) } else {
        let r = ls[k].lex(code, p, toks, stk);
        if r.0 is Some { r } else { first_lex(ls, k + 1, code, p, toks, r.1) }
    }
}
pub broadcast proof fn lemma_first_lex<T: TokenImpl, S: Copy + PartialEq + Eq + VfOrd>(ls: Seq<Rc<DynLex<T, S>>>, k: int, code: Bytes, p: int, toks: Seq<Lex<T>>, stk: Seq<S>)
    requires lexers_ok(ls), 0 <= p <= code.len() <= usize::MAX, 0 <= k,
    ensures match (#[trigger] first_lex(ls, k, code, p, toks, stk)).0 { Some(l) => l.start == p && l.start < l.end <= code.len() && l.token != T::eof_s(), None => true },
    decreases ls.len() - k
{
    if k < ls.len() {
        ls[k].lex_laws(code, p, toks, stk);
        lemma_first_lex(ls, k + 1, code, p, toks, ls[k].lex(code, p, toks, stk).1);
    }
}
