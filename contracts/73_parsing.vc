@module parsing
@modprops C19
broadcast use {group_trees, lemma_nm_mono, lemma_at_word};
@struct DefaultParser rr
@struct LexerlessParser rr
/// validating from scratch
pub proof fn lemma_root<N: NodeImpl, T: TokenImpl>(p: Rc<DynProd<N, T>>)
    ensures
        vpre(Set::empty(), Set::empty()), !hits(p.heads(), Set::empty()), all_sound(p.parts()) ==> !defect(p.parts()), p.bwf() && all_sound(p.parts()) ==> p.nwf(),
        forall|v: Set<&'static str>| #[trigger] vinv(v) && vparts(v, Set::empty()) ==> all_sound(v),
{
    if all_sound(p.parts()) { lemma_sound_defect(p.parts()); }
    if p.bwf() && all_sound(p.parts()) { p.nlaw(); }
}
/// the structural view of a list of tokens
pub open spec fn fl_of<T: TokenImpl>(toks: Seq<Lex<T>>) -> Seq<TokenPtr> { choose|fl: Seq<TokenPtr>| fl_exact(toks, fl) }
pub proof fn lemma_fl_of<T: TokenImpl>(toks: Seq<Lex<T>>, fl: Seq<TokenPtr>)
    requires fl_exact(toks, fl),
    ensures fl == fl_of(toks),
{
    let g = fl_of(toks);
    lemma_fl_pre(toks, fl, g, fl.len() as int);
    lemma_fl_pre(toks, g, fl, g.len() as int);
    assert(fl =~= g);
}
proof fn lemma_fl_pre<T: TokenImpl>(toks: Seq<Lex<T>>, a: Seq<TokenPtr>, b: Seq<TokenPtr>, n: int)
    requires fl_exact(toks, a), fl_exact(toks, b), 0 <= n <= a.len(),
    ensures n <= b.len(), forall|k: int| 0 <= k < n ==> #[trigger] a[k] == b[k],
    decreases n
{
    if n > 0 {
        lemma_fl_pre(toks, a, b, n - 1);
        let j = a[n - 1].0 as int;
        assert(toks[j].token.structural_s());
        let q = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == j;
        if q < n - 1 { assert(a[q] == b[q]); assert(a[q].0 < a[n - 1].0); }
        assert(n <= b.len());
        let i = b[n - 1].0 as int;
        assert(toks[i].token.structural_s());
        let p = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).0 == i;
        if p < n - 1 { assert(a[p] == b[p]); assert(b[p].0 < b[n - 1].0); }
        if q > n - 1 { assert(b[n - 1].0 < b[q].0); assert(p >= n - 1); if p > n - 1 { assert(a[n - 1].0 < a[p].0); } }
    }
}
pub open spec fn tenv<T: TokenImpl>(code: Bytes, ts: Seq<Lex<T>>) -> Env<T> { Env { code: code, toks: ts, fl: fl_of(ts) } }
pub open spec fn benv<T>(code: Bytes) -> Env<T> { Env { code: code, toks: Seq::empty(), fl: Seq::empty() } }
/// the result of a parse is that of the root production: its nodes unchanged, the mark of the furthest match, or the validation error
pub open spec fn outcome<N, T>(r: Result<Vec<ASTNode<N>>, ParseError>, s: PRes<N>, e: Env<T>, m: Md) -> bool {
    match s.out {
        Ok(o) => r is Ok && trees(r->Ok_0@) == o.1,
        Err(ProductionError::Unparsed) => r is Err && r->Err_0.pointer == nm(e, m, s.reach),
        Err(ProductionError::Validation(p, _)) => r is Err && r->Err_0.pointer == p,
    }
}
/// tokenizing, then the structural view, then the root production on its first token
pub open spec fn parse_spec<N: NodeImpl, T: TokenImpl>(r: Result<Vec<ASTNode<N>>, ParseError>, tok: DynTok<T>, root: DynProd<N, T>, text: Bytes) -> bool {
    match tok.tks(text) {
        Ok(ts) => outcome(r, root.sem(tenv(text, ts), Md::F, 0), tenv(text, ts), Md::F),
        Err(p) => r is Err && r->Err_0.pointer == p,
    }
}
pub proof fn lemma_start<N, T: TokenImpl>(e: Env<T>, m: Md, c: Cache<FltrPtr, N>)
    requires tok_ok(e), m == Md::F, c.map() == Map::<(CacheKey, usize), ParsedResult<FltrPtr, N>>::empty(), c.mx() == 0,
    ensures ppre(e, m, 0, c),
{
    lemma_starts_inc(e);
    lemma_nm_st(e, m, 0);
    lemma_nmk(e, 0, 0);
}
@open impl<TN: NodeImpl, TL: TokenImpl> DefaultParser<TN, TL> {
/// created as documented
pub open spec fn pwf(&self) -> bool { self.tokenizer.twf() && self.root.wf(Md::F) && eq_ok::<TL>() && ord_ok::<TL>() && TL::eof_s().structural_s() }
@fn DefaultParser::new
@props C16 C19
@ghost vf_w: &mut World
@ghostcall validate: = vf_w
@requires
    root.bwf(), old(vf_w).on() == Set::<&'static str>::empty(),
@ensures
    [C16.accept] r is Ok <==> !defect(root.parts()),
    [C16.nwf] r is Ok ==> root.nwf(),
    [C19.new] r is Ok ==> r->Ok_0.tokenizer == tokenizer && r->Ok_0.root == root,
@fn DefaultParser::validate
@props C16 C19
@ghost vf_w: &mut World
@ghostcall validate: = vf_w, Ghost(vf_top)
@requires
    self.root.bwf(), old(vf_w).on() == Set::<&'static str>::empty(),
@ensures
    final(vf_w).on() == Set::<&'static str>::empty(),
    [C16.accept] r is Ok <==> !defect(self.root.parts()),
    [C16.nwf] r is Ok ==> self.root.nwf(),
@proof start
    lemma_root(self.root);
    let ghost vf_top = mtop();
@fn DefaultParser::tokenize
@requires
    self.pwf(), code.wf(),
@ensures
    [C19.tokenize] match r { Ok(v) => self.tokenizer.tks(code.value@) == Ok::<Seq<Lex<TL>>, int>(v@), Err(e) => self.tokenizer.tks(code.value@) == Err::<Seq<Lex<TL>>, int>(e.pointer as int) },
@fn DefaultParser::parse_stream
@ghostcall advance_fltr_ptr: = Ghost(own(self.root.fwd(Md::F), mroot()))
@requires
    self.pwf(), code.wf(), tok_ok(env(code, &filtered_stream)),
@ensures
    [C19.stream] outcome(r, self.root.sem(env(code, &filtered_stream), Md::F, 0), env(code, &filtered_stream), Md::F),
    [C10.message] match r { Err(e) => said_pos(e.message, code.value@, e.pointer as int), Ok(_) => true },
@proof afterlet index
    let ghost e = env(code, &filtered_stream);
    lemma_start(e, Md::F, cached_data);
    self.root.laws(e, Md::F, 0);
@fn DefaultParser::tokenize_n_parse
@requires
    self.pwf(),
@ensures
    [C19.both] match r { Ok(v) => self.tokenizer.tks(text@) == Ok::<Seq<Lex<TL>>, int>(v.0@), Err(_) => true },
    [C19.both] parse_spec(match r { Ok(v) => Ok(v.1), Err(e) => Err(e) }, *self.tokenizer, *self.root, text@),
@proof afterlet filtered_stream
    lemma_text_len(text);
    self.tokenizer.tok_laws(text@);
    lemma_fl_of(lexical_stream@, filtered_stream.fl());
@fn DefaultParser::parse
@requires
    self.pwf(),
@ensures
    [C19.parse] parse_spec(r, *self.tokenizer, *self.root, text@),
@proof afterlet filtered_stream
    lemma_text_len(text);
    self.tokenizer.tok_laws(text@);
    lemma_fl_of(lexical_stream@, filtered_stream.fl());
@close
@open impl<TN: NodeImpl, TL: TokenImpl> LexerlessParser<TN, TL> {
pub open spec fn pwf(&self) -> bool { self.root.wf(Md::L) && eq_ok::<TL>() }
@fn LexerlessParser::new
@props C16 C19
@ghost vf_w: &mut World
@ghostcall validate: = vf_w
@requires
    root.bwf(), old(vf_w).on() == Set::<&'static str>::empty(),
@ensures
    [C16.accept] r is Ok <==> !defect(root.parts()),
    [C16.nwf] r is Ok ==> root.nwf(),
    [C19.new] r is Ok ==> r->Ok_0.root == root,
@fn LexerlessParser::validate
@props C16 C19
@ghost vf_w: &mut World
@ghostcall validate: = vf_w, Ghost(vf_top)
@requires
    self.root.bwf(), old(vf_w).on() == Set::<&'static str>::empty(),
@ensures
    final(vf_w).on() == Set::<&'static str>::empty(),
    [C16.accept] r is Ok <==> !defect(self.root.parts()),
    [C16.nwf] r is Ok ==> self.root.nwf(),
@proof start
    lemma_root(self.root);
    let ghost vf_top = mtop();
@fn LexerlessParser::parse
@ghostcall advance_ptr: = Ghost(own(self.root.fwd(Md::L), mroot()))
@requires
    self.pwf(),
@ensures
    [C19.bytes] outcome(r, self.root.sem(benv(text@), Md::L, 0), benv::<TL>(text@), Md::L),
    [C10.message] match r { Err(e) => said_pos(e.message, text@, e.pointer as int), Ok(_) => true },
@proof afterlet index
    lemma_text_len(text);
    self.root.laws(lenv(&code), Md::L, 0);
@close
