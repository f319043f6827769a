//! Mechanical rewriting of /repo function bodies into the subset the verifier accepts.
//! Every rewriting here is listed in DESIGN.md ("What the extraction changes").
use crate::overlay::FnOv;
use crate::source::{cfg_eval, cfg_keep, squeeze, Source};
use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Ident, Pat, Stmt};

pub struct Tr<'a> {
    pub src: &'a Source,
    /// fn keys that have a contract (callable in generated code)
    pub known: &'a HashSet<String>,
    pub known_names: &'a HashSet<String>,
    pub ov: &'a FnOv,
    pub self_ty: Option<String>,
    pub streams: HashSet<String>,
    pub loops: usize,
    pub closures: usize,
    pub closure_params: std::collections::HashMap<usize, Vec<String>>,
    pub bs: usize,
    pub panics: usize,
    pub rets: usize,
    pub notes: BTreeSet<String>,
    pub inlined: Vec<String>,
    pub depth: usize,
    pub seen_lets: HashSet<String>,
}

fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

fn as_block(e: Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block,
        other => parse_quote!({ #other }),
    }
}

fn closure1(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    if let Expr::Closure(c) = e {
        let pats = c
            .inputs
            .iter()
            .map(|p| match p {
                Pat::Type(t) => (*t.pat).clone(),
                o => o.clone(),
            })
            .collect();
        return Some((pats, (*c.body).clone()));
    }
    None
}

struct HasEscape {
    ret: bool,
    q: bool,
}
impl<'ast> Visit<'ast> for HasEscape {
    fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.q = true;
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}
pub fn escapes_expr(e: &Expr) -> (bool, bool) {
    let mut h = HasEscape { ret: false, q: false };
    h.visit_expr(e);
    (h.ret, h.q)
}
pub fn escapes_block(b: &Block) -> (bool, bool) {
    let mut h = HasEscape { ret: false, q: false };
    h.visit_block(b);
    (h.ret, h.q)
}

struct BreakToReturn;
impl VisitMut for BreakToReturn {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Break(b) if b.label.is_none() => {
                if let Some(v) = b.expr.take() {
                    *e = parse_quote!(return #v);
                }
            }
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_item_mut(&mut self, _: &mut syn::Item) {}
}

/// `break v` of a loop in tail position of the function is `return v`.
pub fn fix_tail_block(b: &mut Block) {
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if semi.is_none() || matches!(e, Expr::Loop(_)) {
            fix_tail_expr(e);
        }
    }
}
fn fix_tail_expr(e: &mut Expr) {
    match e {
        Expr::Loop(l) => {
            let mut v = BreakToReturn;
            for s in l.body.stmts.iter_mut() {
                v.visit_stmt_mut(s);
            }
        }
        Expr::Block(b) => fix_tail_block(&mut b.block),
        Expr::If(i) => {
            fix_tail_block(&mut i.then_branch);
            if let Some((_, e)) = &mut i.else_branch {
                fix_tail_expr(e);
            }
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                fix_tail_expr(&mut a.body);
            }
        }
        _ => {}
    }
}

/// Drops statements, fields and expressions that the release configuration does not contain.
pub struct CfgDrop;
impl VisitMut for CfgDrop {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let keep = match &s {
                Stmt::Local(l) => cfg_keep(&l.attrs),
                Stmt::Item(_) => true,
                Stmt::Expr(e, _) => cfg_keep(expr_attrs(e)),
                Stmt::Macro(m) => cfg_keep(&m.attrs),
            };
            if keep {
                strip_stmt_attrs(&mut s);
                b.stmts.push(s);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut syn::ExprStruct) {
        let f = std::mem::take(&mut s.fields);
        s.fields = f.into_iter().filter(|f| cfg_keep(&f.attrs)).collect();
        visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        let a = std::mem::take(&mut m.arms);
        m.arms = a.into_iter().filter(|f| cfg_keep(&f.attrs)).collect();
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("cfg") {
                if let Ok(meta) = syn::parse2::<syn::Meta>(m.mac.tokens.clone()) {
                    let v = cfg_eval(&meta);
                    *e = parse_quote!(#v);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // constant folding of `if false` so that the dropped branch is not generated
        if let Expr::If(i) = e {
            if let Expr::Lit(l) = &*i.cond {
                if let syn::Lit::Bool(b) = &l.lit {
                    let r: Expr = if b.value {
                        let t = &i.then_branch;
                        parse_quote!(#t)
                    } else {
                        match &i.else_branch {
                            Some((_, e)) => (**e).clone(),
                            None => parse_quote!({}),
                        }
                    };
                    *e = r;
                }
            }
        }
    }
}

fn expr_attrs(e: &Expr) -> &[syn::Attribute] {
    match e {
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::While(x) => &x.attrs,
        Expr::Loop(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Assign(x) => &x.attrs,
        Expr::Return(x) => &x.attrs,
        Expr::Try(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        _ => &[],
    }
}
fn strip_stmt_attrs(s: &mut Stmt) {
    match s {
        Stmt::Local(l) => l.attrs.clear(),
        Stmt::Macro(m) => m.attrs.clear(),
        Stmt::Expr(e, _) => match e {
            Expr::Call(x) => x.attrs.clear(),
            Expr::MethodCall(x) => x.attrs.clear(),
            Expr::If(x) => x.attrs.clear(),
            Expr::Match(x) => x.attrs.clear(),
            Expr::ForLoop(x) => x.attrs.clear(),
            Expr::While(x) => x.attrs.clear(),
            Expr::Loop(x) => x.attrs.clear(),
            Expr::Block(x) => x.attrs.clear(),
            Expr::Macro(x) => x.attrs.clear(),
            Expr::Assign(x) => x.attrs.clear(),
            Expr::Return(x) => x.attrs.clear(),
            Expr::Try(x) => x.attrs.clear(),
            _ => {}
        },
        _ => {}
    }
}

/// Names bound in a function, in source order.
#[derive(Default)]
pub struct Binders(pub Vec<String>);
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.push(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}

/// `@opt str=bytes`: `str` in the types of this function is a byte slice
pub static STR_BYTES: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static IN_VEC: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// `HashMap<Vec<u8>, _>`
fn nid_bytes_key(s: &syn::PathSegment) -> bool {
    if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
        return a.args.first().map_or(false, |x| squeeze(&x.to_token_stream().to_string()) == "Vec<u8>");
    }
    false
}
pub struct TyRw;
impl VisitMut for TyRw {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        // std::collections::HashMap, once_cell::unsync::OnceCell ...
        let n = p.segments.len();
        for k in 0..n {
            let id = p.segments[k].ident.to_string();
            let new = match id.as_str() {
                "OnceCell" => Some("VfCell"),
                "HashMap" => Some("VfMap"),
                "HashSet" => Some("VfSet"),
                "Cell" => Some("VfFlag"),
                "Regex" => Some("VfRegex"),
                _ => None,
            };
            let bytes_key = nid_bytes_key(&p.segments[k]);
            let new = if id == "HashMap" && bytes_key { Some("VfBMap") } else { new };
            if let Some(nn) = new {
                let rest: Vec<syn::PathSegment> = p.segments.iter().skip(k).cloned().collect();
                let mut segs = syn::punctuated::Punctuated::new();
                for (j, mut s) in rest.into_iter().enumerate() {
                    if j == 0 {
                        s.ident = ident(nn);
                        if nn == "VfFlag" {
                            s.arguments = syn::PathArguments::None;
                        }
                        if nn == "VfBMap" {
                            if let syn::PathArguments::AngleBracketed(a) = &mut s.arguments {
                                a.args = a.args.iter().skip(1).cloned().collect();
                            }
                        }
                    }
                    segs.push(s);
                }
                p.segments = segs;
                p.leading_colon = None;
                break;
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if STR_BYTES.load(std::sync::atomic::Ordering::Relaxed) {
            if let syn::Type::Path(p) = t {
                if p.path.is_ident("str") {
                    *t = parse_quote!([u8]);
                    return;
                }
                // stored strings are byte vectors as well
                if p.path.is_ident("String") && IN_VEC.load(std::sync::atomic::Ordering::Relaxed) {
                    *t = parse_quote!(Vec<u8>);
                    return;
                }
                if p.path.segments.last().map_or(false, |s| s.ident == "Vec") && !IN_VEC.load(std::sync::atomic::Ordering::Relaxed) {
                    IN_VEC.store(true, std::sync::atomic::Ordering::Relaxed);
                    visit_mut::visit_type_mut(self, t);
                    IN_VEC.store(false, std::sync::atomic::Ordering::Relaxed);
                    return;
                }
            }
        }
        if let syn::Type::TraitObject(o) = t {
            for b in &o.bounds {
                if let syn::TypeParamBound::Trait(tb) = b {
                    let seg = tb.path.segments.last().unwrap();
                    let mut m = std::collections::HashMap::new();
                    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                        for x in &a.args {
                            if let syn::GenericArgument::AssocType(at) = x {
                                m.insert(at.ident.to_string(), at.ty.clone());
                            }
                        }
                    }
                    let id = seg.ident.to_string();
                    let r: Option<syn::Type> = match id.as_str() {
                        "IProduction" => {
                            let (a, b) = (m.get("Node").cloned(), m.get("Token").cloned());
                            match (a, b) {
                                (Some(a), Some(b)) => Some(parse_quote!(DynProd<#a, #b>)),
                                _ => None,
                            }
                        }
                        "ILexeme" => {
                            let (a, b) = (m.get("Token").cloned(), m.get("State").cloned());
                            match (a, b) {
                                (Some(a), Some(b)) => Some(parse_quote!(DynLex<#a, #b>)),
                                _ => None,
                            }
                        }
                        "ITokenization" => m.get("Token").map(|a| parse_quote!(DynTok<#a>)),
                        _ => None,
                    };
                    if let Some(r) = r {
                        *t = r;
                        break;
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

#[derive(Clone)]
enum Ad {
    Enumerate,
    Rev,
    Map(Vec<Pat>, Expr),
    FilterMap(Vec<Pat>, Expr),
    Filter(Vec<Pat>, Expr),
    TakeWhile(Vec<Pat>, Expr),
    Copied,
}

fn chain(e: &Expr) -> Option<(Expr, Vec<Ad>, String)> {
    if let Expr::Paren(p) = e {
        return chain(&p.expr);
    }
    if let Expr::MethodCall(m) = e {
        let name = m.method.to_string();
        match name.as_str() {
            "iter" | "into_iter" | "iter_mut" if m.args.is_empty() => {
                return Some(((*m.receiver).clone(), vec![], name))
            }
            "enumerate" | "rev" | "cloned" | "copied" if m.args.is_empty() => {
                let (b, mut a, k) = chain(&m.receiver)?;
                a.push(match name.as_str() {
                    "enumerate" => Ad::Enumerate,
                    "rev" => Ad::Rev,
                    _ => Ad::Copied,
                });
                return Some((b, a, k));
            }
            "map" | "filter_map" | "filter" | "take_while" if m.args.len() == 1 => {
                let (b, mut a, k) = chain(&m.receiver)?;
                let (p, body) = closure1(&m.args[0])?;
                if escapes_expr(&body).0 || escapes_expr(&body).1 {
                    return None;
                }
                a.push(match name.as_str() {
                    "map" => Ad::Map(p, body),
                    "filter_map" => Ad::FilterMap(p, body),
                    "filter" => Ad::Filter(p, body),
                    _ => Ad::TakeWhile(p, body),
                });
                return Some((b, a, k));
            }
            _ => return None,
        }
    }
    None
}

impl<'a> Tr<'a> {
    fn opt(&self, k: &str) -> Option<&String> {
        self.ov.opts.get(k)
    }

    /// Builds `while` over a sequence.  `inner` consumes `vf_x`.
    fn seq_loop(
        &mut self,
        k: usize,
        base: Expr,
        ads: Vec<Ad>,
        kind: &str,
        extra_cond: Option<Expr>,
        inner: Vec<Stmt>,
    ) -> (Vec<Stmt>, Stmt) {
        let s = format_ident!("vf_s{}", k);
        let i = format_ident!("vf_i{}", k);
        let x = format_ident!("vf_x{}", k);
        let stop = format_ident!("vf_stop{}", k);
        let mut pre: Vec<Stmt> = vec![];
        let kind = self.opt(&format!("loopkind.{}", k)).cloned().unwrap_or(kind.to_string());
        let mut base = base;
        if let Expr::Reference(r) = &base {
            if r.mutability.is_none() && kind != "set" {
                base = (*r.expr).clone();
            }
        }
        if kind.starts_with("fn:") {
            let f = ident(&kind[3..]);
            pre.push(parse_quote!(let #s = #f(#base);));
        } else if kind == "move" {
            pre.push(parse_quote!(let #s = #base;));
        } else {
            match &base {
                Expr::Call(_) | Expr::MethodCall(_) => pre.push(parse_quote!(let #s = vf_seq(#base);)),
                Expr::Index(x) if matches!(&*x.index, Expr::Range(_)) => pre.push(parse_quote!(let #s = vf_part(&#base);)),
                _ => pre.push(parse_quote!(let #s = vf_seq(&#base);)),
            }
        }
        pre.push(parse_quote!(let mut #i: usize = 0;));
        // element
        let mut body: Vec<Stmt> = vec![parse_quote!(vf_loop_mark!(#k);)];
        let tkey = format!("looptop {}", k);
        if self.ov.proofs.contains_key(&tkey) {
            body.push(parse_quote!(vf_proof!(#tkey);));
        }
        let mut rev = false;
        let mut enum_before_rev = false;
        let mut seen_enum = false;
        for a in &ads {
            match a {
                Ad::Rev => {
                    rev = !rev;
                    if seen_enum {
                        enum_before_rev = true;
                    }
                }
                Ad::Enumerate => seen_enum = true,
                _ => {}
            }
        }
        let idx: Expr = if rev {
            parse_quote!((#s.len() - 1 - #i))
        } else {
            parse_quote!(#i)
        };
        if kind == "move" || kind == "into_iter" {
            body.push(parse_quote!(let #x = vf_take(&#s, #idx);));
        } else {
            body.push(parse_quote!(let #x = &#s[#idx];));
        }
        let counter: Expr = if enum_before_rev {
            parse_quote!((#s.len() - #i))
        } else {
            parse_quote!((#i - 1))
        };
        body.push(parse_quote!(#i = #i + 1;));
        let mut has_stop = false;
        fn nest(
            ads: &[Ad],
            x: &Ident,
            counter: &Expr,
            stop: &Ident,
            has_stop: &mut bool,
            inner: Vec<Stmt>,
        ) -> Vec<Stmt> {
            if ads.is_empty() {
                return inner;
            }
            let rest = nest(&ads[1..], x, counter, stop, has_stop, inner);
            match &ads[0] {
                Ad::Rev => rest,
                Ad::Enumerate => {
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #x = (#counter, #x);)];
                    v.extend(rest);
                    v
                }
                Ad::Copied => {
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #x = #x.vf_clone();)];
                    v.extend(rest);
                    v
                }
                Ad::Map(p, b) => {
                    let p = &p[0];
                    let mut v: Vec<Stmt> = vec![parse_quote!(let #x = { let #p = #x; #b };)];
                    v.extend(rest);
                    v
                }
                Ad::FilterMap(p, b) => {
                    let p = &p[0];
                    vec![
                        parse_quote!(let vf_o = { let #p = #x; #b };),
                        parse_quote!(if let Some(#x) = vf_o { #(#rest)* }),
                    ]
                }
                Ad::Filter(p, b) => {
                    let p = &p[0];
                    vec![
                        parse_quote!(let vf_c = { let #p = &#x; #b };),
                        parse_quote!(if vf_c { #(#rest)* }),
                    ]
                }
                Ad::TakeWhile(p, b) => {
                    *has_stop = true;
                    let p = &p[0];
                    vec![
                        parse_quote!(let vf_c = { let #p = &#x; #b };),
                        parse_quote!(if vf_c { #(#rest)* } else { #stop = true; }),
                    ]
                }
            }
        }
        body.extend(nest(&ads, &x, &counter, &stop, &mut has_stop, inner));
        let mut cond: Expr = parse_quote!(#i < #s.len());
        if let Some(c) = extra_cond {
            cond = parse_quote!(#cond && #c);
        }
        if has_stop {
            pre.push(parse_quote!(let mut #stop: bool = false;));
            cond = parse_quote!(#cond && !#stop);
        }
        if self.ov.proofs.contains_key(&format!("loopbefore {}", k)) {
            let key = format!("loopbefore {}", k);
            pre.push(parse_quote!(vf_proof!(#key);));
        }
        if self.ov.proofs.contains_key(&format!("loopend {}", k)) {
            let key = format!("loopend {}", k);
            body.push(parse_quote!(vf_proof!(#key);));
        }
        let w: Stmt = parse_quote!(while #cond { #(#body)* });
        (pre, w)
    }

    fn terminal(&mut self, e: &Expr) -> Option<Expr> {
        let m = if let Expr::MethodCall(m) = e { m } else { return None };
        let name = m.method.to_string();
        if !["find_map", "find", "position", "any", "all", "for_each", "collect"].contains(&name.as_str()) {
            return None;
        }
        let (base, ads, kind) = chain(&m.receiver)?;
        let clo = if name == "collect" {
            None
        } else {
            if m.args.len() != 1 {
                return None;
            }
            let c = closure1(&m.args[0])?;
            let (r, q) = escapes_expr(&c.1);
            if r || q {
                return None;
            }
            Some(c)
        };
        let k = self.loops;
        self.loops += 1;
        let r = format_ident!("vf_r{}", k);
        let i = format_ident!("vf_i{}", k);
        let x = format_ident!("vf_x{}", k);
        let (init, cond, inner): (Stmt, Option<Expr>, Vec<Stmt>) = match name.as_str() {
            "find_map" => {
                let (p, b) = clo.unwrap();
                let p = &p[0];
                (
                    parse_quote!(let mut #r = None;),
                    Some(parse_quote!(#r.is_none())),
                    vec![parse_quote!(let #p = #x;), parse_quote!(#r = #b;)],
                )
            }
            "find" => {
                let (p, b) = clo.unwrap();
                let p = &p[0];
                (
                    parse_quote!(let mut #r = None;),
                    Some(parse_quote!(#r.is_none())),
                    vec![
                        parse_quote!(let vf_c = { let #p = &#x; #b };),
                        parse_quote!(if vf_c { #r = Some(#x); }),
                    ],
                )
            }
            "position" => {
                let (p, b) = clo.unwrap();
                let p = &p[0];
                (
                    parse_quote!(let mut #r: Option<usize> = None;),
                    Some(parse_quote!(#r.is_none())),
                    vec![
                        parse_quote!(let vf_c = { let #p = #x; #b };),
                        parse_quote!(if vf_c { #r = Some(#i - 1); }),
                    ],
                )
            }
            "any" => {
                let (p, b) = clo.unwrap();
                let p = &p[0];
                (
                    parse_quote!(let mut #r: bool = false;),
                    Some(parse_quote!(!#r)),
                    vec![parse_quote!(let #p = #x;), parse_quote!(#r = #b;)],
                )
            }
            "all" => {
                let (p, b) = clo.unwrap();
                let p = &p[0];
                (
                    parse_quote!(let mut #r: bool = true;),
                    Some(parse_quote!(#r)),
                    vec![parse_quote!(let #p = #x;), parse_quote!(#r = #b;)],
                )
            }
            "for_each" => {
                let (p, b) = clo.unwrap();
                let p = &p[0];
                (
                    parse_quote!(let #r = ();),
                    None,
                    vec![parse_quote!(let #p = #x;), parse_quote!(let _ = #b;)],
                )
            }
            _ => (
                parse_quote!(let mut #r = Vec::new();),
                None,
                vec![parse_quote!(#r.push(#x);)],
            ),
        };
        let mut init = init;
        if let Some(t) = self.opt(&format!("rty.{}", k)) {
            if let Ok(t) = syn::parse_str::<syn::Type>(t) {
                init = if name == "collect" {
                    parse_quote!(let mut #r: #t = Vec::new();)
                } else {
                    parse_quote!(let mut #r: #t = None;)
                };
            }
        }
        let (pre, w) = self.seq_loop(k, base, ads, &kind, cond, inner);
        let after = self.after_loop(k);
        Some(parse_quote!({ #(#pre)* #init #w #(#after)* #r }))
    }

    fn after_loop(&self, k: usize) -> Vec<Stmt> {
        let key = format!("loopafter {}", k);
        if self.ov.proofs.contains_key(&key) {
            vec![parse_quote!(vf_proof!(#key);)]
        } else {
            vec![]
        }
    }

    /// Result or Option when every function of that name in /repo returns it
    fn kind_by_sig(&self, name: &str) -> Option<&'static str> {
        let suffix = format!("::{}", name);
        let mut r: Option<&'static str> = None;
        for (k, v) in &self.src.fns {
            if !k.ends_with(&suffix) {
                continue;
            }
            for f in v {
                let t = match &f.sig.output {
                    syn::ReturnType::Type(_, t) => squeeze(&t.to_token_stream().to_string()),
                    _ => return None,
                };
                let k = if t.starts_with("Result<") || t.starts_with("ParsedResult<") {
                    "Result"
                } else if t.starts_with("Option<") {
                    "Option"
                } else {
                    return None;
                };
                if r.map_or(false, |o| o != k) {
                    return None;
                }
                r = Some(k);
            }
        }
        r
    }

    /// `self.log_x(..);` where the release body of every `log_x` is empty
    fn empty_log(&self, e: &Expr) -> bool {
        let m = if let Expr::MethodCall(m) = e { m } else { return false };
        let n = m.method.to_string();
        if !n.starts_with("log_") || !matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
            return false;
        }
        let plain = |a: &Expr| match a {
            Expr::Path(_) => true,
            Expr::Reference(r) => matches!(&*r.expr, Expr::Path(_)),
            _ => false,
        };
        if !m.args.iter().all(plain) {
            return false;
        }
        let suffix = format!("::{}", n);
        let mut any = false;
        for (k, v) in &self.src.fns {
            if k.ends_with(&suffix) {
                for f in v {
                    any = true;
                    let mut b = match &f.block {
                        Some(b) => b.clone(),
                        None => return false,
                    };
                    CfgDrop.visit_block_mut(&mut b);
                    if !b.stmts.is_empty() {
                        return false;
                    }
                }
            }
        }
        any
    }

    fn kind_of(&self, recv: &Expr) -> &'static str {
        match recv {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(k) = self.kind_by_sig(&n) {
                    return k;
                }
                if n.starts_with("advance_") || ["insert_field", "set", "obtain_nullability", "validate", "insert", "map_err", "or_else"].contains(&n.as_str()) {
                    "Result"
                } else if n == "consume" && m.args.len() != 4 {
                    "Result"
                } else if n == "and_then" || n == "map" {
                    self.kind_of(&m.receiver)
                } else {
                    "Option"
                }
            }
            Expr::Call(_) => "Result",
            Expr::Paren(p) => self.kind_of(&p.expr),
            _ => "Option",
        }
    }

    fn and_then_body(&self, stmts: &[Stmt]) -> Option<Expr> {
        // statements of a closure body in which `?` may appear at statement level
        if stmts.is_empty() {
            return Some(parse_quote!(()));
        }
        let (q_pat, q_expr): (Option<Pat>, Option<Expr>) = match &stmts[0] {
            Stmt::Expr(Expr::Try(t), Some(_)) => (None, Some((*t.expr).clone())),
            Stmt::Local(l) => match &l.init {
                Some(i) => match &*i.expr {
                    Expr::Try(t) => (Some(l.pat.clone()), Some((*t.expr).clone())),
                    _ => (None, None),
                },
                None => (None, None),
            },
            _ => (None, None),
        };
        if let Some(e) = q_expr {
            let (r, q) = escapes_expr(&e);
            if r || q {
                return None;
            }
            let rest = self.and_then_body(&stmts[1..])?;
            let p: Pat = q_pat.unwrap_or(parse_quote!(_));
            return Some(parse_quote!(match #e { Ok(#p) => { #rest } Err(vf_e) => Err(vf_e) }));
        }
        let h = {
            let mut h = HasEscape { ret: false, q: false };
            h.visit_stmt(&stmts[0]);
            h
        };
        if h.ret || h.q {
            return None;
        }
        let first = &stmts[0];
        if stmts.len() == 1 {
            return Some(match first {
                Stmt::Expr(e, None) => e.clone(),
                s => parse_quote!({ #s }),
            });
        }
        let rest = self.and_then_body(&stmts[1..])?;
        Some(parse_quote!({ #first #rest }))
    }

    fn combinator(&mut self, e: &Expr) -> Option<Expr> {
        let m = if let Expr::MethodCall(m) = e { m } else { return None };
        let name = m.method.to_string();
        let recv = &m.receiver;
        let c = |k: usize| -> Option<(Vec<Pat>, Expr)> { m.args.get(k).and_then(closure1) };
        let clean = |b: &Expr| -> Option<Expr> {
            let (r, q) = escapes_expr(b);
            if r {
                return None;
            }
            if q {
                if let Expr::Block(bl) = b {
                    return self.and_then_body(&bl.block.stmts);
                }
                return None;
            }
            Some(b.clone())
        };
        match name.as_str() {
            "map" if m.args.len() == 1 => {
                if chain(recv).is_some() {
                    return None;
                }
                let (p, b) = c(0)?;
                let (r, q) = escapes_expr(&b);
                if r || q {
                    return None;
                }
                let p = p.get(0)?;
                if self.kind_of(recv) == "Result" {
                    Some(parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(vf_e) => Err(vf_e) }))
                } else {
                    Some(parse_quote!(match #recv { Some(#p) => Some(#b), None => None }))
                }
            }
            "and_then" => {
                let (p, b) = c(0)?;
                let p = p.get(0)?.clone();
                let b = clean(&b)?;
                if self.kind_of(recv) == "Result" {
                    Some(parse_quote!(match #recv { Ok(#p) => #b, Err(vf_e) => Err(vf_e) }))
                } else {
                    Some(parse_quote!(match #recv { Some(#p) => #b, None => None }))
                }
            }
            "or_else" => {
                let (p, b) = c(0)?;
                let b = clean(&b)?;
                if let Some(p) = p.get(0) {
                    Some(parse_quote!(match #recv { Ok(vf_o) => Ok(vf_o), Err(#p) => #b }))
                } else {
                    Some(parse_quote!(match #recv { Some(vf_o) => Some(vf_o), None => #b }))
                }
            }
            "map_err" => {
                let (p, b) = c(0)?;
                let b = clean(&b)?;
                let p = p.get(0)?;
                Some(parse_quote!(match #recv { Ok(vf_o) => Ok(vf_o), Err(#p) => Err(#b) }))
            }
            "map_or" if m.args.len() == 2 => {
                let d = &m.args[0];
                let (p, b) = c(1)?;
                let p = p.get(0)?;
                let b = clean(&b)?;
                if let Expr::MethodCall(rm) = &**recv {
                    let _ = rm;
                }
                Some(parse_quote!({ let vf_d = #d; match #recv { Some(#p) => #b, None => vf_d } }))
            }
            "unwrap_or_else" => {
                let (p, b) = c(0)?;
                let b = clean(&b)?;
                if let Some(p) = p.get(0) {
                    Some(parse_quote!(match #recv { Ok(vf_o) => vf_o, Err(#p) => #b }))
                } else {
                    Some(parse_quote!(match #recv { Some(vf_o) => vf_o, None => #b }))
                }
            }
            _ => None,
        }
    }

    /// Helpers that have no contract are inlined (beta reduction) when that is possible.
    fn inline_helper(&mut self, e: &Expr, tail: bool) -> Option<Expr> {
        if self.depth > 3 {
            return None;
        }
        let (name, owner, recv, args): (String, Option<String>, Option<Expr>, Vec<Expr>) = match e {
            Expr::MethodCall(m) => (
                m.method.to_string(),
                self.self_ty.clone(),
                Some((*m.receiver).clone()),
                m.args.iter().cloned().collect(),
            ),
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let args: Vec<Expr> = c.args.iter().cloned().collect();
                    match segs.len() {
                        1 => (segs[0].clone(), None, None, args),
                        _ => {
                            let o = segs[segs.len() - 2].clone();
                            let o = if o == "Self" { self.self_ty.clone()? } else { o };
                            (segs[segs.len() - 1].clone(), Some(o), None, args)
                        }
                    }
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        if name.starts_with("vf_") || self.known_names.contains(&name) {
            return None;
        }
        let key = match &owner {
            Some(o) => format!("{}::{}", o, name),
            None => name.clone(),
        };
        if self.known.contains(&key) {
            return None;
        }
        let cands = self.src.fns.get(&key)?;
        if cands.len() != 1 {
            return None;
        }
        let f = cands[0].clone();
        let mut block = f.block.clone()?;
        CfgDrop.visit_block_mut(&mut block);
        fix_tail_block(&mut block);
        let (r, q) = escapes_block(&block);
        if (r || q) && !tail {
            return None;
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut args = args;
        let mut inputs: Vec<syn::FnArg> = f.sig.inputs.iter().cloned().collect();
        let mut self_repl: Option<Expr> = None;
        if let Some(syn::FnArg::Receiver(_)) = inputs.first() {
            inputs.remove(0);
            let r = match recv {
                Some(r) => r,
                None => {
                    if args.is_empty() {
                        return None;
                    }
                    args.remove(0)
                }
            };
            match &r {
                Expr::Path(p) if p.path.is_ident("self") => {}
                Expr::Path(_) | Expr::Field(_) => self_repl = Some(r),
                _ => return None,
            }
        } else if recv.is_some() {
            return None;
        }
        if inputs.len() != args.len() {
            return None;
        }
        for (k, (i, a)) in inputs.iter().zip(args.iter()).enumerate() {
            if let syn::FnArg::Typed(t) = i {
                let tmp = format_ident!("vf_a{}", k);
                let _ = tmp;
                let p = &t.pat;
                // evaluated in order; argument expressions cannot capture the parameter names when they are
                // the same identifier
                let is_same = p.to_token_stream().to_string() == a.to_token_stream().to_string();
                if !is_same {
                    let pn = match &**p {
                        Pat::Ident(pi) => pi.ident.to_string(),
                        _ => String::new(),
                    };
                    for a2 in args.iter().skip(k + 1) {
                        let mut u = Uses(pn.clone(), false);
                        u.visit_expr(a2);
                        if u.1 {
                            return None;
                        }
                    }
                    stmts.push(parse_quote!(let #p = #a;));
                }
            }
        }
        if let Some(r) = self_repl {
            let mut s = SelfRepl(r);
            s.visit_block_mut(&mut block);
        }
        self.inlined.push(key);
        let body = block.stmts;
        Some(parse_quote!({ #(#stmts)* #(#body)* }))
    }

    fn bs_ghost(&mut self, clo: &Expr) -> Option<Expr> {
        let (p, b) = closure1(clo)?;
        let p = p.get(0)?;
        let n = self.bs;
        self.bs += 1;
        let mut b = b;
        SpecIx(&self.streams).visit_expr_mut(&mut b);
        let el = self.opt(&format!("bs.{}", n))?.clone();
        let el: proc_macro2::TokenStream = el.parse().ok()?;
        Some(parse_quote!(Ghost(vf_spec_closure!((#el) { let #p = vf_k; #b }))))
    }

    fn fmt_macro(&mut self, mac: &syn::Macro, write: bool) -> Expr {
        let args: Vec<Expr> = mac
            .parse_body_with(syn::punctuated::Punctuated::<FmtArg, syn::Token![,]>::parse_terminated)
            .map(|p| p.into_iter().map(|a| a.0).collect())
            .unwrap_or_default();
        let mut effects: Vec<Stmt> = vec![];
        let skip = if write { 2 } else { 1 };
        for a in args.iter().skip(skip) {
            let mut c = Effects(vec![]);
            c.visit_expr(a);
            for x in c.0 {
                effects.push(parse_quote!(let _ = #x;));
            }
        }
        let mut pos: Option<Expr> = None;
        for a in args.iter().skip(skip) {
            let s = squeeze(&a.to_token_stream().to_string());
            if s == "position" || s.contains("obtain_position(") {
                pos = Some(a.clone());
            }
        }
        if write {
            let w = match args.first() {
                Some(w) => w.clone(),
                None => parse_quote!(vf_missing),
            };
            if let Some(p) = pos {
                if matches!(p, Expr::Path(_)) {
                    return parse_quote!({ #(#effects)* vf_writeln_pos(&mut #w, &#p) });
                }
            }
            parse_quote!({ #(#effects)* vf_writeln(&mut #w) })
        } else {
            parse_quote!({ #(#effects)* vf_fmt() })
        }
    }

    fn macro_expr(&mut self, mac: &syn::Macro) -> Option<Expr> {
        let name = mac.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                let k = self.panics;
                self.panics += 1;
                // a documented abort: reached only under the stated condition
                if let Some(c) = self.opt(&format!("panic.{}", k)).and_then(|c| c.parse::<proc_macro2::TokenStream>().ok()) {
                    return Some(parse_quote!(vf_abort(vf_ghost!(#c))));
                }
                Some(parse_quote!(vf_panic()))
            }
            "println" | "print" | "eprintln" | "eprint" => Some(parse_quote!(())),
            "assert" | "debug_assert" => {
                let a = mac
                    .parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                    .ok()?;
                let c = a.first()?;
                Some(parse_quote!(vf_assert(#c)))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                let a = mac
                    .parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                    .ok()?;
                let (x, y) = (a.get(0)?, a.get(1)?);
                if name.ends_with("eq") {
                    Some(parse_quote!(vf_assert(#x == #y)))
                } else {
                    Some(parse_quote!(vf_assert(#x != #y)))
                }
            }
            "format" => Some(self.fmt_macro(mac, false)),
            "write" | "writeln" => Some(self.fmt_macro(mac, true)),
            "vec" => {
                let a = mac
                    .parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated)
                    .ok()?;
                let mut out: Vec<Expr> = vec![];
                for x in a {
                    let mut x = x;
                    self.visit_expr_mut(&mut x);
                    out.push(x);
                }
                Some(Expr::Macro(parse_quote!(vec![#(#out),*])))
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let m: M = syn::parse2(mac.tokens.clone()).ok()?;
                let (e, p) = (m.0, m.1);
                match m.2 {
                    Some(g) => Some(parse_quote!(match #e { #p if #g => true, _ => false })),
                    None => Some(parse_quote!(match #e { #p => true, _ => false })),
                }
            }
            _ => None,
        }
    }
}

struct FmtArg(Expr);
impl syn::parse::Parse for FmtArg {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        if i.peek(syn::Ident) && i.peek2(syn::Token![=]) && !i.peek2(syn::Token![==]) {
            i.parse::<Ident>()?;
            i.parse::<syn::Token![=]>()?;
        }
        Ok(FmtArg(i.parse()?))
    }
}

/// sub-expressions of a formatting argument whose evaluation can fail
struct Effects(Vec<Expr>);
impl<'ast> Visit<'ast> for Effects {
    fn visit_expr_index(&mut self, i: &'ast syn::ExprIndex) {
        if let Expr::Range(_) = &*i.index {
            let i = i.clone();
            self.0.push(parse_quote!(&#i));
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == "obtain_position" {
            self.0.push(Expr::MethodCall(m.clone()));
        } else {
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
}

struct Uses(String, bool);
impl<'ast> Visit<'ast> for Uses {
    fn visit_ident(&mut self, i: &'ast Ident) {
        if i == &self.0 {
            self.1 = true;
        }
    }
}
/// `stream[i]` inside a key function, as a specification
struct SpecIx<'a>(&'a HashSet<String>);
impl<'a> VisitMut for SpecIx<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Index(i) = e {
            if let Expr::Path(p) = &*i.expr {
                if p.path.get_ident().map_or(false, |id| self.0.contains(&id.to_string())) {
                    let (b, x) = (&i.expr, &i.index);
                    *e = parse_quote!((#b.ix(#x)));
                }
            }
        }
    }
}
struct SelfRepl(Expr);
impl VisitMut for SelfRepl {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn starts_with_mark(b: &Block) -> bool {
    if let Some(Stmt::Macro(m)) = b.stmts.first() {
        return m.mac.path.is_ident("vf_loop_mark");
    }
    false
}

impl<'a> VisitMut for Tr<'a> {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        TyRw.visit_type_mut(t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        TyRw.visit_path_mut(p);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            match s {
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n.starts_with("vf_") {
                        b.stmts.push(Stmt::Macro(m));
                        continue;
                    }
                    match self.macro_expr(&m.mac) {
                        Some(mut e) => {
                            self.visit_expr_mut(&mut e);
                            let is_panic = ["panic", "unreachable", "todo", "unimplemented"].contains(&n.as_str());
                            let is_panic = is_panic && matches!(&e, Expr::Call(c) if c.args.is_empty());
                            let abort = matches!(&e, Expr::Call(c) if squeeze(&c.func.to_token_stream().to_string()) == "vf_abort");
                            if let (Some(_), true, Expr::Call(c)) = (m.semi_token, abort, &e) {
                                let a = &c.args;
                                b.stmts.push(parse_quote!(vf_abort::<()>(#a);));
                            } else if m.semi_token.is_some() && is_panic {
                                b.stmts.push(parse_quote!(vf_panic::<()>();));
                            } else if m.semi_token.is_some() {
                                b.stmts.push(Stmt::Expr(e, Some(Default::default())));
                            } else {
                                b.stmts.push(Stmt::Expr(e, None));
                            }
                        }
                        None => b.stmts.push(Stmt::Macro(m)),
                    }
                }
                Stmt::Expr(e, Some(_)) if self.empty_log(&e) => {
                    self.notes.insert("dropped logging calls whose release body is empty".into());
                }
                Stmt::Expr(mut e, semi) => {
                    // a `for` statement followed by others
                    self.visit_expr_mut(&mut e);
                    b.stmts.push(Stmt::Expr(e, semi));
                }
                mut other => {
                    self.visit_stmt_mut(&mut other);
                    let mut key = None;
                    if let Stmt::Local(l) = &other {
                        let id = match &l.pat {
                            Pat::Ident(i) => Some(i.ident.to_string()),
                            Pat::Type(t) => match &*t.pat {
                                Pat::Ident(i) => Some(i.ident.to_string()),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let Some(id) = id {
                            // `afterlet NAME` is the first one, `afterlet NAME#n` the n-th (from 0)
                            let n = (0..).find(|n| self.seen_lets.insert(format!("{}#{}", id, n))).unwrap();
                            let k = if n == 0 && self.ov.proofs.contains_key(&format!("afterlet {}", id)) { format!("afterlet {}", id) } else { format!("afterlet {}#{}", id, n) };
                            if self.ov.proofs.contains_key(&k) {
                                key = Some(k);
                            }
                        }
                    }
                    b.stmts.push(other);
                    if let Some(key) = key {
                        b.stmts.push(parse_quote!(vf_proof!(#key);));
                    }
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // 1. rewritings that restructure
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n.starts_with("vf_") {
                return;
            }
            if let Some(x) = self.macro_expr(&m.mac) {
                *e = x;
                if n != "vec" {
                    self.visit_expr_mut(e);
                }
            }
            return;
        }
        if let Some(x) = self.terminal(e) {
            *e = x;
            self.visit_expr_mut(e);
            return;
        }
        if let Some(x) = self.combinator(e) {
            *e = x;
            self.visit_expr_mut(e);
            return;
        }
        if matches!(e, Expr::MethodCall(_) | Expr::Call(_)) {
            if let Some(x) = self.inline_helper(e, false) {
                *e = x;
                self.depth += 1;
                self.visit_expr_mut(e);
                self.depth -= 1;
                return;
            }
        }
        match e {
            Expr::Unsafe(u) => {
                let b = &u.block;
                *e = parse_quote!(#b);
                if let Expr::Block(bb) = e {
                    if bb.block.stmts.len() == 1 {
                        if let Stmt::Expr(x, None) = &bb.block.stmts[0] {
                            let x = x.clone();
                            *e = x;
                        }
                    }
                }
                self.visit_expr_mut(e);
                return;
            }
            Expr::ForLoop(f) => {
                let k = self.loops;
                self.loops += 1;
                let x = format_ident!("vf_x{}", k);
                let pat = &f.pat;
                let mut inner: Vec<Stmt> = vec![parse_quote!(let #pat = #x;)];
                let skey = format!("loopstart {}", k);
                if self.ov.proofs.contains_key(&skey) {
                    inner.push(parse_quote!(vf_proof!(#skey);));
                }
                let body = f.body.stmts.clone();
                inner.extend(body);
                // `for (k, v) in &mut map`: the keys in some order, then the value of each
                let mapmut = match &*f.expr {
                    Expr::Reference(r) if r.mutability.is_some() => Some((*r.expr).clone()),
                    Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some(m.receiver.as_ref().clone()),
                    _ => None,
                };
                if let (Some(base), syn::Pat::Tuple(tp)) = (&mapmut, &**pat) {
                    if tp.elems.len() == 2 {
                        let (p0, p1) = (&tp.elems[0], &tp.elems[1]);
                        let ks = format_ident!("vf_k{}", k);
                        let mut inner: Vec<Stmt> = vec![];
                        if !matches!(p0, Pat::Wild(_)) {
                            inner.push(parse_quote!(let #p0 = #x;));
                        }
                        inner.push(parse_quote!(let #p1 = #base.vf_get_mut(#x);));
                        if self.ov.proofs.contains_key(&skey) {
                            inner.push(parse_quote!(vf_proof!(#skey);));
                        }
                        inner.extend(f.body.stmts.clone());
                        let (mut pre, w) = self.seq_loop(k, parse_quote!(#ks), vec![], "iter", None, inner);
                        pre.insert(0, parse_quote!(let #ks = #base.vf_keys();));
                        let after = self.after_loop(k);
                        *e = parse_quote!({ #(#pre)* #w #(#after)* });
                        visit_mut::visit_expr_mut(self, e);
                        return;
                    }
                }
                let (base, ads, kind) = match chain(&f.expr) {
                    Some(c) => c,
                    None => ((*f.expr).clone(), vec![], "iter".to_string()),
                };
                let (pre, w) = self.seq_loop(k, base, ads, &kind, None, inner);
                let after = self.after_loop(k);
                *e = parse_quote!({ #(#pre)* #w #(#after)* });
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::While(w) => {
                if !starts_with_mark(&w.body) {
                    let k = self.loops;
                    self.loops += 1;
                    self.mark(&mut w.body, k);
                    let key = format!("loopbefore {}", k);
                    let after = self.after_loop(k);
                    if self.ov.proofs.contains_key(&key) || !after.is_empty() {
                        let pre: Vec<Stmt> = if self.ov.proofs.contains_key(&key) {
                            vec![parse_quote!(vf_proof!(#key);)]
                        } else {
                            vec![]
                        };
                        let w2 = w.clone();
                        *e = parse_quote!({ #(#pre)* #w2 #(#after)* });
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Loop(l) => {
                if !starts_with_mark(&l.body) {
                    let k = self.loops;
                    self.loops += 1;
                    self.mark(&mut l.body, k);
                    let key = format!("loopbefore {}", k);
                    if self.ov.proofs.contains_key(&key) {
                        let l2 = l.clone();
                        *e = parse_quote!({ vf_proof!(#key); #l2 });
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                let mut body = as_block((*c.body).clone());
                self.visit_block_mut(&mut body);
                self.closure_params.insert(
                    k,
                    c.inputs
                        .iter()
                        .map(|p| match p {
                            Pat::Ident(i) => i.ident.to_string(),
                            Pat::Type(t) => t.pat.to_token_stream().to_string(),
                            _ => String::new(),
                        })
                        .collect(),
                );
                let key = format!("closurestart {}", k);
                if self.ov.proofs.contains_key(&key) {
                    body.stmts.insert(0, parse_quote!(vf_proof!(#key);));
                }
                if self.ov.closures.contains_key(&k) {
                    let f = format_ident!("__vf_closure_{}", k);
                    *e = parse_quote!(#f(#body));
                } else {
                    let ins = &c.inputs;
                    *e = parse_quote!(|#ins| #body);
                }
                return;
            }
            Expr::Return(r) => {
                let k = self.rets;
                self.rets += 1;
                let key = format!("return {}", k);
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                }
                if self.ov.proofs.contains_key(&key) {
                    if let Some(x) = &r.expr {
                        *e = parse_quote!({ let vf_res = #x; vf_proof!(#key); return vf_res; });
                    } else {
                        *e = parse_quote!({ vf_proof!(#key); return; });
                    }
                }
                return;
            }
            _ => {}
        }
        // 2. local rewritings
        let mut again = false;
        match e {
            Expr::Lit(l) if matches!(&l.lit, syn::Lit::ByteStr(_)) => {
                if let syn::Lit::ByteStr(b) = &l.lit {
                    let v = b.value();
                    *e = if v.is_empty() { parse_quote!(vf_nobytes()) } else { parse_quote!(&[#(#v),*]) };
                }
                return;
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "clone" if m.args.is_empty() => m.method = ident("vf_clone"),
                    // entry(k).or_insert_with(|| fresh value)
                    "or_insert_with" | "or_insert" | "or_default" => {
                        if let Expr::MethodCall(en) = &*m.receiver {
                            if en.method == "entry" && en.args.len() == 1 {
                                let (r, key) = (&en.receiver, &en.args[0]);
                                let val: Option<Expr> = match n.as_str() {
                                    "or_insert" => Some(m.args[0].clone()),
                                    "or_default" => Some(parse_quote!(Vec::new())),
                                    _ => match &m.args[0] {
                                        Expr::Closure(c) if c.inputs.is_empty() => Some((*c.body).clone()),
                                        Expr::Path(p) => Some(parse_quote!(#p())),
                                        _ => None,
                                    },
                                };
                                let fresh = val.as_ref().map_or(false, |v| {
                                    let t = v.to_token_stream().to_string().replace(' ', "");
                                    n == "or_insert" || t == "Vec::new()" || t == "vec![]" || t == "{Vec::new()}"
                                });
                                if let (Some(v), true) = (val, fresh) {
                                    *e = parse_quote!(#r.vf_entry(#key, #v));
                                    self.visit_expr_mut(e);
                                    return;
                                }
                            }
                        }
                    }
                    "expect" | "unwrap" if self.ov.opts.contains_key("trust_unwrap") => {
                        m.method = ident("vf_expect");
                        m.args = Default::default();
                    }
                    "to_string" | "as_bytes" | "bytes" | "to_owned" | "to_vec" if m.args.is_empty() => {
                        m.method = format_ident!("vf_{}", n)
                    }
                    "starts_with" if m.args.len() == 1 => {
                        let (r, a) = (&m.receiver, &m.args[0]);
                        *e = parse_quote!(vf_starts_with(&#r, #a));
                        again = true;
                    }
                    "max" | "min" if m.args.len() == 1 => {
                        let f = format_ident!("vf_{}", n);
                        let (r, a) = (&m.receiver, &m.args[0]);
                        *e = parse_quote!(#f(#r, #a));
                        again = true;
                    }
                    "collect" if m.args.is_empty() => {
                        if let Expr::MethodCall(r) = &*m.receiver {
                            if r.method == "bytes" {
                                let s = &r.receiver;
                                *e = parse_quote!(vf_bytes_vec(#s));
                                again = true;
                            }
                        }
                    }
                    "extend" if m.args.len() == 1 => {
                        let (r, a) = (m.receiver.clone(), m.args[0].clone());
                        if let Some((base, ads, kind)) = chain(&a) {
                            let k = self.loops;
                            self.loops += 1;
                            let x = format_ident!("vf_x{}", k);
                            let inner: Vec<Stmt> = vec![parse_quote!(vf_extend_one(#r, #x);)];
                            let (pre, w) = self.seq_loop(k, base, ads, &kind, None, inner);
                            let after = self.after_loop(k);
                            *e = parse_quote!({ #(#pre)* #w #(#after)* });
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                        *e = parse_quote!(vf_extend(&mut #r, #a));
                        again = true;
                    }
                    "binary_search_by_key" if m.args.len() == 2 => {
                        let (r, mut a, mut c) = (m.receiver.clone(), m.args[0].clone(), m.args[1].clone());
                        // a key taken by reference (`&&k`, `|(b, _)| b`) compares like the key itself
                        let inner = match &a {
                            Expr::Reference(x) => match &*x.expr {
                                Expr::Reference(_) => Some((*x.expr).clone()),
                                _ => None,
                            },
                            _ => None,
                        };
                        if let (Some(i), Expr::Closure(cl)) = (inner, &mut c) {
                            if matches!(&*cl.body, Expr::Path(_)) {
                                let b = &cl.body;
                                cl.body = Box::new(parse_quote!((*#b)));
                                a = i;
                            }
                        }
                        if let Some(g) = self.bs_ghost(&c) {
                            *e = parse_quote!(vf_bsearch(&#r, #a, #g));
                            again = true;
                        }
                    }
                    "binary_search" if m.args.len() == 1 => {
                        let (r, a) = (m.receiver.clone(), m.args[0].clone());
                        *e = parse_quote!(vf_bsearch_plain(&#r, #a));
                        again = true;
                    }
                    "sort_by_key" if m.args.len() == 1 => {
                        let (r, c) = (m.receiver.clone(), m.args[0].clone());
                        if let Some(g) = self.bs_ghost(&c) {
                            *e = match self.opt(&format!("bsk.{}", self.bs - 1)).and_then(|k| k.parse::<proc_macro2::TokenStream>().ok()) {
                                                    Some(k) => parse_quote!(vf_sort_by_key::<_, #k>(&mut #r, #g)),
                                                    None => parse_quote!(vf_sort_by_key(&mut #r, #g)),
                                                };
                            again = true;
                        }
                    }
                    "sort_by" if m.args.len() == 1 => {
                        let (r, c) = (m.receiver.clone(), m.args[0].clone());
                        if let Some((p, b)) = closure1(&c) {
                            // |x, y| x.K.cmp(&y.K)
                            if p.len() == 2 {
                                if let Expr::MethodCall(cm) = &b {
                                    if cm.method == "cmp" && cm.args.len() == 1 {
                                        let lhs = &cm.receiver;
                                        let p0 = &p[0];
                                        let p1 = p[1].to_token_stream().to_string();
                                        let rhs = squeeze(&cm.args[0].to_token_stream().to_string());
                                        let l2 = squeeze(&lhs.to_token_stream().to_string());
                                        let p0s = p0.to_token_stream().to_string();
                                        let want = format!("&{}{}", p1, &l2[p0s.len().min(l2.len())..]);
                                        if l2.starts_with(&p0s) && rhs == want {
                                            let g = self.bs_ghost(&parse_quote!(|#p0| #lhs));
                                            if let Some(g) = g {
                                                *e = match self.opt(&format!("bsk.{}", self.bs - 1)).and_then(|k| k.parse::<proc_macro2::TokenStream>().ok()) {
                                                    Some(k) => parse_quote!(vf_sort_by_key::<_, #k>(&mut #r, #g)),
                                                    None => parse_quote!(vf_sort_by_key(&mut #r, #g)),
                                                };
                                                again = true;
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if last == "from_utf8_unchecked" && c.args.len() == 1 {
                        let a = &c.args[0];
                        // outside functions that only take its length, the bytes have to be text
                        *e = if self.opt("str.len").is_some() { parse_quote!(vf_str(#a)) } else { parse_quote!(vf_utf8(#a)) };
                        again = true;
                    } else if last == "from_utf8_lossy" && c.args.len() == 1 {
                        let a = &c.args[0];
                        *e = parse_quote!(vf_lossy(#a));
                        again = true;
                    } else if (last == "max" || last == "min") && c.args.len() == 2 {
                        let f = format_ident!("vf_{}", last);
                        let (a, b) = (&c.args[0], &c.args[1]);
                        *e = parse_quote!(#f(#a, #b));
                        again = true;
                    }
                }
            }
            Expr::Index(i) => {
                if !matches!(&*i.index, Expr::Range(_)) {
                    if let Expr::Path(p) = &*i.expr {
                        if let Some(id) = p.path.get_ident() {
                            if self.streams.contains(&id.to_string()) {
                                let (b, x) = (&i.expr, &i.index);
                                *e = parse_quote!((*#b.vf_index(#x)));
                                again = true;
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        if again {
            self.visit_expr_mut(e);
            return;
        }
        // ghost arguments at call sites
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            for (callee, g) in &self.ov.ghostcalls {
                if callee == &n {
                    if let Ok(t) = g.parse::<proc_macro2::TokenStream>() {
                        let already = m
                            .args
                            .last()
                            .map_or(false, |l| l.to_token_stream().to_string().starts_with("vf_ghost !"));
                        if !already {
                            m.args.push(parse_quote!(vf_ghost!(#t)));
                        }
                    }
                }
            }
        } else if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                for (callee, g) in &self.ov.ghostcalls {
                    if callee == &n {
                        if let Ok(t) = g.parse::<proc_macro2::TokenStream>() {
                            let already = c
                                .args
                                .last()
                                .map_or(false, |l| l.to_token_stream().to_string().starts_with("vf_ghost !"));
                            if !already {
                                c.args.push(parse_quote!(vf_ghost!(#t)));
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Tr<'a> {
    fn mark(&self, b: &mut Block, k: usize) {
        let skey = format!("loopstart {}", k);
        let ekey = format!("loopend {}", k);
        let tkey = format!("looptop {}", k);
        if self.ov.proofs.contains_key(&skey) {
            b.stmts.insert(0, parse_quote!(vf_proof!(#skey);));
        }
        if self.ov.proofs.contains_key(&tkey) {
            b.stmts.insert(0, parse_quote!(vf_proof!(#tkey);));
        }
        if self.ov.proofs.contains_key(&ekey) {
            if let Some(Stmt::Expr(_, semi)) = b.stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            b.stmts.push(parse_quote!(vf_proof!(#ekey);));
        }
        b.stmts.insert(0, parse_quote!(vf_loop_mark!(#k);));
    }

    /// top-level: the tail expression may be inlined even when it returns early
    pub fn inline_tail(&mut self, b: &mut Block) {
        for _ in 0..3 {
            let Some(Stmt::Expr(e, None)) = b.stmts.last() else { return };
            let e = e.clone();
            let Some(Expr::Block(x)) = self.inline_helper(&e, true) else { return };
            b.stmts.pop();
            b.stmts.extend(x.block.stmts);
        }
    }
}

pub fn tokens(t: &impl ToTokens) -> String {
    quote!(#t).to_string()
}

/// `@proof armstart PAT[#n]` / `@proof armend PAT[#n]`: proof text at the start / end of a match arm.
pub struct ArmProof<'a> {
    pub ov: &'a FnOv,
    pub seen: std::collections::HashMap<String, usize>,
}
impl<'a> VisitMut for ArmProof<'a> {
    fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
        let t = squeeze(&a.pat.to_token_stream().to_string());
        let n = {
            let c = self.seen.entry(t.clone()).or_insert(0);
            *c += 1;
            *c - 1
        };
        visit_mut::visit_arm_mut(self, a);
        let find = |w: &str| -> Option<String> {
            for k in self.ov.proofs.keys() {
                if let Some(p) = k.strip_prefix(w) {
                    let p = squeeze(p);
                    if p == t || p == format!("{}#{}", t, n) {
                        return Some(k.clone());
                    }
                }
            }
            None
        };
        if let Some(k) = find("armend ") {
            let b = &a.body;
            a.body = Box::new(parse_quote!({ let vf_res = #b; vf_proof!(#k); vf_res }));
        }
        if let Some(k) = find("armstart ") {
            let b = &a.body;
            a.body = Box::new(parse_quote!({ vf_proof!(#k); #b }));
        }
    }
}
