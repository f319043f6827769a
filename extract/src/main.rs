//! vf-extract: regenerates the verified program from /repo's current source and the contract overlays.
//!
//!   vf-extract --repo DIR --contracts DIR --out DIR [--record] [--trust KEY]... [--mods a,b]
mod overlay;
mod source;
mod transform;

use overlay::{Entry, FnOv};
use quote::ToTokens;
use serde_json::{json, Value};
use source::{cfg_keep, squeeze, FnItem, Source};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::{Path, PathBuf};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::{parse_quote, Stmt};
use transform::*;

/// adds an unprovable postcondition to every function: each function must then fail
static VACUITY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

struct Out {
    text: String,
    line: usize,
}
impl Out {
    fn push(&mut self, s: &str) {
        self.text.push_str(s);
        self.line += s.matches('\n').count();
    }
    fn ln(&mut self, s: &str) {
        self.push(s);
        self.push("\n");
    }
}

fn ident_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

fn rename_words(text: &str, map: &HashMap<String, String>) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let cs: Vec<char> = text.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if ident_char(cs[i]) && !cs[i].is_ascii_digit() {
            let s = i;
            while i < cs.len() && ident_char(cs[i]) {
                i += 1;
            }
            let w: String = cs[s..i].iter().collect();
            let mut prev_dot = false;
            let mut p = s;
            while p > 0 && cs[p - 1].is_whitespace() {
                p -= 1;
            }
            if p > 0 && cs[p - 1] == '.' && !(p > 1 && cs[p - 2] == '.') {
                prev_dot = true;
            }
            match map.get(&w) {
                Some(n) if !prev_dot => out.push_str(n),
                _ => out.push_str(&w),
            }
        } else {
            out.push(cs[i]);
            i += 1;
        }
    }
    out
}

/// Pairs old and new binder names: an LCS alignment; gaps of the same length are paired in order.
fn align(old: &[String], new: &[String]) -> HashMap<String, String> {
    let (n, m) = (old.len(), new.len());
    let mut l = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            l[i][j] = if old[i] == new[j] { l[i + 1][j + 1] + 1 } else { l[i + 1][j].max(l[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let mut map = HashMap::new();
    let (mut gi, mut gj) = (vec![], vec![]);
    let flush = |gi: &mut Vec<String>, gj: &mut Vec<String>, map: &mut HashMap<String, String>| {
        if gi.len() == gj.len() {
            for (a, b) in gi.iter().zip(gj.iter()) {
                map.entry(a.clone()).or_insert(b.clone());
            }
        }
        gi.clear();
        gj.clear();
    };
    while i < n && j < m {
        if old[i] == new[j] {
            flush(&mut gi, &mut gj, &mut map);
            i += 1;
            j += 1;
        } else if l[i + 1][j] >= l[i][j + 1] {
            gi.push(old[i].clone());
            i += 1;
        } else {
            gj.push(new[j].clone());
            j += 1;
        }
    }
    gi.extend(old[i..].iter().cloned());
    gj.extend(new[j..].iter().cloned());
    flush(&mut gi, &mut gj, &mut map);
    map.retain(|k, v| k != v && !new.contains(k));
    map
}

fn match_paren(cs: &[char], open: usize) -> usize {
    let (o, c) = match cs[open] {
        '(' => ('(', ')'),
        '{' => ('{', '}'),
        '[' => ('[', ']'),
        _ => panic!(),
    };
    let mut d = 0;
    let mut i = open;
    let mut in_str = false;
    while i < cs.len() {
        let ch = cs[i];
        if in_str {
            if ch == '\\' {
                i += 1;
            } else if ch == '"' {
                in_str = false;
            }
        } else if ch == '"' {
            in_str = true;
        } else if ch == o {
            d += 1;
        } else if ch == c {
            d -= 1;
            if d == 0 {
                return i;
            }
        }
        i += 1;
    }
    cs.len() - 1
}

/// replaces `NAME ! ( ... )` with f(inner)
fn repl_macro(text: &str, name: &str, f: &mut dyn FnMut(&str) -> String) -> String {
    let pat = format!("{} ! (", name);
    let mut out = String::new();
    let mut rest = text.to_string();
    loop {
        match rest.find(&pat) {
            None => {
                out.push_str(&rest);
                return out;
            }
            Some(p) => {
                let cs: Vec<char> = rest[p + pat.len() - 1..].chars().collect();
                let e = match_paren(&cs, 0);
                let inner: String = cs[1..e].iter().collect();
                out.push_str(&rest[..p]);
                let r = f(&inner);
                out.push_str(&r);
                let tail: String = cs[e + 1..].iter().collect();
                rest = tail;
            }
        }
    }
}

fn layout(text: &str) -> String {
    // line breaks so that diagnostics can be located; never inside string literals
    let mut out = String::new();
    let mut in_str = false;
    let mut esc = false;
    let cs: Vec<char> = text.chars().collect();
    for (k, &c) in cs.iter().enumerate() {
        out.push(c);
        if in_str {
            if esc {
                esc = false;
            } else if c == '\\' {
                esc = true;
            } else if c == '"' {
                in_str = false;
            }
            continue;
        }
        if c == '"' {
            // not a char literal '"'
            if !(k > 0 && cs[k - 1] == '\'') {
                in_str = true;
            }
        }
        if c == ';' || c == '{' {
            out.push('\n');
        }
    }
    out
}

struct Gen<'a> {
    src: &'a Source,
    known: HashSet<String>,
    known_names: HashSet<String>,
    skeleton: BTreeMap<String, Value>,
    new_skeleton: BTreeMap<String, Value>,
    trust: HashSet<String>,
    map: Vec<Value>,
    lost: Vec<Value>,
    fields_seen: BTreeMap<String, Vec<String>>,
}

fn sig_inputs(sig: &syn::Signature) -> (Option<String>, Vec<(syn::Pat, syn::Type)>) {
    let mut recv = None;
    let mut v = vec![];
    for i in &sig.inputs {
        match i {
            syn::FnArg::Receiver(r) => recv = Some(r.to_token_stream().to_string()),
            syn::FnArg::Typed(t) => v.push(((*t.pat).clone(), (*t.ty).clone())),
        }
    }
    (recv, v)
}

impl<'a> Gen<'a> {
    #[rustfmt::skip]
    fn emit_item(&mut self, out: &mut Out, kind: &str, name: &str, derive: &[String], attrs: &[String]) -> Result<(), String> {
        transform::STR_BYTES.store(false, std::sync::atomic::Ordering::Relaxed);
        let check = |have: &[syn::Attribute]| -> Result<(), String> {
            let mut all = String::new();
            for a in have {
                if a.path().is_ident("derive") {
                    all.push_str(&a.to_token_stream().to_string());
                    all.push(' ');
                }
            }
            let words: HashSet<String> = all.split(|c: char| !ident_char(c)).map(|s| s.to_string()).collect();
            for d in derive {
                if !words.contains(d) {
                    return Err(format!("{} {} no longer derives {}", kind, name, d));
                }
            }
            Ok(())
        };
        let mut head = String::new();
        if !derive.is_empty() {
            head.push_str(&format!("#[derive({})]\n", derive.join(", ")));
        }
        transform::STR_BYTES.store(attrs.iter().any(|a| a == "str=bytes"), std::sync::atomic::Ordering::Relaxed);
        for a in attrs {
            if a == "str=bytes" {
                continue;
            }
            if a == "rr" {
                let gens = match kind {
                    "struct" => self.src.structs.get(name).map(|s| s.1.generics.clone()),
                    _ => self.src.enums.get(name).map(|s| s.1.generics.clone()),
                };
                for p in gens.unwrap_or_default().type_params() {
                    head.push_str(&format!("#[verifier::reject_recursive_types({})]\n", p.ident));
                }
            } else {
                head.push_str(&format!("#[{}]\n", a));
            }
        }
        if kind == "type" {
            let (file, s) = self.src.types.get(name).ok_or(format!("type {} not found", name))?;
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            TyRw.visit_type_mut(&mut s.ty);
            out.ln(&format!("// from {}", file));
            out.ln(&format!("{}{}", head, layout(&tokens(&s))));
        } else if kind == "struct" {
            let (file, s) = self.src.structs.get(name).ok_or(format!("struct {} not found", name))?;
            check(&s.attrs)?;
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for p in s.generics.params.iter_mut() {
                if let syn::GenericParam::Type(t) = p {
                    t.default = None;
                    t.eq_token = None;
                }
            }
            let names: Vec<String>;
            match &mut s.fields {
                syn::Fields::Named(n) => {
                    let f = std::mem::take(&mut n.named);
                    n.named = f.into_iter().filter(|f| cfg_keep(&f.attrs)).collect();
                    for f in n.named.iter_mut() {
                        f.attrs.clear();
                        f.vis = parse_quote!(pub);
                        TyRw.visit_type_mut(&mut f.ty);
                    }
                    names = n.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect();
                }
                syn::Fields::Unnamed(n) => {
                    for f in n.unnamed.iter_mut() {
                        f.attrs.clear();
                        f.vis = parse_quote!(pub);
                        TyRw.visit_type_mut(&mut f.ty);
                    }
                    names = (0..n.unnamed.len()).map(|k| k.to_string()).collect();
                }
                _ => names = vec![],
            }
            self.fields_seen.insert(name.to_string(), names);
            out.ln(&format!("// from {}", file));
            out.ln(&format!("{}{}", head, layout(&tokens(&s))));
        } else {
            let (file, s) = self.src.enums.get(name).ok_or(format!("enum {} not found", name))?;
            check(&s.attrs)?;
            let mut s = s.clone();
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for p in s.generics.params.iter_mut() {
                if let syn::GenericParam::Type(t) = p {
                    t.default = None;
                    t.eq_token = None;
                }
            }
            let vs = std::mem::take(&mut s.variants);
            for mut v in vs {
                if cfg_keep(&v.attrs) {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                        TyRw.visit_type_mut(&mut f.ty);
                    }
                    s.variants.push(v);
                }
            }
            out.ln(&format!("// from {}", file));
            out.ln(&format!("{}{}", head, layout(&tokens(&s))));
        }
        Ok(())
    }

    fn emit_fn(&mut self, out: &mut Out, ov: &FnOv, open: &str, module: &str) -> Result<(), String> {
        let cands = self.src.fns.get(&ov.key).ok_or(format!("function {} not found", ov.key))?;
        let cands: Vec<&FnItem> = match ov.opts.get("file") {
            Some(f) => cands.iter().filter(|c| c.file.ends_with(f.as_str())).collect(),
            None => cands.iter().collect(),
        };
        if cands.len() != 1 {
            return Err(format!("function {} is ambiguous ({} candidates)", ov.key, cands.len()));
        }
        let f: FnItem = cands[0].clone();
        transform::STR_BYTES.store(ov.opts.get("str").map_or(false, |v| v == "bytes"), std::sync::atomic::Ordering::Relaxed);
        let trusted = ov.trusted.is_some() || self.trust.contains(&ov.key);
        let mut block = f.block.clone().ok_or(format!("{} has no body", ov.key))?;
        CfgDrop.visit_block_mut(&mut block);

        // skeleton
        let mut b = Binders::default();
        for i in &f.sig.inputs {
            if let syn::FnArg::Typed(t) = i {
                b.visit_pat(&t.pat);
            }
        }
        b.visit_block(&block);
        let shape = Shape::of(&block);
        let sigs = squeeze(&f.sig.to_token_stream().to_string());
        let (nparams, sigtypes) = {
            let (r, v) = sig_inputs(&f.sig);
            (
                v.len(),
                format!(
                    "{}|{}|{}",
                    r.unwrap_or_default(),
                    v.iter().map(|x| squeeze(&x.1.to_token_stream().to_string())).collect::<Vec<_>>().join(","),
                    squeeze(&f.sig.output.to_token_stream().to_string())
                ),
            )
        };
        let _ = nparams;
        let sk = json!({"binders": b.0, "shape": shape, "sig": sigs, "types": sigtypes});
        self.new_skeleton.insert(ov.key.clone(), sk.clone());
        let mut same = true;
        let mut ren: HashMap<String, String> = HashMap::new();
        let mut sig_same = true;
        if let Some(o) = self.skeleton.get(&ov.key) {
            let old: Vec<String> = o["binders"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
            if old != b.0 {
                ren = align(&old, &b.0);
            }
            sig_same = o["types"] == sk["types"];
            same = o["shape"] == sk["shape"] && sig_same && old.len() == b.0.len();
        } else if !self.skeleton.is_empty() {
            same = false;
        }
        let mut ov = ov.clone();
        if !ren.is_empty() {
            let r = |s: &String| rename_words(s, &ren);
            ov.requires = ov.requires.iter().map(r).collect();
            ov.ensures = ov.ensures.iter().map(|(l, s)| (l.clone(), r(s))).collect();
            ov.decreases = ov.decreases.as_ref().map(r);
            for v in ov.loops.values_mut() {
                *v = r(v);
            }
            for v in ov.closures.values_mut() {
                *v = r(v);
            }
            for v in ov.proofs.values_mut() {
                *v = r(v);
            }
            ov.proofs = ov.proofs.iter().map(|(k, v)| (if k.starts_with("afterlet ") || k.starts_with("arm") { rename_words(k, &ren) } else { k.clone() }, v.clone())).collect();
            for v in ov.ghostcalls.iter_mut() {
                v.1 = r(&v.1);
            }
        }
        if ov.sig.is_some() && !sig_same {
            return Err(format!("signature of {} changed", ov.key));
        }

        // body
        let self_ty = {
            let k = ov.key.rsplit("::").nth(1).unwrap_or("").to_string();
            let k = k.rsplit('@').next().unwrap_or("").to_string();
            if k.is_empty() { None } else { Some(k) }
        };
        let mut streams = HashSet::new();
        for (p, t) in sig_inputs(&f.sig).1 {
            if squeeze(&t.to_token_stream().to_string()).contains("TokenStream<") {
                streams.insert(p.to_token_stream().to_string());
            }
        }
        if self_ty.as_deref() == Some("TokenStream") {
            streams.insert("self".to_string());
        }
        let mut inlined = vec![];
        let mut notes: BTreeSet<String> = BTreeSet::new();
        let mut body_text = String::new();
        let (mut nloops, mut nclosures) = (0, 0);
        let mut closure_params: HashMap<usize, Vec<String>> = Default::default();
        // a returned iterator is taken as the sequence of its items
        let iter_item = iterator_item(&f.sig.output);
        if iter_item.is_some() {
            if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
                let b = e.clone();
                *e = parse_quote!(#b.collect());
            }
        }
        if !trusted {
            fix_tail_block(&mut block);
            let known = self.known.clone();
            let known_names = self.known_names.clone();
            let mut tr = Tr {
                src: self.src,
                known: &known,
                known_names: &known_names,
                ov: &ov,
                self_ty: self_ty.clone(),
                streams,
                loops: 0,
                closures: 0,
                closure_params: Default::default(),
                bs: 0,
                panics: 0,
                rets: 0,
                notes: BTreeSet::new(),
                inlined: vec![],
                depth: 0,
                seen_lets: HashSet::new(),
            };
            tr.inline_tail(&mut block);
            fix_tail_block(&mut block);
            tr.visit_block_mut(&mut block);
            ArmProof { ov: &ov, seen: HashMap::new() }.visit_block_mut(&mut block);
            if ov.proofs.contains_key("end") {
                match block.stmts.pop() {
                    Some(Stmt::Expr(e, None)) if !matches!(f.sig.output, syn::ReturnType::Default) => {
                        block.stmts.push(parse_quote!(let vf_res = #e;));
                        block.stmts.push(parse_quote!(vf_proof!("end");));
                        block.stmts.push(Stmt::Expr(parse_quote!(vf_res), None));
                    }
                    Some(Stmt::Expr(e, None)) => {
                        block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                        block.stmts.push(parse_quote!(vf_proof!("end");));
                    }
                    Some(s) => {
                        block.stmts.push(s);
                        block.stmts.push(parse_quote!(vf_proof!("end");));
                    }
                    None => block.stmts.push(parse_quote!(vf_proof!("end");)),
                }
            }
            if ov.proofs.contains_key("start") {
                block.stmts.insert(0, parse_quote!(vf_proof!("start");));
            }
            nloops = tr.loops;
            nclosures = tr.closures;
            closure_params = tr.closure_params.clone();
            inlined = tr.inlined.clone();
            notes = tr.notes.clone();
            if iter_item.is_some() {
                notes.insert("a returned iterator is taken as the sequence of its items".into());
            }
            body_text = tokens(&block);
            // loops
            for k in 0..nloops {
                let pat = format!("{{ vf_loop_mark ! ({}usize) ;", k);
                let inv = ov.loops.get(&k).cloned().unwrap_or_default();
                body_text = body_text.replace(&pat, &format!("\n{} {{", inv));
            }
            // closures
            for k in 0..nclosures {
                let pat = format!("__vf_closure_{} (", k);
                while let Some(p) = body_text.find(&pat) {
                    let cs: Vec<char> = body_text[p + pat.len() - 1..].chars().collect();
                    let e = match_paren(&cs, 0);
                    let inner: String = cs[1..e].iter().collect();
                    let tail: String = cs[e + 1..].iter().collect();
                    let head = name_closure_params(&ov.closures.get(&k).cloned().unwrap_or_default(), closure_params.get(&k));
                    body_text = format!("{}{} {}{}", &body_text[..p], head, inner, tail);
                }
            }
            let proofs = ov.proofs.clone();
            body_text = repl_macro(&body_text, "vf_proof", &mut |k| {
                let key = k.trim().trim_matches('"');
                let t = proofs.get(key).cloned().unwrap_or_default();
                let (mut g, mut p) = (String::new(), String::new());
                for l in t.lines() {
                    if l.trim_start().starts_with("let ghost ") {
                        g.push_str(l);
                        g.push('\n');
                    } else if !l.trim().is_empty() && !l.trim_start().starts_with("//") {
                        p.push_str(l);
                        p.push('\n');
                    }
                }
                if p.is_empty() {
                    format!("{}/*vf_end*/", g)
                } else {
                    format!("{}proof {{\n{}}}/*vf_end*/", g, p)
                }
            });
            body_text = body_text.replace("/*vf_end*/ ;", "\n").replace("/*vf_end*/", "\n");
            body_text = repl_macro(&body_text, "vf_spec_closure", &mut |k| {
                let cs: Vec<char> = k.trim().chars().collect();
                let e = match_paren(&cs, 0);
                let ty: String = cs[1..e].iter().collect();
                let b: String = cs[e + 1..].iter().collect();
                format!("|vf_k: &{}| {}", ty, b)
            });
            body_text = repl_macro(&body_text, "vf_ghost", &mut |k| match k.trim().strip_prefix("=") { Some(r) => r.trim().to_string(), None => format!("Ghost({})", k) });
            for (a, b) in &ov.rewrites {
                match replace_nows(&body_text, a, b) {
                    Some(t) => body_text = t,
                    None => return Err(format!("{}: text to rewrite not found: {}", ov.key, a)),
                }
                notes.insert(format!("rewrite {} ==> {}", a, b));
            }
            body_text = layout(&body_text);
        }

        // signature
        let is_trait = open.contains(" for ") || open.trim_start().starts_with("pub trait");
        let start_line = out.line + 1;
        for a in &ov.attrs {
            out.ln(&format!("#[{}]", a));
        }
        if trusted {
            out.ln("#[verifier::external_body]");
        }
        let name = ov.rename.clone().unwrap_or(f.sig.ident.to_string());
        if let Some(s) = &ov.sig {
            out.ln(s);
        } else {
            let mut sig = f.sig.clone();
            struct ImplRw;
            let _ = ImplRw;
            let mut pk = 0;
            for i in sig.inputs.iter_mut() {
                if let syn::FnArg::Typed(t) = i {
                    pk += 1;
                    // unnamed parameters get a name so that contracts can speak about them
                    if let syn::Pat::Wild(_) = &*t.pat {
                        let id = syn::Ident::new(&format!("vf_p{}", pk), proc_macro2::Span::call_site());
                        *t.pat = syn::parse_quote!(#id);
                    }
                    TyRw.visit_type_mut(&mut t.ty);
                }
            }
            let mut parts: Vec<String> = sig
                .inputs
                .iter()
                .map(|i| i.to_token_stream().to_string())
                .collect();
            for g in &ov.ghosts {
                parts.push(g.clone());
            }
            let mut gens: Vec<String> = sig.generics.params.iter().map(|p| {
                let mut p = p.clone();
                TyRw.visit_generic_param_mut(&mut p);
                if let syn::GenericParam::Type(t) = &mut p {
                    let keep: Vec<syn::TypeParamBound> = t.bounds.iter().filter(|b| b.to_token_stream().to_string() != "Debug").cloned().collect();
                    t.bounds = keep.into_iter().collect();
                }
                p.to_token_stream().to_string()
            }).collect();
            let mut lts: Vec<String> = vec![];
            gens.retain(|g| {
                if g.starts_with('\'') { lts.push(g.clone()); false } else { true }
            });
            lts.extend(gens);
            let g = if lts.is_empty() { String::new() } else { format!("<{}>", lts.join(", ")) };
            let ret = match &sig.output {
                syn::ReturnType::Default => String::new(),
                syn::ReturnType::Type(_, t) => {
                    let mut t = (**t).clone();
                    if let Some(x) = &iter_item {
                        t = parse_quote!(Vec<#x>);
                    }
                    TyRw.visit_type_mut(&mut t);
                    format!(" -> ({}: {})", ov.ret.clone().unwrap_or("r".into()), t.to_token_stream())
                }
            };
            let vis = if is_trait { "" } else { "pub " };
            out.ln(&format!("{}fn {}{}({}){}", vis, name, g, parts.join(", "), ret));
            let mut wh: Vec<String> = ov.wheres.clone();
            if let Some(w) = &sig.generics.where_clause {
                for p in &w.predicates {
                    let mut p = p.clone();
                    TyRw.visit_where_predicate_mut(&mut p);
                    if let syn::WherePredicate::Type(t) = &mut p {
                        // ghost argument of a closure parameter
                        let who = t.bounded_ty.to_token_stream().to_string();
                        if let Some(extra) = ov.opts.get(&format!("fnarg.{}", who)) {
                            let ty: syn::Type = syn::parse_str(extra).map_err(|e| format!("{}: fnarg: {}", ov.key, e))?;
                            for b in t.bounds.iter_mut() {
                                if let syn::TypeParamBound::Trait(tb) = b {
                                    if let Some(seg) = tb.path.segments.last_mut() {
                                        if let syn::PathArguments::Parenthesized(a) = &mut seg.arguments {
                                            a.inputs.push(ty.clone());
                                        }
                                    }
                                }
                            }
                        }
                    }
                    wh.push(p.to_token_stream().to_string());
                }
            }
            if !wh.is_empty() {
                out.ln(&format!("    where {}", wh.join(", ")));
            }
        }
        let mut labels: Vec<Value> = vec![];
        if !ov.requires.is_empty() {
            out.ln("    requires");
            for r in &ov.requires {
                out.ln(&format!("        {},", r));
            }
        }
        let vac = VACUITY.load(std::sync::atomic::Ordering::Relaxed) && !trusted && ov.sig.is_none();
        if vac {
            ov.ensures.insert(0, (None, format!("crate::vf_vac({})", self.map.len())));
        }
        if !ov.ensures.is_empty() {
            out.ln("    ensures");
            for (l, r) in &ov.ensures {
                let a = out.line + 1;
                out.ln(&format!("        {},", r));
                if let Some(l) = l {
                    labels.push(json!({"label": l, "from": a, "to": out.line}));
                }
            }
        }
        if let Some(d) = &ov.decreases {
            out.ln(&format!("    decreases {}", d));
        }
        let body_line = out.line + 1;
        if trusted {
            out.ln("{ unimplemented!() }");
        } else {
            out.ln(&body_text);
        }
        self.map.push(json!({
            "key": ov.key, "module": module, "name": name, "start": start_line, "end": out.line, "body": body_line,
            "file": f.file, "src_line": f.line, "props": ov.props, "labels": labels,
            "trusted": ov.trusted, "trusted_now": trusted, "same_skeleton": same,
            "renamed": ren.iter().map(|(a,b)| format!("{}->{}", a, b)).collect::<Vec<_>>(),
            "inlined": inlined, "notes": notes.iter().collect::<Vec<_>>(),
            "loops": nloops, "closures": nclosures, "vc": ov.vcfile,
            "vacuity": vac,
            "has_contract": !ov.ensures.is_empty() || !ov.requires.is_empty() || is_trait,
        }));
        Ok(())
    }
}

/// replaces every occurrence of `pat` in `text`, both compared without white space
fn replace_nows(text: &str, pat: &str, with: &str) -> Option<String> {
    let cs: Vec<char> = text.chars().collect();
    let idx: Vec<usize> = (0..cs.len()).filter(|&i| !cs[i].is_whitespace()).collect();
    let p: Vec<char> = pat.chars().filter(|c| !c.is_whitespace()).collect();
    if p.is_empty() {
        return None;
    }
    let mut out = String::new();
    let mut last = 0usize;
    let mut found = false;
    let mut k = 0;
    while k + p.len() <= idx.len() {
        if (0..p.len()).all(|j| cs[idx[k + j]] == p[j]) {
            out.extend(&cs[last..idx[k]]);
            out.push_str(with);
            last = idx[k + p.len() - 1] + 1;
            k += p.len();
            found = true;
        } else {
            k += 1;
        }
    }
    out.extend(&cs[last..]);
    if found { Some(out) } else { None }
}

/// Counts of control-flow constructs: distinguishes "same code, changed expressions" from "restructured".
#[derive(Default)]
struct Shape {
    loops: usize,
    closures: usize,
    calls: BTreeMap<String, usize>,
}
impl Shape {
    fn of(b: &syn::Block) -> Value {
        let mut s = Shape::default();
        s.visit_block(b);
        json!({"loops": s.loops, "closures": s.closures, "calls": s.calls})
    }
}
impl<'ast> Visit<'ast> for Shape {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) => self.loops += 1,
            syn::Expr::Closure(_) => self.closures += 1,
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

fn main() {
    let mut repo = PathBuf::from("/repo");
    let mut contracts = PathBuf::from("/verif/contracts");
    let mut outdir = PathBuf::from("/tmp/vf-gen");
    let mut record = false;
    let mut trust = HashSet::new();
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--repo" => repo = it.next().unwrap().into(),
            "--contracts" => contracts = it.next().unwrap().into(),
            "--out" => outdir = it.next().unwrap().into(),
            "--record" => record = true,
            "--vacuity" => VACUITY.store(true, std::sync::atomic::Ordering::Relaxed),
            "--trust" => {
                trust.insert(it.next().unwrap());
            }
            _ => {
                eprintln!("unknown argument {}", a);
                std::process::exit(2);
            }
        }
    }
    match run(&repo, &contracts, &outdir, record, trust) {
        Ok(lost) => {
            if lost > 0 {
                println!("lost {}", lost);
            }
        }
        Err(e) => {
            eprintln!("vf-extract: {}", e);
            std::process::exit(2);
        }
    }
}

fn run(repo: &Path, contracts: &Path, outdir: &Path, record: bool, trust: HashSet<String>) -> Result<usize, String> {
    let src = Source::load(&repo.join("src"))?;
    let mut files: Vec<PathBuf> = std::fs::read_dir(contracts)
        .map_err(|e| e.to_string())?
        .filter_map(|e| e.ok())
        .map(|e| e.path())
        .filter(|p| p.extension().map_or(false, |x| x == "vc"))
        .collect();
    files.sort();
    let mut entries: Vec<Entry> = vec![];
    for f in &files {
        let t = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
        let n = f.file_name().unwrap().to_string_lossy().to_string();
        entries.extend(overlay::parse(&n, &t)?);
    }
    let skp = contracts.join("skeleton.json");
    let skeleton: BTreeMap<String, Value> = if record {
        BTreeMap::new()
    } else {
        match std::fs::read_to_string(&skp) {
            Ok(t) => serde_json::from_str(&t).map_err(|e| e.to_string())?,
            Err(_) => BTreeMap::new(),
        }
    };
    let mut g = Gen {
        src: &src,
        known: HashSet::new(),
        known_names: HashSet::new(),
        skeleton,
        new_skeleton: BTreeMap::new(),
        trust,
        map: vec![],
        lost: vec![],
        fields_seen: BTreeMap::new(),
    };
    for e in &entries {
        if let Entry::Fn(f) = e {
            g.known.insert(f.key.clone());
            // methods are matched by bare name as well
            g.known_names.insert(f.key.rsplit("::").next().unwrap().to_string());
        }
    }
    let mut out = Out { text: String::new(), line: 0 };
    out.ln("// GENERATED by vf-extract from /repo's current source and /verif/contracts. Do not edit.");
    out.ln("#![allow(mismatched_lifetime_syntaxes, ambiguous_glob_reexports, unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments, unreachable_code, unused_must_use, unused_attributes)]");
    out.ln("use vstd::prelude::*;");
    let mut module = String::new();
    let mut open = String::new();
    let mut in_mod = false;
    let mut modules: Vec<Value> = vec![];
    for e in &entries {
        match e {
            Entry::Module(m) => {
                if in_mod {
                    out.ln(if module == "root" { "} // verus!" } else { "} // verus!\n}" });
                }
                in_mod = true;
                module = m.clone();
                modules.push(json!({"name": m, "line": out.line + 1}));
                if m == "root" {
                    out.ln("verus! {");
                } else {
                    out.ln(&format!("pub use {}::*;\npub mod {} {{\nuse super::*;\nverus! {{", m, m));
                }
            }
            Entry::Raw(t) => out.ln(t),
            Entry::Item { kind, name, derive, attrs } => {
                if let Err(x) = g.emit_item(&mut out, kind, name, derive, attrs) {
                    g.lost.push(json!({"key": name, "why": x, "module": module, "fatal": true}));
                }
            }
            Entry::Open(t) => {
                open = t.clone();
                out.ln(t);
            }
            Entry::Close => {
                open.clear();
                out.ln("}");
            }
            Entry::Fn(f) => {
                if f.nocontract {
                    continue;
                }
                if let Err(x) = g.emit_fn(&mut out, f, &open, &module) {
                    g.lost.push(json!({"key": f.key, "why": x, "module": module, "props": f.props}));
                }
            }
        }
    }
    if in_mod {
        out.ln(if module == "root" { "} // verus!" } else { "} // verus!\n}" });
    }
    out.ln("fn main() {}");
    std::fs::create_dir_all(outdir).map_err(|e| e.to_string())?;
    std::fs::write(outdir.join("gen.rs"), &out.text).map_err(|e| e.to_string())?;
    // functions of the crate that no contract covers
    let mut uncovered: Vec<String> = vec![];
    let inl: HashSet<String> = g.map.iter().flat_map(|m| m["inlined"].as_array().cloned().unwrap_or_default()).filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
    let mut covered: HashSet<(String, usize)> = HashSet::new();
    for (k, v) in &src.fns {
        if g.known.contains(k) || inl.contains(k) {
            covered.extend(v.iter().map(|f| (f.file.clone(), f.line)));
        }
    }
    for (_, v) in &src.fns {
        for f in v {
            if f.block.is_some() && covered.insert((f.file.clone(), f.line)) {
                uncovered.push(format!("{} ({}:{})", f.key, f.file, f.line));
            }
        }
    }
    let m = json!({"functions": g.map, "lost": g.lost, "uncovered": uncovered, "modules": modules, "structs": g.fields_seen});
    std::fs::write(outdir.join("map.json"), serde_json::to_string_pretty(&m).unwrap()).map_err(|e| e.to_string())?;
    if record {
        std::fs::write(&skp, serde_json::to_string_pretty(&g.new_skeleton).unwrap() + "\n").map_err(|e| e.to_string())?;
    }
    Ok(g.lost.len())
}

/// the parameters of a closure take the names they have in the source
fn name_closure_params(head: &str, names: Option<&Vec<String>>) -> String {
    let (Some(names), true) = (names, head.trim_start().starts_with('|')) else { return head.to_string() };
    let inner = head.trim_start()[1..].split('|').next().unwrap_or("");
    let (mut parts, mut depth, mut cur) = (vec![], 0i32, String::new());
    for c in inner.chars() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => {
                parts.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    parts.push(cur);
    let mut ren = HashMap::new();
    for (k, p) in parts.iter().enumerate() {
        let a = p.split(':').next().unwrap_or("").trim().to_string();
        if let Some(n) = names.get(k) {
            if !n.is_empty() && n.chars().all(|c| c.is_alphanumeric() || c == '_') && *n != a && n != "_" {
                ren.insert(a, n.clone());
            }
        }
    }
    if ren.is_empty() { head.to_string() } else { rename_words(head, &ren) }
}

/// the item type of a returned `impl Iterator<Item = T>`
fn iterator_item(r: &syn::ReturnType) -> Option<syn::Type> {
    if let syn::ReturnType::Type(_, t) = r {
        if let syn::Type::ImplTrait(t) = &**t {
            for b in &t.bounds {
                if let syn::TypeParamBound::Trait(b) = b {
                    let seg = b.path.segments.last()?;
                    if !["Iterator", "DoubleEndedIterator", "ExactSizeIterator"].contains(&seg.ident.to_string().as_str()) {
                        continue;
                    }
                    if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                        for x in &a.args {
                            if let syn::GenericArgument::AssocType(x) = x {
                                if x.ident == "Item" {
                                    return Some(x.ty.clone());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    None
}
