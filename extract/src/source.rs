//! Index of the items of /repo's current source, by a key that does not depend on the file they live in.
use quote::ToTokens;
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone)]
pub struct FnItem {
    pub key: String,
    pub file: String,
    pub line: usize,
    pub vis: syn::Visibility,
    pub sig: syn::Signature,
    pub block: Option<syn::Block>,
    pub in_trait_impl: bool,
    pub impl_generics: syn::Generics,
}

#[derive(Default)]
pub struct Source {
    pub fns: BTreeMap<String, Vec<FnItem>>,
    pub structs: BTreeMap<String, (String, syn::ItemStruct)>,
    pub enums: BTreeMap<String, (String, syn::ItemEnum)>,
    pub types: BTreeMap<String, (String, syn::ItemType)>,
    pub files: Vec<String>,
}

/// None: keep. Some(false): drop.  Configuration: release build, no tests, no hooks.
pub fn cfg_keep(attrs: &[syn::Attribute]) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<syn::Meta>() {
                if !cfg_eval(&m) {
                    return false;
                }
            }
        }
    }
    true
}

pub fn cfg_eval(m: &syn::Meta) -> bool {
    match m {
        syn::Meta::Path(_) => false, // debug_assertions, test, vf_hooks
        syn::Meta::NameValue(_) => false,
        syn::Meta::List(l) => {
            let inner: Vec<syn::Meta> = l
                .parse_args_with(
                    syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated,
                )
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(cfg_eval)
            } else if l.path.is_ident("all") {
                inner.iter().all(cfg_eval)
            } else if l.path.is_ident("any") {
                inner.iter().any(cfg_eval)
            } else {
                false
            }
        }
    }
}

fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

pub fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl Source {
    pub fn load(root: &Path) -> Result<Source, String> {
        let mut s = Source::default();
        s.walk(root, root)?;
        Ok(s)
    }

    fn walk(&mut self, root: &Path, dir: &Path) -> Result<(), String> {
        let mut entries: Vec<_> = std::fs::read_dir(dir)
            .map_err(|e| format!("{}: {}", dir.display(), e))?
            .filter_map(|e| e.ok())
            .map(|e| e.path())
            .collect();
        entries.sort();
        for p in entries {
            let name = p.file_name().unwrap().to_string_lossy().to_string();
            if p.is_dir() {
                if ["doc", "examples", "tutorial", "__tests__", "tests"].contains(&name.as_str()) {
                    continue;
                }
                self.walk(root, &p)?;
            } else if name.ends_with(".rs") {
                let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
                let file = syn::parse_file(&text).map_err(|e| format!("{}: {}", p.display(), e))?;
                let rel = p.strip_prefix(root).unwrap().to_string_lossy().to_string();
                self.files.push(rel.clone());
                self.items(&rel, &file.items);
            }
        }
        Ok(())
    }

    fn push(&mut self, f: FnItem) {
        self.fns.entry(f.key.clone()).or_default().push(f);
    }

    fn items(&mut self, file: &str, items: &[syn::Item]) {
        for it in items {
            match it {
                syn::Item::Struct(s) if cfg_keep(&s.attrs) => {
                    self.structs
                        .insert(s.ident.to_string(), (file.to_string(), s.clone()));
                }
                syn::Item::Enum(s) if cfg_keep(&s.attrs) => {
                    self.enums
                        .insert(s.ident.to_string(), (file.to_string(), s.clone()));
                }
                syn::Item::Type(s) if cfg_keep(&s.attrs) => {
                    self.types
                        .insert(s.ident.to_string(), (file.to_string(), s.clone()));
                }
                syn::Item::Fn(f) if cfg_keep(&f.attrs) => self.push(FnItem {
                    key: f.sig.ident.to_string(),
                    file: file.to_string(),
                    line: f.sig.ident.span().start().line,
                    vis: f.vis.clone(),
                    sig: f.sig.clone(),
                    block: Some((*f.block).clone()),
                    in_trait_impl: false,
                    impl_generics: Default::default(),
                }),
                syn::Item::Mod(m) if cfg_keep(&m.attrs) => {
                    if let Some((_, items)) = &m.content {
                        self.items(file, items);
                    }
                }
                syn::Item::Trait(t) if cfg_keep(&t.attrs) => {
                    for i in &t.items {
                        if let syn::TraitItem::Fn(f) = i {
                            if !cfg_keep(&f.attrs) {
                                continue;
                            }
                            self.push(FnItem {
                                key: format!("{}::{}", t.ident, f.sig.ident),
                                file: file.to_string(),
                                line: f.sig.ident.span().start().line,
                                vis: syn::Visibility::Inherited,
                                sig: f.sig.clone(),
                                block: f.default.clone(),
                                in_trait_impl: true,
                                impl_generics: t.generics.clone(),
                            });
                        }
                    }
                }
                syn::Item::Impl(im) if cfg_keep(&im.attrs) => {
                    let me = type_name(&im.self_ty);
                    for i in &im.items {
                        if let syn::ImplItem::Fn(f) = i {
                            if !cfg_keep(&f.attrs) {
                                continue;
                            }
                            let keys: Vec<String> = match &im.trait_ {
                                None => {
                                    let full = squeeze(&im.self_ty.to_token_stream().to_string());
                                    let mut v = vec![format!("{}::{}", me, f.sig.ident)];
                                    if full != me {
                                        v.push(format!("{}::{}", full, f.sig.ident));
                                    }
                                    v
                                }
                                Some((_, path, _)) => {
                                    let last = path.segments.last().unwrap();
                                    let full = squeeze(&last.to_token_stream().to_string());
                                    let mut v =
                                        vec![format!("{}@{}::{}", last.ident, me, f.sig.ident)];
                                    if full != last.ident.to_string() {
                                        v.push(format!("{}@{}::{}", full, me, f.sig.ident));
                                    }
                                    v
                                }
                            };
                            for key in keys {
                                self.push(FnItem {
                                    key,
                                    file: file.to_string(),
                                    line: f.sig.ident.span().start().line,
                                    vis: f.vis.clone(),
                                    sig: f.sig.clone(),
                                    block: Some(f.block.clone()),
                                    in_trait_impl: im.trait_.is_some(),
                                    impl_generics: im.generics.clone(),
                                });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
}
