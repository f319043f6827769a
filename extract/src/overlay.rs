//! Contract overlay (.vc) parser.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnOv {
    pub key: String,
    pub vcfile: String,
    pub rename: Option<String>,
    pub ret: Option<String>,
    pub sig: Option<String>,
    pub attrs: Vec<String>,
    pub wheres: Vec<String>,
    pub ghosts: Vec<String>,
    pub ghostcalls: Vec<(String, String)>,
    pub requires: Vec<String>,
    pub ensures: Vec<(Option<String>, String)>,
    pub decreases: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    pub proofs: BTreeMap<String, String>,
    pub opts: BTreeMap<String, String>,
    pub props: Vec<String>,
    pub rewrites: Vec<(String, String)>,
    pub trusted: Option<String>,
    pub nocontract: bool,
}

#[derive(Clone, Debug)]
pub enum Entry {
    Module(String),
    Raw(String),
    Item { kind: String, name: String, derive: Vec<String>, attrs: Vec<String> },
    Open(String),
    Close,
    Fn(Box<FnOv>),
}

fn split_clauses(text: &str) -> Vec<(Option<String>, String)> {
    // clauses are separated by lines that start (after trim) with "[" label "]" or by a blank/`--` line;
    // commas inside a clause are kept; a clause ends at a line ending with ','
    let mut out = vec![];
    let mut cur = String::new();
    let mut label: Option<String> = None;
    for line in text.lines() {
        let t = line.trim();
        if t.is_empty() || t.starts_with("//") {
            continue;
        }
        let mut t2 = t.to_string();
        if cur.is_empty() && t.starts_with('[') {
            if let Some(e) = t.find(']') {
                label = Some(t[1..e].to_string());
                t2 = t[e + 1..].trim().to_string();
            }
        }
        if t2.ends_with(',') {
            t2.pop();
            cur.push_str(&t2);
            out.push((label.take(), cur.trim().to_string()));
            cur = String::new();
        } else {
            cur.push_str(&t2);
            cur.push('\n');
        }
    }
    if !cur.trim().is_empty() {
        out.push((label.take(), cur.trim().to_string()));
    }
    out
}

pub fn parse(name: &str, text: &str) -> Result<Vec<Entry>, String> {
    let mut out: Vec<Entry> = vec![];
    let mut props: Vec<String> = vec![];
    // gather directive blocks
    let mut blocks: Vec<(usize, String, String, String)> = vec![];
    for (ln, line) in text.lines().enumerate() {
        if line.starts_with('@') {
            let rest = &line[1..];
            let (d, a) = match rest.find(char::is_whitespace) {
                Some(i) => (rest[..i].to_string(), rest[i..].trim().to_string()),
                None => (rest.trim().to_string(), String::new()),
            };
            blocks.push((ln + 1, d, a, String::new()));
        } else if line.starts_with("##") {
            continue;
        } else if let Some(b) = blocks.last_mut() {
            b.3.push_str(line);
            b.3.push('\n');
        }
    }
    let mut cur: Option<FnOv> = None;
    macro_rules! flush {
        () => {
            if let Some(f) = cur.take() {
                out.push(Entry::Fn(Box::new(f)));
            }
        };
    }
    for (ln, d, a, body) in blocks {
        let err = |m: &str| format!("{}:{}: {}", name, ln, m);
        let both = if body.trim().is_empty() { a.clone() } else { format!("{}\n{}", a, body) };
        match d.as_str() {
            "module" => {
                flush!();
                out.push(Entry::Module(a.clone()));
                if !body.trim().is_empty() {
                    out.push(Entry::Raw(body));
                }
            }
            "raw" => {
                flush!();
                out.push(Entry::Raw(both));
            }
            "struct" | "enum" | "type" => {
                flush!();
                let mut parts = a.split_whitespace();
                let nm = parts.next().ok_or_else(|| err("name"))?.to_string();
                let mut derive = vec![];
                let mut attrs = vec![];
                for p in parts {
                    if let Some(x) = p.strip_prefix("derive=") {
                        derive = x.split(',').map(|s| s.to_string()).collect();
                    } else {
                        attrs.push(p.to_string());
                    }
                }
                out.push(Entry::Item { kind: d.clone(), name: nm, derive, attrs });
                if !body.trim().is_empty() {
                    out.push(Entry::Raw(body));
                }
            }
            "open" => {
                flush!();
                out.push(Entry::Open(a));
                if !body.trim().is_empty() {
                    out.push(Entry::Raw(body));
                }
            }
            "close" => {
                flush!();
                out.push(Entry::Close);
                if !body.trim().is_empty() {
                    out.push(Entry::Raw(body));
                }
            }
            "modprops" => {
                flush!();
                props = a.split_whitespace().map(|s| s.to_string()).collect();
                if !body.trim().is_empty() {
                    out.push(Entry::Raw(body));
                }
            }
            "fn" => {
                flush!();
                cur = Some(FnOv {
                    key: a.clone(),
                    vcfile: format!("{}:{}", name, ln),
                    props: props.clone(),
                    ..Default::default()
                });
            }
            _ => {
                let f = cur.as_mut().ok_or_else(|| err(&format!("@{} outside @fn", d)))?;
                match d.as_str() {
                    "as" => f.rename = Some(a),
                    "ret" => f.ret = Some(a),
                    "sig" => f.sig = Some(both.trim().to_string()),
                    "attr" => f.attrs.push(a),
                    "where" => f.wheres.push(a),
                    "ghost" => f.ghosts.push(a),
                    "ghostcall" => {
                        let (x, y) = a.split_once(':').ok_or_else(|| err("ghostcall"))?;
                        f.ghostcalls.push((x.trim().to_string(), y.trim().to_string()));
                    }
                    "requires" => f.requires.extend(split_clauses(&both).into_iter().map(|x| x.1)),
                    "ensures" => f.ensures.extend(split_clauses(&both)),
                    "decreases" => f.decreases = Some(both.trim().to_string()),
                    "loop" => {
                        let k = a.split_whitespace().next().and_then(|s| s.parse().ok()).ok_or_else(|| err("loop k"))?;
                        f.loops.insert(k, body);
                    }
                    "closure" => {
                        let k = a.split_whitespace().next().and_then(|s| s.parse().ok()).ok_or_else(|| err("closure k"))?;
                        f.closures.insert(k, body.trim().to_string());
                    }
                    "proof" => {
                        let e = f.proofs.entry(a).or_default();
                        e.push_str(&body);
                    }
                    "opt" => {
                        let (x, y) = a.split_once('=').ok_or_else(|| err("opt"))?;
                        f.opts.insert(x.trim().to_string(), y.trim().to_string());
                    }
                    "props" => f.props = a.split_whitespace().map(|s| s.to_string()).collect(),
                    "rewrite" => {
                        let (x, y) = both.split_once("==>>").ok_or_else(|| err("rewrite"))?;
                        f.rewrites.push((x.trim().to_string(), y.trim().to_string()));
                    }
                    "trusted" => f.trusted = Some(a),
                    "nocontract" => f.nocontract = true,
                    _ => return Err(err(&format!("unknown directive @{}", d))),
                }
            }
        }
    }
    flush!();
    Ok(out)
}
