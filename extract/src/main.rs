//! Mechanical extraction: reads a unit file (Verus text with `//@` directives), copies the named items and functions
//! out of /repo's current source, rewrites what Verus does not accept (see `Dialect`), joins them with the contracts of
//! the unit file and prints a Verus file. Every rewrite that was applied is listed in the map file.
//!
//! usage: extract REPO UNIT OUT MAP
mod dialect;
mod gen;
mod print;

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

use quote::ToTokens;

use dialect::{Dialect, Opts};

pub fn die(msg: String) -> ! {
    eprintln!("extract: {msg}");
    std::process::exit(3)
}

/// A `//@` directive with the text that follows it
#[derive(Debug, Default, Clone)]
struct Block {
    head: Vec<String>,
    text: String,
}

fn blocks(src: &str) -> Vec<Block> {
    let mut out = vec![Block { head: vec!["text".into()], text: String::new() }];
    for line in src.lines() {
        if let Some(d) = line.trim_start().strip_prefix("//@") {
            out.push(Block { head: d.split_whitespace().map(|s| s.to_string()).collect(), text: String::new() });
        } else {
            let b = out.last_mut().unwrap();
            b.text.push_str(line);
            b.text.push('\n');
        }
    }
    out
}

#[derive(Default, Clone)]
struct FnSpec {
    ret: Option<String>,
    header: String,
    start: String,
    attrs: String,
    loops: BTreeMap<usize, String>,
    loop_starts: BTreeMap<usize, String>,
    loop_ends: BTreeMap<usize, String>,
    loop_afters: BTreeMap<usize, String>,
    before: BTreeMap<String, String>,
    external: bool,
}

struct Ctx {
    repo: String,
    files: BTreeMap<String, syn::File>,
    current: String,
    opts: Opts,
    item_type: Option<syn::Type>,
    rewrites: BTreeMap<String, usize>,
    functions: Vec<String>,
    /// functions whose annotations have no place in the current source: left out, their contracts are assumed
    lost: Vec<String>,
    literals: BTreeSet<String>,
    external: bool,
    /// specifications only: the traits whose methods are left out, with all functions and inherent impls
    ghost: Option<Vec<String>>,
    emitted: BTreeSet<String>,
    /// default methods of traits that are copied into the impls
    defaults: BTreeMap<(String, String), syn::TraitItemFn>,
}

/// the string literals of a function
struct Lits<'a>(&'a mut BTreeSet<String>);

impl<'a> syn::visit::Visit<'a> for Lits<'_> {
    fn visit_lit_str(&mut self, l: &'a syn::LitStr) {
        self.0.insert(l.value());
    }
}

impl Ctx {
    fn file(&mut self) -> &syn::File {
        let (repo, current) = (self.repo.clone(), self.current.clone());
        self.files.entry(current.clone()).or_insert_with(|| {
            // gen:FILE is code that the derive macros wrote, in the directory VX_GEN
            let gen = current.strip_prefix("gen:");
            let p = match gen {
                Some(f) => format!("{}/{f}", std::env::var("VX_GEN").unwrap_or_else(|_| die("VX_GEN is not set".into()))),
                None => format!("{repo}/{current}"),
            };
            let s = std::fs::read_to_string(&p).unwrap_or_else(|e| die(format!("lost anchor: {p}: {e}")));
            let mut f = syn::parse_file(&s).unwrap_or_else(|e| die(format!("lost anchor: {p}: {e}")));
            if gen.is_some() {
                gen::prepare(&mut f);
            }
            f
        })
    }

    fn item(&mut self, kind: &str, name: &str) -> syn::Item {
        let cur = self.current.clone();
        for i in &self.file().items {
            let (k, n) = match i {
                syn::Item::Struct(s) => ("struct", s.ident.to_string()),
                syn::Item::Enum(s) => ("enum", s.ident.to_string()),
                syn::Item::Const(s) => ("const", s.ident.to_string()),
                syn::Item::Static(s) => ("static", s.ident.to_string()),
                syn::Item::Trait(s) => ("trait", s.ident.to_string()),
                syn::Item::Fn(s) => ("fn", s.sig.ident.to_string()),
                syn::Item::Type(s) => ("type", s.ident.to_string()),
                _ => continue,
            };
            if k == kind && n == name {
                return i.clone();
            }
        }
        die(format!("lost anchor: {kind} {name} in {cur}"))
    }

    /// the impl block written as `[Trait for] Type` (types compared without generics unless given)
    fn find_impl(&mut self, what: &str) -> Vec<syn::ItemImpl> {
        let norm = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
        let base = |t: &str| norm(t.split('<').next().unwrap());
        let (tr, ty) = match what.split_once(" for ") {
            Some((a, b)) => (Some(a.trim().to_string()), b.trim().to_string()),
            None => (None, what.trim().to_string()),
        };
        let mut out = vec![];
        for i in &self.file().items {
            if let syn::Item::Impl(im) = i {
                let t = im.self_ty.to_token_stream().to_string();
                let tn = match &im.trait_ {
                    Some((_, p, _)) => Some(p.to_token_stream().to_string()),
                    None => None,
                };
                let ty_ok = if ty.contains('<') || ty.contains('&') || ty.contains('[') || ty.contains('(') { norm(&t) == norm(&ty) } else { base(&t) == norm(&ty) };
                let tr_ok = match (&tr, &tn) {
                    (None, None) => true,
                    (Some(a), Some(b)) => if a.contains('<') { norm(a) == norm(b) } else { base(b) == norm(a) },
                    _ => false,
                };
                if ty_ok && tr_ok {
                    out.push(im.clone());
                }
            }
        }
        out
    }

    /// `macro_rules! name { ($x:kind) => { items }; }`, expanded for each invocation in the file
    fn expand(&mut self, name: &str) {
        let cur = self.current.clone();
        let mut def = None;
        let mut args = vec![];
        for i in &self.file().items {
            if let syn::Item::Macro(m) = i {
                if m.mac.path.is_ident("macro_rules") && m.ident.as_ref().is_some_and(|i| i == name) {
                    def = Some(m.mac.tokens.clone());
                } else if m.mac.path.is_ident(name) {
                    args.push(m.mac.tokens.clone());
                }
            }
        }
        let lost = || -> ! { die(format!("lost anchor: macro {name} in {cur}")) };
        let toks: Vec<proc_macro2::TokenTree> = def.unwrap_or_else(|| lost()).into_iter().collect();
        let (pat, body) = match &toks[..] {
            [proc_macro2::TokenTree::Group(p), _, _, proc_macro2::TokenTree::Group(b), ..] => (p.stream(), b.stream()),
            _ => lost(),
        };
        let pat: Vec<proc_macro2::TokenTree> = pat.into_iter().collect();
        let var = match &pat[..] {
            [_, proc_macro2::TokenTree::Ident(v), _, proc_macro2::TokenTree::Ident(_)] => v.to_string(),
            _ => lost(),
        };
        fn subst(t: proc_macro2::TokenStream, var: &str, arg: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
            let mut out = vec![];
            let mut it = t.into_iter().peekable();
            while let Some(t) = it.next() {
                match &t {
                    proc_macro2::TokenTree::Punct(p) if p.as_char() == '$' && matches!(it.peek(), Some(proc_macro2::TokenTree::Ident(i)) if i == var) => {
                        it.next();
                        out.extend(arg.clone());
                    }
                    proc_macro2::TokenTree::Group(g) => {
                        out.push(proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), var, arg))));
                    }
                    _ => out.push(t),
                }
            }
            out.into_iter().collect()
        }
        for a in args {
            let f: syn::File = syn::parse2(subst(body.clone(), &var, &a)).unwrap_or_else(|e| die(format!("lost anchor: macro {name} in {cur}: {e}")));
            self.files.get_mut(&cur).unwrap().items.extend(f.items);
            *self.rewrites.entry(format!("macro `{name}!` expanded")).or_default() += 1;
        }
    }

    fn emit_fn(&mut self, sig: &syn::Signature, vis: &str, block: Option<&syn::Block>, spec: &FnSpec, label: &str) -> String {
        let mut sig = sig.clone();
        // functions that Verus does not take (VX_EXTERNAL): their contract is assumed, and the caller lists them as undecided
        let beyond = std::env::var("VX_EXTERNAL").is_ok_and(|v| v.lines().any(|l| l == label));
        let spec = &FnSpec { external: spec.external || beyond || (self.external && block.is_some()), ..spec.clone() };
        let mut d = Dialect::new(self.opts.clone());
        d.item_type = self.item_type.clone();
        let mut mut_self = false;
        if let Some(syn::FnArg::Receiver(r)) = sig.inputs.first_mut() {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                mut_self = true;
            }
        }
        d.sig(&mut sig);
        let mut body = None;
        let mut lost = None;
        if let (Some(b), false) = (block, spec.external) {
            let mut b = b.clone();
            if mut_self {
                dialect::rename_self(&mut b);
                d.applied.insert("parameter `mut self` as a local variable".into(), 1);
            }
            d.block(&mut b);
            syn::visit::Visit::visit_block(&mut Lits(&mut self.literals), &b);
            match insert(&print::block(&b), spec, d.loops, &d.loop_default, label) {
                Ok(t) => body = Some(t),
                Err(e) => lost = Some(e),
            }
        }
        let spec = &FnSpec { external: spec.external || lost.is_some(), ..spec.clone() };
        let mut out = format!("//vx_fn {label}\n");
        if !spec.external {
            out.push_str(&spec.attrs);
        }
        if spec.external {
            out.push_str("#[verifier::external_body]\n");
        }
        let mut gen = sig.generics.clone();
        let wh = gen.where_clause.take();
        let inputs = sig.inputs.to_token_stream().to_string();
        let ret = match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => format!(" -> ({}: {})", spec.ret.clone().unwrap_or("r".into()), t.to_token_stream()),
        };
        let _ = write!(out, "{vis}fn {}{}({inputs}){ret}", sig.ident, gen.to_token_stream());
        if let Some(w) = wh {
            let mut w = w.to_token_stream().to_string();
            if !w.trim_end().ends_with(',') {
                w.push(',');
            }
            let _ = write!(out, "\n{w}");
        }
        out.push('\n');
        out.push_str(&spec.header);
        match block {
            None => out.push(';'),
            Some(_) if spec.external => out.push_str("{ unimplemented!() }\n"),
            Some(_) => {
                out.push_str(&body.unwrap_or_default());
                for (k, n) in &d.applied {
                    *self.rewrites.entry(k.clone()).or_default() += n;
                }
            }
        }
        if let Some(e) = lost {
            self.lost.push(e);
        }
        out.push_str("\n//vx_end");
        out.push('\n');
        self.functions.push(format!("{label}{}", if spec.external { " (external)" } else { "" }));
        out
    }
}

/// put contracts at the markers left by the dialect
fn insert(text: &str, spec: &FnSpec, loops: usize, defaults: &BTreeMap<usize, String>, label: &str) -> Result<String, String> {
    for k in spec.loops.keys().chain(spec.loop_starts.keys()).chain(spec.loop_ends.keys()).chain(spec.loop_afters.keys()) {
        if *k >= loops {
            return Err(format!("{label} loop {k} is not there"));
        }
    }
    let mut out = String::new();
    let mut first = true;
    let mut calls = BTreeMap::<String, usize>::new();
    let mut used = BTreeSet::<String>::new();
    for line in text.lines() {
        let t = line.trim();
        if let Some(r) = t.strip_prefix("vx_loop ! (") {
            let k: usize = r.trim_end_matches([')', ';', ' ']).trim().trim_end_matches("usize").parse().unwrap();
            // the line before ends with `{`: the specification goes before it
            let p = out.trim_end().len();
            assert!(out[..p].ends_with('{'), "loop marker");
            out.truncate(p - 1);
            if let Some(s) = spec.loops.get(&k).or(defaults.get(&k)) {
                out.push('\n');
                out.push_str(s);
            }
            out.push_str("{\n");
            if let Some(s) = spec.loop_starts.get(&k) {
                out.push_str(s);
            }
            continue;
        }
        if let Some(r) = t.strip_prefix("vx_loop_end ! (") {
            let k: usize = r.trim_end_matches([')', ';', ' ']).trim().trim_end_matches("usize").parse().unwrap();
            if let Some(s) = spec.loop_ends.get(&k) {
                out.push_str(s);
            }
            continue;
        }
        if let Some(r) = t.strip_prefix("vx_loop_after ! (") {
            let k: usize = r.trim_end_matches([')', ';', ' ']).trim().trim_end_matches("usize").parse().unwrap();
            if let Some(s) = spec.loop_afters.get(&k) {
                out.push_str(s);
            }
            continue;
        }
        if let Some(r) = t.strip_prefix("vx_call ! (") {
            let k = r.trim_end_matches([')', ';', ' ']).trim();
            let k: String = k.chars().filter(|c| !c.is_whitespace()).collect();
            let n = calls.entry(k.clone()).or_insert(0);
            // `//@before CALL` is at every call, `//@before CALL#n` at the n-th one
            for key in [k.clone(), format!("{k}#{n}")] {
                if let Some(s) = spec.before.get(&key) {
                    out.push_str(s);
                    used.insert(key);
                }
            }
            *n += 1;
            continue;
        }
        out.push_str(line);
        out.push('\n');
        if first {
            if std::env::var_os("VX_VACUITY").is_some() {
                out.push_str("    proof { assert(false); } // vx_vacuity\n");
            }
            out.push_str(&spec.start);
            first = false;
        }
    }
    if let Some(k) = spec.before.keys().find(|k| !used.contains(*k)) {
        return Err(format!("{label} no call of {k}"));
    }
    Ok(out)
}

fn fn_spec(bs: &[Block], i: &mut usize) -> FnSpec {
    let mut s = FnSpec { header: bs[*i].text.clone(), ..Default::default() };
    for a in &bs[*i].head[1..] {
        if let Some(r) = a.strip_prefix("ret=") {
            s.ret = Some(r.into());
        }
        if a == "external" {
            s.external = true;
        }
    }
    while *i + 1 < bs.len() {
        let b = &bs[*i + 1];
        let k = b.head.get(1).and_then(|k| k.parse::<usize>().ok());
        match b.head[0].as_str() {
            "start" => s.start = b.text.clone(),
            "attr" => s.attrs = b.head[1..].join(" ") + "\n",
            "loop" => drop(s.loops.insert(k.unwrap(), b.text.clone())),
            "loop-start" => drop(s.loop_starts.insert(k.unwrap(), b.text.clone())),
            "loop-end" => drop(s.loop_ends.insert(k.unwrap(), b.text.clone())),
            "loop-after" => drop(s.loop_afters.insert(k.unwrap(), b.text.clone())),
            "before" => drop(s.before.insert(b.head[1..].join(""), b.text.clone())),
            _ => break,
        }
        *i += 1;
    }
    s
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let unit = std::fs::read_to_string(&a[2]).unwrap_or_else(|e| die(format!("{}: {e}", a[2])));
    let dir = std::path::Path::new(&a[2]).parent().unwrap().to_path_buf();
    // //@include FILE
    let mut src = String::new();
    fn inc(text: &str, dir: &std::path::Path, out: &mut String) {
        for l in text.lines() {
            match l.trim().strip_prefix("//@include ") {
                Some(f) => inc(&std::fs::read_to_string(dir.join(f.trim())).unwrap_or_else(|e| die(format!("{f}: {e}"))), dir, out),
                None => {
                    out.push_str(l);
                    out.push('\n');
                }
            }
        }
    }
    inc(&unit, &dir, &mut src);
    let bs = blocks(&src);
    let mut cx = Ctx { repo: a[1].clone(), files: BTreeMap::new(), current: String::new(), opts: Opts::default(), item_type: None, rewrites: BTreeMap::new(), functions: vec![], lost: vec![], literals: BTreeSet::new(), external: false, ghost: None, emitted: BTreeSet::new(), defaults: BTreeMap::new() };
    let mut out = String::new();
    let mut i = 0;
    while i < bs.len() {
        let b = bs[i].clone();
        let h: Vec<&str> = b.head.iter().map(|s| s.as_str()).collect();
        match h[0] {
            "text" | "end" => out.push_str(&b.text),
            "use" => {
                cx.current = h[1].to_string();
                out.push_str(&b.text);
            }
            // contracts that another unit proves
            "opt" if h[1] == "external" => {
                cx.external = h[2] == "on";
                out.push_str(&b.text);
            }
            "opt" if h[1] == "ghost" => {
                cx.ghost = if h[2] == "off" { None } else { Some(h[2..].iter().map(|x| x.to_string()).collect()) };
                out.push_str(&b.text);
            }
            "opt" => {
                cx.opts.set(&h[1..]);
                out.push_str(&b.text);
            }
            // what the string literals of the functions so far do to `feed`: a lemma for each, which Verus proves
            "literals" => {
                let mut group = vec![];
                for (k, l) in cx.literals.iter().filter(|l| !l.is_empty() && l.chars().count() <= 12).enumerate() {
                    let mut e = "p".to_string();
                    for c in l.chars() {
                        e = format!("step({e}, {c:?})");
                    }
                    let n = l.chars().count();
                    let _ = writeln!(out, "pub broadcast proof fn vx_lit_{k}(p: P) ensures #[trigger] feed(p, {l:?}@) == {e} {{ reveal_strlit({l:?}); reveal_with_fuel(feed, {}); reveal(step); let s = {l:?}@;", n + 1);
                    let mut e = "s".to_string();
                    for (i, c) in l.chars().enumerate().collect::<Vec<_>>().into_iter().rev() {
                        let _ = writeln!(out, "assert({e}.last() == {c:?}); assert({e}.drop_last().len() == {i});");
                        e = format!("{e}.drop_last()");
                    }
                    let _ = writeln!(out, "}}");
                    group.push(format!("vx_lit_{k}"));
                }
                let _ = writeln!(out, "pub broadcast group vx_literals {{ {} }}", group.join(", "));
                out.push_str(&b.text);
            }
            // the items that the invocations of a macro_rules! macro of this file produce
            "expand" => {
                cx.expand(h[1]);
                out.push_str(&b.text);
            }
            // an item that is there already
            "item" | "const" if cx.ghost.is_some() && cx.emitted.contains(h[if h[0] == "item" { 2 } else { 1 }]) => {
                if h[0] == "item" {
                    out.push_str(&b.text);
                }
            }
            "item" => {
                cx.emitted.insert(h[2].to_string());
                let mut it = cx.item(h[1], h[2]);
                let mut d = Dialect::new(cx.opts.clone());
                let derives = h.iter().find_map(|x| x.strip_prefix("derive="));
                d.item(&mut it);
                if let Some(x) = derives {
                    let _ = writeln!(out, "#[derive({x})]");
                }
                for x in h.iter().filter(|x| x.starts_with("#[")) {
                    let _ = writeln!(out, "{x}");
                }
                out.push_str(&print::tokens(it.to_token_stream()));
                out.push('\n');
                out.push_str(&b.text);
            }
            // //@const NAME, with its contract
            "const" => {
                cx.emitted.insert(h[1].to_string());
                let it = cx.item("const", h[1]);
                if let syn::Item::Const(mut c) = it {
                    struct Static;
                    impl syn::visit_mut::VisitMut for Static {
                        fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
                            if r.lifetime.is_none() {
                                r.lifetime = Some(syn::parse_quote!('static));
                            }
                            syn::visit_mut::visit_type_reference_mut(self, r);
                        }
                    }
                    syn::visit_mut::VisitMut::visit_type_mut(&mut Static, &mut c.ty);
                    let label = format!("{}::{}", cx.current, c.ident);
                    cx.functions.push(label);
                    let _ = writeln!(out, "pub exec const {}: {}\n{}{{ {} }}", c.ident, c.ty.to_token_stream(), b.text, print::tokens(c.expr.to_token_stream()));
                }
            }
            "fn" if cx.ghost.is_some() => {
                fn_spec(&bs, &mut i);
            }
            "fn" => {
                let (cur, name) = (cx.current.clone(), h[1].to_string());
                let it = cx.item("fn", &name);
                let mut bb = bs.clone();
                bb[i].head.remove(1);
                let spec = fn_spec(&bb, &mut i);
                if let syn::Item::Fn(f) = it {
                    let t = cx.emit_fn(&f.sig, "pub ", Some(&f.block), &spec, &format!("{cur}::{name}"));
                    out.push_str(&t);
                }
            }
            // //@impl [Trait for] Type [inherent]   ...   //@method NAME ...   //@endimpl
            "impl" | "trait" => {
                let inherent = h.contains(&"inherent");
                let what = h[1..].iter().filter(|x| **x != "inherent").copied().collect::<Vec<_>>().join(" ");
                let (impls, mut header) = if h[0] == "impl" {
                    let v = cx.find_impl(&what);
                    if v.is_empty() {
                        die(format!("lost anchor: impl {what} in {}", cx.current));
                    }
                    for im in &v {
                        for e in gen::local_enums(im) {
                            let mut it = syn::Item::Enum(e);
                            Dialect::new(cx.opts.clone()).item(&mut it);
                            out.push_str(&print::tokens(it.to_token_stream()));
                            out.push('\n');
                            *cx.rewrites.entry("local enum moved out of its function".into()).or_default() += 1;
                        }
                    }
                    let v: Vec<syn::ItemImpl> = v.into_iter().map(gen::without_locals).collect();
                    let mut im = v[0].clone();
                    let mut d = Dialect::new(cx.opts.clone());
                    d.impl_header(&mut im);
                    cx.item_type = d.item_type.clone();
                    let g = { let mut g = im.generics.clone(); g.where_clause = None; g.to_token_stream().to_string() };
                    let wh = im.generics.where_clause.to_token_stream().to_string();
                    let tr = match (&im.trait_, inherent) {
                        (Some((_, p, _)), false) => format!("{} for ", p.to_token_stream()),
                        _ => String::new(),
                    };
                    let h = format!("impl{g} {tr}{} {wh} {{\n", im.self_ty.to_token_stream());
                    (v, h)
                } else {
                    (vec![], String::new())
                };
                let tr_item = if h[0] == "trait" {
                    let syn::Item::Trait(t) = cx.item("trait", h[1]) else { unreachable!() };
                    let g = { let mut g = t.generics.clone(); g.where_clause = None; g.to_token_stream().to_string() };
                    let sup = if t.supertraits.is_empty() { String::new() } else { format!(": {}", t.supertraits.to_token_stream()) };
                    header = format!("pub trait {}{g}{sup} {{\n", t.ident);
                    Some(t)
                } else {
                    None
                };
                let of = match h[0] {
                    "trait" => Some(h[1].to_string()),
                    _ if inherent => None,
                    _ => impls.first().and_then(|im| im.trait_.as_ref()).and_then(|t| t.1.segments.last()).map(|s| s.ident.to_string()),
                };
                let ghost = cx.ghost.as_ref().map(|g| of.as_ref().map_or(true, |t| g.contains(t))).unwrap_or(false);
                if ghost && of.is_none() {
                    while bs[i].head[0] != "endimpl" {
                        i += 1;
                    }
                    out.push_str(&bs[i].text);
                    i += 1;
                    continue;
                }
                out.push_str(&header);
                out.push_str(&b.text);
                i += 1;
                while i < bs.len() && bs[i].head[0] != "endimpl" {
                    let name = bs[i].head.get(1).cloned().unwrap_or_default();
                    match bs[i].head[0].as_str() {
                        "method" if ghost => {
                            fn_spec(&bs, &mut i);
                        }
                        "method" => {
                            let mut bb = bs.clone();
                            bb[i].head.remove(1);
                            let is_abstract = bb[i].head.iter().any(|x| x == "abstract");
                            let spec = fn_spec(&bb, &mut i);
                            let label = format!("{}::{}::{}", cx.current, what.replace(' ', "_"), name);
                            let mut done = false;
                            for im in &impls {
                                for it in &im.items {
                                    if let syn::ImplItem::Fn(f) = it {
                                        if f.sig.ident == name && !done {
                                            let vis = if im.trait_.is_some() && !inherent { "" } else { "pub " };
                                            let t = cx.emit_fn(&f.sig, vis, Some(&f.block), &spec, &label);
                                            out.push_str(&t);
                                            done = true;
                                        }
                                    }
                                }
                            }
                            if let Some(t) = &tr_item {
                                for it in &t.items {
                                    if let syn::TraitItem::Fn(f) = it {
                                        if f.sig.ident == name && !done {
                                            // `abstract`: the default body goes into the impls that do not have their own
                                            let body = if is_abstract { None } else { f.default.as_ref() };
                                            if is_abstract {
                                                cx.defaults.insert((t.ident.to_string(), name.clone()), f.clone());
                                            }
                                            let t = cx.emit_fn(&f.sig, "", body, &spec, &label);
                                            out.push_str(&t);
                                            done = true;
                                        }
                                    }
                                }
                            }
                            let of = impls.first().and_then(|im| im.trait_.as_ref()).and_then(|t| t.1.segments.last()).map(|s| s.ident.to_string());
                            if let Some(f) = of.filter(|_| !done).and_then(|t| cx.defaults.get(&(t, name.clone())).cloned()) {
                                let t = cx.emit_fn(&f.sig, "", f.default.as_ref(), &spec, &label);
                                out.push_str(&t);
                                *cx.rewrites.entry("default method copied into the impl".into()).or_default() += 1;
                                done = true;
                            }
                            if !done {
                                die(format!("lost anchor: {what}::{name} in {}", cx.current));
                            }
                        }
                        "assoc" => {
                            // associated types and constants
                            let mut done = false;
                            for im in &impls {
                                for it in &im.items {
                                    let n = match it {
                                        syn::ImplItem::Type(t) => t.ident.to_string(),
                                        syn::ImplItem::Const(c) => c.ident.to_string(),
                                        _ => continue,
                                    };
                                    if n == name && !done {
                                        out.push_str(&print::tokens(it.to_token_stream()));
                                        out.push('\n');
                                        done = true;
                                    }
                                }
                            }
                            if let Some(t) = &tr_item {
                                for it in &t.items {
                                    let n = match it {
                                        syn::TraitItem::Type(t) => t.ident.to_string(),
                                        syn::TraitItem::Const(c) => c.ident.to_string(),
                                        _ => continue,
                                    };
                                    if n == name && !done {
                                        let mut it = it.clone();
                                        match &mut it {
                                            syn::TraitItem::Type(t) => t.attrs.clear(),
                                            syn::TraitItem::Const(t) => t.attrs.clear(),
                                            _ => {}
                                        }
                                        out.push_str(&print::tokens(it.to_token_stream()));
                                        out.push('\n');
                                        done = true;
                                    }
                                }
                            }
                            if !done {
                                die(format!("lost anchor: {what}::{name} in {}", cx.current));
                            }
                            out.push_str(&bs[i].text);
                        }
                        "text" => out.push_str(&bs[i].text),
                        o => die(format!("unknown directive {o} in impl")),
                    }
                    i += 1;
                }
                out.push_str("}\n");
                if i < bs.len() {
                    out.push_str(&bs[i].text);
                }
            }
            o => die(format!("unknown directive {o}")),
        }
        i += 1;
    }
    std::fs::write(&a[3], out).unwrap();
    let mut m = String::new();
    for f in &cx.functions {
        let _ = writeln!(m, "fn {f}");
    }
    for l in &cx.lost {
        let _ = writeln!(m, "lost {l}");
    }
    for (k, n) in &cx.rewrites {
        let _ = writeln!(m, "rewrite {n} {k}");
    }
    std::fs::write(&a[4], m).unwrap();
}
