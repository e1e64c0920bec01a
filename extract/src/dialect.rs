//! Rewrites from Rust to the subset that Verus accepts. Every rule works on the syntax tree alone, keeps the
//! order of evaluation, and is counted in `applied` (the map file of a unit lists which rules were used how often).
use std::collections::{BTreeMap, BTreeSet};

use quote::{format_ident, quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

#[derive(Default, Clone)]
pub struct Opts {
    /// variants of `Error` whose payload is only a message
    messages: BTreeSet<String>,
    /// functions and variables that are (or return) a `Result`
    res: BTreeSet<String>,
    /// method NAME becomes the function given
    methods: BTreeMap<String, String>,
    /// path becomes another path
    paths: BTreeMap<String, String>,
    /// targets of `+=` on Cow<str>
    cow: BTreeSet<String>,
    /// types replaced by name
    types: BTreeMap<String, String>,
    /// functions to mark with `vx_call!`
    calls: BTreeSet<String>,
    /// string concatenation `a + b`
    concat: bool,
    /// fields whose elements are moved out of arrays by index (Copy elements)
    by_copy: bool,
    /// `s[a..]` and `s[..b]` are slices of strings
    str_slice: bool,
}

impl Opts {
    pub fn set(&mut self, words: &[&str]) {
        let rest = || words[1..].iter().map(|s| s.to_string());
        match words[0] {
            "message" => self.messages.extend(rest()),
            "result" => self.res.extend(rest()),
            "method" => drop(self.methods.insert(words[1].into(), words[2].into())),
            "path" => drop(self.paths.insert(words[1].into(), words[2].into())),
            "type" => drop(self.types.insert(words[1].into(), words[2..].join(" "))),
            "cow" => self.cow.extend(rest()),
            "mark" => self.calls.extend(rest()),
            "concat" => self.concat = true,
            "str-slice" => self.str_slice = true,
            "by-copy" => self.by_copy = words[1] == "on",
            o => crate::die(format!("unknown option {o}")),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Opt,
    Res,
    Iter,
    Unknown,
}

pub struct Dialect {
    opts: Opts,
    pub loops: usize,
    pub loop_default: BTreeMap<usize, String>,
    pub applied: BTreeMap<String, usize>,
    pub item_type: Option<syn::Type>,
    vars: BTreeMap<String, Kind>,
    temps: usize,
}

fn squash(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().chars().filter(|c| !c.is_whitespace()).collect()
}

/// `?`, `return`, `break` or `continue` in a closure must not be inlined
struct Escapes(bool);
impl<'a> Visit<'a> for Escapes {
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true
    }
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
}
fn escapes(e: &Expr) -> bool {
    let mut v = Escapes(false);
    v.visit_expr(e);
    v.0
}

fn strip_attrs(a: &mut Vec<syn::Attribute>) {
    a.clear()
}

impl Dialect {
    pub fn new(opts: Opts) -> Self {
        Dialect { opts, loops: 0, loop_default: BTreeMap::new(), applied: BTreeMap::new(), item_type: None, vars: BTreeMap::new(), temps: 0 }
    }

    fn note(&mut self, what: &str) {
        *self.applied.entry(what.into()).or_default() += 1;
    }

    fn temp(&mut self, base: &str) -> syn::Ident {
        self.temps += 1;
        format_ident!("vx_{base}{}", self.temps)
    }

    pub fn sig(&mut self, s: &mut syn::Signature) {
        for i in &mut s.inputs {
            match i {
                syn::FnArg::Typed(t) => {
                    strip_attrs(&mut t.attrs);
                    if let Pat::Wild(_) = *t.pat {
                        let id = self.temp("arg");
                        *t.pat = parse_quote!(#id);
                    }
                }
                syn::FnArg::Receiver(r) => strip_attrs(&mut r.attrs),
            }
        }
        self.visit_signature_mut(s);
    }

    pub fn block(&mut self, b: &mut syn::Block) {
        self.visit_block_mut(b);
    }

    pub fn item(&mut self, i: &mut syn::Item) {
        match i {
            syn::Item::Struct(s) => {
                strip_attrs(&mut s.attrs);
                s.vis = parse_quote!(pub);
                for f in &mut s.fields {
                    strip_attrs(&mut f.attrs);
                    f.vis = parse_quote!(pub);
                }
            }
            syn::Item::Enum(s) => {
                strip_attrs(&mut s.attrs);
                s.vis = parse_quote!(pub);
                for v in &mut s.variants {
                    strip_attrs(&mut v.attrs);
                    for f in &mut v.fields {
                        strip_attrs(&mut f.attrs);
                    }
                }
            }
            syn::Item::Const(s) => {
                strip_attrs(&mut s.attrs);
                s.vis = parse_quote!(pub);
            }
            syn::Item::Type(s) => s.vis = parse_quote!(pub),
            syn::Item::Static(s) => strip_attrs(&mut s.attrs),
            _ => {}
        }
        self.visit_item_mut(i);
    }

    pub fn impl_header(&mut self, i: &mut syn::ItemImpl) {
        for it in &i.items {
            if let syn::ImplItem::Type(t) = it {
                if t.ident == "Item" {
                    self.item_type = Some(t.ty.clone());
                }
            }
        }
        self.visit_generics_mut(&mut i.generics);
        self.visit_type_mut(&mut i.self_ty);
        if let Some((_, p, _)) = &mut i.trait_ {
            self.visit_path_mut(p);
        }
    }

    fn kind(&self, e: &Expr) -> Kind {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Path(p) => match p.path.get_ident() {
                Some(i) => self.vars.get(&i.to_string()).copied().unwrap_or(if self.opts.res.contains(&i.to_string()) { Kind::Res } else { Kind::Unknown }),
                None => Kind::Unknown,
            },
            Expr::Call(c) => {
                let name = squash(&c.func);
                let last = name.rsplit("::").next().unwrap_or("").to_string();
                if last == "Ok" || last == "Err" || self.opts.res.contains(&last) || last == "from_str" || last == "from_utf8" {
                    Kind::Res
                } else if last == "Some" {
                    Kind::Opt
                } else {
                    Kind::Unknown
                }
            }
            Expr::MethodCall(m) => match m.method.to_string().as_str() {
                "ok_or" | "ok_or_else" | "map_err" => Kind::Res,
                "ok" | "err" | "get" | "first" | "last" | "pop" | "pop_front" | "take" | "next" | "find_map" => Kind::Opt,
                "filter" | "map" | "and_then" | "or_else" | "as_ref" | "as_mut" | "copied" | "cloned" => self.kind(&m.receiver),
                "iter" | "into_iter" | "rev" | "chars" | "char_indices" | "bytes" | "enumerate" | "drain" => Kind::Iter,
                o if self.opts.res.contains(o) => Kind::Res,
                _ => Kind::Unknown,
            },
            Expr::Match(m) => m
                .arms
                .iter()
                .map(|a| self.kind(&a.body))
                .find(|k| *k != Kind::Unknown)
                .unwrap_or(Kind::Unknown),
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => Kind::Unknown,
            },
            _ => Kind::Unknown,
        }
    }

    /// the body of a closure (or function path) applied to the variable `v`: (pattern, body)
    fn apply(&mut self, f: &Expr, by_ref: bool) -> Option<(Pat, Expr)> {
        match f {
            Expr::Closure(c) => {
                if escapes(&c.body) {
                    return None;
                }
                let p = match c.inputs.first() {
                    Some(Pat::Type(t)) => (*t.pat).clone(),
                    Some(p) => p.clone(),
                    None => parse_quote!(_),
                };
                Some((p, (*c.body).clone()))
            }
            Expr::Path(p) => {
                let v = self.temp("v");
                let _ = by_ref;
                Some((parse_quote!(#v), parse_quote!(#p(#v))))
            }
            _ => None,
        }
    }

    fn combinator(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        let kind = match self.kind(recv) {
            Kind::Unknown => Kind::Opt,
            k => k,
        };
        let a0 = m.args.first();
        let two = matches!(name.as_str(), "is_some_and" | "is_none_or" | "filter" | "and_then" | "map" | "ok_or_else" | "unwrap_or_else" | "map_err" | "or_else" | "map_or");
        if kind == Kind::Iter {
            return self.iter_combinator(m);
        }
        if !two {
            return None;
        }
        let f = if name == "map_or" { m.args.iter().nth(1)? } else { a0? };
        let (p, b) = self.apply(f, name == "filter")?;
        let v = self.temp("v");
        let e: Expr = match (name.as_str(), kind) {
            ("filter", Kind::Opt) => parse_quote!(match #recv { Some(#v) => { let vx_keep = { let #p = &#v; #b }; if vx_keep { Some(#v) } else { None } } None => None }),
            ("is_some_and", Kind::Opt) => parse_quote!(match #recv { Some(#p) => #b, None => false }),
            ("is_none_or", Kind::Opt) => parse_quote!(match #recv { Some(#p) => #b, None => true }),
            ("and_then", Kind::Opt) => parse_quote!(match #recv { Some(#p) => #b, None => None }),
            ("and_then", Kind::Res) => parse_quote!(match #recv { Ok(#p) => #b, Err(#v) => Err(#v) }),
            ("map", Kind::Opt) => parse_quote!(match #recv { Some(#p) => Some(#b), None => None }),
            ("map", Kind::Res) => parse_quote!(match #recv { Ok(#p) => Ok(#b), Err(#v) => Err(#v) }),
            ("map_or", Kind::Opt) => {
                let d = a0?;
                if !matches!(d, Expr::Lit(_) | Expr::Path(_)) {
                    return None;
                }
                parse_quote!(match #recv { Some(#p) => #b, None => #d })
            }
            ("map_err", _) => parse_quote!(match #recv { Ok(#v) => Ok(#v), Err(#p) => Err(#b) }),
            ("ok_or_else", _) => parse_quote!(match #recv { Some(#v) => Ok(#v), None => Err(#b) }),
            ("unwrap_or_else", Kind::Opt) => parse_quote!(match #recv { Some(#v) => #v, None => #b }),
            ("or_else", Kind::Opt) => parse_quote!(match #recv { Some(#v) => Some(#v), None => #b }),
            _ => return None,
        };
        self.note(&format!("closure passed to `{name}` inlined as a match"));
        Some(e)
    }

    /// X.iter().rev().find_map(..), X.into_iter().map(..).collect()
    fn iter_combinator(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if name == "collect" {
            let Expr::MethodCall(mm) = &*m.receiver else { return None };
            if mm.method != "map" {
                return None;
            }
            let Expr::MethodCall(it) = &*mm.receiver else { return None };
            if it.method != "into_iter" {
                return None;
            }
            let x = &it.receiver;
            let (p, b) = self.apply(mm.args.first()?, false)?;
            let k = self.loops;
            self.loops += 1;
            let (src, out) = (format_ident!("vx_src{k}"), format_ident!("vx_out{k}"));
            self.loop_default.insert(k, format!("decreases {src}.len(),\n"));
            self.note("into_iter().map(..).collect() as a loop over the elements");
            return Some(parse_quote!({
                let mut #src = #x;
                let mut #out = Vec::new();
                while #src.len() > 0 {
                    vx_loop!(#k);
                    let #p = #src.remove(0);
                    let vx_new = #b;
                    #out.push(vx_new);
                    vx_loop_end!(#k);
                }
                #out
            }));
        }
        if name == "find_map" || name == "any" || name == "all" || name == "position" {
            let (x, rev) = source(&m.receiver)?;
            let (p, b) = self.apply(m.args.first()?, false)?;
            let k = self.loops;
            self.loops += 1;
            let (i, r) = (format_ident!("vx_i{k}"), format_ident!("vx_r{k}"));
            self.note(&format!("iterator with `{name}` as an indexed loop"));
            let (init, cond, pre, post): (Expr, Expr, Vec<Stmt>, Vec<Stmt>) = if rev {
                self.loop_default.insert(k, format!("decreases {i},\n"));
                (parse_quote!(#x.len()), parse_quote!(#i > 0), vec![parse_quote!(#i = #i - 1;)], vec![])
            } else {
                self.loop_default.insert(k, format!("decreases {}.len() - {i},\n", squash(&x)));
                (parse_quote!(0), parse_quote!(#i < #x.len()), vec![], vec![parse_quote!(#i = #i + 1;)])
            };
            return Some(match name.as_str() {
                "find_map" => parse_quote!({
                    let mut #i: usize = #init;
                    let mut #r = None;
                    while #cond {
                        vx_loop!(#k);
                        #(#pre)*
                        let #p = &#x[#i];
                        #(#post)*
                        #r = #b;
                        if #r.is_some() { break; }
                        vx_loop_end!(#k);
                    }
                    #r
                }),
                "any" | "all" => {
                    let (start, hit): (Expr, Expr) = if name == "any" { (parse_quote!(false), parse_quote!(vx_b)) } else { (parse_quote!(true), parse_quote!(!vx_b)) };
                    let end: Expr = if name == "any" { parse_quote!(true) } else { parse_quote!(false) };
                    parse_quote!({
                        let mut #i: usize = #init;
                        let mut #r = #start;
                        while #cond {
                            vx_loop!(#k);
                            #(#pre)*
                            let #p = &#x[#i];
                            #(#post)*
                            let vx_b = #b;
                            if #hit { #r = #end; break; }
                            vx_loop_end!(#k);
                        }
                        #r
                    })
                }
                _ => return None,
            });
        }
        None
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop, k: usize) -> Option<Expr> {
        let (label, pat, it) = (&f.label, &*f.pat, &*f.expr);
        let mut body = f.body.clone();
        end_marker(&mut body, k);
        let stmts = &body.stmts;
        let (i, s) = (format_ident!("vx_i{k}"), format_ident!("vx_s{k}"));
        // drain(..)
        if let Expr::MethodCall(m) = it {
            if m.method == "drain" && squash(&m.args) == ".." {
                let x = &m.receiver;
                self.note("for over drain(..) as a loop that removes the first element");
                self.loop_default.insert(k, format!("decreases {}.len(),\n", squash(x)));
                return Some(parse_quote!(#label while #x.len() > 0 { vx_loop!(#k); let #pat = #x.remove(0); #(#stmts)* }));
            }
        }
        let default = format!("invariant {i} <= {s}.len(),\ndecreases {s}.len() - {i},\n");
        if let Expr::Range(r) = it {
            if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                self.note("for over a range as a while loop");
                self.loop_default.insert(k, format!("decreases {s} - {i},\n"));
                return Some(parse_quote!({
                    let mut #i = #a; let #s = #b;
                    #label while #i < #s { vx_loop!(#k); let #pat = #i; #i = #i + 1; #(#stmts)* }
                }));
            }
        }
        if let Expr::MethodCall(m) = it {
            let name = m.method.to_string();
            if name == "char_indices" || name == "chars" {
                let x = &m.receiver;
                let fun = format_ident!("vx_{name}");
                self.note(&format!("for over {name}() as an indexed loop over the (trusted) sequence of characters"));
                self.loop_default.insert(k, default);
                return Some(parse_quote!({
                    let #s = #fun(&#x);
                    let mut #i: usize = 0;
                    #label while #i < #s.len() { vx_loop!(#k); let #pat = #s[#i]; #i = #i + 1; #(#stmts)* }
                }));
            }
        }
        let (x, enumerate, rev, owned) = {
            let mut e = it.clone();
            let mut en = false;
            if let Expr::MethodCall(m) = &e {
                if m.method == "enumerate" {
                    en = true;
                    e = (*m.receiver).clone();
                }
            }
            if let Expr::MethodCall(m) = &e {
                match m.method.to_string().as_str() {
                    "iter" => ((*m.receiver).clone(), en, false, false),
                    "into_iter" => ((*m.receiver).clone(), en, false, true),
                    "bytes" => {
                        let r = &m.receiver;
                        (parse_quote!(#r.as_bytes()), en, false, true)
                    }
                    "rev" => {
                        let (x, r) = source(&e)?;
                        (x, en, r, false)
                    }
                    _ => return None,
                }
            } else {
                (e, en, false, false)
            }
        };
        if enumerate && rev {
            return None;
        }
        // element by reference, or by value for `&x` patterns, into_iter() of arrays of Copy elements
        let (idx_pat, el_pat): (Option<Pat>, Pat) = if enumerate {
            let Pat::Tuple(t) = pat else { return None };
            (Some(t.elems.first()?.clone()), t.elems.iter().nth(1)?.clone())
        } else {
            (None, pat.clone())
        };
        let (el_pat, value) = match &el_pat {
            Pat::Reference(r) => ((*r.pat).clone(), true),
            p => (p.clone(), owned),
        };
        let el: Expr = if value { parse_quote!(#s[vx_at]) } else { parse_quote!(&#s[vx_at]) };
        let idx: Vec<Stmt> = idx_pat.iter().map(|p| parse_quote!(let #p = vx_at;)).collect();
        self.note("for over a slice, array or vector as an indexed loop");
        let bind: Stmt = if owned { parse_quote!(let #s = #x;) } else { parse_quote!(let #s = &#x;) };
        let bind: Stmt = match &x {
            Expr::Reference(r) => {
                let y = &r.expr;
                parse_quote!(let #s = &#y;)
            }
            Expr::Path(p) if p.path.is_ident("self") => parse_quote!(let #s = self;),
            _ => bind,
        };
        if rev {
            self.loop_default.insert(k, format!("decreases {i},\n"));
            return Some(parse_quote!({
                #bind
                let mut #i: usize = #s.len();
                #label while #i > 0 { vx_loop!(#k); #i = #i - 1; let vx_at = #i; #(#idx)* let #el_pat = #el; #(#stmts)* }
            }));
        }
        self.loop_default.insert(k, default);
        Some(parse_quote!({
            #bind
            let mut #i: usize = 0;
            #label while #i < #s.len() { vx_loop!(#k); let vx_at = #i; #i = #i + 1; #(#idx)* let #el_pat = #el; #(#stmts)* }
        }))
    }

    /// match on a slice with slice patterns: if-chain
    /// string literals in patterns as guards
    fn str_match(&mut self, m: &syn::ExprMatch) -> Option<Expr> {
        fn is_str(p: &Pat) -> bool {
            matches!(p, Pat::Lit(l) if matches!(l.lit, syn::Lit::Str(_)))
        }
        struct R<'a>(&'a mut usize, Vec<Expr>);
        impl VisitMut for R<'_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                let lits: Vec<Pat> = match &*p {
                    Pat::Or(o) if o.cases.iter().all(is_str) => o.cases.iter().cloned().collect(),
                    Pat::Lit(_) if is_str(p) => vec![p.clone()],
                    _ => return visit_mut::visit_pat_mut(self, p),
                };
                *self.0 += 1;
                let v = quote::format_ident!("vx_q{}", *self.0);
                self.1.push(parse_quote!((#(#v == #lits)||*)));
                *p = parse_quote!(#v);
            }
        }
        let (mut m, mut n, mut any) = (m.clone(), 0, false);
        for arm in &mut m.arms {
            let mut r = R(&mut n, vec![]);
            r.visit_pat_mut(&mut arm.pat);
            if r.1.is_empty() {
                continue;
            }
            any = true;
            let conds = r.1;
            let g: Expr = match &arm.guard {
                Some((_, g)) => parse_quote!(#(#conds &&)* (#g)),
                None => parse_quote!(#(#conds)&&*),
            };
            arm.guard = Some((Default::default(), Box::new(g)));
        }
        if !any {
            return None;
        }
        self.note("string literals in patterns as guards");
        Some(Expr::Match(m))
    }

    fn slice_match(&mut self, m: &syn::ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| matches!(a.pat, Pat::Slice(_))) {
            return None;
        }
        let v = self.temp("m");
        let x = &m.expr;
        let mut chain: Expr = parse_quote!({ unreached() });
        for arm in m.arms.iter().rev() {
            if arm.guard.is_some() {
                return None;
            }
            let body = &arm.body;
            match &arm.pat {
                Pat::Wild(_) => chain = parse_quote!({ #body }),
                Pat::Ident(i) if i.subpat.is_none() => {
                    let i = &i.ident;
                    chain = parse_quote!({ let #i = #v; #body })
                }
                Pat::Slice(s) => {
                    let mut conds: Vec<Expr> = vec![];
                    let mut binds: Vec<Stmt> = vec![];
                    let n = s.elems.len();
                    let mut open = false;
                    for (i, p) in s.elems.iter().enumerate() {
                        match p {
                            Pat::Rest(_) if i + 1 == n => open = true,
                            Pat::Ident(id) if i + 1 == n && matches!(id.subpat.as_ref().map(|s| &*s.1), Some(Pat::Rest(_))) => {
                                open = true;
                                let (id, at) = (&id.ident, i);
                                binds.push(parse_quote!(let #id = &#v[#at..];));
                            }
                            Pat::Lit(l) => conds.push(parse_quote!(#v[#i] == #l)),
                            Pat::Or(o) => {
                                let mut alt: Vec<Expr> = vec![];
                                for c in &o.cases {
                                    let Pat::Lit(l) = c else { return None };
                                    alt.push(parse_quote!(#v[#i] == #l));
                                }
                                conds.push(parse_quote!((#(#alt)||*)));
                            }
                            Pat::Wild(_) => {}
                            Pat::Ident(id) if id.subpat.is_none() => {
                                let id = &id.ident;
                                binds.push(parse_quote!(let #id = &#v[#i];));
                            }
                            _ => return None,
                        }
                    }
                    let len = if open { n - 1 } else { n };
                    let head: Expr = if open { parse_quote!(#v.len() >= #len) } else { parse_quote!(#v.len() == #len) };
                    chain = parse_quote!(if #head #(&& #conds)* { #(#binds)* #body } else #chain);
                }
                _ => return None,
            }
        }
        self.note("match with slice patterns as an if-chain over length and elements");
        Some(parse_quote!({ let #v = #x; #chain }))
    }

    /// out.write_fmt(format_args!("..")): the pieces, written one after the other until one fails
    fn write_fmt(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let Expr::Macro(mac) = m.args.first()? else { return None };
        if !mac.mac.path.is_ident("format_args") {
            return None;
        }
        let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
        let args = mac.mac.parse_body_with(parser).ok()?;
        let mut args = args.into_iter();
        let Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(f), .. }) = args.next()? else { return None };
        let mut rest: Vec<Expr> = args.collect();
        rest.reverse();
        let (mut pieces, mut lit): (Vec<Expr>, String) = (vec![], String::new());
        let out = &m.receiver;
        let text = f.value();
        let mut cs = text.chars().peekable();
        macro_rules! flush {
            () => {
                if !lit.is_empty() {
                    pieces.push(parse_quote!(#out.write_str(#lit)));
                    lit.clear();
                }
            };
        }
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => {
                    cs.next();
                    lit.push('{');
                }
                '}' if cs.peek() == Some(&'}') => {
                    cs.next();
                    lit.push('}');
                }
                '{' => {
                    let mut name = String::new();
                    loop {
                        match cs.next()? {
                            '}' => break,
                            c => name.push(c),
                        }
                    }
                    flush!();
                    if name.is_empty() {
                        let e = rest.pop()?;
                        pieces.push(parse_quote!(vx_display(&#e, #out)));
                    } else {
                        if !name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                            return None;
                        }
                        let e = format_ident!("{name}");
                        pieces.push(parse_quote!(vx_display(&#e, #out)));
                    }
                }
                c => lit.push(c),
            }
        }
        flush!();
        let mut e = pieces.pop()?;
        for p in pieces.into_iter().rev() {
            e = parse_quote!(match #p { Ok(()) => #e, Err(vx_e) => Err(vx_e) });
        }
        self.note("write_fmt(format_args!(..)) as the writes of its pieces, stopping at the first failure");
        Some(e)
    }
}

/// X[a..] and X[..b]
fn str_slice(e: &Expr) -> Option<Expr> {
    let Expr::Index(i) = e else { return None };
    let Expr::Range(r) = &*i.index else { return None };
    let x = &i.expr;
    match (&r.start, &r.end, &r.limits) {
        (Some(a), None, _) => Some(parse_quote!(vx_slice_from(&#x, #a))),
        (None, Some(b), syn::RangeLimits::HalfOpen(_)) => Some(parse_quote!(vx_slice_to(&#x, #b))),
        _ => None,
    }
}

/// X.iter() or X.iter().rev(), X
fn source(e: &Expr) -> Option<(Expr, bool)> {
    match e {
        Expr::MethodCall(m) if m.method == "rev" => {
            let (x, r) = source(&m.receiver)?;
            Some((x, !r))
        }
        Expr::MethodCall(m) if m.method == "iter" => Some(((*m.receiver).clone(), false)),
        _ => None,
    }
}

fn end_marker(b: &mut syn::Block, k: usize) {
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        if semi.is_none() && !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_) | Expr::While(_) | Expr::Loop(_) | Expr::ForLoop(_)) {
            *semi = Some(Default::default());
        }
    }
    b.stmts.push(parse_quote!(vx_loop_end!(#k);));
}

impl VisitMut for Dialect {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        strip_attrs(a)
    }

    fn visit_visibility_mut(&mut self, v: &mut syn::Visibility) {
        if !matches!(v, syn::Visibility::Inherited) {
            *v = parse_quote!(pub);
        }
    }

    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        let s = squash(&*t);
        if s == "Self::Item" {
            if let Some(i) = &self.item_type {
                *t = i.clone();
            }
        }
        if let Some(n) = self.opts.types.get(&squash(&*t)) {
            let n: syn::Type = syn::parse_str(n).unwrap_or_else(|e| crate::die(format!("type {n}: {e}")));
            self.note(&format!("type {} as {}", squash(&*t), squash(&n)));
            *t = n;
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        if let Some(n) = self.opts.paths.get(&squash(&*p)) {
            let n: syn::Path = syn::parse_str(n).unwrap_or_else(|e| crate::die(format!("path {n}: {e}")));
            self.note(&format!("path {} as {}", squash(&*p), squash(&n)));
            *p = n;
            return;
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        visit_mut::visit_local_mut(self, l);
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            let k = self.kind(&init.expr);
            self.vars.insert(i.ident.to_string(), k);
        }
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Macro(m) = s {
            let mut e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
            let before = squash(&e);
            if !before.starts_with("vx_") {
                self.visit_expr_mut(&mut e);
                if squash(&e) != before {
                    *s = Stmt::Expr(e, m.semi_token);
                }
            }
        }
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        let n = b.stmts.len();
        for (at, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            let k = self.loops;
            let is_loop = matches!(&s, Stmt::Expr(Expr::While(_), _)) || (at + 1 < n && matches!(&s, Stmt::Expr(Expr::Loop(_), _)));
            self.visit_stmt_mut(&mut s);
            out.push(s);
            if is_loop {
                out.push(parse_quote!(vx_loop_after!(#k);));
            }
        }
        b.stmts = out;
        if self.opts.calls.is_empty() {
            return;
        }
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            struct C<'a>(&'a BTreeSet<String>, Vec<String>);
            impl<'a> Visit<'a> for C<'_> {
                fn visit_block(&mut self, _: &'a syn::Block) {}
                fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
                    let n = squash(&c.func);
                    let n = n.rsplit("::").next().unwrap().to_string();
                    if self.0.contains(&n) {
                        self.1.push(n);
                    }
                    syn::visit::visit_expr_call(self, c)
                }
                fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
                    let n = c.method.to_string();
                    if self.0.contains(&n) {
                        self.1.push(n);
                    }
                    syn::visit::visit_expr_method_call(self, c)
                }
            }
            let mut c = C(&self.opts.calls, vec![]);
            c.visit_stmt(&s);
            if let Stmt::Local(syn::Local { pat: Pat::Ident(p), .. }) = &s {
                // `//@opt mark let_x` marks the place where x gets its value
                let n = format!("let_{}", p.ident);
                if self.opts.calls.contains(&n) {
                    c.1.push(n);
                }
            }
            for n in c.1 {
                let n = format_ident!("{n}");
                out.push(parse_quote!(vx_call!(#n);));
            }
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // loops are numbered in the order they start in the source
        match e {
            Expr::ForLoop(f) => {
                let k = self.loops;
                self.loops += 1;
                self.visit_expr_mut(&mut f.expr);
                self.visit_pat_mut(&mut f.pat);
                self.visit_block_mut(&mut f.body);
                if let Some(mut n) = self.for_loop(&f.clone(), k) {
                    match &mut n {
                        Expr::Block(b) => b.block.stmts.push(parse_quote!(vx_loop_after!(#k);)),
                        w => n = parse_quote!({ #w; vx_loop_after!(#k); }),
                    }
                    *e = n;
                }
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_while_mut(self, w);
                end_marker(&mut w.body, k);
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#k);));
                return;
            }
            Expr::Loop(w) => {
                let k = self.loops;
                self.loops += 1;
                visit_mut::visit_expr_loop_mut(self, w);
                end_marker(&mut w.body, k);
                w.body.stmts.insert(0, parse_quote!(vx_loop!(#k);));
                return;
            }
            // the payload of an error that is only a message
            Expr::Call(c) => {
                let n = squash(&c.func);
                if let Some(v) = n.strip_prefix("Error::") {
                    if self.opts.messages.contains(v) && c.args.len() == 1 {
                        let f = &c.func;
                        *e = parse_quote!(#f(vx_message()));
                        self.note("text of error messages dropped");
                        return;
                    }
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Match(m) => { let m = m.clone(); self.slice_match(&m).or_else(|| self.str_match(&m)) }
            Expr::Macro(m) => {
                if m.mac.path.is_ident("format") {
                    self.note("format!(..) as an unspecified string");
                    Some(parse_quote!(vx_message()))
                } else if m.mac.path.is_ident("unreachable") || m.mac.path.is_ident("panic") {
                    self.note("unreachable!() and panic!() must be unreachable");
                    Some(parse_quote!(unreached()))
                } else {
                    None
                }
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::AddAssign(_)) && self.opts.cow.contains(&squash(&b.left)) => {
                let (l, r) = (&b.left, &b.right);
                let n: Expr = match &**l {
                    Expr::Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => {
                        let x = &u.expr;
                        parse_quote!({ let vx_rhs = #r; vx_cow_append(#x, vx_rhs) })
                    }
                    _ => parse_quote!({ let vx_rhs = #r; vx_cow_append(&mut #l, vx_rhs) }),
                };
                self.note("Cow += as a (trusted) function");
                Some(n)
            }
            Expr::Reference(r) if self.opts.str_slice && str_slice(&r.expr).is_some() => {
                self.note("slices of strings as (trusted) functions");
                str_slice(&r.expr)
            }
            Expr::Index(_) if self.opts.str_slice && str_slice(e).is_some() => {
                self.note("slices of strings as (trusted) functions");
                str_slice(e)
            }
            Expr::Binary(b) if self.opts.concat && matches!(b.op, syn::BinOp::Add(_)) => {
                let (l, r) = (&b.left, &b.right);
                self.note("String + &str as a (trusted) function");
                Some(parse_quote!(vx_concat(#l, #r)))
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                let name = m.method.to_string();
                if name == "write_fmt" {
                    self.write_fmt(&m)
                } else if let Some(f) = self.opts.methods.get(&name).cloned() {
                    let by_mut = f.strip_prefix("&mut:");
                    let by_ref = f.strip_prefix('&');
                    let fun = by_mut.or(by_ref).unwrap_or(&f);
                    let fun: syn::Path = syn::parse_str(fun).unwrap();
                    let (r, a) = (&m.receiver, m.args.iter());
                    self.note(&format!(".{name}() as the (trusted) function {}", squash(&fun)));
                    Some(if by_mut.is_some() {
                        parse_quote!(#fun(&mut #r, #(#a),*))
                    } else if by_ref.is_some() {
                        parse_quote!(#fun(&#r, #(#a),*))
                    } else {
                        parse_quote!(#fun(#r, #(#a),*))
                    })
                } else {
                    self.combinator(&m)
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// `self` as the variable vx_self
pub fn rename_self(b: &mut syn::Block) {
    struct R;
    impl VisitMut for R {
        fn visit_path_mut(&mut self, p: &mut syn::Path) {
            if p.is_ident("self") {
                *p = parse_quote!(vx_self);
            }
            visit_mut::visit_path_mut(self, p);
        }
    }
    R.visit_block_mut(b);
    b.stmts.insert(0, parse_quote!(let mut vx_self = self;));
}

#[allow(unused)]
fn _q() {
    let _ = quote!();
}
