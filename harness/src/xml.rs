//! Reference model of XML documents, written from the XML 1.0 and Namespaces in XML
//! recommendations and independent of the code under test: a resolved element tree, a
//! renderer that produces randomly styled documents for a tree, and a strict parser.
use crate::rng::Rng;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";

pub fn xml_char(c: char) -> bool {
    let u = c as u32;
    u == 9 || u == 0xa || u == 0xd || (0x20..=0xd7ff).contains(&u) || (0xe000..=0xfffd).contains(&u) || u >= 0x10000
}

/// How often a field's value may occur in its parent
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Occ {
    One,
    Opt,
    Many,
    /// required, but an empty/absent one is read as a default (direct strings)
    Lax,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// named fields: unknown content is ignored, order of fields is free
    Named,
    /// named fields, the last of which is the direct text
    Direct,
    /// text leaf
    Scalar,
    /// positional children
    Tuple,
    /// element without fields
    Unit,
    /// everything is significant
    Any,
}

#[derive(Clone, Debug)]
pub struct At {
    pub ns: String,
    pub name: String,
    pub val: String,
    pub occ: Occ,
    pub field: u32,
}

#[derive(Clone, Debug)]
pub struct El {
    pub ns: String,
    pub name: String,
    pub attrs: Vec<At>,
    pub kids: Vec<Node>,
    pub occ: Occ,
    pub kind: Kind,
    pub field: u32,
    /// the exact text matters only up to the type's own parsing (numbers)
    pub numeric: bool,
}

#[derive(Clone, Debug)]
pub enum Node {
    El(El),
    Text(String),
}

impl El {
    pub fn new(ns: &str, name: &str, kind: Kind) -> Self {
        El { ns: ns.into(), name: name.into(), attrs: vec![], kids: vec![], occ: Occ::One, kind, field: 0, numeric: false }
    }
    pub fn leaf(ns: &str, name: &str, text: &str) -> Self {
        let mut e = El::new(ns, name, Kind::Scalar);
        if !text.is_empty() {
            e.kids.push(Node::Text(text.into()));
        }
        e
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
    pub fn text(&self) -> String {
        self.kids
            .iter()
            .map(|k| match k {
                Node::Text(t) => t.as_str(),
                _ => "",
            })
            .collect()
    }
    pub fn depth(&self) -> usize {
        1 + self.els().map(|e| e.depth()).max().unwrap_or(0)
    }
    pub fn size(&self) -> usize {
        1 + self.els().map(|e| e.size()).sum::<usize>()
    }
    /// all elements, as index paths
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(e: &El, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(cur.clone());
            for (i, k) in e.kids.iter().enumerate() {
                if let Node::El(c) = k {
                    cur.push(i);
                    go(c, cur, out);
                    cur.pop();
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
    pub fn at(&mut self, path: &[usize]) -> &mut El {
        let mut e = self;
        for &i in path {
            match &mut e.kids[i] {
                Node::El(c) => e = c,
                _ => unreachable!(),
            }
        }
        e
    }
    /// Order children by field (stable), attributes by field
    pub fn canonical(&self) -> El {
        let mut e = self.clone();
        if matches!(e.kind, Kind::Named | Kind::Direct) {
            e.kids.sort_by_key(|k| match k {
                Node::El(c) => c.field,
                Node::Text(_) => u32::MAX,
            });
            e.attrs.sort_by_key(|a| a.field);
        }
        for k in &mut e.kids {
            if let Node::El(c) = k {
                *c = c.canonical();
            }
        }
        e
    }
}

/// Structural equality of what the tree says (not of the test metadata). Adjacent text is
/// merged, empty text dropped.
pub fn same(a: &El, b: &El) -> Result<(), String> {
    fn name(e: &El) -> String {
        format!("{{{}}}{}", e.ns, e.name)
    }
    if a.ns != b.ns || a.name != b.name {
        return Err(format!("element {} vs {}", name(a), name(b)));
    }
    if a.attrs.len() != b.attrs.len() {
        return Err(format!("{}: {} attributes vs {}", name(a), a.attrs.len(), b.attrs.len()));
    }
    for (x, y) in a.attrs.iter().zip(&b.attrs) {
        if (&x.ns, &x.name, &x.val) != (&y.ns, &y.name, &y.val) {
            return Err(format!("{}: attribute {{{}}}{}={:?} vs {{{}}}{}={:?}", name(a), x.ns, x.name, x.val, y.ns, y.name, y.val));
        }
    }
    let norm = |e: &El| -> Vec<Node> {
        let mut out: Vec<Node> = vec![];
        for k in &e.kids {
            match (k, out.last_mut()) {
                (Node::Text(t), _) if t.is_empty() => {}
                (Node::Text(t), Some(Node::Text(p))) => p.push_str(t),
                _ => out.push(k.clone()),
            }
        }
        out
    };
    let (p, q) = (norm(a), norm(b));
    if p.len() != q.len() {
        return Err(format!("{}: {} child nodes vs {}", name(a), p.len(), q.len()));
    }
    for (x, y) in p.iter().zip(&q) {
        match (x, y) {
            (Node::Text(s), Node::Text(t)) if s == t => {}
            (Node::El(s), Node::El(t)) => same(s, t).map_err(|e| format!("{} > {}", name(a), e))?,
            (Node::Text(s), Node::Text(t)) => return Err(format!("{}: text {s:?} vs {t:?}", name(a))),
            _ => return Err(format!("{}: text vs element", name(a))),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------
// Renderer

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// comments, CDATA, references, odd whitespace
    pub noise: bool,
    /// unusual prefixes, redundant declarations
    pub ns_noise: bool,
    /// whitespace text between the children of Named elements
    pub pretty: bool,
}

pub const PLAIN: Style = Style { noise: false, ns_noise: false, pretty: false };
pub const NOISY: Style = Style { noise: true, ns_noise: true, pretty: true };

pub struct Render<'r> {
    pub rng: &'r mut Rng,
    pub style: Style,
    pub out: String,
    /// (prefix, uri); prefix "" is the default namespace
    pub scope: Vec<(String, String)>,
    pub next_prefix: usize,
}

pub fn render(e: &El, rng: &mut Rng, style: Style) -> String {
    let mut r = Render { rng, style, out: String::new(), scope: vec![], next_prefix: 0 };
    if style.noise {
        if r.rng.one(3) {
            r.out.push_str(*r.rng.pick(&["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>\n", "<?xml version=\"1.0\" standalone=\"yes\" ?> "]));
        }
        if r.rng.one(4) {
            r.comment();
        }
    }
    r.element(e);
    r.out
}

fn quote_free(s: &str, q: char) -> bool {
    !s.contains(q)
}

impl Render<'_> {
    fn lookup(&self, prefix: &str) -> Option<&str> {
        self.scope.iter().rev().find(|(p, _)| p == prefix).map(|(_, u)| u.as_str())
    }
    fn prefixes_for(&self, ns: &str) -> Vec<String> {
        let mut seen: Vec<String> = vec![];
        for (p, u) in self.scope.iter().rev() {
            if p.is_empty() {
                continue;
            }
            if u == ns && self.lookup(p) == Some(u) && !seen.contains(p) {
                seen.push(p.clone());
            }
        }
        seen
    }
    fn ws(&mut self, min: usize) -> String {
        if !self.style.noise || self.rng.one(2) {
            return " ".repeat(min);
        }
        let n = self.rng.range(min, min + 2);
        (0..n).map(|_| *self.rng.pick(&[' ', '\n', '\t', '\r'])).collect()
    }
    pub fn comment(&mut self) {
        let c = *self.rng.pick(&["<!-- c -->", "<!---->", "<!-- <a>&</a> ]]> -->", "<!-- é &amp; -->", "<!--</x>-->"]);
        self.out.push_str(c);
    }
    pub fn reference(&mut self, c: char) -> String {
        let u = c as u32;
        let named = match c {
            '&' => Some("&amp;"),
            '<' => Some("&lt;"),
            '>' => Some("&gt;"),
            '"' => Some("&quot;"),
            '\'' => Some("&apos;"),
            _ => None,
        };
        match (named, self.rng.below(3)) {
            (Some(n), 0 | 1) => n.to_string(),
            _ => {
                // at most eight characters between & and ;
                match self.rng.below(4) {
                    0 => format!("&#{u};"),
                    1 => {
                        let d = u.to_string();
                        let pad = self.rng.range(0, 7 - d.len());
                        format!("&#{}{};", "0".repeat(pad), d)
                    }
                    2 => format!("&#x{u:X};"),
                    _ => {
                        let d = if self.rng.bool() { format!("{u:x}") } else { format!("{u:X}") };
                        let pad = self.rng.range(0, 6 - d.len());
                        format!("&#x{}{};", "0".repeat(pad), d)
                    }
                }
            }
        }
    }
    pub fn chars(&mut self, s: &str, quote: Option<char>) -> String {
        let mut out = String::new();
        for c in s.chars() {
            let must = match c {
                '&' | '<' => true,
                '>' => quote.is_none() && (out.is_empty() || out.ends_with(']')),
                _ => Some(c) == quote,
            };
            if must || (self.style.noise && self.rng.one(7)) {
                let r = self.reference(c);
                out.push_str(&r);
            } else {
                out.push(c);
            }
        }
        out
    }
    pub fn text(&mut self, s: &str) {
        if !self.style.noise || self.rng.one(2) {
            let t = self.chars(s, None);
            self.out.push_str(&t);
            return;
        }
        // split into pieces
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        let mut last_raw = false;
        while i < cs.len() {
            let n = self.rng.range(1, cs.len() - i);
            let piece: String = cs[i..i + n].iter().collect();
            i += n;
            if self.rng.one(3) && !piece.contains("]]>") && !piece.ends_with(']') {
                self.out.push_str("<![CDATA[");
                self.out.push_str(&piece);
                self.out.push_str("]]>");
                last_raw = false;
            } else {
                if last_raw {
                    self.comment();
                }
                let t = self.chars(&piece, None);
                self.out.push_str(&t);
                last_raw = true;
            }
            if self.rng.one(5) {
                self.comment();
                last_raw = false;
            }
        }
    }
    fn fresh(&mut self) -> String {
        self.next_prefix += 1;
        match self.rng.below(5) {
            0 => "p".into(),
            1 => "q".into(),
            2 => format!("n{}", self.next_prefix),
            3 => "xs.d-1".into(),
            _ => "_x".into(),
        }
    }
    pub fn element(&mut self, e: &El) {
        let mark = self.scope.len();
        // declarations made on this element
        let mut decls: Vec<(String, String)> = vec![];
        let noisy = self.style.ns_noise;
        let declare = |r: &mut Self, decls: &mut Vec<(String, String)>, p: String, u: &str| {
            decls.push((p.clone(), u.to_string()));
            r.scope.push((p, u.to_string()));
        };
        if noisy && self.rng.one(6) {
            let p = self.fresh();
            let u = *self.rng.pick(&["urn:noise", "urn:a", "urn:b"]);
            declare(self, &mut decls, p, u);
        }
        if noisy && self.rng.one(8) && decls.iter().all(|d| !d.0.is_empty()) {
            // pointless redeclaration of the default namespace
            let u = self.lookup("").unwrap_or("").to_string();
            declare(self, &mut decls, String::new(), &u);
        }
        // element name
        let mut prefix: Option<String> = None;
        let default_ok = |r: &Self| r.lookup("").unwrap_or("") == e.ns;
        let have = self.prefixes_for(&e.ns);
        if e.ns == XML_NS {
            prefix = Some("xml".into());
        } else if e.ns.is_empty() {
            if !default_ok(self) {
                if decls.iter().any(|d| d.0.is_empty()) {
                    decls.retain(|d| !d.0.is_empty());
                    let from = mark;
                    let mut i = from;
                    while i < self.scope.len() {
                        if self.scope[i].0.is_empty() {
                            self.scope.remove(i);
                        } else {
                            i += 1;
                        }
                    }
                }
                if !default_ok(self) {
                    declare(self, &mut decls, String::new(), "");
                }
            }
        } else if !have.is_empty() && (!default_ok(self) || (noisy && self.rng.one(2))) && !(noisy && self.rng.one(5)) {
            prefix = Some(self.rng.pick(&have).clone());
        } else if default_ok(self) && !(noisy && self.rng.one(4)) {
        } else if noisy && self.rng.bool() {
            // bind a prefix, possibly shadowing an outer one
            let mut p = self.fresh();
            while decls.iter().any(|d| d.0 == p) {
                self.next_prefix += 1;
                p = format!("s{}", self.next_prefix);
            }
            declare(self, &mut decls, p.clone(), &e.ns);
            prefix = Some(p);
        } else if decls.iter().any(|d| d.0.is_empty()) {
            self.next_prefix += 1;
            let p = format!("e{}", self.next_prefix);
            declare(self, &mut decls, p.clone(), &e.ns);
            prefix = Some(p);
        } else {
            declare(self, &mut decls, String::new(), &e.ns);
        }
        // attributes: reserve prefixes first (declarations on this element must not clash)
        let mut attrs: Vec<(String, String)> = vec![];
        for a in &e.attrs {
            let qname = if a.ns.is_empty() {
                a.name.clone()
            } else if a.ns == XML_NS {
                format!("xml:{}", a.name)
            } else {
                let have = self.prefixes_for(&a.ns);
                let p = match have.is_empty() {
                    false => self.rng.pick(&have).clone(),
                    true => {
                        self.next_prefix += 1;
                        let p = format!("a{}", self.next_prefix);
                        declare(self, &mut decls, p.clone(), &a.ns);
                        p
                    }
                };
                format!("{p}:{}", a.name)
            };
            attrs.push((qname, a.val.clone()));
        }
        let qname = match &prefix {
            Some(p) => format!("{p}:{}", e.name),
            None => e.name.clone(),
        };
        self.out.push('<');
        self.out.push_str(&qname);
        let mut items: Vec<(String, String, bool)> = decls
            .iter()
            .map(|(p, u)| (if p.is_empty() { "xmlns".to_string() } else { format!("xmlns:{p}") }, u.clone(), true))
            .collect();
        items.extend(attrs.into_iter().map(|(q, v)| (q, v, false)));
        if noisy && self.rng.bool() {
            // declarations may come in any place; keep the relative order of attributes
            let n = items.len();
            let (mut d, mut a): (Vec<_>, Vec<_>) = items.into_iter().partition(|x| x.2);
            self.rng.shuffle(&mut d);
            items = vec![];
            for _ in 0..n {
                if a.is_empty() || (!d.is_empty() && self.rng.bool()) {
                    items.push(d.pop().unwrap());
                } else {
                    items.push(a.remove(0));
                }
            }
        }
        for (q, v, ns) in items {
            let w = self.ws(1);
            self.out.push_str(&w);
            self.out.push_str(&q);
            let (w1, w2) = if self.rng.one(6) { (self.ws(0), self.ws(0)) } else { (String::new(), String::new()) };
            self.out.push_str(&w1);
            self.out.push('=');
            self.out.push_str(&w2);
            let quote = if self.style.noise && self.rng.one(3) { '\'' } else { '"' };
            self.out.push(quote);
            if ns {
                debug_assert!(quote_free(&v, quote));
                self.out.push_str(&v);
            } else {
                let t = self.chars(&v, Some(quote));
                self.out.push_str(&t);
            }
            self.out.push(quote);
        }
        let empty = e.kids.iter().all(|k| matches!(k, Node::Text(t) if t.is_empty()));
        if empty && (self.rng.bool()) {
            let w = self.ws(0);
            self.out.push_str(&w);
            self.out.push_str("/>");
        } else {
            let w = self.ws(0);
            self.out.push_str(&w);
            self.out.push('>');
            let pretty = self.style.pretty && matches!(e.kind, Kind::Named | Kind::Unit);
            for k in &e.kids {
                if pretty && self.rng.bool() {
                    let w = self.ws(1);
                    self.out.push_str(&w);
                }
                if self.style.noise && self.rng.one(8) {
                    self.comment();
                }
                match k {
                    Node::Text(t) => self.text(t),
                    Node::El(c) => self.element(c),
                }
            }
            if pretty && self.rng.bool() {
                self.out.push('\n');
            }
            if self.style.noise && self.rng.one(8) {
                self.comment();
            }
            self.out.push_str("</");
            self.out.push_str(&qname);
            let w = self.ws(0);
            self.out.push_str(&w);
            self.out.push('>');
        }
        self.scope.truncate(mark);
    }
}

// ---------------------------------------------------------------------------------------
// Strict parser

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    /// truncated, or end tag without matching start tag
    Structure(String),
    /// a reference that must be refused
    Reference(String),
    /// undeclared prefix
    Prefix(String),
    /// depth, attribute count or declaration count over the limit
    Limit(String),
    /// anything else: no verdict on what the library should do
    Other(String),
}

#[derive(Clone, Copy, Debug)]
pub struct Lim {
    pub levels: usize,
    pub attrs: usize,
    pub decls: usize,
}
pub const DEFAULT_LIM: Lim = Lim { levels: 32, attrs: 64, decls: 32 };

pub fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        out.push_str(&rest[..i]);
        rest = &rest[i + 1..];
        let Some(j) = rest.find(';') else { return Err(rest.into()) };
        let name = &rest[..j];
        rest = &rest[j + 1..];
        out.push(reference(name).ok_or_else(|| name.to_string())?);
    }
    out.push_str(rest);
    Ok(out)
}

pub fn reference(name: &str) -> Option<char> {
    if name.len() > 8 {
        return None;
    }
    match name {
        "amp" => return Some('&'),
        "lt" => return Some('<'),
        "gt" => return Some('>'),
        "quot" => return Some('"'),
        "apos" => return Some('\''),
        _ => {}
    }
    let num = name.strip_prefix('#')?;
    let (digits, radix) = match num.strip_prefix(['x', 'X']) {
        Some(h) => (h, 16),
        None => (num, 10),
    };
    if digits.is_empty() {
        return None;
    }
    let mut v: u32 = 0;
    for c in digits.chars() {
        if !c.is_ascii() {
            return None;
        }
        v = v.checked_mul(radix)?.checked_add(c.to_digit(radix)?)?;
    }
    char::from_u32(v).filter(|c| xml_char(*c))
}

struct Parser<'a> {
    s: &'a str,
    i: usize,
    scope: Vec<(String, String)>,
    lim: Lim,
    resolve: bool,
}

/// Parse a whole document. `resolve` decides if undeclared prefixes are an error.
pub fn parse(s: &str, lim: Lim) -> Result<El, Bad> {
    let mut p = Parser { s, i: 0, scope: vec![], lim, resolve: true };
    if p.rest().starts_with("<?xml ") {
        let Some(j) = p.rest().find("?>") else { return Err(Bad::Other("decl".into())) };
        let d = &p.rest()[..j + 2];
        if !["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" standalone=\"yes\" ?>"].contains(&d) {
            return Err(Bad::Other("decl".into()));
        }
        p.i += j + 2;
    }
    loop {
        p.skip_ws();
        if p.rest().starts_with("<!--") {
            p.comment()?;
        } else {
            break;
        }
    }
    if p.rest().is_empty() {
        return Err(Bad::Structure("no root".into()));
    }
    let e = p.element(1)?;
    if !p.rest().is_empty() {
        return Err(Bad::Other("trailing content".into()));
    }
    Ok(e)
}

impl<'a> Parser<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn skip_ws(&mut self) -> usize {
        let r = self.rest();
        let n = r.len() - r.trim_start_matches([' ', '\t', '\n', '\r']).len();
        self.i += n;
        n
    }
    fn eof(&self) -> Result<(), Bad> {
        match self.rest().is_empty() {
            true => Err(Bad::Structure("truncated".into())),
            false => Ok(()),
        }
    }
    fn comment(&mut self) -> Result<(), Bad> {
        let body = &self.rest()[4..];
        let Some(j) = body.find("--") else { return Err(Bad::Structure("truncated comment".into())) };
        if !body[j..].starts_with("-->") {
            // "--" inside a comment (or cut off right there)
            return Err(if body.len() <= j + 2 { Bad::Structure("truncated comment".into()) } else { Bad::Other("--".into()) });
        }
        if !body[..j].chars().all(xml_char) || body[..j].ends_with('-') {
            return Err(Bad::Other("comment".into()));
        }
        self.i += 4 + j + 3;
        Ok(())
    }
    fn ncname(&mut self) -> Result<String, Bad> {
        self.eof()?;
        let r = self.rest();
        let n = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '-' || c == '.')).unwrap_or(r.len());
        let name = &r[..n];
        if n == 0 || !(name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')) {
            return Err(Bad::Other(format!("name at {:?}", &r.chars().take(8).collect::<String>())));
        }
        if r[n..].starts_with(|c: char| !c.is_ascii()) {
            return Err(Bad::Other("non-ascii name".into()));
        }
        self.i += n;
        Ok(name.into())
    }
    fn qname(&mut self) -> Result<(String, String), Bad> {
        let a = self.ncname()?;
        if self.rest().starts_with(':') {
            self.i += 1;
            let b = self.ncname()?;
            if self.rest().starts_with(':') {
                return Err(Bad::Other("colons".into()));
            }
            return Ok((a, b));
        }
        Ok((String::new(), a))
    }
    fn lookup(&self, prefix: &str) -> Option<String> {
        if prefix == "xml" {
            return Some(XML_NS.into());
        }
        self.scope.iter().rev().find(|(p, _)| p == prefix).map(|(_, u)| u.clone())
    }
    fn element(&mut self, depth: usize) -> Result<El, Bad> {
        if !self.rest().starts_with('<') {
            return Err(Bad::Other("expected element".into()));
        }
        self.i += 1;
        let (prefix, local) = self.qname()?;
        if depth > self.lim.levels {
            return Err(Bad::Limit("levels".into()));
        }
        let mark = self.scope.len();
        let mut raw: Vec<((String, String), String)> = vec![];
        let mut decls = 0;
        let empty;
        loop {
            let w = self.skip_ws();
            self.eof()?;
            if self.rest().starts_with('>') {
                self.i += 1;
                empty = false;
                break;
            }
            if self.rest().starts_with('/') {
                if self.rest().len() == 1 {
                    return Err(Bad::Structure("truncated".into()));
                }
                if !self.rest().starts_with("/>") {
                    return Err(Bad::Other("slash".into()));
                }
                self.i += 2;
                empty = true;
                break;
            }
            if w == 0 {
                return Err(Bad::Other("no space before attribute".into()));
            }
            let q = self.qname()?;
            self.skip_ws();
            self.eof()?;
            if !self.rest().starts_with('=') {
                return Err(Bad::Other("=".into()));
            }
            self.i += 1;
            self.skip_ws();
            self.eof()?;
            let quote = self.rest().chars().next().unwrap();
            if quote != '"' && quote != '\'' {
                return Err(Bad::Other("quote".into()));
            }
            let body = &self.rest()[1..];
            let Some(j) = body.find(quote) else {
                return Err(match body.contains('<') {
                    true => Bad::Other("<".into()),
                    false => Bad::Structure("truncated".into()),
                });
            };
            let val = &body[..j];
            if val.contains('<') || !val.chars().all(xml_char) {
                return Err(Bad::Other("value".into()));
            }
            self.i += j + 2;
            if q.0 == "xmlns" || (q.0.is_empty() && q.1 == "xmlns") {
                if val.contains('&') || (q.0 == "xmlns" && (val.is_empty() || q.1 == "xmlns" || q.1 == "xml")) {
                    return Err(Bad::Other("declaration".into()));
                }
                let p = if q.0.is_empty() { String::new() } else { q.1 };
                if self.scope[mark..].iter().any(|(x, _)| *x == p) {
                    return Err(Bad::Other("duplicate declaration".into()));
                }
                if !p.is_empty() {
                    decls += 1;
                    if decls > self.lim.decls {
                        return Err(Bad::Limit("declarations".into()));
                    }
                }
                self.scope.push((p, val.into()));
            } else {
                if raw.len() >= self.lim.attrs {
                    return Err(Bad::Limit("attributes".into()));
                }
                let val = decode(val).map_err(Bad::Reference)?;
                raw.push((q, val));
            }
        }
        let ns = match self.lookup(&prefix) {
            Some(u) => u,
            None if prefix.is_empty() => String::new(),
            None if !self.resolve => String::new(),
            None => return Err(Bad::Prefix(prefix)),
        };
        let mut e = El::new(&ns, &local, Kind::Any);
        for (k, ((p, l), val)) in raw.iter().enumerate() {
            let ns = match p.is_empty() {
                true => String::new(),
                false => match self.lookup(p) {
                    Some(u) => u,
                    None => return Err(Bad::Prefix(p.clone())),
                },
            };
            e.attrs.push(At { ns, name: l.clone(), val: val.clone(), occ: Occ::One, field: k as u32 });
        }
        for (i, a) in e.attrs.iter().enumerate() {
            if e.attrs[..i].iter().any(|b| b.ns == a.ns && b.name == a.name) {
                return Err(Bad::Other("duplicate attribute".into()));
            }
        }
        if empty {
            self.scope.truncate(mark);
            return Ok(e);
        }
        loop {
            self.eof()?;
            let r = self.rest();
            if r.starts_with("<!--") {
                self.comment()?;
            } else if let Some(body) = r.strip_prefix("<![CDATA[") {
                let Some(j) = body.find("]]>") else { return Err(Bad::Structure("truncated CDATA".into())) };
                if !body[..j].chars().all(xml_char) {
                    return Err(Bad::Other("char".into()));
                }
                e.kids.push(Node::Text(body[..j].into()));
                self.i += 9 + j + 3;
            } else if r.starts_with("</") {
                self.i += 2;
                let (p, l) = self.qname()?;
                if (&p, &l) != (&prefix, &local) {
                    // the tag may be cut off in the middle of its name
                    return Err(Bad::Structure(format!("</{p}:{l}> does not close <{prefix}:{local}>")));
                }
                self.skip_ws();
                self.eof()?;
                if !self.rest().starts_with('>') {
                    return Err(Bad::Other("end tag".into()));
                }
                self.i += 1;
                break;
            } else if r.starts_with("<!") || r.starts_with("<?") {
                if "<!--".starts_with(r) || "<![CDATA[".starts_with(r) || r == "<?" {
                    return Err(Bad::Structure("truncated".into()));
                }
                return Err(Bad::Other("markup".into()));
            } else if r == "<" {
                return Err(Bad::Structure("truncated".into()));
            } else if r.starts_with('<') {
                let c = self.element(depth + 1)?;
                e.kids.push(Node::El(c));
            } else {
                let n = r.find('<').unwrap_or(r.len());
                let t = &r[..n];
                if !t.chars().all(xml_char) || t.contains("]]>") {
                    return Err(Bad::Other("text".into()));
                }
                let d = decode(t).map_err(Bad::Reference)?;
                self.i += n;
                e.kids.push(Node::Text(d));
            }
        }
        self.scope.truncate(mark);
        Ok(e)
    }
}
