//! One randomised check per property, on the real crate.
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::fmt;

use instant_xml::de::{Limits, Node as DNode};
use instant_xml::{from_str, to_string, AnyElement, Deserializer, Error, FromXml, ToXml};

use crate::rng::Rng;
use crate::types::*;
use crate::xml::{self, decode, parse, render, same, At, Bad, El, Kind, Lim, Node, Occ, Style, DEFAULT_LIM, NOISY, PLAIN};
use crate::{fail, Fail, Prop, Stats, R};

thread_local! {
    /// input of the library call in progress, for panics
    pub static LAST: RefCell<String> = const { RefCell::new(String::new()) };
    /// hashes of the inputs this thread has used
    pub static SEEN: RefCell<std::collections::HashSet<u64>> = RefCell::new(Default::default());
}
pub fn last(s: &str) {
    if s.len() >= 16 {
        let mut h = 0xcbf29ce484222325u64;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        SEEN.with(|m| {
            let mut m = m.borrow_mut();
            if m.len() < 1 << 20 {
                m.insert(h);
            }
        });
    }
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        l.clear();
        l.push_str(s);
    });
}

pub const PROPS: &[Prop] = &[
    Prop { id: "C01", case: c01, quick: 600000, thorough: 2_000_000, findings: &[] },
    Prop { id: "C02", case: c02, quick: 600000, thorough: 2_000_000, findings: &[] },
    Prop { id: "C03", case: c03, quick: 600000, thorough: 2_000_000, findings: &[] },
    Prop { id: "C04", case: c04, quick: 40000, thorough: 400_000, findings: &[] },
    Prop { id: "C05", case: c05, quick: 120000, thorough: 400_000, findings: &[] },
    Prop { id: "C06", case: c06, quick: 400000, thorough: 1_500_000, findings: &[] },
    Prop { id: "C07", case: c07, quick: 400000, thorough: 1_500_000, findings: &[("C07-uri-reference", "references in namespace URIs are compared undecoded: <a xmlns=\"urn:x&amp;y\"/> is not in namespace urn:x&y", find_uri)] },
    Prop { id: "C08", case: crate::ser_model::c08, quick: 600000, thorough: 2_000_000, findings: &[] },
    Prop { id: "C09", case: crate::ser_model::c09, quick: 600000, thorough: 2_000_000, findings: &[] },
    Prop { id: "C10", case: c10, quick: 400000, thorough: 1_500_000, findings: &[] },
    Prop { id: "C11", case: c11, quick: 400000, thorough: 1_500_000, findings: &[] },
    Prop { id: "C12", case: c12, quick: 400000, thorough: 2_000_000, findings: &[] },
    Prop { id: "C13", case: c13, quick: 300000, thorough: 1_000_000, findings: &[("C13-ns-attribute", "a scalar enum with ns(...) written as an attribute is not read back", find_enum_attr)] },
    Prop { id: "C14", case: c14, quick: 200000, thorough: 800_000, findings: &[] },
    Prop { id: "C15", case: c15, quick: 400000, thorough: 1_500_000, findings: &[] },
    Prop { id: "C16", case: c16, quick: 100000, thorough: 300_000, findings: &[] },
    Prop { id: "C17", case: c17, quick: 400000, thorough: 1_500_000, findings: &[] },
    Prop { id: "C18", case: c18, quick: 400000, thorough: 1_500_000, findings: &[("C18-tuple-vec", "a tuple struct with a Vec field of elements reads only the first element back", find_tuple_vec)] },
];

fn read(t: &Ty, s: &str) -> Result<Back, Error> {
    last(s);
    (t.read)(s)
}
fn gen(t: &Ty, g: &mut Rng) -> Val {
    last(t.name);
    (t.gen)(g)
}
fn from<'x, T: FromXml<'x>>(s: &'x str) -> Result<T, Error> {
    last(s);
    from_str(s)
}
fn style(g: &mut Rng) -> Style {
    match g.below(4) {
        0 => PLAIN,
        1 => Style { noise: false, ns_noise: true, pretty: true },
        _ => NOISY,
    }
}
fn any_ty(i: u64, g: &mut Rng) -> &'static Ty {
    let _ = g;
    // shifted in each round, so that every type meets every remainder of i
    &TYPES[(i as usize + i as usize / TYPES.len()) % TYPES.len()]
}
/// read must give the value `v`
fn expect_value(t: &Ty, doc: &str, v: &Val, why: &str) -> R {
    match read(t, doc) {
        Ok(b) if b.dbg == v.dbg => Ok(()),
        Ok(b) => fail!(doc, "{why}: {} read as {} instead of {}", t.name, b.dbg, v.dbg),
        Err(e) => fail!(doc, "{why}: {} refused with {e:?} instead of reading {}", t.name, v.dbg),
    }
}

// --- C01 ---------------------------------------------------------------------------------

pub fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
    o
}
/// raw attribute values and non-empty text runs of a document, in order
fn raw_values(doc: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = doc;
    while let Some(i) = rest.find('<') {
        if i > 0 {
            out.push(rest[..i].to_string());
        }
        rest = &rest[i + 1..];
        let mut quote = None;
        let mut start = 0;
        let mut end = rest.len();
        for (j, c) in rest.char_indices() {
            match quote {
                None if c == '"' || c == '\'' => {
                    quote = Some(c);
                    start = j + 1;
                }
                None if c == '>' => {
                    end = j + 1;
                    break;
                }
                Some(q) if c == q => {
                    let v = &rest[start..j];
                    if !rest[..start].trim_end_matches(['"', '\'', '=']).ends_with("xmlns") {
                        out.push(v.to_string());
                    }
                    quote = None;
                }
                _ => {}
            }
        }
        rest = &rest[end..];
    }
    if !rest.is_empty() {
        out.push(rest.to_string());
    }
    out
}

#[derive(Debug, PartialEq, ToXml, FromXml)]
struct Esc<T> {
    #[xml(attribute)]
    a: T,
    e: T,
    v: Vec<T>,
    #[xml(attribute)]
    o: Option<T>,
    oe: Option<T>,
}
#[derive(Debug, PartialEq, ToXml)]
#[xml(rename = "Esc")]
struct EscRef<'x> {
    #[xml(attribute)]
    a: &'x str,
    e: &'x str,
    v: Vec<&'x str>,
    #[xml(attribute)]
    o: Option<&'x str>,
    oe: Option<&'x str>,
}
#[derive(Debug, PartialEq, ToXml, FromXml)]
struct EscDirect<T> {
    #[xml(attribute)]
    a: T,
    #[xml(direct)]
    d: T,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "EscDirect")]
struct DirectBorrow<'a> {
    #[xml(attribute)]
    a: Cow<'a, str>,
    #[xml(direct)]
    d: Cow<'a, str>,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "Esc")]
struct EscBorrow<'a> {
    #[xml(attribute)]
    a: Cow<'a, str>,
    #[xml(borrow)]
    e: Cow<'a, str>,
    v: Vec<Cow<'a, str>>,
    #[xml(attribute)]
    o: Option<String>,
    #[xml(borrow)]
    oe: Option<Cow<'a, str>>,
}

fn esc_check(doc: &str, expected: Vec<&str>) -> R {
    let want: Vec<String> = expected.iter().map(|s| escape(s)).collect();
    let got = raw_values(doc);
    if got != want {
        fail!(doc, "strings {expected:?} written as {got:?} instead of {want:?}");
    }
    Ok(())
}
fn written<T: ToXml + ?Sized>(v: &T, dbg: &dyn fmt::Debug) -> Result<String, Fail> {
    last(&format!("{dbg:?}"));
    to_string(v).map_err(|e| Fail { what: format!("refused to write: {e:?}"), input: format!("{dbg:?}") })
}

fn c01(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    macro_rules! esc_as {
        ($t:ty, $kind:literal, $conv:expr, $gen:expr) => {{
            st.hit($kind);
            let strs: Vec<String> = (0..5).map(|_| $gen).collect();
            let conv: fn(&str) -> $t = $conv;
            let v = Esc::<$t> { a: conv(&strs[0]), e: conv(&strs[1]), v: vec![conv(&strs[2]), conv(&strs[3])], o: Some(conv(&strs[3])), oe: Some(conv(&strs[4])) };
            let doc = written(&v, &v)?;
            let mut exp: Vec<&str> = vec![&strs[0], &strs[3]];
            exp.extend([&strs[1], &strs[2], &strs[3], &strs[4]].iter().map(|s| s.as_str()).filter(|s| !s.is_empty()));
            esc_check(&doc, exp)?;
            match from::<Esc<$t>>(&doc) {
                Ok(b) if b == v => {}
                b => fail!(doc, "{v:?} read back as {b:?}"),
            }
            (doc, strs)
        }};
    }
    match i % 7 {
        0 => {
            let (doc, strs) = esc_as!(String, "String", |s| s.to_string(), g.string());
            match from::<EscBorrow<'_>>(&doc) {
                Ok(b) if b.e == strs[1] && b.oe.as_deref() == Some(&strs[4]) && b.a == strs[0] && b.v == [&*strs[2], &*strs[3]] => {}
                b => fail!(doc, "borrowed fields read back as {b:?}"),
            }
        }
        1 => {
            esc_as!(Cow<'static, str>, "Cow", |s| either_cow(s.to_string()), g.string());
        }
        2 => {
            esc_as!(char, "char", |s| s.chars().next().unwrap(), g.xml_char().to_string());
        }
        3 => {
            esc_as!(Box<String>, "Box", |s| Box::new(s.to_string()), g.string());
        }
        4 => {
            st.hit("str");
            let s: Vec<String> = (0..4).map(|_| g.string()).collect();
            let v = EscRef { a: &s[0], e: &s[1], v: vec![&s[2], &s[3]], o: Some(&s[2]), oe: Some(&s[3]) };
            let doc = written(&v, &v)?;
            let mut exp: Vec<&str> = vec![&s[0], &s[2]];
            exp.extend([&s[1], &s[2], &s[3], &s[3]].iter().map(|s| s.as_str()).filter(|s| !s.is_empty()));
            esc_check(&doc, exp)?;
            match from::<Esc<String>>(&doc) {
                Ok(b) if b.a == s[0] && b.e == s[1] && b.v == [&*s[2], &*s[3]] => {}
                b => fail!(doc, "{v:?} read back as {b:?}"),
            }
        }
        5 => {
            st.hit("direct");
            let v = EscDirect { a: g.string(), d: g.string() };
            let doc = written(&v, &v)?;
            let mut exp: Vec<&str> = vec![&v.a];
            if !v.d.is_empty() {
                exp.push(&v.d);
            }
            esc_check(&doc, exp)?;
            match from::<EscDirect<String>>(&doc) {
                Ok(b) if b == v => {}
                b => fail!(doc, "{v:?} read back as {b:?}"),
            }
            match from::<DirectBorrow<'_>>(&doc) {
                Ok(b) if b.a == v.a && b.d == v.d => {}
                b => fail!(doc, "{v:?} read back as {b:?}"),
            }
        }
        _ => {
            st.hit("all types");
            let t = any_ty(i / 7, g);
            let v = gen(t, g);
            let doc = v.written.clone().map_err(|e| Fail { what: format!("refused to write: {e:?}"), input: v.dbg.clone() })?;
            match parse(&doc, Lim { levels: 1000, ..DEFAULT_LIM }) {
                Ok(p) => {
                    if let Err(e) = same(&p, &v.tree) {
                        fail!(doc, "written document does not hold the value's strings: {e}");
                    }
                }
                Err(e) => fail!(doc, "not well-formed: {e:?}"),
            }
            expect_value(t, &doc, &v, "read back")?;
        }
    }
    Ok(())
}

// --- C02 ---------------------------------------------------------------------------------

/// raw character data with good and bad references
fn raw_text(g: &mut Rng, bad: bool, quote: Option<char>) -> String {
    let mut s = String::new();
    let n = g.range(1, 6);
    let at = if bad { g.below(n) } else { n };
    for k in 0..n {
        if k == at {
            s.push_str(&bad_ref(g));
            continue;
        }
        match g.below(6) {
            0 | 1 => {
                let mut r = xml::Render { rng: g, style: NOISY, out: String::new(), next_prefix: 0, scope: vec![] };
                let c = r.rng.xml_char();
                s.push_str(&r.reference(c));
            }
            2 => s.push_str(*g.pick(&["&amp;lt;", "amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&amp;", "&amp;#38;", "&#38;#60;", "&#x26;amp;", ";", "&#10;", "&#x10FFFF;", "&#1114111;", "&#xD7FF;", "&#xe000;", "#x41;", "&#0000065;"])),
            3 => {
                let p = g.plain(1, 3);
                s.push_str(&p);
            }
            _ => {
                let p = g.plain(0, 8);
                s.push_str(&p);
            }
        }
    }
    if let Some(q) = quote {
        s = s.replace(q, "");
    }
    s
}
fn bad_ref(g: &mut Rng) -> String {
    match g.below(10) {
        0 => g.pick(&["&", "&;", "&#;", "&#x;", "&#xg;", "&#1a;", "&#-1;", "&#+65;", "&#x+41;", "&#x-41;", "&# 65;", "&#65 ;", "&#x 41;", "&#6_5;", "&#0;", "&#x0;", "&#8;", "&#xB;", "&#x1f;", "&#xD800;", "&#xdfff;", "&#xFFFE;", "&#xffff;", "&#x110000;", "&#1114112;", "&#9999999;", "&#00000065;", "&#x0000041;", "&AMP;", "&Lt;", "&nbsp;", "&amp", "&am;", "&ampx;", "&lt &gt;", "&quote;", "&apo;", "&apos", "&copy;", "&ltt;", "&gt ;", "& amp;", "&amp ;", "&#65,", "&#x;41;", "&é;", "&#é;", "&#x41é;", "&\u{10ffff};", "&&amp;", "&amp&;", "&#４;", "&#x４;"]).to_string(),
        1 => format!("&{};", g.word()),
        2 => {
            let w: String = (0..g.range(1, 4)).map(|_| g.xml_char()).filter(|c| !"<&\"'];".contains(*c)).collect();
            format!("&{w};")
        }
        3 => "&".into(),
        4 => format!("&#{};", g.next() >> g.below(50)),
        5 => format!("&#x{:x};", g.next() >> g.below(50)),
        6 => format!("&{}", g.pick(&["amp", "lt", "gt", "quot", "apos", "#65", "#x41"])),
        7 => {
            let mut n: Vec<char> = g.pick(&["amp", "lt", "gt", "quot", "apos", "#65", "#x41", "#x10FFFF"]).chars().collect();
            let k = g.below(n.len());
            match g.below(3) {
                0 => drop(n.remove(k)),
                1 => n.insert(k, *g.pick(&['a', 'x', '0', '+', '-', ' ', '#', 'é', '.'])),
                _ => n[k] = *g.pick(&['a', 'x', '0', '+', '-', ' ', '#', 'é', '.']),
            }
            format!("&{};", n.into_iter().collect::<String>())
        }
        8 => format!("&#{}{};", g.pick(&["+", "-", " ", "\u{660}", "_", "0x", "0"]), g.range(32, 126)),
        _ => format!("&#x{}{:x};", g.pick(&["+", "-", " ", "_", "0x", "\u{ff11}"]), g.range(32, 126)),
    }
}

fn c02(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    const CHUNK: u64 = 2048;
    if i < 0x112000 / CHUNK {
        // every code point, as decimal and hexadecimal reference
        for u in (i * CHUNK) as u32..((i + 1) * CHUNK) as u32 {
            st.evals += 2;
            for r in [format!("#{u}"), format!("#x{u:x}"), format!("#x{u:X}")] {
                let doc = format!("<AttrsOnly a=\"&{r};\"/>");
                let want = char::from_u32(u).filter(|c| xml::xml_char(*c));
                match (from::<AttrsOnly>(&doc), want) {
                    (Ok(v), Some(c)) if v.a_str().chars().eq([c]) => {}
                    (Err(_), None) => {}
                    (got, want) => fail!(doc, "&{r}; read as {got:?}, expected {want:?}"),
                }
            }
        }
        return Ok(());
    }
    let bad = g.one(2);
    let kind = g.below(9);
    let quote = if g.bool() { '"' } else { '\'' };
    let raw = raw_text(g, bad, if kind < 3 { Some(quote) } else { None });
    if raw.contains('<') || (kind >= 3 && raw.contains("]]>")) {
        return Ok(());
    }
    // what has to come out; None = refuse
    let mut want = decode(&raw).ok();
    // a reference may be spelled with uppercase X: not XML, no verdict
    if raw.contains("&#X") {
        return Ok(());
    }
    st.hit(match (&want, kind) {
        (None, 0..=2) => "bad reference in attribute",
        (None, _) => "bad reference in text",
        (_, 0..=2) => "attribute",
        (_, 3..=6) => "text",
        _ => "split text",
    });
    macro_rules! check {
        ($doc:expr, $t:ty, $get:expr) => {{
            let doc = $doc;
            let get: fn(&$t) -> String = $get;
            match (from::<$t>(&doc).map(|v| get(&v)), &want) {
                (Ok(got), Some(w)) if got == *w => {}
                (Err(_), None) => {}
                (got, w) => fail!(doc, "character data {raw:?} read as {got:?}, expected {w:?}"),
            }
        }};
    }
    match kind {
        0 => check!(format!("<AttrsOnly a={quote}{raw}{quote}/>"), AttrsOnly, |v| v.a_str().to_string()),
        1 => {
            let name = *g.pick(&["y", "xml:lang", "xml:space", "p:y", "xmlnsx", "x", "id"]);
            check!(format!("<x xmlns:p=\"u\" {name}={quote}{raw}{quote}/>"), AnyElement<'_>, |v| v.attributes[0].value.to_string())
        }
        2 => check!(format!("<DirectBorrow2 a={quote}{raw}{quote}>t</DirectBorrow2>"), DirectBorrow2<'_>, |v| v.a.to_string()),
        3 => check!(format!("<Leaf id=\"1\"><v>{raw}</v></Leaf>"), Leaf, |v| v.v_str().to_string()),
        4 => check!(format!("<x>{raw}</x>"), AnyElement<'_>, |v| v.text.clone().unwrap_or_default().to_string()),
        5 => check!(format!("<DirectBorrow2 a=\"\">{raw}</DirectBorrow2>"), DirectBorrow2<'_>, |v| v.d.to_string()),
        6 => check!(format!("<Borrowed xmlns=\"urn:a\"><s>{raw}</s><b>{raw}</b><last>{raw}</last></Borrowed>"), Borrowed<'_>, |v| {
            if v.s.as_bytes() != &*v.b.0 || v.s != v.last {
                return format!("{v:?}");
            }
            v.s.to_string()
        }),
        _ => {
            // split up by comments and CDATA sections
            let mut doc = String::new();
            let mut whole = Some(String::new());
            let mut after_comment = true;
            for _ in 0..g.range(1, 5) {
                match g.below(4) {
                    0 => {
                        doc.push_str(*g.pick(&["<!-- & -->", "<!---->", "<!--&amp;<x>-->"]));
                        after_comment = true;
                    }
                    1 => {
                        let s = g.string();
                        if s.contains("]]>") || s.ends_with(']') {
                            continue;
                        }
                        doc.push_str(&format!("<![CDATA[{s}]]>"));
                        after_comment = true;
                        if let Some(w) = &mut whole {
                            w.push_str(&s);
                        }
                    }
                    _ if after_comment => {
                        let r = match g.bool() {
                            true => raw.clone(),
                            false => {
                                let bad = g.one(4);
                                raw_text(g, bad, None)
                            }
                        };
                        if r.contains('<') || r.contains("]]>") || r.contains("&#X") {
                            continue;
                        }
                        doc.push_str(&r);
                        after_comment = false;
                        match decode(&r) {
                            Ok(d) => {
                                if let Some(w) = &mut whole {
                                    w.push_str(&d);
                                }
                            }
                            Err(_) => whole = None,
                        }
                    }
                    _ => {}
                }
            }
            want = whole;
            let raw = doc.clone();
            match g.below(3) {
                0 => check!(format!("<Leaf id=\"1\"><v>{raw}</v></Leaf>"), Leaf, |v| v.v_str().to_string()),
                1 => check!(format!("<x>{raw}</x>"), AnyElement<'_>, |v| v.text.clone().unwrap_or_default().to_string()),
                _ => check!(format!("<DirectBorrow2 a=\"\">{raw}</DirectBorrow2>"), DirectBorrow2<'_>, |v| v.d.to_string()),
            }
        }
    }
    Ok(())
}
#[derive(Debug, PartialEq, FromXml)]
struct DirectBorrow2<'a> {
    #[xml(attribute)]
    a: Cow<'a, str>,
    #[xml(direct)]
    d: Cow<'a, str>,
}

// --- C03 ---------------------------------------------------------------------------------

/// raw spelling of a string, and whether it is a single run of plain character data (Some(true)),
/// contains references (Some(false)) or neither (None)
fn spell(g: &mut Rng, s: &str) -> (String, Option<bool>) {
    let needs = s.contains(['&', '<']) || s.contains("]]>");
    match g.below(4) {
        0 | 1 if !needs => (s.to_string(), if s.is_empty() { None } else { Some(true) }),
        2 => {
            let mut r = xml::Render { rng: g, style: NOISY, out: String::new(), next_prefix: 0, scope: vec![] };
            r.text(s);
            let plain = r.out == s && !s.is_empty();
            let single = !r.out.contains("<!");
            let refs = r.out.contains('&') && single;
            (r.out.clone(), if plain { Some(true) } else if refs { Some(false) } else { None })
        }
        _ => {
            let mut r = xml::Render { rng: g, style: Style { noise: g_bool(s), ns_noise: false, pretty: false }, out: String::new(), next_prefix: 0, scope: vec![] };
            let t = r.chars(s, None);
            let refs = t.contains('&');
            (t, if refs { Some(false) } else if s.is_empty() { None } else { Some(true) })
        }
    }
}
fn g_bool(s: &str) -> bool {
    s.len() % 2 == 0
}
fn inside(doc: &str, s: &[u8]) -> bool {
    let (a, b) = (doc.as_ptr() as usize, doc.as_ptr() as usize + doc.len());
    let p = s.as_ptr() as usize;
    p >= a && p + s.len() <= b
}
fn borrow_rule(doc: &str, what: &str, content: &[u8], borrowed: bool, want: Option<bool>) -> R {
    if borrowed && !content.is_empty() && !inside(doc, content) {
        fail!(doc, "{what} borrows from outside the input");
    }
    match want {
        Some(true) if !borrowed => fail!(doc, "{what} is a copy of a single run of character data without references"),
        Some(false) if borrowed => fail!(doc, "{what} borrows although its content has references"),
        _ => Ok(()),
    }
}

fn c03(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    let strs: Vec<String> = (0..3).map(|_| if g.one(4) { String::new() } else { g.string() }).collect();
    let sp: Vec<(String, Option<bool>)> = strs.iter().map(|s| spell(g, s)).collect();
    match i % 3 {
        0 => {
            st.hit("Cow<str> and byte slices against String");
            let mut doc = String::from("<Borrowed xmlns=\"urn:a\">");
            for (k, name) in ["s", "b", "last"].iter().enumerate() {
                if sp[k].0.is_empty() && g.bool() {
                    doc.push_str(&format!("<{name}/>"));
                } else {
                    let tail = *g.pick(&["", "", "", "<zz/>", "<zz>t</zz>more<!-- -->"]);
                    doc.push_str(&format!("<{name}>{}{}</{name}>", sp[k].0, if sp[k].0.is_empty() { "" } else { tail }));
                }
            }
            doc.push_str("</Borrowed>");
            let b = from::<Borrowed<'_>>(&doc);
            let o = from::<OwnedTwin>(&doc);
            let (b, o) = match (b, o) {
                (Ok(b), Ok(o)) => (b, o),
                (b, o) => fail!(doc, "borrowed: {b:?}, owned: {o:?}, expected {strs:?}"),
            };
            if o.s != strs[0] || o.b != strs[1] || o.last != strs[2] {
                fail!(doc, "owned fields are {o:?} instead of {strs:?}");
            }
            if b.s != strs[0] || &*b.b.0 != strs[1].as_bytes() || b.last != strs[2] {
                fail!(doc, "borrowed fields are {b:?} instead of {strs:?}");
            }
            borrow_rule(&doc, "s", b.s.as_bytes(), matches!(b.s, Cow::Borrowed(_)), sp[0].1)?;
            borrow_rule(&doc, "b", &b.b.0, matches!(b.b.0, Cow::Borrowed(_)), sp[1].1)?;
            borrow_rule(&doc, "last", b.last.as_bytes(), matches!(b.last, Cow::Borrowed(_)), sp[2].1)?;
            let b = match from::<Spelled<'_>>(&doc) {
                Ok(b) if b.s == strs[0] && b.b == strs[1] && b.last == strs[2] => b,
                b => fail!(doc, "borrowed fields with spelled out types are {b:?} instead of {strs:?}"),
            };
            for (k, c) in [&b.s, &b.b, &b.last].iter().enumerate() {
                borrow_rule(&doc, "field with a spelled out type", c.as_bytes(), matches!(c, Cow::Borrowed(_)), sp[k].1)?;
            }
        }
        1 => {
            st.hit("AnyElement");
            let av = { let mut r = xml::Render { rng: g, style: PLAIN, out: String::new(), next_prefix: 0, scope: vec![] }; r.chars(&strs[1], Some('"')) };
            let doc = format!("<p:x xmlns:p=\"urn:p\" a=\"{av}\" p:b=\"v\">{}<y/></p:x>", sp[0].0);
            let e = match from::<AnyElement<'_>>(&doc) {
                Ok(e) => e,
                Err(e) => fail!(doc, "refused: {e:?}"),
            };
            if e.text.as_deref().unwrap_or_default() != strs[0] || e.attributes.len() != 2 || e.attributes[0].value != strs[1] || e.name != "x" || e.ns != "urn:p" {
                fail!(doc, "captured as {e:?}, expected {strs:?}");
            }
            if let Some(t) = &e.text {
                borrow_rule(&doc, "text", t.as_bytes(), matches!(t, Cow::Borrowed(_)), sp[0].1)?;
            }
            let want = if av.contains('&') { Some(false) } else { Some(true) };
            let v = &e.attributes[0].value;
            borrow_rule(&doc, "attribute value", v.as_bytes(), matches!(v, Cow::Borrowed(_)), want)?;
            for (what, c) in [("name", &e.name), ("ns", &e.ns), ("attribute name", &e.attributes[1].name), ("attribute ns", &e.attributes[1].ns), ("child name", &e.children[0].name)] {
                borrow_rule(&doc, what, c.as_bytes(), matches!(c, Cow::Borrowed(_)), Some(true))?;
            }
            drop(e.clone().into_owned());
        }
        _ => {
            st.hit("direct and optional");
            let av = { let mut r = xml::Render { rng: g, style: NOISY, out: String::new(), next_prefix: 0, scope: vec![] }; r.chars(&strs[1], Some('"')) };
            let doc = format!("<DirectBorrow2 a=\"{av}\">{}</DirectBorrow2>", sp[0].0);
            match from::<DirectBorrow2<'_>>(&doc) {
                Ok(v) => {
                    if v.a != strs[1] || v.d != strs[0] {
                        fail!(doc, "{v:?} instead of {strs:?}");
                    }
                }
                e => fail!(doc, "{e:?}"),
            }
            let doc = if strs[2].is_empty() && g.bool() { "<OptBorrow><e/></OptBorrow>".to_string() } else { format!("<OptBorrow><e>{}</e></OptBorrow>", sp[2].0) };
            match from::<OptBorrow<'_>>(&doc) {
                Ok(v) => {
                    let e = v.e.as_ref();
                    if e.map(|e| &**e) != Some(&strs[2]) {
                        fail!(doc, "{v:?} instead of {:?}", strs[2]);
                    }
                    borrow_rule(&doc, "optional field", e.unwrap().as_bytes(), matches!(e.unwrap(), Cow::Borrowed(_)), None)?;
                }
                e => fail!(doc, "{e:?}"),
            }
        }
    }
    Ok(())
}
#[derive(Debug, PartialEq, FromXml)]
struct OptBorrow<'a> {
    #[xml(borrow)]
    e: Option<Cow<'a, str>>,
}

// --- C04 ---------------------------------------------------------------------------------

fn near(g: &mut Rng, lim: usize) -> usize {
    match g.below(4) {
        0 => lim,
        1 => lim + 1,
        2 => lim.saturating_sub(1),
        _ => g.below(lim + 4),
    }
}
fn shape(g: &mut Rng, lim: Lim, out: &mut String, depth: usize, target: usize, name: &str) {
    let heavy = g.one(3);
    out.push('<');
    out.push_str(name);
    let (mut na, mut nd) = (g.below(3), g.below(2));
    if depth > 1 && heavy {
        match g.below(3) {
            0 => na = if g.one(6) { near(g, lim.attrs) } else { lim.attrs },
            1 => nd = if g.one(6) { near(g, lim.decls) } else { lim.decls },
            _ => {
                na = lim.attrs;
                nd = lim.decls;
            }
        }
    }
    // names with and without prefixes, empty and long values, one namespace under many prefixes
    let (mix, same) = (g.below(4), g.one(4));
    let mut items: Vec<String> = (0..na).map(|k| {
        let p = match mix {
            0 => String::new(),
            1 if nd > 0 => format!("p{}:", g.below(nd)),
            2 => "xml:".into(),
            _ if g.bool() => "xml:".into(),
            _ => String::new(),
        };
        let v = *g.pick(&["v", "", "&amp;", "a long value, to be sure"]);
        format!(" {p}a{k}=\"{v}\"")
    }).collect();
    items.extend((0..nd).map(|k| format!(" xmlns:p{k}=\"urn:{}\"", if same { 0 } else { k })));
    if g.bool() {
        items.push(" xmlns=\"\"".into());
    }
    g.shuffle(&mut items);
    for i in items {
        out.push_str(&i);
    }
    if depth >= target {
        match g.below(3) {
            0 => out.push_str("/>"),
            1 => out.push_str(&format!("></{name}>")),
            _ => out.push_str(&format!(">t</{name}>")),
        }
        return;
    }
    out.push('>');
    let n = g.range(1, 3);
    let deep = g.below(n);
    for k in 0..n {
        let t = if k == deep { target } else { g.range(depth + 1, (depth + 2).min(target)) };
        let nm = *g.pick(&["k", "q", "node", "one"]);
        shape(g, lim, out, depth + 1, t, nm);
        if g.one(4) {
            out.push_str("<!-- c -->t");
        }
    }
    out.push_str("</");
    out.push_str(name);
    out.push('>');
}

fn c04(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    let custom = g.bool();
    let lim = match custom {
        false => DEFAULT_LIM,
        true => Lim { levels: g.range(1, 48), attrs: g.range(if i % 3 == 0 { 0 } else { 1 }, 80), decls: g.range(0, 48) },
    };
    let mut limits = Limits::default();
    if custom {
        limits.max_levels = lim.levels;
        limits.max_attributes = lim.attrs;
        limits.max_ns_declarations = lim.decls;
    }
    // the root start tag itself is read under the default limits: keep it small
    let target = near(g, lim.levels).max(1);
    let root = if i % 3 == 0 { "Braces" } else { "node" };
    let mut doc = format!("<{root}{}>", if root == "node" { " name=\"n\"" } else { "" });
    for _ in 0..g.range(1, 4) {
        let nm = *g.pick(&["node", "zz", "value"]);
        if nm == "value" && i % 3 == 1 {
            continue;
        }
        let t = if g.bool() { target } else { g.range(1, 3) };
        if t >= 2 {
            let nm = if i % 3 == 1 { "zz" } else { nm };
            shape(g, lim, &mut doc, 2, t, nm);
        }
    }
    if g.one(5) {
        // the limits are per element and path: many siblings are fine
        for k in 0..g.range(30, 200) {
            doc.push_str(&format!("<zz a{k}=\"1\" xmlns:p{k}=\"urn:x\"/>"));
        }
    }
    doc.push_str(&format!("</{root}>"));
    let oracle = parse(&doc, lim);
    last(&doc);
    let open = |limits: Limits| -> Result<Deserializer<'_, '_>, Error> {
        let d = Deserializer::new(&doc)?;
        Ok(if custom { d.with_limits(limits) } else { d })
    };
    let mut results: Vec<(&str, Option<Error>)> = vec![];
    results.push(("AnyElement", open(limits).and_then(|mut d| d.deserialize::<AnyElement<'_>>()).err()));
    match i % 3 {
        0 => results.push(("Braces", open(limits).and_then(|mut d| d.deserialize::<Braces>()).err())),
        1 => results.push(("node", open(limits).and_then(|mut d| d.deserialize::<Tree>()).err())),
        _ => {}
    }
    results.push(("ignore()", open(limits).and_then(|mut d| d.ignore()).err()));
    for (who, err) in results {
        match (&oracle, &err) {
            (Ok(_), None) => st.hit("within limits"),
            (Err(Bad::Limit(_)), Some(_)) => st.hit("beyond limits"),
            (Ok(_), Some(e)) => fail!(doc, "{who}: document within the limits {lim:?} refused: {e:?}"),
            (Err(Bad::Limit(what)), None) => fail!(doc, "{who}: document exceeding the limit of {what} ({lim:?}) accepted"),
            (Err(e), _) => fail!(doc, "checker's own document is broken: {e:?}"),
        }
    }
    Ok(())
}

// --- C05 ---------------------------------------------------------------------------------

#[derive(Debug, FromXml)]
#[allow(dead_code)]
#[xml(rename = "x")]
struct Nothing;

fn targets(t: &Ty, doc: &str) -> Vec<(String, Result<String, Error>)> {
    last(doc);
    vec![
        (t.name.into(), read(t, doc).map(|b| b.dbg)),
        ("AnyElement".into(), from::<AnyElement<'_>>(doc).map(|b| format!("{b:?}"))),
        ("ignore()".into(), Deserializer::new(doc).and_then(|mut d| d.ignore()).map(|_| String::new())),
        ("skipping type".into(), skip_any(doc)),
        ("scalar root".into(), from::<RootScalar>(doc).map(|v| format!("{v:?}"))),
    ]
}
/// Matches every root, reads nothing of it
#[derive(Debug)]
struct SkipAll;
impl<'xml> FromXml<'xml> for SkipAll {
    fn matches(_: instant_xml::Id<'_>, _: Option<instant_xml::Id<'_>>) -> bool {
        true
    }
    fn deserialize<'cx>(into: &mut Option<Self>, _: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        *into = Some(SkipAll);
        d.ignore()
    }
    type Accumulator = Option<Self>;
    const KIND: instant_xml::Kind = instant_xml::Kind::Element;
}
/// A scalar type that matches every root element
#[derive(Debug)]
#[allow(dead_code)]
struct RootScalar(String);
impl<'xml> FromXml<'xml> for RootScalar {
    fn matches(_: instant_xml::Id<'_>, _: Option<instant_xml::Id<'_>>) -> bool {
        true
    }
    fn deserialize<'cx>(into: &mut Option<Self>, _: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        *into = Some(RootScalar(match d.take_str() {
            Ok(Some(s)) => s.into_owned(),
            Ok(None) => String::new(),
            Err(Error::ExpectedScalar(_)) => String::new(),
            Err(e) => return Err(e),
        }));
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: instant_xml::Kind = instant_xml::Kind::Scalar;
}
fn skip_any(doc: &str) -> Result<String, Error> {
    from::<SkipAll>(doc).map(|v| format!("{v:?}"))
}
fn end_tags(doc: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut i = 0;
    while i < doc.len() {
        let r = &doc[i..];
        if r.starts_with("<!--") {
            i += r.find("-->").unwrap() + 3;
        } else if r.starts_with("<![CDATA[") {
            i += r.find("]]>").unwrap() + 3;
        } else if r.starts_with("</") {
            let j = r.find('>').unwrap() + 1;
            v.push((i, i + j));
            i += j;
        } else {
            i += r.chars().next().unwrap().len_utf8();
        }
    }
    v
}

fn c05(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    let t = any_ty(i, g);
    let v = gen(t, g);
    let s = style(g);
    let doc = render(&v.tree, g, s);
    if parse(&doc, Lim { levels: 1000, attrs: 1000, decls: 1000 }).is_err() {
        fail!(doc, "checker's own document is broken");
    }
    let broken = match g.below(5) {
        0 | 1 => {
            let mut cut = g.below(doc.len());
            if g.bool() {
                // near the end of some markup
                let ends: Vec<usize> = doc.match_indices(['>', '<', '/', '"']).map(|(i, _)| i).collect();
                cut = (*g.pick(&ends) + g.below(2)).min(doc.len() - 1);
            }
            while !doc.is_char_boundary(cut) {
                cut -= 1;
            }
            st.hit("truncated");
            doc[..cut].to_string()
        }
        _ => {
            let tags = end_tags(&doc);
            if tags.is_empty() {
                st.hit("truncated");
                doc[..doc.len() - 1].to_string()
            } else {
                let (a, b) = *g.pick(&tags);
                let tag = &doc[a..b];
                let new = match g.below(7) {
                    0 => String::new(),
                    1 => format!("{tag}{tag}"),
                    2 => tag.replacen("</", "</x", 1),
                    3 => match tag.contains(':') {
                        true => format!("</{}", &tag[tag.find(':').unwrap() + 1..]),
                        false => tag.replacen("</", "</p:", 1),
                    },
                    4 => {
                        let (c, d) = *g.pick(&tags);
                        doc[c..d].to_string()
                    }
                    5 => {
                        let n = tag.trim_end_matches(['>', ' ', '\n', '\t', '\r']);
                        let mut n: String = n.to_string();
                        if g.bool() {
                            n.pop();
                        } else {
                            n.push('e');
                        }
                        format!("{n}>")
                    }
                    _ => {
                        // swap the case or change the prefix
                        match tag.find(':') {
                            Some(k) => format!("</q{}{}", &tag[2..k], &tag[k..]),
                            None => format!("</{}", tag[2..].to_uppercase()),
                        }
                    }
                };
                st.hit("end tags changed");
                format!("{}{}{}", &doc[..a], new, &doc[b..])
            }
        }
    };
    match parse(&broken, Lim { levels: 1000, attrs: 1000, decls: 1000 }) {
        Err(Bad::Structure(_)) => {}
        // anything else may or may not be accepted
        Ok(_) | Err(_) if !doc.starts_with(&broken) || broken.len() == doc.len() => return Ok(()),
        _ => {}
    }
    // a scalar that stops early or an unrelated error are both fine, acceptance is not
    for (who, r) in targets(t, &broken) {
        if let Ok(val) = r {
            fail!(broken, "{who}: broken document accepted as {val}");
        }
    }
    Ok(())
}

// --- C06 ---------------------------------------------------------------------------------

/// any well-formed element that matches no field, possibly containing elements named like fields
fn unknown_el(g: &mut Rng, donors: &[El], d: usize) -> El {
    let (ns, name) = *g.pick(&[("urn:unknown", "zz"), ("", "zz-unknown"), ("urn:unknown", "Leaf"), ("urn:a", "zz"), ("urn:b", "zzz"), ("urn:unknown", "s")]);
    let mut e = El::new(ns, name, Kind::Any);
    for k in 0..g.below(3) {
        e.attrs.push(At { ns: if g.bool() { String::new() } else { "urn:unknown".into() }, name: format!("u{k}"), val: g.string(), occ: Occ::Many, field: 99 });
    }
    for _ in 0..g.below(4) {
        match g.below(3) {
            0 => e.kids.push(Node::Text(g.string())),
            1 if !donors.is_empty() => e.kids.push(Node::El(g.pick(donors).clone())),
            _ if d > 0 => e.kids.push(Node::El(unknown_el(g, donors, d - 1))),
            _ => {}
        }
    }
    e
}
fn donors(e: &El) -> Vec<El> {
    let mut v: Vec<El> = vec![];
    for c in e.els() {
        if c.depth() <= 4 && c.size() < 30 {
            v.push(c.clone());
        }
    }
    v.push(e.clone());
    v.retain(|e| e.depth() <= 4 && e.size() < 30);
    v
}
/// Named/Direct/Scalar elements all of whose ancestors are ordinary too
fn inserts_ok(e: &El) -> bool {
    matches!(e.kind, Kind::Named | Kind::Direct | Kind::Unit)
}
fn mutate_unknown(e: &mut El, g: &mut Rng, st: &mut Stats) {
    let mut ps = e.paths();
    // per-path budget
    let n = g.range(1, 3);
    for _ in 0..n {
        let p = g.pick(&ps).clone();
        if p.len() > 8 {
            continue;
        }
        let target = e.at(&p);
        let don = donors(target);
        match target.kind {
            _ if inserts_ok(target) => match g.below(3) {
                0 => {
                    let k = g.below(target.attrs.len() + 1);
                    let (ns, name) = *g.pick(&[("", "zz"), ("urn:unknown", "zz"), ("urn:unknown", "id"), ("urn:b", "zz"), ("urn:unknown", "a"), ("urn:unknown", "x")]);
                    if !target.attrs.iter().any(|a| a.ns == ns && a.name == name) {
                        target.attrs.insert(k, At { ns: ns.into(), name: name.into(), val: g.string(), occ: Occ::Many, field: 99 });
                        st.hit("unknown attribute");
                    }
                }
                _ => {
                    // not in the middle of the direct text, but before or after it
                    let k = g.below(target.kids.len() + 1);
                    let mut u = unknown_el(g, &don, 2);
                    let room = 25usize.saturating_sub(p.len() + 1 + u.depth());
                    if g.one(8) && room > 4 {
                        // nested more deeply than anything else
                        for _ in 0..g.range(4, room) {
                            let mut outer = unknown_el(g, &don, 0);
                            outer.kids.push(Node::El(u));
                            u = outer;
                        }
                    }
                    target.kids.insert(k, Node::El(u));
                    st.hit("unknown element");
                }
            },
            Kind::Scalar if !target.kids.is_empty() => {
                let don: Vec<El> = don.into_iter().filter(|d| d.kind == Kind::Scalar).collect();
                let u = unknown_el(g, &don, 1);
                target.kids.push(Node::El(u));
                if g.bool() {
                    target.kids.push(Node::Text(g.string()));
                }
                st.hit("content after scalar text");
            }
            _ => {}
        }
        // paths may be stale after an insertion
        ps = e.paths();
    }
}
fn reorder(e: &mut El, g: &mut Rng) {
    if matches!(e.kind, Kind::Named | Kind::Direct) {
        // permute attributes freely; children so that those of one field keep their order
        g.shuffle(&mut e.attrs);
        let mut idx: Vec<u32> = e.kids.iter().map(|k| if let Node::El(c) = k { c.field } else { u32::MAX }).collect();
        if !idx.contains(&u32::MAX) || g.bool() {
            g.shuffle(&mut idx);
            let mut pool: Vec<Option<Node>> = e.kids.drain(..).map(Some).collect();
            for f in idx {
                let k = pool.iter().position(|n| matches!(n, Some(Node::El(c)) if c.field == f) || (f == u32::MAX && matches!(n, Some(Node::Text(_))))).unwrap();
                e.kids.push(pool[k].take().unwrap());
            }
        }
    }
    for k in &mut e.kids {
        if let Node::El(c) = k {
            reorder(c, g);
        }
    }
}

/// Hand-written implementation that asks for more nodes than there are
#[derive(Debug, PartialEq)]
struct Greedy(usize);
impl<'xml> FromXml<'xml> for Greedy {
    fn matches(id: instant_xml::Id<'_>, field: Option<instant_xml::Id<'_>>) -> bool {
        field.is_some_and(|f| f == id)
    }
    fn deserialize<'cx>(into: &mut Option<Self>, _: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        let mut n = 0;
        for _ in 0..40 {
            match d.next() {
                Some(Ok(DNode::Open(e))) => {
                    n += 1;
                    d.nested(e).ignore()?;
                }
                Some(Ok(_)) => n += 1,
                Some(Err(e)) => return Err(e),
                None => {}
            }
        }
        *into = Some(Greedy(n));
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: instant_xml::Kind = instant_xml::Kind::Element;
}
/// Hand-written implementation that leaves a random part of its element unread
#[derive(Debug, PartialEq)]
struct Lazy(usize);
thread_local! { static LAZY: Cell<usize> = const { Cell::new(0) }; }
impl<'xml> FromXml<'xml> for Lazy {
    fn matches(id: instant_xml::Id<'_>, field: Option<instant_xml::Id<'_>>) -> bool {
        field.is_some_and(|f| f == id)
    }
    fn deserialize<'cx>(into: &mut Option<Self>, _: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        let mut n = 0;
        for _ in 0..LAZY.with(|l| l.get()) {
            match d.next() {
                Some(Ok(DNode::Open(e))) => {
                    n += 1;
                    d.nested(e).ignore()?;
                }
                Some(Ok(_)) => n += 1,
                Some(Err(e)) => return Err(e),
                None => break,
            }
        }
        *into = Some(Lazy(n));
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: instant_xml::Kind = instant_xml::Kind::Scalar;
}
#[derive(Debug, PartialEq, FromXml)]
struct Neighbours {
    a: Option<String>,
    greedy: Option<Greedy>,
    b: Option<String>,
    lazy: Option<Lazy>,
    c: Vec<u8>,
    d: Option<Leaf>,
}
fn nodes(e: &El) -> usize {
    // attributes and children with adjacent text merged
    let mut n = e.attrs.len();
    let mut text = false;
    for k in &e.kids {
        match k {
            Node::Text(t) => {
                if !t.is_empty() && !text {
                    n += 1;
                    text = true;
                }
            }
            Node::El(_) => {
                n += 1;
                text = false;
            }
        }
    }
    n
}

fn c06(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    if i % 8 == 7 {
        st.hit("hand-written implementations");
        let don = vec![El::leaf("", "a", "x"), El::leaf("", "b", "y"), El::leaf("", "c", "3"), El::leaf("", "greedy", "")];
        let mut root = El::new("", "Neighbours", Kind::Named);
        let mut gr = unknown_el(g, &don, 2);
        gr.ns = String::new();
        gr.name = "greedy".into();
        gr.kids.retain(|k| !matches!(k, Node::Text(t) if t.is_empty()));
        let mut la = unknown_el(g, &don, 2);
        la.ns = String::new();
        la.name = "lazy".into();
        la.kids.retain(|k| !matches!(k, Node::Text(t) if t.is_empty()));
        let k = g.below(4);
        LAZY.with(|l| l.set(k));
        let want = Neighbours { a: Some(g.string()), greedy: Some(Greedy(nodes(&gr))), b: Some(g.string()), lazy: Some(Lazy(k.min(nodes(&la)))), c: vec![1, 2], d: Some(Leaf::new(7, "z")) };
        let mut kids = vec![gr.clone(), la, El::leaf("", "a", want.a.as_ref().unwrap()), El::leaf("", "b", want.b.as_ref().unwrap()), crate::types::Model::exp(want.d.as_ref().unwrap())];
        g.shuffle(&mut kids);
        let at = g.below(6);
        kids.insert(at, El::leaf("", "c", "1"));
        kids.push(El::leaf("", "c", "2"));
        root.kids = kids.into_iter().map(Node::El).collect();
        let doc = render(&root, g, Style { noise: false, ns_noise: true, pretty: false });
        return match from::<Neighbours>(&doc) {
            Ok(v) if v == want => Ok(()),
            v => fail!(doc, "read as {v:?} instead of {want:?}"),
        };
    }
    let t = any_ty(i, g);
    let v = gen(t, g);
    let mut tree = v.tree.clone();
    if g.bool() {
        reorder(&mut tree, g);
        st.hit("reordered");
    }
    if g.one(4) {
        st.hit("comments only");
    } else {
        mutate_unknown(&mut tree, g, st);
    }
    let s = style(g);
    let doc = render(&tree, g, s);
    if parse(&doc, DEFAULT_LIM).is_err() {
        return Ok(()); // deeper than the default limits allow
    }
    expect_value(t, &doc, &v, "with unknown or reordered content")
}

// --- C07 ---------------------------------------------------------------------------------

pub fn random_any(g: &mut Rng, d: usize) -> El {
    let uris = ["", "urn:a", "urn:b", "urn:c", "http://example.com/?q=1#x", xml::XML_NS];
    let mut e = El::new(*g.pick(&uris), *g.pick(&["a", "b", "c", "x-1", "_z", "Leaf"]), Kind::Any);
    for _ in 0..g.below(4) {
        let (ns, name) = (*g.pick(&uris), *g.pick(&["a", "b", "lang", "d"]));
        if !e.attrs.iter().any(|a| a.ns == ns && a.name == name) {
            e.attrs.push(At { ns: ns.into(), name: name.into(), val: g.string(), occ: Occ::One, field: 0 });
        }
    }
    for _ in 0..g.below(4) {
        match g.below(3) {
            0 => {
                let s = g.string();
                e.kids.push(Node::Text(s));
            }
            _ if d > 0 => e.kids.push(Node::El(random_any(g, d - 1))),
            _ => {}
        }
    }
    e
}
fn any_against_parser(doc: &str, st: &mut Stats) -> R {
    let r = from::<AnyElement<'_>>(doc);
    match (parse(doc, DEFAULT_LIM), &r) {
        (Ok(p), Ok(a)) => {
            st.hit("accepted");
            if let Err(e) = same(&any_to_el(a), &as_any(&p)) {
                fail!(doc, "AnyElement differs from the document: {e}");
            }
            if let Some(e) = text_none(a, &p) {
                fail!(doc, "{e}");
            }
        }
        (Ok(_), Err(e)) => fail!(doc, "well-formed document refused: {e:?}"),
        (Err(Bad::Other(_)), _) => st.hit("no verdict"),
        (Err(b), Ok(a)) => fail!(doc, "accepted as {a:?} despite {b:?}"),
        (Err(_), Err(_)) => st.hit("refused"),
    }
    Ok(())
}
fn text_none(a: &AnyElement<'_>, p: &El) -> Option<String> {
    if !p.kids.iter().any(|k| matches!(k, Node::Text(_))) && a.text.is_some() {
        return Some(format!("text of an element without character data is {:?}", a.text));
    }
    a.children.iter().zip(p.els()).find_map(|(a, p)| text_none(a, p))
}
/// damage the namespace declarations and prefixes of a document
fn ns_damage(doc: &str, g: &mut Rng) -> String {
    let mut doc = doc.to_string();
    for _ in 0..g.range(1, 2) {
        let spots: Vec<usize> = doc.match_indices("xmlns").map(|(i, _)| i).collect();
        match g.below(4) {
            0 if !spots.is_empty() => {
                // remove a declaration
                let i = *g.pick(&spots);
                if let Some(q) = doc[i..].find(['"', '\'']) {
                    let c = doc[i + q..].chars().next().unwrap();
                    if let Some(e) = doc[i + q + 1..].find(c) {
                        doc.replace_range(i..i + q + e + 2, "");
                    }
                }
            }
            1 if !spots.is_empty() => {
                let i = *g.pick(&spots);
                doc.insert_str(i, *g.pick(&["xmlns=\"urn:zz\" ", "xmlns:p=\"urn:zz\" ", "xmlns=\"\" ", "xmlns:q='urn:a' ", "p:k=\"1\" "]));
            }
            2 => {
                let tags: Vec<usize> = doc.match_indices('<').map(|(i, _)| i).filter(|i| doc[i + 1..].starts_with(|c: char| c.is_ascii_alphabetic())).collect();
                if tags.is_empty() {
                    continue;
                }
                let i = *g.pick(&tags);
                let n = doc[i + 1..].find([' ', '>', '/', '\n', '\t', '\r']).unwrap_or(0) + i + 1;
                doc.insert_str(n, *g.pick(&[" zz:k=\"v\"", " xmlns:p=\"urn:k\"", " xmlns=\"urn:k\"", " xmlns=\"\"", " xml:lang=\"e\"", " p:zz=\"1\""]));
            }
            _ => {
                let i = g.below(doc.len());
                if let Some(j) = doc[..].char_indices().map(|c| c.0).filter(|j| *j >= i).find(|j| doc[*j..].starts_with(':')) {
                    doc.replace_range(j..j + 1, *g.pick(&["x:", ""]));
                }
            }
        }
    }
    doc
}

fn c07(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    match i % 4 {
        0 => {
            let mut e = random_any(g, 3);
            if g.one(8) {
                // far from the declarations that it uses
                for _ in 0..g.range(5, 27) {
                    let mut outer = random_any(g, 0);
                    outer.kids.push(Node::El(e));
                    e = outer;
                }
            }
            let s = style(g);
            let doc = render(&e, g, s);
            any_against_parser(&doc, st)?;
            let doc = ns_damage(&doc, g);
            any_against_parser(&doc, st)
        }
        1 => {
            // prefix spelling never matters
            let t = any_ty(i / 4, g);
            let v = gen(t, g);
            st.hit("other prefixes");
            for _ in 0..2 {
                let doc = render(&v.tree, g, Style { noise: false, ns_noise: true, pretty: false });
                expect_value(t, &doc, &v, "with other prefixes")?;
            }
            Ok(())
        }
        2 => {
            // a name in another namespace never matches
            let t = any_ty(i / 4, g);
            let v = gen(t, g);
            let mut tree = v.tree.clone();
            let other = *g.pick(&["urn:other", "urn:zz", ""]);
            // the root
            let mut root = tree.clone();
            match g.bool() {
                true if root.ns != other => root.ns = other.into(),
                _ => root.name.push('x'),
            }
            let doc = render(&root, g, NOISY);
            if let Ok(b) = read(t, &doc) {
                fail!(doc, "{} read from a root element of another name or namespace: {}", t.name, b.dbg);
            }
            st.hit("other root");
            // a field
            let ps = tree.paths();
            let p = g.pick(&ps).clone();
            let parent = tree.at(&p);
            if !matches!(parent.kind, Kind::Named | Kind::Direct) {
                return Ok(());
            }
            let mut removed = v.tree.clone();
            let occ;
            if g.bool() && !parent.attrs.is_empty() {
                let k = g.below(parent.attrs.len());
                occ = parent.attrs[k].occ;
                let to = *g.pick(&["urn:other", "urn:a", "urn:b", ""]);
                if parent.attrs[k].ns == to {
                    return Ok(());
                }
                let name = parent.attrs[k].name.clone();
                if parent.attrs.iter().any(|a| a.ns == to && a.name == name) {
                    return Ok(());
                }
                parent.attrs[k].ns = to.into();
                removed.at(&p).attrs.remove(k);
                st.hit("other attribute namespace");
            } else {
                let ks: Vec<usize> = (0..parent.kids.len()).filter(|k| matches!(parent.kids[*k], Node::El(_))).collect();
                if ks.is_empty() {
                    return Ok(());
                }
                let k = *g.pick(&ks);
                let Node::El(c) = &mut parent.kids[k] else { unreachable!() };
                occ = c.occ;
                c.ns = if g.bool() || c.ns.is_empty() { "urn:other".into() } else { String::new() };
                // an element of the same name in another namespace could be another field
                let (ns, name) = (c.ns.clone(), c.name.clone());
                if ns.is_empty() && (v.tree_has(&ns, &name)) {
                    return Ok(());
                }
                removed.at(&p).kids.remove(k);
                st.hit("other element namespace");
            }
            let s = style(g);
            let doc = render(&tree, g, s);
            let got = read(t, &doc);
            match (occ, got) {
                (Occ::One, Ok(b)) => fail!(doc, "{}: required field taken from another namespace: {}", t.name, b.dbg),
                (Occ::One, Err(_)) | (Occ::Lax, _) => Ok(()),
                (_, Ok(b)) => match same(&b.tree, &removed) {
                    Ok(()) => Ok(()),
                    Err(e) => fail!(doc, "{}: field in another namespace not treated as absent: {e}", t.name),
                },
                (_, Err(e)) => fail!(doc, "{}: unknown content refused: {e:?}", t.name),
            }
        }
        _ => {
            // undeclared prefixes on content that is read
            let e = random_any(g, 2);
            let doc = render(&e, g, Style { noise: false, ns_noise: true, pretty: false });
            let doc = ns_damage(&ns_damage(&doc, g), g);
            any_against_parser(&doc, st)?;
            st.hit("undeclared prefixes");
            for (doc, ok) in [
                ("<Leaf id=\"1\"><v>x</v><zz:v>y</zz:v></Leaf>", false),
                ("<Leaf zz:id=\"2\" id=\"1\"><v>x</v></Leaf>", false),
                ("<zz:Leaf id=\"1\"><v>x</v></zz:Leaf>", false),
                ("<Leaf id=\"1\"><q xmlns:zz=\"urn:z\"/><v>x</v><zz:q/></Leaf>", false),
                ("<Leaf id=\"1\"><q xmlns:zz=\"urn:z\"></q><v>x</v><zz:q/></Leaf>", false),
                ("<Leaf id=\"1\" xml:lang=\"en\"><v>x</v><xml:v/></Leaf>", true),
            ] {
                if from::<Leaf>(doc).is_ok() != ok {
                    fail!(doc, "undeclared prefix: accepted = {}", !ok);
                }
            }
            Ok(())
        }
    }
}
fn find_uri() -> bool {
    let e = from::<AnyElement<'_>>("<a xmlns=\"urn:x&amp;y\"/>");
    e.map_or(true, |e| e.ns != "urn:x&y")
}

// --- C10 ---------------------------------------------------------------------------------

fn c10(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    let t = any_ty(i, g);
    let v = gen(t, g);
    st.hit("values");
    let doc = match &v.written {
        Ok(d) => d,
        Err(e) => fail!(v.dbg, "{} refused to write: {e:?}", t.name),
    };
    let mut again = String::new();
    if (v.write_to)(&mut again).is_err() || again != *doc {
        fail!(v.dbg, "writing twice gave {doc} and {again}");
    }
    expect_value(t, doc, &v, "read back")?;
    let b = read(t, doc).unwrap();
    if b.again.as_ref() != Ok(doc) {
        fail!(doc, "writing the value read back gave {:?}", b.again);
    }
    // other spellings of the same document
    let s = style(g);
    let other = render(&v.tree, g, s);
    st.hit("other spellings");
    expect_value(t, &other, &v, "same document spelled differently")
}

// --- C11 ---------------------------------------------------------------------------------

#[derive(Debug, ToXml)]
struct RefOpt<'a> {
    #[xml(attribute)]
    a: &'a Option<u8>,
    #[xml(attribute)]
    b: Box<Option<String>>,
    c: &'a Option<Leaf>,
    d: Box<Option<String>>,
    e: &'a Box<Option<&'a str>>,
    f: Option<Box<u8>>,
    g: Vec<u8>,
}
#[derive(Debug, ToXml)]
struct RefDirect<'a> {
    #[xml(direct)]
    a: &'a Option<String>,
}

fn c11(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    if i % 16 == 15 {
        st.hit("None behind Box and references");
        let (a, c) = (if g.bool() { Some(1) } else { None }, if g.bool() { Some(Leaf::new(1, "x")) } else { None });
        let (b, d) = (if g.bool() { Some("q".to_string()) } else { None }, if g.bool() { Some(String::new()) } else { None });
        let e = Box::new(if g.bool() { Some("y") } else { None });
        let v = RefOpt { a: &a, b: Box::new(b.clone()), c: &c, d: Box::new(d.clone()), e: &e, f: None, g: vec![] };
        let doc = written(&v, &v)?;
        let p = match parse(&doc, DEFAULT_LIM) {
            Ok(p) => p,
            Err(e) => fail!(doc, "{e:?}"),
        };
        let have_at: Vec<&str> = p.attrs.iter().map(|a| a.name.as_str()).collect();
        let have_el: Vec<&str> = p.els().map(|a| a.name.as_str()).collect();
        let want_at: Vec<&str> = [("a", a.is_some()), ("b", b.is_some())].iter().filter(|x| x.1).map(|x| x.0).collect();
        let want_el: Vec<&str> = [("Leaf", c.is_some()), ("d", d.is_some()), ("e", e.is_some())].iter().filter(|x| x.1).map(|x| x.0).collect();
        if have_at != want_at || have_el != want_el {
            fail!(doc, "{v:?}: wrote {have_at:?} {have_el:?} instead of {want_at:?} {want_el:?}");
        }
        let o = b.clone();
        let v = RefDirect { a: &o };
        let doc = written(&v, &v)?;
        match parse(&doc, DEFAULT_LIM) {
            Ok(p) if p.text() == o.unwrap_or_default() && p.els().count() == 0 => {}
            p => fail!(doc, "{p:?}"),
        }
        return Ok(());
    }
    if i % 16 == 14 {
        st.hit("empty strings");
        let sp = |g: &mut Rng, n: &str| -> String { g.pick(&[format!("<{n}/>"), format!("<{n}></{n}>"), format!("<{n}><!-- c --></{n}>"), format!("<{n}><![CDATA[]]></{n}>"), format!("<{n} zz=\"1\"/>")]).clone() };
        let doc = format!("<Empties at=\"\" ao=''>{}{}{}{}{}{}</Empties>", sp(g, "s"), sp(g, "c"), sp(g, "b"), sp(g, "o"), sp(g, "v"), sp(g, "x"));
        let want = Empties { at: "".into(), ao: Some("".into()), s: "".into(), c: "".into(), b: "".into(), o: Some("".into()), v: vec!["".into()], x: Box::new("".into()) };
        return match from::<Empties<'_>>(&doc) {
            Ok(v) if v == want => Ok(()),
            v => fail!(doc, "read as {v:?} instead of {want:?}"),
        };
    }
    if i % 16 == 13 {
        st.hit("scalars without text");
        use std::net::IpAddr;
        macro_rules! nothing {
            ($($t:ty),*) => { [$((stringify!($t), nothing::<$t> as fn(&mut Rng, &str) -> R)),*] };
        }
        let all = nothing!(bool, char, i8, i16, i32, i64, isize, u8, u16, u32, u64, usize, f32, f64, IpAddr, chrono::DateTime<chrono::Utc>, chrono::NaiveDate, Box<char>, Letters);
        let (n, f) = g.pick(&all);
        return f(g, n);
    }
    let t = any_ty(i, g);
    let v = gen(t, g);
    let mut tree = v.tree.clone();
    // pick an element with named fields, prefer one that has something to change
    let ps: Vec<Vec<usize>> = tree.paths().into_iter().filter(|p| {
        let e = v.tree.clone().at(p).clone();
        matches!(e.kind, Kind::Named | Kind::Direct) && (!e.attrs.is_empty() || e.els().count() > 0)
    }).collect();
    if ps.is_empty() {
        return Ok(());
    }
    let p = g.pick(&ps).clone();
    let parent = tree.at(&p);
    let ks: Vec<usize> = (0..parent.kids.len()).filter(|k| matches!(parent.kids[*k], Node::El(_))).collect();
    let attr = ks.is_empty() || (!parent.attrs.is_empty() && g.one(3));
    let dup = g.bool();
    let mut want = v.tree.clone();
    let (occ, what) = if attr {
        let k = g.below(parent.attrs.len());
        let a = parent.attrs[k].clone();
        if dup {
            let at = g.below(parent.attrs.len() + 1);
            parent.attrs.insert(at, a.clone());
        } else {
            parent.attrs.remove(k);
            want.at(&p).attrs.remove(k);
        }
        (a.occ, format!("attribute {}", a.name))
    } else {
        let k = *g.pick(&ks);
        let Node::El(c) = parent.kids[k].clone() else { unreachable!() };
        if dup {
            // before the direct text, wherever that is
            let text = parent.kids.iter().position(|k| matches!(k, Node::Text(_))).unwrap_or(parent.kids.len());
            let at = g.below(text + 1);
            parent.kids.insert(at, Node::El(c.clone()));
        } else {
            parent.kids.remove(k);
            want.at(&p).kids.remove(k);
        }
        (c.occ, format!("element {}", c.name))
    };
    let s = style(g);
    let doc = render(&tree, g, s);
    if dup {
        let got = read(t, &doc);
        match (occ, got) {
            (Occ::Many, Ok(_)) | (Occ::Lax, _) => st.hit("repeated Vec field"),
            (Occ::Many, Err(e)) => fail!(doc, "{}: repeated {what} of a Vec field refused: {e:?}", t.name),
            (_, Ok(b)) => fail!(doc, "{}: second {what} accepted: {}", t.name, b.dbg),
            (_, Err(_)) => st.hit("duplicate"),
        }
        return Ok(());
    }
    match (occ, read(t, &doc)) {
        (Occ::One, Err(Error::MissingValue(_))) => st.hit("missing required"),
        (Occ::One, Err(e)) => fail!(doc, "{}: missing {what} reported as {e:?}", t.name),
        (Occ::One, Ok(b)) => fail!(doc, "{}: missing {what} accepted: {}", t.name, b.dbg),
        (Occ::Lax, _) => {}
        (_, Ok(b)) => {
            st.hit("missing optional");
            if let Err(e) = same(&b.tree, &want) {
                fail!(doc, "{}: without {what}: {e}", t.name);
            }
        }
        (_, Err(e)) => fail!(doc, "{}: absent optional {what} refused: {e:?}", t.name),
    }
    // interleaved repetitions keep their order
    let mut mixed = v.tree.clone();
    reorder(&mut mixed, g);
    let doc = render(&mixed, g, s);
    st.hit("interleaved");
    expect_value(t, &doc, &v, "interleaved fields")
}
#[derive(Debug, PartialEq, FromXml)]
struct Empties<'a> {
    #[xml(attribute)]
    at: String,
    #[xml(attribute)]
    ao: Option<Cow<'a, str>>,
    s: String,
    c: Cow<'a, str>,
    #[xml(borrow)]
    b: Cow<'a, str>,
    o: Option<String>,
    v: Vec<String>,
    x: Box<String>,
}

// --- C12 ---------------------------------------------------------------------------------

#[derive(Debug, PartialEq, FromXml, ToXml)]
struct Sc<T> {
    #[xml(attribute)]
    a: T,
    e: T,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "Sc")]
struct ScAttr<T> {
    #[xml(attribute)]
    a: T,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "Sc")]
struct ScEl<T> {
    e: Option<T>,
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "Sc")]
struct ScOne<T> {
    e: T,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "Sc")]
struct ScDirect<T> {
    #[xml(direct)]
    e: T,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(scalar)]
enum Letters {
    Aa,
    #[xml(rename = "b")]
    Bb,
}
/// a scalar that is not a string has no value that is no text
fn nothing<T: PartialEq + fmt::Debug + for<'x> FromXml<'x>>(g: &mut Rng, what: &str) -> R {
    let doc = g.pick(&["<Sc><e/></Sc>", "<Sc><e></e></Sc>", "<Sc>\n <e><!-- c --></e></Sc>", "<Sc><zz/><e zz=''/></Sc>", "<Sc></Sc>", "<Sc><e><![CDATA[]]></e></Sc>"]).to_string();
    if let Ok(v) = from::<ScOne<T>>(&doc) {
        fail!(doc, "the required {what} is read as {v:?}");
    }
    let doc = g.pick(&["<Sc/>", "<Sc></Sc>", "<Sc><!-- c --></Sc>"]).to_string();
    if let Ok(v) = from::<ScDirect<T>>(&doc) {
        fail!(doc, "the required direct {what} is read as {v:?}");
    }
    let doc = g.pick(&["<Sc a=''/>", "<Sc/>"]).to_string();
    if let Ok(v) = from::<ScAttr<T>>(&doc) {
        fail!(doc, "the required attribute {what} is read as {v:?}");
    }
    Ok(())
}

/// decimals at, just below or just above the middle of two neighbouring f32
fn near_tie(g: &mut Rng) -> String {
    let bits = match g.below(4) {
        0 => g.below(1 << 10) as u32,
        1 => 0x7f7f_fffe - g.below(1 << 10) as u32,
        2 => (g.range(100, 150) as u32) << 23 | g.below(1 << 23) as u32,
        _ => (g.next() as u32 & 0x7fff_ffff).min(0x7f7f_fffe),
    };
    let mid = (f32::from_bits(bits) as f64 + f32::from_bits(bits + 1) as f64) / 2.0;
    let mut s = format!("{mid:.180}").trim_end_matches('0').to_string();
    match g.below(3) {
        0 => s.push_str("00000000000000000000000001"),
        1 if !s.ends_with('.') => {
            let d = s.pop().unwrap();
            s.push((d as u8 - 1) as char);
            s.push_str("99999999999999999999999999");
        }
        _ => s.push('0'),
    }
    if g.one(3) {
        s.insert(0, '-');
    }
    s
}
fn near_number(g: &mut Rng) -> String {
    let bounds: [i128; 14] = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, i32::MAX as i128, u32::MAX as i128, i64::MAX as i128, u64::MAX as i128];
    let mut s = match g.below(12) {
        0..=4 => {
            let b = *g.pick(&bounds) + g.range(0, 2) as i128 - 1;
            let b = if g.one(3) { -b } else { b };
            b.to_string()
        }
        5 => (g.next() as i64 >> g.below(60)).to_string(),
        6 => g.pick(&["", "+", "-", "+5", "-0", "+-1", "--1", "1.0", "1e3", "1E5", ".5", "5.", "0x10", "1_000", "1,0", "NaN", "nan", "-nan", "inf", "-inf", "INF", "Infinity", "infinity", "1e999", "-1e999", "1e-999", "٣", "１", "0b1", "1f32", "true", "1 2", "1\u{0}", "00012", "-00", "+0", "1e", "e1", "1e+5", "1.5e-7", "0.1", "340282350000000000000000000000000000000", "3.5e38", "1.7976931348623157e308", "1.8e308", "1.", "-.5", "."]).to_string(),
        7 => format!("{}", f64::from_bits(g.next())),
        8 => format!("{:e}", f32::from_bits(g.next() as u32)),
        9 => format!("{}.{}", g.below(1000), g.next() % 1_000_000),
        _ => {
            let mut s = (g.next() as i32).to_string();
            let k = g.below(s.len() + 1);
            s.insert(k, *g.pick(&['0', '-', '+', '.', 'e', ' ', 'a', '\n', '_']));
            s
        }
    };
    match g.below(5) {
        0 => s = format!("{}{s}", g.pick(&[" ", "\n\t", "\r ", "  "])),
        1 => s = format!("{s}{}", g.pick(&[" ", "\n", "\t", " x"])),
        _ => {}
    }
    s
}

fn lexical<T: PartialEq + fmt::Debug + for<'x> FromXml<'x>>(g: &mut Rng, text: &str, want: Option<T>, eq: fn(&T, &T) -> bool) -> R {
    let ok = |got: &T| want.as_ref().is_some_and(|w| eq(w, got));
    let mut r = xml::Render { rng: g, style: NOISY, out: String::new(), next_prefix: 0, scope: vec![] };
    let raw = r.chars(text, Some('"'));
    if !text.chars().all(xml::xml_char) {
        return Ok(());
    }
    let doc = format!("<Sc a=\"{raw}\"/>");
    match from::<ScAttr<T>>(&doc) {
        Ok(v) if ok(&v.a) => {}
        Err(_) if want.is_none() => {}
        v => fail!(doc, "attribute text {text:?} read as {v:?}, expected {want:?}"),
    }
    if !text.is_empty() {
        let doc = format!("<Sc><e>{raw}</e></Sc>");
        match from::<ScEl<T>>(&doc) {
            Ok(ScEl { e: Some(v) }) if ok(&v) => {}
            Err(_) if want.is_none() => {}
            v => fail!(doc, "element text {text:?} read as {v:?}, expected {want:?}"),
        }
    }
    Ok(())
}
fn back<T: PartialEq + fmt::Debug + ToXml + Lex + for<'x> FromXml<'x>>(g: &mut Rng, eq: fn(&T, &T) -> bool) -> R {
    let v = Sc { a: T::gen(g), e: T::gen(g) };
    let doc = written(&v, &v)?;
    match from::<Sc<T>>(&doc) {
        Ok(b) if eq(&b.a, &v.a) && eq(&b.e, &v.e) => Ok(()),
        b => fail!(doc, "{v:?} read back as {b:?}"),
    }
}

fn c12(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
    fn e<T: PartialEq>(a: &T, b: &T) -> bool {
        a == b
    }
    macro_rules! num {
        ($t:ty) => {{
            back::<$t>(g, e)?;
            let s = near_number(g);
            lexical::<$t>(g, &s, s.trim().parse().ok(), e)?;
        }};
    }
    macro_rules! fl {
        ($t:ty) => {{
            back::<$t>(g, |a, b| a.to_bits() == b.to_bits())?;
            let s = if g.bool() { near_number(g) } else { near_tie(g) };
            lexical::<$t>(g, &s, s.trim().parse().ok(), |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()))?;
            let v = Sc { a: <$t>::NAN, e: -<$t>::NAN };
            let doc = written(&v, &v)?;
            match from::<Sc<$t>>(&doc) {
                Ok(b) if b.a.is_nan() && b.e.is_nan() => {}
                b => fail!(doc, "NaN read back as {b:?}"),
            }
        }};
    }
    st.hit("scalars");
    match i % 18 {
        0 => num!(i8),
        1 => num!(i16),
        2 => num!(i32),
        3 => num!(i64),
        4 => num!(isize),
        5 => num!(u8),
        6 => num!(u16),
        7 => num!(u32),
        8 => num!(u64),
        9 => num!(usize),
        10 => fl!(f32),
        11 => fl!(f64),
        12 => {
            back::<bool>(g, e)?;
            let s = g.pick(&["true", "false", "1", "0", "True", "TRUE", "FALSE", "t", "f", "yes", "no", "", " true", "true ", "false\n", "01", "00", "2", "-1", "+1", "1.0", "tru", "truefalse", "on", "off", " 0", "0 "]).to_string();
            let want = match s.as_str() {
                "true" | "1" => Some(true),
                "false" | "0" => Some(false),
                _ => None,
            };
            lexical::<bool>(g, &s, want, e)?;
            let s = if g.bool() { g.string() } else { let b = *g.pick(&["true", "false", "1", "0"]); nearly(g, b) };
            let want = match s.as_str() {
                "true" | "1" => Some(true),
                "false" | "0" => Some(false),
                _ => None,
            };
            lexical::<bool>(g, &s, want, e)?;
        }
        13 => {
            back::<char>(g, e)?;
            let s = match g.below(4) {
                0 => g.xml_char().to_string(),
                1 => String::new(),
                2 => format!("{}{}", g.xml_char(), g.xml_char()),
                _ => g.string(),
            };
            let want = if s.chars().count() == 1 { s.chars().next() } else { None };
            lexical::<char>(g, &s, want, e)?;
        }
        14 => {
            use std::net::IpAddr;
            back::<IpAddr>(g, e)?;
            let mut s = IpAddr::gen(g).to_string();
            if g.one(2) {
                let k = g.below(s.len() + 1);
                match g.bool() {
                    true => s.insert(k, *g.pick(&['0', ':', '.', ' ', 'a', '%', '/'])),
                    false => drop(if k < s.len() { Some(s.remove(k)) } else { None }),
                }
            }
            lexical::<IpAddr>(g, &s, s.parse().ok(), e)?;
        }
        15 => {
            back::<DateTime<Utc>>(g, e)?;
            let dt = DateTime::<Utc>::gen(g);
            let s = match g.below(8) {
                0 => dt.to_rfc3339(),
                1 => dt.to_rfc3339_opts(chrono::SecondsFormat::Millis, true),
                2 => dt.to_rfc3339().replace("+00:00", "-00:00"),
                3 => dt.to_rfc3339().replace("+00:00", g.pick(&["+01:00", "-05:30", "+00:01", "+14:00", "", "+00", "z", "Z", "GMT"])),
                4 => dt.to_rfc3339().replace('T', g.pick(&["t", " ", "_", ""])),
                5 => dt.to_rfc2822(),
                6 => format!(" {}", dt.to_rfc3339()),
                _ => {
                    let mut s = dt.to_rfc3339();
                    let k = g.below(s.len());
                    s.replace_range(k..k + 1, *g.pick(&["9", "0", "-", ":", "", "x", "3"]));
                    s
                }
            };
            let want = DateTime::parse_from_rfc3339(&s).ok().filter(|d| d.offset().local_minus_utc() == 0).map(|d| d.with_timezone(&Utc));
            lexical::<DateTime<Utc>>(g, &s, want, e)?;
        }
        16 => {
            back::<NaiveDateTime>(g, e)?;
            let mut s = NaiveDateTime::gen(g).lex();
            if g.bool() {
                let k = g.below(s.len());
                s.replace_range(k..k + 1, *g.pick(&["9", "0", "-", ":", "", "x", "3", "Z"]));
            }
            let want = NaiveDateTime::parse_from_str(&s, "%Y-%m-%dT%H:%M:%S%.f").ok();
            lexical::<NaiveDateTime>(g, &s, want, e)?;
        }
        _ => {
            back::<NaiveDate>(g, e)?;
            let mut s = NaiveDate::gen(g).lex();
            if g.bool() {
                let k = g.below(s.len());
                s.replace_range(k..k + 1, *g.pick(&["9", "0", "-", "/", "", "x", "3", "Z"]));
            }
            let want = NaiveDate::parse_from_str(&s, "%Y-%m-%d").ok();
            lexical::<NaiveDate>(g, &s, want, e)?;
        }
    }
    Ok(())
}

// --- C13 ---------------------------------------------------------------------------------

/// a text that is nearly `s`
fn nearly(g: &mut Rng, s: &str) -> String {
    const ODD: [char; 22] = [' ', '\t', '\n', '\r', '\u{a0}', '\u{feff}', '\u{200b}', '\u{ad}', '\u{301}', '\u{2028}', '\u{85}', '\u{3000}', '\u{1680}', '\u{200e}', '\u{7f}', '0', '-', '_', '.', '+', '"', 'x'];
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..1 + g.below(2) {
        let k = g.below(cs.len() + 1);
        match g.below(8) {
            0 => cs.insert(0, *g.pick(&ODD)),
            1 => cs.push(*g.pick(&ODD)),
            2 => cs.insert(k, *g.pick(&ODD)),
            3 if k < cs.len() => drop(cs.remove(k)),
            4 if k < cs.len() => cs[k] = if cs[k].is_lowercase() { cs[k].to_ascii_uppercase() } else { cs[k].to_ascii_lowercase() },
            5 if k < cs.len() => cs.insert(k, cs[k]),
            6 if k + 1 < cs.len() => cs.swap(k, k + 1),
            7 if k < cs.len() => cs[k] = char::from_u32((cs[k] as u32) ^ (1 << g.below(5))).filter(|c| xml::xml_char(*c)).unwrap_or('a'),
            _ => {}
        }
    }
    cs.into_iter().collect()
}
fn enum_names<T: PartialEq + fmt::Debug + Lex + ToXml + for<'x> FromXml<'x>>(g: &mut Rng, all: &[&str], ns: &str, st: &mut Stats) -> R {
    let v = T::gen(g);
    let name = v.lex();
    if ns.is_empty() {
        let sc = Sc { a: T::gen(g), e: T::gen(g) };
        let doc = written(&sc, &sc)?;
        match parse(&doc, DEFAULT_LIM) {
            Ok(p) if p.attrs[0].val == sc.a.lex() && p.els().next().is_some_and(|e| e.text() == sc.e.lex()) => {}
            p => fail!(doc, "{sc:?} written as {p:?}"),
        }
        match from::<Sc<T>>(&doc) {
            Ok(b) if b == sc => {}
            b => fail!(doc, "{sc:?} read back as {b:?}"),
        }
    }
    st.hit("scalar enum");
    let mut s: String = if g.bool() { g.pick(all).to_string() } else { name };
    match g.below(14) {
        9..=12 => s = nearly(g, &s),
        13 => s = format!("{s}{}", g.pick(all)),
        0 => s = s.to_lowercase(),
        1 => s = s.to_uppercase(),
        2 => s = format!(" {s}"),
        3 => s.push(*g.pick(&[' ', 'x', '\n', 'é'])),
        4 => drop(s.pop()),
        5 => s = String::new(),
        6 => {
            s = g.string();
        }
        7 => {
            let k: Vec<usize> = s.char_indices().map(|c| c.0).collect();
            if !k.is_empty() {
                s.insert(*g.pick(&k), *g.pick(&['a', '-', '_', ' ']));
            }
        }
        _ => {}
    }
    let is_name = all.contains(&s.as_str());
    let mut r = xml::Render { rng: g, style: NOISY, out: String::new(), next_prefix: 0, scope: vec![] };
    let raw = r.chars(&s, Some('"'));
    let el = format!("<Sc><e{}>{raw}</e></Sc>", if ns.is_empty() { String::new() } else { format!(" xmlns=\"{ns}\"") });
    if !s.is_empty() {
        match from::<ScEl<T>>(&el) {
            Ok(ScEl { e: Some(v) }) if is_name && v.lex() == s => {}
            Err(_) if !is_name => {}
            v => fail!(el, "text {s:?} read as {v:?}"),
        }
    } else if let Ok(ScEl { e: Some(v) }) = from::<ScEl<T>>(&el) {
        fail!(el, "empty text read as {v:?}");
    }
    if ns.is_empty() {
        let doc = format!("<Sc a=\"{raw}\"/>");
        match from::<ScAttr<T>>(&doc) {
            Ok(v) if is_name && v.a.lex() == s => {}
            Err(_) if !is_name => {}
            v => fail!(doc, "attribute {s:?} read as {v:?}"),
        }
    }
    Ok(())
}
fn c13(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    match i % 6 {
        0 => enum_names::<Status>(g, &["Active", "Inactive", "on <hold> & \"waiting\"", "active", "A", "two words"], "", st),
        1 => enum_names::<Disc>(g, &["7", "42", "2147483647", "1000", "Neg"], "", st),
        2 => enum_names::<NsStatus>(g, &["first-one", "x", "z42", "FirstOne"], B, st),
        3 => {
            let t = ty(*g.pick(&["Forwards", "ForwardVec", "Message", "WrappedMsg", "Enums", "Raw"]));
            let v = gen(t, g);
            st.hit("forward enum");
            let doc = match &v.written {
                Ok(d) => d.clone(),
                Err(e) => fail!(v.dbg, "refused: {e:?}"),
            };
            match parse(&doc, DEFAULT_LIM) {
                Ok(p) => {
                    if let Err(e) = same(&p, &v.tree) {
                        fail!(doc, "{e}");
                    }
                }
                Err(e) => fail!(doc, "{e:?}"),
            }
            expect_value(t, &doc, &v, "read back")
        }
        4 => {
            st.hit("no variant matches");
            let t = ty("Message");
            let v = gen(t, g);
            let mut e = v.tree.clone();
            match g.below(3) {
                0 => e.ns = if e.ns.is_empty() { "urn:b".into() } else { String::new() },
                1 => e.name.push('s'),
                _ => e.ns = "urn:other".into(),
            }
            let doc = render(&e, g, NOISY);
            match read(t, &doc) {
                Err(_) => {}
                Ok(b) => fail!(doc, "read as {}", b.dbg),
            }
            let mut w = El::new("", "Wrapped", Kind::Named);
            w.attrs.push(At { ns: "".into(), name: "id".into(), val: "1".into(), occ: Occ::One, field: 1 });
            w.kids.push(Node::El(e));
            let doc = render(&w, g, NOISY);
            match read(ty("WrappedMsg"), &doc) {
                Err(_) => Ok(()),
                Ok(b) => fail!(doc, "read as {}", b.dbg),
            }
        }
        _ => {
            let t = ty(*g.pick(&["RnLower", "RnUpper", "RnPascal", "RnCamel", "RnSnake", "RnScream", "RnKebab", "RnScreamKebab"]));
            let v = gen(t, g);
            st.hit("renamed variants");
            let s = style(g);
            let doc = render(&v.tree, g, s);
            expect_value(t, &doc, &v, "renamed variants")
        }
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct EnumAttr {
    #[xml(attribute)]
    a: NsStatus,
}
fn find_enum_attr() -> bool {
    let doc = to_string(&EnumAttr { a: NsStatus::X }).unwrap();
    from::<EnumAttr>(&doc).is_err()
}

// --- C14 ---------------------------------------------------------------------------------

struct Faulty {
    got: String,
    writes: usize,
    /// fail when this many bytes were accepted / at this write
    max_bytes: usize,
    max_writes: usize,
    partial: bool,
    failed: bool,
    after: usize,
    recover: bool,
}
impl fmt::Write for Faulty {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return if self.recover { Ok(()) } else { Err(fmt::Error) };
        }
        if self.writes >= self.max_writes || self.got.len() + s.len() > self.max_bytes {
            if self.partial && self.writes < self.max_writes {
                let mut n = self.max_bytes - self.got.len();
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.got.push_str(&s[..n]);
            }
            self.failed = true;
            return Err(fmt::Error);
        }
        self.writes += 1;
        self.got.push_str(s);
        Ok(())
    }
}
struct Chars(String);
impl fmt::Write for Chars {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            self.write_char(c)?;
        }
        Ok(())
    }
    fn write_char(&mut self, c: char) -> fmt::Result {
        self.0.push(c);
        Ok(())
    }
}

fn c14(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    let t = any_ty(i, g);
    let v = gen(t, g);
    let full = match &v.written {
        Ok(d) => d.clone(),
        Err(e) => fail!(v.dbg, "refused to write: {e:?}"),
    };
    last(&v.dbg);
    let mut c = Chars(String::new());
    match (v.write_to)(&mut c) {
        Ok(()) if c.0 == full => st.hit("other writer"),
        r => fail!(v.dbg, "another writer got {:?} ({r:?}) instead of {full:?}", c.0),
    }
    let mut count = Faulty { got: String::new(), writes: 0, max_bytes: usize::MAX, max_writes: usize::MAX, partial: false, failed: false, after: 0, recover: false };
    if (v.write_to)(&mut count).is_err() || count.got != full {
        fail!(v.dbg, "another writer got {:?} instead of {full:?}", count.got);
    }
    let total = count.writes;
    for _ in 0..12 {
        let by_bytes = g.bool();
        let mut w = Faulty {
            got: String::new(),
            writes: 0,
            max_bytes: if by_bytes { g.below(full.len()) } else { usize::MAX },
            max_writes: if by_bytes { usize::MAX } else { g.below(total) },
            partial: g.bool(),
            failed: false,
            after: 0,
            recover: g.bool(),
        };
        st.hit("failing writer");
        let at = format!("{} failing after {} bytes / {} writes", v.dbg, w.max_bytes, w.max_writes);
        match (v.write_to)(&mut w) {
            Err(Error::Format(_)) => {}
            r => fail!(at, "writer failed but the result is {r:?}"),
        }
        if w.after > 0 {
            fail!(at, "{} more writes after the writer failed", w.after);
        }
        if !full.starts_with(&w.got) {
            fail!(at, "{:?} is no prefix of {full:?}", w.got);
        }
    }
    Ok(())
}

// --- C15 ---------------------------------------------------------------------------------

fn c15(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    match i % 4 {
        0 | 1 => {
            if i % 32 == 0 {
                let empty = |g: &mut Rng| g.pick(&["<![CDATA[]]>", "<a><![CDATA[]]></a>", "<b x=''/>", "<c> </c>", "<d><!-- --></d>", "<![CDATA[]]><e/>", "<f/><![CDATA[]]>", "<g><![CDATA[]]><![CDATA[]]></g>", "<h>&#32;</h>"]).to_string();
                let doc = format!("<r>{}{}</r>", empty(g), if g.bool() { empty(g) } else { String::new() });
                st.hit("empty texts");
                any_against_parser(&doc, st)?;
                let a = from::<AnyElement<'_>>(&doc);
                if let Ok(a) = a {
                    let o = a.clone().into_owned();
                    if o != a {
                        fail!(doc, "into_owned() of {a:?} yields {o:?}");
                    }
                }
            }
            let e = if g.bool() { random_any(g, 3) } else { gen(any_ty(i / 4, g), g).tree };
            let s = style(g);
            let doc = render(&e, g, s);
            any_against_parser(&doc, st)?;
            let a = from::<AnyElement<'_>>(&doc);
            if let Ok(a) = a {
                let o = a.clone().into_owned();
                if o != a {
                    fail!(doc, "into_owned() yields {o:?}");
                }
                st.hit("into_owned");
            }
            Ok(())
        }
        2 => {
            st.hit("Vec<AnyElement> field");
            let s = if g.bool() { Some(g.string()) } else { None };
            let leaf = if g.bool() { Some(Leaf::new(3, "v")) } else { None };
            let any: Vec<El> = (0..g.below(5)).map(|_| random_any(g, 2)).filter(|e| !(e.name == "Leaf" && e.ns.is_empty())).collect();
            let mut kids: Vec<Node> = any.iter().cloned().map(Node::El).collect();
            if let Some(s) = &s {
                let k = g.below(kids.len() + 1);
                kids.insert(k, Node::El(El::leaf(A, "s", s)));
            }
            if let Some(l) = &leaf {
                let k = g.below(kids.len() + 1);
                kids.insert(k, Node::El(Model::exp(l)));
            }
            let mut root = El::new(A, "AnyHolder", Kind::Any);
            root.kids = kids;
            let st2 = style(g);
            let doc = render(&root, g, st2);
            match from::<AnyHolder<'_>>(&doc) {
                Ok(v) => {
                    if v.s != s || v.leaf != leaf || v.any.len() != any.len() {
                        fail!(doc, "read as {v:?}");
                    }
                    for (a, b) in v.any.iter().zip(&any) {
                        if let Err(e) = same(&any_to_el(a), &as_any(b)) {
                            fail!(doc, "{e}");
                        }
                    }
                    Ok(())
                }
                Err(e) => fail!(doc, "{e:?}"),
            }
        }
        _ => {
            st.hit("AnyElement field");
            let el = random_any(g, 2);
            let s = if g.bool() { Some(g.string()) } else { None };
            let mut root = El::new(A, "AnyOne", Kind::Any);
            root.kids.push(Node::El(el.clone()));
            if let Some(s) = &s {
                let k = g.below(2);
                root.kids.insert(k, Node::El(El::leaf(A, "s", s)));
            }
            let two = g.one(6);
            let none = !two && g.one(6);
            if two {
                root.kids.push(Node::El(random_any(g, 1)));
            }
            if none {
                root.kids.retain(|k| matches!(k, Node::El(e) if e.ns == A && e.name == "s"));
            }
            let doc = render(&root, g, PLAIN);
            match from::<AnyOne<'_>>(&doc) {
                Ok(v) if !two && !none => {
                    if v.s != s {
                        fail!(doc, "read as {v:?}");
                    }
                    if let Err(e) = same(&any_to_el(&v.any), &as_any(&el)) {
                        fail!(doc, "{e}");
                    }
                    Ok(())
                }
                Err(Error::DuplicateValue(_)) if two => Ok(()),
                Err(Error::MissingValue(_)) if none => Ok(()),
                v => fail!(doc, "read as {v:?}"),
            }
        }
    }
}

// --- C16 ---------------------------------------------------------------------------------

fn c16(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    if i % 3 == 0 {
        st.hit("corpus of identifiers");
        return crate::cases::check(i / 3, g);
    }
    let i = i / 3;
    let names = ["RnLower", "RnUpper", "RnPascal", "RnCamel", "RnSnake", "RnScream", "RnKebab", "RnScreamKebab", "Renamed", "Enums", "Raw"];
    let t = ty(names[(i as usize + i as usize / names.len()) % names.len()]);
    let v = gen(t, g);
    st.hit("renamed fields and variants");
    let doc = match &v.written {
        Ok(d) => d.clone(),
        Err(e) => fail!(v.dbg, "{e:?}"),
    };
    match parse(&doc, DEFAULT_LIM) {
        Ok(p) => {
            if let Err(e) = same(&p, &v.tree) {
                fail!(doc, "{}: {e}", t.name);
            }
        }
        Err(e) => fail!(doc, "{e:?}"),
    }
    let doc = render(&v.tree, g, PLAIN);
    expect_value(t, &doc, &v, "renamed")
}

// --- C17 ---------------------------------------------------------------------------------

fn garbage(g: &mut Rng, doc: &str) -> String {
    let mut cs: Vec<char> = doc.chars().collect();
    for _ in 0..g.range(1, 4) {
        if cs.is_empty() {
            break;
        }
        let k = g.below(cs.len());
        match g.below(7) {
            0 => drop(cs.remove(k)),
            1 => cs[k] = *g.pick(&['<', '>', '&', '"', '/', ';', ':', ' ', '=', '!', '?', 'x', '\0', 'é', '\u{10ffff}', '#', ']', '-']),
            2 => cs.insert(k, *g.pick(&['<', '>', '&', '"', '/', ';', ':', ' ', '=', '!', '?', 'x', '\0', 'é', '\u{10ffff}', '#', ']', '-'])),
            3 => {
                let n = g.range(1, 12).min(cs.len() - k);
                cs.drain(k..k + n);
            }
            4 => {
                let n = g.range(1, 20).min(cs.len() - k);
                let piece: Vec<char> = cs[k..k + n].to_vec();
                let at = g.below(cs.len());
                cs.splice(at..at, piece);
            }
            5 => {
                let s = *g.pick(&["<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "<?pi x?>", "<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY b \"c\">]>", "</", "/>", "xmlns:p=\"\"", " xmlns:xml=\"a\"", " xmlns:=\"x\"", " xmlns=\"x\" xmlns=\"y\"", "p:q:r", ":a", "a:", "&#x;", "&#xFFFFFFFFF;", "<a:b xmlns:a=''/>", "<></>", "\u{feff}", "&#", "&é", "<é/>"]);
                cs.splice(k..k, s.chars());
            }
            _ => cs.truncate(k),
        }
    }
    cs.into_iter().collect()
}
/// a random sequence of calls, on the deserializer or on nested ones
fn calls<'xml>(d: &mut Deserializer<'_, 'xml>, g: &mut Rng, depth: usize, budget: &mut usize) {
    while *budget > 0 {
        *budget -= 1;
        match g.below(10) {
            0 => {
                let _ = d.take_str();
            }
            1 => {
                let _ = d.ignore();
            }
            _ => match d.next() {
                Some(Ok(DNode::Open(e))) => {
                    let _ = d.element_id(&e);
                    match g.below(4) {
                        0 => {} // not entered: its content is read by the outer one
                        1 => {
                            let mut n = d.for_node(DNode::Open(e));
                            let _ = n.next();
                            if depth < 200 {
                                calls(&mut n, g, depth + 1, budget);
                            }
                        }
                        _ => {
                            let mut n = d.nested(e);
                            if depth < 200 {
                                calls(&mut n, g, depth + 1, budget);
                            }
                        }
                    }
                }
                Some(Ok(DNode::Attribute(a))) => {
                    let _ = d.attribute_id(&a);
                    if g.bool() {
                        let mut n = d.for_node(DNode::AttributeValue(a.value));
                        let _ = n.take_str();
                    }
                }
                Some(Ok(n)) => {
                    if g.one(3) {
                        let mut n = d.for_node(n);
                        let _ = n.take_str();
                        let _ = n.ignore();
                    }
                }
                Some(Err(_)) => {
                    if g.one(4) {
                        return;
                    }
                }
                None => {
                    if g.bool() {
                        return;
                    }
                }
            },
        }
    }
}

fn c17(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    let t = any_ty(i, g);
    let v = gen(t, g);
    match i % 8 {
        0 => {
            // sizes: time stays in proportion (the watchdog ends anything endless)
            if i % 800 != 0 {
                return Ok(());
            }
            st.hit("large documents");
            let n = 60_000;
            let docs = [
                format!("<a>{}</a>", "<b c=\"d\"/>".repeat(n)),
                format!("<a>{}</a>", "x<!-- -->".repeat(n)),
                format!("<a>{}</a>", "&amp;".repeat(n)),
                "<a>".repeat(n),
                format!("{}{}", "<a>".repeat(n), "</a>".repeat(n)),
                format!("<a {}/>", "b=\"c\" ".repeat(n)),
                format!("<a {}/>", (0..n).map(|k| format!("xmlns:p{k}=\"u\" ")).collect::<String>()),
                format!("<a>{}", "<![CDATA[x]]>".repeat(n)),
                "&".repeat(n),
                "<".repeat(n),
                format!("<a b=\"{}\"/>", "&#x26;".repeat(n)),
                format!("<!--{}", "-".repeat(n)),
            ];
            let doc = &docs[(i / 800) as usize % docs.len()];
            let start = std::time::Instant::now();
            let _ = from::<AnyElement<'_>>(doc);
            let _ = from::<Leaf>(doc);
            let _ = Deserializer::new(doc).and_then(|mut d| d.ignore());
            if start.elapsed().as_secs() > 20 {
                fail!(&doc[..200], "{} bytes took {:?}", doc.len(), start.elapsed());
            }
            Ok(())
        }
        1 => {
            st.hit("deep documents");
            let n = g.range(25, 60) + if g.one(10) { 30_000 } else { 0 };
            let name = *g.pick(&["node", "Wrap", "a", "Leaf", "inner"]);
            let mut doc = String::new();
            for _ in 0..n {
                doc.push_str(&format!("<{name} name=\"x\" id=\"1\">"));
            }
            if g.bool() {
                for _ in 0..n {
                    doc.push_str(&format!("</{name}>"));
                }
            }
            for r in targets(t, &doc) {
                if n > 32 && r.1.is_ok() {
                    fail!(doc, "{n} nested elements accepted by {}", r.0);
                }
            }
            let _ = from::<Tree>(&doc);
            Ok(())
        }
        2 | 3 => {
            st.hit("call sequences");
            let e = if g.bool() { random_any(g, 3) } else { v.tree };
            let mut doc = render(&e, g, NOISY);
            if g.bool() {
                doc = garbage(g, &doc);
            }
            last(&doc);
            if let Ok(d) = Deserializer::new(&doc) {
                let mut limits = instant_xml::de::Limits::default();
                for l in [&mut limits.max_levels, &mut limits.max_attributes, &mut limits.max_ns_declarations] {
                    if g.one(4) {
                        *l = *g.pick(&[0, 1, 2, usize::MAX - 1, usize::MAX]);
                    }
                }
                let mut d = if g.bool() { d.with_limits(limits) } else { d };
                let mut budget = 120;
                calls(&mut d, g, 0, &mut budget);
                // and always ends
                for k in 0.. {
                    match d.next() {
                        None => break,
                        Some(Err(_)) if k > 4 * doc.len() + 100 => break,
                        _ if k > 8 * doc.len() + 1000 => fail!(doc, "next() does not end"),
                        _ => {}
                    }
                }
            }
            Ok(())
        }
        _ => {
            st.hit("malformed documents");
            let s = style(g);
            let doc = render(&v.tree, g, s);
            let doc = garbage(g, &doc);
            for _ in targets(t, &doc) {}
            let u = g.pick(TYPES);
            let _ = read(u, &doc);
            let _ = from::<AnyHolder<'_>>(&doc);
            let _ = from::<Borrowed<'_>>(&doc);
            let _ = from::<String>(&doc);
            let _ = from::<Vec<u8>>(&doc);
            let _ = from::<Option<Leaf>>(&doc);
            let _ = from::<Neighbours>(&doc);
            Ok(())
        }
    }
}

// --- C18 ---------------------------------------------------------------------------------

#[derive(Debug, PartialEq, FromXml)]
#[xml(transparent)]
struct AnyInline<'a> {
    a: u8,
    b: Option<u8>,
    c: Vec<u8>,
    d: Option<Leaf>,
    #[xml(borrow)]
    e: Option<AnyElement<'a>>,
}
#[derive(Debug, PartialEq, FromXml)]
struct AnyInlineHolder<'a> {
    #[xml(borrow)]
    i: AnyInline<'a>,
}
/// A field that takes any element gets just what the fields before it leave
fn inline_any(g: &mut Rng, st: &mut Stats) -> R {
    st.hit("any element in a transparent struct");
    let mut els = vec![El::leaf("", "a", "1")];
    if g.bool() {
        els.push(El::leaf("", "b", "2"));
    }
    let n = g.below(3);
    els.extend((0..n).map(|_| El::leaf("", "c", "3")));
    let leaf = g.bool().then(|| Leaf::arb(g, 0));
    els.extend(leaf.as_ref().map(Model::exp));
    let b = els.iter().any(|e| e.name == "b").then_some(2);
    let any = g.bool().then(|| random_any(g, 1)).filter(|e| !(e.ns.is_empty() && ["a", "b", "c", "Leaf"].contains(&e.name.as_str())));
    els.extend(any.clone());
    g.shuffle(&mut els);
    let mut root = El::new("", "AnyInlineHolder", Kind::Named);
    root.kids = els.into_iter().map(Node::El).collect();
    let doc = render(&root, g, Style { noise: false, ns_noise: true, pretty: false });
    match from::<AnyInlineHolder<'_>>(&doc) {
        Ok(v) if (v.i.a, v.i.b, v.i.c.len(), &v.i.d) == (1, b, n, &leaf) && v.i.e.is_some() == any.is_some() => Ok(()),
        v => fail!(doc, "read as {v:?}"),
    }
}
fn c18(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    if i % 16 == 11 {
        return inline_any(g, st);
    }
    let names = ["Transparent", "TransparentOpt", "TransparentWith", "TupleOne", "TupleMany", "TupleCow", "TupleNum", "TupleStr", "TupleMix", "TupleHolder"];
    let t = ty(names[(i as usize + i as usize / names.len()) % names.len()]);
    let v = gen(t, g);
    let doc = match &v.written {
        Ok(d) => d.clone(),
        Err(e) => fail!(v.dbg, "refused: {e:?}"),
    };
    match parse(&doc, DEFAULT_LIM) {
        Ok(p) => {
            if let Err(e) = same(&p, &v.tree) {
                fail!(doc, "{}: {e}", t.name);
            }
        }
        Err(e) => fail!(doc, "{e:?}"),
    }
    expect_value(t, &doc, &v, "read back")?;
    let mut tree = v.tree.clone();
    match g.below(3) {
        0 => {
            st.hit("any order");
            reorder(&mut tree, g);
            mutate_unknown(&mut tree, g, st);
            let s = style(g);
            let doc = render(&tree, g, s);
            if parse(&doc, DEFAULT_LIM).is_err() {
                return Ok(()); // deeper than the default limits allow
            }
            expect_value(t, &doc, &v, "fields in another order")
        }
        1 => {
            // presence rules
            if tree.kind == Kind::Tuple {
                return tuple_positions(t, &v, g, st);
            }
            let ks: Vec<usize> = (0..tree.kids.len()).filter(|k| matches!(tree.kids[*k], Node::El(_))).collect();
            if ks.is_empty() {
                return Ok(());
            }
            let k = *g.pick(&ks);
            let Node::El(c) = tree.kids[k].clone() else { unreachable!() };
            let dup = g.bool();
            if dup {
                tree.kids.push(Node::El(c.clone()));
            } else {
                tree.kids.remove(k);
            }
            let s = style(g);
            let doc = render(&tree, g, s);
            let r = read(t, &doc);
            match (c.occ, dup, r) {
                (Occ::One, false, Err(_)) => st.hit("missing"),
                (Occ::One, false, Ok(b)) => fail!(doc, "missing {} accepted: {}", c.name, b.dbg),
                (Occ::Opt | Occ::Many, false, Ok(b)) => {
                    st.hit("absent");
                    if let Err(e) = same(&b.tree, &tree) {
                        fail!(doc, "{e}");
                    }
                }
                (Occ::Opt | Occ::Many, false, Err(e)) => fail!(doc, "absent {} refused: {e:?}", c.name),
                (Occ::One | Occ::Opt, true, Ok(b)) => fail!(doc, "second {} accepted: {}", c.name, b.dbg),
                (Occ::Many, true, Err(e)) => fail!(doc, "repeated {} refused: {e:?}", c.name),
                _ => st.hit("repeated"),
            }
            Ok(())
        }
        _ => tuple_positions(t, &v, g, st),
    }
}
fn tuple_positions(t: &Ty, v: &Val, g: &mut Rng, st: &mut Stats) -> R {
    // find a tuple element in the tree
    let mut tree = v.tree.clone();
    let ps: Vec<Vec<usize>> = tree.paths().into_iter().filter(|p| {
        let e = v.tree.clone().at(p).clone();
        e.kind == Kind::Tuple && e.els().count() > 0
    }).collect();
    if ps.is_empty() {
        return Ok(());
    }
    let p = g.pick(&ps).clone();
    let e = tree.at(&p);
    let ks: Vec<usize> = (0..e.kids.len()).filter(|k| matches!(e.kids[*k], Node::El(_))).collect();
    let k = *g.pick(&ks);
    let Node::El(c) = &mut e.kids[k] else { unreachable!() };
    let occ = c.occ;
    match g.below(3) {
        0 => {
            c.ns = "urn:other".into();
            st.hit("other namespace in position");
        }
        1 => {
            c.name.push('x');
            st.hit("other name in position");
        }
        _ => {
            st.hit("missing in position");
            e.kids.remove(k);
        }
    }
    if occ != Occ::One {
        return Ok(());
    }
    let s = Style { noise: false, ns_noise: true, pretty: false };
    let doc = render(&tree, g, s);
    match read(t, &doc) {
        Err(_) => Ok(()),
        Ok(b) => fail!(doc, "{}: wrong or missing element in a tuple position accepted: {}", t.name, b.dbg),
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
struct TupleVec(Vec<Leaf>);
fn find_tuple_vec() -> bool {
    let v = TupleVec(vec![Leaf::new(1, "a"), Leaf::new(2, "b")]);
    let doc = to_string(&v).unwrap();
    from::<TupleVec>(&doc) != Ok(v)
}
