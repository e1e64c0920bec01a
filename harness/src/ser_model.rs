//! Random sequences of serializer calls against a small model of the protocol.
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

use instant_xml::ser::{Context, Element, Prefix};
use instant_xml::{Error, Id, Serializer, ToXml};

use crate::props::last;
use crate::rng::Rng;
use crate::types::*;
use crate::xml::{parse, same, At, El, Kind, Lim, Node, Occ};
use crate::{fail, Fail, Stats, R};

#[derive(Clone, Default)]
struct Shared(Rc<RefCell<String>>);
impl fmt::Write for Shared {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.borrow_mut().push_str(s);
        Ok(())
    }
}

const NS: [&str; 5] = ["", "urn:a", "urn:b", "urn:c", "http://example.com/d?x=1"];
const PRE: [&str; 5] = ["", "pa", "pb", "p-c", "d.1"];
const NAMES: [&str; 5] = ["a", "b", "long-name", "_x", "n.1"];

/// An attribute value that tries calls which are not allowed inside an attribute value
struct Script<'a> {
    ops: Vec<u8>,
    text: String,
    out: Shared,
    log: RefCell<Vec<String>>,
    stop: bool,
    tok: RefCell<Option<Element<'static, 2>>>,
    _p: &'a (),
}
impl ToXml for Script<'_> {
    fn serialize<W: fmt::Write + ?Sized>(&self, _: Option<Id<'_>>, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        for op in &self.ops {
            let before = self.out.0.borrow().len();
            let (name, err) = match op {
                0 => ("end_start", s.end_start().err()),
                1 => ("end_empty", s.end_empty().err()),
                2 => ("write_attr", s.write_attr("in", "", "v").err()),
                3 => ("write_start", s.write_start("in", "", None::<Context<0>>).err()),
                4 => ("write_start with context", s.write_start("in", "urn:a", Some(context(true, "urn:a", [1, 2]))).err()),
                6 => match self.tok.borrow_mut().take() {
                    Some(tok) => ("write_close", s.write_close(tok).err()),
                    None => continue,
                },
                _ => {
                    if let Err(e) = s.write_str("") {
                        self.log.borrow_mut().push(format!("text refused: {e:?}"));
                    }
                    continue;
                }
            };
            let grown = self.out.0.borrow().len() != before;
            match &err {
                None => self.log.borrow_mut().push(format!("{name} accepted inside an attribute value")),
                Some(_) if grown => self.log.borrow_mut().push(format!("{name} refused but wrote {:?}", &self.out.0.borrow()[before..])),
                Some(_) => {}
            }
            if let (true, Some(e)) = (self.stop, err) {
                return Err(e);
            }
        }
        s.write_str(&self.text)
    }
}

/// the token of an element of another document
fn token() -> Option<Element<'static, 2>> {
    let mut other = String::new();
    Serializer::new(&mut other).write_start("in", "", None::<Context<2>>).ok()
}

fn context(force: bool, ns: &'static str, prefixes: [usize; 2]) -> Context<2> {
    let mut cx = Context::<2>::default();
    cx.default_ns = ns;
    cx.force_prefix = force;
    cx.prefixes = prefixes.map(|i| Prefix { prefix: PRE[i], ns: NS[i] });
    cx
}

struct Open {
    tok: Element<'static, 2>,
    tree: El,
    scope: (&'static str, Vec<Option<&'static str>>),
    leaf: bool,
}

fn scope<W: fmt::Write + ?Sized>(s: &Serializer<'_, W>) -> (&'static str, Vec<Option<&'static str>>) {
    (s.default_ns(), NS.iter().map(|n| s.prefix(n)).collect())
}

fn sequence(g: &mut Rng, st: &mut Stats, illegal: bool, strict_ns: bool) -> R {
    let out = Shared::default();
    let mut sink = out.clone();
    let mut s = Serializer::new(&mut sink);
    let mut log = String::new();
    let mut open: Vec<Open> = vec![];
    let mut root: Option<El> = None;
    let mut in_tag = false;
    let mut attr_ns = "";
    let mut counter = 0;
    let steps = g.range(4, 40);
    let mut step = 0;
    macro_rules! note {
        ($($t:tt)*) => {{ log.push_str(&format!($($t)*)); log.push_str("; "); last(&log); }};
    }
    macro_rules! refused {
        ($call:expr, $what:expr) => {{
            let before = out.0.borrow().clone();
            let sc = scope(&s);
            note!("{} [refused?]", $what);
            let r = $call;
            if r.is_ok() {
                fail!(format!("{log}\noutput: {}", out.0.borrow()), "{} accepted where it is not allowed", $what);
            }
            if *out.0.borrow() != before {
                fail!(format!("{log}\noutput: {}", out.0.borrow()), "{} refused but wrote something", $what);
            }
            if scope(&s) != sc {
                fail!(format!("{log}\noutput: {}", out.0.borrow()), "{} refused but changed the namespaces in scope", $what);
            }
            st.hit("refused calls");
        }};
    }
    macro_rules! accepted {
        ($call:expr, $what:expr) => {{
            note!("{}", $what);
            match $call {
                Ok(v) => v,
                Err(e) => fail!(format!("{log}\noutput: {}", out.0.borrow()), "{} refused: {e:?}", $what),
            }
        }};
    }
    loop {
        step += 1;
        let finishing = step > steps;
        if finishing && root.is_some() {
            break;
        }
        let op = match (finishing, in_tag, open.is_empty()) {
            (_, _, true) => 0,
            (true, true, _) => *g.pick(&[3, 4]),
            (true, false, _) => 5,
            (false, true, _) => *g.pick(&[1, 1, 1, 3, 3, 4, 4, 0, 2]),
            (false, false, _) => *g.pick(&[0, 0, 0, 2, 5, 5, 1, 3, 4]),
        };
        let legal = match op {
            0 | 2 | 5 => !in_tag,
            _ => in_tag,
        };
        if !legal && !illegal {
            continue;
        }
        match op {
            0 => {
                let k = g.below(NS.len());
                let (name, ns) = (*g.pick(&NAMES), NS[k]);
                let leaf = strict_ns && g.one(4);
                let no_cx = leaf || (!strict_ns && g.one(4));
                let p = [g.below(NS.len()), g.below(NS.len())];
                let p = if p[0] == p[1] { [p[0], 0] } else { p };
                let cx = if no_cx { None } else { Some(context(g.one(4), ns, p)) };
                let what = format!("write_start({name}, {ns:?}, {cx:?})");
                if !legal {
                    refused!(s.write_start(name, ns, cx), what);
                    continue;
                }
                if open.last().is_some_and(|o| o.leaf) {
                    continue;
                }
                let sc = scope(&s);
                attr_ns = if no_cx { sc.0 } else { ns };
                let tok = accepted!(s.write_start(name, ns, cx), what);
                if tok.name != name {
                    fail!(log, "element token has another name");
                }
                let tree = El::new(ns, name, Kind::Any);
                open.push(Open { tok, tree, scope: sc, leaf });
                in_tag = true;
            }
            1 => {
                counter += 1;
                let name: String = format!("k{counter}");
                let ns = *g.pick(&NS);
                let text = g.string();
                let what = format!("write_attr({name}, {ns:?}, {text:?})");
                if !legal {
                    refused!(s.write_attr(&name, ns, &text), what);
                    continue;
                }
                let prefixed = !ns.is_empty() && s.prefix(ns).is_some();
                if !(ns.is_empty() || prefixed || ns == attr_ns) {
                    if illegal {
                        refused!(s.write_attr(&name, ns, &text), what);
                    }
                    continue;
                }
                if illegal && g.one(3) {
                    let plain = "plain".to_string();
                    let script = Script { ops: (0..g.range(1, 4)).map(|_| g.below(7) as u8).collect(), text: plain.clone(), out: out.clone(), log: Default::default(), stop: g.one(4), tok: RefCell::new(token()), _p: &() };
                    note!("{what} as {:?}", script.ops);
                    let r = s.write_attr(&name, ns, &script);
                    st.hit("calls inside attribute values");
                    let l = script.log.borrow();
                    if !l.is_empty() {
                        fail!(format!("{log}\noutput: {}", out.0.borrow()), "{}", l.join(", "));
                    }
                    if r.is_err() {
                        // given up by the caller
                        return Ok(());
                    }
                    let o = open.last_mut().unwrap();
                    o.tree.attrs.push(At { ns: if prefixed { ns.into() } else { String::new() }, name, val: plain, occ: Occ::One, field: 0 });
                    continue;
                }
                accepted!(s.write_attr(&name, ns, &text), what);
                let o = open.last_mut().unwrap();
                o.tree.attrs.push(At { ns: if prefixed { ns.into() } else { String::new() }, name, val: text, occ: Occ::One, field: 0 });
            }
            2 => {
                let text = g.plain(0, 6);
                let what = format!("write_str({text:?})");
                if !legal {
                    refused!(s.write_str(&text), what);
                    continue;
                }
                accepted!(s.write_str(&text), what);
                open.last_mut().unwrap().tree.kids.push(Node::Text(text));
            }
            3 => {
                if !legal {
                    refused!(s.end_start(), "end_start()");
                    continue;
                }
                accepted!(s.end_start(), "end_start()");
                in_tag = false;
            }
            4 => {
                if !legal {
                    refused!(s.end_empty(), "end_empty()");
                    continue;
                }
                accepted!(s.end_empty(), "end_empty()");
                in_tag = false;
                let o = open.pop().unwrap();
                if strict_ns && scope(&s) != o.scope {
                    fail!(format!("{log}\noutput: {}", out.0.borrow()), "namespaces in scope after an empty element: {:?} instead of {:?}", scope(&s), o.scope);
                }
                match open.last_mut() {
                    Some(p) => p.tree.kids.push(Node::El(o.tree)),
                    None => root = Some(o.tree),
                }
            }
            _ => {
                if !legal {
                    if g.one(6) {
                        let o = open.pop().unwrap();
                        refused!(s.write_close(o.tok), "write_close()");
                        return Ok(());
                    }
                    continue;
                }
                let o = open.pop().unwrap();
                accepted!(s.write_close(o.tok), "write_close()");
                if strict_ns && scope(&s) != o.scope {
                    fail!(format!("{log}\noutput: {}", out.0.borrow()), "namespaces in scope after an element: {:?} instead of {:?}", scope(&s), o.scope);
                }
                match open.last_mut() {
                    Some(p) => p.tree.kids.push(Node::El(o.tree)),
                    None => root = Some(o.tree),
                }
            }
        }
        if root.is_some() {
            break;
        }
    }
    let doc = out.0.borrow().clone();
    let p = match parse(&doc, Lim { levels: 1000, attrs: 1000, decls: 1000 }) {
        Ok(p) => p,
        Err(e) => fail!(format!("{log}\noutput: {doc}"), "output is not well-formed: {e:?}"),
    };
    st.hit("finished documents");
    let root = root.unwrap();
    let r = if strict_ns { same(&p, &root) } else { same(&strip(&p), &strip(&root)) };
    match r {
        Ok(()) => Ok(()),
        Err(e) => fail!(format!("{log}\noutput: {doc}"), "output differs from what was written: {e}"),
    }
}
/// without namespaces
fn strip(e: &El) -> El {
    let mut e = e.clone();
    e.ns = String::new();
    for a in &mut e.attrs {
        a.ns = String::new();
    }
    for k in &mut e.kids {
        if let Node::El(c) = k {
            *c = strip(c);
        }
    }
    e
}

fn derived(i: u64, g: &mut Rng, st: &mut Stats, ns: bool) -> R {
    let t = &TYPES[i as usize % TYPES.len()];
    last(t.name);
    let v = (t.gen)(g);
    let doc = match &v.written {
        Ok(d) => d,
        Err(e) => fail!(v.dbg, "{} refused to write: {e:?}", t.name),
    };
    st.hit("derived types");
    match parse(doc, Lim { levels: 1000, attrs: 1000, decls: 1000 }) {
        Err(e) => fail!(doc, "{}: output is not well-formed: {e:?}", t.name),
        Ok(p) => {
            let r = if ns { same(&p, &v.tree) } else { same(&strip(&p), &strip(&v.tree)) };
            if let Err(e) = r {
                fail!(doc, "{}: output says something else than the value: {e}", t.name);
            }
        }
    }
    Ok(())
}

pub fn c08(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    match i % 4 {
        0 => derived(i / 4, g, st, false),
        1 => sequence(g, st, false, false),
        _ => sequence(g, st, true, false),
    }
}
pub fn c09(i: u64, g: &mut Rng, st: &mut Stats) -> R {
    match i % 4 {
        0 | 1 => derived(i / 4 * 2 + i % 2, g, st, true),
        2 => sequence(g, st, false, true),
        _ => sequence(g, st, true, true),
    }
}
#[allow(unused_imports)]
use Fail as _;
