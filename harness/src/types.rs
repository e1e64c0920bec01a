//! The types under test: one derived type per feature (and combination of features) of the
//! derive macros, each with a generator of values and the XML tree that the documentation
//! prescribes for a value (`exp`), written by hand and independent of the macros.
#![allow(clippy::all)]
use crate::rng::Rng;
use crate::xml::*;
use chrono::{DateTime, NaiveDate, NaiveDateTime, TimeZone, Utc};
use instant_xml::ser::Context;
use instant_xml::{Accumulate, AnyAttribute, AnyElement, Deserializer, Error, FromXml, Id, Kind as XKind, Serializer, ToXml};
use std::borrow::Cow;
use std::fmt;
use std::net::IpAddr;

pub const A: &str = "urn:a";
pub const B: &str = "urn:b";
pub const C: &str = "http://example.com/c?x=1";
pub const Q0: &str = "urn:q0";
pub const Q1: &str = "urn:q1";
pub mod consts {
    pub const D: &str = "urn:d";
}

use consts::D;

pub trait Model: Sized + fmt::Debug {
    fn arb(g: &mut Rng, d: u32) -> Self;
    fn exp(&self) -> El;
}

/// Lexical form of a scalar
pub trait Lex: Sized {
    fn gen(g: &mut Rng) -> Self;
    fn lex(&self) -> String;
    const NUM: bool = false;
}

pub struct S {
    el: El,
    next: u32,
    occ: Occ,
}

impl S {
    pub fn new(ns: &str, name: &str) -> Self {
        S { el: El::new(ns, name, Kind::Named), next: 0, occ: Occ::One }
    }
    fn f(&mut self) -> u32 {
        self.next += 1;
        self.next
    }
    fn attr<T: Lex>(mut self, ns: &str, name: &str, v: Option<&T>, occ: Occ) -> Self {
        let field = self.f();
        if let Some(v) = v {
            self.el.attrs.push(At { ns: ns.into(), name: name.into(), val: v.lex(), occ, field });
        }
        self
    }
    pub fn at<T: Lex>(self, ns: &str, name: &str, v: &T) -> Self {
        self.attr(ns, name, Some(v), Occ::One)
    }
    pub fn at_opt<T: Lex>(self, ns: &str, name: &str, v: &Option<T>) -> Self {
        self.attr(ns, name, v.as_ref(), Occ::Opt)
    }
    fn scal<T: Lex>(mut self, ns: &str, name: &str, v: Vec<&T>, occ: Occ) -> Self {
        let field = self.f();
        for v in v {
            let mut e = El::leaf(ns, name, &v.lex());
            e.occ = occ;
            e.field = field;
            e.numeric = T::NUM;
            self.el.kids.push(Node::El(e));
        }
        self
    }
    pub fn sc<T: Lex>(self, ns: &str, name: &str, v: &T) -> Self {
        self.scal(ns, name, vec![v], Occ::One)
    }
    pub fn sc_opt<T: Lex>(self, ns: &str, name: &str, v: &Option<T>) -> Self {
        self.scal(ns, name, v.iter().collect(), Occ::Opt)
    }
    pub fn sc_many<T: Lex>(self, ns: &str, name: &str, v: &[T]) -> Self {
        self.scal(ns, name, v.iter().collect(), Occ::Many)
    }
    fn els<'a, T: Model + 'a>(mut self, v: impl IntoIterator<Item = &'a T>, occ: Occ) -> Self {
        let field = self.f();
        for v in v {
            let mut e = v.exp();
            e.occ = occ;
            e.field = field;
            self.el.kids.push(Node::El(e));
        }
        self
    }
    pub fn el<T: Model>(self, v: &T) -> Self {
        self.els([v], Occ::One)
    }
    pub fn el_opt<T: Model>(self, v: &Option<T>) -> Self {
        self.els(v.iter(), Occ::Opt)
    }
    pub fn el_many<T: Model>(self, v: &[T]) -> Self {
        self.els(v.iter(), Occ::Many)
    }
    /// fields of a transparent struct, given as a tree whose root is ignored
    pub fn inline(mut self, t: &El, optional: bool) -> Self {
        for k in &t.kids {
            if let Node::El(e) = k {
                let mut e = e.clone();
                e.field += self.next;
                if optional && e.occ == Occ::One {
                    e.occ = Occ::Lax; // all or nothing: excluded from presence tests
                }
                self.el.kids.push(Node::El(e));
            }
        }
        self.next += 20;
        self
    }
    pub fn direct<T: Lex>(mut self, v: Option<&T>) -> Self {
        self.el.kind = Kind::Direct;
        if let Some(v) = v {
            self.el.kids.push(Node::Text(v.lex()));
        }
        self
    }
    pub fn text(mut self, v: String) -> Self {
        self.el.kids.push(Node::Text(v));
        self
    }
    pub fn kind(mut self, k: Kind) -> Self {
        self.el.kind = k;
        self
    }
    pub fn done(self) -> El {
        let _ = self.occ;
        self.el
    }
}

// --- scalars ---------------------------------------------------------------------------

macro_rules! int_lex {
    ($($t:ty),*) => {$(
        impl Lex for $t {
            fn gen(g: &mut Rng) -> Self {
                match g.below(6) {
                    0 => <$t>::MIN,
                    1 => <$t>::MAX,
                    2 => 0,
                    3 => (g.next() % 100) as $t,
                    _ => g.next() as $t,
                }
            }
            fn lex(&self) -> String { self.to_string() }
            const NUM: bool = true;
        }
    )*};
}
int_lex!(i8, i16, i32, i64, isize, u8, u16, u32, u64, usize);

macro_rules! float_lex {
    ($($t:ty, $b:ty);*) => {$(
        impl Lex for $t {
            fn gen(g: &mut Rng) -> Self {
                match g.below(8) {
                    0 => *g.pick(&[0.0, -0.0, 1.0, -1.5, <$t>::MIN, <$t>::MAX, <$t>::MIN_POSITIVE, <$t>::EPSILON, <$t>::INFINITY, <$t>::NEG_INFINITY]),
                    1 => <$t>::from_bits(g.below(10) as $b),
                    2 => (g.next() as i32) as $t / 1000.0,
                    _ => loop {
                        let v = <$t>::from_bits(g.next() as $b);
                        if !v.is_nan() { break v; }
                    },
                }
            }
            fn lex(&self) -> String { self.to_string() }
            const NUM: bool = true;
        }
    )*};
}
float_lex!(f32, u32; f64, u64);

impl Lex for bool {
    fn gen(g: &mut Rng) -> Self {
        g.bool()
    }
    fn lex(&self) -> String {
        if *self { "true" } else { "false" }.into()
    }
}
impl Lex for char {
    fn gen(g: &mut Rng) -> Self {
        g.xml_char()
    }
    fn lex(&self) -> String {
        self.to_string()
    }
}
impl Lex for String {
    fn gen(g: &mut Rng) -> Self {
        g.string()
    }
    fn lex(&self) -> String {
        self.clone()
    }
}
/// The string as a `Cow`, borrowed or owned (its length decides which)
pub fn either_cow<'a>(s: String) -> Cow<'a, str> {
    match s.len() % 3 {
        0 => Cow::Borrowed(Box::leak(s.into_boxed_str())),
        _ => Cow::Owned(s),
    }
}
impl Lex for Cow<'_, str> {
    fn gen(g: &mut Rng) -> Self {
        either_cow(g.string())
    }
    fn lex(&self) -> String {
        self.to_string()
    }
}
impl Lex for Cow<'_, [u8]> {
    fn gen(g: &mut Rng) -> Self {
        g.string().into_bytes().into()
    }
    fn lex(&self) -> String {
        String::from_utf8(self.to_vec()).unwrap()
    }
}
impl<T: Lex> Lex for Box<T> {
    fn gen(g: &mut Rng) -> Self {
        Box::new(T::gen(g))
    }
    fn lex(&self) -> String {
        (**self).lex()
    }
    const NUM: bool = T::NUM;
}
impl Lex for IpAddr {
    fn gen(g: &mut Rng) -> Self {
        match g.bool() {
            true => IpAddr::from((g.next() as u32).to_be_bytes()),
            false => {
                let mut b = [0u8; 16];
                for x in b.iter_mut() {
                    if g.bool() {
                        *x = g.next() as u8;
                    }
                }
                IpAddr::from(b)
            }
        }
    }
    fn lex(&self) -> String {
        self.to_string()
    }
}
fn date(g: &mut Rng) -> NaiveDate {
    loop {
        let y = match g.below(4) {
            0 => *g.pick(&[0, 1, 4, 1900, 1969, 1970, 1999, 2000, 2023, 2024, 9999]),
            _ => g.below(10000) as i32,
        };
        if let Some(d) = NaiveDate::from_ymd_opt(y, 1 + g.below(12) as u32, 1 + g.below(31) as u32) {
            return d;
        }
    }
}
fn datetime(g: &mut Rng) -> NaiveDateTime {
    let nanos = match g.below(5) {
        0 => 0,
        1 => g.below(1000) as u32 * 1_000_000,
        2 => g.below(1_000_000) as u32 * 1000,
        _ => g.below(1_000_000_000) as u32,
    };
    date(g).and_hms_nano_opt(g.below(24) as u32, g.below(60) as u32, g.below(60) as u32, nanos).unwrap()
}
impl Lex for NaiveDate {
    fn gen(g: &mut Rng) -> Self {
        date(g)
    }
    fn lex(&self) -> String {
        self.format("%Y-%m-%d").to_string()
    }
}
impl Lex for NaiveDateTime {
    fn gen(g: &mut Rng) -> Self {
        datetime(g)
    }
    fn lex(&self) -> String {
        self.format("%Y-%m-%dT%H:%M:%S%.f").to_string()
    }
}
impl Lex for DateTime<Utc> {
    fn gen(g: &mut Rng) -> Self {
        Utc.from_utc_datetime(&datetime(g))
    }
    fn lex(&self) -> String {
        self.to_rfc3339()
    }
}

fn opt<T>(g: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    match g.one(3) {
        true => None,
        false => Some(f(g)),
    }
}
fn many<T>(g: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> Vec<T> {
    let n = match g.below(8) {
        0 | 1 => 0,
        2 => g.range(4, 9),
        _ => g.range(1, 3),
    };
    (0..n).map(|_| f(g)).collect()
}

/// Generate `arb` from the types of the fields
macro_rules! fields {
    ($g:ident, $d:ident, $($f:ident: $e:expr),* $(,)?) => { Self { $($f: $e),* } };
}

// --- named structs ---------------------------------------------------------------------

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct Scalars {
    i8: i8,
    i16: i16,
    i32: i32,
    i64: i64,
    isize: isize,
    u8: u8,
    u16: u16,
    u32: u32,
    u64: u64,
    usize: usize,
    f32: f32,
    f64: f64,
    b: bool,
    c: char,
    s: String,
    ip: IpAddr,
}
impl Model for Scalars {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, i8: Lex::gen(g), i16: Lex::gen(g), i32: Lex::gen(g), i64: Lex::gen(g), isize: Lex::gen(g), u8: Lex::gen(g), u16: Lex::gen(g),
            u32: Lex::gen(g), u64: Lex::gen(g), usize: Lex::gen(g), f32: Lex::gen(g), f64: Lex::gen(g), b: Lex::gen(g), c: Lex::gen(g), s: Lex::gen(g), ip: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new("", "Scalars").sc("", "i8", &self.i8).sc("", "i16", &self.i16).sc("", "i32", &self.i32).sc("", "i64", &self.i64).sc("", "isize", &self.isize)
            .sc("", "u8", &self.u8).sc("", "u16", &self.u16).sc("", "u32", &self.u32).sc("", "u64", &self.u64).sc("", "usize", &self.usize)
            .sc("", "f32", &self.f32).sc("", "f64", &self.f64).sc("", "b", &self.b).sc("", "c", &self.c).sc("", "s", &self.s).sc("", "ip", &self.ip).done()
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct AttrScalars {
    #[xml(attribute)]
    i8: i8,
    #[xml(attribute)]
    i16: i16,
    #[xml(attribute)]
    i32: i32,
    #[xml(attribute)]
    i64: i64,
    #[xml(attribute)]
    isize: isize,
    #[xml(attribute)]
    u8: u8,
    #[xml(attribute)]
    u16: u16,
    #[xml(attribute)]
    u32: u32,
    #[xml(attribute)]
    u64: u64,
    #[xml(attribute)]
    usize: usize,
    #[xml(attribute)]
    f32: f32,
    #[xml(attribute)]
    f64: f64,
    #[xml(attribute)]
    b: bool,
    #[xml(attribute)]
    c: char,
    #[xml(attribute)]
    s: String,
    #[xml(attribute)]
    ip: IpAddr,
    #[xml(attribute)]
    st: Status,
    #[xml(attribute)]
    bx: Box<String>,
}
impl Model for AttrScalars {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, i8: Lex::gen(g), i16: Lex::gen(g), i32: Lex::gen(g), i64: Lex::gen(g), isize: Lex::gen(g), u8: Lex::gen(g), u16: Lex::gen(g),
            u32: Lex::gen(g), u64: Lex::gen(g), usize: Lex::gen(g), f32: Lex::gen(g), f64: Lex::gen(g), b: Lex::gen(g), c: Lex::gen(g), s: Lex::gen(g), ip: Lex::gen(g), st: Lex::gen(g), bx: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new("", "AttrScalars").at("", "i8", &self.i8).at("", "i16", &self.i16).at("", "i32", &self.i32).at("", "i64", &self.i64).at("", "isize", &self.isize)
            .at("", "u8", &self.u8).at("", "u16", &self.u16).at("", "u32", &self.u32).at("", "u64", &self.u64).at("", "usize", &self.usize)
            .at("", "f32", &self.f32).at("", "f64", &self.f64).at("", "b", &self.b).at("", "c", &self.c).at("", "s", &self.s).at("", "ip", &self.ip)
            .at("", "st", &self.st).at("", "bx", &self.bx).done()
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct Options {
    #[xml(attribute)]
    a: Option<String>,
    #[xml(attribute)]
    n: Option<i32>,
    s: Option<String>,
    u: Option<u64>,
    b: Option<bool>,
    st: Option<Status>,
    el: Option<Leaf>,
    bx: Option<Box<Leaf>>,
    c: Option<char>,
}
impl Model for Options {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, a: opt(g, Lex::gen), n: opt(g, Lex::gen), s: opt(g, Lex::gen), u: opt(g, Lex::gen), b: opt(g, Lex::gen), st: opt(g, Lex::gen),
            el: opt(g, |g| Leaf::arb(g, d)), bx: None, c: opt(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new("", "Options").at_opt("", "a", &self.a).at_opt("", "n", &self.n).sc_opt("", "s", &self.s).sc_opt("", "u", &self.u).sc_opt("", "b", &self.b)
            .sc_opt("", "st", &self.st).el_opt(&self.el).el_opt::<Leaf>(&None).sc_opt("", "c", &self.c).done()
    }
}

#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
pub struct Leaf {
    #[xml(attribute)]
    id: u8,
    v: String,
}
impl Leaf {
    pub fn new(id: u8, v: &str) -> Self {
        Leaf { id, v: v.into() }
    }
    pub fn v_str(&self) -> &str {
        &self.v
    }
}
impl AttrsOnly {
    pub fn a_str(&self) -> &str {
        &self.a
    }
}
impl Val {
    /// is there an element of this name anywhere in the value's document?
    pub fn tree_has(&self, ns: &str, name: &str) -> bool {
        fn go(e: &El, ns: &str, name: &str) -> bool {
            (e.ns == ns && e.name == name) || e.els().any(|c| go(c, ns, name))
        }
        go(&self.tree, ns, name)
    }
}
impl Model for Leaf {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, id: Lex::gen(g), v: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new("", "Leaf").at("", "id", &self.id).sc("", "v", &self.v).done()
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct Vecs {
    xs: Vec<i16>,
    ss: Vec<String>,
    els: Vec<Leaf>,
    st: Vec<Status>,
    units: Vec<Unit>,
    bs: Vec<Box<AttrsOnly>>,
}
impl Model for Vecs {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, xs: many(g, Lex::gen), ss: many(g, Lex::gen), els: many(g, |g| Leaf::arb(g, d)), st: many(g, Lex::gen), units: many(g, |g| Unit::arb(g, d)), bs: many(g, |g| Box::new(AttrsOnly::arb(g, d))))
    }
    fn exp(&self) -> El {
        S::new("", "Vecs").sc_many("", "xs", &self.xs).sc_many("", "ss", &self.ss).el_many(&self.els).sc_many("", "st", &self.st).el_many(&self.units).els(self.bs.iter().map(|b| &**b), Occ::Many).done()
    }
}

#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
pub struct Unit;
impl Model for Unit {
    fn arb(_: &mut Rng, _: u32) -> Self {
        Unit
    }
    fn exp(&self) -> El {
        S::new("", "Unit").kind(Kind::Unit).done()
    }
}

#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
#[xml(ns(A))]
pub struct UnitNs;
impl Model for UnitNs {
    fn arb(_: &mut Rng, _: u32) -> Self {
        UnitNs
    }
    fn exp(&self) -> El {
        S::new(A, "UnitNs").kind(Kind::Unit).done()
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct Braces {}
impl Model for Braces {
    fn arb(_: &mut Rng, _: u32) -> Self {
        Braces {}
    }
    fn exp(&self) -> El {
        S::new("", "Braces").done()
    }
}

#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
pub struct AttrsOnly {
    #[xml(attribute)]
    a: String,
    #[xml(attribute)]
    b: Option<String>,
}
impl Model for AttrsOnly {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, a: Lex::gen(g), b: opt(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new("", "AttrsOnly").at("", "a", &self.a).at_opt("", "b", &self.b).done()
    }
}

/// Recursive structure with the same names on every level
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "node")]
pub struct Tree {
    #[xml(attribute)]
    name: String,
    value: Option<i32>,
    kids: Vec<Tree>,
    one: Option<Box<Wrap>>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct Wrap {
    inner: Box<Tree>,
    name: String,
}
impl Model for Tree {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, name: Lex::gen(g), value: opt(g, Lex::gen), kids: if d == 0 { vec![] } else { let n = g.below(3); (0..n).map(|_| Tree::arb(g, d - 1)).collect() },
            one: if d == 0 || g.bool() { None } else { Some(Box::new(Wrap { inner: Box::new(Tree::arb(g, d - 1)), name: Lex::gen(g) })) })
    }
    fn exp(&self) -> El {
        S::new("", "node").at("", "name", &self.name).sc_opt("", "value", &self.value).el_many(&self.kids).els(self.one.iter().map(|b| &**b), Occ::Opt).done()
    }
}
impl Model for Wrap {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, inner: Box::new(Tree::arb(g, d.saturating_sub(1))), name: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new("", "Wrap").el(&*self.inner).sc("", "name", &self.name).done()
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(rename = "re-named.x")]
pub struct Renamed {
    #[xml(attribute, rename = "at-tr")]
    a: String,
    #[xml(rename = "El_em")]
    e: i32,
    r#type: bool,
    #[xml(attribute)]
    r#match: u8,
    #[xml(rename = "list")]
    l: Vec<u8>,
}
impl Model for Renamed {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, a: Lex::gen(g), e: Lex::gen(g), r#type: Lex::gen(g), r#match: Lex::gen(g), l: many(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new("", "re-named.x").at("", "at-tr", &self.a).sc("", "El_em", &self.e).sc("", "type", &self.r#type).at("", "match", &self.r#match).sc_many("", "list", &self.l).done()
    }
}

// --- namespaces ------------------------------------------------------------------------

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct NsPlain {
    #[xml(attribute)]
    x: i32,
    s: String,
    o: Option<String>,
    leaf: Leaf,
    b: NsB,
}
impl Model for NsPlain {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, x: Lex::gen(g), s: Lex::gen(g), o: opt(g, Lex::gen), leaf: Leaf::arb(g, d), b: NsB::arb(g, d))
    }
    fn exp(&self) -> El {
        S::new(A, "NsPlain").at("", "x", &self.x).sc(A, "s", &self.s).sc_opt(A, "o", &self.o).el(&self.leaf).el(&self.b).done()
    }
}

/// Another default namespace inside one, whose namespace has a prefix there
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct NsSwitch {
    #[xml(attribute)]
    x: u8,
    before: Option<u8>,
    turn: Option<NsTurned>,
    after: Option<u8>,
}
impl Model for NsSwitch {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, x: Lex::gen(g), before: opt(g, Lex::gen), turn: opt(g, |g| NsTurned::arb(g, d)), after: opt(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new(A, "NsSwitch").at("", "x", &self.x).sc_opt(A, "before", &self.before).el_opt(&self.turn).sc_opt(A, "after", &self.after).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns("urn:b", pa = A))]
pub struct NsTurned {
    #[xml(attribute, ns(A))]
    x: u8,
    #[xml(attribute)]
    z: Option<u8>,
    #[xml(ns(A))]
    y: u8,
    t: Option<u8>,
    b: Option<NsB>,
}
impl Model for NsTurned {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, x: Lex::gen(g), z: opt(g, Lex::gen), y: Lex::gen(g), t: opt(g, Lex::gen), b: opt(g, |g| NsB::arb(g, d)))
    }
    fn exp(&self) -> El {
        S::new(B, "NsTurned").at(A, "x", &self.x).at_opt("", "z", &self.z).sc(A, "y", &self.y).sc_opt(B, "t", &self.t).el_opt(&self.b).done()
    }
}

#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
#[xml(ns("urn:b"))]
pub struct NsB {
    #[xml(attribute)]
    y: Option<i32>,
    t: Option<String>,
}
impl Model for NsB {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, y: opt(g, Lex::gen), t: opt(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new(B, "NsB").at_opt("", "y", &self.y).sc_opt(B, "t", &self.t).done()
    }
}

#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
#[xml(ns("urn:b"))]
pub struct NsBAttr {
    #[xml(attribute)]
    y: Option<i32>,
}
impl Model for NsBAttr {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, y: opt(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new(B, "NsBAttr").at_opt("", "y", &self.y).done()
    }
}

/// Own default namespace, prefixes for others, attributes in namespaces
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A, pb = B, p-c.d = C))]
pub struct NsPrefixed {
    #[xml(attribute, ns(B))]
    xb: String,
    #[xml(attribute, ns(C))]
    xc: Option<u8>,
    #[xml(attribute)]
    x: u8,
    own: String,
    #[xml(ns(B))]
    fb: String,
    #[xml(ns("http://example.com/c?x=1"))]
    fc: Option<i8>,
    #[xml(ns(consts::D))]
    fd: Vec<u8>,
    #[xml(ns(""))]
    none: Option<u8>,
    nb: NsB,
    attr: NsBAttr,
    last: String,
}
impl Model for NsPrefixed {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, xb: Lex::gen(g), xc: opt(g, Lex::gen), x: Lex::gen(g), own: Lex::gen(g), fb: Lex::gen(g), fc: opt(g, Lex::gen), fd: many(g, Lex::gen), none: opt(g, Lex::gen),
            nb: NsB::arb(g, d), attr: NsBAttr::arb(g, d), last: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new(A, "NsPrefixed").at(B, "xb", &self.xb).at_opt(C, "xc", &self.xc).at("", "x", &self.x).sc(A, "own", &self.own).sc(B, "fb", &self.fb).sc_opt(C, "fc", &self.fc)
            .sc_many(consts::D, "fd", &self.fd).sc_opt("", "none", &self.none).el(&self.nb).el(&self.attr).sc(A, "last", &self.last).done()
    }
}

/// Many prefixes, declared in no particular order
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns("urn:many", m-z = B, mz = C, m.z = consts::D, q1 = Q1, q0 = Q0))]
pub struct NsMany {
    #[xml(attribute, ns(Q0))]
    last: Option<String>,
    #[xml(attribute, ns(Q1))]
    mid: u8,
    #[xml(attribute, ns(D))]
    first: Option<u8>,
    #[xml(attribute, ns(C))]
    z: Option<String>,
    #[xml(ns("urn:q0"))]
    e0: String,
    #[xml(ns("urn:q1"))]
    e1: Option<u8>,
    #[xml(ns(C))]
    e2: Option<u8>,
    own: Option<u8>,
}
impl Model for NsMany {
    fn arb(g: &mut Rng, d: u32) -> Self {
        let _ = d;
        fields!(g, d, last: opt(g, Lex::gen), mid: Lex::gen(g), first: opt(g, Lex::gen), z: opt(g, Lex::gen), e0: Lex::gen(g), e1: opt(g, Lex::gen), e2: opt(g, Lex::gen), own: opt(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new("urn:many", "NsMany").at_opt("urn:q0", "last", &self.last).at("urn:q1", "mid", &self.mid).at_opt(D, "first", &self.first).at_opt(C, "z", &self.z)
            .sc("urn:q0", "e0", &self.e0).sc_opt("urn:q1", "e1", &self.e1).sc_opt(C, "e2", &self.e2).sc_opt("urn:many", "own", &self.own).done()
    }
}

/// The own namespace also has a prefix; attribute in it
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A, pa = A))]
pub struct NsOwnPrefix {
    #[xml(attribute, ns(A))]
    x: String,
    #[xml(attribute)]
    y: Option<String>,
    s: String,
    deep: Vec<NsDeep>,
    leafs: Vec<Leaf>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct NsDeep {
    s: Option<String>,
    #[xml(attribute, ns(A))]
    x: Option<String>,
    b: Option<NsB>,
    u: Option<UnitNs>,
}
impl Model for NsOwnPrefix {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, x: Lex::gen(g), y: opt(g, Lex::gen), s: Lex::gen(g), deep: many(g, |g| NsDeep::arb(g, d)), leafs: many(g, |g| Leaf::arb(g, d)))
    }
    fn exp(&self) -> El {
        S::new(A, "NsOwnPrefix").at(A, "x", &self.x).at_opt("", "y", &self.y).sc(A, "s", &self.s).el_many(&self.deep).el_many(&self.leafs).done()
    }
}
impl Model for NsDeep {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, s: opt(g, Lex::gen), x: opt(g, Lex::gen), b: opt(g, |g| NsB::arb(g, d)), u: opt(g, |g| UnitNs::arb(g, d)))
    }
    fn exp(&self) -> El {
        S::new(A, "NsDeep").sc_opt(A, "s", &self.s).at_opt(A, "x", &self.x).el_opt(&self.b).el_opt(&self.u).done()
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A, fb = B, fd = consts::D))]
pub struct NsForce {
    first: Option<NsForceB>,
    second: Vec<NsForceD>,
    third: NsBAttr,
    s: String,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(B), force_prefix)]
pub struct NsForceB {
    #[xml(attribute)]
    k: u8,
    inner: Option<NsB>,
    v: String,
    more: Vec<NsForceD>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(consts::D), force_prefix, rename = "ForceD")]
pub struct NsForceD {
    v: Option<String>,
    #[xml(ns(A))]
    w: Option<String>,
    b: Option<NsB>,
}
impl Model for NsForce {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, first: opt(g, |g| NsForceB::arb(g, d)), second: many(g, |g| NsForceD::arb(g, d)), third: NsBAttr::arb(g, d), s: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new(A, "NsForce").el_opt(&self.first).el_many(&self.second).el(&self.third).sc(A, "s", &self.s).done()
    }
}
impl Model for NsForceB {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, k: Lex::gen(g), inner: opt(g, |g| NsB::arb(g, d)), v: Lex::gen(g), more: many(g, |g| NsForceD::arb(g, d)))
    }
    fn exp(&self) -> El {
        S::new(B, "NsForceB").at("", "k", &self.k).el_opt(&self.inner).sc(B, "v", &self.v).el_many(&self.more).done()
    }
}
impl Model for NsForceD {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, v: opt(g, Lex::gen), w: opt(g, Lex::gen), b: opt(g, |g| NsB::arb(g, d)))
    }
    fn exp(&self) -> El {
        S::new(consts::D, "ForceD").sc_opt(consts::D, "v", &self.v).sc_opt(A, "w", &self.w).el_opt(&self.b).done()
    }
}

/// No namespace outside, namespaces and prefixes inside, declared on several levels
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns("", z = C))]
pub struct NsMixed {
    #[xml(attribute, ns(C))]
    q: Option<String>,
    e: Vec<NsMid>,
    attrs: Vec<NsBAttr>,
    #[xml(ns(C))]
    t: Option<String>,
    plain: Option<String>,
    u: Option<UnitNs>,
    after: String,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(B, pd = consts::D, z = C))]
pub struct NsMid {
    #[xml(attribute, ns(C))]
    q: Option<String>,
    #[xml(attribute, ns(D))]
    d: Option<String>,
    #[xml(ns(consts::D))]
    td: Option<String>,
    #[xml(ns(C))]
    tc: Option<String>,
    leaf: Option<Leaf>,
    f: Option<NsForceD>,
    own: Option<u8>,
}
impl Model for NsMixed {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, q: opt(g, Lex::gen), e: many(g, |g| NsMid::arb(g, d)), attrs: many(g, |g| NsBAttr::arb(g, d)), t: opt(g, Lex::gen), plain: opt(g, Lex::gen), u: opt(g, |g| UnitNs::arb(g, d)), after: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new("", "NsMixed").at_opt(C, "q", &self.q).el_many(&self.e).el_many(&self.attrs).sc_opt(C, "t", &self.t).sc_opt("", "plain", &self.plain).el_opt(&self.u).sc("", "after", &self.after).done()
    }
}
impl Model for NsMid {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, q: opt(g, Lex::gen), d: opt(g, Lex::gen), td: opt(g, Lex::gen), tc: opt(g, Lex::gen), leaf: opt(g, |g| Leaf::arb(g, d)), f: opt(g, |g| NsForceD::arb(g, d)), own: opt(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new(B, "NsMid").at_opt(C, "q", &self.q).at_opt(consts::D, "d", &self.d).sc_opt(consts::D, "td", &self.td).sc_opt(C, "tc", &self.tc).el_opt(&self.leaf).el_opt(&self.f).sc_opt(B, "own", &self.own).done()
    }
}

/// Self-closed elements that declare namespaces and prefixes, before siblings relying on the outer ones
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct NsSelfClosed {
    a: Vec<NsDeclEmpty>,
    b: Vec<NsBAttr>,
    c: Vec<NsDeclDirect>,
    s: String,
    x: Option<NsUsesC>,
    a2: Option<NsDeclEmpty2>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(B, w = C))]
pub struct NsDeclEmpty {
    #[xml(attribute, ns(C))]
    k: Option<String>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A, w = C))]
pub struct NsDeclEmpty2 {
    #[xml(attribute, ns(C))]
    k: Option<String>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns("urn:e", v = C))]
pub struct NsDeclDirect {
    #[xml(attribute, ns(C))]
    k: Option<String>,
    #[xml(direct)]
    t: Option<u8>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(C))]
pub struct NsUsesC {
    k: u8,
}
impl Model for NsSelfClosed {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, a: many(g, |g| NsDeclEmpty { k: opt(g, Lex::gen) }), b: many(g, |g| NsBAttr::arb(g, d)), c: many(g, |g| NsDeclDirect { k: opt(g, Lex::gen), t: opt(g, Lex::gen) }), s: Lex::gen(g),
            x: opt(g, |g| NsUsesC { k: Lex::gen(g) }), a2: opt(g, |g| NsDeclEmpty2 { k: opt(g, Lex::gen) }))
    }
    fn exp(&self) -> El {
        S::new(A, "NsSelfClosed").el_many(&self.a).el_many(&self.b).el_many(&self.c).sc(A, "s", &self.s).el_opt(&self.x).el_opt(&self.a2).done()
    }
}
impl Model for NsDeclEmpty {
    fn arb(g: &mut Rng, _: u32) -> Self {
        NsDeclEmpty { k: opt(g, Lex::gen) }
    }
    fn exp(&self) -> El {
        S::new(B, "NsDeclEmpty").at_opt(C, "k", &self.k).done()
    }
}
impl Model for NsDeclEmpty2 {
    fn arb(g: &mut Rng, _: u32) -> Self {
        NsDeclEmpty2 { k: opt(g, Lex::gen) }
    }
    fn exp(&self) -> El {
        S::new(A, "NsDeclEmpty2").at_opt(C, "k", &self.k).done()
    }
}
impl Model for NsDeclDirect {
    fn arb(g: &mut Rng, _: u32) -> Self {
        NsDeclDirect { k: opt(g, Lex::gen), t: opt(g, Lex::gen) }
    }
    fn exp(&self) -> El {
        S::new("urn:e", "NsDeclDirect").at_opt(C, "k", &self.k).direct(self.t.as_ref()).done()
    }
}
impl Model for NsUsesC {
    fn arb(g: &mut Rng, _: u32) -> Self {
        NsUsesC { k: Lex::gen(g) }
    }
    fn exp(&self) -> El {
        S::new(C, "NsUsesC").sc(C, "k", &self.k).done()
    }
}

// --- direct ----------------------------------------------------------------------------

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct DirectStr {
    #[xml(attribute)]
    lang: Option<String>,
    #[xml(direct)]
    text: String,
}
impl Model for DirectStr {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, lang: opt(g, Lex::gen), text: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new("", "DirectStr").at_opt("", "lang", &self.lang).direct(Some(&self.text)).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct DirectOpt {
    #[xml(attribute)]
    lang: u8,
    el: Option<Leaf>,
    n: Vec<u8>,
    #[xml(direct)]
    text: Option<String>,
}
impl Model for DirectOpt {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, lang: Lex::gen(g), el: opt(g, |g| Leaf::arb(g, d)), n: many(g, Lex::gen), text: opt(g, Lex::gen).filter(|s: &String| !s.is_empty()))
    }
    fn exp(&self) -> El {
        S::new(A, "DirectOpt").at("", "lang", &self.lang).el_opt(&self.el).sc_many(A, "n", &self.n).direct(self.text.as_ref()).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct DirectNum {
    #[xml(direct)]
    n: i64,
}
impl Model for DirectNum {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, n: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new("", "DirectNum").direct(Some(&self.n)).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct DirectBool {
    st: Option<Status>,
    #[xml(direct)]
    n: bool,
}
impl Model for DirectBool {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, st: opt(g, Lex::gen), n: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new("", "DirectBool").sc_opt("", "st", &self.st).direct(Some(&self.n)).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(B))]
pub struct DirectOnlyOpt {
    #[xml(attribute)]
    k: Option<u8>,
    #[xml(direct)]
    text: Option<Cow<'static, str>>,
}
impl Model for DirectOnlyOpt {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, k: opt(g, Lex::gen), text: opt(g, |g| <Cow<'static, str> as Lex>::gen(g)).filter(|s| !s.is_empty()))
    }
    fn exp(&self) -> El {
        S::new(B, "DirectOnlyOpt").at_opt("", "k", &self.k).direct(self.text.as_ref()).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct DirectHolder {
    a: DirectStr,
    b: Vec<DirectOpt>,
    c: DirectNum,
    o: Vec<DirectOnlyOpt>,
    d: Option<DirectBool>,
}
impl Model for DirectHolder {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, a: DirectStr::arb(g, d), b: many(g, |g| DirectOpt::arb(g, d)), c: DirectNum::arb(g, d), o: many(g, |g| DirectOnlyOpt::arb(g, d)), d: opt(g, |g| DirectBool::arb(g, d)))
    }
    fn exp(&self) -> El {
        S::new("", "DirectHolder").el(&self.a).el_many(&self.b).el(&self.c).el_many(&self.o).el_opt(&self.d).done()
    }
}

// --- strings and borrowing -------------------------------------------------------------

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct Cows<'a, 'b> {
    a: Cow<'static, str>,
    #[xml(borrow)]
    b: Cow<'a, str>,
    #[xml(attribute)]
    c: Cow<'static, str>,
    #[xml(attribute, borrow)]
    d: Option<Cow<'b, str>>,
    #[xml(borrow, rename = "e2")]
    e: Cow<'b, str>,
    nums: Cow<'static, [u16]>,
    els: Cow<'static, [Leaf]>,
    bx: Box<String>,
    cs: Vec<Cow<'static, str>>,
}
impl Model for Cows<'static, 'static> {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, a: Lex::gen(g), b: Lex::gen(g), c: Lex::gen(g), d: opt(g, Lex::gen), e: Lex::gen(g), nums: many(g, Lex::gen).into(), els: many(g, |g| Leaf::arb(g, d)).into(), bx: Lex::gen(g), cs: many(g, Lex::gen))
    }
    fn exp(&self) -> El {
        self.tree()
    }
}
impl Cows<'_, '_> {
    pub fn tree(&self) -> El {
        S::new("", "Cows").sc("", "a", &self.a).sc("", "b", &self.b).at("", "c", &self.c).at_opt("", "d", &self.d).sc("", "e2", &self.e)
            .sc_many("", "nums", &self.nums).el_many(&self.els).sc("", "bx", &self.bx).sc_many("", "cs", &self.cs).done()
    }
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(ns(A), rename = "Borrowed")]
pub struct Borrowed<'a> {
    #[xml(borrow)]
    pub s: Cow<'a, str>,
    #[xml(borrow)]
    pub b: Bytes<'a>,
    #[xml(borrow)]
    pub last: Cow<'a, str>,
}
/// Hand-written on top of the public helper for byte slices
#[derive(Debug, PartialEq)]
pub struct Bytes<'a>(pub Cow<'a, [u8]>);
impl<'xml: 'a, 'a> FromXml<'xml> for Bytes<'a> {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field.is_some_and(|f| f == id)
    }
    fn deserialize<'cx>(into: &mut Self::Accumulator, field: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        let mut acc = into.take().map(|b| b.0.into_owned().into());
        instant_xml::de::borrow_cow_slice_u8(&mut acc, field, d)?;
        *into = acc.map(Bytes);
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: XKind = XKind::Scalar;
}
/// The type of a field can be spelled in several ways
macro_rules! spelled {
    ($t:ty) => {
        #[derive(Debug, PartialEq, FromXml)]
        #[xml(ns(A), rename = "Borrowed")]
        pub struct Spelled<'a> {
            #[xml(borrow)]
            pub s: std::borrow::Cow<'a, str>,
            #[xml(borrow)]
            pub b: ::std::borrow::Cow<'a, str>,
            #[xml(borrow)]
            pub last: $t,
        }
    };
}
spelled!(Cow<'a, str>);
#[derive(Debug, PartialEq, FromXml)]
#[xml(ns(A), rename = "Borrowed")]
pub struct OwnedTwin {
    pub s: String,
    pub b: String,
    pub last: String,
}

// --- enums -----------------------------------------------------------------------------

#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
#[xml(scalar)]
pub enum Status {
    Active,
    Inactive,
    #[xml(rename = "on <hold> & \"waiting\"")]
    OnHold,
    #[xml(rename = "active")]
    Lower,
    A,
    #[xml(rename = "two words")]
    C,
}
impl Lex for Status {
    fn gen(g: &mut Rng) -> Self {
        g.pick(&[Status::Active, Status::Inactive, Status::OnHold, Status::Lower, Status::A, Status::C]).clone()
    }
    fn lex(&self) -> String {
        match self {
            Status::Active => "Active",
            Status::Inactive => "Inactive",
            Status::OnHold => "on <hold> & \"waiting\"",
            Status::Lower => "active",
            Status::A => "A",
            Status::C => "two words",
        }
        .into()
    }
}

#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
#[xml(scalar)]
pub enum Disc {
    First = 7,
    Second = 42,
    Third = 2147483647,
    Big = 1_000,
    Neg,
}
impl Lex for Disc {
    fn gen(g: &mut Rng) -> Self {
        g.pick(&[Disc::First, Disc::Second, Disc::Third, Disc::Big, Disc::Neg]).clone()
    }
    fn lex(&self) -> String {
        match self {
            Disc::First => "7",
            Disc::Second => "42",
            Disc::Third => "2147483647",
            Disc::Big => "1000",
            Disc::Neg => "Neg",
        }
        .into()
    }
}

#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
#[xml(scalar, ns("urn:b"), rename_all = "kebab-case")]
pub enum NsStatus {
    FirstOne,
    X,
    Z42,
    #[xml(rename = "FirstOne")]
    Other,
}
impl Lex for NsStatus {
    fn gen(g: &mut Rng) -> Self {
        g.pick(&[NsStatus::FirstOne, NsStatus::X, NsStatus::Z42, NsStatus::Other]).clone()
    }
    fn lex(&self) -> String {
        match self {
            NsStatus::FirstOne => "first-one",
            NsStatus::X => "x",
            NsStatus::Z42 => "z42",
            NsStatus::Other => "FirstOne",
        }
        .into()
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct Enums {
    #[xml(attribute)]
    at: Status,
    #[xml(attribute)]
    ao: Option<Status>,
    e: NsStatus,
    v: Vec<NsStatus>,
    o: Option<NsStatus>,
    plain: Status,
    disc: Disc,
    discs: Vec<Disc>,
    #[xml(attribute)]
    ad: Option<Disc>,
    after: u8,
}
impl Model for Enums {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, at: Lex::gen(g), ao: opt(g, Lex::gen), e: Lex::gen(g), v: many(g, Lex::gen), o: opt(g, Lex::gen), plain: Lex::gen(g), disc: Lex::gen(g), discs: many(g, Lex::gen), ad: opt(g, Lex::gen), after: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new(A, "Enums").at("", "at", &self.at).at_opt("", "ao", &self.ao).sc(B, "e", &self.e).sc_many(B, "v", &self.v).sc_opt(B, "o", &self.o).sc("", "plain", &self.plain).sc("", "disc", &self.disc).sc_many("", "discs", &self.discs).at_opt("", "ad", &self.ad).sc(A, "after", &self.after).done()
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(forward)]
pub enum Message {
    Leaf(Leaf),
    Ns(NsB),
    Unit(Unit),
    Attr(AttrsOnly),
    Direct(DirectStr),
    Tuple(TupleOne),
}
impl Model for Message {
    fn arb(g: &mut Rng, d: u32) -> Self {
        match g.below(6) {
            0 => Message::Leaf(Leaf::arb(g, d)),
            1 => Message::Ns(NsB::arb(g, d)),
            2 => Message::Unit(Unit),
            3 => Message::Attr(AttrsOnly::arb(g, d)),
            4 => Message::Direct(DirectStr::arb(g, d)),
            _ => Message::Tuple(TupleOne::arb(g, d)),
        }
    }
    fn exp(&self) -> El {
        match self {
            Message::Leaf(v) => v.exp(),
            Message::Ns(v) => v.exp(),
            Message::Unit(v) => v.exp(),
            Message::Attr(v) => v.exp(),
            Message::Direct(v) => v.exp(),
            Message::Tuple(v) => v.exp(),
        }
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(forward)]
pub enum Other {
    Nested(Wrapped<NsUsesC>),
    Un(UnitNs),
}
impl Model for Other {
    fn arb(g: &mut Rng, d: u32) -> Self {
        match g.bool() {
            true => Other::Nested(Wrapped { #[allow(clippy::all)] inner: NsUsesC::arb(g, d), id: Lex::gen(g) }),
            false => Other::Un(UnitNs),
        }
    }
    fn exp(&self) -> El {
        match self {
            Other::Nested(v) => v.exp(),
            Other::Un(v) => v.exp(),
        }
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct Forwards {
    one: Message,
    opt: Option<Other>,
    tail: String,
}
impl Model for Forwards {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, one: Message::arb(g, d), opt: opt(g, |g| Other::arb(g, d)), tail: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new(A, "Forwards").el(&self.one).el_opt(&self.opt).sc(A, "tail", &self.tail).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct ForwardVec {
    head: Option<u8>,
    all: Vec<Message>,
    boxed: Option<Box<Other>>,
}
impl Model for ForwardVec {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, head: opt(g, Lex::gen), all: many(g, |g| Message::arb(g, d)), boxed: opt(g, |g| Box::new(Other::arb(g, d))))
    }
    fn exp(&self) -> El {
        S::new("", "ForwardVec").sc_opt("", "head", &self.head).el_many(&self.all).els(self.boxed.iter().map(|b| &**b), Occ::Opt).done()
    }
}

// --- generics --------------------------------------------------------------------------

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct Wrapped<T> {
    #[xml(attribute)]
    id: u8,
    inner: T,
}
impl<T: Model> Model for Wrapped<T> {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, id: Lex::gen(g), inner: T::arb(g, d))
    }
    fn exp(&self) -> El {
        S::new("", "Wrapped").at("", "id", &self.id).el(&self.inner).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A, pc = C))]
pub struct GenericTwo<T, U> {
    #[xml(ns(C))]
    num: Option<T>,
    items: Vec<U>,
}
impl<T: Lex + fmt::Debug, U: Model> Model for GenericTwo<T, U> {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, num: opt(g, Lex::gen), items: many(g, |g| U::arb(g, d)))
    }
    fn exp(&self) -> El {
        S::new(A, "GenericTwo").sc_opt(C, "num", &self.num).el_many(&self.items).done()
    }
}

// --- transparent and tuple -------------------------------------------------------------

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
pub struct Inline {
    leaf: Leaf,
    unit: Option<UnitNs>,
    list: Vec<NsB>,
}
impl Model for Inline {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, leaf: Leaf::arb(g, d), unit: opt(g, |g| UnitNs::arb(g, d)), list: many(g, |g| NsB::arb(g, d)))
    }
    fn exp(&self) -> El {
        S::new("", "-").el(&self.leaf).el_opt(&self.unit).el_many(&self.list).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
pub struct InlineScalars<'a> {
    num: i32,
    #[xml(rename = "te-xt")]
    text: String,
    maybe: Option<bool>,
    words: Vec<Cow<'a, str>>,
    st: Status,
}
impl Model for InlineScalars<'static> {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, num: Lex::gen(g), text: Lex::gen(g), maybe: opt(g, Lex::gen), words: many(g, Lex::gen), st: Lex::gen(g))
    }
    fn exp(&self) -> El {
        self.tree()
    }
}
impl InlineScalars<'_> {
    fn tree(&self) -> El {
        S::new("", "-").sc("", "num", &self.num).sc("", "te-xt", &self.text).sc_opt("", "maybe", &self.maybe).sc_many("", "words", &self.words).sc("", "st", &self.st).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct Transparent {
    before: String,
    inline: Inline,
    mid: Option<u8>,
    scalars: InlineScalars<'static>,
    after: Vec<u8>,
}
impl Model for Transparent {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, before: Lex::gen(g), inline: Inline::arb(g, d), mid: opt(g, Lex::gen), scalars: InlineScalars::arb(g, d), after: many(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new("", "Transparent").sc("", "before", &self.before).inline(&self.inline.exp(), false).sc_opt("", "mid", &self.mid).inline(&self.scalars.tree(), false).sc_many("", "after", &self.after).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct TransparentOpt {
    #[xml(attribute)]
    k: u8,
    inline: Option<InlineTwo<NsUsesC, NsBAttr>>,
    tail: Option<String>,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
pub struct InlineTwo<A, B> {
    a: A,
    b: B,
}
impl Model for TransparentOpt {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, k: Lex::gen(g), inline: opt(g, |g| InlineTwo { a: NsUsesC::arb(g, d), b: NsBAttr::arb(g, d) }), tail: opt(g, Lex::gen))
    }
    fn exp(&self) -> El {
        let s = S::new(A, "TransparentOpt").at("", "k", &self.k);
        let s = match &self.inline {
            Some(i) => s.inline(&S::new("", "-").el(&i.a).el(&i.b).done(), true),
            None => s.inline(&S::new("", "-").done(), true),
        };
        s.sc_opt(A, "tail", &self.tail).done()
    }
}

/// Custom functions and borrowed strings behind a transparent struct
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
pub struct InlineWith<'a> {
    #[xml(serialize_with = "hex_out_bare", deserialize_with = "hex_in")]
    hex: u32,
    #[xml(borrow)]
    lent: Cow<'a, str>,
    #[xml(borrow)]
    maybe: Option<Cow<'a, str>>,
    own: u8,
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct TransparentWith<'a> {
    #[xml(attribute)]
    at: Cow<'a, str>,
    before: u8,
    #[xml(borrow)]
    inline: InlineWith<'a>,
    after: Option<String>,
}
impl Model for TransparentWith<'static> {
    fn arb(g: &mut Rng, d: u32) -> Self {
        let _ = d;
        let inline = InlineWith { hex: Lex::gen(g), lent: Lex::gen(g), maybe: opt(g, Lex::gen), own: Lex::gen(g) };
        fields!(g, d, at: Lex::gen(g), before: Lex::gen(g), inline: inline, after: opt(g, Lex::gen))
    }
    fn exp(&self) -> El {
        self.tree()
    }
}
impl TransparentWith<'_> {
    fn tree(&self) -> El {
        let i = &self.inline;
        let i = S::new("", "-").sc("", "hex", &HexLex(i.hex)).sc("", "lent", &i.lent).sc_opt("", "maybe", &i.maybe).sc("", "own", &i.own).done();
        S::new("", "TransparentWith").at("", "at", &self.at).sc("", "before", &self.before).inline(&i, false).sc_opt("", "after", &self.after).done()
    }
}
fn hex_out_bare<W: fmt::Write + ?Sized>(v: &u32, s: &mut Serializer<'_, W>) -> Result<(), Error> {
    let e = s.write_start("hex", "", None::<Context<0>>)?;
    s.end_start()?;
    s.write_str(&format_args!("{v:#x}"))?;
    s.write_close(e)
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct TupleOne(Leaf);
impl Model for TupleOne {
    fn arb(g: &mut Rng, d: u32) -> Self {
        TupleOne(Leaf::arb(g, d))
    }
    fn exp(&self) -> El {
        S::new("", "TupleOne").el(&self.0).kind(Kind::Tuple).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A), rename = "tuple")]
pub struct TupleMany(Leaf, NsB, Unit, Message, Option<UnitNs>);
impl Model for TupleMany {
    fn arb(g: &mut Rng, d: u32) -> Self {
        TupleMany(Leaf::arb(g, d), NsB::arb(g, d), Unit, Message::arb(g, d), opt(g, |g| UnitNs::arb(g, d)))
    }
    fn exp(&self) -> El {
        S::new(A, "tuple").el(&self.0).el(&self.1).el(&self.2).el(&self.3).el_opt(&self.4).kind(Kind::Tuple).done()
    }
}
/// a list of one in a tuple
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct TupleCow(Cow<'static, [Leaf]>, Box<NsB>, String);
impl Model for TupleCow {
    fn arb(g: &mut Rng, d: u32) -> Self {
        TupleCow(Cow::Owned(vec![Leaf::arb(g, d)]), Box::new(NsB::arb(g, d)), Lex::gen(g))
    }
    fn exp(&self) -> El {
        let mut e = S::new("", "TupleCow").el(&self.0[0]).el(&*self.1).kind(Kind::Tuple).done();
        e.kids.push(Node::Text(self.2.clone()));
        e
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct TupleNum(f64);
impl Model for TupleNum {
    fn arb(g: &mut Rng, _: u32) -> Self {
        TupleNum(Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new("", "TupleNum").text(self.0.lex()).kind(Kind::Tuple).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(B))]
pub struct TupleStr(String);
impl Model for TupleStr {
    fn arb(g: &mut Rng, _: u32) -> Self {
        TupleStr(Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new(B, "TupleStr").text(self.0.clone()).kind(Kind::Tuple).done()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
pub struct TupleMix(u16, Leaf, NsBAttr, String);
impl Model for TupleMix {
    fn arb(g: &mut Rng, d: u32) -> Self {
        TupleMix(Lex::gen(g), Leaf::arb(g, d), NsBAttr::arb(g, d), Lex::gen(g))
    }
    fn exp(&self) -> El {
        let mut e = S::new("", "TupleMix").text(self.0.lex()).el(&self.1).el(&self.2).kind(Kind::Tuple).done();
        e.kids.push(Node::Text(self.3.clone()));
        e
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(C))]
pub struct TupleHolder {
    a: Vec<TupleStr>,
    b: TupleNum,
    c: Option<TupleMany>,
    d: TupleMix,
    e: String,
}
impl Model for TupleHolder {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, a: many(g, |g| TupleStr::arb(g, d)), b: TupleNum::arb(g, d), c: opt(g, |g| TupleMany::arb(g, d)), d: TupleMix::arb(g, d), e: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new(C, "TupleHolder").el_many(&self.a).el(&self.b).el_opt(&self.c).el(&self.d).sc(C, "e", &self.e).done()
    }
}

// --- custom functions and implementations ----------------------------------------------

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct With {
    first: u8,
    #[xml(serialize_with = "hex_out", deserialize_with = "hex_in")]
    hex: u32,
    custom: Custom,
    opt: Option<Custom>,
    #[xml(attribute)]
    at: Custom,
    last: String,
}
fn hex_out<W: fmt::Write + ?Sized>(v: &u32, s: &mut Serializer<'_, W>) -> Result<(), Error> {
    let e = s.write_start("hex", A, None::<Context<0>>)?;
    s.end_start()?;
    s.write_str(&format_args!("{v:#x}"))?;
    s.write_close(e)
}
fn hex_in(into: &mut Option<u32>, field: &'static str, d: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    if into.is_some() {
        return Err(Error::DuplicateValue(field));
    }
    if let Some(s) = d.take_str()? {
        *into = Some(s.strip_prefix("0x").and_then(|h| u32::from_str_radix(h, 16).ok()).ok_or_else(|| Error::UnexpectedValue(s.to_string()))?);
    }
    d.ignore()
}
/// Hand-written implementation on top of FromStr / Display
#[derive(Debug, PartialEq, Clone)]
pub struct Custom(u8);
impl fmt::Display for Custom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}", self.0)
    }
}
impl std::str::FromStr for Custom {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        s.strip_prefix('#').and_then(|n| n.parse().ok()).map(Custom).ok_or(())
    }
}
impl<'xml> FromXml<'xml> for Custom {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field.is_some_and(|f| f == id)
    }
    fn deserialize<'cx>(into: &mut Self::Accumulator, field: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        instant_xml::from_xml_str(into, field, d)
    }
    type Accumulator = Option<Self>;
    const KIND: XKind = XKind::Scalar;
}
impl ToXml for Custom {
    fn serialize<W: fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        instant_xml::display_to_xml(self, field, s)
    }
}
impl Lex for Custom {
    fn gen(g: &mut Rng) -> Self {
        Custom(Lex::gen(g))
    }
    fn lex(&self) -> String {
        format!("#{}", self.0)
    }
}
struct HexLex(u32);
impl Lex for HexLex {
    fn gen(_: &mut Rng) -> Self {
        HexLex(0)
    }
    fn lex(&self) -> String {
        format!("{:#x}", self.0)
    }
}
impl Model for With {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, first: Lex::gen(g), hex: Lex::gen(g), custom: Lex::gen(g), opt: opt(g, Lex::gen), at: Lex::gen(g), last: Lex::gen(g))
    }
    fn exp(&self) -> El {
        S::new(A, "With").sc(A, "first", &self.first).sc(A, "hex", &HexLex(self.hex)).sc(A, "custom", &self.custom).sc_opt(A, "opt", &self.opt).at("", "at", &self.at).sc(A, "last", &self.last).done()
    }
}

#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(ns(A))]
pub struct Chrono {
    #[xml(attribute)]
    ad: NaiveDate,
    #[xml(attribute)]
    adt: Option<DateTime<Utc>>,
    #[xml(attribute)]
    andt: Option<NaiveDateTime>,
    dt: DateTime<Utc>,
    ndt: NaiveDateTime,
    d: Option<NaiveDate>,
    ds: Vec<DateTime<Utc>>,
}
impl Model for Chrono {
    fn arb(g: &mut Rng, _: u32) -> Self {
        fields!(g, d, ad: Lex::gen(g), adt: opt(g, Lex::gen), andt: opt(g, Lex::gen), dt: Lex::gen(g), ndt: Lex::gen(g), d: opt(g, Lex::gen), ds: many(g, Lex::gen))
    }
    fn exp(&self) -> El {
        S::new(A, "Chrono").at("", "ad", &self.ad).at_opt("", "adt", &self.adt).at_opt("", "andt", &self.andt).sc(A, "dt", &self.dt).sc(A, "ndt", &self.ndt).sc_opt(A, "d", &self.d).sc_many(A, "ds", &self.ds).done()
    }
}

// --- AnyElement ------------------------------------------------------------------------

pub fn any_to_el(a: &AnyElement<'_>) -> El {
    let mut e = El::new(&a.ns, &a.name, Kind::Any);
    for (k, at) in a.attributes.iter().enumerate() {
        e.attrs.push(At { ns: at.ns.to_string(), name: at.name.to_string(), val: at.value.to_string(), occ: Occ::One, field: k as u32 });
    }
    if let Some(t) = &a.text {
        e.kids.push(Node::Text(t.to_string()));
    }
    for c in &a.children {
        e.kids.push(Node::El(any_to_el(c)));
    }
    e
}
/// What AnyElement keeps of a tree: all text first, then the elements
pub fn as_any(e: &El) -> El {
    let mut out = El::new(&e.ns, &e.name, Kind::Any);
    out.attrs = e.attrs.clone();
    let t = e.text();
    if !t.is_empty() {
        out.kids.push(Node::Text(t));
    }
    for c in e.els() {
        out.kids.push(Node::El(as_any(c)));
    }
    out
}
pub fn el_to_any(e: &El) -> AnyElement<'static> {
    AnyElement {
        ns: e.ns.clone().into(),
        name: e.name.clone().into(),
        attributes: e.attrs.iter().map(|a| AnyAttribute { ns: a.ns.clone().into(), name: a.name.clone().into(), value: a.val.clone().into() }).collect(),
        text: match e.kids.iter().any(|k| matches!(k, Node::Text(_))) {
            true => Some(e.text().into()),
            false => None,
        },
        children: e.els().map(el_to_any).collect(),
    }
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(ns(A))]
pub struct AnyHolder<'a> {
    pub s: Option<String>,
    pub leaf: Option<Leaf>,
    #[xml(borrow)]
    pub any: Vec<AnyElement<'a>>,
}
#[derive(Debug, PartialEq, FromXml)]
#[xml(ns(A))]
pub struct AnyOne<'a> {
    pub s: Option<String>,
    #[xml(borrow)]
    pub any: AnyElement<'a>,
}

// --- rename_all ------------------------------------------------------------------------

macro_rules! rename_types {
    ($($ty:ident, $en:ident, $rule:tt, [$($f:literal),*], [$($v:literal),*];)*) => {$(
        #[derive(Debug, PartialEq, FromXml, ToXml)]
        #[xml(rename_all = $rule)]
        pub struct $ty {
            field: u8,
            two_words: String,
            #[xml(attribute)]
            attr_name_x: u8,
            z42_abc1: Vec<u8>,
            r#type: Option<u8>,
            a: u8,
            #[xml(rename = "Kept_As-is")]
            renamed_field: u8,
            e: $en,
        }
        impl Model for $ty {
            fn arb(g: &mut Rng, _: u32) -> Self {
                fields!(g, d, field: Lex::gen(g), two_words: Lex::gen(g), attr_name_x: Lex::gen(g), z42_abc1: many(g, Lex::gen), r#type: opt(g, Lex::gen), a: Lex::gen(g), renamed_field: Lex::gen(g), e: Lex::gen(g))
            }
            fn exp(&self) -> El {
                let n = [$($f),*];
                S::new("", stringify!($ty)).sc("", n[0], &self.field).sc("", n[1], &self.two_words).at("", n[2], &self.attr_name_x).sc_many("", n[3], &self.z42_abc1)
                    .sc_opt("", n[4], &self.r#type).sc("", n[5], &self.a).sc("", "Kept_As-is", &self.renamed_field).sc("", n[6], &self.e).done()
            }
        }
        #[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
        #[xml(scalar, rename_all = $rule)]
        pub enum $en { Outcome, VeryTasty, X, Z42, HTTPServer2, #[xml(rename = "Kept_As-is")] RenamedVariant }
        impl Lex for $en {
            fn gen(g: &mut Rng) -> Self {
                g.pick(&[$en::Outcome, $en::VeryTasty, $en::X, $en::Z42, $en::HTTPServer2, $en::RenamedVariant]).clone()
            }
            fn lex(&self) -> String {
                let n = [$($v),*];
                match self { $en::Outcome => n[0], $en::VeryTasty => n[1], $en::X => n[2], $en::Z42 => n[3], $en::HTTPServer2 => n[4], $en::RenamedVariant => "Kept_As-is" }.into()
            }
        }
    )*};
}
rename_types! {
    RnLower, RnLowerE, "lowercase", ["field", "two_words", "attr_name_x", "z42_abc1", "type", "a", "e"], ["outcome", "verytasty", "x", "z42", "httpserver2"];
    RnUpper, RnUpperE, "UPPERCASE", ["FIELD", "TWO_WORDS", "ATTR_NAME_X", "Z42_ABC1", "TYPE", "A", "E"], ["OUTCOME", "VERYTASTY", "X", "Z42", "HTTPSERVER2"];
    RnPascal, RnPascalE, "PascalCase", ["Field", "TwoWords", "AttrNameX", "Z42Abc1", "Type", "A", "E"], ["Outcome", "VeryTasty", "X", "Z42", "HTTPServer2"];
    RnCamel, RnCamelE, "camelCase", ["field", "twoWords", "attrNameX", "z42Abc1", "type", "a", "e"], ["outcome", "veryTasty", "x", "z42", "hTTPServer2"];
    RnSnake, RnSnakeE, "snake_case", ["field", "two_words", "attr_name_x", "z42_abc1", "type", "a", "e"], ["outcome", "very_tasty", "x", "z42", "h_t_t_p_server2"];
    RnScream, RnScreamE, "SCREAMING_SNAKE_CASE", ["FIELD", "TWO_WORDS", "ATTR_NAME_X", "Z42_ABC1", "TYPE", "A", "E"], ["OUTCOME", "VERY_TASTY", "X", "Z42", "H_T_T_P_SERVER2"];
    RnKebab, RnKebabE, "kebab-case", ["field", "two-words", "attr-name-x", "z42-abc1", "type", "a", "e"], ["outcome", "very-tasty", "x", "z42", "h-t-t-p-server2"];
    RnScreamKebab, RnScreamKebabE, "SCREAMING-KEBAB-CASE", ["FIELD", "TWO-WORDS", "ATTR-NAME-X", "Z42-ABC1", "TYPE", "A", "E"], ["OUTCOME", "VERY-TASTY", "X", "Z42", "H-T-T-P-SERVER2"];
}

/// Raw identifiers everywhere: the names of elements and values don't have the r#
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[allow(non_camel_case_types)]
pub struct r#loop {
    #[xml(attribute)]
    r#mod: u8,
    r#fn: Option<String>,
    r#match: r#yield,
    inline: r#impl,
}
#[derive(Debug, PartialEq, Clone, FromXml, ToXml)]
#[xml(scalar)]
#[allow(non_camel_case_types)]
pub enum r#yield { r#type, r#struct, Plain }
impl Lex for r#yield {
    fn gen(g: &mut Rng) -> Self {
        g.pick(&[r#yield::r#type, r#yield::r#struct, r#yield::Plain]).clone()
    }
    fn lex(&self) -> String {
        match self { r#yield::r#type => "type", r#yield::r#struct => "struct", r#yield::Plain => "Plain" }.into()
    }
}
#[derive(Debug, PartialEq, FromXml, ToXml)]
#[xml(transparent)]
#[allow(non_camel_case_types)]
pub struct r#impl {
    r#enum: u8,
}
impl Model for r#loop {
    fn arb(g: &mut Rng, d: u32) -> Self {
        fields!(g, d, r#mod: Lex::gen(g), r#fn: opt(g, Lex::gen), r#match: Lex::gen(g), inline: r#impl { r#enum: Lex::gen(g) })
    }
    fn exp(&self) -> El {
        S::new("", "loop").at("", "mod", &self.r#mod).sc_opt("", "fn", &self.r#fn).sc("", "match", &self.r#match).inline(&S::new("", "-").sc("", "enum", &self.inline.r#enum).done(), false).done()
    }
}

// --- type-erased access ----------------------------------------------------------------

/// What reading a document into a type gave
#[derive(Debug, Clone)]
pub struct Back {
    pub tree: El,
    pub dbg: String,
    pub again: Result<String, Error>,
}

pub struct Val {
    pub ty: &'static str,
    pub tree: El,
    pub dbg: String,
    pub written: Result<String, Error>,
    pub write_to: Box<dyn Fn(&mut dyn fmt::Write) -> Result<(), Error>>,
}

pub struct Ty {
    pub name: &'static str,
    pub gen: fn(&mut Rng) -> Val,
    pub read: fn(&str) -> Result<Back, Error>,
}

macro_rules! registry {
    ($($name:ident : $t:ty, $r:ty, |$v:ident| $tree:expr;)*) => {
        pub const TYPES: &[Ty] = &[$(Ty {
            name: stringify!($name),
            gen: |g| {
                let d = match g.below(4) { 0 => 3, 1 => 1, _ => 2 };
                let v = <$t as Model>::arb(g, d);
                Val {
                    ty: stringify!($name),
                    tree: v.exp(),
                    dbg: format!("{v:?}"),
                    written: instant_xml::to_string(&v),
                    write_to: Box::new(move |w| instant_xml::to_writer(&v, w)),
                }
            },
            read: |s| {
                let $v = instant_xml::from_str::<$r>(s)?;
                Ok(Back { tree: $tree, dbg: format!("{:?}", $v), again: instant_xml::to_string(&$v) })
            },
        }),*];
    };
}
macro_rules! simple_registry {
    ($($t:ident $(: $full:ty)?),* ; $($name:ident : $t2:ty, $r2:ty, |$v:ident| $tree:expr;)*) => {
        registry! {
            $($t: simple_registry!(@ty $t $(, $full)?), simple_registry!(@ty $t $(, $full)?), |v| v.exp();)*
            $($name: $t2, $r2, |$v| $tree;)*
        }
    };
    (@ty $t:ident) => { $t };
    (@ty $t:ident, $full:ty) => { $full };
}
simple_registry! {
    Scalars, AttrScalars, Options, Leaf, Vecs, Unit, UnitNs, Braces, AttrsOnly, Tree, Wrap, Renamed,
    NsPlain, NsSwitch, NsTurned, NsB, NsBAttr, NsPrefixed, NsMany, NsOwnPrefix, NsForce, NsForceB, NsMixed, NsMid, NsSelfClosed,
    DirectStr, DirectOpt, DirectNum, DirectBool, DirectOnlyOpt, DirectHolder,
    Enums, Message, Forwards, ForwardVec,
    WrappedLeaf: Wrapped<Leaf>, WrappedNs: Wrapped<NsPrefixed>, WrappedMsg: Wrapped<Message>,
    GenericNum: GenericTwo<i32, NsB>, GenericStr: GenericTwo<String, Wrapped<NsMid>>,
    Transparent, TransparentOpt, TupleOne, TupleMany, TupleCow, TupleNum, TupleStr, TupleMix, TupleHolder,
    With, Chrono,
    RnLower, RnUpper, RnPascal, RnCamel, RnSnake, RnScream, RnKebab, RnScreamKebab;
    Cows: Cows<'static, 'static>, Cows<'_, '_>, |v| v.tree();
    Raw: r#loop, r#loop, |v| v.exp();
    TransparentWith: TransparentWith<'static>, TransparentWith<'_>, |v| v.tree();
}
pub fn ty(name: &str) -> &'static Ty {
    TYPES.iter().find(|t| t.name == name).unwrap()
}
// Accumulate is used by derived code
#[allow(unused_imports)]
use Accumulate as _;
