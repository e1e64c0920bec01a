//@include model.inc
//@include laws.inc
use std::fmt;
use std::collections::VecDeque;
use std::ops::{Deref, DerefMut};
use std::marker::PhantomData;
verus! {

//@use instant-xml/src/lib.rs
//@opt message Other UnexpectedToken UnknownPrefix InvalidEntity UnexpectedValue ExpectedScalar
//@opt type xmlparser::Error ParseError
//@opt type BTreeMap<&'xmlstr,&'xmlstr> NsMap<'xml>
//@opt path BTreeMap::new NsMap::new
//@opt path FromStr FromText
//@opt cow text *existing
//@opt mark len push
//@opt result decode take_str extend_text deserialize try_done element_id ignore attribute_id
//@item enum Error
//@item struct Id derive=Clone,Copy
//@item enum Kind derive=Clone,Copy,PartialEq,Eq,Structural
//@use instant-xml/src/de.rs
//@item struct Limits derive=Clone,Copy
//@item struct Element derive=Clone,Copy
//@item struct Level
//@item struct Attribute
//@item enum Node
//@item struct Context
//@include readspec.inc
//@opt external on
//@include readfns.inc
//@opt external off
//@include fromspec.inc
//@opt external on
//@include fromtraits.inc
//@opt external off

// ---- the standard library: trusted ----------------------------------------------------------------------------------

pub uninterp spec fn owned_of<'a, B: ?Sized + ToOwned>(c: Cow<'a, B>) -> <B as ToOwned>::Owned;

#[verifier::external_body]
pub broadcast proof fn axiom_owned_of(c: Cow<'_, str>)
    ensures (#[trigger] owned_of::<str>(c))@ == cowv(c).text,
{
}

pub assume_specification<'a, B: ?Sized + ToOwned> [Cow::<'a, B>::into_owned] (c: Cow<'a, B>) -> (r: <B as ToOwned>::Owned)
    ensures r == owned_of(c);

// ---- specification: the tree of an element --------------------------------------------------------------------------

pub ghost struct AttrV { pub name: IdV, pub value: CowV }

pub ghost struct AnyV { pub name: IdV, pub attributes: Seq<AttrV>, pub text: Option<CowV>, pub children: Seq<AnyV> }

pub open spec fn bare(name: IdV) -> AnyV { AnyV { name, attributes: Seq::empty(), text: None, children: Seq::empty() } }

/// the rest of the element after what is in `acc`: all its attributes, all its text, all its elements, in their order
pub open spec fn tree<'a>(d: D<'a>, acc: AnyV) -> (Result<AnyV, ErrV>, D<'a>)
    decreases left_d(d) when left_d(d) >= 0 via tree_decreases
{
    let (o, d1) = next_of(d);
    match o {
        Out::Node(NodeV::Attribute { prefix, local, value }) => match attribute_name(d1.s.stack, prefix, local) {
            Some(name) => tree(d1, AnyV { attributes: acc.attributes.push(AttrV { name, value }), ..acc }),
            None => (Err(ErrV::Other), d1),
        },
        Out::Node(NodeV::Text(t)) => tree(d1, AnyV { text: Some(match acc.text { Some(x) => join(x, t), None => t }), ..acc }),
        Out::Node(NodeV::Open(x)) => match element_name(d1.s.stack, x) {
            Some(name) => {
                let (r, c) = tree(opened(x, d1.s), bare(name));
                let d2 = D { s: c.s, ..d1 };
                match r {
                    Ok(child) => if left_d(d2) <= left_d(d1) { tree(d2, AnyV { children: acc.children.push(child), ..acc }) } else { arbitrary() },
                    Err(e) => (Err(e), d2),
                }
            },
            None => (Err(ErrV::Other), d1),
        },
        Out::Node(NodeV::Close { .. }) => (Ok(acc), d1),
        Out::Node(NodeV::AttributeValue(_)) => tree(d1, acc),
        Out::Err(e) => (Err(e), d1),
        Out::End => (Ok(acc), d1),
    }
}

#[via_fn]
proof fn tree_decreases<'a>(d: D<'a>, acc: AnyV) {
    next_decreases(d);
}

pub proof fn tree_moves<'a>(d: D<'a>, acc: AnyV)
    ensures moved(d, tree(d, acc).1), tree(d, acc).1.first is None,
    decreases left_d(d),
{
    next_decreases(d);
    let (o, d1) = next_of(d);
    match o {
        Out::Node(NodeV::Attribute { prefix, local, value }) => {
            if let Some(name) = attribute_name(d1.s.stack, prefix, local) {
                tree_moves(d1, AnyV { attributes: acc.attributes.push(AttrV { name, value }), ..acc });
            }
        }
        Out::Node(NodeV::Text(t)) => { tree_moves(d1, AnyV { text: Some(match acc.text { Some(x) => join(x, t), None => t }), ..acc }); }
        Out::Node(NodeV::AttributeValue(_)) => { tree_moves(d1, acc); }
        Out::Node(NodeV::Open(x)) => {
            if let Some(name) = element_name(d1.s.stack, x) {
                tree_moves(opened(x, d1.s), bare(name));
                let (r, c) = tree(opened(x, d1.s), bare(name));
                let d2 = D { s: c.s, ..d1 };
                if let Ok(child) = r { tree_moves(d2, AnyV { children: acc.children.push(child), ..acc }); }
            }
        }
        _ => {}
    }
}

/// A tree that was read holds exactly what the element holds: it ends where the element's own end tag is.
pub proof fn law_tree<'a>(d: D<'a>, acc: AnyV)
    requires resting(d), tree(d, acc).0 is Ok,
    ensures
        drain(d.s, d.level) == (None::<ErrV>, tree(d, acc).1.s),
        tree(d, acc).1.done,
        tree(d, acc).1.s.stack == d.s.stack.drop_last(),
    decreases left_d(d),
{
    next_decreases(d);
    law_next(d);
    law_step(d.s);
    let (o, d1) = next_of(d);
    match o {
        Out::Node(NodeV::Attribute { prefix, local, value }) => {
            let name = attribute_name(d1.s.stack, prefix, local)->0;
            assert(d1.s.stack == d.s.stack);
            law_tree(d1, AnyV { attributes: acc.attributes.push(AttrV { name, value }), ..acc });
        }
        Out::Node(NodeV::Text(t)) => { law_tree(d1, AnyV { text: Some(match acc.text { Some(x) => join(x, t), None => t }), ..acc }); }
        Out::Node(NodeV::AttributeValue(_)) => { law_tree(d1, acc); }
        Out::Node(NodeV::Open(x)) => {
            let name = element_name(d1.s.stack, x)->0;
            let inner = opened(x, d1.s);
            tree_moves(inner, bare(name));
            let (r, c) = tree(inner, bare(name));
            let d2 = D { s: c.s, ..d1 };
            law_tree(inner, bare(name));
            law_drain_nested(d1.s, d.level, inner.level);
            law_drain(d1.s, inner.level);
            assert(d1.s.stack.drop_last() == d.s.stack);
            law_tree(d2, AnyV { children: acc.children.push(r->Ok_0), ..acc });
        }
        _ => { assert(d.s.stack.subrange(0, d.level - 1) =~= d.s.stack.drop_last()); }
    }
}

proof fn tree_settles<'a>(d: D<'a>, acc: AnyV)
    requires handed(d), !d.done, tree(d, acc).0 is Ok,
    ensures settled(d, tree(d, acc).1, Kind::Element, false),
{
    if d.first is None { law_tree(d, acc); tree_moves(d, acc); }
    else {
        let d1 = plain(d);
        let acc1 = match d.first->0 { NodeV::Text(t) => AnyV { text: Some(match acc.text { Some(x) => join(x, t), None => t }), ..acc }, _ => acc };
        assert(tree(d, acc) == tree(d1, acc1));
        law_tree(d1, acc1);
        tree_moves(d1, acc1);
    }
}

//@use instant-xml/src/any_element.rs
//@item struct AnyElement
//@item struct AnyAttribute
//@end

pub open spec fn attrv(a: AnyAttribute) -> AttrV {
    AttrV { name: IdV { ns: cowv(a.ns).text, name: cowv(a.name).text }, value: cowv(a.value) }
}

pub open spec fn anyv(e: AnyElement) -> AnyV
    decreases e,
{
    AnyV {
        name: IdV { ns: cowv(e.ns).text, name: cowv(e.name).text },
        attributes: attrsv(e.attributes@),
        text: match e.text { Some(t) => Some(cowv(t)), None => None },
        children: Seq::new(e.children@.len(), |i: int| if 0 <= i < e.children@.len() { anyv(e.children@[i]) } else { arbitrary() }),
    }
}

pub open spec fn attrsv(s: Seq<AnyAttribute>) -> Seq<AttrV> { s.map_values(|a: AnyAttribute| attrv(a)) }

pub broadcast proof fn attrs_push(s: Seq<AnyAttribute>, a: AnyAttribute)
    ensures #[trigger] attrsv(s.push(a)) == attrsv(s).push(attrv(a)),
{
    assert(attrsv(s.push(a)) =~= attrsv(s).push(attrv(a)));
}

pub broadcast proof fn attrs_empty(s: Seq<AnyAttribute>)
    requires s.len() == 0,
    ensures #[trigger] attrsv(s) == Seq::<AttrV>::empty(),
{
    assert(attrsv(s) =~= Seq::<AttrV>::empty());
}

pub broadcast proof fn no_children(e: AnyElement)
    requires e.children@.len() == 0,
    ensures (#[trigger] anyv(e)).children == Seq::<AnyV>::empty(),
{
    assert(anyv(e).children =~= Seq::<AnyV>::empty());
}

/// the same text, nothing shared
pub open spec fn owned_cow(c: CowV) -> CowV { CowV { borrowed: false, ..c } }
pub open spec fn owned_attr(a: AttrV) -> AttrV { AttrV { value: owned_cow(a.value), ..a } }
pub open spec fn owned_any(e: AnyV) -> AnyV
    decreases e,
{
    AnyV {
        name: e.name,
        attributes: e.attributes.map_values(|a: AttrV| owned_attr(a)),
        text: match e.text { Some(t) => Some(owned_cow(t)), None => None },
        children: Seq::new(e.children.len(), |i: int| if 0 <= i < e.children.len() { owned_any(e.children[i]) } else { arbitrary() }),
    }
}

pub broadcast proof fn owned_is(e: AnyElement, r: AnyElement)
    requires
        cowv(r.ns).text == cowv(e.ns).text, cowv(r.name).text == cowv(e.name).text,
        r.attributes@.len() == e.attributes@.len(),
        forall|i: int| 0 <= i < e.attributes@.len() ==> attrv(r.attributes@[i]) == owned_attr(attrv(e.attributes@[i])),
        match e.text { Some(t) => r.text matches Some(u) && cowv(u) == owned_cow(cowv(t)), None => r.text is None },
        r.children@.len() == e.children@.len(),
        forall|i: int| 0 <= i < e.children@.len() ==> anyv(r.children@[i]) == owned_any(anyv(e.children@[i])),
    ensures #[trigger] anyv(r) == #[trigger] owned_any(anyv(e)),
{
    assert(anyv(r).attributes =~= owned_any(anyv(e)).attributes);
    assert(anyv(r).children =~= owned_any(anyv(e)).children);
}

//@impl AnyAttribute
//@method into_owned ret=r
    ensures attrv(r) == owned_attr(attrv(self)),
//@start
        broadcast use axiom_owned_of;
//@endimpl
//@impl AnyElement
//@method into_owned ret=r
    ensures anyv(r) == owned_any(anyv(self)),
    decreases self,
//@start
        broadcast use axiom_owned_of, owned_is;
//@loop 0
        invariant
            vx_out0@.len() + vx_src0@.len() == self.attributes@.len(),
            forall|i: int| 0 <= i < vx_out0@.len() ==> attrv(vx_out0@[i]) == owned_attr(attrv(self.attributes@[i])),
            forall|i: int| 0 <= i < vx_src0@.len() ==> #[trigger] vx_src0@[i] == self.attributes@[vx_out0@.len() + i],
        decreases vx_src0@.len(),
//@loop 1
        invariant
            vx_out1@.len() + vx_src1@.len() == self.children@.len(),
            forall|i: int| 0 <= i < vx_out1@.len() ==> anyv(vx_out1@[i]) == owned_any(anyv(self.children@[i])),
            forall|i: int| 0 <= i < vx_src1@.len() ==> #[trigger] vx_src1@[i] == self.children@[vx_out1@.len() + i],
        decreases vx_src1@.len(),
//@method deserialize ret=r
    ensures
        match r {
            Ok(v) => tree(old(deserializer).dv(), bare(idv(id))) == (Ok::<AnyV, ErrV>(anyv(v)), final(deserializer).dv()),
            Err(e) => tree(old(deserializer).dv(), bare(idv(id))).0 == Err::<AnyV, ErrV>(err(e)),
        },
        moved(old(deserializer).dv(), final(deserializer).dv()),
        final(deserializer).later() == old(deserializer).later(),
    decreases left_d(old(deserializer).dv()),
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
        broadcast use attrs_push, attrs_empty, no_children;
        let ghost vx_d = deserializer.dv();
//@loop 0
        invariant_except_break
            tree(deserializer.dv(), anyv(elem)) == tree(vx_d, bare(idv(id))),
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
        ensures
            tree(vx_d, bare(idv(id))) == (Ok::<AnyV, ErrV>(anyv(elem)), deserializer.dv()),
            moved(vx_d, deserializer.dv()),
            deserializer.later() == old(deserializer).later(),
        decreases left_d(deserializer.dv()),
//@loop-start 0
            let ghost vx_at = deserializer.dv();
            let ghost vx_acc = anyv(elem);
            let ghost vx_elem = elem;
            proof { next_decreases(vx_at); tree_moves(vx_at, vx_acc); }
//@loop-end 0
            proof {
                let c = elem.children@;
                if c.len() > vx_elem.children@.len() { assert(anyv(elem).children =~= vx_acc.children.push(anyv(c.last()))); }
                else { assert(anyv(elem).children =~= vx_acc.children); }
            }
//@endimpl
//@impl FromXml for AnyElement
    open spec fn fits() -> bool { true }
    open spec fn flat() -> bool { false }
    open spec fn named(id: IdV, field: Option<IdV>) -> bool { true }
    open spec fn reads(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) -> bool {
        a is None && (b matches Some(v) && tree(d, bare(own_name(d))) == (Ok::<AnyV, ErrV>(anyv(v)), e))
    }
    open spec fn fails(d: D<'xml>, a: Self::Accumulator, e: ErrV) -> bool {
        if a is Some { e == ErrV::Duplicate } else { tree(d, bare(own_name(d))).0 == Err::<AnyV, ErrV>(e) }
    }
//@method matches
//@method deserialize
//@start
        proof { if tree(deserializer.dv(), bare(own_name(deserializer.dv()))).0 is Ok { tree_settles(deserializer.dv(), bare(own_name(deserializer.dv()))); } }
//@assoc Accumulator
//@assoc KIND
//@endimpl
//@end
} // verus!
fn main() {}
