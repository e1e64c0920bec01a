//@use gen:shapes.rs

// ---- an element without content

//@item struct Unit
//@end
//@impl ToXml for Unit
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { Set::empty() }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
        exists|tag: LevelV| tagged(stack, tag, "urn:shapes"@, "Unit"@) && ev == #[trigger] element_events(tag, Seq::empty(), Seq::empty())
    }
//@method serialize
//@start
        proof { names_ok(); if serializer.state is Element { room_context(serializer.prefixes@, Seq::empty(), Set::empty()); } }
        let ghost vx_v = *serializer;
//@before end_empty
        let ghost vx_q = settle(doc(serializer));
        proof {
            let ev = element_events(vx_q.tag, Seq::empty(), Seq::empty());
            assert(tagged(doc(&vx_v).stack, vx_q.tag, "urn:shapes"@, "Unit"@));
            assert(vx_q.attrs =~= Seq::<AttrV>::empty());
            let l = emptied(vx_q).log;
            assert(added(doc(&vx_v).log, l) =~= ev);
        }
//@method present
//@endimpl

pub proof fn names_ok()
    ensures name_ok("Unit"@), uri_ok("urn:shapes"@),
{
    reveal_strlit("Unit"); reveal_strlit("urn:shapes");
}

// ---- fields by position

//@item struct Tuple
//@end
pub open spec fn tuple_is<A: ToXml, B: ToXml>(v: &Tuple<A, B>, stack: Seq<LevelV>, ev: Seq<EventV>, tag: LevelV, x: Seq<EventV>, y: Seq<EventV>) -> bool {
    &&& tagged(stack, tag, "urn:shapes"@, "Tuple"@)
    &&& ev == element_events(tag, Seq::empty(), x + y)
    &&& events_of(&v.0, None, stack.push(tag), x)
    &&& events_of(&v.1, None, stack.push(tag), y)
}
//@impl ToXml for Tuple
    open spec fn writable(&self) -> bool { self.0.writable() && self.1.writable() }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { A::binds().union(B::binds()) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
        exists|tag: LevelV, x: Seq<EventV>, y: Seq<EventV>| #[trigger] tuple_is(self, stack, ev, tag, x, y)
    }
//@method serialize
//@start
        broadcast use push_drop;
        proof {
            reveal_strlit("Tuple"); reveal_strlit("urn:shapes");
            if serializer.state is Element { room_context(serializer.prefixes@, Seq::empty(), Self::binds()); }
        }
        let ghost vx_v = *serializer;
//@before end_start
        let ghost vx_q = settle(doc(serializer));
        proof {
            assert(tagged(doc(&vx_v).stack, vx_q.tag, "urn:shapes"@, "Tuple"@));
            assert(vx_q.attrs =~= Seq::<AttrV>::empty());
            room_inside(vx_v.prefixes@, serializer.prefixes@, Seq::empty(), Self::binds(), A::binds());
            room_inside(vx_v.prefixes@, serializer.prefixes@, Seq::empty(), Self::binds(), B::binds());
        }
//@before serialize#0
        let ghost vx_0 = *serializer;
//@before serialize#1
        let ghost vx_1 = *serializer;
        proof { rendered(&self.0, None, &vx_0, serializer); }
//@before write_close
        proof {
            rendered(&self.1, None, &vx_1, serializer);
            let (x, y) = (added(doc(&vx_0).log, doc(&vx_1).log), added(doc(&vx_1).log, doc(serializer).log));
            let l = doc(serializer).log.push(EventV::End);
            assert(added(doc(&vx_v).log, l) =~= element_events(vx_q.tag, Seq::empty(), x + y));
            assert(tuple_is(self, doc(&vx_v).stack, added(doc(&vx_v).log, l), vx_q.tag, x, y));
        }
//@method present
//@endimpl

// ---- named fields: two attributes, one of them in another namespace, and two elements, one of them in its own namespace

//@const OTHER
    ensures OTHER@ == "urn:other"@,
//@item struct Named
//@end
pub open spec fn named_is<A: ToXml, B: ToXml, C: ToXml, D: ToXml>(v: &Named<A, B, C, D>, stack: Seq<LevelV>, ev: Seq<EventV>, tag: LevelV, a: Seq<AttrV>, b: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>) -> bool {
    let inner = stack.push(tag);
    &&& tagged(stack, tag, "urn:shapes"@, "named"@)
    &&& ev == element_events(tag, a + b, x + y)
    &&& attribute_of(&v.a, IdV { ns: ""@, name: "a"@ }, inner, a)
    &&& attribute_of(&v.b, IdV { ns: "urn:other"@, name: "b"@ }, inner, b)
    &&& events_of(&v.c, Some(IdV { ns: "urn:shapes"@, name: "c"@ }), inner, x)
    &&& events_of(&v.d, Some(IdV { ns: "urn:own"@, name: "dee"@ }), inner, y)
}
//@impl ToXml for Named
    open spec fn writable(&self) -> bool { self.a.writable() && self.b.writable() && self.c.writable() && self.d.writable() }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { C::binds().union(D::binds()).insert(("p"@, "urn:other"@)) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
        exists|tag: LevelV, a: Seq<AttrV>, b: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>| #[trigger] named_is(self, stack, ev, tag, a, b, x, y)
    }
//@method serialize
//@attr #[verifier::rlimit(60)]
//@start
        broadcast use push_drop;
        proof { names_named(); }
        let ghost vx_v = *serializer;
//@before write_start
        let ghost vx_cx = new.prefixes@;
        proof {
            assert(vx_cx.len() == 1 && vx_cx[0].prefix@ == "p"@ && vx_cx[0].ns@ == "urn:other"@);
            if serializer.state is Element { room_context(serializer.prefixes@, vx_cx, Self::binds()); }
        }
//@before end_start
        let ghost vx_q = settle(doc(serializer));
        let ghost vx_n: int = if self.a.there() { 1 } else { 0 };
        let ghost (vx_a, vx_b) = (vx_q.attrs.subrange(0, vx_n), vx_q.attrs.subrange(vx_n, vx_q.attrs.len() as int));
        proof {
            assert(vx_a + vx_b =~= vx_q.attrs);
            assert(tagged(doc(&vx_v).stack, vx_q.tag, "urn:shapes"@, "named"@));
            assert(attribute_of(&self.a, IdV { ns: ""@, name: "a"@ }, doc(&vx_v).stack.push(vx_q.tag), vx_a));
            assert(attribute_of(&self.b, IdV { ns: "urn:other"@, name: "b"@ }, doc(&vx_v).stack.push(vx_q.tag), vx_b));
            room_inside(vx_v.prefixes@, serializer.prefixes@, vx_cx, Self::binds(), C::binds());
            room_inside(vx_v.prefixes@, serializer.prefixes@, vx_cx, Self::binds(), D::binds());
        }
//@before serialize#0
        let ghost vx_0 = *serializer;
//@before serialize#1
        let ghost vx_1 = *serializer;
        proof { rendered(&self.c, Some(Id { ns: "urn:shapes", name: "c" }), &vx_0, serializer); }
//@before write_close
        proof {
            rendered(&self.d, Some(Id { ns: "urn:own", name: "dee" }), &vx_1, serializer);
            let (x, y) = (added(doc(&vx_0).log, doc(&vx_1).log), added(doc(&vx_1).log, doc(serializer).log));
            let l = doc(serializer).log.push(EventV::End);
            assert(added(doc(&vx_v).log, l) =~= element_events(vx_q.tag, vx_a + vx_b, x + y));
            assert(named_is(self, doc(&vx_v).stack, added(doc(&vx_v).log, l), vx_q.tag, vx_a, vx_b, x, y));
        }
//@method present
//@endimpl
pub proof fn names_named()
    ensures
        name_ok("named"@), name_ok("c"@), name_ok("dee"@), name_ok("a"@), name_ok("b"@), prefix_ok("p"@), "a"@ != "b"@,
        uri_ok("urn:shapes"@), uri_ok("urn:other"@), uri_ok("urn:own"@), "urn:other"@.len() > 0, "p"@.len() == 1, ""@.len() == 0,
{
    reveal_strlit("named"); reveal_strlit("c"); reveal_strlit("dee"); reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("p"); reveal_strlit("");
    reveal_strlit("urn:shapes"); reveal_strlit("urn:other"); reveal_strlit("urn:own");
    assert("a"@[0] != "b"@[0]);
}

// ---- an attribute, an element, and direct text

//@item struct Direct
//@end
pub open spec fn direct_is<A: ToXml, B: ToXml, C: ToXml>(v: &Direct<A, B, C>, stack: Seq<LevelV>, ev: Seq<EventV>, tag: LevelV, a: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>) -> bool {
    let inner = stack.push(tag);
    &&& tagged(stack, tag, ""@, "Direct"@)
    &&& ev == element_events(tag, a, x + y)
    &&& attribute_of(&v.a, IdV { ns: ""@, name: "a"@ }, inner, a)
    &&& events_of(&v.b, Some(IdV { ns: ""@, name: "b"@ }), inner, x)
    &&& events_of(&v.c, None, inner, y)
}
//@impl ToXml for Direct
    open spec fn writable(&self) -> bool { self.a.writable() && self.b.writable() && self.c.writable() }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { B::binds().union(C::binds()) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
        exists|tag: LevelV, a: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>| #[trigger] direct_is(self, stack, ev, tag, a, x, y)
    }
//@method serialize
//@attr #[verifier::rlimit(60)]
//@start
        hide(extended); hide(coherent); hide(compatible); hide(feed);
        broadcast use push_drop;
        proof {
            names_direct();
            if serializer.state is Element { room_context(serializer.prefixes@, Seq::empty(), Self::binds()); }
        }
        let ghost vx_v = *serializer;
//@before write_start
        proof { assert(new.prefixes@ =~= Seq::<Prefix>::empty()); }
//@before end_start
        let ghost vx_q = settle(doc(serializer));
        proof {
            assert(tagged(doc(&vx_v).stack, vx_q.tag, ""@, "Direct"@));
            assert(attribute_of(&self.a, IdV { ns: ""@, name: "a"@ }, doc(&vx_v).stack.push(vx_q.tag), vx_q.attrs));
            room_inside(vx_v.prefixes@, serializer.prefixes@, Seq::empty(), Self::binds(), B::binds());
            room_inside(vx_v.prefixes@, serializer.prefixes@, Seq::empty(), Self::binds(), C::binds());
        }
//@before serialize#0
        let ghost vx_0 = *serializer;
//@before serialize#1
        let ghost vx_1 = *serializer;
        proof { rendered(&self.b, Some(Id { ns: "", name: "b" }), &vx_0, serializer); }
//@before write_close
        proof {
            rendered(&self.c, None, &vx_1, serializer);
            let (x, y) = (added(doc(&vx_0).log, doc(&vx_1).log), added(doc(&vx_1).log, doc(serializer).log));
            let l = doc(serializer).log.push(EventV::End);
            assert(added(doc(&vx_v).log, l) =~= element_events(vx_q.tag, vx_q.attrs, x + y));
            assert(direct_is(self, doc(&vx_v).stack, added(doc(&vx_v).log, l), vx_q.tag, vx_q.attrs, x, y));
        }
//@method present
//@endimpl

pub proof fn names_direct()
    ensures name_ok("Direct"@), name_ok("a"@), name_ok("b"@), uri_ok(""@), ""@.len() == 0, ""@ == Seq::<char>::empty(),
{
    reveal_strlit("Direct"); reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
}

// ---- names of variants

//@item enum Choice
//@end
pub open spec fn choice_name(v: Choice) -> Seq<char> {
    match v { Choice::One => "ONE"@, Choice::Two => "number two"@, Choice::Three => "3"@ }
}
//@impl ToXml for Choice
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(choice_name(*self)) }
    open spec fn there(&self) -> bool { true }
    // the namespace of a scalar enum is that of its type
    open spec fn place(id: IdV) -> IdV { IdV { ns: ""@, name: id.name } }
    open spec fn binds() -> Binds { Set::empty() }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool { false }
//@method serialize
//@start
        broadcast use push_drop;
        proof { reveal_strlit(""); }
        let ghost vx_v = *serializer;
//@before end_start
        proof { assert(settle(doc(serializer)).attrs =~= Seq::<AttrV>::empty()); }
//@before serialize
        let ghost vx_1 = *serializer;
//@before write_close
        proof {
            let q = doc(serializer);
            let tag = doc(&vx_1).stack.last();
            assert(doc(&vx_1).log == doc(&vx_v).log.push(EventV::Start { tag, attrs: Seq::empty() }));
            assert(shows(&vx_1, serializer, None, choice_name(*self)));
            let x = choose|x: Seq<char>| #[trigger] says(x, choice_name(*self)) && q.log == doc(&vx_1).log + chars(x);
            assert(wraps(doc(&vx_v).log, q.log.push(EventV::End), tag, x));
        }
//@method present
//@endimpl

// ---- one of several types

//@item enum Either
//@end
//@impl ToXml for Either
    open spec fn writable(&self) -> bool { match *self { Either::Left(x) => x.writable(), Either::Right(x) => x.writable() } }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { A::binds().union(B::binds()) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
        match *self { Either::Left(x) => events_of(&x, None, stack, ev), Either::Right(x) => events_of(&x, None, stack, ev) }
    }
//@method serialize
//@start
        proof {
            if serializer.state is Element {
                room_part(serializer.prefixes@, Self::binds(), A::binds());
                room_part(serializer.prefixes@, Self::binds(), B::binds());
            }
        }
        let ghost vx_v = *serializer;
//@before Ok
        proof {
            if vx_v.state is Element {
                match self { Either::Left(x) => rendered(x, None, &vx_v, serializer), Either::Right(x) => rendered(x, None, &vx_v, serializer) }
            }
        }
//@method present
//@endimpl

// ---- fields without an element around them

//@item struct Inline
//@end
pub open spec fn inline_is<A: ToXml, B: ToXml>(v: &Inline<A, B>, stack: Seq<LevelV>, ev: Seq<EventV>, x: Seq<EventV>, y: Seq<EventV>) -> bool {
    &&& ev == x + y
    &&& events_of(&v.a, Some(IdV { ns: ""@, name: "a"@ }), stack, x)
    &&& events_of(&v.b, Some(IdV { ns: ""@, name: "b"@ }), stack, y)
}
//@impl ToXml for Inline
    open spec fn writable(&self) -> bool { self.a.writable() && self.b.writable() }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { A::binds().union(B::binds()) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
        exists|x: Seq<EventV>, y: Seq<EventV>| #[trigger] inline_is(self, stack, ev, x, y)
    }
//@method serialize
//@start
        proof {
            reveal_strlit("a"); reveal_strlit("b"); reveal_strlit("");
            if serializer.state is Element {
                room_part(serializer.prefixes@, Self::binds(), A::binds());
                room_part(serializer.prefixes@, Self::binds(), B::binds());
            }
        }
        let ghost vx_0 = *serializer;
//@before serialize#1
        let ghost vx_1 = *serializer;
        proof { if vx_0.state is Element { rendered(&self.a, Some(Id { ns: "", name: "a" }), &vx_0, serializer); } }
//@before Ok
        proof {
            if vx_0.state is Element {
                rendered(&self.b, Some(Id { ns: "", name: "b" }), &vx_1, serializer);
                let (x, y) = (added(doc(&vx_0).log, doc(&vx_1).log), added(doc(&vx_1).log, doc(serializer).log));
                assert(added(doc(&vx_0).log, doc(serializer).log) =~= x + y);
                assert(inline_is(self, doc(&vx_0).stack, added(doc(&vx_0).log, doc(serializer).log), x, y));
            }
        }
//@method present
//@endimpl

// ---- names by a rule, a prefix that is always written

//@item struct Cased
//@end
pub open spec fn cased_is<A: ToXml, B: ToXml, C: ToXml>(v: &Cased<A, B, C>, stack: Seq<LevelV>, ev: Seq<EventV>, tag: LevelV, a: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>) -> bool {
    let inner = stack.push(tag);
    &&& tagged(stack, tag, "urn:cased"@, "Cased"@)
    &&& ev == element_events(tag, a, x + y)
    &&& attribute_of(&v.first_name, IdV { ns: ""@, name: "FIRST-NAME"@ }, inner, a)
    &&& events_of(&v.last_name, Some(IdV { ns: "urn:cased"@, name: "LAST-NAME"@ }), inner, x)
    &&& events_of(&v.r#type, Some(IdV { ns: "urn:cased"@, name: "TYPE"@ }), inner, y)
}
//@impl ToXml for Cased
    open spec fn writable(&self) -> bool { self.first_name.writable() && self.last_name.writable() && self.r#type.writable() }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { B::binds().union(C::binds()).insert(("k"@, "urn:cased"@)) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
        exists|tag: LevelV, a: Seq<AttrV>, x: Seq<EventV>, y: Seq<EventV>| #[trigger] cased_is(self, stack, ev, tag, a, x, y)
    }
//@method serialize
//@attr #[verifier::rlimit(100)]
//@start
        hide(extended); hide(coherent); hide(compatible); hide(feed);
        broadcast use push_drop;
        proof {
            names_cased();
        }
        let ghost vx_v = *serializer;
//@before write_start
        let ghost vx_cx = new.prefixes@;
        proof {
            assert(vx_cx.len() == 1 && vx_cx[0].prefix@ == "k"@ && vx_cx[0].ns@ == "urn:cased"@);
            if serializer.state is Element { room_context(serializer.prefixes@, vx_cx, Self::binds()); }
        }
//@before end_start
        let ghost vx_q = settle(doc(serializer));
        proof {
            assert(tagged(doc(&vx_v).stack, vx_q.tag, "urn:cased"@, "Cased"@));
            assert(attribute_of(&self.first_name, IdV { ns: ""@, name: "FIRST-NAME"@ }, doc(&vx_v).stack.push(vx_q.tag), vx_q.attrs));
            room_inside(vx_v.prefixes@, serializer.prefixes@, vx_cx, Self::binds(), B::binds());
            room_inside(vx_v.prefixes@, serializer.prefixes@, vx_cx, Self::binds(), C::binds());
        }
//@before serialize#0
        let ghost vx_0 = *serializer;
//@before serialize#1
        let ghost vx_1 = *serializer;
        proof { rendered(&self.last_name, Some(Id { ns: "urn:cased", name: "LAST-NAME" }), &vx_0, serializer); }
//@before write_close
        proof {
            rendered(&self.r#type, Some(Id { ns: "urn:cased", name: "TYPE" }), &vx_1, serializer);
            let (x, y) = (added(doc(&vx_0).log, doc(&vx_1).log), added(doc(&vx_1).log, doc(serializer).log));
            let l = doc(serializer).log.push(EventV::End);
            assert(added(doc(&vx_v).log, l) =~= element_events(vx_q.tag, vx_q.attrs, x + y));
            assert(cased_is(self, doc(&vx_v).stack, added(doc(&vx_v).log, l), vx_q.tag, vx_q.attrs, x, y));
        }
//@method present
//@endimpl

pub proof fn names_cased()
    ensures name_ok("Cased"@), name_ok("FIRST-NAME"@), name_ok("LAST-NAME"@), name_ok("TYPE"@), prefix_ok("k"@), uri_ok("urn:cased"@), "urn:cased"@.len() > 0, "k"@.len() == 1, ""@.len() == 0,
{
    reveal_strlit("Cased"); reveal_strlit("FIRST-NAME"); reveal_strlit("LAST-NAME"); reveal_strlit("TYPE"); reveal_strlit("k"); reveal_strlit("urn:cased"); reveal_strlit("");
}

// ---- a field that shares the input, and a field with a function of its own

//@fn own_out
        requires
            ready(old(serializer)),
            old(serializer).state is Element ==> ns_ok(old(serializer)) && room(old(serializer), Set::empty()),
        ensures
            match r {
                Err(e) => surfaces(e, old(serializer), final(serializer)),
                Ok(_) => written(old(serializer), final(serializer)) && shows(old(serializer), final(serializer), Some(IdV { ns: ""@, name: "b"@ }), value@),
            },
//@start
        proof { names_direct(); }
//@end
//@item struct Borrowing
//@end
pub open spec fn borrowing_is(v: &Borrowing<'_>, stack: Seq<LevelV>, ev: Seq<EventV>, tag: LevelV, x: Seq<EventV>, y: Seq<EventV>) -> bool {
    let inner = stack.push(tag);
    &&& tagged(stack, tag, ""@, "Borrowing"@)
    &&& ev == element_events(tag, Seq::empty(), x + y)
    &&& text_renders(cow(v.a), Some(IdV { ns: ""@, name: "a"@ }), inner, x)
    &&& text_renders(v.b@, Some(IdV { ns: ""@, name: "b"@ }), inner, y)
}
//@impl ToXml for Borrowing
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { Set::empty() }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
        exists|tag: LevelV, x: Seq<EventV>, y: Seq<EventV>| #[trigger] borrowing_is(self, stack, ev, tag, x, y)
    }
//@method serialize
//@start
        hide(extended); hide(coherent); hide(compatible); hide(feed);
        broadcast use push_drop;
        proof {
            names_direct();
            names_borrowing();
            if serializer.state is Element { room_context(serializer.prefixes@, Seq::empty(), Self::binds()); }
        }
        let ghost vx_v = *serializer;
//@before write_start
        proof { assert(new.prefixes@ =~= Seq::<Prefix>::empty()); }
//@before end_start
        let ghost vx_q = settle(doc(serializer));
        proof {
            assert(tagged(doc(&vx_v).stack, vx_q.tag, ""@, "Borrowing"@));
            assert(vx_q.attrs =~= Seq::<AttrV>::empty());
            room_inside(vx_v.prefixes@, serializer.prefixes@, Seq::empty(), Self::binds(), Set::empty());
        }
//@before serialize#0
        let ghost vx_0 = *serializer;
//@before own_out
        let ghost vx_1 = *serializer;
        proof { rendered(&self.a, Some(Id { ns: "", name: "a" }), &vx_0, serializer); }
//@before write_close
        proof {
            rendered(&self.b, Some(Id { ns: "", name: "b" }), &vx_1, serializer);
            let (x, y) = (added(doc(&vx_0).log, doc(&vx_1).log), added(doc(&vx_1).log, doc(serializer).log));
            let l = doc(serializer).log.push(EventV::End);
            assert(added(doc(&vx_v).log, l) =~= element_events(vx_q.tag, Seq::empty(), x + y));
            assert(borrowing_is(self, doc(&vx_v).stack, added(doc(&vx_v).log, l), vx_q.tag, x, y));
        }
//@method present
//@endimpl
pub proof fn names_borrowing()
    ensures name_ok("Borrowing"@),
{
    reveal_strlit("Borrowing");
}

//@item struct Lent
//@end
pub open spec fn lent_is(v: &Lent<'_>, stack: Seq<LevelV>, ev: Seq<EventV>, x: Seq<EventV>, y: Seq<EventV>) -> bool {
    &&& ev == x + y
    &&& text_renders(cow(v.a), Some(IdV { ns: ""@, name: "a"@ }), stack, x)
    &&& text_renders(v.b@, Some(IdV { ns: ""@, name: "b"@ }), stack, y)
}
//@impl ToXml for Lent
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { Set::empty() }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
        exists|x: Seq<EventV>, y: Seq<EventV>| #[trigger] lent_is(self, stack, ev, x, y)
    }
//@method serialize
//@start
        proof { names_direct(); }
        let ghost vx_0 = *serializer;
//@before own_out
        let ghost vx_1 = *serializer;
        proof { if vx_0.state is Element { rendered(&self.a, Some(Id { ns: "", name: "a" }), &vx_0, serializer); } }
//@before Ok
        proof {
            if vx_0.state is Element {
                rendered(&self.b, Some(Id { ns: "", name: "b" }), &vx_1, serializer);
                let (x, y) = (added(doc(&vx_0).log, doc(&vx_1).log), added(doc(&vx_1).log, doc(serializer).log));
                assert(added(doc(&vx_0).log, doc(serializer).log) =~= x + y);
                assert(lent_is(self, doc(&vx_0).stack, added(doc(&vx_0).log, doc(serializer).log), x, y));
            }
        }
//@method present
//@endimpl
