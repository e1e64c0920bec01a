// ---- the code: values ---------------------------------------------------------------------------------------------

//@use instant-xml/src/impls.rs
//@opt method encode_utf8 vx_encode_utf8
//@item struct DisplayToXml
//@impl ToXml for DisplayToXml<'_, T>
    open spec fn writable(&self) -> bool { textual(self.0.shown()) }
    open spec fn text(&self) -> Option<Seq<char>> { dec(self.0.shown()) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { assert(says(self.0.shown(), dec(self.0.shown())->0)); }
//@method present
//@endimpl
//@fn display_to_xml
    requires
        textual(value.shown()),
        field matches Some(id) ==> id_ok(id),
        ready(old(serializer)),
        old(serializer).state is Element && field is Some ==> ns_ok(old(serializer)),
    ensures
        match r {
            Err(e) => surfaces(e, old(serializer), final(serializer)),
            Ok(_) => written(old(serializer), final(serializer)) && shows(old(serializer), final(serializer), field_of(field), dec(value.shown())->0),
        },
//@impl ToXml for bool
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(if *self { "true"@ } else { "false"@ }) }
//@include text.inc
//@method serialize
//@start
    broadcast use texts_ok;
    proof {
        reveal_strlit("true"); reveal_strlit("false");
        plain_says("true"@); plain_says("false"@);
    }
//@method present
//@endimpl
//@include strimpl.inc
//@impl ToXml for char
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(seq![*self]) }
//@include text.inc
//@method serialize
//@start
    broadcast use texts_ok;
//@method present
//@endimpl
//@impl ToXml for Option<T>
    open spec fn writable(&self) -> bool { *self matches Some(x) ==> x.writable() }
    open spec fn text(&self) -> Option<Seq<char>> { match *self { Some(x) => x.text(), None => None } }
    open spec fn there(&self) -> bool { *self is Some }
    open spec fn binds() -> Binds { T::binds() }
    open spec fn place(id: IdV) -> IdV { T::place(id) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool { match *self { Some(x) => x.renders(field, stack, ev), None => ev.len() == 0 } }
//@method serialize
//@method present
//@endimpl
//@impl ToXml for Box<T>
    open spec fn writable(&self) -> bool { (**self).writable() }
    open spec fn text(&self) -> Option<Seq<char>> { (**self).text() }
    open spec fn there(&self) -> bool { (**self).there() }
    open spec fn binds() -> Binds { T::binds() }
    open spec fn place(id: IdV) -> IdV { T::place(id) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool { (**self).renders(field, stack, ev) }
//@method serialize
//@method present
//@endimpl
//@impl ToXml for [T]
    open spec fn writable(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).writable() }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn binds() -> Binds { T::binds() }
    open spec fn place(id: IdV) -> IdV { T::place(id) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool { list_renders(self@, field, stack, ev) }
//@method serialize
//@start
    let ghost vx_v = *serializer;
    let ghost vx_f = field_of(field);
    let ghost vx_st = doc(serializer).stack;
    let ghost mut vx_ev = Seq::<EventV>::empty();
    proof { assert(doc(serializer).log =~= doc(serializer).log + vx_ev); }
//@loop 0
        invariant
            vx_s0@ == self@, vx_i0 <= vx_s0@.len(), self.writable(), field matches Some(id) ==> id_ok(id), vx_f == field_of(field),
            *old(serializer) == vx_v, vx_v.state is Element ==> ns_ok(&vx_v) && room(&vx_v, T::binds()), vx_v.state == serializer.state,
            written(&vx_v, serializer), vx_st == doc(&vx_v).stack,
            vx_v.state is Element ==> doc(serializer).log == doc(&vx_v).log + vx_ev,
            vx_v.state is Element ==> list_renders(vx_s0@.subrange(0, vx_i0 as int), vx_f, vx_st, vx_ev),
        decreases vx_s0@.len() - vx_i0,
//@loop-start 0
            let ghost (vx_w, vx_n) = (*serializer, vx_i0 as int);
//@loop-end 0
            proof {
                if vx_v.state is Element {
                    rendered(&vx_s0@[vx_n], field, &vx_w, serializer);
                    let e = added(doc(&vx_w).log, doc(serializer).log);
                    assert(doc(serializer).log =~= doc(&vx_v).log + (vx_ev + e));
                    let l = vx_s0@.subrange(0, vx_n + 1);
                    assert(l.drop_last() =~= vx_s0@.subrange(0, vx_n) && l.last() == vx_s0@[vx_n]);
                    assert(events_of(&l.last(), vx_f, vx_st, e));
                    vx_ev = vx_ev + e;
                }
            }
//@loop-after 0
    proof {
        assert(vx_s0@.subrange(0, vx_s0@.len() as int) =~= self@);
        if vx_v.state is Element { assert(added(doc(&vx_v).log, doc(serializer).log) =~= vx_ev); }
    }
//@method present
//@endimpl
//@impl ToXml for Vec<T>
    open spec fn writable(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).writable() }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn binds() -> Binds { T::binds() }
    open spec fn place(id: IdV) -> IdV { T::place(id) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool { list_renders(self@, field, stack, ev) }
//@method serialize
//@method present
//@endimpl
//@impl ToXml for Cow<'_, [T]>
    open spec fn writable(&self) -> bool { cow_ref::<[T]>(self).writable() }
    open spec fn text(&self) -> Option<Seq<char>> { None }
    open spec fn there(&self) -> bool { true }
    open spec fn binds() -> Binds { T::binds() }
    open spec fn place(id: IdV) -> IdV { T::place(id) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool { list_renders(cow_ref::<[T]>(self)@, field, stack, ev) }
//@method serialize
//@method present
//@endimpl
//@impl ToXml for IpAddr
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for DateTime<Utc>
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); assert(says(machine(*self), machine(*self))); }
//@method present
//@endimpl
//@impl ToXml for NaiveDateTime
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); assert(says(machine(*self), machine(*self))); }
//@method present
//@endimpl
//@impl ToXml for NaiveDate
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); assert(says(machine(*self), machine(*self))); }
//@method present
//@endimpl
//@expand to_xml_for_number
//@impl ToXml for i8
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for i16
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for i32
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for i64
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for isize
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for u8
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for u16
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for u32
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for u64
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for usize
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for f32
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@impl ToXml for f64
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(machine(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use values;
    proof { axiom_machine(*self); plain_says(machine(*self)); }
//@method present
//@endimpl
//@use instant-xml/src/lib.rs
//@impl ToXml for &T
    open spec fn writable(&self) -> bool { (**self).writable() }
    open spec fn text(&self) -> Option<Seq<char>> { (**self).text() }
    open spec fn there(&self) -> bool { (**self).there() }
    open spec fn binds() -> Binds { T::binds() }
    open spec fn place(id: IdV) -> IdV { T::place(id) }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool { (**self).renders(field, stack, ev) }
//@method serialize
//@method present
//@endimpl
