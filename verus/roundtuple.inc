
// ---- fields by position: elements and texts

/// the reader after a position: in the same element, or (an empty text in the last position) at its end
pub open spec fn past<'a>(d: D<'a>, e: D<'a>, rest: Seq<EventV>, last: bool) -> bool {
    (inside(e, Seq::empty(), rest) && beside(d, e)) || (last && e.done && e.first is None)
}

/// from d, such a value is read in the next position, up to e, and it is not refused
pub open spec fn filled<'xml, T: FromXml<'xml>>(d: D<'xml>, e: D<'xml>, ok: spec_fn(T) -> bool) -> bool {
    if T::KIND is Element {
        match next_of(d) {
            (Out::Node(NodeV::Open(x)), d1) => {
                &&& element_name(d1.s.stack, x) matches Some(name) && T::named(name, None)
                &&& drain(d1.s, d1.s.stack.len() as int) == (None::<ErrV>, e.s) && e == (D { s: e.s, ..d1 })
                &&& taken::<T>(opened(x, d1.s), ok)
            },
            (Out::End, d1) => e == d1 && forall|b: T::Accumulator| #[trigger] b.blank() ==> b.done() is Some && ok(b.done()->0),
            _ => false,
        }
    } else {
        taken::<T>(d, ok) && forall|a: T::Accumulator, f: D<'xml>, b: T::Accumulator| #[trigger] T::reads(d, a, f, b) ==> f == e
    }
}
pub proof fn filled_slot<'xml, T: FromXml<'xml>>(d: D<'xml>, e: D<'xml>, ok: spec_fn(T) -> bool)
    requires filled::<T>(d, e, ok),
    ensures
        forall|b: T::Accumulator, f: D<'xml>| #[trigger] slot::<T>(d, b, f) ==> f == e && b.done() is Some && ok(b.done()->0),
        forall|x: ErrV| !#[trigger] slot_fails::<T>(d, x),
{
}

/// values in a position
pub trait Part<'xml>: Value<'xml> {
    /// what is assumed of a value in a (or: the last) position: there is an element, or a text
    spec fn alone(&self, last: bool) -> bool;

    proof fn law_part(&self, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>)
        requires self.good(), self.alone(last), events_of(self, None, stack, ev),
        ensures bal(0, ev), Self::KIND is Element ==> if ev.len() == 0 { last } else { ev[0] is Start };

    proof fn law_slot(&self, last: bool, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>)
        requires
            self.good(), self.alone(last), inside(d, Seq::empty(), ev + rest), events_of(self, None, d.s.stack, ev),
            last ==> rest.len() > 0 && rest[0] is End,
            Self::KIND is Scalar ==> rest.len() > 0 && !(rest[0] is Char),
        ensures
            past(d, e, rest, last),
            filled::<Self>(d, e, |w: Self| self.same(&w));
}

pub proof fn struct_part<'xml, T: Struct<'xml>>(v: &T, stack: Seq<LevelV>, ev: Seq<EventV>)
    requires v.good(), events_of(v, None, stack, ev),
    ensures bal(0, ev), ev.len() > 0 && ev[0] is Start,
{
    v.law_named(None);
    struct_bal(v, None, stack, ev);
    let (tag, ats, content) = v.law_shape(None, stack, ev);
}

/// the element in the next position
pub proof fn struct_slot<'xml, T: Struct<'xml>>(v: &T, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>)
    requires v.good(), T::KIND is Element, inside(d, Seq::empty(), ev + rest), events_of(v, None, d.s.stack, ev),
    ensures inside(e, Seq::empty(), rest), beside(d, e), filled::<T>(d, e, |w: T| v.same(&w)),
{
    v.law_named(None);
    let (f, e) = struct_head(v, d, None, ev, rest);
    e
}

/// there is a text, and only the last one is empty
pub open spec fn text_alone<'xml, T: Value<'xml>>(v: &T, last: bool) -> bool {
    T::KIND is Scalar && v.there() && v.text() is Some && (last || v.text()->0.len() > 0)
}

/// the text in the next position
pub proof fn text_slot<'xml, T: Value<'xml>>(v: &T, last: bool, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>)
    requires
        v.good(), text_alone(v, last), inside(d, Seq::empty(), ev + rest), events_of(v, None, d.s.stack, ev),
        last ==> rest.len() > 0 && rest[0] is End, rest.len() > 0 && !(rest[0] is Char),
    ensures past(d, e, rest, last), e == take(d).1, taken::<T>(d, |w: T| v.same(&w)),
{
    let t = v.text()->0;
    let x = choose|x: Seq<char>| #[trigger] says(x, t) && ev == chars(x);
    let log = chars(x) + rest;
    next_decreases(d);
    if x.len() > 0 {
        run_at(log, x.len() as int);
        assert(text_of(log.subrange(0, x.len() as int)) =~= x);
        assert(log.subrange(x.len() as int, log.len() as int) =~= rest);
        go_text(d.s, log);
        node_keeps(d);
    } else {
        assert(t =~= Seq::<char>::empty());
        assert(log =~= rest);
        go_end(d.s, log);
    }
    v.law_text(d, t);
    take(d).1
}

/// the events of a text
pub proof fn text_part<'xml, T: Value<'xml>>(v: &T, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>)
    requires text_alone(v, last), events_of(v, None, stack, ev),
    ensures bal(0, ev),
{
    text_bal(v, None, stack, ev);
}

macro_rules! part {
    ($t:ty) => { verus! {
        impl<'xml> Part<'xml> for $t {
            open spec fn alone(&self, last: bool) -> bool { text_alone(self, last) }
            proof fn law_part(&self, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>) { text_part(self, last, stack, ev); }
            proof fn law_slot(&self, last: bool, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>) { text_slot(self, last, d, ev, rest) }
        }
    } };
}
part!(String);
part!(Choice);
part!(bool);
part!(char);
part!(i8);
part!(i16);
part!(i32);
part!(i64);
part!(isize);
part!(u8);
part!(u16);
part!(u32);
part!(u64);
part!(usize);
part!(f32);
part!(f64);
part!(IpAddr);
part!(DateTime<Utc>);
part!(NaiveDateTime);
part!(NaiveDate);
impl<'xml, 'a> Part<'xml> for Cow<'a, str> {
    open spec fn alone(&self, last: bool) -> bool { text_alone(self, last) }
    proof fn law_part(&self, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>) { text_part(self, last, stack, ev); }
    proof fn law_slot(&self, last: bool, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>) { text_slot(self, last, d, ev, rest) }
}


// a value behind a pointer

impl<'xml, T: Round<'xml> + Part<'xml>> Part<'xml> for Box<T> {
    open spec fn alone(&self, last: bool) -> bool { (**self).alone(last && T::KIND is Scalar) }
    proof fn law_part(&self, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>) {
        assert(events_of(&**self, None, stack, ev));
        (**self).law_part(last && T::KIND is Scalar, stack, ev);
    }
    proof fn law_slot(&self, last: bool, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>) {
        assert(events_of(&**self, None, d.s.stack, ev));
        let e = (**self).law_slot(last && T::KIND is Scalar, d, ev, rest);
        let g = |w: T| (**self).same(&w);
        let ok = |w: Self| self.same(&w);
        let x = match next_of(d) { (Out::Node(NodeV::Open(x)), d1) => opened(x, d1.s), _ => d };
        if T::KIND is Element {
            taken_boxed::<T>(x, g);
            taken_weaker::<Self>(x, |w: Box<T>| g(*w), ok);
        } else {
            taken_boxed::<T>(d, g);
            taken_weaker::<Self>(d, |w: Box<T>| g(*w), ok);
        }
        e
    }
}
pub proof fn taken_weaker<'xml, T: FromXml<'xml>>(d: D<'xml>, ok: spec_fn(T) -> bool, ok2: spec_fn(T) -> bool)
    requires taken::<T>(d, ok), forall|w: T| #[trigger] ok(w) ==> ok2(w),
    ensures taken::<T>(d, ok2),
{
}

// a value that may be missing, lists of at most one: nothing can be missing only in the last position

/// the end of the element comes next
pub proof fn end_slot<'xml, T: FromXml<'xml>>(d: D<'xml>, rest: Seq<EventV>, ok: spec_fn(T) -> bool) -> (e: D<'xml>)
    requires
        inside(d, Seq::empty(), rest), rest.len() > 0, rest[0] is End, T::KIND is Element,
        forall|b: T::Accumulator| #[trigger] b.blank() ==> b.done() is Some && ok(b.done()->0),
    ensures past(d, e, rest, true), filled::<T>(d, e, ok),
{
    go_end(d.s, rest);
    next_of(d).1
}

impl<'xml, T: Round<'xml> + Part<'xml>> Part<'xml> for Option<T> {
    open spec fn alone(&self, last: bool) -> bool {
        match *self { Some(x) => x.alone(last && T::KIND is Scalar), None => last && T::KIND is Element }
    }
    proof fn law_part(&self, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>) {
        match *self {
            Some(x) => { assert(events_of(&x, None, stack, ev)); x.law_part(last && T::KIND is Scalar, stack, ev); }
            None => {}
        }
    }
    proof fn law_slot(&self, last: bool, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>) {
        let ok = |w: Self| self.same(&w);
        match *self {
            Some(x) => {
                assert(events_of(&x, None, d.s.stack, ev));
                let e = x.law_slot(last && T::KIND is Scalar, d, ev, rest);
                let g = |w: T| x.same(&w);
                if T::KIND is Element {
                    let f = match next_of(d) { (Out::Node(NodeV::Open(x)), d1) => opened(x, d1.s), _ => d };
                    taken_some::<T>(f, g);
                    taken_weaker::<Self>(f, opt_ok(g), ok);
                } else {
                    taken_some::<T>(d, g);
                    taken_weaker::<Self>(d, opt_ok(g), ok);
                }
                e
            },
            None => {
                assert(ev + rest =~= rest);
                assert forall|a: Self::Accumulator| #[trigger] a.blank() implies a.done() is Some && ok(a.done()->0) by { self.law_absent(a); }
                end_slot::<Self>(d, rest, ok)
            },
        }
    }
}
pub proof fn taken_some<'xml, T: FromXml<'xml>>(d: D<'xml>, ok: spec_fn(T) -> bool)
    requires taken::<T>(d, ok),
    ensures taken::<Option<T>>(d, opt_ok(ok)),
{
    assert forall|a: OptionAccumulator<T, T::Accumulator>, e: D<'xml>, b: OptionAccumulator<T, T::Accumulator>| a.blank() && #[trigger] Option::<T>::reads(d, a, e, b)
        implies b.done() is Some && opt_ok(ok)(b.done()->0) by { assert(T::reads(d, a.value, e, b.value)); }
    assert forall|a: OptionAccumulator<T, T::Accumulator>, e: ErrV| a.blank() implies !#[trigger] Option::<T>::fails(d, a, e) by { assert(!T::fails(d, a.value, e)); }
}

pub open spec fn list_alone<'xml, T: Part<'xml>>(s: Seq<T>, last: bool) -> bool {
    T::KIND is Element && if s.len() == 0 { last } else { s.len() == 1 && s[0].alone(false) }
}
proof fn list_part<'xml, T: Part<'xml>>(s: Seq<T>, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>)
    requires list_alone(s, last), s.len() > 0 ==> s[0].good(), list_renders(s, None, stack, ev),
    ensures bal(0, ev), if ev.len() == 0 { last } else { ev[0] is Start }, s.len() > 0 ==> events_of(&s[0], None, stack, ev), s.len() == 0 ==> ev.len() == 0,
{
    if s.len() > 0 {
        let (a, b) = choose|a: Seq<EventV>, b: Seq<EventV>| list_renders(s.drop_last(), None, stack, a) && #[trigger] events_of(&s.last(), None, stack, b) && ev == #[trigger] (a + b);
        assert(s.drop_last().len() == 0);
        assert(a.len() == 0);
        assert(a + b =~= b);
        s[0].law_part(false, stack, ev);
    }
}
/// the elements of a list
pub open spec fn one_ok<T>(ok: spec_fn(T) -> bool) -> spec_fn(Seq<T>) -> bool { |s: Seq<T>| s.len() == 1 && ok(s[0]) }
pub proof fn taken_list<'xml, T: FromXml<'xml>>(d: D<'xml>, ok: spec_fn(T) -> bool)
    requires taken::<T>(d, ok),
    ensures taken::<Vec<T>>(d, |w: Vec<T>| one_ok(ok)(w@)),
{
}
pub proof fn taken_cow_list<'xml, 'a, T: FromXml<'xml>>(d: D<'xml>, ok: spec_fn(T) -> bool) where [T]: ToOwned<Owned = Vec<T>>
    requires taken::<T>(d, ok),
    ensures taken::<Cow<'a, [T]>>(d, |w: Cow<'a, [T]>| one_ok(ok)(slicev(w))),
{
}
impl<'xml, T: Round<'xml> + Part<'xml>> Part<'xml> for Vec<T> {
    open spec fn alone(&self, last: bool) -> bool { list_alone(self@, last) }
    proof fn law_part(&self, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>) { list_part(self@, last, stack, ev); }
    proof fn law_slot(&self, last: bool, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>) {
        let ok = |w: Self| self.same(&w);
        list_part(self@, last, d.s.stack, ev);
        if self@.len() > 0 {
            let x = self@[0];
            let e = x.law_slot(false, d, ev, rest);
            let g = |w: T| x.same(&w);
            let f = match next_of(d) { (Out::Node(NodeV::Open(x)), d1) => opened(x, d1.s), _ => d };
            taken_list::<T>(f, g);
            taken_weaker::<Self>(f, |w: Vec<T>| one_ok(g)(w@), ok);
            e
        } else {
            assert(ev + rest =~= rest);
            end_slot::<Self>(d, rest, ok)
        }
    }
}
impl<'xml, 'a, T: Round<'xml> + Part<'xml>> Part<'xml> for Cow<'a, [T]> where [T]: ToOwned<Owned = Vec<T>> {
    open spec fn alone(&self, last: bool) -> bool { list_alone(slicev(*self), last) }
    proof fn law_part(&self, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>) {
        axiom_cow_slice(self);
        list_part(slicev(*self), last, stack, ev);
    }
    proof fn law_slot(&self, last: bool, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>) {
        let ok = |w: Self| self.same(&w);
        axiom_cow_slice(self);
        let s = slicev(*self);
        list_part(s, last, d.s.stack, ev);
        if s.len() > 0 {
            let x = s[0];
            let e = x.law_slot(false, d, ev, rest);
            let g = |w: T| x.same(&w);
            let f = match next_of(d) { (Out::Node(NodeV::Open(x)), d1) => opened(x, d1.s), _ => d };
            taken_cow_list::<T>(f, g);
            taken_weaker::<Self>(f, |w: Cow<'a, [T]>| one_ok(g)(slicev(w)), ok);
            e
        } else {
            assert(ev + rest =~= rest);
            end_slot::<Self>(d, rest, ok)
        }
    }
}

impl<'xml, A: Part<'xml>, B: Part<'xml>> Value<'xml> for Tuple<A, B> {
    /// two texts in a row are read as one
    open spec fn good(&self) -> bool {
        self.0.good() && self.1.good() && self.0.alone(false) && self.1.alone(true) && (A::KIND is Element || B::KIND is Element)
    }
    open spec fn same(&self, w: &Self) -> bool { self.0.same(&w.0) && self.1.same(&w.1) }
    open spec fn count(&self) -> int { 1 }
    proof fn law_text(&self, d: D<'xml>, t: Seq<char>) {}
    proof fn law_place(&self, id: IdV) {}
    proof fn law_absent(&self, a: Self::Accumulator) {}
    proof fn law_empty(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) {}
    proof fn law_kept(d: D<'xml>, a: Self::Accumulator, e: D<'xml>, b: Self::Accumulator) {}
}

impl<'xml, A: Part<'xml>, B: Part<'xml>> Struct<'xml> for Tuple<A, B> {
    open spec fn name(&self) -> IdV { IdV { ns: "urn:shapes"@, name: "Tuple"@ } }
    open spec fn made(&self, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>) -> bool {
        ats.len() == 0 && exists|x: Seq<EventV>, y: Seq<EventV>| content == x + y && #[trigger] tuple_is(self, stack, element_events(tag, Seq::empty(), content), tag, x, y)
    }
    proof fn law_shape(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> (r: (LevelV, Seq<AttrV>, Seq<EventV>)) {
        let (tag, x, y) = choose|tag: LevelV, x: Seq<EventV>, y: Seq<EventV>| #[trigger] tuple_is(self, stack, ev, tag, x, y);
        self.0.law_part(false, stack.push(tag), x);
        self.1.law_part(true, stack.push(tag), y);
        bal_add(0, x, 0, y);
        (tag, Seq::empty(), x + y)
    }
    proof fn law_named(&self, field: Option<IdV>) {}
    proof fn law_inner(&self, d: D<'xml>, stack: Seq<LevelV>, tag: LevelV, ats: Seq<AttrV>, content: Seq<EventV>, rest: Seq<EventV>) {
        let (x, y) = choose|x: Seq<EventV>, y: Seq<EventV>| content == x + y && #[trigger] tuple_is(self, stack, element_events(tag, Seq::empty(), content), tag, x, y);
        let end = seq![EventV::End] + rest;
        assert(content.push(EventV::End) + rest =~= x + (y + end));
        assert(attr_nodes(ats) =~= Seq::<NodeV>::empty());
        self.1.law_part(true, stack.push(tag), y);
        if y.len() > 0 { assert((y + end)[0] == y[0]); } else { assert(y + end =~= end); }
        let d1 = self.0.law_slot(false, d, x, y + end);
        let d2 = self.1.law_slot(true, d1, y, end);
        filled_slot::<A>(d, d1, |w: A| self.0.same(&w));
        filled_slot::<B>(d1, d2, |w: B| self.1.same(&w));
        if !d2.done { drain_events(d2.s, Seq::empty(), Seq::empty(), rest, 0, d2.level); }
    }
}
impl<'xml, A: Part<'xml>, B: Part<'xml>> Round<'xml> for Tuple<A, B> {
    proof fn law_bal(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) { struct_bal(self, field, stack, ev); }
    proof fn law_kids(&self, d: D<'xml>, id: IdV, ev: Seq<EventV>, rest: Seq<EventV>) -> (r: (Seq<Child<'xml>>, D<'xml>)) { struct_kids(self, d, id, ev, rest) }
}

// the other elements

macro_rules! element_part {
    ($t:ty, $($g:tt)*) => { verus! {
        impl<'xml, $($g)*> Part<'xml> for $t {
            open spec fn alone(&self, last: bool) -> bool { Self::KIND is Element }
            proof fn law_part(&self, last: bool, stack: Seq<LevelV>, ev: Seq<EventV>) { struct_part(self, stack, ev); }
            proof fn law_slot(&self, last: bool, d: D<'xml>, ev: Seq<EventV>, rest: Seq<EventV>) -> (e: D<'xml>) { struct_slot(self, d, ev, rest) }
        }
    } };
}
element_part!(Unit,);
element_part!(Borrowing<'xml>,);
element_part!(Named<A, B, C, D1>, A: Value<'xml>, B: Value<'xml>, C: Round<'xml>, D1: Round<'xml>);
element_part!(Cased<A, B, C>, A: Value<'xml>, B: Round<'xml>, C: Round<'xml>);
element_part!(Direct<A, B, C>, A: Value<'xml>, B: Round<'xml>, C: Value<'xml>);
element_part!(Tuple<A, B>, A: Part<'xml>, B: Part<'xml>);
element_part!(Either<A, B>, A: Struct<'xml>, B: Struct<'xml>);
