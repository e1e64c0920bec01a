// ---- specification: the events of a value ---------------------------------------------------------------------------

/// x is read as the text t
pub open spec fn says(x: Seq<char>, t: Seq<char>) -> bool { textual(x) && dec(x) == Some(t) }

/// the events after those of a
pub open spec fn added(a: Seq<EventV>, b: Seq<EventV>) -> Seq<EventV> { b.subrange(a.len() as int, b.len() as int) }

/// the events of an element
pub open spec fn element_events(tag: LevelV, attrs: Seq<AttrV>, inner: Seq<EventV>) -> Seq<EventV> {
    (seq![EventV::Start { tag, attrs }] + inner).push(EventV::End)
}

/// the text t: alone, or in an element of the field's name that contains nothing else
pub open spec fn text_renders(t: Seq<char>, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
    match field {
        None => exists|x: Seq<char>| #[trigger] says(x, t) && ev == chars(x),
        Some(id) => exists|x: Seq<char>, tag: LevelV| #[trigger] says(x, t) && ev == #[trigger] element_events(tag, Seq::empty(), chars(x))
            && element_name(stack.push(tag), element_of(tag)) == Some(id),
    }
}

/// what a value writes between tags
pub open spec fn events_of<T: ToXml + ?Sized>(x: &T, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool {
    match x.text() { Some(t) => text_renders(t, place_of::<T>(field), stack, ev), None => x.renders(field, stack, ev) }
}

/// the element that is written for a text in a field
pub open spec fn place_of<T: ToXml + ?Sized>(field: Option<IdV>) -> Option<IdV> { match field { Some(id) => Some(T::place(id)), None => None } }

/// prefixes and the namespaces they are bound to
pub type Binds = Set<(Seq<char>, Seq<char>)>;

pub open spec fn binds_of<T: ToXml + ?Sized>(x: &T) -> Binds { T::binds() }

/// values one after the other
pub open spec fn list_renders<T: ToXml>(s: Seq<T>, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool
    decreases s.len(),
{
    if s.len() == 0 { ev.len() == 0 } else {
        exists|a: Seq<EventV>, b: Seq<EventV>| list_renders(s.drop_last(), field, stack, a) && #[trigger] events_of(&s.last(), field, stack, b) && ev == #[trigger] (a + b)
    }
}

/// a document without unfinished tags: the text of the value, or its elements
pub open spec fn document_of<T: ToXml + ?Sized>(x: &T, s: Seq<char>) -> bool {
    let p = feed(nothing(), s);
    &&& p.mode is Content && p.stack.len() == 0
    &&& x.text() matches Some(t) ==> exists|y: Seq<char>| #[trigger] says(y, t) && p.log =~= chars(y)
    &&& x.text() is None ==> x.renders(None, Seq::empty(), p.log)
}

/// the value of an attribute, or nothing
pub open spec fn attribute_of<T: ToXml>(x: &T, id: IdV, stack: Seq<LevelV>, s: Seq<AttrV>) -> bool {
    if x.there() {
        s.len() == 1 && s[0].local == id.name && attribute_name(stack, s[0].prefix, s[0].local) == Some(id) && (x.text() matches Some(t) ==> says(s[0].value, t))
    } else { s.len() == 0 }
}

/// an element with this name
pub open spec fn tagged(stack: Seq<LevelV>, tag: LevelV, ns: Seq<char>, name: Seq<char>) -> bool {
    element_name(stack.push(tag), element_of(tag)) == Some(IdV { ns, name })
}

