
// ---- documents -------------------------------------------------------------------------------------------------------------

/// xmlparser reads the document as the specification's reader does, and it is within the limits
pub open spec fn agreed<'a>(s: Seq<char>) -> bool { tokenized(Seq::empty(), tokens::<'a>(s), feed(nothing(), s).log, defaults()) }

/// The value that from_str reads from the document that to_string wrote is the value that was written.
pub proof fn round_trip<'xml, T: Struct<'xml>>(v: &T, s: Seq<char>, r: Result<T, Error>)
    requires v.good(), T::KIND is Element, document_of(v, s), agreed(s), document_read(s, r),
    ensures r is Ok && v.same(&r->Ok_0),
{
    let log = feed(nothing(), s).log;
    let none = Seq::<LevelV>::empty();
    let st = start::<'xml>(s, defaults());
    v.law_named(None);
    let (tag, ats, content) = v.law_shape(None, none, log);
    assert(log[0] == EventV::Start { tag, attrs: ats });
    assert(posn(st, Seq::empty(), log));
    go_start(st, log);
    let s1 = go(st).1;
    root_rests(s);
    let d = opened(element_of(tag), s1);
    assert(log.drop_first() =~= content.push(EventV::End) + Seq::<EventV>::empty());
    v.law_inner(d, none, tag, ats, content, Seq::empty());
}

/// Such values are, for example, all of this type: nothing in them is restricted.
pub proof fn an_example(v: &Named<String, bool, Vec<String>, Option<Box<Unit>>>)
    ensures v.good(), <Named<String, bool, Vec<String>, Option<Box<Unit>>> as FromXml>::KIND is Element,
{
    bools_chars(v.b, 'x');
    reveal_strlit("");
    reveal_strlit("a");
    reveal_strlit("b");
    reveal_strlit("c");
    reveal_strlit("dee");
    reveal_strlit("Unit");
    reveal_strlit("urn:own");
    reveal_strlit("urn:shapes");
    reveal_strlit("urn:other");
    assert(v.a.good());
    assert(v.b.good());
    assert(v.c.good());
    assert(v.d.good());
    assert("Unit"@.len() != "c"@.len());
    assert("urn:own"@.len() != "urn:shapes"@.len());
    assert(""@.len() != "urn:other"@.len());
    let (ia, ib) = (IdV { ns: ""@, name: "a"@ }, IdV { ns: "urn:other"@, name: "b"@ });
    let (ic, id) = (IdV { ns: "urn:shapes"@, name: "c"@ }, IdV { ns: "urn:own"@, name: "dee"@ });
    assert(attribute_good(&v.a, ia));
    assert(attribute_good(&v.b, ib));
    assert(apart::<String, bool>(ia, ib));
    assert(apart::<Vec<String>, Option<Box<Unit>>>(ic, id));
    assert(v.good());
}
