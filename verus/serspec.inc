/// thiserror's #[from]
impl From<FmtError> for Error {
    fn from(e: FmtError) -> (r: Error)
    { Error::Format(e) }
}

impl vstd::std_specs::convert::FromSpecImpl<FmtError> for Error {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: FmtError) -> Self { Error::Format(e) }
}

/// `?` on a fmt::Result converts by the From above
#[verifier::external_body]
pub broadcast proof fn axiom_from(e: FmtError, r: Error)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<Error, FmtError>(e, r) ==> r == Error::Format(e),
{
}

pub open spec fn id_ok(id: Id) -> bool { name_ok(id.name@) && uri_ok(id.ns@) }

/// what the writer has taken
pub open spec fn now<W: Write + ?Sized>(v: &Serializer<'_, W>) -> (Seq<char>, bool) { (v.output.accepted(), v.output.broken()) }

/// what it will have taken when the serializer is gone
#[verifier::prophetic]
pub open spec fn end<W: Write + ?Sized>(v: &Serializer<'_, W>) -> (Seq<char>, bool) { (final(v.output).accepted(), final(v.output).broken()) }

/// the document so far
pub open spec fn doc<W: Write + ?Sized>(v: &Serializer<'_, W>) -> P { feed(nothing(), v.output.accepted()) }

pub open spec fn texts(s: Seq<&'static str>) -> Seq<Seq<char>> { s.map_values(|x: &'static str| x@) }

/// the elements that are open for the code
pub open spec fn scope<W: Write + ?Sized>(v: &Serializer<'_, W>) -> Seq<LevelV> {
    let p = doc(v);
    match v.state {
        State::Element => p.stack,
        State::Attribute => p.stack.push(settle(p).tag),
        State::Scalar => p.stack.push(p.tag),
    }
}

/// what is known of a start tag: prefixes are bound, and its own declarations can be taken back
pub open spec fn tag_ok<W: Write + ?Sized>(v: &Serializer<'_, W>, stack: Seq<LevelV>, tag: LevelV, attrs: Seq<AttrV>) -> bool {
    &&& bound(stack, tag, attrs)
    &&& table_ok(minus(v.prefixes@, texts(v.enclosing.1@)), stack)
    &&& default_of(stack) == v.enclosing.0@
}

/// the state agrees with the document, and the writer has not failed
pub open spec fn ready<W: Write + ?Sized>(v: &Serializer<'_, W>) -> bool {
    let p = doc(v);
    &&& !v.output.broken()
    &&& table_ok(v.prefixes@, scope(v))
    &&& match v.state {
        State::Element => p.mode is Content,
        State::Attribute => settle(p).mode is After && tag_ok(v, p.stack, settle(p).tag, settle(p).attrs),
        State::Scalar => p.mode is AVal && tag_ok(v, p.stack, p.tag, p.attrs),
    }
}

/// the default namespace is the one that a reader sees
pub open spec fn ns_ok<W: Write + ?Sized>(v: &Serializer<'_, W>) -> bool { default_of(scope(v)) == v.default_ns@ }

#[verifier::prophetic]
pub open spec fn same_scope<W: Write + ?Sized>(v: &Serializer<'_, W>, w: &Serializer<'_, W>) -> bool {
    &&& w.prefixes@ == v.prefixes@
    &&& w.default_ns == v.default_ns
    &&& w.attribute_ns == v.attribute_ns
    &&& w.enclosing.0 == v.enclosing.0
    &&& texts(w.enclosing.1@) == texts(v.enclosing.1@)
    &&& end(w) == end(v)
}

/// a call that is refused changes nothing
#[verifier::prophetic]
pub open spec fn unchanged<W: Write + ?Sized>(v: &Serializer<'_, W>, w: &Serializer<'_, W>) -> bool {
    same_scope(v, w) && w.state == v.state && now(w) == now(v)
}

/// a call that was allowed fails only because the writer did
#[verifier::prophetic]
pub open spec fn failed<W: Write + ?Sized>(e: Error, v: &Serializer<'_, W>, w: &Serializer<'_, W>) -> bool {
    e is Format && w.output.broken() && end(w) == end(v)
}

/// a failure of the writer is a format error
#[verifier::prophetic]
pub open spec fn surfaces<W: Write + ?Sized>(e: Error, v: &Serializer<'_, W>, w: &Serializer<'_, W>) -> bool {
    (w.output.broken() ==> e is Format) && end(w) == end(v)
}

/// the value was written as text: alone, or in an element of the field's name that contains nothing else
pub open spec fn shows<W: Write + ?Sized>(v: &Serializer<'_, W>, w: &Serializer<'_, W>, field: Option<IdV>, t: Seq<char>) -> bool {
    match (v.state, field) {
        (State::Element, None) => exists|x: Seq<char>| #[trigger] says(x, t) && doc(w).log == doc(v).log + chars(x),
        (State::Element, Some(id)) => exists|x: Seq<char>, tag: LevelV| #[trigger] says(x, t) && #[trigger] wraps(doc(v).log, doc(w).log, tag, x)
            && element_name(doc(v).stack.push(tag), element_of(tag)) == Some(id),
        (State::Scalar, None) => exists|x: Seq<char>| #[trigger] says(x, t) && doc(w).mode->AVal_val == doc(v).mode->AVal_val + x,
        _ => false,
    }
}

pub open spec fn id_of(id: Id) -> IdV { IdV { ns: id.ns@, name: id.name@ } }

/// an element without attributes, and text
pub open spec fn wraps(a: Seq<EventV>, b: Seq<EventV>, tag: LevelV, x: Seq<char>) -> bool {
    b == (a.push(EventV::Start { tag, attrs: Seq::empty() }) + chars(x)).push(EventV::End)
}

//@include evspec.inc
/// a value was written: complete elements and text between tags, or text in an attribute
#[verifier::prophetic]
pub open spec fn written<W: Write + ?Sized>(v: &Serializer<'_, W>, w: &Serializer<'_, W>) -> bool {
    &&& ready(w)
    &&& w.state == v.state
    &&& match v.state {
        State::Element => {
            &&& doc(w).stack == doc(v).stack
            &&& doc(v).log.is_prefix_of(doc(w).log)
            &&& w.prefixes@ == v.prefixes@ && w.default_ns@ == v.default_ns@
            &&& end(w) == end(v)
        },
        State::Scalar => {
            &&& same_scope(v, w)
            &&& doc(w) == (P { mode: doc(w).mode, ..doc(v) })
            &&& doc(v).mode matches Mode::AVal { pre, buf, val } && doc(w).mode == (Mode::AVal { pre, buf, val: doc(w).mode->AVal_val })
        },
        State::Attribute => unchanged(v, w),
    }
}

pub open spec fn field_of(field: Option<Id>) -> Option<IdV> { match field { Some(id) => Some(id_of(id)), None => None } }

/// no prefix is bound to another namespace than an open element binds it to
pub open spec fn compatible(t: Map<Seq<char>, Seq<char>>, b: Binds) -> bool {
    forall|k: Seq<char>, x: (Seq<char>, Seq<char>)| #[trigger] t.contains_key(k) && #[trigger] b.contains(x) && t[k] == x.0 ==> k == x.1
}

/// or than another of them
pub open spec fn coherent(b: Binds) -> bool {
    forall|x: (Seq<char>, Seq<char>), y: (Seq<char>, Seq<char>)| #[trigger] b.contains(x) && #[trigger] b.contains(y) && x.0 == y.0 ==> x.1 == y.1
}

/// the prefixes that a value of the type declares can be declared here
pub open spec fn room<W: Write + ?Sized>(v: &Serializer<'_, W>, b: Binds) -> bool { compatible(v.prefixes@, b) && coherent(b) }

pub open spec fn cx_ok<const N: usize>(cx: Context<N>) -> bool { uri_ok(cx.default_ns@) && list_ok(cx.prefixes@) }

/// prefixes that can be declared together
pub open spec fn list_ok(s: Seq<Prefix>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).prefix@.len() > 0 ==> prefix_ok(s[i].prefix@) && uri_ok(s[i].ns@) && s[i].ns@.len() > 0
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).prefix@ == (#[trigger] s[j]).prefix@ && s[i].prefix@.len() > 0
        ==> s[i].ns@ == s[j].ns@
}

/// no prefix is bound to another namespace than an open element binds it to
pub open spec fn no_rebinding(t: Map<Seq<char>, Seq<char>>, s: Seq<Prefix>) -> bool {
    forall|ns: Seq<char>, i: int| t.contains_key(ns) && 0 <= i < s.len() && #[trigger] t[ns] == (#[trigger] s[i]).prefix@ ==> s[i].ns@ == ns
}

pub open spec fn namespaces(s: Seq<Prefix>) -> Seq<Seq<char>> { s.map_values(|x: Prefix| x.ns@) }

/// the prefixes and default namespace after the element is closed
pub open spec fn closing<W: Write + ?Sized, const N: usize>(v: &Serializer<'_, W>, e: Element<'_, N>) -> (Map<Seq<char>, Seq<char>>, Seq<char>) {
    match e.parent {
        None => (v.prefixes@, v.default_ns@),
        Some(old) => (minus(v.prefixes@, namespaces(old.prefixes@)), old.default_ns@),
    }
}

/// the prefixes in a start tag: those that are known, and those of the context
pub open spec fn extended(t: Map<Seq<char>, Seq<char>>, u: Map<Seq<char>, Seq<char>>, cx: Seq<Prefix>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> u.contains_key(k) && u[k] == t[k]
    &&& forall|k: Seq<char>| #[trigger] u.contains_key(k) && !t.contains_key(k) ==> exists|j: int| 0 <= j < cx.len() && (#[trigger] cx[j]).prefix@.len() > 0 && cx[j].ns@ == k && cx[j].prefix@ == u[k]
    &&& forall|j: int| 0 <= j < cx.len() && (#[trigger] cx[j]).prefix@.len() > 0 ==> u.contains_key(cx[j].ns@)
}

/// the element records prefixes that are there
pub open spec fn undo_ok(t: Map<Seq<char>, Seq<char>>, s: Seq<Prefix>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).prefix@ == ""@ && (s[i].ns@.len() > 0 ==> t.contains_key(s[i].ns@))
    &&& forall|i: int, j: int| 0 <= i < j < s.len() && s[j].ns@.len() > 0 ==> (#[trigger] s[i]).ns@ != (#[trigger] s[j]).ns@
}

pub open spec fn undoable<W: Write + ?Sized, const N: usize>(v: &Serializer<'_, W>, e: Element<'_, N>) -> bool {
    e.parent matches Some(old) ==> undo_ok(v.prefixes@, old.prefixes@)
}

/// the prefix that an attribute gets
pub open spec fn attribute_prefix<W: Write + ?Sized>(v: &Serializer<'_, W>, ns: Seq<char>) -> Option<Seq<char>> {
    if ns.len() > 0 && v.prefixes@.contains_key(ns) { Some(v.prefixes@[ns]) } else { None }
}

/// an attribute without a prefix is in no namespace, or in that of its element
pub open spec fn attribute_known<W: Write + ?Sized>(v: &Serializer<'_, W>, ns: Seq<char>) -> bool {
    attribute_prefix(v, ns) is Some || ns.len() == 0 || ns == (match v.attribute_ns { Some(x) => x@, None => v.default_ns@ })
}

pub broadcast group writing { empty_add, binding_push, default_push, steps, feed_concat, feed_push, feed_names, feed_plain, feed_textual, minus_is, axiom_from, vx_literals }

/// one more of the prefixes of a closed element
pub proof fn undo_next(t: Map<Seq<char>, Seq<char>>, s: Seq<Prefix>, i: int)
    requires undo_ok(t, s), 0 <= i < s.len(), !t.contains_key(""@),
    ensures
        s[i].prefix@ == ""@,
        s[i].ns@.len() > 0 ==> minus(t, namespaces(s.subrange(0, i))).contains_key(s[i].ns@),
        s[i].ns@.len() > 0 ==> minus(t, namespaces(s.subrange(0, i + 1))) == minus(t, namespaces(s.subrange(0, i))).remove(s[i].ns@),
        s[i].ns@.len() == 0 ==> minus(t, namespaces(s.subrange(0, i + 1))) == minus(t, namespaces(s.subrange(0, i))),
{
    reveal_strlit("");
    let (a, b) = (s.subrange(0, i), s.subrange(0, i + 1));
    assert(namespaces(b).drop_last() =~= namespaces(a));
    assert(namespaces(b).last() == s[i].ns@);
    minus_is(t, namespaces(a));
    if s[i].ns@.len() > 0 {
        assert(!namespaces(a).contains(s[i].ns@)) by {
            if namespaces(a).contains(s[i].ns@) {
                let j = choose|j: int| 0 <= j < namespaces(a).len() && namespaces(a)[j] == s[i].ns@;
                assert(s[j].ns@ == s[i].ns@);
            }
        }
    } else {
        assert(s[i].ns@ =~= ""@);
        assert(minus(t, namespaces(a)).remove(""@) =~= minus(t, namespaces(a)));
    }
}

pub broadcast group markup { empty_add, binding_push, default_push, steps, feed_concat, feed_push, feed_names, feed_plain, feed_textual, axiom_from, vx_literals }

/// the start tag that is being written, with the declarations so far; p: the document before it, t: the prefixes before it
pub open spec fn opening(p: P, t: Map<Seq<char>, Seq<char>>, q: P, u: Map<Seq<char>, Seq<char>>, prefix: Option<Seq<char>>, name: Seq<char>, ns: Seq<char>) -> bool {
    &&& q.mode is After && q.stack == p.stack && q.log == p.log && q.attrs.len() == 0 && q.tag.local == name && q.tag.prefix == prefix
    &&& match prefix {
        None => (match q.tag.default_ns { Some(d) => d, None => default_of(p.stack) }) == ns,
        Some(x) => t.contains_key(ns) && t[ns] == x,
    }
    &&& table_ok(u, q.stack.push(q.tag))
}

/// the declarations come from the first n entries of the context, and are recorded to be taken back
pub open spec fn declared(t: Map<Seq<char>, Seq<char>>, q: P, u: Map<Seq<char>, Seq<char>>, own: Seq<Seq<char>>, cx: Seq<Prefix>, n: int, old: Seq<Prefix>, used: int) -> bool {
    &&& forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> u.contains_key(k) && u[k] == t[k]
    &&& forall|k: Seq<char>| #[trigger] u.contains_key(k) && !t.contains_key(k) ==> exists|j: int| 0 <= j < n && (#[trigger] cx[j]).prefix@.len() > 0 && cx[j].ns@ == k && cx[j].prefix@ == u[k]
    &&& forall|j: int| 0 <= j < n && (#[trigger] cx[j]).prefix@.len() > 0 ==> u.contains_key(cx[j].ns@)
    &&& forall|p: Seq<char>| #[trigger] q.tag.prefixes.contains_key(p) ==> exists|j: int| 0 <= j < n && (#[trigger] cx[j]).prefix@ == p && u.contains_key(cx[j].ns@) && p.len() > 0
    &&& minus(u, own) == t
    &&& used == own.len() && used <= n <= cx.len() && cx.len() == old.len()
    &&& forall|i: int| 0 <= i < used ==> (#[trigger] old[i]).prefix@ == ""@ && old[i].ns@ == own[i] && u.contains_key(old[i].ns@)
    &&& forall|i: int, j: int| 0 <= i < j < used ==> (#[trigger] old[i]).ns@ != (#[trigger] old[j]).ns@
    &&& forall|i: int| used <= i < old.len() ==> (#[trigger] old[i]).prefix@ == ""@ && old[i].ns@ == ""@
}

/// one more entry of the context is not declared
pub proof fn declare_skip(t: Map<Seq<char>, Seq<char>>, q: P, u: Map<Seq<char>, Seq<char>>, own: Seq<Seq<char>>, cx: Seq<Prefix>, n: int, old: Seq<Prefix>, used: int)
    requires declared(t, q, u, own, cx, n, old, used), 0 <= n < cx.len(), cx[n].prefix@.len() == 0 || u.contains_key(cx[n].ns@),
    ensures declared(t, q, u, own, cx, n + 1, old, used),
{
}

/// the namespace of an entry is not known: its prefix is free
pub proof fn declare_free(p: P, t: Map<Seq<char>, Seq<char>>, q: P, u: Map<Seq<char>, Seq<char>>, own: Seq<Seq<char>>, cx: Seq<Prefix>, n: int, old: Seq<Prefix>, used: int)
    requires
        declared(t, q, u, own, cx, n, old, used), 0 <= n < cx.len(), list_ok(cx), no_rebinding(t, cx),
        cx[n].prefix@.len() > 0, !u.contains_key(cx[n].ns@),
    ensures
        !q.tag.prefixes.contains_key(cx[n].prefix@),
        forall|k: Seq<char>| #[trigger] u.contains_key(k) ==> u[k] != cx[n].prefix@,
{
    let x = cx[n].prefix@;
    if q.tag.prefixes.contains_key(x) {
        let j = choose|j: int| 0 <= j < n && (#[trigger] cx[j]).prefix@ == x && u.contains_key(cx[j].ns@) && x.len() > 0;
        assert(cx[j].ns@ == cx[n].ns@);
    }
    assert forall|k: Seq<char>| #[trigger] u.contains_key(k) implies u[k] != x by {
        if u[k] == x {
            if t.contains_key(k) {
                assert(t[k] == cx[n].prefix@);
                assert(cx[n].ns@ == k);
            } else {
                let j = choose|j: int| 0 <= j < n && (#[trigger] cx[j]).ns@ == k && cx[j].prefix@ == u[k];
                assert(cx[j].prefix@ == cx[n].prefix@);
            }
        }
    }
}

/// one more entry of the context is declared
pub proof fn declare_next(p: P, t: Map<Seq<char>, Seq<char>>, q: P, u: Map<Seq<char>, Seq<char>>, prefix: Option<Seq<char>>, name: Seq<char>, ns: Seq<char>, own: Seq<Seq<char>>, cx: Seq<Prefix>, n: int, old: Seq<Prefix>, used: int,
    q2: P, u2: Map<Seq<char>, Seq<char>>, own2: Seq<Seq<char>>, old2: Seq<Prefix>)
    requires
        opening(p, t, q, u, prefix, name, ns), declared(t, q, u, own, cx, n, old, used),
        0 <= n < cx.len(), list_ok(cx), no_rebinding(t, cx),
        cx[n].prefix@.len() > 0, !u.contains_key(cx[n].ns@),
        q2 == (P { tag: LevelV { prefixes: q.tag.prefixes.insert(cx[n].prefix@, cx[n].ns@), ..q.tag }, ..q }),
        u2 == u.insert(cx[n].ns@, cx[n].prefix@),
        own2 == own.push(cx[n].ns@),
        old2.len() == old.len(), old2[used].ns@ == cx[n].ns@, old2[used].prefix@ == ""@,
        forall|i: int| 0 <= i < old.len() && i != used ==> #[trigger] old2[i] == old[i],
    ensures
        opening(p, t, q2, u2, prefix, name, ns), declared(t, q2, u2, own2, cx, n + 1, old2, used + 1),
{
    declare_free(p, t, q, u, own, cx, n, old, used);
    let (k, x) = (cx[n].ns@, cx[n].prefix@);
    minus_added(u, own, k, x);
    let (a, b) = (q.stack.push(q.tag), q2.stack.push(q2.tag));
    binding_push(q.stack, q.tag, x);
    assert forall|m: Seq<char>| #[trigger] u2.contains_key(m) implies m.len() > 0 && prefix_ok(u2[m]) && binding(b, u2[m]) == Some(m) by {
        binding_push(q.stack, q.tag, u2[m]);
        binding_push(q2.stack, q2.tag, u2[m]);
        if m != k { assert(u.contains_key(m)); assert(u[m] != x); }
    }
    assert forall|m: Seq<char>| #[trigger] u2.contains_key(m) && !t.contains_key(m) implies exists|j: int| 0 <= j < n + 1 && (#[trigger] cx[j]).ns@ == m && cx[j].prefix@ == u2[m] by {
        if m == k { assert(cx[n].ns@ == m); } else {
            assert(u.contains_key(m));
            let j = choose|j: int| 0 <= j < n && (#[trigger] cx[j]).ns@ == m && cx[j].prefix@ == u[m];
            assert(cx[j].ns@ == m);
        }
    }
    assert forall|y: Seq<char>| #[trigger] q2.tag.prefixes.contains_key(y) implies exists|j: int| 0 <= j < n + 1 && (#[trigger] cx[j]).prefix@ == y && u2.contains_key(cx[j].ns@) && y.len() > 0 by {
        if y == x { assert(cx[n].prefix@ == y); } else {
            assert(q.tag.prefixes.contains_key(y));
            let j = choose|j: int| 0 <= j < n && (#[trigger] cx[j]).prefix@ == y && u.contains_key(cx[j].ns@) && y.len() > 0;
            assert(cx[j].prefix@ == y);
        }
    }
    assert forall|m: Seq<char>| #[trigger] t.contains_key(m) implies u2.contains_key(m) && u2[m] == t[m] by { assert(u.contains_key(m)); }
    assert forall|i: int| 0 <= i < used + 1 implies (#[trigger] old2[i]).prefix@ == ""@ && old2[i].ns@ == own2[i] && u2.contains_key(old2[i].ns@) by {
        if i < used { assert(old2[i] == old[i]); assert(own2[i] == own[i]); }
    }
    assert forall|i: int, j: int| 0 <= i < j < used + 1 implies (#[trigger] old2[i]).ns@ != (#[trigger] old2[j]).ns@ by {
        assert(old2[i] == old[i]);
        if j < used { assert(old2[j] == old[j]); } else { assert(u.contains_key(old[i].ns@)); }
    }
}

/// the start tag with all declarations
pub proof fn opening_named(p: P, t: Map<Seq<char>, Seq<char>>, q: P, u: Map<Seq<char>, Seq<char>>, prefix: Option<Seq<char>>, name: Seq<char>, ns: Seq<char>)
    requires
        opening(p, t, q, u, prefix, name, ns),
        forall|k: Seq<char>| #[trigger] t.contains_key(k) ==> u.contains_key(k) && u[k] == t[k],
    ensures
        element_name(q.stack.push(q.tag), element_of(q.tag)) == Some(IdV { ns, name }),
        bound(q.stack, q.tag, q.attrs),
{
    reveal_strlit("xml");
    default_push(q.stack, q.tag);
    if let Some(x) = prefix { assert(u.contains_key(ns)); assert(u[ns] == x); }
}

/// what the element records is what was declared
pub proof fn recorded(t: Map<Seq<char>, Seq<char>>, q: P, u: Map<Seq<char>, Seq<char>>, own: Seq<Seq<char>>, cx: Seq<Prefix>, old: Seq<Prefix>, used: int)
    requires
        declared(t, q, u, own, cx, cx.len() as int, old, used), !u.contains_key(""@),
    ensures
        undo_ok(u, old), minus(u, namespaces(old)) == t, extended(t, u, cx),
{
    reveal_strlit("");
    let s = namespaces(old);
    minus_is(u, own);
    minus_is(u, s);
    assert forall|k: Seq<char>| u.contains_key(k) implies (s.contains(k) <==> own.contains(k)) by {
        if s.contains(k) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
            assert(old[i].ns@ == k);
            if i < used { assert(own[i] == k); }
        }
        if own.contains(k) {
            let i = choose|i: int| 0 <= i < own.len() && own[i] == k;
            assert(old[i].ns@ == k);
            assert(s[i] == k);
        }
    }
    assert(minus(u, s) =~= minus(u, own));
    assert forall|i: int, j: int| 0 <= i < j < old.len() && old[j].ns@.len() > 0 implies (#[trigger] old[i]).ns@ != (#[trigger] old[j]).ns@ by {
        assert(j < used);
    }
}

/// what a value has written
pub proof fn rendered<W: Write + ?Sized, T: ToXml + ?Sized>(x: &T, field: Option<Id>, v: &Serializer<'_, W>, w: &Serializer<'_, W>)
    requires
        v.state is Element, doc(v).log.is_prefix_of(doc(w).log),
        x.text() matches Some(t) ==> shows(v, w, place_of::<T>(field_of(field)), t),
        x.text() is None ==> x.renders(field_of(field), doc(v).stack, added(doc(v).log, doc(w).log)),
    ensures
        events_of(x, field_of(field), doc(v).stack, added(doc(v).log, doc(w).log)), doc(w).log == doc(v).log + added(doc(v).log, doc(w).log),
{
    let ev = added(doc(v).log, doc(w).log);
    assert(doc(w).log =~= doc(v).log + ev);
    if let Some(t) = x.text() {
        match place_of::<T>(field_of(field)) {
            None => { let s = choose|s: Seq<char>| #[trigger] says(s, t) && doc(w).log == doc(v).log + chars(s); assert(ev =~= chars(s)); },
            Some(id) => {
                let (s, tag) = choose|s: Seq<char>, tag: LevelV| #[trigger] says(s, t) && #[trigger] wraps(doc(v).log, doc(w).log, tag, s)
                    && element_name(doc(v).stack.push(tag), element_of(tag)) == Some(id);
                assert(ev =~= element_events(tag, Seq::empty(), chars(s)));
            },
        }
    }
}
