
// ---- specification: the children of an element ----------------------------------------------------------------------

/// an attribute, an element or a text, with the reader that its value is read from
pub ghost enum Child<'a> { Attr(IdV, D<'a>), Elem(IdV, D<'a>), Text(D<'a>) }

impl<'a> Child<'a> {
    pub open spec fn at(self) -> D<'a> { match self { Child::Attr(_, d) => d, Child::Elem(_, d) => d, Child::Text(d) => d } }
}

pub open spec fn front<'a>(d: D<'a>, n: NodeV) -> D<'a> { D { first: Some(n), ..d } }

/// what comes next: a child and what is after it, a child that is broken off, or nothing
pub ghost enum Head<'a> { Child(Child<'a>, D<'a>), Broken(Child<'a>, ErrV, D<'a>), Stop(Option<ErrV>, D<'a>) }

pub open spec fn head<'a>(d: D<'a>) -> Head<'a> {
    let (o, d1) = next_of(d);
    match o {
        Out::Node(NodeV::Attribute { prefix, local, value }) => match attribute_name(d1.s.stack, prefix, local) {
            Some(name) => Head::Child(Child::Attr(name, front(d1, NodeV::AttributeValue(value))), d1),
            None => Head::Stop(Some(ErrV::Other), d1),
        },
        Out::Node(NodeV::Text(t)) => Head::Child(Child::Text(front(d1, NodeV::Text(t))), d1),
        Out::Node(NodeV::Open(x)) => match element_name(d1.s.stack, x) {
            Some(name) => {
                let inner = opened(x, d1.s);
                match drain(d1.s, inner.level) {
                    (None, s2) => Head::Child(Child::Elem(name, inner), D { s: s2, ..d1 }),
                    (Some(e), s2) => Head::Broken(Child::Elem(name, inner), e, D { s: s2, ..d1 }),
                }
            },
            None => Head::Stop(Some(ErrV::Other), d1),
        },
        Out::Node(_) => Head::Stop(Some(ErrV::Other), d1),
        Out::Err(e) => Head::Stop(Some(e), d1),
        Out::End => Head::Stop(None, d1),
    }
}

/// all children, in their order; how the element ends, and where
pub ghost struct Walk<'a> { pub children: Seq<Child<'a>>, pub end: Option<ErrV>, pub at: D<'a> }

pub open spec fn walk<'a>(d: D<'a>) -> Walk<'a>
    decreases left_d(d) when left_d(d) >= 0 via walk_decreases
{
    match head(d) {
        Head::Child(c, d2) => { let w = walk(d2); Walk { children: seq![c] + w.children, end: w.end, at: w.at } },
        Head::Broken(c, e, d2) => Walk { children: seq![c], end: Some(e), at: d2 },
        Head::Stop(e, d2) => Walk { children: Seq::empty(), end: e, at: d2 },
    }
}

#[via_fn]
proof fn walk_decreases<'a>(d: D<'a>) {
    head_decreases(d);
}

pub proof fn head_decreases<'a>(d: D<'a>)
    ensures head(d) matches Head::Child(c, d2) ==> left_d(d2) < left_d(d),
{
    next_decreases(d);
    if let Out::Node(NodeV::Open(x)) = next_of(d).0 { drain_shrinks(next_of(d).1.s, next_of(d).1.s.stack.len() as int); }
}

pub proof fn drain_shrinks<'a>(s: S<'a>, k: int)
    ensures left(drain(s, k).1) <= left(s),
    decreases left(s),
{
    go_decreases(s);
    let (o, s1) = go(s);
    match o {
        Out::Node(NodeV::Close { .. }) => { if s1.stack.len() + 1 != k { drain_shrinks(s1, k); } }
        Out::Node(_) => { drain_shrinks(s1, k); }
        _ => {}
    }
}

/// A child leaves the reader in the same element.
pub proof fn head_keeps<'a>(d: D<'a>)
    requires handed(d), !d.done,
    ensures
        match head(d) {
            Head::Child(c, d2) => kept(d, d2) && handed(d2) && d2.first is None && moved(d, d2),
            Head::Broken(_, _, _) => true,
            Head::Stop(None, d2) => kept(d, d2) && d2.done && moved(d, d2),
            Head::Stop(_, _) => true,
        },
        head(d) matches Head::Child(Child::Elem(_, x), d2) ==> resting(x) && drain(x.s, x.level) == (None::<ErrV>, d2.s),
        head(d) matches Head::Broken(Child::Elem(_, x), e, d2) ==> resting(x) && drain(x.s, x.level) == (Some(e), d2.s),
        head(d) matches Head::Child(Child::Elem(_, x), d2) ==> known(x) && x.first is None,
        head(d) matches Head::Broken(Child::Elem(_, x), _, _) ==> known(x) && x.first is None,
        head(d) matches Head::Broken(c, _, _) ==> c is Elem,
{
    next_decreases(d);
    head_decreases(d);
    let (o, d1) = next_of(d);
    if o is Node && !(o->Node_0 is Open) { node_keeps(d); }
    if o == Out::End { end_keeps(d); }
    if let Out::Node(NodeV::Open(x)) = o {
        law_next(d);
        law_step(d.s);
        law_drain_nested(d1.s, d.level, d1.s.stack.len() as int);
        law_drain(d1.s, d1.s.stack.len() as int);
        assert(d1.s.stack.drop_last() =~= d.s.stack);
    }
}

// ---- specification: the fields of a type ----------------------------------------------------------------------------

/// which children a field gets
pub type Goes<'a> = spec_fn(Child<'a>) -> bool;

/// the children that go to a field are read into it, one after the other
pub open spec fn fed<'xml, T: FromXml<'xml>>(c: Seq<Child<'xml>>, goes: Goes<'xml>, b: T::Accumulator) -> bool
    decreases c.len(),
{
    if c.len() == 0 { b.blank() }
    else if goes(c.last()) { exists|a: T::Accumulator, e: D<'xml>| fed::<T>(c.drop_last(), goes, a) && #[trigger] T::reads(c.last().at(), a, e, b) }
    else { fed::<T>(c.drop_last(), goes, b) }
}

/// a child that goes to a field is refused by it
pub open spec fn refused<'xml, T: FromXml<'xml>>(c: Seq<Child<'xml>>, goes: Goes<'xml>, e: ErrV) -> bool {
    exists|k: int, a: T::Accumulator| 0 <= k < c.len() && goes(c[k]) && fed::<T>(c.take(k), goes, a) && #[trigger] T::fails(c[k].at(), a, e)
}

/// an attribute for a field of type T with this name
pub open spec fn attr_for<'xml, T: FromXml<'xml>>(c: Child<'xml>, ns: Seq<char>, name: Seq<char>) -> bool {
    c matches Child::Attr(id, _) && T::named(id, Some(IdV { ns, name }))
}

/// an element for a field of type T with this name
pub open spec fn elem_for<'xml, T: FromXml<'xml>>(c: Child<'xml>, ns: Seq<char>, name: Seq<char>) -> bool {
    c matches Child::Elem(id, _) && T::named(id, Some(IdV { ns, name }))
}

/// the children that go to a field give it this value; None: nothing that is complete
pub open spec fn gives<'xml, T: FromXml<'xml>>(c: Seq<Child<'xml>>, goes: Goes<'xml>, x: Option<T>) -> bool {
    exists|b: T::Accumulator| #[trigger] fed::<T>(c, goes, b) && b.done() == x
}

pub proof fn fed_start<'xml, T: FromXml<'xml>>(goes: Goes<'xml>, b: T::Accumulator)
    requires b.blank(),
    ensures fed::<T>(Seq::<Child<'xml>>::empty(), goes, b),
{
}

pub proof fn fed_skip<'xml, T: FromXml<'xml>>(s: Seq<Child<'xml>>, c: Child<'xml>, goes: Goes<'xml>, b: T::Accumulator)
    requires fed::<T>(s, goes, b), !goes(c),
    ensures fed::<T>(s.push(c), goes, b),
{
    assert(s.push(c).drop_last() =~= s);
}

pub proof fn fed_step<'xml, T: FromXml<'xml>>(s: Seq<Child<'xml>>, c: Child<'xml>, goes: Goes<'xml>, a: T::Accumulator, e: D<'xml>, b: T::Accumulator)
    requires fed::<T>(s, goes, a), goes(c), T::reads(c.at(), a, e, b),
    ensures fed::<T>(s.push(c), goes, b),
{
    assert(s.push(c).drop_last() =~= s);
    assert(s.push(c).last() == c);
}

/// the next child: read into the field, or not for it
pub proof fn fed_next<'xml, T: FromXml<'xml>>(s: Seq<Child<'xml>>, c: Child<'xml>, goes: Goes<'xml>, a: T::Accumulator, b: T::Accumulator)
    requires fed::<T>(s, goes, a), if goes(c) { exists|e: D<'xml>| T::reads(c.at(), a, e, b) } else { a == b },
    ensures fed::<T>(s.push(c), goes, b),
{
    if goes(c) { fed_step::<T>(s, c, goes, a, choose|e: D<'xml>| T::reads(c.at(), a, e, b), b); } else { fed_skip::<T>(s, c, goes, a); }
}

/// one step of `walk`
pub proof fn walk_at<'a>(d: D<'a>)
    ensures
        match head(d) {
            Head::Child(c, d2) => walk(d).children == seq![c] + walk(d2).children && walk(d).end == walk(d2).end && walk(d).at == walk(d2).at,
            Head::Broken(c, e, d2) => walk(d) == (Walk { children: seq![c], end: Some(e), at: d2 }),
            Head::Stop(e, d2) => walk(d) == (Walk { children: Seq::empty(), end: e, at: d2 }),
        },
{
}

pub broadcast proof fn fed_none<'xml, T: FromXml<'xml>>(goes: Goes<'xml>, b: T::Accumulator)
    requires b.blank(),
    ensures #[trigger] fed::<T>(Seq::<Child<'xml>>::empty(), goes, b),
{
}

// ---- laws: unknown content and the order of different fields (C06), repeated fields (C11) ---------------------------

proof fn fed_same<'xml, T: FromXml<'xml>>(s: Seq<Child<'xml>>, t: Seq<Child<'xml>>, goes: Goes<'xml>, b: T::Accumulator)
    requires s.filter(goes) == t.filter(goes), fed::<T>(s, goes, b),
    ensures fed::<T>(t, goes, b),
    decreases s.len() + t.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 && !goes(s.last()) {
        assert(s.filter(goes) == s.drop_last().filter(goes));
        fed_same::<T>(s.drop_last(), t, goes, b);
    } else if t.len() > 0 && !goes(t.last()) {
        assert(t.filter(goes) == t.drop_last().filter(goes));
        fed_same::<T>(s, t.drop_last(), goes, b);
    } else if s.len() > 0 {
        let x = s.drop_last().filter(goes);
        assert(s.filter(goes) == x.push(s.last()));
        assert(t.len() > 0) by { if t.len() == 0 { assert(t.filter(goes).len() == 0); } }
        let y = t.drop_last().filter(goes);
        assert(t.filter(goes) == y.push(t.last()));
        assert(x == y) by { assert(x.push(s.last()).drop_last() =~= x); assert(y.push(t.last()).drop_last() =~= y); }
        assert(s.last() == t.last()) by { assert(x.push(s.last()).last() == s.last()); assert(y.push(t.last()).last() == t.last()); }
        let (a, e) = choose|a: T::Accumulator, e: D<'xml>| fed::<T>(s.drop_last(), goes, a) && #[trigger] T::reads(s.last().at(), a, e, b);
        fed_same::<T>(s.drop_last(), t.drop_last(), goes, a);
    } else {
        if t.len() > 0 { assert(t.filter(goes) == t.drop_last().filter(goes).push(t.last())); assert(s.filter(goes).len() == 0); }
    }
}

/// A field's value depends on the children that go to it and on their order, and on nothing else.
pub proof fn law_own_children<'xml, T: FromXml<'xml>>(s: Seq<Child<'xml>>, t: Seq<Child<'xml>>, goes: Goes<'xml>)
    requires s.filter(goes) == t.filter(goes),
    ensures forall|x: Option<T>| gives(s, goes, x) <==> gives(t, goes, x),
{
    assert forall|x: Option<T>| gives(s, goes, x) <==> gives(t, goes, x) by {
        if gives(s, goes, x) { let b = choose|b: T::Accumulator| #[trigger] fed::<T>(s, goes, b) && b.done() == x; fed_same::<T>(s, t, goes, b); }
        if gives(t, goes, x) { let b = choose|b: T::Accumulator| #[trigger] fed::<T>(t, goes, b) && b.done() == x; fed_same::<T>(t, s, goes, b); }
    }
}

/// A child that does not go to a field can be anywhere, or not be there.
pub proof fn law_unknown<'xml, T: FromXml<'xml>>(s: Seq<Child<'xml>>, c: Child<'xml>, t: Seq<Child<'xml>>, goes: Goes<'xml>)
    requires !goes(c),
    ensures forall|x: Option<T>| gives(s.push(c) + t, goes, x) <==> gives(s + t, goes, x),
{
    filter_add(s.push(c), t, goes);
    filter_add(s, t, goes);
    reveal(Seq::filter);
    assert(s.push(c).drop_last() =~= s);
    law_own_children::<T>(s.push(c) + t, s + t, goes);
}

/// Children of different fields can change places.
pub proof fn law_order<'xml, T: FromXml<'xml>>(s: Seq<Child<'xml>>, c: Child<'xml>, d: Child<'xml>, t: Seq<Child<'xml>>, goes: Goes<'xml>)
    requires !goes(c) || !goes(d),
    ensures forall|x: Option<T>| gives(s.push(c).push(d) + t, goes, x) <==> gives(s.push(d).push(c) + t, goes, x),
{
    filter_add(s.push(c).push(d), t, goes);
    filter_add(s.push(d).push(c), t, goes);
    filter_push(s, c, goes);
    filter_push(s, d, goes);
    filter_push(s.push(c), d, goes);
    filter_push(s.push(d), c, goes);
    law_own_children::<T>(s.push(c).push(d) + t, s.push(d).push(c) + t, goes);
}

proof fn filter_add<A>(s: Seq<A>, t: Seq<A>, f: spec_fn(A) -> bool)
    ensures (s + t).filter(f) == s.filter(f) + t.filter(f),
    decreases t.len(),
{
    reveal(Seq::filter);
    if t.len() == 0 {
        assert(s + t =~= s);
        assert(s.filter(f) + t.filter(f) =~= s.filter(f));
    } else {
        filter_add(s, t.drop_last(), f);
        assert((s + t).drop_last() =~= s + t.drop_last());
        let r = t.drop_last().filter(f);
        assert(s.filter(f) + r.push(t.last()) =~= (s.filter(f) + r).push(t.last()));
    }
}

proof fn filter_push<A>(s: Seq<A>, x: A, f: spec_fn(A) -> bool)
    ensures s.push(x).filter(f) == if f(x) { s.filter(f).push(x) } else { s.filter(f) },
{
    reveal(Seq::filter);
    assert(s.push(x).drop_last() =~= s);
}
