
// ---- how a document is tokenized ---------------------------------------------------------------------------------------
// xmlparser reads a document as the specification's reader does, and the document is within the limits: this is an
// assumption of the theorems below, and checked bounded.

/// the text at the beginning
pub open spec fn run_len(log: Seq<EventV>) -> int
    decreases log.len(),
{
    if log.len() > 0 && log[0] is Char { 1 + run_len(log.drop_first()) } else { 0 }
}

pub open spec fn text_of(log: Seq<EventV>) -> Seq<char> { log.map_values(|e: EventV| e->Char_c) }

/// an attribute as it is read
pub open spec fn attr_node(a: AttrV) -> NodeV { NodeV::Attribute { prefix: a.prefix, local: a.local, value: decoded(a.value)->0 } }
pub open spec fn attr_nodes(s: Seq<AttrV>) -> Seq<NodeV> { s.map_values(|a: AttrV| attr_node(a)) }

/// a start tag with n attributes and declarations
pub open spec fn start_tag<'a>(stack: Seq<LevelV>, p: Seq<TokR<'a>>, tag: LevelV, ats: Seq<AttrV>, n: int, limits: Limits) -> bool {
    &&& p.len() > n + 1 && stack.len() < limits.max_levels
    &&& tag_tokens(p.drop_first(), n) && !over(p.drop_first(), n, limits)
    &&& p[0] matches Ok(Token::ElementStart { prefix, local, .. }) && tag_level(p.drop_first(), n, prefix@, local@) == tag
    &&& attrs(p.drop_first(), n) == attr_nodes(ats)
    &&& p.drop_first()[n] matches Ok(Token::ElementEnd { end, .. }) && !(end is Close)
}

pub open spec fn tag_empty<'a>(p: Seq<TokR<'a>>, n: int) -> bool { p.drop_first()[n]->Ok_0->ElementEnd_end is Empty }
pub open spec fn tag_rest<'a>(p: Seq<TokR<'a>>, n: int) -> Seq<TokR<'a>> { p.drop_first().subrange(n + 1, p.len() - 1) }

pub open spec fn end_tag<'a>(stack: Seq<LevelV>, t: TokR<'a>) -> bool {
    t matches Ok(Token::ElementEnd { end: ElementEnd::Close(prefix, local), .. }) && stack.len() > 0
        && local@ == stack.last().local && nonempty(prefix@) == stack.last().prefix
}

/// the tokens for these events: one for a text, one for an end tag, several for a start tag
pub open spec fn tokenized<'a>(stack: Seq<LevelV>, p: Seq<TokR<'a>>, log: Seq<EventV>, limits: Limits) -> bool
    decreases log.len(),
{
    if log.len() == 0 { p.len() == 0 } else {
        match log[0] {
            EventV::Start { tag, attrs } => exists|n: int| #[trigger] start_tag(stack, p, tag, attrs, n, limits)
                && if tag_empty(p, n) { log.len() > 1 && log[1] is End && tokenized(stack, tag_rest(p, n), log.drop_first().drop_first(), limits) }
                   else { tokenized(stack.push(tag), tag_rest(p, n), log.drop_first(), limits) },
            EventV::End => p.len() > 0 && end_tag(stack, p[0]) && tokenized(stack.drop_last(), p.drop_first(), log.drop_first(), limits),
            EventV::Char { .. } => {
                let m = run_len(log);
                &&& p.len() > 0 && 0 < m <= log.len()
                &&& p[0] matches Ok(Token::Text { text }) && text@ == text_of(log.subrange(0, m))
                &&& tokenized(stack, p.drop_first(), log.subrange(m, log.len() as int), limits)
            },
        }
    }
}

// ---- the reader in such a document -------------------------------------------------------------------------------------

/// the reader has these attributes and then these events in front of it
pub open spec fn posn<'a>(s: S<'a>, ats: Seq<NodeV>, log: Seq<EventV>) -> bool {
    &&& forall|i: int| 0 <= i < ats.len() ==> #[trigger] ats[i] is Attribute
    &&& {
        ||| s.records == ats && tokenized(s.stack, s.pend, log, s.limits)
        ||| s.stack.len() > 0 && s.records == ats.push(NodeV::Close { prefix: s.stack.last().prefix, local: s.stack.last().local })
            && log.len() > 0 && log[0] is End && tokenized(s.stack.drop_last(), s.pend, log.drop_first(), s.limits)
    }
}

pub proof fn run_is(log: Seq<EventV>)
    ensures
        0 <= run_len(log) <= log.len(),
        forall|i: int| 0 <= i < run_len(log) ==> #[trigger] log[i] is Char,
        run_len(log) < log.len() ==> !(log[run_len(log)] is Char),
    decreases log.len(),
{
    if log.len() > 0 && log[0] is Char {
        let r = log.drop_first();
        run_is(r);
        assert forall|i: int| 0 <= i < run_len(log) implies #[trigger] log[i] is Char by { if i > 0 { assert(log[i] == r[i - 1]); } }
        if run_len(log) < log.len() { assert(log[run_len(log)] == r[run_len(r)]); }
    }
}

pub proof fn run_at(log: Seq<EventV>, m: int)
    requires 0 <= m <= log.len(), forall|i: int| 0 <= i < m ==> #[trigger] log[i] is Char, m < log.len() ==> !(log[m] is Char),
    ensures run_len(log) == m,
{
    run_is(log);
    let k = run_len(log);
    if k < m { assert(log[k] is Char); }
}

pub proof fn go_attr<'a>(s: S<'a>, ats: Seq<NodeV>, log: Seq<EventV>)
    requires posn(s, ats, log), ats.len() > 0,
    ensures
        go(s) == (Out::Node(ats[0]), S { records: s.records.drop_first(), ..s }),
        posn(go(s).1, ats.drop_first(), log),
{
    let close = NodeV::Close { prefix: s.stack.last().prefix, local: s.stack.last().local };
    assert(ats[0] is Attribute);
    assert(ats.push(close)[0] == ats[0]);
    assert(ats.push(close).drop_first() =~= ats.drop_first().push(close));
}

pub proof fn go_start<'a>(s: S<'a>, log: Seq<EventV>)
    requires posn(s, Seq::empty(), log), log.len() > 0, log[0] is Start,
    ensures
        go(s).0 == Out::Node(NodeV::Open(element_of(log[0]->Start_tag))),
        go(s).1.stack == s.stack.push(log[0]->Start_tag), go(s).1.limits == s.limits,
        posn(go(s).1, attr_nodes(log[0]->Start_attrs), log.drop_first()),
{
    let (tag, ats) = (log[0]->Start_tag, log[0]->Start_attrs);
    let p = s.pend;
    let n = choose|n: int| #[trigger] start_tag(s.stack, p, tag, ats, n, s.limits)
        && if tag_empty(p, n) { log.len() > 1 && log[1] is End && tokenized(s.stack, tag_rest(p, n), log.drop_first().drop_first(), s.limits) }
           else { tokenized(s.stack.push(tag), tag_rest(p, n), log.drop_first(), s.limits) };
    law_start_tag(s, n);
    assert(s.stack.push(tag).drop_last() =~= s.stack);
    assert(p.drop_first().len() == p.len() - 1);
}

pub proof fn go_text<'a>(s: S<'a>, log: Seq<EventV>)
    requires posn(s, Seq::empty(), log), log.len() > 0, log[0] is Char, dec(text_of(log.subrange(0, run_len(log)))) is Some,
    ensures
        go(s).0 is Node && go(s).0->Node_0 is Text && Some(go(s).0->Node_0->Text_0.text) == dec(text_of(log.subrange(0, run_len(log)))),
        go(s).1.stack == s.stack, go(s).1.limits == s.limits,
        posn(go(s).1, Seq::empty(), log.subrange(run_len(log), log.len() as int)),
{
    run_is(log);
    let m = run_len(log);
    let x = text_of(log.subrange(0, m));
    let rest = s.pend.drop_first();
    let after = log.subrange(m, log.len() as int);
    assert(tokenized(s.stack, rest, after, s.limits));
    if after.len() > 0 {
        assert(after[0] == log[m]);
        if after[0] is Start { assert(rest[0] matches Ok(Token::ElementStart { .. })); } else { assert(end_tag(s.stack, rest[0])); }
    }
    assert(run(decoded(x)->0, rest) == (Some(decoded(x)->0), rest));
}

pub proof fn go_end<'a>(s: S<'a>, log: Seq<EventV>)
    requires posn(s, Seq::empty(), log), log.len() > 0, log[0] is End,
    ensures
        s.stack.len() > 0,
        go(s).0 == Out::Node(NodeV::Close { prefix: s.stack.last().prefix, local: s.stack.last().local }),
        go(s).1.stack == s.stack.drop_last(), go(s).1.limits == s.limits,
        posn(go(s).1, Seq::empty(), log.drop_first()),
{
    let close = NodeV::Close { prefix: s.stack.last().prefix, local: s.stack.last().local };
    assert(Seq::<NodeV>::empty().push(close).drop_first() =~= Seq::<NodeV>::empty());
}

// ---- complete events ---------------------------------------------------------------------------------------------------

/// every element is complete, after k others were ended; texts can be decoded
pub open spec fn bal(k: int, ev: Seq<EventV>) -> bool
    decreases ev.len(),
{
    if ev.len() == 0 { k == 0 } else {
        match ev[0] {
            EventV::Start { .. } => bal(k + 1, ev.drop_first()),
            EventV::End => k > 0 && bal(k - 1, ev.drop_first()),
            EventV::Char { .. } => {
                let m = run_len(ev);
                0 < m <= ev.len() && dec(text_of(ev.subrange(0, m))) is Some && bal(k, ev.subrange(m, ev.len() as int))
            },
        }
    }
}

pub proof fn dec_add(x: Seq<char>, y: Seq<char>)
    requires dec(x) is Some, dec(y) is Some,
    ensures dec(x + y) == Some(dec(x)->0 + dec(y)->0),
    decreases x.len(),
{
    if x.len() == 0 {
        assert(x + y =~= y);
        assert(dec(x)->0 + dec(y)->0 =~= dec(y)->0);
    } else if x[0] != '&' {
        dec_add(x.drop_first(), y);
        assert((x + y).drop_first() =~= x.drop_first() + y);
        assert(seq![x[0]] + (dec(x.drop_first())->0 + dec(y)->0) =~= dec(x)->0 + dec(y)->0);
    } else {
        let j = first(x, ';');
        let z = x.subrange(j + 1, x.len() as int);
        first_bounds(x, ';');
        first_is(x + y, ';', j);
        dec_add(z, y);
        assert((x + y).subrange(j + 1, (x + y).len() as int) =~= z + y);
        assert((x + y).subrange(1, j) =~= x.subrange(1, j));
        let r = reference(x.subrange(1, j))->0;
        assert(seq![r] + (dec(z)->0 + dec(y)->0) =~= dec(x)->0 + dec(y)->0);
    }
}

pub proof fn bal_add(k: int, a: Seq<EventV>, j: int, b: Seq<EventV>)
    requires bal(k, a), bal(j, b), j >= 0,
    ensures bal(k + j, a + b),
    decreases a.len(),
{
    let l = a + b;
    if a.len() == 0 {
        assert(l =~= b);
    } else if a[0] is Char {
        run_is(a);
        let m = run_len(a);
        let r = a.subrange(m, a.len() as int);
        if m < a.len() || b.len() == 0 || !(b[0] is Char) {
            run_at(l, m);
            bal_add(k, r, j, b);
            assert(l.subrange(m, l.len() as int) =~= r + b);
            assert(l.subrange(0, m) =~= a.subrange(0, m));
        } else {
            run_is(b);
            let n = run_len(b);
            run_at(l, m + n);
            assert(r.len() == 0 && bal(k, r));
            assert(k == 0);
            let (x, y) = (text_of(a.subrange(0, m)), text_of(b.subrange(0, n)));
            dec_add(x, y);
            assert(text_of(l.subrange(0, m + n)) =~= x + y);
            assert(l.subrange(m + n, l.len() as int) =~= b.subrange(n, b.len() as int));
        }
    } else {
        assert(l.drop_first() =~= a.drop_first() + b);
        bal_add(if a[0] is Start { k + 1 } else { k - 1 }, a.drop_first(), j, b);
    }
}

pub proof fn bal_chars(x: Seq<char>)
    requires dec(x) is Some,
    ensures bal(0, chars(x)),
{
    let l = chars(x);
    if x.len() > 0 {
        run_at(l, x.len() as int);
        assert(text_of(l.subrange(0, x.len() as int)) =~= x);
        assert(l.subrange(x.len() as int, l.len() as int) =~= Seq::<EventV>::empty());
        assert(bal(0, Seq::<EventV>::empty()));
    }
}

pub proof fn bal_element(tag: LevelV, ats: Seq<AttrV>, inner: Seq<EventV>)
    requires bal(0, inner),
    ensures bal(0, element_events(tag, ats, inner)),
{
    let e = seq![EventV::End];
    assert(bal(1, e)) by { assert(e.drop_first() =~= Seq::<EventV>::empty()); assert(bal(0, Seq::<EventV>::empty())); }
    bal_add(0, inner, 1, e);
    assert(element_events(tag, ats, inner).drop_first() =~= inner + e);
}

/// what is inside an element is skipped up to its end tag
pub proof fn drain_events<'a>(s: S<'a>, ats: Seq<NodeV>, inner: Seq<EventV>, rest: Seq<EventV>, k: int, level: int)
    requires posn(s, ats, inner.push(EventV::End) + rest), bal(k, inner), k >= 0, s.stack.len() == level + k, level >= 1,
    ensures
        drain(s, level).0 is None,
        posn(drain(s, level).1, Seq::empty(), rest),
        drain(s, level).1.stack == s.stack.subrange(0, level - 1), drain(s, level).1.limits == s.limits,
    decreases inner.len(), ats.len(),
{
    let log = inner.push(EventV::End) + rest;
    go_decreases(s);
    if ats.len() > 0 {
        go_attr(s, ats, log);
        assert(ats[0] is Attribute);
        drain_events(go(s).1, ats.drop_first(), inner, rest, k, level);
    } else {
        assert(ats =~= Seq::<NodeV>::empty());
        if inner.len() == 0 {
            go_end(s, log);
            assert(log.drop_first() =~= rest);
            assert(s.stack.drop_last() =~= s.stack.subrange(0, level - 1));
        } else {
            assert(log[0] == inner[0]);
            let s1 = go(s).1;
            if inner[0] is Start {
                go_start(s, log);
                assert(log.drop_first() =~= inner.drop_first().push(EventV::End) + rest);
                drain_events(s1, attr_nodes(log[0]->Start_attrs), inner.drop_first(), rest, k + 1, level);
                assert(s1.stack.subrange(0, level - 1) =~= s.stack.subrange(0, level - 1));
            } else if inner[0] is End {
                go_end(s, log);
                assert(log.drop_first() =~= inner.drop_first().push(EventV::End) + rest);
                drain_events(s1, Seq::empty(), inner.drop_first(), rest, k - 1, level);
                assert(s1.stack.subrange(0, level - 1) =~= s.stack.subrange(0, level - 1));
            } else {
                run_is(inner);
                let m = run_len(inner);
                assert(!(log[m] is Char)) by { if m < inner.len() { assert(log[m] == inner[m]); } }
                assert forall|i: int| 0 <= i < m implies #[trigger] log[i] is Char by { assert(log[i] == inner[i]); }
                run_at(log, m);
                assert(log.subrange(0, m) =~= inner.subrange(0, m));
                go_text(s, log);
                let r = inner.subrange(m, inner.len() as int);
                assert(log.subrange(m, log.len() as int) =~= r.push(EventV::End) + rest);
                drain_events(s1, Seq::empty(), r, rest, k, level);
            }
        }
    }
}

// ---- the children of an element -----------------------------------------------------------------------------------------

/// the reader of an element is in it, with these attributes and then these events in front of it
pub open spec fn inside<'a>(d: D<'a>, ats: Seq<NodeV>, log: Seq<EventV>) -> bool {
    &&& d.first is None && !d.done && d.s.stack.len() == d.level && d.level >= 1 && handed(d)
    &&& d.parent == element_of(d.s.stack.last())
    &&& posn(d.s, ats, log)
}

/// in the same element
pub open spec fn beside<'a>(d: D<'a>, e: D<'a>) -> bool { e == (D { s: e.s, ..d }) && e.s.stack == d.s.stack && e.s.limits == d.s.limits }

/// these children come next
pub open spec fn kids<'a>(d: D<'a>, cs: Seq<Child<'a>>, e: D<'a>) -> bool
    decreases cs.len(),
{
    if cs.len() == 0 { e == d } else { head(d) matches Head::Child(c, d2) && c == cs[0] && kids(d2, cs.drop_first(), e) }
}

pub proof fn kids_one<'a>(d: D<'a>, c: Child<'a>, e: D<'a>)
    requires head(d) == Head::Child(c, e),
    ensures kids(d, seq![c], e),
{
    assert(seq![c].drop_first() =~= Seq::<Child<'a>>::empty());
    assert(kids(e, Seq::<Child<'a>>::empty(), e));
}

pub proof fn kids_add<'a>(d: D<'a>, a: Seq<Child<'a>>, e: D<'a>, b: Seq<Child<'a>>, f: D<'a>)
    requires kids(d, a, e), kids(e, b, f),
    ensures kids(d, a + b, f),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); } else {
        let d2 = head(d)->Child_1;
        kids_add(d2, a.drop_first(), e, b, f);
        assert((a + b).drop_first() =~= a.drop_first() + b);
    }
}

pub proof fn kids_walk<'a>(d: D<'a>, cs: Seq<Child<'a>>, e: D<'a>)
    requires kids(d, cs, e),
    ensures walk(d).children == cs + walk(e).children, walk(d).end == walk(e).end, walk(d).at == walk(e).at,
    decreases cs.len(),
{
    if cs.len() == 0 { assert(cs + walk(e).children =~= walk(e).children); } else {
        let d2 = head(d)->Child_1;
        walk_at(d);
        kids_walk(d2, cs.drop_first(), e);
        assert(seq![cs[0]] + (cs.drop_first() + walk(e).children) =~= cs + walk(e).children);
    }
}

pub proof fn head_attr<'a>(d: D<'a>, ats: Seq<NodeV>, log: Seq<EventV>, id: IdV) -> (e: D<'a>)
    requires
        inside(d, ats, log), ats.len() > 0,
        attribute_name(d.s.stack, ats[0]->Attribute_prefix, ats[0]->Attribute_local) == Some(id),
    ensures
        head(d) == Head::Child(Child::Attr(id, front(e, NodeV::AttributeValue(ats[0]->Attribute_value))), e),
        inside(e, ats.drop_first(), log), beside(d, e),
{
    go_attr(d.s, ats, log);
    assert(ats[0] is Attribute);
    head_keeps(d);
    next_of(d).1
}

pub proof fn head_text<'a>(d: D<'a>, x: Seq<char>, rest: Seq<EventV>) -> (e: D<'a>)
    requires inside(d, Seq::empty(), chars(x) + rest), x.len() > 0, dec(x) is Some, rest.len() > 0, !(rest[0] is Char),
    ensures
        exists|c: CowV| head(d) == Head::Child(Child::Text(#[trigger] front(e, NodeV::Text(c))), e) && Some(c.text) == dec(x),
        inside(e, Seq::empty(), rest), beside(d, e),
{
    let log = chars(x) + rest;
    run_at(log, x.len() as int);
    assert(text_of(log.subrange(0, x.len() as int)) =~= x);
    assert(log.subrange(x.len() as int, log.len() as int) =~= rest);
    go_text(d.s, log);
    let e = next_of(d).1;
    let c = go(d.s).0->Node_0->Text_0;
    assert(head(d) == Head::Child(Child::Text(front(e, NodeV::Text(c))), e));
    head_keeps(d);
    e
}

pub proof fn head_elem<'a>(d: D<'a>, tag: LevelV, ats: Seq<AttrV>, inner: Seq<EventV>, rest: Seq<EventV>, name: IdV) -> (r: (D<'a>, D<'a>))
    requires
        inside(d, Seq::empty(), element_events(tag, ats, inner) + rest), bal(0, inner),
        element_name(d.s.stack.push(tag), element_of(tag)) == Some(name),
    ensures
        head(d) == Head::Child(Child::Elem(name, r.0), r.1),
        inside(r.0, attr_nodes(ats), inner.push(EventV::End) + rest), r.0.s.stack == d.s.stack.push(tag), r.0.s.limits == d.s.limits,
        inside(r.1, Seq::empty(), rest), beside(d, r.1),
{
    let log = element_events(tag, ats, inner) + rest;
    assert(log[0] == EventV::Start { tag, attrs: ats });
    assert(log.drop_first() =~= inner.push(EventV::End) + rest);
    go_start(d.s, log);
    let d1 = next_of(d).1;
    let x = opened(element_of(tag), d1.s);
    drain_events(d1.s, attr_nodes(ats), inner, rest, 0, x.level);
    assert(d1.s.stack.subrange(0, x.level - 1) =~= d.s.stack);
    head_keeps(d);
    (x, D { s: drain(d1.s, x.level).1, ..d1 })
}

pub proof fn head_end<'a>(d: D<'a>, rest: Seq<EventV>)
    requires inside(d, Seq::empty(), seq![EventV::End] + rest),
    ensures head(d) == Head::Stop(None, next_of(d).1), next_of(d).0 == Out::End, next_of(d).1.done,
{
    let log = seq![EventV::End] + rest;
    assert(log[0] is End);
    go_end(d.s, log);
}
