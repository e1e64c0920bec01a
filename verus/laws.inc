verus! {

// ---- what xmlparser guarantees about the order of its tokens: trusted ------------------------------------------------

/// attributes and ends of start tags come in start tags and nothing else does; there is nothing after an error
pub open spec fn grammar<'a>(p: Seq<TokR<'a>>, in_tag: bool) -> bool
    decreases p.len(),
{
    if p.len() == 0 { true } else {
        let rest = p.drop_first();
        match p[0] {
            Err(_) => rest.len() == 0,
            Ok(Token::ElementStart { .. }) => !in_tag && grammar(rest, true),
            Ok(Token::Attribute { .. }) => in_tag && grammar(rest, true),
            Ok(Token::ElementEnd { end, .. }) => (in_tag <==> !(end is Close)) && grammar(rest, false),
            Ok(_) => !in_tag && grammar(rest, false),
        }
    }
}

// ---- C04, C06, C07, C15: a start tag ------------------------------------------------------------------------------------

pub open spec fn is_default_decl(t: TokR) -> bool {
    t matches Ok(Token::Attribute { prefix, local, .. }) && prefix@.len() == 0 && local@ == "xmlns"@
}

pub open spec fn is_prefix_decl(t: TokR) -> bool {
    t matches Ok(Token::Attribute { prefix, local, .. }) && !is_default_decl(t) && prefix@ == "xmlns"@
}

pub open spec fn is_attr(t: TokR) -> bool {
    t is Ok && t->Ok_0 is Attribute && !is_default_decl(t) && !is_prefix_decl(t)
}

pub open spec fn t_prefix(t: TokR) -> Seq<char> { t->Ok_0->Attribute_prefix@ }
pub open spec fn t_local(t: TokR) -> Seq<char> { t->Ok_0->Attribute_local@ }
pub open spec fn t_value(t: TokR) -> Seq<char> { t->Ok_0->Attribute_value@ }

/// the attributes among the first `n` tokens, in order
pub open spec fn attrs<'a>(p: Seq<TokR<'a>>, n: int) -> Seq<NodeV>
    decreases n,
{
    if n <= 0 { Seq::empty() }
    else if is_attr(p[n - 1]) { attrs(p, n - 1).push(NodeV::Attribute { prefix: nonempty(t_prefix(p[n - 1])), local: t_local(p[n - 1]), value: decoded(t_value(p[n - 1]))->0 }) }
    else { attrs(p, n - 1) }
}

/// the default namespace that the first `n` tokens declare
pub open spec fn default_decl<'a>(p: Seq<TokR<'a>>, n: int) -> Option<Seq<char>>
    decreases n,
{
    if n <= 0 { None } else if is_default_decl(p[n - 1]) { Some(t_value(p[n - 1])) } else { default_decl(p, n - 1) }
}

/// the prefixes that the first `n` tokens declare
pub open spec fn prefix_decls<'a>(p: Seq<TokR<'a>>, n: int) -> Map<Seq<char>, Seq<char>>
    decreases n,
{
    if n <= 0 { Map::empty() }
    else if is_prefix_decl(p[n - 1]) { prefix_decls(p, n - 1).insert(t_local(p[n - 1]), t_value(p[n - 1])) }
    else { prefix_decls(p, n - 1) }
}

/// `n` attribute tokens whose values can be decoded, of which no two declare the same prefix
pub open spec fn tag_tokens<'a>(p: Seq<TokR<'a>>, n: int) -> bool {
    &&& 0 <= n <= p.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] p[i] is Ok && p[i]->Ok_0 is Attribute
    &&& forall|i: int| 0 <= i < n && is_attr(#[trigger] p[i]) ==> decoded(t_value(p[i])) is Some
    &&& forall|i: int| 0 <= i < n && is_prefix_decl(#[trigger] p[i]) ==> !prefix_decls(p, i).contains_key(t_local(p[i]))
}

pub open spec fn tag_level<'a>(p: Seq<TokR<'a>>, n: int, prefix: Seq<char>, local: Seq<char>) -> LevelV {
    LevelV { local, prefix: nonempty(prefix), default_ns: default_decl(p, n), prefixes: prefix_decls(p, n) }
}

/// the tag exceeds a limit
pub open spec fn over<'a>(p: Seq<TokR<'a>>, n: int, l: Limits) -> bool {
    attrs(p, n).len() > l.max_attributes || prefix_decls(p, n).dom().len() > l.max_ns_declarations
}

proof fn attrs_grow<'a>(p: Seq<TokR<'a>>, i: int, n: int)
    requires tag_tokens(p, n), 0 <= i <= n,
    ensures attrs(p, i).len() <= attrs(p, n).len(), prefix_decls(p, i).dom().len() <= prefix_decls(p, n).dom().len(),
    decreases n - i,
{
    if i < n {
        assert(tag_tokens(p, n - 1));
        attrs_grow(p, i, n - 1);
        if is_prefix_decl(p[n - 1]) { assert(!prefix_decls(p, n - 1).dom().contains(t_local(p[n - 1]))); }
    }
}

/// tag, seen from after `j` of its attributes
proof fn tag_from<'a>(s: S<'a>, base: Seq<LevelV>, p: Seq<TokR<'a>>, j: int, n: int, prefix: Seq<char>, local: Seq<char>)
    requires
        tag_tokens(p, n), 0 <= j <= n < p.len(),
        p[n] matches Ok(Token::ElementEnd { end, .. }) && !(end is Close),
        s.pend == p.subrange(j, p.len() as int),
        s.records == attrs(p, j),
        s.stack == base.push(tag_level(p, j, prefix, local)),
        attrs(p, j).len() <= s.limits.max_attributes, prefix_decls(p, j).dom().len() <= s.limits.max_ns_declarations,
    ensures
        over(p, n, s.limits) ==> scan(s).0 == Out::Err(ErrV::Limit),
        !over(p, n, s.limits) ==> scan(s) == tag_result(base, p, n, prefix, local, s.limits),
    decreases n - j,
{
    let rest = s.pend.drop_first();
    assert(s.pend[0] == p[j]);
    assert(rest =~= p.subrange(j + 1, p.len() as int));
    let top = s.stack.last();
    if j == n {
        assert(s.stack.len() > 0);
    } else {
        let s1 = S { pend: rest, ..s };
        attrs_grow(p, j + 1, n);
        if is_default_decl(p[j]) {
            let s2 = top_with(s1, LevelV { default_ns: Some(t_value(p[j])), ..top });
            assert(s2.stack =~= base.push(tag_level(p, j + 1, prefix, local)));
            tag_from(s2, base, p, j + 1, n, prefix, local);
        } else if is_prefix_decl(p[j]) {
            assert(!prefix_decls(p, j).dom().contains(t_local(p[j])));
            if top.prefixes.dom().len() < s.limits.max_ns_declarations {
                let s2 = top_with(s1, LevelV { prefixes: top.prefixes.insert(t_local(p[j]), t_value(p[j])), ..top });
                assert(s2.stack =~= base.push(tag_level(p, j + 1, prefix, local)));
                tag_from(s2, base, p, j + 1, n, prefix, local);
            }
        } else {
            assert(is_attr(p[j]));
            if s.records.len() < s.limits.max_attributes {
                let s2 = S { records: s.records.push(NodeV::Attribute { prefix: nonempty(t_prefix(p[j])), local: t_local(p[j]), value: decoded(t_value(p[j]))->0 }), ..s1 };
                assert(tag_level(p, j + 1, prefix, local) == tag_level(p, j, prefix, local));
                tag_from(s2, base, p, j + 1, n, prefix, local);
            }
        }
    }
}

pub open spec fn tag_result<'a>(base: Seq<LevelV>, p: Seq<TokR<'a>>, n: int, prefix: Seq<char>, local: Seq<char>, limits: Limits) -> (Out, S<'a>) {
    let level = tag_level(p, n, prefix, local);
    let empty = p[n]->Ok_0->ElementEnd_end is Empty;
    (
        Out::Node(NodeV::Open(element_of(level))),
        S {
            stack: base.push(level),
            records: if empty { attrs(p, n).push(NodeV::Close { prefix: nonempty(prefix), local }) } else { attrs(p, n) },
            pend: p.subrange(n + 1, p.len() as int),
            limits,
        },
    )
}

/// A start tag opens exactly one level, with the declarations found anywhere in it, and yields its other attributes,
/// decoded, in order; it is refused exactly if it exceeds a limit: depth, attributes of this tag, declarations of this tag.
pub proof fn law_start_tag<'a>(s: S<'a>, n: int)
    requires
        s.records.len() == 0, s.pend.len() > n + 1,
        s.pend[0] matches Ok(Token::ElementStart { .. }),
        tag_tokens(s.pend.drop_first(), n),
        s.pend.drop_first()[n] matches Ok(Token::ElementEnd { end, .. }) && !(end is Close),
    ensures ({
        let p = s.pend.drop_first();
        let (prefix, local) = (s.pend[0]->Ok_0->ElementStart_prefix@, s.pend[0]->Ok_0->ElementStart_local@);
        let refused = s.stack.len() + 1 > s.limits.max_levels || over(p, n, s.limits);
        &&& refused <==> go(s).0 == Out::Err(ErrV::Limit)
        &&& !refused ==> go(s) == tag_result(s.stack, p, n, prefix, local, s.limits)
    }),
{
    let p = s.pend.drop_first();
    let (prefix, local) = (s.pend[0]->Ok_0->ElementStart_prefix@, s.pend[0]->Ok_0->ElementStart_local@);
    if s.stack.len() < s.limits.max_levels {
        let s1 = S { pend: p, stack: s.stack.push(LevelV { local, prefix: nonempty(prefix), default_ns: None, prefixes: Map::empty() }), ..s };
        assert(p.subrange(0, p.len() as int) =~= p);
        assert(s1.records =~= attrs(p, 0));
        assert(s1.stack =~= s.stack.push(tag_level(p, 0, prefix, local)));
        assert(prefix_decls(p, 0).dom().len() == 0);
        tag_from(s1, s.stack, p, 0, n, prefix, local);
    }
}


// ---- C05, C07: what a step does to the open elements ------------------------------------------------------------------------

/// waiting records: attributes of the innermost element, then possibly its end
pub open spec fn waiting_ok<'a>(s: S<'a>) -> bool {
    forall|i: int| 0 <= i < s.records.len() ==> match #[trigger] s.records[i] {
        NodeV::Attribute { .. } => true,
        NodeV::Close { prefix, local } => i == s.records.len() - 1 && s.stack.len() > 0 && prefix == s.stack.last().prefix && local == s.stack.last().local,
        _ => false,
    }
}

/// between two nodes
pub open spec fn ready<'a>(s: S<'a>) -> bool { waiting_ok(s) && grammar(s.pend, false) }

pub open spec fn stacks<'a>(out: Out, a: S<'a>, b: S<'a>) -> bool {
    match out {
        // one more level, for the element that is opened
        Out::Node(NodeV::Open(e)) => b.stack.len() == a.stack.len() + 1 && b.stack.drop_last() == a.stack && e == element_of(b.stack.last()),
        // one level less, and the node closes that one
        Out::Node(NodeV::Close { prefix, local }) => a.stack.len() > 0 && b.stack == a.stack.drop_last() && prefix == a.stack.last().prefix && local == a.stack.last().local,
        Out::Node(_) => b.stack == a.stack,
        Out::End => b.pend.len() == 0,
        Out::Err(_) => true,
    }
}

proof fn run_grammar<'a>(acc: CowV, p: Seq<TokR<'a>>)
    requires grammar(p, false),
    ensures run(acc, p).0 is Some ==> grammar(run(acc, p).1, false),
    decreases p.len(),
{
    if p.len() > 0 {
        match p[0] {
            Ok(Token::Text { text }) => { if let Some(t) = decoded(text@) { run_grammar(join(acc, t), p.drop_first()); } }
            Ok(Token::Cdata { text, .. }) => { run_grammar(join(acc, CowV { text: text@, borrowed: true }), p.drop_first()); }
            Ok(Token::Comment { .. }) => { run_grammar(acc, p.drop_first()); }
            _ => {}
        }
    }
}

/// inside a start tag whose level is on top of `base`
proof fn scan_in_tag<'a>(s: S<'a>, base: Seq<LevelV>)
    requires
        grammar(s.pend, true), s.stack.len() == base.len() + 1, s.stack.drop_last() == base,
        forall|i: int| 0 <= i < s.records.len() ==> #[trigger] s.records[i] is Attribute,
    ensures
        scan(s).0 is Node ==> scan(s).0->Node_0 is Open && ready(scan(s).1) && scan(s).1.stack.len() == base.len() + 1
            && scan(s).1.stack.drop_last() == base && scan(s).0->Node_0->Open_0 == element_of(scan(s).1.stack.last()),
        scan(s).1.limits == s.limits,
        scan(s).0 == Out::End ==> scan(s).1.pend.len() == 0,
    decreases s.pend.len(),
{
    if s.pend.len() > 0 {
        let s1 = S { pend: s.pend.drop_first(), ..s };
        let top = s.stack.last();
        match s.pend[0] {
            Ok(Token::Attribute { prefix, local, value, .. }) => {
                let a = top_with(s1, LevelV { default_ns: Some(value@), ..top });
                assert(a.stack.drop_last() =~= base);
                scan_in_tag(a, base);
                let b = top_with(s1, LevelV { prefixes: top.prefixes.insert(local@, value@), ..top });
                assert(b.stack.drop_last() =~= base);
                scan_in_tag(b, base);
                if let Some(v) = decoded(value@) {
                    scan_in_tag(S { records: s.records.push(NodeV::Attribute { prefix: nonempty(prefix@), local: local@, value: v }), ..s1 }, base);
                }
            }
            _ => {}
        }
    }
}

/// Elements nest: a node that opens adds a level with that element, a node that closes removes the innermost one and
/// bears its name, every other node leaves the open elements (and so the declarations in scope) alone.
pub proof fn law_step<'a>(s: S<'a>)
    requires ready(s),
    ensures
        stacks(go(s).0, s, go(s).1),
        go(s).0 is Node ==> ready(go(s).1),
        go(s).1.limits == s.limits,
    decreases s.pend.len(),
{
    if s.records.len() > 0 {
        let n = s.records[0];
        let s1 = go(s).1;
        assert forall|i: int| 0 <= i < s1.records.len() implies match #[trigger] s1.records[i] {
            NodeV::Attribute { .. } => true,
            NodeV::Close { prefix, local } => i == s1.records.len() - 1 && s1.stack.len() > 0 && prefix == s1.stack.last().prefix && local == s1.stack.last().local,
            _ => false,
        } by { assert(s1.records[i] == s.records[i + 1]); }
    } else if s.pend.len() > 0 {
        let s1 = S { pend: s.pend.drop_first(), ..s };
        match s.pend[0] {
            Ok(Token::ElementStart { prefix, local, .. }) => {
                let a = S { stack: s.stack.push(LevelV { local: local@, prefix: nonempty(prefix@), default_ns: None, prefixes: Map::empty() }), ..s1 };
                assert(a.stack.drop_last() =~= s.stack);
                scan_in_tag(a, s.stack);
            }
            Ok(Token::Text { text }) => { if let Some(t) = decoded(text@) { run_grammar(t, s1.pend); } }
            Ok(Token::Cdata { text, .. }) => { run_grammar(CowV { text: text@, borrowed: true }, s1.pend); }
            Ok(Token::Comment { .. }) => { law_step(s1); }
            Ok(Token::Declaration { .. }) => { law_step(s1); }
            _ => {}
        }
    }
}


// ---- C04: limits -------------------------------------------------------------------------------------------------------------

pub open spec fn within<'a>(s: S<'a>) -> bool {
    &&& s.stack.len() <= s.limits.max_levels
    &&& forall|i: int| 0 <= i < s.stack.len() ==> (#[trigger] s.stack[i]).prefixes.dom().len() <= s.limits.max_ns_declarations
    &&& s.records.len() <= s.limits.max_attributes + 1
    &&& s.records.len() == s.limits.max_attributes + 1 ==> s.records.last() is Close
}

proof fn scan_within<'a>(s: S<'a>)
    requires within(s), s.records.len() <= s.limits.max_attributes,
    ensures within(scan(s).1), scan(s).1.limits == s.limits,
    decreases s.pend.len(),
{
    if s.pend.len() > 0 {
        let s1 = S { pend: s.pend.drop_first(), ..s };
        let top = s.stack.last();
        match s.pend[0] {
            Ok(Token::ElementStart { prefix, local, .. }) => {
                if s.stack.len() < s.limits.max_levels {
                    scan_within(S { stack: s.stack.push(LevelV { local: local@, prefix: nonempty(prefix@), default_ns: None, prefixes: Map::empty() }), ..s1 });
                }
            }
            Ok(Token::Attribute { prefix, local, value, .. }) => {
                if s.stack.len() > 0 {
                    assert(s.stack.last() == s.stack[s.stack.len() - 1]);
                    scan_within(top_with(s1, LevelV { default_ns: Some(value@), ..top }));
                    if top.prefixes.dom().len() < s.limits.max_ns_declarations {
                        scan_within(top_with(s1, LevelV { prefixes: top.prefixes.insert(local@, value@), ..top }));
                    }
                }
                if s.records.len() < s.limits.max_attributes {
                    if let Some(v) = decoded(value@) {
                        scan_within(S { records: s.records.push(NodeV::Attribute { prefix: nonempty(prefix@), local: local@, value: v }), ..s1 });
                    }
                }
            }
            Ok(Token::Comment { .. }) => { scan_within(s1); }
            Ok(Token::Declaration { .. }) => { scan_within(s1); }
            _ => {}
        }
    }
}

/// No document, well-formed or not, gets past the limits: whatever was read, there are never more levels open, nor more
/// declarations on one of them, nor more attributes waiting, than they allow.
pub proof fn law_within<'a>(s: S<'a>)
    requires within(s),
    ensures within(go(s).1), go(s).1.limits == s.limits,
{
    if s.records.len() == 0 { scan_within(s); }
    else {
        let b = go(s).1;
        if b.records.len() > 0 { assert(b.records.last() == s.records.last()); }
    }
}

// ---- C05, C06: skipping an element ----------------------------------------------------------------------------------------------

/// Skipping to the end of the element at level `k` ends with the levels outside it as they were, or with an error.
/// With law_step: nothing but the end tag of that very element ends it.
pub proof fn law_drain<'a>(s: S<'a>, k: int)
    requires ready(s), 1 <= k <= s.stack.len(),
    ensures
        drain(s, k).0 is None ==> ready(drain(s, k).1) && drain(s, k).1.stack == s.stack.subrange(0, k - 1),
        drain(s, k).0 is None ==> drain(s, k).1.limits == s.limits,
    decreases left(s),
{
    law_step(s);
    go_decreases(s);
    let (o, s1) = go(s);
    match o {
        Out::Node(NodeV::Close { .. }) => {
            if s1.stack.len() + 1 == k { assert(s1.stack =~= s.stack.subrange(0, k - 1)); }
            else { law_drain(s1, k); assert(s1.stack.subrange(0, k - 1) =~= s.stack.subrange(0, k - 1)); }
        }
        Out::Node(NodeV::Open(_)) => {
            law_drain(s1, k);
            assert(s1.stack.subrange(0, k - 1) =~= s1.stack.drop_last().subrange(0, k - 1));
        }
        Out::Node(_) => { law_drain(s1, k); }
        _ => {}
    }
}

/// Skipping in two steps, an inner element first, is skipping at once.
pub proof fn law_drain_nested<'a>(s: S<'a>, k: int, m: int)
    requires ready(s), 1 <= k <= m <= s.stack.len(),
    ensures
        drain(s, m).0 is Some ==> drain(s, k).0 == drain(s, m).0,
        drain(s, m).0 is None && k < m ==> drain(s, k) == drain(drain(s, m).1, k),
    decreases left(s),
{
    law_step(s);
    go_decreases(s);
    let (o, s1) = go(s);
    match o {
        Out::Node(NodeV::Close { .. }) => {
            if s1.stack.len() + 1 != m && s1.stack.len() >= m { law_drain_nested(s1, k, m); }
        }
        Out::Node(_) => { law_drain_nested(s1, k, m); }
        _ => {}
    }
}

/// the tokens after `n` end tags (or empty elements) that close what is open at the front
pub open spec fn after<'a>(p: Seq<TokR<'a>>, n: int) -> Seq<TokR<'a>>
    decreases p.len(),
{
    if n <= 0 || p.len() == 0 { p } else {
        match p[0] {
            Ok(Token::ElementStart { .. }) => after(p.drop_first(), n + 1),
            Ok(Token::ElementEnd { end, .. }) => after(p.drop_first(), if end is Open { n } else { n - 1 }),
            _ => after(p.drop_first(), n),
        }
    }
}

/// level of the tokens that are still to come: an empty element whose end is still to be reported is behind
pub open spec fn closes<'a>(s: S<'a>) -> int { if s.records.len() > 0 && s.records.last() is Close { 1 } else { 0 } }

proof fn run_after<'a>(acc: CowV, p: Seq<TokR<'a>>, n: int)
    requires run(acc, p).0 is Some, n >= 1,
    ensures after(run(acc, p).1, n) == after(p, n),
    decreases p.len(),
{
    if p.len() > 0 && n > 0 {
        match p[0] {
            Ok(Token::Text { text }) => { if let Some(t) = decoded(text@) { run_after(join(acc, t), p.drop_first(), n); } }
            Ok(Token::Cdata { text, .. }) => { run_after(join(acc, CowV { text: text@, borrowed: true }), p.drop_first(), n); }
            Ok(Token::Comment { .. }) => { run_after(acc, p.drop_first(), n); }
            _ => {}
        }
    }
}

proof fn scan_after<'a>(s: S<'a>, n: int)
    requires n >= 1, forall|i: int| 0 <= i < s.records.len() ==> #[trigger] s.records[i] is Attribute,
    ensures
        scan(s).0 is Node ==> ({
            let t = scan(s).1;
            after(t.pend, n + t.stack.len() - s.stack.len() - closes(t)) == after(s.pend, n)
        }),
    decreases s.pend.len(),
{
    if s.pend.len() > 0 {
        let s1 = S { pend: s.pend.drop_first(), ..s };
        let top = s.stack.last();
        match s.pend[0] {
            Ok(Token::ElementStart { prefix, local, .. }) => {
                scan_after(S { stack: s.stack.push(LevelV { local: local@, prefix: nonempty(prefix@), default_ns: None, prefixes: Map::empty() }), ..s1 }, n + 1);
            }
            Ok(Token::Attribute { prefix, local, value, .. }) => {
                if s.stack.len() > 0 {
                    scan_after(top_with(s1, LevelV { default_ns: Some(value@), ..top }), n);
                    scan_after(top_with(s1, LevelV { prefixes: top.prefixes.insert(local@, value@), ..top }), n);
                }
                if let Some(v) = decoded(value@) {
                    scan_after(S { records: s.records.push(NodeV::Attribute { prefix: nonempty(prefix@), local: local@, value: v }), ..s1 }, n);
                }
            }
            Ok(Token::Text { text }) => { if let Some(t) = decoded(text@) { if run(t, s1.pend).0 is Some { run_after(t, s1.pend, n); } } }
            Ok(Token::Cdata { text, .. }) => { let t = CowV { text: text@, borrowed: true }; if run(t, s1.pend).0 is Some { run_after(t, s1.pend, n); } }
            Ok(Token::Comment { .. }) => { scan_after(s1, n); }
            Ok(Token::Declaration { .. }) => { scan_after(s1, n); }
            _ => {}
        }
    }
}

/// What is skipped is the rest of that element, to its own end tag, and nothing else, whatever is in it.
pub proof fn law_drain_tokens<'a>(s: S<'a>, k: int)
    requires ready(s), 1 <= k <= s.stack.len(),
    ensures drain(s, k).0 is None ==> drain(s, k).1.pend == after(s.pend, s.stack.len() - k + 1 - closes(s)),
    decreases left(s),
{
    law_step(s);
    go_decreases(s);
    let (o, s1) = go(s);
    let n = s.stack.len() - k + 1;
    if s.records.len() == 0 { if s.pend.len() > 0 { scan_after(s, n); } }
    else if s1.records.len() > 0 { assert(s1.records.last() == s.records.last()); }
    match o {
        Out::Node(NodeV::Close { .. }) => {
            if s1.stack.len() + 1 != k { law_drain_tokens(s1, k); }
        }
        Out::Node(_) => { law_drain_tokens(s1, k); }
        _ => {}
    }
}

} // verus!

verus! {

/// a reader that stands in the element that it reads
pub open spec fn placed<'a>(d: D<'a>) -> bool {
    ready(d.s) && (d.done || (1 <= d.level <= d.s.stack.len() && named(d.s.stack[d.level - 1], d.parent)))
}

/// and has read every child that it opened to its end
pub open spec fn resting<'a>(d: D<'a>) -> bool {
    placed(d) && !d.done && d.first is None && d.s.stack.len() == d.level
}

pub open spec fn named(l: LevelV, e: ElementV) -> bool { e == element_of(l) }

/// The end of the element is reported where its own end tag is, and not before or after; up to there, nodes are from inside.
pub proof fn law_next<'a>(d: D<'a>)
    requires placed(d), d.first is None,
    ensures
        ({
            let (o, e) = next_of(d);
            &&& o is Node ==> placed(e) && !e.done && e.s.stack.subrange(0, d.level) == d.s.stack.subrange(0, d.level)
            &&& o == Out::End && !d.done ==> placed(e) && e.done && e.s.stack == d.s.stack.subrange(0, d.level - 1) && go(d.s).0 is Node && go(d.s).0->Node_0 is Close
            &&& o matches Out::Node(NodeV::Open(x)) ==> placed(opened(x, e.s)) && e.s.stack.len() > d.level
            &&& o matches Out::Node(n) ==> !(n is Close)
            &&& e.level == d.level && e.parent == d.parent && e.first is None
        }),
{
    law_step(d.s);
    let (o, s1) = go(d.s);
    if !d.done {
        match o {
            Out::Node(NodeV::Close { .. }) => {
                assert(s1.stack =~= d.s.stack.drop_last());
                if s1.stack.len() + 1 == d.level { assert(s1.stack =~= d.s.stack.subrange(0, d.level - 1)); }
            }
            Out::Node(NodeV::Open(_)) => {
                assert(s1.stack.subrange(0, d.level) =~= s1.stack.drop_last().subrange(0, d.level));
                assert(s1.stack[d.level - 1] == s1.stack.drop_last()[d.level - 1]);
            }
            _ => {}
        }
    }
}

} // verus!
