verus! {

// ---- specification: what a document written so far means ----------------------------------------------------------
// A reader of XML, character by character and independent of the code: it knows the open elements with their
// declarations, the start tag that is being read, and rejects everything that is not well-formed.

pub ghost enum Mode {
    Content,
    /// inside a reference in text
    TextRef { name: Seq<char> },
    Lt,
    Name { pre: Option<Seq<char>>, buf: Seq<char> },
    Space,
    AName { pre: Option<Seq<char>>, buf: Seq<char> },
    AEq { pre: Option<Seq<char>>, buf: Seq<char> },
    AVal { pre: Option<Seq<char>>, buf: Seq<char>, val: Seq<char> },
    ValRef { pre: Option<Seq<char>>, buf: Seq<char>, val: Seq<char>, name: Seq<char> },
    After,
    Slash,
    CloseName { pre: Option<Seq<char>>, buf: Seq<char> },
    Bad,
}

pub ghost struct AttrV { pub prefix: Option<Seq<char>>, pub local: Seq<char>, pub value: Seq<char> }

/// what has been read: tags, and the characters between them (references as they are written)
pub ghost enum EventV { Start { tag: LevelV, attrs: Seq<AttrV> }, Char { c: char }, End }

pub open spec fn chars(s: Seq<char>) -> Seq<EventV> { s.map_values(|c: char| EventV::Char { c }) }

pub ghost struct P { pub stack: Seq<LevelV>, pub tag: LevelV, pub attrs: Seq<AttrV>, pub mode: Mode, pub log: Seq<EventV> }

/// a start tag ends
pub open spec fn opened(p: P) -> P {
    P { stack: p.stack.push(p.tag), mode: Mode::Content, log: p.log.push(EventV::Start { tag: p.tag, attrs: p.attrs }), ..p }
}

/// a start tag ends that is an end tag too
pub open spec fn emptied(p: P) -> P {
    P { mode: Mode::Content, log: p.log.push(EventV::Start { tag: p.tag, attrs: p.attrs }).push(EventV::End), ..p }
}

pub open spec fn closed(p: P) -> P { P { stack: p.stack.drop_last(), mode: Mode::Content, log: p.log.push(EventV::End), ..p } }

/// a character between tags
pub open spec fn shown(p: P, c: char) -> P { P { log: p.log.push(EventV::Char { c }), ..p } }

pub open spec fn white(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }

/// the characters that end a name, or cannot occur in one
pub open spec fn name_char(c: char) -> bool {
    !white(c) && c != '<' && c != '>' && c != '/' && c != '"' && c != '\'' && c != '=' && c != '&' && c != ':' && c != ';'
}

pub open spec fn names(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> name_char(#[trigger] s[i]) }

pub open spec fn is_xmlns(s: Seq<char>) -> bool { s.len() == 5 && s[0] == 'x' && s[1] == 'm' && s[2] == 'l' && s[3] == 'n' && s[4] == 's' }
pub open spec fn is_xml(s: Seq<char>) -> bool { s.len() == 3 && s[0] == 'x' && s[1] == 'm' && s[2] == 'l' }

/// a name or prefix without a colon that can be written
pub open spec fn name_ok(s: Seq<char>) -> bool { s.len() > 0 && names(s) && !is_xmlns(s) }
pub open spec fn prefix_ok(s: Seq<char>) -> bool { name_ok(s) && !is_xml(s) }

/// a name is complete
pub open spec fn whole(pre: Option<Seq<char>>, buf: Seq<char>) -> bool { buf.len() > 0 }

pub open spec fn bad(p: P) -> P { P { mode: Mode::Bad, ..p } }

pub open spec fn fresh(pre: Option<Seq<char>>, buf: Seq<char>) -> LevelV {
    LevelV { local: buf, prefix: pre, default_ns: None, prefixes: Map::empty() }
}

/// inside a start tag, after its name or an attribute
pub open spec fn settle(p: P) -> P {
    match p.mode {
        Mode::Name { pre, buf } => if whole(pre, buf) { P { tag: fresh(pre, buf), attrs: Seq::empty(), mode: Mode::After, ..p } } else { bad(p) },
        Mode::After => p,
        _ => bad(p),
    }
}

/// the attribute is a declaration
pub open spec fn declares(pre: Option<Seq<char>>, buf: Seq<char>) -> bool {
    match pre { Some(x) => is_xmlns(x), None => is_xmlns(buf) }
}

/// the end of an attribute value
pub open spec fn attribute(p: P, pre: Option<Seq<char>>, buf: Seq<char>, val: Seq<char>) -> P {
    if pre is None && is_xmlns(buf) {
        if p.tag.default_ns is Some { bad(p) } else { P { tag: LevelV { default_ns: Some(val), ..p.tag }, mode: Mode::After, ..p } }
    } else if declares(pre, buf) {
        if p.tag.prefixes.contains_key(buf) || val.len() == 0 || is_xml(buf) || is_xmlns(buf) { bad(p) }
        else { P { tag: LevelV { prefixes: p.tag.prefixes.insert(buf, val), ..p.tag }, mode: Mode::After, ..p } }
    } else if exists|i: int| 0 <= i < p.attrs.len() && p.attrs[i].prefix == pre && p.attrs[i].local == buf {
        bad(p)
    } else {
        P { attrs: p.attrs.push(AttrV { prefix: pre, local: buf, value: val }), mode: Mode::After, ..p }
    }
}

/// the prefixes that are used are declared
pub open spec fn bound(stack: Seq<LevelV>, tag: LevelV, attrs: Seq<AttrV>) -> bool {
    &&& tag.prefix matches Some(x) ==> resolve(stack.push(tag), x) is Some
    &&& forall|i: int| 0 <= i < attrs.len() ==> (#[trigger] attrs[i].prefix matches Some(x) ==> resolve(stack.push(tag), x) is Some)
}

pub open spec fn in_name(pre: Option<Seq<char>>, buf: Seq<char>, c: char) -> Option<(Option<Seq<char>>, Seq<char>)> {
    if name_char(c) { Some((pre, buf.push(c))) }
    else if c == ':' && pre is None && buf.len() > 0 { Some((Some(buf), Seq::empty())) }
    else { None }
}

/// a start tag continues after its name or an attribute
pub open spec fn after(p: P, c: char) -> P {
    if white(c) { P { mode: Mode::Space, ..p } }
    else if c == '/' { P { mode: Mode::Slash, ..p } }
    else if c == '>' { if bound(p.stack, p.tag, p.attrs) { opened(p) } else { bad(p) } }
    else { bad(p) }
}

#[verifier::opaque]
pub open spec fn step(p: P, c: char) -> P {
    match p.mode {
        Mode::Bad => p,
        Mode::Content => if c == '<' { P { mode: Mode::Lt, ..p } } else if c == '&' { P { mode: Mode::TextRef { name: Seq::empty() }, ..shown(p, c) } } else { shown(p, c) },
        Mode::TextRef { name } =>
            if c == ';' { if reference(name) is Some { P { mode: Mode::Content, ..shown(p, c) } } else { bad(p) } }
            else if c == '<' || c == '"' { bad(p) }
            else { P { mode: Mode::TextRef { name: name.push(c) }, ..shown(p, c) } },
        Mode::Lt => if c == '/' { P { mode: Mode::CloseName { pre: None, buf: Seq::empty() }, ..p } }
            else if name_char(c) { P { mode: Mode::Name { pre: None, buf: seq![c] }, ..p } }
            else { bad(p) },
        Mode::Name { pre, buf } => match in_name(pre, buf, c) {
            Some(x) => P { mode: Mode::Name { pre: x.0, buf: x.1 }, ..p },
            None => if settle(p).mode is Bad { bad(p) } else { after(settle(p), c) },
        },
        Mode::Space => if name_char(c) { P { mode: Mode::AName { pre: None, buf: seq![c] }, ..p } } else { after(p, c) },
        Mode::AName { pre, buf } => match in_name(pre, buf, c) {
            Some(x) => P { mode: Mode::AName { pre: x.0, buf: x.1 }, ..p },
            None => if c == '=' && whole(pre, buf) { P { mode: Mode::AEq { pre, buf }, ..p } } else { bad(p) },
        },
        Mode::AEq { pre, buf } => if c == '"' { P { mode: Mode::AVal { pre, buf, val: Seq::empty() }, ..p } } else { bad(p) },
        Mode::AVal { pre, buf, val } =>
            if c == '"' { attribute(p, pre, buf, val) }
            else if c == '<' { bad(p) }
            else if c == '&' { P { mode: Mode::ValRef { pre, buf, val: val.push(c), name: Seq::empty() }, ..p } }
            else { P { mode: Mode::AVal { pre, buf, val: val.push(c) }, ..p } },
        Mode::ValRef { pre, buf, val, name } =>
            if c == ';' { if reference(name) is Some { P { mode: Mode::AVal { pre, buf, val: val.push(c) }, ..p } } else { bad(p) } }
            else if c == '<' || c == '"' { bad(p) }
            else { P { mode: Mode::ValRef { pre, buf, val: val.push(c), name: name.push(c) }, ..p } },
        Mode::After => after(p, c),
        Mode::Slash => if c == '>' { if bound(p.stack, p.tag, p.attrs) { emptied(p) } else { bad(p) } } else { bad(p) },
        Mode::CloseName { pre, buf } => match in_name(pre, buf, c) {
            Some(x) => P { mode: Mode::CloseName { pre: x.0, buf: x.1 }, ..p },
            None => if c == '>' && p.stack.len() > 0 && p.stack.last().prefix == pre && p.stack.last().local == buf {
                closed(p)
            } else { bad(p) },
        },
    }
}

#[verifier::opaque]
pub open spec fn feed(p: P, s: Seq<char>) -> P
    decreases s.len(),
{
    if s.len() == 0 { p } else { step(feed(p, s.drop_last()), s.last()) }
}

/// the beginning of a document
pub open spec fn nothing() -> P {
    P { stack: Seq::empty(), tag: fresh(None, Seq::empty()), attrs: Seq::empty(), mode: Mode::Content, log: Seq::empty() }
}

/// nothing that has to be escaped
pub open spec fn plain_char(c: char) -> bool { c != '<' && c != '>' && c != '"' && c != '\'' && c != '&' }
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> plain_char(#[trigger] s[i]) }

/// text without markup whose references are complete
pub open spec fn textual(s: Seq<char>) -> bool {
    dec(s) is Some && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '<' && s[i] != '"'
}

/// a namespace that can be declared
pub open spec fn uri_ok(s: Seq<char>) -> bool { plain(s) }

// ---- lemmas -------------------------------------------------------------------------------------------------------

pub broadcast proof fn feed_concat(p: P, a: Seq<char>, b: Seq<char>)
    ensures #[trigger] feed(p, a + b) == feed(feed(p, a), b),
    decreases b.len(),
{
    reveal(feed);
    reveal(step);
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        feed_concat(p, a, b.drop_last());
    }
}

pub broadcast proof fn feed_push(p: P, a: Seq<char>, c: char)
    ensures #[trigger] feed(p, a.push(c)) == step(feed(p, a), c),
{
    reveal(feed);
    reveal(step);
    assert(a.push(c).drop_last() =~= a);
}

pub broadcast proof fn feed_names(p: P, s: Seq<char>)
    requires names(s),
    ensures
        p.mode matches Mode::Name { pre, buf } ==> #[trigger] feed(p, s) == (P { mode: Mode::Name { pre, buf: buf + s }, ..p }),
        p.mode matches Mode::AName { pre, buf } ==> feed(p, s) == (P { mode: Mode::AName { pre, buf: buf + s }, ..p }),
        p.mode matches Mode::CloseName { pre, buf } ==> feed(p, s) == (P { mode: Mode::CloseName { pre, buf: buf + s }, ..p }),
        p.mode is Lt && s.len() > 0 ==> feed(p, s) == (P { mode: Mode::Name { pre: None, buf: s }, ..p }),
        p.mode is Space && s.len() > 0 ==> feed(p, s) == (P { mode: Mode::AName { pre: None, buf: s }, ..p }),
    decreases s.len(),
{
    reveal(feed);
    reveal(step);
    if s.len() == 0 {
        if let Mode::Name { pre, buf } = p.mode { assert(buf + s =~= buf); }
        if let Mode::AName { pre, buf } = p.mode { assert(buf + s =~= buf); }
        if let Mode::CloseName { pre, buf } = p.mode { assert(buf + s =~= buf); }
    } else {
        let t = s.drop_last();
        assert(names(t)) by { assert forall|i: int| 0 <= i < t.len() implies name_char(#[trigger] t[i]) by { assert(t[i] == s[i]); } }
        feed_names(p, t);
        let c = s.last();
        assert(name_char(c));
        if let Mode::Name { pre, buf } = p.mode { assert((buf + t).push(c) =~= buf + s); }
        if let Mode::AName { pre, buf } = p.mode { assert((buf + t).push(c) =~= buf + s); }
        if let Mode::CloseName { pre, buf } = p.mode { assert((buf + t).push(c) =~= buf + s); }
        assert(t.push(c) =~= s);
        if t.len() == 0 { assert(s =~= seq![c]); }
    }
}

pub broadcast proof fn feed_plain(p: P, s: Seq<char>)
    requires plain(s),
    ensures
        p.mode matches Mode::AVal { pre, buf, val } ==> #[trigger] feed(p, s) == (P { mode: Mode::AVal { pre, buf, val: val + s }, ..p }),
        p.mode is Content ==> feed(p, s) == (P { log: p.log + chars(s), ..p }),
    decreases s.len(),
{
    reveal(feed);
    reveal(step);
    if s.len() == 0 {
        if let Mode::AVal { pre, buf, val } = p.mode { assert(val + s =~= val); }
        assert(p.log + chars(s) =~= p.log);
    } else {
        let t = s.drop_last();
        assert(plain(t)) by { assert forall|i: int| 0 <= i < t.len() implies plain_char(#[trigger] t[i]) by { assert(t[i] == s[i]); } }
        feed_plain(p, t);
        assert(plain_char(s.last()));
        if let Mode::AVal { pre, buf, val } = p.mode { assert((val + t).push(s.last()) =~= val + s); }
        assert((p.log + chars(t)).push(EventV::Char { c: s.last() }) =~= p.log + chars(s));
    }
}

pub proof fn feed_ref(p: P, s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != ';' && s[i] != '<' && s[i] != '"',
    ensures
        p.mode matches Mode::TextRef { name } ==> feed(p, s) == (P { mode: Mode::TextRef { name: name + s }, log: p.log + chars(s), ..p }),
        p.mode matches Mode::ValRef { pre, buf, val, name } ==> feed(p, s) == (P { mode: Mode::ValRef { pre, buf, val: val + s, name: name + s }, ..p }),
    decreases s.len(),
{
    reveal(feed);
    reveal(step);
    if s.len() == 0 {
        if let Mode::TextRef { name } = p.mode { assert(name + s =~= name); assert(p.log + chars(s) =~= p.log); }
        if let Mode::ValRef { pre, buf, val, name } = p.mode { assert(name + s =~= name); assert(val + s =~= val); }
    } else {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != ';' && t[i] != '<' && t[i] != '"' by { assert(t[i] == s[i]); }
        feed_ref(p, t);
        let c = s.last();
        assert(c == s[s.len() - 1]);
        if let Mode::TextRef { name } = p.mode { assert((name + t).push(c) =~= name + s); assert((p.log + chars(t)).push(EventV::Char { c }) =~= p.log + chars(s)); }
        if let Mode::ValRef { pre, buf, val, name } = p.mode { assert((name + t).push(c) =~= name + s); assert((val + t).push(c) =~= val + s); }
    }
}

pub proof fn feed_reference(p: P, n: Seq<char>)
    requires
        reference(n) is Some,
        forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != ';' && n[i] != '<' && n[i] != '"',
    ensures
        p.mode matches Mode::AVal { pre, buf, val } ==> feed(p, seq!['&'] + n + seq![';']) == (P { mode: Mode::AVal { pre, buf, val: val + (seq!['&'] + n + seq![';']) }, ..p }),
        p.mode is Content ==> feed(p, seq!['&'] + n + seq![';']) == (P { log: p.log + chars(seq!['&'] + n + seq![';']), ..p }),
{
    reveal(feed);
    reveal(step);
    let (a, e) = (seq!['&'], seq![';']);
    feed_concat(p, a + n, e);
    feed_concat(p, a, n);
    assert(a.drop_last() =~= Seq::<char>::empty());
    assert(e.drop_last() =~= Seq::<char>::empty());
    let p1 = step(p, '&');
    assert(feed(p, a) == p1) by { assert(feed(p, a.drop_last()) == p); }
    feed_ref(p1, n);
    let p2 = feed(p1, n);
    assert(Seq::<char>::empty() + n =~= n);
    assert(feed(p2, e) == step(p2, ';')) by { assert(feed(p2, e.drop_last()) == p2); }
    assert((p.log.push(EventV::Char { c: '&' }) + chars(n)).push(EventV::Char { c: ';' }) =~= p.log + chars(a + n + e));
    if let Mode::AVal { pre, buf, val } = p.mode {
        assert((val.push('&') + n).push(';') =~= val + (a + n + e));
    }
}

#[verifier::rlimit(60)]
pub broadcast proof fn feed_textual(p: P, s: Seq<char>)
    requires textual(s),
    ensures
        p.mode matches Mode::AVal { pre, buf, val } ==> #[trigger] feed(p, s) == (P { mode: Mode::AVal { pre, buf, val: val + s }, ..p }),
        p.mode is Content ==> feed(p, s) == (P { log: p.log + chars(s), ..p }),
    decreases s.len(),
{
    reveal(feed);
    reveal(step);
    if s.len() == 0 {
        if let Mode::AVal { pre, buf, val } = p.mode { assert(val + s =~= val); }
        assert(p.log + chars(s) =~= p.log);
    } else if s[0] != '&' {
        let (a, t) = (seq![s[0]], s.drop_first());
        assert(s =~= a + t);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '<' && t[i] != '"' by { assert(t[i] == s[i + 1]); }
        feed_concat(p, a, t);
        assert(a.drop_last() =~= Seq::<char>::empty());
        assert(feed(p, a) == step(p, s[0])) by { assert(feed(p, a.drop_last()) == p); }
        feed_textual(step(p, s[0]), t);
        assert(p.log.push(EventV::Char { c: s[0] }) + chars(t) =~= p.log + chars(s));
        if let Mode::AVal { pre, buf, val } = p.mode {
            if s[0] == '"' { } else { assert(val.push(s[0]) + t =~= val + s); }
        }
    } else {
        let j = first(s, ';');
        first_bounds(s, ';');
        let (n, t) = (s.subrange(1, j), s.subrange(j + 1, s.len() as int));
        assert(s[j] == ';');
        let r = seq!['&'] + n + seq![';'];
        assert(s =~= r + t);
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != '<' && t[i] != '"' by { assert(t[i] == s[i + j + 1]); }
        assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] != ';' && n[i] != '<' && n[i] != '"' by { assert(n[i] == s[i + 1]); }
        feed_concat(p, r, t);
        feed_reference(p, n);
        feed_textual(feed(p, r), t);
        assert((p.log + chars(r)) + chars(t) =~= p.log + chars(s));
        if let Mode::AVal { pre, buf, val } = p.mode {
            assert((val + r) + t =~= val + s);
        }
    }
}

/// the steps of well-formed markup
pub broadcast proof fn steps(p: P, c: char)
    ensures
        p.mode is Content && c == '<' ==> #[trigger] step(p, c) == (P { mode: Mode::Lt, ..p }),
        p.mode is Lt && c == '/' ==> step(p, c) == (P { mode: Mode::CloseName { pre: None, buf: Seq::empty() }, ..p }),
        p.mode matches Mode::Name { pre, buf } ==> (c == ':' && pre is None && buf.len() > 0 ==> step(p, c) == (P { mode: Mode::Name { pre: Some(buf), buf: Seq::empty() }, ..p })),
        settle(p).mode is After && c == ' ' ==> step(p, c) == (P { mode: Mode::Space, ..settle(p) }),
        settle(p).mode is After && c == '/' ==> step(p, c) == (P { mode: Mode::Slash, ..settle(p) }),
        settle(p).mode is After && c == '>' && bound(settle(p).stack, settle(p).tag, settle(p).attrs) ==> step(p, c) == opened(settle(p)),
        p.mode is Space && name_char(c) ==> step(p, c) == (P { mode: Mode::AName { pre: None, buf: seq![c] }, ..p }),
        p.mode is Space && c == ' ' ==> step(p, c) == p,
        p.mode is Space && c == '/' ==> step(p, c) == (P { mode: Mode::Slash, ..p }),
        p.mode is Space && c == '>' && bound(p.stack, p.tag, p.attrs) ==> step(p, c) == opened(p),
        p.mode matches Mode::AName { pre, buf } ==> (name_char(c) ==> step(p, c) == (P { mode: Mode::AName { pre, buf: buf.push(c) }, ..p })),
        p.mode matches Mode::AName { pre, buf } ==> (c == ':' && pre is None && buf.len() > 0 ==> step(p, c) == (P { mode: Mode::AName { pre: Some(buf), buf: Seq::empty() }, ..p })),
        p.mode matches Mode::AName { pre, buf } ==> (c == '=' && buf.len() > 0 ==> step(p, c) == (P { mode: Mode::AEq { pre, buf }, ..p })),
        p.mode matches Mode::AEq { pre, buf } ==> (c == '"' ==> step(p, c) == (P { mode: Mode::AVal { pre, buf, val: Seq::empty() }, ..p })),
        p.mode matches Mode::AVal { pre, buf, val } ==> (c == '"' ==> step(p, c) == attribute(p, pre, buf, val)),
        p.mode is Slash && c == '>' && bound(p.stack, p.tag, p.attrs) ==> step(p, c) == emptied(p),
        p.mode matches Mode::CloseName { pre, buf } ==> (c == ':' && pre is None && buf.len() > 0 ==> step(p, c) == (P { mode: Mode::CloseName { pre: Some(buf), buf: Seq::empty() }, ..p })),
        p.mode matches Mode::CloseName { pre, buf } ==> (c == '>' && p.stack.len() > 0 && p.stack.last().prefix == pre && p.stack.last().local == buf
            ==> step(p, c) == closed(p)),
{
    reveal(step);
}

pub broadcast proof fn empty_add(s: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + s) == s,
{
    assert(Seq::<char>::empty() + s =~= s);
}

pub broadcast proof fn binding_push(stack: Seq<LevelV>, t: LevelV, p: Seq<char>)
    ensures #[trigger] binding(stack.push(t), p) == (if t.prefixes.contains_key(p) { Some(t.prefixes[p]) } else { binding(stack, p) }),
{
    assert(stack.push(t).drop_last() =~= stack);
}

pub broadcast proof fn default_push(stack: Seq<LevelV>, t: LevelV)
    ensures #[trigger] default_of(stack.push(t)) == (match t.default_ns { Some(d) => d, None => default_of(stack) }),
{
    assert(stack.push(t).drop_last() =~= stack);
}

pub broadcast group feeding { steps, feed_concat, feed_push, feed_names, feed_plain, feed_textual }

/// a table without some keys
pub open spec fn minus(t: Map<Seq<char>, Seq<char>>, s: Seq<Seq<char>>) -> Map<Seq<char>, Seq<char>>
    decreases s.len(),
{
    if s.len() == 0 { t } else { minus(t, s.drop_last()).remove(s.last()) }
}

pub broadcast proof fn minus_is(t: Map<Seq<char>, Seq<char>>, s: Seq<Seq<char>>)
    ensures
        forall|k: Seq<char>| #[trigger] minus(t, s).contains_key(k) <==> t.contains_key(k) && !s.contains(k),
        forall|k: Seq<char>| minus(t, s).contains_key(k) ==> #[trigger] minus(t, s)[k] == t[k],
        #[trigger] minus(t, s).dom().subset_of(t.dom()),
    decreases s.len(),
{
    if s.len() > 0 {
        minus_is(t, s.drop_last());
        assert forall|k: Seq<char>| s.contains(k) <==> s.drop_last().contains(k) || k == s.last() by {
            if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; if i < s.len() - 1 { assert(s.drop_last()[i] == k); } }
            if s.drop_last().contains(k) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_last()[i] == k; assert(s[i] == k); }
            if k == s.last() { assert(s[s.len() - 1] == k); }
        }
    }
}

/// an entry that was not there, taken back
pub proof fn minus_added(t: Map<Seq<char>, Seq<char>>, s: Seq<Seq<char>>, k: Seq<char>, v: Seq<char>)
    requires !t.contains_key(k),
    ensures minus(t.insert(k, v), s.push(k)) == minus(t, s),
{
    minus_is(t, s);
    minus_is(t.insert(k, v), s.push(k));
    assert forall|x: Seq<char>| s.push(k).contains(x) <==> s.contains(x) || x == k by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(k)[i] == x); }
        assert(s.push(k)[s.len() as int] == k);
        if s.push(k).contains(x) { let i = choose|i: int| 0 <= i < s.len() + 1 && s.push(k)[i] == x; if i < s.len() { assert(s[i] == x); } }
    }
    assert(minus(t.insert(k, v), s.push(k)) =~= minus(t, s));
}

pub proof fn minus_first(t: Map<Seq<char>, Seq<char>>, s: Seq<Seq<char>>)
    requires s.len() > 0,
    ensures minus(t.remove(s[0]), s.drop_first()) == minus(t, s),
{
    minus_is(t, s);
    minus_is(t.remove(s[0]), s.drop_first());
    assert forall|x: Seq<char>| s.contains(x) <==> s.drop_first().contains(x) || x == s[0] by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(s.drop_first()[i - 1] == x); } }
        if s.drop_first().contains(x) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_first()[i] == x; assert(s[i + 1] == x); }
    }
    assert(minus(t.remove(s[0]), s.drop_first()) =~= minus(t, s));
}

/// the prefixes of a table are bound to its namespaces
pub open spec fn table_ok(t: Map<Seq<char>, Seq<char>>, stack: Seq<LevelV>) -> bool {
    forall|ns: Seq<char>| #[trigger] t.contains_key(ns) ==> ns.len() > 0 && prefix_ok(t[ns]) && binding(stack, t[ns]) == Some(ns)
}

} // verus!
