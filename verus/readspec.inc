pub open spec fn err(e: Error) -> ErrV {
    match e {
        Error::Other(_) => ErrV::Limit,
        Error::UnexpectedEndOfStream => ErrV::Eof,
        Error::UnexpectedState(_) => ErrV::State,
        Error::UnexpectedToken(_) => ErrV::Token,
        Error::InvalidEntity(_) => ErrV::Entity,
        Error::Parse(_) => ErrV::Parse,
        Error::DuplicateValue(_) => ErrV::Duplicate,
        Error::MissingValue(_) => ErrV::Missing,
        Error::UnexpectedValue(_) => ErrV::Value,
        _ => ErrV::Other,
    }
}

pub open spec fn elementv(e: Element) -> ElementV {
    ElementV { local: e.local@, default_ns: opt(e.default_ns), prefix: opt(e.prefix) }
}

pub open spec fn lv(l: Level) -> LevelV {
    LevelV { local: l.local@, prefix: opt(l.prefix), default_ns: opt(l.default_ns), prefixes: l.prefixes@ }
}

pub open spec fn nodev(n: Node) -> NodeV {
    match n {
        Node::Attribute(a) => NodeV::Attribute { prefix: opt(a.prefix), local: a.local@, value: cowv(a.value) },
        Node::AttributeValue(v) => NodeV::AttributeValue(cowv(v)),
        Node::Close { prefix, local } => NodeV::Close { prefix: opt(prefix), local: local@ },
        Node::Text(t) => NodeV::Text(cowv(t)),
        Node::Open(e) => NodeV::Open(elementv(e)),
    }
}

pub open spec fn stack_of(s: Seq<Level>) -> Seq<LevelV> { s.map_values(|l: Level| lv(l)) }
pub open spec fn nodes_of(s: Seq<Node>) -> Seq<NodeV> { s.map_values(|n: Node| nodev(n)) }

pub open spec fn outcome(r: Option<Result<Node, Error>>) -> Out {
    match r { None => Out::End, Some(Ok(n)) => Out::Node(nodev(n)), Some(Err(e)) => Out::Err(err(e)) }
}

pub open spec fn pending<'a>(peeked: Option<TokR<'a>>, rest: Seq<TokR<'a>>) -> Seq<TokR<'a>> {
    match peeked { Some(t) => seq![t] + rest, None => rest }
}

pub broadcast proof fn stack_push(s: Seq<Level>, l: Level)
    ensures #[trigger] stack_of(s.push(l)) == stack_of(s).push(lv(l)),
{
    assert(stack_of(s.push(l)) =~= stack_of(s).push(lv(l)));
}

pub broadcast proof fn stack_update(s: Seq<Level>, i: int, l: Level)
    requires 0 <= i < s.len(),
    ensures #[trigger] stack_of(s.update(i, l)) == stack_of(s).update(i, lv(l)),
{
    assert(stack_of(s.update(i, l)) =~= stack_of(s).update(i, lv(l)));
}

pub broadcast proof fn stack_subrange(s: Seq<Level>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures #[trigger] stack_of(s.subrange(i, j)) == stack_of(s).subrange(i, j),
{
    assert(stack_of(s.subrange(i, j)) =~= stack_of(s).subrange(i, j));
}

pub broadcast proof fn update_same(s: Seq<Level>, i: int, l: Level)
    requires 0 <= i < s.len(), s[i] == l,
    ensures #[trigger] s.update(i, l) == s,
{
    assert(s.update(i, l) =~= s);
}

pub broadcast proof fn stack_empty(s: Seq<Level>)
    requires s.len() == 0,
    ensures #[trigger] stack_of(s) == Seq::<LevelV>::empty(),
{
    assert(stack_of(s) =~= Seq::<LevelV>::empty());
}

pub broadcast proof fn nodes_empty(s: Seq<Node>)
    requires s.len() == 0,
    ensures #[trigger] nodes_of(s) == Seq::<NodeV>::empty(),
{
    assert(nodes_of(s) =~= Seq::<NodeV>::empty());
}

pub broadcast proof fn nodes_push(s: Seq<Node>, n: Node)
    ensures #[trigger] nodes_of(s.push(n)) == nodes_of(s).push(nodev(n)),
{
    assert(nodes_of(s.push(n)) =~= nodes_of(s).push(nodev(n)));
}

pub broadcast proof fn nodes_subrange(s: Seq<Node>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures #[trigger] nodes_of(s.subrange(i, j)) == nodes_of(s).subrange(i, j),
{
    assert(nodes_of(s.subrange(i, j)) =~= nodes_of(s).subrange(i, j));
}

pub broadcast proof fn pending_next<'a>(t: TokR<'a>, rest: Seq<TokR<'a>>)
    ensures #[trigger] pending(Some(t), rest) == seq![t] + rest, (seq![t] + rest).drop_first() == rest, (seq![t] + rest)[0] == t,
{
    assert((seq![t] + rest).drop_first() =~= rest);
}

pub broadcast group views { stack_push, stack_update, stack_subrange, update_same, stack_empty, nodes_empty, nodes_push, nodes_subrange, pending_next }

impl<'xml> Context<'xml> {
    pub open spec fn st(&self) -> S<'xml> {
        S { stack: stack_of(self.stack@), records: nodes_of(self.records@), pend: pending(self.peeked, self.parser.rest()), limits: self.limits }
    }
}

pub open spec fn idv(i: Id) -> IdV { IdV { ns: i.ns@, name: i.name@ } }

#[verifier::external_body]
pub fn decode(input: &str) -> (r: Result<Cow<'_, str>, Error>)
    ensures
        r is Ok <==> decoded(input@) is Some,
        r matches Ok(c) ==> cowv(c) == decoded(input@)->0,
        r matches Err(e) ==> err(e) == ErrV::Entity,
{
    unimplemented!()
}

pub open spec fn start<'a>(input: Seq<char>, limits: Limits) -> S<'a> {
    S { stack: Seq::empty(), records: Seq::empty(), pend: tokens::<'a>(input), limits }
}

/// the documented limits
pub open spec fn defaults() -> Limits { Limits { max_attributes: 64, max_levels: 32, max_ns_declarations: 32 } }

