//@include refspec.inc
//@include names.inc
verus! {

// ---- the tokenizer (xmlparser 0.13): trusted ---------------------------------------------------------------------
//
// Declarations of its types; the tokens that are still to come are a sequence that next() takes the first of.

#[verifier::external_body]
pub struct StrSpan<'a> { text: &'a str }

impl View for StrSpan<'_> {
    type V = Seq<char>;
    uninterp spec fn view(&self) -> Seq<char>;
}

impl<'a> StrSpan<'a> {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str)
        ensures r@ == self@,
    {
        self.text
    }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    {
        self.text.is_empty()
    }
}

pub enum ExternalId<'a> { System(StrSpan<'a>), Public(StrSpan<'a>, StrSpan<'a>) }

pub enum EntityDefinition<'a> { EntityValue(StrSpan<'a>), ExternalId(ExternalId<'a>) }

pub enum ElementEnd<'a> { Open, Close(StrSpan<'a>, StrSpan<'a>), Empty }

pub enum Token<'a> {
    Declaration { version: StrSpan<'a>, encoding: Option<StrSpan<'a>>, standalone: Option<bool>, span: StrSpan<'a> },
    ProcessingInstruction { target: StrSpan<'a>, content: Option<StrSpan<'a>>, span: StrSpan<'a> },
    Comment { text: StrSpan<'a>, span: StrSpan<'a> },
    DtdStart { name: StrSpan<'a>, external_id: Option<ExternalId<'a>>, span: StrSpan<'a> },
    EmptyDtd { name: StrSpan<'a>, external_id: Option<ExternalId<'a>>, span: StrSpan<'a> },
    EntityDeclaration { name: StrSpan<'a>, definition: EntityDefinition<'a>, span: StrSpan<'a> },
    DtdEnd { span: StrSpan<'a> },
    ElementStart { prefix: StrSpan<'a>, local: StrSpan<'a>, span: StrSpan<'a> },
    Attribute { prefix: StrSpan<'a>, local: StrSpan<'a>, value: StrSpan<'a>, span: StrSpan<'a> },
    ElementEnd { end: ElementEnd<'a>, span: StrSpan<'a> },
    Text { text: StrSpan<'a> },
    Cdata { text: StrSpan<'a>, span: StrSpan<'a> },
}

#[verifier::external_body]
pub struct ParseError { e: String }

#[verifier::external_body]
pub struct Tokenizer<'a> { s: &'a str }

pub type TokR<'a> = Result<Token<'a>, ParseError>;

/// the tokens of a document
pub uninterp spec fn tokens<'a>(input: Seq<char>) -> Seq<TokR<'a>>;

impl<'a> Tokenizer<'a> {
    pub uninterp spec fn rest(&self) -> Seq<TokR<'a>>;

    #[verifier::external_body]
    pub fn from(s: &'a str) -> (r: Tokenizer<'a>)
        ensures r.rest() == tokens::<'a>(s@),
    {
        Tokenizer { s }
    }

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<TokR<'a>>)
        ensures
            r is None <==> old(self).rest().len() == 0,
            r is None ==> final(self).rest() == old(self).rest(),
            r matches Some(t) ==> t == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
    {
        unimplemented!()
    }
}

/// BTreeMap<&str, &str>: trusted
#[verifier::external_body]
pub struct NsMap<'a> { m: std::collections::BTreeMap<&'a str, &'a str> }

impl View for NsMap<'_> {
    type V = Map<Seq<char>, Seq<char>>;
    uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
}

impl<'a> NsMap<'a> {
    #[verifier::external_body]
    pub fn new() -> (r: NsMap<'a>)
        ensures r@ == Map::<Seq<char>, Seq<char>>::empty(),
    {
        NsMap { m: std::collections::BTreeMap::new() }
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len(),
    {
        self.m.len()
    }

    #[verifier::external_body]
    pub fn insert(&mut self, k: &'a str, v: &'a str) -> (r: Option<&'a str>)
        ensures final(self)@ == old(self)@.insert(k@, v@),
    {
        self.m.insert(k, v)
    }

    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&&'a str>)
        ensures
            r is Some <==> self@.contains_key(k@),
            r matches Some(v) ==> v@ == self@[k@],
    {
        self.m.get(k)
    }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool)
        ensures r == self@.contains_key(k@),
    {
        self.m.contains_key(k)
    }
}

// ---- abstract values --------------------------------------------------------------------------------------------

pub ghost struct CowV { pub text: Seq<char>, pub borrowed: bool }

pub open spec fn cowv(c: Cow<'_, str>) -> CowV {
    match c { Cow::Borrowed(s) => CowV { text: s@, borrowed: true }, Cow::Owned(s) => CowV { text: s@, borrowed: false } }
}

/// the concatenation, which shares the input where one side is empty
pub open spec fn join(a: CowV, b: CowV) -> CowV {
    if a.text.len() == 0 { b } else if b.text.len() == 0 { a } else { CowV { text: a.text + b.text, borrowed: false } }
}

pub ghost enum NodeV {
    Attribute { prefix: Option<Seq<char>>, local: Seq<char>, value: CowV },
    AttributeValue(CowV),
    Close { prefix: Option<Seq<char>>, local: Seq<char> },
    Text(CowV),
    Open(ElementV),
}

pub ghost enum ErrV { Limit, Eof, State, Token, Entity, Parse, Duplicate, Missing, Value, Other }

pub ghost enum Out { End, Node(NodeV), Err(ErrV) }

/// what a reader still has in front of it
pub ghost struct S<'a> {
    pub stack: Seq<LevelV>,
    pub records: Seq<NodeV>,
    pub pend: Seq<TokR<'a>>,
    pub limits: Limits,
}

/// `Cow += Cow` and `Cow += &str` (std: an empty side leaves the other one as it is)
pub trait CowPiece { spec fn piece(&self) -> CowV; }
impl CowPiece for Cow<'_, str> { open spec fn piece(&self) -> CowV { cowv(*self) } }
impl CowPiece for &str { open spec fn piece(&self) -> CowV { CowV { text: self@, borrowed: true } } }

#[verifier::external_body]
pub fn vx_cow_append<T: CowPiece>(c: &mut Cow<'_, str>, x: T)
    ensures cowv(*final(c)) == join(cowv(*old(c)), x.piece()),
{
    unimplemented!()
}

// ---- decoding: proved in the unit `decode` ----------------------------------------------------------------------

pub open spec fn decoded(s: Seq<char>) -> Option<CowV> {
    match dec(s) { Some(t) => Some(CowV { text: t, borrowed: !s.contains('&') }), None => None }
}

// ---- specification: one step of the reader ------------------------------------------------------------------------

/// the text that follows directly: pieces of text and CDATA sections, across comments. None: a piece cannot be decoded
pub open spec fn run<'a>(acc: CowV, pend: Seq<TokR<'a>>) -> (Option<CowV>, Seq<TokR<'a>>)
    decreases pend.len(),
{
    if pend.len() == 0 { (Some(acc), pend) } else {
        match pend[0] {
            Ok(Token::Text { text }) => match decoded(text@) {
                Some(t) => run(join(acc, t), pend.drop_first()),
                None => (None, pend.drop_first()),
            },
            Ok(Token::Cdata { text, .. }) => run(join(acc, CowV { text: text@, borrowed: true }), pend.drop_first()),
            Ok(Token::Comment { .. }) => run(acc, pend.drop_first()),
            _ => (Some(acc), pend),
        }
    }
}

pub open spec fn top_with<'a>(s: S<'a>, l: LevelV) -> S<'a> {
    S { stack: s.stack.update(s.stack.len() - 1, l), ..s }
}

/// reads tokens up to the next node
pub open spec fn scan<'a>(s: S<'a>) -> (Out, S<'a>)
    decreases s.pend.len(),
{
    if s.pend.len() == 0 { (Out::End, s) } else {
        let s1 = S { pend: s.pend.drop_first(), ..s };
        let top = s.stack.last();
        match s.pend[0] {
            Ok(Token::ElementStart { prefix, local, .. }) =>
                if s.stack.len() >= s.limits.max_levels { (Out::Err(ErrV::Limit), s1) } else {
                    scan(S { stack: s.stack.push(LevelV { local: local@, prefix: nonempty(prefix@), default_ns: None, prefixes: Map::empty() }), ..s1 })
                },
            Ok(Token::ElementEnd { end, .. }) =>
                if s.stack.len() == 0 { (Out::Err(ErrV::State), s1) } else {
                    match end {
                        ElementEnd::Open => (Out::Node(NodeV::Open(element_of(top))), s1),
                        ElementEnd::Empty => (Out::Node(NodeV::Open(element_of(top))), S { records: s.records.push(NodeV::Close { prefix: top.prefix, local: top.local }), ..s1 }),
                        ElementEnd::Close(prefix, local) => (
                            if local@ == top.local && nonempty(prefix@) == top.prefix { Out::Node(NodeV::Close { prefix: top.prefix, local: top.local }) } else { Out::Err(ErrV::State) },
                            S { stack: s.stack.drop_last(), ..s1 },
                        ),
                    }
                },
            Ok(Token::Attribute { prefix, local, value, .. }) =>
                if prefix@.len() == 0 && local@ == "xmlns"@ {
                    if s.stack.len() == 0 { (Out::Err(ErrV::State), s1) } else { scan(top_with(s1, LevelV { default_ns: Some(value@), ..top })) }
                } else if prefix@ == "xmlns"@ {
                    if s.stack.len() == 0 { (Out::Err(ErrV::State), s1) }
                    else if top.prefixes.dom().len() >= s.limits.max_ns_declarations { (Out::Err(ErrV::Limit), s1) }
                    else { scan(top_with(s1, LevelV { prefixes: top.prefixes.insert(local@, value@), ..top })) }
                } else if s.records.len() >= s.limits.max_attributes { (Out::Err(ErrV::Limit), s1) } else {
                    match decoded(value@) {
                        None => (Out::Err(ErrV::Entity), s1),
                        Some(v) => scan(S { records: s.records.push(NodeV::Attribute { prefix: nonempty(prefix@), local: local@, value: v }), ..s1 }),
                    }
                },
            Ok(Token::Text { text }) => match decoded(text@) {
                None => (Out::Err(ErrV::Entity), s1),
                Some(t) => text_out(run(t, s1.pend), s1),
            },
            Ok(Token::Cdata { text, .. }) => text_out(run(CowV { text: text@, borrowed: true }, s1.pend), s1),
            Ok(Token::Comment { .. }) => scan(s1),
            Ok(Token::Declaration { .. }) => if s.stack.len() == 0 { scan(s1) } else { (Out::Err(ErrV::Token), s1) },
            Ok(_) => (Out::Err(ErrV::Token), s1),
            Err(_) => (Out::Err(ErrV::Parse), s1),
        }
    }
}

pub open spec fn text_out<'a>(r: (Option<CowV>, Seq<TokR<'a>>), s: S<'a>) -> (Out, S<'a>) {
    (match r.0 { Some(t) => Out::Node(NodeV::Text(t)), None => Out::Err(ErrV::Entity) }, S { pend: r.1, ..s })
}

pub open spec fn go<'a>(s: S<'a>) -> (Out, S<'a>) {
    if s.records.len() > 0 {
        let n = s.records[0];
        (Out::Node(n), S { records: s.records.drop_first(), stack: if n is Close && s.stack.len() > 0 { s.stack.drop_last() } else { s.stack }, ..s })
    } else {
        scan(s)
    }
}

} // verus!
verus! {

// ---- specification: a reader of one element ------------------------------------------------------------------------

pub ghost struct D<'a> {
    pub parent: ElementV,
    pub level: int,
    pub done: bool,
    pub first: Option<NodeV>,
    pub s: S<'a>,
}

pub open spec fn left(s: S) -> int { 2 * s.pend.len() as int + s.records.len() as int }
pub open spec fn left_d(d: D) -> int { left(d.s) + if d.first is Some { 1int } else { 0 } }

pub open spec fn next_of<'a>(d: D<'a>) -> (Out, D<'a>) {
    if d.first is Some {
        (Out::Node(d.first->0), D { first: None, ..d })
    } else if d.done {
        (Out::End, d)
    } else {
        let (o, s) = go(d.s);
        match o {
            Out::Node(NodeV::Close { prefix, local }) =>
                if s.stack.len() + 1 == d.level && local == d.parent.local && prefix == d.parent.prefix { (Out::End, D { done: true, s, ..d }) }
                else { (Out::Err(ErrV::State), D { s, ..d }) },
            Out::End => (Out::Err(ErrV::Eof), D { s, ..d }),
            o => (o, D { s, ..d }),
        }
    }
}

/// the first text or attribute value, before the end of the element
pub open spec fn take<'a>(d: D<'a>) -> (Result<Option<CowV>, ErrV>, D<'a>)
    decreases left_d(d) when left_d(d) >= 0 via take_decreases
{
    let (o, d1) = next_of(d);
    match o {
        Out::Node(NodeV::AttributeValue(v)) => (Ok(Some(v)), d1),
        Out::Node(NodeV::Text(v)) => (Ok(Some(v)), d1),
        Out::Node(NodeV::Attribute { .. }) => take(d1),
        Out::Node(_) => (Err(ErrV::Other), d1),
        Out::Err(e) => (Err(e), d1),
        Out::End => (Ok(None), d1),
    }
}

#[via_fn]
proof fn take_decreases<'a>(d: D<'a>) {
    next_decreases(d);
}

pub proof fn run_decreases<'a>(acc: CowV, pend: Seq<TokR<'a>>)
    ensures run(acc, pend).1.len() <= pend.len(),
    decreases pend.len(),
{
    if pend.len() > 0 {
        match pend[0] {
            Ok(Token::Text { text }) => { if let Some(t) = decoded(text@) { run_decreases(join(acc, t), pend.drop_first()); } }
            Ok(Token::Cdata { text, .. }) => { run_decreases(join(acc, CowV { text: text@, borrowed: true }), pend.drop_first()); }
            Ok(Token::Comment { .. }) => { run_decreases(acc, pend.drop_first()); }
            _ => {}
        }
    }
}

pub proof fn scan_decreases<'a>(s: S<'a>)
    ensures
        left(scan(s).1) <= left(s),
        scan(s).0 != Out::End ==> left(scan(s).1) < left(s),
        scan(s).0 == Out::End ==> scan(s).1.pend.len() == 0,
    decreases s.pend.len(),
{
    if s.pend.len() > 0 {
        let s1 = S { pend: s.pend.drop_first(), ..s };
        let top = s.stack.last();
        match s.pend[0] {
            Ok(Token::ElementStart { prefix, local, .. }) => {
                scan_decreases(S { stack: s.stack.push(LevelV { local: local@, prefix: nonempty(prefix@), default_ns: None, prefixes: Map::empty() }), ..s1 });
            }
            Ok(Token::Attribute { prefix, local, value, .. }) => {
                scan_decreases(top_with(s1, LevelV { default_ns: Some(value@), ..top }));
                scan_decreases(top_with(s1, LevelV { prefixes: top.prefixes.insert(local@, value@), ..top }));
                if let Some(v) = decoded(value@) {
                    scan_decreases(S { records: s.records.push(NodeV::Attribute { prefix: nonempty(prefix@), local: local@, value: v }), ..s1 });
                }
            }
            Ok(Token::Text { text }) => { if let Some(t) = decoded(text@) { run_decreases(t, s1.pend); } }
            Ok(Token::Cdata { text, .. }) => { run_decreases(CowV { text: text@, borrowed: true }, s1.pend); }
            _ => { scan_decreases(s1); }
        }
    }
}

pub proof fn go_decreases<'a>(s: S<'a>)
    ensures
        left(go(s).1) <= left(s),
        go(s).0 != Out::End ==> left(go(s).1) < left(s),
{
    scan_decreases(s);
}

pub proof fn next_decreases<'a>(d: D<'a>)
    ensures
        left_d(next_of(d).1) <= left_d(d),
        next_of(d).0 is Node ==> left_d(next_of(d).1) < left_d(d),
{
    go_decreases(d.s);
}

/// all nodes up to the end of the element at level `k`
pub open spec fn drain<'a>(s: S<'a>, k: int) -> (Option<ErrV>, S<'a>)
    decreases left(s) when left(s) >= 0 via drain_decreases
{
    let (o, s1) = go(s);
    match o {
        Out::Node(NodeV::Close { .. }) => if s1.stack.len() + 1 == k { (None, s1) } else { drain(s1, k) },
        Out::Node(_) => drain(s1, k),
        Out::Err(e) => (Some(e), s1),
        Out::End => (Some(ErrV::Eof), s1),
    }
}

#[via_fn]
proof fn drain_decreases<'a>(s: S<'a>, k: int) {
    go_decreases(s);
}

} // verus!
