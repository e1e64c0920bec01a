verus! {

pub open spec fn opt(o: Option<&str>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}

pub open spec fn or_empty(o: Option<Seq<char>>) -> Seq<char> {
    match o { Some(s) => s, None => ""@ }
}

/// a name that is missing if it is empty
pub open spec fn nonempty(s: Seq<char>) -> Option<Seq<char>> {
    if s.len() == 0 { None } else { Some(s) }
}

pub ghost struct ElementV { pub local: Seq<char>, pub default_ns: Option<Seq<char>>, pub prefix: Option<Seq<char>> }

pub ghost struct LevelV { pub local: Seq<char>, pub prefix: Option<Seq<char>>, pub default_ns: Option<Seq<char>>, pub prefixes: Map<Seq<char>, Seq<char>> }

pub open spec fn element_of(l: LevelV) -> ElementV {
    ElementV { local: l.local, default_ns: l.default_ns, prefix: l.prefix }
}

// ---- specification: namespaces ------------------------------------------------------------------------------------

/// the innermost declaration of a prefix
pub open spec fn binding(stack: Seq<LevelV>, prefix: Seq<char>) -> Option<Seq<char>>
    decreases stack.len(),
{
    if stack.len() == 0 { None }
    else if stack.last().prefixes.contains_key(prefix) { Some(stack.last().prefixes[prefix]) }
    else { binding(stack.drop_last(), prefix) }
}

pub open spec fn resolve(stack: Seq<LevelV>, prefix: Seq<char>) -> Option<Seq<char>> {
    if prefix == "xml"@ { Some("http://www.w3.org/XML/1998/namespace"@) } else { binding(stack, prefix) }
}

/// the innermost default namespace
pub open spec fn default_of(stack: Seq<LevelV>) -> Seq<char>
    decreases stack.len(),
{
    if stack.len() == 0 { ""@ }
    else if stack.last().default_ns is Some { stack.last().default_ns->0 }
    else { default_of(stack.drop_last()) }
}

pub ghost struct IdV { pub ns: Seq<char>, pub name: Seq<char> }

/// the name of an element; the default namespace that it declares itself is kept with it
pub open spec fn element_name(stack: Seq<LevelV>, e: ElementV) -> Option<IdV> {
    match e.prefix {
        Some(p) => match resolve(stack, p) { Some(ns) => Some(IdV { ns, name: e.local }), None => None },
        None => Some(IdV { ns: match e.default_ns { Some(ns) => ns, None => default_of(stack) }, name: e.local }),
    }
}

pub open spec fn attribute_name(stack: Seq<LevelV>, prefix: Option<Seq<char>>, local: Seq<char>) -> Option<IdV> {
    match prefix {
        Some(p) => match resolve(stack, p) { Some(ns) => Some(IdV { ns, name: local }), None => None },
        None => Some(IdV { ns: ""@, name: local }),
    }
}

} // verus!
