
// ---- the standard library -----------------------------------------------------------------------------------------

impl Display for Cow<'_, str> {
    open spec fn shown(&self) -> Seq<char> { cow(*self) }
}

impl Display for String {
    open spec fn shown(&self) -> Seq<char> { self@ }
}

/// the text of a number, an address or a date and time
pub uninterp spec fn machine<T>(x: T) -> Seq<char>;

/// it has no characters that have to be escaped
#[verifier::external_body]
pub broadcast proof fn axiom_machine<T>(x: T)
    ensures plain(#[trigger] machine(x)),
{
}

impl Display for i8 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for i16 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for i32 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for i64 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for isize { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for u8 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for u16 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for u32 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for u64 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for usize { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for f32 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }
impl Display for f64 { open spec fn shown(&self) -> Seq<char> { machine(*self) } }

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIpAddr(std::net::IpAddr);
use std::net::IpAddr;
impl Display for IpAddr { open spec fn shown(&self) -> Seq<char> { machine(*self) } }

pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref] (b: &std::boxed::Box<T, A>) -> (r: &T)
    ensures r == &**b;

/// what a Cow refers to
pub uninterp spec fn cow_ref<'a, B: ?Sized + ToOwned>(c: &Cow<'a, B>) -> &'a B;

#[verifier::external_body]
pub broadcast proof fn axiom_cow_ref(c: &Cow<'_, str>)
    ensures (#[trigger] cow_ref::<str>(c))@ == cow(*c),
{
}

pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [<Cow<'a, B> as std::ops::Deref>::deref] (c: &'b Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_ref(c);

pub assume_specification<'a, 'b, T: ?Sized + ToOwned> [<Cow<'a, T> as std::convert::AsRef<T>>::as_ref] (c: &'b Cow<'a, T>) -> (r: &'b T)
    ensures r == cow_ref(c);

/// chrono
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct DateTime<T> { t: T }
#[verifier::external_body]
pub struct Utc;
#[verifier::external_body]
pub struct NaiveDateTime;
#[verifier::external_body]
pub struct NaiveDate;
/// the format that is written, with digits and punctuation only
#[verifier::external_body]
pub struct DelayedFormat;
impl DateTime<Utc> {
    #[verifier::external_body]
    pub fn to_rfc3339(&self) -> (r: String)
        ensures r@ == machine(*self),
    { unimplemented!() }
}
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn format(&self, f: &str) -> (r: DelayedFormat)
        ensures f@ == "%Y-%m-%dT%H:%M:%S%.f"@ ==> r.shown() == machine(*self),
    { unimplemented!() }
}
impl Display for DelayedFormat { uninterp spec fn shown(&self) -> Seq<char>; }
impl Display for NaiveDate { open spec fn shown(&self) -> Seq<char> { machine(*self) } }

impl Write for String {
    open spec fn accepted(&self) -> Seq<char> { self@ }
    open spec fn broken(&self) -> bool { false }
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) { unimplemented!() }
    #[verifier::external_body]
    fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>) { unimplemented!() }
}

/// char::encode_utf8
#[verifier::external_body]
pub fn vx_encode_utf8<'a>(c: &char, b: &'a mut [u8; 4]) -> (r: &'a str)
    ensures r@ == seq![*c],
{
    c.encode_utf8(b)
}

// ---- lemmas -------------------------------------------------------------------------------------------------------

pub broadcast proof fn plain_says(s: Seq<char>)
    requires plain(s),
    ensures #![trigger textual(s)] #![trigger dec(s)] textual(s) && dec(s) == Some(s),
    decreases s.len(),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '<' && s[i] != '"' by { assert(plain_char(s[i])); }
    if s.len() > 0 {
        let t = s.drop_first();
        assert(plain(t)) by { assert forall|i: int| 0 <= i < t.len() implies plain_char(#[trigger] t[i]) by { assert(t[i] == s[i + 1]); } }
        plain_says(t);
        assert(plain_char(s[0]));
        assert(seq![s[0]] + t =~= s);
    } else {
        assert(s =~= Seq::<char>::empty());
    }
}

pub broadcast proof fn enc_says(s: Seq<char>)
    ensures #![trigger textual(enc(s))] #![trigger dec(enc(s))] textual(enc(s)) && dec(enc(s)) == Some(s),
{
    roundtrip(s);
    enc_safe(s);
}

pub broadcast proof fn push_drop(s: Seq<LevelV>, t: LevelV)
    ensures #[trigger] s.push(t).drop_last() == s,
{
    assert(s.push(t).drop_last() =~= s);
}

pub broadcast proof fn wraps_is(a: Seq<EventV>, tag: LevelV, attrs: Seq<AttrV>, x: Seq<char>)
    requires attrs.len() == 0,
    ensures wraps(a, #[trigger] (a.push(EventV::Start { tag, attrs }) + chars(x)).push(EventV::End), tag, x),
{
    assert(attrs =~= Seq::<AttrV>::empty());
}

pub broadcast group values { push_drop, wraps_is }

pub broadcast group texts_ok { axiom_cow_ref, axiom_machine, plain_says, enc_says }

//@include values.inc
//@fn to_writer
    requires
        value.writable(), coherent(binds_of(value)),
        !old(output).broken(),
        // what was written before is complete
        feed(nothing(), old(output).accepted()).mode is Content, feed(nothing(), old(output).accepted()).stack.len() == 0,
    ensures
        r is Ok ==> {
            let (p, q) = (feed(nothing(), old(output).accepted()), feed(nothing(), final(output).accepted()));
            &&& !final(output).broken() && q.mode is Content && q.stack.len() == 0 && p.log.is_prefix_of(q.log)
            &&& value.text() matches Some(t) ==> exists|x: Seq<char>| #[trigger] says(x, t) && q.log == p.log + chars(x)
            &&& value.text() is None ==> value.renders(None, p.stack, added(p.log, q.log))
        },
        r matches Err(e) ==> final(output).broken() ==> e is Format,
//@fn to_string
    requires
        value.writable(), coherent(binds_of(value)),
    ensures
        r matches Ok(s) ==> document_of(value, s@),
//@start
    proof {
        reveal(feed); assert(feed(nothing(), Seq::<char>::empty()) == nothing());
        assert forall|b: Seq<EventV>| #[trigger] added(Seq::empty(), b) == b by { assert(added(Seq::empty(), b) =~= b); }
    }
//@end
