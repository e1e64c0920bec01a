use vstd::prelude::*;
use std::mem;
verus! {

// ---- trusted: the standard library -------------------------------------------------------------------------------

/// std::fmt::Error
pub struct FmtError;

#[verifier::external_body]
pub struct ParseError { e: String }

/// std::fmt::Write: a writer takes the characters that it is given, up to its first failure. After a failure it is
/// not called again (a precondition of every call).
pub trait Write {
    spec fn accepted(&self) -> Seq<char>;
    spec fn broken(&self) -> bool;

    fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>)
        requires !old(self).broken(),
        ensures
            r is Ok ==> !final(self).broken() && final(self).accepted() == old(self).accepted() + s@,
            r is Err ==> final(self).broken() && took(old(self).accepted(), s@, final(self).accepted());

    fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>)
        requires !old(self).broken(),
        ensures
            r is Ok ==> !final(self).broken() && final(self).accepted() == old(self).accepted().push(c),
            r is Err ==> final(self).broken() && took(old(self).accepted(), seq![c], final(self).accepted());
}

/// a failing writer took some of the characters
pub open spec fn took(before: Seq<char>, s: Seq<char>, after: Seq<char>) -> bool {
    exists|n: int| 0 <= n <= s.len() && after == before + #[trigger] s.subrange(0, n)
}

/// std::fmt::Display: the characters that are shown
pub trait Display {
    spec fn shown(&self) -> Seq<char>;
}

impl Display for str {
    open spec fn shown(&self) -> Seq<char> { self@ }
}

impl<T: Display + ?Sized> Display for &T {
    open spec fn shown(&self) -> Seq<char> { (**self).shown() }
}

/// Display of a value into a writer, in any number of pieces
#[verifier::external_body]
pub fn vx_display<T: Display + ?Sized, W: Write + ?Sized>(x: &T, w: &mut W) -> (r: Result<(), FmtError>)
    requires !old(w).broken(),
    ensures
        r is Ok ==> !final(w).broken() && final(w).accepted() == old(w).accepted() + x.shown(),
        r is Err ==> final(w).broken() && took(old(w).accepted(), x.shown(), final(w).accepted()),
{
    unimplemented!()
}

/// HashMap<&str, &str>
#[verifier::external_body]
pub struct NsTable { inner: std::collections::HashMap<&'static str, &'static str> }

impl View for NsTable {
    type V = Map<Seq<char>, Seq<char>>;
    uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
}

impl NsTable {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<Seq<char>, Seq<char>>::empty(),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&&'static str>)
        ensures
            r is Some <==> self@.contains_key(k@),
            r matches Some(v) ==> v@ == self@[k@],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool)
        ensures r == self@.contains_key(k@),
    { unimplemented!() }

    #[verifier::external_body]
    pub fn insert(&mut self, k: &'static str, v: &'static str) -> (r: Option<&'static str>)
        ensures
            final(self)@ == old(self)@.insert(k@, v@),
            r is Some <==> old(self)@.contains_key(k@),
            r matches Some(v) ==> v@ == old(self)@[k@],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<&'static str>)
        ensures
            final(self)@ == old(self)@.remove(k@),
            r is Some <==> old(self)@.contains_key(k@),
            r matches Some(v) ==> v@ == old(self)@[k@],
    { unimplemented!() }

    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut &'static str>)
        ensures
            r is Some <==> old(self)@.contains_key(k@),
            r matches Some(v) ==> v@ == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, (*final(v))@),
            r is None ==> final(self)@ == old(self)@,
    { unimplemented!() }

    pub fn entry<'a>(&'a mut self, k: &'static str) -> (r: Entry<'a>)
        ensures
            r matches Entry::Occupied(e) ==> old(self)@.contains_key(k@) && e.key@ == k@ && *e.table == *old(self) && *final(e.table) == *final(self),
            r matches Entry::Vacant(e) ==> !old(self)@.contains_key(k@) && e.key@ == k@ && *e.table == *old(self) && *final(e.table) == *final(self),
    {
        if self.contains_key(k) { Entry::Occupied(OccupiedEntry { key: k, table: self }) } else { Entry::Vacant(VacantEntry { key: k, table: self }) }
    }
}

pub enum Entry<'a> { Occupied(OccupiedEntry<'a>), Vacant(VacantEntry<'a>) }
pub struct OccupiedEntry<'a> { pub key: &'static str, pub table: &'a mut NsTable }
pub struct VacantEntry<'a> { pub key: &'static str, pub table: &'a mut NsTable }

impl<'a> OccupiedEntry<'a> {
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut &'static str)
        requires old(self).table@.contains_key(old(self).key@),
        ensures
            (*r)@ == old(self).table@[old(self).key@],
            final(self).key == old(self).key,
            final(self).table@ == old(self).table@.insert(old(self).key@, (*final(r))@),
            *final(final(self).table) == *final(old(self).table),
    { unimplemented!() }

    pub fn remove(self) -> (r: &'static str)
        requires old(self.table)@.contains_key(self.key@),
        ensures
            final(self.table)@ == old(self.table)@.remove(self.key@),
            r@ == old(self.table)@[self.key@],
    {
        self.table.remove(self.key).unwrap()
    }

    pub fn insert(&mut self, v: &'static str) -> (r: &'static str)
        requires old(self).table@.contains_key(old(self).key@),
        ensures
            r@ == old(self).table@[old(self).key@],
            final(self).key == old(self).key,
            final(self).table@ == old(self).table@.insert(old(self).key@, v@),
            *final(final(self).table) == *final(old(self).table),
    {
        self.table.insert(self.key, v).unwrap()
    }
}

impl<'a> VacantEntry<'a> {
    pub fn insert(self, v: &'static str)
        ensures final(self.table)@ == old(self.table)@.insert(self.key@, v@),
    {
        self.table.insert(self.key, v);
    }
}

} // verus!
