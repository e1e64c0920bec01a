#![feature(allocator_api)]
//@include model.inc
//@include laws.inc
use std::fmt;
use std::collections::VecDeque;
use std::ops::{Deref, DerefMut};
use std::marker::PhantomData;
/// the specification's reader of what was written (the unit `ser` is verified against it)
pub mod doc {
use super::*;
//@include markupspec.inc
}
pub use doc::{AttrV, EventV, Mode, chars, feed, name_ok, nothing, prefix_ok, textual, uri_ok};
verus! {

// ---- the contracts of the reading side (units fromxml, derived, derived2, derived3): specifications only ---------------

//@use instant-xml/src/lib.rs
//@opt ghost FromXml Accumulate ToXml
//@opt path FromStr FromText
//@opt path fmt::Display Display
//@opt message Other UnexpectedToken UnknownPrefix InvalidEntity UnexpectedValue ExpectedScalar UnexpectedNode UnexpectedTag
//@opt type xmlparser::Error ParseError
//@opt type BTreeMap<&'xmlstr,&'xmlstr> NsMap<'xml>
//@item enum Error
//@item struct Id derive=Clone,Copy
//@item enum Kind derive=Clone,Copy,PartialEq,Eq,Structural
//@use instant-xml/src/de.rs
//@item struct Limits derive=Clone,Copy
//@item struct Element derive=Clone,Copy
//@item struct Level
//@item struct Attribute
//@item enum Node
//@item struct Context
//@include readspec.inc
//@include readfns.inc
//@end
//@include fromspec.inc
//@include fromxml.inc
//@end
//@include walk.inc
//@include derived.inc
//@include derived2.inc
//@include derived3.inc

// ---- the contracts of the writing side (units toxml, derivedw) ---------------------------------------------------------

pub trait Display { spec fn shown(&self) -> Seq<char>; }
/// the text of a number, an address or a date and time
pub uninterp spec fn machine<T>(x: T) -> Seq<char>;
//@include evspec.inc
//@use instant-xml/src/lib.rs
//@include toxmltrait.inc
//@include values.inc
//@include derivedw.inc
//@include round.inc
//@include roundval.inc
//@include roundstruct.inc
//@include roundstruct2.inc
//@include roundstruct3.inc
//@include roundstruct4.inc
//@include roundstruct5.inc
//@include roundtuple.inc
//@include rounddoc.inc
//@end
} // verus!
fn main() {}
