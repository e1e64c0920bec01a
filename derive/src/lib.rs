//! Shapes of derived types, generic over the types of their fields. The code that the derive macros generate for them is
//! expanded on every run and put under contract in the unit `derived`.
use std::borrow::Cow;

use instant_xml::{Deserializer, Error, FromXml, Id, Serializer, ToXml};

pub const OTHER: &str = "urn:other";

/// named fields: two attributes, one of them in another namespace, and two elements, one of them renamed
#[derive(FromXml, ToXml)]
#[xml(ns("urn:shapes", p = OTHER), rename = "named")]
pub struct Named<A, B, C, D> {
    #[xml(attribute)]
    pub a: A,
    #[xml(attribute, ns(OTHER))]
    pub b: B,
    pub c: C,
    #[xml(rename = "dee", ns("urn:own"))]
    pub d: D,
}

/// an attribute, an element, and direct text
#[derive(FromXml, ToXml)]
pub struct Direct<A, B, C> {
    #[xml(attribute)]
    pub a: A,
    pub b: B,
    #[xml(direct)]
    pub c: C,
}

/// fields that are read in the order they are in
#[derive(FromXml, ToXml)]
#[xml(ns("urn:shapes"))]
pub struct Tuple<A, B>(pub A, pub B);

/// fields without an element around them
#[derive(FromXml, ToXml)]
#[xml(transparent)]
pub struct Inline<A, B> {
    pub a: A,
    pub b: B,
}

#[derive(FromXml, ToXml)]
#[xml(ns("urn:shapes"))]
pub struct Unit;

#[derive(FromXml, ToXml)]
#[xml(scalar, rename_all = "UPPERCASE")]
pub enum Choice {
    One,
    #[xml(rename = "number two")]
    Two,
    Three = 3,
}

#[derive(FromXml, ToXml)]
#[xml(forward)]
pub enum Either<A, B> {
    Left(A),
    Right(B),
}

/// strings that share the input, and a field with a function of its own
#[derive(FromXml, ToXml)]
pub struct Borrowing<'a> {
    #[xml(borrow)]
    pub a: Cow<'a, str>,
    #[xml(deserialize_with = "own", serialize_with = "own_out")]
    pub b: String,
}

/// names by a rule, a prefix that is always written, and a raw identifier
#[derive(FromXml, ToXml)]
#[xml(ns("urn:cased", k = "urn:cased"), rename_all = "SCREAMING-KEBAB-CASE", force_prefix)]
pub struct Cased<A, B, C> {
    #[xml(attribute)]
    pub first_name: A,
    pub last_name: B,
    pub r#type: C,
}

/// the same without an element around it
#[derive(FromXml, ToXml)]
#[xml(transparent)]
pub struct Lent<'a> {
    #[xml(borrow)]
    pub a: Cow<'a, str>,
    #[xml(deserialize_with = "own", serialize_with = "own_out")]
    pub b: String,
}

/// a function for a field reads the field's element to its end
pub fn own<'xml>(into: &mut <String as FromXml<'xml>>::Accumulator, field: &'static str, deserializer: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
    String::deserialize(into, field, deserializer)?;
    deserializer.ignore()
}

pub fn own_out<W: std::fmt::Write + ?Sized>(value: &String, serializer: &mut Serializer<W>) -> Result<(), Error> {
    value.serialize(Some(Id { ns: "", name: "b" }), serializer)
}
