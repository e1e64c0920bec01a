#![feature(allocator_api)]
//@include model.inc
//@include laws.inc
use std::fmt;
use std::collections::VecDeque;
use std::ops::{Deref, DerefMut};
use std::marker::PhantomData;
verus! {

//@use instant-xml/src/lib.rs
//@opt message Other UnexpectedToken UnknownPrefix InvalidEntity UnexpectedValue ExpectedScalar
//@opt type xmlparser::Error ParseError
//@opt type BTreeMap<&'xmlstr,&'xmlstr> NsMap<'xml>
//@opt path BTreeMap::new NsMap::new
//@opt path FromStr FromText
//@opt method into vx_into
//@opt method trim vx_trim
//@opt method into_owned vx_into_owned
//@opt method unwrap_or_default vx_or_default
//@opt cow text
//@opt mark len
//@opt result decode take_str extend_text deserialize try_done element_id ignore
//@item enum Error
//@item struct Id derive=Clone,Copy
//@item enum Kind derive=Clone,Copy,PartialEq,Eq,Structural
//@use instant-xml/src/de.rs
//@item struct Limits derive=Clone,Copy
//@item struct Element derive=Clone,Copy
//@item struct Level
//@item struct Attribute
//@item enum Node
//@item struct Context
//@include readspec.inc
//@opt external on
//@include readfns.inc
//@opt external off
//@include fromspec.inc
//@include fromxml.inc
//@end
} // verus!
fn main() {}
