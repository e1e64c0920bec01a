//@include markup.inc
//@include serstd.inc
verus! {

//@use instant-xml/src/lib.rs
//@opt message Other UnexpectedToken UnknownPrefix InvalidEntity UnexpectedValue ExpectedScalar
//@opt type xmlparser::Error ParseError
//@opt type fmt::Error FmtError
//@opt type HashMap<&'staticstr,&'staticstr> NsTable
//@opt path HashMap::new NsTable::new
//@opt path fmt::Write Write
//@opt path fmt::Display Display
//@opt result write_fmt write_str write_char serialize write_start end_start write_close end_empty write_attr
//@item enum Error
//@item struct Id derive=Clone,Copy
//@include serspec.inc
//@include serfns.inc
//@literals
} // verus!
fn main() {}
