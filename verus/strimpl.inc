//@impl ToXml for str
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(self@) }
//@include text.inc
//@method serialize
//@start
    broadcast use texts_ok;
//@method present
//@endimpl
//@impl ToXml for String
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(self@) }
//@include text.inc
//@method serialize
//@start
    broadcast use texts_ok;
//@method present
//@endimpl
//@impl ToXml for Cow<'_, str>
    open spec fn writable(&self) -> bool { true }
    open spec fn text(&self) -> Option<Seq<char>> { Some(cow(*self)) }
//@include text.inc
//@method serialize
//@start
    broadcast use texts_ok;
//@method present
//@endimpl
