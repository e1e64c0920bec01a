//@trait ToXml
    /// the text of the value can be written as it is
    spec fn writable(&self) -> bool;
    /// the value is text
    spec fn text(&self) -> Option<Seq<char>>;
    /// there is a value to write
    spec fn there(&self) -> bool;
    /// the element that is written in a field for it, if it is text
    spec fn place(id: IdV) -> IdV;
    /// the prefixes that values of the type declare
    spec fn binds() -> Binds;
    /// what is written between tags, if the value is not text
    spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool;
//@method serialize
        requires
            self.writable(),
            field matches Some(id) ==> id_ok(id),
            ready(old(serializer)),
            old(serializer).state is Element && !(self.text() is Some && field is None) ==> ns_ok(old(serializer)) && room(old(serializer), Self::binds()),
        ensures
            match r {
                Err(e) => surfaces(e, old(serializer), final(serializer)),
                Ok(_) => {
                    &&& written(old(serializer), final(serializer))
                    &&& self.text() matches Some(t) ==> shows(old(serializer), final(serializer), match field { Some(id) => Some(Self::place(id_of(id))), None => None }, t)
                    &&& self.text() is None && old(serializer).state is Element
                        ==> self.renders(field_of(field), doc(old(serializer)).stack, added(doc(old(serializer)).log, doc(final(serializer)).log))
                },
            },
//@method present abstract
        ensures r == self.there(),
//@endimpl
