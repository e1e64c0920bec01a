    open spec fn there(&self) -> bool { true }
    open spec fn place(id: IdV) -> IdV { id }
    open spec fn binds() -> Binds { Set::empty() }
    open spec fn renders(&self, field: Option<IdV>, stack: Seq<LevelV>, ev: Seq<EventV>) -> bool { false }
