"""The units of /verif/verus and the properties they decide."""

UNITS = {
    "decode": {"min": 39, "assumptions": [
        "std (trusted contracts): str::get, str::from_utf8, u32::from_str_radix, u32::from_str, char::from_u32, String::push/push_str/reserve/capacity",
        "the text of error messages is not specified (format! and from_utf8_lossy are replaced by an unspecified string)"]},
    "encode": {"min": 40, "assumptions": [
        "std (trusted contracts): str::char_indices/get/len, String::push/push_str, fmt::Write and Display of str as the characters they append",
        "decode is used by its contract, which the unit decode proves"]},
    "reader": {"min": 78, "assumptions": [
        "xmlparser 0.13 is outside: its tokens are an uninterpreted sequence `tokens(input)` with the order of tokens (attributes and tag ends only inside start tags, nothing after an error) assumed as `grammar`",
        "std (trusted contracts): BTreeMap<&str, &str>, VecDeque, Option/Vec methods, Cow += Cow",
        "decode is used by its contract, which the unit decode proves",
        "a vector of open elements has fewer than usize::MAX elements (axiom_levels)"]},
    "ser": {"min": 69, "assumptions": [
        "std (trusted contracts): HashMap<&str, &str> and its entries, fmt::Write (accepted characters only grow; a failed writer stays failed), fmt::Display (the characters it shows), mem::take/replace, slices of fixed arrays",
        "preconditions on the caller: element and attribute names and prefixes are XML names, namespace URIs contain no markup characters, no prefix is bound again to another namespace, an attribute is written once (the unit derivedw proves that the code derived for the types of /verif/derive keeps them; other derived code is checked bounded)",
        "element values given to write_attr meet the contract of ToXml (proved for the built-in types in the unit toxml and for the types of /verif/derive in the unit derivedw, bounded for others)"]},
    "toxml": {"min": 121, "assumptions": [
        "the Serializer is used by its contract, which the unit ser proves; encode by the one that the unit encode proves",
        "std (trusted contracts): Display of numbers, IP addresses and chrono's types shows no markup characters; Box::as_ref, Cow::deref, char::encode_utf8",
        "types given by the user as T of Option<T>, Vec<T>, Box<T>, &T meet the contract of ToXml"]},
    "fromxml": {"min": 160, "assumptions": [
        "Context and Deserializer are used by their contracts, which the unit reader proves",
        "std and chrono (trusted contracts): FromStr of numbers and addresses and chrono's parsers are functions of the text; char::from_str accepts exactly one character; str::trim, Cow::into_owned/as_ref/default, String::into_bytes; derived PartialEq of Id and Default of CowStrAccumulator",
        "types given by the user as T of Option<T>, Vec<T>, Box<T>, from_str::<T> meet the contract of FromXml and Accumulate (proved for the types of /verif/derive in the units derived and derived2, bounded for other derived types)"]},
    "case": {"min": 14, "assumptions": [
        "std (trusted contracts): to_ascii_lowercase/uppercase, char::is_uppercase on ASCII, str::replace, starts_with, chars, char_indices, slices of ASCII strings by bytes",
        "proc_macro2::Ident's to_string is the identifier's text"]},
    "any": {"min": 81, "assumptions": [
        "Context and Deserializer are used by their contracts, which the unit reader proves",
        "std (trusted contracts): Cow += Cow, Cow::into_owned; Vec::remove(0) stands for the steps of Vec's into_iter (extraction)"]},
    "derived": {"min": 87, "gen": True, "assumptions": [
        "Context and Deserializer are used by their contracts, which the unit reader proves",
        "the types of the fields (type parameters) meet the contract of FromXml and Accumulate (proved for the built-in types in the unit fromxml)"]},
    "derived2": {"min": 99, "gen": True, "assumptions": [
        "Context and Deserializer are used by their contracts, which the unit reader proves",
        "the types of the fields (type parameters) meet the contract of FromXml and Accumulate (proved for the built-in types in the unit fromxml)"]},
    "derived3": {"min": 99, "gen": True, "assumptions": [
        "Context and Deserializer are used by their contracts, which the unit reader proves; borrow_cow_str, String and Cow<str> by theirs, which the unit fromxml proves",
        "the types of the fields (type parameters) meet the contract of FromXml and Accumulate (proved for the built-in types in the unit fromxml)"]},
    "derivedw": {"min": 78, "gen": True, "assumptions": [
        "the Serializer is used by its contract, which the unit ser proves",
        "the types of the fields (type parameters) meet the contract of ToXml (proved for the built-in types in the unit toxml)",
        "no type binds a prefix that an enclosing element binds to another namespace (precondition room, as in the statement of C09)"]},
    "roundtrip": {"min": 545, "gen": True, "assumptions": [
        "the contracts of the units ser, toxml, derivedw, reader, fromxml, derived, derived2 and derived3 (proved there) are the premises of the theorem",
        "xmlparser reads the document as the specification's reader of XML does, within the default limits (agreed)",
        "std's and chrono's parsers give back the value that their Display showed, and it shows some text (good); bool and char are proved",
        "the names of a struct's fields are different (apart), as are the names of a forward enum's variants"]},
}

SHAPES = "the code that the derive macros generate for the types of /verif/derive (structs with attributes, elements, direct text, namespaces, prefixes, renames, a case rule, a borrowed field and functions of their own; unit, tuple and transparent structs; a scalar and a forward enum), for all types of their fields"

READ = "bounded beside it: whole documents, generated and mutated, read into generated types on the real crate and compared with an independent XML reader"

PROPS = {
    "C01": {"units": ["decode", "encode", "toxml", "fromxml", "derivedw"], "proof": True,
            "theorems": ["encode (postcondition)", "roundtrip", "enc_safe", "decode (postcondition)", "ToXml for str/String/Cow<str>/char::serialize (postcondition: shows)", "to_string (postcondition)", "FromXml for String/Cow<str>/char::deserialize (postcondition: reads)"],
            "note": "proved for every string: encode's output is enc(s), contains no raw markup character, and decode(enc(s)) == s; str, String, Cow and char write exactly one text (or one element or attribute value holding one text) that says s. The names of a scalar enum, direct text and fields are written by " + SHAPES + " through these (proved: events_of); other derived types are bounded."},
    "C02": {"units": ["decode", "reader"], "proof": True,
            "theorems": ["decode (postcondition)", "valid_xml_character (postcondition)", "Context::extend_text (postcondition)"],
            "note": "proved for every string: decode gives exactly the specified replacement text or an error; text pieces are joined. " + READ},
    "C03": {"units": ["decode", "reader", "fromxml", "any", "derived3"], "proof": True,
            "theorems": ["decode (postcondition)", "Context::extend_text (postcondition)", "borrow_cow_str (postcondition: borrows)", "borrow_cow_slice_u8 (postcondition: borrows)", "FromXml for String / Cow<str> (postcondition: reads)", "FromXml for Borrowing, Lent::deserialize (postcondition: reads)"],
            "note": "proved for every token sequence: the borrowing helpers give the same text as String, shared with the input exactly if decoding and joining share it (no reference, one piece). The code derived for a struct and for a transparent struct with a borrowed field (/verif/derive) reads it so; for other derived types it is bounded."},
    "C04": {"units": ["reader"], "proof": True,
            "theorems": ["law_start_tag", "law_within", "law_step", "Context::next (postcondition)", "Deserializer::next (postcondition)", "Deserializer::ignore (postcondition)", "Limits::default (postcondition)"],
            "note": "proved for every token sequence: a start tag is refused exactly if its depth, its attributes or its declarations exceed a limit. Trusts xmlparser's tokens. " + READ},
    "C05": {"units": ["reader", "fromxml", "derived", "derived2", "derived3"], "proof": True,
            "theorems": ["law_step", "law_next", "law_drain", "Deserializer::next (postcondition)", "Deserializer::ignore (postcondition)", "Deserializer::deserialize, from_str (postcondition: root_reads)"],
            "note": "proved for every token sequence: an element's nodes end only with its own end tag; the end of input before that is an error. The code derived for the structs of /verif/derive reads its element to the end (proved); other derived types are bounded. Trusts xmlparser's tokens."},
    "C06": {"units": ["reader", "derived", "derived3"], "proof": True,
            "theorems": ["FromXml for Named<A, B, C, D>, Direct<A, B, C>, Cased<A, B, C>, Borrowing::deserialize (postconditions: reads)", "law_named", "law_unknown", "law_order", "law_drain_tokens", "Deserializer::ignore (postcondition)"],
            "note": "proved for every token sequence and all types of fields, for the code that the derive macros generate for the structs of /verif/derive (two attributes and two elements; attribute, element and direct text): the value of a field depends on the children that go to it, and on nothing else; skipping consumes exactly the element up to its own end tag. Structs with other fields: bounded."},
    "C07": {"units": ["reader", "derived", "derived2", "derived3"], "proof": True,
            "theorems": ["law_start_tag", "Context::lookup (postcondition)", "Context::default_ns (postcondition)", "Context::element_id (postcondition)", "Context::attribute_id (postcondition)", "law_step", "FromXml for Named, Direct, Tuple, Unit, Inline, Either::matches, deserialize (postconditions: takes, reads)"],
            "note": "proved for every token sequence: names resolve by the innermost declaration in scope. That fields are chosen by these names is proved for " + SHAPES + "; for other derived types it is bounded. Trusts xmlparser's tokens."},
    "C08": {"units": ["ser", "toxml", "derivedw"], "proof": True,
            "theorems": ["Serializer::write_start / write_attr / write_str / end_start / end_empty / write_close (postconditions)", "ToXml::serialize of the built-in types (postcondition: written)", "to_writer, to_string (postcondition)", "ToXml for Named, Direct, Tuple, Unit, Inline, Choice, Either, Cased, Borrowing, Lent::serialize (postcondition: written)"],
            "note": "proved for every sequence of calls that keeps the preconditions (names are names): a call that is not allowed is refused without output or change, an allowed one moves a parser of the whole output from one state between (or inside a) tag to the next, end tags repeat the start tag, and built-in types write complete elements or text. The same is proved for " + SHAPES + "; other derived types are bounded."},
    "C09": {"units": ["ser", "derivedw"], "proof": True,
            "theorems": ["Serializer::write_start (postcondition: element_name == the requested name)", "Serializer::write_attr (postcondition: attribute_name)", "Serializer::end_empty (postcondition)", "Serializer::write_close (postcondition: closing)", "ready (invariant: known prefixes are what a reader of the output sees)", "ToXml for Named, Direct, Tuple, Unit::serialize (postcondition: renders)"],
            "note": "proved for every sequence of calls that keeps the preconditions: the names an XML reader of the output resolves are the names asked for, and declarations are undone with their element. Which names derived code asks for is proved for " + SHAPES + "; for other derived types it is bounded."},
    "C14": {"units": ["ser", "toxml", "derivedw"], "proof": True,
            "theorems": ["Serializer::* (postcondition: failed / surfaces)", "ToXml::serialize of the built-in types (postcondition: surfaces)", "to_writer (postcondition)", "ToXml for Named, Direct, Tuple, Unit, Inline, Choice, Either, Cased, Borrowing, Lent::serialize (postcondition: surfaces)"],
            "note": "proved for every writer that meets the contract of fmt::Write: a failed write is a format error and Ok means that nothing failed; also for " + SHAPES + ". Other derived code, and equality of the output for different writers, are bounded."},
    "C10": {"units": ["roundtrip", "ser", "toxml", "derivedw", "reader", "fromxml", "derived", "derived2", "derived3", "decode", "encode"], "proof": True,
            "theorems": ["round_trip", "law_inner / law_named for Named, Direct, Cased, Tuple, Unit, Either, Borrowing", "law_slot for the texts and elements in tuple structs", "Value and Round for Inline, Lent, Option<T>, Box<T>, Vec<T>, Cow<[T]>, String, Cow<str>, Choice and the scalars (law_text, law_kept, law_place, law_absent)", "bools_chars"],
            "note": "proved for every value (of any depth and length) of the types built from the structs, the forward enum and the scalar enum of /verif/derive, Option, Box, Vec, strings and scalars: if to_string's postcondition holds of a document and from_str's of its reading, the reading succeeds and gives the same value. Assumes that xmlparser reads the document as the specification's reader does, that the parsers of std and chrono invert their Display, and that fields have different names. Functions of the user's and other derived types are bounded."},
    "C11": {"units": ["fromxml", "derived", "derived2", "derived3", "toxml", "derivedw"], "proof": True,
            "theorems": ["FromXml for scalars, String, Cow, Option<T>, Box<T>, Vec<T>, Cow<[T]> (postconditions: reads, fails)", "Accumulate::try_done of the built-in accumulators (postcondition)"],
            "note": "proved for every token sequence and every T that meets the contract: a second value for a single-valued type is DuplicateValue, an empty accumulator is MissingValue, Option yields None, Vec appends exactly one value per element. Proved for the code derived for the structs of /verif/derive: each field reads all its occurrences, and a missing one is MissingValue. Absent values write nothing: None has no events (toxml), an attribute is written exactly if its value is present (derivedw). Other derived types are bounded."},
    "C12": {"units": ["toxml", "fromxml"], "proof": True,
            "theorems": ["FromXml for bool, char, numbers, IpAddr, DateTime<Utc>, NaiveDateTime, NaiveDate (postconditions: scalar_reads, scalar_fails)", "ToXml for the same (postcondition: shows)"],
            "note": "proved for every text: the value read is exactly the one that the named parser gives for the (for numbers: trimmed) text, anything else is an error, and what is written is the Display text. That std's and chrono's parsers invert their Display is bounded."},
    "C15": {"units": ["any"], "proof": True,
            "theorems": ["AnyElement::deserialize (postcondition: tree)", "FromXml for AnyElement (postcondition: reads)", "AnyElement::into_owned, AnyAttribute::into_owned (postcondition: owned_any)", "law_tree", "law_own_name"],
            "note": "proved for every token sequence: the value read is the tree of the element, with its resolved names, all attributes, all text joined and all children in order, it ends at the element's own end tag, and into_owned() is the same tree, shared nowhere. How a struct hands its unmatched elements to it is bounded. Trusts xmlparser's tokens."},
    "C16": {"units": ["case", "derived2", "derived3", "derivedw"], "proof": True,
            "theorems": ["RenameRule::apply_to_field (postcondition: field_name)", "RenameRule::apply_to_variant (postcondition: variant_name)", "RenameRule::from_str, RENAME_RULES (postcondition: rule_is)", "FromXml and ToXml for Cased, Choice (postconditions)"],
            "note": "proved for every ASCII identifier with a letter or digit in it: the name is the one that the documented rule gives, and exactly the documented rules are known. That the macros apply the rule to fields and variants, that rename overrides it, and that reading and writing use the same names is proved for a struct and an enum of /verif/derive, and bounded for others (generated types, compiled and run)."},
    "C17": {"units": ["decode", "reader", "fromxml", "any", "derived", "derived2", "derived3"], "proof": True,
            "theorems": ["decode, Context::*, Deserializer::*, FromXml of the built-in types and of the types of /verif/derive: no panic (preconditions of indexing, unwrap, arithmetic), termination (decreases)"],
            "note": "termination and absence of panics are proved for decode, Context, Deserializer, the built-in types and " + SHAPES + "; other derived code, and time and memory, are bounded. Trusts xmlparser."},
    "C13": {"units": ["derived2", "derivedw"], "proof": True,
            "theorems": ["FromXml for Choice, Either<A, B>::deserialize, matches (postconditions: reads, takes)", "ToXml for Choice, Either<A, B>::serialize (postcondition: shows / renders)"],
            "note": "proved for the code that the derive macros generate for the enums of /verif/derive (a scalar enum with rename_all, rename and a discriminant; a forward enum over any two types): exactly the names of the variants are read, each as its variant, and each variant writes its name; the forward enum reads the variant whose type takes the element and writes the inner value alone. Other enums are bounded (generated types, compiled and run)."},
    "C18": {"units": ["derived2", "derived3", "derivedw", "roundtrip"], "proof": True,
            "theorems": ["FromXml for Tuple<A, B>, Inline<A, B>, Lent, Unit::deserialize (postconditions: reads)", "Accumulate for the accumulators of Inline and Lent (postcondition)", "ToXml for Tuple<A, B>, Inline<A, B>, Unit::serialize (postcondition: renders)", "law_slot, law_inner for Tuple<A, B>, law_kids for Inline<A, B> (unit roundtrip)"],
            "note": "proved for the code that the derive macros generate for the structs of /verif/derive (tuple, transparent and unit structs over any field types): fields are written in the order of declaration, in one element or none; tuple fields are read in that order, transparent ones by name among the children they are given; what is written is read back as the same value. Other structs are bounded (generated types, compiled and run)."},
}
