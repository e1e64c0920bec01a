//@include toxmltrait.inc
//@use instant-xml/src/ser.rs
//@item struct Prefix derive=Clone,Copy
//@item struct Context
//@item struct Element
//@item enum State derive=PartialEq,Eq,Structural
//@item struct Serializer
//@impl Default for Context
//@method default ret=r
    ensures
        r.default_ns@ == ""@, !r.force_prefix,
        forall|i: int| 0 <= i < N ==> (#[trigger] r.prefixes@[i]).prefix@ == ""@ && r.prefixes@[i].ns@ == ""@,
//@endimpl
//@impl Serializer
//@method new ret=r
    ensures
        now(&r) == (old(output).accepted(), old(output).broken()), end(&r) == (final(output).accepted(), final(output).broken()),
        r.state is Element, r.prefixes@ == Map::<Seq<char>, Seq<char>>::empty(), r.default_ns@ == ""@,
//@method write_start ret=r
    requires
        old(self).state is Element ==> {
            &&& ready(old(self)) && ns_ok(old(self))
            &&& name_ok(name@) && uri_ok(ns@)
            &&& cx matches Some(cx) ==> cx_ok(cx) && cx.default_ns@ == ns@ && no_rebinding(old(self).prefixes@, cx.prefixes@)
        },
    ensures
        !(old(self).state is Element) ==> r is Err && unchanged(old(self), final(self)),
        old(self).state is Element ==> match r {
            Err(e) => failed(e, old(self), final(self)),
            Ok(element) => {
                let (p, q) = (doc(old(self)), settle(doc(final(self))));
                &&& final(self).state is Attribute && ready(final(self))
                // the start tag is open and names what was asked for
                &&& q.stack == p.stack && q.log == p.log && q.attrs.len() == 0 && q.tag.local == name@
                &&& element_name(q.stack.push(q.tag), element_of(q.tag)) == Some(IdV { ns: ns@, name: name@ })
                &&& element.name@ == name@ && opt(element.prefix) == q.tag.prefix
                &&& element.prefix matches Some(x) ==> name_ok(x@)
                // its declarations are known inside, and can be taken back
                &&& (cx is Some || ns@ == old(self).default_ns@ || old(self).prefixes@.contains_key(ns@)) ==> ns_ok(final(self))
                &&& closing(final(self), element) == (old(self).prefixes@, old(self).default_ns@)
                &&& undoable(final(self), element)
                &&& cx matches Some(cx) ==> extended(old(self).prefixes@, final(self).prefixes@, cx.prefixes@)
                &&& cx is None ==> final(self).prefixes@ == old(self).prefixes@
                &&& final(self).enclosing.0@ == old(self).default_ns@
                &&& minus(final(self).prefixes@, texts(final(self).enclosing.1@)) == old(self).prefixes@
                &&& opt(final(self).attribute_ns) == (match cx { Some(cx) => Some(cx.default_ns@), None => None })
                &&& end(final(self)) == end(old(self))
            },
        },
//@attr #[verifier::rlimit(30)]
//@start
    hide(extended); hide(coherent); hide(compatible);
    broadcast use markup;
    let ghost vx_self = *self;
    let ghost vx_cx = cx;
    let ghost (vx_p, vx_t) = (doc(self), self.prefixes@);
    proof { reveal_strlit("xml"); reveal_strlit(""); }
//@loop 0
        invariant
            *vstd::prelude::old(self) == vx_self, vx_self.state is Element, vx_self.prefixes@ == vx_t, doc(&vx_self) == vx_p,
            vx_cx is Some, vx_s0@ == vx_cx->0.prefixes@, list_ok(vx_s0@), no_rebinding(vx_t, vx_s0@), vx_cx->0.default_ns@ == ns@,
            vx_i0 <= N, used <= vx_i0,
            opening(vx_p, vx_t, settle(doc(self)), self.prefixes@, opt(prefix), name@, ns@),
            declared(vx_t, settle(doc(self)), self.prefixes@, texts(self.enclosing.1@), vx_s0@, vx_i0 as int, old.prefixes@, used as int),
            !self.output.broken(), default_of(scope(self)) == self.default_ns@,
            self.state is Attribute, self.enclosing.0 == vx_self.default_ns, old.default_ns == vx_self.default_ns, end(self) == end(&vx_self),
            self.attribute_ns matches Some(x) && x@ == vx_cx->0.default_ns@,
        decreases N - vx_i0,
//@loop-start 0
            broadcast use markup;
            proof { reveal_strlit(""); }
            let ghost (vx_q, vx_u, vx_own, vx_old, vx_used, vx_n) = (settle(doc(self)), self.prefixes@, texts(self.enclosing.1@), old.prefixes@, used as int, vx_i0 as int);
            proof {
                if vx_s0@[vx_n].prefix@.len() == 0 || vx_u.contains_key(vx_s0@[vx_n].ns@) { declare_skip(vx_t, vx_q, vx_u, vx_own, vx_s0@, vx_n, vx_old, vx_used); }
                if vx_s0@[vx_n].prefix@.len() > 0 && !vx_u.contains_key(vx_s0@[vx_n].ns@) { declare_free(vx_p, vx_t, vx_q, vx_u, vx_own, vx_s0@, vx_n, vx_old, vx_used); }
            }
//@loop-end 0
            proof {
                assert(texts(self.enclosing.1@) =~= vx_own.push(vx_s0@[vx_n].ns@));
                declare_next(vx_p, vx_t, vx_q, vx_u, vx_q.tag.prefix, name@, ns@, vx_own, vx_s0@, vx_n, vx_old, vx_used, settle(doc(self)), self.prefixes@, texts(self.enclosing.1@), old.prefixes@);
            }
//@loop-after 0
    proof {
        opening_named(vx_p, vx_t, settle(doc(self)), self.prefixes@, opt(prefix), name@, ns@);
        assert(!self.prefixes@.contains_key(""@)) by { reveal_strlit(""); }
        recorded(vx_t, settle(doc(self)), self.prefixes@, texts(self.enclosing.1@), vx_cx->0.prefixes@, old.prefixes@, used as int);
    }
//@method write_attr ret=r
    requires
        value.writable(),
        old(self).state is Attribute ==> {
            &&& ready(old(self))
            &&& name_ok(name@)
            &&& forall|i: int| 0 <= i < settle(doc(old(self))).attrs.len() ==> (#[trigger] settle(doc(old(self))).attrs[i]).local != name@ || settle(doc(old(self))).attrs[i].prefix != attribute_prefix(old(self), ns@)
        },
    ensures
        !(old(self).state is Attribute) ==> r is Err && unchanged(old(self), final(self)),
        old(self).state is Attribute ==> {
            &&& !attribute_known(old(self), ns@) ==> r is Err && unchanged(old(self), final(self))
            &&& r matches Err(e) ==> surfaces(e, old(self), final(self))
            &&& r is Ok ==> {
                let (p, q) = (settle(doc(old(self))), settle(doc(final(self))));
                &&& final(self).state is Attribute && ready(final(self))
                &&& q.stack == p.stack && q.log == p.log && q.tag == p.tag
                &&& q.attrs == p.attrs.push(AttrV { prefix: attribute_prefix(old(self), ns@), local: name@, value: q.attrs.last().value })
                &&& value.text() matches Some(t) ==> says(q.attrs.last().value, t)
                &&& attribute_known(old(self), ns@)
                &&& attribute_prefix(old(self), ns@) is Some ==> attribute_name(q.stack.push(q.tag), attribute_prefix(old(self), ns@), name@) == Some(IdV { ns: ns@, name: name@ })
                &&& same_scope(old(self), final(self))
            }
        },
//@start
    broadcast use writing;
    proof { reveal_strlit("xml"); reveal_strlit(""); }
//@method write_str ret=r
    requires
        !(old(self).state is Attribute) ==> ready(old(self)) && textual(value.shown()),
    ensures
        old(self).state is Attribute ==> r is Err && unchanged(old(self), final(self)),
        !(old(self).state is Attribute) ==> match r {
            Err(e) => failed(e, old(self), final(self)),
            Ok(_) => {
                &&& written(old(self), final(self))
                &&& final(self).output.accepted() == old(self).output.accepted() + value.shown()
                &&& old(self).state is Element ==> doc(final(self)).log == doc(old(self)).log + chars(value.shown())
                &&& old(self).state is Scalar ==> doc(final(self)).mode->AVal_val == doc(old(self)).mode->AVal_val + value.shown()
            }
        },
//@start
    broadcast use writing;
//@method end_start ret=r
    requires
        old(self).state is Attribute ==> ready(old(self)),
    ensures
        !(old(self).state is Attribute) ==> r is Err && unchanged(old(self), final(self)),
        old(self).state is Attribute ==> match r {
            Err(e) => failed(e, old(self), final(self)),
            Ok(_) => {
                let p = settle(doc(old(self)));
                &&& final(self).state is Element && ready(final(self))
                &&& doc(final(self)).stack == p.stack.push(p.tag) && doc(final(self)).log == p.log.push(EventV::Start { tag: p.tag, attrs: p.attrs })
                &&& ns_ok(old(self)) ==> ns_ok(final(self))
                &&& final(self).prefixes@ == old(self).prefixes@ && final(self).default_ns@ == old(self).default_ns@
                &&& end(final(self)) == end(old(self))
            }
        },
//@start
    broadcast use writing;
//@method end_empty ret=r
    requires
        old(self).state is Attribute ==> ready(old(self)),
    ensures
        !(old(self).state is Attribute) ==> r is Err && unchanged(old(self), final(self)),
        old(self).state is Attribute ==> match r {
            Err(e) => failed(e, old(self), final(self)),
            Ok(_) => {
                &&& final(self).state is Element && ready(final(self)) && ns_ok(final(self))
                &&& doc(final(self)) == emptied(settle(doc(old(self))))
                &&& final(self).default_ns@ == old(self).enclosing.0@
                &&& final(self).prefixes@ == minus(old(self).prefixes@, texts(old(self).enclosing.1@))
                &&& end(final(self)) == end(old(self))
            }
        },
//@attr #[verifier::loop_isolation(false)]
//@start
    broadcast use writing;
//@loop 0
        invariant
            minus(self.prefixes@, texts(self.enclosing.1@)) == minus(old(self).prefixes@, texts(old(self).enclosing.1@)),
            doc(self) == emptied(settle(doc(old(self)))), !self.output.broken(),
            self.default_ns@ == old(self).enclosing.0@, end(self) == end(old(self)),
        decreases self.enclosing.1@.len(),
//@loop-start 0
            proof {
                minus_first(self.prefixes@, texts(self.enclosing.1@));
                assert(texts(self.enclosing.1@.drop_first()) =~= texts(self.enclosing.1@).drop_first());
                assert(self.enclosing.1@.remove(0) =~= self.enclosing.1@.drop_first());
            }
//@method write_close ret=r
    requires
        old(self).state is Element ==> {
            &&& ready(old(self)) && undoable(old(self), element)
            &&& names(element.name@) && (element.prefix matches Some(p) ==> name_ok(p@))
            &&& doc(old(self)).stack.len() > 0
            &&& doc(old(self)).stack.last().local == element.name@ && doc(old(self)).stack.last().prefix == opt(element.prefix)
            &&& table_ok(closing(old(self), element).0, doc(old(self)).stack.drop_last())
        },
    ensures
        !(old(self).state is Element) ==> r is Err && unchanged(old(self), final(self)),
        old(self).state is Element ==> match r {
            Err(e) => failed(e, old(self), final(self)),
            Ok(_) => {
                &&& final(self).state is Element && ready(final(self))
                &&& doc(final(self)) == closed(doc(old(self)))
                &&& (final(self).prefixes@, final(self).default_ns@) == closing(old(self), element)
                &&& end(final(self)) == end(old(self))
            }
        },
//@start
    broadcast use markup;
    let ghost vx_t = self.prefixes@;
    let ghost vx_self = *self;
    proof {
        reveal_strlit("");
        if self.state is Element { assert(!vx_t.contains_key(""@)); }
    }
//@loop 0
        invariant
            vx_i0 <= N, undo_ok(vx_t, vx_s0@), !vx_t.contains_key(""@),
            self.prefixes@ == minus(vx_t, namespaces(vx_s0@.subrange(0, vx_i0 as int))),
            doc(self) == closed(doc(&vx_self)), !self.output.broken(),
            self.state is Element, self.default_ns@ == old.default_ns@, end(self) == end(&vx_self),
        decreases N - vx_i0,
//@loop-start 0
            proof { undo_next(vx_t, vx_s0@, vx_i0 as int); reveal_strlit(""); }
//@loop-after 0
    proof { assert(old.prefixes@.subrange(0, N as int) =~= old.prefixes@); }
//@method prefix ret=r
    ensures
        opt(r) == (if self.prefixes@.contains_key(ns@) { Some(self.prefixes@[ns@]) } else { None }),
//@method default_ns ret=r
    ensures
        r == self.default_ns,
//@endimpl
