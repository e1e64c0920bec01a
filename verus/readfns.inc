//@impl Default for Limits
//@method default ret=r
    ensures r == defaults(),
//@endimpl

//@impl Context
//@method new ret=r
    ensures r.st() == start::<'xml>(input@, defaults()),
//@start
    broadcast use views;
//@method element_id ret=r
    ensures
        r is Ok <==> element_name(self.st().stack, elementv(*element)) is Some,
        r matches Ok(id) ==> idv(id) == element_name(self.st().stack, elementv(*element))->0,
        r matches Err(e) ==> err(e) == ErrV::Other,
//@method attribute_id ret=r
    ensures
        r is Ok <==> attribute_name(self.st().stack, opt(attr.prefix), attr.local@) is Some,
        r matches Ok(id) ==> idv(id) == attribute_name(self.st().stack, opt(attr.prefix), attr.local@)->0,
        r matches Err(e) ==> err(e) == ErrV::Other,
//@method extend_text ret=r
    requires old(self).peeked is None,
    ensures
        final(self).st() == (S { pend: run(cowv(text), old(self).st().pend).1, ..old(self).st() }),
        r is Ok <==> run(cowv(text), old(self).st().pend).0 is Some,
        r matches Ok(t) ==> cowv(t) == run(cowv(text), old(self).st().pend).0->0,
        r matches Err(e) ==> err(e) == ErrV::Entity,
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost vx_t = cowv(text);
    let ghost vx_p = self.parser.rest();
//@loop 0
        invariant
            self.peeked is None,
            self.stack == old(self).stack, self.records == old(self).records, self.limits == old(self).limits,
            run(cowv(text), self.parser.rest()) == run(vx_t, vx_p),
        decreases self.parser.rest().len(),
//@loop-start 0
            proof {
                let p = self.parser.rest();
                if p.len() > 0 { assert(seq![p[0]] + p.drop_first() =~= p); }
            }
//@method default_ns ret=r
    ensures r@ == default_of(self.st().stack),
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost vx_all = self.st().stack;
    proof { assert(vx_all.subrange(0, vx_all.len() as int) =~= vx_all); }
//@loop 0
        invariant_except_break
            vx_i0 <= vx_all.len(),
            vx_r0 is None,
            default_of(vx_all.subrange(0, vx_i0 as int)) == default_of(vx_all),
        ensures
            or_empty(opt(vx_r0)) == default_of(vx_all),
        decreases vx_i0,
//@loop-start 0
            proof {
                let t = vx_all.subrange(0, vx_i0 as int);
                assert(t.drop_last() =~= vx_all.subrange(0, vx_i0 - 1));
                assert(t.last() == lv(self.stack@[vx_i0 - 1]));
            }
//@method lookup ret=r
    ensures opt(r) == resolve(self.st().stack, prefix@),
//@attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@start
    let ghost vx_all = self.st().stack;
    proof {
        assert(vx_all.subrange(0, vx_all.len() as int) =~= vx_all);
        reveal_strlit("xml");
    }
//@loop 0
        invariant_except_break
            vx_i0 <= vx_all.len(),
            vx_r0 is None,
            binding(vx_all.subrange(0, vx_i0 as int), prefix@) == binding(vx_all, prefix@),
        ensures
            opt(vx_r0) == binding(vx_all, prefix@),
        decreases vx_i0,
//@loop-start 0
            proof {
                let t = vx_all.subrange(0, vx_i0 as int);
                assert(t.drop_last() =~= vx_all.subrange(0, vx_i0 - 1));
                assert(t.last() == lv(self.stack@[vx_i0 - 1]));
            }
//@endimpl
//@impl Iterator for Context inherent
//@method next ret=r
    ensures
        outcome(r) == go(old(self).st()).0,
        final(self).st() == go(old(self).st()).1,
//@attr #[verifier::loop_isolation(false)]
//@start
    broadcast use views;
    let ghost vx_s = self.st();
//@loop 0
        invariant
            scan(self.st()) == go(vx_s),
        decreases self.st().pend.len(),
//@endimpl

/// std: a vector of elements that take space has at most isize::MAX of them
#[verifier::external_body]
pub proof fn axiom_levels(v: &Vec<Level<'_>>)
    ensures v@.len() < usize::MAX,
{
}

//@item enum Mut
//@end
impl<'a, T> Mut<'a, T> {
    pub open spec fn now(&self) -> T { match self { Mut::Ref(r) => **r, Mut::Owned(o) => *o } }
    #[verifier::prophetic]
    pub open spec fn later(&self) -> Option<T> { match self { Mut::Ref(r) => Some(*final(*r)), Mut::Owned(o) => None } }
}
//@impl Mut
//@method borrow ret=r
    ensures r.now() == old(self).now(), r.later() == Some(final(self).now()), final(self).later() == old(self).later(),
//@endimpl
//@impl Deref for Mut
//@assoc Target
//@method deref ret=r
    ensures *r == self.now(),
//@endimpl
//@impl DerefMut for Mut
//@method deref_mut ret=r
    ensures *r == old(self).now(), *final(r) == final(self).now(), final(self).later() == old(self).later(),
//@endimpl
//@item struct Deserializer
//@end

impl<'cx, 'xml> Deserializer<'cx, 'xml> {
    pub open spec fn dv(&self) -> D<'xml> {
        D { parent: elementv(self.parent), level: self.level as int, done: self.done, first: match self.first { Some(n) => Some(nodev(n)), None => None }, s: self.context.now().st() }
    }
    #[verifier::prophetic]
    pub open spec fn later(&self) -> Option<Context<'xml>> { self.context.later() }
}

/// without the node that was put in front
pub open spec fn plain<'a>(d: D<'a>) -> D<'a> { D { first: None, ..d } }

/// a reader that is handed to a type: at the start of an element, or at a text or attribute value in it (or at its end)
pub open spec fn handed(d: D) -> bool {
    &&& d.done || resting(plain(d))
    &&& d.first matches Some(n) ==> n is Text || n is AttributeValue
}

/// the reader of the element whose start tag was just read
pub open spec fn opened<'a>(e: ElementV, s: S<'a>) -> D<'a> {
    D { parent: e, level: s.stack.len() as int, done: false, first: None, s }
}


//@impl Deserializer
//@method new ret=r
    ensures
        match go(start::<'xml>(input@, defaults())) {
            (Out::Node(NodeV::Open(e)), s) => r matches Ok(d) && d.dv() == opened(e, s) && d.later() is None,
            (Out::Node(_), s) => r matches Err(e) && err(e) == ErrV::State,
            (Out::Err(e1), s) => r matches Err(e) && err(e) == e1,
            (Out::End, s) => r matches Err(e) && err(e) == ErrV::Eof,
        },
//@start
    broadcast use views;
//@method nested ret=r
    ensures
        r.dv() == opened(elementv(element), old(self).dv().s),
        r.later() == Some(final(self).context.now()),
        final(self).dv() == (D { s: final(self).dv().s, ..old(self).dv() }),
        final(self).later() == old(self).later(),
//@method with_context ret=r
    ensures
        r.dv() == opened(elementv(parent), context.now().st()),
        r.context == context,
//@method with_limits ret=r
    ensures r.dv() == (D { s: S { limits, ..self.dv().s }, ..self.dv() }),
//@method ignore ret=r
    ensures
        r is Ok ==> final(self).dv().done && final(self).dv().first is None,
        final(self).dv() == (D { done: final(self).dv().done, first: final(self).dv().first, s: final(self).dv().s, ..old(self).dv() }),
        left_d(final(self).dv()) <= left_d(old(self).dv()),
        final(self).later() == old(self).later(),
        handed(old(self).dv()) && !old(self).dv().done ==> match drain(old(self).dv().s, old(self).dv().level) {
            (None, s) => r is Ok && final(self).dv().s == s && placed(final(self).dv()),
            (Some(e), _) => r matches Err(x) && err(x) == e,
        },
        old(self).dv().done && old(self).dv().first is None ==> r is Ok && final(self).dv() == old(self).dv(),
    decreases left_d(old(self).dv()),
//@start
        let ghost vx_d = self.dv();
//@attr #[verifier::loop_isolation(false)]
//@loop 0
        invariant
            left_d(self.dv()) <= left_d(old(self).dv()),
            self.later() == old(self).later(),
            self.dv() == (D { done: self.dv().done, first: self.dv().first, s: self.dv().s, ..old(self).dv() }),
            handed(vx_d) && !vx_d.done ==> {
                &&& handed(self.dv()) && !self.dv().done
                &&& drain(self.dv().s, vx_d.level) == drain(vx_d.s, vx_d.level)
            },
            vx_d.done && vx_d.first is None ==> self.dv() == vx_d,
        decreases left_d(self.dv()),
//@loop-start 0
            let ghost vx_at = self.dv();
            proof {
                next_decreases(vx_at);
                if handed(vx_d) && !vx_d.done && vx_at.first is None {
                    law_next(vx_at);
                    law_step(vx_at.s);
                    let s1 = next_of(vx_at).1.s;
                    if next_of(vx_at).0 is Node && next_of(vx_at).0->Node_0 is Open {
                        law_drain_nested(s1, vx_d.level, s1.stack.len() as int);
                        law_drain(s1, s1.stack.len() as int);
                    }
                }
            }
//@method for_node ret=r
    ensures
        r.dv() == (D { first: Some(nodev(node)), ..old(self).dv() }),
        r.later() == Some(final(self).context.now()),
        final(self).dv() == (D { s: final(self).dv().s, ..old(self).dv() }),
        final(self).later() == old(self).later(),
//@method take_str ret=r
    ensures
        final(self).dv() == take(old(self).dv()).1,
        final(self).later() == old(self).later(),
        r is Ok <==> take(old(self).dv()).0 is Ok,
        r matches Ok(Some(c)) ==> take(old(self).dv()).0 == Ok::<Option<CowV>, ErrV>(Some(cowv(c))),
        r matches Ok(None) ==> take(old(self).dv()).0 == Ok::<Option<CowV>, ErrV>(None),
        r matches Err(e) ==> take(old(self).dv()).0 == Err::<Option<CowV>, ErrV>(err(e)),
//@attr #[verifier::loop_isolation(false)]
//@start
        let ghost vx_d = self.dv();
//@loop 0
        invariant
            take(self.dv()) == take(vx_d),
            self.later() == old(self).later(),
        decreases left_d(self.dv()),
//@loop-start 0
            proof { next_decreases(self.dv()); }
//@method parent ret=r
    requires element_name(self.dv().s.stack, self.dv().parent) is Some,
    ensures
        r.name@ == self.dv().parent.local,
        r.ns@ == (match self.dv().parent.prefix { Some(p) => resolve(self.dv().s.stack, p)->0, None => default_of(self.dv().s.stack) }),
//@method namespace ret=r
    ensures opt(r) == resolve(self.dv().s.stack, prefix@),
//@method element_id ret=r
    ensures
        r is Ok <==> element_name(self.dv().s.stack, elementv(*element)) is Some,
        r matches Ok(id) ==> idv(id) == element_name(self.dv().s.stack, elementv(*element))->0,
        r matches Err(e) ==> err(e) == ErrV::Other,
//@method attribute_id ret=r
    ensures
        r is Ok <==> attribute_name(self.dv().s.stack, opt(attr.prefix), attr.local@) is Some,
        r matches Ok(id) ==> idv(id) == attribute_name(self.dv().s.stack, opt(attr.prefix), attr.local@)->0,
        r matches Err(e) ==> err(e) == ErrV::Other,
//@endimpl
//@impl Iterator for Deserializer inherent
//@method next ret=r
    ensures
        outcome(r) == next_of(old(self).dv()).0,
        final(self).dv() == next_of(old(self).dv()).1,
        final(self).later() == old(self).later(),
//@start
    proof { axiom_levels(&self.context.now().stack); }
    let ghost vx_s = self.dv();
//@before len
    proof { axiom_levels(&self.context.now().stack); }
//@endimpl
