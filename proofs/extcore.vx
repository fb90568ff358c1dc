verus! {
use proto::extensions as pext;
use pext::simple_extension_declaration::MappingType;

//@@ item src/extensions/simple.rs ExtensionKind derive=Clone,Copy,PartialEq,Eq,Structural
impl VxOrd for ExtensionKind { uninterp spec fn vlt(self, o: ExtensionKind) -> bool; }
//@@ item src/extensions/simple.rs InsertError
//@@ item src/extensions/simple.rs MissingReference
//@@ item src/extensions/simple.rs ResolvedFunction

spec fn colon() -> Seq<char> { seq![':'] }
/// The part of a name before its signature.
spec fn base_of(s: Seq<char>) -> Seq<char> { if includes(s, colon()) { s.take(first(s, colon())) } else { s } }
/// A written name matches a declared one: exactly when it has a signature, by base name otherwise.
spec fn name_matches(stored: Seq<char>, written: Seq<char>) -> bool { if includes(written, colon()) { stored == written } else { base_of(stored) == written } }

//@@ item src/extensions/simple.rs CompoundName
impl CompoundName {
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.index as int == byte_off(self.name@, if includes(self.name@, colon()) { first(self.name@, colon()) } else { self.name@.len() as int }) }
    spec fn vs_full(&self) -> &str { str_of(self.name@) }
    spec fn vs_base(&self) -> &str { str_of(base_of(self.name@)) }
//@@ fn src/extensions/simple.rs CompoundName::new ret=r lib=into,find,len
//@@ sub impl Into<String> => impl VxIntoString
    ensures r.name@ == name.vx_chars_of()
//@@ end
//@@ fn src/extensions/simple.rs CompoundName::base ret=r lib=[..]
//@@ attr #[verifier::when_used_as_spec(vs_base)]
    ensures r == self.vs_base(), r@ == base_of(self.name@)
//@@ at start
    proof { use_type_invariant(self); lemma_first_from(self.name@, colon(), 0); let k = if includes(self.name@, colon()) { first(self.name@, colon()) } else { self.name@.len() as int }; lemma_boundary(self.name@, k); assert(self.name@.take(self.name@.len() as int) =~= self.name@); }
//@@ end
//@@ fn src/extensions/simple.rs CompoundName::full ret=r
//@@ attr #[verifier::when_used_as_spec(vs_full)]
    ensures r == self.vs_full(), r@ == self.name@
//@@ end
//@@ fn src/extensions/simple.rs CompoundName::has_signature ret=r lib=len
    ensures r == includes(self.name@, colon())
//@@ at start
    proof { use_type_invariant(self); lemma_first_from(self.name@, colon(), 0); if includes(self.name@, colon()) { lemma_byte_off(self.name@, first(self.name@, colon()), self.name@.len() as int); } }
//@@ end
//@@ fn src/extensions/simple.rs CompoundName::matches ret=r lib=contains
//@@ attr #[verifier::when_used_as_spec(vs_matches)]
    ensures r == name_matches(self.name@, pattern@)
//@@ end
    spec fn vs_matches(&self, pattern: &str) -> bool { name_matches(self.name@, pattern@) }
}
//@@ item src/extensions/simple.rs SimpleExtensions
//@@ trust derive(Default) of SimpleExtensions makes empty maps
impl SimpleExtensions { #[verifier::external_body] fn default() -> (r: Self) ensures r.urns@ == Map::<u32, String>::empty(), r.extensions@ == Map::<(u32, ExtensionKind), (u32, CompoundName)>::empty() { unimplemented!() } }
impl SimpleExtensions {
    spec fn has_urn(&self, a: u32) -> bool { self.urns@.contains_key(a) }
    spec fn has_ext(&self, k: ExtensionKind, a: u32) -> bool { self.extensions@.contains_key((a, k)) }
    spec fn name_at(&self, k: ExtensionKind, a: u32) -> Seq<char> { self.extensions@[(a, k)].1.name@ }
    spec fn urn_at(&self, k: ExtensionKind, a: u32) -> u32 { self.extensions@[(a, k)].0 }
//@@ fn src/extensions/simple.rs SimpleExtensions::add_extension_urn ret=r
    ensures
        final(self).extensions == old(self).extensions,
        old(self).has_urn(anchor) ==> r is Err && final(self).urns@ == old(self).urns@,
        !old(self).has_urn(anchor) ==> r is Ok && final(self).urns@ == old(self).urns@.insert(anchor, urn),
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::add_extension ret=r lib=strip_prefix,starts_with
//@@ sub .map(str::to_string) => .map(|vx_t: &str| -> (vx_r: String) ensures vx_r@ == vx_t@ { vx_t.to_string() })
    ensures
        final(self).urns == old(self).urns,
        // a second declaration of the same kind and anchor, and a bad name, are errors and change nothing
        bad_name(kind, name@) || old(self).has_ext(kind, anchor) ==> r is Err && final(self).extensions@ == old(self).extensions@,
        // anything else is recorded under its own key only, and is an error exactly when its URN is not declared
        !bad_name(kind, name@) && !old(self).has_ext(kind, anchor) ==> (r is Ok <==> old(self).has_urn(urn))
            && exists|c: CompoundName| c.name@ == stored_name(kind, name@) && final(self).extensions@ == old(self).extensions@.insert((anchor, kind), (urn, c)),
//@@ at start
    proof { reveal_strlit("u!"); }
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::is_empty ret=r
    ensures r == (self.urns.order().len() == 0 && self.extensions.order().len() == 0)
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::to_extension_urns ret=r
    ensures
        r@.len() == self.urns.order().len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).extension_urn_anchor == self.urns.order()[i] && r@[i].urn@ == self.urns@[self.urns.order()[i]]@,
//@@ closure 0 ret=pext::SimpleExtensionUrn
    ensures vx_r.extension_urn_anchor == *__vx0.0, vx_r.urn@ == __vx0.1@
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::find_urn ret=r
//@@ sub .map(String::as_str) => .map(|vx_s: &String| -> (vx_r: &str) ensures vx_r@ == vx_s@ { vx_s.as_str() })
    ensures match r { Ok(u) => self.has_urn(anchor) && u@ == self.urns@[anchor]@, Err(_) => !self.has_urn(anchor) }
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::find_by_anchor ret=r
    ensures match r { Ok((u, n)) => self.has_ext(kind, anchor) && u == self.urn_at(kind, anchor) && *n == self.extensions@[(anchor, kind)].1, Err(_) => !self.has_ext(kind, anchor) }
//@@ end
    /// a is the one extension of this kind with the name w (exactly, or as a written name).
    spec fn only(&self, kind: ExtensionKind, exact: bool, w: Seq<char>, a: u32) -> bool {
        self.has_ext(kind, a) && name_is(exact, self.name_at(kind, a), w) && forall|b: u32| #[trigger] self.has_ext(kind, b) && name_is(exact, self.name_at(kind, b), w) ==> b == a
    }
//@@ fn src/extensions/simple.rs SimpleExtensions::find_by_name ret=r pure
    ensures match r { Ok(a) => self.only(kind, true, name@, a), Err(_) => forall|a: u32| !#[trigger] self.only(kind, true, name@, a) }
//@@ at after 0 map
    let ghost s = entries(&self.extensions);
    let ghost q = |x: (&(u32, ExtensionKind), &(u32, CompoundName))| x.0.1 == kind && name_is(true, x.1.1.name@, name@);
    proof {
        lemma_filter_any(s, q);
        lemma_anchors(self, kind, true, name@, s, q);
        assert(matches@.len() == s.filter(q).len());
        assert(forall|i: int| 0 <= i < matches@.len() ==> #[trigger] matches@[i] == s.filter(q)[i].0.0);
    }
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::find_by_base_name ret=r pure
    ensures match r { Ok(a) => self.only(kind, false, base@, a), Err(_) => forall|a: u32| !#[trigger] self.only(kind, false, base@, a) }
//@@ at after 0 map
    let ghost s = entries(&self.extensions);
    let ghost q = |x: (&(u32, ExtensionKind), &(u32, CompoundName))| x.0.1 == kind && name_is(false, x.1.1.name@, base@);
    proof {
        lemma_filter_any(s, q);
        lemma_anchors(self, kind, false, base@, s, q);
        assert(matches@.len() == s.filter(q).len());
        assert(forall|i: int| 0 <= i < matches@.len() ==> #[trigger] matches@[i] == s.filter(q)[i].0.0);
    }
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::is_base_name_unique ret=r pure
    ensures match r { Ok(u) => self.has_ext(kind, anchor) && u == self.base_unique(kind, anchor), Err(_) => !self.has_ext(kind, anchor) }
//@@ at start
    broadcast use axiom_order;
//@@ at before 0 any
    let ghost s = entries(&self.extensions);
    proof {
        lemma_listed(self);
        assert forall|b: u32| #[trigger] self.has_ext(kind, b) implies exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == (&(b, kind), &self.extensions@[(b, kind)]) by {
            let i = choose|i: int| 0 <= i < s.len() && self.extensions.order()[i] == (b, kind); assert(s[i].0 == (b, kind));
        }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] self.has_ext(s[i].0.1, s[i].0.0) by { assert(self.extensions@.contains_key(self.extensions.order()[i])); }
    }
//@@ at tail
    proof {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i].1.1.name@ == self.name_at(s[i].0.1, s[i].0.0) by { }
        assert(other_exists ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.1 == kind && s[i].0.0 != anchor && base_of(s[i].1.1.name@) == my_base@);
        assert(!other_exists ==> forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.1 == kind && s[i].0.0 != anchor ==> base_of(s[i].1.1.name@) != my_base@);
        if other_exists {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.1 == kind && s[i].0.0 != anchor && base_of(s[i].1.1.name@) == my_base@;
            assert(self.has_ext(s[i].0.1, s[i].0.0)); assert(s[i].1.1.name@ == self.name_at(s[i].0.1, s[i].0.0));
            assert(!self.base_unique(kind, anchor));
        } else {
            assert forall|b: u32| #[trigger] self.has_ext(kind, b) && b != anchor implies base_of(self.name_at(kind, b)) != base_of(self.name_at(kind, anchor)) by {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == (&(b, kind), &self.extensions@[(b, kind)]); assert(s[i].1.1.name@ == self.name_at(kind, b));
            }
        }
    }
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::lookup_function ret=r
    ensures match r { Ok(f) => self.describes(f) && f.anchor == anchor, Err(_) => !self.has_ext(ExtensionKind::Function, anchor) }
//@@ end
    /// f describes the declared function with its anchor.
    spec fn describes(&self, f: ResolvedFunction<'_>) -> bool {
        let k = ExtensionKind::Function;
        self.has_ext(k, f.anchor) && f.urn == self.urn_at(k, f.anchor) && *f.name == self.extensions@[(f.anchor, k)].1 && f.name_unique == self.full_unique(k, f.anchor) && f.base_name_unique == self.base_unique(k, f.anchor)
    }
    /// A written reference (name, and perhaps an anchor) denotes the extension a.
    spec fn denotes(&self, kind: ExtensionKind, w: Seq<char>, anchor: Option<u32>, a: u32) -> bool {
        match anchor {
            Some(x) => a == x && self.has_ext(kind, x) && if kind == ExtensionKind::Function { name_matches(self.name_at(kind, x), w) } else { self.name_at(kind, x) == w || base_of(self.name_at(kind, x)) == w },
            None => self.only(kind, kind != ExtensionKind::Function, w, a),
        }
    }
//@@ fn src/extensions/simple.rs SimpleExtensions::resolve_function ret=r lib=contains
    ensures match r { Ok(f) => self.describes(f) && self.denotes(ExtensionKind::Function, name@, anchor, f.anchor), Err(_) => forall|a: u32| !#[trigger] self.denotes(ExtensionKind::Function, name@, anchor, a) }
//@@ at start
    proof { assert(forall|a: u32| includes(name@, colon()) ==> #[trigger] self.only(ExtensionKind::Function, true, name@, a) == self.only(ExtensionKind::Function, false, name@, a));
        assert forall|a: u32| includes(name@, colon()) implies #[trigger] self.only(ExtensionKind::Function, false, name@, a) == self.only(ExtensionKind::Function, true, name@, a) by {} }
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::to_extension_declarations ret=r
    ensures r@.len() == self.extensions.order().len(), forall|i: int| 0 <= i < r@.len() ==> decl_is(#[trigger] r@[i], self.extensions.order()[i].1, self.extensions.order()[i].0, self.extensions@[self.extensions.order()[i]].0, self.extensions@[self.extensions.order()[i]].1.name@)
//@@ closure 0 ret=pext::SimpleExtensionDeclaration
    ensures decl_is(vx_r, __vx0.0.1, __vx0.0.0, __vx0.1.0, __vx0.1.1.name@)
//@@ end
//@@ fn src/extensions/simple.rs SimpleExtensions::new ret=r
    ensures r.urns@ == Map::<u32, String>::empty(), r.extensions@ == Map::<(u32, ExtensionKind), (u32, CompoundName)>::empty()
//@@ end
    /// The first declaration of each URN anchor among the first n is the one recorded.
    spec fn urns_from(&self, s: Seq<&pext::SimpleExtensionUrn>, n: int) -> bool {
        &&& forall|a: u32| #[trigger] self.has_urn(a) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).extension_urn_anchor == a
        &&& forall|i: int| 0 <= i < n ==> self.has_urn((#[trigger] s[i]).extension_urn_anchor) && (urn_first(s, i) ==> self.urns@[s[i].extension_urn_anchor]@ == s[i].urn@)
    }
    /// The same for extensions, per kind and anchor.
    spec fn exts_from(&self, s: Seq<&pext::SimpleExtensionDeclaration>, n: int) -> bool {
        &&& forall|k: ExtensionKind, a: u32| #[trigger] self.has_ext(k, a) ==> exists|i: int| 0 <= i < n && recorded(#[trigger] s[i]) && decl_key(s[i]) == (a, k)
        &&& forall|i: int| 0 <= i < n && recorded(#[trigger] s[i]) ==> {
            let (a, k) = decl_key(s[i]);
            self.has_ext(k, a) && (ext_first(s, i) ==> self.urn_at(k, a) == decl_urn(s[i]) && self.name_at(k, a) == stored_name(k, decl_name(s[i])))
        }
    }
//@@ fn src/extensions/simple.rs SimpleExtensions::from_extensions ret=r
//@@ sub urns: impl IntoIterator<Item = &'a pext::SimpleExtensionUrn> => urns: VxIter<&'a pext::SimpleExtensionUrn>
//@@ sub extensions: impl IntoIterator<Item = &'a pext::SimpleExtensionDeclaration> => extensions: VxIter<&'a pext::SimpleExtensionDeclaration>
    ensures
        r.0.urns_from(urns@, urns@.len() as int), r.0.exts_from(extensions@, extensions@.len() as int),
        r.1@.len() == 0 <==> (forall|i: int| 0 <= i < urns@.len() ==> #[trigger] urn_first(urns@, i)) && (forall|i: int| 0 <= i < extensions@.len() ==> #[trigger] decl_good(&r.0, extensions@, i)),
//@@ loop 0 seq
    invariant
        __s0 == urns@, exts.urns_from(__s0, __n0), exts.extensions@ == Map::<(u32, ExtensionKind), (u32, CompoundName)>::empty(),
        errors@.len() == 0 <==> forall|i: int| 0 <= i < __n0 ==> #[trigger] urn_first(__s0, i),
//@@ at loop 0 start
    let ghost e0 = exts; let ghost n = __n0 - 1;
//@@ at loop 0 end
    proof { assert(__s0[n] == urn); assert(e0.has_urn(urn.extension_urn_anchor) == !urn_first(__s0, n)); assert(exts.has_urn(urn.extension_urn_anchor));
        assert forall|a: u32| #[trigger] exts.has_urn(a) implies exists|i: int| 0 <= i < __n0 && (#[trigger] __s0[i]).extension_urn_anchor == a by { if !e0.has_urn(a) { assert(__s0[n].extension_urn_anchor == a); } }
        assert forall|i: int| 0 <= i < __n0 implies exts.has_urn((#[trigger] __s0[i]).extension_urn_anchor) && (urn_first(__s0, i) ==> exts.urns@[__s0[i].extension_urn_anchor]@ == __s0[i].urn@) by { if i < n { assert(e0.has_urn(__s0[i].extension_urn_anchor)); } }
        assert(exts.urns_from(__s0, __n0)); }
//@@ loop 1 seq
    invariant
        __s1 == extensions@, exts.exts_from(__s1, __n1), exts.urns_from(urns@, urns@.len() as int),
        errors@.len() == 0 <==> (forall|i: int| 0 <= i < urns@.len() ==> #[trigger] urn_first(urns@, i)) && (forall|i: int| 0 <= i < __n1 ==> #[trigger] decl_good(&exts, __s1, i)),
//@@ at loop 1 start
    let ghost e0 = exts; let ghost n = __n1 - 1; let ghost d = *extension; let ghost r0 = errors@;
//@@ at loop 1 end
    proof {
        let (a, k) = decl_key(&d);
        assert(__s1[n] == extension);
        assert forall|i: int| #![trigger decl_good(&exts, __s1, i)] #![trigger decl_good(&e0, __s1, i)] 0 <= i < n implies decl_good(&exts, __s1, i) == decl_good(&e0, __s1, i) by {}
        if recorded(&d) {
            assert(e0.has_ext(k, a) == !ext_first(__s1, n));
        }
        assert forall|kk: ExtensionKind, b: u32| #[trigger] exts.has_ext(kk, b) implies exists|i: int| 0 <= i < __n1 && recorded(#[trigger] __s1[i]) && decl_key(__s1[i]) == (b, kk) by { if !e0.has_ext(kk, b) { assert(decl_key(__s1[n]) == (b, kk)); } }
        assert(exts.urns == e0.urns);
        assert forall|x: u32| #[trigger] exts.has_urn(x) implies e0.has_urn(x) by {}
        assert(exts.urns_from(urns@, urns@.len() as int)) by { assert forall|i: int| 0 <= i < urns@.len() implies exts.has_urn((#[trigger] urns@[i]).extension_urn_anchor) by { assert(e0.has_urn(urns@[i].extension_urn_anchor)); } }
        assert forall|i: int| 0 <= i < __n1 && recorded(#[trigger] __s1[i]) implies exts.has_ext(decl_key(__s1[i]).1, decl_key(__s1[i]).0) && (ext_first(__s1, i) ==> exts.urn_at(decl_key(__s1[i]).1, decl_key(__s1[i]).0) == decl_urn(__s1[i]) && exts.name_at(decl_key(__s1[i]).1, decl_key(__s1[i]).0) == stored_name(decl_key(__s1[i]).1, decl_name(__s1[i]))) by {
            if i < n { assert(e0.has_ext(decl_key(__s1[i]).1, decl_key(__s1[i]).0)); if recorded(&d) && decl_key(__s1[i]) == (a, k) { assert(!ext_first(__s1, n)); } }
        }
        assert(exts.exts_from(__s1, __n1));
        assert(errors@.len() == r0.len() <==> decl_good(&exts, __s1, n));
    }
//@@ end
    spec fn listed(&self) -> bool { forall|k: ExtensionKind, b: u32| #[trigger] self.has_ext(k, b) ==> exists|i: int| 0 <= i < self.extensions.order().len() && #[trigger] self.extensions.order()[i] == (b, k) }
    /// No other extension of the kind has the same base name.
    spec fn base_unique(&self, kind: ExtensionKind, a: u32) -> bool { forall|b: u32| #[trigger] self.has_ext(kind, b) && b != a ==> base_of(self.name_at(kind, b)) != base_of(self.name_at(kind, a)) }
    /// No other extension of the kind has the same full name.
    spec fn full_unique(&self, kind: ExtensionKind, a: u32) -> bool { forall|b: u32| #[trigger] self.has_ext(kind, b) && b != a ==> self.name_at(kind, b) != self.name_at(kind, a) }
//@@ fn src/extensions/simple.rs SimpleExtensions::is_name_unique ret=r
    ensures match r { Ok(u) => self.has_ext(kind, anchor) && self.name_at(kind, anchor) == name@ && u == self.full_unique(kind, anchor), Err(_) => !self.has_ext(kind, anchor) || self.name_at(kind, anchor) != name@ }
//@@ at start
    let ghost o = self.extensions.order();
    proof { lemma_listed(self); }
//@@ loop 0 seq
    invariant_except_break
        found == exists|i: int| 0 <= i < __n0 && #[trigger] o[i] == (anchor, kind),
        other == exists|i: int| 0 <= i < __n0 && (#[trigger] o[i]).1 == kind && o[i].0 != anchor && self.name_at(kind, o[i].0) == name@,
    invariant
        o == self.extensions.order(), __s0 == entries(&self.extensions), self.listed(),
        found ==> self.has_ext(kind, anchor) && self.name_at(kind, anchor) == name@,
        other ==> exists|b: u32| b != anchor && #[trigger] self.has_ext(kind, b) && self.name_at(kind, b) == name@,
    ensures
        found || !self.has_ext(kind, anchor),
        found && !other ==> self.full_unique(kind, anchor),
//@@ at loop 0 start
    proof {
        broadcast use axiom_order;
        assert(self.extensions@.contains_key(o[__n0 - 1]));
        assert(self.has_ext(o[__n0 - 1].1, o[__n0 - 1].0));
        assert(__s0[__n0 - 1] == entry_at(&self.extensions, __n0 - 1));
    }
//@@ end
}
/// The declaration in a plan of this kind, anchor, URN and name.
spec fn decl_is(d: pext::SimpleExtensionDeclaration, kind: ExtensionKind, anchor: u32, urn: u32, name: Seq<char>) -> bool {
    match d.mapping_type {
        Some(MappingType::ExtensionFunction(f)) => kind == ExtensionKind::Function && f.extension_urn_reference == urn && f.function_anchor == anchor && f.name@ == name,
        Some(MappingType::ExtensionType(f)) => kind == ExtensionKind::Type && f.extension_urn_reference == urn && f.type_anchor == anchor && f.name@ == name,
        Some(MappingType::ExtensionTypeVariation(f)) => kind == ExtensionKind::TypeVariation && f.extension_urn_reference == urn && f.type_variation_anchor == anchor && f.name@ == name,
        None => false,
    }
}
spec fn urn_first(s: Seq<&pext::SimpleExtensionUrn>, i: int) -> bool { forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).extension_urn_anchor != s[i].extension_urn_anchor }
/// Anchor and kind of a declaration that has one.
spec fn decl_key(d: &pext::SimpleExtensionDeclaration) -> (u32, ExtensionKind) { match d.mapping_type { Some(MappingType::ExtensionFunction(f)) => (f.function_anchor, ExtensionKind::Function), Some(MappingType::ExtensionType(f)) => (f.type_anchor, ExtensionKind::Type), Some(MappingType::ExtensionTypeVariation(f)) => (f.type_variation_anchor, ExtensionKind::TypeVariation), None => (0, ExtensionKind::Function) } }
spec fn decl_name(d: &pext::SimpleExtensionDeclaration) -> Seq<char> { match d.mapping_type { Some(MappingType::ExtensionFunction(f)) => f.name@, Some(MappingType::ExtensionType(f)) => f.name@, Some(MappingType::ExtensionTypeVariation(f)) => f.name@, None => seq![] } }
spec fn decl_urn(d: &pext::SimpleExtensionDeclaration) -> u32 { match d.mapping_type { Some(MappingType::ExtensionFunction(f)) => f.extension_urn_reference, Some(MappingType::ExtensionType(f)) => f.extension_urn_reference, Some(MappingType::ExtensionTypeVariation(f)) => f.extension_urn_reference, None => 0 } }
spec fn recorded(d: &pext::SimpleExtensionDeclaration) -> bool { d.mapping_type is Some && !bad_name(decl_key(d).1, decl_name(d)) }
spec fn ext_first(s: Seq<&pext::SimpleExtensionDeclaration>, i: int) -> bool { forall|j: int| 0 <= j < i ==> !(recorded(#[trigger] s[j]) && decl_key(s[j]) == decl_key(s[i])) }
/// Not reported: complete, with a name the kind may have, the first with its anchor, and of a declared URN.
spec fn decl_good(e: &SimpleExtensions, s: Seq<&pext::SimpleExtensionDeclaration>, i: int) -> bool { recorded(s[i]) && ext_first(s, i) && e.has_urn(decl_urn(s[i])) }
/// A table written to a plan (to_extension_urns, to_extension_declarations) and read back (from_extensions) is the same table,
/// and nothing is reported when every URN it refers to is declared.
proof fn theorem_table_survives(e: &SimpleExtensions, us: Seq<&pext::SimpleExtensionUrn>, ds: Seq<&pext::SimpleExtensionDeclaration>, t: &SimpleExtensions)
    requires
        us.len() == e.urns.order().len(), forall|i: int| 0 <= i < us.len() ==> (#[trigger] us[i]).extension_urn_anchor == e.urns.order()[i] && us[i].urn@ == e.urns@[e.urns.order()[i]]@,
        ds.len() == e.extensions.order().len(), forall|i: int| 0 <= i < ds.len() ==> decl_is(*#[trigger] ds[i], e.extensions.order()[i].1, e.extensions.order()[i].0, e.extensions@[e.extensions.order()[i]].0, e.extensions@[e.extensions.order()[i]].1.name@),
        forall|k: ExtensionKind, a: u32| #[trigger] e.has_ext(k, a) ==> !starts(e.name_at(k, a), "u!"@),
        t.urns_from(us, us.len() as int), t.exts_from(ds, ds.len() as int),
    ensures
        forall|a: u32| #[trigger] t.has_urn(a) == e.has_urn(a), forall|a: u32| #[trigger] e.has_urn(a) ==> t.urns@[a]@ == e.urns@[a]@,
        forall|k: ExtensionKind, a: u32| #[trigger] t.has_ext(k, a) == e.has_ext(k, a),
        forall|k: ExtensionKind, a: u32| #[trigger] e.has_ext(k, a) ==> t.name_at(k, a) == e.name_at(k, a) && t.urn_at(k, a) == e.urn_at(k, a),
        forall|i: int| 0 <= i < us.len() ==> #[trigger] urn_first(us, i),
        (forall|k: ExtensionKind, a: u32| #[trigger] e.has_ext(k, a) ==> e.has_urn(e.urn_at(k, a))) ==> forall|i: int| 0 <= i < ds.len() ==> #[trigger] decl_good(t, ds, i),
{
    broadcast use axiom_order;
    let uo = e.urns.order(); let o = e.extensions.order();
    assert forall|i: int| 0 <= i < us.len() implies #[trigger] urn_first(us, i) by { assert forall|j: int| 0 <= j < i implies (#[trigger] us[j]).extension_urn_anchor != us[i].extension_urn_anchor by { assert(uo[j] != uo[i]); } }
    assert forall|a: u32| #[trigger] t.has_urn(a) implies e.has_urn(a) by { let i = choose|i: int| 0 <= i < us.len() && (#[trigger] us[i]).extension_urn_anchor == a; assert(e.urns@.contains_key(uo[i])); }
    assert forall|a: u32| #[trigger] e.has_urn(a) implies t.has_urn(a) && t.urns@[a]@ == e.urns@[a]@ by { assert(uo.contains(a)); let i = choose|i: int| 0 <= i < uo.len() && uo[i] == a; assert(us[i].extension_urn_anchor == a && urn_first(us, i)); }
    assert forall|i: int| 0 <= i < ds.len() implies recorded(#[trigger] ds[i]) && decl_key(ds[i]) == o[i] && ext_first(ds, i) && e.has_ext(o[i].1, o[i].0) && decl_urn(ds[i]) == e.urn_at(o[i].1, o[i].0) by {
        assert(e.extensions@.contains_key(o[i])); assert(e.has_ext(o[i].1, o[i].0));
        assert forall|j: int| 0 <= j < i implies !(recorded(#[trigger] ds[j]) && decl_key(ds[j]) == decl_key(ds[i])) by { assert(o[j] != o[i]); assert(decl_is(*ds[j], o[j].1, o[j].0, e.extensions@[o[j]].0, e.extensions@[o[j]].1.name@)); }
    }
    assert forall|k: ExtensionKind, a: u32| #[trigger] t.has_ext(k, a) implies e.has_ext(k, a) by { let i = choose|i: int| 0 <= i < ds.len() && recorded(#[trigger] ds[i]) && decl_key(ds[i]) == (a, k); assert(e.has_ext(o[i].1, o[i].0)); }
    assert forall|k: ExtensionKind, a: u32| #[trigger] e.has_ext(k, a) implies t.has_ext(k, a) && t.name_at(k, a) == e.name_at(k, a) && t.urn_at(k, a) == e.urn_at(k, a) by {
        assert(o.contains((a, k))); let i = choose|i: int| 0 <= i < o.len() && o[i] == (a, k); assert(recorded(ds[i]) && decl_key(ds[i]) == (a, k));
    }
}
proof fn lemma_listed(e: &SimpleExtensions)
    ensures e.listed()
{
    broadcast use axiom_order;
    assert forall|k: ExtensionKind, b: u32| #[trigger] e.has_ext(k, b) implies exists|i: int| 0 <= i < e.extensions.order().len() && #[trigger] e.extensions.order()[i] == (b, k) by { assert(e.extensions.order().contains((b, k))); }
}
/// The entries selected by q are exactly the extensions of this kind with that name.
proof fn lemma_anchors<'a>(e: &'a SimpleExtensions, kind: ExtensionKind, exact: bool, w: Seq<char>, s: Seq<(&'a (u32, ExtensionKind), &'a (u32, CompoundName))>, q: spec_fn((&'a (u32, ExtensionKind), &'a (u32, CompoundName))) -> bool)
    requires s == entries(&e.extensions), q == (|x: (&'a (u32, ExtensionKind), &'a (u32, CompoundName))| x.0.1 == kind && name_is(exact, x.1.1.name@, w))
    ensures
        s.filter(q).len() == 0 ==> forall|a: u32| !#[trigger] e.only(kind, exact, w, a),
        s.filter(q).len() == 1 ==> e.only(kind, exact, w, s.filter(q)[0].0.0),
        s.filter(q).len() > 1 ==> forall|a: u32| !#[trigger] e.only(kind, exact, w, a),
{
    broadcast use axiom_order;
    lemma_filter(s, q);
    let f = s.filter(q); let o = e.extensions.order();
    assert forall|b: u32| #[trigger] e.has_ext(kind, b) && name_is(exact, e.name_at(kind, b), w) implies exists|i: int| 0 <= i < f.len() && f[i].0.0 == b by {
        let i = choose|i: int| 0 <= i < o.len() && o[i] == (b, kind); assert(q(s[i])); let j = choose|j: int| 0 <= j < f.len() && f[j] == s[i]; assert(f[j].0.0 == b);
    }
    assert forall|i: int| 0 <= i < f.len() implies e.has_ext(kind, (#[trigger] f[i]).0.0) && name_is(exact, e.name_at(kind, f[i].0.0), w) by {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == f[i]; assert(o[j] == (f[i].0.0, kind));
    }
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(o[i] != o[j]); } else { assert(o[j] != o[i]); } } }
    if f.len() > 1 {
        assert(f[0] != f[1]);
        let i = choose|i: int| 0 <= i < s.len() && s[i] == f[0]; let j = choose|j: int| 0 <= j < s.len() && s[j] == f[1];
        assert(o[i] == (f[0].0.0, kind) && o[j] == (f[1].0.0, kind)); assert(f[0].0.0 != f[1].0.0);
        assert(e.has_ext(kind, f[0].0.0) && e.has_ext(kind, f[1].0.0));
    }
}
spec fn name_is(exact: bool, stored: Seq<char>, w: Seq<char>) -> bool { if exact { stored == w } else { name_matches(stored, w) } }
spec fn bad_name(k: ExtensionKind, n: Seq<char>) -> bool { k != ExtensionKind::Type && starts(n, "u!"@) }
spec fn stored_name(k: ExtensionKind, n: Seq<char>) -> Seq<char> { if k == ExtensionKind::Type && starts(n, "u!"@) { n.skip("u!"@.len() as int) } else { n } }
} // verus!
