@module list src/list.rs
@type List attr:reject_recursive_types(T)
@raw
pub type Names<T> = Map<Seq<char>, (String, Rc<T>)>;
pub open spec fn is_alias(es: Map<Seq<char>, String>, a: Seq<char>) -> bool { exists|x: Seq<char>| #[trigger] es.dom().contains(x) && lower(es[x]@) == a }
pub type Aliases = Map<Seq<char>, (String, String)>;
impl<T> List<T> {
    /// every alias leads to an element
    pub open spec fn targets_ok(&self) -> bool { forall|a: Seq<char>| #[trigger] self.aliases@.dom().contains(a) ==> self.list@.dom().contains(self.aliases@[a].1@) }
    /// what a name or alias stands for: names first, both without regard to case
    pub open spec fn find(&self, k: Seq<char>) -> Option<Rc<T>> {
        if self.list@.dom().contains(lower(k)) { Some(self.list@[lower(k)].1) }
        else if self.aliases@.dom().contains(lower(k)) { Some(self.list@[self.aliases@[lower(k)].1@].1) } else { None }
    }
}
pub open spec fn name_hit<T: HasName>(l: Names<T>, p: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] l.dom().contains(k) && re_matches(p, l[k].1.name_s()) }
pub open spec fn alias_hit(m: Aliases, p: Seq<char>) -> bool { exists|a: Seq<char>| #[trigger] m.dom().contains(a) && re_matches(p, a) }
/// element k is a right answer for the pattern: by name, or by alias if no name matches
pub open spec fn hit<T: HasName>(l: Names<T>, m: Aliases, p: Seq<char>, k: Seq<char>) -> bool {
    l.dom().contains(k) && (re_matches(p, l[k].1.name_s()) || (!name_hit(l, p) && exists|a: Seq<char>| #[trigger] m.dom().contains(a) && re_matches(p, a) && m[a].1@ == k))
}
/// nothing that could be looked up is lost or redirected
pub open spec fn grows<T>(a: List<T>, b: List<T>) -> bool { forall|k: Seq<char>| #[trigger] a.find(k) is Some ==> b.find(k) == a.find(k) }
pub broadcast proof fn grows_trans<T>(a: List<T>, b: List<T>, c: List<T>) requires #[trigger] grows(a, b), #[trigger] grows(b, c) ensures grows(a, c)
{ assert forall|k: Seq<char>| #[trigger] a.find(k) is Some implies c.find(k) == a.find(k) by { assert(b.find(k) == a.find(k)); } }
impl<T: HasName> List<T> {
    pub open spec fn keys_ok(&self) -> bool {
        (forall|k: Seq<char>| #[trigger] self.list@.dom().contains(k) ==> k == lower(self.list@[k].1.name_s()))
        && (forall|a: Seq<char>| #[trigger] self.aliases@.dom().contains(a) ==> lower(a) == a)
    }
    /// remembered lookups are still right
    pub open spec fn cache_ok(&self) -> bool {
        forall|p: Seq<char>| #[trigger] self.matches@.dom().contains(p) ==> match self.matches@[p].1 {
            Some(k) => hit(self.list@, self.aliases@, p, k@), None => !name_hit(self.list@, p) && !alias_hit(self.aliases@, p) }
    }
    pub open spec fn wf(&self) -> bool { self.targets_ok() && self.keys_ok() && self.cache_ok() }
}
pub proof fn lemma_merge<K: KeyId, V>(m: Map<K::Id, (K, V)>, s: Seq<(K, V)>, o: Map<K::Id, (K, V)>, n: int)
    requires enumerates_own(s, o), 0 <= n <= s.len()
    ensures
        forall|id: K::Id| #[trigger] extend_with(m, s, n).dom().contains(id) <==> (m.dom().contains(id) || exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kid() == id),
        forall|id: K::Id| #[trigger] extend_with(m, s, n).dom().contains(id) ==> extend_with(m, s, n)[id].1 == (if exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kid() == id { o[id].1 } else { m[id].1 }),
    decreases n
{
    if n > 0 {
        lemma_merge(m, s, o, n - 1);
        let e0 = extend_with(m, s, n - 1); let e1 = extend_with(m, s, n); let k = s[n - 1].0.kid();
        assert(o.dom().contains(k) && o[k] == s[n - 1]);
        assert forall|id: K::Id| #[trigger] e1.dom().contains(id) <==> (m.dom().contains(id) || exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kid() == id) by {
            assert(e0.dom().contains(id) <==> (m.dom().contains(id) || exists|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).0.kid() == id));
            if id == k { assert(s[n - 1].0.kid() == id); } else { if e1.dom().contains(id) { assert(e0.dom().contains(id)); } }
        }
        assert forall|id: K::Id| #[trigger] e1.dom().contains(id) implies e1[id].1 == (if exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kid() == id { o[id].1 } else { m[id].1 }) by {
            if id == k { assert(s[n - 1].0.kid() == id); } else { assert(e0.dom().contains(id)); assert((exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kid() == id) <==> (exists|i: int| 0 <= i < n - 1 && (#[trigger] s[i]).0.kid() == id)); }
        }
    }
}
pub broadcast proof fn merge_b<K: KeyId, V>(m: Map<K::Id, (K, V)>, s: Seq<(K, V)>, o: Map<K::Id, (K, V)>)
    requires #[trigger] enumerates_own(s, o)
    ensures
        forall|id: K::Id| #[trigger] (#[trigger] extend_with(m, s, s.len() as int)).dom().contains(id) <==> (m.dom().contains(id) || o.dom().contains(id)),
        forall|id: K::Id| #[trigger] extend_with(m, s, s.len() as int).dom().contains(id) ==> extend_with(m, s, s.len() as int)[id].1 == (if o.dom().contains(id) { o[id].1 } else { m[id].1 }),
{ lemma_merge(m, s, o, s.len() as int);
  assert forall|id: K::Id| (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.kid() == id) <==> #[trigger] o.dom().contains(id) by { } }
impl<T> VToOwned for List<T> { type Own = List<T>; open spec fn own_ens(&self, r: List<T>) -> bool { r == *self } #[verifier::external_body] fn v_to_owned(&self) -> (r: List<T>) { unimplemented!() } }
@fn List<T>::new
ensures r.wf(), forall|k: Seq<char>| #[trigger] r.find(k) is None, r.list@ == Names::<T>::empty(), r.aliases@ == Aliases::empty()
@fn List<T>::insert
requires old(self).wf()
ensures
  final(self).wf(),
  //# a name that is taken keeps its element
  old(self).list@.dom().contains(lower(element.name_s())) ==> final(self).list@ == old(self).list@ && final(self).aliases@ == old(self).aliases@,
  !old(self).list@.dom().contains(lower(element.name_s())) ==> final(self).list@.dom() == old(self).list@.dom().insert(lower(element.name_s()))
    && *final(self).list@[lower(element.name_s())].1 == element
    && (forall|k: Seq<char>| k != lower(element.name_s()) && #[trigger] old(self).list@.dom().contains(k) ==> final(self).list@[k] == old(self).list@[k])
    && (forall|a: Seq<char>| #[trigger] final(self).aliases@.dom().contains(a) <==> (old(self).aliases@.dom().contains(a) || is_alias(element.aliases_s(), a)))
    && (forall|a: Seq<char>| #[trigger] final(self).aliases@.dom().contains(a) ==> final(self).aliases@[a].1@ == (if is_alias(element.aliases_s(), a) { lower(element.name_s()) } else { old(self).aliases@[a].1@ })),
  //# entering a new name changes no other lookup
  old(self).find(element.name_s()) is None && element.aliases_s().dom() == Set::<Seq<char>>::empty() ==> grows(*old(self), *final(self)) && final(self).find(element.name_s()) is Some && *final(self).find(element.name_s())->0 == element && final(self).aliases@.dom() =~= old(self).aliases@.dom()
@ghost start
broadcast use lower_idem;
let ghost s0 = *self; let ghost el0 = element;
let ghost a0 = self.aliases@; let ghost l0 = self.list@;
@loop 0
self.list@ == l0,
forall|a: Seq<char>| #[trigger] self.aliases@.dom().contains(a) <==> (a0.dom().contains(a) || exists|j: int| 0 <= j < i0 && lower((#[trigger] it0@[j])@) == a),
forall|a: Seq<char>| #[trigger] self.aliases@.dom().contains(a) ==> self.aliases@[a].1@ == (if exists|j: int| 0 <= j < i0 && lower((#[trigger] it0@[j])@) == a { lower(element.name_s()) } else { a0[a].1@ }),
@ghost top 0
let ghost ap = self.aliases@;
@ghost bot 0
proof { let k = lower(it0@[i0 - 1]@);
  assert forall|a: Seq<char>| #[trigger] self.aliases@.dom().contains(a) <==> (a0.dom().contains(a) || exists|j: int| 0 <= j < i0 && lower((#[trigger] it0@[j])@) == a) by {
    assert(ap.dom().contains(a) <==> (a0.dom().contains(a) || exists|j: int| 0 <= j < i0 - 1 && lower((#[trigger] it0@[j])@) == a));
    if a == k { assert(lower(it0@[i0 - 1]@) == a); } else if self.aliases@.dom().contains(a) { assert(ap.dom().contains(a)); } }
  assert forall|a: Seq<char>| #[trigger] self.aliases@.dom().contains(a) implies self.aliases@[a].1@ == (if exists|j: int| 0 <= j < i0 && lower((#[trigger] it0@[j])@) == a { lower(element.name_s()) } else { a0[a].1@ }) by {
    if a == k { assert(lower(it0@[i0 - 1]@) == a); } else { assert(ap.dom().contains(a)); assert((exists|j: int| 0 <= j < i0 && lower((#[trigger] it0@[j])@) == a) <==> (exists|j: int| 0 <= j < i0 - 1 && lower((#[trigger] it0@[j])@) == a)); } } }
@ghost after 0
proof { let es = element.aliases_s();
  assert forall|a: Seq<char>| #[trigger] is_alias(es, a) <==> (exists|j: int| 0 <= j < it0@.len() && lower((#[trigger] it0@[j])@) == a) by {
    if exists|x: Seq<char>| #[trigger] es.dom().contains(x) && lower(es[x]@) == a { let x = choose|x: Seq<char>| #[trigger] es.dom().contains(x) && lower(es[x]@) == a; let j = choose|j: int| 0 <= j < it0@.len() && (#[trigger] it0@[j]).kid() == x; assert(lower(it0@[j]@) == a); }
    if exists|j: int| 0 <= j < it0@.len() && lower((#[trigger] it0@[j])@) == a { let j = choose|j: int| 0 <= j < it0@.len() && lower((#[trigger] it0@[j])@) == a; assert(es.dom().contains(it0@[j].kid())); } } }
@ghost tail
proof { if s0.find(el0.name_s()) is None && el0.aliases_s().dom() == Set::<Seq<char>>::empty() {
  let d = lower(el0.name_s()); 
  assert forall|a: Seq<char>| !(#[trigger] is_alias(el0.aliases_s(), a)) by { }
  assert forall|n: Seq<char>| #[trigger] s0.find(n) is Some implies self.find(n) == s0.find(n) by { let k = lower(n); assert(k != d);
    if l0.dom().contains(k) { assert(self.list@[k] == l0[k]); } else { let a = a0[k].1@; assert(a0.dom().contains(k)); assert(!self.list@.dom().contains(k)); assert(self.aliases@.dom().contains(k)); assert(self.aliases@[k].1@ == a); assert(l0.dom().contains(a)); assert(self.list@[a] == l0[a]); } } } }
@fn List<T>::add_alias | maypanic
requires old(self).wf(), old(self).list@.dom().contains(lower(for_element.name_s()))
ensures
  //# a repeated alias is not redirected: the call does not return
  !old(self).aliases@.dom().contains(lower(alias@)),
  final(self).wf(), final(self).list@ == old(self).list@,
  final(self).aliases@.dom() == old(self).aliases@.dom().insert(lower(alias@)),
  final(self).aliases@[lower(alias@)].1@ == lower(for_element.name_s()),
  forall|a: Seq<char>| a != lower(alias@) && #[trigger] old(self).aliases@.dom().contains(a) ==> final(self).aliases@[a] == old(self).aliases@[a],
  grows(*old(self), *final(self)), final(self).find(alias@) is Some,
  old(self).find(alias@) is None ==> final(self).find(alias@)->0 == old(self).list@[lower(for_element.name_s())].1,
@ghost start
broadcast use lower_idem;
@fn List<T>::get
requires self.targets_ok()
ensures match self.find(index@) { Some(e) => r is Ok && *r->Ok_0 == e, None => r is Err }
@fn List<T>::get_regex
requires old(self).wf()
ensures
  final(self).wf(), final(self).list@ == old(self).list@, final(self).aliases@ == old(self).aliases@,
  r is Some ==> exists|k: Seq<char>| #[trigger] hit(old(self).list@, old(self).aliases@, regex@, k) && *r->0 == old(self).list@[k].1,
  r is None <==> !name_hit(old(self).list@, regex@) && !alias_hit(old(self).aliases@, regex@),
@ghost start
broadcast use hashmap_inv; broadcast use lower_idem;
let ghost s0 = *self;
@loop 0
*self == s0,
forall|j: int| 0 <= j < i0 ==> !re_matches(regex@, (#[trigger] it0@[j]).1.name_s()),
@ghost top 0
proof { let k = it0@[i0 - 1].0.kid(); assert(s0.list@.dom().contains(k)); assert(re_matches(regex@, s0.list@[k].1.name_s()) ==> hit(s0.list@, s0.aliases@, regex@, k)); }
@loop 1
*self == s0,
!name_hit(s0.list@, regex@),
forall|j: int| 0 <= j < i1 ==> !re_matches(regex@, (#[trigger] it1@[j]).0@),
@ghost top 1
proof { let a = it1@[i1 - 1].0.kid(); assert(s0.aliases@.dom().contains(a)); assert(re_matches(regex@, a) ==> hit(s0.list@, s0.aliases@, regex@, s0.aliases@[a].1@)); }
@ghost after 1
proof { assert forall|a: Seq<char>| #[trigger] s0.aliases@.dom().contains(a) implies !re_matches(regex@, a) by { let j = choose|j: int| 0 <= j < it1@.len() && (#[trigger] it1@[j]).0.kid() == a; } }
@ghost after 0
proof { assert forall|k: Seq<char>| #[trigger] s0.list@.dom().contains(k) implies !re_matches(regex@, s0.list@[k].1.name_s()) by { let j = choose|j: int| 0 <= j < it0@.len() && (#[trigger] it0@[j]).0.kid() == k; } }
@fn List<T>::iter
ensures enumerates(r@, self.list@)
@fn List<T>::values
ensures enumerates_vals::<String, Rc<T>>(r@, self.list@)
@fn List<T>::len
ensures r == self.list@.dom().len()
@fn List<T>::len_alias
requires self.list@.dom().len() + self.aliases@.dom().len() <= usize::MAX
ensures r == self.list@.dom().len() + self.aliases@.dom().len()
@fn List<T>::append
ensures
  forall|k: Seq<char>| #[trigger] final(self).list@.dom().contains(k) <==> old(self).list@.dom().contains(k) || other.list@.dom().contains(k),
  forall|k: Seq<char>| #[trigger] final(self).list@.dom().contains(k) ==> final(self).list@[k].1 == (if other.list@.dom().contains(k) { other.list@[k].1 } else { old(self).list@[k].1 }),
  forall|k: Seq<char>| #[trigger] final(self).aliases@.dom().contains(k) <==> old(self).aliases@.dom().contains(k) || other.aliases@.dom().contains(k),
  forall|k: Seq<char>| #[trigger] final(self).aliases@.dom().contains(k) ==> final(self).aliases@[k].1 == (if other.aliases@.dom().contains(k) { other.aliases@[k].1 } else { old(self).aliases@[k].1 }),
  final(self).matches@ == Map::<Seq<char>, (String, Option<String>)>::empty(),
@ghost start
broadcast use merge_b;
@end
