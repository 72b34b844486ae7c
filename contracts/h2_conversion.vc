@module conversion src/models/price.rs
@raw
impl KeyId for Node { type Id = Nid; open spec fn kid(&self) -> Nid { (self.currency.kid(), self.date@) } }
@type Node eqkid
@type Edge
@type Graph
@raw
/// a commodity on a day
pub type Nid = (Seq<char>, int);
pub open spec fn p_from(p: Price) -> Seq<char> { p.commodity.kid() }
pub open spec fn p_to(p: Price) -> Seq<char> { p.price.cid()->0 }
pub open spec fn same_pair(p: Price, q: Price) -> bool { (p_from(p) == p_from(q) && p_to(p) == p_to(q)) || (p_from(p) == p_to(q) && p_to(p) == p_from(q)) }
/// price i is the newest of its two commodities that is not after the day
pub open spec fn newest(ps: Seq<Price>, day: int, i: int) -> bool {
    0 <= i < ps.len() && ps[i].date@ <= day && forall|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).date@ <= day && same_pair(ps[j], ps[i]) ==> ps[j].date@ <= ps[i].date@
}
/// a chain of newest prices, each used forwards or backwards
pub ghost struct Step { pub i: int, pub fwd: bool }
pub open spec fn step_from(ps: Seq<Price>, s: Step) -> Seq<char> { if s.fwd { p_from(ps[s.i]) } else { p_to(ps[s.i]) } }
pub open spec fn step_to(ps: Seq<Price>, s: Step) -> Seq<char> { if s.fwd { p_to(ps[s.i]) } else { p_from(ps[s.i]) } }
pub open spec fn step_rate(ps: Seq<Price>, s: Step) -> real { if s.fwd { ps[s.i].price.amt() } else { 1real / ps[s.i].price.amt() } }
pub open spec fn chain(ps: Seq<Price>, day: int, t: Seq<char>, c: Seq<char>, w: Seq<Step>) -> bool decreases w.len() {
    if w.len() == 0 { c == t } else { newest(ps, day, w[0].i) && step_from(ps, w[0]) == c && chain(ps, day, t, step_to(ps, w[0]), w.drop_first()) }
}
pub open spec fn product(ps: Seq<Price>, w: Seq<Step>) -> real decreases w.len() { if w.len() == 0 { 1real } else { step_rate(ps, w[0]) * product(ps, w.drop_first()) } }
pub open spec fn absi(x: int) -> int { if x < 0 { -x } else { x } }
/// days between d, the days of the prices of the chain, and the day of the conversion
pub open spec fn waiting(ps: Seq<Price>, day: int, d: int, w: Seq<Step>) -> int decreases w.len() {
    if w.len() == 0 { absi(d - day) } else { absi(d - ps[w[0].i].date@) + waiting(ps, day, ps[w[0].i].date@, w.drop_first()) }
}
/// d is the last day with a price of c
pub open spec fn last_day(ps: Seq<Price>, day: int, c: Seq<char>, d: int) -> bool {
    &&& exists|i: int| 0 <= i < ps.len() && #[trigger] ps[i].date@ == d && d <= day && (p_from(ps[i]) == c || p_to(ps[i]) == c)
    &&& forall|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).date@ <= day && (p_from(ps[i]) == c || p_to(ps[i]) == c) ==> ps[i].date@ <= d
}
pub open spec fn best(ps: Seq<Price>, day: int, t: Seq<char>, c: Seq<char>, w: Seq<Step>) -> bool {
    &&& chain(ps, day, t, c, w)
    &&& exists|d: int| #[trigger] last_day(ps, day, c, d) && forall|w2: Seq<Step>| #[trigger] chain(ps, day, t, c, w2) ==> waiting(ps, day, d, w) <= waiting(ps, day, d, w2)
}
/// C06: the rates m to the commodity t
pub open spec fn rates(ps: Seq<Price>, day: int, t: Seq<char>, m: Map<Seq<char>, (Rc<Currency>, BigRational)>) -> bool {
    &&& !m.dom().contains(t)
    &&& forall|c: Seq<char>| #[trigger] m.dom().contains(c) ==> exists|w: Seq<Step>| #[trigger] best(ps, day, t, c, w) && m[c].1@ == product(ps, w)
    &&& forall|c: Seq<char>, w: Seq<Step>| c != t && #[trigger] chain(ps, day, t, c, w) ==> m.dom().contains(c)
}
// ---- the graph
pub open spec fn endpoint(p: Price, id: Nid) -> bool { id.1 == p.date@ && (id.0 == p_from(p) || id.0 == p_to(p)) }
pub open spec fn node_id(ps: Seq<Price>, day: int, t: Seq<char>, id: Nid) -> bool { id == (t, day) || exists|i: int| #[trigger] newest(ps, day, i) && endpoint(ps[i], id) }
pub open spec fn joins(e: Edge, a: Nid, b: Nid) -> bool { (e.from.kid() == a && e.to.kid() == b) || (e.from.kid() == b && e.to.kid() == a) }
pub open spec fn touches(e: Edge, a: Nid) -> bool { e.from.kid() == a || e.to.kid() == a }
pub open spec fn touches_at(es: Seq<Rc<Edge>>, i: int, a: Nid) -> bool { touches(*es[i], a) }
pub open spec fn other(e: Edge, a: Nid) -> Nid { if e.from.kid() == a { e.to.kid() } else { e.from.kid() } }
pub open spec fn elen(e: Edge) -> int { absi(e.from.date@ - e.to.date@) }
pub open spec fn edge_ok(ps: Seq<Price>, day: int, t: Seq<char>, e: Edge) -> bool {
    node_id(ps, day, t, e.from.kid()) && node_id(ps, day, t, e.to.kid()) && match e.price {
        Some(p) => (exists|i: int| #[trigger] newest(ps, day, i) && ps[i] == p) && e.from.kid() == (p_from(p), p.date@) && e.to.kid() == (p_to(p), p.date@),
        None => e.from.kid().0 == e.to.kid().0 }
}
pub open spec fn at_node(n: Seq<Rc<Node>>, id: Nid) -> bool { exists|i: int| 0 <= i < n.len() && (#[trigger] n[i]).kid() == id }
pub open spec fn uses_price(es: Seq<Rc<Edge>>, p: Price) -> bool { exists|k: int| 0 <= k < es.len() && (#[trigger] es[k]).price is Some && joins(*es[k], (p_from(p), p.date@), (p_to(p), p.date@)) }
pub open spec fn waits(es: Seq<Rc<Edge>>, a: Nid, b: Nid) -> bool { exists|k: int| 0 <= k < es.len() && (#[trigger] es[k]).price is None && joins(*es[k], a, b) }
pub open spec fn graph_ok(g: Graph, ps: Seq<Price>, day: int, t: Seq<char>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < g.nodes@.len() ==> (#[trigger] g.nodes@[i]).kid() != (#[trigger] g.nodes@[j]).kid()
    &&& forall|i: int| 0 <= i < g.nodes@.len() ==> node_id(ps, day, t, (#[trigger] g.nodes@[i]).kid())
    &&& forall|id: Nid| #[trigger] node_id(ps, day, t, id) ==> at_node(g.nodes@, id)
    &&& forall|k: int| 0 <= k < g.edges@.len() ==> edge_ok(ps, day, t, *#[trigger] g.edges@[k])
    &&& forall|i: int| #[trigger] newest(ps, day, i) ==> uses_price(g.edges@, ps[i])
    &&& forall|a: Nid, b: Nid| #[trigger] node_id(ps, day, t, a) && #[trigger] node_id(ps, day, t, b) && a.0 == b.0 ==> waits(g.edges@, a, b)
}
pub open spec fn neigh_n(es: Seq<Rc<Edge>>, id: Nid, v: Seq<(Rc<Node>, Rc<Edge>)>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> es.contains((#[trigger] v[k]).1) && touches(*v[k].1, id) && v[k].0.kid() == other(*v[k].1, id)
    &&& forall|j: int| 0 <= j < n && touches(*#[trigger] es[j], id) ==> exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).1 == es[j]
}
pub open spec fn neigh(es: Seq<Rc<Edge>>, id: Nid, v: Seq<(Rc<Node>, Rc<Edge>)>) -> bool { neigh_n(es, id, v, es.len() as int) }
pub proof fn neigh_push(es: Seq<Rc<Edge>>, id: Nid, v: Seq<(Rc<Node>, Rc<Edge>)>, n: int, x: (Rc<Node>, Rc<Edge>))
    requires neigh_n(es, id, v, n), 0 <= n < es.len(), x.1 == es[n], touches(*es[n], id), x.0.kid() == other(*es[n], id) ensures neigh_n(es, id, v.push(x), n + 1)
{ let w = v.push(x); assert forall|j: int| 0 <= j < n + 1 && touches(*#[trigger] es[j], id) implies exists|k: int| 0 <= k < w.len() && (#[trigger] w[k]).1 == es[j] by {
    if j < n { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).1 == es[j]; assert(w[k].1 == es[j]); } else { assert(w[v.len() as int].1 == es[j]); } } }
pub open spec fn cache_ok(g: Graph) -> bool { forall|id: Nid| #[trigger] g._neighbours@.dom().contains(id) ==> neigh(g.edges@, id, g._neighbours@[id].1@) }
pub open spec fn dcmp(a: Option<Duration>, b: Option<Duration>) -> Ordering {
    match (a, b) { (None, None) => Ordering::Equal, (None, Some(_)) => Ordering::Greater, (Some(_), None) => Ordering::Less, (Some(x), Some(y)) => ord_of(x@ < y@, x@ == y@) }
}
@fn Edge::length
ensures r@ == elen(*self)
@fn cmp
ensures r == dcmp(*this, *other)
@fn Graph::get_neighbours
requires cache_ok(*old(self))
ensures cache_ok(*final(self)), final(self).nodes == old(self).nodes, final(self).edges == old(self).edges, neigh(old(self).edges@, node.kid(), r@)
@loop 0
neigh_n(self.edges@, node.kid(), neighbours@, i0 as int),
@ghost top 0
let ghost n0 = neighbours@; let ghost tt = touches_at(self.edges@, i0 - 1, node.kid()); proof { assert(*edge == self.edges@[i0 - 1]); }
@ghost bot 0
proof { if tt { neigh_push(self.edges@, node.kid(), n0, i0 - 1, neighbours@.last()); assert(neighbours@ =~= n0.push(neighbours@.last())); } }
@raw
// ---- building the graph
pub type Named = ((Rc<Currency>, Rc<Currency>), Price);
pub type Nodup = Map<(Seq<char>, Seq<char>), ((Rc<Currency>, Rc<Currency>), Price)>;
pub open spec fn pair_key(p: Price) -> (Seq<char>, Seq<char>) { if str_lt(p_to(p), p_from(p)) { (p_to(p), p_from(p)) } else { (p_from(p), p_to(p)) } }
pub proof fn pair_keys(p: Price, q: Price) ensures pair_key(p) == pair_key(q) <==> same_pair(p, q) { broadcast use str_total; }
pub open spec fn one_of(ps: Seq<Price>, day: int, n: int, k: (Seq<char>, Seq<char>), p: Price) -> bool { exists|i: int| 0 <= i < n && #[trigger] ps[i] == p && p.date@ <= day && pair_key(p) == k }
pub open spec fn nodup_ok(ps: Seq<Price>, day: int, n: int, m: Nodup) -> bool {
    &&& forall|k: (Seq<char>, Seq<char>)| #[trigger] m.dom().contains(k) ==> one_of(ps, day, n, k, m[k].1)
    &&& forall|i: int| 0 <= i < n && (#[trigger] ps[i]).date@ <= day ==> m.dom().contains(pair_key(ps[i])) && m[pair_key(ps[i])].1.date@ >= ps[i].date@ && ps[i].price.cid() is Some
}
pub proof fn nodup_keeps(ps: Seq<Price>, day: int, n: int, m: Nodup)
    requires nodup_ok(ps, day, n, m), 0 <= n < ps.len(), ps[n].date@ <= day ==> ps[n].price.cid() is Some && m.dom().contains(pair_key(ps[n])) && m[pair_key(ps[n])].1.date@ >= ps[n].date@ ensures nodup_ok(ps, day, n + 1, m)
{ assert forall|k: (Seq<char>, Seq<char>)| #[trigger] m.dom().contains(k) implies one_of(ps, day, n + 1, k, m[k].1) by { assert(one_of(ps, day, n, k, m[k].1)); } }
pub proof fn nodup_adds(ps: Seq<Price>, day: int, n: int, m: Nodup, m2: Nodup)
    requires nodup_ok(ps, day, n, m), 0 <= n < ps.len(), ps[n].date@ <= day, ps[n].price.cid() is Some, m.dom().contains(pair_key(ps[n])) ==> m[pair_key(ps[n])].1.date@ <= ps[n].date@,
      forall|k: (Seq<char>, Seq<char>)| #[trigger] m2.dom().contains(k) <==> (m.dom().contains(k) || k == pair_key(ps[n])), forall|k: (Seq<char>, Seq<char>)| k != pair_key(ps[n]) && #[trigger] m.dom().contains(k) ==> m2[k].1 == m[k].1, m2[pair_key(ps[n])].1 == ps[n]
    ensures nodup_ok(ps, day, n + 1, m2)
{ let kn = pair_key(ps[n]);
  assert forall|k: (Seq<char>, Seq<char>)| #[trigger] m2.dom().contains(k) implies one_of(ps, day, n + 1, k, m2[k].1) by { if k != kn { assert(one_of(ps, day, n, k, m[k].1)); } else { assert(ps[n] == m2[k].1); } }
  assert forall|i: int| 0 <= i < n + 1 && (#[trigger] ps[i]).date@ <= day implies m2.dom().contains(pair_key(ps[i])) && m2[pair_key(ps[i])].1.date@ >= ps[i].date@ && ps[i].price.cid() is Some by { if i < n { assert(m.dom().contains(pair_key(ps[i]))); } } }
pub open spec fn is_newest(ps: Seq<Price>, day: int, p: Price) -> bool { exists|i: int| #[trigger] newest(ps, day, i) && ps[i] == p }
pub open spec fn covers(v: Seq<Named>, p: Price) -> bool { exists|k: int| 0 <= k < v.len() && same_pair((#[trigger] v[k]).1, p) && v[k].1.date@ == p.date@ }
pub open spec fn pn_ok(ps: Seq<Price>, day: int, v: Seq<Named>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> is_newest(ps, day, (#[trigger] v[k]).1)
    &&& forall|i: int| #[trigger] newest(ps, day, i) ==> covers(v, ps[i]) && ps[i].price.cid() is Some
}
pub proof fn nodup_pn(ps: Seq<Price>, day: int, m: Nodup, v: Seq<Named>)
    requires nodup_ok(ps, day, ps.len() as int, m), enumerates_own(v, m) ensures pn_ok(ps, day, v)
{
    assert forall|k: int| 0 <= k < v.len() implies is_newest(ps, day, (#[trigger] v[k]).1) by { let key = v[k].0.kid(); assert(m.dom().contains(key)); assert(one_of(ps, day, ps.len() as int, key, m[key].1));
        let i = choose|i: int| 0 <= i < ps.len() && #[trigger] ps[i] == m[key].1 && m[key].1.date@ <= day && pair_key(m[key].1) == key;
        assert forall|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).date@ <= day && same_pair(ps[j], ps[i]) implies ps[j].date@ <= ps[i].date@ by { pair_keys(ps[j], ps[i]); }
        assert(newest(ps, day, i)); }
    assert forall|i: int| #[trigger] newest(ps, day, i) implies covers(v, ps[i]) by { let key = pair_key(ps[i]); assert(m.dom().contains(key)); assert(one_of(ps, day, ps.len() as int, key, m[key].1)); let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0.kid() == key;
        let q = v[k].1; let j = choose|j: int| 0 <= j < ps.len() && #[trigger] ps[j] == q && q.date@ <= day && pair_key(q) == key; pair_keys(q, ps[i]); assert(ps[j].date@ <= ps[i].date@); }
}
pub open spec fn then_by(a: Ordering, b: Ordering) -> Ordering { if a is Equal { b } else { a } }
pub open spec fn pn_ord() -> spec_fn(Named, Named) -> Ordering { |a: Named, b: Named| then_by(str_ord(a.0.0.kid(), b.0.0.kid()), str_ord(a.0.1.kid(), b.0.1.kid())) }
pub proof fn pn_ord_ok() ensures preorder(pn_ord(), |a: Named| true)
{ broadcast use str_total, str_trans; let o = pn_ord(); let on = |a: Named| true; 
  assert forall|a: Named, b: Named, c: Named| on(a) && on(b) && on(c) && !((#[trigger] o(a, b)) is Greater) && !((#[trigger] o(b, c)) is Greater) implies !(o(a, c) is Greater) by {
    let (a0, a1, b0, b1, c0, c1) = (a.0.0.kid(), a.0.1.kid(), b.0.0.kid(), b.0.1.kid(), c.0.0.kid(), c.0.1.kid());
    if a0 == b0 { if b0 == c0 { if str_lt(a1, b1) && str_lt(b1, c1) { str_trans(a1, b1, c1); } } } else { if b0 != c0 { str_trans(a0, b0, c0); } } } }
pub open spec fn nd_ord() -> spec_fn(Rc<Node>, Rc<Node>) -> Ordering { |a: Rc<Node>, b: Rc<Node>| then_by(str_ord(a.kid().0, b.kid().0), ord_of(a.date@ < b.date@, a.date@ == b.date@)) }
pub proof fn nd_ord_ok() ensures preorder(nd_ord(), |a: Rc<Node>| true)
{ broadcast use str_total, str_trans; let o = nd_ord(); let on = |a: Rc<Node>| true;
  assert forall|a: Rc<Node>, b: Rc<Node>, c: Rc<Node>| on(a) && on(b) && on(c) && !((#[trigger] o(a, b)) is Greater) && !((#[trigger] o(b, c)) is Greater) implies !(o(a, c) is Greater) by {
    let (a0, b0, c0) = (a.kid().0, b.kid().0, c.kid().0); if a0 != b0 && b0 != c0 { str_trans(a0, b0, c0); } } }
pub proof fn pn_sorted(ps: Seq<Price>, day: int, v: Seq<Named>, v2: Seq<Named>, p: Seq<int>)
    requires pn_ok(ps, day, v), sorted_from(v, v2, p, pn_ord()) ensures pn_ok(ps, day, v2)
{ assert forall|i: int| #[trigger] newest(ps, day, i) implies covers(v2, ps[i]) by { assert(covers(v, ps[i])); let k = choose|k: int| 0 <= k < v.len() && same_pair((#[trigger] v[k]).1, ps[i]) && v[k].1.date@ == ps[i].date@; assert(p.contains(k)); let q = choose|q: int| 0 <= q < p.len() && #[trigger] p[q] == k; assert(v2[q] == v[k]); }
  assert forall|k: int| 0 <= k < v2.len() implies is_newest(ps, day, (#[trigger] v2[k]).1) by { assert(v2[k] == v[p[k]]); } }
pub open spec fn ids_n(v: Seq<Named>, n: int, src: Nid, id: Nid) -> bool { id == src || exists|k: int| 0 <= k < n && endpoint((#[trigger] v[k]).1, id) }
pub proof fn ids_all(ps: Seq<Price>, day: int, t: Seq<char>, v: Seq<Named>, id: Nid)
    requires pn_ok(ps, day, v) ensures ids_n(v, v.len() as int, (t, day), id) == node_id(ps, day, t, id)
{ if id != (t, day) {
    if ids_n(v, v.len() as int, (t, day), id) { let k = choose|k: int| 0 <= k < v.len() && endpoint((#[trigger] v[k]).1, id); assert(is_newest(ps, day, v[k].1)); }
    if node_id(ps, day, t, id) { let i = choose|i: int| #[trigger] newest(ps, day, i) && endpoint(ps[i], id); assert(covers(v, ps[i])); let k = choose|k: int| 0 <= k < v.len() && same_pair((#[trigger] v[k]).1, ps[i]) && v[k].1.date@ == ps[i].date@; assert(endpoint(v[k].1, id)); } } }
pub open spec fn dates_ok(m: Map<Nid, (Rc<Currency>, NaiveDate)>, v: Seq<Named>, n: int, src: Nid) -> bool { forall|id: Nid| #[trigger] m.dom().contains(id) <==> ids_n(v, n, src, id) }
pub open spec fn kid_of(s: Seq<&(Rc<Currency>, NaiveDate)>, n: int, id: Nid) -> bool { exists|q: int| 0 <= q < n && (#[trigger] s[q]).kid() == id }
pub open spec fn nodes_n(m: Map<Nid, ((Rc<Currency>, NaiveDate), Rc<Node>)>, s: Seq<&(Rc<Currency>, NaiveDate)>, n: int) -> bool {
    &&& forall|id: Nid| #[trigger] m.dom().contains(id) <==> kid_of(s, n, id)
    &&& forall|id: Nid| #[trigger] m.dom().contains(id) ==> m[id].1.kid() == id
}
pub open spec fn edges_ok(ps: Seq<Price>, day: int, t: Seq<char>, es: Seq<Rc<Edge>>) -> bool { forall|k: int| 0 <= k < es.len() ==> edge_ok(ps, day, t, *#[trigger] es[k]) }
pub open spec fn priced(es: Seq<Rc<Edge>>, v: Seq<Named>, n: int) -> bool { forall|k: int| 0 <= k < n ==> uses_price(es, (#[trigger] v[k]).1) }
pub open spec fn waited(es: Seq<Rc<Edge>>, vn: Seq<Rc<Node>>, i: int, j: int) -> bool { forall|a: int, b: int| 0 <= a < i && a <= b < j && (#[trigger] vn[a]).kid().0 == (#[trigger] vn[b]).kid().0 ==> waits(es, vn[a].kid(), vn[b].kid()) }
pub open spec fn waited_row(es: Seq<Rc<Edge>>, vn: Seq<Rc<Node>>, a: int, j: int) -> bool { forall|b: int| a <= b < j && vn[a].kid().0 == (#[trigger] vn[b]).kid().0 ==> waits(es, vn[a].kid(), vn[b].kid()) }
pub proof fn es_grow(es: Seq<Rc<Edge>>, e: Rc<Edge>)
    ensures forall|p: Price| #[trigger] uses_price(es, p) ==> uses_price(es.push(e), p), forall|a: Nid, b: Nid| #[trigger] waits(es, a, b) ==> waits(es.push(e), a, b)
{ let f = es.push(e);
  assert forall|p: Price| #[trigger] uses_price(es, p) implies uses_price(f, p) by { let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).price is Some && joins(*es[k], (p_from(p), p.date@), (p_to(p), p.date@)); assert(f[k] == es[k]); }
  assert forall|a: Nid, b: Nid| #[trigger] waits(es, a, b) implies waits(f, a, b) by { let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).price is None && joins(*es[k], a, b); assert(f[k] == es[k]); } }
pub open spec fn nodes_are(ps: Seq<Price>, day: int, t: Seq<char>, vn: Seq<Rc<Node>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < vn.len() ==> (#[trigger] vn[i]).kid() != (#[trigger] vn[j]).kid()
    &&& forall|i: int| 0 <= i < vn.len() ==> node_id(ps, day, t, (#[trigger] vn[i]).kid())
    &&& forall|id: Nid| #[trigger] node_id(ps, day, t, id) ==> at_node(vn, id)
}
pub proof fn nodes_sorted(ps: Seq<Price>, day: int, t: Seq<char>, v: Seq<Rc<Node>>, v2: Seq<Rc<Node>>, p: Seq<int>)
    requires nodes_are(ps, day, t, v), sorted_from(v, v2, p, nd_ord()) ensures nodes_are(ps, day, t, v2)
{ assert forall|id: Nid| #[trigger] node_id(ps, day, t, id) implies at_node(v2, id) by { assert(at_node(v, id)); let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).kid() == id; assert(p.contains(i)); let q = choose|q: int| 0 <= q < p.len() && #[trigger] p[q] == i; assert(v2[q] == v[i]); }
  assert forall|i: int, j: int| 0 <= i < j < v2.len() implies (#[trigger] v2[i]).kid() != (#[trigger] v2[j]).kid() by { assert(p[i] != p[j]); assert(v2[i] == v[p[i]] && v2[j] == v[p[j]]); if p[i] < p[j] { assert(v[p[i]].kid() != v[p[j]].kid()); } else { assert(v[p[j]].kid() != v[p[i]].kid()); } }
  assert forall|i: int| 0 <= i < v2.len() implies node_id(ps, day, t, (#[trigger] v2[i]).kid()) by { assert(v2[i] == v[p[i]]); } }
pub proof fn nodes_from(ps: Seq<Price>, day: int, t: Seq<char>, m: Map<Nid, ((Rc<Currency>, NaiveDate), Rc<Node>)>, it: Seq<(&(Rc<Currency>, NaiveDate), &Rc<Node>)>, vn: Seq<Rc<Node>>)
    requires enumerates(it, m), vn.len() == it.len(), forall|i: int| 0 <= i < vn.len() ==> #[trigger] vn[i] == *it[i].1, forall|id: Nid| #[trigger] m.dom().contains(id) ==> m[id].1.kid() == id, forall|id: Nid| #[trigger] m.dom().contains(id) <==> node_id(ps, day, t, id)
    ensures nodes_are(ps, day, t, vn)
{ assert forall|i: int| 0 <= i < vn.len() implies (#[trigger] vn[i]).kid() == it[i].0.kid() && m.dom().contains(vn[i].kid()) by { assert(m.dom().contains(it[i].0.kid())); }
  assert forall|id: Nid| #[trigger] node_id(ps, day, t, id) implies at_node(vn, id) by { assert(m.dom().contains(id)); let i = choose|i: int| 0 <= i < it.len() && (#[trigger] it[i]).0.kid() == id; assert(vn[i].kid() == id); } }
@raw
pub open spec fn in_vec(s: Seq<Rc<Currency>>, n: int, d: int, id: Nid) -> bool { exists|q: int| 0 <= q < n && id == ((#[trigger] s[q]).kid(), d) }
pub open spec fn dates_mid(m: Map<Nid, (Rc<Currency>, NaiveDate)>, m0: Map<Nid, (Rc<Currency>, NaiveDate)>, s: Seq<Rc<Currency>>, n: int, d: int) -> bool { forall|id: Nid| #[trigger] m.dom().contains(id) <==> m0.dom().contains(id) || in_vec(s, n, d, id) }
pub proof fn dates_mid_step(m: Map<Nid, (Rc<Currency>, NaiveDate)>, m2: Map<Nid, (Rc<Currency>, NaiveDate)>, m0: Map<Nid, (Rc<Currency>, NaiveDate)>, s: Seq<Rc<Currency>>, n: int, d: int)
    requires dates_mid(m, m0, s, n, d), 0 <= n < s.len(), m2.dom() == m.dom().insert((s[n].kid(), d)) ensures dates_mid(m2, m0, s, n + 1, d)
{ assert forall|id: Nid| #[trigger] m2.dom().contains(id) <==> m0.dom().contains(id) || in_vec(s, n + 1, d, id) by { assert(m.dom().contains(id) <==> m0.dom().contains(id) || in_vec(s, n, d, id)); if in_vec(s, n + 1, d, id) { let q = choose|q: int| 0 <= q < n + 1 && id == ((#[trigger] s[q]).kid(), d); if q < n { assert(in_vec(s, n, d, id)); } } if id == (s[n].kid(), d) { assert(in_vec(s, n + 1, d, id)); } if in_vec(s, n, d, id) { assert(in_vec(s, n + 1, d, id)); } } }
pub proof fn dates_step(m: Map<Nid, (Rc<Currency>, NaiveDate)>, m0: Map<Nid, (Rc<Currency>, NaiveDate)>, s: Seq<Rc<Currency>>, v: Seq<Named>, n: int, src: Nid)
    requires dates_ok(m0, v, n, src), 0 <= n < v.len(), dates_mid(m, m0, s, s.len() as int, v[n].1.date@), s.len() == 2, (s[0].kid(), s[1].kid()) == pair_key(v[n].1) ensures dates_ok(m, v, n + 1, src)
{ let p = v[n].1; let d = p.date@; assert forall|id: Nid| #[trigger] m.dom().contains(id) <==> ids_n(v, n + 1, src, id) by { assert(m0.dom().contains(id) <==> ids_n(v, n, src, id));
    assert(in_vec(s, 2, d, id) <==> endpoint(p, id)) by { if endpoint(p, id) { if id.0 == s[0].kid() { assert(id == (s[0].kid(), d)); } else { assert(id == (s[1].kid(), d)); } } }
    if ids_n(v, n + 1, src, id) && id != src { let k = choose|k: int| 0 <= k < n + 1 && endpoint((#[trigger] v[k]).1, id); if k < n { assert(ids_n(v, n, src, id)); } }
    if endpoint(p, id) { assert(endpoint(v[n].1, id)); } } }
pub proof fn nodes_step(m: Map<Nid, ((Rc<Currency>, NaiveDate), Rc<Node>)>, m2: Map<Nid, ((Rc<Currency>, NaiveDate), Rc<Node>)>, s: Seq<&(Rc<Currency>, NaiveDate)>, n: int)
    requires nodes_n(m, s, n), 0 <= n < s.len(), m2.dom() == m.dom().insert(s[n].kid()), m2[s[n].kid()].1.kid() == s[n].kid(), forall|id: Nid| id != s[n].kid() ==> #[trigger] m2[id] == m[id] ensures nodes_n(m2, s, n + 1)
{ assert forall|id: Nid| #[trigger] m2.dom().contains(id) <==> kid_of(s, n + 1, id) by { assert(m.dom().contains(id) <==> kid_of(s, n, id)); if kid_of(s, n + 1, id) { let q = choose|q: int| 0 <= q < n + 1 && (#[trigger] s[q]).kid() == id; if q < n { assert(kid_of(s, n, id)); } } if kid_of(s, n, id) { assert(kid_of(s, n + 1, id)); } if id == s[n].kid() { assert(kid_of(s, n + 1, id)); } } }
pub proof fn nodes_all(ps: Seq<Price>, day: int, t: Seq<char>, m: Map<Nid, ((Rc<Currency>, NaiveDate), Rc<Node>)>, s: Seq<&(Rc<Currency>, NaiveDate)>, dm: Map<Nid, (Rc<Currency>, NaiveDate)>, pn: Seq<Named>)
    requires nodes_n(m, s, s.len() as int), enumerates_set(s, dm), dates_ok(dm, pn, pn.len() as int, (t, day)), pn_ok(ps, day, pn) ensures forall|id: Nid| #[trigger] m.dom().contains(id) <==> node_id(ps, day, t, id), forall|id: Nid| #[trigger] m.dom().contains(id) ==> m[id].1.kid() == id
{ assert forall|id: Nid| #[trigger] m.dom().contains(id) <==> node_id(ps, day, t, id) by { ids_all(ps, day, t, pn, id); assert(dm.dom().contains(id) <==> ids_n(pn, pn.len() as int, (t, day), id)); if kid_of(s, s.len() as int, id) { let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).kid() == id; assert(dm.dom().contains(id)); } if dm.dom().contains(id) { let q = choose|q: int| 0 <= q < s.len() && (#[trigger] s[q]).kid() == id; assert(kid_of(s, s.len() as int, id)); } } }
pub proof fn newest_edge(ps: Seq<Price>, day: int, t: Seq<char>, e: Rc<Edge>, p: Price)
    requires is_newest(ps, day, p), e.price == Some(p), e.from.kid() == (p_from(p), p.date@), e.to.kid() == (p_to(p), p.date@) ensures edge_ok(ps, day, t, *e)
{ hide(newest); let i = choose|i: int| #[trigger] newest(ps, day, i) && ps[i] == p; assert(endpoint(ps[i], e.from.kid()) && endpoint(ps[i], e.to.kid())); }
pub proof fn edge_step(ps: Seq<Price>, day: int, t: Seq<char>, es: Seq<Rc<Edge>>, e: Rc<Edge>, v: Seq<Named>, n: int)
    requires edges_ok(ps, day, t, es), priced(es, v, n), pn_ok(ps, day, v), 0 <= n < v.len(), e.price == Some(v[n].1), e.from.kid() == (p_from(v[n].1), v[n].1.date@), e.to.kid() == (p_to(v[n].1), v[n].1.date@)
    ensures edges_ok(ps, day, t, es.push(e)), priced(es.push(e), v, n + 1)
{ hide(newest); hide(edge_ok); hide(covers); hide(pn_ok); hide(uses_price); hide(is_newest); let f = es.push(e); let p = v[n].1; assert(is_newest(ps, day, p)) by { reveal(pn_ok); } es_grow(es, e); newest_edge(ps, day, t, e, p);
  assert(f[es.len() as int] == e); assert(uses_price(f, p)) by { reveal(uses_price); }
  assert forall|k: int| 0 <= k < n + 1 implies uses_price(f, (#[trigger] v[k]).1) by { if k < n { assert(uses_price(es, v[k].1)); } }
  assert forall|k: int| 0 <= k < f.len() implies edge_ok(ps, day, t, *#[trigger] f[k]) by { if k < es.len() { assert(f[k] == es[k]); } } }
pub proof fn wait_step(ps: Seq<Price>, day: int, t: Seq<char>, es: Seq<Rc<Edge>>, e: Rc<Edge>, v: Seq<Named>, n: int, vn: Seq<Rc<Node>>, i: int, j: int)
    requires edges_ok(ps, day, t, es), priced(es, v, n), nodes_are(ps, day, t, vn), 0 <= i <= j < vn.len(), waited(es, vn, i, vn.len() as int), waited_row(es, vn, i, j), e.price is None, e.from == vn[i], e.to == vn[j], vn[i].kid().0 == vn[j].kid().0
    ensures edges_ok(ps, day, t, es.push(e)), priced(es.push(e), v, n), waited(es.push(e), vn, i, vn.len() as int), waited_row(es.push(e), vn, i, j + 1)
{ let f = es.push(e); es_grow(es, e); assert(f[es.len() as int] == e); assert(waits(f, vn[i].kid(), vn[j].kid()));
  assert forall|k: int| 0 <= k < f.len() implies edge_ok(ps, day, t, *#[trigger] f[k]) by { if k < es.len() { assert(f[k] == es[k]); } } }
pub proof fn row_done(es: Seq<Rc<Edge>>, vn: Seq<Rc<Node>>, i: int)
    requires 0 <= i, waited(es, vn, i, vn.len() as int), waited_row(es, vn, i, vn.len() as int) ensures waited(es, vn, i + 1, vn.len() as int) {}
pub proof fn price_edges(ps: Seq<Price>, day: int, es: Seq<Rc<Edge>>, v: Seq<Named>, i: int)
    requires priced(es, v, v.len() as int), covers(v, ps[i]) ensures uses_price(es, ps[i])
{ hide(newest); let k = choose|k: int| 0 <= k < v.len() && same_pair((#[trigger] v[k]).1, ps[i]) && v[k].1.date@ == ps[i].date@; let q = v[k].1; assert(uses_price(es, q)); let x = choose|x: int| 0 <= x < es.len() && (#[trigger] es[x]).price is Some && joins(*es[x], (p_from(q), q.date@), (p_to(q), q.date@)); assert(joins(*es[x], (p_from(ps[i]), ps[i].date@), (p_to(ps[i]), ps[i].date@))); }
pub proof fn wait_edges(es: Seq<Rc<Edge>>, vn: Seq<Rc<Node>>, a: Nid, b: Nid)
    requires waited(es, vn, vn.len() as int, vn.len() as int), at_node(vn, a), at_node(vn, b), a.0 == b.0 ensures waits(es, a, b)
{ let i = choose|i: int| 0 <= i < vn.len() && (#[trigger] vn[i]).kid() == a; let j = choose|j: int| 0 <= j < vn.len() && (#[trigger] vn[j]).kid() == b;
  if i <= j { assert(waits(es, a, b)); } else { assert(waits(es, b, a)); let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).price is None && joins(*es[k], b, a); assert(joins(*es[k], a, b)); } }
pub proof fn graph_of(g: Graph, ps: Seq<Price>, day: int, t: Seq<char>, v: Seq<Named>)
    requires nodes_are(ps, day, t, g.nodes@), edges_ok(ps, day, t, g.edges@), priced(g.edges@, v, v.len() as int), pn_ok(ps, day, v), waited(g.edges@, g.nodes@, g.nodes@.len() as int, g.nodes@.len() as int)
    ensures graph_ok(g, ps, day, t)
{ hide(newest); hide(uses_price); hide(waits); hide(waited); hide(priced); hide(covers); hide(at_node); hide(edge_ok); hide(node_id); hide(is_newest); let es = g.edges@;
  assert forall|i: int| #[trigger] newest(ps, day, i) implies uses_price(es, ps[i]) by { price_edges(ps, day, es, v, i); }
  assert forall|a: Nid, b: Nid| #[trigger] node_id(ps, day, t, a) && #[trigger] node_id(ps, day, t, b) && a.0 == b.0 implies waits(es, a, b) by { wait_edges(es, g.nodes@, a, b); } }
@fn Graph::from_prices | maypanic
ensures
  graph_ok(r, prices@, source.date@, source.currency.kid()), r._neighbours@ == Map::<Nid, (Rc<Node>, Vec<(Rc<Node>, Rc<Edge>)>)>::empty(),
@ghost start
hide(graph_ok); hide(nodup_ok); hide(pn_ok); hide(dates_ok); hide(dates_mid); hide(nodes_n); hide(edges_ok); hide(priced); hide(waited); hide(waited_row); hide(sorted_from); hide(newest); hide(enumerates); hide(enumerates_own); hide(enumerates_set); hide(nodes_are); hide(node_id); hide(kid_of); hide(pair_key); hide(ids_n);
let ghost ps = prices@; let ghost day = source.date@; let ghost t = source.currency.kid(); let ghost src = source.kid(); let ghost mut nd: Nodup = Map::empty(); let ghost mut cd: Map<Nid, (Rc<Currency>, NaiveDate)> = Map::empty();
@ghost before 0
proof { reveal(nodup_ok); }
@loop 0
nodup_ok(ps, day, i0 as int, prices_nodup@),
@ghost top 0
let ghost m0 = prices_nodup@; let ghost n0 = i0 - 1; proof { assert(*p == ps[n0]); if p.date@ > day { nodup_keeps(ps, day, n0, m0); } }
@ghost post let commodities
proof { assert(commodities.kid() == pair_key(*p)) by { reveal(pair_key); } }
@ghost bot 0
proof { if !m0.dom().contains(pair_key(*p)) || m0[pair_key(*p)].1.date@ < p.date@ { nodup_adds(ps, day, n0, m0, prices_nodup@); } else { nodup_keeps(ps, day, n0, m0); } }
@ghost after 0
proof { nd = prices_nodup@; }
@sort 0: Named
pn_ord()
@ghost pre prices_nodup.sort_by
let ghost v0 = prices_nodup@; proof { nodup_pn(ps, day, nd, v0); pn_ord_ok(); }
@ghost post prices_nodup.sort_by
let ghost pm = choose|p: Seq<int>| #[trigger] sorted_from(v0, prices_nodup@, p, pn_ord()); let ghost pn = prices_nodup@; proof { pn_sorted(ps, day, v0, pn, pm); }
@ghost before 1
proof { assert(dates_ok(currency_dates@, pn, 0, src)) by { reveal(dates_ok); reveal(ids_n); } }
@loop 1
dates_ok(currency_dates@, pn, i1 as int, src),
@ghost top 1
let ghost c0 = currency_dates@; proof { assert(*p == pn[i1 - 1].1); }
@ghost before 2
proof { assert(dates_mid(currency_dates@, c0, it2@, 0, p.date@)) by { reveal(dates_mid); } }
@loop 2
dates_mid(currency_dates@, c0, it2@, i2 as int, p.date@), it2@.len() == 2, (it2@[0].kid(), it2@[1].kid()) == pair_key(*p),
@ghost top 2
let ghost c1 = currency_dates@;
@ghost bot 2
proof { assert(currency_dates@.dom() =~= c1.dom().insert((c.kid(), p.date@))); dates_mid_step(c1, currency_dates@, c0, it2@, i2 - 1, p.date@); }
@ghost after 2
proof { dates_step(currency_dates@, c0, it2@, pn, i1 - 1, src); }
@ghost before 3
proof { assert(nodes_n(nodes@, it3@, 0)) by { reveal(nodes_n); reveal(kid_of); } }
@loop 3
nodes_n(nodes@, it3@, i3 as int),
@ghost top 3
let ghost n3 = nodes@;
@ghost bot 3
proof { assert(nodes@.dom() =~= n3.dom().insert(it3@[i3 - 1].kid())); nodes_step(n3, nodes@, it3@, i3 - 1); }
@ghost after 3
proof { nodes_all(ps, day, t, nodes@, it3@, currency_dates@, pn); }
@ghost before 4
proof { assert(edges_ok(ps, day, t, edges@)) by { reveal(edges_ok); } assert(priced(edges@, pn, 0)) by { reveal(priced); } }
@loop 4
edges_ok(ps, day, t, edges@), priced(edges@, pn, i4 as int),
@ghost top 4
let ghost e4 = edges@; proof { assert(*p == pn[i4 - 1].1); }
@ghost bot 4
proof { edge_step(ps, day, t, e4, edges@.last(), pn, i4 - 1); assert(edges@ =~= e4.push(edges@.last())); }
@loop 5
acc5@.len() == i5, forall|i: int| 0 <= i < i5 ==> #[trigger] acc5@[i] == *it5@[i].1,
@ghost after 5
proof { nodes_from(ps, day, t, nodes@, it5@, acc5@); }
@sort 1: Rc<Node>
nd_ord()
@ghost pre vec_node.sort_by
let ghost w0 = vec_node@; proof { nd_ord_ok(); }
@ghost post vec_node.sort_by
let ghost pm2 = choose|p: Seq<int>| #[trigger] sorted_from(w0, vec_node@, p, nd_ord()); proof { nodes_sorted(ps, day, t, w0, vec_node@, pm2); }
@ghost before 6
proof { assert(waited(edges@, vec_node@, 0, n as int)) by { reveal(waited); } }
@loop 6
edges_ok(ps, day, t, edges@), priced(edges@, pn, pn.len() as int), waited(edges@, vec_node@, i6 as int, n as int),
@ghost before 7
proof { assert(waited_row(edges@, vec_node@, i as int, i as int)) by { reveal(waited_row); } }
@loop 7
edges_ok(ps, day, t, edges@), priced(edges@, pn, pn.len() as int), waited(edges@, vec_node@, i as int, n as int), waited_row(edges@, vec_node@, i as int, i7 as int),
@ghost top 7
let ghost e7 = edges@;
@ghost bot 7
proof { if vec_node@[i as int].kid().0 == vec_node@[j as int].kid().0 { wait_step(ps, day, t, e7, edges@.last(), pn, pn.len() as int, vec_node@, i as int, j as int); assert(edges@ =~= e7.push(edges@.last())); } else { assert(waited_row(edges@, vec_node@, i as int, j + 1)) by { reveal(waited_row); } } }
@ghost after 7
proof { row_done(edges@, vec_node@, i as int); }
@ghost tail
proof { graph_of(ret_, ps, day, t, pn); }
@raw
// ---- walks over the graph
pub type Dists = Map<Nid, (Rc<Node>, Option<Duration>)>;
pub type Paths = Map<Nid, (Rc<Node>, Vec<Rc<Edge>>)>;
pub open spec fn start_of(p: Seq<Rc<Edge>>, id: Nid) -> Nid decreases p.len() { if p.len() == 0 { id } else { start_of(p.drop_last(), other(*p.last(), id)) } }
pub open spec fn walk(p: Seq<Rc<Edge>>, id: Nid) -> bool decreases p.len() { p.len() == 0 || (touches(*p.last(), id) && walk(p.drop_last(), other(*p.last(), id))) }
pub open spec fn plen(p: Seq<Rc<Edge>>) -> int decreases p.len() { if p.len() == 0 { 0 } else { plen(p.drop_last()) + elen(*p.last()) } }
pub open spec fn e_rate(e: Edge, c: Seq<char>) -> real { match e.price { None => 1real, Some(p) => if e.from.kid().0 == c { p.price.amt() } else { 1real / p.price.amt() } } }
pub open spec fn prate(p: Seq<Rc<Edge>>, id: Nid) -> real decreases p.len() { if p.len() == 0 { 1real } else { e_rate(*p.last(), id.0) * prate(p.drop_last(), other(*p.last(), id)) } }
pub open spec fn path_ok(ps: Seq<Price>, day: int, t: Seq<char>, p: Seq<Rc<Edge>>, id: Nid, d: int) -> bool { edges_ok(ps, day, t, p) && walk(p, id) && start_of(p, id).0 == t && plen(p) + day - start_of(p, id).1 == d }
pub open spec fn one_dist(ps: Seq<Price>, day: int, t: Seq<char>, dm: Dists, pm: Paths, id: Nid) -> bool {
    if id.0 == t { dm[id].1 is Some && dm[id].1->0@ == day - id.1 && !pm.dom().contains(id) } else { match dm[id].1 { None => !pm.dom().contains(id), Some(x) => pm.dom().contains(id) && path_ok(ps, day, t, pm[id].1@, id, x@) && x@ >= day - id.1 } }
}
pub open spec fn dist_ok(ps: Seq<Price>, day: int, t: Seq<char>, dm: Dists, pm: Paths) -> bool {
    &&& forall|id: Nid| #[trigger] dm.dom().contains(id) <==> node_id(ps, day, t, id)
    &&& forall|id: Nid| #[trigger] dm.dom().contains(id) ==> one_dist(ps, day, t, dm, pm, id)
    &&& forall|id: Nid| #[trigger] pm.dom().contains(id) ==> dm.dom().contains(id)
}
pub open spec fn relax1(dm: Dists, e: Edge, id: Nid) -> bool { dm.dom().contains(other(e, id)) && dm[other(e, id)].1 is Some && dm[other(e, id)].1->0@ <= dm[id].1->0@ + elen(e) }
pub open spec fn relaxed(dm: Dists, es: Seq<Rc<Edge>>, id: Nid) -> bool { forall|j: int| 0 <= j < es.len() && touches(*#[trigger] es[j], id) ==> relax1(dm, *es[j], id) }
pub open spec fn all_relaxed(dm: Dists, es: Seq<Rc<Edge>>) -> bool { forall|id: Nid| #[trigger] dm.dom().contains(id) && dm[id].1 is Some ==> relaxed(dm, es, id) }
pub open spec fn distinct(q: Seq<Rc<Node>>) -> bool { forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).kid() != (#[trigger] q[j]).kid() }
pub open spec fn closed(dm: Dists, es: Seq<Rc<Edge>>, q: Seq<Rc<Node>>) -> bool {
    &&& distinct(q) && forall|i: int| 0 <= i < q.len() ==> dm.dom().contains((#[trigger] q[i]).kid())
    &&& forall|id: Nid| #[trigger] dm.dom().contains(id) && !at_node(q, id) ==> dm[id].1 is Some && relaxed(dm, es, id)
    &&& forall|id: Nid, i: int| #[trigger] dm.dom().contains(id) && !at_node(q, id) && 0 <= i < q.len() && dm[(#[trigger] q[i]).kid()].1 is Some ==> dm[id].1->0@ <= dm[q[i].kid()].1->0@
}
pub open spec fn q_ord(dm: Dists) -> spec_fn(Rc<Node>, Rc<Node>) -> Ordering { |a: Rc<Node>, b: Rc<Node>| dcmp(dm[b.kid()].1, dm[a.kid()].1) }
pub open spec fn q_on(dm: Dists) -> spec_fn(Rc<Node>) -> bool { |a: Rc<Node>| dm.dom().contains(a.kid()) }
pub proof fn q_ord_ok(dm: Dists) ensures preorder(q_ord(dm), q_on(dm)) {}
pub proof fn q_sorted(dm: Dists, es: Seq<Rc<Edge>>, q: Seq<Rc<Node>>, q2: Seq<Rc<Node>>, p: Seq<int>)
    requires closed(dm, es, q), sorted_from(q, q2, p, q_ord(dm)) ensures closed(dm, es, q2), q2.len() == q.len(), forall|i: int, j: int| 0 <= i < j < q2.len() ==> !(dcmp(dm[(#[trigger] q2[j]).kid()].1, dm[(#[trigger] q2[i]).kid()].1) is Greater)
{ assert forall|id: Nid| #[trigger] at_node(q2, id) == at_node(q, id) by { if at_node(q, id) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).kid() == id; assert(p.contains(i)); let k = choose|k: int| 0 <= k < p.len() && #[trigger] p[k] == i; assert(q2[k] == q[i]); } if at_node(q2, id) { let i = choose|i: int| 0 <= i < q2.len() && (#[trigger] q2[i]).kid() == id; assert(q2[i] == q[p[i]]); } }
  assert forall|i: int, j: int| 0 <= i < j < q2.len() implies (#[trigger] q2[i]).kid() != (#[trigger] q2[j]).kid() by { assert(p[i] != p[j]); assert(q2[i] == q[p[i]] && q2[j] == q[p[j]]); if p[i] < p[j] { assert(q[p[i]].kid() != q[p[j]].kid()); } else { assert(q[p[j]].kid() != q[p[i]].kid()); } }
  assert forall|i: int| 0 <= i < q2.len() implies dm.dom().contains((#[trigger] q2[i]).kid()) by { assert(q2[i] == q[p[i]]); }
  assert forall|id: Nid, i: int| #[trigger] dm.dom().contains(id) && !at_node(q2, id) && 0 <= i < q2.len() && dm[(#[trigger] q2[i]).kid()].1 is Some implies dm[id].1->0@ <= dm[q2[i].kid()].1->0@ by { assert(q2[i] == q[p[i]]); assert(at_node(q2, id) == at_node(q, id)); }
  assert forall|id: Nid| #[trigger] dm.dom().contains(id) && !at_node(q2, id) implies dm[id].1 is Some && relaxed(dm, es, id) by { assert(at_node(q2, id) == at_node(q, id)); }
  assert forall|i: int, j: int| 0 <= i < j < q2.len() implies !(dcmp(dm[(#[trigger] q2[j]).kid()].1, dm[(#[trigger] q2[i]).kid()].1) is Greater) by { assert(q_ord(dm)(q2[i], q2[j]) is Less || q_ord(dm)(q2[i], q2[j]) is Equal); } }
/// nothing that is left can be reached
pub proof fn stuck(dm: Dists, es: Seq<Rc<Edge>>, q: Seq<Rc<Node>>)
    requires closed(dm, es, q), q.len() > 0 ==> dm[q.last().kid()].1 is None, forall|i: int, j: int| 0 <= i < j < q.len() ==> !(dcmp(dm[(#[trigger] q[j]).kid()].1, dm[(#[trigger] q[i]).kid()].1) is Greater)
    ensures all_relaxed(dm, es)
{ assert forall|id: Nid| #[trigger] dm.dom().contains(id) && dm[id].1 is Some implies relaxed(dm, es, id) by { if at_node(q, id) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).kid() == id; if i < q.len() - 1 { assert(!(dcmp(dm[q[q.len() - 1].kid()].1, dm[q[i].kid()].1) is Greater)); } } } }
/// what relaxing the edges of v (taken from the queue, q is left) may have changed since d0
pub open spec fn relaxing(d0: Dists, dm: Dists, q: Seq<Rc<Node>>, dv: int) -> bool {
    &&& dm.dom() == d0.dom()
    &&& forall|id: Nid| #[trigger] dm.dom().contains(id) && !at_node(q, id) ==> dm[id].1 == d0[id].1
    &&& forall|id: Nid| #[trigger] dm.dom().contains(id) && d0[id].1 is Some ==> dm[id].1 is Some && dm[id].1->0@ <= d0[id].1->0@
    &&& forall|id: Nid| #[trigger] dm.dom().contains(id) && at_node(q, id) && dm[id].1 is Some ==> dm[id].1->0@ >= dv
}
pub open spec fn relaxed_n(dm: Dists, nb: Seq<(Rc<Node>, Rc<Edge>)>, n: int, v: Nid) -> bool { forall|k: int| 0 <= k < n ==> relax1(dm, *(#[trigger] nb[k]).1, v) }
pub proof fn popped(dm: Dists, es: Seq<Rc<Edge>>, q: Seq<Rc<Node>>)
    requires closed(dm, es, q), q.len() > 0, dm[q.last().kid()].1 is Some, forall|i: int, j: int| 0 <= i < j < q.len() ==> !(dcmp(dm[(#[trigger] q[j]).kid()].1, dm[(#[trigger] q[i]).kid()].1) is Greater)
    ensures relaxing(dm, dm, q.drop_last(), dm[q.last().kid()].1->0@), !at_node(q.drop_last(), q.last().kid()), dm.dom().contains(q.last().kid()),
      forall|id: Nid| #[trigger] dm.dom().contains(id) && !at_node(q.drop_last(), id) ==> dm[id].1 is Some && dm[id].1->0@ <= dm[q.last().kid()].1->0@,
{ let r = q.drop_last(); let l = q.len() - 1; assert(q[l] == q.last());
  if at_node(r, q.last().kid()) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).kid() == q.last().kid(); assert(q[i].kid() == q[l].kid()); }
  assert forall|id: Nid| #[trigger] dm.dom().contains(id) && at_node(r, id) && dm[id].1 is Some implies dm[id].1->0@ >= dm[q.last().kid()].1->0@ by { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).kid() == id; assert(!(dcmp(dm[q[l].kid()].1, dm[q[i].kid()].1) is Greater)); }
  assert forall|id: Nid| #[trigger] dm.dom().contains(id) && !at_node(r, id) implies dm[id].1 is Some && dm[id].1->0@ <= dm[q.last().kid()].1->0@ by { if at_node(q, id) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).kid() == id; if i < l { assert(r[i].kid() == id); } } else { assert(dm.dom().contains(q[l].kid())); } } }
/// one neighbour: either its distance is as good already or it is improved through v
pub proof fn relax_keep(dm: Dists, nb: Seq<(Rc<Node>, Rc<Edge>)>, n: int, v: Nid)
    requires relaxed_n(dm, nb, n, v), 0 <= n < nb.len(), nb[n].0.kid() == other(*nb[n].1, v), dm.dom().contains(nb[n].0.kid()), dm[nb[n].0.kid()].1 is Some, dm[nb[n].0.kid()].1->0@ <= dm[v].1->0@ + elen(*nb[n].1)
    ensures relaxed_n(dm, nb, n + 1, v) {}
pub proof fn other_back(e: Edge, v: Nid) requires touches(e, v) ensures other(e, other(e, v)) == v, touches(e, other(e, v)), elen(e) == absi(v.1 - other(e, v).1) {}
pub proof fn path_push(ps: Seq<Price>, day: int, t: Seq<char>, p: Seq<Rc<Edge>>, v: Nid, d: int, e: Rc<Edge>)
    requires path_ok(ps, day, t, p, v, d), edge_ok(ps, day, t, *e), touches(*e, v) ensures path_ok(ps, day, t, p.push(e), other(*e, v), d + elen(*e))
{ hide(edge_ok); let f = p.push(e); assert(f.drop_last() =~= p); assert(f.last() == e); touched(e, v); 
  assert forall|k: int| 0 <= k < f.len() implies edge_ok(ps, day, t, *#[trigger] f[k]) by { if k < p.len() { assert(f[k] == p[k]); } } }
pub proof fn touched(e: Rc<Edge>, v: Nid) requires touches(*e, v) ensures other(*e, other(*e, v)) == v, touches(*e, other(*e, v)), elen(*e) == absi(v.1 - other(*e, v).1) {}
pub proof fn relax_better(ps: Seq<Price>, day: int, t: Seq<char>, d0: Dists, dm: Dists, pm: Paths, q: Seq<Rc<Node>>, v: Nid, nb: Seq<(Rc<Node>, Rc<Edge>)>, n: int, dm2: Dists, pm2: Paths, cp: Seq<Rc<Edge>>)
    requires dist_ok(ps, day, t, dm, pm), dm.dom().contains(v), dm[v].1 is Some, relaxing(d0, dm, q, dm[v].1->0@), relaxed_n(dm, nb, n, v), 0 <= n < nb.len(), touches(*nb[n].1, v), nb[n].0.kid() == other(*nb[n].1, v), edge_ok(ps, day, t, *nb[n].1),
      !at_node(q, v), forall|id: Nid| #[trigger] d0.dom().contains(id) && !at_node(q, id) ==> d0[id].1 is Some && d0[id].1->0@ <= dm[v].1->0@, dm[v].1->0@ >= day - v.1,
      path_ok(ps, day, t, cp, v, dm[v].1->0@),
      dm[nb[n].0.kid()].1 is None || dm[nb[n].0.kid()].1->0@ > dm[v].1->0@ + elen(*nb[n].1),
      dm2.dom() == dm.dom().insert(nb[n].0.kid()), pm2.dom() == pm.dom().insert(nb[n].0.kid()), forall|id: Nid| id != nb[n].0.kid() ==> #[trigger] dm2[id] == dm[id], forall|id: Nid| id != nb[n].0.kid() ==> #[trigger] pm2[id] == pm[id],
      dm2[nb[n].0.kid()].1 is Some, dm2[nb[n].0.kid()].1->0@ == dm[v].1->0@ + elen(*nb[n].1), pm2[nb[n].0.kid()].1@ == cp.push(nb[n].1),
    ensures dist_ok(ps, day, t, dm2, pm2), dm2[v] == dm[v], relaxing(d0, dm2, q, dm[v].1->0@), relaxed_n(dm2, nb, n + 1, v)
{ hide(path_ok); hide(edge_ok); hide(at_node);
  let u = nb[n].0.kid(); let e = nb[n].1; let dv = dm[v].1->0@; touched(e, v);
  assert(node_id(ps, day, t, u)) by { reveal(edge_ok); } assert(dm.dom().contains(u)); assert(dm2.dom() =~= dm.dom());
  assert(d0.dom().contains(u)); assert(at_node(q, u)); assert(u != v); assert(one_dist(ps, day, t, dm, pm, u)); assert(u.0 != t);
  path_push(ps, day, t, cp, v, dv, e);
  assert forall|id: Nid| #[trigger] dm2.dom().contains(id) implies one_dist(ps, day, t, dm2, pm2, id) by { assert(one_dist(ps, day, t, dm, pm, id)); }
  assert forall|id: Nid| #[trigger] dm2.dom().contains(id) <==> node_id(ps, day, t, id) by { assert(dm.dom().contains(id) <==> node_id(ps, day, t, id)); }
  assert forall|id: Nid| #[trigger] pm2.dom().contains(id) implies dm2.dom().contains(id) by { if id != u { assert(pm.dom().contains(id)); } }
  assert forall|k: int| 0 <= k < n + 1 implies relax1(dm2, *(#[trigger] nb[k]).1, v) by { if k < n { assert(relax1(dm, *nb[k].1, v)); } } }
pub proof fn done_v(d0: Dists, dm: Dists, es: Seq<Rc<Edge>>, q: Seq<Rc<Node>>, v: Nid, nb: Seq<(Rc<Node>, Rc<Edge>)>)
    requires closed(d0, es, q), q.len() > 0, v == q.last().kid(), d0[v].1 is Some, dm.dom().contains(v), relaxing(d0, dm, q.drop_last(), d0[v].1->0@), !at_node(q.drop_last(), v), relaxed_n(dm, nb, nb.len() as int, v), neigh(es, v, nb),
      forall|id: Nid| #[trigger] d0.dom().contains(id) && !at_node(q.drop_last(), id) ==> d0[id].1 is Some && d0[id].1->0@ <= d0[v].1->0@
    ensures closed(dm, es, q.drop_last())
{ let r = q.drop_last();
  assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).kid() != (#[trigger] r[j]).kid() by { assert(q[i].kid() != q[j].kid()); }
  assert forall|i: int| 0 <= i < r.len() implies dm.dom().contains((#[trigger] r[i]).kid()) by { assert(d0.dom().contains(q[i].kid())); }
  assert forall|id: Nid| #[trigger] dm.dom().contains(id) && !at_node(r, id) implies dm[id].1 is Some && relaxed(dm, es, id) by { assert(d0.dom().contains(id));
    if id == v { assert forall|j: int| 0 <= j < es.len() && touches(*#[trigger] es[j], v) implies relax1(dm, *es[j], v) by { let k = choose|k: int| 0 <= k < nb.len() && (#[trigger] nb[k]).1 == es[j]; assert(relax1(dm, *nb[k].1, v)); } }
    else { assert(!at_node(q, id)) by { if at_node(q, id) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).kid() == id; if i < r.len() { assert(r[i].kid() == id); } } }
      assert(relaxed(d0, es, id)); assert forall|j: int| 0 <= j < es.len() && touches(*#[trigger] es[j], id) implies relax1(dm, *es[j], id) by { assert(relax1(d0, *es[j], id)); assert(dm.dom().contains(other(*es[j], id))); } } }
  assert forall|id: Nid, i: int| #[trigger] dm.dom().contains(id) && !at_node(r, id) && 0 <= i < r.len() && dm[(#[trigger] r[i]).kid()].1 is Some implies dm[id].1->0@ <= dm[r[i].kid()].1->0@ by { assert(d0.dom().contains(id)); assert(at_node(r, r[i].kid())); assert(dm.dom().contains(r[i].kid())); } }
pub proof fn neigh_at(g: Graph, ps: Seq<Price>, day: int, t: Seq<char>, id: Nid, v: Seq<(Rc<Node>, Rc<Edge>)>, k: int)
    requires graph_ok(g, ps, day, t), neigh(g.edges@, id, v), 0 <= k < v.len() ensures touches(*v[k].1, id), v[k].0.kid() == other(*v[k].1, id), edge_ok(ps, day, t, *v[k].1)
{ hide(edge_ok); let es = g.edges@; assert(es.contains(v[k].1)); let i = choose|i: int| 0 <= i < es.len() && es[i] == v[k].1; assert(edge_ok(ps, day, t, *es[i])); }
pub proof fn relax_none(dm: Dists, nb: Seq<(Rc<Node>, Rc<Edge>)>, v: Nid) ensures relaxed_n(dm, nb, 0, v) {}
pub proof fn q_all(dm: Dists, es: Seq<Rc<Edge>>, q: Seq<Rc<Node>>) requires closed(dm, es, q) ensures forall|i: int| 0 <= i < q.len() ==> q_on(dm)(#[trigger] q[i]) {}
pub proof fn newest_day(ps: Seq<Price>, day: int, t: Seq<char>, id: Nid) requires node_id(ps, day, t, id) ensures id.1 <= day {}
pub open spec fn filled(nodes: Seq<Rc<Node>>, n: int, t: Seq<char>, day: int, dm: Dists) -> bool {
    &&& forall|i: int| 0 <= i < n ==> dm.dom().contains((#[trigger] nodes[i]).kid())
    &&& forall|id: Nid| #[trigger] dm.dom().contains(id) ==> (exists|i: int| 0 <= i < n && (#[trigger] nodes[i]).kid() == id) && (if id.0 == t { dm[id].1 is Some && dm[id].1->0@ == day - id.1 } else { dm[id].1 is None })
}
pub proof fn fill_step(nodes: Seq<Rc<Node>>, n: int, t: Seq<char>, day: int, dm: Dists, dm2: Dists)
    requires filled(nodes, n, t, day, dm), 0 <= n < nodes.len(), dm2.dom() == dm.dom().insert(nodes[n].kid()), forall|id: Nid| id != nodes[n].kid() ==> #[trigger] dm2[id] == dm[id],
      (if nodes[n].kid().0 == t { dm2[nodes[n].kid()].1 is Some && dm2[nodes[n].kid()].1->0@ == day - nodes[n].kid().1 } else { dm2[nodes[n].kid()].1 is None })
    ensures filled(nodes, n + 1, t, day, dm2)
{ assert forall|id: Nid| #[trigger] dm2.dom().contains(id) implies (exists|i: int| 0 <= i < n + 1 && (#[trigger] nodes[i]).kid() == id) && (if id.0 == t { dm2[id].1 is Some && dm2[id].1->0@ == day - id.1 } else { dm2[id].1 is None }) by {
    if id == nodes[n].kid() { } else { assert(dm.dom().contains(id)); let i = choose|i: int| 0 <= i < n && (#[trigger] nodes[i]).kid() == id; assert(nodes[i].kid() == id); } } }
pub proof fn fill_done(ps: Seq<Price>, day: int, t: Seq<char>, g: Graph, dm: Dists, pm: Paths)
    requires graph_ok(g, ps, day, t), filled(g.nodes@, g.nodes@.len() as int, t, day, dm), pm == Paths::empty() ensures dist_ok(ps, day, t, dm, pm), closed(dm, g.edges@, g.nodes@)
{ hide(node_id); let n = g.nodes@;
  assert forall|id: Nid| #[trigger] dm.dom().contains(id) <==> node_id(ps, day, t, id) by { if dm.dom().contains(id) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).kid() == id; assert(node_id(ps, day, t, n[i].kid())); } if node_id(ps, day, t, id) { assert(at_node(n, id)); let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i]).kid() == id; assert(dm.dom().contains(n[i].kid())); } }
  assert forall|id: Nid| #[trigger] dm.dom().contains(id) implies at_node(n, id) by {} }
pub proof fn cur_path(ps: Seq<Price>, day: int, t: Seq<char>, dm: Dists, pm: Paths, v: Nid, cp: Seq<Rc<Edge>>)
    requires dist_ok(ps, day, t, dm, pm), dm.dom().contains(v), dm[v].1 is Some, if pm.dom().contains(v) { cp == pm[v].1@ } else { cp.len() == 0 } ensures path_ok(ps, day, t, cp, v, dm[v].1->0@), dm[v].1->0@ >= day - v.1
{ assert(one_dist(ps, day, t, dm, pm, v)); }
// ---- what the walks are worth
pub proof fn wait_tri(ps: Seq<Price>, day: int, a: int, b: int, w: Seq<Step>) ensures waiting(ps, day, a, w) <= absi(a - b) + waiting(ps, day, b, w) {}
pub open spec fn wf(e: Edge, a: Nid) -> bool { e.from.kid().0 == a.0 }
pub open spec fn roth(e: Rc<Edge>, a: Nid) -> Nid { other(*e, a) }
pub open spec fn rwf(e: Rc<Edge>, a: Nid) -> bool { wf(*e, a) }
pub open spec fn rpri(e: Rc<Edge>) -> Option<Price> { e.price }
pub open spec fn ramt(e: Rc<Edge>) -> real { e.price->0.price.amt() }
pub open spec fn rrate(e: Rc<Edge>, c: Seq<char>) -> real { e_rate(*e, c) }
pub proof fn across(ps: Seq<Price>, day: int, t: Seq<char>, e: Rc<Edge>, a: Nid)
    requires edge_ok(ps, day, t, *e), touches(*e, a)
    ensures rpri(e) is None ==> roth(e, a).0 == a.0, elen(*e) == absi(a.1 - roth(e, a).1),
      rpri(e) is Some ==> roth(e, a).1 == a.1 && roth(e, a).0 == (if wf(*e, a) { e.to.kid().0 } else { e.from.kid().0 }) && exists|i: int| newest(ps, day, i) && ps[i] == rpri(e)->0 && a.1 == ps[i].date@ && #[trigger] step_from(ps, Step { i: i, fwd: wf(*e, a) }) == a.0 && step_to(ps, Step { i: i, fwd: wf(*e, a) }) == roth(e, a).0 && step_rate(ps, Step { i: i, fwd: wf(*e, a) }) == e_rate(*e, a.0),
{ if rpri(e) is Some { let i = choose|i: int| #[trigger] newest(ps, day, i) && ps[i] == rpri(e)->0; let f = rwf(e, a); assert(step_from(ps, Step { i: i, fwd: f }) == a.0); } }
pub proof fn walk_chain(ps: Seq<Price>, day: int, t: Seq<char>, p: Seq<Rc<Edge>>, id: Nid) -> (w: Seq<Step>)
    requires edges_ok(ps, day, t, p), walk(p, id), start_of(p, id).0 == t
    ensures chain(ps, day, t, id.0, w), product(ps, w) == prate(p, id), waiting(ps, day, id.1, w) <= plen(p) + absi(start_of(p, id).1 - day) decreases p.len()
{ hide(edge_ok);
  if p.len() == 0 { Seq::empty() } else {
    let e = p.last(); let q = p.drop_last(); let o = roth(e, id); let f0 = rwf(e, id);
    assert(edge_ok(ps, day, t, *p[p.len() - 1])); assert forall|k: int| 0 <= k < q.len() implies edge_ok(ps, day, t, *#[trigger] q[k]) by { assert(q[k] == p[k]); }
    across(ps, day, t, e, id);
    let w = walk_chain(ps, day, t, q, o);
    if rpri(e) is None { wait_tri(ps, day, id.1, o.1, w); w } else {
      let i = choose|i: int| newest(ps, day, i) && ps[i] == rpri(e)->0 && id.1 == ps[i].date@ && #[trigger] step_from(ps, Step { i: i, fwd: f0 }) == id.0 && step_to(ps, Step { i: i, fwd: f0 }) == o.0 && step_rate(ps, Step { i: i, fwd: f0 }) == e_rate(*e, id.0);
      let s = Step { i: i, fwd: f0 }; let f = seq![s] + w; assert(f.drop_first() =~= w); assert(f[0] == s); f } } }
pub proof fn start_day(ps: Seq<Price>, day: int, t: Seq<char>, p: Seq<Rc<Edge>>, id: Nid)
    requires edges_ok(ps, day, t, p), walk(p, id), id.1 <= day ensures start_of(p, id).1 <= day decreases p.len()
{ if p.len() > 0 { let e = p.last(); let q = p.drop_last(); assert(edge_ok(ps, day, t, *p[p.len() - 1])); assert forall|k: int| 0 <= k < q.len() implies edge_ok(ps, day, t, *#[trigger] q[k]) by { assert(q[k] == p[k]); } newest_day(ps, day, t, roth(e, id)); start_day(ps, day, t, q, roth(e, id)); } }
pub proof fn relax_one(dm: Dists, es: Seq<Rc<Edge>>, k: int, a: Nid, b: Nid)
    requires all_relaxed(dm, es), dm.dom().contains(a), dm[a].1 is Some, 0 <= k < es.len(), joins(*es[k], a, b) ensures dm.dom().contains(b), dm[b].1 is Some, dm[b].1->0@ <= dm[a].1->0@ + absi(a.1 - b.1)
{ assert(relaxed(dm, es, a)); let e = es[k]; assert(relax1(dm, *e, a)); if roth(e, a) != b { assert(e.from.kid() == a && e.to.kid() == a); } }
pub proof fn step_nodes(ps: Seq<Price>, day: int, t: Seq<char>, s: Step)
    requires newest(ps, day, s.i) ensures node_id(ps, day, t, (step_from(ps, s), ps[s.i].date@)), node_id(ps, day, t, (step_to(ps, s), ps[s.i].date@))
{ assert(endpoint(ps[s.i], (step_from(ps, s), ps[s.i].date@))); assert(endpoint(ps[s.i], (step_to(ps, s), ps[s.i].date@))); }
pub proof fn dist_le(ps: Seq<Price>, day: int, t: Seq<char>, g: Graph, dm: Dists, pm: Paths, c: Seq<char>, d: int, w: Seq<Step>)
    requires graph_ok(g, ps, day, t), dist_ok(ps, day, t, dm, pm), all_relaxed(dm, g.edges@), chain(ps, day, t, c, w), node_id(ps, day, t, (c, d)) ensures dm.dom().contains((c, d)), dm[(c, d)].1 is Some, dm[(c, d)].1->0@ <= waiting(ps, day, d, w) decreases w.len()
{ hide(all_relaxed); hide(node_id); hide(newest); hide(edge_ok);
  let id: Nid = (c, d); assert(dm.dom().contains(id)); newest_day(ps, day, t, id); assert(one_dist(ps, day, t, dm, pm, id));
  if w.len() > 0 { let s = w[0]; let di = ps[s.i].date@; let a: Nid = (step_to(ps, s), di); let b: Nid = (c, di); let es = g.edges@;
    step_nodes(ps, day, t, s); dist_le(ps, day, t, g, dm, pm, a.0, di, w.drop_first());
    assert(uses_price(es, ps[s.i])); let k = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).price is Some && joins(*es[k], (p_from(ps[s.i]), ps[s.i].date@), (p_to(ps[s.i]), ps[s.i].date@));
    let e = es[k]; assert(joins(*e, a, b)); relax_one(dm, es, k, a, b);
    assert(waits(es, b, id)); let k2 = choose|k: int| 0 <= k < es.len() && (#[trigger] es[k]).price is None && joins(*es[k], b, id);
    relax_one(dm, es, k2, b, id); } }
/// the newest price of the pair of price j
pub proof fn newest_of(ps: Seq<Price>, day: int, j: int, n: int) -> (i: int)
    requires 0 <= j < ps.len(), ps[j].date@ <= day, 0 <= n <= ps.len()
    ensures 0 <= i < ps.len(), ps[i].date@ <= day, same_pair(ps[i], ps[j]), ps[j].date@ <= ps[i].date@, forall|k: int| 0 <= k < n && (#[trigger] ps[k]).date@ <= day && same_pair(ps[k], ps[j]) ==> ps[k].date@ <= ps[i].date@ decreases n
{ if n == 0 { j } else { let i = newest_of(ps, day, j, n - 1); if ps[n - 1].date@ <= day && same_pair(ps[n - 1], ps[j]) && ps[n - 1].date@ > ps[i].date@ { n - 1 } else { i } } }
pub proof fn last_of(ps: Seq<Price>, day: int, t: Seq<char>, c: Seq<char>, d: int)
    requires c != t, node_id(ps, day, t, (c, d)), forall|d2: int| #[trigger] node_id(ps, day, t, (c, d2)) ==> d2 <= d ensures last_day(ps, day, c, d)
{ assert forall|j: int| 0 <= j < ps.len() && (#[trigger] ps[j]).date@ <= day && (p_from(ps[j]) == c || p_to(ps[j]) == c) implies ps[j].date@ <= d by { let i = newest_of(ps, day, j, ps.len() as int); assert(newest(ps, day, i)); assert(endpoint(ps[i], (c, ps[i].date@))); assert(node_id(ps, day, t, (c, ps[i].date@))); }
  let i = choose|i: int| #[trigger] newest(ps, day, i) && endpoint(ps[i], (c, d)); assert(ps[i].date@ == d); }
pub type Dates = Map<Seq<char>, (Rc<Currency>, NaiveDate)>;
pub type Rates = Map<Seq<char>, (Rc<Currency>, BigRational)>;
pub open spec fn mult_ok(pm: Paths, ins: Dates, mul: Rates) -> bool {
    &&& ins.dom() == mul.dom()
    &&& forall|c: Seq<char>| #[trigger] mul.dom().contains(c) ==> pm.dom().contains((c, ins[c].1@)) && mul[c].1@ == prate(pm[(c, ins[c].1@)].1@, (c, ins[c].1@))
}
pub open spec fn seen_n(q: Seq<(&Rc<Node>, &Vec<Rc<Edge>>)>, n: int, ins: Dates) -> bool { forall|k: int| 0 <= k < n ==> ins.dom().contains((#[trigger] q[k]).0.kid().0) && ins[q[k].0.kid().0].1@ >= q[k].0.kid().1 }
pub proof fn rates_done(ps: Seq<Price>, day: int, t: Seq<char>, g: Graph, dm: Dists, pm: Paths, q: Seq<(&Rc<Node>, &Vec<Rc<Edge>>)>, ins: Dates, mul: Rates)
    requires graph_ok(g, ps, day, t), dist_ok(ps, day, t, dm, pm), all_relaxed(dm, g.edges@), enumerates(q, pm), mult_ok(pm, ins, mul), seen_n(q, q.len() as int, ins) ensures rates(ps, day, t, mul)
{ hide(graph_ok); hide(all_relaxed); hide(node_id); hide(path_ok); hide(newest); hide(best); hide(last_day);
  let es = g.edges@;
  assert forall|id: Nid| #[trigger] pm.dom().contains(id) implies mul.dom().contains(id.0) && ins[id.0].1@ >= id.1 by { let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).0.kid() == id; assert(ins.dom().contains(q[k].0.kid().0)); }
  assert(!mul.dom().contains(t)) by { if mul.dom().contains(t) { let id: Nid = (t, ins[t].1@); assert(pm.dom().contains(id)); assert(dm.dom().contains(id)); assert(one_dist(ps, day, t, dm, pm, id)); } }
  assert forall|c: Seq<char>, w: Seq<Step>| c != t && #[trigger] chain(ps, day, t, c, w) implies mul.dom().contains(c) by { let id: Nid = (c, ps[w[0].i].date@); step_nodes(ps, day, t, w[0]); dist_le(ps, day, t, g, dm, pm, c, id.1, w); assert(one_dist(ps, day, t, dm, pm, id)); assert(pm.dom().contains(id)); }
  assert forall|c: Seq<char>| #[trigger] mul.dom().contains(c) implies exists|w: Seq<Step>| #[trigger] best(ps, day, t, c, w) && mul[c].1@ == product(ps, w) by {
    let d = ins[c].1@; let id: Nid = (c, d); assert(pm.dom().contains(id)); assert(dm.dom().contains(id)); assert(one_dist(ps, day, t, dm, pm, id)); assert(node_id(ps, day, t, id)); assert(c != t); let p = pm[id].1@; newest_day(ps, day, t, id);
    assert(path_ok(ps, day, t, p, id, dm[id].1->0@)); 
    reveal(path_ok); start_day(ps, day, t, p, id); let w = walk_chain(ps, day, t, p, id);
    assert forall|w2: Seq<Step>| #[trigger] chain(ps, day, t, c, w2) implies waiting(ps, day, d, w) <= waiting(ps, day, d, w2) by { dist_le(ps, day, t, g, dm, pm, c, d, w2); }
    assert forall|d2: int| #[trigger] node_id(ps, day, t, (c, d2)) implies d2 <= d by { dist_le(ps, day, t, g, dm, pm, c, d2, w); let id2: Nid = (c, d2); assert(one_dist(ps, day, t, dm, pm, id2)); assert(pm.dom().contains(id2)); }
    last_of(ps, day, t, c, d); assert(best(ps, day, t, c, w)) by { reveal(best); } } }
pub proof fn rate_step(ps: Seq<Price>, day: int, t: Seq<char>, p: Seq<Rc<Edge>>, n: int, a: Nid, m: real, m2: real)
    requires edges_ok(ps, day, t, p), 0 < n <= p.len(), walk(p.take(n), a), p[n - 1].price is Some ==> (if wf(*p[n - 1], a) { m2 == m * p[n - 1].price->0.price.amt() } else { p[n - 1].price->0.price.amt() != 0real && m2 == m / p[n - 1].price->0.price.amt() }), p[n - 1].price is None ==> m2 == m
    ensures walk(p.take(n - 1), other(*p[n - 1], a)), m2 * prate(p.take(n - 1), other(*p[n - 1], a)) == m * prate(p.take(n), a), p[n - 1].price is None ==> other(*p[n - 1], a).0 == a.0, p[n - 1].price is Some ==> other(*p[n - 1], a).0 == (if wf(*p[n - 1], a) { p[n - 1].to.kid().0 } else { p[n - 1].from.kid().0 })
{ let e = p[n - 1]; let b = roth(e, a); assert(edge_ok(ps, day, t, *e)); assert(p.take(n).drop_last() =~= p.take(n - 1)); assert(p.take(n).last() == e); across(ps, day, t, e, a);
  let r = prate(p.take(n - 1), b); let x = rrate(e, a.0); assert(prate(p.take(n), a) == x * r);
  if rpri(e) is Some { let y = ramt(e); assert(m2 == m * x) by { if !rwf(e, a) { assert(m / y == m * (1real / y)) by(nonlinear_arith) requires y != 0real; } } }
  assert(m2 * r == m * (x * r)) by(nonlinear_arith) requires m2 == m * x; }
pub proof fn path_at(ps: Seq<Price>, day: int, t: Seq<char>, dm: Dists, pm: Paths, id: Nid)
    requires dist_ok(ps, day, t, dm, pm), pm.dom().contains(id) ensures edges_ok(ps, day, t, pm[id].1@), walk(pm[id].1@, id)
{ assert(dm.dom().contains(id)); assert(one_dist(ps, day, t, dm, pm, id)); }
/// the last of the first n edges touches the commodity that is being converted
pub proof fn across0(ps: Seq<Price>, day: int, t: Seq<char>, p: Seq<Rc<Edge>>, n: int, a: Nid)
    requires edges_ok(ps, day, t, p), 0 < n <= p.len(), walk(p.take(n), a) ensures edge_ok(ps, day, t, *p[n - 1]), touches(*p[n - 1], a)
{ assert(p.take(n).last() == p[n - 1]); }
pub proof fn mult_step(pm: Paths, ins0: Dates, m0: Rates, ins: Dates, m: Rates, id: Nid)
    requires mult_ok(pm, ins0, m0), pm.dom().contains(id), ins.dom() == ins0.dom().insert(id.0), m.dom() == m0.dom().insert(id.0), forall|c: Seq<char>| c != id.0 ==> #[trigger] ins[c] == ins0[c], forall|c: Seq<char>| c != id.0 ==> #[trigger] m[c] == m0[c],
      ins[id.0].1@ == id.1, m[id.0].1@ == prate(pm[id].1@, id)
    ensures mult_ok(pm, ins, m)
{ hide(prate); assert(ins.dom() =~= m.dom()); assert forall|c: Seq<char>| #[trigger] m.dom().contains(c) implies pm.dom().contains((c, ins[c].1@)) && m[c].1@ == prate(pm[(c, ins[c].1@)].1@, (c, ins[c].1@)) by { if c != id.0 { assert(m0.dom().contains(c)); } } }
@fn conversion | maypanic
ensures
  //# C06: the rates to the currency
  rates(prices@, date@, currency.kid(), r@),
@ghost start
hide(graph_ok); hide(edges_ok); hide(sorted_from); hide(newest); hide(node_id); hide(closed); hide(relaxing); hide(relaxed_n); hide(dist_ok); hide(path_ok); hide(relaxed); hide(all_relaxed); hide(rates); hide(edge_ok); hide(neigh_n); hide(cache_ok); hide(filled); hide(one_dist); hide(walk); hide(prate); hide(enumerates); hide(at_node);
broadcast use span_ext;
let ghost ps = prices@; let ghost day = date@; let ghost t = currency.kid();
let ghost mut g0: Graph;
let ghost mut dd: Dists;
let ghost mut qq: Seq<Rc<Node>>;
@ghost post let mut graph
proof { g0 = graph; assert(cache_ok(graph)) by { reveal(cache_ok); } }
@ghost before 0
proof { assert(filled(graph.nodes@, 0, t, day, distances@)) by { reveal(filled); } }
@loop 0
filled(graph.nodes@, i0 as int, t, day, distances@), queue@ == graph.nodes@.take(i0 as int), graph == g0, t == currency.kid(), day == date@,
@ghost top 0
let ghost d1 = distances@; proof { assert(*node == graph.nodes@[i0 - 1]); }
@ghost bot 0
proof { assert(distances@.dom() =~= d1.dom().insert(node.kid())); fill_step(graph.nodes@, i0 - 1, t, day, d1, distances@); assert(queue@ =~= graph.nodes@.take(i0 as int)); }
@ghost after 0
proof { assert(queue@ =~= graph.nodes@); fill_done(ps, day, t, graph, distances@, paths@); }
@loop 1
dist_ok(ps, day, t, distances@, paths@), cache_ok(graph), graph_ok(g0, ps, day, t), graph.edges == g0.edges, ps == prices@, day == date@, t == currency.kid(),
invariant_except_break
closed(distances@, graph.edges@, queue@),
ensures all_relaxed(distances@, g0.edges@),
decreases queue@.len()
@sort 0: Rc<Node>
q_ord(dm) requires q_on(dm)
@ghost pre queue.sort_by
let ghost dm = distances@; let ghost q0 = queue@; proof { q_ord_ok(dm); q_all(dm, graph.edges@, q0); }
@ghost post queue.sort_by
let ghost pm_ = choose|p: Seq<int>| #[trigger] sorted_from(q0, queue@, p, q_ord(dm)); let ghost q1 = queue@; let ghost vk = q1.last().kid(); proof { q_sorted(dm, graph.edges@, q0, q1, pm_); q_all(dm, graph.edges@, q1); if dm[vk].1 is None { stuck(dm, graph.edges@, q1); } else { popped(dm, graph.edges@, q1); } }
@ghost post let current_path
proof { assert(queue@ =~= q1.drop_last()); cur_path(ps, day, t, dm, paths@, vk, current_path@); }
@ghost before 2
proof { relax_none(distances@, tmp2_@, vk); }
@loop 2
dist_ok(ps, day, t, distances@, paths@), relaxing(dm, distances@, queue@, dm[vk].1->0@), relaxed_n(distances@, tmp2_@, i2 as int, vk), distances@[vk] == dm[vk], distances@.dom().contains(vk),
@ghost top 2
let ghost d1 = distances@; let ghost p1 = paths@; let ghost ii = i2 - 1; proof { neigh_at(g0, ps, day, t, vk, tmp2_@, ii); assert(*u == tmp2_@[ii].0 && *e == tmp2_@[ii].1); }
@ghost post let distance
proof { if d1[u.kid()].1 is Some && d1[u.kid()].1->0@ <= alt@ { relax_keep(d1, tmp2_@, ii, vk); } }
@ghost bot 2
proof { assert(distances@.dom() =~= d1.dom().insert(u.kid())); assert(paths@.dom() =~= p1.dom().insert(u.kid())); assert(u_path@ =~= current_path@.push(tmp2_@[ii].1)); relax_better(ps, day, t, dm, d1, p1, queue@, vk, tmp2_@, ii, distances@, paths@, current_path@); }
@ghost after 2
proof { done_v(dm, distances@, graph.edges@, q1, vk, tmp2_@); }
@ghost after 1
proof { if queue@.len() == 0 && closed(distances@, g0.edges@, queue@) { stuck(distances@, g0.edges@, queue@); } assert(all_relaxed(distances@, g0.edges@)); }
@ghost before 3
proof { assert(mult_ok(paths@, inserted@, multipliers@)); }
@loop 3
mult_ok(paths@, inserted@, multipliers@), seen_n(it3@, i3 as int, inserted@),
@ghost top 3
let ghost m0 = multipliers@; let ghost ins0 = inserted@; let ghost kk = k.kid(); let ghost vv = v@; let ghost mut cid = kk; proof { let b = paths@; assert(b.dom().contains(kk) && b[kk].1@ == vv) by { reveal(enumerates); } path_at(ps, day, t, distances@, b, kk); }
@loop 4
walk(vv.take(vv.len() - i4), cid), mult@ * prate(vv.take(vv.len() - i4), cid) == prate(vv, kk), currency.kid() == cid.0,
@ghost before 4
proof { assert(vv.take(vv.len() as int) =~= vv); }
@ghost top 4
let ghost mu = mult@; let ghost n4 = vv.len() - i4 + 1; let ghost ee = vv[n4 - 1]; proof { assert(*edge == ee); across0(ps, day, t, vv, n4, cid); }
@ghost bot 4
proof { rate_step(ps, day, t, vv, n4, cid, mu, mult@); cid = roth(ee, cid); }
@ghost after 4
proof { assert(vv.take(0).len() == 0); assert(prate(vv.take(0), cid) == 1real) by { reveal(prate); } }
@ghost bot 3
proof { mult_step(paths@, ins0, m0, inserted@, multipliers@, kk); }
@ghost after 3
proof { rates_done(ps, day, t, g0, distances@, paths@, it3@, inserted@, multipliers@); }
@end
