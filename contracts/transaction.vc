@module transaction src/models/transaction.rs
@type Transaction
@type Posting
@type PostingOrigin eq
@type TransactionStatus
@type TransactionType
@type Cleared
@type PostingType eq
@type Cost
@raw
/// what a posting with amount m and cost k weighs in commodity c
pub open spec fn weight(m: Money, k: Option<Cost>, c: Option<Seq<char>>) -> real {
    match k {
        None => m.at(c),
        Some(Cost::Total { amount }) => if m is Zero || m.amt() < 0real { -amount.at(c) } else { amount.at(c) },
        Some(Cost::PerUnit { amount }) => if amount.cid() == c { amount.amt() * m.amt() } else { 0real },
    }
}
pub open spec fn pweight(p: Posting, kind: PostingType, c: Option<Seq<char>>) -> real {
    if p.kind == kind && p.amount is Some { weight(p.amount->0, p.cost, c) } else { 0real }
}
/// per-commodity total, at cost, of the first n postings of one kind
pub open spec fn total(s: Seq<Posting>, n: int, kind: PostingType, c: Option<Seq<char>>) -> real decreases n {
    if n <= 0 { 0real } else { total(s, n - 1, kind, c) + pweight(s[n - 1], kind, c) }
}
pub open spec fn costs_ok(s: Seq<Posting>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).cost is Some && s[i].cost->0 is PerUnit ==> s[i].cost->0->PerUnit_amount is Money)
}
pub open spec fn ftotal(s: Seq<Posting>, kind: PostingType) -> spec_fn(Option<Seq<char>>) -> real { |c: Option<Seq<char>>| total(s, s.len() as int, kind, c) }
@fn total_balance
requires costs_ok(postings@)
ensures r.wf(), r.clean(), forall|c: Option<Seq<char>>| #[trigger] r.amt(c) == total(postings@, postings@.len() as int, kind, c)
@loop 0
acc0.wf(), acc0.clean(),
forall|c: Option<Seq<char>>| #[trigger] acc0.amt(c) == total(postings@, i0 as int, kind, c),

@fn Transaction<Posting>::is_balanced
requires costs_ok(self.postings.v@)
ensures r == settled(ftotal(self.postings.v@, PostingType::Real))
@raw
pub type Bals = Map<Seq<char>, (Rc<Account>, Balance)>;
pub open spec fn bal0(b: Bals, a: Seq<char>, c: Option<Seq<char>>) -> real { if b.dom().contains(a) { b[a].1.amt(c) } else { 0real } }
pub open spec fn bals_wf(b: Bals) -> bool { forall|a: Seq<char>| b.dom().contains(a) ==> (#[trigger] b[a]).1.wf() }
pub open spec fn accounts_known(s: Seq<Posting>, b: Bals) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).kind == PostingType::Real ==> b.dom().contains(s[i].account.kid()) }
/// the posting gets its amount from its balance assertion
pub open spec fn assigned(p: Posting, skip: bool) -> bool { p.kind == PostingType::Real && p.amount is None && p.balance is Some && !skip }
/// the posting has no amount and nothing to get it from
pub open spec fn blank(p: Posting, skip: bool) -> bool { p.kind == PostingType::Real && p.amount is None && (p.balance is None || skip) }
/// balance of account a in commodity c after the first n postings
pub open spec fn run(s: Seq<Posting>, skip: bool, b: Bals, n: int, a: Seq<char>, c: Option<Seq<char>>) -> real decreases n {
    if n <= 0 { bal0(b, a, c) } else { let p = s[n - 1]; let q = run(s, skip, b, n - 1, a, c);
        if p.kind == PostingType::Real && p.account.kid() == a {
            if p.amount is Some { q + p.amount->0.at(c) } else if assigned(p, skip) { p.balance->0.at(c) } else { q }
        } else { q } }
}
/// what the first n real postings leave over, at cost
pub open spec fn left(s: Seq<Posting>, skip: bool, b: Bals, n: int, c: Option<Seq<char>>) -> real decreases n {
    if n <= 0 { 0real } else { let p = s[n - 1]; left(s, skip, b, n - 1, c) + (
        if p.kind != PostingType::Real { 0real } else if p.amount is Some { weight(p.amount->0, p.cost, c) }
        else if assigned(p, skip) { p.balance->0.at(c) - run(s, skip, b, n - 1, p.account.kid(), c) } else { 0real }) }
}
pub open spec fn fleft(s: Seq<Posting>, skip: bool, b: Bals) -> spec_fn(Option<Seq<char>>) -> real { |c: Option<Seq<char>>| left(s, skip, b, s.len() as int, c) }
/// balance assertion of posting i
pub open spec fn assertion_ok(s: Seq<Posting>, skip: bool, b: Bals, i: int) -> bool {
    let p = s[i]; p.kind == PostingType::Real && p.amount is Some && p.balance is Some && !skip ==>
        p.balance->0.amt() == run(s, skip, b, i + 1, p.account.kid(), p.balance->0.cid())
}
/// the amount of an assigned posting is in one commodity
pub open spec fn assign_ok(s: Seq<Posting>, skip: bool, b: Bals, i: int) -> bool {
    let p = s[i]; assigned(p, skip) ==> forall|c: Option<Seq<char>>, d: Option<Seq<char>>| c != d ==>
        p.balance->0.at(c) == #[trigger] run(s, skip, b, i, p.account.kid(), c) || p.balance->0.at(d) == #[trigger] run(s, skip, b, i, p.account.kid(), d)
}
pub open spec fn n_blank(s: Seq<Posting>, skip: bool, n: int) -> nat decreases n { if n <= 0 { 0 } else if blank(s[n - 1], skip) { n_blank(s, skip, n - 1) + 1 } else { n_blank(s, skip, n - 1) } }
pub open spec fn n_real(s: Seq<Posting>, n: int) -> nat decreases n { if n <= 0 { 0 } else if s[n - 1].kind == PostingType::Real { n_real(s, n - 1) + 1 } else { n_real(s, n - 1) } }
pub open spec fn last_blank(s: Seq<Posting>, skip: bool, n: int) -> int decreases n { if n <= 0 { -1 } else if blank(s[n - 1], skip) { n - 1 } else { last_blank(s, skip, n - 1) } }
pub open spec fn keeps(skip: bool) -> spec_fn(Posting) -> bool { |p: Posting| p.kind == PostingType::Real && !blank(p, skip) }
pub open spec fn unreal() -> spec_fn(Posting) -> bool { |p: Posting| p.kind != PostingType::Real }
pub open spec fn kept(s: Seq<Posting>, skip: bool) -> Seq<Posting> { sfilter(s, s.len() as int, keeps(skip)) }
pub open spec fn rest(s: Seq<Posting>) -> Seq<Posting> { sfilter(s, s.len() as int, unreal()) }
/// q is posting p, with its amount settled
pub open spec fn same_line(p: Posting, q: Posting) -> bool {
    q.account == p.account && q.balance == p.balance && q.cost == p.cost && q.kind == PostingType::Real && q.comments == p.comments && q.tags == p.tags && q.payee == p.payee
    && q.amount is Some && (p.amount is Some ==> q.amount == p.amount) && q.origin == PostingOrigin::FromTransaction
}
/// amounts posted to account a
pub open spec fn samt(s: Seq<Posting>, n: int, a: Seq<char>, c: Option<Seq<char>>) -> real decreases n {
    if n <= 0 { 0real } else { samt(s, n - 1, a, c) + (if s[n - 1].kind == PostingType::Real && s[n - 1].amount is Some && s[n - 1].account.kid() == a { s[n - 1].amount->0.at(c) } else { 0real }) }
}
pub open spec fn assigned_at_face(s: Seq<Posting>, skip: bool) -> bool { forall|i: int| 0 <= i < s.len() && assigned(#[trigger] s[i], skip) ==> s[i].cost is None }
pub open spec fn filled(p: Posting, q: Posting) -> bool { q.account == p.account && q.payee == p.payee && q.tags == p.tags && q.kind == PostingType::Real && q.cost is None && q.balance is None && q.amount is Some && q.amount->0.amt() != 0real && q.origin == PostingOrigin::FromTransaction }
/// q is the line the one blank posting of s got
pub open spec fn fills(s: Seq<Posting>, skip: bool, q: Posting) -> bool { n_blank(s, skip, s.len() as int) == 1 && filled(s[last_blank(s, skip, s.len() as int)], q) }
pub proof fn lemma_prefix(s: Seq<Posting>, t: Seq<Posting>, n: int)
    requires 0 <= n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i]
    ensures forall|k: PostingType, c: Option<Seq<char>>| #[trigger] total(s, n, k, c) == total(t, n, k, c), forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] samt(s, n, a, c) == samt(t, n, a, c)
    decreases n
{ if n > 0 { lemma_prefix(s, t, n - 1);
    assert forall|k: PostingType, c: Option<Seq<char>>| #[trigger] total(s, n, k, c) == total(t, n, k, c) by { assert(total(s, n - 1, k, c) == total(t, n - 1, k, c)); }
    assert forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] samt(s, n, a, c) == samt(t, n, a, c) by { assert(samt(s, n - 1, a, c) == samt(t, n - 1, a, c)); } } }
pub proof fn lemma_push(s: Seq<Posting>, x: Posting)
    ensures forall|k: PostingType, c: Option<Seq<char>>| #[trigger] total(s.push(x), s.len() as int + 1, k, c) == total(s, s.len() as int, k, c) + pweight(x, k, c),
        forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] samt(s.push(x), s.len() as int + 1, a, c) == samt(s, s.len() as int, a, c) + (if x.kind == PostingType::Real && x.amount is Some && x.account.kid() == a { x.amount->0.at(c) } else { 0real })
{ lemma_prefix(s.push(x), s, s.len() as int);
    assert forall|k: PostingType, c: Option<Seq<char>>| #[trigger] total(s.push(x), s.len() as int + 1, k, c) == total(s, s.len() as int, k, c) + pweight(x, k, c) by { assert(total(s.push(x), s.len() as int, k, c) == total(s, s.len() as int, k, c)); }
    assert forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] samt(s.push(x), s.len() as int + 1, a, c) == samt(s, s.len() as int, a, c) + (if x.kind == PostingType::Real && x.amount is Some && x.account.kid() == a { x.amount->0.at(c) } else { 0real }) by { assert(samt(s.push(x), s.len() as int, a, c) == samt(s, s.len() as int, a, c)); }
}
/// appending postings that are not real changes no total of real postings
pub proof fn lemma_append(s: Seq<Posting>, t: Seq<Posting>, n: int)
    requires 0 <= n <= t.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).kind != PostingType::Real
    ensures forall|c: Option<Seq<char>>| #[trigger] total(s + t, s.len() + n, PostingType::Real, c) == total(s, s.len() as int, PostingType::Real, c),
        forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] samt(s + t, s.len() + n, a, c) == samt(s, s.len() as int, a, c)
    decreases n
{ if n <= 0 { lemma_prefix(s + t, s, s.len() as int); } else { lemma_append(s, t, n - 1); assert((s + t)[s.len() + n - 1] == t[n - 1]);
    assert forall|c: Option<Seq<char>>| #[trigger] total(s + t, s.len() + n, PostingType::Real, c) == total(s, s.len() as int, PostingType::Real, c) by { assert(total(s + t, s.len() + (n - 1), PostingType::Real, c) == total(s, s.len() as int, PostingType::Real, c)); }
    assert forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] samt(s + t, s.len() + n, a, c) == samt(s, s.len() as int, a, c) by { assert(samt(s + t, s.len() + (n - 1), a, c) == samt(s, s.len() as int, a, c)); } } }
@fn Transaction<Posting>::num_empty_postings
ensures r == sfilter(self.postings.v@, self.postings.v@.len() as int, |p: Posting| p.amount is None && p.balance is None).len()
@loop 0
acc0@.len() == sfilter(self.postings.v@, i0 as int, |p: Posting| p.amount is None && p.balance is None).len(),
@raw
/// the running balances change by amount m on account a
pub open spec fn moved(b: Bals, b2: Bals, a: Seq<char>, m: Money) -> bool {
    &&& b2.dom() == b.dom() && bals_wf(b2)
    &&& forall|x: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(b2, x, c) == bal0(b, x, c) + (if x == a { m.at(c) } else { 0real })
}
pub proof fn move_ins(b: Bals, b2: Bals, a: Seq<char>, e: (Rc<Account>, Balance), m: Money)
    requires bals_wf(b), b.dom().contains(a), b2 == b.insert(a, e), e.1.wf(), forall|c: Option<Seq<char>>| #[trigger] e.1.amt(c) == bal0(b, a, c) + m.at(c) ensures moved(b, b2, a, m)
{ assert(b2.dom() =~= b.dom()); assert forall|x: Seq<char>| b2.dom().contains(x) implies (#[trigger] b2[x]).1.wf() by { if x != a { assert(b[x].1.wf()); } } }
/// the state after the first n postings: balances m, lines q, and tb left over
pub open spec fn met(ps: Seq<Posting>, sk: bool, b0: Bals, n: int, m: Bals, tb: Balance, q: Seq<Posting>) -> bool {
    &&& m.dom() == b0.dom() && bals_wf(m)
    &&& forall|c: Option<Seq<char>>| #[trigger] tb.amt(c) == left(ps, sk, b0, n, c)
    &&& forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m, a, c) == run(ps, sk, b0, n, a, c)
    &&& forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m, a, c) == bal0(b0, a, c) + samt(q, q.len() as int, a, c)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] assertion_ok(ps, sk, b0, i)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] assign_ok(ps, sk, b0, i)
    &&& q.len() == sfilter(ps, n, keeps(sk)).len()
    &&& forall|j: int| 0 <= j < q.len() ==> same_line(sfilter(ps, n, keeps(sk))[j], #[trigger] q[j])
    &&& q.len() + n_blank(ps, sk, n) == n_real(ps, n)
    &&& assigned_at_face(ps, sk) ==> forall|c: Option<Seq<char>>| #[trigger] total(q, q.len() as int, PostingType::Real, c) == left(ps, sk, b0, n, c)
}
pub proof fn met_start(ps: Seq<Posting>, sk: bool, b0: Bals, tb: Balance, q: Seq<Posting>)
    requires bals_wf(b0), tb.zero(), q.len() == 0 ensures met(ps, sk, b0, 0, b0, tb, q) {}
pub proof fn met_dom(ps: Seq<Posting>, sk: bool, b0: Bals, n: int, m: Bals, tb: Balance, q: Seq<Posting>)
    requires met(ps, sk, b0, n, m, tb, q) ensures m.dom() == b0.dom(), bals_wf(m) {}
/// a posting that is not real, or has nothing to say yet
pub proof fn met_skip(ps: Seq<Posting>, sk: bool, b0: Bals, n: int, m: Bals, tb: Balance, q: Seq<Posting>)
    requires met(ps, sk, b0, n, m, tb, q), 0 <= n < ps.len(), ps[n].kind != PostingType::Real || blank(ps[n], sk) ensures met(ps, sk, b0, n + 1, m, tb, q)
{ assert forall|c: Option<Seq<char>>| #[trigger] tb.amt(c) == left(ps, sk, b0, n + 1, c) by { assert(tb.amt(c) == left(ps, sk, b0, n, c)); }
  assert forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m, a, c) == run(ps, sk, b0, n + 1, a, c) by { assert(bal0(m, a, c) == run(ps, sk, b0, n, a, c)); }
  if assigned_at_face(ps, sk) { assert forall|c: Option<Seq<char>>| #[trigger] total(q, q.len() as int, PostingType::Real, c) == left(ps, sk, b0, n + 1, c) by { assert(left(ps, sk, b0, n + 1, c) == left(ps, sk, b0, n, c)); } } }
/// the balance assertion of posting n holds if the balance reached is the one asserted
pub proof fn met_assert(ps: Seq<Posting>, sk: bool, b0: Bals, n: int, m: Bals, tb: Balance, q: Seq<Posting>, e: Balance)
    requires met(ps, sk, b0, n, m, tb, q), 0 <= n < ps.len(), ps[n].kind == PostingType::Real, ps[n].amount is Some, forall|c: Option<Seq<char>>| #[trigger] e.amt(c) == bal0(m, ps[n].account.kid(), c) + ps[n].amount->0.at(c)
    ensures assertion_ok(ps, sk, b0, n) == (ps[n].balance is Some && !sk ==> ps[n].balance->0.amt() == e.amt(ps[n].balance->0.cid()))
{ let a = ps[n].account.kid(); if ps[n].balance is Some { let c = ps[n].balance->0.cid(); assert(bal0(m, a, c) == run(ps, sk, b0, n, a, c)); assert(run(ps, sk, b0, n + 1, a, c) == e.amt(c)); } }
/// a posting gets its line x
pub proof fn met_line(ps: Seq<Posting>, sk: bool, b0: Bals, n: int, m: Bals, tb: Balance, q: Seq<Posting>, m2: Bals, tb2: Balance, q2: Seq<Posting>, x: Posting)
    requires met(ps, sk, b0, n, m, tb, q), 0 <= n < ps.len(), ps[n].kind == PostingType::Real, ps[n].amount is Some || assigned(ps[n], sk), assertion_ok(ps, sk, b0, n), assign_ok(ps, sk, b0, n), same_line(ps[n], x), q2 == q.push(x),
      moved(m, m2, ps[n].account.kid(), x.amount->0), forall|c: Option<Seq<char>>| #[trigger] tb2.amt(c) == tb.amt(c) + (if ps[n].amount is Some { weight(ps[n].amount->0, ps[n].cost, c) } else { x.amount->0.at(c) }),
      ps[n].amount is None ==> forall|c: Option<Seq<char>>| #[trigger] x.amount->0.at(c) == ps[n].balance->0.at(c) - bal0(m, ps[n].account.kid(), c)
    ensures met(ps, sk, b0, n + 1, m2, tb2, q2)
{ hide(weight); hide(assertion_ok); hide(assign_ok);
  let p = ps[n]; let k = p.account.kid(); lemma_push(q, x);
  assert forall|c: Option<Seq<char>>| #[trigger] tb2.amt(c) == left(ps, sk, b0, n + 1, c) by { assert(tb.amt(c) == left(ps, sk, b0, n, c)); assert(bal0(m, k, c) == run(ps, sk, b0, n, k, c)); }
  assert forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m2, a, c) == run(ps, sk, b0, n + 1, a, c) by { assert(bal0(m, a, c) == run(ps, sk, b0, n, a, c)); }
  assert forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m2, a, c) == bal0(b0, a, c) + samt(q2, q2.len() as int, a, c) by { assert(bal0(m, a, c) == bal0(b0, a, c) + samt(q, q.len() as int, a, c)); }
  assert(keeps(sk)(p)); let f = sfilter(ps, n, keeps(sk)); assert(sfilter(ps, n + 1, keeps(sk)) == f.push(p));
  assert forall|j: int| 0 <= j < q2.len() implies same_line(f.push(p)[j], #[trigger] q2[j]) by { if j < q.len() { assert(same_line(f[j], q[j])); } }
  if assigned_at_face(ps, sk) { assert forall|c: Option<Seq<char>>| #[trigger] total(q2, q2.len() as int, PostingType::Real, c) == left(ps, sk, b0, n + 1, c) by {
    assert(total(q, q.len() as int, PostingType::Real, c) == left(ps, sk, b0, n, c)); assert(tb.amt(c) == left(ps, sk, b0, n, c)); assert(tb2.amt(c) == left(ps, sk, b0, n + 1, c));
    if p.amount is None { assert(p.cost is None); assert(weight(x.amount->0, x.cost, c) == x.amount->0.at(c)) by { reveal(weight); } } } } }
/// what an assigned posting needs is in one commodity
pub proof fn met_assign(ps: Seq<Posting>, sk: bool, b0: Bals, n: int, m: Bals, tb: Balance, q: Seq<Posting>, d: Balance)
    requires met(ps, sk, b0, n, m, tb, q), 0 <= n < ps.len(), assigned(ps[n], sk), forall|c: Option<Seq<char>>| #[trigger] d.amt(c) == ps[n].balance->0.at(c) - bal0(m, ps[n].account.kid(), c)
    ensures (exists|c: Option<Seq<char>>, e: Option<Seq<char>>| c != e && #[trigger] d.amt(c) != 0real && #[trigger] d.amt(e) != 0real) ==> !assign_ok(ps, sk, b0, n),
      assertion_ok(ps, sk, b0, n)
{ let k = ps[n].account.kid(); let bl = ps[n].balance->0;
  assert forall|c: Option<Seq<char>>| #[trigger] d.amt(c) == bl.at(c) - run(ps, sk, b0, n, k, c) by { assert(bal0(m, k, c) == run(ps, sk, b0, n, k, c)); }
  if exists|c: Option<Seq<char>>, e: Option<Seq<char>>| c != e && #[trigger] d.amt(c) != 0real && #[trigger] d.amt(e) != 0real {
    let (c, e) = choose|c: Option<Seq<char>>, e: Option<Seq<char>>| c != e && #[trigger] d.amt(c) != 0real && #[trigger] d.amt(e) != 0real;
    assert(bl.at(c) != run(ps, sk, b0, n, k, c)); assert(bl.at(e) != run(ps, sk, b0, n, k, e)); } }
pub proof fn met_assigned(ps: Seq<Posting>, sk: bool, b0: Bals, n: int, m: Bals, tb: Balance, q: Seq<Posting>, d: Balance, y: Money)
    requires met(ps, sk, b0, n, m, tb, q), 0 <= n < ps.len(), assigned(ps[n], sk), forall|c: Option<Seq<char>>| #[trigger] d.amt(c) == ps[n].balance->0.at(c) - bal0(m, ps[n].account.kid(), c), forall|c: Option<Seq<char>>| #[trigger] y.at(c) == d.amt(c)
    ensures assign_ok(ps, sk, b0, n), forall|c: Option<Seq<char>>| #[trigger] y.at(c) == ps[n].balance->0.at(c) - bal0(m, ps[n].account.kid(), c)
{ let k = ps[n].account.kid(); let bl = ps[n].balance->0;
  assert forall|c: Option<Seq<char>>| #[trigger] y.at(c) == bl.at(c) - bal0(m, k, c) by { assert(y.at(c) == d.amt(c)); }
  assert forall|c: Option<Seq<char>>, e: Option<Seq<char>>| c != e implies bl.at(c) == #[trigger] run(ps, sk, b0, n, k, c) || bl.at(e) == #[trigger] run(ps, sk, b0, n, k, e) by { assert(bal0(m, k, c) == run(ps, sk, b0, n, k, c)); assert(bal0(m, k, e) == run(ps, sk, b0, n, k, e)); assert(y.at(c) == d.amt(c)); assert(y.at(e) == d.amt(e)); } }
pub proof fn no_assign(ps: Seq<Posting>, sk: bool, b0: Bals, n: int) requires !assigned(ps[n], sk) ensures assign_ok(ps, sk, b0, n) {}
pub proof fn blanks_start(ps: Seq<Posting>, sk: bool) ensures n_blank(ps, sk, 0) == 0 {}
pub proof fn blanks_step(ps: Seq<Posting>, sk: bool, n: int) requires 0 <= n ensures n_blank(ps, sk, n + 1) == n_blank(ps, sk, n) + (if blank(ps[n], sk) { 1int } else { 0 }), last_blank(ps, sk, n + 1) == (if blank(ps[n], sk) { n } else { last_blank(ps, sk, n) }) {}
pub proof fn known_at(ps: Seq<Posting>, b: Bals, i: int) requires accounts_known(ps, b), 0 <= i < ps.len(), ps[i].kind == PostingType::Real ensures b.dom().contains(ps[i].account.kid()) {}
pub proof fn wf_at(b: Bals, a: Seq<char>) requires bals_wf(b), b.dom().contains(a) ensures b[a].1.wf() {}
pub proof fn n_real_step(ps: Seq<Posting>) ensures n_real(ps, 0) == 0, forall|n: int| 0 <= n < ps.len() ==> n_real(ps, n + 1) == n_real(ps, n) + (if (#[trigger] ps[n]).kind == PostingType::Real { 1int } else { 0 }) {}
pub proof fn entry_at(b: Balance, s: Seq<(&Option<Rc<Currency>>, &Money)>, n: int) requires enumerates(s, b.balance@), b.clean(), 0 <= n < s.len() ensures s[n].1.amt() != 0real { let k = s[n].0.kid(); assert(b.balance@.dom().contains(k)); assert(b.balance@[k].1 == *s[n].1); }
/// what all lines together say
pub proof fn met_all(ps: Seq<Posting>, sk: bool, b0: Bals, m: Bals, tb: Balance, q: Seq<Posting>)
    requires met(ps, sk, b0, ps.len() as int, m, tb, q)
    ensures forall|c: Option<Seq<char>>| #[trigger] tb.amt(c) == fleft(ps, sk, b0)(c), forall|i: int| 0 <= i < ps.len() ==> #[trigger] assertion_ok(ps, sk, b0, i), forall|i: int| 0 <= i < ps.len() ==> #[trigger] assign_ok(ps, sk, b0, i),
      q.len() + n_blank(ps, sk, ps.len() as int) == n_real(ps, ps.len() as int), q.len() == kept(ps, sk).len(), forall|c: Option<Seq<char>>| #[trigger] tb.amt(c) == left(ps, sk, b0, ps.len() as int, c) {}
/// filling the blank posting: the commodities of s up to n have their line, on account a
pub open spec fn filling(ps: Seq<Posting>, sk: bool, b0: Bals, tb: Balance, lb: int, klen: int, pk: Seq<Posting>, s: Seq<(&Option<Rc<Currency>>, &Money)>, n: int, m: Bals, q: Seq<Posting>) -> bool {
    &&& m.dom() == b0.dom() && bals_wf(m)
    &&& q.len() == klen + n && forall|j: int| 0 <= j < klen ==> #[trigger] q[j] == pk[j]
    &&& forall|j: int| klen <= j < q.len() ==> filled(ps[lb], #[trigger] q[j])
    &&& assigned_at_face(ps, sk) ==> forall|c: Option<Seq<char>>| #[trigger] total(q, q.len() as int, PostingType::Real, c) == left(ps, sk, b0, ps.len() as int, c) - (if seen(s, n, c) { tb.amt(c) } else { 0real })
    &&& forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m, a, c) == bal0(b0, a, c) + samt(q, q.len() as int, a, c)
}
pub proof fn fill_start(ps: Seq<Posting>, sk: bool, b0: Bals, tb: Balance, lb: int, pk: Seq<Posting>, s: Seq<(&Option<Rc<Currency>>, &Money)>, m: Bals)
    requires met(ps, sk, b0, ps.len() as int, m, tb, pk) ensures filling(ps, sk, b0, tb, lb, pk.len() as int, pk, s, 0, m, pk) {}
pub proof fn fill_dom(ps: Seq<Posting>, sk: bool, b0: Bals, tb: Balance, lb: int, klen: int, pk: Seq<Posting>, s: Seq<(&Option<Rc<Currency>>, &Money)>, n: int, m: Bals, q: Seq<Posting>)
    requires filling(ps, sk, b0, tb, lb, klen, pk, s, n, m, q) ensures m.dom() == b0.dom(), bals_wf(m), q.len() == klen + n {}
pub proof fn fill_line(ps: Seq<Posting>, sk: bool, b0: Bals, tb: Balance, lb: int, klen: int, pk: Seq<Posting>, neg: Balance, s: Seq<(&Option<Rc<Currency>>, &Money)>, n: int, m: Bals, q: Seq<Posting>, m2: Bals, q2: Seq<Posting>, x: Posting)
    requires filling(ps, sk, b0, tb, lb, klen, pk, s, n, m, q), enumerates(s, neg.balance@), neg.wf(), forall|c: Option<Seq<char>>| #[trigger] neg.amt(c) == -tb.amt(c), 0 <= n < s.len(), 0 <= klen, q2 == q.push(x), filled(ps[lb], x), x.amount == Some(*s[n].1), moved(m, m2, ps[lb].account.kid(), *s[n].1)
    ensures filling(ps, sk, b0, tb, lb, klen, pk, s, n + 1, m2, q2)
{ lemma_push(q, x); let k = s[n].0.kid(); assert(neg.balance@.dom().contains(k)); assert(neg.balance@[k].1 == *s[n].1); assert(neg.amt(k) == s[n].1.amt()); assert(s[n].1.cid() == k);
  assert forall|c: Option<Seq<char>>| seen(s, n + 1, c) == (#[trigger] seen(s, n, c) || c == k) by { if seen(s, n, c) { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0.kid() == c; assert(s[j].0.kid() == c); } assert(s[n].0.kid() == k); }
  assert(!seen(s, n, k));
  assert forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m2, a, c) == bal0(b0, a, c) + samt(q2, q2.len() as int, a, c) by { assert(bal0(m, a, c) == bal0(b0, a, c) + samt(q, q.len() as int, a, c)); }
  if assigned_at_face(ps, sk) { assert forall|c: Option<Seq<char>>| #[trigger] total(q2, q2.len() as int, PostingType::Real, c) == left(ps, sk, b0, ps.len() as int, c) - (if seen(s, n + 1, c) { tb.amt(c) } else { 0real }) by {
    assert(total(q, q.len() as int, PostingType::Real, c) == left(ps, sk, b0, ps.len() as int, c) - (if seen(s, n, c) { tb.amt(c) } else { 0real })); assert(neg.amt(c) == -tb.amt(c)); assert(seen(s, n + 1, c) == (seen(s, n, c) || c == k)); } } }
/// what is said of an accepted transaction
pub open spec fn done(ps: Seq<Posting>, sk: bool, b0: Bals, m: Bals, q: Seq<Posting>) -> bool {
    &&& m.dom() == b0.dom() && bals_wf(m) && lines_kept(sk, ps, q)
    &&& assigned_at_face(ps, sk) ==> forall|c: Option<Seq<char>>| #[trigger] total(q, q.len() as int, PostingType::Real, c) == (if n_blank(ps, sk, ps.len() as int) == 1 { 0real } else { left(ps, sk, b0, ps.len() as int, c) })
    &&& forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m, a, c) == bal0(b0, a, c) + samt(q, q.len() as int, a, c)
}
pub proof fn gap_from(nc: bool, s: Seq<Posting>, q: Seq<Posting>, q2: Seq<Posting>)
    requires q2 == q + rest(s), forall|j: int| kept(s, nc).len() <= j < q.len() ==> fills(s, nc, #[trigger] q[j]) ensures gap_filled(nc, s, q2)
{ hide(fills); assert(q2.len() - rest(s).len() == q.len()); 
  assert forall|j: int| kept(s, nc).len() <= j < q2.len() - rest(s).len() implies fills(s, nc, #[trigger] q2[j]) by { assert(q2[j] == q[j]); } }
pub proof fn with_rest(ps: Seq<Posting>, sk: bool, q: Seq<Posting>, q2: Seq<Posting>)
    requires q2 == q + rest(ps), q.len() >= kept(ps, sk).len(), forall|j: int| 0 <= j < kept(ps, sk).len() ==> same_line(kept(ps, sk)[j], #[trigger] q[j]),
      forall|j: int| kept(ps, sk).len() <= j < q.len() ==> fills(ps, sk, #[trigger] q[j])
    ensures lines_kept(sk, ps, q2), forall|c: Option<Seq<char>>| #[trigger] total(q2, q2.len() as int, PostingType::Real, c) == total(q, q.len() as int, PostingType::Real, c), forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] samt(q2, q2.len() as int, a, c) == samt(q, q.len() as int, a, c)
{ hide(fills); hide(same_line); let r = rest(ps); let idx = lemma_sfilter(ps, ps.len() as int, unreal()); assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).kind != PostingType::Real by { assert(unreal()(ps[idx[i]])); }
  lemma_append(q, r, r.len() as int); assert(q2.subrange(q2.len() - r.len(), q2.len() as int) =~= r);
  assert forall|j: int| 0 <= j < kept(ps, sk).len() implies same_line(#[trigger] kept(ps, sk)[j], q2[j]) by { assert(q2[j] == q[j]); }
  assert forall|j: int| kept(ps, sk).len() <= j < q2.len() - r.len() implies fills(ps, sk, #[trigger] q2[j]) by { assert(q2[j] == q[j]); }
  gap_from(sk, ps, q, q2); assert(q2.len() >= kept(ps, sk).len() + rest(ps).len()); assert(lines_kept(sk, ps, q2)); }
pub proof fn done_met(ps: Seq<Posting>, sk: bool, b0: Bals, m: Bals, tb: Balance, q: Seq<Posting>, q2: Seq<Posting>)
    requires met(ps, sk, b0, ps.len() as int, m, tb, q), n_blank(ps, sk, ps.len() as int) == 0, q2 == q + rest(ps) ensures done(ps, sk, b0, m, q2)
{ with_rest(ps, sk, q, q2);
  assert forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m, a, c) == bal0(b0, a, c) + samt(q2, q2.len() as int, a, c) by { assert(samt(q2, q2.len() as int, a, c) == samt(q, q.len() as int, a, c)); } }
pub proof fn done_fill(ps: Seq<Posting>, sk: bool, b0: Bals, m0: Bals, tb: Balance, pk: Seq<Posting>, neg: Balance, s: Seq<(&Option<Rc<Currency>>, &Money)>, m: Bals, q: Seq<Posting>, q2: Seq<Posting>)
    requires met(ps, sk, b0, ps.len() as int, m0, tb, pk), n_blank(ps, sk, ps.len() as int) == 1, filling(ps, sk, b0, tb, last_blank(ps, sk, ps.len() as int), pk.len() as int, pk, s, s.len() as int, m, q), enumerates(s, neg.balance@), forall|c: Option<Seq<char>>| #[trigger] neg.amt(c) == -tb.amt(c), q2 == q + rest(ps)
    ensures done(ps, sk, b0, m, q2)
{ assert forall|j: int| 0 <= j < kept(ps, sk).len() implies same_line(kept(ps, sk)[j], #[trigger] q[j]) by { assert(q[j] == pk[j]); } with_rest(ps, sk, q, q2);
  if assigned_at_face(ps, sk) { assert forall|c: Option<Seq<char>>| #[trigger] total(q2, q2.len() as int, PostingType::Real, c) == 0real by { assert(total(q2, q2.len() as int, PostingType::Real, c) == total(q, q.len() as int, PostingType::Real, c)); assert(neg.amt(c) == -tb.amt(c)); assert(tb.amt(c) == left(ps, sk, b0, ps.len() as int, c));
    if neg.balance@.dom().contains(c) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.kid() == c; assert(seen(s, s.len() as int, c)); } else { assert(tb.amt(c) == 0real); } } }
  assert forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(m, a, c) == bal0(b0, a, c) + samt(q2, q2.len() as int, a, c) by { assert(samt(q2, q2.len() as int, a, c) == samt(q, q.len() as int, a, c)); } }
@fn Transaction<Posting>::balance
requires
  costs_ok(old(self).postings.v@), bals_wf(old(balances)@), accounts_known(old(self).postings.v@, old(balances)@),
ensures
  //# frame: only the postings change, and the set of accounts stays
  final(self).date == old(self).date, final(self).description == old(self).description, final(self).tags == old(self).tags, final(self).comments == old(self).comments,
  final(self).payee == old(self).payee, final(self).code == old(self).code, final(self).cleared == old(self).cleared, final(self).effective_date == old(self).effective_date,
  r is Ok ==> final(balances)@.dom() == old(balances)@.dom(), bals_wf(final(balances)@),
  //# C02: accepted only when the virtual group and the real group settle
  r is Ok ==> settled(ftotal(old(self).postings.v@, PostingType::VirtualMustBalance)),
  r is Ok ==> n_blank(old(self).postings.v@, skip_balance_check, old(self).postings.v@.len() as int) <= 1,
  r is Ok && n_blank(old(self).postings.v@, skip_balance_check, old(self).postings.v@.len() as int) == 0 ==> settled(fleft(old(self).postings.v@, skip_balance_check, old(balances)@)),
  //# C04: accepted only when every balance assertion holds
  r is Ok ==> forall|i: int| 0 <= i < old(self).postings.v@.len() ==> #[trigger] assertion_ok(old(self).postings.v@, skip_balance_check, old(balances)@, i),
  r is Ok ==> forall|i: int| 0 <= i < old(self).postings.v@.len() ==> #[trigger] assign_ok(old(self).postings.v@, skip_balance_check, old(balances)@, i),
  //# and rejected only for one of these reasons
  r is Err ==> !settled(ftotal(old(self).postings.v@, PostingType::VirtualMustBalance))
     || (exists|i: int| 0 <= i < old(self).postings.v@.len() && !(#[trigger] assertion_ok(old(self).postings.v@, skip_balance_check, old(balances)@, i)))
     || (exists|i: int| 0 <= i < old(self).postings.v@.len() && !(#[trigger] assign_ok(old(self).postings.v@, skip_balance_check, old(balances)@, i)))
     || n_blank(old(self).postings.v@, skip_balance_check, old(self).postings.v@.len() as int) > 1
     || !settled(fleft(old(self).postings.v@, skip_balance_check, old(balances)@)),
  //# C03: the lines are kept, in order, and the blank one is filled in its own account
  r is Ok ==> lines_kept(skip_balance_check, old(self).postings.v@, final(self).postings.v@),
  r is Ok && n_blank(old(self).postings.v@, skip_balance_check, old(self).postings.v@.len() as int) == 1 && assigned_at_face(old(self).postings.v@, skip_balance_check) ==>
     forall|c: Option<Seq<char>>| #[trigger] total(final(self).postings.v@, final(self).postings.v@.len() as int, PostingType::Real, c) == 0real,
  r is Ok && n_blank(old(self).postings.v@, skip_balance_check, old(self).postings.v@.len() as int) == 0 && assigned_at_face(old(self).postings.v@, skip_balance_check) ==>
     forall|c: Option<Seq<char>>| #[trigger] total(final(self).postings.v@, final(self).postings.v@.len() as int, PostingType::Real, c) == left(old(self).postings.v@, skip_balance_check, old(balances)@, old(self).postings.v@.len() as int, c),
  //# the leftover that is returned is the implicit exchange
  r is Ok ==> r->Ok_0.wf() && r->Ok_0.clean(),
  r is Ok && n_blank(old(self).postings.v@, skip_balance_check, old(self).postings.v@.len() as int) == 0 ==> forall|c: Option<Seq<char>>| #[trigger] r->Ok_0.amt(c) == left(old(self).postings.v@, skip_balance_check, old(balances)@, old(self).postings.v@.len() as int, c),
  r is Ok && n_blank(old(self).postings.v@, skip_balance_check, old(self).postings.v@.len() as int) == 1 ==> r->Ok_0.zero(),
  //# every account's running balance moves by exactly what is posted to it
  r is Ok ==> forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(final(balances)@, a, c) == bal0(old(balances)@, a, c) + samt(final(self).postings.v@, final(self).postings.v@.len() as int, a, c),
@ghost start
hide(met); hide(filling); hide(run); hide(left); hide(samt); hide(total); hide(assertion_ok); hide(assign_ok); hide(n_blank); hide(n_real); hide(lines_kept); hide(settled); hide(seen); hide(fleft); hide(kept); hide(assigned_at_face); hide(last_blank); hide(moved); hide(bals_wf); hide(sfilter); hide(rest); hide(accounts_known); hide(Balance::wf); hide(Balance::clean);
let ghost ps = self.postings.v@; let ghost b0 = balances@; let ghost sk = skip_balance_check; let ghost len = ps.len() as int;
let ghost mut tbv: Balance = arbitrary(); let ghost mut pk: Seq<Posting> = Seq::empty(); let ghost mut bk: Bals = balances@; let ghost lb = last_blank(ps, sk, len); let ghost mut ng: Balance = arbitrary(); let ghost mut its: Seq<(&Option<Rc<Currency>>, &Money)> = Seq::empty(); let ghost mut pf: Seq<Posting> = Seq::empty();
@ghost before 0
proof { met_start(ps, sk, b0, transaction_balance, postings@); blanks_start(ps, sk); }
@loop 0
it0@.len() == ps.len(), forall|j: int| 0 <= j < ps.len() ==> *(#[trigger] it0@[j]) == ps[j],
met(ps, sk, b0, i0 as int, balances@, transaction_balance, postings@), transaction_balance.wf(), transaction_balance.clean(),
n_blank(ps, sk, i0 as int) > 0 ==> fill_account == ps[last_blank(ps, sk, i0 as int)].account && fill_payee == ps[last_blank(ps, sk, i0 as int)].payee && fill_tags == ps[last_blank(ps, sk, i0 as int)].tags,
@ghost top 0
let ghost bp = balances@; let ghost pp = postings@; let ghost tp = transaction_balance; let ghost n0 = i0 - 1; let ghost pk0 = ps[n0].account.kid();
proof { assert(*p == ps[n0]); met_dom(ps, sk, b0, n0, bp, tp, pp); if p.kind == PostingType::Real { known_at(ps, b0, n0); wf_at(bp, pk0); } blanks_step(ps, sk, n0); if p.kind != PostingType::Real || blank(*p, sk) { met_skip(ps, sk, b0, n0, bp, tp, pp); } }
@ghost pre if !skip_balance_check
proof { wf_at(bp, pk0); assert forall|c: Option<Seq<char>>| #[trigger] expected_balance.amt(c) == bal0(bp, pk0, c) + money.at(c) by {} met_assert(ps, sk, b0, n0, bp, tp, pp, expected_balance); }
@ghost pre let money = amount_bal.to_money()
proof { wf_at(bp, pk0); assert forall|c: Option<Seq<char>>| #[trigger] amount_bal.amt(c) == balance.at(c) - bal0(bp, pk0, c) by {} met_assign(ps, sk, b0, n0, bp, tp, pp, amount_bal); }
@ghost post let money = amount_bal.to_money()
let ghost mm = money;
proof { met_assigned(ps, sk, b0, n0, bp, tp, pp, amount_bal, money); }
@ghost bot 0
proof { if !blank(*p, sk) { let x = postings@.last(); assert(postings@ == pp.push(x)); let e = balances@[pk0];
  if p.amount is Some { no_assign(ps, sk, b0, n0); }
  move_ins(bp, balances@, pk0, e, x.amount->0); met_line(ps, sk, b0, n0, bp, tp, pp, balances@, transaction_balance, postings@, x); } }
@ghost after 0
proof { tbv = transaction_balance; pk = postings@; bk = balances@; met_dom(ps, sk, b0, len, bk, tbv, pk); met_all(ps, sk, b0, bk, tbv, pk); }
@loop 1
acc1 == n_real(ps, i1 as int), acc1 <= i1,
@ghost before 1
proof { n_real_step(ps); }
@loop 2: Vec<Posting>
acc2@ == sfilter(ps, i2 as int, unreal()),
@ghost before 2
proof { reveal(rest); reveal(sfilter); }
@ghost before 3
proof { fill_start(ps, sk, b0, tbv, lb, pk, it3@, bk); }
@loop 3
filling(ps, sk, b0, tbv, lb, pk.len() as int, pk, it3@, i3 as int, balances@, postings@),
@ghost top 3
let ghost bp = balances@; let ghost pp = postings@; let ghost n3 = i3 - 1; let ghost ka = ps[lb].account.kid();
proof { fill_dom(ps, sk, b0, tbv, lb, pk.len() as int, pk, it3@, n3, bp, pp); blank_at(ps, sk, len); known_at(ps, b0, lb); wf_at(bp, ka); entry_at(tmp3_, it3@, n3); }
@ghost bot 3
proof { let x = postings@.last(); assert(postings@ == pp.push(x)); let e = balances@[ka]; move_ins(bp, balances@, ka, e, *money); fill_line(ps, sk, b0, tbv, lb, pk.len() as int, pk, tmp3_, it3@, n3, bp, pp, balances@, postings@, x); }
@ghost after 3
proof { ng = tmp3_; its = it3@; pf = postings@; }
@ghost pre self.postings.replace
proof { reveal(rest); if n_blank(ps, sk, len) == 0 { done_met(ps, sk, b0, balances@, tbv, pk, postings@); } else { done_fill(ps, sk, b0, bk, tbv, pk, ng, its, balances@, pf, postings@); } assert(done(ps, sk, b0, balances@, postings@)); }
@loop 4: Vec<Posting>
acc4@ == sfilter(ps, i4 as int, unreal()),
@ghost before 4
proof { reveal(rest); reveal(sfilter); }
@end
@raw
/// everything but the postings
pub open spec fn same_head(a: Transaction<Posting>, b: Transaction<Posting>) -> bool {
    a.date == b.date && a.description == b.description && a.tags == b.tags && a.comments == b.comments && a.code == b.code && a.cleared == b.cleared && a.effective_date == b.effective_date
}
/// the lines are kept, in order, and the blank one is filled in its own account
pub open spec fn lines_kept(nc: bool, s: Seq<Posting>, q: Seq<Posting>) -> bool {
    &&& q.len() >= kept(s, nc).len() + rest(s).len()
    &&& forall|j: int| 0 <= j < kept(s, nc).len() ==> same_line(#[trigger] kept(s, nc)[j], q[j])
    &&& q.subrange(q.len() - rest(s).len(), q.len() as int) == rest(s)
    &&& gap_filled(nc, s, q)
}
/// a line between those kept and the virtual ones is the blank one
pub open spec fn gap_filled(nc: bool, s: Seq<Posting>, q: Seq<Posting>) -> bool { forall|j: int| kept(s, nc).len() <= j < q.len() - rest(s).len() ==> fills(s, nc, #[trigger] q[j]) }
pub proof fn gap_at(nc: bool, s: Seq<Posting>, q: Seq<Posting>, j: int) requires gap_filled(nc, s, q), kept(s, nc).len() <= j < q.len() - rest(s).len() ensures n_blank(s, nc, s.len() as int) == 1, filled(s[last_blank(s, nc, s.len() as int)], q[j]) { let z = q[j]; }
/// transaction t0, met with balances b0, is accepted as t1 and leaves the balances b1: what Transaction::balance is shown to do
pub open spec fn settles(nc: bool, t0: Transaction<Posting>, t1: Transaction<Posting>, b0: Bals, b1: Bals) -> bool {
    let s = t0.postings.v@; let q = t1.postings.v@; let n = s.len() as int;
    &&& same_head(t0, t1) && bals_wf(b1) && b1.dom() == b0.dom()
    &&& settled(ftotal(s, PostingType::VirtualMustBalance)) && n_blank(s, nc, n) <= 1 && (n_blank(s, nc, n) == 0 ==> settled(fleft(s, nc, b0)))
    &&& forall|i: int| 0 <= i < n ==> #[trigger] assertion_ok(s, nc, b0, i)
    &&& forall|i: int| 0 <= i < n ==> #[trigger] assign_ok(s, nc, b0, i)
    &&& lines_kept(nc, s, q)
    &&& assigned_at_face(s, nc) ==> forall|c: Option<Seq<char>>| #[trigger] total(q, q.len() as int, PostingType::Real, c) == (if n_blank(s, nc, n) == 1 { 0real } else { left(s, nc, b0, n, c) })
    &&& forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(b1, a, c) == bal0(b0, a, c) + samt(q, q.len() as int, a, c)
}
/// the transaction is not acceptable as it stands
pub open spec fn refused(nc: bool, t: Transaction<Posting>, b: Bals) -> bool {
    let s = t.postings.v@; let n = s.len() as int;
    ||| !settled(ftotal(s, PostingType::VirtualMustBalance)) || n_blank(s, nc, n) > 1 || !settled(fleft(s, nc, b))
    ||| exists|i: int| 0 <= i < n && !(#[trigger] assertion_ok(s, nc, b, i))
    ||| exists|i: int| 0 <= i < n && !(#[trigger] assign_ok(s, nc, b, i))
}
/// what is left over of the real postings: nothing if a blank posting absorbs it
pub open spec fn over(nc: bool, t: Transaction<Posting>, b: Bals) -> spec_fn(Option<Seq<char>>) -> real {
    let s = t.postings.v@; |c: Option<Seq<char>>| if n_blank(s, nc, s.len() as int) == 1 { 0real } else { left(s, nc, b, s.len() as int, c) }
}
pub proof fn blank_at(s: Seq<Posting>, nc: bool, n: int) requires 0 <= n <= s.len(), n_blank(s, nc, n) > 0 ensures 0 <= last_blank(s, nc, n) < n, blank(s[last_blank(s, nc, n)], nc) decreases n { if n > 0 && !blank(s[n - 1], nc) { blank_at(s, nc, n - 1); } }
/// what holds of all lines and is inherited holds of all settled lines
pub proof fn lines_inherit(nc: bool, s: Seq<Posting>, q: Seq<Posting>, f: spec_fn(Posting) -> bool)
    requires lines_kept(nc, s, q), forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]), forall|p: Posting, r: Posting| f(p) && #[trigger] same_line(p, r) ==> f(r), forall|p: Posting, r: Posting| f(p) && #[trigger] filled(p, r) ==> f(r)
    ensures forall|j: int| 0 <= j < q.len() ==> f(#[trigger] q[j])
{
    let k = lemma_sfilter(s, s.len() as int, keeps(nc)); let u = lemma_sfilter(s, s.len() as int, unreal());
    assert forall|j: int| 0 <= j < q.len() implies f(#[trigger] q[j]) by {
        if j < kept(s, nc).len() { assert(kept(s, nc)[j] == s[k[j]]); assert(same_line(kept(s, nc)[j], q[j])); }
        else if j < q.len() - rest(s).len() { gap_at(nc, s, q, j); blank_at(s, nc, s.len() as int); }
        else { let i = j - (q.len() - rest(s).len()); assert(q.subrange(q.len() - rest(s).len(), q.len() as int)[i] == rest(s)[i]); assert(rest(s)[i] == s[u[i]]); }
    }
}
@end
