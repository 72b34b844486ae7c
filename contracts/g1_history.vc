@module history src/models/mod.rs
@raw
// ---------------------------------------------------------------- the names that occur in a journal
pub open spec fn with_opt(s: Set<Seq<char>>, n: Option<String>) -> Set<Seq<char>> { match n { Some(x) => s.insert(x@), None => s } }
pub open spec fn accs_in(s: Set<Seq<char>>, ps: Seq<RawPosting>, n: int) -> Set<Seq<char>> decreases n { if n <= 0 { s } else { accs_in(s, ps, n - 1).insert(ps[n - 1].account@) } }
pub open spec fn pays_in(s: Set<Seq<char>>, ps: Seq<RawPosting>, n: int) -> Set<Seq<char>> decreases n { if n <= 0 { s } else { with_opt(pays_in(s, ps, n - 1), ps[n - 1].payee) } }
pub open spec fn coms_in(s: Set<Seq<char>>, ps: Seq<RawPosting>, n: int) -> Set<Seq<char>> decreases n {
    if n <= 0 { s } else { let p = ps[n - 1]; with_opt(with_opt(with_opt(coms_in(s, ps, n - 1), p.money_currency), p.cost_currency), p.balance_currency) } }
pub open spec fn acc_used(ts: Seq<Transaction<RawPosting>>, n: int) -> Set<Seq<char>> decreases n { if n <= 0 { Set::empty() } else { accs_in(acc_used(ts, n - 1), ts[n - 1].postings.v@, ts[n - 1].postings.v@.len() as int) } }
pub open spec fn pay_used(ts: Seq<Transaction<RawPosting>>, n: int) -> Set<Seq<char>> decreases n { if n <= 0 { Set::empty() } else { pays_in(pay_used(ts, n - 1), ts[n - 1].postings.v@, ts[n - 1].postings.v@.len() as int) } }
pub open spec fn com_used(ts: Seq<Transaction<RawPosting>>, n: int) -> Set<Seq<char>> decreases n { if n <= 0 { Set::empty() } else { coms_in(com_used(ts, n - 1), ts[n - 1].postings.v@, ts[n - 1].postings.v@.len() as int) } }
pub open spec fn price_used(s: Set<Seq<char>>, ps: Seq<ParsedPrice>, n: int) -> Set<Seq<char>> decreases n { if n <= 0 { s } else { price_used(s, ps, n - 1).insert(ps[n - 1].commodity@).insert(ps[n - 1].other_commodity@) } }
/// the first n of the names it
pub open spec fn vset(it: Seq<String>, n: int) -> Set<Seq<char>> decreases n { if n <= 0 { Set::empty() } else { vset(it, n - 1).insert(it[n - 1]@) } }
pub proof fn vset_all(it: Seq<String>, m: Map<Seq<char>, String>) requires enumerates_set_own(it, m) ensures vset(it, it.len() as int) =~= m.dom()
{ vset_has(it, it.len() as int); assert forall|x: Seq<char>| #[trigger] m.dom().contains(x) implies vset(it, it.len() as int).contains(x) by { let i = choose|i: int| 0 <= i < it.len() && (#[trigger] it[i]).kid() == x; assert(it[i]@ == x); } }
pub proof fn vset_has(it: Seq<String>, n: int) requires 0 <= n <= it.len() ensures forall|x: Seq<char>| #[trigger] vset(it, n).contains(x) <==> exists|i: int| 0 <= i < n && (#[trigger] it[i])@ == x decreases n
{ if n > 0 { vset_has(it, n - 1); assert forall|x: Seq<char>| #[trigger] vset(it, n).contains(x) <==> exists|i: int| 0 <= i < n && (#[trigger] it[i])@ == x by {
  if vset(it, n).contains(x) { if x == it[n - 1]@ { } else { assert(vset(it, n - 1).contains(x)); let i = choose|i: int| 0 <= i < n - 1 && (#[trigger] it[i])@ == x; assert(it[i]@ == x); } }
  if exists|i: int| 0 <= i < n && (#[trigger] it[i])@ == x { let i = choose|i: int| 0 <= i < n && (#[trigger] it[i])@ == x; if i < n - 1 { assert(vset(it, n - 1).contains(x)); } } } } }
/// the list with the names s entered: nothing is lost or redirected, every name is found, and nothing else is new
#[verifier::opaque]
pub open spec fn listed<T: HasName>(a: List<T>, b: List<T>, s: Set<Seq<char>>) -> bool {
    &&& grows(a, b) && b.wf() && (forall|k: Seq<char>| #[trigger] a.list@.dom().contains(k) ==> b.list@.dom().contains(k) && b.list@[k] == a.list@[k])
    &&& forall|n: Seq<char>| #[trigger] s.contains(n) ==> b.find(n) is Some
    &&& forall|k: Seq<char>| #[trigger] b.list@.dom().contains(k) ==> a.list@.dom().contains(k) || s.contains(b.list@[k].1.name_s())
}
pub proof fn listed_none<T: HasName>(a: List<T>) requires a.wf() ensures listed(a, a, Set::empty()) { reveal(listed); }
pub proof fn listed_known<T: HasName>(a: List<T>, b: List<T>, s: Set<Seq<char>>, n: Seq<char>) requires listed(a, b, s), b.find(n) is Some ensures listed(a, b, s.insert(n)) { reveal(listed); }
pub proof fn listed_wf<T: HasName>(a: List<T>, b: List<T>, s: Set<Seq<char>>) requires listed(a, b, s) ensures b.wf(), grows(a, b) { reveal(listed); }
/// what List::insert does with a name that is not there
pub open spec fn inserted<T: HasName>(b: List<T>, c: List<T>, n: Seq<char>) -> bool {
    &&& c.wf() && grows(b, c) && c.find(n) is Some && c.list@.dom() == b.list@.dom().insert(lower(n)) && c.list@[lower(n)].1.name_s() == n
    &&& forall|k: Seq<char>| k != lower(n) && #[trigger] b.list@.dom().contains(k) ==> c.list@[k] == b.list@[k]
}
pub proof fn listed_new<T: HasName>(a: List<T>, b: List<T>, c: List<T>, s: Set<Seq<char>>, n: Seq<char>)
    requires listed(a, b, s), b.find(n) is None, inserted(b, c, n)
    ensures listed(a, c, s.insert(n))
{ reveal(listed); grows_trans(a, b, c); broadcast use lower_idem;
  assert forall|m: Seq<char>| #[trigger] s.insert(n).contains(m) implies c.find(m) is Some by { if m != n { assert(b.find(m) is Some); } }
  assert forall|k: Seq<char>| #[trigger] c.list@.dom().contains(k) implies a.list@.dom().contains(k) || s.insert(n).contains(c.list@[k].1.name_s()) by { if k != lower(n) { assert(b.list@.dom().contains(k)); } } }
// ---------------------------------------------------------------- payees
pub open spec fn answers(p: Payee, n: Seq<char>) -> bool { exists|i: int| 0 <= i < p.alias_regex@.len() && re_matches((#[trigger] p.alias_regex@[i])@, n) }
pub open spec fn by_alias(l: List<Payee>, n: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] l.list@.dom().contains(k) && answers(*l.list@[k].1, n) }
/// a payee that is not in the list a is one with an alias pattern that matches, or a new one
pub open spec fn new_payee(a: List<Payee>, b: List<Payee>, n: Seq<char>, m: Seq<char>) -> bool {
    lower(m) == lower(n) && b.find(n) is Some && if by_alias(a, m) { exists|k: Seq<char>| #[trigger] a.list@.dom().contains(k) && answers(*a.list@[k].1, m) && b.find(n)->0 == a.list@[k].1 } else { b.find(n)->0.name@ == m }
}
/// no lookup but of n is new
pub open spec fn only_new<T>(b: List<T>, c: List<T>, n: Seq<char>) -> bool { forall|x: Seq<char>| #[trigger] c.find(x) is Some && b.find(x) is None ==> lower(x) == lower(n) }
#[verifier::opaque]
pub open spec fn payees_listed(a: List<Payee>, b: List<Payee>, s: Set<Seq<char>>) -> bool {
    &&& listed(a, b, s) 
    &&& forall|n: Seq<char>| #[trigger] s.contains(n) && a.find(n) is None ==> exists|m: Seq<char>| s.contains(m) && #[trigger] new_payee(a, b, n, m)
    &&& forall|n: Seq<char>| #[trigger] b.find(n) is Some && a.find(n) is None ==> exists|m: Seq<char>| #[trigger] s.contains(m) && lower(m) == lower(n)
}
pub proof fn payees_none(a: List<Payee>) requires a.wf() ensures payees_listed(a, a, Set::empty()) { reveal(payees_listed); listed_none(a); }
pub proof fn payees_wf(a: List<Payee>, b: List<Payee>, s: Set<Seq<char>>) requires payees_listed(a, b, s) ensures b.wf(), grows(a, b), listed(a, b, s), forall|k: Seq<char>| #[trigger] a.list@.dom().contains(k) ==> b.list@.dom().contains(k) && b.list@[k] == a.list@[k] { reveal(payees_listed); reveal(listed); }
pub proof fn payees_step(a: List<Payee>, b: List<Payee>, c: List<Payee>, s: Set<Seq<char>>, n: Seq<char>)
    requires payees_listed(a, b, s), grows(b, c), only_new(b, c, n), listed(a, c, s.insert(n)), a.find(n) is None ==> exists|m: Seq<char>| s.insert(n).contains(m) && #[trigger] new_payee(a, c, n, m)
    ensures payees_listed(a, c, s.insert(n))
{ reveal(payees_listed); reveal(listed);
  assert forall|x: Seq<char>| #[trigger] s.insert(n).contains(x) && a.find(x) is None implies exists|m: Seq<char>| s.insert(n).contains(m) && #[trigger] new_payee(a, c, x, m) by {
    if x != n { assert(s.contains(x)); let m = choose|m: Seq<char>| s.contains(m) && #[trigger] new_payee(a, b, x, m); assert(c.find(x) == b.find(x)); assert(new_payee(a, c, x, m)); assert(s.insert(n).contains(m)); } }
  assert forall|x: Seq<char>| #[trigger] c.find(x) is Some && a.find(x) is None implies exists|m: Seq<char>| #[trigger] s.insert(n).contains(m) && lower(m) == lower(x) by {
    if b.find(x) is Some { let m = choose|m: Seq<char>| #[trigger] s.contains(m) && lower(m) == lower(x); assert(s.insert(n).contains(m)); } else { assert(s.insert(n).contains(n)); } } }
/// a name found already
pub proof fn payees_known(a: List<Payee>, b: List<Payee>, s: Set<Seq<char>>, n: Seq<char>)
    requires payees_listed(a, b, s), b.find(n) is Some
    ensures payees_listed(a, b, s.insert(n))
{ reveal(payees_listed); listed_known(a, b, s, n);
  if a.find(n) is None { let x = choose|m: Seq<char>| #[trigger] s.contains(m) && lower(m) == lower(n); assert(a.find(x) is None); let m = choose|m: Seq<char>| s.contains(m) && #[trigger] new_payee(a, b, x, m); assert(new_payee(a, b, n, m)); assert(s.insert(n).contains(m)); }
  payees_step(a, b, b, s, n); }
/// an alias for n is added to the element of key k
pub proof fn payees_alias(a: List<Payee>, b: List<Payee>, c: List<Payee>, s: Set<Seq<char>>, n: Seq<char>, k: Seq<char>)
    requires payees_listed(a, b, s), b.find(n) is None, grows(b, c), c.wf(), c.list@ == b.list@, c.aliases@.dom() == b.aliases@.dom().insert(lower(n)), a.list@.dom().contains(k), answers(*a.list@[k].1, n), c.find(n) is Some, c.find(n)->0 == b.list@[k].1
    ensures payees_listed(a, c, s.insert(n))
{ payees_wf(a, b, s); assert(listed(a, c, s.insert(n))) by { reveal(listed); grows_trans(a, b, c);
    assert forall|m: Seq<char>| #[trigger] s.insert(n).contains(m) implies c.find(m) is Some by { if m != n { assert(b.find(m) is Some); } } }
  assert(new_payee(a, c, n, n)); assert(s.insert(n).contains(n)); payees_step(a, b, c, s, n); }
pub proof fn payees_new(a: List<Payee>, b: List<Payee>, c: List<Payee>, s: Set<Seq<char>>, n: Seq<char>)
    requires payees_listed(a, b, s), b.find(n) is None, inserted(b, c, n), c.aliases@.dom() =~= b.aliases@.dom(), !by_alias(a, n)
    ensures payees_listed(a, c, s.insert(n))
{ payees_wf(a, b, s); listed_new(a, b, c, s, n); assert(new_payee(a, c, n, n)); assert(s.insert(n).contains(n)); payees_step(a, b, c, s, n); }
// ---------------------------------------------------------------- the history of a ledger
pub open spec fn dir_price(l: List<Currency>, p: ParsedPrice) -> PriceV { PriceV { date: p.date@, what: l.find(p.commodity@)->0.kid(), amount: p.other_quantity@, unit: Some(l.find(p.other_commodity@)->0.kid()) } }
/// the prices that the price directives state
pub open spec fn dir_prices(l: List<Currency>, s: Seq<ParsedPrice>, n: int) -> Seq<PriceV> decreases n { if n <= 0 { Seq::empty() } else { dir_prices(l, s, n - 1).push(dir_price(l, s[n - 1])) } }
pub open spec fn real_t() -> spec_fn(Transaction<RawPosting>) -> bool { |t: Transaction<RawPosting>| t.transaction_type is Real }
pub open spec fn auto_t() -> spec_fn(Transaction<RawPosting>) -> bool { |t: Transaction<RawPosting>| t.transaction_type is Automated }
pub open spec fn reals(s: Seq<Transaction<RawPosting>>, n: int) -> Seq<Transaction<RawPosting>> { sfilter(s, n, real_t()) }
pub open spec fn autos(s: Seq<Transaction<RawPosting>>, n: int) -> Seq<Transaction<RawPosting>> { sfilter(s, n, auto_t()) }
/// the prices that the costs of the first n transactions state
pub open spec fn cost_prices(l: List<Currency>, s: Seq<Transaction<RawPosting>>, n: int) -> Seq<PriceV> decreases n {
    if n <= 0 { Seq::empty() } else { let t = s[n - 1]; cost_prices(l, s, n - 1) + (if t.transaction_type is Real { line_prices(l, t.date->0@, t.postings.v@, t.postings.v@.len() as int) } else { Seq::empty() }) } }
pub open spec fn all_trans(l: ParsedLedger, w: Seq<Transaction<RawPosting>>, t: Seq<Transaction<Posting>>) -> bool { t.len() == w.len() && forall|i: int| 0 <= i < t.len() ==> trans_of(l, w[i], #[trigger] t[i]) }
pub open spec fn date_ord() -> spec_fn(Transaction<Posting>, Transaction<Posting>) -> Ordering { |a: Transaction<Posting>, b: Transaction<Posting>| ord_of(a.date->0@ < b.date->0@, a.date->0@ == b.date->0@) }
pub open spec fn dated() -> spec_fn(Transaction<Posting>) -> bool { |t: Transaction<Posting>| t.date is Some }
pub proof fn date_ord_ok() ensures preorder(date_ord(), dated()) {}
/// the balances before the first transaction
pub open spec fn all_zero(b: Bals) -> bool { bals_wf(b) && forall|a: Seq<char>| b.dom().contains(a) ==> (#[trigger] b[a]).1.zero() }
/// exactly two commodities are left over, k0 and k1
pub open spec fn two(f: spec_fn(Option<Seq<char>>) -> real, k0: Seq<char>, k1: Seq<char>) -> bool { k0 != k1 && f(Some(k0)) != 0real && f(Some(k1)) != 0real && forall|c: Option<Seq<char>>| #[trigger] f(c) != 0real ==> c == Some(k0) || c == Some(k1) }
/// an exchange of two commodities implies a price
pub open spec fn implied(nc: bool, t: Transaction<Posting>, b: Bals, x: Option<PriceV>) -> bool {
    let f = over(nc, t, b);
    match x {
        None => forall|k0: Seq<char>, k1: Seq<char>| !(#[trigger] two(f, k0, k1)),
        Some(p) => exists|k0: Seq<char>, k1: Seq<char>| #[trigger] two(f, k0, k1) && p == (PriceV { date: t.date->0@, what: k0, amount: absr(f(Some(k1))) / absr(f(Some(k0))), unit: Some(k1) }),
    }
}
/// the transactions t0[..], met one after the other, are accepted as t1[..]; b[..] are the balances in between and x[..] the implied prices
#[verifier::opaque]
pub open spec fn accepted(nc: bool, t0: Seq<Transaction<Posting>>, t1: Seq<Transaction<Posting>>, b: Seq<Bals>, n: int) -> bool {
    &&& 0 <= n <= t0.len() && t1.len() == t0.len() && b.len() == n + 1 && all_zero(b[0])
    &&& forall|i: int| 0 <= i < n ==> #[trigger] settles(nc, t0[i], t1[i], b[i], b[i + 1])
}
#[verifier::opaque]
pub open spec fn implies(nc: bool, t0: Seq<Transaction<Posting>>, b: Seq<Bals>, x: Seq<Option<PriceV>>, n: int) -> bool { x.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] implied(nc, t0[i], b[i], x[i]) }
pub open spec fn opts(x: Seq<Option<PriceV>>, n: int) -> Seq<PriceV> decreases n { if n <= 0 { Seq::empty() } else { opt_push(opts(x, n - 1), x[n - 1]) } }
// ---------------------------------------------------------------- automated transactions
pub struct Lists { pub a: List<Account>, pub p: List<Payee>, pub c: List<Currency> }
pub open spec fn lists(l: ParsedLedger) -> Lists { Lists { a: l.accounts, p: l.payees, c: l.commodities } }
pub open spec fn all_grow(l: Lists, m: Lists) -> bool { grows(l.a, m.a) && grows(l.p, m.p) && grows(l.c, m.c) }
pub open spec fn found(l: List<Account>, a: Rc<Account>) -> bool { exists|n: Seq<char>| #[trigger] l.find(n) == Some(a) }
/// the amount that line w of an automated transaction gives for posting p
pub open spec fn auto_amount(l: Lists, t: Transaction<Posting>, p: Posting, w: RawPosting, m: Money) -> bool {
    match w.money_currency {
        None => w.amount_expr is Some && amount_of(tree_of(w.amount_expr->0@), p, t, l.c, m),
        Some(s) => w.money_amount is Some && if s@ == ""@ { p.amount is Some && m.amt() == p.amount->0.amt() * w.money_amount->0@ && m.cid() == p.amount->0.cid() }
            else { l.c.find(s@) is Some && m == (Money::Money { amount: w.money_amount->0, currency: l.c.find(s@)->0 }) },
    }
}
/// x is what line w of an automated transaction adds for posting p of transaction t
#[verifier::opaque]
pub open spec fn added(l: Lists, t: Transaction<Posting>, p: Posting, w: RawPosting, x: Posting) -> bool {
    &&& x.kind == w.kind && x.balance is None && x.cost is None && x.comments@.len() == 0 && x.tags.v@.len() == 0 && x.origin == PostingOrigin::Automated
    &&& l.a.find(w.account@) == Some(x.account)
    &&& match w.payee { Some(n) => l.p.find(n@) is Some && x.payee == l.p.find(n@), None => x.payee == p.payee }
    &&& x.amount is Some && auto_amount(l, t, p, w, x.amount->0)
}
pub open spec fn same_but_tags(p: Posting, q: Posting, x: Seq<Tag>) -> bool {
    q.account == p.account && q.amount == p.amount && q.balance == p.balance && q.cost == p.cost && q.kind == p.kind && q.comments == p.comments && q.payee == p.payee && q.origin == p.origin && q.tags.v@ == p.tags.v@ + x
}
/// only posting i has changed, by the tags x
pub open spec fn tagged(t0: Transaction<Posting>, t1: Transaction<Posting>, i: int, x: Seq<Tag>) -> bool {
    &&& same_head(t0, t1) && t1.postings.v@.len() == t0.postings.v@.len()
    &&& forall|j: int| 0 <= j < t0.postings.v@.len() && j != i ==> #[trigger] t1.postings.v@[j] == t0.postings.v@[j]
    &&& same_but_tags(t0.postings.v@[i], t1.postings.v@[i], x)
}
pub open spec fn condition(a: Transaction<RawPosting>) -> Node { tree_of(cond_text(a.description@)) }
/// the automated transaction a meets posting i of t0: if it matches it gets the tags, and the postings x are to be added
#[verifier::opaque]
pub open spec fn auto_step(l: Lists, a: Transaction<RawPosting>, t0: Transaction<Posting>, i: int, t1: Transaction<Posting>, x: Seq<Posting>) -> bool {
    let p = t0.postings.v@[i]; let ws = a.postings.v@;
    &&& 0 <= i < t0.postings.v@.len()
    &&& {
        ||| (p.origin != PostingOrigin::FromTransaction || holds(condition(a), p, t0, l.c, false)) && t1 == t0 && x.len() == 0
        ||| p.origin == PostingOrigin::FromTransaction && holds(condition(a), p, t0, l.c, true) && tagged(t0, t1, i, tags_in(a.comments@, a.comments@.len() as int)) && x.len() == ws.len() && forall|j: int| 0 <= j < ws.len() ==> added(l, t1, t1.postings.v@[i], ws[j], #[trigger] x[j])
    }
}
pub open spec fn cat(x: Seq<Posting>, a: Seq<Posting>, b: Seq<Posting>) -> bool { x == a + b }
/// the first n postings of t0 have met a
pub open spec fn auto_on(l: Lists, a: Transaction<RawPosting>, t0: Transaction<Posting>, n: int, t1: Transaction<Posting>, x: Seq<Posting>) -> bool decreases n {
    if n <= 0 { t1 == t0 && x.len() == 0 }
    else { exists|tm: Transaction<Posting>, xm: Seq<Posting>, y: Seq<Posting>| auto_on(l, a, t0, n - 1, tm, xm) && #[trigger] auto_step(l, a, tm, n - 1, t1, y) && #[trigger] cat(x, xm, y) }
}
pub open spec fn extended(t0: Transaction<Posting>, x: Seq<Posting>, t1: Transaction<Posting>) -> bool { same_head(t0, t1) && t1.postings.v@ == t0.postings.v@ + x }
pub open spec fn auto_all(l: Lists, a: Transaction<RawPosting>, t0: Transaction<Posting>, t1: Transaction<Posting>, x: Seq<Posting>) -> bool { auto_on(l, a, t0, t0.postings.v@.len() as int, t1, x) }
/// t0 has met the first n automated transactions
pub open spec fn autos_on(l: Lists, s: Seq<Transaction<RawPosting>>, t0: Transaction<Posting>, n: int, t1: Transaction<Posting>) -> bool decreases n {
    if n <= 0 { t1 == t0 }
    else { exists|tm: Transaction<Posting>, tx: Transaction<Posting>, x: Seq<Posting>| autos_on(l, s, t0, n - 1, tm) && #[trigger] auto_all(l, s[n - 1], tm, tx, x) && #[trigger] extended(tx, x, t1) }
}
pub proof fn added_lift(l: Lists, m: Lists, t: Transaction<Posting>, p: Posting, w: RawPosting, x: Posting) requires all_grow(l, m), added(l, t, p, w, x) ensures added(m, t, p, w, x)
{ reveal(added); if w.money_currency is None { let v = choose|v: EV| #[trigger] evals(tree_of(w.amount_expr->0@), p, t, l.c, v) && match v { EV::Num(y) => p.amount is Some && x.amount->0.amt() == p.amount->0.amt() * y && x.amount->0.cid() == p.amount->0.cid(), EV::Mon(c, a) => x.amount->0.cid() == c && x.amount->0.amt() == a, _ => false };
  lemma_grows(tree_of(w.amount_expr->0@), p, t, l.c, m.c, v); } assert(m.a.find(w.account@) == l.a.find(w.account@)); }
pub proof fn step_lift(l: Lists, m: Lists, a: Transaction<RawPosting>, t0: Transaction<Posting>, i: int, t1: Transaction<Posting>, x: Seq<Posting>)
    requires all_grow(l, m), auto_step(l, a, t0, i, t1, x)
    ensures auto_step(m, a, t0, i, t1, x)
{ reveal(auto_step); broadcast use lemma_grows; let ws = a.postings.v@;
  if x.len() == ws.len() && forall|j: int| 0 <= j < ws.len() ==> added(l, t1, t1.postings.v@[i], ws[j], #[trigger] x[j]) { assert forall|j: int| 0 <= j < ws.len() implies added(m, t1, t1.postings.v@[i], ws[j], #[trigger] x[j]) by { added_lift(l, m, t1, t1.postings.v@[i], ws[j], x[j]); } } }
pub proof fn on_lift(l: Lists, m: Lists, a: Transaction<RawPosting>, t0: Transaction<Posting>, n: int, t1: Transaction<Posting>, x: Seq<Posting>)
    requires all_grow(l, m), auto_on(l, a, t0, n, t1, x)
    ensures auto_on(m, a, t0, n, t1, x)
    decreases n
{ if n > 0 { let (tm, xm, y) = choose|tm: Transaction<Posting>, xm: Seq<Posting>, y: Seq<Posting>| auto_on(l, a, t0, n - 1, tm, xm) && #[trigger] auto_step(l, a, tm, n - 1, t1, y) && #[trigger] cat(x, xm, y);
    on_lift(l, m, a, t0, n - 1, tm, xm); step_lift(l, m, a, tm, n - 1, t1, y); } }
pub proof fn autos_lift(l: Lists, m: Lists, s: Seq<Transaction<RawPosting>>, t0: Transaction<Posting>, n: int, t1: Transaction<Posting>)
    requires all_grow(l, m), autos_on(l, s, t0, n, t1)
    ensures autos_on(m, s, t0, n, t1)
    decreases n
{ if n > 0 { let (tm, tx, x) = choose|tm: Transaction<Posting>, tx: Transaction<Posting>, x: Seq<Posting>| autos_on(l, s, t0, n - 1, tm) && #[trigger] auto_all(l, s[n - 1], tm, tx, x) && #[trigger] extended(tx, x, t1);
    autos_lift(l, m, s, t0, n - 1, tm); on_lift(l, m, s[n - 1], tm, tm.postings.v@.len() as int, tx, x); assert(auto_all(m, s[n - 1], tm, tx, x)); } }
/// fit to be balanced: every account is in the list, and unit costs are amounts
pub open spec fn sound_p(l: List<Account>, p: Posting) -> bool { found(l, p.account) && (p.cost is Some && p.cost->0 is PerUnit ==> p.cost->0->PerUnit_amount is Money) }
pub open spec fn sound(l: List<Account>, s: Seq<Posting>) -> bool { forall|i: int| 0 <= i < s.len() ==> sound_p(l, #[trigger] s[i]) }
pub proof fn on_sound(l: Lists, a: Transaction<RawPosting>, t0: Transaction<Posting>, n: int, t1: Transaction<Posting>, x: Seq<Posting>)
    requires auto_on(l, a, t0, n, t1, x), sound(l.a, t0.postings.v@)
    ensures same_head(t0, t1), sound(l.a, t1.postings.v@), sound(l.a, x)
    decreases n
{ if n > 0 { let (tm, xm, y) = choose|tm: Transaction<Posting>, xm: Seq<Posting>, y: Seq<Posting>| auto_on(l, a, t0, n - 1, tm, xm) && #[trigger] auto_step(l, a, tm, n - 1, t1, y) && #[trigger] cat(x, xm, y);
    on_sound(l, a, t0, n - 1, tm, xm); reveal(auto_step); reveal(added);
    assert forall|i: int| 0 <= i < t1.postings.v@.len() implies sound_p(l.a, #[trigger] t1.postings.v@[i]) by { assert(sound_p(l.a, tm.postings.v@[i])); }
    assert forall|i: int| 0 <= i < x.len() implies sound_p(l.a, #[trigger] x[i]) by { if i < xm.len() { assert(x[i] == xm[i]); } else { assert(x[i] == y[i - xm.len()]); assert(added(l, t1, t1.postings.v@[n - 1], a.postings.v@[i - xm.len()], y[i - xm.len()])); assert(l.a.find(a.postings.v@[i - xm.len()].account@) == Some(x[i].account)); } } } }
pub proof fn autos_sound(l: Lists, s: Seq<Transaction<RawPosting>>, t0: Transaction<Posting>, n: int, t1: Transaction<Posting>)
    requires autos_on(l, s, t0, n, t1), sound(l.a, t0.postings.v@)
    ensures same_head(t0, t1), sound(l.a, t1.postings.v@)
    decreases n
{ if n > 0 { let (tm, tx, x) = choose|tm: Transaction<Posting>, tx: Transaction<Posting>, x: Seq<Posting>| autos_on(l, s, t0, n - 1, tm) && #[trigger] auto_all(l, s[n - 1], tm, tx, x) && #[trigger] extended(tx, x, t1);
    autos_sound(l, s, t0, n - 1, tm); on_sound(l, s[n - 1], tm, tm.postings.v@.len() as int, tx, x);
    assert forall|i: int| 0 <= i < t1.postings.v@.len() implies sound_p(l.a, #[trigger] t1.postings.v@[i]) by { if i < tx.postings.v@.len() { assert(t1.postings.v@[i] == tx.postings.v@[i]); } else { assert(t1.postings.v@[i] == x[i - tx.postings.v@.len()]); } } } }
pub proof fn sound_grows(l: List<Account>, m: List<Account>, s: Seq<Posting>) requires sound(l, s), grows(l, m) ensures sound(m, s)
{ assert forall|i: int| 0 <= i < s.len() implies sound_p(m, #[trigger] s[i]) by { assert(sound_p(l, s[i])); let n = choose|n: Seq<char>| #[trigger] l.find(n) == Some(s[i].account); assert(m.find(n) == Some(s[i].account)); } }
pub proof fn settled_sound(l: List<Account>, nc: bool, t0: Transaction<Posting>, t1: Transaction<Posting>, b0: Bals, b1: Bals) requires settles(nc, t0, t1, b0, b1), sound(l, t0.postings.v@) ensures sound(l, t1.postings.v@)
{ lines_inherit(nc, t0.postings.v@, t1.postings.v@, |p: Posting| sound_p(l, p)); }
pub proof fn trans_sound(l: ParsedLedger, w: Transaction<RawPosting>, t: Transaction<Posting>) requires l.lists_ok(), trans_of(l, w, t) ensures sound(l.accounts, t.postings.v@)
{ broadcast use lower_idem;
  assert forall|i: int| 0 <= i < t.postings.v@.len() implies sound_p(l.accounts, #[trigger] t.postings.v@[i]) by {
    let p = t.postings.v@[i]; let n = w.postings.v@[i].account@; assert(line_of(l, w, w.postings.v@[i], p)); let y = p.payee->0.name@;
    if l.accounts.find(n) == Some(p.account) {} else { let k = choose|k: Seq<char>| #[trigger] l.accounts.list@.dom().contains(k) && pays(*l.accounts.list@[k].1, y) && p.account == l.accounts.list@[k].1; assert(lower(k) == k); assert(l.accounts.find(k) == Some(p.account)); } } }
/// the balances have an entry for every account of the list
pub open spec fn has_all(l: List<Account>, b: Bals) -> bool { forall|k: Seq<char>| #[trigger] l.list@.dom().contains(k) ==> b.dom().contains(l.list@[k].1.kid()) }
pub proof fn sound_known(l: List<Account>, s: Seq<Posting>, b: Bals) requires l.wf(), sound(l, s), has_all(l, b) ensures costs_ok(s), accounts_known(s, b)
{ assert forall|i: int| 0 <= i < s.len() implies b.dom().contains((#[trigger] s[i]).account.kid()) by { assert(sound_p(l, s[i])); let n = choose|n: Seq<char>| #[trigger] l.find(n) == Some(s[i].account); }
  assert forall|i: int| 0 <= i < s.len() implies ((#[trigger] s[i]).cost is Some && s[i].cost->0 is PerUnit ==> s[i].cost->0->PerUnit_amount is Money) by { assert(sound_p(l, s[i])); } }
/// how a ledger comes about
pub struct Hist { pub named: ParsedLedger, pub unsorted: Seq<Transaction<Posting>>, pub perm: Seq<int>, pub sorted: Seq<Transaction<Posting>>, pub first: Seq<Transaction<Posting>>, pub b1: Seq<Bals>, pub met: Seq<Transaction<Posting>>, pub b2: Seq<Bals>, pub x: Seq<Option<PriceV>> }
/// the names of the journal are entered in the lists
pub open spec fn named(p: ParsedLedger, q: ParsedLedger) -> bool {
    let n = p.transactions@.len() as int;
    &&& listed(p.commodities, q.commodities, price_used(com_used(p.transactions@, n), p.prices@, p.prices@.len() as int))
    &&& listed(p.accounts, q.accounts, acc_used(p.transactions@, n))
    &&& payees_listed(p.payees, q.payees, pay_used(p.transactions@, n))
}
pub open spec fn stated_prices(h: Hist, p: ParsedLedger) -> Seq<PriceV> { dir_prices(h.named.commodities, p.prices@, p.prices@.len() as int) + cost_prices(h.named.commodities, p.transactions@, p.transactions@.len() as int) }
#[verifier::opaque]
pub open spec fn history(p: ParsedLedger, nc: bool, l: Ledger, h: Hist) -> bool {
    let n = p.transactions@.len() as int; let s = autos(p.transactions@, n); let k = h.sorted.len() as int;
    &&& named(p, h.named)
    //# each transaction of the journal once, in date order, those of a day as they stand
    &&& all_trans(h.named, reals(p.transactions@, n), h.unsorted) && sorted_from(h.unsorted, h.sorted, h.perm, date_ord())
    //# one after the other they are checked and settled
    &&& accepted(nc, h.sorted, h.first, h.b1, k)
    &&& price_vs(l.prices@) == stated_prices(h, p) + opts(h.x, k)
    &&& if s.len() == 0 { l.transactions@ == h.first && l.accounts == h.named.accounts && l.payees == h.named.payees && l.commodities == h.named.commodities && implies(nc, h.sorted, h.b1, h.x, k) }
        else {
            let m = Lists { a: l.accounts, p: l.payees, c: l.commodities };
            &&& all_grow(lists(h.named), m) && h.met.len() == k && (forall|i: int| 0 <= i < k ==> autos_on(m, s, h.first[i], s.len() as int, #[trigger] h.met[i]))
            &&& accepted(nc, h.met, l.transactions@, h.b2, k) && implies(nc, h.met, h.b2, h.x, k)
        }
}
pub proof fn accepted_none(nc: bool, t0: Seq<Transaction<Posting>>, b: Bals) requires all_zero(b) ensures accepted(nc, t0, t0, seq![b], 0), implies(nc, t0, seq![b], Seq::empty(), 0) { reveal(accepted); reveal(implies); }
pub proof fn accepted_step(nc: bool, t0: Seq<Transaction<Posting>>, t1: Seq<Transaction<Posting>>, b: Seq<Bals>, n: int, x: Transaction<Posting>, c: Bals)
    requires accepted(nc, t0, t1, b, n), n < t0.len(), settles(nc, t0[n], x, b[n], c)
    ensures accepted(nc, t0, t1.update(n, x), b.push(c), n + 1)
{ reveal(accepted); let t2 = t1.update(n, x); let d = b.push(c); assert forall|i: int| 0 <= i < n + 1 implies #[trigger] settles(nc, t0[i], t2[i], d[i], d[i + 1]) by { if i < n { assert(settles(nc, t0[i], t1[i], b[i], b[i + 1])); } } }
pub proof fn implies_step(nc: bool, t0: Seq<Transaction<Posting>>, b: Seq<Bals>, x: Seq<Option<PriceV>>, n: int, y: Option<PriceV>, c: Bals)
    requires implies(nc, t0, b, x, n), 0 <= n < t0.len(), b.len() == n + 1, implied(nc, t0[n], b[n], y)
    ensures implies(nc, t0, b.push(c), x.push(y), n + 1), opts(x.push(y), n + 1) == opt_push(opts(x, n), y)
{ reveal(implies); let d = b.push(c); let z = x.push(y); assert forall|i: int| 0 <= i < n + 1 implies #[trigger] implied(nc, t0[i], d[i], z[i]) by { if i < n { assert(implied(nc, t0[i], b[i], x[i])); } } opts_prefix(x, z, n); }
pub proof fn opts_prefix(x: Seq<Option<PriceV>>, z: Seq<Option<PriceV>>, n: int) requires 0 <= n <= x.len(), n <= z.len(), forall|i: int| 0 <= i < n ==> x[i] == z[i] ensures opts(x, n) == opts(z, n) decreases n { if n > 0 { opts_prefix(x, z, n - 1); } }
pub proof fn pair_of(r: Balance, it: Seq<(&Option<Rc<Currency>>, &Money)>, f: spec_fn(Option<Seq<char>>) -> real, k0: Seq<char>, k1: Seq<char>)
    requires r.wf(), r.clean(), forall|c: Option<Seq<char>>| #[trigger] r.amt(c) == f(c), enumerates(it, r.balance@), it.len() == 2, it[0].1.cid() == Some(k0), it[1].1.cid() == Some(k1)
    ensures two(f, k0, k1), f(Some(k0)) == it[0].1.amt(), f(Some(k1)) == it[1].1.amt()
{ assert(r.balance@.dom().contains(it[0].0.kid()) && r.balance@.dom().contains(it[1].0.kid())); assert(r.amt(Some(k0)) == f(Some(k0)) && r.amt(Some(k1)) == f(Some(k1)));
  assert forall|c: Option<Seq<char>>| #[trigger] f(c) != 0real implies c == Some(k0) || c == Some(k1) by { assert(r.amt(c) == f(c)); let i = choose|i: int| 0 <= i < it.len() && (#[trigger] it[i]).0.kid() == c; } }
pub proof fn no_pair(r: Balance, f: spec_fn(Option<Seq<char>>) -> real)
    requires r.wf(), r.clean(), forall|c: Option<Seq<char>>| #[trigger] r.amt(c) == f(c), r.balance@.dom().len() != 2
    ensures forall|k0: Seq<char>, k1: Seq<char>| !(#[trigger] two(f, k0, k1))
{ assert forall|k0: Seq<char>, k1: Seq<char>| !(#[trigger] two(f, k0, k1)) by { if two(f, k0, k1) {
    let s = Set::<Option<Seq<char>>>::empty().insert(Some(k0)).insert(Some(k1)); let d = r.balance@.dom();
    assert forall|c: Option<Seq<char>>| d.contains(c) <==> s.contains(c) by { assert(r.amt(c) == f(c)); }
    assert(d =~= s); assert(s.len() == 2); } } }
pub broadcast proof fn wf_targets<T: HasName>(l: List<T>) requires #[trigger] l.wf() ensures l.targets_ok() {}
pub proof fn has_all_from(l: List<Account>, it: Seq<&Rc<Account>>, b: Bals) requires enumerates_vals::<String, Rc<Account>>(it, l.list@), forall|j: int| 0 <= j < it.len() ==> b.dom().contains((#[trigger] it[j]).kid()) ensures has_all(l, b)
{ let p = choose|p: Seq<(&String, &Rc<Account>)>| #[trigger] enumerates(p, l.list@) && it.len() == p.len() && forall|i: int| 0 <= i < it.len() ==> (#[trigger] it[i]) == p[i].1;
  assert forall|k: Seq<char>| #[trigger] l.list@.dom().contains(k) implies b.dom().contains(l.list@[k].1.kid()) by { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0.kid() == k; assert(it[i] == p[i].1); } }
pub proof fn all_grow_refl(l: Lists) ensures all_grow(l, l) { }
pub proof fn all_grow_trans(l: Lists, m: Lists, n: Lists) requires all_grow(l, m), all_grow(m, n) ensures all_grow(l, n) { grows_trans(l.a, m.a, n.a); grows_trans(l.p, m.p, n.p); grows_trans(l.c, m.c, n.c); }
/// the same automated transaction, its condition perhaps expanded
pub open spec fn same_auto(a: Transaction<RawPosting>, b: Transaction<RawPosting>) -> bool { b.description == a.description && b.postings == a.postings && b.comments == a.comments && cond_ok(b) }
pub open spec fn pc2(t: Transaction<Posting>, i: int) -> Posting { t.postings.v@[i] }
/// posting n adds nothing
pub proof fn on_none(l: Lists, a: Transaction<RawPosting>, t0: Transaction<Posting>, n: int, t1: Transaction<Posting>, x: Seq<Posting>)
    requires auto_on(l, a, t0, n, t1, x), 0 <= n < t1.postings.v@.len(), t1.postings.v@[n].origin != PostingOrigin::FromTransaction || holds(condition(a), t1.postings.v@[n], t1, l.c, false)
    ensures auto_on(l, a, t0, n + 1, t1, x)
{ assert(auto_on(l, a, t0, (n + 1) - 1, t1, x)); assert(auto_step(l, a, t1, (n + 1) - 1, t1, Seq::empty())) by { reveal(auto_step); } assert(x =~= x + Seq::<Posting>::empty()); assert(cat(x, x, Seq::empty())); }
pub open spec fn abss(a: Seq<Money>, it: Seq<(&Option<Rc<Currency>>, &Money)>, n: int) -> bool { a.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] a[j]).amt() == absr(it[j].1.amt()) && a[j].cid() == it[j].1.cid() }
pub proof fn enum_len<K: KeyId, V>(s: Seq<(&K, &V)>, m: Map<K::Id, (K, V)>) requires enumerates(s, m), m.dom().finite() ensures s.len() == m.dom().len()
{ }
pub open spec fn answered(x: Option<&Rc<Payee>>, l: List<Payee>, n: Seq<char>) -> bool { x is Some && exists|k: Seq<char>| #[trigger] l.list@.dom().contains(k) && answers(*l.list@[k].1, n) && *x->0 == l.list@[k].1 }
/// in date order, none lost or repeated
pub open spec fn in_order(p: ParsedLedger, s: Seq<Transaction<Posting>>) -> bool {
    &&& s.len() == reals(p.transactions@, p.transactions@.len() as int).len()
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).date->0@ <= (#[trigger] s[j]).date->0@
}
pub proof fn on_head(l: Lists, a: Transaction<RawPosting>, t0: Transaction<Posting>, n: int, t1: Transaction<Posting>, x: Seq<Posting>) requires auto_on(l, a, t0, n, t1, x) ensures same_head(t0, t1) decreases n
{ if n > 0 { let (tm, xm, y) = choose|tm: Transaction<Posting>, xm: Seq<Posting>, y: Seq<Posting>| auto_on(l, a, t0, n - 1, tm, xm) && #[trigger] auto_step(l, a, tm, n - 1, t1, y) && #[trigger] cat(x, xm, y); on_head(l, a, t0, n - 1, tm, xm); reveal(auto_step); } }
pub proof fn autos_head(l: Lists, s: Seq<Transaction<RawPosting>>, t0: Transaction<Posting>, n: int, t1: Transaction<Posting>) requires autos_on(l, s, t0, n, t1) ensures same_head(t0, t1) decreases n
{ if n > 0 { let (tm, tx, x) = choose|tm: Transaction<Posting>, tx: Transaction<Posting>, x: Seq<Posting>| autos_on(l, s, t0, n - 1, tm) && #[trigger] auto_all(l, s[n - 1], tm, tx, x) && #[trigger] extended(tx, x, t1); autos_head(l, s, t0, n - 1, tm); on_head(l, s[n - 1], tm, tm.postings.v@.len() as int, tx, x); } }
pub proof fn accepted_head(nc: bool, t0: Seq<Transaction<Posting>>, t1: Seq<Transaction<Posting>>, b: Seq<Bals>, n: int) requires accepted(nc, t0, t1, b, n) ensures forall|i: int| 0 <= i < n ==> t1[i].date == t0[i].date
{ reveal(accepted); assert forall|i: int| 0 <= i < n implies t1[i].date == t0[i].date by { assert(settles(nc, t0[i], t1[i], b[i], b[i + 1])); } }
pub proof fn history_ordered(p: ParsedLedger, nc: bool, l: Ledger, h: Hist) requires history(p, nc, l, h) ensures in_order(p, l.transactions@)
{ reveal(history); let n = p.transactions@.len() as int; let s = autos(p.transactions@, n); let k = h.sorted.len() as int; let t = l.transactions@;
  accepted_head(nc, h.sorted, h.first, h.b1, k); reveal(accepted);
  if s.len() > 0 { let m = Lists { a: l.accounts, p: l.payees, c: l.commodities }; accepted_head(nc, h.met, t, h.b2, k); assert forall|i: int| 0 <= i < k implies t[i].date == h.sorted[i].date by { assert(autos_on(m, s, h.first[i], s.len() as int, h.met[i])); autos_head(m, s, h.first[i], s.len() as int, h.met[i]); } }
  assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).date->0@ <= (#[trigger] t[j]).date->0@ by { let a = h.sorted[i]; let b = h.sorted[j]; assert(date_ord()(a, b) is Less || date_ord()(a, b) is Equal); } }
@module to_ledger src/models/mod.rs
@raw
/// what the reader makes of a file
#[verifier::opaque] pub open spec fn reads(path: Seq<char>, p: ParsedLedger) -> bool { p.wf() && read_whole(file_text(path), p) }
pub open spec fn ledger_of(p: ParsedLedger, no_checks: bool, l: Ledger) -> bool { l.wf() && exists|h: Hist| #[trigger] history(p, no_checks, l, h) }
/// the ledger a command works on
pub open spec fn loaded(path: Seq<char>, no_checks: bool, l: Ledger) -> bool { exists|p: ParsedLedger| reads(path, p) && #[trigger] ledger_of(p, no_checks, l) }
@fn ParsedLedger::to_ledger | maypanic ovf rlimit=100
requires self.wf()
ensures
  //# C02, C03, C04, C05, C16, C19, C20: the ledger is what the journal says, transaction by transaction in date order
  r is Ok ==> ledger_of(self, no_checks, r->Ok_0),
  //# C20: in date order, none lost or repeated
  r is Ok ==> in_order(self, r->Ok_0.transactions@),
@ghost start
hide(settles); hide(trans_of); hide(enumerates); hide(enumerates_set_own); hide(enumerates_vals); hide(List::wf); hide(List::targets_ok); hide(sorted_from); hide(preorder); hide(has_all); hide(all_zero); hide(sound); hide(grows); hide(cost_prices); hide(dir_prices); hide(line_prices); hide(named);
broadcast use wf_targets;
let ghost ts = self.transactions@; let ghost ps = self.prices@; let ghost nt = ts.len() as int; let ghost np = ps.len() as int; let ghost nc = no_checks;
let ghost mut bs1: Seq<Bals> = Seq::empty(); let ghost mut bs2: Seq<Bals> = Seq::empty(); let ghost mut xs: Seq<Option<PriceV>> = Seq::empty(); let ghost mut first: Seq<Transaction<Posting>> = Seq::empty(); let ghost mut met: Seq<Transaction<Posting>> = Seq::empty();
@ghost before 0
//@ C14, C19, C20
@loop 0
account_strs@.dom() == acc_used(ts, i0 as int), payee_strs@.dom() == pay_used(ts, i0 as int), commodity_strs@.dom() == com_used(ts, i0 as int),
@ghost top 0
proof { assert(*transaction == ts[i0 - 1]); }
@loop 1
account_strs@.dom() == accs_in(acc_used(ts, i0 - 1), ts[i0 - 1].postings.v@, i1 as int), payee_strs@.dom() == pays_in(pay_used(ts, i0 - 1), ts[i0 - 1].postings.v@, i1 as int), commodity_strs@.dom() == coms_in(com_used(ts, i0 - 1), ts[i0 - 1].postings.v@, i1 as int),
@ghost top 1
proof { assert(*p == ts[i0 - 1].postings.v@[i1 - 1]); }
@loop 2
commodity_strs@.dom() == price_used(com_used(ts, nt), ps, i2 as int),
@ghost top 2
proof { assert(*price == ps[i2 - 1]); }
@ghost pre for alias in commodity_strs
let ghost cs = commodity_strs@; let ghost acs = account_strs@; let ghost pys = payee_strs@;
proof { listed_none(self.commodities); listed_none(self.accounts); payees_none(self.payees); }
@loop 3
self_ == (ParsedLedger { commodities: self_.commodities, ..self }), self_.commodities.wf(), listed(self.commodities, self_.commodities, vset(it3@, i3 as int)),
@ghost top 3
let ghost c0 = self_.commodities; proof { wf_targets(c0); }
@ghost bot 3
proof { let n = it3@[i3 - 1]@; let s = vset(it3@, i3 - 1); if c0.find(n) is Some { listed_known(self.commodities, c0, s, n); } else { listed_new(self.commodities, c0, self_.commodities, s, n); } }
@ghost after 3
proof { vset_all(it3@, cs); }
@loop 4
self_ == (ParsedLedger { commodities: self_.commodities, accounts: self_.accounts, ..self }), self_.commodities == cf, self_.accounts.wf(), listed(self.accounts, self_.accounts, vset(it4@, i4 as int)),
@ghost pre for alias in account_strs
let ghost cf = self_.commodities;
@ghost top 4
let ghost c0 = self_.accounts; proof { wf_targets(c0); }
@ghost bot 4
proof { let n = it4@[i4 - 1]@; let s = vset(it4@, i4 - 1); if c0.find(n) is Some { listed_known(self.accounts, c0, s, n); } else { listed_new(self.accounts, c0, self_.accounts, s, n); } }
@ghost after 4
proof { vset_all(it4@, acs); }
@ghost pre let payees_copy
let ghost af = self_.accounts;
@loop 5
self_ == (ParsedLedger { commodities: cf, accounts: af, payees: self_.payees, ..self }), self_.payees.wf(), payees_listed(self.payees, self_.payees, vset(it5@, i5 as int)),
@ghost top 5
let ghost p0 = self_.payees; proof { wf_targets(p0); payees_wf(self.payees, p0, vset(it5@, i5 - 1)); }
let ghost mut al = false; let ghost n = it5@[i5 - 1]@; let ghost s = vset(it5@, i5 - 1);
@loop 6
invariant_except_break
!matched, forall|j: int| 0 <= j < i6 ==> !answers(**(#[trigger] it6@[j]).1, n),
ensures matched ==> alias_to_add@ == alias@ && answered(payee_to_add, self.payees, n), !matched ==> i6 == it6.len() && forall|j: int| 0 <= j < i6 ==> !answers(**(#[trigger] it6@[j]).1, n),
@ghost top 6
let ghost k = it6@[i6 - 1].0.kid();
proof { reveal(enumerates); assert(self.payees.list@.dom().contains(k)); assert(self.payees.list@[k].1 == *p); }
@loop 7
!matched, forall|j: int| 0 <= j < i7 ==> !re_matches((#[trigger] it7@[j])@, n),
@ghost top 7
proof { assert(*it7@[i7 - 1] == p.alias_regex@[i7 - 1]); }
@ghost after 7
proof { assert(!answers(**p, n)) by { if answers(**p, n) { let i = choose|i: int| 0 <= i < p.alias_regex@.len() && re_matches((#[trigger] p.alias_regex@[i])@, n); assert(*it7@[i] == p.alias_regex@[i]); } } }
@ghost after 6
proof { if !matched { assert(!by_alias(self.payees, n)) by { reveal(enumerates); assert forall|k: Seq<char>| #[trigger] self.payees.list@.dom().contains(k) implies !answers(*self.payees.list@[k].1, n) by { let j = choose|j: int| 0 <= j < it6@.len() && (#[trigger] it6@[j]).0.kid() == k; } } } }
@ghost pre self.payees.add_alias
let ghost ka = choose|k: Seq<char>| #[trigger] self.payees.list@.dom().contains(k) && answers(*self.payees.list@[k].1, n) && *payee_to_add->0 == self.payees.list@[k].1;
proof { reveal(List::wf); assert(ka == lower(self.payees.list@[ka].1.name_s())); assert(p0.list@.dom().contains(ka)); }
@ghost post self.payees.add_alias
proof { al = true; payees_alias(self.payees, p0, self_.payees, s, n, ka); }
@ghost bot 5
proof { if p0.find(n) is Some { payees_known(self.payees, p0, s, n); } else if !al { payees_new(self.payees, p0, self_.payees, s, n); } payees_wf(self.payees, self_.payees, vset(it5@, i5 as int)); }
@ghost after 5
proof { vset_all(it5@, pys); }
@ghost pre let mut prices
let ghost l1 = self_;
proof { assert(named(self, l1)) by { reveal(named); } assert(l1.lists_ok()); wf_targets(l1.commodities); }
@ghost before 8
//@ C05
proof { assert(price_vs(prices@) =~= dir_prices(l1.commodities, ps, 0)) by { reveal(dir_prices); } }
@loop 8
price_vs(prices@) == dir_prices(l1.commodities, ps, i8 as int),
@ghost top 8
let ghost pp = prices@; proof { reveal(dir_prices); assert(*price == ps[i8 - 1]); }
@ghost bot 8
proof { assert(prices@ == pp.push(prices@.last())); assert(price_vs(prices@) =~= price_vs(pp).push(price_v(prices@.last()))); }
@ghost pre let mut transactions
let ghost dirs = dir_prices(l1.commodities, ps, np);
@ghost before 9
//@ C05, C20
proof { assert(price_vs(prices@) =~= dirs + cost_prices(l1.commodities, ts, 0)) by { reveal(cost_prices); } }
@loop 9
all_trans(l1, reals(ts, i9 as int), transactions@), automated_transactions@ == autos(ts, i9 as int), price_vs(prices@) == dirs + cost_prices(l1.commodities, ts, i9 as int),
@ghost top 9
let ghost tp = transactions@; let ghost ap = automated_transactions@; let ghost pp = prices@; proof { assert(*parsed == ts[i9 - 1]); }
@ghost post let (mut t, mut auto, mut new_prices)
let ghost tn = t@; let ghost an = auto@; let ghost pn = new_prices@;
@ghost bot 9
proof { reveal(cost_prices); 
  assert(price_vs(prices@) =~= price_vs(pp) + price_vs(pn));
  if ts[i9 - 1].transaction_type is Real { assert(price_vs(prices@) =~= dirs + cost_prices(l1.commodities, ts, i9 as int)); assert(automated_transactions@ =~= ap); assert(transactions@ =~= tp.push(tn[0])); }
  else { assert(pn =~= Seq::empty()); assert(price_vs(prices@) =~= dirs + cost_prices(l1.commodities, ts, i9 as int)); assert(transactions@ =~= tp); if ts[i9 - 1].transaction_type is Automated { assert(automated_transactions@ =~= ap.push(ts[i9 - 1])); } else { assert(automated_transactions@ =~= ap); } } }
@sort 0: Transaction<Posting>
date_ord() requires dated()
@ghost pre transactions.sort_by
let ghost un = transactions@; let ghost stated = price_vs(prices@); let ghost aus = automated_transactions@; let ghost na = aus.len() as int;
proof { date_ord_ok(); let ix = lemma_sfilter(ts, nt, real_t());
  assert forall|i: int| 0 <= i < un.len() implies dated()(#[trigger] un[i]) by { reveal(trans_of); assert(trans_of(l1, reals(ts, nt)[i], un[i])); assert(raw_ok(ts[ix[i]])); }
  assert forall|i: int| 0 <= i < un.len() implies sound(l1.accounts, (#[trigger] un[i]).postings.v@) by { trans_sound(l1, reals(ts, nt)[i], un[i]); } }
@ghost post transactions.sort_by
let ghost pm = choose|p: Seq<int>| #[trigger] sorted_from(un, transactions@, p, date_ord());
let ghost srt = transactions@; let ghost k = srt.len() as int;
proof { assert forall|i: int| 0 <= i < k implies sound(l1.accounts, (#[trigger] srt[i]).postings.v@) by { reveal(sorted_from); } }
@ghost before 10
//@ C02, C03, C04, C05, C20
proof { reveal(all_zero); }
@loop 10
all_zero(balances@), forall|j: int| 0 <= j < i10 ==> balances@.dom().contains((#[trigger] it10@[j]).kid()),
@ghost top 10
proof { reveal(all_zero); }
@ghost after 10
proof { has_all_from(self_.accounts, it10@, balances@); bs1 = seq![balances@]; xs = Seq::empty(); accepted_none(nc, srt, balances@); reveal(all_zero); }
@loop 11
transactions@.len() == k, forall|j: int| i11 <= j < k ==> #[trigger] transactions@[j] == srt[j],
forall|j: int| 0 <= j < i11 ==> sound(l1.accounts, (#[trigger] transactions@[j]).postings.v@),
accepted(nc, srt, transactions@, bs1, i11 as int), bs1.len() == i11 + 1, bs1[i11 as int] == balances@, bals_wf(balances@), has_all(self_.accounts, balances@),
(aus.len() == 0) ==> implies(nc, srt, bs1, xs, i11 as int) && xs.len() == i11 && price_vs(prices@) == stated + opts(xs, i11 as int),
!(aus.len() == 0) ==> price_vs(prices@) == stated,
@ghost top 11
let ghost mut itg: Seq<(&Option<Rc<Currency>>, &Money)> = Seq::empty();
let ghost bp = balances@; let ghost tq = *t; let ghost pq = prices@; let ghost mut xi: Option<PriceV> = None;
proof { assert(tq == srt[i11 - 1]); assert(sound(self_.accounts, tq.postings.v@)); sound_known(self_.accounts, tq.postings.v@, bp); }
@ghost post let balance = match t.balance(
proof { let s = tq.postings.v@; let q = t.postings.v@; let b1 = balances@; let b0 = bp; let n = s.len() as int;
    assert(same_head(tq, *t)); assert(bals_wf(b1) && b1.dom() == b0.dom());
    assert(settled(ftotal(s, PostingType::VirtualMustBalance)) && n_blank(s, nc, n) <= 1 && (n_blank(s, nc, n) == 0 ==> settled(fleft(s, nc, b0))));
    assert(forall|i: int| 0 <= i < n ==> #[trigger] assertion_ok(s, nc, b0, i));
    assert(forall|i: int| 0 <= i < n ==> #[trigger] assign_ok(s, nc, b0, i));
    assert(lines_kept(nc, s, q));
    assert(assigned_at_face(s, nc) ==> forall|c: Option<Seq<char>>| #[trigger] total(q, q.len() as int, PostingType::Real, c) == (if n_blank(s, nc, n) == 1 { 0real } else { left(s, nc, b0, n, c) }));
    assert(forall|a: Seq<char>, c: Option<Seq<char>>| #[trigger] bal0(b1, a, c) == bal0(b0, a, c) + samt(q, q.len() as int, a, c));
  assert(settles(nc, tq, *t, bp, balances@)) by { reveal(settles); }
  settled_sound(self_.accounts, nc, tq, *t, bp, balances@); assert(balances@.dom() == bp.dom()) by { reveal(settles); } reveal(has_all); }
let ghost f = over(nc, tq, bp);
proof { assert(forall|c: Option<Seq<char>>| #[trigger] balance.amt(c) == f(c)); }
@loop 12
abss(acc12@, it12@, i12 as int),
@ghost after 12
proof { itg = it12@; broadcast use hashmap_inv; enum_len(itg, balance.balance@); }
@ghost post prices.push(Price::new(date, commodity, price))
proof { let k0 = commodity.kid(); let k1 = price.cid()->0; pair_of(balance, itg, f, k0, k1); xi = Some(price_v(prices@.last())); assert(prices@ == pq.push(prices@.last())); assert(price_vs(prices@) =~= price_vs(pq).push(price_v(prices@.last()))); assert(two(f, k0, k1)); }
@ghost end 11
proof { if balance.balance@.dom().len() != 2 { no_pair(balance, f); }
  if aus.len() == 0 { assert(implied(nc, tq, bp, xi)); implies_step(nc, srt, bs1, xs, i11 - 1, xi, balances@); xs = xs.push(xi); assert(price_vs(prices@) =~= stated + opts(xs, i11 as int)); }
  accepted_step(nc, srt, transactions@, bs1, i11 - 1, *t, balances@); bs1 = bs1.push(balances@); }
@ghost after 11
proof { first = transactions@; bs2 = bs1; met = first; }
@ghost pre let mut root_nodes
proof { let ix = lemma_sfilter(ts, nt, auto_t()); assert forall|q: int| 0 <= q < na implies same_auto(aus[q], #[trigger] automated_transactions@[q]) by { assert(raw_ok(ts[ix[q]])); } }
@ghost before 13
//@ C16
@loop 13
forall|q: int| 0 <= q < na ==> same_auto(aus[q], #[trigger] automated_transactions@[q]), automated_transactions@.len() == na,
forall|q: Seq<char>| #[trigger] root_nodes@.dom().contains(q) ==> root_nodes@[q].1 == tree_of(q),
@ghost pre for t in transactions.iter_mut() { for automated
proof { all_grow_refl(lists(self_)); }
@loop 14
transactions@.len() == k, forall|j: int| i14 <= j < k ==> #[trigger] transactions@[j] == first[j],
forall|j: int| 0 <= j < i14 ==> autos_on(lists(self_), aus, first[j], na, #[trigger] transactions@[j]),
all_grow(lists(l1), lists(self_)), self_.lists_ok(),
forall|q: int| 0 <= q < na ==> same_auto(aus[q], #[trigger] automated_transactions@[q]), automated_transactions@.len() == na,
@ghost top 14
let ghost l14 = lists(self_); let ghost ta = *t;
proof { all_grow_refl(l14); assert(ta == first[i14 - 1]); assert(autos_on(l14, aus, ta, 0, *t)); }
@ghost end 14
proof { let m = lists(self_); all_grow_trans(lists(l1), l14, m);
  assert forall|j: int| 0 <= j < i14 - 1 implies autos_on(m, aus, first[j], na, #[trigger] transactions@[j]) by { autos_lift(l14, m, aus, first[j], na, transactions@[j]); } }
@loop 15
autos_on(lists(self_), aus, ta, i15 as int, *t), all_grow(l14, lists(self_)), self_.lists_ok(),
forall|q: int| 0 <= q < na ==> same_auto(aus[q], #[trigger] automated_transactions@[q]), automated_transactions@.len() == na,
@ghost top 15
let ghost l15 = lists(self_); let ghost tb = *t; let ghost a = aus[i15 - 1]; let ghost ws = a.postings.v@; let ghost cts = a.comments@;
proof { all_grow_refl(l15); assert(same_auto(a, *automated)); }
@ghost pre for p in t.postings.borrow().iter()
proof { assert(auto_on(l15, a, tb, 0, *t, extra_postings@)); }
@loop 16
auto_on(lists(self_), a, tb, i16 as int, *t, extra_postings@), all_grow(l15, lists(self_)), self_.lists_ok(), same_auto(a, *automated), t.postings.v@.len() == tb.postings.v@.len(),
@ghost top 16
let ghost l16 = lists(self_); let ghost tc = *t; let ghost xc = extra_postings@; let ghost mut mt = false; let ghost pc = el16; let ghost mut lm = l16;
proof { all_grow_refl(l16); if el16.origin != PostingOrigin::FromTransaction { on_none(l16, a, tb, i16 - 1, tc, xc); } }
@ghost before 17
proof { lm = lists(self_); all_grow_refl(lm); assert(holds(condition(a), pc, tc, lm.c, true)); assert(pc.tags.v@ =~= pc.tags.v@ + tags_in(cts, 0)); }
@loop 17
tagged(tc, *t, i16 - 1, tags_in(cts, i17 as int)), el16 == t.postings.v@[i16 - 1], lists(self_) == lm, same_auto(a, *automated),
@ghost top 17
let ghost tg0 = el16.tags.v@; proof { assert(*comment == cts[i17 - 1]); }
@ghost bot 17
proof { assert(el16.tags.v@ =~= pc.tags.v@ + tags_in(cts, i17 as int)); }
@ghost before 18
let ghost td = *t; let ghost mut y: Seq<Posting> = Seq::empty();
proof { assert(xc =~= xc + y); }
@loop 18
extra_postings@ == xc + y, y.len() == i18, forall|j: int| 0 <= j < i18 ==> added(lists(self_), td, pc2(td, i16 - 1), ws[j], #[trigger] y[j]), all_grow(lm, lists(self_)), self_.lists_ok(), *t == td, el16 == td.postings.v@[i16 - 1], same_auto(a, *automated),
@ghost top 18
let ghost ln = lists(self_); let ghost w = ws[i18 - 1];
proof { all_grow_refl(ln); assert(*auto_posting == w); wf_targets(self_.accounts); wf_targets(self_.payees); wf_targets(self_.commodities); }
@ghost bot 18
proof { let m = lists(self_); all_grow_trans(lm, ln, m); let z = extra_postings@.last();
  assert forall|j: int| 0 <= j < i18 - 1 implies added(m, td, pc2(td, i16 - 1), ws[j], #[trigger] y[j]) by { added_lift(ln, m, td, pc2(td, i16 - 1), ws[j], y[j]); }
  assert(added(m, td, pc2(td, i16 - 1), w, z)) by { reveal(added); } assert(extra_postings@ =~= xc + y.push(z)); y = y.push(z); }
@ghost after 18
proof { let m = lists(self_); mt = true; assert(td == *t); lemma_grows(condition(a), pc, tc, lm.c, m.c, EV::Bool(true)); all_grow_trans(l16, lm, m); all_grow_trans(l15, l16, m);
  assert(auto_step(m, a, tc, i16 - 1, td, y)) by { reveal(auto_step); } on_lift(l16, m, a, tb, i16 - 1, tc, xc); assert(cat(extra_postings@, xc, y)); assert(auto_on(m, a, tb, i16 as int, *t, extra_postings@)); }
@ghost bot 16
proof { if !mt { let m = lists(self_); all_grow_trans(l15, l16, m); on_lift(l16, m, a, tb, i16 - 1, tc, xc); on_none(m, a, tb, i16 - 1, tc, xc); } }
@ghost pre t.postings.borrow_mut().append(&mut extra_postings)
let ghost tx = *t; let ghost xx = extra_postings@;
@ghost end 15
proof { let m = lists(self_); all_grow_trans(l14, l15, m); autos_lift(l15, m, aus, ta, i15 - 1, tb); assert(auto_all(m, a, tb, tx, xx)); assert(extended(tx, xx, *t)); assert(autos_on(m, aus, ta, i15 as int, *t)); }
@ghost after 14
proof { met = transactions@; xs = Seq::empty(); let m = lists(self_);
  assert forall|j: int| 0 <= j < k implies sound(self_.accounts, (#[trigger] met[j]).postings.v@) by { sound_grows(l1.accounts, self_.accounts, first[j].postings.v@); autos_sound(m, aus, first[j], na, met[j]); } }
@ghost before 19
//@ C02, C03, C04, C05, C16, C20
proof { reveal(all_zero); }
@loop 19
all_zero(balances@), forall|j: int| 0 <= j < i19 ==> balances@.dom().contains((#[trigger] it19@[j]).kid()),
@ghost top 19
proof { reveal(all_zero); }
@ghost after 19
proof { has_all_from(self_.accounts, it19@, balances@); bs2 = seq![balances@]; accepted_none(nc, met, balances@); reveal(all_zero); }
@loop 20
transactions@.len() == k, forall|j: int| i20 <= j < k ==> #[trigger] transactions@[j] == met[j],
accepted(nc, met, transactions@, bs2, i20 as int), bs2.len() == i20 + 1, bs2[i20 as int] == balances@, bals_wf(balances@), has_all(self_.accounts, balances@),
implies(nc, met, bs2, xs, i20 as int), xs.len() == i20, price_vs(prices@) == stated + opts(xs, i20 as int),
@ghost top 20
let ghost mut itg: Seq<(&Option<Rc<Currency>>, &Money)> = Seq::empty();
let ghost bp = balances@; let ghost tq = *t; let ghost pq = prices@; let ghost mut xi: Option<PriceV> = None;
proof { assert(tq == met[i20 - 1]); assert(sound(self_.accounts, tq.postings.v@)); sound_known(self_.accounts, tq.postings.v@, bp); }
@loop 21
abss(acc21@, it21@, i21 as int),
@ghost after 21
proof { itg = it21@; broadcast use hashmap_inv; enum_len(itg, balance.balance@); }
@ghost end 20
proof { if balance.balance@.dom().len() != 2 { no_pair(balance, f); }
  assert(implied(nc, tq, bp, xi)); implies_step(nc, met, bs2, xs, i20 - 1, xi, balances@); xs = xs.push(xi); assert(price_vs(prices@) =~= stated + opts(xs, i20 as int));
  accepted_step(nc, met, transactions@, bs2, i20 - 1, *t, balances@); bs2 = bs2.push(balances@); }
@ghost pre Ok(Ledger
let ghost hh = Hist { named: l1, unsorted: un, perm: pm, sorted: srt, first: first, b1: bs1, met: met, b2: bs2, x: xs };
let ghost lg = Ledger { accounts: self_.accounts, commodities: self_.commodities, transactions: transactions, prices: prices, payees: self_.payees };
proof { assert(history(self, no_checks, lg, hh)) by { reveal(history); } history_ordered(self, no_checks, lg, hh); }
@end
