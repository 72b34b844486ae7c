@module error src/error.rs
@type LedgerError
@type ParserError
@type Error
@end
@module money src/models/money.rs
@type Money
@raw
impl Money {
    pub open spec fn amt(&self) -> real { match *self { Money::Zero => 0real, Money::Money { amount, .. } => amount@ } }
    pub open spec fn cid(&self) -> Option<Seq<char>> { match *self { Money::Zero => None, Money::Money { currency, .. } => Some(currency.kid()) } }
    /// amount in commodity c: a Money is a one-commodity vector
    pub open spec fn at(&self, c: Option<Seq<char>>) -> real { if self.cid() == c { self.amt() } else { 0real } }
}
@fn Money::new
ensures r.amt() == 0real, r is Zero
@fn Money::is_zero
ensures r == (self.amt() == 0real)
@fn Money::is_positive
ensures self is Zero ==> r, self is Money ==> r == (self.amt() > 0real)
@fn Money::is_negative
ensures self is Zero ==> r, self is Money ==> r == (self.amt() < 0real)
@fn Money::get_commodity
ensures r.kid() == self.cid(), self is Money ==> r == Some(self->currency), r is None <==> self is Zero
@fn Money::get_amount
ensures r@ == self.amt()
@fn Money::abs
ensures r.amt() == absr(self.amt()), r.cid() == self.cid(), r is Zero <==> self is Zero
@fn Money as PartialEq::eq
@tens
r == (self.amt() == other.amt() && (self.cid() == other.cid() || self is Zero || other is Zero))
@fn Money as Ord::cmp | maypanic
@tens
(self is Zero || other is Zero || self.cid() == other.cid()) && r == ord_of(self.amt() < other.amt(), self.amt() == other.amt())
@fn Money as Mul<BigRational>::mul
@tens
r.amt() == self.amt() * rhs@ && r.cid() == self.cid() && (r is Zero <==> self is Zero)
@fn Money as Div<BigRational>::div | maypanic
@tens
rhs@ != 0real && r.amt() * rhs@ == self.amt() && r.cid() == self.cid() && (r is Zero <==> self is Zero)
@ghost tail
proof { let a = self.amt(); let q = rhs@; let i = 1real / q; assert((a * i) * q == a) by(nonlinear_arith) requires q != 0real, i == 1real / q; }
@fn Money as From<(Rc<Currency>,BigRational)>::from
@tens
r.amt() == cur_amount.1@ && r.cid() == Some(cur_amount.0.kid()) && r == (Money::Money { amount: cur_amount.1, currency: cur_amount.0 })
@fn Money as From<(Currency,BigRational)>::from
@tens
r.amt() == cur_amount.1@ && r.cid() == Some(cur_amount.0.kid())
@fn Money as Add::add
@tens
r.wf() && r.clean() && forall|c: Option<Seq<char>>| #[trigger] r.amt(c) == self.at(c) + rhs.at(c)
@fn Money as Sub::sub
@tens
r.wf() && r.clean() && forall|c: Option<Seq<char>>| #[trigger] r.amt(c) == self.at(c) - rhs.at(c)
@fn Money as Neg::neg
@tens
r.amt() == -self.amt() && r.cid() == self.cid() && (r is Zero <==> self is Zero)

@module balance src/models/balance.rs
@type Balance
@raw
impl Balance {
    /// amount held in commodity c
    pub open spec fn amt(&self, c: Option<Seq<char>>) -> real { tot(self.balance@, c) }
    /// every entry is filed under its own commodity
    pub open spec fn wf(&self) -> bool { mwf(self.balance@) }
    /// no zero entries
    pub open spec fn clean(&self) -> bool { forall|c: Option<Seq<char>>| self.balance@.dom().contains(c) ==> (#[trigger] self.balance@[c]).1.amt() != 0real }
    /// the entry for c may count as positive (p) or negative (!p)
    pub open spec fn may(&self, c: Option<Seq<char>>, p: bool) -> bool { self.balance@.dom().contains(c) && mayp(&self.balance@[c].1, p) }
    pub open spec fn zero(&self) -> bool { forall|c: Option<Seq<char>>| #[trigger] self.amt(c) == 0real }
}
@raw
pub open spec fn nz() -> spec_fn((Option<Rc<Currency>>, Money)) -> bool { |p: (Option<Rc<Currency>>, Money)| p.1.amt() != 0real }
pub open spec fn mayp(m: &Money, p: bool) -> bool { m is Zero || (if p { m.amt() > 0real } else { m.amt() < 0real }) }
pub type BMap = Map<Option<Seq<char>>, (Option<Rc<Currency>>, Money)>;
pub open spec fn tot(m: BMap, c: Option<Seq<char>>) -> real { if m.dom().contains(c) { m[c].1.amt() } else { 0real } }
pub open spec fn mwf(m: BMap) -> bool { forall|c: Option<Seq<char>>| m.dom().contains(c) ==> (#[trigger] m[c]).1.cid() == c }
pub open spec fn seen(s: Seq<(&Option<Rc<Currency>>, &Money)>, n: int, c: Option<Seq<char>>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).0.kid() == c }
@fn Balance::new
ensures r.wf(), r.clean(), r.zero(), r.balance@ == Map::<Option<Seq<char>>, (Option<Rc<Currency>>, Money)>::empty()
@fn Balance::is_zero
ensures r == self.zero()
@loop 0
forall|j: int| 0 <= j < i0 ==> (#[trigger] it0@[j]).1.amt() == 0real,
@ghost top 0
assert(self.amt(it0@[i0 - 1].0.kid()) == money.amt());
@end
@fn Balance::iter
ensures enumerates(r@, self.balance@)
@fn Balance::len
ensures r == self.balance@.dom().len()
@fn Balance::to_money
requires self.wf()
ensures
  r is Ok ==> forall|c: Option<Seq<char>>| #[trigger] r->Ok_0.at(c) == self.amt(c),
  r is Err ==> exists|c: Option<Seq<char>>, d: Option<Seq<char>>| c != d && #[trigger] self.amt(c) != 0real && #[trigger] self.amt(d) != 0real,
  r is Err ==> r->Err_0 is TransactionIsNotBalanced
@loop 0
acc0@ == sfilter(it0@, i0 as int, |m: &Money| m.amt() != 0real),
@ghost after 0
proof {
  let m = self.balance@; let p = choose|p: Seq<(&Option<Rc<Currency>>, &Money)>| #[trigger] enumerates(p, m) && it0@.len() == p.len() && forall|i: int| 0 <= i < it0@.len() ==> (#[trigger] it0@[i]) == p[i].1;
  let f = |m: &Money| m.amt() != 0real;
  let idx = lemma_sfilter(it0@, it0@.len() as int, f);
  assert forall|c: Option<Seq<char>>| #[trigger] self.amt(c) != 0real implies exists|j: int| 0 <= j < acc0@.len() && (#[trigger] acc0@[j]).cid() == c && acc0@[j].amt() == self.amt(c) by {
    let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).0.kid() == c; assert(f(it0@[k])); let j = choose|j: int| 0 <= j < idx.len() && #[trigger] idx[j] == k; assert(acc0@[j] == it0@[k]); }
  assert forall|j: int| 0 <= j < acc0@.len() implies self.amt((#[trigger] acc0@[j]).cid()) == acc0@[j].amt() && acc0@[j].amt() != 0real by { assert(acc0@[j] == p[idx[j]].1); assert(m[p[idx[j]].0.kid()].1 == *p[idx[j]].1); }
  if acc0@.len() >= 2 { assert(idx[0] < idx[1]); assert(acc0@[0] == p[idx[0]].1); assert(acc0@[1] == p[idx[1]].1); assert(p[idx[0]].0.kid() != p[idx[1]].0.kid());
    assert(m[p[idx[0]].0.kid()].1.cid() == p[idx[0]].0.kid()); assert(m[p[idx[1]].0.kid()].1.cid() == p[idx[1]].0.kid());
    assert(acc0@[0].cid() != acc0@[1].cid()); }
}
@raw
/// a total that may be left over: nothing, or at least one commodity on each side (an implicit exchange)
pub open spec fn settled(f: spec_fn(Option<Seq<char>>) -> real) -> bool {
    (forall|c: Option<Seq<char>>| #[trigger] f(c) == 0real) || ((exists|c: Option<Seq<char>>| #[trigger] f(c) > 0real) && (exists|c: Option<Seq<char>>| #[trigger] f(c) < 0real))
}
pub proof fn lemma_settled(b: Balance, f: spec_fn(Option<Seq<char>>) -> real)
    requires b.clean(), forall|c: Option<Seq<char>>| #[trigger] b.amt(c) == f(c)
    ensures settled(f) == (b.zero() || ((exists|c: Option<Seq<char>>| b.may(c, true)) && (exists|c: Option<Seq<char>>| b.may(c, false))))
{
    assert forall|c: Option<Seq<char>>, p: bool| #[trigger] b.may(c, p) == (if p { f(c) > 0real } else { f(c) < 0real }) by { assert(b.amt(c) == f(c)); if b.balance@.dom().contains(c) { assert(b.balance@[c].1.amt() != 0real); } }
    assert(b.zero() == forall|c: Option<Seq<char>>| #[trigger] f(c) == 0real) by { if b.zero() { assert forall|c: Option<Seq<char>>| #[trigger] f(c) == 0real by { assert(b.amt(c) == 0real); } } }
    if exists|c: Option<Seq<char>>| #[trigger] f(c) > 0real { let c = choose|c: Option<Seq<char>>| #[trigger] f(c) > 0real; assert(b.may(c, true)); }
    if exists|c: Option<Seq<char>>| #[trigger] f(c) < 0real { let c = choose|c: Option<Seq<char>>| #[trigger] f(c) < 0real; assert(b.may(c, false)); }
}

@fn Balance::can_be_zero
ensures
  self.clean() ==> forall|f: spec_fn(Option<Seq<char>>) -> real| (forall|c: Option<Seq<char>>| #[trigger] self.amt(c) == f(c)) ==> r == #[trigger] settled(f),
  r == (self.zero() || ((exists|c: Option<Seq<char>>| self.may(c, true)) && (exists|c: Option<Seq<char>>| self.may(c, false)))),
@ghost start
proof { if self.clean() { assert forall|f: spec_fn(Option<Seq<char>>) -> real| (forall|c: Option<Seq<char>>| #[trigger] self.amt(c) == f(c)) implies
  #[trigger] settled(f) == (self.zero() || ((exists|c: Option<Seq<char>>| self.may(c, true)) && (exists|c: Option<Seq<char>>| self.may(c, false)))) by { lemma_settled(*self, f); } } }
@loop 0
!(positive && negative),
positive == exists|j: int| 0 <= j < i0 && mayp((#[trigger] it0@[j]).1, true),
negative == exists|j: int| 0 <= j < i0 && mayp((#[trigger] it0@[j]).1, false),
@ghost top 0
let ghost p0 = positive; let ghost n0 = negative;
assert(self.balance@[it0@[i0 - 1].0.kid()].1 == *m);
@ghost bot 0
assert(positive == (p0 || mayp(m, true)));
assert(negative == (n0 || mayp(m, false)));
assert(!(positive && negative));
assert(it0@[i0 - 1].1 == m);
@ghost pre if positive & negative
proof { if positive && negative {
  assert(it0@[i0 - 1].1 == m);
  let j = choose|j: int| 0 <= j < i0 && mayp((#[trigger] it0@[j]).1, true); assert(self.may(it0@[j].0.kid(), true));
  let j = choose|j: int| 0 <= j < i0 && mayp((#[trigger] it0@[j]).1, false); assert(self.may(it0@[j].0.kid(), false));
} }
@ghost after 0
proof { if !self.zero() && (exists|c: Option<Seq<char>>| self.may(c, true)) && (exists|c: Option<Seq<char>>| self.may(c, false)) {
  let c = choose|c: Option<Seq<char>>| self.may(c, true); let j = choose|j: int| 0 <= j < it0@.len() && (#[trigger] it0@[j]).0.kid() == c; assert(mayp(it0@[j].1, true));
  let c = choose|c: Option<Seq<char>>| self.may(c, false); let j = choose|j: int| 0 <= j < it0@.len() && (#[trigger] it0@[j]).0.kid() == c; assert(mayp(it0@[j].1, false));
  assert(positive && negative);
} }
@fn Balance as Neg::neg
@tens
(self.wf() ==> r.wf()) && (self.clean() ==> r.clean()) && forall|c: Option<Seq<char>>| #[trigger] r.amt(c) == -self.amt(c)
@loop 0
forall|j: int| 0 <= j < i0 ==> balance@.dom().contains((#[trigger] it0@[j]).0.kid()) && balance@[it0@[j].0.kid()].1.amt() == -it0@[j].1.amt() && balance@[it0@[j].0.kid()].1.cid() == it0@[j].1.cid(),
forall|c: Option<Seq<char>>| #[trigger] balance@.dom().contains(c) ==> exists|j: int| 0 <= j < i0 && (#[trigger] it0@[j]).0.kid() == c,
@fn Balance as Add::add
@treq
self.wf() && rhs.wf()
@tens
r.wf() && r.clean() && forall|c: Option<Seq<char>>| #![trigger r.amt(c)] #![trigger self.amt(c)] r.amt(c) == self.amt(c) + rhs.amt(c)
@ghost top 1
let ghost pre = total@;
assert(forall|c: Option<Seq<char>>| seen(it1@, i1 as int, c) <==> (seen(it1@, i1 - 1, c) || c == it1@[i1 - 1].0.kid()));
assert(!seen(it1@, i1 - 1, cur.kid()));
assert(bal.amt(cur.kid()) == money.amt());
@ghost bot 1
assert(tot(total@, cur.kid()) == tot(pre, cur.kid()) + money.amt());
assert(forall|c: Option<Seq<char>>| c != cur.kid() ==> #[trigger] tot(total@, c) == tot(pre, c));
@ghost start
let ghost b0 = self; let ghost b1 = rhs;
@loop 0
mwf(total@),
forall|c: Option<Seq<char>>| #[trigger] tot(total@, c) == (if i0 == 0 { 0real } else if i0 == 1 { b0.amt(c) } else { b0.amt(c) + b1.amt(c) }),
@loop 1
mwf(total@),
forall|c: Option<Seq<char>>| #[trigger] tot(total@, c) == (if i0 == 1 { 0real } else { b0.amt(c) }) + (if seen(it1@, i1 as int, c) { bal.amt(c) } else { 0real }),
@loop 2
acc2@ == sfilter(it2@, i2 as int, nz()),
@ghost before 2
let ghost tt = total@;
@ghost after 2
proof { let idx = lemma_sfilter(it2@, it2@.len() as int, nz());
 assert forall|i: int, j: int| 0 <= i < j < acc2@.len() implies (#[trigger] acc2@[i]).0.kid() != (#[trigger] acc2@[j]).0.kid() by { assert(idx[i] < idx[j]); }
 lemma_extend(acc2@, acc2@.len() as int);
 let mm = extend_with(Map::<Option<Seq<char>>, (Option<Rc<Currency>>, Money)>::empty(), acc2@, acc2@.len() as int);
 assert forall|c: Option<Seq<char>>| #[trigger] tot(mm, c) == tot(tt, c) by {
   if mm.dom().contains(c) { let i = choose|i: int| 0 <= i < acc2@.len() && (#[trigger] acc2@[i]).0.kid() == c; assert(acc2@[i] == it2@[idx[i]]); assert(mm[acc2@[i].0.kid()] == acc2@[i]); }
   else if tt.dom().contains(c) { let k = choose|k: int| 0 <= k < it2@.len() && (#[trigger] it2@[k]).0.kid() == c; assert(it2@[k].1 == tt[c].1);
     if tot(tt, c) != 0real { assert(nz()(it2@[k])); let j = choose|j: int| 0 <= j < idx.len() && #[trigger] idx[j] == k; assert(acc2@[j] == it2@[k]); assert(mm.dom().contains(acc2@[j].0.kid())); } }
 }
 assert forall|c: Option<Seq<char>>| mm.dom().contains(c) implies (#[trigger] mm[c]).1.cid() == c && mm[c].1.amt() != 0real by {
   let i = choose|i: int| 0 <= i < acc2@.len() && (#[trigger] acc2@[i]).0.kid() == c; assert(acc2@[i] == it2@[idx[i]]); assert(mm[acc2@[i].0.kid()] == acc2@[i]); assert(tt[c] == mm[c]); }
 assert forall|c: Option<Seq<char>>| #[trigger] tot(mm, c) == b0.amt(c) + b1.amt(c) by { assert(tot(tt, c) == b0.amt(c) + b1.amt(c)); }
 }
@fn Balance as Sub::sub
@treq
self.wf() && rhs.wf()
@tens
r.wf() && r.clean() && forall|c: Option<Seq<char>>| #[trigger] r.amt(c) == self.amt(c) - rhs.amt(c)
@fn Balance as From<Money>::from
@tens
r.wf() && (forall|c: Option<Seq<char>>| #[trigger] r.balance@.dom().contains(c) <==> c == money.cid()) && forall|c: Option<Seq<char>>| #[trigger] r.amt(c) == money.at(c)
@fn Balance as PartialEq::eq
@treq
self.wf() && other.wf()
@tens
r == forall|c: Option<Seq<char>>| #![trigger self.amt(c)] #![trigger other.amt(c)] self.balance@.dom().contains(c) ==> self.amt(c) == other.amt(c)
@loop 0
forall|j: int| 0 <= j < i0 ==> (#[trigger] it0@[j]).1.amt() == other.amt(it0@[j].0.kid()),
@ghost top 0
assert(self.amt(it0@[i0 - 1].0.kid()) == v.amt());
@end
