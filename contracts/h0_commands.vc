@module cmd_lists src/models/account.rs
@raw
pub open spec fn name_line(n: Seq<char>) -> Seq<char> { n.push('\n') }
pub open spec fn name_lines(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { name_lines(s.drop_last()) + name_line(s.last()) } }
pub open spec fn names<T: HasName>(l: Names<T>, n: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] l.dom().contains(k) && l[k].1.name_s() == n }
/// every element of the list once, in the order of the names
pub open spec fn listing<T: HasName>(s: Seq<Seq<char>>, l: Names<T>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> str_lt(#[trigger] s[i], #[trigger] s[j])
    &&& forall|k: Seq<char>| #[trigger] l.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == l[k].1.name_s()
    &&& forall|i: int| 0 <= i < s.len() ==> names(l, #[trigger] s[i])
}
pub open spec fn name_ord<T: HasName>() -> spec_fn(T, T) -> Ordering { |a: T, b: T| str_ord(a.name_s(), b.name_s()) }
pub open spec fn names_of<T: HasName>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|x: T| x.name_s()) }
pub proof fn ord_ok<T: HasName>() ensures preorder(name_ord::<T>(), |x_: T| true) { broadcast use str_total; broadcast use str_trans; }
pub proof fn list_sorted<T: HasName>(l: List<T>, it: Seq<(&String, &Rc<T>)>, v: Seq<T>, t: Seq<T>, p: Seq<int>)
    requires l.wf(), enumerates(it, l.list@), v.len() == it.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == **it[i].1, sorted_from(v, t, p, name_ord::<T>())
    ensures listing(names_of(t), l.list@)
{
    let n = names_of(t); broadcast use str_total;
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies str_lt(#[trigger] n[i], #[trigger] n[j]) by {
        let a = p[i]; let b = p[j]; assert(t[i] == v[a] && t[j] == v[b]); assert(it[a].0.kid() != it[b].0.kid()) by { if a < b {} else {} };
        assert(l.list@.dom().contains(it[a].0.kid()) && l.list@.dom().contains(it[b].0.kid()));
        assert(n[i] != n[j]);
    }
    assert forall|k: Seq<char>| #[trigger] l.list@.dom().contains(k) implies exists|i: int| 0 <= i < n.len() && #[trigger] n[i] == l.list@[k].1.name_s() by {
        let a = choose|a: int| 0 <= a < it.len() && (#[trigger] it[a]).0.kid() == k; assert(p.contains(a)); let i = choose|i: int| 0 <= i < v.len() && #[trigger] p[i] == a; assert(t[i] == v[a]); assert(n[i] == l.list@[k].1.name_s());
    }
    assert forall|i: int| 0 <= i < n.len() implies names(l.list@, #[trigger] n[i]) by {
        let k = it[p[i]].0.kid(); assert(t[i] == v[p[i]]); assert(l.list@.dom().contains(k));
    }
}
impl VToOwned for Account { type Own = Account; open spec fn own_ens(&self, r: Account) -> bool { r == *self } #[verifier::external_body] fn v_to_owned(&self) -> (r: Account) { unimplemented!() } }
impl VToOwned for Payee { type Own = Payee; open spec fn own_ens(&self, r: Payee) -> bool { r == *self } #[verifier::external_body] fn v_to_owned(&self) -> (r: Payee) { unimplemented!() } }
impl VToOwned for Currency { type Own = Currency; open spec fn own_ens(&self, r: Currency) -> bool { r == *self } #[verifier::external_body] fn v_to_owned(&self) -> (r: Currency) { unimplemented!() } }
@fn Account as Display::fmt
@traw
open spec fn fmt_ens(&self, t: Seq<char>) -> bool { t == self.name@ }
@ghost tail
proof { assert(f@.take(old(f)@.len() as int) =~= old(f)@); assert(f@.skip(old(f)@.len() as int) =~= self.name@); }
@raw
impl VDisp for Account { open spec fn disp(&self) -> Seq<char> { self.name@ } fn v_disp(&self) -> (r: String) { let mut f = Formatter::v_new(); let q = self.fmt(&mut f); proof { assert(f@.skip(0) =~= f@); } f.v_done() } }
@module cmd_lists_p src/models/payee.rs
@fn Payee as Display::fmt
@traw
open spec fn fmt_ens(&self, t: Seq<char>) -> bool { t == self.name@ }
@ghost tail
proof { assert(f@.take(old(f)@.len() as int) =~= old(f)@); assert(f@.skip(old(f)@.len() as int) =~= self.name@); }
@raw
impl VDisp for Payee { open spec fn disp(&self) -> Seq<char> { self.name@ } fn v_disp(&self) -> (r: String) { let mut f = Formatter::v_new(); let q = self.fmt(&mut f); proof { assert(f@.skip(0) =~= f@); } f.v_done() } }
@module cmd_lists_c src/models/currency.rs
@fn Currency as Display::fmt
@traw
open spec fn fmt_ens(&self, t: Seq<char>) -> bool { t == self.name@ }
@ghost tail
proof { assert(f@.take(old(f)@.len() as int) =~= old(f)@); assert(f@.skip(old(f)@.len() as int) =~= self.name@); }
@raw
impl VDisp for Currency { open spec fn disp(&self) -> Seq<char> { self.name@ } fn v_disp(&self) -> (r: String) { let mut f = Formatter::v_new(); let q = self.fmt(&mut f); proof { assert(f@.skip(0) =~= f@); } f.v_done() } }
@module cmd_check src/commands/check.rs
@fn execute | out maypanic
ensures
  //# C20: the check succeeds exactly with a ledger
  r is Ok ==> exists|p: ParsedLedger, l: Ledger| reads(path@, p) && #[trigger] ledger_of(p, false, l),
@module cmd_accounts src/commands/accounts.rs
@fn execute | out
ensures
  //# C19: each account once, by name
  r is Ok ==> exists|l: Ledger, s: Seq<Seq<char>>| #[trigger] loaded(path@, no_balance_check, l) && #[trigger] listing(s, l.accounts.list@) && final(out_)@ == old(out_)@ + name_lines(s),
  r is Err ==> final(out_)@ == old(out_)@,
@loop 0: Vec<Account>
acc0@.len() == i0, forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == **it0@[i].1,
@sort 0: Account
name_ord::<Account>()
@ghost pre accounts.sort_by
proof { ord_ok::<Account>(); }
let ghost v0 = accounts@;
@ghost post accounts.sort_by
let ghost pm = choose|p: Seq<int>| #[trigger] sorted_from(v0, accounts@, p, name_ord::<Account>());
let ghost t0 = accounts@;
proof { list_sorted(ledger.accounts, it0g, v0, t0, pm); }
@ghost start
hide(listing); hide(enumerates); hide(List::wf); hide(preorder); hide(sorted_from);
let ghost mut it0g: Seq<(&String, &Rc<Account>)> = Seq::empty();
@ghost after 0
proof { it0g = it0@; }
@loop 1
it1@.len() == t0.len(), forall|i: int| 0 <= i < t0.len() ==> (#[trigger] it1@[i]).name_s() == t0[i].name_s(), out_@ == old(out_)@ + name_lines(names_of(t0).take(i1 as int)),
@ghost top 1
proof { let n = names_of(t0); assert(n.take(i1 as int).drop_last() =~= n.take(i1 - 1)); assert(n.take(i1 as int).last() == t0[i1 - 1].name_s()); }
@ghost after 1
proof { let n = names_of(t0); assert(n.take(n.len() as int) =~= n); assert(loaded(path@, no_balance_check, ledger)); assert(listing(n, ledger.accounts.list@)); }
@module cmd_payees src/commands/payees.rs
@fn execute | out
ensures
  //# C19: each payee once, by name
  r is Ok ==> exists|l: Ledger, s: Seq<Seq<char>>| #[trigger] loaded(path@, no_balance_check, l) && #[trigger] listing(s, l.payees.list@) && final(out_)@ == old(out_)@ + name_lines(s),
  r is Err ==> final(out_)@ == old(out_)@,
@loop 0: Vec<Payee>
acc0@.len() == i0, forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == **it0@[i].1,
@sort 0: Payee
name_ord::<Payee>()
@ghost pre payees.sort_by
proof { ord_ok::<Payee>(); }
let ghost v0 = payees@;
@ghost post payees.sort_by
let ghost pm = choose|p: Seq<int>| #[trigger] sorted_from(v0, payees@, p, name_ord::<Payee>());
let ghost t0 = payees@;
proof { list_sorted(ledger.payees, it0g, v0, t0, pm); }
@ghost start
hide(listing); hide(enumerates); hide(List::wf); hide(preorder); hide(sorted_from);
let ghost mut it0g: Seq<(&String, &Rc<Payee>)> = Seq::empty();
@ghost after 0
proof { it0g = it0@; }
@loop 1
it1@.len() == t0.len(), forall|i: int| 0 <= i < t0.len() ==> (#[trigger] it1@[i]).name_s() == t0[i].name_s(), out_@ == old(out_)@ + name_lines(names_of(t0).take(i1 as int)),
@ghost top 1
proof { let n = names_of(t0); assert(n.take(i1 as int).drop_last() =~= n.take(i1 - 1)); assert(n.take(i1 as int).last() == t0[i1 - 1].name_s()); }
@ghost after 1
proof { let n = names_of(t0); assert(n.take(n.len() as int) =~= n); assert(loaded(path@, no_balance_check, ledger)); assert(listing(n, ledger.payees.list@)); }
@module cmd_commodities src/commands/commodities.rs
@fn execute | out
ensures
  //# C19: each commodity once, by name
  r is Ok ==> exists|l: Ledger, s: Seq<Seq<char>>| #[trigger] loaded(path@, no_balance_check, l) && #[trigger] listing(s, l.commodities.list@) && final(out_)@ == old(out_)@ + name_lines(s),
  r is Err ==> final(out_)@ == old(out_)@,
@loop 0: Vec<Currency>
acc0@.len() == i0, forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == **it0@[i].1,
@sort 0: Currency
name_ord::<Currency>()
@ghost pre commodities.sort_by
proof { ord_ok::<Currency>(); }
let ghost v0 = commodities@;
@ghost post commodities.sort_by
let ghost pm = choose|p: Seq<int>| #[trigger] sorted_from(v0, commodities@, p, name_ord::<Currency>());
let ghost t0 = commodities@;
proof { list_sorted(ledger.commodities, it0g, v0, t0, pm); }
@ghost start
hide(listing); hide(enumerates); hide(List::wf); hide(preorder); hide(sorted_from);
let ghost mut it0g: Seq<(&String, &Rc<Currency>)> = Seq::empty();
@ghost after 0
proof { it0g = it0@; }
@loop 1
it1@.len() == t0.len(), forall|i: int| 0 <= i < t0.len() ==> (#[trigger] it1@[i]).name_s() == t0[i].name_s(), out_@ == old(out_)@ + name_lines(names_of(t0).take(i1 as int)),
@ghost top 1
proof { let n = names_of(t0); assert(n.take(i1 as int).drop_last() =~= n.take(i1 - 1)); assert(n.take(i1 as int).last() == t0[i1 - 1].name_s()); }
@ghost after 1
proof { let n = names_of(t0); assert(n.take(n.len() as int) =~= n); assert(loaded(path@, no_balance_check, ledger)); assert(listing(n, ledger.commodities.list@)); }
