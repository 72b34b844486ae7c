@module cmd_balance src/commands/balance.rs
@raw
/// one entry of a balance, in commodity c after conversion to `to` at the rates m
pub open spec fn worth(k: Option<Rc<Currency>>, v: Money, m: Rates, to: Seq<char>, c: Option<Seq<char>>) -> real {
    if m.dom().contains(k->0.kid()) { if c == Some(to) { v.amt() * m[k->0.kid()].1@ } else { 0real } } else { v.at(c) }
}
pub open spec fn worths(s: Seq<(&Option<Rc<Currency>>, &Money)>, n: int, m: Rates, to: Seq<char>, c: Option<Seq<char>>) -> real decreases n { if n <= 0 { 0real } else { worths(s, n - 1, m, to, c) + worth(*s[n - 1].0, *s[n - 1].1, m, to, c) } }
pub proof fn worths_other(b: Balance, s: Seq<(&Option<Rc<Currency>>, &Money)>, n: int, m: Rates, to: Seq<char>, c: Seq<char>)
    requires b.wf(), enumerates(s, b.balance@), 0 <= n <= s.len(), c != to, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 is Some
    ensures worths(s, n, m, to, Some(c)) == (if seen(s, n, Some(c)) && !m.dom().contains(c) { b.amt(Some(c)) } else { 0real }) decreases n
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if n > 0 { worths_other(b, s, n - 1, m, to, c); let k = s[n - 1].0.kid(); assert(b.balance@.dom().contains(k)); assert(b.balance@[k].1 == *s[n - 1].1); assert(s[n - 1].0 is Some); assert(k == Some(s[n - 1].0->0.kid()));
    if k == Some(c) { assert(!seen(s, n - 1, Some(c))); assert(seen(s, n, Some(c))); } else { assert(seen(s, n, Some(c)) == seen(s, n - 1, Some(c))) by { if seen(s, n, Some(c)) { let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).0.kid() == Some(c); assert(j < n - 1); } if seen(s, n - 1, Some(c)) { let j = choose|j: int| 0 <= j < n - 1 && (#[trigger] s[j]).0.kid() == Some(c); assert(s[j].0.kid() == Some(c)); } } } } }
impl VToOwned for Balance { type Own = Balance; open spec fn own_ens(&self, r: Balance) -> bool { r == *self } #[verifier::external_body] fn v_to_owned(&self) -> (r: Balance) { unimplemented!() } }
@fn convert_balance | maypanic
requires balance.wf()
ensures
  //# C06: each commodity with a rate is multiplied by it and is the currency from then on, each other commodity is left as it is
  r.wf(), r.clean(), exists|s: Seq<(&Option<Rc<Currency>>, &Money)>| #[trigger] enumerates(s, balance.balance@) && forall|c: Option<Seq<char>>| #[trigger] r.amt(c) == worths(s, s.len() as int, multipliers@, currency.kid(), c),
  forall|c: Seq<char>| c != currency.kid() ==> #[trigger] r.amt(Some(c)) == (if multipliers@.dom().contains(c) { 0real } else { balance.amt(Some(c)) }),
@loop 0
new_balance.wf(), forall|c: Option<Seq<char>>| #[trigger] new_balance.amt(c) == worths(it0@, i0 as int, multipliers@, currency.kid(), c), forall|k: int| 0 <= k < i0 ==> (#[trigger] it0@[k]).0 is Some, new_balance.clean(),
@ghost after 0
proof { assert forall|c: Seq<char>| c != currency.kid() implies #[trigger] new_balance.amt(Some(c)) == (if multipliers@.dom().contains(c) { 0real } else { balance.amt(Some(c)) }) by { worths_other(*balance, it0@, it0@.len() as int, multipliers@, currency.kid(), c); if balance.balance@.dom().contains(Some(c)) { let j = choose|j: int| 0 <= j < it0@.len() && (#[trigger] it0@[j]).0.kid() == Some(c); assert(seen(it0@, it0@.len() as int, Some(c))); } } }
@raw
// ---- the sums a balance report is made of
pub type Cid = Option<Seq<char>>;
pub type Pred = spec_fn(Seq<char>) -> bool;
pub type Amts = spec_fn(Seq<char>) -> real;
/// the postings listed, in order
#[verifier::opaque] pub open spec fn picked(ps: Seq<Posting>, s: Seq<bool>, n: int) -> Seq<Posting> decreases n { if n <= 0 { Seq::empty() } else if s[n - 1] { picked(ps, s, n - 1).push(ps[n - 1]) } else { picked(ps, s, n - 1) } }
#[verifier::opaque] pub open spec fn all_picked(ts: Seq<Transaction<Posting>>, sel: Seq<Seq<bool>>, n: int) -> Seq<Posting> decreases n { if n <= 0 { Seq::empty() } else { all_picked(ts, sel, n - 1) + picked(ts[n - 1].postings.v@, sel[n - 1], ts[n - 1].postings.v@.len() as int) } }
#[verifier::opaque] pub open spec fn sel_trans(o: CommonOpts, t: Transaction<Posting>, s: Seq<bool>) -> bool { s.len() == t.postings.v@.len() && forall|j: int| 0 <= j < s.len() ==> selects(o, t, #[trigger] t.postings.v@[j], s[j]) }
pub open spec fn all_sel(o: CommonOpts, ts: Seq<Transaction<Posting>>, sel: Seq<Seq<bool>>) -> bool { sel.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> sel_trans(o, ts[i], #[trigger] sel[i]) }
/// the sum over the postings whose account is one of f
#[verifier::opaque] pub open spec fn ssum(sp: Seq<Posting>, f: Pred, c: Cid) -> real decreases sp.len() { if sp.len() == 0 { 0real } else { ssum(sp.drop_last(), f, c) + (if f(sp.last().account.name@) { sp.last().amount->0.at(c) } else { 0real }) } }
pub open spec fn eqn(n: Seq<char>) -> Pred { |a: Seq<char>| a == n }
/// the account and its sub-accounts
#[verifier::opaque] pub open spec fn under(n: Seq<char>) -> Pred { |a: Seq<char>| a == n || is_prefix(n.push(':'), a) }
/// the first d parts of a name
pub open spec fn folded(a: Seq<char>, d: int) -> Seq<char> { joined(parts(a), if d < parts(a).len() { d } else { parts(a).len() as int }) }
pub open spec fn fold_to(n: Seq<char>, d: int) -> Pred { |a: Seq<char>| folded(a, d) == n }
pub open spec fn anyn() -> Pred { |a: Seq<char>| true }
/// the accounts that a line of the report stands for
pub open spec fn fam(flat: bool, depth: Option<usize>, n: Seq<char>) -> Pred { if !flat { under(n) } else { match depth { Some(d) => fold_to(n, d as int), None => eqn(n) } } }
#[verifier::opaque] pub open spec fn all_diff(ks: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j] }
#[verifier::opaque] pub open spec fn ksum(ks: Seq<Seq<char>>, f: Pred, g: Amts) -> real decreases ks.len() { if ks.len() == 0 { 0real } else { ksum(ks.drop_last(), f, g) + (if f(ks.last()) { g(ks.last()) } else { 0real }) } }
pub proof fn ssum_push(sp: Seq<Posting>, p: Posting, f: Pred, c: Cid) ensures ssum(sp.push(p), f, c) == ssum(sp, f, c) + (if f(p.account.name@) { p.amount->0.at(c) } else { 0real }) { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert(sp.push(p).drop_last() =~= sp); reveal_with_fuel(ssum, 2); }
pub proof fn ksum_push(ks: Seq<Seq<char>>, k: Seq<char>, f: Pred, g: Amts) ensures ksum(ks.push(k), f, g) == ksum(ks, f, g) + (if f(k) { g(k) } else { 0real }) { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert(ks.push(k).drop_last() =~= ks); reveal_with_fuel(ksum, 2); }
pub open spec fn ks_cover(ks: Seq<Seq<char>>, sp: Seq<Posting>) -> bool { forall|i: int| 0 <= i < sp.len() ==> ks.contains((#[trigger] sp[i]).account.name@) }
pub proof fn ssum_none(sp: Seq<Posting>, f: Pred, c: Cid) requires forall|i: int| 0 <= i < sp.len() ==> !f((#[trigger] sp[i]).account.name@) ensures ssum(sp, f, c) == 0real decreases sp.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if sp.len() > 0 { assert forall|i: int| 0 <= i < sp.drop_last().len() implies !f((#[trigger] sp.drop_last()[i]).account.name@) by { assert(sp.drop_last()[i] == sp[i]); } ssum_none(sp.drop_last(), f, c); assert(!f(sp[sp.len() - 1].account.name@)); } }
pub proof fn ssum_one(sp: Seq<Posting>, f: Pred, c: Cid) -> (i: int) requires ssum(sp, f, c) != 0real ensures 0 <= i < sp.len(), f(sp[i].account.name@)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if forall|i: int| 0 <= i < sp.len() ==> !f((#[trigger] sp[i]).account.name@) { ssum_none(sp, f, c); } choose|i: int| 0 <= i < sp.len() && f((#[trigger] sp[i]).account.name@) }
pub proof fn ksum_ext(ks: Seq<Seq<char>>, f: Pred, f2: Pred, g: Amts, g2: Amts) requires forall|i: int| 0 <= i < ks.len() ==> f(#[trigger] ks[i]) == f2(ks[i]) && (f(ks[i]) ==> g(ks[i]) == g2(ks[i])) ensures ksum(ks, f, g) == ksum(ks, f2, g2) decreases ks.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if ks.len() > 0 { let d = ks.drop_last(); assert forall|i: int| 0 <= i < d.len() implies f(#[trigger] d[i]) == f2(d[i]) && (f(d[i]) ==> g(d[i]) == g2(d[i])) by { assert(d[i] == ks[i]); } ksum_ext(d, f, f2, g, g2); let l = ks[ks.len() - 1]; assert(f(l) == f2(l)); } }
pub proof fn ksum_none(ks: Seq<Seq<char>>, f: Pred, g: Amts) requires forall|i: int| 0 <= i < ks.len() ==> !f(#[trigger] ks[i]) || g(ks[i]) == 0real ensures ksum(ks, f, g) == 0real decreases ks.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if ks.len() > 0 { let d = ks.drop_last(); assert forall|i: int| 0 <= i < d.len() implies !f(#[trigger] d[i]) || g(d[i]) == 0real by { assert(d[i] == ks[i]); } ksum_none(d, f, g); let l = ks[ks.len() - 1]; assert(!f(l) || g(l) == 0real); } }
pub proof fn ksum_bump(ks: Seq<Seq<char>>, f: Pred, g: Amts, g2: Amts, k: Seq<char>, x: real)
    requires all_diff(ks), forall|a: Seq<char>| #[trigger] g2(a) == g(a) + (if a == k { x } else { 0real })
    ensures ksum(ks, f, g2) == ksum(ks, f, g) + (if f(k) && ks.contains(k) { x } else { 0real }) decreases ks.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if ks.len() > 0 { let d = ks.drop_last(); let l = ks.last(); assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] != #[trigger] d[j] by { assert(d[i] == ks[i] && d[j] == ks[j]); } ksum_bump(d, f, g, g2, k, x);
    assert(g2(l) == g(l) + (if l == k { x } else { 0real }));
    if l == k { assert(ks[ks.len() - 1] == k); assert(ks.contains(k)); if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(ks[i] == k); assert(false); } }
    else { assert(ks.contains(k) == d.contains(k)) by { if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(d[i] == k); } if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(ks[i] == k); } } } } }
/// adding up the accounts one by one is adding up the postings
pub proof fn ksum_total(sp: Seq<Posting>, ks: Seq<Seq<char>>, f: Pred, c: Cid)
    requires all_diff(ks), ks_cover(ks, sp) ensures ksum(ks, f, |k: Seq<char>| ssum(sp, eqn(k), c)) == ssum(sp, f, c) decreases sp.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let g2 = |k: Seq<char>| ssum(sp, eqn(k), c);
  if sp.len() == 0 { ksum_none(ks, f, g2); } else { let d = sp.drop_last(); let p = sp.last(); let g = |k: Seq<char>| ssum(d, eqn(k), c); let k = p.account.name@;
    assert forall|i: int| 0 <= i < d.len() implies ks.contains((#[trigger] d[i]).account.name@) by { assert(d[i] == sp[i]); }
    ksum_total(d, ks, f, c); assert(ks.contains(k)) by { assert(sp[sp.len() - 1] == p); }
    ksum_bump(ks, f, g, g2, k, p.amount->0.at(c)); } }
pub proof fn ksum_remove(ks: Seq<Seq<char>>, i: int, f: Pred, g: Amts) requires 0 <= i < ks.len() ensures ksum(ks, f, g) == ksum(ks.remove(i), f, g) + (if f(ks[i]) { g(ks[i]) } else { 0real }) decreases ks.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if i == ks.len() - 1 { assert(ks.remove(i) =~= ks.drop_last()); } else { ksum_remove(ks.drop_last(), i, f, g); assert(ks.remove(i).drop_last() =~= ks.drop_last().remove(i)); assert(ks.remove(i).last() == ks.last()); assert(ks.drop_last()[i] == ks[i]); } }
pub open spec fn counts(f: Pred, g: Amts, k: Seq<char>) -> bool { f(k) && g(k) != 0real }
/// the order does not matter, nor what is zero
pub proof fn ksum_same(a: Seq<Seq<char>>, b: Seq<Seq<char>>, f: Pred, g: Amts)
    requires all_diff(a), all_diff(b), forall|k: Seq<char>| #[trigger] counts(f, g, k) ==> a.contains(k) == b.contains(k) ensures ksum(a, f, g) == ksum(b, f, g) decreases a.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if a.len() == 0 { assert forall|i: int| 0 <= i < b.len() implies !f(#[trigger] b[i]) || g(b[i]) == 0real by { if counts(f, g, b[i]) { assert(b.contains(b[i])); } } ksum_none(b, f, g); }
  else { let d = a.drop_last(); let k = a.last(); assert(all_diff(d)); assert(a[a.len() - 1] == k);
    assert(!d.contains(k)) by { if d.contains(k) { let i = choose|i: int| 0 <= i < d.len() && d[i] == k; assert(a[i] == k); } }
    if counts(f, g, k) { assert(a.contains(k)); let i = choose|i: int| 0 <= i < b.len() && b[i] == k; let e = b.remove(i); ksum_remove(b, i, f, g);
      assert forall|x: int, y: int| 0 <= x < y < e.len() implies #[trigger] e[x] != #[trigger] e[y] by { let x2 = if x < i { x } else { x + 1 }; let y2 = if y < i { y } else { y + 1 }; assert(e[x] == b[x2] && e[y] == b[y2]); }
      assert forall|q: Seq<char>| #[trigger] counts(f, g, q) implies d.contains(q) == e.contains(q) by { if q == k { if e.contains(k) { let x = choose|x: int| 0 <= x < e.len() && e[x] == k; let x2 = if x < i { x } else { x + 1 }; assert(b[x2] == k); assert(b[i] == k); assert(false); } }
        else { assert(a.contains(q) == b.contains(q)); if d.contains(q) { let x = choose|x: int| 0 <= x < d.len() && d[x] == q; assert(a[x] == q); let y = choose|y: int| 0 <= y < b.len() && b[y] == q; let y2 = if y < i { y } else { y - 1 }; assert(e[y2] == q); }
          if e.contains(q) { let x = choose|x: int| 0 <= x < e.len() && e[x] == q; let x2 = if x < i { x } else { x + 1 }; assert(b[x2] == q); let y = choose|y: int| 0 <= y < a.len() && a[y] == q; assert(d[y] == q); } } }
      ksum_same(d, e, f, g); }
    else { assert forall|q: Seq<char>| #[trigger] counts(f, g, q) implies d.contains(q) == b.contains(q) by { assert(a.contains(q) == b.contains(q)); if a.contains(q) { let x = choose|x: int| 0 <= x < a.len() && a[x] == q; assert(d[x] == q); } if d.contains(q) { let x = choose|x: int| 0 <= x < d.len() && d[x] == q; assert(a[x] == q); } } ksum_same(d, b, f, g); } } }
// ---- the parts of a name
pub proof fn last_of_at(s: Seq<char>, c: char) ensures -1 <= last_of(s, c) < s.len(), last_of(s, c) >= 0 ==> s[last_of(s, c)] == c, forall|i: int| last_of(s, c) < i < s.len() ==> #[trigger] s[i] != c decreases s.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if s.len() > 0 && s.last() != c { last_of_at(s.drop_last(), c); assert forall|i: int| last_of(s, c) < i < s.len() implies #[trigger] s[i] != c by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } }
pub proof fn joined_ext(p: Seq<Seq<char>>, q: Seq<Seq<char>>, n: int) requires 0 <= n <= p.len(), n <= q.len(), forall|i: int| 0 <= i < n ==> p[i] == q[i] ensures joined(p, n) == joined(q, n) decreases n { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if n > 1 { joined_ext(p, q, n - 1); } }
/// putting the parts together gives the name
pub proof fn joined_parts(s: Seq<char>) ensures joined(parts(s), parts(s).len() as int) == s, parts(s).len() >= 1 decreases s.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); last_of_at(s, ':'); let k = last_of(s, ':'); if 0 <= k < s.len() { joined_parts(s.take(k)); let p = parts(s.take(k)); joined_ext(p, parts(s), p.len() as int); assert(s =~= s.take(k).push(':') + s.skip(k + 1)); reveal_with_fuel(joined, 2); } }
/// where a name goes on with ':', the part before is its first parts
pub proof fn level_of(n: Seq<char>, s: Seq<char>) requires is_prefix(n.push(':'), s) ensures parts(n).len() < parts(s).len(), joined(parts(s), parts(n).len() as int) == n decreases s.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); last_of_at(s, ':'); let k = last_of(s, ':'); let m = n.len() as int; let pre = n.push(':'); assert(s.take(m + 1)[m] == ':'); assert(s[m] == ':'); assert(m <= k); let t = s.take(k); let p = parts(t);
  assert(s.take(m + 1) == pre); assert(s.take(m) =~= n) by { assert forall|i: int| 0 <= i < m implies s[i] == n[i] by { assert(s.take(m + 1)[i] == pre[i]); } }
  if m == k { joined_parts(n); joined_ext(p, parts(s), p.len() as int); }
  else { assert(t.take(m + 1) =~= pre) by { assert forall|i: int| 0 <= i < m + 1 implies t[i] == pre[i] by { assert(s.take(m + 1)[i] == pre[i]); } } assert(is_prefix(pre, t)); level_of(n, t); joined_ext(p, parts(s), parts(n).len() as int); } }
// ---- account by account
pub type Accs = Map<Seq<char>, (Rc<Account>, Balance)>;
pub type Names2<'a> = Map<Seq<char>, (&'a str, Balance)>;
#[verifier::opaque] pub open spec fn holds_sum(b: Balance, sp: Seq<Posting>, f: Pred) -> bool { b.wf() && b.clean() && forall|c: Cid| #[trigger] b.amt(c) == ssum(sp, f, c) }
#[verifier::opaque] pub open spec fn own_ok(m: Accs, sp: Seq<Posting>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> holds_sum(m[k].1, sp, eqn(k))
    &&& forall|i: int| 0 <= i < sp.len() ==> m.dom().contains((#[trigger] sp[i]).account.name@)
}
pub proof fn own_step(m: Accs, m2: Accs, sp: Seq<Posting>, p: Posting, b: Balance)
    requires own_ok(m, sp), m2.dom() == m.dom().insert(p.account.name@), m2[p.account.name@].1 == b, forall|k: Seq<char>| k != p.account.name@ ==> #[trigger] m2[k] == m[k],
      b.wf(), b.clean(), forall|c: Cid| #[trigger] b.amt(c) == (if m.dom().contains(p.account.name@) { m[p.account.name@].1.amt(c) } else { 0real }) + p.amount->0.at(c)
    ensures own_ok(m2, sp.push(p))
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let n = p.account.name@; let s2 = sp.push(p);
  assert forall|k: Seq<char>| #[trigger] m2.dom().contains(k) implies holds_sum(m2[k].1, s2, eqn(k)) by {
    assert forall|c: Cid| #[trigger] m2[k].1.amt(c) == ssum(s2, eqn(k), c) by { ssum_push(sp, p, eqn(k), c);
      if m.dom().contains(k) { assert(holds_sum(m[k].1, sp, eqn(k))); assert(m[k].1.amt(c) == ssum(sp, eqn(k), c)); }
      else { assert forall|i: int| 0 <= i < sp.len() implies !eqn(k)((#[trigger] sp[i]).account.name@) by { assert(m.dom().contains(sp[i].account.name@)); } ssum_none(sp, eqn(k), c); }
      if k != n { assert(m2[k] == m[k]); } }
    if k != n { assert(m2[k] == m[k]); assert(holds_sum(m[k].1, sp, eqn(k))); } }
  assert forall|i: int| 0 <= i < s2.len() implies m2.dom().contains((#[trigger] s2[i]).account.name@) by { if i < sp.len() { assert(s2[i] == sp[i]); } } }
/// ks lists the names in the first n of all, those without a balance left out
#[verifier::opaque] pub open spec fn nz_kept(ks: Seq<Seq<char>>, all: Seq<Seq<char>>, n: int, b: spec_fn(Seq<char>) -> Balance) -> bool {
    &&& all_diff(ks)
    &&& forall|i: int| 0 <= i < ks.len() ==> !b(#[trigger] ks[i]).zero() && exists|j: int| 0 <= j < n && #[trigger] all[j] == ks[i]
    &&& forall|j: int| 0 <= j < n && !b(#[trigger] all[j]).zero() ==> ks.contains(all[j])
}
pub proof fn nz_step(ks: Seq<Seq<char>>, all: Seq<Seq<char>>, n: int, b: spec_fn(Seq<char>) -> Balance)
    requires nz_kept(ks, all, n, b), all_diff(all), 0 <= n < all.len() ensures b(all[n]).zero() ==> nz_kept(ks, all, n + 1, b), !b(all[n]).zero() ==> nz_kept(ks.push(all[n]), all, n + 1, b)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if b(all[n]).zero() { assert forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() implies exists|j: int| 0 <= j < n + 1 && #[trigger] all[j] == ks[i] by { let j = choose|j: int| 0 <= j < n && #[trigger] all[j] == ks[i]; assert(all[j] == ks[i]); } }
  else { let k2 = ks.push(all[n]);
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] != all[n] by { let j = choose|j: int| 0 <= j < n && #[trigger] all[j] == ks[i]; assert(all[j] != all[n]); }
    assert forall|i: int, j: int| 0 <= i < j < k2.len() implies #[trigger] k2[i] != #[trigger] k2[j] by { assert(k2[i] == ks[i]); if j < ks.len() { assert(k2[j] == ks[j]); } }
    assert forall|i: int| 0 <= i < k2.len() implies !b(#[trigger] k2[i]).zero() && exists|j: int| 0 <= j < n + 1 && #[trigger] all[j] == k2[i] by { if i < ks.len() { assert(k2[i] == ks[i]); let j = choose|j: int| 0 <= j < n && #[trigger] all[j] == ks[i]; assert(all[j] == k2[i]); } else { assert(all[n] == k2[i]); } }
    assert forall|j: int| 0 <= j < n + 1 && !b(#[trigger] all[j]).zero() implies k2.contains(all[j]) by { if j < n { assert(ks.contains(all[j])); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == all[j]; assert(k2[i] == all[j]); } else { assert(k2[ks.len() as int] == all[n]); } } } }
pub open spec fn knames<K: KeyId<Id = Seq<char>>>(it: Seq<(&K, &Balance)>) -> Seq<Seq<char>> { Seq::new(it.len(), |i: int| it[i].0.kid()) }
pub open spec fn bal_of<K>(m: Map<Seq<char>, (K, Balance)>) -> spec_fn(Seq<char>) -> Balance { |k: Seq<char>| m[k].1 }
pub open spec fn amt_of<K>(m: Map<Seq<char>, (K, Balance)>, c: Cid) -> Amts { |k: Seq<char>| m[k].1.amt(c) }
/// the entries of a map give each sum, whatever their order and whether or not empty accounts are there
pub proof fn map_total<K: KeyId<Id = Seq<char>>>(it: Seq<(&K, &Balance)>, m: Map<Seq<char>, (K, Balance)>, sp: Seq<Posting>, f: Pred, c: Cid)
    requires enumerates(it, m), forall|i: int| 0 <= i < sp.len() ==> m.dom().contains((#[trigger] sp[i]).account.name@), forall|k: Seq<char>| #[trigger] m.dom().contains(k) && f(k) ==> m[k].1.amt(c) == ssum(sp, eqn(k), c)
    ensures ksum(knames(it), f, amt_of(m, c)) == ssum(sp, f, c), all_diff(knames(it))
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let ks = knames(it); let g = |k: Seq<char>| ssum(sp, eqn(k), c);
  assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] ks[i] != #[trigger] ks[j] by { assert(it[i].0.kid() != it[j].0.kid()); }
  assert forall|i: int| 0 <= i < sp.len() implies ks.contains((#[trigger] sp[i]).account.name@) by { let k = sp[i].account.name@; assert(m.dom().contains(k)); let j = choose|j: int| 0 <= j < it.len() && (#[trigger] it[j]).0.kid() == k; assert(ks[j] == k); }
  ksum_total(sp, ks, f, c);
  assert forall|i: int| 0 <= i < ks.len() implies (f(#[trigger] ks[i]) ==> amt_of(m, c)(ks[i]) == g(ks[i])) by { assert(m.dom().contains(it[i].0.kid())); }
  ksum_ext(ks, f, f, amt_of(m, c), g); }
// ---- the lines before they are converted and printed
pub type Line<'a> = (&'a str, Balance);
/// each line gives its sum, and no name with a sum is missing
#[verifier::opaque] pub open spec fn lines_ok(v: Seq<Line>, sp: Seq<Posting>, flat: bool, depth: Option<usize>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0@ != (#[trigger] v[j]).0@
    &&& forall|i: int| 0 <= i < v.len() ==> holds_sum((#[trigger] v[i]).1, sp, fam(flat, depth, v[i].0@))
    &&& forall|n: Seq<char>, c: Cid| #[trigger] ssum(sp, fam(flat, depth, n), c) != 0real ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n
}
#[verifier::opaque] pub open spec fn lines_from<K>(v: Seq<Line>, ks: Seq<Seq<char>>, m: Map<Seq<char>, (K, Balance)>) -> bool { v.len() == ks.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0@ == ks[i] && v[i].1 == m[ks[i]].1 }
/// the accounts themselves
pub proof fn lines_flat(v: Seq<Line>, ks: Seq<Seq<char>>, it: Seq<(&Rc<Account>, &Balance)>, m: Accs, sp: Seq<Posting>)
    requires own_ok(m, sp), enumerates(it, m), nz_kept(ks, knames(it), it.len() as int, bal_of(m)), lines_from(v, ks, m) ensures lines_ok(v, sp, true, None)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let all = knames(it);
  assert forall|i: int| 0 <= i < v.len() implies holds_sum((#[trigger] v[i]).1, sp, fam(true, None, v[i].0@)) by { let j = choose|j: int| 0 <= j < it.len() && #[trigger] all[j] == ks[i]; assert(m.dom().contains(it[j].0.kid())); }
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0@ != (#[trigger] v[j]).0@ by { assert(ks[i] != ks[j]); }
  assert forall|n: Seq<char>, c: Cid| #[trigger] ssum(sp, fam(true, None, n), c) != 0real implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n by {
    let i = ssum_one(sp, eqn(n), c); assert(m.dom().contains(sp[i].account.name@)); assert(holds_sum(m[n].1, sp, eqn(n))); assert(m[n].1.amt(c) != 0real);
    let j = choose|j: int| 0 <= j < it.len() && (#[trigger] it[j]).0.kid() == n; assert(all[j] == n); assert(!bal_of(m)(all[j]).zero()); let x = choose|x: int| 0 <= x < ks.len() && ks[x] == n; assert(v[x].0@ == n); } }
/// every level above the account, and itself, is one of ls
#[verifier::opaque] pub open spec fn levels_in<V>(ls: Map<Seq<char>, V>, a: Seq<char>, n: int) -> bool { forall|i: int| 1 <= i <= n ==> ls.dom().contains(#[trigger] joined(parts(a), i)) }
#[verifier::opaque] pub open spec fn by_depth(vs: Seq<String>) -> bool { (forall|i: int, j: int| 0 <= i < j < vs.len() ==> (#[trigger] vs[i])@ != (#[trigger] vs[j])@) && forall|i: int, j: int| 0 <= i < j < vs.len() ==> parts((#[trigger] vs[i])@).len() <= parts((#[trigger] vs[j])@).len() }
pub open spec fn among(vs: Seq<String>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] vs[j])@ == k }
/// the first n names of vs hold the sum of their tree, the others their own
#[verifier::opaque] pub open spec fn tree_ok(nb: Names2, sp: Seq<Posting>, vs: Seq<String>, n: int) -> bool {
    &&& forall|k: Seq<char>| #[trigger] nb.dom().contains(k) ==> holds_sum(nb[k].1, sp, if among(vs, n, k) { under(k) } else { eqn(k) })
    &&& forall|i: int| 0 <= i < sp.len() ==> nb.dom().contains((#[trigger] sp[i]).account.name@)
    &&& forall|j: int| 0 <= j < n ==> nb.dom().contains((#[trigger] vs[j])@)
}
/// what the next name gets is the sum over its tree: nothing below it has been summed before
pub proof fn tree_sum(it: Seq<(&&str, &Balance)>, nb: Names2, sp: Seq<Posting>, vs: Seq<String>, n: int, c: Cid)
    requires tree_ok(nb, sp, vs, n), by_depth(vs), 0 <= n < vs.len(), enumerates(it, nb) ensures ksum(knames(it), under(vs[n]@), amt_of(nb, c)) == ssum(sp, under(vs[n]@), c)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let a = vs[n]@; assert forall|k: Seq<char>| #[trigger] nb.dom().contains(k) && under(a)(k) implies nb[k].1.amt(c) == ssum(sp, eqn(k), c) by {
    if among(vs, n, k) { let j = choose|j: int| 0 <= j < n && (#[trigger] vs[j])@ == k; assert(vs[j]@ != vs[n]@); level_of(a, k); assert(parts(vs[j]@).len() <= parts(vs[n]@).len()); assert(false); }
    assert(holds_sum(nb[k].1, sp, eqn(k))); }
  map_total(it, nb, sp, under(a), c); }
pub proof fn tree_step(nb: Names2, nb2: Names2, sp: Seq<Posting>, vs: Seq<String>, n: int, b: Balance)
    requires tree_ok(nb, sp, vs, n), by_depth(vs), 0 <= n < vs.len(), holds_sum(b, sp, under(vs[n]@)), nb2.dom() == nb.dom().insert(vs[n]@), nb2[vs[n]@].1 == b, forall|k: Seq<char>| k != vs[n]@ ==> #[trigger] nb2[k] == nb[k]
    ensures tree_ok(nb2, sp, vs, n + 1)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let a = vs[n]@; assert(among(vs, n + 1, a)) by { assert(vs[n]@ == a); }
  assert forall|k: Seq<char>| #[trigger] nb2.dom().contains(k) implies holds_sum(nb2[k].1, sp, if among(vs, n + 1, k) { under(k) } else { eqn(k) }) by {
    if k != a { assert(nb2[k] == nb[k]); assert(nb.dom().contains(k)); assert(among(vs, n, k) == among(vs, n + 1, k)) by { if among(vs, n + 1, k) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] vs[j])@ == k; assert(j < n); } if among(vs, n, k) { let j = choose|j: int| 0 <= j < n && (#[trigger] vs[j])@ == k; assert(vs[j]@ == k); } } } }
  assert forall|i: int| 0 <= i < sp.len() implies nb2.dom().contains((#[trigger] sp[i]).account.name@) by { assert(nb.dom().contains(sp[i].account.name@)); }
  assert forall|j: int| 0 <= j < n + 1 implies nb2.dom().contains((#[trigger] vs[j])@) by { if j < n { assert(nb.dom().contains(vs[j]@)); } } }
/// the tree: all levels of all accounts were summed
pub proof fn lines_tree(v: Seq<Line>, ks: Seq<Seq<char>>, it: Seq<(&&str, &Balance)>, nb: Names2, sp: Seq<Posting>, vs: Seq<String>, depth: Option<usize>)
    requires tree_ok(nb, sp, vs, vs.len() as int), enumerates(it, nb), nz_kept(ks, knames(it), it.len() as int, bal_of(nb)), lines_from(v, ks, nb), forall|k: Seq<char>| #[trigger] nb.dom().contains(k) ==> among(vs, vs.len() as int, k),
      forall|i: int, j: int| #![trigger joined(parts(sp[i].account.name@), j)] 0 <= i < sp.len() && 1 <= j <= parts(sp[i].account.name@).len() ==> among(vs, vs.len() as int, joined(parts(sp[i].account.name@), j))
    ensures lines_ok(v, sp, false, depth)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let all = knames(it);
  assert forall|i: int| 0 <= i < v.len() implies holds_sum((#[trigger] v[i]).1, sp, fam(false, depth, v[i].0@)) by { let j = choose|j: int| 0 <= j < it.len() && #[trigger] all[j] == ks[i]; assert(nb.dom().contains(it[j].0.kid())); }
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0@ != (#[trigger] v[j]).0@ by { assert(ks[i] != ks[j]); }
  assert forall|n: Seq<char>, c: Cid| #[trigger] ssum(sp, fam(false, depth, n), c) != 0real implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n by {
    let i = ssum_one(sp, under(n), c); let a = sp[i].account.name@; joined_parts(a); let q = if a == n { parts(a).len() as int } else { level_of(n, a); joined_parts(n); parts(n).len() as int }; assert(joined(parts(a), q) == n);
    assert(among(vs, vs.len() as int, n)); let y = choose|y: int| 0 <= y < vs.len() && (#[trigger] vs[y])@ == n; assert(nb.dom().contains(vs[y]@)); assert(holds_sum(nb[n].1, sp, under(n))); assert(nb[n].1.amt(c) != 0real);
    let j = choose|j: int| 0 <= j < it.len() && (#[trigger] it[j]).0.kid() == n; assert(all[j] == n); assert(!bal_of(nb)(all[j]).zero()); let x = choose|x: int| 0 <= x < ks.len() && ks[x] == n; assert(v[x].0@ == n); } }
/// names cut to d parts, in order of name, added up while the name stays the same
#[verifier::opaque] pub open spec fn cut_ok(t: Seq<(String, Balance)>, ks: Seq<Seq<char>>, m: Accs, d: int) -> bool {
    t.len() == ks.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0@ == folded(ks[i], d) && t[i].1 == m[ks[i]].1 && m.dom().contains(ks[i])
}
pub open spec fn cut_ord() -> spec_fn((String, Balance), (String, Balance)) -> Ordering { |a: (String, Balance), b: (String, Balance)| str_ord(a.0@, b.0@) }
pub open spec fn t_has(t: Seq<(String, Balance)>, n: int, k: Seq<char>) -> bool { exists|j: int| 0 <= j < n && (#[trigger] t[j]).0@ == k }
pub open spec fn has_line(v: Seq<Line>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == k }
#[verifier::opaque] pub open spec fn merged(v: Seq<Line>, t: Seq<(String, Balance)>, ks: Seq<Seq<char>>, n: int, m: Accs, d: int) -> bool {
    &&& v.len() == 0 <==> n == 0
    &&& n > 0 ==> v.last().0@ == t[n - 1].0@
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1.wf() && v[i].1.clean() && forall|c: Cid| #[trigger] v[i].1.amt(c) == ksum(ks.take(n), fold_to(v[i].0@, d), amt_of(m, c))
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] t_has(t, n, v[i].0@)
    &&& forall|j: int| 0 <= j < n ==> #[trigger] has_line(v, t[j].0@)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0@ != (#[trigger] v[j]).0@
}
#[verifier::opaque] pub open spec fn name_order(t: Seq<(String, Balance)>) -> bool { forall|i: int, j: int| 0 <= i < j < t.len() ==> str_lt((#[trigger] t[i]).0@, (#[trigger] t[j]).0@) || t[i].0@ == t[j].0@ }
pub proof fn cut_sorted(s: Seq<(String, Balance)>, t: Seq<(String, Balance)>, p: Seq<int>, ks: Seq<Seq<char>>, all: Seq<Seq<char>>, m: Accs, d: int) -> (k2: Seq<Seq<char>>)
    requires cut_ok(s, ks, m, d), sorted_from(s, t, p, cut_ord()), nz_kept(ks, all, all.len() as int, bal_of(m)) ensures cut_ok(t, k2, m, d), name_order(t), nz_kept(k2, all, all.len() as int, bal_of(m))
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let k2 = Seq::new(p.len(), |i: int| ks[p[i]]);
  assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0@ == folded(k2[i], d) && t[i].1 == m[k2[i]].1 && m.dom().contains(k2[i]) by { assert(t[i] == s[p[i]]); }
  assert forall|i: int, j: int| 0 <= i < j < k2.len() implies #[trigger] k2[i] != #[trigger] k2[j] by { assert(p[i] != p[j]); let a = p[i]; let b = p[j]; if a < b { assert(ks[a] != ks[b]); } else { assert(ks[b] != ks[a]); } }
  assert forall|i: int| 0 <= i < k2.len() implies !bal_of(m)(#[trigger] k2[i]).zero() && exists|j: int| 0 <= j < all.len() && #[trigger] all[j] == k2[i] by { let a = p[i]; assert(ks[a] == k2[i]); }
  assert forall|j: int| 0 <= j < all.len() && !bal_of(m)(#[trigger] all[j]).zero() implies k2.contains(all[j]) by { assert(ks.contains(all[j])); let x = choose|x: int| 0 <= x < ks.len() && ks[x] == all[j]; assert(p.contains(x)); let y = choose|y: int| 0 <= y < p.len() && p[y] == x; assert(k2[y] == all[j]); }
  assert forall|i: int, j: int| 0 <= i < j < t.len() implies str_lt((#[trigger] t[i]).0@, (#[trigger] t[j]).0@) || t[i].0@ == t[j].0@ by { let o = cut_ord()(t[i], t[j]); }
  k2 }
pub proof fn take_sum(ks: Seq<Seq<char>>, n: int, f: Pred, g: Amts) requires 0 <= n < ks.len() ensures ksum(ks.take(n + 1), f, g) == ksum(ks.take(n), f, g) + (if f(ks[n]) { g(ks[n]) } else { 0real }) { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert(ks.take(n + 1) =~= ks.take(n).push(ks[n])); ksum_push(ks.take(n), ks[n], f, g); }
pub proof fn merge_new(v: Seq<Line>, t: Seq<(String, Balance)>, ks: Seq<Seq<char>>, n: int, m: Accs, d: int, x: Line)
    requires merged(v, t, ks, n, m, d), cut_ok(t, ks, m, d), name_order(t), 0 <= n < t.len(), n == 0 || t[n].0@ != t[n - 1].0@, x.0@ == t[n].0@, x.1 == t[n].1, x.1.wf(), x.1.clean() ensures merged(v.push(x), t, ks, n + 1, m, d)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let w = v.push(x); broadcast use str_total; broadcast use str_trans;
  assert forall|j: int| 0 <= j < n implies (#[trigger] t[j]).0@ != t[n].0@ by { if j < n - 1 { let q = t[n - 1]; assert(str_lt(t[j].0@, q.0@) || t[j].0@ == q.0@); } }
  assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).1.wf() && w[i].1.clean() && forall|c: Cid| #[trigger] w[i].1.amt(c) == ksum(ks.take(n + 1), fold_to(w[i].0@, d), amt_of(m, c)) by {
    assert forall|c: Cid| #[trigger] w[i].1.amt(c) == ksum(ks.take(n + 1), fold_to(w[i].0@, d), amt_of(m, c)) by { let f = fold_to(w[i].0@, d); take_sum(ks, n, f, amt_of(m, c));
      if i < v.len() { assert(w[i] == v[i]); let j = { assert(t_has(t, n, v[i].0@)); choose|j: int| 0 <= j < n && (#[trigger] t[j]).0@ == v[i].0@ }; assert(t[n].0@ == folded(ks[n], d)); assert(!f(ks[n])); assert(v[i].1.amt(c) == ksum(ks.take(n), f, amt_of(m, c))); }
      else { let k1 = ks.take(n); assert forall|j: int| 0 <= j < k1.len() implies !f(#[trigger] k1[j]) || amt_of(m, c)(k1[j]) == 0real by { assert(k1[j] == ks[j]); assert(t[j].0@ == folded(ks[j], d)); } ksum_none(k1, f, amt_of(m, c)); assert(t[n].0@ == folded(ks[n], d)); } }
    if i < v.len() { assert(w[i] == v[i]); } }
  assert forall|i: int| 0 <= i < w.len() implies #[trigger] t_has(t, n + 1, w[i].0@) by { if i < v.len() { assert(w[i] == v[i]); let j = { assert(t_has(t, n, v[i].0@)); choose|j: int| 0 <= j < n && (#[trigger] t[j]).0@ == v[i].0@ }; assert(t[j].0@ == w[i].0@); } else { assert(t[n].0@ == w[i].0@); } }
  assert forall|j: int| 0 <= j < n + 1 implies #[trigger] has_line(w, t[j].0@) by { if j < n { let i = { assert(has_line(v, t[j].0@)); choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == t[j].0@ }; assert(w[i].0@ == t[j].0@); } else { assert(w[v.len() as int].0@ == t[j].0@); } }
  assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).0@ != (#[trigger] w[j]).0@ by { assert(w[i] == v[i]); if j < v.len() { assert(w[j] == v[j]); } else { let q = { assert(t_has(t, n, v[i].0@)); choose|q: int| 0 <= q < n && (#[trigger] t[q]).0@ == v[i].0@ }; } } }
pub proof fn merge_same(v: Seq<Line>, t: Seq<(String, Balance)>, ks: Seq<Seq<char>>, n: int, m: Accs, d: int, x: Line)
    requires merged(v, t, ks, n, m, d), cut_ok(t, ks, m, d), 0 < n < t.len(), t[n].0@ == t[n - 1].0@, x.0@ == t[n].0@, x.1.wf(), x.1.clean(), forall|c: Cid| #[trigger] x.1.amt(c) == v.last().1.amt(c) + t[n].1.amt(c) ensures merged(v.update(v.len() - 1, x), t, ks, n + 1, m, d)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let l = v.len() - 1; let w = v.update(l, x);
  assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).0@ == v[i].0@ by {}
  assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).1.wf() && w[i].1.clean() && forall|c: Cid| #[trigger] w[i].1.amt(c) == ksum(ks.take(n + 1), fold_to(w[i].0@, d), amt_of(m, c)) by {
    assert forall|c: Cid| #[trigger] w[i].1.amt(c) == ksum(ks.take(n + 1), fold_to(w[i].0@, d), amt_of(m, c)) by { let f = fold_to(w[i].0@, d); take_sum(ks, n, f, amt_of(m, c)); assert(t[n].0@ == folded(ks[n], d)); assert(v[i].1.amt(c) == ksum(ks.take(n), f, amt_of(m, c)));
      if i < l { assert(w[i] == v[i]); assert(v[i].0@ != v[l].0@); assert(!f(ks[n])); } }
    if i < l { assert(w[i] == v[i]); } }
  assert forall|i: int| 0 <= i < w.len() implies #[trigger] t_has(t, n + 1, w[i].0@) by { let j = { assert(t_has(t, n, v[i].0@)); choose|j: int| 0 <= j < n && (#[trigger] t[j]).0@ == v[i].0@ }; assert(t[j].0@ == w[i].0@); }
  assert forall|j: int| 0 <= j < n + 1 implies #[trigger] has_line(w, t[j].0@) by { if j < n { let i = { assert(has_line(v, t[j].0@)); choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == t[j].0@ }; assert(w[i].0@ == t[j].0@); } else { assert(w[l].0@ == t[j].0@); } } }
pub proof fn lines_cut(v: Seq<Line>, t: Seq<(String, Balance)>, ks: Seq<Seq<char>>, it: Seq<(&Rc<Account>, &Balance)>, m: Accs, sp: Seq<Posting>, d: usize)
    requires own_ok(m, sp), enumerates(it, m), nz_kept(ks, knames(it), it.len() as int, bal_of(m)), cut_ok(t, ks, m, d as int), merged(v, t, ks, t.len() as int, m, d as int) ensures lines_ok(v, sp, true, Some(d))
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let all = knames(it); let di = d as int; assert(ks.take(ks.len() as int) =~= ks);
  assert forall|n: Seq<char>, c: Cid| #[trigger] ssum(sp, fold_to(n, di), c) == ksum(ks, fold_to(n, di), amt_of(m, c)) by { let f = fold_to(n, di); let g = amt_of(m, c);
    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) && f(k) implies m[k].1.amt(c) == ssum(sp, eqn(k), c) by { assert(holds_sum(m[k].1, sp, eqn(k))); }
    map_total(it, m, sp, f, c);
    assert forall|k: Seq<char>| #[trigger] counts(f, g, k) implies ks.contains(k) == all.contains(k) by { if ks.contains(k) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; let j = choose|j: int| 0 <= j < it.len() && #[trigger] all[j] == ks[i]; assert(all[j] == k); }
      if all.contains(k) { let j = choose|j: int| 0 <= j < all.len() && all[j] == k; assert(m[k].1.amt(c) != 0real); assert(!bal_of(m)(all[j]).zero()); } }
    ksum_same(ks, all, f, g); }
  assert forall|i: int| 0 <= i < v.len() implies holds_sum((#[trigger] v[i]).1, sp, fam(true, Some(d), v[i].0@)) by { assert forall|c: Cid| #[trigger] v[i].1.amt(c) == ssum(sp, fold_to(v[i].0@, di), c) by {} }
  assert forall|n: Seq<char>, c: Cid| #[trigger] ssum(sp, fam(true, Some(d), n), c) != 0real implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == n by { let f = fold_to(n, di); let g = amt_of(m, c);
    assert(ssum(sp, fold_to(n, di), c) == ksum(ks, fold_to(n, di), amt_of(m, c)));
    if forall|i: int| 0 <= i < ks.len() ==> !f(#[trigger] ks[i]) || g(ks[i]) == 0real { ksum_none(ks, f, g); }
    let i = choose|i: int| 0 <= i < ks.len() && f(#[trigger] ks[i]); assert(t[i].0@ == n); let y = { assert(has_line(v, t[i].0@)); choose|y: int| 0 <= y < v.len() && (#[trigger] v[y]).0@ == t[i].0@ }; assert(v[y].0@ == n); } }
// ---- conversion
pub type Xch = Option<(Rates, Seq<char>)>;
/// b is what is shown for the balance a
#[verifier::opaque] pub open spec fn turned(a: Balance, b: Balance, x: Xch) -> bool { b.wf() && b.clean() && match x {
    None => forall|c: Cid| #[trigger] b.amt(c) == a.amt(c),
    Some(r) => (r.0.dom().len() == 0 && forall|c: Cid| #[trigger] b.amt(c) == a.amt(c)) || exists|s: Seq<(&Option<Rc<Currency>>, &Money)>| #[trigger] enumerates(s, a.balance@) && forall|c: Cid| #[trigger] b.amt(c) == worths(s, s.len() as int, r.0, r.1, c) } }
/// the rates of --exchange: today's, to the currency asked for
#[verifier::opaque] pub open spec fn rate_ok(o: CommonOpts, l: Ledger, x: Xch) -> bool { match x {
    None => o.exchange is None || l.commodities.find(o.exchange->0@) is None,
    Some(r) => o.exchange is Some && rates(l.prices@, today(), r.1, r.0) && (l.commodities.find(o.exchange->0@) is Some ==> r.1 == l.commodities.find(o.exchange->0@)->0.kid()) } }
pub open spec fn owned<'a>(v: Seq<Line<'a>>, own: Seq<Balance>) -> Seq<Line<'a>> { Seq::new(v.len(), |i: int| (v[i].0, own[i])) }
/// the lines as they are printed, in order of name
#[verifier::opaque] pub open spec fn final_ok(v: Seq<Line>, own: Seq<Balance>, sp: Seq<Posting>, flat: bool, depth: Option<usize>, x: Xch) -> bool {
    &&& own.len() == v.len() && lines_ok(owned(v, own), sp, flat, depth)
    &&& forall|i: int| 0 <= i < v.len() ==> turned(#[trigger] own[i], v[i].1, x)
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> str_lt((#[trigger] v[i]).0@, (#[trigger] v[j]).0@)
}
#[verifier::opaque] pub open spec fn turns(v: Seq<Line>, w: Seq<Line>, n: int, x: Xch) -> bool { w.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] w[i]).0@ == v[i].0@ && turned(v[i].1, w[i].1, x) }
pub open spec fn line_ord<'a>() -> spec_fn(Line<'a>, Line<'a>) -> Ordering { |a: Line<'a>, b: Line<'a>| str_ord(a.0@, b.0@) }
pub proof fn final_sorted(v: Seq<Line>, w: Seq<Line>, z: Seq<Line>, p: Seq<int>, sp: Seq<Posting>, flat: bool, depth: Option<usize>, x: Xch) -> (own: Seq<Balance>)
    requires lines_ok(v, sp, flat, depth), turns(v, w, v.len() as int, x), sorted_from(w, z, p, line_ord()) ensures final_ok(z, own, sp, flat, depth, x)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let own = Seq::new(p.len(), |i: int| v[p[i]].1); let u = owned(z, own); broadcast use str_total;
  assert forall|i: int| 0 <= i < z.len() implies (#[trigger] z[i]).0@ == v[p[i]].0@ && turned(own[i], z[i].1, x) && u[i].0@ == v[p[i]].0@ && u[i].1 == v[p[i]].1 by { assert(z[i] == w[p[i]]); }
  assert forall|i: int| 0 <= i < z.len() implies turned(#[trigger] own[i], z[i].1, x) by { assert(z[i] == w[p[i]]); }
  assert forall|i: int, j: int| 0 <= i < j < z.len() implies (#[trigger] z[i]).0@ != (#[trigger] z[j]).0@ by { assert(p[i] != p[j]); let a = p[i]; let b = p[j]; if a < b { assert(v[a].0@ != v[b].0@); } else { assert(v[b].0@ != v[a].0@); } }
  assert forall|i: int, j: int| 0 <= i < j < z.len() implies str_lt((#[trigger] z[i]).0@, (#[trigger] z[j]).0@) by { let o = line_ord()(z[i], z[j]); }
  assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).0@ != (#[trigger] u[j]).0@ by { assert(z[i].0@ != z[j].0@); }
  assert forall|i: int| 0 <= i < u.len() implies holds_sum((#[trigger] u[i]).1, sp, fam(flat, depth, u[i].0@)) by { assert(z[i].0@ == v[p[i]].0@); let a = p[i]; assert(holds_sum(v[a].1, sp, fam(flat, depth, v[a].0@))); }
  assert forall|n: Seq<char>, c: Cid| #[trigger] ssum(sp, fam(flat, depth, n), c) != 0real implies exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).0@ == n by { let a = choose|a: int| 0 <= a < v.len() && (#[trigger] v[a]).0@ == n; assert(p.contains(a)); let i = choose|i: int| 0 <= i < p.len() && p[i] == a; assert(z[i].0@ == v[p[i]].0@); assert(u[i].0@ == n); }
  own }
// ---- what is printed
/// a printed row: the lines a up to b, and the amounts beside it
pub struct BRow { pub a: int, pub b: int, pub shown: Seq<Money> }
pub open spec fn nparts(s: Seq<char>) -> int { parts(s).len() as int }
pub open spec fn too_deep(depth: Option<usize>, n: int) -> bool { depth is Some && n > depth->0 }
#[verifier::opaque] pub open spec fn skips(v: Seq<Line>, depth: Option<usize>, j: int) -> bool { v[j].1.zero() || too_deep(depth, nparts(v[j].0@)) }
/// the line j goes on the row that started with line a: it is the child of the line before, with the same balance
#[verifier::opaque] pub open spec fn chained(v: Seq<Line>, depth: Option<usize>, a: int, j: int) -> bool {
    nparts(v[j].0@) == nparts(v[j - 1].0@) + 1 && is_prefix(v[j - 1].0@.push(':'), v[j].0@) && !too_deep(depth, nparts(v[j].0@)) && forall|c: Cid| #[trigger] v[j].1.amt(c) == v[a].1.amt(c)
}
pub open spec fn amts(b: Balance) -> spec_fn(Cid) -> real { |c: Cid| b.amt(c) }
#[verifier::opaque] pub open spec fn brow_ok(v: Seq<Line>, flat: bool, depth: Option<usize>, r: BRow) -> bool {
    0 <= r.a < r.b <= v.len() && !skips(v, depth, r.a) && shows(r.shown, amts(v[r.a].1)) && (flat ==> r.b == r.a + 1) && forall|j: int| r.a < j < r.b ==> #[trigger] chained(v, depth, r.a, j)
}
/// the rows stand for every line but those that are zero or too deep
#[verifier::opaque] pub open spec fn rows_ok(v: Seq<Line>, flat: bool, depth: Option<usize>, rows: Seq<BRow>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < rows.len() ==> brow_ok(v, flat, depth, #[trigger] rows[i]) && rows[i].b <= n
    &&& forall|i: int, j: int| 0 <= i < j < rows.len() ==> (#[trigger] rows[i]).b <= (#[trigger] rows[j]).a
    &&& forall|j: int| 0 <= j < n ==> #[trigger] skips(v, depth, j) || exists|i: int| 0 <= i < rows.len() && (#[trigger] rows[i]).a <= j < rows[i].b
}
pub proof fn rows_skip(v: Seq<Line>, flat: bool, depth: Option<usize>, rows: Seq<BRow>, n: int) requires rows_ok(v, flat, depth, rows, n), 0 <= n < v.len(), skips(v, depth, n) ensures rows_ok(v, flat, depth, rows, n + 1) { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok);}
pub proof fn rows_add(v: Seq<Line>, flat: bool, depth: Option<usize>, rows: Seq<BRow>, n: int, r: BRow) requires rows_ok(v, flat, depth, rows, n), r.a == n, brow_ok(v, flat, depth, r) ensures rows_ok(v, flat, depth, rows.push(r), r.b)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let q = rows.push(r); assert forall|i: int| 0 <= i < q.len() implies brow_ok(v, flat, depth, #[trigger] q[i]) && q[i].b <= r.b by { if i < rows.len() { assert(q[i] == rows[i]); } }
  assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).b <= (#[trigger] q[j]).a by { assert(q[i] == rows[i]); if j < rows.len() { assert(q[j] == rows[j]); } }
  assert forall|j: int| 0 <= j < r.b implies #[trigger] skips(v, depth, j) || exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).a <= j < q[i].b by { if j < n { if !skips(v, depth, j) { let i = choose|i: int| 0 <= i < rows.len() && (#[trigger] rows[i]).a <= j < rows[i].b; assert(q[i] == rows[i]); } } else { assert(q[rows.len() as int].a <= j < q[rows.len() as int].b); } } }
#[verifier::opaque] pub open spec fn amount_lines(v: Seq<Money>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { (amount_lines(v, n - 1) + (if n > 1 { seq!['\n'] } else { Seq::empty() })) + padr(money_text(v[n - 1]), 20) } }
#[verifier::opaque] pub open spec fn indent(n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { indent(n - 1) + "  "@ } }
#[verifier::opaque] pub open spec fn row_name(v: Seq<Line>, a: int, b: int) -> Seq<char> decreases b - a { if b <= a + 1 { parts(v[a].0@).last() } else { row_name(v, a, b - 1).push(':') + parts(v[b - 1].0@).last() } }
pub open spec fn brow_name(v: Seq<Line>, flat: bool, r: BRow) -> Seq<char> { if flat { ("  "@ + v[r.a].0@).push('\n') } else { (indent(nparts(v[r.a].0@)) + row_name(v, r.a, r.b)).push('\n') } }
#[verifier::opaque] pub open spec fn brow_text(v: Seq<Line>, flat: bool, r: BRow) -> Seq<char> { amount_lines(r.shown, r.shown.len() as int) + brow_name(v, flat, r) }
#[verifier::opaque] pub open spec fn brows_text(v: Seq<Line>, flat: bool, rows: Seq<BRow>) -> Seq<char> decreases rows.len() { if rows.len() == 0 { Seq::empty() } else { brows_text(v, flat, rows.drop_last()) + brow_text(v, flat, rows.last()) } }
#[verifier::opaque] pub open spec fn total_amounts(v: Seq<Money>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { total_amounts(v, n - 1) + ("\n"@ + padr(money_text(v[n - 1]), 20)) } }
pub struct Total { pub own: Balance, pub bal: Balance, pub shown: Seq<Money> }
#[verifier::opaque] pub open spec fn total_text(t: Total) -> Seq<char> { ("--------------------"@ + (if t.bal.zero() { "\n"@ + padr("0"@, 20) } else { total_amounts(t.shown, t.shown.len() as int) })).push('\n') }
pub open spec fn total_ok(t: Total, sp: Seq<Posting>, x: Xch) -> bool { holds_sum(t.own, sp, anyn()) && turned(t.own, t.bal, x) && (t.bal.zero() || shows(t.shown, amts(t.bal))) }
pub struct Report<'a> { pub sel: Seq<Seq<bool>>, pub x: Xch, pub v: Seq<Line<'a>>, pub own: Seq<Balance>, pub rows: Seq<BRow>, pub total: Total }
#[verifier::opaque] pub open spec fn report_ok(o: CommonOpts, flat: bool, show: bool, l: Ledger, g: Report) -> bool {
    let sp = all_picked(l.transactions@, g.sel, l.transactions@.len() as int);
    &&& all_sel(o, l.transactions@, g.sel) && rate_ok(o, l, g.x)
    &&& final_ok(g.v, g.own, sp, flat, o.depth, g.x)
    &&& rows_ok(g.v, flat, o.depth, g.rows, g.v.len() as int)
    &&& (show && g.rows.len() > 1 ==> total_ok(g.total, sp, g.x))
}
pub open spec fn report_text(flat: bool, show: bool, g: Report) -> Seq<char> { brows_text(g.v, flat, g.rows) + (if show && g.rows.len() > 1 { total_text(g.total) } else { Seq::empty() }) }
pub proof fn picked_ext(ps: Seq<Posting>, s: Seq<bool>, s2: Seq<bool>, n: int) requires forall|i: int| 0 <= i < n ==> s[i] == s2[i] ensures picked(ps, s, n) == picked(ps, s2, n) decreases n { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if n > 0 { picked_ext(ps, s, s2, n - 1); } }
pub proof fn all_picked_ext(ts: Seq<Transaction<Posting>>, s: Seq<Seq<bool>>, s2: Seq<Seq<bool>>, n: int) requires forall|i: int| 0 <= i < n ==> s[i] == s2[i] ensures all_picked(ts, s, n) == all_picked(ts, s2, n) decreases n { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); if n > 0 { all_picked_ext(ts, s, s2, n - 1); } }
pub proof fn own_at(m: Accs, sp: Seq<Posting>, k: Seq<char>) requires own_ok(m, sp), m.dom().contains(k) ensures m[k].1.wf(), m[k].1.clean(), holds_sum(m[k].1, sp, eqn(k)) { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert(holds_sum(m[k].1, sp, eqn(k))); }
pub proof fn tree_at(nb: Names2, sp: Seq<Posting>, vs: Seq<String>, n: int, k: Seq<char>) requires tree_ok(nb, sp, vs, n), nb.dom().contains(k) ensures nb[k].1.wf(), nb[k].1.clean() { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert(holds_sum(nb[k].1, sp, if among(vs, n, k) { under(k) } else { eqn(k) })); }
pub proof fn lines_at(v: Seq<Line>, sp: Seq<Posting>, flat: bool, depth: Option<usize>, i: int) requires lines_ok(v, sp, flat, depth), 0 <= i < v.len() ensures v[i].1.wf(), v[i].1.clean() { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert(holds_sum(v[i].1, sp, fam(flat, depth, v[i].0@))); }
pub proof fn final_at(v: Seq<Line>, own: Seq<Balance>, sp: Seq<Posting>, flat: bool, depth: Option<usize>, x: Xch, i: int) requires final_ok(v, own, sp, flat, depth, x), 0 <= i < v.len() ensures v[i].1.wf(), v[i].1.clean() { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert(turned(own[i], v[i].1, x)); }
pub proof fn same_turned(v: Seq<Line>, sp: Seq<Posting>, flat: bool, depth: Option<usize>) requires lines_ok(v, sp, flat, depth) ensures turns(v, v, v.len() as int, None) { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).0@ == v[i].0@ && turned(v[i].1, v[i].1, None) by { lines_at(v, sp, flat, depth, i); } }
pub proof fn cut_at(t: Seq<(String, Balance)>, ks: Seq<Seq<char>>, m: Accs, sp: Seq<Posting>, d: int, n: int) requires cut_ok(t, ks, m, d), own_ok(m, sp), 0 <= n < t.len() ensures t[n].1.wf(), t[n].1.clean() { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert(t[n].1 == m[ks[n]].1); own_at(m, sp, ks[n]); }
pub proof fn merged_at(v: Seq<Line>, t: Seq<(String, Balance)>, ks: Seq<Seq<char>>, n: int, m: Accs, d: int) requires merged(v, t, ks, n, m, d) ensures v.len() == 0 <==> n == 0, forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1.wf(), n > 0 ==> v.last().0@ == t[n - 1].0@ { reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok);}
pub proof fn names_diff<K: KeyId<Id = Seq<char>>>(it: Seq<(&K, &Balance)>, m: Map<Seq<char>, (K, Balance)>) requires enumerates(it, m) ensures all_diff(knames(it)), knames(it).len() == it.len()
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let ks = knames(it); assert forall|i: int, j: int| 0 <= i < j < ks.len() implies #[trigger] ks[i] != #[trigger] ks[j] by { assert(it[i].0.kid() != it[j].0.kid()); } }
#[verifier::opaque] pub open spec fn copied(nb: Names2, it: Seq<(&Rc<Account>, &Balance)>, n: int) -> bool {
    &&& forall|j: int| 0 <= j < n ==> nb.dom().contains((#[trigger] it[j]).0.kid()) && nb[it[j].0.kid()].1 == *it[j].1
    &&& forall|k: Seq<char>| #[trigger] nb.dom().contains(k) ==> exists|j: int| 0 <= j < n && (#[trigger] it[j]).0.kid() == k
}
pub proof fn copied_step(nb: Names2, nb2: Names2, it: Seq<(&Rc<Account>, &Balance)>, m: Accs, n: int)
    requires copied(nb, it, n), enumerates(it, m), 0 <= n < it.len(), nb2 == nb.insert(it[n].0.kid(), nb2[it[n].0.kid()]), nb2[it[n].0.kid()].1 == *it[n].1 ensures copied(nb2, it, n + 1)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); let q = it[n].0.kid(); assert forall|j: int| 0 <= j < n + 1 implies nb2.dom().contains((#[trigger] it[j]).0.kid()) && nb2[it[j].0.kid()].1 == *it[j].1 by { if j < n { assert(it[j].0.kid() != q); } }
  assert forall|k: Seq<char>| #[trigger] nb2.dom().contains(k) implies exists|j: int| 0 <= j < n + 1 && (#[trigger] it[j]).0.kid() == k by { if k == q { assert(it[n].0.kid() == k); } else { assert(nb.dom().contains(k)); let j = choose|j: int| 0 <= j < n && (#[trigger] it[j]).0.kid() == k; assert(it[j].0.kid() == k); } } }
pub type LevelSet = Map<Seq<char>, String>;
#[verifier::opaque] pub open spec fn all_levels(ls: LevelSet, it: Seq<(&Rc<Account>, &Balance)>, n: int) -> bool { forall|j: int| 0 <= j < n ==> levels_in(ls, (#[trigger] it[j]).0.kid(), parts(it[j].0.kid()).len() as int) }
pub proof fn levels_more(ls: LevelSet, l2: LevelSet, it: Seq<(&Rc<Account>, &Balance)>, n: int) requires all_levels(ls, it, n), forall|k: Seq<char>| #[trigger] ls.dom().contains(k) ==> l2.dom().contains(k) ensures all_levels(l2, it, n)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert forall|j: int| 0 <= j < n implies levels_in(l2, (#[trigger] it[j]).0.kid(), parts(it[j].0.kid()).len() as int) by { assert(levels_in(ls, it[j].0.kid(), parts(it[j].0.kid()).len() as int)); } }
#[verifier::opaque] pub open spec fn set_listed(v: Seq<String>, m: LevelSet) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i])@ != (#[trigger] v[j])@
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> among(v, v.len() as int, k)
}
pub open spec fn depth_ord() -> spec_fn(String, String) -> Ordering { |a: String, b: String| ord_of(parts(a@).len() < parts(b@).len(), parts(a@).len() == parts(b@).len()) }
pub proof fn depth_sorted(v: Seq<String>, w: Seq<String>, p: Seq<int>, m: LevelSet) requires set_listed(v, m), sorted_from(v, w, p, depth_ord()) ensures by_depth(w), set_listed(w, m)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i])@ != (#[trigger] w[j])@ by { assert(p[i] != p[j]); let a = p[i]; let b = p[j]; if a < b { assert(v[a]@ != v[b]@); } else { assert(v[b]@ != v[a]@); } }
  assert forall|i: int, j: int| 0 <= i < j < w.len() implies parts((#[trigger] w[i])@).len() <= parts((#[trigger] w[j])@).len() by { let o = depth_ord()(w[i], w[j]); }
  assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies among(w, w.len() as int, k) by { let x = choose|x: int| 0 <= x < v.len() && (#[trigger] v[x])@ == k; assert(p.contains(x)); let y = choose|y: int| 0 <= y < p.len() && p[y] == x; assert(w[y]@ == k); } }
#[verifier::opaque] pub open spec fn keys_in(nb: Names2, vs: Seq<String>) -> bool { forall|k: Seq<char>| #[trigger] nb.dom().contains(k) ==> among(vs, vs.len() as int, k) }
pub proof fn tree_start(nb: Names2, it: Seq<(&Rc<Account>, &Balance)>, m: Accs, sp: Seq<Posting>, vs: Seq<String>, ls: LevelSet)
    requires copied(nb, it, it.len() as int), enumerates(it, m), own_ok(m, sp), all_levels(ls, it, it.len() as int), set_listed(vs, ls) ensures tree_ok(nb, sp, vs, 0), keys_in(nb, vs)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert forall|k: Seq<char>| #[trigger] nb.dom().contains(k) implies holds_sum(nb[k].1, sp, if among(vs, 0, k) { under(k) } else { eqn(k) }) by { assert(!among(vs, 0, k)); let j = choose|j: int| 0 <= j < it.len() && (#[trigger] it[j]).0.kid() == k; assert(m.dom().contains(k)); own_at(m, sp, k); }
  assert forall|i: int| 0 <= i < sp.len() implies nb.dom().contains((#[trigger] sp[i]).account.name@) by { let k = sp[i].account.name@; assert(m.dom().contains(k)); let j = choose|j: int| 0 <= j < it.len() && (#[trigger] it[j]).0.kid() == k; assert(nb.dom().contains(it[j].0.kid())); }
  assert forall|k: Seq<char>| #[trigger] nb.dom().contains(k) implies among(vs, vs.len() as int, k) by { let j = choose|j: int| 0 <= j < it.len() && (#[trigger] it[j]).0.kid() == k; joined_parts(k); assert(levels_in(ls, it[j].0.kid(), parts(it[j].0.kid()).len() as int)); assert(ls.dom().contains(joined(parts(k), parts(k).len() as int))); } }
pub proof fn lines_tree_all(v: Seq<Line>, ks: Seq<Seq<char>>, it: Seq<(&&str, &Balance)>, nb: Names2, sp: Seq<Posting>, vs: Seq<String>, depth: Option<usize>, ls: LevelSet, ia: Seq<(&Rc<Account>, &Balance)>, m: Accs)
    requires tree_ok(nb, sp, vs, vs.len() as int), enumerates(it, nb), nz_kept(ks, knames(it), it.len() as int, bal_of(nb)), lines_from(v, ks, nb), keys_in(nb, vs), all_levels(ls, ia, ia.len() as int), set_listed(vs, ls), enumerates(ia, m), own_ok(m, sp)
    ensures lines_ok(v, sp, false, depth)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert forall|i: int, j: int| #![trigger joined(parts(sp[i].account.name@), j)] 0 <= i < sp.len() && 1 <= j <= parts(sp[i].account.name@).len() implies among(vs, vs.len() as int, joined(parts(sp[i].account.name@), j)) by {
    let k = sp[i].account.name@; assert(m.dom().contains(k)); let y = choose|y: int| 0 <= y < ia.len() && (#[trigger] ia[y]).0.kid() == k; assert(levels_in(ls, ia[y].0.kid(), parts(ia[y].0.kid()).len() as int)); assert(ls.dom().contains(joined(parts(k), j))); }
  lines_tree(v, ks, it, nb, sp, vs, depth); }
pub proof fn total_sum(b: Balance, it: Seq<(&Rc<Account>, &Balance)>, m: Accs, sp: Seq<Posting>)
    requires enumerates(it, m), own_ok(m, sp), b.wf(), b.clean(), forall|c: Cid| #[trigger] b.amt(c) == ksum(knames(it), anyn(), amt_of(m, c)) ensures holds_sum(b, sp, anyn())
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert forall|c: Cid| #[trigger] b.amt(c) == ssum(sp, anyn(), c) by { assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) && anyn()(k) implies m[k].1.amt(c) == ssum(sp, eqn(k), c) by { own_at(m, sp, k); } map_total(it, m, sp, anyn(), c); } }
pub open spec fn copies(v: Seq<String>, it: Seq<&String>, n: int) -> bool { v.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] v[j])@ == it[j]@ }
pub open spec fn heads(v: Seq<String>, p: Seq<Seq<char>>, n: int) -> bool { v.len() == n && forall|j: int| 0 <= j < n ==> (#[trigger] v[j])@ == p[j] }
pub proof fn copies_listed(v: Seq<String>, it: Seq<&String>, m: LevelSet) requires enumerates_set(it, m), copies(v, it, it.len() as int) ensures set_listed(v, m)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies among(v, v.len() as int, k) by { let i = choose|i: int| 0 <= i < it.len() && (#[trigger] it[i]).kid() == k; assert(v[i]@ == k); }
  assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i])@ != (#[trigger] v[j])@ by { assert(it[i].kid() != it[j].kid()); } }
pub broadcast proof fn diff_zero(a: Balance, b: Balance, d: Balance) requires #[trigger] a.vsub_ens(b, d), #[trigger] d.zero() ensures forall|c: Cid| #[trigger] a.amt(c) == b.amt(c)
{ reveal(own_ok); reveal(holds_sum); reveal(sel_trans); reveal(picked); reveal(all_picked); reveal(nz_kept); reveal(lines_ok); reveal(lines_from); reveal(levels_in); reveal(by_depth); reveal(tree_ok); reveal(cut_ok); reveal(merged); reveal(name_order); reveal(turned); reveal(turns); reveal(final_ok); reveal(rate_ok); reveal(brow_ok); reveal(rows_ok); reveal(skips); reveal(chained); reveal(amount_lines); reveal(indent); reveal(row_name); reveal(brow_text); reveal(brows_text); reveal(total_amounts); reveal(under); reveal(ksum); reveal(ssum); reveal(all_diff);  reveal(copied); reveal(all_levels); reveal(set_listed); reveal(keys_in); reveal(total_text); reveal(report_ok); assert forall|c: Cid| #[trigger] a.amt(c) == b.amt(c) by { assert(d.amt(c) == 0real); } }
@fn execute | out maypanic ovf fmt rlimit=100 iso=0 iso=2 iso=5 iso=7 iso=8 iso=10 iso=11 iso=12 iso=13 iso=18 iso=19
ensures
  //# C10: every line is the exact sum of the selected postings it stands for, none with a balance is missing, and the total is the sum of all of them
  r is Ok ==> exists|l: Ledger, g: Report| #[trigger] loaded(options.input_file@, options.no_balance_check, l) && #[trigger] report_ok(*options, flat, show_total, l, g) && final(out_)@ == old(out_)@ + report_text(flat, show_total, g),
@ghost start

                                      
proof { reveal_strlit(":"); assert(":"@ =~= seq![':']); }
let ghost mut sel: Seq<Seq<bool>> = Seq::empty(); let ghost mut sp: Seq<Posting> = Seq::empty();
let ghost mut kk: Seq<Seq<char>> = Seq::empty(); let ghost mut gi: Seq<(&Rc<Account>, &Balance)> = Seq::empty(); let ghost mut rows: Seq<BRow> = Seq::empty(); let ghost mut x: Xch = None; let ghost mut tot: Total = arbitrary();
@ghost pre let mut balances
let ghost l0 = ledger; let ghost ts = l0.transactions@; let ghost c0 = ledger.commodities;
@ghost before 0
proof { assert(node == q_node(*options)) by { reveal(q_node); } assert(grows(c0, ledger.commodities)) by { reveal(grows); } assert(own_ok(balances@, sp)) by { reveal(own_ok); } assert(sp =~= all_picked(ts, sel, 0)) by { reveal_with_fuel(all_picked, 1); } }
@loop 0
node == q_node(*options), 
ledger.commodities.wf(), grows(c0, ledger.commodities), ledger.prices == l0.prices, it0@.len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> *(#[trigger] it0@[i]) == ts[i],
sel.len() == i0, forall|i: int| 0 <= i < i0 ==> sel_trans(*options, ts[i], #[trigger] sel[i]),
sp == all_picked(ts, sel, i0 as int), own_ok(balances@, sp),
@ghost top 0
let ghost ti = i0 - 1; let ghost ps = ts[ti].postings.v@; let ghost mut s: Seq<bool> = Seq::empty(); let ghost sp0 = sp;
assert(*t == ts[ti]);
@ghost before 1
proof { assert(sp0 + picked(ps, s, 0) =~= sp0) by { reveal_with_fuel(picked, 1); } }
@loop 1
ledger.commodities.wf(), grows(c0, ledger.commodities), ledger.prices == l0.prices, it1@.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> *(#[trigger] it1@[i]) == ps[i],
s.len() == i1, forall|j: int| 0 <= j < i1 ==> selects(*options, *t, #[trigger] ps[j], s[j]),
sp == sp0 + picked(ps, s, i1 as int), own_ok(balances@, sp),
@ghost top 1
let ghost n1 = i1 - 1; let ghost s1 = s; let ghost cm1 = ledger.commodities; let ghost m1 = balances@; let ghost sp1 = sp;
assert(*p == ps[n1]);
@ghost pre continue @0
proof { s = s.push(false); assert(selects(*options, *t, ps[n1], false)) by { reveal(selects); } picked_ext(ps, s1, s, n1); assert(picked(ps, s, i1 as int) == picked(ps, s, n1)) by { reveal_with_fuel(picked, 2); } grows_trans(c0, cm1, ledger.commodities); }
@ghost pre cur_bal =
proof { if m1.dom().contains(p.account.name@) { own_at(m1, sp, p.account.name@); } assert(forall|c: Cid| #[trigger] cur_bal.amt(c) == (if m1.dom().contains(p.account.name@) { m1[p.account.name@].1.amt(c) } else { 0real })) by { reveal(Balance::zero); } }
@ghost bot 1
proof { s = s.push(true); assert(selects(*options, *t, ps[n1], true)) by { reveal(selects); } picked_ext(ps, s1, s, n1); assert(picked(ps, s, i1 as int) == picked(ps, s, n1).push(*p)) by { reveal_with_fuel(picked, 2); } grows_trans(c0, cm1, ledger.commodities);
  sp = sp1.push(*p); assert(sp =~= sp0 + picked(ps, s, i1 as int)); assert(balances@.dom() =~= m1.dom().insert(p.account.name@)); own_step(m1, balances@, sp1, *p, cur_bal); }
@ghost after 1
proof { let z = sel; sel = sel.push(s); all_picked_ext(ts, z, sel, ti); assert(sel_trans(*options, ts[ti], s)) by { reveal(sel_trans); } assert(all_picked(ts, sel, i0 as int) == all_picked(ts, sel, ti) + picked(ps, s, ps.len() as int)) by { reveal_with_fuel(all_picked, 2); }
  assert forall|i: int| 0 <= i < i0 implies sel_trans(*options, ts[i], #[trigger] sel[i]) by { if i < ti { assert(sel[i] == z[i]); } } }
@ghost after 0
proof { assert(all_sel(*options, ts, sel)); }
@ghost before 2
proof { assert(copied(new_balances@, it2@, 0)) by { reveal(copied); } assert(all_levels(accounts@, it2@, 0)) by { reveal(all_levels); } }
@loop 2
":"@ == seq![':'],
enumerates(it2@, balances@), copied(new_balances@, it2@, i2 as int), all_levels(accounts@, it2@, i2 as int),
@ghost top 2
let ghost n2 = i2 - 1; let ghost nm = acc.name@; let ghost nb2 = new_balances@;
assert(nm == it2@[n2].0.kid());
@ghost before 3
proof { assert(pattern@ =~= joined(parts(nm), 0)) by { reveal_strlit(""); reveal_with_fuel(joined, 1); } assert(levels_in(accounts@, nm, 0)) by { reveal(levels_in); } }
@loop 3
it3@.len() == parts(nm).len(), forall|j: int| 0 <= j < it3@.len() ==> (#[trigger] it3@[j])@ == parts(nm)[j], all_levels(accounts@, it2@, n2), pattern@ == joined(parts(nm), i3 as int), levels_in(accounts@, nm, i3 as int),
@ghost top 3
let ghost a3 = accounts@; let ghost p3 = pattern@;
assert(part@ == parts(nm)[i3 - 1]);
@ghost bot 3
proof { assert(pattern@ == joined(parts(nm), i3 as int)) by { reveal_with_fuel(joined, 2); if i3 == 1 { assert(pattern@ =~= parts(nm)[0]); } else { assert(pattern@ =~= p3.push(':') + parts(nm)[i3 - 1]); } }
  levels_more(a3, accounts@, it2@, n2); assert(levels_in(accounts@, nm, i3 as int)) by { reveal(levels_in); } }
@ghost bot 2
proof { copied_step(nb2, new_balances@, it2@, balances@, n2); assert(levels_in(accounts@, it2@[n2].0.kid(), parts(nm).len() as int)); assert(all_levels(accounts@, it2@, i2 as int)) by { reveal(all_levels); } }
@ghost after 2
proof { gi = it2@; }
@loop 4
enumerates_set(it4@, accounts@), copies(acc4@, it4@, i4 as int),
@ghost after 4
proof { copies_listed(acc4@, it4@, accounts@); }
@sort 0: String
depth_ord()
@ghost pre vec.sort_by
let ghost v0_ = vec@;
proof { assert(preorder(depth_ord(), |x_: String| true)) by { reveal(preorder); } }
@ghost post vec.sort_by
let ghost pm0 = choose|p: Seq<int>| #[trigger] sorted_from(v0_, vec@, p, depth_ord());
proof { depth_sorted(v0_, vec@, pm0, accounts@); tree_start(new_balances@, gi, balances@, sp, vec@, accounts@); }
@loop 5
by_depth(vec@), 
it5@.len() == vec@.len(), forall|j: int| 0 <= j < it5@.len() ==> *(#[trigger] it5@[j]) == vec@[j], tree_ok(new_balances@, sp, vec@, i5 as int), keys_in(new_balances@, vec@),
@ghost top 5
let ghost n5 = i5 - 1; let ghost nb5 = new_balances@;
assert(*account == vec@[n5]);
@ghost before 6
proof { assert(knames(it6@).take(0) =~= Seq::empty()); assert(acc6.wf() && acc6.clean() && forall|c: Cid| #[trigger] acc6.amt(c) == ksum(knames(it6@).take(0), under(account@), amt_of(nb5, c))) by { reveal(Balance::zero); reveal_with_fuel(ksum, 1); } }
@loop 6
enumerates(it6@, nb5), acc6.wf(), acc6.clean(), forall|c: Cid| #[trigger] acc6.amt(c) == ksum(knames(it6@).take(i6 as int), under(account@), amt_of(nb5, c)),
@ghost head 6
let ghost b6 = acc6; let ghost k6 = it6@[i6 - 1].0.kid();
proof { assert(nb5.dom().contains(k6) && nb5[k6].1 == *it6@[i6 - 1].1) by { reveal(enumerates); } tree_at(nb5, sp, vec@, n5, k6); }
@ghost bot 6
proof { assert(knames(it6@)[i6 - 1] == k6); assert forall|c: Cid| #[trigger] acc6.amt(c) == ksum(knames(it6@).take(i6 as int), under(account@), amt_of(nb5, c)) by { assert(b6.amt(c) == ksum(knames(it6@).take(i6 - 1), under(account@), amt_of(nb5, c))); take_sum(knames(it6@), i6 - 1, under(account@), amt_of(nb5, c)); reveal(under); } }
@ghost after 6
proof { assert(knames(it6@).take(it6@.len() as int) =~= knames(it6@)); assert(holds_sum(acc6, sp, under(account@))) by { reveal(holds_sum); assert forall|c: Cid| #[trigger] acc6.amt(c) == ssum(sp, under(account@), c) by { tree_sum(it6@, nb5, sp, vec@, n5, c); } } }
@ghost bot 5
proof { assert(new_balances@.dom() =~= nb5.dom().insert(vec@[n5]@)); tree_step(nb5, new_balances@, sp, vec@, n5, new_balances@[vec@[n5]@].1); assert(keys_in(new_balances@, vec@)) by { reveal(keys_in); assert(among(vec@, vec@.len() as int, vec@[n5]@)); } }
@ghost before 7
proof { kk = Seq::empty(); assert(nz_kept(kk, knames(it7@), 0, bal_of(new_balances@)) && lines_from(acc7@, kk, new_balances@)) by { reveal(nz_kept); reveal(lines_from); reveal(all_diff); } }
@loop 7
enumerates(it7@, new_balances@), nz_kept(kk, knames(it7@), i7 as int, bal_of(new_balances@)), lines_from(acc7@, kk, new_balances@),
@ghost head 7
let ghost k7 = it7@[i7 - 1].0.kid(); let ghost l7 = acc7@.len();
proof { assert(new_balances@.dom().contains(k7) && new_balances@[k7].1 == *it7@[i7 - 1].1) by { reveal(enumerates); } assert(knames(it7@)[i7 - 1] == k7); names_diff(it7@, new_balances@); nz_step(kk, knames(it7@), i7 - 1, bal_of(new_balances@)); assert(kk.len() == l7) by { reveal(lines_from); } }
@ghost bot 7
proof { let k1 = kk; if acc7@.len() > l7 { kk = kk.push(k7); } assert(lines_from(acc7@, kk, new_balances@)) by { reveal(lines_from); } }
@ghost after 7
proof { lines_tree_all(acc7@, kk, it7@, new_balances@, sp, vec@, depth, accounts@, gi, balances@); }
@ghost before 8
proof { kk = Seq::empty(); gi = it8@; assert(nz_kept(kk, knames(it8@), 0, bal_of(balances@)) && cut_ok(acc8@, kk, balances@, depth as int)) by { reveal(nz_kept); reveal(cut_ok); reveal(all_diff); } }
@loop 8
":"@ == seq![':'], 
own_ok(balances@, sp), 
enumerates(it8@, balances@), nz_kept(kk, knames(it8@), i8 as int, bal_of(balances@)), cut_ok(acc8@, kk, balances@, depth as int),
@ghost head 8
let ghost k8 = it8@[i8 - 1].0.kid(); let ghost l8 = acc8@.len();
proof { assert(balances@.dom().contains(k8) && balances@[k8].1 == *it8@[i8 - 1].1) by { reveal(enumerates); } assert(knames(it8@)[i8 - 1] == k8); names_diff(it8@, balances@); nz_step(kk, knames(it8@), i8 - 1, bal_of(balances@)); assert(kk.len() == l8) by { reveal(cut_ok); } }
@loop 9
it9@.len() == (if depth < parts(k8).len() { depth as int } else { parts(k8).len() as int }), forall|j: int| 0 <= j < it9@.len() ==> (#[trigger] it9@[j])@ == parts(k8)[j], heads(acc9@, parts(k8), i9 as int),
@ghost after 9
proof { joined_ext(strs(acc9@), parts(k8), acc9@.len() as int); }
@ghost bot 8
proof { if acc8@.len() > l8 { kk = kk.push(k8); } assert(cut_ok(acc8@, kk, balances@, depth as int)) by { reveal(cut_ok); } }
@sort 1: (String, Balance)
cut_ord()
@ghost pre temp.sort_by
let ghost t0_ = temp@;
proof { assert(preorder(cut_ord(), |x_: (String, Balance)| true)) by { reveal(preorder); broadcast use str_total; broadcast use str_trans; } }
@ghost post temp.sort_by
let ghost pm1 = choose|p: Seq<int>| #[trigger] sorted_from(t0_, temp@, p, cut_ord());
proof { kk = cut_sorted(t0_, temp@, pm1, kk, knames(gi), balances@, depth as int); }
@ghost before 10
proof { assert(merged(vec_balances@, temp@, kk, 0, balances@, depth as int)) by { reveal(merged); } }
@loop 10
own_ok(balances@, sp), cut_ok(temp@, kk, balances@, depth as int), name_order(temp@), 
it10@.len() == temp@.len(), forall|j: int| 0 <= j < it10@.len() ==> *(#[trigger] it10@[j]) == temp@[j], merged(vec_balances@, temp@, kk, i10 as int, balances@, depth as int), i10 > 0 ==> account@ == temp@[i10 - 1].0@,
@ghost top 10
let ghost n10 = i10 - 1; let ghost v10 = vec_balances@;
proof { assert(temp@[n10].0@ == acc@ && temp@[n10].1 == *value); cut_at(temp@, kk, balances@, sp, depth as int, n10); merged_at(v10, temp@, kk, n10, balances@, depth as int); }
@ghost bot 10
proof { if n10 > 0 && temp@[n10].0@ == temp@[n10 - 1].0@ { merge_same(v10, temp@, kk, n10, balances@, depth as int, vec_balances@.last()); assert(vec_balances@ =~= v10.update(v10.len() - 1, vec_balances@.last())); } else { merge_new(v10, temp@, kk, n10, balances@, depth as int, vec_balances@.last()); assert(vec_balances@ =~= v10.push(vec_balances@.last())); } }
@ghost after 10
proof { lines_cut(vec_balances@, temp@, kk, gi, balances@, sp, depth); }
@ghost before 11
proof { kk = Seq::empty(); assert(nz_kept(kk, knames(it11@), 0, bal_of(balances@)) && lines_from(acc11@, kk, balances@)) by { reveal(nz_kept); reveal(lines_from); reveal(all_diff); } }
@loop 11
enumerates(it11@, balances@), nz_kept(kk, knames(it11@), i11 as int, bal_of(balances@)), lines_from(acc11@, kk, balances@),
@ghost head 11
let ghost k11 = it11@[i11 - 1].0.kid(); let ghost l11 = acc11@.len();
proof { assert(balances@.dom().contains(k11) && balances@[k11].1 == *it11@[i11 - 1].1) by { reveal(enumerates); } assert(knames(it11@)[i11 - 1] == k11); names_diff(it11@, balances@); nz_step(kk, knames(it11@), i11 - 1, bal_of(balances@)); assert(kk.len() == l11) by { reveal(lines_from); } }
@ghost bot 11
proof { if acc11@.len() > l11 { kk = kk.push(k11); } assert(lines_from(acc11@, kk, balances@)) by { reveal(lines_from); } }
@ghost after 11
proof { lines_flat(acc11@, kk, it11@, balances@, sp); }
@ghost pre let mut multipliers
proof { wf_targets(ledger.commodities); }
let ghost v0 = vec_balances@;
proof { assert(lines_ok(v0, sp, flat, depth)); same_turned(v0, sp, flat, depth); }
@ghost before 12
proof { assert(turns(v0, updated_balances@, 0, Some((multipliers@, currency.kid())))) by { reveal(turns); } }
@loop 12
lines_ok(v0, sp, flat, depth), 
it12@.len() == v0.len(), forall|j: int| 0 <= j < it12@.len() ==> *(#[trigger] it12@[j]) == v0[j], turns(v0, updated_balances@, i12 as int, Some((multipliers@, currency.kid()))),
@ghost top 12
let ghost n12 = i12 - 1; let ghost u12 = updated_balances@;
proof { assert(acc@ == v0[n12].0@ && *balance == v0[n12].1); lines_at(v0, sp, flat, depth, n12); }
@ghost bot 12
proof { assert(turned(*balance, updated_balances@.last().1, Some((multipliers@, currency.kid())))) by { reveal(turned); } assert(turns(v0, updated_balances@, i12 as int, Some((multipliers@, currency.kid())))) by { reveal(turns); assert forall|i: int| 0 <= i < i12 implies (#[trigger] updated_balances@[i]).0@ == v0[i].0@ && turned(v0[i].1, updated_balances@[i].1, Some((multipliers@, currency.kid()))) by { if i < n12 { assert(updated_balances@[i] == u12[i]); } } } }
@ghost after 12
proof { x = Some((multipliers@, currency.kid())); }
@sort 2: Line
line_ord()
@ghost pre vec_balances.sort_by
let ghost w0 = vec_balances@;
proof { assert(turns(v0, w0, v0.len() as int, x)); assert(rate_ok(*options, l0, x)) by { reveal(rate_ok); reveal(grows); } assert(preorder(line_ord(), |x_: Line| true)) by { reveal(preorder); broadcast use str_total; broadcast use str_trans; } }
@ghost post vec_balances.sort_by
let ghost pm2 = choose|p: Seq<int>| #[trigger] sorted_from(w0, vec_balances@, p, line_ord());
let ghost vz = vec_balances@; let ghost own = final_sorted(v0, w0, vz, pm2, sp, flat, depth, x); let ghost ob = out_@;
proof { assert(rows_ok(vz, flat, depth, rows, 0)) by { reveal(rows_ok); } assert(ob =~= ob + brows_text(vz, flat, rows)) by { reveal_with_fuel(brows_text, 1); } }
@loop 13
final_ok(vz, own, sp, flat, depth, x), vec_balances@ == vz, ":"@ == seq![':'],
index <= num_bal, num_bal == vz.len(), showed_balances == rows.len(), rows_ok(vz, flat, depth, rows, index as int), out_@ == ob + brows_text(vz, flat, rows),
decreases num_bal - index,
@ghost top 13
let ghost a = index as int; let ghost o1 = out_@; let ghost mut oa = o1; let ghost mut shown: Seq<Money> = Seq::empty();
@ghost pre if let Some(depth)
proof { final_at(vz, own, sp, flat, depth, x, a); if skips(vz, depth, a) { rows_skip(vz, flat, depth, rows, a); } assert(account@ == vz[a].0@ && *bal == vz[a].1); reveal(skips); }
@ghost before 14
proof { cat_none(o1); reveal_with_fuel(amount_lines, 1); }
@loop 14
enumerates(it14@, bal.balance@), first == (i14 == 0), out_@ == o1 + amount_lines(monies(it14@), i14 as int),
@ghost top 14
let ghost o2 = out_@;
@ghost bot 14
proof { let al = amount_lines(monies(it14@), i14 - 1); let nl = if i14 > 1 { seq!['\n'] } else { Seq::empty() }; let r = padr(money_text(*money), 20);
  assert(monies(it14@)[i14 - 1] == *money); assert(amount_lines(monies(it14@), i14 as int) == (al + nl) + r) by { reveal_with_fuel(amount_lines, 2); } assert(out_@ =~= (o2 + nl) + r); assert((o2 + nl) + r =~= o1 + ((al + nl) + r)); }
@ghost after 14
proof { shown = monies(it14@); oa = out_@; nonempty(*bal); assert(it14@.len() > 0 && shows(shown, amts(*bal))) by { reveal(enumerates); shows_balance(*bal, it14@, amts(*bal)); } }
@ghost before 15
proof { assert(oa =~= oa + indent(0)) by { reveal_with_fuel(indent, 1); } }
@loop 15
out_@ == oa + indent(i15 as int),
@ghost top 15
let ghost o15 = out_@;
@ghost bot 15
proof { assert(indent(i15 as int) == indent(i15 - 1) + "  "@) by { reveal_with_fuel(indent, 2); } assert(out_@ =~= oa + indent(i15 as int)); }
@ghost pre let mut collapse
let ghost ot = out_@;
proof { assert(text@ == row_name(vz, a, index + 1)) by { reveal_with_fuel(row_name, 1); } }
@loop 16
a <= index < num_bal, n == nparts(vz[index as int].0@), text@ == row_name(vz, a, index + 1), forall|j: int| a < j <= index ==> #[trigger] chained(vz, depth, a, j),
decreases num_bal - index,
@ghost pre if !vec_balances
proof { final_at(vz, own, sp, flat, depth, x, index + 1); }
@ghost pre for j in
proof { assert(chained(vz, depth, a, index + 1)) by { reveal(chained); broadcast use diff_zero; assert(vz[index as int].0@ + ":"@ =~= vz[index as int].0@.push(':')); } }
@loop 17
true,
@ghost pre text.push(
let ghost tx = text@;
@ghost post index = index
proof { assert(text@ == row_name(vz, a, index + 1)) by { reveal_with_fuel(row_name, 2); assert(text@ =~= tx.push(':') + parts(vz[index as int].0@).last()); } }
@ghost bot 13
proof { let r = BRow { a: a, b: index as int, shown: shown }; let q = rows; assert(brow_ok(vz, flat, depth, r)) by { reveal(brow_ok); } rows_add(vz, flat, depth, rows, a, r); rows = rows.push(r);
  assert(out_@ == oa + brow_name(vz, flat, r)) by { if flat { assert(out_@ =~= oa + brow_name(vz, flat, r)); } else { assert(out_@ =~= oa + brow_name(vz, flat, r)); } }
  assert(out_@ == ob + brows_text(vz, flat, rows)) by { reveal_with_fuel(brows_text, 2); reveal(brow_text); assert(rows.drop_last() =~= q); cat3(ob, brows_text(vz, flat, q), brow_text(vz, flat, r)); cat3(o1, amount_lines(shown, shown.len() as int), brow_name(vz, flat, r)); } }
@ghost pre if show_total
let ghost orow = out_@;
@ghost before 18
proof { assert(knames(it18@).take(0) =~= Seq::empty()); assert(acc18.wf() && acc18.clean() && forall|c: Cid| #[trigger] acc18.amt(c) == ksum(knames(it18@).take(0), anyn(), amt_of(balances@, c))) by { reveal(Balance::zero); reveal_with_fuel(ksum, 1); } }
@loop 18
own_ok(balances@, sp), 
enumerates(it18@, balances@), acc18.wf(), acc18.clean(), forall|c: Cid| #[trigger] acc18.amt(c) == ksum(knames(it18@).take(i18 as int), anyn(), amt_of(balances@, c)),
@ghost top 18
let ghost b18 = acc18; let ghost k18 = it18@[i18 - 1].0.kid();
proof { assert(balances@.dom().contains(k18) && balances@[k18].1 == *it18@[i18 - 1].1) by { reveal(enumerates); } own_at(balances@, sp, k18); }
@ghost bot 18
proof { assert(knames(it18@)[i18 - 1] == k18); assert forall|c: Cid| #[trigger] acc18.amt(c) == ksum(knames(it18@).take(i18 as int), anyn(), amt_of(balances@, c)) by { assert(b18.amt(c) == ksum(knames(it18@).take(i18 - 1), anyn(), amt_of(balances@, c))); take_sum(knames(it18@), i18 - 1, anyn(), amt_of(balances@, c)); } }
@ghost after 18
proof { assert(knames(it18@).take(it18@.len() as int) =~= knames(it18@)); total_sum(acc18, it18@, balances@, sp); }
@ghost pre if multipliers.len()
let ghost town = total_balance; let ghost os = out_@;
@ghost pre if total_balance.is_zero()
let ghost tb = total_balance;
proof { assert(turned(town, tb, x)) by { reveal(turned); reveal(holds_sum); } assert(tb.wf() && tb.clean()) by { reveal(turned); } tot = Total { own: town, bal: tb, shown: Seq::empty() }; }
@ghost before 19
proof { assert(os =~= os + total_amounts(monies(it19@), 0)) by { reveal_with_fuel(total_amounts, 1); } }
@loop 19
enumerates(it19@, tb.balance@), out_@ == os + total_amounts(monies(it19@), i19 as int),
@ghost top 19
let ghost o19 = out_@;
@ghost bot 19
proof { let r = "\n"@ + padr(money_text(*money), 20); assert(monies(it19@)[i19 - 1] == *money); assert(total_amounts(monies(it19@), i19 as int) == total_amounts(monies(it19@), i19 - 1) + r) by { reveal_with_fuel(total_amounts, 2); } assert(out_@ =~= o19 + r); cat3(os, total_amounts(monies(it19@), i19 - 1), r); }
@ghost after 19
proof { nonempty(tb); tot = Total { shown: monies(it19@), ..tot }; assert(shows(tot.shown, amts(tb))) by { reveal(enumerates); shows_balance(tb, it19@, amts(tb)); } }
@ghost tail
proof { let g = Report { sel: sel, x: x, v: vz, own: own, rows: rows, total: tot };
  assert(report_ok(*options, flat, show_total, l0, g)) by { reveal(report_ok); }
  assert(loaded(options.input_file@, options.no_balance_check, l0));
  if show_total && rows.len() > 1 { assert(out_@ =~= orow + total_text(tot)) by { reveal(total_text); } cat3(ob, brows_text(vz, flat, rows), total_text(tot)); } else { cat_none(orow); cat_none(brows_text(vz, flat, rows)); } }
@end
