@module register src/commands/register.rs
@raw
/// the text that selects: what filter is asked, None for no query
pub open spec fn q_text(o: CommonOpts) -> Seq<char> { "("@ + read_words(o.query@, o.query@.len() as int).text + ")"@ }
#[verifier::opaque] pub open spec fn q_node(o: CommonOpts) -> Option<Node> { if utf8_len(q_text(o)) > 2 { Some(tree_of(q_text(o))) } else { None } }
/// the options and the query select the posting (b) or do not (!b)
#[verifier::opaque] pub open spec fn selects(o: CommonOpts, t: Transaction<Posting>, p: Posting, b: bool) -> bool {
    if b { in_range(o, t, p) && (q_node(o) is Some ==> exists|l: List<Currency>| #[trigger] holds(q_node(o)->0, p, t, l, true)) }
    else { !in_range(o, t, p) || (q_node(o) is Some && exists|l: List<Currency>| #[trigger] holds(q_node(o)->0, p, t, l, false)) }
}
/// a register: which postings are listed, the totals beside them, the payee of each transaction, and the widths of the columns
pub struct Reg { pub sel: Seq<Seq<bool>>, pub lines: Seq<Seq<Seq<Money>>>, pub names: Seq<Seq<char>>, pub w: Cols }
pub struct Cols { pub date: int, pub desc: int, pub both: int, pub acc: int, pub amount: int, pub total: int, pub left: int }
/// sum of the first n postings that are listed, in commodity c
pub open spec fn tsum(ps: Seq<Posting>, s: Seq<bool>, n: int, c: Option<Seq<char>>) -> real decreases n { if n <= 0 { 0real } else { tsum(ps, s, n - 1, c) + (if s[n - 1] { ps[n - 1].amount->0.at(c) } else { 0real }) } }
/// the same over the first n transactions
pub open spec fn lsum(ts: Seq<Transaction<Posting>>, s: Seq<Seq<bool>>, n: int, c: Option<Seq<char>>) -> real decreases n { if n <= 0 { 0real } else { lsum(ts, s, n - 1, c) + tsum(ts[n - 1].postings.v@, s[n - 1], ts[n - 1].postings.v@.len() as int, c) } }
pub open spec fn prefix_sum(ts: Seq<Transaction<Posting>>, s: Seq<Seq<bool>>, i: int, j: int) -> spec_fn(Option<Seq<char>>) -> real { |c: Option<Seq<char>>| lsum(ts, s, i, c) + tsum(ts[i].postings.v@, s[i], j, c) }
/// the lines give the sum, each commodity once; nothing is left out but zeros
#[verifier::opaque] pub open spec fn shows(v: Seq<Money>, f: spec_fn(Option<Seq<char>>) -> real) -> bool {
    &&& v.len() > 0 && (v.len() > 1 ==> forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).amt() != 0real)
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).amt() == f(v[i].cid())
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).cid() != (#[trigger] v[j]).cid()
    &&& forall|c: Option<Seq<char>>| #[trigger] f(c) != 0real ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).cid() == c
}
#[verifier::opaque] pub open spec fn payee_shown(l: List<Payee>, d: Seq<char>, n: Seq<char>) -> bool { match l.find(d) { Some(p) => n == p.name@, None => lower(n) == lower(d) } }
#[verifier::opaque] pub open spec fn acc_text(p: Posting) -> Seq<char> { match p.kind { PostingType::Real => p.account.name@, PostingType::Virtual => "("@ + p.account.name@ + ")"@, PostingType::VirtualMustBalance => "["@ + p.account.name@ + "]"@ } }
#[verifier::opaque] pub open spec fn clipped(s: Seq<char>, w: int) -> Seq<char> { if utf8_len(s) < w - 3 { s } else { s.take(if s.len() < w - 3 { s.len() as int } else { w - 3 }) + ".."@ } }
#[verifier::opaque] pub open spec fn total_lines(v: Seq<Money>, n: int, w: Cols) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { total_lines(v, n - 1, w) + (if n > 1 { padl(""@, w.left) } else { Seq::empty() }) + padr(money_text(v[n - 1]), w.total) + seq!['\n'] }
}
pub open spec fn date_payee(t: Transaction<Posting>, name: Seq<char>, first: bool, w: Cols) -> Seq<char> {
    if first { padl(date_text(t.date->0@), w.date) + padl(clipped(name + " "@, w.desc), w.desc) } else { padl(""@, w.both) }
}
#[verifier::opaque] pub open spec fn head_text(t: Transaction<Posting>, p: Posting, name: Seq<char>, first: bool, w: Cols) -> Seq<char> {
    date_payee(t, name, first, w) + padl(acc_text(p), w.acc) + padr(money_text(p.amount->0), w.amount)
}
#[verifier::opaque] pub open spec fn row_text(t: Transaction<Posting>, p: Posting, name: Seq<char>, first: bool, v: Seq<Money>, w: Cols) -> Seq<char> {
    head_text(t, p, name, first, w) + total_lines(v, v.len() as int, w)
}
pub proof fn cat3(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub proof fn cat4(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>) ensures ((a + b) + c) + d == a + ((b + c) + d) { assert(((a + b) + c) + d =~= a + ((b + c) + d)); }
pub proof fn cat5(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>) ensures (((a + b) + c) + d) + e == a + (((b + c) + d) + e) { assert((((a + b) + c) + d) + e =~= a + (((b + c) + d) + e)); }
pub proof fn cat_none(a: Seq<char>) ensures a + ""@ == a, a + Seq::<char>::empty() == a { reveal_strlit(""); assert(a + ""@ =~= a); assert(a + Seq::<char>::empty() =~= a); }
#[verifier::opaque] pub open spec fn any_sel(s: Seq<bool>, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] }
#[verifier::opaque] pub open spec fn t_text(t: Transaction<Posting>, s: Seq<bool>, v: Seq<Seq<Money>>, name: Seq<char>, w: Cols, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { t_text(t, s, v, name, w, n - 1) + (if s[n - 1] { row_text(t, t.postings.v@[n - 1], name, !any_sel(s, n - 1), v[n - 1], w) } else { Seq::empty() }) }
}
#[verifier::opaque] pub open spec fn reg_text(ts: Seq<Transaction<Posting>>, g: Reg, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { reg_text(ts, g, n - 1) + t_text(ts[n - 1], g.sel[n - 1], g.lines[n - 1], g.names[n - 1], g.w, ts[n - 1].postings.v@.len() as int) }
}
/// C11: transaction i of the register is right
#[verifier::opaque] pub open spec fn reg_trans(o: CommonOpts, l: Ledger, g: Reg, i: int) -> bool {
    let t = l.transactions@[i];
    &&& g.sel[i].len() == t.postings.v@.len() && g.lines[i].len() == t.postings.v@.len()
    &&& any_sel(g.sel[i], g.sel[i].len() as int) ==> payee_shown(l.payees, t.description@, g.names[i])
    &&& forall|j: int| 0 <= j < t.postings.v@.len() ==> selects(o, t, #[trigger] t.postings.v@[j], g.sel[i][j])
    &&& forall|j: int| 0 <= j < t.postings.v@.len() && g.sel[i][j] ==> shows(#[trigger] g.lines[i][j], prefix_sum(l.transactions@, g.sel, i, j + 1))
}
pub open spec fn reg_ok(o: CommonOpts, l: Ledger, g: Reg) -> bool {
    g.sel.len() == l.transactions@.len() && g.lines.len() == l.transactions@.len() && g.names.len() == l.transactions@.len() && forall|i: int| 0 <= i < l.transactions@.len() ==> #[trigger] reg_trans(o, l, g, i)
}
pub proof fn sel_prefix(t: Transaction<Posting>, s1: Seq<bool>, s2: Seq<bool>, v1: Seq<Seq<Money>>, v2: Seq<Seq<Money>>, name: Seq<char>, w: Cols, n: int)
    requires 0 <= n, forall|i: int| 0 <= i < n ==> s1[i] == s2[i] && v1[i] == v2[i]
    ensures forall|c: Option<Seq<char>>| #[trigger] tsum(t.postings.v@, s1, n, c) == tsum(t.postings.v@, s2, n, c), t_text(t, s1, v1, name, w, n) == t_text(t, s2, v2, name, w, n), any_sel(s1, n) == any_sel(s2, n)
    decreases n
{ reveal(reg_trans); reveal(shows); reveal(clipped); reveal(row_text); reveal(head_text); reveal(acc_text); reveal(any_sel); reveal(total_lines); reveal(t_text); reveal(reg_text); reveal(payee_shown); reveal(selects); reveal(q_node); if n > 0 { sel_prefix(t, s1, s2, v1, v2, name, w, n - 1);
    assert forall|c: Option<Seq<char>>| #[trigger] tsum(t.postings.v@, s1, n, c) == tsum(t.postings.v@, s2, n, c) by { assert(tsum(t.postings.v@, s1, n - 1, c) == tsum(t.postings.v@, s2, n - 1, c)); }
    if any_sel(s1, n) { let i = choose|i: int| 0 <= i < n && #[trigger] s1[i]; assert(s2[i]); } if any_sel(s2, n) { let i = choose|i: int| 0 <= i < n && #[trigger] s2[i]; assert(s1[i]); } } }
pub proof fn reg_prefix(ts: Seq<Transaction<Posting>>, g1: Reg, g2: Reg, n: int)
    requires 0 <= n, g1.w == g2.w, forall|i: int| 0 <= i < n ==> g1.sel[i] == g2.sel[i] && g1.lines[i] == g2.lines[i] && g1.names[i] == g2.names[i]
    ensures forall|c: Option<Seq<char>>| #[trigger] lsum(ts, g1.sel, n, c) == lsum(ts, g2.sel, n, c), reg_text(ts, g1, n) == reg_text(ts, g2, n)
    decreases n
{ reveal(reg_trans); reveal(shows); reveal(clipped); reveal(row_text); reveal(head_text); reveal(acc_text); reveal(any_sel); reveal(total_lines); reveal(t_text); reveal(reg_text); reveal(payee_shown); reveal(selects); reveal(q_node); if n > 0 { reg_prefix(ts, g1, g2, n - 1);
    assert forall|c: Option<Seq<char>>| #[trigger] lsum(ts, g1.sel, n, c) == lsum(ts, g2.sel, n, c) by { assert(lsum(ts, g1.sel, n - 1, c) == lsum(ts, g2.sel, n - 1, c)); } } }
/// adding a transaction keeps the ones before
pub proof fn reg_keeps(o: CommonOpts, l: Ledger, g1: Reg, g2: Reg, n: int)
    requires 0 <= n <= g1.sel.len(), n <= g2.sel.len(), g1.w == g2.w, forall|i: int| 0 <= i < n ==> g1.sel[i] == g2.sel[i] && g1.lines[i] == g2.lines[i] && g1.names[i] == g2.names[i], forall|i: int| 0 <= i < n ==> #[trigger] reg_trans(o, l, g1, i)
    ensures forall|i: int| 0 <= i < n ==> #[trigger] reg_trans(o, l, g2, i)
{ reveal(reg_trans); reveal(shows); reveal(clipped); reveal(row_text); reveal(head_text); reveal(acc_text); reveal(any_sel); reveal(total_lines); reveal(t_text); reveal(reg_text); reveal(payee_shown); reveal(selects); reveal(q_node); assert forall|i: int| 0 <= i < n implies #[trigger] reg_trans(o, l, g2, i) by { assert(reg_trans(o, l, g1, i)); reg_prefix(l.transactions@, g1, g2, i);
    assert forall|j: int| 0 <= j < l.transactions@[i].postings.v@.len() && g2.sel[i][j] implies shows(#[trigger] g2.lines[i][j], prefix_sum(l.transactions@, g2.sel, i, j + 1)) by {
      assert(shows(g1.lines[i][j], prefix_sum(l.transactions@, g1.sel, i, j + 1)));
      assert forall|c: Option<Seq<char>>| #[trigger] prefix_sum(l.transactions@, g1.sel, i, j + 1)(c) == prefix_sum(l.transactions@, g2.sel, i, j + 1)(c) by { assert(lsum(l.transactions@, g1.sel, i, c) == lsum(l.transactions@, g2.sel, i, c)); }
      assert(prefix_sum(l.transactions@, g1.sel, i, j + 1) =~= prefix_sum(l.transactions@, g2.sel, i, j + 1)); } } }
pub open spec fn sum_at(ts: Seq<Transaction<Posting>>, g: Reg, i: int, s: Seq<bool>, j: int) -> spec_fn(Option<Seq<char>>) -> real { |c: Option<Seq<char>>| lsum(ts, g.sel, i, c) + tsum(ts[i].postings.v@, s, j, c) }
pub open spec fn monies(it: Seq<(&Option<Rc<Currency>>, &Money)>) -> Seq<Money> { Seq::new(it.len(), |i: int| *it[i].1) }
/// the entries of a balance, in any order, show it
pub open spec fn only_key(b: Balance, k: Option<Seq<char>>) -> bool { forall|c: Option<Seq<char>>| #[trigger] b.balance@.dom().contains(c) <==> c == k }
pub proof fn nonempty(b: Balance) ensures !b.zero() ==> b.balance@.dom().len() > 0, only_key(b, None) ==> b.balance@.dom().len() > 0
{ reveal(reg_trans); reveal(shows); reveal(clipped); reveal(row_text); reveal(head_text); reveal(acc_text); reveal(any_sel); reveal(total_lines); reveal(t_text); reveal(reg_text); reveal(payee_shown); reveal(selects); reveal(q_node); if b.balance@.dom().len() == 0 { assert(b.balance@.dom() =~= Set::empty()); if only_key(b, None) { assert(b.balance@.dom().contains(None)); } } }
pub proof fn shows_balance(b: Balance, it: Seq<(&Option<Rc<Currency>>, &Money)>, f: spec_fn(Option<Seq<char>>) -> real)
    requires b.wf(), enumerates(it, b.balance@), forall|c: Option<Seq<char>>| #[trigger] f(c) == b.amt(c), b.clean() || (exists|k: Option<Seq<char>>| #[trigger] only_key(b, k)), b.balance@.dom().len() > 0
    ensures shows(monies(it), f)
{ reveal(reg_trans); reveal(shows); reveal(clipped); reveal(row_text); reveal(head_text); reveal(acc_text); reveal(any_sel); reveal(total_lines); reveal(t_text); reveal(reg_text); reveal(payee_shown); reveal(selects); reveal(q_node);
    let v = monies(it);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).amt() == f(v[i].cid()) && v[i].cid() == it[i].0.kid() by { let k = it[i].0.kid(); assert(b.balance@.dom().contains(k)); assert(b.balance@[k].1 == v[i]); assert(b.balance@[k].1.cid() == k); assert(f(k) == b.amt(k)); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).cid() != (#[trigger] v[j]).cid() by { assert(it[i].0.kid() != it[j].0.kid()); }
    assert forall|c: Option<Seq<char>>| #[trigger] f(c) != 0real implies exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).cid() == c by { assert(b.balance@.dom().contains(c)); let i = choose|i: int| 0 <= i < it.len() && (#[trigger] it[i]).0.kid() == c; assert(v[i].cid() == c); }
    if v.len() > 1 { 
      if !b.clean() { let k = choose|k: Option<Seq<char>>| #[trigger] only_key(b, k); assert(b.balance@.dom().contains(it[0].0.kid())); assert(b.balance@.dom().contains(it[1].0.kid())); assert(false); }
      assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).amt() != 0real by { let k = it[i].0.kid(); assert(b.balance@.dom().contains(k)); assert(b.balance@[k].1 == v[i]); } }
}
@fn clip | fmt
requires width >= 3
ensures r@ == clipped(string@, width as int)
@ghost start
proof { reveal(clipped); }
@loop 0
ret@ == string@.take(i0 as int), i0 <= width - 3 || i0 == 0,
ensures ret@ == string@.take(if string@.len() < width - 3 { string@.len() as int } else { width - 3 }),
@fn execute | out maypanic ovf fmt rlimit=120
ensures
  //# C11: the selected postings in order, each with the exact sum so far
  r is Ok ==> exists|l: Ledger, g: Reg| #[trigger] loaded(options.input_file@, options.no_balance_check, l) && #[trigger] reg_ok(*options, l, g) && final(out_)@ == old(out_)@ + reg_text(l.transactions@, g, l.transactions@.len() as int),
@ghost start
let ghost mut g: Reg = Reg { sel: Seq::empty(), lines: Seq::empty(), names: Seq::empty(), w: Cols { date: 0, desc: 0, both: 0, acc: 0, amount: 0, total: 0, left: 0 } };
@ghost before 0
let ghost l0 = ledger; let ghost ts = l0.transactions@; let ghost w = Cols { date: w_date as int, desc: w_description as int, both: w_description + 11, acc: w_account as int, amount: w_amount as int, total: w_balance as int, left: w_date + w_description + w_account + w_amount };
proof { g = Reg { w: w, ..g }; assert(node == q_node(*options)) by { reveal(q_node); } assert(payees_grow(l0.payees, ledger.payees)) by { reveal(payees_grow); } reveal(Balance::wf); reveal(Balance::clean); cat_none(out_@); reveal_with_fuel(reg_text, 1); }
@loop 0
ledger.commodities.wf(), ledger.payees.wf(), payees_grow(l0.payees, ledger.payees), balance.wf(),
g.w == w, g.sel.len() == i0, g.lines.len() == i0, g.names.len() == i0, it0@.len() == ts.len(), forall|i: int| 0 <= i < ts.len() ==> *(#[trigger] it0@[i]) == ts[i],
forall|i: int| 0 <= i < i0 ==> #[trigger] reg_trans(*options, l0, g, i),
forall|c: Option<Seq<char>>| #[trigger] balance.amt(c) == lsum(ts, g.sel, i0 as int, c),
out_@ == old(out_)@ + reg_text(ts, g, i0 as int),
@ghost top 0
let ghost ti = i0 - 1; let ghost ps = ts[ti].postings.v@; let ghost mut s: Seq<bool> = Seq::empty(); let ghost mut v: Seq<Seq<Money>> = Seq::empty(); let ghost nm = payee_name(ledger.payees, t.description@); let ghost o0 = out_@; let ghost py = ledger.payees;
assert(*t == ts[ti]);
proof { assert(payee_shown(l0.payees, t.description@, nm)) by { reveal(payee_shown); reveal(payees_grow); reveal(List::wf); } }
@ghost before 1
proof { cat_none(o0); reveal_with_fuel(t_text, 1); assert(!any_sel(s, 0)) by { reveal(any_sel); } }
@loop 1
ledger.commodities.wf(), ledger.payees.wf(), payees_grow(l0.payees, ledger.payees), balance.wf(), counter >= 0, counter == 0 ==> ledger.payees == py,
it1@.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> *(#[trigger] it1@[i]) == ps[i],
s.len() == i1, v.len() == i1, (counter > 0) == any_sel(s, i1 as int),
forall|j: int| 0 <= j < i1 ==> selects(*options, *t, #[trigger] ps[j], s[j]),
forall|j: int| 0 <= j < i1 && s[j] ==> shows(#[trigger] v[j], sum_at(ts, g, ti, s, j + 1)),
forall|c: Option<Seq<char>>| #[trigger] balance.amt(c) == lsum(ts, g.sel, ti, c) + tsum(ps, s, i1 as int, c),
out_@ == o0 + t_text(*t, s, v, nm, w, i1 as int),
@ghost top 1
let ghost s0 = s; let ghost v0 = v; let ghost o1 = out_@; let ghost n1 = i1 - 1; let ghost py1 = ledger.payees; let ghost b1 = balance; let ghost first = !any_sel(s, n1);
assert(*p == ps[n1]);
@ghost pre continue
proof { s = s.push(false); v = v.push(Seq::empty()); sel_prefix(*t, s0, s, v0, v, nm, w, n1); 
  assert(selects(*options, *t, ps[n1], false)) by { reveal(selects); }
  assert forall|j: int| 0 <= j < i1 && s[j] implies shows(#[trigger] v[j], sum_at(ts, g, ti, s, j + 1)) by { assert(s0[j] && v0[j] == v[j]); sel_prefix(*t, s0, s, v0, v, nm, w, j + 1); assert(sum_at(ts, g, ti, s0, j + 1) =~= sum_at(ts, g, ti, s, j + 1)); }
  assert(any_sel(s, i1 as int) == any_sel(s, n1)) by { reveal(any_sel); if any_sel(s, i1 as int) { let i = choose|i: int| 0 <= i < i1 && #[trigger] s[i]; assert(i < n1); } if any_sel(s, n1) { let i = choose|i: int| 0 <= i < n1 && #[trigger] s[i]; assert(s[i]); } }
  assert(out_@ == o0 + t_text(*t, s, v, nm, w, i1 as int)) by { reveal_with_fuel(t_text, 2); cat_none(t_text(*t, s, v, nm, w, n1)); }
}
@ghost before 2
let ghost ob = out_@;
proof { cat_none(ob); reveal_with_fuel(total_lines, 1);
  assert(ob == o1 + head_text(*t, *p, nm, first, w)) by { reveal(head_text); reveal(acc_text); cat4(o1, date_payee(*t, nm, first, w), padl(acc_text(*p), w.acc), padr(money_text(p.amount->0), w.amount)); }
  assert(payees_grow(l0.payees, ledger.payees)) by { reveal(payees_grow); }
  assert forall|c: Option<Seq<char>>| #[trigger] balance.amt(c) == b1.amt(c) + p.amount->0.at(c) by { reveal(Balance::wf); }
  assert(balance.wf() && (balance.clean() || only_key(balance, None)) && balance.balance@.dom().len() > 0) by { reveal(Balance::wf); reveal(Balance::clean); nonempty(balance); }
}
@loop 2
more_than_one_line == (i2 > 0), out_@ == ob + total_lines(monies(it2@), i2 as int, w), enumerates(it2@, balance.balance@),
@ghost top 2
let ghost o2 = out_@;
@ghost bot 2
proof { let tl = total_lines(monies(it2@), i2 - 1, w); let pd = if i2 > 1 { padl(""@, w.left) } else { Seq::empty() }; let r = padr(money_text(*money), w.total);
  assert(monies(it2@)[i2 - 1] == *money); cat_none(o2); cat5(ob, tl, pd, r, seq!['\n']); 
  assert(out_@ == ((o2 + pd) + r) + seq!['\n']); assert(total_lines(monies(it2@), i2 as int, w) == ((tl + pd) + r) + seq!['\n']) by { reveal_with_fuel(total_lines, 2); } }
@ghost after 2
proof { let vv = monies(it2@); s = s.push(true); v = v.push(vv); sel_prefix(*t, s0, s, v0, v, nm, w, n1); assert(s[n1]);
  assert(any_sel(s, i1 as int)) by { reveal(any_sel); } assert(first == !any_sel(s, n1));
  assert(selects(*options, *t, ps[n1], true)) by { reveal(selects); }
  assert forall|c: Option<Seq<char>>| #[trigger] balance.amt(c) == lsum(ts, g.sel, ti, c) + tsum(ps, s, i1 as int, c) by { assert(b1.amt(c) == lsum(ts, g.sel, ti, c) + tsum(ps, s0, n1, c)); }
  assert(shows(vv, sum_at(ts, g, ti, s, i1 as int))) by { shows_balance(balance, it2@, sum_at(ts, g, ti, s, i1 as int)); }
  assert forall|j: int| 0 <= j < i1 && s[j] implies shows(#[trigger] v[j], sum_at(ts, g, ti, s, j + 1)) by { if j < n1 { assert(s0[j] && v0[j] == v[j]); sel_prefix(*t, s0, s, v0, v, nm, w, j + 1); assert(sum_at(ts, g, ti, s0, j + 1) =~= sum_at(ts, g, ti, s, j + 1)); } }
  assert(out_@ == o1 + row_text(*t, *p, nm, first, vv, w)) by { reveal(row_text); cat3(o1, head_text(*t, *p, nm, first, w), total_lines(vv, vv.len() as int, w)); }
  assert(out_@ == o0 + t_text(*t, s, v, nm, w, i1 as int)) by { reveal_with_fuel(t_text, 2); cat3(o0, t_text(*t, s, v, nm, w, n1), row_text(*t, *p, nm, first, vv, w)); }
}
@ghost after 1
proof { let g1 = g; g = Reg { sel: g.sel.push(s), lines: g.lines.push(v), names: g.names.push(nm), w: w };
  reg_keeps(*options, l0, g1, g, ti); reg_prefix(ts, g1, g, ti);
  assert(reg_trans(*options, l0, g, ti)) by { reveal(reg_trans);
    assert forall|j: int| 0 <= j < ps.len() && g.sel[ti][j] implies shows(#[trigger] g.lines[ti][j], prefix_sum(ts, g.sel, ti, j + 1)) by { assert(v[j] == g.lines[ti][j]); assert(prefix_sum(ts, g.sel, ti, j + 1) =~= sum_at(ts, g1, ti, s, j + 1)); } }
  assert(out_@ == old(out_)@ + reg_text(ts, g, i0 as int)) by { reveal_with_fuel(reg_text, 2); cat3(old(out_)@, reg_text(ts, g, ti), t_text(*t, s, v, nm, w, ps.len() as int)); }
}
@ghost after 0
proof { assert(reg_ok(*options, l0, g)); assert(loaded(options.input_file@, options.no_balance_check, l0)); }
@end
