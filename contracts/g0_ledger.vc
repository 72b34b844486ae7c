@module price src/models/price.rs
@type Price
@fn Price::new
ensures r.date == date, r.commodity == commodity, r.price == price
@fn Price::get_price
ensures r == self.price
@module models src/models/models.rs
@type ParsedPrice
@module led_comment src/models/comment.rs
@raw
/// the tags a comment carries
pub uninterp spec fn comment_tags(c: Comment) -> Seq<Tag>;
pub open spec fn tags_in(s: Seq<Comment>, n: int) -> Seq<Tag> decreases n { if n <= 0 { Seq::empty() } else { tags_in(s, n - 1) + comment_tags(s[n - 1]) } }
@fn Comment::get_tags | assume
ensures r@ == comment_tags(*self)
@module led_error src/error.rs
@fn Error as From<LedgerError>::from
@tens
true
@fn Error as From<ParserError>::from
@tens
true
@module led_account src/models/account.rs
@fn Account::payees
ensures *r == self.payee
@module led_payee src/models/payee.rs
@fn Payee::get_aliases
ensures *r == self.alias_regex
@module led_transaction src/models/transaction.rs
@fn Transaction<PostingType>::new
ensures r.transaction_type == t_type, r.date is None, r.effective_date is None, r.code is None, r.payee is None, r.postings.v@.len() == 0, r.comments@.len() == 0, r.tags@.len() == 0, r.filter_query is None
@fn Transaction<T>::get_payee_inmutable | maypanic
requires payees.targets_ok()
ensures payees.find(self.description@) == Some(r)
@fn Transaction<T>::get_payee
requires old(payees).wf()
ensures
  final(payees).wf(), payees_grow(*old(payees), *final(payees)),
  //# the payee a description stands for
  r.name@ == payee_name(*old(payees), self.description@),
decreases (if old(payees).find(self.description@) is Some { 0int } else { 1int })
@ghost start
broadcast use lower_idem;
let ghost p0 = *payees;
@ghost post payees.insert(
proof { assert forall|n: Seq<char>| #[trigger] p0.find(n) is Some implies payees.find(n) == p0.find(n) by {
  let k = lower(n); let d = lower(self.description@); assert(k != d);
  if p0.list@.dom().contains(k) { assert(payees.list@[k] == p0.list@[k]); } else { let a = p0.aliases@[k].1@; assert(p0.aliases@.dom().contains(k)); assert(!payees.list@.dom().contains(k)); assert(payees.aliases@.dom().contains(k)); assert(payees.aliases@[k].1@ == a); assert(p0.list@.dom().contains(a)); assert(payees.list@[a] == p0.list@[a]); } } }
@raw
/// how far the condition of an automated transaction has been split into words
pub struct WS { pub parts: Seq<Seq<char>>, pub cur: Seq<char>, pub re: bool, pub st: bool }
/// words end at spaces outside quotes and slashes; a double quote only groups
pub open spec fn split_char(w: WS, c: char) -> WS {
    let v = if c == ' ' && !w.st && !w.re { WS { parts: w.parts.push(w.cur), cur: Seq::empty(), ..w } } else { w };
    if c == '"' { WS { st: !v.st, ..v } } else if c == '/' { WS { re: !v.re, cur: v.cur.push(c), ..v } } else { WS { cur: v.cur.push(c), ..v } }
}
pub open spec fn split_cond(d: Seq<char>, n: int) -> WS decreases n { if n <= 0 { WS { parts: Seq::empty(), cur: Seq::empty(), re: false, st: false } } else { split_char(split_cond(d, n - 1), d[n - 1]) } }
pub open spec fn cond_words(d: Seq<char>) -> Seq<Seq<char>> { split_cond(d, d.len() as int).parts.push(split_cond(d, d.len() as int).cur) }
/// the condition of an automated transaction as a query
pub open spec fn cond_text(d: Seq<char>) -> Seq<char> { "("@ + read_vs(cond_words(d), cond_words(d).len() as int).text + ")"@ }
pub open spec fn views(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn cond_ok<T>(t: Transaction<T>) -> bool { t.filter_query is Some ==> t.filter_query->0@ == cond_text(t.description@) }
@fn Transaction<T>::get_filter_query
requires cond_ok(*old(self))
ensures
  //# C16: the condition is read as a query
  r@ == cond_text(old(self).description@),
  cond_ok(*final(self)), final(self).description == old(self).description, final(self).postings == old(self).postings, final(self).comments == old(self).comments,
@loop 0
it0@ == self.description@, views(parts@) == split_cond(self.description@, i0 as int).parts, current@ == split_cond(self.description@, i0 as int).cur, in_regex == split_cond(self.description@, i0 as int).re, in_string == split_cond(self.description@, i0 as int).st,
*self == *old(self),
@ghost top 0
let ghost p0 = parts@; let ghost w0 = split_cond(self.description@, i0 - 1);
@ghost bot 0
proof { if parts@.len() > p0.len() { assert(views(parts@) =~= views(p0).push(w0.cur)); } }
@ghost after 0
let ghost pf = parts@;
@ghost pre let res = preprocess_query
proof { assert(views(parts@) =~= cond_words(self.description@)); read_same(parts@, parts@.len() as int); }
@raw
pub open spec fn payee_name(l: List<Payee>, d: Seq<char>) -> Seq<char> { match l.find(d) { Some(p) => p.name@, None => d } }
pub open spec fn payees_grow(a: List<Payee>, b: List<Payee>) -> bool { b.aliases@.dom() =~= a.aliases@.dom() && forall|n: Seq<char>| #[trigger] a.find(n) is Some ==> b.find(n) == a.find(n) }
@module ledger src/models/mod.rs
@type Ledger
@type ParsedLedger
@raw
impl VToOwned for Posting { type Own = Posting; open spec fn own_ens(&self, r: Posting) -> bool { r == *self } #[verifier::external_body] fn v_to_owned(&self) -> (r: Posting) { unimplemented!() } }
/// a transaction as read: dated, and its condition not yet worked out
pub open spec fn raw_ok(t: Transaction<RawPosting>) -> bool { cond_ok(t) && (t.transaction_type is Real ==> t.date is Some) }
impl ParsedLedger {
    pub open spec fn lists_ok(&self) -> bool { self.accounts.wf() && self.payees.wf() && self.commodities.wf() }
    pub open spec fn wf(&self) -> bool { self.lists_ok() && forall|i: int| 0 <= i < self.transactions@.len() ==> raw_ok(#[trigger] self.transactions@[i]) }
}
impl Ledger { pub open spec fn wf(&self) -> bool { self.accounts.wf() && self.payees.wf() && self.commodities.wf() } }
/// an amount that is written: its number, in the commodity its name stands for
pub open spec fn written(l: List<Currency>, c: Option<String>, a: Option<BigRational>, m: Option<Money>) -> bool {
    match c { None => m is None, Some(n) => a is Some && l.find(n@) is Some && m == Some(Money::Money { amount: a->0, currency: l.find(n@)->0 }) }
}
pub open spec fn pays(a: Account, payee: Seq<char>) -> bool { exists|i: int| 0 <= i < a.payee@.len() && re_matches((#[trigger] a.payee@[i])@, payee) }
pub open spec fn is_unknown(n: Seq<char>) -> bool { is_suffix("unknown"@, lower(n)) }
/// the account a name stands for; an account called unknown is one that the payee is listed for, if there is one
pub open spec fn account_of(l: List<Account>, n: Seq<char>, payee: Seq<char>, a: Rc<Account>) -> bool {
    if is_unknown(n) && (exists|k: Seq<char>| #[trigger] l.list@.dom().contains(k) && pays(*l.list@[k].1, payee)) {
        exists|k: Seq<char>| #[trigger] l.list@.dom().contains(k) && pays(*l.list@[k].1, payee) && a == l.list@[k].1
    } else { l.find(n) == Some(a) }
}
pub open spec fn payee_of(l: List<Payee>, t: Transaction<RawPosting>, w: RawPosting) -> Option<Rc<Payee>> { match w.payee { None => l.find(t.description@), Some(x) => l.find(x@) } }
pub open spec fn cost_of(l: List<Currency>, w: RawPosting, k: Option<Cost>) -> bool {
    if w.cost_currency is None { k is None } else { k is Some && w.cost_type is Some && match k->0 {
        Cost::Total { amount } => w.cost_type->0 is Total && written(l, w.cost_currency, w.cost_amount, Some(amount)),
        Cost::PerUnit { amount } => w.cost_type->0 is PerUnit && written(l, w.cost_currency, w.cost_amount, Some(amount)) } }
}
/// p is what the line w of transaction t says
pub open spec fn line_of(l: ParsedLedger, t: Transaction<RawPosting>, w: RawPosting, p: Posting) -> bool {
    &&& p.kind == w.kind && p.origin == PostingOrigin::FromTransaction
    &&& p.payee is Some && payee_of(l.payees, t, w) is Some && *p.payee->0 == *payee_of(l.payees, t, w)->0
    &&& account_of(l.accounts, w.account@, p.payee->0.name@, p.account)
    &&& written(l.commodities, w.money_currency, w.money_amount, p.amount) && written(l.commodities, w.balance_currency, w.balance_amount, p.balance) && cost_of(l.commodities, w, p.cost)
    &&& p.tags.v@ == tags_in(t.comments@, t.comments@.len() as int) + tags_in(w.comments@, w.comments@.len() as int)
}
/// a price: from when, of what, how much of which commodity
pub struct PriceV { pub date: int, pub what: Seq<char>, pub amount: real, pub unit: Option<Seq<char>> }
pub open spec fn price_v(p: Price) -> PriceV { PriceV { date: p.date@, what: p.commodity.kid(), amount: p.price.amt(), unit: p.price.cid() } }
pub open spec fn price_vs(s: Seq<Price>) -> Seq<PriceV> { s.map_values(|p: Price| price_v(p)) }
/// the price of one unit that the cost of a line states: no price for zero units
pub open spec fn line_price(l: List<Currency>, d: int, w: RawPosting) -> Option<PriceV> {
    if w.cost_currency is None || (w.cost_type->0 is Total && w.money_amount->0@ == 0real) { None }
    else { Some(PriceV { date: d, what: l.find(w.money_currency->0@)->0.kid(), amount: if w.cost_type->0 is Total { w.cost_amount->0@ / absr(w.money_amount->0@) } else { w.cost_amount->0@ }, unit: Some(l.find(w.cost_currency->0@)->0.kid()) }) }
}
pub open spec fn opt_push(s: Seq<PriceV>, p: Option<PriceV>) -> Seq<PriceV> { match p { Some(x) => s.push(x), None => s } }
pub open spec fn line_prices(l: List<Currency>, d: int, s: Seq<RawPosting>, n: int) -> Seq<PriceV> decreases n { if n <= 0 { Seq::empty() } else { opt_push(line_prices(l, d, s, n - 1), line_price(l, d, s[n - 1])) } }
/// t is the transaction that is written as w
pub open spec fn trans_of(l: ParsedLedger, w: Transaction<RawPosting>, t: Transaction<Posting>) -> bool {
    &&& t.date == w.date && t.effective_date == w.effective_date && t.description == w.description && t.code == w.code && t.comments == w.comments && t.tags@ == tags_in(w.comments@, w.comments@.len() as int) && t.transaction_type is Real && t.filter_query is None
    &&& t.postings.v@.len() == w.postings.v@.len()
    &&& forall|i: int| 0 <= i < t.postings.v@.len() ==> line_of(l, w, #[trigger] w.postings.v@[i], #[trigger] t.postings.v@[i])
    &&& costs_ok(t.postings.v@)
}
@fn ParsedLedger::_transaction_to_ledger | maypanic
requires self.lists_ok()
ensures
  //# C05, C16, C20: each transaction once, line by line; automated ones are kept aside
  r is Ok && parsed.transaction_type is Real ==> r->Ok_0.0@.len() == 1 && trans_of(*self, *parsed, r->Ok_0.0@[0]) && r->Ok_0.1@.len() == 0,
  r is Ok && parsed.transaction_type is Automated ==> r->Ok_0.0@.len() == 0 && r->Ok_0.1@ == seq![*parsed],
  r is Ok && parsed.transaction_type is Periodic ==> r->Ok_0.0@.len() == 0 && r->Ok_0.1@.len() == 0,
  //# C05: a price for each line with a cost, and no other
  r is Ok && parsed.transaction_type is Real ==> price_vs(r->Ok_0.2@) == line_prices(self.commodities, parsed.date->0@, parsed.postings.v@, parsed.postings.v@.len() as int),
  r is Ok && !(parsed.transaction_type is Real) ==> r->Ok_0.2@.len() == 0,
@ghost start
hide(List::wf); hide(account_of); hide(line_of); hide(line_price); hide(costs_ok); hide(pays);
let ghost ws = parsed.postings.v@;
proof { reveal(List::wf); }
@loop 0
transaction.date == parsed.date, transaction.effective_date == parsed.effective_date, transaction.description == parsed.description, transaction.code == parsed.code, transaction.comments == parsed.comments, transaction.transaction_type is Real, transaction.filter_query is None,
transaction.tags@ == tags_in(parsed.comments@, i0 as int), transaction.postings.v@.len() == 0,
@loop 1
transaction.date == parsed.date, transaction.effective_date == parsed.effective_date, transaction.description == parsed.description, transaction.code == parsed.code, transaction.comments == parsed.comments, transaction.transaction_type is Real, transaction.filter_query is None,
transaction.tags@ == tags_in(parsed.comments@, parsed.comments@.len() as int), transaction.postings.v@.len() == i1,
forall|i: int| 0 <= i < i1 ==> line_of(*self, *parsed, #[trigger] ws[i], #[trigger] transaction.postings.v@[i]),
forall|i: int| 0 <= i < i1 && (#[trigger] transaction.postings.v@[i]).cost is Some && transaction.postings.v@[i].cost->0 is PerUnit ==> transaction.postings.v@[i].cost->0->PerUnit_amount is Money,
price_vs(prices@) == line_prices(self.commodities, parsed.date->0@, ws, i1 as int),
@ghost top 1
let ghost tp = transaction.postings.v@; let ghost pp = prices@; let ghost w = ws[i1 - 1];
assert(*p == w);
@loop 2
account is Some ==> exists|k: Seq<char>| #[trigger] self.accounts.list@.dom().contains(k) && pays(*self.accounts.list@[k].1, payee.name@) && account->0 == self.accounts.list@[k].1,
account is None ==> forall|i: int| 0 <= i < i2 ==> !pays(**(#[trigger] it2@[i]).1, payee.name@),
@loop 3
account is Some ==> exists|k: Seq<char>| #[trigger] self.accounts.list@.dom().contains(k) && pays(*self.accounts.list@[k].1, payee.name@) && account->0 == self.accounts.list@[k].1,
account is None ==> forall|i: int| 0 <= i < i2 - 1 ==> !pays(**(#[trigger] it2@[i]).1, payee.name@),
account is None ==> forall|i: int| 0 <= i < i3 ==> !re_matches((#[trigger] it3@[i])@, payee.name@),
ensures account is None ==> i3 == it3.len(),
@ghost bot 2
proof { let a = **it2@[i2 - 1].1; assert(account is None ==> !pays(a, payee.name@)) by { reveal(pays); } }
@ghost after 3
proof { reveal(pays); let a = **it2@[i2 - 1].1; let k = it2@[i2 - 1].0.kid(); assert(self.accounts.list@.dom().contains(k)); assert(a == **acc);
  if account is None { assert forall|i: int| 0 <= i < a.payee@.len() implies !re_matches((#[trigger] a.payee@[i])@, payee.name@) by { assert(*it3@[i] == a.payee@[i]); } } }
@ghost after 2
proof { if account is None { assert forall|k: Seq<char>| #[trigger] self.accounts.list@.dom().contains(k) implies !pays(*self.accounts.list@[k].1, payee.name@) by { let i = choose|i: int| 0 <= i < it2@.len() && (#[trigger] it2@[i]).0.kid() == k; } } }
@ghost pre let mut posting: Posting
proof { assert(account_of(self.accounts, w.account@, payee.name@, account)) by { reveal(account_of); } }
@ghost bot 1
proof { let x = transaction.postings.v@.last(); assert(transaction.postings.v@ == tp.push(x));
  assert(line_of(*self, *parsed, w, x)) by { reveal(line_of); }
  reveal(line_price);
  if w.cost_currency is Some { assert(w.cost_amount->0@ / 1real == w.cost_amount->0@); }
  if prices@.len() > pp.len() { assert(prices@ == pp.push(prices@.last())); assert(price_v(prices@.last()) == line_price(self.commodities, parsed.date->0@, w)->0); assert(price_vs(prices@) =~= price_vs(pp).push(price_v(prices@.last()))); } else { assert(prices@ == pp); }
  assert(price_vs(prices@) =~= opt_push(price_vs(pp), line_price(self.commodities, parsed.date->0@, w)));
}
@ghost after 1
proof { assert(costs_ok(transaction.postings.v@)) by { reveal(costs_ok); } }
@loop 4
posting.tags.v@ == tags_in(parsed.comments@, parsed.comments@.len() as int) + tags_in(w.comments@, i4 as int),
@module tokenize src/parser/mod.rs
@fn Tokenizer<'a> as From<&'a PathBuf>::from | maypanic
@tens
r.ok() && r.position == 0 && r.file == Some(file) && r.content@ == file_text(file@)
