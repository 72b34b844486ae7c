@module money_text src/models/money.rs
@raw
/// the text of an amount: what Display::fmt (under contract in money_fmt) makes of it
pub uninterp spec fn money_text(m: Money) -> Seq<char>;
#[verifier::external_body]
pub broadcast proof fn money_text_shown(m: Money) ensures #![trigger money_text(m)] shown_money(m, money_text(m)) {}
impl VDisp for Money { open spec fn disp(&self) -> Seq<char> { money_text(*self) } #[verifier::external_body] fn v_disp(&self) -> (r: String) { unimplemented!() } }
@module cmd_price_fmt src/models/price.rs
@raw
pub open spec fn price_text(p: Price) -> Seq<char> { date_text(p.date@) + " "@ + p.commodity.name@ + " "@ + money_text(p.price) }
pub open spec fn price_lines(s: Seq<Price>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { price_lines(s, n - 1) + name_line(price_text(s[n - 1])) } }
@fn Price as Display::fmt
@traw
open spec fn fmt_ens(&self, t: Seq<char>) -> bool { t == price_text(*self) }
@ghost tail
proof { assert(f@.take(old(f)@.len() as int) =~= old(f)@); assert(f@.skip(old(f)@.len() as int) =~= price_text(*self)); }
@raw
impl VDisp for Price { open spec fn disp(&self) -> Seq<char> { price_text(*self) } fn v_disp(&self) -> (r: String) { let mut f = Formatter::v_new(); let q = self.fmt(&mut f); proof { assert(f@.skip(0) =~= f@); } f.v_done() } }
@module cmd_prices src/commands/prices.rs
@fn execute | out
ensures
  //# C05: every price of the ledger, in order, and nothing else
  r is Ok ==> exists|l: Ledger| #[trigger] loaded(path@, no_balance_check, l) && final(out_)@ == old(out_)@ + price_lines(l.prices@, l.prices@.len() as int),
  r is Err ==> final(out_)@ == old(out_)@,
@loop 0
out_@ == old(out_)@ + price_lines(ledger.prices@, i0 as int),
@ghost top 0
proof { assert(*price == ledger.prices@[i0 - 1]); }
@ghost after 0
proof { assert(loaded(path@, no_balance_check, ledger)); }
@end
