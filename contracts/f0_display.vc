@module money_fmt src/models/money.rs
@raw
/// the value in units of the last decimal shown, rounded to the nearest, halves away from zero
pub open spec fn rounded(x: real, d: nat) -> int { (absr(x) * (pow10(d) as real) + 1real / 2real).floor() }
/// what is shown of x with d decimals
pub open spec fn shown(x: real, d: nat) -> Seq<char> {
    let n = rounded(x, d); let p = pow10(d);
    (if x < 0real && n != 0 { seq!['-'] } else { Seq::<char>::empty() }) + dec((n / p) as nat) + seq!['.'] + pad0(dec((n % p) as nat), d as int)
}
/// C12: sign, rounded number, commodity
pub open spec fn shown_money(m: Money, t: Seq<char>) -> bool {
    match m { Money::Zero => t == seq!['0'], Money::Money { amount, currency } => { let d = if currency.precision is Some { currency.precision->0 } else { 2usize }; 1 <= d <= 7 ==> t == shown(amount@, d as nat) + seq![' '] + currency.name@ } }
}
pub proof fn dec_digits(n: nat) ensures all_dig(dec(n)), digits_val(dec(n)) == n, dec(n).len() >= 1 decreases n
{ if n >= 10 { dec_digits(n / 10); let d = dec(n); assert(d.drop_last() =~= dec(n / 10)); assert(d.last() == digit_c((n % 10) as int)); assert forall|i: int| 0 <= i < d.len() implies is_dig(#[trigger] d[i]) by { if i < d.len() - 1 { assert(d[i] == d.drop_last()[i]); } } } else { let d = dec(n); assert(d.drop_last() =~= Seq::<char>::empty()); assert(digits_val(Seq::<char>::empty()) == 0); } }
pub proof fn dec_len(n: nat, k: nat) requires k >= 1 ensures dec(n).len() <= k <==> n < pow10(k) decreases k
{ assert(pow10(1) == 10 * pow10(0)); assert(pow10(k) == 10 * pow10((k - 1) as nat)); dec_digits(n / 10); if k > 1 { dec_len(n / 10, (k - 1) as nat); if n < 10 { pow10_pos((k - 1) as nat); } } }
pub proof fn zeros_val(z: Seq<char>, s: Seq<char>) requires forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == '0', all_dig(s) ensures all_dig(z + s), digits_val(z + s) == digits_val(s) decreases s.len() + z.len()
{ if s.len() > 0 { let t = z + s; assert(t.drop_last() =~= z + s.drop_last()); assert(t.last() == s.last()); assert forall|i: int| 0 <= i < s.drop_last().len() implies is_dig(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); } zeros_val(z, s.drop_last()); }
  else if z.len() > 0 { let y = z.drop_last(); assert((z + s) =~= z); assert((y + s) =~= y); assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] == '0' by { assert(z[i] == y[i]); } zeros_val(y, s); assert(z.last() == z[z.len() - 1]); } else { assert((z + s) =~= s); }
  assert forall|i: int| 0 <= i < (z + s).len() implies is_dig(#[trigger] (z + s)[i]) by { if i < z.len() { assert(z[i] == '0'); } else { assert(is_dig(s[i - z.len()])); } } }
pub proof fn pad_val(n: nat, w: int) ensures all_dig(pad0(dec(n), w)), digits_val(pad0(dec(n), w)) == n, pad0(dec(n), w).len() >= 1, pad0(dec(n), w).len() == (if dec(n).len() < w { w } else { dec(n).len() as int })
{ dec_digits(n); let s = dec(n); if s.len() < w { zeros_val(Seq::new((w - s.len()) as nat, |i: int| '0'), s); } }
pub proof fn dig_utf8(s: Seq<char>) requires all_dig(s) ensures utf8_len(s) == s.len() decreases s.len()
{ if s.len() > 0 { assert(is_dig(s.last())); assert forall|i: int| 0 <= i < s.drop_last().len() implies is_dig(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); } dig_utf8(s.drop_last()); } }
pub proof fn dig_take(s: Seq<char>, k: int) requires all_dig(s), 0 <= k <= s.len() ensures is_bound(s, k), byte_idx(s, k) == k
{ let t = s.take(k); assert forall|i: int| 0 <= i < t.len() implies is_dig(#[trigger] t[i]) by { assert(s[i] == t[i]); } dig_utf8(t); let j = byte_idx(s, k); assert(utf8_len(s.take(k)) == k); if j < k { utf8_mono(s, j, k); } else if j > k { utf8_mono(s, k, j); } }
pub proof fn pow_same(n: nat) ensures pow_s(10, n) == pow10(n) decreases n { if n > 0 { pow_same((n - 1) as nat); } }
pub proof fn pow_vals() ensures pow10(0) == 1, pow10(1) == 10, pow10(2) == 100, pow10(3) == 1000, pow10(4) == 10000, pow10(5) == 100000, pow10(6) == 1000000, pow10(7) == 10000000, pow10(8) == 100000000, pow10(9) == 1000000000
{ reveal_with_fuel(pow10, 10); }
/// rounding by truncating twice
pub proof fn round_lemma(a: real, p: int) requires a >= 0real, p >= 1
    ensures ({ let i = a.floor(); let f = a - i as real; let d = (f * ((p * 100) as real)).floor(); let e = d / 10; let q = if e % 10 >= 5 { e / 10 + 1 } else { e / 10 };
      0real <= f < 1real && 0 <= d < p * 100 && 0 <= q <= p && (a * (p as real) + 1real / 2real).floor() == i * p + q })
{
    let i = a.floor(); let f = a - i as real; let pr = p as real; let y = f * pr;
    assert(0real <= f < 1real); assert((p * 100) as real == pr * 100real);
    assert(f * ((p * 100) as real) == y * 100real) by(nonlinear_arith) requires y == f * pr, (p * 100) as real == pr * 100real;
    assert(0real <= y < pr) by(nonlinear_arith) requires y == f * pr, 0real <= f < 1real, pr >= 1real;
    assert(a * pr == i as real * pr + y) by(nonlinear_arith) requires y == f * pr, f == a - i as real;
    assert((i * p) as real == i as real * pr) by(nonlinear_arith) requires pr == p as real;
    let d = (y * 100real).floor(); let e = d / 10; let q = if e % 10 >= 5 { e / 10 + 1 } else { e / 10 };
    assert((i * p + q) as real == (i * p) as real + q as real);
    assert(d as real <= y * 100real < (d + 1) as real);
    assert(e * 10 <= d <= e * 10 + 9); 
    assert(q as real <= y + 1real / 2real < (q + 1) as real);
}
@raw
pub proof fn div_mod(i: int, p: int, q: int) requires 0 <= i, 0 <= q <= p, p >= 1 ensures (i * p + q) / p == (if q == p { i + 1 } else { i }), (i * p + q) % p == (if q == p { 0 } else { q })
{
    if q == p { assert(i * p + q == (i + 1) * p) by(nonlinear_arith) requires q == p; vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse((i + 1) * p, p, i + 1, 0); }
    else { assert(i * p + q == p * i + q) by(nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(i * p + q, p, i, q); }
}
/// digits after the point, two more than shown, cut off
pub open spec fn cut(x: real, d: nat) -> int { trunc_r(absr((x - trunc_r(x) as real) * (pow_s(10, d + 2) as real))) }
pub open spec fn up(x: real, d: nat) -> int { let e = cut(x, d) / 10; if e % 10 >= 5 { e / 10 + 1 } else { e / 10 } }
pub proof fn money_round(x: real, d: nat) requires 1 <= d <= 7
    ensures 0 <= cut(x, d) < pow10(d + 2) <= 1000000000, pow_s(10, d + 2) == pow10(d + 2), 1 <= pow10(d), 0 <= up(x, d) <= pow10(d), absr(trunc_r(x) as real) == absr(x).floor() as real, absr(x).floor() >= 0,
      rounded(x, d) / pow10(d) == (if up(x, d) == pow10(d) { absr(x).floor() + 1 } else { absr(x).floor() }), rounded(x, d) % pow10(d) == (if up(x, d) == pow10(d) { 0 } else { up(x, d) }),
      rounded(x, d) == 0 <==> absr(x).floor() == 0 && up(x, d) == 0,
{
    pow_vals(); pow_same(d + 2); pow10_pos(d); assert(pow10(d + 2) == 100 * pow10(d)) by { reveal_with_fuel(pow10, 3); }
    let p = pow10(d); let a = absr(x); round_lemma(a, p);
    let k = trunc_r(x); let fr = x - k as real; let p2 = pow10(d + 2) as real;
    assert(absr(fr * p2) == absr(fr) * p2) by(nonlinear_arith) requires p2 >= 1real;
    assert(absr(fr) == a - a.floor() as real);
    assert(absr(fr) * p2 >= 0real) by(nonlinear_arith) requires p2 >= 1real, absr(fr) >= 0real;
    let i = a.floor(); let q = up(x, d);
    assert(rounded(x, d) == i * p + q);
    div_mod(i, p, q);
    if i > 0 { assert(i * p + q > 0) by(nonlinear_arith) requires i > 0, p >= 1, q >= 0; }
    if i == 0 { assert(i * p == 0); }
}
@fn Money as Display::fmt | fmt maypanic ovf rlimit=40
@traw
open spec fn fmt_ens(&self, t: Seq<char>) -> bool { shown_money(*self, t) }
@ghost start
hide(pow10); hide(rounded); hide(pow_s); hide(digits_val); hide(dec); hide(utf8_len); hide(trunc_r); hide(absr);
proof { reveal_strlit("0"); reveal_strlit("-"); reveal_strlit(""); reveal_strlit("."); reveal_strlit(" ");
  if self is Money { let c = self->currency; let d = if c.precision is Some { c.precision->0 } else { 2usize }; if 1 <= d <= 7 { money_round(self->amount@, d as nat); } } }
@ghost pre decimal_str.truncate
proof { let d = decimals as nat; if 1 <= d <= 7 { let n = cut(amount@, d) as nat; assert(decimal_part@ == n as real); assert(decimal_part@.floor() == n); pad_val(n, d as int + 2); dec_len(n, d + 2); let s = decimal_str@; dig_utf8(s); dig_take(s, d as int + 1); assert(s.take(d as int + 1) =~= s.drop_last()); 
  assert forall|i: int| 0 <= i < s.drop_last().len() implies is_dig(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); } 
  assert(digits_val(s) == digits_val(s.drop_last()) * 10 + (s.last() as int - '0' as int)) by { reveal(digits_val); } assert(is_dig(s.last())); assert(digits_val(s.drop_last()) == n as int / 10); } }
@ghost pre let len
proof { let d = decimals as nat; if 1 <= d <= 7 { assert(decimal == up(amount@, d)); dec_digits(decimal as nat); dig_utf8(dec(decimal as nat)); dec_len(decimal as nat, d); dec_len(decimal as nat, d + 1); assert(pow10(d) < pow10(d + 1)) by { reveal(pow10); } } }
@ghost post let sign
proof { let d = decimals as nat; if 1 <= d <= 7 { assert(integer_part@.floor() as real == integer_part@); assert(decimal_str@ == pad0(dec((rounded(amount@, d) % pow10(d)) as nat), d as int)); assert(integer_part@.floor() == rounded(amount@, d) / pow10(d)); 
  assert(sign@ == if amount@ < 0real && rounded(amount@, d) != 0 { seq!['-'] } else { Seq::<char>::empty() }); } }
@ghost tail
proof { let n0 = old(f)@.len() as int; assert(f@.take(n0) =~= old(f)@); let t = f@.skip(n0);
  match self { Money::Zero => { assert(t =~= seq!['0']); }, Money::Money { amount, currency } => { let d = if currency.precision is Some { currency.precision->0 } else { 2usize }; if 1 <= d <= 7 { assert(t =~= shown(amount@, d as nat) + seq![' '] + currency.name@); } } } }
@end
