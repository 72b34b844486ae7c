@module t_comment src/parser/tokenizers/comment.rs
@fn parse
requires old(tokenizer).ok(), old(tokenizer).more(), old(tokenizer).cur() != '\n'
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)), final(tokenizer).col_ok(),
  //# C15, C17: the rest of the line after the mark, without the blanks in front
  ({ let a = past_space(old(tokenizer).content@, old(tokenizer).position + 1); let e = line_end(old(tokenizer).content@, a);
     a > old(tokenizer).position && e >= a && r.comment@ == old(tokenizer).content@.subrange(a, e) && final(tokenizer).position == if e < old(tokenizer).content@.len() { e + 1 } else { e } }),
@ghost start
proof { ends_bound(old(tokenizer).content@, old(tokenizer).position as int); }
@module t_transaction src/parser/tokenizers/transaction.rs
@type RawPosting
@type PriceType
@raw
pub open spec fn undot(t: Seq<char>) -> Seq<char> decreases t.len() { if t.len() == 0 { t } else if t.last() == '.' { undot(t.drop_last()) } else { undot(t.drop_last()).push(t.last()) } }
pub open spec fn dots(t: Seq<char>) -> int decreases t.len() { if t.len() == 0 { 0 } else { dots(t.drop_last()) + if t.last() == '.' { 1int } else { 0int } } }
/// digits after the point
pub open spec fn decimals(t: Seq<char>) -> nat decreases t.len() { if t.len() == 0 { 0 } else if dots(t.drop_last()) > 0 { decimals(t.drop_last()) + 1 } else { 0 } }
pub open spec fn pow10(n: nat) -> int decreases n { if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
/// an optional minus sign, digits, at most one point
pub open spec fn num_text(t: Seq<char>) -> bool { dots(t) <= 1 && int_text(undot(t)) && forall|i: int| 0 < i < t.len() ==> #[trigger] t[i] != '-' }
/// the number that is written
pub open spec fn num_val(t: Seq<char>) -> real { int_val(undot(t)) as real / pow10(decimals(t)) as real }
/// where the number ends
pub open spec fn num_end(s: Seq<char>, i: int, dec: bool) -> int decreases s.len() - i {
    if !(0 <= i < s.len()) { i } else if s[i] == '.' { if dec { i } else { num_end(s, i + 1, true) } } else if (s[i] == '-' && !dec) || c_numeric(s[i]) { num_end(s, i + 1, dec) } else { i }
}
pub proof fn num_end_ge(s: Seq<char>, i: int, dec: bool) requires 0 <= i <= s.len() ensures i <= num_end(s, i, dec) <= s.len() decreases s.len() - i
{ if i < s.len() { if s[i] == '.' { if !dec { num_end_ge(s, i + 1, true); } } else if (s[i] == '-' && !dec) || c_numeric(s[i]) { num_end_ge(s, i + 1, dec); } } }
/// the amount at p and where it ends
pub open spec fn amount_at(s: Seq<char>, p: int) -> Option<(real, int)> {
    let e = num_end(s, p, false);
    if num_text(s.subrange(p, e)) && !(e < s.len() && s[e] == '.') { Some((num_val(s.subrange(p, e)), e)) } else { None }
}
/// amount, commodity, and where they end: the commodity before or after the number
pub open spec fn money_at(s: Seq<char>, p: int) -> Option<(real, Seq<char>, int)> {
    if !(0 <= p < s.len()) { None }
    else if c_numeric(s[p]) || s[p] == '.' || s[p] == '-' {
        match amount_at(s, p) { Some((v, e)) => Some((v, word_at(s, e).1, past_space(s, word_at(s, e).0))), None => None }
    } else {
        match amount_at(s, past_space(s, word_at(s, p).0)) { Some((v, e)) => Some((v, word_at(s, p).1, e)), None => None }
    }
}
pub proof fn pow10_pos(n: nat) ensures pow10(n) > 0 decreases n { if n > 0 { pow10_pos((n - 1) as nat); } }
pub open spec fn one_zeros(d: Seq<char>) -> bool { d.len() > 0 && d[0] == '1' && forall|i: int| 1 <= i < d.len() ==> #[trigger] d[i] == '0' }
pub proof fn one_zeros_val(d: Seq<char>) requires one_zeros(d) ensures int_text(d), int_val(d) == pow10((d.len() - 1) as nat), digits_val(d) == int_val(d) decreases d.len()
{ if d.len() == 1 { assert(d.drop_last() =~= Seq::<char>::empty()); assert(digits_val(d.drop_last()) == 0); assert(digits_val(d) == 1); } else { one_zeros_val(d.drop_last()); assert(digits_val(d) == digits_val(d.drop_last()) * 10 + 0); } }
pub proof fn undot_len(t: Seq<char>) ensures undot(t).len() + dots(t) == t.len(), dots(t) >= 0 decreases t.len() { if t.len() > 0 { undot_len(t.drop_last()); } }
pub proof fn no_dots(t: Seq<char>) ensures dots(t) >= 0, dots(t) == 0 ==> forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '.' decreases t.len() { if t.len() > 0 { no_dots(t.drop_last()); assert forall|i: int| dots(t) == 0 && 0 <= i < t.len() implies #[trigger] t[i] != '.' by { if i < t.len() - 1 { assert(t.drop_last()[i] == t[i]); } } } }
pub proof fn undot_front(t: Seq<char>, k: int) requires 0 <= k <= t.len(), forall|i: int| 0 <= i < k ==> #[trigger] t[i] != '.'
    ensures undot(t).len() >= k, forall|i: int| 0 <= i < k ==> #[trigger] undot(t)[i] == t[i] decreases t.len()
{ if t.len() > 0 { let d = t.drop_last(); assert forall|i: int| 0 <= i < k && i < d.len() implies #[trigger] d[i] != '.' by { assert(t[i] == d[i]); }
    let k1 = if k < t.len() { k } else { k - 1 }; undot_front(d, k1); 
    assert forall|i: int| 0 <= i < k implies #[trigger] undot(t)[i] == t[i] by { if i < k1 { assert(undot(d)[i] == d[i]); assert(d[i] == t[i]); } else { undot_len(t); undot_len(d); no_dots_all(d); assert(t[i] == t.last()); } } } }
pub proof fn no_dots_all(t: Seq<char>) requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '.' ensures dots(t) == 0 decreases t.len() { if t.len() > 0 { let d = t.drop_last(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] != '.' by { assert(t[i] == d[i]); } no_dots_all(d); assert(t[t.len() - 1] != '.'); } }
pub proof fn minus_first(t: Seq<char>) requires int_text(undot(t)), forall|i: int, j: int| 0 <= i < j < t.len() && #[trigger] t[i] == '.' ==> #[trigger] t[j] != '-' ensures forall|i: int| 0 < i < t.len() ==> #[trigger] t[i] != '-'
{ assert forall|i: int| 0 < i < t.len() implies #[trigger] t[i] != '-' by { if t[i] == '-' {
    assert forall|k: int| 0 <= k < i + 1 implies #[trigger] t[k] != '.' by { if t[k] == '.' && k < i { assert(t[i] != '-'); } }
    undot_front(t, i + 1); let u = undot(t); assert(u[i] == '-');
    if u[0] == '-' { assert(unsigned(u)[i - 1] == u[i]); } else { assert(unsigned(u)[i] == u[i]); } } } }
@fn parse_amount | guards
requires old(tokenizer).ok()
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)), old(tokenizer).col_ok() ==> final(tokenizer).col_ok(), final(tokenizer).line_index == old(tokenizer).line_index,
  final(tokenizer).position == num_end(old(tokenizer).content@, old(tokenizer).position as int, false), final(tokenizer).position >= old(tokenizer).position,
  //# C13: the exact number that is written
  (match amount_at(old(tokenizer).content@, old(tokenizer).position as int) { Some((v, e)) => r is Ok && r->Ok_0@ == v && e > old(tokenizer).position, None => r is Err }),
@ghost start
broadcast use numeric_us, white_nl;
proof { num_end_ge(old(tokenizer).content@, old(tokenizer).position as int, false); reveal_strlit("1"); }
@loop 0
tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), tokenizer.position >= old(tokenizer).position, old(tokenizer).col_ok() ==> tokenizer.col_ok(), tokenizer.line_index == old(tokenizer).line_index,
num_end(tokenizer.content@, tokenizer.position as int, decimal) == num_end(old(tokenizer).content@, old(tokenizer).position as int, false),
({ let t = old(tokenizer).content@.subrange(old(tokenizer).position as int, tokenizer.position as int);
   num@ == undot(t) && decimal == (dots(t) > 0) && dots(t) <= 1 && one_zeros(den@) && den@.len() == 1 + decimals(t) && plain_num(num@)
   && forall|i: int, j: int| 0 <= i < j < t.len() && #[trigger] t[i] == '.' ==> #[trigger] t[j] != '-' }),
ensures tokenizer.position == num_end(tokenizer.content@, tokenizer.position as int, decimal), !(tokenizer.more() && tokenizer.cur() == '.'),
decreases tokenizer.content@.len() - tokenizer.position
@ghost top 0
proof {
  ends_bound(tokenizer.content@, tokenizer.position as int);
  let s = old(tokenizer).content@; let a = old(tokenizer).position as int; let b = tokenizer.position as int;
  if b < s.len() { assert(s.subrange(a, b + 1).drop_last() =~= s.subrange(a, b)); assert(s.subrange(a, b + 1).last() == s[b]); }
  no_dots(s.subrange(a, b));
}
@ghost after 0
proof {
  let t = old(tokenizer).content@.subrange(old(tokenizer).position as int, tokenizer.position as int);
  one_zeros_val(den@); pow10_pos(decimals(t)); undot_len(t);
  if int_text(undot(t)) { minus_first(t); }
}
@fn parse_money | guards
requires old(tokenizer).ok()
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)), old(tokenizer).col_ok() ==> final(tokenizer).col_ok(), final(tokenizer).line_index == old(tokenizer).line_index, final(tokenizer).position >= old(tokenizer).position,
  //# C13: amount and commodity as written, in either order
  (match money_at(old(tokenizer).content@, old(tokenizer).position as int) {
     Some((v, c, e)) => r is Ok && r->Ok_0.0@ == v && r->Ok_0.1@ == c && final(tokenizer).position == e && e > old(tokenizer).position, None => r is Err }),
@ghost start
broadcast use bytes_b;
broadcast use prefix_first;
proof { reveal_strlit("\""); }
@raw
/// the account name: up to a tab, two blanks, or the end of the line
pub open spec fn acct_at(s: Seq<char>, i: int, name: Seq<char>) -> (Seq<char>, int, bool) decreases s.len() - i {
    if !(0 <= i < s.len()) { (name, i, true) } else if !c_white(s[i]) { acct_at(s, i + 1, name.push(s[i])) } else if s[i] == '\t' { (name, i + 1, false) } else if s[i] == '\n' { (name, i, true) }
    else if i + 1 >= s.len() || s[i + 1] == '\n' { (name, i + 1, true) } else if c_white(s[i + 1]) { (name, i + 2, false) } else { acct_at(s, i + 2, name.push(s[i]).push(s[i + 1])) }
}
/// what the brackets around the name say
pub open spec fn kind_of(name: Seq<char>) -> Option<(PostingType, Seq<char>)> {
    if name.len() > 0 && name[0] == '(' { if name.last() == ')' { Some((PostingType::Virtual, trim_s(name.drop_last().skip(1)))) } else { None } }
    else if name.len() > 0 && name[0] == '[' { if name.last() == ']' { Some((PostingType::VirtualMustBalance, trim_s(name.drop_last().skip(1)))) } else { None } }
    else { Some((PostingType::Real, name)) }
}
pub ghost struct PV { pub amount: Option<real>, pub cur: Option<Seq<char>>, pub cost: Option<real>, pub ccur: Option<Seq<char>>, pub ctype: Option<PriceType>, pub bal: Option<real>, pub bcur: Option<Seq<char>>, pub expr: Option<Seq<char>>, pub comments: Seq<Seq<char>> }
pub open spec fn orat(x: Option<BigRational>) -> Option<real> { match x { Some(v) => Some(v@), None => None } }
pub open spec fn ctexts(v: Seq<Comment>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].comment@) }
pub open spec fn pv(p: RawPosting) -> PV { PV { amount: orat(p.money_amount), cur: ostr(p.money_currency), cost: orat(p.cost_amount), ccur: ostr(p.cost_currency), ctype: p.cost_type, bal: orat(p.balance_amount), bcur: ostr(p.balance_currency), expr: ostr(p.amount_expr), comments: ctexts(p.comments@) } }
pub open spec fn pv0() -> PV { PV { amount: None, cur: None, cost: None, ccur: None, ctype: None, bal: None, bcur: None, expr: None, comments: Seq::empty() } }
/// one part of a posting line: expression, balance, cost or amount
pub open spec fn part_at(s: Seq<char>, i: int, auto: bool, v: PV) -> Option<(PV, int)> {
    let e = expr_end(s, i, 0);
    if s[i] == '(' { Some((PV { expr: Some(s.subrange(i, e)), ..v }, e)) }
    else if s[i] == '=' { match money_at(s, past_space(s, i + 1)) { Some((x, c, j)) => Some((PV { bal: Some(x), bcur: Some(c), ..v }, j)), None => None } }
    else if s[i] == '@' {
        let total = i + 1 < s.len() && s[i + 1] == '@';
        if v.amount is None { None } else { match money_at(s, past_space(s, if total { i + 2 } else { i + 1 })) { Some((x, c, j)) => Some((PV { cost: Some(x), ccur: Some(c), ctype: Some(if total { PriceType::Total } else { PriceType::PerUnit }), ..v }, j)), None => None } }
    } else { match money_at(s, i) { Some((x, c, j)) => if v.amount is Some { None } else { Some((PV { amount: Some(x), cur: Some(c), ..v }, j)) }, None => if auto { Some((PV { expr: Some(s.subrange(i, e)), ..v }, e)) } else { None } } }
}
pub open spec fn parts_at(s: Seq<char>, i: int, auto: bool, v: PV) -> Option<(PV, int)> decreases s.len() - i {
    if !(0 <= i < s.len()) || s[i] == '\n' { Some((v, i)) }
    else if s[i] == ';' { let a = past_space(s, i + 1); let e = line_end(s, a); Some((PV { comments: v.comments.push(s.subrange(a, e)), ..v }, if e < s.len() { e + 1 } else { e })) }
    else { match part_at(s, i, auto, v) { Some((v2, j)) => { let k = past_space(s, j); if i < k <= s.len() { parts_at(s, k, auto, v2) } else { None } }, None => None } }
}
/// account, kind, the rest and the end of the posting at p
pub open spec fn posting_at(s: Seq<char>, p: int, auto: bool) -> Option<(Seq<char>, PostingType, PV, int)> {
    let a = acct_at(s, p, Seq::empty());
    match kind_of(a.0) { None => None, Some((k, name)) => if a.2 { Some((name, k, pv0(), a.1)) } else { match parts_at(s, past_space(s, a.1), auto, pv0()) { Some((v, e)) => Some((name, k, v, e)), None => None } } }
}
pub proof fn past_space_ge(s: Seq<char>, i: int) requires 0 <= i <= s.len() ensures i <= past_space(s, i) <= s.len() decreases s.len() - i { if i < s.len() { past_space_ge(s, i + 1); } }
pub broadcast proof fn ctexts_empty(v: Seq<Comment>) requires v.len() == 0 ensures #[trigger] ctexts(v) == Seq::<Seq<char>>::empty() { assert(ctexts(v) =~= Seq::empty()); }
pub broadcast proof fn ctexts_push(v: Seq<Comment>, c: Comment) ensures #[trigger] ctexts(v.push(c)) == ctexts(v).push(c.comment@) { assert(ctexts(v.push(c)) =~= ctexts(v).push(c.comment@)); }
@fn parse_posting | guards isolate rlimit=60 spinoff
requires old(tokenizer).ok()
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)), final(tokenizer).position >= old(tokenizer).position,
  //# C15: account, kind, amount, cost, balance and comment, exactly as written, or an error
  (match posting_at(old(tokenizer).content@, old(tokenizer).position as int, transaction_type is Automated) {
     Some((name, kind, v, e)) => r is Ok && r->Ok_0.account@ == name && r->Ok_0.kind == kind && pv(r->Ok_0) == v && r->Ok_0.payee == *default_payee && final(tokenizer).position == e, None => r is Err }),
@ghost start
broadcast use bytes_b, white_nl, numeric_us, ctexts_empty, ctexts_push;
let ghost s = old(tokenizer).content@;
let ghost a0 = acct_at(s, old(tokenizer).position as int, Seq::empty());
@loop 0
tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), tokenizer.position >= old(tokenizer).position, s == tokenizer.content@, posting_type is Real,
invariant_except_break
!finished, acct_at(s, tokenizer.position as int, account@) == a0,
ensures a0 == (account@, tokenizer.position as int, finished)
decreases s.len() - tokenizer.position
@ghost top 0
proof { broadcast use white_nl; ends_bound(s, tokenizer.position as int); if tokenizer.position < s.len() { ends_bound(s, tokenizer.position + 1); } }
@ghost before 1
let ghost acc0 = posting.account@;
let ghost w0 = parts_at(s, tokenizer.position as int, transaction_type is Automated, pv0());
@loop 1
tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), tokenizer.position >= old(tokenizer).position, posting.account@ == acc0, posting.kind == posting_type, posting.payee == *default_payee,
s == tokenizer.content@, posting_at(s, old(tokenizer).position as int, transaction_type is Automated) == (match w0 { Some((v, e)) => Some((acc0, posting_type, v, e)), None => None }),
invariant_except_break
parts_at(s, tokenizer.position as int, transaction_type is Automated, pv(posting)) == w0,
ensures w0 == Some((pv(posting), tokenizer.position as int))
decreases s.len() - tokenizer.position
@ghost top 1
proof { broadcast use bytes_b, white_nl, numeric_us, ctexts_empty, ctexts_push; let p = tokenizer.position as int; ends_bound(s, p); if p < s.len() { ends_bound(s, p + 1); past_space_ge(s, p + 1); if p + 1 < s.len() { ends_bound(s, p + 2); past_space_ge(s, p + 2); } } }
@fn parse | assume
requires old(tokenizer).ok(), old(tokenizer).more()
ensures went(*old(tokenizer), *final(tokenizer), r is Ok), r is Ok ==> raw_ok(r->Ok_0) && entry(old(tokenizer).content@, old(tokenizer).position as int, final(tokenizer).position as int, r->Ok_0), r is Err && old(tokenizer).file is Some ==> blames(*old(tokenizer), *final(tokenizer), r->Err_0)
@fn parse_automated_transaction | assume
requires old(tokenizer).ok(), old(tokenizer).more(), old(tokenizer).cur() == '='
ensures went(*old(tokenizer), *final(tokenizer), r is Ok), r is Ok ==> raw_ok(r->Ok_0) && entry(old(tokenizer).content@, old(tokenizer).position as int, final(tokenizer).position as int, r->Ok_0), r is Err && old(tokenizer).file is Some ==> blames(*old(tokenizer), *final(tokenizer), r->Err_0)
@end
