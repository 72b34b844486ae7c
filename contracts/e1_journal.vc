@module t_payee src/parser/tokenizers/payee.rs
@fn parse | assume
requires old(tokenizer).ok(), old(tokenizer).more()
ensures went(*old(tokenizer), *final(tokenizer), r is Ok)
@module t_account src/parser/tokenizers/account.rs
@fn parse | assume
requires old(tokenizer).ok(), old(tokenizer).more()
ensures went(*old(tokenizer), *final(tokenizer), r is Ok)
@module t_commodity src/parser/tokenizers/commodity.rs
@fn parse | assume
requires old(tokenizer).ok(), old(tokenizer).more()
ensures went(*old(tokenizer), *final(tokenizer), r is Ok)
@module t_tag src/parser/tokenizers/tag.rs
@fn parse | assume
requires old(tokenizer).ok(), old(tokenizer).more()
ensures went(*old(tokenizer), *final(tokenizer), r is Ok)
@module t_price src/parser/tokenizers/price.rs
@fn parse | assume
requires old(tokenizer).ok(), old(tokenizer).more()
ensures went(*old(tokenizer), *final(tokenizer), r is Ok)
@module t_include src/parser/include.rs
@fn parse | assume
requires old(tokenizer).ok(), old(tokenizer).more()
ensures went(*old(tokenizer), *final(tokenizer), r is Ok), r is Ok ==> r->Ok_0.wf() && included(old(tokenizer).content@, old(tokenizer).position as int, r->Ok_0), r is Err && old(tokenizer).file is Some ==> blames(*old(tokenizer), *final(tokenizer), r->Err_0) || nested(r->Err_0)
@module journal src/parser/mod.rs
@raw
/// the reader went on, over one item of the text
pub open spec fn went(a: Tokenizer, b: Tokenizer, done: bool) -> bool {
    &&& b.same_text(a) && a.position < b.position <= a.content@.len()
    &&& done ==> b.ok() && b.col_ok()
    &&& !done ==> line_ends(a.content@, a.position as int) <= b.line_index <= line_ends(a.content@, b.position as int) && b.line_position <= b.content@.len() && b.content@.len() <= i32::MAX
}
/// the error names a line of the item
pub open spec fn blames(a: Tokenizer, b: Tokenizer, e: Error) -> bool { names_among(e, line_ends(a.content@, a.position as int), line_ends(a.content@, b.position as int)) }
pub open spec fn names_among(e: Error, lo: int, hi: int) -> bool { exists|l: int, c: int| lo <= l <= hi && #[trigger] names_line(e, l, c) }
/// what an included journal holds, and that an error is of an included journal
pub uninterp spec fn included(s: Seq<char>, at: int, l: ParsedLedger) -> bool;
pub uninterp spec fn nested(e: Error) -> bool;
/// the transaction written at s[at..end]
pub uninterp spec fn entry(s: Seq<char>, at: int, end: int, t: Transaction<RawPosting>) -> bool;
pub struct Found { pub txs: Seq<Transaction<RawPosting>>, pub comments: Seq<Comment>, pub prices: Seq<ParsedPrice>, pub tags: Seq<Tag> }
pub open spec fn nothing() -> Found { Found { txs: Seq::empty(), comments: Seq::empty(), prices: Seq::empty(), tags: Seq::empty() } }
pub open spec fn plus(a: Found, b: Found) -> Found { Found { txs: a.txs + b.txs, comments: a.comments + b.comments, prices: a.prices + b.prices, tags: a.tags + b.tags } }
pub open spec fn found_in(l: ParsedLedger) -> Found { Found { txs: l.transactions@, comments: l.comments@, prices: l.prices@, tags: l.tags@ } }
pub struct Item { pub at: int, pub end: int, pub add: Found }
pub open spec fn comment_mark(c: char) -> bool { c == ';' || c == '!' || c == '*' || c == '%' || c == '#' }
/// one item of the journal: it starts a line, and what stands there says what it is
pub open spec fn item_ok(s: Seq<char>, it: Item) -> bool {
    &&& 0 <= it.at < it.end <= s.len() && at_start(s, it.at) && !c_white(s[it.at])
    &&& { let c = s[it.at]; let f = it.add;
        if comment_mark(c) { f == (Found { comments: f.comments, ..nothing() }) && f.comments.len() == 1 && ({ let a = past_space(s, it.at + 1); f.comments[0].comment@ == s.subrange(a, line_end(s, a)) }) }
        else if c_numeric(c) || c == '=' { f == (Found { txs: f.txs, ..nothing() }) && f.txs.len() == 1 && entry(s, it.at, it.end, f.txs[0]) && raw_ok(f.txs[0]) }
        else if c == 'i' { exists|l: ParsedLedger| #[trigger] included(s, it.at, l) && f == found_in(l) }
        else if c == 'P' { f == (Found { prices: f.prices, ..nothing() }) && f.prices.len() == 1 }
        else if c == 't' { f == (Found { tags: f.tags, ..nothing() }) && f.tags.len() == 1 }
        else { (c == 'c' || c == 'p' || c == 'a') && f == nothing() } }
}
/// the items are all there is: between them there is nothing but blanks
pub open spec fn chain(s: Seq<char>, its: Seq<Item>) -> bool {
    forall|i: int| 0 <= i < its.len() ==> item_ok(s, #[trigger] its[i]) && its[i].at == past_blank(s, ended(its, i))
}
pub open spec fn ended(its: Seq<Item>, i: int) -> int { if 0 < i <= its.len() { its[i - 1].end } else { 0 } }
pub open spec fn all_found(its: Seq<Item>) -> Found decreases its.len() { if its.len() == 0 { nothing() } else { plus(all_found(its.drop_last()), its.last().add) } }
pub open spec fn whole(s: Seq<char>, its: Seq<Item>, l: ParsedLedger) -> bool { chain(s, its) && past_blank(s, ended(its, its.len() as int)) == s.len() && found_in(l) == all_found(its) }
pub proof fn chain_add(s: Seq<char>, its: Seq<Item>, x: Item) requires chain(s, its), item_ok(s, x), x.at == past_blank(s, ended(its, its.len() as int)) ensures chain(s, its.push(x)), all_found(its.push(x)) == plus(all_found(its), x.add), ended(its.push(x), its.len() as int + 1) == x.end
{ let z = its.push(x); assert(z.drop_last() =~= its); assert forall|i: int| 0 <= i < z.len() implies item_ok(s, #[trigger] z[i]) && z[i].at == past_blank(s, ended(z, i)) by { if i < its.len() { assert(z[i] == its[i]); assert(ended(z, i) == ended(its, i)); } else { assert(ended(z, i) == ended(its, i)); } } }
pub proof fn start_line(s: Seq<char>, p: int) requires 0 <= p <= s.len() ensures p <= past_blank(s, p) <= s.len(), past_blank(s, p) < s.len() ==> !c_white(s[past_blank(s, p)]) decreases s.len() - p { if p < s.len() && c_white(s[p]) { start_line(s, p + 1); } }
/// a journal is refused at its first item that cannot be read: the error names a line of it
pub open spec fn refused(s: Seq<char>, its: Seq<Item>, at: int, end: int, e: Error) -> bool { chain(s, its) && at == past_blank(s, ended(its, its.len() as int)) && at <= end <= s.len() && (names_among(e, line_ends(s, at), line_ends(s, end)) || nested(e)) }
pub open spec fn read_whole(s: Seq<char>, l: ParsedLedger) -> bool { exists|its: Seq<Item>| #[trigger] whole(s, its, l) }
pub open spec fn refuses(s: Seq<char>, e: Error) -> bool { exists|its: Seq<Item>, at: int, end: int| #[trigger] refused(s, its, at, end, e) }
@fn ParsedLedger::append
requires old(self).wf(), old(other).wf()
ensures
  //# C18: nothing of what is included is dropped
  final(self).wf(), found_in(*final(self)) == plus(found_in(*old(self)), found_in(*old(other))),
@fn ParsedLedger::new
ensures r.wf(), found_in(r) == nothing()
@fn Tokenizer<'a>::tokenize | guards
requires old(self).ok(), old(self).position == 0
ensures
  //# C18: the journal is read whole, item by item, each once and in order, and an error names a line of the item that cannot be read
  r is Ok ==> r->Ok_0.wf() && read_whole(old(self).content@, r->Ok_0),
  r is Ok && old(self).file is Some && old(self).content@ == file_text(old(self).file->0@) ==> reads(old(self).file->0@, r->Ok_0),
  r is Err && old(self).file is Some ==> refuses(old(self).content@, r->Err_0),
@ghost start
let ghost s = self.content@; let ghost mut its: Seq<Item> = Seq::empty();
@loop 0
self.same_text(*old(self)), s == self.content@, self.ok(), self.col_ok(), ledger.wf(), chain(s, its), found_in(ledger) == all_found(its), past_blank(s, self.position as int) == past_blank(s, ended(its, its.len() as int)),
decreases s.len() - self.position,
@ghost top 0
let ghost f0 = found_in(ledger); let ghost at = past_blank(s, self.position as int); let ghost i0_ = its;
proof { start_line(s, self.position as int); assert forall|n: int| 0 <= n implies 0 <= #[trigger] line_ends(s, n) <= n by { ends_bound(s, n); }
  assert forall|e: Error, b: int| at <= b <= s.len() && #[trigger] names_among(e, line_ends(s, at), line_ends(s, b)) implies refuses(s, e) by { assert(refused(s, i0_, at, b, e)); }
  assert forall|e: Error, l: int, c: int, b: int| #![trigger names_line(e, l, c), line_ends(s, b)] at <= b <= s.len() && line_ends(s, at) <= l <= line_ends(s, b) && names_line(e, l, c) implies refuses(s, e) by { assert(names_among(e, line_ends(s, at), line_ends(s, b))); assert(refused(s, i0_, at, b, e)); }
  assert forall|e: Error, b: int| #![trigger nested(e), line_ends(s, b)] at <= b <= s.len() && nested(e) implies refuses(s, e) by { assert(refused(s, i0_, at, b, e)); } }
@ghost after 0
proof { assert(past_blank(s, s.len() as int) == s.len()); assert(whole(s, its, ledger)); assert(read_whole(s, ledger)); reveal(reads); }
@ghost bot 0
proof { let f1 = found_in(ledger); let add = Found { txs: f1.txs.skip(f0.txs.len() as int), comments: f1.comments.skip(f0.comments.len() as int), prices: f1.prices.skip(f0.prices.len() as int), tags: f1.tags.skip(f0.tags.len() as int) };
  assert(plus(f0, add) == f1) by { assert(f0.txs + add.txs =~= f1.txs); assert(f0.comments + add.comments =~= f1.comments); assert(f0.prices + add.prices =~= f1.prices); assert(f0.tags + add.tags =~= f1.tags); }
  let c = s[at]; let x = Item { at: at, end: self.position as int, add: add };
  let e = nothing(); if f1.txs == f0.txs { assert(add.txs =~= e.txs); } if f1.comments == f0.comments { assert(add.comments =~= e.comments); } if f1.prices == f0.prices { assert(add.prices =~= e.prices); } if f1.tags == f0.tags { assert(add.tags =~= e.tags); }
  assert(0 <= x.at < x.end <= s.len() && at_start(s, x.at) && !c_white(s[x.at]));
  if comment_mark(c) { assert(f1.txs == f0.txs && f1.prices == f0.prices && f1.tags == f0.tags); assert(add.comments =~= seq![f1.comments.last()]); }
  else if c_numeric(c) || c == '=' { assert(f1.comments == f0.comments && f1.prices == f0.prices && f1.tags == f0.tags); assert(add.txs =~= seq![f1.txs.last()]); }
  else if c == 'i' { assert(exists|l: ParsedLedger| #[trigger] included(s, x.at, l) && f1 == plus(f0, found_in(l))); let l = choose|l: ParsedLedger| #[trigger] included(s, x.at, l) && f1 == plus(f0, found_in(l)); let g = found_in(l); assert(add.txs =~= g.txs); assert(add.comments =~= g.comments); assert(add.prices =~= g.prices); assert(add.tags =~= g.tags); assert(add == g); }
  else if c == 'P' { assert(f1.txs == f0.txs && f1.comments == f0.comments && f1.tags == f0.tags); assert(add.prices =~= seq![f1.prices.last()]); }
  else if c == 't' { assert(f1.txs == f0.txs && f1.comments == f0.comments && f1.prices == f0.prices); assert(add.tags =~= seq![f1.tags.last()]); }
  else { assert(c == 'c' || c == 'p' || c == 'a'); assert(f1 == f0); }
  assert(item_ok(s, x)); chain_add(s, its, x); its = its.push(x); }
@end
