@module filter src/filter.rs
@raw
/// the options let the posting through, the query aside
pub open spec fn in_range(o: CommonOpts, t: Transaction<Posting>, p: Posting) -> bool {
    (o.real ==> p.kind is Real) && (o.end is Some ==> t.date is Some && t.date->0@ < o.end->0@) && (o.begin is Some ==> t.date is Some && t.date->0@ >= o.begin->0@)
}
pub open spec fn holds(n: Node, p: Posting, t: Transaction<Posting>, l: List<Currency>, b: bool) -> bool { evals(n, p, t, l, EV::Bool(b)) }
@fn filter | maypanic
requires old(commodities).wf()
ensures
  final(commodities).wf(), grows(*old(commodities), *final(commodities)),
  //# C07: selected exactly when date, kind and query say so
  r is Ok && r->Ok_0 ==> in_range(*options, *transaction, *posting) && (node is Some ==> holds(node->0, *posting, *transaction, *final(commodities), true)),
  r is Ok && !r->Ok_0 ==> !in_range(*options, *transaction, *posting) || (node is Some && holds(node->0, *posting, *transaction, *final(commodities), false)),
  r is Err ==> in_range(*options, *transaction, *posting) && node is Some && exists|v: EV| !(v is Bool) && #[trigger] evals(node->0, *posting, *transaction, *final(commodities), v),
@fn filter_expression | maypanic
requires old(commodities).wf()
ensures
  final(commodities).wf(), grows(*old(commodities), *final(commodities)),
  r is Ok ==> holds(*predicate, *posting, *transaction, *final(commodities), r->Ok_0),
  //# C07: a condition that is not a truth value is refused
  r is Err ==> exists|v: EV| !(v is Bool) && #[trigger] evals(*predicate, *posting, *transaction, *final(commodities), v),
@raw
/// how far a query has been read: text so far, and what the words 'and' and 'expr' have announced
pub struct QS { pub text: Seq<char>, pub and: bool, pub expr: bool, pub any: bool }
/// what a word selects
pub open spec fn word_term(w: Seq<char>, expr: bool) -> Seq<char> {
    if expr { w }
    else if w[0] == '@' { "payee =~ /(?i)"@ + w.skip(1) + "/"@ }
    else if w[0] == '%' { "has_tag(/(?i)"@ + w.skip(1) + "/)"@ }
    else if w[0] == '/' { "account =~ "@ + w }
    else { "account =~ /(?i)"@ + w + "/"@ }
}
pub open spec fn joiner(q: QS) -> Seq<char> { if !q.any { "("@ } else if q.and { " and ("@ } else { " or ("@ } }
pub open spec fn read_word(q: QS, raw: Seq<char>) -> QS {
    let w = trim_s(raw);
    if w.len() == 0 { q }
    else if w == "and"@ { QS { and: true, ..q } } else if w == "or"@ { QS { and: false, ..q } } else if w == "expr"@ { QS { expr: true, ..q } }
    else { QS { text: q.text + joiner(q) + word_term(w, q.expr) + ")"@, and: false, expr: false, any: true } }
}
pub open spec fn read_words(ws: Seq<String>, n: int) -> QS decreases n { if n <= 0 { QS { text: Seq::empty(), and: false, expr: false, any: false } } else { read_word(read_words(ws, n - 1), ws[n - 1]@) } }
/// the same over words as text
pub open spec fn read_vs(ws: Seq<Seq<char>>, n: int) -> QS decreases n { if n <= 0 { QS { text: Seq::empty(), and: false, expr: false, any: false } } else { read_word(read_vs(ws, n - 1), ws[n - 1]) } }
pub proof fn read_same(ws: Seq<String>, n: int) requires 0 <= n <= ws.len() ensures read_words(ws, n) == read_vs(views(ws), n) decreases n { if n > 0 { read_same(ws, n - 1); } }
@fn preprocess_query | fmt
ensures
  //# C09: the condition a query stands for
  r@ == "("@ + read_words(query@, query@.len() as int).text + ")"@,
@ghost start
broadcast use bytes_b;
@loop 0
expression@ == read_words(query@, i0 as int).text, and == read_words(query@, i0 as int).and, expr == read_words(query@, i0 as int).expr, first == !read_words(query@, i0 as int).any,
@ghost top 0
proof { assert(raw_term == query@[i0 - 1]); }
@end
