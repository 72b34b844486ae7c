@module value_expr src/parser/value_expr.rs
@type Node
@type EvalResult
@type Unary
@type Binary
@raw
/// what an expression can stand for
pub enum EV { Num(real), Mon(Option<Seq<char>>, real), Bool(bool), Acc(Seq<char>), Pay(Seq<char>), Re(Seq<char>), Str(Option<Seq<char>>), Date(int), Note }
pub open spec fn ev(r: EvalResult) -> EV {
    match r {
        EvalResult::Number(n) => EV::Num(n@), EvalResult::Money(m) => EV::Mon(m.cid(), m.amt()), EvalResult::Boolean(b) => EV::Bool(b), EvalResult::Account(a) => EV::Acc(a.kid()),
        EvalResult::Payee(p) => EV::Pay(p.kid()), EvalResult::Regex(r) => EV::Re(r@), EvalResult::String(s) => EV::Str(ostr(s)), EvalResult::Date(d) => EV::Date(d@), EvalResult::Note => EV::Note,
    }
}
pub open spec fn mat(k: Option<Seq<char>>, a: real, c: Option<Seq<char>>) -> real { if k == c { a } else { 0real } }
pub broadcast proof fn at_mat(m: Money, c: Option<Seq<char>>) ensures #[trigger] mat(m.cid(), m.amt(), c) == m.at(c) {}
pub open spec fn un(op: Unary, p: Posting, x: EV, v: EV) -> bool {
    match op {
        Unary::Not => match x { EV::Bool(b) => v == EV::Bool(!b), _ => false },
        Unary::Neg => match x { EV::Num(n) => v == EV::Num(-n), EV::Mon(c, a) => v == EV::Mon(c, -a), EV::Bool(b) => v == EV::Bool(!b), _ => false },
        Unary::Abs => match x { EV::Num(n) => v == EV::Num(absr(n)), EV::Mon(c, a) => v == EV::Mon(c, absr(a)), _ => false },
        Unary::HasTag => match x { EV::Re(q) => v == EV::Bool(has_tag_s(p, q)), _ => false },
        Unary::Tag => match x { EV::Re(q) => v is Str && tag_value(p.tags.v@, tag_re(q), v->Str_0), EV::Str(Some(q)) => v is Str && tag_value(p.tags.v@, tag_is(q), v->Str_0), _ => false },
        Unary::ToDate => match x { EV::Str(Some(q)) => day_of(q) is Some && v == EV::Date(day_of(q)->0), _ => false },
        Unary::Any => false,
    }
}
/// order of two values; None where they have none
pub open spec fn evcmp(x: EV, y: EV) -> Option<Ordering> {
    match (x, y) {
        (EV::Num(a), EV::Num(b)) => Some(ord_of(a < b, a == b)), (EV::Num(a), EV::Mon(_, b)) => Some(ord_of(a < b, a == b)),
        (EV::Mon(_, a), EV::Num(b)) => Some(ord_of(a < b, a == b)), (EV::Mon(_, a), EV::Mon(_, b)) => Some(ord_of(a < b, a == b)),
        (EV::Str(a), EV::Str(b)) => Some(ord_of(ostr_lt(a, b), a == b)), (EV::Date(a), EV::Date(b)) => Some(ord_of(a < b, a == b)), _ => None,
    }
}
/// amounts are compared only within a commodity
pub open spec fn comparable(x: EV, y: EV) -> bool { match (x, y) { (EV::Mon(c, a), EV::Mon(d, b)) => c == d || c is None || d is None, _ => true } }
pub open spec fn rcmp(x: EvalResult, y: EvalResult) -> Option<Ordering> { evcmp(ev(x), ev(y)) }
pub open spec fn rcmp_post(x: EvalResult, y: EvalResult) -> bool { comparable(ev(x), ev(y)) }
pub open spec fn same(x: EV, y: EV, b: bool) -> bool {
    match (x, y) {
        (EV::Num(m), EV::Num(n)) => b == (m == n), (EV::Num(m), EV::Mon(_, n)) => b == (m == n), (EV::Mon(_, m), EV::Num(n)) => b == (m == n),
        (EV::Mon(c, m), EV::Mon(d, n)) => b == (m == n && (c == d || c is None || d is None)), (EV::Bool(m), EV::Bool(n)) => b == (m == n),
        (EV::Str(m), EV::Str(n)) => b == (m == n), (EV::Date(m), EV::Date(n)) => b == (m == n), _ => false,
    }
}
pub open spec fn note_hit(t: Transaction<Posting>, q: Seq<char>) -> bool { exists|i: int| 0 <= i < t.comments@.len() && re_matches(q, (#[trigger] t.comments@[i]).comment@) }
pub open spec fn addm(c: Option<Seq<char>>, a: real, d: Option<Seq<char>>, b: real, v: EV, sub: bool) -> bool {
    v is Mon && forall|e: Option<Seq<char>>| #[trigger] mat(v->Mon_0, v->Mon_1, e) == (if sub { mat(c, a, e) - mat(d, b, e) } else { mat(c, a, e) + mat(d, b, e) })
}
pub open spec fn bin(op: Binary, t: Transaction<Posting>, x: EV, y: EV, v: EV) -> bool {
    match op {
        Binary::Eq => match y {
            EV::Re(q) => match x { EV::Acc(a) => v == EV::Bool(re_matches(q, a)), EV::Pay(a) => v == EV::Bool(re_matches(q, a)), EV::Str(Some(a)) => v == EV::Bool(re_matches(q, a)), EV::Str(None) => v == EV::Bool(false),
                EV::Note => v == EV::Bool(note_hit(t, q)), _ => false },
            _ => v is Bool && same(x, y, v->Bool_0) },
        Binary::Lt => v == EV::Bool(evcmp(x, y) == Some(Ordering::Less)) && comparable(x, y),
        Binary::Gt => v == EV::Bool(evcmp(x, y) == Some(Ordering::Greater)) && comparable(x, y),
        Binary::Le => v == EV::Bool(evcmp(x, y) == Some(Ordering::Less) || evcmp(x, y) == Some(Ordering::Equal)) && comparable(x, y),
        Binary::Ge => v == EV::Bool(evcmp(x, y) == Some(Ordering::Greater) || evcmp(x, y) == Some(Ordering::Equal)) && comparable(x, y),
        Binary::Add => match (x, y) { (EV::Num(a), EV::Num(b)) => v == EV::Num(a + b), (EV::Mon(c, a), EV::Mon(d, b)) => addm(c, a, d, b, v, false), _ => false },
        Binary::Subtract => match (x, y) { (EV::Num(a), EV::Num(b)) => v == EV::Num(a - b), (EV::Mon(c, a), EV::Mon(d, b)) => addm(c, a, d, b, v, true), _ => false },
        Binary::Mult => match (x, y) { (EV::Num(a), EV::Num(b)) => v == EV::Num(a * b), (EV::Num(a), EV::Mon(d, b)) => v == EV::Mon(d, b * a), (EV::Mon(c, a), EV::Num(b)) => v == EV::Mon(c, a * b), _ => false },
        Binary::Div => match (x, y) { (EV::Num(a), EV::Num(b)) => b != 0real && v == EV::Num(a / b), (EV::Mon(c, a), EV::Num(b)) => b != 0real && v is Mon && v->Mon_0 == c && v->Mon_1 * b == a, _ => false },
        Binary::Or => match x { EV::Bool(a) => if a { v == EV::Bool(true) } else { y is Bool && v == y }, _ => false },
        Binary::And => match x { EV::Bool(a) => if !a { v == EV::Bool(false) } else { y is Bool && v == y }, _ => false },
    }
}
/// v is a value of expression n for posting p of transaction t, commodity names looked up in l
pub open spec fn evals(n: Node, p: Posting, t: Transaction<Posting>, l: List<Currency>, v: EV) -> bool decreases n {
    match n {
        Node::Amount => p.amount is Some && v == EV::Mon(p.amount->0.cid(), p.amount->0.amt()),
        Node::Account => v == EV::Acc(p.account.kid()),
        Node::Payee => p.payee is Some && v == EV::Pay(p.payee->0.kid()),
        Node::Note => v == EV::Note,
        Node::Date => t.date is Some && v == EV::Date(t.date->0@),
        Node::Number(x) => v == EV::Num(x@),
        Node::Money { currency, amount } => l.find(currency@) is Some && v == EV::Mon(Some(l.find(currency@)->0.kid()), amount@),
        Node::Regex(r) => v == EV::Re(r@),
        Node::String(s) => v == EV::Str(Some(s@)),
        Node::UnaryExpr { op, child } => if op is Any {
                v is Bool && (if v->Bool_0 { exists|i: int| 0 <= i < t.postings.v@.len() && evals(*child, #[trigger] t.postings.v@[i], t, l, EV::Bool(true)) }
                    else { forall|i: int| 0 <= i < t.postings.v@.len() ==> evals(*child, #[trigger] t.postings.v@[i], t, l, EV::Bool(false)) })
            } else { exists|x: EV| evals(*child, p, t, l, x) && #[trigger] un(op, p, x, v) },
        Node::BinaryExpr { op, lhs, rhs } => exists|x: EV, y: EV| evals(*lhs, p, t, l, x) && evals(*rhs, p, t, l, y) && #[trigger] bin(op, t, x, y, v),
    }
}
pub broadcast proof fn lemma_grows(n: Node, p: Posting, t: Transaction<Posting>, a: List<Currency>, b: List<Currency>, v: EV)
    requires #[trigger] grows(a, b), #[trigger] evals(n, p, t, a, v)
    ensures evals(n, p, t, b, v)
    decreases n
{
    match n {
        Node::UnaryExpr { op, child } => if op is Any {
                if v->Bool_0 { let i = choose|i: int| 0 <= i < t.postings.v@.len() && evals(*child, #[trigger] t.postings.v@[i], t, a, EV::Bool(true)); lemma_grows(*child, t.postings.v@[i], t, a, b, EV::Bool(true)); }
                else { assert forall|i: int| 0 <= i < t.postings.v@.len() implies evals(*child, #[trigger] t.postings.v@[i], t, b, EV::Bool(false)) by { lemma_grows(*child, t.postings.v@[i], t, a, b, EV::Bool(false)); } }
            } else { let x = choose|x: EV| evals(*child, p, t, a, x) && #[trigger] un(op, p, x, v); lemma_grows(*child, p, t, a, b, x); },
        Node::BinaryExpr { op, lhs, rhs } => { let (x, y) = choose|x: EV, y: EV| evals(*lhs, p, t, a, x) && evals(*rhs, p, t, a, y) && #[trigger] bin(op, t, x, y, v);
            lemma_grows(*lhs, p, t, a, b, x); lemma_grows(*rhs, p, t, a, b, y); },
        _ => {},
    }
}
@fn EvalResult as PartialOrd::partial_cmp | maypanic pcmp=rcmp
@tens
r == rcmp(*self, *other) && rcmp_post(*self, *other)
@fn EvalResult as PartialEq::eq | maypanic
@tens
same(ev(*self), ev(*other), r)
@fn eval | maypanic rlimit=80
requires old(commodities).wf()
ensures
  final(commodities).wf(), grows(*old(commodities), *final(commodities)),
  //# C08: the value is what the expression means
  evals(*node, *posting, *transaction, *final(commodities), ev(r)),
decreases node
@ghost start
broadcast use lemma_grows; broadcast use at_mat; broadcast use grows_trans; broadcast use lower_idem;
let ghost mut xv: EV = EV::Note; let ghost mut yv: EV = EV::Note;
@ghost post let res = eval(
proof { xv = ev(res); }
@ghost post let left = eval(
proof { xv = ev(left); }
@ghost post let right = eval(
proof { yv = ev(right); }
@loop 0
commodities.wf(), grows(*old(commodities), *commodities),
it0@.len() == transaction.postings.v@.len(), forall|j: int| 0 <= j < it0@.len() ==> *(#[trigger] it0@[j]) == transaction.postings.v@[j],
res ==> exists|j: int| 0 <= j < transaction.postings.v@.len() && evals(**child, #[trigger] transaction.postings.v@[j], *transaction, *commodities, EV::Bool(true)),
!res ==> forall|j: int| 0 <= j < i0 ==> evals(**child, #[trigger] transaction.postings.v@[j], *transaction, *commodities, EV::Bool(false)),
@loop 1
result ==> note_hit(*transaction, rhs@),
!result ==> forall|j: int| 0 <= j < i1 ==> !re_matches(rhs@, (#[trigger] transaction.comments@[j]).comment@),
@ghost top 1
proof { assert(*comment == transaction.comments@[i1 - 1]); }
@ghost tail
proof { let rv = ev(ret_);
  match node { Node::UnaryExpr { op, child } => { if !(*op is Any) { assert(un(*op, *posting, xv, rv)); } }, Node::BinaryExpr { op, lhs, rhs } => { assert(bin(*op, *transaction, xv, yv, rv)); }, _ => {} } }
@raw
/// the syntax tree of an expression
pub uninterp spec fn tree_of(s: Seq<char>) -> Node;
@fn build_root_node_from_expression | assume
ensures r == tree_of(expression@)
@fn eval_expression | assume
requires old(commodities).wf()
ensures
  final(commodities).wf(), grows(*old(commodities), *final(commodities)),
  evals(tree_of(expression@), *posting, *transaction, *final(commodities), ev(r)),
@raw
/// a number means that many times the amount of the posting
pub open spec fn amount_of(n: Node, p: Posting, t: Transaction<Posting>, l: List<Currency>, m: Money) -> bool {
    exists|v: EV| #[trigger] evals(n, p, t, l, v) && match v { EV::Num(x) => p.amount is Some && m.amt() == p.amount->0.amt() * x && m.cid() == p.amount->0.cid(), EV::Mon(c, a) => m.cid() == c && m.amt() == a, _ => false }
}
@fn eval_value_expression | maypanic
requires old(commodities).wf()
ensures
  final(commodities).wf(), grows(*old(commodities), *final(commodities)),
  //# C16: the amount an expression stands for
  amount_of(tree_of(expression@), *posting, *transaction, *final(commodities), r),
@end


@module app src/app.rs
@type CommonOpts
@raw
/// a day written as text
pub uninterp spec fn day_of(s: Seq<char>) -> Option<int>;
@fn date_parser | assume
ensures r is Ok <==> day_of(date@) is Some, r is Ok ==> r->Ok_0@ == day_of(date@)->0
@end
