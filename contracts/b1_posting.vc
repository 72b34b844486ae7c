@module posting src/models/transaction.rs
@raw
/// the first of the tags s[..] with property f
pub open spec fn first_tag(s: Seq<Tag>, f: spec_fn(Tag) -> bool, i: int) -> bool { 0 <= i < s.len() && f(s[i]) && forall|j: int| 0 <= j < i ==> !f(#[trigger] s[j]) }
pub open spec fn no_tag(s: Seq<Tag>, f: spec_fn(Tag) -> bool) -> bool { forall|j: int| 0 <= j < s.len() ==> !f(#[trigger] s[j]) }
pub open spec fn tag_re(pat: Seq<char>) -> spec_fn(Tag) -> bool { |t: Tag| re_matches(pat, t.name@) }
pub open spec fn tag_is(name: Seq<char>) -> spec_fn(Tag) -> bool { |t: Tag| t.name@ == name }
pub open spec fn has_tag_s(p: Posting, pat: Seq<char>) -> bool { exists|i: int| #[trigger] first_tag(p.tags.v@, tag_re(pat), i) }
/// the value of the first such tag
pub open spec fn tag_value(s: Seq<Tag>, f: spec_fn(Tag) -> bool, v: Option<Seq<char>>) -> bool {
    (no_tag(s, f) && v is None) || exists|i: int| #[trigger] first_tag(s, f, i) && ostr(s[i].value) == v
}
@fn Posting::has_tag
ensures r == has_tag_s(*self, regex@)
@loop 0
forall|j: int| 0 <= j < i0 ==> !tag_re(regex@)(#[trigger] self.tags.v@[j]),
@ghost top 0
proof { let f = tag_re(regex@); assert(*t == self.tags.v@[i0 - 1]); assert(f(*t) ==> first_tag(self.tags.v@, f, i0 - 1)); }
@fn Posting::get_tag
ensures tag_value(self.tags.v@, tag_re(regex@), ostr(r))
@loop 0
forall|j: int| 0 <= j < i0 ==> !tag_re(regex@)(#[trigger] self.tags.v@[j]),
@ghost top 0
proof { let f = tag_re(regex@); assert(*t == self.tags.v@[i0 - 1]); assert(f(*t) ==> first_tag(self.tags.v@, f, i0 - 1)); }
@fn Posting::get_exact_tag
ensures tag_value(self.tags.v@, tag_is(regex@), ostr(r))
@loop 0
forall|j: int| 0 <= j < i0 ==> !tag_is(regex@)(#[trigger] self.tags.v@[j]),
@ghost top 0
proof { let f = tag_is(regex@); assert(*t == self.tags.v@[i0 - 1]); assert(f(*t) ==> first_tag(self.tags.v@, f, i0 - 1)); }
@fn Posting::set_amount
ensures final(self).amount == Some(money), final(self).account == old(self).account, final(self).kind == old(self).kind, final(self).payee == old(self).payee, final(self).cost == old(self).cost, final(self).balance == old(self).balance, final(self).tags == old(self).tags, final(self).comments == old(self).comments, final(self).origin == old(self).origin
@fn Posting::new
ensures r.account == *account, r.kind == kind, r.origin == origin, r.payee is Some, *r.payee->0 == *payee, r.amount is None, r.balance is None, r.cost is None, r.tags.v@.len() == 0, r.comments@.len() == 0
@end
