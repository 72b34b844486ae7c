@module currency src/models/currency.rs
@raw
pub enum Origin { FromDirective, FromTransaction, Other }
@type Currency
@raw
impl KeyId for Currency { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { self.name@ } }
@fn Currency as PartialEq::eq
@tens
r == (self.kid() == other.kid())
@fn Currency as HasName::get_name
@traw
open spec fn name_s(&self) -> Seq<char> { self.name@ }
@fn Currency as HasAliases::get_aliases
@traw
open spec fn aliases_s(&self) -> Map<Seq<char>, String> { self.aliases@ }
@fn Currency as FromDirective::is_from_directive
@traw
open spec fn fromdir_s(&self) -> bool { self.origin is FromDirective }
@fn Currency as From<&'a str>::from
@tens
r.name@ == name@ && r.aliases@ == Map::<Seq<char>, String>::empty() && !r.default && !(r.origin is FromDirective)
@fn Currency::get_precision
ensures r == (if self.precision is Some { self.precision->0 } else { 2usize })
@fn Currency::set_precision
ensures final(self).precision == Some(precision), final(self).kid() == old(self).kid(), final(self).aliases == old(self).aliases

@module tag src/models/models.rs
@type Tag
@fn Tag as HasName::get_name
@traw
open spec fn name_s(&self) -> Seq<char> { self.name@ }

@raw
pub open spec fn remembers(m: Map<Seq<char>, (String, bool)>, name: Seq<char>) -> bool { forall|p: Seq<char>| #[trigger] m.dom().contains(p) ==> m[p].1 == re_matches(p, name) }
@module account src/models/account.rs
@type Account
@raw
impl KeyId for Account { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { self.name@ } }
@raw
/// the remembered matches are right
impl CellInv<HashMap<String, bool>> for Account { open spec fn cell_inv(&self, t: HashMap<String, bool>) -> bool { remembers(t@, self.name@) } }
@fn Account::is_match | cells
ensures r == re_matches(regex@, self.name@)
@fn Account as PartialEq::eq
@tens
r == (self.kid() == other.kid())
@fn Account as HasName::get_name
@traw
open spec fn name_s(&self) -> Seq<char> { self.name@ }
@fn Account as HasAliases::get_aliases
@traw
open spec fn aliases_s(&self) -> Map<Seq<char>, String> { self.aliases@ }
@fn Account as FromDirective::is_from_directive
@traw
open spec fn fromdir_s(&self) -> bool { self.origin is FromDirective }
@fn Account as From<&str>::from
@tens
r.name@ == name@ && r.aliases@ == Map::<Seq<char>, String>::empty() && !r.default && !(r.origin is FromDirective)
@fn Account::is_default
ensures r == self.default
@fn Account::depth
ensures r == count_c(self.name@, self.name@.len() as int, ':') + 1
@loop 0
acc0@.len() <= i0, acc0@.len() == count_c(self.name@, i0 as int, ':'),
@raw
pub open spec fn count_c(s: Seq<char>, n: int, c: char) -> nat decreases n { if n <= 0 { 0 } else if s[n - 1] == c { count_c(s, n - 1, c) + 1 } else { count_c(s, n - 1, c) } }
@end

@module payee src/models/payee.rs
@type Payee
@raw
impl KeyId for Payee { type Id = Seq<char>; open spec fn kid(&self) -> Seq<char> { self.name@ } }
@raw
/// the remembered matches are right
impl CellInv<HashMap<String, bool>> for Payee { open spec fn cell_inv(&self, t: HashMap<String, bool>) -> bool { remembers(t@, self.name@) } }
@fn Payee::is_match | cells
ensures r == re_matches(regex@, self.name@)
@fn Payee as PartialEq::eq
@tens
r == (self.kid() == other.kid())
@fn Payee as HasName::get_name
@traw
open spec fn name_s(&self) -> Seq<char> { self.name@ }
@fn Payee as HasAliases::get_aliases
@traw
open spec fn aliases_s(&self) -> Map<Seq<char>, String> { self.alias@ }
@fn Payee as FromDirective::is_from_directive
@traw
open spec fn fromdir_s(&self) -> bool { self.origin is FromDirective }
@end

@fn Payee::new
ensures r.name@ == name@, r.alias == alias, r.alias_regex == alias_regex, r.origin == origin, r.matches.v@ == Map::<Seq<char>, (String, bool)>::empty()
@fn Payee as From<&str>::from
@tens
r.name@ == name@ && r.alias@ == Map::<Seq<char>, String>::empty() && r.alias_regex@.len() == 0
@end
@module comment src/models/comment.rs
@type Comment
@end
