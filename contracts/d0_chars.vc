@module parser src/parser/mod.rs
@type Tokenizer
@raw
/// line ends in s[..n]
pub open spec fn line_ends(s: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else { line_ends(s, n - 1) + if s[n - 1] == '\n' { 1int } else { 0int } } }
pub open spec fn at_start(s: Seq<char>, n: int) -> bool { n == 0 || s[n - 1] == '\n' }
impl<'a> Tokenizer<'a> {
    /// the line counter is right, wherever the reader stands
    pub open spec fn ok(self) -> bool {
        self.position <= self.content@.len() && self.line_index == line_ends(self.content@, self.position as int) && self.line_position <= self.position
        && self.content@.len() <= i32::MAX && (at_start(self.content@, self.position as int) ==> self.line_position == 0)
    }
    /// the column is right as far as indentation goes
    pub open spec fn col_ok(self) -> bool { self.line_position == 0 ==> at_start(self.content@, self.position as int) || self.position == self.content@.len() || self.content@[self.position as int] == '\n' }
    pub open spec fn same_text(self, t: Tokenizer) -> bool { self.content@ == t.content@ && self.file == t.file }
    pub open spec fn ahead(self, t: Tokenizer) -> bool { self.same_text(t) && self.position >= t.position }
    pub open spec fn more(self) -> bool { self.position < self.content@.len() }
    pub open spec fn cur(self) -> char { self.content@[self.position as int] }
    pub open spec fn left(self) -> int { self.content@.len() - self.position }
}
pub proof fn ends_bound(s: Seq<char>, n: int) requires 0 <= n ensures 0 <= line_ends(s, n) <= n decreases n { if n > 0 { ends_bound(s, n - 1); } }
/// first position from i on that is not blank
pub open spec fn past_blank(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && c_white(s[i]) { past_blank(s, i + 1) } else { i } }
/// the same within the line
pub open spec fn past_space(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && c_white(s[i]) && s[i] != '\n' { past_space(s, i + 1) } else { i } }
/// where the line ends
pub open spec fn line_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && s[i] != '\n' { line_end(s, i + 1) } else { i } }
/// where an expression ends: at the line end with every bracket closed, or at a comment
pub open spec fn expr_end(s: Seq<char>, i: int, open: int) -> int decreases s.len() - i {
    if !(0 <= i < s.len()) || s[i] == ';' || (s[i] == '\n' && open == 0) { i }
    else { expr_end(s, i + 1, if s[i] == '(' { open + 1 } else if s[i] == ')' { open - 1 } else { open }) }
}
/// a word: up to a blank, digit, '.', '-' or ';', or whatever is between quotes
pub open spec fn word_stop(c: char) -> bool { c_white(c) || c_numeric(c) || c == '.' || c == '-' || c == ';' }
pub open spec fn word_from(s: Seq<char>, i: int, w: Seq<char>, quote: bool) -> (int, Seq<char>) decreases s.len() - i {
    if !(0 <= i < s.len()) || s[i] == '\n' { (i, w) }
    else if s[i] == '"' { if w.len() == 0 { word_from(s, i + 1, w, true) } else if quote { (i + 1, w) } else { word_from(s, i + 1, w, quote) } }
    else if word_stop(s[i]) && !quote { (i, w) }
    else { word_from(s, i + 1, w.push(s[i]), quote) }
}
pub open spec fn word_at(s: Seq<char>, i: int) -> (int, Seq<char>) { word_from(s, past_space(s, i), Seq::empty(), false) }
pub open spec fn noq(w: Seq<char>) -> bool { forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] != '"' }
pub proof fn word_no_quote(s: Seq<char>, i: int, w: Seq<char>, q: bool) requires noq(w) ensures noq(word_from(s, i, w, q).1) decreases s.len() - i
{ if !(0 <= i < s.len()) || s[i] == '\n' { assert(word_from(s, i, w, q).1 == w); } else if s[i] == '"' { if w.len() == 0 { word_no_quote(s, i + 1, w, true); } else if q { assert(word_from(s, i, w, q).1 == w); } else { word_no_quote(s, i + 1, w, q); } }
  else if word_stop(s[i]) && !q { assert(word_from(s, i, w, q).1 == w); } else { let x = w.push(s[i]); assert(noq(x)); word_no_quote(s, i + 1, x, q); } }
@fn Tokenizer<'a>::get_char
ensures r == (if self.position < self.content@.len() { Some(self.content@[self.position as int]) } else { None::<char> })
@raw
/// the message says where: line and column, counted from 1
pub open spec fn names_line(e: Error, line: int, col: int) -> bool { exists|i: int| 0 <= i < e.message@.len() && (#[trigger] e.message@[i])@ =~= where_s(line, col) }
pub open spec fn where_s(line: int, col: int) -> Seq<char> { ":"@ + dec((line + 1) as nat) + ":"@ + dec((col + 1) as nat) + "\n"@ }
@fn Tokenizer<'a>::error | fmt
requires self.line_index < usize::MAX, self.line_position < usize::MAX
ensures
  //# C18: the error names the line it stands on
  self.file is Some ==> names_line(r, self.line_index as int, self.line_position as int),
@loop 0
message@.len() >= 2, self.file is Some ==> message@.len() >= 4 && message@[3]@ =~= where_s(self.line_index as int, self.line_position as int),
@loop 1
self.file is Some ==> message@.len() >= 4 && message@[3]@ =~= where_s(self.line_index as int, self.line_position as int),
@ghost tail
proof { if self.file is Some { assert(ret_.message@[3]@ =~= where_s(self.line_index as int, self.line_position as int)); } }
@fn Tokenizer<'a>::next | maypanic
requires old(self).ok()
ensures
  old(self).more(), r == old(self).cur(), final(self).same_text(*old(self)), final(self).position == old(self).position + 1,
  //# C18: the line counter counts every line end passed
  final(self).ok(), final(self).line_position == 0 ==> r == '\n',
@ghost start
proof { ends_bound(old(self).content@, old(self).position as int); }
@module chars src/parser/chars.rs
@type LineType
@fn consume_whitespaces_and_lines
requires old(tokenizer).ok()
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)), 
  final(tokenizer).position == past_blank(old(tokenizer).content@, old(tokenizer).position as int), final(tokenizer).position >= old(tokenizer).position,
  !final(tokenizer).more() ==> r is Blank, 
  //# C18: a line is indented exactly when a blank stands before its first character
  old(tokenizer).col_ok() && final(tokenizer).more() ==> ((r is Blank) <==> at_start(final(tokenizer).content@, final(tokenizer).position as int)),
  r is Indented ==> final(tokenizer).more() && final(tokenizer).line_position > 0, final(tokenizer).more() ==> !c_white(final(tokenizer).cur()),
@ghost start
broadcast use white_nl;
@loop 0
tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), tokenizer.position >= old(tokenizer).position, past_blank(tokenizer.content@, tokenizer.position as int) == past_blank(old(tokenizer).content@, old(tokenizer).position as int),
old(tokenizer).col_ok() ==> tokenizer.col_ok(),
ensures !tokenizer.more()
decreases tokenizer.content@.len() - tokenizer.position
@ghost top 0
proof { ends_bound(tokenizer.content@, tokenizer.position as int); }
@fn consume_whitespaces
requires old(tokenizer).ok()
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)), final(tokenizer).line_index == old(tokenizer).line_index, old(tokenizer).col_ok() ==> final(tokenizer).col_ok(),
  final(tokenizer).position == past_space(old(tokenizer).content@, old(tokenizer).position as int), final(tokenizer).position >= old(tokenizer).position,
  final(tokenizer).more() ==> !c_white(final(tokenizer).cur()) || final(tokenizer).cur() == '\n',
@loop 0
tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), tokenizer.line_index == old(tokenizer).line_index, tokenizer.position >= old(tokenizer).position, past_space(tokenizer.content@, tokenizer.position as int) == past_space(old(tokenizer).content@, old(tokenizer).position as int), old(tokenizer).col_ok() ==> tokenizer.col_ok(),
ensures tokenizer.more() ==> !c_white(tokenizer.cur()) || tokenizer.cur() == '\n'
decreases tokenizer.content@.len() - tokenizer.position
@fn get_line
requires old(tokenizer).ok()
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)), final(tokenizer).col_ok(),
  //# C18: the rest of the line, exactly
  r@ == old(tokenizer).content@.subrange(old(tokenizer).position as int, line_end(old(tokenizer).content@, old(tokenizer).position as int)),
  line_end(old(tokenizer).content@, old(tokenizer).position as int) >= old(tokenizer).position,
  ({ let e = line_end(old(tokenizer).content@, old(tokenizer).position as int); final(tokenizer).position == if e < old(tokenizer).content@.len() { e + 1 } else { e } }),
@loop 0
tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), tokenizer.position >= old(tokenizer).position, line_end(tokenizer.content@, tokenizer.position as int) == line_end(old(tokenizer).content@, old(tokenizer).position as int),
retval@ =~= old(tokenizer).content@.subrange(old(tokenizer).position as int, tokenizer.position as int),
ensures tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), tokenizer.col_ok(), retval@ =~= old(tokenizer).content@.subrange(old(tokenizer).position as int, line_end(old(tokenizer).content@, old(tokenizer).position as int)),
  line_end(old(tokenizer).content@, old(tokenizer).position as int) >= old(tokenizer).position,
  ({ let e = line_end(old(tokenizer).content@, old(tokenizer).position as int); tokenizer.position == if e < old(tokenizer).content@.len() { e + 1 } else { e } }),
decreases tokenizer.content@.len() - tokenizer.position
@ghost top 0
proof { ends_bound(tokenizer.content@, tokenizer.position as int); }
@ghost tail
proof { assert(ret_@ =~= retval@); }
@fn get_value_expression
requires old(tokenizer).ok()
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)),
  final(tokenizer).position == expr_end(old(tokenizer).content@, old(tokenizer).position as int, 0), final(tokenizer).position >= old(tokenizer).position,
  r@ == old(tokenizer).content@.subrange(old(tokenizer).position as int, final(tokenizer).position as int),
  final(tokenizer).more() ==> final(tokenizer).cur() == ';' || final(tokenizer).cur() == '\n',
@loop 0
tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), tokenizer.position >= old(tokenizer).position, 0 <= open_v <= tokenizer.position, 0 <= close <= tokenizer.position,
expr_end(tokenizer.content@, tokenizer.position as int, open_v - close) == expr_end(old(tokenizer).content@, old(tokenizer).position as int, 0),
retval@ =~= old(tokenizer).content@.subrange(old(tokenizer).position as int, tokenizer.position as int),
ensures tokenizer.more() ==> tokenizer.cur() == ';' || tokenizer.cur() == '\n', tokenizer.position == expr_end(tokenizer.content@, tokenizer.position as int, open_v - close)
decreases tokenizer.content@.len() - tokenizer.position
@ghost top 0
proof { ends_bound(tokenizer.content@, tokenizer.position as int); }
@ghost tail
proof { assert(ret_@ =~= retval@); }
@fn get_string
requires old(tokenizer).ok()
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)), final(tokenizer).line_index == old(tokenizer).line_index, old(tokenizer).col_ok() ==> final(tokenizer).col_ok(),
  final(tokenizer).position >= old(tokenizer).position,
  ({ let w = word_at(old(tokenizer).content@, old(tokenizer).position as int);
     noq(r@) && r@ == w.1 && w.0 >= old(tokenizer).position && final(tokenizer).position == past_space(old(tokenizer).content@, w.0) && (r@.len() > 0 ==> w.0 > old(tokenizer).position) }),
  final(tokenizer).more() ==> !c_white(final(tokenizer).cur()) || final(tokenizer).cur() == '\n',
@ghost before 0
let ghost w0 = word_at(old(tokenizer).content@, old(tokenizer).position as int);
proof { let e = Seq::<char>::empty(); assert(noq(e)); word_no_quote(tokenizer.content@, tokenizer.position as int, e, false); }
@loop 0
tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), tokenizer.line_index == old(tokenizer).line_index, tokenizer.position >= old(tokenizer).position, old(tokenizer).col_ok() ==> tokenizer.col_ok(), retval@.len() > 0 ==> tokenizer.position > old(tokenizer).position,
word_from(tokenizer.content@, tokenizer.position as int, retval@, quote) == w0,
ensures retval@ == w0.1 && tokenizer.position == w0.0
decreases tokenizer.content@.len() - tokenizer.position
@ghost tail
proof { assert(ret_@ =~= retval@); }
@fn consume_str | guards
requires old(tokenizer).ok()
ensures
  final(tokenizer).ok(), final(tokenizer).same_text(*old(tokenizer)), old(tokenizer).col_ok() ==> final(tokenizer).col_ok(), final(tokenizer).position >= old(tokenizer).position,
  r is Ok ==> final(tokenizer).position == old(tokenizer).position + string@.len() && string@ == old(tokenizer).content@.subrange(old(tokenizer).position as int, final(tokenizer).position as int),
@ghost tail
proof { assert(string@ =~= old(tokenizer).content@.subrange(old(tokenizer).position as int, tokenizer.position as int)); }
@loop 0
tokenizer.ok(), tokenizer.same_text(*old(tokenizer)), old(tokenizer).col_ok() ==> tokenizer.col_ok(), tokenizer.position == old(tokenizer).position + i0, forall|j: int| 0 <= j < i0 ==> string@[j] == old(tokenizer).content@[old(tokenizer).position + j],
@ghost top 0
proof { ends_bound(tokenizer.content@, tokenizer.position as int); }
@end
