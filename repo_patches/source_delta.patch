From 54d562b7711d030609471ed33cf44b7061cdc05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:46 +0000
Subject: [PATCH 01/25] fix: per-unit cost of a negative posting keeps its sign
 when checking [virtual] postings

total_balance multiplied amount*cost by the sign of the amount, so a sale
at a per-unit cost counted as a purchase and unbalanced bracketed
postings were accepted (and balanced ones rejected).
---
 src/models/transaction.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 8295fe3..439f8ee 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -239,12 +239,7 @@ fn total_balance(postings: &Vec<Posting>, kind: PostingType) -> Balance {
                         Money::Money { amount, .. } => amount.clone(),
                     };
                     let money = Money::Money {
-                        amount: units
-                            * (if p.amount.as_ref().unwrap().is_negative() {
-                                -BigInt::from(1)
-                            } else {
-                                BigInt::from(1)
-                            }),
+                        amount: units,
                         currency: currency.clone(),
                     };
                     Balance::from(money)
-- 
2.43.0


From 6fc17481c0e422a6e8c9f2cb2b8a88e5cc2e535c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:35 +0000
Subject: [PATCH 02/25] fix: print amounts between -1 and 1 with the right sign

---
 src/models/money.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/models/money.rs b/src/models/money.rs
index 70a8bca..bb6c3ab 100644
--- a/src/models/money.rs
+++ b/src/models/money.rs
@@ -103,7 +103,7 @@ impl Display for Money {
                 // num = trunc + fract
                 let decimals: usize = currency.get_precision();
                 let base: i32 = 10;
-                let mut integer_part = amount.trunc();
+                let mut integer_part = amount.trunc().abs();
                 let decimal_part = (amount.fract() * BigInt::from(base.pow(decimals as u32 + 2)))
                     .abs()
                     .trunc();
@@ -119,16 +119,19 @@ impl Display for Money {
                 let len = format!("{}", decimal).len();
                 if len == decimals + 1 {
                     decimal = 0;
-                    if integer_part.is_positive() {
-                        integer_part += BigInt::from(1);
-                    } else {
-                        integer_part -= BigInt::from(1);
-                    }
+                    integer_part += BigInt::from(1);
                 }
                 decimal_str = format!("{:0width$}", decimal, width = decimals);
+                let is_shown_as_zero = integer_part.is_zero() && decimal == 0;
+                let sign = if amount.is_negative() && !is_shown_as_zero {
+                    "-"
+                } else {
+                    ""
+                };
                 write!(
                     f,
-                    "{}.{} {}",
+                    "{}{}.{} {}",
+                    sign,
                     integer_part.numer(),
                     decimal_str,
                     currency.get_name()
-- 
2.43.0


From 461fe9781d53e74f59d85d458dee4ed044b55a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:08 +0000
Subject: [PATCH 03/25] fix: a comment inside a tag directive no longer loops
 forever

---
 src/parser/tokenizers/tag.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index c0f54cb..52ef6b5 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -47,7 +47,9 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
     }
     while let LineType::Indented = chars::consume_whitespaces_and_lines(tokenizer) {
         match tokenizer.get_char().unwrap() {
-            ';' => {} // Skip comments
+            ';' => {
+                chars::get_line(tokenizer);
+            } // Skip comments
             _ => match chars::get_string(tokenizer).as_str() {
                 "check" => {
                     check.push(chars::get_line(tokenizer).trim().to_string());
-- 
2.43.0


From 492665bf253a51713d16c6a8e7b11e16b82adff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:20 +0000
Subject: [PATCH 04/25] fix: report an error on the first line instead of
 overflowing

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index cadf9bb..382ade3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -220,7 +220,7 @@ impl<'a> Tokenizer<'a> {
         let string = self.content.iter().collect::<String>();
 
         for (i, line) in string.lines().enumerate() {
-            if i < self.line_index - 1 {
+            if i + 1 < self.line_index {
                 continue;
             };
             if i > self.line_index {
-- 
2.43.0


From d700b065976ea73e39077b62834e9cb739ddb8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:33 +0000
Subject: [PATCH 05/25] fix: reject a second amount in a posting instead of
 overwriting the first one

---
 src/parser/tokenizers/transaction.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1d508b2..c235e79 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -324,6 +324,11 @@ fn parse_posting(
             }
             _ => match parse_money(tokenizer) {
                 Ok(money) => {
+                    if posting.money_amount.is_some() {
+                        return Err(ParserError::UnexpectedInput(Some(
+                            "Posting already has an amount".to_string(),
+                        )));
+                    }
                     posting.money_amount = Some(money.0);
                     posting.money_currency = Some(money.1);
                 }
-- 
2.43.0


From 8478e4cfbeb2190f04ff9d6ca5b0838b078e88c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:16 +0000
Subject: [PATCH 06/25] fix: an account name followed by one space or by the
 end of the file ends the posting

---
 src/parser/tokenizers/transaction.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index c235e79..d65d12a 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -199,6 +199,10 @@ fn parse_posting(
     let mut finished = false;
     // Get the account name
     loop {
+        if tokenizer.get_char().is_none() {
+            finished = true;
+            break;
+        }
         let c = tokenizer.next();
         if !c.is_whitespace() {
             account.push(c);
@@ -211,8 +215,15 @@ fn parse_posting(
             }
             break;
         } else {
+            match tokenizer.get_char() {
+                None | Some('\n') => {
+                    finished = true;
+                    break;
+                }
+                Some(_) => {}
+            }
             let d = tokenizer.next();
-            if d.is_whitespace() | (c == '\n') {
+            if d.is_whitespace() {
                 break;
             } else {
                 account.push(c);
-- 
2.43.0


From 385b979247941bb9c0da5dbea3412a98a5eabbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:27 +0000
Subject: [PATCH 07/25] fix: accept account names that start with a non-ASCII
 character

---
 src/parser/tokenizers/transaction.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index d65d12a..40fa805 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -232,8 +232,8 @@ fn parse_posting(
         }
     }
     // See if it is a virtual account
-    match &account[0..1] {
-        "(" => {
+    match account.chars().next() {
+        Some('(') => {
             posting_type = PostingType::Virtual;
             if account.pop().unwrap() != ')' {
                 return Err(ParserError::UnexpectedInput(Some(
@@ -241,7 +241,7 @@ fn parse_posting(
                 )));
             }
         }
-        "[" => {
+        Some('[') => {
             posting_type = PostingType::VirtualMustBalance;
             if account.pop().unwrap() != ']' {
                 return Err(ParserError::UnexpectedInput(Some(
-- 
2.43.0


From 396ecc0ae4f7d2bdfadb0c919e2e4dca7ecd3d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:38 +0000
Subject: [PATCH 08/25] fix: the price of a posting with a total cost does not
 depend on the sign of the posting

---
 src/models/mod.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 89cc367..2ac1eb7 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -20,7 +20,7 @@ use crate::parser::value_expr::build_root_node_from_expression;
 use crate::parser::ParsedLedger;
 use crate::parser::{tokenizers, value_expr};
 use crate::{Error, List};
-use num::BigInt;
+use num::{BigInt, Signed, Zero};
 use std::cell::RefCell;
 use std::rc::Rc;
 
@@ -420,20 +420,21 @@ impl ParsedLedger {
                                 amount: amount.clone(),
                             }),
                         };
-                        prices.push(Price::new(
-                            transaction.date.unwrap(),
-                            posting_currency.clone(),
-                            Money::Money {
-                                amount: p.cost_amount.clone().unwrap()
-                                    / match p.cost_type.as_ref().unwrap() {
-                                        PriceType::Total => {
-                                            posting.amount.as_ref().unwrap().get_amount()
-                                        }
-                                        PriceType::PerUnit => BigRational::from(BigInt::from(1)),
-                                    },
-                                currency: amount.get_commodity().unwrap().clone(),
-                            },
-                        ))
+                        let units = match p.cost_type.as_ref().unwrap() {
+                            PriceType::Total => posting.amount.as_ref().unwrap().get_amount().abs(),
+                            PriceType::PerUnit => BigRational::from(BigInt::from(1)),
+                        };
+                        // There is no unit price for zero units
+                        if !units.is_zero() {
+                            prices.push(Price::new(
+                                transaction.date.unwrap(),
+                                posting_currency.clone(),
+                                Money::Money {
+                                    amount: p.cost_amount.clone().unwrap() / units,
+                                    currency: amount.get_commodity().unwrap().clone(),
+                                },
+                            ))
+                        }
                     }
                     if let Some(c) = &p.balance_currency {
                         posting.balance = Some(Money::from((
-- 
2.43.0


From 5f45c2fad3b84ac81b49ddfca982307ec2691c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:49 +0000
Subject: [PATCH 09/25] fix: record implied prices only once when there are
 automated transactions

---
 src/models/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/models/mod.rs b/src/models/mod.rs
index 2ac1eb7..eb17ba3 100644
--- a/src/models/mod.rs
+++ b/src/models/mod.rs
@@ -184,7 +184,8 @@ impl ParsedLedger {
                     return Err(e.into());
                 }
             };
-            if balance.len() == 2 {
+            // With automated transactions, transactions are balanced again later on
+            if balance.len() == 2 && automated_transactions.is_empty() {
                 let vec = balance.iter().map(|(_, x)| x.abs()).collect::<Vec<Money>>();
 
                 let commodity = vec[0].get_commodity().unwrap().clone();
-- 
2.43.0


From 6eec65a739efcf15c4b5afaa30235df18b07cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:20 +0000
Subject: [PATCH 10/25] fix: evaluate every operand of a chain of operators,
 not only the first two

---
 src/parser/value_expr.rs | 46 +++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/parser/value_expr.rs b/src/parser/value_expr.rs
index d95ab10..f0507bb 100644
--- a/src/parser/value_expr.rs
+++ b/src/parser/value_expr.rs
@@ -412,31 +412,29 @@ fn build_ast_from_expr(
         | Rule::multiplicative_expr => {
             let mut pair = pair.into_inner();
             let lhspair = pair.next().unwrap();
-            let lhs = build_ast_from_expr(lhspair, regexes);
-            match pair.next() {
-                None => lhs,
-                Some(x) => {
-                    let op = match rule {
-                        Rule::or_expr => Binary::Or,
-                        Rule::and_expr => Binary::And,
-                        _ => match x.as_str() {
-                            "+" => Binary::Add,
-                            "-" => Binary::Subtract,
-                            "*" => Binary::Mult,
-                            "/" => Binary::Div,
-                            "=~" | "==" => Binary::Eq,
-                            "<" => Binary::Lt,
-                            ">" => Binary::Gt,
-                            "<=" => Binary::Le,
-                            ">=" => Binary::Ge,
-                            x => unreachable!("{}", x),
-                        },
-                    };
-                    let rhspair = pair.next().unwrap();
-                    let rhs = build_ast_from_expr(rhspair, regexes);
-                    parse_binary_expr(op, lhs, rhs)
-                }
+            let mut lhs = build_ast_from_expr(lhspair, regexes);
+            while let Some(x) = pair.next() {
+                let op = match rule {
+                    Rule::or_expr => Binary::Or,
+                    Rule::and_expr => Binary::And,
+                    _ => match x.as_str() {
+                        "+" => Binary::Add,
+                        "-" => Binary::Subtract,
+                        "*" => Binary::Mult,
+                        "/" => Binary::Div,
+                        "=~" | "==" => Binary::Eq,
+                        "<" => Binary::Lt,
+                        ">" => Binary::Gt,
+                        "<=" => Binary::Le,
+                        ">=" => Binary::Ge,
+                        x => unreachable!("{}", x),
+                    },
+                };
+                let rhspair = pair.next().unwrap();
+                let rhs = build_ast_from_expr(rhspair, regexes);
+                lhs = parse_binary_expr(op, lhs, rhs);
             }
+            lhs
         }
         Rule::primary => {
             let mut inner = pair.into_inner();
-- 
2.43.0


From 653dc7031f4ed7ebc3c18117fb0f6909723870ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:31 +0000
Subject: [PATCH 11/25] fix: unary operators apply to the operand that follows
 them, not to the rest of the expression

---
 src/grammar/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index 22d4594..ed9eb65 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -51,7 +51,7 @@ additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr
 multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
-    (unary ~ ws* ~ expr) |
+    (unary ~ ws* ~ primary) |
     term |
     (function ~ ws* ~ "(" ~ ws* ~ expr ~ ws* ~ ("," ~ ws* ~ expr ~ ws*)* ~ ")")
     }
-- 
2.43.0


From 7b5a8cb6ffe76a3435c065537a7391fb236c1e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:12 +0000
Subject: [PATCH 12/25] fix: searching a list by regex sees the elements and
 aliases added after the first search

---
 src/list.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/list.rs b/src/list.rs
index 7461a88..e362560 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -48,6 +48,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
                     self.aliases.insert(alias.to_lowercase(), name.clone());
                 }
                 self.list.insert(name.clone(), Rc::new(element));
+                self.matches.clear();
             }
         }
     }
@@ -64,6 +65,7 @@ impl<'a, T: Eq + Hash + HasName + Clone + FromDirective + HasAliases + Debug> Li
             None => {
                 self.aliases
                     .insert(alias.to_lowercase(), for_element.get_name().to_lowercase());
+                self.matches.clear();
             }
         }
         ()
@@ -133,6 +135,7 @@ impl<T: Clone> List<T> {
     pub fn append(&mut self, other: &List<T>) {
         self.list.extend(other.to_owned().list.into_iter());
         self.aliases.extend(other.to_owned().aliases.into_iter());
+        self.matches.clear();
     }
 }
 
-- 
2.43.0


From 7b51d301ad0f7a6663add616d62359b01813e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:22 +0000
Subject: [PATCH 13/25] fix: a posting without amount keeps its own tags when
 its amount is filled in

---
 src/models/transaction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/models/transaction.rs b/src/models/transaction.rs
index 439f8ee..d17ac1d 100644
--- a/src/models/transaction.rs
+++ b/src/models/transaction.rs
@@ -290,6 +290,7 @@ impl Transaction<Posting> {
         // 1. Iterate over postings
         let mut fill_account = Rc::new(Account::from("this will never be used"));
         let mut fill_payee = None;
+        let mut fill_tags = RefCell::new(vec![]);
         let mut postings: Vec<Posting> = Vec::new();
 
         for p in self.postings.get_mut().iter() {
@@ -391,6 +392,7 @@ impl Transaction<Posting> {
                 // We do nothing, but this is the account for the empty post
                 fill_account = p.account.clone();
                 fill_payee = p.payee.clone();
+                fill_tags = p.tags.clone();
             }
         }
 
@@ -437,7 +439,7 @@ impl Transaction<Posting> {
                     cost: None,
                     kind: PostingType::Real,
                     comments: self.comments.clone(),
-                    tags: RefCell::new(self.tags.clone()),
+                    tags: fill_tags.clone(),
                     payee: fill_payee.clone(),
                     transaction: self.postings.borrow()[0].transaction.clone(),
                     origin: PostingOrigin::FromTransaction,
-- 
2.43.0


From 663a8d6332023e2dfa2efec360c22ec64b6fc3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:33 +0000
Subject: [PATCH 14/25] fix: conversion rates do not depend on the iteration
 order of hash maps

---
 src/models/price.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/models/price.rs b/src/models/price.rs
index ab180b9..4921714 100644
--- a/src/models/price.rs
+++ b/src/models/price.rs
@@ -118,12 +118,8 @@ pub fn conversion(
         let mut mult = BigRational::new(BigInt::from(1), BigInt::from(1));
         let mut currency = k.currency.clone();
         match inserted.get(&k.currency) {
-            Some(x) => {
-                if *x > k.date {
-                    continue;
-                }
-            }
-            None => {
+            Some(x) if *x > k.date => continue,
+            _ => {
                 inserted.insert(currency.clone(), k.date);
             }
         }
@@ -205,6 +201,11 @@ impl Graph {
                 }
             }
         }
+        // Sort prices and nodes so that the outcome does not depend on the order of the hash maps
+        let mut prices_nodup: Vec<_> = prices_nodup.into_iter().collect();
+        prices_nodup.sort_by(|(a, _), (b, _)| {
+            (a.0.get_name(), a.1.get_name()).cmp(&(b.0.get_name(), b.1.get_name()))
+        });
         for (_, p) in prices_nodup.iter() {
             let commodities =
                 if p.price.get_commodity().unwrap().get_name() < p.commodity.as_ref().get_name() {
@@ -246,7 +247,10 @@ impl Graph {
 
         // println!("Nodes: {}", nodes.len());
         // println!("Edges: {}", edges.len());
-        let vec_node: Vec<Rc<Node>> = nodes.iter().map(|x| x.1.clone()).collect();
+        let mut vec_node: Vec<Rc<Node>> = nodes.iter().map(|x| x.1.clone()).collect();
+        vec_node.sort_by(|a, b| {
+            (a.currency.get_name(), a.date).cmp(&(b.currency.get_name(), b.date))
+        });
         let n = vec_node.len();
         for i in 0..n {
             for j in i..n {
@@ -262,7 +266,7 @@ impl Graph {
         // println!("Edges: {}", edges.len());
 
         Graph {
-            nodes: nodes.iter().map(|x| x.1.clone()).collect(),
+            nodes: vec_node,
             edges,
             _neighbours: HashMap::new(),
         }
-- 
2.43.0


From 32b8691e23dd492280ccb6c8da25d0a9d663bc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:44 +0000
Subject: [PATCH 15/25] fix: only collapse accounts in the balance tree when it
 does not hide a balance

---
 src/commands/balance.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index dc15ab0..f7bfb2a 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -204,6 +204,15 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                 if vec_balances[index + 1].0.split(":").count() != (n + 1) {
                     break;
                 }
+                // Do not hide balances of the parent account or go deeper than the requested depth
+                if !vec_balances[index + 1]
+                    .0
+                    .starts_with(&format!("{}:", vec_balances[index].0))
+                    || !(bal.clone() - vec_balances[index + 1].1.clone()).is_zero()
+                    || depth.map_or(false, |d| n + 1 > d)
+                {
+                    break;
+                }
                 for j in (index + 2)..num_bal {
                     let name = vec_balances[j].0.clone();
                     if !name.starts_with(account) {
-- 
2.43.0


From e1ecaf54475d9969d0f00077eaf9d06d4b403905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:02 +0000
Subject: [PATCH 16/25] fix: chains of operators with spaces around them are
 parsed at every level

---
 src/grammar/grammar.pest | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grammar/grammar.pest b/src/grammar/grammar.pest
index ed9eb65..d738596 100644
--- a/src/grammar/grammar.pest
+++ b/src/grammar/grammar.pest
@@ -44,11 +44,11 @@ value_expr = {"(" ~ ws* ~ expr ~ ws* ~ ")"}
 
 // Then the expression builds up in terms of increasing preference
 expr = { or_expr }
-or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ) * }
-and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ) * }
-comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ) * }
-additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ) * }
-multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary )* }
+or_expr = { and_expr ~ ws* ~ ( or ~ ws* ~ and_expr ~ ws* ) * }
+and_expr = { comparison_expr ~ ws* ~ ( and ~ ws* ~ comparison_expr ~ ws* ) * }
+comparison_expr = { additive_expr ~ ws* ~ ( comparison ~ ws* ~ additive_expr ~ ws* ) * }
+additive_expr = { multiplicative_expr ~ ws* ~ ( add ~ ws* ~ multiplicative_expr ~ ws* ) * }
+multiplicative_expr = { primary ~ ws* ~ ( mult ~ ws* ~ primary ~ ws* )* }
 primary = {
     ("(" ~ ws* ~ expr ~ ws* ~ ")") |
     (unary ~ ws* ~ primary) |
-- 
2.43.0


From cc6b025c9142a9d40160a9665e39ae7226cf7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:45 +0000
Subject: [PATCH 17/25] fix: the comment in the first line of a transaction
 does not include its semicolon

---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 40fa805..a627029 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -54,7 +54,7 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     }
     if next_item.as_rule() == Rule::comment {
         transaction.comments.push(Comment {
-            comment: parse_string(next_item),
+            comment: parse_string(next_item)[1..].trim_start().to_string(),
         });
     }
 
-- 
2.43.0


From 6263448030b45dcacc2db6e638feb4617b3952ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:41 +0000
Subject: [PATCH 18/25] fix: an automated posting without an amount at the end
 of the file never finished

Text that is not an amount was read with get_line and the position stepped back
over the line end, also when there was none: the same character was read again
and again. It is now taken, whole, as a value expression.
---
 src/parser/tokenizers/transaction.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index a627029..4687ac5 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -281,6 +281,7 @@ fn parse_posting(
     chars::consume_whitespaces(tokenizer);
     // Amounts
     loop {
+        let start = tokenizer.position;
         match tokenizer.get_char() {
             Some('(') => {
                 // This is a value expression
@@ -346,10 +347,9 @@ fn parse_posting(
                 Err(e) => match transaction_type {
                     TransactionType::Real | TransactionType::Periodic => return Err(e),
                     TransactionType::Automated => {
-                        posting.amount_expr = Some(chars::get_line(tokenizer));
-
-                        tokenizer.line_index -= 1;
-                        tokenizer.position -= 1;
+                        // Not an amount: the whole text is a value expression
+                        tokenizer.position = start;
+                        posting.amount_expr = Some(chars::get_value_expression(tokenizer));
                     }
                 },
             },
-- 
2.43.0


From 5469075ddaf29c47ac1d1d377a1373d9af9f56ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:36 +0000
Subject: [PATCH 19/25] fix: a line that cannot be read is an error that names
 the line, not a panic

---
 src/parser/include.rs                |  4 +++-
 src/parser/tokenizers/account.rs     |  9 ++++++++-
 src/parser/tokenizers/commodity.rs   | 15 ++++++++++-----
 src/parser/tokenizers/payee.rs       |  9 ++++++++-
 src/parser/tokenizers/price.rs       | 15 ++++++++++-----
 src/parser/tokenizers/tag.rs         |  9 ++++++++-
 src/parser/tokenizers/transaction.rs | 17 +++++++++++------
 7 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/parser/include.rs b/src/parser/include.rs
index dd4e708..20a2622 100644
--- a/src/parser/include.rs
+++ b/src/parser/include.rs
@@ -6,7 +6,9 @@ use std::path::PathBuf;
 
 /// Handles include directive
 pub(super) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedLedger, Error> {
-    chars::consume_str(tokenizer, &"include ".to_string())?;
+    if let Err(e) = chars::consume_str(tokenizer, &"include ".to_string()) {
+        return Err(tokenizer.error(e));
+    }
     let mut pattern = String::new();
     let mut files: Vec<PathBuf> = Vec::new();
     if let Some(current_path) = tokenizer.file {
diff --git a/src/parser/tokenizers/account.rs b/src/parser/tokenizers/account.rs
index 90119d0..4b5d904 100644
--- a/src/parser/tokenizers/account.rs
+++ b/src/parser/tokenizers/account.rs
@@ -13,8 +13,15 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Account, ParserError> {
         r"(.*)"                 , // description
         ).as_str()).unwrap();
     }
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = match RE.captures(mystr.as_str()) {
+        Some(caps) => caps,
+        None => {
+            tokenizer.line_index = line_index; // the line has already been consumed
+            return Err(ParserError::UnexpectedInput(None));
+        }
+    };
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/commodity.rs b/src/parser/tokenizers/commodity.rs
index bdf43ff..d245e80 100644
--- a/src/parser/tokenizers/commodity.rs
+++ b/src/parser/tokenizers/commodity.rs
@@ -10,12 +10,17 @@ use crate::ParserError;
 use pest::Parser;
 
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Currency, ParserError> {
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
-    let mut parsed = GrammarParser::parse(Rule::commodity, mystr.as_str())
-        .expect("Could not parse commodity!") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner();
+    let mut parsed = match GrammarParser::parse(Rule::commodity, mystr.as_str()) {
+        Ok(mut parsed) => parsed.next().unwrap().into_inner(),
+        Err(_) => {
+            tokenizer.line_index = line_index; // the line has already been consumed
+            return Err(ParserError::UnexpectedInput(Some(
+                "Could not parse commodity".to_string(),
+            )));
+        }
+    };
 
     let name = parse_string(parsed.next().unwrap());
     let mut note: Option<String> = None;
diff --git a/src/parser/tokenizers/payee.rs b/src/parser/tokenizers/payee.rs
index a0c0ff0..87f5090 100644
--- a/src/parser/tokenizers/payee.rs
+++ b/src/parser/tokenizers/payee.rs
@@ -17,8 +17,15 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Payee, ParserError> {
         r"(  ;.*)?"             , // note
         ).as_str()).unwrap();
     }
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = match RE.captures(mystr.as_str()) {
+        Some(caps) => caps,
+        None => {
+            tokenizer.line_index = line_index; // the line has already been consumed
+            return Err(ParserError::UnexpectedInput(None));
+        }
+    };
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/price.rs b/src/parser/tokenizers/price.rs
index 6d0a89e..29f6879 100644
--- a/src/parser/tokenizers/price.rs
+++ b/src/parser/tokenizers/price.rs
@@ -6,12 +6,17 @@ use crate::ParserError;
 use pest::Parser;
 
 pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedPrice, ParserError> {
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
-    let mut parsed = GrammarParser::parse(Rule::price, mystr.as_str())
-        .expect("Could not parse price!") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner();
+    let mut parsed = match GrammarParser::parse(Rule::price, mystr.as_str()) {
+        Ok(mut parsed) => parsed.next().unwrap().into_inner(),
+        Err(_) => {
+            tokenizer.line_index = line_index; // the line has already been consumed
+            return Err(ParserError::UnexpectedInput(Some(
+                "Could not parse price".to_string(),
+            )));
+        }
+    };
     let date = parse_date(parsed.next().unwrap());
     let commodity = {
         let time_or_commodity = parsed.next().unwrap();
diff --git a/src/parser/tokenizers/tag.rs b/src/parser/tokenizers/tag.rs
index 52ef6b5..3574c6f 100644
--- a/src/parser/tokenizers/tag.rs
+++ b/src/parser/tokenizers/tag.rs
@@ -13,8 +13,15 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Tag, ParserError> {
         r"(.*)"           , // description
         ).as_str()).unwrap();
     }
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
-    let caps = RE.captures(mystr.as_str()).unwrap();
+    let caps = match RE.captures(mystr.as_str()) {
+        Some(caps) => caps,
+        None => {
+            tokenizer.line_index = line_index; // the line has already been consumed
+            return Err(ParserError::UnexpectedInput(None));
+        }
+    };
 
     let mut name = String::new();
     let mut detected: bool = false;
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 4687ac5..1b49e8c 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -18,12 +18,17 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>
 
 /// Parses a transaction
 fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPosting>, Error> {
+    let line_index = tokenizer.line_index;
     let mystr = chars::get_line(tokenizer);
-    let mut parsed = GrammarParser::parse(Rule::transaction, mystr.as_str())
-        .expect("Could not parse transaction!") // unwrap the parse result
-        .next()
-        .unwrap()
-        .into_inner();
+    let mut parsed = match GrammarParser::parse(Rule::transaction, mystr.as_str()) {
+        Ok(mut parsed) => parsed.next().unwrap().into_inner(),
+        Err(_) => {
+            tokenizer.line_index = line_index; // the line has already been consumed
+            return Err(tokenizer.error(ParserError::UnexpectedInput(Some(
+                "Could not parse transaction".to_string(),
+            ))));
+        }
+    };
 
     let mut transaction = Transaction::<RawPosting>::new(TransactionType::Real);
     transaction.date = Some(parse_date(parsed.next().unwrap()));
@@ -316,7 +321,7 @@ fn parse_posting(
 
                 tokenizer.position += 1;
                 tokenizer.line_position += 1;
-                if tokenizer.get_char().unwrap() == '@' {
+                if tokenizer.get_char() == Some('@') {
                     tokenizer.position += 1;
                     tokenizer.line_position += 1;
                     posting.cost_type = Some(PriceType::Total);
-- 
2.43.0


From 213fe8a1a8d0d3bbed58d122005c846bb045b988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:55 +0000
Subject: [PATCH 20/25] fix: a date that does not exist is an error that names
 the line, not a panic

---
 src/parser/tokenizers/price.rs       | 10 +++++++++-
 src/parser/tokenizers/transaction.rs | 12 ++++++++++--
 src/parser/utils.rs                  | 10 ++++++----
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/parser/tokenizers/price.rs b/src/parser/tokenizers/price.rs
index 29f6879..90b23e3 100644
--- a/src/parser/tokenizers/price.rs
+++ b/src/parser/tokenizers/price.rs
@@ -17,7 +17,15 @@ pub(crate) fn parse(tokenizer: &mut Tokenizer) -> Result<ParsedPrice, ParserErro
             )));
         }
     };
-    let date = parse_date(parsed.next().unwrap());
+    let date = match parse_date(parsed.next().unwrap()) {
+        Some(date) => date,
+        None => {
+            tokenizer.line_index = line_index;
+            return Err(ParserError::UnexpectedInput(Some(
+                "Wrong date".to_string(),
+            )));
+        }
+    };
     let commodity = {
         let time_or_commodity = parsed.next().unwrap();
         match time_or_commodity.as_rule() {
diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 1b49e8c..484a5d2 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -31,18 +31,26 @@ fn parse_with_grammar(tokenizer: &mut Tokenizer) -> Result<Transaction<RawPostin
     };
 
     let mut transaction = Transaction::<RawPosting>::new(TransactionType::Real);
-    transaction.date = Some(parse_date(parsed.next().unwrap()));
+    transaction.date = parse_date(parsed.next().unwrap());
+    let mut wrong_date = transaction.date.is_none();
     let mut next_item = parsed.next().unwrap();
     if next_item.as_rule() == Rule::time {
         next_item = parsed.next().unwrap()
     }
     if next_item.as_rule() == Rule::date {
-        transaction.effective_date = Some(parse_date(next_item));
+        transaction.effective_date = parse_date(next_item);
+        wrong_date |= transaction.effective_date.is_none();
         next_item = parsed.next().unwrap()
     }
     if next_item.as_rule() == Rule::time {
         next_item = parsed.next().unwrap()
     }
+    if wrong_date {
+        tokenizer.line_index = line_index;
+        return Err(tokenizer.error(ParserError::UnexpectedInput(Some(
+            "Wrong date".to_string(),
+        ))));
+    }
     if next_item.as_rule() == Rule::status {
         next_item = parsed.next().unwrap()
     }
diff --git a/src/parser/utils.rs b/src/parser/utils.rs
index 6de27ef..302b409 100644
--- a/src/parser/utils.rs
+++ b/src/parser/utils.rs
@@ -6,8 +6,8 @@ use num::{BigInt, BigRational};
 use pest::iterators::Pair;
 use std::str::FromStr;
 
-/// Parses a date
-pub(crate) fn parse_date(date: Pair<Rule>) -> NaiveDate {
+/// Parses a date, None if there is no such day
+pub(crate) fn parse_date(date: Pair<Rule>) -> Option<NaiveDate> {
     // Assume date is a Rule::date
     let mut parsed = date.into_inner();
     let year = i32::from_str(parsed.next().unwrap().as_str()).unwrap();
@@ -16,8 +16,10 @@ pub(crate) fn parse_date(date: Pair<Rule>) -> NaiveDate {
     let sep2 = parsed.next().unwrap().as_str();
     let day = u32::from_str(parsed.next().unwrap().as_str()).unwrap();
 
-    assert_eq!(sep1, sep2, "wrong date separator");
-    NaiveDate::from_ymd(year, month, day)
+    if sep1 != sep2 {
+        return None;
+    }
+    NaiveDate::from_ymd_opt(year, month, day)
 }
 
 pub(crate) fn parse_rational(number: Pair<Rule>) -> BigRational {
-- 
2.43.0


From 2296d84d43ab2c4ad0fa2c58c9e8ca1b8b67c80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:38 +0000
Subject: [PATCH 21/25] fix: a minus sign after the decimal point is an error,
 not a wrong amount

---
 src/parser/tokenizers/transaction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index 484a5d2..af5a312 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -430,7 +430,7 @@ fn parse_amount(tokenizer: &mut Tokenizer) -> Result<BigRational, ParserError> {
                     decimal = true
                 }
             }
-            Some(c) if (c == '-') | c.is_numeric() => {
+            Some(c) if ((c == '-') & !decimal) | c.is_numeric() => {
                 num.push(c);
                 if decimal {
                     den.push('0')
-- 
2.43.0


From 19d10f12a79936ee91e49d80088eab786b775b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:47 +0000
Subject: [PATCH 22/25] fix: tag directives of included files are kept

---
 src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 382ade3..9f51383 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -60,6 +60,7 @@ impl ParsedLedger {
         self.comments.append(&mut other.comments);
         self.transactions.append(&mut other.transactions);
         self.prices.append(&mut other.prices);
+        self.tags.append(&mut other.tags);
     }
 
     pub fn len(&self) -> usize {
-- 
2.43.0


From 01d500f0dfee67176968eb5e3e0064ea186fae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 23/25] fix: the column is restored with the position when an
 automated posting has no amount

---
 src/parser/tokenizers/transaction.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parser/tokenizers/transaction.rs b/src/parser/tokenizers/transaction.rs
index af5a312..1000f5e 100644
--- a/src/parser/tokenizers/transaction.rs
+++ b/src/parser/tokenizers/transaction.rs
@@ -294,7 +294,7 @@ fn parse_posting(
     chars::consume_whitespaces(tokenizer);
     // Amounts
     loop {
-        let start = tokenizer.position;
+        let start = (tokenizer.position, tokenizer.line_position);
         match tokenizer.get_char() {
             Some('(') => {
                 // This is a value expression
@@ -361,7 +361,8 @@ fn parse_posting(
                     TransactionType::Real | TransactionType::Periodic => return Err(e),
                     TransactionType::Automated => {
                         // Not an amount: the whole text is a value expression
-                        tokenizer.position = start;
+                        tokenizer.position = start.0;
+                        tokenizer.line_position = start.1;
                         posting.amount_expr = Some(chars::get_value_expression(tokenizer));
                     }
                 },
-- 
2.43.0


From 23974933f7b3467c9e06842e2e3a2f58aa3d3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 24/25] fix: balance: sum up the sub-accounts of accounts whose
 name starts with a colon

---
 src/commands/balance.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index f7bfb2a..d7cdc6d 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -61,8 +61,8 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
     if !flat {
         for (acc, bal) in balances.iter() {
             let mut pattern = "".to_string();
-            for part in acc.get_name().split(":") {
-                if pattern.len() > 0 {
+            for (i, part) in acc.get_name().split(":").enumerate() {
+                if i > 0 {
                     pattern.push_str(":");
                 }
                 pattern.push_str(part);
-- 
2.43.0


From bf926f8e0ede048e09931fed7c171afb183ea867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 25/25] fix: balance: do not crash when the first name cut by
 --flat --depth is empty

---
 src/commands/balance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/commands/balance.rs b/src/commands/balance.rs
index d7cdc6d..4701b62 100644
--- a/src/commands/balance.rs
+++ b/src/commands/balance.rs
@@ -112,7 +112,7 @@ pub fn execute(options: &CommonOpts, flat: bool, show_total: bool) -> Result<(),
                 temp.sort_by(|a, b| a.0.cmp(&b.0));
                 let mut account = String::new();
                 for (acc, value) in temp.iter() {
-                    if acc.to_string() != account {
+                    if vec_balances.is_empty() || acc.to_string() != account {
                         vec_balances.push((acc.as_str(), value.clone()));
                     } else {
                         let n = vec_balances.len();
-- 
2.43.0

