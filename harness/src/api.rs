//! Requests that call the public API of the library directly.
use chrono::NaiveDate;
use dinero::models::{conversion, Account, Balance, Comment, Currency, HasName, Money, Price};
use dinero::List;
use num::bigint::BigInt;
use num::rational::BigRational;
use regex::Regex;
use std::collections::HashMap;
use std::rc::Rc;
use std::str::FromStr;

fn rat(s: &str) -> BigRational {
    let mut p = s.split('/');
    let n = BigInt::from_str(p.next().unwrap()).unwrap();
    let d = p.next().map_or(BigInt::from(1), |d| BigInt::from_str(d).unwrap());
    BigRational::new(n, d)
}
fn money(cur: &str, amt: &str) -> Money {
    if cur == "0" {
        Money::Zero
    } else {
        Money::from((Currency::from(cur), rat(amt)))
    }
}
fn show_money(m: &Money) -> String {
    match m {
        Money::Zero => "zero".to_string(),
        _ => format!("{}={}", m.get_commodity().unwrap().get_name(), m.get_amount()),
    }
}
fn show_balance(b: &Balance) -> String {
    let mut v: Vec<String> = b.iter().map(|(_, m)| show_money(m)).collect();
    v.sort();
    format!("[{}]", v.join(" "))
}

enum V {
    M(Money),
    B(Balance),
}
fn pop_b(s: &mut Vec<V>) -> Balance {
    match s.pop().unwrap() {
        V::M(m) => Balance::from(m),
        V::B(b) => b,
    }
}

pub fn handle(f: &[String]) -> i32 {
    match f[0].as_str() {
        // A stack machine over Money and Balance
        "calc" => {
            let mut st: Vec<V> = vec![];
            for op in &f[1..] {
                let w: Vec<&str> = op.split(' ').collect();
                match w[0] {
                    "m" => st.push(V::M(money(w[1], w.get(2).unwrap_or(&"0")))),
                    "e" => st.push(V::B(Balance::new())),
                    "b" => {
                        let b = pop_b(&mut st);
                        st.push(V::B(b))
                    }
                    "+" | "-" => {
                        let r = st.pop().unwrap();
                        let l = st.pop().unwrap();
                        let res = match (l, r) {
                            (V::M(a), V::M(b)) => {
                                if w[0] == "+" {
                                    a + b
                                } else {
                                    a - b
                                }
                            }
                            (a, b) => {
                                let mut t = vec![a];
                                let a = pop_b(&mut t);
                                let mut t = vec![b];
                                let b = pop_b(&mut t);
                                if w[0] == "+" {
                                    a + b
                                } else {
                                    a - b
                                }
                            }
                        };
                        st.push(V::B(res));
                    }
                    "neg" => {
                        let v = match st.pop().unwrap() {
                            V::M(m) => V::M(-m),
                            V::B(b) => V::B(-b),
                        };
                        st.push(v)
                    }
                    "abs" => {
                        let v = match st.pop().unwrap() {
                            V::M(m) => V::M(m.abs()),
                            V::B(b) => V::B(b),
                        };
                        st.push(v)
                    }
                    "mul" | "div" => {
                        let n = rat(w[1]);
                        let v = match st.pop().unwrap() {
                            V::M(m) => V::M(if w[0] == "mul" { m * n } else { m / n }),
                            V::B(b) => V::B(b),
                        };
                        st.push(v)
                    }
                    "tomoney" => {
                        let b = pop_b(&mut st);
                        match b.to_money() {
                            Ok(m) => st.push(V::M(m)),
                            Err(_) => {
                                println!("tomoney-error");
                                return 0;
                            }
                        }
                    }
                    "iszero" => match st.last().unwrap() {
                        V::M(m) => println!("iszero {}", m.is_zero()),
                        V::B(b) => println!("iszero {}", b.is_zero()),
                    },
                    "canzero" => {
                        let b = pop_b(&mut st);
                        println!("canzero {}", b.can_be_zero());
                        st.push(V::B(b))
                    }
                    "sign" => {
                        if let V::M(m) = st.last().unwrap() {
                            println!("sign {} {}", m.is_negative(), m.is_positive())
                        }
                    }
                    "eq" => {
                        let r = st.pop().unwrap();
                        let l = st.pop().unwrap();
                        match (l, r) {
                            (V::M(a), V::M(b)) => println!("eq {}", a == b),
                            (a, b) => {
                                let mut t = vec![a];
                                let a = pop_b(&mut t);
                                let mut t = vec![b];
                                let b = pop_b(&mut t);
                                println!("eq {} {}", a == b, b == a)
                            }
                        }
                    }
                    "cmp" => {
                        let r = st.pop().unwrap();
                        let l = st.pop().unwrap();
                        if let (V::M(a), V::M(b)) = (l, r) {
                            println!("cmp {:?} {:?}", a.cmp(&b), a.partial_cmp(&b))
                        }
                    }
                    "len" => {
                        if let V::B(b) = st.last().unwrap() {
                            println!("len {}", b.len())
                        }
                    }
                    "show" => match st.last().unwrap() {
                        V::M(m) => println!("{}", m),
                        V::B(b) => println!("{}", b),
                    },
                    x => panic!("op {}", x),
                }
            }
            for v in st.iter() {
                match v {
                    V::M(m) => println!("M {}", show_money(m)),
                    V::B(b) => println!("B {}", show_balance(b)),
                }
            }
            0
        }
        // List<Account>: ins NAME | alias A NAME | get X | re R | app NAME,NAME | len
        "list" => {
            let mut l: List<Account> = List::new();
            for op in &f[1..] {
                let w: Vec<&str> = op.split('\t').collect();
                match w[0] {
                    "ins" => {
                        let mut al = std::collections::HashSet::new();
                        for a in &w[2..] {
                            al.insert(a.to_string());
                        }
                        l.insert(Account::new(
                            w[1].to_string(),
                            dinero_origin(),
                            None,
                            None,
                            al,
                            vec![],
                            vec![],
                            vec![],
                            false,
                        ));
                        println!("ok")
                    }
                    "alias" => {
                        let a = Account::from(w[2]);
                        l.add_alias(w[1].to_string(), &a);
                        println!("ok")
                    }
                    "get" => match l.get(w[1]) {
                        Ok(x) => println!("= {}", x.get_name()),
                        Err(_) => println!("none"),
                    },
                    "re" => match l.get_regex(Regex::new(w[1]).unwrap()) {
                        Some(x) => println!("= {}", x.get_name()),
                        None => println!("none"),
                    },
                    "app" => {
                        let mut o: List<Account> = List::new();
                        for n in &w[1..] {
                            o.insert(Account::from(*n));
                        }
                        l.append(&o);
                        println!("ok")
                    }
                    "len" => println!("len {}", l.len()),
                    x => panic!("op {}", x),
                }
            }
            let mut n: Vec<&str> = l.values().map(|x| x.get_name()).collect();
            n.sort();
            println!("names {}", n.join("\t"));
            0
        }
        // conv TARGET DATE (DATE COMMODITY AMOUNT CURRENCY)*
        "conv" => {
            let d = |s: &str| NaiveDate::parse_from_str(s, "%Y-%m-%d").unwrap();
            let mut prices = vec![];
            for p in &f[3..] {
                let w: Vec<&str> = p.split(' ').collect();
                prices.push(Price::new(
                    d(w[0]),
                    Rc::new(Currency::from(w[1])),
                    money(w[3], w[2]),
                ));
            }
            let m = conversion(Rc::new(Currency::from(f[1].as_str())), d(&f[2]), &prices);
            let mut v: Vec<String> = m
                .iter()
                .map(|(k, v)| format!("{} {}", k.get_name(), v))
                .collect();
            v.sort();
            for x in v {
                println!("{}", x);
            }
            0
        }
        "query" => {
            println!("{}", dinero::filter::preprocess_query(&f[1..].to_vec()));
            0
        }
        "tags" => {
            for t in (Comment { comment: f[1].clone() }).get_tags() {
                println!(
                    "{}\t{}",
                    t.name,
                    match t.value {
                        None => "-".to_string(),
                        Some(x) => format!("+{}", x),
                    }
                );
            }
            0
        }
        // expr EXPRESSION ACCOUNT CUR AMOUNT PAYEE DATE [TAG\tVALUE]...
        "expr" => {
            use dinero::models::*;
            use dinero::parser::value_expr::{eval_expression, EvalResult};
            let payee = Payee::from(f[5].as_str());
            let mut t = Transaction::<Posting>::new(TransactionType::Real);
            t.date = Some(NaiveDate::parse_from_str(&f[6], "%Y-%m-%d").unwrap());
            let mut p = Posting::new(
                &Rc::new(Account::from(f[2].as_str())),
                PostingType::Real,
                &payee,
                PostingOrigin::FromTransaction,
            );
            p.set_amount(money(&f[3], &f[4]));
            for tag in &f[7..] {
                let w: Vec<&str> = tag.split('\t').collect();
                p.tags.borrow_mut().push(Tag {
                    name: w[0].to_string(),
                    check: vec![],
                    assert: vec![],
                    value: w.get(1).map(|x| x.to_string()),
                });
            }
            t.postings.borrow_mut().push(p.clone());
            let mut coms: List<Currency> = List::new();
            let mut res = HashMap::new();
            match eval_expression(&f[1], &p, &t, &mut coms, &mut res) {
                EvalResult::Number(n) => println!("num {}", n),
                EvalResult::Money(m) => println!("money {}", show_money(&m)),
                EvalResult::Boolean(b) => println!("bool {}", b),
                EvalResult::String(s) => println!("str {:?}", s),
                EvalResult::Date(d) => println!("date {}", d),
                _ => println!("other"),
            }
            0
        }
        // parse TEXT: what the parser understood, before any accounting
        "parse" => {
            let mut tk = dinero::parser::Tokenizer::from(f[1].clone());
            let parsed = match tk.tokenize() {
                Ok(x) => x,
                Err(_) => return 1,
            };
            let o = |x: &Option<String>| match x {
                None => "-".to_string(),
                Some(s) => format!("+{:?}", s),
            };
            let r = |x: &Option<BigRational>| match x {
                None => "-".to_string(),
                Some(s) => format!("{}", s),
            };
            for t in parsed.transactions.iter() {
                println!(
                    "T {:?} {} {} desc={:?} payee={} comments={:?}",
                    t.transaction_type,
                    t.date.map_or("-".to_string(), |d| d.to_string()),
                    t.effective_date.map_or("-".to_string(), |d| d.to_string()),
                    t.description,
                    o(&t.payee),
                    t.comments.iter().map(|c| c.comment.clone()).collect::<Vec<_>>()
                );
                for p in t.postings.borrow().iter() {
                    println!(
                        "P {:?} {:?} amt={} {} cost={} {} {} bal={} {} expr={} payee={} comments={:?}",
                        p.kind,
                        p.account,
                        r(&p.money_amount),
                        o(&p.money_currency),
                        r(&p.cost_amount),
                        o(&p.cost_currency),
                        p.cost_type.map_or("-".to_string(), |c| format!("{:?}", c)),
                        r(&p.balance_amount),
                        o(&p.balance_currency),
                        o(&p.amount_expr),
                        o(&p.payee),
                        p.comments.iter().map(|c| c.comment.clone()).collect::<Vec<_>>()
                    );
                }
            }
            for c in parsed.comments.iter() {
                println!("C {:?}", c.comment)
            }
            for c in parsed.tags.iter() {
                println!("G {:?} {:?} {:?}", c.name, c.check, c.assert)
            }
            println!(
                "N prices={} accounts={} payees={} commodities={}",
                parsed.prices.len(),
                parsed.accounts.len(),
                parsed.payees.len(),
                parsed.commodities.len()
            );
            0
        }
        _ => 91,
    }
}

fn dinero_origin() -> dinero::models::Origin {
    dinero::models::Origin::Other
}
