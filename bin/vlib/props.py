"""Which functions each property rests on, and how many bounded cases accompany the proof."""
BASE = "Assumes the contracts of shims.rs for std, num, chrono and regex and trusts the translator (rules in DESIGN.md). "
PROPS = {
    "C01": dict(fns=[r"money::.*", r"balance::.*"], quick=30000,
                note=BASE + "Proved for all inputs for every operator of Money and Balance; random expressions against exact fractions accompany it."),
    "C02": dict(fns=[r"transaction::(total_balance|Transaction<Posting>::.*)", r"to_ledger::.*", r"history::.*", r"balance::.*(can_be_zero|Add::add|From<Money>::from|is_zero|Neg::neg)", r"money::.*(is_negative|is_positive|Neg::neg|is_zero)"], quick=12000,
                note=BASE + "Proved for Transaction::balance, what it calls and to_ledger, which calls it for every transaction; reading the text and the exit status are bounded (random journals through the command line)."),
    "C03": dict(fns=[r"transaction::Transaction<Posting>::balance", r"to_ledger::.*", r"history::.*", r"balance::.*(Neg::neg|Add::add|From<Money>::from|iter)"], quick=12000,
                note=BASE + "Proved for Transaction::balance and to_ledger; the printed register is bounded (random journals through the command line)."),
    "C04": dict(fns=[r"transaction::Transaction<Posting>::balance", r"to_ledger::.*", r"history::.*", r"balance::.*(PartialEq::eq|Sub::sub|to_money|Add::add|From<Money>::from)", r"money::.*PartialEq::eq"], quick=12000,
                note=BASE + "Proved for Transaction::balance and, over all transactions in date order, for to_ledger; reading the text and the exit status are bounded (random journals through the command line)."),
    "C05": dict(fns=[r"to_ledger::.*", r"history::.*", r"ledger::.*_transaction_to_ledger", r"cmd_prices::.*", r"cmd_price.*::.*", r"price::.*"], quick=8000,
                note=BASE + "Proved: converting a transaction records exactly one price per posting with a cost, with the exact unit price, and the prices command prints each price of the ledger in order and so does reading the whole journal: price directives, costs and implied exchanges, each once; reading the text is bounded (random journals through the command line)."),
    "C06": dict(fns=[r"conversion::.*", r"cmd_balance::convert_balance", r"balance::.*(Add::add|From<Money>::from|iter)", r"money::.*get_(amount|commodity)"], quick=8000,
                note=BASE + "Proved for conversion over every price list: the rates are exactly those of the C06 statement, for every commodity, and for convert_balance, which applies them; which of several equally quick chains is taken, that it does not depend on hashing, and the command line are bounded (random price graphs)."),
    "C07": dict(fns=[r"filter::filter.*", r"value_expr::eval"], quick=8000,
                note=BASE + "Proved for filter, filter_expression and eval; that every report calls filter for each posting is bounded (random journals and options through the command line)."),
    "C08": dict(fns=[r"value_expr::.*", r"money::.*"], quick=12000,
                note=BASE + "Proved for eval over syntax trees and the operators it uses; reading the text into a tree (pest grammar) is bounded (random expressions through the command line)."),
    "C09": dict(fns=[r"filter::preprocess_query"], quick=8000,
                note=BASE + "Proved: the expanded text is exactly the documented one for every list of words; its effect on reports is bounded."),
    "C10": dict(fns=[r"cmd_balance::.*", r"filter::filter", r"conversion::.*", r"balance::.*(Add::add|Sub::sub|Neg::neg|From<Money>::from|is_zero|iter)"], quick=8000,
                note=BASE + "Proved for the balance command over every ledger: the printed lines, the accounts they stand for and the total are exactly the sums of the selected postings (predicate report_ok); colours are left out of the text; reading the journal is bounded (random journals through the command line)."),
    "C11": dict(fns=[r"register::.*", r"filter::filter", r"balance::.*(Add::add|From<Money>::from|is_zero|iter)", r"led_transaction::.*get_payee.*"], quick=8000,
                note=BASE + "Proved for the register command over every ledger: the printed rows are exactly the selected postings in order, each with the exact prefix sum; that the ledger is in date order is bounded (random journals through the command line)."),
    "C12": dict(fns=[r"money_fmt::.*", r"currency::Currency::get_precision"], quick=12000,
                note=BASE + "Proved for Display of Money over every rational, for commodities shown with 1 to 7 decimals; that reports print amounts through it is bounded (random journals through the command line)."),
    "C13": dict(fns=[r"t_transaction::parse_(amount|money)", r"chars::.*"], quick=12000,
                note=BASE + "Proved for parse_amount, parse_money and the reader primitives below them, over every text; amounts inside value expressions (pest) and the command line are bounded."),
    "C14": dict(fns=[r"list::.*", r"currency::.*", r"account::.*", r"payee::.*"], quick=12000,
                note=BASE + "Proved for List (insert, add_alias, get, get_regex and the rest) and the accessors of Account, Payee and Currency."),
    "C15": dict(fns=[r"t_transaction::parse_.*", r"t_comment::parse", r"chars::.*"], quick=12000,
                note=BASE + "Proved for parse_posting, what it calls and the reader primitives, over every text; how a transaction's lines are gathered and the command line are bounded."),
    "C16": dict(fns=[r"to_ledger::.*", r"history::.*", r"ledger::.*get_filter_query", r"value_expr::(eval|eval_value_expression)", r"filter::(filter_expression|preprocess_query)", r"list::List<T>::(get|insert)"], quick=8000,
                note=BASE + "Proved for to_ledger over every parsed journal: what is added to each transaction, posting by posting; the trees of the condition and of amount expressions (pest) and the text of the automated transaction are bounded (random journals through the command line)."),
    "C17": dict(fns=[r"posting::.*(has_tag|get_tag|get_exact_tag)", r"value_expr::eval"], quick=8000,
                note=BASE + "Proved for the lookups on a posting's tags; splitting a comment into tags (regex) is bounded (random comments through the command line)."),
    "C18": dict(fns=[r"journal::.*", r"t_comment::parse", r"t_transaction::parse_posting", r"chars::.*"], quick=6000,
                note=BASE + "Proved for Tokenizer::tokenize over every text: it ends, the items it reads tile the text (only blanks between them), each is recorded once and in order, and a refusal names a line of the first item that cannot be read. The item parsers that rest on pest or regex (the six directives, transaction::parse) are held to assumed contracts (they consume text, and blame a line of it), checked on random journals through the command line, as is the exit status."),
    "C19": dict(fns=[r"to_ledger::.*", r"history::.*", r"cmd_(accounts|payees|commodities|lists.*)::.*", r"list::.*", r"journal::.*tokenize"], quick=4000,
                note=BASE + "Proved for the three execute functions: what they print is every element of the ledger's list once, sorted by name and the list of the ledger holds exactly the declared and used names; reading the text is bounded (random journals through the command line)."),
    "C20": dict(fns=[r"to_ledger::.*", r"history::.*", r"ledger::.*_transaction_to_ledger", r"cmd_.*::.*", r"register::execute"], quick=8000,
                note=BASE + "Proved for to_ledger: the transactions of the ledger are those of the journal, once each, stably sorted by date and settled in that order; each command prints its report only from such a ledger; reading the text, the order of the balance command and the exit status are bounded (random journals through the command line)."),
}
NA = {}
TRUSTED = ["Verus 0.2026.09.13 and its Z3", "the translator /verif/extract (syntactic rules listed in DESIGN.md)",
           "contracts/shims.rs: contracts assumed for std, num, chrono and regex"]
ASSUMPTIONS = ["BigRational and BigInt behave as mathematical rationals and integers",
               "HashMap/HashSet behave as finite maps/sets and enumerate each entry once, in an arbitrary order",
               "usize counters are checked for overflow by the verifier; panics end the function"]
