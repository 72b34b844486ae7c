"""Independent reference semantics of journals and reports (exact rationals).

Written from the properties, not from the code; used to look for a failing
input when an obligation fails, and as the bounded part of the checks.
"""
import re
from collections import OrderedDict
from fractions import Fraction as Q


class Reject(Exception):
    """the journal must be refused (exit status 1)"""


class Undefined(Exception):
    """outside what the properties say"""


# ---------------------------------------------------------------- journal
class P:
    def __init__(s, account, amount=None, cost=None, assertion=None, kind="r", comments=(), inline=None, expr=None):
        s.account, s.amount, s.cost, s.assertion, s.kind = account, amount, cost, assertion, kind
        s.comments, s.inline, s.expr = list(comments), inline, expr

    def copy(s):
        return P(s.account, s.amount, s.cost, s.assertion, s.kind, list(s.comments), s.inline, s.expr)


class T:
    def __init__(s, date, desc, postings, payee=None, comments=(), code=None, status=None, edate=None, inline=None):
        s.date, s.desc, s.postings, s.payee = date, desc, postings, payee
        s.comments, s.code, s.status, s.edate = list(comments), code, status, edate
        s.inline = inline
        if inline is not None:
            s.comments.insert(0, inline)


class Auto:
    def __init__(s, query, postings, comments=()):
        s.query, s.postings, s.comments = query, postings, list(comments)


class Price:
    def __init__(s, date, com, qty, cur):
        s.date, s.com, s.qty, s.cur = date, com, qty, cur


class Acc:
    def __init__(s, name, aliases=(), payees=()):
        s.name, s.aliases, s.payees = name, list(aliases), list(payees)


class Com:
    def __init__(s, name, aliases=()):
        s.name, s.aliases = name, list(aliases)


class Pay:
    def __init__(s, name, aliases=()):
        s.name, s.aliases = name, list(aliases)


class Note:
    def __init__(s, text):
        s.text = text


# ---------------------------------------------------------------- rendering
def num(q, style=0):
    """exact decimal text of a decimal rational"""
    q = Q(q)
    k = 0
    while (q * 10 ** k).denominator != 1:
        k += 1
        if k > 60:
            raise Undefined("not a decimal: %s" % q)
    n = abs(q * 10 ** k).numerator
    s = str(n).rjust(k + 1, "0")
    s = s[:len(s) - k] + ("." + s[len(s) - k:] if k else "")
    if style == 1 and k == 0:
        s += ".00"
    elif style == 2 and k:
        s += "0"
    elif style == 3:
        s = "0" + s
    elif style == 4 and s.startswith("0."):
        s = s[1:]
    return ("-" if q < 0 else "") + s


def money(q, cur, pos=0, style=0):
    n = num(q, style)
    if cur == "":
        return n
    c = '"%s"' % cur if re.search(r"[\s0-9.;-]", cur) else cur
    return (n + " " + c) if pos == 0 else (n + c) if pos == 1 else (c + " " + n) if pos == 2 else (c + n)


def acct(p):
    return {"r": "%s", "v": "(%s)", "b": "[%s]"}[p.kind] % p.account


def posting_line(p, rng=None):
    r = rng or _Plain()
    s = r.choice(["    ", "  ", "\t", " "]) + acct(p)
    sep = lambda: r.choice(["  ", "    ", "\t", "  \t "])
    sp = lambda: r.choice([" ", "  ", ""])
    first = True

    def add(x):
        nonlocal s, first
        s += (sep() if first else r.choice([" ", "  "])) + x
        first = False
    if p.expr is not None:
        add(p.expr)
    elif p.amount is not None:
        add(money(p.amount[0], p.amount[1], r.choice([0, 0, 1, 2, 3]), r.choice([0, 0, 1, 2, 3, 4])))
    if p.cost is not None:
        add(p.cost[0] + sp() + money(p.cost[1], p.cost[2], r.choice([0, 0, 1, 2, 3]), r.choice([0, 1, 2])))
    if p.assertion is not None:
        add("=" + sp() + money(p.assertion[0], p.assertion[1], r.choice([0, 0, 1, 2, 3]), r.choice([0, 1, 2])))
    if p.inline is not None:
        add(";" + sp() + p.inline)
    s += "\n"
    for c in p.comments:
        s += "    ; " + c + "\n"
    return s


class _Plain:
    def choice(self, xs):
        return xs[0]

    def random(self):
        return 0.5


def render(items, rng=None):
    r = rng or _Plain()
    out = []
    for it in items:
        if isinstance(it, T):
            d = it.date
            sep = r.choice(["-", "-", "/", "."])
            s = d.replace("-", sep)
            if it.edate:
                s += "=" + it.edate.replace("-", sep)
            s += " "
            if it.status:
                s += it.status + " "
            if it.code:
                s += "('%s') " % it.code
            s += it.desc
            if it.payee is not None:
                s += " | " + it.payee
            if it.inline is not None:
                s += r.choice([" ", "  "]) + ";" + r.choice([" ", ""]) + it.inline
            s += "\n"
            for c in it.comments[0 if it.inline is None else 1:]:
                s += "    ; " + c + "\n"
            for p in it.postings:
                s += posting_line(p, rng)
            out.append(s + r.choice(["\n", "", "\n\n"]))
        elif isinstance(it, Auto):
            s = "= " + " ".join(it.query) + "\n"
            for c in it.comments:
                s += "    ; " + c + "\n"
            for p in it.postings:
                s += posting_line(p, None)
            out.append(s + "\n")
        elif isinstance(it, Price):
            out.append("P %s %s %s\n" % (it.date, it.com, money(it.qty, it.cur)))
        elif isinstance(it, Acc):
            out.append("account %s\n" % it.name + "".join("    alias %s\n" % a for a in it.aliases)
                       + "".join("    payee %s\n" % a for a in it.payees))
        elif isinstance(it, Com):
            out.append("commodity %s\n" % it.name + "".join("    alias %s\n" % a for a in it.aliases))
        elif isinstance(it, Pay):
            out.append("payee %s\n" % it.name + "".join("    alias %s\n" % a for a in it.aliases))
        elif isinstance(it, Note):
            out.append("; %s\n" % it.text)
        else:
            out.append(str(it))
    return "".join(out)


# ---------------------------------------------------------------- amounts
def badd(a, b):
    r = dict(a)
    for c, q in b.items():
        r[c] = r.get(c, Q(0)) + q
    return {c: q for c, q in r.items() if q != 0}


def bneg(a):
    return {c: -q for c, q in a.items()}


def settled(b):
    """can the commodities be exchanged for each other: all zero, or both signs"""
    return not b or (any(q > 0 for q in b.values()) and any(q < 0 for q in b.values()))


def show(q, cur):
    """two decimals, half away from zero, no sign on zero"""
    n = abs(q) * 100
    k = (2 * n.numerator + n.denominator) // (2 * n.denominator)
    s = "%d.%02d" % (k // 100, k % 100)
    return ("-" if q < 0 and k else "") + s + " " + cur


# ---------------------------------------------------------------- names
class Names:
    """case-insensitive names and aliases"""

    def __init__(s):
        s.names, s.al = OrderedDict(), {}

    def insert(s, name, aliases=()):
        k = name.lower()
        if k in s.names:
            return
        for a in aliases:
            s.al[a.lower()] = k
        s.names[k] = name

    def get(s, x):
        k = x.lower()
        if k in s.names:
            return s.names[k]
        if k in s.al:
            return s.names[s.al[k]]
        return None

    def see(s, x):
        if s.get(x) is None:
            s.insert(x)


# ---------------------------------------------------------------- tags
def tags_of(comment):
    """list of (name, value or None)"""
    c = comment
    m = re.search(r"(:.+:) *$", c)
    if m:
        return [(x, None) for x in m.group(1)[1:-1].split(":")]
    i = c.rfind(":")
    if i < 0:
        return []
    name = c[:i].lstrip(" ")
    if ":" in name or "\n" in c:
        return []
    return [(name, c[i + 1:].lstrip(" "))]


# ---------------------------------------------------------------- ledger
class Post:
    def __init__(s, account, amount, kind, payee, tags, cost=None, assertion=None, auto=False):
        s.account, s.amount, s.kind, s.payee, s.tags = account, amount, kind, payee, tags
        s.cost, s.assertion, s.auto = cost, assertion, auto

    def bal(s):
        return {} if s.amount[1] is None or s.amount[0] == 0 else {s.amount[1]: s.amount[0]}

    def value(s):
        """contribution to the balance of the transaction"""
        if s.cost is None:
            return s.bal()
        k, q, c = s.cost
        if k == "@@":
            v = -q if s.amount[0] < 0 else q
        else:
            v = q * s.amount[0]
        return {c: v} if v else {}


class Txn:
    pass


def rx(r):
    return re.compile(r)


class Ledger:
    def __init__(s, items, no_checks=False):
        s.accounts, s.payees, s.coms = Names(), Names(), Names()
        s.prices, s.txns = [], []
        s.accpay = []
        s.multi = False
        paydirs = []
        autos = []
        for it in items:
            if isinstance(it, Acc):
                s.accounts.insert(it.name, it.aliases)
                s.accpay.append((it.name, it.payees))
            elif isinstance(it, Com):
                s.coms.insert(it.name, it.aliases)
            elif isinstance(it, Pay):
                s.payees.insert(it.name)
                paydirs.append(it)
        for it in items:
            if isinstance(it, (T, Auto)):
                for p in it.postings:
                    s.accounts.see(p.account)
                    if p.amount is not None and p.expr is None:
                        s.coms.see(p.amount[1])
                    if p.cost:
                        s.coms.see(p.cost[2])
                    if p.assertion:
                        s.coms.see(p.assertion[1])
                    if isinstance(it, T):
                        s.see_payee(payee_of(it), paydirs)
            elif isinstance(it, Price):
                s.coms.see(it.com)
                s.coms.see(it.cur)
        for it in items:
            if isinstance(it, Price):
                s.prices.append((it.date, s.coms.get(it.com), it.qty, s.coms.get(it.cur), False))
        for it in items:
            if isinstance(it, T):
                s.txns.append(s.resolve(it))
            elif isinstance(it, Auto):
                autos.append(it)
        s.txns.sort(key=lambda t: t.date)      # stable
        s.balance_all(no_checks, not autos)
        s.autos = autos
        if autos:
            for t in s.txns:
                for a in autos:
                    s.automate(t, a)
            s.balance_all(no_checks, True)

    def see_payee(s, x, paydirs):
        if s.payees.get(x) is not None:
            return
        for d in paydirs:
            if any(re.search(a, x) for a in d.aliases):
                s.payees.al[x.lower()] = d.name.lower()
                return
        s.payees.insert(x)

    def resolve(s, it):
        t = Txn()
        t.date, t.desc, t.comments = it.date, it.desc, it.comments
        ttags = [g for c in it.comments for g in tags_of(c)]
        t.tags = ttags
        t.posts = []
        payee = s.payees.get(payee_of(it))
        for p in it.postings:
            acc = s.accounts.get(p.account)
            if p.account.lower().endswith("unknown"):
                hit = [n for n, ps in s.accpay if any(re.search(a, payee) for a in ps)]
                if len(hit) > 1:
                    raise Undefined("ambiguous payee")
                if hit:
                    acc = hit[0]
            tags = list(ttags)
            if p.inline is not None:
                tags += tags_of(p.inline)
            for c in p.comments:
                tags += tags_of(c)
            amt = None if p.amount is None else (Q(p.amount[0]), s.coms.get(p.amount[1]))
            cost = None
            if p.cost is not None:
                cost = (p.cost[0], Q(p.cost[1]), s.coms.get(p.cost[2]))
                unit = cost[1] if cost[0] == "@" else (cost[1] / abs(amt[0]) if amt[0] else None)
                if unit is not None:
                    s.prices.append((it.date, amt[1], unit, cost[2], False))
            asr = None if p.assertion is None else (Q(p.assertion[0]), s.coms.get(p.assertion[1]))
            t.posts.append(Post(acc, amt, p.kind, payee, tags, cost, asr))
        return t

    def balance_all(s, no_checks, record):
        run = {}
        for t in s.txns:
            left = s.balance(t, run, no_checks)
            if record and len(left) == 2:
                (c1, q1), (c2, q2) = sorted(left.items())
                s.prices.append((t.date, c1, abs(q2 / q1), c2, True))

    def balance(s, t, run, no_checks):
        tot = {}
        for p in t.posts:
            if p.kind == "b":
                if p.amount is None:
                    raise Undefined("virtual without amount")
                tot = badd(tot, p.value())
        if not settled(tot):
            raise Reject("virtual postings do not balance")
        left, done, empty = {}, [], []
        for p in t.posts:
            if p.kind != "r":
                continue
            bal = run.get(p.account, {})
            if p.amount is not None:
                new = badd(bal, p.bal())
                if p.assertion is not None and not no_checks:
                    if new.get(p.assertion[1], Q(0)) != p.assertion[0]:
                        raise Reject("assertion")
                run[p.account] = new
                left = badd(left, p.value())
                done.append(p)
            elif p.assertion is not None and not no_checks:
                want = badd({}, {p.assertion[1]: p.assertion[0]})
                diff = badd(want, bneg(bal))
                if len(diff) > 1:
                    raise Reject("assignment needs several commodities")
                p.amount = (Q(0), None) if not diff else list((q, c) for c, q in diff.items())[0]
                run[p.account] = want
                left = badd(left, p.bal())
                done.append(p)
            else:
                empty.append(p)
        if len(empty) > 1:
            raise Reject("too many empty postings")
        rest = [p for p in t.posts if p.kind != "r"]
        if empty:
            e = empty[0]
            fill = []
            for c, q in sorted(left.items()):
                fill.append(Post(e.account, (-q, c), "r", e.payee, list(e.tags)))
                run[e.account] = badd(run.get(e.account, {}), {c: -q})
            t.fill = fill
            s.multi |= len(fill) > 1
            t.posts = done + fill + rest
            return {}
        if not settled(left):
            raise Reject("real postings do not balance")
        t.posts = done + rest
        t.fill = []
        return left

    def automate(s, t, a):
        extra = []
        for p in t.posts:
            if p.auto:
                continue
            if not match_query(a.query, s, t, p):
                continue
            for c in a.comments:
                p.tags += tags_of(c)
            for ap in a.postings:
                s.accounts.see(ap.account)
                if ap.expr is not None:
                    v = evaluate(ap.expr_ast, s, t, p)
                    if v[0] == "num":
                        amt = (p.amount[0] * v[1], p.amount[1])
                    elif v[0] == "money":
                        amt = (v[1], v[2])
                    else:
                        raise Undefined("type")
                elif ap.amount[1] == "":
                    if p.amount[1] is None:
                        raise Undefined("zero")
                    amt = (p.amount[0] * ap.amount[0], p.amount[1])
                else:
                    amt = (Q(ap.amount[0]), s.coms.get(ap.amount[1]))
                extra.append(Post(s.accounts.get(ap.account), amt, ap.kind, p.payee, [], auto=True))
        t.posts += extra


def payee_of(it):
    if it.payee is not None:
        return it.payee
    return it.desc if it.desc else "[Unspecified payee]"


# ---------------------------------------------------------------- queries
def terms(query):
    """[(join, kind, text)] from command line terms"""
    out = []
    join, expr = "or", False
    for raw in query:
        w = raw.strip()
        if not w:
            continue
        if w == "and":
            join = "and"
            continue
        if w == "or":
            join = "or"
            continue
        if w == "expr":
            expr = True
            continue
        if expr:
            out.append((join, "expr", w))
        elif w[0] == "@":
            out.append((join, "payee", "(?i)" + w[1:]))
        elif w[0] == "%":
            out.append((join, "tag", "(?i)" + w[1:]))
        elif w[0] == "/":
            out.append((join, "account", w[1:-1]))
        else:
            out.append((join, "account", "(?i)" + w))
        join, expr = "or", False
    return out


EXPRS = {}   # expression text -> AST (the generators register what they render)


def match_query(query, led, t, p):
    ts = terms(query)
    if not ts:
        return True
    # 'and' binds tighter than 'or'
    groups = []
    for j, k, x in ts:
        if k == "expr":
            v = evaluate(EXPRS[x], led, t, p)
            if v[0] != "bool":
                raise Undefined("not a boolean")
            b = v[1]
        elif k == "account":
            b = re.search(x, p.account) is not None
        elif k == "payee":
            b = re.search(x, p.payee) is not None
        else:
            b = any(re.search(x, n) for n, _ in p.tags)
        if j == "and" and groups:
            groups[-1].append(b)
        else:
            groups.append([b])
    return any(all(g) for g in groups)


# ---------------------------------------------------------------- value expressions
# AST: ('num',q) ('money',q,c) ('amount',) ('account',) ('payee',) ('note',) ('date',) ('re',s) ('str',s)
#      ('neg',x) ('not',x) ('abs',x) ('any',x) ('has_tag',x) ('tag',x) ('to_date',x)
#      (op,l,r) op in + - * / == =~ < > <= >= and or
class Panic(Exception):
    pass


def evaluate(n, led, t, p):
    k = n[0]
    if k == "num":
        return ("num", Q(n[1]))
    if k == "money":
        return ("money", Q(n[1]), (led.coms.get(n[2]) if led else None) or n[2])
    if k == "amount":
        return ("money", p.amount[0], p.amount[1])
    if k == "account":
        return ("name", p.account)
    if k == "payee":
        return ("name", p.payee)
    if k == "date":
        return ("date", t.date)
    if k == "note":
        return ("note",)
    if k == "re":
        return ("re", n[1])
    if k == "str":
        return ("str", n[1])
    if k == "any":
        evaluate(n[1], led, t, p)
        for q in t.posts:
            v = evaluate(n[1], led, t, q)
            if v[0] != "bool":
                raise Panic
            if v[1]:
                return ("bool", True)
        return ("bool", False)
    if len(n) == 2:
        v = evaluate(n[1], led, t, p)
        if k == "neg":
            if v[0] == "num":
                return ("num", -v[1])
            if v[0] == "money":
                return ("money", -v[1], v[2])
            if v[0] == "bool":
                return ("bool", not v[1])
        if k == "not" and v[0] == "bool":
            return ("bool", not v[1])
        if k == "abs":
            if v[0] == "num":
                return ("num", abs(v[1]))
            if v[0] == "money":
                return ("money", abs(v[1]), v[2])
        if k == "has_tag" and v[0] == "re":
            return ("bool", any(re.search(v[1], g) for g, _ in p.tags))
        if k == "tag":
            if v[0] == "re":
                for g, x in p.tags:
                    if re.search(v[1], g):
                        return ("str", x)
                return ("str", None)
            if v[0] == "str":
                for g, x in p.tags:
                    if v[1] == g:
                        return ("str", x)
                return ("str", None)
        if k == "to_date" and v[0] == "str":
            return ("date", v[1])
        raise Panic
    a = evaluate(n[1], led, t, p)
    b = evaluate(n[2], led, t, p)
    x, y = a[0], b[0]
    if k in ("==", "=~"):
        if y == "re":
            if x == "name":
                return ("bool", re.search(b[1], a[1]) is not None)
            if x == "str":
                return ("bool", a[1] is not None and re.search(b[1], a[1]) is not None)
            if x == "note":
                return ("bool", any(re.search(b[1], c) for c in t.comments))
            raise Panic
        if x in ("num", "money") and y in ("num", "money"):
            if x == y == "money":
                if a[1] == 0 and b[1] == 0:
                    return ("bool", True)
                if (a[2] is None) != (b[2] is None):
                    return ("bool", a[1] == b[1])
                return ("bool", a[1] == b[1] and a[2] == b[2])
            return ("bool", a[1] == b[1])
        if x == y and x in ("bool", "str", "date"):
            return ("bool", a[1] == b[1])
        raise Panic
    if k in ("<", ">", "<=", ">="):
        if x in ("num", "money") and y in ("num", "money"):
            if x == y == "money" and a[2] != b[2]:
                raise Undefined("different commodities")
            l, r = a[1], b[1]
        elif x == y == "date":
            l, r = a[1], b[1]
        elif x == y == "str":
            l, r = [(0, "") if v is None else (1, v) for v in (a[1], b[1])]
        else:
            return ("bool", False)
        return ("bool", {"<": l < r, ">": l > r, "<=": l <= r, ">=": l >= r}[k])
    if k in ("+", "-"):
        f = (lambda l, r: l + r) if k == "+" else (lambda l, r: l - r)
        if x == y == "num":
            return ("num", f(a[1], b[1]))
        if x == y == "money":
            d = badd(badd({}, {a[2]: a[1]}), {b[2]: f(Q(0), b[1])})
            if len(d) > 1:
                raise Panic
            return ("money", Q(0), None) if not d else [("money", q, c) for c, q in d.items()][0]
        raise Panic
    if k in ("*", "/"):
        if y == "num" and k == "/" and b[1] == 0:
            raise Panic
        if x == "num" and y == "num":
            return ("num", a[1] * b[1] if k == "*" else a[1] / b[1])
        if x == "num" and y == "money" and k == "*":
            return ("money", a[1] * b[1], b[2])
        if x == "money" and y == "num":
            return ("money", a[1] * b[1] if k == "*" else a[1] / b[1], a[2])
        raise Panic
    if k in ("and", "or"):
        if x != "bool":
            raise Panic
        if k == "or" and a[1]:
            return ("bool", True)
        if k == "and" and not a[1]:
            return ("bool", False)
        if y != "bool":
            raise Panic
        return ("bool", b[1])
    raise Undefined(k)


PREC = {"or": 1, "and": 2, "==": 3, "=~": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5}


def etext(n, rng=None, prec=0):
    """expression text; parentheses only where needed (or now and then)"""
    r = rng or _Plain()
    k = n[0]
    if k == "num":
        return num(n[1])
    if k == "money":
        return money(n[1], n[2], r.choice([0, 0, 2]))
    if k in ("amount", "account", "payee", "note", "date"):
        return k
    if k == "re":
        return "/" + n[1] + "/"
    if k == "str":
        return "'" + n[1] + "'"
    if len(n) == 2:
        if k in ("neg", "not"):
            s = ("-" if k == "neg" else "not ") + etext(n[1], rng, 6)
            return s
        return k + "(" + etext(n[1], rng, 0) + ")"
    pr = PREC[k]
    op = {"and": "&", "or": "|"}.get(k, k)
    l = etext(n[1], rng, pr)
    q = etext(n[2], rng, pr + 1)
    s = l + " " + op + " " + q
    if pr < prec or r.random() < 0.1:
        s = "(" + s + ")"
    return s


# ---------------------------------------------------------------- reports
class Opts:
    def __init__(s, real=False, begin=None, end=None, query=(), flat=False, no_total=False, depth=None, nobal=False, x=None):
        s.real, s.begin, s.end, s.query = real, begin, end, list(query)
        s.flat, s.no_total, s.depth, s.nobal, s.x = flat, no_total, depth, nobal, x

    def args(s):
        a = []
        if s.real:
            a.append("--real")
        if s.begin:
            a += ["-b", s.begin]
        if s.end:
            a += ["-e", s.end]
        if s.flat:
            a.append("--flat")
        if s.no_total:
            a.append("--no-total")
        if s.depth is not None:
            a += ["-d", str(s.depth)]
        if s.nobal:
            a.append("--no-balance-check")
        if s.x:
            a += ["-X", s.x]
        if s.query:
            a += ["--"] + s.query
        return a


def selected(led, o):
    for t in led.txns:
        for p in t.posts:
            if o.real and p.kind != "r":
                continue
            if o.begin and t.date < o.begin:
                continue
            if o.end and t.date >= o.end:
                continue
            if o.query and not match_query(o.query, led, t, p):
                continue
            if p.amount is None:
                raise Undefined("posting without amount")
            yield t, p


def account_balances(led, o):
    bal = {}
    for t, p in selected(led, o):
        bal[p.account] = badd(bal.get(p.account, {}), p.bal())
    return bal


def check_bal(out, led, o, convert=None):
    """compare the text of a balance report with what it has to say; None or a complaint"""
    bal = account_balances(led, o)
    total = {}
    for b in bal.values():
        total = badd(total, b)
    exp = {}
    for a, b in bal.items():
        parts = a.split(":")
        if o.flat:
            keys = [":".join(parts[:o.depth]) if o.depth is not None else a]
            if not b:
                keys = []
        else:
            keys = [":".join(parts[:i + 1]) for i in range(len(parts))]
            if o.depth is not None:
                keys = keys[:o.depth]
        for k in keys:
            exp[k] = badd(exp.get(k, {}), b)
    if convert:
        exp = {a: convert(b) for a, b in exp.items()}
        total = convert(total)
    rows = sorted(((a, b) for a, b in exp.items() if b), key=lambda x: x[0].encode())
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    # split off the total
    tot_lines = None
    if "-" * 20 in lines:
        i = lines.index("-" * 20)
        tot_lines, lines = lines[i + 1:], lines[:i]
    i = 0
    shown = 0
    li = 0
    while li < len(lines):
        if i >= len(rows):
            return "unexpected line %r" % lines[li]
        a, b = rows[i]
        k = len(b)
        blk = lines[li:li + k]
        li += k
        if len(blk) < k:
            return "missing lines for %s" % a
        want = sorted("%20s" % show(q, c) for c, q in b.items())
        parts = a.split(":")
        if o.flat:
            label = "  " + a
            tail = blk[-1]
            if not tail.endswith(label):
                return "expected account %r at %r" % (a, tail)
            got = blk[:-1] + [tail[:len(tail) - len(label)]]
            i += 1
        else:
            n = len(parts)
            tail = blk[-1]
            # amount, 2n spaces, label: match the amount of one of the commodities
            ok = None
            for w in want:
                pre = w + "  " * n
                if tail.startswith(pre) and not tail[len(pre):].startswith(" "):
                    names = tail[len(pre):].split(":")
                    ok = (w, names)
                    break
            if ok is None:
                return "line %r does not show %s with %s" % (tail, a, want)
            got = blk[:-1] + [ok[0]]
            names = ok[1]
            if names[0] != parts[-1]:
                return "line %r should be for %s" % (tail, a)
            i += 1
            full = a
            for nm in names[1:]:
                full += ":" + nm
                if i >= len(rows) or rows[i][0] != full:
                    return "line %r shows %s, which has no balance or comes later" % (tail, full)
                if rows[i][1] != b:
                    return "line %r hides that %s has %s and %s has %s" % (tail, a, fmtb(b), full, fmtb(rows[i][1]))
                i += 1
        if sorted(got) != want:
            return "%s: expected %s, printed %s" % (a, want, got)
        shown += 1
    if i < len(rows):
        return "no line for %s with balance %s" % (rows[i][0], fmtb(rows[i][1]))
    if tot_lines is None:
        if not o.no_total and shown > 1:
            return "no total"
        return None
    if o.no_total:
        return "total printed with --no-total"
    want = sorted("%20s" % show(q, c) for c, q in total.items()) or ["%20s" % "0"]
    if sorted(tot_lines) != want:
        return "total: expected %s, printed %s" % (want, tot_lines)
    return None


def fmtb(b):
    return "{" + ", ".join("%s %s" % (q, c) for c, q in sorted(b.items())) + "}"


def clip(s, w):
    return s if len(s.encode()) < w - 3 else s[:w - 3] + ".."


def check_reg(out, led, o):
    if led.autos and led.multi:
        return None      # the order of the added postings follows that of the completing ones
    run = {}
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    li = 0
    last = None
    fills = list(selected(led, o))
    k = 0
    while k < len(fills):
        t, p = fills[k]
        # the postings that complete a transaction come in any order of their commodities
        grp = [fills[k]]
        if p in t.fill:
            while k + len(grp) < len(fills) and fills[k + len(grp)][0] is t and fills[k + len(grp)][1] in t.fill:
                grp.append(fills[k + len(grp)])
        todo = [g[1] for g in grp]
        for _ in grp:
            if li >= len(lines):
                return "missing line for %s %s" % (t.date, p.account)
            hit = None
            for p in todo:
                head = "%-11s%-42s" % (t.date, clip(led.payees.get(t.desc) or t.desc, 42) if False else clip((led.payees.get(t.desc) or t.desc) + " ", 42)) \
                    if last is not t else " " * 53
                a = {"r": "%s", "v": "(%s)", "b": "[%s]"}[p.kind] % p.account
                amt = "0" if p.amount[1] is None else show(*p.amount)
                head += "%-34s%17s" % (a, amt)
                if lines[li].startswith(head):
                    hit = p
                    break
            if hit is None:
                return "expected a line starting %r, got %r" % (head, lines[li])
            todo.remove(hit)
            last = t
            run = badd(run, hit.bal())
            want = sorted("%17s" % show(q, c) for c, q in run.items()) or ["%17s" % "0"]
            got = [lines[li][len(head):]]
            li += 1
            while len(got) < len(want) and li < len(lines) and lines[li].startswith(" " * 104):
                got.append(lines[li][104:])
                li += 1
            if sorted(got) != want:
                return "running total after %s %s: expected %s, printed %s" % (t.date, head, want, got)
        k += len(grp)
    if li < len(lines):
        return "unexpected line %r" % lines[li]
    return None
