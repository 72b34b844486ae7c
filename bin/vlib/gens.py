"""Generators and judges: for each property, inputs for the real code and what it has to answer."""
import random
import re
from fractions import Fraction as Q
from . import oracle as O
from .oracle import P, T, Auto, Price, Acc, Com, Pay, Note, Opts

ACCS = ["Assets:Cash", "Assets:Bank", "Assets:Bank:Checking", "Expenses:Food", "Expenses:Food:Out", "Income:Job",
        "Income", "Equity", "Liabilities:Card", "Bank account", "A", "A:B", "A:B:C", "AB", "A:Bc", "Ñandú:Ünï"]
COMS = ["EUR", "USD", "$", "€", "AAPL"]
DESCS = ["Shop", "Coffee Bar", "Salary", "A description that is longer than the column it has", "Ünïcode", "x"]
PAYEES = [None, None, None, "Alitalia", "Some Payee", "shopkeeper"]


class Fail(Exception):
    def __init__(self, what, **kw):
        super().__init__(what)
        self.what = what
        self.kw = kw


def amount(rng, big=False, zero=0.04):
    if rng.random() < zero:
        return Q(0)
    k = rng.choice([0, 0, 1, 2, 2, 2, 3, 4, 6])
    n = rng.choice([rng.randint(1, 20), rng.randint(1, 2000), rng.randint(1, 10 ** 6)])
    if big and rng.random() < 0.2:
        n = rng.randint(10 ** 18, 10 ** 30)
    return Q(n * rng.choice([1, -1]), 10 ** k)


def date(rng, lo=2018, hi=2021):
    return "%04d-%02d-%02d" % (rng.randint(lo, hi), rng.randint(1, 12), rng.randint(1, 28))


def header(rng, dates=None):
    return dict(date=rng.choice(dates) if dates else date(rng), desc=rng.choice(DESCS), payee=rng.choice(PAYEES),
                status=rng.choice([None, None, "*", "!"]), code=rng.choice([None, None, None, "7"]),
                edate=rng.choice([None, None, None, date(rng)]),
                inline=rng.choice([None] * 6 + ["Kind: gift", ":food:", "note"]))


def mk(rng, posts, comments=(), dates=None):
    return T(postings=posts, comments=comments, **header(rng, dates))


def run_all(probe, text, cmd, o=None):
    return probe.run(text, cmd, *(o.args() if o else []))


def shown_cmd(cmd, o):
    return "dinero %s -f JOURNAL %s" % (cmd, " ".join("'%s'" % a for a in (o.args() if o else [])))


def expect(probe, items, text, cmd, o, judge, what):
    """run a command and judge; a journal that has to be refused must be refused by every command"""
    try:
        led = O.Ledger(items, o.nobal)
    except O.Reject as e:
        r = run_all(probe, text, cmd, o)
        if r.rc != 1:
            raise Fail("%s: the journal has to be refused (%s) but the exit status is %s" % (what, e, r.rc),
                       journal=text, command=shown_cmd(cmd, o), actual=repr(r))
        if cmd in ("bal", "reg") and r.out:
            raise Fail("%s: a refused journal produced a report" % what, journal=text, command=shown_cmd(cmd, o), actual=repr(r))
        return "refused"
    except O.Undefined:
        return None
    r = run_all(probe, text, cmd, o)
    if r.rc != 0:
        raise Fail("%s: the journal is fine but the exit status is %s" % (what, r.rc), journal=text,
                   command=shown_cmd(cmd, o), actual=repr(r))
    bad = judge(r.out, led, o)
    if bad:
        raise Fail("%s: %s" % (what, bad), journal=text, command=shown_cmd(cmd, o), actual=repr(r))
    return "report"


# ---------------------------------------------------------------- transactions
def txn_posts(rng, accs=None, coms=None, elide=0.3, virtual=0.15, cost=0.2, off=0.15, fancy=True):
    """postings of one transaction, most of them balanced"""
    accs = accs or ACCS
    coms = coms or COMS
    posts, left = [], {}
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        a = amount(rng, big=fancy)
        c = rng.choice(coms)
        p = P(rng.choice(accs), (a, c))
        if rng.random() < cost:
            k = rng.choice(["@", "@@"])
            cc = rng.choice(coms)
            p.cost = (k, abs(amount(rng)), cc)
            v = p.cost[1] * a if k == "@" else (-p.cost[1] if a < 0 else p.cost[1])
            left = O.badd(left, {cc: v})
        else:
            left = O.badd(left, {c: a})
        posts.append(p)
    r = rng.random()
    if r < elide:
        posts.insert(rng.randint(0, len(posts)), P(rng.choice(accs)))
        if rng.random() < 0.08:
            posts.insert(rng.randint(0, len(posts)), P(rng.choice(accs)))
    elif r < 1 - off:
        for c, q in sorted(left.items()):
            posts.insert(rng.randint(0, len(posts)), P(rng.choice(accs), (-q, c)))
    else:
        k = rng.random()
        if k < 0.5 and left:
            # off by very little
            cs = sorted(left.items())
            for i, (c, q) in enumerate(cs):
                e = Q(rng.choice([1, -1]), 10 ** rng.choice([0, 2, 4, 9, 15])) if i == 0 else 0
                posts.append(P(rng.choice(accs), (-q + e, c)))
    for _ in range(rng.choice([0, 0, 1])):
        if rng.random() < virtual:
            posts.insert(rng.randint(0, len(posts)), P(rng.choice(accs), (amount(rng), rng.choice(coms)), kind="v"))
    if rng.random() < virtual:
        a, c = amount(rng), rng.choice(coms)
        p1 = P(rng.choice(accs), (a, c), kind="b")
        ps = [p1]
        if rng.random() < cost:
            k, q, cc = rng.choice(["@", "@@"]), abs(amount(rng)), rng.choice(coms)
            p1.cost = (k, q, cc)
            v = q * a if k == "@" else (-q if a < 0 else q)
            c = cc
        else:
            v = a
        if rng.random() > off:
            ps.append(P(rng.choice(accs), (-v, c), kind="b"))
        elif rng.random() < 0.5:
            ps.append(P(rng.choice(accs), (-v + Q(1, 1000), c), kind="b"))
        for p in ps:
            posts.insert(rng.randint(0, len(posts)), p)
    for p in posts:
        if p.amount is not None and p.cost is not None and p.amount[1] == "":
            p.cost = None
    return posts


def repeat_key(rng, probe, items, o, cmd, judge, what):
    text = O.render(items, rng)
    k = expect(probe, items, text, cmd, o, judge, what)
    return (k, text)


def small_journal(rng, n=None, dates=None, **kw):
    n = n or rng.choice([1, 1, 2, 3])
    accs = rng.sample(ACCS, rng.choice([2, 3, 5]))
    coms = rng.sample(COMS, rng.choice([1, 2, 3]))
    return [mk(rng, txn_posts(rng, accs, coms, **kw), dates=dates) for _ in range(n)]


# C02 ---------------------------------------------------------------
def c02(rng, probe):
    items = small_journal(rng, off=0.35, elide=0.2, cost=0.3, virtual=0.3)
    o = Opts(nobal=rng.random() < 0.15)
    cmd = rng.choice(["reg", "reg", "bal", "check", "prices", "accounts"])
    if cmd == "check":
        o.nobal = False
    jd = {"reg": O.check_reg, "bal": O.check_bal}.get(cmd, lambda *a: None)
    if cmd == "check":
        jd = lambda out, led, o: None if out.rstrip().endswith("OK") else "no OK"
    return repeat_key(rng, probe, items, o, cmd, jd, "double entry")


# C03 ---------------------------------------------------------------
def with_tags(rng, items, p=0.3):
    for t in items:
        if isinstance(t, T):
            if rng.random() < p:
                t.comments.append(rng.choice([":food:", "trip: rome", ":a:b:", "plain text", "Kind: gift"]))
            for q in t.postings:
                if rng.random() < p:
                    c = rng.choice([":lunch:", "who: me", ":x:y:", "nothing here", "Kind: own"])
                    if q.amount is not None and rng.random() < 0.5:
                        q.inline = c
                    else:
                        q.comments.append(c)
    return items


TAGQ = ["%food", "%trip", "%a", "%lunch", "%who", "%x", "%Kind", "%KIND"]


def c03(rng, probe):
    items = with_tags(rng, small_journal(rng, elide=0.85, off=0.05, cost=0.3))
    k = rng.random()
    if k < 0.5:
        o = Opts(nobal=rng.random() < 0.1)
        return repeat_key(rng, probe, items, o, "reg", O.check_reg, "elided amount")
    if k < 0.75:
        return repeat_key(rng, probe, items, Opts(flat=True), "bal", O.check_bal, "elided amount")
    o = Opts(query=[rng.choice(TAGQ + ["@shop", "@some", "@alit"])])
    return repeat_key(rng, probe, items, o, "reg", O.check_reg, "tags and payee of an elided posting")


# C04 ---------------------------------------------------------------
def c04(rng, probe):
    accs = rng.sample(ACCS, rng.choice([2, 3]))
    coms = rng.sample(COMS, rng.choice([1, 1, 2]))
    ts = [mk(rng, txn_posts(rng, accs, coms, off=0.0, cost=0.1, virtual=0.1), dates=["2020-01-01", "2020-01-02", "2020-02-01", "2019-05-05"])
          for _ in range(rng.choice([1, 2, 3, 4, 5]))]
    # true running balances in date order, to make most assertions hold
    try:
        led = O.Ledger(ts, True)
    except (O.Reject, O.Undefined):
        return (None, "")
    order = sorted(range(len(ts)), key=lambda i: ts[i].date)
    run = {}
    nth = rng.random()
    for n, i in enumerate(order):
        t = ts[i]
        lt = led.txns[n]
        fills = list(lt.fill)
        for p in t.postings:
            if p.kind != "r":
                continue
            if p.amount is None:
                continue
            run[p.account] = O.badd(run.get(p.account, {}), {p.amount[1]: p.amount[0]})
            if rng.random() < 0.5:
                c = rng.choice(coms + [p.amount[1]])
                v = run[p.account].get(c, Q(0))
                if rng.random() < 0.2:
                    v += Q(rng.choice([1, -1]), 10 ** rng.choice([0, 2, 3, 8]))
                p.assertion = (v, c)
                if rng.random() < 0.25 and p.cost is None:
                    p.amount = None        # the assertion sets the amount
        for f in fills:
            run[f.account] = O.badd(run.get(f.account, {}), f.bal())
    o = Opts(nobal=rng.random() < 0.25)
    cmd = rng.choice(["reg", "reg", "bal", "check"])
    if cmd == "check":
        o.nobal = False
    jd = {"reg": O.check_reg, "bal": O.check_bal}.get(cmd, lambda *a: None)
    return repeat_key(rng, probe, ts, o, cmd, jd, "balance assertion")


# C05 ---------------------------------------------------------------
def judge_prices(out, led, o):
    want = []
    for d, c, q, cur, implied in led.prices:
        ok = ["%s %s %s" % (d, c, O.show(q, cur))]
        if implied:
            ok.append("%s %s %s" % (d, cur, O.show(1 / q, c)))
        want.append(ok)
    got = out.split("\n")[:-1]
    for i, w in enumerate(want):
        if i >= len(got) or got[i] not in w:
            return "price %d: expected %s, printed %s" % (i + 1, " or ".join(w), got[i] if i < len(got) else "nothing")
    if len(got) > len(want):
        return "unexpected price %r" % got[len(want)]
    return None


def c05(rng, probe):
    items = small_journal(rng, off=0.1, cost=0.5, elide=0.2, virtual=0.3)
    for _ in range(rng.choice([0, 1, 3])):
        a, b = rng.sample(COMS, 2)
        items.insert(rng.randint(0, len(items)), Price(date(rng), a, abs(amount(rng, zero=0)), b))
    if rng.random() < 0.5:
        # two commodities exchanged without a price
        a, b = rng.sample(COMS, 2)
        s = rng.choice([1, -1])
        qs = [P(rng.choice(ACCS), (s * abs(amount(rng, zero=0)), a)), P(rng.choice(ACCS), (-s * abs(amount(rng, zero=0)), b))]
        rng.shuffle(qs)
        items.insert(rng.randint(0, len(items)), mk(rng, qs))
    if rng.random() < 0.25:
        items.insert(0, Auto([rng.choice(["A", "Assets", "zzz"])], [P("Auto:x", (amount(rng), rng.choice(COMS + [""])), kind="v")]))
    return repeat_key(rng, probe, items, Opts(), "prices", judge_prices, "recorded prices")


# C06 ---------------------------------------------------------------
def rates(target, day, prices):
    """{commodity: set of acceptable rates}; ambiguous choices give several"""
    import datetime
    D = lambda s: datetime.date.fromisoformat(s).toordinal()
    best = {}
    for d, c, q, cur in prices:
        if d > day:
            continue
        k = tuple(sorted((c, cur)))
        if k not in best or best[k][0] < d:
            best[k] = (d, [(c, q, cur)])
        elif best[k][0] == d:
            best[k][1].append((c, q, cur))
    nodes = {(target, D(day))}
    pe = []
    for (a, b), (d, ps) in best.items():
        nodes |= {(a, D(d)), (b, D(d))}
        if a == b:
            continue
        r = set()
        for c, q, cur in ps:
            r.add(q if c == a else 1 / q)     # value of one a in b
        pe.append(((a, D(d)), (b, D(d)), r))
    adj = {n: [] for n in nodes}
    for n in nodes:
        for m in nodes:
            if n != m and n[0] == m[0]:
                adj[n].append((m, abs(n[1] - m[1]), {Q(1)}))
    for a, b, r in pe:
        adj[a].append((b, 0, {1 / x for x in r}))     # walking away from the target: value of one b in a
        adj[b].append((a, 0, set(r)))
    src = (target, D(day))
    dist = {src: 0}
    todo = set(nodes)
    while True:
        c = [n for n in todo if n in dist]
        if not c:
            break
        v = min(c, key=lambda n: dist[n])
        todo.discard(v)
        for u, w, _ in adj[v]:
            if dist[v] + w < dist.get(u, 1 << 60):
                dist[u] = dist[v] + w
    res = {}
    last = {}
    for n in dist:
        last[n[0]] = max(last.get(n[0], 0), n[1])

    def walk(n, seen, mul, acc):
        if n == src:
            acc |= mul
            return
        for u, w, r in adj[n]:
            if u not in seen and u in dist and dist[u] + w == dist[n]:
                # n -> u towards the source: value of one n in u
                walk(u, seen | {u}, {m * x for m in mul for x in ({1 / y for y in inv(r, n, u)})}, acc)

    def inv(r, n, u):
        # r is the value of one u in n
        return r
    for c, d in last.items():
        acc = set()
        walk((c, d), {(c, d)}, {Q(1)}, acc)
        res[c] = acc
    return res


def price_list(rng, n, lo=2018, hi=2021, future=False):
    ps = []
    coms = rng.sample(COMS, rng.choice([2, 3, 4, 5]))
    ds = [date(rng, lo, hi) for _ in range(rng.choice([1, 2, 4]))]
    for _ in range(n):
        a, b = rng.sample(coms, 2)
        d = rng.choice(ds)
        if future and rng.random() < 0.25:
            d = "2199-01-01"
        ps.append((d, a, abs(amount(rng, zero=0)), b))
    return ps


def c06(rng, probe):
    if rng.random() < 0.6:
        ps = price_list(rng, rng.choice([1, 2, 3, 4, 6]))
        tgt = rng.choice(COMS)
        day = rng.choice([date(rng), "2022-01-01", ps[0][0]])
        q = ["%s %s %s %s" % (d, c, n, u) for d, c, n, u in ps]
        r = probe.ask("conv", tgt, day, *q)
        if r.rc == 90:
            return (None, "")
        want = rates(tgt, day, ps)
        call = "conversion(%s, %s, %s)" % (tgt, day, q)
        if r.rc != 0:
            raise Fail("conversion fails", call=call, actual=repr(r))
        got = {}
        for l in r.out.split("\n")[:-1]:
            c, x = l.split(" ")
            got[c] = Q(x)
        got.setdefault(tgt, Q(1))
        if set(got) != set(want):
            raise Fail("rates for %s, expected for %s" % (sorted(got), sorted(want)), call=call, actual=r.out)
        for c in want:
            if got[c] not in want[c]:
                raise Fail("rate of %s in %s is %s, expected %s" % (c, tgt, got[c], " or ".join(map(str, want[c]))), call=call, actual=r.out)
        return ("rates" if len(want) > 2 else "few", call)
    items = small_journal(rng, off=0, cost=0.2, virtual=0.1)
    for d, c, q, u in price_list(rng, rng.choice([1, 2, 3, 5]), future=True):
        items.insert(rng.randint(0, len(items)), Price(d, c, q, u))
    o = Opts(x=rng.choice(COMS), flat=rng.random() < 0.5)
    try:
        if any(p[2] == 0 for p in O.Ledger(items, o.nobal).prices):
            return (None, "")       # a price of zero has no inverse
    except (O.Reject, O.Undefined):
        pass

    def judge(out, led, o):
        if led.coms.get(o.x) is None:
            return O.check_bal(out, led, o)
        if any(p[4] for p in led.prices) or any(p[2] == 0 for p in led.prices):
            return None     # the direction of an implied price may differ
        rt = rates(led.coms.get(o.x), "2100-01-01", [p[:4] for p in led.prices])
        if any(len(v) > 1 for v in rt.values()):
            return None
        rt = {c: list(v)[0] for c, v in rt.items()}

        def conv(b):
            r = {}
            for c, q in b.items():
                r = O.badd(r, {o.x: q * rt[c]} if c in rt else {c: q})
            return r
        return O.check_bal(out, led, o, conv)
    return repeat_key(rng, probe, items, o, "bal", judge, "conversion")


# C07 ---------------------------------------------------------------
QWORDS = ["A", "assets", "Bank", "food", "^A$", "/Assets/", "/^A/", "income", "Ünï", "@shop", "@alitalia", "@x", "%food", "%trip", "%Kind",
          "exp", "b.nk", "cash|card", "/food/", "@coffee|salary"]


def rand_query(rng, ex=None):
    n = rng.choice([1, 1, 1, 2, 2, 3, 4])
    q = []
    for i in range(n):
        if i:
            j = rng.choice(["", "", "and", "or", "and"])
            if j:
                q.append(j)
        if ex and rng.random() < 0.3:
            e = ex(rng)
            s = O.etext(e, rng)
            O.EXPRS[s] = e
            q += ["expr", s]
        else:
            q.append(rng.choice(QWORDS))
    return q


def bool_expr(rng, d=2):
    r = rng.random()
    if d > 0 and r < 0.35:
        return (rng.choice(["and", "or"]), bool_expr(rng, d - 1), bool_expr(rng, d - 1))
    if d > 0 and r < 0.42:
        return ("not", bool_expr(rng, d - 1))
    if d > 0 and r < 0.5:
        return ("any", bool_expr(rng, d - 1))
    k = rng.choice(["acc", "acc", "payee", "date", "amt", "amt", "tag", "hastag", "note"])
    if k == "acc":
        return ("=~", ("account",), ("re", rng.choice(["Bank", "A", "^A", "Food", "Income"])))
    if k == "payee":
        return ("=~", ("payee",), ("re", rng.choice(["Shop", "o", "Ali", "x"])))
    if k == "note":
        return ("=~", ("note",), ("re", rng.choice(["food", "trip", "plain"])))
    if k == "date":
        return (rng.choice(["<", ">", "<=", ">="]), ("date",), ("to_date", ("str", rng.choice(["2019-06-15", "2020-01-01", "2020-02-01"]))))
    if k == "hastag":
        return ("has_tag", ("re", rng.choice(["food", "a", "Kind", "who"])))
    if k == "tag":
        return ("=~", ("tag", rng.choice([("re", "Kind"), ("str", "who"), ("str", "trip")])), ("re", rng.choice(["gift", "own", "m", "rome"])))
    op = rng.choice(["<", ">", "<=", ">=", "=="])
    return (op, num_like(rng), ("num", Q(rng.choice([0, 5, 10, -3, 100]))))


def num_like(rng):
    return rng.choice([("amount",), ("abs", ("amount",)), ("neg", ("amount",)), ("*", ("amount",), ("num", Q(2)))])


def has_zero(led):
    return any(p.amount is not None and p.amount[1] is None for t in led.txns for p in t.posts)


def c07(rng, probe):
    items = with_tags(rng, small_journal(rng, n=rng.choice([2, 3, 4]), off=0.0, virtual=0.4, cost=0.1, fancy=False,
                                         dates=["2019-12-31", "2020-01-01", "2020-01-02", "2020-02-01"]))
    o = Opts(real=rng.random() < 0.3)
    if rng.random() < 0.5:
        o.begin = rng.choice(["2020-01-01", "2020-01-02", "2020-02-01", "2020-02-02", "2019-01-01"])
    if rng.random() < 0.5:
        o.end = rng.choice(["2020-01-01", "2020-01-02", "2020-02-01", "2020-02-02", "2019-12-31"])
    if rng.random() < 0.7:
        o.query = rand_query(rng, bool_expr)
    cmd = rng.choice(["reg", "reg", "bal"])
    return repeat_key(rng, probe, items, o, cmd, O.check_reg if cmd == "reg" else O.check_bal, "selection")


# C08 ---------------------------------------------------------------
def num_expr(rng, d):
    r = rng.random()
    if d <= 0 or r < 0.25:
        return ("num", amount(rng, zero=0.1))
    if r < 0.35:
        return ("neg", num_expr(rng, d - 1))
    if r < 0.42:
        return ("abs", num_expr(rng, d - 1))
    return (rng.choice(["+", "-", "*", "/", "-", "/"]), num_expr(rng, d - 1), num_expr(rng, d - 1))


def money_expr(rng, d, cur):
    r = rng.random()
    if d <= 0 or r < 0.3:
        return rng.choice([("amount",), ("money", amount(rng), cur)])
    if r < 0.38:
        return ("neg", money_expr(rng, d - 1, cur))
    if r < 0.45:
        return ("abs", money_expr(rng, d - 1, cur))
    if r < 0.6:
        return (rng.choice(["*", "/"]), money_expr(rng, d - 1, cur), num_expr(rng, d - 2))
    if r < 0.7:
        return ("*", num_expr(rng, d - 2), money_expr(rng, d - 1, cur))
    c2 = cur if rng.random() < 0.97 else rng.choice(COMS)
    return (rng.choice(["+", "-"]), money_expr(rng, d - 1, cur), money_expr(rng, d - 1, c2))


def cmp_expr(rng, d, cur):
    r = rng.random()
    if d > 0 and r < 0.3:
        return (rng.choice(["and", "or"]), cmp_expr(rng, d - 1, cur), cmp_expr(rng, d - 1, cur))
    if d > 0 and r < 0.38:
        return (rng.choice(["not", "neg"]), cmp_expr(rng, d - 1, cur))
    if d > 0 and r < 0.45:
        return ("any", cmp_expr(rng, d - 1, cur))
    k = rng.random()
    if k < 0.3:
        a, b = num_expr(rng, 1), num_expr(rng, 1)
    elif k < 0.6:
        a, b = money_expr(rng, 1, cur), money_expr(rng, 1, cur)
    elif k < 0.75:
        a, b = money_expr(rng, 1, cur), num_expr(rng, 1)
    else:
        return bool_expr(rng, 0)
    if rng.random() < 0.2:
        b = a
    return (rng.choice(["<", ">", "<=", ">=", "=="]), a, b)


def c08(rng, probe):
    acc, cur, pay, day = rng.choice(ACCS), rng.choice(["EUR", "USD", "AAPL"]), rng.choice(["Shop", "Alitalia", "x"]), rng.choice(["2019-06-15", "2020-01-01", "2020-05-05"])
    amt = amount(rng)
    tags = rng.sample([("food", None), ("Kind", "gift"), ("who", "me"), ("a", None), ("Kind", "own")], rng.choice([0, 1, 2]))
    d = rng.choice([1, 2, 3, 4])
    k = rng.random()
    e = num_expr(rng, d) if k < 0.25 else money_expr(rng, d, cur) if k < 0.5 else cmp_expr(rng, d, cur)
    if rng.random() < 0.05:
        e = rng.choice([("tag", ("re", "Kind")), ("tag", ("str", "who")), ("has_tag", ("re", "^f"))])
    text = "(" + O.etext(e, rng) + ")"
    t, p = O.Txn(), O.Post(acc, (amt, cur), "r", pay, tags)
    t.date, t.posts, t.comments = day, [p], []
    try:
        v = O.evaluate(e, None, t, p)
        want = {"num": lambda: "num %s" % v[1], "money": lambda: "money " + ("zero" if v[2] is None else "%s=%s" % (v[2], v[1])),
                "bool": lambda: "bool %s" % str(v[1]).lower(), "str": lambda: "str " + ("None" if v[1] is None else 'Some("%s")' % v[1]),
                "date": lambda: "date " + v[1]}[v[0]]()
    except O.Panic:
        want = None
    except O.Undefined:
        return (None, "")
    r = probe.ask("expr", text, acc, cur, str(amt), pay, day, *["\t".join(x for x in g if x is not None) for g in tags])
    if r.rc == 90:
        return (None, "")
    call = "value expression %s on a posting of %s %s to %s (payee %s, date %s, tags %s)" % (text, amt, cur, acc, pay, day, tags)
    if want is None:
        if r.rc == 0:
            raise Fail("an expression without a meaning gives %s" % r.out.strip(), call=call, actual=repr(r))
    elif r.rc != 0 or r.out.strip() != want:
        raise Fail("expected %s, got %s" % (want, r.out.strip() if r.rc == 0 else "rc %s" % r.rc), call=call, actual=repr(r))
    return ("value" if want else "no value", text)


# C09 ---------------------------------------------------------------
def c09(rng, probe):
    q = rand_query(rng)
    for i in range(len(q)):
        if rng.random() < 0.15:
            q[i] = rng.choice([" %s", "%s ", "\t%s "]) % q[i]
    if rng.random() < 0.2:
        q.insert(rng.randint(0, len(q)), rng.choice(["", " ", "or", "and"]))
    if rng.random() < 0.15:
        q.insert(rng.randint(0, len(q)), "expr")
    if rng.random() < 0.5:
        # as the tool documents it: one parenthesis per term, joined by and/or
        r = probe.ask("query", *q)
        if r.rc == 90:
            return (None, "")
        want = ""
        for i, (j, k, x) in enumerate(O.terms(q)):
            want += ("" if i == 0 else " %s " % j) + "(" + {"expr": "%s", "account": "account =~ /%s/", "payee": "payee =~ /%s/", "tag": "has_tag(/%s/)"}[k] % x + ")"
        want = "(" + want + ")"
        if r.rc != 0 or r.out != want + "\n":
            raise Fail("query %s expands to %r, expected %r" % (q, r.out, want), call="preprocess_query(%r)" % q, actual=repr(r))
        return ("expansion", repr(q))
    items = with_tags(rng, small_journal(rng, n=rng.choice([2, 3]), off=0.0, virtual=0.2, cost=0.1, fancy=False))
    ex = [x for _, k, x in O.terms(q) if k == "expr"]
    if any(x not in O.EXPRS for x in ex):
        return (None, "")
    return repeat_key(rng, probe, items, Opts(query=q), "reg", O.check_reg, "query terms")


# C10 ---------------------------------------------------------------
def c10(rng, probe):
    items = small_journal(rng, n=rng.choice([1, 2, 3, 5]), off=0.0, virtual=0.3, cost=0.2)
    if rng.random() < 0.4:
        # balances that cancel
        for t in list(items):
            if rng.random() < 0.4:
                items.append(mk(rng, [P(p.account, None if p.amount is None else (-p.amount[0], p.amount[1]), None if p.cost is None else p.cost, None, p.kind) for p in t.postings]))
    o = Opts(flat=rng.random() < 0.4, no_total=rng.random() < 0.2, depth=rng.choice([None, None, 1, 2, 3]), real=rng.random() < 0.15)
    if rng.random() < 0.25:
        o.query = rand_query(rng)
    return repeat_key(rng, probe, items, o, "bal", O.check_bal, "balance report")


# C11 ---------------------------------------------------------------
def c11(rng, probe):
    items = small_journal(rng, n=rng.choice([2, 3, 5]), off=0.0, virtual=0.3, cost=0.2)
    o = Opts(real=rng.random() < 0.15)
    if rng.random() < 0.4:
        o.query = rand_query(rng)
    if rng.random() < 0.2:
        o.begin = date(rng)
    return repeat_key(rng, probe, items, o, "reg", O.check_reg, "running total")


# C12 ---------------------------------------------------------------
def c12(rng, probe):
    k = rng.random()
    if k < 0.3:
        q = Q(rng.randint(-3000, 3000), 1000)
    elif k < 0.5:
        q = Q(rng.choice([1, -1]) * (rng.randint(0, 500) * 10 + 5), 1000)      # exact halves
    elif k < 0.6:
        q = Q(rng.choice([99, 995, 9995, 99995, 999995, 9994999, 999949999]) * rng.choice([1, -1]), rng.choice([100, 1000, 10000, 100000, 10 ** 6]))
    elif k < 0.8:
        q = amount(rng, big=True)
    else:
        q = Q(rng.randint(-10 ** 9, 10 ** 9), rng.randint(1, 10 ** 6))
    cur = rng.choice(COMS)
    r = probe.ask("calc", "m %s %s" % (cur, q), "show")
    if r.rc == 90:
        try:
            txt = O.num(q)
        except O.Undefined:
            return (None, "")
        items = [T("2020-01-01", "x", [P("A", (q, cur), kind="v")])]
        return repeat_key(rng, probe, items, Opts(), "reg", O.check_reg, "display")
    want = O.show(q, cur)
    got = r.out.split("\n")[0]
    if r.rc != 0 or got != want:
        raise Fail("%s %s is shown as %r, expected %r" % (q, cur, got, want), call="format!(\"{}\", %s %s)" % (q, cur), actual=repr(r))
    return ("half" if (q * 1000).denominator == 1 and (q * 1000).numerator % 10 == 5 else "other", str(q) + cur)


# C13 / C15 ----------------------------------------------------------
def dbg(s):
    # Rust's {:?} of the texts used here
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t") + '"'


def parse_dump(items):
    out = []
    n = dict(prices=0, accounts=0, payees=0, commodities=0)
    com = []
    for it in items:
        if isinstance(it, T):
            out.append("T Real %s %s desc=%s payee=+%s comments=[%s]" % (
                it.date, it.edate or "-", dbg(it.desc), dbg(O.payee_of(it)), ", ".join(map(dbg, it.comments))))
            for p in it.postings:
                f = lambda x: ("-", "-") if x is None else (str(Q(x[0])), "+" + dbg(x[1]))
                a, b = f(p.amount), f(p.assertion)
                c = ("-", "-", "-") if p.cost is None else (str(Q(p.cost[1])), "+" + dbg(p.cost[2]), {"@": "PerUnit", "@@": "Total"}[p.cost[0]])
                cs = ([p.inline] if p.inline is not None else []) + p.comments
                out.append("P %s %s amt=%s %s cost=%s %s %s bal=%s %s expr=- payee=+%s comments=[%s]" % (
                    {"r": "Real", "v": "Virtual", "b": "VirtualMustBalance"}[p.kind], dbg(p.account), a[0], a[1], c[0], c[1], c[2], b[0], b[1],
                    dbg(O.payee_of(it)), ", ".join(map(dbg, cs))))
        elif isinstance(it, Note):
            com.append("C " + dbg(it.text))
        elif isinstance(it, Price):
            n["prices"] += 1
        elif isinstance(it, Acc):
            n["accounts"] += 1
        elif isinstance(it, Pay):
            n["payees"] += 1
        elif isinstance(it, Com):
            n["commodities"] += 1
    return "\n".join(out + com + ["N prices=%(prices)d accounts=%(accounts)d payees=%(payees)d commodities=%(commodities)d" % n]) + "\n"


def parse_case(rng, probe, items, text, what):
    r = probe.ask("parse", text)
    if r.rc == 90:
        try:
            O.Ledger(items)
        except (O.Reject, O.Undefined):
            return (None, "")
        k = expect(probe, items, text, "reg", Opts(nobal=True), O.check_reg, what)
        return (k, text)
    want = parse_dump(items)
    if r.rc != 0 or r.out != want:
        raise Fail("%s: not what the journal says" % what, journal=text, expected=want, actual=repr(r))
    return ("parsed", text)


def wild_amount(rng):
    k = rng.random()
    if k < 0.2:
        return Q(rng.randint(-10 ** 40, 10 ** 40), 10 ** rng.randint(0, 30))
    if k < 0.4:
        return Q(rng.randint(-999, 999), 10 ** rng.randint(0, 25))
    return amount(rng, big=True)


def c13(rng, probe):
    ps = []
    for _ in range(rng.choice([1, 2, 3])):
        c = lambda: rng.choice(COMS + ["M&M", "Acme Inc", "été", "MSFT2"])
        p = P(rng.choice(ACCS), (wild_amount(rng), c()))
        if rng.random() < 0.3:
            p.cost = (rng.choice(["@", "@@"]), wild_amount(rng), c())
        if rng.random() < 0.3:
            p.assertion = (wild_amount(rng), c())
        if rng.random() < 0.2 and p.cost is None and p.assertion is None:
            p.amount = (p.amount[0], "")
        ps.append(p)
    items = [mk(rng, ps)]
    return parse_case(rng, probe, items, O.render(items, rng), "amounts")


NAMES = ACCS + ["Ñ", "Éa:b c d", "a b:c d", "1", "x;y", "Expenses:50% off", "a'b", "Assets:*x"]
CMTS = ["note", "a: b", ":t:", "with ; semicolon", "trailing @ 5 EUR", "= 4", "ünï"]


def c15(rng, probe):
    ts = []
    for _ in range(rng.choice([1, 2])):
        ps = []
        for _ in range(rng.choice([1, 2, 4])):
            n = rng.choice([x for x in NAMES if not x[0].isdigit()])
            p = P(n, None, kind=rng.choice(["r", "r", "r", "v", "b"]))
            if rng.random() < 0.7:
                p.amount = (amount(rng), rng.choice(COMS + [""]))
                if p.amount[1]:
                    if rng.random() < 0.3:
                        p.cost = (rng.choice(["@", "@@"]), amount(rng), rng.choice(COMS))
                    if rng.random() < 0.3:
                        p.assertion = (amount(rng), rng.choice(COMS))
            elif rng.random() < 0.3:
                p.assertion = (amount(rng), rng.choice(COMS))
            if rng.random() < 0.3:
                p.inline = rng.choice(CMTS)
            for _ in range(rng.choice([0, 0, 0, 1, 2])):
                p.comments.append(rng.choice(CMTS))
            ps.append(p)
        ts.append(mk(rng, ps, comments=[rng.choice(CMTS) for _ in range(rng.choice([0, 0, 1]))]))
    text = O.render(ts, rng)
    if rng.random() < 0.3:
        text = text.rstrip("\n")
    return parse_case(rng, probe, ts, text, "postings")


# C14 ---------------------------------------------------------------
def c14(rng, probe):
    if rng.random() < 0.35:
        # through the tool: names, aliases, letter case
        accs = rng.sample(["Assets:Cash", "Expenses:Food", "Income:Job"], 2)
        items = [Acc(accs[0], ["cash", "Wallet"]), Com("EUR", ["€", "euro"])]
        v = lambda s: rng.choice([s, s.upper(), s.lower(), s.title()])
        for _ in range(rng.choice([1, 2, 3])):
            a = amount(rng, zero=0)
            items.append(mk(rng, [P(v(rng.choice([accs[0], "cash", "Wallet"])), (a, v(rng.choice(["EUR", "€", "euro"])))),
                                  P(accs[1], (-a, rng.choice(["EUR", "€", "euro", "EURO"])))]))
        cmd = rng.choice(["bal", "reg", "accounts", "commodities"])
        jd = {"bal": O.check_bal, "reg": O.check_reg, "accounts": judge_names("accounts"), "commodities": judge_names("coms")}[cmd]
        return repeat_key(rng, probe, items, Opts(), cmd, jd, "names")
    L = O.Names()
    ops, want = [], []
    pool = ["Alpha", "alpha", "BETA", "Beta", "gamma", "Delta:x", "delta:X", "Ünï", "ünÏ", "e1", "E1"]
    al = ["a1", "A1", "b2", "B2", "zz", "Alpha", "gamma"]
    cache = {}
    for _ in range(rng.choice([3, 6, 12])):
        k = rng.choice(["ins", "ins", "get", "get", "get", "re", "alias", "app"])
        if k == "ins":
            n, a = rng.choice(pool), rng.sample(al, rng.choice([0, 0, 1, 2]))
            if any(x.lower() in L.al and L.al[x.lower()] != n.lower() for x in a):
                continue
            ops.append("\t".join(["ins", n] + a))
            want.append("ok")
            L.insert(n, a)
        elif k == "alias":
            if not L.names:
                continue
            n, a = rng.choice(list(L.names.values())), rng.choice(al)
            ops.append("\t".join(["alias", a, n]))
            if a.lower() in L.al:
                want.append("PANIC")
                break
            want.append("ok")
            L.al[a.lower()] = n.lower()
        elif k == "get":
            x = rng.choice(pool + al + ["nothing"])
            ops.append("get\t" + x)
            g = L.get(x)
            want.append("none" if g is None else "= " + g)
        elif k == "app":
            ns = rng.sample(pool, rng.choice([1, 2]))
            if len({n.lower() for n in ns}) < len(ns) or any(n.lower() in L.names for n in ns):
                continue
            ops.append("\t".join(["app"] + ns))
            want.append("ok")
            for n in ns:
                L.insert(n)
        else:
            x = rng.choice(["(?i)alp", "^BETA$", "gam|delt", "zz", "1$", "nope"])
            names = [n for n in L.names.values() if re.search(x, n)]
            als = {L.names[L.al[a]] for a in L.al if re.search(x, a)}
            ops.append("re\t" + x)
            want.append(("any", set(names) if names else als))
    r = probe.ask("list", *ops)
    if r.rc == 90:
        return (None, "")
    got = r.out.split("\n")
    call = "List<Account>: " + "; ".join(o.replace("\t", " ") for o in ops)
    for i, w in enumerate(want):
        g = got[i] if i < len(got) else None
        if w == "PANIC":
            if r.rc != 101:
                raise Fail("a repeated alias is accepted", call=call, actual=repr(r))
            return ("list", call)
        if isinstance(w, tuple):
            ok = g == "none" if not w[1] else g in {"= " + n for n in w[1]}
            w = "one of %s" % sorted(w[1])
        else:
            ok = g == w
        if not ok:
            raise Fail("step %d (%s): expected %s, got %s" % (i + 1, ops[i].replace("\t", " "), w, g), call=call, actual=repr(r))
    if r.rc != 0 or got[len(want)] != "names " + "\t".join(sorted(L.names.values(), key=lambda s: s.encode())):
        raise Fail("the list contains %s" % (got[len(want)] if len(got) > len(want) else r.rc), call=call, actual=repr(r))
    return ("list", call)


# C16 ---------------------------------------------------------------
def c16(rng, probe):
    accs = rng.sample(ACCS, 4)
    items = with_tags(rng, [mk(rng, txn_posts(rng, accs, rng.sample(COMS, 2), off=0.0, virtual=0.15, cost=0.1, fancy=False))
                            for _ in range(rng.choice([1, 2, 3]))])
    for _ in range(rng.choice([1, 1, 2])):
        q = rand_query(rng) if rng.random() < 0.6 else [rng.choice(accs)[:3]]
        if rng.random() < 0.25:
            e = bool_expr(rng, 1)
            s = O.etext(e)
            if " " in s:
                # an expression is one term only between quotes
                O.EXPRS[s] = e
                q = ["expr", '"%s"' % s]
            else:
                O.EXPRS[s] = e
                q = ["expr", s]
        ps = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.random()
            if k < 0.45:
                a = (amount(rng), "")
                ps.append(P(rng.choice(accs + ["Budget:x", "Tax"]), a, kind="v" if rng.random() < 0.6 else "r"))
                if rng.random() < 0.6:
                    ps.append(P(rng.choice(["Budget:y", "Tax"]), (-a[0], ""), kind=ps[-1].kind))
            elif k < 0.75:
                a = (amount(rng), rng.choice(COMS))
                ps.append(P(rng.choice(accs + ["Budget:x"]), a, kind=rng.choice(["v", "r", "b"])))
                if rng.random() < 0.7:
                    ps.append(P("Budget:y", (-a[0], a[1]), kind=ps[-1].kind))
            else:
                e = rng.choice([("*", ("amount",), ("num", amount(rng))), ("neg", ("amount",)), ("num", amount(rng)),
                                ("abs", ("amount",)), ("/", ("amount",), ("num", Q(4)))])
                p = P(rng.choice(accs + ["Budget:z"]), None, kind="v")
                p.expr = "(" + O.etext(e) + ")"
                p.expr_ast = e
                ps.append(p)
        cs = [rng.choice([":auto:", "Kind: auto", "plain"])] if rng.random() < 0.3 else []
        au = Auto(q, ps, cs)
        items.insert(rng.randint(0, len(items)), au)
    rq = [i.query for i in items if isinstance(i, Auto)]
    text = O.render(items, rng)
    for a in items:
        if isinstance(a, Auto):
            a.query = [w.strip('"') for w in a.query]
    cmd = rng.choice(["reg", "reg", "bal"])
    o = Opts()
    if rng.random() < 0.3:
        o.query = [rng.choice(["%auto", "%Kind", "Budget"] + accs)]
        if o.query[0] not in ("%auto", "%Kind"):
            o.query[0] = o.query[0][:4]
    if cmd == "reg":
        try:
            l = O.Ledger(items)
            if l.multi:
                cmd = "bal"
        except (O.Reject, O.Undefined):
            pass
    try:
        k = expect(probe, items, text, cmd, o, O.check_reg if cmd == "reg" else O.check_bal, "automated transactions")
    except O.Panic:
        return (None, "")
    return (k, text)


# C17 ---------------------------------------------------------------
def c17(rng, probe):
    w = lambda: rng.choice(["food", "trip to rome", "Kind", "a", "x1", "ünï", "b c", "-", "5"])
    k = rng.random()
    if k < 0.3:
        c = ":" + ":".join(w() for _ in range(rng.choice([1, 2, 3]))) + ":" + rng.choice(["", " ", "   "])
        if rng.random() < 0.3:
            c = rng.choice(["some text ", "x "]) + c
    elif k < 0.6:
        c = rng.choice(["", " ", "  "]) + w() + ":" + rng.choice(["", " ", "  "]) + rng.choice([w(), w() + " " + w(), ""])
    elif k < 0.8:
        c = "".join(rng.choice([":", " ", "a", "b", ":", "cd", "é"]) for _ in range(rng.randint(0, 8)))
    else:
        c = w() + " " + w()
    if rng.random() < 0.5:
        r = probe.ask("tags", c)
        if r.rc == 90:
            return (None, "")
        want = "".join("%s\t%s\n" % (n, "-" if v is None else "+" + v) for n, v in O.tags_of(c))
        if r.rc != 0 or r.out != want:
            raise Fail("comment %r has the tags %r, expected %r" % (c, r.out, want), call="Comment{%r}.get_tags()" % c, actual=repr(r))
        return ("tags" if want else "none", c)
    c = c.strip()
    items = small_journal(rng, n=2, off=0, fancy=False)
    t = rng.choice(items)
    if rng.random() < 0.4:
        t.comments.append(c)
    else:
        p = rng.choice(t.postings)
        p.comments.append(c)
    names = [n for n, _ in O.tags_of(c) if re.match(r"^[a-zA-Z0-9ünï]+$", n)] + ["food", "a"]
    n = rng.choice(names)
    vals = [v for m, v in O.tags_of(c) if m == n and v and re.match(r"^[\w ]+$", v)] or ["rome"]
    k = rng.random()
    if k < 0.5:
        q = ["%" + n]
    else:
        e = ("=~", ("tag", rng.choice([("re", n), ("str", n)])), ("re", "^" + rng.choice(vals).strip() + "$"))
        s = O.etext(e)
        O.EXPRS[s] = e
        q = ["expr", s]
    return repeat_key(rng, probe, items, Opts(query=q), "reg", O.check_reg, "tags")


# C18 ---------------------------------------------------------------
def block(rng):
    k = rng.random()
    if k < 0.45:
        return mk(rng, [P(rng.choice(ACCS), (amount(rng), rng.choice(COMS)), inline=rng.choice([None, None] + CMTS),
                          comments=[rng.choice(CMTS)] if rng.random() < 0.2 else []) for _ in range(rng.choice([0, 1, 2, 3]))],
                  comments=[rng.choice(CMTS)] if rng.random() < 0.2 else [])
    if k < 0.6:
        return Note(rng.choice(["a comment", "2020-01-01 not a transaction", "P x", "account y"]))
    if k < 0.7:
        return Price(date(rng), "AAPL", abs(amount(rng)), "USD")
    return None


def c18(rng, probe):
    items, dirs = [], []
    used = set()
    for i in range(rng.choice([1, 2, 4, 8])):
        b = block(rng)
        if b is None:
            k = rng.choice(["acc", "com", "pay", "tag"])
            n = "N%d" % i
            if k == "acc":
                b = Acc("Acc:" + n, ["al" + n] if rng.random() < 0.5 else [])
            elif k == "com":
                b = Com("com" + chr(97 + i), ["alias" + chr(97 + i)] if rng.random() < 0.5 else [])
            elif k == "pay":
                b = Pay("Pay " + n, ["alias" + n] if rng.random() < 0.3 else [])
            else:
                b = "tag Tag%s\n    %s\n" % (n, rng.choice(["check value > 1", "; a comment", "assert x"]))
        items.append(b)
    text = "".join(O.render([b], rng) + rng.choice(["", "\n", "\n\n", "   \n"]) for b in items)
    if rng.random() < 0.2:
        text = text.rstrip("\n")
    if rng.random() < 0.7:
        tags = []
        for b in items:
            if isinstance(b, str):
                n = b.split("\n")[0][4:]
                l = b.split("\n")[1].strip()
                tags.append("G %s [%s] [%s]\n" % (dbg(n), dbg(l[6:]) if l.startswith("check") else "", dbg(l[7:]) if l.startswith("assert") else ""))
        r = probe.ask("parse", text)
        if r.rc == 90:
            return (None, "")
        w = parse_dump(items)
        i = w.rindex("N prices")
        want = w[:i] + "".join(tags) + w[i:]
        if r.rc != 0 or r.out != want:
            raise Fail("reading the journal: every item once, in order", journal=text, expected=want, actual=repr(r))
        return ("items", text)
    # an error is reported at its line
    bad, off = rng.choice([("2020-01-01 x\n    A  5 EUR 6 EUR\n", 1), ("zzz\n", 0), ("2020-01-01 x\n    A  1 EUR\n    12 5 EUR\n", 2),
                           ("2020-01-01 x\n    (A  5 EUR\n", 1), ("    indented\n", 0), ("2020-01-01 x\n    A  @ 5 EUR\n", 1),
                           ("account x\n    nonsense y\n", 1), ("commodity x\n    nonsense y\n", 1), ("2020-01-01 x\n    A  1.2.3 EUR\n", 1),
                           ("2020-01-01 x\n    A  5 EUR\n    [B  5 EUR\n", 2), ("tag x\n    nonsense y\n", 1), ("payee x\n    nonsense y\n", 1),
                           ("2020-13-01 x\n    A  1 EUR\n    B\n", 0), ("2021-02-30 x\n    A  1 EUR\n    B\n", 0), ("2020-01/05 x\n", 0), ("P 2020-01-01 EUR\n", 0),
                           ("P 2021-02-29 EUR 2 USD\n", 0), ("asset x\n", 0), ("pay x\n", 0), ("try x\n", 0), ("commodit x\n", 0), ("inclusion x\n", 0),
                           ("2020-01-05=2020-02-31 x\n    A  1 EUR\n", 0), ("2020-01-01 x\n    A  5 EUR @", 1), ("2020-01-01 x\n    A  5 EUR @ x", 1), ("2020-01-01 x\n    A  5 EUR = x", 1)])
    if not bad.startswith(" "):
        pre = text if text.endswith("\n") or not text else text + "\n"
    else:
        pre = text if text.endswith("\n") or not text else text + "\n"
        pre += "; c\n"
    if rng.random() < 0.1:
        # an automated posting that is not an amount must not stop the reader
        j = pre + rng.choice(["= /qqqq/\n    (bar)  EUR", "= /qqqq/\n    (bar)  EUR\n", "= /qqqq/\n    (bar)  a b 3 c"])
        r = probe.run(j, "check")
        if r.rc not in (0, 1):
            raise Fail("reading the journal ends", journal=j, actual=repr(r))
        return ("automated", j)
    j = pre + bad + (rng.choice(["", "\n", "2020-01-01 y\n    A  1 EUR\n    B\n"]) if bad.endswith("\n") else "")
    r = probe.run(j, rng.choice(["bal", "check", "accounts", "prices"]))
    if r.rc != 1:
        raise Fail("a journal with an error in it: exit status %s, expected 1" % r.rc, journal=j, actual=repr(r))
    m = re.search(r'-->\s+".*":(\d+):(\d+)', r.err)
    line = pre.count("\n") + off + 1
    if not m or int(m.group(1)) != line:
        raise Fail("the error is reported at line %s, it is in line %d" % (m.group(1) if m else "none", line), journal=j, actual=repr(r))
    return ("error line", j)


# C19 ---------------------------------------------------------------
def judge_names(which):
    def judge(out, led, o):
        want = sorted(getattr(led, which).names.values(), key=lambda s: s.encode())
        got = out.split("\n")[:-1]
        return None if got == want else "printed %s, expected %s" % (got, want)
    return judge


def c19(rng, probe):
    items = small_journal(rng, n=rng.choice([1, 2, 4]), off=0.05, cost=0.3, virtual=0.3)
    for i in range(rng.choice([0, 0, 1, 2])):
        items.insert(rng.randint(0, len(items)), rng.choice([Acc("Unused:%d" % i, ["un%d" % i]), Com("XX" + "abc"[i]), Pay("Nobody %d" % i), Price(date(rng), "AAPL", Q(3), "YY" + "abc"[i]),
                                                             Pay("The Shop", ["^Shop$"]), Acc("Assets:Cash", ["wallet"])]))
    ns = [i.name for i in items if isinstance(i, (Pay, Acc))]
    if len(set(ns)) < len(ns):
        return (None, "")
    cmd, which = rng.choice([("accounts", "accounts"), ("commodities", "coms"), ("payees", "payees")])
    return repeat_key(rng, probe, items, Opts(), cmd, judge_names(which), cmd)


# C20 ---------------------------------------------------------------
def c20(rng, probe):
    ds = [date(rng) for _ in range(3)] + ["2020-01-01", "2020-01-01", "1999-12-31", "2030-06-01"]
    items = small_journal(rng, n=rng.choice([3, 4, 6]), off=0.05, dates=ds, fancy=False)
    o = Opts()
    cmd = rng.choice(["reg", "reg", "bal", "check", "prices", "accounts", "commodities", "payees"])
    jd = {"reg": O.check_reg, "bal": O.check_bal, "accounts": judge_names("accounts"), "commodities": judge_names("coms"),
          "payees": judge_names("payees"), "prices": judge_prices}.get(cmd, lambda *a: None)
    return repeat_key(rng, probe, items, o, cmd, jd, "order")


# C01 ---------------------------------------------------------------
def c01(rng, probe):
    if rng.random() < 0.1:
        return repeat_key(rng, probe, small_journal(rng, off=0.1), Opts(), "reg", O.check_reg, "arithmetic")
    st, ops, out = [], [], []
    cs = ["EUR", "USD", "$"]
    for _ in range(rng.choice([2, 4, 8, 12])):
        k = rng.choice(["m", "m", "m", "+", "-", "neg", "mul", "div", "b", "e", "iszero", "canzero", "eq", "tomoney", "abs", "len", "cmp", "sign"])
        if k == "m":
            if rng.random() < 0.1:
                ops.append("m 0")
                st.append(("M", None, Q(0)))
            else:
                q = rng.choice([amount(rng, big=True), Q(rng.randint(-9, 9), rng.randint(1, 9)), Q(rng.randint(-3, 3))])
                c = rng.choice(cs)
                ops.append("m %s %s" % (c, q))
                st.append(("M", c, q))
        elif k == "e":
            ops.append("e")
            st.append(("B", {}, True))
        elif k in "+-" and len(st) > 1:
            ops.append(k)
            r, l = st.pop(), st.pop()
            l, r = tob(l), tob(r)
            st.append(("B", O.badd(l, r if k == "+" else O.bneg(r)), True))
        elif not st:
            continue
        elif k == "b":
            ops.append("b")
            v = st.pop()
            st.append(v if v[0] == "B" else ("B", tob(v), v[2] != 0))
        elif k == "neg":
            ops.append("neg")
            v = st.pop()
            st.append(("M", v[1], -v[2]) if v[0] == "M" else ("B", O.bneg(v[1]), v[2]))
        elif k == "abs" and st[-1][0] == "M":
            ops.append("abs")
            v = st.pop()
            st.append(("M", v[1], abs(v[2])))
        elif k in ("mul", "div") and st[-1][0] == "M":
            q = Q(rng.randint(-9, 9), rng.randint(1, 9))
            if k == "div" and q == 0:
                continue
            ops.append("%s %s" % (k, q))
            v = st.pop()
            st.append(("M", v[1], v[2] * q if k == "mul" else v[2] / q))
        elif k == "iszero":
            ops.append(k)
            v = st[-1]
            out.append("iszero " + str((v[2] == 0) if v[0] == "M" else not v[1]).lower())
        elif k == "canzero":
            v = st[-1]
            if v[0] == "B" and not v[2] or v[0] == "M" and v[2] == 0:
                continue
            ops.append(k)
            v = st.pop()
            b = tob(v)
            out.append("canzero " + str(O.settled(b)).lower())
            st.append(("B", b, True))
        elif k == "tomoney":
            v = st[-1]
            if v[0] == "B" and not v[2] or v[0] == "M" and v[2] == 0:
                continue
            ops.append(k)
            b = tob(st.pop())
            if len(b) > 1:
                out.append("tomoney-error")
                st = []
                break
            st.append([("M", c, q) for c, q in b.items()][0] if b else ("M", None, Q(0)))
        elif k == "len" and st[-1][0] == "B" and st[-1][2]:
            ops.append("len")
            out.append("len %d" % len(st[-1][1]))
        elif k == "sign" and st[-1][0] == "M" and st[-1][1] is not None:
            ops.append(k)
            out.append("sign %s %s" % (str(st[-1][2] < 0).lower(), str(st[-1][2] > 0).lower()))
        elif k == "eq" and len(st) > 1 and st[-1][0] == st[-2][0]:
            r, l = st[-1], st[-2]
            if l[0] == "M":
                if l[2] == 0 and r[2] == 0 and l[1] and r[1] and l[1] != r[1]:
                    continue
                if l[2] == 0 and r[2] == 0:
                    w = "true"
                else:
                    w = str(l[1] == r[1] and l[2] == r[2]).lower()
                ops.append("eq")
                st.pop(), st.pop()
                out.append("eq " + w)
        elif k == "cmp" and len(st) > 1 and st[-1][0] == st[-2][0] == "M" and st[-1][1] == st[-2][1] and st[-1][1] is not None:
            r, l = st.pop(), st.pop()
            w = "Less" if l[2] < r[2] else "Greater" if l[2] > r[2] else "Equal"
            ops.append("cmp")
            out.append("cmp %s " % w)
    if not ops:
        return (None, "")
    r = probe.ask("calc", *ops)
    call = "calc: " + "; ".join(ops)
    if r.rc == 90:
        items = small_journal(rng, off=0.1)
        return repeat_key(rng, probe, items, Opts(), "reg", O.check_reg, "arithmetic")
    got = r.out.split("\n")[:-1]
    for v in st:
        if v[0] == "M":
            out.append("M " + ("zero" if v[1] is None else "%s=%s" % (v[1], v[2])))
        else:
            out.append(("B", v[1]))
    bad = r.rc != 0 or len(got) != len(out)
    if not bad:
        for g, w in zip(got, out):
            if isinstance(w, tuple):
                es = [x for x in g[3:-1].split(" ") if x and x != "zero"]
                d = {}
                for x in es:
                    c, q = x.split("=")
                    if c in d:
                        bad = True
                    if Q(q) != 0:
                        d[c] = Q(q)
                bad |= d != w[1]
            elif w.startswith("cmp"):
                bad |= not g.startswith(w)
            elif w.startswith("M ") and w.endswith("=0"):
                bad |= g not in (w, "M zero")
            else:
                bad |= g != w
    if bad:
        raise Fail("expected %s" % [w if isinstance(w, str) else "B " + O.fmtb(w[1]) for w in out], call=call, actual=repr(r))
    return ("calc", call)


def tob(v):
    if v[0] == "B":
        return v[1]
    return {} if v[1] is None or v[2] == 0 else {v[1]: v[2]}


CASES = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12,
             C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20)
