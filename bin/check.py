#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's working tree.  Exit 0 held, 1 VIOLATION."""
import collections, hashlib, json, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
EXTRACT = os.path.join(ROOT, "extract")
HARNESS = os.path.join(ROOT, "harness")
from vlib.props import PROPS, TRUSTED, ASSUMPTIONS  # noqa

RUSTENV = dict(os.environ, RUSTUP_TOOLCHAIN="1.88.0", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")


class Err(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "build.rs"):
        p = os.path.join(REPO, base)
        fs = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, ff in os.walk(p) for f in ff)
        for f in fs:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read() + b"\0")
    return h.hexdigest()


# ------------------------------------------------------------------ building
def build_extract():
    r = subprocess.run(["cargo", "build", "--release", "--offline", "-q"], cwd=EXTRACT, capture_output=True, text=True)
    exe = os.path.join(EXTRACT, "target/release/vextract")
    if r.returncode or not os.path.exists(exe):
        raise Err("the translator does not build:\n" + r.stderr[-3000:])
    return exe


def build_probe():
    """(path, has_api)"""
    tgt = os.path.join(BUILD, "t")
    os.makedirs(tgt, exist_ok=True)
    stamp = os.path.join(BUILD, "tree")
    h = tree_hash()
    env = dict(RUSTENV, CARGO_TARGET_DIR=tgt)
    lock_added = not os.path.exists(os.path.join(REPO, "Cargo.lock"))
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != h and os.path.exists(os.path.join(tgt, "debug")):
        # never trust file times
        subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "dinero-rs", "-p", "probe"], cwd=HARNESS, env=env, capture_output=True)
    out = os.path.join(tgt, "debug", "probe")
    for feats in (["--features", "api"], []):
        r = subprocess.run(["cargo", "build", "--offline", "-q"] + feats, cwd=HARNESS, env=env, capture_output=True, text=True)
        if r.returncode == 0 and os.path.exists(out):
            with open(stamp, "w") as f:
                f.write(h)
            return out, bool(feats)
    raise Err("/repo does not build:\n" + r.stderr[-3000:])


# ------------------------------------------------------------------ the proof
LEMMAS = ["history"]     # modules of the contracts that hold no function of /repo
OBLIGATION = re.compile(
    r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible (arithmetic|division)|"
    r"decreases not satisfied|termination|failed this|requires not satisfied|cannot show|unreachable|might be|constructed value may fail|could not prove", re.I)
UNDECIDED = re.compile(r"rlimit|resource limit|timed? ?out|not supported|unsupported|does not yet support", re.I)


def run_verus(d, modules=None, timeout=300):
    cmd = ["verus", "--crate-type=lib", "out.rs", "--output-json", "--time-expanded", "--multiple-errors", "4", "--error-format=json",
           "--no-report-long-running", "--rlimit", "30"]
    for m in modules or []:
        cmd += ["--verify-only-module", m]
    if modules:
        cmd += ["--verify-root"] if False else []
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
        out, err = r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return dict(cmd=" ".join(cmd), wall=time.time() - t, timeout=True, diags=[], json={}, ok=False)
    diags = []
    for l in err.splitlines():
        try:
            d_ = json.loads(l)
        except ValueError:
            continue
        if d_.get("level") == "error" and d_.get("spans") or d_.get("level") == "error" and "aborting" not in d_.get("message", ""):
            diags.append(d_)
    j = {}
    try:
        j = json.loads(out[out.index("{"):])
    except ValueError:
        pass
    vr = j.get("verification-results", {})
    return dict(cmd=" ".join(cmd), wall=time.time() - t, timeout=False, diags=diags, json=j, stderr=err,
                ok=bool(vr.get("success")) and not diags, verified=vr.get("verified", 0), errors=vr.get("errors", 0))


def owner(items, line):
    best = None
    for it in items:
        a, b = it.get("out_lines") or (0, -1)
        if a <= line <= b and (best is None or b - a < best["out_lines"][1] - best["out_lines"][0]):
            best = it
    return best


def name(it):
    return it["module"] + "::" + it["key"]


def tagged(lines, own, line):
    """the properties an obligation speaks about: the last `//@ C..` above it in the function, if any"""
    if own is None:
        return None
    a, _ = own.get("out_lines") or (1, 0)
    for k in range(min(line, len(lines)), max(a, 1) - 1, -1):
        t = re.match(r"\s*//@ (.*)", lines[k - 1])
        if t:
            return re.findall(r"C\d\d", t.group(1))
        if "//#" in lines[k - 1]:
            return None
    return None


def prove(exe, work, fns=None):
    """translate and verify; functions outside the reach of the translator or the verifier are set aside"""
    disabled = collections.OrderedDict()
    rounds = 0
    total = 0.0
    while True:
        rounds += 1
        dis = os.path.join(work, "disable")
        with open(dis, "w") as f:
            for k, v in disabled.items():
                f.write("%s\t%s\n" % (k, v.replace("\n", " ")[:200]))
        r = subprocess.run([exe, REPO, os.path.join(ROOT, "contracts"), work, "--disable", dis], capture_output=True, text=True)
        if r.returncode:
            raise Err("translation failed: " + r.stderr[-2000:])
        m = json.load(open(os.path.join(work, "map.json")))
        items = m["items"]
        modules = None
        if fns:
            pats = [re.compile("^(?:" + f + ")$") for f in fns]
            modules = sorted({it["module"] for it in items if it["kind"] == "fn" and any(p.match(name(it)) for p in pats)} | {x for x in LEMMAS if any(x in f for f in fns)})
        v = run_verus(work, modules)
        total += v["wall"]
        failed, new, lines = [], {}, None
        if v["timeout"]:
            return dict(map=m, verus=v, failed=[], disabled=disabled, usable=False, why="the verifier ran out of time", rounds=rounds, wall=total)
        for d in v["diags"]:
            msg = d["message"]
            spans = d.get("spans", [])
            own = None
            # the place where control is (exit of the body, call) decides whose obligation it is
            order = sorted(spans, key=lambda s: (0 if (s.get("label") or "").startswith("at ") else 1 if s["is_primary"] else 2))
            for s in order:
                own = owner(items, s["line_start"])
                if own:
                    break
            isob = OBLIGATION.search(msg) and not UNDECIDED.search(msg) and not d.get("code")
            if isob:
                if lines is None:
                    lines = open(os.path.join(work, "out.rs")).read().split("\n")
                prim = [s["line_start"] for s in spans if s["is_primary"]] or [0]
                failed.append(dict(fn=name(own) if own else None, msg=msg, text=d["rendered"], props=tagged(lines, own, prim[0])))
            elif own is not None and own["status"] == "translated":
                new.setdefault(name(own), msg.split("\n")[0])
        if new and rounds < 12 and total < 300:
            # not decidable as written: set these aside and look at the rest
            for k, why in new.items():
                disabled[k] = why
            continue
        if v["diags"] and not failed:
            return dict(map=m, verus=v, failed=[], disabled=disabled, usable=False, rounds=rounds, wall=total,
                        why="; ".join(sorted({d["message"].split("\n")[0] for d in v["diags"]}))[:500])
        return dict(map=m, verus=v, failed=failed, disabled=disabled, usable=True, why="", rounds=rounds, wall=total)


# ------------------------------------------------------------------ failing inputs
def worker(a):
    prop, exe, seed, lo, hi, step, stop = a
    from vlib import gens, oracle
    from vlib.probe import Probe
    p = Probe(exe)
    cnt, fails, seen, samples = collections.Counter(), [], set(), []
    n = 0
    try:
        for i in range(lo, hi, step):
            if time.time() > stop:
                break
            rng = random.Random("%s/%s/%d" % (seed, prop, i))
            n += 1
            try:
                k, key = gens.CASES[prop](rng, p)
                if k is not None:
                    h = hash(key)
                    if h not in seen:
                        seen.add(h)
                        cnt[k] += 1
                    if len(samples) < 2:
                        samples.append(key)
            except gens.Fail as f:
                fails.append((i, f.what, f.kw))
                if len(fails) >= 3:
                    break
            except (oracle.Panic, oracle.Undefined):
                pass
    finally:
        p.close()
    return n, cnt, fails, samples


def search(prop, exe, seed, n, limit):
    w = min(8, os.cpu_count() or 4)
    stop = time.time() + limit
    with multiprocessing.get_context("fork").Pool(w) as pool:
        rs = pool.map(worker, [(prop, exe, seed, i, n, w, stop) for i in range(w)])
    tot, cnt, fails, samples = 0, collections.Counter(), [], []
    for a, b, c, d in rs:
        tot += a
        cnt += b
        fails += c
        samples += d
    return tot, cnt, sorted(fails, key=lambda f: (sum(len(str(x)) for x in f[2].values()), f[0])), samples[:3]


# ------------------------------------------------------------------ main
def cheats(path):
    """assumptions left in the verified text"""
    s = open(path).read()
    return {k: len(re.findall(p, s)) for k, p in dict(
        assume=r"\bassume\s*\(", admit=r"\badmit\s*\(", external_body=r"external_body", assume_specification=r"\bassume_specification\b",
        external=r"verifier::external\b", axiom=r"\baxiom\b", exec_allows_no_decreases=r"exec_allows_no_decreases_clause").items()}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rep = os.path.join(BUILD, "replay")
    os.makedirs(rep, exist_ok=True)
    replay = os.path.join(rep, prop + ".txt")
    if os.path.exists(replay):
        os.remove(replay)
    work = tempfile.mkdtemp(prefix="vproof-")
    res = {}

    def th(k, f):
        def run():
            try:
                res[k] = f()
            except Exception as e:      # reported below
                res[k] = e
        t = threading.Thread(target=run)
        t.start()
        return t
    try:
        ts = [th("probe", build_probe), th("proof", lambda: prove(build_extract(), work, P["fns"] if tier == "quick" else None))]
        for t in ts:
            t.join()
        for k in ("probe", "proof"):
            if isinstance(res[k], Exception):
                print("error: %s" % res[k], file=sys.stderr)
                return 2
        exe, api = res["probe"]
        pr = res["proof"]
        pats = [re.compile("^(?:" + f + ")$") for f in P["fns"]]
        mine = [it for it in pr["map"]["items"] if it["kind"] == "fn" and any(p.match(name(it)) for p in pats)]
        mynames = {name(it) for it in mine}
        proved = sorted(name(it) for it in mine if it["status"] == "translated" and pr["usable"])
        aside = {name(it): (pr["disabled"].get(name(it)) or it.get("reason") or it["status"]) for it in mine
                 if it["status"] not in ("translated", "assumed")}
        missing = [f for f, p in zip(P["fns"], pats) if not any(p.match(n) for n in mynames)]
        if not pr["usable"]:
            aside = {n: pr["why"] for n in mynames}
            proved = []
        bad = [f for f in pr["failed"] if f["fn"] in mynames and (f["props"] is None or prop in f["props"])]
        badnames = {f["fn"] for f in bad}
        proved = [n for n in proved if n not in badnames]
        # bounded part: always some cases; more where the proof does not reach or has failed
        n = P["quick"]
        limit = 30
        if tier == "thorough":
            n, limit = n * 20, 600
        if bad or aside:
            n, limit = n * 4, max(limit, 120)
        tot, cnt, fails, samples = search(prop, exe, seed, n, limit)
        wall = time.time() - t0
        # evidence
        units = []
        mods = {it["module"] for it in mine} | {x for x in LEMMAS if any(x in f for f in P["fns"])}
        for mm in (pr["verus"].get("json", {}).get("times-ms", {}).get("smt", {}) or {}).get("smt-run-module-times", []):
            if mm["module"] in mods or mm["module"] == "":
                units += mm.get("function-breakdown", [])
        ch = cheats(os.path.join(work, "out.rs"))
        ev = dict(property=prop, tier=tier, seed=seed, level="proof", wall_s=round(wall, 2), violations=len(bad) + len(fails),
                  assumptions=ASSUMPTIONS + P.get("assumptions", []),
                  coverage=dict(
                      obligations=len(units), discharged=sum(1 for u in units if u.get("success")),
                      checker_cmd=pr["verus"]["cmd"] + "   (out.rs: vextract /repo contracts, redone on this run)",
                      trusted_base=TRUSTED,
                      functions_under_contract=sorted(mynames), functions_discharged=proved, functions_failed=sorted(badnames),
                      functions_bounded_only=aside, functions_not_found=missing,
                      source_lines=sum(it["lines"][1] - it["lines"][0] + 1 for it in mine if it.get("lines")),
                      back_end="Verus %s / Z3" % (pr["verus"].get("json", {}).get("verus", {}).get("version", "?")),
                      solver_time_ms=sum(u.get("time", 0) for u in units), verifier_rounds=pr["rounds"],
                      whole_crate=dict(verified=pr["verus"].get("verified"), errors=pr["verus"].get("errors")),
                      unchecked=ch, translation_rules=pr["map"].get("rules"),
                      bounded=dict(note=P.get("bounded", "random inputs against an independent oracle; accompanies the proof, decides alone for functions_bounded_only"),
                                   evaluations=tot, distinct_nontrivial=sum(cnt.values()), kinds=dict((str(k), v) for k, v in cnt.items()), api=api, samples=samples)))
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write("\n")
        known = [l.strip() for l in open(os.path.join(ROOT, "known-findings.txt"))] if os.path.exists(os.path.join(ROOT, "known-findings.txt")) else []
        for l in known:
            if l.startswith("KNOWN-FINDING: property=%s " % prop):
                print(l)
        print("%s: %d functions under contract, %d discharged, %d bounded only, %d failed; %d units in the verifier, %d cases (%s); %.0f s"
              % (prop, len(mynames), len(proved), len(aside), len(badnames), len(units), tot, dict(cnt), wall))
        for k, w in aside.items():
            print("  bounded only: %s (%s)" % (k, w))
        if not bad and not fails:
            return 0
        with open(replay, "w") as f:
            f.write("property %s\n" % prop)
            for b in bad:
                f.write("\n== failed obligation in %s: %s\n%s\n" % (b["fn"], b["msg"], b["text"]))
            for i, what, kw in fails[:3]:
                f.write("\n== failing input (seed %d, case %d): %s\n" % (seed, i, what))
                for k, x in kw.items():
                    f.write("---- %s\n%s\n" % (k, x))
            if not fails:
                f.write("\nno failing input found in %d cases\n" % tot)
        for b in bad[:5]:
            print("failed obligation: %s: %s" % (b["fn"], b["msg"]))
        if fails:
            print("failing input: %s" % fails[0][1])
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if fails else " no-failing-input-found"))
        return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
