"""C23: every error found on the way ends the expansion and is what the expansion reports."""
import conds
import models
import panics
from lint import *
from terms import *
from known import strip
from walk import alts

FAILS = ("=", "Err")
# a failure of these is an answer, not an error: is there a file, what is the crate called, is the variable set
ANSWERS = {"fs::try_exists", "Path::try_exists", "fs::exists", "env::var", "env::var_os", "crate_name"}


def an_answer(X):
    """a failure that is no error of the user's: a look ahead, the contents of a macro call that are no Rust, a lookup with a fallback"""
    if X.k != "call":
        return False
    if X.a[0] in ANSWERS:
        return True
    if X.a[0] == "stream_parse":
        s = X.a[1][1]
        fork = s.k == "stream" and s.a[-1] == "fork"
        while s.k == "stream":
            s = s.a[0]
        return fork or body_of_macro(s)
    if X.a[0] == "parse":
        return body_of_macro(X.a[1][1])
    return False


def body_of_macro(s):
    """the tokens of a syn::Macro"""
    s = strip(s)
    while s.k == "at":
        s = s.a[0]
    return s.k == "pr" and s.a[1] == ("f", "tokens")


def result_ty(p, tid):
    return p.tname(p.strip(tid)).startswith(("core::result::Result<", "std::result::Result<"))


def fallible(evs):
    """{outcome: place} of the calls a path made"""
    return {e.args[0]: e.span for e in evs if e.kind == "res"}


def swallowed(x, g, facts, X, fine=None):
    """the path goes on, or ends without the error, although X failed"""
    k = mk("disc", X, RESULT)
    if facts.get(k) == ("=", "Ok") or an_answer(X):
        return False
    gg = conj(g, lit(k, FAILS))
    if gg is NO:
        return False
    if x is None:
        return True
    y = simp(x, gg)
    if carries(x, X) or carries(y, X) or carries(y, simp(X, gg)):
        return False
    x = y
    # the expansion fails whether X does or not
    other = conj(conds.under(gg, k, FAILS), lit(k, ("=", "Ok")))
    return not (failure(x) and fine is not None and conj(other, fine) is NO)


def fails(r):
    return result_ty(r.an.p, r.an.p.bodies[r.path]["body"]["locals"][0][0])


def failure(v):
    return (v.k == "agg" and v.a[0] == RESULT and v.a[1] == "Err") or (v.k == "call" and v.a[0] == "compile_error")


def carries(v, X):
    """the value returned is the failure of X"""
    if v is X:
        return True
    if v.k == "agg" and v.a[0] == RESULT and v.a[1] == "Err":
        return any(x is X for x in subterms(v, False))
    if v.k == "call" and v.a[0] == "compile_error":
        return any(x is X for x in subterms(v, False))
    return False


def name(X):
    t = show(X)
    return t if len(t) < 90 else t[:87] + "..."


def follow(r):
    """(outcomes followed, what is wrong) of every path of a run"""
    bad = {}
    n = 0
    # when the function does not fail
    fine = NO
    for s, v in r.rs:
        for c, x in alts(v):
            if not failure(x):
                fine = disj(fine, conj(conj(s.pc, c), ok_guard(x) if x.k == "call" and x.a[0] != "compile_error" and fails(r) else YES))
    for s, v in r.rs:
        evs = fallible(s.log())
        for c, x in alts(v):
            g = conj(s.pc, c)
            if g is NO:
                continue
            for X, span in evs.items():
                n += 1
                if swallowed(x, g, s.facts, X, fine):
                    bad[X] = "%s returns %s although %s (%s) failed" % (r.eng.root, name(x), name(X), span)
    for lp in r.loops.values():
        for it in lp.extra["iters"]:
            if it.kind == "cont":
                for X, span in fallible(it.events).items():
                    n += 1
                    if swallowed(None, it.pc, it.facts, X):
                        bad[X] = "the loop at %s goes on although %s (%s) failed" % (lp.span, name(X), span)
    return n, list(bad.values())


def c23(ck, an):
    p = an.p
    where = {}
    for k in panics.product(p):
        b = p.bodies[k]["body"]
        for blk in b["blocks"]:
            t = blk[1]
            if t[0] == "call" and not blk[2] and result_ty(p, t[3][2]):
                where.setdefault(k, []).append(t)
    results, done = panics.runs(ck, an, where, {"outcomes": True})
    n = 0
    for r in results:
        short = r.eng.root.split("hooq_macros::")[-1]
        m, bad = follow(r)
        n += m
        ck.ob("C23.kept", short, not bad, "; ".join(bad[:3]), key="C23:%s" % short)
    ck.floor("outcomes followed", n, 100)
    for k in sorted(where):
        ck.ob("C23.analysed", k.split("hooq_macros::")[-1], k in done, "%s makes calls that may fail, but no analysed path reaches it" % k, key="C23:unreached:%s" % k)
        b = p.bodies[k]["body"]
        used = uses(b)
        for t in where[k]:
            cd = t[1][1][1] if t[1][0] == "k" and t[1][1][0] == "fn" else None
            what = models.key_of(cd) if cd else "a function value"
            d = t[3]
            ck.ob("C23.looked-at", "%s:%s" % (k.split("hooq_macros::")[-1], t[-1]), bool(d[1]) or d[0] == 0 or d[0] in used, "the result of %s (%s) is not looked at" % (what, t[-1]), key="C23:ignored:%s:%s" % (k, what))
    entries(ck, an)


def uses(b):
    """locals that are read (dropping is not reading)"""
    out = set()

    def place(q):
        out.add(q[0])

    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list) and len(x[1]) == 3:
                place(x[1])
            elif len(x) >= 2 and x[0] in ("ref", "disc", "len", "addr", "rawptr") and any(isinstance(y, list) and len(y) == 3 and isinstance(y[0], int) for y in x[1:]):
                for y in x[1:]:
                    if isinstance(y, list) and len(y) == 3 and isinstance(y[0], int):
                        place(y)
            for y in x:
                walk(y)
    for blk in b["blocks"]:
        for st in blk[0]:
            if st[0] == "=":
                walk(st[2])
        t = blk[1]
        if t[0] == "call":
            walk(t[1])
            walk(t[2])
        elif t[0] != "goto":
            walk(t[1:])
    return out


def entries(ck, an):
    """every exported macro turns the error into a compile error"""
    p = an.p
    n = 0
    for k in sorted(p.bodies):
        b = p.bodies[k]["body"]
        if "{closure" in k or not p.tname(b["locals"][0][0]).endswith("proc_macro::TokenStream") or b["argc"] not in (1, 2):
            continue
        if any(not p.tname(b["locals"][i + 1][0]).endswith("proc_macro::TokenStream") for i in range(b["argc"])):
            continue
        n += 1
        m, bad = follow(an.run_named(k, panics.CUTS, opts={"outcomes": True}))
        ck.ob("C23.entry", k, not bad, "; ".join(bad[:2]), key="C23:entry:%s" % k)
        ck.ob("C23.entry", k + ": errors", m > 0, "no error reaches this macro", key="C23:entry:%s" % k)
    ck.floor("exported macros", n, 5)
