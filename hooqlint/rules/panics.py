"""C22: no input makes the macro panic."""
import signal
import conds
import config
import models
from lint import *
from known import *
from walk import alts

CUTS = ["VE", "VI", "H", "M", "X", "R", "MV", "LOADSTORE", "TOML", "GETF", "UPD", "UPDF", "PRE", "HELPATH"]
UNWRAPS = ("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err")


class Slow(Exception):
    pass


def product(p):
    return [k for k in p.bodies if "::tests::" not in k and "::test::" not in k]


def panicky(cd):
    """the kind of panic a library call may raise"""
    n = cd.get("nice") or cd["path"]
    if n.startswith(("core::panicking::", "std::rt::panic", "std::rt::begin_panic", "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed")):
        return "panic"
    k = models.key_of(cd)
    if k in models.PANICKY or k in UNWRAPS or k in ("Index::index", "IndexMut::index_mut", "Ord::clamp"):
        return k
    return None


def sites(p, k):
    """[(kind, span)] of what may panic in one body"""
    out = []
    for cd, t, sp in p.callees(k):
        if cd and "closure" not in cd and not cd.get("local"):
            x = panicky(cd)
            if x:
                out.append((x, sp))
        if cd and "closure" not in cd and models.key_of(cd) in ("__private::parse", "parse_quote::parse") and "syn" in (cd.get("nice") or ""):
            out.append(("parse_quote", sp))
    for blk in p.bodies[k]["body"]["blocks"]:
        t = blk[1]
        if t[0] == "assert" and not blk[2]:
            out.append(("assert:" + str(t[3]), t[-1]))
        if t[0] == "call" and t[4] is None and not blk[2] and not any(sp == t[-1] for _, sp in out):
            out.append(("diverges", t[-1]))
    return out


def alarmed(f, secs):
    def h(*a):
        raise Slow()
    old = signal.signal(signal.SIGALRM, h)
    signal.alarm(secs)
    try:
        return f()
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def root_fn(p, k):
    while "::{closure" in k:
        k = k[:k.rindex("::{closure")]
    return k


def runs(ck, an, where, opts=None):
    """abstract interpretation of every role and of what they leave out of the functions in `where`; (results, functions covered)"""
    p = an.p
    results = []

    def run(k, cuts):
        r = an.run_named(k, cuts, opts=opts)
        results.append(r)
        return r
    for r in ("VE", "VI"):
        results.append(an.visitor(r, opts))
    for r in ("TOP", "H", "M", "X", "R", "MV", "LOADSTORE", "TOML", "GETF", "UPDF", "PRE", "HELPATH"):
        run(an.role(r), [x for x in CUTS if x != r])
    results.append(config.Apply(an, opts).res)

    def covered():
        return set().union(*[set(r.eng.inlined) | {r.eng.root} for r in results])
    for k in sorted({root_fn(p, k) for k in where} - covered()):
        if k not in p.bodies:
            continue
        try:
            alarmed(lambda k=k: run(k, CUTS), 90)
        except Slow:
            ck.note("too big to interpret on its own", k)
    return results, covered()


def c22(ck, an):
    p = an.p
    where = {}
    for k in product(p):
        s = sites(p, k)
        if s:
            where[k] = s
    results, done = runs(ck, an, where)
    # what was raised, by place
    raised = {}
    for r in results:
        for q in r.eng.panics:
            raised.setdefault(q[1], []).append((r, q))
    n = 0
    for k, s in sorted(where.items()):
        for kind, span in s:
            n += 1
            short = "%s %s" % (k.split("hooq_macros::")[-1], kind)
            if k not in done:
                ck.ob("C22.site", short, False, "%s in %s (%s): no analysed path reaches it, so it is not known never to panic" % (kind, k, span), key="C22:%s:%s" % (k, kind))
                continue
            why = [w for w in (excused(an, results, r, q, raised[span]) for r, q in raised.get(span, ())) if w]
            ck.ob("C22.site", short, not why, "%s in %s (%s): %s" % (kind, k, span, why[0] if why else ""), key="C22:%s:%s" % (k, kind))
    known = {sp for s in where.values() for _, sp in s}
    for sp, l in sorted(raised.items(), key=str):
        if sp not in known:
            why = [w for w in (excused(an, results, r, q, l) for r, q in l) if w]
            ck.ob("C22.site", sp, not why, "%s (%s): %s" % (l[0][1][0], sp, why[0] if why else ""))
    ck.floor("places that might panic", n, 30)
    ck.note("functions interpreted", len(done))
    guards(ck, p)


def excused(an, results, r, q, others):
    """None if the panic recorded cannot happen after all, else what is wrong"""
    kind, span, info, facts, path, stack = q
    if kind in UNWRAPS and info is not None:
        if kind.startswith("Result") and trusted_update(an, info):
            return None
        if kind.startswith("Result") and parsed_name(info):
            return None
        if kind.startswith("Option") and paired(r, info, [x for _, x in others]):
            return None
        return "%s of %s" % (kind, show(info)[:160])
    if kind == "index" and info is not None and info.k == "has" and paired(r, info, ()):
        return None
    return "reached with %s" % (show(info)[:120] if info is not None else "some input")


def trusted_update(an, info):
    """hooq.toml over the built-in flavors, done before without error (C16)"""
    t = strip(info)
    if not (t.k == "call" and t.a[0] == "UPDF"):
        return False
    if not (strip(t.a[1][0]).k == "call" and strip(t.a[1][0]).a[0] == "PRE"):
        return False
    x = strip(t.a[1][1])
    while x.k == "pr":
        x = x.a[0]
    if not (x.k == "call" and x.a[0] == "TOML"):
        return False
    ck = Checker("C16", "quick")
    config.c16(ck, an)
    return not any(k.startswith("C16.kept") or k.startswith("C16.load") for k, _ in ck.failures)


def parsed_name(info):
    """a path made of constant names and the name Cargo gives the crate"""
    t = strip(info)
    if t.k == "choice":
        return all(parsed_name(v) for _, v in t.a[0])
    if not (t.k == "call" and t.a[0] == "parse" and known_type(t.a[1][0]) == "syn::Path"):
        return False
    return all(__import__("re").fullmatch(r"(::)?[A-Za-z_][A-Za-z0-9_]*(::[A-Za-z_][A-Za-z0-9_]*)*", x) for x in spellings(t.a[1][1]))


def known_type(t):
    return ty(t) if t.k == "sym" else None


def spellings(t):
    """every text the term may be, the name of the crate being `x`"""
    t = strip(t)
    if t.k == "c":
        return [str(t.a[1])]
    if t.k == "choice":
        return [x for _, v in t.a[0] for x in spellings(v)]
    if t.k == "fmt":
        out = [""]
        for q in t.a[0]:
            vs = [q] if isinstance(q, str) else spellings(q[-1])
            out = [a + b for a in out for b in vs]
        return out
    if models.crate_text(t):
        return ["x"]
    if t.k == "call" and len(t.a[1]) == 1:
        return spellings(t.a[1][0])
    return ["?"]


def list_over(r, K):
    """the list with exactly one element of K for each of its elements"""
    K = strip(K)
    if K.k == "call" and K.a[0] == "collect":
        src, y = K.a[1][1], K.a[1][2]
        if y.k == "yields" and not y.a[1] and sum(1 for _ in y.a[0]) and conds_cover([g for g, _ in y.a[0]]):
            return strip(src)
    if K.k == "phi":
        lp = next((l for l in r.loops.values() if K in l.extra["phis"]), None)
        e = r.phis.get(K)
        if lp is None or e is None or not (e.k == "seq" and e.a[0] is None and not e.a[1]):
            return None
        for d, pos in loop_dom(lp):
            if not full_loop(lp, d, pos):
                continue
            for it in lp.extra["iters"]:
                if it.kind != "cont":
                    continue
                u = it.updates.get(K)
                if u is None or not one_more(u, K):
                    return None
            return strip(d)
    return None


def one_more(u, K):
    u = strip(u)
    if u.k == "choice":
        return all(one_more(v, K) for _, v in u.a[0])
    return u.k == "seq" and u.a[0] is K and len(u.a[1]) == 1 and u.a[1][0].k != "spread"


def conds_cover(gs):
    out = NO
    for g in gs:
        out = disj(out, g)
    return out is YES


def paired(r, info, others):
    if info.k == "has":
        ks = {info}
    else:
        has = {k for k in subterms(info) if k.k == "has"}
        ks = {k for c2, x in alts(info) for k in conds.support(c2) if k.k == "has"} | has
    return len(ks) == 1 and paired_at(r, ks.pop(), info, others)


def paired_at(r, k, info, others):
    """the next element of a list with one element per element of the list being walked, one taken for each"""
    K, pos = k.a[0], k.a[1]
    src = list_over(r, K)
    if src is None:
        return False
    if pos is cint(0):
        # the first round of the same loop
        return any(paired(r, q[2], ()) for q in others if q[2] is not None and q[2] is not info and not any(x.k == "has" and x.a[1] is cint(0) for x in subterms(q[2])) and q is not None)
    if k.a[2] != 0:
        return False
    for lp in r.loops.values():
        if pos not in lp.extra["phis"]:
            continue
        e = lp.extra["phis"][pos][2]
        if strip(e) is not cint(0):
            return False
        for d, q in loop_dom(lp):
            if strip(d) is not src:
                continue
            if all(it.kind != "cont" or plus_one(it.updates.get(pos), pos) for it in lp.extra["iters"]):
                return True
    return False


def plus_one(u, pos):
    return u is not None and u.k == "bin" and u.a[0] == "Add" and u.a[1] is pos and u.a[2] is cint(1)


GUARDS = ("std::cell::Ref<", "std::cell::RefMut<", "std::sync::MutexGuard<", "std::sync::RwLockReadGuard<", "std::sync::RwLockWriteGuard<")
TAKES = {"RefCell::borrow": "Ref", "RefCell::borrow_mut": "RefMut", "Mutex::lock": "MutexGuard", "RwLock::read": "RwLockReadGuard", "RwLock::write": "RwLockWriteGuard", "RefCell::replace": "RefMut", "RefCell::take": "RefMut", "RefCell::swap": "RefMut", "RefCell::replace_with": "RefMut"}


def held(tn):
    """[(kind, content)] of the guards in a type"""
    out = []
    for g in GUARDS:
        i = tn.find(g)
        if i >= 0:
            rest, depth, j = tn[i + len(g):], 0, 0
            for j, ch in enumerate(rest):
                if ch == "<":
                    depth += 1
                elif ch == ">":
                    if depth == 0:
                        break
                    depth -= 1
            out.append((g.split("::")[-1][:-1], rest[:j].split(", std::alloc")[0].replace("'_, ", "")))
    return out[:1]


def guards(ck, p):
    """no cell is borrowed, no lock taken, while a guard of the same content is alive"""
    takes = {}
    for k in product(p):
        for cd, t, sp in p.callees(k):
            if cd and "closure" not in cd and models.key_of(cd) in TAKES:
                h = held(p.tname(t[3][2]))
                takes.setdefault(k, []).append((TAKES[models.key_of(cd)], h[0][1] if h else "", sp))
    reach = {}

    def below(k):
        if k not in reach:
            reach[k] = set()
            out, st = set(), [k]
            while st:
                x = st.pop()
                if x in out or x not in p.bodies:
                    continue
                out.add(x)
                for r in p.fn_refs(x):
                    y = r["closure"] if "closure" in r else p.local_target(r)
                    if y:
                        st.append(y)
            reach[k] = out
        return reach[k]
    n = 0
    for k in product(p):
        b = p.bodies[k]["body"]
        loc = b["locals"]
        gl = {i: held(p.tname(l[0])) for i, l in enumerate(loc)}
        gl = {i: h[0] for i, h in gl.items() if h and not p.tname(loc[i][0]).startswith("&")}
        if not gl:
            continue
        n += 1
        blocks = b["blocks"]
        live = {0: frozenset()}
        work = [0]
        while work:
            i = work.pop()
            cur = set(live[i])
            for st in blocks[i][0]:
                if st[0] == "=":
                    cur -= moved(st[2])
                    if st[1][0] in gl and not st[1][1]:
                        cur.add(st[1][0])
            t = blocks[i][1]
            if t[0] == "goto" and len(t) > 2 and isinstance(t[2], list):
                cur.discard(t[2][0])
            if t[0] == "call":
                for o in t[2]:
                    if o[0] == "mv" and not o[1][1]:
                        cur.discard(o[1][0])
            for j in succ(t):
                nx = frozenset(cur | ({t[3][0]} if t[0] == "call" and t[3][0] in gl and not t[3][1] else set()))
                if j not in live or not nx <= live[j]:
                    live[j] = nx | live.get(j, frozenset())
                    work.append(j)
        for i, blk in enumerate(blocks):
            t = blk[1]
            if t[0] != "call" or i not in live or blk[2]:
                continue
            cur = set(live[i])
            for st in blk[0]:
                if st[0] == "=":
                    cur -= moved(st[2])
                    if st[1][0] in gl and not st[1][1]:
                        cur.add(st[1][0])
            cur -= {o[1][0] for o in t[2] if o[0] == "mv" and not o[1][1]}
            if not cur:
                continue
            f = t[1]
            cd = f[1][1] if f[0] == "k" and f[1][0] == "fn" else None
            hit = []
            if cd is not None:
                if models.key_of(cd) in TAKES:
                    h = held(p.tname(t[3][2]))
                    hit = [(TAKES[models.key_of(cd)], h[0][1] if h else "", t[-1])]
                else:
                    y = p.local_target(cd)
                    for x in below(y) if y else ():
                        hit += takes.get(x, [])
            for o in t[2]:
                if o[0] in ("cp", "mv"):
                    x = p.ty(o[1][2])
                    if x[0] == "closure":
                        for z in below(x[1]):
                            hit += takes.get(z, [])
            for g in cur:
                kind, content = gl[g]
                for hk, hc, sp in hit:
                    if (hc == content or not hc) and not (kind == "Ref" and hk == "Ref"):
                        ck.ob("C22.guard", "%s:%s" % (k.split("hooq_macros::")[-1], sp), False, "%s (%s) takes a %s of %s while one is held" % (k, t[-1], hk, hc or "a cell"), key="C22:guard:%s" % k)
        ck.ob("C22.guard", k.split("hooq_macros::")[-1], True)
    ck.floor("functions that hold a guard", n, 0)


def moved(rv):
    out = set()
    st = [rv]
    while st:
        x = st.pop()
        if isinstance(x, list):
            if len(x) == 2 and x[0] == "mv" and isinstance(x[1], list) and len(x[1]) >= 2 and not x[1][1]:
                out.add(x[1][0])
            st += [y for y in x if isinstance(y, list)]
    return out


def succ(t):
    if t[0] == "goto":
        return [t[1]]
    if t[0] == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if t[0] == "assert":
        return [t[4]]
    if t[0] == "call":
        return [t[4]] if t[4] is not None else []
    return []
