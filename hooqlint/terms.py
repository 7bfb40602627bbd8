"""Hash-consed provenance terms: where a value came from, as a tree.

A term never stands for a run-time computation that is carried out here; it names the origin of a value
(argument, field of, result of call, last write to) so that rules can ask "is this value derived from that one".
"""
import sys
import conds
from conds import G, YES, NO, conj, disj, lit, under

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("k", "a", "n", "_s")

    def __hash__(self):
        return self.n

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.n < o.n

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(k, *a):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        _cnt[0] += 1
        t.n = _cnt[0]
        t._s = None
        _tab[key] = t
    return t


# constants ------------------------------------------------------------------
def c(ty, v):
    return mk("c", ty, v)


TRUE = c("bool", True)
FALSE = c("bool", False)
UNIT = c("unit", 0)


def cint(n):
    return c("int", n)


def cstr(s):
    return c("str", s)


def cbool(b):
    return TRUE if b else FALSE


def sym(n):
    return mk("sym", n)


def agg(tag, variant, fields):
    return mk("agg", tag, variant, tuple(fields))


def tup(*vs):
    return agg("tuple", None, [(str(i), v) for i, v in enumerate(vs)])


OPTION = "core::option::Option"
RESULT = "core::result::Result"
CFLOW = "core::ops::control_flow::ControlFlow"


def some(v):
    return agg(OPTION, "Some", [("0", v)])


NONE = agg(OPTION, "None", [])


def ok(v):
    return agg(RESULT, "Ok", [("0", v)])


def err(v):
    return agg(RESULT, "Err", [("0", v)])


def ref(root, projs=()):
    return mk("ref", root, tuple(projs))


def valref(v):
    """a reference to a constant/temporary holding v"""
    return mk("ref", ("K", v), ())


def call(name, args, uid=None):
    return mk("call", name, tuple(args), uid)


# projection -----------------------------------------------------------------
def agg_get(t, name):
    for n, v in t.a[2]:
        if n == name:
            return v
    return None


def get1(t, p):
    k = t.k
    if k == "agg":
        if p[0] == "v":
            return t
        if p[0] == "f":
            v = agg_get(t, p[1])
            if v is not None:
                return v
    elif k == "upd":
        return get_upd(t, (p,))
    elif k == "seq":
        if p[0] == "e" and t.a[0] is None and p[1].k == "c":
            i = p[1].a[1]
            if 0 <= i < len(t.a[1]) and not any(x.k == "spread" for x in t.a[1]):
                return t.a[1][i]
    elif k == "choice":
        return mkchoice([(g, get1(v, p)) for g, v in t.a[0]])
    elif k == "call" and t.a[0] == "map_insert" and p[0] == "key":
        if t.a[1][1] is p[1]:
            return t.a[1][2]
        if t.a[1][1].k == "c" and p[1].k == "c":
            return get1(t.a[1][0], p)
    return mk("pr", t, p)


def get(t, projs):
    for i, p in enumerate(projs):
        if t.k == "upd":
            return get_upd(t, projs[i:])
        t = get1(t, p)
    return t


def peq(a, b):
    """equal projection paths; ("v","*") = whichever variant is active"""
    if a == b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y and not (x[0] == "v" and y[0] == "v" and "*" in (x[1], y[1])):
            return False
    return True


def get_upd(t, projs):
    base, ups = t.a
    projs = tuple(projs)
    n = len(projs)
    inner = []
    for q, v in ups:
        m = len(q)
        if m <= n:
            if peq(projs[:m], q):
                r = get(v, projs[m:])
                return r
        elif peq(q[:n], projs):
            inner.append((q[n:], v))
    r = get(base, projs)
    for q, v in inner:
        r = put(r, q, v)
    return r


def put(t, projs, v):
    projs = tuple(projs)
    if not projs:
        return v
    p = projs[0]
    if t.k == "agg":
        if p[0] == "v":
            return put(t, projs[1:], v)
        if p[0] == "f":
            old = agg_get(t, p[1])
            if old is not None:
                return agg(t.a[0], t.a[1], [(n, put(x, projs[1:], v) if n == p[1] else x) for n, x in t.a[2]])
    if t.k == "seq" and p[0] == "e" and t.a[0] is None and p[1].k == "c" and 0 <= p[1].a[1] < len(t.a[1]):
        items = list(t.a[1])
        items[p[1].a[1]] = put(items[p[1].a[1]], projs[1:], v)
        return mk("seq", None, tuple(items))
    if t.k == "call" and t.a[0] == "map_insert" and p[0] == "key" and t.a[1][1] is p[1]:
        return mk("call", "map_insert", (t.a[1][0], p[1], put(t.a[1][2], projs[1:], v)), *t.a[2:])
    if t.k == "upd":
        base, ups = t.a
        out = []
        done = False
        for q, w in ups:
            m = len(q)
            if peq(q[: len(projs)], projs):
                continue  # overwritten
            if peq(projs[:m], q) and not done:
                out.append((q, put(w, projs[m:], v)))
                done = True
            else:
                out.append((q, w))
        if not done:
            out.append((projs, v))
        out.sort(key=lambda x: _pkey(x[0]))
        return mk("upd", base, tuple(out))
    if get(t, projs) is v:
        return t
    return mk("upd", t, ((projs, v),))


def _pkey(ps):
    return tuple((p[0], tuple(str(x.n) if isinstance(x, T) else str(x) for x in p[1:])) for p in ps)


def mkchoice(alts):
    """alts: list of (condition, value); values that agree are merged, impossible alternatives dropped"""
    v0 = alts[0][1]
    if all(v is v0 for _, v in alts):
        return v0
    by = {}

    def add(g, v):
        o = by.get(v)
        by[v] = g if o is None else disj(o, g)

    for g, v in alts:
        if g is NO:
            continue
        if v.k == "choice":
            for g2, v2 in v.a[0]:
                m = conj(g, g2)
                if m is not NO:
                    add(m, v2)
        else:
            add(g, v)
    if not by:
        return alts[0][1]
    if len(by) == 1:
        return next(iter(by))
    return mk("choice", tuple((g, v) for v, g in sorted(by.items(), key=lambda x: x[0].n)))


def meetval(a, b):
    """facts: ('=', const) or ('!=', frozenset)"""
    if a == b:
        return a
    if a[0] == "=":
        if b[0] == "=":
            return None
        return None if a[1] in b[1] else a
    if b[0] == "=":
        return None if b[1] in a[1] else b
    return ("!=", a[1] | b[1])


def is_const(t):
    """closed term usable as an exclusive constant"""
    if t.k == "c":
        return True
    if t.k == "agg":
        return all(is_const(v) for _, v in t.a[2])
    if t.k == "parsed":
        return closed_ts(t.a[1])
    return False


def closed_ts(t):
    if t.k != "ts" or t.a[0] is not None:
        return False
    for it in t.a[1]:
        if it[0] == "grp":
            if not closed_ts(it[2]):
                return False
        elif it[0] not in ("id", "p", "lit"):
            return False
    return True


ELEMS = {}  # what a loop changes -> the collection it was before, when only elements are written


def strip_elems(t):
    """the collection, ignoring in-place updates of elements (its length and element identity)"""
    while True:
        if t.k == "upd" and all(q[0][0] in ("e", "last", "sub") for q, _ in t.a[1]):
            t = t.a[0]
        elif t.k == "phi" and ELEMS.get(t, t) is not t:
            t = ELEMS[t]  # a loop changing nothing but elements
        else:
            return t


# traversal ------------------------------------------------------------------
def _map(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_map(y, f) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_map(y, f) for y in x)
    if isinstance(x, G):
        return conds.mapkeys(x, f, lambda v: (v[0], f(v[1])) if v[0] == "=" and isinstance(v[1], T) else v)
    return x


def subst(t, m, memo=None):
    if memo is None:
        memo = {}

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        na = tuple(_map(x, go) for x in t.a)
        r = t if na == t.a else mk(t.k, *na)
        memo[t] = r
        return r

    return go(t)


def subst_cond(g, m):
    return _map(g, lambda x: subst(x, m))


def subterms(t, guards=True):
    seen = set()
    st = [t]

    def push(x):
        if isinstance(x, T):
            st.append(x)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                push(y)
        elif guards and isinstance(x, G):
            st.extend(conds.support(x))

    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            push(y)


def mentions(t, u):
    return any(x is u for x in subterms(t))


# printing -------------------------------------------------------------------
def show_root(r):
    if r[0] == "L":
        return "L%s._%s" % (r[1], r[2])
    return "%s(%s)" % (r[0], show(r[1]))


def show_projs(ps):
    out = ""
    for p in ps:
        if p[0] == "f":
            out += "." + p[1]
        elif p[0] == "v":
            out += "::" + p[1]
        elif p[0] == "e":
            out += "[" + show(p[1]) + "]"
        else:
            out += "." + str(p)
    return out


def show_fact(k, v):
    if v[0] == "=":
        return "%s=%s" % (show(k), show(v[1]) if isinstance(v[1], T) else v[1])
    return "%s!={%s}" % (show(k), ",".join(sorted(show(x) if isinstance(x, T) else str(x) for x in v[1])))


def show_cond(g, limit=12):
    if g is YES:
        return "always"
    if g is NO:
        return "never"
    cs = conds.cubes(g, limit + 1)
    return " or ".join(" & ".join(sorted(show_fact(k, v) for k, v in c)) for c in cs[:limit]) + (" or ..." if len(cs) > limit else "")


def show(t, depth=0):
    if isinstance(t, G):
        return show_cond(t)
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    if depth > 60:
        return "…"
    k, a = t.k, t.a
    d = depth + 1
    if k == "c":
        r = repr(a[1]) if a[0] in ("str", "char") else str(a[1]) if a[0] != "unit" else "()"
    elif k == "sym":
        r = a[0]
    elif k == "agg":
        tag = a[0].split("::")[-1] if not a[0].startswith("closure:") else a[0]
        r = (a[1] or tag) + "{" + ", ".join("%s: %s" % (n, show(v, d)) for n, v in a[2]) + "}"
    elif k == "ref":
        r = "&" + show_root(a[0]) + show_projs(a[1])
    elif k == "at":
        r = "*" + show(a[0], d)
    elif k == "pr":
        r = show(a[0], d) + show_projs((a[1],))
    elif k == "upd":
        r = show(a[0], d) + "[" + ", ".join("%s:=%s" % (show_projs(q), show(v, d)) for q, v in a[1]) + "]"
    elif k == "call":
        r = a[0] + "(" + ", ".join(show(x, d) for x in a[1]) + ")" + ("#%s" % a[2] if a[2] is not None else "")
    elif k == "choice":
        r = "{" + " | ".join("[" + show_cond(g) + "] " + show(v, d) for g, v in a[0]) + "}"
    elif k == "phi":
        r = "φ%s(%s%s)" % (a[0], show_root(a[1]), show_projs(a[2]))
    elif k == "ts":
        r = "⟦" + ((show(a[0], d) + " ") if a[0] is not None else "") + " ".join(show_tok(x, d) for x in a[1]) + "⟧"
    elif k == "seq":
        r = "[" + ((show(a[0], d) + "..., ") if a[0] is not None else "") + ", ".join(show(x, d) for x in a[1]) + "]"
    elif k == "fmt":
        r = 'f"' + "".join(p if isinstance(p, str) else "{" + show(p[1], d) + "}" for p in a[0]) + '"'
    else:
        r = k + "(" + ", ".join(show(x, d) if isinstance(x, (T, G)) else str(x) for x in a) + ")"
    t._s = r
    return r


def show_tok(x, d=0):
    if x[0] == "grp":
        o, cl = {"(": "()", "{": "{}", "[": "[]", "": "  "}.get(x[1], "??")
        return o + show(x[2], d) + cl
    if x[0] in ("id", "p"):
        return x[1]
    if x[0] == "lit":
        return str(x[1])
    return "#" + show(x[1], d)
