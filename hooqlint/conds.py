"""Path conditions as hash-consed decision diagrams over facts.

A variable is a fact key (a term: the discriminant of a value, a boolean origin, ...), its edges are the values the key
can take (variants for discriminants, true/false for booleans, compared constants otherwise).  Joining two branches is
a disjunction, so conditions are carried exactly through merges; no search is made for values that satisfy them.
"""


class G:
    __slots__ = ("key", "vid", "dom", "kids", "rest", "n", "_h")

    def __hash__(self):
        return self.n

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    def __lt__(self, o):
        return self.n < o.n


_tab = {}
_vars = {}
_doms = {}
_memo = {}
DOMAIN = [lambda key: None]


def _new(key, vid, dom, kids, rest):
    k = (vid, kids, rest)
    g = _tab.get(k)
    if g is None:
        g = G()
        g.key, g.vid, g.dom, g.kids, g.rest = key, vid, dom, kids, rest
        g.n = len(_tab) + 1
        _tab[k] = g
    return g


YES = _new(None, 1 << 60, None, "T", None)
NO = _new(None, 1 << 60, None, "F", None)


def node(key, kids, rest):
    """kids: dict value -> G.  finite domain: all values; otherwise `rest` for the values not listed"""
    vid, dom = _vars[key], _doms[key]
    if dom is not None:
        t = tuple(kids.get(v, rest) for v in dom)
        return t[0] if len(set(t)) == 1 else _new(key, vid, dom, t, None)
    t = tuple(sorted(((v, x) for v, x in kids.items() if x is not rest), key=lambda p: _vkey(p[0])))
    if not t:
        return rest
    return _new(key, vid, None, t, rest)


def _vkey(v):
    return v if isinstance(v, str) else "%09d" % v.n


def register(key, v):
    if key not in _vars:
        _vars[key] = len(_vars) + 1
        d = DOMAIN[0](key)
        if d is None and v[0] == "=" and getattr(v[1], "k", None) == "c" and v[1].a[0] == "bool":
            from terms import TRUE, FALSE
            d = (TRUE, FALSE)
        _doms[key] = d
    return _doms[key]


def lit(key, v):
    d = register(key, v)
    vals = {v[1]} if v[0] == "=" else v[1]
    a, b = (YES, NO) if v[0] == "=" else (NO, YES)
    if d is not None:
        return node(key, {x: (a if x in vals else b) for x in d}, None)
    return node(key, {x: a for x in vals}, b)


def child(g, vid, val):
    """sub-diagram of g under variable vid = val (val None: any value not listed)"""
    if g.vid != vid:
        return g
    if g.dom is not None:
        return g.kids[g.dom.index(val)] if val in g.dom else NO
    for v, x in g.kids:
        if v == val:
            return x
    return g.rest


def apply(op, a, b):
    if op == "and":
        if a is NO or b is NO:
            return NO
        if a is YES or a is b:
            return b
        if b is YES:
            return a
    else:
        if a is YES or b is YES:
            return YES
        if a is NO or a is b:
            return b
        if b is NO:
            return a
    if a.n > b.n:
        a, b = b, a
    k = (op, a, b)
    r = _memo.get(k)
    if r is not None:
        return r
    top = a if a.vid <= b.vid else b
    if top.dom is not None:
        if a.vid == b.vid:
            c = {}
            kids = []
            for p in zip(a.kids, b.kids):
                r = c.get(p)
                if r is None:
                    r = c[p] = apply(op, p[0], p[1])
                kids.append(r)
            kids = tuple(kids)
        elif top is a:
            c = {x: apply(op, x, b) for x in set(a.kids)}
            kids = tuple([c[x] for x in a.kids])
        else:
            c = {x: apply(op, a, x) for x in set(b.kids)}
            kids = tuple([c[x] for x in b.kids])
        r = kids[0] if len(set(kids)) == 1 else _new(top.key, top.vid, top.dom, kids, None)
    else:
        vals = set()
        for g in (a, b):
            if g.vid == top.vid:
                vals.update(v for v, _ in g.kids)
        kids = {v: apply(op, child(a, top.vid, v), child(b, top.vid, v)) for v in vals}
        rest = apply(op, child(a, top.vid, None), child(b, top.vid, None))
        r = node(top.key, kids, rest)
    _memo[k] = r
    return r


def conj(a, b):
    return apply("and", a, b)


def disj(a, b):
    return apply("or", a, b)


def neg(g):
    if g is YES:
        return NO
    if g is NO:
        return YES
    k = ("not", g)
    r = _memo.get(k)
    if r is None:
        if g.dom is not None:
            c = {x: neg(x) for x in set(g.kids)}
            r = _new(g.key, g.vid, g.dom, tuple([c[x] for x in g.kids]), None)
        else:
            r = _new(g.key, g.vid, None, tuple((v, neg(x)) for v, x in g.kids), neg(g.rest))
        _memo[k] = r
    return r


def implies(a, b):
    return conj(a, neg(b)) is NO


def under(g, key, v):
    """g simplified by the knowledge `key v`"""
    if g.kids == "T" or g.kids == "F":
        return g
    vid = _vars.get(key)
    if vid is None or g.vid > vid:
        return g
    k = ("under", g, key, v)
    r = _memo.get(k)
    if r is not None:
        return r
    if g.vid == vid:
        if v[0] == "=":
            r = child(g, vid, v[1])
        elif g.dom is not None:
            left = [x for d, x in zip(g.dom, g.kids) if d not in v[1]]
            if not left:
                r = NO
            elif all(x is left[0] for x in left):
                r = left[0]
            else:
                r = node(key, {d: (left[0] if d in v[1] else x) for d, x in zip(g.dom, g.kids)}, None)
        else:
            r = node(key, {d: x for d, x in g.kids if d not in v[1]}, g.rest)
    else:
        r = _map(g, lambda x: under(x, key, v))
    _memo[k] = r
    return r


def _map(g, f):
    if g.dom is not None:
        c = {x: f(x) for x in set(g.kids)}
        t = tuple([c[x] for x in g.kids])
        return t[0] if len(set(t)) == 1 else _new(g.key, g.vid, g.dom, t, None)
    return node(g.key, {d: f(x) for d, x in g.kids}, f(g.rest))


def drop(g, pred):
    """existential projection: forget the variables for which pred(key)"""
    memo = {}

    def go(g):
        if g.kids == "T" or g.kids == "F":
            return g
        r = memo.get(g)
        if r is None:
            if pred(g.key):
                r = NO
                for x in edges(g):
                    r = disj(r, go(x[1]))
            else:
                r = _map(g, go)
            memo[g] = r
        return r

    return go(g)


def edges(g):
    """[(fact value, sub-diagram)]"""
    if g.kids == "T" or g.kids == "F":
        return []
    if g.dom is not None:
        by = {}
        for d, x in zip(g.dom, g.kids):
            by.setdefault(x, []).append(d)
        out = []
        for x, ds in by.items():
            if len(ds) == 1:
                out.append((("=", ds[0]), x))
            elif len(ds) * 2 > len(g.dom):
                out.append((("!=", frozenset(g.dom) - frozenset(ds)), x))
            else:
                for d in ds:
                    out.append((("=", d), x))
        return out
    return [(("=", v), x) for v, x in g.kids] + [(("!=", frozenset(v for v, _ in g.kids)), g.rest)]


def support(g):
    seen, out, st = set(), [], [g]
    while st:
        x = st.pop()
        if x in seen or x.kids == "T" or x.kids == "F":
            continue
        seen.add(x)
        if x.key not in out:
            out.append(x.key)
        st.extend(y for _, y in edges(x))
    return out


def mapkeys(g, fk, fv, memo=None):
    """the same condition with keys and constants rewritten"""
    if memo is None:
        memo = {}
    if g.kids == "T" or g.kids == "F":
        return g
    r = memo.get(g)
    if r is not None:
        return r
    k2 = fk(g.key)
    if k2 is g.key:
        if all(fk(k) is k for k in support(g)):
            memo[g] = g
            return g
    r = NO
    for v, x in edges(g):
        v2 = fv(v)
        r = disj(r, conj(lit(k2, v2), mapkeys(x, fk, fv, memo)))
    memo[g] = r
    return r


def cubes(g, limit=200):
    """the paths to YES as lists of (key, fact value)"""
    out = []

    def go(g, acc):
        if len(out) >= limit:
            return
        if g is YES:
            out.append(list(acc))
            return
        if g is NO:
            return
        for v, x in edges(g):
            acc.append((g.key, v))
            go(x, acc)
            acc.pop()

    go(g, [])
    return out


def _poss(g):
    """{key: (positive?, values)} the values each key can take on the paths to YES, for keys tested on all of them"""
    k0 = ("poss", g)
    r = _memo.get(k0)
    if r is not None:
        return r
    r = None
    if g.dom is not None:
        mine = (True, frozenset(d for d, x in zip(g.dom, g.kids) if x is not NO))
        kids = {x for x in g.kids if x is not NO}
    else:
        kids = {x for _, x in g.kids if x is not NO}
        if g.rest is NO:
            mine = (True, frozenset(v for v, x in g.kids if x is not NO))
        else:
            mine = (False, frozenset(v for v, x in g.kids if x is NO))
            kids.add(g.rest)
    for x in kids:
        p = {} if x is YES else _poss(x)
        if r is None:
            r = dict(p)
        else:
            for k in list(r):
                o = p.get(k)
                if o is None:
                    del r[k]
                elif o != r[k]:
                    a = r[k]
                    if a[0] and o[0]:
                        r[k] = (True, a[1] | o[1])
                    elif not a[0] and not o[0]:
                        r[k] = (False, a[1] & o[1])
                    elif a[0]:
                        r[k] = (False, o[1] - a[1])
                    else:
                        r[k] = (False, a[1] - o[1])
                    if not r[k][0] and not r[k][1]:
                        del r[k]
        if not r:
            break
    r = r or {}
    if mine[0] or mine[1]:
        r[g.key] = mine
    _memo[k0] = r
    return r


def definite(g):
    """facts that hold on every path to YES: {key: fact value}"""
    if g is YES or g is NO:
        return {}
    k0 = ("def", g)
    r = _memo.get(k0)
    if r is not None:
        return r
    r = {}
    for k, (pos, vs) in _poss(g).items():
        if pos and len(vs) == 1:
            r[k] = ("=", next(iter(vs)))
        elif pos and _doms[k] is not None:
            rest = frozenset(_doms[k]) - vs
            if rest:
                r[k] = ("!=", rest)
        elif not pos and vs:
            r[k] = ("!=", vs)
    _memo[k0] = r
    return r


def guard_of(facts):
    g = YES
    for k, v in facts:
        g = conj(g, lit(k, v))
    return g
