"""What the syntax-tree visitors do on every path: events in terms of tree positions, settings chains, hook sites."""
import conds
from conds import YES, NO, conj, disj, neg, lit
from lint import *
import slots as S

SETTINGS = ["method", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types", "hook_in_macros", "bindings"]
KINDS = {"VE": "syn::Expr", "VI": "syn::Item"}


class Site:
    """one visit of the walker, on one path"""

    __slots__ = ("ev", "loops", "state", "g", "order")

    def __init__(self, ev, loops, state, g, order):
        self.ev, self.loops, self.state, self.g, self.order = ev, loops, state, g, order


class Walk:
    def __init__(self, an, which):
        self.an, self.which = an, which
        self.nice = KINDS[which]
        self.res = an.visitor(which)
        self.paths = [(s, g, self.res.canon(g), v) for s, g, v in oks(self.res)]
        self.types = an.cache.setdefault("types", S.Types(an.p))
        self._chain = {}
        seen = set()
        self.sites = []
        for s, g, c, v in self.paths:
            for i, (e, lp) in enumerate(flat(self.res, s.log())):
                if e.kind == "visit":
                    k = (e.uid, e.args, tuple(id(l[1]) for l in lp))
                    if k not in seen:
                        seen.add(k)
                        self.sites.append(Site(e, lp, s, c, i))
        # visits on paths that end in an error are visits all the same
        for s, v in self.res.rs:
            for i, (e, lp) in enumerate(flat(self.res, s.log())):
                if e.kind == "visit":
                    k = (e.uid, e.args, tuple(id(l[1]) for l in lp))
                    if k not in seen:
                        seen.add(k)
                        self.sites.append(Site(e, lp, s, None, i))

    # ---- places ------------------------------------------------------------------
    def target(self, e):
        """position a visit acts on"""
        i = {"VE": 0, "VI": 0, "H": 0, "M": 1, "R": 1}[e.name]
        return self.res.place(e.args[i])

    def name(self, pl):
        return KINDS[self.which].split("::")[1] + showpl(("", pl[1])) if pl and pl[0] == "node" else str(pl)

    def owners(self, ps):
        return self.types.owners(self.nice, ps)

    def boundaries(self, ps):
        """prefix lengths at which a position enters a sub-scope"""
        out = []
        for n, ty in self.types.along(self.nice, ps):
            if ty == "syn::Block":
                out.append(n)
        for i in range(len(ps)):
            if ps[i] == ("f", "else_branch") and i >= 2 and ps[i - 2] == ("v", "If"):
                out.append(i + 1)
            if ps[i][0] in ("e", "last") and i >= 3 and ps[i - 3:i] == (("v", "Match"), ("f", "0"), ("f", "arms")):
                out.append(i + 1)
        return sorted(set(out))

    def expected(self, ps, own=None):
        """settings operations due between the visitor's context and a position: attribute lists and scope entries, outermost first"""
        ev = [(n, 0, ("reset",)) for n in self.boundaries(ps)] + [(n, 1, ("H", a)) for n, a in self.owners(ps)]
        ev.sort(key=lambda x: (x[0], x[1]))
        return [x[2] for x in ev]

    # ---- settings --------------------------------------------------------------------
    def ctx_of(self, e):
        if e.name == "R":
            return get(e.args[0], [("f", "hook_context")])
        return e.args[{"VE": 1, "VI": 1, "H": 1, "M": 2}[e.name]]

    def field(self, ctx, name):
        return get(ctx, [("f", "counter")] if name == "counter" else [("f", "local_context"), ("f", name)])

    def chain(self, t, name):
        """operations from the root context to this one: ("H", attribute position) / ("set", value) / ("?", term)"""
        k = (t, name)
        if k not in self._chain:
            self._chain[k] = self._chain_of(t, name)
        return self._chain[k]

    def _chain_of(self, t, name):
        ops = []
        for _ in range(100):
            if t.k == "pr":
                projs, b = [], t
                while b.k == "pr":
                    projs.append(b.a[1])
                    b = b.a[0]
                projs = tuple(reversed(projs))
                if b.k == "call" and b.a[0] == "H":
                    want = (("v", "Ok"), ("f", "0"), ("f", "new_context")) + ((("f", "counter"),) if name == "counter" else (("f", "local_context"), ("f", name)))
                    if projs != want:
                        return [("?", t)] + ops
                    args = b.a[1]
                    ops.insert(0, ("H", self.res.place(args[0]), b.a[2]))
                    t = self.field(args[1], name)
                    continue
                if b.k == "at" and b.a[0].k == "sym" and b.a[0].a[0] == "ctx":
                    want = (("f", "counter"),) if name == "counter" else (("f", "local_context"), ("f", name))
                    return ops if projs == want else [("?", t)] + ops
                return [("?", t)] + ops
            if t.k == "agg" and agg_get(t, "overridden_ancestor") is not None:
                anc = agg_get(t, "overridden_ancestor")
                if anc.k == "agg" and anc.a[1] == "Some":
                    ops.insert(0, ("set", t, anc.a[2][0][1]))
                    t = anc.a[2][0][1]
                    continue
                return [("lost", t)] + ops
            if t.k == "choice":
                anc = set()
                for _, x in t.a[0]:
                    if x.k == "agg" and agg_get(x, "overridden_ancestor") is not None:
                        a = agg_get(x, "overridden_ancestor")
                        anc.add(a.a[2][0][1] if a.k == "agg" and a.a[1] == "Some" else None)
                bases = [x for _, x in t.a[0] if not (x.k == "agg" and agg_get(x, "overridden_ancestor") is not None)]
                if len(anc) == 1 and None not in anc and all(x in anc for x in bases):
                    a = anc.pop()
                    ops.insert(0, ("set", t, a))
                    t = a
                    continue
                return [("?", t)] + ops
            return [("?", t)] + ops
        return [("?", t)] + ops

    def hplaces(self, ops):
        return [o[1] for o in ops if o[0] == "H"]

    # ---- skip status ---------------------------------------------------------------------
    def is_reset(self, t, base):
        """sub-scope rule: SkipAll stays, anything else becomes None"""
        st = self.an.adt("SkipStatus")
        bv = get(base, [("f", "val")])
        bs = get(bv, [("v", "Some"), ("f", "0")])
        v = get(t, [("f", "val")])
        for state, want in (("None", "None"), ("SkipSameScope", "None"), ("SkipAll", "SkipAll")):
            g = lit(mk("disc", bv, OPTION), ("=", "None" if state == "None" else "Some"))
            if state != "None":
                g = conj(g, lit(mk("disc", bs, st), ("=", state)))
            got = {self.skipval(x, bv, bs, state) for c, x in alts(v) if conj(c, g) is not NO}
            if got != {want}:
                return False
        return True

    def skipval(self, x, bv, bs, state):
        if x is bv:
            return state
        if x.k == "agg" and x.a[0] == OPTION:
            if x.a[1] == "None":
                return "None"
            y = x.a[2][0][1]
            if y is bs:
                return state
            if y.k == "agg":
                return y.a[1]
        return "?"


def alts(t):
    """(condition, value) alternatives of a value"""
    if t.k == "choice":
        for g, x in t.a[0]:
            for g2, y in alts(x):
                yield conj(g, g2), y
    elif t.k == "agg" and t.a[0] == OPTION and t.a[1] == "Some" and t.a[2][0][1].k == "choice":
        for g, x in alts(t.a[2][0][1]):
            yield g, some(x)
    else:
        yield YES, t


def under_all(t, g):
    """the values t can take under g"""
    return [x for c, x in alts(t) if conj(c, g) is not NO]


def identity_source(t):
    """t is an element-for-element copy of what?"""
    for _ in range(20):
        src = copied(t)
        if src is None:
            return t
        t = src
    return t


def copied(t):
    """collect(kind, source, yields{(always, element)})"""
    if not (t.k == "call" and t.a[0] == "collect"):
        return None
    src, y = t.a[1][1], t.a[1][2]
    if y.k != "yields" or y.a[1]:
        return None
    items = list(y.a[0])
    if len(items) != 1 or items[0][0] is not YES:
        return None
    v = items[0][1]
    el = [p for p in subterms(v) if p.k == "pr" and p.a[1][0] == "e" and p.a[0] is src]
    if not el:
        return None
    e = el[0]
    if v is e:
        return src
    if v.k == "agg" and v.a[0] == "tuple" and len(v.a[2]) == 2 and v.a[2][0][1] is get1(e, ("f", "0")) and v.a[2][1][1] is get1(e, ("f", "1")):
        return src
    return None
