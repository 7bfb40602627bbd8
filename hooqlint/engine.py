"""Interprocedural provenance dataflow over the dumped MIR.

Abstract state = (memory: location -> provenance term, facts: discriminants/conditions established on the way,
events: the trace partition key - role calls, visits, loops). States that agree on their events are joined at every
merge point (differences become guarded `choice` values); loops are summarised by a fixpoint over the set of locations
written in them.  Nothing is executed: terms record origins only.
"""
from terms import *
import conds
from conds import G, YES, NO, conj, disj, neg, lit, under, definite

MAXSTATES = 4000


class Ev:
    __slots__ = ("kind", "name", "args", "uid", "span", "extra", "facts")

    def __init__(self, kind, name, args, uid, span, extra=None, facts=None):
        self.kind, self.name, self.args, self.uid, self.span, self.extra, self.facts = kind, name, args, uid, span, extra, facts

    def __repr__(self):
        if self.kind == "loop":
            return "loop#%s%s" % (self.uid, [len(i.events) for i in self.extra["iters"]])
        return "%s:%s(%s)@%s" % (self.kind, self.name, ", ".join(show(a) for a in self.args), self.span)


class Cons:
    __slots__ = ("ev", "prev", "n")

    def __init__(self, ev, prev):
        self.ev, self.prev = ev, prev
        self.n = (prev.n if prev else 0) + 1


def ev_list(cons, upto=None):
    out = []
    while cons is not None and cons is not upto:
        out.append(cons.ev)
        cons = cons.prev
    out.reverse()
    return out


class State:
    """facts: conditions holding in every concrete state described; pc: the exact path condition (a decision diagram)"""
    __slots__ = ("mem", "facts", "events", "pc")

    def __init__(self, mem, facts, events, pc=YES):
        self.mem, self.facts, self.events, self.pc = mem, facts, events, pc

    def fork(self):
        return State(dict(self.mem), dict(self.facts), self.events, self.pc)

    def add_event(self, ev):
        self.events = Cons(ev, self.events)

    def log(self):
        return ev_list(self.events)


class Split(Exception):
    """the value of a choice must be resolved before the statement can be interpreted"""

    def __init__(self, term):
        self.term = term


class Dead(Exception):
    pass


class Iteration:
    __slots__ = ("facts", "events", "updates", "kind", "state", "yields", "pc")

    def __init__(self, facts, events, updates, kind, yields=None, pc=YES):
        self.facts, self.events, self.updates, self.kind, self.yields, self.pc = facts, events, updates, kind, yields, pc


PIECES = ("str::split", "str::rsplit")


class Engine:
    def __init__(self, prog, models, cuts=None, opts=None):
        self.p = prog
        self.models = models
        self.cuts = cuts or {}
        self.opts = opts or {}
        self.wlogs = []
        self.hasforks = []
        self.fixednexts = []
        self.panics = []
        self.unmodelled = {}
        self.inlined = set()
        self.recursions = set()
        self.steps = 0
        self.uids = {}
        self.live = {}
        self.callstack = []
        self.sites = 0
        self.loop_events = {}
        self.ictx = ()
        conds.DOMAIN[0] = self.domain

    # ---- uids ---------------------------------------------------------------
    def uid(self, *key):
        if self.ictx:
            key = key + self.ictx
        u = self.uids.get(key)
        if u is None:
            u = self.uids[key] = len(self.uids) + 1
        return u

    # ---- facts --------------------------------------------------------------
    def lookup(self, st, t):
        f = st.facts.get(t)
        if f is not None and f[0] == "=":
            return f[1]
        return None

    def domain(self, key):
        if key.k == "disc" or key.k == "vdisc":
            names = self.variants(key.a[1] if key.k == "disc" else key.a[2])
            return tuple(names) if names else None
        return None

    def consistent(self, st, g):
        if conj(st.pc, g) is NO:
            return False
        for k in conds.support(g):
            if k.k in ("has", "bin", "not") and k not in st.facts:
                r = self.evalbool(st, k)
                if r is not None:
                    g = under(g, k, ("=", cbool(r)))
        return conj(st.pc, g) is not NO

    def rel(self, pc, facts):
        """the condition pc relative to known facts"""
        for k, v in facts.items():
            pc = under(pc, k, v)
        return pc

    def local(self, pc, entry, facts):
        """the simplest condition that, together with the entry condition, says the same as pc"""
        F = self.rel(pc, facts)
        E = self.rel(entry, facts)
        if E is YES:
            return F
        es = set(conds.support(E))
        full = conj(F, E)
        for k in sorted((k for k in conds.support(F) if k in es), key=lambda k: k.n):
            F2 = conds.drop(F, lambda x: x is k)
            if conj(F2, E) is full:
                F = F2
        return F

    def resolve(self, st, t):
        """drop the alternatives of a choice the facts exclude"""
        while t.k == "choice":
            alts = [(g, v) for g, v in t.a[0] if self.consistent(st, g)]
            if not alts:
                raise Dead()
            if len(alts) == len(t.a[0]):
                break
            t = mkchoice(alts)
        return t

    def resolve_deep(self, st, t):
        if t.k == "choice":
            try:
                t = self.resolve(st, t)
            except Dead:
                return t
        if t.k == "agg":
            return agg(t.a[0], t.a[1], [(n, self.resolve_deep(st, x)) for n, x in t.a[2]])
        return t

    def assume_fact(self, st, k, v):
        o = st.facts.get(k)
        if o is None:
            st.facts[k] = v
        else:
            m = meetval(o, v)
            if m is None:
                return False
            st.facts[k] = m
        st.pc = conj(st.pc, lit(k, v))
        return st.pc is not NO

    def assume_guard(self, st, g):
        if g is YES:
            return True
        st.pc = conj(st.pc, g)
        if st.pc is NO:
            return False
        for k, v in definite(g).items():
            o = st.facts.get(k)
            m = v if o is None else meetval(o, v)
            if m is None:
                return False
            st.facts[k] = m
        return True

    def split(self, st, t):
        """one state per value of a choice term"""
        out = []
        for g, v in t.a[0]:
            if self.consistent(st, g):
                s = st.fork()
                if self.assume_guard(s, g):
                    out.append((s, v))
        return out

    def linear(self, t):
        off = 0
        while t.k == "bin" and t.a[0] in ("Add", "Sub") and t.a[2].k == "c" and t.a[2].a[0] == "int":
            off += t.a[2].a[1] if t.a[0] == "Add" else -t.a[2].a[1]
            t = t.a[1]
        return t, off

    def is_pos(self, t):
        return t.k == "phi" and t.a[2] and t.a[2][-1] == ("f", "pos")

    def index_atom(self, op, a, b):
        """comparisons between an iteration index and the length of the iterated collection -> has(D, pos, k)"""
        (ta, oa), (tb, ob) = self.linear(a), self.linear(b)
        if tb.k == "idx" and ta.k == "len":
            ta, oa, tb, ob = tb, ob, ta, oa
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if ta.k == "idx" and tb.k == "len" and ta.a[0] is tb.a[0]:
            # pos + oa  op  len + ob   <=>  pos + (oa-ob) op len ; has(D,pos,0) is known
            d = oa - ob
            h = lambda k: mk("has", ta.a[0], ta.a[1], k)
            if op == "Eq":
                # pos+d == len  <=> has(d-1) and not has(d)
                if d <= 0:
                    return FALSE
                return mk("not", h(1)) if d == 1 else None
            if op == "Ne":
                if d <= 0:
                    return TRUE
                return h(1) if d == 1 else None
            if op == "Lt":
                return TRUE if d <= 0 else h(d)
            if op == "Le":
                return TRUE if d <= 1 else h(d - 1)
            if op == "Ge":
                return FALSE if d <= 0 else mk("not", h(d))
            if op == "Gt":
                return FALSE if d <= 1 else mk("not", h(d - 1))
        if ta.k == "len" and tb.k == "phi":
            ta, oa, tb, ob = tb, ob, ta, oa
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if ta.k == "phi" and tb.k == "len":
            # a hand-written counter: i + d < len  <=>  has(L, i, d)
            d = oa - ob
            h = lambda k: mk("has", tb.a[0], ta, k)
            if op == "Lt" and d >= 0:
                return h(d)
            if op == "Le" and d >= 1:
                return h(d - 1)
            if op == "Ge" and d >= 0:
                return mk("not", h(d))
            if op == "Gt" and d >= 1:
                return mk("not", h(d - 1))
        return None

    def mkbin(self, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            for x, y, f in ((a, b, False), (b, a, True)):
                if x.k == "choice" and len(x.a[0]) < 64:
                    return mkchoice([(g, self.mkbin(op, y, v) if f else self.mkbin(op, v, y)) for g, v in x.a[0]])
            if a.k == "c" and b.k == "c":
                x, y = a.a[1], b.a[1]
                try:
                    return cbool({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
                except TypeError:
                    pass
            if op in ("Eq", "Ne"):
                if a is b:
                    return cbool(op == "Eq")
                if b.k == "c" and b.a[0] == "bool":
                    return a if b.a[1] == (op == "Eq") else self.mknot(a)
                if a.k == "c" and a.a[0] == "bool":
                    return b if a.a[1] == (op == "Eq") else self.mknot(b)
                if is_const(a) and is_const(b):
                    return cbool((a is b) == (op == "Eq"))
            r = self.index_atom(op, a, b)
            if r is not None:
                return r
            # emptiness
            for x, y, f in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
                if x.k == "len" and y.k == "c":
                    n = y.a[1]
                    ne = mk("has", x.a[0], cint(0), 0)
                    if (f == "Eq" and n == 0) or (f == "Lt" and n == 1) or (f == "Le" and n == 0):
                        return mk("not", ne)
                    if (f == "Ne" and n == 0) or (f == "Gt" and n == 0) or (f == "Ge" and n == 1):
                        return ne
            if op == "Ne":
                return self.mknot(self.mkbin("Eq", a, b))
            if op == "Eq" and is_const(a) and not is_const(b):
                a, b = b, a
            return mk("bin", op, a, b)
        if a.k == "c" and b.k == "c" and a.a[0] == "int" and b.a[0] == "int":
            x, y = a.a[1], b.a[1]
            if op in ("Add", "AddUnchecked"):
                return cint(x + y)
            if op in ("Sub",):
                return cint(x - y)
            if op == "Mul":
                return cint(x * y)
        if op == "Sub" and b.k == "c" and a.k == "bin" and a.a[0] == "Add" and a.a[2].k == "c" and isinstance(b.a[1], int) and isinstance(a.a[2].a[1], int):
            d = a.a[2].a[1] - b.a[1]
            return a.a[1] if d == 0 else mk("bin", "Add", a.a[1], cint(d)) if d > 0 else mk("bin", "Sub", a.a[1], cint(-d))
        if a.k == "c" and b.k == "c" and a.a[0] == "bool":
            if op in ("BitAnd", "BitOr", "BitXor"):
                x, y = a.a[1], b.a[1]
                return cbool({"BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[op])
        if op == "BitAnd":
            if a is FALSE or b is FALSE:
                return FALSE
            if a is TRUE:
                return b
            if b is TRUE:
                return a
        if op == "BitOr":
            if a is TRUE or b is TRUE:
                return TRUE
            if a is FALSE:
                return b
            if b is FALSE:
                return a
        return mk("bin", op, a, b)

    def mknot(self, t):
        if t.k == "c":
            return cbool(not t.a[1])
        if t.k == "not":
            return t.a[0]
        if t.k == "choice":
            return mkchoice([(g, self.mknot(v)) for g, v in t.a[0]])
        return mk("not", t)

    def evalbool(self, st, t):
        if t.k == "c":
            return bool(t.a[1])
        if t.k == "not":
            r = self.evalbool(st, t.a[0])
            return None if r is None else not r
        if t.k == "choice":
            try:
                t2 = self.resolve(st, t)
            except Dead:
                return None
            if t2.k != "choice":
                return self.evalbool(st, t2)
            rs = {self.evalbool(st, v) for _, v in t2.a[0]}
            return rs.pop() if len(rs) == 1 else None
        f = st.facts.get(t)
        if f is not None and f[0] == "=":
            return bool(f[1].a[1])
        if t.k == "bin" and t.a[0] == "Eq":
            f = st.facts.get(t.a[1])
            if f is not None and is_const(t.a[2]):
                cv = self.factval(t.a[1], t.a[2])
                if f[0] == "=":
                    return f[1] == cv
                if cv in f[1]:
                    return False
        if t.k == "bin" and t.a[0] in ("BitAnd", "BitOr"):
            x, y = self.evalbool(st, t.a[1]), self.evalbool(st, t.a[2])
            if t.a[0] == "BitAnd":
                if x is False or y is False:
                    return False
                return True if (x and y) else None
            if x or y:
                return True
            return False if (x is False and y is False) else None
        if t.k == "has":
            # has(D,p,k) is monotone: has(k+1) => has(k); has(D, any, _) => has(D,0,0)
            D, p, k = t.a
            if D.k == "call" and D.a[0] in PIECES and p is cint(0) and k == 0:
                return True  # there is always a piece
            for kk, v in st.facts.items():
                if kk.k == "has" and kk.a[0] is D:
                    if kk.a[1] is p:
                        if v[1] is TRUE and kk.a[2] >= k:
                            return True
                        if v[1] is FALSE and kk.a[2] <= k:
                            return False
                    if v[1] is TRUE and p.k == "c" and p.a[1] + k == 0:
                        return True
        if t.k == "bin" and t.a[0] == "Lt" and t.a[1].k == "len" and t.a[2].k == "c":
            if t.a[2].a[1] <= 1:
                r = self.evalbool(st, mk("has", t.a[1].a[0], cint(0), 0))
                if r is True:
                    return False
        return None

    def factval(self, key, const):
        """variant facts are keyed by name"""
        if key.k == "disc" and const.k == "c":
            if const.a[0] == "var":
                return const.a[1][0]
            n = self.name_of(key.a[1], const.a[1])
            if n is not None:
                return n
        return const

    def assume(self, st, t, val):
        """refine st in place; False if contradictory. Callers resolve choices first."""
        if t.k == "not":
            return self.assume(st, t.a[0], not val)
        r = self.evalbool(st, t)
        if r is not None:
            return r == val
        if t.k == "bin" and t.a[0] == "Eq" and is_const(t.a[2]):
            cv = self.factval(t.a[1], t.a[2])
            if t.a[1].k == "disc" and not val:
                f = st.facts.get(t.a[1])
                left = set(self.variants(t.a[1].a[1]) or []) - (f[1] if f else frozenset()) - {cv}
                if len(left) == 1:
                    return self.assume_fact(st, t.a[1], ("=", left.pop()))
            return self.assume_fact(st, t.a[1], ("=", cv) if val else ("!=", frozenset([cv])))
        if t.k == "bin" and t.a[0] == "BitAnd" and val:
            return self.assume(st, t.a[1], True) and self.assume(st, t.a[2], True)
        if t.k == "bin" and t.a[0] == "BitOr" and not val:
            return self.assume(st, t.a[1], False) and self.assume(st, t.a[2], False)
        return self.assume_fact(st, t, ("=", cbool(val)))

    def branch_bool(self, st, t):
        """[(state, bool)] for a boolean term"""
        t = self.resolve(st, t)
        if t.k == "choice":
            out = []
            for s, v in self.split(st, t):
                out.extend(self.branch_bool(s, v))
            return out
        r = self.evalbool(st, t)
        if r is not None:
            return [(st, r)]
        out = []
        for val in (True, False):
            s = st.fork()
            if self.assume(s, t, val):
                out.append((s, val))
        return out

    # variants
    def variants(self, adt):
        a = self.p.adts.get(adt)
        return [v["name"] for v in a["variants"]] if a else None

    def branch_variant(self, st, v, adt, want=None):
        """[(state, value, variant-name|None)]: fork over the variants of v; want=list limits, None = the rest"""
        v = self.resolve(st, v)
        if v.k == "choice":
            out = []
            for s, x in self.split(st, v):
                out.extend(self.branch_variant(s, x, adt, want))
            return out
        if v.k == "agg" and v.a[1] is not None:
            return [(st, v, v.a[1])]
        d = self.discof(v, adt)
        f = st.facts.get(d)
        names = self.variants(adt) or []
        if f is not None and f[0] == "=":
            return [(st, v, f[1])]
        excl = f[1] if f is not None else frozenset()
        cand = [n for n in names if n not in excl]
        out = []
        for n in cand:
            s = st.fork()
            if self.assume_fact(s, d, ("=", n)):
                out.append((s, v, n))
        return out

    def discof(self, v, adt):
        """the term facts about v's variant are keyed by: in-place updates below the variant do not change it"""
        while v.k == "upd":
            if any(not q for q, _ in v.a[1]):
                break
            v = v.a[0]
        return mk("disc", v, adt)

    # ---- memory ---------------------------------------------------------------
    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "S":
            if root[1].k == "c":
                return root[1]
            return mk("at", root[1])
        if root[0] == "K":
            return root[1]
        if root[0] == "L":
            return mk("uninit", str(root[1]), root[2])
        return mk("at", sym(str(root)))

    def read(self, st, root, projs):
        return get(self.root_value(st, root), projs)

    def write(self, st, root, projs, v, span=None):
        for w in self.wlogs:
            w.add((root, tuple(projs)))
        if projs:
            v = put(self.root_value(st, root), projs, v)
        st.mem[root] = v
        if root[0] == "S" and root[1].k == "cell":
            st.add_event(Ev("cellw", "write", (root[1], v), None, span))

    def deref(self, st, v):
        """place denoted by the reference value v"""
        v = self.resolve(st, v)
        if v.k == "choice":
            raise Split(v)
        if v.k == "ref":
            return v.a[0], v.a[1]
        if v.k == "upd":
            # reference-typed field path rewritten; treat as opaque pointer
            return ("S", v), ()
        return ("S", v), ()

    def load(self, st, v):
        """value behind reference value v"""
        r, p = self.deref(st, v)
        return self.read(st, r, p)

    def loadn(self, st, v, ty):
        """value behind all the reference layers of a value of type ty"""
        while True:
            t = self.p.ty(ty)
            if t[0] == "ref":
                v = self.load(st, v)
                ty = t[2]
            elif t[0] == "adt" and t[3] in ("std::boxed::Box", "std::rc::Rc"):
                ty = t[2][0]
            else:
                return v, ty

    # places ----------------------------------------------------------------------
    def place(self, st, fr, pl):
        root = ("L", fr.id, pl[0])
        projs = ()
        for pj in pl[1]:
            k = pj[0]
            if k == "*":
                t = self.p.ty(pj[1])
                if t[0] == "ref" or t[0] == "ptr":
                    v = self.read(st, root, projs)
                    root, projs = self.deref(st, v)
                # Box: transparent
            elif k == "f":
                if isinstance(pj[1], str) and not self.tuple_like(pj[1]):
                    projs = projs + (("f", pj[1]),)
                else:
                    projs = projs + (("f", str(pj[1]) if pj[1] is not None else str(pj[2])),)
            elif k == "v":
                projs = projs + (("v", pj[1]),)
            elif k == "idx":
                i = self.read(st, ("L", fr.id, pj[1]), ())
                i = self.resolve(st, i)
                projs = projs + (("e", self.idx_key(i)),)
            elif k == "cidx":
                if pj[2]:
                    projs = projs + (("last", pj[1]),)
                else:
                    projs = projs + (("e", cint(pj[1])),)
            elif k == "sub":
                projs = projs + (("sub", pj[1], pj[2], pj[3]),)
            else:
                projs = projs + (("other", str(pj)),)
        return root, projs

    def tuple_like(self, s):
        return s.isdigit()

    def idx_key(self, i):
        return i.a[1] if i.k == "idx" else i

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            root, projs = self.place(st, fr, o[1])
            v = self.read(st, root, projs)
            if v.k == "choice":
                v = self.resolve(st, v)
            return v
        return self.const(o[1])

    def const(self, k):
        t = k[0]
        if t == "fn":
            return self.fnval(k[1])
        if t == "int":
            return cint(k[1])
        if t == "bool":
            return cbool(k[1])
        if t == "char":
            return c("char", k[1])
        if t == "str":
            return cstr(k[1])
        if t == "bytes":
            return c("bytes", tuple(k[1]))
        if t == "promoted":
            return self.eval_promoted(k[1], k[2])
        if t == "item":
            return self.eval_item(k[1])
        if t == "zst":
            ty = self.p.ty(k[1])
            if ty[0] == "tuple" and not ty[1]:
                return UNIT
            if ty[0] == "fndef":
                return mk("sym", "fn:" + ty[3])
            if ty[0] == "adt":
                a = self.p.adts.get(ty[1])
                if a and a["kind"].lower() == "struct" and not a["variants"][0]["fields"]:
                    return agg(ty[1], a["variants"][0]["name"], [])
            if ty[0] == "closure":
                return agg("closure:" + ty[1], None, [])
            return mk("zst", self.p.tname(k[1]))
        if t == "static":
            return mk("ref", ("S", sym("static:" + k[1])), ())
        if t == "tyconst" and isinstance(k[1], str) and len(k[1]) >= 2 and k[1][0] == '"' and k[1][-1] == '"':
            return cstr(unescape(k[1][1:-1]))
        return mk("konst", str(k))

    def fnval(self, cd):
        key = cd["path"] + "|" + str(cd.get("res")) + "|" + ",".join(map(str, cd.get("args", [])))
        self.fntab = getattr(self, "fntab", {})
        self.fntab[key] = cd
        return mk("fn", key)

    def eval_promoted(self, path, n):
        key = ("prom", path, n)
        cache = self.__dict__.setdefault("_pc", {})
        if key not in cache:
            b = self.p.bodies[path]
            body = b["promoted"][n]
            cache[key] = self.run_const(path + "::{promoted#%d}" % n, path, body)
        return cache[key]

    def eval_item(self, path):
        cache = self.__dict__.setdefault("_pc", {})
        key = ("item", path)
        if key not in cache:
            b = self.p.bodies.get(path)
            if b is None or b["kind"] not in ("Const", "AssocConst", "InlineConst", "Static", "AnonConst", "Const { }"):
                if b is None or not b["kind"].lower().startswith(("const", "assocconst", "inlineconst", "anonconst")):
                    return mk("konst", path)
            cache[key] = mk("konst", path)
            cache[key] = self.run_const(path, path, b["body"])
        return cache[key]

    def run_const(self, key, path, body):
        st = State({}, {}, None)
        saved, self.wlogs = self.wlogs, []
        fr = Frame(("const", key), key, body, path)
        rs = self.exec_body(fr, st)
        self.wlogs = saved
        if not rs:
            return mk("konst", key)
        s, v = rs[0]
        return self.freeze(s, v)

    def freeze(self, st, v, depth=0):
        """replace references into the frames of a finished constant by references to the values"""
        if depth > 20:
            return v
        if v.k == "ref" and v.a[0][0] == "L":
            return valref(self.freeze(st, self.read(st, v.a[0], v.a[1]), depth + 1))
        if v.k == "agg":
            return agg(v.a[0], v.a[1], [(n, self.freeze(st, x, depth + 1)) for n, x in v.a[2]])
        if v.k == "seq":
            return mk("seq", v.a[0], tuple(self.freeze(st, x, depth + 1) for x in v.a[1]))
        return v

    # rvalues ------------------------------------------------------------------------
    def rvalue(self, st, fr, rv, destty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref" or k == "rawptr":
            pl = rv[2]
            root, projs = self.place(st, fr, pl)
            return ref(root, projs)
        if k == "disc":
            root, projs = self.place(st, fr, rv[1])
            v = self.read(st, root, projs)
            return self.disc_term(st, v, rv[1][2])
        if k == "agg":
            return self.aggregate(st, fr, rv)
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            op = rv[1]
            if op.endswith("WithOverflow"):
                base = op[: -len("WithOverflow")]
                r = self.mkbin(base, a, b)
                if base == "Sub":
                    ov = self.mkbin("Lt", a, b)
                    if ov.k != "c" and a.k == "len" and b.k == "c" and b.a[1] == 1:
                        ov = mk("not", mk("has", a.a[0], cint(0), 0))
                else:
                    ov = FALSE
                return tup(r, ov)
            return self.mkbin(op, a, b)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                return self.mknot(a)
            if rv[1] == "Neg" and a.k == "c":
                return cint(-a.a[1])
            if rv[1] == "PtrMetadata":
                v = self.load(st, a)
                return self.length(v)
            return mk("un", rv[1], a)
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            return a
        if k == "repeat":
            a = self.operand(st, fr, rv[1])
            if isinstance(rv[2], int) and rv[2] <= 16:
                return mk("seq", None, tuple([a] * rv[2]))
            return mk("repeat", a, str(rv[2]))
        if k == "tls":
            return mk("tls", str(rv[1:]))
        return mk("rv", str(rv))

    def length(self, v):
        if v.k == "choice":
            return mkchoice([(g, self.length(x)) for g, x in v.a[0]])
        v = strip_elems(v)
        if v.k == "seq" and v.a[0] is None and not any(x.k == "spread" for x in v.a[1]):
            return cint(len(v.a[1]))
        if v.k == "c" and v.a[0] == "str":
            return cint(len(v.a[1].encode()))
        return mk("len", v)

    def disc_term(self, st, v, ty):
        ty = self.p.strip(ty)
        t = self.p.ty(ty)
        adt = t[1] if t[0] == "adt" else "?"
        return self._disc(st, v, adt)

    def _disc(self, st, v, adt):
        v = self.resolve(st, v)
        if v.k == "choice":
            return mkchoice([(g, self._disc(st, x, adt)) for g, x in v.a[0]])
        if v.k == "agg" and v.a[1] is not None:
            return c("var", (v.a[1], adt))
        return self.discof(v, adt)

    def aggregate(self, st, fr, rv):
        kind, info, ops = rv[1], rv[2], rv[3]
        vs = [self.operand(st, fr, o) for o in ops]
        if kind == "tuple":
            if not vs:
                return UNIT
            return tup(*vs)
        if kind == "array":
            return mk("seq", None, tuple(vs))
        if kind == "closure":
            return agg("closure:" + info, None, [(str(i), v) for i, v in enumerate(vs)])
        if kind == "adt":
            path, variant, names = info[0], info[1], info[2]
            if not names and vs:
                names = [str(i) for i in range(len(vs))]
            return agg(path, variant, list(zip([str(n) for n in names], vs)))
        return mk("aggother", str(info), tuple(vs))

    # ---- liveness ---------------------------------------------------------------
    def liveness(self, fr):
        key = fr.key
        r = self.live.get(key)
        if r is not None:
            return r
        body = fr.body
        cfg = self.p.cfg(key, body)
        taken = set()
        use = []
        defs = []

        def pl_uses(pl, u):
            for pj in pl[1]:
                if pj[0] == "idx":
                    u.add(pj[1])

        def op_uses(o, u, d):
            if o[0] in ("cp", "mv"):
                if o[1][0] not in d:
                    u.add(o[1][0])
                pl_uses(o[1], u)

        for blk in body["blocks"]:
            u, d = set(), set()

            def op(o):
                op_uses(o, u, d)

            def plread(pl):
                if pl[0] not in d:
                    u.add(pl[0])
                pl_uses(pl, u)

            for s in blk[0]:
                if s[0] == "=":
                    rv = s[2]
                    k = rv[0]
                    if k in ("use", "repeat"):
                        op(rv[1])
                    elif k in ("ref", "rawptr"):
                        plread(rv[2])
                        if not any(pj[0] == "*" for pj in rv[2][1]):
                            taken.add(rv[2][0])
                    elif k == "cast":
                        op(rv[2])
                    elif k == "bin":
                        op(rv[2]); op(rv[3])
                    elif k == "un":
                        op(rv[2])
                    elif k == "disc":
                        plread(rv[1])
                    elif k == "agg":
                        for x in rv[3]:
                            op(x)
                    if s[1][1]:
                        plread(s[1])
                    else:
                        d.add(s[1][0])
                elif s[0] == "setdisc":
                    plread(s[1])
            t = blk[1]
            if t[0] == "call":
                op(t[1])
                for x in t[2]:
                    op(x)
                if t[3][1]:
                    plread(t[3])
                else:
                    d.add(t[3][0])
            elif t[0] == "switch":
                op(t[1])
            elif t[0] == "assert":
                op(t[1])
            elif t[0] == "return":
                if 0 not in d:
                    u.add(0)
            use.append(u)
            defs.append(d)
        livein = {b: set(use[b]) for b in cfg["order"]}
        changed = True
        while changed:
            changed = False
            for b in reversed(cfg["order"]):
                out = set()
                for s in cfg["succ"][b]:
                    out |= livein.get(s, set())
                n = use[b] | (out - defs[b])
                if n != livein[b]:
                    livein[b] = n
                    changed = True
        # a borrowed local stays live everywhere it may be reached through a reference: keep it throughout
        r = {b: livein[b] | taken for b in livein}
        self.live[key] = r
        return r

    # ---- merging -----------------------------------------------------------------
    def merge(self, states):
        """join states that share their trace"""
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            groups.setdefault(id(s.events) if s.events else 0, []).append(s)
        out = []
        for g in groups.values():
            out.append(g[0] if len(g) == 1 else self.join(g))
        return out

    def join(self, g):
        common = {}
        for k, v in g[0].facts.items():
            vs = [v]
            for s in g[1:]:
                o = s.facts.get(k)
                if o is None:
                    break
                vs.append(o)
            else:
                u = vs[0] if all(x == v for x in vs) else self.unionval(k, vs)
                if u is not None and u is not True:
                    common[k] = u
        guards = self.guards_of(g, common)
        pc = NO
        for s in g:
            pc = disj(pc, s.pc)
        roots = set()
        for s in g:
            roots.update(s.mem)
        mem = {}
        for r in roots:
            vals = [self.root_value(s, r) for s in g]
            v0 = vals[0]
            if all(v is v0 for v in vals):
                mem[r] = v0
            else:
                mem[r] = joinvals(guards, vals)
        return State(mem, common, g[0].events, pc)

    def guards_of(self, g, common):
        """per state the condition (beyond `common`) it stands for"""
        return [self.rel(s.pc, common) for s in g]

    def unionval(self, k, vs):
        """fact value describing the union of several; True = everything"""
        eqs = {v[1] for v in vs if v[0] == "="}
        nes = [v[1] for v in vs if v[0] == "!="]
        if nes:
            ex = frozenset.intersection(*nes) - eqs
            return ("!=", ex) if ex else True
        if eqs <= {TRUE, FALSE}:
            return True if len(eqs) == 2 else ("=", next(iter(eqs)))
        if k.k == "disc":
            names = self.variants(k.a[1])
            if names:
                rest = frozenset(names) - eqs
                return ("!=", rest) if rest else True
        return None

    # ---- execution of one body -----------------------------------------------------
    def exec_body(self, fr, st):
        """[(state, return value)]"""
        self.p.cfg(fr.key, fr.body)
        res = self.region(fr, None, {0: [st]}, None)
        rets = []
        if isinstance(fr.id, tuple) and fr.id[0] == "const":
            return [(s, self.root_value(s, ("L", fr.id, 0))) for s in res["ret"]]
        for s in res["ret"]:
            for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.id and r[2] != 0]:
                del s.mem[r]
        for s in self.merge(res["ret"]):
            v = self.root_value(s, ("L", fr.id, 0))
            rets.append((s, v))
        # group by events again and join return values
        for s, v in rets:
            for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.id]:
                del s.mem[r]
        return rets

    def region(self, fr, blocks, start, header):
        """worklist over a region (None = whole body). header: loop header whose back edges end the region"""
        cfg = self.p.cfg(fr.key, fr.body)
        live = self.liveness(fr)
        rpo = cfg["rpo"]
        pend = {b: list(ss) for b, ss in start.items()}
        first = header is not None
        out = {"ret": [], "back": [], "exit": {}}
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            states = pend.pop(b)
            lv = live[b]
            for s in states:
                for r in [r for r in s.mem if r[0] == "L" and r[1] == fr.id and r[2] not in lv]:
                    del s.mem[r]
            states = self.merge(states)
            if len(states) > MAXSTATES:
                raise RuntimeError("state explosion in %s bb%s" % (fr.key, b))
            if b in cfg["loops"] and not (first and b == header):
                for s in states:
                    res = self.loop(fr, b, cfg["loops"][b], s)
                    out["ret"].extend(res["ret"])
                    for tgt, ss in res["exit"].items():
                        self.route(out, pend, blocks, header, tgt, ss)
                continue
            first = False
            for s in states:
                for tgt, s2 in self.block(fr, b, s):
                    if tgt == "ret":
                        out["ret"].append(s2)
                    else:
                        self.route(out, pend, blocks, header, tgt, [s2])
        return out

    def route(self, out, pend, blocks, header, tgt, ss):
        if header is not None and tgt == header:
            out["back"].extend(ss)
        elif blocks is not None and tgt not in blocks:
            out["exit"].setdefault(tgt, []).extend(ss)
        else:
            pend.setdefault(tgt, []).extend(ss)

    # ---- loops ----------------------------------------------------------------------
    def loop(self, fr, h, blocks, st):
        uid = self.uid("loop", fr.id, h)
        n0 = len(self.hasforks)
        # concrete unrolling while the loop control is determined
        cur = [st]
        exits = {"ret": [], "exit": {}}
        ic = self.ictx
        try:
            for i in range(200):
                n1 = len(self.hasforks)
                self.ictx = ic + (("it", uid, i),)
                n2 = len(self.fixednexts)
                res = self.region(fr, blocks, {h: [x.fork() for x in cur]}, h)
                sy = any(x[0] == fr.id and x[1] in blocks for x in self.hasforks[n1:])
                # driven by a list of known length: bounded, whatever else the body decides
                listed = i < 16 and any(x[0] == fr.id and x[1] in blocks for x in self.fixednexts[n2:])
                nex = sum(len(v) for v in res["exit"].values())
                if sy or (nex and res["back"] and not listed):
                    break
                for t, ss in res["exit"].items():
                    exits["exit"].setdefault(t, []).extend(ss)
                exits["ret"].extend(res["ret"])
                backs = self.merge(res["back"])
                if not backs:
                    return exits
                if len(backs) > (8 if listed else 1):
                    break
                cur = backs
        finally:
            self.ictx = ic

        def body(s):
            res = self.region(fr, blocks, {h: [s]}, h)
            return res["back"], [(("ret", None), x) for x in res["ret"]] + [(("exit", t), x) for t, ss in res["exit"].items() for x in ss]

        outs = self.fixloop(uid, st, body, self.span_of(fr, h))
        r = {"ret": [], "exit": {}}
        for (k, t), s in outs:
            if k == "ret":
                r["ret"].append(s)
            else:
                r["exit"].setdefault(t, []).append(s)
        return r

    def accumulated(self, phis, iters, pcs, loc=lambda g: g):
        """the lists a loop does nothing but push to, one element at most per element (maps: to insert into): (phi, list iterated, position, yields, kind)"""
        pos = [t for t, (_, _, e) in phis.items() if e is cint(0) and iters and all(it.updates.get(t) is mk("bin", "Add", t, cint(1)) for it in iters)]
        if len(pos) != 1:
            return
        p = pos[0]
        doms = {k.a[0] for it in iters for k in it.facts if k.k == "has" and k.a[1] is p and k.a[2] == 0}
        if len(doms) != 1:
            return
        D = doms.pop()
        others = set(phis) - {p}
        if any(z in phis for z in subterms(D)):
            return
        m = {p: sym("$e")}
        got = []
        for t in others:
            ys, skips, kinds = set(), False, set()
            for it, pc in zip(iters, pcs):
                u = it.updates.get(t, t)
                for g, v in (u.a[0] if u.k == "choice" else ((conds.YES, u),)):
                    g = loc(conds.conj(pc, g))
                    if g is conds.NO:
                        continue
                    if v is t:
                        skips = True
                        continue
                    if v.k == "call" and v.a[0] == "map_insert" and v.a[1][0] is t:
                        kinds.add("map")
                        new = tup(v.a[1][1], v.a[1][2])
                    elif v.k == "seq" and v.a[0] is t and len(v.a[1]) == 1 and v.a[1][0].k != "spread":
                        kinds.add("vec")
                        new = v.a[1][0]
                    else:
                        return
                    g = conds.drop(g, lambda k: k.k == "has" and k.a[1] is p and k.a[2] == 0)
                    if any(z in others for z in subterms(new)) or any(z in others for k in conds.support(g) for z in subterms(k)):
                        return
                    ys.add((subst_cond(g, m), subst(new, m)))
            if len(kinds) != 1:
                return
            got.append((t, D, p, mk("yields", frozenset(ys), skips), kinds.pop()))
        yield from got

    def in_step(self, phis, ups):
        """counters that go up by one in every round, like the position of the loop's iterator"""
        up = [t for t in phis if ups and all(u.get(t) is mk("bin", "Add", t, cint(1)) for u in ups)]
        pos = [t for t in up if self.is_pos(t) and phis[t][2].k == "c"]
        if len(pos) != 1:
            return {}
        p = pos[0]
        out = {}
        for t in up:
            e = phis[t][2]
            if t is not p and e.k == "c" and e.a[0] == "int":
                d = e.a[1] - phis[p][2].a[1]
                out[phis[t][:2]] = self.mkbin("Add", p, cint(d)) if d > 0 else self.mkbin("Sub", p, cint(-d)) if d else p
        return out

    def span_of(self, fr, b):
        blk = fr.body["blocks"][b]
        return blk[1][-1]

    def fixloop(self, uid, st, body, span, dom=None):
        """body(state) -> (back states, [(tag, exit state)]).  Returns [(tag, state)] with a loop event."""
        W = set()
        counters = {}  # (root, path) -> value: counted up in step with the loop's iterator
        whole = set()  # written as a whole, not only element by element
        before = len(self.panics)
        for rnd in range(24):
            s = st.fork()
            marker = s.events
            phis = {}
            for (root, path), v in counters.items():
                s.mem[root] = put(self.root_value(s, root), path, v) if path else v
            for root, path in sorted(W - set(counters), key=lambda x: (str(x[0][0]), str(x[0][1:]), str(x[1]))):
                entry = self.read(st, root, path)
                t = mk("phi", uid, root, path)
                ELEMS[t] = t if (root, path) in whole else strip_elems(entry)
                phis[t] = (root, path, entry)
                s.mem[root] = put(self.root_value(s, root), path, t) if path else t
            base_facts = dict(s.facts)
            log = set()
            self.wlogs.append(log)
            del self.panics[before:]  # what earlier rounds saw is seen again by this one
            try:
                backs, exits = body(s)
            finally:
                self.wlogs.pop()
            new, known = set(), set(whole)
            for root, path in log:
                if root[0] == "L" and root not in st.mem:
                    continue
                full = path
                path = cut_path(path)
                if mentions_uid(root, path, uid):
                    continue
                up = [p for r, p in W if r == root and path[: len(p)] == p]
                for p in up or [path]:
                    if len(full) == len(p) or full[len(p)][0] not in ("e", "last", "sub"):
                        whole.add((root, p))
                if not up:
                    new.add((root, path))
            # drop nested paths
            if not new and known == whole:
                if not counters:
                    counters = self.in_step(phis, [{t: self.resolve_deep(b, self.read(b, r, p)) for t, (r, p, _) in phis.items()} for b in backs])
                    if counters:
                        continue
                break
            W |= new
            top = {(r, p) for r, p in W if not any(r == r2 and p != p2 and p[: len(p2)] == p2 for r2, p2 in W)}
            whole |= {(r, p) for r, p in top if any(r == r2 and p != p2 and p2[: len(p)] == p and (len(p2) == len(p) or p2[len(p)][0] not in ("e", "last", "sub")) for r2, p2 in W)}
            W = top
        else:
            raise RuntimeError("loop fixpoint did not stabilise")
        iters = []
        for b in backs:
            d = {k: v for k, v in b.facts.items() if base_facts.get(k) != v}
            ups = {t: self.resolve_deep(b, self.read(b, root, path)) for t, (root, path, _) in phis.items()}
            iters.append(Iteration(d, ev_list(b.events, marker), ups, "cont", pc=self.rel(b.pc, base_facts)))
        silent = all(not it.events for it in iters) and all(self.is_pos(t) or ("pos" in str(t.a[2][-1:])) for t in phis)
        ev = Ev("loop", "loop", (), uid, span, {"iters": iters, "phis": phis, "entry": st, "exits": [], "exitpcs": [self.rel(x.pc, base_facts) for _, x in exits]})
        keep = (not silent) or any(x.events for x in iters)
        outs = []
        posphis = [t for t in phis if t.a[2] and t.a[2][-1] == ("f", "pos")]
        exists = []
        if silent and posphis:
            m = {t: sym("$e") for t in posphis}
            for tag, x in exits:
                d = {k: v for k, v in x.facts.items() if base_facts.get(k) != v}
                hs = [k for k, v in d.items() if k.k == "has" and any(k.a[1] is t for t in posphis) and k.a[2] == 0]
                if any(d[k][1] is TRUE for k in hs):
                    F = self.local(x.pc, st.pc, base_facts)
                    for k in hs:
                        F = under(F, k, d[k])
                    F = conds.drop(F, lambda k: k.k == "has" and any(k.a[1] is t for t in posphis))
                    F = subst_cond(F, m)
                    D = hs[0].a[0]
                    exists.append((tag, x, mk("exists", D, F)))
        # the loop event carries the trace; order: before-loop events, loop, then the last partial iteration
        if keep:
            newmark = Cons(ev, marker)
        else:
            newmark = marker
        allexh = all(any(k.k == "has" and v[1] is FALSE and k.a[1] in phis for k, v in x.facts.items()) for _, x in exits) or (silent and exists)
        if all(not it.events for it in iters):
            for t, D, p, y, kind in self.accumulated(phis, iters, [self.local(b.pc, st.pc, base_facts) for b in backs], lambda g: self.local(g, st.pc, base_facts)):
                root, path, entry = phis[t]
                k = mk("has", D, p, 0)
                for tag, x in exits:
                    if x.facts.get(k) == ("=", FALSE) and root in x.mem and self.read(x, root, path) is t:
                        from models import finish, seqcat

                        got = finish(self, x, y, D, kind, None)
                        if kind == "map":
                            if not (entry.k == "call" and entry.a[0] == "map_from" and entry.a[1][0].k == "seq" and entry.a[1][0].a[0] is None and not entry.a[1][0].a[1]):
                                got = call("map_extend", (entry, got))
                        elif not (entry.k == "seq" and entry.a[0] is None and not entry.a[1]):
                            got = seqcat(entry, got)
                        x.mem[root] = put(self.root_value(x, root), path, got) if path else got
        for tag, x in exits:
            evs = ev_list(x.events, marker)
            n = newmark
            for e in evs:
                n = Cons(e, n)
            x.events = n
            mine = [k for t2, y, k in exists if y is x]
            if silent and posphis:
                if mine:
                    for k in mine:
                        self.assume_fact(x, k, ("=", TRUE))
                else:
                    hs = [k for k, v in x.facts.items() if k.k == "has" and any(k.a[1] is t for t in posphis) and v[1] is FALSE and base_facts.get(k) is None]
                    if hs:
                        for _, _, k in exists:
                            self.assume_fact(x, k, ("=", FALSE))
            ev.extra["exits"].append((tag, {k: v for k, v in x.facts.items() if base_facts.get(k) != v}, evs))
            for k in [k for k, v in x.facts.items() if k.k == "has" and v[1] is FALSE and k.a[1] in phis]:
                if base_facts.get(k) is None and allexh:
                    x.pc = under(x.pc, k, ("=", FALSE))
                    del x.facts[k]  # exhaustion of the loop is no condition on the input
            outs.append((tag, x))
        self.loop_events[uid] = ev
        return outs

    # ---- blocks ------------------------------------------------------------------------
    def block(self, fr, b, st):
        """[(target block or 'ret', state)]"""
        blk = fr.body["blocks"][b]
        work = [(st, 0)]
        out = []
        while work:
            s, i = work.pop()
            try:
                while i < len(blk[0]):
                    self.stmt(s, fr, blk[0][i])
                    i += 1
                keep = s.fork() if blk[1][0] == "call" else s
                out.extend(self.term(s, fr, b, blk[1]))
            except Split as e:
                if i >= len(blk[0]):
                    s = keep
                for s2, _ in self.split(s, e.term):
                    work.append((s2, i))
            except Dead:
                pass
        return out

    def stmt(self, st, fr, s):
        self.steps += 1
        if s[0] == "=":
            v = self.rvalue(st, fr, s[2], s[1][2])
            root, projs = self.place(st, fr, s[1])
            self.write(st, root, projs, v, s[3])
        elif s[0] == "setdisc":
            root, projs = self.place(st, fr, s[1])
            self.write(st, root, projs, mk("setdisc", self.read(st, root, projs), s[2]), s[3])

    def term(self, st, fr, b, t):
        k = t[0]
        self.steps += 1
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "switch":
            v = self.operand(st, fr, t[1])
            return self.switch(st, fr, v, t[2], t[3], t[4])
        if k == "assert":
            v = self.operand(st, fr, t[1])
            out = []
            if str(t[3]).startswith("overflow:"):
                r = self.in_range(st, fr, t)
                if r:
                    return [(t[4], st)]
                if r is False:
                    self.panic(st, fr, "assert:" + str(t[3]), t[-1], v)
            for s, val in self.branch_bool(st, v):
                if val == t[2]:
                    out.append((t[4], s))
                else:
                    self.panic(s, fr, "assert:" + str(t[3]), t[-1], v)
            return out
        if k == "call":
            return self.callterm(st, fr, b, t)
        if k == "unreachable":
            return []
        return []

    def in_range(self, st, fr, t):
        """the checked operation cannot overflow (None: decided by the flag)"""
        op = t[3].split(":")[1]
        tn = None
        for o in t[5]:
            if o[0] in ("cp", "mv"):
                tn = self.p.tname(o[1][2])
        if op == "Sub" and tn and tn[0] == "u":
            a, b = [self.resolve(st, self.operand(st, fr, ["cp"] + o[1:] if o[0] == "mv" else o)) for o in t[5]]
            return self.at_least(st, a, b) or None
        # counts of things that are in memory: they do not exceed 32 bits (rustc limits sources to 4 GiB)
        if op == "Add":
            return tn not in ("u8", "u16", "i8", "i16")
        if op == "Mul":
            return any(o[0] == "k" for o in t[5]) and tn not in ("u8", "u16", "u32", "i8", "i16", "i32")
        if op in ("Shl", "Shr"):
            return t[5][-1][0] == "k"
        return tn is not None and tn[0] == "i" and tn not in ("i8", "i16")

    def at_least(self, st, a, b):
        """a >= b is known"""
        if a.k == "choice":
            return all(g is None or self.at_least(st, v, b) for g, v in a.a[0])
        if b.k == "choice":
            return all(self.at_least(st, a, v) for g, v in b.a[0])
        if a is b or b is cint(0):
            return True
        if a.k == "c" and b.k == "c":
            return a.a[1] >= b.a[1]
        if b.k == "bin" and b.a[0] in ("Div", "Rem", "Shr") and b.a[1] is a:
            return True
        if b.k == "call" and b.a[0].split("::")[-1] == "min" and a in b.a[1]:
            return True
        if a.k == "call" and a.a[0].split("::")[-1] == "max" and any(self.at_least(st, x, b) for x in a.a[1]):
            return True
        if a.k == "bin" and a.a[0] == "Add" and any(self.at_least(st, x, b) for x in a.a[1:3]):
            return True
        f = st.facts.get(a)
        if f is not None and b.k == "c":
            if f[0] == "=" and isinstance(f[1], T) and f[1].k == "c" and f[1].a[1] >= b.a[1]:
                return True
            if f[0] == "!=" and all(cint(n) in f[1] for n in range(b.a[1])):
                return True
        for k, v in self.truths(st):
            if k.k == "has" and a.k == "len" and v and b.k == "c" and k.a[0] is a.a[0]:
                if k.a[2] + 1 + (k.a[1].a[1] if k.a[1].k == "c" else 0) >= b.a[1]:
                    return True
            if k.k == "bin" and k.a[0] in ("Lt", "Le", "Gt", "Ge"):
                op, x, y = k.a
                if not v:
                    op = {"Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}[op]
                if op in ("Lt", "Le"):
                    op, x, y = {"Lt": "Gt", "Le": "Ge"}[op], y, x
                # x > y or x >= y
                if x is a:
                    if y is b:
                        return True
                    if y.k == "c" and b.k == "c" and y.a[1] + (1 if op == "Gt" else 0) >= b.a[1]:
                        return True
            if k.k == "bin" and k.a[0] == "Eq" and not v and k.a[1] is a and k.a[2] is cint(0) and b.k == "c" and b.a[1] <= 1:
                return True
        return False

    @staticmethod
    def truths(st):
        """the boolean facts of a state"""
        for k, f in st.facts.items():
            if f[0] == "=" and f[1] in (TRUE, FALSE):
                v = f[1] is TRUE
                while k.k == "not":
                    k, v = k.a[0], not v
                yield k, v

    def panic(self, st, fr, kind, span, info=None):
        if self.opts.get("const"):
            return
        self.panics.append((kind, span, info, dict(st.facts), fr.path, tuple(self.callstack)))

    def switch(self, st, fr, v, targets, otherwise, ty):
        v = self.resolve(st, v)
        if v.k == "choice":
            out = []
            for s, x in self.split(st, v):
                out.extend(self.switch(s, fr, x, targets, otherwise, ty))
            return out
        if v.k == "c":
            if v.a[0] == "var":
                name, adt = v.a[1]
                d = self.discr_of(adt, name)
                for val, bb in targets:
                    if val == d:
                        return [(bb, st)]
                return [(otherwise, st)]
            x = v.a[1]
            if v.a[0] == "char":
                x = ord(x) if isinstance(x, str) else x
            if v.a[0] == "bool":
                x = int(x)
            for val, bb in targets:
                if val == x:
                    return [(bb, st)]
            return [(otherwise, st)]
        tname = self.p.ty(ty)
        if tname == ["prim", "bool"] or v.k in ("not", "bin", "has") and (v.k != "bin" or v.a[0] in ("Eq", "Lt", "Le", "Gt", "Ge", "BitAnd", "BitOr")):
            out = []
            for s, val in self.branch_bool(st, v):
                hit = None
                for tv, bb in targets:
                    if tv == int(val):
                        hit = bb
                out.append((hit if hit is not None else otherwise, s))
            return out
        if v.k == "disc":
            adt = v.a[1]
            out = []
            named = []
            names = self.variants(adt) or []
            f = st.facts.get(v)
            for tv, bb in targets:
                n = self.name_of(adt, tv)
                named.append(n)
                if n is None:
                    continue
                s = st.fork()
                if self.assume_fact(s, v, ("=", n)):
                    out.append((bb, s))
            rest = [n for n in names if n not in named]
            if otherwise is not None and rest:
                if f is None or f[0] == "!=":
                    excl = f[1] if f else frozenset()
                    rest = [n for n in rest if n not in excl]
                    if len(rest) == 1:
                        s = st.fork()
                        if self.assume_fact(s, v, ("=", rest[0])):
                            out.append((otherwise, s))
                    elif rest:
                        s = st.fork()
                        if self.assume_fact(s, v, ("!=", frozenset(named))):
                            out.append((otherwise, s))
                elif f[1] in rest:
                    out.append((otherwise, st))
            elif otherwise is not None and not names:
                out.append((otherwise, st.fork()))
            return out
        # integers / chars
        out = []
        ischar = tname == ["prim", "char"]
        vals = []
        for tv, bb in targets:
            cv = c("char", chr(tv)) if ischar else cint(tv)
            vals.append(cv)
            s = st.fork()
            if self.assume_fact(s, v, ("=", cv)):
                out.append((bb, s))
        s = st.fork()
        if self.assume_fact(s, v, ("!=", frozenset(vals))):
            out.append((otherwise, s))
        return out

    def discr_of(self, adt, name):
        for i, v in enumerate(self.p.adts[adt]["variants"]):
            if v["name"] == name:
                return v["discr"] if v.get("discr") is not None else i
        return None

    def name_of(self, adt, d):
        a = self.p.adts.get(adt)
        if not a:
            return None
        for i, v in enumerate(a["variants"]):
            if (v["discr"] if v.get("discr") is not None else i) == d:
                return v["name"]
        return None

    # ---- calls -----------------------------------------------------------------------------
    def callterm(self, st, fr, b, t):
        f = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        dest, target, span = t[3], t[4], t[-1]
        ctx = CallCtx(self, fr, b, span, dest[2], [self.opty(fr, o) for o in t[2]])
        if f[0] == "k" and f[1][0] == "fn":
            rs = self.call(st, f[1][1], args, ctx)
        else:
            fv = self.operand(st, fr, f)
            rs = self.call_value(st, fv, args, ctx)
        out = []
        groups = []
        for s, v in rs:
            if target is None:
                continue
            if self.opts.get("outcomes") and v.k == "call" and self.p.tname(dest[2]).startswith(("core::result::Result<", "std::result::Result<")):
                s.add_event(Ev("res", v.a[0], (v,), None, span))
            root, projs = self.place(s, fr, dest)
            self.write(s, root, projs, v, span)
            groups.append(s)
        if target is None:
            # a library function that does not return
            for s, _ in rs:
                self.panic(s, fr, "diverges", span, None)
            return []
        for s in self.merge(groups):
            out.append((target, s))
        return out

    def opty(self, fr, o):
        if o[0] in ("cp", "mv"):
            return o[1][2]
        k = o[1]
        if k[0] in ("zst", "ptr"):
            return k[1]
        if k[0] == "int":
            return k[2]
        if k[0] in ("promoted", "item", "static"):
            return k[3]
        return None

    def call(self, st, cd, args, ctx):
        """dispatch a call: cut role, model, local body, or opaque"""
        self.sites += 1
        tgt = self.p.local_target(cd)
        if tgt in self.cuts:
            return self.cuts[tgt](self, st, cd, args, ctx, tgt)
        if "::{constructor#" in cd["path"]:
            full = cd["path"].split("::{constructor#")[0]
            adt, variant = full.rsplit("::", 1)
            if adt in self.p.adts:
                return [(st, agg(adt, variant, [(str(i), a) for i, a in enumerate(args)]))]
            if full in self.p.adts:
                return [(st, agg(full, self.p.adts[full]["variants"][0]["name"], [(str(i), a) for i, a in enumerate(args)]))]
        self.models.panics(self, st, cd, args, ctx)
        m = self.models.find(cd, tgt, self)
        if m is not None:
            r = m(self, st, cd, args, ctx)
            if r is not None:
                return r
        if tgt is not None and tgt in self.p.bodies:
            return self.inline(st, tgt, args, ctx)
        return self.opaque(st, cd.get("res_nice") or cd["nice"], args, ctx, known=False)

    def call_value(self, st, fv, args, ctx):
        fv = self.resolve(st, fv)
        if fv.k == "choice":
            out = []
            for s, v in self.split(st, fv):
                out.extend(self.call_value(s, v, args, ctx))
            return out
        if fv.k == "ref":
            return self.call_value(st, self.load(st, fv), args, ctx)
        if fv.k == "fn":
            return self.call(st, self.fntab[fv.a[0]], args, ctx.sub("fv", argtys=[None] * len(args)))
        if fv.k == "agg" and fv.a[0].startswith("closure:"):
            return self.inline_closure(st, fv, args, ctx)
        if fv.k == "ctor":
            return [(st, agg(fv.a[0], fv.a[1], [(str(i), a) for i, a in enumerate(args)]))]
        return self.opaque(st, "call:" + show(fv), args, ctx, known=False)

    def inline_closure(self, st, fv, args, ctx):
        path = fv.a[0][len("closure:"):]
        b = self.p.bodies[path]
        selfty = self.p.ty(b["body"]["locals"][1][0])
        if selfty[0] == "ref":
            root = ("L", ctx.fresh("env"), path)
            st.mem[root] = fv
            a0 = ref(root)
        else:
            a0 = fv
        return self.inline(st, path, [a0] + list(args), ctx)

    def inline(self, st, path, args, ctx):
        if path in self.callstack or len(self.callstack) > 40:
            self.recursions.add(path)
            return self.opaque(st, "rec:" + path, args, ctx, known=True, event="rec")
        b = self.p.bodies[path]
        self.inlined.add(path)
        fid = self.uid("frame", ctx.fr.id, ctx.key, path)
        fr = Frame(fid, path, b["body"], path)
        saved = {r: v for r, v in st.mem.items() if r[0] == "L" and r[1] == fid}
        for r in saved:
            del st.mem[r]
        n = b["body"]["argc"]
        if len(args) != n:
            # spread tuple argument (FnOnce::call_once with tuple)
            return self.opaque(st, "arity:" + path, args, ctx, known=False)
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        self.callstack.append(path)
        try:
            return [(s, self.collapse(v)) for s, v in self.exec_body(fr, st)]
        finally:
            self.callstack.pop()

    def collapse(self, v):
        """a returned choice `V_i of B => reference into variant V_i` over most variants of B, each with the same path
        below, is one reference into the active variant"""
        if v.k != "choice" or len(v.a[0]) < 8:
            return v
        groups = {}
        for g, x in v.a[0]:
            for k, f in definite(g).items():
                if k.k == "disc" and f[0] == "=":
                    y = self.star(x, f[1])
                    if y is not None:
                        groups.setdefault((k, y), []).append((g, x))
                        break
        for (k, y), members in groups.items():
            if len(members) < 8:
                continue
            drop = set(members)
            v = mkchoice([((g, y) if (g, x) in drop else (g, x)) for g, x in v.a[0]])
            if v.k != "choice":
                break
        return v

    def star(self, x, name):
        if x.k == "agg":
            out = []
            hit = False
            for n, y in x.a[2]:
                z = self.star(y, name)
                hit = hit or z is not None
                out.append((n, z if z is not None else y))
            return agg(x.a[0], x.a[1], out) if hit else None
        if x.k == "ref":
            ps = x.a[1]
            for i, p in enumerate(ps):
                if p == ("v", name):
                    return mk("ref", x.a[0], ps[:i] + (("v", "*"),) + ps[i + 1:])
        return None

    def snapshot(self, st, v, depth=0):
        """value of an argument with references replaced by what they point at"""
        if depth > 12:
            return v
        if v.k == "ref":
            return self.snapshot(st, self.read(st, v.a[0], v.a[1]), depth + 1)
        if v.k == "choice":
            return mkchoice([(g, self.snapshot(st, x, depth + 1)) for g, x in v.a[0]])
        if v.k == "agg" and not v.a[0].startswith("closure:"):
            return agg(v.a[0], v.a[1], [(n, self.snapshot(st, x, depth + 1)) for n, x in v.a[2]])
        if ("S", v) in st.mem:
            return self.snapshot(st, st.mem[("S", v)], depth + 1)
        if v.k == "seq" and any(True for x in v.a[1]):
            return mk("seq", v.a[0], tuple(self.snapshot(st, x, depth + 1) for x in v.a[1]))
        return v

    def opaque(self, st, name, args, ctx, known=True, event=None, pure=None, uid=False):
        muts = []
        for i, (a, ty) in enumerate(zip(args, ctx.argtys + [None] * len(args))):
            if ty is not None:
                t = self.p.ty(ty)
                if t[0] == "ref" and t[1]:
                    muts.append(i)
            if a.k == "agg" and a.a[0].startswith("closure:"):
                known = False
        if not known:
            self.unmodelled.setdefault(name, set()).add(ctx.span)
        sargs = tuple(self.snapshot(st, a) for a in args)
        if pure is None:
            pure = not muts
        # the same call site reached for another part of the tree (or-patterns) is another visit
        where = tuple(self.deref(st, args[i]) for i in muts) if event else ()
        u = self.uid("call", ctx.fr.id, ctx.key, name, *([where] if where else [])) if (not pure or uid) else None
        r = call(name, sargs, u)
        if event:
            st.add_event(Ev(event, name, sargs, u, ctx.span))
        for i in muts:
            root, projs = self.deref(st, args[i])
            self.write(st, root, projs, mk("out", u, i, name), ctx.span)
        return [(st, r)]


def unescape(s):
    """Rust Debug escapes of a string literal"""
    out, i = [], 0
    while i < len(s):
        ch = s[i]
        if ch == "\\" and i + 1 < len(s):
            n = s[i + 1]
            if n == "u" and i + 2 < len(s) and s[i + 2] == "{":
                j = s.index("}", i)
                out.append(chr(int(s[i + 3:j], 16)))
                i = j + 1
                continue
            out.append({"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(n, n))
            i += 2
            continue
        out.append(ch)
        i += 1
    return "".join(out)


class Frame:
    __slots__ = ("id", "key", "body", "path")

    def __init__(self, id, key, body, path):
        self.id, self.key, self.body, self.path = id, key, body, path


class CallCtx:
    """where a call happens; `sub` derives distinct sites for the calls a model makes itself"""

    def __init__(self, eng, fr, b, span, destty, argtys, key=None):
        self.eng, self.fr, self.b, self.span, self.destty, self.argtys = eng, fr, b, span, destty, argtys
        self.key = key if key is not None else b

    def sub(self, tag, argtys=None, destty=None):
        return CallCtx(self.eng, self.fr, self.b, self.span, destty if destty is not None else self.destty, argtys if argtys is not None else self.argtys, (self.key, tag))

    def fresh(self, tag):
        return self.eng.uid("tmp", self.fr.id, self.key, tag)

    def uid(self, tag=""):
        return self.eng.uid("site", self.fr.id, self.key, tag)


def cut_path(path):
    out = []
    for p in path:
        if p[0] in ("e", "last", "sub"):
            break
        out.append(p)
    return tuple(out)


def mentions_uid(root, path, uid):
    if root[0] in ("S", "K"):
        return any(x.k == "phi" and x.a[0] == uid for x in subterms(root[1]))
    return False


def joinvals(guards, vals):
    """structure-preserving join: same-shaped aggregates are joined field by field"""
    v0 = vals[0]
    if all(v is v0 for v in vals):
        return v0
    if v0.k == "agg" and all(v.k == "agg" and v.a[0] == v0.a[0] and v.a[1] == v0.a[1] and len(v.a[2]) == len(v0.a[2]) and [n for n, _ in v.a[2]] == [n for n, _ in v0.a[2]] for v in vals):
        return agg(v0.a[0], v0.a[1], [(n, joinvals(guards, [v.a[2][i][1] for v in vals])) for i, (n, _) in enumerate(v0.a[2])])
    if v0.k == "upd" and all(v.k == "upd" and v.a[0] is v0.a[0] and [q for q, _ in v.a[1]] == [q for q, _ in v0.a[1]] for v in vals):
        return mk("upd", v0.a[0], tuple((q, joinvals(guards, [v.a[1][i][1] for v in vals])) for i, (q, _) in enumerate(v0.a[1])))
    return mkchoice(list(zip(guards, vals)))
