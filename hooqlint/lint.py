"""Shared by the rules: roles (which function plays which part), cached analyses, obligations and reports."""
import time

import build
import conds
import models
from conds import G, YES, NO, conj, disj, neg, lit
from engine import Engine, Ev, Frame, State
from program import Program
from terms import *


class Anchor(Exception):
    """something the rule is anchored to is gone: the property cannot be established"""


class Checker:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obligations = []      # (rule, instance, ok)
        self.failures = []         # (key, message)
        self.notes = {}
        self.sites = {}

    def ob(self, rule, instance, good, msg="", key=None):
        self.obligations.append((rule, str(instance), bool(good)))
        if not good:
            self.failures.append((key or "%s:%s" % (rule, instance), "%s [%s] %s" % (rule, instance, msg)))
        return good

    def floor(self, what, n, least):
        self.notes[what] = n
        self.ob("floor", what, n >= least, "analysed %d %s, expected at least %d" % (n, what, least))

    def note(self, k, v):
        self.notes[k] = v


def sig(b, p):
    return [p.tname(x) for x in b.get("inputs", [])], p.tname(b["output"]) if b.get("output") is not None else None


def is_res(s):
    return s is not None and s.startswith(("std::result::Result<", "syn::Result<", "core::result::Result<"))


class Analysis:
    def __init__(self, config="default", crate="hooq_macros"):
        self.config = config
        self.dir = build.dump(config) if not isinstance(config, Analysis) else None
        self.p = Program("%s/%s.json" % (self.dir, crate))
        self.cache = {}
        self.engines = []
        self.roles = {}
        self._roles()

    def sibling(self, crate):
        return Program("%s/%s.json" % (self.dir, crate))

    # ---- roles -----------------------------------------------------------------
    def fns(self):
        for k, b in self.p.bodies.items():
            if b["kind"] in ("Fn", "AssocFn") and not b.get("derived") and "::tests::" not in k and "::test::" not in k:
                yield k, b

    def callees(self, path):
        """local functions referenced in a body and its closures"""
        out = set()

        def scan(x):
            if isinstance(x, dict):
                for f in ("res", "path"):
                    if x.get(f) in self.p.bodies:
                        out.add(x[f])
                        break
                for v in x.values():
                    scan(v)
            elif isinstance(x, list):
                for y in x:
                    scan(y)

        c = self.cache.setdefault("callees", {})
        if path not in c:
            b = self.p.bodies[path]
            scan(b["body"])
            scan(b.get("promoted"))
            for k2 in self.p.bodies:
                if k2.startswith(path + "::{closure#") and k2[len(path) + 2:].count("::") == 0:
                    out.add(k2)
                    out |= self.callees(k2)
            out.discard(path)
            c[path] = out
        return c[path]

    def reach(self, path):
        seen, st = set(), [path]
        while st:
            x = st.pop()
            for y in self.callees(x):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def rec(self, path):
        """part of a recursive cycle"""
        return path in self.reach(path) or path in self.callees(path) or any(path in self.callees(k) for k in self.p.bodies if k.startswith(path + "::{closure"))

    def pick(self, role, cands, names):
        if not cands:
            # fall back on the name alone
            cands = [k for k, b in self.fns() if b.get("name") in names]
        if len(cands) > 1:
            for n in names:
                x = [k for k in cands if self.p.bodies[k].get("name") == n]
                if x:
                    cands = x
                    break
        if len(cands) != 1:
            self.roles[role] = None
            return None
        self.roles[role] = cands[0]
        return cands[0]

    def _roles(self):
        p = self.p
        S = {k: sig(b, p) for k, b in self.fns()}
        hc = "HookContext"

        def q(pred):
            return [k for k, s in S.items() if pred(s[0], s[1])]

        def e(t, *suf):
            return any(t == s or t.endswith("::" + s) for s in suf)

        VE = q(lambda i, o: len(i) == 2 and i[0] == "&mut syn::Expr" and e(i[1], hc) and i[1].startswith("&") and is_res(o))
        VI = q(lambda i, o: len(i) == 2 and i[0] == "&mut syn::Item" and e(i[1], hc) and is_res(o))
        H = q(lambda i, o: len(i) == 2 and i[0] == "&mut std::vec::Vec<syn::Attribute>" and e(i[1], hc) and is_res(o))
        M = q(lambda i, o: len(i) == 3 and i[0] == "&mut std::vec::Vec<syn::Attribute>" and i[1] == "&mut syn::Macro" and e(i[2], hc))
        X = q(lambda i, o: i == ["&mut std::vec::Vec<syn::Attribute>"] and is_res(o))
        R = q(lambda i, o: len(i) == 3 and "HookInfo" in i[0] and i[1] == "&mut syn::Expr" and i[2].endswith("Span") and is_res(o))
        self.pick("VE", [k for k in VE if self.rec(k)], ["walk_expr"])
        self.pick("VI", [k for k in VI if self.rec(k)], ["walk_item"])
        self.pick("H", H, ["handle_inert_attrs"])
        self.pick("M", M, ["walk_macro"])
        self.pick("X", X, ["extract_hooq_info_from_attrs"])
        self.pick("R", R, ["render_expr_with_method"])
        self.pick("TS", q(lambda i, o: len(i) == 2 and i[0] == "&proc_macro2::TokenStream" and e(i[1], hc) and is_res(o)), ["handle_token_stream"])
        self.pick("MV", q(lambda i, o: i and i[0] == "proc_macro2::TokenStream" and any("HookInfo" in x for x in i) and is_res(o) and "TokenStream" in o), ["expand_meta_vars"])
        self.pick("PRE", q(lambda i, o: not i and o and o.startswith("std::collections::HashMap<std::string::String, ") and "Flavor" in o), ["preset_flavors"])
        self.pick("LOADSTORE", q(lambda i, o: not i and is_res(o) and "FlavorStore" in o), ["with_hooq_toml"])
        self.pick("TOML", q(lambda i, o: not i and is_res(o) and "CheckedHooqToml" in o), ["load"])
        self.pick("GETF", q(lambda i, o: len(i) == 2 and "FlavorStore" in i[0] and "FlavorPath" in i[1] and is_res(o)), ["get_flavor"])
        self.pick("UPD", q(lambda i, o: any(t.startswith("&mut std::collections::HashMap<") for t in i) and any("FlavorTable" in t for t in i) and any(t.startswith("&") and t.endswith("Flavor") for t in i) and is_res(o)), ["update_flavor_inner"])
        self.pick("UPDF", q(lambda i, o: len(i) == 2 and i[0].startswith("&mut std::collections::HashMap<") and "HooqToml" in i[1] and is_res(o)), ["update_flavors"])
        self.pick("HELPATH", q(lambda i, o: not i and o == "syn::Path"), ["get_source_excerpt_helpers_name_space"])
        self.pick("TOP", q(lambda i, o: len(i) == 2 and i[0] == "proc_macro2::TokenStream" and i[1] == "syn::Item" and is_res(o)), ["hooq_impls"])
        self.pick("ROOTLOAD", q(lambda i, o: len(i) == 1 and "RootAttribute" in i[0] and is_res(o) and "RootContext" in o), ["load"])

    def role(self, r):
        x = self.roles.get(r)
        if x is None:
            raise Anchor("no function with the signature of role %s" % r)
        return x

    def adt(self, name):
        """key of the local type with this name"""
        ks = [k for k, a in self.p.adts.items() if k.split("::")[-1] == name and k.startswith("hooq")]
        if len(ks) != 1:
            raise Anchor("no type %s" % name)
        return ks[0]

    # ---- running ----------------------------------------------------------------
    def cuts(self, roles):
        out = {}
        for r in roles:
            k = self.roles.get(r)
            if k:
                out[k] = mkcut(r, pure=(r == "HELPATH"))
        return out

    def run(self, path, args, cutroles, opts=None):
        """analyse one function from symbolic arguments; [(state, returned value)]"""
        key = (path, tuple(args), tuple(sorted(cutroles)), tuple(sorted((opts or {}).items())))
        if key in self.cache:
            return self.cache[key]
        b = self.p.bodies[path]
        eng = Engine(self.p, models.Models(), self.cuts(cutroles), opts or {})
        st = State({}, {}, None)
        fr = Frame(("root",), path, b["body"], path)
        for i, a in enumerate(args):
            st.mem[("L", ("root",), i + 1)] = a
        t = time.time()
        rs = eng.exec_body(fr, st)
        eng.wall = time.time() - t
        eng.root = path
        eng.npaths = len(rs)
        self.engines.append(eng)
        r = Result(self, eng, path, rs)
        self.cache[key] = r
        return r

    def run_named(self, path, cutroles, names=None, opts=None):
        b = self.p.bodies[path]
        n = b["body"]["argc"]
        return self.run(path, [sym((names or {}).get(i, b["body"]["locals"][i + 1][1] or "a%d" % i)) for i in range(n)], cutroles, opts)

    def visitor(self, which, opts=None):
        k = self.role(which)
        return self.run(k, [sym("node"), sym("ctx")], ["VE", "VI", "H", "R", "M", "HELPATH"], opts)


def mkcut(role, pure=False):
    def f(eng, st, cd, args, ctx, tgt):
        return eng.opaque(st, role, args, ctx, known=True, event=None if pure else "visit")
    return f


class Result:
    def __init__(self, an, eng, path, rs):
        self.an, self.eng, self.path, self.rs = an, eng, path, rs
        self.uidargs = {}
        self.uidev = {}

        def scan(evs):
            for e in evs:
                if e.uid is not None and e.kind in ("visit", "rec"):
                    self.uidargs[e.uid] = e.args
                    self.uidev[e.uid] = e
                if e.kind == "loop":
                    self.loops[e.uid] = e
                    for it in e.extra["iters"]:
                        scan(it.events)
                    for _, _, evs2 in e.extra["exits"]:
                        scan(evs2)
        self.loops = {}
        for s, _ in rs:
            scan(s.log())
        for e in eng.loop_events.values():
            scan([e])
        self.phis = {}
        for e in self.loops.values():
            for t, (root, path_, entry) in e.extra["phis"].items():
                self.phis[t] = entry
        self._place = {}
        self.roots = {}

    def reroot(self, roots):
        """give names to terms: positions below them are positions in these"""
        self.roots = roots
        self._place = {}

    # ---- places -----------------------------------------------------------------
    def place(self, t):
        """(root name, projections) of the syntax-tree position a value came from, or None.  In-place updates keep the position."""
        r = self._place.get(t)
        if r is None:
            self._place[t] = r = self._place_of(t, 0) or ()
        return r or None

    def _place_of(self, t, d):
        if d > 200:
            return None
        if t in self.roots:
            return (self.roots[t], ())
        k = t.k
        if k == "at":
            if t.a[0].k == "sym":
                return (t.a[0].a[0], ())
            return self._place_of(t.a[0], d + 1)
        if k == "sym":
            return (t.a[0], ())
        if k == "pr":
            b = self._place_of(t.a[0], d + 1)
            if b is None:
                return None
            if b[1] and b[1][-1][0] == "sub" and t.a[1][0] == "e":
                b = (b[0], b[1][:-1])  # an element of part of a list
            return (b[0], b[1] + (npr(t.a[1]),))
        if k == "upd":
            return self._place_of(t.a[0], d + 1)
        if k == "out":
            a = self.uidargs.get(t.a[0])
            if a is None or t.a[1] >= len(a):
                return None
            return self._place_of(a[t.a[1]], d + 1)
        if k == "phi":
            e = self.phis.get(t)
            if e is None:
                return None
            return self._place_of(e, d + 1)
        if k == "choice":
            ps = {self._place_of(v, d + 1) for _, v in t.a[0]}
            return ps.pop() if len(ps) == 1 else None
        return None

    def original(self, t):
        """the value is (part of) the input as it was on entry"""
        for x in subterms(t):
            if x.k == "out" and x.a[2] != "H":
                return False
        return True

    def canon(self, g):
        """the condition over places: the variant of the node at a position on entry"""
        memo = {}

        def fk(k):
            if k.k == "disc" and self.original(k.a[0]):
                pl = self.place(k.a[0])
                if pl is not None:
                    return mk("vdisc", pl[0], pl[1], k.a[1])
            return k

        return conds.mapkeys(g, fk, lambda v: v, memo)


def npr(p):
    if p[0] == "e":
        return ("e", "*") if p[1].k != "c" else ("e", p[1].a[1])
    if p[0] == "last":
        return ("last", p[1]) if len(p) > 1 else p
    return p


def showpl(pl):
    return pl[0] + "".join("::" + p[1] if p[0] == "v" else "." + p[1] if p[0] == "f" else "[%s]" % p[1] if p[0] == "e" else "[%s]" % p[0] for p in pl[1])


# ---- helpers over results ---------------------------------------------------------------
def ok_guard(v):
    """condition under which the returned Result is Ok"""
    if v.k == "choice":
        g = NO
        for c, x in v.a[0]:
            g = disj(g, conj(c, ok_guard(x)))
        return g
    if v.k == "agg":
        return YES if v.a[1] in ("Ok", "Some") or v.a[0] not in (RESULT, OPTION) else NO
    if v.k == "call":
        return lit(mk("disc", v, RESULT), ("=", "Ok"))
    return YES


def oks(res):
    """[(state, condition of returning Ok, value)]"""
    out = []
    for s, v in res.rs:
        g = conj(s.pc, ok_guard(v))
        if g is not NO:
            out.append((s, g, v))
    return out


def simp(t, g, memo=None):
    """t under the condition g: alternatives that cannot apply are dropped"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t.k == "choice":
        kept = [(c, v) for c, v in t.a[0] if conj(c, g) is not NO]
        if len(kept) == 1:
            r = simp(kept[0][1], g, memo)
        elif not kept:
            r = t
        else:
            r = mkchoice([(c, simp(v, conj(c, g))) for c, v in kept])
    elif t.k in ("phi", "sym", "c"):
        r = t
    elif t.k == "yields":
        na = (frozenset((c, simp(v, g, memo)) for c, v in t.a[0]),) + t.a[1:]
        r = t if na == t.a else mk(t.k, *na)
    else:
        na = tuple(simp_in(x, g, memo) for x in t.a)
        r = t if na == t.a else mk(t.k, *na)
    memo[t] = r
    return r


def simp_in(x, g, memo):
    if isinstance(x, T):
        return simp(x, g, memo)
    if isinstance(x, tuple):
        return tuple(simp_in(y, g, memo) for y in x)
    return x


def loop_dom(ev):
    """(domain term, position phi) pairs a loop iterates over"""
    out = []
    seen = set()
    for facts in [it.facts for it in ev.extra["iters"]] + [f for _, f, _ in ev.extra["exits"]]:
        for k in facts:
            if k.k == "has" and k.a[1] in ev.extra["phis"] and k.a[2] == 0 and (k.a[0], k.a[1]) not in seen:
                seen.add((k.a[0], k.a[1]))
                out.append((k.a[0], k.a[1]))
    return out


def full_loop(ev, dom, pos):
    """positions 0, 1, 2, ... until exhausted"""
    if ev.extra["phis"][pos][2] is not cint(0):
        return False
    for it in ev.extra["iters"]:
        u = it.updates.get(pos)
        if u is not mk("bin", "Add", pos, cint(1)):
            return False
    return True


def broke_out(pc, facts, dom, pos):
    """the path leaves the loop before its domain is exhausted"""
    k = mk("has", dom, pos, 0)
    f = facts.get(k)
    if f is not None:
        return f == ("=", TRUE)
    if k in conds.support(pc):
        return conj(pc, lit(k, ("=", TRUE))) is not NO
    return False


def flat(res, evs, loops=()):
    """every event with the loops around it: (event, ((loop, iteration), ...))"""
    for e in evs:
        if e.kind == "loop":
            for it in e.extra["iters"]:
                yield from flat(res, it.events, loops + ((e, it),))
        else:
            yield e, loops
