"""Where hooks are inserted, under which condition, with which inputs (rules C06-C12)."""
import conds
from conds import YES, NO, conj, disj, neg, lit
from lint import *
from walk import Walk, alts, under_all
from walkrules import walks, once, kind_of

SWITCH = {"Question": "question", "Return": "return_", "TailExpr": "tail_expr"}
COUNT = SWITCH
V = lambda n: ("v", n)
F = lambda n: ("f", n)
E = ("e", "*")


class Alt:
    """one way through a visitor (top level) or through one round of a loop"""

    def __init__(self, w, cond, events, loop=None, raw=None):
        self.w, self.cond, self.events, self.loop = w, cond, events, loop


def alternatives(w):
    out = []
    seen = {}

    def loops(evs):
        for e in evs:
            if e.kind != "loop":
                continue
            for it in e.extra["iters"]:
                k = (e.uid, id(it))
                if k in seen:
                    continue
                seen[k] = it
                if it.kind == "cont":
                    out.append(Alt(w, w.res.canon(it.pc), [x for x in it.events if x.kind != "loop"], e))
                loops(it.events)

    for s, g, c, v in w.paths:
        out.append(Alt(w, c, [x for x in s.log() if x.kind != "loop"]))
        loops(s.log())
    return out


def site_kind(w, pl):
    """(hook kind, what body it ends) a position can be hooked as, or None"""
    ps = pl[1]
    if ps == (V("Try"), F("0"), F("expr")):
        return ("Question", None)
    if ps == (V("Return"), F("0"), F("expr"), V("Some"), F("0")):
        return ("Return", None)
    if ps == (V("Match"), F("0"), F("arms"), E, F("body")):
        return ("TailExpr", "block")
    if ps == (V("Closure"), F("0"), F("body")):
        return ("TailExpr", "fn")
    if len(ps) > 4 and ps[-2:] == (V("Expr"), F("0")) and ps[-3][0] in ("e", "last") and ps[-4] == F("stmts"):
        b = ps[:-4]
        if dict(w.types.along(w.nice, b)).get(len(b)) != "syn::Block":
            return None
        fn = b[-3:] == (V("Fn"), F("0"), F("block")) or b[-5:] == (V("Fn"), F("0"), F("default"), V("Some"), F("0")) or b[-5:] == (F("body"), V("Block"), F("0"), F("block"))[-5:] and False
        if b[-6:] == (V("Closure"), F("0"), F("body"), V("Block"), F("0"), F("block")):
            fn = True
        return ("TailExpr", "fn" if fn else "block")
    return None


def vd(pl, sub, adt):
    return mk("vdisc", pl[0], pl[1] + sub, adt)


def exists_cond(w, alt, pl, kind, body):
    """condition for the position to be a hook site of this kind"""
    EX = "syn::expr::Expr"
    ps = pl[1]
    if kind in ("Question", "Return"):
        return YES
    if ps[-2:] == (V("Expr"), F("0")) and ps[-4] == F("stmts"):
        g = lit(mk("vdisc", pl[0], ps[:-1][:-1], "syn::stmt::Stmt"), ("=", "Expr"))
        g = conj(g, lit(mk("vdisc", pl[0], ps[:-1] + (F("1"),), OPTION), ("=", "None")))
        if ps[-3][0] == "e" and alt.loop is not None:
            for dom, pos in loop_dom(alt.loop):
                d = w.res.place(dom)
                if d and d[1] and d[1][-1][0] == "sub" and d[1][:-1] == ps[:-3] and d[1][-1][2] > 0:
                    return NO  # the loop stops before the last statement
                if d and d[1] == ps[:-3]:
                    g = conj(g, lit(mk("has", dom, pos, 1), ("=", FALSE)))
        return g
    # an arm or closure body that is itself a block ends with that block's own tail
    return lit(mk("vdisc", pl[0], ps, EX), ("!=", frozenset({"Block"})))


def equals_entry(g, lst, ident):
    """the condition says: this entry of the list equals the identifier"""
    for k in list(conds.support(g)):
        if k.k == "has" and k.a[0].k == "pr" and k.a[0].a[1] == F("segments") and k.a[2] == 0:
            g = conds.under(g, k, ("=", TRUE))
    ks = list(conds.support(g))
    if len(ks) != 1 or ks[0].k != "bin" or ks[0].a[0] != "Eq":
        return False
    if g is not lit(ks[0], ("=", TRUE)):
        return False
    a, b = ks[0].a[1], ks[0].a[2]
    if b is ident:
        a, b = b, a
    return a is ident and b.k == "pr" and b.a[0] is lst and b.a[1][0] == "e"


def discof(t, adt, v):
    if t.k == "agg":
        return YES if t.a[1] == v else NO
    if t.k == "choice":
        g = NO
        for c, x in t.a[0]:
            g = disj(g, conj(c, discof(x, adt, v)))
        return g
    return lit(mk("disc", t, adt), ("=", v))


class Rule:
    """the documented decision for one visited expression, over the conditions the code consulted"""

    def __init__(self, w, alt, visit, pl, kind, body):
        self.w, self.alt, self.kind, self.body = w, alt, kind, body
        self.visit = visit
        self.ctx = w.ctx_of(visit)
        if not hasattr(w, "exists_keys"):
            ks = set()
            for a in alternatives(w):
                ks |= {k for k in conds.support(a.cond) if k.k == "exists"}
            w.exists_keys = ks
        self.sup = w.exists_keys
        self.missing = []
        H = self.ctx
        while H.k == "pr":
            H = H.a[0]
        self.H = H if H.k == "call" and H.a[0] == "H" else None
        self.expr = mk("out", visit.uid, 0, "VE")
        self.pre = visit.args[0]
        self.exist = w.res.canon(exists_cond(w, alt, pl, kind, body))
        self.rule = YES if kind == "Question" else self.value_rule()
        self.ref = conj(self.exist, self.canon(self.rule))

    def find(self, lst, ident):
        for k in self.sup:
            if k.k == "exists" and k.a[0] is lst and isinstance(k.a[1], conds.G) and equals_entry(k.a[1], lst, ident):
                return lit(k, ("=", TRUE))
        return None

    def named(self, f, path):
        """some entry of the list equals the last segment of the path"""
        lst = get(self.w.field(self.ctx, f), [F("val")])
        ident = get(path, [F("segments"), ("last", 1), F("ident")])
        g = self.find(lst, ident)
        if g is None:
            return None
        return g

    def call_named(self, f):
        for e in (self.expr, self.pre):
            func = get(e, [V("Call"), F("0"), F("func")])
            g = self.named(f, get(func, [V("Path"), F("0"), F("path")]))
            if g is not None:
                return conj(conj(discof(e, "syn::expr::Expr", "Call"), discof(func, "syn::expr::Expr", "Path")), g)
        self.missing.append(f)
        return lit(mk("unconsulted", f, self.visit.uid), ("=", TRUE))

    def returns(self):
        fi = get(self.w.field(self.ctx, "fn_info"), [F("val")])
        adt = self.w.an.adt("FunctionInfo")
        g = NO
        inner = get(fi, [V("Some"), F("0")])
        for var, p in (("Function", (V("Function"), F("0"), F("output"))), ("Closure", (V("Closure"), F("0"), F("expr"), F("output")))):
            h = conj(discof(fi, OPTION, "Some"), discof(inner, adt, var))
            if h is NO:
                continue
            out = get(inner, p)
            ty = get(out, [V("Type"), F("1")])
            x = self.named("result_types", get(ty, [V("Path"), F("0"), F("path")]))
            if x is None:
                self.missing.append("result_types")
                x = lit(mk("unconsulted", "result_types", var, self.visit.uid), ("=", TRUE))
            h = conj(h, conj(conj(discof(out, "syn::ty::ReturnType", "Type"), discof(ty, "syn::ty::Type", "Path")), x))
            g = disj(g, h)
        return g

    def value_rule(self):
        named = self.call_named("tail_expr_idents")
        if self.kind == "TailExpr" and self.body != "fn":
            return named
        return disj(named, conj(self.returns(), neg(self.call_named("ignore_tail_expr_idents"))))

    def switch(self):
        return lit(get(self.w.field(self.ctx, "hook_targets"), [F("val"), F(SWITCH[self.kind])]), ("=", TRUE))

    def skipped(self):
        return lit(mk("skipped", self.H), ("=", TRUE)) if self.H else YES

    def canon(self, g):
        """conditions over positions, skip flags unified, loop witnesses forgotten"""
        g = self.w.res.canon(g)
        H = self.H
        flag = get(H, [V("Ok"), F("0"), F("is_skipped")]) if H else None
        st = get(self.w.field(get(H, [V("Ok"), F("0"), F("new_context")]), "skip_status"), [F("val")]) if H else None
        sk = mk("skipped", H) if H else None

        def fk(k):
            if k is flag:
                return sk
            if k.k == "disc" and k.a[0] is st:
                return sk
            return k

        def fv(v):
            return v

        if st is not None and any(k.k == "disc" and k.a[0] is st for k in conds.support(g)):
            kk = mk("disc", st, OPTION)
            g = disj(conj(conds.under(g, kk, ("=", "Some")), lit(sk, ("=", TRUE))), conj(conds.under(g, kk, ("=", "None")), lit(sk, ("=", FALSE))))
        g = conds.mapkeys(g, fk, fv, {})
        # a path always has a last segment
        for k in list(conds.support(g)):
            if k.k == "has" and k.a[0].k == "pr" and k.a[0].a[1] == F("segments") and k.a[2] == 0:
                g = conds.under(g, k, ("=", TRUE))
        return conds.drop(g, self.witness)

    def witness(self, k):
        if k.k == "has" and isinstance(k.a[1], T) and k.a[1].k == "phi":
            d = self.w.res.place(k.a[0])
            return d is None
        if k.k in ("bin",):
            return any(x.k == "phi" and x in subterms_set(k) and self.local_phi(x) for x in subterms(k))
        return False

    def local_phi(self, phi):
        return True


def subterms_set(t):
    return set(subterms(t))


def decide(w, alt, visit, pl, kind, body):
    r = Rule(w, alt, visit, pl, kind, body)
    r.cond = r.canon(alt.cond)
    return r


def hook_rules(ck, an, want):
    """want: which of C06..C12 to report"""
    seen = {}
    nsites = {"Question": set(), "Return": set(), "TailExpr": set()}
    for w in walks(an):
        for alt in alternatives(w):
            rs = [e for e in alt.events if e.kind == "visit" and e.name == "R"]
            used = set()
            for i, e in enumerate(alt.events):
                if e.kind != "visit" or e.name != "VE":
                    continue
                pl = w.target(e)
                sk = site_kind(w, pl) if pl and pl[0] == "node" else None
                if sk is None:
                    continue
                kind, body = sk
                r = decide(w, alt, e, pl, kind, body)
                if conj(r.cond, r.exist) is NO and not any(w.res.place(x.args[1]) == pl for x in rs):
                    continue
                nsites[kind].add(w.name(pl))
                here = [x for x in alt.events[i + 1:] if x.kind == "visit" and x.name == "R" and peq(w.res.place(x.args[1])[1] if w.res.place(x.args[1]) else (), pl[1])]
                used |= {id(x) for x in here}
                cnt = [(j, x) for j, x in enumerate(alt.events) if x.kind == "cellw"]
                report(ck, seen, want, w, alt, r, pl, e, here, cnt)
            for x in rs:
                if id(x) not in used:
                    if "C06" in want or "C07" in want:
                        once(ck, seen, "site", "%s at %s" % (kind_of(x), x.span), False, "a hook is inserted at %s, which is no `?`, `return` value or tail expression after its visit" % w.name(w.target(x)))
            counts(ck, seen, want, w, alt)
    for k, n in nsites.items():
        if k in want.get("kinds", ("Question", "Return", "TailExpr")):
            ck.floor("%s sites" % k, len(n), {"Question": 1, "Return": 1, "TailExpr": 14}[k])


def report(ck, seen, want, w, alt, r, pl, visit, here, cnt):
    site = "%s %s" % (r.kind, w.name(pl))
    guard = conj(neg(r.skipped()), r.canon(r.switch()))
    if r.kind not in want.get("kinds", (r.kind,)):
        return
    if "C06" in want:
        once(ck, seen, "C06.kind", site, len(here) <= 1 and all(kind_of(x) == r.kind for x in here), "hooked as %s" % [kind_of(x) for x in here])
        if here:
            ok = conds.implies(r.cond, guard)
            once(ck, seen, "C06.gate", site, ok, "hooked although skipped or with the `%s` target off (at %s)" % (SWITCH[r.kind], here[0].span))
        else:
            # enough for a question mark: nothing else may suppress it
            if r.kind == "Question":
                bad = conj(r.cond, conj(r.ref, guard))
                once(ck, seen, "C06.complete", site, bad is NO, "not hooked although neither skipped nor switched off: %s" % show_cond(bad)[:300])
    if "C07" in want and r.kind != "Question":
        once(ck, seen, "C07.consults", site, not r.missing, "the decision does not compare the last path segment with %s" % sorted(set(r.missing)))
        if not r.missing:
            if here:
                bad = conj(r.cond, neg(r.ref))
                once(ck, seen, "C07.only", site, bad is NO, "hooked outside the rule when %s" % show_cond(bad)[:400])
            else:
                bad = conj(r.cond, conj(r.ref, guard))
                once(ck, seen, "C07.always", site, bad is NO, "not hooked although the rule holds when %s" % show_cond(bad)[:400])
    for x in here:
        if "C09" in want:
            src = get(x.args[0], [F("source_tokenstream")])
            toks = src_node(src)
            whole = w.res.place(toks) if toks is not None else None
            exp = pl[1] if r.kind == "TailExpr" else ()
            same = [("node", exp)] + ([("node", (V({"Question": "Try", "Return": "Return"}[r.kind]), F("0")))] if r.kind != "TailExpr" else [])
            once(ck, seen, "C09.source", site, whole in same and w.res.original(toks),
                 "$source is %s, expected the tokens of %s as written" % (show(src)[:160], w.name(("node", exp))))
            ex = x.args[1]
            once(ck, seen, "C09.expr", site, ex is mk("out", visit.uid, 0, "VE"), "the hooked expression is %s, expected the visited one" % show(ex)[:160])
        if "C12" in want:
            sp = x.args[2]
            p = span_of(w, sp)
            exp = {"Question": (V("Try"), F("0"), F("question_token")), "Return": (V("Return"), F("0"), F("return_token")), "TailExpr": pl[1]}[r.kind]
            once(ck, seen, "C12.span", site, p is not None and p == ("node", exp), "the position reported is that of %s, expected %s" % (show(sp)[:120], w.name(("node", exp))))
    if "C10" in want:
        # the counter of this kind goes up once, before rendering, on every path on which the site is reached
        due = conj(r.ref, neg(r.skipped()))
        j0 = alt.events.index(visit)
        mine = [(j, x) for j, x in cnt if j > j0 and bump(w, r, x) == COUNT[r.kind]]
        if mine:
            once(ck, seen, "C10.once", site, len(mine) == 1, "counted %d times" % len(mine))
            if not r.missing:
                bad = conj(r.cond, neg(due))
                once(ck, seen, "C10.only", site, bad is NO, "counted although not a hook site or skipped when %s" % show_cond(bad)[:300])
            if here:
                once(ck, seen, "C10.before", site, alt.events.index(here[0]) > mine[0][0], "the counter is increased after rendering")
        elif not r.missing:
            bad = conj(r.cond, due)
            once(ck, seen, "C10.always", site, bad is NO, "not counted when %s" % show_cond(bad)[:300])


def src_node(ts):
    """the node whose tokens these are"""
    if ts.k == "ts" and ts.a[0] is None and len(ts.a[1]) == 1 and ts.a[1][0][0] == "interp":
        return ts.a[1][0][1]
    return None


def span_of(w, sp):
    if sp.k == "call" and sp.a[0] == "span":
        return w.res.place(sp.a[1][0])
    return w.res.place(sp)


def bump(w, r, ev):
    """which counter a write increases by one, leaving the others"""
    root, v = ev.args
    if root.a[0] is not w.field(r.ctx, "counter"):
        return "other counter"
    return bump_field(root, v)


def bump_field(root, v):
    if v.k == "upd" and len(v.a[1]) == 1:
        (ps, x), = v.a[1]
        if x is mk("bin", "Add", get(v.a[0], ps), cint(1)):
            return ps[-1][1]
        return "not +1"
    return "?"


def counts(ck, seen, want, w, alt):
    if "C10" not in want:
        return
    for x in alt.events:
        if x.kind != "cellw":
            continue
        f = bump_field(*x.args)
        once(ck, seen, "C10.step", "write at %s" % x.span, f in COUNT.values(), "a counter is written other than by adding one to one kind (%s)" % f)


def c06(ck, an):
    hook_rules(ck, an, {"C06": 1})


def c07(ck, an):
    hook_rules(ck, an, {"C07": 1})


def c09(ck, an):
    hook_rules(ck, an, {"C09": 1})


def c10(ck, an):
    hook_rules(ck, an, {"C10": 1})


def c12(ck, an):
    hook_rules(ck, an, {"C12": 1})
