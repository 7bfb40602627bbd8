"""Rules over the syntax-tree walker: coverage, frame, attribute handling, contexts."""
import conds
import terms
from conds import YES, NO, conj, disj, neg, lit, under
from lint import *
import known
import slots as S
from walk import Walk, SETTINGS, KINDS, alts, under_all, identity_source


def mevents(evs, name):
    return [e for e in evs if e.kind == "visit" and e.name == name]


class Cover:
    """does a path visit a slot, whatever the element?"""

    def __init__(self, an, res, root="node"):
        self.an, self.res, self.root = an, res, root
        self.expr_slots = {}
        for s in an.cache.setdefault("slots:Expr", S.slots_of(an.p, "syn::Expr")):
            self.expr_slots.setdefault(s.top, []).append(s)
        self.variants = [v["name"] for v in an.p.adts["syn::expr::Expr"]["variants"]]
        self.memo = {}

    def direct(self, e, slot):
        if e.kind != "visit":
            return False
        n = e.name
        want = {"expr": ("VE", 0), "item": ("VI", 0), "macro": ("M", 1)}.get(slot.kind)
        if slot.kind == "attrs":
            if n in ("H", "M"):
                return peqpl(self.res.place(e.args[0]), (self.root, slot.ps))
            return False
        return n == want[0] and peqpl(self.res.place(e.args[want[1]]), (self.root, slot.ps))

    def invariant(self, g):
        """what a path condition says whatever the element: nothing about loop positions"""
        if g not in self.memo:
            self.memo[g] = conds.drop(g, lambda k: k.k != "vdisc" or ("e", "*") in k.a[1])
        return self.memo[g]

    def ends(self, evs, pc, facts, slot, exist, depth, n, part):
        """the elements outside the middle of a list are visited one by one"""
        if part[0] != "sub" or len(part) < 4 or not part[3]:
            return False, "part of a list"
        for x in [("e", i) for i in range(part[1])] + [("last", i + 1) for i in range(part[2])]:
            here = slot.ps[: n + 1]

            def at(ps):
                return ps[:n] + (x,) + ps[n + 1:] if ps[: n + 1] == here else ps

            ex = conds.mapkeys(exist, lambda k: mk("vdisc", k.a[0], at(k.a[1]), k.a[2]) if k.k == "vdisc" else k, lambda v: v, {})
            s2 = S.Slot(at(slot.ps), [(at(a), b, c) for a, b, c in slot.conds], slot.kind, slot.owners, slot.top)
            ok, w = self.covered(evs, pc, facts, s2, ex, depth)
            if not ok:
                return False, "%s: %s" % (showpl(("", s2.ps)), w)
        return True, "loop"

    def covered(self, evs, pc, facts, slot, exist, depth=0):
        """(ok, reason)"""
        g = conj(pc, exist)
        for k in conds.support(g):
            if k.k == "has" and k.a[1] is cint(0) and k.a[2] == 0:
                d = self.res.place(k.a[0])
                if d is not None and d[0] == self.root and len(d[1]) < len(slot.ps) and peq(d[1], slot.ps[: len(d[1])]) and slot.ps[len(d[1])][0] in ("e", "last"):
                    g = under(g, k, ("=", TRUE))  # the list that holds the slot is not empty
        if g is NO:
            return True, "absent"
        for e in evs:
            if self.direct(e, slot):
                return True, "visited"
        why = "no visit"
        for e in evs:
            if e.kind != "loop":
                continue
            for dom, pos in loop_dom(e):
                d = self.res.place(dom)
                part = None
                if d is not None and d[1] and d[1][-1][0] == "sub":
                    part = d[1][-1]
                    d = (d[0], d[1][:-1])
                if d is None or d[0] != self.root or not peq_prefix(d[1] + (("e", "*"),), slot.ps):
                    continue
                if not full_loop(e, dom, pos):
                    why = "loop over %s does not visit every position" % showpl(d)
                    continue
                if broke_out(pc, facts, dom, pos):
                    why = "loop over %s can stop early" % showpl(d)
                    continue
                if not e.extra["iters"]:
                    why = "loop over %s never continues" % showpl(d)
                    continue
                good = True
                for it in e.extra["iters"]:
                    ok, w = self.covered(it.events, self.res.canon(it.pc), it.facts, slot, conj(exist, self.invariant(pc)), depth)
                    if not ok:
                        good, why = False, w
                        break
                if good and part is not None:
                    good, why = self.ends(evs, pc, facts, slot, exist, depth, len(d[1]), part)
                if good:
                    return True, "loop"
        if slot.kind == "expr" and depth == 0:
            # the node itself is unfolded in place: its own parts must be covered
            key = mk("vdisc", self.root, slot.ps, "syn::expr::Expr")
            if key not in conds.support(g):
                return False, why
            for v in self.variants:
                gv = conj(g, lit(key, ("=", v)))
                if gv is NO:
                    continue
                for x in self.expr_slots.get(v, []):
                    if x.kind == "attrs":
                        continue
                    x2 = S.Slot(slot.ps + x.ps, [(slot.ps + a, b, c) for a, b, c in x.conds], x.kind, (), slot.top)
                    ok, w = self.covered(evs, pc, facts, x2, conj(gv, x2.exist(self.root)), 1)
                    if not ok:
                        return False, "%s (nor unfolded: %s %s)" % (why, showpl(("", x2.ps)), w)
            return True, "unfolded"
        return False, why


def peqpl(a, b):
    return a is not None and a[0] == b[0] and peq(a[1], b[1])


def peq_prefix(a, b):
    return len(a) <= len(b) and peq(a, b[: len(a)])


# Item/statement positions that hold nothing hooq can act on
NOT_WALKED_ITEMS = {"Enum", "ExternCrate", "ForeignMod", "Struct", "TraitAlias", "Type", "Union", "Use", "Verbatim"}


def exempt(slot, nice):
    return nice.endswith("Item") and slot.top in NOT_WALKED_ITEMS


def c01(ck, an):
    """every nested expression, statement macro and item is visited on every successful path"""
    for which, nice in (("VE", "syn::Expr"), ("VI", "syn::Item")):
        res = an.visitor(which)
        cv = Cover(an, res)
        paths = oks(res)
        canon = [(s, res.canon(g)) for s, g, _ in paths]
        n = 0
        for slot in S.slots_of(an.p, nice):
            if slot.kind == "attrs" or exempt(slot, nice):
                continue
            n += 1
            exist = slot.exist()
            if slot.kind == "macro" and nice == "syn::Item" and slot.top == "Macro":
                exist = conj(exist, lit(mk("vdisc", "node", (("v", "Macro"), ("f", "0"), ("f", "ident")), OPTION), ("=", "None")))
            hits = 0
            bad = None
            for s, g in canon:
                if conj(g, exist) is NO:
                    continue
                hits += 1
                ok, why = cv.covered(s.log(), g, s.facts, slot, exist)
                if not ok:
                    bad = why
                    break
            site = "%s%s" % (nice.split("::")[1], slot)
            if hits == 0:
                ck.ob("C01.visit", site, False, "no successful path for this node kind", key="C01:%s" % site)
            else:
                ck.ob("C01.visit", site, bad is None, "child not visited on a successful path: %s (in %s)" % (bad, an.roles[which]), key="C01:%s" % site)
        ck.floor("%s child positions" % nice, n, 75 if nice == "syn::Expr" else 22)
        ck.note("%s paths" % which, len(paths))


def walks(an):
    if "walks" not in an.cache:
        an.cache["walks"] = [Walk(an, "VE"), Walk(an, "VI")]
    return an.cache["walks"]


def once(ck, seen, rule, key, good, msg):
    """one obligation per (rule, position): all visits of it must satisfy the rule"""
    k = "%s:%s" % (rule, key)
    if k in seen and (not seen[k] or good):
        return
    seen[k] = good
    for i, (r, x, g) in enumerate(ck.obligations):
        if r == rule and x == key:
            ck.obligations[i] = (r, x, good)
            if not good:
                ck.failures.append((k, "%s [%s] %s" % (rule, key, msg)))
            return
    ck.ob(rule, key, good, msg, key=k)


# attribute positions whose node cannot contain anything to hook
NO_HOOK_ATTRS = ()


def c03(ck, an):
    """attributes of every traversed node go through the attribute handler"""
    for w in walks(an):
        cv = Cover(an, w.res)
        n = 0
        all_ = S.slots_of(an.p, w.nice)
        for slot in all_:
            if slot.kind != "attrs" or exempt(slot, w.nice):
                continue
            # only nodes with something inside that can be hooked
            inside = NO
            for x in all_:
                if x.kind != "attrs" and slot.ps in x.owners and x.top == slot.top:
                    inside = disj(inside, x.exist())
            exist = conj(slot.exist(), inside)
            if slot.top == "Macro" and w.which == "VI":
                exist = conj(exist, lit(mk("vdisc", "node", (("v", "Macro"), ("f", "0"), ("f", "ident")), OPTION), ("=", "None")))
            if exist is NO:
                continue
            n += 1
            bad = None
            hits = 0
            for s, g, c, v in w.paths:
                if conj(c, exist) is NO:
                    continue
                hits += 1
                ok, why = cv.covered(s.log(), c, s.facts, slot, exist)
                if not ok:
                    bad = why
                    break
            site = w.name(("node", slot.ps))
            ck.ob("C03.attrs", site, hits and bad is None, "the attributes of this node are not handled on a successful path: %s" % bad, key="C03:%s" % site)
        ck.floor("%s attribute positions" % w.nice, n, 40 if w.which == "VE" else 10)


def due(w, st):
    """(expected operations, own attribute position that may already be applied or None)"""
    e = st.ev
    pl = w.target(e)
    if pl is None or pl[0] != "node":
        return None, None, pl
    ops = w.expected(pl[1])
    own = None
    if e.name == "M":
        a = w.res.place(e.args[0])
        ops = [o for o in ops if not (o[0] == "H" and a is not None and peq(o[1], a[1]))]
    if e.name in ("VE", "R"):
        own = pl[1] + (("v", "*"), ("f", "0"), ("f", "attrs"))
    return ops, own, pl


def same_ops(got, want):
    if len(got) != len(want):
        return False
    return all(a[0] == b[0] and (a[0] != "H" or peq(a[1], b[1])) for a, b in zip(got, want))


def showops(ops):
    return " > ".join("scope" if o[0] == "reset" else showpl(("", o[1])) if o[0] == "H" else str(o[0]) for o in ops) or "(inherited)"


def strip_own(ops, own):
    if own is not None and ops and ops[-1][0] == "H" and peq(ops[-1][1], own):
        return ops[:-1], True
    return ops, False


def c04(ck, an):
    """every visit runs under exactly the settings of the attributes around it"""
    seen = {}
    n = 0
    for w in walks(an):
        for st in w.sites:
            ops, own, pl = due(w, st)
            site = "%s of %s" % (st.ev.name, w.name(pl))
            if ops is None:
                once(ck, seen, "C04.place", site, False, "visits something that is not a part of the node, at %s" % st.ev.span)
                continue
            n += 1
            want = [o for o in ops if o[0] == "H"]
            for f in SETTINGS + ["counter"]:
                ch = w.chain(w.field(w.ctx_of(st.ev), f), f)
                bad = [o for o in ch if o[0] != "H" or o[1] is None]
                got, pre = strip_own([("H", o[1][1]) for o in ch if o[0] == "H" and o[1]], own)
                if st.ev.name == "R" and kind_of(st.ev) == "TailExpr" and not pre:
                    bad.append("own attributes")
                if st.ev.name == "R" and kind_of(st.ev) != "TailExpr" and pre:
                    bad.append("too many attributes")
                good = not bad and same_ops(got, want)
                once(ck, seen, "C04.settings", "%s: %s" % (site, f), good,
                     "`%s` here comes from [%s]%s, expected [%s] (at %s)" % (f, showops([("H", o[1][1]) if o[0] == "H" and o[1] else o for o in ch]), " (not inherited as is)" if bad else "", showops(want), st.ev.span))
    ck.floor("visits", n, 300)
    handler_settings(ck, an)


def kind_of(e):
    k = get(e.args[0], [("f", "kind")])
    return k.a[1] if k.k == "agg" else "?"


def c05(ck, an):
    """the skip status is inherited, set and reset per scope"""
    seen = {}
    n = 0
    for w in walks(an):
        for st in w.sites:
            ops, own, pl = due(w, st)
            if ops is None:
                continue
            n += 1
            site = "%s of %s" % (st.ev.name, w.name(pl))
            ch = w.chain(w.field(w.ctx_of(st.ev), "skip_status"), "skip_status")
            got = []
            bad = None
            for o in ch:
                if o[0] == "H" and o[1]:
                    got.append(("H", o[1][1]))
                elif o[0] == "set" and w.is_reset(o[1], o[2]):
                    if not got or got[-1] != ("reset",):
                        got.append(("reset",))
                else:
                    bad = o[0]
            got, _ = strip_own(got, own)
            want = []
            for o in ops:
                if o == ("reset",) and want and want[-1] == o:
                    continue
                want.append(o)
            once(ck, seen, "C05.scope", site, bad is None and same_ops(got, want),
                 "skip status applied as [%s]%s, expected [%s] (at %s)" % (showops(got), "" if bad is None else " with a step that is neither an attribute nor a new scope", showops(want), st.ev.span))
    ck.floor("visits", n, 300)
    # the attribute handler
    handler_skip(ck, an)


def handler(an):
    """the attribute handler: [(ok condition, result value, X call)]"""
    if "handler" not in an.cache:
        r = an.run(an.role("H"), [sym("attrs"), sym("ctx")], ["X"])
        out = []
        for st, v in r.rs:
            for c, x in alts(v):
                g = conj(st.pc, c)
                if g is NO or not (x.k == "agg" and x.a[1] == "Ok"):
                    continue
                xs = [t for t in subterms(x) if t.k == "call" and t.a[0] == "X"]
                if not xs:
                    raise Anchor("the attribute handler does not use the attribute parser")
                out.append((g, x.a[2][0][1], get(xs[0], [("v", "Ok"), ("f", "0")]), st))
        if not out:
            raise Anchor("the attribute handler never succeeds")
        an.cache["handler"] = out
    return an.cache["handler"]


PARENT = mk("at", sym("ctx"))


def handler_settings(ck, an):
    """own setting if written, else the parent's; bindings merged over the parent's"""
    for g, v, x, st in handler(an):
        for f in SETTINGS + ["counter", "fn_info"]:
            pf = [("f", "counter")] if f == "counter" else [("f", "local_context"), ("f", f)]
            nv = get(v, [("f", "new_context")] + pf)
            par = get(PARENT, pf)
            if f in ("counter", "fn_info"):
                ck.ob("C04.inherit", f, under_all(nv, g) == [par], "`%s` after the attributes is not the parent's" % f)
                continue
            if f == "bindings":
                own = get(x, [("f", "bindings")])
                ne = lit(mk("has", own, cint(0), 0), ("=", TRUE))
                # hand-written emptiness checks name the same condition
                for val in under_all(nv, conj(g, ne)):
                    ck.ob("C04.merge", f, merged(val, par, own), "with bindings written on the node: %s" % show(val)[:200])
                for val in under_all(nv, conj(g, neg(ne))):
                    ck.ob("C04.inherit", f, val is par or merged(val, par, own), "without bindings written on the node: %s" % show(val)[:200])
                continue
            own = get(x, [("f", f)])
            k = mk("disc", own, OPTION)
            for val in under_all(nv, conj(g, lit(k, ("=", "None")))):
                ck.ob("C04.inherit", f, val is par, "without the attribute `%s` is %s, not the enclosing one" % (f, show(val)[:160]))
            for val in under_all(nv, conj(g, lit(k, ("=", "Some")))):
                got = get(val, [("f", "val")])
                ck.ob("C04.override", f, got is get(own, [("v", "Some"), ("f", "0")]), "with the attribute `%s` is %s, not the value written" % (f, show(got)[:160]))


def merged(val, par, own):
    m = get(val, [("f", "val")])
    for _ in range(5):
        if m.k in ("map_extend",):
            break
        n = identity_source(m)
        if n is m:
            break
        m = n
    if m.k != "map_extend" and not (m.k == "call" and m.a[0] == "map_extend"):
        return False
    a = m.a[1] if m.k == "call" else m.a
    return identity_source(a[0]) is get(par, [("f", "val")]) and identity_source(a[1]) is own


def handler_skip(ck, an):
    """truth table of the skip status and of "the node itself is skipped" """
    st = an.adt("SkipStatus")
    for g, v, x, _ in handler(an):
        par = get(PARENT, [("f", "local_context"), ("f", "skip_status")])
        bv = get(par, [("f", "val")])
        bs = get(bv, [("v", "Some"), ("f", "0")])
        new = get(v, [("f", "new_context"), ("f", "local_context"), ("f", "skip_status"), ("f", "val")])
        flag = get(v, [("f", "is_skipped")])
        w = Walk.skipval
        for state in ("None", "SkipSameScope", "SkipAll"):
            h = lit(mk("disc", bv, OPTION), ("=", "None" if state == "None" else "Some"))
            if state != "None":
                h = conj(h, lit(mk("disc", bs, st), ("=", state)))
            for one in (False, True):
                for all_ in (False, True):
                    c = conj(conj(g, h), conj(lit(get(x, [("f", "is_skipped")]), ("=", cbool(one))), lit(get(x, [("f", "is_skipped_all")]), ("=", cbool(all_)))))
                    want = "SkipAll" if all_ or state == "SkipAll" else "SkipSameScope" if one or state == "SkipSameScope" else "None"
                    got = {w(None, y, bv, bs, state) for y in under_all(new, c)}
                    inst = "enclosing %s, skip %s, skip_all %s" % (state, one, all_)
                    ck.ob("C05.status", inst, got == {want}, "becomes %s, expected %s" % (sorted(got), want))
                    fl = {truth(y, c) for y in under_all(flag, c)}
                    ck.ob("C05.self", inst, fl == {want != "None"}, "the node itself is skipped: %s, expected %s" % (sorted(map(str, fl)), want != "None"))


def truth(y, c):
    if y is TRUE:
        return True
    if y is FALSE:
        return False
    a, b = conj(c, lit(y, ("=", TRUE))), conj(c, lit(y, ("=", FALSE)))
    return True if b is NO else False if a is NO else "?"


# ---- C08: the function a position belongs to ----------------------------------------------------
def fn_entries(w, ps):
    """[(prefix length, kind, position of the signature)] of the functions and closures a position lies in"""
    out = []
    for n, ty in w.types.along(w.nice, ps):
        if n >= len(ps):
            break
        b = ps[:n]
        if ty == "syn::Block" and b[-1] == ("f", "block") and b[-3:-1] == (("v", "Fn"), ("f", "0")):
            out.append((n, "Function", b[:-1] + (("f", "sig"),)))
        if ty == "syn::Block" and b[-3:] == (("f", "default"), ("v", "Some"), ("f", "0")) and b[-5:-3] == (("v", "Fn"), ("f", "0")):
            out.append((n, "Function", b[:-3] + (("f", "sig"),)))
    for n in range(3, len(ps) + 1):
        if ps[n - 3:n] == (("v", "Closure"), ("f", "0"), ("f", "body")):
            out.append((n, "Closure", ps[:n - 1]))
    return sorted(out)


def c08(ck, an):
    """the innermost function or closure decides"""
    seen = {}
    ck_names = {}
    n = 0
    for w in walks(an):
        for st in w.sites:
            pl = w.target(st.ev)
            if pl is None or pl[0] != "node":
                continue
            n += 1
            site = "%s of %s" % (st.ev.name, w.name(pl))
            ch = w.chain(w.field(w.ctx_of(st.ev), "fn_info"), "fn_info")
            got, bad = [], None
            for o in ch:
                if o[0] == "H":
                    continue
                if o[0] != "set":
                    bad = o[0]
                    continue
                val = get(o[1], [("f", "val")])
                if not (val.k == "agg" and val.a[1] == "Some" and val.a[2][0][1].k == "agg"):
                    bad = show(val)[:80]
                    continue
                fi = val.a[2][0][1]
                x = fi.a[2][0][1]
                if fi.a[1] == "Closure":
                    x2 = get(x, [("f", "expr")])
                    got.append(("Closure", w.res.place(x2)))
                    out = w.res.place(get(x2, [("f", "output")]))
                    for kinds, bad_ in closure_names(an, w.res, x, o[1], st.state.pc):
                        ck_names[kinds] = ck_names.get(kinds) or bad_
                    once(ck, seen, "C08.closure-output", site, out is not None and out == ("node", w.res.place(x2)[1] + (("f", "output"),)) if w.res.place(x2) else False, "the recorded closure does not keep its return type")
                else:
                    got.append((fi.a[1], w.res.place(x)))
            want = [(k, ("node", s)) for _, k, s in fn_entries(w, pl[1])]
            once(ck, seen, "C08.fn", site, bad is None and got == want,
                 "belongs to [%s]%s, expected [%s] (at %s)" % (", ".join("%s %s" % (k, showpl(("", p[1])) if p else "?") for k, p in got), "" if bad is None else " and %s" % bad, ", ".join("%s %s" % (k, showpl(("", p[1]))) for k, p in want), st.ev.span))
    ck.floor("visits", n, 300)
    for kinds, bad in sorted(ck_names.items()):
        ck.ob("C08.closure-name", "closure in " + " in ".join(kinds), not bad, "`$fn_name` of it %s" % bad)
    ck.floor("enclosing chains of a closure", len(ck_names), 60)


CHAINS = {}


def closure_names(an, res, closure, field, pc):
    """[(what encloses a closure, from the inside out, what is wrong with its name or None)], for every chain of up to
    four enclosing functions and closures: the loop that looks for the function is unrolled over each of them"""
    key = (id(res), closure, pc)
    if key not in CHAINS:
        CHAINS[key] = list(names_in_chains(an, res, closure, field, pc))
    return CHAINS[key]


def names_in_chains(an, res, closure, field, pc):
    FI = an.adt("FunctionInfo")
    name = get(closure, [("f", "name")])
    up = get(field, [("f", "overridden_ancestor")])
    if not (up.k == "agg" and up.a[1] == "Some"):
        yield ("anything",), "is looked up without the function around it"
        return
    first = known.strip(up.a[2][0][1])
    phis = {t for t in subterms(name) if t.k == "phi"}
    loops = [e for e in res.loops.values() if phis & set(e.extra["phis"])]
    stack = [()]
    while stack:
        ks = stack.pop()
        if len(ks) < 4:
            stack.extend(ks + (k,) for k in ("a function", "a closure", "nothing known"))
        if not ks:
            continue
        els = [first]
        for _ in ks[1:]:
            els.append(get(els[-1], [("f", "overridden_ancestor"), ("v", "Some"), ("f", "0")]))
        pos = {e: j for j, e in enumerate(els)}

        def fact(t):
            if t.k != "disc":
                return None
            if t.a[0].k == "agg":
                return t.a[0].a[1]
            x = bare(t.a[0])
            if x.k != "pr":
                return None
            if t.a[1] == OPTION and x.a[1] == ("f", "val") and x.a[0] in pos:
                return "None" if ks[pos[x.a[0]]] == "nothing known" else "Some"
            if t.a[1] == OPTION and x.a[1] == ("f", "overridden_ancestor") and x.a[0] in pos:
                return "Some" if pos[x.a[0]] + 1 < len(ks) else "None"
            if t.a[1] == FI and x.a[1] == ("f", "0") and x.a[0].k == "pr" and x.a[0].a[0].k == "pr" and x.a[0].a[0].a[0] in pos:
                return "Function" if ks[pos[x.a[0].a[0].a[0]]] == "a function" else "Closure"
            return None
        fns = [j for j, k in enumerate(ks) if k == "a function"]
        want = get(els[fns[0]], [("f", "val"), ("v", "Some"), ("f", "0"), ("v", "Function"), ("f", "0"), ("f", "ident")]) if fns else None
        got, when = unroll(loops, name, pc, known.Known(fn=fact), len(ks) + 2)
        if when is NO:
            continue
        if any(t.k == "call" and t.a[0].startswith(("rec:", "std::")) for t in subterms(got or name)):
            yield ks, None      # found by other means than a loop: not followed
            continue
        if got is None:
            yield ks, "is not understood: the search for the function around it has no definite course"
            continue
        ids = {bare(t) for t in subterms(got) if t.k == "pr" and t.a[1] == ("f", "ident")}
        yield ks, None if ids == ({want} if fns else set()) else "is made of %s, expected %s" % (", ".join(show(x)[-60:] for x in ids) or "no name", "the name of the nearest function" if fns else "no name")


def bare(t):
    """without dereferences and copies, inside as well"""
    t = known.strip(t)
    if t.k == "pr":
        return get(bare(t.a[0]), [t.a[1]])
    return t


def unroll(loops, t, pc, K, rounds):
    """t and the condition pc after the loops have run as far as the known facts take them"""
    for e in sorted(loops, key=lambda e: e.uid):
        m = {phi: K.term(x[2]) for phi, x in e.extra["phis"].items()}
        for _ in range(rounds):
            go = [it for it in e.extra["iters"] if it.kind == "cont" and K.cond(subst_cond(it.pc, m)) is not NO]
            if not go:
                break
            if len(go) > 1 or K.cond(subst_cond(go[0].pc, m)) is not YES:
                return None, pc
            m = {phi: K.term(subst(v, m)) for phi, v in go[0].updates.items()}
        else:
            return None, pc
        t, pc = subst(t, m), subst_cond(pc, m)
    return K.term(t), K.cond(pc)


# ---- C02: nothing else is rewritten -----------------------------------------------------------------
def peel_proj(ps):
    return tuple(npr(p) for p in ps)


class FrameCheck:
    def __init__(self, w):
        self.w, self.res = w, w.res
        self.memo = {}
        self.g = YES               # under this condition
        self.loopups = {}
        for e in w.res.loops.values():
            for t in e.extra["phis"]:
                self.loopups.setdefault(t, []).extend(it.updates.get(t) for it in e.extra["iters"])

    def same(self, t, ps):
        """problems: reasons why t is not the node at ps with visited parts replaced by their visited versions"""
        k = (t, ps, self.g)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []          # induction hypothesis for loops
        r = self.memo[k] = self._same(t, ps)
        return r

    def _same(self, t, ps):
        k = t.k
        if k in ("at", "pr", "sym"):
            p = self.res.place(t)
            if t.k == "pr" and t.a[0].k in ("phi", "upd", "out"):
                return self.same_pr(t, ps)
            if p == ("node", ps):
                return []
            if t.k == "pr":
                b = t
                while b.k == "pr":
                    b = b.a[0]
                if b.k == "phi":
                    return self.same_pr(t, ps)
            return ["%s comes from %s" % (self.nm(ps), show(t)[:100])]
        if k == "upd":
            bad = self.same(t.a[0], ps)
            for q, v in t.a[1]:
                q = peel_proj(q)
                bad = bad + self.same(v, ps + q)
            return bad
        if k == "out":
            uid, i, role = t.a
            a = self.res.uidargs.get(uid)
            if role not in ("VE", "VI", "H", "M", "R") or a is None:
                return ["%s is rewritten by %s" % (self.nm(ps), role)]
            if role in ("VE", "VI", "R") and i != (1 if role == "R" else 0):
                return ["%s is rewritten" % self.nm(ps)]
            return self.same(a[i], ps)
        if k == "phi":
            e = self.res.phis.get(t)
            if e is None:
                return ["%s: loop value" % self.nm(ps)]
            bad = self.same(e, ps)
            for u in self.loopups.get(t, ()):
                if u is not None and u is not t:
                    bad = bad + self.same(u, ps)
            return bad
        if k == "choice":
            bad = []
            for g, x in t.a[0]:
                if conj(self.g, g) is not NO:
                    bad = bad + self.same(x, ps)
            return bad
        if k == "agg":
            bad = []
            p2 = ps
            if t.a[0] in (OPTION,) or self.is_enum(t.a[0]):
                p2 = ps + (("v", t.a[1]),)
            for n, x in t.a[2]:
                bad = bad + self.same(x, p2 + (("f", n),))
            return bad
        return ["%s becomes %s" % (self.nm(ps), show(t)[:100])]

    def is_enum(self, key):
        a = self.w.an.p.adts.get(key)
        return a is not None and a["kind"].lower() == "enum"

    def same_pr(self, t, ps):
        b, pj = t, ()
        while b.k == "pr":
            pj = (b.a[1],) + pj
            b = b.a[0]
        pj = peel_proj(pj)
        if self.res.place(t) != ("node", ps) and (b.k != "phi" or ps[-len(pj):] != pj):
            return ["%s comes from %s" % (self.nm(ps), show(t)[:100])]
        return self.same(b, ps[:-len(pj)])

    def nm(self, ps):
        return self.w.name(("node", ps))


def c02(ck, an):
    """the visitors replace visited parts by their visited versions and touch nothing else"""
    TRY = (("v", "Try"), ("f", "0"), ("f", "expr"))
    seen = {}
    n = 0
    for w in walks(an):
        fc = FrameCheck(w)
        for s, g, c, v in w.paths:
            t = s.mem.get(("S", sym("node")))
            n += 1
            key = mk("vdisc", "node", (), "syn::expr::Expr" if w.which == "VE" else "syn::item::Item")
            d = conds.definite(c).get(key)
            inst = "%s %s" % (w.nice, d[1] if d and d[0] == "=" else "(other kinds)")
            if t is None:
                once(ck, seen, "C02.frame", inst, True, "")
                continue
            bad = []
            for cc, x in alts(t):
                if conj(g, cc) is NO:
                    continue
                fc.g = conj(g, cc) if d == ("=", "Try") else YES
                b = fc.same(x, ())
                if b and d == ("=", "Try"):
                    # `?` removed: the node is replaced by its (hooked) operand, and only on the renderer's demand
                    b = attrs_kept(fc, w, x, conj(g, cc)) or (["`?` is removed although the method does not end in `!`"] if not demanded(w, conj(g, cc)) else [])
                elif not b and d == ("=", "Try") and refused(w, conj(g, cc)):
                    b = ["`?` is kept although the method ends in `!`"]
                bad += b
            once(ck, seen, "C02.frame", inst, not bad, "; ".join(sorted(set(bad))[:4]))
    ck.floor("successful paths", n, 60)


def attrs_kept(fc, w, x, g):
    """`?` removed: what stays is the operand; the attributes of the `?` move to parentheses around it, unless there are none"""
    TRY = (("v", "Try"), ("f", "0"))
    if x.k == "agg" and x.a[1] in ("Paren", "Group") and not fc.same(x, TRY + (("f", "expr"),)) == []:
        y = get(x, [("v", x.a[1]), ("f", "0")])
        return fc.same(get(y, [("f", "expr")]), TRY + (("f", "expr"),)) + fc.same(get(y, [("f", "attrs")]), TRY + (("f", "attrs"),))
    b = fc.same(x, TRY + (("f", "expr"),))
    if not b and not any(not fc.same(k.a[0], TRY + (("f", "attrs"),)) and conds.implies(g, lit(k, ("=", terms.FALSE)))
                         for k in conds.support(g) if k.k == "has"):
        b = ["the attributes of a removed `?` (`#[cfg(..)] f()?;`) are lost"]
    return b


def render_results(w, g):
    for k in conds.support(g):
        if k.k == "disc" and k.a[1] == OPTION:
            b = k.a[0]
            if b.k == "pr":
                while b.k == "pr":
                    b = b.a[0]
                if b.k == "call" and b.a[0] == "R" and k.a[0] is get(b, [("v", "Ok"), ("f", "0")]):
                    yield k


def demanded(w, g):
    ks = list(render_results(w, g))
    return any(conds.implies(g, lit(k, ("=", "Some"))) for k in ks)


def refused(w, g):
    ks = list(render_results(w, g))
    return any(conds.implies(g, lit(k, ("=", "Some"))) for k in ks)
