"""C13: from the attribute arguments to the context the item is walked with, and what comes out."""
import conds
from lint import *
from known import *
from walk import alts
from attrs import flavor_name, all_fine
from render import unrep

SETTINGS = ("method", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types", "hook_in_macros", "bindings")


def top_of(an):
    if "top" not in an.cache:
        an.cache["top"] = an.run(an.role("TOP"), [sym("args"), sym("item")], ["GETF", "LOADSTORE", "VI"])
    return an.cache["top"]


def meta_loop(res):
    """the loop over the arguments of the attribute: (loop, list, position)"""
    for l in res.loops.values():
        for d, p in loop_dom(l):
            s = strip(d)
            if s.k == "pr" and s.a[1] == F("0") and s.a[0].k == "pr" and s.a[0].a[1] == V("Ok"):
                q = s.a[0].a[0]
                if parsed_from(q, lambda t: "Punctuated<syn::Meta" in t, lambda t: t is sym("args")) and full_loop(l, d, p):
                    return l, d, p
    raise Anchor("the arguments of the attribute are not read one by one")


def each(res, t):
    """token list built from a list, element by element: (list, element, tokens of the element) or None"""
    if t.k == "call" and t.a[0] == "collect" and t.a[1][0].a[-1] == "ts":
        y = t.a[1][2]
        if y.k == "yields" and not y.a[1] and len(y.a[0]) == 1:
            (g, v), = y.a[0]
            if g is YES and v.k == "ts" and v.a[0] is None:
                return t.a[1][1], get(t.a[1][1], [("e", sym("$e"))]), v.a[1]
    if t.k == "phi":
        lp = next((l for l in res.loops.values() if t in l.extra["phis"]), None)
        e = res.phis.get(t)
        if lp is None or not (e.k == "ts" and e.a[0] is None and not e.a[1]):
            return None
        for d, p in loop_dom(lp):
            its = lp.extra["iters"]
            if full_loop(lp, d, p) and len(its) == 1 and its[0].kind == "cont":
                v = its[0].updates.get(t, t)
                if v.k == "ts" and v.a[0] is t:
                    return d, get(d, [("e", p)]), v.a[1]
    return None


def union(t):
    """the lists a list is put together from"""
    t = strip(t)
    if t.k == "seq" and all(x.k == "spread" for x in t.a[1]):
        return ([strip(t.a[0])] if t.a[0] is not None else []) + [y for x in t.a[1] for y in union(x.a[0])]
    return [t]


def field(t, f):
    """a field of a structure value"""
    return get(t, [F(f)])


def innermost(t, n=0):
    """the value in the shared cells around it"""
    t = strip(t)
    while t.k == "agg" and len(t.a[2]) == 1 and n < 4:
        t = strip(t.a[2][0][1])
        n += 1
    return t


def c13(ck, an):
    res = top_of(an)
    paths = oks(res)
    if not paths:
        raise Anchor("the expansion never succeeds")
    lp, dom, pos = meta_loop(res)
    for s, g, v in paths:
        evs = [e for e in s.log() if e.kind == "visit"]
        vi = [e for e in evs if e.name == "VI"]
        ck.ob("C13.walk", "item", len(vi) == 1 and strip(vi[0].args[0]) is sym("item"), "the annotated item is not walked exactly once")
        if len(vi) != 1:
            continue
        ctx = vi[0].args[1]
        if ctx.k == "ref":
            ctx = s.mem.get(ctx.a[0], ctx)
        flavors = {z for z in subterms(ctx) if z.k == "call" and z.a[0] == "GETF"}
        ck.ob("C13.flavor", "one", len(flavors) == 1, "the settings come from %d flavors" % len(flavors))
        if len(flavors) != 1:
            continue
        q = flavors.pop()
        fl = get(q, [V("Ok"), F("0")])
        store = strip(q.a[1][0])
        ck.ob("C13.flavor", "store", store.k == "pr" and store.a[0].k == "pr" and store.a[0].a[0].k == "call" and store.a[0].a[0].a[0] == "LOADSTORE", "the flavor is looked up in %s" % show(store)[:100])
        # which flavor
        phi = None
        for c2, p in alts(q.a[1][1]):
            h = conj(g, c2)
            if h is NO:
                continue
            p = strip(p)
            if p.k == "pr" and p.a[0].k == "pr" and p.a[0].a[1] == V("Some"):
                phi = p.a[0].a[0]
                ck.ob("C13.flavor", "given", phi in lp.extra["phis"] and conds.implies(h, lit(mk("disc", phi, OPTION), ("=", "Some"))), "the flavor looked up is not the one given: %s" % show(p)[:100])
            else:
                n = flavor_name(p)
                ck.ob("C13.flavor", "default", n == ("const", "default") , "without a flavor argument the flavor looked up is %s" % (show(p)[:100] if n is None else str(n[1])[:100]))
                for k in conds.support(h):
                    if k.k == "disc" and k.a[0].k == "phi" and k.a[0] in lp.extra["phis"]:
                        ck.ob("C13.flavor", "default only", conds.implies(h, lit(k, ("=", "None"))), "the default flavor is used although one is given")
        ck.ob("C13.flavor", "argument", phi is not None, "the flavor given is not looked up")
        if phi is None:
            continue
        # the settings in force
        lc = field(ctx, "local_context")
        for f in SETTINGS:
            x = field(lc, f)
            val = innermost(field(x, "val"))
            ck.ob("C13.setting", f, strip(val) is get(fl, [F(f)]), "`%s` at the root is %s" % (f, show(val)[:120]))
            over = field(x, "overridden_ancestor")
            ck.ob("C13.setting", f + " chain", over.k == "agg" and over.a[1] == "None", "`%s` at the root overrides something" % f)
        for f in ("skip_status", "fn_info"):
            val = innermost(field(field(lc, f), "val"))
            ck.ob("C13.setting", f, val.k == "agg" and val.a[1] == "None", "`%s` at the root is %s" % (f, show(val)[:80]))
        # what comes out
        out = simp(get(v, [V("Ok"), F("0")]), g)
        if not (out.k == "ts" and out.a[0] is None):
            raise Anchor("the expansion is %s" % show(out)[:100])
        toks = out.a[1]
        good = len(toks) == 2 and all(t[0] == "interp" for t in toks)
        ck.ob("C13.output", "parts", good, "the expansion is not the trait imports followed by the item: %s" % show(out)[:150])
        if not good:
            continue
        ck.ob("C13.output", "item", toks[1][1].k == "out" and toks[1][1].a[0] == vi[0].uid and toks[1][1].a[1] == 0, "the item put out is not the walked one: %s" % show(toks[1][1])[:100])
        e = each(res, toks[0][1])
        ck.ob("C13.traits", "imports", e is not None, "the trait imports are not built from a list, one by one")
        if e is None:
            continue
        src, el, ts = e
        parts = union(src)
        own = [x for x in parts if x.k == "phi" and x in lp.extra["phis"]]
        ck.ob("C13.traits", "flavor", any(x is get(fl, [F("trait_uses")]) for x in parts), "the trait imports of the flavor are not put out")
        ck.ob("C13.traits", "attribute", len(own) == 1, "the trait imports of the attribute are not put out")
        ck.ob("C13.traits", "no others", len(parts) == 2, "the trait imports are those of %d lists" % len(parts))
        i = 0
        while i + 1 < len(ts) and ts[i] == ("p", "#") and ts[i + 1][0] == "grp":
            i += 2
        rest = ts[i:]
        good = len(rest) == 5 and rest[0] == ("id", "use") and rest[1][0] == "interp" and strip(unrep(rest[1][1])) is strip(el) and rest[2] == ("id", "as") and rest[3][1] == "_" and rest[4] == ("p", ";")
        ck.ob("C13.traits", "form", good, "a trait import is put out as %s" % show(mk("ts", None, ts))[:150])
        if len(own) == 1:
            arguments(ck, an, res, lp, dom, pos, phi, own[0])
    ck.floor("successful expansions", len(paths), 1)


def arguments(ck, an, res, lp, dom, pos, fphi, tphi):
    """each form of argument"""
    e = res.phis[fphi]
    ck.ob("C13.args", "no flavor", e.k == "agg" and e.a[1] == "None", "a flavor is set without any argument")
    e = res.phis[tphi]
    ck.ob("C13.args", "no traits", e.k == "seq" and e.a[0] is None and not e.a[1], "trait imports are set without any argument")
    meta = get(dom, [("e", pos)])
    mty = next((k.a[1] for it in lp.extra["iters"] for k in conds.support(it.pc) if k.k == "disc" and k.a[0] is meta), None)
    if mty is None:
        raise Anchor("the form of an argument is not looked at")
    here = lit(mk("has", dom, pos, 0), ("=", TRUE))

    def at(kind, segs, vals=None):
        m = get(meta, [V(kind), F("0")])
        p = m if kind == "Path" else get(m, [F("path")])
        v = {mk("disc", meta, mty): kind}
        K = Known({p: segs}, v)
        if vals:
            x = get(m, [F("value")])
            for it in lp.extra["iters"]:
                for k in conds.support(it.pc):
                    if k.k == "disc" and k.a[0] is x:
                        v[k] = vals[0]
                    if k.k == "disc" and k.a[0] is get(x, [V("Lit"), F("0"), F("lit")]):
                        v[k] = vals[1]
            for pc in lp.extra["exitpcs"]:
                for k in conds.support(pc):
                    if k.k == "disc" and k.a[0] is x:
                        v[k] = vals[0]
                    if k.k == "disc" and k.a[0] is get(x, [V("Lit"), F("0"), F("lit")]):
                        v[k] = vals[1]
            K = Known({p: segs}, v)
        return K, m, p

    def rounds(K):
        out = []
        for it in lp.extra["iters"]:
            if it.kind == "cont":
                h = K.cond(it.pc)
                if h is not NO:
                    out.append((h, it))
        return out

    def error(what, K):
        ck.ob("C13.error", what, not rounds(K), "the argument `%s` is accepted" % what)

    def fine(what, K, changes):
        rs = rounds(K)
        ck.ob("C13.args", what, bool(rs), "the argument `%s` is not accepted" % what)
        for h, it in rs:
            for name, phi in (("flavor", fphi), ("trait imports", tphi)):
                v = K.term(it.updates.get(phi, phi), h)
                if name not in changes:
                    ck.ob("C13.args", "%s: %s" % (what, name), v is phi, "the argument `%s` changes the %s" % (what, name))
                else:
                    why = changes[name](K, v, h)
                    ck.ob("C13.args", "%s: %s" % (what, name), why is None, "the argument `%s` gives the %s %s" % (what, name, why))
        bad = NO
        for pc in lp.extra["exitpcs"]:
            x = K.cond(conj(pc, here))
            bad = disj(bad, conj(x, all_fine(x)))
        ck.ob("C13.args", what + " accepted", bad is NO, "the argument `%s` is rejected although well-formed: %s" % (what, show_cond(bad)[:200]))

    def named(kind, src):
        def test(K, v, h):
            n = 0
            for c2, x in alts(v):
                if conj(h, c2) is NO:
                    continue
                if x is fphi or not (x.k == "agg" and x.a[1] == "Some"):
                    # a path has at least one part
                    if nonempty_path(conj(h, c2)):
                        return "%s" % show(x)[:80]
                    continue
                y = flavor_name(x.a[2][0][1])
                if y is None or y[0] != kind or y[1] is not src:
                    return "%s" % show(x)[:120]
                n += 1
            return None if n else "as it was"
        return test

    def nonempty_path(g):
        for k in conds.support(g):
            if k.k == "has" and conds.implies(g, lit(k, ("=", FALSE))):
                return False
        return True

    for segs in (["my_flavor"], ["log", "warn"], ["flavor"], ["default"], ["trait_use"]):
        K, m, p = at("Path", segs)
        fine("::".join(segs), K, {"flavor": named("path", p)})
    for w in ("trait_use", "trait_uses"):
        K, m, p = at("List", [w])
        tok = get(m, [F("tokens")])

        def added(K, v, h, tok=tok):
            ps = union(v)
            new = [x for x in ps if x is not tphi]
            if len(ps) != 2 or len(new) != 1:
                return "as %s" % show(v)[:100]
            x = new[0]
            if not (x.k == "pr" and x.a[1] == F("0") and x.a[0].k == "pr" and x.a[0].a[1] == V("Ok") and parsed_from(x.a[0].a[0], lambda t: "Punctuated<syn::Path, syn::token::Comma>" in t, lambda t: t is tok)):
                return "as %s" % show(x)[:100]
            return None
        fine("%s(..)" % w, K, {"trait imports": added})
    for segs in (["method"], ["hooq", "trait_use"], ["flavor"], ["use"]):
        K, m, p = at("List", segs)
        error("%s(..)" % "::".join(segs), K)
    K, m, p = at("NameValue", ["flavor"], ("Lit", "Str"))
    fine('flavor = ".."', K, {"flavor": named("text", get(m, [F("value"), V("Lit"), F("0"), F("lit"), V("Str"), F("0")]))})
    K, m, p = at("NameValue", ["flavor"], ("Lit", "Int"))
    error("flavor = 1", K)
    K, m, p = at("NameValue", ["flavor"], ("Path", "Str"))
    error("flavor = path", K)
    for segs in (["trait_use"], ["method"], ["hooq", "flavor"], ["flavors"]):
        K, m, p = at("NameValue", segs, ("Lit", "Str"))
        error('%s = ".."' % "::".join(segs), K)
