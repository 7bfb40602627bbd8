"""C29: looking a binding up in the meta data."""
import copy
from terms import *
import conds
from lint import *
from known import *
from walk import alts
import re


def the_lookup(p):
    """the public method that takes a name and gives an optional `Rc` of its own type parameter"""
    out = []
    for k, b in p.bodies.items():
        if b["kind"] == "AssocFn" and [p.tname(x) for x in b["inputs"]] == ["&HooqMeta", "&str"]:
            m = re.match(r"core::option::Option<alloc::rc::Rc<\$|std::option::Option<std::rc::Rc<\$", p.tname(b["output"]))
            if m:
                out.append(k)
    if len(out) != 1:
        raise Anchor("the lookup of a binding: %s" % out)
    return out[0]


def at(t):
    return mk("at", t)


def pr(t, p):
    return get(t, (p,))


def is_key(t, key):
    """the text asked for, perhaps copied"""
    t = strip(t)
    while t.k == "call" and t.a[0] == "to_string" and len(t.a[1]) == 1:
        t = strip(t.a[1][0])
    return t is strip(key)


def is_eq(k, maps, key):
    """`k` says: the name of this element of the map is the one asked for"""
    if k.k == "bin" and k.a[0] == "Eq":
        for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
            x = strip(x)
            if is_key(y, key) and x.k == "pr" and x.a[1] == F("0") and x.a[0].k == "pr" and x.a[0].a[1][0] == "e" and x.a[0].a[0] is maps:
                return x.a[0]
    return None


def entry(t, maps, key):
    """-> (which, None | element): `t` is the value of an entry of the map"""
    t = strip(t)
    if t.k == "pr" and t.a[1] == F("value"):
        t = t.a[0]
        if t.k == "pr" and t.a[1][0] == "key" and t.a[0] is maps and is_key(t.a[1][1], key):
            return "key", None
        if t.k == "pr" and t.a[1] == F("1") and t.a[0].k == "pr" and t.a[0].a[1][0] == "e" and t.a[0].a[0] is maps:
            return "elem", t.a[0]
    return None, None


def c29(ck, an):
    p = an.sibling("hooq_helpers")
    sub = copy.copy(an)
    sub.p, sub.cache, sub.engines = p, {}, []
    fn = the_lookup(p)
    where = fn.split("::")[-1]
    slf, key = sym("self"), at(sym("key"))
    r = sub.run(fn, [slf, sym("key")], [])
    maps = pr(at(slf), F("bindings"))
    funs = sorted({fn} | {k for k in sub.reach(fn) if k in p.bodies})
    ck.note("functions of the lookup", len(funs))
    ck.floor("paths through the lookup", len(r.rs), 1)
    # the type tested is the type parameter of the lookup
    n = 0
    for k in funs:
        for cd, t, sp in p.callees(k):
            if cd and re.search(r"::(downcast\w*|is)$", cd.get("nice", "")) and ("dyn" in cd["nice"] or "Any" in cd["nice"]):
                n += 1
                tys = [p.tname(a) for a in cd.get("args", []) if isinstance(a, int)]
                tys = [x for x in tys if not x.endswith("Global")]
                ck.ob("C29.type", "%s (%s)" % (cd["nice"].split("::")[-1], sp), all(x.startswith("$") for x in tys), "a binding is tested against %s, not against the type asked for" % ", ".join(tys))
    ck.floor("tests of the type", n, 1)
    for e in r.eng.panics:
        ck.ob("C29.panic", "%s (%s)" % (e[0], e[1]), False, "the lookup can panic instead of giving nothing")
    known = set()
    for s, v in r.rs:
        for g, x in alts(v):
            h = conj(s.pc, g)
            if h is NO:
                continue
            ks = conds.support(h)
            # what holds when the binding is there and has the type
            there = YES
            for k in ks:
                if k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0] == "map_get_opt" and k.a[0].a[1][0] is maps and is_key(k.a[0].a[1][1], key):
                    there = conj(there, lit(k, ("=", "Some")))
                elif k.k == "exists" and k.a[0] is maps and all(is_eq(y, maps, key) is not None for y in conds.support(k.a[1])) and conds.support(k.a[1]):
                    there = conj(there, lit(k, ("=", TRUE)))
                elif k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0].endswith("::downcast"):
                    w, el = entry(k.a[0].a[1][0], maps, key)
                    if w == "key":
                        there = conj(there, lit(k, ("=", "Ok")))
                    for y in ks if w == "elem" else ():
                        if is_eq(y, maps, key) is el:
                            there = conj(there, disj(lit(y, ("=", FALSE)), lit(k, ("=", "Ok"))))
                elif k.k == "call" and k.a[0].endswith("::is") and len(k.a[1]) == 1 and entry(k.a[1][0], maps, key)[0] == "key":
                    there = conj(there, lit(k, ("=", TRUE)))
            if x.k == "agg" and x.a[1] == "None":
                bad = conj(h, there)
                ck.ob("C29.nothing", where, bad is NO, "gives nothing although the name is bound and the value has the type, when %s" % (show_cond(bad)[:300] if bad is not NO else ""))
                known.add("None")
                continue
            known.add("Some")
            got = agg_get(x, "0") if x.k == "agg" and x.a[1] == "Some" else None
            q = got.a[0].a[0] if got is not None and got.k == "pr" and got.a[1] == F("0") and got.a[0].k == "pr" and got.a[0].a[1] == V("Ok") else None
            w, el = entry(q.a[1][0], maps, key) if q is not None and q.k == "call" and q.a[0].endswith("::downcast") else (None, None)
            if w == "elem":
                good = any(is_eq(y, maps, key) is el and conds.implies(h, lit(y, ("=", TRUE))) for y in ks)
            else:
                good = w == "key"
            ck.ob("C29.value", where, good, "gives %s, which is not known to be the value bound to exactly the name asked for" % show(x)[:200])
    for w in ("None", "Some"):
        ck.ob("C29.both", "%s: %s" % (where, w), w in known, "the lookup never gives %s" % w)
    ck.note("functions", [f.split("::", 1)[1] for f in funs])
    # what the macro puts into the map: every binding in force under its own name, with its own value
    import render
    other = Checker("C21", ck.tier)
    render.c21(other, an)
    for rule, inst, good in other.obligations:
        if good and inst.startswith("hooq") and ".bindings" in inst:
            ck.ob("C29.map", inst, True)
    for key_, msg in other.failures:
        if "hooq" in key_ and ".bindings" in key_:
            ck.ob("C29.map", key_.split(":", 1)[-1], False, msg)
