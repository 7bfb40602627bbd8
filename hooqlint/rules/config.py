"""C14, C15: hooq.toml applied over the built-in flavors."""
import conds
import purity
from lint import *
from known import *
from walk import alts

FLAVOR = ("trait_uses", "method", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types", "hook_in_macros", "bindings", "sub_flavors")
PLAIN = ("result_types", "hook_in_macros")


class Apply:
    """the function that applies a list of tables to a map of flavors"""

    def __init__(self, an, opts=None):
        self.an = an
        k = an.role("UPD")
        b = an.p.bodies[k]
        tys = [an.p.tname(x) for x in b["inputs"]]
        names = []
        for t in tys:
            if t.startswith("&mut ") and "HashMap" in t:
                names.append("flavors")
            elif "FlavorTable" in t:
                names.append("tables")
            elif t.startswith("&") and t.endswith("Flavor"):
                names.append("base")
            else:
                names.append("arg%d" % len(names))
        self.pos = {n: i for i, n in enumerate(names)}
        for n in ("flavors", "tables", "base"):
            if n not in self.pos:
                raise Anchor("tables are applied by a function without %s" % n)
        self.res = an.run(k, [sym(n) for n in names], ["UPD", "HELPATH"], opts)
        self.find()

    def find(self):
        for l in self.res.loops.values():
            for d, p in loop_dom(l):
                if strip(d) is sym("tables") and full_loop(l, d, p):
                    self.lp, self.dom, self.p = l, d, p
                    el = get(d, [("e", p)])
                    self.name, self.tab = get(el, [F("0")]), get(el, [F("1")])
                    self.facts()
                    return
        raise Anchor("the tables are not applied one by one")

    def facts(self):
        """for each setting of a table, the fact that says whether it is mentioned"""
        self.said = {}
        want = {get(self.tab, [F(f)]): f for f in FLAVOR}
        ks = set()
        for it in self.lp.extra["iters"]:
            if it.kind == "cont":
                ks.update(conds.support(it.pc))
                for v in it.updates.values():
                    for x in subterms(v):
                        if x.k == "choice":
                            for g, _ in x.a[0]:
                                ks.update(conds.support(g))
        for k in ks:
            if k.k == "disc" and strip(k.a[0]) in want:
                self.said[want[strip(k.a[0])]] = k

    def slots(self, it):
        """memory of the map of flavors after an iteration: [(key or None, phi, value)]"""
        out = []
        for phi, (root, path, _) in self.lp.extra["phis"].items():
            if root == ("S", sym("flavors")):
                key = path[0][1] if path and path[0][0] == "key" else None
                if key is not None and len(path) > 1:
                    key = None
                out.append((path, phi, it.updates.get(phi, phi)))
        return out


def outcome(ap, it):
    """(value of the table's flavor after the iteration, [other parts of the map that changed])"""
    val, other = None, []
    mine = lambda k: strip(k) is strip(ap.name)
    for path, phi, v in ap.slots(it):
        if v is phi:
            continue
        if len(path) == 1 and path[0][0] == "key" and mine(path[0][1]):
            val = v
        elif not path and only_key(v, phi, mine):
            val = get(v, [("key", ap.name)])
        else:
            other.append(showp(path))
    return val, other


def only_key(v, phi, mine):
    """the map v is phi but for the entry of one key"""
    if v is phi:
        return True
    if v.k == "choice":
        return all(only_key(x, phi, mine) for _, x in v.a[0])
    if v.k == "upd":
        return all(q and q[0][0] == "key" and mine(q[0][1]) for q, _ in v.a[1]) and only_key(v.a[0], phi, mine)
    if v.k == "call" and v.a[0] in ("map_insert", "map_remove"):
        return mine(v.a[1][1]) and only_key(v.a[1][0], phi, mine)
    return False


def showp(path):
    return "flavors" + "".join("[%s]" % show(p[1]) if p[0] in ("key", "e") and isinstance(p[1], T) else ".%s" % (p[1] if len(p) > 1 else p[0]) for p in path)


def present(ap, g):
    """whether the flavor of that name is known to exist already: True, False or None"""
    for k in conds.support(g):
        if k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0] == "map_get_opt" and strip(k.a[0].a[1][1]) is strip(ap.name) and from_flavors(ap, k.a[0].a[1][0]):
            if conds.implies(g, lit(k, ("=", "Some"))):
                return True
            if conds.implies(g, lit(k, ("=", "None"))):
                return False
    return None


def from_flavors(ap, m):
    """the map is the one being changed, before this table"""
    m = strip(m)
    while m.k == "upd":
        m = strip(m.a[0])
    if m is sym("flavors") or (m.k == "at" and m.a[0] is sym("flavors")):
        return True
    e = ap.res.phis.get(m)
    return e is not None and from_flavors(ap, e)


def is_old(ap, t, f):
    """t is the setting f of the flavor of that name as it was"""
    t = strip(t)
    if not (t.k == "pr" and t.a[1] == F(f)):
        return False
    x = strip(t.a[0])
    if x.k == "pr" and x.a[1] == F("0") and x.a[0].k == "pr" and x.a[0].a[1] == V("Some"):
        q = x.a[0].a[0]
        return q.k == "call" and q.a[0] == "map_get_opt" and strip(q.a[1][1]) is strip(ap.name) and from_flavors(ap, q.a[1][0])
    if x.k == "pr" and x.a[1][0] == "key":
        return strip(x.a[1][1]) is strip(ap.name) and from_flavors(ap, x.a[0])
    ph = ap.lp.extra["phis"].get(x)
    return ph is not None and ph[0] == ("S", sym("flavors")) and len(ph[1]) == 1 and ph[1][0][0] == "key" and strip(ph[1][0][1]) is strip(ap.name)


def is_base(t, f):
    t = strip(t)
    return t.k == "pr" and t.a[1] == F(f) and strip(t.a[0]) is sym("base")


def inherited(ap, t, f, g):
    """what is wrong with t as the inherited value of f under g, or None"""
    for c2, x in alts(t):
        h = conj(g, c2)
        if h is NO:
            continue
        there = present(ap, h)
        if there is True and not is_old(ap, x, f):
            return "of an existing flavor becomes %s" % show(x)[:100]
        if there is False and not is_base(x, f):
            return "of a new flavor is %s, not that of the parent" % show(x)[:100]
        if there is None:
            return "is %s whether or not the flavor exists" % show(x)[:100]
    return None


def mention(ap, f, g):
    """conditions under which the table mentions f, and does not"""
    k = ap.said.get(f)
    return (conj(g, lit(k, ("=", "Some"))), conj(g, lit(k, ("=", "None")))) if k is not None else (NO, g)


def parsed_list(t, src, typ, wrap):
    """t is the list of what each element of src parses to; the parse term, or None"""
    t = strip(t)
    if t.k == "call" and t.a[0] == "collect" and strip(t.a[1][1]) is src:
        y = t.a[1][2]
        if y.k != "yields" or y.a[1] or len(y.a[0]) != 1:
            return None
        (g, v), = y.a[0]
        return wrap(v, get(t.a[1][1], [("e", sym("$e"))]))
    return None


def pushed_list(res, t, src, wrap):
    if t.k != "phi":
        return None
    e = res.phis.get(t)
    lp = next((l for l in res.loops.values() if t in l.extra["phis"]), None)
    if lp is None or not (e.k == "seq" and e.a[0] is None and not e.a[1]):
        return None
    for d, p in loop_dom(lp):
        if strip(d) is not src or not full_loop(lp, d, p):
            continue
        for it in lp.extra["iters"]:
            v = it.updates.get(t, t)
            if it.kind != "cont" or not (v.k == "seq" and v.a[0] is t and len(v.a[1]) == 1 and wrap(v.a[1][0], get(d, [("e", p)]))):
                return None
        return True
    return None


def unok(t):
    """the call whose success value t is"""
    t = strip(t)
    if t.k == "pr" and t.a[1] == F("0") and t.a[0].k == "pr" and t.a[0].a[1] == V("Ok"):
        return t.a[0].a[0]
    return None


def parses(t, typ, text):
    """t is the result of reading the text as that type"""
    p = unok(t)
    return p is not None and p.k == "call" and p.a[0] == "parse" and ty(p.a[1][0]) == typ and strip(p.a[1][1]) is strip(text)


def unrc(t):
    t = strip(t)
    while t.k == "call" and t.a[0].split("::")[-1] in ("new", "from", "Rc") and len(t.a[1]) == 1:
        t = strip(t.a[1][0])
    return t


def empty_key(k, src_test):
    """the fact says whether a collection that passes the test is non-empty: (value when non-empty)"""
    if k.k == "has" and k.a[1] is cint(0) and k.a[2] == 0 and src_test(strip(k.a[0])):
        return TRUE
    if k.k == "call" and k.a[0].endswith("is_empty") and src_test(strip(k.a[1][0])):
        return FALSE
    return None


def lists_of(t):
    """the lists put one after the other"""
    t = strip(t)
    if t.k == "seq" and all(x.k == "spread" for x in t.a[1]):
        return ([strip(t.a[0])] if t.a[0] is not None else []) + [y for x in t.a[1] for y in lists_of(x.a[0])]
    if t.k == "call" and t.a[0] in ("concat", "slice::concat") and t.a[1]:
        x = strip(t.a[1][0])
        if x.k == "seq" and x.a[0] is None:
            return [y for e in x.a[1] for y in lists_of(e)]
    return [t]


def written(ap, f, t, g, ck):
    """what is wrong with t as the value the table gives f, or None"""
    res, an = ap.res, ap.an
    src = get(ap.tab, [F(f), V("Some"), F("0")])
    if f in PLAIN:
        return None if strip(t) is src else "is %s" % show(t)[:100]
    if f == "trait_uses":
        w = lambda v, el: parses(v, "syn::Path", el)
        return None if parsed_list(t, src, "syn::Path", w) or pushed_list(res, t, src, w) else "is %s" % show(t)[:120]
    if f == "hook_targets":
        return switch_of(res, t, lambda x: x is src)
    if f == "tail_expr_idents":
        return None if split_bang(res, t, 0, lambda x: x is src) else "is %s" % show(t)[:120]
    raise AssertionError(f)


def c14(ck, an):
    ap = Apply(an)
    n = 0
    methods = []
    for it in ap.lp.extra["iters"]:
        if it.kind != "cont":
            continue
        g = it.pc
        val, other = outcome(ap, it)
        ck.ob("C14.frame", "other flavors", not other, "a table changes more than the flavor of its name: %s" % ", ".join(other)[:200])
        if not ck.ob("C14.frame", "flavor", val is not None, "the table's flavor is not put in place"):
            continue
        n += 1
        upd = [e for e, ls in flat(ap.res, it.events) if e.kind == "visit" and e.name == "UPD"]
        for f in FLAVOR:
            t = simp(get(val, [F(f)]), g)
            if f == "bindings":
                why = bindings(ap, t, g)
                ck.ob("C14.bindings", "merged by name", why is None, "the bindings of a table are %s" % why)
                continue
            if f == "sub_flavors":
                sub(ck, ap, it, val, t, g, upd)
                continue
            said, silent = mention(ap, f, g)
            if f == "ignore_tail_expr_idents":
                why = ignored(ap, t, g)
                ck.ob("C14.setting", f, why is None, "`%s` %s" % (f, why))
                continue
            if silent is not NO:
                why = inherited(ap, t, f, silent)
                ck.ob("C14.inherit", f, why is None, "`%s`, not mentioned in the table, %s" % (f, why))
            ck.ob("C14.setting", f, f in ap.said, "`%s` of a table has no effect" % f)
            if said is NO:
                continue
            if f == "method":
                methods += [(conj(said, c2), x) for c2, x in alts(t) if conj(said, c2) is not NO]
                continue
            for c2, x in alts(t):
                h = conj(said, c2)
                if h is NO:
                    continue
                why = written(ap, f, x, h, ck)
                ck.ob("C14.setting", f, why is None, "`%s`, set in the table, %s" % (f, why))
    why = method_why(an, ap, methods)
    ck.ob("C14.setting", "method", why is None, "`method`, set in the table: %s" % why)
    for s, g, v in oks(ap.res):
        ck.ob("C14.all", "tables", not broke_out(g, s.facts, ap.dom, ap.p), "not every table is applied")
    ck.floor("ways a table is applied", n, 1)
    entry(ck, an, ap)
    reading(ck, an, an.adt("FlavorTable"), FLAVOR[:-1], "sub_flavors")
    reading(ck, an, an.adt("HooqToml"), (), "flavors")


def method_why(an, ap, methods):
    """what is wrong with the values [(condition, value)] the table's method takes"""
    if not methods:
        return "has no effect"
    text = get(ap.tab, [F("method"), V("Some"), F("0")])
    return method_of(an, mkchoice(methods), YES, lambda x: parses(x, "proc_macro2::TokenStream", text), consume=(an.config == "consume"))


def bindings(ap, t, g):
    src = get(ap.tab, [F("bindings")])

    def wrap(v, el):
        return v.k == "agg" and len(v.a[2]) == 2 and strip(v.a[2][0][1]) is get(el, [F("0")]) and parses(unrc(v.a[2][1][1]), "syn::Expr", get(el, [F("1")]))

    for c2, x in alts(t):
        h = conj(g, c2)
        if h is NO:
            continue
        x = strip(x)
        if x.k == "call" and x.a[0] in ("map_extend", "extend"):
            base, new = x.a[1][0], x.a[1][1]
            for c3, y in alts(new):
                if conj(h, c3) is NO:
                    continue
                if not (parsed_list(y, src, "syn::Expr", wrap) or pushed_list(ap.res, y, src, wrap)):
                    return "merged with %s" % show(y)[:120]
        elif x.k == "phi" and x in ap.res.phis:
            base = ap.res.phis[x]
            lp = next((l for l in ap.res.loops.values() if x in l.extra["phis"]), None)
            doms = [(d, p) for d, p in loop_dom(lp) if strip(d) is src and full_loop(lp, d, p)]
            if not doms:
                return "not all read"
            el = get(doms[0][0], [("e", doms[0][1])])
            for i in lp.extra["iters"]:
                v = i.updates.get(x, x)
                if i.kind != "cont" or not (v.k == "call" and v.a[0] == "map_insert" and v.a[1][0] is x and strip(v.a[1][1]) is get(el, [F("0")]) and parses(unrc(v.a[1][2]), "syn::Expr", get(el, [F("1")]))):
                    return "put in as %s" % show(v)[:120]
        elif nothing(ap, h, "bindings"):
            base = x
        else:
            return "%s" % show(x)[:120]
        why = inherited(ap, base, "bindings", h)
        if why:
            return "those of a map that %s" % why
    return None


def nothing(ap, g, f):
    """the table's map f is empty"""
    src = get(ap.tab, [F(f)])
    for k in conds.support(g):
        v = empty_key(k, lambda x: x is src)
        if v is not None and conds.implies(g, lit(k, ("=", FALSE if v is TRUE else TRUE))):
            return True
    return False


def ignored(ap, t, g):
    """`ignore_tail_expr_idents`: the names listed, and those written with `!` in `tail_expr_idents`"""
    tl = get(ap.tab, [F("tail_expr_idents"), V("Some"), F("0")])
    il = get(ap.tab, [F("ignore_tail_expr_idents"), V("Some"), F("0")])
    said_i, silent_i = mention(ap, "ignore_tail_expr_idents", g)
    said_t, silent_t = mention(ap, "tail_expr_idents", g)
    is_bang = lambda x: split_bang(ap.res, x, 1, lambda y: y is tl)
    seen = 0
    for i_on, gi in ((True, said_i), (False, silent_i)):
        for t_on, gt in ((True, said_t), (False, silent_t)):
            h0 = conj(gi, gt)
            if h0 is NO:
                continue
            for c2, x in alts(t):
                h = conj(h0, c2)
                if h is NO:
                    continue
                parts = lists_of(x)
                own = [y for y in parts if strip(y) is il]
                bang = [y for y in parts if y is not il and is_bang(y)]
                what = "of a table %s `ignore_tail_expr_idents` and %s `tail_expr_idents`" % ("with" if i_on else "without", "with" if t_on else "without")
                if i_on or (t_on and bang):
                    if len(own) != (1 if i_on else 0) or len(own) + len(bang) != len(parts) or len(bang) > 1:
                        return "%s is %s" % (what, show(x)[:100])
                    if not t_on and bang:
                        return "%s is %s" % (what, show(x)[:100])
                    if t_on and i_on and not bang and not no_bang(ap, h, is_bang):
                        return "%s leaves out the names written with `!`" % what
                    if t_on and not i_on and not some_bang(ap, h, is_bang):
                        return "%s is emptied though no name is written with `!`" % what
                else:
                    if t_on and not no_bang(ap, h, is_bang):
                        return "%s leaves out the names written with `!`" % what
                    why = inherited(ap, x, "ignore_tail_expr_idents", h)
                    if why:
                        return "%s %s" % (what, why)
    return None


def with_bang(ap, is_bang):
    tl = get(ap.tab, [F("tail_expr_idents"), V("Some"), F("0")])
    return lambda x: is_bang(x) or split_bang(ap.res, x, 2, lambda y: y is tl)


def no_bang(ap, g, is_bang0):
    is_bang = with_bang(ap, is_bang0)
    return any(empty_key(k, is_bang) is not None and conds.implies(g, lit(k, ("=", FALSE if empty_key(k, is_bang) is TRUE else TRUE))) for k in conds.support(g))


def some_bang(ap, g, is_bang0):
    is_bang = with_bang(ap, is_bang0)
    return any(empty_key(k, is_bang) is not None and conds.implies(g, lit(k, ("=", empty_key(k, is_bang)))) for k in conds.support(g))


def same(a, b, g):
    """equal under g"""
    for c2, x in alts(a):
        h = conj(g, c2)
        if h is NO:
            continue
        for c3, y in alts(b):
            if conj(h, c3) is NO:
                continue
            if strip(x) is not strip(y) and not (x.k == "agg" and y.k == "agg" and x is y):
                return False
    return True


def sub(ck, ap, it, val, t, g, upd):
    src = get(ap.tab, [F("sub_flavors")])
    if not upd:
        ck.ob("C14.sub", "applied", nothing(ap, g, "sub_flavors"), "sub-tables are not applied")
        why = inherited(ap, t, "sub_flavors", g)
        ck.ob("C14.sub", "kept", why is None, "`sub_flavors` of a table without sub-tables %s" % why)
        return
    ck.ob("C14.sub", "once", len(upd) == 1, "sub-tables are applied %d times" % len(upd))
    e = upd[0]
    ck.ob("C14.sub", "tables", strip(e.args[ap.pos["tables"]]) is src, "the sub-tables applied are %s" % show(e.args[ap.pos["tables"]])[:100])
    a = e.args[ap.pos["flavors"]]
    why = inherited(ap, simp(a, g), "sub_flavors", g)
    ck.ob("C14.sub", "over", why is None, "the map the sub-tables are applied to %s" % why)
    out = [x for c2, x in alts(t) if conj(g, c2) is not NO]
    ck.ob("C14.sub", "result", all(x.k == "out" and x.a[0] == e.uid and x.a[1] == ap.pos["flavors"] for x in out) and out, "the sub-flavors kept are not those the sub-tables were applied to: %s" % [show(x)[:80] for x in out][:3])
    b = e.args[ap.pos["base"]]
    for f in FLAVOR:
        if f == "sub_flavors":
            continue
        x, y = simp(get(b, [F(f)]), g), simp(get(val, [F(f)]), g)
        ck.ob("C14.sub", "parent " + f, x is y or same(x, y, g), "a new sub-flavor inherits a `%s` which is not that of its parent after the parent's own changes: %s" % (f, show(x)[:150]))


def entry(ck, an, ap):
    """hooq.toml as a whole: all its tables, over the presets, with the default flavor for new names"""
    k = an.role("UPDF")
    b = an.p.bodies[k]
    res = an.run(k, [sym("flavors"), sym("toml")], ["UPD", "HELPATH"])
    n = 0
    for s, g, v in oks(res):
        evs = [e for e in s.log() if e.kind == "visit" and e.name == "UPD"]
        if not ck.ob("C14.entry", "applied", len(evs) == 1, "the tables of hooq.toml are applied %d times" % len(evs)):
            continue
        e = evs[0]
        n += 1
        a = e.args[ap.pos["flavors"]]
        ck.ob("C14.entry", "flavors", strip(a) is sym("flavors"), "the tables are applied to %s" % show(a)[:100])
        t = strip(e.args[ap.pos["tables"]])
        ck.ob("C14.entry", "tables", t.k == "pr" and strip(t.a[0]) is sym("toml"), "the tables applied are %s" % show(t)[:100])
        d = default_flavor(an)
        x = e.args[ap.pos["base"]]
        ck.ob("C14.entry", "default", d is not None and all(same(get(x, [F(f)]), get(d, [F(f)]), YES) for f in FLAVOR if f not in ("bindings", "sub_flavors")), "a new flavor does not start from the default flavor: %s" % show(x)[:150])
    ck.floor("ways hooq.toml is applied", n, 1)


def presets(an):
    """{name: flavor} as built in"""
    if "presets" not in an.cache:
        res = an.run(an.role("PRE"), [], ["HELPATH"])
        if len(res.rs) != 1:
            raise Anchor("the built-in flavors depend on something")
        an.cache["presets"] = entries(res.rs[0][1])
    return an.cache["presets"]


def entries(t):
    """{constant key: value} of a map built from constants"""
    t = strip(t)
    if t.k == "call" and t.a[0] == "map_insert":
        d = dict(entries(t.a[1][0]))
        k = strip(t.a[1][1])
        if k.k != "c":
            raise Anchor("a built-in map has the key %s" % show(k)[:60])
        d[k.a[1]] = t.a[1][2]
        return d
    if t.k == "call" and t.a[0] in ("map_from", "map_extend"):
        d = dict(entries(t.a[1][0])) if t.a[0] == "map_extend" else {}
        s = strip(t.a[1][-1])
        if s.k == "call" and s.a[0] == "map_from":
            d.update(entries(s))
            return d
        if s.k != "seq" or s.a[0] is not None:
            raise Anchor("a built-in map is %s" % show(t)[:100])
        for x in s.a[1]:
            if x.k == "spread":
                d.update(entries(call("map_from", (x.a[0],))))
                continue
            k = strip(get(x, [F("0")]))
            if k.k != "c":
                raise Anchor("a built-in map has the key %s" % show(k)[:60])
            d[k.a[1]] = get(x, [F("1")])
        return d
    raise Anchor("a built-in map is %s" % show(t)[:100])


def default_flavor(an):
    return presets(an).get("default")


def c15(ck, an):
    ap = Apply(an)
    n = 0
    methods = []
    checked = {f: 0 for f in ("trait_uses", "method", "hook_targets", "bindings")}
    for it in ap.lp.extra["iters"]:
        if it.kind != "cont":
            continue
        g = it.pc
        n += 1
        for bad in ("", "empty"):
            def fn(k, bad=bad):
                if strip(k) is strip(ap.name):
                    return bad
                if k.k == "has" and strip(k.a[0]) is strip(ap.name) and k.a[1] is cint(0) and k.a[2] == 0:
                    return bad != ""
                if k.k == "call" and k.a[0].endswith("is_empty") and strip(k.a[1][0]) is strip(ap.name):
                    return bad == ""
                return UNK
            K = Known(fn=fn)
            ck.ob("C15.name", repr(bad), K.cond(g) is NO, "a table called %r is accepted" % bad)
        val, other = outcome(ap, it)
        if val is None:
            continue
        for f in checked:
            said, silent = (g, NO) if f == "bindings" else mention(ap, f, g)
            if said is NO:
                continue
            checked[f] += 1
            src = get(ap.tab, [F(f)]) if f == "bindings" else get(ap.tab, [F(f), V("Some"), F("0")])
            if f == "method":
                t = simp(get(val, [F(f)]), said)
                methods += [(conj(said, c2), x) for c2, x in alts(t) if conj(said, c2) is not NO]
                continue
            if f == "hook_targets":
                why = switch_of(ap.res, simp(get(val, [F(f)]), said), lambda x: x is src)
                ck.ob("C15.value", f, why is None, "hook targets: %s" % why)
                continue
            typ = "syn::Path" if f == "trait_uses" else "syn::Expr"
            ck.ob("C15.value", f, all_parse(ap, said, src, typ, f == "bindings"), "a text in `%s` that is no %s is accepted" % (f, typ))
        for e, ls in flat(ap.res, it.events):
            if e.kind == "visit" and e.name == "UPD":
                k = result_key(ap, g, e)
                ck.ob("C15.sub", "sub-tables", k is not None and conds.implies(g, lit(k, ("=", "Ok"))), "a bad sub-table is accepted")
    for f, m in checked.items():
        ck.ob("C15.value", f + " read", m > 0, "`%s` is never read" % f)
    why = method_why(an, ap, methods)
    ck.ob("C15.value", "method", why is None, "a method that is not readable is accepted: %s" % why)
    ck.floor("ways a table is applied", n, 1)
    k = an.role("UPDF")
    res = an.run(k, [sym("flavors"), sym("toml")], ["UPD", "HELPATH"])
    for s, g, v in oks(res):
        for e in s.log():
            if e.kind == "visit" and e.name == "UPD":
                kk = result_key(ap, g, e)
                ck.ob("C15.entry", "tables", kk is not None and conds.implies(g, lit(kk, ("=", "Ok"))), "a bad table of hooq.toml is accepted")


def result_key(ap, g, e):
    for k in conds.support(g):
        if k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0] == "UPD" and k.a[0].a[-1] == e.uid:
            return k
    for k in conds.support(g):
        if k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0] == "UPD":
            return k
    return None


def all_parse(ap, g, src, typ, pair):
    """under g, every text of the list parses as the type"""
    def ok_of(k, el):
        q = k.a[0]
        return k.k == "disc" and q.k == "call" and q.a[0] == "parse" and ty(q.a[1][0]) == typ and strip(q.a[1][1]) is (get(el, [F("1")]) if pair else el)

    for k in conds.support(g):
        if k.k == "exists" and strip(k.a[0]) is src and conds.implies(g, lit(k, ("=", FALSE))):
            G_ = k.a[1]
            el = get(k.a[0], [("e", sym("$e"))])
            ks = [x for x in conds.support(G_) if x.k == "disc" and ok_of(x, el)]
            if ks and conds.implies(lit(ks[0], ("=", "Err")), G_):
                return True
    for l in ap.res.loops.values():
        for d, p in loop_dom(l):
            if strip(d) is not src or not full_loop(l, d, p):
                continue
            if broke_out(g, {}, d, p):
                continue
            el = get(d, [("e", p)])
            good = True
            for it in l.extra["iters"]:
                ks = [x for x in conds.support(it.pc) if x.k == "disc" and ok_of(x, el)]
                good = good and it.kind == "cont" and ks and conds.implies(it.pc, lit(ks[0], ("=", "Ok")))
            if good and l.extra["iters"]:
                return True
    return False


def reading(ck, an, adt, keys, rest):
    """the deserializer of a table: each key is read into the field of its name, every other key is a sub-table"""
    p = an.p
    vms = [k for k, b in p.bodies.items() if b.get("name") == "visit_map" and b.get("output") is not None and ("for %s>" % adt.split("::", 1)[1]) in p.tname(b["output"])]
    vms = vms or [k for k, b in p.bodies.items() if b.get("name") == "visit_map" and b.get("output") is not None and adt.split("::")[-1] + ">" in p.tname(b["output"])]
    if len(vms) != 1:
        raise Anchor("%s is not read as a map" % adt)
    vm = vms[0]
    pre = vm[: vm.rindex("::deserialize::") + len("::deserialize::")]
    vss = [k for k, b in p.bodies.items() if k.startswith(pre) and b.get("name") == "visit_str"]
    res = an.run(vm, [sym("self"), sym("map")], [])
    nkey = None
    for l in res.loops.values():
        for it in l.extra["iters"]:
            for k in conds.support(it.pc):
                if k.k == "disc" and str(k.a[1]).endswith("__Field"):
                    nkey, lp = k, l
    variant = {}
    if keys:
        if len(vss) != 1 or nkey is None:
            raise Anchor("the keys of %s are not told apart" % adt)
        rs = an.run(vss[0], [sym("self"), sym("text")], [])
        for name in list(keys) + ["any_other", "Method", "hook"]:
            K = Known(fn=lambda k: name if strip(k) is sym("text") else UNK)
            got = set()
            for s, g, v in oks(rs):
                h = K.cond(g)
                if h is not NO:
                    for c2, x in alts(K.term(get(v, [V("Ok"), F("0")]), h)):
                        if conj(h, K.cond(c2)) is not NO:
                            got.add(x.a[1] if x.k == "agg" else None)
            variant[name] = got.pop() if len(got) == 1 else None
        others = {variant[n] for n in ("any_other", "Method", "hook")}
        ck.ob("C14.file", "other keys", len(others) == 1 and None not in others and not others & {variant[n] for n in keys}, "a key of hooq.toml that is no setting is read as %s" % others)
        ck.ob("C14.file", "keys", None not in variant.values() and len({variant[n] for n in keys}) == len(keys), "the settings of a table are not told apart by their documented names: %s" % {n: variant[n] for n in keys})
    n = 0
    for s, g, v in oks(res):
        t = get(v, [V("Ok"), F("0")])
        n += 1
        for f in keys:
            for c2, x in alts(simp(get(t, [F(f)]), g)):
                h = conj(g, c2)
                if h is NO:
                    continue
                if x.k == "pr" and x.a[0].k == "pr" and x.a[0].a[1] == V("Some") and x.a[0].a[0].k == "phi":
                    phi = x.a[0].a[0]
                    ck.ob("C14.file", f, into(res, lp, phi, nkey, variant[f]), "`%s` of a table is not read from the key `%s`" % (f, f))
                else:
                    q = unok(x)
                    fine = (q is not None and q.k == "call" and q.a[0].endswith("missing_field")) or (x.k == "agg" and x.a[1] == "None") or (x.k == "call" and x.a[0] == "map_from" and not x.a[1][0].a[1])
                    ck.ob("C14.file", f + " absent", fine, "`%s` of a table that does not mention it is %s" % (f, show(x)[:80]))
        x = simp(get(t, [F(rest)]), g)
        ph = [y for y in subterms(x) if y.k == "phi"]
        ck.ob("C14.file", rest, unok(x) is not None and len(set(ph)) == 1 and gathers(res, ph[0], nkey, variant.get("any_other")), "`%s` is not read from the remaining keys: %s" % (rest, show(x)[:120]))
    ck.floor("ways a table is read", n, 1)


def into(res, lp, phi, nkey, var):
    """phi is set to the value read, once, when and only when the key is the variant"""
    if phi not in lp.extra["phis"] or not (res.phis[phi].k == "agg" and res.phis[phi].a[1] == "None"):
        return False
    hit = False
    for it in lp.extra["iters"]:
        if it.kind != "cont":
            continue
        for c2, x in alts(it.updates.get(phi, phi)):
            h = conj(it.pc, c2)
            mine, other = conj(h, lit(nkey, ("=", var))), conj(h, lit(nkey, ("!=", frozenset([var]))))
            if x is phi:
                if mine is not NO:
                    return False
                continue
            if other is not NO or not (x.k == "agg" and x.a[1] == "Some"):
                return False
            q = unok(x.a[2][0][1])
            if q is None or q.k != "call" or not q.a[0].endswith("next_value"):
                return False
            hit = True
    return hit


def gathers(res, phi, nkey, var):
    """phi gets an entry for every key that is no setting"""
    lp = next((l for l in res.loops.values() if phi in l.extra["phis"]), None)
    if lp is None:
        return False
    hit = False
    for it in lp.extra["iters"]:
        for c2, x in alts(it.updates.get(phi, phi)):
            h = conj(it.pc, c2)
            if h is NO:
                continue
            if x is phi:
                if nkey is None or conj(h, lit(nkey, ("=", var))) is not NO:
                    return False
            elif not (x.k == "seq" and x.a[0] is phi and len(x.a[1]) == 1):
                return False
            else:
                hit = True
    return hit


# ---- C16: whose hooq.toml ----------------------------------------------------------------
def manifest_dir(t):
    """t is the manifest directory of the crate being compiled"""
    seen = False
    for c2, x in alts(t):
        x = text_of(x)
        if x.k == "choice":
            if not manifest_dir(x):
                return False
            seen = True
            continue
        q = unok(x)
        if q is None and x.k == "pr" and x.a[1] == F("0") and x.a[0].k == "pr" and x.a[0].a[1] == V("Some"):
            q = x.a[0].a[0]
        if q is not None and q.k == "call" and q.a[0].split("::")[-1] in ("var", "var_os") and q.a[1] and strip(q.a[1][0]) is cstr("CARGO_MANIFEST_DIR"):
            seen = True
        elif not (x.k == "c" and missing_var(c2)):
            return False
    return seen


def missing_var(g):
    return any(k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0].split("::")[-1] in ("var", "var_os") and (conds.implies(g, lit(k, ("=", "Err"))) or conds.implies(g, lit(k, ("=", "None")))) for k in conds.support(g))


def text_of(t):
    """the text or path under conversions"""
    t = strip(t)
    while t.k == "call" and len(t.a[1]) == 1 and t.a[0].split("::")[-1] in ("from", "into", "new", "to_path_buf", "to_string", "to_string_lossy", "display", "into_string", "as_path", "into_os_string", "as_os_str", "canonicalize"):
        t = strip(t.a[1][0])
    return t


def toml_path(t):
    """t is the path of hooq.toml in the manifest directory"""
    t = text_of(t)
    if t.k == "fmt":
        return len(t.a[0]) == 2 and not isinstance(t.a[0][0], str) and t.a[0][1] == "/hooq.toml" and manifest_dir(t.a[0][0][-1])
    return t.k == "call" and t.a[0] == "path_join" and strip(t.a[1][1]) is cstr("hooq.toml") and manifest_dir(t.a[1][0])


def cache_key(t):
    return manifest_dir(t) or toml_path(t)


def file_toml(t):
    """t is what the hooq.toml in the manifest directory says"""
    t = strip(t)
    q = unok(t)
    if q is None or q.k != "call" or q.a[0].split("::")[-1] not in ("from_str", "from_slice"):
        return False
    q = unok(q.a[1][0])
    return q is not None and q.k == "call" and q.a[0].split("::")[-1] in ("read_to_string", "read") and toml_path(q.a[1][0])


def c16(ck, an):
    p = an.p
    k = an.role("TOML")
    res = an.run(k, [], ["UPDF", "PRE", "HELPATH"])
    store = an.run(an.role("LOADSTORE"), [], ["TOML", "PRE", "UPDF", "HELPATH"])
    # what the flavors are made of
    n = trusting = 0
    for s, g, v in oks(store):
        for c2, x in alts(simp(get(v, [V("Ok"), F("0")]), g)):
            h = conj(g, c2)
            if h is NO:
                continue
            n += 1
            m = strip(field_of(p, x, "HashMap"))
            evs = [e for e in s.log() if e.kind == "visit" and e.name == "UPDF"]
            ck.ob("C16.used", "errors", any(y.k == "disc" and y.a[0].k == "call" and y.a[0].a[0] == "TOML" and conds.implies(h, lit(y, ("=", "Ok"))) for y in conds.support(h)), "an error loading hooq.toml is dropped")
            opt = [y for y in conds.support(h) if y.k == "disc" and y.a[1] == OPTION and any(z.k == "call" and z.a[0] == "TOML" for z in subterms(y.a[0]))]
            none = any(conds.implies(h, lit(y, ("=", "None"))) for y in opt)
            if none:
                ck.ob("C16.used", "no file", m.k == "call" and m.a[0] == "PRE", "without hooq.toml the flavors are %s" % show(m)[:100])
                continue
            ck.ob("C16.used", "file", m.k == "out" and res_of(store, m) == "UPDF", "with hooq.toml the flavors are %s" % show(m)[:100])
            if not (m.k == "out" and res_of(store, m) == "UPDF"):
                continue
            e = store.uidev[m.a[0]]
            ck.ob("C16.used", "over", strip(e.args[0]).k == "call" and strip(e.args[0]).a[0] == "PRE", "hooq.toml is applied over %s" % show(e.args[0])[:100])
            t = strip(e.args[1])
            root = t
            while root.k == "pr":
                root = root.a[0]
            ck.ob("C16.used", "toml", root.k == "call" and root.a[0] == "TOML", "what is applied is %s" % show(t)[:100])
            kk = [y for y in conds.support(h) if y.k == "disc" and y.a[0].k == "call" and y.a[0].a[0] == "UPDF"]
            ck.ob("C16.used", "accepted", any(conds.implies(h, lit(y, ("=", "Ok"))) for y in kk), "a configuration that was rejected is used")
    ck.floor("ways the flavors are made", n, 2)
    trusting = any("unwrap" in x[0] or "expect" in x[0] for x in store.eng.panics)
    # what is loaded
    fresh = cached = 0
    for s, g, v in oks(res):
        for c2, x in alts(simp(get(v, [V("Ok"), F("0")]), g)):
            h = conj(g, c2)
            if h is NO:
                continue
            if x.k == "agg" and x.a[1] == "None":
                ck.ob("C16.load", "none", no_file(h), "the hooq.toml of the crate is ignored: None is returned though the file may exist")
                continue
            c = cached_value(x, h)
            if c is not None:
                cached += 1
                ck.ob("C16.load", "cached", cache_key(c), "a configuration is taken from the cache under %s, which is not the manifest directory of the crate" % show(c)[:120])
                continue
            x = get(x, [V("Some"), F("0")]) if x.k == "agg" else x
            fresh += 1
            t = field_of(p, x, "HooqToml")
            ck.ob("C16.load", "read", file_toml(t), "the configuration is %s, not what hooq.toml in the manifest directory says" % show(t)[:150])
    ck.floor("ways hooq.toml is loaded", fresh, 1)
    # what is kept for later expansions
    kept = 0
    for s, v in res.rs:
        for root, m in s.mem.items():
            if root[0] == "L":
                continue
            for q, w in changes(m):
                at = [i for i, y in enumerate(q) if y[0] == "key"]
                for key, val in ([(q[at[-1]][1], w)] if at else inserted(w)):
                    kept += 1
                    ck.ob("C16.kept", "key", key is not None and cache_key(key), "a configuration is kept under %s, which is not the manifest directory of the crate" % (show(key)[:120] if key is not None else "no key"))
                    t = field_of(p, val, "HooqToml")
                    ck.ob("C16.kept", "value", file_toml(t), "what is kept for the crate is %s" % show(t)[:150])
                    good = any(y.k == "disc" and y.a[0].k == "call" and y.a[0].a[0] == "UPDF" and strip(y.a[0].a[1][1]) is strip(t) and conds.implies(s.pc, lit(y, ("=", "Ok"))) for y in conds.support(s.pc))
                    ck.ob("C16.kept", "accepted", good or not trusting, "a configuration is kept before it is known to be acceptable, and used later without looking")
    ck.note("ways a configuration is kept", kept)
    ck.ob("C16.kept", "cache", cached == 0 or kept > 0, "a configuration is taken from a cache nothing is put in")
    ck.ob("C16.kept", "checked", not trusting or fresh == 0 or all_checked(res, p), "a configuration that was not checked is used without looking")
    purity.state(ck, an, "C16.state")


def all_checked(res, p):
    """every fresh value was applied to the built-in flavors without error"""
    for s, g, v in oks(res):
        for c2, x in alts(simp(get(v, [V("Ok"), F("0")]), g)):
            h = conj(g, c2)
            if h is NO or (x.k == "agg" and x.a[1] == "None") or cached_value(x, h) is not None:
                continue
            t = field_of(p, get(x, [V("Some"), F("0")]), "HooqToml")
            if not any(y.k == "disc" and y.a[0].k == "call" and y.a[0].a[0] == "UPDF" and strip(y.a[0].a[1][1]) is strip(t) and conds.implies(h, lit(y, ("=", "Ok"))) for y in conds.support(h)):
                return False
    return True


def field_of(p, x, typ):
    """the part of x of that type: x itself or a field, recursively through structs"""
    x = strip(x)
    if x.k == "agg" and x.a[0] in p.adts and x.a[0].split("::")[-1] != typ:
        vs = p.adts[x.a[0]]["variants"]
        ty_of = {f["name"] if isinstance(f, dict) else f[0]: f["ty"] if isinstance(f, dict) else f[1] for f in vs[0]["fields"]} if vs else {}
        for n, v in x.a[2]:
            n = n[1] if isinstance(n, tuple) else n
            if n in ty_of and typ in p.tname(ty_of[n]):
                return field_of(p, v, typ)
    return x


def res_of(res, t):
    return res.uidev[t.a[0]].name if t.a[0] in res.uidev else None


def no_file(g):
    for k in conds.support(g):
        t = k.a[0] if k.k == "disc" else k
        for x in subterms(t):
            if x.k == "call" and x.a[0].split("::")[-1] in ("try_exists", "exists", "is_file", "metadata") and x.a[1] and toml_path(x.a[1][0]):
                if (k.k == "disc" and k.a[0] is x and conds.implies(g, lit(k, ("=", "Err")))) or (k.k != "disc" and conds.implies(g, lit(k, ("=", FALSE)))):
                    return True
    # one of these, whichever
    parts = [q for q in (conj(g, lit(k, o)) for k in conds.support(g) for o in (("=", "Err"), ("=", "Ok")) if k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0].split("::")[-1] in ("try_exists", "metadata")) if q is not NO and q is not g]
    return bool(parts) and all(no_file(q) for q in parts)


def cached_value(x, g):
    """the key if x (an option, or what it holds) is what the cache has"""
    for y in (x, get(x, [V("Some"), F("0")]) if x.k == "agg" and x.a[1] == "Some" else None):
        if y is None:
            continue
        y = strip(y)
        if y.k == "pr" and y.a[1] == F("0") and y.a[0].k == "pr" and y.a[0].a[1] == V("Some"):
            y = strip(y.a[0].a[0])
        if y.k == "call" and y.a[0] == "map_get_opt" and any(z.k == "sym" and str(z.a[0]).startswith("static:") for z in subterms(y.a[1][0])):
            return y.a[1][1]
        z = y
        while z.k == "pr" and z.a[1][0] != "key":
            z = strip(z.a[0])
        if z.k == "pr" and any(w.k == "sym" and str(w.a[0]).startswith("static:") for w in subterms(z.a[0])):
            return z.a[1][1]
        if any(z.k == "sym" and str(z.a[0]).startswith("static:") for z in subterms(y)) and not file_toml(y) and y.k != "agg":
            return y
    return None


def changes(m):
    """[(path, value)] of what was written below a root"""
    if m.k == "upd":
        return changes(m.a[0]) + list(m.a[1])
    if m.k == "choice":
        return [c for _, v in m.a[0] for c in changes(v)]
    if m.k == "call" and m.a[0] in ("map_insert", "map_extend"):
        return [((), m)]
    return []


def inserted(w):
    """[(key, value)] put into a map"""
    if w.k == "choice":
        return [c for _, v in w.a[0] for c in inserted(v)]
    if w.k == "call" and w.a[0] == "map_insert":
        return inserted(w.a[1][0]) + [(w.a[1][1], w.a[1][2])]
    if w.k == "call" and w.a[0] == "map_remove":
        return inserted(w.a[1][0])
    if w.k == "upd":
        return inserted(w.a[0]) + [(q[0][1], v) for q, v in w.a[1] if q and q[0][0] == "key"]
    if w.k in ("pr", "at", "sym"):
        return []
    return [(None, w)]

