"""C18: what each `#[hooq::...]` attribute does."""
import conds
from lint import *
from known import *
from walk import alts

LISTS = ("method", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types", "hook_in_macros", "binding", "var")
VALUES = ("flavor", "method", "hook_targets", "tail_expr_idents", "result_types", "hook_in_macros", "bindings")
PATHS = ("skip", "skip_all")
SETTINGS = ("method", "hook_targets", "tail_expr_idents", "ignore_tail_expr_idents", "result_types", "hook_in_macros")
FLAGS = {"skip": "is_skipped", "skip_all": "is_skipped_all"}
FOREIGN = (["inline"], ["rustfmt", "skip"], ["hook", "skip"], ["my", "hooq", "skip"], ["doc"], ["skip"], ["method"], ["Hooq", "skip"])


class Attrs:
    """the loop of the extractor over the attributes of a node"""

    def __init__(self, an):
        self.an = an
        self.res = r = an.run(an.role("X"), [sym("attrs")], ["GETF", "LOADSTORE"])
        self.root = mk("at", sym("attrs"))
        lps = [(len(e.extra["iters"]), e, d, p) for e in r.loops.values() for d, p in loop_dom(e) if strip(d) is sym("attrs")]
        if not lps:
            raise Anchor("no loop over the attributes of a node")
        _, self.loop, self.dom, self.pos = max(lps, key=lambda x: x[0])
        if not full_loop(self.loop, self.dom, self.pos):
            raise Anchor("the attributes of a node are not read one by one")
        self.attr = mk("pr", self.dom, ("e", self.pos))
        self.meta = get(self.attr, [F("meta")])
        self.oks = oks(r)
        if not self.oks:
            raise Anchor("the extractor never succeeds")

    def path_of(self, kind):
        m = get(self.meta, [V(kind), F("0")])
        return m if kind == "Path" else get(m, [F("path")])

    def known(self, kind, segs):
        return Known({self.path_of(kind): segs}, {mk("disc", self.meta, self.metaty()): kind})

    def metaty(self):
        for it in self.loop.extra["iters"]:
            for k in conds.support(it.pc):
                if k.k == "disc" and k.a[0] is self.meta:
                    return k.a[1]
        raise Anchor("the form of an attribute is not looked at")

    def rounds(self, K):
        """[(condition, iteration)] that carry on to the next attribute"""
        out = []
        for it in self.loop.extra["iters"]:
            if it.kind == "cont":
                h = K.cond(it.pc)
                if h is not NO:
                    out.append((h, it))
        return out

    def now(self, K, h, it, phi):
        return K.term(it.updates.get(phi, phi), h)


def attrs_of(an):
    if "attrs" not in an.cache:
        an.cache["attrs"] = Attrs(an)
    return an.cache["attrs"]


def okkey(k):
    return k.k == "disc" and ("Result" in str(k.a[1])) or (k.k == "disc" and k.a[0].k == "call" and "get_ident" in str(k.a[0].a[0]))


def c18(ck, an):
    A = attrs_of(an)
    res = A.res
    IA = an.adt("InertAttribute")
    # ---- the result is what the loop has collected, read to the end
    phis = {}
    kept = []
    for s, g, v in A.oks:
        ck.ob("C18.all", "attributes", conj(g, lit(mk("has", A.dom, A.pos, 0), ("=", TRUE))) is NO, "the extractor can succeed before the last attribute is read")
        out = simp(get(v, [V("Ok"), F("0")]), g)
        if not (out.k == "agg" and out.a[0] == IA):
            raise Anchor("the result of the extractor is %s" % show(out)[:100])
        for f, x in out.a[2]:
            ok = x.k == "phi" and x in A.loop.extra["phis"] and phis.get(f, x) is x
            ck.ob("C18.result", f, ok, "`%s` of the result is not what the attributes say: %s" % (f, show(x)[:120]))
            if ok:
                phis[f] = x
                e = res.phis[x]
                none = e.k == "agg" and e.a[1] == "None" or e is FALSE or (e.k in ("call", "seq") and "map" in show(e)[:4]) or (e.k == "seq" and not e.a[1])
                ck.ob("C18.unset", f, none, "`%s` is set without any attribute: %s" % (f, show(e)[:80]))
        kept.append((g, [s.mem[k] for k in s.mem if k[0] == "S"]))
    for f in SETTINGS + ("bindings", "is_skipped", "is_skipped_all"):
        if f not in phis:
            ck.ob("C18.result", f, False, "`%s` of the result does not come from the attributes" % f)
            return
    names = {x: f for f, x in phis.items()}
    keep = keeper(ck, A, kept)
    tokens = get(A.meta, [V("List"), F("0"), F("tokens")])
    value = get(A.meta, [V("NameValue"), F("0"), F("value")])
    is_tok = lambda t: t is tokens
    sl = lambda t: strings_of(t, is_tok)
    n = [0]

    def form(kind, segs, changes, what, err=False):
        """check every round of one form: `changes` {field: test(value, condition, known) -> None or what is wrong}"""
        K = A.known(kind, segs)
        rs = A.rounds(K)
        n[0] += 1
        if err:
            ck.ob("C18.error", what, not rs, "`%s` is accepted" % what)
            return
        ck.ob("C18.form", what, bool(rs), "`%s` is not accepted" % what)
        if not rs:
            return
        cover = NO
        for h, it in rs:
            cover = disj(cover, h)
            for phi, f in names.items():
                if f in changes:
                    why = changes[f](A.now(K, h, it, phi), h, K, it)
                    ck.ob("C18.value", "%s: %s" % (what, f), why is None, "`%s` sets `%s` wrongly: %s" % (what, f, why))
                else:
                    ck.ob("C18.other", "%s: %s" % (what, f), A.now(K, h, it, phi) is phi, "`%s` also changes `%s`" % (what, f))
            if keep is not None:
                stays = keep(K, h, it)
                want = not (segs[0] == "hooq" and len(segs) > 1)
                ck.ob("C18.kept" if want else "C18.removed", what, stays is want, "`%s` %s" % (what, "is removed from its node" if want else "is left on its node"))
        bad = NO
        for x in A.loop.extra["exitpcs"]:
            x = conj(x, lit(mk("has", A.dom, A.pos, 0), ("=", TRUE)))
            x = K.cond(x) if x is not NO else NO
            bad = disj(bad, conj(x, all_fine(x)))
        ck.ob("C18.accepted", what, bad is NO, "`%s` is rejected although well-formed: %s" % (what, show_cond(bad)[:200]))

    def fl(field):
        """the value is that field of the flavor named by the attribute's value"""
        def test(t, h, K, it):
            ps = [(c2, x) for c2, x in alts(t) if conj(h, c2) is not NO]
            for c2, x in ps:
                x = x.a[2][0][1] if x.k == "agg" and x.a[1] == "Some" else x
                x = strip(x)
                if not (x.k == "pr" and x.a[1] == F(field)):
                    return "%s" % show(x)[:100]
                why = flavor_of(x.a[0], value)
                if why:
                    return why
            return None
        return test

    def fl_bindings(t, h, K, it):
        bad = []

        def src(s):
            if s.k == "pr" and s.a[1] == F("bindings"):
                w = flavor_of(s.a[0], value)
                if w:
                    bad.append(w)
                return not w
            return False
        got = merged(res, t, phis["bindings"], src)
        return None if got is not None else (bad[0] if bad else "the bindings of the flavor are not merged in: %s" % show(t)[:100])

    def some(t, f):
        return f(t.a[2][0][1]) if t.k == "agg" and t.a[1] == "Some" else "it is left as it was" if t.k == "phi" else "it becomes %s" % show(t)[:100]

    def lists(which, extra_ignored):
        """ignore list: appended to what is there already, else taken over (from tail_expr_idents only when it names some)"""
        def test(t, h, K, it):
            phi = phis["ignore_tail_expr_idents"]
            okey = lit(mk("disc", phi, OPTION), ("=", "Some"))
            part = (lambda x: split_bang(res, x, 1, sl)) if extra_ignored else sl
            for c2, x in ignore_alts(t):
                g = conj(h, c2)
                if g is NO:
                    continue
                was = True if conds.implies(g, okey) else False if conj(g, okey) is NO else None
                if x is phi:
                    x = mk("agg", OPTION, "None", ()) if was is False else x
                if x.k == "agg" and x.a[1] == "Some":
                    y = strip(x.a[2][0][1])
                    joined = [z.a[0] if z.k == "spread" else z for z in ((mk("spread", y.a[0]),) if y.a[0] is not None else ()) + y.a[1]] if y.k == "seq" else []
                    if len(joined) == 2:
                        old = [z for z in joined if strip(z) is get(phi, [V("Some"), F("0")])]
                        if len(old) != 1 or not all(part(z) for z in joined if z is not old[0]) or was is not True:
                            return "the names are not added to those that are set already"
                    elif part(y):
                        if was is not False:
                            return "names that are set already are lost"
                        if extra_ignored and not nonempty(g, y):
                            return "an empty list of ignored names replaces the inherited one"
                    else:
                        return "%s" % show(y)[:100]
                elif x.k == "agg" and x.a[1] == "None" or x is phi:
                    if not extra_ignored:
                        return "it stays unset"
                    if was is not False and x is not phi:
                        return "names that are set already are lost"
                    if not empty(g, lambda y: part(y)):
                        return "the names with `!` are dropped"
                else:
                    return "%s" % show(x)[:100]
            return None
        return test

    # ---- #[hooq::x(...)]
    form("List", ["hooq", "method"], {"method": lambda t, h, K, it: some_each(t, h, lambda alts_: method_all(an, A, K, "method", phis, is_tok))}, "#[hooq::method(..)]")
    form("List", ["hooq", "hook_targets"], {"hook_targets": lambda t, h, K, it: some(t, lambda x: switch_of(res, x, sl))}, "#[hooq::hook_targets(..)]")
    form("List", ["hooq", "tail_expr_idents"], {
        "tail_expr_idents": lambda t, h, K, it: some(t, lambda x: None if split_bang(res, x, 0, sl) else "not the names without `!`: %s" % show(x)[:80]),
        "ignore_tail_expr_idents": lists(1, True)}, "#[hooq::tail_expr_idents(..)]")
    form("List", ["hooq", "ignore_tail_expr_idents"], {"ignore_tail_expr_idents": lists(1, False)}, "#[hooq::ignore_tail_expr_idents(..)]")
    form("List", ["hooq", "result_types"], {"result_types": lambda t, h, K, it: some(t, lambda x: None if sl(x) else "%s" % show(x)[:80])}, "#[hooq::result_types(..)]")

    def boolean(x):
        x = strip(x)
        src = strip(x.a[1][0]) if x.k == "call" and x.a[0] == "value" else get(x, []) if x.k != "pr" else x.a[0]
        p = src.a[0].a[0] if src.k == "pr" and src.a[1] == F("0") and src.a[0].k == "pr" and src.a[0].a[1] == V("Ok") else src
        return None if parsed_from(p, lambda ty: ty == "syn::LitBool", is_tok) else "%s" % show(x)[:100]
    form("List", ["hooq", "hook_in_macros"], {"hook_in_macros": lambda t, h, K, it: some(t, boolean)}, "#[hooq::hook_in_macros(..)]")

    def binding(t, h, K, it):
        for c2, x in alts(t):
            if conj(h, c2) is NO:
                continue
            if not (x.k == "call" and x.a[0] == "map_insert" and x.a[1][0] is phis["bindings"]):
                return "%s" % show(x)[:100]
            k, v = strip(x.a[1][1]), strip(x.a[1][2])
            if not (v.k == "pr" and v.a[1] == F("value")):
                return "its value is %s" % show(v)[:80]
            p = v.a[0].a[0].a[0] if v.a[0].k == "pr" and v.a[0].a[1] == F("0") and v.a[0].a[0].k == "pr" else v.a[0]
            if not parsed_from(p, lambda ty: ty == "syn::MetaNameValue", is_tok):
                return "its value is %s" % show(v)[:80]
            if not (mentions(k, get(v.a[0], [F("path")]))):
                return "its name is %s" % show(k)[:80]
        return None
    for b in ("binding", "var"):
        form("List", ["hooq", b], {"bindings": binding}, "#[hooq::%s(x = ..)]" % b)
    # ---- #[hooq::x = FLAVOR]
    for f in ("method", "hook_targets", "result_types", "hook_in_macros"):
        form("NameValue", ["hooq", f], {f: fl(f)}, "#[hooq::%s = FLAVOR]" % f)
    both = {f: fl(f) for f in ("tail_expr_idents", "ignore_tail_expr_idents")}
    form("NameValue", ["hooq", "tail_expr_idents"], both, "#[hooq::tail_expr_idents = FLAVOR]")
    form("NameValue", ["hooq", "bindings"], {"bindings": fl_bindings}, "#[hooq::bindings = FLAVOR]")
    every = {f: fl(f) for f in SETTINGS}
    every["bindings"] = fl_bindings
    form("NameValue", ["hooq", "flavor"], every, "#[hooq::flavor = FLAVOR]")
    # ---- #[hooq::skip], #[hooq::name = value]
    for p, f in FLAGS.items():
        form("Path", ["hooq", p], {f: lambda t, h, K, it: None if t is TRUE else "it becomes %s" % show(t)[:60]}, "#[hooq::%s]" % p)

    def named(name):
        def test(t, h, K, it):
            for c2, x in alts(t):
                if conj(h, K.cond(c2)) is NO:
                    continue
                if not (x.k == "call" and x.a[0] == "map_insert" and x.a[1][0] is phis["bindings"] and K.val(x.a[1][1]) == name and strip(x.a[1][2]) is strip(value)):
                    return "%s" % show(x)[:120]
            return None
        return test
    for b in ("my_binding", "x"):
        form("NameValue", ["hooq", b], {"bindings": named(b)}, "#[hooq::%s = ..]" % b)
    # ---- errors
    form("NameValue", ["hooq", "ignore_tail_expr_idents"], {}, "#[hooq::ignore_tail_expr_idents = FLAVOR]", err=True)
    for x in ("flavor", "bindings", "skip", "skip_all", "unknown_setting"):
        form("List", ["hooq", x], {}, "#[hooq::%s(..)]" % x, err=True)
    for x in LISTS + ("flavor", "bindings", "unknown_setting"):
        form("Path", ["hooq", x], {}, "#[hooq::%s]" % x, err=True)
    for kind, tail in (("Path", ""), ("List", "(..)"), ("NameValue", " = ..")):
        for segs in (["hooq", "skip", "all"], ["hooq", "method", "x"], ["hooq", "a", "b", "c"]):
            form(kind, segs, {}, "#[%s%s]" % ("::".join(segs), tail), err=True)
        for segs in FOREIGN:
            form(kind, segs, {}, "#[%s%s]" % ("::".join(segs), tail))
    ck.floor("attribute forms", n[0], 50)


def ignore_alts(t):
    """alternatives of an optional list, wherever in it the choice is made"""
    out = []
    for c2, x in alts(t):
        if x.k == "upd" and len(x.a[1]) == 1 and x.a[1][0][0] == (V("Some"), F("0")):
            # changed in place: only where it is Some
            for c3, y in alts(x.a[0]):
                some = lit(mk("disc", y, OPTION), ("=", "Some")) if y.k != "agg" else YES if y.a[1] == "Some" else NO
                g = conj(conj(c2, c3), some)
                if g is not NO:
                    out.extend((conj(g, c4), mk("agg", OPTION, "Some", (("0", z),))) for c4, z in lifted(x.a[1][0][1]) if conj(g, c4) is not NO)
        elif x.k == "agg" and x.a[1] == "Some":
            for c3, y in lifted(x.a[2][0][1]):
                if conj(c2, c3) is not NO:
                    out.append((conj(c2, c3), mk("agg", x.a[0], "Some", ((x.a[2][0][0], y),))))
        else:
            out.append((c2, x))
    return out


def lifted(y):
    """alternatives of a list made of parts, nothing in between them"""
    out = []
    for c2, x in alts(y):
        if x.k != "seq":
            out.append((c2, x))
            continue
        rows = [(c2, [])]
        for part in ([mk("spread", x.a[0])] if x.a[0] is not None else []) + list(x.a[1]):
            if part.k == "spread":
                rows = [(conj(g, c3), ps + add) for g, ps in rows for c3, z in lifted(part.a[0]) for add in [list(z.a[1]) if z.k == "seq" and z.a[0] is None else [mk("spread", z)]] if conj(g, c3) is not NO]
            else:
                rows = [(g, ps + [part]) for g, ps in rows]
        for g, ps in rows:
            out.append((g, ps[0].a[0] if len(ps) == 1 and ps[0].k == "spread" else mk("seq", None, tuple(ps))))
    return out


def nonempty(g, y):
    return any(k.k == "has" and strip(k.a[0]) is y and conds.implies(g, lit(k, ("=", TRUE))) for k in conds.support(g))


def empty(g, is_part):
    return any(k.k == "has" and is_part(k.a[0]) and conds.implies(g, lit(k, ("=", FALSE))) for k in conds.support(g))


def some_each(t, h, f):
    for c2, x in alts(t):
        if conj(h, c2) is not NO and not (x.k == "agg" and x.a[1] == "Some"):
            return "it becomes %s" % show(x)[:100]
    return f(None)


def method_all(an, A, K, field, phis, is_tok):
    """the method over all rounds of the form together"""
    t = []
    for h, it in A.rounds(K):
        for c2, x in alts(A.now(K, h, it, phis[field])):
            g = conj(h, c2)
            if g is not NO and x.k == "agg" and x.a[1] == "Some":
                t.append((g, x.a[2][0][1]))
    bad = None
    v = mk("choice", tuple(t)) if len(t) > 1 else t[0][1]
    return method_of(an, v, YES if len(t) > 1 else t[0][0], is_tok, consume=an.config == "consume")


def all_fine(g):
    """every parse and lookup succeeds"""
    out = YES
    for k in conds.support(g):
        if k.k == "disc" and (k.a[1] == RESULT or str(k.a[1]).endswith("result::Result")):
            out = conj(out, lit(k, ("=", "Ok")))
        elif k.k == "disc" and k.a[0].k == "call" and "get_ident" in str(k.a[0].a[0]):
            out = conj(out, lit(k, ("=", "Some")))
        elif k.k == "disc" and (str(k.a[1]).endswith("syn::Expr") or str(k.a[1]).endswith("expr::Expr")):
            out = conj(out, lit(k, ("=", "Path")))
        elif k.k == "exists":
            out = conj(out, lit(k, ("=", FALSE)))
        elif k.k == "pr" and k.a[1][0] == "e":
            out = conj(out, lit(k, ("=", cstr("?"))))
    return out


def flavor_of(t, value):
    """t is the flavor named by the value, looked up in the loaded flavors; returns what is wrong"""
    t = strip(t)
    if not (t.k == "pr" and t.a[1] == F("0") and t.a[0].k == "pr" and t.a[0].a[1] == V("Ok")):
        return "%s is no flavor looked up" % show(t)[:100]
    q = t.a[0].a[0]
    if not (q.k == "call" and q.a[0] == "GETF"):
        return "%s is no flavor looked up" % show(t)[:100]
    store, path = strip(q.a[1][0]), q.a[1][1]
    if not (store.k == "pr" and store.a[0].k == "pr" and store.a[0].a[0].k == "call" and store.a[0].a[0].a[0] == "LOADSTORE"):
        return "it is looked up in %s" % show(store)[:80]
    lits, paths = 0, 0
    path = strip(path)
    if path.k == "agg" and path.a[0].endswith("FlavorPath"):
        path = strip(path.a[2][0][1])
    for c2, p in alts(path):
        y = flavor_name(p)
        if y is None:
            return "the name looked up is %s" % show(p)[:100]
        if y[0] == "path" and y[1] is get(value, [V("Path"), F("0"), F("path")]):
            paths += 1
        elif y[0] == "text" and y[1] is get(value, [V("Lit"), F("0"), F("lit"), V("Str"), F("0")]):
            lits += 1
        else:
            return "the name looked up is %s" % show(p)[:100]
    if not lits or not paths:
        return "a flavor given as %s is not looked up" % ("text" if not lits else "path")
    return None


def flavor_name(p):
    """('path', path) when p lists the identifiers of a path, ('text', literal) when it lists the parts of a string between `.` and `::`"""
    p = strip(p)
    if p.k == "agg" and p.a[0].endswith("FlavorPath"):
        p = strip(p.a[2][0][1])
    if p.k == "seq" and p.a[0] is None and len(p.a[1]) == 1 and strip(p.a[1][0]).k == "c":
        return ("const", strip(p.a[1][0]).a[1])
    if not (p.k == "call" and p.a[0] == "collect" and p.a[1][0].a[-1] == "vec"):
        return None
    src, y = strip(p.a[1][1]), p.a[1][2]
    if y.k != "yields" or y.a[1] or not y.a[0]:
        return None
    if src.k == "pr" and src.a[1] == F("segments"):
        for g, v in y.a[0]:
            v = strip(v)
            if not (v.k == "pr" and v.a[1] == F("ident") and v.a[0].k == "pr" and v.a[0].a[1][0] == "e" and strip(v.a[0].a[0]) is src):
                return None
        return ("path", src.a[0])
    leaves = {z.a[1][0] for z in subterms(p) if z.k == "call" and z.a[0] == "value"}
    if len(leaves) == 1:
        seps = {z.a[1] for z in subterms(p) if z.k == "c" and z.a[0] in ("char", "str")}
        if "." in seps and "::" in seps:
            return ("text", strip(next(iter(leaves))))
    texts = {z for z in subterms(p) if z.k == "sym"}
    consts = {z.a[1] for z in subterms(p) if z.k == "c" and z.a[0] == "str"} - {".", "::", "vec", "val"}
    if src.k == "call" and strip(src.a[1][0]).k == "c" and len(consts) == 1 and "." in {x.a[1] for x in subterms(src) if x.k == "c"}:
        return ("const", consts.pop())
    if len(texts) == 1:
        seps = {z.a[1] for z in subterms(p) if z.k == "c" and z.a[0] in ("char", "str")}
        if "." in seps and "::" in seps:
            return ("text", next(iter(texts)))
    return None


def fate(res, f, src):
    """what happens to the elements of src on the way to the list f: (loop position, [(condition, 'keep' / 'drop', value)], flags' list reader) or None"""
    if f.k == "call" and f.a[0] == "retained" and strip(f.a[1][0]) is src:
        y = f.a[1][1]
        if y.k == "yields" and not y.a[1]:
            return [(g, v, None) for g, v in y.a[0]]
    if f.k == "call" and f.a[0] == "collect" and strip(f.a[1][1]) is src:
        y = f.a[1][2]
        if y.k == "yields":
            return [(g, None, v) for g, v in y.a[0]]
    if f.k == "phi":
        lp = next((l for l in res.loops.values() if f in l.extra["phis"]), None)
        e = res.phis.get(f)
        if lp is None or not (e.k == "seq" and e.a[0] is None and not e.a[1]):
            return None
        for d, p in loop_dom(lp):
            if strip(d) is src and full_loop(lp, d, p):
                out = []
                for it in lp.extra["iters"]:
                    if it.kind != "cont":
                        return None
                    for c2, v in alts(it.updates.get(f, f)):
                        g = conj(it.pc, c2)
                        if g is NO:
                            continue
                        if v is f:
                            out.append((g, FALSE, None))
                        elif v.k == "seq" and v.a[0] is f and len(v.a[1]) == 1 and strip(v.a[1][0]) is strip(mk("pr", d, ("e", p))):
                            out.append((g, TRUE, None))
                        else:
                            return None
                return out
    return None


def keeper(ck, A, kept):
    """function telling whether an attribute stays on its node after a round of the loop"""
    res = A.res
    fs = set()
    for g, vs in kept:
        for v in vs:
            fs.add(simp(v, g))
    if len(fs) != 1:
        ck.ob("C18.kept", "list", False, "what becomes of the attributes of a node cannot be followed (%d cases)" % len(fs))
        return None
    f = fs.pop()
    if f.k == "phi" and f in A.loop.extra["phis"]:
        e = res.phis[f]
        ck.ob("C18.kept", "in order", e.k == "seq" and e.a[0] is None and not e.a[1], "the attributes kept are put behind others")

        def keep3(K, h, it):
            v = K.term(it.updates.get(f, f), h)
            if v is f:
                return False
            if v.k == "seq" and v.a[0] is f and len(v.a[1]) == 1 and strip(v.a[1][0]) is strip(A.attr):
                return True
            return None
        return keep3
    cases = fate(res, f, sym("attrs"))
    if cases is None:
        ck.ob("C18.kept", "list", False, "what becomes of the attributes of a node cannot be followed: %s" % show(f)[:150])
        return None
    flags = set()
    for g, v, w in cases:
        for k in set(conds.support(g)) | (set(subterms(v)) if v is not None else set()):
            if k.k == "pr" and k.a[1][0] == "e" and k.a[0].k == "phi" and k.a[0] in A.loop.extra["phis"]:
                flags.add(k)

    def decide(K, h):
        out = set()
        for g, v, w in cases:
            g2 = conj(K.cond(conds.drop(g, lambda k: k.k == "has")), h)
            if g2 is NO:
                continue
            if v is None:
                w = K.term(w, g2)
                out.add(True if w.k == "pr" and w.a[1][0] == "e" and strip(w.a[0]) is sym("attrs") else UNK)
            else:
                out.add(K.val(v))
        if not out:
            return False
        return out.pop() if len(out) == 1 else None
    if not flags:
        return lambda K, h, it: decide(K, h)
    if len(flags) != 1:
        ck.ob("C18.kept", "list", False, "what becomes of the attributes of a node cannot be followed: %s" % show(f)[:150])
        return None
    k = flags.pop()
    lst, pos = k.a[0], k.a[1][1]
    # read in step with the attributes, from the start
    step = pos is sym("$e")
    if not step:
        lp = next((l for l in res.loops.values() if pos in l.extra["phis"]), None)
        step = lp is not None and lp.extra["phis"][pos][2] is cint(0) and all(it.updates.get(pos) is mk("bin", "Add", pos, cint(1)) for it in lp.extra["iters"])
    e = res.phis[lst]
    ck.ob("C18.kept", "in step", step and e.k == "seq" and not e.a[1] and e.a[0] is None, "the list of what to keep is not read in step with the attributes")
    sense = {}
    for val in (True, False):
        sense[val] = decide(Known(vals={k: val}), YES)
        ck.ob("C18.kept", "flag %s" % val, isinstance(sense[val], bool), "whether an attribute is kept does not depend on its flag")
    ck.ob("C18.kept", "flag", sense[True] is not sense[False], "attributes are kept whatever they are")

    def keep(K, h, it):
        v = K.term(it.updates.get(lst, lst), h)
        if v.k == "seq" and v.a[0] is lst and len(v.a[1]) == 1:
            x = K.val(v.a[1][0])
            return sense.get(x) if x is not UNK else None
        return None
    return keep
