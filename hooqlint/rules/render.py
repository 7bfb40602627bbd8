"""What a hook is rendered to: method insertion and replacement, meta variables, bindings (rules C11, C19, C20, C21)."""
import conds
import terms
from conds import YES, NO, conj, disj, neg, lit
from lint import *
from walk import alts, identity_source

TT = "proc_macro2::TokenTree"
EXPR = "syn::expr::Expr"
V = lambda n: ("v", n)
F = lambda n: ("f", n)
LOW = {"Binary", "Cast", "Closure", "Range", "Reference", "Unary"}
ALIASES = {
    "line": "line", "column": "column", "col": "column", "path": "path", "file": "file", "expr": "expr", "source": "source",
    "nth": "count", "count": "count", "fnname": "fn_name", "fn_name": "fn_name", "fnsig": "fn_sig", "fn_sig": "fn_sig",
    "sofar": "so_far", "so_far": "so_far", "bindings": "bindings", "vars": "bindings", "hooqmeta": "hooq_meta", "hooq_meta": "hooq_meta",
}
KINDS = {"Question": ("question", "?"), "Return": ("return_", "return"), "TailExpr": ("tail_expr", "tail expr")}


# ---- evaluating closed-form terms at concrete leaves -------------------------------------
class Stuck(Exception):
    pass


def ev(t, env):
    """value of a term when its leaves are given"""
    if t in env:
        return env[t]
    k = t.k
    if k == "c":
        return t.a[1] if t.a[0] != "bool" else bool(t.a[1])
    if k == "choice":
        for g, v in t.a[0]:
            if holds(g, env):
                return ev(v, env)
        raise Stuck("no alternative applies")
    if k == "fmt":
        return "".join(p if isinstance(p, str) else str(ev(p[1], env)) for p in t.a[0])
    if k == "call" and t.a[0] in ("to_string", "Display::fmt"):
        return str(ev(t.a[1][0], env))
    if k == "at":
        return ev(t.a[0], env)
    if k == "bin":
        op, a, b = t.a[0], ev(t.a[1], env), ev(t.a[2], env)
        f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Rem": lambda: a % b, "Div": lambda: a // b, "Eq": lambda: a == b, "Ne": lambda: a != b,
             "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b}.get(op)
        if f:
            return f()
    raise Stuck("cannot evaluate %s" % show(t)[:120])


def holds(g, env):
    while g is not YES and g is not NO:
        x = env[g.key] if g.key in env else ev(g.key, env)
        for v, kid in conds.edges(g):
            if v[0] == "=":
                w = v[1]
                w = (w.a[1] if w.a[0] != "bool" else bool(w.a[1])) if isinstance(w, T) and w.k == "c" else w
                if w == x:
                    g = kid
                    break
            else:
                ws = {(w.a[1] if isinstance(w, T) else w) for w in v[1]}
                if x not in ws:
                    g = kid
                    break
        else:
            raise Stuck("no branch for %s" % show(g.key)[:100])
    return g is YES


def peel(t):
    """without to_string / to_owned wrappers of strings"""
    while t.k == "call" and t.a[0] in ("to_string", "to_owned", "String::from") and t.a[1][0].k != "ts":
        t = t.a[1][0]
    return t


# ---- the expansion loop -----------------------------------------------------------------
class Expand:
    """every way one template token is turned into output tokens"""

    def __init__(self, an):
        self.an = an
        self.path = an.role("MV")
        b = an.p.bodies[self.path]
        names = {}
        for i, x in enumerate(b["inputs"]):
            t = an.p.tname(x)
            names[i] = "info" if "HookInfo" in t else "expr" if t == "&syn::Expr" else "ts" if t == "proc_macro2::TokenStream" else "span" if t.endswith("Span") else "mctx" if "Method" in t else "a%d" % i
        self.names = names
        self.res = an.run_named(self.path, ["MV", "HELPATH"], names)
        self.arg = {v: k for k, v in names.items()}
        loops = [(e, d, p) for e in self.res.loops.values() for d, p in loop_dom(e) if d is sym("ts")]
        if len(loops) != 1:
            raise Anchor("the template tokens are walked by %d loops, expected one" % len(loops))
        self.loop, self.dom, self.pos = loops[0]
        self.tok = mk("pr", self.dom, ("e", self.pos))
        self.kind = mk("disc", self.tok, TT)
        self.ident = get(self.tok, [V("Ident"), F("0")])
        accs = [t for t, e in self.loop.extra["phis"].items() if e[2].k == "ts" and e[2].a[0] is None and not e[2].a[1]]
        if len(accs) != 1:
            raise Anchor("%d token accumulators in the expansion loop, expected one" % len(accs))
        self.acc = accs[0]
        self.rounds = []
        for it in self.loop.extra["iters"]:
            if it.kind != "cont":
                continue
            for ac, v in alts(it.updates.get(self.acc, self.acc)):
                g = conj(it.pc, ac)
                if g is not NO:
                    self.rounds.append((g, v, it))
        # how "the previous token was `$`" is known: a flag kept from one token to the next, or the next token is taken in the same round
        dollar = lit(mk("call", "as_char", (get(self.tok, [V("Punct"), F("0")]),), None), ("=", c("char", "$")))
        self.dollar = dollar
        self.flag = None
        self.ntok = self.tok
        for t, e in self.loop.extra["phis"].items():
            if self.flag_value(t, e[2]) is FALSE and any(conj(conj(it.pc, c2), conj(dollar, lit(self.kind, ("=", "Punct")))) is not NO and self.flag_value(t, v) is TRUE
                                                         for it in self.loop.extra["iters"] for c2, v in alts(it.updates.get(t, t))):
                self.flag = t
        if self.flag is None:
            nxt = mk("bin", "Add", self.pos, cint(1))
            if not any(it.kind == "cont" and it.updates.get(self.pos) is mk("bin", "Add", nxt, cint(1)) for it in self.loop.extra["iters"]):
                raise Anchor("nothing remembers that the previous token was `$`")
            self.ntok = mk("pr", self.dom, ("e", nxt))
            self.pre = conj(dollar, lit(self.kind, ("=", "Punct")))
        elif self.loop.extra["phis"][self.flag][2] is FALSE:
            self.pre = lit(self.flag, ("=", TRUE))
        else:
            self.pre = lit(mk("disc", self.flag, OPTION), ("=", "Some"))
        self.nkind = mk("disc", self.ntok, TT)
        self.ident = get(self.ntok, [V("Ident"), F("0")])

    def flag_value(self, flag, v):
        if v in (TRUE, FALSE):
            return v
        if v.k == "agg" and v.a[1] in ("None", "Some"):
            return TRUE if v.a[1] == "Some" else FALSE
        return "same" if v is flag else v

    def flag_after(self, it, g):
        """what is remembered after a round: is the next token a name after `$`?"""
        if self.flag is None:
            one = mk("bin", "Add", self.pos, cint(1))
            two = mk("bin", "Add", one, cint(1))
            out = set()
            for c2, u in alts(it.updates.get(self.pos, self.pos)):
                h = conj(g, c2)
                for part, want in ((conj(h, self.pre), two), (conj(h, neg(self.pre)), one)):
                    if part is not NO:
                        out.add(FALSE if u is want else u)
            return out
        return {self.flag_value(self.flag, v) for c2, v in alts(it.updates.get(self.flag, self.flag)) if conj(g, c2) is not NO}

    def named(self, name):
        return conj(conj(self.pre, lit(self.nkind, ("=", "Ident"))), lit(self.ident, ("=", cstr(name))))

    def all_tokens(self):
        """every token is looked at, one after the other"""
        if self.flag is not None:
            return full_loop(self.loop, self.dom, self.pos)
        return self.loop.extra["phis"][self.pos][2] is cint(0) and all(self.flag_after(it, it.pc) == {FALSE} for it in self.loop.extra["iters"])

    def appended(self, v):
        """tokens added to the accumulator by this value of it"""
        if v is self.acc:
            return ()
        if v.k == "ts" and v.a[0] is self.acc:
            return tuple(y for x in v.a[1] for y in spliced(x))
        return None

    def values(self, cond):
        """[(condition, appended tokens, round)] of the rounds possible under cond"""
        out = []
        for g, v, it in self.rounds:
            h = conj(g, cond)
            if h is NO:
                continue
            toks = self.appended(simp(v, h))
            out.append((h, toks, it))
        return out


def spliced(x):
    """the tokens of a stream of known tokens put in as one"""
    if x[0] == "interp" and x[1].k == "ts" and x[1].a[0] is None:
        return tuple(z for y in x[1].a[1] for z in spliced(y))
    return (x,)


def expand(an):
    if "expand" not in an.cache:
        an.cache["expand"] = Expand(an)
    return an.cache["expand"]


def single(toks):
    """the one interpolated value or literal"""
    if toks is None or len(toks) != 1:
        return None
    if toks[0][0] == "interp":
        return toks[0][1]
    if toks[0][0] == "lit":
        s = toks[0][1]
        return cstr(s[1:-1]) if isinstance(s, str) and s[:1] == '"' else None
    return None


def showt(toks):
    return "nothing usable" if toks is None else " ".join(show_tok(x) for x in toks)[:200]


INFO = mk("at", sym("info"))
HC = get(INFO, [F("hook_context")])


def field_cell(x, f):
    """the setting cell of the hook's own context"""
    c0 = get(mk("at", HC), [F("local_context"), F(f)])
    return mk("at", c0)


def deref_eq(a, b):
    """the same place, whatever the pointers in between"""
    return strip_at(a) is strip_at(b)


def strip_at(t):
    if t.k == "at":
        return strip_at(t.a[0])
    if t.k == "pr":
        return get(strip_at(t.a[0]), [t.a[1]])
    return t


def setting(f):
    return get(sym("info"), [F("hook_context"), F("local_context"), F(f), F("val")])


def location(x, what):
    def f(v):
        return v.k == "call" and v.a[0] == what and v.a[1][0].k == "call" and v.a[1][0].a[0] == "unwrap" and v.a[1][0].a[1][0] is sym("span")
    return f


def file_name(v, g):
    """what follows the last slash of the path"""
    v = strip_at(peel(v))
    isp = location(None, "file")

    def split_of(x, names):
        return x.k == "call" and x.a[0].split("::")[-1] in names and isp(strip_at(x.a[1][0])) and x.a[1][1].k == "c" and x.a[1][1].a[1] == "/"
    if v.k == "pr" and v.a[1][0] == "e" and v.a[1][1] is cint(0) and split_of(v.a[0], ("rsplit", "rsplitn")):
        return True
    if v.k == "pr" and v.a[1][0] == "last" and split_of(v.a[0], ("split",)):
        return True
    def no_slash(h):
        return any(k.k == "disc" and split_of(strip_at(k.a[0]), ("rsplit_once", "rfind", "find", "split_once")) and conds.implies(h, lit(k, ("=", "None"))) for k in conds.support(h)) \
            or any(split_of(k, ("contains",)) and conds.implies(h, lit(k, ("=", FALSE))) for k in conds.support(h))
    # what is right of the last slash
    if v.k == "pr" and v.a[1] == F("1") and any(split_of(strip_at(x), ("rsplit_once",)) for x in subterms(v)):
        return True
    if v.k == "call" and v.a[0] == "slice" and isp(strip_at(v.a[1][0])):
        r = v.a[1][1]
        starts = alts(r.a[2][0][1]) if r.k == "agg" and r.a[0].endswith("RangeFrom") else ()

        def start(c2, x):
            if x is cint(0):
                return no_slash(conj(g, c2))
            return x.k == "bin" and x.a[0] == "Add" and x.a[2] is cint(1) and any(split_of(strip_at(y), ("rfind",)) for y in subterms(x.a[1]))
        starts = [(c2, x) for c2, x in starts if conj(g, c2) is not NO]
        return bool(starts) and all(start(c2, x) for c2, x in starts)

    if isp(v):
        return no_slash(g)
    return False


def display(an, ty):
    """{variant: text} a local enum displays as"""
    key = ("display", ty)
    if key not in an.cache:
        out = {}
        for k, b in an.p.bodies.items():
            if b.get("name") == "fmt" and not b.get("derived") and b.get("inputs") and an.p.tname(b["inputs"][0]).split("::")[-1] == ty.split("::")[-1]:
                r = an.run(k, [sym("self"), sym("f")], [])
                for var, _ in KINDS.items():
                    txt = set()
                    for s_, v in r.rs:
                        g = s_.pc
                        for kk in conds.support(g):
                            if kk.k == "disc" and kk.a[1] == ty:
                                g = conj(g, lit(kk, ("=", var)))
                        if g is NO:
                            continue
                        try:
                            txt.add("".join(str(ev(simp(e.args[-1], g), {})) for e in s_.log() if e.kind.startswith("write")))
                        except Stuck:
                            txt.add(None)
                    if len(txt) == 1:
                        out[var] = txt.pop()
        an.cache[key] = out
    return an.cache[key]


def same_count(an, v, facts, memo={}):
    """the ordinal of the hook among those of its kind: compared with the rule for the numbers 0 to 1111"""
    if v in memo:
        return memo[v]
    leaves = {}
    for x in subterms(v):
        if x.k == "pr" and strip_at(x.a[0]).k == "cell":
            leaves[x] = (strip_at(x.a[0]).a[0], x.a[1])
    kd = [x for x in all_keys(v) if x.k == "disc" and x.a[1].endswith("HookTargetKind")]
    shown = [x for x in subterms(v) if strip_at(x) is get(sym("info"), [F("kind")])]
    why = None
    want = get(sym("info"), [F("hook_context"), F("counter")])
    for x, (root, p) in leaves.items():
        if strip_at(root) is not want:
            why = "counts with %s" % show(root)[:80]
    for k in kd:
        if strip_at(k.a[0]) is not get(sym("info"), [F("kind")]):
            why = "the kind is that of %s" % show(k.a[0])[:80]
    if not leaves:
        why = "no counter in it"
    if why is None:
        for kind, (f, disp) in KINDS.items():
            for n in range(0, 1112):
                env = dict(facts)
                env |= {x: (n if p == F(f) else 7777777) for x, (r, p) in leaves.items()}
                for k in kd:
                    env[k] = kind
                for x in shown:
                    env[x] = display(an, an.adt("HookTargetKind")).get(kind)
                th = "th" if n % 100 in (11, 12, 13) else {1: "st", 2: "nd", 3: "rd"}.get(n % 10, "th")
                want_s = "%d%s %s" % (n, th, disp)
                try:
                    got = ev(v, env)
                except Stuck as e:
                    why = str(e)
                    break
                if got != want_s:
                    why = "number %d of kind %s reads `%s`, expected `%s`" % (n, kind, got, want_s)
                    break
            if why:
                break
    memo[v] = why
    return why


def all_keys(v):
    out = set()
    for x in subterms(v):
        if x.k == "choice":
            for g, _ in x.a[0]:
                out |= set(conds.support(g))
        if x.k == "disc":
            out.add(x)
    return out


def fn_text(an, which, v, g):
    fi = setting("fn_info")
    fa = an.adt("FunctionInfo")
    inner = get(fi, [V("Some"), F("0")])

    def is_(t, adt, var):
        """g says the value at t has this variant"""
        for k in conds.support(g):
            if k.k == "disc" and k.a[1] == adt and strip_at(k.a[0]) is t:
                return conds.implies(g, lit(k, ("=", var)))
        return False
    if is_(fi, OPTION, "None"):
        return v is cstr("<unknown>")
    if not is_(fi, OPTION, "Some"):
        return False
    v = strip_all(peel(v))
    if is_(inner, fa, "Function"):
        sg = get(inner, [V("Function"), F("0")])
        want = get(sg, [F("ident")]) if which == "fn_name" else mk("call", "to_string", (mk("ts", None, (("interp", sg),)),), None)
        return v is want
    if is_(inner, fa, "Closure"):
        ci = get(inner, [V("Closure"), F("0")])
        want = get(ci, [F("name")]) if which == "fn_name" else mk("call", "to_string", (mk("ts", None, (("interp", get(ci, [F("expr")])),)),), None)
        return v is want
    return False


def strip_all(t):
    t = strip_at(t)
    if t.k == "call" and t.a[0] == "to_string" and t.a[1][0].k == "ts":
        x = t.a[1][0]
        return mk("call", "to_string", (mk("ts", x.a[0], tuple(("interp", strip_at(y[1])) if y[0] == "interp" else y for y in x.a[1])),), None)
    return t


def value_ok(an, X, what, toks, g):
    """None if the appended tokens are the documented ones, else why not"""
    if what in ("line", "column", "path"):
        v = single(toks)
        m = {"line": "line", "column": "column", "path": "file"}[what]
        if v is None or not location(X, m)(peel(v)):
            return "is %s, expected the %s of the hook's own span" % (showt(toks), what)
        return None
    if what == "file":
        v = single(toks)
        good = v is not None and all(file_name(x, conj(g, c2)) for c2, x in alts(v) if conj(g, c2) is not NO)
        return None if good else "is %s, expected the last component of the path" % showt(toks)
    if what == "expr":
        v = single(toks)
        return None if v is not None and strip_at(v) is sym("expr") else "is %s, expected the hooked expression" % showt(toks)
    if what == "source":
        v = single(toks)
        return None if v is not None and strip_at(v) is get(sym("info"), [F("source_tokenstream")]) else "is %s, expected the source tokens" % showt(toks)
    if what == "count":
        v = single(toks)
        return "is %s" % showt(toks) if v is None else same_count(an, simp(v, g), {k: x[1].a[1] for k, x in conds.definite(g).items() if x[0] == "=" and isinstance(x[1], T) and x[1].k == "c"})
    if what in ("fn_name", "fn_sig"):
        v = single(toks)
        bad = [x for c2, x in alts(v) if conj(c2, g) is not NO and not fn_text(an, what, x, conj(c2, g))] if v is not None else [None]
        return "is %s, expected that of the innermost function" % showt(toks) if bad else None
    return "?"


def c19(ck, an):
    """every meta variable stands for the documented value, whatever precedes it; unknown names are errors"""
    X = expand(an)
    for name, what in sorted(ALIASES.items()):
        if what in ("so_far", "bindings", "hooq_meta"):
            continue
        vs = X.values(X.named(name))
        ck.ob("C19.known", "$" + name, bool(vs), "`$%s` is never expanded" % name)
        for g, toks, it in vs:
            if toks is None:
                why = "drops tokens already expanded"
            else:
                why = value_ok(an, X, what, toks, g)
            ck.ob("C19.value", "$" + name, why is None, "`$%s` %s" % (name, why))
        err = neg(disj_all([g for g, _, _ in vs]))
    # the remaining names are bindings or errors
    other = conj(conj(X.pre, lit(X.nkind, ("=", "Ident"))), lit(X.ident, ("!=", frozenset(cstr(n) for n in ALIASES))))
    vs = X.values(other)
    ck.ob("C19.binding", "$name", bool(vs), "user bindings are never expanded")
    bs = setting("bindings")
    for g, toks, it in vs:
        v = single(toks)
        good = v is not None and v.k == "pr" or (v is not None and v.k == "at")
        t = strip_at(v) if v is not None else None
        good = t is not None and t.k == "pr" and t.a[1][0] == "key" and strip_at(t.a[0]) is bs and peel(t.a[1][1]) is X.ident
        ck.ob("C19.binding", "$name", good, "a name that is no meta variable becomes %s, expected the binding of that name in force at the hook" % showt(toks))
        found = [k for k in conds.support(g) if k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0] == "map_get_opt"]
        ck.ob("C19.unknown", "$name", any(conds.implies(g, lit(k, ("=", "Some"))) for k in found), "a name bound to nothing does not end in an error")
    dollar_rules(ck, X)
    ck.floor("meta variable names", len(ALIASES), 19)
    ck.floor("ways to expand one token", len(X.rounds), 12)


def disj_all(gs):
    r = NO
    for g in gs:
        r = disj(r, g)
    return r


def dollar_rules(ck, X):
    notpre = neg(X.pre)
    # only names may follow `$`
    for g, toks, it in X.values(conj(X.pre, lit(X.nkind, ("!=", frozenset({"Ident"}))))):
        ck.ob("C19.dollar", "after $", False, "a token that is no name is accepted after `$` when %s" % show_cond(g)[:200])
    ck.ob("C19.dollar", "after $", True)
    for g, toks, it in X.values(conj(X.pre, lit(X.nkind, ("=", "Ident")))):
        fa = X.flag_after(it, g)
        ck.ob("C19.dollar", "after a name", fa == {FALSE}, "after `$name` the next name is taken for a meta variable as well")
    # a `$` at the end of a group
    for s, g, v in oks(X.res):
        facts = [f for r2, f, _ in X.loop.extra["exits"]]
        if X.flag is not None:
            ck.ob("C19.dollar", "at the end", conj(g, conj(X.pre, lit(mk("has", X.dom, X.pos, 0), ("=", FALSE)))) is NO, "a `$` that ends the template is dropped silently")
        for c2, x in alts(get(v, [V("Ok"), F("0")])):
            if conj(c2, g) is not NO:
                ck.ob("C11.result", "expanded tokens", x is X.acc, "the expansion is %s, expected the tokens gathered" % show(x)[:120])


def copies(ck, X):
    """tokens that belong to no meta variable are kept, in order, groups expanded inside"""
    notpre = neg(X.pre)
    r = "C11.copy"
    for kind in ("Ident", "Literal", "Punct", "Group"):
        cond = conj(notpre, lit(X.kind, ("=", kind)))
        node = get(X.tok, [V(kind), F("0")])
        if kind == "Punct":
            for g, toks, it in X.values(conj(cond, X.dollar)) if X.flag is not None else ():
                ck.ob(r, "$", toks == () and X.flag_after(it, g) == {TRUE}, "`$` becomes %s" % showt(toks))
            cond = conj(cond, neg(X.dollar))
        vs = X.values(cond)
        ck.ob(r, kind, bool(vs), "%s tokens of a method are never copied" % kind)
        for g, toks, it in vs:
            v = single(toks)
            fa = X.flag_after(it, g)
            ck.ob(r, kind + " leaves `$` state", fa <= {FALSE, "same"}, "a %s makes the next name a meta variable" % kind)
            if kind != "Group":
                ck.ob(r, kind, v is not None and strip_at(v) in (node, X.tok), "a %s of the method becomes %s" % (kind, showt(toks)))
                continue
            ok_ = v is not None and v.k in ("call", "agg") and is_group(X, v, node)
            ck.ob(r, kind, ok_, "a group of the method becomes %s, expected the same delimiters around the expanded contents" % showt(toks))
            # every group is expanded: the only other way out is the error of the expansion inside
        done = disj_all([g for g, _, _ in vs])
        if kind == "Group":
            inner = [k for k in conds.support(done) if k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0] == "MV"]
            for k in inner:
                done = conds.under(done, k, ("=", "Ok"))
        has = lit(mk("has", X.dom, X.pos, 0), ("=", TRUE))
        if kind == "Ident" and X.flag is not None:
            done = conds.under(done, X.ident, ("!=", frozenset(cstr(n) for n in ALIASES)))
        ck.ob(r, kind + " always", conds.implies(conj(cond, has), done), "a %s of the method is rejected when %s" % (kind, show_cond(conj(conj(cond, has), neg(done)))[:200]))
    ck.ob(r, "all tokens", X.all_tokens(), "tokens of the method are skipped")


def is_group(X, v, node):
    args = [a for a in (v.a[1] if v.k == "call" else [x for _, x in v.a[2]])]
    if len(args) != 2:
        return False
    d, s = args
    d_ok = d.k == "call" and d.a[0] == "delimiter" and strip_at(d.a[1][0]) is node
    if not (s.k == "pr" and s.a[1] == F("0") and s.a[0].k == "pr" and s.a[0].a[1] == V("Ok")):
        return False
    m = s.a[0].a[0]
    return d_ok and is_mv(X, m, lambda t: t.k == "call" and t.a[0] == "stream" and strip_at(t.a[1][0]) is node, lambda t: t is sym("mctx"))


def is_mv(X, m, ts_ok, ctx_ok):
    if not (m.k == "call" and m.a[0] == "MV"):
        return False
    a = X.arg
    args = m.a[1]
    return strip_at(args[a["info"]]) is sym("info") and strip_at(args[a["expr"]]) is sym("expr") and args[a["span"]] is sym("span") and ts_ok(args[a["ts"]]) and ctx_ok(args[a["mctx"]])


# ---- insertion and replacement ----------------------------------------------------------------
def c11(ck, an):
    """Insert puts the expanded method after the whole expression, Replace puts it in its place; nothing else is added or lost"""
    X = expand(an)
    copies(ck, X)
    path = an.role("R")
    b = an.p.bodies[path]
    names = {}
    for i, x in enumerate(b["inputs"]):
        t = an.p.tname(x)
        names[i] = "info" if "HookInfo" in t else "expr" if t == "&mut syn::Expr" else "span" if t.endswith("Span") else "a%d" % i
    res = an.run_named(path, ["MV"], names)
    MET = an.adt("Method")
    cell = setting("method")
    root = ("S", sym("expr"))
    n = 0
    seen = set()
    for s, g, v in oks(res):
        out0 = s.mem.get(root, mk("at", sym("expr")))
        d = {k for k in set(conds.support(g)) | all_keys(out0) | all_keys(v) if k.k == "disc" and k.a[1] == MET and strip_at(k.a[0]) is cell}
        cases = []
        for mode in ("Insert", "Replace"):
            gm = g
            for k in d:
                gm = conj(gm, lit(k, ("=", mode)))
            if gm is not NO and d:
                cases += [(mode, conj(gm, c2), new) for c2, new in alts(simp(out0, gm))]
        if not d:
            ck.ob("C11.mode", "path", False, "the expression is changed without asking whether the method is inserted or replaces (%s)" % show_cond(g)[:200])
        for mode, h, new in cases:
            if h is NO:
                continue
            n += 1
            seen.add(mode)
            tmpl = get(cell, [V(mode), F("1" if mode == "Insert" else "0")])
            body = parsed_of(simp(new, h))
            if body is None:
                ck.ob("C11.form", mode, False, "the new expression is %s" % show(new)[:160])
                continue
            for c3, ts in alts(simp(body, h)):
                h3 = conj(h, c3)
                if h3 is NO:
                    continue
                if mode == "Insert":
                    toks = tokens(ts)
                    dot = get(cell, [V("Insert"), F("0")])
                    if toks is None or len(toks) != 3:
                        ck.ob("C11.form", mode, False, "the new expression is %s, expected expression, dot, method" % show(ts)[:160])
                        continue
                    r, dt, m = toks
                    ck.ob("C11.form", "Insert: dot", (dt[0] == "interp" and strip_at(dt[1]) is dot) or dt[:2] == ("p", "."), "expected a dot between expression and method")
                    ck.ob("C11.form", "Insert: method", m[0] == "interp" and is_method(X, m[1], tmpl, res), "the inserted method is %s, expected the expansion of the method in force" % show_tok(m)[:160])
                    paren = r[0] == "grp" and r[1] == "(" and (single(tokens(r[2])) is not None) and strip_at(single(tokens(r[2]))) is sym("expr")
                    plain = r[0] == "interp" and strip_at(r[1]) is sym("expr")
                    ck.ob("C11.form", "Insert: receiver", paren or plain, "the method is inserted after %s, expected the hooked expression" % show_tok(r)[:160])
                    if plain:
                        low = [k for k in conds.support(h3) if k.k == "disc" and k.a[1] == EXPR and strip_at(k.a[0]) is sym("expr")]
                        bad = h3
                        for k in low:
                            for w in LOW:
                                bad = bad
                        can = [w for w in sorted(LOW) if not low or any(conj(h3, lit(k, ("=", w))) is not NO for k in low)]
                        ck.ob("C11.precedence", "Insert", not can, "the method is inserted after the last operand of the expression when it is of kind %s" % can)
                else:
                    toks = tokens(ts)
                    m = single(toks) if toks is not None else None
                    ck.ob("C11.form", "Replace", m is not None and is_method(X, m, tmpl, res) or is_method(X, ts, tmpl, res), "the new expression is %s, expected the expansion of the method in force" % show(ts)[:160])
            for c4, exc in alts(simp(get(v, [V("Ok"), F("0")]), h)):
                if conj(h, c4) is NO:
                    continue
                want = get(cell, [V(mode), F("2" if mode == "Insert" else "1")])
                ck.ob("C11.bang", mode, strip_at(exc) is want, "reports %s as the `!` of the method, expected the one it ends with" % show(exc)[:120])
    for m in ("Insert", "Replace"):
        ck.ob("C11.mode", m, m in seen, "no successful path renders a method in %s mode" % m)
    ck.floor("rendering paths", n, 2)


def tokens(ts):
    """the tokens of a closed token stream"""
    if ts.k == "ts":
        if ts.a[0] is None:
            return ts.a[1]
        return (("interp", ts.a[0], ()),) + ts.a[1]
    return (("interp", ts, ()),)


def parsed_of(t):
    """the tokens a value of parse2 / parse_quote comes from"""
    if t.k == "parsed":
        return t.a[1]
    if t.k == "pr" and t.a[1] == F("0") and t.a[0].k == "pr" and t.a[0].a[1] == V("Ok"):
        p = t.a[0].a[0]
        if p.k == "parse":
            return next(x for x in p.a if isinstance(x, T))
        if p.k == "call" and p.a[0].startswith("parse"):
            return p.a[1][1]
    return None


def is_method(X, t, tmpl, res=None):
    """the expansion of the template, every top-level token given the hook's span"""
    t = unspan(t, res)
    if not (t.k == "pr" and t.a[1] == F("0") and t.a[0].k == "pr" and t.a[0].a[1] == V("Ok")):
        return False
    return is_mv(X, t.a[0].a[0], lambda x: strip_at(x) is tmpl, lambda x: x.k == "agg" and x.a[1] == "None")


def unspan(t, res=None):
    """the stream whose tokens, each with a new span, make up t"""
    if t.k == "phi" and res is not None:
        for e in res.loops.values():
            if t in e.extra["phis"]:
                return unspan_loop(t, e, res) or t
    if t.k == "call" and t.a[0] == "collect":
        src, y = t.a[1][1], t.a[1][2]
        if y.k == "yields" and not y.a[1] and len(y.a[0]) == 1:
            (g, v), = y.a[0]
            if g is YES:
                x = spanned_of(v)
                if x is not None and x.k == "pr" and x.a[0] is src and x.a[1][0] == "e":
                    return src
    return t


def spanned_of(v):
    if v.k in ("spanned", "call") and (v.k == "spanned" or v.a[0] == "spanned"):
        x, sp = (v.a[0], v.a[1]) if v.k == "spanned" else v.a[1]
        if sp is sym("span"):
            return x
    return None


def unspan_loop(t, e, res):
    """a loop that appends every token of a stream, with the new span, to a stream empty at first"""
    if tokens(res.phis[t]) != () or not e.extra["iters"]:
        return None
    srcs = set()
    for it in e.extra["iters"]:
        u = it.updates.get(t)
        if it.kind != "cont" or u is None or u.k != "ts" or u.a[0] is not t or len(u.a[1]) != 1 or u.a[1][0][0] != "interp":
            return None
        x = spanned_of(u.a[1][0][1])
        if x is None or x.k != "pr" or x.a[1][0] != "e":
            return None
        p = x.a[1][1]
        if p not in e.extra["phis"] or res.phis[p] is not terms.cint(0) or it.updates.get(p) is not mk("bin", "Add", p, terms.cint(1)):
            return None
        srcs.add((x.a[0], p))
    if len(srcs) != 1:
        return None
    src, p = srcs.pop()
    for ex in e.extra["exits"]:
        if not any(k.k == "has" and k.a[0] is src and k.a[1] is p and k.a[2] == 0 and f == ("=", terms.FALSE) for k, f in ex[1].items()):
            return None
    return src


# ---- $so_far -------------------------------------------------------------------------------------
def c20(ck, an):
    """`$so_far` is the method this one overrides, expanded for the same hook; an error if there is none"""
    X = expand(an)
    MET = an.adt("Method")
    mc = sym("mctx")
    own = get(get(sym("info"), [F("hook_context"), F("local_context"), F("method")]), [F("overridden_ancestor")])
    outer = get(mc, [V("Some"), F("0"), F("overridden_ancestor")])
    n = 0
    for name in ("so_far", "sofar"):
        vs = X.values(X.named(name))
        ck.ob("C20.known", "$" + name, bool(vs), "`$%s` is never expanded" % name)
        covered = NO
        for g, toks, it in vs:
            v = single(toks)
            if v is None or not (v.k == "pr" and v.a[1] == F("0") and v.a[0].k == "pr" and v.a[0].a[1] == V("Ok")):
                ck.ob("C20.value", "$" + name, False, "`$%s` becomes %s, expected the expansion of the overridden method" % (name, showt(toks)))
                continue
            m = v.a[0].a[0]
            if not is_mv(X, m, lambda t: True, lambda t: True):
                ck.ob("C20.value", "$" + name, False, "`$%s` is expanded for another hook: %s" % (name, show(m)[:160]))
                continue
            a = X.arg
            for nested in (False, True):
                cg = conj(g, lit(mk("disc", mc, OPTION), ("=", "Some" if nested else "None")))
                anc = outer if nested else own
                if cg is NO:
                    ck.ob("C20.value", "$%s %s" % (name, "nested" if nested else "outermost"), False, "`$%s` is not expanded %s" % (name, "inside an overridden method" if nested else "in the method in force"))
                    continue
                ctx = simp(m.a[1][a["mctx"]], cg)
                good = ctx.k == "agg" and ctx.a[1] == "Some" and all(strip_at(x) is get(anc, [V("Some"), F("0")]) for c2, x in alts(ctx.a[2][0][1]) if conj(c2, cg) is not NO)
                ck.ob("C20.next", "$%s %s" % (name, "nested" if nested else "outermost"), good, "inside it `$so_far` refers to %s, expected one level further out" % show(ctx)[:160])
                for c2, x in alts(simp(m.a[1][a["ts"]], cg)):
                    h = conj(c2, cg)
                    if h is NO:
                        continue
                    n += 1
                    val = get(anc, [V("Some"), F("0"), F("val")])
                    want = [get(val, [V("Insert"), F("1")]), get(val, [V("Replace"), F("0")])]
                    ck.ob("C20.value", "$%s %s" % (name, "nested" if nested else "outermost"), strip_at(x) in want, "`$%s` expands %s, expected the method overridden by %s" % (name, show(x)[:160], "the one being expanded" if nested else "the method in force"))
                # without an overridden method: an error
                ks = [k for k in conds.support(cg) if k.k == "disc" and k.a[1] == OPTION and strip_at(k.a[0]) is anc]
                ck.ob("C20.none", "$%s %s" % (name, "nested" if nested else "outermost"), any(conds.implies(cg, lit(k, ("=", "Some"))) for k in ks), "`$%s` without an overridden method is no error" % name)
    ck.floor("ways to expand `$so_far`", n, 8)
    # a group belongs to the method it stands in
    cond = conj(neg(X.pre), lit(X.kind, ("=", "Group")))
    for g, toks, it in X.values(cond):
        for m in {t for x in toks if x[0] == "interp" for t in subterms(x[1], guards=False) if t.k == "call" and t.a[0] == "MV"}:
            ctx = simp(m.a[1][X.arg["mctx"]], g)
            ck.ob("C20.group", "group", ctx is mc, "inside a group `$so_far` refers to %s, expected the same method as outside" % show(ctx)[:160])
    overridden(ck, an)


def overridden(ck, an):
    """a setting written at a node records the one it replaces as its ancestor; one not written is passed on as it is"""
    from walkrules import handler, PARENT
    for g, v, x, st in handler(an):
        for f in ("method",):
            old = get(PARENT, [F("local_context"), F(f)])
            new = simp(get(v, [F("new_context"), F("local_context"), F(f)]), g)
            own = get(x, [F(f)])
            for c2, t in alts(new):
                h = conj(g, c2)
                if h is NO:
                    continue
                written = [k for k in conds.support(h) if k.k == "disc" and k.a[0] is own]
                if any(conds.implies(h, lit(k, ("=", "None"))) for k in written):
                    ck.ob("C20.keep", f, strip_at(t) is strip_at(old), "a node without a method of its own changes what `$so_far` refers to")
                else:
                    u = get(t, [F("overridden_ancestor")])
                    ck.ob("C20.record", f, u.k == "agg" and u.a[1] == "Some" and strip_at(u.a[2][0][1]) is strip_at(old), "an overriding method records %s as the overridden one, expected the method in force around it" % show(u)[:160])


# ---- bindings and HooqMeta ---------------------------------------------------------------------------
def fields(ts):
    """{name: tokens} of the inside of a struct expression"""
    out = {}
    cur = []
    parts = []
    for x in ts:
        if x[:2] == ("p", ","):
            parts.append(cur)
            cur = []
        else:
            cur.append(x)
    if cur:
        parts.append(cur)
    for p in parts:
        if p and p[0][0] == "id":
            out[p[0][1]] = tuple(p[2:]) if len(p) > 2 and p[1][:2] == ("p", ":") else (p[0],)
    return out


def c21(ck, an):
    """`$hooq_meta` carries the same values as the single meta variables; `$bindings` has every binding in force, with its text and value"""
    X = expand(an)
    n = 0
    for name in ("hooq_meta", "hooqmeta"):
        vs = X.values(X.named(name))
        ck.ob("C21.known", "$" + name, bool(vs), "`$%s` is never expanded" % name)
        for g, toks, it in vs:
            last = toks[-1] if toks else None
            if not last or last[0] != "grp" or ("id", "HooqMeta") not in [x[:2] for x in toks]:
                ck.ob("C21.meta", "$" + name, False, "`$%s` becomes %s, expected a HooqMeta" % (name, showt(toks)))
                continue
            for c2, inner in alts(simp(last[2], g)):
                h = conj(g, c2)
                if h is NO or inner.k != "ts" or inner.a[0] is not None:
                    if h is not NO:
                        ck.ob("C21.meta", "$" + name, False, "fields of HooqMeta not readable: %s" % show(inner)[:100])
                    continue
                fs = fields(inner.a[1])
                for f in ("line", "column", "path", "file", "count"):
                    why = value_ok(an, X, f, simp_toks(fs.get(f), h), h)
                    n += 1
                    ck.ob("C21.meta", "%s.%s" % (name, f), why is None, "`$%s.%s` %s" % (name, f, why))
                v = single(fs.get("source_str"))
                good = v is not None and v.k == "call" and v.a[0] == "to_string" and strip_at(v.a[1][0] if v.a[1][0].k != "ts" else single(v.a[1][0].a[1]) or v) is get(sym("info"), [F("source_tokenstream")])
                ck.ob("C21.meta", "%s.source_str" % name, good, "`$%s.source_str` is %s, expected the text of the source tokens" % (name, showt(fs.get("source_str"))))
                check_bindings(ck, an, X, "%s.bindings" % name, fs.get("bindings"), h)
    for name in ("bindings", "vars"):
        vs = X.values(X.named(name))
        ck.ob("C21.known", "$" + name, bool(vs), "`$%s` is never expanded" % name)
        for g, toks, it in vs:
            check_bindings(ck, an, X, "$" + name, toks, g)
    ck.floor("fields of HooqMeta", n, 10)


def simp_toks(toks, g):
    return None if toks is None else tuple((x[0], simp(x[1], g)) + tuple(x[2:]) if x[0] == "interp" else x for x in toks)


def one_value(toks):
    if toks and len(toks) == 1 and toks[0][0] == "interp" and toks[0][1].k == "ts":
        return toks[0][1].a[1] if toks[0][1].a[0] is None else None
    return toks


def check_bindings(ck, an, X, where, toks, g):
    toks = one_value(toks)
    last = toks[-1] if toks else None
    if not last or last[0] != "grp" or [x[1] for x in toks if x[0] == "id"][-2:] != ["HashMap", "from"]:
        ck.ob("C21.bindings", where, False, "is %s, expected a map built from the bindings" % showt(toks))
        return
    arr = [x for x in last[2].a[1] if x[0] == "grp"] if last[2].k == "ts" else []
    if not arr:
        ck.ob("C21.bindings", where, False, "is %s, expected a map built from the bindings" % showt(toks))
        return
    acc = arr[0][2]
    if acc.k == "ts" and acc.a[0] is not None and not acc.a[1]:
        acc = acc.a[0]
    loops = [e for e in X.res.loops.values() if acc in e.extra["phis"]]
    if len(loops) != 1:
        ck.ob("C21.bindings", where, False, "the entries are %s, expected one per binding" % show(acc)[:120])
        return
    e = loops[0]
    src = [(d, p) for d, p in loop_dom(e)]
    bs = setting("bindings")
    if len(src) != 1 or not is_all(src[0][0], bs):
        ck.ob("C21.bindings", where, False, "the entries range over %s, expected every binding in force" % ([show(d)[:100] for d, _ in src],))
        return
    dom, pos = src[0]
    ck.ob("C21.bindings", where + ": every binding", full_loop(e, dom, pos) and all(not it.kind == "break" for it in e.extra["iters"]), "bindings are skipped")
    el = mk("pr", dom, ("e", pos))
    k, v = get1(el, F("0")), get1(el, F("1"))
    n = 0
    for it in e.extra["iters"]:
        if it.kind != "cont":
            continue
        for c2, t in alts(it.updates.get(acc, acc)):
            h = conj(it.pc, c2)
            if h is NO:
                continue
            n += 1
            new = t.a[1] if t.k == "ts" and t.a[0] is acc else None
            item = [x for x in new or () if x[:2] != ("p", ",")]
            why = entry(item, k, v)
            ck.ob("C21.bindings", where + ": entry", why is None, str(why))
    ck.ob("C21.bindings", where + ": entries", n > 0, "no entries")


def is_all(t, bs):
    """t enumerates exactly the entries of the map (in some order)"""
    for _ in range(10):
        if strip_at(t) is bs:
            return True
        if t.k == "call" and t.a[0] in ("sorted", "iter", "reversed"):
            t = t.a[1][0]
            continue
        s = identity_source(t)
        if s is t:
            return False
        t = s
    return False


def unrep(t):
    while t.k == "agg" and t.a[0].endswith("RepInterp"):
        t = t.a[2][0][1]
    return t


def flat_toks(toks):
    """tokens with interpolated streams spliced in"""
    out = []
    for x in toks:
        if x[0] == "interp":
            t = unrep(x[1])
            if t.k == "ts" and t.a[0] is None:
                out += flat_toks(t.a[1])
            else:
                out.append(("interp", t))
        else:
            out.append(x)
    return out


def entry(item, k, v):
    """("key", { text; value; payload })"""
    toks = flat_toks(item)
    if len(toks) != 1 or toks[0][0] != "grp" or toks[0][1] != "(":
        return "an entry is %s" % showt(toks)
    inner = flat_toks(toks[0][2].a[1])
    key, pay = [], []
    cur = key
    for x in inner:
        if x[:2] == ("p", ",") and cur is key:
            cur = pay
        else:
            cur.append(x)
    ks = [x for x in deep(key) if x[0] in ("interp", "lit")]
    if not (len(ks) == 1 and ks[0][0] == "interp" and strip_at(peel(ks[0][1])) is strip_at(k)):
        return "the key is %s, expected the name of the binding" % showt(key)
    ds = [x for x in deep(pay) if x[0] == "interp"]
    text = [x for x in ds if x[1].k == "call" and x[1].a[0] == "to_string" and x[1].a[1][0].k == "ts" and single(x[1].a[1][0].a[1]) is not None and strip_at(single(x[1].a[1][0].a[1])) is strip_at(v)]
    val = [x for x in ds if strip_at(x[1]) is strip_at(v)]
    if len(text) != 1:
        return "the payload does not carry the text of the bound expression"
    if len(val) != 1:
        return "the payload does not carry the value of the bound expression (exactly once)"
    # let A = to_string(text); let B = Rc::new(value); BindingPayload { expr: A, value: B }
    body = pay[-1]
    st = stmts(flat_toks(body[2].a[1])) if body[0] == "grp" and body[1] == "{" else []
    names = {}
    for s in st[:-1]:
        if s and s[0][:2] == ("id", "let"):
            kind = "expr" if any(x is text[0] or x == text[0] for x in deep(s)) else "value" if any(x == val[0] for x in deep(s)) else None
            names[s[1][1]] = kind
    if st and st[-1] and st[-1][-1][0] == "grp" and ("id", "BindingPayload") in [x[:2] for x in st[-1]]:
        fs = fields(flat_toks(st[-1][-1][2].a[1]))
        for f in ("expr", "value"):
            t = fs.get(f)
            got = None
            if t:
                if len(t) == 1 and t[0][0] == "id":
                    got = names.get(t[0][1])
                else:
                    got = "expr" if text[0] in deep(t) else "value" if val[0] in deep(t) else None
            if got != f:
                return "field `%s` of the payload is not the %s of the binding" % (f, {"expr": "text", "value": "value"}[f])
        return None
    return "the entry ends in %s, expected a BindingPayload" % showt(st[-1] if st else [])


def deep(toks):
    out = []
    for x in toks:
        if x[0] == "grp":
            out += deep(flat_toks(x[2].a[1])) if x[2].k == "ts" else [("interp", x[2])]
        elif x[0] == "interp":
            t = unrep(x[1])
            if t.k == "ts" and t.a[0] is None:
                out += deep(t.a[1])
            else:
                out.append(("interp", t))
        else:
            out.append(x)
    return out


def stmts(toks):
    out = [[]]
    for x in toks:
        if x[:2] == ("p", ";"):
            out.append([])
        else:
            out[-1].append(x)
    return out
