"""The source excerpt macros: which options lead to which shortening and layout (rule C28)."""
import conds
import known
import terms
from engine import ev_list
from conds import G, YES, NO, conj, disj, neg, lit
from lint import *
from terms import mkchoice
from walk import alts

F = lambda n: ("f", n)
V = lambda n: ("v", n)
MACROS = ("truncate_lit_str", "pretty_stringify", "one_line_stringify", "excerpted_pretty_stringify")
OPTIONS = {
    "excerpt_line": {"Int": "number"},
    "truncate_str": {None: "default", "Int": "number"},
    "show_line_num": {None: "on"},
    "padding": {None: "both", "Str:top": "top", "Str:bottom": "bottom", "Str:both": "both"},
}


def option_facts(name, val):
    """what is known while the option `@name = val` is read; val is None, "Int", "Str:text" or the name of another kind of literal"""
    kind = val and val.split(":")[0]

    def fact(t):
        if t.k == "disc":
            x = t.a[0]
            if t.a[1] == RESULT and x.k == "call" and x.a[0] in ("stream_parse", "LitInt::base10_parse"):
                return "Ok"
            if t.a[1] == "syn::lit::Lit" or t.a[1] == "syn::Lit":
                return kind
            return None
        if t.k == "call" and t.a[0] == "stream_is_empty":
            return False
        if t.k == "call" and t.a[0] == "stream_peek":
            s, ty = t.a[1][0], known.ty(t.a[1][1])
            if ty.endswith("Comma"):
                return val is None or not forked(s)
            if ty.endswith(("Semi", "Eq")):
                return ty.endswith("Eq") and val is not None
            if ty.endswith("At"):
                return True
            return None
        x = known.strip(t)
        if x.k == "pr" and x.a[1] == F("0") and x.a[0].k == "pr" and x.a[0].a[1] == V("Ok") and x.a[0].a[0].k == "call" and x.a[0].a[0].a[0] == "stream_parse" and known.ty(x.a[0].a[0].a[1][0]) == "syn::Ident":
            return name
        if x.k == "call" and x.a[0].endswith("value") and kind == "Str":
            return val[4:]
        return None
    return fact


def forked(s):
    return s.k == "stream" and len(s.a) > 2 and s.a[2] == "fork" or (s.k == "stream" and isinstance(s.a[0], T) and s.a[0].k == "stream")


class Macro:
    def __init__(self, an, name):
        self.an, self.name = an, name
        self.res = an.run_named("hooq_macros::" + name, [])
        self.loop = None
        for e in self.res.loops.values():
            evs = [x for it in e.extra["iters"] for x in it.events]
            if any(it.kind == "cont" and any(t.k == "call" and t.a[0] == "stream_parse" and known.ty(t.a[1][0]) == "syn::Ident" for t in conds.support(it.pc) for t in subterms(t)) for it in e.extra["iters"]):
                self.loop = e
        if self.loop is None:
            raise Anchor("the loop over the options of %s is gone" % name)

    def option(self, name, val):
        """{phi: value after the option} or None when it is rejected"""
        K = known.Known(fn=option_facts(name, val))
        out = None
        for it in self.loop.extra["iters"]:
            if it.kind != "cont" or K.cond(it.pc) is NO:
                continue
            m = {phi: K.term(v) for phi, v in it.updates.items()}
            m = {phi: v for phi, v in m.items() if v is not phi}
            if out is not None and out != m:
                return {"?": [out, m]}
            out = m
        return out

    def rejected(self, name, val):
        K = known.Known(fn=option_facts(name, val))
        return all(K.cond(conj(s.pc, g)) is NO or is_error(x) for s, v in self.res.rs for g, x in alts(v))

    def texts(self, m):
        """what the macro turns into under these values of the options"""
        base = {phi: x[2] for phi, x in self.loop.extra["phis"].items()}
        base.update(m)
        self.base = base
        out = {}
        for s, v in self.res.rs:
            pc = norm_cond(s.pc, base)
            if pc is NO:
                continue
            for g, x in alts(norm(v, base)):
                h = conj(norm_cond(g), pc)
                if h is not NO and not is_error(x):
                    out[x] = disj(out.get(x, NO), h)
        return out


def agg_facts(t):
    return t.a[0].a[1] if t.k == "disc" and t.a[0].k == "agg" else None


def rebuilt(t, m, memo):
    """t with m substituted and projections of known values resolved"""
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is None:
        na = tuple(terms._map(x, lambda y: rebuilt(y, m, memo)) for x in t.a)
        if t.k == "pr":
            r = get(na[0], (na[1],))
        elif t.k == "choice":
            r = mkchoice(na[0])
        else:
            r = t if na == t.a else mk(t.k, *na)
        memo[t] = r
    return r


def norm(t, m=None):
    """t under the values m of the options"""
    t = rebuilt(t, m or {}, {})
    for _ in range(6):
        n = rebuilt(known.Known(fn=agg_facts).term(t), {}, {})
        if n is t:
            break
        t = n
    return t


NORMED = {}


def norm_cond(g, m=None):
    """a condition under the values m of the options"""
    if m:
        g = terms._map(g, lambda x: rebuilt(x, m, {}))
    r = NORMED.get(g)
    if r is None:
        r = terms._map(known.Known(fn=agg_facts).cond(g), normed)
        r = NORMED[g] = known.Known(fn=agg_facts).cond(r)
    return r


def normed(t):
    r = NORMED.get(t)
    if r is None:
        r = NORMED[t] = norm(t)
    return r


def is_error(x):
    x = known.strip(x)
    return x.k == "call" and x.a[0] == "compile_error"


# what a text consists of ------------------------------------------------------
class Texts:
    def __init__(self, an, M):
        self.an, self.M = an, M
        self.items = {}  # phi -> the loop it belongs to
        self.shown = {}
        self.extra = {}
        self.learn(M.res)

    def learn(self, res):
        for e in res.loops.values():
            for phi in e.extra["phis"]:
                self.items[phi] = e

    def display(self, t):
        """the text an own type is displayed as, or None"""
        if t in self.shown:
            return self.shown[t]
        self.shown[t] = None
        if t.k != "agg":
            return None
        for k, b in self.an.p.bodies.items():
            if k.endswith("::fmt") and not b.get("derived") and len(b["inputs"]) == 2 and self.an.p.tname(b["inputs"][0]).lstrip("&").split("::")[-1] == t.a[0].split("::")[-1]:
                r = self.an.run(k, [valref(t), mk("sym", "formatter")], {})
                out = []
                for s, v in r.rs:
                    w = [e for e in ev_list(s.events) if e.kind == "write_fmt"]
                    if len(w) != 1 or norm_cond(s.pc) is not YES:
                        return None
                    out.append(w[0].args[-1])
                if len(set(out)) == 1:
                    self.shown[t] = norm(out[0])
        return self.shown[t]

    def atoms(self, t, n=0):
        """[(condition, (characters and terms))]"""
        x = bare(t)
        if x.k == "choice":
            return [(conj(g, h), a) for g, v in x.a[0] for h, a in self.atoms(v, n + 1) if conj(norm_cond(g), h) is not NO]
        if x.k == "c" and isinstance(x.a[1], str):
            return [(YES, tuple(x.a[1]))]
        if n < 12 and x.k == "call" and x.a[0] == "to_string" and x.a[1]:
            y = bare(x.a[1][0])
            if y.k == "agg":
                d = self.display(y)
                if d is not None:
                    return self.atoms(d, n + 1)
            elif y.k in ("fmt", "choice", "c", "join", "phi"):
                return self.atoms(y, n + 1)
        if x.k == "fmt" and n < 12:
            out = [(YES, ())]
            for q in x.a[0]:
                if isinstance(q, str):
                    more = [(YES, tuple(q))]
                elif q[0] == "d":
                    more = self.atoms(q[-1], n + 1)
                else:
                    more = [(YES, (q,))]
                out = [(conj(g, h), a + b) for g, a in out for h, b in more if conj(g, h) is not NO]
            return out
        return [(YES, (x,))]

    def expansion(self, x):
        """the text an expansion spells as a string literal, or None when it is made of tokens"""
        x = bare(x)
        if x.k == "ts" and x.a[0] is None and len(x.a[1]) == 1 and x.a[1][0][0] == "interp":
            v = bare(x.a[1][0][1])
            if not (v.k == "call" and v.a[0].endswith("fold_expr")) and not is_parsed_expr(v):
                return v
        return None

    def closure(self, t):
        """every term the value t is computed from, through the loops that build it"""
        seen, todo, loops = set(), [t], set()
        while todo:
            for x in subterms(todo.pop(), guards=False):
                if x in seen:
                    continue
                seen.add(x)
                if x.k == "agg":
                    d = self.display(x)
                    if d is not None:
                        todo.append(d)
                if x.k == "phi" and x in self.items and self.items[x] not in loops:
                    e = self.items[x]
                    loops.add(e)
                    todo += [norm(d, self.M.base) for d, p in loop_dom(e)]
                    for it in e.extra["iters"]:
                        todo += [norm(v, self.M.base) for v in it.updates.values()]
                    todo += [norm(v[2], self.M.base) for v in e.extra["phis"].values()]
        return seen, loops


def bare(x):
    """a value without references, copies and clones"""
    while True:
        if x.k == "at":
            x = x.a[0]
        elif x.k == "ref" and not x.a[1] and x.a[0][0] in ("K", "S") and isinstance(x.a[0][1], T) and (x.a[0][0] == "K" or x.a[0][1].k == "c"):
            x = x.a[0][1]
        elif x.k == "call" and x.a[0] in ("deref", "as_ref", "clone", "borrow", "as_str", "to_owned", "into", "from") and len(x.a[1]) == 1:
            x = x.a[1][0]
        else:
            return x


def is_parsed_expr(v):
    return v.k == "pr" and v.a[1] == F("0") and v.a[0].k == "pr" and v.a[0].a[1] == V("Ok") and v.a[0].a[0].k == "call" and v.a[0].a[0].a[0] == "stream_parse" and known.ty(v.a[0].a[0].a[1][0]) == "syn::Expr"


LEGAL = [(o, v) for o, vs in OPTIONS.items() for v in vs]
ILLEGAL = [("excerpt_line", None), ("excerpt_line", "Str:top"), ("truncate_str", "Str:both"), ("padding", "Str:left"), ("padding", "Int"), ("no_such_option", None), ("no_such_option", "Int")]
USES = {
    "truncate_lit_str": {"truncate_str"},
    "pretty_stringify": {"show_line_num", "padding"},
    "one_line_stringify": {"truncate_str"},
    "excerpted_pretty_stringify": {"excerpt_line", "truncate_str", "show_line_num", "padding"},
}


def opt(o, v):
    return "@%s%s" % (o, "" if v is None else " = %s" % v.replace("Str:", ""))


def the_exprs(t):
    """[(condition, folder or None, expression)]: the expression behind a stream of its tokens, perhaps after string literals are shortened"""
    t = bare(t)
    if t.k == "choice":
        return [(conj(g, h), f, e) for g, v in t.a[0] for h, f, e in the_exprs(v)]
    if t.k == "ts" and t.a[0] is None and len(t.a[1]) == 1 and t.a[1][0][0] == "interp":
        return the_exprs(t.a[1][0][1])
    if t.k == "call" and t.a[0].endswith("fold_expr") and len(t.a[1]) == 2:
        return [(g, bare(t.a[1][0]) if f is None else f, e) for g, f, e in the_exprs(t.a[1][1])]
    return [(YES, None, t)]


def token_sources(ts, x):
    """the token streams (of expressions) an expansion shows"""
    body = ts.expansion(x)
    if body is None:
        return [x], None
    seen, loops = ts.closure(body)
    src = []
    for e in loops:
        for d, p in loop_dom(e):
            d = norm(d, ts.M.base)
            for g, v in alts(d):
                v = bare(v)
                if v.k == "ts" and any(is_parsed_expr(y) for y in subterms(v, guards=False)) and v not in src:
                    src.append(v)
    return src, body


def c28(ck, an=None):
    an = an or Analysis("default")
    n = 0
    for name in MACROS:
        M = Macro(an, name)
        ts = Texts(an, M)
        default = M.texts({})
        ck.ob("C28.base", name, bool(default), "never expands to anything")
        # the option table
        slot = {}
        for o, v in LEGAL:
            m = M.option(o, v)
            n += 1
            if not ck.ob("C28.option", "%s %s" % (name, opt(o, v)), m is not None, "the option is rejected"):
                continue
            slot.setdefault(o, set()).update(m)
        for o, v in ILLEGAL:
            n += 1
            ck.ob("C28.reject", "%s %s" % (name, opt(o, v)), M.option(o, v) is None and M.rejected(o, v), "the option is accepted")
        for o in slot:
            for q in slot:
                if o < q:
                    ck.ob("C28.slots", "%s @%s/@%s" % (name, o, q), not slot[o] & slot[q], "the options @%s and @%s overwrite each other" % (o, q))
        base = {}
        for o in OPTIONS:
            for v in OPTIONS[o]:
                m = M.option(o, v)
                if m is not None:
                    base[o, v] = m
        def texts(*os):
            m = {}
            for o in os:
                if o not in base:
                    return None
                m.update(base[o])
            r = M.texts(m)
            return r
        # options of other macros change nothing
        for o, v in LEGAL:
            if o not in USES[name] and (o, v) in base:
                t = texts((o, v))
                ck.ob("C28.unused", "%s %s" % (name, opt(o, v)), set(t) == set(default), "the option changes the expansion although the macro has no such option")
                n += 1
        # the expression, shortened exactly as asked
        others = [()] + [((q, v),) for q in ("show_line_num", "padding", "excerpt_line") for v in list(OPTIONS[q])[-1:] if q in USES[name] and (q, v) in base]
        for o, also in [(o, also) for o in (None, ("truncate_str", None), ("truncate_str", "Int")) for also in others]:
            if o and (o not in base or o[0] not in USES[name]):
                continue
            t = texts(*([o] if o else []), *also)
            want = {"truncate_lit_str": True, "excerpted_pretty_stringify": True, "one_line_stringify": bool(o), "pretty_stringify": False}[name]
            label = " ".join([name] + [opt(*q) for q in ([o] if o else []) + list(also)])
            given = [x for x in base[o].values() if x.k == "agg"] if o and o[1] else []
            num = numbers(given)
            bad = []
            for x, h in t.items():
                src, body = token_sources(ts, x)
                for y in src:
                    for g, f, e in the_exprs(y):
                        if conj(g, h) is NO:
                            continue
                        n += 1
                        if not is_parsed_expr(e):
                            bad.append("shows %s instead of the expression" % show(e)[:80])
                        elif (f is not None) != want:
                            bad.append("string literals are %s" % ("shortened" if f is not None else "not shortened"))
                        elif f is not None and f.k == "agg":
                            bad += limits(f, num, conj(g, h))
                if not src:
                    bad.append("the expansion does not come from the tokens of the expression")
            ck.ob("C28.truncate", label, not bad, "; ".join(sorted(set(bad)))[:300])
        if name not in ("pretty_stringify", "excerpted_pretty_stringify"):
            if name == "one_line_stringify":
                ck.ob("C28.text", name, all(ts.expansion(x) is not None for x in default), "does not expand to a string literal")
            continue
        ck.ob("C28.text", name, all(ts.expansion(x) is not None for x in default), "does not expand to a string literal")
        # padding
        for show_ in ((), (("show_line_num", None),)):
            rows = {}
            for key in ("Str:top", "Str:bottom", "Str:both", None):
                t = texts(("padding", key), *show_)
                if t is not None:
                    rows[key] = [(conj(h, g), a) for x, h in t.items() if ts.expansion(x) is not None for g, a in ts.atoms(ts.expansion(x)) if conj(h, g) is not NO]
            rows["none"] = [(conj(h, g), a) for x, h in M.texts({k: v for o in show_ for k, v in base[o].items()}).items() if ts.expansion(x) is not None for g, a in ts.atoms(ts.expansion(x)) if conj(h, g) is not NO]
            label = name + (" @show_line_num" if show_ else "")
            if not all(k in rows for k in ("Str:top", "Str:bottom", "Str:both")):
                continue
            bad = []
            for g, d in rows["Str:both"]:
                for h, t in rows["Str:top"]:
                    gh = conj(g, h)
                    if gh is NO:
                        continue
                    for k, b in rows["Str:bottom"]:
                        if conj(gh, k) is NO:
                            continue
                        n += 1
                        bad += layout(d, t, b, [a for q, a in rows["none"] if conj(conj(gh, k), q) is not NO] if name == "pretty_stringify" else [])
            ck.ob("C28.padding", label, not bad, "; ".join(sorted(set(bad)))[:300])
            if None in rows:
                ck.ob("C28.padding", label + " @padding", set(a for _, a in rows[None]) == set(a for _, a in rows["Str:both"]), "`@padding` alone is not the same as both")
        # line numbers
        if ("show_line_num", None) in base:
            t = texts(("show_line_num", None))
            bad = []
            for x, h in t.items():
                b = numbering(ts, x)
                bad += b
                n += 1
            ck.ob("C28.lines", name + " @show_line_num", not bad, "; ".join(sorted(set(bad)))[:300])
            if name == "pretty_stringify":
                ck.ob("C28.lines", name, all(numbered(ts, x) is None for x in M.texts({})), "lines are numbered without being asked")
    n += excerpt_limit(ck, Macro(an, "excerpted_pretty_stringify"))
    n += folding(ck, an)
    ck.floor("combinations of macro, options and outcome", n, 60)


def numbers(vs):
    """the numbers read from literals in these values"""
    return [x for v in vs for x in subterms(v, guards=False) if x.k == "pr" and x.a[1] == F("0") and x.a[0].k == "pr" and x.a[0].a[1] == V("Ok") and x.a[0].a[0].k == "call" and x.a[0].a[0].a[0] == "LitInt::base10_parse"]


def limits(f, num, h):
    """a shortened literal fits the limit that was asked for"""
    fs = [norm(known.Known().term(v)) for _, v in f.a[2]]
    if num:
        if not any(x is num[0] for v in fs for x in subterms(v, guards=False)):
            return ["the length given is not used"]
    elif not any(x.k == "c" and x.a[1] == 10 for v in fs for _, x in alts(v)):
        return ["the default length is not 10"]
    return []


def layout(d, t, b, none):
    """padding above and below: d with both, t above only, b below only"""
    i = len(d) - len(b)
    if i < 0 or d[i:] != b:
        return ["with padding on both sides the text does not end like with padding below"]
    if d[:len(t)] != t:
        return ["with padding on both sides the text does not begin like with padding above"]
    top, bot = d[:i], d[len(t):]
    bad = []
    if not top or top[-1] != "\n":
        bad.append("padding `bottom` also pads above" if not top else "padding above does not end its line")
    if not bot or bot[0] != "\n":
        bad.append("padding `top` also pads below" if not bot else "padding below does not begin a line")
    for a in none:
        if not bad and top + a + bot != d:
            bad.append("without the option the text is padded")
    return bad


def start_line(x):
    return x.k == "pr" and x.a[1] == F("line") and x.a[0].k == "call" and x.a[0].a[0].endswith("start") and any(y.k == "call" and y.a[0].endswith("span") and any(is_parsed_expr(z) for z in subterms(y, guards=False)) for y in subterms(x.a[0], guards=False))


def numbered(ts, x):
    """the numbers written in front of the lines of an expansion, or None"""
    body = ts.expansion(x)
    if body is None:
        return None
    seen, loops = ts.closure(body)
    out = []
    for t in seen:
        if t.k != "fmt":
            continue
        for q in t.a[0]:
            if not isinstance(q, str):
                v = bare(q[-1])
                if v.k == "phi" and v in ts.items and start_line(norm(ts.items[v].extra["phis"][v][2], ts.M.base)):
                    out.append(("phi", v))
                elif v.k == "bin" and any(start_line(y) for y in v.a[1:] if isinstance(y, T)):
                    out.append(("bin", v))
                elif start_line(v):
                    out.append(("const", v))
    return out or None


def numbering(ts, x):
    ns = numbered(ts, x)
    if ns is None:
        return ["lines are not numbered from the line the expression starts on"]
    for kind, v in ns:
        if kind == "const":
            return ["every line has the number of the first"]
        if kind == "phi":
            e = ts.items[v]
            for it in e.extra["iters"]:
                if it.kind != "cont":
                    continue
                y = it.updates.get(v, v)
                if not (y.k == "bin" and y.a[0] == "Add" and v in y.a and cint(1) in y.a):
                    return ["the number of the next line is %s" % show(y)[:60]]
    return []


# how many lines, how many characters -----------------------------------------
def is_count(t, of):
    """the number of the parts (`of`: lines or chars) of a text"""
    return t.k == "call" and t.a[0].endswith("count") and len(t.a[1]) == 1 and any(y.k == "call" and y.a[0] == of for y in [parts_of(t.a[1][0])])


def parts_of(t):
    t = bare(t)
    if t.k == "agg" and t.a[0] == "Iter" or t.k == "Iter":
        for f in t.a[2]:
            if f[0] == "src":
                return bare(f[1])
    for y in t.a:
        if isinstance(y, tuple) and y and y[0] == "src":
            return bare(y[1])
    for y in subterms(t, guards=False):
        if y.k == "call" and y.a[0].startswith("str::"):
            return y
    return t


def bounds_of(t):
    """[(element position, operator, bound)]: how far a taken part of a text reaches"""
    out = set()
    for x in subterms(t):
        if x.k == "bin" and x.a[0] in ("Lt", "Le") and x.a[1].k in ("idx", "idxrev"):
            out.add(x)
    return out


def excerpt_limit(ck, M):
    """@excerpt_line = N shows at most N lines, and dots exactly when lines are left out"""
    m = M.option("excerpt_line", "Int")
    if m is None:
        return 0
    num = numbers([x for x in m.values()])
    if not num:
        ck.ob("C28.limit", "excerpted_pretty_stringify", False, "the number of lines given is not used")
        return 1
    num = num[0]
    all_ = M.texts(m)
    n = 0
    for k in range(0, 6):
        for lines in range(1, 9):
            def fact(t):
                if t is num:
                    return k
                if t.k == "call" and is_count(t, "str::lines"):
                    return lines
                if t.k == "call" and t.a[0] == "len" and any(y.k == "call" and y.a[0] == "str::lines" for y in [parts_of(t.a[1][0])]):
                    return lines
                return agg_facts(t)
            K = known.Known(fn=fact)
            live = {}
            for x, h in all_.items():
                h = K.cond(norm_cond(h))
                if h is not NO:
                    live[K.term(x)] = h
            n += 1
            at = "N = %d, %d lines" % (k, lines)
            if k == 0:
                ck.ob("C28.limit", at, not live, "zero lines are accepted")
                continue
            if not ck.ob("C28.limit", at, live, "rejected"):
                continue
            dots = [any(y.k == "c" and y.a[1] == "..." or y.k == "fmt" and any(isinstance(q, str) and "..." in q for q in y.a[0]) for y in subterms(x, guards=False)) for x in live]
            if k == 1:
                ck.ob("C28.dots", at, not all(dots), "a single line is shown with dots")
                ends = [y.a[1] for x in live for y in subterms(x, guards=False) if y.k == "pr" and y.a[1][0] in ("e", "last") and bare(y.a[0]).k == "call" and bare(y.a[0]).a[0] == "str::lines"]
                ck.ob("C28.last", at, not ends or any(e[0] == "last" for e in ends), "the line shown is not the last one")
                continue
            if lines <= 2 or lines <= k:
                ck.ob("C28.dots", at, not all(dots), "dots although no line is left out")
            else:
                ck.ob("C28.dots", at, any(dots), "lines are left out without dots")
                for b in {b for x in live for b in bounds_of(x)}:
                    v = K.val(b.a[2])
                    if isinstance(v, int):
                        v += b.a[0] == "Le"
                        ck.ob("C28.lastlines", at, v == k - 1, "%d lines are shown after the first" % v)
    return n


def folding(ck, an):
    """a literal is shortened exactly when a line is longer than the limit, and then fits it"""
    keys = [k for k in an.p.bodies if k.endswith("::fold_lit_str") and k.startswith("hooq_macros")]
    if len(keys) != 1:
        return 0
    me = mk("sym", "folder")
    r = an.run(keys[0], [ref_to(me), mk("sym", "literal")], {})
    own = lambda t: t.k == "pr" and t.a[1][0] == "f" and bare(t.a[0]) is me
    made = [x for s, v in r.rs for x in subterms(v) if x.k == "choice" and any(two_dots(y) for _, y in x.a[0])]
    conds_ = {x for s, v in r.rs for x in subterms(v) if x.k == "bin" and any(isinstance(y, T) and is_count(y, "str::chars") for y in x.a[1:])}
    tops = {y for x in conds_ for y in x.a[1:] if isinstance(y, T) and own(y)}
    took = {x.a[2] for s, v in r.rs for x in bounds_of(v) if own(x.a[2]) and x.a[0] == "Lt"}
    n = 0
    if len(tops) == 1 and made:
        top, = tops
        for c_, m_ in ((9, 10), (10, 10), (11, 10), (0, 0), (1, 0)):
            K = known.Known(fn=lambda t: c_ if t.k == "call" and is_count(t, "str::chars") else m_ if t is top else None)
            live = [two_dots(y) for x in made for g, y in x.a[0] if K.cond(g) is not NO]
            n += 1
            if live:
                ck.ob("C28.shorten", "%d characters, limit %d" % (c_, m_), (any(live) if c_ > m_ else not all(live)), "a line is %sshortened" % ("not " if c_ > m_ else ""))
        for name in ("truncate_lit_str", "one_line_stringify", "excerpted_pretty_stringify"):
            M = Macro(an, name)
            m = M.option("truncate_str", "Int") or {}
            num = numbers(list(m.values()))
            fs = {x for t in M.texts(m) for x in subterms(t, guards=False) if x.k == "agg" and {f for f, _ in x.a[2]} >= {y.a[1][1] for y in tops | took}}
            ts = Texts(an, M)
            for t in M.texts(m):
                src, _ = token_sources(ts, t)
                for y in src:
                    for g, f, e in the_exprs(y):
                        if f is not None and f.k == "agg":
                            fs.add(f)
            for f in fs:
                d = dict(f.a[2])
                if not num or len(took) != 2 or any(y.a[1][1] not in d for y in tops | took):
                    continue
                bad = []
                for k in range(2, 65):
                    vs = [value(d[y.a[1][1]], num[0], k) for y in (top, *took)]
                    if None in vs:
                        break
                    n += 1
                    if vs[0] != k or vs[1] + vs[2] + 2 > vs[0]:
                        bad.append("with a limit of %d, lines longer than %d are shown with %d characters" % (k, vs[0], vs[1] + vs[2] + 2))
                ck.ob("C28.fits", name, not bad, "; ".join(bad[:2]))
    return n


def ref_to(t):
    return valref(t)


def two_dots(t):
    t = bare(t)
    return any(y.k == "fmt" and any(isinstance(q, str) and ".." in q for q in y.a[0]) or y.k == "c" and y.a[1] == ".." for y in subterms(t, guards=False))


def value(t, num, k):
    """the number a closed form stands for when the length given is k"""
    if t is num:
        return k
    t = bare(t)
    if t is num:
        return k
    if t.k == "c":
        return t.a[1] if isinstance(t.a[1], int) else None
    if t.k == "choice":
        K = known.Known(fn=lambda x: value(x, num, k) if x.k in ("bin", "choice") or x is num else None)
        vs = {value(v, num, k) for g, v in t.a[0] if K.cond(g) is not NO}
        return vs.pop() if len(vs) == 1 else None
    if t.k == "bin":
        a, b = value(t.a[1], num, k), value(t.a[2], num, k)
        if a is None or b is None:
            return None
        f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b, "Div": lambda: a // b if b else None, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b, "Eq": lambda: a == b, "Ne": lambda: a != b}.get(t.a[0])
        return f() if f else None
    if t.k == "call" and t.a[0].endswith("saturating_sub") and len(t.a[1]) == 2:
        a, b = value(t.a[1][0], num, k), value(t.a[1][1], num, k)
        return None if a is None or b is None else max(a - b, 0)
    if t.k == "call" and len(t.a[1]) == 2 and t.a[0].split("::")[-1] in ("div_ceil", "min", "max"):
        a, b = value(t.a[1][0], num, k), value(t.a[1][1], num, k)
        if a is None or b is None:
            return None
        f = t.a[0].split("::")[-1]
        return min(a, b) if f == "min" else max(a, b) if f == "max" else -(-a // b)
    return None


# C30: every token, in order ----------------------------------------------------
DELIMS = {"Parenthesis": ("(", ")"), "Brace": ("{", "}"), "Bracket": ("[", "]"), "None": ("", "")}
KINDS = ("Ident", "Punct", "Literal", "Group")


def is_white(a):
    """a piece of text that is white space whatever its length"""
    if isinstance(a, str):
        return a.isspace()
    a = bare(a)
    if a.k == "call" and a.a[0] in ("str::repeat", "repeat") and a.a[1]:
        s = bare(a.a[1][0])
        return s.k == "c" and isinstance(s.a[1], str) and (s.a[1] == "" or s.a[1].isspace())
    return False


def visible(atoms):
    out = []
    for a in atoms:
        if isinstance(a, tuple):
            return None
        if not is_white(a):
            out.append(a if isinstance(a, str) else bare(a))
    return out


def of_token(x, elem):
    """x is the token itself, perhaps seen as one of its kinds"""
    x = bare(x)
    while x is not elem and x.k == "pr" and x.a[1][0] in ("f", "v"):
        x = bare(x.a[0])
    return x is elem


def token_text(x, elem):
    return x.k == "call" and x.a[0] == "to_string" and len(x.a[1]) == 1 and of_token(x.a[1][0], elem)


def group_text(x, elem):
    """the text of the tokens between the delimiters, by the same function"""
    return x.k == "call" and x.a[0].startswith("rec:") and any(isinstance(y, T) and any(z.k == "call" and z.a[0].split("::")[-1] == "stream" and len(z.a[1]) == 1 and of_token(z.a[1][0], elem) for z in subterms(y, guards=False)) for y in x.a[1])


def token_loops(ts, body):
    seen, loops = ts.closure(body)
    out = []
    for e in loops:
        for d, pos in loop_dom(e):
            vs = [bare(v) for _, v in alts(norm(d, ts.M.base))]
            if vs and all(v.k == "ts" and any(is_parsed_expr(y) for y in subterms(v, guards=False)) for v in vs):
                out.append((e, d, pos))
    return out, seen, loops


def c30(ck, an=None):
    an = an or Analysis("default")
    n = 0
    done = set()
    for name in MACROS[1:]:
        M = Macro(an, name)
        ts = Texts(an, M)
        ask = [{}]
        m = M.option("show_line_num", None)
        if m and "show_line_num" in USES[name]:
            ask.append(m)
        for m in ask:
            label = name + (" @show_line_num" if m else "")
            for x in M.texts(m):
                body = ts.expansion(x)
                if body is None:
                    continue
                found, seen, loops = token_loops(ts, body)
                for e, d, pos in found:
                    texts = [phi for phi, v in e.extra["phis"].items() if bare(v[2]).k == "c" and isinstance(bare(v[2]).a[1], str) and any(phi in it.updates for it in e.extra["iters"])]
                    for phi in texts:
                        n += rounds(ck, ts, label, e, d, pos, phi)
                    if name != "excerpted_pretty_stringify":
                        n += whole(ck, ts, label, body, texts, loops)
    n += literals(ck, an)
    ck.floor("rounds of the token loops and shortened literals", n, 12)


def rounds(ck, ts, label, e, d, pos, phi):
    """each token adds its own text to the end, and nothing visible besides"""
    base = ts.M.base
    elem = norm(get(d, (("e", pos),)), base)
    n = 0
    bad, spaces = [], set()
    if not full_loop(e, d, pos) or any(conj(norm_cond(x, base), lit(mk("has", norm(d, base), pos, 0), ("=", TRUE))) is not NO for x in e.extra["exitpcs"]):
        bad.append("the loop over the tokens can end early")
    for it in e.extra["iters"]:
        if it.kind != "cont":
            continue
        v = norm(it.updates.get(phi, phi), base)
        pc = norm_cond(it.pc, base)
        dn = norm(d, base)
        for kind in KINDS:
            for delim in (DELIMS if kind == "Group" else ("",)):
                def fact(t):
                    if t.k == "disc":
                        if t.a[1].split("::")[-1] == "TokenTree" and of_token(t.a[0], elem):
                            return kind
                        if t.a[1].split("::")[-1] == "Delimiter":
                            return delim or None
                    if t.k == "has" and t.a[0] is dn and t.a[1] is pos:
                        return True
                    return agg_facts(t)
                K = known.Known(fn=fact)
                if K.cond(pc) is NO:
                    continue
                n += 1
                for g, a in ts.atoms(K.term(v)):
                    if K.cond(norm_cond(g)) is NO:
                        continue
                    for h, a, inner in unfold(ts, a, phi, base):
                        if K.cond(norm_cond(conj(g, h))) is NO:
                            continue
                        spaces.update(inner)
                        spaces.add(whites(a))
                        bad += round_text(ts, a, kind, delim, phi, elem)
    ck.ob("C30.tokens", "%s %s" % (label, phi_name(e)), not bad, "; ".join(sorted(set(bad)))[:400])
    if any(spaces):
        ck.ob("C30.spaces", label, any("\n" in w for w in spaces), "lines are not kept apart")
        ck.ob("C30.spaces", label + " in a line", any(w == {" "} for w in spaces), "tokens of a line are not kept apart")
    return n


def round_text(ts, a, kind, delim, phi, elem):
    """what is wrong with the pieces a round leaves behind"""
    vis = visible(a)
    if vis is None or not any(x is phi for x in vis if isinstance(x, T)) and any(isinstance(x, T) and phi in set(subterms(x, guards=False)) for x in vis):
        return []  # not a plain concatenation
    what = "%s%s" % (kind, " " + delim if delim else "")
    if not vis or vis[0] is not phi:
        return ["%s: the text so far is not kept in front" % what]
    rest = vis[1:]
    if len(rest) == 1 and isinstance(rest[0], T) and token_text(rest[0], elem):
        return []
    if kind == "Group":
        o, c_ = DELIMS[delim]
        if len(rest) == len(o) + len(c_) + 1 and rest[:len(o)] == list(o) and rest[len(rest) - len(c_):] == list(c_) and isinstance(rest[len(o)], T) and group_text(rest[len(o)], elem):
            return []
    return ["%s: adds %s" % (what, " ".join(q if isinstance(q, str) else show(q)[:60] for q in rest)[:160])]


def unfold(ts, a, phi, base, n=0):
    """a text built by a loop that only adds white space, as what it was before -> [(condition, pieces, white space added)]"""
    x = a[0] if a and isinstance(a[0], T) else None
    if x is None or x.k != "phi" or x is phi or x not in ts.items or n > 6:
        return [(YES, a, [])]
    inner = []
    for it in ts.items[x].extra["iters"]:
        for _, b in ts.atoms(norm(it.updates.get(x, x), base)):
            if not b or b[0] is not x or not all(is_white(q) for q in b[1:]):
                return [(YES, a, [])]
            if b[1:]:
                inner.append(whites(b) | whites(a))
    out = []
    for g, b in ts.atoms(norm(ts.items[x].extra["phis"][x][2], base)):
        out += [(conj(g, h), c_, w + inner) for h, c_, w in unfold(ts, b + a[1:], phi, base, n + 1)]
    return out


def whites(a):
    """the kinds of white space between visible pieces"""
    return frozenset(q if isinstance(q, str) else bare(bare(q).a[1][0]).a[1][:1] for q in a if (isinstance(q, T) or q == "\n") and is_white(q))


def phi_name(e):
    return "the loop at %s" % e.span.split("/")[-1].split(":")[0]


def elem_of_lines(x, texts):
    """the line itself, perhaps trimmed"""
    x = bare(x)
    while x.k == "call" and x.a[0] in ("str::trim", "to_string", "str::trim_start", "str::trim_end") and len(x.a[1]) == 1:
        x = bare(x.a[1][0])
    if x.k == "pr" and x.a[1][0] == "e":
        x = bare(x.a[0])
        return x.k == "call" and x.a[0] == "str::lines" and bare(x.a[1][0]) in texts
    return False


def whole(ck, ts, label, body, texts, loops):
    """the text is that of the token loop, or all its lines with a number in front, joined by white space"""
    bad = []
    n = 0
    for g, a in ts.atoms(body):
        main = [x for x in visible(a) or [] if isinstance(x, T)]
        main = [x for x in main if any(y in texts or y in ts.items for y in subterms(x, guards=False))]
        if len(main) != 1:
            continue
        x = main[0]
        n += 1
        if x in texts:
            continue
        if x.k == "join" or x.k == "call" and x.a[0] == "join":
            l, sep = (x.a[0], x.a[1]) if x.k == "join" else x.a[1][:2]
            sep, l = bare(sep), bare(l)
            if sep.k == "c" and not (isinstance(sep.a[1], str) and sep.a[1].isspace()):
                bad.append("lines are joined by %r" % sep.a[1])
            items = None
            if l.k == "call" and l.a[0] == "collect":
                src, y = bare(l.a[1][1]), l.a[1][2]
                if src.k == "call" and src.a[0] == "str::lines" and bare(src.a[1][0]) in texts and y.k == "yields":
                    items = [(h, v) for h, v in y.a[0]]
                    if y.a[1] or any(norm_cond(h) is not YES for h, _ in items) and len(items) == 1:
                        bad.append("lines are left out")
            elif l in ts.items:
                e = ts.items[l]
                dom = [(d, p) for d, p in loop_dom(e) if bare(norm(d, ts.M.base)).k == "call" and bare(norm(d, ts.M.base)).a[0] == "str::lines"]
                if dom:
                    items = []
                    for it in e.extra["iters"]:
                        u = it.updates.get(l, l)
                        for h, v in alts(u):
                            if it.kind == "cont" and v.k == "seq" and v.a[0] is l and len(v.a[1]) == 1:
                                items.append((h, v.a[1][0]))
                            elif it.kind == "cont" and v is l:
                                bad.append("lines are left out")
            for h, v in items or []:
                for g2, b in ts.atoms(v):
                    b = [q[-1] if isinstance(q, tuple) else q for q in b]
                    if not (b and isinstance(b[-1], T) and elem_of_lines(b[-1], texts)):
                        bad.append("a line is shown as %s" % " ".join(q if isinstance(q, str) else show(q)[:60] for q in b)[:120])
    ck.ob("C30.whole", label, not bad, "; ".join(sorted(set(bad)))[:300])
    return n


def direction(x):
    """(text or None, reversals) of characters collected from a line"""
    n = 0
    x = bare(x)
    while x.k == "call" and x.a[0] == "collect":
        src, y = bare(x.a[1][1]), x.a[1][2]
        if y.k != "yields" or len(y.a[0]) != 1:
            return None, 0
        (g, v), = y.a[0]
        v = bare(v)
        if v.k != "pr" or v.a[1][0] != "e" or bare(v.a[0]) is not src:
            return None, 0
        n += v.a[1][1].k == "idxrev"
        K = known.Known(fn=lambda t: False if t.k == "bin" and t.a[0] in ("Lt", "Le") and t.a[1].k in ("idx", "idxrev") else None)
        if K.cond(g) is not NO and any(t.k == "bin" and t.a[0] in ("Lt", "Le") for t in conds.support(g)):
            return None, 0  # leaves out the beginning
        x = src
    return (bare(x.a[1][0]), n) if x.k == "call" and x.a[0] == "str::chars" else (None, 0)


def literals(ck, an):
    """lines within the limit stay, longer ones keep their two ends"""
    keys = [k for k in an.p.bodies if k.endswith("::fold_lit_str") and k.startswith("hooq_macros")]
    if len(keys) != 1:
        return 0
    r = an.run(keys[0], [valref(mk("sym", "folder")), mk("sym", "literal")], {})
    ts = Texts(an, Macro(an, "pretty_stringify"))
    n = 0
    bad = []
    for s, v in r.rs:
        for x in subterms(v, guards=False):
            if not (x.k == "call" and x.a[0] == "join"):
                continue
            l, sep = bare(x.a[1][0]), bare(x.a[1][1])
            if not (l.k == "call" and l.a[0] == "collect" and l.a[1][2].k == "yields"):
                continue
            src, y = bare(l.a[1][1]), l.a[1][2]
            if not (src.k == "call" and src.a[0] in ("str::split", "str::lines")):
                continue
            if src.a[0] == "str::lines" or plain_char(src.a[1][1]) != plain_char(sep):
                bad.append("lines are joined by another text than they are split at")
            if y.a[1]:
                bad.append("lines are left out")
            for g, t in y.a[0]:
                for h, a in ts.atoms(t):
                    n += 1
                    own = [q for q in a if isinstance(q, T)]
                    dots = [q for q in a if isinstance(q, str)]
                    if not dots:
                        q = own[0] if len(own) == 1 else None
                        while q is not None and q.k == "call" and q.a[0] == "to_string":
                            q = bare(q.a[1][0])
                        if q is None or not (q.k == "pr" and bare(q.a[0]) is src):
                            if q is None or direction(q)[0] is not None or q.k == "call" and q.a[0].startswith("str::"):
                                bad.append("a line within the limit is shown as %s" % show(t)[:80])
                        continue
                    if "".join(dots) != ".." or len(own) != 2:
                        bad.append("a shortened line is %s" % " ".join(q if isinstance(q, str) else "text" for q in a))
                        continue
                    first, last = direction(own[0]), direction(own[1])
                    if first[0] is not None and (first[1] or not isinstance(a[0], T)):
                        bad.append("the beginning of a shortened line is not its beginning")
                    if last[0] is not None and (last[1] % 2 or last[1] == 0):
                        bad.append("the end of a shortened line is not its end")
    ck.ob("C30.literals", "fold_lit_str", not bad, "; ".join(sorted(set(bad)))[:300])
    return n


def plain_char(t):
    t = bare(t)
    return str(t.a[1]) if t.k == "c" else t
