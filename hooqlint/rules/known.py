"""Closed forms under partial knowledge: conditions and values simplified when the outcome of some of their facts is given."""
import conds
from lint import *

UNK = object()
V = lambda n: ("v", n)
F = lambda n: ("f", n)


def plain(v):
    """the Python value of an edge label"""
    if isinstance(v, T):
        if v.k == "c":
            return v.a[1]
        if v.k == "parsed" and v.a[0] == "syn::Path" and v.a[1].k == "ts" and v.a[1].a[0] is None:
            toks = v.a[1].a[1]
            ids = toks[0::2]
            if all(x[0] == "id" for x in ids) and all(x == ("p", "::") for x in toks[1::2]) and len(toks) % 2:
                return ("path", tuple(x[1] for x in ids))
    return v


class Known:
    """facts about a macro input: `paths` {path term: (segments, leading colon)}, `vals` {key: value}"""

    def __init__(self, paths=None, vals=None, fn=None):
        self.paths = paths or {}
        self.vals = vals or {}
        self.fn = fn
        self.memo = {}
        self.vm = {}

    def val(self, t):
        if not isinstance(t, T):
            return UNK
        r = self.vm.get(t)
        if r is None:
            r = self.vm[t] = self._val(t)
        return r

    def seg(self, t):
        """(segments) when t is the segment list of a known path"""
        while t.k == "at" or (t.k == "call" and t.a[0] in ("as_ref", "deref") and t.a[1]):
            t = t.a[0] if t.k == "at" else t.a[1][0]
        if t.k == "pr" and t.a[1] == F("segments"):
            return self.paths.get(t.a[0])
        return self.names(t)

    def names(self, t):
        """(segments) when t is the list of the names in a known path"""
        if not (t.k == "call" and t.a[0] == "collect"):
            return None
        src, y = t.a[1][1], t.a[1][2]
        s = self.seg(src)
        if s is None or y.k != "yields" or y.a[1] or len(y.a[0]) != 1:
            return None
        (g, v), = y.a[0]
        v = strip(v)
        if g is YES and v.k == "pr" and v.a[1] == F("ident") and v.a[0].k == "pr" and v.a[0].a[1][0] == "e" and self.seg(v.a[0].a[0]) is s and not (v.a[0].a[1][1].k == "c"):
            return s
        return None

    def _val(self, t):
        if t in self.vals:
            return self.vals[t]
        if self.fn is not None:
            r = self.fn(t)
            if r is not UNK and r is not None:
                return r
        k = t.k
        if k == "c":
            return t.a[1]
        if t in self.paths:
            s = self.paths[t]
            return ("path", tuple(s))
        if k == "choice":
            out = UNK
            for g, v in t.a[0]:
                h = self.cond(g)
                if h is NO:
                    continue
                x = self.val(v)
                if x is UNK or (out is not UNK and out != x):
                    return UNK
                out = x
            return out
        if k == "has":
            s = self.seg(t.a[0])
            if s is not None:
                p = self.val(t.a[1])
                return UNK if p is UNK else p + t.a[2] < len(s)
            return UNK
        if k == "not":
            x = self.val(t.a[0])
            return UNK if x is UNK else not x
        if k == "eq":
            a, b = self.val(t.a[0]), self.val(t.a[1])
            return UNK if a is UNK or b is UNK else a == b
        if k == "bin":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if a is UNK or b is UNK:
                return UNK
            f = {"Add": lambda: a + b, "Sub": lambda: a - b, "Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b}.get(t.a[0])
            return f() if f else UNK
        if k == "pr" and t.a[1] == F("ident"):
            e = t.a[0]
            if e.k == "pr" and e.a[1][0] in ("e", "last"):
                s = self.seg(e.a[0])
                if s is not None:
                    if e.a[1][0] == "last":
                        i = len(s) - 1 - (e.a[1][1] if len(e.a[1]) > 1 and isinstance(e.a[1][1], int) else 0)
                    else:
                        i = self.val(e.a[1][1])
                    return s[i] if isinstance(i, int) and 0 <= i < len(s) else UNK
            return UNK
        if k == "pr" and t.a[1][0] in ("e", "last") and self.names(t.a[0]) is not None:
            s = self.names(t.a[0])
            i = len(s) - (t.a[1][1] if len(t.a[1]) > 1 and isinstance(t.a[1][1], int) else 1) if t.a[1][0] == "last" else self.val(t.a[1][1])
            return s[i] if isinstance(i, int) and 0 <= i < len(s) else UNK
        if k == "at":
            return self.val(t.a[0])
        if k == "parsed":
            x = plain(t)
            return UNK if x is t else x
        if k == "len":
            s = self.seg(t.a[0])
            return UNK if s is None else len(s)
        if k == "call":
            n, a = t.a[0], t.a[1]
            if n in ("to_string", "to_owned", "clone", "String::from", "as_str") and a:
                return self.val(a[0])
            if n in ("len", "count", "Punctuated::len") and a:
                s = self.seg(a[0])
                return UNK if s is None else len(s)
            if n == "path_ident" and a[0] in self.paths:
                s = self.paths[a[0]]
                return s[0] if len(s) == 1 else ("path", tuple(s))
            if n == "Path::is_ident" and len(a) == 2:
                s, w = self.paths.get(a[0]), self.val(a[1])
                return UNK if s is None or w is UNK else tuple(s) == (w,)
            return UNK
        if k == "disc":
            x = t.a[0]
            if x.k == "call" and x.a[0] in ("Path::get_ident", "Path::require_ident") and x.a[1][0] in self.paths:
                one = len(self.paths[x.a[1][0]]) == 1
                return ("Some" if one else "None") if x.a[0].endswith("get_ident") else ("Ok" if one else "Err")
            if x.k == "pr" and x.a[1] == F("leading_colon") and x.a[0] in self.paths:
                return "None"
            if x.k == "pr" and x.a[1] == F("arguments") and x.a[0].k == "pr" and self.seg(x.a[0].a[0]) is not None:
                return "None"
        return UNK

    def cond(self, g):
        """the condition with every known fact decided"""
        if g is YES or g is NO:
            return g
        r = self.memo.get(g)
        if r is not None:
            return r
        x = self.val(g.key)
        if x is UNK:
            r = NO
            for v, kid in conds.edges(g):
                r = disj(r, conj(lit(g.key, v), self.cond(kid)))
        else:
            r = None
            for v, kid in conds.edges(g):
                if v[0] == "=":
                    if plain(v[1]) == x:
                        r = self.cond(kid)
                        break
                elif x not in {plain(w) for w in v[1]}:
                    r = self.cond(kid)
                    break
            if r is None:
                r = NO
        self.memo[g] = r
        return r

    def term(self, t, g=YES):
        """t with impossible alternatives dropped"""
        memo = self.memo.setdefault(("t", g), {})

        def go(t):
            r = memo.get(t)
            if r is not None:
                return r
            if t.k == "choice":
                kept = [(h, v) for h, v in ((conj(self.cond(c2), g), v) for c2, v in t.a[0]) if h is not NO]
                kept = [(h, go(v)) for h, v in kept] or [(YES, t)]
                r = kept[0][1] if all(v is kept[0][1] for _, v in kept) else mkchoice(kept)
            elif t.k in ("phi", "sym", "c"):
                r = t
            elif t.k == "yields":
                r = mk("yields", frozenset((self.cond(h), go(v)) for h, v in t.a[0] if self.cond(h) is not NO), t.a[1])
            elif t.k == "bin" and t.a[0] in ("BitOr", "BitAnd"):
                a, b = go(t.a[1]), go(t.a[2])
                known = [self.val(x) for x in t.a[1:3]]
                neutral = t.a[0] == "BitAnd"
                if any(x is (not neutral) for x in known):
                    r = cbool(not neutral)
                elif known[1] is neutral:
                    r = a
                elif known[0] is neutral:
                    r = b
                else:
                    r = mk("bin", t.a[0], a, b)
            elif t.k in ("bin", "not") and self.val(t) in (True, False):
                r = cbool(self.val(t))
            else:
                na = tuple(gi(x) for x in t.a)
                r = t if na == t.a else mk(t.k, *na)
            memo[t] = r
            return r

        def gi(x):
            if isinstance(x, T):
                return go(x)
            if isinstance(x, tuple):
                return tuple(gi(y) for y in x)
            return x

        return go(t)


def strip(t):
    """without dereferences and copies"""
    while True:
        if t.k == "at":
            t = t.a[0]
        elif t.k == "call" and t.a[0] in ("clone", "to_string", "to_owned", "into", "String::from") and t.a[1] and t.a[1][0].k != "ts":
            t = t.a[1][0]
        else:
            return t


def merged(res, t, base, is_src):
    """t is the map `base` with every entry of a source map put in; returns the source or None"""
    if t.k == "call" and t.a[0] in ("map_extend", "extend") and strip(t.a[1][0]) is strip(base):
        s = strip(t.a[1][1])
        if s.k == "call" and s.a[0] == "collect":
            # the pairs of the source, copied
            src, y = strip(s.a[1][1]), s.a[1][2]
            if y.k != "yields" or y.a[1] or not y.a[0]:
                return None
            for g, v in y.a[0]:
                if g is not YES or v.k != "agg" or len(v.a[2]) != 2:
                    return None
                for i, (_, w) in enumerate(v.a[2]):
                    w = strip(w)
                    if not (w.k == "pr" and w.a[1] == F(str(i)) and w.a[0].k == "pr" and w.a[0].a[1][0] == "e" and strip(w.a[0].a[0]) is src):
                        return None
            s = src
        return s if is_src(s) else None
    if t.k == "phi":
        e = res.phis.get(t)
        if e is None or strip(e) is not strip(base):
            return None
        lp = next((l for l in res.loops.values() if t in l.extra["phis"]), None)
        for d, p in loop_dom(lp):
            src = strip(d)
            if not is_src(src) or not full_loop(lp, d, p):
                continue
            for it in lp.extra["iters"]:
                if it.kind != "cont":
                    return None
                v = it.updates.get(t, t)
                el = mk("pr", d, ("e", p))
                if not (v.k == "call" and v.a[0] == "map_insert" and v.a[1][0] is t and strip(v.a[1][1]) is get(el, [F("0")]) and strip(v.a[1][2]) is get(el, [F("1")])):
                    return None
            return src
    return None


def ty(t):
    """the name of a type given to a parser"""
    return t if isinstance(t, str) else str(t.a[0]) if t.k == "sym" else show(t)


def strings_of(t, is_tokens):
    """t is the list of the string literals written in the tokens"""
    t = strip(t)
    if not (t.k == "call" and t.a[0] == "collect" and t.a[1][0].a[-1] == "vec"):
        return False
    src = strip(t.a[1][1])
    y = t.a[1][2]
    if not (y.k == "yields" and not y.a[1] and len(y.a[0]) == 1):
        return False
    (g, v), = y.a[0]
    if not (v.k == "call" and v.a[0] == "value"):
        return False
    el = strip(v.a[1][0])
    if not (el.k == "pr" and el.a[1][0] == "e" and strip(el.a[0]) is src):
        return False
    if not all(k.k == "has" or (k.k == "disc" and "Result" in str(k.a[1])) for k in conds.support(g)):
        return False
    if not (src.k == "pr" and src.a[1] == F("0") and src.a[0].k == "pr" and src.a[0].a[1] == V("Ok")):
        return False
    return parsed_from(src.a[0].a[0], lambda ty: "Punctuated<syn::LitStr, syn::token::Comma>" in ty, is_tokens)


def parsed_from(p, is_type, is_tokens):
    """p is the result of parsing the tokens, all of them, as the type"""
    if p.k != "call":
        return False
    if p.a[0] == "stream_parse":
        s = p.a[1][1]
        return is_type(ty(p.a[1][0])) and s.k == "stream" and is_tokens(strip(s.a[0]))
    if p.a[0] == "parse":
        return is_type(ty(p.a[1][0])) and is_tokens(strip(p.a[1][1]))
    return False


def unbang(x, el):
    """x is the string without its leading `!`"""
    x = strip(x)
    if x.k != "call" or strip(x.a[1][0]) is not strip(el):
        return False
    if x.a[0] == "stripped_prefix":
        return x.a[1][1].k == "c" and x.a[1][1].a[1] == "!"
    r = x.a[1][1] if len(x.a[1]) > 1 else None
    return x.a[0] == "slice" and r is not None and r.k == "agg" and str(r.a[0] or r.a[1]).endswith("RangeFrom") and get(r, [F("start")]) is cint(1)


def split_bang(res, t, which, is_list):
    """t is the part of a list of strings without (0) or with (1) a leading `!`, the latter without it (2: with it)"""
    t = strip(t)
    if which == 1 and t.k == "call" and t.a[0] == "collect" and t.a[1][0].a[-1] == "vec" and not is_list(strip(t.a[1][1])):
        y = t.a[1][2]
        if y.k == "yields" and not y.a[1] and len(y.a[0]) == 1:
            (g, v), = y.a[0]
            return g is YES and unbang(v, get(t.a[1][1], [("e", sym("$e"))])) and split_bang(res, t.a[1][1], 2, is_list)
        return False
    if t.k == "phi":
        lp = next((l for l in res.loops.values() if t in l.extra["phis"]), None)
        if lp is None or not (res.phis[t].k == "seq" and res.phis[t].a[0] is None and not res.phis[t].a[1]):
            return False
        doms = [(d, p) for d, p in loop_dom(lp) if is_list(strip(d))]
        if len(doms) != 1 or not full_loop(lp, *doms[0]):
            return False
        el = mk("pr", doms[0][0], ("e", doms[0][1]))
        n = 0
        for it in lp.extra["iters"]:
            if it.kind != "cont":
                return False
            for bang in (True, False):
                K = Known(fn=lambda k: bang if k.k == "call" and k.a[0] == "starts_with" and strip(k.a[1][0]) is el and k.a[1][1].k == "c" and k.a[1][1].a[1] == "!" else UNK)
                if K.cond(it.pc) is NO:
                    continue
                v = K.term(it.updates.get(t, t), K.cond(it.pc))
                if bang != bool(which):
                    if v is not t:
                        return False
                else:
                    if not (v.k == "seq" and v.a[0] is t and len(v.a[1]) == 1):
                        return False
                    x = strip(v.a[1][0])
                    if not bang and x is not el:
                        return False
                    if bang and not (unbang(x, el) if which == 1 else x is el):
                        return False
                    n += 1
        return n > 0
    if t.k == "call" and t.a[0] == "collect" and t.a[1][0].a[-1] == "vec" and is_list(strip(t.a[1][1])):
        el = get(strip(t.a[1][1]), [("e", sym("$e"))])
        el2 = get(t.a[1][1], [("e", sym("$e"))])
        for bang in (True, False):
            K = Known(fn=lambda k: bang if k.k == "call" and k.a[0] == "starts_with" and strip(k.a[1][0]) in (el, el2) and k.a[1][1].k == "c" and k.a[1][1].a[1] == "!" else UNK)
            taken = NO
            for g, v in t.a[1][2].a[0]:
                h = K.cond(g)
                if h is NO:
                    continue
                taken = disj(taken, h)
                x = strip(K.term(v, h))
                if bang and not (unbang(x, el) or unbang(x, el2) if which == 1 else x in (el, el2)):
                    return False
                if not bang and x not in (el, el2):
                    return False
            if taken is not (YES if bang == bool(which) else NO):
                return False
        return True
    return False


SWITCHES = {"question": ("?", "question", "all"), "return_": ("return", "all"), "tail_expr": ("tail_expr", "tail expr", "tailexpr", "tailExpr", "all")}
NAMES = ("?", "question", "return", "tail_expr", "tail expr", "tailexpr", "tailExpr", "all", "no such target", "")


def switch_of(res, t, is_list):
    """t is the set of hook targets named in a list of strings; returns what is wrong or None"""
    t = strip(t)
    if t.k != "agg" or not t.a[0].endswith("HookTargetSwitch"):
        return "not built from the list"
    fields = dict(t.a[2])
    lp = dom = None
    for f in SWITCHES:
        v = fields.get(f)
        if v is None or v.k != "phi":
            return "`%s` is not collected from the list" % f
        if res.phis[v] is not FALSE:
            return "`%s` is on before any name is read" % f
        lp = next((l for l in res.loops.values() if v in l.extra["phis"]), None)
        doms = [(d, p) for d, p in loop_dom(lp) if is_list(strip(d))] if lp else []
        if len(doms) != 1 or not full_loop(lp, *doms[0]):
            return "not every name of the list is read"
        dom = doms[0]
    el = mk("pr", dom[0], ("e", dom[1]))
    for name in NAMES:
        K = Known(fn=lambda k: name if strip(k) is el else UNK)
        its = [(K.cond(it.pc), it) for it in lp.extra["iters"]]
        its = [(h, it) for h, it in its if h is not NO]
        known = any(name in v for v in SWITCHES.values())
        if not known:
            if any(it.kind == "cont" for _, it in its):
                return "%r is accepted as a hook target" % name
            continue
        if not its:
            return "%r is rejected" % name
        for h, it in its:
            for f, names in SWITCHES.items():
                phi = fields[f]
                v = K.term(it.updates.get(phi, phi), h)
                if name in names and v is not TRUE:
                    return "%r does not switch on `%s`" % (name, f)
                if name not in names and v is not phi:
                    return "%r changes `%s`" % (name, f)
    return None


def method_of(an, t, g, is_tokens, consume=False):
    """what is wrong with t as the method written in the tokens, or None"""
    MET = an.adt("Method")
    seen = set()
    for c2, x in [(c2, x) for c2, x in alts(t)]:
        h = conj(g, c2)
        if h is NO:
            continue
        x = strip(x)
        if x.k != "agg" or x.a[0] != MET:
            return "%s is no method read from them" % show(x)[:120]
        streams = {y for y in subterms(x) if y.k == "stream"}
        if len(streams) != 1 or not is_tokens(strip(next(iter(streams)).a[0])):
            return "it is not read from them"
        stream = next(iter(streams))
        peeks = [k for k in conds.support(h) if k.k == "call" and k.a[0] == "stream_peek" and k.a[1][0] is stream and "Dot" in ty(k.a[1][1])]
        dot = None
        for k in peeks:
            if implies_(h, lit(k, ("=", TRUE))):
                dot = True
            elif implies_(h, lit(k, ("=", FALSE))):
                dot = False
        if dot is None:
            return "whether it starts with `.` is not looked at"
        if (x.a[1] == "Insert") != dot:
            return "text %s `.` becomes %s" % ("with a leading" if dot else "without a leading", x.a[1])
        fs = [v for _, v in x.a[2]]
        parts = fs[1:] if dot else fs
        if dot:
            d = fs[0]
            d = d.a[0].a[0] if d.k == "pr" and d.a[0].k == "pr" else d
            if not (d.k == "call" and d.a[0] == "stream_parse" and "Dot" in ty(d.a[1][0])):
                return "the leading `.` is not kept apart"
        toks, exc = parts[0], parts[1] if len(parts) > 1 else None
        seen.add(dot)
        why = rest_of(toks, exc, h, stream, consume)
        if why:
            return why
    if seen != {True, False}:
        return "only methods %s `.` are read" % ("with a leading" if True in seen else "without a leading")
    return None


def implies_(a, b):
    return conds.implies(a, b)


def all_tokens(t, stream):
    """every token left in the stream"""
    t = strip(t)
    if t.k == "pr" and t.a[1] == F("0") and t.a[0].k == "pr" and t.a[0].a[1] == V("Ok"):
        p = t.a[0].a[0]
        return p.k == "call" and p.a[0] == "stream_parse" and ty(p.a[1][0]) == "proc_macro2::TokenStream" and p.a[1][1] is stream
    return False


def rest_of(toks, exc, g, stream, consume):
    if not consume:
        if not all_tokens(toks, stream):
            return "its tokens are %s" % show(toks)[:120]
        if exc is not None and not (exc.k == "agg" and exc.a[1] == "None"):
            return "a trailing `!` is split off without the feature `consume-question`"
        return None
    # with the feature: the last token is dropped exactly if it is `!`, and then remembered
    for c2, e in alts(exc):
        h = conj(g, c2)
        if h is NO:
            continue
        for c3, t in alts(toks):
            h2 = conj(h, c3)
            if h2 is NO:
                continue
            bang = [k for k in conds.support(h2) if k.k == "call" and k.a[0] == "as_char" and k.a[1][0].k == "pr"]
            is_bang = any(implies_(h2, lit(k, ("=", c("char", "!")))) for k in bang)
            if e.k == "agg" and e.a[1] == "Some":
                if not is_bang:
                    return "the last token is taken for `!` without being one"
                if all_tokens(t, stream):
                    return "the trailing `!` stays in the method"
                if not (stream in set(subterms(t))):
                    return "a method with a trailing `!` is replaced by %s" % show(t)[:100]
            elif e.k == "agg" and e.a[1] == "None":
                if is_bang and len(bang) == 1:
                    return "a trailing `!` is not recognised"
                if not all_tokens(t, stream):
                    return "a method without trailing `!` is changed to %s" % show(t)[:100]
            else:
                return "the trailing `!` is %s" % show(e)[:80]
    return None


from walk import alts  # noqa: E402
