"""C26: the inside of macro calls."""
import conds
from lint import *
from known import *
from walk import alts
from render import unrep, flat_toks
import slots as S
import walkrules


def macro_of(an):
    if "macro" not in an.cache:
        an.cache["macro"] = an.run(an.role("M"), [sym("attrs"), sym("mac"), sym("ctx")], ["VE", "VI", "H", "M"])
    return an.cache["macro"]


def find(t, pred, path=()):
    """positions in a constructed value (aggregates only) whose term satisfies pred"""
    if pred(t):
        yield path, t
    elif t.k == "agg":
        p = path + ((V(t.a[1]),) if t.a[1] is not None else ())
        for f, x in t.a[2]:
            yield from find(x, pred, p + (F(f),))


def parsed_ok(t):
    """(parse, type name, stream) when t is what a parse gave"""
    if t.k == "pr" and t.a[1] == F("0") and t.a[0].k == "pr" and t.a[0].a[1] == V("Ok"):
        q = t.a[0].a[0]
        if q.k == "call" and q.a[0] == "stream_parse":
            return q, ty(q.a[1][0]), q.a[1][1]
    return None


NODES = ("syn::Expr", "syn::Item", "syn::Stmt", "syn::File", "syn::Block", "syn::Local", "syn::Arm")


def slots_of_type(p, nice):
    if nice == "syn::Expr":
        return [S.Slot((), [], "expr", [], nice)]
    if nice == "syn::Item":
        return [S.Slot((), [], "item", [], nice)]
    key = [k for k, a in p.adts.items() if a["nice"] == nice][0]
    out = []
    for v in p.adts[key]["variants"]:
        enum = p.adts[key]["kind"].lower() == "enum"
        own = [] if enum else [(("f", "attrs"),)] if nice != "syn::File" and any(n == "attrs" for n, _, _ in v["fields"]) else []
        for n, t, pub in v["fields"]:
            S.walk(p, t, ((V(v["name"]),) if enum else ()) + (F(str(n)),), [((), key, v["name"])] if enum else [], list(own), out, v["name"], 0)
    return out


class Shim:
    """a node the frame rule can be asked about"""

    def __init__(self, an, res, nice):
        self.an, self.res, self.nice = an, res, nice

    def name(self, pl):
        return self.nice.split("::")[-1] + showpl(("", pl[1])) if pl else "?"


def boundary(g, f):
    """under g with the end of the fork f reached?"""
    for k in conds.support(g):
        if k.k == "call" and k.a[0] in ("stream_peek", "stream_is_empty") and k.a[1][0] is f:
            yield k


def fails(g, nice):
    """g contradicts that the tokens at hand are a whole part of this type"""
    for k in conds.support(g):
        if k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0] == "stream_parse" and ty(k.a[0].a[1][0]) == nice:
            h = conj(g, lit(k, ("=", "Ok")))
            if h is NO:
                return True
            ks = list(boundary(h, k.a[0].a[1][1]))
            if ks and all(conds.implies(h, lit(b, ("=", FALSE))) for b in ks):
                return True
    return False


def c26(ck, an):
    res = macro_of(an)
    paths = oks(res)
    new = None
    seen = {}
    once = lambda rule, key, good, msg: walkrules.once(ck, seen, rule, key, good, msg)
    walked = plain = 0
    for s, g, v in paths:
        evs = list(flat(res, s.log()))
        hs = [e for e, l in evs if e.kind == "visit" and e.name == "H" and not l and strip(e.args[0]) is sym("attrs")]
        once("C26.attrs", "the call's attributes", len(hs) == 1 and strip(hs[0].args[1]) is sym("ctx"), "the attributes on the call are not handled, with the settings around it, before it is looked into")
        if len(hs) != 1:
            continue
        h = mk("call", "H", hs[0].args, hs[0].uid)
        new = get(next((x for x in subterms_of(g, s) if x.k == "call" and x.a[0] == "H" and x.a[2] == hs[0].uid), h), [V("Ok"), F("0"), F("new_context")])
        key = get(new, [F("local_context"), F("hook_in_macros"), F("val")])
        at = s.mem.get(("S", sym("attrs")))
        once("C26.attrs", "what is left of the attributes", at is not None and at.k == "out" and at.a[0] == hs[0].uid, "the attribute list put back is not the handled one")
        m = s.mem.get(("S", sym("mac")))
        changed = m is not None and not (m.k == "at" and m.a[0] is sym("mac"))
        if changed:
            walked += 1
            once("C26.gate", "hooked only when on", conds.implies(g, lit(key, ("=", TRUE))), "the inside of a macro call is rewritten although macros are switched off there")
            ok = m.k == "upd" and len(m.a[1]) == 1 and m.a[1][0][0] == (F("tokens"),)
            once("C26.frame", "only the tokens", ok, "more than the tokens of the macro call is rewritten: %s" % show(m)[:100])
            if ok:
                inside(ck, an, res, s, g, m.a[1][0][1], new, once)
        else:
            plain += 1
            h = conj(g, lit(key, ("=", TRUE)))
            vis = [e for e, l in evs if e.kind == "visit" and e.name in ("VE", "VI", "M") and not (e.name == "M" and not l)]
            once("C26.gate", "left alone", not [e for e, l in evs if e.kind == "visit" and e.name != "H"] or h is NO, "parts of a macro call are walked but the result is thrown away")
            if h is not NO:
                # not a list of expressions or statements: some part fails as each of these
                for nice in ("syn::Expr", "syn::Item", "syn::Stmt"):
                    once("C26.gate", "tried as %s" % nice.split("::")[1], fails(h, nice) or (listless(h, res)), "a macro call whose tokens parse as %s is left unhooked although macros are switched on" % nice)
    ck.floor("paths that rewrite", walked, 1)
    ck.floor("paths that leave alone", plain, 1)


def listless(h, res):
    return False


def subterms_of(g, s):
    for k in conds.support(g):
        yield from subterms(k)
    for e in s.log():
        for a in e.args:
            if isinstance(a, T):
                yield from subterms(a)


def inside(ck, an, res, s, g, toks, new, once):
    """the rewritten tokens: every part walked, in its place, with its separator"""
    if toks.k == "ts" and toks.a[0] is None and len(toks.a[1]) == 1 and toks.a[1][0][0] == "interp":
        toks = toks.a[1][0][1]
    if toks.k == "phi":
        ol = next((l for l in res.loops.values() if toks in l.extra["phis"]), None)
        e = res.phis.get(toks)
        if ol is None or not (e.k == "ts" and e.a[0] is None and not e.a[1]):
            raise Anchor("the new tokens are %s" % show(toks)[:100])
        dp = [(d, p) for d, p in loop_dom(ol) if full_loop(ol, d, p)]
        if len(dp) != 1:
            raise Anchor("the loop over the parts of a macro call is not from the first to the last")
        lst, pos = dp[0]
        el = get(lst, [("e", pos)])
        ys = []
        for it in ol.extra["iters"]:
            for c2, x in alts(it.updates.get(toks, toks)):
                if not (x.k == "ts" and x.a[0] is toks):
                    once("C26.order", "appended", x is toks and conj(it.pc, c2) is NO, "a part of a macro call is dropped or put elsewhere: %s" % show(x)[:100])
                    continue
                ys.append((conj(it.pc, c2), mk("ts", None, x.a[1])))
    elif toks.k == "call" and toks.a[0] == "collect" and toks.a[1][0].a[-1] == "ts":
        lst, y = toks.a[1][1], toks.a[1][2]
        once("C26.order", "appended", y.k == "yields" and not y.a[1], "parts of a macro call are dropped")
        el = get(lst, [("e", sym("$e"))])
        ys = list(y.a[0])
        ol = None
        for l in res.loops.values():
            for d, p in loop_dom(l):
                if d is lst and any(e.kind in ("visit", "loop") for it in l.extra["iters"] for e in it.events):
                    ol, pos = l, p
                    once("C26.order", "each part", full_loop(l, d, p), "the loop over the parts of a macro call is not from the first to the last")
        if ol is None:
            raise Anchor("no loop over the parts of a macro call")
    else:
        raise Anchor("the new tokens are %s" % show(toks)[:100])
    # where the parts come from
    if lst.k != "phi" or not (res.phis[lst].k == "seq" and res.phis[lst].a[0] is None and not res.phis[lst].a[1]):
        raise Anchor("the parts of a macro call are %s" % show(lst)[:100])
    pl = next(l for l in res.loops.values() if lst in l.extra["phis"])
    src = None
    kinds = []
    for it in pl.extra["iters"]:
        for c2, x in alts(it.updates.get(lst, lst)):
            pc = conj(it.pc, c2)
            if pc is NO:
                continue
            if not (x.k == "seq" and x.a[0] is lst and len(x.a[1]) == 1):
                once("C26.parse", "kept", False, "a part that was parsed is not kept: %s" % show(x)[:100])
                continue
            X = x.a[1][0]
            ps = list(find(X, lambda t: parsed_ok(t) is not None and parsed_ok(t)[1] in NODES))
            if len(ps) != 1:
                once("C26.parse", "one part", False, "a part is made of %d parsed pieces: %s" % (len(ps), show(X)[:100]))
                continue
            q, node = ps[0]
            parse, nice, fork = parsed_ok(node)
            once("C26.parse", nice, conds.implies(pc, lit(mk("disc", parse, RESULT), ("=", "Ok"))), "a part is kept although it did not parse")
            main = fork
            if fork.k == "stream" and isinstance(fork.a[0], T) and fork.a[0].k == "stream":
                main = fork.a[0]
                adv = [e for e in it.events if e.kind == "advance" and e.args[0] is main]
                once("C26.parse", nice + " consumed", len(adv) == 1 and adv[0].args[1] is fork, "what is kept as %s is not what is consumed" % nice)
            once("C26.parse", "from the call", main.k == "stream" and strip(main.a[0]) is get(sym("mac"), [F("tokens")]) or main.k == "stream" and strip(main.a[0]) is get(mk("at", sym("mac")), [F("tokens")]), "the parts are not parsed from the tokens of the call: %s" % show(main)[:100])
            # the separator
            sp = list(find(X, lambda t: t is not node and t.k != "agg" or t.k == "agg" and t.a[0] == OPTION))
            sp = [(p, t) for p, t in sp if p[: len(q)] != q]
            # what is read of the stream itself
            keys = [mk("call", "stream_parse", (sym(e.name), main), e.uid) for e in it.events if e.kind == "parse" and e.args[0] is main and "token" in e.name]
            if len(sp) != 1:
                once("C26.sep", nice, False, "the separator after a part is not kept with it")
                continue
            qp, sv = sp[0]
            for c3, y in alts(sv):
                hh = conj(pc, c3)
                if hh is NO:
                    continue
                if y.k == "agg" and y.a[1] == "None":
                    once("C26.sep", nice, all(conj(hh, lit(mk("disc", k, RESULT), ("=", "Ok"))) is NO for k in keys), "a separator is read but not kept")
                else:
                    tk = sep_token(y)
                    once("C26.sep", nice, tk is not None and parsed_ok(tk) is not None and parsed_ok(tk)[0] in keys and all(k is parsed_ok(tk)[0] or conj(hh, lit(mk("disc", k, RESULT), ("=", "Ok"))) is NO for k in keys), "the separator kept is %s" % show(y)[:100])
            if (q, nice, qp) not in kinds:
                kinds.append((q, nice, qp))
    for q, nice, qp in kinds:
        part(ck, an, res, ol, el, get(el, []), pos, lst, ys, q, nice, qp, new, once)
    once("C26.parse", "all kinds", {"syn::Expr", "syn::Stmt"} <= {n for _, n, _ in kinds} and {n for _, n, _ in kinds} & {"syn::Item", "syn::File"}, "only %s are recognised in a macro call" % ", ".join(n for _, n, _ in kinds))


def sep_token(y):
    if y.k == "agg" and y.a[1] == "Some":
        y = y.a[2][0][1]
    if y.k == "ts" and y.a[0] is None and len(y.a[1]) == 1 and y.a[1][0][0] == "interp":
        y = y.a[1][0][1]
    return y


def part(ck, an, res, ol, el, _, pos, lst, ys, q, nice, qp, new, once):
    name = nice.split("::")[1]
    at_ev = get(lst, [("e", pos)])
    at_out = el

    def know(base):
        ds = {get(base, q[:i]): q[i][1] for i in range(len(q)) if q[i][0] == "v"}
        return Known(fn=lambda k: ds.get(k.a[0], UNK) if k.k == "disc" else UNK)

    # the walk
    K = know(at_ev)
    res.reroot({get(at_ev, q): "node", get(at_out, q): "node"})
    cv = walkrules.Cover(an, res)
    fc = walkrules.FrameCheck(Shim(an, res, nice))
    its = [(K.cond(it.pc), it) for it in ol.extra["iters"]]
    its = [(h, it) for h, it in its if h is not NO]
    once("C26.walk", name + " walked", bool(its), "a part parsed as %s is not walked" % nice)
    all_ = slots_of_type(an.p, nice)
    for sl in all_:
        ex = sl.exist()
        if sl.kind == "attrs":
            inner = NO
            for x in all_:
                if x.kind != "attrs" and sl.ps in x.owners and x.top == sl.top:
                    inner = disj(inner, x.exist())
            ex = conj(ex, inner)
        if ex is NO:
            continue
        bad = None
        for h, it in its:
            c = res.canon(h)
            if conj(c, ex) is NO:
                continue
            ok, why = cv.covered(it.events, c, it.facts, sl, ex)
            if not ok:
                bad = why
        once("C26.walk", name + showpl(("", sl.ps)), bad is None, "%s in a macro call is not walked: %s" % (name + showpl(("", sl.ps)), bad))
    # under the settings of the call
    for h, it in its:
        for e, lp in flat(res, it.events):
            if e.kind != "visit":
                continue
            i = {"VE": 0, "VI": 0, "H": 0, "M": 1, "R": 1}[e.name]
            pl = res.place(e.args[i])
            c = e.args[{"VE": 1, "VI": 1, "H": 1, "M": 2}.get(e.name, 0)]
            hs = []
            while c.k == "pr" and c is not new:
                b = c
                while b.k == "pr":
                    b = b.a[0]
                if b.k == "call" and b.a[0] == "H" and c is get(b, [V("Ok"), F("0"), F("new_context")]):
                    hs.insert(0, res.place(b.a[1][0]))
                    c = b.a[1][1]
                else:
                    break
            want = []
            if pl is not None and pl[0] == "node":
                own = [s2 for s2 in slots_of_type(an.p, nice) if walkrules.peq(s2.ps, pl[1])]
                if own and own[0].kind != "attrs":
                    a = res.place(e.args[0]) if e.name == "M" else None
                    want = [o for o in own[0].owners if not (a is not None and walkrules.peq(o, a[1]))]
            good = pl is not None and c is new and len(hs) == len(want) and all(x is not None and walkrules.peq(x[1], o) for x, o in zip(hs, want))
            once("C26.settings", "%s of %s" % (e.name, name + showpl(("", pl[1])) if pl else "?"), good, "the part is walked under settings other than those at the call (at %s)" % e.span)
    # the tokens
    K = know(at_out)
    cover = NO
    for yg, v in ys:
        h = K.cond(yg)
        h = conds.drop(h, lambda k: k.k == "has" or (k.k == "disc" and k.a[1] == RESULT)) if h is not NO else NO
        if h is NO:
            continue
        for c2, x in alts(K.term(v, h)):
            hh = conj(h, c2)
            if hh is NO:
                continue
            cover = disj(cover, hh)
            if not (x.k == "ts" and x.a[0] is None):
                x = mk("ts", None, (("interp", x),))
            ts = flat_toks(x.a[1])
            ok = len(ts) >= 1 and ts[0][0] == "interp"
            why = ["put out as %s" % show(x)[:100]]
            if ok:
                why = fc.same(ts[0][1], ())
                ok = not why
            once("C26.tokens", name, ok, "; ".join(why)[:300])
            sep = get(at_out, qp)
            rest = ts[1:]
            some = conds.implies(hh, lit(mk("disc", sep, OPTION), ("=", "Some")))
            none = conds.implies(hh, lit(mk("disc", sep, OPTION), ("=", "None")))
            ok = (not rest and none) or (len(rest) == 1 and rest[0][0] == "interp" and (rest[0][1] is sep or some and rest[0][1] is get(sep, [V("Some"), F("0")])))
            once("C26.tokens", name + " separator", ok, "the separator after a part is not put out: %s" % show(mk("ts", None, tuple(rest)))[:100])
    once("C26.tokens", name + " always", cover is YES, "under %s a part is not put out" % show_cond(conds.neg(cover))[:150])
    res.reroot({})


def shared(*groups):
    """the obligations on macro calls another property rests on"""
    def rule(ck, an):
        own = Checker(ck.prop, ck.tier)
        c26(own, an)
        keep = tuple("C26." + g for g in groups)
        ck.obligations += [o for o in own.obligations if o[0] in keep]
        ck.failures += [(k, m) for k, m in own.failures if m.split(" ")[0] in keep]
    return rule


c01 = shared("walk", "gate")
c02 = shared("frame", "order", "parse", "sep", "tokens")
c04 = shared("settings", "attrs")
