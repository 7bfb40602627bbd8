"""C17: the built-in flavors, one feature set at a time."""
import config
from lint import *
from known import *
from walk import alts

FEATURES = {"default": ("anyhow", "eyre", "log", "tracing"), "consume": ("anyhow", "eyre", "log", "tracing"), "none": (), "anyhow": ("anyhow",), "eyre": ("eyre",), "log": ("log",), "tracing": ("tracing",)}
LEVELS = ("error", "warn", "info", "debug", "trace")
# documented: method, traits in scope, meta variables in the method, level of a sub-flavor
DOC = {
    "default": ("inspect_err", (), {"path", "line", "col", "source"}, None),
    "hook": ("hook", (), {"hooq_meta"}, None),
    "anyhow": ("with_context", ("::anyhow::Context",), {"path", "line", "col", "source"}, None),
    "eyre": ("wrap_err_with", ("::eyre::ContextCompat", "::eyre::WrapErr"), {"path", "line", "col", "source"}, None),
    "color_eyre": ("wrap_err_with", ("::color_eyre::eyre::ContextCompat", "::color_eyre::eyre::WrapErr"), {"path", "line", "col", "source"}, None),
    "log": ("inspect_err", (), {"path", "line", "col", "source", "level"}, ("::log::Level::", str.capitalize, ("::", "log", "::", "log", "!"))),
    "tracing": ("inspect_err", (), {"path", "line", "col", "source", "level"}, ("::tracing::Level::", str.upper, ("::", "tracing", "::", "event", "!"))),
}
BY = {"anyhow": ("anyhow",), "eyre": ("eyre", "color_eyre"), "log": ("log",), "tracing": ("tracing",)}


def toks(t):
    """nested tokens: text, or (delimiter, tokens)"""
    t = strip(t)
    if t.k == "parsed":
        return toks(t.a[1])
    if t.k == "spanned":
        return toks(t.a[0])
    p = config.unok(t)
    if p is not None and p.k == "call" and p.a[0] == "parse":
        return toks(p.a[1][1])
    if t.k == "c" and t.a[0] == "str":
        return [x[1] for x in models.lex(t.a[1])]
    if t.k == "call" and t.a[0] == "Ident::new" and t.a[1]:
        return [written(t.a[1][0])]
    if t.k == "call" and t.a[0] in ("to_string", "path") and len(t.a[1]) == 1:
        return toks(t.a[1][0])
    if t.k != "ts":
        return ["#"]
    out = toks(t.a[0]) if t.a[0] is not None else []
    for x in t.a[1]:
        if x[0] in ("p", "id", "lit"):
            out.append(x[1])
        elif x[0] == "interp":
            out += toks(x[1])
        elif x[0] == "grp":
            out.append((x[1], toks(x[2])))
        else:
            out.append("#")
    return out


def written(t):
    """the text of a string that is made of constants"""
    t = strip(t)
    if t.k == "c":
        return str(t.a[1])
    if t.k == "agg" and t.a[0].endswith("IdentFragmentAdapter"):
        return written(t.a[2][0][1])
    if t.k == "fmt":
        return "".join(x if isinstance(x, str) else written(x[-1]) for x in t.a[0])
    return "#"


def text(ts):
    return "".join(x if isinstance(x, str) else x[0] + text(x[1]) + {"(": ")", "[": "]", "{": "}", "": ""}.get(x[0], "?") for x in ts)


def streams(ts):
    yield ts
    for x in ts:
        if isinstance(x, tuple):
            yield from streams(x[1])


def metas(ts):
    out = set()
    for s in streams(ts):
        out |= {s[i + 1] for i in range(len(s) - 1) if s[i] == "$" and isinstance(s[i + 1], str)}
    return out


def level_used(ts, mac):
    """the first argument of the macro is `$level`, or a variable that is"""
    n = len(mac)
    for s in streams(ts):
        for i in range(len(s) - n):
            if tuple(s[i:i + n]) == mac and isinstance(s[i + n], tuple):
                arg = s[i + n][1]
                arg = arg[:arg.index(",")] if "," in arg else arg
                if arg == ["$", "level"]:
                    return True
                if len(arg) == 1 and isinstance(arg[0], str):
                    lets = [j for j in range(i) if s[j] == "let" and s[j + 1] == arg[0] and s[j + 2] in ("=", ":")]
                    if lets:
                        e = s[lets[-1]:]
                        e = e[e.index("=") + 1:]
                        return e[:3] == ["$", "level", ";"]
    return False


def last_token(t):
    """what is known about the last token of a constant stream"""
    if t.k in ("disc", "has") and t.a[0].k in ("pr", "ts"):
        ts, sel = (t.a[0].a[0], t.a[0].a[1]) if t.a[0].k == "pr" else (t.a[0], None)
        if ts.k == "ts" and ts.a[0] is None and ts.a[1]:
            if t.k == "has":
                return True
            if sel[0] == "last":
                return {"p": "Punct", "id": "Ident", "lit": "Literal", "grp": "Group"}.get(ts.a[1][-1][0], UNK)
    return UNK


def method(m):
    """(variant, tokens)"""
    m = strip(Known(fn=last_token).term(m))
    if m.k == "agg" and m.a[1] in ("Insert", "Replace"):
        return m.a[1], [x for n, v in m.a[2] if strip(v).k in ("ts", "parsed", "spanned") for x in toks(v)]
    p = config.unok(m)
    if p is not None:
        ts = next((toks(x) for x in subterms(p) if x.k == "ts"), [])
        return ("Insert" if ts[:1] == ["."] else "Replace"), ts
    raise Anchor("the method of a built-in flavor is %s" % show(m)[:100])


def listed(t):
    t = strip(t)
    if t.k == "call" and t.a[0] == "map_from":
        t = t.a[1][0]
    if t.k != "seq" or t.a[0] is not None:
        raise Anchor("a list of a built-in flavor is %s" % show(t)[:100])
    return list(t.a[1])


def words(t):
    return [text(toks(x)) for x in listed(t)]


def c17(ck, an):
    flavors = config.presets(an)
    feats = FEATURES[an.config]
    want = ["default", "empty", "hook"] + [n for f in feats for n in BY[f]]
    for n in sorted(set(want) | set(flavors)):
        ck.ob("C17.exists", "%s/%s" % (an.config, n), (n in want) == (n in flavors), "with the features %s the flavor `%s` %s" % (list(feats), n, "does not exist" if n in want else "exists"))
    for n, f in sorted(flavors.items()):
        f = strip(f)

        def at(name, f=f):
            return get(f, [F(name)])
        def ob(rule, good, msg, n=n):
            ck.ob("C17." + rule, "%s/%s" % (an.config, n), good, "the flavor `%s`: %s" % (n, msg))
        sw = {x: strip(get(at("hook_targets"), [F(x)])) for x in ("question", "return_", "tail_expr")}
        kind, ts = method(at("method"))
        subs = config.entries(at("sub_flavors"))
        if n == "empty":
            ob("empty", all(v is FALSE for v in sw.values()), "hooks %s" % [x for x, v in sw.items() if v is not FALSE])
            ob("empty", strip(at("hook_in_macros")) is FALSE, "rewrites the inside of macro calls")
            ob("empty", kind == "Replace" and ts == ["$", "expr"], "its method is %s" % text(ts)[:60])
            for x in ("trait_uses", "tail_expr_idents", "ignore_tail_expr_idents", "result_types"):
                ob("empty", words(at(x)) == [], "%s is %s" % (x, words(at(x))))
            ob("empty", not config.entries(at("bindings")) and not subs, "has bindings or sub-flavors")
            continue
        if n not in DOC:
            continue
        settings(ob, n, at, sw)
        name, traits, vars_, lv = DOC[n]
        methods(ob, n, at)
        ob("bindings", set(config.entries(at("bindings"))) == ({"level"} if lv else set()), "its bindings are %s" % sorted(config.entries(at("bindings"))))
        ob("subs", sorted(subs) == (sorted(LEVELS) if lv else []), "its sub-flavors are %s" % sorted(subs))
        if not lv:
            continue
        level(ob, n, at, "error")
        for sn, s in sorted(subs.items()):
            s = strip(s)

            def sat(name, s=s):
                return get(s, [F(name)])

            def sob(rule, good, msg, sn=sn):
                ck.ob("C17." + rule, "%s/%s::%s" % (an.config, n, sn), good, "the flavor `%s::%s`: %s" % (n, sn, msg))
            settings(sob, n, sat, {x: strip(get(sat("hook_targets"), [F(x)])) for x in ("question", "return_", "tail_expr")})
            methods(sob, n, sat)
            level(sob, n, sat, sn)
            sob("bindings", set(config.entries(sat("bindings"))) == {"level"}, "its bindings are %s" % sorted(config.entries(sat("bindings"))))
            sob("subs", not config.entries(sat("sub_flavors")), "has sub-flavors")
    ck.floor("built-in flavors (%s)" % an.config, len(flavors), 3)


def settings(ob, n, at, sw):
    ob("settings", all(v is TRUE for v in sw.values()), "does not hook %s" % [x for x, v in sw.items() if v is not TRUE])
    ob("settings", strip(at("hook_in_macros")) is TRUE, "hook_in_macros is %s" % show(at("hook_in_macros"))[:40])
    for x, w in (("tail_expr_idents", ["Err"]), ("ignore_tail_expr_idents", ["Ok"]), ("result_types", ["Result"])):
        v = [show(strip(y)).strip("'") for y in listed(at(x))]
        ob("settings", v == w, "%s is %s" % (x, v))
    tr = sorted(words(at("trait_uses")))
    ob("traits", tr == sorted(DOC[n][1]), "brings %s into scope" % tr)


def methods(ob, n, at):
    name, _, vars_, lv = DOC[n]
    kind, ts = method(at("method"))
    ob("method", kind == "Insert" and ts[:2] == [".", name] and len(ts) == 3 and isinstance(ts[2], tuple), "its method is %s %s" % (kind, text(ts)[:80]))
    ob("method", metas(ts) == vars_, "its method uses %s" % sorted(metas(ts)))
    if lv:
        ob("method", level_used(ts, lv[2]), "its method does not log at `$level`")


def level(ob, n, at, name):
    pre, case, _ = DOC[n][3]
    b = config.entries(at("bindings"))
    if "level" in b:
        v = text(toks(b["level"]))
        ob("level", v == pre + case(name), "`$level` is `%s`, expected `%s`" % (v, pre + case(name)))
