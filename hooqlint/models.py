"""What the external callees (std, syn, quote, proc_macro2, toml) do to provenance.

Every model maps argument origins to result origins; a callee without a model is treated as opaque (its result is a
fresh origin, everything reachable through &mut arguments is overwritten by it) and reported in the evidence.
"""
import re
from terms import *
import conds
from engine import Split, Dead, Ev, Iteration, cut_path

REG = {}


def m(*names):
    def deco(f):
        for n in names:
            REG[n] = f
        return f
    return deco


_gen = re.compile(r"::<[^<>]*>")


def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        if s[i] == "<":
            # keep `<impl str>` heads
            j = s.find(">", i)
            if s.startswith("<impl ", i) and d == 0:
                depth, k = 0, i
                while k < len(s):
                    if s[k] == "<":
                        depth += 1
                    elif s[k] == ">" and s[k - 1] != "-":
                        depth -= 1
                        if depth == 0:
                            break
                    k += 1
                inner = s[i + 6:k]
                out.append(inner.replace("::", "."))
                i = k + 1
                continue
            d += 1
        elif s[i] == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(s[i])
        i += 1
    return "".join(out).replace("::::", "::")


_keys = {}


def key_of(cd):
    k = _keys.get(cd["nice"])
    if k is None or cd.get("trait"):
        if cd.get("trait"):
            tr = strip_generics(cd["trait"]).split("::")[-1]
            k = tr + "::" + (cd.get("method") or cd["nice"].split("::")[-1])
        else:
            segs = [x for x in strip_generics(cd["nice"]).split("::") if x]
            k = "::".join(segs[-2:])
            k = k.replace("[T]", "slice")
        if cd.get("trait"):
            return k
        _keys[cd["nice"]] = k
    return k


# ---- library functions that may panic: key -> what makes a call safe ---------------------
def _never(eng, st, args, ctx):
    return False


def _index_lt(eng, st, args, ctx, room=0):
    """the position is inside the list (or at its end)"""
    if len(args) < 2:
        return False
    v, i = eng.snapshot(st, args[0]), eng.resolve(st, args[1])
    D = strip_elems(v)
    tn = eng.p.tname(eng.p.strip(ctx.argtys[0])) if ctx.argtys[0] is not None else ""
    if tn.replace("&", "").replace("mut ", "").strip() in ("str", "String", "alloc::string::String", "std::string::String"):
        return room == 1 and char_boundary(eng, st, v, i)
    if "Map" in tn:
        key = eng.snapshot(st, args[1])
        return st.facts.get(mk("disc", call("map_get_opt", (v, key)), OPTION)) == ("=", "Some")
    if i.k == "c":
        n = i.a[1] + 1 - room
        if n <= 0 or (D.k == "seq" and D.a[0] is None and n <= len(D.a[1]) and not any(x.k == "spread" for x in D.a[1])):
            return True
        return any(k.k == "has" and k.a[0] is D and f and k.a[2] + 1 >= n for k, f in eng.truths(st)) or eng.at_least(st, eng.length(v), cint(n))
    if i.k == "len" and i.a[0] is D and room:
        return True
    if i.k == "idx" and any(k.k == "has" and k.a[0] is D and k.a[1] is i and f for k, f in eng.truths(st)):
        return True
    if room:
        return eng.at_least(st, eng.length(v), i)
    return any(k.k == "bin" and f == (k.a[0] in ("Lt", "Gt")) and ((k.a[0] in ("Lt", "Ge") and k.a[1] is i and same_len(k.a[2], D)) or (k.a[0] in ("Gt", "Le") and k.a[2] is i and same_len(k.a[1], D))) for k, f in eng.truths(st))


def same_len(n, D):
    return n.k == "len" and n.a[0] is D


def char_boundary(eng, st, v, i):
    """i is where a character of the text v starts, or its end"""
    if i is cint(0) or (i.k == "len" and i.a[0] is strip_elems(v)):
        return True
    for k, f in eng.truths(st):
        if f and k.k == "call" and k.a[0] == "starts_with" and k.a[1][0] is v and k.a[1][1].k == "c":
            if i is cint(len(str(k.a[1][1].a[1]).encode())):
                return True
    def found(x, pat=None):
        while x.k == "pr":
            x = x.a[0]
        return x.k == "call" and x.a[0] in ("str::find", "str::rfind") and x.a[1][0] is v and (pat is None or (x.a[1][1].k == "c" and len(str(x.a[1][1].a[1]).encode()) == pat))
    if i.k == "choice":
        return all(char_boundary(eng, st, v, x) for g, x in i.a[0])
    if i.k == "bin" and i.a[0] == "Add" and i.a[2].k == "c":
        return found(i.a[1], i.a[2].a[1])  # just after what was found
    return found(i)


def _index_le(eng, st, args, ctx):
    return _index_lt(eng, st, args, ctx, 1)


def _pos_const(eng, st, args, ctx):
    return len(args) > 1 and args[1].k == "c" and isinstance(args[1].a[1], int) and args[1].a[1] > 0


def _word(eng, st, args, ctx):
    """a valid identifier"""
    return bool(args) and ident_text(eng.snapshot(st, args[0]))


KEYWORDS = set("as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while abstract become box do final macro override priv typeof unsized virtual yield async await dyn gen try".split())


def ident_text(t):
    """the text is an identifier: a constant one, the name Cargo gives a dependency, or one built from identifiers"""
    if t.k == "c":
        return bool(re.fullmatch(r"[A-Za-z_][A-Za-z0-9_]*", str(t.a[1]))) and t.a[1] != "_"
    if t.k == "choice":
        return all(ident_text(v) for _, v in t.a[0])
    if t.k == "fmt":
        first = t.a[0][0]
        if not isinstance(first, str):
            return len(t.a[0]) == 1 and ident_text(first[-1])
        return bool(re.match(r"[A-Za-z_]", first)) and all(re.fullmatch(r"[A-Za-z0-9_]*", x) if isinstance(x, str) else fragment(x[-1]) for x in t.a[0])
    if t.k == "agg" and t.a[0].endswith("IdentFragmentAdapter"):
        return fragment(t)
    if t.k in ("at", "pr") or (t.k == "call" and t.a[0].split("::")[-1] in ("replace", "to_string", "from", "into", "as_str", "str::replace")):
        if crate_text(t):
            return True
        return t.k == "call" and bool(t.a[1]) and "replace" not in t.a[0] and ident_text(t.a[1][0])
    return False


def crate_text(t):
    return any(x.k == "call" and x.a[0].split("::")[-1] == "crate_name" for x in subterms(t, False)) and not any(x.k == "sym" for x in subterms(t, False))


def fragment(t):
    """text of IdentFragment: identifiers lose r#, numbers are digits"""
    if t.k == "c":
        return True
    return t.k == "agg" and t.a[0].endswith("IdentFragmentAdapter")


PANICKY = {
    "Vec::remove": _index_lt, "Vec::swap_remove": _index_lt, "Vec::insert": _index_le, "Vec::split_off": _index_le, "Vec::drain": _never, "Vec::splice": _never,
    "VecDeque::insert": _index_le, "VecDeque::swap": _never, "slice::split_at": _index_le, "slice::split_at_mut": _index_le, "slice::copy_from_slice": _never, "slice::clone_from_slice": _never,
    "slice::swap": _never, "slice::rotate_left": _never, "slice::rotate_right": _never, "slice::chunks": _pos_const, "slice::chunks_exact": _pos_const, "slice::windows": _pos_const,
    "slice::chunks_mut": _pos_const, "slice::rchunks": _pos_const, "slice::copy_within": _never, "slice::select_nth_unstable": _never,
    "String::remove": _never, "String::insert": _index_le, "String::insert_str": _index_le, "String::drain": _never, "String::split_off": _index_le, "String::replace_range": _never, "String::truncate": _index_le,
    "str::split_at": _index_le, "str::split_at_mut": _index_le, "Iterator::step_by": _pos_const, "char::to_digit": _pos_const, "char::from_digit": _never,
    "Ident::new": _word, "Ident::new_raw": _never, "__private::mk_ident": _word, "__private::push_ident": None, "Literal::f64_unsuffixed": _never, "Literal::f32_unsuffixed": _never, "Lifetime::new": _never,
    "LitInt::new": _never, "LitFloat::new": _never, "Lit::new": _never,
    "Punctuated::push_value": _never, "Punctuated::push_punct": _never, "Punctuated::insert": _index_le,
    "num::pow": _never, "num::abs": _never, "num::div_euclid": _never, "num::rem_euclid": _never, "num::ilog2": _never, "num::ilog10": _never, "num::ilog": _never, "num::next_power_of_two": _never,
    "env::set_var": _never, "env::remove_var": _never, "env::args": _never, "env::vars": _never, "process::exit": _never, "process::abort": _never, "thread::spawn": _never,
    "Rc::new_cyclic": _never, "intrinsics::abort": _never, "panic::resume_unwind": _never, "hint::unreachable_unchecked": _never, "Option::unwrap_unchecked": _never, "Result::unwrap_unchecked": _never,
}
PANICKY = {k: f for k, f in PANICKY.items() if f is not None}


def clamp(eng, st, cd, args, ctx):
    """Ord::clamp(min, max) panics if min > max"""
    a, b = eng.resolve(st, args[1]), eng.resolve(st, args[2])
    return eng.at_least(st, b, a)


class Models:
    def __init__(self, extra=None):
        self.reg = dict(REG)
        if extra:
            self.reg.update(extra)

    def panics(self, eng, st, cd, args, ctx):
        k = key_of(cd)
        f = PANICKY.get(k)
        if f is not None and not f(eng, st, args, ctx):
            eng.panic(st, ctx.fr, k, ctx.span, args[1] if len(args) > 1 else None)
        elif k == "Ord::clamp" and not clamp(eng, st, cd, args, ctx):
            eng.panic(st, ctx.fr, k, ctx.span, None)

    def find(self, cd, tgt, eng):
        k = key_of(cd)
        f = self.reg.get(k)
        if f is None:
            return None
        if tgt is not None and tgt in eng.p.bodies and not cd.get("behind"):
            # a local, hand-written body wins over the model of the trait method
            b = eng.p.bodies[tgt]
            if not b.get("derived") or k in ("Deserialize::deserialize",):
                return None
            if k in ("Clone::clone", "PartialEq::eq", "PartialEq::ne", "Default::default"):
                return f if k != "Default::default" else None
            return None
        return f


def pure(eng, st, name, args, ctx):
    """result is a function of the argument values"""
    return [(st, call(name, tuple(eng.snapshot(st, a) for a in args)))]


def ret(st, v):
    return [(st, v)]


# ---- std: clone / deref / conversion -----------------------------------------------
@m("Clone::clone", "Rc::clone", "ToOwned::to_owned", "Option::cloned", "Option::copied", "slice::to_vec")
def clone(eng, st, cd, args, ctx):
    v = eng.load(st, args[0])
    if key_of(cd) in ("Option::cloned", "Option::copied"):
        out = []
        for s, x, n in eng.branch_variant(st, args[0], OPTION):
            if n == "Some":
                inner = get(x, (("v", "Some"), ("f", "0")))
                out.append((s, some(eng.load(s, inner))))
            else:
                out.append((s, NONE))
        return eng_merge(eng, out)
    if v.k == "ref" and ctx.argtys and ctx.argtys[0] is not None:
        # &&T -> clone of &T is the reference itself
        return ret(st, v)
    return ret(st, v)


def eng_merge(eng, outs):
    """join (state, value) results that share their trace"""
    if len(outs) < 2:
        return outs
    for s, v in outs:
        s.mem[("L", "ret", 0)] = v
    ms = eng.merge([s for s, _ in outs])
    r = []
    for s in ms:
        v = s.mem.pop(("L", "ret", 0))
        r.append((s, v))
    return r


@m("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut",
   "String::as_str", "Vec::as_slice", "Vec::as_mut_slice", "String::as_mut_str", "Rc::as_ref", "Vec::leak")
def deref(eng, st, cd, args, ctx):
    r, p = eng.deref(st, args[0])
    v = eng.read(st, r, p)
    if v.k == "guard":
        return ret(st, v.a[0])
    if v.k == "choice":
        v2 = eng.resolve(st, v)
        if v2.k == "choice" and any(x.k == "guard" for _, x in v2.a[0]):
            raise Split(v2)
    # LazyLock / OnceLock statics: the initialised content
    if r[0] == "S" and r[1].k == "sym" and r[1].a[0].startswith("static:"):
        return ret(st, ref(r, p))
    # a smart pointer field: same place (Box, Rc, String, Vec are transparent)
    if v.k in ("ref",):
        return ret(st, v)
    return ret(st, ref(r, p))


@m("Box::new", "Rc::new", "Mutex::new", "LazyLock::new", "OnceLock::new", "Arc::new", "Box::from", "must_use",
   "hint::must_use", "Cow::from", "Cell::new", "identity", "convert::identity")
def ident(eng, st, cd, args, ctx):
    return ret(st, args[0])


@m("OnceLock::new", "OnceCell::new")
def oncenew(eng, st, cd, args, ctx):
    return ret(st, call("OnceLock::new", ()))


@m("RefCell::new")
def refcell_new(eng, st, cd, args, ctx):
    return ret(st, call("RefCell::new", (args[0],), ctx.uid("cell")))


@m("RefCell::borrow", "RefCell::borrow_mut", "RefCell::as_ptr", "RefCell::get_mut")
def borrow(eng, st, cd, args, ctx):
    v = eng.load(st, args[0])
    v = eng.resolve(st, v)
    if v.k == "choice":
        raise Split(v)
    root = ("S", mk("cell", v))
    if root not in st.mem and v.k == "call" and v.a[0] == "RefCell::new":
        st.mem[root] = v.a[1][0]
    return ret(st, mk("guard", ref(root)))


@m("Mutex::lock", "RwLock::write", "RwLock::read")
def lock(eng, st, cd, args, ctx):
    r, p = eng.deref(st, args[0])
    st.add_event(Ev("lock", "lock", (mk("ref", r, p),), None, ctx.span))
    return ret(st, ok(mk("guard", ref(r, p))))


@m("OnceLock::get_or_init", "LazyLock::force")
def get_or_init(eng, st, cd, args, ctx):
    if len(args) < 2:
        return deref(eng, st, cd, args, ctx)
    out = []
    for s, v in eng.call_value(st, args[1], [], ctx.sub("init")):
        out.append((s, valref(v)))
    return out


@m("From::from", "Into::into", "ToString::to_string", "TryFrom::try_from", "TryInto::try_into", "PathBuf::from", "FromIterator::from_iter",
   "str::to_string", "str::to_owned", "str::into_string", "String::from", "Iterator::from_iter")
def convert(eng, st, cd, args, ctx):
    k = key_of(cd)
    beh = cd.get("behind")
    if beh:
        t = eng.p.local_target(beh)
        if t is not None:
            if t in eng.cuts:
                return eng.cuts[t](eng, st, beh, args, ctx, t)
            if t in eng.p.bodies and not eng.p.bodies[t].get("derived"):
                return eng.inline(st, t, args, ctx)
    if k == "FromIterator::from_iter" or k == "Iterator::from_iter":
        return collect(eng, st, cd, args, ctx)
    a = args[0]
    if k == "ToString::to_string":
        v = eng.load(st, a)
        if v.k == "ref":
            v = eng.load(st, v)
        return ret(st, tostring(eng, st, v, ctx))
    if a.k == "ref":
        v = eng.load(st, a)
        dn = eng.p.tname(ctx.destty)
        if dn.endswith("string::String") or dn.endswith("Rc<str>") or "PathBuf" in dn:
            return ret(st, v)
        if dn.startswith("std::collections::HashMap"):
            return ret(st, v)
    dn = eng.p.tname(ctx.destty)
    if dn.startswith("std::collections::HashMap") and a.k == "seq":
        return ret(st, call("map_from", (a,)))
    return ret(st, a)


def tostring(eng, st, v, ctx):
    if v.k == "choice":
        return mkchoice([(g, tostring(eng, st, x, ctx)) for g, x in v.a[0]])
    if v.k == "c" and v.a[0] == "str":
        return v
    if v.k == "c" and v.a[0] in ("char",):
        return cstr(v.a[1])
    if v.k == "fmt":
        return v
    v = eng.snapshot(st, v)
    n = "str"
    return call("to_string", (v,))


# ---- Option / Result -----------------------------------------------------------------
SP = (("v", "Some"), ("f", "0"))
OP = (("v", "Ok"), ("f", "0"))
EP = (("v", "Err"), ("f", "0"))


def on_option(eng, st, v, fsome, fnone):
    out = []
    for s, x, n in eng.branch_variant(st, v, OPTION):
        try:
            out.extend(fsome(s, get(x, SP)) if n == "Some" else fnone(s))
        except Dead:
            pass
    return eng_merge(eng, out)


def on_result(eng, st, v, fok, ferr):
    out = []
    for s, x, n in eng.branch_variant(st, v, RESULT):
        out.extend(fok(s, get(x, OP)) if n == "Ok" else ferr(s, get(x, EP)))
    return eng_merge(eng, out)


def isres(eng, ctx, i=0):
    t = ctx.argtys[i] if ctx.argtys and i < len(ctx.argtys) else None
    if t is None:
        return False
    s = eng.p.strip(t)
    return eng.p.tname(s).startswith("std::result::Result")


@m("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err")
def is_some(eng, st, cd, args, ctx):
    v = eng.load(st, args[0])
    k = key_of(cd)
    pos = k in ("Option::is_some", "Result::is_ok")
    if k.startswith("Option"):
        f = on_option
    else:
        f = on_result
    t, e = cbool(pos), cbool(not pos)
    if f is on_option:
        return on_option(eng, st, v, lambda s, x: [(s, t)], lambda s: [(s, e)])
    return on_result(eng, st, v, lambda s, x: [(s, t)], lambda s, x: [(s, e)])


@m("Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut", "Option::iter", "Option::iter_mut")
def opt_as_ref(eng, st, cd, args, ctx):
    k = key_of(cd)
    r, p = eng.deref(st, args[0])
    v = eng.read(st, r, p)

    def f(s, x):
        if k.startswith("Option::as_deref") and x.k == "ref":
            return [(s, some(x))]
        return [(s, some(ref(r, p + SP)))]

    out = on_option(eng, st, v, f, lambda s: [(s, NONE)])
    if "iter" in k:
        return [(s, mkiter_opt(eng, v)) for s, v in out]
    return out


@m("Result::as_ref", "Result::as_mut", "Result::as_deref")
def res_as_ref(eng, st, cd, args, ctx):
    r, p = eng.deref(st, args[0])
    v = eng.read(st, r, p)
    return on_result(eng, st, v, lambda s, x: [(s, ok(ref(r, p + OP)))], lambda s, x: [(s, err(ref(r, p + EP)))])


@m("Option::map", "Option::and_then", "Option::is_some_and", "Option::filter", "Option::is_none_or", "Option::inspect")
def opt_map(eng, st, cd, args, ctx):
    k = key_of(cd)

    def f(s, x):
        if k == "Option::filter":
            out = []
            for s2, v in eng.call_value(s, args[1], [valref(x)], ctx.sub("f")):
                for s3, b in eng.branch_bool(s2, v):
                    out.append((s3, some(x) if b else NONE))
            return out
        if k == "Option::inspect":
            return [(s2, some(x)) for s2, v in eng.call_value(s, args[1], [valref(x)], ctx.sub("f"))]
        rs = eng.call_value(s, args[1], [x], ctx.sub("f"))
        if k == "Option::map":
            return [(s2, some(v)) for s2, v in rs]
        return rs

    none = FALSE if k == "Option::is_some_and" else TRUE if k == "Option::is_none_or" else NONE
    return on_option(eng, st, args[0], f, lambda s: [(s, none)])


@m("Option::map_or", "Option::map_or_else")
def opt_map_or(eng, st, cd, args, ctx):
    if key_of(cd).endswith("else"):
        return on_option(eng, st, args[0], lambda s, x: eng.call_value(s, args[2], [x], ctx.sub("f")), lambda s: eng.call_value(s, args[1], [], ctx.sub("d")))
    return on_option(eng, st, args[0], lambda s, x: eng.call_value(s, args[2], [x], ctx.sub("f")), lambda s: [(s, args[1])])


@m("Result::map_or", "Result::map_or_else", "Result::is_ok_and", "Result::is_err_and")
def res_map_or(eng, st, cd, args, ctx):
    k = key_of(cd)
    if k.endswith("else"):
        return on_result(eng, st, args[0], lambda s, x: eng.call_value(s, args[2], [x], ctx.sub("f")), lambda s, x: eng.call_value(s, args[1], [x], ctx.sub("d")))
    if k == "Result::is_ok_and":
        return on_result(eng, st, args[0], lambda s, x: eng.call_value(s, args[1], [x], ctx.sub("f")), lambda s, x: [(s, FALSE)])
    if k == "Result::is_err_and":
        return on_result(eng, st, args[0], lambda s, x: [(s, FALSE)], lambda s, x: eng.call_value(s, args[1], [x], ctx.sub("f")))
    return on_result(eng, st, args[0], lambda s, x: eng.call_value(s, args[2], [x], ctx.sub("f")), lambda s, x: [(s, args[1])])


@m("Option::xor")
def opt_xor(eng, st, cd, args, ctx):
    none = lambda s: [(s, NONE)]
    return on_option(eng, st, args[0], lambda s, x: on_option(eng, s, args[1], lambda s2, y: [(s2, NONE)], lambda s2: [(s2, some(x))]),
                     lambda s: on_option(eng, s, args[1], lambda s2, y: [(s2, some(y))], none))


@m("Option::zip")
def opt_zip(eng, st, cd, args, ctx):
    none = lambda s: [(s, NONE)]
    return on_option(eng, st, args[0], lambda s, x: on_option(eng, s, args[1], lambda s2, y: [(s2, some(tup(x, y)))], none), none)


@m("Option::unwrap_or", "Option::or", "Result::unwrap_or", "Option::and")
def unwrap_or(eng, st, cd, args, ctx):
    k = key_of(cd)
    if k == "Option::and":
        return on_option(eng, st, args[0], lambda s, x: [(s, args[1])], lambda s: [(s, NONE)])
    if k.startswith("Option"):
        w = k == "Option::or"
        return on_option(eng, st, args[0], lambda s, x: [(s, some(x) if w else x)], lambda s: [(s, args[1])])
    st.add_event(Ev("swallow", k, (eng.snapshot(st, args[0]),), None, ctx.span)) if False else None
    return on_result(eng, st, args[0], lambda s, x: [(s, x)], lambda s, x: [(s, args[1])])


@m("Option::unwrap_or_else", "Option::or_else", "Result::unwrap_or_else", "Result::or_else")
def unwrap_or_else(eng, st, cd, args, ctx):
    k = key_of(cd)
    if k.startswith("Option"):
        w = k == "Option::or_else"
        return on_option(eng, st, args[0], lambda s, x: [(s, some(x) if w else x)], lambda s: eng.call_value(s, args[1], [], ctx.sub("d")))
    w = k == "Result::or_else"
    return on_result(eng, st, args[0], lambda s, x: [(s, ok(x) if w else x)], lambda s, x: eng.call_value(s, args[1], [x], ctx.sub("d")))


@m("Option::unwrap_or_default", "Result::unwrap_or_default")
def unwrap_or_default(eng, st, cd, args, ctx):
    d = default_of(eng, ctx.destty)
    if key_of(cd).startswith("Option"):
        return on_option(eng, st, args[0], lambda s, x: [(s, x)], lambda s: [(s, d)])
    return on_result(eng, st, args[0], lambda s, x: [(s, x)], lambda s, x: [(s, d)])


@m("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::unwrap_err", "Result::expect_err")
def unwrap(eng, st, cd, args, ctx):
    k = key_of(cd)

    def bad(s, *x):
        eng.panic(s, ctx.fr, k, ctx.span, args[0])
        return []

    if k.startswith("Option"):
        return on_option(eng, st, args[0], lambda s, x: [(s, x)], bad)
    if k.endswith("_err"):
        return on_result(eng, st, args[0], bad, lambda s, x: [(s, x)])
    return on_result(eng, st, args[0], lambda s, x: [(s, x)], bad)


@m("Option::ok_or", "Option::ok_or_else")
def ok_or(eng, st, cd, args, ctx):
    if key_of(cd) == "Option::ok_or":
        return on_option(eng, st, args[0], lambda s, x: [(s, ok(x))], lambda s: [(s, err(args[1]))])
    return on_option(eng, st, args[0], lambda s, x: [(s, ok(x))], lambda s: [(s2, err(v)) for s2, v in eng.call_value(s, args[1], [], ctx.sub("d"))])


@m("Result::ok", "Result::err")
def res_ok(eng, st, cd, args, ctx):
    if key_of(cd) == "Result::ok":
        return on_result(eng, st, args[0], lambda s, x: [(s, some(x))], lambda s, x: [(s, NONE)])
    return on_result(eng, st, args[0], lambda s, x: [(s, NONE)], lambda s, x: [(s, some(x))])


@m("Result::map", "Result::and_then", "Result::inspect", "Result::and")
def res_map(eng, st, cd, args, ctx):
    k = key_of(cd)

    def f(s, x):
        if k == "Result::and":
            return [(s, args[1])]
        if k == "Result::inspect":
            return [(s2, ok(x)) for s2, _ in eng.call_value(s, args[1], [valref(x)], ctx.sub("f"))]
        rs = eng.call_value(s, args[1], [x], ctx.sub("f"))
        return [(s2, ok(v)) for s2, v in rs] if k == "Result::map" else rs

    return on_result(eng, st, args[0], f, lambda s, x: [(s, err(x))])


@m("Result::map_err", "Result::inspect_err")
def map_err(eng, st, cd, args, ctx):
    k = key_of(cd)
    if k == "Result::inspect_err":
        return on_result(eng, st, args[0], lambda s, x: [(s, ok(x))], lambda s, x: [(s2, err(x)) for s2, _ in eng.call_value(s, args[1], [valref(x)], ctx.sub("f"))])
    return on_result(eng, st, args[0], lambda s, x: [(s, ok(x))], lambda s, x: [(s2, err(v)) for s2, v in eng.call_value(s, args[1], [x], ctx.sub("f"))])


@m("Option::flatten")
def opt_flatten(eng, st, cd, args, ctx):
    return on_option(eng, st, args[0], lambda s, x: [(s, x)], lambda s: [(s, NONE)])


@m("Option::transpose")
def opt_transpose(eng, st, cd, args, ctx):
    return on_option(eng, st, args[0],
                     lambda s, x: on_result(eng, s, x, lambda s2, y: [(s2, ok(some(y)))], lambda s2, y: [(s2, err(y))]),
                     lambda s: [(s, ok(NONE))])


@m("Option::take", "Option::replace", "Option::insert", "mem::take", "mem::replace", "mem::swap")
def opt_take(eng, st, cd, args, ctx):
    k = key_of(cd)
    r, p = eng.deref(st, args[0])
    v = eng.read(st, r, p)
    if k == "Option::take":
        eng.write(st, r, p, NONE, ctx.span)
        return ret(st, v)
    if k == "Option::replace":
        eng.write(st, r, p, some(args[1]), ctx.span)
        return ret(st, v)
    if k == "mem::replace":
        eng.write(st, r, p, args[1], ctx.span)
        return ret(st, v)
    if k == "mem::take":
        eng.write(st, r, p, default_of(eng, ctx.destty), ctx.span)
        return ret(st, v)
    if k == "Option::insert":
        eng.write(st, r, p, some(args[1]), ctx.span)
        return ret(st, ref(r, p + SP))
    r2, p2 = eng.deref(st, args[1])
    v2 = eng.read(st, r2, p2)
    eng.write(st, r, p, v2, ctx.span)
    eng.write(st, r2, p2, v, ctx.span)
    return ret(st, UNIT)


@m("Option::get_or_insert_with", "Option::get_or_insert")
def get_or_insert(eng, st, cd, args, ctx):
    r, p = eng.deref(st, args[0])
    v = eng.read(st, r, p)

    def none(s):
        if key_of(cd) == "Option::get_or_insert":
            eng.write(s, r, p, some(args[1]), ctx.span)
            return [(s, ref(r, p + SP))]
        out = []
        for s2, x in eng.call_value(s, args[1], [], ctx.sub("f")):
            eng.write(s2, r, p, some(x), ctx.span)
            out.append((s2, ref(r, p + SP)))
        return out

    return on_option(eng, st, v, lambda s, x: [(s, ref(r, p + SP))], none)


@m("Try::branch")
def try_branch(eng, st, cd, args, ctx):
    t = eng.p.ty(ctx.argtys[0])
    cont = lambda v: agg(CFLOW, "Continue", [("0", v)])
    brk = lambda v: agg(CFLOW, "Break", [("0", v)])
    out = []
    if t[0] == "adt" and t[3] == "std::option::Option":
        for s, x, n in eng.branch_variant(st, args[0], OPTION):
            out.append((s, cont(get(x, SP)) if n == "Some" else brk(NONE)))
    else:
        for s, x, n in eng.branch_variant(st, args[0], RESULT):
            out.append((s, cont(get(x, OP)) if n == "Ok" else brk(err(get(x, EP)))))
    return out


@m("FromResidual::from_residual")
def from_residual(eng, st, cd, args, ctx):
    return ret(st, args[0])


@m("Try::from_output")
def from_output(eng, st, cd, args, ctx):
    t = eng.p.ty(ctx.destty)
    return ret(st, some(args[0]) if t[3] == "std::option::Option" else ok(args[0]))


@m("bool::then", "bool::then_some")
def bool_then(eng, st, cd, args, ctx):
    out = []
    for s, b in eng.branch_bool(st, args[0]):
        if not b:
            out.append((s, NONE))
        elif key_of(cd) == "bool::then_some":
            out.append((s, some(args[1])))
        else:
            out.extend((s2, some(v)) for s2, v in eng.call_value(s, args[1], [], ctx.sub("f")))
    return eng_merge(eng, out)


# ---- defaults -------------------------------------------------------------------------
def default_of(eng, ty):
    t = eng.p.ty(ty)
    n = eng.p.tname(ty).removeprefix("&mut ")
    if n.startswith("std::vec::Vec"):
        return mk("seq", None, ())
    if n == "std::string::String" or n == "&str":
        return cstr("")
    if n == "bool":
        return FALSE
    if n in ("usize", "i32", "u32", "u64", "i64", "u8", "isize"):
        return cint(0)
    if n.startswith("std::option::Option"):
        return NONE
    if n.startswith("std::collections::"):
        return call("map_from", (mk("seq", None, ()),))
    if n == "proc_macro2::TokenStream":
        return mk("ts", None, ())
    return call("default", (sym(n),))


@m("Default::default")
def default(eng, st, cd, args, ctx):
    return ret(st, default_of(eng, ctx.destty))


@m("Vec::new", "Vec::with_capacity", "String::new", "HashMap::new", "HashMap::with_capacity", "String::with_capacity", "BTreeMap::new", "HashSet::new", "BTreeSet::new")
def new_empty(eng, st, cd, args, ctx):
    return ret(st, default_of(eng, ctx.destty))


@m("Box::new_uninit")
def new_uninit(eng, st, cd, args, ctx):
    return ret(st, mk("uninitbox", ctx.uid("b")))


@m("boxed::box_assume_init_into_vec_unsafe")
def into_vec_unsafe(eng, st, cd, args, ctx):
    v = args[0]
    if v.k == "upd" and v.a[0].k == "uninitbox":
        return ret(st, v.a[1][0][1])
    return ret(st, v)


# ---- comparisons -----------------------------------------------------------------------
def deep(eng, st, v, ty):
    """value compared by PartialEq: behind all references"""
    if ty is None:
        return eng.snapshot(st, v)
    v, _ = eng.loadn(st, v, ty)
    return v


@m("PartialEq::eq", "PartialEq::ne", "str::eq", "str::ne")
def partial_eq(eng, st, cd, args, ctx):
    a = deep(eng, st, args[0], ctx.argtys[0])
    b = deep(eng, st, args[1], ctx.argtys[1])
    ty = eng.p.strip(ctx.argtys[0]) if ctx.argtys[0] is not None else None
    r = eqterm(eng, st, a, b, ty)
    if key_of(cd).endswith("::ne"):
        r = eng.mknot(r)
    return ret(st, r)


def eqterm(eng, st, a, b, ty):
    a, b = eng.resolve(st, a), eng.resolve(st, b)
    if a.k == "choice":
        return mkchoice([(g, eqterm(eng, st, v, b, ty)) for g, v in a.a[0]])
    if b.k == "choice":
        return mkchoice([(g, eqterm(eng, st, a, v, ty)) for g, v in b.a[0]])
    a, b = eng.snapshot(st, a), eng.snapshot(st, b)
    for x, y in ((a, b), (b, a)):
        if x.k == "agg" and x.a[1] is not None and not x.a[2]:
            if y.k == "agg":
                return cbool(x.a[1] == y.a[1])
            adt = x.a[0]
            return eng.mkbin("Eq", eng._disc(st, y, adt), c("var", (x.a[1], adt)))
    if a.k == "agg" and b.k == "agg":
        if a.a[1] != b.a[1]:
            return FALSE
    if a.k == "call" and a.a[0] == "to_string" and b.k == "c":
        a = a.a[1][0]
    if b.k == "call" and b.a[0] == "to_string" and a.k == "c":
        b = b.a[1][0]
    return eng.mkbin("Eq", a, b)


@m("Ord::cmp", "PartialOrd::partial_cmp")
def cmp(eng, st, cd, args, ctx):
    a = deep(eng, st, args[0], ctx.argtys[0])
    b = deep(eng, st, args[1], ctx.argtys[1])
    return ret(st, call("cmp", (eng.snapshot(st, a), eng.snapshot(st, b))))


@m("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def partial_ord(eng, st, cd, args, ctx):
    a = deep(eng, st, args[0], ctx.argtys[0])
    b = deep(eng, st, args[1], ctx.argtys[1])
    return ret(st, eng.mkbin({"lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[key_of(cd)[-2:]], a, b))


@m("Ord::max", "Ord::min", "cmp::max", "cmp::min")
def ordmax(eng, st, cd, args, ctx):
    return ret(st, call(key_of(cd), tuple(args)))


@m("usize::saturating_sub", "usize::checked_sub", "usize::wrapping_sub", "usize::saturating_add", "usize::checked_add", "usize::wrapping_add")
def arith(eng, st, cd, args, ctx):
    k = key_of(cd)
    if "checked" in k:
        if k.endswith("sub"):
            out = []
            cond = eng.mkbin("Lt", args[0], args[1])
            if args[0].k == "len" and args[1] is cint(1):
                cond = mk("not", mk("has", args[0].a[0], cint(0), 0))
            for s, b in eng.branch_bool(st, cond):
                out.append((s, NONE if b else some(eng.mkbin("Sub", args[0], args[1]))))
            return eng_merge(eng, out)
        return ret(st, some(eng.mkbin("Add", args[0], args[1])))
    if k.endswith("add"):
        return ret(st, eng.mkbin("Add", args[0], args[1]))
    if args[0].k == "c" and args[1].k == "c":
        return ret(st, cint(max(0, args[0].a[1] - args[1].a[1])))
    if args[0].k == "len" and args[1] is cint(1):
        # len.saturating_sub(1): equals len-1 whenever an index below len exists
        return ret(st, eng.mkbin("Sub", args[0], args[1]))
    return ret(st, call(k, tuple(args)))


@m("intrinsics::discriminant_value", "mem::discriminant")
def discval(eng, st, cd, args, ctx):
    v = eng.load(st, args[0])
    t = eng.p.strip(ctx.argtys[0])
    return ret(st, eng.disc_term(st, v, t))


# ---- collections -----------------------------------------------------------------------
def place_of(eng, st, a):
    r, p = eng.deref(st, a)
    v = eng.read(st, r, p)
    if v.k == "guard":
        v2 = v.a[0]
        r, p = eng.deref(st, v2)
        v = eng.read(st, r, p)
    if v.k == "ref":
        r, p = v.a
        v = eng.read(st, r, p)
    return r, p, v


@m("Vec::len", "slice::len", "Punctuated::len", "String::len", "str::len", "HashMap::len", "BTreeMap::len", "ExactSizeIterator::len")
def length(eng, st, cd, args, ctx):
    r, p, v = place_of(eng, st, args[0])
    if v.k == "agg" and v.a[0] == "Iter":
        return ret(st, eng.length(agg_get(v, "dom")))
    return ret(st, eng.length(v))


@m("Vec::is_empty", "slice::is_empty", "Punctuated::is_empty", "HashMap::is_empty", "BTreeMap::is_empty", "String::is_empty", "str::is_empty", "TokenStream::is_empty")
def is_empty(eng, st, cd, args, ctx):
    r, p, v = place_of(eng, st, args[0])
    return ret(st, empty_term(eng, st, v))


def empty_term(eng, st, v):
    v = eng.resolve(st, v)
    if v.k == "choice":
        return mkchoice([(g, empty_term(eng, st, x)) for g, x in v.a[0]])
    v = strip_elems(v)
    if v.k == "seq" and v.a[0] is None:
        return cbool(not v.a[1])
    if v.k == "ts" and v.a[0] is None and all(x[0] != "interp" for x in v.a[1]):
        return cbool(not v.a[1])
    if v.k == "c" and v.a[0] == "str":
        return cbool(not v.a[1])
    if v.k == "call" and v.a[0] == "map_from":
        return empty_term(eng, st, v.a[1][0])
    if v.k == "call" and v.a[0] == "collect" and v.a[1][2].k == "yields" and not v.a[1][2].a[1]:
        return mk("not", mk("has", v.a[1][1], cint(0), 0))
    return mk("not", mk("has", v, cint(0), 0))


@m("Vec::push", "Vec::extend_from_slice", "Vec::append", "String::push_str", "String::push", "Punctuated::push", "Punctuated::push_value")
def push(eng, st, cd, args, ctx):
    k = key_of(cd)
    r, p, v = place_of(eng, st, args[0])
    if k.startswith("String"):
        x = args[1]
        if x.k == "ref":
            x = eng.load(st, x)
        eng.write(st, r, p, strcat(v, x), ctx.span)
        return ret(st, UNIT)
    if k in ("Vec::extend_from_slice", "Vec::append"):
        x = eng.load(st, args[1])
        eng.write(st, r, p, seqcat(v, x), ctx.span)
        return ret(st, UNIT)
    eng.write(st, r, p, seqpush(v, args[1]), ctx.span)
    return ret(st, UNIT)


@m("AddAssign::add_assign", "Add::add")
def string_add(eng, st, cd, args, ctx):
    """`String += &str` and `String + &str`"""
    if len(args) != 2 or not cd.get("args") or eng.p.tname(cd["args"][0]) not in ("std::string::String", "alloc::string::String", "String"):
        return None
    x = args[1]
    if x.k == "ref":
        x = eng.load(st, x)
    if key_of(cd) == "Add::add":
        return ret(st, strcat(args[0], x))
    r, p, v = place_of(eng, st, args[0])
    eng.write(st, r, p, strcat(v, x), ctx.span)
    return ret(st, UNIT)


def seqpush(v, x):
    if v.k == "seq":
        return mk("seq", v.a[0], v.a[1] + (x,))
    return mk("seq", v, (x,))


def seqcat(v, x):
    if x.k == "seq" and x.a[0] is None:
        return mk("seq", v.a[0], v.a[1] + x.a[1]) if v.k == "seq" else mk("seq", v, x.a[1])
    return seqpush(v, mk("spread", x))


def pieces(v):
    if v.k == "c":
        return (v.a[1],) if v.a[1] != "" else ()
    if v.k == "fmt":
        return v.a[0]
    return (("d", v),)


def strcat(v, x):
    return mkfmt(pieces(v) + pieces(x))


def mkfmt(ps):
    out = []
    for p in ps:
        if isinstance(p, str):
            if p == "":
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        else:
            out.append(p)
    if not out:
        return cstr("")
    if len(out) == 1 and isinstance(out[0], str):
        return cstr(out[0])
    return mk("fmt", tuple(out))


@m("Extend::extend")
def extend(eng, st, cd, args, ctx):
    r, p, v = place_of(eng, st, args[0])
    tn = eng.p.tname(eng.p.strip(ctx.argtys[0]))
    x = args[1]
    if "TokenStream" in tn:
        items = None
        if x.k == "seq" and x.a[0] is None:
            items = x.a[1]
        if x.k == "agg" and x.a[0] == "Iter" and agg_get(x, "dom").k == "seq":
            items = agg_get(x, "dom").a[1]
        if items is not None:
            t = v
            for it in items:
                t = ts_append(t, ts_of_token(it))
            eng.write(st, r, p, t, ctx.span)
            return ret(st, UNIT)
        if x.k in ("ts",):
            eng.write(st, r, p, ts_append(v, x), ctx.span)
            return ret(st, UNIT)
    out = []
    for s, it in to_iter(eng, st, x, ctx.argtys[1], ctx):
        for s2, coll in drain(eng, s, it, ctx.sub("extend"), "Vec"):
            v2 = eng.read(s2, r, p)
            if "TokenStream" in tn:
                nv = ts_append(v2, mk("ts", None, (("interp", coll),)))
            elif "HashMap" in tn or "BTreeMap" in tn:
                nv = call("map_extend", (v2, coll))
            else:
                nv = seqcat(v2, coll)
            eng.write(s2, r, p, nv, ctx.span)
            out.append((s2, UNIT))
    return out


@m("HashMap::insert", "BTreeMap::insert", "HashSet::insert", "BTreeSet::insert")
def map_insert(eng, st, cd, args, ctx):
    r, p, v = place_of(eng, st, args[0])
    old = call("map_get_opt", (v, args[1]))
    if len(args) == 2:
        eng.write(st, r, p, call("map_insert", (v, args[1], UNIT)), ctx.span)
        return ret(st, call("set_fresh", (v, args[1])))
    key = eng.snapshot(st, args[1])
    if v.k == "call" and v.a[0] == "map_remove" and v.a[1][1] is key:
        v = v.a[1][0]
    eng.write(st, r, p, call("map_insert", (v, key, eng.snapshot(st, args[2]))), ctx.span)
    return ret(st, old)


def map_has(v, key):
    """lookup of a key in a map term, as an option: decided where the term says so"""
    if v.k == "choice":
        return mkchoice([(g, map_has(x, key)) for g, x in v.a[0]])
    if v.k == "call" and v.a[0] == "map_insert" and v.a[1][1] is key:
        return some(v.a[1][2])
    if v.k == "call" and v.a[0] == "map_remove" and v.a[1][1] is key:
        return NONE
    if v.k == "upd" and any(q and q[0] == ("key", key) for q, _ in v.a[1]) and v.a[0].k == "choice":
        # written below that key: it is there where it was before
        return map_has(v.a[0], key)
    if v.k == "upd" and v.a[0].k == "call" and all(q and q[0][0] == "key" for q, _ in v.a[1]):
        x = map_has(v.a[0], key)
        if x.k == "agg":
            return x
    return call("map_get_opt", (v, key))


@m("HashMap::get", "HashMap::get_mut", "BTreeMap::get", "HashMap::contains_key", "HashMap::get_key_value", "HashMap::remove", "BTreeMap::contains_key")
def map_get(eng, st, cd, args, ctx):
    r, p, v = place_of(eng, st, args[0])
    key = eng.snapshot(st, args[1])
    k = key_of(cd)
    t = call("map_get_opt", (v, key))
    conc = map_lookup(v, key)
    if conc is None:
        t = map_has(v, key)
    if k.endswith("contains_key"):
        if conc is not None:
            return ret(st, cbool(conc is not NONE))
        return [(s, cbool(n == "Some")) for s, x, n in eng.branch_variant(st, t, OPTION)]
    if k.endswith("remove"):
        eng.write(st, r, p, call("map_remove", (v, key)), ctx.span)
        return ret(st, t)
    if conc is not None and k.endswith("::get"):
        if conc is NONE:
            return ret(st, NONE)
        return ret(st, some(valref(get(conc, SP))))
    out = []
    for s, x, n in eng.branch_variant(st, t, OPTION):
        if n == "Some":
            out.append((s, some(ref(r, p + (("key", key),)))))
        else:
            out.append((s, NONE))
    return eng_merge(eng, out)


def map_lookup(v, key):
    """lookup in a map built from constant keys; None if unknown"""
    if key.k != "c":
        return None
    if v.k == "call" and v.a[0] == "map_insert":
        if v.a[1][1] is key:
            return some(v.a[1][2])
        if v.a[1][1].k == "c":
            return map_lookup(v.a[1][0], key)
        return None
    if v.k == "call" and v.a[0] == "map_from":
        s = v.a[1][0]
        if s.k == "seq" and s.a[0] is None:
            hit = NONE
            for it in s.a[1]:
                if it.k != "agg":
                    return None
                kk = agg_get(it, "0")
                if kk.k != "c":
                    return None
                if kk is key:
                    hit = some(agg_get(it, "1"))
            return hit
    return None


@m("HashMap::entry", "BTreeMap::entry")
def map_entry(eng, st, cd, args, ctx):
    r, p, v = place_of(eng, st, args[0])
    key = eng.snapshot(st, args[1])
    e = mk("entry", ref(r, p), key)
    adt = eng.p.ty(ctx.destty)[1]
    return [(s, agg(adt, "Occupied" if n == "Some" else "Vacant", [("0", e)])) for s, x, n in eng.branch_variant(st, map_has(v, key), OPTION)]


def entry_arg(eng, st, t):
    e = eng.resolve(st, t)
    while e.k == "ref" or e.k == "at":
        r, p = eng.deref(st, e)
        e = eng.resolve(st, eng.read(st, r, p))
    return e


@m("OccupiedEntry::into_mut", "OccupiedEntry::get_mut", "OccupiedEntry::get", "VacantEntry::insert", "OccupiedEntry::insert", "VacantEntry::key", "OccupiedEntry::key")
def entry_sub(eng, st, cd, args, ctx):
    e = entry_arg(eng, st, args[0])
    if e.k != "entry":
        return None
    (r, p), key = e.a[0].a, e.a[1]
    k = key_of(cd)
    pl = p + (("key", key),)
    if k.endswith("::key"):
        return ret(st, valref(key))
    if k.endswith("::insert"):
        old = eng.read(st, r, pl) if k.startswith("Occ") else None
        eng.write(st, r, pl, eng.snapshot(st, args[1]), ctx.span)
        return ret(st, old if old is not None else ref(r, pl))
    return ret(st, ref(r, pl))


@m("Entry::and_modify")
def entry_modify(eng, st, cd, args, ctx):
    e = eng.resolve(st, args[0])
    if e.k != "agg" or e.a[2][0][1].k != "entry":
        return None
    if e.a[1] == "Vacant":
        return ret(st, e)
    (r, p), key = e.a[2][0][1].a[0].a, e.a[2][0][1].a[1]
    return [(s, e) for s, _ in eng.call_value(st, args[1], [ref(r, p + (("key", key),))], ctx.sub("f"))]


@m("Entry::or_insert_with", "Entry::or_insert", "Entry::or_default", "Entry::or_insert_with_key")
def entry_or(eng, st, cd, args, ctx):
    e = eng.resolve(st, args[0])
    if e.k == "choice":
        return [y for s, x in eng.split(st, e) for y in entry_or(eng, s, cd, (x,) + tuple(args[1:]), ctx)]
    if e.k != "agg" or e.a[2][0][1].k != "entry":
        return None
    vacant, e = e.a[1] == "Vacant", e.a[2][0][1]
    (r, p), key = e.a[0].a, e.a[1]
    pl = p + (("key", key),)
    if not vacant:
        return ret(st, ref(r, pl))
    out = []
    k = key_of(cd)
    if k == "Entry::or_insert":
        rs = [(st, args[1])]
    elif k == "Entry::or_default":
        t2 = eng.p.ty(ctx.destty)
        rs = [(st, default_of(eng, t2[2]))]
    else:
        rs = eng.call_value(st, args[1], [valref(key)] if k.endswith("key") else [], ctx.sub("f"))
    for s2, v in rs:
        eng.write(s2, r, pl, v, ctx.span)
        out.append((s2, ref(r, pl)))
    return eng_merge(eng, out)


@m("HashMap::values", "HashMap::keys", "HashMap::into_values", "HashMap::into_keys", "BTreeMap::values", "BTreeMap::keys")
def map_values(eng, st, cd, args, ctx):
    k = key_of(cd)
    into = "into_" in k
    it = mkiter(eng, st, args[0], "val" if into else "map", None, ctx)
    f = "0" if k.endswith("keys") else "1"
    return ret(st, add_adapter(it, agg("ad", "field", [("0", cstr(f))])))


# ---- iterators ---------------------------------------------------------------------------
# agg Iter { src: ref term | value, dom: collection, pos: int term, mode: ref|val|map|once, ads: seq of adapters }
def mkiter(eng, st, v, mode, dom, ctx):
    """v: reference (mode ref/map) or value (mode val)"""
    if mode in ("ref", "map"):
        r, p, cv = place_of(eng, st, v)
        src = ref(r, p)
        d = strip_elems(cv)
    else:
        src = v
        d = strip_elems(v)
    if d.k == "call" and d.a[0] == "map_from" and mode != "ref":
        pass
    return agg("Iter", None, [("src", src), ("dom", d), ("pos", cint(0)), ("mode", sym(mode)), ("ads", mk("seq", None, ()))])


def mkiter_opt(eng, v):
    """iterator over an Option<&T>"""
    return agg("Iter", None, [("src", v), ("dom", v), ("pos", cint(0)), ("mode", sym("opt")), ("ads", mk("seq", None, ()))])


def add_adapter(it, ad):
    ads = agg_get(it, "ads")
    return put(it, (("f", "ads"),), mk("seq", None, ads.a[1] + (ad,)))


def is_iter(v):
    return v.k == "agg" and v.a[0] == "Iter"


@m("slice::iter", "slice::iter_mut", "Punctuated::iter", "Punctuated::iter_mut", "HashMap::iter", "HashMap::iter_mut", "Vec::iter", "Vec::drain", "HashMap::drain", "BTreeMap::iter",
   "Punctuated::pairs", "Punctuated::pairs_mut")
def it_iter(eng, st, cd, args, ctx):
    k = key_of(cd)
    if k.endswith("drain"):
        r, p, v = place_of(eng, st, args[0])
        eng.write(st, r, p, mk("seq", None, ()), ctx.span)
        return ret(st, mkiter(eng, st, v, "val", None, ctx))
    mode = "map" if k.split("::")[0] in ("HashMap", "BTreeMap") else "ref"
    return ret(st, mkiter(eng, st, args[0], mode, None, ctx))


@m("IntoIterator::into_iter")
def into_iter(eng, st, cd, args, ctx):
    return to_iter(eng, st, args[0], ctx.argtys[0], ctx)


def to_iter(eng, st, v, ty, ctx):
    v = eng.resolve(st, v)
    if is_iter(v):
        return [(st, v)]
    if v.k == "choice":
        out = []
        for s, x in eng.split(st, v):
            out.extend(to_iter(eng, s, x, ty, ctx))
        return out
    t = eng.p.ty(ty) if ty is not None else None
    if t is not None and t[0] == "ref":
        inner = eng.p.tname(t[2])
        if inner.startswith("std::option::Option"):
            r, p = eng.deref(st, v)
            return on_option(eng, st, eng.read(st, r, p), lambda s, x: [(s, mkiter_opt(eng, some(ref(r, p + SP))))], lambda s: [(s, mkiter_opt(eng, NONE))])
        lv = eng.load(st, v)
        if is_iter(lv):
            return [(st, mk("byref", v))]
        return [(st, mkiter(eng, st, v, "map" if "HashMap" in inner or "BTreeMap" in inner else "ref", None, ctx))]
    if t is not None and eng.p.tname(ty).startswith("std::option::Option"):
        return [(st, mkiter_opt(eng, v))]
    if v.k == "agg" and v.a[0].endswith("::Range"):
        lo, hi = agg_get(v, "start"), agg_get(v, "end")
        if lo.k == "c" and hi.k == "c":
            return [(st, mkiter(eng, st, mk("seq", None, tuple(cint(i) for i in range(lo.a[1], hi.a[1]))), "val", None, ctx))]
        d = hi.a[0] if hi.k == "len" and lo is cint(0) else call("range", (lo, hi))
        return [(st, agg("Iter", None, [("src", lo), ("dom", d), ("pos", cint(0)), ("mode", sym("range")), ("ads", mk("seq", None, ()))]))]
    return [(st, mkiter(eng, st, v, "val", None, ctx))]


ADAPT = {"map": 1, "enumerate": 0, "filter": 1, "filter_map": 1, "flat_map": 1, "flatten": 0, "cloned": 0, "copied": 0, "rev": 0, "take": 1,
         "skip": 1, "peekable": 0, "zip": 1, "chain": 1, "inspect": 1, "take_while": 1, "skip_while": 1, "map_while": 1, "by_ref": 0, "fuse": 0}


def fixed(it):
    """the items of an untouched iterator over a list of known length"""
    d = agg_get(it, "dom")
    if agg_get(it, "mode") is sym("val") and agg_get(it, "pos") is cint(0) and not agg_get(it, "ads").a[1] and d.k == "seq" and d.a[0] is None and d is agg_get(it, "src") and not any(x.k == "spread" for x in d.a[1]):
        return d.a[1]
    return None


@m("RangeInclusive::new")
def range_new(eng, st, cd, args, ctx):
    return ret(st, agg("core::ops::range::RangeInclusive", None, [("start", args[0]), ("end", args[1])]))


@m("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains")
def range_contains(eng, st, cd, args, ctx):
    r, x = eng.load(st, args[0]), eng.load(st, args[1])
    if r.k != "agg":
        return None
    ends = dict(r.a[2])
    tests = []
    if "start" in ends:
        tests.append(("Le", ends["start"], x))
    if "end" in ends:
        tests.append(("Le" if "Inclusive" in r.a[0] else "Lt", x, ends["end"]))
    out, cur = [], [st]
    for op, a, b in tests:
        nxt = []
        for s in cur:
            for s2, ok in eng.branch_bool(s, eng.mkbin(op, a, b)):
                if ok:
                    nxt.append(s2)
                else:
                    out.append((s2, FALSE))
        cur = nxt
    out.extend((s, TRUE) for s in cur)
    return eng_merge(eng, out)


@m("iter::once", "iter::empty", "sources::once", "sources::empty")
def iter_once(eng, st, cd, args, ctx):
    return ret(st, mkiter(eng, st, mk("seq", None, tuple(args)), "val", None, ctx))


@m("__private::mk_ident")
def mk_ident(eng, st, cd, args, ctx):
    return ret(st, call("Ident::new", (eng.snapshot(st, args[0]),)))


def optional(it):
    """the items of an iterator over one optional value or a list of known length, as options"""
    if agg_get(it, "ads").a[1]:
        return None
    if agg_get(it, "mode").a[0] == "opt" and agg_get(it, "pos") is cint(0):
        return [agg_get(it, "dom")]
    x = fixed(it)
    return None if x is None else [some(y) for y in x]


def adapter(name):
    def f(eng, st, cd, args, ctx):
        v = args[0]
        if name == "by_ref":
            return ret(st, v)
        if v.k == "choice":
            raise Split(v)
        if not is_iter(v):
            v2 = to_iter(eng, st, v, ctx.argtys[0], ctx)[0][1]
            if not is_iter(v2):
                return None
            v = v2
        extra = [("0", args[1])] if len(args) > 1 else []
        if name == "chain" or name == "zip":
            o = to_iter(eng, st, args[1], ctx.argtys[1], ctx)[0][1]
            if name == "chain" and fixed(v) is not None and is_iter(o) and fixed(o) is not None:
                return ret(st, mkiter(eng, st, mk("seq", None, fixed(v) + fixed(o)), "val", None, ctx))
            if name == "chain" and is_iter(o):
                a, b = optional(v), optional(o)
                if a is not None and b is not None:
                    return ret(st, add_adapter(mkiter(eng, st, mk("seq", None, tuple(a + b)), "val", None, ctx), agg("ad", "flatten", [("opt", TRUE)])))
            extra = [("0", o)]
        if name == "flatten" and ctx.argtys[0] is not None:
            tn = eng.p.tname(eng.p.strip(ctx.argtys[0]))
            x = re.search(r"(?:IntoIter|IterMut|Iter|Once)<(.*)$", tn)
            if x and re.match(r"(?:'\w+, *)?(?:&(?:'\w+ )?(?:mut )?)?(?:std|core)::option::Option<", x.group(1)):
                extra = [("opt", TRUE)]
        return ret(st, add_adapter(v, agg("ad", name, extra)))
    return f


for _n in ADAPT:
    REG["Iterator::" + _n] = adapter(_n)


@m("quote_into_iter", "RepIteratorExt::quote_into_iter", "ext::quote_into_iter", "RepAsIteratorExt::quote_into_iter", "RepToTokensExt::quote_into_iter")
def quote_into_iter(eng, st, cd, args, ctx):
    v = args[0]
    if not is_iter(v):
        v = to_iter(eng, st, v, ctx.argtys[0], ctx)[0][1]
    return ret(st, tup(v, mk("hasiter")))


@m("CheckHasIterator::check", "BitOr::bitor")
def bitor(eng, st, cd, args, ctx):
    if key_of(cd).startswith("Check"):
        return ret(st, UNIT)
    return ret(st, eng.mkbin("BitOr", args[0], args[1]))


@m("Not::not")
def not_(eng, st, cd, args, ctx):
    return ret(st, eng.mknot(args[0]))


def backwards(it):
    """the elements come from the end"""
    return any(a.a[1] == "rev" for a in agg_get(it, "ads").a[1])


def base_item(eng, st, it, at=None):
    """[(state, item|None, iterator after)]; consumes one element of the underlying collection"""
    dom, pos, src, mode = (agg_get(it, x) for x in ("dom", "pos", "src", "mode"))
    mode = mode.a[0]
    if mode == "opt":
        out = []
        if pos is not cint(0):
            return [(st, None, it)]
        for s, x, n in eng.branch_variant(st, dom, OPTION):
            if n == "Some":
                out.append((s, get(x, SP), put(it, (("f", "pos"),), cint(1))))
            else:
                out.append((s, None, it))
        return out
    d = dom
    items = None
    if d.k == "call" and d.a[0] == "map_from":
        items = d.a[1][0]
    elif d.k == "seq":
        items = d
    if items is not None and items.k == "seq" and items.a[0] is None and not any(x.k == "spread" for x in items.a[1]) and pos.k == "c":
        i = pos.a[1]
        n = len(items.a[1])
        eng.fixednexts.append(at)
        if i < n:
            nxt = put(it, (("f", "pos"),), cint(i + 1))
            if backwards(it):
                i = n - 1 - i
            if mode == "ref":
                r, p = src.a
                item = ref(r, p + (("e", cint(i)),))
            elif mode == "map":
                e = items.a[1][i]
                item = tup(valref(get(e, (("f", "0"),))), valref(get(e, (("f", "1"),))))
            else:
                item = items.a[1][i]
            return [(st, item, nxt)]
        return [(st, None, it)]
    return None


def symbolic_next(eng, st, it, ctx):
    dom, pos, src, mode = (agg_get(it, x) for x in ("dom", "pos", "src", "mode"))
    pos = eng.resolve(st, pos)
    base, off = eng.linear(pos)
    out = []
    eng.hasforks.append((ctx.fr.id, ctx.b))
    for s, b in eng.branch_bool(st, mk("has", dom, base, off)):
        if not b:
            out.append((s, None, it))
            continue
        m_ = mode.a[0]
        at = mk("idxrev", dom, pos) if backwards(it) else pos
        if m_ == "ref":
            r, p = src.a
            item = ref(r, p + (("e", at),))
        elif m_ == "range":
            item = mk("idx", dom, base)
            if off:
                item = eng.mkbin("Add", item, cint(off))
            if at is not pos:
                item = mk("idxrev", dom, item)
        elif m_ == "map":
            r, p = src.a
            item = tup(ref(r, p + (("e", at), ("f", "0"))), ref(r, p + (("e", at), ("f", "1"))))
        else:
            item = get(src, (("e", at),))
            if src.k == "ts" or src.k != "seq":
                item = mk("pr", src, ("e", at)) if src.k != "upd" else get(src, (("e", at),))
        out.append((s, item, put(it, (("f", "pos"),), eng.mkbin("Add", pos, cint(1)))))
    return out


def raw_next(eng, st, it, ctx):
    r = base_item(eng, st, it, (ctx.fr.id, ctx.b))
    if r is None:
        r = symbolic_next(eng, st, it, ctx)
    return r


def has_flat(it):
    return any(a.a[1] in ("flat_map", "flatten") for a in agg_get(it, "ads").a[1])


def step(eng, st, it, ctx):
    """one attempt: [(state, kind, item, iterator)] with kind in item|skip|end"""
    out = []
    pos0 = agg_get(it, "pos")
    for s, item, it2 in raw_next(eng, st, it, ctx):
        if item is None:
            out.append((s, "end", None, it2))
            continue
        cur = [(s, "item", item)]
        for ai, ad in enumerate(agg_get(it, "ads").a[1]):
            nxt = []
            kind = ad.a[1]
            fn = agg_get(ad, "0")
            for s1, k1, x in cur:
                if k1 != "item":
                    nxt.append((s1, k1, x))
                    continue
                c2 = ctx.sub("ad%d" % ai)
                if kind == "map":
                    nxt.extend((s2, "item", v) for s2, v in eng.call_value(s1, fn, [x], c2))
                elif kind == "enumerate":
                    dom = agg_get(it, "dom")
                    idx = pos0 if pos0.k == "c" else mk("idx", dom, pos0)
                    base, off = eng.linear(pos0)
                    if pos0.k != "c":
                        idx = mk("idx", dom, base)
                        if off:
                            idx = eng.mkbin("Add", idx, cint(off))
                    if any(a.a[1] in ("filter", "filter_map", "skip", "rev", "skip_while", "flat_map", "chain", "step_by") for a in agg_get(it, "ads").a[1][:ai]):
                        idx = mk("rank", it, pos0)
                    nxt.append((s1, "item", tup(idx, x)))
                elif kind == "filter":
                    for s2, v in eng.call_value(s1, fn, [valref(x)], c2):
                        for s3, b in eng.branch_bool(s2, v):
                            nxt.append((s3, "item" if b else "skip", x))
                elif kind == "filter_map":
                    for s2, v in eng.call_value(s1, fn, [x], c2):
                        for s3, y, n in eng.branch_variant(s2, v, OPTION):
                            nxt.append((s3, "item", get(y, SP)) if n == "Some" else (s3, "skip", None))
                elif kind in ("take_while", "map_while"):
                    for s2, v in eng.call_value(s1, fn, [valref(x) if kind == "take_while" else x], c2):
                        if kind == "take_while":
                            for s3, b in eng.branch_bool(s2, v):
                                nxt.append((s3, "item" if b else "end", x))
                        else:
                            for s3, y, n in eng.branch_variant(s2, v, OPTION):
                                nxt.append((s3, "item", get(y, SP)) if n == "Some" else (s3, "end", None))
                elif kind == "inspect":
                    nxt.extend((s2, "item", x) for s2, v in eng.call_value(s1, fn, [valref(x)], c2))
                elif kind in ("cloned", "copied"):
                    nxt.append((s1, "item", eng.load(s1, x)))
                elif kind == "field":
                    nxt.append((s1, "item", get(x, (("f", fn.a[1]),))))
                elif kind == "take":
                    t = mk("bin", "Lt", mk("count", agg_get(it, "dom"), pos0), fn)
                    if pos0.k == "c" and fn.k == "c":
                        nxt.append((s1, "item" if pos0.a[1] < fn.a[1] else "end", x))
                    else:
                        e = fn
                        # take(len - 1): stop before the last element
                        if pos0.k != "c":
                            base, off = eng.linear(pos0)
                            i = mk("idx", agg_get(it, "dom"), base)
                            t = eng.mkbin("Lt", eng.mkbin("Add", i, cint(off)) if off else i, fn)
                        for s3, b in eng.branch_bool(s1, t):
                            nxt.append((s3, "item" if b else "end", x))
                elif kind == "skip":
                    if pos0.k == "c" and fn.k == "c":
                        nxt.append((s1, "item" if pos0.a[1] >= fn.a[1] else "skip", x))
                    else:
                        base, off = eng.linear(pos0)
                        t = mk("bin", "Lt", pos0, fn)
                        for s3, b in eng.branch_bool(s1, t):
                            nxt.append((s3, "skip" if b else "item", x))
                elif kind == "zip":
                    o = fn
                    if is_iter(o):
                        y = get(agg_get(o, "src"), (("e", pos0),))
                        if agg_get(o, "mode").a[0] == "ref":
                            rr, pp = agg_get(o, "src").a
                            y = ref(rr, pp + (("e", pos0),))
                        elif agg_get(o, "mode").a[0] == "range":
                            lo = agg_get(o, "src")
                            y = pos0 if lo is cint(0) else eng.mkbin("Add", pos0, lo)
                            if lo is cint(0) and pos0.k != "c":
                                base, off = eng.linear(pos0)
                                y = mk("idx", agg_get(it, "dom"), base)
                    else:
                        y = get(o, (("e", pos0),))
                    nxt.append((s1, "item", tup(x, y)))
                elif kind in ("flat_map", "flatten"):
                    if kind == "flat_map":
                        rs = eng.call_value(s1, fn, [x], c2)
                    else:
                        rs = [(s1, x)]
                    for s2, v in rs:
                        o = eng.resolve(s2, v)
                        if o.k == "ref" and agg_get(ad, "opt") is not None:
                            r, p = o.a
                            for s3, y, n in eng.branch_variant(s2, eng.read(s2, r, p), OPTION):
                                nxt.append((s3, "item", ref(r, p + SP)) if n == "Some" else (s3, "skip", None))
                        elif agg_get(ad, "opt") is not None or (o.k == "agg" and o.a[0] == OPTION) or (o.k == "choice" and all(y.k == "agg" and y.a[0] == OPTION for _, y in o.a[0])):
                            for s3, y, n in eng.branch_variant(s2, o, OPTION):
                                nxt.append((s3, "item", get(y, SP)) if n == "Some" else (s3, "skip", None))
                        else:
                            nxt.append((s2, "item", mk("flat", v)))
                elif kind in ("rev", "peekable", "fuse"):
                    nxt.append((s1, "item", x))
                elif kind == "skip_while":
                    nxt.append((s1, "item", x))
                else:
                    nxt.append((s1, "item", mk("adapted", cstr(kind), x)))
            cur = nxt
        out.extend((s1, k1, x, it2) for s1, k1, x in cur)
    return out


@m("Iterator::next", "Peekable::next", "DoubleEndedIterator::next_back")
def it_next(eng, st, cd, args, ctx):
    r, p = eng.deref(st, args[0])
    it = eng.read(st, r, p)
    it = eng.resolve(st, it)
    if it.k == "choice":
        raise Split(it)
    if it.k == "byref":
        r, p = eng.deref(st, it.a[0])
        it = eng.read(st, r, p)
    if not is_iter(it):
        if it.k in ("ref",):
            r, p = it.a
            it = eng.read(st, r, p)
        if not is_iter(it):
            return None
    if key_of(cd).endswith("next_back"):
        return next_back(eng, st, r, p, it, ctx)
    if any(a.a[1] == "chain" for a in agg_get(it, "ads").a[1]):
        return None
    out = []
    pos = eng.resolve(st, agg_get(it, "pos"))
    if pos.k == "choice" and all(x.k == "c" for _, x in pos.a[0]):
        work = [w for s, x in eng.split(st, pos) for w in step(eng, s, put(it, (("f", "pos"),), x), ctx)]
    else:
        work = step(eng, st, put(it, (("f", "pos"),), pos), ctx)
    n = 0
    while work:
        s, k, x, it2 = work.pop(0)
        eng.write(s, r, p + (("f", "pos"),), agg_get(it2, "pos"), ctx.span)
        if k == "skip":
            if agg_get(it2, "pos").k == "c":
                n += 1  # a list of known length: the next element is tried
                work.extend(step(eng, s, it2, ctx.sub("skip%d" % n)))
            continue  # some later element is the one returned; the skipped prefix leaves no trace
        if k == "item" and x.k == "flat":
            x = call("flat_item", (x.a[0],), ctx.uid("flat"))
        out.append((s, some(x) if k == "item" else NONE))
    return out


@m("Iterator::nth")
def it_nth(eng, st, cd, args, ctx):
    """the element n places on, for a constant n"""
    n = eng.resolve(st, args[1])
    if n.k != "c" or n.a[1] > 8:
        return None
    cur, out = [st], []
    for i in range(n.a[1] + 1):
        nxt = []
        for s in cur:
            rs = it_next(eng, s, cd, args, ctx.sub("n%d" % i))
            if rs is None:
                return None
            for s2, x in rs:
                if x is NONE or i == n.a[1]:
                    out.append((s2, x))
                else:
                    nxt.append(s2)
        cur = nxt
    return eng_merge(eng, out)


def next_back(eng, st, r, p, it, ctx):
    """last element of a fresh iterator"""
    if any(a.a[1] in ("chain", "rev", "take", "take_while", "zip", "map_while", "skip_while", "flat_map", "flatten", "filter", "filter_map", "enumerate", "skip") for a in agg_get(it, "ads").a[1]):
        return None
    dom, pos, src, mode = (agg_get(it, x) for x in ("dom", "pos", "src", "mode"))
    items = dom if dom.k == "seq" and dom.a[0] is None else None
    out = []
    if items is not None:
        n = len(items.a[1])
        cond = cbool(n > 0)
    else:
        cond = mk("has", dom, cint(0), 0)
    for s, b in eng.branch_bool(st, cond):
        if not b:
            out.append((s, NONE))
            continue
        if mode.a[0] == "ref":
            rr, pp = src.a
            item = ref(rr, pp + (("last", 1),))
        else:
            item = get(src, (("last", 1),))
        eng.write(s, r, p, mk("iter_after_back", it), ctx.span)
        cur = [(s, item)]
        for ai, ad in enumerate(agg_get(it, "ads").a[1]):
            if ad.a[1] == "map":
                cur = [(s2, v) for s1, x in cur for s2, v in eng.call_value(s1, agg_get(ad, "0"), [x], ctx.sub("ad%d" % ai))]
            elif ad.a[1] in ("cloned", "copied"):
                cur = [(s1, eng.load(s1, x)) for s1, x in cur]
        out.extend((s1, some(x)) for s1, x in cur)
    return eng_merge(eng, out)


@m("slice::last", "slice::last_mut", "slice::first", "slice::first_mut", "Punctuated::last", "Punctuated::last_mut", "Punctuated::first", "Punctuated::first_mut", "Vec::last", "Iterator::last")
def sl_last(eng, st, cd, args, ctx):
    k = key_of(cd)
    if k == "Iterator::last":
        it = args[0]
        if not is_iter(it):
            return None
        root = ("L", ctx.fresh("it"), "it")
        st.mem[root] = it
        return next_back(eng, st, root, (), it, ctx)
    r, p, v = place_of(eng, st, args[0])
    D = strip_elems(v)
    cond = mk("has", D, cint(0), 0)
    if D.k == "seq" and D.a[0] is None:
        cond = cbool(bool(D.a[1]))
    out = []
    for s, b in eng.branch_bool(st, cond):
        if not b:
            out.append((s, NONE))
        elif "last" in k:
            if D.k == "seq" and D.a[0] is None:
                out.append((s, some(ref(r, p + (("e", cint(len(D.a[1]) - 1)),)))))
            elif D.k == "seq" and D.a[1] and D.a[1][-1].k != "spread":
                out.append((s, some(valref(D.a[1][-1]))))
            else:
                out.append((s, some(ref(r, p + (("last", 1),)))))
        else:
            out.append((s, some(ref(r, p + (("e", cint(0)),)))))
    return eng_merge(eng, out)


@m("slice::split_last", "slice::split_last_mut", "slice::split_first", "slice::split_first_mut")
def split_last(eng, st, cd, args, ctx):
    k = key_of(cd)
    r, p, v = place_of(eng, st, args[0])
    D = strip_elems(v)
    out = []
    for s, b in eng.branch_bool(st, mk("has", D, cint(0), 0)):
        if not b:
            out.append((s, NONE))
        elif "last" in k:
            out.append((s, some(tup(ref(r, p + (("last", 1),)), ref(r, p + (("sub", 0, 1, True),))))))
        else:
            out.append((s, some(tup(ref(r, p + (("e", cint(0)),)), ref(r, p + (("sub", 1, 0, True),))))))
    return eng_merge(eng, out)


@m("slice::get", "slice::get_mut", "Vec::get", "Punctuated::get", "Punctuated::get_mut", "Index::index", "IndexMut::index_mut", "slice::get_unchecked")
def sl_get(eng, st, cd, args, ctx):
    k = key_of(cd)
    r, p, v = place_of(eng, st, args[0])
    i = args[1]
    tn = eng.p.tname(eng.p.strip(ctx.argtys[0])) if ctx.argtys[0] is not None else ""
    if "HashMap" in tn or "BTreeMap" in tn:
        if "Index" in k and not _index_lt(eng, st, args, ctx):
            eng.panic(st, ctx.fr, "index", ctx.span, i)
        return ret(st, ref(r, p + (("key", eng.snapshot(st, i)),)))
    if i.k == "agg":  # ranges
        if "Index" in k and not (i.a[0].endswith("RangeFull") or (i.a[0].endswith("RangeFrom") and _index_le(eng, st, [args[0], agg_get(i, "start")], ctx)) or (i.a[0].endswith("RangeTo") and _index_le(eng, st, [args[0], agg_get(i, "end")], ctx))):
            eng.panic(st, ctx.fr, "index", ctx.span, i)
        return ret(st, valref(call("slice", (v, i))) if "Index" in k else call("slice_opt", (v, i)))
    key = ("e", eng.idx_key(i))
    if "Index" in k:
        if not _index_lt(eng, st, args, ctx):
            base, off = eng.linear(i)
            eng.panic(st, ctx.fr, "index", ctx.span, mk("has", strip_elems(v), base, off))
        return ret(st, ref(r, p + (key,)))
    D = strip_elems(v)
    if i.k == "c":
        cond = mk("has", D, cint(0), i.a[1])
        if D.k == "seq" and D.a[0] is None:
            cond = cbool(i.a[1] < len(D.a[1]))
    elif i.k == "idx":
        cond = mk("has", D, i.a[1], 0)
    else:
        cond = mk("bin", "Lt", i, eng.length(v))
    return eng_merge(eng, [(s, some(ref(r, p + (key,))) if b else NONE) for s, b in eng.branch_bool(st, cond)])


@m("Peekable::peek", "Peekable::peek_mut", "Peekable::next_if")
def peek(eng, st, cd, args, ctx):
    r, p = eng.deref(st, args[0])
    it = eng.read(st, r, p)
    if not is_iter(it):
        return None
    out = []
    s0 = st.fork()
    for s, k, x, it2 in step(eng, s0, it, ctx.sub("peek")):
        out.append((s, some(valref(x)) if k == "item" else NONE))
    return out


def run_iter(eng, st, it, ctx, body, span=None):
    """drive an iterator to exhaustion. body(state, item) -> [(state, 'cont', yields) | (state, 'break', value)].
    returns ([(state at exhaustion, list of yields or None)], [(state, break value)], loop event or None)"""
    dom = agg_get(it, "dom")
    ads = agg_get(it, "ads").a[1]
    for i, ad in enumerate(ads):
        if ad.a[1] == "chain":
            return run_chain(eng, st, it, ads[:i], agg_get(ad, "0"), ads[i + 1:], ctx, body, span)
    d = dom
    if d.k == "call" and d.a[0] == "map_from":
        d = d.a[1][0]
    if (d.k == "seq" and d.a[0] is None and not any(x.k == "spread" for x in d.a[1]) and agg_get(it, "pos").k == "c") or agg_get(it, "mode").a[0] == "opt":
        states = [(st, it, ())]
        done, brk = [], []
        ic = eng.ictx
        try:
            for i in range(400):
                if not states:
                    break
                eng.ictx = ic + (("ci", ctx.uid("run"), i),)
                nxt = []
                for s, itx, ys in states:
                    for s2, k, x, it2 in step(eng, s, itx, ctx.sub("n")):
                        if k == "end":
                            done.append((s2, ys))
                        elif k == "skip":
                            nxt.append((s2, it2, ys))
                        else:
                            for s3, kk, v in body(s2, x):
                                if kk == "break":
                                    brk.append((s3, v))
                                else:
                                    nxt.append((s3, it2, ys + ((v,) if v is not None else ())))
                # merge by events
                states = merge_tuples(eng, nxt)
        finally:
            eng.ictx = ic
        return done, brk, None
    uid = ctx.uid("sloop")
    root = ("L", ("it", ctx.fr.id, uid), "it")
    st.mem[root] = it
    yields = {}

    def lbody(s):
        backs, exits = [], []
        yields.clear()
        cur = s.mem[root]
        for s2, k, x, it2 in step(eng, s, cur, ctx.sub("n")):
            eng.write(s2, root, (("f", "pos"),), agg_get(it2, "pos"))
            if k == "end":
                exits.append((("done", None), s2))
            elif k == "skip":
                backs.append(s2)
                yields[id(s2)] = (s2, None)
            else:
                for s3, kk, v in body(s2, x):
                    if kk == "break":
                        s3.mem[("L", "brk", uid)] = v
                        exits.append((("brk", None), s3))
                    else:
                        if v is not None:
                            s3.mem[("L", "yield", uid)] = v
                        backs.append(s3)
        yk = ("L", "yield", uid)
        backs = eng.merge([b for b in backs if yk in b.mem]) + eng.merge([b for b in backs if yk not in b.mem])
        yields.clear()
        for b in backs:
            yields[id(b)] = (b, b.mem.pop(("L", "yield", uid), None))
        # exits that share their trace are joined (several ways to break out of the same iteration)
        groups = {}
        for (k, _), x in exits:
            groups.setdefault(k, []).append(x)
        return backs, [((k, None), x) for k, xs in groups.items() for x in xs]

    outs = eng.fixloop(uid, st, lbody, ctx.span)
    ev = eng.loop_events[uid]
    posphi = [t for t in ev.extra["phis"] if t.a[2] and t.a[2][-1] == ("f", "pos") and t.a[1] == root]
    sub = {t: sym("$e") for t in posphi}
    ys = []
    for b, v in yields.values():
        if v is None:
            continue
        base = ev.extra["entry"].facts
        F = conds.drop(eng.local(b.pc, ev.extra["entry"].pc, base), lambda k: k.k == "has" and k.a[2] == 0 and k.a[1] in sub)
        ys.append((subst_cond(F, sub), subst(v, sub)))
    skips = any(v is None for _, v in yields.values())
    ev.extra["yields"] = ys
    ev.extra["dom"] = dom
    done, brk = [], []
    for (k, _), s in outs:
        s.mem.pop(root, None)
        if k == "done":
            done.append((s, mk("yields", frozenset(ys), skips)))
        else:
            brk.append((s, s.mem.pop(("L", "brk", uid))))
    return done, brk, ev


def run_chain(eng, st, it, before, second, after, ctx, body, span):
    """one iterator, then the other"""
    first = put(it, (("f", "ads"),), mk("seq", None, tuple(before) + tuple(after)))
    if not is_iter(second):
        second = mkiter(eng, st, second, "val", None, ctx)
    second = put(second, (("f", "ads"),), mk("seq", None, tuple(agg_get(second, "ads").a[1]) + tuple(after)))
    done, brk, ev = run_iter(eng, st, first, ctx.sub("first"), body, span)
    out = []
    for s, ys in done:
        d2, b2, ev2 = run_iter(eng, s, second, ctx.sub("second"), body, span)
        brk = brk + b2
        for s2, ys2 in d2:
            if isinstance(ys, tuple) and isinstance(ys2, tuple):
                out.append((s2, ys + ys2))
            else:
                out.append((s2, mk("chained", tuple((mk("seq", None, y) if isinstance(y, tuple) else y, agg_get(i, "dom")) for y, i in ((ys, first), (ys2, second))))))
    return out, brk, ev


def _sv(v, sub):
    if v[0] == "=":
        return ("=", subst(v[1], sub)) if isinstance(v[1], T) else v
    return v


def merge_tuples(eng, nxt):
    if len(nxt) < 2:
        return nxt
    groups = {}
    for s, it, ys in nxt:
        groups.setdefault((id(s.events) if s.events else 0, it, len(ys)), []).append((s, ys))
    out = []
    for (e, it, n), g in groups.items():
        if len(g) == 1:
            out.append((g[0][0], it, g[0][1]))
            continue
        for s, ys in g:
            s.mem[("L", "ys", 0)] = mk("seq", None, ys)
        j = eng.join([s for s, _ in g])
        y = j.mem.pop(("L", "ys", 0))
        if y.k == "seq":
            out.append((j, it, y.a[1]))
        else:
            # differing element choices: join element-wise
            common = dict(j.facts)
            guards = eng.guards_of([s for s, _ in g], common)
            out.append((j, it, tuple(joinvals(guards, [ys[i] for _, ys in g]) for i in range(n))))
    return out


def is_elem(v, e):
    """v is the element e, maybe a copy or taken apart and put together"""
    while v.k == "at" or (v.k == "call" and v.a[0] == "clone"):
        v = v.a[0] if v.k == "at" else v.a[1][0]
    if v is e:
        return True
    if v.k == "agg" and len(v.a[2]) == 2 and v.a[1] is None or v.k == "agg" and v.a[0] == "tuple":
        return all(is_elem(w, get(e, (("f", f),))) for f, w in v.a[2])
    return False


def finish(eng, st, ys, dom, kind, ctx):
    """the collection value of a finished iteration"""
    if not isinstance(ys, tuple) and ys.k == "chained":
        parts = [finish(eng, st, y.a[1] if y.k == "seq" else y, d, kind, ctx) for y, d in ys.a[0]]
        a, b = parts
        if kind == "map":
            return call("map_extend", (a, b))
        if kind == "string":
            return strcat(a, b)
        if kind == "ts":
            return mk("ts", None, (("interp", a), ("interp", b)))
        if kind == "vec":
            return mk("seq", None, tuple(z for x in parts for z in (x.a[1] if x.k == "seq" and x.a[0] is None else (mk("spread", x),))))
        return call("collect_both", (cstr(kind), a, b))
    if isinstance(ys, tuple):
        items = []
        for y in ys:
            if y.k == "flat":
                f = y.a[0]
                if f.k == "seq" and f.a[0] is None:
                    items.extend(f.a[1])
                elif is_iter(f) and agg_get(f, "dom").k == "seq" and agg_get(f, "dom").a[0] is None and not agg_get(f, "ads").a[1]:
                    items.extend(agg_get(f, "dom").a[1])
                else:
                    items.append(mk("spread", f))
            else:
                items.append(y)
        seq = mk("seq", None, tuple(items))
        if kind == "map":
            return call("map_from", (seq,))
        if kind == "string":
            out = cstr("")
            for i in items:
                out = strcat(out, eng.load(st, i) if i.k == "ref" else i)
            return out
        if kind == "ts":
            t = mk("ts", None, ())
            for i in items:
                t = ts_append(t, ts_of_token(i))
            return t
        return seq
    ysn = frozenset((F, eng.snapshot(st, v)) for F, v in ys.a[0])
    ys2 = mk("yields", ysn, ys.a[1])
    if kind in ("vec",) and len(ysn) == 1 and not ys.a[1]:
        (F, v), = ysn
        if F is conds.YES and is_elem(v, get(dom, (("e", sym("$e")),))):
            return dom
    return call("collect", (cstr(kind), dom, ys2))


def kind_of(n):
    if n.startswith("std::vec::Vec"):
        return "vec"
    if "HashMap" in n or "BTreeMap" in n:
        return "map"
    if "HashSet" in n or "BTreeSet" in n:
        return "set"
    if "TokenStream" in n:
        return "ts"
    if n == "std::string::String":
        return "string"
    if n == "()":
        return "unit"
    return "vec"


@m("Iterator::collect")
def collect(eng, st, cd, args, ctx):
    it = eng.resolve(st, args[0])
    if it.k == "choice":
        raise Split(it)
    if not is_iter(it):
        rs = to_iter(eng, st, it, ctx.argtys[0], ctx)
        if len(rs) != 1 or not is_iter(rs[0][1]):
            return None
        it = rs[0][1]
    dn = eng.p.tname(ctx.destty)
    t = eng.p.ty(ctx.destty)
    dom = agg_get(it, "dom")
    if dn.startswith("std::result::Result") or dn.startswith("std::option::Option"):
        inner = t[2][0]
        isr = dn.startswith("std::result::Result")
        kind = kind_of(eng.p.tname(inner))

        def body(s, x):
            out = []
            for s2, v, n in eng.branch_variant(s, x, RESULT if isr else OPTION):
                if n in ("Ok", "Some"):
                    out.append((s2, "cont", get(v, OP if isr else SP)))
                else:
                    out.append((s2, "break", err(get(v, EP)) if isr else NONE))
            return out

        done, brk, ev = run_iter(eng, st, it, ctx, body)
        out = [(s, (ok if isr else some)(finish(eng, s, ys, dom, kind, ctx))) for s, ys in done]
        out.extend(brk)
        return out
    kind = kind_of(dn)
    done, brk, ev = run_iter(eng, st, it, ctx, lambda s, x: [(s, "cont", x)])
    out = [(s, finish(eng, s, ys, dom, kind, ctx)) for s, ys in done]
    if dn.endswith("path::PathBuf"):
        out = [(s, joined_path(eng, s, v)) for s, v in out]
    return out


def joined_path(eng, st, v):
    """the path made of these parts"""
    if v.k == "seq" and v.a[0] is None and v.a[1] and not any(x.k == "spread" for x in v.a[1]):
        r = eng.snapshot(st, v.a[1][0])
        for x in v.a[1][1:]:
            r = call("path_join", (r, eng.snapshot(st, x)))
        return r
    return call("collect", (cstr("path"), v))


def drain(eng, st, it, ctx, kind):
    dom = agg_get(it, "dom")
    done, brk, ev = run_iter(eng, st, it, ctx, lambda s, x: [(s, "cont", x)])
    return [(s, finish(eng, s, ys, dom, "vec", ctx)) for s, ys in done]


def get_iter(eng, st, a, ctx):
    """consumer argument: iterator by value or by &mut"""
    it = eng.resolve(st, a)
    if it.k == "choice":
        raise Split(it)
    if is_iter(it):
        return it
    if it.k == "ref":
        v = eng.load(st, it)
        if is_iter(v):
            return v
    return None


@m("Iterator::any", "Iterator::all")
def it_any(eng, st, cd, args, ctx):
    it = get_iter(eng, st, args[0], ctx)
    if it is None:
        return None
    isany = key_of(cd) == "Iterator::any"

    def body(s, x):
        out = []
        for s2, v in eng.call_value(s, args[1], [x], ctx.sub("p")):
            for s3, b in eng.branch_bool(s2, v):
                out.append((s3, "break", cbool(isany)) if b == isany else (s3, "cont", None))
        return out

    done, brk, ev = run_iter(eng, st, it, ctx, body)
    return eng_merge(eng, [(s, cbool(not isany)) for s, _ in done] + brk)


@m("slice::contains", "Vec::contains")
def sl_contains(eng, st, cd, args, ctx):
    it = mkiter(eng, st, args[0], "ref", None, ctx)
    target = eng.load(st, args[1])

    def body(s, x):
        out = []
        v = eqterm(eng, s, eng.load(s, x), target, None)
        for s3, b in eng.branch_bool(s, v):
            out.append((s3, "break", TRUE) if b else (s3, "cont", None))
        return out

    done, brk, ev = run_iter(eng, st, it, ctx, body)
    return eng_merge(eng, [(s, FALSE) for s, _ in done] + brk)


@m("Iterator::find", "Iterator::position", "Iterator::find_map")
def it_find(eng, st, cd, args, ctx):
    it = get_iter(eng, st, args[0], ctx)
    if it is None:
        return None
    k = key_of(cd)

    def body(s, x):
        out = []
        if k == "Iterator::find_map":
            for s2, v in eng.call_value(s, args[1], [x], ctx.sub("p")):
                for s3, y, n in eng.branch_variant(s2, v, OPTION):
                    out.append((s3, "break", some(get(y, SP))) if n == "Some" else (s3, "cont", None))
            return out
        for s2, v in eng.call_value(s, args[1], [valref(x) if k == "Iterator::find" else x], ctx.sub("p")):
            for s3, b in eng.branch_bool(s2, v):
                out.append((s3, "break", some(x if k == "Iterator::find" else call("position", (x,)))) if b else (s3, "cont", None))
        return out

    done, brk, ev = run_iter(eng, st, it, ctx, body)
    return eng_merge(eng, [(s, NONE) for s, _ in done] + brk)


@m("Iterator::for_each")
def it_for_each(eng, st, cd, args, ctx):
    it = get_iter(eng, st, args[0], ctx)
    if it is None:
        return None
    done, brk, ev = run_iter(eng, st, it, ctx, lambda s, x: [(s2, "cont", None) for s2, _ in eng.call_value(s, args[1], [x], ctx.sub("p"))])
    return eng_merge(eng, [(s, UNIT) for s, _ in done])


@m("Iterator::try_for_each")
def it_try_for_each(eng, st, cd, args, ctx):
    it = get_iter(eng, st, args[0], ctx)
    if it is None:
        return None
    isr = eng.p.tname(ctx.destty).startswith("std::result::Result")

    def body(s, x):
        out = []
        for s2, v in eng.call_value(s, args[1], [x], ctx.sub("p")):
            for s3, y, n in eng.branch_variant(s2, v, RESULT if isr else OPTION):
                out.append((s3, "cont", None) if n in ("Ok", "Some") else (s3, "break", err(get(y, EP)) if isr else NONE))
        return out

    done, brk, ev = run_iter(eng, st, it, ctx, body)
    return [(s, ok(UNIT) if isr else some(UNIT)) for s, _ in done] + brk


@m("Iterator::fold", "Iterator::try_fold")
def it_fold(eng, st, cd, args, ctx):
    it = get_iter(eng, st, args[0], ctx)
    if it is None:
        return None
    root = ("L", ctx.fresh("acc"), "acc")
    st.mem[root] = args[1]
    tr = key_of(cd).endswith("try_fold")
    isr = tr and eng.p.tname(ctx.destty).startswith("std::result::Result")

    def body(s, x):
        out = []
        for s2, v in eng.call_value(s, args[2], [s.mem[root], x], ctx.sub("p")):
            if tr:
                for s3, y, n in eng.branch_variant(s2, v, RESULT if isr else OPTION):
                    if n in ("Ok", "Some"):
                        eng.write(s3, root, (), get(y, OP if isr else SP))
                        out.append((s3, "cont", None))
                    else:
                        out.append((s3, "break", err(get(y, EP)) if isr else NONE))
            else:
                eng.write(s2, root, (), v)
                out.append((s2, "cont", None))
        return out

    done, brk, ev = run_iter(eng, st, it, ctx, body)
    res = []
    for s, _ in done:
        v = s.mem.pop(root)
        res.append((s, (ok(v) if isr else some(v)) if tr else v))
    return res + brk


@m("Iterator::count", "Iterator::sum", "Iterator::max", "Iterator::min")
def it_count(eng, st, cd, args, ctx):
    return pure(eng, st, key_of(cd), args, ctx)


@m("Iterator::partition", "Iterator::unzip")
def it_partition(eng, st, cd, args, ctx):
    it = get_iter(eng, st, args[0], ctx)
    if it is None:
        return None
    dom = agg_get(it, "dom")
    if key_of(cd).endswith("unzip"):
        rs = drain(eng, st, it, ctx, "vec")
        return [(s, tup(call("unzip0", (v,)), call("unzip1", (v,)))) for s, v in rs]
    outs = []
    ra, rb = ("L", ctx.fresh("pa"), "a"), ("L", ctx.fresh("pb"), "b")
    st.mem[ra] = mk("seq", None, ())
    st.mem[rb] = mk("seq", None, ())

    def body(s, x):
        out = []
        for s2, v in eng.call_value(s, args[1], [valref(x)], ctx.sub("p")):
            for s3, b in eng.branch_bool(s2, v):
                root = ra if b else rb
                eng.write(s3, root, (), seqpush(s3.mem[root], x))
                out.append((s3, "cont", None))
        return out

    done, brk, ev = run_iter(eng, st, it, ctx, body)
    return [(s, tup(s.mem.pop(ra), s.mem.pop(rb))) for s, _ in done]


@m("Vec::retain", "Vec::retain_mut", "HashMap::retain")
def vec_retain(eng, st, cd, args, ctx):
    """retain(pred): value = retained(old, loop) with the predicate evaluated per element"""
    r, p, v = place_of(eng, st, args[0])
    it = mkiter(eng, st, args[0], "ref", None, ctx)
    res = []

    def body(s, x):
        xs = [x]
        if "HashMap" in key_of(cd):
            rr, pp = x.a
            xs = [ref(rr, pp + (("f", "0"),)), ref(rr, pp + (("f", "1"),))]
        out = []
        for s2, b in eng.call_value(s, args[1], xs, ctx.sub("p")):
            for s3, bb in eng.branch_bool(s2, b):
                out.append((s3, "cont", cbool(bb)))
        return out

    done, brk, ev = run_iter(eng, st, it, ctx, body)
    out = []
    for s, ys in done:
        y = ys if isinstance(ys, T) else mk("seq", None, ys)
        eng.write(s, r, p, call("retained", (v, y)), ctx.span)
        out.append((s, UNIT))
    return out


@m("slice::sort", "slice::sort_by", "slice::sort_by_key", "slice::sort_unstable", "slice::sort_unstable_by", "slice::sort_unstable_by_key", "Vec::dedup", "slice::reverse", "slice::sort_by_cached_key")
def sl_sort(eng, st, cd, args, ctx):
    r, p, v = place_of(eng, st, args[0])
    k = key_of(cd).split("::")[1]
    eng.write(st, r, p, call("sorted" if k.startswith("sort") else k, (v,) + tuple(args[1:2])), ctx.span)
    return ret(st, UNIT)


@m("slice::join", "slice::concat")
def sl_join(eng, st, cd, args, ctx):
    r, p, v = place_of(eng, st, args[0])
    if key_of(cd) == "slice::concat":
        if v.k == "seq" and v.a[0] is None:
            out = mk("seq", None, ())
            for x in v.a[1]:
                out = seqcat(out, eng.snapshot(st, x))
            return ret(st, out)
        return ret(st, call("concat", (v,)))
    sep = eng.snapshot(st, args[1])
    if v.k == "seq" and v.a[0] is None and sep.k == "c" and not any(x.k == "spread" for x in v.a[1]):
        out = cstr("")
        for i, x in enumerate(v.a[1]):
            if i:
                out = strcat(out, sep)
            out = strcat(out, eng.load(st, x) if x.k == "ref" else x)
        return ret(st, out)
    return ret(st, call("join", (eng.snapshot(st, v), sep)))


@m("Vec::pop", "Vec::remove", "Vec::truncate", "Vec::clear", "Vec::insert", "Vec::swap_remove", "HashMap::clear", "Vec::split_off")
def vec_mut(eng, st, cd, args, ctx):
    k = key_of(cd)
    r, p, v = place_of(eng, st, args[0])
    if k.endswith("clear"):
        eng.write(st, r, p, mk("seq", None, ()) if "Vec" in k else call("map_from", (mk("seq", None, ()),)), ctx.span)
        return ret(st, UNIT)
    if k == "Vec::pop":
        D = strip_elems(v)
        out = []
        for s, b in eng.branch_bool(st, mk("has", D, cint(0), 0)):
            if b:
                x = get(v, (("last", 1),))
                eng.write(s, r, p, call("init", (v,)), ctx.span)
                out.append((s, some(x)))
            else:
                out.append((s, NONE))
        return out
    eng.write(st, r, p, call(k, (v,) + tuple(args[1:])), ctx.span)
    return ret(st, call(k + ":ret", (v,) + tuple(args[1:])))


# ---- strings ------------------------------------------------------------------------------
@m("str::strip_prefix", "str::strip_suffix")
def strip_prefix(eng, st, cd, args, ctx):
    v = eng.load(st, args[0])
    pat = args[1] if args[1].k == "c" else eng.snapshot(st, args[1])
    k = key_of(cd)
    test = call("starts_with" if "prefix" in k else "ends_with", (v, pat))
    out = []
    for s, b in eng.branch_bool(st, test):
        out.append((s, some(valref(call("stripped_" + k[-6:], (v, pat)))) if b else NONE))
    return eng_merge(eng, out)


@m("str::starts_with", "str::ends_with")
def starts_with(eng, st, cd, args, ctx):
    v = eng.load(st, args[0])
    pat = args[1] if args[1].k == "c" else eng.snapshot(st, args[1])
    return ret(st, call(key_of(cd)[5:], (v, pat)))


@m("str::replace", "str::trim", "str::repeat", "str::to_lowercase", "str::to_uppercase", "str::trim_start", "str::trim_end", "str::trim_start_matches", "str::trim_end_matches")
def str_pure(eng, st, cd, args, ctx):
    k = key_of(cd)
    vs = tuple(eng.snapshot(st, a) for a in args)
    v = call(k, vs)
    if "trim" in k:
        return ret(st, valref(v))
    if k == "str::repeat" and vs[0].k == "c" and vs[1].k == "c":
        return ret(st, cstr(vs[0].a[1] * vs[1].a[1]))
    if k == "str::replace" and all(x.k == "c" for x in vs):
        return ret(st, cstr(vs[0].a[1].replace(vs[1].a[1], vs[2].a[1])))
    return ret(st, v)


@m("str::split", "str::rsplit", "str::lines", "str::chars", "str::splitn", "str::split_whitespace", "str::bytes", "str::char_indices", "str::rsplitn")
def str_split(eng, st, cd, args, ctx):
    vs = tuple(eng.snapshot(st, a) for a in args)
    d = call(key_of(cd), vs)
    return ret(st, agg("Iter", None, [("src", d), ("dom", d), ("pos", cint(0)), ("mode", sym("val")), ("ads", mk("seq", None, ()))]))


@m("str::split_once", "str::rsplit_once", "str::find", "str::rfind", "str::contains", "str::is_char_boundary", "str::parse")
def str_once(eng, st, cd, args, ctx):
    vs = tuple(eng.snapshot(st, a) for a in args)
    return ret(st, call(key_of(cd), vs))


# ---- formatting -----------------------------------------------------------------------------
def decode_template(bs):
    """rustc's packed format template -> list of str | arg index"""
    out, i, nxt = [], 0, 0
    bs = list(bs)
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode("utf8", "replace"))
            i += n
        else:
            fl = b & 0x3F
            spec = ""
            if fl & 1:
                spec = "f%d" % int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if fl & 2:
                i += 2
            if fl & 4:
                i += 2
            idx = nxt
            if fl & 8:
                idx = bs[i] | bs[i + 1] << 8
                i += 2
            nxt = idx + 1
            out.append((idx, spec))
    return out


@m("Argument::new_display", "Argument::new_debug", "Argument::from_usize", "Argument::new_lower_hex")
def fmt_arg(eng, st, cd, args, ctx):
    v = eng.snapshot(st, args[0])
    return ret(st, mk("fmtarg", "d" if "display" in key_of(cd) else "?", v))


@m("Arguments::new", "Arguments::from_str", "Arguments::new_const", "Arguments::new_v1")
def fmt_args(eng, st, cd, args, ctx):
    if key_of(cd) == "Arguments::from_str":
        return ret(st, eng.snapshot(st, args[0]))
    tpl = eng.snapshot(st, args[0])
    av = eng.snapshot(st, args[1]) if len(args) > 1 else mk("seq", None, ())
    if tpl.k == "c" and tpl.a[0] == "bytes":
        ps = []
        for x in decode_template(tpl.a[1]):
            if isinstance(x, str):
                ps.append(x)
            else:
                a = get(av, (("e", cint(x[0])),))
                if a.k == "fmtarg":
                    d, v = a.a
                    ps.extend(pieces(v) if d == "d" and not x[1] else (("d" + d, v),))
                else:
                    ps.append(("d", a))
        return ret(st, mkfmt(ps))
    return ret(st, call("fmt_args", (tpl, av)))


@m("fmt::format", "alloc::fmt::format", "Arguments::as_str")
def fmt_format(eng, st, cd, args, ctx):
    return ret(st, args[0])


@m("Formatter::write_fmt", "Formatter::write_str", "Write::write_fmt", "Write::write_str")
def write_fmt(eng, st, cd, args, ctx):
    v = args[1]
    if v.k == "ref":
        v = eng.load(st, v)
    r, p = eng.deref(st, args[0])
    old = eng.read(st, r, p)
    st.add_event(Ev("write_fmt", "write", (eng.snapshot(st, v),), None, ctx.span))
    return ret(st, ok(UNIT))


# ---- tokens ------------------------------------------------------------------------------------
EMPTY_TS = mk("ts", None, ())


def ts_append(a, b):
    if b.k == "choice":
        return mkchoice([(g, ts_append(a, v)) for g, v in b.a[0]])
    if a.k == "choice":
        return mkchoice([(g, ts_append(v, b)) for g, v in a.a[0]])
    ab, ai = (a.a[0], a.a[1]) if a.k == "ts" else (a, ())
    if b.k == "ts" and b.a[0] is None:
        return mk("ts", ab, ai + b.a[1])
    return mk("ts", ab, ai + (("interp", b),))


def ts_of_token(x):
    """a TokenTree/TokenStream value as tokens"""
    if x.k == "ts":
        return x
    if x.k == "agg" and x.a[0].endswith("TokenTree"):
        return mk("ts", None, (("interp", agg_get(x, "0")),)) if not (agg_get(x, "0").k == "ts") else agg_get(x, "0")
    if x.k == "choice":
        return mkchoice([(g, ts_of_token(v)) for g, v in x.a[0]])
    return mk("ts", None, (("interp", x),))


def as_ts(v):
    """ToTokens of a value"""
    if v.k == "ts":
        return v
    if v.k == "choice":
        return mkchoice([(g, as_ts(x)) for g, x in v.a[0]])
    if v.k == "parsed":
        return v.a[1]
    if v.k == "c":
        return mk("ts", None, (("lit", v.a[1] if v.a[0] != "str" else '"' + v.a[1] + '"'),))
    return mk("ts", None, (("interp", v),))


def _append_to(eng, st, aref, t, ctx):
    r, p = eng.deref(st, aref)
    v = eng.read(st, r, p)
    eng.write(st, r, p, ts_append(v, t), ctx.span)
    return [(st, UNIT)]


@m("TokenStream::new")
def ts_new(eng, st, cd, args, ctx):
    return ret(st, EMPTY_TS)


@m("__private::push_ident", "__private::push_ident_spanned")
def push_ident(eng, st, cd, args, ctx):
    s = eng.snapshot(st, args[-1])
    return _append_to(eng, st, args[0], mk("ts", None, (("id", s.a[1]),)) if s.k == "c" else as_ts(s), ctx)


PUNCT = {"add": "+", "add_eq": "+=", "and": "&", "and_and": "&&", "and_eq": "&=", "at": "@", "bang": "!", "caret": "^", "caret_eq": "^=", "colon": ":", "colon2": "::",
         "comma": ",", "div": "/", "div_eq": "/=", "dot": ".", "dot2": "..", "dot3": "...", "dot_dot_eq": "..=", "eq": "=", "eq_eq": "==", "ge": ">=", "gt": ">", "le": "<=",
         "lt": "<", "mul_eq": "*=", "ne": "!=", "or": "|", "or_eq": "|=", "or_or": "||", "pound": "#", "question": "?", "rarrow": "->", "larrow": "<-", "rem": "%",
         "rem_eq": "%=", "fat_arrow": "=>", "semi": ";", "shl": "<<", "shl_eq": "<<=", "shr": ">>", "shr_eq": ">>=", "star": "*", "sub": "-", "sub_eq": "-=", "underscore": "_", "dollar": "$"}
for _n, _p in PUNCT.items():
    def _mk(pp):
        def f(eng, st, cd, args, ctx):
            return _append_to(eng, st, args[0], mk("ts", None, (("p" if pp != "_" else "id", pp),)), ctx)
        return f
    REG["__private::push_" + _n] = _mk(_p)
    REG["__private::push_" + _n + "_spanned"] = _mk(_p)

DELIM = {"Parenthesis": "(", "Brace": "{", "Bracket": "[", "None": ""}


@m("__private::push_group", "__private::push_group_spanned")
def push_group(eng, st, cd, args, ctx):
    d = args[-2]
    inner = args[-1]
    dn = DELIM.get(d.a[1], "?") if d.k == "agg" else "?"
    return _append_to(eng, st, args[0], mk("ts", None, (("grp", dn, inner),)), ctx)


@m("__private::parse", "__private::parse_spanned", "parse_quote::parse", "__private::push_lifetime")
def q_parse(eng, st, cd, args, ctx):
    if "quote" in cd["nice"].split("::")[0] or cd["nice"].startswith("quote::"):
        s = eng.snapshot(st, args[-1])
        return _append_to(eng, st, args[0], mk("ts", None, tuple(lex(s.a[1]))) if s.k == "c" else as_ts(s), ctx)
    # syn::__private::parse(ts) -> T, panicking on failure (parse_quote!)
    return parse_result(eng, st, args[0], ctx.destty, ctx, panics=True)


def lex(s):
    """tokens of a literal fragment handed to quote"""
    out = []
    for w in re.findall(r'"(?:[^"\\]|\\.)*"|\'[^\']*\'|[A-Za-z_][A-Za-z0-9_]*|\d+|::|\S', s):
        if w[0] == '"' or w[0].isdigit() or w[0] == "'":
            out.append(("lit", w))
        elif w[0].isalpha() or w[0] == "_":
            out.append(("id", w))
        else:
            out.append(("p", w))
    return out


def parse_result(eng, st, ts, ty, ctx, panics=False):
    tn = eng.p.tname(ty)
    if "TokenStream" in tn:
        return ret(st, ts if ts.k == "ts" else as_ts(ts))
    if ts.k == "choice":
        return ret(st, mkchoice([(g, parse_result(eng, st, v, ty, ctx, panics)[0][1]) for g, v in ts.a[0]]))
    if panics:
        if not closed_ts(ts):
            eng.panic(st, ctx.fr, "parse_quote", ctx.span, mk("parsed", tn, ts))
        return ret(st, mk("parsed", tn, ts))
    return None


@m("ToTokens::to_token_stream", "ToTokens::into_token_stream", "ToTokens::to_tokens")
def to_tokens(eng, st, cd, args, ctx):
    k = key_of(cd)
    v = eng.snapshot(st, args[0])
    if k.endswith("into_token_stream"):
        return ret(st, as_ts(v))
    if k.endswith("to_token_stream"):
        return ret(st, as_ts(v))
    return _append_to(eng, st, args[1], as_ts(v), ctx)


@m("Spanned::span", "Ident::span", "Punct::span", "Group::span", "Literal::span", "TokenTree::span", "LitStr::span", "Span::start", "Span::end", "Span::call_site", "Span::mixed_site",
   "Group::span_open", "Group::span_close", "Span::unwrap", "Span::line", "Span::column", "Span::file", "ParseBuffer::span", "Span::join", "Span::byte_range", "Span::local_file",
   "Span::source_text", "Group::delimiter", "Group::stream", "Punct::as_char", "Punct::spacing", "Span::resolved_at", "Span::located_at")
def span(eng, st, cd, args, ctx):
    k = key_of(cd).split("::")[1]
    if not args:
        return ret(st, call(k, ()))
    v = args[0]
    if v.k == "ref" or (ctx.argtys and ctx.argtys[0] is not None and eng.p.ty(ctx.argtys[0])[0] == "ref"):
        v, _ = eng.loadn(st, v, ctx.argtys[0]) if ctx.argtys[0] is not None else (eng.load(st, v), None)
    v = eng.snapshot(st, v)
    if k == "span" or key_of(cd).endswith("::span"):
        return ret(st, call("span", (v,)))
    return ret(st, call(k, (v,) + tuple(args[1:])))


@m("TokenTree::set_span", "Ident::set_span", "Punct::set_span", "Group::set_span", "Literal::set_span")
def set_span(eng, st, cd, args, ctx):
    r, p = eng.deref(st, args[0])
    v = eng.read(st, r, p)
    eng.write(st, r, p, mk("spanned", v, args[1]), ctx.span)
    return ret(st, UNIT)


@m("Group::new", "Ident::new", "LitStr::new", "LitInt::new", "Punct::new", "Literal::string")
def tok_new(eng, st, cd, args, ctx):
    k = key_of(cd)
    if k == "Group::new":
        d = args[0]
        if d.k == "agg":
            return ret(st, mk("ts", None, (("grp", DELIM.get(d.a[1], "?"), args[1]),)))
        return ret(st, call("Group", (d, args[1])))
    return ret(st, call(k, tuple(eng.snapshot(st, a) for a in args)))


@m("Error::new", "Error::new_spanned")
def syn_error(eng, st, cd, args, ctx):
    return ret(st, call("syn::Error", tuple(eng.snapshot(st, a) for a in args)))


@m("Error::into_compile_error", "Error::to_compile_error")
def compile_error(eng, st, cd, args, ctx):
    return ret(st, call("compile_error", (eng.snapshot(st, args[0]),)))


@m("Path::is_ident", "Path::get_ident", "PathArguments::is_none", "PathArguments::is_empty", "LitStr::value", "LitBool::value", "LitInt::base10_parse", "Path::require_ident",
   "LitBool::span", "Path::segments", "LitInt::base10_digits")
def syn_pure(eng, st, cd, args, ctx):
    k = key_of(cd)
    v = eng.load(st, args[0])
    rest = tuple(eng.snapshot(st, a) for a in args[1:])
    v = eng.snapshot(st, v)
    if k == "Path::is_ident" and rest and rest[0].k == "c":
        # exclusive with the other names: the (only) identifier of the path
        return ret(st, eng.mkbin("Eq", call("path_ident", (v,)), rest[0]))
    if k == "Path::get_ident":
        return [(s, some(valref(call("path_ident", (v,)))) if n == "Some" else NONE) for s, x, n in eng.branch_variant(st, call("Path::get_ident", (v,)), OPTION)]
    if k in ("LitStr::value", "LitBool::value"):
        return ret(st, call("value", (v,)))
    if k == "PathArguments::is_none":
        return ret(st, eng.mkbin("Eq", eng._disc(st, v, "syn::path::PathArguments"), c("var", ("None", "syn::path::PathArguments"))))
    return ret(st, call(k, (v,) + rest))


# ---- parsing -----------------------------------------------------------------------------------
@m("syn::parse2", "syn::parse", "syn::parse_str", "parse::parse2", "Parser::parse2", "Parser::parse_str")
def syn_parse2(eng, st, cd, args, ctx):
    t = eng.p.ty(ctx.destty)
    inner = t[2][0]
    tn = eng.p.tname(inner)
    a = eng.snapshot(st, args[0])
    it = eng.p.ty(inner)
    k = key_of(cd)
    if k.startswith("Parser"):
        stream = mk("stream", eng.snapshot(st, args[-1]), ctx.uid("stream"))
        return eng.call_value(st, args[0], [valref(stream)], ctx.sub("p"))
    if it[0] == "adt" and eng.p.adts.get(it[1], {}).get("local"):
        for im, path in eng.p.impl_index.get(("syn::parse::Parse", "parse"), []):
            if im["self"] == inner:
                root = ("S", mk("stream", a, ctx.uid("stream")))
                st.mem[root] = root[1]
                if path in eng.cuts:
                    return eng.cuts[path](eng, st, {"path": path, "nice": path}, [ref(root)], ctx, path)
                return eng.inline(st, path, [ref(root)], ctx.sub("parse"))
    src = a
    if src.k == "ts" and len(src.a[1]) == 1 and src.a[0] is None and src.a[1][0][0] == "interp":
        src = src.a[1][0][1]
    res = call("parse", (sym(tn), src, sym(k.split("::")[-1])))
    return ret(st, res)


TOKNAME = {"Dot": ".", "Not": "!", "Eq": "=", "Comma": ",", "Colon": ":", "PathSep": "::", "Pound": "#", "Dollar": "$", "Question": "?", "Semi": ";", "And": "&", "Or": "|", "Star": "*"}


def stream_closed(stream):
    """the tokens of a stream over a known token sequence"""
    if stream.k == "stream" and stream.a[0].k == "ts" and stream.a[0].a[0] is None:
        return stream.a[0].a[1]
    return None


@m("ParseBuffer::parse", "ParseBuffer::call", "Parse::parse")
def pb_parse(eng, st, cd, args, ctx):
    t = eng.p.ty(ctx.destty)
    if t[0] != "adt" or not eng.p.tname(ctx.destty).startswith("std::result::Result"):
        return None
    inner = t[2][0]
    it = eng.p.ty(inner)
    stream = eng.load(st, args[0])
    if it[0] == "adt" and eng.p.adts.get(it[1], {}).get("local"):
        for im, path in eng.p.impl_index.get(("syn::parse::Parse", "parse"), []):
            if im["self"] == inner:
                if path in eng.cuts:
                    return eng.cuts[path](eng, st, {"path": path, "nice": path}, args, ctx, path)
                return eng.inline(st, path, args[:1], ctx.sub("parse"))
    if key_of(cd) == "ParseBuffer::call":
        return eng.call_value(st, args[1], [args[0]], ctx.sub("c"))
    closed = stream_closed(stream)
    if closed is not None:
        tn = eng.p.tname(inner)
        r, p = eng.deref(st, args[0])
        if tn.endswith("TokenStream"):
            eng.write(st, r, p, mk("stream", EMPTY_TS, stream.a[1]), ctx.span)
            return ret(st, ok(stream.a[0]))
        if tn.startswith("syn::token::") and closed and closed[0] == ("p", TOKNAME.get(tn.split("::")[-1])):
            eng.write(st, r, p, mk("stream", mk("ts", None, closed[1:]), stream.a[1]), ctx.span)
            return ret(st, ok(mk("ts", None, closed[:1])))
    u = ctx.uid("parse")
    tn = eng.p.tname(inner)
    r = call("stream_parse", (sym(tn), stream), u)
    seen = any(k.k == "call" and k.a[0] == "stream_peek" and k.a[1][0] is stream and k.a[1][1].a[0] == tn and f == ("=", TRUE) for k, f in st.facts.items())
    sure = seen and tn.startswith("syn::token::")
    st.add_event(Ev("parse", tn, (stream,), u, ctx.span, {"sure": True} if sure else None))
    consumed(st, stream)
    if sure:
        # the token was seen to be next
        st.facts[mk("disc", r, RESULT)] = ("=", "Ok")
        return ret(st, ok(get(r, OP)))
    return ret(st, r)


def consumed(st, stream):
    """what was seen next in the stream is no longer what comes next"""
    for k in [k for k in st.facts if k.k == "call" and k.a[0] in ("stream_peek", "stream_is_empty") and k.a[1][0] is stream]:
        del st.facts[k]


@m("ParseBuffer::parse_terminated")
def pb_parse_terminated(eng, st, cd, args, ctx):
    t = eng.p.ty(ctx.destty)
    stream = eng.load(st, args[0])
    u = ctx.uid("parse")
    st.add_event(Ev("parse", eng.p.tname(t[2][0]), (stream,), u, ctx.span))
    return ret(st, call("stream_parse", (sym(eng.p.tname(t[2][0])), stream), u))


@m("ParseBuffer::fork")
def pb_fork(eng, st, cd, args, ctx):
    stream = eng.load(st, args[0])
    return ret(st, mk("stream", stream, ctx.uid("fork"), "fork"))


@m("ParseBuffer::peek", "ParseBuffer::peek2", "ParseBuffer::is_empty", "ParseBuffer::peek3", "ParseBuffer::lookahead1")
def pb_peek(eng, st, cd, args, ctx):
    stream = eng.load(st, args[0])
    name = key_of(cd).split("::")[1]
    tok = eng.p.tname(cd["args"][-1]) if cd.get("args") and isinstance(cd["args"][-1], int) else ""
    if tok.startswith("fn:"):
        tok = tok.replace("fn:", "")
    closed = stream_closed(stream)
    if closed is not None:
        if name == "is_empty":
            return ret(st, cbool(not closed)) if not closed or closed[0][0] != "interp" else None
        if name == "peek":
            tn = TOKNAME.get(tok.split("::")[-1])
            if tn and (not closed or closed[0][0] != "interp"):
                return ret(st, cbool(bool(closed) and closed[0] == ("p", tn)))
    return ret(st, call("stream_" + name, (stream, sym(tok)), ctx.uid("peek")))


@m("Speculative::advance_to")
def pb_advance(eng, st, cd, args, ctx):
    a, b = eng.load(st, args[0]), eng.load(st, args[1])
    st.add_event(Ev("advance", "advance_to", (a, b), ctx.uid("adv"), ctx.span))
    consumed(st, a)
    return ret(st, UNIT)


@m("toml::from_str")
def toml_from_str(eng, st, cd, args, ctx):
    return ret(st, call("toml::from_str", (eng.snapshot(st, args[0]),)))


# ---- environment ----------------------------------------------------------------------------------
@m("env::var", "env::var_os")
def env_var(eng, st, cd, args, ctx):
    return ret(st, call("env::var", (eng.snapshot(st, args[0]),)))


@m("Path::join", "PathBuf::join")
def path_join(eng, st, cd, args, ctx):
    return ret(st, call("path_join", (eng.snapshot(st, args[0]), eng.snapshot(st, args[1]))))


@m("Path::try_exists", "Path::exists", "Path::is_file")
def path_exists(eng, st, cd, args, ctx):
    n = key_of(cd).split("::")[1]
    return ret(st, call("fs::" + n, (eng.snapshot(st, args[0]),)))


@m("fs::read_to_string", "fs::read", "fs::metadata", "fs::exists")
def fs_read(eng, st, cd, args, ctx):
    n = key_of(cd)
    if n == "fs::exists":
        n = "fs::try_exists"
    return ret(st, call(n, (eng.snapshot(st, args[0]),)))


@m("PathBuf::push", "PathBuf::pop", "PathBuf::set_file_name")
def path_push(eng, st, cd, args, ctx):
    r, p, v = place_of(eng, st, args[0])
    k = key_of(cd)
    name = {"PathBuf::push": "path_join"}.get(k, k)
    eng.write(st, r, p, call(name, (v,) + tuple(eng.snapshot(st, a) for a in args[1:])), ctx.span)
    return ret(st, UNIT if k != "PathBuf::pop" else call("path_pop:ret", (v,)))


@m("Path::display", "Path::new", "Path::to_path_buf")
def path_display(eng, st, cd, args, ctx):
    if key_of(cd) == "Path::new":
        return ret(st, args[0])
    v = eng.snapshot(st, args[0])
    return ret(st, v if key_of(cd).endswith("buf") else call("display", (v,)))


@m("proc_macro_crate::crate_name")
def crate_name(eng, st, cd, args, ctx):
    return ret(st, call("crate_name", (eng.snapshot(st, args[0]),)))


@m("panicking::unreachable_default_msg", "panicking::panic", "panicking::panic_fmt", "panicking::panic_explicit", "panicking::unreachable_display", "panicking::assert_failed",
   "panicking::panic_display", "rt::begin_panic")
def do_panic(eng, st, cd, args, ctx):
    eng.panic(st, ctx.fr, key_of(cd), ctx.span, None)
    return []


@m("FnOnce::call_once", "FnMut::call_mut", "Fn::call")
def fn_call(eng, st, cd, args, ctx):
    tupv = args[1]
    if tupv is UNIT:
        xs = []
    elif tupv.k == "agg" and tupv.a[0] == "tuple":
        xs = [v for _, v in tupv.a[2]]
    else:
        return None
    return eng.call_value(st, args[0], xs, ctx.sub("call"))
