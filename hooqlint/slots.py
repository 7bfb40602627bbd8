"""The child positions of syntax-tree nodes, from the type graph of the syn crate the repository is built against."""
from terms import *
from conds import YES, conj, lit
from terms import mk

# positions that hold no run-time expression of the annotated item
EXEMPT = {"syn::Pat", "syn::Type", "syn::Signature", "syn::Generics", "syn::Visibility", "syn::Path", "syn::Lit", "syn::ForeignItem", "syn::Variant", "syn::Fields", "syn::FieldsNamed",
          "syn::UseTree", "syn::ReturnType", "syn::QSelf", "syn::AngleBracketedGenericArguments", "syn::TypeParamBound", "syn::Label", "syn::Lifetime", "syn::Member", "syn::PathArguments",
          "syn::BoundLifetimes", "syn::Abi", "syn::WhereClause", "syn::GenericParam", "syn::LitStr", "syn::Meta"}


class Slot:
    __slots__ = ("ps", "conds", "kind", "owners", "top")

    def __init__(self, ps, conds, kind, owners, top):
        self.ps, self.conds, self.kind, self.owners, self.top = ps, conds, kind, owners, top

    def exist(self, root="node", skip=0):
        g = YES
        for pre, adt, v in self.conds[skip:]:
            g = conj(g, lit(mk("vdisc", root, pre, adt), ("=", v)))
        return g

    def __repr__(self):
        from lint import showpl
        return showpl(("", self.ps))


def slots_of(p, nice):
    """all slots of the enum `nice` (syn::Expr / syn::Item)"""
    top = [k for k, a in p.adts.items() if a["nice"] == nice][0]
    out = []
    adt = p.adts[top]
    for v in adt["variants"]:
        for i, (n, t, pub) in enumerate(v["fields"]):
            walk(p, t, (("v", v["name"]), ("f", str(n))), [((), top, v["name"])], [], out, v["name"], 0)
    return out


def walk(p, tid, ps, cs, owners, out, top, depth):
    if depth > 18:
        return
    t = p.ty(tid)
    k = t[0]
    if k == "tuple":
        for i, x in enumerate(t[1]):
            walk(p, x, ps + (("f", str(i)),), cs, owners, out, top, depth + 1)
        return
    if k != "adt":
        return
    nice = t[3]
    if nice in ("std::boxed::Box",):
        return walk(p, t[2][0], ps, cs, owners, out, top, depth + 1)
    if nice in ("std::option::Option", "core::option::Option"):
        return walk(p, t[2][0], ps + (("v", "Some"), ("f", "0")), cs + [(ps, OPTION, "Some")], owners, out, top, depth + 1)
    if nice in ("std::vec::Vec", "syn::punctuated::Punctuated"):
        inner = p.ty(t[2][0])
        if inner[0] == "adt" and inner[3] == "syn::Attribute":
            return  # handled by the owner
        return walk(p, t[2][0], ps + (("e", "*"),), cs, owners, out, top, depth + 1)
    if nice == "syn::Expr":
        out.append(Slot(ps, cs, "expr", owners, top))
        return
    if nice == "syn::Item":
        out.append(Slot(ps, cs, "item", owners, top))
        return
    if nice == "syn::Macro":
        out.append(Slot(ps, cs, "macro", owners, top))
        return
    if nice in EXEMPT or not nice.startswith("syn::"):
        return
    a = p.adts.get(t[1])
    if a is None:
        return
    if a["kind"].lower() == "enum":
        for v in a["variants"]:
            for n, ft, pub in v["fields"]:
                walk(p, ft, ps + (("v", v["name"]), ("f", str(n))), cs + [(ps, t[1], v["name"])], owners, out, top, depth + 1)
        return
    ow = owners
    for n, ft, pub in a["variants"][0]["fields"]:
        f = p.ty(ft)
        if n == "attrs" and f[0] == "adt" and f[3] == "std::vec::Vec":
            ow = owners + [ps + (("f", "attrs"),)]
            out.append(Slot(ps + (("f", "attrs"),), cs, "attrs", owners, top))
    for n, ft, pub in a["variants"][0]["fields"]:
        walk(p, ft, ps + (("f", str(n)),), cs, ow, out, top, depth + 1)


class Types:
    """types of the positions below a node"""

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def peel(self, tid):
        while True:
            t = self.p.ty(tid)
            if t[0] == "ref":
                tid = t[2]
            elif t[0] == "adt" and t[3] in ("std::boxed::Box", "std::rc::Rc"):
                tid = t[2][0]
            else:
                return tid, t

    def step(self, cur, pj):
        """cur: ("ty", tid) | ("var", adt, variant, args) | ("enum", key)"""
        p = self.p
        if cur is None:
            return None
        if cur[0] == "top":
            a = p.adts[cur[1]]
            if pj[0] == "v":
                if pj[1] == "*":
                    return ("any", cur[1])
                return ("var", [v for v in a["variants"] if v["name"] == pj[1]][0])
            return None
        if cur[0] == "any":
            return ("anynode",)
        if cur[0] == "anynode":
            return None
        if cur[0] == "var":
            for n, ft, _ in cur[1]["fields"]:
                if str(n) == pj[1]:
                    return ("ty", ft)
            return None
        if cur[0] == "some":
            return ("ty", cur[1])
        tid, t = self.peel(cur[1])
        if t[0] == "tuple":
            return ("ty", t[1][int(pj[1])])
        if t[0] != "adt":
            return None
        nice = t[3]
        if nice in ("std::option::Option", "core::option::Option"):
            return ("some", t[2][0]) if pj[0] == "v" else None
        if nice in ("std::vec::Vec", "syn::punctuated::Punctuated"):
            return ("ty", t[2][0])
        a = p.adts.get(t[1])
        if a is None:
            return None
        if a["kind"].lower() == "enum":
            if pj[0] != "v":
                return None
            if pj[1] == "*":
                return ("any", t[1])
            return ("var", [v for v in a["variants"] if v["name"] == pj[1]][0])
        for n, ft, _ in a["variants"][0]["fields"]:
            if str(n) == pj[1]:
                return ("ty", ft)
        return None

    def along(self, nice, ps):
        """[(prefix length, type name)] of every prefix"""
        k = (nice, ps)
        if k in self.memo:
            return self.memo[k]
        top = [k for k, a in self.p.adts.items() if a["nice"] == nice][0]
        cur = ("top", top)
        out = []
        for i, pj in enumerate(ps):
            cur = self.step(cur, pj)
            if cur is None:
                break
            if cur[0] == "ty":
                tid, t = self.peel(cur[1])
                out.append((i + 1, t[3] if t[0] == "adt" else t[0]))
            elif cur[0] == "anynode":
                out.append((i + 1, "*"))
        self.memo[k] = out
        return out

    def attrs_of(self, nice):
        for a in self.p.adts.values():
            if a["nice"] == nice and a["kind"].lower() == "struct":
                return any(n == "attrs" for n, _, _ in a["variants"][0]["fields"])
        return False

    def owners(self, nice, ps):
        """attribute lists of the nodes strictly around a position, outermost first: [(prefix length, projections)]"""
        out = []
        for n, ty in self.along(nice, ps):
            if n < len(ps) and ps[:n] + (("f", "attrs"),) != ps and (ty == "*" or (ty.startswith("syn::") and self.attrs_of(ty))):
                out.append((n, ps[:n] + (("f", "attrs"),)))
        return out
