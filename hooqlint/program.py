"""The dumped program: bodies, types, ADTs, impls, CFG facts (no decisions here)."""
import json


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.crate = d["crate"]
        self.features = d["features"]
        self.types = d["types"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.exports = d["exports"]
        self.bodies = {b["path"]: b for b in d["bodies"]}
        self._cfg = {}
        self._tn = {}
        self.impl_index = {}
        for im in self.impls:
            for name, p in im["items"]:
                self.impl_index.setdefault((im["trait"], name), []).append((im, p))

    # ---- types -------------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def tname(self, i):
        """readable type name with crate-relative ADT names"""
        if i in self._tn:
            return self._tn[i]
        t = self.types[i]
        k = t[0]
        if k == "prim":
            r = t[1]
        elif k == "adt":
            n = t[3]
            for pre in ("std::", "core::", "alloc::"):
                pass
            a = [self.tname(x) for x in t[2] if isinstance(x, int)]
            if n.startswith("std::vec::Vec") or n.startswith("std::boxed::Box"):
                a = a[:1]
            r = n + ("<" + ", ".join(a) + ">" if a else "")
        elif k == "ref":
            r = "&" + ("mut " if t[1] else "") + self.tname(t[2])
        elif k == "ptr":
            r = "*" + self.tname(t[2])
        elif k == "slice":
            r = "[" + self.tname(t[1]) + "]"
        elif k == "array":
            r = "[" + self.tname(t[1]) + "; %s]" % t[2]
        elif k == "tuple":
            r = "(" + ", ".join(self.tname(x) for x in t[1]) + ")"
        elif k == "closure":
            r = "closure:" + t[1]
        elif k == "fndef":
            r = "fn:" + t[3]
        elif k == "param":
            r = "$" + t[1]
        else:
            r = t[1]
        self._tn[i] = r
        return r

    def strip(self, i):
        """type id with references, Box and Rc removed"""
        while True:
            t = self.types[i]
            if t[0] == "ref":
                i = t[2]
            elif t[0] == "adt" and t[3] in ("std::boxed::Box", "std::rc::Rc"):
                i = t[2][0]
            else:
                return i

    def is_adt(self, i, nice):
        t = self.types[i]
        return t[0] == "adt" and t[3] == nice

    def adt_of(self, i):
        t = self.types[i]
        return self.adts.get(t[1]) if t[0] == "adt" else None

    def variant_fields(self, adtpath, variant):
        a = self.adts.get(adtpath)
        if not a:
            return None
        for v in a["variants"]:
            if v["name"] == variant:
                return v["fields"]
        return None

    # ---- control-flow graph ------------------------------------------------
    def cfg(self, key, body):
        if key in self._cfg:
            return self._cfg[key]
        blocks = body["blocks"]
        n = len(blocks)
        succ = []
        for b in blocks:
            t = b[1]
            k = t[0]
            if k == "goto":
                s = [t[1]]
            elif k == "switch":
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == "call":
                s = [t[4]] if t[4] is not None else []
            elif k == "assert":
                s = [t[4]]
            else:
                s = []
            succ.append(s)
        order, seen = [], set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    stack.append((v, iter(succ[v])))
                    break
            else:
                stack.pop()
                order.append(u)
        order.reverse()
        rpo = {b: i for i, b in enumerate(order)}
        pred = {b: [] for b in order}
        for u in order:
            for v in succ[u]:
                pred[v].append(u)
        # dominators
        idom = {order[0]: order[0]}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while rpo[a] > rpo[c]:
                            a = idom[a]
                        while rpo[c] > rpo[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if idom[b] == b:
                    return False
                b = idom[b]

        loops = {}
        for u in order:
            for v in succ[u]:
                if dom(v, u):
                    body_ = loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x in body_:
                            continue
                        body_.add(x)
                        st.extend(pred[x])
        r = {"succ": succ, "rpo": rpo, "pred": pred, "loops": loops, "idom": idom, "order": order}
        self._cfg[key] = r
        return r

    # ---- call graph --------------------------------------------------------
    def callees(self, path):
        """[(callee dict, arg operands, span)] for each call of a body"""
        out = []
        b = self.bodies[path]
        for body in [b["body"]] + b["promoted"]:
            for blk in body["blocks"]:
                t = blk[1]
                if t[0] == "call":
                    f = t[1]
                    if f[0] == "k" and f[1][0] == "fn":
                        out.append((f[1][1], t, t[-1]))
                    else:
                        out.append((None, t, t[-1]))
        return out

    def fn_refs(self, path):
        """every function constant mentioned in a body (called or passed), and closures built"""
        out = []
        b = self.bodies[path]

        def op(o):
            if o[0] == "k" and o[1][0] == "fn":
                out.append(o[1][1])

        for body in [b["body"]] + b["promoted"]:
            for blk in body["blocks"]:
                for st in blk[0]:
                    if st[0] == "=":
                        rv = st[2]
                        if rv[0] in ("use", "repeat"):
                            op(rv[1])
                        elif rv[0] == "cast":
                            op(rv[2])
                        elif rv[0] == "bin":
                            op(rv[2]); op(rv[3])
                        elif rv[0] == "un":
                            op(rv[2])
                        elif rv[0] == "agg":
                            for x in rv[3]:
                                op(x)
                            if rv[1] == "closure":
                                out.append({"closure": rv[2]})
                t = blk[1]
                if t[0] == "call":
                    op(t[1])
                    for x in t[2]:
                        op(x)
        return out

    def local_target(self, r):
        """the local body a resolved callee runs, if any"""
        if "closure" in r:
            return r["closure"]
        if r.get("behind"):
            x = self.local_target(r["behind"])
            if x:
                return x
        if r.get("res_local") and r["res"] in self.bodies:
            return r["res"]
        if r["path"] in self.bodies:
            return r["path"]
        return None

    def reachable(self, roots):
        seen, st = set(), list(roots)
        while st:
            p = st.pop()
            if p in seen or p not in self.bodies:
                continue
            seen.add(p)
            for r in self.fn_refs(p):
                t = self.local_target(r)
                if t:
                    st.append(t)
                # trait dispatch to local impls through external generic code
                for x in self.dyn_targets(r):
                    st.append(x)
            for _, t, _ in self.callees(p):
                pass
            b = self.bodies[p]
            for body in [b["body"]] + b["promoted"]:
                for blk in body["blocks"]:
                    for s in blk[0]:
                        if s[0] == "=":
                            for item in items_in(s[2]):
                                if item in self.bodies:
                                    st.append(item)
                    for o in (blk[1][2] if blk[1][0] == "call" else []):
                        if o[0] == "k" and o[1][0] in ("item", "static") and o[1][1] in self.bodies:
                            st.append(o[1][1])
        return seen

    GENERIC_ENTRY = {
        "syn::parse2": ("syn::parse::Parse", "parse"),
        "syn::parse": ("syn::parse::Parse", "parse"),
        "syn::parse_str": ("syn::parse::Parse", "parse"),
        "syn::parse::ParseBuffer::<'a>::parse": ("syn::parse::Parse", "parse"),
        "syn::parse_macro_input::parse": ("syn::parse_macro_input::ParseMacroInput", "parse"),
    }

    def dyn_targets(self, r):
        """local trait methods that external code may call for the type arguments of a call"""
        if "closure" in r:
            return []
        out = []
        for a in r.get("args", []):
            if not isinstance(a, int):
                continue
            s = self.strip(a)
            t = self.types[s]
            if t[0] == "adt" and self.adts.get(t[1], {}).get("local"):
                if r.get("local"):
                    continue
                for im in self.impls:
                    if im["self"] in (s, a) and not im["derived"]:
                        out.extend(p for _, p in im["items"])
        return out


def items_in(rv):
    out = []

    def op(o):
        if o[0] == "k" and o[1][0] in ("item", "static"):
            out.append(o[1][1])

    k = rv[0]
    if k in ("use", "repeat"):
        op(rv[1])
    elif k == "cast":
        op(rv[2])
    elif k == "bin":
        op(rv[2]); op(rv[3])
    elif k == "agg":
        for x in rv[3]:
            op(x)
    return out
