"""C24: the expansion depends on nothing but source, configuration and features."""
import conds
from lint import *
from known import *
from walk import alts

HASH = ("hash_map::", "hash_set::", "collections::hash::")
KEYED = ("insert", "entry", "get_mut", "remove", "or_insert_with", "or_insert", "or_default", "and_modify", "get_or_insert_with", "replace", "insert_entry")
CLEAN = ("any", "all", "count", "len", "is_empty", "contains", "contains_key", "sum", "max", "min", "size_hint", "capacity", "is_some", "is_none", "is_ok", "is_err", "reserve", "with_capacity", "drop", "get")
MAPS = ("std::collections::HashMap<", "std::collections::HashSet<", "std::collections::BTreeMap<", "std::collections::BTreeSet<", "std::collections::BinaryHeap<")
REFCALLS = ("deref", "deref_mut", "as_mut", "as_ref", "borrow", "borrow_mut", "as_mut_slice", "as_slice", "iter_mut", "by_ref", "lock", "unwrap", "expect", "as_mut_vec", "get_mut", "entry", "or_insert_with", "or_insert", "or_default", "and_modify", "last_mut", "first_mut", "index_mut", "split_at_mut")


def core_of(t):
    t = t.lstrip("&").removeprefix("mut ")
    for w in ("std::option::Option<", "std::boxed::Box<", "std::rc::Rc<"):
        if t.startswith(w):
            return core_of(t[len(w):-1])
    return t


def hash_iter(t):
    """an iterator, or something iterated, in hash order"""
    c = core_of(t)
    head = c.split("<")[0]
    if any(h in head for h in HASH):
        return not head.endswith(("Entry", "OccupiedEntry", "VacantEntry", "RandomState", "DefaultHasher"))
    if head.startswith("std::iter::") or head.startswith("core::iter") or head.startswith("itertools"):
        return any(h in c for h in HASH)
    return False


def hash_coll(t):
    return core_of(t).startswith(("std::collections::HashMap<", "std::collections::HashSet<"))


class Taint:
    """which values of a body depend on the order of a hash table"""

    def __init__(self, p):
        self.p = p
        self.memo = {}
        self.hits = []         # (function, span, what)
        self.sources = set()
        self.seen_iter = 0
        self.cmps = []

    # -- one body ------------------------------------------------------------------
    def summary(self, path, tin=frozenset()):
        """(set of tainted outputs: 0 for the result, i for what parameter i points to) -> where the order comes from"""
        k = (path, tin)
        if k not in self.memo:
            self.memo[k] = {}
            self.memo[k] = Body(self, path, tin).solve()
        return self.memo[k]

    def settle(self):
        """until nothing changes: functions may call each other in cycles"""
        for _ in range(20):
            change = False
            for path, tin in list(self.memo):
                r = Body(self, path, tin).solve()
                if set(r) != set(self.memo[(path, tin)]):
                    change = True
                self.memo[(path, tin)] = r
            if not change:
                return
        raise Anchor("the flow of hash order does not settle")


class Body:
    def __init__(self, t, path, tin):
        self.t, self.p, self.path = t, t.p, path
        self.b = t.p.bodies[path]
        self.B = self.b["body"]
        self.blocks = self.B["blocks"]
        self.argc = self.B["argc"]
        self.tin = tin
        self.tn = [self.p.tname(l[0]) for l in self.B["locals"]]
        self.succ = [self.succs(x[1]) for x in self.blocks]
        self.live = [not x[2] for x in self.blocks]
        self.alias = self.aliases()
        self.loops = self.hash_loops()

    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + ([t[3]] if isinstance(t[3], int) else [])
        if k == "call":
            return [t[4]] if isinstance(t[4], int) else []
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)]

    def aliases(self):
        """local -> the local it points into"""
        a = {}
        for blk in self.blocks:
            for st in blk[0]:
                if st[0] == "=" and not st[1][1]:
                    rv = st[2]
                    if rv[0] == "ref":
                        a.setdefault(st[1][0], set()).add(rv[2][0])
                    elif rv[0] in ("use", "cast"):
                        o = rv[1] if rv[0] == "use" else rv[2]
                        if o[0] in ("mv", "cp") and self.tn[st[1][0]].startswith("&"):
                            a.setdefault(st[1][0], set()).add(o[1][0])
            t = blk[1]
            if t[0] == "call" and not t[3][1]:
                m = self.method(t)
                if m in REFCALLS and t[2] and t[2][0][0] in ("mv", "cp") and ("&" in self.tn[t[3][0]] or "Mut<" in self.tn[t[3][0]] or "Guard<" in self.tn[t[3][0]] or "Entry<" in self.tn[t[3][0]]):
                    a.setdefault(t[3][0], set()).add(t[2][0][1][0])
        return a

    def method(self, t):
        f = t[1]
        if f[0] == "k" and f[1][0] == "fn":
            r = f[1][1]
            return r.get("method") or r["path"].split("::")[-1]
        return None

    def roots(self, l):
        out, st, seen = set(), [l], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            ys = self.alias.get(x)
            if not ys:
                out.add(x)
            else:
                st.extend(ys)
        return out

    def keyed(self, l):
        """the place is reached through a key"""
        st, seen = [l], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for blk in self.blocks:
                t = blk[1]
                if t[0] == "call" and t[3][0] == x and self.method(t) in KEYED:
                    return True
            st.extend(self.alias.get(x, ()))
        return False

    def natural(self):
        """the natural loops, as sets of blocks"""
        n = len(self.blocks)
        pred = {}
        for i, ss in enumerate(self.succ):
            if self.live[i]:
                for s_ in ss:
                    if self.live[s_]:
                        pred.setdefault(s_, set()).add(i)
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen and self.live[y]:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        dom = {0: {0}}
        change = True
        while change:
            change = False
            for x in order[1:]:
                ds = [dom[q] for q in pred.get(x, ()) if q in dom]
                if not ds:
                    continue
                d = set.intersection(*ds) | {x}
                if dom.get(x) != d:
                    dom[x] = d
                    change = True
        out = {}
        for b in order:
            for h in self.succ[b]:
                if h in dom.get(b, ()):
                    body, st = {h}, [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred.get(x, ()))
                    out[h] = out.get(h, set()) | body
        return list(out.values())

    def hash_loops(self):
        """[(header call block, blocks of the loop)] of loops driven by next() of an iterator in hash order"""
        out, nat = [], None
        for i, blk in enumerate(self.blocks):
            t = blk[1]
            if t[0] == "call" and self.live[i] and self.method(t) in ("next", "next_back") and t[2] and t[2][0][0] in ("mv", "cp") and hash_iter(self.tn[t[2][0][1][0]]):
                nat = self.natural() if nat is None else nat
                mine = [L for L in nat if i in L]
                # the iterator of a loop is made outside it
                its = self.roots(t[2][0][1][0])
                mine = [L for L in mine if not any(self.made_in(x, L) for x in its)]
                out.append((i, min(mine, key=len) if mine else None))
        return out

    def made_in(self, l, L):
        for i in L:
            if any(st[0] == "=" and st[1][0] == l and not st[1][1] for st in self.blocks[i][0]) or (self.blocks[i][1][0] == "call" and self.blocks[i][1][3][0] == l and not self.blocks[i][1][3][1]):
                return True
        return False

    def escaping(self, loop):
        """locals assigned in the loop that are used or assigned outside it as well"""
        ins, outs = set(), set(range(self.argc + 1))
        for i, blk in enumerate(self.blocks):
            if not self.live[i]:
                continue
            tgt = outs if i not in loop else None
            for st in blk[0]:
                if st[0] == "=":
                    (ins if tgt is None else outs).add(st[1][0])
                    if tgt is not None:
                        outs |= set(self.read(st[2]))
            t = blk[1]
            if t[0] == "call":
                (ins if tgt is None else outs).add(t[3][0])
                if tgt is not None:
                    for o in t[2]:
                        if o[0] in ("mv", "cp"):
                            outs.add(o[1][0])
            elif t[0] == "switch" and tgt is not None and t[1][0] in ("mv", "cp"):
                outs.add(t[1][1][0])
        return ins & outs

    @staticmethod
    def read(rv):
        out = []

        def op(o):
            if isinstance(o, list) and o and o[0] in ("mv", "cp"):
                out.append(o[1][0])

        k = rv[0]
        if k in ("use", "repeat"):
            op(rv[1])
        elif k == "cast":
            op(rv[2])
        elif k == "bin":
            op(rv[2]); op(rv[3])
        elif k == "un":
            op(rv[2])
        elif k == "agg":
            for x in rv[3]:
                op(x)
        elif k == "ref":
            out.append(rv[2][0])
        elif k not in ("disc", "len"):
            for x in rv[1:]:
                op(x)
        return out

    def origin(self, span, what):
        return "%s at %s" % (what, span)

    def solve(self):
        n = len(self.blocks)
        inn = [None] * n
        start = {}
        for i in self.tin:
            start[i] = "argument %d" % i
        inn[0] = start
        st = [0]
        self.inloop = {}
        for h, L in self.loops:
            self.t.seen_iter += 1
            for x in L or ():
                self.inloop.setdefault(x, []).append((h, L))
        self.esc = {h: self.escaping(L) for h, L in self.loops if L}
        out = {}
        work = set([0])
        steps = 0
        while work:
            steps += 1
            if steps > 20000:
                raise Anchor("hash order analysis of %s does not finish" % self.path)
            i = work.pop()
            s = dict(inn[i])
            self.block(i, s)
            if self.blocks[i][1][0] == "return":
                for k, v in s.items():
                    if k == 0 or 1 <= k <= self.argc and self.mutable_param(k):
                        out.setdefault(k, v)
            for j in self.succ[i]:
                if not self.live[j]:
                    continue
                if inn[j] is None:
                    inn[j] = dict(s)
                    work.add(j)
                else:
                    new = [k for k in s if k not in inn[j]]
                    if new:
                        for k in new:
                            inn[j][k] = s[k]
                        work.add(j)
        return out

    def mutable_param(self, k):
        return self.tn[k].startswith("&mut ") or "RefCell" in self.tn[k] or self.tn[k].startswith("&")

    def put(self, s, l, why):
        for r in self.roots(l) | {l}:
            s.setdefault(r, why)

    def tainted(self, s, l):
        if l in s:
            return s[l]
        for r in self.roots(l):
            if r in s:
                return s[r]
        return None

    def block(self, i, s):
        blk = self.blocks[i]
        loops = self.inloop.get(i, ())
        for st in blk[0]:
            if st[0] != "=":
                continue
            d, rv, span = st[1], st[2], st[-1]
            why = None
            if rv[0] not in ("disc", "len"):
                for l in self.read(rv):
                    why = why or self.tainted(s, l)
            for h, L in loops:
                if d[0] in self.esc[h] and not self.harmless(rv, d) and not self.fresh(d[0], L):
                    why = why or self.origin(self.blocks[h][1][-1], "iteration over a hash table")
                if rv[0] == "bin" and rv[1] in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne") and any(l in self.esc[h] and l not in self.local_to(L) for l in self.counters(rv, i)):
                    for x in self.grown(h, L):
                        self.put(s, x, self.origin(self.blocks[h][1][-1], "iteration over a hash table"))
                if d[1] and any(x[0] == "*" for x in d[1]) and not self.keyed(d[0]) and any(r not in self.local_to(L) for r in self.roots(d[0])) and not self.harmless(rv, d):
                    why = why or self.origin(self.blocks[h][1][-1], "iteration over a hash table")
            if why:
                if d[1]:
                    self.put(s, d[0], why)
                else:
                    s.setdefault(d[0], why)
            elif not d[1] and d[0] in s and rv[0] not in ("disc", "len") and not loops:
                del s[d[0]]
        t = blk[1]
        if t[0] == "call":
            self.call(i, t, s, loops)

    def local_to(self, L):
        """locals assigned only inside the loop"""
        k = ("local", id(L))
        c = self.__dict__.setdefault("_lc", {})
        if k not in c:
            ins, outs = set(), set(range(self.argc + 1))
            for i, blk in enumerate(self.blocks):
                if not self.live[i]:
                    continue
                for st in blk[0]:
                    if st[0] == "=" and not st[1][1]:
                        (ins if i in L else outs).add(st[1][0])
                if blk[1][0] == "call" and not blk[1][3][1]:
                    (ins if i in L else outs).add(blk[1][3][0])
            c[k] = ins - outs
        return c[k]

    def fresh(self, l, L):
        """the local is a flag or unit"""
        return self.tn[l] in ("()", "!")

    def counters(self, rv, i):
        """the locals compared, through copies in the block"""
        out, st = set(), list(self.read(rv))
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            for q in self.blocks[i][0]:
                if q[0] == "=" and q[1][0] == x and not q[1][1] and q[2][0] == "use":
                    st.extend(self.read(q[2]))
        return out

    def harmless(self, rv, d):
        """assigning this in any order gives the same result"""
        if rv[0] == "use" and rv[1][0] == "k":
            return True
        if rv[0] == "agg" and not any(o[0] in ("mv", "cp") for o in rv[3]):
            return True
        if rv[0] == "disc":
            return True
        if rv[0] == "bin" and rv[1] in ("Add", "AddWithOverflow", "BitOr", "BitAnd", "BitXor"):
            return self.tn[d[0]] not in ("std::string::String",)
        if rv[0] == "use" and rv[1][0] in ("mv", "cp") and rv[1][1][1] and self.tn[rv[1][1][0]].startswith("("):
            return self.tn[d[0]] in ("usize", "isize", "u32", "i32", "u64", "i64", "u8", "bool")
        return False

    def argl(self, o):
        return o[1][0] if o[0] in ("mv", "cp") else None

    def call(self, i, t, s, loops):
        f, args, dest, span = t[1], t[2], t[3], t[-1]
        r = f[1][1] if f[0] == "k" and f[1][0] == "fn" else {}
        m = self.method(t)
        dl = dest[0]
        locs = [self.argl(o) for o in args]
        why = None
        tw = [self.tainted(s, l) if l is not None else None for l in locs]
        hashes = [l is not None and (hash_iter(self.tn[l]) or (hash_coll(self.tn[l]) and m in ("extend", "from_iter", "chain", "zip"))) for l in locs]
        iface = m in ("next", "next_back") and hashes and hashes[0]
        target = None
        for k in ("res", "path"):
            if r.get(k) in self.p.bodies:
                target = r[k]
                break
        if target is None and r:
            target = self.p.local_target(r)
        closures = []
        for l in locs:
            if l is not None and self.tn[l].startswith("closure:"):
                closures.append((l, self.tn[l][len("closure:"):]))
        if m and m.startswith("sort") and locs and locs[0] is not None:
            if tw[0] and self.total(m, closures, r, args, span):
                for x in self.roots(locs[0]):
                    s.pop(x, None)
                s.pop(locs[0], None)
                for x in list(s):
                    if self.roots(x) & self.roots(locs[0]):
                        s.pop(x)
                return
            return
        if target is not None and target in self.p.bodies and "closure" not in r:
            tin = frozenset(k + 1 for k, w in enumerate(tw) if w)
            hin = [k for k, h in enumerate(hashes) if h]
            sm = self.t.summary(target, tin)
            for k, w in sm.items():
                w = tw[int(w.split()[1]) - 1] if w.startswith("argument ") and int(w.split()[1]) - 1 < len(tw) and tw[int(w.split()[1]) - 1] else w
                if k == 0:
                    s.setdefault(dl, w)
                    if dest[1]:
                        self.put(s, dl, w)
                elif k - 1 < len(locs) and locs[k - 1] is not None:
                    self.put(s, locs[k - 1], w)
            for k in tin:
                l = locs[k - 1]
                if k not in sm and l is not None and self.tn[l].startswith("&mut ") and not loops:
                    for x in [x for x in s if self.roots(x) & self.roots(l)] + [l]:
                        s.pop(x, None)
            if 0 not in sm and not dest[1] and not loops:
                s.pop(dl, None)
            self.loop_call(t, m, locs, dl, s, loops, span)
            return
        # code outside the crate
        if any(hashes) and not iface:
            self.t.sources.add((self.path, span))
            what = self.origin(span, "`%s` over a hash table" % m)
            dt = self.tn[dl]
            if hash_iter(dt) or m in CLEAN:
                pass
            elif m in ("collect", "from_iter", "unzip", "partition", "into_iter", "iter"):
                if not dt.startswith(MAPS):
                    why = what
            elif m == "extend":
                d0 = core_of(self.tn[locs[0]])
                if not hashes[0] and not d0.startswith(MAPS) or not (d0.startswith(MAPS) or hash_coll(d0)):
                    self.put(s, locs[0], what)
            elif m in ("clone", "by_ref", "drop", "deref", "deref_mut", "as_ref", "borrow"):
                pass
            elif m in ("next", "next_back"):
                pass
            elif m == "for_each":
                pass
            else:
                why = what
        if iface:
            L = [L for h, L in self.loops if h == i]
            if not L or L[0] is None:
                why = self.origin(span, "the first entry of a hash table")
        if any(tw) and m not in CLEAN:
            w = next(x for x in tw if x)
            if m in ("eq", "ne", "lt", "gt", "cmp", "partial_cmp", "le", "ge") or (m in ("collect", "from_iter") and self.tn[dl].startswith(MAPS)):
                pass
            else:
                why = why or w
                for k, l in enumerate(locs):
                    if l is not None and not tw[k] and self.tn[l].startswith("&mut "):
                        self.put(s, l, w)
        # closures run per entry: what they change outside, and what order their results carry
        for l, path in closures:
            if path not in self.p.bodies:
                continue
            sm = self.t.summary(path)
            if 0 in sm:
                why = why or sm[0]
            if 1 in sm:
                for x in self.captured(l):
                    self.put(s, x, sm[1])
            if any(hashes):
                for x, ty_ in self.captured_mut(l):
                    if not core_of(ty_).startswith(MAPS) and core_of(ty_) not in ("usize", "bool", "u32", "i32"):
                        self.put(s, x, self.origin(span, "`%s` over a hash table" % m))
        self.loop_call(t, m, locs, dl, s, loops, span)
        if why:
            s.setdefault(dl, why)
            if dest[1]:
                self.put(s, dl, why)
        elif not dest[1] and dl in s and not loops:
            del s[dl]

    def loop_call(self, t, m, locs, dl, s, loops, span):
        """a call inside a loop over a hash table"""
        for h, L in loops:
            w = self.origin(self.blocks[h][1][-1], "iteration over a hash table")
            if t is self.blocks[h][1]:
                if dl in self.esc[h] and self.exits_early(h, L):
                    s.setdefault(dl, w)
                continue
            inside = self.local_to(L)
            if m in ("len", "is_empty", "capacity", "first", "last", "first_key_value", "last_key_value"):
                for l in locs:
                    if l is not None and self.roots(l) & self.grown(h, L):
                        self.put(s, l, w)
            for l in locs:
                if l is None or not (self.tn[l].startswith("&mut ") or "RefMut<" in self.tn[l]):
                    continue
                if hash_iter(self.tn[l]):
                    continue
                ext = [x for x in self.roots(l) if x not in inside]
                if not ext:
                    continue
                if core_of(self.tn[l]).startswith(MAPS) and m in KEYED + ("extend",):
                    continue
                if self.keyed(l) or m in CLEAN or m in REFCALLS:
                    continue
                self.put(s, l, w)
            if dl in self.esc[h] and self.tn[dl] not in ("()", "!", "bool") and dl not in inside:
                s.setdefault(dl, w)
            elif dl in self.esc[h] and self.tn[dl] not in ("()", "!", "bool", "usize") and self.exits_early(h, L):
                s.setdefault(dl, w)

    def grown(self, h, L):
        """what the loop adds to"""
        c = self.__dict__.setdefault("_grown", {})
        if h not in c:
            out = set()
            for i in L:
                t = self.blocks[i][1]
                if t[0] == "call" and t is not self.blocks[h][1]:
                    for o in t[2]:
                        l = self.argl(o)
                        if l is not None and self.tn[l].startswith("&mut "):
                            out |= {x for x in self.roots(l) if x not in self.local_to(L)}
            c[h] = out
        return c[h]

    def exits_early(self, h, L):
        return True

    def captured(self, l):
        out = []
        for blk in self.blocks:
            for st in blk[0]:
                if st[0] == "=" and st[1][0] == l and st[2][0] == "agg" and st[2][1] == "closure":
                    out += [o[1][0] for o in st[2][3] if o[0] in ("mv", "cp")]
        return out

    def captured_mut(self, l):
        return [(x, self.tn[x]) for x in self.captured(l) if self.tn[x].startswith("&mut ")]

    def total(self, m, closures, r, args, span):
        """the comparison tells every two entries apart"""
        if m in ("sort", "sort_unstable"):
            return True
        path = closures[0][1] if closures else None
        if path is None:
            o = args[1]
            if o[0] == "k" and o[1][0] == "fn":
                return o[1][1].get("method") in ("cmp", "partial_cmp", "clone", "to_string", "to_owned")
            return False
        self.t.cmps.append((path, m, span))
        return self.t.compare(path, m)


def comparator(an):
    p = an.p

    def key_like(x, root):
        """x is the entry, or a text directly in it"""
        x = strip(x)
        while x.k == "call" and len(x.a[1]) == 1 and x.a[0].split("::")[-1] in ("clone", "to_string", "as_str", "to_owned", "as_ref", "deref", "Reverse", "reverse"):
            x = strip(x.a[1][0])
        if x.k == "agg":
            return any(key_like(v, root) for _, v in x.a[2])
        first = True
        while x.k == "pr":
            first = first and (x.a[1][0] != "f" or x.a[1][1] in ("0", "name", "key", "path"))
            x = strip(x.a[0])
        while x.k == "at":
            x = x.a[0]
        return x is root and first

    def compare(path, m):
        b = p.bodies[path]
        n = b["body"]["argc"]
        args = [sym("env")] + [sym("arg%d" % i) for i in range(1, n)]
        res = an.run(path, args, [])
        good = True
        for s, v in res.rs:
            for c2, x in alts(v):
                if m.endswith("_key"):
                    good = good and key_like(x, args[1])
                    continue
                cmps = [y for y in subterms(x) if y.k == "call" and y.a[0].split("::")[-1] in ("cmp", "partial_cmp")] if x.k == "call" else []
                cmps += [k.a[0] for k in conds.support(s.pc) if k.k == "disc" and k.a[0].k == "call" and k.a[0].a[0].split("::")[-1] in ("cmp", "partial_cmp")]
                pairs = ((args[1], args[2]), (args[2], args[1]))
                good = good and any(key_like(q.a[1][0], a) and key_like(q.a[1][1], b_) for a, b_ in pairs for q in cmps)
        return good and bool(res.rs)

    return compare


# ---- effects -------------------------------------------------------------------------------
BANNED = ("std::time", "std::thread", "std::process", "std::net", "std::os", "rand", "getrandom", "std::random", "core::ptr", "std::ptr", "std::hash::RandomState", "std::hash::random", "std::sync::atomic", "std::env::vars", "std::env::args", "std::env::current_dir", "std::env::temp_dir", "std::env::current_exe", "std::io::stdin", "std::intrinsics::type_id", "std::alloc")
ENVVARS = ("CARGO", "OUT_DIR")


def statics(an):
    """[(static, [functions that use it])] of statics that can change"""
    p = an.p
    out = {}

    def scan(x, acc):
        if isinstance(x, list):
            if len(x) > 1 and x[0] == "static" and isinstance(x[1], str):
                acc.add(x[1])
            for y in x:
                scan(y, acc)

    uses = {}
    for k, b in p.bodies.items():
        acc = set()
        scan([b["body"]["blocks"]] + [q["blocks"] for q in b.get("promoted") or []], acc)
        for st in acc:
            uses.setdefault(st, []).append(k)
    for k, b in p.bodies.items():
        if b["kind"].startswith("Static") and not b.get("freeze", True):
            out[k] = uses.get(k, [])
    # statics of a type with interior mutability in other crates are not ours to look at
    return out


def deep(p, tid):
    """names of the types in a type, through the fields of local structs"""
    seen, st = set(), [p.tname(tid)]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for k, a in p.adts.items():
            if a.get("local") and k not in seen and a["nice"] in x:
                seen.add(k)
                for v in a["variants"]:
                    st += [p.tname(f[1]) for f in v["fields"]]
    return seen


def root_fn(k):
    while "::{closure#" in k:
        k = k[:k.rindex("::{closure#")]
    return k


def constant_init(an, k, users):
    """the static holds a value computed once from nothing"""
    p = an.p
    b = p.bodies[k]
    t = p.tname(b["static_ty"])
    if not t.startswith(("std::sync::LazyLock<", "std::sync::OnceLock<", "std::cell::LazyCell<", "std::cell::OnceCell<")) or False in b.get("inner_freeze", []):
        return False
    fns = {k} | ({root_fn(u) for u in users} if "Once" in t else set())
    if "Once" in t and any(p.bodies[f].get("inputs") for f in fns if f != k):
        return False
    for f in list(fns):
        for x in [f] + sorted(an.reach(f)):
            for r in p.fn_refs(x):
                n = r.get("nice") or ""
                if r.get("local") or "closure" in r:
                    continue
                if impure(n) or n.startswith(("std::env", "std::fs", "proc_macro_crate", "toml", "std::path")):
                    return False
    return True


def impure(n):
    n = n.lstrip("<&")
    return n.startswith(BANNED)


def c24(ck, an):
    p = an.p
    t = Taint(p)
    t.compare = comparator(an)
    called = set()
    for k, b in p.bodies.items():
        for r in p.fn_refs(k):
            x = p.local_target(r) if "closure" not in r else r["closure"]
            if x:
                called.add(x)
    n = 0
    prod = [k for k, b in p.bodies.items() if "::tests::" not in k and "::test::" not in k and not b.get("derived")]
    ext = {x for im in p.impls for _, x in im["items"]}
    exp = set()
    roots = [k for k in prod if p.bodies[k]["kind"] in ("Fn", "AssocFn") and (k not in called or k in ext or k in exp or p.bodies[k]["parent"] == "hooq_macros")]
    for k in prod:
        t.summary(k)
    t.settle()
    sites = {}
    for k in prod:
        n += 1
        sm = t.summary(k)
        if k in roots and 0 in sm and p.bodies[k]["kind"] in ("Fn", "AssocFn"):
            sites.setdefault(sm[0], []).append(k)
    ck.floor("functions whose data flow was followed", n, 100)
    ck.note("places that go through a hash table", sorted({s for _, s in t.sources} | {"loops: %d" % t.seen_iter}))
    ck.note("comparisons of sorted entries", sorted({(c[0].split("::")[-2], c[1], c[2]) for c in t.cmps}))
    for site, ks in sorted(sites.items()):
        ck.ob("C24.hash", site, False, "the result of %s follows the order of a hash table: %s" % (", ".join(sorted(x.split("hooq_macros::")[-1] for x in ks))[:200], site))
    for k in prod:
        ck.ob("C24.order", k.split("hooq_macros::")[-1], True)
    # effects
    m = 0
    for k in prod:
        b = p.bodies[k]
        for r in p.fn_refs(k):
            if "closure" in r or r.get("local"):
                continue
            name = r.get("nice") or r["path"]
            m += 1
            if impure(name) and not benign(name):
                ck.ob("C24.effect", "%s in %s" % (name, k), False, "%s calls %s" % (k, name))
            if name.endswith("new_pointer"):
                ck.ob("C24.effect", "address in %s" % k, False, "%s formats an address" % k)
            if name.endswith(("new_debug", "::fmt")) and "debug" in name.lower() and r.get("args"):
                ty_ = p.tname(r["args"][0]) if isinstance(r["args"][0], int) else ""
                bad = unstable_debug(p, r["args"][0]) if isinstance(r["args"][0], int) else None
                if bad:
                    ck.ob("C24.debug", "%s in %s" % (ty_, k), False, "%s formats %s with `{:?}`, which shows %s" % (k, ty_, bad))
        for c, term, span in p.callees(k):
            if c is not None and (c.get("nice") or "").startswith(("std::env::var", "std::env::var_os")):
                names = env_name(p, k, term)
                ck.ob("C24.env", "%s:%s" % (k.split("::")[-1], names), names is not None and all(x.startswith(ENVVARS) for x in names), "%s reads the environment variable %s" % (span, names))
        for body in [b["body"]] + b["promoted"]:
            for blk in body["blocks"]:
                for st in blk[0]:
                    if st[0] == "=" and st[2][0] == "cast" and "Expose" in str(st[2][1]):
                        ck.ob("C24.effect", "address in %s" % k, False, "%s turns an address into a number (%s)" % (k, st[-1]))
    ck.floor("references to code outside the crate", m, 500)
    state(ck, an, "C24.state")


def state(ck, an, rule):
    """what can be kept from one expansion to the next: only the configuration, by manifest directory (C16)"""
    p = an.p
    toml = an.role("TOML")
    inside = {toml} | an.reach(toml)
    for k, users in sorted(statics(an).items()):
        outside = sorted({root_fn(u) for u in users if root_fn(u) not in inside and u not in inside and not u.startswith(k)})
        holds_config = any("HooqToml" in x for x in deep(p, p.bodies[k]["static_ty"]))
        good = (not users and "RUST_STD_INTERNAL" not in k) or constant_init(an, k, users) or (holds_config and not outside)
        ck.ob(rule, k, good, "the static `%s` (%s) can carry something from one expansion to the next; used in %s" % (k, p.bodies[k]["span"], outside or users))
    ck.note("statics that can change", sorted(statics(an)))


def benign(n):
    return n.startswith(("std::ptr::eq", "core::ptr::eq", "std::process::Termination")) or "drop_in_place" in n or "NonNull" in n


def env_name(p, k, term):
    """constant names given to env::var"""
    o = term[2][0]
    if o[0] == "k" and o[1][0] == "str":
        return [o[1][1]]
    b = p.bodies[k]["body"]
    seen, st, out = set(), [o], []
    while st:
        x = st.pop()
        if x[0] == "k":
            if x[1][0] == "str":
                out.append(x[1][1])
                continue
            return None
        l = x[1][0]
        if l in seen:
            continue
        seen.add(l)
        found = False
        for blk in b["blocks"]:
            for s in blk[0]:
                if s[0] == "=" and s[1][0] == l:
                    found = True
                    if s[2][0] == "use":
                        st.append(s[2][1])
                    elif s[2][0] == "ref":
                        st.append(["cp", s[2][2]])
                    else:
                        return None
        if not found:
            return None
    return out or None


def unstable_debug(p, tid):
    """what of the type's Debug output is not determined by its value"""
    n = p.tname(tid)
    if any(x in n for x in ("std::collections::HashMap<", "std::collections::HashSet<")):
        return "a hash table in its own order"
    if n.lstrip("&").startswith("*const") or n.lstrip("&").startswith("*mut"):
        return "an address"
    if n.lstrip("&").startswith(("proc_macro2::Span", "proc_macro::Span", "std::time::", "std::thread::")):
        return "a value of this run of the compiler"
    seen, st = set(), [n]
    c = n.lstrip("&")
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        a = p.adts.get(x) or p.adts.get("hooq_macros::" + x)
        if a and a.get("local"):
            for v in a["variants"]:
                for f in v["fields"]:
                    tn = p.tname(f[1])
                    if "HashMap<" in tn or "HashSet<" in tn:
                        return "a hash table in its own order"
                    st.append(core_of(tn))
    return None
