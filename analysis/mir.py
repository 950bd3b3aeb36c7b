"""The exported program: instances, types, constants, loop structure."""
import re


class Prog:
    def __init__(self, d):
        self.d = d
        self.inst = d["inst"]
        self.tys = d["tys"]
        self.files = d["files"]
        self.consts = d["consts"]
        self.by_name = {}
        for i, x in enumerate(self.inst):
            self.by_name.setdefault(x["n"], i)
        self.named = {n["n"]: n for n in d["named"]}
        self.statics = {s["n"]: s for s in d["statics"]}
        self._cfg = {}
        self._ck = {}
        for t in self.tys:
            if t["k"] == "adt" and t.get("ak") == "enum":
                for v in t["v"]:
                    if v["d"] >= 1 << 63 and not t["n"].endswith("AlignmentEnum"):
                        v["d"] -= 1 << 64
                    elif t["n"] == "core::cmp::Ordering" and v["d"] == 255:
                        v["d"] = -1

    # ---- lookup
    def find(self, suffix, local=True):
        """instances whose name ends with ::suffix"""
        r = [i for i, x in enumerate(self.inst)
             if (not local or x["local"]) and x.get("body")
             and (x["n"] == suffix or x["n"].endswith("::" + suffix))]
        if not r:       # instances of generic functions
            r = [i for i, x in enumerate(self.inst)
                 if (not local or x["local"]) and x.get("body") and (x["d"] == suffix or x["d"].endswith("::" + suffix))]
        return r

    def fn(self, suffix):
        r = self.find(suffix)
        return r[0] if len(r) == 1 else None

    def const(self, name):
        """value of a named constant item by its last path segment"""
        r = [n for k, n in self.named.items() if k == name or k.endswith("::" + name)]
        return r[0]["v"] if len(r) == 1 else None

    def local_fns(self):
        return [i for i, x in enumerate(self.inst) if x["local"] and x.get("body")]

    def where(self, i):
        x = self.inst[i]
        at = x.get("at")
        return "%s (%s)" % (short(x["n"]), self.files[at[0]]) if at else short(x["n"])

    def ty(self, i):
        return self.tys[i]

    def adt_name(self, i):
        t = self.tys[i]
        return t["n"] if t["k"] == "adt" else None

    def ints(self, starts, stop=()):
        """integer constants in the functions reachable from the given ones: comparison values, array lengths, literals"""
        seen, todo, out = set(stop), list(starts), set()

        def val(x):
            if isinstance(x, bool):
                return
            if isinstance(x, int):
                out.add(x)
            elif isinstance(x, list):
                for y in x[:8]:
                    val(y)

        def fn(ty):
            t = self.tys[ty]
            if t["k"] in ("fndef", "closure") and isinstance(t.get("i"), int):
                todo.append(t["i"])

        def walk(x):
            if isinstance(x, list):
                if len(x) == 3 and x[0] == "k" and isinstance(x[1], int):
                    fn(x[1])
                    val(x[2])
                    return
                if len(x) == 2 and x[0] == "K" and isinstance(x[1], int) and x[1] < len(self.consts):
                    fn(self.consts[x[1]][0])
                    val(self.consts[x[1]][1])
                    return
                for y in x:
                    walk(y)
            elif isinstance(x, dict):
                for y in x.values():
                    walk(y)
        while todo:
            i = todo.pop()
            if i in seen or not self.inst[i]["local"] or not self.inst[i].get("body"):
                continue
            seen.add(i)
            b = self.inst[i]["body"]
            for t in b["locals"]:
                fn(t)
                n = self.tys[t].get("n") if self.tys[t]["k"] == "array" else None
                if isinstance(n, int):
                    out.add(n)
            for blk in b["blocks"]:
                for y in blk["s"]:
                    walk(y)
                t = blk["t"]
                walk(t)
                if t[0] == "switch":
                    for v, _ in t[2]:
                        val(v)
        return out

    # ---- control flow
    def succs(self, blk):
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            r = [b for _, b in t[2]]
            if t[3] is not None:
                r.append(t[3])
            return r
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def cfg(self, i):
        r = self._cfg.get(i)
        if r is None:
            r = Cfg(self, self.inst[i]["body"])
            self._cfg[i] = r
        return r


def short(n):
    n = re.sub(r"^av1enc::", "", n)
    return n.replace("av1enc::", "")


class Cfg:
    """blocks, natural-loop forest and, per region, a topological order of the contracted graph"""

    def __init__(self, prog, body):
        self.blocks = body["blocks"]
        n = len(self.blocks)
        self.succ = [list(dict.fromkeys(prog.succs(b))) for b in self.blocks]
        seen = set()
        post = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = post[::-1]
        self.reach = seen
        num = {b: k for k, b in enumerate(self.rpo)}
        self.num = num
        self.pred = [[] for _ in range(n)]
        for b in seen:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    a, c = x, p
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    x = a
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom

        def dom(a, b):
            while num[b] > num[a]:
                b = idom[b]
            return a == b
        self.dom = dom
        loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if num[s] <= num[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stk += self.pred[x]
        self.loops = loops
        # innermost loop header of each block (excluding itself for headers -> parent)
        self.inner = {}
        order = sorted(loops, key=lambda h: len(loops[h]), reverse=True)
        for h in order:
            for b in loops[h]:
                self.inner[b] = h
        self.parent = {}
        for h in loops:
            cands = [g for g in loops if g != h and h in loops[g]]
            self.parent[h] = min(cands, key=lambda g: len(loops[g])) if cands else None
        self.regions = {}

    def region(self, h):
        """h None: whole function.  Returns (entry, topological order of blocks/child loop headers,
        representative map block -> node)"""
        r = self.regions.get(h)
        if r is not None:
            return r
        blocks = self.reach if h is None else self.loops[h]
        entry = 0 if h is None else h
        rep = {}
        for b in blocks:
            x = b
            lp = self.inner.get(b)
            # climb to the child loop of h that contains b
            while lp is not None and lp != h:
                p = self.parent[lp]
                x = lp
                if p == h:
                    break
                lp = p
            if lp == h:
                x = b
            rep[b] = x
        # topological order on contracted graph, ignoring edges back to entry
        nodes = {}
        for b in blocks:
            nodes.setdefault(rep[b], set())
        for b in blocks:
            for s in self.succ[b]:
                if s in blocks and not (s == entry and h is not None) and rep[s] != rep[b]:
                    nodes[rep[b]].add(rep[s])
        seen = set()
        post = []

        def dfs(x0):
            st = [(x0, iter(sorted(nodes[x0], key=lambda q: -self.num[q])))]
            seen.add(x0)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(sorted(nodes[s], key=lambda q: -self.num[q]))))
                        break
                else:
                    post.append(x)
                    st.pop()
        dfs(rep[entry])
        r = (entry, post[::-1], rep, blocks)
        self.regions[h] = r
        return r
