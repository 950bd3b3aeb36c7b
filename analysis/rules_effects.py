"""Where results come from: no hidden inputs (dataflow over MIR), no unchecked memory access."""
import re
from .core import *
from .mir import short

HIDDEN = [
    (r"^std::time::(Instant|SystemTime)::(now|elapsed)$", "the clock"),
    (r"^std::env::(var|var_os|vars|vars_os|current_dir|current_exe|temp_dir|home_dir)$", "the environment"),
    (r"^std::process::id$", "the process number"),
    (r"^std::thread::(current|available_parallelism|Thread::id)$|^std::thread::.*::(current|available_parallelism)$", "the thread"),
    (r"::is_terminal$", "the terminal"),
    (r"^std::fs::Metadata::(modified|accessed|created|permissions)$|^std::.*Metadata.*::(modified|accessed|created)$", "file times"),
    (r"RandomState", "random hash keys"),
    (r"new_pointer$", "a memory address"),
    (r"^<?\*(const|mut) .*::(addr|expose_provenance)$|^core::ptr::(const|mut)_ptr::.*::(addr|expose_provenance)$", "a memory address"),
]
ITER = re.compile(r"::(iter|iter_mut|keys|values|values_mut|drain|into_iter|into_keys|into_values|retain|extract_if|union|intersection|difference|symmetric_difference|fmt|next)$")
HASHED = re.compile(r"std::collections::hash::|hashbrown::")
OPEN = [(r"^std::thread::(spawn|scope|Builder)|^std::thread::.*::spawn", "threads"), (r"^std::process::Command", "other programs"),
        (r"^std::fs::(read|read_to_string|read_dir|metadata|read_link)$", "other files"), (r"^std::net::", "the network")]
KNOWN = {"core", "alloc", "std", "num", "num_traits", "num_integer", "num_rational", "num_iter", "num_complex", "num_bigint", "lazy_static", "colored", "enum_primitive", "rand", "av1enc"}
QUIET = re.compile(r"^std::io::stdio::_eprint$|^core::fmt::|^alloc::fmt::|^std::time::|^core::time::|^colored::|ToString|::fmt$")
OUTPUT = re.compile(r"^std::io::stdio::_print$|^std::process::exit$|::io::.*Write.*::(write|write_all|write_fmt|write_vectored)$|io::write::Write|^std::fs::File::(create|open|set_len)$|^std::fs::(write|rename|remove_file|copy)$")


class Flow:
    """flow-insensitive, field-sensitive forward dataflow from hidden inputs to decisions and outputs"""

    def __init__(self, ctx, p, kind):
        self.ctx, self.p, self.kind = ctx, p, kind
        self.loc = {}           # (inst, local) -> source
        self.field = {}         # (adt, field) -> source
        self.out = {}           # (inst, parameter) -> source: the callee stores it through that reference
        self.ret = {}           # inst -> source
        self.refs = {}          # inst -> {local: [place]}
        self.changed = False
        self.sources = {}
        self.open = {}
        self.calls = 0
        self.state = {i: self.mutable(s) for i, s in enumerate(p.d["statics"])}
        for i, x in enumerate(p.inst):
            if x["local"] and x.get("body"):
                self.collect_refs(i, x["body"])

    # ---- statics
    def mutable(self, s):
        if s.get("mut"):
            return "state kept between uses (%s)" % short(s["n"])
        if s.get("freeze", True) or not s.get("local", True):
            return None
        t = self.p.tys[s["t"]]
        if t["k"] == "adt" and re.search(r"Lazy|Once", t["n"]):
            inner = [a for a in t["args"] if self.cells(a, set())]
            return "state kept between uses (%s)" % short(s["n"]) if inner and not re.search(r"^std::sync::(poison::)?once::Once$", t["n"]) else None
        return "state kept between uses (%s)" % short(s["n"])

    def cells(self, t, seen):
        if t in seen:
            return False
        seen.add(t)
        ty = self.p.tys[t]
        if ty["k"] == "adt":
            if re.search(r"cell::(Cell|RefCell|UnsafeCell|SyncUnsafeCell)$|::Mutex$|::RwLock$|::atomic::Atomic", ty["n"]):
                return True
            return any(self.cells(a, seen) for a in ty["args"]) or (ty["n"].startswith("av1enc") and any(self.cells(f[1], seen) for v in ty["v"] for f in v["f"]))
        if ty["k"] in ("array", "slice", "ref", "ptr"):
            return self.cells(ty["e"], seen)
        if ty["k"] == "tuple":
            return any(self.cells(f, seen) for f in ty["f"])
        return False

    def hashed(self, t, seen=None):
        seen = seen if seen is not None else set()
        if t in seen:
            return False
        seen.add(t)
        ty = self.p.tys[t]
        if ty["k"] == "adt":
            return "RandomState" in ty["n"] or any(self.hashed(a, seen) for a in ty["args"])
        if ty["k"] in ("array", "slice", "ref", "ptr"):
            return self.hashed(ty["e"], seen)
        return False

    # ---- places
    def collect_refs(self, i, b):
        m = {}
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] == "=" and not s[1][1]:
                    r = s[2]
                    if r[0] in ("ref", "addr"):
                        m.setdefault(s[1][0], []).append(r[1])
                    elif r[0] in ("use", "cast"):
                        o = r[1] if r[0] == "use" else r[2]
                        if o[0] in ("c", "m") and self.p.tys[b["locals"][s[1][0]]]["k"] in ("ref", "ptr"):
                            m.setdefault(s[1][0], []).append([o[1][0], o[1][1] + [["*"]]])
        self.refs[i] = m

    def fields(self, i, place):
        """(adt, field) pairs of local types along a place"""
        b = self.p.inst[i]["body"]
        t = b["locals"][place[0]]
        r = []
        for e in place[1]:
            ty = self.p.tys[t] if t is not None else {"k": None}
            if e[0] == "*":
                t = ty.get("e")
                if t is None and ty["k"] == "adt" and ty["args"]:
                    t = ty["args"][0]
            elif e[0] == "f":
                if ty["k"] == "adt" and ty["n"].startswith("av1enc"):
                    r.append((ty["n"], e[1]))
                t = e[2]
            elif e[0] in ("i", "c"):
                t = ty.get("e")
        return r

    def tainted(self, i, place):
        s = self.loc.get((i, place[0]))
        if s:
            return s
        for f in self.fields(i, place):
            if f in self.field:
                return self.field[f]
        for e in place[1]:
            if e[0] == "i" and (i, e[1]) in self.loc:
                return self.loc[(i, e[1])]
        return None

    def operand(self, i, o):
        if o[0] in ("c", "m"):
            return self.tainted(i, o[1])
        v = t = None
        if o[0] == "k":
            t, v = o[1], o[2]
        elif o[0] == "K":
            t, v = self.p.consts[o[1]]
        if isinstance(v, dict) and "static" in v:
            return self.state.get(v["static"])
        if t is not None:
            ty = self.p.tys[t]
            while ty["k"] in ("ref", "ptr"):
                ty = self.p.tys[ty["e"]]
            if ty["k"] == "adt" and ty["n"].endswith("::LocalKey"):
                return "state kept between uses (thread local)"
        return None

    def mark(self, d, k, s):
        if k not in d:
            d[k] = s
            self.changed = True

    def taint(self, i, place, s, depth=0):
        f = self.fields(i, place)
        if f:
            self.mark(self.field, f[-1], s)
            return
        l = place[0]
        deref = any(e[0] == "*" for e in place[1])
        if not deref:
            self.mark(self.loc, (i, l), s)
            return
        b = self.p.inst[i]["body"]
        if 1 <= l <= b["argc"]:
            self.mark(self.out, (i, l), s)
        self.mark(self.loc, (i, l), s)
        if depth < 8:
            for pl in self.refs[i].get(l, []):
                self.taint(i, pl, s, depth + 1)

    # ---- one function
    def callee(self, f):
        if f[0] == "k":
            t = self.p.tys[f[1]]
        elif f[0] == "K":
            t = self.p.tys[self.p.consts[f[1]][0]]
        else:
            return None, "?"
        if t["k"] == "fndef":
            return t.get("i"), t["n"]
        return None, "?"

    def source(self, j, name, blk, i):
        x = self.p.inst[j] if j is not None else None
        names = [name] + ([x["d"], x["n"]] if x else [])
        for n in names:
            if n.startswith("rand::") or n.startswith("<rand::"):
                return "random numbers"
        if x and x["c"] in ("rand", "rand_core", "rand_chacha", "getrandom", "fastrand"):
            return "random numbers"
        for pat, what in HIDDEN:
            if any(re.search(pat, n) for n in names[:2]):
                if what == "random hash keys" and not re.search(r"::(build_hasher|hash_one)$", name):
                    continue
                return what
        if x and any(self.hashed(a) for a in x["args"]):
            if re.search(r"::hash_one$|::build_hasher$|Hasher.*::finish$", name):
                return "random hash keys"
            if ITER.search(name) and (HASHED.search(x["d"]) or HASHED.search(name) or "IntoIterator" in name):
                return "the order of a hash table"
        if name.endswith("get_or_init") and x:
            for a in x["args"]:
                ty = self.p.tys[a]
                if ty["k"] == "closure" and ty["f"]:
                    return "what an earlier use cached"
        for pat, what in OPEN:
            if any(re.search(pat, n) for n in names[:2]):
                self.open[(what, short(self.p.inst[i]["n"]))] = blk["l"]
        if x and not x["local"] and x["c"] not in KNOWN and not x.get("body"):
            self.open[("the crate " + x["c"], short(self.p.inst[i]["n"]))] = blk["l"]
        return None

    def step(self, i):
        x = self.p.inst[i]
        b = x["body"]
        for blk in b["blocks"]:
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                r, dst = s[2], s[1]
                k = r[0]
                src = None
                if k == "agg":
                    kind = r[1]
                    srcs = [self.operand(i, o) for o in r[2]]
                    if kind[0] == "adt" and self.p.tys[kind[1]]["n"].startswith("av1enc") and self.p.tys[kind[1]]["ak"] == "struct":
                        for n, sv in enumerate(srcs):
                            if sv:
                                self.mark(self.field, (self.p.tys[kind[1]]["n"], n), sv)
                        continue
                    src = next((q for q in srcs if q), None)
                    if kind[0] == "closure" and src:
                        self.closure(kind[1], 1, src)
                elif k in ("ref", "addr", "discr", "len"):
                    src = self.tainted(i, r[1])
                elif k == "use":
                    src = self.operand(i, r[1])
                elif k == "cast":
                    src = self.operand(i, r[2])
                    if "ExposeAddress" in r[1] or "ExposeProvenance" in r[1]:
                        src = "a memory address"
                        self.sources[(src, x["n"], tuple(blk["l"]))] = 1
                elif k in ("bin", "cbin"):
                    src = self.operand(i, r[2]) or self.operand(i, r[3])
                elif k in ("un", "repeat"):
                    src = self.operand(i, r[2] if k == "un" else r[1])
                elif k == "tls":
                    src = "state kept between uses (thread local)"
                if src:
                    self.taint(i, dst, src)
            t = blk["t"]
            if t[0] == "call":
                self.call(i, blk, t)
        if (i, 0) in self.loc:
            self.mark(self.ret, i, self.loc[(i, 0)])

    def closure(self, ty, param, src):
        j = self.p.tys[ty].get("i")
        if j is not None and self.p.inst[j].get("body"):
            self.mark(self.loc, (j, param), src)

    def call(self, i, blk, t):
        j, name = self.callee(t[1])
        self.calls += 1
        src = self.source(j, name, blk, i)
        if src:
            self.sources[(src, self.p.inst[i]["n"], tuple(blk["l"]))] = 1
        args = [self.operand(i, a) for a in t[2]]
        any_ = src or next((a for a in args if a), None)
        local = j is not None and self.p.inst[j]["local"] and self.p.inst[j].get("body")
        if local:
            n = self.p.inst[j]["body"]["argc"]
            for k, a in enumerate(args):
                if a and k < n:
                    self.mark(self.loc, (j, k + 1), a)
            for k, a in enumerate(t[2]):
                if (j, k + 1) in self.out and a[0] in ("c", "m"):
                    self.taint(i, [a[1][0], a[1][1] + [["*"]]], self.out[(j, k + 1)])
            if j in self.ret:
                self.taint(i, t[3], self.ret[j])
            if src:
                self.taint(i, t[3], src)
            return
        if not any_:
            return
        self.taint(i, t[3], any_)
        b = self.p.inst[i]["body"]
        if QUIET.search(name):
            return
        for a in t[2]:
            if a[0] in ("c", "m") and not a[1][1]:
                ty = self.p.tys[b["locals"][a[1][0]]]
                if ty["k"] == "ref" and ty.get("m"):
                    self.taint(i, [a[1][0], [["*"]]], any_)
        for a in (self.p.inst[j]["args"] if j is not None else []):
            if self.p.tys[a]["k"] == "closure":
                jj = self.p.tys[a].get("i")
                if jj is not None and self.p.inst[jj].get("body"):
                    for k in range(2, self.p.inst[jj]["body"]["argc"] + 1):
                        self.mark(self.loc, (jj, k), any_)

    def solve(self):
        fns = [i for i, x in enumerate(self.p.inst) if x["local"] and x.get("body")]
        while True:
            self.changed = False
            self.calls = 0
            for i in fns:
                self.step(i)
            if not self.changed:
                return fns

    # ---- where it matters
    def benign(self, i, bi):
        """the blocks that run only because of this branch do nothing but report to standard error"""
        b = self.p.inst[i]["body"]
        bl = b["blocks"]
        succ = self.p.succs(bl[bi])
        def until(q):
            seen, todo = set(), [s for s in succ if s != q]
            while todo:
                n = todo.pop()
                if n not in seen:
                    seen.add(n)
                    todo += [m for m in self.p.succs(bl[n]) if m != q]
            return seen
        order = list(dict.fromkeys(succ))
        for n in order:
            order += [m for m in self.p.succs(bl[n]) if m not in order]
        for q in order:
            region = until(q)
            if bi not in region and not any(bl[n]["t"][0] == "ret" for n in region):
                break
        else:
            return False
        assigned = set()
        for q in region:
            for s in bl[q]["s"]:
                if s[0] == "=":
                    if any(e[0] == "*" for e in s[1][1]):
                        return False
                    assigned.add(s[1][0])
            t = bl[q]["t"]
            if t[0] == "call":
                _, n = self.callee(t[1])
                if not QUIET.search(n):
                    return False
                assigned.add(t[3][0])
            elif t[0] in ("ret", "asm"):
                return False
        assigned = {l for l in assigned if self.p.tys[b["locals"][l]] != {"k": "tuple", "f": []}}
        text = json.dumps([bl[q] for q in range(len(bl)) if q not in region])
        return not any("[%d, [" % l in text for l in assigned)

    def report(self, fns):
        ctx, p = self.ctx, self.p
        n = 0

        def at(l):
            return "%s:%d" % (p.files[l[0]], l[1])
        for i in fns:
            x = p.inst[i]
            nm = short(x["n"])
            n0 = n
            for bi, blk in enumerate(x["body"]["blocks"]):
                t = blk["t"]
                if t[0] == "switch":
                    s = self.operand(i, t[1])
                    if s and not self.benign(i, bi):
                        ctx.violate("%s:decision:%s" % (nm, s), "%s (%s)" % (nm, at(blk["l"])), "a decision depends on %s" % s)
                        n += 1
                elif t[0] == "call":
                    j, name = self.callee(t[1])
                    if OUTPUT.search(name) or (j is not None and OUTPUT.search(p.inst[j]["d"])):
                        s = next((q for q in (self.operand(i, a) for a in t[2]) if q), None)
                        if s:
                            ctx.violate("%s:output:%s" % (nm, s), "%s (%s)" % (nm, at(blk["l"])), "what is written depends on %s" % s)
                            n += 1
                elif t[0] == "assert" and t[3][0] == "bounds":
                    s = self.operand(i, t[3][2])
                    if s:
                        ctx.violate("%s:position:%s" % (nm, s), "%s (%s)" % (nm, at(blk["l"])), "a position depends on %s" % s)
                        n += 1
            if self.kind == "lib" and i in self.ret and "{closure" not in x["n"]:
                ctx.violate("%s:result:%s" % (nm, self.ret[i]), nm, "the result depends on %s" % self.ret[i])
                n += 1
            if n == n0:
                ctx.passed("%s: no decision, position or output depends on a hidden input" % nm)
            ctx.fns.add(nm)
        for (adt, f), s in sorted(self.field.items()):
            if adt.startswith("av1enc"):
                ty = next((t for t in p.tys if t["k"] == "adt" and t["n"] == adt), None)
                fn = ty["v"][0]["f"][f][0] if ty and ty["v"] and f < len(ty["v"][0]["f"]) else f
                if re.search(r"BoolCoder|Frame|SequenceHeader|EncoderContext|CDFArray|BinaryWriter|Segment|Quant|Tile", adt):
                    ctx.violate("%s.%s:%s" % (short(adt), fn, s), "%s.%s" % (short(adt), fn), "the coding state depends on %s" % s)
                    n += 1
        for (what, fn), l in self.open.items():
            ctx.undec(fn, "uses %s (%s)" % (what, at(l)))
        return n


def hidden(ctx):
    ctx.rule("hidden inputs", "no decision, array position, coding state, result or output depends, through any chain of assignments, fields, references, "
             "calls and closures, on a clock, environment variable, random number, process, thread, terminal, memory address, hash table order or static state")
    for kind, p in (("bin", ctx.p), ("lib", ctx.lib)):
        def go(p=p, kind=kind):
            f = Flow(ctx, p, kind)
            fns = f.solve()
            f.report(fns)
            ctx.count("functions (%s)" % kind, len(fns))
            ctx.count("call sites", f.calls)
            ctx.count("statics", len(p.d["statics"]))
            ctx.count("hidden inputs read", len(f.sources))
        ctx.ob("hidden inputs of the " + kind, go)


def memory(ctx):
    ctx.rule("checked access", "no unsafe block, unsafe function, foreign function or assembly in the crate: every access is checked by the language")
    for kind, p in (("bin", ctx.p), ("lib", ctx.lib)):
        if "unsafe" not in p.d:
            ctx.undec(kind, "no information on unsafe code")
            continue
        for what, at in p.d["unsafe"]:
            ctx.violate("%s %s" % (what, at.split(":")[0]), at, "%s: accesses in it are not checked" % what)
        for i in p.local_fns():
            ctx.fns.add(short(p.inst[i]["n"]))
            ctx.passed(short(p.inst[i]["n"]) + ": only checked accesses")
        ctx.count("functions (%s)" % kind, len(p.local_fns()))


RULES = {"C28": hidden, "C29": memory}
