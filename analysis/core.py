"""Obligation bookkeeping, comparison of abstract values, evidence and exit status."""
import json, os, sys, time, traceback, itertools
from .terms import *
from . import terms as T
from .mir import Prog, short
from .interp import *
from .interp import Undefined
from . import extract, models, iters

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("AV1V_EVIDENCE") or os.path.join(VERIF, "evidence")


class Missing(Exception):
    """an anchor of the property no longer exists"""


class Deadline(Giveup):
    """time is up: what is left of this run stays undecided"""


def memory():
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * 4096


class Ctx:
    def __init__(self, prop, tier, seed, prog, lib):
        self.prop, self.tier, self.seed, self.p, self.lib = prop, tier, seed, prog, lib
        self.ok = 0
        self.viol = []        # (key, where, text)
        self.undecided = []   # (name, reason)
        self.counts = {}
        self.fns = set()
        self.rules = {}
        self.samples = []
        self.assumptions = []
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.stop = None      # reason why the rest is skipped
        self.tviol = None     # when the first violation was found
        self.busy = False
        self.began = 0

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def passed(self, name, n=1):
        self.ok += n
        if len(self.samples) < 40:
            self.samples.append(name)

    def violate(self, key, where, text, witness=None):
        if any(v[0] == key for v in self.viol):
            return
        self.tviol = self.tviol or time.time()
        self.viol.append((key, where, text, witness))

    def undec(self, name, why):
        self.undecided.append((name, str(why)[:300]))

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, name, f, *a, **k):
        """run one obligation; what cannot be represented is undecided, never an alarm"""
        t0 = time.time()
        if self.stop:
            self.undec(name, self.stop)
            return None
        try:
            self.began = t0
            self.busy = True
            return f(*a, **k)
        except Missing as e:
            self.undec(name, "not found: %s" % e)
        except (Giveup, Undefined) as e:
            self.undec(name, e)
        except RecursionError as e:
            self.undec(name, "recursion")
        except Exception as e:
            self.undec(name, "internal: %s: %s" % (type(e).__name__, e))
            if os.environ.get("VDEBUG"):
                traceback.print_exc()
        finally:
            self.busy = False
            if os.environ.get("VTIME") and time.time() - t0 > float(os.environ["VTIME"]):
                print("%6.2f s  %s" % (time.time() - t0, name), flush=True)
        return None

    def overdue(self):
        """called from the watching thread: is it time to stop?"""
        now = time.time()
        if now - self.t0 > (3000 if self.thorough else 560):
            self.stop = "not reached in the time of this run"
        elif self.tviol and now - self.tviol > 90:
            self.stop = "not looked at after the violation"
        if memory() > 12 << 30:
            self.stop = "out of memory"
        if self.stop:
            return self.busy
        if self.busy and now - self.began > (1000 if self.thorough else 75):
            self.began = now                                    # give up on this obligation only
            return True
        return False

    # ---- anchors
    def fn(self, name, prog=None):
        p = prog or self.p
        i = p.fn(name)
        if i is None:
            c = p.find(name)
            if len(c) > 1:
                return c[0]
            raise Missing("fn " + name)
        self.fns.add(short(p.inst[i]["n"]))
        return i

    def near(self, names, base, hi, stop=()):
        """the given sizes, and the sizes around every constant in the code of these functions, so that no threshold goes unnoticed"""
        r = set(base)
        cut = [i for n in stop for i in self.p.find(n)]
        for n in names:
            for c in self.p.ints(self.p.find(n), cut):
                r |= {k for k in (c - 1, c, c + 1) if 0 <= k <= hi}
        return sorted(r)

    # ---- comparisons
    def same(self, name, got, want, guard, where, what, I=None, assume=TRUE):
        """obligation: got == want whenever guard"""
        got, want = T._as_int(got), T._as_int(want)
        if got is want:
            self.passed(name)
            return True
        d = AND(guard, NE(got, want))
        if d is FALSE or same_by_cases(guard, got, want):
            self.passed(name)
            return True
        return self.differ(name, d, where, lambda env: "%s: expected %s, the code gives %s" % (
            what, ev(want, env), ev(got, env)), extra=(got, want))

    def never(self, name, cond, where, what, extra=()):
        """obligation: cond is unsatisfiable"""
        if cond is FALSE:
            self.passed(name)
            return True
        return self.differ(name, cond, where, lambda env: what, extra)

    def differ(self, name, d, where, text, extra=()):
        sup = support(d)
        for e in extra:
            sup = sup | support(e)
        for a in sup:
            if ATOMS[a].args[0].startswith("?"):
                self.undec(name, "depends on an unmodelled value %s" % ATOMS[a].args[0][:80])
                return None
        if infeasible(d) or exhaust(d)[0] is False:
            self.passed(name)
            return True
        w = find_witness(d, extra=extra, seed=self.seed)
        if w is None:
            self.undec(name, "values differ in form but no differing assignment was found")
            return None
        env = dict(w)
        self.violate(name, where, text(env), env_names(w))
        return False

    def same_list(self, name, got, want, guard, where, what, fmt=None):
        """obligation: two guarded lists denote the same sequence whenever guard.
        got / want: list of (guard, term, site)"""
        if guard is FALSE:
            self.passed(name)
            return True
        A = [(restrict_g(g, guard), T._as_int(v), s) for g, v, s in got]
        B = [(restrict_g(g, guard), T._as_int(v), s) for g, v, s in want]
        A = [x for x in A if x[0] is not FALSE]
        B = [x for x in B if x[0] is not FALSE]
        front = {(0, 0): guard}
        n = 0
        undec = None
        nund = 0
        while front:
            ij = min(front, key=lambda t: (t[0] + t[1], t[0]))
            g = front.pop(ij)
            i, j = ij
            n += 1
            if n > 400000:
                raise Giveup("sequence comparison too large")

            def go(i, j, g):
                if g is not FALSE:
                    o = front.get((i, j))
                    front[(i, j)] = g if o is None else OR(o, g)
            if i == len(A) and j == len(B):
                continue
            ga = AND(g, A[i][0]) if i < len(A) else FALSE
            na = AND(g, NOT(A[i][0])) if i < len(A) else g
            if i < len(A) and na is not FALSE:
                go(i + 1, j, na)
                g = ga
                if g is FALSE:
                    continue
            # A[i] present (or A exhausted) under g
            if j < len(B):
                nb = AND(g, NOT(B[j][0]))
                gb = AND(g, B[j][0])
                if nb is not FALSE:
                    go(i, j + 1, nb)
                if gb is FALSE:
                    continue
                g = gb
            if i < len(A) and j < len(B):
                d = AND(g, NE(A[i][1], B[j][1]))
                if d is not FALSE and not same_by_cases(g, A[i][1], B[j][1]):
                    r = self._listdiff(name, d, where, what, A, B, i, j)
                    if r is False:
                        return False
                    if r is None:
                        undec = True
                        nund += 1
                        if nund > 12:
                            return None
                go(i + 1, j + 1, g)
            else:
                r = self._listdiff(name, g, where, what, A, B, i if i < len(A) else None, j if j < len(B) else None)
                if r is False:
                    return False
                if r is None:
                    undec = True
        if undec:
            return None
        self.passed(name)
        return True

    def _listdiff(self, name, d, where, what, A, B, i, j):
        a = A[i] if i is not None else None
        b = B[j] if j is not None else None
        ex = [x[1] for x in (a, b) if x is not None]
        sup = support(d)
        for e in ex:
            sup = sup | support(e)
        for q in sup:
            if ATOMS[q].args[0].startswith("?"):
                self.undec(name, "depends on an unmodelled value %s" % ATOMS[q].args[0][:80])
                return None
        if infeasible(d) or exhaust(d)[0] is False:
            return True
        w = find_witness(d, extra=ex, seed=self.seed)
        if w is None:
            if name not in [u[0] for u in self.undecided]:
                self.undec(name, "sequences differ in form at %s, no differing input found" % (b[2] if b else "end",))
            return None
        env = dict(w)
        t = "%s: " % what
        if a is None:
            t += "the code ends where %s is expected" % (b[2],)
        elif b is None:
            t += "the code emits an extra item at %s" % (a[2],)
        else:
            t += "expected %s = %s, the code emits %s at %s" % (b[2], ev(b[1], env), ev(a[1], env), a[2])
        self.violate(name, where, t, env_names(w))
        return False


def same_by_cases(g, a, b, cap=300):
    """a == b whenever g, decided by the values of the few inputs a and b depend on"""
    sup = sorted(support(a) | support(b))
    n = 1
    for x in sup:
        at = ATOMS[x]
        if at.kind != "leaf" or at.mx - at.mn > cap:
            return False
        n *= at.mx - at.mn + 1
        if n > cap:
            return False
    leaves = [T._mkflat(0, ((x, 1),)) for x in sup]
    for vals in itertools.product(*[range(int(ATOMS[x].mn), int(ATOMS[x].mx) + 1) for x in sup]):
        env = {ATOMS[x].args[0]: v for x, v in zip(sup, vals)}
        env.update(dict(zip(sup, vals)))
        try:
            if evaluate(a, dict(env)) == evaluate(b, dict(env)):
                continue
        except Exception:
            pass
        h = g
        for l, v in zip(leaves, vals):
            h = AND(h, EQ(l, const(v)))
        if h is not FALSE:
            return False
    return True


def restrict_g(g, care):
    if g is TRUE or g is FALSE:
        return g
    x = AND(g, care)
    if x is FALSE:
        return FALSE
    return g


def ev(t, env):
    try:
        e = dict(env)
        return evaluate(t, e)
    except Exception:
        return "?"


# ------------------------------------------------------------------ running functions abstractly
class Run:
    """one abstract analysis of an entry point"""

    def __init__(self, ctx, name, args, assume=TRUE, prog=None, i=None, **kw):
        self.ctx = ctx
        self.prog = prog or ctx.p
        self.i = ctx.fn(name, self.prog) if i is None else i
        self.I = Interp(self.prog, **kw)
        self.st = State({}, assume)
        self.assume = assume
        body = self.prog.inst[self.i]["body"]
        self.args = []
        if len(args) != body["argc"]:
            raise Giveup("signature of %s changed" % name)
        for n, a in enumerate(args):
            if isinstance(a, str):
                a = self.I.lazy(body["locals"][n + 1], a)
            elif callable(a):
                a = a(self.I, self.st)
            elif isinstance(a, int):
                a = const(a)
            self.args.append(a)
        self.ret, self.out = self.I.call_fn(self.st, self.i, self.args)
        for j in self.I.visited:
            x = self.prog.inst[j]
            if x["local"]:
                ctx.fns.add(short(x["n"]))
        ctx.count("abstract block visits", self.I.nblocks)
        self.where = self.prog.where(self.i)

    @property
    def g(self):
        return self.out.g if self.out is not None else FALSE

    def deref(self, n):
        if self.out is None:
            raise Giveup("does not return")
        return self.I.deref_read(self.out, self.args[n])

    def bits(self, n):
        v = self.deref(n)
        if isinstance(v, DqV):
            v = v.norm()
        if not isinstance(v, SeqV):
            raise Giveup("output is %r" % (v,))
        return [(g, self.I.need_term(x), s) for g, x, s in v.items]

    def field(self, n, name, idx=None):
        """field of the struct behind argument n"""
        v = self.deref(n)
        ty = self.prog.inst[self.i]["body"]["locals"][n + 1]
        t = self.prog.tys[ty]
        while t["k"] in ("ref", "ptr"):
            t = self.prog.tys[t["e"]]
        fs = [f[0] for f in t["v"][0]["f"]]
        if name in fs:
            k = fs.index(name)
        elif idx is not None and idx < len(fs):
            k = idx
        else:
            raise Giveup("field %s" % name)
        return self.I.need_term(v.f[k])

    def no_panic(self, name, what, kinds=None):
        bad = FALSE
        where = None
        for g, k, w in self.I.panics:
            bad = OR(bad, g)
            where = where or "%s at %s" % (k, w)
        if bad is FALSE:
            self.ctx.passed(name)
            return True
        return self.ctx.differ(name, bad, self.where, lambda env: "%s: can panic (%s)" % (what, where))

    def returns(self, name, what, need):
        """the function returns normally for every input in `need`"""
        miss = AND(need, NOT(self.g))
        for g, w in self.I.cuts:
            miss = AND(miss, NOT(g))
        if miss is FALSE:
            self.ctx.passed(name)
            return True
        known = FALSE
        for e in self.I.panics + self.I.diverges:
            known = OR(known, e[0])
        if AND(miss, known) is FALSE:
            raise Giveup("a path of %s is neither followed to its end nor known to stop" % what)
        where = "; ".join("%s at %s" % (k, w) for g, k, w in self.I.panics[:3]) or "; ".join("endless loop at %s" % w for g, w in self.I.diverges[:3])
        return self.ctx.differ(name, miss, self.where, lambda env: "%s: does not complete normally (%s)" % (what, where))


def newvec(I, st):
    return RefV([(TRUE, I.alloc(st, SeqV((), None, True)))])


def bitq(bits):
    """a queue of the given bit terms"""
    def f(I, st):
        return RefV([(TRUE, I.alloc(st, SeqV([(TRUE, b, None) for b in bits], None, True)))])
    return f


def arr(vals, slice_=True):
    def f(I, st):
        o = I.alloc(st, Agg(vals))
        return RefV([(TRUE, Ptr(o.obj, (), (ZERO, const(len(vals))) if slice_ else None))])
    return f


def struct_sel(prefix):
    return prefix


# ------------------------------------------------------------------ entry point
def load():
    """export the resolved program from /repo's working tree"""
    b, l = extract.export()
    return Prog(b), Prog(l)


def known():
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f):
        return []
    return json.load(open(f))["known"]


def finish(ctx, t0, level_explain):
    kn = {k["key"]: k for k in known() if k["property"] == ctx.prop}
    real = []
    for v in ctx.viol:
        if v[0] in kn:
            print("KNOWN-FINDING: property=%s %s" % (ctx.prop, kn[v[0]]["what"]))
        else:
            real.append(v)
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, "%s.report.json" % ctx.prop)
    rep = [{"rule": v[0], "where": v[1], "what": v[2], "witness": v[3]} for v in real]
    if real:
        json.dump(rep, open(replay, "w"), indent=1, default=str)
    elif os.path.exists(replay):
        os.unlink(replay)
    cov = {
        "explanation": level_explain,
        "obligations_decided": ctx.ok + len(real),
        "obligations_undecided": len(ctx.undecided),
        "functions_analysed": len(ctx.fns),
        "functions": sorted(ctx.fns)[:200],
        "counts": ctx.counts,
        "rules": ctx.rules,
        "samples": ctx.samples[:25],
        "undecided": ctx.undecided[:40],
        "known_findings": sorted(k for k in kn),
    }
    ev_ = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": "other", "coverage": cov,
           "wall_s": round(time.time() - t0, 2), "violations": len(real), "assumptions": ctx.assumptions}
    json.dump(ev_, open(os.path.join(EVID, ctx.prop + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations hold, %d undecided, %d violated; %d functions analysed; %s; %.1f s" % (
        ctx.prop, ctx.ok, len(ctx.undecided), len(real), len(ctx.fns),
        ", ".join("%s %s" % (v, k) for k, v in ctx.counts.items()), time.time() - t0))
    for n, w in ctx.undecided[:12]:
        print("  undecided: %s: %s" % (n, w))
    for v in real[:8]:
        print("  %s\n    in %s\n    %s%s" % (v[0], v[1], v[2], "\n    for " + json.dumps(v[3], default=str)[:600] if v[3] else ""))
    if real:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, replay))
        return 1
    return 0
