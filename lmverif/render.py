"""Symbolic runs of Renderer::render(): what one sample adds to the film, and what surrounds the parallel run."""
import time
from fractions import Fraction

from .prog import kids
from .sym import Sym, Hooks, S, GiveUp, ONE, ZERO, NONE, const, isconst, iszero

# the sampling API of lm::path whose contracts are decided elsewhere (S18); anything else is looked into
PATH_API = {"sample_primary_ray", "sample_component", "sample_position", "sample_direction", "sample_direct", "sample_distance",
            "pdf_primary_ray", "pdf_component", "pdf_position", "pdf_direction", "pdf_direct",
            "eval_contrb_direction", "eval_transmittance", "raster_position", "is_specular_component", "is_connectable_endpoint",
            "primary_ray", "reflectance", "sample_subpath", "connect_subpaths"}
SAMPLERS = {"sample_primary_ray", "sample_component", "sample_position", "sample_direction", "sample_direct", "sample_distance"}
PATHCLS = {"eval_measurement_contrb_bidir", "eval_sampling_weight_bidir", "pdf_bidir", "eval_mis_weight", "raster_position", "num_verts"}


def is_rng(P, t):
    return "RngImpl" in P.tstr(P.strip_ref(t))


class RH(Hooks):
    def __init__(self, P):
        self.P = P
        self.events = []          # (site, what, values, facts when it happens)
        self.leaves = {}          # loop -> (node, frame, head, states that leave it)
        self.loops = []           # (node, frame, entry, head, backs, changed, lid)
        self.runs = []            # (states before, lambda function, outcome states, where)
        self.inrun = 0
        self._inl = {}

    def inline(self, sym, fn, n, fr):
        r = self.P.root
        if fn.qn.startswith("lm::path::") and fn.qn.split("::")[-1] in PATH_API:
            return False
        if (fn.cls or "").startswith("lm::detail::RngImpl") or (fn.cls or "").startswith("lm::progress") or (fn.cls or "") == "lm::Path" and fn.file.endswith("bidir.h") and fn.qn.split("::")[-1] in PATHCLS - {"num_verts"}:
            return False
        if not (fn.file.startswith(r + "/include/lm") or fn.file.startswith(r + "/src") or fn.file.startswith(r + "/plugin") or fn.file.startswith(r + "/functest")):
            return False
        if fn.key not in self._inl:
            self._inl[fn.key] = not self.loops_in(fn) or self.reaches_film(fn)
        return self._inl[fn.key]

    def loops_in(self, fn, seen=None):
        """does the function, or a project function it calls, loop"""
        seen = seen if seen is not None else set()
        if fn.key in seen:
            return False
        seen.add(fn.key)
        for n in fn.walk():
            if n["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "GotoStmt"):
                return True
            if n["k"] in ("Call", "MCall") and not n.get("virt"):
                g = self.P.funcs.get(n.get("f"))
                if g is not None and g.body is not None and g.file.startswith(self.P.root) and not g.qn.startswith("lm::path::") and self.loops_in(g, seen):
                    return True
        return False

    def reaches_film(self, fn, seen=None):
        seen = seen if seen is not None else set()
        if fn.key in seen:
            return False
        seen.add(fn.key)
        for n in fn.walk():
            if n["k"] == "MCall" and n.get("cls") == "lm::Film" and n.get("mname") in ("splat", "set_pixel", "rescale", "clear"):
                return True
            if n["k"] in ("Call", "MCall", "LambdaExpr"):
                for k in [n.get("f")] + list(n.get("specs", ())):
                    g = self.P.funcs.get(k)
                    if g is not None and g.body is not None and g.file.startswith(self.P.root) and self.reaches_film(g, seen):
                        return True
        return False

    forget = True

    def mark(self):
        return len(self.events), len(self.loops)

    def reset(self, mark):
        del self.events[mark[0]:]
        del self.loops[mark[1]:]

    def init(self, sym, v, st, fr):
        return sym.A(("rng",)) if is_rng(self.P, v["t"]) and self.P.ty(v["t"])["k"] not in ("ref", "rref") else None

    def event(self, sym, what, n, vals, st, fr):
        """film writes are collected with the conditions under which they happen; what surrounds the run goes into the state"""
        vals = tuple(vals)
        if self.inrun:
            self.events.append((n, what, vals, dict(st.facts), fr.fn.where(n), fr.trace(n)))
            if what == "set_pixel":
                st = st.fact(("px", sum(1 for k in st.facts if k[0] == "px")), True)
            return st
        seq = sum(1 for k in st.facts if k[0] == "ev")
        return st.fact(("ev", seq, what, vals, n["id"], fr.fn.where(n)), True)

    def call(self, sym, n, name, st, fr):
        P = self.P
        m = name.split("::")[-1]
        if name.startswith("lm::path::") and m in PATH_API and n["k"] == "Call":
            f = P.funcs.get(n.get("f"))
            pts = n.get("pt") or ([p["t"] for p in f.params] if f is not None else [])
            out = []
            args = n["c"][1:]
            for s, vs in sym.evs(args, st, fr):
                rng = bool(args) and "t" in args[0] and is_rng(P, args[0]["t"])
                if rng:
                    vs = [sym.A(("rng",))] + vs[1:]
                vs = tuple(x if x[0] in "mrn" else sym.unknown("arg") for x in vs)
                dep = frozenset()
                for x in vs:
                    dep |= sym.deps(x)
                key = ("call", name, vs)
                if m in SAMPLERS or m == "sample_subpath" or rng:
                    key += (sym.cidof(fr, n),)
                if m in SAMPLERS:
                    dep |= {("smp", key)}
                out.append((s, sym.A(key, dep)))
            return out
        if n["k"] == "MCall" and m in PATHCLS and n.get("cls") == "lm::Path" and m != "num_verts":
            out = []
            for s, vs in sym.evs(n["c"], st, fr):
                dep = frozenset().union(*[sym.deps(v) for v in vs])
                out.append((s, sym.A(("call", name, tuple(vs)), dep)))
            return out
        if n["k"] == "MCall" and (n.get("virt") or n.get("cls") == "lm::Scene" and (m == "visible" or m.startswith("require_"))):
            o = sym.bare(n["c"][0])
            rec = P.rec_of(o["t"]) if "t" in o else None
            mn = n.get("mname")
            if rec == "lm::scheduler::Scheduler" and mn == "run":
                return self.sched_run(sym, n, st, fr)
            if rec in ("lm::Film", "lm::Scene"):
                out = []
                cs = [c for c in n["c"] if c["k"] != "DefaultArg"]
                for s, vs in sym.evs(cs, st, fr):
                    vs = [x if x[0] in "mrn" else sym.unknown("arg") for x in vs]
                    dep = frozenset().union(*[sym.deps(v) for v in vs])
                    if rec == "lm::Film" and mn in ("clear", "splat", "splat_pixel", "update_pixel", "rescale", "set_pixel", "accum") or rec == "lm::Scene" and mn.startswith("require_"):
                        s = self.event(sym, mn, n, vs, s, fr)
                    out.append((s, sym.A(("call", rec + "::" + mn, tuple(vs)), dep)))
                return out
        if name.startswith("lm::parallel::foreach") or m == "foreach" and name.startswith("lm::parallel"):
            return None
        return None

    def sched_run(self, sym, n, st, fr):
        out = []
        for s, vs in sym.evs(n["c"], st, fr):
            lam = vs[1] if len(vs) > 1 else None
            s = self.event(sym, "run", n, (), s, fr)
            if lam is not None and lam[0] == "l":
                node, lfr = sym._lam[(lam[1], lam[2])]
                f = next((g for g in (self.P.funcs.get(k) for k in [node["f"]] + list(node.get("specs", ()))) if g is not None and g.body is not None), None)
                if f is not None:
                    nf = sym.frame(f, lfr.this, lfr, sym.cidof(fr, n), fr, n, lfr.dyn)
                    s2 = s
                    pars = []
                    for i, p in enumerate(f.params):
                        v = sym.A(("par", ("pixel", "sample", "thread")[i] if i < 3 else "p%d" % i, "run"))
                        pars.append(v)
                        s2 = s2.set(("v", nf.id, p["d"]), v)
                    self.inrun += 1
                    rs = sym.run(nf, s2, keepenv=s.env)
                    self.inrun -= 1
                    self.runs.append((n, f, s, rs, fr.fn.where(n)))
            out.append((s, sym.A(("processed", fr.fn.where(n)))))
        return out

    def loop(self, sym, n, fr, entry, head, backs, changed, lid):
        self.loops.append((n, fr, entry, head, backs, changed, lid))

    def exits(self, sym, n, fr, head, outs, lid):
        self.leaves[len(self.loops) - 1] = (n, fr, head, outs)


def renderers(P):
    """(class, render function) of every renderer"""
    out = []
    for cls in sorted(P.all_derived("lm::Renderer")):
        for f in P.by_cls.get(cls, ()):
            if f.body is not None and f.qn.split("::")[-1] == "render" and not f.is_lambda:
                out.append((cls, f))
    return out


def run_renderer(P, cls, f, maxjoin=4000, maxstates=6000):
    h = RH(P)
    sym = Sym(P, h)
    sym.maxjoin, sym.maxstates = maxjoin, maxstates
    sym.deadline = time.monotonic() + 90
    outs = sym.start(f, cls)
    return sym, h, outs
