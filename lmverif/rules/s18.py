"""S18: the weight a sampler returns is the contribution of what it sampled divided by its density."""
from fractions import Fraction

from ..core import *
from ..prog import kids, walk
from ..sym import Sym, Hooks, S, GiveUp, ONE, ZERO, NONE, const, isconst, iszero

# interface -> sampler -> (density, how its arguments are made, contribution, arguments)
# arguments: int i = i-th argument of the sampler, "x" = field x of the sample, "0" = false / zero
RULES = {
    "lm::Material": {
        "sample_component": ("pdf_component", [".comp", 1, 2], None, None),
        "sample_direction": ("pdf_direction", [1, 2, ".wo", 3, "0"], "eval", [1, 2, ".wo", 3, 4, "0"]),
    },
    "lm::Phase": {
        "sample_direction": ("pdf_direction", [1, 2, ".wo"], "eval", [1, 2, ".wo"]),
    },
    "lm::Light": {
        "sample_ray": ("pdf_ray", [".geom", ".wo", 1, "0"], "eval", [".geom", ".wo", "0"]),
        "sample_direction": ("pdf_direction", [1, ".wo"], "eval", [1, ".wo", "0"]),
        "sample_position": ("pdf_position", [".geom", 1], None, None),
        "sample_direct": ("pdf_direct", [1, ".geom", 2, ".wo", "0"], "eval", [".geom", ".wo", "0"]),
    },
    "lm::Camera": {
        "sample_ray": ("pdf_ray", [".geom", ".wo"], "eval", [".wo"]),
        "sample_direction": ("pdf_direction", [1, ".wo"], "eval", [".wo"]),
        "sample_position": ("pdf_position", [".geom"], None, None),
        "sample_direct": ("pdf_direct", [1, ".geom", ".wo"], "eval", [".wo"]),
    },
}
# the generalised samplers of lm::path
PATH = {
    "sample_primary_ray": ("pdf_primary_ray", [1, ".sp", ".wo", "0"], "eval_contrb_direction", [1, ".sp", "w", ".wo", "0", 2, "0"]),
    "sample_component": ("pdf_component", [1, 2, 3, ".comp"], None, None),
    "sample_position": ("pdf_position", [1, ".sp"], None, None),
    "sample_direction": ("pdf_direction", [1, 2, 3, ".wo", 4, "0"], "eval_contrb_direction", [1, 2, 3, ".wo", 4, 5, "0"]),
    "sample_direct": ("pdf_direct", [1, 2, ".sp", ".wo", "0"], "eval_contrb_direction", [1, ".sp", "w", ".wo", "0", 3, "0"]),
}


OPAQUE = {"lm::math::orthonormal_basis", "lm::Dist::sample", "lm::Dist::pmf", "lm::Dist2::sample", "lm::Dist2::pdf"}
# density of a warp's result: (coefficient, exponent of pi)
WARPS = {
    "lm::math::sample_uniform_sphere": (Fraction(1, 4), -1),      # w.r.t. solid angle
    "lm::math::sample_cosine_weighted": (Fraction(1), -1),        # w.r.t. projected solid angle
    "lm::math::sample_uniform_disk": (Fraction(1), -1),           # w.r.t. area, up to the radius
}


class H(Hooks):
    """samplers of another object satisfy the rule by induction; library code is opaque"""

    def __init__(self, P):
        self.P = P
        self._loop = {}

    def inline(self, sym, fn, n, fr):
        if not (fn.file.startswith(self.P.root + "/include/lm") or fn.file.startswith(self.P.root + "/src") or fn.file.startswith(self.P.root + "/plugin")
                or fn.file.startswith(self.P.root + "/functest")):
            return False
        if fn.qn in OPAQUE or fn.qn in WARPS:
            return False
        if fn.key not in self._loop:
            self._loop[fn.key] = False
            self._loop[fn.key] = self.summarisable(fn)
        return self._loop[fn.key]

    def summarisable(self, fn):
        """no loop, or only loops that add up one term per element"""
        if not any(n["k"] in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt", "GotoStmt", "CXXTryStmt", "OMP") for n in fn.walk()):
            return True
        t = Sym(self.P, H(self.P), maxdepth=6)
        try:
            t.start(fn, fn.cls)
        except GiveUp:
            return False
        return not t.badloops

    def call(self, sym, n, name, st, fr):
        if n["k"] != "MCall" or not n.get("virt"):
            return None
        m = n.get("mname")
        o = sym.bare(n["c"][0])
        if o["k"] == "CXXThisExpr" and fr.dyn:
            return None
        rec = self.P.rec_of(o["t"]) if "t" in o else None
        out = []
        iface = next((i for i in list(RULES) + ["lm::Scene"] if rec and (rec == i or self.P.derives(rec, i))), None)
        if iface is None:
            return None
        for s, vs in sym.evs([o] + n["c"][1:], st, fr):
            obj, args = vs[0], [x if x[0] in "mrn" else sym.unknown("arg") for x in vs[1:]]
            if obj[0] == "m" and not isconst(obj) and self.P.ty(self.P.strip_ref(o["t"]))["k"] == "ptr":
                s = s.fact(("rcv", sym.atom_of(obj)), True)
            if m in RULES.get(iface, ()) or m == "sample_light_selection":
                for leaf in self.leaves(sym, args[0]) if args else ():
                    s = s.fact(("use", leaf, n["id"]), True)
            out.append((s, self.value(sym, iface, m, obj, args)))
        return out

    def leaves(self, sym, v):
        """the random numbers (components of the sampler's random input) a value carries"""
        if v[0] == "r" and v[2] is None:
            for k, x in v[3]:
                yield from self.leaves(sym, x)
        elif v[0] == "m" and len(v[2]) == 1:
            (a, e), = v[2]
            k = sym.T.keys[a]
            if k[0] == "vec":
                for x in k[1:]:
                    yield from self.leaves(sym, x)
            elif k[0] == "f":
                yield a
            else:
                yield a

    def value(self, sym, iface, m, obj, args):
        dep = frozenset()
        at = sym.A(("call", iface + "::" + m, (obj,) + tuple(args)), dep)
        if iface == "lm::Scene":
            if m == "sample_light_selection":
                a = sym.atom_of(at)
                li = sym.A(("f", a, "light_index"))
                p = sym.A(("call", "lm::Scene::pdf_light_selection", (obj, li)))
                return ("r", "lm::LightSelectionSample", a, (("light_index", li), ("p_sel", p)))
            if m == "light_index_at" and args and args[0][0] == "m" and len(args[0][2]) == 1:
                # the light a primitive index came from: scene.light_index_at(light_primitive_index_at(i).index) == i
                (x, e), = args[0][2]
                k = sym.T.keys[x]
                if k[0] == "f" and k[2] == "index":
                    k2 = sym.T.keys[k[1]]
                    if k2[0] == "call" and k2[1] == "lm::Scene::light_primitive_index_at" and k2[2][0] == obj:
                        return k2[2][1]
            return at
        rule = RULES[iface].get(m)
        if rule is None:
            return at
        a = sym.atom_of(at)
        base = ("r", "?", a, ())
        pdf, pa, ev, ea = rule
        mk = lambda spec: tuple(ZERO if x == "0" else sym.field(base, x[1:]) if isinstance(x, str) else args[x] for x in spec)
        p = sym.A(("call", iface + "::" + pdf, (obj,) + mk(pa)))
        e = sym.A(("call", iface + "::" + ev, (obj,) + mk(ea))) if ev else ONE
        return ("r", "?", a, (("weight", sym.div(e, p)),))


def method(P, cls, iface, m, nargs):
    """the implementation of iface::m that an object of class cls runs"""
    for c in [cls] + P.bases_of(cls):
        for f in P.by_cls.get(c, ()):
            if f.body is not None and f.qn.split("::")[-1] == m and len(f.params) == nargs and not f.is_lambda:
                return f
    return None


def check_sampler(ctx, R, sym, label, fs, dyn, fp, pa, fe, ea, pre, this):
    """fs, fp, fe: functions (fe may be None); pre: list of (note, args)"""
    P = ctx.P
    T = (("this",), ())
    for note, args in pre:
        try:
            outs = sym.start(fs, dyn, args, None, T)
        except GiveUp as e:
            R.count("samplers not decided")
            R.notes.append("%s: %s" % (label, e))
            continue
        a0 = [args[i] if args and i < len(args) and args[i] is not None else sym.A(("par", p.get("n") or "arg%d" % i, fs.key)) for i, p in enumerate(fs.params)]
        root = sym.T.atom(("par", fs.params[0].get("n") or "arg0", fs.key)) if fs.params else None
        inner = {}
        for st, v in outs:
            uses = {}
            for k in st.facts:
                if k[0] == "use":
                    uses.setdefault(k[1], set()).add(k[2])
            twice = overlap(sym, uses)
            R.oblige(not twice, "reuse:%s" % label, "%s hands the random number %s to two decisions" % (label + note, ", ".join(sorted(map(sym.show_atom, twice)))), fs.where(),
                     sample=None)
            if v == NONE:
                R.count("empty outcomes")
                continue
            if v[0] == "m" and isconst(v):
                R.count("empty outcomes")
                continue
            pr = probability(sym, st, v, root)
            if pr is not None:
                ib = inner_of(sym, v)
                if ib is not None:
                    inner.setdefault(frozenset((k, b) for k, b in st.facts.items() if k[0] not in ("rcv", "use") and not involves(sym, k, root)), {}).setdefault((pr, ib[0]), ib)
            mk = lambda spec: [ZERO if x == "0" else sym.A(("any", x)) if x == "w" else sym.field(v, x[1:]) if isinstance(x, str) else a0[x] for x in spec]
            w = sym.field(v, "weight")
            try:
                ps = run(sym, fp, dyn, mk(pa), st, T)
                for s2, p in ps:
                    if p[0] == "m" and iszero(p):
                        R.count("outcomes outside the density's support")
                        continue
                    es = run(sym, fe, dyn, mk(ea), s2, T) if fe is not None else [(s2, ONE)]
                    for s3, e in es:
                        if sym.has_unknown(w) or sym.has_unknown(p) or sym.has_unknown(e):
                            R.count("outcomes not decided")
                            R.notes.append("%s: unknown value" % label)
                            continue
                        lhs = sym.mul(w, p)
                        ok = sym.equal(lhs, e)
                        R.count("outcomes compared")
                        R.oblige(ok, "weight:%s" % label,
                                 "%s: the returned weight %s times the density %s is %s, not the contribution %s" % (
                                     label + note, sym.show(w), sym.show(p), sym.show(lhs), sym.show(e)), fs.where(),
                                 trace=["sampler %s (%s)" % (fs.label(), fs.where()), "density %s (%s)" % (fp.label(), fp.where())] +
                                 (["contribution %s (%s)" % (fe.label(), fe.where())] if fe else []) + ["decided: " + facts_str(sym, s3)],
                                 sample="%s: %s * %s == %s" % (label, sym.show(w)[:60], sym.show(p)[:60], sym.show(e)[:60]))
                        if ok and fe is None and pr is not None and fs.qn.split("::")[-1] == "sample_component" and inner_of(sym, v) is None:
                            R.count("selection probabilities compared")
                            R.oblige(sym.equal(p, pr), "probability:%s" % label,
                                     "%s: component %s is chosen with probability %s but its density is %s" % (label + note, sym.show(sym.field(v, "comp")), sym.show(pr), sym.show(p)),
                                     fs.where(), trace=["decided: " + facts_str(sym, s3)], sample="%s: chosen with probability %s" % (label, sym.show(pr)[:80]))
                        if ok:
                            warp_check(R, sym, label + note, fs, v, p)
                            area_check(R, sym, label + note, fs, v, p)
            except GiveUp as e:
                R.count("samplers not decided")
                R.notes.append("%s: %s" % (label, e))
        if dyn is not None:
            marginal(R, sym, label + note, fs, fp, pa, dyn, a0, inner, T)


def overlap(sym, uses):
    """random numbers used at two places; a whole vector covers its components"""
    out = set()
    items = [(a, c) for a, cs in uses.items() for c in cs]
    for i, (a, c) in enumerate(items):
        for b, d in items[i + 1:]:
            if (a != b or c != d) and (a in sym.subatoms(b) or b in sym.subatoms(a)):
                out.add(a)
    return out


def involves(sym, fact, root):
    """does a decided condition look at the random input"""
    if root is None:
        return False
    if fact[0] == "c":
        return root in sym.subatoms(fact[1])
    if fact[0] == "nz":
        return any(root in sym.subatoms(a) for a in fact[1])
    if fact[0] == "eq":
        return sym.mentions(fact[1], {root}) or sym.mentions(fact[2], {root})
    return False


def is_leaf(sym, a, root):
    k = sym.T.keys[a]
    return a == root or (k[0] == "f" and is_leaf(sym, k[1], root))


def probability(sym, st, v, root):
    """probability of the random decisions of an outcome, None if not understood"""
    pr = ONE
    for k, b in st.facts.items():
        if k[0] in ("rcv", "use") or not involves(sym, k, root):
            continue
        if k[0] != "c" or sym.T.keys[k[1]][0] != "pos":
            if k[0] == "nz" and all(sym.T.keys[a][0] == "+" or not is_leaf(sym, a, root) for a in k[1]):
                return None
            return None
        d = sym.T.keys[k[1]][1]
        ts = sym.terms(d)
        lf = [(m, c) for m, c in ts.items() if len(m) == 1 and next(iter(m))[1] == 1 and is_leaf(sym, next(iter(m))[0], root)]
        if len(lf) != 1:
            return None
        m, c = lf[0]
        rest = sym.from_terms({x: y for x, y in ts.items() if x != m})
        if sym.mentions(rest, {root}):
            return None
        # pos(c*u + rest): for c < 0 it says u < rest/-c
        thr = ("m", rest[1] / -c, rest[2]) if not iszero(rest) else ZERO
        p = thr if c < 0 else sym.add(ONE, thr, -1)
        pr = sym.mul(pr, p if b else sym.add(ONE, p, -1))
    # draws from discrete distributions the sample depends on
    acc = set()
    sym._collect(v, acc)
    for a in sorted(acc):
        k = sym.T.keys[a]
        if k[0] == "call" and k[1] == "lm::Dist::sample" and root in sym.subatoms(a):
            pr = sym.mul(pr, sym.A(("call", "lm::Dist::pmf", (k[2][0], ("m", Fraction(1), frozenset({(a, 1)}))))))
    if v[0] == "r" and any(k == "comp" for k, x in v[3]):
        c = sym.field(v, "comp")
        if sym.mentions(sym.subst(c, {a: ZERO for a in acc if sym.T.keys[a][0] == "call" and sym.T.keys[a][1] == "lm::Dist::sample"}), {root}):
            return None
    return pr


def inner_of(sym, v):
    """(object, arguments, atom) of the other object's sampler this sample comes from"""
    if v[0] != "r" and v[0] != "m":
        return None
    w = sym.field(v, "wo") if v[0] == "m" or not any(k == "comp" for k, x in v[3]) else sym.field(v, "comp")
    a = v[2] if v[0] == "r" else None
    if w[0] == "m" and len(w[2]) == 1:
        (x, e), = w[2]
        k = sym.T.keys[x]
        if k[0] == "f" and k[2] in ("wo", "comp"):
            a = k[1]
    if a is None:
        return None
    k = sym.T.keys[a]
    if k[0] == "call" and k[1].split("::")[-1].startswith("sample_") and "::".join(k[1].split("::")[:-1]) in RULES:
        return (k[2][0], k[2][1:], a, k[1])
    return None


def marginal(R, sym, label, fs, fp, pa, dyn, a0, inner, T):
    """a sampler that picks another object's sampler has the mixture density of the candidates"""
    WO = sym.A(("any", "wo"))
    for facts, cands in inner.items():
        tot = ZERO
        exp = ZERO
        bad = False
        for (pr, obj), (o, args, a, qn) in cands.items():
            iface, m = "::".join(qn.split("::")[:-1]), qn.split("::")[-1]
            if m != "sample_direction":
                bad = True
                break
            rule = RULES[iface][m]
            pargs = tuple(ZERO if x == "0" else WO if x == ".wo" else args[x] for x in rule[1])
            term = sym.mul(pr, sym.A(("call", iface + "::" + rule[0], (o,) + pargs)))
            # a draw from a discrete distribution: the term is summed over its outcomes
            acc = set()
            sym._collect(term, acc)
            draws = [x for x in acc if sym.T.keys[x][0] == "call" and sym.T.keys[x][1] == "lm::Dist::sample"]
            if len(draws) > 1:
                bad = True
                break
            if draws:
                cont = [sym.T.keys[x][1] for x in acc if sym.T.keys[x][0] == "idx" and sym.T.keys[x][2] == ("m", Fraction(1), frozenset({(draws[0], 1)}))]
                if len(cont) != 1:
                    bad = True
                    break
                t = sym.subst(term, {draws[0]: sym.A(("bv", 0))})
                exp = sym.add(exp, sym.A(("sum", sym.A(("size", sym.atom_of(cont[0]))), t)))
                tot = ONE
            else:
                exp = sym.add(exp, term)
                tot = sym.add(tot, pr)
        if bad or not sym.equal(tot, ONE):
            R.count("mixture densities not decided")
            R.notes.append("%s: mixture of %d candidates not decided" % (label, len(cands)))
            continue
        if not sym.h.inline(sym, fp, None, None):
            R.count("mixture densities not decided")
            R.notes.append("%s: the density is computed by a loop that is not a plain sum" % label)
            continue
        st = S({}, dict(facts))
        args = [ZERO if x == "0" else WO if isinstance(x, str) else a0[x] for x in pa]
        try:
            for s2, p in run(sym, fp, dyn, args, st, T):
                if sym.has_unknown(p):
                    continue
                R.count("mixture densities compared")
                R.oblige(sym.equal(p, exp), "mixture:%s" % label,
                         "%s: the density of the sampled direction is %s, not the mixture %s of the densities it is sampled from" % (label, sym.show(p), sym.show(exp)), fp.where(),
                         trace=["sampler %s (%s)" % (fs.label(), fs.where()), "decided: " + facts_str(sym, s2)], sample="%s: density %s" % (label, sym.show(exp)[:100]))
        except GiveUp:
            R.count("mixture densities not decided")


def warp_check(R, sym, label, fs, v, p):
    """the density carries the normalisation of the warps that made the sample"""
    acc = set()
    sym._collect(tuple(x for k, x in v[3] if k in ("wo", "geom", "sp")) if v[0] == "r" else v, acc)
    ws = {sym.T.keys[a] for a in acc if sym.T.keys[a][0] == "call" and sym.T.keys[a][1] in WARPS}
    if not ws or len({k[1:] for k in ws}) != len(ws):
        return
    if p[0] != "m":
        return
    co, e = Fraction(1), 0
    for k in ws:
        c, x = WARPS[k[1]]
        co, e = co * c, e + x
    pi = sum(x for a, x in p[2] if sym.T.keys[a][0] == "g" and str(sym.T.keys[a][1]).split("@")[-1].split("::")[-1] == "Pi")
    R.count("warp normalisations compared")
    R.oblige(p[1] == co and pi == e, "warp:%s" % label,
             "%s samples with %s, so its density must be %s*Pi^%d times geometric factors, but it is %s" % (label, ", ".join(sorted(k[1].split("::")[-1] for k in ws)), co, e, sym.show(p)), fs.where(),
             sample="%s: density %s carries %s*Pi^%d" % (label, sym.show(p)[:60], co, e))


def area_check(R, sym, label, fs, v, p):
    """points sampled on a surface and then transformed: the density follows the change of area around the point, J / |M^T n|, not that of volume"""
    if v[0] != "r" or p[0] != "m":
        return
    acc = set()
    sym._collect(tuple(x for k, x in v[3] if k in ("geom", "sp")), acc)
    at = set()
    for a in acc:
        at |= set(sym.subatoms(a)) | {a}
    Ms = {sym.T.keys[a][1] for a in at if sym.T.keys[a][0] == "mat*"}
    Ms = {next(iter(m[2]))[0] for m in Ms if m[0] == "m" and len(m[2]) == 1}
    Ms = {a for a in Ms if sym.T.keys[a][0] == "f" and sym.T.keys[a][2] == "M"}
    if len(Ms) != 1:
        return
    M = next(iter(Ms))
    T = sym.T.keys[M][1]
    J = sum(x for a, x in p[2] if sym.T.keys[a] == ("f", T, "J"))
    used = set()
    sym._collect(p, used)
    for a in list(used):
        used |= set(sym.subatoms(a))
    R.count("densities on transformed surfaces")
    lin = [a for a in used if a in Ms or sym.T.keys[a][0] == "f" and sym.T.keys[a][1] == T and sym.T.keys[a][2] != "J"]
    if not lin:
        R.oblige(False, "area:%s" % label, "%s transforms the point it sampled, but its density %s, so it is off by a factor where the transformation scales" % (
            label, "depends on the transformation only through the change of volume" if J else "does not depend on the transformation"), fs.where())
        return
    for a, e in p[2]:
        k = sym.T.keys[a]
        if k[0] == "call" and k[1].split("::")[-1] in ("length", "sqrt") or k[0] in ("len", "sqrt"):
            x = k[2][0] if k[0] == "call" else k[1]
            kx = sym.T.keys[next(iter(x[2]))[0]] if x[0] == "m" and len(x[2]) == 1 else None
            if kx is None or kx[0] != "mat*":
                continue
            A = kx[1]
            ops = []
            while A[0] == "m" and len(A[2]) == 1:
                ka = sym.T.keys[next(iter(A[2]))[0]]
                if ka[0] == "ctor" and len(ka[2]) == 1:
                    A = ka[2][0]
                elif ka[0] == "call" and len(ka[2]) == 1:
                    ops.append(ka[1].split("::")[-1])
                    A = ka[2][0]
                else:
                    break
            b = next(iter(A[2]))[0] if A[0] == "m" and len(A[2]) == 1 else None
            if b != M:
                R.count("densities on transformed surfaces not decided")
                return
            R.oblige(ops == ["transpose"] and e == 1 and J == -1, "area:%s" % label, "%s transforms the point it sampled, but its density is %s, not that of the untransformed surface times |M^T n| / J" % (label, sym.show(p)), fs.where(),
                     sample="%s: density on the transformed surface %s" % (label, sym.show(p)[:80]))
            return
    R.count("densities on transformed surfaces not decided")


def facts_str(sym, st):
    out = []
    for k, b in st.facts.items():
        if k[0] == "c":
            out.append("%s=%s" % (sym.show_atom(k[1]), b))
        elif k[0] == "nz":
            out.append("%s %s 0" % ("*".join(sym.show_atom(a) for a in k[1]), "!=" if b else "=="))
        elif k[0] == "eq":
            out.append("%s %s %s" % (sym.show(k[1]), "==" if b else "!=", sym.show(k[2])))
    return "; ".join(out)[:300]


def run(sym, f, dyn, args, st, this):
    if sym.h.inline(sym, f, None, None):
        return sym.start(f, dyn, args, S({}, st.facts, st.req), this)
    # opaque: the same value an ordinary call of it has
    thisv = [sym.A(("this",))] if f.cls and not f.get("static") else []
    return [(st, sym.A(("call", f.qn, tuple(thisv + list(args)))))]


def check(ctx):
    P, R = ctx.P, Result()
    sym = Sym(P, H(P), maxdepth=10)
    for iface, rules in RULES.items():
        P.need(iface in P.records, "interface %s" % iface)
        classes = sorted(c for c in P.all_derived(iface) if c in P.records and c != iface)
        for cls in classes:
            if "Py" in cls or "pybind" in cls or "trampoline" in cls.lower():
                continue
            for m, (pdf, pa, ev, ea) in rules.items():
                fs = next((f for c in [cls] + P.bases_of(cls) for f in P.by_cls.get(c, ()) if f.body is not None and f.qn.split("::")[-1] == m and not f.is_lambda), None)
                if fs is None:
                    continue
                fp = method(P, cls, iface, pdf, len(pa))
                fe = method(P, cls, iface, ev, len(ea)) if ev else None
                if fp is None or (ev and fe is None):
                    continue
                R.count("samplers")
                check_sampler(ctx, R, sym, "%s::%s" % (cls, m), fs, cls, fp, pa, fe, ea, [("", None)], True)
    selection(ctx, R, sym)
    tables(ctx, R)
    # lm::path
    for m, (pdf, pa, ev, ea) in PATH.items():
        fss = [f for f in P.fns("lm::path::" + m) if f.body is not None and f.params and "Rng" not in P.tstr(f.params[0]["t"])]
        fps = [f for f in P.fns("lm::path::" + pdf) if f.body is not None]
        fes = [f for f in P.fns("lm::path::" + ev) if f.body is not None] if ev else [None]
        if not fss or not fps or not fes:
            continue
        fs, fp, fe = fss[0], fps[0], fes[0]
        R.count("samplers")
        pre = [("", None)]
        if m in ("sample_direction", "sample_component"):
            pre = []
            for nm, v in sorted(enumvals(P).items()):
                sp = ("r", "lm::SceneInteraction", sym.T.atom(("par", "sp", fs.key)), (("type", const(v)),))
                pre.append((" on a " + nm, [None, None, sp]))
        elif m == "sample_direct":
            pass
        check_sampler(ctx, R, sym, "lm::path::" + m, fs, None, fp, pa, fe, ea, pre, False)
    R.floor("samplers", 45)
    R.floor("outcomes compared", 60)
    return R


def selection(ctx, R, sym):
    """light selection: the reported probability is the density, and that of an even choice"""
    P = ctx.P
    for cls in sorted(c for c in P.all_derived("lm::Scene") if c in P.records):
        fs = next((f for f in P.by_cls.get(cls, ()) if f.body is not None and f.qn.endswith("::sample_light_selection")), None)
        fp = next((f for f in P.by_cls.get(cls, ()) if f.body is not None and f.qn.endswith("::pdf_light_selection")), None)
        if fs is None or fp is None or "Py" in cls:
            continue
        R.count("samplers")
        T = (("this",), ())
        root = sym.T.atom(("par", fs.params[0].get("n") or "arg0", fs.key))
        for st, v in sym.start(fs, cls, None, None, T):
            li, ps = sym.field(v, "light_index"), sym.field(v, "p_sel")
            for s2, p in run(sym, fp, cls, [li], st, T):
                if sym.has_unknown(p) or sym.has_unknown(ps):
                    R.count("outcomes not decided")
                    continue
                R.count("outcomes compared")
                R.oblige(sym.equal(p, ps), "selection:%s" % cls, "%s::sample_light_selection reports probability %s but pdf_light_selection gives %s" % (cls, sym.show(ps), sym.show(p)),
                         fs.where(), sample="light selected with probability %s" % sym.show(p))
                n = even_choice(sym, li, root)
                if n is not None and isinstance(n, str):
                    R.count("selection probabilities compared")
                    R.oblige(False, "even:%s" % cls, "%s::sample_light_selection selects light %s, which %s, but reports the probability %s for every light" % (cls, sym.show(li), n, sym.show(p)), fs.where())
                elif n is not None:
                    R.count("selection probabilities compared")
                    R.oblige(sym.equal(sym.mul(p, n), ONE), "even:%s" % cls, "%s::sample_light_selection chooses evenly among %s lights but reports probability %s" % (cls, sym.show(n), sym.show(p)),
                             fs.where(), sample="even choice among %s" % sym.show(n))


def even_choice(sym, v, root):
    """N if v is floor(u*N), clamped; what is wrong if it is another step function of u; None if it is not known"""
    if v[0] != "m":
        return None
    if v[1] == 1 and len(v[2]) == 1:
        (a, e), = v[2]
        k = sym.T.keys[a]
        if k[0] == "call" and k[1].split("::")[-1] in ("clamp", "min", "max"):
            for x in k[2]:
                r = even_choice(sym, x, root)
                if r is not None:
                    return r
            return None
    # a constant and the integer part of something linear in u
    acc = set()
    sym._collect(v, acc)
    tr = [a for a in acc if sym.T.keys[a][0] == "trunc"]
    if len(tr) != 1:
        return None
    t = ("m", Fraction(1), frozenset({(tr[0], 1)}))
    d = sym.add(v, t, -1)
    x = sym.T.keys[tr[0]][1]
    c = sym.subst(x, {root: ZERO})
    n = sym.add(sym.subst(x, {root: ONE}), c, -1)
    if not isconst(d) or not isconst(c) or not sym.equal(x, sym.add(c, sym.mul(n, ("m", Fraction(1), frozenset({(root, 1)}))))):
        return None
    if c[1].denominator != 1 or c[1] + d[1] != 0:
        return "is not even among them"
    return n


def tables(ctx, R):
    """tabulated distributions: densities are differences of the cumulated table; the 2D table factors"""
    P = ctx.P
    T = (("this",), ())

    class D(H):
        def inline(self, sym, fn, n, fr):
            return fn.qn not in ("lm::Dist::sample", "lm::Dist::pmf") and fn.qn.startswith("lm::")
    sym = Sym(P, D(P))
    f = next((x for x in P.fns("lm::Dist::pmf") if x.body is not None), None)
    if f is not None:
        R.count("samplers")
        for st, v in sym.start(f, None, None, None, T):
            if iszero(v):
                continue
            i = sym.A(("par", f.params[0].get("n") or "arg0", f.key))
            c = sym.A(("f", sym.T.atom(("this",)), "c"))
            R.count("outcomes compared")
            R.oblige(sym.has_unknown(v) or sym.equal(v, sym.add(sym.index(c, sym.add(i, ONE)), sym.index(c, i), -1)), "pmf", "Dist::pmf(i) is %s, not the increment of the cumulated table" % sym.show(v), f.where(),
                     sample="pmf(i) = %s" % sym.show(v))
    fs = next((x for x in P.fns("lm::Dist2::sample") if x.body is not None), None)
    fp = next((x for x in P.fns("lm::Dist2::pdf") if x.body is not None), None)
    if fs is None or fp is None:
        return
    R.count("samplers")
    th = sym.T.atom(("this",))
    w, h = sym.A(("f", th, "w")), sym.A(("f", th, "h"))
    for st, v in sym.start(fs, None, None, None, T):
        u, t = sym.field(v, 0), sym.field(v, 1)
        acc = set()
        sym._collect(v, acc)
        dr = [a for a in acc if sym.T.keys[a][0] == "call" and sym.T.keys[a][1] == "lm::Dist::sample"]
        val = lambda a: ("m", Fraction(1), frozenset({(a, 1)}))
        # which draw moves which coordinate, by a whole cell
        exp_u, exp_t = sym.expand(sym.mul(u, w))[0], sym.expand(sym.mul(t, h))[0]
        xs = [a for a in dr if exp_u.get(frozenset({(a, 1)})) == 1]
        ys = [a for a in dr if exp_t.get(frozenset({(a, 1)})) == 1]
        if len(dr) != 2 or len(xs) != 1 or len(ys) != 1 or xs == ys:
            R.count("outcomes not decided")
            continue
        x, y = xs[0], ys[0]
        us = [sym.T.keys[a][2][1] for a in (x, y)]
        rest = [sym.from_terms({k: c for k, c in e.items() if k != frozenset({(a, 1)})}) for e, a in ((exp_u, x), (exp_t, y))]
        R.count("outcomes compared")
        R.oblige(len(set(us + rest)) == 4, "dist2:numbers", "Dist2::sample uses the same random number for two coordinates: cells %s, %s; offsets %s, %s" % tuple(map(sym.show, us + rest)), fs.where(),
                 sample="Dist2::sample uses four distinct numbers")
        P1 = lambda a: sym.A(("call", "lm::Dist::pmf", (sym.T.keys[a][2][0], val(a))))
        exp = sym.mul(sym.mul(P1(x), P1(y)), sym.mul(w, h))
        for s2, p in sym.start(fp, None, None, S({}, st.facts), T):
            # cell of the argument: floor(arg * size), possibly clamped to the last cell
            sub = {}
            acc2 = set()
            sym._collect(p, acc2)
            for i, size, a in ((0, w, x), (1, h, y)):
                par = sym.T.atom(("par", fp.params[i].get("n") or "arg%d" % i, fp.key))
                for b in acc2:
                    n = even_choice(sym, val(b), par)
                    if n is not None and sym.equal(n, size):
                        sub[b] = val(a)
            q = sym.subst(p, sub)
            R.count("outcomes compared")
            R.oblige(sym.has_unknown(q) or sym.equal(q, exp), "dist2:pdf", "Dist2::pdf is %s; a point sampled by Dist2::sample has density %s" % (sym.show(p), sym.show(exp)), fp.where(),
                     sample="Dist2 density %s" % sym.show(exp)[:100])


def enumvals(P):
    """the elementary interaction types"""
    out = {}
    for f in P.fns("lm::path::pdf_direction") + P.fns("lm::path::sample_direction") + P.fns("lm::path::eval_contrb_direction"):
        if f.body is None:
            continue
        for n in f.walk():
            if n["k"] == "DeclRefExpr" and n.get("dk") == "enum" and "SceneInteraction" in str(n.get("qn", n.get("d", ""))):
                v = n["v"]
                if v and v & (v - 1) == 0:
                    out[n["n"]] = v
    return out
