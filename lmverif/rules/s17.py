"""S17: the estimators account for every random decision exactly once."""
from fractions import Fraction

from ..core import *
from ..prog import kids, walk
from ..render import renderers, run_renderer, SAMPLERS
from ..sym import Sym, Hooks, S, GiveUp, ONE, ZERO, NONE, const, isconst, iszero

PATH = "lm::path::"


class Walk:
    """what one renderer's run does, as monomials over samples, loop-carried state and evaluations"""

    def __init__(self, ctx, R, cls, f):
        self.P, self.R, self.cls, self.f = ctx.P, R, cls, f
        self.sym, self.h, self.outs = run_renderer(ctx.P, cls, f)
        self.label = cls.split("::")[-1]

    # ---------------------------------------------------------------- values
    def key(self, a):
        return self.sym.T.keys[a]

    def single(self, v):
        """(coefficient, atom) of a value that is one atom, else None"""
        if v[0] == "m" and len(v[2]) == 1:
            (a, e), = v[2]
            if e == 1:
                return v[1], a
        return None

    def call(self, v, *names):
        """(arguments, atom) when v is the result of lm::path::name"""
        s = self.single(v) if v[0] == "m" else (Fraction(1), v[2]) if v[0] == "r" and v[2] is not None and not v[3] else None
        if s is None or s[0] != 1:
            return None
        k = self.key(s[1])
        if k[0] == "call" and any(k[1] == n or k[1] == PATH + n for n in names):
            return k[2], s[1]
        return None

    def fieldof(self, v, name):
        """the value whose field v is"""
        s = self.single(v)
        if s is None or s[0] != 1:
            return None
        k = self.key(s[1])
        if k[0] == "f" and k[2] == name:
            return ("m", Fraction(1), frozenset({(k[1], 1)}))
        return None

    def headroot(self, a):
        k = self.key(a)
        while k[0] == "f":
            a = k[1]
            k = self.key(a)
        return a if k[0] == "h" else None

    def at(self, v, env_of):
        """the value v (head state of a loop, or a field of it) has at the end of the iteration"""
        s = self.single(v)
        if s is None or s[0] != 1:
            return None
        return self.at_atom(s[1], env_of)

    def at_atom(self, a, env_of):
        k = self.key(a)
        if k[0] == "h":
            return env_of(k)
        if k[0] == "f":
            x = self.at_atom(k[1], env_of)
            return self.sym.field(x, k[2]) if x is not None and x[0] in "mr" else None
        return None

    def samples(self, *vals):
        """sampling decisions a value depends on, and the loops whose history it depends on"""
        smp, old = set(), set()
        for v in vals:
            for d in self.sym.deps(v):
                (smp if d[0] == "smp" else old).add(d[1])
        return smp, old

    def weight(self, key):
        a = self.sym.T.atom(key)
        return self.sym.A(("f", a, "weight"), self.sym.T.deps[a])

    # ---------------------------------------------------------------- random decisions by comparison
    def random(self, fact):
        """(random number, probability that the condition is true) for a decided condition on a uniform random number"""
        if fact[0] != "c" or self.key(fact[1])[0] != "pos":
            return None
        d = self.key(fact[1])[1]
        ts = self.sym.terms(d)
        us = [(m, c) for m, c in ts.items() if len(m) == 1 and next(iter(m))[1] == 1 and self.key(next(iter(m))[0])[0] == "rnd"]
        if len(us) != 1:
            return None
        m, c = us[0]
        rest = self.sym.from_terms({x: y for x, y in ts.items() if x != m})
        u = next(iter(m))[0]
        if self.sym.mentions(rest, {u}):
            return None
        thr = ("m", rest[1] / -c, rest[2]) if not iszero(rest) else ZERO
        p = thr if c < 0 else self.sym.add(ONE, thr, -1)
        return u, p

    def chance(self, facts, others):
        """probability of the random outcomes that select this case: those for which the opposite outcome does something else"""
        pr = ONE
        und = False
        for k, b in facts.items():
            r = self.random(k)
            if r is None:
                if k[0] in ("c", "nz", "eq") and any(self.key(x)[0] == "rnd" for x in self.fact_atoms(k)) and not any(
                        d[0] == "smp" for x in self.fact_atoms(k) for d in self.sym.T.deps[x]):
                    und = True
                continue
            rest = frozenset((x, y) for x, y in facts.items() if x != k)
            if frozenset(rest | {(k, not b)}) in others:
                continue
            pr = self.sym.mul(pr, r[1] if b else self.sym.add(ONE, r[1], -1))
        return pr, und

    def fact_atoms(self, k):
        out = set()
        if k[0] == "c":
            return self.sym.subatoms(k[1])
        if k[0] == "nz":
            for a in k[1]:
                out |= set(self.sym.subatoms(a))
        if k[0] == "eq":
            self.sym._collect(k[1], out)
            self.sym._collect(k[2], out)
        return out

    def truth(self, facts, want):
        """is a call that satisfies `want` known to be true"""
        for k, b in facts.items():
            if k[0] == "nz" and b:
                for a in k[1]:
                    kk = self.key(a)
                    if kk[0] == "call" and want(kk):
                        return True
        return False


def product(sym, xs):
    r = ONE
    for x in xs:
        r = sym.mul(r, x)
    return r


def splats(w):
    """distinct film contributions: (site, raster, contribution) -> list of decided conditions"""
    out = {}
    for n, what, vals, facts, where, tr in w.h.events:
        if what != "splat" or len(vals) < 3:
            continue
        out.setdefault((n["id"], vals[1], vals[2]), []).append((facts, where, tr))
    return out


def show_facts(w, facts):
    out = []
    for k, b in facts.items():
        if k[0] == "c":
            out.append("%s%s" % ("" if b else "not ", w.sym.show_atom(k[1])))
        elif k[0] == "nz":
            out.append("%s%s" % ("" if b else "not ", "*".join(sorted(w.sym.show_atom(a) for a in k[1]))))
        elif k[0] == "eq":
            out.append("%s %s %s" % (w.sym.show(k[1]), "==" if b else "!=", w.sym.show(k[2])))
    return "; ".join(x[:120] for x in out)[:1500]


def classify(w, C, rp, facts, others):
    """split a contribution into what is expected: (kind, remaining factor, message)"""
    sym = w.sym
    smp, old = w.samples(C, rp)
    pr, und = w.chance(facts, others)
    if und:
        return None
    exp = product(sym, [w.weight(k) for k in smp])
    exp = sym.div(exp, pr)
    acc = None
    if old:
        heads = {}
        for a, e in C[2]:
            if w.headroot(a) is not None and w.sym.T.deps[w.headroot(a)]:
                heads[a] = e
        acc = heads
        for a in heads:
            exp = sym.mul(exp, ("m", Fraction(1), frozenset({(a, 1)})))
    rest = sym.div(C, exp)
    return smp, old, acc, rest, pr


def check_walk(ctx, R, w):
    sym = w.sym
    P = ctx.P
    sp = splats(w)
    LE = enum(P, "lm::TransDir", "LE")
    EL = enum(P, "lm::TransDir", "EL")
    LIGHT = enum(P, "lm::SceneInteraction", "LightEndpoint")
    media = any(k[0] == "call" and k[1] == PATH + "sample_distance" for k in list(sym.T.keys))
    accs = {}          # loop -> accumulator atoms
    strat = []         # (kind, weighted, facts without this iteration's samples, where)
    if not sp:
        return
    dirs = set()
    for k in list(sym.T.keys):
        if k[0] == "call" and k[1] == PATH + "sample_direction" and any(d[0] == "OLD" for x in k[2] for d in sym.deps(x)):
            dirs.add(k[2][2:5])
    for (site, rp, C), cases in sorted(sp.items(), key=lambda x: (x[0][0], str(x[0][1:]))):
        where = cases[0][1]
        name = "%s at %s" % (w.label, where)
        if C[0] != "m" or iszero(C):
            R.count("contributions that are zero")
            continue
        if sym.has_unknown(C) and not all(sym.T.keys[a][0] in ("h",) for a in unknown_atoms(sym, C)):
            R.count("contributions not decided")
            R.notes.append("%s: unknown value" % name)
            continue
        others = {frozenset(f.items()) for f, _, _ in cases}
        for facts, where, tr in cases:
            r = classify(w, C, rp, facts, others)
            if r is None:
                R.count("contributions not decided")
                continue
            smp, old, acc, rest, pr = r
            R.count("contributions checked")
            tr = list(tr) + ["contribution: " + sym.show(C)[:700], "decided: " + show_facts(w, facts)]
            # -- throughput
            if old:
                ok = len(acc) == 1 and set(acc.values()) == {1}
                R.oblige(ok, "throughput:%s" % w.label,
                         "%s: the contribution depends on the path sampled so far but its throughput enters %s" % (
                             name, "not at all" if not acc else "as " + ", ".join("%s^%d" % (sym.show_atom(a), e) for a, e in acc.items())), where, tr)
                if not ok:
                    continue
                for l in old:
                    accs.setdefault(l, set()).update(acc)
            # -- what is left after the weights: the evaluated terms
            evs, trs, left = [], [], []
            coef = rest[1]
            for a, e in rest[2]:
                k = w.key(a)
                if e == 1 and k[0] == "call" and k[1] == PATH + "eval_contrb_direction":
                    evs.append((a, k[2]))
                elif e == 1 and k[0] == "call" and k[1] == PATH + "eval_transmittance":
                    trs.append((a, k[2]))
                else:
                    left.append((a, e))
            bad = [(a, e) for a, e in left if is_weight(w, a)]
            for a, e in bad:
                R.oblige(False, "weight:%s" % w.label, "%s: the weight of %s enters the contribution %s" % (
                    name, sym.show_atom(w.key(a)[1])[:200], "%d times instead of once" % (e + 1) if w.key(w.key(a)[1]) in smp else "although the contribution does not depend on the sample"), where, tr)
            if bad:
                continue
            R.oblige(len(evs) == 1, "eval:%s" % w.label, "%s: the contribution contains %d evaluations of the transported quantity, expected one" % (name, len(evs)), where, tr)
            if len(evs) != 1:
                continue
            eargs = evs[0][1]
            direct = [k for k in smp if k[1] == PATH + "sample_direct"]
            mis, left2 = balance(w, coef, left)
            if mis is None:
                R.oblige(not left2, "factor:%s" % w.label, "%s: the contribution has the factor %s that neither a sampling weight nor an evaluation accounts for" % (
                    name, sym.show(("m", coef, frozenset(left2)))[:300]), where, tr)
                if left2:
                    continue
            R.oblige(mis is not None or coef == 1, "factor:%s" % w.label, "%s: the contribution is scaled by %s" % (name, coef), where, tr)
            if direct:
                kind = "nee"
                ok = len(direct) == 1
                R.oblige(ok, "direct:%s" % w.label, "%s: the contribution depends on %d direct samples" % (name, len(direct)), where, tr)
                if not ok:
                    continue
                kd = direct[0]
                sL = ("m", Fraction(1), frozenset({(sym.T.atom(kd), 1)}))
                frm, td = kd[2][2], kd[2][3]
                wo = sym.neg(sym.field(sL, "wo"))
                ok = same(sym, eargs[1], frm) and sym.equal(eargs[3], wo) and isconst(td) and isconst(eargs[5]) and td[1] != eargs[5][1] and td[1] in (LE, EL) and eargs[5][1] in (LE, EL)
                R.oblige(ok, "connection:%s" % w.label,
                         "%s: the sampled endpoint is connected to %s but the scattering is evaluated at %s towards %s (transport direction %s, endpoint sampled for %s)" % (
                             name, sym.show(frm)[:120], sym.show(eargs[1])[:120], sym.show(eargs[3])[:120], sym.show(eargs[5]), sym.show(td)), where, tr)
                if dirs and old:
                    R.oblige(any(same(sym, eargs[1], d[0]) and same(sym, eargs[2], d[1]) and same(sym, eargs[4], d[2]) for d in dirs), "vertex:%s" % w.label,
                             "%s: the vertex whose scattering is evaluated (%s, incident %s, component %s) is not the vertex the walk continues from" % (
                                 name, sym.show(eargs[1])[:100], sym.show(eargs[2])[:100], sym.show(eargs[4])[:100]), where, tr)
                lsp = sym.field(sL, "sp")
                vis = w.truth(facts, lambda kk: kk[1] == "lm::Scene::visible" and between(sym, kk[2][1:3], frm, lsp))
                tra = len(trs) == 1 and between(sym, trs[0][1][2:4], frm, lsp)
                R.oblige(tra or (vis and not media and not trs), "visible:%s" % w.label,
                         "%s: the sampled endpoint contributes without %s between it and %s" % (name, "the transmittance" if media else "a visibility test", sym.show(frm)[:100]), where, tr)
            else:
                kind = "hit"
                ok = not trs
                R.oblige(ok, "factor:%s" % w.label, "%s: a transmittance is applied to a contribution along a sampled ray" % name, where, tr)
                ok, why = hit_endpoint(w, eargs, LIGHT, smp)
                if ok is None:
                    R.count("hits of another form")
                else:
                    R.oblige(ok, "hit:%s" % w.label, "%s: %s" % (name, why), where, tr)
                    R.oblige(isconst(eargs[5]) and eargs[5][1] == LE, "hit:%s" % w.label, "%s: the emission is evaluated for transport direction %s" % (name, sym.show(eargs[5])), where, tr)
            if mis is not None:
                mis_pair(R, w, name, kind, mis, eargs, smp, where, tr)
            G = {k: b for k, b in facts.items() if not dep_smp(w, k)}
            late = {k: b for k, b in facts.items() if dep_smp(w, k)}
            strat.append((kind, mis is not None, G, late, where, tr))
            if mis is not None:
                hittable(R, w, name, kind, smp, facts, where, tr)
            # -- raster position
            raster(R, w, name, rp, facts, smp, where, tr)
    loops(R, w, accs, dirs)
    ends(R, w)
    strategies(R, w, strat, dirs)


def unknown_atoms(sym, v):
    acc = set()
    sym._collect(v, acc)
    return [a for a in acc if sym.T.keys[a][0] in ("unk", "mod", "after")]


def is_weight(w, a):
    k = w.key(a)
    if k[0] != "f" or k[2] != "weight":
        return False
    kk = w.key(k[1])
    return kk[0] == "call" and kk[1].startswith(PATH) and kk[1][len(PATH):] in SAMPLERS


def enum(P, cls, name):
    for t in P.types:
        if t and t.get("k") == "enum" and (t.get("rec") == cls or str(t.get("rec", "")).startswith(cls + "::")):
            for n, v in t.get("enums", ()):
                if n == name:
                    return Fraction(v)
    return None


def same(sym, a, b):
    if a == b:
        return True
    return a[0] == "m" and b[0] == "m" and sym.equal(a, b)


def between(sym, ab, x, y):
    return len(ab) == 2 and (same(sym, ab[0], x) and same(sym, ab[1], y) or same(sym, ab[0], y) and same(sym, ab[1], x))


def dep_smp(w, k):
    """does a decided condition look at something sampled in this iteration"""
    for a in w.fact_atoms(k):
        if any(d[0] == "smp" for d in w.sym.T.deps[a]) or w.key(a)[0] == "rnd":
            return True
    return False


def balance(w, coef, left):
    """(p, q) when the remaining factor is p / (p + q)"""
    sym = w.sym
    den = [(a, e) for a, e in left if w.key(a)[0] == "+" and e == -1]
    if len(den) != 1:
        return None, left
    num = [(a, e) for a, e in left if (a, e) != den[0]]
    terms = sym.terms(("m", Fraction(1), frozenset({(den[0][0], 1)})))
    nm = frozenset(num)
    if len(terms) != 2 or nm not in terms or terms[nm] != coef:
        return None, left
    (om, oc), = [(m, c) for m, c in terms.items() if m != nm]
    if oc != coef:
        return None, left
    return (("m", Fraction(1), nm), ("m", Fraction(1), om)), []


def mis_pair(R, w, name, kind, mis, eargs, smp, where, tr):
    """the weight is the density of the strategy that made the sample over the sum of both"""
    sym = w.sym
    p, q = mis
    cp, cq = w.call(p, "pdf_direct", "pdf_direction"), w.call(q, "pdf_direct", "pdf_direction")
    ok = cp is not None and cq is not None
    why = "the densities are %s and %s" % (sym.show(p)[:150], sym.show(q)[:150])
    if ok:
        np_, nq = w.key(cp[1])[1][len(PATH):], w.key(cq[1])[1][len(PATH):]
        want = ("pdf_direct", "pdf_direction") if kind == "nee" else ("pdf_direction", "pdf_direct")
        ok = (np_, nq) == want
        if not ok:
            why = "the sample was made by %s but is weighted with %s over the sum" % ("light sampling" if kind == "nee" else "direction sampling", np_)
        d, b = (cp[0], cq[0]) if want[0] == "pdf_direct" else (cq[0], cp[0])
        if ok and kind == "nee":
            # light sampling: density of the light point seen from the vertex; density of the direction to it
            ks = [k for k in smp if k[1] == PATH + "sample_direct"][0]
            sL = ("m", Fraction(1), frozenset({(sym.T.atom(ks), 1)}))
            ok = same(sym, d[1], ks[2][2]) and same(sym, d[2], sym.field(sL, "sp")) and same(sym, d[3], sym.field(sL, "wo")) and \
                same(sym, b[1], eargs[1]) and same(sym, b[2], eargs[2]) and same(sym, b[3], eargs[3]) and same(sym, b[4], eargs[4])
            if not ok:
                why = "the densities %s and %s do not belong to the connected pair of vertices" % (sym.show(p)[:200], sym.show(q)[:200])
        elif ok:
            ks = [k for k in smp if k[1] == PATH + "sample_direction"]
            ok = len(ks) == 1
            if ok:
                s = ("m", Fraction(1), frozenset({(sym.T.atom(ks[0]), 1)}))
                a = ks[0][2]
                ok = same(sym, b[1], a[2]) and same(sym, b[2], a[3]) and same(sym, b[3], sym.field(s, "wo")) and same(sym, b[4], a[4]) and \
                    same(sym, d[1], a[2]) and same(sym, d[2], eargs[1]) and same(sym, d[3], eargs[3])
            if not ok:
                why = "the densities %s and %s do not belong to the sampled direction and the hit" % (sym.show(p)[:200], sym.show(q)[:200])
    R.oblige(ok, "mis:%s" % w.label, "%s: %s" % (name, why), where, tr, sample="%s: %s strategy weighted by its own density over the sum" % (name, kind))


def hittable(R, w, name, kind, smp, facts, where, tr):
    """light shared between the strategies must be reachable by both"""
    sym = w.sym
    if kind == "nee":
        ks = [k for k in smp if k[1] == PATH + "sample_direct"]
        sL = ("m", Fraction(1), frozenset({(sym.T.atom(ks[0]), 1)}))
        spL = sym.field(sL, "sp")
        deg = any(not b and any(w.key(a)[0] == "f" and w.key(a)[2] == "degenerated" for a in w.fact_atoms(k)) for k, b in facts.items())
        R.oblige(deg, "hittable:%s" % w.label, "%s: the sampled light is weighted as if it could also be hit, without knowing that it has an extent" % name, where, tr)
        R.oblige(not_specular(w, facts, spL, None), "hittable:%s" % w.label, "%s: the sampled light is weighted as if it could also be hit, without knowing that it does not emit in a single direction" % name, where, tr)
    else:
        ks = [k for k in smp if k[1] == PATH + "sample_direction"]
        if len(ks) == 1:
            R.oblige(not_specular(w, facts, ks[0][2][2], ks[0][2][4]), "hittable:%s" % w.label, "%s: the light hit is weighted as if it could also be sampled, without knowing that the component that sampled the direction is not specular" % name, where, tr)


def next_vertex(w, v):
    """(origin vertex value, direction) of the ray on which the scene interaction v was found"""
    sym = w.sym
    c = w.call(v, "lm::Scene::intersect")
    if c is not None:
        ray = c[0][1]
        o, d = sym.field(ray, "o"), sym.field(ray, "d")
        x = w.fieldof(o, "p")
        g = w.fieldof(x, "geom") if x is not None else None
        rec = None
        if x is None:
            # RaySample::ray(): origin and direction of one sample
            return None
        return (g, d, c[1]) if g is not None else None
    x = w.fieldof(v, "sp")
    if x is not None:
        c = w.call(x, "sample_distance")
        if c is not None:
            return c[0][2], c[0][3], c[1]
    return None


def hit_endpoint(w, eargs, LIGHT, smp):
    """emission is evaluated at the hit point, towards where the ray came from"""
    sym = w.sym
    v = eargs[1]
    base = v
    if v[0] == "r":
        t = dict(v[3]).get("type")
        if t is None or not isconst(t) or LIGHT is None or t[1] != LIGHT:
            return False, "the contribution of a hit is not evaluated as a light endpoint"
        if v[2] is None:
            return None, ""
        base = ("m", Fraction(1), frozenset({(v[2], 1)}))
    nv = next_vertex(w, base)
    if nv is None:
        return None, ""
    if not same(sym, eargs[3], sym.neg(nv[1])):
        return False, "the emission of the hit is evaluated towards %s, but the ray arrived along %s" % (sym.show(eargs[3])[:150], sym.show(nv[1])[:150])
    return True, ""


def raster(R, w, name, rp, facts, smp, where, tr):
    sym = w.sym
    s = w.single(rp)
    if s is None:
        R.count("raster positions of another form")
        return
    k = w.key(s[1])
    if k[0] == "call" and k[1] == PATH + "raster_position":
        d = k[2][1]
        ok = False
        for q in smp:
            x = ("m", Fraction(1), frozenset({(sym.T.atom(q), 1)}))
            wo = sym.field(x, "wo")
            if q[1] == PATH + "sample_direction" and same(sym, d, wo):
                ok = True
            if q[1] == PATH + "sample_direct" and isconst(q[2][3]):
                ok |= same(sym, d, wo if q[2][3][1] == enum(w.P, "lm::TransDir", "EL") else sym.neg(wo))
            if q[1] == PATH + "sample_primary_ray" and same(sym, d, wo):
                ok = True
        R.oblige(ok, "raster:%s" % w.label, "%s: the contribution goes to the raster position of %s, which is not the direction in which it leaves the camera" % (name, sym.show(d)[:150]), where, tr)
        return
    h = w.headroot(s[1])
    if h is None:
        R.count("raster positions of another form")
        return
    # carried over: it must have been computed, i.e. this is not the first iteration
    lid, key = w.key(h)[1], w.key(h)[2]
    for n, fr, entry, head, backs, changed, l in w.h.loops:
        if l != lid:
            continue
        first = not excluded_first(w, facts, entry, lid)
        ent = entry.env.get(key)
        computed = ent is not None and ent[0] == "m" and w.call(ent, "raster_position") is not None
        R.oblige(computed or not first, "raster:%s" % w.label, "%s: the raster position of an earlier iteration is used in the first iteration too, where none was computed" % name, where, tr)
        for b in backs:
            v = b.env.get(key)
            vv = w.at_atom(s[1], lambda kk: b.env.get(kk[2]))
            if vv is None:
                continue
            same_ = w.single(vv) == (1, s[1])
            first_b = not excluded_first(w, b.facts, entry, lid)
            R.oblige(w.call(vv, "raster_position") is not None or same_ and (not first_b or computed), "raster:%s" % w.label,
                     "%s: the raster position carried to the next iteration is %s" % (name, sym.show(vv)[:150]), fr.fn.where(n),
                     fr.trace(n) + ["decided: " + show_facts(w, b.facts)])


def excluded_first(w, facts, entry, lid):
    """do the decided conditions exclude the first iteration of the loop"""
    sym = w.sym
    m = {}
    for k, b in facts.items():
        for a in w.fact_atoms(k):
            kk = w.key(a)
            if kk[0] == "h" and kk[1] == lid and kk[2] in entry.env and entry.env[kk[2]][0] == "m" and isconst(entry.env[kk[2]]):
                m[a] = entry.env[kk[2]]
    if not m:
        return False
    for k, b in facts.items():
        if not any(a in m for a in w.fact_atoms(k)):
            continue
        if k[0] == "eq":
            x, y = sym.subst(k[1], m), sym.subst(k[2], m)
            d = sym.add(x, y, -1)
            if isconst(d) and (d[1] == 0) != b:
                return True
        elif k[0] == "c" and w.key(k[1])[0] == "pos":
            d = sym.subst(w.key(k[1])[1], m)
            if isconst(d) and (d[1] > 0) != b:
                return True
        elif k[0] == "nz":
            v = sym.subst(("m", Fraction(1), frozenset((a, 1) for a in k[1])), m)
            if isconst(v) and (v[1] != 0) != b:
                return True
    return False


def loops(R, w, accs, dirs):
    """the throughput carried around the loop is multiplied by exactly the weights of what was sampled"""
    sym = w.sym
    for n, fr, entry, head, backs, changed, lid in w.h.loops:
        if lid not in accs:
            continue
        where = fr.fn.where(n)
        for acc in sorted(accs[lid]):
            if w.headroot(acc) is None or w.key(w.headroot(acc))[1] != lid:
                continue
            nm = "%s at %s" % (w.label, where)
            # entry
            ent = w.at_atom(acc, lambda kk: entry.env.get(kk[2]))
            smp, old = set(), set()
            for key, dirty in changed.items():
                v = entry.env.get(key)
                if v is not None and v[0] in "mr":
                    a, b = w.samples(v)
                    smp |= a
                    old |= b
            exp = product(sym, [w.weight(k) for k in smp])
            if ent is None or ent[0] != "m":
                R.count("throughputs not decided")
                continue
            R.oblige(sym.equal(ent, exp), "start:%s" % w.label, "%s: the walk starts with throughput %s, but what was sampled so far has the weight %s" % (
                nm, sym.show(ent)[:300], sym.show(exp)[:300]), where, fr.trace(n))
            R.count("walks checked")
            others = {}
            sig = lambda s: tuple(sorted(((k, v) for k, v in s.env.items() if k in changed), key=str))
            groups = {}
            seen = set()
            for b in backs:
                groups.setdefault(str(sig(b)), set()).add(frozenset(b.facts.items()))
            for b in backs:
                t = w.at_atom(acc, lambda kk: b.env.get(kk[2]))
                if t is None or t[0] != "m":
                    R.count("throughputs not decided")
                    continue
                smp = set()
                for key in changed:
                    v = b.env.get(key)
                    if v is not None and v[0] in "mr" and key != w.key(w.headroot(acc))[2]:
                        smp |= w.samples(v)[0]
                pr, und = w.chance(b.facts, groups[str(sig(b))])
                if und or sym.has_unknown(t) and unknown_atoms(sym, t):
                    R.count("throughputs not decided")
                    continue
                exp = sym.mul(("m", Fraction(1), frozenset({(acc, 1)})), product(sym, [w.weight(k) for k in smp]))
                exp = sym.div(exp, pr)
                sg = (t, frozenset(smp), pr)
                if sg in seen:
                    continue
                seen.add(sg)
                ok = sym.equal(t, exp)
                R.count("iterations checked")
                R.oblige(ok, "update:%s" % w.label, "%s: an iteration multiplies the throughput by %s, but what it sampled has the weight %s%s" % (
                    nm, sym.show(sym.div(t, ("m", Fraction(1), frozenset({(acc, 1)}))))[:300], sym.show(product(sym, [w.weight(k) for k in smp]))[:300],
                    "" if pr == ONE else " and the walk survives with probability " + sym.show(pr)[:100]), where, fr.trace(n) + ["decided: " + show_facts(w, b.facts)],
                    sample="%s: throughput *= %s" % (nm, sym.show(sym.div(t, ("m", Fraction(1), frozenset({(acc, 1)}))))[:100]))
        # the walk's state moves on consistently
        for d in sorted(dirs, key=str):
            if any(w.single(x) is None or w.headroot(w.single(x)[1]) is None or w.key(w.headroot(w.single(x)[1]))[1] != lid for x in d):
                continue
            done = set()
            for b, e in [(b, False) for b in backs] + [(entry, True)]:
                env_of = lambda kk: b.env.get(kk[2])
                sp, wi, comp = [w.at(x, env_of) for x in d]
                if sp is None or wi is None or comp is None or (sp, wi, comp, e) in done:
                    continue
                done.add((sp, wi, comp, e))
                tr = fr.trace(n) + ["decided: " + show_facts(w, b.facts)]
                sc = w.fieldof(comp, "comp")
                cc = w.call(sc, "sample_component") if sc is not None else None
                if cc is not None:
                    R.count("walk states checked")
                    R.oblige(same(sym, cc[0][2], sp) and same(sym, cc[0][3], wi), "state:%s" % w.label,
                             "%s at %s: the walk continues at %s (incident %s) with a component sampled for %s (incident %s)" % (
                                 w.label, where, sym.show(sp)[:120], sym.show(wi)[:120], sym.show(cc[0][2])[:120], sym.show(cc[0][3])[:120]), where, tr)
                nv = next_vertex(w, sp)
                if nv is not None:
                    R.oblige(same(sym, wi, sym.neg(nv[1])), "state:%s" % w.label, "%s at %s: the walk moves along %s but the incident direction becomes %s" % (
                        w.label, where, sym.show(nv[1])[:150], sym.show(wi)[:150]), where, tr)
                    if not e:
                        R.oblige(same(sym, nv[0], d[0]), "state:%s" % w.label, "%s at %s: the next vertex is found from %s, not from the vertex whose direction was sampled" % (w.label, where, sym.show(nv[0])[:150]), where, tr)
                        dd = w.fieldof(nv[1], "wo")
                        kd = w.call(dd, "sample_direction") if dd is not None else None
                        R.oblige(kd is not None and tuple(kd[0][2:5]) == tuple(d), "state:%s" % w.label, "%s at %s: the walk continues along %s, which is not the direction sampled at the vertex" % (w.label, where, sym.show(nv[1])[:150]), where, tr)


def compatible(w, a, b):
    for k, v in a.items():
        if k in b and b[k] != v:
            return False
    eqs = {}
    for f in (a, b):
        for k, v in f.items():
            if k[0] == "eq" and v and isconst(k[2]):
                if eqs.setdefault(k[1], k[2]) != k[2]:
                    return False
            if k[0] == "nz" and not v and len(k[1]) == 1:
                x = ("m", Fraction(1), frozenset((y, 1) for y in k[1]))
                if eqs.setdefault(x, ZERO) != ZERO:
                    return False
    for x, c in eqs.items():
        for f in (a, b):
            if not iszero(c) and f.get(("eq", x, c)) is False:
                return False
            if len(x[2]) == 1 and iszero(c) is False:
                nz = ("nz", frozenset(y for y, e in x[2]))
                if f.get(nz) is False:
                    return False
    # a strict inequality and its opposite, or an equality that decides it
    m = {}
    for x, c in eqs.items():
        s = w.single(x)
        if s is not None and s[0] == 1:
            m[s[1]] = c
    for f in (a, b):
        for k, v in f.items():
            if k[0] == "c" and w.key(k[1])[0] == "pos":
                d = w.sym.subst(w.key(k[1])[1], m) if m else w.key(k[1])[1]
                if isconst(d) and (d[1] > 0) != v:
                    return False
                o = w.sym.T.ids.get(("pos", w.sym.neg(w.key(k[1])[1])))
                for g in (a, b):
                    if v and o is not None and g.get(("c", o)) is True:
                        return False
    return True


def ends(R, w):
    """a walk ends because nothing was sampled or hit, by the configured length, at the environment, by roulette or without throughput"""
    sym = w.sym
    for i, (n, fr, entry, head, backs, changed, lid) in enumerate(w.h.loops):
        if i not in w.h.leaves or not any(changed.values()):
            continue
        for s, fl in w.h.leaves[i][3]:
            R.count("walk ends checked")

            def decided_here(k):
                """a condition on the number of vertices or on the mode alone"""
                if w.random(k) is not None:
                    return False
                ats = w.fact_atoms(k)
                heads = [a for a in ats if w.key(a)[0] == "h"]
                if any(w.key(a)[0] == "rnd" or sym.T.deps[a] for a in ats) or any(w.key(a)[3] for a in heads):
                    return False
                kinds = {w.key(a)[0] for a in ats}
                if heads:
                    return kinds <= {"h", "pos", "+", "*"}
                return kinds <= {"f", "this", "par"}
            diffs = {frozenset(k for k in s.facts if k in b.facts and b.facts[k] != s.facts[k]) for b in backs}
            least = [d for d in diffs if not any(e < d for e in diffs)]
            ok = not least or any(not d or not all(decided_here(k) for k in d) for d in least)
            R.oblige(ok, "ends:%s" % w.label, "%s at %s: the walk ends when %s, which is neither the configured length nor an outcome of sampling" % (
                w.label, fr.fn.where(n), show_facts(w, {k: s.facts[k] for d in least for k in d})), fr.fn.where(n), fr.trace(n))


def not_specular(w, facts, sp, comp):
    """decided: the component of the vertex is not specular"""
    for k, b in facts.items():
        if k[0] == "nz" and not b:
            for a in k[1]:
                kk = w.key(a)
                if kk[0] == "call" and kk[1] == PATH + "is_specular_component" and (sp is None or same(w.sym, kk[2][1], sp)) and (comp is None or same(w.sym, kk[2][2], comp)):
                    return True
    return False


def strategies(R, w, strat, dirs):
    """light is found by sampling it or by running into it: the ways that apply together must share it, and no way may be missing"""
    nee = [s for s in strat if s[0] == "nee"]
    hit = [s for s in strat if s[0] == "hit"]
    if not nee or not hit:
        return
    for kind, weighted, G, late, where, tr in strat:
        other = hit if kind == "nee" else nee
        comp = [o for o in other if compatible(w, G, o[2])]
        R.count("strategy pairs checked")
        if not weighted and comp:
            # counted in full although the other way counts the same light: only right where the light excludes it
            full = [o for o in comp if not (o[1] and kind == "nee" and special_light(w, late))]
            if kind == "hit":
                full = comp
            R.oblige(not full, "double:%s" % w.label, "%s at %s: light %s is counted in full although it is also counted at %s" % (
                w.label, where, "found by sampling it" if kind == "nee" else "that the path runs into", comp[0][4]), where, tr)
        elif weighted:
            R.oblige(bool(comp) and all(o[1] or special_light(w, o[3]) for o in comp), "partial:%s" % w.label,
                     "%s at %s: light is counted with a partial weight although %s" % (w.label, where, "no other way counts the rest" if not comp else "the other way counts it in full at %s" % comp[0][4]), where, tr)
    # no way is missing
    for n, fr, entry, head, backs, changed, lid in w.h.loops:
        for b in backs:
            G = {k: v for k, v in b.facts.items() if not dep_smp(w, k)}
            if not any(k[0] == "h" and k[1] == lid for f in G for k in map(w.key, w.fact_atoms(f))):
                continue
            ok = any(compatible(w, G, s[2]) for s in strat)
            if ok and not any(compatible(w, G, s[2]) for s in hit):
                R.oblige(any(not_specular(w, G, d[0], d[2]) for d in dirs) if dirs else True, "missing:%s" % w.label, "%s at %s: light that the path runs into is not counted when %s, although the component may be specular" % (
                    w.label, fr.fn.where(n), show_facts(w, G)), fr.fn.where(n), fr.trace(n))
            R.oblige(ok, "missing:%s" % w.label, "%s at %s: no light is counted when %s" % (w.label, fr.fn.where(n), show_facts(w, G)), fr.fn.where(n), fr.trace(n))


def special_light(w, late):
    """decided: the sampled light cannot be hit"""
    for k, b in late.items():
        for a in w.fact_atoms(k):
            kk = w.key(a)
            if b and kk[0] == "f" and kk[2] == "degenerated":
                return True
            if b and kk[0] == "call" and kk[1] == PATH + "is_specular_component":
                return True
    return False


def heads_in(w, *vals):
    acc = set()
    for v in vals:
        w.sym._collect(v, acc)
    return {a for a in acc if w.key(a)[0] in ("h", "el#", "bv")}


def bidirectional(R, w, events):
    """a connected path is weighted for the strategy that made it; with several strategies per length the weights share the light"""
    sym = w.sym
    LE, EL = enum(w.P, "lm::TransDir", "LE"), enum(w.P, "lm::TransDir", "EL")
    for n, what, vals, facts, where, tr in events:
        C, rp = vals[2], vals[1]
        name = "%s at %s" % (w.label, where)
        tr = list(tr) + ["contribution: " + sym.show(C)[:700]]
        if C[0] != "m" or iszero(C):
            continue
        fac = {}
        for a, e in C[2]:
            k = w.key(a)
            short = k[1][len("lm::Path::"):] if k[0] == "call" and str(k[1]).startswith("lm::Path::") else None
            fac.setdefault(short, []).append((a, e, k[2] if k[0] == "call" else None))
        own = [x for nm in ("eval_sampling_weight_bidir", "eval_measurement_contrb_bidir", "pdf_bidir", "eval_mis_weight") for x in fac.get(nm, ())]
        if not own:
            cached(R, w, name, C, facts, where, tr)
            continue
        paths = {x[2][0] for x in own}
        cn = w.call(own[0][2][0], "connect_subpaths") if len(paths) == 1 else None
        if cn is None:
            R.count("connections of another form")
            continue
        R.count("connections checked")
        sc, L, E, s, t = cn[0]
        weight = [x[1] for x in fac.get("eval_sampling_weight_bidir", ())]
        ratio = ([x[1] for x in fac.get("eval_measurement_contrb_bidir", ())], [x[1] for x in fac.get("pdf_bidir", ())])
        R.oblige(weight == [1] and ratio == ([], []) or not weight and ratio == ([1], [-1]), "connection:%s" % w.label,
                 "%s: the contribution of a connected path must be its sampling weight (contribution over density) once" % name, where, tr,
                 sample="%s: connected path (s, t) weighted for s" % name)
        R.oblige(C[1] == 1 and None not in fac, "factor:%s" % w.label, "%s: the contribution of a connected path has further factors" % name, where, tr)
        for x in own:
            R.oblige(same(sym, x[2][2], s), "connection:%s" % w.label, "%s: the path connects %s light vertices but is weighted for a path with %s" % (name, sym.show(s), sym.show(x[2][2])), where, tr)
        for v, d, nm in ((L, LE, "light"), (E, EL, "camera")):
            c = w.call(v, "sample_subpath")
            if c is not None:
                R.oblige(isconst(c[0][3]) and c[0][3][1] == d, "subpath:%s" % w.label, "%s: the %s subpath of the connection is sampled from the other end" % (name, nm), where, tr)
        c = w.call(rp, "raster_position", "lm::Path::raster_position")
        R.oblige(c is not None and c[0][0] in paths, "raster:%s" % w.label, "%s: a connected path goes to the raster position of %s" % (name, sym.show(rp)[:150]), where, tr)
        hs = heads_in(w, s, t)
        mis = [x[1] for x in fac.get("eval_mis_weight", ())]
        if len(hs) >= 2:
            R.oblige(mis == [1], "mis:%s" % w.label, "%s: paths of one length are made by several strategies but weighted %d times" % (name, len(mis)), where, tr)
        elif hs:
            R.oblige(not mis, "mis:%s" % w.label, "%s: one strategy makes each path but it is weighted as one of several" % name, where, tr)


def cached(R, w, name, C, facts, where, tr):
    """vertices that carry the throughput up to them: each evaluation goes with the throughput of its vertex"""
    sym = w.sym
    al, ev = [], []
    for a, e in C[2]:
        k = w.key(a)
        if k[0] == "f" and k[2] == "alpha":
            al += [k[1]] * (e if e > 0 else 99)
        if k[0] == "call" and k[1] == PATH + "eval_contrb_direction":
            ev.append((k[2], e))
    if not al or not ev:
        R.count("connections of another form")
        return
    R.count("connections checked")
    verts = []
    for args, e in ev:
        sp = w.fieldof(args[1], "sp")
        if sp is None and args[1][0] == "r" and args[1][2] is not None:
            k = w.key(args[1][2])
            sp = ("m", Fraction(1), frozenset({(k[1], 1)})) if k[0] == "f" and k[2] == "sp" else None
        s1 = w.single(sp) if sp is not None else None
        if s1 is None or e != 1:
            R.count("connections of another form")
            return
        verts.append(s1[1])
    R.oblige(sorted(verts) == sorted(al), "connection:%s" % w.label, "%s: the throughputs multiplied do not belong to the vertices evaluated" % name, where, tr,
             sample="%s: throughput and evaluation of the same vertices" % name)
    if len(ev) == 2:
        want = [a[0][1] for a in ev]
        R.oblige(w.truth(facts, lambda k: k[1].endswith("::visible") and between(sym, k[2][1:3], want[0], want[1])), "visible:%s" % w.label,
                 "%s: two vertices are connected without a visibility test between them" % name, where, tr)
        for args, e in ev:
            v = ("m", Fraction(1), frozenset({(w.single(w.fieldof(args[1], "sp"))[1], 1)})) if w.fieldof(args[1], "sp") is not None else None
            if v is not None:
                R.oblige(same(sym, args[2], sym.field(v, "w_rev")) and same(sym, args[4], sym.field(v, "comp")), "vertex:%s" % w.label,
                         "%s: the scattering is evaluated with the direction or component of another vertex" % name, where, tr)


def check(ctx):
    R = Result()
    P = ctx.P
    for cls, f in renderers(P):
        if not f.file.startswith(P.root + "/src"):
            continue
        try:
            w = Walk(ctx, R, cls, f)
        except GiveUp as e:
            R.count("renderers not decided")
            R.notes.append("%s: %s" % (cls, e))
            continue
        sp = splats(w)
        if not sp:
            continue
        if any(k[0] == "call" and k[1] == PATH + "connect_subpaths" for k in w.sym.T.keys) or not any(k[0] == "call" and k[1].startswith(PATH + "sample_") for k in w.sym.T.keys):
            R.count("bidirectional renderers")
            bidirectional(R, w, [e for e in w.h.events if e[1] == "splat"])
            continue
        R.count("renderers")
        check_walk(ctx, R, w)
    return R
