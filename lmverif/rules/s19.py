"""S19: distances sampled in a medium and its transmittance follow the same density, and no volume exceeds the maximum it reports."""
import random
from fractions import Fraction

from ..core import *
from ..prog import kids, walk
from ..sym import Sym, S, GiveUp, ONE, ZERO, const, isconst
from .s17 import same, enum
from .s21 import AH, ranges, atoms_in, show_cond, katoms, method, par
from .s22 import Val, atom, fld, this_field


UNDECIDED = (GiveUp, ZeroDivisionError, TypeError, KeyError, IndexError, AttributeError, ValueError)


class MH(AH):
    """random numbers are numbered by where they are drawn; the overlap of a ray with a bound is a function of both"""

    def call(self, sym, n, name, st, fr):
        if n["k"] == "MCall" and n.get("mname") == "isect_range":
            c = n["c"]
            out = []
            for s, vs in sym.evs(c, st, fr):
                if len(vs) != 4:
                    raise GiveUp("isect_range")
                l0, l1 = sym.lv(c[2], s, fr), sym.lv(c[3], s, fr)
                if l0 is None or l1 is None:
                    raise GiveUp("the range of a ray is not kept")
                dep = frozenset().union(*[sym.deps(v) for v in vs])
                s = sym.write(l1, sym.A(("range", "far") + tuple(vs), dep), sym.write(l0, sym.A(("range", "near") + tuple(vs), dep), s))
                out.append((s, sym.A(("call", "isect_range", tuple(vs)), dep)))
            return out
        if (name or "").startswith("lm::log::"):
            return [(st, ZERO)]
        if n["k"] == "MCall" and n.get("mname") == "u" and "RngImpl" in (n.get("cls") or ""):
            return [(st, sym.A(("rand", sym.cidof(fr, n))))]
        return AH.call(self, sym, n, name, st, fr)


class Ev(Val):
    """values of extracted expressions at a rational point; operations without a rational value are free functions of their arguments"""

    def __init__(self, sym, env, seed, vectors=()):
        Val.__init__(self, sym, env)
        self.seed, self.vectors = seed, vectors

    def val(self, v):
        if v[0] == "m" and v[1] == 1 and len(v[2]) == 1:
            (a, e), = v[2]
            if e == 1:
                return self.at(a)
        return Val.val(self, v)

    def free(self, *key):
        return Fraction(1 + random.Random(repr((self.seed, key))).randrange(9973), 9974)

    def hv(self, x):
        if isinstance(x, tuple) and x and x[0] == "m" and len(x) == 3:
            return self.val(x)
        if isinstance(x, tuple) and x and x[0] == "r":
            return tuple(sorted((k, repr(self.val(v))) for k, v in x[3]))
        if isinstance(x, tuple):
            return tuple(self.hv(y) for y in x)
        return x

    def _at(self, k):
        if k[0] == "val":
            return self.val(k[1])
        if k[0] == "rand":
            return self.free("rand", k[1])
        if k[0] == "range":
            key = self.hv(k[2:])
            near = self.free("near", key)
            return near if k[1] == "near" else near + self.free("far", key)
        if k[0] == "call":
            m = k[1].split("::")[-1]
            if m in ("log", "log1p"):
                x = self.val(k[2][0])
                return -self.free("log", x if m == "log" else 1 + x)
            if m in ("exp", "expm1"):
                e = self.free("exp", self.val(k[2][0]))
                return e if m == "exp" else e - 1
            if m == "max_scalar":
                return self.free("max", self.val(k[2][0]))
            if m == "bound" and len(k[2]) == 1:
                v = self.val(k[2][0])
                lo = tuple(self.free("lo", i, v) for i in range(3))
                return {"min": lo, "max": tuple(x + self.free("hi", i, v) for i, x in enumerate(lo))}
            if m == "eval_scalar":
                v = self.val(k[2][0])
                return self.free("eval_scalar", v, self.val(k[2][1])) * self.free("max", v)
            if m == "dot":
                xs = [self.val(x) for x in k[2]]
                return xs[0] * xs[1] if not isinstance(xs[0], tuple) else sum(p * q for p, q in zip(*xs))
            if m in ("length", "distance", "normalize"):
                xs = [self.val(x) for x in k[2]]
                d = tuple(p - q for p, q in zip(*xs)) if m == "distance" else xs[0]
                if isinstance(d, tuple):
                    if m == "normalize":
                        l = self.free("length", tuple(abs(c) for c in d) if sum(c < 0 for c in d) > 1 else tuple(abs(c) for c in d))
                        return tuple(c / l for c in d)
                    return self.free("length", tuple(abs(c) for c in d))
            if m in ("min", "max", "fmin", "fmax") and len(k[2]) == 2:
                xs = [self.val(x) for x in k[2]]
                if any(isinstance(x, tuple) for x in xs):
                    pick = min if "min" in m else max
                    n = max(len(x) for x in xs if isinstance(x, tuple))
                    xs = [x if isinstance(x, tuple) else (x,) * n for x in xs]
                    return tuple(pick(p, q) for p, q in zip(*xs))
        if k[0] == "setc":
            b = self.at(k[1])
            if not isinstance(b, tuple):
                raise GiveUp("component")
            return b[:k[2]] + (self.val(k[3]),) + b[k[2] + 1:]
        if k[0] in ("pos", "ctor", "trunc", "idiv", "size", "par", "this", "el#", "idx", "mat*", "str", "uninit", "loop", "head"):
            return self.free(*self.hv(k))
        if k[0] == "f":
            b = self.at(k[1])
            if isinstance(b, tuple) and isinstance(k[2], int):
                return b[k[2]]
            if isinstance(b, dict):
                if k[2] in b:
                    return b[k[2]]
                raise GiveUp("field %s" % (k[2],))
            return self.free("f", b, k[2])
        try:
            return Val._at(self, k)
        except GiveUp:
            if k[0] == "call" and k[1].startswith(("std::", "glm::")):
                raise
            return self.free(*self.hv(k))

    def truth(self, facts, given):
        """do the conditions hold at this point; None where one is of no known kind"""
        for key, b in facts.items():
            if key in given:
                if given[key] != b:
                    return False
                continue
            if key[0] == "c" and self.sym.T.keys[key[1]][0] == "pos":
                if (self.val(self.sym.T.keys[key[1]][1]) > 0) != b:
                    return False
            elif key[0] == "c" and self.sym.T.keys[key[1]][0] == "eng" and isinstance(self.sym.T.keys[key[1]][1], int) and self.sym.T.keys[self.sym.T.keys[key[1]][1]][0] in ("+", "vec", "val", "ctor", "mat*"):
                if not b:               # an optional made from a value
                    return False
            elif key[0] == "c":
                if (self.free("bool", self.at(key[1])) > Fraction(1, 2)) != b:
                    return False
            elif key[0] == "eq":
                if (self.val(key[1]) == self.val(key[2])) != b:
                    return False
            elif key[0] == "nz":
                if any(self.at(a) != 0 for a in key[1]) != b:
                    return False
        return True


def overlaps(sym, facts):
    """(the condition that the ray overlaps the bound, its holding)"""
    out = []
    for key, b in facts.items():
        a = key[1] if key[0] == "c" else next(iter(key[1])) if key[0] == "nz" and len(key[1]) == 1 else None
        if a is not None:
            k = sym.T.keys[a]
            if k[0] == "call" and k[1].split("::")[-1] == "isect_range":
                out.append((key, b))
    return out


def close(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return False
    if isinstance(a, tuple) != isinstance(b, tuple):
        a, b = [x if isinstance(x, tuple) else (x,) * 3 for x in (a, b)]
    return a == b


class MediumRule:
    def __init__(self, R, P, cls):
        self.R, self.P, self.cls = R, P, cls
        self.short = cls.split("::")[-1]

    def run(self, name):
        f = method(self.P, self.cls, name)
        h = MH(self.P)
        sym = Sym(self.P, h)
        outs = sym.start(f, self.cls)
        return f, h, sym, outs

    def check(self):
        R = self.R
        R.count("media")
        try:
            self.sample = self.run("sample_distance")
            self.trans = self.run("eval_transmittance")
        except GiveUp as e:
            R.notes.append("%s: %s" % (self.short, e))
            return
        R.count("functions of media", 2)
        for part in (self.ranges_agree, self.samples, self.transmits):
            try:
                part()
            except UNDECIDED as e:
                R.notes.append("%s.%s: %s" % (self.short, part.__name__, e))

    def ob(self, ok, key, msg, f, sample=None):
        self.R.oblige(ok, "%s|%s" % (self.short, key), "%s: %s" % (self.short, msg), f.where(), sample=sample)

    # the same bound, ray and limits in both functions
    def ranges_agree(self):
        seen = []
        for f, h, sym, outs in (self.sample, self.trans):
            for s, v in outs:
                for key, b in overlaps(sym, s.facts):
                    k = sym.T.keys[key[1] if key[0] == "c" else next(iter(key[1]))]
                    seen.append((f, sym, k[2]))
        if not seen:
            raise GiveUp("no overlap with a bound")
        shows = set()
        for f, sym, a in seen:
            ray, t0, t1 = par(sym, f, 1), par(sym, f, 2), par(sym, f, 3)
            ok = same(sym, a[1], ray) and same(sym, a[2], t0) and same(sym, a[3], t1)
            self.ob(ok, "limits", "%s looks at the range %s of %s, not at the one asked for" % (f.qn.split("::")[-1], ", ".join(sym.show(x) for x in a[2:]), sym.show(a[1])), f)
            shows.add(repr(canon(sym, a[0])))
        self.ob(len(shows) == 1, "bound", "distances and transmittance are cut at different bounds", self.trans[0], sample="one bound for distances and transmittance")
        self.given(seen[0][1], seen[0][2][0])

    def given(self, sym, v):
        """the bound is the one of the options"""
        a = atom(v)
        k = sym.T.keys[a] if a is not None else ("none",)
        if k[0] != "f" or sym.T.keys[k[1]][0] != "this":
            return
        cf, ch, cs, couts = self.run("construct")
        for s, _ in couts:
            th = s.env.get(("this",))
            for side, key, default in (("min", "bound_min", "-1*Inf"), ("max", "bound_max", "Inf")):
                x = fld(cs, th, k[2], side)
                names = src_names(cs, x)
                self.ob(names == {key} or not names and cs.show(x) == default, "option", "the bound's %s is %s, not the option '%s' or no bound" % (side, cs.show(x)[:80], key), cf, sample="bound from the options")

    def point(self, sym, f, seed):
        rnd = random.Random(seed)
        vec = lambda: tuple(Fraction(rnd.randrange(-99, 100), 7) for _ in range(3))
        env = {}
        a = next(iter(par(sym, f, 1)[2]))[0]
        env[a] = {"o": vec(), "d": vec()}
        return Ev(sym, env, seed), env[a]["o"], env[a]["d"]

    def atoms(self, sym, vs, facts):
        acc = set()
        for v in vs:
            acc |= atoms_in(sym, v) if v[0] in "mr" else set()
        for fs in facts:
            for k in fs:
                acc |= katoms(sym, k)
        return acc

    def logs(self, sym, acc):
        """(atom of the logarithm, random number in it)"""
        out = []
        for a in acc:
            k = sym.T.keys[a]
            if k[0] == "call" and k[1].split("::")[-1] in ("log", "log1p"):
                rs = [b for b in atoms_in(sym, k[2][0]) if sym.T.keys[b][0] == "rand"]
                if len(rs) != 1:
                    raise GiveUp("logarithm of %s" % sym.show(k[2][0]))
                x = k[2][0] if not k[1].endswith("log1p") else sym.add(ONE, k[2][0])
                r = ("m", Fraction(1), frozenset({(rs[0], 1)}))
                ok = same(sym, x, r) or same(sym, x, sym.add(ONE, r, -1))
                out.append((a, rs[0], ok))
        return out

    def samples(self):
        f, h, sym, outs = self.sample
        if h.loops:
            return self.walks(f, h, sym, outs, False)
        acc = self.atoms(sym, [v for s, v in outs], [s.facts for s, v in outs])
        ls = self.logs(sym, acc)
        if len(ls) != 1:
            raise GiveUp("%d logarithms" % len(ls))
        la, ra, ok = ls[0]
        self.ob(ok, "variate", "the distance is not drawn with the logarithm of a uniform variate", f)
        rands = [a for a in acc if sym.T.keys[a][0] == "rand"]
        self.ob(len(rands) == 1, "variates", "%d random numbers decide one distance" % len(rands), f)
        D = self.density()
        tD = self.trans[2]
        for seed in range(24):
            E, o, d = self.point(sym, f, seed)
            hit = seed % 4 != 3
            rg = [a for a in acc if sym.T.keys[a][0] == "range"]
            if not rg:
                raise GiveUp("range")
            near = E.at(next(a for a in rg if sym.T.keys[a][1] == "near"))
            far = E.at(next(a for a in rg if sym.T.keys[a][1] == "far"))
            t = -E.at(la) / self.value_in(E, D, seed)
            done = 0
            for s, v in outs:
                given = {k: hit for k, b in overlaps(sym, s.facts)}
                if not E.truth(s.facts, given):
                    continue
                done += 1
                if not hit or t >= far - near:
                    self.passes(sym, E, f, v)
                    continue
                self.ob(v[0] == "r", "inside", "no interaction although the distance drawn ends inside the medium", f)
                if v[0] != "r":
                    continue
                x = dict(v[3])
                self.ob(x.get("medium") == ONE, "inside", "a distance that ends inside the medium is not reported as one", f)
                self.ob(close(E.val(x["p"]), tuple(a + b * (near + t) for a, b in zip(o, d))), "p", "the point is not where the distance drawn, from where the ray enters the medium, ends: %s" % sym.show(x["p"])[:200], f,
                        sample="%s: point at enter + t" % self.short)
                self.weight(sym, x["weight"], f)
            self.ob(done == 1, "cases", "%d outcomes for one random number (density %s)" % (done, tD.show(D)), f, sample="%s: t < far - near with t = -log(1-u)/%s" % (self.short, tD.show(D)))
        self.R.count("ways to sample a distance", len(outs))

    def passes(self, sym, E, f, v):
        if v[0] == "n":
            return
        x = dict(v[3]) if v[0] == "r" else {}
        self.ob(x.get("medium") == ZERO, "outside", "a distance beyond the medium is reported as an interaction in it", f)
        if x.get("medium") == ZERO:
            self.ob(close(E.val(x["weight"]), Fraction(1)), "beyond", "light that crosses the medium without an interaction is weighted with %s; the probability of crossing is already the transmittance" % sym.show(x["weight"]), f,
                    sample="%s: weight 1 beyond the medium" % self.short)

    def weight(self, sym, w, f):
        """the albedo the user gave"""
        got = self.field_key(sym, w)
        if got is not None:
            self.ob(got == "albedo", "albedo", "the weight of an interaction is the property '%s', not the albedo" % got, f, sample="weight = albedo")
        elif w[0] == "m" and not (len(w[2]) == 1 and w[1] == 1):
            self.ob(False, "albedo", "the weight of an interaction is %s, not the albedo" % sym.show(w)[:160], f)

    def field_key(self, sym, v):
        """the property a field of this object is read from, in every construction"""
        a = atom(v)
        if a is None:
            return None
        k = sym.T.keys[a]
        if k[0] != "f" or not isinstance(k[2], str):
            return None
        b = sym.T.keys[k[1]]
        if b[0] != "this":
            return None
        if not hasattr(self, "cons"):
            self.cons = self.run("construct")
        cf, ch, cs, couts = self.cons
        keys = set()
        for s, _ in couts:
            th = s.env.get(("this",))
            x = fld(cs, th, k[2]) if th is not None else None
            keys |= set(src_names(cs, x)) if x is not None else set()
        return "+".join(sorted(keys)) or None

    def density(self):
        """D of a transmittance exp(-D * length)"""
        f, h, sym, outs = self.trans
        if h.loops:
            raise GiveUp("transmittance by steps, distance in one")
        for s, v in outs:
            if not any(b for k, b in overlaps(sym, s.facts)):
                continue
            a = atom(v)
            k = sym.T.keys[a] if a is not None else ("none",)
            if not (k[0] == "call" and k[1].split("::")[-1] == "exp"):
                self.ob(False, "exp", "the transmittance is %s, not an exponential" % sym.show(v)[:160], f)
                raise GiveUp("transmittance")
            rg = {sym.T.keys[b][1]: b for b in atoms_in(sym, k[2][0]) if sym.T.keys[b][0] == "range"}
            e = k[2][0]
            if set(rg) != {"near", "far"}:
                self.ob(False, "length", "the exponent %s is not the length of the ray inside the medium" % sym.show(e)[:160], f)
                raise GiveUp("length")
            D = sym.neg(sym.subst(e, {rg["near"]: ZERO, rg["far"]: ONE}))
            back = sym.neg(sym.mul(D, sym.add(A1(rg["far"]), A1(rg["near"]), -1)))
            E, o, d = self.point(sym, f, 5)
            self.ob(E.val(back) == E.val(e), "length", "the exponent %s is not minus the density times the length inside the medium" % sym.show(e)[:160], f, sample="exp(-D*(far-near))")
            fk = self.field_key(sym, D)
            self.ob(fk in (None, "density"), "density", "the transmittance uses the property '%s' as density" % fk, f)
            return D
        raise GiveUp("no transmittance inside the medium")

    def value_in(self, E, D, seed):
        """a value of another engine's table: the same field has the same value"""
        ot = self.trans[2]
        return E.val(port(ot, D, E.sym))

    def transmits(self):
        f, h, sym, outs = self.trans
        for s, v in outs:
            if any(b is False for k, b in overlaps(sym, s.facts)):
                E, o, d = self.point(sym, f, 1)
                self.ob(v[0] == "m" and close(E.val(v), Fraction(1)), "miss", "the transmittance is %s where the ray does not meet the medium, not 1" % (sym.show(v) if v[0] in "mr" else v,), f, sample="transmittance 1 beside the medium")
                self.R.count("ways to evaluate transmittance")
        if h.loops:
            return self.walks(f, h, sym, outs, True)
        self.density()
        self.R.count("ways to evaluate transmittance")

    # steps through the medium with the maximum density
    def walks(self, f, h, sym, outs, trans):
        if len(h.loops) != 1:
            raise GiveUp("%d loops" % len(h.loops))
        n, fr, entry, head, backs, changed, lid = h.loops[0]
        inloop = [(s, v) for s, v in outs if not any(b is False for k, b in overlaps(sym, s.facts))]
        for s, v in outs:
            if any(b is False for k, b in overlaps(sym, s.facts)) and not trans:
                E, o, d = self.point(sym, f, 1)
                self.passes(sym, E, f, v)
        vals = [v for s, v in inloop] + [b.env[k] for b in backs for k in changed]
        acc = self.atoms(sym, vals, [s.facts for s, v in inloop] + [b.facts for b in backs])
        ls = self.logs(sym, acc)
        if len(ls) != 1:
            raise GiveUp("%d logarithms" % len(ls))
        la, ra, ok = ls[0]
        self.ob(ok, "variate", "the step is not drawn with the logarithm of a uniform variate", f)
        sc = {}
        for a in acc:
            k = sym.T.keys[a]
            if k[0] == "call" and k[1].split("::")[-1] in ("max_scalar", "eval_scalar", "bound"):
                sc.setdefault(k[1].split("::")[-1], []).append((a, k))
        if not sc.get("max_scalar") or not sc.get("eval_scalar"):
            self.ob(False, "null", "steps through the medium without the density or its maximum", f)
            return
        vols = {repr(canon(sym, k[2][0])) for xs in sc.values() for a, k in xs}
        self.ob(len(vols) == 1, "volume", "density, maximum and bound come from different volumes: %s" % sorted({sym.show(k[2][0]) for xs in sc.values() for a, k in xs}), f, sample="one volume for density, maximum and bound")
        if len(vols) != 1:
            return
        fk = self.field_key(sym, sc["max_scalar"][0][1][2][0])
        self.ob(fk in (None, "volume_density", "density"), "density", "the density is read from the property '%s'" % fk, f)
        ma = sc["max_scalar"][0][0]
        E0, o, d = self.point(sym, f, 0)
        rg = [a for a in acc if sym.T.keys[a][0] == "range"]
        near_k = next((k for k in (sym.T.keys[a] for a in rg) if k[1] == "far"), None)
        if near_k is None:
            self.ob(False, "end", "the steps are not ended where the ray leaves the medium", f)
            return
        nearA, farA = sym.A(("range", "near") + near_k[2:]), sym.A(near_k)
        E0.env.update({next(iter(head.env[k][2]))[0]: E0.free("h", repr(k)) for k in changed if k in head.env and head.env[k][0] == "m" and len(head.env[k][2]) == 1})
        step = -E0.at(la) / E0.at(ma)
        tk = []
        for k in changed:
            if k in entry.env and entry.env[k][0] == "m" and head.env[k][0] == "m" and backs and all(b.env[k][0] == "m" for b in backs):
                try:
                    if all(not isinstance(E0.val(b.env[k]), (tuple, dict)) and E0.val(b.env[k]) - E0.val(head.env[k]) == step for b in backs):
                        tk.append(k)
                except (GiveUp, TypeError):
                    pass
        if len(tk) != 1:
            for k in changed:
                if k in entry.env and entry.env[k][0] == "m" and entry.env[k] == nearA:
                    self.ob(False, "step", "the distance goes on to %s, not by the step of the maximum density" % [sym.show(b.env[k])[:100] for b in backs], f)
            raise GiveUp("distance")
        tk = tk[0]
        if any(sym.T.keys[a][0] == "rand" for a in atoms_in(sym, entry.env[tk])):
            raise GiveUp("the first step is drawn before the loop")
        off = sym.add(nearA, entry.env[tk], -1)       # the variable may count from where the ray enters
        Tk = [k for k in changed if k != tk and k in entry.env and entry.env[k][0] == "m"]
        rest = [a for a in acc if sym.T.keys[a][0] == "rand" and a != ra]
        if trans:
            if len(Tk) != 1:
                raise GiveUp("transmittance variable")
            Tk = Tk[0]
            self.ob(E0.val(entry.env[Tk]) == 1, "one", "the product of the transmittance starts at %s" % sym.show(entry.env[Tk]), f)
        else:
            self.ob(len(rest) == 1, "accept", "an interaction is accepted with %d random numbers of its own" % len(rest), f)
            if len(rest) != 1:
                return
        modes = {False, True}
        for seed in range(40):
            E, o, d = self.point(sym, f, seed)
            near, far = E.val(nearA), E.val(farA)
            th = near + (far - near) * E.free("th") / 2
            E.env[next(iter(head.env[tk][2]))[0]] = th - E.val(off)
            if trans:
                E.env[next(iter(head.env[Tk][2]))[0]] = Th = E.free("Tr")
            mx = E.at(ma)
            t = th - E.at(la) / mx * (1 if seed % 2 else Fraction(1, 8))
            if not seed % 2:
                E.env[la] = E.at(la) / 8
                E.memo.clear()
            p = tuple(a + b * t for a, b in zip(o, d))
            vv = E.val(sc["eval_scalar"][0][1][2][0])
            q = E.free("eval_scalar", vv, p)
            given = {k: True for s, v in inloop for k, b in overlaps(sym, s.facts)}
            ends = [v for s, v in inloop if E.truth(s.facts, given)]
            goes = [b for b in backs if E.truth(b.facts, given)]
            self.ob(len(ends) + len(goes) == 1, "cases", "%d outcomes of one step" % (len(ends) + len(goes)), f)
            if len(ends) + len(goes) != 1:
                return
            if t >= far:
                self.ob(bool(ends), "end", "a step beyond the medium does not end the walk", f)
                for v in ends:
                    if trans:
                        self.ob(v[0] == "m" and close(E.val(v), Th), "result", "the transmittance returned is %s, not the product so far" % sym.show(v)[:120], f)
                    else:
                        if v[0] == "r" and dict(v[3]).get("medium") == ONE:
                            self.ob(False, "end", "an interaction beyond the medium", f)
                        self.passes(sym, E, f, v)
                continue
            if trans:
                self.ob(bool(goes), "on", "the walk ends before the ray leaves the medium", f)
                for b in goes:
                    self.ob(close(E.val(b.env[tk]) + E.val(off), t), "step", "the next distance is %s, not the step of the maximum density" % sym.show(b.env[tk])[:160], f, sample="t -= log(1-u)/max")
                    self.ob(close(E.val(b.env[Tk]), Th * (1 - q)), "factor", "a step multiplies the transmittance to %s, not by 1 - density/maximum at the point reached" % sym.show(b.env[Tk])[:200], f, sample="Tr *= 1 - density/max")
                continue
            u2 = E.at(rest[0])
            acc_now = bool(ends)
            modes &= {m for m in modes if ((q > (1 - u2 if m else u2)) == acc_now)}
            for v in ends:
                x = dict(v[3]) if v[0] == "r" else {}
                self.ob(x.get("medium") == ONE, "inside", "an accepted interaction is not reported as one in the medium", f)
                if x:
                    self.ob(close(E.val(x["p"]), p), "p", "the interaction is not at the distance reached", f, sample="p = o + d*t")
                    w = x["weight"]
                    a = atom(w)
                    k = sym.T.keys[a] if a is not None else ("none",)
                    if k[0] == "call" and k[1].split("::")[-1] == "eval_color":
                        self.ob(close(E.val(k[2][1]), p), "albedo", "the albedo is taken at %s, not at the interaction" % sym.show(k[2][1])[:120], f, sample="albedo at the interaction")
                        fk = self.field_key(sym, k[2][0])
                        self.ob(fk in (None, "volume_albedo", "albedo"), "albedo", "the albedo is read from the property '%s'" % fk, f)
                    else:
                        self.ob(k[0] == "f", "albedo", "the weight of an interaction is %s, not the albedo" % sym.show(w)[:160], f)
            for b in goes:
                self.ob(close(E.val(b.env[tk]) + E.val(off), t), "step", "the next distance is %s, not the step of the maximum density" % sym.show(b.env[tk])[:160], f, sample="t -= log(1-u)/max")
        if not trans:
            self.ob(bool(modes), "accept", "a point is not accepted with the probability density/maximum", f, sample="accepted iff density/max > u")
        self.R.count("ways to evaluate transmittance" if trans else "ways to sample a distance", len(inloop))


def A1(a):
    return ("m", Fraction(1), frozenset({(a, 1)}))


def port(s0, m, s1):
    if isconst(m):
        return m
    out = ("m", m[1], frozenset())
    for a, e in m[2]:
        k = s0.T.keys[a]
        if k[0] == "f" and s0.T.keys[k[1]][0] == "this":
            x = fld(s1, s1.A(s0.T.keys[k[1]]), k[2])
        else:
            raise GiveUp("maximum %s" % s0.show(m))
        if e != 1:
            raise GiveUp("maximum %s" % s0.show(m))
        out = s1.mul(out, x)
    return out


def canon(sym, v):
    """a value by what it is made of, comparable between engines"""
    if isinstance(v, tuple) and v and v[0] == "m" and len(v) == 3:
        return ("m", v[1], tuple(sorted((repr(canon(sym, sym.T.keys[a])), e) for a, e in v[2])))
    if isinstance(v, tuple) and v and v[0] == "f" and len(v) == 3 and isinstance(v[1], int):
        return ("f", canon(sym, sym.T.keys[v[1]]), v[2])
    if isinstance(v, tuple):
        return tuple(canon(sym, x) for x in v)
    return v


def src_names(sym, v):
    out = set()
    for a in atoms_in(sym, v) if v[0] in "mr" else ():
        k = sym.T.keys[a]
        if k[0] == "call" and k[1].split("::")[-1] == "find":
            for x in k[2][1:]:
                b = atom(x)
                if b is not None and sym.T.keys[b][0] == "str":
                    out.add(sym.T.keys[b][1])
    return out


# ------------------------------------------------------------------------------------------------ volumes
class VolumeRule(MediumRule):
    def check(self):
        R, P = self.R, self.P
        if method(P, self.cls, "eval_scalar").cls != self.cls:
            return
        R.count("volumes")
        try:
            self.bounded()
        except UNDECIDED as e:
            R.notes.append("%s: %s" % (self.short, e))

    def bounded(self):
        fm, hm, sm, outm = self.run("max_scalar")
        f, h, sym, outs = self.run("eval_scalar")
        if len(outm) != 1:
            raise GiveUp("maximum with cases")
        m = outm[0][1]
        if h.loops:
            return self.total(fm, sm, m, f, h, sym, outs)
        for s, v in outs:
            self.R.count("values of volumes")
            msg = "a value %s is not bounded by the maximum %s that is reported" % (sym.show(v)[:160], sm.show(m)[:80])
            if isconst(v) and isconst(m):
                self.ob(v[1] <= m[1], "max", msg, f, sample=msg.replace("not bounded", "bounded"))
                continue
            if isconst(v) and v[1] <= 0:
                self.ob(True, "max", msg, f, sample="0")
                continue
            mm = port(sm, m, sym)
            q = sym.mul(v, sym.inv(mm)) if hasattr(sym, "inv") else self.div(sym, v, mm)
            if isconst(q):
                self.ob(q[1] <= 1, "max", msg, f, sample="%s <= max_scalar" % sym.show(v)[:60])
                continue
            if q[0] == "m" and len(q[2]) == 1:
                (a, e), = q[2]
                k = sym.T.keys[a]
                if k[0] == "call" and k[1].split("::")[-1] == "exp":
                    ok = q[1] <= 1
                    for seed in range(24):
                        E = VE(sym, {}, seed)
                        x = E.val(k[2][0])
                        ok = ok and x * e <= 0
                    self.ob(ok, "max", msg, f, sample="max*exp(x), x <= 0")
                    continue
            if q[0] == "m" and any(sym.T.keys[a][0] == "f" and e < 0 for a, e in q[2]) or isconst(m):
                self.ob(False, "max", msg, f)
                continue
            raise GiveUp("value %s" % sym.show(v)[:120])

    def div(self, sym, v, m):
        return sym.mul(v, ("m", 1 / m[1], frozenset((a, -e) for a, e in m[2])))

    # the bound of a volume made of others is around all of theirs
    def union(self, cf, ch, cs, couts, lists):
        fb, hb, sb, outb = self.run("bound")
        if len(outb) != 1 or len(couts) != 1:
            raise GiveUp("bound")
        a = atom(outb[0][1])
        k = sb.T.keys[a] if a is not None else ("none",)
        if k[0] != "f" or sb.T.keys[k[1]][0] != "this":
            raise GiveUp("bound")
        th = couts[0][0].env.get(("this",))
        for side, pick, start in (("min", min, "Inf"), ("max", max, "-1*Inf")):
            F = fld(cs, th, k[2], side)
            done = False
            for n, fr, entry, head, backs, changed, lid in ch.loops:
                for kk in changed:
                    if kk == ("this",) or head.env[kk][0] != "m" or len(head.env[kk][2]) != 1:
                        continue
                    if not (atoms_in(cs, F) & set(x for x, e in head.env[kk][2])):
                        continue
                    for seed in range(6):
                        E = Ev(cs, {next(iter(head.env[kk][2]))[0]: tuple(Fraction(random.Random(seed * 3 + i).randrange(-3, 7), 3) for i in range(3))}, seed)
                        h0 = E.val(head.env[kk])
                        if E.val(F) != h0:
                            raise GiveUp("bound from %s" % cs.show(F)[:80])
                        for b in backs:
                            bs = [x for x in (cs.T.keys[y] for y in atoms_in(cs, b.env[kk])) if x[0] == "call" and x[1].split("::")[-1] == "bound"]
                            if len(bs) != 1:
                                self.ob(False, "bound", "the bound does not grow with that of each volume", cf)
                                return
                            bb = E._at(bs[0])
                            self.ob(E.val(b.env[kk]) == tuple(pick(x, y) for x, y in zip(h0, bb[side])), "bound", "the bound is not around that of each volume (%s)" % side, cf, sample="bound around all volumes")
                            self.ob(self.listed(cs, bs[0][2][0]) in lists, "bound", "the bound is that of %s, the density that of %s" % (self.listed(cs, bs[0][2][0]), sorted(lists)), cf)
                        self.ob(cs.show(entry.env[kk]) == start, "bound", "the bound starts from %s" % cs.show(entry.env[kk]), cf)
                    done = True
            if not done:
                raise GiveUp("bound of the parts")
        self.R.count("bounds of volumes")

    def where_inside(self, sym, f, backs, val, what, key):
        """a part counts exactly where its bound contains the point"""
        for seed in range(24):
            E = Ev(sym, {}, seed)
            bs = [a for b in backs for fk in b.facts for a in katoms(sym, fk) if sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1] == "bound"]
            if not bs:
                raise GiveUp("parts without a bound")
            bb = E.at(bs[0])
            rnd = random.Random(seed)
            inside = seed % 2 == 0
            p = [x + (y - x) * Fraction(rnd.randrange(1, 99), 99) for x, y in zip(bb["min"], bb["max"])]
            if not inside:
                i = rnd.randrange(3)
                p[i] = bb["max"][i] + 1 if seed % 4 == 1 else bb["min"][i] - 1
            E.env[next(iter(par(sym, f, 0)[2]))[0]] = tuple(p)
            E.memo.clear()
            common = {k for k, x in backs[0].facts.items() if all(b.facts.get(k) == x for b in backs)}
            go = [b for b in backs if E.truth({k: x for k, x in b.facts.items() if k not in common}, {})]
            if len(go) != 1:
                raise GiveUp("parts")
            counted = val(E, go[0])
            self.ob(counted == inside, key, "a volume is %s where its bound %s the point" % (("counted", "does not contain") if counted else ("left out", "contains")), f, sample="%s of the volumes around the point" % what)

    def colour(self, lists):
        """the colour of a volume made of others is the mean of theirs, weighted with the density"""
        f, h, sym, outs = self.run("eval_color")
        if len(h.loops) != 1 or len(outs) != 1:
            raise GiveUp("colour")
        n, fr, entry, head, backs, changed, lid = h.loops[0]
        v = outs[0][1]
        den = [k for k in changed if head.env[k][0] == "m" and len(head.env[k][2]) == 1 and (next(iter(head.env[k][2]))[0], -1) in v[2]]
        num = [k for k in changed if head.env[k][0] == "m" and len(head.env[k][2]) == 1 and (next(iter(head.env[k][2]))[0], 1) in v[2]]
        if len(den) != 1 or len(num) != 1 or len(v[2]) != 2 or v[1] != 1:
            raise GiveUp("colour %s" % sym.show(v)[:80])
        den, num = den[0], num[0]
        self.ob(E_zero(sym, entry.env[den]) and E_zero(sym, entry.env[num]), "colour", "the mean colour does not start from zero", f)
        for b in backs:
            dx, nx = sym.add(b.env[den], head.env[den], -1), sym.add(b.env[num], head.env[num], -1)
            if E_zero(sym, dx) and E_zero(sym, nx):
                continue
            ka = sym.T.keys[atom(dx)] if atom(dx) is not None else ("none",)
            q = self.div(sym, nx, dx) if nx[0] == "m" and dx[0] == "m" and dx[1] != 0 else None
            kc = sym.T.keys[atom(q)] if q is not None and atom(q) is not None else ("none",)
            ok = ka[0] == "call" and ka[1].split("::")[-1] == "eval_scalar" and kc[0] == "call" and kc[1].split("::")[-1] == "eval_color"
            self.ob(ok, "colour", "a volume adds %s to the colour and %s to its weight, not density times colour and density" % (sym.show(nx)[:100], sym.show(dx)[:100]), f, sample="colour weighted with the density")
            if ok:
                i, j = sym.T.keys[atom(ka[2][0])], sym.T.keys[atom(kc[2][0])]
                if "idx" in (i[0], j[0]):
                    self.ob(i[0] == j[0] and i[2] == j[2] and same(sym, ka[2][1], kc[2][1]) and same(sym, ka[2][1], par(sym, f, 0)), "colour", "the colour of one volume is weighted with the density of another, or at another point", f)
                    self.ob(self.listed(sym, ka[2][0]) in lists, "colour", "the weight is not the density", f)
        self.where_inside(sym, f, backs, lambda E, b: b.env[den] != head.env[den], "colours", "colour")
        self.R.count("colours of volumes")

    # a volume made of others
    def total(self, fm, sm, m, f, h, sym, outs):
        self.R.count("values of volumes")
        n, fr, entry, head, backs, changed, lid = h.loops[0]
        if len(h.loops) != 1 or len(outs) != 1:
            raise GiveUp("several loops")
        v = outs[0][1]
        key = [k for k in changed if head.env.get(k) == v]
        if len(key) != 1:
            raise GiveUp("sum")
        key = key[0]
        lists = set()
        for b in backs:
            x = sym.add(b.env[key], head.env[key], -1)
            if isconst(x) and x[1] == 0:
                continue
            a = atom(x)
            k = sym.T.keys[a] if a is not None else ("none",)
            if not (k[0] == "call" and k[1].split("::")[-1] == "eval_scalar"):
                self.ob(False, "sum", "each volume adds %s, not its density" % sym.show(x)[:120], f)
                return
            self.ob(same(sym, k[2][1], par(sym, f, 0)), "sum", "the density of a volume is taken at %s" % sym.show(k[2][1])[:100], f)
            lists.add(self.listed(sym, k[2][0]))
        self.ob(E_zero(sym, entry.env[key]), "sum", "the sum starts at %s" % sym.show(entry.env[key]), f)
        a = atom(m)
        k = sm.T.keys[a] if a is not None else ("none",)
        if k[0] != "f" or sm.T.keys[k[1]][0] != "this":
            raise GiveUp("maximum %s" % sm.show(m))
        fname = k[2]
        cf, ch, cs, couts = self.run("construct")
        found = set()
        for L in ch.loops:
            n, fr, entry, head, backs, changed, lid = L
            for b in backs:
                for kk in changed:
                    if kk != ("this",):
                        continue
                    x1, x0 = fld(cs, b.env[kk], fname), fld(cs, head.env[kk], fname)
                    if x1 == x0 or x1 is None:
                        continue
                    add = cs.add(x1, x0, -1)
                    aa = atom(add)
                    ka = cs.T.keys[aa] if aa is not None else ("none",)
                    ok = ka[0] == "call" and ka[1].split("::")[-1] == "max_scalar"
                    self.ob(ok, "max", "the maximum grows by %s per volume, not by the maximum of the volume" % cs.show(add)[:120], cf)
                    if ok:
                        found.add(self.listed(cs, ka[2][0]))
        self.ob(bool(found) and found == lists, "max", "the maximum is summed over %s, the density over %s" % (sorted(map(str, found)) or "nothing", sorted(map(str, lists))), cf, sample="maximum summed over the volumes of the density")
        n, fr, entry, head, backs, changed, lid = h.loops[0]
        for part in (lambda: self.where_inside(sym, f, backs, lambda E, b: b.env[key] != head.env[key], "densities", "sum"), lambda: self.union(cf, ch, cs, couts, lists), lambda: self.colour(lists)):
            try:
                part()
            except UNDECIDED as e:
                self.R.notes.append("%s: %s" % (self.short, e))

    def listed(self, sym, v):
        a = atom(v)
        k = sym.T.keys[a] if a is not None else ("none",)
        if k[0] == "idx":
            names = [sym.T.keys[b][2] for b in atoms_in(sym, k[1]) if sym.T.keys[b][0] == "f"]
            if names:
                return names[0]
        raise GiveUp("volume %s" % sym.show(v)[:100])


def E_zero(sym, v):
    return isconst(v) and v[1] == 0


class VE(Ev):
    """fields and parameters of any sign; squares stay squares"""

    def _at(self, k):
        if k[0] == "f" and isinstance(k[2], int):
            b = k[1]
            return self.free("comp", b, k[2]) - Fraction(1, 3)
        return Ev._at(self, k)


# ------------------------------------------------------------------------------------------------ the scene's medium
class SceneMedium:
    def __init__(self, R, P):
        self.R, self.P = R, P

    def get(self, name):
        fs = [f for f in self.P.funcs.values() if f.qn == "lm::path::" + name and f.body is not None]
        if len(fs) != 1:
            raise GiveUp("path::" + name)
        h = MH(self.P)
        sym = Sym(self.P, h)
        return fs[0], sym, sym.start(fs[0], None)

    def check(self):
        for nm in ("sample_distance", "eval_transmittance"):
            try:
                f, sym, outs = self.get(nm)
                getattr(self, nm)(f, sym, outs)
                self.R.count("path functions of media")
            except UNDECIDED as e:
                self.R.notes.append("path::%s: %s" % (nm, e))

    def ob(self, ok, nm, key, msg, f, sample=None):
        self.R.oblige(ok, "path::%s|%s" % (nm, key), "path::%s: %s" % (nm, msg), f.where(), sample=sample)

    def facts(self, sym, s):
        out = {}
        for key, b in s.facts.items():
            if key[0] == "c":
                out[key[1]] = b
            elif key[0] == "nz" and len(key[1]) == 1:
                out[next(iter(key[1]))] = b
        return out

    def call(self, sym, s, v, name):
        """the calls of a function an outcome depends on"""
        acc = atoms_in(sym, v) if v[0] in "mr" else set()
        for k in s.facts:
            acc |= katoms(sym, k)
            if k[0] == "c" and sym.T.keys[k[1]][0] == "eng":
                x = sym.T.keys[k[1]][1]
                acc |= set(sym.subatoms(x)) | {x} if isinstance(x, int) else atoms_in(sym, x)
        return [a for a in sorted(acc) if sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1] == name]

    def engaged(self, sym, fs, a):
        x = sym.T.ids.get(("eng", a))
        return fs.get(x) if x is not None else None

    def present(self, sym, s, nm, f):
        """the scene has a medium where it is asked for"""
        for key, b in s.facts.items():
            if key[0] == "eq" and not b or key[0] in ("c", "nz"):
                if any(sym.T.keys[a][0] == "call" and sym.T.keys[a][1].endswith("medium_node") for a in katoms(sym, key)) and (key[0] != "c" or sym.T.keys[key[1]][0] == "pos"):
                    return True
        return False

    def medium_of(self, sym, m, nm, f, s):
        k = sym.T.keys[m]
        names = [sym.T.keys[a] for a in atoms_in(sym, k[2][0])]
        nodes = [x for x in names if x[0] == "call" and x[1].split("::")[-1] == "node_at"]
        if not nodes:
            raise GiveUp("medium %s" % sym.show(k[2][0]))
        i = atom(nodes[0][2][1])
        ki = sym.T.keys[i] if i is not None else ("none",)
        self.ob(ki[0] == "call" and ki[1].split("::")[-1] == "medium_node", nm, "medium", "the medium is that of the node %s, not of the scene's medium" % sym.show(nodes[0][2][1]), f)
        self.ob(self.present(sym, s, nm, f), nm, "none", "the medium of a scene is used without asking whether the scene has one", f, sample="medium only where the scene has one")

    def sample_distance(self, f, sym, outs):
        nm = "sample_distance"
        sp, wo = par(sym, f, 2), par(sym, f, 3)
        o = fld(sym, sp, "geom", "p")
        for s, v in outs:
            self.R.count("outcomes of path functions")
            fs = self.facts(sym, s)
            its, ms = self.call(sym, s, v, "intersect"), self.call(sym, s, v, nm)
            if len(its) > 1 or len(ms) > 1:
                raise GiveUp("several intersections")
            hit = self.engaged(sym, fs, its[0]) if its else None
            if its:
                self.ray(sym, sym.T.keys[its[0]][2][1], o, wo, nm, "intersect", f)
            inside = False
            ds = None
            if ms:
                k = sym.T.keys[ms[0]]
                self.medium_of(sym, ms[0], nm, f, s)
                self.ray(sym, k[2][2], o, wo, nm, "ray", f)
                self.ob(k[2][3] == ZERO, nm, "tmin", "distances start at %s" % sym.show(k[2][3]), f)
                H = A1(its[0]) if its else None
                inf = fs.get(atom(fld(sym, H, "geom", "infinite"))) if H is not None else None
                if hit and inf is False:
                    ok = self.length(sym, k[2][4], fld(sym, H, "geom", "p"), o)
                    self.ob(ok, nm, "tmax", "distances go on to %s, not to the surface hit" % sym.show(k[2][4])[:120], f, sample="distances up to the surface hit")
                elif hit is False or inf is True:
                    self.ob(sym.show(k[2][4]) == "Inf", nm, "tmax", "distances end at %s where nothing is hit" % sym.show(k[2][4])[:120], f)
                elif hit is True and inf is None:
                    self.ob(False, nm, "tmax", "the environment counts as a surface at a finite distance, or the reverse", f)
                ds = self.engaged(sym, fs, ms[0])
                inside = ds is True and fs.get(atom(fld(sym, A1(ms[0]), "medium"))) is True
                if ds is True and fs.get(atom(fld(sym, A1(ms[0]), "medium"))) is None:
                    self.ob(False, nm, "kind", "whether the distance ends in the medium is not looked at", f)
            if inside:
                self.ob(v[0] == "r", nm, "medium point", "an interaction in the medium is dropped", f)
                if v[0] == "r":
                    x = dict(v[3])
                    M = A1(ms[0])
                    t = fld(sym, x["sp"], "type")
                    self.ob(same(sym, fld(sym, x["sp"], "geom", "p"), fld(sym, M, "p")), nm, "medium point", "an interaction in the medium is at %s" % sym.show(fld(sym, x["sp"], "geom", "p"))[:120], f, sample="medium point at the sampled distance")
                    self.ob(same(sym, x["weight"], fld(sym, M, "weight")), nm, "medium weight", "an interaction in the medium is weighted with %s" % sym.show(x["weight"])[:120], f)
                    self.ob(t is not None and isconst(t) and t[1] == self.kind("MediumInteraction"), nm, "medium kind", "an interaction in the medium is of another kind", f)
                continue
            if hit is False:
                self.ob(v[0] == "n", nm, "miss", "a surface is reported where nothing is hit", f)
            elif hit is True:
                self.ob(v[0] == "r", nm, "surface", "the surface hit is dropped", f)
                if v[0] == "r":
                    x = dict(v[3])
                    self.ob(same(sym, x["sp"], A1(its[0])), nm, "surface", "the interaction is %s, not the surface hit" % sym.show(x["sp"])[:120], f, sample="surface hit beyond the medium")
                    ok = same(sym, x["weight"], fld(sym, A1(ms[0]), "weight")) if ds else x["weight"] == ONE
                    self.ob(ok, nm, "surface weight", "a surface reached is weighted with %s" % sym.show(x["weight"])[:120], f)

    def kind(self, name):
        return enum(self.P, "lm::SceneInteraction", name)

    def ray(self, sym, v, o, d, nm, key, f):
        x = dict(v[3]) if v[0] == "r" else {}
        self.ob(bool(x) and same(sym, x["o"], o) and same(sym, x["d"], d), nm, key, "the ray is %s" % sym.show(v)[:160], f)

    def length(self, sym, v, a, b):
        k = sym.T.keys[atom(v)] if atom(v) is not None else ("none",)
        if k[0] != "call":
            return False
        m = k[1].split("::")[-1]
        if m == "distance":
            return same(sym, k[2][0], a) and same(sym, k[2][1], b) or same(sym, k[2][0], b) and same(sym, k[2][1], a)
        if m == "length":
            d = sym.add(a, b, -1)
            return same(sym, k[2][0], d) or same(sym, k[2][0], sym.neg(d))
        return False

    def eval_transmittance(self, f, sym, outs):
        nm = "eval_transmittance"
        sp1, sp2 = par(sym, f, 2), par(sym, f, 3)
        p1, p2 = fld(sym, sp1, "geom", "p"), fld(sym, sp2, "geom", "p")
        for s, v in outs:
            self.R.count("outcomes of path functions")
            fs = self.facts(sym, s)
            blocked = None
            for key, b in s.facts.items():
                if key[0] == "c" and sym.T.keys[key[1]][0] == "eng":
                    x = sym.T.keys[key[1]][1]
                    kx = sym.T.keys[x] if isinstance(x, int) else ("none",)
                    if kx[0] == "call" and kx[1].split("::")[-1] == "intersect":
                        blocked = b
                elif key[0] in ("c", "nz"):
                    a = key[1] if key[0] == "c" else next(iter(key[1]))
                    ka = sym.T.keys[a]
                    if ka[0] == "call" and ka[1].split("::")[-1] == "visible":
                        blocked = not b
            ms = self.call(sym, s, v, nm)
            if blocked:
                self.ob(v == ZERO, nm, "blocked", "light passes between points that do not see each other: %s" % sym.show(v)[:120], f, sample="0 between points that do not see each other")
                continue
            if blocked is None:
                self.ob(v == ZERO, nm, "blocked", "visibility is not asked for", f)
                continue
            if not ms:
                self.ob(v == ONE and self.vacuum(sym, s), nm, "vacuum", "the transmittance between points that see each other is %s" % sym.show(v)[:120], f, sample="1 without a medium")
                continue
            self.ob(atom(v) == ms[0], nm, "value", "the transmittance of the medium becomes %s" % sym.show(v)[:160], f)
            self.medium_of(sym, ms[0], nm, f, s)
            k = sym.T.keys[ms[0]]
            inf = fs.get(atom(fld(sym, sp2, "geom", "infinite")))
            x = dict(k[2][2][3]) if k[2][2][0] == "r" else {}
            if not x:
                raise GiveUp("ray %s" % sym.show(k[2][2]))
            self.ob(same(sym, x["o"], p1), nm, "origin", "the ray starts at %s, not at the first point" % sym.show(x["o"])[:100], f)
            self.ob(k[2][3] == ZERO, nm, "tmin", "the ray starts at distance %s" % sym.show(k[2][3]), f)
            if inf is True:
                self.ob(same(sym, x["d"], sym.neg(fld(sym, sp2, "geom", "wo"))) and sym.show(k[2][4]) == "Inf", nm, "infinite", "toward the environment the ray is %s up to %s" % (sym.show(x["d"])[:100], sym.show(k[2][4])[:60]), f)
            elif inf is False:
                d = sym.add(p2, p1, -1)
                kd = sym.T.keys[atom(x["d"])] if atom(x["d"]) is not None else ("none",)
                ok = kd[0] == "call" and kd[1].split("::")[-1] == "normalize" and same(sym, kd[2][0], d)
                self.ob(ok, nm, "direction", "the ray goes along %s, not to the second point" % sym.show(x["d"])[:120], f)
                self.ob(self.length(sym, k[2][4], p1, p2), nm, "tmax", "the ray ends at %s, not at the second point" % sym.show(k[2][4])[:120], f, sample="transmittance up to the second point")
            else:
                raise GiveUp("infinity")

    def vacuum(self, sym, s):
        for key, b in s.facts.items():
            if key[0] == "eq" and b and any(sym.T.keys[a][0] == "call" and sym.T.keys[a][1].endswith("medium_node") for a in katoms(sym, key)):
                return True
            if key[0] == "c" and sym.T.keys[key[1]][0] == "pos" and any(sym.T.keys[a][0] == "call" and sym.T.keys[a][1].endswith("medium_node") for a in katoms(sym, key)):
                return True
        return False


def check(ctx):
    R, P = Result(), ctx.P
    for cls in sorted(P.all_derived("lm::Medium")):
        if method(P, cls, "sample_distance") is None or method(P, cls, "sample_distance").file.endswith("pylm.cpp"):
            continue
        MediumRule(R, P, cls).check()
    for cls in sorted(P.all_derived("lm::Volume")):
        f = method(P, cls, "max_scalar")
        if f is None or f.file.endswith("pylm.cpp"):
            continue
        VolumeRule(R, P, cls).check()
    SceneMedium(R, P).check()
    R.floor("media", 2)
    R.floor("volumes", 5)
    return R
