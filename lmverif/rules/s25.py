"""S25: camera rays, raster positions and densities of directions belong together and follow the options of the camera."""
import random
from fractions import Fraction
from math import isqrt

from ..core import *
from ..sym import Sym, S, GiveUp, ONE, ZERO, const, isconst
from .s19 import Ev, UNDECIDED, A1, src_names
from .s21 import AH, atoms_in, method, par
from .s22 import Val, atom, fld, mulv, cross, dot, sub


class Mat(tuple):
    """a matrix, by columns"""


def root(x):
    if x < 0:
        raise GiveUp("root")
    a, b = isqrt(x.numerator), isqrt(x.denominator)
    if a * a != x.numerator or b * b != x.denominator:
        raise GiveUp("irrational length")
    return Fraction(a, b)


class CE(Ev):
    """vectors and matrices have their values; a length must be rational (points are chosen so) or, with loose, is any positive number"""

    loose = False

    def val(self, v):
        if v[0] == "r":
            return {k: self.val(x) for k, x in v[3]}
        if v[0] != "m":
            raise GiveUp("value")
        r = None
        for a, e in sorted(v[2]):
            x = self.at(a)
            if isinstance(x, (Mat, dict)):
                if e == 1 and len(v[2]) == 1:
                    if v[1] == 1:
                        return x
                    if isinstance(x, Mat):
                        return Mat(tuple(v[1] * c for c in col) for col in x)
                raise GiveUp("product of matrices")
            for _ in range(abs(e)):
                if e < 0:
                    x1 = tuple(1 / c for c in x) if isinstance(x, tuple) else 1 / x
                else:
                    x1 = x
                r = x1 if r is None else mulv(r, x1)
        return v[1] if r is None else mulv(v[1], r)

    def _at(self, k):
        if k[0] == "+":
            r = None
            for c, m in k[1]:
                x = self.val(("m", c, m))
                if r is None:
                    r = x
                elif isinstance(r, tuple) != isinstance(x, tuple):
                    n = len(r) if isinstance(r, tuple) else len(x)
                    r, x = [y if isinstance(y, tuple) else (y,) * n for y in (r, x)]
                    r = tuple(a + b for a, b in zip(r, x))
                else:
                    r = tuple(a + b for a, b in zip(r, x)) if isinstance(r, tuple) else r + x
            return r
        if k[0] == "mat*":
            M, x = self.val(k[1]), self.val(k[2])
            if not isinstance(M, Mat):
                raise GiveUp("matrix")
            if isinstance(x, Mat):
                return Mat(tuple(sum(M[j][i] * c[j] for j in range(len(M))) for i in range(len(M[0]))) for c in x)
            return tuple(sum(M[j][i] * x[j] for j in range(len(M))) for i in range(len(M[0])))
        if k[0] == "ctor" and "mat<" in k[1]:
            flat = k[2] if len(k) == 3 and isinstance(k[2], tuple) and k[2] and isinstance(k[2][0], tuple) else k[2:]
            xs = [self.val(x) for x in flat]
            if len(xs) == 1 and isinstance(xs[0], Mat):
                n = 3 if "mat<3" in k[1] else 4
                return Mat(tuple(c[:n]) for c in xs[0][:n])
            if xs and all(isinstance(x, tuple) for x in xs):
                return Mat(xs)
            raise GiveUp("matrix")
        if k[0] == "call":
            m = k[1].split("::")[-1]
            if m == "transpose":
                M = self.val(k[2][0])
                if not isinstance(M, Mat):
                    raise GiveUp("matrix")
                return Mat(zip(*M))
            if m in ("length", "normalize"):
                x = self.val(k[2][0])
                if not isinstance(x, tuple):
                    raise GiveUp("vector")
                if self.loose:
                    l = self.free("length", x)
                else:
                    l = root(sum(c * c for c in x))
                return l if m == "length" else tuple(c / l for c in x)
            if m == "radians":
                return self.val(k[2][0]) * self.pi / 180
            if m == "tan":
                return self.free("tan", self.val(k[2][0]))
            if m == "pow":
                x, e = self.val(k[2][0]), self.val(k[2][1])
                if isinstance(x, tuple) or e.denominator != 1:
                    raise GiveUp("power")
                return x ** int(e)
            if m == "sqrt":
                return root(self.val(k[2][0]))
            if m == "perspective" or m == "lookAt" or m not in ("dot", "cross", "abs", "fabs", "min", "max", "fmin", "fmax", "sign", "copysign"):
                raise GiveUp("the operation %s" % m)
        if k[0] == "f" and isinstance(k[2], int):
            b = self.at(k[1])
            if isinstance(b, tuple):
                return b[k[2]]
        return Ev._at(self, k)

    pi = Fraction(22, 7)


def stereo(rnd, wide=10):
    """a rational unit vector"""
    a, b = Fraction(rnd.randrange(-9, 10), wide), Fraction(rnd.randrange(-9, 10), wide)
    n = 1 + a * a + b * b
    return 2 * a / n, 2 * b / n, (1 - a * a - b * b) / n


def frame(rnd):
    """a rational right-handed orthonormal basis, from a quaternion"""
    q = [Fraction(rnd.randrange(-5, 6)) for _ in range(4)]
    if not any(q):
        q[0] = Fraction(1)
    a, b, c, d = q
    n = a * a + b * b + c * c + d * d
    R = [[(a*a+b*b-c*c-d*d), 2*(b*c-a*d), 2*(b*d+a*c)], [2*(b*c+a*d), (a*a-b*b+c*c-d*d), 2*(c*d-a*b)], [2*(b*d-a*c), 2*(c*d+a*b), (a*a-b*b-c*c+d*d)]]
    cols = [tuple(R[i][j] / n for i in range(3)) for j in range(3)]
    return cols


class CameraRule:
    def __init__(self, R, P, cls):
        self.R, self.P, self.cls = R, P, cls
        self.short = cls.split("::")[-1]
        self.engines = {}

    def run(self, name):
        if name not in self.engines:
            f = method(self.P, self.cls, name)
            if f is None:
                raise GiveUp("no %s()" % name)
            sym = Sym(self.P, AH(self.P))
            self.engines[name] = (f, sym, sym.start(f, self.cls))
        return self.engines[name]

    def ob(self, ok, key, msg, f, sample=None):
        self.R.oblige(ok, "%s|%s" % (self.short, key), "%s: %s" % (self.short, msg), f.where(), sample=sample)

    def check(self):
        self.R.count("cameras")
        for part in ("options", "rays", "density", "samples", "matrices"):
            try:
                getattr(self, part)()
                self.R.count("parts analysed")
            except UNDECIDED as e:
                self.R.notes.append("%s.%s: %s" % (self.short, part, e))
                self.R.count("parts not decided")

    # ---------------------------------------------------------------- values of the camera
    def made(self, rnd, matrix=False):
        """the fields construct() leaves for options at a rational point: (fields, options)"""
        f, sym, outs = self.run("construct")
        u, v, w = frame(rnd)
        pos = tuple(Fraction(rnd.randrange(-20, 20), 3) for _ in range(3))
        dist, a, b = Fraction(rnd.randrange(1, 9)), Fraction(rnd.randrange(1, 9)), Fraction(rnd.randrange(-8, 9))
        opt = {"position": pos, "center": tuple(p - dist * c for p, c in zip(pos, w)), "up": tuple(a * x + b * y for x, y in zip(v, w)),
               "vfov": Fraction(rnd.randrange(10, 120)), "aspect": Fraction(2 * rnd.randrange(1, 5) + 1, 4)}
        # the columns of the matrix: left, up, forward, position
        opt["matrix"] = Mat([tuple(-x for x in u) + (Fraction(0),), v + (Fraction(0),), tuple(-x for x in w) + (Fraction(0),), pos + (Fraction(1),)])
        hit = []
        for s, _ in outs:
            E = CE(sym, {}, rnd.random())
            E.pi = E.free("pi")
            has = None
            for key, b_ in s.facts.items():
                if key[0] == "eq":
                    names = src_names(sym, key[1]) | src_names(sym, key[2])
                    if "matrix" in names:
                        has = not b_
            if has is not None and has != matrix or has is None and matrix:
                continue
            for a_ in list(range(len(sym.T.keys))):
                k = sym.T.keys[a_]
                if k[0] == "call" and k[1].split("::")[-1].startswith("operator "):
                    nm = src_names(sym, A1(a_))
                    if len(nm) == 1 and next(iter(nm)) in opt:
                        E.env[a_] = opt[next(iter(nm))]
                elif k[0] == "g" and str(k[1]).endswith("@Pi"):
                    E.env[a_] = E.pi
            th = s.env.get(("this",))
            if th is None:
                raise GiveUp("object")
            vals = {}
            for name in self.fields():
                x = fld(sym, th, name)
                if x is None:
                    continue
                try:
                    vals[name] = E.val(x)
                    if isinstance(vals[name], tuple) and not isinstance(vals[name], Mat):
                        vals[name] = vals[name][:3]
                except UNDECIDED:
                    pass
            hit.append((vals, E, u, v, w))
        if len(hit) != 1:
            raise GiveUp("%d constructions" % len(hit))
        vals, E, u, v, w = hit[0]
        if not matrix:
            opt["half"] = E.free("tan", opt["vfov"] * E.pi / 360)
        else:
            opt["half"] = E.free("tan", opt["vfov"] * E.pi / 360)
        return vals, opt, (u, v, w), E

    def fields(self):
        r = self.P.recs.get(self.cls) if hasattr(self.P, "recs") else None
        return [x["n"] for x in r["fields"]] if r else [n for n in self.names()]

    def names(self):
        out = set()
        for nm in ("primary_ray", "raster_position", "pdf_direction", "construct", "view_matrix", "projection_matrix"):
            f, sym, outs = self.run(nm)
            for k in sym.T.keys:
                if k[0] == "f" and isinstance(k[2], str) and sym.T.keys[k[1]][0] == "this":
                    out.add(k[2])
            for s, _ in outs:
                th = s.env.get(("this",))
                if th is not None and th[0] == "r":
                    out |= {k for k, _ in th[3]}
        return sorted(out)

    def at(self, name, vals, args, seed, loose=False):
        """the outcome of a function for these fields and arguments"""
        f, sym, outs = self.run(name)
        E = CE(sym, {}, seed)
        E.loose = loose
        for a in range(len(sym.T.keys)):
            k = sym.T.keys[a]
            if k[0] == "f" and sym.T.keys[k[1]][0] == "this" and k[2] in vals:
                E.env[a] = vals[k[2]]
        for i, x in args.items():
            E.env[next(iter(par(sym, f, i)[2]))[0]] = x
        hold = [(s, v) for s, v in outs if E.truth(s.facts, {})]
        if len(hold) != 1:
            raise GiveUp("%s(): %d outcomes" % (name, len(hold)))
        return hold[0][1], E, f, sym

    def ray(self, vals, rp, seed=1, loose=True):
        v, E, f, sym = self.at("primary_ray", vals, {0: rp}, seed, loose)
        if v[0] != "r":
            raise GiveUp("ray")
        x = dict(v[3])
        return E.val(x["o"]), E.val(x["d"]), f

    # ---------------------------------------------------------------- the options decide the rays
    def options(self):
        H = Fraction(1, 2)
        for seed in range(6):
            for matrix in (False, True):
                rnd = random.Random(seed)
                try:
                    vals, opt, (u, v, w), E = self.made(rnd, matrix)
                except UNDECIDED as e:
                    if matrix:
                        self.R.notes.append("%s.matrix: %s" % (self.short, e))
                        continue
                    raise
                what = "the matrix" if matrix else "the options"
                o, d, f = self.ray(vals, (H, H))
                fw = sub(opt["center"], opt["position"])
                self.ob(o == opt["position"], "origin", "rays start at %s, not at the position of the camera from %s" % (self.fl(o), what), f, sample="rays start at the position")
                self.ob(cross(d, fw) == (0, 0, 0) and dot(d, fw) > 0, "forward", "the ray through the middle of the image goes along %s, not toward the centre from %s" % (self.fl(d), what), f, sample="middle ray toward the centre")
                plane = lambda rp: (lambda dd: tuple(c / -dot(dd, w) for c in dd))(self.ray(vals, rp)[1])
                up = sub(plane((H, Fraction(1))), plane((H, H)))
                right = sub(plane((Fraction(1), H)), plane((H, H)))
                self.ob(cross(up, v) == (0, 0, 0) and dot(up, v) > 0, "up", "the upper edge of the image is not on the side of the up vector of %s" % what, f, sample="upper edge in the direction of up")
                self.ob(cross(right, u) == (0, 0, 0) and dot(right, u) > 0, "right", "the right edge of the image is not on the right of %s" % what, f)
                self.ob(dot(up, v) == opt["half"], "vfov", "the image does not span the vertical field of view asked for", f, sample="half height tan(vfov/2)")
                self.ob(dot(right, u) == opt["half"] * opt["aspect"], "aspect", "the width of the image is not its height times the aspect ratio", f, sample="half width aspect*tan(vfov/2)")
                # straight lines across
                x, y = Fraction(rnd.randrange(0, 100), 100), Fraction(rnd.randrange(0, 100), 100)
                p = plane((x, y))
                want = tuple(m + (2 * x - 1) * r + (2 * y - 1) * q for m, r, q in zip(plane((H, H)), right, up))
                self.ob(p == want, "plane", "raster positions are not spread evenly over the image", f, sample="raster positions are affine on the image plane")
                self.R.count("configurations compared")
        # set_aspect_ratio
        fs, ss, so = self.run("set_aspect_ratio")
        vals, opt, (u, v, w), E = self.made(random.Random(77))
        vals = dict(vals)
        wr = set()
        for s, _ in so:
            th = s.env.get(("this",))
            if th is None or th[0] != "r":
                continue
            for k, x in th[3]:
                if x == par(ss, fs, 0):
                    vals[k] = Fraction(7, 3)
                    wr.add(k)
                elif isconst(x) or par(ss, fs, 0)[2] <= x[2]:
                    CEa = CE(ss, {next(iter(par(ss, fs, 0)[2]))[0]: Fraction(7, 3)}, 1)
                    vals[k] = CEa.val(x)
        plane = lambda rp: (lambda dd: tuple(c / -dot(dd, w) for c in dd))(self.ray(vals, rp)[1])
        right = sub(plane((Fraction(1), H)), plane((H, H)))
        self.ob(dot(right, u) == opt["half"] * Fraction(7, 3), "set_aspect", "the aspect ratio set is not the one rays are generated with", fs, sample="set_aspect_ratio() reaches the rays")

    def fl(self, v):
        return "(%s)" % ", ".join("%.3g" % float(x) for x in v)

    # ---------------------------------------------------------------- rays and raster positions
    def rays(self):
        for seed in range(16):
            rnd = random.Random(seed)
            vals, opt, (u, v, w), E = self.made(rnd)
            out = seed % 4 == 3
            rp = tuple(Fraction(rnd.randrange(1, 100), 100) for _ in range(2))
            if out:
                i = rnd.randrange(2)
                rp = tuple(x + rnd.choice((-1, 1)) if j == i else x for j, x in enumerate(rp))
            o, d, f = self.ray(vals, rp)
            r, E, fr, sym = self.at("raster_position", vals, {0: d}, seed)
            if out:
                self.ob(r[0] == "n", "outside", "a direction outside the image has a raster position", fr, sample="none outside the image")
            else:
                self.ob(r[0] == "m", "inside", "the direction of the ray through a point of the image has no raster position", fr)
                if r[0] == "m":
                    self.ob(E.val(r) == rp, "inverse", "the raster position of the ray through %s is %s" % (self.fl(rp), self.fl(E.val(r))), fr, sample="raster_position(primary_ray(rp).d) == rp")
                r, E, fr, sym = self.at("raster_position", vals, {0: tuple(-c for c in d)}, seed)
                self.ob(r[0] == "n", "behind", "a direction behind the camera has a raster position", fr, sample="none behind the camera")
            self.R.count("rays compared")

    # ---------------------------------------------------------------- densities
    def density(self):
        for seed in range(18):
            rnd = random.Random(seed)
            vals, opt, (u, v, w), E = self.made(rnd)
            x, y, z = stereo(rnd, 10 if seed % 3 == 2 else 90)
            z = -abs(z)
            d = tuple(x * a + y * b + z * c for a, b, c in zip(u, v, w))
            rp, E, f, sym = self.at("raster_position", vals, {0: d}, seed)
            p, E2, fp, sym2 = self.at("pdf_direction", vals, {0: {}, 1: d}, seed)
            got = E2.val(p)
            plane = lambda rp: (lambda dd: tuple(c / -dot(dd, w) for c in dd))(self.ray(vals, rp)[1])
            Z, I = Fraction(0), Fraction(1)
            a = cross(sub(plane((I, Z)), plane((Z, Z))), sub(plane((Z, I)), plane((Z, Z))))
            area = abs(dot(a, w))
            want = 0 if rp[0] == "n" else 1 / (area * (-z) ** 3)
            self.ob(got == want, "density", "the density of the direction to a point of the image is %.4g, not 1/(area of the image * cos^3) = %.4g" % (float(got), float(want)), fp, sample="pdf_direction = 1/(area cos^3), 0 outside the image")
            self.R.count("densities compared")

    # ---------------------------------------------------------------- samples start at the camera
    def samples(self):
        for seed in range(4):
            rnd = random.Random(seed)
            vals, opt, (u, v, w), E = self.made(rnd)
            rp = tuple(Fraction(rnd.randrange(1, 100), 100) for _ in range(2))
            o, d, f0 = self.ray(vals, rp, seed)
            far = Fraction(rnd.randrange(1, 50))
            x, y, z = stereo(rnd)
            z = -abs(z)
            to = tuple(x * a + y * b + z * c for a, b, c in zip(u, v, w))
            p = tuple(a + far * b for a, b in zip(o, to))
            geom = {"p": p, "infinite": Fraction(0), "degenerated": Fraction(1), "n": to, "gn": to, "wo": to, "t": (Fraction(0), Fraction(0)), "u": to, "v": to}
            for name, args, dirn in (("sample_ray", {0: {"ud": rp, "upc": Fraction(1, 3), "up": rp, "pc": rp, "udc": rp}}, d), ("sample_direction", {0: {"ud": rp, "udc": rp}, 1: geom}, d),
                                     ("sample_position", {0: {"up": rp, "upc": rp}}, None), ("sample_direct", {0: {"ud": rp, "up": rp}, 1: geom}, to)):
                try:
                    r, E, f, sym = self.at(name, vals, args, seed, name != "sample_direct")
                    if r[0] == "n":
                        continue
                    r = dict(r[3])
                    if "geom" in r:
                        self.ob(E.val(fld(sym, r["geom"], "p")) == o, name, "%s() starts at another point than the camera's rays" % name, f, sample="%s() starts at the position" % name)
                    if dirn is not None and "wo" in r:
                        self.ob(E.val(r["wo"]) == dirn, name, "the direction of %s() is not that of %s" % (name, "the point connected to" if name == "sample_direct" else "the ray through the raster position"), f, sample="%s() goes along the ray" % name)
                    self.R.count("samples compared")
                except UNDECIDED as e:
                    self.R.notes.append("%s.%s: %s" % (self.short, name, e))

    # ---------------------------------------------------------------- matrices
    def matrices(self):
        vals, opt, (u, v, w), E = self.made(random.Random(5))
        r, E, f, sym = self.at("view_matrix", vals, {}, 1, True)
        k = sym.T.keys[atom(r)] if atom(r) is not None else ("none",)
        if k[0] == "call" and k[1].split("::")[-1] == "lookAt":
            eye, at, up = [E.val(x) for x in k[2][:3]]
            fw = sub(at, eye)
            self.ob(eye == opt["position"] and cross(fw, w) == (0, 0, 0) and dot(fw, w) < 0 and dot(cross(up, w), u) > 0 and dot(cross(up, w), v) == 0, "view", "the view matrix is not that of the camera's rays", f, sample="view matrix of position, centre and up")
        else:
            self.R.notes.append("%s: view matrix not recognised" % self.short)
        r, E, f, sym = self.at("projection_matrix", vals, {}, 1, True)
        k = sym.T.keys[atom(r)] if atom(r) is not None else ("none",)
        if k[0] == "call" and k[1].split("::")[-1] == "perspective":
            E.pi = Fraction(22, 7)
            E.memo.clear()
            for a in range(len(sym.T.keys)):
                if sym.T.keys[a][0] == "g" and str(sym.T.keys[a][1]).endswith("@Pi"):
                    E.env[a] = E.pi
            y, asp = E.val(k[2][0]), E.val(k[2][1])
            self.ob(y == opt["vfov"] * E.pi / 180 and asp == opt["aspect"], "projection", "the projection matrix is not that of the camera's field of view and aspect ratio", f, sample="projection matrix of vfov and aspect")
        else:
            self.R.notes.append("%s: projection matrix not recognised" % self.short)


def check(ctx):
    R, P = Result(), ctx.P
    for cls in sorted(P.all_derived("lm::Camera")):
        f = method(P, cls, "primary_ray")
        if f is None or f.file.endswith("pylm.cpp"):
            continue
        CameraRule(R, P, cls).check()
    R.floor("cameras", 1)
    return R
