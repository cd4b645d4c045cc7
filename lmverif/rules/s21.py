"""S21: pixels, texels and faces are read and written under the index they are addressed with."""
from fractions import Fraction

from ..core import *
from ..prog import kids
from ..sym import Sym, Hooks, GiveUp, ONE, ZERO, const, isconst, iszero
from .s17 import same


# ------------------------------------------------------------------------------------------------ accesses by index
class AH(Hooks):
    """runs a member function and collects what it stores, element by element"""
    nosum = True
    refelem = True

    def __init__(self, P, stop=()):
        self.P = P
        self.stop = stop           # member functions taken as single values
        self.events = []           # (what, location, values, conditions, where, trace)
        self.loops = []
        self.leaves = []
        self.par = {}              # index of a parallel loop -> range
        self.quiet = 0

    def inline(self, sym, fn, n, fr):
        P = self.P
        if not fn.file.startswith(P.root):
            return False
        if fn.qn.split("::")[-1] in self.stop:
            return False
        if fn.cls and P.tstr(fn.get("ret", -1)).startswith("std::vector"):
            return False
        return not (fn.qn.startswith("lm::log::") or fn.qn.startswith("lm::progress::") or fn.qn.startswith("lm::exception::") or fn.qn.startswith("lm::comp::"))

    def mark(self):
        return len(self.events), len(self.loops), len(self.leaves)

    def reset(self, m):
        del self.events[m[0]:]
        del self.loops[m[1]:]
        del self.leaves[m[2]:]

    def loop(self, sym, n, fr, entry, head, backs, changed, lid):
        self.loops.append((n, fr, entry, head, backs, changed, lid))

    def exits(self, sym, n, fr, head, outs, lid):
        self.leaves.append((lid, outs))

    def ev(self, sym, what, loc, vals, st, n, fr):
        self.events.append((what, loc, tuple(vals), dict(st.facts), fr.fn.where(n), fr.trace(n)))

    def store(self, sym, loc, v, st, n, fr):
        if any(isinstance(p, tuple) for p in loc[1]):
            self.ev(sym, "store", loc, (v,), st, n, fr)
            return True

    def call(self, sym, n, name, st, fr):
        P = self.P
        m = name.split("::")[-1]
        cls = n.get("cls", "") or ""
        if cls.startswith("std::atomic") or cls.startswith("std::__atomic"):
            c = n["c"]
            if n["k"] == "OpCall" and n.get("op") == "=":
                out = []
                for s, v in sym.ev(c[1], st, fr):
                    loc = sym.lv(c[0], s, fr)
                    if loc is not None:
                        self.ev(sym, "store", loc, (v,), s, n, fr)
                    out.append((s, v))
                return out
            if n["k"] == "MCall" and n.get("mname") in ("store", "exchange"):
                out = []
                for s, vs in sym.evs(c[1:2], st, fr):
                    loc = sym.lv(c[0], s, fr)
                    if loc is not None:
                        self.ev(sym, "store", loc, vs, s, n, fr)
                    out.append((s, vs[0]))
                return out
            if n["k"] == "MCall" and (n.get("mname") or "").startswith("compare_exchange"):
                out = []
                for s, vs in sym.evs(c[1:3], st, fr):
                    loc = sym.lv(c[0], s, fr)
                    if loc is not None:
                        self.ev(sym, "store", loc, vs[1:], s, n, fr)
                    out.append((s, ONE))
                return out
        if name == "lm::parallel::foreach":
            out = []
            for s, vs in sym.evs(n["c"][1:3], st, fr):
                lam = vs[1]
                if lam[0] != "l":
                    raise GiveUp("parallel loop over something that is not a lambda")
                node, lfr = sym._lam[(lam[1], lam[2])]
                f = P.funcs.get(node["f"])
                nf = sym.frame(f, lfr.this, lfr, sym.cidof(fr, n), fr, n, lfr.dyn)
                ix = sym.A(("par", "index", sym.cidof(fr, n)))
                self.par[next(iter(ix[2]))[0]] = vs[0]
                s2 = s
                for i, p in enumerate(f.params):
                    s2 = s2.set(("v", nf.id, p["d"]), ix if i == 0 else sym.A(("par", "thread", "foreach")))
                sym.run(nf, s2, keepenv=s.env)
                out.append((s, ZERO))
            return out
        if n["k"] == "MCall" and cls.startswith("std::vector") and n.get("mname") in ("assign", "clear", "resize", "push_back", "emplace_back", "insert"):
            out = []
            for s, vs in sym.evs([a for a in n["c"][1:] if a["k"] != "DefaultArg"], st, fr):
                loc = sym.lv(n["c"][0], s, fr)
                if loc is not None:
                    self.ev(sym, n["mname"], loc, vs, s, n, fr)
                out.append((s, ZERO))
            return out
        if n["k"] == "OpCall" and n.get("op") == "()" and name.startswith("std::function<"):
            out = []
            for s, vs in sym.evs(n["c"], st, fr):
                if vs[0][0] == "l":
                    return None         # a function known here
                self.ev(sym, "callback", None, vs[1:], s, n, fr)
                dep = frozenset().union(*[sym.deps(v) for v in vs])
                out.append((s, sym.A(("callback", tuple(vs)), dep)))
            return out
        if n["k"] == "Call" and (m.startswith("stbi_write_") or m in ("fprintf", "fwrite", "stbi_loadf", "stbi_load")):
            for s, vs in sym.evs(n["c"][1:], st, fr):
                self.ev(sym, m, None, vs, s, n, fr)
        if n["k"] == "MCall" and n.get("mname") in self.stop:
            out = []
            for s, vs in sym.evs(n["c"], st, fr):
                self.ev(sym, n["mname"], None, vs, s, n, fr)
                dep = frozenset().union(*[sym.deps(v) for v in vs])
                out.append((s, sym.A(("call", n["mname"], tuple(vs)), dep)))
            return out
        return None


def unit(sym, d, a):
    """d, of which only the sign matters, scaled so that it changes by one with the integer a; None if it is not linear in it"""
    one = ("m", Fraction(1), frozenset({(a, 1)}))
    z = sym.subst(d, {a: ZERO})
    c = sym.add(sym.subst(d, {a: ONE}), z, -1)
    if not isconst(c) or c[1] == 0 or not same(sym, d, sym.add(z, sym.mul(c, one))):
        return None
    return sym.mul(d, const(1 / abs(c[1])))


def at_most(sym, facts, v, n):
    """True / False if the conditions say that the integer v is at most n / more than n, else None"""
    if v[0] != "m" or v[1] != 1 or len(v[2]) != 1:
        return None
    a = next(iter(v[2]))[0]
    for k, b in facts.items():
        if k[0] == "eq" and b and same(sym, k[1], v) and isconst(k[2]):
            return k[2][1] <= n
        if k[0] != "c" or sym.T.keys[k[1]][0] != "pos":
            continue
        d = sym.T.keys[k[1]][1]
        if a not in atoms_in(sym, d):
            continue
        d = unit(sym, d, a)
        if d is None:
            continue
        for lo, sign in ((sym.add(const(n + 1), v, -1), True), (sym.add(v, const(n), -1), False)):
            if same(sym, d, lo):
                return b == sign
    return None


def ranges(sym, h):
    """loop variable -> (lowest value, number of values, step) where the loop goes through all of them, once each"""
    out = {}
    early = {}
    for lid, outs in h.leaves:
        early.setdefault(lid, []).extend(outs)
    for n, fr, entry, head, backs, changed, lid in h.loops:
        for key in changed:
            hv = head.env.get(key)
            s = entry.env.get(key)
            if hv is None or s is None or hv[0] != "m" or s[0] != "m" or len(hv[2]) != 1 or not backs:
                continue
            steps = {sym.add(b.env[key], hv, -1) if b.env[key][0] == "m" else None for b in backs}
            if len(steps) != 1:
                continue
            st = next(iter(steps))
            if st is None or not isconst(st) or st[1] == 0:
                continue
            ha = next(iter(hv[2]))[0]
            tests = set()
            for b in backs:
                for k, v in b.facts.items():
                    if k in head.facts or k[0] != "c" or sym.T.keys[k[1]][0] != "pos":
                        continue
                    d = sym.T.keys[k[1]][1]
                    if sym.mentions(d, {ha}) and all(o.facts.get(k) == v for o in backs):
                        tests.add((k, v))
            lim = []
            for k, v in tests:
                d = unit(sym, sym.T.keys[k[1]][1], ha)
                if d is None:
                    continue
                if not v:
                    d = sym.add(ONE, d, -1)          # not (d > 0) for integers
                e = sym.add(d, hv, 1 if st[1] > 0 else -1)
                if not sym.mentions(e, {ha}):
                    lim.append((k, e))
            if len(lim) != 1:
                continue
            k, e = lim[0]
            # every way out is the test failing
            bad = [x for x, f in early.get(lid, ()) if f != "n" or k not in x.facts or x.facts[k] == backs[0].facts.get(k)]
            if st[1] > 0:
                lo, cnt = s, sym.add(e, s, -1)       # s, s+step, ... < e
            else:
                lo = sym.add(ONE, e, -1)             # h > -e
                cnt = sym.add(sym.add(s, lo, -1), ONE)
            out[ha] = (lo, cnt, st, k, not bad)
        if n["k"] == "CXXForRangeStmt":
            a = sym.T.ids.get(("el#", lid))
            if a is not None:
                out[a] = (ZERO, None, ONE, None, all(f == "n" for x, f in early.get(lid, ())))
    for a, N in h.par.items():
        out[a] = (ZERO, N, ONE, None, True)
    return out


def atoms_in(sym, v):
    acc = set()
    sym._collect(v, acc)
    out = set()
    for a in acc:
        out |= set(sym.subatoms(a)) | {a}
    return out


def covers(sym, ix, rng, total):
    """None if the index goes through 0..total-1 once each as the loop variables go through their ranges, else what is wrong"""
    vs = [a for a in atoms_in(sym, ix) if a in rng]
    if not vs:
        return "the same element %s each time" % sym.show(ix)
    if any(rng[a][1] is None for a in vs):
        return None if len(vs) == 1 and same(sym, ix, ("m", Fraction(1), frozenset({(vs[0], 1)}))) else "element %s" % sym.show(ix)
    for a in vs:
        if not rng[a][4]:
            return "a range that may be left before its end"
    xs = {a: sym.A(("x", a)) for a in vs}
    norm = sym.subst(ix, {a: sym.add(rng[a][0], sym.mul(xs[a], const(abs(rng[a][2][1])))) for a in vs})
    zero = {next(iter(x[2]))[0]: ZERO for x in xs.values()}
    c0 = sym.subst(norm, zero)
    co = {}
    for a, x in xs.items():
        xa = next(iter(x[2]))[0]
        co[a] = sym.add(sym.subst(norm, {**zero, xa: ONE}), c0, -1)
    lin = c0
    for a, x in xs.items():
        lin = sym.add(lin, sym.mul(co[a], x))
    if not same(sym, lin, norm):
        return "the elements %s" % sym.show(ix)
    stride = ONE
    left = dict(co)
    while left:
        for a, c in list(left.items()):
            n = rng[a][1]
            if abs(rng[a][2][1]) != 1:
                continue
            if same(sym, c, stride):
                pass
            elif same(sym, sym.neg(c), stride):
                c0 = sym.add(c0, sym.mul(c, sym.add(n, ONE, -1)))
            else:
                continue
            stride = sym.mul(stride, n)
            del left[a]
            break
        else:
            return "the elements %s" % sym.show(ix)
    if not same(sym, c0, ZERO):
        return "the elements from %s on" % sym.show(c0)
    if not any(same(sym, stride, t) for t in (total if isinstance(total, list) else [total])):
        return "the first %s elements" % sym.show(stride)
    return None


def elem(loc):
    """(container path, index, rest) of an element"""
    for i, p in enumerate(loc[1]):
        if isinstance(p, tuple):
            return (loc[0], loc[1][:i]), p[1], loc[1][i + 1:]
    return None


def extra(sym, facts, rng):
    """conditions beside the loop tests"""
    tests = {r[3] for r in rng.values()}
    return {k: b for k, b in facts.items() if k not in tests and k[0] in ("c", "nz", "eq")}


def show_cond(sym, k, b):
    t = sym.show_atom(k[1]) if k[0] == "c" else ", ".join(sym.show_atom(a) for a in k[1]) if k[0] == "nz" else "%s == %s" % (sym.show(k[1]), sym.show(k[2]))
    return ("" if b else "not ") + t


def katoms(sym, k):
    acc = set()
    if k[0] == "c":
        acc = set(sym.subatoms(k[1])) | {k[1]}
    elif k[0] == "nz":
        for a in k[1]:
            acc |= set(sym.subatoms(a)) | {a}
    else:
        acc = atoms_in(sym, k[1]) | atoms_in(sym, k[2])
    return acc


def method(P, cls, name, npar=None):
    seen, todo = set(), [cls]
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        for f in P.by_cls.get(c, ()):
            if f.body is not None and not f.is_lambda and f.qn.split("::")[-1].split("<")[0] == name and (npar is None or len(f.params) == npar):
                return f
        todo += P.bases_of(c)
    return None


def par(sym, f, i):
    return sym.A(("par", f.params[i].get("n") or "arg%d" % i, f.key))


# ------------------------------------------------------------------------------------------------ films
class Film:
    def __init__(self, R, P, cls):
        self.R, self.P, self.cls = R, P, cls
        self.label = cls.split("::")[-1]

    def run(self, f, stop=()):
        h = AH(self.P, stop)
        h.P = self.P
        sym = Sym(self.P, h)
        # values of one function only mean something with the table of its own run: the size is read again each time
        g = method(self.P, self.cls, "size", 0)
        r = sym.start(g, self.cls)
        if len(r) != 1:
            raise GiveUp("size() has several outcomes")
        v = r[0][1]
        self.W, self.H = sym.field(v, "w"), sym.field(v, "h")
        h.events.clear()
        outs = sym.start(f, self.cls)
        return sym, h, outs

    def pixels(self, loc):
        """the container of pixels"""
        return loc is not None and loc[0] == ("this",) and len(loc[1]) == 1 and loc[1][0] == self.data

    def check(self):
        R, P, cls, label = self.R, self.P, self.cls, self.label
        R.count("films")
        # which member holds the pixels: the one set_pixel() stores to
        f = method(P, cls, "set_pixel", 3)
        sym, h, outs = self.run(f)
        ev = [(e, elem(e[1])) for e in h.events if e[0] == "store" and e[1][0] == ("this",)]
        if not ev:
            R.notes.append("%s: set_pixel() stores nothing recognisable" % label)
            R.count("films not decided")
            return
        self.data = ev[0][1][0][1][0] if ev[0][1] and len(ev[0][1][0][1]) == 1 else None
        if self.data is None:
            R.count("films not decided")
            return
        for name, how in (("set_pixel", "set"), ("splat_pixel", "add"), ("update_pixel", "update")):
            self.one_pixel(name, how)
        for nm, fn in (("num_pixels", self.num_pixels), ("rescale", self.rescale), ("clear", self.clear), ("accum", self.accum), ("construct", self.construct), ("buffer", self.buffer), ("save", self.save)):
            try:
                fn()
            except GiveUp as e:
                R.notes.append("%s::%s: %s" % (label, nm, e))
                R.count("film operations not decided")
        for f in P.by_cls.get(cls, ()):
            if f.body is not None and not f.is_lambda and f.params and P.tstr(f.get("ret", -1)).startswith("std::vector"):
                try:
                    self.copy(f)
                except GiveUp as e:
                    R.notes.append("%s::%s: %s" % (label, f.qn, e))
                    R.count("film operations not decided")

    def one_pixel(self, name, how):
        R, label = self.R, self.label
        f = method(self.P, self.cls, name, 3)
        if f is None:
            return
        sym, h, outs = self.run(f)
        x, y, v = par(sym, f, 0), par(sym, f, 1), par(sym, f, 2)
        want = sym.add(sym.mul(y, self.W), x)
        st = [(e, elem(e[1])) for e in h.events if e[0] == "store" and e[1][0] == ("this",) and elem(e[1])]
        R.oblige(bool(st), "write:%s::%s" % (label, name), "%s::%s(): no pixel is written" % (label, name), f.where())
        for e, (c, ix, rest) in st:
            R.count("pixel accesses")
            R.oblige(self.pixels(c) and same(sym, ix, want), "index:%s::%s" % (label, name), "%s::%s(x, y) writes element %s of %s, not that of pixel (x, y), %s" % (
                label, name, sym.show(ix), ".".join(map(str, c[1])), sym.show(want)), e[4], e[5], sample="%s::%s writes element %s" % (label, name, sym.show(ix)))
            old = sym.index(sym.A(("f", sym.T.atom(("this",)), self.data)), want)
            for p in rest:
                old = sym.field(old, p)
            val = e[2][0]
            if how == "set":
                ok = val[0] == "m" and same(sym, val, v)
                R.oblige(ok, "value:%s::%s" % (label, name), "%s::%s() stores %s" % (label, name, sym.show(val)), e[4], e[5])
            elif how == "add":
                ok = val[0] == "m" and same(sym, val, sym.add(old, v))
                R.oblige(ok, "value:%s::%s" % (label, name), "%s::%s() stores %s, not the old value plus the new" % (label, name, sym.show(val)), e[4], e[5])
            else:
                k = sym.T.keys[next(iter(val[2]))[0]] if val[0] == "m" and val[1] == 1 and len(val[2]) == 1 else None
                ok = k is not None and k[0] == "callback" and len(k[1]) == 2 and same(sym, k[1][0], v) and same(sym, k[1][1], old)
                R.oblige(ok, "value:%s::%s" % (label, name), "%s::%s() stores %s, not what the function makes of the old value" % (label, name, sym.show(val)), e[4], e[5])
            cond = extra(sym, e[3], ranges(sym, h))
            bad = [k for k in cond if not self.inside(sym, k, cond[k], x, y)]
            R.oblige(not bad, "always:%s::%s" % (label, name), "%s::%s() writes only when %s" % (label, name, "; ".join(show_cond(sym, k, cond[k]) for k in bad)), e[4], e[5])

    def inside(self, sym, k, b, x, y):
        """a condition that only rules out coordinates outside of the film"""
        ats = katoms(sym, k)
        own = {a for v in (x, y, self.W, self.H) for a in atoms_in(sym, v)}
        if not ats <= own | {k[1]} if k[0] == "c" else not ats <= own:
            return False
        # x >= 0, x < W, y >= 0, y < H
        if k[0] != "c" or sym.T.keys[k[1]][0] != "pos":
            return False
        d = sym.T.keys[k[1]][1]
        good = [(sym.add(self.W, x, -1), True), (sym.add(self.H, y, -1), True), (sym.neg(x), False), (sym.neg(y), False), (sym.add(x, ONE), True), (sym.add(y, ONE), True),
                (sym.add(sym.add(x, self.W, -1), ONE), False), (sym.add(sym.add(y, self.H, -1), ONE), False)]
        return any(bb == b and same(sym, d, g) for g, bb in good)

    def num_pixels(self):
        R, label = self.R, self.label
        f = method(self.P, self.cls, "num_pixels", 0)
        sym, h, outs = self.run(f)
        for s, v in outs:
            R.count("sizes checked")
            R.oblige(v[0] == "m" and same(sym, v, sym.mul(self.W, self.H)), "count:%s" % label, "%s::num_pixels() is %s" % (label, sym.show(v)), f.where(), [],
                     sample="%s::num_pixels() is w * h" % label)

    def whole(self, name, f, sym, h, value):
        """every pixel is stored to, once, with the given value; returns whether anything was recognised"""
        R, label = self.R, self.label
        rng = ranges(sym, h)
        total = self.total(sym)
        st = [(e, elem(e[1])) for e in h.events if e[0] == "store" and e[1] is not None and e[1][0] == ("this",) and elem(e[1]) and self.pixels(elem(e[1])[0])]
        for e, (c, ix, rest) in st:
            R.count("whole-film operations")
            why = covers(sym, ix, rng, total)
            R.oblige(why is None, "cover:%s::%s" % (label, name), "%s::%s() goes through %s, not every pixel once" % (label, name, why), e[4], e[5], sample="%s::%s goes through every pixel once" % (label, name))
            old = sym.index(sym.A(("f", sym.T.atom(("this",)), self.data)), ix)
            for p in rest:
                old = sym.field(old, p)
            value(e, ix, rest, old, e[2][0], rng)
            cond = extra(sym, e[3], rng)
            bad = [k for k in cond if self.by_index(sym, k, rng)]
            R.oblige(not bad, "always:%s::%s" % (label, name), "%s::%s() changes a pixel only when %s" % (label, name, "; ".join(show_cond(sym, k, cond[k]) for k in bad)), e[4], e[5])
        return bool(st)

    def by_index(self, sym, k, rng):
        """a condition on the number of the pixel"""
        ats = katoms(sym, k)
        return any(a in rng for a in ats) and not any(sym.T.keys[a][0] in ("idx", "call", "callback") for a in ats)

    def total(self, sym):
        own = sym.A(("f", sym.T.atom(("this",)), self.data))
        return [sym.mul(self.W, self.H), sym.A(("size", sym.atom_of(own)), sym.deps(own))]

    def rescale(self):
        R, label = self.R, self.label
        f = method(self.P, self.cls, "rescale", 1)
        sym, h, outs = self.run(f)
        s = par(sym, f, 0)

        def value(e, ix, rest, old, v, rng):
            R.oblige(v[0] == "m" and same(sym, v, sym.mul(old, s)), "value:%s::rescale" % label, "%s::rescale(s) stores %s" % (label, sym.show(v)), e[4], e[5])
            cond = extra(sym, e[3], rng)
            bad = [k for k in cond if not (k[0] == "eq" and not cond[k] and (same(sym, k[1], s) and k[2] == ONE))]
            R.oblige(not bad, "always:%s::rescale" % label, "%s::rescale() scales only when %s" % (label, "; ".join(show_cond(sym, k, cond[k]) for k in bad)), e[4], e[5])
        if not self.whole("rescale", f, sym, h, value):
            R.oblige(bool(h.events), "write:%s::rescale" % label, "%s::rescale() changes no pixel" % label, f.where())

    def clear(self):
        R, label = self.R, self.label
        f = method(self.P, self.cls, "clear", 0)
        sym, h, outs = self.run(f)

        def value(e, ix, rest, old, v, rng):
            R.oblige(v[0] == "m" and iszero(v), "value:%s::clear" % label, "%s::clear() stores %s" % (label, sym.show(v)), e[4], e[5])
        if self.whole("clear", f, sym, h, value):
            return
        self.sized(sym, h, f, "clear")

    def sized(self, sym, h, f, name):
        R, label = self.R, self.label
        a = [e for e in h.events if e[0] in ("assign", "resize") and self.pixels(e[1])]
        cl = [e for e in h.events if e[0] == "clear" and self.pixels(e[1])]
        R.oblige(bool(a), "write:%s::%s" % (label, name), "%s::%s() leaves the pixels as they are" % (label, name), f.where())
        for e in a:
            R.count("whole-film operations")
            n = e[2][0]
            R.oblige(n[0] == "m" and same(sym, n, self.size_now(sym, name)), "cover:%s::%s" % (label, name), "%s::%s() makes %s pixels" % (label, name, sym.show(n)), e[4], e[5],
                     sample="%s::%s makes w * h pixels" % (label, name))
            if e[0] == "resize":
                R.oblige(bool(cl) or name == "construct", "value:%s::%s" % (label, name), "%s::%s() keeps the old values of the pixels" % (label, name), e[4], e[5])

    def size_now(self, sym, name):
        return sym.mul(self.W2, self.H2) if name == "construct" else sym.mul(self.W, self.H)

    def construct(self):
        R, label = self.R, self.label
        f = method(self.P, self.cls, "construct", 1)
        if f is None:
            return
        sym, h, outs = self.run(f)
        for s, v in outs:
            this = s.env.get(("this",))
            if this is None:
                continue
            # the size as it is at the end
            g = method(self.P, self.cls, "size", 0)
            ev = list(h.events)
            from ..sym import S
            r = sym.start(g, self.cls, st=S({("this",): this}, {}))
            del h.events[:]
            h.events += ev
            self.W2, self.H2 = sym.field(r[0][1], "w"), sym.field(r[0][1], "h")
            self.sized(sym, h, f, "construct")

    def accum(self):
        R, label = self.R, self.label
        f = method(self.P, self.cls, "accum", 1)
        sym, h, outs = self.run(f)
        other = None

        def value(e, ix, rest, old, v, rng):
            add = sym.add(v, old, -1) if v[0] == "m" else None
            ok = False
            if add is not None and add[0] == "m" and add[1] == 1 and len(add[2]) == 1:
                a = next(iter(add[2]))[0]
                k = sym.T.keys[a]
                while k[0] == "f" and isinstance(k[1], int):
                    k = sym.T.keys[k[1]]
                ok = k[0] == "idx" and same(sym, k[2], ix) and par(sym, f, 0)[2] <= frozenset((x, 1) for x in atoms_in(sym, k[1]))
            R.oblige(ok, "value:%s::accum" % label, "%s::accum(): element %s becomes %s, not its own value plus that of the same pixel of the other film" % (label, sym.show(ix), sym.show(v)), e[4], e[5])
            eqs = [k for k, b in e[3].items() if k[0] == "eq" and b]
            for nm, own in (("width", self.W), ("height", self.H)):
                ok = any(same(sym, own, z) and not same(sym, own, o) for k in eqs for z, o in ((k[1], k[2]), (k[2], k[1])))
                R.oblige(ok, "same:%s::accum" % label, "%s::accum() adds the pixels of a film whose %s was not compared" % (label, nm), e[4], e[5])
        if not self.whole("accum", f, sym, h, value):
            R.oblige(bool(h.events), "write:%s::accum" % label, "%s::accum() adds nothing" % label, f.where())

    def copy(self, f):
        """a member that returns the pixels as numbers"""
        R, label = self.R, self.label
        sym, h, outs = self.run(f)
        name = f.qn.split("::")[-1]
        rng = ranges(sym, h)
        ev = [(e, elem(e[1])) for e in h.events if e[0] == "store" and elem(e[1])]
        if not ev or f.params[0].get("n") is None:
            R.count("film operations not decided")
            return
        flip = par(sym, f, 0)
        fa = next(iter(flip[2]))[0]
        total = sym.mul(sym.mul(self.W, self.H), const(3))
        for e, (c, ix, rest) in ev:
            R.count("whole-film operations")
            why = covers(sym, ix, rng, total)
            R.oblige(why is None, "cover:%s::%s" % (label, name), "%s::%s() fills %s, not every component of every pixel once" % (label, name, why), e[4], e[5], sample="%s::%s fills every component once" % (label, name))
            # where the value comes from
            src = self.sources(sym, e[2][0])
            if len(src) != 1:
                R.oblige(False, "value:%s::%s" % (label, name), "%s::%s(): component %s is made from %d components of the film" % (label, name, sym.show(ix), len(src)), e[4], e[5])
                continue
            pix, comp = next(iter(src))
            fl = e[3].get(("nz", frozenset({fa})))
            cmp_ = lambda v: sym.mul(v, const(3))
            if fl:
                # pixel (x, y) goes to row H-1-y: the sum of the two element numbers is 3*(W*(H-1) + 2x) + 2i
                b = sym.add(sym.add(ix, cmp_(pix)), comp, -1)
                xy = [a for a in atoms_in(sym, pix) if a in rng]
                # the row is flipped: adding the two indices leaves no row
                want = sym.mul(const(3), sym.mul(self.W, sym.add(self.H, ONE, -1)))
                rest_ = sym.add(b, want, -1)
                cols = [a for a in xy if same(sym, rest_, sym.mul(const(6), sym.add(("m", Fraction(1), frozenset({(a, 1)})), rng[a][0], -1)))]
                ok = bool(cols) or same(sym, rest_, ZERO)
                R.oblige(ok, "flip:%s::%s" % (label, name), "%s::%s(): turned upside down, element %s comes from pixel %s, component %s" % (label, name, sym.show(ix), sym.show(pix), sym.show(comp)), e[4], e[5])
            else:
                R.oblige(same(sym, ix, sym.add(cmp_(pix), comp)), "straight:%s::%s" % (label, name), "%s::%s(): element %s comes from pixel %s, component %s" % (
                    label, name, sym.show(ix), sym.show(pix), sym.show(comp)), e[4], e[5], sample="%s::%s: component i of pixel j goes to 3 * j + i" % (label, name))

    def sources(self, sym, v):
        """(pixel, component) of the film a value is made from"""
        out = set()
        if v[0] != "m":
            return out
        base = sym.A(("f", sym.T.atom(("this",)), self.data))
        for a in atoms_in(sym, v):
            k = sym.T.keys[a]
            if k[0] == "idx":
                inner = self.pixel_of(sym, k[1], base)
                if inner is not None:
                    out.add((inner, k[2]))
            if k[0] == "f" and isinstance(k[2], int):
                inner = self.pixel_of(sym, ("m", Fraction(1), frozenset({(k[1], 1)})), base)
                if inner is not None:
                    out.add((inner, const(k[2])))
        return out

    def pixel_of(self, sym, v, base):
        """the pixel a value is"""
        if v[0] != "m" or v[1] != 1 or len(v[2]) != 1:
            return None
        k = sym.T.keys[next(iter(v[2]))[0]]
        while k[0] == "f" and isinstance(k[1], int) and not isinstance(k[2], int):
            k = sym.T.keys[k[1]]
        if k[0] == "idx" and k[1] == base:
            return k[2]
        return None

    def buffer(self):
        R, label = self.R, self.label
        f = method(self.P, self.cls, "buffer", 0)
        if f is None:
            return
        sym, h, outs = self.run(f)
        rng = ranges(sym, h)
        for s, v in outs:
            w, hh = sym.field(v, "w"), sym.field(v, "h")
            R.count("sizes checked")
            R.oblige(same(sym, w, self.W) and same(sym, hh, self.H), "size:%s::buffer" % label, "%s::buffer() says %s x %s" % (label, sym.show(w), sym.show(hh)), f.where(), [], sample="%s::buffer() has the size of the film" % label)
        base = sym.A(("f", sym.T.atom(("this",)), self.data))
        push = [e for e in h.events if e[0] in ("push_back", "emplace_back") and e[1][0] == ("this",)]
        st = [e for e in h.events if e[0] == "store" and e[1][0] == ("this",) and elem(e[1]) and not self.pixels(elem(e[1])[0])]
        empt = {e[1] for e in h.events if e[0] == "clear"} | {e[1] for e in h.events if e[0] == "assign" and len(e[2]) == 2 and iszero(e[2][0])}
        for e in push:
            R.count("whole-film operations")
            pix = self.pixel_of(sym, e[2][0], base)
            R.oblige(pix is not None, "value:%s::buffer" % label, "%s::buffer() hands out %s" % (label, sym.show(e[2][0])), e[4], e[5])
            if pix is not None:
                why = covers(sym, pix, rng, self.total(sym))
                up = all(rng[a][2][1] > 0 for a in atoms_in(sym, pix) if a in rng)
                R.oblige(why is None and up, "cover:%s::buffer" % label, "%s::buffer() hands out %s, not every pixel in order" % (label, why or "the pixels backwards"), e[4], e[5], sample="%s::buffer() hands out every pixel" % label)
            R.oblige(e[1] in empt, "stale:%s::buffer" % label, "%s::buffer() adds to what it handed out before" % label, e[4], e[5])
            cond = extra(sym, e[3], rng)
            R.oblige(not cond, "always:%s::buffer" % label, "%s::buffer() hands out a pixel only when %s" % (label, "; ".join(show_cond(sym, k, b) for k, b in cond.items())), e[4], e[5])
        for e in st:
            R.count("whole-film operations")
            c, ix, rest = elem(e[1])
            pix = self.pixel_of(sym, e[2][0], base)
            if pix is None:
                continue
            R.oblige(same(sym, pix, ix), "value:%s::buffer" % label, "%s::buffer(): element %s is pixel %s" % (label, sym.show(ix), sym.show(pix)), e[4], e[5])
            why = covers(sym, pix, rng, self.total(sym))
            R.oblige(why is None, "cover:%s::buffer" % label, "%s::buffer() hands out %s" % (label, why), e[4], e[5])

    def save(self):
        R, label = self.R, self.label
        f = next((f for f in self.P.by_cls.get(self.cls, ()) if f.body is not None and f.qn.split("::")[-1] == "save" and len(f.params) == 1 and self.P.tstr(f.get("ret", -1)) == "bool"), None)
        if f is None:
            return
        sym, h, outs = self.run(f)

        def image(v):
            """flip argument of the copy a pointer points into"""
            for a in atoms_in(sym, v):
                k = sym.T.keys[a]
                if k[0] == "call" and len(k[2]) == 2 and k[2][0] == sym.A(("this",)) and isconst(k[2][1]):
                    return bool(k[2][1][1])
            return None
        for e in h.events:
            if e[0] == "fwrite":
                fl = image(e[2][0])
                if fl is None:
                    continue
                R.count("files written")
                R.oblige(fl is False, "flip:%s::pfm" % label, "%s::save(): the rows of a .pfm file are written top to bottom; the format starts at the bottom" % label, e[4], e[5], sample="%s: .pfm rows from the bottom" % label)
            if e[0] == "fprintf" and len(e[2]) == 4:
                R.oblige(same(sym, e[2][2], self.W) and same(sym, e[2][3], self.H), "size:%s::pfm" % label, "%s::save(): the header of a .pfm file says %s x %s" % (label, sym.show(e[2][2]), sym.show(e[2][3])), e[4], e[5])
            if e[0].startswith("stbi_write_"):
                R.count("files written")
                kind = e[0][len("stbi_write_"):]
                R.oblige(same(sym, e[2][1], self.W) and same(sym, e[2][2], self.H), "size:%s::%s" % (label, kind), "%s::save(): a .%s file of %s x %s is written" % (label, kind, sym.show(e[2][1]), sym.show(e[2][2])), e[4], e[5])
                R.oblige(e[2][3] == const(3), "comps:%s::%s" % (label, kind), "%s::save(): a .%s file with %s components is written" % (label, kind, sym.show(e[2][3])), e[4], e[5])
                fl = image(e[2][4])
                if fl is not None:
                    R.oblige(fl is True, "flip:%s::%s" % (label, kind), "%s::save(): the rows of a .%s file are written bottom to top; the format starts at the top" % (label, kind), e[4], e[5], sample="%s: .%s rows from the top" % (label, kind))
                if kind == "png":
                    R.oblige(iszero(e[2][5]) or same(sym, e[2][5], sym.mul(self.W, const(3))), "stride:%s::png" % label, "%s::save(): rows of a .png file are %s bytes apart" % (label, sym.show(e[2][5])), e[4], e[5])


def is_clamp(sym, v, lo, hi):
    """x if v is x limited to lo..hi"""
    if v[0] != "m" or v[1] != 1 or len(v[2]) != 1:
        return None
    k = sym.T.keys[next(iter(v[2]))[0]]
    if k[0] != "call":
        return None
    nm = k[1].split("::")[-1].split("<")[0]
    if nm == "clamp" and len(k[2]) == 3 and same(sym, k[2][1], lo) and same(sym, k[2][2], hi):
        return k[2][0]
    if nm in ("min", "max") and len(k[2]) == 2:
        for a, b in (k[2], k[2][::-1]):
            if same(sym, a, hi if nm == "min" else lo):
                kk = sym.T.keys[next(iter(b[2]))[0]] if b[0] == "m" and b[1] == 1 and len(b[2]) == 1 else None
                if kk is not None and kk[0] == "call" and kk[1].split("::")[-1].split("<")[0] == ("max" if nm == "min" else "min") and len(kk[2]) == 2:
                    for c, d in (kk[2], kk[2][::-1]):
                        if same(sym, c, lo if nm == "min" else hi):
                            return d
    return None


def trunc_of(sym, v):
    if v[0] == "m" and v[1] == 1 and len(v[2]) == 1:
        k = sym.T.keys[next(iter(v[2]))[0]]
        if k[0] == "trunc":
            return k[1]
        if k[0] == "call" and k[1].split("::")[-1] == "floor" and len(k[2]) == 1:
            return k[2][0]
    return None


def frac_of(sym, v, t):
    """is v the fractional part of t"""
    fl = sym.add(t, v, -1)
    if fl[0] == "m" and fl[1] == 1 and len(fl[2]) == 1:
        k = sym.T.keys[next(iter(fl[2]))[0]]
        if k[0] == "call" and k[1].split("::")[-1] == "floor" and len(k[2]) == 1 and same(sym, k[2][0], t):
            return True
    if v[0] == "m" and v[1] == 1 and len(v[2]) == 1:
        k = sym.T.keys[next(iter(v[2]))[0]]
        return k[0] == "call" and k[1].split("::")[-1] == "fract" and len(k[2]) == 1 and same(sym, k[2][0], t)
    return False


def base_film(R, P):
    """Film::splat, inc_ave and the conversion of raster positions"""
    cls = "lm::Film"
    f = method(P, cls, "raster_to_pixel", 1)
    if f is not None:
        h = AH(P, ("size",))
        sym = Sym(P, h)
        for s, v in sym.start(f, cls):
            sz = [e for e in h.events if e[0] == "size"]
            rp = par(sym, f, 0)
            this = sym.A(("this",))
            size = sym.A(("call", "size", (this,)))
            for i, nm in enumerate("wh"):
                R.count("raster positions")
                N = sym.field(size, nm)
                c = sym.field(v, i)
                x = is_clamp(sym, c, ZERO, sym.add(N, ONE, -1))
                t = trunc_of(sym, x) if x is not None else None
                R.oblige(t is not None and same(sym, t, sym.mul(sym.field(rp, i), N)), "raster:%d" % i, "Film::raster_to_pixel(): the %s coordinate is %s" % ("xy"[i], sym.show(c)), f.where(), [],
                         sample="Film::raster_to_pixel: %s is the position times the size, limited to the film" % "xy"[i])
    f = method(P, cls, "aspect", 0)
    if f is not None:
        h = AH(P, ("size",))
        sym = Sym(P, h)
        for s, v in sym.start(f, cls):
            size = sym.A(("call", "size", (sym.A(("this",)),)))
            R.oblige(v[0] == "m" and same(sym, v, sym.div(sym.field(size, "w"), sym.field(size, "h"))), "aspect", "Film::aspect() is %s" % sym.show(v), f.where())
    for name, npar in (("splat", 2), ("inc_ave", 3), ("inc_ave", 4)):
        f = next((g for g in P.by_cls.get(cls, ()) if g.body is not None and not g.is_lambda and g.qn.split("::")[-1] == name and len(g.params) == npar), None)
        if f is None:
            continue
        h = AH(P, ("size", "splat_pixel", "update_pixel", "raster_to_pixel"))
        sym = Sym(P, h)
        sym.start(f, cls)
        ev = [e for e in h.events if e[0] in ("splat_pixel", "update_pixel")]
        R.oblige(len(ev) == 1, "calls:%s" % name, "Film::%s() changes %d pixels" % (name, len(ev)), f.where())
        for e in ev:
            R.count("raster positions")
            this = sym.A(("this",))
            if npar == 4:
                want = [par(sym, f, 0), par(sym, f, 1)]
                idx, val = par(sym, f, 2), par(sym, f, 3)
            else:
                p = sym.A(("call", "raster_to_pixel", (this, par(sym, f, 0))))
                want = [sym.field(p, 0), sym.field(p, 1)]
                idx, val = (par(sym, f, 1), par(sym, f, 2)) if npar == 3 else (None, par(sym, f, 1))
            ok = all(same(sym, a, b) for a, b in zip(e[2][1:3], want))
            R.oblige(ok, "pixel:%s" % name, "Film::%s() changes pixel (%s, %s)" % (name, sym.show(e[2][1]), sym.show(e[2][2])), e[4], e[5], sample="Film::%s changes the pixel of the position" % name)
            if idx is None:
                R.oblige(same(sym, e[2][3], val), "value:%s" % name, "Film::%s() adds %s" % (name, sym.show(e[2][3])), e[4], e[5])
            elif e[2][3][0] == "l":
                lam = e[2][3]
                node, lfr = sym._lam[(lam[1], lam[2])]
                g = P.funcs.get(node["f"])
                if g is None or len(g.params) != 1:
                    continue
                cur = sym.A(("par", "curr", g.key))
                nf = sym.frame(g, lfr.this, lfr, ("avg", name), None, None, lfr.dyn)
                from ..sym import S
                st = S({}, {})
                for i, p in enumerate(f.params):
                    st = st.set(("v", lfr.id, p["d"]), par(sym, f, i))
                st = st.set(("v", nf.id, g.params[0]["d"]), cur)
                if npar == 4:
                    for s, v in sym.run(nf, st, keepenv=st.env):
                        wantv = sym.add(cur, sym.div(sym.add(val, cur, -1), sym.add(idx, ONE)))
                        R.oblige(v[0] == "m" and same(sym, v, wantv), "value:%s" % name, "Film::%s(): the average becomes %s" % (name, sym.show(v)), e[4], e[5], sample="Film::inc_ave is the running average")


# ------------------------------------------------------------------------------------------------ textures
def check_texture(R, P, cls):
    label = cls.split("::")[-1]
    f = method(P, cls, "eval_by_pixel_coords", 2)
    sz = method(P, cls, "size", 0)
    if f is None or sz is None:
        return

    def run(g):
        h = AH(P)
        sym = Sym(P, h)
        v = sym.start(sz, cls)[0][1]
        W, H = sym.field(v, "w"), sym.field(v, "h")
        return sym, h, W, H, sym.start(g, cls)

    def data_reads(sym, v):
        return {sym.T.keys[a][1:] for a in atoms_in(sym, v) if sym.T.keys[a][0] == "idx"}
    sym, h, W, H, outs = run(f)
    if not any(data_reads(sym, v) for s, v in outs):
        return           # not made of pixels
    R.count("textures")
    comps = None
    # number of components: what buffer() says
    b = method(P, cls, "buffer", 0)
    for name, npar in (("eval_by_pixel_coords", 2), ("eval", 1), ("eval_alpha", 1)):
        g = method(P, cls, name, npar)
        if g is None:
            continue
        sym, h, W, H, outs = run(g)
        C = sym.field(sym.start(b, cls)[0][1], "c")
        D = None
        for s, v in outs:
            R.count("texture lookups")
            am = at_most(sym, s.facts, C, 2)
            few, enough = am is True, am is False
            n = 1 if name == "eval_alpha" else 3
            texel = None
            for i in range(n):
                c = sym.field(v, i) if n == 3 else v
                rd = data_reads(sym, c)
                k = sym.T.keys[next(iter(c[2]))[0]] if c[0] == "m" and c[1] == 1 and len(c[2]) == 1 else None
                if k is not None and k[0] == "f" and isinstance(k[2], int):
                    k = sym.T.keys[k[1]]          # a grey value used for all components
                if k is None or k[0] != "idx":
                    R.oblige(False, "value:%s::%s" % (label, name), "%s::%s(): component %d is %s, not a stored value" % (label, name, i, sym.show(c)), g.where())
                    continue
                off = (3 if n == 1 else 0 if few else i)
                ix = sym.add(k[2], const(off), -1)
                t = sym.div(ix, C)
                if texel is None:
                    texel = t
                R.oblige(same(sym, t, texel), "component:%s::%s" % (label, name), "%s::%s(): component %d is element %s, that of another pixel or component" % (label, name, i, sym.show(k[2])), g.where(), [],
                         sample="%s::%s: component %d" % (label, name, i))
                if n == 3 and i and not few:
                    R.oblige(enough, "grey:%s::%s" % (label, name), "%s::%s(): an image with fewer than three components is read as if it had three" % (label, name), g.where())
            if texel is None:
                continue
            # texel = W * y + x
            if name == "eval_by_pixel_coords":
                x, y = par(sym, g, 0), par(sym, g, 1)
                R.oblige(same(sym, texel, sym.add(sym.mul(W, y), x)), "texel:%s::%s" % (label, name), "%s::%s(x, y) reads pixel number %s" % (label, name, sym.show(texel)), g.where(), [],
                         sample="%s::%s reads pixel w * y + x" % (label, name))
            else:
                uv = par(sym, g, 0)
                ok = False
                cl = [("m", Fraction(1), frozenset({(a, 1)})) for a in atoms_in(sym, texel) if sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1].split("<")[0] in ("clamp", "min", "max")]
                xs, ys = [], []
                for v2 in cl:
                    for lst, N, i in ((xs, W, 0), (ys, H, 1)):
                        x = is_clamp(sym, v2, ZERO, sym.add(N, ONE, -1))
                        t = trunc_of(sym, x) if x is not None else None
                        if t is not None and frac_of(sym, sym.div(t, N), sym.field(uv, i)):
                            lst.append(v2)
                ok = any(same(sym, texel, sym.add(sym.mul(W, y), x)) for x in xs for y in ys)
                R.oblige(ok, "texel:%s::%s" % (label, name), "%s::%s(t) reads pixel number %s: not the one its repeated texture coordinates fall into" % (label, name, sym.show(texel)), g.where(), [],
                         sample="%s::%s reads the pixel of the repeated coordinates" % (label, name))
    # what buffer() hands out
    sym, h, W, H, outs = run(b)
    for s, v in outs:
        R.oblige(same(sym, sym.field(v, "w"), W) and same(sym, sym.field(v, "h"), H), "size:%s::buffer" % label, "%s::buffer() says %s x %s" % (label, sym.show(sym.field(v, "w")), sym.show(sym.field(v, "h"))), b.where())
    # the data are the whole image that was read
    g = method(P, cls, "construct", 1)
    if g is not None:
        sym, h, W, H, outs = run(g)
        for e in h.events:
            if e[0] == "stbi_loadf":
                R.oblige(iszero(e[2][4]), "load:%s" % label, "%s: the image is read with %s components but addressed with those of the file" % (label, sym.show(e[2][4])), e[4], e[5])
        for s, v in outs:
            this = s.env.get(("this",), sym.A(("this",)))
            if this[0] not in "mr":
                continue
            from ..sym import S
            ev = list(h.events)
            st = S({("this",): this}, {})
            z = sym.start(b, cls, st=st)[0][1]
            del h.events[:]
            h.events += ev
            n = sym.mul(sym.mul(sym.field(z, "w"), sym.field(z, "h")), sym.field(z, "c"))
            for e in h.events:
                if e[0] == "assign" and len(e[2]) == 2 and e[2][0][0] == "m" and e[2][1][0] == "m":
                    R.count("images read")
                    R.oblige(same(sym, sym.add(e[2][1], e[2][0], -1), n), "read:%s" % label, "%s: %s numbers are kept of an image of %s" % (label, sym.show(sym.add(e[2][1], e[2][0], -1)), sym.show(n)), e[4], e[5],
                             sample="%s keeps the whole image" % label)


# ------------------------------------------------------------------------------------------------ meshes
ATTR = {"p": "position", "n": "normal", "t": "texture coordinates"}


def check_mesh(R, P, cls):
    label = cls.split("::")[-1]
    ta, sp, fe, nt = (method(P, cls, m, k) for m, k in (("triangle_at", 1), ("surface_point", 2), ("foreach_triangle", 1), ("num_triangles", 0)))
    if None in (ta, sp, fe, nt) or ta.cls != cls:
        return
    h = AH(P)
    sym = Sym(P, h)
    sym.maxjoin, sym.maxstates = 4000, 6000
    face = par(sym, ta, 0)
    outs = sym.start(ta, cls)

    def attr(v):
        """(container, face list, corner index, field) of an attribute taken through the face list"""
        if v[0] != "m" or v[1] != 1 or len(v[2]) != 1:
            return None
        k = sym.T.keys[next(iter(v[2]))[0]]
        if k[0] != "idx" or k[2][0] != "m" or k[2][1] != 1 or len(k[2][2]) != 1:
            return None
        fk = sym.T.keys[next(iter(k[2][2]))[0]]
        if fk[0] != "f":
            return None
        ik = sym.T.keys[fk[1]]
        if ik[0] != "idx":
            return None
        return k[1], ik[1], ik[2], fk[2]
    arrays = {}
    FS = None
    seen = False
    guarded = set()
    for s, v in outs:
        for j in (1, 2, 3):
            for nm in "pnt":
                x = sym.field(sym.field(v, "p%d" % j), nm)
                a = attr(x)
                if a is None:
                    if nm != "p" and iszero(x):
                        guarded.add(nm)
                        continue
                    if not seen and not arrays:
                        return          # not a mesh of indexed faces
                    R.oblige(False, "corner:%s:%s" % (label, nm), "%s::triangle_at(): the %s of corner %d is %s" % (label, ATTR[nm], j, sym.show(x)), ta.where())
                    continue
                seen = True
                R.count("corners checked")
                cont, fs, ix, fld = a
                if FS is None:
                    FS = fs
                R.oblige(fs == FS and same(sym, ix, sym.add(sym.mul(const(3), face), const(j - 1))), "corner:%s:%s" % (label, nm), "%s::triangle_at(face): corner %d is entry %s of the faces" % (label, j, sym.show(ix)), ta.where(), [],
                         sample="%s: corner %d is entry 3 * face + %d" % (label, j, j - 1))
                if nm in arrays:
                    R.oblige(arrays[nm] == (cont, fld), "array:%s:%s" % (label, nm), "%s::triangle_at(): the %s of corner %d comes from %s[.%s], that of another corner from %s[.%s]" % (
                        label, ATTR[nm], j, sym.show(cont), fld, sym.show(arrays[nm][0]), arrays[nm][1]), ta.where())
                else:
                    arrays[nm] = (cont, fld)
    if not seen:
        return
    R.count("meshes")
    R.oblige(len(set(arrays.values())) == len(arrays) and all(arrays[n][1] == n for n in arrays if len(str(arrays[n][1])) == 1), "array:%s" % label, "%s::triangle_at(): %s" % (
        label, ", ".join("%s from %s[.%s]" % (ATTR[n], sym.show(c), f) for n, (c, f) in sorted(arrays.items()))), ta.where())

    def at(nm, j, fc):
        cont, fld = arrays[nm]
        e = sym.index(FS, sym.add(sym.mul(const(3), fc), const(j - 1)))
        return sym.index(cont, sym.field(e, fld))
    # number of triangles
    for s, v in sym.start(nt, cls):
        k = sym.T.keys[next(iter(v[2]))[0]] if v[0] == "m" and v[1] == 1 and len(v[2]) == 1 else None
        N = v
        R.oblige(k is not None and k[0] == "idiv" and k[2] == const(3) and same(sym, k[1], sym.A(("size", sym.atom_of(FS)), sym.deps(FS))), "count:%s" % label, "%s::num_triangles() is %s" % (label, sym.show(v)), nt.where(), [],
                 sample="%s::num_triangles() is a third of the corners" % label)
    # enumeration
    h2 = AH(P, ("triangle_at",))
    h2.P = P
    sym.h = h2
    sym.start(fe, cls)
    rng = ranges(sym, h2)
    cb = [e for e in h2.events if e[0] == "callback"]
    R.oblige(bool(cb), "each:%s" % label, "%s::foreach_triangle() hands out nothing" % label, fe.where())
    for e in cb:
        R.count("enumerations")
        why = covers(sym, e[2][0], rng, N)
        R.oblige(why is None, "each:%s" % label, "%s::foreach_triangle() goes through %s, not every face once" % (label, why), e[4], e[5], sample="%s::foreach_triangle goes through every face" % label)
        cond = extra(sym, e[3], rng)
        tri = e[2][1]
        want = sym.A(("call", "triangle_at", (sym.A(("this",)), e[2][0])))
        ok = tri[0] == "m" and same(sym, tri, want)
        if not ok and tri[0] == "r":
            ok = all(x == at(nm, j, e[2][0]) or nm != "p" and iszero(x) for j in (1, 2, 3) for nm in "pnt" for x in [sym.field(sym.field(tri, "p%d" % j), nm)])
            cond = {k: b for k, b in cond.items() if not any(sym.T.keys[a][0] == "idx" for a in katoms(sym, k))}
        R.oblige(ok, "tri:%s" % label, "%s::foreach_triangle(): the triangle handed out is %s, not that of the face" % (label, sym.show(tri)), e[4], e[5])
        R.oblige(not cond, "each:%s" % label, "%s::foreach_triangle() hands out a face only when %s" % (label, "; ".join(show_cond(sym, k, b) for k, b in cond.items())), e[4], e[5])
    # points on the surface
    sym.h = AH(P)
    sface, uv = par(sym, sp, 0), par(sym, sp, 1)
    u, v_ = sym.field(uv, 0), sym.field(uv, 1)
    w = sym.add(sym.add(ONE, u, -1), v_, -1)

    def mix(nm):
        return sym.add(sym.add(sym.mul(at(nm, 1, sface), w), sym.mul(at(nm, 2, sface), u)), sym.mul(at(nm, 3, sface), v_))
    e1 = sym.add(at("p", 2, sface), at("p", 1, sface), -1)
    e2 = sym.add(at("p", 3, sface), at("p", 1, sface), -1)
    for s, v in sym.start(sp, cls):
        R.count("surface points")
        pv = sym.field(v, "p")
        R.oblige(pv[0] == "m" and same(sym, pv, mix("p")), "surface:%s:p" % label, "%s::surface_point(): the position is %s, not the corners weighted by (1 - u - v, u, v)" % (label, sym.show(pv)), sp.where(), [],
                 sample="%s::surface_point mixes the corners by (1 - u - v, u, v)" % label)
        gn = sym.field(v, "gn")
        R.oblige(is_normal(sym, gn, e1, e2), "surface:%s:gn" % label, "%s::surface_point(): the geometry normal is %s" % (label, sym.show(gn)), sp.where())
        for nm in "nt":
            x = sym.field(v, nm)
            if nm in arrays:
                m = mix(nm)
                full = same(sym, x, m) if nm == "t" else (normalized(sym, x) is not None and same(sym, normalized(sym, x), m))
                miss = [j for j in (1, 2, 3) if nm in guarded and not nonneg(sym, s.facts, sym.field(sym.index(FS, sym.add(sym.mul(const(3), sface), const(j - 1))), arrays[nm][1]))]
                if full:
                    R.oblige(not miss, "missing:%s:%s" % (label, nm), "%s::surface_point(): the %s of corner %s is used without knowing that the corner has one" % (label, ATTR[nm], ", ".join(map(str, miss))), sp.where(), [],
                             sample="%s::surface_point uses the %s only if every corner has one" % (label, ATTR[nm]))
                else:
                    dflt = iszero(x) if nm == "t" else x == gn or is_normal(sym, x, e1, e2)
                    R.oblige(dflt and (bool(miss) and nm in guarded), "surface:%s:%s" % (label, nm), "%s::surface_point(): the %s is %s" % (label, ATTR[nm] if nm == "t" else "shading normal", sym.show(x)), sp.where())
    # where the arrays come from
    con = method(P, cls, "construct", 1)
    if con is not None:
        raw_arrays(R, P, cls, con, label)


def nonneg(sym, facts, v):
    if at_most(sym, facts, v, -1) is False:
        return True
    # the smallest of several is not negative
    for k, b in facts.items():
        if k[0] == "c" and sym.T.keys[k[1]][0] == "pos":
            for a in sym.subatoms(k[1]):
                if sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1].split("<")[0] == "min" and v in min_of(sym, a):
                    if at_most(sym, facts, ("m", Fraction(1), frozenset({(a, 1)})), -1) is False:
                        return True
    return False


def min_of(sym, a):
    out = []
    for x in sym.T.keys[a][2]:
        out.append(x)
        if x[0] == "m" and x[1] == 1 and len(x[2]) == 1:
            b = next(iter(x[2]))[0]
            if sym.T.keys[b][0] == "call" and sym.T.keys[b][1].split("::")[-1].split("<")[0] == "min":
                out += min_of(sym, b)
    return out


def normalized(sym, v):
    if v[0] == "m" and v[1] == 1 and len(v[2]) == 1:
        k = sym.T.keys[next(iter(v[2]))[0]]
        if k[0] == "call" and k[1].split("::")[-1] == "normalize":
            return k[2][0]
    return None


def is_normal(sym, v, e1, e2):
    x = normalized(sym, v)
    if x is None or x[0] != "m" or len(x[2]) != 1:
        return False
    k = sym.T.keys[next(iter(x[2]))[0]]
    if k[0] != "call" or k[1].split("::")[-1] != "cross":
        return False
    a, b = k[2]
    pos = same(sym, a, e1) and same(sym, b, e2) or same(sym, a, sym.neg(e2)) and same(sym, b, e1) or same(sym, a, e2) and same(sym, b, sym.neg(e1)) or same(sym, a, sym.neg(e1)) and same(sym, b, sym.neg(e2))
    neg = same(sym, a, e2) and same(sym, b, e1)
    return pos and x[1] > 0 or neg and x[1] < 0


def raw_arrays(R, P, cls, f, label):
    """arrays given as flat lists of numbers"""
    h = AH(P)
    sym = Sym(P, h)
    try:
        sym.start(f, cls)
    except GiveUp as e:
        R.notes.append("%s::construct: %s" % (label, e))
        return
    rng = ranges(sym, h)
    prop = par(sym, f, 0)
    for e in h.events:
        if e[0] not in ("push_back", "emplace_back") or e[1][0] != ("this",) or len(e[1][1]) != 1:
            continue
        dst = e[1][1][0].rstrip("_")
        if len(e[2]) != 1:
            continue
        v = e[2][0]
        if v[0] == "m" and v[1] == 1 and len(v[2]) == 1 and sym.T.keys[next(iter(v[2]))[0]][0] == "vec":
            comps = sym.T.keys[next(iter(v[2]))[0]][1:]
            ks = [sym.T.keys[next(iter(c[2]))[0]] if c[0] == "m" and len(c[2]) == 1 else ("?",) for c in comps]
            if not all(k[0] == "idx" for k in ks):
                continue
            R.count("arrays read")
            n = len(ks)
            base = ks[0][1]
            key = src_key(sym, base, prop)
            R.oblige(all(k[1] == base and same(sym, k[2], sym.add(ks[0][2], const(i))) for i, k in enumerate(ks)), "read:%s:%s" % (label, dst), "%s: an entry of %s is made of elements %s" % (
                label, dst, ", ".join(sym.show(k[2]) for k in ks)), e[4], e[5], sample="%s: entries of %s are consecutive elements" % (label, dst))
            R.oblige(key is None or key == [dst], "key:%s:%s" % (label, dst), "%s: %s is filled from option %s" % (label, dst, ".".join(key or ())), e[4], e[5])
            va = [a for a in atoms_in(sym, ks[0][2]) if a in rng]
            if len(va) == 1:
                lo, cnt, st, t, full = rng[va[0]]
                one = ("m", Fraction(1), frozenset({(va[0], 1)}))
                stride = sym.add(sym.subst(ks[0][2], {va[0]: sym.add(one, st)}), ks[0][2], -1)
                R.oblige(same(sym, stride, const(n)) and same(sym, sym.subst(ks[0][2], {va[0]: lo}), ZERO) and full, "stride:%s:%s" % (label, dst), "%s: entries of %s start every %s elements from %s" % (
                    label, dst, sym.show(stride), sym.show(sym.subst(ks[0][2], {va[0]: lo}))), e[4], e[5])
        elif v[0] == "r":
            R.count("arrays read")
            ixs = []
            for fld, x in v[3]:
                k = sym.T.keys[next(iter(x[2]))[0]] if x[0] == "m" and len(x[2]) == 1 else ("?",)
                while k[0] == "call" and k[2] and k[2][0][0] == "m" and len(k[2][0][2]) == 1:
                    k = sym.T.keys[next(iter(k[2][0][2]))[0]]       # conversion of a json value
                if k[0] != "idx":
                    continue
                key = src_key(sym, k[1], prop)
                ixs.append(k[2])
                R.oblige(key is None or key[-1] == fld, "key:%s:%s.%s" % (label, dst, fld), "%s: index %s of a face is read from option %s" % (label, fld, ".".join(key or ())), e[4], e[5], sample="%s: face index %s from option %s" % (label, fld, fld))
            R.oblige(all(same(sym, x, ixs[0]) for x in ixs), "read:%s:%s" % (label, dst), "%s: the indices of a face corner come from entries %s" % (label, ", ".join(sym.show(x) for x in ixs)), e[4], e[5])


def src_key(sym, v, prop):
    out = []
    while v != prop:
        k = sym.T.keys[next(iter(v[2]))[0]] if v[0] == "m" and len(v[2]) == 1 else ("?",)
        if k[0] != "idx":
            return None
        s = sym.T.keys[next(iter(k[2][2]))[0]] if k[2][0] == "m" and len(k[2][2]) == 1 else ("?",)
        if s[0] != "str":
            return None
        out.insert(0, s[1])
        v = k[1]
    return out


def check(ctx):
    R = Result()
    P = ctx.P
    for base, fn in (("lm::Film", lambda c: Film(R, P, c).check()), ("lm::Texture", lambda c: check_texture(R, P, c)), ("lm::Mesh", lambda c: check_mesh(R, P, c))):
        for cls in sorted(P.all_derived(base)):
            fs = [f for f in P.by_cls.get(cls, ()) if f.body is not None]
            if not fs or not fs[0].file.startswith(P.root + "/src") or fs[0].file.endswith("pylm.cpp"):
                continue
            try:
                fn(cls)
            except GiveUp as e:
                R.count("not decided")
                R.notes.append("%s: %s" % (cls, e))
    base_film(R, P)
    R.floor("films", 1)
    return R
