"""S20: every pixel gets the same number of samples and the image is scaled by the number actually taken."""
from fractions import Fraction

from ..core import *
from ..prog import kids
from ..render import renderers, run_renderer
from ..sym import Sym, Hooks, GiveUp, ONE, ZERO, const, isconst, iszero
from .s17 import same, show_facts

PATH = "lm::path::"


# ------------------------------------------------------------------------------------------------ what construct() sets up
class ConsH(Hooks):
    """json reads and created children are single values"""
    forget = True

    def __init__(self, P):
        self.P = P

    def call(self, sym, n, name, st, fr):
        if name.startswith("lm::comp::create") and n["k"] == "Call":
            return [(s, sym.A(("made", tuple(x for x in vs)))) for s, vs in sym.evs(n["c"][1:], st, fr)]
        if name.startswith("lm::json::") and n["k"] == "Call":
            return [(s, sym.A(("json", name.split("::")[-1].split("<")[0], tuple(vs)))) for s, vs in sym.evs(n["c"][1:], st, fr)]
        return None

    def inline(self, sym, fn, n, fr):
        r = self.P.root
        return fn.file.startswith(r + "/src") or fn.file.startswith(r + "/include/lm")


def construct_of(P, cls):
    seen = set()
    todo = [cls]
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        for f in P.by_cls.get(c, ()):
            if f.body is not None and f.qn.split("::")[-1] == "construct" and not f.is_lambda:
                return f
        todo += P.bases_of(c)
    return None


def setups(P, cls):
    """[(member -> value, kinds of scheduler created)] of every way through construct()"""
    f = construct_of(P, cls)
    if f is None:
        return None, []
    sym = Sym(P, ConsH(P))
    out = []
    for st, v in sym.start(f, cls):
        this = st.env.get(("this",))
        mem = dict(this[3]) if this is not None and this[0] == "r" else {}
        out.append((mem, st))
    return sym, out


def strings(sym, v):
    acc = set()
    sym._collect(v, acc)
    out = []
    for a in acc:
        k = sym.T.keys[a]
        if k[0] == "made":
            for x in k[1][:1]:
                b = set()
                sym._collect(x, b)
                out += [sym.T.keys[y][1] for y in b if sym.T.keys[y][0] == "str"]
                if x[0] == "r":
                    out += [str(x)]
    return out


def kinds_of(P, cls):
    """[(members with constant values, "spp" | "spi")]"""
    sym, outs = setups(P, cls)
    res = []
    for mem, st in outs:
        ks = set()
        for m, v in mem.items():
            for s in strings(sym, v):
                for kd in ("spp", "spi"):
                    if s.startswith("scheduler::%s" % kd):
                        ks.add(kd)
        if len(ks) == 1:
            c = {m: v[1] for m, v in mem.items() if v[0] == "m" and isconst(v)}
            if (c, next(iter(ks))) not in res:
                res.append((c, next(iter(ks))))
    return res


def allows(sym, facts, members):
    """can the decided conditions hold when the members have these constant values"""
    def mem(a):
        k = sym.T.keys[a]
        return k[2] if k[0] == "f" and sym.T.keys[k[1]][0] == "this" else None
    for k, b in facts.items():
        if k[0] == "nz" and len(k[1]) == 1:
            m = mem(next(iter(k[1])))
            if m in members and (members[m] != 0) != b:
                return False
        if k[0] == "eq" and isconst(k[2]) and k[1][0] == "m" and len(k[1][2]) == 1:
            (a, e), = k[1][2]
            m = mem(a)
            if m in members and e == 1 and (members[m] * k[1][1] == k[2][1]) != b:
                return False
    return True


# ------------------------------------------------------------------------------------------------ renderers
def check_renderer(R, P, cls, f):
    sym, h, outs = run_renderer(P, cls, f)
    label = cls.split("::")[-1]
    runs = [s for s, v in outs if any(k[0] == "ev" and k[2] == "run" for k in s.facts)]
    if not runs:
        return
    kinds = kinds_of(P, cls)
    R.count("renderers")
    where = f.where()
    splat = [e for e in h.events if e[1] in ("splat", "splat_pixel", "accum")]
    sets = [e for e in h.events if e[1] in ("set_pixel", "update_pixel")]
    for st in runs:
        evs = sorted((k for k in st.facts if k[0] == "ev"), key=lambda k: k[1])
        names = [k[2] for k in evs]
        nrun = names.count("run")
        at = names.index("run")
        tr = ["%s (%s)" % (k[2], k[5]) for k in evs]
        R.oblige(nrun == 1, "runs:%s" % label, "%s: the scheduler runs %d times in one render" % (label, nrun), evs[at][5], tr)
        R.oblige("clear" in names[:at], "clear:%s" % label, "%s: the film is not cleared before the samples are taken: a second render adds to the first" % label, evs[at][5], tr,
                 sample="%s: film cleared before the run" % label)
        R.oblige("clear" not in names[at:], "clear:%s" % label, "%s: the film is cleared after samples were taken" % label, evs[at][5], tr)
        R.oblige(any(x.startswith("require_") for x in names[:at]), "require:%s" % label, "%s: the samples are taken without checking that the scene can be rendered" % label, evs[at][5], tr)
        films = {k[3][0] for k in evs if k[2] in ("clear", "rescale", "splat", "set_pixel") and k[3]} | {e[2][0] for e in h.events}
        R.oblige(len(films) == 1, "film:%s" % label, "%s: %d different films are cleared, written and scaled" % (label, len(films)), evs[at][5], tr)
        scale = [k for k in evs if k[2] == "rescale"]
        before = [k for k in evs[:at] if k[2] == "rescale"]
        R.oblige(not before, "scale:%s" % label, "%s: the film is scaled before the samples are taken" % label, evs[at][5], tr)
        if not splat:
            R.oblige(not scale, "scale:%s" % label, "%s: pixels are set, not accumulated, yet the film is scaled" % label, evs[at][5], tr)
            continue
        R.oblige(len(scale) == 1, "scale:%s" % label, "%s: the accumulated film is scaled %d times instead of once" % (label, len(scale)), evs[at][5], tr)
        if len(scale) != 1:
            continue
        fit = [(m, kd) for m, kd in kinds if allows(sym, st.facts, m)]
        v = scale[0][3][1]
        proc = sym.A(("processed", evs[at][5]))
        film = scale[0][3][0]
        size = sym.A(("call", "lm::Film::size", (film,)), sym.deps(film))
        npix = sym.mul(sym.field(size, "w"), sym.field(size, "h"))
        npix2 = sym.A(("call", "lm::Film::num_pixels", (film,)), sym.deps(film))
        if not fit:
            R.count("renderers with an unknown scheduler")
        for m, kd in fit:
            want = [sym.div(ONE, proc)] if kd == "spp" else [sym.div(npix, proc), sym.div(npix2, proc)]
            R.oblige(any(sym.equal(v, x) for x in want), "scale:%s" % label, "%s: with a scheduler that counts %s the film is scaled by %s" % (
                label, "samples per pixel" if kd == "spp" else "samples per image", sym.show(v)), scale[0][5], tr,
                sample="%s: %s scheduler, film scaled by %s" % (label, kd, sym.show(v)))
        R.count("scalings checked")
    # -- where samples are taken
    found = {}
    for n, what, vals, facts, where, tr in h.events:
        fit = {kd for m, kd in kinds if allows(sym, facts, m)}
        film = vals[0]
        size = sym.A(("call", "lm::Film::size", (film,)), sym.deps(film))
        W, H = sym.field(size, "w"), sym.field(size, "h")
        pix = sym.A(("par", "pixel", "run"))
        acc = set()
        for v in vals[1:]:
            sym._collect(v, acc)
        allat = set()
        for a in acc:
            allat |= set(sym.subatoms(a)) | {a}
        for a in allat:
            k = sym.T.keys[a]
            if k[0] != "call":
                continue
            if k[1] in (PATH + "sample_direction", PATH + "sample_primary_ray") and k[2] and k[2][0][0] == "r":
                u = dict(k[2][0][3]).get("ud")
            elif k[1] == PATH + "primary_ray":
                u = k[2][1]
            else:
                continue
            c = vec2(sym, u)
            if c is None:
                R.count("windows of another form")
                continue
            R.count("windows checked")
            for kd in fit:
                found.setdefault(kd, [0, where])[0] += 1
                ok, why = window(sym, c, kd, pix, W, H)
                R.oblige(ok, "window:%s" % label, "%s at %s: %s" % (label, where, why), where, list(tr) + ["image position: %s, %s" % (sym.show(c[0]), sym.show(c[1]))],
                         sample="%s: %s image position covers its %s" % (label, kd, "pixel" if kd == "spp" else "image"))
        if what in ("set_pixel", "splat_pixel", "update_pixel") and "spp" in fit:
            ok = is_mod(sym, vals[1], pix, W) and is_div(sym, vals[2], pix, W)
            R.oblige(ok, "pixel:%s" % label, "%s at %s: the sample of a pixel is written to (%s, %s)" % (label, where, sym.show(vals[1]), sym.show(vals[2])), where, tr,
                     sample="%s: pixel index maps to (index %% w, index / w)" % label)
            R.count("pixel writes checked")
    if any(kd == "spp" for m, kd in kinds) and splat:
        R.oblige("spp" in found, "window:%s" % label, "%s: samples per pixel are counted but no sample looks at its pixel" % label, where, [])
    # every outcome of a pixel is written when pixels are set
    if sets and not splat:
        for n, g, s0, rs, wh in h.runs:
            for s, v in rs:
                k = sum(1 for x in s.facts if x[0] == "px")
                R.count("pixel outcomes checked")
                R.oblige(k == 1, "written:%s" % label, "%s: a pixel is written %d times when %s" % (label, k, show_facts(W_(sym), {x: b for x, b in s.facts.items() if x[0] in ("c", "nz", "eq")})), wh, [],
                         sample="%s: each outcome writes the pixel once" % label)


class W_:
    def __init__(self, sym):
        self.sym = sym


def vec2(sym, u):
    """components of a two-vector value"""
    if u is None:
        return None
    if u[0] == "r":
        d = dict(u[3])
        if "x" in d and "y" in d:
            return d["x"], d["y"]
        return None
    if u[0] == "m" and u[1] == 1 and len(u[2]) == 1:
        (a, e), = u[2]
        k = sym.T.keys[a]
        if k[0] == "vec" and e == 1 and len(k) == 3:
            return k[1:]
    return None


def idiv(sym, a, b):
    return sym.A(("idiv", a, b), sym.deps(a) | sym.deps(b))


def is_mod(sym, v, a, b):
    return same(sym, v, sym.add(a, sym.mul(b, idiv(sym, a, b)), -1))


def is_div(sym, v, a, b):
    if v[0] == "m" and v[1] == 1 and len(v[2]) == 1:
        (x, e), = v[2]
        k = sym.T.keys[x]
        return e == 1 and k[0] == "idiv" and same(sym, k[1], a) and same(sym, k[2], b)
    return False


def window(sym, c, kd, pix, W, H):
    parts = []
    for i, (v, ext) in enumerate(zip(c, (W, H))):
        acc = set()
        sym._collect(v, acc)
        ats = set()
        for a in acc:
            ats |= set(sym.subatoms(a)) | {a}
        rnd = [a for a in ats if sym.T.keys[a][0] == "rnd"]
        usesp = any(sym.T.keys[a] == sym.T.keys[next(iter(pix[2]))[0]] for a in ats)
        if kd == "spi":
            if usesp:
                return False, "the scheduler covers the whole image but the sample is placed by the pixel index"
            if len(rnd) != 1 or not same(sym, v, ("m", Fraction(1), frozenset({(rnd[0], 1)}))):
                return False, "the %s image coordinate %s does not cover the whole image" % ("horizontal" if i == 0 else "vertical", sym.show(v))
            parts.append(rnd[0])
            continue
        q = idiv(sym, pix, W)
        b = sym.add(pix, sym.mul(W, q), -1) if i == 0 else q
        if not usesp:
            return False, "the %s image coordinate %s is not that of the pixel" % ("horizontal" if i == 0 else "vertical", sym.show(v))
        ok = False
        if len(rnd) == 1:
            ok = sym.equal(v, sym.div(sym.add(b, ("m", Fraction(1), frozenset({(rnd[0], 1)}))), ext))
            parts.append(rnd[0])
        elif not rnd:
            ok = any(sym.equal(v, sym.div(sym.add(b, const(Fraction(x, 8))), ext)) for x in range(0, 9))
            parts.append(None)
        if not ok:
            return False, "the %s image coordinate %s does not stay inside its pixel" % ("horizontal" if i == 0 else "vertical", sym.show(v))
    if parts[0] is not None and parts[0] == parts[1]:
        return False, "one random number places the sample in both directions"
    return True, ""


# ------------------------------------------------------------------------------------------------ schedulers
class SchedH(Hooks):
    forget = True

    def __init__(self, P):
        self.P = P
        self.loops = []
        self.leaves = {}

    def inline(self, sym, fn, n, fr):
        return fn.file.startswith(self.P.root + "/src/scheduler") and "progress" not in fn.qn

    def mark(self):
        return len(self.loops)

    def reset(self, m):
        del self.loops[m:]

    def loop(self, sym, n, fr, entry, head, backs, changed, lid):
        self.loops.append((n, fr, entry, head, backs, changed, lid))

    def exits(self, sym, n, fr, head, outs, lid):
        self.leaves[len(self.loops) - 1] = outs

    def ev(self, st, what, vals, where):
        seq = sum(1 for k in st.facts if k[0] == "ev")
        return st.fact(("ev", seq, what, vals, where), True)

    def call(self, sym, n, name, st, fr):
        if name == "lm::parallel::foreach":
            out = []
            for s, vs in sym.evs(n["c"][1:], st, fr):
                lam = vs[1]
                body = None
                if lam[0] == "l":
                    node, lfr = sym._lam[(lam[1], lam[2])]
                    f = self.P.funcs.get(node["f"])
                    if f is not None and f.body is not None:
                        nf = sym.frame(f, lfr.this, lfr, sym.cidof(fr, n), fr, n, lfr.dyn)
                        s2 = s
                        for i, p in enumerate(f.params):
                            s2 = s2.set(("v", nf.id, p["d"]), sym.A(("par", ("index", "thread")[i], "foreach")))
                        rs = sym.run(nf, s2, keepenv=s.env)
                        body = frozenset(tuple(k[3] for k in sorted((k for k in x.facts if k[0] == "ev" and k not in s.facts), key=lambda k: k[1]) if k[2] == "process") for x, v in rs)
                out.append((self.ev(s, "foreach", (vs[0], body), fr.fn.where(n)), ZERO))
            return out
        if n["k"] == "OpCall" and name.startswith("std::function<void (long long, long long, int)"):
            return [(self.ev(s, "process", tuple(vs[1:]), fr.fn.where(n)), ZERO) for s, vs in sym.evs(n["c"], st, fr)]
        return None


def check_scheduler(R, P, cls, kd, f):
    label = cls.split("::")[-1]
    h = SchedH(P)
    sym = Sym(P, h)
    outs = sym.start(f, cls)
    R.count("schedulers")
    ix, th = sym.A(("par", "index", "foreach")), sym.A(("par", "thread", "foreach"))
    film = None
    where = f.where()

    def pixels(v):
        """is v the number of pixels of the film"""
        if v[0] != "m" or v[1] != 1:
            return False
        ks = [sym.T.keys[a] for a, e in v[2] if e == 1]
        if len(ks) != len(v[2]):
            return False
        if len(ks) == 1:
            return ks[0][0] == "call" and ks[0][1].endswith("::num_pixels")
        if len(ks) == 2:
            return sorted(k[2] for k in ks if k[0] == "f") == ["h", "w"]
        return False

    def one(evs, tr):
        """(samples covered by one foreach per pixel or in total, process call) or None"""
        fe = [e for e in evs if e[2] == "foreach"]
        if len(fe) != 1:
            R.oblige(not fe and False, "foreach:%s" % label, "%s: %d parallel loops where one is expected" % (label, len(fe)), where, tr)
            return None
        N, body = fe[0][3]
        w = fe[0][4]
        if body is None:
            R.count("loops of another form")
            return None
        once = all(len(b) == 1 for b in body)
        R.oblige(once, "once:%s" % label, "%s: an index of the parallel loop is processed %s times" % (label, sorted({len(b) for b in body})), w, tr,
                 sample="%s: each index processed once" % label)
        if not once:
            return None
        calls = {b[0] for b in body}
        if len(calls) != 1:
            R.count("loops of another form")
            return None
        return N, next(iter(calls)), w

    def coverage(N, call, w, counter, tr):
        """samples per pixel (spp) or in all (spi) taken by one parallel loop; checks the indices handed out"""
        px, smp, t = call
        R.oblige(same(sym, t, th), "thread:%s" % label, "%s: the thread number handed on is %s" % (label, sym.show(t)), w, tr)
        if kd == "spi":
            R.oblige(isconst(px), "pixel:%s" % label, "%s: samples of the image depend on a pixel" % label, w, tr)
            ok = same(sym, smp, ix) and counter is None or counter is not None and same(sym, smp, sym.add(ix, counter))
            R.oblige(ok, "sample:%s" % label, "%s: the sample number is %s" % (label, sym.show(smp)), w, tr)
            return N
        # spp
        if pixels(N):
            R.oblige(same(sym, px, ix), "pixel:%s" % label, "%s: the loop over the pixels hands out pixel %s" % (label, sym.show(px)), w, tr,
                     sample="%s: each pixel once per pass" % label)
            R.oblige(counter is not None and same(sym, smp, counter) or counter is None and isconst(smp), "sample:%s" % label, "%s: the sample number is %s" % (label, sym.show(smp)), w, tr)
            return ONE
        # N = pixels * K
        for a, e in (N[2] if N[0] == "m" else ()):
            for pick in ([(a, e)],):
                p = ("m", Fraction(1), frozenset(pick))
                if pixels(p):
                    K = sym.div(N, p)
                    ok = is_div(sym, px, ix, K) and is_mod(sym, smp, ix, K) or is_mod(sym, px, ix, p) and is_div(sym, smp, ix, p)
                    R.oblige(ok, "pixel:%s" % label, "%s: index i of %s is pixel %s, sample %s" % (label, sym.show(N), sym.show(px), sym.show(smp)), w, tr,
                             sample="%s: index i is pixel i / K, sample i %% K" % label)
                    return K
        ws = [(a, e) for a, e in (N[2] if N[0] == "m" else ()) if sym.T.keys[a][0] == "f" and sym.T.keys[a][2] in "wh"]
        if len(ws) == 2:
            p = ("m", Fraction(1), frozenset(ws))
            K = sym.div(N, p)
            ok = is_div(sym, px, ix, K) and is_mod(sym, smp, ix, K)
            R.oblige(ok, "pixel:%s" % label, "%s: index i of %s is pixel %s, sample %s" % (label, sym.show(N), sym.show(px), sym.show(smp)), w, tr)
            return K
        R.oblige(False, "pixel:%s" % label, "%s: %s indices do not give every pixel the same number of samples" % (label, sym.show(N)), w, tr)
        return None

    if h.loops:
        # passes over the image until something else ends them: the value returned counts the passes
        for i, (n, fr, entry, head, backs, changed, lid) in enumerate(h.loops):
            for s, fl in list(h.leaves.get(i, [])) + [(b, "back") for b in backs]:
                evs = sorted((k for k in s.facts if k[0] == "ev"), key=lambda k: k[1])
                if not any(e[2] == "foreach" for e in evs):
                    continue
                tr = ["%s (%s)" % (e[2], e[4]) for e in evs]
                r = one(evs, tr)
                if r is None:
                    continue
                # the counter: a head variable that starts at zero and grows by what a pass covers
                ctr = []
                for key in changed:
                    hv = head.env.get(key)
                    if hv is not None and hv[0] == "m" and iszero(entry.env.get(key, ONE)) and key in s.env and s.env[key][0] == "m":
                        ctr.append((key, hv, sym.add(s.env[key], hv, -1)))
                N, call, w = r
                hv = None
                for key, x, d in ctr:
                    hv = x
                cov = coverage(N, call, w, hv, tr)
                if cov is None:
                    continue
                R.oblige(any(same(sym, d, cov) for key, x, d in ctr), "count:%s" % label, "%s: a pass takes %s %s but is counted as %s" % (
                    label, sym.show(cov), "samples per pixel" if kd == "spp" else "samples", ", ".join(sym.show(d) for key, x, d in ctr) or "nothing"), w, tr,
                    sample="%s: a pass counts %s" % (label, sym.show(cov)))
                R.count("passes checked")
                good = {key for key, x, d in ctr if same(sym, d, cov)}
                h.good = getattr(h, "good", set()) | {(lid, key) for key in good}
        for s, v in outs:
            ok = v[0] == "m"
            hs = set()
            if ok:
                sym._collect(v, hs)
            ks = [sym.T.keys[a] for a in hs if sym.T.keys[a][0] == "h"]
            # value after a pass: head + one pass
            R.oblige(len(ks) == 1 and (ks[0][1], ks[0][2]) in getattr(h, "good", set()), "return:%s" % label, "%s: reports %s samples" % (label, sym.show(v)), where, [],
                     sample="%s: reports the passes counted" % label)
            if len(ks) == 1:
                # it must be the value at the end of the last pass, not that at its start
                d = sym.add(v, sym.A(ks[0], sym.T.deps[sym.T.atom(ks[0])]), -1)
                R.oblige(not iszero(d) or tested_first(h, ks[0][1]), "return:%s" % label, "%s: the last pass is not counted in what is reported" % label, where, [])
    else:
        for s, v in outs:
            evs = sorted((k for k in s.facts if k[0] == "ev"), key=lambda k: k[1])
            tr = ["%s (%s)" % (e[2], e[4]) for e in evs]
            r = one(evs, tr)
            if r is None:
                continue
            N, call, w = r
            cov = coverage(N, call, w, None, tr)
            if cov is not None:
                R.oblige(v[0] == "m" and sym.equal(v, cov), "return:%s" % label, "%s: %s %s are taken but %s reported" % (
                    label, sym.show(cov), "samples per pixel" if kd == "spp" else "samples", sym.show(v)), w, tr, sample="%s: reports %s" % (label, sym.show(v)))


class LoopH(SchedH):
    """a parallel context: the loop that hands out the indices"""

    def inline(self, sym, fn, n, fr):
        return fn.file.startswith(self.P.root + "/src/parallel") or fn.file.startswith(self.P.root + "/plugin")

    def call(self, sym, n, name, st, fr):
        if n["k"] == "OpCall" and name.startswith("std::function<void (long long, int)"):
            return [(self.ev(s, "process", tuple(vs[1:]), fr.fn.where(n)), ZERO) for s, vs in sym.evs(n["c"], st, fr)]
        return None


def check_parallel(R, P, cls, f):
    label = cls.split("::")[-1]
    h = LoopH(P)
    sym = Sym(P, h)
    sym.start(f, cls)
    N = sym.A(("par", f.params[0].get("n") or "arg0", f.key))
    found = False
    for i, (n, fr, entry, head, backs, changed, lid) in enumerate(h.loops):
        if not any(k[0] == "ev" and k[2] == "process" for b in backs for k in b.facts):
            continue
        found = True
        where = fr.fn.where(n)
        R.count("parallel loops")
        ctr = [(key, head.env[key]) for key in changed if key in entry.env and head.env.get(key, ZERO)[0] == "m" and backs and all(
            b.env[key][0] == "m" and same(sym, sym.add(b.env[key], head.env[key], -1), ONE) for b in backs)]
        evs = {k[3] for b in backs for k in b.facts if k[0] == "ev" and k[2] == "process"}
        ix = [(key, hv) for key, hv in ctr if all(same(sym, e[0], hv) for e in evs)]
        R.oblige(bool(ix), "index:%s" % label, "%s at %s: the index handed to the work function is %s, which does not go through the range in steps of one" % (
            label, where, ", ".join(sym.show(e[0]) for e in evs)), where, [], sample="%s: index runs in steps of one" % label)
        if not ix:
            continue
        key, hv = ix[0]
        R.oblige(iszero(entry.env[key]), "index:%s" % label, "%s at %s: the range starts at %s" % (label, where, sym.show(entry.env[key])), where, [])
        test = sym.T.ids.get(("pos", sym.add(N, hv, -1)))
        neg = sym.T.ids.get(("pos", sym.add(hv, N, -1)))
        hid = next(iter(hv[2]))[0]
        for b in backs:
            lim = [k for k in b.facts if k[0] == "c" and k not in head.facts and sym.mentions(sym.T.keys[k[1]][1], {hid}) and sym.mentions(sym.T.keys[k[1]][1], set(a for a, e in N[2]))] if True else []
            bad = [k for k in lim if not (k[1] == test and b.facts[k])]
            R.oblige(not bad, "range:%s" % label, "%s at %s: the loop covers the indices with %s, not all below %s" % (label, where, "; ".join(sym.show_atom(k[1]) for k in bad), sym.show(N)), where, [])
            cnt = sum(1 for k in b.facts if k[0] == "ev" and k[2] == "process")
            R.count("iterations checked")
            if cnt == 1:
                R.oblige(True, "once", "", where)
                continue
            # skipped: only because of something other than the index (a cancellation)
            other = [k for k in b.facts if k not in head.facts and k[0] in ("nz", "c", "eq") and k != ("c", test) and not index_only(sym, k, hid)]
            R.oblige(cnt == 0 and bool(other), "once:%s" % label, "%s at %s: an index is processed %d times" % (label, where, cnt), where, [])
    if not found:
        R.count("parallel contexts of another form")


def index_only(sym, k, hid):
    """does a decided condition look at the index or at nothing but constants and members"""
    ats = set()
    if k[0] == "c":
        ats = set(sym.subatoms(k[1]))
    elif k[0] == "nz":
        for a in k[1]:
            ats |= set(sym.subatoms(a)) | {a}
    else:
        sym._collect(k[1], ats)
        sym._collect(k[2], ats)
    if hid in ats:
        return True
    return all(sym.T.keys[a][0] in ("f", "this", "par", "pos", "+") for a in ats)


def tested_first(h, lid):
    return any(l[6] == lid and l[0]["k"] != "DoStmt" and any(f == "n" and not any(k[0] == "ev" and k not in l[3].facts for k in s.facts) for s, f in h.leaves.get(i, ())) for i, l in enumerate(h.loops))


def check(ctx):
    R = Result()
    P = ctx.P
    for cls, f in renderers(P):
        if not f.file.startswith(P.root + "/src"):
            continue
        try:
            check_renderer(R, P, cls, f)
        except GiveUp as e:
            R.count("renderers not decided")
            R.notes.append("%s: %s" % (cls, e))
    for cls in sorted(P.all_derived("lm::parallel::ParallelContext")):
        for f in P.by_cls.get(cls, ()):
            if f.body is not None and f.qn.split("::")[-1] == "foreach" and not f.is_lambda and len(f.params) == 3:
                try:
                    check_parallel(R, P, cls, f)
                except GiveUp as e:
                    R.notes.append("%s: %s" % (cls, e))
    for cls, key, alias, where in ctx.registry():
        if not P.derives(cls, "lm::scheduler::Scheduler"):
            continue
        kd = "spp" if key.startswith("scheduler::spp::") else "spi" if key.startswith("scheduler::spi::") else None
        f = next((f for f in P.by_cls.get(cls, ()) if f.body is not None and f.qn.split("::")[-1] == "run" and not f.is_lambda), None)
        if kd is None or f is None:
            continue
        try:
            check_scheduler(R, P, cls, kd, f)
        except GiveUp as e:
            R.count("schedulers not decided")
            R.notes.append("%s: %s" % (cls, e))
    return R
