"""Disjunctive value-numbering interpreter.

Abstract domain: a value is a canonical product  c * prod atom^e  over interned atoms (a sum with
several terms is itself an atom), or a record of values.  An atom is an opaque quantity named by
how it was computed (parameter, member, result of a pure call on canonical arguments), so two
expressions computing the same thing get the same value whatever the code around them looks like.
Each atom carries the set of random decisions it depends on.  A state maps variables to values and
remembers which conditions were decided; nothing is ever evaluated on concrete inputs.

Helpers and lambdas are inlined; a loop is entered with the changed variables replaced by head
atoms.  Anything not understood becomes a fresh atom marked unknown.
"""
import time
from fractions import Fraction

from .prog import kids, walk

MAXSTATES = 600
NORETURN = {"__assert_fail", "abort", "std::terminate", "std::abort", "exit", "std::exit", "lm::exception::detail::throw_exception"}
IDENT_CALLS = {"std::move", "std::forward", "std::as_const", "std::make_optional", "std::addressof", "glm::f64vec3", "std::ref", "std::cref"}
COMMUT = {"glm::dot", "std::max", "std::min", "glm::max", "glm::min", "std::fmax", "std::fmin"}
ABS = {"glm::abs", "std::abs", "std::fabs", "abs", "fabs"}
XYZ = {"x": 0, "y": 1, "z": 2, "w": 3, "r": 0, "g": 1, "b": 2, "a": 3, "s": 0, "t": 1}


class GiveUp(Exception):
    pass


class Table:
    def __init__(self):
        self.ids = {}
        self.keys = []
        self.deps = []
        self.unk = []

    def atom(self, key, deps=frozenset(), unk=False):
        i = self.ids.get(key)
        if i is None:
            i = len(self.keys)
            self.ids[key] = i
            self.keys.append(key)
            self.deps.append(frozenset(deps))
            self.unk.append(unk)
        return i


# ---------------------------------------------------------------- values
ZERO = ("m", Fraction(0), frozenset())
ONE = ("m", Fraction(1), frozenset())
NONE = ("n",)


def const(c):
    return ("m", Fraction(c), frozenset())


def isconst(v):
    return v[0] == "m" and not v[2]


def iszero(v):
    return v[0] == "m" and v[1] == 0


class S:
    """abstract state"""
    __slots__ = ("env", "facts", "req", "_k")

    def __init__(self, env, facts, req=frozenset()):
        self.env, self.facts, self.req, self._k = env, facts, req, None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.env.items()), frozenset(self.facts.items()), self.req)
        return self._k

    def set(self, k, v):
        if self.env.get(k) == v:
            return self
        e = dict(self.env)
        e[k] = v
        return S(e, self.facts, self.req)

    def fact(self, k, b):
        f = dict(self.facts)
        f[k] = b
        return S(self.env, f, self.req)

    def need(self, r):
        return S(self.env, self.facts, self.req | {r})


class Fr:
    __slots__ = ("fn", "this", "lex", "cid", "id", "depth", "up", "call", "dyn")

    def __init__(self, fn, this, lex, cid, fid, depth, up=None, call=None, dyn=None):
        self.fn, self.this, self.lex, self.cid, self.id, self.depth = fn, this, lex, cid, fid, depth
        self.up, self.call, self.dyn = up, call, dyn

    def trace(self, node=None):
        out, f, n = [], self, node
        while f is not None:
            out.append("%s (%s)" % (f.fn.label(), f.fn.where(n)))
            n, f = f.call, f.up
        return list(reversed(out))


class Hooks:
    def call(self, sym, n, name, st, fr):
        """None, or list of (state, value)"""
        return None

    def inline(self, sym, fn, n, fr):
        return True

    def branch(self, sym, key, b, st, n, fr):
        return st

    def loop(self, sym, n, fr, entry, head, backs, changed, lid):
        pass

    def exits(self, sym, n, fr, head, outs, lid):
        pass

    def mark(self):
        """state of what the hooks recorded, restored before a loop body is looked at again"""
        return None

    def reset(self, mark):
        pass

    refelem = False       # elements of a range are references to the container's
    nosum = False         # loops are never summarised
    forget = False        # conditions decided inside a loop are forgotten after it

    def store(self, sym, loc, v, st, n, fr):
        """an assignment; True if it is taken care of"""

    def init(self, sym, v, st, fr):
        """value of a variable whose initialiser is not looked at, or None"""
        return None

    def result(self, sym, n, name, args, atom):
        """canonical value of an opaque call (atom is the default)"""
        return None


class Sym:
    def __init__(self, P, hooks=None, maxdepth=12):
        self.P = P
        self.T = Table()
        self._rngloc = {}
        self.h = hooks or Hooks()
        self.maxdepth = maxdepth
        self.maxjoin = 48
        self.deadline = None
        self.maxstates = MAXSTATES
        self.frames = {}
        self._loops = {}
        self.fresh = 0
        self.cur = None
        self.inlined = set()
        self.badloops = set()
        self._sub = {}

    # ------------------------------------------------------------ algebra
    def A(self, key, deps=frozenset(), unk=False):
        return ("m", Fraction(1), frozenset({(self.T.atom(key, deps, unk), 1)}))

    def unknown(self, why, deps=frozenset()):
        self.fresh += 1
        return self.A(("unk", why, self.fresh), deps, True)

    def deps(self, v):
        if v[0] == "m":
            r = frozenset()
            for a, e in v[2]:
                r |= self.T.deps[a]
            return r
        if v[0] == "r":
            r = frozenset() if v[2] is None else self.T.deps[v[2]]
            for k, x in v[3]:
                r |= self.deps(x)
            return r
        return frozenset()

    def has_unknown(self, v):
        acc = set()
        if v[0] in "mr":
            self._collect(v, acc)
        return any(self.T.unk[a] or self.T.keys[a][0] in ("h", "mod", "after") for a in acc)

    def atom_of(self, v):
        """intern a value as one atom id"""
        if v[0] == "m" and v[1] == 1 and len(v[2]) == 1:
            (a, e), = v[2]
            if e == 1:
                return a
        return self.T.atom(("val", v), self.deps(v))

    def terms(self, v):
        """dict mono -> coef of a value seen as a sum"""
        if v[0] != "m":
            return {frozenset({(self.atom_of(v), 1)}): Fraction(1)}
        if v[1] == 0:
            return {}
        if len(v[2]) == 1:
            (a, e), = v[2]
            k = self.T.keys[a]
            if e == 1 and k[0] == "+":
                return {m: c * v[1] for c, m in k[1]}
        return {v[2]: v[1]}

    def from_terms(self, d):
        d = {m: c for m, c in d.items() if c != 0}
        if not d:
            return ZERO
        if len(d) == 1:
            (m, c), = d.items()
            return ("m", c, m)
        # canonical: divide by the coefficient of a distinguished term
        first = min(d, key=lambda m: (0 if not m else 1, sorted(m)))
        c0 = d[first]
        ts = frozenset((c / c0, m) for m, c in d.items())
        dep = frozenset()
        for m in d:
            for a, e in m:
                dep |= self.T.deps[a]
        return ("m", c0, frozenset({(self.T.atom(("+", ts), dep), 1)}))

    def add(self, a, b, sign=1):
        d = dict(self.terms(a))
        for m, c in self.terms(b).items():
            d[m] = d.get(m, Fraction(0)) + sign * c
        return self.from_terms(d)

    def num(self, v):
        return v if v[0] == "m" else ("m", Fraction(1), frozenset({(self.atom_of(v), 1)}))

    def mul(self, a, b, eb=1):
        a, b = self.num(a), self.num(b)
        if eb > 0 and (a[1] == 0 or b[1] == 0) or a[1] == 0:
            return ZERO
        if b[1] == 0:
            return self.unknown("div0", self.deps(a))
        d = dict(a[2])
        for x, e in b[2]:
            d[x] = d.get(x, 0) + e * eb
            if d[x] == 0:
                del d[x]
        return ("m", a[1] * (b[1] if eb > 0 else 1 / b[1]), frozenset(d.items()))

    def div(self, a, b):
        return self.mul(a, b, -1)

    def neg(self, a):
        a = self.num(a)
        return ("m", -a[1], a[2])

    def expand(self, v, lim=400):
        """(numerator terms, denominator terms) fully multiplied out; None if too large"""
        v = self.num(v)
        if v[1] == 0:
            return {}, {frozenset(): Fraction(1)}
        num, den = {frozenset(): v[1]}, {frozenset(): Fraction(1)}
        for a, e in sorted(v[2]):
            k = self.T.keys[a]
            if k[0] == "+":
                fn, fd = {}, {frozenset(): Fraction(1)}
                # terms may have negative exponents: bring them to a common denominator
                common = {}
                for c, m in k[1]:
                    for x, ex in m:
                        if ex < 0:
                            common[x] = max(common.get(x, 0), -ex)
                for c, m in k[1]:
                    mm = dict(m)
                    for x, ex in common.items():
                        mm[x] = mm.get(x, 0) + ex
                        if mm[x] == 0:
                            del mm[x]
                    mk = frozenset(mm.items())
                    fn[mk] = fn.get(mk, 0) + c
                fd = {frozenset(common.items()): Fraction(1)}
                # nested sums
                nested = any(self.T.keys[x][0] == "+" for m in fn for x, ex in m) or any(self.T.keys[x][0] == "+" for x in common)
                if nested:
                    tot_n, tot_d = {}, {frozenset(): Fraction(1)}
                    for m, c in fn.items():
                        en, ed = self.expand(("m", c, m), lim)
                        tot_n = _padd(_pmul(tot_n, ed, lim), _pmul(en, tot_d, lim))
                        tot_d = _pmul(tot_d, ed, lim)
                    en, ed = self.expand(("m", Fraction(1), frozenset(common.items())), lim)
                    fn, fd = _pmul(tot_n, ed, lim), _pmul(tot_d, en, lim)
            else:
                fn, fd = {frozenset({(a, 1)}): Fraction(1)}, {frozenset(): Fraction(1)}
            for _ in range(abs(e)):
                if e > 0:
                    num, den = _pmul(num, fn, lim), _pmul(den, fd, lim)
                else:
                    num, den = _pmul(num, fd, lim), _pmul(den, fn, lim)
        return num, den

    def equal(self, a, b):
        if a == b:
            return True
        if a[0] != "m" or b[0] != "m":
            return False
        an, ad = self.expand(a)
        bn, bd = self.expand(b)
        return _pmul(an, bd, 4000) == _pmul(bn, ad, 4000)

    def show(self, v, depth=0):
        if v[0] == "m":
            if v[1] == 0:
                return "0"
            parts = ([] if v[1] == 1 and v[2] else [str(v[1])]) + ["%s%s" % (self.show_atom(a, depth), "" if e == 1 else "^%d" % e) for a, e in sorted(v[2])]
            return "*".join(parts)
        if v[0] == "r":
            return "{%s}" % ", ".join("%s:%s" % (k, self.show(x, depth + 1)) for k, x in v[3])
        return {"n": "none", "l": "lambda"}.get(v[0], "?")

    def show_atom(self, a, depth=0):
        k = self.T.keys[a]
        if depth > 4:
            return "…"
        if k[0] == "+":
            return "(" + " + ".join(self.show(("m", c, m), depth + 1) for c, m in k[1]) + ")"
        if k[0] == "f":
            return "%s.%s" % (self.show_atom(k[1], depth + 1), k[2])
        if k[0] == "call":
            return "%s(%s)" % (k[1].split("::")[-1], ", ".join(self.show(x, depth + 1) for x in k[2]))
        if k[0] == "par":
            return k[1]
        if k[0] == "this":
            return "this"
        if k[0] == "g":
            return str(k[1]).split("@")[-1]
        if k[0] == "val":
            return self.show(k[1], depth + 1)
        if k[0] == "sum":
            return "sum_i<%s(%s)" % (self.show(k[1], depth + 1), self.show(k[2], depth + 1))
        if k[0] in ("s", "h", "rnd"):
            return k[0] + str(k[-1])[-40:]
        if k[0] in ("vec", "pos", "eq", "nz", "abs", "idiv", "mod", "idx", "sqrt"):
            return "%s(%s)" % (k[0], ", ".join(self.show(x, depth + 1) if isinstance(x, tuple) and x and x[0] in "mrnl" else str(x)[:20] for x in k[1:]))
        return str(k)[:50]

    # ------------------------------------------------------------ records
    def field(self, v, name):
        if v[0] == "r":
            for k, x in v[3]:
                if k == name:
                    return x
            if v[2] is not None:
                return self.A(("f", v[2], name), self.T.deps[v[2]])
            return self.A(("uninit", v[1], name))
        if v[0] == "m":
            if iszero(v):
                return ZERO
            if isinstance(name, int):
                i = name
                if len(v[2]) == 1 and v[1] == 1:
                    (a, e), = v[2]
                    k = self.T.keys[a]
                    if k[0] == "vec" and e == 1 and i < len(k) - 1:
                        return k[1 + i]
                if isconst(v):
                    return v
                return self.A(("f", self.atom_of(v), i), self.deps(v))
            return self.A(("f", self.atom_of(v), name), self.deps(v))
        return self.unknown("field")

    def setfield(self, v, path, x):
        if not path:
            return x
        nm = path[0]
        if isinstance(nm, tuple):
            # element of a container changed: the container is a new value
            return self.A(("upd", self.atom_of(v), self.atom_of(self.num(x)) if x[0] in "mr" else 0, path[1:]), self.deps(v) | self.deps(x))
        if v[0] == "r":
            d = dict(v[3])
            d[nm] = self.setfield(self.field(v, nm), path[1:], x)
            return ("r", v[1], v[2], tuple(sorted(d.items(), key=lambda z: str(z[0]))))
        if v[0] == "m" and isinstance(nm, int):
            return self.A(("setc", self.atom_of(v), nm, x), self.deps(v) | self.deps(x))
        if v[0] == "m":
            base = self.atom_of(v)
            d = {nm: self.setfield(self.field(v, nm), path[1:], x)}
            return ("r", "?", base, tuple(sorted(d.items(), key=lambda z: str(z[0]))))
        return self.unknown("setfield", self.deps(x))

    # ------------------------------------------------------------ memory
    def frame(self, fn, this, lex, cid, up, call, dyn):
        key = (fn.key, cid)
        fid = self.frames.setdefault(key, len(self.frames))
        return Fr(fn, this, lex, cid, fid, (up.depth + 1) if up else 0, up, call, dyn)

    def owner(self, fr, d):
        f = fr
        while f is not None:
            if d in f.fn.vars or any(p["d"] == d for p in f.fn.params):
                return f
            f = f.lex
        return None

    def loc_decl(self, n, fr):
        d = n["d"]
        if n.get("dk") == "tls":
            return (("tls", d), ())
        f = self.owner(fr, d)
        if f is None:
            return (("ext", d), ())
        return (("v", f.id, d), ())

    def deref(self, loc, st):
        """follow reference variables"""
        base, path = loc
        seen = 0
        while base in st.env and st.env[base][0] == "ref" and seen < 10:
            tgt = st.env[base][1]
            base, path = tgt[0], tgt[1] + path
            seen += 1
        return base, path

    def read(self, loc, st):
        base, path = self.deref(loc, st)
        v = st.env.get(base)
        if v is None:
            if base == ("this",):
                v = self.A(("this",))
            elif base[0] == "val":
                v = base[1]
            else:
                v = self.A(("uninit", base))
        for p in path:
            v = self.field(v, p) if not isinstance(p, tuple) else self.index(v, p[1])
        return v

    def write(self, loc, v, st):
        base, path = self.deref(loc, st)
        if base[0] == "val":
            return st
        old = st.env.get(base)
        if old is None:
            old = self.A(("this",)) if base == ("this",) else self.A(("uninit", base))
        return st.set(base, self.setfield(old, path, v))

    # ------------------------------------------------------------ lvalues
    def bare(self, n):
        while n is not None and (n["k"] in ("ParenExpr",) or n["k"] == "Cast" and n.get("ckk") in ("NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase")) and kids(n):
            n = kids(n)[0]
        return n

    def lv(self, n, st, fr):
        """location of an lvalue expression, or None; pure (indices are not evaluated)"""
        n = self.bare(n)
        if n is None:
            return None
        k = n["k"]
        if k == "DeclRefExpr":
            dk = n.get("dk")
            if dk in ("local", "param", "tls", "static_local"):
                return self.deref(self.loc_decl(n, fr), st)
            if dk == "binding":
                return self.deref(self.loc_decl(n, fr), st)
            return None
        if k == "CXXThisExpr":
            return fr.this if fr.this is not None and fr.this[0] != "V" else None
        if k == "MemberExpr" and n.get("dk") == "field":
            c = kids(n)
            b = self.lv(c[0], st, fr) if c else None
            if b is None:
                return None
            if not n.get("n") or n["n"] in ("data",) and "glm" in n.get("cls", ""):
                return b
            nm = XYZ[n["n"]] if "glm::" in n.get("cls", "") and n["n"] in XYZ else n["n"]
            return (b[0], b[1] + (nm,))
        if k == "OpCall" and n.get("op") in ("->", "*") and n.get("cls"):
            return self.lv(n["c"][0], st, fr)
        if k == "UnOp" and n.get("op") in ("*", "&"):
            return self.lv(n["c"][0], st, fr)
        if k == "OpCall" and n.get("op") == "[]" or k == "ArraySubscriptExpr":
            b = self.lv(n["c"][0], st, fr)
            if b is None:
                return None
            i = self.bare(n["c"][1])
            if "glm::vec" in n.get("cls", "") and i is not None and i["k"] == "Int":
                return (b[0], b[1] + (int(i["v"]),))
            return (b[0], b[1] + (("[]", self.pure(i, st, fr)),))
        if k == "MCall" and n.get("mname") in ("value", "at", "back", "front", "get"):
            b = self.lv(n["c"][0], st, fr)
            if b is None:
                return None
            if n["mname"] in ("value", "get"):
                return b
            i = self.pure(n["c"][1], st, fr) if n["mname"] == "at" and len(n["c"]) > 1 else self.A(("end", n["mname"]))
            return (b[0], b[1] + (("[]", i),))
        return None

    def pure(self, n, st, fr):
        """value of an index expression whose effects do not matter here"""
        r = self.ev(n, st, fr)
        vs = {v for s, v in r}
        if len(vs) == 1:
            return vs.pop()
        return self.unknown("index")

    def index_effects(self, n, st, fr):
        """the state after the increments inside the indices of an lvalue expression"""
        n = self.bare(n)
        if n is None or not n.get("c"):
            return st
        k = n["k"]
        st = self.index_effects(n["c"][0], st, fr) if n["c"][0] is not None else st
        if k == "ArraySubscriptExpr" or k == "OpCall" and n.get("op") == "[]" or k == "MCall" and n.get("mname") == "at":
            i = n["c"][1] if len(n["c"]) > 1 else None
            if i is not None and any(x["k"] == "UnOp" and x.get("op") in ("++", "--") for x in walk(i)):
                ss = {s for s, v in self.ev(i, st, fr)}
                if len(ss) != 1:
                    raise GiveUp("an index with several effects")
                st = ss.pop()
        return st

    # ------------------------------------------------------------ conditions
    def nzkey(self, v):
        return ("nz", frozenset(a for a, e in v[2] if e > 0))

    def known_nz(self, v, st):
        pos = [a for a, e in v[2] if e > 0]
        if not pos:
            return True
        k = self.nzkey(v)
        if k in st.facts:
            return st.facts[k]
        if len(pos) == 1 and ("rcv", pos[0]) in st.facts:
            return True
        vals = [st.facts.get(("nz", frozenset({a}))) for a in pos]
        if any(x is False for x in vals):
            return False
        if all(x is True for x in vals):
            return True
        return None

    def decide(self, v, st, n, fr):
        """[(state, bool)] truth of a value"""
        if v[0] == "n":
            return [(st, False)]
        if v[0] != "m":
            return [(st, True)]
        if not v[2]:
            return [(st, v[1] != 0)]
        if len(v[2]) == 1:
            (a, e), = v[2]
            k = self.T.keys[a]
            if k[0] == "not":
                return [(s, not b) for s, b in self.decide(k[1], st, n, fr)]
            if k[0] == "eq":
                return self.decide_eq(k[1], k[2], st, n, fr)
            if k[0] in ("pos", "eng"):
                return self.fork(("c", a), st, n, fr, k)
        r = self.known_nz(v, st)
        if r is not None:
            return [(st, r)]
        return self.fork(self.nzkey(v), st, n, fr, None)

    def fork(self, key, st, n, fr, akey):
        if key in st.facts:
            return [(st, st.facts[key])]
        if akey is not None and akey[0] == "pos":
            # the opposite strict inequality
            o = self.T.ids.get(("pos", self.neg(akey[1])))
            if o is not None and st.facts.get(("c", o)) is True:
                return [(st, False)]
        r = self.implied(key, st)
        if r is not None:
            return [(st, r)]
        out = []
        for b in (True, False):
            s = self.h.branch(self, akey or key, b, st.fact(key, b), n, fr)
            if s is not None:
                out.append((s, b))
        return out

    def linear(self, v):
        """(atom, coefficient, constant) of a value linear in one atom"""
        x, c, d = None, None, Fraction(0)
        for m, k in self.terms(v).items():
            if not m:
                d = k
                continue
            if x is not None or len(m) != 1:
                return None
            (x, e), = m
            if e != 1:
                return None
            c = k
        return (x, c, d) if x is not None else None

    def implied(self, key, st):
        """truth of a condition on one quantity that the comparisons of that quantity with constants decided so far settle"""
        if key[0] == "c" and self.T.keys[key[1]][0] == "pos":
            l = self.linear(self.T.keys[key[1]][1])
        elif key[0] == "eq" and isconst(key[2]):
            l = self.linear(key[1])
        else:
            return None
        if l is None:
            return None
        x = l[0]
        lo = hi = None            # (bound, strict)
        ne = set()
        for k, b in st.facts.items():
            if k[0] == "c" and self.T.keys[k[1]][0] == "pos":
                m = self.linear(self.T.keys[k[1]][1])
                if m is None or m[0] != x:
                    continue
                t = -m[2] / m[1]
                if (m[1] > 0) == b:
                    if lo is None or (t, b) > lo:
                        lo = (t, b)          # x > t or x >= t
                else:
                    if hi is None or (t, not b) < hi:
                        hi = (t, not b)      # (bound, closed)
            elif k[0] == "eq" and isconst(k[2]):
                m = self.linear(k[1])
                if m is None or m[0] != x:
                    continue
                t = (k[2][1] - m[2]) / m[1]
                if b:
                    lo, hi = (t, False), (t, True)
                    break
                ne.add(t)
            elif k[0] == "nz" and not b and k[1] == frozenset({x}):
                lo, hi = (Fraction(0), False), (Fraction(0), True)
                break
        if lo is None and hi is None:
            return None
        t = -l[2] / l[1] if key[0] == "c" else (key[2][1] - l[2]) / l[1]
        if key[0] == "c":
            if l[1] > 0:          # x > t
                if lo is not None and (lo[0] > t or lo[0] == t and lo[1]):
                    return True
                if hi is not None and hi[0] <= t:
                    return False
            else:                 # x < t
                if hi is not None and (hi[0] < t or hi[0] == t and not hi[1]):
                    return True
                if lo is not None and lo[0] >= t:
                    return False
            return None
        if lo is not None and (lo[0] > t or lo[0] == t and lo[1]) or hi is not None and (hi[0] < t or hi[0] == t and not hi[1]):
            return False
        if lo is not None and hi is not None and lo[0] == hi[0] == t and not lo[1] and hi[1]:
            return True
        return None

    def decide_eq(self, a, b, st, n, fr):
        # a: atom value, b: value (constants on the right)
        d = self.add(a, b, -1)
        if isconst(d):
            return [(st, d[1] == 0)]
        if iszero(b):
            return [(s, not t) for s, t in self.decide(a, st, n, fr)]
        key = ("eq", a, b)
        if key in st.facts:
            return [(st, st.facts[key])]
        if isconst(b):
            for k, t in st.facts.items():
                if t and k[0] == "eq" and k[1] == a and isconst(k[2]) and k[2] != b:
                    return [(st, False)]
        return self.fork(key, st, n, fr, key)

    def truth(self, n, st, fr):
        n = self.bare(n)
        k = n["k"]
        if k == "BinOp" and n["op"] in ("&&", "||"):
            out = []
            for s, b in self.truth(n["c"][0], st, fr):
                if (n["op"] == "&&") != b:
                    out.append((s, b))
                else:
                    out += self.truth(n["c"][1], s, fr)
            return out
        if k == "UnOp" and n["op"] == "!":
            return [(s, not b) for s, b in self.truth(n["c"][0], st, fr)]
        out = []
        for s, v in self.ev(n, st, fr):
            out += self.decide(v, s, n, fr)
        return self.dd(out)

    def dd(self, xs):
        """drop duplicate (state, x)"""
        seen, out = set(), []
        for s, x in xs:
            k = (s.key(), x)
            if k not in seen:
                seen.add(k)
                out.append((s, x))
        if len(out) > self.maxstates:
            raise GiveUp("too many states")
        if self.deadline and time.monotonic() > self.deadline:
            raise GiveUp("too much time")
        return out

    # ------------------------------------------------------------ expressions
    def is_int(self, t):
        return self.P.ty(self.P.strip_ref(t)).get("s", "").replace("const ", "") in (
            "int", "long", "long long", "unsigned int", "unsigned long", "unsigned long long", "short", "unsigned short", "char", "bool", "size_t", "std::size_t")

    def compare(self, op, a, b, ints):
        if op in ("==", "!="):
            a, b = (self.num(x) if x[0] == "r" else x for x in (a, b))
            if a == NONE or b == NONE:
                o = b if a == NONE else a
                r = ONE if o == NONE else (ZERO if o[0] == "r" else self.bnot(self.A(("eng", self.atom_of(o)), self.deps(o))))
                return r if op == "==" else self.bnot(r)
            d = self.add(a, b, -1)
            if isconst(d):
                r = ONE if d[1] == 0 else ZERO
            else:
                if isconst(a):
                    a, b = b, a
                elif not isconst(b) and str(b) < str(a):
                    a, b = b, a
                if iszero(b):
                    r = self.bnot(a) if ints == "bool" else self.A(("eq", a, b), self.deps(a))
                else:
                    r = self.A(("eq", a, b), self.deps(a) | self.deps(b))
            return r if op == "==" else self.bnot(r)
        if op in (">", ">="):
            a, b = b, a
            op = {">": "<", ">=": "<="}[op]
        if op == "<=" and not ints:
            return self.bnot(self.compare("<", b, a, ints))
        d = self.add(b, a, -1)
        if op == "<=":
            d = self.add(d, ONE)
        if isconst(d):
            return ONE if d[1] > 0 else ZERO
        d = ("m", Fraction(1 if d[1] > 0 else -1), d[2])
        return self.A(("pos", d), self.deps(d))

    def bnot(self, v):
        if isconst(v):
            return ONE if v[1] == 0 else ZERO
        if v == NONE:
            return ONE
        if v[0] != "m":
            return ZERO
        if len(v[2]) == 1:
            (a, e), = v[2]
            k = self.T.keys[a]
            if k[0] == "not":
                return k[1]
        return self.A(("not", v), self.deps(v))

    def evs(self, ns, st, fr):
        """evaluate several expressions: [(state, [values])]"""
        cur = [(st, [])]
        for n in ns:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(n, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
            if len(cur) > self.maxstates:
                raise GiveUp("too many states")
        return cur

    def is_mat(self, n):
        return "glm::mat<" in self.P.tstr(n.get("t", -1)) or "glm::qua<" in self.P.tstr(n.get("t", -1))

    def ev(self, n, st, fr):
        if n is None:
            return [(st, ONE)]
        k = n["k"]
        c = n.get("c", [])
        if k == "Int":
            return [(st, const(int(n["v"])))]
        if k == "Flt":
            return [(st, const(Fraction(str(n["v"])) if str(n["v"]) not in ("inf", "nan", "-inf") else 0))]
        if k == "Bool":
            return [(st, ONE if n["v"] else ZERO)]
        if k in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
            return [(st, ZERO)]
        if k == "CXXNullPtrLiteralExpr" or k == "GNUNullExpr":
            return [(st, ZERO)]
        if k == "Str":
            return [(st, self.A(("str", n.get("v"))))]
        if k == "Cast":
            if n.get("ckk") == "ToVoid":
                return [(s, ZERO) for s, v in self.ev(c[0], st, fr)]
            if n.get("ckk") in ("FloatingToIntegral",):
                return [(s, v if isconst(v) and v[1].denominator == 1 else self.A(("trunc", v), self.deps(v))) for s, v in self.ev(c[0], st, fr)]
            if not c:
                return [(st, self.unknown("cast"))]
            if n.get("ckk") == "NoOp" and self.is_int(n.get("t", -1)) and c[0].get("t") is not None and not self.is_int(c[0]["t"]) and self.P.tstr(c[0]["t"]).replace("const ", "") in ("double", "float"):
                return [(s, v if isconst(v) and v[1].denominator == 1 else self.A(("trunc", v), self.deps(v))) for s, v in self.ev(c[0], st, fr)]
            return self.ev(c[0], st, fr)
        if k in ("ParenExpr", "MaterializeTemporaryExpr", "ExprWithCleanups"):
            return self.ev(c[0], st, fr)
        if k == "DeclRefExpr":
            return [(st, self.ev_decl(n, st, fr))]
        if k == "CXXThisExpr":
            if fr.this is None:
                return [(st, self.A(("this",)))]
            return [(st, fr.this[1] if fr.this[0] == "V" else self.read(fr.this, st))]
        if k == "MemberExpr":
            return self.ev_member(n, st, fr)
        if k == "UnOp":
            return self.ev_unop(n, st, fr)
        if k == "BinOp":
            return self.ev_binop(n, n["op"], c, st, fr)
        if k == "CAssign":
            return self.ev_assign(n, n["op"], c[0], c[1], st, fr)
        if k == "ConditionalOperator":
            out = []
            for s, b in self.truth(c[0], st, fr):
                out += self.ev(c[1] if b else c[2], s, fr)
            return self.dd(out)
        if k == "BinaryConditionalOperator":
            return [(st, self.unknown("?:"))]
        if k == "InitList":
            return self.ev_initlist(n, st, fr)
        if k == "Construct":
            return self.ev_construct(n, st, fr)
        if k == "Lambda":
            cur = [st]
            for cap in n.get("caps", ()):
                if cap.get("init") is not None and cap.get("d"):
                    cur = [s2.set(("v", fr.id, cap["d"]), v) for s in cur for s2, v in self.ev(cap["init"], s, fr)]
            return [(s, ("l", n["id"], fr.id, self.keep(n, fr))) for s in cur]
        if k in ("Call", "MCall", "OpCall"):
            return self.ev_call(n, st, fr)
        if k == "ArraySubscriptExpr":
            return [(s, self.index(vs[0], vs[1])) for s, vs in self.evs(c[:2], st, fr)]
        if k == "Throw":
            return []
        if k == "Var":
            return [(s, ZERO) for s in self.vardecl(n, st, fr)]
        if k == "UnaryExprOrTypeTraitExpr":
            return [(st, const(n["v"])) if isinstance(n.get("v"), int) else (st, self.unknown("sizeof"))]
        if k in ("ArrayInitLoopExpr",):
            return self.ev(c[0], st, fr) if c else [(st, self.unknown(k))]
        if k in ("OpaqueValueExpr",) and kids(n):
            return self.ev(kids(n)[0], st, fr)
        if k == "New":
            out = []
            for s, vs in self.evs([x for x in c if x], st, fr):
                self.fresh += 1
                out.append((s, self.A(("new", n["id"], fr.cid))))
            return out
        out = []
        for s, vs in self.evs([x for x in c if x and x["k"] not in ("CompoundStmt",)], st, fr):
            d = frozenset()
            for v in vs:
                d |= self.deps(v)
            out.append((s, self.A(("x", k, n.get("op"), tuple(vs)), d) if vs else self.unknown(k)))
        return out

    _lam = None

    def keep(self, n, fr):
        if self._lam is None:
            self._lam = {}
        self._lam[(n["id"], fr.id)] = (n, fr)
        return 0

    def ev_decl(self, n, st, fr):
        dk = n.get("dk")
        if dk == "enum":
            return const(n["v"])
        if dk in ("local", "param", "tls", "binding", "static_local"):
            return self.read(self.loc_decl(n, fr), st)
        if n.get("n") == "nullopt":
            return NONE
        if dk == "func":
            return self.A(("fn", n.get("d")))
        return self.A(("g", n.get("d") or n.get("qn")))

    def ev_member(self, n, st, fr):
        c = kids(n)
        if n.get("dk") != "field":
            if n.get("dk") == "enum":
                return [(st, const(n["v"]))]
            return [(st, self.A(("g", n.get("qn", n.get("n")))))]
        out = []
        for s, v in self.ev(c[0], st, fr):
            nm = n.get("n")
            if not nm or (nm == "data" and "glm" in n.get("cls", "")):
                out.append((s, v))
                continue
            if "glm::" in n.get("cls", "") and nm in XYZ:
                nm = XYZ[nm]
            out.append((s, self.field(v, nm)))
        return out

    def index(self, v, i):
        if isconst(i) and i[1].denominator == 1:
            if v[0] == "m":
                return self.field(v, int(i[1]))
        return self.A(("idx", v, i), self.deps(v) | self.deps(i))

    def ev_unop(self, n, st, fr):
        op = n["op"]
        c = n["c"]
        if op == "!":
            return [(s, ONE if b else ZERO) for s, b in self.truth(n, st, fr)] if self.bare(c[0])["k"] == "BinOp" and self.bare(c[0])["op"] in ("&&", "||") else \
                [(s, self.bnot(v)) for s, v in self.ev(c[0], st, fr)]
        if op == "-":
            return [(s, self.neg(v)) for s, v in self.ev(c[0], st, fr)]
        if op in ("+", "*", "&", "__extension__"):
            return self.ev(c[0], st, fr)
        if op in ("++", "--"):
            out = []
            for s, v in self.ev(c[0], st, fr):
                nv = self.add(v, ONE, 1 if op == "++" else -1)
                loc = self.lv(c[0], s, fr)
                if loc is not None:
                    s = self.write(loc, nv, s)
                out.append((s, v if n.get("post") else nv))
            return out
        return [(s, self.A(("un", op, v), self.deps(v))) for s, v in self.ev(c[0], st, fr)]

    def arith(self, op, a, b, n, mats=False):
        if a == NONE or b == NONE:
            return self.unknown("none")
        if mats and op in ("*", "/"):
            return self.A(("mat" + op, a, b), self.deps(a) | self.deps(b))
        if op == "+":
            return self.add(a, b)
        if op == "-":
            return self.add(a, b, -1)
        if op == "*":
            return self.mul(a, b)
        if op == "/":
            if self.is_int(n.get("t", -1)):
                if isconst(a) and isconst(b) and b[1] != 0:
                    return const(int(a[1] / b[1]))
                return self.A(("idiv", a, b), self.deps(a) | self.deps(b))
            return self.div(a, b)
        if op in ("&", "|", "^", "<<", ">>", "%") and isconst(a) and isconst(b):
            x, y = int(a[1]), int(b[1])
            if op == "%" and y:
                return const(x % y)
            if op != "%" and 0 <= y < 64:
                return const({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
        if op == "%":
            return self.add(a, self.mul(b, self.A(("idiv", a, b), self.deps(a) | self.deps(b))), -1)
        return self.A(("op", op, a, b), self.deps(a) | self.deps(b))

    def ev_binop(self, n, op, c, st, fr):
        if op in ("&&", "||"):
            return [(s, ONE if b else ZERO) for s, b in self.truth(n, st, fr)]
        if op == "=":
            return self.ev_assign(n, "=", c[0], c[1], st, fr)
        if op == ",":
            out = []
            for s, v in self.ev(c[0], st, fr):
                out += self.ev(c[1], s, fr)
            return out
        out = []
        mats = any(self.is_mat(x) for x in c[:2])
        for s, (a, b) in self.evs(c[:2], st, fr):
            if op in ("==", "!=", "<", "<=", ">", ">="):
                out.append((s, self.compare(op, a, b, self.is_int(c[0].get("t", -1)) and self.is_int(c[1].get("t", -1)))))
            else:
                out.append((s, self.arith(op, a, b, n, mats)))
        return out

    def ev_assign(self, n, op, lhs, rhs, st, fr):
        l = self.bare(lhs)
        out = []
        if l["k"] == "Call" and l.get("fn") == "std::tie" and op == "=":
            for s, v in self.ev(rhs, st, fr):
                for i, x in enumerate(l["c"][1:]):
                    loc = self.lv(x, s, fr)
                    if loc is not None:
                        s = self.write(loc, self.field(v, i), s)
                out.append((s, v))
            return out
        for s, v in self.ev(rhs, st, fr):
            if op != "=":
                pre = self.ev(lhs, s, fr)
                for s2, o in pre:
                    nv = self.arith(op[:-1], o, v, n, any(self.is_mat(x) for x in (lhs, rhs)))
                    loc = self.lv(lhs, s2, fr)
                    if loc is not None and self.h.store(self, loc, nv, s2, n, fr):
                        loc = None
                    out.append((self.write(loc, nv, s2) if loc is not None else s2, nv))
                continue
            loc = self.lv(lhs, s, fr)
            if loc is not None:
                s = self.index_effects(lhs, s, fr)
                out.append((s if self.h.store(self, loc, v, s, n, fr) else self.write(loc, v, s), v))
            else:
                for s2, _ in self.ev(lhs, s, fr):
                    out.append((s2, v))
        return out

    def ev_initlist(self, n, st, fr):
        c = [x for x in n.get("c", [])]
        flds = n.get("flds")
        cls = n.get("cls")
        out = []
        for s, vs in self.evs([x for x in c if x], st, fr):
            if flds and cls and "glm::" not in cls:
                d = {}
                for i, v in enumerate(vs):
                    if i < len(flds):
                        d[flds[i]] = v
                out.append((s, ("r", cls, None, tuple(sorted(d.items(), key=lambda z: str(z[0]))))))
            elif not vs:
                out.append((s, ZERO))
            elif len(vs) == 1:
                out.append((s, vs[0]))
            else:
                out.append((s, self.vec(vs)))
        return out

    def vec(self, vs):
        vs = [self.num(v) if v[0] in "mr" else self.unknown("vec") for v in vs]
        d = frozenset()
        for v in vs:
            d |= self.deps(v)
        if all(v == vs[0] for v in vs) and isconst(vs[0]):
            return vs[0]
        return self.A(("vec",) + tuple(vs), d)

    def ev_construct(self, n, st, fr):
        c = [x for x in n.get("c", []) if x and x["k"] != "DefaultArg"]
        rn = n.get("rn") or n.get("cls", "")
        if n.get("cm") in ("copy", "move") and c:
            return self.ev(c[0], st, fr)
        if rn == "std::optional":
            if not c:
                return [(st, NONE)]
            return self.ev(c[0], st, fr)
        if rn in ("glm::vec",):
            if not c:
                return [(st, ZERO)]
            return [(s, vs[0] if len(vs) == 1 else self.vec(vs)) for s, vs in self.evs(c, st, fr)]
        if rn in ("std::tuple", "std::pair", "std::array"):
            return [(s, ("r", rn, None, tuple((i, v) for i, v in enumerate(vs))) if vs else ZERO) for s, vs in self.evs(c, st, fr)]
        if rn in ("std::unique_ptr", "std::reference_wrapper", "std::function"):
            return self.ev(c[0], st, fr) if c else [(st, ZERO)]
        f = self.P.funcs.get(n.get("f"))
        rec = self.P.records.get(n.get("cls"))
        out = []
        for s, vs in self.evs(c, st, fr):
            if not vs:
                # default construction: default member initialisers only
                d = {}
                if rec is not None and rec.get("fields") is not None:
                    for fl in rec["fields"]:
                        if fl.get("init") and isinstance(fl["init"], dict):
                            try:
                                r = self.ev(fl["init"], s, fr)
                                if len(r) == 1:
                                    d[fl["n"]] = r[0][1]
                            except (KeyError, GiveUp):
                                pass
                out.append((s, ("r", n.get("cls"), None, tuple(sorted(d.items(), key=lambda z: str(z[0]))))))
            else:
                dep = frozenset()
                for v in vs:
                    dep |= self.deps(v)
                if len(vs) == 1 and rn.startswith("std::"):
                    out.append((s, vs[0]))
                else:
                    out.append((s, self.A(("ctor", n.get("cls"), tuple(vs)), dep)))
        return out

    # ------------------------------------------------------------ calls
    def stdcall(self, n, name, args, st, fr):
        """calls with a built-in meaning: value or None"""
        if name == 'lm::literals::operator""_f':
            return args[0]
        if name in IDENT_CALLS and args:
            return args[0]
        if name in ABS and len(args) == 1:
            v = args[0]
            if isconst(v):
                return const(abs(v[1]))
            if v[0] == "m":
                return self.A(("abs", ("m", abs(v[1]), v[2])), self.deps(v))
        if name in COMMUT:
            args = sorted(args, key=str)
            if name == "glm::dot":
                # signs and scalar constants move out of a dot product
                cf = Fraction(1)
                aa = []
                for a in args:
                    a = self.num(a)
                    if a[1] < 0:
                        cf, a = -cf, ("m", -a[1], a[2])
                    aa.append(a)
                args = sorted(aa, key=str)
                r = self.A(("call", name, tuple(args)), frozenset().union(*[self.deps(a) for a in args]))
                return ("m", cf, r[2])
            return self.A(("call", name, tuple(args)), frozenset().union(*[self.deps(a) for a in args]))
        if name.startswith("std::get"):
            ta = n.get("ta") or []
            return None
        return None

    def ev_call(self, n, st, fr):
        k = n["k"]
        c = n.get("c", [])
        name = n.get("fn", "")
        r = self.h.call(self, n, name, st, fr)
        if r is not None:
            return r
        if name in NORETURN:
            return []
        op = n.get("op") if k == "OpCall" else None
        if op is not None:
            if op == "=":
                return self.ev_assign(n, "=", c[0], c[1], st, fr)
            if op in ("+=", "-=", "*=", "/="):
                return self.ev_assign(n, op, c[0], c[1], st, fr)
            if op in ("+", "-", "*", "/") and len(c) == 2 and (name.startswith("glm::") or n.get("cls", "").startswith("glm::")):
                return [(s, self.arith(op, a, b, n, any(self.is_mat(x) for x in c))) for s, (a, b) in self.evs(c, st, fr)]
            if op == "-" and len(c) == 1:
                return [(s, self.neg(v)) for s, v in self.ev(c[0], st, fr)]
            if op in ("->", "*") and len(c) == 1 or op == "&" and len(c) == 1:
                return self.ev(c[0], st, fr)
            if op == "[]":
                return [(s, self.index(vs[0], vs[1])) for s, vs in self.evs(c[:2], st, fr)]
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return [(s, self.compare(op, a, b, False)) for s, (a, b) in self.evs(c[:2], st, fr)]
            if op == "()":
                out = []
                for s, f in self.ev(c[0], st, fr):
                    if f[0] == "l":
                        out += self.call_lambda(n, f, c[1:], s, fr)
                    else:
                        out += self.opaque(n, name, f, c[1:], s, fr)
                return self.dd(out)
        if k == "MCall":
            m = n.get("mname")
            if m in ("operator bool", "has_value") and c:
                out = []
                for s, v in self.ev(c[0], st, fr):
                    if v == NONE:
                        out.append((s, ZERO))
                    elif v[0] in "rl":
                        out.append((s, ONE))
                    elif n.get("cls", "").startswith("std::optional"):
                        if isconst(v):
                            out.append((s, ONE))
                        else:
                            out.append((s, self.A(("eng", self.atom_of(v)), self.deps(v))))
                    else:
                        out.append((s, v))
                return out
            if m in ("value", "get", "load") and n.get("cls", "").startswith("std::"):
                return self.ev(c[0], st, fr)
            if m == "at" and n.get("cls", "").startswith("std::") and len(c) > 1:
                return [(s, self.index(vs[0], vs[1])) for s, vs in self.evs(c[:2], st, fr)]
            if m in ("size", "length") and n.get("cls", "").startswith("std::"):
                return [(s, self.A(("size", self.atom_of(v)), self.deps(v)) if v[0] in "mr" else self.unknown("size")) for s, v in self.ev(c[0], st, fr)]
            if m in ("front", "back") and n.get("cls", "").startswith("std::"):
                return [(s, self.index(v, self.A(("end", m)))) for s, v in self.ev(c[0], st, fr)]
            if m and m.startswith("operator") and m[8:].strip() and m[8:].strip()[0].isalpha() and m != "operator bool" and n.get("cls", "").startswith("std::"):
                return self.ev(c[0], st, fr)     # conversion operators
        if name.startswith("std::get") and len(c) >= 2:
            i = n.get("tai")
            out = []
            for s, v in self.ev(c[1], st, fr):
                out.append((s, self.field(v, i) if isinstance(i, int) else self.A(("get", n.get("f"), v), self.deps(v))))
            return out
        f, dyn, this = self.callee(n, st, fr)
        if f is not None and f.body is not None and fr.depth < self.maxdepth and not any(x is f for x in self.stack(fr)) and self.h.inline(self, f, n, fr):
            return self.dd(self.call_fn(n, f, dyn, st, fr))
        obj = c[0] if k == "MCall" else (c[0] if op is not None and n.get("cls") else None)
        args = c[1:] if k in ("MCall", "Call") or obj is not None else c
        if obj is None:
            return self.opaque(n, name, None, args, st, fr)
        out = []
        for s, o in self.ev(obj, st, fr):
            out += self.opaque(n, name, o, args, s, fr)
        return out

    def stack(self, fr):
        f = fr
        while f is not None:
            yield f.fn
            f = f.up

    def callee(self, n, st, fr):
        P = self.P
        f = n.get("f")
        dyn = None
        if n.get("virt"):
            o = self.bare(n["c"][0]) if n.get("c") else None
            if o is not None and o["k"] == "CXXThisExpr" and fr.dyn:
                return P.funcs.get(P.dispatch(f, fr.dyn)), fr.dyn, None
            rec = P.rec_of(o["t"]) if o is not None and "t" in o else None
            r = P.records.get(rec)
            if r is not None and r.get("final"):
                return P.funcs.get(P.dispatch(f, rec)), rec, None
            return None, None, None
        if n["k"] == "MCall" and n.get("c") and self.bare(n["c"][0])["k"] == "CXXThisExpr":
            dyn = fr.dyn
        return P.funcs.get(f), dyn, None

    def bind_params(self, nf, f, args, st, fr, out_cb):
        """bind arguments to parameters; returns states"""
        P = self.P
        states = [st]
        for i, p in enumerate(f.params):
            a = args[i] if i < len(args) else None
            key = ("v", nf.id, p["d"])
            nxt = []
            for s in states:
                if a is None or a["k"] == "DefaultArg":
                    v = self.default_arg(a, p)
                    nxt.append(s.set(key, v))
                    continue
                t = P.ty(p["t"])
                if t["k"] in ("ref", "rref") and not P.tstr(t["to"]).startswith("const "):
                    loc = self.lv(a, s, fr)
                    if loc is not None:
                        nxt.append(s.set(key, ("ref", self.deref(loc, s))))
                        continue
                for s2, v in self.ev(a, s, fr):
                    nxt.append(s2.set(key, v))
            states = nxt
        return states

    def default_arg(self, a, p):
        v = a.get("v") if a is not None else None
        if a is not None and kids(a):
            r = None
        try:
            if v is not None:
                t = str(v)
                if t in ("true", "false"):
                    return ONE if t == "true" else ZERO
                return const(Fraction(t.rstrip("fF")))
        except (ValueError, ZeroDivisionError):
            pass
        return self.A(("defarg", str(v)))

    def call_fn(self, n, f, dyn, st, fr):
        c = n.get("c", [])
        k = n["k"]
        self.inlined.add(f.key)
        member = k == "MCall" or (k == "OpCall" and n.get("cls"))
        args = c[1:] if k in ("Call", "MCall") or member else c
        cid = self.cidof(fr, n)
        outs = []
        objs = [(st, None)]
        if member:
            loc = self.lv(c[0], st, fr)
            if loc is not None:
                objs = [(st, loc)]
            else:
                objs = [(s, ("V", v)) for s, v in self.ev(c[0], st, fr)]
        for s, this in objs:
            nf = self.frame(f, this, None, cid, fr, n, dyn)
            for s2 in self.bind_params(nf, f, args, s, fr, None):
                outs += self.run(nf, s2, keepenv=s.env)
        return outs

    def cidof(self, fr, n):
        return fr.cid + (n["id"],)

    def call_lambda(self, n, lam, args, st, fr):
        node, lfr = self._lam[(lam[1], lam[2])]
        keys = [node["f"]] + list(node.get("specs", ()))
        f = None
        for kx in [n.get("f")] + list(reversed(keys)):
            g = self.P.funcs.get(kx)
            if g is not None and g.body is not None and len(g.params) == len(args):
                f = g
                break
        if f is None or fr.depth >= self.maxdepth + 4 or any(x is f for x in self.stack(fr)):
            return self.opaque(n, "lambda", lam, args, st, fr)
        self.inlined.add(f.key)
        nf = self.frame(f, lfr.this, lfr, self.cidof(fr, n), fr, n, lfr.dyn)
        outs = []
        for s2 in self.bind_params(nf, f, args, st, fr, None):
            outs += self.run(nf, s2, keepenv=st.env)
        return outs

    def run(self, nf, st, keepenv=None):
        """execute a function body: [(state, return value)]"""
        outs = []
        pend = set(st.req)
        for s, fl in self.ex(nf.fn.body, st, nf):
            if fl == "n":
                outs.append((s, ZERO))
            elif fl[0] == "r":
                outs.append((s, fl[1]))
        # locals die; decisions whose outcomes both reach the end no longer constrain what follows
        res = []
        for s, v in outs:
            env = {k: x for k, x in s.env.items() if k in keepenv or k[0] not in ("v",)} if keepenv is not None else s.env
            res.append((S(env, s.facts, s.req), v))
        if keepenv is not None:
            res = self.dropreq(res, pend)
        return self.dd(res)

    def dropreq(self, res, base):
        """requirements of a random decision end where all its outcomes meet again"""
        seen = {}
        for s, v in res:
            for r in s.req:
                if r not in base:
                    seen.setdefault(r[0], set()).add(r[1])
        both = {e for e, outs in seen.items() if len(outs) > 1}
        # an event that some states never met (decided on only one side) also ends here
        for s, v in res:
            have = {r[0] for r in s.req}
            for e in seen:
                if e not in have:
                    both.add(e)
        if not both:
            return res
        return [(S(s.env, s.facts, frozenset(r for r in s.req if r[0] not in both)), v) for s, v in res]

    def opaque(self, n, name, obj, argn, st, fr):
        P = self.P
        f = P.funcs.get(n.get("f"))
        pts = n.get("pt") or ([p["t"] for p in f.params] if f is not None else [])
        out = []
        for s, args in self.evs([a for a in argn], st, fr):
            vals = ([obj] if obj is not None else []) + args
            vals = [v if v[0] in "mrn" else self.A(("lam", v[1], v[2])) for v in vals]
            v = self.stdcall(n, name, args, s, fr) if obj is None else None
            dep = frozenset()
            for x in vals:
                dep |= self.deps(x)
            fresh = False
            # effects on arguments
            for i, a in enumerate(argn):
                t = P.ty(pts[i]) if i < len(pts) else None
                if t is None or t["k"] != "ref" or P.tstr(t["to"]).startswith("const "):
                    continue
                if "RngImpl" in P.tstr(t["to"]):
                    fresh = True
                    continue
                loc = self.lv(a, s, fr)
                if loc is not None and name not in IDENT_CALLS and name != "std::tie":
                    s = self.write(loc, self.A(("mod", self.cidof(fr, n), i), dep), s)
            if obj is not None and n["k"] == "MCall":
                cls = n.get("cls", "")
                if "RngImpl" in cls:
                    v = self.A(("rnd", self.cidof(fr, n)))
                elif not n.get("mconst") and not n.get("mstatic"):
                    loc = self.lv(n["c"][0], s, fr)
                    if loc is not None and cls.startswith("std::") and n.get("mname") not in ("begin", "end", "data", "at", "front", "back", "find"):
                        s = self.write(loc, self.A(("mod", self.cidof(fr, n), "o"), dep), s)
            if v is None:
                key = ("call", name, tuple(vals)) if not fresh else ("call", name, tuple(vals), self.cidof(fr, n))
                a = self.A(key, dep)
                v = self.h.result(self, n, name, vals, a)
                if v is None:
                    v = a
            out.append((s, v))
        return out

    # ------------------------------------------------------------ declarations
    def vardecl(self, v, st, fr):
        P = self.P
        key = ("tls", v["d"]) if v.get("tls") or v.get("dk") == "tls" else ("v", fr.id, v["d"])
        init = (v.get("c") or [None])[0]
        t = P.ty(v["t"])
        if v.get("bind"):
            return self.bindings(v, key, init, st, fr)
        if init is None:
            return [st.set(key, self.A(("uninit", v["d"], fr.cid)))]
        x = self.h.init(self, v, st, fr)
        if x is not None:
            return [st.set(key, x)]
        if t["k"] in ("ref", "rref"):
            loc = self.lv(init, st, fr)
            if loc is not None:
                return [self.index_effects(init, st, fr).set(key, ("ref", self.deref(loc, st)))]
        out = []
        for s, x in self.ev(init, st, fr):
            out.append(s.set(key, x))
        return [s for s, _ in self.dd([(s, 0) for s in out])]

    def bindings(self, v, key, init, st, fr):
        out = []
        loc = self.lv(init, st, fr) if self.P.ty(v["t"])["k"] in ("ref", "rref") and init is not None else None
        for s, x in self.ev(init, st, fr):
            s = s.set(key, x)
            for i, b in enumerate(v["bind"]):
                e = b.get("e")
                nm = i
                if e is not None:
                    e = self.bare(e)
                    if e["k"] == "MemberExpr" and e.get("n"):
                        nm = e["n"]
                        if "glm::" in e.get("cls", "") and nm in XYZ:
                            nm = XYZ[nm]
                bk = ("v", fr.id, b["d"])
                if loc is not None:
                    s = s.set(bk, ("ref", (loc[0], loc[1] + (nm,))))
                else:
                    s = s.set(bk, self.field(x, nm) if x[0] in "mr" else self.unknown("bind"))
            out.append(s)
        return out

    # ------------------------------------------------------------ statements
    def ex(self, n, st, fr):
        """[(state, flow)], flow = 'n' | 'b' | 'c' | ('r', value)"""
        if n is None:
            return [(st, "n")]
        k = n["k"]
        c = n.get("c", [])
        if k == "CompoundStmt":
            cur = [(st, "n")]
            for x in c:
                nxt = []
                for s, fl in cur:
                    if fl == "n":
                        nxt += self.ex(x, s, fr)
                    else:
                        nxt.append((s, fl))
                cur = self.dd(nxt)
            return cur
        if k == "DeclStmt":
            cur = [st]
            for v in c:
                if v and v["k"] == "Var":
                    nxt = []
                    for s in cur:
                        nxt += self.vardecl(v, s, fr)
                    cur = nxt
            return [(s, "n") for s in cur]
        if k == "IfStmt":
            pre = self.ex(c[0], st, fr) if c[0] else [(st, "n")]
            out = []
            for s, fl in pre:
                ss = self.vardecl(c[1], s, fr) if c[1] else [s]
                for s1 in ss:
                    for s2, b in self.truth(c[2], s1, fr):
                        if b:
                            out += self.ex(c[3], s2, fr)
                        elif len(c) > 4 and c[4]:
                            out += self.ex(c[4], s2, fr)
                        else:
                            out.append((s2, "n"))
            norm = [(s, fl) for s, fl in out if fl == "n"]
            rest = [(s, fl) for s, fl in out if fl != "n"]
            if len(norm) == len(out):
                norm = self.dropreq(norm, st.req)
            else:
                norm = self.dropreq2(norm, st.req)
            return self.dd(self.compress(norm) + rest)
        if k == "ReturnStmt":
            x = kids(n)
            if not x:
                return [(st, ("r", ZERO))]
            return [(s, ("r", v)) for s, v in self.dd(self.ev(x[0], st, fr))]
        if k == "BreakStmt":
            return [(st, "b")]
        if k == "ContinueStmt":
            return [(st, "c")]
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(n, st, fr)
        if k == "SwitchStmt":
            return self.switch(n, st, fr)
        if k in ("CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            return self.ex(kids(n)[-1], st, fr) if kids(n) else [(st, "n")]
        if k == "CXXTryStmt":
            return self.ex(c[0], st, fr)
        if k in ("NullStmt", "GotoStmt"):
            return [(st, "n")]
        if k == "OMP":
            return self.ex(c[-1], st, fr) if c else [(st, "n")]
        return [(s, "n") for s, _ in self.dd([(s, 0) for s, v in self.ev(n, st, fr)])]

    def dropreq2(self, norm, base):
        """after an if some of whose branches leave: only drop decisions both of whose outcomes go on"""
        seen = {}
        for s, v in norm:
            for r in s.req:
                if r not in base:
                    seen.setdefault(r[0], set()).add(r[1])
        both = {e for e, outs in seen.items() if len(outs) > 1}
        if not both:
            return norm
        return [(S(s.env, s.facts, frozenset(r for r in s.req if r[0] not in both)), v) for s, v in norm]

    def compress(self, xs):
        """many states differing only in decided conditions: forget the differences"""
        if len(xs) <= self.maxjoin:
            return xs
        grp = {}
        for s, fl in xs:
            grp.setdefault((frozenset(s.env.items()), s.req, fl), []).append(s)
        out = []
        for (e, r, fl), ss in grp.items():
            f = dict(ss[0].facts)
            for s in ss[1:]:
                f = {k: v for k, v in f.items() if s.facts.get(k) == v and k in s.facts}
            out.append((S(ss[0].env, f, r), fl))
        return out

    def switch(self, n, st, fr):
        c = n["c"]
        out = []
        pre = self.ex(c[0], st, fr) if c[0] else [(st, "n")]
        body = c[3]
        items = body.get("c", []) if body and body["k"] == "CompoundStmt" else [body]
        # (labels, statement) sequence
        seq, hasdef = [], False
        for x in items:
            labs = []
            while x is not None and x["k"] in ("CaseStmt", "DefaultStmt"):
                labs.append(x.get("v") if x["k"] == "CaseStmt" else "default")
                x = kids(x)[-1] if kids(x) else None
            seq.append((labs, x))
        cases = [l for labs, x in seq for l in labs if l != "default"]
        for s0, fl in pre:
            for s1, v in self.ev(c[2], s0, fr):
                cur = s1
                entries = []
                nomatch = [s1]
                for l in cases:
                    nx = []
                    for s in nomatch:
                        for s2, b in (self.decide_eq(v, const(l), s, n, fr) if isinstance(l, int) else [(s, True), (s, False)]):
                            if b:
                                entries.append((l, s2))
                            else:
                                nx.append(s2)
                    nomatch = nx
                for s in nomatch:
                    entries.append(("default" if any("default" in labs for labs, x in seq) else None, s))
                for l, s in entries:
                    if l is None:
                        out.append((s, "n"))
                        continue
                    start = next(i for i, (labs, x) in enumerate(seq) if l in labs)
                    run = [(s, "n")]
                    for labs, x in seq[start:]:
                        nx = []
                        for s3, f3 in run:
                            nx += self.ex(x, s3, fr) if f3 == "n" else [(s3, f3)]
                        run = self.dd(nx)
                    out += [(s3, "n" if f3 == "b" else f3) for s3, f3 in run]
        return self.dd(out)

    # ------------------------------------------------------------ loops
    def loop(self, n, st, fr):
        k = n["k"]
        c = n["c"]
        lid = (n["id"], fr.cid, fr.fn.key)
        init, cond, inc, body, elem, cvar = None, None, None, None, None, None
        if k == "ForStmt":
            init, cond, inc, body = c[0], c[2], c[3], c[4]
        elif k == "WhileStmt":
            cvar, cond, body = c[0], c[1], c[2]
        elif k == "DoStmt":
            body, cond = c[0], c[1]
        else:
            body, elem = c[7], c[6]
        pre = self.ex(init, st, fr) if init is not None else [(st, "n")]
        out = []
        for s0, fl in pre:
            rngv = None
            if k == "CXXForRangeStmt":
                v = kids(c[1])[0] if c[1] and kids(c[1]) else None
                e = (v.get("c") or [None])[0] if v else None
                r = self.ev(e, s0, fr) if e is not None else [(s0, self.unknown("range"))]
                s0, rngv = r[0]
                self._rngloc[lid] = self.lv(e, s0, fr) if e is not None and self.h.refelem else None
            out += self.loop1(n, s0, fr, lid, cond, inc, body, elem, rngv, k, cvar)
        keep = set(st.env)
        res = []
        for s, f in out:
            env = {a: b for a, b in s.env.items() if a in keep or a[0] == "tls" or a[0] == "this"}
            res.append((S(env, s.facts, s.req), f))
        norm = self.dropreq([(s, f) for s, f in res if f == "n"], st.req)
        return self.dd(self.compress(norm) + [(s, f) for s, f in res if f != "n"])

    def head_value(self, lid, key, old, dirty):
        dep = {("OLD", lid)} if dirty else frozenset()
        return self.A(("h", lid, key, bool(dirty)), frozenset(dep))

    def loop1(self, n, s0, fr, lid, cond, inc, body, elem, rngv, k, cvar):
        changed = {}          # env key -> value depends on a random decision
        mark = self.h.mark()
        for it in range(8):
            self.h.reset(mark)
            head = s0
            for key, dirty in changed.items():
                if key in s0.env and s0.env[key][0] != "ref":
                    head = head.set(key, self.head_value(lid, key, s0.env[key], dirty))
                elif key not in s0.env:
                    head = head.set(key, self.head_value(lid, key, ZERO, dirty))
            exits, rets, backs = [], [], []
            tests = [(head, True)]
            if cond is not None and k != "DoStmt":
                hs = [head]
                if cvar is not None:
                    hs = [x for h in hs for x in self.vardecl(cvar, h, fr)]
                tests = [y for h in hs for y in self.truth(cond, h, fr)]
            elif k == "CXXForRangeStmt":
                tests = [(head, True), (head, False)]
            body_in = []
            for s, b in tests:
                if b:
                    body_in.append(s)
                else:
                    exits.append((s, "n"))
            for s in body_in:
                if k == "CXXForRangeStmt" and elem is not None:
                    s = self.bind_elem(elem, rngv, lid, s, fr)
                for s2, fl in self.ex(body, s, fr):
                    if fl in ("n", "c"):
                        backs.append(s2)
                    elif fl == "b":
                        exits.append((s2, "n"))
                    else:
                        rets.append((s2, fl))
            if inc is not None:
                backs = [s3 for s2 in backs for s3, _ in self.ev(inc, s2, fr)]
            if k == "DoStmt" and cond is not None:
                nb = []
                for s2 in backs:
                    for s3, b in self.truth(cond, s2, fr):
                        (nb.append(s3) if b else exits.append((s3, "n")))
                backs = nb
            backs = [s for s, _ in self.dd([(S({a: b for a, b in s.env.items() if a in head.env or a[0] in ("tls", "this")}, s.facts, s.req), 0) for s in backs])]
            new = dict(changed)
            for s in backs:
                for key, v in s.env.items():
                    hv = head.env.get(key)
                    if hv is not None and hv[0] == "ref":
                        continue
                    if v != hv:
                        d = bool(self.deps(v)) or (hv is not None and key in s0.env and bool(self.deps(s0.env[key]))) if v[0] in "mr" else False
                        if key not in new or (d and not new[key]):
                            new[key] = d or new.get(key, False)
                    elif key in new and not new[key] and key in s0.env and s0.env[key][0] in "mr" and self.deps(s0.env[key]):
                        new[key] = True
            if new == changed:
                break
            changed = new
        else:
            raise GiveUp("loop did not stabilise")
        sm = None if self.h.nosum else self.summarise(s0, head, backs, changed, exits, rets, rngv, k, lid)
        if sm is not None:
            return sm
        self.badloops.add(n["id"])
        self.h.loop(self, n, fr, s0, head, backs, changed, lid)
        self.h.exits(self, n, fr, head, exits + rets, lid)
        # after the loop the variables are whatever an iteration left: the head state covers it
        if self.h.forget:
            exits = [(S(s.env, {k: b for k, b in s.facts.items() if k in s0.facts}, s.req), f) for s, f in exits]
            exits = self.dd(exits)
        return exits + rets

    def summarise(self, s0, head, backs, changed, exits, rets, rngv, k, lid):
        """a loop that only adds a term per element: the accumulators become sums over the range"""
        if not backs or len(exits) != 1 or rets or k == "DoStmt":
            return None
        xs, xf = exits[0]
        heads = {}
        for key in changed:
            hv = head.env.get(key)
            if hv is None or hv[0] != "m" or len(hv[2]) != 1:
                return None
            heads[key] = next(iter(hv[2]))[0]
        # counters: the same step of one on every way round
        ctrs = {}
        for key in heads:
            st = {self.add(b.env[key], head.env[key], -1) for b in backs}
            if len(st) == 1 and next(iter(st)) in (ONE, const(-1)) and s0.env.get(key, NONE)[0] == "m" and self.key_is_int(key):
                ctrs[key] = next(iter(st))
        n = None
        idx = {}            # head atom -> value in terms of the bound variable
        BV = lambda lvl: self.A(("bv", lvl))
        if k == "CXXForRangeStmt":
            if rngv is None or rngv[0] not in "mr":
                return None
            n = self.A(("size", self.atom_of(rngv)))
            idx[self.T.atom(("el#", lid))] = ZERO
            for key, d in ctrs.items():
                if d != ONE:
                    return None
                idx[heads[key]] = s0.env[key]
        else:
            ext = [f for f in xs.facts if f not in head.facts and f[0] != "rcv"]
            if len(ext) != 1 or ext[0][0] != "c" or self.T.keys[ext[0][1]][0] != "pos" or xs.facts[ext[0]] is not False:
                return None
            d = self.T.keys[ext[0][1]][1]
            for key, step in ctrs.items():
                if not self.mentions(d, {heads[key]}):
                    continue
                h, s = head.env[key], s0.env[key]
                if step == ONE and iszero(s):
                    nn = self.add(d, h)                 # h < N
                    if not self.mentions(nn, set(heads.values())):
                        n, idx = nn, {heads[key]: ZERO}
                elif step != ONE and self.add(d, h, -1) == ONE:
                    n, idx = self.add(s, ONE), {heads[key]: ZERO}     # from N-1 down while h >= 0
            if n is None:
                return None
            if len(ctrs) > 1:
                base = next(iter(idx))
                up = next(st for key, st in ctrs.items() if heads[key] == base)
                for key, st in ctrs.items():
                    if heads[key] != base:
                        if st != up or not iszero(s0.env[key]) or up != ONE:
                            return None
                        idx[heads[key]] = ZERO
        accs = [key for key in heads if heads[key] not in idx]
        hset = {heads[key] for key in accs}
        env = dict(xs.env)
        for key in heads:
            if key not in accs:
                env[key] = self.A(("after", lid, key))
        for key in accs:
            ts = [(b, self.add(b.env[key], head.env[key], -1)) for b in backs]
            full = max((t for b, t in ts), key=lambda t: 0 if iszero(t) else 1)
            for b, t in ts:
                if self.mentions(t, hset):
                    return None
                if t == full:
                    continue
                # a way round that adds nothing because a factor of the term is zero
                zero = [f for f, v in b.facts.items() if f[0] == "nz" and v is False]
                if not iszero(t) or full[0] != "m" or not any(set(f[1]) <= {a for a, e in full[2] if e > 0} for f in zero):
                    return None
            # conditions decided on the way round must not restrict what is added
            if len({t for b, t in ts}) == 1 and len(backs) == 1:
                extra = [f for f in backs[0].facts if f not in head.facts and f[0] != "rcv" and f not in xs.facts]
                if extra:
                    return None
            t = full
            lvl = 0
            while self.mentions(t, {self.T.atom(("bv", lvl))}):
                lvl += 1
            t = self.subst(t, {a: self.add(v, BV(lvl)) for a, v in idx.items()})
            env[key] = self.add(s0.env.get(key, ZERO), self.A(("sum", n, t), self.deps(t)))
        return [(S(env, s0.facts, s0.req), "n")]

    def key_is_int(self, key):
        for fr_key, fid in self.frames.items():
            if key[0] == "v" and fid == key[1]:
                f = self.P.funcs.get(fr_key[0])
                v = f.vars.get(key[2]) if f is not None else None
                if v is not None:
                    return self.is_int(v["t"])
        return False

    def raw(self, d):
        return d

    def mentions(self, v, atoms):
        if v[0] == "m":
            return any(self.amentions(a, atoms) for a, e in v[2])
        if v[0] == "r":
            return (v[2] is not None and self.amentions(v[2], atoms)) or any(self.mentions(x, atoms) for k, x in v[3])
        return False

    def amentions(self, a, atoms):
        if a in atoms:
            return True
        ck = ("am", a)
        return any(x in atoms for x in self.subatoms(a))

    def subatoms(self, a):
        """every atom occurring inside an atom"""
        r = self._sub.get(a)
        if r is None:
            self._sub[a] = frozenset()
            acc = {a}
            self._collect(self.T.keys[a], acc)
            r = self._sub[a] = frozenset(acc)
        return r

    def _collect(self, x, acc):
        k = x[0] if isinstance(x, tuple) and x else None
        if k in ("f", "upd", "el", "setc", "size") and len(x) > 1 and isinstance(x[1], int):
            acc |= self.subatoms(x[1])
            rest = x[2:]
            if k == "upd" and len(x) > 2 and isinstance(x[2], int):
                acc |= self.subatoms(x[2])
            for y in rest:
                self._collect(y, acc)
            return
        if k == "eng":
            acc |= self.subatoms(x[1])
            return
        if k == "m" and len(x) == 3 and isinstance(x[2], frozenset):
            for a, e in x[2]:
                acc |= self.subatoms(a)
            return
        if k == "r" and len(x) == 4:
            if x[2] is not None:
                acc |= self.subatoms(x[2])
            for kk, y in x[3]:
                self._collect(y, acc)
            return
        if k == "+":
            for c, m in x[1]:
                for a, e in m:
                    acc |= self.subatoms(a)
            return
        if k in ("h", "el#", "par", "g", "this", "uninit", "unk", "rnd", "new", "any", "str", "fn", "mod", "bv"):
            return
        if isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    self._collect(y, acc)

    def subst(self, v, m):
        """replace atoms by values"""
        if not self.mentions(v, set(m)):
            return v
        if v[0] == "m":
            r = ("m", v[1], frozenset())
            for a, e in v[2]:
                r = self.mul(r, self.power(self.subst_atom(a, m), e))
            return r
        if v[0] == "r":
            base = v[2]
            if base is not None:
                nb = self.subst_atom(base, m)
                base = self.atom_of(nb)
            return ("r", v[1], base, tuple((k, self.subst(x, m)) for k, x in v[3]))
        return v

    def power(self, v, e):
        r = ONE
        for _ in range(abs(e)):
            r = self.mul(r, v, 1 if e > 0 else -1)
        return r

    def subst_atom(self, a, m):
        if a in m:
            return m[a]
        if not (self.subatoms(a) & set(m)):
            return ("m", Fraction(1), frozenset({(a, 1)}))
        k = self.T.keys[a]
        if k[0] == "+":
            r = ZERO
            for c, mono in k[1]:
                r = self.add(r, self.subst(("m", c, mono), m))
            return r
        if k[0] == "f":
            return self.field(self.subst_atom(k[1], m), k[2])
        return self.A(self._subkey(k, m), self.T.deps[a])

    def _subkey(self, x, m):
        k = x[0] if isinstance(x, tuple) and x else None
        if k in ("upd", "el", "setc", "size", "eng") and len(x) > 1 and isinstance(x[1], int):
            return (k, self.atom_of(self.subst_atom(x[1], m))) + tuple(self._subkey(y, m) if isinstance(y, tuple) else y for y in x[2:])
        if (k == "m" and len(x) == 3) or (k == "r" and len(x) == 4):
            return self.subst(x, m)
        if k in ("h", "el#", "par", "g", "this", "uninit", "unk", "rnd", "new", "any", "str", "fn", "mod", "bv"):
            return x
        if isinstance(x, tuple):
            return tuple(self._subkey(y, m) if isinstance(y, tuple) else y for y in x)
        return x

    def bind_elem(self, elem, rngv, lid, s, fr):
        v = kids(elem)[0] if elem["k"] == "DeclStmt" and kids(elem) else elem
        if v is None or v["k"] != "Var":
            return s
        if rngv is not None and rngv[0] in "mr":
            x = self.index(rngv, self.A(("el#", lid)))
        else:
            x = self.A(("el#", lid))
        loc = self._rngloc.get(lid)
        if loc is not None and self.P.ty(v["t"])["k"] == "ref" and not v.get("bind"):
            return s.set(("v", fr.id, v["d"]), ("ref", (loc[0], loc[1] + (("[]", self.A(("el#", lid))),))))
        s = s.set(("v", fr.id, v["d"]), x)
        for i, b in enumerate(v.get("bind", ())):
            e = self.bare(b["e"]) if b.get("e") else None
            nm = e["n"] if e is not None and e["k"] == "MemberExpr" and e.get("n") else i
            s = s.set(("v", fr.id, b["d"]), self.field(x, nm))
        return s

    # ------------------------------------------------------------ entry
    def start(self, fn, dyn=None, args=None, st=None, this=(("this",), ())):
        """run fn with symbolic (or given) arguments: [(state, value)]"""
        nf = self.frame(fn, this if fn.cls and not fn.get("static") else this, None, ("root", fn.key), None, None, dyn)
        st = st or S({}, {})
        for i, p in enumerate(fn.params):
            v = args[i] if args is not None and i < len(args) and args[i] is not None else self.A(("par", p.get("n") or "arg%d" % i, fn.key))
            st = st.set(("v", nf.id, p["d"]), v)
        keep = {} if not st else {k: 1 for k in st.env if k[0] in ("this", "tls")}
        return self.run(nf, st, keepenv=keep)


def _pmul(a, b, lim):
    if len(a) * len(b) > lim * 20:
        raise GiveUp("polynomial too large")
    r = {}
    for m, c in a.items():
        for m2, c2 in b.items():
            d = dict(m)
            for x, e in m2:
                d[x] = d.get(x, 0) + e
                if d[x] == 0:
                    del d[x]
            k = frozenset(d.items())
            r[k] = r.get(k, 0) + c * c2
            if r[k] == 0:
                del r[k]
    return r


def _padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if r[m] == 0:
            del r[m]
    return r
