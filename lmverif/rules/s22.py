"""S22: the scene graph and the ray intersection answer with the geometry that was put into the scene."""
import random
from fractions import Fraction

from ..core import *
from ..prog import kids, walk
from ..sym import Sym, S, GiveUp, ONE, ZERO, const, isconst
from .s17 import same, enum
from .s21 import AH, unit, ranges, atoms_in, elem, extra, show_cond, katoms, method, par

ITER = ("traverse_primitive_nodes", "foreach_triangle", "create_primitives", "foreach_node")


class SH(AH):
    """runs the functions passed to the iterations over nodes and triangles, and one step of a recursion"""

    def __init__(self, P, stop=(), opaque=()):
        AH.__init__(self, P, stop)
        self.opaque = opaque
        self.active = []

    def inline(self, sym, fn, n, fr):
        if fn.qn.split("::")[-1] in self.opaque and fn.key not in self.active:
            return False
        return AH.inline(self, sym, fn, n, fr)

    def store(self, sym, loc, v, st, n, fr):
        self.ev(sym, "store", loc, (v,), st, n, fr)
        return None

    def body(self, sym, lam, tag, st, n, fr, given=()):
        """run a lambda once with arguments that stand for any"""
        node, lfr = sym._lam[(lam[1], lam[2])]
        f = self.P.funcs.get(node["f"])
        nf = sym.frame(f, lfr.this, lfr, sym.cidof(fr, n), fr, n, lfr.dyn)
        # any turn of the iteration: how much was added before is not known
        s2 = S(st.env, {k: b for k, b in st.facts.items() if k[0] not in ("pushed", "cleared")}, st.req)
        for i, p in enumerate(f.params):
            s2 = s2.set(("v", nf.id, p["d"]), sym.A(("par", "%s#%d" % (tag, i), "any")))
        return f, sym.run(nf, s2, keepenv=st.env)

    def added(self, st, loc):
        """(emptied before, number of elements added) on the way to this state"""
        return st.facts.get(("cleared", loc), False), st.facts.get(("pushed", loc), 0)

    def grow(self, st, loc, n):
        f = dict(st.facts)
        if n is None:
            f[("cleared", loc)], f[("pushed", loc)] = True, 0
        else:
            f[("pushed", loc)] = f.get(("pushed", loc), 0) + 1 if isinstance(f.get(("pushed", loc), 0), int) else "many"
        return S(st.env, f, st.req)

    def call(self, sym, n, name, st, fr):
        P = self.P
        if n["k"] == "MCall" and n.get("mname") in ITER:
            out = []
            for s, vs in sym.evs(n["c"], st, fr):
                self.ev(sym, "iter:" + n["mname"], None, (vs[0],), s, n, fr)
                if len(vs) < 2 or vs[1][0] != "l":
                    raise GiveUp("an iteration over something that is not a lambda")
                f, r = self.body(sym, vs[1], n["mname"], s, n, fr)
                # what the function leaves behind may depend on every node
                s3 = s
                for s2, v in r:
                    for k in s2.facts:
                        if k[0] == "pushed":
                            fs = dict(s3.facts)
                            fs[k] = "many"
                            s3 = S(s3.env, fs, s3.req)
                    for k, x in s2.env.items():
                        if k in s.env and s.env[k] != x:
                            s3 = s3.set(k, sym.A(("after", n["mname"], k[-1] if isinstance(k[-1], str) else "this", sym.cidof(fr, n))))
                            self.ev(sym, "accum", k, (s.env[k], x), s2, n, fr)
                out.append((s3, ZERO))
            return out
        if n["k"] == "MCall" and (n.get("cls") or "").startswith("std::vector") and n.get("mname") in ("push_back", "emplace_back", "clear", "size"):
            loc = sym.lv(n["c"][0], st, fr)
            if loc is not None and loc[0] == ("this",) and len(loc[1]) == 1:
                if n["mname"] == "size":
                    cl, k = self.added(st, loc)
                    if not cl and k == 0:
                        return AH.call(self, sym, n, name, st, fr)
                    if k == "many":
                        return [(st, sym.A(("after", "size", loc[1][0], sym.cidof(fr, n))))]
                    base = ZERO if cl else sym.A(("size", atom(this_field(sym, loc[1][0]))))
                    return [(st, sym.add(base, const(k)))]
                return [(self.grow(s, loc, 1 if n["mname"] != "clear" else None), v) for s, v in AH.call(self, sym, n, name, st, fr)]
        if n["k"] == "MCall" and n.get("mname") in ("push", "emplace") and (n.get("cls") or "").startswith(("std::queue", "std::stack", "std::priority_queue")):
            out = []
            for s, vs in sym.evs([a for a in n["c"][1:] if a["k"] != "DefaultArg"], st, fr):
                self.ev(sym, n["mname"], sym.lv(n["c"][0], s, fr), vs, s, n, fr)
                out.append((s, ZERO))
            return out
        if n["k"] == "Call" and name == "std::swap" and len(n["c"]) == 3:
            out = []
            for s, vs in sym.evs(n["c"][1:], st, fr):
                la, lb = sym.lv(n["c"][1], s, fr), sym.lv(n["c"][2], s, fr)
                if la is None or lb is None:
                    raise GiveUp("an exchange of something unknown")
                out.append((sym.write(lb, vs[0], sym.write(la, vs[1], s)), ZERO))
            return out
        if n["k"] == "OpCall" and n.get("op") == "()":
            out = []
            for s, vs in sym.evs(n["c"], st, fr):
                if vs[0][0] != "l":
                    return AH.call(self, sym, n, name, st, fr)
                key = sym._lam[(vs[0][1], vs[0][2])][0]["f"]
                if key in self.active:
                    self.ev(sym, "recurse", key, vs[1:], s, n, fr)
                    out.append((s, ZERO))
                    continue
                if not self.recursive(key):
                    return None
                self.ev(sym, "enter", key, vs[1:], s, n, fr)
                self.active.append(key)
                self.body(sym, vs[0], "node", s, n, fr)
                self.active.pop()
                out.append((s, ZERO))
            return out
        if n["k"] in ("MCall", "Call") and n.get("f") in P.funcs and P.funcs[n["f"]].file.startswith(P.root):
            key = n["f"]
            f = P.funcs[key]
            if key in self.active or f.body is not None and self.recursive(key):
                args = [a for a in (n["c"][1:])]
                out = []
                for s, vs in sym.evs(args, st, fr):
                    if key in self.active:
                        self.ev(sym, "recurse", key, vs, s, n, fr)
                    else:
                        self.ev(sym, "enter", key, vs, s, n, fr)
                        self.active.append(key)
                        nf = sym.frame(f, fr.this, None, sym.cidof(fr, n), fr, n, fr.dyn)
                        s2 = s
                        for i, p in enumerate(f.params):
                            s2 = s2.set(("v", nf.id, p["d"]), sym.A(("par", "node#%d" % i, "any")))
                        sym.run(nf, s2, keepenv=s.env)
                        self.active.pop()
                    out.append((s, ZERO))
                return out
        return AH.call(self, sym, n, name, st, fr)

    def recursive(self, key):
        P = self.P
        f = P.funcs.get(key)
        if f is None or f.body is None:
            return False
        if not f.is_lambda:
            return any(x.get("f") == key for x in walk(f.body) if x["k"] in ("MCall", "Call"))
        # a lambda that calls the std::function it is stored in
        return any(x["k"] == "OpCall" and x.get("op") == "()" and (x.get("fn") or "").startswith("std::function<") and kids(x) and P_bare(x["c"][0]).get("dk") in ("local", "param", None)
                   and P_bare(x["c"][0])["k"] == "DeclRefExpr" and P_bare(x["c"][0]).get("dk") == "local" for x in walk(f.body))


def P_bare(n):
    while n["k"] in ("Cast", "ParenExpr", "ImplicitCastExpr") and kids(n):
        n = kids(n)[0]
    return n


def atom(v):
    """the single atom a value is, or None"""
    return next(iter(v[2]))[0] if v[0] == "m" and v[1] == 1 and len(v[2]) == 1 and next(iter(v[2]))[1] == 1 else None


def fld(sym, v, *path):
    for p in path:
        v = sym.field(v, p)
    return v


def this_field(sym, name):
    return sym.field(sym.A(("this",)), name)


def strings(sym, v):
    """string constants a value is made from"""
    return {sym.T.keys[a][1] for a in atoms_in(sym, v) if sym.T.keys[a][0] == "str"}


class Rule:
    def __init__(self, R, P, cls):
        self.R, self.P, self.cls = R, P, cls
        self.label = cls.split("::")[-1]

    def run(self, name, npar=None, opaque=(), stop=()):
        f = method(self.P, self.cls, name, npar)
        if f is None or not f.file.startswith(self.P.root):
            raise GiveUp("no %s()" % name)
        h = SH(self.P, stop, opaque)
        sym = Sym(self.P, h)
        outs = sym.start(f, self.cls)
        return f, h, sym, outs

    def each(self, parts):
        for p in parts:
            try:
                getattr(self, p)()
                self.R.count("parts analysed")
            except GiveUp as e:
                self.R.notes.append("%s.%s: %s" % (self.label, p, e))
                self.R.count("parts not decided")

    def transformed(self, sym, v, M, p, what, key, where, tr, w=True, unit=False):
        """v is M applied to the point (w) or to the direction p"""
        x = v
        if unit:
            k = sym.T.keys[atom(v)] if atom(v) is not None else None
            if k is not None and k[0] == "call" and k[1].split("::")[-1] == "normalize":
                x = k[2][0]
            else:
                self.R.oblige(False, key, "%s is %s, not a normalized direction" % (what, sym.show(v)), where, tr)
                return
        want = sym.A(("mat*", M, sym.A(("vec", p, ONE)) if w else p))
        if same(sym, x, want):
            self.R.oblige(True, key, "", where, tr, sample="%s = %s" % (what, sym.show(v)))
            return
        at = atoms_in(sym, x)
        ok = atom(M) in at and (atom(p) in at or p[0] != "m")
        k = sym.T.keys[atom(x)] if atom(x) is not None else None
        if ok and not (k is not None and k[0] == "mat*"):
            self.R.notes.append("%s: %s not recognised" % (key, what))
            self.R.count("transforms not decided")
            return
        self.R.oblige(False, key, "%s is %s, not the point transformed by %s" % (what, sym.show(v), sym.show(M)), where, tr)


# ------------------------------------------------------------------------------------------------ the scene
class SceneRule(Rule):
    def check(self):
        R, P = self.R, self.P
        R.count("scenes")
        try:
            f, h, sym, outs = self.run("create_group_node")
        except GiveUp as e:
            R.notes.append("%s: %s" % (self.label, e))
            return
        ev = [e for e in h.events if e[0] in ("push_back", "emplace_back") and e[1][0] == ("this",) and len(e[1][1]) == 1]
        if not ev:
            R.notes.append("%s: create_group_node() adds nothing recognisable" % self.label)
            return
        self.nodes = ev[0][1][1][0]
        self.role = {}
        for what in ("camera_node", "env_light_node", "medium_node"):
            try:
                f, h, sym, outs = self.run(what)
            except GiveUp:
                continue
            for s, v in outs:
                a = atom(v)
                k = sym.T.keys[a] if a is not None else None
                while k is not None and k[0] != "f" and len(k) > 1 and isinstance(k[1], int):
                    k = sym.T.keys[k[1]]
                if k is not None and k[0] == "f" and sym.T.keys[k[1]] == ("this",):
                    self.role[what] = k[2]
        self.each(["creation", "primitive", "from_model", "children", "traversal", "lights", "intersection", "lookup"])

    def size(self, sym):
        return sym.A(("size", atom(this_field(sym, self.nodes))))

    def pushes(self, h):
        out = []
        cleared = False
        for e in h.events:
            if e[1] is None or e[1] == () or not isinstance(e[1], tuple) or len(e[1]) != 2 or e[1] != (("this",), (self.nodes,)):
                continue
            if e[0] == "clear":
                cleared = True
            elif e[0] in ("push_back", "emplace_back"):
                out.append((e, cleared))
        return out

    def creation(self):
        """a node is added under the index it is told and returned"""
        R, P = self.R, self.P
        for f in P.by_cls.get(self.cls, ()):
            nm = f.qn.split("::")[-1]
            if f.body is None or f.is_lambda or f.get("ctor") or nm in ("~" + self.label,):
                continue
            try:
                h = SH(P)
                sym = Sym(P, h)
                outs = sym.start(f, self.cls)
            except GiveUp as e:
                R.notes.append("%s::%s: %s" % (self.label, nm, e))
                R.count("functions not decided")
                continue
            R.count("scene functions")
            ps = self.pushes(h)
            if not ps:
                continue
            loc = (("this",), (self.nodes,))
            for e, cleared in ps:
                v = e[2][0]
                ix = sym.field(v, "index") if v[0] == "r" else None
                if v[0] != "r" or atom(sym.A(("par", "foreach_node#0", "any"))) in atoms_in(sym, ix):
                    continue            # a copy of a node of a model: from_model
                R.count("nodes added")
                cl, cnt = h.added(S({}, e[3]), loc)
                if not isinstance(cnt, int):
                    R.count("nodes not decided")
                    continue
                want = sym.add(ZERO if cl else self.size(sym), const(cnt))
                R.oblige(same(sym, ix, want), "index:%s::%s" % (self.label, nm), "%s::%s() adds a node under index %s, but its place in %s is %s" % (
                    self.label, nm, sym.show(ix), self.nodes, sym.show(want)), e[4], e[5], sample="%s::%s adds node %s" % (self.label, nm, sym.show(ix)))
            if nm.startswith("create_"):
                for s, v in outs:
                    cl, cnt = h.added(s, loc)
                    if v[0] != "m" or cnt == 0:
                        continue
                    # the first node added, unless the nodes of a model were
                    want = ZERO if cl else self.size(sym)
                    R.oblige(same(sym, v, want), "returned:%s::%s" % (self.label, nm), "%s::%s() returns %s, but the node is added at %s" % (self.label, nm, sym.show(v), sym.show(want)), f.where())
            if nm == "create_group_node":
                for e, cleared in ps:
                    lt = fld(sym, e[2][0], "group", "local_transform")
                    R.oblige(same(sym, lt, par(sym, f, 0)), "transform:%s" % nm, "%s() stores %s as the transform of the group" % (nm, sym.show(lt) if lt[0] in "mr" else lt), e[4], e[5])

    def primitive(self):
        """a primitive node refers to the assets given under the names of its fields"""
        R, P = self.R, self.P
        f, h, sym, outs = self.run("create_primitive_node")
        KIND = ("mesh", "material", "light", "camera", "medium")
        vals = {}
        for e, _ in self.pushes(h):
            if e[2][0][0] != "r":
                continue
            pr = sym.field(e[2][0], "primitive")
            for k in KIND:
                v = sym.field(pr, k)
                if v[0] == "m" and isconst(v):
                    continue
                ss = strings(sym, v) & set(KIND)
                R.count("primitive fields")
                R.oblige(ss == {k}, "asset:%s" % k, "create_primitive_node() takes the %s of the node from the option %s" % (k, ", ".join(sorted(ss)) or "of no name"), e[4], e[5], sample="%s <- %s" % (k, sym.show(v)))
                vals.setdefault(k, set()).add(v)
        # the scene's camera, environment light and medium
        for what, kind, member in (("camera_node", "camera", None), ("medium_node", "medium", None), ("env_light_node", "light", "is_env")):
            m = self.role.get(what)
            if m is None:
                R.count("parts not decided")
                continue
            stores = [e for e in h.events if e[0] == "store" and e[1] == (("this",), (m,))]
            R.oblige(bool(stores), "role:%s" % what, "create_primitive_node() never sets what %s() returns" % what, f.where())
            for e in stores:
                R.oblige(same(sym, e[2][0], self.size(sym)), "role:%s" % what, "create_primitive_node() sets what %s() returns to %s, not to the index of the node" % (what, sym.show(e[2][0])), e[4], e[5])
            for e, _ in self.pushes(h):
                facts = e[3]
                given = None
                for k, b in facts.items():
                    ss = set()
                    for a in katoms(sym, k):
                        if sym.T.keys[a][0] == "str":
                            ss.add(sym.T.keys[a][1])
                    isenv = any(sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1] == "is_env" for a in katoms(sym, k))
                    if ss & set(KIND) != {kind} or isenv != (member is not None):
                        continue
                    if k[0] == "eq":
                        continue          # whether the option is present
                    given = b if given is None else given and b
                if given is None:
                    if member is None:
                        continue
                    given = False
                # stores on this path: those whose conditions are part of the path's
                done = any(all(facts.get(k) == b for k, b in s[3].items() if k[0] in ("c", "nz", "eq")) for s in stores)
                R.count("roles of primitives")
                R.oblige(done == given, "role:%s" % what, "create_primitive_node(): a node %s %s, and what %s() returns is %s" % (
                    "with" if given else "without", "an environment light" if member else "a " + kind, what, "not set to it" if given else "set to it"), e[4], e[5])

    def from_model(self):
        """nodes copied from a model refer to each other by the places they are copied to"""
        R = self.R
        f, h, sym, outs = self.run("create_group_from_model")
        size = self.size(sym)
        node = sym.A(("par", "foreach_node#0", "any"))
        ps = self.pushes(h)
        R.oblige(bool(ps), "copy", "create_group_from_model() copies no node", f.where())
        for e, _ in ps:
            R.count("nodes added")
            if e[2][0][0] == "m" and (same(sym, e[2][0], node) or atom(e[2][0]) is not None and sym.T.keys[atom(e[2][0])][0] == "par"):
                R.oblige(same(sym, e[2][0], node), "copy", "create_group_from_model() adds %s, not the node of the model" % sym.show(e[2][0]), e[4], e[5])
            ex = [k for k in e[3] if k[0] in ("c", "nz", "eq") and atom(node) in katoms(sym, k)]
            if ex and exhaustive([{k: b for k, b in q[3].items() if k[0] in ("c", "nz", "eq") and atom(node) in katoms(sym, k)} for q, _ in ps]):
                ex = []
            R.oblige(not ex, "copy", "create_group_from_model() copies a node only when %s: the indices of the nodes after it are no longer their places" % "; ".join(show_cond(sym, k, e[3][k]) for k in ex), e[4], e[5])
        idx = ch = 0
        for e in h.events:
            if e[0] != "store" or e[1] is None:
                continue
            path = e[1][1]
            el = elem(e[1])
            if path and path[-1] == "index" and (el is not None and el[0] == (("this",), (self.nodes,)) or e[1][0] != ("this",)):
                idx += 1
                old = [a for a in atoms_in(sym, e[2][0]) if sym.T.keys[a][0] == "f" and sym.T.keys[a][2] == "index"]
                R.oblige(len(old) == 1 and same(sym, e[2][0], sym.add(size, ("m", Fraction(1), frozenset({(old[0], 1)})))) if old else False, "offset:index", "create_group_from_model() gives the copied node the index %s, not its place, %s plus its index in the model" % (sym.show(e[2][0]), sym.show(size)), e[4], e[5])
                ex = [k for k in e[3] if k[0] in ("c", "nz", "eq") and self.about_node(sym, k, node)]
                R.oblige(not ex, "offset:index", "create_group_from_model() moves the index of a node only when %s" % "; ".join(show_cond(sym, k, e[3][k]) for k in ex), e[4], e[5])
            elif len(path) >= 2 and "children" in path and isinstance(path[-1], tuple):
                ch += 1
                d = sym.add(e[2][0], size, -1)
                k = sym.T.keys[atom(d)] if atom(d) is not None else None
                R.oblige(k is not None and k[0] == "idx", "offset:children", "create_group_from_model() stores the child %s, not the model's child moved by %s" % (sym.show(e[2][0]), sym.show(size)), e[4], e[5])
        whole = any(e[2][0][0] == "r" for e, _ in ps)
        if whole and (not idx or not ch):
            R.count("parts not decided")
            return
        R.oblige(idx > 0, "offset:index", "create_group_from_model() leaves the model's index in the copied node", f.where())
        R.oblige(ch > 0, "offset:children", "create_group_from_model() leaves the model's indices of children in the copied node", f.where())
        for e in h.events:
            if e[0] == "store" and e[1] == (("this",), (self.role.get("camera_node"),)):
                R.oblige(atom(size) in atoms_in(sym, e[2][0]), "offset:camera", "create_group_from_model() takes %s for the camera, which is not moved by %s" % (sym.show(e[2][0]), sym.show(size)), e[4], e[5])

    def about_node(self, sym, k, node):
        for a in katoms(sym, k):
            kk = sym.T.keys[a]
            if a == atom(node) or kk[0] == "idx":
                return True
        return False

    def children(self):
        R = self.R
        f, h, sym, outs = self.run("add_child")
        p, c = par(sym, f, 0), par(sym, f, 1)
        ev = [e for e in h.events if e[0] in ("push_back", "emplace_back")]
        R.oblige(bool(ev), "child", "add_child() adds nothing", f.where())
        for e in ev:
            el = elem(e[1])
            R.count("children added")
            ok = el is not None and el[0] == (("this",), (self.nodes,)) and same(sym, el[1], p) and el[2] == ("group", "children")
            R.oblige(ok and same(sym, e[2][0], c), "child", "add_child(parent, child) adds %s to the children of node %s" % (sym.show(e[2][0]), sym.show(el[1]) if el else "?"), e[4], e[5])
        f, h, sym, outs = self.run("add_child_from_model")
        p = par(sym, f, 0)
        for e in h.events:
            if e[0] not in ("push_back", "emplace_back"):
                continue
            el = elem(e[1])
            if el is not None:
                R.count("children added")
                R.oblige(same(sym, el[1], p) and el[2] == ("group", "children") and same(sym, e[2][0], self.size(sym)), "child:model", "add_child_from_model() adds %s to the children of node %s" % (sym.show(e[2][0]), sym.show(el[1])), e[4], e[5])
            elif e[2][0][0] == "r":
                pr = sym.field(e[2][0], "primitive")
                for i, k in enumerate(("mesh", "material", "light")):
                    v = sym.field(pr, k)
                    want = sym.A(("par", "create_primitives#%d" % i, "any"))
                    R.oblige(atom(want) in atoms_in(sym, v), "asset:model:%s" % k, "add_child_from_model() makes %s the %s of the node" % (sym.show(v), k), e[4], e[5])

    def traversal(self):
        """every node under the root is reached with the product of the transforms above it"""
        R, P = self.R, self.P
        f, h, sym, outs = self.run("traverse_primitive_nodes")
        GROUP = enum(P, "lm::SceneNodeType", "Group")
        enter = [e for e in h.events if e[0] == "enter"]
        rec = [e for e in h.events if e[0] == "recurse"]
        cb = [e for e in h.events if e[0] == "callback"]
        if len(enter) != 1 or not cb:
            raise GiveUp("no recursion over the nodes")
        if any(len(e[2]) < 2 for e in enter + rec):
            raise GiveUp("arguments of the recursion")
        # which argument is the index, which the transform
        g = P.funcs.get(enter[0][1])
        ii = [i for i, p in enumerate(g.params) if P.tstr(p["t"]) in ("int", "const int")]
        im = [i for i, p in enumerate(g.params) if "mat<4" in P.tstr(p["t"])]
        if len(ii) != 1 or len(im) != 1:
            raise GiveUp("arguments of the recursion")
        ii, im = ii[0], im[0]
        e = enter[0]
        R.oblige(same(sym, e[2][ii], ZERO), "root", "traverse_primitive_nodes() starts at node %s, not at the root" % sym.show(e[2][ii]), e[4], e[5])
        k = sym.T.keys[atom(e[2][im])] if atom(e[2][im]) is not None else None
        ident = k is not None and k[0] == "ctor" and "mat<4, 4" in k[1] and len(k[2]) == 1 and same(sym, k[2][0], ONE)
        R.oblige(ident or same(sym, e[2][im], ONE), "root:transform", "traverse_primitive_nodes() starts with the transform %s, not with the identity" % sym.show(e[2][im]), e[4], e[5])
        index = sym.A(("par", "node#%d" % ii, "any"))
        G = sym.A(("par", "node#%d" % im, "any"))
        node = sym.index(this_field(sym, self.nodes), index)
        for c in cb:
            R.count("traversal steps")
            v = [x for x in c[2]]
            R.oblige(len(v) == 2 and same(sym, v[0], node) and same(sym, v[1], G), "visit", "traverse_primitive_nodes() passes on %s, not the node and the product of the transforms above it" % ", ".join(sym.show(x) if x[0] in "mr" else "?" for x in v), c[4], c[5])
        # visited on every path: the callbacks' conditions cover all
        cond = [{k: b for k, b in c[3].items() if k[0] in ("c", "nz", "eq")} for c in cb]
        R.oblige(any(not x for x in cond) or exhaustive(cond), "visit:always", "traverse_primitive_nodes() passes a node on only when %s" % "; ".join(show_cond(sym, k, b) for k, b in (cond[0] if cond else {}).items()), cb[0][4], cb[0][5])
        rng = ranges(sym, h)
        lt = fld(sym, node, "group", "local_transform")
        ch = fld(sym, node, "group", "children")
        R.oblige(bool(rec), "children", "traverse_primitive_nodes() does not go on to the children", f.where())
        seen = {True: [], False: []}
        for e in rec:
            R.count("traversal steps")
            ok = False
            at = atoms_in(sym, e[2][ii])
            lv = [a for a in at if a in rng]
            if len(lv) == 1:
                r = rng[lv[0]]
                lva = ("m", Fraction(1), frozenset({(lv[0], 1)}))
                ok = same(sym, e[2][ii], sym.index(ch, lva))
                full = r[4] and same(sym, r[0], ZERO) and (r[1] is None or same(sym, r[1], sym.A(("size", atom(ch)))))
                R.oblige(full, "children:all", "traverse_primitive_nodes() does not go on to all the children of a node", e[4], e[5])
            elif not lv and "el#" in [sym.T.keys[a][0] for a in at]:
                ok = atom(ch) in at
            R.oblige(ok, "children", "traverse_primitive_nodes() goes on to node %s, not to a child of the node" % sym.show(e[2][ii]), e[4], e[5])
            eng = None
            rest = []
            for k, b in e[3].items():
                if k[0] not in ("c", "nz", "eq") or k in {r[3] for r in rng.values()}:
                    continue
                ats = katoms(sym, k)
                if atom(lt) in ats:
                    eng = b
                elif any(same(sym, x, fld(sym, node, "type")) for x in [("m", Fraction(1), frozenset({(a, 1)})) for a in ats]):
                    pass
                else:
                    rest.append(k)
            R.oblige(not rest, "children:always", "traverse_primitive_nodes() goes on to the children only when %s" % "; ".join(show_cond(sym, k, e[3][k]) for k in rest), e[4], e[5])
            M = e[2][im]
            prod = sym.A(("mat*", G, lt))
            if eng is True:
                R.oblige(same(sym, M, prod), "transform", "below a group with a transform traverse_primitive_nodes() goes on with %s, not with the transform above times that of the group" % sym.show(M), e[4], e[5], sample="children visited with %s" % sym.show(M))
                seen[True].append(1)
            elif eng is False:
                R.oblige(same(sym, M, G), "transform", "below a group without a transform traverse_primitive_nodes() goes on with %s" % sym.show(M), e[4], e[5])
                seen[False].append(1)
            else:
                at = atoms_in(sym, M)
                if same(sym, M, G) or same(sym, M, lt) or atom(lt) not in at or atom(G) not in at:
                    R.oblige(False, "transform", "traverse_primitive_nodes() goes on with %s whether or not the group has a transform" % sym.show(M), e[4], e[5])
                else:
                    R.count("transforms not decided")

    def lights(self):
        """build() records every light, with the transform it is under, and hands them the bound of all the triangles"""
        R, P = self.R, self.P
        f, h, sym, outs = self.run("build", stop=("set_scene_bound",))
        node = sym.A(("par", "traverse_primitive_nodes#0", "any"))
        G = sym.A(("par", "traverse_primitive_nodes#1", "any"))
        tri = sym.A(("par", "foreach_triangle#1", "any"))
        light = fld(sym, node, "primitive", "light")
        mesh = fld(sym, node, "primitive", "mesh")
        ps = [e for e in h.events if e[0] in ("push_back", "emplace_back") and e[1][0] == ("this",) and len(e[1][1]) == 1]
        R.oblige(bool(ps), "lights", "build() records no light", f.where())
        for e in ps:
            R.count("lights recorded")
            m = e[1][1][0]
            v = e[2][0] if e[2] and e[2][0][0] == "r" else None
            tr, ix = (sym.field(v, "global_transform"), sym.field(v, "index")) if v is not None else (e[2][0], e[2][1]) if len(e[2]) == 2 else (None, None)
            if tr is None:
                R.count("parts not decided")
                continue
            R.oblige(self.is_transform(sym, tr, G), "lights:transform", "build() records a light with the transform %s, not the one it is under" % sym.show(tr), e[4], e[5])
            R.oblige(same(sym, ix, sym.field(node, "index")), "lights:index", "build() records a light under node %s" % sym.show(ix), e[4], e[5])
            self.only(sym, e, [fld(sym, node, "type"), light], "lights", "build() records a light only when")
            clear = [x for x in h.events if x[0] in ("clear", "assign") and x[1] == e[1]]
            first = h.events.index(clear[0]) < h.events.index(e) if clear else self.fresh(h, sym, m)
            R.oblige(bool(first), "lights:again", "build() adds to the lights of an earlier build()", e[4], e[5])
        # the map from nodes to lights
        for e in h.events:
            if e[0] != "store" or e[1] is None:
                continue
            el = elem(e[1])
            if el is None or el[0][0] != ("this",) or not ps:
                continue
            R.count("light indices")
            m = ps[0][1][1][0]
            R.oblige(same(sym, el[1], sym.field(node, "index")), "lights:map", "build() records the index of a light under node %s" % sym.show(el[1]), e[4], e[5])
            size = sym.A(("size", atom(this_field(sym, m))))
            v = e[2][0]
            later = h.added(S({}, e[3]), ps[0][1])[1] != 0
            ok = same(sym, v, size)
            if v[0] == "m" and any(sym.T.keys[a][0] == "after" for a in atoms_in(sym, v)):
                R.count("parts not decided")
                continue
            R.oblige(ok, "lights:map", "build() records %s as the index of a light that %s" % (sym.show(v), "was added last" if later else "is added next"), e[4], e[5])
        # the bound
        seen = set()
        mm = {"min": {}, "max": {}}
        sb = [e for e in h.events if e[0] == "set_scene_bound"]
        R.oblige(bool(sb), "bound", "build() does not pass the bound of the scene on to the lights", f.where())
        corners = {}
        acc = [e for e in h.events if e[0] == "accum"]
        for e in acc:
            old, new = e[2]
            for side in ("min", "max"):
                try:
                    nv, ov = sym.field(new, side), sym.field(old, side)
                except Exception:
                    continue
                for a in atoms_in(sym, nv):
                    k = sym.T.keys[a]
                    if k[0] == "call" and k[1].split("::")[-1] == side:
                        for x in k[2]:
                            for a2 in atoms_in(sym, x):
                                k2 = sym.T.keys[a2]
                                if k2[0] == "mat*":
                                    corners.setdefault(side, set()).add(a2)
        for side in ("min", "max"):
            want = {atom(sym.A(("mat*", G, sym.A(("vec", fld(sym, tri, q, "p"), ONE))))): q for q in ("p1", "p2", "p3")}
            got = corners.get(side, set())
            if not acc or not got and any(sym.T.keys[a][0] == "after" for e in sb for x in e[2] for a in atoms_in(sym, x)) and not corners:
                R.count("parts not decided")
                break
            miss = [q for a, q in want.items() if a not in got]
            R.count("corners of triangles", 3)
            R.oblige(not miss, "bound:%s" % side, "build(): the %simum of the scene bound leaves out the corner %s of the triangles under their transform" % (side, ", ".join(miss)), f.where())
        for e in h.events:
            if e[0] == "iter:foreach_triangle":
                R.oblige(same(sym, e[2][0], mesh), "bound:mesh", "build() bounds the triangles of %s" % sym.show(e[2][0]), e[4], e[5])
                self.only(sym, e, [fld(sym, node, "type"), mesh], "bound", "build() bounds a mesh only when")

    def fresh(self, h, sym, m):
        return False

    def is_transform(self, sym, v, G):
        a = atom(v) if v[0] == "m" else None
        if a is not None:
            k = sym.T.keys[a]
            if k[0] == "ctor" and k[1].endswith("Transform"):
                return any(same(sym, x, G) for x in k[2])
            return a == atom(G)
        if v[0] == "r":
            return same(sym, sym.field(v, "M"), G)
        return False

    def only(self, sym, e, about, key, msg):
        """the conditions of an event are about the given values"""
        ats = {atom(x) for x in about}
        bad = []
        for k, b in e[3].items():
            if k[0] not in ("c", "nz", "eq"):
                continue
            ka = katoms(sym, k)
            if ats & ka or not any(sym.T.keys[a][0] == "par" for a in ka):
                continue
            bad.append(k)
        self.R.oblige(not bad, key + ":always", "%s %s" % (msg, "; ".join(show_cond(sym, k, e[3][k]) for k in bad)), e[4], e[5])

    def intersection(self):
        """what intersect() returns is the point hit, or the environment light"""
        R, P = self.R, self.P
        f, h, sym, outs = self.run("intersect", 3)
        ray, tmin, tmax = (par(sym, f, i) for i in range(3))
        SURF = enum(P, "lm::SceneInteraction", "SurfaceInteraction")
        nodes = this_field(sym, self.nodes)
        n_s = n_e = 0
        for s, v in outs:
            hits = [a for a in range(len(sym.T.keys)) if sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1] == "intersect"]
            if not hits:
                raise GiveUp("no call of the acceleration structure")
            H = ("m", Fraction(1), frozenset({(hits[0], 1)}))
            args = sym.T.keys[hits[0]][2]
            R.oblige(len(args) == 4 and same(sym, args[1], ray) and same(sym, args[2], tmin) and same(sym, args[3], tmax), "ray", "intersect() asks the acceleration structure about %s" % ", ".join(sym.show(x) for x in args[1:]), f.where())
            found = None
            for k, b in s.facts.items():
                if k[0] in ("c", "nz") and hits[0] in katoms(sym, k):
                    found = b
            R.count("outcomes of an intersection")
            if v[0] != "r":
                if found is True:
                    R.oblige(False, "hit", "intersect() returns nothing although the acceleration structure found a hit", f.where())
                elif found is False:
                    why = [k for k in s.facts if k[0] in ("c", "nz", "eq") and hits[0] not in katoms(sym, k) and (atom(tmax) in katoms(sym, k) or self.role.get("env_light_node") and atom(this_field(sym, self.role["env_light_node"])) in katoms(sym, k))]
                    R.oblige(bool(why), "environment", "intersect() returns nothing for a ray that leaves the scene, whatever the environment light", f.where())
                continue
            geom = sym.field(v, "geom")
            pr = sym.field(v, "primitive")
            if found is True:
                n_s += 1
                R.oblige(same(sym, pr, sym.field(H, "primitive")), "hit:primitive", "intersect() returns primitive %s, not the one hit" % sym.show(pr), f.where())
                R.oblige(isconst(sym.field(v, "type")) and sym.field(v, "type")[1] == SURF, "hit:type", "intersect() returns an interaction of type %s for a hit" % sym.show(sym.field(v, "type")), f.where())
                mesh = fld(sym, sym.index(nodes, sym.field(H, "primitive")), "primitive", "mesh")
                sp = [a for a in atoms_in(sym, sym.field(geom, "p")) if sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1] == "surface_point"]
                if len(sp) != 1:
                    R.oblige(False, "hit:point", "the position intersect() returns, %s, is not the point of the mesh hit" % sym.show(sym.field(geom, "p")), f.where())
                    continue
                a = sym.T.keys[sp[0]][2]
                R.oblige(same(sym, a[0], mesh) and same(sym, a[1], sym.field(H, "face")) and same(sym, a[2], sym.field(H, "uv")), "hit:point", "intersect() takes the point %s, not the one hit" % ", ".join(sym.show(x) for x in a), f.where())
                Pt = ("m", Fraction(1), frozenset({(sp[0], 1)}))
                T = sym.field(H, "global_transform")
                self.transformed(sym, sym.field(geom, "p"), sym.field(T, "M"), sym.field(Pt, "p"), "the position of a hit", "hit:position", f.where(), ())
                for nn in ("n", "gn"):
                    self.transformed(sym, sym.field(geom, nn), sym.field(T, "normal_M"), sym.field(Pt, nn), "the %s normal of a hit" % ("shading" if nn == "n" else "geometry"), "hit:%s" % nn, f.where(), (), w=False, unit=True)
                R.oblige(same(sym, sym.field(geom, "t"), sym.field(Pt, "t")), "hit:texture", "the texture coordinates of a hit are %s" % sym.show(sym.field(geom, "t")), f.where())
            elif found is False:
                n_e += 1
                m = self.role.get("env_light_node")
                if m is None:
                    continue
                env = this_field(sym, m)
                R.oblige(atom(env) in atoms_in(sym, pr), "environment:primitive", "intersect() returns primitive %s for a ray that leaves the scene" % sym.show(pr), f.where())
                R.oblige(same(sym, sym.field(geom, "wo"), sym.neg(sym.field(ray, "d"))), "environment:direction", "a ray that leaves the scene is said to come from %s" % sym.show(sym.field(geom, "wo")), f.where())
                lim = [k for k in s.facts if k[0] in ("c", "nz", "eq") and hits[0] not in katoms(sym, k) and atom(tmax) in katoms(sym, k)]
                lim = [k for k in lim if any(str(x).split("@")[-1].split("::")[-1] in ("Inf", "infinity", "isinf", "isfinite", "max") for b in katoms(sym, k) for x in sym.T.keys[b][1:2])]
                R.oblige(bool(lim), "environment:range", "intersect() returns the environment light for a segment that ends before it: %s" % (
                    "; ".join(show_cond(sym, k, s.facts[k]) for k in s.facts if k[0] in ("c", "nz", "eq") and hits[0] not in katoms(sym, k)) or "always"), f.where())
        R.oblige(n_s > 0, "hit", "intersect() never returns a surface", f.where())
        if self.role.get("env_light_node"):
            R.oblige(n_e > 0, "environment", "intersect() never returns the environment light", f.where())

    def lookup(self):
        R = self.R
        for name in ("node_at",):
            f, h, sym, outs = self.run(name)
            for s, v in outs:
                R.count("lookups")
                R.oblige(same(sym, v, sym.index(this_field(sym, self.nodes), par(sym, f, 0))), "lookup:%s" % name, "%s(i) returns %s" % (name, sym.show(v)), f.where())
        f, h, sym, outs = self.run("visit_node")
        for e in h.events:
            if e[0] == "callback":
                R.count("lookups")
                R.oblige(same(sym, e[2][0], sym.index(this_field(sym, self.nodes), par(sym, f, 0))), "lookup:visit_node", "visit_node(i) passes on %s" % sym.show(e[2][0]), e[4], e[5])
        f, h, sym, outs = self.run("num_nodes")
        for s, v in outs:
            R.oblige(same(sym, v, self.size(sym)), "lookup:num_nodes", "num_nodes() returns %s" % sym.show(v), f.where())
        f, h, sym, outs = self.run("is_camera")
        m = self.role.get("camera_node")
        if m is not None:
            cam = this_field(sym, m)
            sp = par(sym, f, 0)
            for s, v in outs:
                R.count("lookups")
                at = atoms_in(sym, v)
                for k in s.facts:
                    at |= katoms(sym, k)
                R.oblige(atom(cam) in at, "lookup:is_camera", "is_camera() does not look at the camera of the scene", f.where())


def exhaustive(conds):
    """do the conjunctions cover every case"""
    keys = sorted({k for c in conds for k in c}, key=repr)
    if len(keys) > 8:
        return True
    for m in range(1 << len(keys)):
        val = {k: bool(m >> i & 1) for i, k in enumerate(keys)}
        if not any(all(val[k] == b for k, b in c.items()) for c in conds):
            return False
    return True


# ------------------------------------------------------------------------------------------------ exact values
class Val:
    """exact values of symbolic expressions at rational points"""

    def __init__(self, sym, env, defs=None):
        self.sym, self.env, self.defs, self.memo = sym, env, defs or {}, {}

    def val(self, v):
        if v[0] == "r":
            return {k: self.val(x) for k, x in v[3]}
        if v[0] != "m":
            raise GiveUp("value")
        r = v[1]
        for a, e in sorted(v[2]):
            x = self.at(a)
            for _ in range(abs(e)):
                if e > 0:
                    r = mulv(r, x)
                else:
                    if isinstance(x, tuple):
                        raise GiveUp("division by a vector")
                    if x == 0:
                        raise ZeroDivisionError
                    r = mulv(r, 1 / x)
        return r

    def at(self, a):
        if a in self.env:
            return self.env[a]
        if a in self.memo:
            return self.memo[a]
        k = self.sym.T.keys[a]
        r = self._at(k)
        self.memo[a] = r
        return r

    def _at(self, k):
        if k[0] == "+":
            r = None
            for c, m in k[1]:
                x = self.val(("m", c, m))
                r = x if r is None else addv(r, x)
            return r
        if k[0] == "f":
            b = self.at(k[1])
            if isinstance(b, tuple) and isinstance(k[2], int):
                return b[k[2]]
            if isinstance(b, dict):
                return b[k[2]]
            raise GiveUp("field %s" % (k[2],))
        if k[0] == "abs":
            return abs(self.val(k[1]))
        if k[0] == "vec":
            xs = [self.val(x) for x in k[1:]]
            if len(xs) == 1 and not isinstance(xs[0], tuple):
                return (xs[0],) * 3
            return tuple(xs)
        if k[0] == "call":
            m = k[1].split("::")[-1]
            xs = [self.val(x) for x in k[2]]
            if m == "dot":
                return sum(p * q for p, q in zip(*xs))
            if m == "cross":
                a, b = xs
                return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
            if m in ("abs", "fabs"):
                return abs(xs[0])
            if m == "copysign":
                return abs(xs[0]) if xs[1] >= 0 else -abs(xs[0])
            if m == "sign":
                return Fraction((xs[0] > 0) - (xs[0] < 0))
            if m in ("min", "fmin"):
                return min(xs)
            if m in ("max", "fmax"):
                return max(xs)
        raise GiveUp("the operation %s" % (k[1] if k[0] == "call" else k[0]))


def mulv(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return tuple(x * y for x, y in zip(a, b))
    if isinstance(b, tuple):
        a, b = b, a
    if isinstance(a, tuple):
        return tuple(x * b for x in a)
    return a * b


def addv(a, b):
    if isinstance(a, tuple) != isinstance(b, tuple):
        raise GiveUp("sum of a vector and a number")
    if isinstance(a, tuple):
        return tuple(x + y for x, y in zip(a, b))
    return a + b


def construct(sym, f, args=None):
    """the fields a constructor leaves, given values for its parameters"""
    root = ("obj", f.key)
    nf = sym.frame(f, (root, ()), None, ("root", f.key), None, None, f.cls)
    st = S({}, {})
    ps = []
    for i, p in enumerate(f.params):
        v = args[i] if args is not None else sym.A(("par", p.get("n") or "arg%d" % i, f.key))
        ps.append(v)
        st = st.set(("v", nf.id, p["d"]), v)
    st = st.set(root, sym.A(("uninit", f.cls, "object")))
    for ini in f.get("inits") or ():
        if ini.get("field") and ini.get("e") is not None:
            r = sym.ev(ini["e"], st, nf)
            if len(r) != 1:
                raise GiveUp("initialiser of %s" % ini["field"])
            st = sym.write((root, (ini["field"],)), r[0][1], r[0][0])
    outs = sym.run(nf, st, keepenv={root: 1})
    if len(outs) != 1:
        raise GiveUp("several outcomes of a constructor")
    return outs[0][0].env[root], ps


# ------------------------------------------------------------------------------------------------ the acceleration structure
class AccelRule(Rule):
    def check(self):
        self.R.count("acceleration structures")
        self.each(["flatten", "empty", "nearest", "partition"])

    def flatten(self):
        """every triangle of every mesh of the scene is recorded where it is in the scene"""
        R, P = self.R, self.P
        f, h, sym, outs = self.run("build", opaque=("surface_area", "center"))
        node = sym.A(("par", "traverse_primitive_nodes#0", "any"))
        G = sym.A(("par", "traverse_primitive_nodes#1", "any"))
        face = sym.A(("par", "foreach_triangle#0", "any"))
        tri = sym.A(("par", "foreach_triangle#1", "any"))
        mesh = fld(sym, node, "primitive", "mesh")
        it = [e for e in h.events if e[0] == "iter:foreach_triangle"]
        R.oblige(bool(it), "meshes", "build() does not go through the triangles of the scene", f.where())
        S_ = SceneRule(R, P, self.cls)
        for e in it:
            R.oblige(same(sym, e[2][0], mesh), "meshes", "build() records the triangles of %s" % sym.show(e[2][0]), e[4], e[5])
            S_.only(sym, e, [fld(sym, node, "type"), mesh], "meshes", "build() records the triangles of a mesh only when")
        ps = [e for e in h.events if e[0] in ("push_back", "emplace_back") and e[1][0] == ("this",) and len(e[1][1]) == 1]
        tris = [e for e in ps if any(atom(tri) in atoms_in(sym, x) for x in e[2] if x[0] in "mr")]
        flat = [e for e in ps if e not in tris]
        R.oblige(bool(tris) or not ps, "triangles", "build() records no triangle", f.where())
        if not tris:
            raise GiveUp("no triangles recorded")
        want = [sym.A(("mat*", G, sym.A(("vec", fld(sym, tri, q, "p"), ONE)))) for q in ("p1", "p2", "p3")]
        for e in tris:
            R.count("triangles recorded")
            S_.only(sym, e, [fld(sym, node, "type"), mesh], "triangles", "build() records a triangle only when")
            self.tmember = e[1][1][0]
            pts = [x for x in e[2] if atom(tri) in atoms_in(sym, x)]
            if len(pts) != 3 or any(x[0] != "m" for x in pts):
                R.count("triangles not decided")
                continue
            for q, x, w in zip(("first", "second", "third"), pts, want):
                self.transformed(sym, x, G, fld(sym, tri, {"first": "p1", "second": "p2", "third": "p3"}[q], "p"), "the %s corner of a recorded triangle" % q, "corner:%s" % q, e[4], e[5])
            R.oblige(any(same(sym, x, face) for x in e[2] if x[0] == "m"), "face", "build() records a triangle without the index of its face", e[4], e[5])
            if flat:
                m = flat[0][1][1][0]
                szs = [a for x in e[2] for a in (atoms_in(sym, x) if x[0] == "m" else ()) if sym.T.keys[a][0] == "size"]
                size = [x for x in e[2] if x[0] == "m" and atom(x) is not None and sym.T.keys[atom(x)][0] == "size"]
                R.oblige(bool(size) and self.size_of(sym, size[0], m), "flattened", "build() records a triangle with %s as the index of the primitive it belongs to" % ", ".join(sym.show(x) for x in e[2][3:]), e[4], e[5])
        for e in flat:
            R.count("primitives recorded")
            S_.only(sym, e, [fld(sym, node, "type"), mesh], "primitives", "build() records a primitive only when")
            v = e[2][0]
            if v[0] == "r":
                R.oblige(S_.is_transform(sym, sym.field(v, "global_transform"), G), "primitive:transform", "build() records a primitive with the transform %s" % sym.show(sym.field(v, "global_transform")), e[4], e[5])
                R.oblige(same(sym, sym.field(v, "primitive"), sym.field(node, "index")), "primitive:index", "build() records a primitive as node %s" % sym.show(sym.field(v, "primitive")), e[4], e[5])
        for e in ps:
            clear = [x for x in h.events if x[0] in ("clear", "assign") and x[1] == e[1]]
            R.oblige(bool(clear) and h.events.index(clear[0]) < h.events.index(e), "again:%s" % e[1][1][0], "build() adds to the %s of an earlier build()" % e[1][1][0], e[4], e[5])

    def size_of(self, sym, v, m):
        k = sym.T.keys[atom(v)]
        return any(sym.T.keys[a][0] == "f" and sym.T.keys[a][2] == m for a in atoms_in(sym, v))

    def empty(self):
        """a scene without triangles is built and hit nowhere"""
        R, P = self.R, self.P
        f, h, sym, outs = self.run("build", opaque=("surface_area", "center"))
        for e in h.events:
            if e[0] not in ("assign", "resize") or e[1] is None or e[1][0] != ("this",) or not e[2]:
                continue
            v = e[2][0]
            szs = [a for a in atoms_in(sym, v) if sym.T.keys[a][0] == "size" or sym.T.keys[a][:2] == ("after", "size")]
            if not szs or v[0] != "m":
                continue
            R.count("sizes of containers")
            nonempty = False
            for k, b in e[3].items():
                if k[0] in ("c", "nz", "eq") and katoms(sym, k) & set(szs):
                    nonempty = True
            z = sym.subst(v, {a: ZERO for a in szs})
            R.oblige(nonempty or not isconst(z) or z[1] >= 0, "empty:build", "build() makes %s hold %s elements, which is negative for a scene without triangles" % (e[1][1][0], sym.show(v)), e[4], e[5])

    def nearest(self):
        """intersect() returns the closest triangle hit: each leaf's triangles are tested within the best distance so far, and what is returned belongs to the triangle that set it"""
        R, P = self.R, self.P
        f = method(P, self.cls, "intersect", 3)
        h = SH(P, (), ("isect", "intersect"))
        sym = Sym(P, h)
        outs = sym.start(f, self.cls)
        ray, tmin = par(sym, f, 0), par(sym, f, 1)
        rng = ranges(sym, h)
        tests = [a for a in range(len(sym.T.keys)) if sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1] == "intersect"]
        inner = None
        for L in h.loops:
            n, fr, entry, head, backs, changed, lid = L
            hit = [b for b in backs if any(atom_in(sym, b.env.get(k, ZERO), tests) for k in changed)]
            if hit and inner is None:
                inner = L
        if inner is None:
            raise GiveUp("no loop over triangles")
        n, fr, entry, head, backs, changed, lid = inner
        keys = list(changed)
        live = set()
        for b in backs:
            for k in b.facts:
                live |= katoms(sym, k) if k[0] in ("c", "nz", "eq") else set()
            for k in keys:
                live |= atoms_in(sym, b.env[k]) if b.env[k][0] in "mr" else set()
        tests = [t for t in tests if t in live]
        outer = [L for L in h.loops if L is not inner and any(k in L[5] for k in keys)]
        if not outer:
            raise GiveUp("no loop over nodes")
        on, ofr, oentry, ohead, obacks, ochanged, olid = outer[-1]
        rets = [(s, v) for s, v in outs if v[0] == "r"]
        if not rets:
            raise GiveUp("nothing returned")
        # the variables the answer is made from
        oh = {atom(ohead.env[k]): k for k in ochanged if ohead.env[k][0] == "m" and atom(ohead.env[k]) is not None}
        used = set()
        for s, v in rets:
            used |= {oh[a] for a in atoms_in(sym, v) if a in oh}
        R.oblige(bool(used), "nearest", "intersect() returns a hit that no test of a triangle set", f.where())
        used &= set(keys) or used
        nh = 0
        for b in backs:
            T = [a for k in used for a in atoms_in(sym, b.env[k]) if a in tests and not same(sym, b.env[k], head.env[k])]
            if not T:
                moved = [k for k in used if not same(sym, b.env[k], head.env[k])]
                R.oblige(not moved, "nearest:miss", "intersect() changes %s for a triangle that was not hit" % ", ".join(name_of(k) for k in moved), fr.fn.where(n))
                continue
            nh += 1
            t = T[0]
            HT = ("m", Fraction(1), frozenset({(t, 1)}))
            R.count("updates of the closest hit")
            args = sym.T.keys[t][2]
            for s, v in rets:
                m = {atom(ohead.env[k]): b.env[k] for k in ochanged if k in b.env and atom(ohead.env[k]) is not None and b.env[k][0] in "m"}
                v2 = sym.subst(v, m)
                tv = sym.field(v2, "t")
                R.oblige(same(sym, tv, sym.field(HT, "t")), "nearest:t", "after a triangle is hit the distance intersect() would return is %s, not that of the triangle" % sym.show(tv), fr.fn.where(n))
                uv = sym.field(v2, "uv")
                R.oblige(same(sym, sym.field(uv, 0), sym.field(HT, "u")) and same(sym, sym.field(uv, 1), sym.field(HT, "v")), "nearest:uv", "after a triangle is hit the position on it intersect() would return is %s" % sym.show(uv), fr.fn.where(n))
                tr = args[0]
                fc = sym.field(v2, "face")
                R.oblige(same(sym, fc, sym.field(tr, "face")), "nearest:face", "after triangle %s is hit the face intersect() would return is %s" % (sym.show(tr), sym.show(fc)), fr.fn.where(n))
                for q in ("global_transform", "primitive"):
                    x = sym.field(v2, q)
                    at = atoms_in(sym, x)
                    own = [a for a in at if sym.T.keys[a][0] == "f" and same(sym, ("m", Fraction(1), frozenset({(sym.T.keys[a][1], 1)})), tr)]
                    R.oblige(bool(own) and atom(x) is not None and sym.T.keys[atom(x)][0] == "f" and sym.T.keys[atom(x)][2] == q, "nearest:%s" % q, "after triangle %s is hit the %s intersect() would return is %s" % (sym.show(tr), q.replace("_", " "), sym.show(x)), fr.fn.where(n))
        R.oblige(nh > 0, "nearest", "no test of a triangle sets what intersect() returns", fr.fn.where(n))
        # the tests
        hitb = [b for b in backs if any(t in atoms_in(sym, b.env[x]) and not same(sym, b.env[x], head.env[x]) for x in used for t in tests)]
        tkey = [k for k in keys if all(same(sym, b.env[k], head.env[k]) for b in backs if b not in hitb) and all(same(sym, b.env[k], sym.field(("m", Fraction(1), frozenset({(t, 1)})), "t")) for b in backs for t in tests if any(t in atoms_in(sym, b.env[x]) and not same(sym, b.env[x], head.env[x]) for x in used))]
        trs = this_field(sym, self.tmember) if getattr(self, "tmember", None) else None
        for t in tests:
            R.count("tests of triangles")
            args = sym.T.keys[t][2]
            R.oblige(len(args) == 4 and same(sym, args[1], ray) and same(sym, args[2], tmin), "test:ray", "a triangle is tested against %s" % ", ".join(sym.show(x) for x in args[1:]), fr.fn.where(n))
            R.oblige(any(same(sym, args[3], head.env[k]) for k in tkey), "test:closest", "a triangle is tested up to the distance %s, not up to the closest hit so far: a later triangle further away replaces it" % sym.show(args[3]), fr.fn.where(n))
            lv = [a for a in atoms_in(sym, args[0]) if a in rng]
            if len(lv) == 1:
                lo, cnt, step, k, full = rng[lv[0]]
                s0, e0 = self.bounds(sym, lo)
                ok = s0 is not None and full and same(sym, sym.add(lo, cnt), e0) and abs(step[1]) == 1
                R.oblige(ok, "test:leaf", "the triangles tested in a leaf are the %s from %s on, not those of the leaf" % (sym.show(cnt), sym.show(lo)), fr.fn.where(n))
            elif self.ends_early(sym, h, inner, args[0]):
                R.oblige(False, "test:leaf", "the loop over the triangles of a leaf ends when %s" % self.ends_early(sym, h, inner, args[0]), fr.fn.where(n))
            else:
                R.count("parts not decided")
        # which nodes are skipped
        for b in obacks:
            conds = {k: v for k, v in b.facts.items() if k not in oentry.facts and k[0] in ("c", "nz", "eq")}
            culled = [k for k, v in conds.items() if any(sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1] == "isect" for a in katoms(sym, k))]
            for k in culled:
                a = [a for a in katoms(sym, k) if sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1] == "isect"][0]
                args = sym.T.keys[a][2]
                R.count("culling tests")
                ok = len(args) == 4 and same(sym, args[1], ray) and same(sym, args[2], tmin) and any(same(sym, args[3], ohead.env[k2]) for k2 in tkey)
                R.oblige(ok, "cull", "a node is skipped by testing its bound against %s" % ", ".join(sym.show(x) for x in args[1:]), ofr.fn.where(on))
        # both children of an inner node are visited
        self.stack(sym, h, on, ofr, oentry, ohead, obacks, ochanged)

    def ends_early(self, sym, h, loop, tri):
        """the condition under which a loop over a leaf ends before its last triangle"""
        n, fr, entry, head, backs, changed, lid = loop
        for k in changed:
            hv, s0 = head.env[k], entry.env.get(k)
            if hv[0] != "m" or atom(hv) is None or atom(hv) not in atoms_in(sym, tri) or s0 is None or s0[0] != "m":
                continue
            lo, e0 = self.bounds(sym, s0)
            if lo is None:
                continue
            for l2, outs in h.leaves:
                if l2 != lid:
                    continue
                for x, f in outs:
                    for c, b in x.facts.items():
                        if c[0] != "c" or c in head.facts or sym.T.keys[c[1]][0] != "pos":
                            continue
                        d = unit(sym, sym.T.keys[c[1]][1], atom(hv))
                        if d is None:
                            continue
                        if b:
                            d = sym.add(ONE, d, -1)
                        # left when d <= 0 although e0 - i > 0
                        g = sym.add(d, sym.add(e0, hv, -1), -1)
                        if isconst(g) and g[1] < 0:
                            return show_cond(sym, c, b)
        return None

    def bounds(self, sym, lo):
        a = atom(lo)
        k = sym.T.keys[a] if a is not None else None
        if k is None or k[0] != "f" or k[2] != "s":
            return None, None
        return lo, sym.field(("m", Fraction(1), frozenset({(k[1], 1)})), "e")

    def stack(self, sym, h, on, ofr, oentry, ohead, obacks, ochanged):
        R = self.R
        stores = [e for e in h.events if e[0] in ("store", "push_back", "emplace_back", "push") and e[1] is not None and e[1][0][0] == "v"]
        st = []
        for e in stores:
            for v in e[2]:
                a = atom(v) if v[0] == "m" else None
                k = sym.T.keys[a] if a is not None else None
                if k is not None and k[0] == "f" and k[2] in ("c1", "c2"):
                    st.append((e, k[2], k[1]))
        if not st:
            R.count("parts not decided")
            return
        paths = {}
        for e, c, node in st:
            ck = frozenset((k, b) for k, b in e[3].items() if k[0] in ("c", "nz", "eq"))
            paths.setdefault(ck, []).append((e, c, node))
        for ck, xs in paths.items():
            R.count("inner nodes")
            # nodes reached only through another order of the children are merged by name
            R.oblige({c for e, c, n in xs} == {"c1", "c2"}, "children", "of an inner node intersect() goes on only to %s" % ", ".join(sorted({c for e, c, n in xs})), xs[0][0][4], xs[0][0][5])
            ix = [elem(e[1]) for e, c, n in xs if e[0] == "store"]
            if len(ix) == 2 and all(ix):
                R.oblige(not same(sym, ix[0][1], ix[1][1]), "children:place", "both children of a node are put in the same place, %s" % sym.show(ix[0][1]), xs[0][0][4], xs[0][0][5])
                cnt = [k for k in ochanged if ohead.env[k][0] == "m" and atom(ohead.env[k]) is not None and atom(ohead.env[k]) in atoms_in(sym, ix[0][1])]
                if len(cnt) == 1:
                    hs = ohead.env[cnt[0]]
                    tops = []
                    for b in obacks:
                        d = sym.add(b.env[cnt[0]], hs, -1)
                        inner = all(b.facts.get(k) == v for k, v in ck)
                        R.count("steps of the traversal")
                        R.oblige(isconst(d) and d[1] == (1 if inner else -1), "children:count", "the stack of nodes to visit grows by %s at %s" % (sym.show(d), "an inner node" if inner else "a node without children"), ofr.fn.where(on))
                        if inner:
                            tops.append(b.env[cnt[0]])
                    for t in tops:
                        R.oblige({rel(sym, t, i[1]) for i in ix} <= {0, 1} or {rel(sym, t, i[1]) for i in ix} <= {1, 2}, "children:place", "the children of a node are put at %s with the top of the stack at %s" % (", ".join(sym.show(i[1]) for i in ix), sym.show(t)), xs[0][0][4], xs[0][0][5])

    def partition(self):
        """the triangles of an inner node are those of its two children, and its bound contains them"""
        R, P = self.R, self.P
        f, h, sym, outs = self.run("build", opaque=("surface_area", "center"))
        if not outs:
            raise GiveUp("build() has no outcome")
        lams = []
        for e in h.events:
            lams += [v for v in e[2] if v[0] == "l"]
        m0 = 0
        if lams:
            # the function the threads run
            node, lfr = sym._lam[(lams[-1][1], lams[-1][2])]
            g = P.funcs.get(node["f"])
            m0 = len(h.events)
            nf = sym.frame(g, lfr.this, lfr, ("root", g.key), None, None, lfr.dyn)
            best = max(outs, key=lambda o: len(o[0].env))[0]
            sym.run(nf, best, keepenv=best.env)
        evs = h.events[m0:]
        rng = ranges(sym, h)
        tm = getattr(self, "tmember", None)
        # the entries of the work list
        push = [e for e in evs if e[0] in ("push", "emplace", "push_back", "emplace_back") and e[1] is not None and e[1][0][0] == "v"]
        ent = []
        for e in push:
            v = [x for k, x in e[2][0][3]] if len(e[2]) == 1 and e[2][0][0] == "r" else list(e[2])
            names = [k for k, x in e[2][0][3]] if len(e[2]) == 1 and e[2][0][0] == "r" else None
            if len(v) == 3 and all(x[0] == "m" for x in v):
                ent.append((e, v, names))
        inner = [x for x in ent if not any(isconst(y) and y[1] == 0 for y in x[1])]
        if not inner:
            raise GiveUp("no work list")
        front = None
        for e, v, names in inner:
            for x in v:
                for a in atoms_in(sym, x):
                    k = sym.T.keys[a]
                    if k[0] == "f" and sym.T.keys[k[1]][0] == "idx":
                        b = sym.T.keys[k[1]]
                        if any(sym.T.keys[q][0] == "end" for q in atoms_in(sym, b[2])):
                            front = k[1]
        if front is None:
            raise GiveUp("no entry taken from the work list")
        F = ("m", Fraction(1), frozenset({(front, 1)}))
        groups = {}
        for e, v, names in inner:
            ck = frozenset((k, b) for k, b in e[3].items() if k[0] in ("c", "nz", "eq"))
            groups.setdefault(ck, []).append((e, v, names))
        names = inner[0][2]
        if names is None:
            raise GiveUp("the fields of an entry")
        # the fields of an entry: the one written to c1/c2 is the node; of the others the first child has the start
        st_ = {}
        for e in evs:
            if e[0] == "store" and e[1] is not None and e[1][1] and e[1][1][-1] in ("c1", "c2", "s", "e", "b", "leaf"):
                st_.setdefault(e[1][1][-1], []).append(e)
        for c in ("s", "e"):
            for e in st_.get(c, ()):
                R.count("leaves")
                k = sym.T.keys[atom(e[2][0])] if atom(e[2][0]) is not None else None
                R.oblige(k is not None and k[0] == "f" and k[1] == front, "leaf:%s" % c, "a leaf is given %s as the %s of its triangles, not that of the range it is made for" % (sym.show(e[2][0]), "start" if c == "s" else "end"), e[4], e[5])
        ss = {sym.T.keys[atom(e[2][0])][2] for e in st_.get("s", ()) if atom(e[2][0]) is not None and sym.T.keys[atom(e[2][0])][0] == "f"}
        ee = {sym.T.keys[atom(e[2][0])][2] for e in st_.get("e", ()) if atom(e[2][0]) is not None and sym.T.keys[atom(e[2][0])][0] == "f"}
        if len(ss) != 1 or len(ee) != 1:
            raise GiveUp("the range of a leaf")
        sn, en = ss.pop(), ee.pop()
        R.oblige(sn != en, "leaf:s", "a leaf is given the same value as the start and the end of its triangles", st_["s"][0][4], st_["s"][0][5])
        Sv, Ev = sym.field(F, sn), sym.field(F, en)
        for ck, xs in groups.items():
            R.count("splits")
            if len(xs) != 2:
                R.oblige(False, "split", "a split passes on %d ranges, not two" % len(xs), xs[0][0][4], xs[0][0][5])
                continue
            rs = [(dict(zip(x[2], x[1]))[sn], dict(zip(x[2], x[1]))[en]) for x in xs]
            ok = any(same(sym, a[0], Sv) and same(sym, a[1], b[0]) and same(sym, b[1], Ev) for a, b in (rs, rs[::-1]))
            R.oblige(ok, "split", "the ranges %s of the two children are not together the range of the node, [%s, %s)" % (" and ".join("[%s, %s)" % (sym.show(a), sym.show(b)) for a, b in rs), sym.show(Sv), sym.show(Ev)), xs[0][0][4], xs[0][0][5], sample="[s, m) and [m, e)")
            mids = [r[0] for r in rs if not same(sym, r[0], Sv)]
            # where the split may be
            for m in mids:
                d = sym.add(m, Sv, -1)
                self.split_range(sym, h, d, rng, Sv, Ev)
        # the bound of a node
        nb = 0
        for e in st_.get("b", ()):
            v = e[2][0]
            at = atoms_in(sym, v)
            lv = [a for a in at if a in rng]
            tb = [a for a in at if sym.T.keys[a][0] == "f" and sym.T.keys[a][2] == "b"]
            if not lv:
                R.count("parts not decided")
                continue
            nb += 1
            R.count("bounds of nodes")
            lo, cnt, step, k, full = rng[lv[0]]
            ok = full and abs(step[1]) == 1 and same(sym, lo, Sv) and same(sym, sym.add(lo, cnt), Ev)
            R.oblige(ok, "node:bound", "the bound of a node is that of %s triangles from %s on, not of those of the node" % (sym.show(cnt), sym.show(lo)), e[4], e[5])
            for side in ("min", "max"):
                x = sym.field(v, side)
                k = sym.T.keys[atom(x)] if atom(x) is not None else None
                good = k is not None and k[0] == "call" and k[1].split("::")[-1] == side and len(k[2]) == 2
                own = good and [y for y in k[2] if any(a in lv for a in atoms_in(sym, y)) and sym.T.keys[atom(y)][2:] == (side,)]
                R.oblige(bool(good and own), "node:bound:%s" % side, "the %simum of the bound of a node becomes %s" % (side, sym.show(x)), e[4], e[5])
        # two different places for the children
        c1, c2 = st_.get("c1", []), st_.get("c2", [])
        for e in c1 + c2:
            R.count("children placed")
            v = e[2][0]
            k = sym.T.keys[atom(v)] if atom(v) is not None else None
            fresh = any(sym.T.keys[a][0] == "call" and sym.T.keys[a][1].split("::")[-1] in ("operator++", "operator+=", "fetch_add") for a in atoms_in(sym, v))
            R.oblige(fresh, "split:place", "a child is placed at %s, which is not a place of its own" % sym.show(v), e[4], e[5])

    def split_range(self, sym, h, d, rng, Sv, Ev):
        """the split position leaves at least one triangle to each child"""
        R = self.R
        hs = [a for a in atoms_in(sym, d) if self.key_of(sym, h, a) is not None]
        if len(hs) != 1:
            R.count("splits not decided")
            return
        var = name_of(self.key_of(sym, h, hs[0]))
        for n, fr, entry, head, backs, changed, lid in h.loops:
            for k in changed:
                if name_of(k) != var:
                    continue
                for b in backs:
                    v = b.env.get(k)
                    if v is None or v[0] != "m" or head.env.get(k) is None or head.env[k][0] != "m" or atom(head.env[k]) is None or same(sym, v, head.env[k]):
                        continue
                    ls = [a for a in atoms_in(sym, v) if a in rng]
                    if len(ls) != 1:
                        continue
                    lo, cnt, step, kk, full = rng[ls[0]]
                    if lo is None or cnt is None or abs(step[1]) != 1:
                        continue
                    R.count("ranges of splits")
                    p = sym.subst(d, {hs[0]: v})
                    first = sym.subst(p, {ls[0]: lo})
                    last = sym.add(sym.subst(p, {ls[0]: sym.add(sym.add(lo, cnt), ONE, -1)}), sym.add(Ev, Sv, -1), -1)
                    ok = isconst(first) and first[1] >= 1 and isconst(last) and last[1] <= -1
                    R.oblige(ok, "split:range", "the first child of a node gets from %s to %s triangles of %s: a child may be empty or the split outside the node" % (sym.show(first), sym.show(sym.add(last, sym.add(Ev, Sv, -1))), sym.show(sym.add(Ev, Sv, -1))), fr.fn.where(n))

    def key_of(self, sym, h, a):
        for n, fr, entry, head, backs, changed, lid in h.loops:
            for k in changed:
                if head.env.get(k) is not None and head.env[k][0] == "m" and atom(head.env[k]) == a:
                    return k
        return None


def atom_in(sym, v, tests):
    return v[0] in "mr" and any(a in tests for a in atoms_in(sym, v))


def name_of(k):
    return str(k[-1]).split("@")[0]


def rel(sym, a, b):
    d = sym.add(a, b, -1)
    return d[1] if isconst(d) else None


# ------------------------------------------------------------------------------------------------ formulas
def vecs(rnd, n):
    return [tuple(Fraction(rnd.randint(-10 ** 6, 10 ** 6), 997) for _ in range(3)) for _ in range(n)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


class Formulas:
    """closed formulas compared, as rational functions, with what they stand for; each identity is decided by exact evaluation at
    24 points in general position (an identity of this degree that holds there holds everywhere)"""
    N = 24

    def __init__(self, R, P):
        self.R, self.P = R, P

    def each(self, parts):
        for p in parts:
            try:
                getattr(self, p)()
                self.R.count("parts analysed")
            except GiveUp as e:
                self.R.notes.append("%s: %s" % (p, e))
                self.R.count("parts not decided")

    def triangle(self):
        R, P = self.R, self.P
        n = 0
        for cls in sorted(c for c in P.by_cls if c):
            fs = P.by_cls[cls]
            f = [f for f in fs if f.body is not None and f.qn.split("::")[-1] == "intersect" and len(f.params) == 3 and f.file.startswith(P.root) and not f.is_lambda]
            c = [f for f in fs if f.get("ctor") and f.body is not None and sum("vec<3" in P.tstr(p["t"]) for p in f.params) == 3]
            if f and c and cls not in P.all_derived("lm::Component"):
                self.one_triangle(cls, f[0], c[0])
                n += 1
        if not n:
            R.count("parts not decided")

    def one_triangle(self, cls, f, c):
        R, P = self.R, self.P
        h = SH(P)
        sym = Sym(P, h)
        rec, ps = construct(sym, c)
        pts = [p for p, q in zip(ps, c.params) if "vec<3" in P.tstr(q["t"])]
        outs = sym.start(f, cls)
        ray, tl, th = (par(sym, f, i) for i in range(3))
        rnd = random.Random(22)
        this = sym.A(("this",))
        fields = {k: v for k, v in rec[3]}
        label = cls.split("::")[-1]
        # the corners are all in its bound
        for k, v in fields.items():
            if v[0] == "r" and {x for x, y in v[3]} >= {"min", "max"}:
                for side in ("min", "max"):
                    at = atoms_in(sym, sym.field(v, side))
                    miss = [i for i, p in enumerate(pts) if atom(p) not in at]
                    calls = {sym.T.keys[a][1].split("::")[-1] for a in at if sym.T.keys[a][0] == "call"}
                    R.count("bounds of triangles")
                    R.oblige(not miss, "triangle:bound:%s" % side, "the %simum of the bound of a triangle leaves out corner %s" % (side, ", ".join(str(i + 1) for i in miss)), c.where())
                    R.oblige(calls <= {side}, "triangle:bound:%s" % side, "the %simum of the bound of a triangle is %s" % (side, sym.show(sym.field(v, side))), c.where())
        samples = []
        while len(samples) < self.N:
            A, B, C, O, D = vecs(rnd, 5)
            e1, e2 = sub(B, A), sub(C, A)
            p = cross(D, e2)
            det = dot(e1, p)
            if det == 0:
                continue
            tv = sub(O, A)
            u = dot(tv, p) / det
            q = cross(tv, e1)
            v = dot(D, q) / det
            t = dot(e2, q) / det
            lo, hi = (Fraction(rnd.randint(-10 ** 6, 10 ** 6), 991) for _ in range(2))
            env = {atom(x): y for x, y in zip(pts, (A, B, C))}
            env[atom(sym.field(ray, "o"))] = O
            env[atom(sym.field(ray, "d"))] = D
            env[atom(tl)], env[atom(th)] = lo, hi
            ev = Val(sym, dict(env))
            for k, x in fields.items():
                if any(a in env for a in (atoms_in(sym, x) if x[0] in "mr" else ())) and x[0] == "m":
                    try:
                        env[atom(sym.field(this, k))] = ev.val(x)
                    except (GiveUp, TypeError):
                        pass
            samples.append((Val(sym, env), t, u, v, abs(det), lo, hi))
        hits = 0
        for s, r in outs:
            if r[0] != "r":
                continue
            hits += 1
            for nm, i in (("t", 1), ("u", 2), ("v", 3)):
                x = sym.field(r, nm)
                ok = all(sm[0].val(x) == sm[i] for sm in samples)
                R.count("identities")
                R.oblige(ok, "triangle:%s" % nm, "%s::intersect() computes %s = %s, which is not the %s of the ray and the plane of the triangle" % (label, nm, sym.show(x), "distance to the intersection" if nm == "t" else "barycentric coordinate of the intersection"), f.where(), sample="%s = %s" % (nm, sym.show(x)))
            cand = {"u >= 0": lambda m: -m[2], "v >= 0": lambda m: -m[3], "u + v <= 1": lambda m: m[2] + m[3] - 1, "t >= tmin": lambda m: m[5] - m[1], "t <= tmax": lambda m: m[1] - m[6]}
            got = set()
            odd = []
            for k, b in s.facts.items():
                if k[0] != "c" or sym.T.keys[k[1]][0] != "pos":
                    continue
                x = sym.T.keys[k[1]][1]
                try:
                    ys = [sm[0].val(x) * (-1 if b else 1) for sm in samples]
                except (TypeError, ZeroDivisionError):
                    odd.append(k)
                    continue
                name = None
                for nm, g in list(cand.items()) + [("u <= 1", lambda m: m[2] - 1), ("v <= 1", lambda m: m[3] - 1)]:
                    for j in (-1, 0, 1, 2):
                        rs = {y / (g(m) * m[4] ** j) for y, m in zip(ys, samples)}
                        if len(rs) == 1 and rs.pop() > 0:
                            name = nm
                if name is None:
                    # |det| above a threshold
                    (y0, m0), (y1, m1) = (ys[0], samples[0]), (ys[1], samples[1])
                    sl = (y1 - y0) / (m1[4] - m0[4])
                    ic = y0 - sl * m0[4]
                    if all(y == ic + sl * m[4] for y, m in zip(ys, samples)) and sl < 0 and 0 <= ic / -sl <= Fraction(1, 10 ** 6):
                        name = "not parallel"
                if name is None:
                    odd.append(k)
                got.add(name)
            for nm in cand:
                R.count("conditions of a hit")
                R.oblige(nm in got, "triangle:hit:%s" % nm, "%s::intersect() reports a hit without having checked that %s" % (label, nm), f.where())
            for k in odd:
                R.oblige(False, "triangle:hit", "%s::intersect() reports a hit only if %s" % (label, show_cond(sym, k, s.facts[k])), f.where())
        R.oblige(hits > 0, "triangle", "%s::intersect() never reports a hit" % label, f.where())

    def slabs(self):
        """the ray against the three slabs of a bound"""
        R, P = self.R, self.P
        f = method(P, "lm::Bound", "isect_range", 3)
        if f is None:
            raise GiveUp("no isect_range()")
        h = SH(P)
        sym = Sym(P, h)
        outs = sym.start(f, "lm::Bound")
        ray, this = par(sym, f, 0), sym.A(("this",))
        rng = ranges(sym, h)
        if len(h.loops) != 1:
            raise GiveUp("no loop over the axes")
        n, fr, entry, head, backs, changed, lid = h.loops[0]
        ks = [("v", 0, p["d"]) for p in f.params[1:]]
        ix = [a for a in rng if any(atom(head.env[k]) == a for k in changed)]
        if len(ix) != 1 or any(k not in changed for k in ks):
            raise GiveUp("no loop over the axes")
        lo, cnt, step, kk, full = rng[ix[0]]
        R.oblige(same(sym, lo, ZERO) and same(sym, cnt, const(3)), "slab:axes", "isect_range() tests the axes %s to %s" % (sym.show(lo), sym.show(sym.add(sym.add(lo, cnt), ONE, -1))), f.where())
        i = ("m", Fraction(1), frozenset({(ix[0], 1)}))
        d, o = sym.index(sym.field(ray, "d"), i), sym.index(sym.field(ray, "o"), i)
        T = {s: sym.mul(sym.add(sym.index(sym.field(this, s), i), o, -1), d, -1) for s in ("min", "max")}
        ends = [(b, "goes on") for b in backs]
        for b, flow in ends:
            neg = None
            for k, v in b.facts.items():
                if k[0] != "c" or sym.T.keys[k[1]][0] != "pos":
                    continue
                x = sym.T.keys[k[1]][1]
                if same(sym, x, sym.neg(sym.power(d, -1))) or same(sym, x, sym.neg(d)):
                    neg = v
                elif same(sym, x, d) or same(sym, x, sym.power(d, -1)):
                    neg = not v
            R.count("slab tests")
            near, far = ("max", "min") if neg else ("min", "max")
            if neg is None:
                # without a case distinction both ends have to be compared
                for k, op in zip(ks, ("max", "min")):
                    at = atoms_in(sym, b.env[k])
                    R.oblige({"min", "max"} <= {sym.T.keys[a][1].split("::")[-1] for a in at if sym.T.keys[a][0] == "call"}, "slab:sign", "isect_range() takes %s whatever the sign of the direction" % sym.show(b.env[k]), f.where())
                continue
            for k, op, end in ((ks[0], "max", near), (ks[1], "min", far)):
                v = b.env[k]
                kk2 = sym.T.keys[atom(v)] if atom(v) is not None else None
                ok = kk2 is not None and kk2[0] == "call" and kk2[1].split("::")[-1] in (op, "f" + op) and len(kk2[2]) == 2
                if ok:
                    x = [y for y in kk2[2] if not same(sym, y, head.env[k])]
                    ok = len(x) == 1 and same(sym, x[0], T[end])
                R.oblige(ok, "slab:%s" % ("near" if op == "max" else "far"), "isect_range() with a %s direction makes the %s end of the range %s" % ("negative" if neg else "positive", "near" if op == "max" else "far", sym.show(v)), f.where(), sample="slab: %s" % sym.show(v))
        for s, v in outs:
            if isconst(v) and v[1] == 0:
                # refused: the range is empty
                R.count("slab tests")
                ok = any(k[0] == "c" and b and sym.T.keys[k[1]][0] == "pos" for k, b in s.facts.items())
                R.oblige(ok, "slab:refused", "isect_range() refuses a ray whose range is not empty", f.where())
        R.oblige(any(isconst(v) and v[1] == 1 for s, v in outs), "slab:accepted", "isect_range() accepts no ray", f.where())

    def merged(self):
        R, P = self.R, self.P
        for f in P.funcs.values():
            if f.qn != "lm::merge" or f.body is None or len(f.params) != 2 or "Bound" not in P.tstr(f.params[0]["t"]):
                continue
            h = SH(P)
            sym = Sym(P, h)
            for s, v in sym.start(f, None):
                for side in ("min", "max"):
                    x = sym.field(v, side)
                    k = sym.T.keys[atom(x)] if atom(x) is not None else None
                    want = []
                    for i in (0, 1):
                        p = par(sym, f, i)
                        want.append(sym.field(p, side) if "Bound" in P.tstr(f.params[i]["t"]) else p)
                    ok = k is not None and k[0] == "call" and k[1].split("::")[-1] == side and len(k[2]) == 2 and (same(sym, k[2][0], want[0]) and same(sym, k[2][1], want[1]) or same(sym, k[2][0], want[1]) and same(sym, k[2][1], want[0]))
                    R.count("merged bounds")
                    R.oblige(ok, "merge:%s" % side, "the %simum of two merged bounds is %s" % (side, sym.show(x)), f.where())

    def transforms(self):
        R, P = self.R, self.P
        n = 0
        for c in P.by_cls.get("lm::Transform", ()):
            if not c.get("ctor") or c.body is None or len(c.params) != 1 or "mat<4" not in P.tstr(c.params[0]["t"]):
                continue
            n += 1
            h = SH(P)
            sym = Sym(P, h)
            rec, ps = construct(sym, c)
            M = ps[0]
            R.oblige(same(sym, sym.field(rec, "M"), M), "transform:M", "Transform(M) keeps %s as the transform" % sym.show(sym.field(rec, "M")), c.where())
            ops = []
            x = sym.field(rec, "normal_M")
            while atom(x) is not None and x != M:
                k = sym.T.keys[atom(x)]
                if k[0] == "ctor" and len(k[2]) == 1:
                    x = k[2][0]
                elif k[0] == "call" and len(k[2]) == 1:
                    ops.append(k[1].split("::")[-1])
                    x = k[2][0]
                else:
                    break
            R.count("transforms", 2)
            R.oblige(same(sym, x, M) and sorted(ops) in (["inverse", "transpose"], ["inverseTranspose"]), "transform:normal", "Transform(M) makes the transform of normals %s of M, not its inverse transposed" % (" of ".join(ops) or "a part"), c.where(), sample="normal_M = %s of M" % " of ".join(ops))
            at = atoms_in(sym, sym.field(rec, "J"))
            names = {sym.T.keys[a][1].split("::")[-1] for a in at if sym.T.keys[a][0] == "call"} | {"abs" for a in at if sym.T.keys[a][0] == "abs"}
            R.oblige(atom(M) in at and names >= {"abs", "determinant"}, "transform:J", "Transform(M) makes the change of volume %s, not the absolute value of the determinant" % sym.show(sym.field(rec, "J")), c.where())
            R.oblige(not names & {"inverse", "inverseTranspose"}, "transform:J", "Transform(M) takes the determinant of an inverse", c.where())
        if not n:
            raise GiveUp("no constructor")

    def frames(self):
        """tangents are orthonormal to the normal, and the frame built from them is (u, v, n)"""
        R, P = self.R, self.P
        fs = [f for f in P.funcs.values() if f.qn == "lm::math::orthonormal_basis" and f.body is not None]
        for f in fs:
            h = SH(P)
            sym = Sym(P, h)
            outs = sym.start(f, None)
            n = par(sym, f, 0)
            rnd = random.Random(23)
            for s, v in outs:
                if v[0] not in "r":
                    raise GiveUp("the value of orthonormal_basis()")
                u, w = sym.field(v, 0), sym.field(v, 1)
                bad = None
                tested = 0
                for _ in range(self.N * 2):
                    # rational points of the unit sphere
                    a, b = (Fraction(rnd.randint(-1000, 1000), rnd.randint(1, 1000)) for _ in range(2))
                    q = a * a + b * b + 1
                    N = (2 * a / q, 2 * b / q, (a * a + b * b - 1) / q)
                    env = {atom(n): N}
                    E = Val(sym, env)
                    try:
                        if not all(self.holds(sym, E, k, x) for k, x in s.facts.items()):
                            continue
                        U, W = E.val(u), E.val(w)
                    except ZeroDivisionError:
                        continue
                    tested += 1
                    for what, val, want in (("u . n", dot(U, N), 0), ("v . n", dot(W, N), 0), ("u . v", dot(U, W), 0), ("u . u", dot(U, U), 1), ("v . v", dot(W, W), 1)):
                        if val != want and bad is None:
                            bad = "%s is not %d for n = %s" % (what, want, tuple(map(str, N)))
                R.count("identities", 5)
                R.oblige(bad is None, "frame:basis", "the tangents of orthonormal_basis() are not orthonormal: %s" % bad, f.where(), sample="u, v orthonormal at %d rational unit vectors" % tested)
        f = method(P, "lm::PointGeometry", "make_on_surface", 4)
        if f is None:
            raise GiveUp("no make_on_surface()")
        h = SH(P, (), ("orthonormal_basis",))
        sym = Sym(P, h)
        for s, v in sym.start(f, "lm::PointGeometry"):
            if v[0] != "r":
                continue
            for i, nm in enumerate(("p", "n", "gn", "t")):
                x = sym.field(v, nm)
                R.count("fields of a surface point")
                R.oblige(same(sym, x, par(sym, f, i)), "frame:%s" % nm, "make_on_surface() sets %s to %s" % (nm, sym.show(x)), f.where())
            for nm in ("degenerated", "infinite"):
                x = sym.field(v, nm)
                R.oblige(isconst(x) and x[1] == 0, "frame:%s" % nm, "make_on_surface() makes a point that is %s" % nm, f.where())
            W, L = sym.field(v, "to_world"), sym.field(v, "to_local")
            k = sym.T.keys[atom(W)] if atom(W) is not None else None
            if k is None or k[0] != "ctor" or len(k[2]) != 3:
                R.count("parts not decided")
                continue
            R.oblige(same(sym, k[2][0], sym.field(v, "u")) and same(sym, k[2][1], sym.field(v, "v")) and same(sym, k[2][2], par(sym, f, 1)), "frame:world", "make_on_surface() makes the frame of a point %s, not the tangents and the normal" % ", ".join(sym.show(x) for x in k[2]), f.where())
            k = sym.T.keys[atom(L)] if atom(L) is not None else None
            ok = k is not None and k[0] == "call" and k[1].split("::")[-1] in ("transpose", "inverse") and same(sym, k[2][0], W)
            R.oblige(ok, "frame:local", "make_on_surface() makes the transform into the frame of a point %s, not the inverse of the frame" % sym.show(L), f.where())

    def holds(self, sym, E, k, b):
        if k[0] != "c" or sym.T.keys[k[1]][0] != "pos":
            return True
        return (E.val(sym.T.keys[k[1]][1]) > 0) == b


def check(ctx):
    R = Result()
    P = ctx.P
    for cls in sorted(P.all_derived("lm::Scene")):
        if P.by_cls.get(cls) and not cls.endswith("_Py"):
            SceneRule(R, P, cls).check()
    for cls in sorted(P.all_derived("lm::Accel")):
        if P.by_cls.get(cls) and not cls.endswith("_Py"):
            AccelRule(R, P, cls).check()
    Formulas(R, P).each(["triangle", "slabs", "merged", "transforms", "frames"])
    return R
