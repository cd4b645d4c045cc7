"""S04: loading, replacing and failing to load an asset leave the asset tree consistent."""
from ..core import *
from ..prog import kids, walk
from ..interp import Interp, Frame, St, add, starts
from .s13 import strip, trampolines

INS = ("push_back", "emplace_back", "emplace", "insert", "try_emplace", "insert_or_assign", "resize")
DEL = ("erase", "pop_back", "clear", "extract")


def member(paths):
    return {p[1] for p in paths if p and p[0] == "this" and len(p) > 1 and isinstance(p[1], str)}


class Reg:
    """st.x: frozenset of outstanding effects
         ('ins', M)        something was inserted into member container M
         ('slot', M)       an element of M was replaced
         ('relink', M)     references to the replaced element have not been updated yet
    """

    def __init__(self, ctx, rule):
        self.ctx, self.P, self.rule = ctx, ctx.P, rule
        self.bads = []
        self.user_calls = 0
        self.saved = {}       # local decl -> member whose element it holds

    def merge_x(self, a, b):
        return (a or frozenset()) | (b or frozenset())

    def inline(self, it, fr, n, f):
        if f.is_lambda:
            # visitor lambdas are judged separately
            return not any("ComponentVisitor" in self.P.tstr(p["t"]) or "Component *&" in self.P.tstr(p["t"]) for p in f.params)
        o = self.P.call_obj(n)
        return o is not None and o["k"] == "CXXThisExpr"

    def on_assume(self, it, fr, cond, sense, st):
        """once something was inserted into M, 'not found in M' is not a feasible outcome"""
        if st is None or not st.x:
            return st
        c = strip(cond)
        absent = None
        if c["k"] in ("BinOp", "OpCall") and c.get("op") in ("==", "!=") and len(c.get("c", ())) == 2:
            for a in c["c"]:
                for y in walk(a):
                    if y["k"] == "MCall" and y.get("mname") in ("end", "cend"):
                        absent = (member(it.resolve(fr, y["c"][0])), c["op"] == "==")
                    elif y["k"] == "MCall" and y.get("mname") == "count":
                        absent = (member(it.resolve(fr, y["c"][0])), c["op"] == "==")
        elif c["k"] == "MCall" and c.get("mname") in ("count", "contains"):
            absent = (member(it.resolve(fr, c["c"][0])), False)
        if absent and sense == absent[1] and any(("ins", m) in st.x for m in absent[0]):
            return None
        return st

    def throws(self, it, fr, n, st, what):
        x = frozenset(e for e in (st.x or ()) if e[0] in ("ins", "slot"))
        if it.tries:
            it.tries[-1] |= x
        elif x:
            self.bads.append(("escape", fr, n, what, x))

    def on_var(self, it, fr, v, st):
        init = (v.get("c") or [None])[0]
        if init is None:
            return st
        s = strip(init)
        if s is not None and s["k"] == "Call" and s.get("fn") in ("std::move", "std::exchange") and len(s["c"]) > 1:
            m = member(it.resolve(fr, s["c"][1]))
            if m and any("[]" in p or "*" in p for p in it.resolve(fr, s["c"][1])):
                self.saved[v["d"]] = m
                if s["fn"] == "std::exchange":
                    st = st.with_x((st.x or frozenset()) | {("slot", y) for y in m} | {("relink", y) for y in m})
        return st

    def on_node(self, it, fr, n, st):
        P = self.P
        k = n["k"]
        c = n.get("c", [])
        x = st.x or frozenset()
        if k == "Throw":
            if it.in_handler or x:
                self.throws(it, fr, n, st, "an exception")
            return None
        if k == "MCall" and n.get("mname") in INS and not n.get("cls", "").startswith("lm::"):
            m = member(it.resolve(fr, c[0]))
            if m:
                return st.with_x(x | {("ins", y) for y in m}), True
        if k == "MCall" and n.get("mname") in DEL and not n.get("cls", "").startswith("lm::"):
            m = member(it.resolve(fr, c[0]))
            if m:
                return st.with_x(frozenset(e for e in x if not (e[0] == "ins" and e[1] in m))), True
        # releasing the kept old asset while references to it have not been updated
        rel = None
        if k == "MCall" and n.get("mname") in ("reset", "release") and c:
            rel = strip(c[0])
        elif k in ("BinOp", "OpCall") and n.get("op") == "=" and len(c) == 2 and strip(c[0]) is not None and strip(c[0])["k"] == "DeclRefExpr":
            rel = strip(c[0])
        if rel is not None and rel["k"] == "DeclRefExpr" and rel.get("d") in self.saved and (any(e[0] in ("relink", "relinkold") for e in x) or ("constructed",) not in x):
            self.bads.append(("destroyed", fr, n, "", self.saved[rel["d"]]))
        sw = None
        if k == "Call" and n.get("fn") in ("std::swap", "std::iter_swap") and len(c) > 2:
            sw = (c[1], c[2])
        elif k == "MCall" and n.get("mname") == "swap" and len(c) > 1:
            sw = (c[0], c[1])
        if sw:
            for a, b in (sw, sw[::-1]):
                ps = it.resolve(fr, a)
                m = member(ps)
                sb = strip(b)
                if m and any("[]" in p or "*" in p or "[1]" in p for p in ps) and sb is not None and sb["k"] == "DeclRefExpr":
                    if any(("slot", y) in x for y in m) and sb.get("d") in self.saved:
                        x = frozenset(e for e in x if not (e[0] in ("slot", "relink") and e[1] in m)) | {("relinkold", y) for y in m}
                    else:
                        self.saved[sb["d"]] = m
                        x = x | {("slot", y) for y in m} | {("relink", y) for y in m}
                    return st.with_x(x), True
        if k in ("BinOp", "OpCall") and n.get("op") == "=":
            ps = it.resolve(fr, c[0])
            m = member(ps)
            elem = any(("[]" in p or "[1]" in p) for p in ps)
            if m and elem:
                t = P.ty(P.strip_ref(c[0].get("t", -1)))
                if self.ctx.is_comp_uptr(c[0].get("t", -1)):
                    src = [z.get("d") for z in walk(c[1]) if z["k"] == "DeclRefExpr"]
                    if any(d in self.saved and self.saved[d] & m for d in src):
                        x = frozenset(e for e in x if not (e[0] in ("slot", "relink") and e[1] in m))
                    else:
                        if not any(v & m for v in self.saved.values()):
                            self.bads.append(("destroyed", fr, n, "", m))
                        x = x | {("slot", y) for y in m} | {("relink", y) for y in m}
                    return st.with_x(x), True
                # operator[] on a map inserts
                if any(z["k"] == "OpCall" and z.get("op") == "[]" and "map<" in z.get("cls", "") for z in walk(c[0])):
                    return st.with_x(x | {("ins", y) for y in m}), True
        # the calls that run component code
        if k == "MCall" and n.get("mname") == "construct" and P.derives(n.get("cls", ""), "lm::Component"):
            self.user_calls += 1
            if not any(e[0] in ("ins", "slot") for e in x):
                self.bads.append(("unregistered", fr, n, "", x))
            self.throws(it, fr, n, st, "construct()")
            return st.with_x(x | {("constructed",)}), True
        if k == "Call" and n.get("fn", "").startswith("lm::serial::load_"):
            self.user_calls += 1
            if not any(e[0] in ("ins", "slot") for e in x):
                self.bads.append(("unregistered", fr, n, "", x))
            self.throws(it, fr, n, st, "deserialization")
            return st.with_x(x | {("constructed",)}), True
        if k == "MCall" and n.get("mname") == "foreach_underlying" and P.derives(n.get("cls", ""), "lm::Component"):
            lam = self.rule.visitor_lambda(fr.fn, n)
            if lam is not None and self.rule.relinks(lam) and self.rule.from_root(fr.fn, n):
                if ("constructed",) in x or not any(e[0] == "slot" for e in x):
                    return st.with_x(frozenset(e for e in x if e[0] not in ("relink", "relinkold"))), True
            return st, True
        return st, False


class It(Interp):
    def __init__(self, P, h):
        super().__init__(P, h)
        self.tries = []
        self.in_handler = 0

    def stmt(self, fr, n, st, loops):
        if n is None or st is None or n["k"] != "CXXTryStmt":
            return super().stmt(fr, n, st, loops)
        c = n["c"]
        pre = st
        self.tries.append(frozenset())
        a = self.stmt(fr, c[0], st, loops)
        thrown = self.tries.pop()
        outs = [a]
        if not any(h.get("all") for h in c[1:]):
            if self.tries:
                self.tries[-1] |= thrown
            elif thrown:
                self.h.bads.append(("escape", fr, n, "an exception of another type", thrown))
        for h in c[1:]:
            hs = St(pre.facts, pre.nulls, frozenset(pre.x or ()) | thrown)
            self.in_handler += 1
            o = self.stmt(fr, h["c"][0] if h.get("c") else None, hs, loops)
            self.in_handler -= 1
            if o is not None and any(e[0] in ("ins", "slot") for e in (o.x or ())):
                self.h.bads.append(("swallowed", fr, h, "", o.x))
            outs.append(o)
        return self.mergeall(outs)


class Rule:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self._rl = {}

    def visitor_lambda(self, f, n):
        for a in n["c"][1:]:
            for x in walk(a) if a is not None else ():
                if x["k"] == "Lambda":
                    return self.P.funcs.get(x["f"])
                if x["k"] == "DeclRefExpr":
                    g = f
                    while g is not None:
                        v = g.vars.get(x.get("d"))
                        if v is not None:
                            for y in walk((v.get("c") or [None])[0] or {"k": ""}):
                                if y["k"] == "Lambda":
                                    return self.P.funcs.get(y["f"])
                        g = self.P.lambda_parent(g) if g.is_lambda else None
        return None

    def from_root(self, f, n):
        o = n["c"][0]
        for x in walk(o):
            if x["k"] == "Str" and x["v"] == "$":
                return True
            if x["k"] == "DeclRefExpr" and x.get("dk") == "local" and x["d"] in f.vars:
                if any(y["k"] == "Str" and y["v"] == "$" for y in walk((f.vars[x["d"]].get("c") or [None])[0] or {"k": ""})):
                    return True
        return False

    def relinks(self, f):
        """visitor: owned children are visited recursively, weak references are looked up again"""
        if f.key in self._rl:
            return self._rl[f.key]
        P = self.P
        rule = self
        comp = next((p for p in f.params if "Component" in P.tstr(p["t"])), None)
        weak = next((p for p in f.params if P.ty(p["t"])["k"] == "bool"), None)
        if comp is None or weak is None:
            return False

        class V:
            def merge_x(s, a, b):
                return a if a == b else (a or frozenset()) & (b or frozenset())

            def on_node(s, it, fr, n, st):
                x = st.x or frozenset()
                if n["k"] == "Call" and n.get("fn") == "lm::comp::update_weak_ref" and any(y.get("d") == comp["d"] for y in walk(n)):
                    return st.with_x(x | {"update"}), True
                if n["k"] == "BinOp" and n["op"] == "=" and n["c"][0].get("d") == comp["d"] and any(y["k"] == "Call" and y.get("fn", "").startswith("lm::comp::get") for y in walk(n["c"][1])):
                    return st.with_x(x | {"update"}), True
                if n["k"] == "MCall" and n.get("mname") == "foreach_underlying" and any(y.get("d") == comp["d"] for y in walk(n["c"][0])):
                    return st.with_x(x | {"recurse"}), True
                return st, False

            def on_assume(s, it, fr, cond, sense, st):
                if st is None:
                    return st
                c = strip(cond)
                if c["k"] == "DeclRefExpr" and c.get("d") == weak["d"]:
                    return st.with_x((st.x or frozenset()) | ({"recurse"} if sense else {"update"}))
                if c["k"] == "BinOp" and c["op"] in ("==", "!=") and (c["op"] == "==") == sense and any(y.get("d") == comp["d"] for y in walk(c)) and not any(y["k"] == "CXXThisExpr" for y in walk(c)):
                    return st.with_x(frozenset({"update", "recurse"}))      # null or the asset itself
                if c["k"] == "DeclRefExpr" and c.get("d") == comp["d"] and not sense:
                    return st.with_x(frozenset({"update", "recurse"}))
                return st

            def inline(s, it, fr, n, g):
                return False
        it = Interp(P, V())
        end = it.run_fn(Frame(f, {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in f.params}), St(x=frozenset()))
        self._rl[f.key] = end is not None and {"update", "recurse"} <= (end.x or frozenset())
        return self._rl[f.key]


def index_shift(P, cls, f):
    it = Interp(P, None)
    fr = Frame(f, {}, frozenset({("this",)}), cls)
    vecs = {fl["n"] for _, fl in P.all_fields(cls) if P.tstr(fl["t"]).startswith("std::vector")}
    maps = {fl["n"] for _, fl in P.all_fields(cls) if P.tstr(fl["t"]).startswith(("std::unordered_map", "std::map")) and
            P.ty((P.ty(fl["t"]).get("targs") or [-1, -1])[1])["k"] == "int"}
    if not vecs or not maps:
        return
    for n in f.walk():
        if not (n["k"] == "MCall" and n.get("mname") == "erase" and member(it.resolve(fr, n["c"][0])) & vecs and len(n["c"]) == 2):
            continue
        idx = {m["d"] for m in walk(n["c"][1]) if m["k"] == "DeclRefExpr" and m.get("dk") in ("local", "param")}
        ok = False
        for l in f.walk():
            if l["k"] not in ("CXXForRangeStmt", "ForStmt", "WhileStmt") or not member(it.loop_container(fr, l)) & maps:
                continue
            for d in walk(l):
                if not (d["k"] == "UnOp" and d["op"] == "--" or d["k"] == "CAssign" and d["op"] == "-=" or d["k"] == "BinOp" and d["op"] == "="):
                    continue
                for c in walk(l):
                    if not (c["k"] == "BinOp" and c["op"] in (">", ">=", "<", "<=") and c.get("c")):
                        continue
                    a, b = strip(c["c"][0]), strip(c["c"][1])
                    plain = lambda e: not any(m["k"] in ("BinOp", "UnOp", "Int") for m in walk(e))
                    if plain(a) and plain(b) and any(m.get("d") in idx for e in (a, b) for m in walk(e)):
                        ok = True
        yield n, ok


def check(ctx):
    P = ctx.P
    R = Result()
    rule = Rule(ctx)
    tr = trampolines(ctx)
    impls = [c for c in P.all_derived("lm::AssetGroup") if c in P.records and c not in tr]
    P.need(impls, "no implementation of lm::AssetGroup found")
    text = {
        "escape": "when %s fails the asset stays registered half-constructed (or the old one is lost): the asset group is not restored",
        "swallowed": "a failed load is swallowed and the half-constructed asset stays registered%s",
        "destroyed": "the replaced asset is destroyed before the references to it are updated%s",
        "unregistered": "the asset is not reachable under its name while it is being constructed%s",
    }
    for cls in sorted(impls):
        for f in P.by_cls.get(cls, ()):
            if not f.body or f.is_lambda or f.name not in ("load_asset", "load_serialized"):
                continue
            h = Reg(ctx, rule)
            it = It(P, h)
            env = {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in f.params}
            end = it.run_fn(Frame(f, env, frozenset({("this",)}), cls), St(x=frozenset()))
            R.count("load_operations")
            R.count("component_code_calls", h.user_calls)
            kinds = {b[0] for b in h.bads}
            for kind in ("escape", "swallowed", "destroyed", "unregistered"):
                b = next((b for b in h.bads if b[0] == kind), None)
                R.oblige(b is None, "%s/%s" % (f.qn, kind), "%s: %s" % (f.qn, text[kind] % (b[3] if b else "") if "%s" in text[kind] else text[kind]), b[1].fn.where(b[2]) if b else f.where(),
                         sample="%s: no path leaves the group inconsistent (%s)" % (f.qn, kind))
            left = [e for e in (end.x or ()) if e[0] == "relink"] if end is not None else []
            R.oblige(not left, f.qn + "/relink", "%s: after an asset is replaced there is a path on which references held elsewhere are not updated to the new asset" % f.qn, f.where(),
                     sample="%s: weak references are updated after every replacement" % f.qn)
    R.floor("load_operations", 2)
    R.floor("component_code_calls", 2)
    # removing an element in the middle shifts the indices kept for the elements after it
    for cls in sorted(impls):
        for f in P.by_cls.get(cls, ()):
            if not f.body:
                continue
            for n, ok in index_shift(P, cls, f):
                R.count("index_shifts")
                R.oblige(ok, f.qn + "/shift", "%s: an element is removed from the middle of a list, but the indices kept for the elements after it are not all adjusted" % f.qn, f.where(n),
                         sample="%s: indices after the removed element are adjusted" % f.qn)
    # update of one reference
    for f in P.fns("lm::comp::update_weak_ref"):
        if not f.body:
            continue
        R.count("reference_updates")
        p = f.params[0]["d"]
        ok = any(n["k"] == "BinOp" and n["op"] == "=" and n["c"][0].get("d") == p and any(y["k"] == "Call" and y.get("fn", "").startswith("lm::comp::get") for y in walk(n["c"][1])) for n in f.walk())
        R.oblige(ok, "update_weak_ref", "updating a weak reference does not look the component up again under its locator", f.where())
    return R
