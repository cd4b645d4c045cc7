"""S10: a result that may be empty (null pointer, disengaged optional, end iterator) is checked before it is used."""
from ..core import *
from ..prog import kids, walk
from .s03 import ntext

OPT = ("std::optional<", "const std::optional<")
UPTR = ("std::unique_ptr<", "const std::unique_ptr<")
CREATE = ("lm::comp::create", "lm::comp::create_without_construct")
LIBNULL = ("stbi_loadf", "stbi_load", "stbi_load_16", "fopen", "std::fopen", "getenv", "std::getenv", "dlopen", "dlsym", "strstr", "strchr", "std::strchr", "std::strstr")
FIND = ("find", "find_if", "lower_bound", "upper_bound")


def is_dyn(n):
    return n is not None and n["k"] == "Cast" and n.get("ckk") == "Dynamic"


class NInterp(Interp):
    """the result of a dynamic_cast is a value of its own: it may be empty while its operand is not"""

    def resolve(self, fr, n, depth=0):
        if is_dyn(n) and self.p.ty(n.get("t", -1))["k"] == "ptr":
            return frozenset({(("v", "dyn%s" % n["id"], fr.id),)})
        return super().resolve(fr, n, depth)


def strip(n):
    while n is not None and not is_dyn(n) and n["k"] in ("Construct", "Cast", "InitList", "ExprWithCleanups", "CXXBindTemporaryExpr", "MaterializeTemporaryExpr") and \
            len([c for c in n.get("c", []) if c and c["k"] != "DefaultArg"]) == 1:
        n = [c for c in n["c"] if c and c["k"] != "DefaultArg"][0]
    return n


def is_null(P, n):
    n0 = n
    n = strip(n)
    if n is None:
        return False
    if n["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or (n["k"] == "DeclRefExpr" and n.get("n") == "nullopt"):
        return True
    if n["k"] in ("Construct", "InitList", "CXXScalarValueInitExpr", "ImplicitValueInitExpr") and not [c for c in n.get("c", []) if c and c["k"] != "DefaultArg"]:
        t = P.tstr(n.get("t", -1)).replace("const ", "")
        return t.startswith(("std::optional<", "std::unique_ptr<", "std::shared_ptr<")) or P.ty(n.get("t", -1))["k"] == "ptr"
    return False


# Locators of the root context and its asset group: they exist once the framework is initialised.
ROOTS = ("$", "$.assets")
# Frozen exceptions, one reason each: (function, expression) pairs that rely on an established precondition.
EXCEPT = {
    # per-ray query: every renderer establishes the structure through require_renderable()/build()
    ("lm::Scene_::intersect", "accel_"): "precondition established by require_accel() before any ray query",
    # evaluated only for full paths with non-zero contribution, whose camera direction is on screen
    ("lm::Path::raster_position", "lm::path::raster_position"): "only called for paths with non-zero contribution",
    ("lm::(anonymous namespace)::connect_and_eval_contrb", "lm::path::raster_position"): "only reached with non-zero contribution",
    ("lm::UserContext::save_state_to_file", "root_assets_"): "check_initialized() precedes",
    ("lm::UserContext::load_state_from_file", "root_assets_"): "check_initialized() precedes",
}


class Null:
    """st.x: access paths that may be empty here."""

    def __init__(self, rule):
        self.r = rule
        self.P = rule.P
        self.rets = []          # does a maybe-empty value reach a return of the analysed function?
        self.bads = []
        self.derefs = 0

    def merge_x(self, a, b):
        return (a or frozenset()) | (b or frozenset())

    def havoc_x(self, x, a):
        return x

    def paths(self, it, fr, n):
        return it.resolve(fr, n)

    def maybe(self, it, fr, n, st):
        """may the value of expression n be empty?  returns reason or None"""
        P = self.P
        n = strip(n)
        if n is None:
            return None
        if is_null(P, n):
            return "empty"
        k = n["k"]
        if k == "ConditionalOperator":
            a, b = it.assume(fr, n["c"][0], st)
            return (self.maybe(it, fr, n["c"][1], a) if a is not None else None) or (self.maybe(it, fr, n["c"][2], b) if b is not None else None)
        if k == "Call" and n.get("fn") in ("std::move", "std::forward") and len(n["c"]) > 1:
            return self.maybe(it, fr, n["c"][1], st)
        if k == "MCall" and n.get("mname") in ("get", "release") and "_ptr<" in n.get("cls", ""):
            return self.maybe(it, fr, n["c"][0], st)
        why = self.r.nullable_call(fr.fn, n)
        if why:
            # helpers analysed in place: the resolved variables decide
            return why
        if k in ("DeclRefExpr", "MemberExpr") or (k == "OpCall" and n.get("op") == "[]") or k == "ArraySubscriptExpr" or \
                (k == "MCall" and n.get("mname") in ("at", "front", "back", "top") and n.get("cls", "").startswith("std::")):
            for p in it.resolve(fr, n):
                if p in (st.x or ()):
                    return self.r.why.get(p, "may be empty")
        return None

    def setv(self, st, paths, why):
        x = st.x or frozenset()
        x = frozenset(q for q in x if not any(starts(q, p) for p in paths))
        if why:
            x = x | frozenset(paths)
            for p in paths:
                self.r.why.setdefault(p, why)
        return st.with_x(x)

    def on_var(self, it, fr, v, st):
        init = (v.get("c") or [None])[0]
        P = self.P
        t = P.tstr(v["t"]).replace("const ", "")
        tk = P.ty(v["t"])["k"]
        if init is None:
            if t.startswith(("std::optional<", "std::unique_ptr<", "std::shared_ptr<")) and not v.get("st"):
                return self.setv(st, frozenset({(("v", v["d"], fr.id),)}), "default-constructed empty")
            return st
        if tk == "ptr" or t.startswith(("std::optional<", "std::unique_ptr<", "std::shared_ptr<")) or "iterator" in t or "iter_impl" in t:
            why = self.maybe(it, fr, init, st)
            own = (("v", v["d"], fr.id),)
            ps = it.resolve_decl(fr, {"k": "DeclRefExpr", "dk": "local", "d": v["d"], "n": v["n"]}, 0)
            st = self.setv(st, frozenset({own}), why)
            if why and ps:
                st = st.with_x((st.x or frozenset()) | ps)
                for p in ps:
                    self.r.why.setdefault(p, why)
        return st

    def lazy(self, it, fr, ps, st):
        """an optional part of a plain structure (scene node ...) is absent unless it was asked for"""
        for p in ps:
            if len(p) < 2 or not isinstance(p[-1], str):
                continue
            fl = self.r.lazy.get(p[-2:]) or self.r.lazy.get(p[-1:])
            if fl is None or ("nn", repr(p)) in st.facts:
                continue
            if fl == "ptr":
                d = p[0][1] if isinstance(p[0], tuple) and p[0][0] == "v" else None
                t = self.r.node_params.get(d)
                if t is None:
                    continue
            return "'%s' of a node may be absent" % p[-1]
        return None

    def deref(self, it, fr, n, obj, st):
        o = strip(obj)
        self.derefs += 1
        ps = it.resolve(fr, obj)
        hit = [p for p in ps if p in (st.x or ())]
        why = None
        if hit:
            why = self.r.why.get(hit[0], "may be empty")
        elif o is not None and (is_dyn(o) or o["k"] in ("Call", "MCall", "OpCall")):
            why = self.r.nullable_call(fr.fn, o)
        elif o is not None and o["k"] in ("MemberExpr", "DeclRefExpr") and ps:
            why = self.lazy(it, fr, ps, st)
            # a helper already analysed as returning a checked path is not nullable
        if why:
            self.bads.append((fr, n, obj, why))
        st = st.with_facts(("nn", repr(p)) for p in ps)
        # used: from here on it is not empty (or the program is gone)
        if st.x and ps:
            st = st.with_x(st.x - ps)
        return st

    def on_node(self, it, fr, n, st):
        P = self.P
        k = n["k"]
        c = n.get("c", [])
        if k == "OpCall" and n.get("op") in ("*", "->") and len(c) == 1:
            t = P.tstr(P.strip_ref(c[0].get("t", -1))).replace("const ", "")
            if t.startswith(("std::optional<", "std::unique_ptr<", "std::shared_ptr<")) or "iterator" in t or "iter_impl" in t:
                return self.deref(it, fr, n, c[0], st), False
        if k == "MemberExpr" and n.get("arrow") and c and c[0] is not None and c[0]["k"] not in ("CXXThisExpr", "OpCall"):
            return self.deref(it, fr, n, c[0], st), False
        if k == "MCall" and n.get("arrow") and c and c[0] is not None and c[0]["k"] not in ("CXXThisExpr", "OpCall"):
            return self.deref(it, fr, n, c[0], st), False
        if k == "UnOp" and n["op"] == "*" and c:
            return self.deref(it, fr, n, c[0], st), False
        if (k == "BinOp" and n["op"] == "=") or (k == "OpCall" and n.get("op") == "="):
            t = P.tstr(P.strip_ref(c[0].get("t", -1))).replace("const ", "")
            if P.ty(P.strip_ref(c[0].get("t", -1)))["k"] == "ptr" or t.startswith(("std::optional<", "std::unique_ptr<", "std::shared_ptr<")) or "iterator" in t:
                why = self.maybe(it, fr, c[1], st)
                return self.setv(st, it.resolve(fr, c[0]), why), True
        if k == "MCall" and n.get("mname") in ("value",) and n.get("cls", "").startswith("std::optional"):
            return (st.with_x((st.x or frozenset()) - it.resolve(fr, c[0])), False)
        if k == "MCall" and n.get("mname") in ("reset",) and n.get("cls", "").startswith(("std::unique_ptr", "std::optional")):
            why = self.maybe(it, fr, c[1], st) if len(c) > 1 and c[1] and c[1]["k"] != "DefaultArg" else "reset to empty"
            return self.setv(st, it.resolve(fr, c[0]), why), True
        if k == "MCall" and n.get("mname") in ("push_back", "emplace_back", "push", "emplace", "push_front") and len(c) == 2 and c[1] is not None \
                and n.get("cls", "").startswith(("std::vector", "std::deque", "std::queue", "std::stack", "std::list")):
            et = P.strip_ref(c[1].get("t", -1))
            if P.ty(et)["k"] == "ptr" or P.tstr(et).replace("const ", "").startswith(("std::optional<", "std::unique_ptr<", "std::shared_ptr<")):
                why = self.maybe(it, fr, c[1], st)
                if why:
                    ps = frozenset(add(p, "[]") for p in it.resolve(fr, c[0]))
                    for p in ps:
                        self.r.why.setdefault(p, why)
                    return st.with_x((st.x or frozenset()) | ps), False
        if k == "MCall" and n.get("mname") in ("emplace",) and n.get("cls", "").startswith("std::optional"):
            return self.setv(st, it.resolve(fr, c[0]), None), True
        # a handle from a failed library call handed on to the library
        if k in ("Call", "MCall", "Construct") and st.x and n.get("fn", "").rsplit("::", 1)[-1] not in ("free", "stbi_image_free", "dlclose"):
            if not [t for t in it.targets(fr, n) if t in P.funcs and P.funcs[t].body]:
                for a in P.call_args(n):
                    if a is None or P.ty(P.strip_ref(a.get("t", -1)))["k"] != "ptr":
                        continue
                    for m in walk(a):
                        if m["k"] in ("DeclRefExpr", "MemberExpr") and P.ty(P.strip_ref(m.get("t", -1)))["k"] == "ptr":
                            hit = [p for p in it.resolve(fr, m) if p in (st.x or ()) and self.r.why.get(p, "").endswith("() may fail")]
                            if hit:
                                self.bads.append((fr, n, m, self.r.why[hit[0]]))
                                st = st.with_x(st.x - frozenset(hit))
        # out-parameters set by library / not inlined code
        if k in ("Call", "MCall", "OpCall") and st.x and n.get("fn") not in ("std::move", "std::forward"):
            gone = set()
            tg = [t for t in it.targets(fr, n) if t in P.funcs and P.funcs[t].body]
            for a, pt in zip(P.call_args(n), n.get("pt", [])):
                t = P.ty(pt)
                if a is not None and t["k"] == "ref" and not P.ty(t["to"]).get("const") and not tg:
                    gone |= it.resolve(fr, a)
            if gone:
                st = st.with_x(st.x - gone)
        return st, False

    def on_assume(self, it, fr, cond, sense, st):
        if st is None:
            return st
        if cond["k"] == "DeclRefExpr" and cond.get("dk") == "local":
            # flag computed from the test
            f, how = fr.lookup(cond.get("d"))
            if how == "var":
                v = f.fn.vars[cond["d"]]
                init = (v.get("c") or [None])[0]
                if self.P.ty(v["t"])["k"] == "bool" and init is not None and cond["d"] not in f.fn.assigned_vars():
                    a, b = it.assume(f, init, st)
                    r = a if sense else b
                    return r if r is not None else st
        r = it.nulltest(fr, cond)
        if r and r[0] and r[1] == sense:
            st = st.with_facts(("nn", repr(p)) for p in r[0])
            if st.x:
                st = st.with_x(st.x - r[0])
        # the key was asked for: find() with the same key on the same container found something
        q, want = self.asked(cond)
        if q is not None and want == sense and st.x:
            for v in fr.fn.vars.values():
                i = strip((v.get("c") or [None])[0])
                if i is not None and i["k"] == "MCall" and i.get("mname") == "find" and len(i["c"]) > 1 and v["d"] not in fr.fn.assigned_vars() \
                        and ntext(i["c"][0]) == ntext(q["c"][0]) and ntext(i["c"][1]) == ntext(q["c"][1]):
                    own = frozenset({(("v", v["d"], fr.id),)})
                    st = st.with_x(st.x - own - it.resolve_decl(fr, {"k": "DeclRefExpr", "dk": "local", "d": v["d"], "n": v["n"]}, 0))
        # iterator comparisons with end()
        c = cond.get("c", [])
        if cond["k"] in ("OpCall", "BinOp") and cond.get("op") in ("==", "!=") and len(c) == 2 and st.x:
            for a, b in ((c[0], c[1]), (c[1], c[0])):
                sb = strip(b)
                if sb is not None and sb["k"] in ("MCall", "Call") and (sb.get("mname") or sb.get("fn", "").rsplit("::", 1)[-1]) in ("end", "cend"):
                    if (cond["op"] == "!=") == sense:
                        st = st.with_x(st.x - it.resolve(fr, a))
                elif sb is not None and sb["k"] == "DeclRefExpr" and ("iterator" in self.P.tstr(sb.get("t", -1)) or "iter_impl" in self.P.tstr(sb.get("t", -1))):
                    if (cond["op"] == "!=") == sense:
                        st = st.with_x(st.x - it.resolve(fr, a) - it.resolve(fr, b))
                # p == q with q a known non-empty value
        return st

    @staticmethod
    def asked(cond):
        """(query call, sense in which the key is there) of  c.count(k), c.count(k) > 0, c.count(k) == 1, c.contains(k) ..."""
        n = strip(cond)
        if n is not None and n["k"] == "MCall" and n.get("mname") in ("count", "contains") and len(n["c"]) > 1:
            return n, True
        if n is not None and n["k"] == "BinOp" and n.get("op") in ("==", "!=", ">", ">=", "<", "<="):
            a, b = strip(n["c"][0]), strip(n["c"][1])
            op = n["op"]
            if a is not None and a["k"] == "Int":
                a, b, op = b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if a is not None and b is not None and a["k"] == "MCall" and a.get("mname") == "count" and len(a["c"]) > 1 and b["k"] == "Int":
                how = {("==", 0): False, ("!=", 0): True, (">", 0): True, (">=", 1): True, ("<", 1): False, ("<=", 0): False, ("==", 1): True}.get((op, int(b["v"])))
                if how is not None:
                    return a, how
        return None, None

    def on_return(self, it, fr, n, st):
        if fr.up is None or fr is self.root:
            e = kids(n)[0] if kids(n) else None
            if e is not None:
                w = self.maybe(it, fr, e, st)
                if w:
                    self.rets.append((w, fr.fn.where(n)))
        return st

    def inline(self, it, fr, n, f):
        if f.is_lambda:
            return True
        o = self.P.call_obj(n)
        if o is not None and o["k"] == "CXXThisExpr" and not f.get("virtual"):
            return True
        x = self.cur_x
        return False


class Rule:
    def __init__(self, ctx):
        self.ctx, self.P = ctx, ctx.P
        self.why = {}
        self.nullable_fns = {}
        self.keys = {k for c, k, a, w in ctx.registry() if k}
        self.ret = None
        P = self.P
        self.lazy = {}
        recs = set()
        for full, rec in P.records.items():
            if not rec.get("file", "").startswith(P.root + "/") or P.derives(full, "lm::Component"):
                continue
            for fl in rec.get("fields", ()):
                # the enclosing structure names its member of this type
                if P.tstr(fl["t"]).startswith("std::optional<"):
                    self.lazy[(fl["n"],)] = "opt"
                    recs.add(full)
                elif ctx.is_comp_ptr(fl["t"]) and fl.get("init"):
                    for f2, r2 in P.records.items():
                        for g in r2.get("fields", ()):
                            if P.ty(g["t"]).get("full") == full:
                                self.lazy[(g["n"], fl["n"])] = "ptr"
                                recs.add(f2)
        # structures handed to a callback one after the other, whatever their kind
        self.node_params = {}
        for f in P.funcs.values():
            if f.is_lambda:
                for p in f.params:
                    if P.ty(P.strip_ref(p["t"])).get("full") in recs:
                        self.node_params[p["d"]] = P.ty(P.strip_ref(p["t"]))["full"]

    def literal(self, f, n, depth=0):
        n = strip(n)
        if n is None or depth > 4:
            return None
        if n["k"] == "Str":
            return n["v"]
        if n["k"] == "DeclRefExpr" and n.get("dk") == "local" and n["d"] in f.vars and n["d"] not in f.assigned_vars():
            return self.literal(f, (f.vars[n["d"]].get("c") or [None])[0], depth + 1)
        if n["k"] == "ConditionalOperator":
            a, b = self.literal(f, n["c"][1], depth + 1), self.literal(f, n["c"][2], depth + 1)
            if a in self.keys and b in self.keys:
                return a
        return None

    def nullable_call(self, f, n):
        """reason why the call's result may be empty, or None"""
        P = self.P
        k = n["k"]
        if is_dyn(n):
            return "dynamic_cast" if P.ty(n.get("t", -1))["k"] == "ptr" else None
        if k not in ("Call", "MCall", "OpCall"):
            return None
        t = P.tstr(P.strip_ref(n.get("t", -1))).replace("const ", "")
        rt = P.ty(n.get("t", -1))
        fn = n.get("fn", "")
        if fn in CREATE:
            s = self.literal(f, n["c"][1]) if len(n["c"]) > 1 else None
            if s is not None and s in self.keys:
                return None
            return "component type may be unknown"
        if fn in LIBNULL:
            return fn + "() may fail"
        if fn == "lm::comp::get" and len(n["c"]) > 1:
            s = self.literal(f, n["c"][1])
            if s in ROOTS:
                return None
        m = n.get("mname") or fn.rsplit("::", 1)[-1]
        if m in FIND and ("iterator" in t or "iter_impl" in t) and not n.get("cls", "").startswith("lm::"):
            return "element may be missing"
        if n.get("f") is None:
            return None
        if t.startswith("std::optional<"):
            tg = P.targets(n)
            if any(x in P.funcs for x in tg):
                body = [P.funcs[x] for x in tg if x in P.funcs]
                own = n.get("c") and n["c"][0] is not None and n["c"][0]["k"] == "CXXThisExpr" and all(x in P.funcs and P.funcs[x].body for x in tg)
                return "result may be empty" if n.get("virt") and not own or any(x.key in self.nullable_fns for x in body) else None
            return "result may be empty" if fn.startswith("lm::") or n.get("cls", "").startswith("lm::") else None
        if rt["k"] == "ptr" or t.startswith("std::unique_ptr<"):
            for x in P.targets(n):
                if x in self.nullable_fns:
                    return "%s may return an empty result" % P.funcs[x].qn
        return None

    def run(self, f, x, dyn=None):
        h = Null(self)
        it = NInterp(self.P, h)
        it.refix = True
        rule = self

        def inline(it_, fr, n, g):
            if g.is_lambda:
                return True
            o = rule.P.call_obj(n)
            if o is not None and o["k"] == "CXXThisExpr":
                return True
            st = h.cur
            if st is not None and st.x:
                for a in rule.P.call_args(n):
                    if a is not None and it_.resolve(fr, a) & st.x:
                        return True
                if o is not None and it_.resolve(fr, o) & st.x:
                    return True
            return False
        h.inline = inline
        on = h.on_node

        def on_node(it_, fr, n, st):
            r = on(it_, fr, n, st)
            h.cur = r[0] if r is not None else st
            return r
        h.on_node = on_node
        h.cur = None
        env = {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in f.params}
        # visitors are shown every reference a component holds, including empty ones
        for p in f.params:
            if self.P.tstr(p["t"]) in ("lm::Component *&", "lm::Component*&"):
                q = (("v", p["d"], 0),)
                x = (x or frozenset()) | {q}
                self.why.setdefault(q, "a visited reference may be empty")
        fr = Frame(f, env, frozenset({("this",)}), dyn or f.cls or None)
        if f.is_lambda:
            chain, g = [], f
            while g is not None and g.is_lambda:
                g = self.P.lambda_parent(g)
                if g is not None:
                    chain.append(g)
            lex = None
            for g in reversed(chain):
                lex = Frame(g, {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in g.params}, frozenset({("this",)}), g.cls, lex=lex)
            fr.lex = lex
        h.root = fr
        st = it.run_fn(fr, St(x=x))
        h.left = sorted(p for p in (st.x or ()) if len(p) == 3 and p[0] == "this" and p[2] == "[]" and p not in (x or ())) if st is not None else []
        return h, st

    def own(self, f):
        return f.body and not f.get("implicit") and not f.get("defaulted") and f.file.startswith(self.P.root + "/")


def contracts(P, ctx):
    """{accessor method key: predicate method keys}: accessors that require a published presence query to hold"""
    out = {}
    for cls in ctx.component_classes():
        for o, fl in ctx.fields(cls):
            if not P.tstr(fl["t"]).startswith("std::optional<"):
                continue
            q = predicate(P, ctx, cls, fl["n"])
            if not q:
                continue
            for f in ctx.methods(cls):
                for n in f.walk():
                    if n["k"] == "OpCall" and n.get("op") in ("*", "->") and n["c"] and n["c"][0]["k"] == "MemberExpr" and n["c"][0]["n"] == fl["n"] \
                            and f.get("virtual") and f.name != "construct":
                        for b in overridden(P, f.key):
                            for qb in overridden(P, q):
                                if P.method_decl[b][0]["full"] == P.method_decl[qb][0]["full"]:
                                    out.setdefault(b, set()).add(qb)
    return out


def overridden(P, key):
    out, st = set(), [key]
    while st:
        k = st.pop()
        d = P.method_decl.get(k)
        for o in (d[1].get("over", ()) if d else ()):
            if o not in out:
                out.add(o)
                st.append(o)
    return out


def check_contracts(ctx, R):
    """a component calling an accessor that needs a presence query asks the query in a branch before keeping the reference"""
    P = ctx.P
    con = contracts(P, ctx)
    R.counts["presence_queries"] = len(con)
    for f in P.funcs.values():
        cls = P.outer(f).cls
        if not cls or not P.derives(cls, "lm::Component") or "pylm" in f.file:
            continue
        for n in f.walk():
            if n["k"] == "MCall" and n.get("f") in con and n["c"] and n["c"][0]["k"] != "CXXThisExpr":
                asked = False
                for g in ctx.methods(cls):
                    for h in [g] + ctx.lambdas_of(g):
                        for m in h.walk():
                            if m["k"] == "MCall" and m.get("f") in con[n["f"]]:
                                anc = [m] + list(h.ancestors(m))
                                for a, b in zip(anc, anc[1:]):
                                    if b["k"] in ("IfStmt", "ConditionalOperator", "WhileStmt") and not (b["k"] == "IfStmt" and a is b["c"][3]):
                                        asked = True
                                        break
                                    if b["k"] in ("ReturnStmt", "Var"):
                                        asked = True
                                        break
                R.count("presence_query_uses")
                R.oblige(asked, "%s/%s/presence" % (cls, n.get("mname")), "%s: calls %s() on a component without ever asking whether it provides that (%s)" % (
                    cls, n.get("mname"), "/".join(sorted(P.method_decl[q][1]["n"] for q in con[n["f"]]))), f.where(n),
                    sample="%s asks before calling %s" % (cls, n.get("mname")))


def predicate(P, ctx, cls, member):
    """the class publishes a query telling whether the optional member is present (has_alpha(), has_scalar() ...)"""
    for f in ctx.methods(cls):
        if f.params or P.ty(f.get("ret", -1))["k"] != "bool":
            continue
        for n in f.walk():
            if n["k"] == "ReturnStmt":
                ms = {m["n"] for m in walk(n) if m["k"] == "MemberExpr" and m.get("dk") == "field"}
                if ms == {member}:
                    return f.key
    return None


def check(ctx):
    P = ctx.P
    R = Result()
    r = Rule(ctx)
    fs = [f for f in P.funcs.values() if r.own(f)]
    # 1. which functions may hand out an empty result
    cand = []
    for f in fs:
        t = P.tstr(P.strip_ref(f.get("ret", -1))).replace("const ", "")
        if P.ty(f.get("ret", -1))["k"] == "ptr" or t.startswith(("std::optional<", "std::unique_ptr<")):
            cand.append(f)
    changed = True
    rounds = 0
    while changed and rounds < 6:
        changed = False
        rounds += 1
        for f in cand:
            if f.key in r.nullable_fns:
                continue
            if f.params and all(P.ty(P.strip_ref(p["t"]))["k"] in ("int", "enum", "bool") for p in f.params):
                continue        # accessor selected by an index: emptiness is an out-of-range index, not a failed operation
            h, st = r.run(f, frozenset())
            if h.rets:
                r.nullable_fns[f.key] = h.rets[0]
                changed = True
    R.counts["functions_with_possibly_empty_result"] = len(r.nullable_fns)
    # 2. members that may be empty after construction
    maybe = {}
    for cls in ctx.component_classes():
        ptrs = [(o, f) for o, f in ctx.fields(cls) if ctx.is_comp_ptr(f["t"]) or ctx.is_comp_uptr(f["t"]) or P.tstr(f["t"]).startswith("std::optional<")]
        if not ptrs:
            continue
        owner, m = P.find_method(cls, "construct")
        cf = P.funcs.get(m["f"]) if m else None
        x = frozenset(("this", f["n"]) for o, f in ptrs if f.get("init") or f.get("defok"))
        x = frozenset(p for p in x if not predicate(P, ctx, cls, p[1]))
        for p in x:
            r.why.setdefault(p, "may be left empty")
        if cf is not None and cf.body:
            h, st = r.run(cf, x, cls)
            x = frozenset(p for p in (st.x or ()) if len(p) == 2 and p[0] == "this") if st is not None else frozenset()
        maybe[cls] = frozenset(p for p in x if not predicate(P, ctx, cls, p[1]))
    # 3. every dereference
    R.counts["dereferences"] = 0
    bads = {}
    for f in fs:
        outer = P.outer(f)
        if f.is_lambda and P.lambda_parent(f) is not None:
            pass
        clss = [outer.cls] if outer.cls else [None]
        x = frozenset()
        if outer.cls in maybe and outer.name not in ("construct",) and not outer.get("ctor"):
            x = maybe[outer.cls]
        h, st = r.run(f, x)
        R.counts["dereferences"] += h.derefs
        for p in h.left:
            R.bad("%s/%s/stored" % (P.outer(f).qn, p[1]), "%s stores a result that may be empty (%s) in '%s' without checking it" % (f.label(), r.why.get(p, ""), p[1]), f.where())
        for fr, n, obj, why in h.bads:
            k = (fr.fn.key, n["id"])
            if f.is_lambda and fr.fn is f:
                # analysed again (with its captured state) inside the enclosing function
                bads.setdefault(k, []).append((f, fr, n, obj, why, True))
            else:
                bads.setdefault(k, []).append((f, fr, n, obj, why, False))
    for k, l in bads.items():
        f, fr, n, obj, why, _ = l[0]
        o = strip(obj)
        if (P.outer(fr.fn).qn, obj.get("n") or (o or {}).get("fn") or obj.get("mname")) in EXCEPT:
            R.count("frozen_exceptions")
            continue
        R.bad("%s/%s@%s" % (P.outer(fr.fn).qn, obj.get("n") or obj.get("mname") or obj.get("fn") or obj["k"], fr.fn.name), "%s uses %s without checking it (%s)" % (
            fr.fn.label(), obj.get("n") or (obj.get("mname") or obj.get("fn", "a result")) , why), fr.fn.where(n), fr.trace(n))
    R.obligations = R.counts["dereferences"]
    R.discharged = R.obligations - len(R.viol)
    check_contracts(ctx, R)
    R.floor("dereferences", 800)
    R.floor("functions_with_possibly_empty_result", 30)
    return R
