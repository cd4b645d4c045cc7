"""S05: construction initialises every member later behaviour reads, for every accepted configuration."""
from ..core import *
from ..prog import kids, walk
from .s01 import Access, only_used_by_construct, SERIAL_NAMES, SYNC


class Init:
    """facts ('w', path): the member (or sub-object) is definitely assigned"""

    def __init__(self, P):
        self.P = P
        self.reads = {}

    def refarg(self, par, n):
        P = self.P
        for a, pt in zip(P.call_args(par), par.get("pt", [])):
            if a is n:
                t = P.ty(pt)
                return (t["k"] == "ref" and not P.ty(t["to"]).get("const"))
        return False

    def on_init(self, it, fr, i, st):
        if i.get("member") and i.get("e"):
            return st.with_facts(("w", add(p, i["member"])) for p in it.this_of(fr))
        return st

    def on_node(self, it, fr, n, st):
        P = self.P
        k = n["k"]
        if (k == "BinOp" and n["op"] == "=") or (k == "OpCall" and n.get("op") == "="):
            return st.with_facts(("w", p) for p in it.resolve(fr, n["c"][0])), True
        if k in ("Call", "MCall", "Construct", "OpCall"):
            fs = set()
            body = [t for t in it.targets(fr, n) if t in P.funcs and P.funcs[t].body]
            for a, pt in zip(P.call_args(n), n.get("pt", [])):
                t = P.ty(pt)
                if a is not None and t["k"] == "ref" and not P.ty(t["to"]).get("const") and not body:
                    fs |= {("w", p) for p in it.resolve(fr, a)}
                # address handed to a library call (scanf-like)
                if a is not None and t["k"] == "ptr" and a["k"] == "UnOp" and a["op"] == "&" and not body:
                    fs |= {("w", p) for p in it.resolve(fr, a["c"][0])}
            if k == "MCall" and not n.get("mconst") and not n.get("cls", "").startswith("lm::"):
                fs |= {("w", p) for p in it.resolve(fr, n["c"][0])}
            if k == "MCall" and not n.get("mconst") and n.get("cls", "").startswith("lm::") and n["c"] and n["c"][0]["k"] != "CXXThisExpr" and not n.get("virt"):
                pass
            if fs:
                return st.with_facts(fs), False
        if k == "MemberExpr" and n.get("dk") == "field":
            par = fr.fn.parent(n)
            if par is not None:
                if par["k"] in ("BinOp", "OpCall") and par.get("op") == "=" and par["c"][0] is n:
                    return None
                if par["k"] == "MemberExpr":
                    return None      # the sub-object access is looked at itself
                if par["k"] == "MCall" and par["c"][0] is n:
                    return None
                if par["k"] == "UnOp" and par["op"] == "&":
                    return None
                if par["k"] in ("Call", "MCall", "Construct", "OpCall") and self.refarg(par, n):
                    return None
                if par["k"] == "ArraySubscriptExpr" or (par["k"] == "OpCall" and par.get("op") == "[]"):
                    return None
                if par["k"] == "Var" and P.ty(par["t"])["k"] in ("ref", "rref"):
                    return None
                if par["k"] == "ReturnStmt" and P.ty(fr.fn.get("ret", -1))["k"] == "ref":
                    return None
            for p in it.resolve(fr, n):
                if p[0] == "this" and len(p) >= 2:
                    self.reads.setdefault(p, []).append((st.facts, fr.fn.where(n), fr.fn.qn))
        return None

    def inline(self, it, fr, n, f):
        o = self.P.call_obj(n)
        if f.is_lambda or (o is not None and o["k"] == "CXXThisExpr"):
            return True
        # value-type members initialised through their own method (dist_.clear() ...)
        return f.cls.startswith("lm::") and not self.P.derives(f.cls, "lm::Component") or any(
            self.P.ty(p["t"])["k"] in ("ref", "ptr") for p in f.params) and f.cls == ""


def assigned(P, facts, path, t, depth=0, leafok=None):
    if ("w", path) in facts or ("w", add(path, "[]")) in facts:
        return True
    x = P.ty(P.strip_ref(t))
    if depth > 4 or x["k"] != "rec":
        return False
    if ("w", path + ("x",)) in facts and ("w", path + ("y",)) in facts and x.get("rec") == "glm::vec":
        return True
    if x.get("full") in P.records:
        fs = P.all_fields(x["full"])
        return bool(fs) and all(f.get("init") or f.get("defok") or assigned(P, facts, add(path, f["n"]), f["t"], depth + 1) for _, f in fs)
    return False


def run(ctx, cls, f, h):
    it = Interp(ctx.P, h)
    env = {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}
    return it.run_fn(Frame(f, env, frozenset({("this",)}), cls), St())


class Select:
    """facts ('sel', (var,)): the configured string is known to equal one of the accepted names"""

    def __init__(self, P, d):
        self.P, self.d = P, d

    def is_var(self, it, fr, n):
        while n is not None and n["k"] in ("Construct", "Cast", "MCall") and len([c for c in n.get("c", []) if c]) == 1 and (n["k"] != "MCall" or n.get("mname") in ("c_str", "data", "operator basic_string_view")):
            n = n["c"][0]
        return n is not None and n["k"] == "DeclRefExpr" and n.get("d") == self.d

    def on_node(self, it, fr, n, st):
        if n["k"] == "MCall" and n.get("mname") == "at" and any(self.is_var(it, fr, a) for a in self.P.call_args(n) if a is not None):
            return st.with_facts({("sel", ("opt",))}), False
        return None

    def on_assume(self, it, fr, cond, sense, st):
        if st is None:
            return st
        c = [x for x in cond.get("c", []) if x is not None]
        if cond["k"] in ("OpCall", "BinOp") and cond.get("op") in ("==", "!=") and len(c) == 2:
            eq = (cond["op"] == "==") == sense
            for a, b in ((c[0], c[1]), (c[1], c[0])):
                if self.is_var(it, fr, a) and eq:
                    return st.with_facts({("sel", ("opt",))})
                # found in / counted by a table of accepted names
                if not eq and self.lookup(it, fr, a):
                    return st.with_facts({("sel", ("opt",))})
        if cond["k"] == "BinOp" and cond.get("op") == ">" and sense and self.lookup(it, fr, c[0]):
            return st.with_facts({("sel", ("opt",))})
        if sense and cond["k"] in ("MCall", "Call", "Cast") and self.lookup(it, fr, cond):
            return st.with_facts({("sel", ("opt",))})
        return st

    def lookup(self, it, fr, n):
        while n is not None and n["k"] in ("Cast", "Construct") and len([c for c in n.get("c", []) if c]) == 1:
            n = n["c"][0]
        if n is None:
            return False
        if n["k"] == "DeclRefExpr" and n.get("dk") == "local" and n["d"] in fr.fn.vars:
            i = (fr.fn.vars[n["d"]].get("c") or [None])[0]
            return i is not None and i["k"] != "DeclRefExpr" and self.lookup(it, fr, i)
        if n["k"] in ("MCall", "Call"):
            nm = n.get("mname") or n.get("fn", "").rsplit("::", 1)[-1]
            return nm in ("find", "count", "contains") and any(self.is_var(it, fr, a) for a in self.P.call_args(n) if a is not None)
        return False

    def on_return(self, it, fr, n, st):
        e = kids(n)[0] if kids(n) else None
        while e is not None and e["k"] in ("Construct", "Cast", "InitList") and len([c for c in e.get("c", []) if c]) == 1:
            e = e["c"][0]
        if e is not None and (e["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or e.get("n") == "nullopt" or (e["k"] in ("Construct", "InitList") and not e.get("c"))):
            return None         # failure reported to the caller
        return st

    def inline(self, it, fr, n, f):
        return f.is_lambda


def enumerated(ctx, R):
    """a configured string compared with a set of names is one of them whenever construction goes on"""
    P = ctx.P

    def configured(f, e, depth=0):
        if e is None or depth > 4:
            return False
        for n in walk(e):
            if n["k"] in ("Call", "MCall") and (n.get("fn", "").startswith("lm::json::value") or (n.get("mname") in ("get", "value") and "json" in n.get("cls", "").lower())):
                return True
            if n["k"] == "DeclRefExpr" and n.get("dk") == "local" and n["d"] in f.vars and depth < 3 and configured(f, (f.vars[n["d"]].get("c") or [None])[0], depth + 1):
                return True
            if n["k"] == "DeclRefExpr" and n.get("dk") == "param" and passed_configured(f, n["d"], depth + 1):
                return True
        return False

    def passed_configured(f, d, depth=0):
        i = next((i for i, p in enumerate(f.params) if p["d"] == d), None)
        if i is None or depth > 3:
            return False
        for g in P.funcs.values():
            if g.file != f.file:
                continue
            for n in g.walk():
                if n["k"] in ("Call", "MCall") and f.key in P.targets(n):
                    a = P.call_args(n)
                    if i < len(a) and configured(g, a[i], depth + 1):
                        return True
        return False

    for f in P.funcs.values():
        if not f.body or not f.file.startswith(P.root + "/") or f.get("implicit"):
            continue
        names = {}
        for n in f.walk():
            if n["k"] in ("OpCall", "BinOp") and n.get("op") in ("==", "!="):
                c = [x for x in n.get("c", []) if x is not None]
                if len(c) == 2:
                    for a, b in ((c[0], c[1]), (c[1], c[0])):
                        s = [m for m in walk(b) if m["k"] == "Str"]
                        v = [m for m in walk(a) if m["k"] == "DeclRefExpr" and m.get("dk") in ("local", "param")]
                        if len(s) == 1 and len(v) == 1 and "string" in P.tstr(P.strip_ref(v[0].get("t", -1))):
                            names.setdefault(v[0]["d"], set()).add(s[0]["v"])
        for d, ss in names.items():
            if len(ss) < 2:
                continue
            isparam = any(p["d"] == d for p in f.params)
            if not (passed_configured(f, d) if isparam else d in f.vars and configured(f, (f.vars[d].get("c") or [None])[0])):
                continue
            R.count("enumerated_options")
            it = Interp(P, Select(P, d))
            env = {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in f.params}
            st = it.run_fn(Frame(f, env, frozenset({("this",)}), f.cls or None), St())
            R.oblige(st is None or ("sel", ("opt",)) in st.facts, "%s/%s/enumerated" % (f.qn, sorted(ss)[0]),
                     "%s: a value of the option other than %s is accepted instead of being rejected" % (f.label(), ", ".join(sorted(ss))), f.where(),
                     sample="%s accepts only %s" % (f.label(), ", ".join(sorted(ss))))


def check(ctx):
    P = ctx.P
    R = Result()
    enumerated(ctx, R)
    done = set()
    for cls, key, alias, where in ctx.registry():
        if cls not in P.records or cls in done:
            continue
        done.add(cls)
        R.count("component_classes")
        members = [(o, f) for o, f in ctx.fields(cls) if not f.get("init") and f.get("defok") is False and not P.tstr(f["t"]).startswith(SYNC)]
        if not members:
            continue
        setup = only_used_by_construct(ctx, cls)
        h = Access(P)
        others = []
        for f in ctx.methods(cls):
            if f.name in SERIAL_NAMES or f.name == "foreach_underlying" or f.get("ctor") or f.get("dtor") or f.get("implicit") or f.get("defaulted") or f.key in setup:
                continue
            others.append(f)
            it = Interp(P, h)
            env = {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}
            root = Frame(f, env, frozenset({("this",)}), cls)
            it.run_fn(root, St())
            for g in ctx.lambdas_of(f):
                par = P.lambda_parent(g)
                lex = root if par is f else Frame(par, {}, None, cls, up=root, lex=root) if par else root
                it.run_fn(Frame(g, {p["d"]: frozenset({(("v", "larg%d" % i, 0),)}) for i, p in enumerate(g.params)}, None, None, up=lex, lex=lex), St())
        # constructors first, then construct()
        ci = Init(P)
        st = St()
        for f in ctx.methods(cls):
            if f.get("ctor") and f.cls == cls and not f.get("copy") and not f.params:
                st2 = run(ctx, cls, f, ci)
                if st2 is not None:
                    st = st2
        owner, m = P.find_method(cls, "construct")
        cf = P.funcs.get(m["f"]) if m else None
        if cf is not None and cf.body:
            it = Interp(P, ci)
            env = {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(cf.params)}
            st = it.run_fn(Frame(cf, env, frozenset({("this",)}), cls), st)
        facts = st.facts if st is not None else None
        for o, f in members:
            top = ("this", f["n"])
            for p, rs in ci.reads.items():
                if p[:2] == top:
                    for fa, w, q in rs:
                        ok = any(("w", p[:i]) in fa for i in range(2, len(p) + 1)) or assigned(P, fa, top, f["t"]) or any(x[0] == "w" and x[1][:len(p)] == p for x in fa)
                        R.oblige(ok, "%s::%s/read-in-construct" % (cls, f["n"]), "%s: member '%s' is read during construction before it is assigned on every path" % (cls, f["n"]), w)
            if top not in h.exposed:
                R.count("members_not_read_later")
                continue
            if facts is None:
                R.count("never_constructed")
                continue
            if assigned(P, facts, top, f["t"]):
                R.count("members")
                R.good("%s: construct() assigns %s on every path" % (cls, f["n"]))
                continue
            # assigned by a protocol method (start(), build(), ...) rather than by construction
            elsewhere = []
            for g in others:
                s = run(ctx, cls, g, Init(P))
                if s is not None and assigned(P, s.facts, top, f["t"]):
                    elsewhere.append(g.name)
            partly = cf is not None and any(n["k"] == "MemberExpr" and n.get("dk") == "field" and n["n"] == f["n"]
                                            for g in [cf] + [P.funcs[k] for k in setup if k in P.funcs] for n in g.walk())
            if elsewhere and not partly:
                R.count("members_set_by_protocol_method")
                continue
            R.count("members")
            R.oblige(False, "%s::%s/uninitialised" % (cls, f["n"]),
                     "%s: member '%s' is read later (in %s at %s) but construction does not assign it on every accepted configuration" % (
                         cls, f["n"], h.exposed[top][1], h.exposed[top][0]),
                     cf.where() if cf is not None else "%s:%d" % (P.rel(P.records[o]["file"]), f["l"]))
    R.floor("component_classes", 40)
    R.floor("members", 80)
    return R
