"""S13: Python and C++ sides of a component agree (trampolines, bindings, ownership of returned references)."""
from ..core import *
from ..prog import kids, walk

GETOV = ("pybind11::get_override", "pybind11::get_overload")
DEFS = ("def", "def_static", "def_readwrite", "def_readonly", "value", "def_property", "def_property_readonly")


def strip(n):
    while n is not None and n["k"] in ("Construct", "Cast", "InitList") and len([c for c in n.get("c", []) if c and c["k"] != "DefaultArg"]) == 1:
        n = [c for c in n["c"] if c and c["k"] != "DefaultArg"][0]
    return n


def norm(s):
    return s.replace("_", "").lower()


def trampolines(ctx):
    """(trampoline class, interface) pairs: classes handed to pybind11::class_<Interface, Trampoline, ...>"""
    P = ctx.P
    out = {}
    for f in P.funcs.values():
        for n in f.walk():
            if n["k"] == "Construct" and n.get("rn") == "pybind11::class_":
                targs = P.ty(n["t"]).get("targs") or []
                recs = [P.ty(t).get("full") for t in targs]
                if not recs or recs[0] not in P.records:
                    continue
                for r in recs[1:]:
                    if r in P.records and r != recs[0] and P.derives(r, recs[0]):
                        out[r] = recs[0]
    return out


def exposed(ctx):
    """record types Python knows about"""
    P = ctx.P
    out = set()
    for f in P.funcs.values():
        for n in f.walk():
            if n["k"] == "Construct" and n.get("rn") in ("pybind11::class_", "pybind11::enum_"):
                t = P.ty(n["t"]).get("targs") or []
                if t:
                    out.add(P.ty(t[0]).get("full") or P.tstr(t[0]))
    return out


def convertible(P, t, exp, depth=0):
    """does pybind11 have a conversion for type t (as far as this module registers one)?"""
    x = P.ty(t)
    while x["k"] in ("ref", "rref", "ptr"):
        t = x["to"]
        x = P.ty(t)
    if x["k"] in ("int", "float", "bool", "void"):
        return True
    if x["k"] == "enum":
        return any(x["s"].replace("const ", "") == e for e in exp if e)
    if x["k"] == "rec":
        r = x.get("rec", "")
        if r in ("glm::vec", "glm::mat", "nlohmann::basic_json", "std::basic_string", "std::function") or r.endswith("basic_json") or "basic_string" in r:
            return True
        if r in ("std::optional", "std::vector", "std::unique_ptr", "std::tuple", "std::pair"):
            return all(convertible(P, a, exp, depth + 1) for a in x.get("targs", [])[:1])
        return x.get("full") in exp
    return x["k"] == "func"


def dispatches(ctx, f):
    """[(name string, [argument nodes] or None, call node)] of Python dispatches made by function f, helpers included"""
    P = ctx.P
    out = []
    for n in f.walk():
        if n["k"] == "Call" and n.get("fn") in GETOV:
            name = next((x["v"] for x in walk(n) if x["k"] == "Str"), None)
            # the variable the override is kept in
            p = f.parent(n)
            while p is not None and p["k"] in ("Construct", "Cast", "InitList"):
                p = f.parent(p)
            calls = []
            if p is not None and p["k"] == "Var":
                for m in f.walk():
                    if m["k"] == "OpCall" and m.get("op") == "()" and m["c"] and m["c"][0]["k"] == "DeclRefExpr" and m["c"][0].get("d") == p["d"]:
                        calls.append(m["c"][1:])
            elif p is not None and p["k"] == "OpCall":
                calls.append(p["c"][1:])
            if name is None:
                name = ("param", next((x["d"] for x in walk(n) if x["k"] == "DeclRefExpr" and x.get("dk") == "param"), None))
            out.append((name, calls, n))
    return out


PASS = ("std::move", "std::forward", "std::ref", "std::cref", "std::as_const", "pybind11::cast", "std::addressof", "pybind11::detail::cast_safe")


def param_of(f, n, depth=0):
    """the parameter whose value expression n is, unchanged, or None"""
    n = strip(n)
    if n is None or depth > 6:
        return None
    if n["k"] == "DeclRefExpr":
        if n.get("dk") == "param":
            return n.get("d")
        v = f.vars.get(n.get("d"))
        if v is not None and (v.get("c") or [None])[0] is not None:
            d = n.get("d")
            if any(x["k"] in ("Assign", "CAssign") and x["c"] and x["c"][0] is not None and x["c"][0].get("d") == d for x in f.walk()):
                return None
            return param_of(f, v["c"][0], depth + 1)
        return None
    if n["k"] == "Call" and n.get("fn") in PASS and len(n["c"]) >= 2:
        return param_of(f, n["c"][1], depth + 1)
    if n["k"] == "UnOp" and n.get("op") in ("&", "*", "+"):
        return param_of(f, n["c"][0], depth + 1)
    return None


def params_in(f, n, depth=0, seen=None):
    """parameters of f an expression depends on (through locals)"""
    seen = set() if seen is None else seen
    out = []
    for x in walk(n) if n is not None else ():
        if x["k"] == "DeclRefExpr" and x.get("dk") == "param":
            out.append(x["d"])
        elif x["k"] == "DeclRefExpr" and x.get("d") in f.vars and x["d"] not in seen:
            seen.add(x["d"])
            v = f.vars[x["d"]]
            for c in v.get("c") or []:
                if c is not None:
                    out += params_in(f, c, depth + 1, seen)
    return out


def narrows(P, got, want):
    a, b = P.ty(got), P.ty(want)
    while a["k"] in ("ref", "rref"):
        a = P.ty(a["to"])
    while b["k"] in ("ref", "rref"):
        b = P.ty(b["to"])
    if b["k"] == "void":
        return False
    num = ("int", "float", "bool")
    if a["k"] in num and b["k"] in num:
        if a["k"] == "bool":
            return b["k"] != "bool"
        if b["k"] == "bool":
            return False
        return a["k"] == "int" and b["k"] == "float" or a.get("bits", 64) < b.get("bits", 64)
    return False


def ownership(ctx, R):
    """a component implemented in Python is kept alive by the framework and dropped exactly once"""
    P = ctx.P

    def flat(f, depth=0):
        for n in f.walk():
            yield f, n
            if depth < 2:
                for t in P.targets(n):
                    g = P.funcs.get(t)
                    if g is not None and g.body and g.file.startswith(P.root) and g.key != f.key:
                        yield from flat(g, depth + 1)

    def owner(x):
        return x is not None and any(y["k"] == "Call" and y.get("fn", "").endswith("Access::ownerRef") for y in walk(x))

    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if not f.body or not f.file.startswith(P.root):
            continue
        for n in f.walk():
            if n["k"] != "Call" or n.get("fn") != "lm::comp::detail::reg":
                continue
            ls = []
            for a in n["c"][1:]:
                l = strip(a) if a is not None else None
                if l is not None and l["k"] == "DeclRefExpr" and l.get("d") in f.vars:
                    l = strip((f.vars[l["d"]].get("c") or [None])[0])
                ls.append(P.funcs.get(l["f"]) if l is not None and l["k"] == "Lambda" else None)
            cr = ls[2] if len(ls) > 2 else None
            rl = ls[3] if len(ls) > 3 else None
            if cr is None or rl is None or not any("pybind11" in P.tstr(x.get("t", -1)) for _, x in flat(cr)):
                continue
            R.count("registrations_of_python_components")
            ok = any(x["k"] in ("Assign", "OpCall") and (x["k"] == "Assign" or x.get("op") == "=") and owner(x["c"][0]) or
                     x["k"] == "MCall" and x.get("mname") == "emplace" and owner(x["c"][0]) for _, x in flat(cr))
            R.oblige(ok, "own/keep", "a component implemented in Python is created without keeping its Python object alive", cr.where(),
                     sample="Python object of a created component is kept by its owner reference")
            dec = sum(1 for _, x in flat(rl) if x["k"] == "MCall" and x.get("mname") == "dec_ref")
            dec += sum(1 for _, x in flat(rl) if x["k"] == "MCall" and x.get("mname") == "reset" and owner(x["c"][0]))
            inc = sum(1 for _, x in flat(rl) if x["k"] == "MCall" and x.get("mname") == "inc_ref")
            R.oblige(dec - inc == 1, "own/drop", "releasing a component implemented in Python drops %d references to its Python object instead of one" % (dec - inc), rl.where(),
                     sample="release drops one reference to the Python object")
            ok = any(x["k"] in ("Assign", "OpCall") and any(y["k"] == "Call" and y.get("fn", "").endswith("Access::release_func") for y in walk(x["c"][0])) for _, x in flat(rl) if x.get("c") and x["c"][0] is not None)
            R.oblige(ok, "own/once", "the release function of a component implemented in Python stays armed: destroying the Python object releases it again", rl.where(),
                     sample="release function is disarmed while the Python object is destroyed")
    # a component already owned by a Python object is not handed to a second owner
    class H:
        sites = None

        def on_assume(self, it, fr, cond, sense, st):
            n = strip(cond)
            if st is not None and n["k"] == "MCall" and n.get("mname") in ("has_value", "operator bool") and n["c"] and n["c"][0] is not None and "std::any" in P.tstr(n["c"][0].get("t", -1)):
                return st.with_facts([("owned", (("any",),), sense)])
            return st

        def on_node(self, it, fr, n, st):
            if n["k"] == "Call" and n.get("fn") == "pybind11::cast" and any(x["k"] == "DeclRefExpr" and x.get("n") == "take_ownership" for x in walk(n)):
                self.sites.append((fr, n, st))
            return st, False

        def inline(self, it, fr, n, f):
            return False
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if not f.body or not f.file.startswith(P.root) or not any(n["k"] == "DeclRefExpr" and n.get("n") == "take_ownership" for n in f.walk()):
            continue
        if not any(n["k"] == "Call" and n.get("fn") == "pybind11::cast" for n in f.walk()):
            continue
        h = H()
        h.sites = []
        Interp(P, h).run_fn(Frame(f, {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in f.params}, frozenset({("this",)}), f.cls), St())
        for fr, n, st in h.sites:
            R.count("ownership_transfers")
            R.oblige(any(x[0] == "owned" and x[2] is False for x in st.facts), "own/transfer", "%s hands ownership of a component to Python although a Python object may already own it" % f.label(), f.where(n),
                     sample="%s transfers ownership only of components without an owner" % f.name)
    R.floor("registrations_of_python_components", 10)


def counterpart(P, cls, name):
    """names of operations of the framework a Python name of a class (or module) stands for"""
    if cls in P.records:
        for b in [cls] + P.bases_of(cls):
            if b in P.records and any(norm(m["n"]) == norm(name) for m in P.records[b]["methods"]):
                return True
    return False


def lambda_binding(ctx, R, f, n, name, g):
    """a bound lambda forwards to the operation it is named after, all its arguments, in order"""
    P = ctx.P
    R.count("bound_lambdas")
    used = {x["d"] for x in g.walk() if x["k"] == "DeclRefExpr" and x.get("dk") == "param"}
    inner = {x.get("d") for l in ctx.lambdas_of(g) for x in l.walk() if x["k"] == "DeclRefExpr"}
    key = "forward/%s/%s" % (f.name, name)
    for p in g.params:
        if p.get("n"):
            R.oblige(p["d"] in used or p["d"] in inner, key + "/unused", "'%s' ignores its argument '%s'" % (name, p["n"]), g.where(),
                     sample="'%s' uses all its arguments" % name)
    order = [p["d"] for p in g.params if not (P.rec_of(p["t"]) or "").startswith("lm::")]   # the object itself is not an argument
    for m in g.walk():
        if m["k"] not in ("Call", "MCall") or not (m.get("fn", "").startswith("lm::") or m.get("cls", "").startswith("lm::")):
            continue
        seq = []
        for a in P.call_args(m):
            ps = [order.index(d) for d in params_in(g, a) if d in order] if a is not None else []
            if ps:
                seq.append(min(ps))
        R.oblige(seq == sorted(seq), key + "/order", "'%s' passes its arguments to %s in a different order" % (name, m.get("mname") or m.get("fn")), g.where(m))
    t = P.ty(P.ty(n["t"]).get("to", n["t"])).get("targs") if n.get("cls", "").startswith("pybind11::class_") else None
    cls = (P.ty(t[0]).get("full") if t else None) or ""
    if counterpart(P, cls, name):
        names = set()
        for k in set(P.reachable([g.key])) | {g.key}:
            h = P.funcs[k]
            if k == g.key or (h.file == g.file and P.lambda_parent(h) is None or h.is_lambda):
                names |= {norm(m.get("mname") or m.get("fn", "").split("::")[-1]) for m in h.walk() if m["k"] in ("Call", "MCall")}
        R.oblige(norm(name) in names, key + "/target", "the Python operation '%s' of %s never runs the operation of that name" % (name, cls), g.where(),
                 sample="'%s' runs %s::%s" % (name, cls, name))


def check(ctx):
    P = ctx.P
    R = Result()
    tr = trampolines(ctx)
    ownership(ctx, R)
    exp = exposed(ctx)
    R.count("trampoline_classes", len(tr))
    R.floor("trampoline_classes", 10)
    # helpers that dispatch under a name they are given
    helpers = {}
    for f in P.funcs.values():
        if f.body and f.cls not in tr and any(n["k"] == "Call" and n.get("fn") in GETOV for n in f.walk()):
            helpers[f.key] = f
    # ---- (a) every trampoline method reaches the Python method of its own name with all arguments in order
    for cls, iface in sorted(tr.items()):
        for f in P.by_cls.get(cls, ()):
            if not f.body or f.is_lambda or f.get("kind") in ("ctor", "dtor") or f.name.startswith("~") or f.name == cls:
                continue
            decl = next((m for m in P.records[cls]["methods"] if m["f"] == f.key), None)
            if decl is None or not decl.get("over"):
                continue
            R.count("trampoline_methods")
            ds = dispatches(ctx, f)
            key = "%s::%s" % (cls, f.name)
            if not ds:
                hs = [(h, n) for n in f.walk() for h in P.targets(n) if h in helpers and n["k"] in ("Call", "MCall")]
                for h, n in hs:
                    name = next((x["v"] for x in walk(n) if x["k"] == "Str"), None)
                    ds.append((name, [[a for a in P.call_args(n) if a is not None and strip(a)["k"] == "DeclRefExpr" and strip(a).get("dk") == "param" or a is not None and any(x.get("dk") == "param" for x in walk(a))]], n))
            if not ds:
                R.oblige(False, key + "/nodispatch", "%s is implemented in C++ only: a Python override of %s::%s is never called" % (key, iface, f.name), f.where())
                continue
            for name, calls, n in ds:
                R.oblige(name == f.name, key + "/name", "calling %s::%s on a component implemented in Python runs its method '%s'" % (iface, f.name, name), f.where(n),
                         sample="%s dispatches to Python method '%s'" % (key, name))
                if f.name in ("save", "load") and any("Archive" in P.tstr(p["t"]) for p in f.params):
                    continue   # the archive itself is not passed to Python
                if not calls:
                    R.oblige(False, key + "/call", "%s looks the Python override up but never calls it" % key, f.where(n))
                for args in calls:
                    got = []
                    for a in args:
                        got.append(param_of(f, a) or ("an altered " + params_in(f, a)[0] if params_in(f, a) else None))
                    want = [p["d"] for p in f.params]
                    R.oblige(got == want, key + "/args", "%s hands its Python override the arguments %s instead of %s" % (
                        key, [str(g).split("@")[0] for g in got], [w.split("@")[0] for w in want]), f.where(n))
            for n in f.walk():
                if n["k"] in ("Call", "MCall") and (n.get("fn", "").split("::")[-1] in ("cast_safe", "cast_ref", "cast") and n.get("fn", "").startswith("pybind11::")) and n.get("ta") and f.get("ret") is not None:
                    R.oblige(not narrows(P, n["ta"][0], f.get("ret")), key + "/ret", "the result of the Python override of %s is converted to %s although the operation returns %s" % (
                        key, P.tstr(n["ta"][0]), P.tstr(f.get("ret"))), f.where(n))
            # the fallback, when there is one, is the same operation of the interface
            for n in f.walk():
                if n["k"] == "MCall" and n["c"] and n["c"][0] is not None and n["c"][0]["k"] in ("CXXThisExpr", "Cast") and n.get("mname") and not n.get("virt") and \
                        n.get("cls", "").startswith("lm::") and (P.derives(cls, n["cls"]) if n["cls"] in P.records else False):
                    R.oblige(n["mname"] == f.name, key + "/fallback", "without a Python override %s runs %s" % (key, n["mname"]), f.where(n))
    R.floor("trampoline_methods", 80)
    # ---- (b) no virtual operation of an exposed interface is out of reach of Python
    for cls, iface in sorted(tr.items()):
        own = {m["n"] for m in P.records[cls]["methods"]}
        for b in [iface] + P.bases_of(iface):
            if b == "lm::Component" or b not in P.records:
                continue
            for m in P.records[b]["methods"]:
                if not m.get("v") or m["n"].startswith("~"):
                    continue
                if not all(convertible(P, t, exp) for t in list(m.get("pt", [])) + [m["ret"]]):
                    R.count("operations_with_types_unknown_to_python")
                    continue
                R.oblige(m["n"] in own, "%s::%s/missing" % (iface, m["n"]), "a component implemented in Python cannot override %s::%s: the call never reaches Python" % (iface, m["n"]),
                         "%s:%d" % (P.rel(P.records[cls].get("file", "")), P.records[cls].get("line", 0)))
    # ---- (c) names bound to functions, (d) references handed out are not owned by Python
    for f in P.funcs.values():
        if not f.file.startswith(P.root):
            continue
        for n in f.walk():
            if n["k"] != "MCall" or n.get("mname") not in DEFS or not n.get("cls", "").startswith("pybind11::"):
                continue
            a = n["c"][1:]
            if len(a) < 2 or a[0] is None or a[1] is None:
                continue
            names = [x["v"] for x in walk(a[0]) if x["k"] == "Str"]
            if not names:
                continue
            name = names[0]
            tgt = strip(a[1])
            rest = [x.get("n") for y in a[2:] if y for x in walk(y) if x["k"] == "DeclRefExpr"]
            ret = None
            if tgt["k"] == "Lambda":
                g = P.funcs.get(tgt["f"])
                ret = g.get("ret") if g is not None else None
                if g is not None and n["mname"] in ("def", "def_static"):
                    lambda_binding(ctx, R, f, n, name, g)
            else:
                refs = [x for x in walk(tgt) if x["k"] == "DeclRefExpr" and x.get("dk") in ("func", "field", "enum")]
                if not refs:
                    continue
                r = refs[0]
                R.count("bound_names")
                if r.get("dk") == "func" and r.get("qn", "").startswith("glm::") or r.get("qn", "").startswith("lm::detail::"):
                    pass    # wrappers and library functions exposed under a shorter name
                else:
                    R.oblige(norm(name) == norm(r["n"]), "bind/%s.%s" % (n["cls"].split(",")[0].replace("pybind11::class_<", "").strip(">"), name),
                             "the Python name '%s' is bound to %s" % (name, r.get("qn") or r["n"]), f.where(n),
                             sample="'%s' is bound to %s" % (name, r.get("qn") or r["n"]))
                fk = P.funcs.get(r.get("d"))
                if r.get("dk") == "func":
                    ret = fk.get("ret") if fk is not None else None
                    if ret is None and r.get("d") in P.method_decl:
                        ret = P.method_decl[r["d"]][1]["ret"]
            if ret is not None and n["mname"] in ("def", "def_static"):
                x = P.ty(ret)
                if x["k"] in ("ptr", "ref", "rref") and x["k"] != "rref" or x["k"] == "rec" and x.get("rec") == "std::optional" and P.ty(x["targs"][0])["k"] == "ptr":
                    R.oblige("take_ownership" not in rest and ("move" not in rest or x["k"] == "rec"), "policy/%s/%s/take" % (f.name, name),
                             "'%s' returns an object owned by the framework, but Python takes ownership of it and will destroy it" % name, f.where(n))
                if x["k"] == "rec" and x.get("rec") == "std::optional" and P.ty(x["targs"][0])["k"] == "ptr":
                    x = P.ty(x["targs"][0])
                    ret = next(i for i in P.ty(ret)["targs"])
                if x["k"] == "ptr" and P.rec_of(ret) and P.derives(P.rec_of(ret), "lm::Component"):
                    R.count("bound_references")
                    R.oblige("reference" in rest or "reference_internal" in rest, "policy/%s/%s" % (f.name, name),
                             "'%s' returns a component owned by the framework, but Python takes ownership of it and will destroy it" % name, f.where(n),
                             sample="'%s' returns a borrowed reference" % name)
    R.floor("bound_names", 100)
    R.floor("bound_references", 20)
    return R
