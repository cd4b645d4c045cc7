"""S14: the Python interpreter lock: long parallel work runs without it, Python is touched only with it."""
from ..core import *
from ..prog import kids, walk
from .s13 import strip, trampolines, GETOV, DEFS

ACQ = "pybind11::gil_scoped_acquire"
REL = "pybind11::gil_scoped_release"


def held(P, f, n, ty):
    """is a scoped object of type ty declared earlier in an enclosing scope of n?"""
    cur = n
    for p in f.ancestors(n):
        if p["k"] == "CompoundStmt":
            for x in p.get("c", []):
                if x is None or x.get("id") == cur.get("id"):
                    break
                if x["k"] == "DeclStmt" and any(v and v["k"] == "Var" and P.tstr(v["t"]) == ty for v in x["c"]):
                    return True
        cur = p
    return False


def locktype(P, t):
    return P.tstr(t).startswith(("std::unique_lock<", "std::lock_guard<", "std::scoped_lock<"))


def locked(P, f, n):
    """is a mutex held at n (by a scoped lock declared earlier in an enclosing block)?"""
    if any(m["k"] == "MCall" and m.get("mname") == "unlock" and m.get("l", 0) <= n.get("l", 0) for m in f.walk()):
        return False     # released by hand before
    cur = n
    for p in f.ancestors(n):
        if p["k"] == "CompoundStmt":
            for x in p.get("c", []):
                if x is None or x.get("id") == cur.get("id"):
                    break
                if x["k"] == "DeclStmt" and any(v and v["k"] == "Var" and locktype(P, v["t"]) for v in x["c"]):
                    return True
        cur = p
    return False


def python_op(P, n):
    """does this node touch a Python object (reference count, call, attribute)?"""
    cls = n.get("cls", "")
    k = n["k"]
    if k == "MCall":
        if cls.startswith("pybind11::") and n.get("mname") in ("dec_ref", "inc_ref", "cast", "operator()", "attr", "release"):
            return True
    if k == "OpCall" and n.get("op") == "()" and cls.startswith("pybind11::"):
        return True
    if k == "Call" and n.get("fn") in ("std::any_cast",) and any("pybind11::object" in P.tstr(t) for t in n.get("ta", [])):
        return True
    if k == "Call" and n.get("fn") in GETOV:
        return True
    return False


def check(ctx):
    P = ctx.P
    R = Result()
    tr = trampolines(ctx)
    pyfiles = {f.file for f in P.funcs.values() if f.file.startswith(P.root) and any(n["k"] == "Var" and P.tstr(n["t"]) in (ACQ, REL) for n in f.walk())}
    # ---- functions that start threads whose work can call into Python
    starters = {}
    for f in P.funcs.values():
        for n in f.walk():
            if n["k"] == "OMP" and "parallel" in str(n.get("dir", "parallel")).lower():
                if any(x["k"] == "OpCall" and x.get("op") == "()" and x.get("cls", "").startswith("std::function") for x in walk(n)):
                    starters[f.key] = "runs a callback on worker threads"
            if (n["k"] == "Construct" and n.get("cls", "").startswith("std::thread")) or (n["k"] == "MCall" and n.get("mname") == "emplace_back" and "std::thread" in n.get("cls", "")):
                # does the thread body reach a trampoline?
                for l in ctx.lambdas_of(f):
                    if any(x["k"] == "DeclRefExpr" or x["k"] == "Lambda" for x in walk(n)):
                        body = [x["f"] for x in walk(n) if x["k"] == "Lambda"]
                        refs = [x.get("d") for x in walk(n) if x["k"] == "DeclRefExpr"]
                        for d in refs:
                            v = f.vars.get(d)
                            if v and (v.get("c") or [None])[0] is not None:
                                body += [x["f"] for x in walk(v["c"][0]) if x["k"] == "Lambda"]
                        t = P.reachable(body)
                        if any(P.funcs[k].cls in tr for k in t):
                            starters[f.key] = "starts threads that may call Python"
    C = P.callers()
    reach = {k: [k] for k in starters}
    st = list(starters)
    while st:
        k = st.pop()
        for g, n in C.get(k, ()):
            if g.key not in reach and g.name.startswith("bind_") is False:
                reach[g.key] = [g.key] + reach[k]
                st.append(g.key)
    R.count("functions_running_parallel_work", len(reach))
    # ---- (1) bound functions that run parallel work give up the interpreter lock
    for f in P.funcs.values():
        if not f.file.startswith(P.root):
            continue
        for n in f.walk():
            if n["k"] != "MCall" or n.get("mname") not in DEFS or not n.get("cls", "").startswith("pybind11::"):
                continue
            a = n["c"][1:]
            if len(a) < 2 or a[0] is None or a[1] is None:
                continue
            name = next((x["v"] for x in walk(a[0]) if x["k"] == "Str"), "?")
            tgt = strip(a[1])
            keys = []
            if tgt["k"] == "Lambda":
                keys = [tgt["f"]]
            else:
                r = next((x for x in walk(tgt) if x["k"] == "DeclRefExpr" and x.get("dk") == "func"), None)
                if r is not None:
                    keys = [r["d"]] + sorted(P.all_overriders(r["d"]))
            hit = [k for k in keys if k in reach]
            R.count("bound_functions")
            if not hit:
                continue
            R.count("bound_functions_running_parallel_work")
            ok = any(REL in P.tstr(x.get("t", -1)) and "call_guard" in P.tstr(x.get("t", -1)) for y in a[2:] if y for x in walk(y))
            if not ok and tgt["k"] == "Lambda":
                g = P.funcs[tgt["f"]]
                calls = [m for m in g.walk() if any(t in reach for t in P.targets(m))]
                ok = bool(calls) and all(held(P, g, m, REL) for m in calls)
            if not ok:
                # the release may also happen inside the function itself
                g = P.funcs[hit[0]]
                calls = [m for m in g.walk() if any(t in reach for t in P.targets(m))]
                ok = bool(calls) and all(held(P, g, m, REL) for h in hit for m in P.funcs[h].walk() if any(t in reach for t in P.targets(m)))
            R.oblige(ok, "release/" + name, "'%s' runs parallel work while holding Python's interpreter lock: a worker calling a Python component waits forever" % name, f.where(n),
                     ["%s (%s)" % (P.funcs[k].label(), P.funcs[k].where()) for k in reach[hit[0]]],
                     sample="'%s' releases the interpreter lock around its parallel work" % name)
    # ---- (2) Python objects are touched only with the lock held
    roots = set()
    for f in P.funcs.values():
        if not f.body or not (f.file.startswith(P.root)):
            continue
        tramp = f.cls in tr and not f.is_lambda
        # callbacks handed to the framework: lambdas converted to std::function in bindings
        cb = f.is_lambda and (f.file in pyfiles or P.rel(f.file).endswith("pylm.h"))
        if cb:
            par = P.lambda_parent(f)
            ln = next((n for n in par.walk() if n["k"] == "Lambda" and n["f"] == f.key), None) if par is not None else None
            up = par.parent(ln) if ln is not None else None
            while up is not None and up["k"] in ("Construct", "Cast", "InitList"):
                up = par.parent(up)
            cb = up is not None and up["k"] in ("Call", "MCall") and (up.get("fn", "").startswith("lm::") or up.get("cls", "").startswith("lm::"))
        if not tramp and not cb:
            continue
        ops = [n for n in f.walk() if python_op(P, n)]
        if not ops:
            continue
        R.count("functions_calling_python")
        bad = [n for n in ops if not held(P, f, n, ACQ)]
        R.oblige(not bad, "acquire/%s" % f.qn.replace("pybind11::module &", "").split("(anonymous")[0] + f.name, "%s touches Python objects without holding the interpreter lock" % f.label(), f.where(bad[0] if bad else None),
                 sample="%s holds the interpreter lock" % f.label())
    # ---- (3) no C++ lock is held while waiting for the interpreter lock
    for f in P.funcs.values():
        if not f.body or not f.file.startswith(P.root) or not any(n["k"] == "Var" and locktype(P, n["t"]) for n in f.walk()):
            continue
        R.count("functions_taking_locks")
        for n in f.walk():
            if n["k"] not in ("Call", "MCall", "OpCall") or not locked(P, f, n):
                continue
            ts = list(P.targets(n))
            via = None
            tree = P.reachable([t for t in ts if t in P.funcs]) if ts else {}
            via = next((k for k in sorted(tree) if P.funcs[k].cls in tr and not P.funcs[k].is_lambda and P.funcs[k].get("kind") not in ("ctor", "dtor")), None)
            R.count("calls_under_locks")
            R.oblige(via is None, "lock/%s/%s" % (f.name, n.get("mname") or n.get("fn", "?").split("::")[-1]),
                     "%s holds a lock while it may call Python (%s): a thread holding the interpreter lock that needs the lock waits forever" % (f.label(), P.funcs[via].label() if via else ""), f.where(n),
                     sample="%s: no Python under the lock" % f.label())
    R.floor("bound_functions_running_parallel_work", 2)
    R.floor("functions_calling_python", 60)
    return R
