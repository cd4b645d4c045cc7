"""S06: code that runs concurrently never writes shared state without synchronisation."""
from ..core import *
from ..prog import kids, walk
from ..effects import Effects

PROC = ("std::function<void (long long, int)>", "std::function<void (long long, long long, int)>")


def is_proc(P, t):
    return any(s in P.tstr(t) for s in PROC)


def python_glue(P, f):
    return "pylm" in f.file.rsplit("/", 1)[-1] or f.qn.startswith("pybind11")


def lambda_arg(P, f, a, depth=0):
    """lambda functions an argument expression may denote"""
    out = []
    if a is None or depth > 5:
        return out
    for n in walk(a):
        if n["k"] == "Lambda":
            out += [P.funcs[k] for k in [n["f"]] + n.get("specs", []) if k in P.funcs]
        elif n["k"] == "DeclRefExpr" and n.get("dk") == "local" and n["d"] in f.vars:
            v = f.vars[n["d"]]
            init = (v.get("c") or [None])[0]
            if init is not None and v.get("k") == "Var":
                out += lambda_arg(P, f, init, depth + 1)
        elif n["k"] == "DeclRefExpr" and n.get("dk") == "func" and n["d"] in P.funcs:
            out.append(P.funcs[n["d"]])
        elif n["k"] == "DeclRefExpr" and n.get("dk") in ("local", "param") and f.is_lambda and P.lambda_parent(f) is not None:
            g = P.lambda_parent(f)
            if n["d"] in g.vars and g.vars[n["d"]].get("k") == "Var":
                init = (g.vars[n["d"]].get("c") or [None])[0]
                if init is not None:
                    out += lambda_arg(P, g, init, depth + 1)
    return out


def regions(ctx):
    """[(kind, creating function, node, body function)]"""
    P = ctx.P
    out = []
    for f in P.funcs.values():
        if python_glue(P, f):
            continue
        for n in f.walk():
            if n["k"] in ("Call", "MCall", "OpCall"):
                for a, t in zip(P.call_args(n), n.get("pt", [])):
                    if a is not None and is_proc(P, t):
                        for g in lambda_arg(P, f, a):
                            out.append(("loop", f, n, g))
            if n["k"] == "Construct" and n.get("rn") == "std::thread" or n["k"] == "Call" and n.get("fn") == "std::async":
                for a in n["c"]:
                    for g in lambda_arg(P, f, a):
                        out.append(("thread", f, n, g))
            if n["k"] == "MCall" and n.get("mname") in ("emplace_back", "push_back") and "std::thread" in n.get("cls", ""):
                for a in n["c"][1:]:
                    for g in lambda_arg(P, f, a):
                        out.append(("thread", f, n, g))
    seen, res = set(), []
    for r in out:
        if (r[0], r[3].key) not in seen:
            seen.add((r[0], r[3].key))
            res.append(r)
    return res


def lexical_chain(P, g):
    out = [g]
    while g.is_lambda and P.lambda_parent(g) is not None and P.lambda_parent(g) is not g:
        g = P.lambda_parent(g)
        out.append(g)
    return out


def idx_is_param(E, body, eff):
    """element write indexed by exactly a parameter (sample index / thread id) of the parallel body"""
    fn, n = eff.fn, eff.node
    tgt = E.targets_written(fn, n)
    if not tgt:
        return False
    for x in walk(tgt[0][0]):
        ix = None
        if x["k"] == "OpCall" and x.get("op") == "[]" and len(x["c"]) > 1:
            ix = x["c"][1]
        elif x["k"] == "ArraySubscriptExpr":
            ix = x["c"][1]
        elif x["k"] == "MCall" and x.get("mname") == "at" and len(x["c"]) > 1:
            ix = x["c"][1]
        while ix is not None and ix["k"] in ("Cast", "Construct", "InitList") and len(kids(ix)) == 1:
            ix = kids(ix)[0]
        if ix is not None and ix["k"] == "DeclRefExpr":
            d = ix["d"]
            if any(p["d"] == d for p in body.params):
                return True
            # const copy of the parameter
            for g in lexical_chain(E.P, fn):
                v = g.vars.get(d)
                if v is not None and v.get("k") == "Var" and d not in g.assigned_vars():
                    i = (v.get("c") or [None])[0]
                    while i is not None and i["k"] in ("Cast", "Construct", "InitList") and len(kids(i)) == 1:
                        i = kids(i)[0]
                    if i is not None and i["k"] == "DeclRefExpr" and any(p["d"] == i["d"] for p in body.params):
                        return True
    return False


def private_index(E, eff):
    """element write whose index comes from the writing activation's share of the work (a range or item handed over), not a plain counter"""
    if "[]" not in eff.path:
        return False
    fn, n = eff.fn, eff.node
    chain = lexical_chain(E.P, fn)
    tgt = E.targets_written(fn, n)
    if not tgt or eff.via:
        return True
    seen = set()

    def var(d):
        for g in chain:
            if d in g.vars:
                return g, g.vars[d]
        return None, None

    def handed(e, depth=0):
        """value of e depends on something else than constants and counters"""
        if e is None or depth > 6:
            return False
        for x in walk(e):
            if x["k"] == "DeclRefExpr" and x.get("dk") in ("local", "param", "binding"):
                g, v = var(x["d"])
                if v is None:
                    return True
                if v.get("k") == "Bind":
                    return True
                if x["d"] in seen:
                    continue
                seen.add(x["d"])
                if handed((v.get("c") or [None])[0], depth + 1):
                    return True
            elif x["k"] in ("Call", "MCall") and x.get("mname") not in ("size",) or x["k"] == "MemberExpr" and x.get("dk") == "field" and not any(True for _ in ()):
                return True
        return False

    def subs(e, depth=0):
        if e is None or depth > 6:
            return
        for x in walk(e):
            if x["k"] == "OpCall" and x.get("op") == "[]" and len(x["c"]) > 1 or x["k"] == "ArraySubscriptExpr":
                yield x["c"][1]
            elif x["k"] == "MCall" and x.get("mname") == "at" and len(x["c"]) > 1:
                yield x["c"][1]
            elif x["k"] == "DeclRefExpr" and x.get("dk") == "local":
                g, v = var(x["d"])
                if v is not None and v.get("k") == "Var" and (E.P.ty(v.get("t", -1))["k"] in ("ref", "ptr", "rref") or "iterator" in E.P.tstr(v.get("t", -1))):
                    yield from subs((v.get("c") or [None])[0], depth + 1)
    ix = list(subs(tgt[0][0]))
    return not ix or any(handed(e) for e in ix)


def check(ctx):
    P = ctx.P
    R = Result()
    regs = regions(ctx)
    E = Effects(ctx, skip=lambda f: python_glue(P, f))
    roots = [r[3].key for r in regs]
    # OpenMP constructs: the whole enclosing function is analysed, its body being the parallel part
    omp = [(f, n) for f in P.funcs.values() for n in f.walk() if n["k"] == "OMP" and "Parallel" in n.get("dir", "")]
    for f, n in omp:
        R.count("openmp_regions")
    summ = E.summary(roots + [f.key for f, n in omp])
    R.count("functions_analysed", len(summ))
    for kind, f, n, body in regs:
        R.count("parallel_%s_bodies" % kind)
        chain = {g.key for g in lexical_chain(P, body)}
        bad = 0
        for path, e in sorted(summ.get(body.key, {}).items(), key=lambda x: repr(x[0])):
            r = path[0]
            if r != "this" and r[0] == "P" and r[1] == body.key:
                continue
            if r != "this" and r[0] == "v" and r[2] not in chain:
                continue
            if kind == "loop" and idx_is_param(E, body, e):
                R.count("partitioned_writes")
                continue
            if kind == "thread" and private_index(E, e):
                R.count("partitioned_writes")
                continue
            bad += 1
            R.oblige(False, "%s/%s" % (e.fn.label(), pstr2((path[0],) + path[-1:]) if len(path) > 1 else pstr2(path)),
                     "%s of shared location %s in %s is reached concurrently from the parallel body at %s without atomic, lock or per-thread storage" % (
                         e.what, pstr2(path), e.fn.label(), body.where()), e.fn.where(e.node), trace(P, body, e))
        if not bad:
            R.good("parallel body at %s: no unsynchronised write to shared state in %d reachable functions" % (body.where(), len(P.reachable([body.key]))))
    # the OpenMP loop itself: variables of the enclosing function used inside the construct
    for f, n in omp:
        inside = {x["id"] for x in walk(n)}
        declared = {x["d"] for x in walk(n) if x["k"] == "Var"} | {b["d"] for x in walk(n) if x["k"] == "Var" for b in x.get("bind", ())}
        fr = E.frame(f)
        for x in walk(n):
            for t in E.targets_written(f, x):
                e = t[0]
                if E.is_sync(e.get("t", -1)):
                    continue
                for p in E.lvalue(f, fr, e):
                    r = p[0]
                    if r != "this" and r[0] == "tls":
                        continue
                    if r != "this" and r[0] == "v" and r[2] == f.key and r[1] in declared:
                        continue
                    ok = E.locked(f, x) or E.main_thread_only(f, x)
                    R.oblige(ok, "%s/omp/%s" % (f.qn, pstr2(p)), "%s of shared %s inside the OpenMP parallel region of %s without synchronisation" % (t[1], pstr2(p), f.qn), f.where(x),
                             sample="%s: write of shared %s inside the OpenMP region is synchronised" % (f.qn, pstr2(p)))
        # callbacks that report progress are not written for concurrency: main thread only
        for x in walk(n):
            if x["k"] == "OpCall" and x.get("op") == "()" and x["c"]:
                t = P.tstr(P.strip_ref(x["c"][0].get("t", -1)))
                if "std::function<" in t and not is_proc(P, x["c"][0].get("t", -1)):
                    R.count("progress_callbacks")
                    R.oblige(E.main_thread_only(f, x), "%s/progress" % f.qn, "%s invokes the progress callback from every thread of the parallel loop (it must run on one thread only)" % f.qn, f.where(x),
                             sample="%s invokes the progress callback on thread 0 only" % f.qn)
    R.floor("parallel_loop_bodies", 8)
    R.floor("openmp_regions", 1)
    R.floor("functions_analysed", 200)
    return R


def pstr2(path):
    r = path[0]
    if r == "this" or r[0] == "v":
        return pstr(path)
    if r[0] == "P":
        return pstr((("v", "param%d" % r[2]),) + path[1:])
    if r[0] == "g":
        return pstr((("v", str(r[1])),) + path[1:])
    return pstr((("v", "<object>"),) + path[1:])


def trace(P, body, e):
    out = []
    for k, nid, line in e.via:
        f = P.funcs[k]
        out.append("%s (%s)" % (f.label(), "%s:%d" % (P.rel(f.file), line)))
    out.append("%s (%s)" % (e.fn.label(), e.fn.where(e.node)))
    return out
