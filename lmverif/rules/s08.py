"""S08: an exception thrown inside a parallel loop reaches the caller of the loop."""
from ..core import *
from ..prog import kids, walk
from .s06 import is_proc
from ..effects import Effects


def try_of(f, n, stop):
    """enclosing try statements of n (inside stop) whose *block* contains n"""
    out = []
    x = n
    for p in f.ancestors(n):
        if p["k"] == "CXXTryStmt" and p["c"][0] is x:
            out.append(p)
        if p is stop:
            break
        x = p
    return out


def current(f, n):
    """an expression that is the exception being handled, directly or through a local"""
    for z in walk(n):
        if z["k"] == "Call" and z.get("fn") in ("std::current_exception", "std::make_exception_ptr"):
            return True
        if z["k"] == "DeclRefExpr" and z.get("dk") == "local" and z.get("d") in f.vars and z["d"] not in f.assigned_vars():
            i = (f.vars[z["d"]].get("c") or [None])[0]
            if i is not None and any(x["k"] == "Call" and x.get("fn") in ("std::current_exception", "std::make_exception_ptr") for x in walk(i)):
                return True
    return False


def captures(f, h):
    return [y for y in walk(h) if y["k"] in ("BinOp", "OpCall") and y.get("op") == "=" and current(f, y["c"][1])]


def refs(n, d):
    return any(x["k"] == "DeclRefExpr" and x.get("d") == d for x in walk(n))


class Rethrow:
    """after the loop: on every normal exit the captured exception is known to be empty"""

    def __init__(self, P, after, d):
        self.P, self.after, self.d = P, after, d
        self.active = False

    def on_node(self, it, fr, n, st):
        if n["k"] == "Call" and n.get("fn") == "std::rethrow_exception":
            return None if not refs(n, self.d) else (None, True)
        return None


def check(ctx):
    P = ctx.P
    R = Result()
    E = Effects(ctx)
    for f in P.funcs.values():
        for n in f.walk():
            if n["k"] != "OMP" or "Parallel" not in n.get("dir", ""):
                continue
            R.count("parallel_regions")
            users = [x for x in walk(n) if x["k"] == "OpCall" and x.get("op") == "()" and x["c"] and "std::function<" in P.tstr(P.strip_ref(x["c"][0].get("t", -1)))]
            # other calls that may throw (anything not known noexcept) count as well
            calls = users + [x for x in walk(n) if x["k"] in ("MCall", "Call") and x.get("f") in P.funcs and not P.funcs[x["f"]].get("noexcept")]
            for x in calls:
                R.count("callbacks")
                ts = [t for t in try_of(f, x, n) if any(h.get("all") for h in t["c"][1:])]
                key = "%s/%s" % (f.qn, "user" if x in users else x.get("fn"))
                R.oblige(bool(ts), key + "/caught", "%s: a call inside the OpenMP parallel region can throw out of the region (no catch-all handler around it): the program is terminated" % f.qn, f.where(x),
                         sample="%s: call at %s is inside a catch-all handler of the region" % (f.qn, f.where(x)))
                if not ts:
                    continue
                t = ts[0]
                for h in t["c"][1:]:
                    # typed handlers before the catch-all may not swallow either
                    cap = captures(f, h)
                    uncond = [(f, y) for y in cap if not any(p["k"] in ("IfStmt", "SwitchStmt", "ForStmt", "WhileStmt") and in_sub(h, p) for p in f.ancestors(y)) or cond_first(f, y, h, t)]
                    for y in walk(h):
                        # a helper lambda of the same function that keeps it
                        if y["k"] == "OpCall" and y.get("op") == "()" and cond_first(f, y, h, t):
                            for tg in P.targets(y):
                                g = P.funcs.get(tg)
                                if g is not None and g.is_lambda and g.body:
                                    uncond += [(g, z) for z in captures(g, g.body) if cond_first(g, z, g.body, t)]
                    R.oblige(bool(uncond), key + "/captured", "%s: the handler of the parallel region does not keep the exception for the caller: the error is silently lost" % f.qn, f.where(h),
                             sample="%s: handler captures std::current_exception()" % f.qn)
                    for g, y in uncond:
                        d = y["c"][0].get("d")
                        once = any(p["k"] == "IfStmt" and (g is not f or in_sub(h, p)) and any(z["k"] == "MCall" and z.get("mname") in ("exchange", "test_and_set") for z in walk(p["c"][2])) for p in g.ancestors(y))
                        R.oblige(E.locked(g, y) or once or E.is_sync(y["c"][0].get("t", -1)), key + "/lock", "%s: the captured exception is stored by several threads without a lock" % f.qn, g.where(y))
                        lost = [z for z in f.walk() if z["k"] in ("BinOp", "OpCall") and z.get("op") == "=" and z["c"][0].get("d") == d and not any(in_sub(hh, z) for hh in t["c"][1:])] + \
                            [z for z in f.walk() if z["k"] == "Call" and z.get("fn") in ("std::swap", "std::exchange") and refs(z, d)]
                        R.oblige(not lost, key + "/kept", "%s: the captured exception is overwritten before it is rethrown" % f.qn, f.where(lost[0]) if lost else g.where(y))
                        # after the region the exception is rethrown whenever it is set
                        R.oblige(rethrown(P, f, n, d), key + "/rethrown", "%s: after the parallel loop there is a path on which a captured exception is not rethrown to the caller" % f.qn, f.where(n),
                                 sample="%s: captured exception rethrown after the region on every path" % f.qn)
    R.floor("parallel_regions", 1)
    R.floor("callbacks", 2)
    # code run by the workers does not swallow errors either
    from .s06 import regions, python_glue
    roots = [r[3].key for r in regions(ctx)]
    tree = P.reachable(roots, stop=lambda g: python_glue(P, g))
    R.count("functions_run_by_workers", len(tree))
    for k in sorted(tree):
        g = P.funcs[k]
        for n in g.walk():
            if n["k"] == "CXXTryStmt" and any(x["k"] in ("Call", "MCall", "OpCall") and (any(t in P.funcs for t in P.targets(x)) or x["k"] == "OpCall" and x.get("op") == "()") for x in walk(n["c"][0])):
                for h in n["c"][1:]:
                    R.count("worker_handlers")
                    R.oblige(always_throws(h) or any(y["k"] == "Call" and y.get("fn") == "std::current_exception" for y in walk(h)) , "%s/swallowed" % g.label(),
                             "%s: an error raised while a worker runs this code is swallowed here and never reaches the caller of the loop" % g.label(), g.where(h), P.chain(tree, k))
    # the public loop hands the callback to the context unchanged, outside any swallowing handler
    for f in P.funcs.values():
        for n in f.walk():
            if n["k"] == "CXXTryStmt":
                body = n["c"][0]
                runs = [x for x in walk(body) if x["k"] in ("Call", "MCall", "OpCall") and (
                    any(a is not None and is_proc(P, t) for a, t in zip(P.call_args(x), x.get("pt", []))) or x.get("mname") in ("render", "foreach") and x.get("cls", "").startswith("lm::"))]
                for x in runs:
                    R.count("try_around_loops")
                    for h in n["c"][1:]:
                        re = any(y["k"] == "Throw" or (y["k"] == "Call" and y.get("fn") in ("std::rethrow_exception", "std::current_exception", "std::throw_with_nested")) for y in walk(h))
                        R.oblige(re, "%s/swallow" % f.qn, "%s: a handler around the parallel loop swallows its exceptions" % f.label(), f.where(h))
    return R


def always_throws(s):
    """every path through statement s ends in a throw"""
    if s is None:
        return False
    k = s["k"]
    if k == "Throw" or k == "Call" and (s.get("noreturn") or s.get("fn") == "std::rethrow_exception"):
        return True
    if k == "IfStmt":
        return len(s["c"]) > 4 and always_throws(s["c"][3]) and always_throws(s["c"][4])
    if k in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "SwitchStmt", "Lambda", "CXXTryStmt", "ConditionalOperator"):
        return False
    for c in kids(s):
        if c["k"] in ("ReturnStmt", "BreakStmt", "ContinueStmt"):
            return False
        if always_throws(c):
            return True
    return False


def in_sub(root, n):
    return any(x is n for x in walk(root))


def handler_flag(f, c, t):
    """condition is the negation of a flag that is only ever changed by the handlers of t"""
    neg = c["k"] == "UnOp" and c["op"] == "!"
    x = c["c"][0] if neg else c
    while x["k"] in ("Cast",) and kids(x):
        x = kids(x)[0]
    if x["k"] == "MCall" and x.get("mname", "").startswith(("operator", "load", "exchange", "test_and_set")):
        x = x["c"][0]
    if not neg or x["k"] != "DeclRefExpr":
        return False
    d = x.get("d")
    for m in f.walk():
        w = m["k"] in ("BinOp", "OpCall", "CAssign") and m.get("op", "") in ("=", "+=", "|=") or m["k"] == "MCall" and m.get("mname") in ("store", "exchange", "clear", "test_and_set")
        if w and m["c"] and m["c"][0].get("d") == d and not any(in_sub(h, m) for h in t["c"][1:]):
            return False
    return True


def empty_test(c, d):
    """True if the condition says that variable d is empty, False if it says that it is not, None if unknown"""
    while c is not None and c["k"] in ("Cast", "ExprWithCleanups", "ParenExpr") and kids(c):
        c = kids(c)[0]
    if c is None:
        return None
    if c["k"] == "UnOp" and c["op"] == "!":
        r = empty_test(c["c"][0], d)
        return None if r is None else not r
    if c["k"] == "MCall" and c.get("mname", "").startswith("operator") and c["c"] and refs(c["c"][0], d):
        return False
    if c["k"] == "DeclRefExpr" and c.get("d") == d:
        return False
    if c["k"] in ("OpCall", "BinOp") and c.get("op") in ("==", "!=") and len(c["c"]) == 2 and refs(c, d):
        return c["op"] == "=="
    return None


def cond_first(f, y, h, t):
    """conditional capture of the form if (!exp) exp = current_exception() keeps the first exception"""
    d = y["c"][0].get("d")
    for p in f.ancestors(y):
        if p is h:
            return True
        if p["k"] == "IfStmt":
            c = p["c"][2]
            if refs(c, d):
                e = empty_test(c, d)
                els = len(p["c"]) > 4 and p["c"][4] is not None and in_sub(p["c"][4], y)
                if e is not None and e == els:
                    return False        # kept only when one was kept before
            elif not handler_flag(f, c, t):
                return False
        elif p["k"] in ("SwitchStmt", "ForStmt", "WhileStmt", "DoStmt"):
            return False
    return True


def rethrown(P, f, omp, d):
    """structural: interpret the statements after the construct with 'exception set'"""
    # walk up from omp; every statement after it at each level
    seq = []
    x = omp
    for p in f.ancestors(omp):
        if p["k"] == "CompoundStmt":
            after = False
            for s in kids(p):
                if after:
                    seq.append(s)
                if s is x or any(y is x for y in [s]):
                    after = True
        x = p
    r = run_seq(P, f, seq, d)
    return r == "throws"


def run_seq(P, f, seq, d):
    for s in seq:
        r = run(P, f, s, d)
        if r in ("throws", "exits"):
            return r
    return "falls"


def run(P, f, s, d):
    if s is None:
        return "falls"
    k = s["k"]
    if k == "CompoundStmt":
        return run_seq(P, f, kids(s), d)
    if k == "ReturnStmt":
        return "exits"
    if k == "IfStmt":
        t = truth(s["c"][2], d)
        a = run(P, f, s["c"][3], d)
        b = run(P, f, s["c"][4], d) if len(s["c"]) > 4 else "falls"
        if t is True:
            return a
        if t is False:
            return b
        if a == b:
            return a
        if "exits" in (a, b):
            return "exits"
        return "falls"
    if any(x["k"] == "Call" and x.get("fn") == "std::rethrow_exception" and refs(x, d) for x in walk(s)) and k not in ("ForStmt", "WhileStmt", "CXXTryStmt", "Lambda"):
        return "throws"
    for x in walk(s):
        if x["k"] in ("Call", "MCall") and x.get("f") in P.funcs and any(refs(a, d) for a in P.call_args(x) if a):
            g = P.funcs[x["f"]]
            i = next((i for i, a in enumerate(P.call_args(x)) if a and refs(a, d)), None)
            if i is not None and g.body and run(P, g, g.body, g.params[i]["d"]) == "throws":
                return "throws"
    return "falls"


def truth(c, d):
    """value of condition c when variable d holds an exception; None if unrelated"""
    k = c["k"]
    if k == "UnOp" and c["op"] == "!":
        t = truth(c["c"][0], d)
        return None if t is None else not t
    if k in ("BinOp", "OpCall") and c.get("op") in ("==", "!="):
        a, b = c["c"][0], c["c"][1]
        if a["k"] == "CXXNullPtrLiteralExpr":
            a, b = b, a
        if refs(a, d) and any(x["k"] == "CXXNullPtrLiteralExpr" for x in walk(b)):
            return c["op"] == "!="
        return None
    if k == "BinOp" and c["op"] == "||":
        t = [truth(x, d) for x in c["c"]]
        return True if True in t else None
    if k == "BinOp" and c["op"] == "&&":
        t = [truth(x, d) for x in c["c"]]
        return False if False in t else (True if all(x is True for x in t) else None)
    if refs(c, d) and k in ("DeclRefExpr", "MCall", "Cast", "Construct"):
        return True
    return None
