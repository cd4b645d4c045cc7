"""S09: state shared between threads under a mutex is only touched under that mutex; condition variables follow the protocol."""
from ..core import *
from ..prog import kids, walk
from ..effects import Effects, LOCKS, ATOMIC
from .s06 import regions, lexical_chain, python_glue

MUTEX = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex")


def held(E, f, n):
    """names of mutexes whose scoped lock is alive at n (same function; for lambdas passed to wait(): the caller's)"""
    out = set()
    x = n
    P = E.P
    for p in f.ancestors(n):
        if p["k"] == "CompoundStmt":
            for s in kids(p):
                if s["id"] >= x["id"]:
                    break
                if s["k"] == "DeclStmt":
                    for v in kids(s):
                        if P.tstr(v.get("t", -1)).startswith(LOCKS) and not E.released(f, v, n) and E.shared_mutex(f, v, n):
                            for y in walk((v.get("c") or [None])[0] or {"k": ""}):
                                if y["k"] in ("DeclRefExpr", "MemberExpr") and P.tstr(P.strip_ref(y.get("t", -1))).replace("const ", "").startswith(MUTEX):
                                    out.add(y["n"])
        x = p
    return out


class Ctx2:
    def __init__(self, ctx, E):
        self.ctx, self.P, self.E = ctx, ctx.P, E
        self._lc = {}

    def held_at(self, f, n, depth=0):
        """mutexes held at n, including those held by every caller of a lambda/helper"""
        h = held(self.E, f, n)
        if depth < 4:
            h |= self.held_entry(f, depth)
        return h

    def held_entry(self, f, depth):
        if f.key in self._lc:
            return self._lc[f.key]
        self._lc[f.key] = set()
        sites = []
        if f.is_lambda:
            par = self.P.lambda_parent(f)
            if par is not None:
                for n in par.walk():
                    if n["k"] == "Lambda" and f.key in [n["f"]] + n.get("specs", []):
                        p = par.parent(n)
                        while p is not None and p["k"] in ("Construct", "Cast"):
                            p = par.parent(p)
                        if p is not None and p["k"] == "Var":
                            # named lambda: its call sites
                            d = p["d"]
                            for g in [par] + self.ctx.lambdas_of(par):
                                for m in g.walk():
                                    if m["k"] == "OpCall" and m.get("op") == "()" and m["c"][0]["k"] == "DeclRefExpr" and m["c"][0].get("d") == d:
                                        sites.append((g, m))
                                    elif m["k"] in ("Construct", "Call", "MCall") and any(c is not None and c["k"] == "DeclRefExpr" and c.get("d") == d for c in m.get("c", ())) and "thread" in (m.get("rn") or m.get("fn") or m.get("cls") or ""):
                                        sites.append((None, m))
                        elif p is not None and p["k"] in ("MCall", "Call", "OpCall"):
                            sites.append((par, p) if "thread" not in (p.get("rn") or p.get("cls") or "") else (None, p))
        elif f.cls and not f.get("virtual") and not f.get("ctor"):
            for g, m in self.P.callers().get(f.key, ()):
                if m["k"] != "Lambda":
                    sites.append((g, m))
        res = None
        for g, m in sites:
            s = self.held_at(g, m, depth + 1) if g is not None else set()
            res = s if res is None else res & s
        self._lc[f.key] = res or set()
        return self._lc[f.key]


def accesses(f, match):
    """(node, is_write) of every access to the variable/field selected by match"""
    out = []
    for n in f.walk():
        if not match(n):
            continue
        out.append((n, is_write(f, n)))
    return out


def is_write(f, n):
    x, p = n, f.parent(n)
    while p is not None:
        k = p["k"]
        if k in ("MemberExpr", "ArraySubscriptExpr", "Cast") or (k == "OpCall" and p.get("op") == "[]" and p["c"][0] is x):
            x, p = p, f.parent(p)
            continue
        if (k in ("BinOp",) and p["op"] == "=") or k == "CAssign":
            return p["c"][0] is x
        if k == "UnOp" and p["op"] in ("++", "--", "&"):
            return True
        if k == "OpCall" and p.get("op") in ("=", "+=", "-=", "++", "--", "<<", ">>"):
            return p["c"][0] is x
        if k == "MCall" and p["c"] and p["c"][0] is x:
            return not p.get("mconst") and p.get("mname") not in ("begin", "end", "front", "back", "find", "at", "size", "empty", "c_str", "data")
        return False
    return False


def check(ctx):
    P = ctx.P
    R = Result()
    E = Effects(ctx)
    C = Ctx2(ctx, E)
    # ---- classes with a mutex member: every member written after construction is guarded by it
    for cls, rec in sorted(P.records.items()):
        mx = [f["n"] for f in rec["fields"] if P.tstr(f["t"]).startswith(MUTEX)]
        if not mx:
            continue
        R.count("classes_with_mutex")
        ms = [f for f in P.by_cls.get(cls, ()) if f.body and not f.is_lambda]
        fs = []
        for f in ms:
            if f.get("ctor") or f.get("dtor") or f.name in ("construct",):
                continue
            fs.append(f)
            fs += ctx.lambdas_of(f)
        fields = [f for f in rec["fields"] if f["n"] not in mx and not P.tstr(f["t"]).startswith(ATOMIC) and not P.tstr(f["t"]).startswith("std::condition")]
        for fl in fields:
            acc = []
            for f in fs:
                acc += [(f, n, w) for n, w in accesses(f, lambda n: n["k"] == "MemberExpr" and n.get("dk") == "field" and n["n"] == fl["n"] and n.get("cls") == cls)]
            if not any(w for _, _, w in acc):
                continue            # only written during construction
            R.count("guarded_members")
            for f, n, w in acc:
                R.oblige(bool(C.held_at(f, n) & set(mx)), "%s/%s/%s" % (cls, fl["n"], P.outer(f).name),
                         "%s::%s is %s in %s() without holding %s, while other threads may change it" % (cls, fl["n"], "written" if w else "read", P.outer(f).name, "/".join(mx)), f.where(n),
                         sample="%s::%s %s in %s() under %s" % (cls, fl["n"], "written" if w else "read", P.outer(f).name, "/".join(mx)))
        # function-local statics of those methods are shared as well
        for f in fs:
            for v in f.vars.values():
                if v.get("st") and not P.ty(v.get("t", -1)).get("const") and not P.tstr(v.get("t", -1)).startswith(ATOMIC):
                    for g in [f] + ctx.lambdas_of(f):
                        for n, w in accesses(g, lambda n: n["k"] == "DeclRefExpr" and n.get("d") == v["d"]):
                            R.count("static_accesses")
                            R.oblige(bool(C.held_at(g, n) & set(mx)), "%s/static/%s" % (cls, v["n"]), "static variable %s of %s() is used without holding %s" % (v["n"], f.name, "/".join(mx)), g.where(n))
        # output of one message is one critical section
        for f in fs:
            for n in f.walk():
                if n["k"] == "OpCall" and n.get("op") == "<<" and any(x["k"] == "DeclRefExpr" and x.get("qn") in ("std::cout", "std::cerr") for x in walk(n)):
                    par = f.parent(n)
                    if par is not None and par["k"] == "OpCall":
                        continue
                    R.count("guarded_outputs")
                    R.oblige(bool(C.held_at(f, n) & set(mx)), "%s/cout/%s" % (cls, P.outer(f).name), "%s writes to the console in %s() without holding %s: concurrent messages interleave" % (cls, P.outer(f).name, "/".join(mx)), f.where(n))
    R.floor("classes_with_mutex", 1)
    R.floor("guarded_members", 2)
    # ---- thread bodies: captured variables written by any thread are accessed under a lock or atomic
    for kind, f, n, body in regions(ctx):
        if kind != "thread":
            continue
        R.count("thread_bodies")
        outer = P.outer(body)
        fs = [body] + ctx.lambdas_of(body)
        own = set()
        for g in fs:
            own |= set(g.vars) | {p["d"] for p in g.params}
        shared = {}
        for g in fs:
            for m in g.walk():
                if m["k"] == "DeclRefExpr" and m.get("dk") in ("local", "param") and m["d"] not in own:
                    shared.setdefault(m["d"], []).append((g, m))
        for d, acc in sorted(shared.items()):
            t = acc[0][1].get("t", -1)
            if E.is_sync(t) or "std::condition_variable" in P.tstr(P.strip_ref(t)):
                continue
            if not any(is_write(g, m) for g, m in acc):
                continue
            R.count("shared_variables")
            for g, m in acc:
                R.oblige(bool(C.held_at(g, m)), "%s/%s" % (outer.qn, m["n"]), "%s: variable '%s' shared by the worker threads is %s without holding the mutex" % (outer.qn, m["n"], "written" if is_write(g, m) else "read"), g.where(m),
                         sample="%s: shared '%s' accessed under the mutex at %s" % (outer.qn, m["n"], g.where(m)))
        # ---- condition variables
        for g in fs:
            for m in g.walk():
                if m["k"] == "MCall" and m.get("cls", "").startswith("std::condition_variable") and m.get("mname") in ("wait", "wait_for", "wait_until"):
                    R.count("waits")
                    npred = 3 if m["mname"] != "wait" else 2
                    pred_ok = len(m["c"]) > npred or (m["mname"] == "wait" and len(m["c"]) > 2) or any(p["k"] in ("WhileStmt", "DoStmt") and p is not None and cond_shared(p, shared) and not spans_lock(E, g, p, m) for p in g.ancestors(m))
                    R.oblige(pred_ok, "%s/wait" % outer.qn, "%s: waits on a condition variable without re-checking the condition (lost or spurious wakeup)" % outer.qn, g.where(m))
                    # predicate variables
                    pv = set()
                    for a in m["c"][2:]:
                        for y in walk(a) if a else ():
                            if y["k"] == "Lambda" and y["f"] in P.funcs:
                                pv |= {z["d"] for z in P.funcs[y["f"]].walk() if z["k"] == "DeclRefExpr" and z["d"] in shared}
                    for p in g.ancestors(m):
                        if p["k"] == "WhileStmt":
                            pv |= {z["d"] for z in walk(p["c"][1]) if z["k"] == "DeclRefExpr" and z["d"] in shared}
                            break
                    # what ends the waiting thread's work must also end its wait
                    ends = stop_vars(P, fs, g, m, shared)
                    for d in sorted(ends):
                        if any(is_write(g2, z) for g2, z in shared[d]):
                            R.oblige(d in pv, "%s/%s/pred" % (outer.qn, shared[d][0][1]["n"]), "%s: '%s' ends the work of the threads, but a thread that is already waiting does not check it and waits forever" % (outer.qn, shared[d][0][1]["n"]), g.where(m),
                                     sample="%s: the wait also ends on '%s'" % (outer.qn, shared[d][0][1]["n"]))
                    for g2 in fs:
                        for z in g2.walk():
                            if z["k"] == "DeclRefExpr" and z.get("d") in pv and is_write(g2, z) and enables(g2, z):
                                R.count("condition_changes")
                                nt = notify_after(P, C, g2, z)
                                lock = C.held_at(g2, z)
                                R.oblige(bool(lock), "%s/%s/nolock" % (outer.qn, z["n"]), "%s: '%s', on which threads wait, is changed without holding the mutex (lost wakeup)" % (outer.qn, z["n"]), g2.where(z))
                                R.oblige(nt is not None, "%s/%s/notify" % (outer.qn, z["n"]), "%s: after '%s' changes, waiting threads are not notified on every path" % (outer.qn, z["n"]), g2.where(z),
                                         sample="%s: change of '%s' at %s is followed by %s" % (outer.qn, z["n"], g2.where(z), nt))
                                if nt is not None and is_flag(g2, z):
                                    R.oblige(nt == "notify_all", "%s/%s/all" % (outer.qn, z["n"]), "%s: setting '%s' ends the work of every thread but only one waiting thread is woken" % (outer.qn, z["n"]), g2.where(z))
        # threads are joined by their creator on every path
        joins = [(g, x) for g in [f] + ctx.lambdas_of(f) for x in g.walk() if x["k"] == "MCall" and x.get("mname") == "join" and x.get("cls") == "std::thread"]
        det = [(g, x) for g in [f] + ctx.lambdas_of(f) for x in g.walk() if x["k"] == "MCall" and x.get("mname") == "detach" and x.get("cls") == "std::thread"]
        cond = [(g, x) for g, x in joins if any(p["k"] in ("IfStmt", "SwitchStmt", "ConditionalOperator") and not only_joinable(p) for p in g.ancestors(x))]
        ok = bool(joins) and not det and len(cond) < len(joins)
        R.oblige(ok, "%s/join" % outer.qn, "%s: threads are started but not joined on every path" % outer.qn, (det or cond or [(f, n)])[0][0].where((det or cond or [(f, n)])[0][1]), sample="%s joins its threads" % outer.qn)
    return R


def only_joinable(p):
    """if (t.joinable())"""
    c = p["c"][2] if p["k"] == "IfStmt" else None
    return c is not None and not any(z["k"] in ("DeclRefExpr", "MemberExpr") and "std::thread" not in str(z.get("n")) and False for z in walk(c)) and \
        all(z["k"] != "MCall" or z.get("mname") == "joinable" for z in walk(c)) and not any(z["k"] == "BinOp" for z in walk(c)) and any(z["k"] == "MCall" for z in walk(c))


def stop_vars(P, fs, g, m, shared):
    """shared variables whose change makes the waiting thread leave its work loop"""
    out = set()
    for h in fs:
        for n in h.walk():
            if n["k"] == "WhileStmt" or n["k"] == "ForStmt":
                c = n["c"][1] if n["k"] == "WhileStmt" else n["c"][2]
                body = list(walk(n))
                inside = any(x is m for x in body) or any(x["k"] == "Lambda" and P.funcs.get(x["f"]) is not None and any(y is m for q in [P.funcs[x["f"]]] for y in q.walk()) for x in body)
                if not inside:
                    continue
                for z in walk(c) if c else ():
                    if z["k"] == "DeclRefExpr" and z.get("d") in shared:
                        out.add(z["d"])
                for x in body:
                    if x["k"] == "IfStmt" and x["c"][3] is not None and any(y["k"] in ("BreakStmt",) for y in walk(x["c"][3])) and not any(y["k"] in ("ForStmt", "WhileStmt") for y in walk(x["c"][3])):
                        cc = x["c"][2]
                        if cc["k"] in ("DeclRefExpr", "MCall", "Cast", "UnOp"):
                            out |= {z["d"] for z in walk(cc) if z["k"] == "DeclRefExpr" and z.get("d") in shared}
    return out


def cond_shared(p, shared):
    c = p["c"][1]
    return any(z["k"] == "DeclRefExpr" and z.get("d") in shared for z in walk(c))


def spans_lock(E, g, loop, m):
    """lock acquired inside the loop body (so the condition is not re-checked under it)"""
    for x in walk(loop):
        if x["k"] == "Var" and E.P.tstr(x.get("t", -1)).startswith(LOCKS):
            return True
    return False


def enables(f, z):
    """writes that can make a waiter's condition true: push/insert into a queue, flag set (not pop, not clearing)"""
    p = f.parent(z)
    if p is not None and p["k"] == "MCall":
        return p.get("mname") in ("push", "push_back", "emplace", "emplace_back", "insert", "store", "push_front")
    if p is not None and (p["k"] in ("BinOp", "OpCall") and p.get("op") == "="):
        r = p["c"][1]
        return not (r["k"] in ("Int", "Bool") and str(r["v"]) in ("0", "False"))
    return False


def is_flag(f, z):
    p = f.parent(z)
    if p is None:
        return False
    if p["k"] in ("BinOp", "OpCall") and p.get("op") == "=":
        r = p["c"][1]
        return r["k"] in ("Int", "Bool")
    return p["k"] == "MCall" and p.get("mname") == "store"


def notify_after(P, C, f, z):
    """notify_* executed after z in its block or an enclosing block, before control leaves"""
    x = z
    for p in f.ancestors(z):
        if p["k"] == "CompoundStmt":
            after = False
            for s in kids(p):
                if after:
                    for y in walk(s):
                        if y["k"] == "MCall" and y.get("mname") in ("notify_all", "notify_one") and not any(q["k"] in ("IfStmt", "ForStmt", "WhileStmt") for q in anc_until(f, y, p)):
                            return y["mname"]
                    if s["k"] in ("ReturnStmt", "BreakStmt", "ContinueStmt"):
                        return None
                if s is x:
                    after = True
        x = p
    return None


def anc_until(f, y, stop):
    out = []
    for p in f.ancestors(y):
        if p is stop:
            break
        out.append(p)
    return out
