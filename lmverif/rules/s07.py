"""S07: concurrent film contributions are atomic read-modify-writes (no lost update)."""
from ..core import *
from ..prog import kids, walk
from ..effects import Effects, ATOMIC
from ..poly import poly, mul, plus

CAS = ("compare_exchange_weak", "compare_exchange_strong")
RMW = ("fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "exchange")


def is_atomic(P, t):
    s = P.tstr(P.strip_ref(t)).replace("const ", "")
    return s.startswith(ATOMIC)


class Ops:
    """collect atomic operations with the frame they happen in"""

    def __init__(self, P):
        self.P = P
        self.ops = []       # (kind, frame, node, object expr, value expr)
        self.idx = []       # (frame, index expression) of the pixel updated

    # st.x: set of (updated, reason) per path; reason: what decided a path without update
    def merge_x(self, a, b):
        return (a or frozenset()) | (b or frozenset())

    def on_assume(self, it, fr, cond, sense, st):
        if st is None or not st.x:
            return st
        s = Src(self.P, it, fr.fn, None, None, None)
        try:
            dep = s.of(fr, cond)
        except RecursionError:
            dep = set()
        if zero_test(cond):
            why = "zero"
        elif "PARAM2" in dep:
            why = "value"
        elif dep & {"PARAM0", "PARAM1"}:
            why = "place"
        else:
            why = "other"
        if any(x["k"] == "MCall" and x.get("mname") in CAS for x in walk(cond)):
            return st
        return st.with_x(frozenset((u, w if u or w == "value" else why) for u, w in st.x))

    def on_node(self, it, fr, n, st):
        k0 = len(self.ops)
        r = self.on_node2(it, fr, n, st)
        if len(self.ops) > k0:
            obj = self.ops[-1][3]
            fx = fr
            while obj is not None:
                for m in walk(obj):
                    if m["k"] == "OpCall" and m.get("op") == "[]" and len(m["c"]) > 1 or m["k"] == "ArraySubscriptExpr" or m["k"] == "MCall" and m.get("mname") == "at" and len(m["c"]) > 1:
                        self.idx.append((fx, m["c"][1]))
                        obj = None
                        break
                else:
                    # operation on a member of the wrapper: look at the object the wrapper's method was called on
                    obj = self.P.call_obj(fx.call) if fx.call is not None else None
                    fx = fx.up
            return St(st.facts, st.nulls, frozenset((True, w) for u, w in (st.x or {(False, "")}))), False
        return r

    def on_node2(self, it, fr, n, st):
        P = self.P
        k = n["k"]
        if k == "MCall" and n.get("cls", "").startswith(ATOMIC) and n["c"]:
            m = n.get("mname")
            if m in CAS:
                self.ops.append(("cas", fr, n, n["c"][0], n["c"][2] if len(n["c"]) > 2 else None))
            elif m in RMW:
                self.ops.append(("rmw", fr, n, n["c"][0], n["c"][1] if len(n["c"]) > 1 else None))
            elif m == "store":
                self.ops.append(("store", fr, n, n["c"][0], n["c"][1]))
            return None
        if k == "OpCall" and n["c"] and is_atomic(P, n["c"][0].get("t", -1)) and n.get("op") in ("=", "+=", "-=", "|=", "&=", "^=", "++", "--"):
            self.ops.append(("store" if n["op"] == "=" else "rmw", fr, n, n["c"][0], n["c"][1] if len(n["c"]) > 1 else None))
        return None

    def inline(self, it, fr, n, f):
        return True


def zero_test(c):
    """condition that only separates a contribution of exactly zero"""
    while c["k"] in ("Cast",) and kids(c) or c["k"] == "UnOp" and c.get("op") == "!":
        c = kids(c)[0]
    if c["k"] == "Call" and c.get("fn", "").endswith("is_zero"):
        return True
    if c["k"] in ("OpCall", "BinOp") and c.get("op") in ("==", "!="):
        return any(all(y["k"] in ("Construct", "Cast", "InitList", "Flt", "Int", "Call", "OpCall", "DeclRefExpr") and str(y.get("v", "0")).rstrip("0.") in ("", "-") for y in walk(x)) and
                   any(y["k"] in ("Flt", "Int") for y in walk(x)) for x in c["c"])
    return False


def loads(P, e):
    """atomic objects read by an expression (load(), implicit conversion)"""
    out = []
    for m in walk(e) if e else ():
        if m["k"] == "MCall" and m.get("mname") in ("load", "exchange") and m.get("cls", "").startswith(ATOMIC):
            out.append(m["c"][0])
        elif m["k"] == "MCall" and m.get("cls", "").startswith(ATOMIC) and m.get("mname", "").startswith("operator "):
            out.append(m["c"][0])
        elif m["k"] in ("MemberExpr", "DeclRefExpr") and is_atomic(P, m.get("t", -1)):
            out.append(m)
    return out


def inside_loop(f, n):
    for p in f.ancestors(n):
        if p["k"] in ("WhileStmt", "DoStmt", "ForStmt", "CXXForRangeStmt"):
            return p
    return None


def in_tree(root, n):
    return root is not None and any(x.get("id") == n["id"] for x in walk(root))


def retried(f, n):
    """the CAS is repeated until it succeeds"""
    lp = inside_loop(f, n)
    if lp is None:
        return False
    cond = {"WhileStmt": 1, "DoStmt": 1, "ForStmt": 2}.get(lp["k"])
    c = lp["c"][cond] if cond is not None else None
    if c is not None and in_tree(c, n):
        return fails_true(c, n) is True
    # inside the body: success leaves the loop, failure goes round
    for p in f.ancestors(n):
        if p is lp:
            break
        if p["k"] == "IfStmt" and in_tree(p["c"][2], n):
            s = fails_true(p["c"][2], n)
            br = p["c"][3] if s is False else (p["c"][4] if len(p["c"]) > 4 else None)
            if br is not None and any(x["k"] in ("BreakStmt", "ReturnStmt") for x in walk(br)):
                return True
            # if (!cas) continue; ... break
            if s is True and any(x["k"] == "ContinueStmt" for x in walk(p["c"][3])):
                return True
    # result kept in a flag that controls the loop
    par = f.parent(n)
    while par is not None and par["k"] in ("Cast", "UnOp"):
        par = f.parent(par)
    d, neg = None, False
    if par is not None and par["k"] == "Var":
        d = par["d"]
    elif par is not None and par["k"] == "BinOp" and par["op"] == "=" and par["c"][0]["k"] == "DeclRefExpr":
        d = par["c"][0]["d"]
        neg = par["c"][1]["k"] == "UnOp"
    if d is not None:
        if c is not None:
            for x in walk(c):
                if x["k"] == "DeclRefExpr" and x.get("d") == d:
                    s = fails_true(c, x)
                    return (s is True) != neg
        for x in walk(lp):
            if x["k"] == "IfStmt":
                for y in walk(x["c"][2]):
                    if y["k"] == "DeclRefExpr" and y.get("d") == d and any(z["k"] in ("BreakStmt", "ReturnStmt") for z in walk(x["c"][3])):
                        return fails_true(x["c"][2], y) is False
    return False


def fails_true(cond, n):
    """polarity: True if cond is true exactly when n is false, False if cond follows n, None if unclear"""
    if cond.get("id") == n["id"]:
        return False
    if cond["k"] == "UnOp" and cond["op"] == "!":
        r = fails_true(cond["c"][0], n)
        return None if r is None else not r
    if cond["k"] == "Cast" and kids(cond):
        return fails_true(kids(cond)[0], n)
    if cond["k"] == "BinOp" and cond["op"] in ("==", "!="):
        a, b = cond["c"]
        if a["k"] == "Bool":
            a, b = b, a
        if b["k"] == "Bool":
            r = fails_true(a, n)
            if r is None:
                return None
            flip = (cond["op"] == "==") != bool(b["v"])
            return (not r) if flip else r
    if cond["k"] == "BinOp" and cond["op"] == "&&" and False:
        return None
    return None


class Src:
    """sources a value expression is computed from: 'OLD' (the CAS's expected value), parameters of the entry method"""

    def __init__(self, P, it, entry, exp_decl, exp_frame, loop):
        self.P, self.it, self.entry = P, it, entry
        self.exp, self.exp_frame, self.loop = exp_decl, exp_frame, loop
        self.stale = None

    def of(self, fr, e, depth=0, ln=None):
        out = set()
        if e is None or depth > 12:
            return out
        for m in walk(e):
            if m["k"] == "DeclRefExpr" and m.get("dk") in ("local", "param", "binding"):
                out |= self.decl(fr, m, depth)
            elif m["k"] == "Lambda":
                g = self.P.funcs.get(m["f"])
                if g:
                    for x in g.walk():
                        if x["k"] == "DeclRefExpr" and x.get("dk") in ("local", "param"):
                            if x["d"] not in g.vars and not any(p["d"] == x["d"] for p in g.params):
                                out |= self.decl(fr, x, depth)
        return out

    def decl(self, fr, m, depth):
        d = m["d"]
        if d == self.exp and fr is self.exp_frame:
            return {"OLD"}
        f, how = fr.lookup(d)
        if how in ("env", "param"):
            i = next((i for i, p in enumerate(f.fn.params) if p["d"] == d), None)
            if f.up is None:
                return {"PARAM%d" % i}
            if f.call is not None and i is not None:
                a = self.P.call_args(f.call)
                if f.fn.is_lambda and f.call["k"] == "OpCall":
                    a = f.call["c"][1:]
                if i < len(a):
                    return self.of(f.up, a[i], depth + 1)
            return set()
        if how == "var":
            v = f.fn.vars[d]
            if v.get("k") == "Bind":
                v = v["of"]
            init = (v.get("c") or [None])[0]
            out = self.of(f, init, depth + 1) if init is not None else set()
            # assignments to the variable
            for x in f.fn.walk():
                if (x["k"] in ("BinOp", "CAssign") and x.get("op", "").endswith("=") and x["op"] not in ("==", "!=", "<=", ">=") or x["k"] == "OpCall" and x.get("op") in ("=", "+=", "*=", "-=", "/=")) \
                        and x["c"][0]["k"] == "DeclRefExpr" and x["c"][0].get("d") == d:
                    out |= self.of(f, x["c"][1], depth + 1) | {"ASSIGNED_IN_LOOP"} if self.loop is not None and in_tree(self.loop, x) else self.of(f, x["c"][1], depth + 1)
            # a snapshot of the old value taken outside the retry loop is stale on retry
            if f is self.exp_frame and ("OLD" in out or (init is not None and loads(self.P, init))):
                node = next((y for y in f.fn.walk() if y["k"] == "Var" and y.get("d") == d), None)
                inl = self.loop is not None and node is not None and in_tree(self.loop, node)
                if not inl and "ASSIGNED_IN_LOOP" not in out:
                    self.stale = m
                    out.discard("OLD")
                else:
                    out.add("OLD")
            out.discard("ASSIGNED_IN_LOOP")
            return out
        return set()


class Fwd:
    """st.x: 'none' / 'done' / 'twice' per path"""

    def __init__(self, P):
        self.P, self.calls = P, []

    def merge_x(self, a, b):
        return (a or frozenset()) | (b or frozenset())

    def inline(self, it, fr, n, f):
        return f.name in ("splat", "inc_ave") or (not f.is_lambda and f.cls == "lm::Film" and f.name not in ("raster_to_pixel", "aspect"))

    def on_node(self, it, fr, n, st):
        if n["k"] == "MCall" and n.get("mname") in ("splat_pixel", "update_pixel") and self.P.derives(n.get("cls", ""), "lm::Film"):
            self.calls.append((fr, n))
            return st.with_x(frozenset({"done" if e == "none" else "twice" for e in st.x})), True
        return None


def lambdas_in(P, f, e):
    out = []
    for n in walk(e):
        if n["k"] == "Lambda" and n["f"] in P.funcs:
            out.append(P.funcs[n["f"]])
        elif n["k"] == "DeclRefExpr" and n.get("dk") == "local" and n["d"] in f.vars:
            for m in walk((f.vars[n["d"]].get("c") or [None])[0] or {"k": ""}):
                if m["k"] == "Lambda" and m["f"] in P.funcs:
                    out.append(P.funcs[m["f"]])
    return out


def pixel_count(P, cls):
    """polynomial of the number of stored pixels: the count the pixel container is sized with in construct()"""
    owner, m = P.find_method(cls, "construct")
    f = P.funcs.get(m["f"]) if m else None
    if f is None or not f.body:
        return None
    it = Interp(P, None)
    fr = Frame(f, {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}, frozenset({("this",)}), cls)
    for n in f.walk():
        if n["k"] == "MCall" and n.get("mname") in ("assign", "resize") and "Atomic" in n.get("cls", "") + P.tstr(n["c"][0].get("t", -1)) and len(n["c"]) > 1:
            return poly(it, fr, n["c"][1])
    return None


def pixel_index(P, cls):
    """polynomial of the place of pixel (arg0, arg1): arg1 * width + arg0, width as reported by size()"""
    owner, m = P.find_method(cls, "size")
    f = P.funcs.get(m["f"]) if m else None
    if f is None or not f.body:
        return None
    it = Interp(P, None)
    fr = Frame(f, {}, frozenset({("this",)}), cls)
    for n in f.walk():
        if n["k"] == "ReturnStmt" and kids(n):
            e = kids(n)[0]
            while e["k"] in ("Cast", "Construct", "InitList") and len(kids(e)) == 1:
                e = kids(e)[0]
            if len(kids(e)) == 2:
                w = poly(it, fr, kids(e)[0])
                if w is not None:
                    return plus(mul({(("arg", 1),): 1}, w), {(("arg", 0),): 1})
    return None


def check(ctx):
    P = ctx.P
    R = Result()
    # entry points documented as safe under concurrent rendering, and what the stored value must depend on
    ENTRY = {"splat_pixel": ("add", {"OLD", "PARAM2"}), "update_pixel": ("update", {"OLD", "PARAM2"}),
             "accum": ("accumulate", {"OLD", "PARAM0"}), "set_pixel": ("set", {"PARAM2"})}
    E = Effects(ctx)
    films = [(c, w) for c, k, w in ctx.asset_components() if P.derives(c, "lm::Film")]
    for cls, w in films:
        R.count("film_implementations")
        for name, (verb, need) in ENTRY.items():
            owner, m = P.find_method(cls, name)
            f = P.funcs.get(m["f"]) if m else None
            if f is None or not f.body:
                continue
            R.count("entry_points")
            h = Ops(P)
            it = Interp(P, h)
            fr = Frame(f, {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}, frozenset({("this",)}), cls)
            end = it.run_fn(fr, St(x=frozenset({(False, "")})))
            if name in ("splat_pixel", "set_pixel", "update_pixel"):
                lost = [w for u, w in (end.x if end is not None else ()) if not u and w in ("value", "other")]
                R.oblige(not lost, "%s/%s/skipped" % (cls, name), "%s::%s: on some path the contribution is dropped depending on %s" % (cls, name, "its value" if "value" in lost else "something else than the pixel position"), f.where(),
                         sample="%s/%s: every contribution inside the film is stored" % (cls, name))
                want = pixel_index(P, cls)
                if want is not None:
                    for fx, e in h.idx:
                        got = poly(it, fx, e)
                        if got is None:
                            continue
                        R.count("pixel_indices")
                        R.oblige(got == want, "%s/%s/index" % (cls, name), "%s::%s: the contribution for pixel (x,y) is stored at another place than y*width+x" % (cls, name), fx.fn.where(e),
                                 sample="%s/%s: stored at y*width+x" % (cls, name))
            good = 0
            for kind, fx, n, obj, val in h.ops:
                R.count("atomic_updates")
                key = "%s/%s" % (cls, name)
                if kind == "store":
                    # plain store: only right when nothing of the old value is kept
                    if name == "set_pixel":
                        good += 1
                        continue
                    if E.locked(fx.fn, n):
                        good += 1
                        continue
                    R.oblige(False, key + "/store", "%s::%s stores the pixel with a plain atomic store instead of an atomic read-modify-write: a concurrent contribution between the read and the store is lost" % (cls, name),
                             fx.fn.where(n), fx.trace(n))
                    continue
                if kind == "rmw":
                    good += 1
                    R.good("%s: atomic read-modify-write at %s" % (key, fx.fn.where(n)))
                    continue
                exp = n["c"][1]
                exp_d = exp["d"] if exp["k"] == "DeclRefExpr" else None
                lp = inside_loop(fx.fn, n)
                ok_retry = retried(fx.fn, n)
                R.oblige(ok_retry, key + "/retry", "%s::%s: the compare-exchange is not repeated until it succeeds: under contention the contribution is lost" % (cls, name), fx.fn.where(n), fx.trace(n),
                         sample="%s: compare-exchange at %s retried until success" % (key, fx.fn.where(n)))
                s = Src(P, it, f, exp_d, fx, lp)
                src = s.of(fx, val)
                if s.stale is not None:
                    R.oblige(False, key + "/stale", "%s::%s: the new pixel value is computed from a value read before the retry loop ('%s'), not from the value being compared: concurrent contributions are overwritten" % (
                        cls, name, s.stale["n"]), fx.fn.where(n), fx.trace(n))
                    continue
                missing = need - src
                R.oblige(not missing, key + "/depends", "%s::%s (%s): the stored pixel value does not depend on %s" % (
                    cls, name, verb, " and ".join("the current pixel value" if x == "OLD" else "the given contribution" for x in sorted(missing))), fx.fn.where(n), fx.trace(n),
                    sample="%s: stored value computed from %s" % (key, ", ".join(sorted(src))))
                if not missing and ok_retry:
                    good += 1
            if good == 0 and not R.viol:
                R.oblige(False, "%s/%s/none" % (cls, name), "%s::%s performs no atomic update of the pixel" % (cls, name), f.where())
        # operations on the whole film reach every pixel
        npx = pixel_count(P, cls)
        for name in ("accum", "rescale"):
            owner, m = P.find_method(cls, name)
            f = P.funcs.get(m["f"]) if m else None
            if f is None or not f.body or npx is None:
                continue
            it = Interp(P, None)
            fr = Frame(f, {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}, frozenset({("this",)}), cls)
            for n in f.walk():
                got = None
                if n["k"] == "ForStmt" and n["c"][2] is not None and n["c"][2]["k"] == "BinOp" and not inside_loop(f, n) and not any(x["k"] in ("ForStmt", "CXXForRangeStmt") for x in walk(n["c"][4])):
                    c = n["c"][2]
                    got = poly(it, fr, c["c"][1]) if c["op"] in ("<", "!=") else None
                    if c["op"] == "<=":
                        got = poly(it, fr, c["c"][1])
                        got = plus(got, {(): 1}) if got is not None else None
                    v = kids(n["c"][0])[0] if n["c"][0] is not None and n["c"][0]["k"] == "DeclStmt" else None
                    lo = poly(it, fr, (v.get("c") or [None])[0]) if v else {}
                    if got is not None and lo:
                        got = plus(got, lo, -1)
                elif n["k"] in ("Call", "MCall") and (n.get("fn") or n.get("mname", "")).endswith("foreach") and len(P.call_args(n)) >= 2:
                    got = poly(it, fr, P.call_args(n)[0])
                if got is None:
                    continue
                R.count("whole_film_loops")
                R.oblige(got == npx, "%s/%s/all" % (cls, name), "%s::%s does not go over exactly all pixels of the film" % (cls, name), f.where(n), sample="%s::%s covers every pixel" % (cls, name))
    # convenience operations of the interface pass every contribution on
    for f in P.by_cls.get("lm::Film", ()):
        if not f.body or f.is_lambda or f.name not in ("splat", "inc_ave"):
            continue
        h = Fwd(P)
        it = Interp(P, h)
        env = {p["d"]: frozenset({(("v", "arg%d" % i, 0),)}) for i, p in enumerate(f.params)}
        end = it.run_fn(Frame(f, env, frozenset({("this",)}), "lm::Film"), St(x=frozenset({"none"})))
        R.count("forwarding_operations")
        key = "lm::Film/%s/%d" % (f.name, len(f.params))
        R.oblige(end is not None and end.x == frozenset({"done"}), key, "lm::Film::%s: there is a path on which the contribution is not passed on exactly once" % f.name, f.where(),
                 sample="lm::Film::%s passes every contribution on" % f.name)
        for fx, n in h.calls:
            a = n["c"][1:]
            s = Src(P, it, f, None, None, None)
            want = {"PARAM%d" % (len(f.params) - 1)} | ({"PARAM%d" % (len(f.params) - 2)} if f.name == "inc_ave" else set())
            got = s.of(fx, a[2]) if len(a) > 2 else set()
            R.oblige(want <= got, key + "/depends", "lm::Film::%s: what is stored does not depend on every part of the contribution" % f.name, fx.fn.where(n))
            if n.get("mname") == "update_pixel" and len(a) > 2:
                for g in lambdas_in(P, fx.fn, a[2]):
                    cur = g.params[0]["d"] if g.params else None
                    ok = any(x["k"] == "DeclRefExpr" and x.get("d") == cur for x in g.walk())
                    R.oblige(ok, key + "/current", "lm::Film::%s: the updated value does not depend on the current pixel value" % f.name, g.where())
    R.floor("film_implementations", 1)
    R.floor("entry_points", 4)
    # contributions made inside parallel render loops must use the accumulating entry points:
    # reading a pixel and setting it back is not atomic
    from .s06 import regions, python_glue
    for kind, f, n, body in regions(ctx):
        if P.outer(body).cls and P.derives(P.outer(body).cls, "lm::Film"):
            continue
        tree = P.reachable([body.key], stop=lambda g: python_glue(P, g) or (g.cls and P.derives(g.cls, "lm::Film")))
        for k in tree:
            g = P.funcs[k]
            for x in g.walk():
                if x["k"] == "MCall" and x.get("virt") and x.get("cls") == "lm::Film":
                    R.count("film_calls_in_parallel_loops")
                    mn = x.get("mname")
                    R.oblige(mn in ("splat_pixel", "update_pixel", "set_pixel", "splat", "increment_ave", "size", "num_pixels", "aspect", "raster_to_pixel", "accum") or x.get("mconst", False),
                             "loop/%s/%s" % (P.outer(g).qn, mn), "%s calls the film's %s() from inside a parallel loop; it is not safe under concurrent rendering" % (g.label(), mn), g.where(x), P.chain(tree, k))
                    if mn == "set_pixel":
                        # value must not be derived from a read of the same film
                        vals = x["c"][1:]
                        rd = [y for v in vals for y in walk(v) if y["k"] == "MCall" and y.get("cls") == "lm::Film" and y.get("mname") in ("buffer",)]
                        R.oblige(not rd, "loop/%s/rmw" % P.outer(g).qn, "%s reads and sets a film pixel non-atomically inside a parallel loop" % g.label(), g.where(x))
    R.floor("film_calls_in_parallel_loops", 5)
    return R
