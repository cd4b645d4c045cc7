"""Interprocedural write-effect summaries.

For every function: the set of locations, outside its own activation, that it (or anything it may
call, class-hierarchy analysis for virtual calls, lambdas count as called) may write without
synchronisation.  Locations are access paths whose root is one of
  ('P', fn, i)        reference/pointer parameter i of fn
  'this'              the object
  ('g', name)         global / static
  ('v', decl, owner)  variable of a lexically enclosing function (by-reference capture)
  ('?', ...)          memory reached through an untracked pointer
Writes to locals, thread_locals and atomics, and writes made while a scoped lock is held, are no effects.
"""
from .prog import kids, walk
from .interp import Interp, Frame, add

ATOMIC = ("std::atomic", "std::__atomic", "atomic_")
SYNC = ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::unique_lock", "std::lock_guard", "std::scoped_lock",
        "std::condition_variable", "std::shared_lock", "std::once_flag")
LOCKS = ("std::unique_lock", "std::lock_guard", "std::scoped_lock")
BENIGN_M = {"begin", "end", "data", "at", "front", "back", "find", "get", "cbegin", "cend", "rbegin", "rend", "c_str", "size", "empty", "lower_bound",
            "upper_bound", "top", "str", "operator*", "operator->", "value", "operator bool", "key", "count"}
BENIGN_F = {"std::move", "std::forward", "std::get", "std::get_if", "std::addressof", "std::ref", "std::cref", "std::as_const", "std::begin", "std::end",
            "std::data", "std::min", "std::max", "std::tie", "std::forward_as_tuple", "std::any_cast", "std::visit", "std::invoke"}
MUT_ALGO = {"std::sort", "std::stable_sort", "std::partial_sort", "std::nth_element", "std::fill", "std::fill_n", "std::iota", "std::generate", "std::reverse",
            "std::rotate", "std::partition", "std::stable_partition", "std::shuffle", "std::unique", "std::remove", "std::remove_if", "std::swap_ranges", "std::replace"}
NONREENTRANT = {"rand", "srand", "strtok", "localtime", "gmtime", "asctime", "ctime", "setlocale", "putenv", "setenv", "std::rand", "std::srand", "drand48", "lrand48"}
STDOUT = {"std::cout", "std::cerr", "std::clog"}
ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "++", "--"}


class Eff:
    __slots__ = ("path", "what", "fn", "node", "via")

    def __init__(self, path, what, fn, node, via=()):
        self.path, self.what, self.fn, self.node, self.via = path, what, fn, node, via

    def key(self):
        return (self.path, self.fn.key, self.node["id"])


class Effects:
    MAXPATH = 6

    def __init__(self, ctx, skip=lambda f: False):
        self.ctx, self.P = ctx, ctx.P
        self.skip = skip
        self.it = Interp(self.P, None)
        self.frames = {}
        self.sum = {}
        self.calls = {}
        self.local = {}

    # ------------------------------------------------------------ frames
    def frame(self, f):
        if f.key not in self.frames:
            env = {p["d"]: frozenset({(("P", f.key, i),)}) for i, p in enumerate(f.params)}
            lex = None
            if f.is_lambda:
                par = self.P.lambda_parent(f)
                if par is not None and par is not f:
                    lex = self.frame(par)
            fr = Frame(f, env, frozenset({("this",)}) if not f.is_lambda else None, f.cls if not f.is_lambda else None, lex=lex)
            fr.id = f.key
            self.frames[f.key] = fr
        return self.frames[f.key]

    def locked(self, f, n):
        """a scoped lock is alive at n (declared earlier in an enclosing block of the same function), or omp critical"""
        x = n
        for p in f.ancestors(n):
            if p["k"] == "OMP" and "Critical" in p.get("dir", ""):
                return True
            if p["k"] == "CompoundStmt":
                for s in kids(p):
                    if s["id"] >= x["id"]:
                        break
                    if s["k"] == "DeclStmt":
                        for v in kids(s):
                            if self.P.tstr(v.get("t", -1)).startswith(LOCKS) and not self.released(f, v, n) and self.shared_mutex(f, v, n):
                                return True
            x = p
        return False

    def shared_mutex(self, f, v, n):
        """the mutex locked by v is one object for all threads reaching n (not a local of the concurrent code)"""
        init = (v.get("c") or [None])[0]
        ms = [y for y in walk(init or {"k": ""}) if y["k"] in ("DeclRefExpr", "MemberExpr") and "mutex" in self.P.tstr(self.P.strip_ref(y.get("t", -1)))]
        for y in ms:
            if y["k"] == "DeclRefExpr" and y.get("dk") == "tls":
                return False
            if y["k"] == "DeclRefExpr" and y.get("d") in f.vars and not f.vars[y["d"]].get("st"):
                decl = f.vars[y["d"]]
                omp = [p for p in f.ancestors(n) if p["k"] == "OMP"]
                if not omp or any(z is decl or z.get("d") == y["d"] and z["k"] == "Var" for z in walk(omp[-1])):
                    if self.P.ty(decl.get("t", -1))["k"] not in ("ref", "ptr"):
                        return False
        return True

    def released(self, f, v, n):
        """explicit unlock() between the lock's declaration and n (textually), without a later lock()"""
        st = False
        for m in f.walk():
            if m["k"] == "MCall" and m.get("mname") in ("unlock", "lock", "release") and m["c"][0]["k"] == "DeclRefExpr" and m["c"][0].get("d") == v["d"] and m["id"] < n["id"]:
                st = m["mname"] != "lock"
        # deferred locks are not held
        init = (v.get("c") or [None])[0]
        if init is not None and any(x["k"] == "DeclRefExpr" and x.get("n") in ("defer_lock", "try_to_lock") for x in walk(init)):
            return True
        return st

    def main_thread_only(self, f, n):
        """n sits in a branch taken only on OpenMP thread 0 / the main thread"""
        x = n
        for p in f.ancestors(n):
            if p["k"] == "IfStmt" and len(p["c"]) > 3 and p["c"][3] is not None and any(y is x for y in [p["c"][3]]):
                c = p["c"][2]
                if self.is_thread0(f, c):
                    return True
            x = p
        return False

    def is_thread0(self, f, c):
        if c["k"] == "BinOp" and c["op"] == "&&":
            return any(self.is_thread0(f, x) for x in kids(c))
        if c["k"] == "MCall" and c.get("mname") == "main_thread" or c["k"] == "Call" and c.get("fn") == "lm::parallel::main_thread":
            return True
        if c["k"] == "DeclRefExpr" and c.get("dk") == "local" and c["d"] in f.vars and c["d"] not in f.assigned_vars():
            i = (f.vars[c["d"]].get("c") or [None])[0]
            return i is not None and self.is_thread0(f, i)
        if c["k"] == "BinOp" and c["op"] == "==":
            a, b = c["c"]
            if a["k"] == "Int":
                a, b = b, a
            if b["k"] == "Int" and b["v"] == "0":
                return self.is_threadnum(f, a)
        return False

    def is_threadnum(self, f, a):
        if a["k"] == "Call" and a.get("fn") == "omp_get_thread_num":
            return True
        if a["k"] == "DeclRefExpr" and a.get("dk") == "local" and a["d"] in f.vars and a["d"] not in f.assigned_vars():
            i = (f.vars[a["d"]].get("c") or [None])[0]
            return i is not None and self.is_threadnum(f, i)
        return False

    # ------------------------------------------------------------ local effects
    def own(self, f, p):
        """path is private to f's activation"""
        r = p[0]
        if r == "this":
            return False
        if r[0] == "v":
            if r[2] != f.key:
                return False
            return not self.escapes(f, r[1], p)
        if r[0] == "tls":
            return True
        if r[0] == "P" and r[1] == f.key:
            t = self.P.ty(f.params[r[2]]["t"])
            if t["k"] in ("ref", "rref"):
                return False
            if t["k"] == "ptr":
                return "*" not in p[1:] and "[]" not in p[1:]
            return "*" not in p[1:] or "unique_ptr" in t["s"] or "shared_ptr" in t["s"] or "optional" in t["s"]
        return False

    def escapes(self, f, d, p):
        """deref of a raw-pointer local: memory of unknown owner"""
        v = f.vars.get(d)
        if v is None:
            return False
        t = self.P.ty(v.get("t", -1))
        if t["k"] == "ptr" and ("*" in p[1:] or "[]" in p[1:]):
            return True
        if t["k"] in ("ref", "rref") and v.get("k") == "Var":
            # reference bound to something unresolved (call result)
            return True
        return False

    def nonconst_target(self, t):
        x = self.P.ty(t)
        return x["k"] in ("ref", "ptr") and not self.P.ty(x["to"]).get("const") and self.P.ty(x["to"])["k"] != "func"

    def is_atomic(self, t):
        s = self.P.tstr(self.P.strip_ref(t))
        s = s.replace("const ", "").replace("volatile ", "")
        return s.startswith(ATOMIC)

    def is_sync(self, t):
        s = self.P.tstr(self.P.strip_ref(t)).replace("const ", "")
        return s.startswith(SYNC) or s.startswith(ATOMIC)

    def targets_written(self, f, n):
        """[(lvalue expression, description)] written directly by node n"""
        k = n["k"]
        c = n.get("c", [])
        if (k == "BinOp" and n["op"] == "=") or k == "CAssign" or (k == "UnOp" and n["op"] in ("++", "--")):
            return [(c[0], "assignment")]
        if k == "OpCall":
            op = n.get("op")
            if n.get("f") in self.P.funcs:
                return []
            if op in ASSIGN and c:
                return [(c[0], "operator" + op)]
            if op == "[]" and n.get("cls", "").startswith(("std::unordered_map", "std::map")) and not n.get("mconst"):
                return [(c[0], "operator[] of an associative container")]
            if op in ("<<", ">>") and c and self.P.tstr(self.P.strip_ref(c[0].get("t", -1))).startswith("std::basic_"):
                return [(c[0], "stream output")] + ([(c[1], "stream input")] if op == ">>" else [])
            if op == "()" and c:
                # std::function call: non-const reference arguments may be written
                ft = self.P.tstr(self.P.strip_ref(c[0].get("t", -1)))
                out = []
                if "std::function<" in ft:
                    sig = ft[ft.index("(") + 1:ft.rindex(")")] if "(" in ft else ""
                    parts = [s.strip() for s in split_args(sig)]
                    for a, s in zip(c[1:], parts):
                        if s.endswith("&") and not s.startswith("const ") and not s.endswith("&&"):
                            out.append((a, "argument of a callback"))
                return out
            return []
        if k == "MCall":
            if n.get("f") in self.P.funcs or n.get("mconst") or n.get("mstatic"):
                return []
            if n.get("virt") and any(t in self.P.funcs for t in self.P.targets(n)):
                return []
            cls = n.get("cls", "")
            if cls.startswith("lm::"):
                return []
            if n.get("mname") in BENIGN_M or n.get("mname", "").startswith("operator"):
                return []
            return [(c[0], "%s()" % n.get("mname"))]
        if k == "Call":
            fn = n.get("fn", "")
            if n.get("f") in self.P.funcs or fn in BENIGN_F or fn.startswith(("fmt::", "lm::", "glm::value_ptr")):
                return []
            out = []
            for a, t in zip(c[1:], n.get("pt", [])):
                if a is not None and self.nonconst_target(t):
                    out.append((a, fn, True) if self.P.ty(t)["k"] == "ptr" else (a, fn))
                elif a is not None and fn in MUT_ALGO:
                    out.append((a, fn))
            return out
        return []

    def local_effects(self, f):
        if f.key in self.local:
            return self.local[f.key]
        out, calls = [], []
        fr = self.frame(f)
        for n in f.walk():
            k = n["k"]
            if k not in ("BinOp", "CAssign", "UnOp", "OpCall", "MCall", "Call", "Construct", "Lambda"):
                continue
            tw = self.targets_written(f, n)
            if tw:
                lk = None
                for t in tw:
                    e, what = t[0], t[1]
                    if self.is_sync(e.get("t", -1)):
                        continue
                    ps = self.lvalue(f, fr, e)
                    if len(t) > 2:      # pointer argument: pointee written
                        ps = frozenset(add(p, "*") for p in ps)
                    if k == "MCall" and n.get("arrow") and e["k"] not in ("CXXThisExpr", "OpCall"):
                        ps = frozenset(add(p, "*") for p in ps)
                    for p in ps:
                        if self.own(f, p):
                            continue
                        if p[0] != "this" and p[0][0] == "g" and p[0][1] in STDOUT:
                            continue
                        if p[0] != "this" and p[0][0] == "?":
                            # temporaries (by-value results) are private
                            if self.is_value_temp(e):
                                continue
                        if lk is None:
                            lk = self.locked(f, n) or self.main_thread_only(f, n)
                        if lk:
                            continue
                        out.append(Eff(p[:self.MAXPATH], what, f, n))
            if k == "Call" and n.get("fn") in NONREENTRANT:
                out.append(Eff((("g", n["fn"]),), "call of the non-reentrant function " + n["fn"], f, n))
            if k in ("OpCall", "MCall", "Call", "Construct"):
                tg = [t for t in self.P.targets(n) if t in self.P.funcs]
                if tg:
                    calls.append((n, tg))
            elif k == "Lambda":
                calls.append((n, [t for t in [n["f"]] + n.get("specs", []) if t in self.P.funcs]))
        self.local[f.key] = (out, calls)
        return self.local[f.key]

    def lvalue(self, f, fr, e):
        """location an lvalue expression denotes; for a pointer/iterator variable the variable itself"""
        if e["k"] == "DeclRefExpr" and e.get("dk") in ("local", "param"):
            g, how = fr.lookup(e.get("d"))
            t = None
            if how == "var":
                t = self.P.ty(g.fn.vars[e["d"]].get("t", -1))
            elif how in ("env", "param"):
                t = next((self.P.ty(p["t"]) for p in g.fn.params if p["d"] == e["d"]), None)
            if t is not None and t["k"] not in ("ref", "rref") and (t["k"] == "ptr" or "iterator" in t["s"]):
                return frozenset({(("v", e["d"], g.fn.key),)}) if how == "var" else frozenset({(("v", "#" + e["d"], g.fn.key),)})
        return self.it.resolve(fr, e)

    def is_value_temp(self, e):
        t = self.P.ty(e.get("t", -1))
        return e["k"] in ("Construct", "InitList") or (e["k"] in ("Call", "MCall", "OpCall") and t["k"] not in ("ptr",) and not e.get("lv"))

    # ------------------------------------------------------------ summaries
    def summary(self, roots):
        """effects (own activation excluded) of every function reachable from roots; fixpoint"""
        tree = self.P.reachable(roots, stop=self.skip)
        todo = [self.P.funcs[k] for k in tree if not self.skip(self.P.funcs[k])]
        res = {f.key: {} for f in todo}
        callers = {}
        for f in todo:
            le, calls = self.local_effects(f)
            for e in le:
                res[f.key].setdefault((e.path), e)
            for n, tg in calls:
                for t in tg:
                    if t in res:
                        callers.setdefault(t, []).append((f, n))
        work = [f.key for f in todo]
        inq = set(work)
        while work:
            g = work.pop()
            inq.discard(g)
            for f, n in callers.get(g, ()):
                ch = False
                for path, e in list(res[g].items()):
                    for p2 in self.map(f, n, self.P.funcs[g], path):
                        p2 = p2[:self.MAXPATH]
                        if p2 not in res[f.key]:
                            res[f.key][p2] = Eff(p2, e.what, e.fn, e.node, ((f.key, n["id"], n["l"]),) + tuple(e.via)[:14])
                            ch = True
                if ch and f.key not in inq:
                    work.append(f.key)
                    inq.add(f.key)
        self.tree = tree
        return res

    def map(self, f, n, g, path):
        """callee location -> caller locations that are not private to f"""
        r, rest = path[0], path[1:]
        fr = self.frame(f)
        if n["k"] == "Lambda":
            # created here, assumed called here
            if r == "this" or (r[0] == "v") or (r[0] == "P" and r[1] != g.key):
                base = frozenset({(r,)}) if r != "this" else self.it.this_of(fr)
            elif r[0] == "P":
                return []       # parameters of a callback: accounted for at the invocation
            else:
                base = frozenset({(r,)})
        elif r == "this":
            if g.is_lambda:
                base = self.it.this_of(fr)
            elif n["k"] == "Construct":
                return []
            else:
                o = self.P.call_obj(n)
                if o is None:
                    return []
                if self.is_sync(o.get("t", -1)):
                    return []
                base = self.it.resolve(fr, o)
                if n.get("arrow") and o["k"] not in ("CXXThisExpr", "OpCall"):
                    base = frozenset(add(b, "*") for b in base)
                if not base:
                    base = frozenset({(("?", n["id"], f.key),)}) if n.get("arrow") else frozenset()
                base = frozenset(b for b in base if not (b[0] != "this" and b[0][0] == "?" and self.is_value_temp(o)))
        elif r[0] == "P" and r[1] == g.key:
            args = self.P.call_args(n)
            i = r[2]
            if i >= len(args) or args[i] is None or args[i]["k"] == "DefaultArg":
                return []
            base = self.it.resolve(fr, args[i])
            base = frozenset(b for b in base if not (b[0] != "this" and b[0][0] == "?" and self.is_value_temp(args[i])))
        else:
            base = frozenset({(r,)})
        out = []
        lk = None
        for b in base:
            p = b
            for e in rest:
                p = add(p, e)
            if self.own(f, p):
                continue
            if lk is None:
                lk = self.locked(f, n) or self.main_thread_only(f, n)
            if lk:
                return []
            out.append(p)
        return out


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            depth += 1
        if ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return out
