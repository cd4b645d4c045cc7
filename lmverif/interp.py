"""Structural abstract interpreter.

Walks a function in execution order, inlining helpers (resolved callees with bodies), and
computes which *facts* (tuples whose 2nd element is an access path) hold on every normally
completing path.  No value of the program is executed or enumerated: the only state is the set
of facts generated so far, the set of access paths known to be null/absent, and (optionally) a
client state.

Access paths: tuples  (root, elem, elem, ...)
  root  'this' | ('v', decl, frame) | ('g', name) | ('tls', decl) | ('?', id)
  elem  field name | '[]' (some element) | '*' (pointee) | '&' (address of)
"""
from .prog import kids, walk

MAXDEPTH = 9

ELEM_PTR = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "data", "lower_bound", "upper_bound", "insert", "emplace"}
ELEM_REF = {"at", "front", "back", "operator[]", "top", "emplace_back"}
IDENT = {"get", "value_or"}


def add(path, e):
    if e == "*" and path and path[-1] == "&":
        return path[:-1]
    if len(path) > 14:
        return path
    return path + (e,)


def starts(path, pre):
    return path[:len(pre)] == pre


class Frame:
    _n = 0

    def __init__(self, fn, env=None, this=None, dyn=None, up=None, lex=None, call=None, depth=0):
        Frame._n += 1
        self.id = (call["id"] if call else 0, fn.key, up.id if up else None) if up is None or depth < 40 else Frame._n
        self.fn = fn
        self.env = env or {}
        self.this = this or frozenset()
        self.dyn = dyn
        self.up = up
        self.lex = lex
        self.call = call
        self.depth = depth
        self.returns = []
        self.ret_exprs = []

    def lookup(self, d):
        f = self
        while f is not None:
            if d in f.env:
                return f, "env"
            if d in f.fn.vars:
                return f, "var"
            if any(p["d"] == d for p in f.fn.params):
                return f, "param"
            f = f.lex
        return self, None

    def stack(self):
        out, f = [], self
        while f is not None:
            out.append(f)
            f = f.up
        return out

    def trace(self, node=None):
        out = []
        f, n = self, node
        while f is not None:
            out.append("%s (%s)" % (f.fn.label(), f.fn.where(n)))
            n, f = f.call, f.up
        return list(reversed(out))


class St:
    __slots__ = ("facts", "nulls", "x")

    def __init__(self, facts=frozenset(), nulls=frozenset(), x=None):
        self.facts, self.nulls, self.x = facts, nulls, x

    def with_facts(self, fs):
        fs = frozenset(fs)
        return self if not fs or fs <= self.facts else St(self.facts | fs, self.nulls, self.x)

    def with_null(self, ps):
        ps = frozenset(ps)
        return self if not ps or ps <= self.nulls else St(self.facts, self.nulls | ps, self.x)

    def with_x(self, x):
        return St(self.facts, self.nulls, x)


class Interp:
    def __init__(self, prog, handler=None):
        self.p = prog
        self.h = handler
        self.visited_fns = set()
        self._ret_guard = set()
        self.elem1 = "[]"        # element selected by front()/back()/constant index
        self.refix = False       # run loop bodies again with the state an iteration leaves behind
        self.loopstack = []      # containers the enclosing loops walk over completely

    # ------------------------------------------------------------ merge
    def merge(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a is b:
            return a
        def cov(f, s):
            return f in s.facts or (len(f) > 1 and isinstance(f[1], tuple) and any(starts(f[1], n) for n in s.nulls))
        facts = frozenset(f for f in (a.facts | b.facts) if cov(f, a) and cov(f, b))
        x = a.x
        if self.h is not None and hasattr(self.h, "merge_x"):
            x = self.h.merge_x(a.x, b.x)
        return St(facts, a.nulls & b.nulls, x)

    def mergeall(self, xs):
        r = None
        for s in xs:
            r = self.merge(r, s)
        return r

    # ------------------------------------------------------------ paths
    def resolve(self, fr, n, depth=0):
        if not n or depth > 25:
            return frozenset()
        k = n["k"]
        R = lambda m: self.resolve(fr, m, depth + 1)
        c = n.get("c", [])
        if k == "DeclRefExpr":
            return self.resolve_decl(fr, n, depth)
        if k == "CXXThisExpr":
            # value of 'this' = address of object; we keep the object's path (arrow is transparent)
            return self.this_of(fr)
        if k == "MemberExpr":
            if n.get("dk") == "global":
                return frozenset({(("g", n.get("qn", n["n"])),)})
            if n.get("dk") != "field":
                return R(c[0]) if c else frozenset()
            base = R(c[0]) if c else frozenset()
            if n.get("arrow") and c and c[0]["k"] != "CXXThisExpr" and c[0]["k"] != "OpCall":
                base = frozenset(add(b, "*") for b in base)
            return frozenset(add(b, n["n"]) for b in base)
        if k == "MCall":
            m = n.get("mname", "")
            o = c[0] if c else None
            cls = n.get("cls", "")
            if not cls.startswith(("lm::",)) or cls.startswith("lm::Component::Ptr"):
                b = R(o)
                if n.get("arrow") and o and o["k"] not in ("CXXThisExpr", "OpCall"):
                    b = frozenset(add(x, "*") for x in b)
                if cls.startswith(("std::unique_ptr", "std::shared_ptr", "std::optional", "std::__shared_ptr")):
                    if m in ("get", "release"):
                        return b
                    if m == "value":
                        return frozenset(add(x, "*") for x in b)
                    if m == "value_or":
                        return frozenset()
                if cls.startswith("std::atomic") or "atomic" in cls:
                    return b
                if m in ELEM_PTR:
                    return frozenset(add(add(x, "[]"), "&") for x in b)
                if m in ELEM_REF:
                    e = self.elem1 if m in ("front", "back", "top") or (len(c) > 1 and self.const_index(c[1])) else "[]"
                    return frozenset(add(x, e) for x in b)
                if m.startswith("operator") and "[" in m:
                    return frozenset(add(x, "[]") for x in b)
                return frozenset({(("?", n["id"], fr.id),)})
            return self.resolve_call(fr, n, depth)
        if k == "OpCall":
            op = n.get("op")
            b = None
            if op in ("*", "->") and len(c) == 1:
                return frozenset(add(x, "*") for x in R(c[0]))
            if op == "[]":
                e = self.elem1 if len(c) > 1 and self.const_index(c[1]) else "[]"
                return frozenset(add(x, e) for x in R(c[0]))
            if op in ("=", "+=", "-=", "*=", "/=", "++", "--"):
                return R(c[0])
            if op == "()":
                return self.resolve_call(fr, n, depth)
            if op in ("+", "-") and c:
                t = self.p.tstr(n.get("t", -1))
                if "iterator" in t:
                    return R(c[0])
            return frozenset({(("?", n["id"], fr.id),)})
        if k == "ArraySubscriptExpr":
            e = self.elem1 if len(c) > 1 and self.const_index(c[1]) else "[]"
            return frozenset(add(x, e) for x in (R(c[0])))
        if k == "UnOp":
            if n["op"] == "*":
                return frozenset(add(x, "*") for x in R(c[0]))
            if n["op"] == "&":
                return frozenset(add(x, "&") for x in R(c[0]))
            if n["op"] in ("++", "--"):
                return R(c[0])
            return frozenset()
        if k in ("BinOp", "CAssign"):
            if n["op"] == ",":
                return R(c[1])
            if n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                return R(c[0])
            if n["op"] in ("+", "-") and self.p.ty(n.get("t", -1))["k"] == "ptr":
                return R(c[0]) | R(c[1])
            return frozenset()
        if k == "Cast":
            return R(c[0]) if c else frozenset()
        if k == "ConditionalOperator":
            return R(c[1]) | R(c[2])
        if k == "BinaryConditionalOperator":
            out = frozenset()
            for x in c:
                out |= R(x)
            return out
        if k in ("Call",):
            fn = n.get("fn", "")
            if fn in ("std::move", "std::forward", "std::as_const", "std::addressof", "std::ref", "std::cref") and len(c) > 1:
                b = R(c[1])
                return frozenset(add(x, "&") for x in b) if fn == "std::addressof" else b
            if fn in ("std::get", "std::get_if") and len(c) > 1:
                return frozenset(add(x, "[]") for x in R(c[1]))
            if fn in ("std::begin", "std::end", "std::data") and len(c) > 1:
                return frozenset(add(add(x, "[]"), "&") for x in R(c[1]))
            return self.resolve_call(fr, n, depth)
        if k == "Construct":
            if n.get("cm") and c:
                return R(c[0])
            if len(c) >= 1 and self.p.tstr(n.get("t", -1)).startswith(("std::reference_wrapper", "const std::reference_wrapper")):
                return R(c[0])
            return frozenset({(("?", n["id"], fr.id),)})
        if k == "InitList" and len(kids(n)) == 1:
            return R(kids(n)[0])
        if k == "New":
            return frozenset({(("?", n["id"], fr.id),)})
        if k == "CXXDynamicCastExpr":
            return R(c[0])
        return frozenset()

    @staticmethod
    def const_index(n):
        while n is not None and n["k"] in ("Cast", "Construct", "InitList") and len(kids(n)) == 1:
            n = kids(n)[0]
        return n is not None and n["k"] in ("Int", "Char")

    def each_elem(self, path):
        """path selects its elements through loops that walk over the whole container"""
        for i, e in enumerate(path):
            if e == "[1]":
                return False
            if e == "[]" and not any(path[:i] in c for c in self.loopstack):
                return False
        return True

    def this_of(self, fr):
        f = fr
        while f is not None:
            if f.this:
                return f.this
            f = f.lex
        return frozenset()

    def dyn_of(self, fr):
        f = fr
        while f is not None:
            if f.dyn:
                return f.dyn
            f = f.lex
        return None

    def resolve_decl(self, fr, n, depth):
        dk = n.get("dk")
        d = n.get("d")
        if dk in ("global", "static_local"):
            return frozenset({(("g", n.get("qn") or d),)})
        if dk == "tls":
            # a reference-typed thread_local would still be per thread
            return frozenset({(("tls", d),)})
        if dk in ("func", "enum"):
            return frozenset()
        f, how = fr.lookup(d)
        if how == "env":
            return f.env[d]
        if how == "var":
            v = f.fn.vars[d]
            if v["k"] == "Bind":
                e = v.get("e")
                if e:
                    r = self.resolve(f, e, depth + 1)
                    if r:
                        return r
                src = v["of"]
                init = (src.get("c") or [None])[0]
                if self.p.ty(src["t"])["k"] in ("ref", "rref"):
                    return frozenset(add(x, "[]") for x in self.resolve(f, init, depth + 1))
                return frozenset({(("v", d, f.id),)})
            t = self.p.ty(v["t"])
            init = (v.get("c") or [None])[0]
            if v.get("tls"):
                return frozenset({(("tls", d),)})
            if v.get("st"):
                return frozenset({(("g", d),)})
            if init is not None:
                if t["k"] in ("ref", "rref") or v.get("initcap"):
                    r = self.resolve(f, init, depth + 1)
                    if r:
                        return r
                elif t["k"] == "ptr" or "iterator" in t["s"] or "reference_wrapper" in t["s"]:
                    if not self.reassigned(f.fn, d):
                        r = self.resolve(f, init, depth + 1)
                        if r:
                            return r
            return frozenset({(("v", d, f.id),)})
        return frozenset({(("v", d, f.id),)})

    def reassigned(self, fn, d):
        for n in fn.walk():
            t = None
            if (n["k"] == "BinOp" and n["op"] == "=") or n["k"] == "CAssign" and n["op"] not in ("+=", "-="):
                t = n["c"][0]
            elif n["k"] == "OpCall" and n.get("op") == "=":
                t = n["c"][0]
            if t and t.get("k") == "DeclRefExpr" and t.get("d") == d:
                return True
        return False

    def resolve_call(self, fr, n, depth):
        """Paths a reference/pointer returning helper may return."""
        unk = frozenset({(("?", n["id"], fr.id),)})
        tg = self.targets(fr, n)
        if len(tg) != 1 or tg[0] not in self.p.funcs or fr.depth + depth > 12:
            return unk
        f = self.p.funcs[tg[0]]
        g = (f.key, fr.id)
        if g in self._ret_guard or not f.body:
            return unk
        t = self.p.ty(f.get("ret", -1))
        if t["k"] not in ("ref", "ptr", "rref") and "iterator" not in t["s"] and "unique_ptr" not in t["s"]:
            return unk
        self._ret_guard.add(g)
        try:
            nf = self.enter(fr, n, f, depth)
            out = frozenset()
            for m in f.walk():
                if m["k"] == "ReturnStmt" and kids(m):
                    out |= self.resolve(nf, kids(m)[0], depth + 1)
            out = frozenset(x for x in out if x[0] == "this" or not (isinstance(x[0], tuple) and x[0][0] == "v" and x[0][2] == nf.id)) or unk
            return out
        finally:
            self._ret_guard.discard(g)

    # ------------------------------------------------------------ calls
    def targets(self, fr, n):
        k = n["k"]
        if n.get("virt") and n.get("f"):
            o = n["c"][0] if n.get("c") else None
            if o is not None and o["k"] == "CXXThisExpr":
                d = self.dyn_of(fr)
                if d:
                    return [self.p.dispatch(n["f"], d)]
            return self.p.targets(n)
        return self.p.targets(n)

    def enter(self, fr, n, f, depth=0):
        """Frame for the callee f of call node n."""
        args = self.p.call_args(n)
        env = {}
        for p, a in zip(f.params, args):
            if a is None:
                continue
            t = self.p.ty(p["t"])
            if a["k"] == "DefaultArg":
                continue
            if t["k"] in ("ref", "rref", "ptr") or "iterator" in t["s"]:
                r = self.resolve(fr, a, depth + 1)
                if r:
                    env[p["d"]] = r
        this, dyn, lex = None, None, None
        if f.is_lambda:
            par = f.get("parent")
            g = fr
            while g is not None and g.fn.key != par:
                g = g.up
            # creation frame may also be lexical ancestors of the caller
            if g is None:
                for s in fr.stack():
                    h = s
                    while h is not None and h.fn.key != par:
                        h = h.lex
                    if h is not None:
                        g = h
                        break
            lex = g
        elif f.cls and not f.get("static"):
            if n["k"] == "Construct":
                this = frozenset({(("?", n["id"], fr.id),)})
                dyn = f.cls
            else:
                o = self.p.call_obj(n)
                if o is not None:
                    this = self.resolve(fr, o, depth + 1)
                    if n.get("arrow") and o["k"] not in ("CXXThisExpr", "OpCall"):
                        this = frozenset(add(x, "*") for x in this)
                    if o["k"] == "CXXThisExpr":
                        dyn = self.dyn_of(fr)
                    else:
                        dyn = f.cls
        return Frame(f, env, this, dyn, up=fr, lex=lex, call=n, depth=fr.depth + 1)

    def run_fn(self, fr, st):
        """Execute the function of frame fr from st; returns merged normal-exit state."""
        f = fr.fn
        self.visited_fns.add(f.key)
        if f.get("ctor"):
            for i in f.get("inits", []):
                if i.get("e"):
                    st = self.expr(fr, i["e"], st)
                    if st is None:
                        return None
                if self.h is not None and hasattr(self.h, "on_init"):
                    st = self.h.on_init(self, fr, i, st)
        loops = []
        s = self.stmt(fr, f.body, st, loops) if f.body else st
        outs = list(fr.returns)
        if s is not None:
            outs.append(s)
        return self.mergeall(outs)

    def call(self, fr, n, st):
        """Effect of call node n after its operands were evaluated."""
        if self.h is not None:
            r = self.h.on_node(self, fr, n, st)
            if r is not None:
                st, handled = r
                if handled or st is None:
                    return st
        if n["k"] == "Call" and n.get("fn") in ("std::for_each", "std::ranges::for_each"):
            return self.for_each(fr, n, st)
        if n["k"] in ("MCall", "Call", "OpCall", "Construct"):
            tg = self.targets(fr, n)
            if n.get("noreturn"):
                return None
            cand = [t for t in tg if t in self.p.funcs and self.p.funcs[t].body]
            if cand and len(cand) == len(tg) or (cand and n.get("virt") is None):
                if fr.depth < MAXDEPTH:
                    outs = []
                    stackkeys = [s.fn.key for s in fr.stack()]
                    inl = True
                    for t in cand:
                        f = self.p.funcs[t]
                        if stackkeys.count(t) >= 1 or len(cand) > 1 or (self.h is not None and hasattr(self.h, "inline") and not self.h.inline(self, fr, n, f)):
                            inl = False
                            break
                    if inl:
                        for t in cand:
                            nf = self.enter(fr, n, self.p.funcs[t])
                            outs.append(self.run_fn(nf, st))
                        res = [o for o in outs if o is not None]
                        if not res:
                            return None
                        st = self.mergeall(res)
        return st

    def for_each(self, fr, n, st):
        """std::for_each(begin, end, lambda): a loop over the whole container"""
        args = n["c"][1:]
        lam = None
        for a in args[2:]:
            for m in walk(a):
                if m["k"] == "Lambda":
                    lam = m
                elif m["k"] == "DeclRefExpr" and m.get("dk") == "local" and m["d"] in fr.fn.vars:
                    for q in walk((fr.fn.vars[m["d"]].get("c") or [None])[0] or {"k": ""}):
                        if q["k"] == "Lambda":
                            lam = q
        f = None
        for key in ([lam["f"]] + lam.get("specs", []) if lam else []):
            g = self.p.funcs.get(key)
            if g is not None and g.body:
                f = g
        if f is None or len(args) < 3 or st is None:
            return st
        names = []
        for a in args[:2]:
            names.append({m.get("mname") or m.get("fn", "") for m in walk(a) if m["k"] in ("MCall", "Call")})
        whole = any(x.rsplit("::", 1)[-1] in ("begin", "cbegin") for x in names[0]) and any(x.rsplit("::", 1)[-1] in ("end", "cend") for x in names[1])
        el = frozenset(add(x, "*") for x in self.resolve(fr, args[0]))
        cont = frozenset(x[:-1] for x in el if x and x[-1] == "[]")
        env = {f.params[0]["d"]: el} if f.params and el else {}
        nf = Frame(f, env, up=fr, lex=fr, call=n, depth=fr.depth + 1)
        self.loopstack.append(cont if whole else frozenset())
        sb = self.run_fn(nf, st)
        self.loopstack.pop()
        if sb is None:
            return st
        if not whole or not cont:
            return self.merge(st, sb)
        keep = [x for x in sb.facts - st.facts if len(x) > 1 and isinstance(x[1], tuple) and any(starts(x[1], add(p, "[]")) for p in cont)]
        return self.merge(st, sb).with_facts(keep)

    # ------------------------------------------------------------ expressions
    def expr(self, fr, n, st):
        if n is None or st is None:
            return st
        k = n["k"]
        c = n.get("c", [])
        if k == "BinOp" and n["op"] in ("&&", "||"):
            st = self.expr(fr, c[0], st)
            if st is None:
                return None
            a, b = self.assume(fr, c[0], st)
            if n["op"] == "&&":
                return self.merge(self.expr(fr, c[1], a), b) if a is not None or b is not None else None
            return self.merge(a, self.expr(fr, c[1], b))
        if k == "ConditionalOperator":
            st = self.expr(fr, c[0], st)
            if st is None:
                return None
            a, b = self.assume(fr, c[0], st)
            return self.merge(self.expr(fr, c[1], a), self.expr(fr, c[2], b))
        if k == "Lambda":
            for cap in n.get("caps", ()):
                if cap.get("init"):
                    st = self.expr(fr, cap["init"], st)
            return self.node(fr, n, st)
        if k == "Var":
            return self.vardecl(fr, n, st)
        if k in ("CXXTryStmt", "CompoundStmt", "DeclStmt", "IfStmt"):
            return self.stmt(fr, n, st, [])
        if k in ("CXXTypeidExpr", "UnaryExprOrTypeTraitExpr", "CXXNoexceptExpr"):
            return st
        order = c
        if (k == "BinOp" and n["op"] == "=") or k == "CAssign" or (k == "OpCall" and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">=")):
            order = list(reversed(c))
        for x in order:
            if x is None:
                continue
            st = self.expr(fr, x, st)
            if st is None:
                return None
        if k == "Throw":
            if self.h is not None:
                self.h.on_node(self, fr, n, st)
            return None
        return self.node(fr, n, st)

    def node(self, fr, n, st):
        return self.call(fr, n, st)

    def vardecl(self, fr, v, st):
        init = (v.get("c") or [None])[0]
        if init is not None:
            st = self.expr(fr, init, st)
        for b in v.get("bind", ()):
            pass
        if st is not None and self.h is not None and hasattr(self.h, "on_var"):
            st = self.h.on_var(self, fr, v, st)
        return st

    # ------------------------------------------------------------ conditions
    def nulltest(self, fr, cond):
        """(paths, sense): condition is equivalent to 'path is non-null/engaged' (sense True)."""
        k = cond["k"]
        c = cond.get("c", [])
        if k == "UnOp" and cond["op"] == "!":
            r = self.nulltest(fr, c[0])
            return (r[0], not r[1]) if r else None
        if k in ("BinOp", "OpCall") and cond.get("op") in ("==", "!="):
            a, b = (c + [None, None])[:2]
            isnull = lambda x: x is not None and (x["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or (x["k"] == "Cast" and x.get("c") and x["c"][0]["k"] in ("CXXNullPtrLiteralExpr",)) or (x["k"] == "DeclRefExpr" and x.get("n") == "nullopt"))
            if isnull(b):
                return self.resolve(fr, a), cond["op"] == "!="
            if isnull(a):
                return self.resolve(fr, b), cond["op"] == "!="
            return None
        if k == "MCall" and cond.get("mname") in ("operator bool", "has_value"):
            r = self.resolve(fr, c[0])
            if cond.get("arrow") and c[0]["k"] not in ("CXXThisExpr", "OpCall"):
                r = frozenset(add(x, "*") for x in r)
            return r, True
        if k == "MCall" and cond.get("mname") == "empty" and "std::" in cond.get("cls", ""):
            return self.resolve(fr, c[0]), False
        if k == "Cast" and c:
            return self.nulltest(fr, c[0])
        if k in ("MCall", "Call") and self.p.ty(cond.get("t", -1))["k"] == "ptr":
            return self.resolve(fr, cond), True
        if k in ("DeclRefExpr", "MemberExpr"):
            # bool variable initialised from a null test
            if k == "DeclRefExpr":
                f, how = fr.lookup(cond.get("d"))
                if how == "var":
                    v = f.fn.vars[cond["d"]]
                    init = (v.get("c") or [None])[0]
                    if self.p.ty(v["t"])["k"] == "bool" and init is not None and not self.reassigned(f.fn, cond["d"]):
                        return self.nulltest(f, init)
            t = self.p.ty(cond.get("t", -1))
            if t["k"] == "ptr":
                return self.resolve(fr, cond), True
        return None

    def assume(self, fr, cond, st):
        """(state if true, state if false)"""
        if st is None:
            return None, None
        k = cond["k"]
        c = cond.get("c", [])
        if k == "Bool":
            return (st, None) if cond["v"] else (None, st)
        if k == "UnOp" and cond["op"] == "!":
            a, b = self.assume(fr, c[0], st)
            return b, a
        if k == "BinOp" and cond["op"] == "&&":
            a, b = self.assume(fr, c[0], st)
            a2, b2 = self.assume(fr, c[1], a)
            return a2, self.merge(b, b2)
        if k == "BinOp" and cond["op"] == "||":
            a, b = self.assume(fr, c[0], st)
            a2, b2 = self.assume(fr, c[1], b)
            return self.merge(a, a2), b2
        a = b = st
        r = self.nulltest(fr, cond)
        if r and r[0]:
            if r[1]:
                b = st.with_null(r[0])
            else:
                a = st.with_null(r[0])
        if self.h is not None and hasattr(self.h, "on_assume"):
            a = self.h.on_assume(self, fr, cond, True, a)
            b = self.h.on_assume(self, fr, cond, False, b)
        return a, b

    # ------------------------------------------------------------ statements
    def stmt(self, fr, n, st, loops):
        if n is None or st is None:
            return st
        k = n["k"]
        c = n.get("c", [])
        if k == "CompoundStmt":
            for x in c:
                st = self.stmt(fr, x, st, loops)
                if st is None:
                    # labels (case) may restart control flow; handled in switch
                    return None
            return st
        if k == "DeclStmt":
            for v in c:
                if v:
                    st = self.vardecl(fr, v, st)
                    if st is None:
                        return None
            return st
        if k == "IfStmt":
            st = self.stmt(fr, c[0], st, loops)
            if st is None:
                return None
            if c[1]:
                st = self.vardecl(fr, c[1], st)
            st = self.expr(fr, c[2], st) if not n.get("cx") else st
            if st is None:
                return None
            a, b = self.assume(fr, c[2], st)
            a = self.stmt(fr, c[3], a, loops)
            b = self.stmt(fr, c[4], b, loops) if len(c) > 4 and c[4] else b
            return self.merge(a, b)
        if k == "ReturnStmt":
            for x in c:
                st = self.expr(fr, x, st)
            if st is not None:
                if self.h is not None and hasattr(self.h, "on_return"):
                    st = self.h.on_return(self, fr, n, st)
                if st is not None:
                    fr.returns.append(st)
            return None
        if k == "BreakStmt":
            if loops:
                loops[-1]["brk"].append(st)
            return None
        if k == "ContinueStmt":
            for l in reversed(loops):
                if not l.get("sw"):
                    l["cont"].append(st)
                    break
            return None
        if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            return self.loop(fr, n, st, loops)
        if k == "SwitchStmt":
            return self.switch(fr, n, st, loops)
        if k == "CXXTryStmt":
            pre = st
            rbefore = len(fr.returns)
            a = self.stmt(fr, c[0], st, loops)
            outs = [a]
            # a handler may run after any prefix of the body: keep only what held before
            for h in c[1:]:
                hs = St(pre.facts, pre.nulls, self.h.havoc_x(pre.x, a) if self.h is not None and hasattr(self.h, "havoc_x") else pre.x)
                outs.append(self.stmt(fr, h["c"][0] if h.get("c") else None, hs, loops))
            return self.mergeall(outs)
        if k in ("LabelStmt",):
            return self.stmt(fr, c[-1] if c else None, st, loops)
        if k in ("CaseStmt", "DefaultStmt"):
            return self.stmt(fr, kids(n)[-1] if kids(n) else None, st, loops)
        if k == "OMP":
            for cl in n.get("clauses", ()):
                for x in cl.get("c", ()):
                    st = self.expr(fr, x, st)
            for x in c:
                st = self.stmt(fr, x, st, loops)
            return st
        if k == "NullStmt":
            return st
        return self.expr(fr, n, st)

    def switch(self, fr, n, st, loops):
        c = n["c"]
        st = self.stmt(fr, c[0], st, loops)
        if c[1]:
            st = self.vardecl(fr, c[1], st)
        st = self.expr(fr, c[2], st)
        if st is None:
            return None
        ctx = dict(brk=[], cont=None, sw=True)
        loops = loops + [ctx]
        body = c[3]
        items = body.get("c", []) if body and body["k"] == "CompoundStmt" else [body]
        cur = None
        has_default = False
        for x in items:
            while x is not None and x["k"] in ("CaseStmt", "DefaultStmt"):
                if x["k"] == "DefaultStmt":
                    has_default = True
                cur = self.merge(cur, st)
                x = kids(x)[-1] if kids(x) else None
            cur = self.stmt(fr, x, cur, loops)
        outs = [cur] + ctx["brk"]
        if not has_default:
            outs.append(st)
        return self.mergeall(outs)

    def loop_container(self, fr, n):
        """Paths of a container a loop walks over completely (range-for, or index/iterator for/while)."""
        k = n["k"]
        c = n["c"]
        if k == "CXXForRangeStmt":
            v = kids(c[1])[0] if c[1] and kids(c[1]) else None
            init = (v.get("c") or [None])[0] if v else None
            return self.resolve(fr, init) if init else frozenset()
        if k in ("ForStmt", "WhileStmt"):
            cond = self.bare(c[2] if k == "ForStmt" else c[1])
            init, inc = (c[0], c[3]) if k == "ForStmt" else (None, None)
            up, out = self.bound(fr, cond)
            if out:
                return out if self.starts_first(fr, init, inc, n, up) else frozenset()
            return self.backwards(fr, cond, init, inc)
        return frozenset()

    @staticmethod
    def bare(n):
        while n is not None and n["k"] in ("Cast", "InitList", "Construct", "ParenExpr") and len(kids(n)) == 1:
            n = kids(n)[0]
        return n

    def whole_size(self, fr, e, names, depth=0):
        """paths of the container whose size()/end() expression e plainly is"""
        e = self.bare(e)
        if e is None or depth > 4:
            return frozenset()
        if e["k"] == "MCall" and e.get("mname") in names:
            return self.resolve(fr, e["c"][0])
        if e["k"] == "Call" and e.get("fn", "").rsplit("::", 1)[-1] in names and len(e["c"]) == 2 and e.get("fn", "").startswith("std::"):
            return self.resolve(fr, e["c"][1])
        if e["k"] == "DeclRefExpr" and e.get("dk") in ("local", "param"):
            f, how = fr.lookup(e["d"])
            if how == "var" and not self.reassigned(f.fn, e["d"]):
                return self.whole_size(f, (f.fn.vars[e["d"]].get("c") or [None])[0], names, depth + 1)
        return frozenset()

    def bound(self, fr, cond):
        """(loop variable, container): condition is  var < container.size()  or  var != container.end()"""
        if cond is None or cond["k"] not in ("BinOp", "OpCall") or cond.get("op") not in ("<", "!=", ">") or len(cond.get("c", ())) < 2:
            return None, frozenset()
        l, r = self.bare(cond["c"][0]), self.bare(cond["c"][1])
        if cond["op"] == ">" or (cond["op"] == "!=" and l["k"] != "DeclRefExpr"):
            l, r = r, l
        if l is None or l["k"] != "DeclRefExpr":
            return None, frozenset()
        out = self.whole_size(fr, r, ("size", "end", "cend", "length", "rend", "crend"))
        return l.get("d"), out

    def backwards(self, fr, cond, init, inc):
        """for (i = size()-1; i >= 0; i--)  or  for (i = size(); i-- > 0;)"""
        if cond is None or init is None or init["k"] != "DeclStmt" or not kids(init):
            return frozenset()
        v = kids(init)[0]
        e = self.bare((v.get("c") or [None])[0])
        if e is None:
            return frozenset()
        dec = lambda m: m is not None and m["k"] == "UnOp" and m.get("op") == "--" and self.bare(m["c"][0]).get("d") == v["d"]
        zero = lambda m: m is not None and m["k"] == "Int" and m["v"] == "0"
        if cond["k"] == "BinOp" and cond["op"] in (">", "!=") and dec(self.bare(cond["c"][0])) and self.bare(cond["c"][0]).get("post") and zero(self.bare(cond["c"][1])) and inc is None:
            return self.whole_size(fr, e, ("size", "length"))
        if cond["k"] == "BinOp" and cond["op"] == ">=" and self.bare(cond["c"][0]).get("d") == v["d"] and zero(self.bare(cond["c"][1])) and dec(inc):
            if e["k"] == "BinOp" and e["op"] == "-" and self.bare(e["c"][1])["k"] == "Int" and self.bare(e["c"][1])["v"] == "1":
                return self.whole_size(fr, e["c"][0], ("size", "length"))
        return frozenset()

    def starts_first(self, fr, init, inc, loop=None, d=None):
        """the loop variable starts at the first element and steps by one"""
        var = None
        if init is not None:
            vs = [v for v in kids(init)] if init["k"] == "DeclStmt" else []
            var = next((v for v in vs if v.get("d") == d), vs[0] if vs and d is None else None)
        if var is None and d is not None:
            f, how = fr.lookup(d)
            var = f.fn.vars[d] if how == "var" else None
        if var is not None:
            e = self.bare((var.get("c") or [None])[0])
            if not (e is not None and ((e["k"] == "Int" and e["v"] == "0") or (e["k"] == "MCall" and e.get("mname") in ("begin", "cbegin", "rbegin", "crbegin")) or
                                       e["k"] == "Call" and e.get("fn") in ("std::begin", "std::cbegin") or e["k"] == "InitList" and not kids(e))):
                return False
        one = lambda m: (m["k"] in ("UnOp", "OpCall") and m.get("op") == "++") or \
            (m["k"] == "CAssign" and m["op"] == "+=" and self.bare(m["c"][1])["k"] == "Int" and self.bare(m["c"][1])["v"] == "1")
        isvar = lambda m: self.bare(m["c"][0]) is not None and self.bare(m["c"][0]).get("d") == d
        steps = []
        roots = [inc] if inc is not None else []
        if loop is not None and d is not None:
            roots.append(loop["c"][4] if loop["k"] == "ForStmt" else loop["c"][2])
        for root in roots:
            for m in walk(root) if root else ():
                if (m["k"] in ("UnOp", "OpCall") and m.get("op") in ("++", "--") or m["k"] == "CAssign" or m["k"] in ("BinOp", "OpCall") and m.get("op") in ("=", "+=", "-=")) and m.get("c") and (d is None or isvar(m)):
                    steps.append(m)
        if d is None:
            return inc is None or any(one(m) for m in steps)
        return len(steps) == 1 and one(steps[0])

    def loop(self, fr, n, st, loops):
        k = n["k"]
        c = n["c"]
        ctx = dict(brk=[], cont=[])
        nl = loops + [ctx]
        if k == "DoStmt":
            s = self.stmt(fr, c[0], st, nl)
            s = self.mergeall([s] + ctx["cont"])
            s = self.expr(fr, c[1], s)
            if self.refix and s is not None:
                t, _ = self.assume(fr, c[1], s)
                if t is not None and (t.x or frozenset()) - (st.x or frozenset()):
                    ctx["cont"].clear()
                    s = self.stmt(fr, c[0], self.merge(st, t), nl)
                    s = self.mergeall([s] + ctx["cont"])
                    s = self.expr(fr, c[1], s)
            return self.mergeall([s] + ctx["brk"])
        if k == "ForStmt":
            st = self.stmt(fr, c[0], st, loops)
            cond, inc, body = c[2], c[3], c[4]
        elif k == "WhileStmt":
            cond, inc, body = c[1], None, c[2]
        else:
            st = self.stmt(fr, c[0], st, loops)
            for x in (c[1], c[2], c[3]):
                st = self.stmt(fr, x, st, loops)
            cond, inc, body = c[4], None, c[7]
        if st is None:
            return None
        nret = len(fr.returns)
        s0 = st
        if self.h is not None and hasattr(self.h, "loop_enter"):
            s0 = self.h.loop_enter(self, fr, n, st)
        s0 = self.expr(fr, cond, s0) if cond else s0
        if s0 is None:
            return None
        a, b = self.assume(fr, cond, s0) if cond else (s0, None)
        sb = a
        if k == "CXXForRangeStmt":
            sb = self.stmt(fr, c[6], sb, loops)
        if k == "WhileStmt" and c[0]:
            sb = self.vardecl(fr, c[0], sb)
        self.loopstack.append(self.loop_container(fr, n))
        sb = self.stmt(fr, body, sb, nl)
        self.loopstack.pop()
        sb = self.mergeall([sb] + ctx["cont"])
        if inc is not None:
            sb = self.expr(fr, inc, sb)
        if self.refix and sb is not None and (sb.x or frozenset()) - (st.x or frozenset()):
            # what an iteration leaves behind is seen by the next one
            s1 = self.merge(st, sb)
            s1 = self.expr(fr, cond, s1) if cond else s1
            if s1 is not None:
                a1, b1 = self.assume(fr, cond, s1) if cond else (s1, None)
                b = self.merge(b, b1)
                if k == "CXXForRangeStmt":
                    a1 = self.stmt(fr, c[6], a1, loops)
                if k == "WhileStmt" and c[0]:
                    a1 = self.vardecl(fr, c[0], a1)
                ctx["cont"].clear()
                a1 = self.stmt(fr, body, a1, nl)
                a1 = self.mergeall([a1] + ctx["cont"])
                if inc is not None:
                    a1 = self.expr(fr, inc, a1)
                sb = self.merge(sb, a1)
        early = bool(ctx["brk"]) or len(fr.returns) > nret
        out = self.merge(b, sb) if not (cond is None and k == "ForStmt") else None
        # whole-container loops: per-element facts hold for every element when no early exit
        if sb is not None and not early:
            cont = self.loop_container(fr, n)
            if cont:
                keep = [f for f in sb.facts - st.facts if len(f) > 1 and isinstance(f[1], tuple) and any(starts(f[1], add(p, "[]")) for p in cont)]
                if out is None:
                    out = b
                if out is not None:
                    out = out.with_facts(keep)
            # counted loop with a positive constant trip count executes at least once
            elif self.const_trip(fr, n):
                out = sb if b is None else St(sb.facts, (b.nulls if b else frozenset()), sb.x)
        outs = [out] + ctx["brk"]
        return self.mergeall(outs)

    def const_trip(self, fr, n):
        if n["k"] != "ForStmt":
            return False
        cond = n["c"][2]
        if cond is None or cond["k"] != "BinOp" or cond["op"] not in ("<", "<=", "!="):
            return False
        r = cond["c"][1]
        init = n["c"][0]
        if r["k"] != "Int" or init is None or init["k"] != "DeclStmt" or not kids(init):
            return False
        e = (kids(init)[0].get("c") or [None])[0]
        return e is not None and e["k"] == "Int" and int(e["v"]) < int(r["v"])
