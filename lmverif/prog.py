"""Program model over the extracted facts: functions, classes, call resolution, access paths."""
import os
from collections import defaultdict

from .facts import AnalysisError


def kids(n):
    return [c for c in n.get("c", ()) if c]


def walk(n):
    """Pre-order walk of an expression/statement tree (lambda bodies are separate functions)."""
    st = [n]
    while st:
        x = st.pop()
        if not x:
            continue
        yield x
        ch = list(x.get("c", ()))
        for cap in x.get("caps", ()):
            if cap.get("init"):
                ch.append(cap["init"])
        for b in x.get("bind", ()):
            if b.get("e"):
                ch.append(b["e"])
        for cl in x.get("clauses", ()):
            ch.extend(cl.get("c", ()))
        st.extend(reversed(ch))


class Fn:
    __slots__ = ("d", "key", "name", "qn", "cls", "clsn", "file", "line", "params", "body", "prog",
                 "_nodes", "_parent", "_vars", "_assigned", "_cfg")

    def __init__(self, d, prog):
        self.d = d
        self.prog = prog
        self.key = d["key"]
        self.name = d["name"]
        self.qn = d["qn"]
        self.cls = d.get("cls", "")
        self.clsn = d.get("clsn", "")
        self.file = d["file"]
        self.line = d["line"]
        self.params = d["params"]
        self.body = d.get("body")
        self._nodes = self._parent = self._vars = self._assigned = self._cfg = None

    def get(self, k, default=None):
        return self.d.get(k, default)

    @property
    def is_lambda(self):
        return bool(self.d.get("lambda"))

    def roots(self):
        r = [self.body] if self.body else []
        for i in self.d.get("inits", ()):
            if i.get("e"):
                r.append(i["e"])
        return r

    def _index(self):
        nodes, parent, vars_ = {}, {}, {}
        for root in self.roots():
            st = [(root, None)]
            while st:
                x, p = st.pop()
                if not x:
                    continue
                if "id" in x:
                    nodes[x["id"]] = x
                    parent[x["id"]] = p
                if x.get("k") == "Var":
                    vars_[x["d"]] = x
                    for b in x.get("bind", ()):
                        vars_[b["d"]] = dict(b, k="Bind", of=x)
                for c in x.get("c", ()):
                    st.append((c, x))
                for cap in x.get("caps", ()):
                    if cap.get("init"):
                        vars_[cap["d"]] = dict(k="Var", d=cap["d"], n=cap["n"], t=cap["init"].get("t", -1), c=[cap["init"]], l=x["l"], initcap=True)
                        st.append((cap["init"], x))
                for b in x.get("bind", ()):
                    if b.get("e"):
                        st.append((b["e"], x))
                for cl in x.get("clauses", ()):
                    for c in cl.get("c", ()):
                        st.append((c, x))
        self._nodes, self._parent, self._vars = nodes, parent, vars_

    @property
    def nodes(self):
        if self._nodes is None:
            self._index()
        return self._nodes

    @property
    def vars(self):
        if self._vars is None:
            self._index()
        return self._vars

    def parent(self, n):
        if self._parent is None:
            self._index()
        return self._parent.get(n["id"])

    def ancestors(self, n):
        p = self.parent(n)
        while p is not None:
            yield p
            p = self.parent(p)

    def walk(self):
        for r in self.roots():
            yield from walk(r)

    def where(self, n=None):
        return "%s:%d" % (self.prog.rel(self.file), n["l"] if n and n.get("l") else self.line)

    def label(self):
        q = self.qn
        return q if not self.is_lambda else "lambda in " + (self.prog.outer(self).qn if self.prog.outer(self) is not self else "?")

    def assigned_vars(self):
        """Local variables assigned after their declaration (=, op=, ++, address taken)."""
        if self._assigned is None:
            s = set()
            for n in self.walk():
                t = None
                if n["k"] in ("CAssign",) or (n["k"] == "BinOp" and n["op"] == "=") or (n["k"] == "UnOp" and n["op"] in ("++", "--", "&")):
                    t = n["c"][0]
                elif n["k"] == "OpCall" and n.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--", "<<", ">>"):
                    t = n["c"][0]
                if t and t.get("k") == "DeclRefExpr":
                    s.add(t["d"])
            self._assigned = s
        return self._assigned


class Program:
    def __init__(self, raw, root):
        self.root = os.path.realpath(root)
        self.types = raw["types"]
        self.tus = raw["tus"]
        self.funcs = {}
        for k, d in raw["funcs"].items():
            self.funcs[k] = Fn(d, self)
        self.records = {}
        for r in raw["records"].values():
            self.records.setdefault(r["full"], r)
        self.vars = list(raw["vars"].values())
        self.varmap = {v["key"]: v for v in self.vars}
        # hierarchy
        self.derived = defaultdict(set)
        for full, r in self.records.items():
            for b in r["bases"]:
                t = self.types[b] if b >= 0 else None
                if t and t.get("full"):
                    self.derived[t["full"]].add(full)
        # overriders
        self.overriders = defaultdict(set)
        self.method_decl = {}
        for full, r in self.records.items():
            for m in r["methods"]:
                self.method_decl[m["f"]] = (r, m)
                for o in m.get("over", ()):
                    self.overriders[o].add(m["f"])
        self.by_name = defaultdict(list)
        self.by_cls = defaultdict(list)
        self.by_qn = defaultdict(list)
        for f in self.funcs.values():
            self.by_name[f.name].append(f)
            self.by_qn[f.qn].append(f)
            if f.cls:
                self.by_cls[f.cls].append(f)
        self._callers = None
        self._outer = {}

    # ---------------------------------------------------------------- helpers
    def rel(self, p):
        return os.path.relpath(p, self.root) if p.startswith(self.root + "/") else p

    def ty(self, t):
        return self.types[t] if isinstance(t, int) and 0 <= t < len(self.types) and self.types[t] else {"s": "?", "k": "?"}

    def tstr(self, t):
        return self.ty(t)["s"]

    def strip_ref(self, t):
        x = self.ty(t)
        return x["to"] if x["k"] in ("ref", "rref") else t

    def pointee(self, t):
        x = self.ty(self.strip_ref(t))
        return x.get("to") if x["k"] == "ptr" else None

    def rec_of(self, t):
        """record full name of T, T&, T*, const T …"""
        x = self.ty(t)
        while x["k"] in ("ref", "rref", "ptr"):
            x = self.ty(x["to"])
        return x.get("full") if x["k"] == "rec" else None

    def recn_of(self, t):
        x = self.ty(t)
        while x["k"] in ("ref", "rref", "ptr"):
            x = self.ty(x["to"])
        return x.get("rec") if x["k"] == "rec" else None

    def bases_of(self, full):
        out, st = [], [full]
        while st:
            x = st.pop()
            r = self.records.get(x)
            if not r:
                continue
            for b in r["bases"]:
                bf = self.ty(b).get("full")
                if bf and bf not in out:
                    out.append(bf)
                    st.append(bf)
        return out

    def derives(self, full, base):
        return full == base or base in self.bases_of(full)

    def all_derived(self, full):
        out, st = set(), [full]
        while st:
            x = st.pop()
            for d in self.derived.get(x, ()):
                if d not in out:
                    out.add(d)
                    st.append(d)
        return out

    def all_fields(self, full):
        """(declaring class, field) of a class including our base classes, base-first."""
        out = []
        r = self.records.get(full)
        if not r:
            return out
        for b in r["bases"]:
            bf = self.ty(b).get("full")
            if bf in self.records:
                out += self.all_fields(bf)
        out += [(full, f) for f in r["fields"]]
        return out

    def find_method(self, full, name, pred=None):
        """Most-derived declaration of method `name` seen from class `full`."""
        st = [full]
        while st:
            x = st.pop(0)
            r = self.records.get(x)
            if not r:
                continue
            for m in r["methods"]:
                if m["n"] == name and (pred is None or pred(m)):
                    return x, m
            for b in r["bases"]:
                bf = self.ty(b).get("full")
                if bf:
                    st.append(bf)
        return None, None

    def dispatch(self, key, dyn):
        """The function a virtual call to `key` reaches on an object of dynamic class dyn."""
        cand = self.all_overriders(key) | {key}
        order = [dyn] + self.bases_of(dyn)
        for c in order:
            r = self.records.get(c)
            if not r:
                continue
            for m in r["methods"]:
                if m["f"] in cand:
                    return m["f"]
        return key

    def all_overriders(self, key):
        out, st = set(), [key]
        while st:
            x = st.pop()
            for o in self.overriders.get(x, ()):
                if o not in out:
                    out.add(o)
                    st.append(o)
        return out

    def outer(self, f):
        """Enclosing non-lambda function of a lambda (or f itself)."""
        seen = set()
        while f.is_lambda and f.get("parent") and f.get("parent") in self.funcs and f.key not in seen:
            seen.add(f.key)
            f = self.funcs[f.get("parent")]
        return f

    def lambda_parent(self, f):
        p = f.get("parent")
        return self.funcs.get(p) if p else None

    # ---------------------------------------------------------------- calls
    def targets(self, n, dyn_this=None):
        """Function keys a call node may reach (class-hierarchy analysis for virtual calls)."""
        k = n["k"]
        out = []
        if k in ("MCall", "OpCall", "Call", "Construct") and n.get("f"):
            f = n["f"]
            if n.get("virt"):
                if dyn_this and n["c"] and n["c"][0] and n["c"][0]["k"] == "CXXThisExpr":
                    return [self.dispatch(f, dyn_this)]
                out = [f] + sorted(self.all_overriders(f))
            else:
                out = [f]
        return out

    def call_args(self, n):
        """Arguments of a call aligned with the callee's parameters."""
        k = n["k"]
        c = n.get("c", [])
        if k in ("MCall", "Call"):
            return c[1:]
        if k == "OpCall":
            # member operators have the object first
            f = self.funcs.get(n.get("f"))
            if n.get("cls") or (f is not None and f.cls):
                return c[1:]
            return c
        if k == "Construct":
            return c
        return []

    def call_obj(self, n):
        c = n.get("c", [])
        if n["k"] == "MCall":
            return c[0]
        if n["k"] == "OpCall" and n.get("cls"):
            return c[0]
        return None

    def callees_of(self, f):
        """All function keys f may call directly or create as lambda (lambdas count as called)."""
        out = []
        for n in f.walk():
            if n["k"] in ("MCall", "OpCall", "Call", "Construct"):
                for t in self.targets(n):
                    out.append((t, n))
            elif n["k"] == "Lambda":
                for t in [n["f"]] + n.get("specs", []):
                    out.append((t, n))
        return out

    def reachable(self, roots, stop=lambda f: False):
        """function key -> (caller key, call node) tree of everything reachable."""
        tree = {}
        st = []
        for r in roots:
            if r in self.funcs and r not in tree:
                tree[r] = None
                st.append(r)
        while st:
            k = st.pop()
            f = self.funcs[k]
            if stop(f):
                continue
            for t, n in self.callees_of(f):
                if t in self.funcs and t not in tree:
                    tree[t] = (k, n)
                    st.append(t)
        return tree

    def chain(self, tree, k):
        out = []
        while k is not None:
            f = self.funcs[k]
            out.append("%s (%s)" % (f.label(), f.where()))
            e = tree.get(k)
            k = e[0] if e else None
        return list(reversed(out))

    def callers(self):
        if self._callers is None:
            c = defaultdict(list)
            for f in self.funcs.values():
                for t, n in self.callees_of(f):
                    c[t].append((f, n))
            self._callers = c
        return self._callers

    # ---------------------------------------------------------------- lookups
    def fns(self, qn):
        return self.by_qn.get(qn, [])

    def fn(self, qn):
        r = self.fns(qn)
        if not r:
            raise AnalysisError("anchor function %s not found" % qn)
        return r[0]

    def need(self, cond, msg):
        if not cond:
            raise AnalysisError(msg)
