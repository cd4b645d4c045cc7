"""Shared rule infrastructure: context, results, component registry."""
from collections import defaultdict

from .facts import AnalysisError
from .prog import Program, kids, walk
from .interp import Interp, Frame, St, add, starts


class Result:
    def __init__(self):
        self.viol = []          # (key, message, where, trace)
        self.obligations = 0
        self.discharged = 0
        self.samples = []
        self.counts = {}
        self.notes = []
        self._seen = set()

    def oblige(self, ok, key, msg, where, trace=(), sample=None):
        """One obligation: discharged if ok, else a violation identified by key."""
        self.obligations += 1
        if ok:
            self.discharged += 1
            if sample is not None and len(self.samples) < 12:
                self.samples.append(sample)
        else:
            self.bad(key, msg, where, trace)

    def bad(self, key, msg, where, trace=()):
        if key in self._seen:
            return
        self._seen.add(key)
        self.viol.append((key, msg, where, list(trace)))

    def good(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def floor(self, k, lo):
        if self.counts.get(k, 0) < lo:
            raise AnalysisError("rule matched only %d '%s' (confirmed floor %d): anchor lost" % (self.counts.get(k, 0), k, lo))


class Ctx:
    def __init__(self, prog):
        self.P = prog
        self._reg = None
        self._memo = {}

    def memo(self, key, fn):
        if key not in self._memo:
            self._memo[key] = fn()
        return self._memo[key]

    # ------------------------------------------------------------ components
    def registry(self):
        """[(class, key, alias, where)] of every registered implementation."""
        if self._reg is None:
            out = []
            for v in self.P.vars:
                t = self.P.ty(self.P.strip_ref(v["t"]))
                if t.get("rec") != "lm::comp::detail::RegEntry" or not t.get("targs"):
                    continue
                cls = self.P.ty(t["targs"][0]).get("full")
                strs = [n["v"] for n in walk(v.get("init")) if n["k"] == "Str"] if v.get("init") else []
                out.append((cls, strs[0] if strs else None, strs[1] if len(strs) > 1 else "", "%s:%d" % (self.P.rel(v["file"]), v["line"])))
            self._reg = sorted(out, key=lambda x: (x[1] or "", x[0] or ""))
        return self._reg

    def component_classes(self):
        """All our concrete classes deriving from lm::Component."""
        P = self.P
        return sorted(c for c in P.all_derived("lm::Component") if c in P.records)

    def is_comp_ptr(self, t):
        """T* with T a Component (weak reference)"""
        P = self.P
        x = P.ty(P.strip_ref(t))
        if x["k"] != "ptr":
            return False
        r = P.ty(x["to"]).get("full")
        return bool(r) and P.derives(r, "lm::Component")

    def is_comp_uptr(self, t):
        P = self.P
        x = P.ty(P.strip_ref(t))
        if x["k"] == "rec" and x.get("rec") == "std::unique_ptr" and x.get("targs"):
            r = P.ty(x["targs"][0]).get("full")
            return bool(r) and P.derives(r, "lm::Component")
        return False

    def contexts(self):
        """Interfaces used as process-wide context singletons."""
        P = self.P
        out = set()
        for full, r in P.records.items():
            if r["name"] == "lm::comp::detail::ContextInstance":
                a = full[full.index("<") + 1:-1]
                out.add(a)
        return out

    def asset_components(self):
        """Registered implementations that can live in the asset tree (contexts excluded)."""
        P = self.P
        ctxs = self.contexts()
        out = []
        for cls, key, alias, where in self.registry():
            if not cls or cls not in P.records:
                continue
            if any(P.derives(cls, c) for c in ctxs):
                continue
            out.append((cls, key, where))
        return out

    def fields(self, cls, stop=("lm::Component",)):
        return [(c, f) for c, f in self.P.all_fields(cls) if c not in stop]

    def methods(self, cls):
        """Every function with a body that is a member of cls or its bases (below Component)."""
        out = []
        for c in [cls] + self.P.bases_of(cls):
            if c == "lm::Component":
                continue
            out += [f for f in self.P.by_cls.get(c, ()) if f.body and not f.is_lambda]
        return out

    def lambdas_of(self, f):
        out = []
        st = [f]
        while st:
            x = st.pop()
            for n in x.walk():
                if n["k"] == "Lambda":
                    for k in [n["f"]] + n.get("specs", []):
                        g = self.P.funcs.get(k)
                        if g and g not in out:
                            out.append(g)
                            st.append(g)
        return out


def pstr(path):
    out = ""
    for e in path:
        if e == "this":
            out = "this"
        elif isinstance(e, tuple):
            out += str(e[1]).split("@")[0]
        elif e == "[]":
            out += "[]"
        elif e == "*":
            out = "*(" + out + ")" if not out.startswith("*") else out + "*"
        elif e == "&":
            out = "&" + out
        else:
            out += "." + e
    return out
