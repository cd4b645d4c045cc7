"""S24: values crossing the Python boundary arrive intact or are rejected."""
from ..core import *
from ..prog import kids, walk
from ..poly import poly, mul
from .s13 import strip

CASTER = "pybind11::detail::type_caster"


def ints_product(n):
    p = 1
    for x in walk(n):
        if x["k"] == "Int":
            p *= int(x["v"])
    return p


def const_int(n):
    n = strip(n)
    if n is not None and n["k"] == "Int":
        return int(n["v"])
    return None


def local(f, n, depth=0):
    """the initialiser of a local that is never reassigned, else n itself"""
    n = strip(n)
    if n is not None and n["k"] == "DeclRefExpr" and n.get("d") in f.vars and depth < 5 and n["d"] not in f.assigned_vars():
        i = (f.vars[n["d"]].get("c") or [None])[0]
        if i is not None:
            return local(f, i, depth + 1)
    return n


def scalar(P, t):
    x = P.ty(t)
    while x["k"] in ("ref", "rref"):
        x = P.ty(x["to"])
    return x if x["k"] in ("int", "float", "bool") else None


def loses(a, b):
    """does converting a value of scalar type a to scalar type b lose information?"""
    if a["k"] == "bool":
        return False
    if b["k"] == "bool":
        return True
    if a["k"] == "float":
        return b["k"] == "int" or b.get("bits", 64) < a.get("bits", 64)
    if b["k"] == "float":
        return b.get("bits", 64) < 64
    return b.get("bits", 64) < a.get("bits", 64)


def init_list(n):
    """elements of a brace list handed to pybind11 as shape or strides"""
    for x in walk(n):
        if x["k"] == "InitList":
            return [c for c in x.get("c", []) if c is not None]
    return None


def layout(it, fr, shape, strides, item):
    """None if the strides describe a dense row-major array of that shape, else what is wrong"""
    sh = [poly(it, fr, x) for x in shape]
    st = [poly(it, fr, x) for x in strides]
    if any(x is None for x in sh + st):
        return None      # not expressible: not judged
    if len(sh) != len(st):
        return "%d dimensions but %d strides" % (len(sh), len(st))
    want = {(): item}
    for i in reversed(range(len(sh))):
        if st[i] != want:
            return "stride %d is not the size of what follows it" % i
        want = mul(want, sh[i])
    return None


class Shape:
    """facts about the shape of numpy arrays that hold on every path: ('shape', path, i, k), ('ndim', path, k), ('size', path, k)"""

    def __init__(self, P):
        self.P = P
        self.copies = []
        self.casts = []
        self.unloaded = []
        self.nullbuf = []
        self.skipped = []

    def merge_x(self, a, b):
        return (a or frozenset()) | (b or frozenset())

    def fact(self, it, fr, cond):
        c = cond.get("c", [])
        if cond["k"] not in ("BinOp", "OpCall") or cond.get("op") not in ("==", "!=") or len(c) != 2:
            return None, None
        for a, b in ((c[0], c[1]), (c[1], c[0])):
            a, k = strip(local(fr.fn, a)), const_int(b)
            if a is not None and a["k"] == "MCall" and k is not None and a.get("mname") in ("shape", "ndim", "size") and a.get("cls", "").startswith("pybind11::"):
                ps = it.resolve(fr, a["c"][0])
                i = const_int(a["c"][1]) if len(a["c"]) > 1 and a["c"][1] is not None and a["c"][1]["k"] != "DefaultArg" else None
                return [(a["mname"], p, i, k) for p in ps], cond["op"] == "=="
        return None, None

    def on_assume(self, it, fr, cond, sense, st):
        if st is None:
            return st
        n = strip(cond)
        if n["k"] == "Call" and n.get("fn") == "pybind11::isinstance" and sense:
            return st.with_facts([("isinstance", (("t", self.P.tstr(t)),)) for t in n.get("ta", [])])
        if n["k"] == "MCall" and n.get("mname") == "load" and n.get("cls", "").startswith("pybind11::detail::"):
            ps = it.resolve(fr, n["c"][0])
            if sense:
                st = St(st.facts | {("loaded", p) for p in ps}, st.nulls, (st.x or frozenset()) - {("failed", n["id"])})
            else:
                st = st.with_x((st.x or frozenset()) | {("failed", n["id"])})
            return st
        if n["k"] == "MCall" and n.get("mname") == "operator bool" and "pybind11" in n.get("cls", "") and sense:
            return st.with_facts([("nonnull", p) for p in it.resolve(fr, n["c"][0])])
        fs, eq = self.fact(it, fr, n)
        if fs and eq == sense:
            return st.with_facts(fs)
        return st

    def on_return(self, it, fr, n, st):
        e = strip(kids(n)[0]) if kids(n) else None
        if e is not None and not (e["k"] == "Bool" and not e["v"]) and st.x and fr.up is None and self.P.ty(e.get("t", -1))["k"] == "bool":
            self.skipped.append((fr, n))
        return st

    def on_node(self, it, fr, n, st):
        if n["k"] == "Call" and n.get("fn") == "pybind11::detail::cast_op":
            ps = it.resolve(fr, n["c"][1])
            if not any(("loaded", p) in st.facts for p in ps):
                self.unloaded.append((fr, n))
        if n["k"] == "MCall" and n.get("cls", "").startswith("pybind11::array") and n.get("mname") in ("ndim", "shape", "data", "at", "size", "strides", "mutable_data", "operator()"):
            o = strip(n["c"][0])
            src = local(fr.fn, o) if o is not None else None
            if src is not None and src["k"] in ("Call", "MCall") and (src.get("mname") == "ensure" or src.get("fn", "").endswith("::ensure")):
                ps = it.resolve(fr, o)
                if not any(("nonnull", p) in st.facts for p in ps):
                    self.nullbuf.append((fr, n))
        if n["k"] == "Call" and n.get("fn") in ("memcpy", "std::memcpy", "memmove", "std::memmove", "std::copy", "std::copy_n"):
            src = [b for b in [local(fr.fn, a) for a in n["c"][1:]] if b is not None]
            src = src[:1] if n["fn"].startswith("std::copy") else src
            src = [a for a in src if any(x["k"] == "MCall" and x.get("mname") in ("data", "mutable_data") and "pybind11::array" in x.get("cls", "") for x in walk(a))]
            for a in src:
                m = next(x for x in walk(a) if x["k"] == "MCall" and x.get("mname") in ("data", "mutable_data"))
                self.copies.append((fr, n, m, it.resolve(fr, m["c"][0]), st))
        if n["k"] == "Cast" and n.get("ck") in ("CXXStaticCastExpr", "CXXReinterpretCastExpr") and self.P.ty(n["t"])["k"] == "ptr" and self.P.rec_of(n["t"]):
            s = n["c"][0]
            if s is not None and self.P.tstr(s.get("t", -1)).replace("const ", "") == "void *":
                self.casts.append((fr, n, self.P.rec_of(n["t"]), st))
        return st, False

    def inline(self, it, fr, n, f):
        return self.P.rel(f.file).startswith(("include/", "src/")) and not (f.name == "load" and f.cls.startswith(CASTER))


def elementwise(P, R, f, what):
    """value[a][b] = array(b, a): glm is column-major"""
    from .s03 import ntext
    for n in f.walk():
        if n["k"] not in ("BinOp", "OpCall") or n.get("op") != "=":
            continue
        idx = []
        x = strip(n["c"][0])
        while x is not None and x["k"] in ("OpCall", "ArraySubscriptExpr") and (x["k"] != "OpCall" or x.get("op") == "[]"):
            idx.insert(0, x["c"][1])
            x = strip(x["c"][0])
        rd = next((y for y in walk(n["c"][1]) if y["k"] in ("MCall", "OpCall") and "pybind11" in y.get("cls", "") and y.get("mname") in ("at", "operator()", "data") and len(y["c"]) == 3), None)
        if len(idx) == 2 and rd is not None:
            a = [ntext(strip(i)) for i in idx]
            b = [ntext(strip(i)) for i in rd["c"][1:]]
            tr = any(y["k"] == "Call" and y.get("fn") == "glm::transpose" for y in f.walk())
            R.count("element_copies")
            R.oblige(a == (b if tr else b[::-1]), what + "/transpose", "rows and columns of a Python matrix are mixed up when it is copied", f.where(n))


def outgoing(P, R, f, what):
    """arrays made from vectors and matrices own a copy of the values and describe it exactly"""
    it = Interp(P, None)
    fr = Frame(f, {}, frozenset({("this",)}), f.cls)
    for n in f.walk():
        if n["k"] != "Construct" or not n.get("cls", "").startswith("pybind11::array"):
            continue
        args = [a for a in n["c"] if a is not None]
        if len(args) < 2 or args[0]["k"] == "DeclRefExpr" or n.get("cm"):
            continue
        R.count("arrays_made")
        data = [a for a in args if P.ty(a.get("t", -1))["k"] == "ptr"]
        lists = [l for l in [init_list(a) for a in args if a not in data] if l is not None]
        base = [a for a in args if a not in data and a["k"] != "DefaultArg" and any(t in P.tstr(a.get("t", -1)) for t in ("pybind11::handle", "pybind11::capsule", "pybind11::object"))]
        if data and len(lists) >= 2:
            sz = 8 if P.ty(P.ty(data[0]["t"])["to"]).get("bits") == 64 else 4
            bad = layout(it, fr, lists[0], lists[1], sz)
            R.oblige(bad is None, what + "/outgoing", "the array handed to Python does not describe the values it is given: %s" % bad, f.where(n),
                     sample="%s: shape and strides of the outgoing array match its values" % what)
        if data and base:
            o = local(f, data[0])
            while o is not None and o["k"] in ("Cast", "UnOp", "MCall", "Call") and o["k"] != "New":
                ks = [c for c in o.get("c", []) if c is not None and c.get("dk") != "func"]
                if not ks:
                    break
                o = local(f, ks[0])
            R.oblige(o is not None and o["k"] == "New", what + "/own", "the array handed to Python refers to memory it does not own", f.where(n),
                     sample="%s: outgoing array owns its copy" % what)


def film_buffer(ctx, R):
    """buffer protocol: what the buffer says about itself is what the film stores"""
    P = ctx.P
    for f in sorted(P.funcs.values(), key=lambda f: f.key):
        if not f.body or not f.file.startswith(P.root):
            continue
        for n in f.walk():
            if n["k"] != "Construct" or n.get("rn") != "pybind11::buffer_info":
                continue
            args = [a for a in n["c"] if a is not None]
            if len(args) < 6:
                continue
            R.count("buffers_exposed")
            it = Interp(P, None)
            fr = Frame(f, {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in f.params}, frozenset({("this",)}), f.cls)
            x = P.ty(local(f, args[0]).get("t", args[0]["t"]))
            el = P.ty(x["to"]) if x["k"] == "ptr" else None
            item = poly(it, fr, args[1])
            key = "buffer/%s" % (P.rec_of(f.params[0]["t"]) if f.params else f.name)
            if el is not None and el["k"] in ("float", "int"):
                R.oblige(item == {(): el["bits"] // 8}, key + "/item", "a buffer of %s values says its elements are %s bytes large" % (el["s"], (item or {}).get((), "?")), f.where(n))
                fmt = next((P.ty(t) for y in walk(local(f, args[2])) for t in y.get("cta", [])), None)
                m = next((y for y in walk(local(f, args[2])) if y["k"] in ("Call", "MCall") and "format_descriptor<" in y.get("cls", "")), None)
                if m is not None:
                    arg = m["cls"].split("format_descriptor<", 1)[1].split(",")[0].strip(" >")
                    R.oblige(arg == el["s"].replace("const ", ""), key + "/format", "a buffer of %s values is described to Python as %s" % (el["s"], arg), f.where(n),
                             sample="%s: element type %s is declared as such" % (key, arg))
            sh, st = init_list(args[4]), init_list(args[5])
            nd = const_int(local(f, args[3]))
            if sh is not None and st is not None:
                R.oblige(nd is None or nd == len(sh), key + "/ndim", "a buffer with %d dimensions says it has %s" % (len(sh), nd), f.where(n))
                if item and list(item) == [()]:
                    bad = layout(it, fr, sh, st, item[()])
                    R.oblige(bad is None, key + "/layout", "the buffer handed to Python does not describe the stored values: %s" % bad, f.where(n),
                             sample="%s: shape and strides describe a dense row-major image" % key)
                names = [[y["n"] for y in walk(local(f, e)) if y["k"] == "MemberExpr"] for e in sh]
                if len(names) == 3 and names[0] and names[1]:
                    R.oblige("h" in names[0] and "w" in names[1], key + "/rows", "rows and columns of the image are exchanged in the buffer handed to Python", f.where(n),
                             sample="%s: rows first, then columns" % key)


def check(ctx):
    P = ctx.P
    R = Result()
    film_buffer(ctx, R)
    fs = [f for f in P.funcs.values() if f.cls.startswith(CASTER) and f.file.startswith(P.root) and f.body and not f.is_lambda]
    for f in sorted(fs, key=lambda f: (f.cls, f.line, f.key)):
        js = "basic_json" in f.cls.split("<", 1)[1][:40]
        what = "json" if js else f.cls[len(CASTER) + 1:].split(",")[0]
        if f.name == "load":
            R.count("conversions_from_python")
            h = Shape(P)
            it = Interp(P, h)
            it.run_fn(Frame(f, {p["d"]: frozenset({(("v", p["d"], 0),)}) for p in f.params}, frozenset({("this",)}), f.cls), St())
            for fr, n, m, ps, st in h.copies:
                R.count("array_copies")
                t = P.tstr(m["c"][0].get("t", -1))
                flags = t.rsplit(",", 1)[-1].strip(" >") if "array_t<" in t else "0"
                R.oblige(flags.isdigit() and int(flags) & 1 or any(x["k"] == "MCall" and x.get("mname") == "strides" for x in f.walk()), what + "/layout",
                         "values of a Python array are copied as if contiguous, but a sliced or transposed array is not", fr.fn.where(n), sample="%s: copies a C-contiguous array" % what)
                last = n["c"][-1]
                if n["fn"] == "std::copy":
                    last = n["c"][2]
                elif n["fn"] == "std::copy_n":
                    last = n["c"][2]
                cnt = ints_product(local(f, last))
                dims = {}
                for fct in st.facts:
                    if fct[0] == "shape" and fct[1] in ps:
                        dims[fct[2]] = fct[3]
                nd = {fct[3] for fct in st.facts if fct[0] == "ndim" and fct[1] in ps}
                size = {fct[3] for fct in st.facts if fct[0] == "size" and fct[1] in ps}
                prod = 1
                for v in dims.values():
                    prod *= v
                ok = (len(nd) == 1 and set(dims) == set(range(next(iter(nd)))) and prod == cnt) or cnt in size
                R.oblige(ok, what + "/size", "%d elements are copied from a Python array whose size has not been checked" % cnt, fr.fn.where(n),
                         sample="%s: copy of %d elements follows shape checks" % (what, cnt))
                if "glm::mat" in f.cls:
                    R.oblige(sum(1 for x in f.walk() if x["k"] == "Call" and x.get("fn") == "glm::transpose") % 2 == 1, what + "/transpose",
                             "a row-major Python matrix is copied into a column-major one without transposition", fr.fn.where(n))
            for fr, n in h.nullbuf[:1]:
                R.oblige(False, what + "/null", "an array that Python could not provide (conversion failed) is used without a check", fr.fn.where(n))
            for fr, n in h.unloaded[:1]:
                R.oblige(False, what + "/unloaded", "an element is used although its own conversion may have failed", fr.fn.where(n))
            for fr, n in h.skipped[:1]:
                R.oblige(False, what + "/skipped", "a value is accepted although the conversion of one of its elements failed: the element is silently dropped", fr.fn.where(n))
            if "glm::mat" in f.cls:
                elementwise(P, R, f, what)
            for fr, n, rec, st in h.casts:
                R.count("unchecked_downcasts")
                ok = any(x[0] == "isinstance" and x[1][0][1].replace("class ", "") == rec for x in st.facts)
                R.oblige(ok, "%s/cast/%s" % (what, rec), "an arbitrary Python object is taken for a %s without checking its type" % rec, fr.fn.where(n),
                         sample="%s: object is checked to be a %s" % (what, rec))
            if js:
                order = [P.tstr(n["ta"][0]).split("::")[-1] for n in f.walk() if n["k"] == "Call" and n.get("fn") == "pybind11::isinstance" and n.get("ta")]
                for a, b in (("bool_", "int_"), ("str", "sequence"), ("bool_", "float_")):
                    if a in order and b in order and not (a == "bool_" and b == "float_"):
                        R.oblige(order.index(a) < order.index(b), "json/order/%s" % a, "a Python %s is converted as %s because that is tested first" % (a, b), f.where())
                for k in ("none", "bool_", "float_", "int_", "str", "dict", "sequence"):
                    R.oblige(k in order, "json/from/" + k, "Python values of kind %s are no longer converted" % k, f.where())
        if f.name == "cast" and not js:
            outgoing(P, R, f, what)
        if js:
            for n in f.walk():
                if n["k"] == "Cast" and n.get("c") and n["c"][0] is not None and n.get("ck") != "ImplicitCastExpr":
                    a, b = scalar(P, n["c"][0].get("t", -1)), scalar(P, n["t"])
                    if a and b and loses(a, b):
                        R.oblige(False, "json/%s/narrow" % f.name, "a value is narrowed from %s to %s on its way" % (a["s"], b["s"]), f.where(n))
                if n["k"] == "Var" and (n.get("c") or [None])[0] is not None:
                    i = strip(n["c"][0])
                    a, b = scalar(P, i.get("t", -1)) if i is not None else None, scalar(P, n["t"])
                    if a and b and loses(a, b) and i["k"] in ("MCall", "Call"):
                        R.oblige(False, "json/%s/narrow" % f.name, "a value is narrowed from %s to %s on its way" % (a["s"], b["s"]), f.where(n))
            for v in [n for n in f.walk() if n["k"] == "Var" and P.tstr(n["t"]) == "pybind11::list"]:
                arg = strip((v.get("c") or [None])[0])
                if arg is None or arg["k"] == "Construct" and not arg.get("c") or not any(n["k"] == "Call" and n.get("fn") == "PyList_SetItem" or n["k"] == "Call" and "SET_ITEM" in n.get("fn", "") for n in f.walk()):
                    continue
                if arg["k"] == "Construct":
                    arg = strip(arg["c"][0])
                a = local(f, arg)
                R.oblige(a is not None and a["k"] == "MCall" and a.get("mname") == "size", "json/list", "the Python list made for an array is not given as many elements as the array has", f.where(v),
                         sample="the Python list has as many elements as the JSON array")
        if js and f.name in ("load", "cast", "cast_to_python_object"):
            for n in f.walk():
                if n["k"] in ("MCall", "Call") and (n.get("mname") in ("cast", "get", "cast_to_python_object") or n.get("fn", "").endswith("::cast_to_python_object")) and n.get("ta"):
                    x = P.ty(n["ta"][0])
                    if x["k"] == "int" and x.get("bits", 64) > 8:
                        R.oblige(x["bits"] >= 64, "json/%s/width" % f.name, "integers are converted through a %d-bit type and lose their upper bits" % x["bits"], f.where(n),
                                 sample="json %s: integers keep 64 bits" % f.name)
                    if x["k"] == "float":
                        R.oblige(x["bits"] >= 64, "json/%s/fwidth" % f.name, "floating-point values are converted through a %d-bit type" % x["bits"], f.where(n))
        if js and f.name == "cast":
            # the switch over the kinds of JSON values
            got = {}
            for sw in f.walk():
                if sw["k"] != "SwitchStmt":
                    continue
                items = sw["c"][3].get("c", []) if sw["c"][3] else []
                pend = []
                for x in items:
                    while x is not None and x["k"] in ("CaseStmt", "DefaultStmt"):
                        if x["k"] == "CaseStmt":
                            pend += [y["n"] for y in walk(kids(x)[0]) if y["k"] == "DeclRefExpr" and y.get("dk") == "enum"]
                        x = kids(x)[-1] if len(kids(x)) > 1 else None
                    if x is None:
                        continue
                    for y in walk(x):
                        if y["k"] in ("Call", "MCall") and (y.get("fn", "").endswith("cast_to_python_object")):
                            for e in pend:
                                ty = P.ty(y["ta"][0]) if y.get("ta") else {"k": "?"}
                                got.setdefault(e, set()).add(ty["k"])
                                if ty["k"] == "int" and ty.get("uns") and e == "number_integer" or ty["k"] == "int" and not ty.get("uns") and e == "number_unsigned":
                                    R.oblige(False, "json/sign/" + e, "JSON values of kind %s are handed to Python as %s: large or negative values change" % (e, ty["s"]), f.where(y))
                        elif y["k"] == "Var" and P.tstr(y["t"]).startswith("pybind11::"):
                            for e in pend:
                                got.setdefault(e, set()).add(P.tstr(y["t"]).split("::")[-1])
                        elif y["k"] == "Construct" and P.tstr(y.get("t", -1)) == "pybind11::none":
                            for e in pend:
                                got.setdefault(e, set()).add("none")
                    if any(y["k"] in ("ReturnStmt", "BreakStmt") for y in walk(x)):
                        pend = []
            want = {"null": "none", "boolean": "bool", "number_float": "float", "number_integer": "int", "number_unsigned": "int", "string": "rec", "object": "dict", "array": "list"}
            for e, k in want.items():
                R.oblige(k in got.get(e, ()), "json/to/" + e, "JSON values of kind %s are handed to Python as %s" % (e, "/".join(sorted(got.get(e, ["nothing"])))), f.where(),
                         sample="json %s becomes a Python %s" % (e, k))
        if "glm::mat" in f.cls and f.name == "cast":
            R.oblige(sum(1 for x in f.walk() if x["k"] == "Call" and x.get("fn") == "glm::transpose") % 2 == 1, what + "/transpose_out",
                     "a column-major matrix is handed to Python as row-major without transposition", f.where())
    R.floor("conversions_from_python", 3)
    R.floor("buffers_exposed", 1)
    R.floor("arrays_made", 2)
    return R
