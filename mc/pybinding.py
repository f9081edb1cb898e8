"""Loads interfaces/python/ConexProgram.py over a stand-in for the extension
module SWIG would generate.  The stand-in is derived from what SWIG reads: the
prototypes and structs of interfaces/conex.h and the %apply directives of
interfaces/python/conex.i, with the conversions numpy.i documents."""
import ctypes
import re
import types

import numpy as np

C = {"int": ctypes.c_int, "double": ctypes.c_double, "long": ctypes.c_long}
KIND = {"double": np.float64, "long": np.int64, "int": np.int32}


def strip(text):
    text = re.sub(r"/\*.*?\*/", " ", text, flags=re.S)
    text = re.sub(r"//[^\n]*", " ", text)
    return text


def split_args(text):
    out = []
    for a in text.split(","):
        a = a.strip()
        if not a or a == "void":
            continue
        m = re.match(r"^(.*?)(\w*)$", a.replace("*", " * "))
        t, name = m.group(1), m.group(2)
        if not t.strip() or name in ("int", "double", "long", "void", "CONEX_STATUS"):  # unnamed
            t, name = a, ""
        out.append((" ".join(t.replace("*", " * ").split()), name))
    return out


class Binding:
    def __init__(self, repo, lib):
        self.lib = lib
        h = strip(open(repo + "/interfaces/conex.h").read())
        self.structs = {}
        for body, name in re.findall(r"typedef\s+struct\s*\{(.*?)\}\s*(\w+)\s*;", h, flags=re.S):
            fields = [tuple(x.split()) for x in body.split(";") if x.strip()]
            self.structs[name] = type(name, (ctypes.Structure,), {"_fields_": [(n, C[t]) for t, n in fields], "__slots__": []})
        self.types = set(self.structs)
        h = re.sub(r"typedef\s+struct\s*\{.*?\}\s*\w+\s*;", "", h, flags=re.S)
        h = re.sub(r"enum\s*\{.*?\}\s*;", "", h, flags=re.S)
        self.functions = {}
        for ret, star, name, args in re.findall(r"(\w+)\s*(\*?)\s*\b(CONEX_\w+)\s*\(([^)]*)\)\s*;", h):
            self.functions[name] = (ret + star, split_args(args))
        self.maps = {}
        swig = strip(open(repo + "/interfaces/python/conex.i").read())
        for src, dst in re.findall(r"%apply\s*\((.*?)\)\s*\{\s*\((.*?)\)\s*\}", swig, flags=re.S):
            s = split_args(src)
            self.maps[tuple(split_args(dst))] = (s[0][1], s[0][0].replace("*", "").replace("const", "").strip())
        self.calls = 0

    def module(self):
        m = types.ModuleType("conex")
        for n, t in self.structs.items():
            setattr(m, n, t)

        class intp:
            def __init__(self):
                self.box = ctypes.c_int(0)

            def value(self):
                return self.box.value
        m.intp = intp
        for name in self.functions:
            setattr(m, name, self.wrap(name))
        return m

    def wrap(self, name):
        ret, args = self.functions[name]
        f = getattr(self.lib, name)
        plan, i = [], 0
        while i < len(args):
            for n in (4, 3, 2):
                key = tuple(args[i:i + n])
                if len(key) == n and key in self.maps:
                    plan.append(("array", self.maps[key], n))
                    i += n
                    break
            else:
                plan.append(("plain", args[i][0], 1))
                i += 1

        def call(*given):
            self.calls += 1
            if len(given) != len(plan):
                raise TypeError("%s takes %d arguments (%d given)" % (name, len(plan), len(given)))
            out, after = [], []
            for (kind, how, _), v in zip(plan, given):
                if kind == "array":
                    out += self.array(name, how, v, after)
                else:
                    out.append(self.plain(name, how, v))
            f.restype = {"int": ctypes.c_int, "CONEX_STATUS": ctypes.c_int, "void": None, "void*": ctypes.c_void_p}[ret]
            r = f(*out)
            for g in after:
                g()
            return r
        return call

    def array(self, name, how, v, after):
        typemap, ctype = how
        dtype, ct = KIND[ctype], C[ctype]
        m = re.match(r"(IN|INPLACE)_(F?)ARRAY(\d)$", typemap)
        inplace, fortran, dims = m.group(1) == "INPLACE", m.group(2) == "F", int(m.group(3))
        if inplace:
            if not isinstance(v, np.ndarray) or v.dtype != dtype or not v.dtype.isnative:
                raise TypeError("%s: array of type %s required" % (name, ctype))
            if v.ndim != dims:
                raise TypeError("%s: array must have %d dimensions" % (name, dims))
            if not v.flags.c_contiguous:
                raise TypeError("%s: array must be contiguous" % name)
            n = v.size
            buf = (ct * max(n, 1))()
            raw = np.frombuffer(buf, dtype=dtype, count=n)
            raw[:] = v.ravel(order="C")

            def back():
                # numpy.i reinterprets the memory in Fortran order.
                v[...] = raw.reshape(v.shape, order="F" if fortran else "C")
            after.append(back)
        else:
            a = np.array(v, dtype=dtype, order="F" if fortran else "C", copy=True)
            if a.ndim != dims:
                raise TypeError("%s: array must have %d dimensions, given %d" % (name, dims, a.ndim))
            n = a.size
            buf = (ct * max(n, 1))()
            np.frombuffer(buf, dtype=dtype, count=n)[:] = a.ravel(order="F" if fortran else "C")
            v = a
        return [buf] + [ctypes.c_int(int(s)) for s in v.shape]

    def plain(self, name, how, v):
        t = how.replace("const ", "").strip()
        if t == "void *":
            if not isinstance(v, int):
                raise TypeError("%s: pointer required" % name)
            return ctypes.c_void_p(v)
        if t == "int":
            if isinstance(v, bool) or not isinstance(v, (int, np.integer)):
                raise TypeError("%s: integer required, given %s" % (name, type(v).__name__))
            if not -2**31 <= int(v) < 2**31:
                raise OverflowError("%s: value does not fit into an int" % name)
            return ctypes.c_int(int(v))
        if t == "double":
            if not isinstance(v, (int, float)):
                raise TypeError("%s: double required, given %s" % (name, type(v).__name__))
            return ctypes.c_double(float(v))
        if t == "int *":
            return ctypes.byref(v.box)
        base = t.replace("*", "").strip()
        if base in self.types and isinstance(v, self.structs[base]):
            return ctypes.byref(v)
        raise TypeError("%s: cannot convert %s to %s" % (name, type(v).__name__, how))


def load(repo, lib):
    """The wrapper module, on the stand-in."""
    b = Binding(repo, lib)
    source = open(repo + "/interfaces/python/ConexProgram.py").read()
    # The wrapper is Python 2; print is the only statement that differs.
    source = re.sub(r"^(\s*)print\s+(?!\()(.*)$", r"\1print(\2)", source, flags=re.M)
    source = re.sub(r"^\s*import\s+conex\s*$", "", source, flags=re.M)
    mod = types.ModuleType("ConexProgram")

    def to_float(x):
        # NumPy of that time converted arrays of one element.
        return x.item() if isinstance(x, np.ndarray) and x.size == 1 else __builtins_float(x)
    __builtins_float = float
    mod.__dict__.update({"conex": b.module(), "float": to_float})
    exec(compile(source, repo + "/interfaces/python/ConexProgram.py", "exec"), mod.__dict__)
    return mod, b
