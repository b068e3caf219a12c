"""In-memory models of h5py files and of text files written by the package."""
from fractions import Fraction

from . import arrays as A
from . import cas
from .arrays import AbsRaise, Arr, Base, Ctx, Unsupported, getitem
from .cas import E, Expr, const
from .interp import EXC, GenList, Inst, ModelFn, ModelModule, Obj, token

VFS = {}          # name -> H5Group (root) or str
LOG = []          # ("create"/"open"/"write", name)


def reset():
    VFS.clear()
    del LOG[:]


def raise_(t, msg):
    raise AbsRaise(t, msg, Ctx.where())


def snapshot(x, m, dtype=None):
    """content of x now, as an independent array (0-d for scalars)"""
    from .models import arr_like_d
    if isinstance(x, H5Dataset):
        x = x.arr
    a = arr_like_d(x)
    r = A.copy(a, dtype)
    return r


def path_str(it, n):
    if isinstance(n, PathV):
        return n.s
    if not isinstance(n, str):
        raise_("TypeError", "path must be a string")
    return n


def vfs_remove(p, missing_ok=False):
    if p not in VFS and not missing_ok:
        raise_("FileNotFoundError", p)
    VFS.pop(p, None)
    LOG.append(("remove", p))


def vfs_move(a, b):
    if a not in VFS:
        raise_("FileNotFoundError", a)
    VFS[b] = VFS.pop(a)
    LOG.append(("move " + a, b))


class ETElem(Obj):
    """xml.etree.ElementTree.Element over concrete strings"""
    tname = "Element"

    def __init__(self, el):
        self.el = el

    def getattr(self, it, n):
        el = self.el
        if n in ("text", "tail", "tag"):
            return getattr(el, n)
        if n == "attrib":
            return el.attrib
        if n == "set":
            return ModelFn(n, lambda k, v: el.set(et_s(k), et_s(v)))
        if n == "get":
            return ModelFn(n, lambda k, d=None: el.get(k, d))
        if n == "append":
            return ModelFn(n, lambda c: el.append(c.el))
        if n == "extend":
            return ModelFn(n, lambda cs: [el.append(c.el) for c in it.iterate(cs)] and None)
        if n in ("find",):
            return ModelFn(n, lambda p: (lambda r: None if r is None else ETElem(r))(el.find(p)))
        if n in ("findall", "iter"):
            return ModelFn(n, lambda *a: GenList([ETElem(c) for c in getattr(el, n)(*a)]))
        raise KeyError(n)

    def setattr(self, it, n, v):
        if n not in ("text", "tail", "tag"):
            raise Unsupported("Element." + n)
        setattr(self.el, n, None if v is None else et_s(v))

    def iter(self, it):
        return [ETElem(c) for c in self.el]

    def len(self, it):
        return len(self.el)


def et_s(x):
    if not isinstance(x, str):
        raise_("TypeError", "cannot serialize %r" % (x,))
    return x


class ETree(Obj):
    tname = "ElementTree"

    def __init__(self, root):
        self.root = root

    def getattr(self, it, n):
        if n == "getroot":
            return ModelFn(n, lambda: self.root)
        if n == "write":
            def w(f, encoding=None, xml_declaration=None, method=None, short_empty_elements=True, **k):
                import xml.etree.ElementTree as ET
                t = ET.tostring(self.root.el, encoding="unicode", short_empty_elements=short_empty_elements)
                if xml_declaration or (xml_declaration is None and encoding not in (None, "unicode", "utf-8", "us-ascii", "UTF-8", "US-ASCII")):
                    t = '<?xml version="1.0" ?>\n' + t
                if isinstance(f, TextFile):
                    f._w(it, t)
                else:
                    TextFile(path_str(it, f), "w")._w(it, t)
            return ModelFn(n, w)
        raise KeyError(n)


def et_module(it):
    import xml.etree.ElementTree as ET

    def elem(tag, attrib=None, **k):
        d = dict(attrib or {}, **k)
        return ETElem(ET.Element(et_s(tag), {et_s(a): et_s(b) for a, b in d.items()}))

    def sub(parent, tag, attrib=None, **k):
        e = elem(tag, attrib, **k)
        parent.el.append(e.el)
        return e

    def tostring(e, encoding=None, short_empty_elements=True, **k):
        if encoding != "unicode":
            raise Unsupported("ElementTree.tostring to bytes")
        return ET.tostring(e.el, encoding="unicode", short_empty_elements=short_empty_elements)

    def fromstring(t):
        try:
            return ETElem(ET.fromstring(t))
        except ET.ParseError as x:
            raise_("ParseError", str(x))

    def indent(t, space="  ", level=0):
        ET.indent(t.root.el if isinstance(t, ETree) else t.el, space, level)
    return ModelModule("xml.etree.ElementTree", {
        "Element": ModelFn("Element", elem), "SubElement": ModelFn("SubElement", sub), "tostring": ModelFn("tostring", tostring),
        "fromstring": ModelFn("fromstring", fromstring), "XML": ModelFn("XML", fromstring), "indent": ModelFn("indent", indent),
        "ElementTree": ModelFn("ElementTree", ETree)})


class PathV(Obj):
    """pathlib.Path"""
    tname = "Path"

    def __init__(self, s):
        self.s = s

    def binop(self, it, op, a, b):
        if op == "truediv":
            l = a.s if isinstance(a, PathV) else a
            r = b.s if isinstance(b, PathV) else b
            return PathV(l.rstrip("/") + "/" + r if l else r)
        raise Unsupported("Path operator " + op)

    def getattr(self, it, n):
        import posixpath
        base = posixpath.basename(self.s)
        stem, ext = posixpath.splitext(base)
        d = posixpath.dirname(self.s)
        if n == "name":
            return base
        if n == "stem":
            return stem
        if n == "suffix":
            return ext
        if n == "parent":
            return PathV(d or ".")
        if n == "with_suffix":
            return ModelFn(n, lambda s: PathV(posixpath.join(d, stem + s)))
        if n == "with_stem":
            return ModelFn(n, lambda s: PathV(posixpath.join(d, s + ext)))
        if n == "joinpath":
            return ModelFn(n, lambda *a: PathV(posixpath.join(self.s, *[path_str(it, x) for x in a])))
        if n in ("resolve", "absolute", "expanduser"):
            return ModelFn(n, lambda *a, **k: self)
        if n in ("is_file",):
            return ModelFn(n, lambda: self.s in VFS)
        if n == "mkdir":
            return ModelFn(n, lambda *a, **k: None)
        if n == "unlink":
            return ModelFn(n, lambda missing_ok=False: vfs_remove(self.s, missing_ok))
        if n in ("rename", "replace"):
            return ModelFn(n, lambda t: vfs_move(self.s, path_str(it, t)))
        if n == "read_text":
            def r(**k):
                if not isinstance(VFS.get(self.s), str):
                    raise_("FileNotFoundError", self.s)
                return VFS[self.s]
            return ModelFn(n, r)
        if n == "with_name":
            return ModelFn(n, lambda s: PathV(posixpath.join(d, s)))
        if n == "as_posix":
            return ModelFn(n, lambda: self.s)
        if n == "write_text":
            def w(t, **k):
                VFS[self.s] = t
                LOG.append(("write", self.s))
                return len(t)
            return ModelFn(n, w)
        if n == "exists":
            return ModelFn(n, lambda: self.s in VFS)
        if n == "open":
            return ModelFn(n, lambda mode="r", **k: TextFile(self.s, mode))
        raise KeyError(n)

    def fmt(self):
        return self.s


class Attrs(Obj):
    tname = "h5py attributes"

    def __init__(self, node):
        self.node = node
        self.d = {}

    def getitem(self, it, k):
        if k not in self.d:
            raise_("KeyError", "can't open attribute %r" % (k,))
        v = self.d[k]
        return A.copy(v) if isinstance(v, Arr) else v

    def setitem(self, it, k, v):
        self.node.writable()
        if isinstance(v, (Arr, list, tuple)):
            v = snapshot(v, it.models)
        self.d[k] = v

    def contains(self, it, k):
        return k in self.d

    def iter(self, it):
        return list(self.d)

    def len(self, it):
        return len(self.d)

    def getattr(self, it, n):
        if n == "get":
            return ModelFn(n, lambda k, d=None: self.getitem(it, k) if k in self.d else d)
        if n in ("create", "modify"):
            def cr(name, data, shape=None, dtype=None):
                if dtype is not None and isinstance(data, (Arr, list, tuple)):
                    from .models import dtype_name
                    data = snapshot(data, it.models, dtype_name(dtype))
                self.setitem(it, name, data)
            return ModelFn(n, cr)
        if n == "keys":
            return ModelFn(n, lambda: GenList(self.d))
        if n == "items":
            return ModelFn(n, lambda: GenList((k, self.getitem(it, k)) for k in self.d))
        if n == "update":
            def up(*a, **k):
                for x in a:
                    for kk, v in x.items():
                        self.setitem(it, kk, v)
                for kk, v in k.items():
                    self.setitem(it, kk, v)
            return ModelFn(n, up)
        raise KeyError(n)


class H5Node(Obj):
    def __init__(self, root, path):
        self.root, self.path = root or self, path
        self.attrs_ = Attrs(self)

    def writable(self):
        if not self.root.open_:
            raise_("ValueError", "not a location (file is closed)")
        if self.root.mode == "r":
            raise_("OSError", "file is open read-only")

    def readable(self):
        if not self.root.open_:
            raise_("ValueError", "not a location (file is closed)")


class H5Dataset(H5Node):
    tname = "h5py dataset"

    def __init__(self, root, path, arr):
        super().__init__(root, path)
        self.arr = arr

    def getitem(self, it, i):
        self.readable()
        if isinstance(i, tuple) and len(i) == 0:
            i = Ellipsis
        v = getitem(self.arr, i)
        return A.copy(v) if isinstance(v, Arr) else v

    def setitem(self, it, i, v):
        self.writable()
        if isinstance(i, tuple) and len(i) == 0:
            i = Ellipsis
        A.setitem(self.arr, i, v)

    def len(self, it):
        return it.models.b_len(self.arr)

    def getattr(self, it, n):
        if n == "attrs":
            return self.attrs_
        if n == "name":
            return "/" + self.path
        if n in ("shape", "dtype", "ndim", "size"):
            return it.models.arr_attr(self.arr, n)
        if n == "read_direct":
            def rd(dest, source_sel=None, dest_sel=None):
                v = self.arr if source_sel is None else getitem(self.arr, source_sel)
                d = dest if dest_sel is None else getitem(dest, dest_sel)
                A.assign(d, v)
            return ModelFn(n, rd)
        if n == "write_direct":
            def wd(src, source_sel=None, dest_sel=None):
                self.writable()
                v = src if source_sel is None else getitem(src, source_sel)
                A.assign(self.arr if dest_sel is None else getitem(self.arr, dest_sel), v)
            return ModelFn(n, wd)
        if n == "astype":
            return ModelFn(n, lambda d: H5Dataset(self.root, self.path, A.copy(self.arr, it.models_dtype(d))))
        if n == "file":
            return self.root
        raise KeyError(n)

    def iter(self, it):
        return it.iterate(A.copy(self.arr))

    def as_array(self):
        self.readable()
        return A.copy(self.arr)


class H5Group(H5Node):
    tname = "h5py group"

    def __init__(self, root, path):
        super().__init__(root, path)
        self.ch = {}

    # ---- path handling
    def _parts(self, p):
        if not isinstance(p, str):
            raise_("TypeError", "accessing a group is done with str")
        return [x for x in p.split("/") if x]

    def find(self, p):
        n = self.root if p.startswith("/") else self
        for x in self._parts(p):
            if not isinstance(n, H5Group) or x not in n.ch:
                return None
            n = n.ch[x]
        return n

    def mk(self, p, last):
        self.writable()
        n = self.root if p.startswith("/") else self
        parts = self._parts(p)
        if not parts:
            raise_("ValueError", "unable to create (empty name)")
        for x in parts[:-1]:
            if x not in n.ch:
                n.ch[x] = H5Group(self.root, (n.path + "/" + x).lstrip("/"))
            n = n.ch[x]
            if not isinstance(n, H5Group):
                raise_("ValueError", "component is not a group")
        if parts[-1] in n.ch:
            raise_("ValueError", "unable to create %s (name already exists)" % p)
        node = last((n.path + "/" + parts[-1]).lstrip("/"))
        n.ch[parts[-1]] = node
        return node

    def create_group(self, p, track_order=None):
        return self.mk(p, lambda q: H5Group(self.root, q))

    def create_dataset(self, it, p, shape=None, dtype=None, data=None, **k):
        from .models import dtype_name, filled
        dn = dtype_name(dtype) if dtype is not None else None
        bad = set(k) - {"chunks", "compression", "compression_opts", "shuffle", "fletcher32", "maxshape", "track_times", "track_order", "fillvalue"}
        if bad:
            raise Unsupported("create_dataset option %s" % sorted(bad))
        if data is not None:
            a = snapshot(data, it.models, dn)
            if shape is not None:
                sh = tuple(E(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
                if tuple(a.shape) != sh:
                    a = A.copy(it.models.reshape_(a, sh)) if hasattr(it.models, "reshape_") else A.copy(A.reshape(a, sh))
        elif shape is not None:
            a = filled(shape if isinstance(shape, (tuple, list)) else (shape,), dn or "float32", 0)
        else:
            raise_("TypeError", "one of data, shape or dtype must be specified")
        return self.mk(p, lambda q: H5Dataset(self.root, q, a))

    def getitem(self, it, p):
        self.readable()
        n = self.find(p) if isinstance(p, str) else None
        if n is None:
            raise_("KeyError", "unable to open object %r" % (p,))
        return n

    def setitem(self, it, p, v):
        if isinstance(v, H5Node):
            raise Unsupported("h5py link")
        self.create_dataset(it, p, data=v)

    def delitem(self, it, p):
        self.writable()
        n = self
        parts = self._parts(p)
        for x in parts[:-1]:
            n = n.ch[x]
        if parts[-1] not in n.ch:
            raise_("KeyError", "couldn't delete link")
        del n.ch[parts[-1]]

    def contains(self, it, p):
        self.readable()
        return self.find(p) is not None

    def iter(self, it):
        return sorted(self.ch)

    def len(self, it):
        return len(self.ch)

    def walk(self, pre=""):
        for k in sorted(self.ch):
            yield pre + k, self.ch[k]
            if isinstance(self.ch[k], H5Group):
                yield from self.ch[k].walk(pre + k + "/")

    def visit(self, it, f, items=False):
        for p, n in list(self.walk()):
            r = it.call(f, [p, n] if items else [p], {})
            if r is not None:
                return r
        return None

    def getattr(self, it, n):
        if n == "attrs":
            return self.attrs_
        if n == "name":
            return "/" + self.path
        if n == "create_group":
            return ModelFn(n, self.create_group)
        if n == "require_group":
            return ModelFn(n, lambda p: self.find(p) if self.find(p) is not None else self.create_group(p))
        if n == "create_dataset":
            return ModelFn(n, lambda *a, **k: self.create_dataset(it, *a, **k))
        if n == "require_dataset":
            return ModelFn(n, lambda p, shape=None, dtype=None, **k: self.find(p) or self.create_dataset(it, p, shape, dtype, **k))
        if n == "visit":
            return ModelFn(n, lambda f: self.visit(it, f))
        if n == "visititems":
            return ModelFn(n, lambda f: self.visit(it, f, True))
        if n == "keys":
            return ModelFn(n, lambda: GenList(sorted(self.ch)))
        if n == "values":
            return ModelFn(n, lambda: GenList(self.ch[k] for k in sorted(self.ch)))
        if n == "items":
            return ModelFn(n, lambda: GenList((k, self.ch[k]) for k in sorted(self.ch)))
        if n == "get":
            return ModelFn(n, lambda p, d=None: self.find(p) if self.find(p) is not None else d)
        if n == "file":
            return self.root
        if n == "parent":
            return self.root.find(self.path.rpartition("/")[0]) or self.root
        raise KeyError(n)


class H5File(H5Group):
    tname = "h5py file"

    def __init__(self, name):
        self.open_, self.mode, self.fname = True, "w", name
        super().__init__(None, "")

    def enter(self, it):
        return self

    def exit(self, it):
        self.open_ = False

    def truth(self):
        return self.open_

    def getattr(self, it, n):
        if n == "close":
            return ModelFn(n, lambda: self.exit(it))
        if n == "flush":
            return ModelFn(n, lambda: None)
        if n == "filename":
            return self.fname
        if n == "mode":
            return self.mode
        return super().getattr(it, n)


def open_h5(it, name, mode="r", **k):
    name = path_str(it, name)
    bad = set(k) - {"libver", "driver", "swmr", "track_order", "locking"}
    if bad:
        raise Unsupported("h5py.File option %s" % sorted(bad))
    have = VFS.get(name)
    if have is not None and not isinstance(have, H5File):
        raise_("OSError", "not an HDF5 file")
    if mode in ("r", "r+"):
        if have is None:
            raise_("FileNotFoundError", "unable to open file %r" % name)
        f = have
    elif mode in ("w-", "x"):
        if have is not None:
            raise_("FileExistsError", "unable to create file %r" % name)
        f = VFS[name] = H5File(name)
    elif mode == "w":
        if have is not None and have.open_:
            raise_("OSError", "unable to truncate a file which is already open")
        f = VFS[name] = H5File(name)
    elif mode == "a":
        f = VFS[name] = have or H5File(name)
    else:
        raise_("ValueError", "invalid mode")
    LOG.append(("h5 " + mode, name))
    f.mode = "r" if mode == "r" else "r+"
    f.open_ = True
    return f


class TextFile(Obj):
    tname = "text file"

    def __init__(self, name, mode="r"):
        self.name = name
        self.mode = mode
        if "b" in mode or mode.strip("t+") not in ("r", "w", "a", "x"):
            raise Unsupported("open mode " + mode)
        m = mode[0]
        if m == "r":
            if not isinstance(VFS.get(name), str):
                raise_("FileNotFoundError", name)
        elif m == "w" or name not in VFS:
            VFS[name] = ""
        LOG.append(("open " + m, name))

    def enter(self, it):
        return self

    def exit(self, it):
        pass

    def _w(self, it, s):
        if self.mode[0] == "r":
            raise_("OSError", "not writable")
        if not isinstance(s, str):
            raise_("TypeError", "write() argument must be str")
        VFS[self.name] += s
        return len(s)

    def getattr(self, it, n):
        if n == "write":
            return ModelFn(n, lambda s: self._w(it, s))
        if n == "writelines":
            return ModelFn(n, lambda ls: [self._w(it, s) for s in it.iterate(ls)] and None)
        if n == "read":
            return ModelFn(n, lambda: VFS[self.name])
        if n in ("close", "flush"):
            return ModelFn(n, lambda: None)
        if n == "name":
            return self.name
        raise KeyError(n)


def open_file(it, name, mode="r", *a, **k):
    return TextFile(path_str(it, name), mode)


def array2string(it, x, k):
    """numbers of an array printed in brackets; symbolic entries become tokens.  Floating values
    remember the printed precision so that a loss of digits shows."""
    from .models import arr_like_d
    a = arr_like_d(x)
    bad = set(k) - {"precision", "separator", "max_line_width", "suppress_small", "floatmode", "threshold", "prefix", "formatter", "sign"}
    if bad or "formatter" in k:
        raise Unsupported("array2string option %s" % sorted(bad or ["formatter"]))
    sep = k.get("separator", " ")
    prec = k.get("precision", 8)
    if prec is None:
        prec = 8

    def one(v):
        e = E(v)
        if a.dtype in A.INTS + ("bool",):
            return str(int(e.value)) if e.is_const else token(e)
        if e.is_const:
            v = e.value
            s = repr(round(float(v), int(prec)))
            return s
        return token(cas.fn("digits:%d" % int(prec), e))

    def rec(b):
        if b.nd == 0:
            ps = b.pieces()
            return one(A.simp_in_box(ps[0][1], ps[0][0])) if len(ps) == 1 else one(it.models.item(b))
        if not b.shape[0].is_const:
            raise Unsupported("array2string of symbolic length")
        parts = []
        for i in range(int(b.shape[0].value)):
            v = getitem(b, i)
            parts.append(rec(v) if isinstance(v, Arr) and v.nd else one(scalar_of(it, v)))
        return "[" + sep.join(parts) + "]"
    if a.nd == 0:
        return one(scalar_of(it, a))
    return rec(a)


def scalar_of(it, v):
    if isinstance(v, Arr):
        ps = v.pieces()
        if len(ps) != 1:
            raise Unsupported("piecewise scalar")
        return ps[0][1]
    return v


def setup(M):
    it = M.it
    M.mods["h5py"] = ModelModule("h5py", {"File": ModelFn("h5py.File", open_h5, interp=True)})
    M.mods["pathlib"] = ModelModule("pathlib", {"Path": ModelFn("Path", lambda s="", *a: PathV("/".join([path_str(it, s)] + [path_str(it, x) for x in a]))),
                                                "PurePath": ModelFn("Path", lambda s="": PathV(path_str(it, s)))})
    M.builtins["open"] = ModelFn("open", open_file, interp=True)
    import posixpath
    s = lambda x: path_str(it, x)
    P = ModelModule("os.path", {
        "splitext": ModelFn("splitext", lambda p: posixpath.splitext(s(p))), "basename": ModelFn("basename", lambda p: posixpath.basename(s(p))),
        "dirname": ModelFn("dirname", lambda p: posixpath.dirname(s(p))), "join": ModelFn("join", lambda *a: posixpath.join(*[s(x) for x in a])),
        "abspath": ModelFn("abspath", s), "realpath": ModelFn("realpath", s), "normpath": ModelFn("normpath", lambda p: posixpath.normpath(s(p))),
        "isdir": ModelFn("isdir", lambda p: True), "isabs": ModelFn("isabs", lambda p: posixpath.isabs(s(p))),
        "split": ModelFn("split", lambda p: posixpath.split(s(p))), "exists": ModelFn("exists", lambda p: s(p) in VFS),
        "isfile": ModelFn("isfile", lambda p: s(p) in VFS)})
    if "os" not in M.mods:
        M.mods["os"] = ModelModule("os", {})
    osm = M.mods["os"]
    if isinstance(osm, ModelModule):
        osm.attrs["path"] = P
        osm.attrs.setdefault("fspath", ModelFn("fspath", s))
        osm.attrs["replace"] = osm.attrs["rename"] = ModelFn("replace", lambda a, b: vfs_move(s(a), s(b)))
        osm.attrs["remove"] = osm.attrs["unlink"] = ModelFn("remove", lambda a: vfs_remove(s(a)))
        osm.attrs.setdefault("makedirs", ModelFn("makedirs", lambda *a, **k: None))
        osm.attrs.setdefault("sep", "/")
    etm = et_module(it)
    M.mods["xml.etree.ElementTree"] = etm
    M.mods["xml.etree"] = ModelModule("xml.etree", {"ElementTree": etm})
    M.mods["xml"] = ModelModule("xml", {"etree": M.mods["xml.etree"], "sax": ModelModule("xml.sax", {})})
    from xml.sax import saxutils as su
    M.mods["xml.sax.saxutils"] = ModelModule("xml.sax.saxutils", {k: ModelFn(k, getattr(su, k)) for k in ("escape", "quoteattr", "unescape")})
    M.mods["os.path"] = P
