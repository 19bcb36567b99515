"""Files in memory with the assumed contracts of json, yaml and pickle.

Assumed: what json or yaml wrote reads back as an equal value composed of
dictionaries with string keys, lists, strings, numbers, booleans and None (json
reads tuples as lists and refuses other types, the safe loader of yaml refuses
what it cannot represent), and pickle reads back a structural copy."""
from .ptshim import NS
from .symarray import Arr, ArrList, from_fn
from .terms import Num, SBool, Unsupported


class Text:
    def __init__(self, kind, data):
        self.kind = kind
        self.data = data


class Refused:
    """Written, but refused when it is read."""


class MemFile:
    def __init__(self, files, name, mode):
        self.files, self.name, self.mode = files, name, mode
        self.closed = False
        if "r" in mode and name not in files:
            raise FileNotFoundError(name)
        if "w" in mode:
            files[name] = None
        elif "r" not in mode:
            raise Unsupported("file mode " + mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def write(self, t):
        if self.closed or "w" not in self.mode:
            raise ValueError("not writable")
        if not isinstance(t, Text):
            raise Unsupported("writing %s" % type(t).__name__)
        if (t.kind == "pickle") != ("b" in self.mode):
            raise TypeError("text and binary mode")
        if self.files[self.name] is not None:
            raise Unsupported("file of several parts")
        self.files[self.name] = t

    def read(self):
        if self.closed or "r" not in self.mode:
            raise ValueError("not readable")
        t = self.files[self.name]
        if t is None:
            raise EOFError()
        if (t.kind == "pickle") != ("b" in self.mode):
            raise ValueError("text and binary mode")
        return t


def plain(x, kind):
    """Value as it will be read."""
    if x is None or isinstance(x, (str, bool, int, float, Num, SBool)):
        return x
    if isinstance(x, dict):
        r = {}
        for k, v in x.items():
            if not isinstance(k, str):
                raise Unsupported("key of type %s" % type(k).__name__)
            r[k] = plain(v, kind)
        return r
    if isinstance(x, ArrList):
        return x.copy()
    if getattr(x, "segs", None):
        raise Unsupported("list of symbolic length")
    if isinstance(x, list) or isinstance(x, tuple) and kind == "json":
        return [plain(v, kind) for v in x]
    if kind == "json":
        raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)
    return Refused()


def refuse(x):
    if isinstance(x, Refused):
        raise ValueError("could not determine a constructor for the tag")
    if isinstance(x, ArrList):
        return
    if isinstance(x, dict):
        x = x.values()
    if not isinstance(x, str) and hasattr(x, "__iter__"):
        for v in x:
            refuse(v)


def structural_copy(x, memo):
    if x is None or isinstance(x, (str, bool, int, float, Num, SBool, type)):
        return x
    if id(x) in memo:
        return memo[id(x)][1]
    if isinstance(x, Arr):
        r = from_fn(x.shape, x.snap())
    elif isinstance(x, ArrList):
        r = x.copy()
    elif isinstance(x, tuple):
        r = tuple(structural_copy(v, memo) for v in x)
    elif isinstance(x, list) and not getattr(x, "segs", None):
        r = [structural_copy(v, memo) for v in x]
    elif isinstance(x, dict):
        r = {k: structural_copy(v, memo) for k, v in x.items()}
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("movement_primitives") and not any(
            n in c.__dict__ for c in type(x).__mro__[:-1]
            for n in ("__getstate__", "__setstate__", "__reduce__", "__reduce_ex__",
                      "__getnewargs__")) and not any(
            c.__dict__.get("__slots__") for c in type(x).__mro__):
        r = type(x).__new__(type(x))
        memo[id(x)] = (x, r)
        for k, v in x.__dict__.items():
            r.__dict__[k] = structural_copy(v, memo)
    else:
        raise Unsupported("pickle of %s" % type(x).__name__)
    memo[id(x)] = (x, r)
    return r


def make_files():
    files = {}

    def dumps(kind):
        def f(x, *a, **k):
            return Text(kind, structural_copy(x, {}) if kind == "pickle" else plain(x, kind))
        return f

    def dump(kind):
        def f(x, stream=None, *a, **k):
            t = dumps(kind)(x)
            if stream is None and kind == "yaml":
                return t
            stream.write(t)
        return f

    def loads(kind):
        def f(t, *a, **k):
            if hasattr(t, "read"):
                t = t.read()
            if not isinstance(t, Text):
                raise Unsupported("reading %s" % type(t).__name__)
            if t.kind != kind:
                raise ValueError("not in format " + kind)
            if kind == "pickle":
                return structural_copy(t.data, {})
            refuse(t.data)
            return plain(t.data, kind)
        return f

    def open_(name, mode="r", *a, **k):
        return MemFile(files, name, mode)
    return dict(
        files=files, open=open_,
        json=NS("json", dump=dump("json"), dumps=dumps("json"), load=loads("json"),
                loads=loads("json")),
        pickle=NS("pickle", dump=dump("pickle"), dumps=dumps("pickle"), load=loads("pickle"),
                  loads=loads("pickle"), HIGHEST_PROTOCOL=5, DEFAULT_PROTOCOL=5),
        yaml=NS("yaml", dump=dump("yaml"), safe_load=loads("yaml")))
