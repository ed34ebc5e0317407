"""Saving and loading of a statistic."""
from ..harness import *
from ..values import SBool, SInt
from .. import core
import copy
import builtins

S = Suite("C15")
P = "turbustat/statistics/"
SUF = ".pkl"


class SStr:
    """a symbolic string (z3 sequences)"""

    def __init__(self, e):
        self.e = z3.StringVal(e) if isinstance(e, str) else e

    def _o(self, o):
        if isinstance(o, SStr):
            return o.e
        if isinstance(o, str):
            return z3.StringVal(o)
        raise Unsupported("string with %s" % type(o).__name__)

    def endswith(self, o):
        if isinstance(o, tuple):
            return SBool(Or_(*[z3.SuffixOf(self._o(p), self.e) for p in o]))
        return SBool(z3.SuffixOf(self._o(o), self.e))

    def startswith(self, o):
        return SBool(z3.PrefixOf(self._o(o), self.e))

    def __add__(self, o):
        return SStr(z3.Concat(self.e, self._o(o)))

    def __radd__(self, o):
        return SStr(z3.Concat(self._o(o), self.e))

    def __contains__(self, o):
        return bool(SBool(z3.Contains(self.e, self._o(o))))

    def __eq__(self, o):
        return SBool(self.e == self._o(o)) if isinstance(o, (str, SStr)) else False

    def __ne__(self, o):
        return SBool(self.e != self._o(o)) if isinstance(o, (str, SStr)) else True
    __hash__ = None

    def __getitem__(self, k):
        n = z3.Length(self.e)
        if not isinstance(k, slice) or k.step not in (None, 1):
            raise Unsupported("character of a string")

        def pos(v, d):
            if v is None:
                return d
            if not isinstance(v, int):
                raise Unsupported("slice of a string")
            return z3.If(n + v < 0, z3.IntVal(0), n + v) if v < 0 else z3.If(n < v, n, z3.IntVal(v))
        a, b = pos(k.start, z3.IntVal(0)), pos(k.stop, n)
        return SStr(z3.SubString(self.e, a, z3.If(b > a, b - a, 0)))

    def __format__(self, spec):
        raise Unsupported("formatting of a symbolic string")

    def __str__(self):
        raise Unsupported("conversion of a symbolic string")
    __repr__ = __str__

    def __fspath__(self):
        raise Unsupported("a file is reached outside of the stand-ins")

    def __getattr__(self, k):
        raise Unsupported("string method %s" % k)


class Blob:
    """the content of an attribute: nothing but its identity can be used"""

    def __init__(self, token):
        self.token, self.box = token, [token]

    def content(self):
        return (self.token, tuple(self.box))

    def __bool__(self):
        raise Unsupported("truth of an attribute")

    def __array__(self, *a, **k):
        raise Unsupported("an attribute used as an array")


def state(o):
    """the content of an object: class and attributes, deep"""
    if isinstance(o, Blob):
        return ("blob",) + o.content()
    if o is None or isinstance(o, (bool, int, float, str)):
        return ("value", o)
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(state(v) for v in o)
    if isinstance(o, dict):
        return ("dict",) + tuple(sorted((k, state(v)) for k, v in o.items()))
    if hasattr(o, "__dict__"):
        return ("object", type(o).__module__ + "." + type(o).__qualname__) + \
            tuple(sorted((k, state(v)) for k, v in vars(o).items()))
    raise Unsupported("content of %s" % type(o).__name__)


class Files:
    """ghost file system"""

    def __init__(self):
        self.stored = []        # (name, snapshot) in order of writing
        self.opened = []        # (name, mode)
        self.preset = []        # contents found on reading

    def open(self, name, mode="r", *a, **k):
        if not isinstance(name, SStr):
            raise Unsupported("file name of another kind")
        f = File(self, name, mode)
        self.opened.append((name, mode))
        if "w" in mode:
            self.stored.append([name, None])
            f.slot = self.stored[-1]
        return f


class File:
    def __init__(self, fs, name, mode):
        self.fs, self.name, self.mode, self.slot, self.closed = fs, name, mode, None, False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def write(self, snap):
        if not isinstance(snap, Snap) or self.slot is None:
            raise Unsupported("something else is written")
        if self.closed or self.mode not in ("wb", "bw", "w+b", "wb+") or self.slot[1] is not None:
            self.slot[1] = "damaged"
        else:
            self.slot[1] = snap

    def read(self, *a):
        if a:
            raise Unsupported("partial read")
        return self.fs.lookup(self)

    def flush(self):
        pass


class Snap:
    """a pickled object: its content at the time of pickling"""

    def __init__(self, o):
        self.obj = copy.deepcopy(o)
        self.state = state(o)

    def fresh(self):
        return copy.deepcopy(self.obj)


class Pickle:
    HIGHEST_PROTOCOL, DEFAULT_PROTOCOL = 5, 4
    PickleError = PicklingError = UnpicklingError = ValueError

    def __init__(self, fs):
        self.fs = fs

    def dump(self, o, f, *a, **k):
        if not isinstance(f, File):
            raise Unsupported("pickling to something else")
        f.write(Snap(o))

    def dumps(self, o, *a, **k):
        return Snap(o)

    def load(self, f, **k):
        if not isinstance(f, File) or f.closed or f.mode not in ("rb", "br"):
            raise Unsupported("loading from something else")
        return self.fs.lookup(f).fresh()

    def loads(self, s, **k):
        if not isinstance(s, Snap):
            raise Unsupported("loading from something else")
        return s.fresh()


class standins:
    """open and pickle of a module replaced by the ghost file system"""

    def __init__(self, fs, *mods):
        self.fs, self.mods, self.old = fs, mods, []

    def __enter__(self):
        for m in self.mods:
            if not hasattr(m, "pickle"):
                raise Unsupported("pickle is not used in %s" % m.__name__)
            self.old.append((m, m.__dict__.get("open", self), m.pickle))
            m.open, m.pickle = self.fs.open, Pickle(self.fs)
        return self

    def __exit__(self, *a):
        for m, o, p in self.old:
            if o is self:
                del m.open
            else:
                m.open = o
            m.pickle = p
        return False


def lookup(self, f):
    """what a file holds: one that was written, or an arbitrary object"""
    for n, s in reversed(self.stored):
        if bool(SBool(n.e == f.name.e)):
            if not isinstance(s, Snap):
                raise OSError("damaged file")
            return s
    for n, s in self.preset:
        if bool(SBool(n.e == f.name.e)):
            return s
    raise FileNotFoundError("no such file")


Files.lookup = lookup

# every statistic, with the attributes in which it keeps what was given
INPUTS = {
    "Wavelet": ("_data",), "DeltaVariance": ("_data",), "PowerSpectrum": ("_data", "weighted_data"),
    "MVC": ("_data", "_centroid", "_moment0", "_linewidth"), "Genus": ("_data",), "Tsallis": ("_data",),
    "StatMoments": ("_data",), "Bispectrum": ("_data",), "PDF": ("_data", "img"), "SCF": ("_data",),
    "VCA": ("_data",), "VCS": ("_data",), "PCA": ("_data",), "Dendrogram_Stats": ("_data",),
}
OTHER = ("_header", "_distance", "weights", "fit", "_ps1D", "result", "_anything")


def modules():
    from turbustat.statistics import base_statistic
    from turbustat.statistics.mvc import mvc
    return base_statistic, mvc


def saved(c, name):
    import turbustat.statistics as ts
    cls = getattr(ts, name)
    o = cls.__new__(cls)
    k = 0
    for a in INPUTS[name] + OTHER:
        k += 1
        o.__dict__[a] = Blob("content %d" % k)
    # some hold containers and plain settings
    o.__dict__["_settings"] = {"number": 3, "flag": True, "deep": [Blob("deep content")]}
    return cls, o


def name_of(c):
    e = z3.String("name")
    c.inputs["name"] = e
    c.assume(z3.Length(e) > 0)
    return SStr(e)


def keep_of(c):
    e = z3.Bool("keep_data")
    c.inputs["keep_data"] = e
    return SBool(e)


def save_contract(name):
    where = "mvc/mvc.py" if name == "MVC" else "base_statistic.py"

    @S.contract(P + where + ": save_results, load_results (" + name + ")", name="save_" + name.lower(), budget_s=60)
    def go(c):
        cls, o = saved(c, name)
        before = state(o)
        attrs = dict(vars(o))
        nm, keep = name_of(c), keep_of(c)
        fs = Files()
        other = SStr(z3.String("other_name"))
        with standins(fs, *modules()):
            r = outcome(o.save_results, nm, keep_data=keep) if c.choose() else outcome(o.save_results, nm, keep)
            ok = r[0] == "ok"
            c.prove("saving succeeds", ok)
            if not ok:
                return
            final = z3.If(z3.SuffixOf(z3.StringVal(SUF), nm.e), nm.e, z3.Concat(nm.e, z3.StringVal(SUF)))
            c.prove("the object is left as it was", state(o) == before and
                    list(vars(o)) == list(attrs) and all(vars(o)[k] is attrs[k] for k in attrs))
            c.prove("one file is written", len(fs.stored) == 1 and len(fs.opened) == 1)
            if len(fs.stored) != 1:
                return
            got, snap = fs.stored[0]
            c.prove("the file carries the given name", got.e == final)
            c.prove("the file name ends in the suffix", z3.SuffixOf(z3.StringVal(SUF), got.e))
            c.prove("the suffix is not added a second time", z3.Implies(z3.SuffixOf(z3.StringVal(SUF), nm.e), got.e == nm.e))
            c.prove("no other file is touched", z3.Implies(other.e != final, other.e != got.e))
            c.prove("an object is written", isinstance(snap, Snap))
            if not isinstance(snap, Snap):
                return
            expected(c, "written", snap.obj, o, name, keep)
            # reading it again, also after the object has changed
            o.__dict__["result"].box.append("changed later")
            o.__dict__["added"] = 1
            loaded = outcome(cls.load_results, SStr(got.e))
            c.prove("loading succeeds", loaded[0] == "ok")
            if loaded[0] != "ok":
                return
            c.prove("what is loaded is what was written", state(loaded[1]) == snap.state)
            c.prove("loading writes nothing", len(fs.stored) == 1 and fs.opened[-1][1] in ("rb", "br"))
            # and saving the loaded object gives the same file again
            n = len(fs.stored)
            again = outcome(loaded[1].save_results, SStr(z3.String("second_name")), keep_data=True)
            c.prove("what was loaded can be saved again", again[0] == "ok" and len(fs.stored) == n + 1)
            if again[0] == "ok" and len(fs.stored) == n + 1 and isinstance(fs.stored[-1][1], Snap):
                c.prove("nothing is lost by saving it again", fs.stored[-1][1].state == snap.state)


def expected(c, what, got, o, name, keep):
    c.prove(what + ": same class", type(got) is type(o))
    k = bool(keep)
    gone = () if k else INPUTS[name]
    have = vars(got)
    c.prove(what + ": same attributes", sorted(have) == sorted(vars(o)))
    for a, v in vars(o).items():
        if a not in have:
            continue
        if a in gone:
            c.prove("%s: the input is dropped (%s)" % (what, a), have[a] is None)
        elif a in INPUTS[name]:
            c.prove("%s: the input is kept (%s)" % (what, a), state(have[a]) == state(v))
        else:
            c.prove("%s: %s is kept" % (what, a), state(have[a]) == state(v))


for _n in INPUTS:
    save_contract(_n)


@S.contract(P + "base_statistic.py: save_results (default)", name="default", budget_s=60)
def default(c):
    cls, o = saved(c, "SCF")
    nm = name_of(c)
    fs = Files()
    with standins(fs, *modules()):
        r = outcome(o.save_results, output_name=nm)
        c.prove("saving succeeds", r[0] == "ok")
        if r[0] != "ok" or len(fs.stored) != 1 or not isinstance(fs.stored[0][1], Snap):
            c.prove("one file is written", False)
            return
        expected(c, "by default", fs.stored[0][1].obj, o, "SCF", False)


@S.contract(P + "base_statistic.py: load_results", name="load", budget_s=60)
def load(c):
    """an arbitrary file: what it holds is given back; a missing file is an error"""
    import turbustat.statistics as ts
    nm = name_of(c)
    fs = Files()
    cls, o = saved(c, "Wavelet")
    snap = Snap(o)
    fs.preset.append((SStr(z3.String("stored_name")), snap))
    with standins(fs, *modules()):
        r = outcome(ts.Wavelet.load_results, nm)
        there = bool(SBool(nm.e == z3.String("stored_name")))
        if there:
            c.prove("what the file holds is given back", r[0] == "ok" and state(r[1]) == snap.state)
        else:
            c.prove("a missing file is an error", r[0] == "exc")
        c.prove("nothing is written", not fs.stored)
