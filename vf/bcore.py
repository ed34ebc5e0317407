"""What a bounded (run-time contract) module needs."""


class Violation(Exception):
    pass


class Known(Violation):
    """a failure that looks exactly like a recorded finding; whether it is one is decided
    by known_findings.json"""

    def __init__(self, ident, message):
        super().__init__("%s [%s]" % (message, ident))
        self.ident = ident


class Skip(Exception):
    pass


def registry():
    CHECKS = []

    def check(target, quick=20, thorough=None, bound="", **kw):
        def deco(fn):
            CHECKS.append(dict(name=fn.__name__, fn=fn, target=target, quick=quick,
                               thorough=thorough or quick * 12, bound=bound, **kw))
            return fn
        return deco
    return CHECKS, check


BARE = []


def bare(cls):
    """an object without its constructor: an attribute it turns out to lack is a gap of
    the harness, not a defect of the code"""
    o = cls.__new__(cls)
    BARE.append(o)
    del BARE[:-200]
    return o


def gap(e):
    """did the harness fail to provide an attribute the code wants?"""
    if not isinstance(e, AttributeError):
        return False
    o = getattr(e, "obj", None)
    if any(o is b for b in BARE):
        return True
    t = type(o)
    return t.__name__ == "SimpleNamespace" or t.__module__.startswith("vf.")


def missing(e):
    """a public attribute that an object of the repository lacks"""
    n = getattr(e, "name", None)
    return isinstance(e, AttributeError) and n and not n.startswith("_") and \
        type(getattr(e, "obj", None)).__module__.startswith("turbustat")
