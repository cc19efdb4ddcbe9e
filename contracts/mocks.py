"""environment objects used by contracts"""
from pyvc import ctx as _ctx


class Obj:
    """Attribute bag standing for an object of the environment.

    Asking it for something the contract says nothing about ends the path as
    "outside the contract" (undecided), never as a violation."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__") or n.startswith("vc_") or n in self.__dict__.get("_absent", ()):
            raise AttributeError(n)
        _ctx.mock_missing("%s.%s" % (self.__dict__.get("_name", "Obj"), n))


class CM:
    """context manager around a value"""

    def __init__(self, value=None, enter=None, exit=None):  # noqa: A002
        self.value, self._e, self._x = value, enter, exit

    def __enter__(self):
        if self._e is not None:
            self._e()
        return self.value

    def __exit__(self, *a):
        if self._x is not None:
            return self._x(*a)
        return False


class NullLog:
    """logger: every method does nothing"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "around":
            return lambda *a, **k: CM(self)
        return lambda *a, **k: None


class Raiser:
    """any use is an error"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, n):
        raise AssertionError("unexpected use of %s.%s" % (self.__dict__["_n"], n))

    def __call__(self, *a, **k):
        raise AssertionError("unexpected call of %s" % self.__dict__["_n"])
