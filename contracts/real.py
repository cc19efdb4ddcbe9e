"""the real storage and server objects in a scratch directory (bounded stand-ins)"""
import contextlib
import os
import shutil
import tempfile

_warm = []


def warm():
    if not _warm:
        import devpi_server.config  # noqa: F401
        import devpi_server.main  # noqa: F401
        import devpi_server.model  # noqa: F401
        _warm.append(1)


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="pyvc-")
    try:
        yield d
    finally:
        if os.path.basename(d).startswith("pyvc-"):
            shutil.rmtree(d, ignore_errors=True)


def storage(kind):
    warm()
    if kind == "sqlite":
        from devpi_server.keyfs_sqlite_fs import Storage
    else:
        from devpi_server.keyfs_sqlite import Storage
    return Storage


def mk_keyfs(path, kind="sqlite", cache_size=10000):
    from devpi_server.keyfs import KeyFS
    k = KeyFS(path, storage(kind), cache_size=cache_size)
    k.finalize_init()
    return k


def jsonish(c, name, depth=2):
    """random nested value"""
    t = c.pick(name + ".t", ["int", "str", "list", "dict", "none", "tuple", "bool"])
    if t == "int":
        return c.int(name)
    if t == "bool":
        return c.bool(name)
    if t == "none":
        return None
    if t == "str" or depth == 0:
        return c.str(name)
    n = c.pick(name + ".n", [0, 1, 2])
    if t == "dict":
        return {c.pick("%s.k%d" % (name, i), ["x", "y", "z"]): jsonish(c, "%s.%d" % (name, i), depth - 1)
                for i in range(n)}
    xs = [jsonish(c, "%s.%d" % (name, i), depth - 1) for i in range(n)]
    return tuple(xs) if t == "tuple" else xs
