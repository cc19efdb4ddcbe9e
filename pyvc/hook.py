"""import hook: every repo module is loaded from /repo's current source,
transformed (mode 'vc') or untouched (mode 'plain')."""
import importlib.abc
import importlib.machinery
import importlib.util
import sys
from . import rt, transform

PACKAGES = ("devpi_server", "devpi_common", "devpi_web", "devpi_postgresql", "devpi")
LOADED = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path).decode("utf-8")
        LOADED[fullname] = (path, transform.source_digest(src))
        return transform.compile_module(src, fullname, path)

    def exec_module(self, module):
        module.__dict__["__vc__"] = rt
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] not in PACKAGES:
            return None
        for f in sys.meta_path:
            if f is self or not hasattr(f, "find_spec"):
                continue
            spec = f.find_spec(name, path, target)
            if spec is not None:
                break
        else:
            return None
        if isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, Finder())
