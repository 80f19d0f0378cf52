"""Environment set-up shared by every check.

The code under test is always /repo's working tree, compiled from source on every run: cached bytecode is never
read or written, so a check sees exactly what the files say now, and leaves nothing behind in /repo.
"""
import importlib.machinery
import importlib.util
import os
import resource
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.dont_write_bytecode = True


class _FreshLoader(importlib.machinery.SourceFileLoader):
    def path_stats(self, path):
        raise OSError("bytecode caching disabled")


class _FreshFinder:
    """Finds mediagrains in /repo only, and always compiles it from source."""

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name != "mediagrains" and not name.startswith("mediagrains."):
            return None
        rel = name.replace(".", "/")
        base = os.path.join(REPO, rel)
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, fn, loader=_FreshLoader(name, fn),
                                                          submodule_search_locations=[base])
        fn = base + ".py"
        if os.path.isfile(fn):
            return importlib.util.spec_from_file_location(name, fn, loader=_FreshLoader(name, fn))
        return None


def setup():
    if not any(f is _FreshFinder for f in sys.meta_path):
        sys.meta_path.insert(0, _FreshFinder)
    import warnings
    warnings.simplefilter("ignore")
    # A change that allocates without bound must end as an exception in the case that provoked it.
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_AS)
        lim = 6 << 30
        if hard == resource.RLIM_INFINITY or hard > lim:
            resource.setrlimit(resource.RLIMIT_AS, (lim, hard))
    except (ValueError, OSError):
        pass


setup()
