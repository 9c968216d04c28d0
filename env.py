"""import environment of every tool in /verif: metalift from /repo, its
dependencies from the project's own virtual environment"""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("METALIFT_REPO", "/repo")
os.environ["METALIFT_REPO"] = REPO
for p in (REPO, HERE):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
_sp = "/opt/venv/lib/pypy3.9/site-packages"
if os.path.isdir(_sp) and _sp not in sys.path:
    sys.path.append(_sp)
sys.setrecursionlimit(20000)


def _pure_mypy():
    """metalift subclasses mypy's visitors, which the compiled mypy of this
    python forbids: load the project's own (interpreted) mypy on demand"""
    import importlib.abc
    import importlib.util

    class F(importlib.abc.MetaPathFinder):
        def find_spec(self, name, path=None, target=None):
            d = os.path.join(_sp, name)
            if name in ("mypy", "mypyc") and os.path.isdir(d):
                return importlib.util.spec_from_file_location(name, os.path.join(d, "__init__.py"), submodule_search_locations=[d])
            return None
    if "mypy" not in sys.modules:
        sys.meta_path.insert(0, F())


_pure_mypy()
