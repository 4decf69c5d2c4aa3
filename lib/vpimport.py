"""Makes /repo's Python package importable with the freshly built extension module.

`vmecpp.cpp._vmecpp` is looked up in VP_BUILD (the check's build folder), everything else in the
`vmecpp` package comes from VMECPP_REPO/src, so nothing is ever written to /repo.
"""
import importlib.abc, importlib.machinery, importlib.util, os, sys
sys.dont_write_bytecode = True
REPO = os.environ.get("VMECPP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", "/verif/.build/cpp")

class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == "vmecpp.cpp._vmecpp":
            so = os.path.join(BUILD, "_vmecpp.so")
            loader = importlib.machinery.ExtensionFileLoader(name, so)
            return importlib.util.spec_from_file_location(name, so, loader=loader)
        return None

def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
install()
