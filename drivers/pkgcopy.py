"""A copy of the package, whose templates may be edited."""
import atexit, importlib.util, os, shutil, sys, tempfile

PKG = os.path.realpath(tempfile.mkdtemp(prefix='pkg'))
atexit.register(shutil.rmtree, PKG, True)
src = os.path.dirname(importlib.util.find_spec('disseminate').origin)
shutil.copytree(src, os.path.join(PKG, 'disseminate'), symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
sys.path.insert(0, PKG)
importlib.invalidate_caches()
import disseminate  # noqa
assert disseminate.__file__.startswith(PKG), disseminate.__file__
TPL = os.path.join(PKG, 'disseminate', 'templates')
