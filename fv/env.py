"""Environment shared by every check: paths, seed, tier, import path of the tools."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FV_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PYTHON = "/opt/venv/bin/python"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = int(os.environ.get("FV_JOBS", "0")) or min(8, os.cpu_count() or 1)

sys.dont_write_bytecode = True
# hypothesis (and its dependency sortedcontainers) live in another environment; append, so that
# the packages flatdata itself uses still come from /opt/venv
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
# the code under test always comes from the working tree
for _p in (os.path.join(REPO, "flatdata-py"), os.path.join(REPO, "flatdata-generator")):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)


def speed_up_jinja():
    """Compiling the templates dominates rendering (a new environment per stored schema).

    Memoise compilation on the template source: the templates are still loaded from the working
    tree, only the pure source -> code step is cached.
    """
    import jinja2.environment as je
    if getattr(je.Environment.compile, "_fv", False):
        return
    original = je.Environment.compile
    cache = {}

    def compile(self, source, name=None, filename=None, raw=False, defer_init=False):
        if not isinstance(source, str):
            return original(self, source, name, filename, raw, defer_init)
        key = (source, name, filename, raw, defer_init, self.trim_blocks, self.lstrip_blocks,
               self.keep_trailing_newline, str(self.autoescape), self.block_start_string,
               self.variable_start_string, self.comment_start_string, self.optimized,
               tuple(sorted(self.extensions)), tuple(sorted(self.filters)))
        if key not in cache:
            cache[key] = original(self, source, name, filename, raw, defer_init)
        return cache[key]

    compile._fv = True
    je.Environment.compile = compile


def rmtree(path):
    import shutil
    if path and path.startswith(("/tmp/fv-", VERIF + "/.scratch/")):
        shutil.rmtree(path, ignore_errors=True)


def scratch(tag):
    import tempfile
    return tempfile.mkdtemp(prefix="fv-%s-" % tag, dir="/tmp")
