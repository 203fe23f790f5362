"""Build unidist's C++ extension from the working tree into a cache folder (never into /repo)."""
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "unidist/core/backends/mpi/core/memory")
NAME = "unidist.core.backends.mpi.core._memory"


def _sum():
    h = hashlib.sha256()
    for f in sorted(os.listdir(SRC)):
        if f.endswith((".pyx", ".pxd", ".h", ".cpp")) and f != "_memory.cpp":
            h.update(f.encode() + b"\0" + open(os.path.join(SRC, f), "rb").read())
    return h.hexdigest()[:16]


def cache_root():
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), ".cache")
    os.makedirs(d, exist_ok=True)
    return d


def build(shim=None):
    """Return the path of the extension module built from the current sources."""
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    extra = hashlib.sha256(open(shim, "rb").read()).hexdigest()[:8] if shim else ""
    dst = os.path.join(cache_root(), "ext_" + _sum() + extra, "_memory" + suffix)
    if os.path.exists(dst):
        return dst
    tmp = tempfile.mkdtemp(prefix="verif_ext_")
    try:
        src = os.path.join(tmp, "memory")
        shutil.copytree(SRC, src)
        gen = os.path.join(src, "_memory.cpp")
        if os.path.exists(gen):
            os.unlink(gen)
        subprocess.run([sys.executable, "-m", "cython", "--cplus", "-3", "_memory.pyx", "-o", "_memory_gen.cpp"],
                       cwd=src, check=True, stdout=subprocess.DEVNULL)
        so = os.path.join(tmp, "out.so")
        inc = ["-include", shim] if shim else []
        subprocess.run(["g++"] + inc + ["-shared", "-fPIC", "-O1", "-std=c++11", "-w", "-I", sysconfig.get_paths()["include"],
                        "-I", src, "_memory_gen.cpp", "-o", so, "-lpthread"], cwd=src, check=True)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copy(so, dst + ".%d" % os.getpid())
        os.replace(dst + ".%d" % os.getpid(), dst)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return dst


class _Finder:
    def __init__(self, path):
        self.path = path

    def find_spec(self, name, path=None, target=None):
        if name == NAME:
            return importlib.util.spec_from_file_location(name, self.path)
        return None


def install():
    sys.meta_path.insert(0, _Finder(build()))


if __name__ == "__main__":
    print(build())
