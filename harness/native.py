"""Fresh builds of the native extension from the current tree, in scratch."""
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile

NAME = "turbustat.simulator.spectrum"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer", "-O1", "-g"]


class BuildError(Exception):
    pass


def build(repo, where, flags, tag):
    """Cythonise and compile spectrum.pyx; path of the shared object."""
    src = os.path.join(repo, "turbustat", "simulator", "spectrum.pyx")
    d = os.path.join(where, tag)
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, "spectrum.c")
    r = subprocess.run([sys.executable, "-m", "cython",
                        "--module-name", NAME, src, "-o", c],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stdout + r.stderr)
    import numpy as np
    so = os.path.join(d, "spectrum.so")
    r = subprocess.run(["gcc", "-shared", "-fPIC", "-w",
                        "-DNPY_NO_DEPRECATED_API=0",
                        "-I" + sysconfig.get_paths()["include"],
                        "-I" + np.get_include(), c, "-o", so, "-lm"] + flags,
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stdout + r.stderr)
    return so


def inject(so):
    """Make the package import this build instead of the one in the tree."""
    loader = importlib.machinery.ExtensionFileLoader(NAME, so)
    spec = importlib.util.spec_from_file_location(NAME, so, loader=loader)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[NAME] = mod
    loader.exec_module(mod)
    return mod


def san_env():
    libs = []
    for lib in ("libasan.so", "libubsan.so"):
        p = subprocess.run(["gcc", "-print-file-name=" + lib],
                           capture_output=True, text=True).stdout.strip()
        p = os.path.realpath(p)
        if not os.path.isabs(p) or not os.path.exists(p):
            raise BuildError("no " + lib)
        libs.append(p)
    env = dict(os.environ)
    env.update(LD_PRELOAD=" ".join(libs), PYTHONMALLOC="malloc",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=66:"
               "allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=66")
    return env


def stub_if_missing(repo):
    """Fields do not need the extension: let the package import without it."""
    import glob
    import types
    if not glob.glob(os.path.join(repo, "turbustat", "simulator",
                                  "spectrum*.so")):
        m = types.ModuleType(NAME)
        m.generate_spectrum = None
        sys.modules[NAME] = m
