"""Build pixell's native code from /repo's current working tree into a private
cache and expose an importable package directory whose .py files are those of
/repo itself.

A build is keyed by the content of every native source and build file, so a
check always runs the code that /repo holds now, whatever the file times say,
and never writes in /repo.  Variants:

  plain  the flags meson-python uses for the normal build
  asan   AddressSanitizer + UndefinedBehaviourSanitizer, Fortran bounds checks
  tsan   ThreadSanitizer (run with tools/minigomp.c as the OpenMP runtime)
"""
import os, sys, hashlib, shutil, subprocess, tempfile, fcntl, glob, time

REPO  = os.environ.get("VERIF_REPO", "/repo")   # the override is for trying planted bugs in scratch copies
HERE  = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(HERE, ".cache"))
PY    = "/opt/venv/bin/python"
NATIVE_DIRS = ["fortran", "cython"]
GENERATED   = {"interpol_32.f90","interpol_64.f90","array_ops_32.f90","array_ops_64.f90"}

FLAGS = {
    "plain": ["-Dbuildtype=release", "-Db_ndebug=if-release"],
    "asan":  ["-Dbuildtype=debugoptimized", "-Db_lundef=false",
              "-Dc_args=-fsanitize=address,undefined,float-cast-overflow -fsanitize-recover=undefined,float-cast-overflow -fno-omit-frame-pointer -Wno-error",
              "-Dc_link_args=-fsanitize=address,undefined",
              "-Dfortran_args=-fsanitize=address,undefined -fsanitize-recover=undefined -fcheck=bounds,pointer,mem -fno-omit-frame-pointer",
              "-Dfortran_link_args=-fsanitize=address,undefined"],
    "tsan":  ["-Dbuildtype=debugoptimized", "-Db_lundef=false",
              "-Dc_args=-fsanitize=thread -fno-omit-frame-pointer",
              "-Dc_link_args=-fsanitize=thread",
              "-Dfortran_args=-fsanitize=thread -fno-omit-frame-pointer",
              "-Dfortran_link_args=-fsanitize=thread"],
}

class BuildError(Exception): pass

def _native_files():
    res = []
    for d in NATIVE_DIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs[:] = [x for x in dirs if not x.startswith(".") and x != "__pycache__"]
            for f in files:
                if f in GENERATED or f.endswith((".o",".so",".pyc",".mod")): continue
                res.append(os.path.join(root, f))
    res.append(os.path.join(REPO, "meson.build"))
    return sorted(res)

def native_hash(variant):
    h = hashlib.sha256()
    h.update(repr((variant, FLAGS[variant], sys.version)).encode())
    for f in _native_files():
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fd: h.update(fd.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def _env():
    env = dict(os.environ)
    env["PATH"] = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["LC_ALL"] = "C.UTF-8"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    for k in ["PYTHONPATH","CFLAGS","FFLAGS","LDFLAGS","LD_PRELOAD","CC","FC"]: env.pop(k, None)
    return env

def build(variant="plain", log=None):
    """Return the directory with the native modules for the current tree, building if needed."""
    key = native_hash(variant)
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "%s-%s" % (variant, key))
    with open(os.path.join(CACHE, "%s.lock" % variant), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "DONE")): return out
        # drop old builds of this variant (disk space)
        for old in sorted(glob.glob(os.path.join(CACHE, variant + "-*")), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        work = tempfile.mkdtemp(prefix="pxbuild-")
        try:
            src = os.path.join(work, "src"); os.makedirs(src)
            for f in _native_files():
                dst = os.path.join(src, os.path.relpath(f, REPO))
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copy2(f, dst)
            # the python install part is not needed: an empty subdir keeps meson happy
            for d in ["pixell","scripts"]:
                os.makedirs(os.path.join(src, d), exist_ok=True)
                open(os.path.join(src, d, "meson.build"), "w").close()
            b = os.path.join(work, "b")
            for cmd in [["make","-s","-B","-C",os.path.join(src,"fortran")],
                        ["meson","setup",b,src] + FLAGS[variant],
                        ["ninja","-C",b]]:
                p = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
            tmp = out + ".tmp%d" % os.getpid()
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            sos = glob.glob(os.path.join(b, "*.so"))
            if len(sos) < 8: raise BuildError("only %d native modules were built" % len(sos))
            for so in sos: shutil.copy2(so, tmp)
            open(os.path.join(tmp, "DONE"), "w").close()
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return out

def minigomp():
    """Build tools/minigomp.c (the OpenMP runtime for ThreadSanitizer runs) and return its path"""
    src = os.path.join(HERE, "tools", "minigomp.c")
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "minigomp-%s.so" % hashlib.sha256(open(src,"rb").read()).hexdigest()[:16])
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        p = subprocess.run(["gcc","-O1","-g","-fPIC","-shared","-fsanitize=thread","-o",tmp,src,"-lpthread"], env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise BuildError("minigomp: " + p.stdout)
        os.rename(tmp, out)
    return out

def make_package(variant="plain", dest=None):
    """Create dest/pixell = /repo/pixell (symlinked) + native modules of the variant.
    Returns dest, to be put first on sys.path."""
    nat  = build(variant)
    dest = dest or tempfile.mkdtemp(prefix="pxpkg-")
    pkg  = os.path.join(dest, "pixell")
    os.makedirs(pkg, exist_ok=True)
    for f in os.listdir(os.path.join(REPO, "pixell")):
        if f.startswith(".") or f == "__pycache__" or f.endswith(".so"): continue
        os.symlink(os.path.join(REPO, "pixell", f), os.path.join(pkg, f))
    for f in os.listdir(nat):
        if f.endswith(".so"): os.symlink(os.path.join(nat, f), os.path.join(pkg, f))
    return dest

def activate(dest):
    """Make `import pixell` use dest, bypassing the editable install's import hook."""
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [m for m in sys.meta_path if "mesonpy" not in type(m).__module__.lower() and "Mesonpy" not in type(m).__name__]
    sys.path.insert(0, dest)
    import pixell
    assert os.path.dirname(os.path.abspath(pixell.__file__)) == os.path.join(dest, "pixell"), pixell.__file__

if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        t = time.time(); print(v, build(v), "%.1fs" % (time.time()-t))
        if v == "tsan": minigomp()
