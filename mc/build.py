"""Builds the library from /repo's current working tree into a private cache (never inside /repo)."""
import hashlib, json, os, re, shutil, subprocess, sys, time, fcntl
REPO = os.environ.get("MC_REPO", "/repo")
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(ROOT, ".cache")
SKIP = {".git", "build", "__pycache__", ".pytest_cache"}

def env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", TERM="dumb", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    for k in ("MAKEFLAGS", "MAKELEVEL", "MFLAGS", "PYTHON", "MTARGET_ARCH"):
        e.pop(k, None)
    return e

PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else "python3"

def walk():
    for d, dirs, names in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in SKIP)
        rel = os.path.relpath(d, REPO)
        if rel.split(os.sep)[0] in ("tests", "examples", "doc", "tune"):
            # only the makefiles are needed to parse the build
            names = [n for n in names if n in ("Rules.mk", "Makefile")]
        for n in sorted(names):
            if n in ("getter.json",) or n.endswith((".pyc", ".log")):
                continue
            yield os.path.normpath(os.path.join(rel, n))

def tree_hash():
    h = hashlib.sha256()
    for f in walk():
        p = os.path.join(REPO, f)
        if not os.path.isfile(p):
            continue
        h.update(f.encode() + b"\0")
        with open(p, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]

# name -> (make variables, args file kind)
VARIANTS = {
    "avx": dict(MTARGET_ARCH="x86-64-v3"),
    "sse": dict(MTARGET_ARCH="x86-64", AVX="false"),
    "sisd": dict(MTARGET_ARCH="x86-64", AVX="false", SSE2="false"),
    "stored": dict(MTARGET_ARCH="x86-64-v3", PYTHON=""),
    "storedsse": dict(MTARGET_ARCH="x86-64", PYTHON="", AVX="false"),
    "storedsisd": dict(MTARGET_ARCH="x86-64", PYTHON="", AVX="false", SSE2="false"),
    "defargs": dict(MTARGET_ARCH="x86-64-v3", ARGS="default"),
    "minargs": dict(MTARGET_ARCH="x86-64-v3", ARGS="min"),
    "maxargs": dict(MTARGET_ARCH="x86-64-v3", ARGS="max", OPTFLAGS="-O1"),
    "macargs": dict(MTARGET_ARCH="x86-64-v3", ARGS="mac", OPTFLAGS="-O1"),
    "midavx": dict(MTARGET_ARCH="x86-64-v3", ARGS="mid", OPTFLAGS="-O2"),
    "minsisd": dict(MTARGET_ARCH="x86-64", AVX="false", SSE2="false", ARGS="min"),
    "midsisd": dict(MTARGET_ARCH="x86-64", AVX="false", SSE2="false", ARGS="mid"),
    "midargs": dict(MTARGET_ARCH="x86-64", AVX="false", ARGS="mid"),
    "O1": dict(MTARGET_ARCH="x86-64-v3", OPTFLAGS="-O1"),
    "folds": dict(MTARGET_ARCH="x86-64-v3", OPTFLAGS="-O1", FOLDS=(5, 2)),
    "clang": dict(MTARGET_ARCH="x86-64-v3", CC="clang -ffp-contract=off"),
    "asan": dict(MTARGET_ARCH="x86-64-v3", OPTFLAGS="-O1", CC="gcc -fsanitize=address -g"),
    "ubsan": dict(MTARGET_ARCH="x86-64-v3", OPTFLAGS="-O1", CC="gcc -fsanitize=undefined -fno-sanitize-recover=undefined -g"),
    "tsan": dict(MTARGET_ARCH="x86-64-v3", OPTFLAGS="-O1", CC="gcc -fsanitize=thread -g"),
    "tsaninstr": dict(MTARGET_ARCH="x86-64-v3", OPTFLAGS="-O2", CC="gcc -fsanitize=thread -g"),
}

def run(cmd, cwd, log, e):
    with open(log, "ab") as fh:
        fh.write(("+ " + " ".join(cmd) + "\n").encode())
        fh.flush()
        return subprocess.call(cmd, cwd=cwd, stdout=fh, stderr=subprocess.STDOUT, env=e)

class BuildError(Exception):
    pass

def prune(keep):
    try:
        ents = sorted((os.path.getmtime(os.path.join(CACHE, x)), x) for x in os.listdir(CACHE) if os.path.isdir(os.path.join(CACHE, x)))
    except OSError:
        return
    for _, x in ents[:-keep]:
        shutil.rmtree(os.path.join(CACHE, x), ignore_errors=True)

def lib(variant, mpi=False):
    """Returns a directory with include/ and lib*.a of the given variant."""
    os.makedirs(CACHE, exist_ok=True)
    h = tree_hash()
    top = os.path.join(CACHE, h)
    os.makedirs(top, exist_ok=True)
    os.utime(top)
    out = os.path.join(top, variant)
    with open(os.path.join(top, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        prune(6)
        work = os.path.join(top, variant + ".work")
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        for f in walk():
            src = os.path.join(REPO, f)
            dst = os.path.join(work, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            if os.path.isfile(src):
                shutil.copy2(src, dst)
        e = env()
        v = dict(VARIANTS[variant])
        v.setdefault("PYTHON", PY)
        folds = v.pop("FOLDS", None)
        if folds:
            # another configuration: different default folds for double and single precision
            p = os.path.join(work, "config.h")
            t = open(p).read()
            for n, f in zip(("DIDEFAULTFOLD", "SIDEFAULTFOLD"), folds):
                t = re.sub(r"(?m)^([ \t]*#[ \t]*define[ \t]+%s[ \t]+)\d+" % n, r"\g<1>%d" % f, t)
            open(p, "w").write(t)
        if "ARGS" in v:
            p = os.path.join(work, "mc_args.json")
            make_args(v["ARGS"], p)
            v["ARGS"] = p
        mk = ["%s=%s" % kv for kv in sorted(v.items())]
        o = os.path.join(work, "build/release/Linux-x86_64")
        log = os.path.join(top, variant + ".log")
        open(log, "w").close()
        j = "-j8"
        mkg = [x for x in mk if not x.startswith(("CC=", "OPTFLAGS="))]
        if run(["make", j] + mkg + [o + "/scripts/obj/getter"], work, log, e):
            raise BuildError(log)
        with open(os.path.join(work, "scripts/getter.json"), "w") as fh:
            if subprocess.call([o + "/scripts/obj/getter"], stdout=fh, env=e):
                raise BuildError(log)
        libs = [o + "/src/reproBLAS/obj/libreproblas.a"]
        extra = []
        try:
            mpif = subprocess.check_output(["mpicc", "--showme:compile"], text=True, env=e).strip()
            extra = ["BUILD_MPI=true", "MPICFLAGS=" + mpif]
            if variant in ("avx", "tsan", "tsaninstr", "stored"):
                libs.append(o + "/src/binnedMPI/obj/libbinnedmpi.a")
        except (OSError, subprocess.CalledProcessError):
            pass
        if run(["make", j] + mk + extra + libs, work, log, e):
            raise BuildError(log)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        shutil.copytree(os.path.join(work, "include"), os.path.join(tmp, "include"))
        shutil.copy2(os.path.join(work, "config.h"), tmp)
        for l in libs:
            shutil.copy2(l, tmp)
        open(os.path.join(tmp, "ok"), "w").close()
        os.rename(tmp, out)
        shutil.rmtree(work, ignore_errors=True)
    return out

def make_args(kind, path):
    """An arguments file that selects all minima, all maxima, all middles or the defaults of the documented parameter space."""
    pars = json.load(open(os.path.join(REPO, "src/params.json")))["parameters"]
    res = json.load(open(os.path.join(REPO, "src/default_args.json" if kind != "mac" else "src/tuned_args_peters_mac.json")))
    if kind == "mac":
        pass
    elif kind != "default":
        for k, p in pars.items():
            if p["flavor"] == "boolean":
                val = {"min": False, "max": True, "mid": not p["default"]}[kind]
            else:
                lo, hi = p["minimum"], p["maximum"]
                if kind == "min":
                    val = lo
                elif kind == "max":
                    val = hi
                elif p["flavor"] == "integer":
                    val = lo + p["step"] * (((hi - lo) // p["step"]) // 2)
                else:
                    val = lo
                    while val * val < lo * hi:
                        val *= 2
                    val = min(val, hi)
            # block sizes off the grid (mid) or above the range (max): the generator documents, by its warnings, that it
            # brings them back to the permitted value chosen above
            if p["flavor"] == "poweroftwo" and "block_size" in k:
                if kind == "mid" and val >= 4 and val - val // 4 >= p["minimum"]:
                    val -= val // 4
                elif kind == "max":
                    val = 4 * val + 3
            res[k] = val
    json.dump(res, open(path, "w"))

if __name__ == "__main__":
    for v in sys.argv[1:]:
        t = time.time()
        print(v, lib(v), "%.1f s" % (time.time() - t))
