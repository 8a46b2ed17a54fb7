"""Builds the AST dumper and dumps every translation unit of /repo's current working tree.

Dumps are cached in /verif/build/cache by a hash over the dumper, the unit and every header of the
repository, so an unchanged unit is not parsed twice; a changed one always is."""
import concurrent.futures as cf
import glob, hashlib, json, os, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GPA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
TOOL = os.path.join(BUILD, "astdump")
TOOLSRC = os.path.join(VERIF, "tool", "astdump.cpp")
LLVM = "/usr/lib/llvm-18"


class AnalysisBroken(Exception):
    """The analysis itself could not be carried out (neither a pass nor a violation)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()


def ensure_tool():
    os.makedirs(CACHE, exist_ok=True)
    stamp = TOOL + ".stamp"
    want = filehash(TOOLSRC)
    if os.path.exists(TOOL) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    tmp = TOOL + ".%d" % os.getpid()
    r = sh(["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + LLVM + "/include", '-DRESDIR="%s/lib/clang/18"' % LLVM,
            TOOLSRC, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1", LLVM + "/lib/libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"])
    if r.returncode != 0:
        raise AnalysisBroken("cannot build astdump:\n" + r.stdout[-3000:])
    os.rename(tmp, TOOL)
    with open(stamp, "w") as f:
        f.write(want)


def api_units(repo):
    return sorted(glob.glob(repo + "/src/api/*.cpp"))


def client_units(repo):
    out = []
    for d in ("", "Calibrator/", "Downscaler/", "File/", "ParameterFile/"):
        out += glob.glob(repo + "/src/client/" + d + "*.cpp")
    out.append(repo + "/src/client/Driver/Gridpp.cpp")
    return sorted(out)


def headers(repo):
    out = glob.glob(repo + "/include/*.h") + glob.glob(repo + "/src/**/*.h", recursive=True)
    # an implementation file may be included by another one
    return sorted(set(out))


def flags(repo):
    return ["-std=c++14", "-fopenmp", "-I" + repo + "/include", "-I" + VERIF + "/tool/inc", "-include", "omp.h",
            "-w", "-Wno-c++11-narrowing", "-UNDEBUG"]


PCHSRC = os.path.join(VERIF, "tool", "inc", "ext_api.h")
PCH = os.path.join(BUILD, "ext_api.pch")


def ensure_pch():
    """Precompile the external headers of the library's units (nothing of the repository is in it)."""
    want = filehash(PCHSRC, VERIF + "/tool/inc/omp.h") + " ".join(flags("REPO"))
    stamp = PCH + ".stamp"
    if os.path.exists(PCH) and os.path.exists(stamp) and open(stamp).read() == want:
        return
    tmp = PCH + ".%d" % os.getpid()
    fl = [x for x in flags("REPO") if not x.startswith("-IREPO")]
    r = sh(["clang++", "-x", "c++-header", "-Xclang", "-fno-pch-timestamp"] + fl + [PCHSRC, "-o", tmp])
    if r.returncode != 0:
        raise AnalysisBroken("cannot precompile headers:\n" + r.stdout[-2000:])
    os.rename(tmp, PCH)
    with open(stamp, "w") as f:
        f.write(want)


def dump_unit(args):
    repo, unit, hdrhash, toolhash, pch = args
    key = hashlib.sha256((toolhash + hdrhash + filehash(unit) + " ".join(flags(repo)) + unit).encode()).hexdigest()
    out = os.path.join(CACHE, key + ".json")
    if os.path.exists(out):
        os.utime(out)
        return unit, out, ""
    tmp = out + ".%d.tmp" % os.getpid()
    r = None
    for usepch in ((True, False) if pch else (False,)):
        extra = []
        if usepch:
            pch.result()
            extra = ["-include-pch", PCH]
        r = sh([TOOL, tmp, unit, repo.rstrip("/") + "/", "--"] + extra + flags(repo))
        if r.returncode == 0 and os.path.exists(tmp):
            with open(tmp) as f:
                if not json.load(f)["errors"]:
                    break
        if os.path.exists(tmp):
            os.remove(tmp)
    if not os.path.exists(tmp):
        return unit, None, r.stdout[-2000:]
    os.rename(tmp, out)
    return unit, out, ""


def prune(limit=900):
    fs = sorted(glob.glob(CACHE + "/*.json"), key=lambda f: os.path.getmtime(f) if os.path.exists(f) else 0)
    for f in fs[:-limit]:
        try:
            os.remove(f)
        except OSError:
            pass


def dump_units(repo, units, hdrs):
    ensure_tool()
    hdrhash = filehash(*hdrs) if hdrs else ""
    toolhash = filehash(TOOLSRC, VERIF + "/tool/inc/omp.h")
    res = {}
    with cf.ThreadPoolExecutor(9) as ex:
        api = [u for u in units if "/src/api/" in u or "/samples/" in u]
        other = [u for u in units if u not in api]
        pch = ex.submit(ensure_pch) if api else None
        jobs = [(repo, u, hdrhash, toolhash, None) for u in other] + [(repo, u, hdrhash, toolhash, pch) for u in api]
        for unit, out, err in ex.map(dump_unit, jobs):
            if out is None:
                raise AnalysisBroken("cannot parse %s:\n%s" % (unit, err))
            res[unit] = out
    prune()
    return res


def dump_all(repo, which=("api", "client")):
    units = []
    if "api" in which:
        units += api_units(repo)
    if "client" in which:
        units += client_units(repo)
    if not units:
        raise AnalysisBroken("no translation units found under " + repo)
    return dump_units(repo, units, headers(repo))


if __name__ == "__main__":
    r = dump_all(REPO)
    print("dumped %d units" % len(r))
