#!/usr/bin/env python3
"""Content-addressed build of /repo's sources plus one harness.

usage: build.py FLAVOUR HARNESS...   (prints the path of each executable)
       build.py FLAVOUR --lib        (library objects only)

Objects are rebuilt whenever the content of a source, of any header it
includes, or the command line changes; timestamps are never trusted.
Everything is written below /verif/build (git-ignored).
"""
import concurrent.futures, fcntl, hashlib, json, os, shlex, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "src")
GEN = os.path.join(BUILD, "gen")
COMPAT = os.path.join(VERIF, "harness", "compat.hpp")

COMMON = ["-std=c++14", "-fopenmp", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS",
          "-ftrivial-auto-var-init=pattern",
          "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/hdf5/serial",
          "-include", COMPAT]
FLAVOURS = {
    "plain": ["-O1"],
    "mc": ["-O1", "-fsanitize=thread", "-fno-omit-frame-pointer"],
}
INCLUDES = ["-I", GEN, "-I", SRC, "-I", SRC + "/core", "-I", SRC + "/sweepers",
            "-I", SRC + "/solvers", "-I", VERIF + "/harness"]
LIBS = ["-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5",
        "-lpugixml", "-lblitz", "-lpthread", "-lm", "-ldl"]


def sha(path, _c={}):
    try:
        st = os.stat(path)
    except OSError:
        return None
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in _c:
        with open(path, "rb") as f:
            _c[key] = hashlib.sha256(f.read()).hexdigest()
    return _c[key]


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def generate():
    write_if_changed(GEN + "/git_SHA1.cpp",
                     '#include <string>\n#include "git_SHA1.hpp"\n'
                     'extern const char g_GIT_SHA1[] = "0000000000000000000000000000000000000000";\n')
    tpl = SRC + "/util/force_inline.hpp.in"
    text = open(tpl).read() if os.path.exists(tpl) else ""
    text = text.replace("${mocc_force_inline}", "inline")
    write_if_changed(GEN + "/util/force_inline.hpp", text)


def lib_sources():
    out = []
    for d, sub, files in os.walk(SRC):
        sub[:] = sorted(s for s in sub if s != "tests")
        for f in sorted(files):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SRC)
            if f.endswith(".cpp") and rel not in ("mocc.cpp", "git_SHA1.cpp"):
                out.append(p)
    return out


def compile_one(src, obj, flags):
    cmd = ["g++"] + COMMON + flags + INCLUDES
    ident = hashlib.sha256(" ".join(cmd + [src]).encode()).hexdigest()
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["ident"] == ident and m["objsha"] == sha(obj) and all(sha(p) == h for p, h in m["deps"].items()):
                return False, ""
        except Exception:
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    tmp = obj + ".tmp.o"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-MT", "x", "-c", src, "-o", tmp],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout
    text = open(dep).read().replace("\\\n", " ")
    deps = shlex.split(text.split(":", 1)[1])
    os.replace(tmp, obj)
    json.dump({"ident": ident, "objsha": sha(obj), "deps": {p: sha(p) for p in deps}}, open(meta, "w"))
    return True, ""


def build(flavour, harnesses):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, flavour + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        generate()
        flags = FLAVOURS[flavour]
        base = os.path.join(BUILD, flavour)
        jobs = [(s, os.path.join(base, "lib", os.path.relpath(s, SRC) + ".o"), flags) for s in lib_sources()]
        jobs.append((GEN + "/git_SHA1.cpp", os.path.join(base, "lib", "git_SHA1.cpp.o"), flags))
        libobjs = [j[1] for j in jobs]
        hobjs = {}
        for h in harnesses:
            s = os.path.join(VERIF, "harness", h + ".cpp")
            o = os.path.join(base, "harness", h + ".o")
            jobs.append((s, o, flags))
            hobjs[h] = [o]
        extra = []
        if flavour == "mc":
            s = os.path.join(VERIF, "harness", "ompmc_rt.cpp")
            o = os.path.join(base, "harness", "ompmc_rt.o")
            jobs.append((s, o, ["-O2"]))
            extra.append(o)
        bad = []
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            futs = {ex.submit(compile_one, *j): j for j in jobs}
            for f in concurrent.futures.as_completed(futs):
                ok, msg = f.result()
                if ok is None:
                    bad.append((futs[f][0], msg))
        if bad:
            for s, m in bad:
                sys.stderr.write("compile failed: %s\n%s\n" % (s, m))
            sys.exit(3)
        # drop objects of sources that no longer exist
        exes = []
        for h in harnesses:
            exe = os.path.join(base, h)
            objs = hobjs[h] + extra + libobjs
            if flavour == "mc":
                link = ["g++", "-o"] + [exe + ".tmp"] + objs + ["-Wl,--wrap=memcpy", "-Wl,--wrap=memset", "-Wl,--wrap=memmove"] + LIBS
            else:
                link = ["g++", "-fopenmp", "-o", exe + ".tmp"] + objs + LIBS
            ident = hashlib.sha256((" ".join(link) + "".join(sha(o) for o in objs)).encode()).hexdigest()
            meta = exe + ".json"
            if not (os.path.exists(exe) and os.path.exists(meta) and open(meta).read() == ident + sha(exe)):
                r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    sys.stderr.write("link failed: %s\n%s\n" % (h, r.stdout))
                    sys.exit(3)
                os.replace(exe + ".tmp", exe)
                open(meta, "w").write(ident + sha(exe))
            exes.append(exe)
        return exes


if __name__ == "__main__":
    fl = sys.argv[1]
    names = [a for a in sys.argv[2:] if not a.startswith("-")]
    if fl == "all":
        allh = [l["property"] for l in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]]
        build("plain", [h for h in allh if not h.startswith("C0")])
        if any(h.startswith("C0") for h in allh):
            build("mc", [h for h in allh if h.startswith("C0")])
        sys.exit(0)
    for e in build(fl, names):
        print(e)
