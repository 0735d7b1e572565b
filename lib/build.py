"""Builds a conformance driver against /repo's current working tree.

The library's sources are compiled with the flags of the project's own build (mingw-w64 target, executed under
wine), restricted to the include-closure of the driver's sources; if that misses a source the whole library is
compiled.  Nothing is written inside /repo.
"""
import concurrent.futures as cf, glob, json, os, re, subprocess

REPO = os.environ.get("CEX_REPO", "/repo")
COMPAT = "/opt/vp/compat"
HERE = os.path.dirname(os.path.abspath(__file__))
DRV = os.path.join(os.path.dirname(HERE), "driver")
STALE = {"ACSTest", "DLTMK5Q8380417N256", "DLTMK6Q8380417N256", "SocketReceiver", "SocketSender"}
FILESTREAM_OLD = "static_cast<int32_t>(Access) | static_cast<int32_t>(Mode))"
FILESTREAM_NEW = "static_cast<std::ios_base::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)))"
GUARDED = {"LockingAllocator", "SecureMemory"}      # their calloc/free go to the driver's guarded allocator
TRAITS = "__is_pointer __is_void __is_integral __is_floating_point __is_arithmetic __is_fundamental __is_scalar __is_array".split()
LIBS = ("-Wl,--stack,16777216 -lws2_32 -liphlpapi -lcrypt32 -lnetapi32 -lpsapi -ladvapi32 -lole32").split()


class BuildError(Exception):
    pass


def _flags(out):
    return ("--target=x86_64-w64-mingw32 -std=c++17 -O2 -w -mavx2 -maes -mpclmul -mrdrnd -mrdseed -msha -mbmi2"
            " -fno-strict-aliasing -fwrapv -femulated-tls -fcxx-exceptions -mxsave -D_M_X64=100 -D_M_AMD64=100 -DNDEBUG"
            " -D_CONSOLE -DUNICODE -D_UNICODE -fdelayed-template-parsing -fgnuc-version=4.2.1 -fms-extensions"
            " -fms-compatibility -fms-compatibility-version=19.30 -D__EXCEPTIONS=1 -D__STDC__=1"
            f" -ivfsoverlay {out}/overlay.yaml").split()


def _includes(path, cache={}):
    if path not in cache:
        try:
            s = open(path, encoding="utf-8", errors="replace").read()
        except OSError:
            s = ""
        cache[path] = {os.path.basename(x) for x in re.findall(r'^[ \t]*#[ \t]*include[ \t]*"([^"]+)"', s, re.M)}
    return cache[path]


def closure(sources, extra=()):
    """Library sources reachable by quoted includes from the driver's sources."""
    seen, todo, cpps = set(), list(sources), set()
    todo += [f"{REPO}/CEX/{e}.cpp" for e in extra]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        if p.startswith(f"{REPO}/CEX/") and p.endswith(".cpp"):
            cpps.add(p)
        for h in _includes(p):
            stem = h.rsplit(".", 1)[0]
            for q in (f"{DRV}/{h}", f"{REPO}/CEX/{h}", f"{REPO}/CEX/{stem}.cpp"):
                if os.path.exists(q) and q not in seen:
                    if q.endswith(".cpp") and stem in STALE:
                        continue
                    todo.append(q)
    return sorted(cpps)


def build(out, modules, extra=(), jobs=8, defines=(), without=()):
    """Compiles driver/<m>.cpp for m in modules + main.cpp, links out/drv.exe. Returns the exe path."""
    os.makedirs(out, exist_ok=True)
    fs = open(f"{REPO}/CEX/FileStream.cpp", encoding="utf-8", errors="replace", newline="").read()
    open(f"{out}/FileStream.cpp", "w", newline="").write(fs.replace(FILESTREAM_OLD, FILESTREAM_NEW))
    json.dump({"version": 0, "use-external-names": False, "roots": [
        {"type": "file", "name": f"{REPO}/CEX/FileStream.cpp", "external-contents": f"{out}/FileStream.cpp"}]},
        open(f"{out}/overlay.yaml", "w"))
    prelude = open(f"{COMPAT}/prelude.h").read().replace("/repo/CEX/", f"{REPO}/CEX/")
    open(f"{out}/prelude.h", "w").write(prelude)
    # libstdc++ has classes named like clang's builtin traits; clang forgets that it gave them up when it reads them from a precompiled header
    open(f"{out}/traits.h", "w").write("namespace cexv_traits { " + " ".join(f"struct {t};" for t in TRAITS) + " }\n")
    flags = _flags(out) + list(defines)
    inc = [f"-I{COMPAT}/inc", f"-I{COMPAT}/inc/Test", f"-I{DRV}", f"-I{REPO}/CEX"]
    r = subprocess.run(["clang++"] + flags + inc + ["-x", "c++-header", f"{out}/prelude.h", "-o", f"{out}/prelude.pch"],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("precompiled header: " + r.stderr[-2000:])

    def cc(src):
        stem = os.path.basename(src)[:-4]
        isdrv = src.startswith(DRV)
        o = f"{out}/{'drv_' if isdrv else ''}{stem}.o"
        cmd = ["clang++"] + flags + ["-include-pch", f"{out}/prelude.pch", "-include", f"{out}/traits.h"]
        if not isdrv and stem in GUARDED:
            cmd += ["-include", f"{DRV}/guard.h"]
        cmd += inc if isdrv else inc[:2]
        cmd += ["-c", src, "-o", o]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return o, r.returncode, r.stderr

    drv = [f"{DRV}/{m}.cpp" for m in ["main"] + list(modules)]
    lib = [p for p in closure(drv, extra) if os.path.basename(p)[:-4] not in without]      # without: the driver stands in for these

    def compile_all(srcs):
        srcs = sorted(srcs, key=lambda p: -os.path.getsize(p))
        with cf.ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(cc, srcs))
        bad = [(o, e) for o, rc, e in res if rc]
        if bad:
            raise BuildError("\n".join(o + ": " + e[:300] + " ... " + e[-1200:] for o, e in bad[:3]))
        return [o for o, _, _ in res]

    def link(objs):
        open(f"{out}/link.rsp", "w").write("\n".join(objs))
        return subprocess.run(["x86_64-w64-mingw32-g++-posix", "-static", "-o", f"{out}/drv.exe", f"@{out}/link.rsp"] + LIBS,
                              capture_output=True, text=True)

    objs = compile_all(drv + lib)
    r = link(objs)
    if r.returncode:
        rest = [p for p in glob.glob(f"{REPO}/CEX/*.cpp") if p not in lib and os.path.basename(p)[:-4] not in tuple(STALE) + tuple(without)]
        more = compile_all(rest)
        r = link(objs + more)
        if r.returncode:
            raise BuildError("link: " + r.stderr[-3000:])
    return f"{out}/drv.exe"
