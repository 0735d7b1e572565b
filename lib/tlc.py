"""Runs TLC: exhaustive checks, behaviour generation, trace validation."""
import json, os, re, shutil, subprocess, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"


class TlcError(Exception):
    pass


class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:
            m = re.findall(r"number of states generated: ([\d,]+)|([\d,]+) states checked", out)
            if m:
                self.generated = self.distinct = max(int((a or b).replace(",", "")) for a, b in m)
        self.violation = None
        m = re.search(r"Error: (Invariant \S+ is violated|Action property \S+ is violated|Temporal properties were violated"
                      r"|Deadlock reached|Postcondition \S+.*|.*is violated.*)", out)
        if m:
            self.violation = m.group(1)


def cmdline():
    cp = subprocess.run("grep -ao '/opt/[^ :\"]*\\.jar' $(command -v tlc) | sort -u", shell=True, capture_output=True, text=True).stdout.split()
    return cp


_CP = None


def classpath():
    global _CP
    if _CP is None:
        jars = []
        for root, _, files in os.walk("/opt/veriftools/tla"):
            jars += [os.path.join(root, f) for f in files if f.endswith(".jar") and "apalache" not in f.lower()]
        jars.sort(key=lambda p: (p != JARS, p))
        _CP = ":".join(jars)
    return _CP


def run(scratch, module, cfg, args=(), workers=4, heap="3g", timeout=600, files=None, jvm=()):
    """cfg: text of the configuration.  files: extra files {name: text} laid beside the modules."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    for n, t in (files or {}).items():
        with open(os.path.join(d, n), "w") as h:
            h.write(t)
    with open(os.path.join(d, module + "_run.cfg"), "w") as h:
        h.write(cfg)
    cmd = ["java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", *jvm,
           "-cp", classpath(), "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-workers", str(workers),
           "-config", module + "_run.cfg", *args, module]
    try:
        p = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        raise TlcError(f"{module}: TLC timed out after {timeout}s")
    finally:
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    out = p.stdout + p.stderr
    res = Result(p.returncode, out)
    if p.returncode not in (0, 12, 13, 10, 11) or "Parsing or semantic analysis failed" in out:
        raise TlcError(f"{module}: TLC exit {p.returncode}\n" + out[-3000:])
    shutil.rmtree(d, ignore_errors=True)
    return res


_TAG = re.compile(r'^<<"BEH", "(.*)">>$', re.M)


def behaviours(res):
    """JSON objects printed by the model with PrintT(<<"BEH", ToJson(x)>>)."""
    out = []
    for m in _TAG.finditer(res.out):
        s = m.group(1)
        out.append(json.loads(json.loads('"' + s + '"') if '\\' in s else s))
    return out
