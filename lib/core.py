"""Common machinery of the checks: scenarios, replay against the driver, verdicts and evidence."""
import concurrent.futures as cf, json, os, shutil, sys, tempfile, threading, time, traceback
import build, tlc, wine

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")


def X(*kinds):
    """Expectation: the call throws one of these exception classes."""
    return ("X", kinds)


def R(text):
    """Expectation: the call returns exactly this observation (str, or bytes rendered as hex)."""
    if isinstance(text, (bytes, bytearray)):
        text = text.hex() if len(text) else "-"
    return ("R", text)


def F(fn):
    """Expectation: fn(result line) returns None, or a description of what is wrong."""
    return ("F", fn)


ANY = ("any", None)
OK = ("R", "ok")
STOP = ("stop", "refused: an exception, or the library's own assertion ends the process")      # only as the last step
ALLEXC = None


class Scenario:
    def __init__(self, sid, label, model=None):
        self.sid, self.label, self.model = sid, label, model
        self.steps = []          # (line, expectation, note)
        self.results = None
        self.final = None        # optional fn(scenario) -> None or (index, message), run after all steps

    def do(self, line, exp=OK, note=""):
        self.steps.append((line, exp, note))
        return len(self.steps) - 1


def judge(line_result, exp):
    """None if the observed result meets the expectation, else a description."""
    kind, what = exp
    if line_result.startswith("E "):
        raise RuntimeError("driver: " + line_result)
    heap = line_result.endswith(" !HEAP")
    if heap:
        return "memory outside the buffers was overwritten: " + line_result[:200]
    if kind == "any":
        return None
    if kind == "stop":
        return None if line_result.startswith("X ") else f"expected a refusal, got result {line_result[2:98]}"
    if kind == "F":
        return what(line_result)
    if kind == "R":
        if line_result == "R " + what:
            return None
        if line_result.startswith("R "):
            got = line_result[2:]
            i = next((i for i in range(min(len(got), len(what))) if got[i] != what[i]), min(len(got), len(what)))
            return f"expected {what[:96]}{'…' if len(what) > 96 else ''} got {got[:96]}{'…' if len(got) > 96 else ''} (first difference at character {i})"
        return f"expected a result ({what[:64]}), got exception {line_result[2:]}"
    if kind == "X":
        if line_result.startswith("X "):
            k = line_result.split()[1]
            if not what or k in what:
                return None
            return f"expected exception {'/'.join(what)}, got {line_result[2:]}"
        return f"expected exception {'/'.join(what) or 'any'}, got result {line_result[2:98]}"
    raise RuntimeError("bad expectation")


class Check:
    """One property's check."""

    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"cexv-{pid}-", dir=os.environ.get("CEXV_TMP", "/tmp"))
        self.wine = wine.Wine(self.scratch)
        self.exe = None
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "spec_runs": []}
        self.assumptions = []
        self.violations = []        # (scenario, index, message)
        self.known = []
        self._kf = [l.strip() for l in open(KNOWN)] if os.path.exists(KNOWN) else []
        self.models = []
        self._pool = cf.ThreadPoolExecutor(8)
        self.steps = 0
        self.jobs = 7
        self.verbose = bool(os.environ.get("CEXV_VERBOSE"))

    def log(self, *a):
        if self.verbose:
            print(f"[{time.time() - self.t0:6.1f}]", *a, file=sys.stderr, flush=True)

    # ---- building -------------------------------------------------------------------------------------------
    def build(self, modules, extra=(), wait=False, defines=(), without=(), fallback=None):
        def job():
            try:
                return build.build(os.path.join(self.scratch, "build"), modules, extra, 8, defines, without)
            except build.BuildError:
                if fallback is None:
                    raise
                self.log("building otherwise")
                return build.build(os.path.join(self.scratch, "build2"), modules, extra, 8, fallback, without)
        self._buildf = self._pool.submit(job)
        if wait:
            self._buildf.result()

    # ---- model checking -------------------------------------------------------------------------------------
    def model(self, module, cfg, what, args=(), workers=2, expect_ok=True, timeout=600, files=None, heap="3g"):
        """Submits an exhaustive TLC run of a model; a violated property of the model is an error of the check."""
        def job():
            r = tlc.run(self.scratch, module, cfg, args, workers, heap, timeout, files)
            if r.violation or r.rc != 0:
                raise tlc.TlcError(f"model {module}: {r.violation} rc={r.rc}\n" + r.out[-2500:])
            self.log("tlc", module, r.distinct, "states")
            return r, module, what
        f = self._pool.submit(job)
        self.models.append(f)
        return f

    def generate(self, module, cfg, num=None, depth=None, workers=1, timeout=600, files=None, heap="3g", seed=None):
        """Behaviours printed by the model: random simulation (num, depth), or exhaustive when num is None. A future."""
        args = ()
        if num is not None:
            args = ("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed if seed is None else seed))
        def job():
            r = tlc.run(self.scratch, module, cfg, args, workers, heap, timeout, files)
            if r.violation or r.rc != 0:
                raise tlc.TlcError(f"generation {module}: {r.violation} rc={r.rc}\n" + r.out[-2500:])
            b = tlc.behaviours(r)
            if not b:
                raise tlc.TlcError(f"generation {module}: no behaviours\n" + r.out[-2500:])
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            self.cov["spec_runs"].append({"module": module, "mode": "simulate" if num else "exhaustive enumeration",
                                          "behaviours": len(b), "states": r.distinct})
            self.log("tlc gen", module, len(b), "behaviours")
            return b
        return self._pool.submit(job)

    # ---- replay ---------------------------------------------------------------------------------------------
    def _run_batch(self, batch, tag, timeout):
        """Runs scenarios in one process; after a crash or a hang continues with the ones behind it."""
        todo = list(batch)
        part = 0
        hangs = starts = 0
        while todo:
            name = f"s{tag}_{part}"
            part += 1
            d = os.path.join(self.scratch, "run")
            os.makedirs(d, exist_ok=True)
            with open(f"{d}/{name}.txt", "w") as f:
                for s in todo:
                    f.write(f"S {s.sid}\n")
                    for line, _, _ in s.steps:
                        f.write(line + "\n")
            rc = self.wine.run(self.exe, [name + ".txt", name + ".out"], d, timeout)
            try:
                lines = open(f"{d}/{name}.out", errors="replace").read().split("\n")
            except OSError:
                lines = []
            os.remove(f"{d}/{name}.txt")
            if os.path.exists(f"{d}/{name}.out"):
                os.remove(f"{d}/{name}.out")
            byid = {str(s.sid): s for s in todo}
            cur, last, ended = None, None, False
            for l in lines:
                if l.startswith("S "):
                    last, cur = cur, byid.get(l[2:])
                    if cur is not None:
                        cur.results, cur.events = [], []
                        cur.heap_late = False
                elif l == "END":
                    ended = True
                elif l == "H":
                    if cur is not None:
                        cur.heap_late = True
                elif l.startswith("V "):
                    if cur is not None:
                        cur.events.append(l[2:])
                elif l and cur is not None:
                    cur.results.append(l)
            if ended:
                return
            if cur is None:                 # nothing ran: wine's fault, not the code's
                starts += 1
                if starts > 4:
                    raise RuntimeError(f"driver did not start (exit {rc})")
                self.log("driver did not start", rc)
                time.sleep(3 * starts)
                self.wine.again(starts)
                continue
            what = "TIMEOUT" if rc is None else f"CRASH exit={rc}"
            n = len(cur.steps)
            # an incompletely flushed tail cannot be told from the crash: rerun this one alone, flushing every line
            self._run_single(cur, timeout, what)
            if not (rc is not None and cur.steps[-1][1] == STOP and len(cur.results) == n and cur.results[-1].startswith("C CRASH exit=3")):
                hangs += 6 if rc is None else 1
            if hangs >= 18:                 # enough to report; the rest of the batch is left unjudged
                for s in todo[todo.index(cur) + 1:]:
                    s.results = None
                return
            todo = todo[todo.index(cur) + 1:]

    def _run_single(self, s, timeout, what):
        d = os.path.join(self.scratch, "run")
        name = f"x{s.sid}"
        with open(f"{d}/{name}.txt", "w") as f:
            f.write(f"S {s.sid}\n")
            f.write("flush on\n")
            for line, _, _ in s.steps:
                f.write(line + "\n")
        rc = self.wine.run(self.exe, [name + ".txt", name + ".out"], d, timeout)
        try:
            lines = open(f"{d}/{name}.out", errors="replace").read().split("\n")
        except OSError:
            lines = []
        s.events = [l[2:] for l in lines if l.startswith("V ")]
        s.heap_late = "H" in lines
        s.results = [l for l in lines if l and not l.startswith(("S ", "V ")) and l not in ("END", "H")][1:]
        if "END" not in lines:
            s.results = s.results[:len(s.steps)]
            if len(s.results) == len(s.steps):
                s.results = s.results[:-1]
            s.results.append("C " + ("TIMEOUT" if rc is None else f"CRASH exit={rc}"))
        elif len(s.results) < len(s.steps):
            s.results.append("C " + what)

    def replay(self, scenarios, timeout=120, jobs=None):
        """Runs the scenarios against the implementation and judges them; returns the rejected ones."""
        self.exe = self._buildf.result()
        self.log("built")
        jobs = jobs or self.jobs
        ids = set()
        for i, s in enumerate(scenarios):
            if s.sid is None:
                s.sid = i
            assert s.sid not in ids
            ids.add(s.sid)
        if os.environ.get("CEXV_EVERY"):
            scenarios = scenarios[::int(os.environ["CEXV_EVERY"])]
        batches = [scenarios[i::jobs] for i in range(jobs)]
        batches = [b for b in batches if b]
        with cf.ThreadPoolExecutor(len(batches) or 1) as ex:
            list(ex.map(lambda ib: self._run_batch(ib[1], ib[0], timeout), enumerate(batches)))
        self.log("ran", len(scenarios), "scenarios")
        bad = []
        for s in scenarios:
            v = self._judge(s)
            if v:
                bad.append((s,) + v)
        self.log("judged,", len(bad), "rejected")
        if os.environ.get("CEXV_ALL"):
            import collections
            g = collections.defaultdict(list)
            for s, i, m in bad:
                g["/".join(s.label.split("/")[:int(os.environ["CEXV_ALL"])])].append((s, i, m))
            for k, v in sorted(g.items()):
                s, i, m = v[0]
                n = sum(1 for x in scenarios if x.label.startswith(k))
                print(f"  {k}: {len(v)}/{n} e.g. {s.label} step {i} {s.steps[i][0][:150]} :: {m[:260]}", file=sys.stderr)
        confirmed = []
        for s, i, msg in bad[:12]:          # a rejection counts only if a second run repeats it
            self._run_batch([s], f"c{s.sid}", timeout)
            v = self._judge(s)
            if v:
                confirmed.append((s,) + v)
            else:
                self.log("not repeated:", s.label, msg)
        self.violations += confirmed
        self.cov["traces_validated_against_impl"] += sum(1 for s in scenarios if s.results is not None)
        self.steps += sum(len(s.steps) for s in scenarios)
        for s in scenarios[:1] + scenarios[len(scenarios) // 2:len(scenarios) // 2 + 1]:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append({"label": s.label, "steps": [
                    {"call": l[:160], "expected": (e[1] if e[0] == "R" else str(e[0] + " " + str(e[1]) if e[0] == "X" else e[0]))[:100],
                     "observed": (s.results[k][:100] if s.results and k < len(s.results) else None)}
                    for k, (l, e, _) in list(enumerate(s.steps))[:6]]})
        return confirmed

    def _judge(self, s):
        if s.results is None:
            return (0, "the run did not reach this scenario")
        for i, (line, exp, note) in enumerate(s.steps):
            if i >= len(s.results):
                return (i, "no result")
            r = s.results[i]
            if r.startswith("C "):
                if exp[0] == "stop" and "CRASH exit=3" in r:
                    return None
                return (i, r[2:])
            m = judge(r, exp)
            if m:
                return (i, (note + ": " if note else "") + m)
        if getattr(s, "heap_late", False):
            return (len(s.steps) - 1, "memory outside the buffers was overwritten (found when the objects were destroyed)")
        if s.final:
            m = s.final(s)
            if m:
                return m
        return None

    def validate(self, module, cfg, recs, parts=4, events="ev"):
        """Checks recorded histories {label: record} against a trace specification; [(label, index of the event)] rejected.
        The specification reads trace.ndjson, prints [reject |-> h, at |-> i] for a history it does not allow and goes on."""
        order = sorted(recs)
        def one(part):
            if not part:
                return []
            text = "".join(json.dumps(recs[l]) + "\n" for l in part)
            r = tlc.run(self.scratch, module, cfg, (), 1, "3g", 600, {"trace.ndjson": text})
            out = tlc.behaviours(r)
            if r.violation or r.rc or not any(o.get("histories") == len(part) for o in out):
                raise tlc.TlcError("trace validation: " + r.out[-2500:])
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            return [(part[o["reject"] - 1], o["at"] - 1) for o in out if "reject" in o]
        bad = [x for p in self._pool.map(one, [order[i::parts] for i in range(parts)]) for x in p]
        self.cov["spec_runs"].append({"module": module, "mode": "validation of recorded histories", "behaviours": len(order),
                                      "states": sum(len(recs[l][events]) for l in order)})
        self.log("validated", len(order), "histories,", len(bad), "rejected")
        return bad

    # ---- verdict --------------------------------------------------------------------------------------------
    def fail(self, label, msg, data=None):
        """A violation established by other means than a scenario replay (e.g. a trace TLC rejects)."""
        s = Scenario("f", label)
        s.steps = [("-", ANY, "")]
        s.data = data
        self.violations.append((s, 0, msg))

    def finish(self):
        for f in self.models:
            r, module, what = f.result()
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.generated
            self.cov["spec_runs"].append({"module": module, "mode": "exhaustive model check: " + what, "states": r.distinct,
                                          "transitions": r.generated})
        self.cov["calls_replayed"] = self.steps
        out, hits = [], {}
        for s, i, msg in self.violations:
            k = self._known(s.label)
            if k:
                hits[k] = hits.get(k, 0) + 1
            else:
                out.append((s, i, msg))
        for l in self._kf:
            if l.startswith("KNOWN ") and f"property={self.pid} " in l:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, l.split("text=", 1)[1]))
        os.makedirs(f"{ROOT}/evidence/replay", exist_ok=True)
        for n, (s, i, msg) in enumerate(out[:5]):
            p = f"{ROOT}/evidence/replay/{self.pid}-{n}.json"
            json.dump({"property": self.pid, "label": s.label, "failed_step": i, "message": msg,
                       "steps": [{"call": l, "expected": str(e[1])[:4000] if e[0] != "F" else "predicate", "note": nt,
                                  "observed": (s.results[k][:4000] if s.results and k < len(s.results) else None)}
                                 for k, (l, e, nt) in enumerate(s.steps)],
                       "model": s.model, "data": getattr(s, "data", None)}, open(p, "w"), indent=1, default=str)
            print(f"# {s.label}: step {i}: {s.steps[i][0][:200] if i < len(s.steps) else ''}: {msg[:600]}")
            print(f"VIOLATION property={self.pid} replay={p}")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(out)}
        json.dump(ev, open(f"{ROOT}/evidence/{self.pid}.json", "w"), indent=1)
        self.log("done", {k: v for k, v in self.cov.items() if k != "samples"})
        return 1 if out else 0

    def _known(self, label):
        for l in self._kf:
            if l.startswith("KNOWN ") and f"property={self.pid} " in l:
                key = l.split("key=", 1)[1].split(" ", 1)[0]
                if key == label or (key.endswith("*") and label.startswith(key[:-1])):
                    return l
        return None

    def close(self):
        self._pool.shutdown(wait=True, cancel_futures=True)
        self.wine.close()
        shutil.rmtree(self.scratch, ignore_errors=True)


def main(pid, body):
    chk = Check(pid)
    rc = 2
    try:
        body(chk)
        rc = chk.finish()
    except SystemExit:
        raise
    except BaseException as e:
        traceback.print_exc()
        print(f"check {pid}: machinery error: {str(e)[:1500]}")
        rc = 2
    finally:
        try:
            chk.close()
        except Exception:
            traceback.print_exc()
    sys.stdout.flush()
    os._exit(rc)
