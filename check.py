#!/usr/bin/env python3
"""Property check driver (runs in python3-vt, which has Hypothesis).

    python3-vt check.py C07 [--tier quick|thorough] [--shards N]

Hypothesis generates and shrinks cases; each case is a JSON value that a worker process, running in the
repository's own interpreter, evaluates against the code in /repo and an independent oracle.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import queue
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, "harness"))
WORKER_PY = "/opt/venv/bin/python"
CASE_TIMEOUT = float(os.environ.get("VERIF_CASE_TIMEOUT", "120"))
SHRINK_SECONDS = 60.0


class WorkerError(Exception):
    pass


class NoAnswer(WorkerError):
    """The worker hung or died on a case."""


class Worker(object):
    def __init__(self, prop, scratch):
        env = dict(os.environ)
        for k in ("PYTHONPATH", "PYTHONHOME"):
            env.pop(k, None)
        env.update(LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
                   MPLCONFIGDIR=scratch, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   VERIF_SCRATCH=scratch)
        self.p = subprocess.Popen([WORKER_PY, "-W", "ignore", os.path.join(ROOT, "harness", "worker.py"), prop],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=env, cwd=scratch)
        self.buf = b""
        r = self._read(CASE_TIMEOUT)
        if r.get("status") != "ready":
            raise WorkerError("worker did not start: %s" % r.get("msg"))

    def _cpu(self):
        """Processor seconds the worker has used."""
        try:
            f = open("/proc/%d/stat" % self.p.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, ValueError, IndexError):
            return float("inf")

    def _read(self, timeout):
        """The worker's answer; on a loaded machine the clock runs on processor time, up to three times the limit."""
        start, cpu = time.time(), self._cpu()
        end = start + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                if time.time() - start < 3 * timeout and self._cpu() - cpu < 0.8 * timeout:
                    end = time.time() + 5
                    continue
                self.close()
                raise NoAnswer("no answer within %.0f s" % timeout)
            if select.select([fd], [], [], left)[0]:
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    raise NoAnswer("the process died (rc %s)" % self.p.wait())
                self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def run(self, case):
        self.p.stdin.write(json.dumps(case).encode() + b"\n")
        self.p.stdin.flush()
        return self._read(CASE_TIMEOUT)

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


class Abort(BaseException):
    pass


def corpus(prop):
    d = os.path.join(ROOT, "corpus", prop)
    if not os.path.isdir(d):
        return []
    return [json.load(open(os.path.join(d, f)))["case"] for f in sorted(os.listdir(d)) if f.endswith(".json")]


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and not l.startswith("#"):
                r = json.loads(l)
                if r.get("property") == prop and r.get("kind") == "known":
                    out.append(r)
    return out


def needed_history(prop, scratch, before, case):
    """Earlier cases without which the failure does not happen in a new process (state kept between calls)."""
    end = time.time() + 45.0

    def fails(prefix):
        if time.time() > end:
            return None
        try:
            w = Worker(prop, scratch)
            try:
                for c in prefix:
                    w.run(c)
                return w.run(case)["status"] == "viol"
            finally:
                w.close()
        except Exception:
            return None

    if fails([]) is not False:
        return []
    k, keep = 1, None
    while keep is None and k < 2 * len(before):
        if fails(before[-k:]):
            keep = before[-k:]
        k *= 4
    if keep is None:
        return before[-200:]
    step = max(1, len(keep) // 2)
    while step and time.time() < end:
        i = 0
        while i < len(keep):
            if fails(keep[:i] + keep[i + step:]):
                keep = keep[:i] + keep[i + step:]
            else:
                i += step
        step //= 2
    return keep


def shard(prop, tier, seed, idx, nshards, n_examples, budget, q):
    import random as pyrandom
    from hypothesis import HealthCheck, Phase, given, seed as hseed, settings
    from hypothesis.control import BuildContext
    from hypothesis.errors import StopTest, UnsatisfiedAssumption
    from hypothesis.internal.conjecture.data import ConjectureData
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    scratch = tempfile.mkdtemp(prefix="oranssi-%s-" % prop)
    stats = {"evaluations": 0, "hashes": set(), "labels": {}, "samples": [], "corpus": 0, "skipped": 0,
             "violation": None, "error": None, "idx": idx}
    w = None
    try:
        for f in ("fontlist-v330.json",):
            src = os.path.join("/opt/vp/mplconfig", f)
            if os.path.exists(src):
                shutil.copy(src, os.path.join(scratch, f))
        gen = importlib.import_module("gen." + prop.lower())
        w = Worker(prop, scratch)
        t0 = time.time()
        best = {"case": None, "msg": None, "t": None}

        hist = []           # cases the present worker has seen

        def one(case):
            nonlocal w
            hist.append(case)
            try:
                r = w.run(case)
            except NoAnswer:
                # ordinary cases take well under ten seconds: a second silence on a fresh worker is the code's doing
                w.close()
                w = Worker(prop, scratch)
                hist[:] = [case]
                try:
                    r = w.run(case)
                except NoAnswer as e:
                    w.close()
                    w = Worker(prop, scratch)
                    hist[:] = []
                    stats["evaluations"] += 1
                    best.update(case=case, msg=str(e), t=time.time() - 2 * SHRINK_SECONDS)
                    return False
            if r["status"] == "error":
                raise WorkerError(r["msg"])
            stats["evaluations"] += 1
            for l in r["labels"]:
                stats["labels"][l] = stats["labels"].get(l, 0) + 1
            if r["nontrivial"]:
                h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
                if h not in stats["hashes"]:
                    stats["hashes"].add(h)
                    if len(stats["samples"]) < 2 and len(json.dumps(case)) < 3000:
                        stats["samples"].append(case)
            if r["status"] == "viol":
                best.update(case=case, msg=r["msg"], t=best["t"] or time.time(), before=len(hist) - 1)
                return False
            return True

        found = False
        for i, case in enumerate(corpus(prop)):
            if i % nshards == idx:
                stats["corpus"] += 1
                if not one(case):
                    found = True
                    break
        class Broken(Exception):
            pass

        strategy = gen.cases(tier)
        conf = settings(max_examples=max(1, n_examples - 2 * n_examples // 3), database=None, deadline=None,
                        derandomize=False, report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate, Phase.shrink], print_blob=False)

        def build(data):
            with BuildContext(data, is_final=False, wrapped_test=None):
                return data.draw(strategy)

        # 1. independent draws from the strategy: no two cases share a prefix
        choices = None
        for i in range(2 * n_examples // 3):
            if found or time.time() - t0 > budget:
                stats["skipped"] += 0 if found else 1
                break
            data = ConjectureData(prefix=(), random=pyrandom.Random((seed * 1000 + idx) * 1000003 + i))
            try:
                case = build(data)
            except (StopTest, UnsatisfiedAssumption):
                continue
            if not one(case):
                found, choices = True, data.choices
        if choices is not None:
            def replay(data):
                if time.time() - best["t"] > SHRINK_SECONDS:
                    raise Abort()
                try:
                    ok = one(build(data))
                except UnsatisfiedAssumption:
                    data.mark_invalid()
                except WorkerError:
                    raise Abort()
                if not ok:
                    data.mark_interesting(("violation",))
            try:
                runner = ConjectureRunner(replay, settings=settings(conf, max_examples=10 ** 6), random=pyrandom.Random(seed))
                runner.cached_test_function(choices)
                runner.shrink_interesting_test_cases()
            except BaseException:
                pass        # shrinking is best effort: the verdict and the smallest case so far stand
        # 2. Hypothesis's own search: small and mutated cases, values repeated inside a case
        if not found:
            @hseed(seed * 1000 + idx)
            @conf
            @given(strategy)
            def test(case):
                now = time.time()
                if best["t"] is None and now - t0 > budget:
                    stats["skipped"] += 1
                    return
                if best["t"] is not None and now - best["t"] > SHRINK_SECONDS:
                    raise Abort()
                try:
                    ok = one(case)
                except WorkerError:
                    if best["t"] is not None:
                        raise Abort()     # a worse failure while shrinking: keep the verdict we have
                    raise
                if not ok:
                    raise Broken(best["msg"])

            try:
                test()
            except Broken:
                found = True
            except Abort:
                found = best["case"] is not None
            except BaseException:
                if best["case"] is None:
                    raise
                found = True
        if found:
            stats["violation"] = {"case": best["case"], "msg": best["msg"],
                                  "history": needed_history(prop, scratch, hist[:best.get("before", 0)], best["case"])}
    except BaseException:
        stats["error"] = traceback.format_exc()[-3000:]
    finally:
        if w is not None:
            w.close()
        shutil.rmtree(scratch, ignore_errors=True)
    q.put(stats)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--shards", type=int, default=int(os.environ.get("VERIF_SHARDS", "8")))
    ap.add_argument("--examples", type=int, default=0, help="override the number of cases (development)")
    a = ap.parse_args()
    prop = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    gen = importlib.import_module("gen." + prop.lower())
    total = a.examples or (gen.QUICK if a.tier == "quick" else gen.THOROUGH)
    budget = 300.0 if a.tier == "quick" else 3 * 3600.0
    nsh = max(1, min(a.shards, total))
    per = -(-total // nsh)
    q = mp.Queue()
    procs = [mp.Process(target=shard, args=(prop, a.tier, seed, i, nsh, per, budget, q)) for i in range(nsh)]
    for p in procs:
        p.start()
    res = []
    while len(res) < nsh:
        try:
            res.append(q.get(timeout=5))
        except queue.Empty:
            if not any(p.is_alive() for p in procs):
                break
            continue
        if res[-1]["violation"]:
            break
    for p in procs:
        if len(res) < nsh and p.is_alive():
            p.terminate()
        p.join(20)
    if len(res) < nsh:
        subprocess.call("rm -rf " + os.path.join(tempfile.gettempdir(), "oranssi-%s-*" % prop), shell=True)

    viol = [r for r in res if r["violation"]]
    errs = [r for r in res if r["error"]]
    hashes, labels, samples = set(), {}, []
    for r in sorted(res, key=lambda r: r["idx"]):
        hashes |= r["hashes"]
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"]
    ev = {
        "property": prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in res),
            "distinct_nontrivial": len(hashes),
            "rule": gen.RULE,
            "samples": samples[:6],
            "labels": dict(sorted(labels.items())),
            "corpus_cases_replayed": sum(r["corpus"] for r in res),
            "not_run_for_time": sum(r["skipped"] for r in res),
            "shards": len(res), "exhaustive": False,
        },
        "assumptions": getattr(gen, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        v = viol[0]["violation"]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        path = os.path.join(ROOT, "replays", "%s-%s.json" % (
            prop, hashlib.sha1(json.dumps(v["case"], sort_keys=True).encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            rec = {"property": prop, "case": v["case"], "msg": v["msg"], "seed": seed}
            if v.get("history"):
                rec["history"] = v["history"]       # cases to run first in the same process
            json.dump(rec, f, indent=1)
        print("%s: %s" % (prop, v["msg"]))
        print("case: " + json.dumps(v["case"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs or len(res) < nsh:
        for r in errs[:2]:
            print(r["error"], file=sys.stderr)
        print("%s: check error (%d shards failed)" % (prop, len(errs) or nsh - len(res)), file=sys.stderr)
        return 2
    if ev["coverage"]["evaluations"] == 0 or not hashes:
        print("%s: nothing non-trivial was explored" % prop, file=sys.stderr)
        return 2
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: ok, %d cases, %d distinct non-trivial, %.1f s" % (
        prop, ev["coverage"]["evaluations"], len(hashes), ev["wall_s"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())
