"""One worker process: runs its share of a property's generated cases."""
import ast
import hashlib
import importlib
import json
import mmap
import os
import resource
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")

import hypothesis
from hypothesis import HealthCheck, Phase, settings

import hypothesis.internal.conjecture.engine as _engine

_engine.MAX_SHRINKING_SECONDS = 60

import build  # also turns the current library off
import core

# Seconds of work after which a worker stops generating (quick tier): reported
# in the evidence, never a verdict.
SOFT = {"quick": 420, "thorough": 4 * 3600}
CASE_ALARM = 90


SLOW = float(os.environ.get("PBT_SLOW", "0"))


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


class Current:
    """The case under execution, kept where the driver can read it if this
    process dies."""

    def __init__(self, path, size=1 << 20):
        self.path = path
        self.size = size
        with open(path, "wb") as f:
            f.truncate(size)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), size)
        self.last = 0

    def set(self, sub, text):
        data = (sub + "\n" + text).encode("utf8", "replace")[: self.size - 12]
        self.m[:12] = b"%-12d" % len(data)
        self.m[12 : 12 + len(data)] = data
        now = time.time()
        if now - self.last > 2:
            self.last = now
            os.utime(self.path)


def known_findings(prop):
    import run

    return run.known_findings(prop)


def main():
    prop, shard, nshards, seed, tier, wdir = sys.argv[1:7]
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "props"))
    mod = importlib.import_module(prop)
    subs = mod.SUBS

    if "PBT_REPLAY" in os.environ:
        with open(os.environ["PBT_REPLAY"]) as f:
            rep = json.load(f)
        sub = [s for s in subs if s.name == rep["sub"]][0]
        ctx = core.Ctx(sub.name)
        core.STRICT = True
        sub.check(ast.literal_eval(rep["case"]), ctx)
        print("replayed without failure")
        return 0

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    cur = Current(os.path.join(wdir, "current"))
    signal.signal(signal.SIGALRM, _alarm)
    t0 = time.time()
    soft = SOFT[tier]
    evaluations = skipped = 0
    per_sub = {}
    labels = {}
    hashes = set()
    samples = []
    failure = None
    error = None
    known_out = []

    def finish():
        with open(os.path.join(wdir, "hashes"), "wb") as f:
            f.write(b"".join(sorted(hashes)))
        with open(os.path.join(wdir, "result.json.tmp"), "w") as f:
            json.dump(
                dict(
                    evaluations=evaluations,
                    skipped=skipped,
                    subs=per_sub,
                    labels=labels,
                    samples=samples,
                    failure=failure,
                    error=error,
                    known=known_out,
                    rule=mod.RULE,
                    assumptions=getattr(mod, "ASSUMPTIONS", []),
                ),
                f,
            )
        os.replace(os.path.join(wdir, "result.json.tmp"), os.path.join(wdir, "result.json"))

    by_name = {s.name: s for s in subs}
    state = {"fail": None}

    def execute(sub, case, count=True):
        nonlocal evaluations, skipped, failure
        text = repr(case)
        if time.time() - t0 > soft and state["fail"] is None:
            skipped += 1
            return
        cur.set(sub.name, text)
        ctx = core.Ctx(sub.name)
        if count:
            evaluations += 1
            per_sub[sub.name]["evaluations"] += 1
        signal.alarm(CASE_ALARM)
        try:
            try:
                t1 = time.time()
                sub.check(case, ctx)
            finally:
                signal.alarm(0)
                if SLOW and time.time() - t1 > SLOW:
                    print("SLOW %.1f s %s %s" % (time.time() - t1, sub.name, text), flush=True)
        except hypothesis.errors.UnsatisfiedAssumption:
            raise
        except Hang:
            # not shrunk: every attempt would take as long
            failure = {
                "sub": sub.name,
                "case": text,
                "error": "no answer after %d s (hang)\n%s" % (CASE_ALARM, traceback.format_exc()),
            }
            finish()
            sys.stdout.flush()
            os._exit(0)
        except Exception as e:
            if state["fail"] is None:
                open(os.path.join(wdir, "shrinking"), "w").close()
            state["fail"] = {
                "sub": sub.name,
                "case": text,
                "error": "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:]),
            }
            raise
        if count and ctx.nontrivial:
            per_sub[sub.name]["nontrivial"] += 1
            h = hashlib.blake2b((sub.name + text).encode("utf8", "replace"), digest_size=8).digest()
            new = h not in hashes
            hashes.add(h)
            n = sum(1 for s in samples if s["check"] == sub.name)
            if new and n < 2 and len(text) < 1500 and per_sub[sub.name]["nontrivial"] > 5 * (n + 1):
                samples.append({"check": sub.name, "case": text})
        if count:
            for l in ctx.labels:
                key = sub.name + ": " + l
                labels[key] = labels.get(key, 0) + 1

    for s in subs:
        per_sub[s.name] = {"evaluations": 0, "nontrivial": 0}

    # 1. recorded cases: regressions of repaired defects and boundary cases
    core.STRICT = True
    if shard == 0:
        import run

        known = run.known_findings(prop)
        for k in known:
            sub = by_name[k["sub"]]
            cur.set(sub.name, k["case"])
            try:
                sub.check(ast.literal_eval(k["case"]), core.Ctx(sub.name))
            except Exception:
                known_out.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        path = os.path.join(run.VERIF, "corpus", prop + ".txt")
        if os.path.exists(path):
            with open(path) as f:
                for line in f:
                    if not line.strip() or line.startswith("#"):
                        continue
                    name, text = line.split("\t", 1)
                    try:
                        execute(by_name[name], ast.literal_eval(text.strip()))
                    except Exception:
                        failure = state["fail"]
                        finish()
                        return 0

    core.STRICT = False

    # 2. generated cases
    order = list(range(len(subs)))
    order = order[shard % len(order) :] + order[: shard % len(order)]
    for idx in order:
        sub = subs[idx]
        total = sub.quick if tier == "quick" else sub.thorough
        if not total:
            continue  # only for known findings and regressions
        n = (total + nshards - 1) // nshards
        if os.environ.get("PBT_SCALE"):
            n = max(1, int(n * float(os.environ["PBT_SCALE"])))
        if os.environ.get("PBT_ONLY") and sub.name not in os.environ["PBT_ONLY"].split(","):
            continue
        s = int.from_bytes(
            hashlib.blake2b(
                ("%d/%s/%s/%d" % (seed, prop, sub.name, shard)).encode(), digest_size=6
            ).digest(),
            "big",
        )
        ts = time.time()

        @hypothesis.seed(s)
        @settings(
            max_examples=n,
            deadline=None,
            database=None,
            derandomize=False,
            report_multiple_bugs=False,
            print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink),
        )
        @hypothesis.given(sub.strategy)
        def test(case):
            execute(sub, case)

        try:
            test()
        except Exception as e:
            if state["fail"] is not None:
                failure = state["fail"]
            else:
                error = "harness: " + "".join(
                    traceback.format_exception(type(e), e, e.__traceback__)
                )
            break
        per_sub[sub.name]["seconds"] = round(time.time() - ts, 1)
    finish()
    return 0


if __name__ == "__main__":
    sys.exit(main())
