#!/usr/bin/env python3
"""Driver: decides one property against /repo's current working tree.

    python3-vt pbt/run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Builds the extension from /repo's sources into a scratch package, runs the
property's generated-input checks in parallel worker processes, writes
/verif/evidence/<PROPERTY>.json and exits 0 (held) or 1 (VIOLATION).
"""
import ast
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PBT_REPO", "/repo")
ASAN = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-omit-frame-pointer")


def source_key(flags):
    h = hashlib.sha256(repr(flags).encode())
    for f in ("clipper.cpp", "clipper.hpp"):
        with open(os.path.join(REPO, "gdspy", f), "rb") as fin:
            h.update(fin.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def build_extension(flags=("-O2",)):
    """Compile gdspy.clipper from the working tree; cached by content."""
    import sysconfig

    cache = os.path.join(VERIF, ".build")
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, source_key(flags) + ".so")
    if not os.path.exists(out):
        inc = sysconfig.get_paths()["include"]
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = (
            ["g++", "-shared", "-fPIC", "-DNDEBUG", "-fwrapv", "-w"]
            + list(flags)
            + ["-I" + inc, "-I" + os.path.join(REPO, "gdspy")]
            + [os.path.join(REPO, "gdspy", "clipper.cpp"), "-o", tmp]
        )
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            sys.stderr.write(r.stdout.decode("utf8", "replace")[-4000:])
            raise SystemExit(2)
        os.replace(tmp, out)
    return out


def make_package(scratch, so):
    """A package tree whose .py files are links to /repo's working tree."""
    pkg = os.path.join(scratch, "pkg", "gdspy")
    os.makedirs(pkg)
    src = os.path.join(REPO, "gdspy")
    for name in os.listdir(src):
        if name.endswith((".so", ".cpp", ".hpp")) or name == "__pycache__":
            continue
        os.symlink(os.path.join(src, name), os.path.join(pkg, name))
    shutil.copy(so, os.path.join(pkg, "clipper.cpython-312-x86_64-linux-gnu.so"))
    return os.path.dirname(pkg)


def worker_env(pkgdir, scratch):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=pkgdir + os.pathsep + HERE,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONNOUSERSITE="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        PBT_SCRATCH=scratch,
        TZ="UTC",
        LC_ALL="C.UTF-8",
    )
    return env


def known_findings(prop):
    """(known, fixed) entries of known_findings.txt for this property."""
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("known: property=%s " % prop):
                    fields = line.split(" | ")
                    known.append(
                        {
                            "sub": fields[1].split("=", 1)[1].strip(),
                            "case": fields[2].split("=", 1)[1].strip(),
                            "what": fields[3].strip(),
                        }
                    )
    return known


def main(argv):
    if argv[0] == "--setup":
        build_extension()
        build_extension(ASAN)
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    workers = int(os.environ.get("PBT_WORKERS", "8"))
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
            i += 2
        elif argv[i] == "--replay":
            replay = argv[i + 1]
            i += 2
        else:
            raise SystemExit("unknown argument " + argv[i])
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % prop, dir=base)
    try:
        rc = run(prop, tier, seed, replay, workers, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def run(prop, tier, seed, replay, workers, scratch, t0):
    so = build_extension()
    pkgdir = make_package(scratch, so)
    env = worker_env(pkgdir, scratch)
    if "asan" in open(os.path.join(HERE, "props", prop + ".py")).read(2000):
        # this property also wants a sanitizer build of the extension
        env["PBT_ASAN_SO"] = build_extension(ASAN)
    py = sys.executable
    worker = os.path.join(HERE, "worker.py")

    if replay:
        env["PBT_REPLAY"] = os.path.abspath(replay)
        r = subprocess.run([py, worker, prop, "0", "1", str(seed), tier, scratch], env=env)
        return 1 if r.returncode else 0

    procs = []
    for k in range(workers):
        wdir = os.path.join(scratch, "w%d" % k)
        os.makedirs(wdir)
        log = open(os.path.join(wdir, "log"), "wb")
        p = subprocess.Popen(
            [py, worker, prop, str(k), str(workers), str(seed), tier, wdir],
            env=dict(env, PBT_SCRATCH=wdir),
            stdout=log,
            stderr=subprocess.STDOUT,
            start_new_session=True,
        )
        procs.append((k, p, wdir))

    hard = 840 if tier == "quick" else 6 * 3600
    failures = []
    errors = []
    pending = {k: (p, w) for k, p, w in procs}
    results = {}
    first_fail = None
    while pending:
        time.sleep(0.05)
        for k in list(pending):
            p, wdir = pending[k]
            rc = p.poll()
            if rc is None:
                # a case that hangs inside native code never lets the worker
                # report it: the heartbeat file's age tells
                cur = os.path.join(wdir, "current")
                try:
                    age = time.time() - os.stat(cur).st_mtime
                except OSError:
                    age = 0
                if age > 200 and not os.path.exists(os.path.join(wdir, "shrinking")):
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    del pending[k]
                    failures.append(read_current(wdir, "no answer after 200 s (hang)"))
                    if first_fail is None:
                        first_fail = time.time()
                continue
            del pending[k]
            res = os.path.join(wdir, "result.json")
            if os.path.exists(res):
                with open(res) as f:
                    results[k] = json.load(f)
                if results[k].get("failure"):
                    failures.append(results[k]["failure"])
                    if first_fail is None:
                        first_fail = time.time()
                if results[k].get("error"):
                    errors.append(results[k]["error"])
            elif rc < 0 or rc >= 128 or rc == 99:
                if rc == -9:
                    errors.append("worker %d was killed (out of memory?)" % k)
                    continue
                failures.append(read_current(wdir, "process died with status %d" % rc))
                if first_fail is None:
                    first_fail = time.time()
            else:
                with open(os.path.join(wdir, "log"), "rb") as f:
                    errors.append(
                        "worker %d exited %d:\n%s" % (k, rc, f.read()[-3000:].decode("utf8", "replace"))
                    )
        stop = None
        if first_fail is not None and time.time() - first_fail > 5:
            stop = "after failure"
        if time.time() - t0 > hard:
            stop = "time limit"
        if stop:
            for k in list(pending):
                p, wdir = pending.pop(k)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                if stop == "time limit":
                    errors.append("worker %d did not finish in time" % k)

    # aggregate
    evaluations = sum(r["evaluations"] for r in results.values())
    distinct = set()
    for k in results:
        path = os.path.join(scratch, "w%d" % k, "hashes")
        if os.path.exists(path):
            data = open(path, "rb").read()
            distinct.update(data[i : i + 8] for i in range(0, len(data), 8))
    labels = {}
    subs = {}
    samples = []
    skipped = 0
    rule = ""
    assumptions = []
    known_lines = {}
    for k in sorted(results):
        r = results[k]
        rule = r["rule"]
        assumptions = r["assumptions"]
        skipped += r["skipped"]
        for a, b in r["labels"].items():
            labels[a] = labels.get(a, 0) + b
        for a, b in r["subs"].items():
            s = subs.setdefault(a, {"evaluations": 0, "nontrivial": 0})
            s["evaluations"] += b["evaluations"]
            s["nontrivial"] += b["nontrivial"]
        if len(samples) < 12:
            samples += r["samples"][: 3 if k else 6]
        for line in r["known"]:
            known_lines[line] = 1

    failures.sort(key=lambda f: len(f["case"]))
    replay_path = None
    if failures:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        replay_path = os.path.join(VERIF, "replay", "%s.json" % prop)
        with open(replay_path, "w") as f:
            json.dump(dict(failures[0], property=prop), f, indent=1)

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": rule,
            "samples": samples,
            "per_check": subs,
            "labels": dict(sorted(labels.items())),
            "skipped_after_time_budget": skipped,
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for line in sorted(known_lines):
        print(line)
    if failures:
        f = failures[0]
        print("%s / %s" % (prop, f["sub"]))
        print("case: %s" % f["case"][:4000])
        print(f["error"][-3000:])
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
        return 1
    if errors:
        sys.stderr.write("\n".join(errors)[-6000:] + "\n")
        return 2
    print(
        "%s held: %d cases, %d distinct non-trivial, %.1f s"
        % (prop, evaluations, len(distinct), time.time() - t0)
    )
    return 0


def read_current(wdir, what):
    try:
        with open(os.path.join(wdir, "current"), "rb") as f:
            data = f.read()
        n = int(data[:12])
        sub, case = data[12 : 12 + n].decode("utf8").split("\n", 1)
    except Exception as e:  # nothing recorded: report what is known
        sub, case = "?", "unknown (%r)" % (e,)
    try:
        with open(os.path.join(wdir, "log"), "rb") as f:
            log = f.read()[-2500:].decode("utf8", "replace")
    except OSError:
        log = ""
    return {"sub": sub, "case": case, "error": what + "\n" + log}


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
