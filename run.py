"""Run the check of one property: ``run.py C01``.

Exit 0: held on everything explored. Exit 1: violated, with a VIOLATION line.
Exit 2: the check itself failed.
"""

import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = sys.executable
WORKERS = int(os.environ.get("JPV_WORKERS", "8"))
EVIDENCE = os.environ.get("JPV_EVIDENCE", os.path.join(VERIF, "evidence"))
LIMIT = {"quick": 700, "thorough": 7200}


def child_env():
    env = dict(os.environ)
    env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF,
               PYTHONWARNINGS="ignore", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", TZ="UTC", LC_ALL="C.UTF-8", PYTHONUTF8="1")
    return env


def replay_case(prop, text, timeout=120):
    """(violated, message) of one case in a fresh process."""
    try:
        p = subprocess.run([PY, "-m", "jpv.worker", "--replay", prop], cwd=VERIF, env=child_env(),
                           input=text.encode("utf-8", "surrogatepass"), capture_output=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "the case did not finish"
    out = p.stdout.decode("utf-8", "replace").strip()
    if p.returncode == 0:
        return False, out
    if p.returncode == 1 and out.startswith("FAIL"):
        return True, out[5:]
    if p.returncode < 0:
        return True, f"the interpreter died with signal {-p.returncode}"
    raise RuntimeError(p.stderr.decode("utf-8", "replace")[-3000:])


def known_findings(prop):
    """The findings listed for this property: [(case text, what)]."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    with open(path, encoding="utf-8") as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) case=(.*?) what=(.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def write_replay(prop, seed, tier, case, error):
    folder = os.path.join(EVIDENCE, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}.txt")
    with open(path, "w", encoding="utf-8", errors="surrogatepass") as f:
        f.write(f"# property {prop}, found with VERIF_SEED={seed} VERIF_TIER={tier}\n")
        for line in error.splitlines() or [""]:
            f.write(f"# {line}\n")
        f.write(f"# re-run with: {PY} replay.py {path}\n")
        f.write(case + "\n")
    return path


def selftest():
    """What setup_cmd runs: the tools load and the oracle notices a difference."""
    code = ("from jpv import boot; boot.setup(); boot.import_jsonpickle(); import hypothesis, numpy, pandas;"
            "from jpv import core; from jpv.compare import Comparer")
    p = subprocess.run([PY, "-c", code], cwd=VERIF, env=child_env())
    print("selftest", "ok" if p.returncode == 0 else "failed")
    return p.returncode


def main():
    if sys.argv[1:] == ["--selftest"]:
        return selftest()
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    start = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    sys.path.insert(0, VERIF)
    with open(os.path.join(VERIF, "jpv", "info.json")) as f:
        info = json.load(f)[prop]
    scratch = tempfile.mkdtemp(prefix=f"jpv-{prop}-")
    try:
        return explore(prop, tier, seed, info, scratch, start)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(prop, tier, seed, info, scratch, start):
    for text, what in known_findings(prop):
        bad, msg = replay_case(prop, text)
        if bad:
            print(f"KNOWN-FINDING: property={prop} {what}")

    procs = []
    for i in range(WORKERS):
        out = os.path.join(scratch, f"w{i}.json")
        cur = os.path.join(scratch, f"w{i}.cur")
        log = open(os.path.join(scratch, f"w{i}.log"), "wb")
        p = subprocess.Popen([PY, "-m", "jpv.worker", prop, str(seed), str(i), str(WORKERS), tier,
                              out, cur], cwd=VERIF, env=child_env(), stdout=log,
                             stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        procs.append((p, out, cur, log))

    results = {}
    crashed = []
    errors = []
    deadline = start + LIMIT[tier]
    timed_out = False
    pending = set(range(WORKERS))
    while pending:
        time.sleep(0.02)
        for i in sorted(pending):
            p, out, cur, log = procs[i]
            if p.poll() is None:
                continue
            pending.discard(i)
            log.close()
            if os.path.exists(out):
                with open(out) as f:
                    results[i] = json.load(f)
                if results[i]["status"] == "error":
                    errors.append(results[i]["error"])
            else:
                with open(log.name, "rb") as f:
                    tail = f.read()[-3000:].decode("utf-8", "replace")
                case = b""
                if os.path.exists(cur):
                    with open(cur, "rb") as f:
                        case = f.read()
                crashed.append((p.returncode, case.decode("utf-8", "surrogatepass"), tail))
        if any(r["status"] == "violation" for r in results.values()):
            break
        if time.time() > deadline:
            timed_out = True
            break
    for i in pending:
        procs[i][0].kill()
    for i in pending:
        procs[i][0].wait()
        procs[i][3].close()

    violation = None
    for i in sorted(results):
        r = results[i]
        if r["status"] == "violation":
            violation = (r["found"]["case"], r["found"]["error"])
            break
    if violation is None:
        for code, case, tail in crashed:
            if code < 0 and case:
                bad, msg = replay_case(prop, case)
                if bad:
                    violation = (case, msg)
                    break
            errors.append(f"worker ended with status {code}\n{tail}")

    distinct = set()
    labels = {}
    samples = []
    extra = {}
    for r in results.values():
        distinct.update(r["distinct"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples.extend(r["samples"])
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v if isinstance(v, int) else v
    coverage = {
        "evaluations": sum(r["evaluations"] for r in results.values()),
        "distinct_nontrivial": len(distinct),
        "rule": info["rule"],
        "samples": samples[:6] or (["(no sample short enough)"] if not violation else [violation[0]]),
        "labels": labels,
        "workers": WORKERS,
    }
    if extra:
        coverage["extra"] = extra
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": info["level"],
        "coverage": coverage, "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - start, 2), "violations": 1 if violation else 0,
    }
    path = os.path.join(EVIDENCE, f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

    if violation:
        replay = write_replay(prop, seed, tier, *violation)
        print(violation[1])
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors or timed_out or len(results) != WORKERS:
        for e in errors:
            print(e, file=sys.stderr)
        if timed_out:
            print("the check did not finish in time", file=sys.stderr)
        return 2
    print(f"{prop}: {coverage['evaluations']} cases, {len(distinct)} distinct non-trivial, "
          f"{evidence['wall_s']} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
