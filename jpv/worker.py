"""One worker process: runs a property's strategy through its check and reports."""

import ast
import faulthandler
import hashlib
import importlib
import json
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

from . import boot

boot.setup()

from .core import CaseTimeout, Ctx, Violation  # noqa: E402

CASE_SECONDS = 20
MEMORY = 6 << 30


def load(prop):
    boot.import_jsonpickle()
    return importlib.import_module(f"jpv.props.{prop.lower()}")


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case, seconds=CASE_SECONDS):
    """Run one case. Returns its Ctx; raises Violation, or anything else for harness errors."""
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.check(case, ctx)
    except CaseTimeout:
        raise TimeoutViolation(f"the case did not finish within {seconds} s") from None
    except MemoryError as exc:
        raise Violation(f"out of memory: {exc}") from exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ctx


class TimeoutViolation(Violation):
    pass


def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.labels = {}
        self.samples = []

    def add(self, case, ctx):
        self.evaluations += 1
        for name in set(ctx.labels):
            self.labels[name] = self.labels.get(name, 0) + 1
        if ctx.nontrivial:
            text = repr(case)
            h = hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
            if h not in self.distinct:
                self.distinct.add(h)
                n = len(self.distinct)
                if n in (3, 30, 300) and len(text) < 2500:
                    self.samples.append(text)


def main(argv):
    prop, seed, idx, count, tier, out, cur = argv
    seed, idx, count = int(seed), int(idx), int(count)
    limit_memory()
    faulthandler.enable(open(out + ".fault", "w"))
    mod = load(prop)
    import hypothesis
    import hypothesis.internal.conjecture.engine as engine
    from hypothesis import HealthCheck, Phase, given, settings

    engine.MAX_SHRINKING_SECONDS = 40

    stats = Stats()
    found = {}
    curfd = os.open(cur, os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    start = time.time()

    def note(case):
        data = repr(case).encode("utf-8", "surrogatepass")
        os.ftruncate(curfd, 0)
        os.pwrite(curfd, data, 0)

    def one(case):
        note(case)
        try:
            ctx = run_case(mod, case)
        except TimeoutViolation as exc:
            # Shrinking would take forever.
            found.update(case=repr(case), error=str(exc))
            raise _Stop() from None
        except Violation as exc:
            text = repr(case)
            if not found or len(text) <= len(found["case"]):
                found.update(case=text, error=str(exc))
            raise
        stats.add(case, ctx)

    class _Stop(BaseException):
        pass

    status = "ok"
    error = ""
    try:
        examples = list(getattr(mod, "EXAMPLES", []))
        for case in examples[idx::count]:
            one(case)
        n = mod.BUDGET[tier]
        n = max(1, int(n * float(os.environ.get("JPV_SCALE", "1"))))
        digest = hashlib.sha256(f"{prop}/{seed}/{idx}".encode()).digest()
        random.seed(0)
        test = given(mod.strategy(tier))(one)
        test = hypothesis.seed(int.from_bytes(digest[:8], "big"))(test)
        test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                        phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                        suppress_health_check=list(HealthCheck), verbosity=hypothesis.Verbosity.quiet,
                        print_blob=False)(test)
        test()
    except _Stop:
        status = "violation"
    except BaseException as exc:
        if found and not isinstance(exc, KeyboardInterrupt):
            # Violation, or Hypothesis noticing that a violation is not deterministic.
            status = "violation"
        else:
            status = "error"
            error = "".join(traceback.format_exception(exc))[-6000:]
    labels = dict(sorted(stats.labels.items()))
    extra = mod.summary() if hasattr(mod, "summary") else {}
    with open(out + ".tmp", "w") as f:
        json.dump({"status": status, "error": error, "found": found,
                   "evaluations": stats.evaluations, "distinct": sorted(stats.distinct),
                   "labels": labels, "samples": stats.samples, "extra": extra,
                   "wall": time.time() - start}, f)
    os.replace(out + ".tmp", out)
    os._exit(0)


def replay(prop, case_text):
    """Run one case in this process; prints the outcome; exit 0/1/2."""
    limit_memory()
    mod = load(prop)
    try:
        run_case(mod, ast.literal_eval(case_text))
    except Violation as exc:
        print(f"FAIL {exc}")
        return 1
    print("PASS")
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2], sys.stdin.buffer.read().decode("utf-8", "surrogatepass")))
    main(sys.argv[1:])
