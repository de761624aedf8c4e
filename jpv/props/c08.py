"""C08: concurrent and re-entrant calls do not disturb each other.

The threads of a case run one at a time: a trace function stops the running thread at every line of the library and
hands control to the thread that the generated schedule names.
"""

import os
import re
import sys
import threading

import jsonpickle
from hypothesis import strategies as st
from jsonpickle import handlers

from .. import compare, gen, graph, zoo
from ..core import Violation, outcome, short

BUDGET = {"quick": 1100, "thorough": 9000}
KINDS = gen.family() + gen.family("nest") * 5 + [k for k in gen.family("bomb") if k != "BombIter"]
LEAF = gen.leaf("enum", "type", "func", "steady", "nul", "cx", "ba", "mod", "rng", "float")
KEY = st.one_of(gen.str_key, gen.str_key, gen.small_int, st.tuples(st.just("@"), st.integers(0, 9)))
ENCODE = [{}, {}, {}, {"make_refs": False}, {"unpicklable": False}, {"keys": True}, {"max_depth": 3},
          {"fail_safe": lambda exc: "failed"}, {"use_base85": True, "include_properties": True},
          {"numeric_keys": True}, {"handler_context": 1}, {"indent": 2}]
DECODE = [{}, {}, {"on_missing": "error"}, {"handler_context": 1}, {"classes": {"jpv.zoo.Plain": zoo.PlainEq}}]
INNER = [{}, {}, {"unpicklable": False}, {"make_refs": False}, {"keys": True}]
HOME = os.path.dirname(jsonpickle.__file__)


@handlers.register(zoo.NestHandled)
class NestHandler(handlers.BaseHandler):
    def flatten(self, obj, data, handler_context=None):
        data["before"] = self.context.flatten(vars(obj).get("a"), reset=False)
        data["text"] = zoo.NEST["encode"](obj)
        data["context"] = handler_context
        data["after"] = self.context.flatten(vars(obj).get("b"), reset=False)
        return data

    def restore(self, data, handler_context=None):
        out = zoo.NestHandled.__new__(zoo.NestHandled)
        out.a = self.context.restore(data["before"], reset=False)
        out.inner = zoo.NEST["decode"](out, data["text"])
        out.seen = (data["context"], handler_context)
        out.b = self.context.restore(data["after"], reset=False)
        return out


def strategy(tier):
    deep = tier == "thorough"
    recipe = gen.graph(KINDS, LEAF, key=KEY, max_nodes=9 if deep else 6, containers="LLDDTSFM")
    op = st.one_of(
        st.tuples(st.just("encode"), st.integers(0, 2), st.integers(0, len(ENCODE) - 1)),
        st.tuples(st.just("encode"), st.integers(0, 2), st.integers(0, len(ENCODE) - 1)),
        st.tuples(st.just("decode"), st.integers(0, 2), st.integers(0, len(DECODE) - 1)),
    )
    steps = st.sampled_from([1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144])
    return st.fixed_dictionaries({
        "graphs": st.lists(recipe, min_size=1, max_size=3),
        "threads": st.sampled_from([1, 2, 2, 2, 3]).flatmap(
            lambda n: st.lists(st.lists(op, min_size=1, max_size=2), min_size=n, max_size=n)),
        "schedule": st.lists(st.tuples(st.integers(0, 2), steps), min_size=1, max_size=12),
        "inner": st.tuples(st.integers(0, 2), st.integers(0, len(INNER) - 1)),
    })


def steady(x):
    return re.sub("0x[0-9a-f]{6,}|\\d{12,}", "0x", repr(x))


class Level(threading.local):
    depth = 0


class Scheduler:
    """Runs functions in threads, one line of the library at a time."""

    LIMIT = 60000

    def __init__(self, jobs, schedule):
        self.jobs = jobs
        self.results = [None] * len(jobs)
        self.schedule = schedule
        self.gates = [threading.Semaphore(0) for _ in jobs]
        self.alive = [True] * len(jobs)
        self.done = threading.Semaphore(0)
        self.pos = 0
        self.left = 0
        self.current = None
        self.switches = 0
        self.steps = 0
        self.aborted = False

    def choose(self):
        """The next thread according to the schedule, which is repeated until all are done."""
        who, self.left = self.schedule[self.pos % len(self.schedule)]
        self.pos += 1
        n = len(self.jobs)
        for i in range(n):
            if self.alive[(who + i) % n]:
                return (who + i) % n
        return None

    def point(self):
        if self.aborted:
            raise SystemExit
        me = self.current
        self.steps += 1
        self.left -= 1
        if self.left > 0 or self.steps > self.LIMIT:
            return
        nxt = self.choose()
        if nxt != me:
            self.switches += 1
            self.current = nxt
            self.gates[nxt].release()
            self.gates[me].acquire()

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(HOME):
            return self.local
        return None

    def local(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.local

    def body(self, me):
        self.gates[me].acquire()
        try:
            sys.settrace(self.trace)
            try:
                self.results[me] = self.jobs[me]()
            finally:
                sys.settrace(None)
        except BaseException as exc:  # handed to the caller
            self.results[me] = exc
        self.alive[me] = False
        nxt = self.choose()
        self.current = nxt
        if nxt is None:
            self.done.release()
        else:
            self.gates[nxt].release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in threads:
            t.start()
        try:
            self.current = self.choose()
            self.gates[self.current].release()
            self.done.acquire()
        except BaseException:
            self.aborted = True
            for g in self.gates:
                g.release()
            raise
        for t in threads:
            t.join()
        for r in self.results:
            if isinstance(r, BaseException):
                raise r
        return self.results


class Nest:
    """What the hooks of the nesting objects do: call the library, or give the answer recorded before."""

    def __init__(self, inner, opts):
        self.inner = inner
        self.opts = opts
        self.level = Level()
        self.live = False
        self.calls = 0
        self.wrong = None
        # the answers of the calls on their own; the hooks they run make no calls yet
        self.alone = outcome(jsonpickle.encode, inner, **opts)
        if self.alone[0] == "ok":
            self.back = outcome(jsonpickle.decode, self.alone[1], keys=bool(opts.get("keys")))

    def encode(self, obj):
        if self.level.depth:
            return "deep"
        if self.live:
            self.level.depth += 1
            try:
                self.calls += 1
                got = outcome(jsonpickle.encode, self.inner, **self.opts)
            finally:
                self.level.depth -= 1
            if steady(got) != steady(self.alone):
                self.wrong = f"encode called from a hook gave {short(got, 300)} instead of {short(self.alone, 300)}"
        return steady(self.alone[1]) if self.alone[0] == "ok" else "failed"

    def decode(self, obj, text):
        if self.level.depth or not self.live or self.alone[0] != "ok":
            return None
        self.level.depth += 1
        try:
            self.calls += 1
            got = outcome(jsonpickle.decode, self.alone[1], keys=bool(self.opts.get("keys")))
        finally:
            self.level.depth -= 1
        try:
            if got[0] == self.back[0] == "ok":
                compare.same_graph(self.back[1], got[1])
            elif steady(got) != steady(self.back):
                raise Violation(f"{short(got, 300)} instead of {short(self.back, 300)}")
        except Violation as exc:
            self.wrong = f"decode called from a hook: {exc}"
        return None


def check(case, ctx):
    graphs = [graph.build(g)[0] for g in case["graphs"]]
    which, opts = case["inner"]
    zoo.NEST.update(encode=lambda obj: "deep", decode=lambda obj, text: None)
    nest = Nest(graphs[which % len(graphs)], INNER[opts])
    zoo.NEST.update(encode=nest.encode, decode=nest.decode)
    texts = []
    for g in graphs:
        res = outcome(jsonpickle.encode, g, fail_safe=lambda exc: None)
        texts.append(res[1] if res[0] == "ok" else "[")

    def perform(op):
        what, g, o = op
        if what == "encode":
            return outcome(jsonpickle.encode, graphs[g % len(graphs)], **ENCODE[o])
        return outcome(jsonpickle.decode, texts[g % len(texts)], **DECODE[o])

    alone = [[perform(op) for op in ops] for ops in case["threads"]]
    nest.live = True
    jobs = [lambda ops=ops: [perform(op) for op in ops] for ops in case["threads"]]
    sched = Scheduler(jobs, case["schedule"])
    together = sched.run()
    zoo.FAILURES.clear()
    if nest.wrong:
        raise Violation(nest.wrong)
    for ops, want, got in zip(case["threads"], alone, together):
        for op, w, g in zip(ops, want, got):
            if op[0] == "decode" and w[0] == g[0] == "ok":
                compare.same_graph(w[1], g[1])
            elif steady(w) != steady(g):
                raise Violation(f"{op} gave {short(g, 300)} while other calls were in progress, {short(w, 300)} alone")
    if nest.calls:
        ctx.label("nested calls")
    if sched.switches >= 2:
        ctx.label("interleaved")
    if sched.switches >= 20:
        ctx.label("20 switches")
    ctx.nontrivial = bool(nest.calls or sched.switches >= 2)
