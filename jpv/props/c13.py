"""C13: a failing object spoils only its own place when fail-safe is on."""

import jsonpickle
from hypothesis import strategies as st
from jsonpickle import handlers

from .. import compare, gen, graph, zoo
from ..core import Violation, lib, short

BUDGET = {"quick": 4000, "thorough": 60000}
# a failing state that is replaced by null is no state
KINDS = gen.family(exclude=("RedAny",))
BOMBS = gen.family("bomb")
LEAF = gen.leaf("enum", "type", "func", "std", "nul", "cx", "ba", "mod", "rng")
RETURNS = ["failed", None, 7, "py/object", "", 2.5, True]
BOMB_TYPES = tuple(zoo.KINDS[b].cls for b in BOMBS)


@handlers.register(zoo.BombHandled)
class BombHandler(handlers.BaseHandler):
    def flatten(self, obj, data):
        data["parts"] = [self.context.flatten(v, reset=False) for v in vars(obj).values()]
        zoo.explode(obj)

    def restore(self, data):
        raise AssertionError("never encoded")


def strategy(tier):
    return st.fixed_dictionaries({
        "graph": gen.graph(KINDS + BOMBS * 6, LEAF, max_nodes=14 if tier == "thorough" else 9, inst=6,
                           containers="LLDDTSFM"),
        "value": st.sampled_from(RETURNS),
        "keys": st.sampled_from([False, False, True]),
        "stop": st.sampled_from([None] * 6 + [KeyboardInterrupt, SystemExit]).map(
            lambda e: e and e.__name__),
    })




def check(case, ctx):
    root, objs, nodes = graph.build(case["graph"])
    value = case["value"]
    keys = case["keys"]
    zoo.FAILURES.clear()
    told = []

    def fail_safe(exc):
        told.append(exc)
        return value

    if case["stop"]:
        zoo.INTERRUPT[:] = [KeyboardInterrupt if case["stop"] == "KeyboardInterrupt" else SystemExit]
        try:
            jsonpickle.encode(root, fail_safe=fail_safe, keys=keys)
        except (KeyboardInterrupt, SystemExit) as exc:
            if exc is not zoo.FAILURES[0] or told:
                raise Violation(f"{case['stop']} did not stop the encode at once") from None
        except Exception as exc:
            raise Violation(f"encode raised {short(exc)}") from exc
        else:
            if zoo.FAILURES:
                raise Violation(f"{case['stop']} was swallowed") from None
        finally:
            zoo.INTERRUPT.clear()
        ctx.nontrivial = bool(zoo.FAILURES)
        ctx.label("interrupted" if zoo.FAILURES else "no failure")
        return
    text = lib("encode", jsonpickle.encode, root, fail_safe=fail_safe, keys=keys)
    failures = list(zoo.FAILURES)
    ctx.label(f"{min(len(failures), 4)} failures")
    ctx.nontrivial = bool(failures)
    if len(told) != len(failures) or any(a is not b for a, b in zip(told, failures)):
        raise Violation(f"{len(failures)} failures {short(failures)}, but the callback was given {short(told)}")
    dec = lib("decode", jsonpickle.decode, text, keys=keys)
    compare.same_graph(root, dec, ordered=not keys,
                       resolve=lambda o: value if type(o) in BOMB_TYPES else o)
    if not failures:
        return
    root, objs, nodes = graph.build(case["graph"])
    zoo.FAILURES.clear()
    try:
        jsonpickle.encode(root, keys=keys)
    except Exception as exc:
        if exc is not zoo.FAILURES[0]:
            raise Violation(f"{short(zoo.FAILURES[0])} was raised but the caller got {short(exc)}") from exc
    else:
        raise Violation(f"{short(zoo.FAILURES)} was raised but the encode succeeded")
    if len(zoo.FAILURES) != 1:
        raise Violation("the encode went on after the failure")
