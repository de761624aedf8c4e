"""Writes /verif/MANIFEST.json and /verif/jpv/info.json from the table below.

A property is claimed as soon as jpv/props/<id>.py exists.
"""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A_CPY = "CPython 3.12 with the installed versions of the optional packages"
A_ZOO = "object shapes are those of jpv/zoo.py and jpv/dyn.py; edges that no decoder could restore are cut (graph.normalise)"
T = {}


def t(prop, technique, rule, *assumptions):
    T[prop] = (technique, rule, [A_CPY, *assumptions])


t("C01", "Hypothesis-generated nestings of built-in values; oracle: exact typed comparison after encode/decode",
  "the value nests at least one container inside another, or contains a non-ASCII, markup-like or edge-case scalar")
t("C02", "Hypothesis-generated instance graphs over a zoo of class shapes and hook combinations; oracle: class and state comparison with the original",
  "at least one instance with non-empty state was encoded and compared", A_ZOO)
t("C03", "Hypothesis-generated directed graphs mixing all node kinds; oracle: graph isomorphism including identity",
  "the graph has a node with two or more incoming references or a cycle", A_ZOO)
t("C04", "Hypothesis-generated dictionaries with arbitrary hashable keys, key encoding on; oracle: graph isomorphism including keys",
  "some dictionary has a key that is not a plain string, or a string that looks like markup", A_ZOO)
t("C05", "Hypothesis-generated dictionaries with mixed keys; oracle: independent model of the key texts",
  "some dictionary has a non-string key", A_ZOO)
t("C06", "Hypothesis-generated graphs, option sets and failing objects; oracle: deep snapshot before and after encoding",
  "at least two nodes, one of them an instance", A_ZOO)
t("C07", "Hypothesis-generated histories of calls on fresh and reused contexts with failures; oracle: the same call in isolation",
  "the history has at least three calls and reuses a context or contains a failing call", A_ZOO)
t("C08", "Hypothesis-generated schedules of concurrent and nested calls, run by a deterministic scheduler; oracle: the sequential results",
  "control switched between two calls in progress at least twice, or a call was nested in another")
t("C09", "Hypothesis-generated graphs and layout options; oracle: a strict JSON parser against the flattened structure",
  "the value has at least two nodes or a string that needs escaping", A_ZOO)
t("C10", "Hypothesis-generated graphs encoded without type information; oracle: independent reference projection",
  "the graph has a shared node, a cycle, or an instance", A_ZOO)
t("C11", "Hypothesis-generated graphs encoded without references; oracle: comparison with the unshared tree",
  "the graph has a shared node or a cycle", A_ZOO)
t("C12", "Hypothesis-generated nestings and limits; oracle: reference truncation of the unlimited encoding",
  "the limit cuts something")
t("C13", "Hypothesis-generated graphs with failing objects; oracle: isomorphism with the replaced graph and the callback log",
  "at least one object failed", A_ZOO)
t("C14", "Hypothesis-generated graphs under representation options; oracle: isomorphism with the original",
  "at least one option set and one instance or bytes value present", A_ZOO)
t("C15", "Hypothesis-generated histories of backend management with faulty backends, and graphs across backends; oracle: model of the backend list and differential decoding",
  "the history has at least three management calls, or the graph at least two nodes")
t("C16", "Hypothesis-generated registration histories over a class hierarchy; oracle: model of the registry",
  "at least two registrations or removals preceded the encode")
t("C17", "Hypothesis-generated graphs with handler-managed objects; oracle: isomorphism and handler call log",
  "a handler-managed object is shared, on a cycle, or has delegated parts", A_ZOO)
t("C18", "Hypothesis-generated graphs with renamed, local and missing classes; oracle: model of name resolution",
  "at least one supplied or missing class was met while decoding")
t("C19", "Hypothesis-generated documents with damaged markup; oracle: model of the documented fallbacks",
  "at least one damaged markup payload was decoded")
t("C20", "Hypothesis-generated documents with code-like text in every position; oracle: audit hook and sentinel",
  "at least one code-like text stands in a markup position")
t("C21", "Hypothesis-generated graphs; oracle: independent reader and writer of the wire format",
  "the graph has at least two nodes", A_ZOO)
t("C22", "Hypothesis-generated standard library values in graphs; oracle: typed exact comparison",
  "at least one value of a listed standard library type")
t("C23", "enumeration of importable objects plus Hypothesis-generated graphs holding them; oracle: identity",
  "at least one class, function, module or method was encoded")
t("C24", "Hypothesis-generated arrays, scalars and dtypes; oracle: bitwise comparison",
  "at least one array, scalar or dtype")
t("C25", "Hypothesis-generated families of views followed by writes; oracle: the same writes on the original",
  "at least one view of a base that is also present")
t("C26", "Hypothesis-generated frames, series and indexes; oracle: pandas' exact equality assertions plus per-element types",
  "at least one frame, series, index or scalar")
t("C27", "Hypothesis-generated class shapes and exclusion lists; oracle: search for excluded values in the text, comparison of the rest",
  "at least one attribute was excluded")
t("C28", "Hypothesis-generated graphs and call sequences; oracle: weak references and allocation counts",
  "at least one weakly referenced object was encoded or decoded", A_ZOO)
t("C29", "Hypothesis-generated values written in the stored layouts by an independent writer; oracle: the value itself",
  "the document holds at least one element")
t("C30", "Hypothesis-generated graphs with read-only members; oracle: the encoding of the graph without the attributes that cannot be set, and isomorphism",
  "the graph has an attribute behind a read-only property, an instance of a type without settable attributes, or a dictionary key that names a member", A_ZOO)
t("C31", "Hypothesis-generated graphs of objects with properties; oracle: the encoding without the option plus the property values read directly",
  "the graph has at least two nodes, one of them with properties", A_ZOO)
t("C32", "Hypothesis-generated graphs holding decimals; oracle: exact digits of the numbers written and read",
  "the graph holds at least one decimal", A_ZOO)
t("C33", "Hypothesis-generated graphs with values that cannot be encoded; oracle: the recorded warnings against the positions of such values",
  "at least one value was replaced by null", A_ZOO)
t("C34", "Hypothesis-generated graphs of default dictionaries with factories of every kind; oracle: isomorphism including the products of the factories",
  "the factory of at least one dictionary was neither a class nor missing", A_ZOO)
t("C35", "Hypothesis-generated units repeated into large, deep and bulky graphs; oracle: graph isomorphism with identity",
  "at least twenty objects or hundreds of elements", A_ZOO)
t("C36", "Hypothesis-generated trees of in-memory modules and values from them, decoded with none loaded; oracle: objects and imports that Python itself gives for the names",
  "at least two modules or a module inside a package", A_ZOO)
t("C37", "Hypothesis-generated graphs encoded, decoded and encoded again; oracle: metamorphic relation, both documents are identical",
  "at least two objects", A_ZOO)
t("C38", "Hypothesis-generated graphs, arrays and frames flattened and restored, then changed; oracle: metamorphic relation, each of the parties stays as it was",
  "at least two objects, or an array or frame", A_ZOO)
t("C39", "Hypothesis-generated compositions of standard library objects; oracle: the objects' own reductions before and after",
  "at least one standard library object other than plain containers")

NOTE = ("Sampled exploration of the recipe space by Hypothesis with a fixed seed; every case is decided by the stated oracle. "
        "Holds on everything explored, no claim beyond it.")

info, checks, na = {}, [], []
for prop, (tech, rule, assume) in T.items():
    info[prop] = {"rule": rule, "level": "exploration", "assumptions": assume}
    if os.path.exists(os.path.join(ROOT, "jpv", "props", prop.lower() + ".py")):
        cmd = "/opt/venv/bin/python run.py " + prop
        checks.append({"property": prop, "quick_cmd": cmd, "thorough_cmd": cmd,
                       "evidence_file": f"evidence/{prop}.json",
                       "technique": "property-based testing: " + tech,
                       "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": prop, "reason": "The technique applies; the check is not built yet."})
with open(os.path.join(ROOT, "jpv", "info.json"), "w") as f:
    json.dump(info, f, indent=1)
    f.write("\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python run.py --selftest", "checks": checks,
               "not_applicable": na,
               "notes": "Checks import jsonpickle from /repo's working tree; no build step and no hooks."},
              f, indent=1)
    f.write("\n")
print(len(checks), "claimed")
