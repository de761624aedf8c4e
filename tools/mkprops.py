"""Writes /verif/properties.jsonl (kept as code so that the texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": [observe]}})
PK, UN, UT, HA, BE, TG = ("jsonpickle/pickler.py", "jsonpickle/unpickler.py", "jsonpickle/util.py",
                          "jsonpickle/handlers.py", "jsonpickle/backend.py", "jsonpickle/tags.py")
NP, PD, GM, YA = ("jsonpickle/ext/numpy.py", "jsonpickle/ext/pandas.py", "jsonpickle/ext/gmpy.py", "jsonpickle/ext/yaml.py")

p("C01", "Plain built-in data survives encode then decode exactly",
  "Decoding the text produced by encoding any finite nesting of None, booleans, integers, floats (including NaN, infinities and -0.0), complex numbers, strings, bytes, bytearrays, lists, tuples, sets, frozensets, ranges, slices and string-keyed dicts yields a value of exactly the same types, values and order. Keys and strings that look like jsonpickle's own markup are included, except reserved tag names used as keys when key encoding is off.",
  ["inputs", "configurations"], "Every value of the stated grammar, under every encode option that does not ask for a lossy form.",
  "The tests round-trip a few dozen hand-picked values; the guarantee is about the unbounded set of nestings, text contents and numeric edge cases.",
  [PK, UN, UT], [("flatten primitives and containers", PK + ":_flatten_impl"), ("restore by tag", UN + ":_restore_tags"), ("byte codecs", UT + ":b64encode")],
  "decode(encode(v)) compared with v")
p("C02", "Instances come back as the same class with the same state",
  "Decoding an encoded instance of an importable class yields an instance of exactly that class whose state equals the original's, whichever way the class exposes its state: plain attributes, slots (including inherited and private ones), dataclasses, subclasses of list, dict, set and tuple carrying items and attributes, named tuples, enums, exceptions, and the pickle hooks for constructor arguments, state and reduction. Hooks receive on restore exactly what they produced on encode, and constructors that the pickle protocol bypasses are not run.",
  ["inputs"], "Every instance graph over the supported class shapes with arbitrary attribute values.",
  "Tests exercise each protocol hook with one fixed value; combinations of hooks, attribute values and nesting positions are unbounded.",
  [PK, UN, UT], [("instance flattening", PK + ":_flatten_obj_instance"), ("instance restoring", UN + ":_restore_object_instance"), ("reduce restoring", UN + ":_restore_reduce"), ("hook detection", UT + ":has_reduce")],
  "decoded graph compared attribute by attribute with the input graph")
p("C03", "Sharing and cycles between objects are preserved",
  "Two positions of the decoded graph hold the same list, dict or instance exactly when the corresponding positions of the encoded graph did, including references that form cycles. No position ever holds a wrong object, a missing object or an internal placeholder, whatever other values (of any supported kind) stand between the first occurrence and the reference.",
  ["inputs"], "Every finite directed graph of supported values, with any mixture of node kinds, sharing and cycles.",
  "References are numbered implicitly by traversal order on both sides, so any value that numbers differently on one side corrupts unrelated references later; only generated graphs mix value kinds densely enough to see that.",
  [PK, UN, HA], [("reference numbering when encoding", PK + ":_log_ref"), ("reference numbering when decoding", UN + ":_mkref"), ("forward references", UN + ":_swap_proxies")],
  "graph isomorphism (including identity) between input and decoded graph")
p("C04", "Dictionaries with arbitrary keys survive when key encoding is on",
  "With key encoding enabled on both sides, any dictionary or dict-subclass instance whose keys are any encodable hashable values (numbers, None, bytes, tuples, frozensets, enums, instances, strings that look like markup or reserved tags, but not instances of string subclasses) decodes to a dictionary with exactly the same keys, key types and values. Objects shared between keys, between keys and values, and with the rest of the graph stay shared.",
  ["inputs"], "Every dictionary nesting with keys drawn from all supported hashable values.",
  "The tests use a handful of fixed keys; interactions of escaped keys with references, reserved names and nesting cannot be enumerated by hand.",
  [PK, UN, TG], [("key escaping", PK + ":_escape_key"), ("two-phase dictionary encoding", PK + ":_flatten_dict_obj"), ("two-phase dictionary decoding", UN + ":_restore_dict")],
  "decode(encode(d, keys=True), keys=True) compared with d")
p("C05", "Default key handling turns each key into its documented text",
  "Without key encoding, every entry of a dictionary, dict subclass or default dictionary whose key is not a reserved tag name appears in the decoded result under the key itself if it is a string, under \"null\" if it is None, and otherwise under the key's repr (numbers under their JSON form when numeric keys are requested). The entry's value is unaffected by what kind of key it has, and later entries win when two keys map to the same text.",
  ["inputs", "configurations"], "Every dictionary with mixed key types, nested anywhere, with numeric keys on or off.",
  "Tests cover three or four key types at top level only.",
  [PK], [("key coercion", PK + ":_flatten_key_value_pair")],
  "keys and values of the decoded dictionaries compared with a reference key mapping")
p("C06", "Encoding leaves the encoded objects unchanged",
  "Encoding a value, with any combination of options and whether or not it succeeds, leaves the value and everything reachable from it exactly as it was: same contents, order, attributes, types and identities. The only permitted effect is that one-shot iterators are advanced by as many items as were encoded.",
  ["inputs", "configurations", "fault_sequences"], "Every object graph and option combination, including encodes that fail part way.",
  "A mutation only shows for particular attribute names, containers or options; tests compare outputs, not inputs after the call.",
  [PK, UT, HA], [("read-only attribute probing", PK + ":_flatten_key_value_pair"), ("attribute sorting", PK + ":_sort_attrs"), ("default factory handling", PK + ":_flatten_dict_obj")],
  "deep snapshot of the input graph before and after encode")
p("C07", "Every call is independent of earlier calls",
  "The result of an encode or decode depends only on its arguments and the registered handlers and backends, not on any earlier encode or decode, whether those succeeded or raised and whether they used fresh or reused Pickler and Unpickler objects. Encoding the same value twice gives the same text, and decoding the same text twice gives equal but unshared results.",
  ["histories", "fault_sequences"], "Every sequence of encode, decode, flatten and restore calls on shared and fresh contexts, with failures injected at any point.",
  "State left behind by one call only matters for particular later calls; tests run each call on fresh objects.",
  [PK, UN], [("pickler state reset", PK + ":reset"), ("unpickler state reset", UN + ":reset"), ("depth tracking", PK + ":_push")],
  "each call's outcome compared with the outcome of the same call in a fresh context")
p("C08", "Concurrent and re-entrant calls do not disturb each other",
  "When several encode and decode calls are in progress at once, in different threads or nested inside one another's object hooks and custom handlers, each produces the same result as when it runs alone.",
  ["schedules", "inputs"], "Every interleaving of two or three calls at the points where user code (object hooks, handlers, properties) runs, and every nesting of calls inside hooks.",
  "The outcome depends on the interleaving; tests are single threaded and never call back into the library from hooks.",
  [PK, UN, HA, BE], [("per-call state", PK + ":Pickler"), ("per-call state", UN + ":Unpickler"), ("handler instantiation", HA + ":BaseHandler")],
  "results of scheduled interleavings compared with sequential results")
p("C09", "Output is valid, deterministic JSON; layout options only change whitespace",
  "Whatever value is encoded, the result is text that a standard JSON parser accepts, and it parses to exactly the structure that flattening the value gives. The indent and separators options change only insignificant whitespace and separators, never the parsed content.",
  ["inputs", "configurations"], "Every encodable value and every layout option, for each JSON backend.",
  "Tests check a few exact strings; escaping, number formatting and layout over all contents need generated inputs.",
  [PK, BE], [("text generation", BE + ":backend_encode"), ("option passing", PK + ":encode")],
  "json.loads of the text compared with Pickler.flatten of the value")
p("C10", "Unpicklable mode gives the documented plain projection",
  "With unpicklable turned off, type and reference information is left out: instances of classes without constructor-argument hooks become objects of their attributes or the value of their state hook, tuples, sets and subclasses of list, set and tuple become arrays, dates become ISO text, functions become null, and shared values are repeated in full (bytes keep their tag; enumerations and default dictionaries are not covered). Encoding always terminates, with a value that contains itself replaced by null at the point of recursion.",
  ["inputs"], "Every graph of supported values, including shared and cyclic ones.",
  "Tests check single objects; the projection must hold compositionally for all nestings, and caching of shared values makes errors input dependent.",
  [PK, HA], [("cycle detection", PK + ":_ref_obj_instance"), ("result cache", PK + ":_flatten"), ("sequence projection", PK + ":_flatten_sequence_obj")],
  "json.loads of the text compared with an independent reference projection")
p("C11", "Turning references off expands shared values and still terminates",
  "With references turned off the output contains no reference markers, every occurrence of a shared value is written out in full, and decoding gives a tree equal to the input with the sharing undone. A value that contains itself is cut with its repr at the point of recursion and nowhere else.",
  ["inputs"], "Every graph of supported values with arbitrary sharing and cycles.",
  "The expansion is driven by an identity-keyed cache, so mistakes depend on object lifetimes and on the shape of sharing.",
  [PK], [("result cache", PK + ":_flatten"), ("cycle detection", PK + ":_in_cycle")],
  "decoded tree compared with the unshared input")
p("C12", "Depth and iterator limits cut exactly where asked",
  "With a maximum depth, everything nested less deep than the limit is encoded exactly as without it and every non-primitive value at the limit is replaced by its repr (values whose written form has inner levels of its own, such as enumeration members, aside). With a maximum iteration count, iterators without a reduction of their own (generators and iterator classes) contribute exactly their first that many items and are advanced no further, and everything else is unaffected.",
  ["inputs", "configurations"], "Every nested value and every limit from zero up to beyond its depth or length.",
  "Tests use one value and one limit; off-by-one and leaked depth counts appear only for particular nestings.",
  [PK], [("depth accounting", PK + ":_max_reached"), ("iterator slicing", PK + ":_flatten_obj_instance")],
  "flattened output compared with a reference truncation of the unlimited output")
p("C13", "A failing object spoils only its own place when fail-safe is on",
  "If encoding some objects inside a graph raises, then with a fail-safe callback the encode succeeds, the callback is called once per failure with the exception raised, its return value stands exactly where each failing object stood, and every other part of the graph round-trips with its sharing intact. Without the callback the original exception reaches the caller.",
  ["fault_sequences", "inputs"], "Every graph with failures of any exception type injected into any subset of its objects' hooks, at any position.",
  "Where a failure happens relative to shared objects decides whether later references still resolve; tests fail one object in a two-element list.",
  [PK], [("failure containment", PK + ":_flatten_obj"), ("reference numbering", PK + ":_log_ref")],
  "decoded graph compared with the input graph with failing nodes replaced")
p("C14", "Representation options never change what is decoded",
  "Options that only change the representation (base85 instead of base64, property inclusion, warnings, layout, flattening and restoring directly instead of through text, the dumps and loads aliases, supplying a fresh Pickler or Unpickler as context) never change the decoded result.",
  ["configurations", "inputs"], "Every supported graph under every combination of these options.",
  "There are exponentially many option combinations and each is tested at most once on its own.",
  [PK, UN, UT], [("option plumbing", PK + ":encode"), ("property output", PK + ":_flatten_properties"), ("byte codecs", UN + ":_restore_base85")],
  "decoded graph under the options compared with the input graph")
p("C15", "Backends are interchangeable and managed as documented",
  "For data every backend can represent, encoding with any JSON backend and decoding with any other (and using the YAML backend for both) gives the same result as using one JSON backend throughout, references included. After any sequence of loading, removing, preferring and configuring backends, calls use the preferred loaded backend with its own options, fall through to the next one on failure only while fall-through is enabled, and fail cleanly when no backend is loaded.",
  ["histories", "configurations", "inputs"], "Every sequence of backend management calls, with faulty backends injected, and every graph in the backends' common domain.",
  "The backend tests are not even collected, and the property is about sequences of management operations.",
  [BE, YA, PK], [("backend list", BE + ":load_backend"), ("fall-through", BE + ":decode"), ("yaml registration", YA + ":register")],
  "recorded backend calls and results compared with a model of the backend list")
p("C16", "Handler lookup follows registration history",
  "After any sequence of handler and extension registrations and removals, an object is encoded and decoded by the handler registered for its exact class, else by the handler of a base class registered for subclasses, else by the default mechanism. Removing the registration of a class, or an extension, leaves every class it covered as if nothing had ever been registered for it.",
  ["histories"], "Every sequence of register and unregister calls (direct, decorator and class-method forms, with and without subclass coverage, and the numpy, pandas and gmpy extensions) over a class hierarchy.",
  "The handler tests are not collected; which handler wins depends on the whole registration history.",
  [HA, NP, PD, GM], [("registry", HA + ":Registry"), ("lookup when encoding", PK + ":_flatten_obj_instance"), ("lookup when decoding", UN + ":_restore_object")],
  "the handler that actually ran on encode and on decode compared with a registry model")
p("C17", "Objects handled by custom handlers keep their place in the graph",
  "A custom handler may delegate any parts of its object to the surrounding encode or decode, and may be given a context value for the call; the objects it encodes round-trip with sharing and cycles to and from the rest of the graph preserved, each distinct object is flattened and restored exactly once, and the context value reaches exactly the handlers that accept it.",
  ["inputs", "histories"], "Every graph mixing handler-managed and ordinary objects with arbitrary sharing, for class and instance handlers, with and without a context value.",
  "Reference numbering must agree across handler boundaries for every graph shape.",
  [PK, UN, HA], [("handler call when encoding", PK + ":_call_handler_flatten"), ("handler call when decoding", UN + ":_restore_object"), ("context acceptance", HA + ":handler_accepts_handler_context")],
  "decoded graph and recorded handler calls compared with the input graph")
p("C18", "Class resolution honours caller-supplied classes and the missing-class policy",
  "When decoding, a class name is resolved to the class the caller supplied for it (singly, in a sequence, or by name in a mapping) before anything importable, nested and legacy built-in module names included. A class name of an instance that cannot be resolved is handled by the chosen policy (ignored, warned about, raised as an error, or passed to the callback once per occurrence) and leaves the raw data in place without affecting its neighbours.",
  ["inputs", "configurations"], "Every graph with resolvable, renamed, local and missing classes in any position, under every form of the classes argument and every policy.",
  "Tests check a few names with a top-level object; neighbours and combinations are unbounded.",
  [UN, UT], [("class lookup", UT + ":loadclass"), ("class registration", UN + ":register_classes"), ("missing classes", UN + ":_process_missing")],
  "decoded graph and policy events compared with a model of name resolution")
p("C19", "Documents with malformed markup decode without crashing",
  "Decoding a well-formed JSON document in which byte, tuple, set, iterator, reference or reduction markup carries a payload of the wrong kind, or class or function markup names something that does not exist, never raises an error. The malformed part becomes the empty value of its type (null for references and functions, the raw data for classes) and the well-formed parts around it, references included, are decoded as usual.",
  ["inputs"], "Every valid document with the markup payloads replaced by arbitrary JSON values.",
  "Tests try a few malformed payloads per tag at top level.",
  [UN, UT], [("tolerant restore", UN + ":_restore_tags"), ("tolerant byte decoding", UT + ":b64decode")],
  "decode result compared with the expected fallback for the mutated part and the original elsewhere")
p("C20", "Decoding never evaluates text from the document unless asked to",
  "With default settings decoding never evaluates text in a document as Python code, wherever in the document it stands and whatever markup surrounds it (functions that the document itself names are called, as in pickle); legacy expression markup then yields at most an attribute of an importable module. Only when the caller turns safety off is that markup evaluated.",
  ["inputs", "configurations"], "Every document with code-like text in any string position, including escaped keys and nested decodes from handlers.",
  "It is a negative property over all documents.",
  [UN], [("legacy expression markup", UN + ":_restore_tags"), ("evaluation", UN + ":loadrepr")],
  "audit hook and sentinel side effects while decoding")
p("C21", "The wire format stays readable and writable across versions",
  "Encoding any supported graph produces the documented wire form (tags, nesting and reference numbers), so that an independent reader of that format reconstructs the same graph, and decoding accepts any document an independent writer of the format produces. Documents in the older supported forms (the version 1 numbering mode, old module names, old forms of modules, reductions and default factories) keep decoding to the same values.",
  ["inputs"], "Every supported graph, encoded or decoded by an independent implementation of the format.",
  "A matching change on both sides keeps round-trip tests green while silently breaking every stored document.",
  [PK, UN, TG, UT], [("tag vocabulary", TG + ":RESERVED"), ("encoding", PK + ":_flatten_obj"), ("decoding", UN + ":_restore_tags")],
  "library encode against a reference decoder, and reference encoder against library decode")
p("C22", "Standard library values round-trip with full precision",
  "Every value of the supported standard library types (dates, times and datetimes with time zones and fold, timedeltas, UUIDs, decimals, fractions, compiled patterns over text and bytes, arrays, deques, ordered, counting and default dictionaries, named tuples, enums and flags, paths, ranges, namespaces, exceptions, locks, and big integers of the gmpy extension) decodes to an equal value of the same type, alone or nested, with all distinguishing detail intact.",
  ["inputs"], "Every value of each listed type, in any nesting position and as a shared value.",
  "Each type has an unbounded value range and tests use one or two values each.",
  [HA, PK, UN, GM], [("datetime handler", HA + ":DatetimeHandler"), ("pattern handler", HA + ":RegexHandler"), ("array handler", HA + ":ArrayHandler"), ("reduce support", UN + ":_restore_reduce")],
  "decoded value compared with the original by type-specific exact comparison")
p("C23", "Classes, functions, modules and bound methods are restored by name",
  "Any importable class (including nested, built-in and metaclass ones), module-level function, built-in function or module appearing anywhere in a graph decodes to the identical object, and a bound method in a list or tuple decodes to the same method bound to the decoded instance. Anonymous functions are replaced by null, or skipped when they are attribute or dictionary values, and local functions decode to null, without disturbing anything around them.",
  ["inputs"], "Every importable object reachable in the interpreter's loaded modules, in every nesting position.",
  "Tests name a dozen objects; naming rules must work for all of them.",
  [UT, UN, PK], [("importable names", UT + ":importable_name"), ("name loading", UT + ":loadclass"), ("function detection", UT + ":_is_module_function")],
  "identity of the decoded object")
p("C24", "NumPy arrays, scalars and dtypes round-trip exactly",
  "With the numpy extension registered, with any size threshold and compression setting, every array, scalar, dtype and ufunc of a supported kind decodes to one with the same shape, dtype, values (bit for bit, except that all not-a-number values count as the same) and writability, on its own or anywhere in a graph. An array over memory that cannot be stored, that of an object which merely offers the array interface, is copied with a warning or silently or is refused, as the mode given at registration says.",
  ["inputs", "configurations"], "Every array over all supported dtypes (including structured, datetime and string ones), shapes including empty and zero-dimensional ones, layouts and byte orders.",
  "The encoding switches representation on size, layout and dtype, giving far more combinations than the tests list.",
  [NP], [("array handler", NP + ":NumpyNDArrayHandlerBinary"), ("dtype handler", NP + ":NumpyBaseHandler"), ("scalar handler", NP + ":NumpyGenericHandler")],
  "decoded array compared with the original")
p("C25", "Memory sharing between NumPy views survives a round trip",
  "With the numpy extension registered, arrays that view the memory of another array in the same graph decode to arrays with the same values that view the memory of the decoded base, so that writing through one is seen through the others exactly as in the original; references to other objects in the graph are unaffected by the arrays.",
  ["inputs", "histories"], "Every family of views (slices, strides, reversals, transposes, reshapes, dtype views) of shared bases, mixed with other objects, followed by writes through any of them.",
  "Offsets, strides and reference numbers combine in unbounded ways; tests have about ten fixed families.",
  [NP, PK, UN], [("view handler", NP + ":NumpyNDArrayHandlerView"), ("reference numbering", PK + ":_log_ref")],
  "values after identical writes applied to the original and to the decoded arrays")
p("C26", "pandas objects round-trip",
  "With the pandas extension registered, every data frame with distinct column labels, series and index over the supported column types decodes to one with the same values, dtypes, labels, names and order (categories, and the bounds' type of intervals, being those of the values, categories in sorted order), and timestamps, periods, intervals and timedeltas decode to equal values, at any size on either side of the compression threshold and anywhere in a graph.",
  ["inputs", "configurations"], "Every frame, series and index over the supported dtypes, label types, multi-level labels, sizes and contents.",
  "The handlers re-encode columns by dtype with run-length coding and size thresholds; tests cover one frame per feature.",
  [PD], [("data frame handler", PD + ":PandasDfHandler"), ("index handlers", PD + ":PandasIndexHandler"), ("size threshold", PD + ":PandasProcessor"), ("run-length coding", PD + ":rle_encode")],
  "pandas testing assertions plus exact element comparison")
p("C27", "Excluded attributes never leave the object and everything else does",
  "Attributes that a class lists for exclusion never appear in the encoded text, whatever mechanism encodes the object (attributes, slots, properties, dictionary entries of dict subclasses, or a state hook returning a dict), and all other attributes round-trip. The exclusion applies only to instances of the class that declares it and its subclasses, not to objects nested inside or around them.",
  ["inputs", "configurations"], "Every class shape, exclusion list, attribute set and nesting of excluding and non-excluding instances.",
  "Leaks appear for particular combinations of mechanism, nesting and name; tests check three classes.",
  [PK, UT], [("exclusion", PK + ":_flatten_obj_attrs"), ("item filtering", UT + ":items")],
  "search of the encoded text for secret values, and the decoded graph")
p("C28", "Nothing is kept alive after a call returns",
  "Once encode or decode has returned or raised and the caller drops its own references (including any encoder or decoder object it made itself), neither the encoded objects nor the decoded ones are kept alive by the library, so destructors run and memory use does not grow with the number of calls.",
  ["histories", "inputs"], "Every graph and every sequence of successful and failing calls.",
  "A retained reference does not change any result; tests check it for one numpy object.",
  [PK, UN, HA], [("state clearing", UN + ":reset"), ("temporaries kept during encoding", PK + ":_seen")],
  "weak references to inputs and results after each call")
p("C29", "Stored documents of arrays and data frames stay readable",
  "With the extensions registered, documents in the layouts stored so far decode to the values they were made from: arrays as nested lists or as compressed bytes with shape, dtype, byte and memory order, object arrays as compressed lists, views as base, offset and strides, data frames as columns with type codes or, before version 3.4, as CSV text with column types, index and level names, and series, indexes, timestamps, periods and intervals. This holds for the class paths of older pandas versions too.",
  ["inputs", "histories"], "Every array, frame, series, index and scalar of the supported types written in any of the stored layouts.",
  "Encoder and decoder can drift together without failing a round trip, making stored data unreadable; the test of the CSV layout is one frame and is skipped on the installed pandas.",
  [NP, PD, "jsonpickle/tags_pd.py"], [("CSV layout", PD + ":restore_v3_3"), ("column layout", PD + ":PandasDfHandler"), ("type codes", "jsonpickle/tags_pd.py:TYPE_MAP"), ("array layouts", NP + ":NumpyNDArrayHandlerBinary"), ("view layout", NP + ":NumpyNDArrayHandlerView")],
  "values decoded from documents written independently of the library")
p("C30", "Handling read-only attributes drops nothing that can be set",
  "With read-only handling turned on, a graph encodes exactly as it would without the attributes that its objects hide behind read-only properties: entries of dictionaries, whatever their keys are called, and all attributes that can be set stay, on every object of the graph. Instances of text and number types without attributes of their own round-trip with type and value, with the option on or off, also from stored documents that list their read-only members.",
  ["inputs", "configurations"], "Every graph of objects with read-only and settable properties, class attributes, methods and dictionary keys that share their names, in any position.",
  "Tests encode one such object at top level; the option must not disturb anything else in an arbitrary graph.",
  [PK, UN], [("attributes", PK + ":_flatten_key_value_pair"), ("objects without a dictionary", PK + ":_flatten_newstyle_with_slots"), ("stored read-only members", UN + ":_restore_from_dict")],
  "encoded text compared with that of the graph without the hidden attributes, and the decoded graph")
p("C31", "Including properties adds their current values and changes nothing else",
  "When properties are included, the document lists for every encoded instance each property of its class, inherited ones too, with the value that reading it gives, unless it is listed for exclusion. Apart from these lists the document is the one produced without the option, and it decodes to the same graph.",
  ["inputs", "configurations"], "Every graph of instances with own, inherited and overridden properties (attribute, slot, state-hook, reduction and container classes) returning data, other objects of the graph or the object itself.",
  "Tests look for the markup of one object; reference numbers and values in arbitrary graphs are not covered.",
  [PK, UN], [("property lists", PK + ":_flatten_properties"), ("instances", PK + ":_flatten_obj_instance")],
  "encoded text compared with the text without the option and with the property values")
p("C32", "In decimal mode decimals are written as numbers with all their digits",
  "With decimal mode turned on for the encoder and for a backend that supports it, every decimal anywhere in a graph is written as a JSON number with exactly its digits and read back as a decimal (an integer if it has no fraction or exponent) of the same value and scale, while everything else, sharing included, round-trips as before. With the mode off decimals are encoded as objects and floats stay floats.",
  ["inputs", "configurations"], "Every finite decimal of any precision and exponent, in every position of a graph.",
  "The only test is not collected by the test runner; digits and positions are unbounded.",
  [PK, BE], [("decimals as primitives", PK + ":_get_flattener"), ("backend options", BE + ":set_encoder_options")],
  "decoded numbers compared digit by digit with the decimals of the input graph")
p("C33", "A warning is issued exactly when a value is replaced by null",
  "With warnings turned on, encoding issues at least one warning naming each value that it replaces by null because it cannot be encoded, and none if there is no such value. With warnings turned off it issues none, and the text is the same either way.",
  ["inputs", "configurations"], "Every graph with values that cannot be encoded (anonymous functions, open files, objects whose state hook refuses, handlers returning nothing) in any position.",
  "Tests do not look at the warnings at all.",
  [PK], [("warning", PK + ":_pickle_warning")],
  "recorded warnings compared with the positions of null in the text")
p("C34", "Default dictionaries keep their items and get factories of equal values",
  "A default dictionary, or an instance of a subclass, decodes with the same items and attributes, whatever their names, and with the same factory if that is a class or missing. Any other factory (function, method, callable object of the graph, the dictionary itself) is replaced by the same object of the decoded graph or by one whose calls give separate values equal to what the original gave, and dictionaries that shared a factory which is not itself part of the graph still do. Everything the factories give and everything around them keeps its sharing.",
  ["inputs", "object graphs"], "Every graph of default dictionaries with factories of all kinds, shared between dictionaries or with the graph, and products that refer to the graph.",
  "Tests use single dictionaries with one factory each and hardly any sharing.",
  [PK, UN, "jsonpickle/handlers.py"], [("factory encoding", PK + ":_flatten_dict_obj"), ("factory decoding", UN + ":_loadfactory"), ("copies", "jsonpickle/handlers.py:CloneFactory")],
  "decoded graph and the products of the decoded factories compared with the originals")
p("C35", "Size and depth of a graph make no difference",
  "A graph of hundreds of objects of any supported kinds, with references between far-apart objects, a chain of values nested dozens of levels deep, and collections, texts and numbers of thousands of elements or digits decode to an equal graph with the same sharing, exactly like small ones.",
  ["inputs", "object graphs", "temporary objects"], "Every repetition and nesting of every small graph, in particular many objects whose hooks return temporary values, which may be allocated at the same address as earlier ones.",
  "Tests use a handful of objects, where temporaries are seldom reused and numbers of references have one digit.",
  [PK, UN], [("references", PK + ":_log_ref"), ("keeping objects alive", PK + ":_flatten_obj"), ("reference lookup", UN + ":_restore_id")],
  "graph isomorphism with identity on graphs of up to a thousand objects")
p("C36", "Decoding imports the modules a document names, and only those",
  "Classes, nested classes, enumeration members, functions, factories, bound methods and modules decode to the objects of those names even if their modules and packages have not been imported yet, including packages that offer a class under the name of the module defining it and modules that make or re-export what they offer. Decoding imports exactly the modules that the named objects live in, with what these import themselves, each once and none whose classes the caller supplied. A module that cannot be imported counts as missing and affects only the values that need it.",
  ["inputs", "environments"], "Every layout of packages and modules with every mixture of values taken from them, decoded where none of them is loaded.",
  "In tests everything named by a document has already been imported by the test itself.",
  [UT, UN], [("loading by name", UT + ":loadclass"), ("loading modules", UN + ":_loadmodule"), ("restoring functions", UN + ":_restore_function")],
  "decoded objects compared with the freshly imported modules, and the list of modules run")
p("C37", "Encoding what was decoded gives the same document again",
  "Encoding a graph, decoding the document and encoding the result with the same options gives the identical document, so stored documents do not drift however often they are loaded and saved: order of keys, attributes and items, markup, reference numbers and all texts stay as they are. Only the order of set elements, and what an option or a missing feature has already dropped in the first document, is outside this.",
  ["inputs", "configurations"], "Every graph of supported values, under every option that keeps what is needed for decoding.",
  "Tests compare values, for which order, kind of reduction and repeated escaping do not show, and never encode twice.",
  [PK, UN], [("encoding", PK + ":_flatten_impl"), ("decoding", UN + ":_restore")],
  "text of encode(x) compared with text of encode(decode(encode(x)))")
p("C38", "Flattened data and restored graphs share nothing with their source",
  "Flattening a value gives lists, dictionaries and immutable values of its own, so that changing them afterwards changes nothing in the value. Restoring leaves the flattened data as it was, so that it can be restored any number of times with equal results, and changing that data afterwards changes nothing in what was restored; arrays and frames do not share memory either.",
  ["inputs", "configurations", "histories"], "Every graph of supported values, arrays and frames, flattened with any options and restored by a fresh or a reused context.",
  "Tests hand the flattened data over as text, which hides any sharing.",
  [PK, UN, HA, NP, PD], [("flattening", PK + ":flatten"), ("restoring", UN + ":restore"), ("list restoring", UN + ":_restore_list")],
  "flattened data, value and restored graphs after each of them was changed or restored again")
p("C39", "Standard library objects survive like in a pickle",
  "Objects of the standard library which describe themselves by the pickle protocol (namespaces, partial functions, getters, user collections, network addresses, log records, random generators, syntax trees, messages, in-memory streams, XML elements, interpreter tuples with hidden fields, exceptions with attributes and notes, process results, archive members, iterators with a reduction) decode to objects of the same class that describe themselves in exactly the same way. The values inside them and the sharing between them, wherever they stand, are kept.",
  ["inputs", "object graphs"], "Every composition of about ninety kinds of standard library objects, nested in each other, shared and among ordinary containers.",
  "Tests cover about a dozen of these types, each alone and with one fixed value.",
  [PK, UN, UT], [("reductions", PK + ":_flatten_obj_instance"), ("restoring reductions", UN + ":_restore_reduce"), ("hook detection", UT + ":has_reduce")],
  "reductions of the decoded objects compared part by part with those of the originals")
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
