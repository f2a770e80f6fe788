"""Hand-written part of DESIGN.md: per property what decides it, and why tests cannot."""
HEAD = """# Design

What decides every property is **explicit enumeration of a bounded space of
behaviours of the real code**.  Each check enumerates, with nothing sampled,
all cases of its bound (documents, input objects, histories of operations,
schedules, faults), executes the code of `/repo/src` on every one of them and
compares what it observes with a reference model written in `/verif` from the
CWL text, never derived from the code under test.  There is no solver and no
random choice; `VERIF_SEED` changes nothing.

Two modes occur (field `level` in `MANIFEST.json`):

* *model_checking* - the abstract state (a string, a type term, an ontology
  graph, a history of events ...) is handed to the function directly; all
  states of the bound are visited.
* *model_checked_code* - abstract documents or histories are first written in
  every notation of the bound to a scratch directory (concretisation), the
  real entry point runs, and what it wrote or returned is read back
  (abstraction).  The comparison of the two is the conformance check that
  binds the model to the code, done on every trace.

## Machinery

`mc/core.py` is the explorer.  A check module lists work items that together
partition its space; 8 forked workers take items by index, so the union is the
complete enumeration in a fixed order.  A recorder counts distinct states
(hashed), transitions (calls of real code), traces (comparisons with the
model), and the classes of outcomes; a check whose `REQUIRED_OUTCOMES` were
not all seen, whose worker died, or that did not finish its items exits 2: it
never reports success for something it did not explore.  Every violation is
written to `replays/` with the item that replays it (`./run C07 quick --replay
FILE`) and compared by key with `known_findings.txt`.

`mc.core.bind_repo` imports `cwl_utils` from `/repo/src` and refuses anything
else; byte code caches are redirected, so that a run leaves `/repo` as it was.
Each worker has its own scratch directory (removed at the end) as current
directory, `HOME` and `TMPDIR`; container engines, Node.js and network access
are stubs or the loopback interface wherever the property is about them.
Nothing that is explored can delete files outside of the scratch directory:
the code under test only writes below directories which the check hands to it.

Other parts: `mc/grammar.py` (official CWL schemas, expanded by schema salad's
own resolver, as generator and reference for C10, C11), `mc/types.py` (type
terms and their reference relations), `mc/wf.py` (small workflows, C07, C08),
`mc/tree.py` and `mc/reqtree.py` (trees of documents on disk), `mc/fakenode.py`
(a JavaScript engine on real pipes whose output is cut, delayed or ended at
chosen points), `mc/stubs.py` (container engines), `mc/cwlrun.py` (a small CWL
interpreter with a persistent Node.js, the oracle of C25).

`tools/` holds development helpers: `gen_properties.py`, `gen_manifest.py`,
`gen_design.py` write the committed documents; `plant.py` confirms planted bugs
in scratch copies that are bind-mounted over `/repo` in a private namespace,
and runs the checks against them.  No check uses anything in `tools/` or
`seeded/`.

## General decisions

* The properties are about observable behaviour, so all checks go through
  public functions or commands; private helpers are called only where the
  property is about the helper's contract and it is the unit that other parts
  use (`scanner`, `content_limit_respected_read_bytes` ...).
* An oracle says "no verdict" where the CWL text leaves the result open; those
  cases are listed in the assumptions, executed, and counted as their own
  outcome, but not judged.
* No hooks in `/repo` were needed.
* "Editing `/repo` while vcheck runs" makes vcheck say that a check changed
  tracked files; this happened once and was no property of a check.
* Model checking applies to every property listed here, because each is a
  statement about all members of a space whose small members already exhibit
  the mechanism.  What lies beyond the bounds (deeper nesting, longer strings,
  other alphabets) is not covered; the bounds are printed with each property.
"""
NOTES = {}
N = NOTES
N["C01"] = ("""A reference reader, written as a recursive descent parser over the CWL grammar of expressions (the code is a
character-driven state machine), splits each string into text, escapes and fragments.  All strings over the 9 characters
that the scanner distinguishes, up to length 6 (thorough: 7), and all sequences of 16 tokens are interpolated for both escape rules.""",
 "Errors need a specific arrangement of quote, backslash, dollar and bracket; the tests have twelve strings, the bound has half a million.")
N["C02"] = ("""All paths of up to 3 segments out of 36 (every quoting style, indexes, `length`, nulls, unicode) over 5 context
documents are evaluated without JavaScript, with an engine that records what it is given, and with an awaitable engine.  The
reference walk is itself checked against Node.js on every value it yields, so a wrong oracle would show.""",
 "The grammar of references, the walk and the hand-over to JavaScript only disagree on odd paths (index 0 of an empty list was one).")
N["C03"] = ("""All context terms of depth 2 with text, bytes, numbers and nulls as leaves, in lists, tuples and maps; all
requirement lists up to length 3.  After each evaluation the caller's objects are compared with a deep copy.""",
 "The guarantee is about every depth and every position; tests use flat contexts.")
N["C04"] = ("""Stateless exploration with the real driver and a scripted engine process: each state is a choice of chunk
boundaries of both pipes, their order, and the point at which the engine hangs, dies or is slow to die; after each, a second
evaluation must return its own answer.  Histories with real Node.js up to length 3 over 11 events, and all completion orders of 2 threads.
The time limit is virtual: the driver's timer is fired by the explorer.""",
 "Torn reads and late deaths are schedules; a test sees the one that its machine happens to produce.")
N["C05"] = ("""The environment is a product of automata (nodejs, node, container engine), each with up to 11 answers; stub
executables on an isolated PATH implement them and log their command lines.""",
 "Needs machines without Node.js, with old ones, and with each container engine.")
N["C06"] = ("""All pairs out of 192 type terms (nesting 4) x merge method x version, against a reference relation on terms
that is independent of the classes of the parser.""", "Leniency at one nesting level is invisible in twenty example pairs.")
N["C07"] = ("""All workflows made of one producer, one link and one consumer over 15 producer kinds, 9 source types, 18 sink
types, link forms, merge and pick methods and versions; all pairs of sources and of sinks.  The oracle computes the verdict of the
link from the abstract workflow.""", "The tests hold fixed workflows; the defects found here were interactions (conditional x shared source, empty source lists ...).")
N["C08"] = ("""The same abstract workflows; the returned type is converted to a term and compared with declared type +
lifting + merge.""", "Forty named combinations against all of them.")
N["C09"] = ("""All 4096 graphs over 3 formats and all edge sets up to the bound over 4; transitive closure as oracle; cycles included, a
time limit per item detects endless searches.""", "One ontology in the tests, without cycles.")
N["C10"] = ("""The official schemas are expanded by schema salad's resolver into a grammar; the generator produces every construct x
field x alternative; both round trips are compared field by field on an abstract view (absolute references).  Also every
loadable document of the test data.""", "The generated parsers have 25,000 lines per version with one loader and one saver per field.")
N["C11"] = ("""Same grammar; every deletion, unknown field and wrong-typed value (thorough: pairs).  Reference verdict: schema
salad's validator on the official schema.  Shorthands are compared with their long forms.""", "As C10; rejection is not tested per field at all.")
N["C12"] = ("""Graphs of up to 3 processes over ids that are prefixes of each other, through all entry points; histories of loads on
one parsed object show whether loading changes its argument.""", "The result must not depend on the entry point; tests use one each.")
N["C13"] = ("""Every literal at every place of containers up to depth 3; every subset of File fields; every location form x
base.""", "Three input files in the tests.")
N["C14"] = ("""All combinations of outputs, inputs and declarations within the bound, expanded twice and reloaded.  Generated names are
compared over a family of tools that differ in one place each.""", "Uniqueness and idempotence are statements about pairs of runs.")
N["C15"] = ("""Every size in a window around the limit, every layout of multi-byte characters over it, every kind of binary stream.""",
 "Off-by-one and cut characters only exist at the boundary.")
N["C16"] = ("""Trees of documents are generated from an abstract tree: import site x host x directory x nesting x link form x version x
notation.  The packed document is read back as an abstract tree (no other file is consulted), loaded with the parser, and compared.""",
 "Resolution relative to the right file depends on the position in the tree; the tests pack five fixed layouts.")
N["C17"] = ("""States are (type definitions, references, names used before in this process); transitions are pack calls; all histories up to
length 4.  The packed types are compared structurally with the abstract ones up to the uniquifying suffix.""",
 "Depends on module globals, hence on the history; each test packs once.")
N["C18"] = ("""Abstract sets of processes with names that could be confused with file names, ids or fields, written in both usual
forms; split; split again into the same folder; read back and linked.  JSON, YAML and pretty YAML.""",
 "The tests only check that nothing is raised; histories and reserved names are not covered.")
N["C19"] = ("""Trees of nested and linked workflows x all sets of positions with a requirement; both the generator function and the
command line tool on stub engines.""", "A missed position is silent.")
N["C20"] = ("""A model with the target file, the engine's local images and the last fault as state; all histories up to length 3 with all faults on stub
engines, compared step by step (commands, files, result).  1404 version strings each in a fresh process.""", "Cache states and command failures.")
N["C21"] = ("""The trees of C19 with software requirements; the lines printed by the command are compared.""", "As C19.")
N["C22"] = ("""Every type term of the bound x every value of a universe of 44; an own type checker gives the verdict, the
jsonschema validator runs the generated schema.""", "One sample object per document in the tests, always a valid one.")
N["C23"] = ("""All reference graphs over up to 4 definitions (self references, cycles) and their references from properties; closure as
oracle; chains of 22 definitions bound the cost (an exponential search shows as a time-out).""", "One schema in the tests.")
N["C24"] = ("""The documents of C25, written by the real command (`run`), loaded again and walked by an independent checker: links,
scatter names, inputs of the embedded processes, feature requirements, left JavaScript (by the reference scanner of C01), interface.
"Rich" documents carry a distinguishable note in every other field a process, parameter or step can have (format, secondaryFiles, streamable,
labels, requirements and hints of every other kind, extension fields with namespaces); each must be found again at the
process it belongs to.  The originals are renamed away while the result is loaded.""",
"""Tests refactor example documents and check that the command ends without an error.""")
N["C25"] = ("""Every place for an expression x every form of expression of the type of the place x standalone, step, scattered step x
version x kind of result, and pairs of places in one tool; also ExpressionTools, nested, linked and shared processes, requirements of
workflows and steps, when, pickValue, linkMerge, defaults. Oracle: `mc/cwlrun.py`, a CWL interpreter written from the specification
(nodejs for the JavaScript) in which tools do not run but record how they are called; the generated CommandLineTools are executed by
evaluating their scripts in nodejs. Original and refactored document run on every assignment of values; the outputs and the multiset of recorded
tool invocations must be the same.""", """No test executes a refactored document.""")
N["C26"] = ("""All sequences of up to 3 (thorough: 4) documents over six kinds (with expressions, a workflow, without, refused, unsupported version,
draft) x version x target x four ways to write the paths; the files in all folders and the exit code are compared with a model of the command (what one
document alone gives is itself checked by C24 and C25). The normaliser runs on the documents of C25 (all places x forms x contexts x three option
sets); the result is taken apart again (`unpacked`), checked with the oracle of C24 and run beside the original by the interpreter of C25, with the source folder renamed away.""",
"""Tests give one document to each command and look at one field of the result.""")
NOT_CLAIMED = {}
TAIL = """
## False alarms met and corrected

* C26: packing puts the record of a SchemaDefRequirement where it is named, which was first judged as a change of the interface; names
  are now resolved before the comparison.
* C24, C25: inputs named like the ones that the refactoring adds (`_arguments_0`, `_stdin`, ...), and steps named `_expression...`, are excluded by assumption.
* C07/C08: `pickValue` of a single source was first judged; the project's own tests settle that it leaves the type alone, so the
  property now says so.
* C11: fields with a default in the specification may be left out although the schema calls them required in v1.0.
* C16: relative locations in default values are data of the document, not links; excluded by assumption.
* C22: values whose JSON form is ambiguous between types (64 bit numbers for int, whole floats) have no verdict.
* C18: v1.0 allows no names on inline types and no lists as `doc`; the generator leaves those forms out for v1.0.
"""
