#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one description."""
import json
E_ = "src/mesdoc/interface/elements.rs"; L = "src/lib.rs"; S = "src/mesdoc/selector/mod.rs"; R = "src/mesdoc/selector/rule.rs"; P = "src/mesdoc/selector/pattern.rs"; I = "src/mesdoc/mod.rs"; U = "src/mesdoc/rules/pseudo.rs"; ID = "src/mesdoc/rules/id.rs"; T = "src/mesdoc/interface/texts.rs"; D = "src/mesdoc/interface/document.rs"; EL = "src/mesdoc/interface/element.rs"
def st(n, m, w): return {"name": n, "meaning": m, "where": w}
def me(n, w): return {"name": n, "where": w}
locks = [st("SPLITTER, RULES, ALL_RULE, REGEXS, PATTERNS", "process-wide tables and caches behind locks, shared by every document and thread", f"{S}; {R}; {P}"), st("INIT_LIB", "one-time registration of patterns and rules", I)]
claimed = [
 ("C01", "Concurrent callers get the answers they would get alone",
  "Threads that load, query and change documents of their own at the same time each get exactly the answers and errors they would get if they were alone in the process. This holds for every interleaving, including threads whose first calls race to initialise the library, and however often a thread is stalled.",
  ["schedules", "programs", "histories"], "every interleaving of any number of threads, each with its own documents and any sequence of loads, selectors and changes, from a cold or a warm process",
  "The tests run single documents on one thread at a time (the test runner's threads are not controlled); none compares a concurrent run with a run alone, and no interleaving is chosen.",
  [I, S, R, P, L], locks, [me("every shared table is only used under its lock, for the whole parse of a selector", f"{S} Selector::from_str"), me("std::sync::Once around initialisation", f"{I} init")], ["return values of every call, per thread"]),
 ("C02", "Every call completes: no deadlock, endless wait or internal panic",
  "Every call on the API returns (or lets the caller's own panic through) after a bounded amount of work under every schedule, also when it is made from inside a callback or an error handler, uses nested selectors, or races with other threads. No call panics by itself on a valid document, selector or set, however empty, stale or detached the set is.",
  ["schedules", "programs", "inputs"], "every interleaving of threads and every nesting of calls inside callbacks and handlers",
  "Deadlock and starvation depend on the order in which threads take several locks, and on what callbacks call; the tests fix one thread and never nest.",
  [I, S, R, P, E_, U, L, T], locks, [me("a fixed lock order: SPLITTER before RULES before REGEXS; ALL_RULE before RULES; RULES before PATTERNS", f"{S}; {R}"), me("no lock and no node borrow is held while selectors are applied or user code runs", f"{E_}; {L}")], ["termination of each call", "panics that are not the caller's own"]),
 ("C03", "A failed call never damages the library for others or later calls",
  "After any failed call - an invalid or cut-off selector, malformed HTML, a refused tree change, a callback or error handler that panics, a thread that dies in the middle - every other and every later call on any thread behaves as if the failed call had not been made. In particular no failure disables selectors or loading for the rest of the process.",
  ["schedules", "fault_sequences", "crash_points", "programs"], "every kind and position of failure in any thread, before, during and after the calls of the others",
  "The tests make one failing call per process at most and then stop; a poisoned lock or half-updated shared table only shows in what comes after, in another thread.",
  [S, R, P, I, E_, L], locks, [me("selector errors are returned as values while the tables are locked, never as panics", f"{S} Selector::from_str, parse_until; {P}"), me("user code runs with no lock held", E_)], ["answers of unaffected clients, compared with a run without the failing ones"]),
 ("C04", "Every error reaches its own document's handler, exactly once",
  "An invalid selector, malformed HTML or a refused tree change is reported exactly once, to the error handler bound to the document the elements currently belong to and to no other, and the failed call has no effect and gives an empty or negative answer. The handler may use the library itself, cause further errors or panic; valid calls never reach a handler; without a handler the call fails quietly.",
  ["histories", "fault_sequences", "programs", "schedules"], "every history of loads, moves between documents, drops and failing calls, and every behaviour of the handlers",
  "The tests check single handlers on fresh documents; which handler is due depends on where elements have moved, which documents were dropped and what other handlers do.",
  [L, E_, D, S], [st("onerror", "a document's handler", f"{L} Document"), st("owner", "the document a node belongs to", f"{L}")], [me("trigger_error of the owner document", f"{D}"), me("halt, trigger_method_throw_error", f"{L}; {E_}")], ["calls of each handler"]),
 ("C05", "The library is ready on first use, from any call on any thread",
  "Whichever API is used first in a process - parsing, a selector method on an empty set, a combinator method without a selector - and however many threads do so at once, the answers are those of an already used library. Initialisation happens once, completely, and no caller sees it half done.",
  ["schedules", "programs", "configurations"], "every choice of first calls on every thread and every interleaving of the initialisation",
  "In a test process the library is initialised by whichever test comes first; later tests only see it warm.",
  [I, S, R, P, L], locks, [me("init() before every use of the rules", f"{S}; {L}"), me("std::sync::Once", I)], ["answers of first calls compared with a warmed-up process"]),
 ("C06", "Documents stay well-formed trees under any history of changes",
  "After any sequence of changes through any number of aliased handles and documents, including refused changes and changes made from inside callbacks, every document is a tree: each node is in exactly one child list, at most once, its parent, siblings, index, child count and owner document agree with that list, and no node is its own ancestor.",
  ["histories", "programs", "fault_sequences"], "every sequence of insertions, moves, replacements, removals and content changes over several documents and overlapping sets of handles",
  "The tests make one or two changes on a fresh document through one handle; broken links show only after particular sequences of moves.",
  [L, E_, EL, T], [st("parent, childs, index, root", "links of a node", "rphtml Node, kept by " + L)], [me("validate_dom_change, insert_adjacent, remove_child, replace_with, set_html, set_text re-link every moved node", L)], ["walks over parent, children, siblings, index and owner of every reachable node after every change"]),
 ("C07", "Tree changes do what the API says, whatever happened before",
  "Each change (attributes and classes, text and HTML content, append, prepend, before, after, replace, empty, remove, edits of text nodes) has exactly its documented effect on the current tree, on all and only the elements it names, in their order, and a moved node is at its new place and nowhere else. This holds after every earlier history, and reading back through any handle shows it at once.",
  ["histories", "programs", "inputs"], "every sequence of changes on overlapping, stale, detached and cross-document sets",
  "The tests apply single changes to fresh documents; the effect of a change on a tree that has been changed before is sampled a handful of times.",
  [L, E_, T, EL], [st("childs, content, attrs", "content of a node", "rphtml Node, changed by " + L)], [me("insert_adjacent, replace_with, set_html, set_text, set_attribute, remove_attribute, class list functions", f"{L}; {E_}")], ["the whole tree and all readings, compared with a model after every change"]),
 ("C08", "Queries see the current tree, in document order and without repeats",
  "Every selector and traversal method answers from the tree as it is now, whatever changes, moves, removals, copies and earlier queries came before: exactly the elements the selector or relation describes, each once, in document order, also inside removed or copied elements and for sets whose order has become stale. Querying changes nothing.",
  ["histories", "programs", "inputs"], "every history of changes followed by every query on every live set",
  "The tests query freshly parsed documents; caches of ids, indexes and orders go stale only through histories.",
  [E_, S, U, ID, EL, L], [st("id lookup table", "filled when a document is parsed", f"{L} Document"), st("index", "cached position of a node", L)], [me("find, filter, closest, siblings, *_until, has, add and the rule matchers", f"{E_}; {U}; {ID}")], ["the answer sets and booleans of every query, compared with a model"]),
 ("C09", "A panic in a callback leaves documents consistent and usable",
  "When a caller's callback panics inside an iteration or filter, at whichever element and after whatever changes it made, the panic reaches the caller and what was done before it stands, nothing more. All documents, sets and handles stay consistent and fully usable afterwards, no matter how often this happens.",
  ["crash_points", "fault_sequences", "histories"], "every callback, every element at which it panics, every change made in it before",
  "No test lets a callback panic.",
  [E_, T, L], [st("RefCell borrows of nodes", "must not be held while user code runs", L)], [me("callbacks run with no borrow and no lock held and on sets taken beforehand", f"{E_}; {T}")], ["the trees and all later answers, compared with a model that applies the effects up to the panic"]),
 ("C10", "Handles stay valid when their document or other handles are dropped",
  "Elements and texts that a caller still holds can be read, queried and changed after their document, their relatives' handles or the sets they came from have been dropped, in any order. They show the part of the tree that is still reachable, the dropped document is neither reported to nor brought back, and nothing panics.",
  ["histories", "crash_points", "programs"], "every order of dropping documents and sets among any other operations",
  "The tests keep every document alive to the end of the test.",
  [L, E_, EL], [st("strong links to children, weak links to parent, root and document", "ownership", L)], [me("weak links are upgraded, never assumed", L)], ["answers through surviving handles"]),
 ("C11", "Copies are complete and share nothing with their originals",
  "A copied set has equal content, attributes and structure and no parent, and afterwards no change to the original shows in the copy, nor the other way round, whatever is changed, moved, inserted or dropped. A loaded fragment inserted at several places leaves equal, independent content at each.",
  ["histories", "programs"], "every history of copying and changing, copies of copies included",
  "The tests copy once and look once; sharing shows only when a particular part of one side is changed later.",
  [L, E_], [st("meta (name, attributes), content, child list", "must not be shared between copies", L)], [me("copy_node / clone_node / Elements::clone", f"{L}; {E_}")], ["both trees after every change"]),
 ("C12", "Answers do not depend on hash seeds, cache warmth or earlier calls",
  "The same calls on the same text give the same answers and the same serialisation in every process: whatever the seeds of the hash maps, whether or not selectors or documents were used before, and whatever unrelated documents exist. ",
  ["configurations", "histories", "schedules"], "every hash seed, every prior use of the library",
  "A test process has one set of hash seeds and one order of tests.",
  [S, R, P, E_, U, L], locks, [me("rules are tried in registration order, caches only memoise", f"{R}; {P}")], ["answers of the same program in differently seeded and differently warmed processes"]),
 ("C13", "A document written out and read again is the same document",
  "At any point of any history, serialising a document, losing everything else and parsing the text again gives the same tree: same elements, attributes, values, texts and comments in the same order. Work that continues on the reloaded document gives the same results as on the original.",
  ["crash_points", "histories", "inputs"], "every point of every history of changes at which only the serialised text survives",
  "The tests compare serialised text with literals for a few documents; they never continue from reloaded text.",
  [L, E_], [st("attrs with their quotes, text content", "what is written out", L)], [me("set_attribute renews the quote; set_text encodes; outer_html encodes content", L)], ["the reloaded tree, compared with the model, and everything done to it afterwards"]),
]
na = [
 ("C14", "Any text parses into the tree its HTML describes",
  "Loading arbitrary text yields the tree its markup describes, with unclosed and void tags, raw text and character references treated by the documented rules, or an error.",
  "A pure function of one string, computed by the dependency rphtml; no concurrency, time, I/O, crash or history takes part, so there is nothing for a simulator to schedule or fail. Parsing still runs inside every simulated world, on generated well-formed text and a fixed list of malformed texts."),
 ("C15", "Selector syntax means what CSS and the documentation say",
  "Every accepted selector text selects, on a fixed document, the elements its syntax describes, and every other text is an error.",
  "A pure function of a selector and a static document: deciding it over all selector texts is input generation, not simulation. The selectors used in the simulated histories are compared with a model (C08), and invalid ones must be refused (C04)."),
 ("C16", "Form values follow the form control rules",
  "val() of inputs, textareas, selects and options gives what a browser's form control would give.",
  "A pure read of a static element; nothing nondeterministic or multi-step in it."),
 ("C17", "Serialisation options and entity encoding are faithful on any document",
  "html, outer_html and text encode and decode every character reference and every content type as documented.",
  "A pure function of a static tree, computed by rphtml and htmlentity. What histories can break in it is decided under C13 and C07 on a fixed alphabet of texts and values."),
]
props = []
for (i, t, s, over, txt, why, files, state, mech, obs) in claimed:
    props.append({"id": i, "title": t, "statement": s.strip(), "quantifier": {"over": over, "text": txt}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state, "mechanism": mech, "observe_at": obs, "hook_needed": None}})
for (i, t, s, why) in na:
    props.append({"id": i, "title": t, "statement": s, "quantifier": {"over": ["inputs"], "text": "every text, document or selector"},
      "why_tests_cant": "The tests sample a handful of inputs.", "anchors": {"files": [L, S], "mechanism": [me("parsing and matching", f"{L}; {S}")], "hook_needed": None}})
for p in props:
    assert len(p["title"]) <= 80, p["title"]
open("/verif/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))

differential = {"C01", "C03", "C05", "C12"}
tech = {
 "C01": "deterministic simulation: seeded scheduler over the real locks; each client's answers against its own run alone",
 "C02": "deterministic simulation: seeded schedules, stalls and re-entrant callbacks; deadlock, starvation and panic detection",
 "C03": "deterministic simulation with injected failures and dying threads; unaffected clients against runs without the faults",
 "C04": "deterministic simulation of failing calls and handlers; handler calls against a reference model",
 "C05": "deterministic simulation of cold starts; first calls against a warmed-up process",
 "C06": "deterministic simulation of histories over aliased handles; tree invariants after every step",
 "C07": "deterministic simulation of histories; refinement against an executable tree model after every step",
 "C08": "deterministic simulation of histories; every answer against an executable query model",
 "C09": "deterministic simulation with panics injected at seeded callback positions; refinement against a model",
 "C10": "deterministic simulation with documents and handles dropped at seeded points; model with reachability",
 "C11": "deterministic simulation of copy and change histories; refinement against a model of independent copies",
 "C12": "deterministic simulation with seeded hash keys and prior use; same program across configurations",
 "C13": "deterministic simulation with restarts at seeded points, only serialised text surviving; model comparison",
}
note = "Seeded search, not exhaustive: holds on every simulated run, each exactly repeatable from its seed. The whole crate runs as real code (rphtml, regex and std's locks included); futex, randomness, clock and sleep are simulated. Preemption at basic blocks of visdom, allocations and lock operations; sequentially consistent memory. "
extra = {"diff": "Oracle: the same client in an execution of its own.", "model": "Oracle: a small executable model of the documented semantics; operations outside its domain are skipped and counted in the evidence."}
man = {"version": 1, "setup_cmd": "bash build.sh", "hooks": {"guard": "none: no hooks in /repo (the seams are the C library's system-call wrappers, the allocator and compiler instrumentation)", "enable": "the checks compile /repo through sim/rustc-wrap.sh, which adds basic-block callbacks to the visdom crate only", "source_commits": []},
 "checks": [{"property": c[0], "quick_cmd": f"bash check.sh {c[0]}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {c[0]}", "evidence_file": f"evidence/{c[0]}.json", "technique": tech[c[0]], "level": "exploration", "level_note": note + (extra["diff"] if c[0] in differential else extra["model"])} for c in claimed],
 "not_applicable": [{"property": i, "reason": r} for (i, t, s, r) in na],
 "notes": "Genuine defects found and repaired, and the known ones in a dependency, are listed in known-findings.txt; 'bash check.sh replay FILE' repeats a recorded violation, 'bash check.sh selftest' checks that seeds repeat exactly."}
json.dump(man, open("/verif/MANIFEST.json", "w"), indent=1)
