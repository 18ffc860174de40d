"""Regenerate DESIGN.md: the prose is here, the per-property sections come from properties.jsonl, the rule
modules (what is decided and how) and seeded/*/meta.json."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)

HEAD = '''# Static verification of html5-fuser

This file is written by `python3 tools/mkdesign.py` (prose in that file, per-property sections from
`properties.jsonl`, `rules/*.py` and `seeded/*/meta.json`).

## 1. The system and its guarantees

html5-fuser parses HTML5 templates into immutable lists of parts ("events"), transforms them as lazy streams
(selection, replacement, contents, attributes, repetition, application of template functions), injects content and
renders the result.  What a user relies on, across the layers:

* *Safety of output*: inserted text is escaped exactly once, names are valid by construction, nobody can forge
  either (P01-P03, P06, P31).
* *Faithful input*: parsing keeps the text, accepts only balanced markup, obeys the raw-text and void rules of
  HTML, obeys limits, always ends, and its errors point to the documented place (P04, P05, P07-P15, P33, P37, P40).
* *Transformations mean what their documentation says* for every template, selector, builder and input stream,
  including failures, nesting, placeholders, sharing and reuse (P16-P30, P34-P36).
* *Errors and equality are faithful* (P15-P17, P32), nothing panics (P12) and no loop runs forever (P40).

`properties.jsonl` holds 40 properties; 38 are claimed and decided, P38 and P39 are not applicable to this family
(section 7).

## 2. The technique

All deciding steps are static: they look at the compiler's type-checked representation of the *current* tree and
never execute library code, neither concretely nor by handing paths to a solver (there is no SMT/SAT solver
anywhere in /verif).

1. **Extraction** (`driver/main.rs`, `engine/extract.py`).  A `rustc_private` driver (nightly with rustc-dev, both
   installed here) runs as `RUSTC_WORKSPACE_WRAPPER` under `cargo +nightly check --offline` with its own target
   directory and dumps to JSON: the MIR of every function, closure and constant (with resolved callees, generic
   arguments, types of all locals), layouts of ADTs, visibilities and exported paths, trait implementations,
   statics, and the bodies of derived implementations.  Extraction takes 1-2 s and happens anew on every run from
   /repo's working tree.  The dumped data is what all rules read; the source text is never searched.

2. **Abstract interpretation** (`engine/absint.py`, `models.py`, `hooks.py`).  A path-partitioned abstract interpreter over
   that MIR.  Values are terms (symbolic arguments, ADT values, sequences with segments, text slices, iterators, closures,
   shared cells); each path carries a set of facts (variant tests, text relations such as "this prefix is free of
   class C", "position of the first character of class C", linear facts about lengths and counters decided by a
   small normaliser, name-equality atoms) and a trace (pulls, writes, builder calls, reads, loop turns).  Calls
   inside the crate are followed, library calls (std, tendril) are modelled one by one; what has no model yields an
   unknown value and marks the path.  Monomorphisation is by substitution, trait calls are resolved through the
   compiler's implementation tables; opaque arguments (selectors, builders, input streams, iterators, readers)
   return anything of their type.

   Loops are summarised, never unrolled: the state at a loop head is widened to fresh symbols per changed cell, the
   body is explored from every head state ("node") until no new node appears, and the result is a graph of nodes
   and edges (one per path through the body) plus exits.  Rules prove facts about loops by induction over those
   edges, so texts, attribute lists, class lists, reads and open-element stacks of any length are covered.

3. **Rules** (`rules/pNN.py` and shared deciders):
   * `grammar.py`: a reference grammar for one parser step.  For each path it *derives from the path's facts* which
     documented production applies (splitting on questions the path left open) and compares part, remaining
     input, location, open elements, next mode and error details (P04, P07-P11, P13, P14).
   * `streams.py`, `simlib.py`: typestate analysis of stream state machines.  `next_event` of the stream
     a public method returns is explored from its initial state against a protocol automaton (the specification of
     the method) with opaque inputs until the pairs (stream state, input protocol states, specification state)
     repeat (P16, P18-P24, P26, P29, P30, P34-P36).
   * `lists.py`: loops over attribute/class lists combined with a transducer for the documented edit
     (P25) or a predicate automaton (P27).
   * `load.py`: file loading against nondeterministic reads and faults (P09, P33).
   * `flows.py`, `textlib.py`: provenance of text and errors; decomposition of results into slices, literals and
     accumulators (P01-P03, P15, P17, P28, P37).
   * `panics.py`, `progress.py`: panic and progress obligations at every site reached by any exploration (P12, P40).
   * type-level analyses: visibility and compile-fail witnesses (P31), freeze analysis (P30), marker-trait closure
     (P29), structural equality (P32).

4. **Verdicts** (`check.py`).  Every rule reports obligations: *discharged*, *violated* (only when a specific path
   with specific facts contradicts the specification, or a public anchor of the property is gone), or *undecided*
   (precision was lost: unmodelled operation, loop-computed value, a shape the rule does not know).  Violations
   print `VIOLATION property=.. replay=..` and exit 1, with function, source span and the path's facts in
   `evidence/replay-<id>.txt`.  Undecided obligations are listed in the evidence and **never** raise an alarm; on the unchanged
   tree there are none (every obligation of every check is discharged), and each check has a floor on
   the number of obligations, so that an analysis that silently saw nothing cannot pass for one that did.

The choice "undecided is quiet" is deliberate: a check must never alarm on code where the property holds, and a
rewriting of the code can always leave what an abstract domain of fixed precision can follow.  The cost is that a bug
introduced *together with* such a rewriting is only reported as undecided.  Facts that stem from values computed by
loops (counters, flags, derived lists, elements picked by a counter) count as such a loss of precision.

### Bounds and assumptions

* Depth: input streams of the typestate explorations may have elements nested up to a bounded depth (4 open
  elements in quick, 6 with `--thorough`); nesting counters themselves are symbolic, with linear facts.  Text length, list length, number of reads, number of repetitions and options are unbounded.
* Trusted: rustc (MIR construction, trait resolution, visibility, borrow checker), the models of std and tendril operations in
  `engine/models.py`, and the documented behaviour of opaque parties (a selector answers any boolean, an input stream is well
  formed, a builder returns any stream).  Client `unsafe` is out of scope.  Overflow of counters by more
  than 2^63 parts, memory exhaustion and stack exhaustion by deep recursion of drop are not modelled.
* Cost: extraction 1-2 s plus 2-75 s per check, 38 checks in about 75 s on 8 cores; the slowest single
  check on refactored trees was P13 at 345 s (limit 900 s).

### Why this reaches what tests cannot

Every statement quantifies over all inputs, streams, selectors and builders.  The repository's tests sample a few dozen
templates; here each path of each function carries the facts under which it is taken, so a deviation which
needs an unusual letter case, a multi-byte character at a buffer boundary, a failure at one particular look-ahead, a
second element of the same name or a depth of 256 is one path among others and found without searching for inputs.
'''

TAIL = '''
## 5. Defects found in html5-fuser

All were found by the checks (or while stating the property), shown against the real code with a small program, and repaired in /repo by one
`fix:` commit each; `known_findings.txt` records them.  With the fixes in place every check is quiet, and reverting a fix makes the
named check report it again.

| commit | property | what failed |
|---|---|---|
| e9a6fc9 | P01 | dynamic strings given to `from_unencoded_str` were inserted without escaping |
| 307eb8c | P33 | `from_file` refused files in which a multi-byte character straddles the end of a read buffer |
| e4db302 | P07 | leading whitespace of parsed attribute values was dropped |
| 71e346c | P15 | closing-tag messages named the opening and the closing tag in swapped roles / called a closing tag an opening tag |
| 48199a4 | P04 | names containing a single quote were accepted although the parser ends words there |
| eac489f | P32 | equality of values depended on whether they were stored as static or owned text |
| af71ec2 | P14 | unfinished-tag errors carried a later location than the documented start of the tag |

No known finding is left open.  Looked at and judged *not* to be a defect: `add_class` on an empty class value
yields a leading space (classes are whitespace separated, documented as joining); a static selector may contain dots after `#id`
only as class separators.

## 6. Testing the machinery

**Planted bugs** (`seeded/`, section 4): each was written from the property's text, confirmed in a scratch copy (builds, passes the
112 stable tests, demonstration passes before and fails after) and then run against the check.  All are caught by
their own property's check.

**Mutation sweeps.**  Beyond the planted bugs some 230 single-site mutants were written per area
(parser, streams, attributes, selectors, loading, texts, equality, marker, sharing), those that compile and survive the test suite kept,
and each was run against the check(s) it should violate.  Misses were fixed in the engine or the rule.

**Refactoring sweeps.**  As important: some 240 behaviour-preserving edits (helpers extracted or inlined, `match` for `if let`,
early returns, index loops for iterators, flags for early exits, `char` loops for `find`, lists collected and reversed,
combinators for `match`, struct/enum re-layout, renamed and moved functions, statements reordered) were applied
singly and combined, and all checks had to stay quiet.  False alarms found that way and what was changed:

* loops with hand-made counters or flags: facts about loop-computed values are now recognised (`common.opaque`) and the
  path is undecided instead of being held to them;
* names compared by walking through both texts together made every check that relies on names report: when the
  comparison is not recognised and is not shown to be wrong by P05, what the other checks find is undecided;
* lists collected, reversed or rebuilt before use: P25/P27 treat derived lists as undecided;
* iteration over the characters of literals: followed exactly;
* parsing mode or stream state encoded differently (booleans, nested enums, options): modes and states are discovered
  from the values reachable from the start, not by name;
* private helper names and module layout: no rule depends on private names; anchors are the public paths, traits and
  types (found by what they implement), and helpers are found by their role (who constructs, who is reached);
* `get_mut` on a reference-counted list that a stream owns alone (P30): accepted only where uniqueness was established on the
  path; a copy-on-write in the library would be reported by the inventory if it could not be shown to be unshared.

**What checks catch beyond their own seed.**  Because the parser step is one exploration judged by many rules, most parser
bugs are reported by several of P04, P07-P14, P40; most stream bugs by their operation's check and P16, P22, P29 or P34.

## 7. Not applicable

* **P38** (rendering and parsing again gives the same template): equality of the composition of two recursive computations
  over all templates.  The decidable parts are claimed separately (verbatim storage P07, exact markup P06, names read back whole
  P04, raw text P10); the whole is moreover false for some names that are valid here (a tag named `!--` made by
  `Template::with_element` is rendered as `<!-- />`), which the maintainers' identifier rules accept on purpose, so it
  is not claimed at all.
* **P39** (time and memory grow linearly): a quantitative statement about run-time sizes and the cost of dependencies (tendril,
  allocator); no sound static bound in reach.  P13 and P40 decide termination with a progress measure per turn.
'''

ORACLE = {
 'P01': ('the escaping table in the statement', 'texts of any length'),
 'P02': ('standard Display of the unchanged integer', 'none'),
 'P03': ('the documented verdict as a function of character classes', 'none'),
 'P04': ('the name alphabet as decided by the validator itself on the current tree', 'inputs of any length'),
 'P05': ('truth table of ASCII case-insensitive equality over consistent valuations of the atoms used', 'none'),
 'P06': ('the markup grammar in the statement', 'lists of any length'),
 'P12': ('the panic condition of each operation', 'nesting depth of opaque inputs'),
 'P29': ('trait closure plus the shape automaton of one element', 'nesting depth'),
 'P31': ('enumerated ways to forge; rustc as judge of the witnesses', 'the witness list'),
 'P33': ('loading the whole text', 'none: any number and size of reads'),
 'P40': ('a progress measure per turn', 'nesting depth of opaque inputs'),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
    seeds = {}
    for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
        m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
        seeds.setdefault(m['property'], []).append((d, m))
    cross = {}
    cp = os.path.join(H, 'tools', 'cross.json')
    if os.path.exists(cp):
        cross = json.load(open(cp))
    out = [HEAD, '\n## 3. Per property\n']
    seen = {}
    for p in props:
        try:
            m = importlib.import_module('rules.' + p['id'].lower())
        except ImportError:
            continue
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append('*Decides:* %s\n' % m.EXPLANATION)
        out.append('*Method:* %s.' % m.TECHNIQUE)
        out.append('*Extent:* %s.' % m.LEVEL_NOTE.replace('static analysis: ', '').rstrip('.'))
        if p['id'] in ORACLE:
            out.append('*Oracle:* %s; *bounds:* %s.' % ORACLE[p['id']])
        out.append('*Why tests cannot settle it:* %s\n' % p['why_tests_cant'])
    out.append('\n## 4. Planted bugs and which checks catch them\n')
    out.append('Every planted bug is caught by the check of its own property (`own`); `also` lists other checks observed to '
               'report it, where measured.\n')
    out.append('| planted bug | property | needs | also caught by |\n|---|---|---|---|')
    for i in sorted(seeds):
        for d, m in seeds[i]:
            out.append('| %s | %s | %s | %s |' % (d, i, m['needs'].replace('|', '/'), ', '.join(x for x in cross.get(d, []) if x != i) or '-'))
    out.append(TAIL)
    open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
