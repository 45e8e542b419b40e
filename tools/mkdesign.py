#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, and per property the rule's own EXPLAIN/ASSUME plus the notes here and the planted bugs."""
import importlib, json, os, sys, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

HEAD = """# Static verification of CXMLTestFramework

(Generated by `tools/mkdesign.py` from the rule modules and the notes in it; do not edit.)

## How it works

Everything is decided from the source, without running any of it.

1. `exporter/vexport.cpp` (a libTooling tool, built by `setup_cmd` or on demand) is run on the translation units of /repo's current
   working tree with the flags of a fresh CMake configuration in a scratch directory.  It dumps the *type-checked* program: every function
   body of the repository (templates as instantiated) with resolved callees, implicit conversions with their integer widths, destructors and
   temporaries, the class hierarchy with its virtual tables, member initialisers, globals.  Template-only code (composite measurements, image
   comparison, image filter) is instantiated by small witness translation units in `witness/`, which are only compiled, never run.
2. `sa/engine.py`, `sa/state.py`, `sa/terms.py` are a path-partitioned abstract interpreter over that program: value numbering with linear
   forms, intervals, byte and string terms (concatenation, substring, character search), list segments, pointer and object identity, a
   heap with allocation typestate, exceptions, virtual dispatch over the classes an object may have.  Branches refine the facts of the path;
   loops are solved as fixpoints over the variables they change (one havocked iteration stands for all; inductive facts are kept), calls
   into the repository are inlined, calls into libraries replaced by the contracts in `sa/models.py` and, for the parser, the image toolkit
   and the process library, in `rules/reader.py`, `rules/itkmodel.py`, `rules/process.py`.  There is no solver and no concrete execution: what
   decides is normal forms, intervals, and a small closure of difference and equality facts.
3. `rules/cXX.py` is one rule set per property.  It forms *obligations* (this path, this call site, this table entry, this iteration ...) and
   decides each: held, violated, or undecided.
4. `check.py <ID> quick|thorough` runs one rule set, writes `evidence/<ID>.json` (obligations per rule, functions analysed, sites, paths) and
   prints a VIOLATION line with file, line, function, rule and the branch facts of the offending path.  Quick and thorough run the same
   analysis: it is exhaustive over abstract paths, so there is no deeper bound to explore.

**Exit policy.**  A violation is only reported when the path's facts *entail* that the outcome is wrong and nothing on that path was approximated
(no unmodelled call, no merged value in the facts used).  Everything else that cannot be shown is `undecided`: counted in the evidence, printed,
exit 0.  If a task of a rule set cannot be carried out (for instance a function was restructured beyond recognition) the rest still decides
and the line `ANALYSIS-INCOMPLETE` is printed; only if nothing at all can be decided (the tree does not compile, the anchor of the whole
property is gone) the check exits 2.  Anchors are found by role (who is registered with the parser, which member the getter returns,
which function is the override), by public interface names where the role is the name, never by text or position.

**Vacuity.**  Each rule set counts the instances it matched (paths, sites, pairs of classes) and reports a broken analysis when a kind of instance that
must exist has none.  On the unchanged tree all obligations are held except those listed as undecided below.

**Cost.**  Parsing all units takes about 4 s (in parallel), the rule sets between 3 and 100 s on 8 cores; none needs more than 2 GB.

**Why this reaches what the tests cannot.**  The 16 stable tests fix one input each; they never see a failing stream, a full disk, a malformed baseline,
an exception in a comparison, a text with a zero byte, two visitors on one measurement, a self-assignment, a second run in the process.  The analysis
takes every input, every library outcome and every object state as unknown and follows all paths.

## What is decided, per property
"""

NOTES = {
 'C05': 'Rounding of long double products and differences is disregarded; the operation types are checked, so a computation in a narrower type is reported.',
 'C06': 'Texts converted through a character pointer on the way (cut at the first zero byte) are reported.',
 'C07': 'Not covered: control characters and characters outside ASCII, which are passed through unchanged.  Known limit: line breaks inside attribute values are normalised by XML readers.',
 'C08': 'Values with line breaks in attributes are out of scope (see C07).',
 'C10': 'Bytes taken from the input by `ignore` are reported; other extra readers (getline, get, seekg) are reported as undecided because what they take depends on the data.  A reading loop that tests its flag only at the head (`while (more)`) is analysed for each iteration, its normal exit is left undecided.',
 'C13': 'Covers members that own memory (by destructor release), the helpers listed in the evidence and every function that acquires something itself.',
 'C14': 'One undecided obligation group: the midpoint search of the text difference (`FindEditMidPoint`) is too large for the path budget (it indexes two tables with data dependent diagonals).',
 'C17': 'Values follow the documented effects; what `-O` does with an existing, unwritable file (message, then standard output) is the original, deliberate behaviour and is left as is.',
 'C19': 'The `-O` fallback described under C17 is not counted as an ignored failure.  Files that cannot be opened when the run starts are.',
 'C21': 'Unsupported compression or encoding names, and content that is no valid base64, are outside the statement; nothing is claimed for them.',
 'C23': 'The report of differences is analysed for images of the same geometry and pixel type.  Orientation is not part of the statement.  NaN pixels are ambiguous in the statement and not distinguished.',
 'C24': 'Decided for the filter instantiated with double and with unsigned int pixels (witness/c24.cpp).  Toolkit iterators, regions and threader are contracts.  Counters filled through iterators, or read by loops in the getters, are undecided, not violated.  Planted bugs in the .txx file do not count for the harness (file type), but the check reports them as well (counter reset dropped, threshold >=, face skipped, shared accumulator, reset in the wrong phase: all reported).',
 'C29': 'The result of the midpoint search is assumed to be a point inside the range with a positive length; equal identifiers are taken to stand for equal lines (the rule checks that identifiers come from a lookup of the line, not that the hash table is right).  Minimality is C30.',
 'C31': None,
}

TAIL = """
## Not applicable

* **C30** (the diff is a minimal edit script): correctness and minimality of the script rest on the values a recursive search computes over two
  texts.  No static argument in reach bounds them; the structural clauses (labels, ranges, tiling, only equal lines passed over) are claimed as C29.
* **C31** (numbers survive recording and reading back): a statement about the values that formatting and parsing produce at run time.  The
  structural clause in reach, that enough digits are asked for, is part of C06; the round trip is not claimed.

## Defects found in the original code

All were repaired by `fix:` commits; `known-findings.json` lists each with its property and commit.  No finding is left open.  Each was confirmed
against the real code (a failing program or input) before it was repaired.

## False alarms met and corrected

* The statement of C10 first said that a chunk is marked final exactly if the read reached its end; marking the empty chunk after it is as good
  (and behaves the same), so a chunk that is not final although nothing is left is now accepted when the reading goes on.
* C10 merged paths and lost that a failed read had been excluded; it now keeps them apart (`merge=False`).
* C24: local accumulators copied into the thread's slot at the end, and the inverted form of the threshold test, were reported; both are recognised now.
* C03: the first entry taken through an iterator instead of `front()` was not recognised as the same element.
* C06: a boolean written as "1" or "0" by a conditional was reported; the value is now folded with the branch.
* C17, C22, C26, C28: forms of loops (index, iterator, while), helpers and early returns that were first undecided or broken were modelled; each rule
  set was run against a battery of behaviour-preserving rewrites of the functions it looks at (some 20 per property) and corrected until none
  raised an alarm.
* A set of source transformations was applied to the whole repository at once (conditions inverted, swapped, negated or hoisted into variables,
  arguments hoisted, loops turned into other kinds of loops and inverted, every function body put into a helper, into `do { } while (false)` or
  into a lambda, output chains split, results collected in a variable, tests on pointers and ternaries rewritten) and all checks were run on each
  result.  What raised an alarm was corrected: C29 lost the hoisted conditions of line tests in a join (states with different facts on
  pieces of a text are kept apart); C02 did not take a helper of the driver for the driver; C17 read a variable of a function that had
  returned; C24, C25 and C28 took `do { } while (false)` for a loop; C06 and C14 did not know references to arrays; C09 looked for the callbacks and
  their user data in the registering expression and in the callbacks only; an inverted loop (`if (c) do ... while (c)`) is put back into
  its plain form before the analysis; C13 and C14 analysed a lambda without what it captures.
* A broken task no longer hides violations found by other tasks, and no longer turns a decided check into an error exit.

## Planted bugs

Each is in `seeded/<id>/` with patch, demonstration and description.  "Caught" means the check of its property exits 1 on the patched tree;
all are caught by the check of their own property.

| bug | property | needs | breaks |
|---|---|---|---|
"""


def main():
    props = {}
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        d = json.loads(l)
        props[d['id']] = d
    man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    tech = {c['property']: c['technique'] for c in man['checks']}
    bugs = {}
    for b in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        m = json.load(open(os.path.join(ROOT, 'seeded', b, 'meta.json')))
        bugs.setdefault(m['property'], []).append((b, m))
    out = [HEAD]
    for i in sorted(props):
        if i not in tech:
            continue
        m = importlib.import_module('rules.' + i.lower())
        out.append('\n### %s %s\n' % (i, props[i]['title']))
        out.append('*Method:* %s.\n' % tech[i])
        out.append(m.EXPLAIN.strip() + '\n')
        if getattr(m, 'ASSUME', None):
            out.append('*Assumed:* ' + '; '.join(m.ASSUME) + '.\n')
        if NOTES.get(i):
            out.append('*Limits:* ' + NOTES[i] + '\n')
        if i in bugs:
            out.append('*Planted bugs caught:* ' + ', '.join('`%s`' % b for b, _ in bugs[i]) + '.\n')
    out.append(TAIL)
    t = '\n'.join(out)
    for i in sorted(bugs):
        for b, m in bugs[i]:
            t += '| %s | %s | %s | %s |\n' % (b, i, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)


main()
