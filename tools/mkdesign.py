#!/usr/bin/env python3
"""Writes DESIGN.md: the parts written by hand below, the rule text of each harness,
the seeded changes (seeded/*/meta.json) and the list of repaired defects."""
import json,re,glob,os,collections
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
HEAD='''# Verification of strtk by property-based testing and fuzzing

(Written by tools/mkdesign.py from the text in it, the harnesses' rule texts, seeded/ and known_findings.txt.)

## What is verified

strtk is one header, strtk.hpp, plus example programs. Nothing in it is concurrent and it keeps no durable
state beyond files it writes in one go, so the properties are about every *input*, every *parameter* and every
*history of operations* on an object, not about schedules or crash points. The 38 properties in
properties.jsonl cover its parts: tokenizing and splitting (T), scalar conversion (C), field parsing,
joining and adapters (P), binary codecs (E), serialization (S), the token grid (G), text and sequence
algorithms (X), combinatorics and random generation (M), data structures (D), key-value and column
extraction (K), file helpers (F), hashing (H), timers (U), type-erased holders (V) and ownership of storage and files across all of them (R).

Every property is decided by the same technique: generated inputs, an executable oracle, shrinking of any
failure to a small reproduction that becomes the replay file. None is left as not applicable.

## Machinery

* `lib/pbt.hpp`, `lib/pbt_main.hpp`: a small property-based testing engine. A case is a function of a byte
  stream (the choices); random bytes in the search, the fuzzer's bytes in the libFuzzer build, a recorded
  stream in replay. Shrinking works on the choice stream (deleting, zeroing and lowering spans), so it is the
  same for every generator and never leaves the generators' domain. A property consists of *facets* (one
  entry point or aspect each) with their own number of cases, so that a facet cannot starve another.
* Each case runs in a process under AddressSanitizer and UndefinedBehaviorSanitizer (clang 18; I01: ThreadSanitizer). A sanitizer
  report, a crash, a hang (per-case alarm) or a runaway allocation is caught by the parent, the case is
  replayed and shrunk in child processes and reported as a violation like a failed comparison.
  Inputs and outputs live in exactly sized heap blocks (`model::Exact`), so that "never touches anything
  outside" is observable. Output iterators are `pbt::slots`, which behave like a pointer into an array (a
  missed increment overwrites, a doubled one leaves a gap), which `std::back_inserter` would hide.
* Size is a dimension of its own: most facets over texts, sequences and files have a twin `<facet>_large` whose
  lengths and counts are drawn up to thousands (or, for files and keys, a hundred thousand) with every other
  choice unchanged, so that code that behaves differently beyond some count is met.
* `lib/faults.hpp`: a device that fills up at byte k, a file whose reads fail at byte k, and reads that arrive
  in small pieces, injected into the helpers that touch files.
* `lib/models.hpp`, `lib/binmodel.hpp`, `lib/fields.hpp`, `lib/gridmodel.hpp`: the reference models - split,
  wildcard, wire encoding, per-type field grammar and value, grid as list of lists. They are written from the
  definitions, share no code with strtk and favour obviousness over speed.
* `check.sh ID quick|thorough` builds the harness from /repo's working tree (cached under build/ by a hash of
  header, harness and flags) and runs it. Quick: fixed case counts (0.3 to 3 million cases per property, 2 to
  35 s on 8 cores after a compilation of up to 60 s), from VERIF_SEED. Thorough: 8 times as many cases
  spread over derived seeds, then four minutes of coverage-guided libFuzzer over the same facets (a crash of
  the fuzzer is turned into a replay of the same format). `check.sh ID --replay FILE` repeats one case.
* Evidence (evidence/ID.json) counts cases generated, distinct by a hash of what the generator showed,
  non-trivial by the rule text below, the labels reached per facet and samples of cases.
* Known findings: known_findings.txt. At present all 90-odd defects found are repaired ("fixed:" entries),
  none is left as known.

What the technique can and cannot give: every check is a search, not a proof; small spaces (all bytes, all
16-bit values, all pairs of bytes, all subsets of small sets) are enumerated, everything else is sampled with
generators aimed at the boundaries (type limits, buffer and block edges, powers of two and ten, runs, empty
and one-element inputs, bytes above 0x7f). Trusted: the oracles, clang's sanitizers, libstdc++ and printf/strtod.

No hooks in /repo were needed; the harnesses use the public interface only and therefore judge what the code
does, not how it is written.

How the machinery itself was tested: seeded changes (table below), a mutation run over the lines the
harnesses cover (operators, constants, conditions, dropped statements; survivors were read and either are
equivalent or led to a stronger facet, e.g. `pbt::slots` and the compressed-size bound), merged line coverage
of all harnesses (every line of strtk.hpp that can be instantiated is executed except about a hundred that
are unreachable, need failing hardware or are debugging output), and runs under several seeds.

'''
WHY={
'T01':'Any of 5 options x 8 predicates x 9 entry points on any byte sequence; the tests fix a dozen literal texts.',
'T02':'Limits interact with runs and options, offsets with rotation and reuse.',
'C01':'The boundary of each type and every malformed text; tests sample a few numbers.',
'C02':'All values; 16-bit ones exhaustively in blocks.',
'C03':'Accuracy over the whole exponent range, and grammar rejection.',
'P01':'Arity x type mix x entry point x failing position.',
'P02':'Containers x options x bounds x invalid positions.',
'P03':'Inverse relation on any values and delimiters.',
'P04':'Adapters keep state between fields; only sequences of records show it.',
'P05':'Unrolled code per width: each width x type x form separately.',
'E01':'All residues of length and all bytes; malformed texts with exact buffers.',
'E02':'Tables enumerated completely, otherwise bit-by-bit definitions.',
'S01':'Sequences of heterogenous operations share buffer positions.',
'S02':'Every truncation point and every corrupted count.',
'S03':'All 16-bit values; the wire image by shifting.',
'G01':'Row/column/quote interplay, complete observation of the grid after each load.',
'G02':'Histories: edits change what later queries see.',
'X01':'Element patterns at ends, everywhere, nowhere; several containers.',
'X02':'Overlapping and growing replacements with exact output sizes.',
'X03':'Backtracking needs adversarial pattern/text pairs, derived from each other.',
'X04':'Every position is examined by the oracle.',
'X05':'Run lengths around n, at both ends.',
'X06':'Widths around lengths, periodic texts, permutation tables.',
'X07':'Bulk compares and copies with single-byte differences.',
'M01':'Complete enumeration for n <= 9, exact binomials.',
'M02':'Complete enumeration for n <= 7; Lehmer ranks up to 20 elements.',
'M03':'Own generator driven to its extremes; exact buffers.',
'D01':'Histories over related keys.',
'D02':'Histories with copies, set operations and compressions of several filters.',
'D03':'Every truncation and damage of a stored file.',
'K01':'Registrations x policies x repeated parses x malformed blocks.',
'K02':'Index sets x type mixes x short lines.',
'F01':'Sizes around the copy block; single-byte differences.',
'F02':'Record layouts, truncation at any byte, bounded iteration.',
'H01':'Positions at and around every block size, each element type and carrier.',
'R02':'operator new is replaced: the k-th allocation inside an operation (or all from it on) fails, k drawn over the number it makes; callbacks throw at every call. The balance of memory and descriptors and a reference run judge the outcome.',
'I01':'Built with the thread sanitizer, which judges the order of memory accesses and not their timing: a race is reported whenever both accesses happen, whatever the interleaving. First uses run in a process of their own.',
'U01':'The clock is interposed, so that second boundaries and backward steps are ordinary inputs.',
'R01':'Histories whose failing steps are the interesting ones; the allocator itself is the witness.',
'V01':'Copy/rebind/convert histories.'}
EXC={
'T01':'first_delimiter|all_delimiters together is unspecified. Delimiter objects are used as documented (no predicate that reads outside its argument).',
'T02':'split_regex is compared with the same engine (boost/std regex) driven by hand, so the regular expression language itself is trusted.',
'C01':'A lone sign in the fast digit checks is unspecified and not judged.',
'C03':'Tolerance in units in the last place; texts beyond the stated digit counts only for memory safety.',
'P01':'Typed parse always compresses delimiters. parse with raw const char* iterators and the default option is ambiguous (does not compile) and unused.',
'P02':'Parsing into a container returns the token count even if some are invalid; sinks report success when at least one token came (or exactly the count asked for). Sets count newly inserted values. Variables followed by a container exist only for strings and up to 11 variables. After a failure the container content is not judged beyond "no wrong value".',
'P03':'priority_queue joins and queue/stack bracketizing do not instantiate. Reals keep ten significant digits, so only representable ones are compared. Empty tokens are not parsed back.',
'P04':'Malformed base64 padding, decimal texts without digits, and hex-to-string over non-hex characters are unspecified (memory safety only).',
'E01':'The decoders do not check their alphabet; only length rules are judged for malformed hex, nothing but memory safety for malformed base64.',
'E02':'Fixed-size table lookups are enumerated.',
'S01':'std::queue and vector<bool> overloads do not instantiate. The array form of write with write_length writes a size_t count (format as found).',
'S02':'bool and long double are excluded from corrupted reads (no invalid representation may be formed).',
'G01':'row_split_option is ignored by the grid (documented here, not judged). row[], token, get, raw_length(index) and grid.row(index) are unchecked preconditions. get<T> throws on failed conversion. accumulate results are unspecified when it reports 0.',
'G02':'store::remove_column and remove row range are private/unreachable.',
'X04':'Condition objects are judged on their own pattern, also after copies.',
'X06':'',
'M01':'Binomials that do not fit are excluded.',
'M03':'random_* are called with rvalue output iterators. Spread limits are beyond six sigma with fixed seeds, so they cannot flicker.',
'D01':'Empty keys are ignored by design.',
'D02':'Element counts after union, slicing a compressible filter into a plain one, filters of incompatible parameters (target unchanged) and insert(const char*) (hashes the pointer) are not judged. The false-positive rate is judged only for random keys of 8 bytes or more, projected counts >= 300, p >= 0.005, with the bound 2.5 p Q + 10.',
'D03':'A flipped bit inside the table is undetectable by the format; such a file may load and must only be safe. A compressed filter\'s file is refused.',
'K01':'Numeric keys beyond 19 digits are refused; "k=" is malformed; failure_count is meaningful only when failures are ignored.',
'K02':'Indexes must ascend. A selector reports no outcome. Destinations after a failed parse_columns are not judged.',
'F01':'Copying a file onto itself or concatenating into a source, and load_file into a larger buffer are not judged; loading a directory into a string (or a grid or filter) throws for want of memory. Full devices are simulated with /dev/full and file-size limits (lib/faults.hpp), failing and short reads by standing in for read(). All files live in a scratch directory made and removed by the run.',
'F02':'Reals are written with stream precision, so only integers and strings round-trip as text. A pod count held as a non-size_t lvalue selects another overload.',
'R01':'Exceptions thrown by allocation itself are R02\'s subject.',
'H01':'The hash values themselves are not pinned. Seeds below 65536 are not used for sensitivity: the function mixes an element with the high bits of the state.',
'R02':'Whatever iostreams do with an exception inside them (they may swallow it and set badbit) is accepted and counts as the failure report. A failed load leaves a grid or filter empty. Allocation failures inside destructors do not occur.',
'I01':'n_choose_k fills a shared table on demand and is only used after initialize_n_choose_k, as that function is there for. Accesses inside the uninstrumented C++ and boost libraries are not seen by the sanitizer.',
'U01':'The wall clock is what strtk reads; that it can step is part of the property.',
'X07':'fill(pair of const char*) is ambiguous (two overloads) and cannot be called.',
'C02':'A pair of iterators cannot be given to type_to_string (no conversion registered).',
'V01':'value::operator T does not instantiate; actions that hold different functor types bound to the same function, and attribute previous()/changed() after a text conversion are not judged.'}
FALSE='''## False alarms met and what was done

Oracles or properties that were wrong were corrected, never listed as findings. Among them: `trim` of a field of
trim characters only (model was wrong); typed parse assumed to honour split options (it has none); parse into a
container assumed to return the number of *valid* values (it returns the number of tokens); bounded sinks assumed to
accept fewer tokens than asked; real-to-text assumed to round-trip (ten digits by design); empty keys of
the trie; `row_split_option` of the grid; bloom unions across parameters; text written by `write_to_text_file` for
reals; `load_file` into a larger buffer. Their present scope is stated under the properties.

'''
out=[HEAD,'## Properties\n\n']
for p in props:
    i=p['id']; s=open(f'{R}/props/{i}.cpp').read(); rule=re.search(r'rule_text="((?:[^"\\]|\\.)*)"',s).group(1)
    facets=re.findall(r'^FACET\((\w+)|\sFACET\((\w+)',s,re.M); names=[a or b for a,b in facets]; n=len(re.findall(r'FACET\(',s))
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n* Generator, oracle, counting rule: {rule}\n* Reach beyond tests: {WHY.get(i,'')}\n")
    if EXC.get(i): out.append(f"* Bounds and exclusions: {EXC[i]}\n")
    show=[x for x in names if x]
    out.append(f"* Facets ({n}): {', '.join(show[:14])}{', ...' if n>14 else ''}.\n\n")
out.append('## Seeded changes\n\nEach is a change to original lines of strtk.hpp that builds and passes the stable tests, with a demonstration; "caught" is the quick check of the property named, run against the change (tools/seedtest.sh).\n\n| seeded/ | property | needs | caught |\n|---|---|---|---|\n')
caught={}
cf=R+'/tools/caught.json'
if os.path.exists(cf): caught=json.load(open(cf))
for d in sorted(glob.glob(R+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d)); c=caught.get(i,'yes')
    out.append(f"| {i} | {m['property']} | {m['needs']} | {c} |\n")
out.append('\n'+FALSE)
out.append('## Defects found and repaired\n\nEach is one "fix:" commit in /repo; the check named reports it again if it returns. Details in known_findings.txt.\n\n')
c=collections.OrderedDict()
for l in open(R+'/known_findings.txt'):
    m=re.match(r'fixed: property=(\w+) (\w+) (.*)',l)
    if m: c.setdefault(m.group(1),[]).append(f"{m.group(3)} ({m.group(2)})")
for k in [p['id'] for p in props]:
    if k in c: out.append(f"* **{k}**: "+'; '.join(c[k])+'.\n')
known=[l for l in open(R+'/known_findings.txt') if l.startswith('known:')]
out.append('\nKnown and not repaired: '+('none.\n' if not known else '\n'+''.join('* '+l[7:] for l in known)))
open(R+'/DESIGN.md','w').write(''.join(out))
