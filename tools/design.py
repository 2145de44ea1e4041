import json,os,re
H='/verif'
spec=json.load(open(H+'/checks.json')); props=[json.loads(l) for l in open(H+'/properties.jsonl')]
wall={}
for p in props:
    f=H+'/evidence/%s.json'%p['id']
    if os.path.exists(f):
        e=json.load(open(f)); wall[p['id']]=(e['wall_s'],e['coverage']['evaluations'],e['coverage']['distinct_nontrivial'],e['tier'])
SEC={
'P01':('harness/p01_*.cpp, harness/model.hpp',
 'A state machine over three options of one type: about 40 operations (every constructor, assignment from value/option/none/other option, emplace, try_emplace, take, take_if, swap in its four spellings, reset, in-place writes, self-assignment and self-swap, moves through containers). After every step all three options are read back.',
 'A (flag, value) model; return values and references are compared too. Options not named by the operation must be unchanged. `p01_swap.cpp` does the same for two options of *different* types that swap, convert and assign to each other (number of `swap` calls and live objects are exact).',
 'Histories up to 25 operations, about 50 contained types (flag, sentinel, trivial, owning, aggregate, const, empty, nested, member pointers).',
 'Storage layouts and histories multiply: a state left wrong by one operation is only seen by the next one; the suite runs each operation once on a fresh option.'),
'P02':('harness/p02_*.cpp, gen/p02.py',
 'Operations and histories on instrumented types, and on generated classes with any combination of trivial, user-provided, undeclared and deleted special members.',
 'Exact numbers of constructions, assignments and destructions derived from the documented code equivalents; a registry of live object addresses (double construction/destruction, use of dead objects, leaks).',
 '22 operations x instrumented leaf/sentinel/pair/tuple/array/aggregate/nested types; 24 generated classes per quick run.',
 'The suite has no instrumented types; a leak or an assignment to a non-existing object needs the exact class shape (trivial assignment with non-trivial destructor was such a defect).'),
'P03':('harness/p03_*.cpp',
 'Thirty operations with an exception injected at each throwing point 0-7 of constructors, assignments, swaps and callbacks; histories with random injections.',
 'The exception must propagate; the emptiness afterwards is the documented one; the object registry balances; the options remain usable (a full operation sequence follows).',
 'Throwing leaf, sentinel-based, composite, nested types, and containers of throwing elements.',
 'Fault points are an input dimension no unit test enumerates; two of the defects found here corrupt the heap only after the exception.'),
'P04':('harness/p04_*.cpp, gen/p04.py',
 'Values generated around the reserved representations (NaN payloads, pointer codes, enumerator neighbours, string/vector layouts), nine ways of construction over chosen garbage, twelve of transport, container histories inside the option; enumeration of bit-pattern blocks.',
 'Bit-exact round trip; a container inside an option against the same container outside; an empty option is empty whatever the storage contained.',
 'About 55 listed types and generated compositions; all 2^32 float patterns in the thorough tier (two reserved ranges excepted), 8-byte types sampled with boundary bias.',
 'The property quantifies over representations; tests take a handful of ordinary values.'),
'P05':('harness/p05_*.cpp, gen/p05.py',
 'Histories over two options nested 2-7 times, each operation applied at a generated depth.',
 'Model: number of full levels and the value; every depth is re-queried after every operation; comparisons between all states.',
 'About 40 fixed and 16 (thorough: 112) generated contained types.',
 'Level arithmetic differs for every layout and depth; the suite nests two or three types twice.'),
'P06':('harness/p06_*.cpp, gen/p06.py',
 'Generated compositions (pair, tuple, array, aggregate, option, wrapper) of 40 leaf types at depths 1, 2, 3, 5, 12.',
 'A level calculus written from the documentation predicts size and alignment; references, const and arrays are compared by equalities.',
 '120 (thorough: 800) generated types, about 110 listed; sizes are decided per type by compiling, so each type is decided completely.',
 'Quantifies over types; tests assert about 20 sizes.'),
'P07':('harness/p07_*.cpp, gen/p07.py',
 'Every level of every type written over garbage and read back, copied as bytes; generated values, copies and moved-from states queried.',
 'get(set(n)) = n for all n below max_level, pairwise distinct, values give no level, max_level equals the documented number (one less per nesting).',
 'About 90 listed, 40 (thorough: 320) generated types; levels enumerated completely (spread when more than 70000). A configuration with OPTION_USE_QUIET_NAN.',
 'Hundreds of levels per type and the documented table are not tested at all by the suite.'),
'P08':('harness/p08_*.cpp, gen/p08.py',
 'Generated enumeration definitions: underlying type, scoped or not, declared values and flags, SENTINEL conventions, enclosing templates/anonymous namespaces/local scopes, and padding members.',
 'The documented assignment of spare values, computed by the generator in Python; for one and two byte types every value is tried.',
 'About 60 generated enumerations per quick run (thorough: 10 times as many).',
 'The reflection parses compiler spellings (`__PRETTY_FUNCTION__`); awkward enclosing scopes broke it (two defects).'),
'P09':('harness/p09_*.cpp','One of 17 groups of value-transforming operations in a value category on a generated state with generated callables; algebraic laws for generated partial functions.',
 'A decision table written from the reference (called or not, argument category and identity, result, option afterwards); functor and monad laws.','14 types x 4 categories x 17 groups; sampled values.','Argument categories and the not-called cases are the error-prone part; tests check results.'),
'P10':('harness/p10_*.cpp','Operators |, &, ^ and their assignment, value, self and none forms on generated operands.','A truth table with identity and copy counts, operands afterwards.','18 type combinations x 9 category combinations x 7 forms.','The suite covers one category per operator.'),
'P11':('harness/p11.cpp','Six operators in every form (option/value/none/nested/reference/heterogeneous), random per-operator truth tables as contained comparison, triples, ordered containers.','Reference comparison on (flag, value); order axioms; a std::map model.','About 45 operand type combinations; equal and neighbouring values forced.','Partial orders and per-operator independence cannot be sampled by hand.'),
'P12':('harness/p12.cpp','Generated options hashed over varied storage; histories on unordered containers.','std::hash of the value; equality implies equal hashes; list model.','19 key types, availability on 17 more.','Storage garbage and availability (disabled hash) are untested in the suite.'),
'P13':('harness/p13_*.cpp','zip (2-4 operands, all categories), unzip, flatten (1-5 levels), option_cast on generated states.','Flag+value models, unzip(zip) round trip, copy counts and addresses.','7 operand triples, 18 tuple-likes, 16 types x 4 depths, 26 casts.','Every combination of emptiness and category, not the all-full one.'),
'P14':('harness/p14_*.cpp','at, at_front, at_back, lookup, get over generated containers, indices, keys, alternatives.','Direct access with address identity; container doubles which record out-of-range calls; sanitizers.','16 sequences, 13 associative, 7 variants, 13 tuple-likes.','Boundary indices (including wrap-around) and present-but-empty elements.'),
'P15':('harness/p15*.cpp','Histories of bindings, rebindings, conversions, swaps, takes and writes over seven reference options and four objects.','Binding model (address) and the values of all objects after each step; table of refused bindings.','12 referred types.','Assign-through instead of rebind shows only if the old referent is looked at.'),
'P16':('harness/p16_*.cpp','Accessors in each category on options brought to a state by a generated history; legitimate and reserved values through 16 construction paths.','OPTION_VERIFY replaced by a recorder: fires exactly on the undocumented access; the default macro in child processes (message and trap).','20 contained types.','Assertions that fire on correct code (or never) are only visible over histories.'),
'P17':('harness/p17_*.cpp','Three iterators moved by generated operations; 18 ways of visiting (algorithms, reverse, spans and views).','Position model; each value visited exactly once through the option itself.','29 types including references and const.','The suite loops once over a full option.'),
'P18':('harness/p18.cpp','1-5 options written/read through opt::io with generated text and formatting state.','A twin stream with direct insertion/extraction: text, state, width, flags, value afterwards.','12 type pairs; user-defined streams.','Formatting state (width consumption, failure) is never tested.'),
'P19':('harness/p19_*.cpp, gen/p19.py','Generated classes (special members x noexcept x triviality) and generated sources of construction/assignment.','The documented formulas (existence, triviality, noexcept, explicitness) evaluated on the contained type; call counts at run time.','160 (thorough: 840) generated combinations.','The product of special-member combinations is far beyond a test list.'),
'P20':('gen/p20.py, harness/p20_common.hpp','Programs of 4-14 operations (of 90) over three options of one of 20 literal types, written by the generator; every input is evaluated by the compiler into a `static constexpr` array and again at run time.','The run-time result of the same function, and (for usability) a committed table of which (operation, type, state) are usable in constant expressions in C++17/C++20; losing one is a compilation failure, reported as a violation. Owning literal types make the constant evaluator check every allocation.','About 620 programs per seed x 8 inputs x 4 configurations.','constexpr.test.cpp has a dozen constants and never compares with the run-time path; the compiler as the evaluator also rejects any undefined behaviour on the path.'),
'P21':('gen/p21.py, harness/p21_common.hpp, runner/p21_main.cpp, class Differential in check.py','Histories of up to 60 operations (the 90 of P20 plus 14: streams, hashing, containers, lookup, throwing elements, composites, nests of four) over 39 fixed and 8-60 generated types, plus the constant programs; every observation (emptiness, value, result, exception, traits of the type) goes into a transcript hash.','The other configurations: the same seed must give the same hash in all of them. Differences are reduced to the first differing case and the shortest diverging prefix; both transcripts are the replay file.','7 configurations quick, 16 thorough: g++/clang++, C++17/20/23, O0-O3, NDEBUG or not, sanitizers, and each documented switch (built-in traits, PFR, forward declarations, quiet NaN, typestate, custom OPTION_VERIFY, libassert through a stub, option_fwd.hpp first). Sizes, levels and addresses are excluded.','The suite is built by one compiler in one configuration.'),
'P22':('harness/p22_common.hpp, gen/p22.py','Generated wrappers (sentinel, sentinel_f, member, enforce, sentinel_option_traits) over integers, enumerations, pointers, floating point, classes.','The named values, and only these, are empty states, in the documented order, through nests of five; writes of reserved states.','Generated per seed; enforce refusals decided by compiling 38 types.','Any value list, any width.'),
'P23':('harness/p23_a.cpp, gen/p23.py','Every operation in four value categories on options of generated classes with special members in any combination; move-only and identity-carrying standard types.','A per-operation model of copies, constructions and assignments (exact), moved-from marks, lower bound for moves.','24 classes per quick run.','Copies where moves are due are invisible to value comparison.'),
'P24':('harness/p24_*.cpp, gen/p24.py','Generated pairs of classes with converting constructors/assignments per category, explicit/implicit/deleted, operators, greedy templates; scalar and standard pairs.','std::optional, where the rules coincide by documentation (availability, explicitness, state, value, events).','24 pairs per quick run, 28 listed.','Overload resolution depends on combinations of declarations.'),
'P25':('harness/p25_common.hpp, gen/p25.py','Generated traits (levels 0 to 2^40, encodings, layouts) that monitor how they are called, histories with faults.','An address registry and marks: get_level only on initialized storage, set_level only with a level below max_level on a value-less object, never both alive and marked.','Generated per seed.','The contract is on calls, invisible to results.'),
'P26':('harness/p26_*.hpp/.cpp, gen/p26.py','Generated classes with overloaded, explicit, deleted, greedy and initializer-list constructors; generated argument lists; 14 helpers; aggregates with brace elision.','Direct construction X(args...) / X{args...}: same constructor, same parameter categories and identities, no further copy or move.','Argument lists of 0-5 arguments.','Forwarding mistakes need the right overload set.'),
}
o=[]
o.append('''# Design

NUCLEAR-BOMB/option is a header-only library (`include/opt/option.hpp`, `option_fwd.hpp`): `opt::option<T>`, an
optional that stores its emptiness inside unused representations of `T`. Everything observable is a property of
programs compiled against the header, so every check is a generated-input search over such programs.

## Technique

Property-based testing and fuzzing, everywhere. `engine/` is a small engine of this repository: a *case* is a function
of a sequence of choices (`Case::pick`, `coin`, `interesting`, `u32`...), so every case can be replayed from its
choices and shrunk by deleting/reducing them. Cases run in forked batches (a crash, sanitizer report, assertion
trap, or time-out is a failure of the case that was running). The failing choice sequence is shrunk and written with
a log of the generated operations to `replays/<id>-<hash>.txt` (`python3 check.py ID --replay FILE`). The thorough
tier also runs most harnesses under libFuzzer (the bytes are the choice sequence; crashes are confirmed and shrunk by
the ordinary runner).

Where the input space of a property is *types or programs*, `gen/*.py` writes C++ sources from the seed (class
definitions, enumerations, wrappers, compositions, operation sequences) and these are compiled in every configuration.
A generated program that stops compiling is a violation too: before it is reported, the build is repeated and a trivial
program is compiled, so trouble of the sandbox is an error (exit 2), not a verdict.

`check.py ID --tier quick|thorough` builds from `/repo/include` (no build products of /repo are used) in four
configurations (g++ C++17 and clang++ C++20 with ASan+UBSan, g++ C++20 and clang++ C++17 with -O2 -DNDEBUG), thorough
in 13 or more (adds -std=c++23, no built-in traits, no PFR, no forward declarations, quiet NaN). `VERIF_SEED` selects
generated programs and case streams. `checks.json` lists per check: sources, generator, cases, time, rule, technique.
MANIFEST.json is generated from it by `mkmanifest.py`, this file by `tools/design.py`.

The oracle is never the library itself: it is a flag+value model, a table or formula from `docs/reference.md`, the
contained type used directly, std::optional (where the documentation gives the same rules), a twin stream or container,
the compiler's constant evaluator, or another configuration. Checks look at behaviour only (no source text is
inspected), so refactorings do not disturb them.

Assumptions: x86-64 Linux, libstdc++ 13, g++ 13 and clang++ 18 of the sandbox; other standard libraries, MSVC, 32-bit
pointers and big endian cannot be run here. Every level is "exploration": sampled unless a section says enumerated.

## Properties
''')
for p in props:
    i=p['id']; f,g,orc,b,w=SEC[i]; t=wall.get(i)
    o.append('### %s %s\n'%(i,p['title']))
    o.append('- Files: %s'%f); o.append('- Generated: %s'%g); o.append('- Oracle: %s'%orc); o.append('- Bounds: %s'%b)
    o.append('- Cost: quick about %d s on 8 cores (about %s cases, %s distinct non-trivial per run).'%(round(t[0]/5)*5 or 5,'{:,}'.format(t[1]),'{:,}'.format(t[2])) if t and t[3]=='quick' else '- Cost: see evidence/%s.json.'%i)
    o.append('- Beyond the tests: %s\n'%w)
o.append('''No property is under not_applicable: all 26 can be stated over generated programs, values or histories.

## Defects found in the library

Each was confirmed on the real header and repaired by a "fix:" commit in /repo (list generated from known-findings.json);
none is left open.
''')
for f in json.load(open(H+'/known-findings.json'))['fixed']:
    m=re.match(r'fixed: property=(\S+) (\S+) (.*)',f); o.append('- %s (%s) %s'%(m[1],m[2],m[3]))
o.append('''
## Behaviour that is not asserted (documented, or left open by the documentation)

The hash of an empty option; levels of option<T&> (code 256, documented 255); hash of option<T&> (address); volatile
contained types; `opt::emplace` from a part of the old value; map with a data member pointer on an rvalue option; moving
from option<const T>; get() && of option<T&>; option<option<T>> compared with option<T>; `option<option<T>> | option<T>`;
enumerations with a signed underlying type without SENTINEL have no traits; constant expressions over types whose empty
state is written by user traits (clang); assignment into an empty option and std::swap are not constant in C++17; number
of moves on return; aggregates with base classes or C array members do not compile under Boost.PFR; option_cast of an
enumeration value outside of the range of the enumeration; get<T> of a wrong variant alternative.

## False alarms met and corrected

- P11: agreement of nested heterogeneous comparison with the flat one (documented overload is another one); removed.
- P02/P23: move events of option<const T> (moving is documented); number of moves on returns differs by elision: lower bound only.
- P04: an offset of a container double went out of bounds; P08: alignment in the size bound; both in the harness.
- P12/P18: the property text claimed width handling for empty alternatives that the documentation does not promise; reworded.
- P16: an aggregate source type of the harness was ambiguous under PFR; P19: several formulas read from the base version of the
  documentation for reference options; corrected against docs/reference.md.
- P22: levels assumed for shared_ptr/std::optional (they have none) and the order of nested sentinels; corrected.
- P23: `operator|` is unconstrained and flattens; excluded forms that never reach the option.
- P24: some failures were std::optional's own compile failures; those pairs are compared with documented results instead.
- P25: live-object counts of composite structs; traits specialised with enable_if also match const T.
- P26: identity of the initializer_list object (it is passed by value).
- P20: counting moves (elision differs between constant evaluation and run time); `end() - begin()` is not constant in g++.
- P21: comparisons of std::array/tuple with NaN differ between C++17 and C++20 in the standard library itself;
  noexcept of std::pair/tuple assignments too; narrowed to traits that the library decides. Both were differences of the
  standard library, found by the first runs.
- Compilers: with -O2 the SLP vectorizer of g++ 13 merges the pairs {indeterminate, 0} and {255, 1} into {255, 1} (found as a
  wrong nested option of a one-byte enumeration; the same source is right with -O1, -O3, clang++, the sanitizers, or
  -fno-tree-slp-vectorize, and the dumps show the merge). The optimized g++ configurations switch that pass off.
- Generators: a tuple of one move-only element, and unique_ptr<T[]>, as a member of an aggregate defeat Boost.PFR's field count.
- Generators: types that Boost.PFR or clang cannot reflect (base classes, C arrays, more than 100 members) are not generated.

## Planted bugs

`seeded/<id>/` keeps each with its demonstration. All are caught by the quick check of the property in the table (rechecked
by `tools/recheck-bug.sh`); rejected ones (caught by the existing tests, mostly the codegen comparison) are not kept.

| bug | property | needs |
| --- | --- | --- |''')
for d in sorted(os.listdir(H+'/seeded')):
    m=json.load(open(H+'/seeded/%s/meta.json'%d)); o.append('| %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','\\|')))
o.append('''
First missed, then caught after strengthening: p26-voc-ilist-copy (initializer-list alternatives added to P23),
p26-zero-args-default (re-initialization over other values), p20-iterator-difference (iterator arithmetic added to the
operations of P20/P21), p01-swap-other-type (which first exposed that the documented swap did not compile at all).
p07-nested-flag-level and p07-reference-level were written against P05 and are decided by P07, whose statement they break:
their levels are only reached by nesting deeper than a program can be compiled with, but traits of options can be asked directly.

## Limits

- Levels and sizes are decided for the Itanium ABI and libstdc++ 13 only.
- 8-byte representations are sampled (boundaries and neighbours of the reserved ranges always included).
- The switch OPTION_USE_LIBASSERT is compiled with a stub that has the interface of libassert (not installed here).
- P21 compares configurations against each other: a defect that is the same in all of them is left to P01-P20, P22-P26.
''')
open(H+'/DESIGN.md','w').write('\n'.join(o)+'\n')
