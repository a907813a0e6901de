MISSED = set()
HEAD = '''
# Static verification of GridPACK

(Written by `python3 gp/design.py` from `gp/props_list.py`, the checks, `known_findings.json`, `seeded/` and `gp/design_notes.py`.)

## Machinery

* `tool/gpx.cpp` — clang 18 libtooling extractor. It runs over every translation unit of the real build (commands taken
  from ninja) plus `drivers/core.cpp`, which instantiates the header-only templates, and writes resolved syntax trees of all
  functions of the repository (types, overloads, callees, constants, macro-expanded literals).
* `gp/facts.py` — builds the tool, extracts, caches by content hash in `.cache` (never committed) and loads the fact base.
  Every check re-hashes /repo and re-extracts the units whose inputs changed. If a unit no longer parses the check fails with
  an error exit, it never passes on an old fact base.
* `gp/engine.py` — path-sensitive dataflow interpreter over terms, with inlining, merging on a client's facts, and
  conditions decided only syntactically. `gp/poly.py`, `gp/ratf.py` — exact polynomial and rational-function normal forms of
  arithmetic terms and symbolic derivatives. `gp/comp.py` — paths of component methods and their compatibility.
* `gp/check.py` — runner: findings, `known_findings.json`, evidence, coverage floors (a check whose instance count drops
  below the confirmed one gives an error exit, not a pass).
* `gp/props_list.py`, `gp/props.py` — source of `properties.jsonl` and `MANIFEST.json`.
* `known_findings.json` — open findings (printed as KNOWN-FINDING) and fixed ones (suppress nothing).
* `seeded/` — planted bugs; `seeded_common/` — tools used to write them (not read by any check).

Quick and thorough commands are the same: every analysis enumerates all constructs of its kind in the repository. A cold fact
base takes about one minute on 8 cores, each check 1 to 50 s.

No solver, no execution and no sampling decides anything: the deciding steps are path enumeration over the resolved syntax,
typestate, set comparison, and exact algebra on terms.

Not analysed (not part of the build here): python/, applications/rtpr, GOSS, HELICS and optimisation parts.
'''
NOTES = {
 'P01': ['Process-dependent conditions are found by taint from rank, size of local data, ghost/active flags and local iteration; a collective under such a condition is an alarm unless both branches perform the same collective sequence.',
         'False alarms removed: `Configuration::open` and `BusTable::readTable` broadcast in both arms of a rank test (matched as the same decision tree); the counter of `TaskManager::nextTask` is one-sided and exempt.'],
 'P03': ['False alarms removed: single objects handed to a smart pointer are owned by it, so only arrays and library handles are judged; buffers of serial_io are allocated and released by two loops over the same count, which are recognised as equal counting loops.'],
 'P04': ['Several-dimensional arrays and sections whose bounds are carried between loop rounds are counted but not decided. A network is taken to have at least one bus.'],
 'P10': ['Conventions taken from the code: the state estimation Voltage mode and DSBus DAE_init return without writing and count as "not supplied"; blocks are zero when asked for.'],
 'P11': ['Rules: T1/T2 types, G1 element type of the array, C1 amount against the size the buffer was given, C2/C3 another list or one element, C4 amount against the number of values written (counter or loop bound), S1 received characters taken as a string without an end.',
         'Refactorings tried: local copies of counts, `assign` for `resize` and a loop, `.data()` and `.size()`, one-element arrays. Amounts computed through unrelated variables stay undecided and are counted as such.'],
 'P14': ['Rules: A1 lists of one group (and the counters that bound loops over them) change by the same amount on every path, A2 every list is filled somewhere, A3 a method that appends does so to all lists of the group that are appended to together elsewhere.',
         'A count read from the data (number of generators) counts as the number of turns of the loop up to it, so a turn that is skipped is seen although all lists miss the entry together.',
         'False alarm removed: a bus of a composite load returns after emptying its lists and leaves its counters, which are zero, alone.',
         'Refactorings tried: free helper taking a list, early `continue`, swap with an empty list, `resize(0)`, `erase` of everything, `insert` at the end, `while` loops, `x += 1`, count taken from the size of a list.'],
 'P15': ['Offsets of published values are compared as intervals of the buffer; writes to published members are followed through calls to the next exchange in the calling module.'],
 'P23': ['Members of the same name in a class and its base are told apart by the declaring class; the first version did not, and missed three branch classes.',
         'False alarms removed: a value the data may not supply and that is then scaled is zero since construction; a counter reset before the loop that counts is not carried.'],
 'P26': ['Rules J6 and J7 compare the places of each device within the vectors (order, start, lengths) between residual, matrix and initial values; the third kind of finding is a term present in the residual of a variable but absent from its column.',
         'A member the residual leaves behind is substituted in the matrix: the matrix is evaluated after the residual at the same point, as the solvers do.',
         'Refactorings tried: free helper functions, a local array for the voltages, a ternary in place of two branches, admittances written out instead of complex division.'],
 'P24': ['Two runs are chained: the state the change leaves is the start of its reset, and what the reset leaves is compared with the start, by what it means (specified power, set point, control, status), not member by member, so further bookkeeping does not matter.',
  'Statuses before a contingency are enumerated; a generator contingency is also followed while reactive limits are enforced, and limits are cleared during one.',
  'Refactorings tried: helper functions, early continue, vector assignment in place of loops, iterators, one sum of three totals in place of three.',
  'The dynamic simulation has areas, totals, margins and resets of its own; they are followed the same way, and what a bus tells of its devices is compared with the devices that are in service.'],
 'P12': ['Nothing about the state is assumed: on each path the decisions taken (this line exceeds that rating, this bus is ignored) are kept, and a verdict that other decisions would be needed for is an error too, so a check that ends early, skips a line or looks at another line is found without a test case.',
  'Comparisons may be written either way round, negated, as a difference against zero or in a helper; refactorings tried: helper functions for the rating and for the list entry, ranges, counting, early continue.'],
 'P06': ['Statuses are given as constants and all other data as symbols, so every combination of up to three generators and two loads is followed exactly; a result that mentions the symbol of a device out of service is an error even where the sum happens to agree.',
  'Lists (vectors) with known contents are followed element by element, also through iterators, std::find, std::count, std::accumulate, assignment and helpers that take them by reference, so that sums may be written in any of these ways.',
  'Models of generators are opaque: the check follows which of them are called (initialise, predict, correct, evaluate), how often, and adds their admittance and current as symbols.',
  'The power reported for the generators of a bus (shares of the reactive power) is not judged, nor the composite and dynamic load models.'],
 'P30': ['The rule on presence follows, per kind of element, whether its status is asked before it contributes.',
         'Members that an application class declares again under the name of a base member (status, shunts, reactances) are kept apart, which is where most of the defects were: one copy was updated, the other read.',
         'A reversed transformer is not modelled by the flow measurements of the state estimation: recorded as a known finding, since the repair touches ten formulas and their derivatives.',
         'Left out: the update factors for faults and relay trips that are marked as provisional in the code.'],
 'P34': ['Identifying keys (bus numbers, number of elements, area number, system base) are taken as present; `rval == 0.0` fallback chains are recognised as defaults.'],
}
TAIL = '''
## Suspected defects outside the claimed properties

Noted while reading and left alone because no check of this family decides them here: `BaseBranchComponent::serialize` does not
carry the global index; `PetscMatrixWrapper`'s wrapping constructor ignores its ownership flag; `Shuffler` ignores MPI error codes.
'''
