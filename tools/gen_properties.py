#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SETVEC = ("inner interval list of a set", "sorted disjoint intervals, the canonical form", "src/wins/timeset.rs")
MATRIX = ("constraint matrix", "cell (i,j) is the lower bound of (date of j - date of i)", "src/graph/mod.rs, src/graph/storage.rs")
SCHED = ("slots", "one set of possible dates per instant", "src/graph/scheduler.rs")

p("C01", "Time sets are always in canonical form",
  "Every time set obtained through the public API (constructors, union, intersection, complement, negation, translation, scaling, truncation, collecting intervals or sets in any order, scheduler slots) is a chronologically sorted list of non-empty intervals, any two successive ones being separated by at least one missing tick. Consequently the reported number of convex parts is the minimum possible, and two sets holding the same instants compare equal and hash equally however they were built.",
  ["inputs", "histories"], "all operand values and all sequences of set operations whose results stay within the representable range (no overflow to infinity)",
  "The tests check the text of about eight fixed results; canonicity must survive arbitrary chains of operations and alignments (touching, nested, one-tick gaps, infinite bounds).",
  ["src/wins/timeset.rs", "src/iter/union.rs", "src/iter/intersect.rs", "src/ops/compl.rs", "src/ops/transl.rs", "src/ops/scaling.rs"],
  [("merge of overlapping/adjacent intervals", "src/iter/union.rs, src/wins/timeset.rs FromIterator"), ("re-join after rounding scale", "src/ops/scaling.rs check_joined_inners")], [SETVEC])

p("C02", "Union holds exactly the instants of either operand",
  "For any two time windows (a time point, any kind of range, an interval or a set, of durations or of dates, by value, by reference or in place) the union contains an instant if and only if at least one operand contains it. Collecting any sequence of intervals or of sets, in any order and including empty ones, gives exactly their union.",
  ["inputs"], "all pairs of windows, all sequences of intervals, all relative positions including touching and unbounded ones",
  "Four union tests with at most two intervals each; the merging automaton has six states whose transitions depend on the relative order of arbitrarily many intervals.",
  ["src/ops/union.rs", "src/iter/union.rs", "src/wins/timeset.rs"],
  [("two-way merge automaton", "src/iter/union.rs IterUnion"), ("interval | interval", "src/ops/union.rs")], [SETVEC])

p("C03", "Intersection holds exactly the shared instants",
  "For any two time windows (a time point, any kind of range, an interval or a set, by value, by reference or in place) the intersection contains an instant if and only if both operands contain it. When the operands share no instant the result is the empty window and reports itself as empty.",
  ["inputs"], "all pairs of windows, all relative positions including touching, nested and unbounded ones",
  "The intersection test is an empty function; one relation test uses it on three constants.",
  ["src/ops/intersect.rs", "src/iter/intersect.rs", "src/wins/timeset.rs"],
  [("two-way sweep automaton", "src/iter/intersect.rs IterIntersection"), ("bounds max/min", "src/ops/intersect.rs"), ("in-place truncation", "src/wins/timeset.rs truncate_*")], [SETVEC])

p("C04", "Complement and exclusion are exact",
  "The complement of any time window (time point, interval or set, by operator or lazily) contains a finite instant if and only if the window does not contain it, and complementing twice gives back exactly the finite instants of the original window. Excluding a window from another keeps exactly the instants of the first which are not in the second.",
  ["inputs"], "all windows and pairs of windows, bounded or not, empty or full",
  "The complement test is an empty function; the only use is on three constants.",
  ["src/ops/compl.rs", "src/iter/compl.rs", "src/iter/excl.rs"],
  [("gap enumeration", "src/iter/compl.rs IterComplementary, src/ops/compl.rs"), ("intersection with the complement", "src/iter/excl.rs")], [SETVEC])

p("C05", "Window queries describe exactly the instants held",
  "For every window (time point, each kind of range, interval or set) the answers to: is it empty, a singleton, bounded, low-bounded, up-bounded, everything, convex, how many convex parts, lower bound, upper bound, convex envelope and enumeration of its intervals are exactly those of the set of instants it denotes. An empty window, whatever its kind and however obtained, is empty, has no convex part, and is neither a singleton, nor bounded on any side, nor everything.",
  ["inputs"], "all windows of every kind, including empty, full and half-bounded ones (finite points; ranges with properly placed infinite ends)",
  "No test asks these queries; they must agree for every representation of a window, including the several ways an empty one can arise.",
  ["src/wins/mod.rs", "src/wins/timeinterval.rs", "src/wins/timeset.rs", "src/ops/range.rs", "src/wins/timevalue.rs", "src/wins/timestamp.rs"],
  [("bounds queries", "src/wins/mod.rs TimeBounds/TimeWindow and their impls"), ("empty encoding", "src/wins/timeinterval.rs empty()")], [SETVEC])

p("C06", "Truncation keeps exactly the instants on the kept side",
  "Truncating an interval or a set before (after) a finite instant removes exactly the instants strictly before (after) it and keeps all the others. It answers true if and only if the window changed.",
  ["inputs"], "all windows and all finite cut instants, including cuts on a bound, in a gap and outside the window",
  "No test truncates anything.",
  ["src/wins/timeinterval.rs", "src/wins/timeset.rs"],
  [("cut position search", "src/wins/timeset.rs TimeTruncation"), ("interval cut", "src/wins/timeinterval.rs TimeTruncation")], [SETVEC])

p("C07", "Containment and overlap agree with the instants held",
  "A window contains another one if and only if every instant of the second is an instant of the first (so every window contains the empty one), and two windows overlap if and only if they share at least one instant (so nothing overlaps the empty one). This holds for every supported mix of points, ranges, intervals and sets.",
  ["inputs"], "all pairs of windows of every kind",
  "One test asks four containment questions about one set; overlap is never tested.",
  ["src/relns/contain.rs", "src/relns/overlap.rs"],
  [("first interval ending after the lower bound", "src/relns/contain.rs, src/relns/overlap.rs")], [SETVEC])

p("C08", "Comparisons of windows follow chronological order",
  "Two windows are equal if and only if they hold the same instants, and equal windows of the same type hash equally. For non-empty windows, one is less than another if and only if all its instants precede all the instants of the other; less-or-equal, greater, greater-or-equal and the partial comparison are consistent with these two relations, windows that overlap without being equal being incomparable.",
  ["inputs"], "all pairs of windows (interval or set against point, range, interval or set)",
  "Only a few equality assertions between fixed values exist.",
  ["src/relns/ordering.rs", "src/wins/timeinterval.rs", "src/wins/timeset.rs"],
  [("bound comparison", "src/relns/ordering.rs")], [SETVEC])

p("C09", "Translation of windows is exact",
  "Adding a duration, an interval of durations or a set of durations to a point, an interval or a set (of durations or dates, by operator, in place or lazily) gives the smallest window that holds exactly every sum of one instant of each operand; subtracting gives every difference, and negating a window gives every opposite. The difference of two intervals of dates is the interval of every duration between them; an empty operand gives an empty result and no translation within the representable range panics.",
  ["inputs"], "all operands whose bounds and sums stay within the representable range, including singletons, half-bounded, unbounded and empty windows",
  "No test translates a window; the result depends on which gaps are closed by the translation.",
  ["src/ops/transl.rs", "src/iter/transl.rs", "src/wins/timeinterval.rs", "src/wins/timeset.rs"],
  [("bound-wise sums", "src/ops/transl.rs"), ("re-union of translated parts", "src/ops/transl.rs, src/iter/transl.rs")], [SETVEC])

p("C10", "Scaling of windows scales their bounds and keeps order",
  "Multiplying or dividing an interval or a set of durations by a non-zero number (any integer type or float, on either side for a product, by operator, in place or lazily) gives the canonical union of its parts with both bounds scaled as the corresponding durations are, swapped when the factor is negative; infinite bounds stay infinite. Empty windows stay empty, and multiplying a non-empty bounded window by integer zero gives exactly the zero duration.",
  ["inputs"], "all windows and all factors of every numeric type for which scaled finite bounds stay finite",
  "No test scales anything; rounding can close gaps, negative factors reverse order.",
  ["src/ops/scaling.rs", "src/iter/scaling.rs"],
  [("per-part scaling, reversal, re-join", "src/ops/scaling.rs"), ("lazy scaling", "src/iter/scaling.rs")], [SETVEC])

p("C11", "Duration arithmetic is exact or saturates to the right infinity",
  "Adding, subtracting, negating, summing, multiplying or dividing durations gives the exact result in ticks (truncated toward zero for divisions, within floating point accuracy for floats) when it is in the finite range, and the infinity of the right sign otherwise; infinite operands stay infinite with the right sign, and dates move by durations in the same way. A sum of opposite infinities or a division by an integer zero, which have no right value, are refused by a panic. The tick successor and predecessor move a finite value by one tick and leave infinities unchanged; order, equality and the finiteness and sign tests agree with the tick value.",
  ["inputs"], "all tick values including both infinities and the extreme finite values, all factors of every numeric type (factors are not NaN, floating point divisors not zero)",
  "The tests add a few small constants; overflow and sign boundaries are never reached.",
  ["src/wins/timevalue.rs", "src/wins/timestamp.rs", "src/ops/scaling.rs"],
  [("saturating add", "src/wins/timevalue.rs Add"), ("saturating scale", "src/ops/scaling.rs")])

p("C12", "Durations built from unit counts are exact or rightly infinite",
  "A duration built from a count of years, months, weeks, days, hours, minutes, seconds or ticks, from any integer type, is exactly that many ticks (a year being 146097/400 days and a month a twelfth of it); from milliseconds, microseconds or nanoseconds it is within one tick of it. Counts beyond the finite range give the infinity of the same sign, and a larger count never gives a smaller duration.",
  ["inputs"], "all counts of every integer type and every unit, positive and negative, including the extreme values",
  "One test compares about ten small positive constants.",
  ["src/wins/timevalue.rs", "src/wins/convert.rs"],
  [("from_* constructors", "src/wins/timevalue.rs"), ("saturating casts", "src/wins/convert.rs")])

p("C13", "Rounding to a period gives the nearest multiple on the right side",
  "For any positive finite period, the floor of a finite duration or date is the greatest multiple of the period not after it and the ceil is the least multiple not before it, whenever that multiple is in the finite range; infinite values are left unchanged. Truncating a duration to a unit (years, months, weeks, days, hours, minutes, seconds, milliseconds, microseconds, nanoseconds, ticks) gives the multiple of that unit nearest to it on the side of zero.",
  ["inputs"], "all durations and dates of both signs, all positive periods, all units",
  "Eleven fixed examples, few of them negative; the formulas change branch with sign and residue.",
  ["src/wins/timevalue.rs", "src/wins/timestamp.rs", "src/wins/convert.rs"],
  [("floor/ceil", "src/wins/timevalue.rs"), ("unit truncation", "src/wins/convert.rs")])

p("C14", "Conversions to and from standard and calendar time are faithful",
  "Converting a finite duration to a standard or a chrono duration, or a finite date to a calendar date and time, and reading its whole seconds with its millisecond, microsecond or nanosecond part, denotes the same amount of time to within two nanoseconds; converting back gives the same value to within four ticks. A standard, chrono or calendar value beyond the finite range converts to the infinity of the same sign and no conversion from them panics; conversions are monotone.",
  ["inputs"], "all finite durations and dates of both signs, and all standard/chrono durations and calendar dates, including far ones",
  "No test converts to or from standard or chrono types except for printing the current date.",
  ["src/wins/timevalue.rs", "src/wins/timestamp.rs"],
  [("From/Into conversions", "src/wins/timevalue.rs, src/wins/timestamp.rs"), ("sub-second extraction", "src/wins/timevalue.rs subsec_*")])

p("C15", "Text renderings denote the value they render",
  "The text of a finite duration is a sum of unit counts (years to nanoseconds, each count positive and smaller than the next larger unit displayed allows) that adds up to its value to within a nanosecond, with a minus sign if and only if negative; the debug text gives the exact number of ticks, and infinities are shown as such. A date rendered with a date format, whatever the format, is what the calendar gives for that date with that format; a format changes neither the text of a duration nor the one of an infinity. The text of a window lists its intervals in order with the texts of their bounds, shows a singleton as {x}, open sides as ]-oo and +oo[, and an empty window as {}, in every rendering.",
  ["inputs"], "all finite durations and dates, all windows, display, debug and formatted renderings",
  "About ten fixed strings are checked.",
  ["src/wins/format.rs"],
  [("unit decomposition", "src/wins/format.rs format_duration"), ("window rendering", "src/wins/format.rs")])

p("C16", "Lazy set iterators equal the operators and obey their contract",
  "Any composition of lazy union, intersection, complement, exclusion, translation and scaling over any windows, or over any iterator which obeys the contract (sorted intervals which do not overlap, though they may touch), yields sorted non-empty intervals, no two overlapping, whose set of instants is the one obtained with the corresponding operators. Every such iterator, at every step of its consumption, announces a size that brackets the number of intervals it still yields, and once finished stays finished.",
  ["inputs", "programs"], "all expressions of lazy operations over all windows, at all points of partial consumption",
  "Lazy iterators are only exercised through the operators on a few constants; their announced size and behaviour after the end are never observed.",
  ["src/iter/mod.rs", "src/iter/union.rs", "src/iter/intersect.rs", "src/iter/compl.rs", "src/iter/excl.rs", "src/iter/transl.rs", "src/iter/scaling.rs"],
  [("sorted-interval iterator contract", "src/iter/mod.rs TimeConvexIterator"), ("size hints", "src/iter/*.rs")])

p("C17", "The graph always holds the minimal network of its constraints",
  "After any history of accepted additions, batch additions, merges, growths and resets, the window the graph reports between any two of its instants is exactly the tightest one implied by all the constraints accepted so far (unbounded on a side where nothing is implied), in both directions, and exactly zero between an instant and itself. This includes constraints that bring in new instants together with already constrained ones.",
  ["histories", "inputs"], "all sequences of graph operations over any number of instants, with bounds small enough that sums of them stay finite",
  "One three-instant chain and one six-instant graph are built, and almost nothing of the propagated windows is compared.",
  ["src/graph/propagation.rs", "src/graph/storage.rs", "src/graph/constraints.rs"],
  [("incremental propagation in O(n2)", "src/graph/propagation.rs propagate, propagate_lower_bound"), ("global propagation in O(n3)", "src/graph/propagation.rs global_propagation")], [MATRIX])

p("C18", "Inconsistent constraints are always detected, and consistent ones never",
  "Adding one constraint fails if and only if no assignment of dates satisfies it together with all the constraints accepted so far; the failure then announces that the graph was recovered, and size and windows are exactly those before the call. A batch addition or a merge fails if and only if the whole is unsatisfiable; if it announces a fatal failure the graph is left empty and behaves from then on like a brand new graph.",
  ["histories", "inputs"], "all histories of graph operations, including constraints of an instant with itself, empty constraints, constraints on new instants, and use after a failure",
  "No test submits an inconsistent constraint.",
  ["src/graph/propagation.rs", "src/graph/storage.rs"],
  [("bound check before update", "src/graph/propagation.rs propagate"), ("positive diagonal detection", "src/graph/propagation.rs global_propagation")], [MATRIX])

p("C19", "Propagation reports say truthfully whether something changed",
  "When adding one constraint between existing instants succeeds, it reports unchanged if and only if the constraint was already implied, that is if no window of the graph changed, and propagated otherwise. Whatever is accepted (one constraint, a batch, a merge of another graph) reports unchanged if and only if neither the size nor any window of the graph changed; a restriction of a scheduler (window, removal, deadline, startline) reports unchanged if and only if no slot changed; and no accepted operation ever widens a window or a slot.",
  ["histories", "inputs"], "all histories of graph and scheduler operations",
  "Six return values are checked on one three-instant example.",
  ["src/graph/propagation.rs", "src/graph/scheduler.rs"],
  [("early exits", "src/graph/propagation.rs"), ("containment test", "src/graph/scheduler.rs retain")], [MATRIX, SCHED])

p("C20", "The result does not depend on how or in which order constraints come",
  "A given satisfiable set of constraints gives the same windows between all instants whether it is added one by one in any order, with either orientation of each constraint, in one batch, by collecting it into a graph, or by merging graphs built from any partition of it in any order; an unsatisfiable set is rejected at some point in each of these ways. Rebuilding a graph from the constraints it enumerates gives the same windows.",
  ["histories", "inputs"], "all constraint sets, all permutations, orientations, partitions and construction routes",
  "No test builds the same graph in two ways and compares.",
  ["src/graph/propagation.rs", "src/graph/constraints.rs"],
  [("incremental vs global propagation", "src/graph/propagation.rs"), ("merge by prefix matrix", "src/graph/propagation.rs merge")], [MATRIX])

p("C21", "Resizing, shrinking and resetting a graph keep exactly what they should",
  "Growing a graph adds unconstrained instants and changes no existing window; cutting it to a smaller size keeps exactly the windows between the remaining instants; growing again later gives fresh unconstrained instants. Shrinking to fit removes exactly the trailing instants that no constraint involves, resetting keeps the size and removes all constraints, and a window asked about an instant outside the graph is unbounded.",
  ["histories", "inputs"], "all histories mixing growth, cuts, shrinks, resets and constraints, all sizes",
  "One growth from three to six instants and one shrink, without looking at the result.",
  ["src/graph/storage.rs"],
  [("nested-square matrix layout", "src/graph/mod.rs, src/graph/storage.rs")], [MATRIX])

p("C22", "Enumerated constraints are exactly the graph's constraints",
  "Enumerating a graph gives every pair of distinct instants whose window is bounded on at least one side exactly once, with that window and no other pair; enumerating from (to) an instant gives exactly every other instant constrained with it, with the right orientation, and every enumeration can be fully collected and announces a size that brackets what it yields. Direct queries agree: a constraint exists between two instants if and only if their window is bounded on a side, and the order and distinctness answers are those implied by the window.",
  ["histories", "inputs"], "all graphs reachable by any history, all pairs of instants inside and outside the graph",
  "One enumeration is fed to a batch addition; its content is not checked and the other queries are never called.",
  ["src/graph/constraints.rs", "src/graph/storage.rs"],
  [("triangular sweep", "src/graph/constraints.rs TimeConstraintIter"), ("row sweep", "src/graph/constraints.rs TimeConstraintFromIter"), ("order query", "src/graph/storage.rs instant_cmp")], [MATRIX])

p("C23", "With convex windows, slots are exactly the possible dates",
  "After any history of convex restrictions (windows retained, deadlines, startlines), the slot of each instant is exactly the set of dates it takes in some assignment satisfying all the graph constraints and all the accepted restrictions. A restriction is rejected if and only if it leaves no such assignment, and a rejected restriction leaves every slot unchanged.",
  ["histories", "inputs"], "all graphs and all histories of convex restrictions",
  "One startline and one deadline are set and only their report is looked at, not the slots.",
  ["src/graph/scheduler.rs", "src/iter/transl.rs", "src/iter/intersect.rs"],
  [("slot propagation through the minimal network", "src/graph/scheduler.rs propagate_scheduling"), ("pre-check of deadlines", "src/graph/scheduler.rs set_deadline/set_startline")], [SCHED, MATRIX])

p("C24", "With disjunctive windows, no solution is lost and none is missing",
  "After any history of restrictions by arbitrary, possibly disjoint windows (retained or removed), every assignment satisfying the graph and all the accepted restrictions has each of its dates in the corresponding slot, every slot lies within the windows retained for its instant, and every date of a slot has a compatible date in every other slot. A restriction is rejected if and only if no assignment satisfies it together with the graph and the accepted restrictions, and a rejected restriction leaves every slot unchanged.",
  ["histories", "inputs"], "all graphs and all histories of restrictions by windows with holes",
  "No test restricts a slot by a window with holes.",
  ["src/graph/scheduler.rs", "src/ops/compl.rs", "src/iter/intersect.rs", "src/iter/transl.rs"],
  [("slot propagation", "src/graph/scheduler.rs propagate_scheduling"), ("removal as retaining the complement", "src/graph/scheduler.rs remove")], [SCHED, MATRIX])

p("C25", "Schedulers over one graph are independent and report true horizons",
  "A new scheduler has one all-dates slot per instant of its graph; restricting one scheduler never changes another one, a clone, or the graph they share. The latest beginning is the minimum of the slots' upper bounds, the earliest ending the maximum of their lower bounds; a successful deadline (startline) puts every slot before (after) it and fails exactly when some slot has no such date.",
  ["histories", "inputs"], "all histories interleaving operations on several schedulers and clones of one graph",
  "One scheduler is created in one test; horizons and sharing are never observed.",
  ["src/graph/scheduler.rs"],
  [("shared graph, owned slots", "src/graph/scheduler.rs TimeScheduler")], [SCHED])

p("C26", "No safe use of the library can corrupt memory or crash it unexpectedly",
  "Whatever sequence of safe calls is made, with any instant indices, sizes and values, the library never reads or writes outside its own data or otherwise triggers undefined behaviour: a request it cannot satisfy is answered by a result, a documented panic, or an allocation failure. In particular graph queries and updates with indices outside the graph, use after a failed operation, very large sizes and out-of-range scheduler indices never touch foreign memory.",
  ["histories", "inputs"], "all histories of safe calls, in checked and optimised builds",
  "The tests run a handful of in-range calls without any memory checker, while the matrix, the slots and the sets are accessed unchecked.",
  ["src/graph/storage.rs", "src/graph/propagation.rs", "src/graph/scheduler.rs", "src/wins/timeset.rs", "src/ops/scaling.rs"],
  [("unchecked accesses guarded by size", "src/graph/storage.rs lower/lower_mut, src/graph/scheduler.rs retain, src/wins/timeset.rs truncate_*")], [MATRIX, SCHED])

p("C27", "Periodic sequences step exactly by their period",
  "A forward (backward) sequence from a date yields that date, then dates each exactly one period later (earlier), up to the last one in the finite range, then stays finished; the aligned forward sequence starts at the first multiple of the period not before the date, and the aligned backward one at a multiple less than one period away. Skipping, jumping to the n-th, counting, taking the last and the announced size agree with stepping one by one, and the timestamp of a sequence is the date it has just yielded. A start whose date one period before (after, when going backward) falls out of the finite range is refused by a panic.",
  ["inputs", "programs"], "all start dates of both signs, all positive periods, all mixes of stepping and jumping",
  "No test uses a sequence.",
  ["src/seq/mod.rs", "src/seq/forward.rs", "src/seq/backward.rs"],
  [("last emitted date and step", "src/seq/forward.rs, src/seq/backward.rs")])

p("C28", "Serialisation round-trips every time value, date, interval and set",
  "With serialisation enabled, any duration, date, interval or set that is serialised to a text format, a value tree or a compact binary format and deserialised again gives an equal value that behaves identically, including infinities, empty windows and unbounded ones. Distinct values have distinct serialised forms.",
  ["inputs"], "all values of the four serialisable families",
  "No test serialises anything.",
  ["src/wins/timevalue.rs", "src/wins/timestamp.rs", "src/wins/timeinterval.rs", "src/wins/timeset.rs"],
  [("derived serde implementations", "src/wins/*.rs")])

p("C29", "Interval helpers give exactly the window they describe, never an invalid one",
  "The interval centered on a date with a margin holds exactly the instants at most that far from it; enlarging (shrinking, with a negative duration) an interval moves both bounds outward (inward) by that duration, stops at the infinities, and gives nothing if no instant is left; a slot lasts exactly the distance between its bounds, infinitely long if unbounded. An interval or set made from two bounds, after, before or at a time point holds exactly the instants between them, and is empty if there is none. No result is ever an invalid interval.",
  ["inputs"], "all intervals and durations, including empty ones, limits of the range and infinities",
  "No test enlarges, centers or measures an interval.",
  ["src/wins/timeinterval.rs", "src/wins/timeset.rs"],
  [("validity of bounds", "src/wins/timeinterval.rs centered, enlarge, new, duration")])

p("C30", "Texts of graphs and schedules tell all their constraints and slots",
  "The text of a graph tells its number of instants, then each pair of instants whose window is bounded on at least one side, once, with its window, and no other pair, then the number of those pairs; its debug text is the matrix of the lower bounds between all pairs; the text of a constraint tells its two instants in the right order and its window. The plain, debug and formatted texts of a schedule tell one line per instant, in order, with its slots, and the formatted text of an empty schedule says there is no instant.",
  ["histories"], "all graphs and schedules reachable by any history, including empty and big ones",
  "Tests never read a text of a graph, constraint or schedule.",
  ["src/graph/storage.rs", "src/graph/constraints.rs", "src/graph/scheduler.rs"],
  [("lines of the graph and of the schedule", "src/graph/storage.rs, src/graph/scheduler.rs fmt")], [MATRIX, SCHED])

p("C31", "The present and elapsed times are those of the system clock",
  "The present time lies between the readings of the system clock taken just before and just after, up to the tick resolution, and denotes that calendar date. The time elapsed since any date is the present time minus that date: positive for past dates, negative for future ones, saturating at the limits and infinite of the right sign for infinite dates.",
  ["schedules", "inputs"], "all dates, all moments at which the clock is read",
  "No test reads the clock.",
  ["src/wins/timestamp.rs", "src/wins/convert.rs"],
  [("clock reading", "src/wins/timestamp.rs now, elapsed")])

p("C32", "Constraints read the same in any form; equivalent ones say the same thing",
  "A constraint given as a pair of instants with any kind of window (point, range, interval), by a user-defined type or read from a graph tells its instants, bounds, emptiness and boundedness as its window does, and converts to exactly that window. Two constraints between distinct instants, at least one of which is satisfiable, are equivalent if and only if they relate the same two instants with the same window, or the opposite way round with the opposite window; equivalence is symmetric, and adding to a graph a constraint equivalent to one it tells changes nothing.",
  ["inputs"], "all pairs of constraints over the same or different instants, in all operand types and both orientations",
  "No test compares two constraints.",
  ["src/graph/mod.rs", "src/graph/constraints.rs"],
  [("orientation of bounds", "src/graph/mod.rs TimeConstraint::equiv")])

p("C33", "Lazy operations take from their sources only what they need",
  "A composition of lazy unions, intersections, complements, exclusions and translations by a duration takes nothing from its sources but on demand: to yield an interval, each operation takes from each of its operands only the intervals which begin no later than one tick after the end of that one, and at most two more; it never asks again a source which told it was finished, and asks nothing more once it is finished itself. So it works over endless sources: it yields each interval as soon as it is settled, and finishes as soon as nothing may follow, as when one operand of an intersection is finished or an union reaches an unbounded interval, even if another source is endless.",
  ["programs", "inputs"], "all compositions over finite and endless sources, all numbers of intervals taken",
  "No test uses an endless source or watches what an iterator consumes.",
  ["src/iter/union.rs", "src/iter/intersect.rs", "src/iter/compl.rs", "src/iter/excl.rs", "src/iter/transl.rs", "src/seq/forward.rs"],
  [("pending interval and state of each operand", "src/iter/union.rs IterUnion, src/iter/intersect.rs IterIntersection, src/iter/compl.rs IterComplementary")])

p("C34", "Operations keep within their stated costs in time and in memory",
  "For a graph of n instants, adding one constraint (accepted, entailed or refused, between known or new instants) takes a time of the order of n^2 at most, a batch of k constraints, a collection or a merge n^3 + k at most, a query about two instants a time which does not depend on n, reading the constraints of an instant n, reading or rendering all of them n^2, and all of this is done with memory of the order of n^2 bounds; schedulers share their graph, so that a new one or a clone takes time and memory of the order of n, and retaining a window takes n^2 as long as the slots are single intervals. Lazy union, intersection, complement, exclusion and translation by a duration, whose operands are iterators (of a borrowed set, for instance), intervals or sets given by value, allocate no memory at all, neither when they are built nor when they run, and their time is proportional to the number of intervals taken (an operand given as a reference to a set may be copied first). Union, intersection and complement of sets, collection of sorted intervals, negation, translation by a duration, comparison and truncation take time and memory of the order of the numbers of intervals.",
  ["inputs", "programs"], "all sizes of graphs and sets, all compositions",
  "No test is big enough to tell a cost, and none looks at memory; a result which is right but cubic where it should be quadratic passes all of them.",
  ["src/graph/propagation.rs", "src/graph/storage.rs", "src/graph/scheduler.rs", "src/iter/union.rs", "src/iter/intersect.rs", "src/iter/compl.rs", "src/iter/excl.rs", "src/iter/transl.rs", "src/ops/union.rs", "src/ops/intersect.rs", "src/wins/timeset.rs"],
  [("n^2 + n steps", "src/graph/propagation.rs propagate_lower_bound"), ("n^3 steps", "src/graph/propagation.rs global_propagation"), ("no intermediate structure", "README.md, src/lib.rs")])

p("C35", "Values may be shared by and moved to several threads",
  "Graphs, constraints, schedulers, sets, intervals, durations, dates, sequences and lazy iterators may be moved to another thread, and shared by several threads which query them, clone them, combine them or schedule on them at the same time: each thread gets the same answers as a single thread does, whatever the interleaving, what a thread does to its own clones and schedulers is not seen by the others, what is shared is not changed, and there is no data race.",
  ["schedules", "inputs", "programs"], "all interleavings of all queries by any number of threads",
  "All tests use a single thread.",
  ["src/graph/mod.rs", "src/graph/storage.rs", "src/graph/constraints.rs", "src/graph/scheduler.rs", "src/wins/timeset.rs", "src/iter/mod.rs", "src/seq/mod.rs"],
  [("no hidden state behind shared references", "all types: TimeGraph, TimeScheduler, TimeSet, TimeInterval")])

p("C36", "User-defined instants, windows and constraints are treated like the library's",
  "Any type which implements the public traits (TimePoint for instants, TimeBounds with TimeConvex or TimeWindow for windows, TimeConstraint for constraints, TimeConvexIterator for iterators) gets the answers which the library's own types get for the same instants: union, intersection, complement, exclusion, translation, truncation, containment, overlap, equality, order, conversions to intervals and sets, lazy compositions, texts, propagation in graphs, and restriction of schedulers. Only what the traits require has to be provided, the methods which they provide (is it a singleton, bounded, everything, convex, its number of parts, its envelope, its enumeration, the equivalence of constraints) following from it, and what an empty window tells of its bounds, which is undefined, is never relied upon.",
  ["programs", "inputs"], "all implementations of the public traits, and all windows and instants they denote",
  "No test defines a type which implements one of these traits.",
  ["src/lib.rs", "src/wins/mod.rs", "src/wins/timeinterval.rs", "src/wins/timeset.rs", "src/relns/contain.rs", "src/relns/overlap.rs", "src/relns/ordering.rs", "src/iter/mod.rs", "src/graph/mod.rs", "src/graph/scheduler.rs"],
  [("provided methods", "src/lib.rs TimePoint, src/wins/mod.rs TimeBounds, TimeWindow, TimeConvex, src/graph/mod.rs TimeConstraint"), ("generic operations", "src/ops, src/relns, src/iter")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
