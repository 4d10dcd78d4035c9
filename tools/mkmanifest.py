#!/usr/bin/env python3
"""Writes MANIFEST.json from the tables below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
LINT = "SSA dataflow lint"
DAI = "abstract interpretation of the SSA form"
CHECKS = {  # id: (technique, level note)
 "C09": ("access analysis of package-level state over SSA (must be atomic or locked)", "Every access to package-level memory outside initialisation is found by following addresses through the SSA form; sound for direct, field, element and pointer accesses. Trusts sync and sync/atomic."),
 "C25": ("memory-layout analysis of every unsafe.Pointer conversion over SSA", "Every conversion is checked for size and word-kind prefix compatibility. Trusts go/types' sizes and the Go runtime's header layouts."),
 "C12": (DAI, "Symbolic drivers over arrays of arbitrary length and content and arbitrary integer indexes; the postcondition (length, and every element by position) is discharged in a linear-arithmetic and finite-set domain on every path, with loop fixpoints. Any path not discharged is reported."),
 "C13": (DAI, "Symbolic drivers store uninitialised values through every entry point in arbitrary containers; each must be refused with the error or stored as null. Any path not discharged is reported."),
 "C16": (DAI, "Product comparison: each typed variant and the general operation it abbreviates are run on two symbolic copies of one arbitrary value with the same arguments; results, errors and final trees must be equal on every path. Paths of one to three steps."),
 "C17": (DAI, "Each typed getter is compared with Get followed by the accessor on an arbitrary value, and its error with the documented condition, on every abstract path. Number texts up to a fixed number of characters are spelled symbolically."),
 "C19": (DAI, "Each number constructor is followed by every accessor and predicate over its whole argument range (integers with wrap-around, floats as uninterpreted values with their integrality)."),
 "C20": (DAI, "Option constructors are merged in sequences of two, in both orders, into arbitrary settings; the resulting settings are compared field by field (tables of functions derived from them are C06's). A call's combination with arbitrary defaults is compared with merging in order."),
}
CHECKS["C02"] = ("path-sensitive must-handle analysis of every error result over SSA, and " + DAI, "Every error-returning call reachable from the parsing entry points must lead, on each path where the error may be non-nil, to a non-nil error result. Literals, trailing data and faulty members are decided by drivers over symbolic texts of bounded length around the fault (the rest of the text fixed), so a fault whose handling depends on a far offset is covered by the dataflow part only.")
CHECKS["C01"] = (DAI + " with contracts for recursive functions inferred as a greatest fixpoint", "Every operation of the library which may panic (indexing, slicing, dereference, division, allocation, assertion, store to a map) is an obligation on every abstract path from each parsing entry point and each number or boolean getter, over texts of any length; recursive and large functions are analysed once for all arguments satisfying their inferred precondition. The contents of the text are forgotten, lengths and offsets are not. Recursion must be bounded by a parameter. Assumes texts shorter than 1 GiB, and statistics words changed by the library alone; termination is not covered. Trusts the models of strconv, strings, bytes and decimal not to panic.")
CHECKS["C14"] = (DAI, "Histories of up to four operations (set, delete, case-insensitive delete, case-insensitive lookup) with arbitrary keys on an empty object, followed by a lookup or a delete with an arbitrary key, also within a nested object and through the operations which create members on the way; maps are iterated in every order, and which keys are equal, exactly or after folding, is decided by case distinctions. Folding is an uninterpreted function of the key. Longer histories and objects of more than four members are not covered; the code treats members uniformly. The index of parsed, imported or replaced objects is not followed.")
CHECKS["C03"] = (DAI, "Each escape form is parsed with all of its digits symbolic (all code points, all surrogate pairs by either half, both halves over decimal digits), each invalid digit position, truncation and misordering, and characters of one to four bytes before and after escapes; the decoded bytes are compared with the definition of UTF-8 bit field by bit field. The texts around the sequence are short and fixed.")
CHECKS["C22"] = (DAI, "Every iteration function is run on an arbitrary object or array with an observing callback that stops at an arbitrary call; number, order, identity and coverage of the visits hold as loop invariants, through map iteration order and sorting as unknown permutations. The deprecated channel forms are not covered.")
CHECKS["C11"] = (DAI, "Every modifying operation, at paths of one to three steps (with the steps' kinds and values arbitrary), is run on an arbitrary tree in which nothing is assumed about the members; whenever the result is an error every heap cell of the original tree must be provably as before. Longer paths take the same recursive code and are not separately analysed.")
CHECKS["C18"] = (DAI, "Numbers are compared by symbolic texts whose decimal values are an arbitrary total order; the recursive comparison of members is an uninterpreted equivalence (induction step). Equality of objects and arrays is characterised in both directions over arbitrary sizes. Trusts shopspring/decimal.")
CHECKS["C07"] = (DAI, "Marshaling of an arbitrary non-finite number under symbolic settings: the written text is tracked as a term through the real buffer and compared with the documented replacement. The escaping of replacement strings is an uninterpreted function of the text (C06 looks inside).")
CHECKS["C24"] = ("path-sensitive must-handle analysis of every error result over SSA, and " + DAI, "Every error-returning call reachable from Import must lead to a non-nil error result. An arbitrary Go value of each container kind is imported with the conversions of its parts as unknown functions (induction step): an error of any part must surface, and every element, entry and readable field must be converted and stored. Trusts the modelled semantics of package reflect; what a scalar is converted to is not covered.")
CHECKS["C10"] = ("interprocedural nil-ness dataflow over SSA (greatest fixpoint), with " + DAI + " for what it leaves open", "Every exported function with a result of type *V or a setter, inserter or appender. Assumes that members of trees are initialised (C13) and, for setters used directly, paths of one to three steps. Importing is decided by induction over the parts of the Go value.")
CHECKS["C05"] = ("path-sensitive must-handle analysis of every error result over SSA, and " + DAI, "Everything written to the buffer while one arbitrary object or array is marshaled is told to an observing automaton, for every kind of key order, with and without indentation (by blanks) and null omission; what is written for members is an unknown text or an error (induction step). That each member is written exactly once holds as a loop invariant through map order and sorting. Scalars are followed through the real buffer; the escaping of texts is an uninterpreted function (C06).")
CHECKS["C23"] = (DAI, "Sorting is an unknown permutation, justified by checking that Swap exchanges exactly two elements in every slice it changes (trusts sort.Sort to use indices in range, whatever the comparison answers); comparisons are analysed at two arbitrary positions at an arbitrary moment of the sort. That each member is written once with its own value is a loop invariant over an arbitrary object, for each kind of order and null omission.")
CHECKS["C15"] = (DAI, "Two arbitrary keys of an arbitrary object with known sequence numbers are followed through iteration and marshaling by set sequence (the order is a fact about the sorted positions), and the numbers and the counter through setting, appending, deleting, parsing (induction step over the parsed text) and copying (import). Sequence numbers are bounded by the 32-bit counter, whose overflow is assumed away. Needs that the analysis follows the library's own comparison; orders by a caller's function are C23.")
CHECKS["C21"] = (DAI, "An arbitrary value of each type is imported with the copy of a member as an unknown function (induction step); type, text, number, keys, order of elements and members of the copy are compared with the original's, and one arbitrary change of either side must leave every cell of the other as it was. Values inside Go slices are followed for a slice of two. The sequence numbers of keys are C15's; copies of no-copy parsed texts share the caller's bytes, as documented.")
CHECKS["C04"] = ("interprocedural forward alias (points-to) analysis over SSA from the caller's texts", "Flow-insensitive and context-insensitive: every value which may refer to the memory of a []byte parameter of an exported function (other than the no-copy ones), of a parsed string, or of what a caller's marshaler returned is followed through locals, conversions (unsafe ones included), closures and calls; any store to it, keeping of it, or call which cannot be followed is a violation. Functions of bytes, strings, strconv, fmt and base64 are trusted to only read their arguments.")
CHECKS["C08"] = ("effect analysis: " + DAI, "Every reading operation is followed on an arbitrary value; a store, map update, delete, in-place append or sort whose target is not memory made during the operation is a violation, whatever is stored (also in goroutines started by it). Recursion over members is by induction, paths have one to three steps, the deprecated channel iterators included. Export is covered up to encoding/json.")
CHECKS["C06"] = (DAI, "A text of one arbitrary character between two plain ones is marshaled, as a value and as a key, under each of the eight combinations of the escaping options; what stands for the character (below 0x80, in the basic plane, beyond it) is decoded and compared with it. Texts of more characters are escaped character by character in a loop which carries nothing from one to the next.")
NA = {
 "C26": "Equality of run-time values of unbounded size through a writer and a reader; no sound static argument in reach bounds it. The structural parts are claimed as C02, C03, C05, C06 and C07.",
 "C27": "Acceptance of exactly one grammar over unbounded texts; the parser is deliberately lenient (for example about commas in arrays), so the property does not even hold as stated. The clauses that do hold are claimed as C02 and C03.",
 "C28": "Numerical results of strconv and decimal over all texts.",
 "C29": "Agreement with another implementation over all user-defined types, chosen by reflection at run time; error propagation is claimed as C24.",
 "C30": "Quantifies over the run-time contents of two trees and all alignments of arrays.",
}
import sys
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", technique=t, level="other", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Not claimed yet: the analysis for it is not built.")))
json.dump(dict(version=1, setup_cmd="./check.sh build", checks=checks, not_applicable=na), open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
