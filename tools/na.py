NA = {
 "C30": "Quantifies over the run-time dataflow of arbitrary input programs through a heuristic allocator: whether a chosen location still holds a value depends on interference facts no static abstraction of the allocator's source can bound. C03, C05, C09, C12, C15, C19-C21 and C27 decide the local obligations it rests on.",
 "C31": "Correctness of parallel-move sequentialisation is a statement about a permutation-graph algorithm over run-time lists of arbitrary length; it needs an inductive invariant over cycles that no dataflow or type-level analysis in reach expresses. C05 and C21 decide the parts that are per-move guards or typestate.",
 "C32": "Termination rests on a run-time measure (splits shrink ranges until minimal) over data-dependent work lists; no sound static ranking argument in reach.",
 "C33": "Liveness and dominators are least/greatest fixpoints over run-time graphs; equality with path-based definitions is an inductive statement over graphs that static analysis of the source cannot decide.",
 "C34": "Completeness of a heuristic search (an error only when nothing fits) quantifies over all allocations of an input; not decidable from the source.",
 "C35": "Disjointness of simultaneously live values depends on run-time live-range overlap across B-tree contents; no sound static argument in reach bounds it.",
 "C36": "Well-formedness of the linked ring after arbitrary operation sequences is a heap-shape invariant over run-time indices (needs separation-logic style induction), not a dataflow fact.",
 "C37": "Which location holds a labelled value at a point is a run-time liveness fact; the sortedness half is decided by C04.",
}
