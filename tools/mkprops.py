#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code only to keep the JSON readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})


prop("C01", "Packed value types return exactly the components they were built from",
     "For every in-range combination of components, a packed public value (physical register, virtual register, spill slot, operand, allocation, program point) reports through its accessors exactly the register number, class, index, kind, position and constraint it was constructed with, distinct components give distinct values, and raw-bits or index conversions round-trip. "
     "Each convenience operand constructor builds the constraint, kind and position that its documentation names.",
     ["inputs"], "all register numbers, classes, constraints (with their payloads), kinds, positions, slot and instruction indices in the documented ranges",
     "A few literal round trips are sampled by unit tests; the space is 2^50 operands and every client-visible result passes through these encodings.",
     ["src/lib.rs", "src/index.rs"],
     [("Operand::new / accessors", "src/lib.rs Operand"), ("PReg, VReg, SpillSlot, Allocation, ProgPoint new/accessors", "src/lib.rs")])

prop("C02", "Program-point and live-interval comparisons are exact",
     "Program points order first by instruction and then before-before-after, and stepping to the next or previous point is exact and invertible; half-open intervals report containment, overlap, emptiness and joining exactly according to their endpoints. "
     "Interval keys used for lookup compare equal exactly when the intervals overlap, and the composite sort keys for edits, moves and blockparams order lexicographically by their components.",
     ["inputs"], "all pairs of points, intervals and key components, in all of their relative orders",
     "Tests compare a handful of concrete points; the allocator relies on all orderings, including touching and nested intervals.",
     ["src/lib.rs", "src/ion/data_structures.rs"],
     [("CodeRange predicates", "src/ion/data_structures.rs CodeRange"), ("LiveRangeKey ordering", "src/ion/data_structures.rs"), ("ProgPoint", "src/lib.rs"), ("packed sort keys", "src/ion/data_structures.rs")])

prop("C03", "Combining location requirements is the exact intersection or a conflict",
     "When the backtracking allocator combines the requirements of two uses, the result accepts exactly the locations both accept (any location, any register, a limited register range, one fixed register, the stack, one fixed stack location), and it reports a conflict precisely when no single requirement expresses a common location. "
     "Each operand constraint is translated to the requirement that accepts exactly the locations the constraint allows, with fixed registers that denote stack locations treated as stack.",
     ["inputs", "programs"], "all pairs of requirements with arbitrary registers and limits, and all operand constraints",
     "Fuzzing samples constraint mixes and only sees a wrong merge when it survives to a wrong location; nothing enumerates the pairs.",
     ["src/ion/requirement.rs"], [("Requirement::merge", "src/ion/requirement.rs"), ("requirement_from_operand", "src/ion/requirement.rs")])

prop("C04", "Published edits and debug locations are sorted as documented",
     "On every successful return of either allocator, the edit list is ordered by program point with moves at one point kept in emission order, and the debug-location list is ordered by label and then by program point. "
     "Nothing is appended to either list after it was put in order.",
     ["programs", "inputs"], "all functions, both algorithms, all paths to a successful return",
     "Client code binary-searches and merges these lists; tests look at single small outputs.",
     ["src/ion/moves.rs", "src/ion/mod.rs", "src/ion/data_structures.rs", "src/fastalloc/mod.rs"],
     [("Edits::sort / drain_edits", "src/ion/data_structures.rs"), ("debug_locations sort", "src/ion/moves.rs"), ("edits.reverse and build_debug_info", "src/fastalloc/mod.rs")])

prop("C05", "No emitted move copies stack directly to stack",
     "Neither allocator ever emits a move whose source and destination are both in memory, where memory includes spill slots and physical registers the environment declares as fixed stack locations; such copies are split through a scratch register.",
     ["programs", "inputs", "configurations"], "all moves in all outputs, for all machine environments including ones with fixed stack registers",
     "Back ends cannot encode such moves; the checker accepts them as plain copies and fuzzing has no assertion on it.",
     ["src/moves.rs", "src/ion/moves.rs", "src/fastalloc/mod.rs"],
     [("MoveAndScratchResolver::compute", "src/moves.rs"), ("is_stack_alloc closure", "src/ion/moves.rs"), ("Edits::add_move", "src/fastalloc/mod.rs")])

prop("C06", "A reused allocation context carries nothing from one run to the next",
     "Running the backtracking allocator with a context that was used before gives the same result as with a fresh context: every piece of per-run state kept in the context or its output is reset or overwritten before the new run reads it.",
     ["histories", "programs"], "all sequences of functions allocated with one context, including runs that ended in an error",
     "Tests reuse a context for few well-behaved functions; stale state shows only for particular pairs of functions.",
     ["src/ion/mod.rs", "src/ion/data_structures.rs", "src/cfg.rs", "src/lib.rs"],
     [("Env::new resets", "src/ion/mod.rs"), ("CFGInfo::init", "src/cfg.rs"), ("VecExt::cleared / repopulate / preallocate", "src/ion/data_structures.rs, src/lib.rs")],
     state=[("Ctx", "every buffer that survives a run", "src/ion/data_structures.rs")])

prop("C07", "Allocation is a deterministic function of its inputs",
     "The result of allocation depends only on the function, the machine environment and the options: it does not depend on memory addresses, time, environment, randomness, global mutable state, threads, or on hash tables that are randomly seeded or iterated in an order left over from an earlier run.",
     ["inputs", "histories", "configurations"], "all inputs and repeated runs in the same or different processes",
     "Comparing two runs in one process shows nothing about addresses or hash seeds of another.",
     ["src/ion", "src/fastalloc", "src/cfg.rs", "src/lib.rs"],
     [("FxHashMap/FxHashSet with a fixed hasher, no iteration of unordered tables into results", "src/ion/data_structures.rs, src/ion/process.rs")])

prop("C09", "The checker enforces every operand constraint and value flow rule",
     "For each operand and allocation, the checker's constraint test accepts exactly the allocations that satisfy the constraint (any, register, stack including fixed stack registers, fixed register, reuse of the input's location, limited register number), and rejects a use whose location does not hold the used value on every path. "
     "Checking covers every operand of every instruction in every reachable block. Its dataflow gives a move's destination exactly the source's values, makes a definition its location's only value and stale elsewhere, forgets clobbered registers, renames block arguments on edges, keeps at a merge only what every predecessor provides, and iterates until nothing changes.",
     ["programs", "inputs"], "all operands, allocations and machine environments, all abstract states",
     "The checker is the oracle of all fuzzing; fuzzing only runs it on correct outputs, so an accepting checker passes every test.",
     ["src/checker.rs"], [("CheckerState::check_constraint", "src/checker.rs"), ("CheckerState::check", "src/checker.rs"), ("Checker::find_errors", "src/checker.rs")])

prop("C10", "Malformed control flow or SSA input is rejected with an error",
     "With validation requested, a function that breaks an input rule is refused with an error on every path: critical edges, operands on a branch where they are forbidden, entry block parameters, empty blocks, missing or misplaced terminators, block parameter counts that do not match, values numbered out of range, multiple definitions, and operands that use a value which is not defined earlier in the block or in a dominating one. "
     "Critical edges, forbidden branch operands and empty blocks are refused by the backtracking allocator even without validation. "
     "The validators refuse nothing else: each error they return names a block, instruction, edge or value that breaks the rule.",
     ["programs", "inputs"], "all functions, every block, edge, instruction and operand of them",
     "Every test feeds valid functions; the rejections are never exercised, least of all in their boundary cases.",
     ["src/ssa.rs", "src/cfg.rs", "src/lib.rs"], [("validate_ssa", "src/ssa.rs"), ("CFGInfo::init", "src/cfg.rs"), ("run entry points", "src/lib.rs, src/ion/mod.rs, src/fastalloc/mod.rs")])

prop("C11", "Failures inside allocation always surface to the caller",
     "Whenever any stage of allocation, validation or checking produces an error, the public entry point returns an error; no stage's failure is discarded, turned into success, or replaced by partial output.",
     ["programs", "fault_sequences"], "every call of a fallible stage on every path, both algorithms",
     "The error paths are not reached by the tests.",
     ["src/lib.rs", "src/ion", "src/fastalloc", "src/cfg.rs", "src/checker.rs", "regalloc2-tool/src/main.rs"],
     [("Result propagation", "all callers of fallible functions"), ("CheckerErrors collection", "src/checker.rs")])

prop("C12", "Spill slots are aligned, disjoint and inside the reported frame",
     "Every spill slot handed out by either allocator is aligned to its size, shares no slot unit with an earlier slot, lies inside the reported frame size, and is named by its first or last unit as the client requests.",
     ["programs", "inputs", "histories"], "all sequences of slot sizes and both naming conventions",
     "Sizes above one and the named-by-last-slot mode are rarely exercised by tests.",
     ["src/ion/spill.rs", "src/fastalloc/mod.rs"], [("Env::allocate_spillslot", "src/ion/spill.rs"), ("Stack::allocstack", "src/fastalloc/mod.rs")],
     state=[("num_spillslots", "frame size so far", "Output, fastalloc Stack")])

prop("C13", "A serialized function reproduces every answer of the original",
     "A function captured for serialization answers every query of the function interface (control flow, parameters, operands, clobbers, branch/return flags, slot sizes, options, labels) exactly as the original did (an instruction that is both a return and a branch counts as a return; a block's successor arguments are those of its last instruction).",
     ["programs", "inputs"], "all functions and all queries with valid arguments",
     "Only one test round-trips, when the optional feature is on; a query with a default answer is silently lost.",
     ["src/serialize.rs"], [("SerializableFunction::new", "src/serialize.rs"), ("impl Function for SerializableFunction", "src/serialize.rs")])

prop("C15", "Operands naming a non-allocatable register keep exactly that register",
     "An operand that names a non-allocatable physical register is always given exactly that register in the output, and neither allocator nor validation nor checker treats its placeholder virtual register as a value: it creates no liveness, no move, no definition and no error. The constructor of such operands and the test for them agree for every register.",
     ["programs", "inputs"], "all functions with such operands in any position of any instruction",
     "The fuzz generators seldom produce such operands.",
     ["src/lib.rs", "src/ion/liveranges.rs", "src/fastalloc/mod.rs", "src/checker.rs", "src/ssa.rs"],
     [("as_fixed_nonallocatable guards", "each operand loop")])

prop("C16", "Entry points run the requested algorithm with the requested validation",
     "The public entry points validate when asked to and run exactly the algorithm selected in the options, returning that algorithm's output or error unchanged.",
     ["configurations"], "all option combinations and both public entry points",
     "Tests call the internals directly with fixed options.",
     ["src/lib.rs", "src/ion/mod.rs", "src/fastalloc/mod.rs"], [("run, run_with_ctx", "src/lib.rs")])

prop("C19", "Clobbered registers never hold a value across the clobbering instruction",
     "Each register an instruction clobbers is reserved by the backtracking allocator across the end of that instruction, is forgotten by the redundant-move remover and by the checker at that instruction, and is neither given by the single-pass allocator to a late operand of that instruction (other than one fixed to that register) nor left holding a value across the instruction: such a value is moved to its spill slot and reloaded from there afterwards.",
     ["programs", "inputs"], "all instructions with clobbers, all clobber sets",
     "Wrong handling shows only when a value happens to be live in exactly that register across the instruction.",
     ["src/ion/liveranges.rs", "src/ion/moves.rs", "src/ion/redundant_moves.rs", "src/fastalloc/mod.rs", "src/checker.rs"],
     [("clobber ranges", "src/ion/liveranges.rs"), ("redundant-move side effects", "src/ion/moves.rs"), ("clobber eviction", "src/fastalloc/mod.rs"), ("Checker clobbers", "src/checker.rs")])

prop("C20", "A move is dropped as redundant only while both sides provably agree",
     "The redundant-move remover elides a move only if the destination is known to still hold the copied value: any write to either location, a clobber or definition there, or a block boundary in between makes the move be kept, and elision or recording never changes the allocations of operands.",
     ["programs", "histories"], "all sequences of moves, definitions and clobbers in a block",
     "A wrongly dropped move needs a particular interleaving of copies and overwrites.",
     ["src/ion/redundant_moves.rs", "src/ion/moves.rs"],
     [("RedundantMoveEliminator::process_move / clear_alloc", "src/ion/redundant_moves.rs"), ("redundant_move_process_side_effects", "src/ion/moves.rs")])

prop("C21", "The scratch register used to split moves is saved and restored",
     "When splitting memory-to-memory moves borrows a register that may be in use, its original value is saved before it is first overwritten, is back in place before any move reads that register, and is restored at the end unless the sequence itself overwrites the register.",
     ["inputs", "histories"], "all move sequences, with and without a free register",
     "Needs a specific order of memory copies and uses of the borrowed register.",
     ["src/moves.rs"], [("MoveAndScratchResolver::compute", "src/moves.rs")],
     state=[("scratch_dirty / save_dirty", "which of register and save slot holds the original value", "src/moves.rs compute")])

prop("C22", "Register sets and index sets implement exact set algebra",
     "For the public register set and index set, add, remove, membership, union, intersection, inversion, emptiness per class and iteration agree with mathematical sets for every element and every combination of contents; union reports a change exactly when the set grew.",
     ["inputs", "histories"], "all sets and elements across word boundaries and both representations",
     "Unit tests touch a few elements.",
     ["src/lib.rs", "src/indexset.rs"], [("PRegSet", "src/lib.rs"), ("IndexSet", "src/indexset.rs")])

prop("C25", "Logging and annotations do not influence allocation results",
     "Enabling verbose logging or trace output never changes the produced allocations, edits, slots or errors: code that runs only for logging has no effect on allocator state.",
     ["configurations", "programs"], "all log configurations and all functions",
     "Tests never compare outputs across log configurations.",
     ["src/lib.rs", "src/ion", "src/fastalloc"], [("trace! / trace_enabled! guards", "everywhere"), ("annotations", "src/ion/dump.rs")])

prop("C27", "Per-instruction results are stored and returned for the right operand",
     "Both allocators lay out one allocation slot per operand in instruction order, write each allocation at its own instruction's offset plus operand index, and the output accessor returns for each instruction exactly its own slots; block iteration yields each instruction once, in order, with each edit at its program point before anything later.",
     ["programs", "inputs"], "all functions, instructions with any number of operands including zero, all edit positions",
     "Mixed-up offsets need particular operand counts, and the last instruction is a special case.",
     ["src/lib.rs", "src/ion/moves.rs", "src/ion/liveranges.rs", "src/fastalloc/mod.rs"],
     [("Output::inst_allocs", "src/lib.rs"), ("OutputIter", "src/lib.rs"), ("set_alloc / inst_alloc_offsets", "src/ion, src/fastalloc")])

prop("C38", "The single-pass allocator moves a value whenever its recorded place changes",
     "In the single-pass allocator, wherever the place in which the code after a point expects a value differs from the place it is in before, moves carry it over: a used value is moved to its operand's location before the instruction; a defined value is moved after the instruction from its operand's location to the place recorded for it and to its spill slot if it has one; a value evicted from a register gets its spill slot as its place and is moved from there back into the register after the instruction; at a block's start live values and parameters are moved from their spill slots (filled first from a fixed register in which the predecessor's branch defines them) to where the block expects them; at a branch each block argument goes from its spill slot to the parameter's, and moves executed one after the other never overwrite what a later one reads through a wrong direction, point or order of emission.",
     ["programs", "histories"], "all instructions, operands, blocks and branches",
     "A missing or reversed move shows only if the value's place and the operand's location differ in just that case and the value is read afterwards.",
     ["src/fastalloc/mod.rs"],
     [("process_operand_allocation, alloc_def_op, alloc_inst", "src/fastalloc/mod.rs"), ("evict_vreg_in_preg, add_move, alloc_scratch_reg", "src/fastalloc/mod.rs"), ("reload_at_begin, move_if_def_pred_branch", "src/fastalloc/mod.rs"), ("process_branch", "src/fastalloc/mod.rs")])

# ---- declined
NA = [
 ("C30", "Every value reaches every use in its assigned location",
  "On every execution path of the allocated function each use reads, from the location assigned to it, the value its virtual register held in the original function.",
  ["programs"], "Fuzzing with the checker samples small random functions.",
  ["src/ion", "src/fastalloc", "src/checker.rs"], [("whole pipeline", "src/ion, src/fastalloc")]),
 ("C31", "Parallel moves are sequentialised without losing a value",
  "For every set of parallel moves with distinct destinations the emitted sequence leaves each destination with the initial value of its source.",
  ["inputs"], "The fuzz target samples move sets of up to thirty locations.", ["src/moves.rs"], [("ParallelMoves::resolve", "src/moves.rs")]),
 ("C32", "Allocation terminates and splitting never loses a use",
  "For every valid input allocation terminates, and each split of a bundle partitions its ranges and uses.", ["programs"],
  "Termination and partition depend on run-time ranges and priorities.", ["src/ion/process.rs"], [("split_and_requeue_bundle, minimal bundles", "src/ion/process.rs")]),
 ("C33", "Liveness and dominators equal their path-based definitions",
  "Live-in and live-out sets and the dominator tree coincide with their definitions over all control-flow paths.", ["programs"],
  "The domtree fuzz target samples graphs of some tens of blocks.", ["src/ion/liveranges.rs", "src/domtree.rs", "src/postorder.rs"], [("compute_liveness, domtree::calculate", "src/ion/liveranges.rs, src/domtree.rs")]),
 ("C34", "An error is returned only for inputs that cannot be allocated",
  "Allocation fails with the too-many-live-registers error only when an instruction's simultaneous constraints cannot be met.", ["programs"],
  "Needs the exact feasibility of the constraint system.", ["src/ion/process.rs", "src/fastalloc/mod.rs"], [("TooManyLiveRegs decisions", "src/ion/process.rs, src/fastalloc/mod.rs")]),
 ("C35", "Simultaneously live values never share a register or slot",
  "Two different values that are live at the same program point are never assigned the same register or overlapping spill slots.", ["programs", "histories"],
  "The checker sees a clash only if the fuzzed program later reads the overwritten value.", ["src/ion/process.rs", "src/ion/spill.rs", "src/fastalloc/mod.rs"], [("per-register allocation trees, spill-slot probing, availability sets", "src/ion, src/fastalloc")]),
 ("C36", "The single-pass allocator's recency list stays a well-formed ring",
  "Any sequence of pokes, removals and insertions leaves the recency list a single cycle of exactly the inserted registers, ordered by recency.", ["histories"],
  "Unit tests run a few sequences.", ["src/fastalloc/lru.rs", "src/fastalloc/vregset.rs"], [("Lru, VRegSet", "src/fastalloc/lru.rs, src/fastalloc/vregset.rs")]),
 ("C37", "Debug locations name a location holding the labelled value",
  "Each reported debug location covers only points in its label's requested range and names a location that holds the labelled value there.", ["programs"],
  "Tests check two small functions.", ["src/ion/moves.rs", "src/fastalloc/mod.rs"], [("debug location construction", "src/ion/moves.rs, src/fastalloc/mod.rs")]),
]
for id, t, s, over, why, files, mech in NA:
    prop(id, t, s, over, "all inputs in the stated class", why, files, mech)

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
