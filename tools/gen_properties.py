#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json
DD = "differential-dataflow/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("L01", "Timestamps form lattices consistent with their partial order",
  "For every timestamp type the library provides (integers, durations, units, products, pairs, iteration-coordinate vectors, antichains and the old/new-tagged times of delta joins), the join of two times is their least upper bound and the meet their greatest lower bound with respect to the type's own partial order. The in-place forms agree with the value-returning forms, and the order is a partial order that the type's total order extends.",
  ["inputs"], "every pair and triple of timestamps of each type",
  "Laws over all triples of timestamps; unit tests sample a few, and a wrong meet or join only shows when incomparable or tied coordinates meet.",
  [DD+"lattice.rs", DD+"dynamic/pointstamp.rs", "dogsdogsdogs/src/altneu.rs"],
  [("Lattice join and meet", DD+"lattice.rs"), ("PointStamp lattice", DD+"dynamic/pointstamp.rs"), ("AltNeu lattice", "dogsdogsdogs/src/altneu.rs")])

p("L02", "Advancing times to a frontier preserves all future comparisons",
  "Advancing a time to a non-empty frontier yields a time that compares identically to the original against every time at or beyond that frontier. Two times that no such later time can distinguish are advanced to the same representative, and the result does not depend on the order in which the frontier lists its elements.",
  ["inputs"], "every time and every frontier of up to three elements, for totally and partially ordered times",
  "A universally quantified statement over times, frontiers and observation times; compaction errors surface only in accumulations read much later.",
  [DD+"lattice.rs"], [("advance_by", DD+"lattice.rs")])

p("D01", "Difference types obey the algebra that incremental updates rely on",
  "For each difference type (integers, wrapping integers, presence markers, tuples, vectors and arrays of counts) addition is associative and commutative, zero is its identity, negation is its inverse, and a difference reports itself zero exactly when adding it changes nothing. Multiplication distributes over addition on both sides.",
  ["inputs"], "every pair and triple of differences of each type",
  "Algebraic laws over all values and, for vectors, all length mismatches; tests check one example.",
  [DD+"difference.rs"], [("Semigroup, Monoid, Abelian, Multiply", DD+"difference.rs")])

p("C01", "Consolidation preserves every accumulated count and is canonical",
  "Consolidating any list of updates yields a list in strictly increasing order of datum and time, with no zero differences, whose total difference at every datum and time equals that of the input. The same holds for the portions of buffers that streaming builders and chunkers consolidate, across any pattern of pushes, extractions and flushes, with nothing lost or duplicated between containers.",
  ["inputs", "schedules"], "every list of updates (data, times and differences arbitrary) up to the stated length, and every interleaving of pushes with extraction",
  "Equality of sums at every coordinate for every coincidence pattern of data and times; tests check hand-written lists.",
  [DD+"consolidation.rs", DD+"trace/implementations/chunker.rs"],
  [("consolidate, consolidate_updates, consolidate_slice", DD+"consolidation.rs"), ("ConsolidatingContainerBuilder", DD+"consolidation.rs"), ("ContainerChunker", DD+"trace/implementations/chunker.rs")])

p("B01", "The batcher releases exactly the updates before each seal frontier",
  "Whatever updates are handed to the batching component and however seals interleave with them, each seal yields a sorted, consolidated batch containing exactly the accumulated updates at times not beyond the seal's upper frontier and not released before. Everything else is retained, and the reported lower bound on retained times is the antichain of minimal times actually retained.",
  ["inputs", "histories"], "every sequence of updates and seals up to the stated length, over total and partial orders",
  "Depends on how chunks split, merge and cancel across several seals, for every coincidence of data and times.",
  [DD+"trace/implementations/merge_batcher.rs", DD+"trace/implementations/mod.rs", DD+"trace/implementations/chunker.rs"],
  [("MergeBatcher::seal", DD+"trace/implementations/merge_batcher.rs"), ("extract / merge of sorted chunks", DD+"trace/implementations/merge_batcher.rs")])

p("B02", "Building and merging batches preserves accumulations at all readable times",
  "A batch built from sorted updates presents exactly those updates. Merging two adjacent batches under a compaction frontier, however the work is divided by fuel, presents a batch spanning both whose accumulations at every time at or beyond the frontier equal the sum of the inputs', that is sorted and free of zeros and repetitions, and whose description and reported length are right.",
  ["inputs", "schedules"], "every pair of batches up to the stated size, every compaction frontier, every division of merge fuel",
  "Every relationship between keys, values and times of two batches matters, together with where the fuel runs out.",
  [DD+"trace/implementations/ord_neu.rs", DD+"trace/implementations/mod.rs", DD+"trace/mod.rs"],
  [("OrdValMerger / OrdKeyMerger", DD+"trace/implementations/ord_neu.rs"), ("OrdValBuilder / OrdKeyBuilder", DD+"trace/implementations/ord_neu.rs"), ("UpdsBuilder", DD+"trace/implementations/ord_neu.rs")])

p("S01", "A trace answers queries correctly under any history of maintenance",
  "For every interleaving of batch insertions, logical and physical compaction requests, effort and reads, the accumulation read from a trace at any time at or beyond the logical compaction frontier equals the accumulation of all updates inserted. A read through any permitted frontier sees exactly the updates of the batches up to that frontier, and the trace always presents its batches as a contiguous chain.",
  ["histories", "schedules"], "every history of insertions, compactions, fuel applications and reads up to the stated length, with arbitrary updates and frontiers",
  "Merges progress a little on each insertion, so the set of internal states is large; tests exercise a few fixed histories.",
  [DD+"trace/implementations/spine_fueled.rs", DD+"trace/implementations/ord_neu.rs", DD+"trace/mod.rs"],
  [("Spine insert, exert, merging layers", DD+"trace/implementations/spine_fueled.rs"), ("cursor_through", DD+"trace/implementations/spine_fueled.rs")])

p("N01", "Cursors navigate exactly the sorted contents of their batches",
  "From any sequence of steps, seeks, rewinds and reads, a cursor's position and what it presents agree with a sorted list of its batch's keys, values, times and differences. Seeks land on the least key or value at or after the target without moving backward, and a cursor over several batches presents the sorted union of the keys and of the values of each key.",
  ["inputs", "histories"], "every batch contents up to the stated size and every sequence of navigation commands up to the stated length",
  "The navigation state space is combinatorial and mistakes show only for particular alignments of several batches.",
  [DD+"trace/cursor/mod.rs", DD+"trace/cursor/cursor_list.rs", DD+"trace/implementations/ord_neu.rs", DD+"trace/implementations/mod.rs"],
  [("CursorList", DD+"trace/cursor/cursor_list.rs"), ("OrdValCursor / OrdKeyCursor", DD+"trace/implementations/ord_neu.rs"), ("BatchContainer::advance", DD+"trace/implementations/mod.rs")])

p("F01", "Batch containers store and search what they are given",
  "Each batch container (plain vectors, slice containers, columnar containers and offset lists) returns at each position what was pushed there, converts references to owned values and back without change, and its search from a position for a monotone predicate finds exactly the end of the run of satisfying elements.",
  ["inputs"], "every sequence of pushed elements up to the stated length, every predicate boundary and search range",
  "Offsets, strides and galloping searches have length-dependent cases that samples miss.",
  [DD+"trace/implementations/mod.rs", DD+"trace/implementations/chunker.rs"],
  [("BatchContainer::advance", DD+"trace/implementations/mod.rs"), ("OffsetList", DD+"trace/implementations/mod.rs"), ("SliceContainer", DD+"trace/implementations/mod.rs")])

p("K01", "Chunked batches behave as the flat list of their updates",
  "Merging, time-splitting, compacting and re-settling sequences of sorted chunks preserves accumulations exactly as for flat sorted lists: merging yields the sorted sum, splitting by a frontier partitions the updates with the correct reported frontier, compaction preserves accumulations beyond the frontier, and the output is sorted and consolidated across chunk boundaries. Traces whose batches are chunk lists read the same as any other trace.",
  ["inputs", "schedules"], "every chunk contents and every division into chunks up to the stated size",
  "Errors arise where runs of equal keys, values and times straddle chunk boundaries, in every alignment of two lists.",
  [DD+"trace/chunk/mod.rs", DD+"trace/chunk/vec.rs", DD+"trace/mod.rs"],
  [("Chunk merge, extract, advance, settle", DD+"trace/chunk/vec.rs"), ("ChunkBatch, ChunkBatchMerger, ChunkBatchCursor", DD+"trace/chunk/mod.rs")])

p("V01", "Columnar updates are a faithful encoding of the updates they hold",
  "Forming columnar updates from any sequence, consolidating them, filtering and splitting them, merging and melding them, and writing them to bytes and reading them back all preserve the accumulated difference of every key, value and time, yield results in sorted order, and never report a length or contents other than what iteration presents.",
  ["inputs", "schedules"], "every sequence of updates up to the stated length, every split point and frontier",
  "Nested offsets must agree at every level for every run pattern; tests check selected patterns.",
  [DD+"columnar/updates.rs", DD+"columnar/trie_merger.rs", DD+"columnar/trace/chunk.rs", DD+"columnar/layout.rs"],
  [("Updates form, consolidate, UpdatesBuilder", DD+"columnar/updates.rs"), ("merge, extract, compact of tries", DD+"columnar/trie_merger.rs")])

p("J01", "Join output accumulates to the product of its inputs at every time",
  "For every pair of input histories, every division of them into batches, every order of arrival and every yielding schedule, the accumulated join output at each key, pair of values and time equals the product of the accumulated inputs at that time. No output carries a time earlier than the frontier its operator had already passed.",
  ["inputs", "schedules", "histories"], "every pair of update histories up to the stated size over total and partial orders, all batchings and arrival orders",
  "Bilinear correctness needs every pair of updates matched exactly once at the join of their times, whichever side arrives first and whatever compaction has happened.",
  [DD+"operators/join.rs", DD+"operators/common.rs", DD+"operators/arrange/agent.rs"],
  [("join_with_tactic", DD+"operators/join.rs"), ("JoinThinker", DD+"operators/join.rs")])

p("J02", "Alternative join engines agree with the product definition",
  "The opaque-identifier join engine and the batched wave that evaluates large histories produce, for every pair of key histories and any acknowledged frontier, the same accumulated output as the definition of join, with each pair of matched updates contributing once at the join of their times, on both sides of any small-history threshold.",
  ["inputs", "configurations"], "every pair of histories up to the stated size and every frontier",
  "Histories take different paths by length, and times are advanced under meets of suffixes; only a universal argument covers all coincidences.",
  [DD+"operators/int_proxy/join.rs", DD+"operators/int_proxy/history.rs", DD+"operators/common.rs"],
  [("ProxyJoinTactic", DD+"operators/int_proxy/join.rs"), ("bilinear_wave", DD+"operators/common.rs")])

p("R01", "Reduce output equals the logic applied to accumulated input at every time",
  "For every input history, division into batches and arrival schedule, and for totally and partially ordered times, the accumulated output of a reduction at each key and time equals the user's logic applied to the accumulated, sorted, non-zero input values at that time, and is empty where the input is empty. Output changes only at times in the join-closure of input times and never at times before the operator's frontier.",
  ["inputs", "schedules", "histories"], "every input history up to the stated size, every batching",
  "Corrections are needed at joins of input times that may not be input times, possibly in later batches; tests use few fixed or random histories.",
  [DD+"operators/reduce.rs", DD+"operators/common.rs"],
  [("reduce_with_tactic", DD+"operators/reduce.rs"), ("HistoryReplayer", DD+"operators/reduce.rs")])

p("R02", "All reduction engines implement the same reduction",
  "The reference engine, the cursor-replay engine and the opaque-identifier engine, given the same key histories, batches and frontiers, produce outputs that accumulate identically at every key, value and time, and defer the same work to later frontiers.",
  ["inputs", "schedules"], "every input history up to the stated size, over partially ordered times, every batching",
  "Engines differ in how they discover interesting times; equality is over all histories.",
  [DD+"operators/reduce.rs", DD+"operators/int_proxy/reduce.rs", DD+"operators/int_proxy/history.rs"],
  [("ProxyReduceTactic", DD+"operators/int_proxy/reduce.rs"), ("reference reduce tactic", DD+"operators/reduce.rs")])

p("U01", "Count, threshold and distinct report the right multiplicities",
  "At every time the accumulated output of counting pairs each record with its exact accumulated input count, thresholding presents each record with exactly the multiplicity its function assigns to the accumulated count, and distinct presents each record of positive count once. The specialised totally ordered forms agree with the general forms for every history and batching.",
  ["inputs", "schedules"], "every input history up to the stated size, every batching, arbitrary threshold functions",
  "Transitions through zero, negative counts and repeated changes within one batch interact in ways samples miss.",
  [DD+"operators/count.rs", DD+"operators/threshold.rs", DD+"operators/reduce.rs"],
  [("count_total", DD+"operators/count.rs"), ("threshold_semigroup / threshold_total", DD+"operators/threshold.rs")])

p("I01", "Iteration computes the fixed point and maintains it under changes",
  "For every finite input history and arrival schedule, the output of an iterative computation at each outer time accumulates to the fixed point of the loop body applied to the input accumulated at that time, whenever one is reached. Variables return what they are set to, one step later, and removal of inputs retracts what depended on them.",
  ["inputs", "histories", "schedules"], "every small input history, including changes and removals, for representative loop bodies",
  "Fixed points under retraction exercise partially ordered times in patterns that depend on the data.",
  [DD+"operators/iterate.rs", DD+"collection.rs"],
  [("Iterate, Variable", DD+"operators/iterate.rs")])

p("I02", "Dynamic iteration coordinates order, join and advance like padded vectors",
  "A dynamically scoped time behaves as its coordinate sequence padded with minimal coordinates, whatever its length: comparisons, joins, meets, equality and comparisons with borrowed forms respect this. Applying a path summary truncates and increments coordinates as specified, composing summaries agrees with applying them in turn, and both are monotone.",
  ["inputs"], "every coordinate vector and summary up to the stated length",
  "Representations of different lengths denote the same time, so every mismatch of lengths and trailing minima matters.",
  [DD+"dynamic/pointstamp.rs", DD+"dynamic/mod.rs"],
  [("PointStamp, PointStampSummary", DD+"dynamic/pointstamp.rs"), ("enter_dynamic / leave_dynamic", DD+"dynamic/mod.rs")])

p("A01", "Shared arrangements serve every reader what it may still ask for",
  "However several readers of one arrangement are cloned, advanced, compacted and dropped, each reader's accumulations at times at or beyond its own compaction frontier equal those of the input. Importing an arrangement elsewhere, at any moment and optionally restricted to an interval of times, yields a stream that accumulates to the original within that interval, and a reader's holds are released exactly when it advances or drops.",
  ["histories", "schedules"], "every history of insertions, reader clones, compactions, drops and imports up to the stated length",
  "Compaction is decided by the combined holds of several readers; errors appear only for particular orders of release and read.",
  [DD+"operators/arrange/agent.rs", DD+"operators/arrange/writer.rs", DD+"operators/arrange/arrangement.rs", DD+"trace/wrappers/frontier.rs"],
  [("shared reader compaction counts", DD+"operators/arrange/agent.rs"), ("TraceAgent import and import_frontier", DD+"operators/arrange/agent.rs")])

p("P01", "Upserts maintain exactly the latest value of each key",
  "For every sequence of keyed set and clear requests, in any arrival order and batching, the arranged collection at each time holds for each key exactly the value of its latest request at or before that time, or nothing if that request cleared it. Requests for the same key and time resolve deterministically, and redundant requests produce no updates.",
  ["inputs", "schedules"], "every request sequence up to the stated length, every arrival order and flush pattern",
  "Depends on interactions of pending requests, previous values and several requests per key within one batch.",
  [DD+"operators/arrange/upsert.rs"], [("arrange_from_upsert", DD+"operators/arrange/upsert.rs")])

p("S02", "An input session delivers each recorded change once, at its time",
  "For every sequence of inserts, removals, explicit-time updates, flushes and advances on an input session, the collection delivered downstream accumulates at every time to exactly the changes recorded, each at the session's time when recorded or the time given. Nothing is delivered after the session's reported time has passed it.",
  ["histories"], "every sequence of session calls up to the stated length, with arbitrary times",
  "Buffered updates interact with time advances in every order.",
  [DD+"input.rs"], [("InputSession", DD+"input.rs")])

p("E01", "Entering and leaving scopes preserves collections and arrangements",
  "A collection or arrangement brought into a nested scope presents at each inner time the accumulation of the outer one at the corresponding outer time, or from the assigned inner time when entry is delayed per record, and leaving the scope restores the outer accumulation. Compaction of the wrapped arrangement never disturbs accumulations the wrapper may still be asked for.",
  ["inputs", "schedules"], "every update history, entry-time function and compaction frontier within the stated bounds",
  "Frontiers are translated between time domains in both directions, and errors surface only after compaction of particular shapes.",
  [DD+"trace/wrappers/enter.rs", DD+"trace/wrappers/enter_at.rs", DD+"trace/wrappers/frontier.rs", DD+"collection.rs"],
  [("TraceEnter", DD+"trace/wrappers/enter.rs"), ("enter_at", DD+"trace/wrappers/enter_at.rs")])

p("O01", "Linear collection operators transform accumulations as specified",
  "At every time, mapping, filtering, flat-mapping, exploding, negating, concatenating, delaying, joining against a function and consolidating a collection yield the image of the accumulated input under the operation, for every input history and schedule. The same holds for columnar forms of these operators.",
  ["inputs", "schedules"], "every input history up to the stated size",
  "The property is about accumulated multiplicities over all histories, including cancellation and differences that multiply.",
  [DD+"collection.rs", DD+"columnar/collection/operators.rs", DD+"columnar/collection/mod.rs"],
  [("Collection operators", DD+"collection.rs"), ("columnar join_function and leave_dynamic", DD+"columnar/collection/operators.rs")])

p("G01", "Packaged algorithms match their definitions on every small input",
  "For every input within bounds and after every change to it, prefix sums equal sums over preceding positions, assigned identifiers are distinct for distinct records, breadth-first distances are shortest distances, bidirectional distances agree with them, label propagation yields the least label reaching each node, strongly connected components keep exactly the edges within components, and sequential graph iteration matches the sequential algorithm.",
  ["inputs", "histories"], "every graph or record set up to the stated size, with changes",
  "Correctness is over every graph and every change; the existing tests use a few graphs.",
  [DD+"algorithms/prefix_sum.rs", DD+"algorithms/identifiers.rs", DD+"algorithms/graphs/bfs.rs", DD+"algorithms/graphs/bijkstra.rs", DD+"algorithms/graphs/propagate.rs", DD+"algorithms/graphs/scc.rs", DD+"algorithms/graphs/sequential.rs"],
  [("algorithms", DD+"algorithms")])

p("X01", "Captured streams replay to the original under reordering and duplication",
  "Given the captured updates and progress statements of a stream, in any order and with any repetitions of messages, replay yields updates and frontiers such that nothing is released before all updates it counts on are known, no update is lost, repeated or produced after a frontier that excludes it, and the frontiers reported are those the statements justify.",
  ["inputs", "fault_sequences", "schedules"], "every small stream and every reordering and duplication of its messages",
  "The tolerance claim is over all permutations and repetitions of messages.",
  [DD+"capture.rs"], [("capture iterator", DD+"capture.rs")])

p("H01", "Delta joins and half joins produce the join of their inputs exactly once",
  "For every input history, batching and arrival order, a half join matches each streamed change against exactly the arranged updates its time comparison admits, at the right times and multiplicities. Delta queries that combine half joins with old and new orderings accumulate at every time to the full join of their inputs, and prefix extension counts, proposes and validates extensions faithfully.",
  ["inputs", "schedules"], "every input history up to the stated size, every batching, arrival order and yielding point",
  "Exactly-once matching relies on tie-breaking between simultaneous changes, in every coincidence of times.",
  ["dogsdogsdogs/src/operators/half_join.rs", "dogsdogsdogs/src/operators/half_join2.rs", "dogsdogsdogs/src/altneu.rs", "dogsdogsdogs/src/operators/lookup_map.rs", "dogsdogsdogs/src/operators/propose.rs", "dogsdogsdogs/src/operators/count.rs", "dogsdogsdogs/src/operators/validate.rs", "dogsdogsdogs/src/calculus.rs"],
  [("half_join", "dogsdogsdogs/src/operators/half_join.rs"), ("AltNeu", "dogsdogsdogs/src/altneu.rs")])

p("W01", "Results do not depend on the number of workers or on scheduling",
  "For every input history, assignment of records to workers and order in which workers are scheduled, the accumulated outputs of arrangement, join, reduction and iteration over all workers equal those of a single worker, the computation completes, and the records of one key of an arrangement are at one worker.",
  ["schedules", "inputs"], "every small input history, record placement and worker schedule up to the stated length",
  "Interleavings of several workers with progress exchange are not controlled by ordinary tests.",
  [DD+"operators/arrange/arrangement.rs", DD+"collection.rs", DD+"columnar/collection/exchange.rs", DD+"operators/join.rs", DD+"operators/reduce.rs", DD+"operators/iterate.rs"],
  [("arrange_core", DD+"operators/arrange/arrangement.rs"), ("ValDistributor", DD+"columnar/collection/exchange.rs"), ("Iterate", DD+"operators/iterate.rs")])

p("Q01", "Query programs mean the same after lowering, optimisation and explanation",
  "A program in the interactive language, written in either syntax, yields the results of the direct reading of its terms and operators, with iterative scopes at their fixed points, whether or not it is optimised or rebuilt by the explanation transform's walk. The input rows an explained program demands for some of its output rows are rows of its inputs, and running the program on those rows alone produces the output rows asked about.",
  ["programs", "inputs"], "every small program and input within the stated bounds",
  "Equivalence is over all programs and inputs; tests run a few programs on a few inputs.",
  ["interactive/src/ir.rs", "interactive/src/lower.rs", "interactive/src/scope_ir.rs", "interactive/src/backend/vec.rs", "interactive/src/explain/mod.rs", "interactive/src/parse/pipe.rs", "interactive/src/parse/applicative.rs"],
  [("lowering", "interactive/src/lower.rs"), ("linear operator fusion and rewriting", "interactive/src/scope_ir.rs")])

p("T01", "Outputs complete as soon as their inputs do",
  "Once every input of a dataflow has passed a time and the computation has run until it has nothing left to do, every operator's output has passed that time, and a trace's batches cover it, for every input history, batching, schedule and pattern of yielding: no operator holds a capability for a time at which it owes nothing, or waits for input that need not come. When inputs close the computation ends.",
  ["inputs", "schedules"], "every small input history, arbitrary later input frontiers (antichains of up to two), and any flushing, closing and yielding order",
  "Users learn that results are complete only by the progress of outputs; a capability held too long or a missed wake-up shows only at particular times and frontiers, and never in final results.",
  [DD+"operators/arrange/arrangement.rs", DD+"operators/reduce.rs", DD+"operators/join.rs", DD+"operators/iterate.rs", DD+"operators/arrange/agent.rs", DD+"operators/arrange/upsert.rs", "dogsdogsdogs/src/operators/half_join.rs", "dogsdogsdogs/src/operators/half_join2.rs", "dogsdogsdogs/src/operators/lookup_map.rs"],
  [("arrange_core", DD+"operators/arrange/arrangement.rs"), ("reduce_with_tactic", DD+"operators/reduce.rs"), ("half_join_internal_unsafe", "dogsdogsdogs/src/operators/half_join2.rs"), ("lookup_map", "dogsdogsdogs/src/operators/lookup_map.rs")])

with open("/verif/properties.jsonl", "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
import os, jsonschema
schema = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
for d in P:
    if schema: jsonschema.validate(d, schema)
    for f in d["anchors"]["files"] + [m["where"] for m in d["anchors"]["mechanism"]]: assert os.path.exists("/repo/" + f), (d["id"], f)
print(len(P), "properties")
for d in P:
    assert len(d["title"]) <= 80, d["title"]
