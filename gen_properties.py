#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

IMPL = "src/INNC/tensorImpl.cpp"; FUN = "src/INNC/function.cpp"; OPS = "include/INNC/ops.hpp"
UT = "include/INNC/utils/utils.hpp"; TEN = "src/INNC/tensor.cpp"; STO = "src/INNC/storage.cpp"
LAY = "src/INNC/layouts.cpp"

p("C01", "Concurrent callers each get the result of their own program",
  "When several threads call the library at once, each on tensors of its own and otherwise only reading tensors they share, every call returns exactly the shape, element type and values that tensor semantics (creation, broadcasting arithmetic, comparison, reduction, slicing, reshaping, transposition, concatenation, conversion, printing) assign to that thread's own program. This holds for every interleaving of the threads, including preemption in the middle of a call and threads that stall for long.",
  ["schedules", "programs", "histories"],
  "all programs of 1..4 caller threads over the whole Tensor API with tensors of rank 0..5 and all six element types, all interleavings at memory-access granularity",
  "The tests run one thread, one call at a time; no test ever has two calls in flight, so hidden shared state in the library (scratch space, counters, caches) is invisible to them.",
  [IMPL, OPS, UT, TEN, LAY], [("every operation works on its arguments and freshly created objects only", IMPL), ("iteration and index arithmetic keep their state in locals", UT)],
  [("the reference-counted tensor objects and storages", "the only state calls may share", "include/INNC/tensorImpl.hpp")],
  ["return values of every Tensor member/friend: to_string, size, type, numel, all"])

p("C02", "Gradients are right when several threads differentiate at once",
  "When several threads each build and differentiate graphs of their own at the same time (possibly reading shared tensors that require no gradient), every leaf receives exactly the gradient that its own thread's graph defines. Nothing is lost, applied twice or taken from another thread's graph, whatever the interleaving of the differentiations.",
  ["schedules", "programs"],
  "all interleavings of 2..4 threads that build and differentiate graphs with shared subexpressions, views, broadcasts and type changes",
  "The tests call backward from one thread only; the traversal's visit marks depend on a process-wide counter, so the interesting failures need two traversals in flight.",
  [IMPL, FUN, "include/INNC/function.hpp"], [("per-traversal visit marks from a process-wide counter", IMPL + " refresh_n_outway/backward"), ("per-node pending-consumer counts", "include/INNC/function.hpp")],
  [("process-wide traversal counter", "tells traversals apart", FUN)], ["grad() of every leaf after backward()"])

p("C03", "Independent threads never race inside the library",
  "Threads that use disjoint tensors, or that share tensors only for reading them and for building further results from them, never make conflicting unsynchronised accesses to the same memory inside the library. This includes threads that differentiate different graphs and threads that draw random tensors at the same time.",
  ["schedules", "programs"],
  "all interleavings of 2..4 threads running any mix of forward operations, differentiation of own graphs, handle copies and drops, and random draws",
  "A data race is a property of pairs of accesses in concurrent executions; the tests are single-threaded.",
  [IMPL, FUN, "src/INNC/utils/rand.cpp", OPS], [("traversal counter", FUN), ("the shared random engine", "src/INNC/utils/rand.cpp"), ("reference counts of shared tensors", "include/INNC/tensorImpl.hpp")],
  [("process-wide mutable state", "traversal counter and random engine", FUN)], ["every instrumented memory access of the library"])

p("C04", "A failed call changes nothing and can be repeated",
  "Every call other than backward that fails, because the request is invalid or because memory runs out at any point inside it, ends in an exception the caller can catch (never in termination), and invalid requests are always refused this way. After the failure every existing tensor still has the values, shape, type and gradient it had before, also through its views and detached aliases. The same call made again once the cause is gone gives its normal result.",
  ["fault_sequences", "histories", "inputs"],
  "all histories, all positions at which an allocation inside a call can fail (once, from there on, or by size), all invalid requests among the call kinds",
  "The tests never make an allocation fail and look at no tensor after a refused call.",
  [IMPL, OPS, TEN, "include/INNC/exceptions.hpp", "include/INNC/utils/utils.hpp", "src/INNC/types.cpp"],
  [("arguments are validated before anything is written", IMPL), ("results are built in fresh objects; in-place addition commits last", IMPL + " operator+="), ("RAII ownership of everything allocated", STO)],
  (), ["exceptions from calls; audits of all live tensors afterwards"])

p("C05", "Dropped tensors give all their memory back, also after failures",
  "Once no handle reaches a tensor, graph or gradient any more, all memory the library obtained for it has been returned, whatever the order in which handles, views, graphs and gradients were dropped. This also holds for calls, including backward, that failed midway because memory ran out: repeating a history that ends without handles never makes the memory in use grow.",
  ["histories", "fault_sequences", "schedules"],
  "all histories of calls and handle drops by 1..3 threads with allocation failures at any point, repeated",
  "The leak checker in the test build only sees the successful histories the tests run; cleanup paths of failed calls never execute.",
  [IMPL, FUN, STO, UT], [("shared ownership of storages, acyclic ownership of graphs", "include/INNC/tensorImpl.hpp"), ("RAII in every call", UT)],
  (), ["bytes and blocks in use, at the allocator"])

p("C06", "Running out of memory inside backward is survivable",
  "If memory runs out at any point inside backward, the caller gets an exception it can catch, no tensor's values change, and no gradient of a tensor outside that graph changes. After clearing the gradients of that graph's leaves and building the graph again, differentiating it gives the exact gradients.",
  ["fault_sequences", "crash_points", "histories"],
  "all graphs the API can build and every allocation inside their differentiation failing (once, from there on, or by size)",
  "No test interrupts a differentiation.",
  [IMPL, FUN], [("backward only ever touches gradients and traversal bookkeeping", IMPL), ("gradient buffers are cleared when created", FUN + " try_accumulate_update")],
  (), ["exceptions from backward(); values of all tensors; grad() of all leaves before and after recovery"])

p("C07", "Results do not depend on what memory contains or where it lies",
  "The values, shapes, types and gradients a program observes are determined by the program alone. They are the same whatever bytes freshly obtained memory holds, wherever allocations are placed, and however soon or late freed memory is handed out again.",
  ["fault_sequences", "programs", "histories"],
  "all programs over the API, run under different allocator behaviours: contents of fresh memory (zero, ones, noise, stale data), placement and reuse order",
  "In the test build fresh memory always has the same contents and freed memory is quarantined, so a missing initialisation gives the same answer every time.",
  [IMPL, FUN, STO, OPS], [("every element of a new storage is written before it is read", IMPL), ("gradient buffers and reduction accumulators are zeroed on creation", FUN)],
  (), ["complete observation log of a program under each allocator behaviour"])

p("C08", "No call touches memory outside live allocations",
  "Whatever sequence of calls is made on live tensors (views of views, empty, reversed and strided slices, gradients of views, tensors whose base or producer has been dropped, calls that fail midway), the library never reads or writes outside an allocation it still owns, never frees one twice and never uses one after freeing it.",
  ["histories", "fault_sequences", "inputs"],
  "all histories over the API including refused calls and failed allocations; every heap access of the library is checked",
  "The tests run under a memory checker, but only a few dozen fixed histories, mostly on tensors that own their whole storage.",
  [IMPL, OPS, LAY, FUN, STO], [("layouts index only inside the storage they were derived from", LAY), ("gradient storage mirrors the layout of the data storage", FUN), ("shared ownership of storages by views", "include/INNC/tensorImpl.hpp")],
  (), ["every instrumented memory access and every free"])

p("C09", "Views share their elements, copies never do",
  "Slices, transpositions and detached handles keep showing the same elements as the tensor they came from, so an in-place addition through any of them is seen by all of them at exactly the corresponding elements and nowhere else. Clones, contiguous copies, conversions to another type, concatenations, arithmetic results and tensors made from a caller's buffer are independent from then on, whatever happens later to the source, the buffer or the handles.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of view taking, copying, in-place addition, buffer reuse and handle dropping, by one thread or handed from thread to thread",
  "The tests contain no in-place update of a tensor that has views; they check each view once, right after it was made.",
  [IMPL, LAY, STO], [("views hold the storage of their source with an offset and strides", IMPL), ("copies own fresh storage", IMPL), ("from_blob copies", IMPL)],
  [("shared storage", "elements of a tensor and all its views", "include/INNC/storage.hpp")], ["to_string of every handle after every in-place addition"])

p("C10", "Every backward contributes exactly once to every leaf gradient",
  "After any history of building, differentiating and discarding graphs, a leaf's gradient is the sum of the exact derivatives of all the scalars differentiated since it was last cleared, each counted once, in whatever order the graphs were built and differentiated and by whichever (mutually synchronised) thread. A retained intermediate result holds its own total derivative, an unretained one holds none.",
  ["histories", "schedules", "programs"],
  "all histories of several overlapping graphs over common leaves, with shared subexpressions, broadcasts, views, type changes, clearing, parameter updates and several threads taking turns",
  "The tests differentiate a few small fixed graphs, almost always one at a time with fresh leaves.",
  [IMPL, FUN, OPS], [("pending-consumer counts decide when a node may propagate", IMPL), ("each operation's derivative rule adds into its inputs' gradients", FUN)],
  [("gradient accumulators", "per tensor", "include/INNC/tensorImpl.hpp"), ("pending-consumer counts", "per graph node", "include/INNC/function.hpp")], ["grad() of leaves and retained intermediates after each backward()"])

p("C11", "A graph keeps what it needs and frees it when dropped",
  "A scalar can be differentiated with exact gradients no matter which handles to its inputs and intermediate results were dropped or reassigned in the meantime, in which order, and by which thread, and even if their memory would by then have been handed out again. As soon as the last handle that reaches a graph is gone, its intermediate results are freed.",
  ["histories", "schedules", "fault_sequences"],
  "all orders and moments of dropping or reassigning handles between building and differentiating a graph, freed memory being reused at once",
  "The tests keep nearly every handle alive until after the differentiation.",
  [IMPL, FUN, "include/INNC/function.hpp"], [("a node owns its inputs; its back pointer to the result does not own", "include/INNC/function.hpp"), ("a result owns its node", "include/INNC/tensorImpl.hpp")],
  (), ["grad() of surviving leaves; memory in use after dropping the last handle"])

p("C12", "Random draws are reproducible and each is handed out once",
  "After the generator is seeded, the random tensors a program draws are determined by the seed and the order of the draws alone. Draws made at the same time by several threads equal the draws of some one-at-a-time order of those calls, each with the requested shape and floating type. A refused or failed draw uses up no randomness.",
  ["schedules", "fault_sequences", "histories"],
  "all interleavings of draws by 1..4 threads, with failing allocations and refused requests between and inside draws, and reseeding between phases",
  "The only random test checks that an integer type is refused.",
  [IMPL, "src/INNC/utils/rand.cpp", "include/INNC/utils/rand.hpp"], [("one process-wide engine, used under mutual exclusion", IMPL + " randn"), ("the distribution object lives for one call", IMPL + " randn")],
  [("random engine", "process-wide", "src/INNC/utils/rand.cpp")], ["values of random tensors"])

p("C13", "Differentiation finishes in work proportional to the graph",
  "backward finishes after a number of steps bounded by a constant times the number of recorded operations and elements, also for graphs in which intermediate results are used many times over, and it visits shared subexpressions once. Every other call and every thread's program likewise finishes within such a bound once memory is available, whatever the other threads do.",
  ["programs", "schedules", "configurations"],
  "all graph shapes, in particular long ladders of reused intermediates whose number of paths is exponential, alone and with other threads interleaved",
  "The tests' graphs have at most a handful of nodes, where repeated traversal of shared parts costs nothing.",
  [IMPL, FUN], [("visit marks per traversal", IMPL + " refresh_n_outway/backward"), ("propagation only when all consumers have contributed", "include/INNC/function.hpp")],
  (), ["simulated step count of backward()"])

p("C14", "Long graphs need no deep stack",
  "A graph of any length that fits in memory, such as a loss accumulated over tens of thousands of steps, can be built, differentiated with exact gradients and dropped on a thread with an ordinary small stack. This holds whether it is dropped whole, piece by piece, by the thread that built it or by another, and also when memory is short at that moment.",
  ["histories", "fault_sequences", "configurations"],
  "graph lengths up to tens of thousands of operations, caller stacks of 256 KiB, any drop order, allocation failures while dropping",
  "The longest chain of operations in the tests has fewer than ten links.",
  [IMPL, FUN], [("graph traversal and disposal are iterative", IMPL)],
  (), ["completion of backward() and of dropping the last handle; grad() of the leaf"])

p("C15", "Slice strings mean what Python slices mean",
  "For every well-formed slice string and every tensor shape, indexing selects exactly the elements, in the order, that the same Python slice would.",
  ["inputs"], "all slice strings and shapes",
  "The tests try about fifteen strings on one shape.",
  [IMPL, "src/INNC/utils/utils.cpp"], [("slice parsing and clamping", IMPL + " operator[]")])

p("C16", "Element types promote and convert as documented for every value",
  "For every pair of element types and every pair of values, including extreme, infinite and not-a-number values, arithmetic, comparison and conversion give the value of the corresponding C++ operation in the larger of the two types.",
  ["inputs"], "all pairs of element types and all values",
  "The tests use small integers only.",
  [OPS, "include/INNC/types.hpp", "include/INNC/dispatcher.hpp"], [("dispatch tables by type pair", "include/INNC/dispatcher.hpp"), ("type promotion order", "include/INNC/types.hpp")])

p("C17", "Random tensors follow the standard normal distribution",
  "The elements of random tensors of either floating type are independent and distributed as a standard normal variable.",
  ["inputs"], "all seeds and shapes",
  "No test looks at the distribution.",
  [IMPL, "src/INNC/utils/rand.cpp"], [("std::normal_distribution over a Mersenne twister", IMPL + " randn")])

p("C18", "Nested initialisers give the tensor they spell out",
  "A tensor built from a nested brace initialiser has the shape of the nesting, the element type of its numbers and the elements in reading order, and ragged or mixed-type nestings are refused.",
  ["inputs"], "all nested initialisers",
  "The tests try six initialisers.",
  ["include/INNC/tensor.hpp"], [("TensorInit constructors", "include/INNC/tensor.hpp")])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
