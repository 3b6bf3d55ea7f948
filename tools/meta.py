#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single description below (run by hand)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "workspace/boostvoronoi_core/src/"
FR, BU, DI, SY, VU, GE = C+"file_reader.rs", C+"builder.rs", C+"diagram.rs", C+"sync_diagram.rs", C+"visual_utils.rs", C+"geometry.rs"
BL, CE, SE, EP, PR, LIB = C+"beach_line.rs", C+"circle_event.rs", C+"site_event.rs", C+"end_point.rs", C+"predicate.rs", C+"lib.rs"
LCF = C+"predicate/lazy_circle_formation.rs"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), note=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
        note=note))

prop("C01", "Read errors are never mistaken for the end of the input",
 "When the byte source of the text format reports an error that is not an interruption before the outcome of the read is decided, the read ends with an error and never with a list of points and segments. Interrupted reads are retried without any effect on the result, and an error the source would only report after everything needed has been delivered does not fail the read.",
 ["fault_sequences", "inputs"],
 "every text, every way of cutting it into reads, every offset and kind of read error (transient or persistent), any number of interruptions",
 "the tests read complete in-memory buffers and intact files; no test source ever fails",
 [FR], [("line loop over the buffered source, error propagation", FR+" read_boost_input_buffer")],
 ["result of read_boost_input_buffer", "bytes taken from the source"])
prop("C02", "Reading ends, with bounded reads and memory, whatever the source does",
 "Reading the text format takes a bounded number of steps and of calls to the source, whatever the source delivers: after the counts declared in the text are satisfied, after a malformed line, after the end of data and after an error the read returns without asking an endless source for ever more lines. Memory in use stays proportional to the bytes actually delivered, whatever counts the text declares.",
 ["fault_sequences", "inputs"],
 "every text incl. huge declared counts and endless or persistently failing sources, every chunking",
 "termination and memory bounds need adversarial sources (endless, failing for good, lying counts); the tests use short honest buffers",
 [FR], [("state machine over the declared counts, early exit", FR+" read_boost_input_buffer"), ("no allocation from declared counts", FR)],
 ["steps taken", "reads after the end or an error", "peak memory"])
prop("C03", "The same bytes give the same input, however they are delivered or damaged",
 "The result of reading the text format is a function of the bytes alone: independent of how the source cuts them into reads, of interruptions, of buffer sizes, of other reads going on, and it consumes nothing that was consumed before the call. For every byte sequence (also truncated, corrupted, or with lines lost, duplicated or reordered) the result is the longest prefix that follows the documented format - a count, that many points, a count, that many segments: the first line that does not fit ends the input, nothing is skipped or invented, and a line needed that is not UTF-8 is an error.",
 ["inputs", "fault_sequences", "schedules"],
 "every byte sequence, chunking, buffer capacity and interleaving with other readers",
 "the tests read a handful of well-formed texts in one piece",
 [FR], [("line oriented grammar", FR+" read_boost_input_buffer"), ("token parsing", FR)],
 ["points and segments returned", "error returned"])
prop("C04", "Reading a file equals reading its bytes, and disk faults are reported",
 "Reading a file by path gives exactly what reading its bytes as a stream gives; a file that is missing, not readable, a directory, or whose reading fails gives an error, never an empty or partial input. Every file that is opened is closed again, whatever happens.",
 ["fault_sequences", "inputs"],
 "every file content and every sequence of failing stat/open/read calls, short reads, interruptions, files that vanish or change size between calls",
 "the tests open intact files that stay there; real disk faults can't be produced by a test on a real file system",
 [FR], [("open, size check, buffered reader handed to the stream entry point", FR+" read_boost_input_file")],
 ["result of read_boost_input_file", "descriptors open afterwards"])
prop("C05", "The diagnostics of the reader change nothing, whatever becomes of the console",
 "Whether, and how far, diagnostic output to the standard streams can be written (closed pipe, full disk, short or interrupted writes, slow console shared with other threads) has no influence on the result of reading: it neither panics, nor hangs, nor changes what is returned.",
 ["fault_sequences", "schedules"],
 "every text that draws diagnostics, every sequence of failing/short/interrupted writes, every interleaving with other users of the console",
 "the console of a test run always works",
 [FR], [("diagnostics of read_boost_input_buffer", FR)],
 ["result of the read", "state of the console lock"])
prop("C06", "Computations going on at the same time don't influence each other",
 "Any number of builders and diagrams may be in use at the same time: interleaved on one thread, on several threads, or from within the input iterators of another builder; each gets exactly the result it would get alone in a fresh process. This also holds for the survivors when one of them crashes (panics) in a user callback.",
 ["schedules", "crash_points", "histories"],
 "every set of clients, every interleaving of their steps and every preemption, every crash point of a client callback",
 "the tests build one diagram at a time and never crash in a callback; shared mutable state would only show under particular interleavings",
 [BU, DI, CE, BL, SE], [("all state owned by the builder / the diagram", BU), ("reference counted cells of one diagram", DI)],
 ["complete recordings of every diagram"])
prop("C07", "Results don't depend on environment or history",
 "The same input gives the same diagram, bit for bit and in the same numbering, and the same answers, renderings and stored form: in every process, on every thread, with every random hash seed, heap layout and heap content, at any time, and after any number of other computations, successful, failed or abandoned.",
 ["histories", "configurations", "schedules"],
 "every input, every hash seed, heap state, clock, stack size, thread and previous history of the process",
 "a test run has one environment, and compares with expectations that would tolerate most differences",
 [BU, CE, BL, DI, SE], [("deterministic ordering of events although the event store is hashed", CE), ("site queue sorted by a total order", BU+" init_sites_queue")],
 ["complete recordings, Debug renderings, bounding boxes, traversals, serialised form"])
prop("C08", "How sites are handed over doesn't matter; vertices after segments are refused",
 "Handing over vertices and segments in any number of batches (also empty ones), in any of the accepted element forms, through iterators with any legal size hints, delays or behaviour after their end, gives exactly the diagram of handing them over in one go, and takes exactly the items delivered. Vertices handed over after any segment are refused with the documented error.",
 ["histories", "inputs"],
 "every partition into batches, element form, iterator behaviour, and order of calls",
 "the tests hand over one slice each; batches, other element forms and odd iterators are hardly used together",
 [BU, GE], [("accumulating site queue and running source index", BU+" with_vertices / with_segments"), ("conversions into points and lines", GE)],
 ["complete recordings", "items taken", "error of the refused call"])
prop("C09", "Every distinct site gets exactly one cell, in any order, any number of times",
 "However often and in whatever order sites are contributed (duplicates, segments reversed or repeated, end points contributed again as points, zero-length segments), the diagram has exactly one cell for every distinct point and segment (each non-degenerate segment contributes its two end points and itself), and each cell names an input and role that really contributed it. Everything else of the diagram - vertices, edges, their numbering and links - is the same for every order and multiplicity.",
 ["fault_sequences", "inputs", "histories"],
 "every set of sites obeying the contract, every duplication, reversal and permutation of the deliveries",
 "the tests have a few fixed inputs in one order each",
 [BU, SE, BL, DI, LCF], [("sorting and removing duplicates of the site queue", BU+" init_sites_queue"), ("merging of equal sites and end points", BU+" process_site_event"), ("cells created from source index and category", DI+" make_new_cell_with_category_"), ("robust predicates", PR)],
 ["cells with source index and category", "complete recordings without attribution"])
prop("C10", "Diagrams are complete half-edge structures with right edge kinds, at every stage",
 "In every diagram returned - right after it is built, and after any annotation, traversal, conversion or storing and loading - every half-edge has a twin, next, previous, cell and origin that agree with each other, boundaries and rotations are closed and complete, vertices have degree three or more and finite coordinates, ids equal positions, and Euler's formula holds. An edge is secondary exactly when it separates a segment from one of its own end points and curved exactly when it separates a point from a segment otherwise; cells say consistently whether they contain a point or a segment.",
 ["inputs", "histories"],
 "every input obeying the contract and every history of operations on the diagram",
 "the tests count cells, edges and vertices of fixed inputs and look at single links",
 [DI, BU, SY, PR, LCF], [("pairwise linking of half-edges", DI+" insert_new_edge_2_/insert_new_edge_5_"), ("removal of degenerate edges and renumbering", DI+" finish/remove_edge_"), ("attributes of edges", DI+" Edge::new_")],
 ["complete recordings after every stage"])
prop("C11", "Colours behave as independent 27-bit registers, whoever changes them",
 "The colour of every vertex and edge is a register of 27 bits that holds what was last written or or-ed into it, whichever of the interfaces and clients changed it, in any interleaving; higher bits of what is written are dropped. Changing one colour changes nothing else: no other colour, no link, no coordinate, no flag and no classification.",
 ["histories", "schedules"],
 "every history of colour operations by any number of clients, every colour value, on diagrams and on converted diagrams",
 "the tests set few colours with small values; lost updates and clobbered flag bits need particular values and interleavings",
 [DI, SY], [("colour packed above reserved flag bits", DI+" ColorBits, set_color/or_color/get_color"), ("interior mutability with copy in and copy out", DI)],
 ["complete recordings after every operation"])
prop("C12", "Traversals visit every edge exactly once and end, also under annotation",
 "Traversing the boundary of a cell or rotating around a vertex, in either direction, visits each edge of it exactly once in the order of the links and then ends - for every cell and starting edge, including cells that are unbounded or degenerate, while any number of other traversals are in progress, were abandoned, or colours are changed meanwhile. All interfaces that answer the same question about the diagram agree.",
 ["schedules", "histories", "inputs"],
 "every diagram, every set of traversals in progress, every interleaving with annotation",
 "the tests walk along a few cells of a few diagrams, one at a time",
 [DI, SY], [("iterators with start, next and done state", DI+" EdgeNextIterator, EdgeRotNextIterator, EdgeRotPrevIterator"), ("rotation iterator of converted diagrams", SY+" EdgeRotNextIterator")],
 ["items yielded by every iterator, compared with the recorded rings", "answers of all queries"])
prop("C13", "Marking the exterior marks exactly what is reachable, in bounded stack",
 "Marking the exterior with a colour adds that colour to exactly the edges (and sets it on exactly the vertices) that are connected to infinity: unbounded edges, and everything reached from them through primary edges without passing a vertex that is an input site. Other bits of edge colours stay, marking again changes nothing, and the stack needed doesn't grow with the diagram.",
 ["inputs", "histories", "configurations"],
 "every diagram, colour, previous annotation, repetition, and every stack size that suffices for small diagrams",
 "the tests mark one small diagram; extent of the closure, clobbered bits and exhausted stacks need other shapes and sizes",
 [DI], [("closure over primary edges with a work list", DI+" color_exterior_edges, color_exterior_")],
 ["colours of all edges and vertices, compared with the closure computed from the recorded links", "run under a small stack"])
prop("C14", "A converted diagram is a faithful copy that nothing outside can change",
 "Converting a diagram into the form that can be shared between threads keeps every cell, vertex, edge, link, flag and colour as it was at that moment, and every query of the converted form answers accordingly. Handles of the original that are still held, and copies written back later, change the conversion as little as changes of the conversion change them.",
 ["histories", "schedules"],
 "every diagram, annotation history, set of handles still held, and interleaving of later changes on both sides",
 "the tests convert a diagram and look at a count; aliasing needs handles that outlive the conversion",
 [SY, DI], [("deep copy of all contents", DI+" From<Diagram> for SyncDiagram"), ("queries of the converted form", SY)],
 ["complete recordings of both sides after every step"])
prop("C15", "A converted diagram can be read by any number of threads at once",
 "A converted diagram may be moved between threads and read by any number of them at the same time: every query and traversal answers as it would on a single thread, whatever the others do and wherever a thread is preempted. The type system permits exactly this sharing.",
 ["schedules"],
 "every number of reader threads, every interleaving, every preemption point, several epochs of exclusive changes",
 "the tests read on one thread; hidden mutability would only show under particular interleavings",
 [SY], [("plain owned data without interior mutability", SY+" SyncDiagram")],
 ["answers of every thread compared with the recording", "Send and Sync of the public types"])
prop("C16", "Stored diagrams survive faulty storage and crashes unchanged, or fail visibly",
 "A converted diagram that is stored and loaded again is identical in every cell, vertex, edge, coordinate, flag and colour, in every encoding, and can be stored again to the same bytes. When writing or reading fails, is cut short or is interrupted, storing or loading fails visibly instead of giving a different diagram; after a crash at any point the recovered version is exactly one that was stored, and never older than the last one made durable.",
 ["fault_sequences", "crash_points", "histories"],
 "every diagram and annotation, every fault of the medium, every crash point of a history of versions",
 "one test stores one small diagram in memory; faults and crashes do not occur",
 [SY, DI, LIB], [("serde derives of all parts", SY+" SyncDiagram; "+DI+" Cell, Vertex, Edge, ids, ColorBits")],
 ["complete recordings before and after", "bytes stored"])
prop("C17", "Damaged stored diagrams are refused or harmless",
 "Loading damaged data, or building a shareable diagram from parts that do not belong together, never panics, hangs or takes unbounded memory, and neither does any query or traversal on what was accepted: an unusable link is reported or ends the traversal. What was accepted can be stored and loaded again without change.",
 ["fault_sequences", "inputs"],
 "every stored diagram, every damage of fields or bytes, every query with every id",
 "the tests only load what they stored",
 [SY, DI], [("checked access by id in every query", SY), ("bounded rotation iterator", SY+" EdgeRotNextIterator")],
 ["answers, panics, steps and memory of every query"])
prop("C18", "Stale and unknown ids are reported and change nothing",
 "An id that the diagram at hand does not know - of another, larger, cleared or converted diagram, or made up - is answered with an error or nothing by every query, and changes nothing when used with an annotation; it never panics, in debug builds neither. Handles that outlive their diagram keep the contents they had.",
 ["histories", "inputs"],
 "every diagram, every id out of range, every query and annotation, histories with clearing, dropping and converting",
 "the tests use ids the diagram gave them",
 [DI, SY], [("checked access by id", DI+" edge_get_, vertex_get_, cell_get_, get_edge, get_cell, vertex_get"), ("same for converted diagrams", SY)],
 ["answers", "complete recording before and after"])
prop("C19", "Abandoned and crashed work leaves nothing behind",
 "Work may be abandoned at any point: builders, diagrams, traversals and readers may be dropped in any state, callbacks may panic, storing and loading may fail half-way. No memory is leaked or released twice, however often it happens, and later computations give the results of a fresh process.",
 ["crash_points", "histories", "fault_sequences"],
 "every kind of work, every point at which it is dropped, fails or crashes, every sequence of these",
 "the tests run to completion; leaks through reference cycles or forgotten state don't fail a test",
 [BU, DI, BL, CE, SY], [("ownership without reference cycles", DI), ("consuming builder interface", BU)],
 ["live memory before and after", "double releases", "later diagrams"])
prop("C20", "Bounding boxes depend only on the set of updates",
 "A bounding box covers exactly the smallest rectangle around everything it was updated with, through whichever update operation, in any order, interleaved with any queries and with any repetitions; copies evolve independently. Containment queries answer according to it, growing by a percentage extends it on all sides, and the box of a diagram covers exactly its vertices.",
 ["histories", "fault_sequences", "inputs"],
 "every sequence, order and repetition of updates and queries, every coordinate in the supported range",
 "the tests check a few sequences; order dependence needs particular orders (first update, updates between the present bounds)",
 [VU, DI], [("low and high corner as options, compared on update", VU+" Aabb2"), ("box of a diagram", DI+" vertices_get_aabb")],
 ["corners and containment after every update"])

prop("C21", "Vertices and edges lie where the geometry of the sites says",
 "Every diagram that is returned - whatever else is going on, in whatever order and multiplicity the sites arrived, also after marking, conversion, and storing and loading - is the Voronoi diagram of its sites, up to the rounding of its coordinates: every vertex is equally far from the sites of all cells around it and no site is closer; a vertex of a segment's cell lies beside that segment; every edge has the site of its cell at its left; an edge is unbounded exactly where its two sites are neighbours on the outside of all sites.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "every input obeying the contract (nearly degenerate ones as far as doubles can resolve them), all four type combinations, every delivery order, every set of other clients and every interleaving with them",
 "the tests compare counts and a few coordinates of fixed inputs; wrong circle events only show for rare configurations, and then as vertices that are slightly or wholly misplaced",
 [BU, BL, CE, PR, LCF], [("circle formation and existence", PR+" and "+LCF), ("order of events and beach line", BL+", "+CE), ("creation of vertices", DI+" insert_new_edge_5_")],
 ["coordinates and links of complete recordings, judged from the sites alone"])
prop("C23", "Sampled curves stay on the parabola, within the requested distance",
 "However often viewers zoomed, panned or copied their views, sampling a curved edge gives a polyline from exactly the one end to exactly the other, with all other points on the parabola (up to rounding) in order along it, whose every piece is within the requested distance of the curve, with no more points than halving the arc until that is reached needs; it ends after work proportional to these points, also for arcs that are tiny compared with the coordinates.",
 ["histories", "inputs"],
 "every curved edge of every diagram, every history of views with one scale for both axes, every distance the coordinates can resolve, f32 and f64",
 "no test samples an edge; lost precision and overflow need particular arcs and views",
 [VU], [("subdivision of the arc with a stack", VU+" VoronoiVisualUtils::discretize"), ("projection of the ends", VU+" point_projection")],
 ["points of the polyline", "steps taken"])
prop("C24", "Views transform consistently there and back after any history",
 "A view of a source box in a destination box shows all of the source in the middle of the destination with the same scale for both axes (sizes below 10 count as 10). After any history of zooming, panning and copying by any number of viewers, all operations that transform from the source agree with that history, coordinates of the input found by transforming back are exactly the ones that were transformed as long as the precision permits, coordinates that the input can't express are reported, and no viewer influences another one. Scaled and moved copies of segments are exact.",
 ["histories", "inputs"],
 "every pair of boxes, every history of views, all coordinates, all type combinations",
 "two tests transform a few corners of one view; swapped axes, offsets and scales that only matter after zooming or panning aren't met",
 [VU], [("centre, scale and offset", VU+" SimpleAffine::new"), ("transforms in both directions", VU+" SimpleAffine"), ("conversion of segments", VU+" to_segments_offset")],
 ["transformed coordinates", "scale and offset of all viewers"])
prop("C25", "Time and memory grow with the input as documented",
 "Building takes time O(N*logN) and memory O(N) in the number of sites, as documented, whatever their shape, order of delivery and whatever was computed or abandoned before; reading the text format, marking the exterior, traversing all cells, converting and computing the bounding box take time and memory proportional to the size of the input or diagram.",
 ["inputs", "fault_sequences", "histories", "configurations"],
 "every input and order of delivery, every hash seed; measured as simulated time (basic blocks executed) and bytes, for inputs of up to 3000 sites",
 "benchmarks have no limits and measure one machine; a quadratic step passes every test on small inputs",
 [BU, BL, CE, DI, FR, SY], [("beach line", BL+" lower_bound, insert"), ("event queues", CE+", "+BU), ("work list of the marking", DI+" color_exterior_")],
 ["simulated time and memory of every stage for n and 4n sites"])

NA = []
def na(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ["inputs"], text, why, files, mech, ["return values"])
    NA.append(dict(property=id, reason=reason))
PURE = "Pure function of its arguments: no scheduling, time, I/O, randomness or faults can influence it, so a simulator has nothing to control; "
na("C22", "Predicates and extended arithmetic are exact within their stated error",
 "Orientation, distance and circle predicates give the sign of the exact value, and the extended integers and floats stay within their documented error bounds.",
 "all arguments", "fixed samples", [PR, "workspace/boostvoronoi_ext/src"], [("robust_fpt, extended_int, extended_exp_fpt", "workspace/boostvoronoi_ext/src")],
 PURE + "it is an arithmetic property over inputs only.")
na("C26", "Failing allocations are survived",
 "When memory runs out while a diagram is built, the caller gets an error and the process goes on.",
 "every allocation", "never happens in tests", [BU, DI], [("none", BU)],
 "Does not hold and is not promised: the library uses std collections, whose allocation failure aborts the process by the definition of the language's default allocation error handler; there is no behaviour of the library to decide.")

LEVEL = {}
for p in P:
    LEVEL[p["id"]] = "exploration"
TECH = {
 "C01": "deterministic simulation: seeded read-fault injection against a reference grammar",
 "C02": "deterministic simulation: adversarial sources under step, read and memory budgets",
 "C03": "deterministic simulation: seeded damage, chunking and thread schedules against a reference grammar",
 "C04": "deterministic simulation: simulated disk with fault injection, descriptor accounting",
 "C05": "deterministic simulation: console write faults and thread schedules",
 "C06": "deterministic simulation: seeded interleavings, preemption and crashes vs. isolated reference executions",
 "C07": "deterministic simulation: seeded environment (hash seed, heap, clock, threads, history) vs. pristine execution",
 "C08": "deterministic simulation: seeded delivery schedules vs. delivery in one go",
 "C09": "deterministic simulation: duplicating, reordering transport against a set model",
 "C10": "deterministic simulation: invariants after every stage of seeded histories",
 "C11": "deterministic simulation: seeded interleavings of clients against register model",
 "C12": "deterministic simulation: interleaved traversals and annotation against recorded rings",
 "C13": "deterministic simulation: seeded histories and small stacks against closure model",
 "C14": "deterministic simulation: interleaved writers on both sides against two models",
 "C15": "deterministic simulation: seeded thread schedules with preemption at basic blocks",
 "C16": "deterministic simulation: faulty medium, crash and restart against version history",
 "C17": "deterministic simulation: storage corruption under step and memory budgets",
 "C18": "deterministic simulation: histories with stale handles, recording compared",
 "C19": "deterministic simulation: crash and cancellation points with heap accounting",
 "C20": "deterministic simulation: reordering, duplicating update transport against exact model",
 "C21": "deterministic simulation: faulty transport, interleaved and crashing clients, geometric oracle",
 "C23": "deterministic simulation: interleaved viewer sessions against an analytic oracle",
 "C24": "deterministic simulation: interleaved viewer sessions against a reference model",
 "C25": "deterministic simulation: simulated time and memory under adversarial deliveries and histories",
}
NOTE = "Seeded search over real library code: a clean batch is evidence, not proof. Trusts the simulator (rt crate), the reference model in sim/src, and rustc's sanitizer-coverage callbacks. Inputs obey the documented contract (structured inputs within +-1e6, random ones in all the 32 bit range); dev profile with debug assertions; weak memory is not simulated."

P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "note"}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
nas = {n["property"] for n in NA}
man = dict(version=1, setup_cmd="./build.sh",
  checks=[dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
               technique=TECH[p["id"]], level=LEVEL[p["id"]], level_note=p["note"] or NOTE) for p in P if p["id"] not in nas],
  not_applicable=NA,
  notes="No hooks in /repo: all seams are the ones the library has (Read, iterators, serde), the libc and futex entry points of std, the allocator, and compiler-inserted coverage callbacks. Replay: target/debug/bvsim replay FILE (after ./build.sh). See DESIGN.md.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
