#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
FFI="cavalier_contours_ffi/src/lib.rs"
TR="cavalier_contours/src/polyline/traits.rs"
VW="cavalier_contours/src/polyline/pline_view.rs"
PL="cavalier_contours/src/polyline/pline.rs"
TY="cavalier_contours/src/polyline/pline_types.rs"
IN="cavalier_contours/src/polyline/internal/pline_intersects.rs"
OF="cavalier_contours/src/polyline/internal/pline_offset.rs"
BO="cavalier_contours/src/polyline/internal/pline_boolean.rs"
SH="cavalier_contours/src/shape_algorithms/mod.rs"
VX="cavalier_contours/src/polyline/pline_vertex.rs"
UI=["cavalier_contours_ui/src/app.rs","cavalier_contours_ui/src/scenes/pline_offset_scene.rs","cavalier_contours_ui/src/scenes/pline_boolean_scene.rs","cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs","cavalier_contours_ui/src/plotting/plines.rs"]

p("C01","Memory handed out by the C interface is reclaimed exactly once",
  "After any sequence of C interface calls, made by any number of threads on objects they do not share mutably, with any allocation failing along the way, releasing every object the caller still owns returns all memory the calls ever took. No block is ever released twice, released with a wrong size, written after release or written beyond its end, and nothing a call failed to hand out stays allocated.",
  ["histories","schedules","fault_sequences"],"All call histories over all C functions, all interleavings of clients, every position at which an allocation may fail, all address reuse patterns.",
  "The C interface has almost no tests and none of them observe the allocator; leaks and double releases need a whole create/use/take/release history, and the failure paths need an allocation to fail inside a call.",
  [FFI],[("opaque boxed objects released by their _f function",FFI),("list owns its polylines until popped or taken","cavc_plinelist_* in "+FFI),("results boxed before being written to out parameters","cavc_plinelist::from_internal in "+FFI)],
  observe=["the process allocator"])
p("C02","Every C call contains its own failures",
  "A C interface call always returns to its caller with 0, a documented error code or -1, whatever its null pointers, out of range positions, unknown operation codes, degenerate geometry or failing allocations: it never unwinds into or aborts the caller. A call that returns non-zero hands out no object, leaves every other object and every read-only argument exactly as it was, and leaves its own target unchanged (or, for replacing the whole vertex array, holding only the old vertexes or a leading part of the new ones) and still usable; documented error codes are returned exactly in the documented situations.",
  ["fault_sequences","histories","inputs"],"All call histories; all argument faults; every allocation of every call failing, once or persistently; internal panics.",
  "Tests only make successful calls; the catch-all at the boundary, the order of checks and writes, and the state left behind by a call interrupted half-way are only visible when a fault is injected inside the call.",
  [FFI],[("unwinding caught at the boundary and turned into -1","ffi_catch_unwind! in "+FFI),("argument checks before any write",FFI)],
  observe=["return codes","out parameters","contents of every live object after every failed call"])
p("C03","C object histories behave like a simple sequential model",
  "Each polyline, polyline list and spatial index reached through the C interface behaves, after any history of calls, like an independent value: a vertex sequence with a closed flag, an ordered list of such values, and the bounding boxes of a polyline at the time the index was made. Reads return exactly what the writes before them produced, computed results equal what the underlying library computes for the same values and options, and no call changes an object that is not its target; this holds for each client whatever other clients do concurrently with their own objects or with shared objects that everybody only reads.",
  ["histories","schedules","inputs"],"All histories of all C functions, by several clients with private and read-shared objects, in all interleavings.",
  "Tests call a handful of functions once each, on one thread; aliasing between objects, wrong list order after pop/take, stale options or swapped outputs need histories that mix objects.",
  [FFI,PL,TR],[("thin wrappers delegating to the library",FFI),("list positions shift on removal","cavc_plinelist_take in "+FFI),("defaults from the library","*_o_init in "+FFI)],
  observe=["all getters","all out parameters"])
p("C04","Results depend only on the inputs",
  "Every library computation returns bit for bit the same result for the same inputs and options, no matter which thread calls it, what was computed, cancelled or failed before in the process, what other threads compute at the same time on the same or similar data, what the clock says, how memory is laid out and recycled, or how hashing is seeded. The inputs are left exactly as they were.",
  ["schedules","histories","configurations","inputs"],"All interleavings of several clients over shared immutable inputs, all call histories before a call, all memory layouts, hash seeds and clocks.",
  "Tests run each computation once in a fresh state and compare with tolerances or with order-insensitive property sets; hidden state, iteration order and reuse of scratch memory show only across histories, threads and layouts.",
  [TR,IN,OF,BO,SH],[("no global or thread-local state; scratch stacks local to each call","query_stack locals in "+IN+", "+OF+", "+SH),("ordered maps where iteration order matters","BTreeMap/BTreeSet in "+OF+", "+IN+", "+BO+", "+SH),("library forbids unsafe code","cavalier_contours/src/lib.rs")],
  observe=["bit patterns of all results"])
p("C05","A failed computation leaves nothing behind",
  "When a library computation is interrupted - by an allocation failure, or by a panic of the caller's own polyline storage, visitor or iterator at any point - the failure reaches the caller (or the result is exactly the uninterrupted one), all memory the computation took is returned, and every input it borrowed is bit-identical to before. Polylines being edited in place stay readable and structurally valid and keep the vertexes they held before an edit that would only have added some, and every later computation, on the same or other data and on any thread, gives the result it gives in a fresh process.",
  ["fault_sequences","histories","schedules"],"Every allocation and every callback of every computation failing, at any point of any history, with other clients running.",
  "Tests contain no failing allocator, storage or visitor; partial failure states exist only in the middle of a computation.",
  [TR,IN,OF,BO,SH,PL],[("results built in locals and returned only when complete",TR),("Drop-based clean-up, no manual resource handling","cavalier_contours/src/lib.rs"),("no state outside the call",OF)],
  observe=["allocator ledger","inputs after failure","results of later calls"])
p("C06","Visitors see a prefix and stop exactly where they ask to",
  "When a visitor of a polyline's self intersects asks to stop at its k-th visit, for any k, it receives exactly the first k items of the complete enumeration, is never called again, and the value it stopped with is returned to the caller unchanged. Without a stop the complete enumeration is delivered; enumerating everything delivers the local intersects followed by the global ones; and a visitor that itself runs other computations, or panics, changes none of this for anybody else.",
  ["fault_sequences","inputs","schedules"],"All polylines, all cancellation points k, all nested computations started inside a visit, all concurrent enumerations of the same polyline.",
  "Existing tests collect complete enumerations of a few polylines; none of them cancels at every possible point or re-enters the library from inside a visit.",
  [IN,TR,"cavalier_contours/src/core/mod.rs","cavalier_contours/src/core/traits/control_flow.rs"],[("early return on should_break after every visitor call","try_cf! and visit_local_self_intersects / visit_global_self_intersects in "+IN),("All = Local then Global","visit_self_intersects_opt in "+TR)],
  observe=["sequence of visitor invocations","returned control value"])
p("C07","Any conforming polyline storage gives the same results",
  "Every query and construction on a polyline gives bit for bit the same answer whether the vertexes are served by the library's own polyline, by a view or selection with the same vertexes, or by user-defined storage, and whatever polyline type the results are built into. It only reads positions within the vertex count the storage reports, never changes its inputs, and an error raised by the storage at any access comes out of the call instead of turning into a wrong answer.",
  ["inputs","fault_sequences","configurations"],"All polylines, all conforming storages and result types, a storage failure at any access.",
  "Tests use one concrete storage; the storage seam is a trait implemented by users, so what matters is every access pattern against every implementation.",
  [TR,PL,VW,OF,BO,IN],[("all algorithms written against the storage traits",TR),("views resolve vertexes through index arithmetic","PlineViewData::get_vertex in "+VW),("result construction through the creation trait","PlineCreation in "+TR)],
  observe=["every access made on the storage","results"])
p("C08","Detached selections survive crash and restore",
  "A detached selection of a polyline denotes a fixed vertex sequence: written out, read back in another process and re-attached to the equally restored source polyline, forward or inverted, it yields exactly the vertexes it yielded when it was made; made between two points of the polyline, these trace the stretch between them. The slices reported with a boolean result, restored and joined in order, trace the same curve as the result polyline they belong to; and a selection that does not fit the polyline it is attached to is recognised as invalid rather than silently yielding other vertexes.",
  ["crash_points","histories","inputs","fault_sequences"],"All ways of making a selection, all source polylines, all crash points between writing and re-attaching, corrupted or mismatched restored data.",
  "The tests check some views in memory; nothing writes a selection, loses the process and re-attaches it, or damages what was written.",
  [VW,TY,BO],[("selection resolves to vertexes by wrapping index arithmetic","PlineViewData::get_vertex in "+VW),("validation against a source","validate_for_source in "+VW),("slices recorded while stitching","stitch_slices_into_closed_polylines in "+BO)],
  observe=["view vertexes before and after restore","stitched slices against result polyline"])
p("C09","Stored polylines come back exactly or not at all",
  "A polyline or selection written through any writer and read back through any reader, however the I/O is split, interrupted or retried, is bit-identical, including signed zeros, subnormals and extreme values, and the stored text keeps its documented field names, so data from another process or an earlier version of the same data stays readable. If the writer or reader fails or the stored bytes are cut off, the operation reports an error or a value equal to the one stored - never a different polyline.",
  ["fault_sequences","crash_points","inputs"],"All values, all I/O chunkings, interruptions, write failures and truncation points.",
  "A test can round-trip a few values through memory; short reads, full disks and torn files at every byte are a fault space.",
  [PL,VX,VW,TY],[("derived, field-named serialization","serde attributes in "+PL+", "+VW+", "+TY),("vertexes as fixed-size triples","impl Serialize/Deserialize in "+VX)],
  observe=["bytes written","values read"])
p("C10","Cached indexes always describe the polylines they travel with",
  "In every shape produced by any history of construction, offsetting, cloning, failure and restore, each polyline's cached spatial index covers exactly that polyline's segments in order, the shape's own index holds the bounds of exactly its polylines in their listed order, and counter clockwise and clockwise polylines are listed on their own sides. Consequently a shape rebuilt from nothing but its polylines, and a computation given a pre-built index, behave exactly like the original.",
  ["histories","crash_points","inputs"],"All histories of shape operations with crashes that keep only the polylines, all pre-built index choices.",
  "Tests compare result polylines of single offsets by area and length; a stale or misordered cached index is invisible until a later operation trusts it.",
  [SH,TR],[("index built together with the polyline","IndexedPolyline::new in "+SH),("bounds collected in listing order","plines_index construction in "+SH),("caller-supplied index used instead of building one","aabb_index options in "+TR)],
  state=[("spatial_index","approximate segment boxes of the polyline it is stored with",SH),("plines_index","bounds of all polylines, counter clockwise first",SH)],
  observe=["index contents","results with and without pre-built index"])
p("C11","The interactive application survives any event history",
  "Whatever sequence of frames, pointer, key, wheel and resize events, scene changes, setting changes and clock jumps reaches the application, in any order and with events lost, duplicated, reordered or delayed, every frame completes without a crash. Once events stop, the application comes to rest within a bounded number of frames.",
  ["histories","schedules","fault_sequences"],"All event histories over all scenes and modes, including degenerate geometry produced by dragging.",
  "The application has no tests at all; crashes need specific geometry reached by dragging in a specific mode.",
  UI,[("result of failing tessellation or empty geometry handled while drawing","cavalier_contours_ui/src/plotting/plines.rs"),("scene state reset on scene change","cavalier_contours_ui/src/app.rs")],
  observe=["each simulated frame"],hook="read-only access to scene state behind cfg(cavc_sim)")
p("C12","Dragging moves exactly the grabbed vertex",
  "Pressing on a vertex and moving the pointer changes the position of that vertex only, to follow the pointer, and changes nothing else of the scene; after release, pointer movement changes no geometry. Pressing away from every vertex moves none, and no loss, duplication, batching or delay of events leaves a vertex attached to the pointer after the button is up.",
  ["histories","schedules","fault_sequences"],"All press/move/release histories, batchings of events into frames, lost and duplicated events, scene and mode changes in mid-drag.",
  "No tests; the grab state lives across frames and goes wrong only for particular batchings of events into frames.",
  UI[1:4],[("grabbed vertex remembered between frames","grabbed_vertex handling in scene files")],
  state=[("grabbed vertex","index of the vertex following the pointer","cavalier_contours_ui/src/scenes")],
  observe=["scene polylines after each frame"],hook="read-only access to scene state behind cfg(cavc_sim)")
p("C13","What is drawn is always current",
  "After any history of edits, setting changes and scene switches, the frame shown draws exactly what a freshly started application would draw for the same polylines and settings: no cached result, tessellation or index outlives the data it was made from.",
  ["histories","schedules"],"All event histories; all settings; all scenes.",
  "No tests; a stale cache is only visible by comparing against a fresh application in the same logical state.",
  UI,[("scene state recomputed or invalidated on edits","init/update methods of scenes"),("plot items built from current polylines","cavalier_contours_ui/src/plotting/plines.rs")],
  observe=["shapes painted in the plot"],hook="read and restore access to scene state behind cfg(cavc_sim)")
p("C14","Damaged data cannot make a computation run away",
  "Every computation finishes within an amount of work bounded in terms of the number of vertexes, even when stored coordinates, bulges or a detached index have been damaged to arbitrary values - infinities, not-a-numbers, extreme magnitudes, flipped bits - and whatever tolerance or offset is passed. It returns a result or an ordinary panic; it never loops forever, recurses without bound or aborts the process.",
  ["fault_sequences","inputs"],"All polylines with any stored values flipped or replaced, all operations except approximating arcs with a caller-chosen tolerance (whose output size the caller chooses).",
  "Tests use well-formed geometry; termination of the stitching, wrapping and pruning loops under damaged data is a universal claim about every value.",
  [TR,OF,BO,IN,SH],[("loop counters bound stitching","max_loop_count in "+OF+" and "+SH+", "+BO),("visited sets","visited flags in "+OF+", "+BO),("total comparisons when sorting","total_cmp in "+IN+", "+SH)],
  observe=["control-flow edges executed per computation"])

NA="The result is a pure function of one call's arguments: no schedule, clock, I/O, fault or history takes part, so a simulator has nothing to vary but the input, which would be input generation in simulator vocabulary."
def na(id,title,stmt,q,why,files,mech):
    p(id,title,stmt,["inputs"],q,why,files,mech)
na("C15","Boolean operations compute the set operation",
  "For closed simple polylines, the region enclosed by the positive results minus the negative results of or, and, not, xor equals that set operation on the two input regions, within tolerance.","All pairs of closed simple polylines.","Tests check areas of fixed pairs.",[BO],[("prune and stitch slices",BO)])
na("C16","Parallel offset stays at the offset distance",
  "Every point of an offset result lies at the requested distance from the input and on the requested side, and no valid part of the offset is missing, within tolerance.","All polylines and offsets.","Tests check property sets of fixed cases.",[OF],[("raw offset, self intersect, prune, stitch",OF)])
na("C17","Shape offset of islands and holes is the offset of the region",
  "Offsetting a shape with holes gives the boundary of the region grown or shrunk by the distance, within tolerance.","All shapes and offsets.","Tests check fixed shapes.",[SH],[("offset loops, slice, validate, stitch",SH)])
na("C18","Winding number counts turns around the point",
  "For any point off the curve, the winding number equals the number of signed turns of the polyline around it; open polylines give zero.","All polylines and points.","Fixed samples.",[TR],[("winding_number",TR)])
na("C19","Area, path length and extents match the curve",
  "Signed area, path length and bounding box equal those of the exact line and arc path, within rounding.","All polylines.","Fixed samples.",[TR],[("area, path_length, extents",TR)])
na("C20","All intersects between two polylines are found",
  "Every point where two polylines cross, touch or overlap is reported, with the segments it lies on, and nothing else is.","All pairs of polylines.","Fixed samples.",[IN],[("find_intersects",IN)])
na("C21","Segment and primitive intersections are exact within tolerance",
  "Line, circle and arc intersections return exactly the points common to both primitives within the given tolerance.","All primitives and tolerances.","Fixed samples.",["cavalier_contours/src/polyline/pline_seg_intersect.rs","cavalier_contours/src/core/math"],[("pline_seg_intr","cavalier_contours/src/polyline/pline_seg_intersect.rs")])
na("C22","Closest point is the closest point",
  "No point of the polyline is nearer to the query point than the reported one, and the reported point lies on the reported segment at the reported distance.","All polylines and points.","Fixed samples.",[TR],[("closest_point",TR)])
na("C23","Arc approximation keeps its error bound",
  "Replacing arcs with lines stays within the requested distance of the arc and leaves straight segments alone.","All polylines and tolerances.","Fixed samples.",[TR],[("arcs_to_approx_lines",TR)])
na("C24","Vertex clean-up keeps the curve",
  "Removing repeated or redundant vertexes, changing the start point and inverting direction leave the traced curve the same within tolerance.","All polylines.","Fixed samples.",[TR],[("remove_redundant, remove_repeat_pos, rotate_start, invert_direction_mut",TR)])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
