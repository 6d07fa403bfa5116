import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
T="src/planar/triangulator.rs"
VP="src/planar/triangulation_procedures/vertices.rs"
SP="src/planar/triangulation_procedures/segment.rs"
BP="src/planar/triangulation_procedures/boundary.rs"
HP="src/planar/triangulation_procedures/hole.rs"
TR="src/planar/triangulation.rs"
EN="src/planar/refine_procedures/encroachment.rs"
TS="src/planar/refine_procedures/triangle_split.rs"
PL="src/elements/polyline.rs"
ED="src/elements/edge.rs"
dom="every simple boundary, set of disjoint holes, segments and vertices; every order and grouping of the insertions; every iteration order of the library's hash maps and sets"
p("P01","A triangulation tiles exactly the boundary minus the holes",
 "After triangulate(), the triangles are counterclockwise and not flat, overlap nowhere, and together cover exactly the area inside the boundary and outside every hole. Every outer edge of the mesh runs along the boundary or along a hole, and every piece of boundary and hole is covered by such edges exactly once. This holds whatever was inserted before, in whatever order, and whatever order the library's worklists take.",
 ["inputs","schedules","histories"],dom,
 "Tests triangulate about a dozen fixed domains once, under whatever hash key the process drew; the worklist order is random, so a rare order that loses or inverts a triangle passes.",
 [T,VP,SP,BP,HP,TR],
 [("conflict graph driven incremental insertion","%s: solve_conflicts, retriangulate_cavity"%VP),("boundary inclusion and removal of outer triangles","%s: include"%BP),("hole inclusion","%s: include"%HP),("pipeline","%s: Triangulator::triangulate"%T)],
 ["Triangulator::triangulation after triangulate()"])
p("P02","A triangulation has every declared vertex and segment, and nothing else",
 "After triangulate(), the vertices of the mesh are exactly the vertices of the boundary and holes, the inserted vertices that were not swallowed by a hole, the ends of the inserted segments and the points where inserted segments cross; every inserted segment is, piece by piece, covered by edges of the mesh. None is lost and none is added, whatever order the library's worklists take.",
 ["inputs","schedules","histories"],dom,
 "Tests assert vertices and segments of a few fixed domains; whether a pending vertex or a segment is dropped depends on the order in which hash maps are walked.",
 [T,VP,SP,BP],
 [("pending vertices carried over between cavities","%s: solve_conflicts, distribute_conflicts"%VP),("segments forced into the mesh","%s: include"%SP),("splitting at crossings","%s: insert_segments, split_intersections"%T)],
 ["Triangulator::triangulation after triangulate()"])
p("P03","A triangulation is constrained Delaunay",
 "After triangulate(), for every edge shared by two triangles that lies on no boundary, hole or segment, the vertex opposite to it in one triangle is not inside the circumcircle of the other one, up to rounding. This holds for every domain, every history of insertions and every order in which the library's worklists are taken.",
 ["inputs","schedules","histories"],dom,
 "Tests compare a few meshes with expected triangles; an order dependent insertion can leave one non-Delaunay edge in a mesh that looks complete.",
 [VP,SP,"src/properties/continence.rs",TR],
 [("circumcircle conflict test","src/properties/continence.rs"),("cavity growth and its limits at segments","%s: may_insert_triangle, conflict map"%VP),("retriangulation beside a segment","%s"%SP)],
 ["Triangulator::triangulation after triangulate()"])
p("P04","Neighbour queries and ghost triangles agree with the triangles",
 "After triangulate() and after refine(), asking for the triangle beside any directed edge of a triangle yields the triangle that owns the edge, and the reversed edge yields its true neighbour or a ghost triangle. The ghost triangles are exactly one per outer edge of the mesh, around the boundary and around every hole; no stale entry points to a triangle that is not in the mesh.",
 ["inputs","schedules","histories"],dom+"; every refinement",
 "Tests look up a handful of adjacencies after single operations; the map is updated by every cavity, hole removal and split, in hash order.",
 [TR,VP,BP,HP,SP],
 [("adjacency map maintenance","%s: insert_triangle, remove_triangle"%TR),("ghost ring","src/elements/triangle.rs: new_ghost; %s; %s"%(BP,HP))],
 ["Triangulation::triangles","Triangulation::adjacency"])
p("P05","The mesh of a domain does not depend on the schedule that built it",
 "Meshing the same declared domain gives the same vertices, the same number of triangles and the same edges, up to ties between cocircular vertices. It does not matter in which order or in how many batches the parts were inserted, which way segments run, at which vertex polygons start, whether the domain was meshed or refined before, or in which order the library's hash maps are walked.",
 ["schedules","histories","inputs"],"pairs of executions that declare the same domain: hash keys, operation orders, groupings, directions, meshing in between and again",
 "A test runs one order under one hash key; it cannot compare executions it does not control.",
 [T,VP,SP,BP,HP],
 [("declared state kept apart from the mesh","%s: insert_*, triangulate"%T),("order independent result of incremental insertion",VP)],
 ["Triangulator::triangulation of two executions"])
p("P06","An insertion is accepted exactly when it fits; a rejected one changes nothing",
 "insert_vertices, insert_segments and insert_hole accept exactly what lies strictly inside the boundary and strictly outside every hole (a hole must also keep off every segment and enclose no other hole). Otherwise they return precisely the conflicting vertices or segments (for a hole: the vertices of the boundary, holes or segments it conflicts with) and leave everything declared as it was. This holds after any history of earlier insertions, in any walking order of the hash sets.",
 ["inputs","histories","schedules"],"every history of accepted and rejected insertions; every operation; every hash order",
 "Tests insert into fresh triangulators with one conflicting element each; they do not look at the state left by a rejected batch, nor at histories.",
 [T,PL,"src/elements/bounding_box.rs","src/properties/continence.rs","src/properties/orientation.rs"],
 [("continence of vertices and polylines","%s: contains, continence"%PL),("conflict sets gathered before any change","%s: insert_vertices, insert_segments, insert_hole"%T)],
 ["return values of insert_*","Triangulator::{holes,segments,vertices,boundary}"])
p("P07","The declared domain is what the accepted insertions add up to",
 "After any history, the declared holes, segments and vertices equal a simple account of the accepted insertions: segments are cut at their crossings, at overlaps and at every declared vertex on them; vertices on a segment belong to it and are not kept twice; a new hole removes the vertices it swallows; inserting something twice changes nothing. Meshing and refining never change what is declared, and the order in which hash sets are walked never shows.",
 ["histories","inputs","schedules"],"every history of insertions, meshing and refinement, compared after each step with a reference model",
 "Tests check one or two insertions; which segment is cut first, and whether a piece is revisited, depends on hash order and on history.",
 [T,ED,"src/properties/intersection.rs"],
 [("splitting at vertices and crossings","%s: insert_vertices, insert_segments, split_intersections"%T),("identity of edges and vertices","%s; src/elements/vertex.rs"%ED)],
 ["Triangulator::{holes,segments,vertices,boundary} after each step"])
p("P08","Refining keeps a complete constrained Delaunay mesh of the same domain",
 "For a domain whose constraints meet at no less than 20 degrees, and a radius-edge bound of at least sqrt(2) (or at least 1 where no constraints meet at less than 60 degrees), the mesh after refine() still tiles the domain exactly and still has every declared vertex and segment (split or not). It is still constrained Delaunay with a correct neighbour map and ghost triangles, and no two of its vertices coincide. This holds for repeated refinements and whatever order the worklists take.",
 ["inputs","schedules","histories"],"every such domain, every sequence of refinements with their bounds, every hash order of the encroachment and irregular-triangle worklists",
 "Tests refine about ten fixed domains once; every split re-enters the incremental insertion with a worklist in random order.",
 [EN,TS,T,VP],
 [("encroached segments split at their midpoint","%s"%EN),("circumcenters inserted unless they encroach","%s"%TS),("loop until neither is left","%s: refine"%T)],
 ["Triangulator::triangulation after refine()"])
p("P09","Refining meets the requested bounds",
 "After refine(), no triangle is larger than the requested maximum area, and no vertex lies inside the diametral circle of a piece of constraint it sees, unless it lies on another constraint that leaves an end of that piece at less than 60 degrees. Where no constraints of the domain meet at less than 60 degrees and the requested radius-edge ratio is at least 1, no triangle exceeds that ratio. Where some meet at less than 60 degrees and the requested ratio is at least sqrt(2), a triangle that exceeds it has its circumcenter inside the diametral circle of, or beyond, a piece of constraint that starts at such a corner. (Domains whose constraints meet at less than 20 degrees, and ratios below sqrt(2) with corners under 60 degrees, are outside the claim.)",
 ["inputs","schedules","histories"],"every such domain and pair of bounds, repeated refinements, every hash order",
 "Tests check a few domains; a triangle that is skipped because another split came first only shows under some worklist orders.",
 [TS,EN,T,"src/properties/circumcenter.rs","src/planar/refine_params.rs"],
 [("irregular and large triangle worklists","%s"%TS),("loop until both are empty","%s: refine"%T)],
 ["Triangulator::triangulation after refine()"])
p("P10","Every call returns: no panic, no endless work",
 "Every insertion, triangulate() and refine() on a valid domain (refinement within the limits of P08) returns normally. Its work is bounded: it neither panics nor keeps allocating or looping without end, under any history and any order of the worklists.",
 ["inputs","schedules","histories"],"every history of operations and every hash order; progress measured on a simulated clock of allocations",
 "Tests that hang or panic do so only for some hash keys; a suite that is run once per change sees one key.",
 [VP,SP,BP,HP,EN,TS,T,PL],
 [("every worklist shrinks","%s: solve_conflicts; %s; %s"%(VP,EN,TS)),("unwraps guarded by earlier checks","%s; %s"%(TR,BP))],
 ["return of each call"])
CLI="src/main.rs"; IO="src/json_serializar/io.rs"; OUT="src/json_serializar/models/output.rs"; INP="src/json_serializar/models/input.rs"
DE="src/triangulator_interface/domain_evaluator.rs"; IM="src/triangulator_interface/mod.rs"; II="src/triangulator_interface/interpreter/mod.rs"
ID="src/triangulator_interface/interpreter"
doc="every document of include/remove polygons and circles, segments and vertices whose corners, crossings and constraints keep 0.2% of its size apart; every action order; every randomness key"
p("P11","Union, subtraction and intersection of polylines agree with point sets",
 "For closed counterclockwise simple polylines, Polyline::union, subtraction and intersection give counterclockwise polylines whose insides together are exactly the union, difference or intersection of the two insides, each made of corners and crossings of the two. A union is given when the insides are connected (voids it encloses are filled) and none when they are apart; subtraction gives nothing when nothing remains or when the subtracted polyline lies strictly inside; segments reported as unused are not in use, and the contact query finds every crossing and only common points. All of this holds for touching, overlapping and nested polylines, under every hash order, and for results fed back in.",
 ["inputs","schedules","histories"],"every pair of simple polylines in general or exactly touching position; chains of operations; every hash order of the candidate segment sets",
 "Tests run about forty pairs once; which segment a walk starts from and turns into is decided by hash order, so a wrong turn shows only under some keys.",
 [PL,ED,"src/properties/intersection.rs","src/properties/continence.rs"],
 [("walk along candidate segments","%s: union, subtraction, intersection"%PL),("splitting at intersections","%s: split_intersections"%PL),("segments kept by continence","%s: contains, continence"%PL)],
 ["return values of Polyline::{union,subtraction,intersection,intersection_vertices}"])
p("P14","The program's output describes the whole mesh of its document",
 "When the program exits with status 0, its output is one JSON document with id, name, date, coordinates, triangles and tetrahedrons; id, name and date are those of the input (a fresh version 4 id, and the current time, when the input has none). Coordinates are finite, distinct, planar and all used, and each triangle names three of them by index, counterclockwise. Together the triangles are a constrained Delaunay mesh that has every declared vertex and segment and honours max_area, and quality where no constraints meet at less than 60 degrees; with an output file nothing is printed.",
 ["inputs","schedules","fault_sequences"],doc+"; every clock",
 "No test runs the program; indices and coordinates come from hash maps, so they can disagree under most keys and agree under others.",
 [CLI,OUT,INP,"src/json_serializar/models/tesselations.rs",ID+"/refine_params_parser.rs",ID+"/segments_parser.rs"],
 [("indices follow coordinates","%s: from_triangulator"%OUT),("parameters reach the refinement",ID+"/refine_params_parser.rs"),("constraints collected over actions","%s: parse"%II)],
 ["output file or stdout of the program"])
p("P15","The meshed domain is the includes united, less the removals, in any order",
 "A valid document is accepted, and the triangles written tile exactly the union of the included polygons and circles less the removed ones, whether a removal cuts the rim, is a hole, joins other holes, or lies outside. Neither the order of the actions, nor the direction or first point of a polygon, nor points or constraints given twice, nor the way constraints are spread over actions, nor the hash order shows in the domain. (Documents some order of whose removals splits the domain or leaves it touching itself in a point are outside the claim.)",
 ["inputs","schedules","histories"],doc,
 "No test covers the domain evaluation as a whole; the union walks a hash set of includes and retries, holes are united in hash order, so mistakes depend on the key and on the order of the actions.",
 [DE,IM,ID+"/polyline_parser.rs",ID+"/circle_parser.rs",PL],
 [("includes united, removals subtracted or kept as holes","%s: boundary, holes"%DE),("orientation and circles","%s/polyline_parser.rs, circle_parser.rs"%ID),("assembly of the triangulator","%s: parse"%IM)],
 ["triangles and coordinates written by the program"])
p("P16","A bad document is refused, and nothing is written",
 "A document that is unreadable, no JSON, incomplete, of wrong types, or geometrically meaningless (unknown intents or geometries, too few points, polygons that are flat or cross or touch themselves, circles without area, odd segments, a quality or area no triangle can meet, no include, separate includes, a removal that splits the domain or leaves nothing, constraints outside the domain) ends the program with a non-zero status. Nothing is then printed on stdout, the output file is neither created nor changed, and nothing else is touched.",
 ["inputs","fault_sequences","schedules"],"every such document, every pre-existing output file, every hash order",
 "Tests parse a few good documents; no test looks at refusals, exit status or at files left behind.",
 [CLI,IO,INP,"src/json_serializar/models/action.rs",II,DE,ID+"/polyline_parser.rs",ID+"/segments_parser.rs",ID+"/circle_parser.rs",ID+"/refine_params_parser.rs"],
 [("errors end the run before anything is written","%s: main"%CLI),("actions checked","%s: parse and the parsers"%II),("domain checked","%s: boundary"%DE)],
 ["exit status, stdout and files of the program"])
p("P17","Success means a complete output, whatever the system calls do",
 "If the program exits with status 0, the output file (or stdout) holds the complete output, even if the file existed before, was longer, or was left torn by a crash of an earlier run. Interrupted calls, short reads, short writes and clock jumps do not change the output by a byte (a default date apart); a run after any failure succeeds. Failed or torn reads and writes, full disks, refused opens, failed allocations and kills never end in status 0 with anything less, and leave the old file or a beginning of the new one.",
 ["crash_points","fault_sequences","histories","schedules"],"every sequence of runs over one directory with faults or a kill at any of its system calls or allocations, in any combination",
 "Tests never fail a system call or kill the program; that an error is dropped shows only when it happens.",
 [CLI,IO],
 [("read and write report every error","%s: read, write"%IO),("write result checked before success","%s: main"%CLI)],
 ["exit status, stdout and files of the program"])
p("P12","Points and segments inserted in batches give a Delaunay triangulation",
 "Without a boundary, a mesh grown with vertices::include in any number of batches, with segment::include in between, always tiles the convex hull of the points it was given, has exactly those points as vertices and every segment as an edge, is constrained Delaunay and has a correct neighbour map with one ghost triangle per hull edge. It does not matter how the points are split into batches, in which order they come, whether they come twice, lie outside the hull built so far or on one of its lines, or in which order the conflict map is walked. (The first batch makes a triangle, segments cross no other segment, and points lie on none.)",
 ["inputs","histories","schedules"],"every sequence of batches of points and segments, grid-aligned, cocircular, clustered and far apart; every hash order of the conflict map",
 "Tests insert fixed handfuls of points into empty meshes once; growth over batches, outward growth through ghost triangles and repeats are hardly sampled, and the conflict map is walked in random order.",
 [VP,SP,TR,"src/properties/continence.rs"],
 [("incremental insertion into an existing mesh","%s: include, solve_conflicts"%VP),("outward growth through ghost triangles","%s: conflict map; src/properties/continence.rs"%VP),("segment recovery in an open mesh","%s: include"%SP)],
 ["Triangulation::{triangles,adjacency} after every batch"])
p("P13","Edges are chained into a polyline, and pieces taken apart, without loss",
 "Edge::arrange and Polyline::arrange give back the chain or loop a shuffled set of edges came from, and nothing when the edges form no single chain or loop; triangles_hull gives the outer loop of a fan or strip of triangles. Edge::decompose splits an edge at exactly the given points, in order from its start, and minified_noncolinear drops exactly the vertices between two collinear edges, keeping an opened polyline opened. Each call returns, and its result does not depend on the order of its input or of a hash set.",
 ["inputs","schedules"],"every loop, chain, pinched, branching, doubled or empty set of edges in any order; every point set on an edge; every hash order",
 "Tests arrange a few good loops under one hash key each; which edge a walk starts with and turns into comes from a hash map, so open or pinched sets fail only for some keys.",
 [PL,ED,"src/elements/vertex.rs","src/elements/triangle.rs"],
 [("edges chained by their ends","%s: arrange; %s: arrange"%(PL,ED)),("splitting an edge at points on it","%s: decompose"%ED),("vertices between collinear edges dropped","%s: minified_noncolinear"%PL),("order of vertices","src/elements/vertex.rs: sort")],
 ["return values of Edge::{arrange,decompose}, Polyline::{arrange,triangles_hull,minified_noncolinear}, Vertex::sort"])
p("P18","A triangulation's include and remove histories leave a consistent map",
 "After any history of include_triangle and remove_triangle, solid and ghost, in any rotation of their vertices, the set of triangles holds each live triangle once and no other, and the neighbour map names for every directed edge exactly the live triangle that owns it. Equal triangles and edges are equal, hash alike and are found whatever vertex they start from, under every hash key.",
 ["histories","schedules"],"every history of inclusions and removals of solid and ghost triangles in every rotation, repeated or absent ones too; every hash key",
 "Tests include one or two triangles once. Whether an equal triangle that hashes differently is found in a set depends on the hash key of the process.",
 [TR,"src/elements/triangle.rs","src/elements/edge.rs","src/elements/vertex.rs"],
 [("set and map kept together","%s: include_triangle, remove_triangle"%TR),("rotation invariant equality and hash","src/elements/triangle.rs: PartialEq, Hash")],
 ["Triangulation::{triangles,adjacency} after every step"])
p("P19","Pure geometric predicates agree with exact arithmetic",
 "Orientation, circumcircle, containment, intersection, parallelism, encroachment, distance, angle, area and circumcenter of given coordinates agree with exact arithmetic up to the library's stated tolerance. Each depends on its arguments alone.",
 ["inputs"],"every tuple of finite coordinates",
 "Tests evaluate a few tuples.",
 ["src/properties/orientation.rs","src/properties/intersection.rs","src/properties/circumcenter.rs","src/properties/encroachment.rs","src/properties/angle.rs","src/properties/area.rs"],
 [("formulas over coordinates","src/properties")],
 ["return values of the functions in src/properties"])
p("P20","The display window shows the mesh it is given",
 "The OpenGL display module draws every triangle of a triangulation at its coordinates scaled to the window, keeps doing so through resize and input events, and ends when the window is closed.",
 ["schedules","inputs"],"every mesh and every sequence of window events",
 "No test opens a window.",
 ["src/glium_interface"],
 [("draw loop","src/glium_interface")],
 ["pixels of the window"])
open(__import__('os').path.dirname(__import__('os').path.abspath(__file__))+'/../properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
