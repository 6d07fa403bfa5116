//! Which property looks at which part of a run, and how its runs are generated.
use crate::case::*;
use crate::genlib;
use crate::rng::*;

pub struct Def {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// classes of findings that violate the property
    pub classes: &'static [&'static str],
    pub rule: &'static str,
    pub components: &'static str,
    pub assumptions: &'static [&'static str],
}

const LIB: &str = "real: the whole planar library (elements, properties, planar), std collections and their hashing. owned by the simulator: getrandom(2) (one key per step = one schedule), the allocator (simulated clock and memory limit), address layout. stub: none";
const CLI: &str = "real: the shipped command line program, unmodified, as a process of its own, and everything it links. owned by the simulator through a preloaded shim: open/read/write/close on its input, output and stdout, getrandom, clock_gettime, process death. stub: none; the files live in a scratch directory";
const LIB_ASSUME: &[&str] = &[
    "domains of 0.005 to 100000 in size, features down to 1/1000 of that, up to 100000 from the origin where they are no smaller than 6: the tolerances of the library then stay below what the domain tells apart",
    "boundary and holes are simple counterclockwise polygons; segments have distinct ends",
    "operations that rounding could tip either way end the judged part of a history",
];
const CLI_ASSUME: &[&str] = &[
    "corners, crossings and constraints at least 0.2% of the size apart, corners of 20 degrees or more",
    "no order of the removals may split the domain or leave it touching itself in a point",
    "EBADF on stdout is std's documented silence and is not injected",
];
const CRASH: &[&str] = &["panic", "budget", "abort"];

pub const DEFS: &[Def] = &[
    Def { id: "P01", quick: 60000, thorough: 1200000, classes: &["orient", "dupedge", "stray-rim", "border", "area"],
        rule: "seeded histories of insert_hole/insert_segments/insert_vertices/triangulate over swarm-generated domains, one hash key per step, some with rejected operations in between; non-trivial: at least one mesh of 4 or more triangles was checked",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P02", quick: 60000, thorough: 1200000, classes: &["missing-vertex", "extra-vertex", "segment", "border"],
        rule: "as P01, with more declared vertices and crossing or overlapping segments; non-trivial: a mesh was checked whose domain has segments or vertices",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P03", quick: 60000, thorough: 1200000, classes: &["delaunay"],
        rule: "as P01; non-trivial: at least one mesh of 4 or more triangles was checked edge by edge",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P04", quick: 60000, thorough: 1200000, classes: &["adjacency", "ghosts", "refined:adjacency", "refined:ghosts"],
        rule: "as P01, a third of the histories with refinement; non-trivial: a neighbour map of at least 4 triangles was checked",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P05", quick: 15000, thorough: 300000, classes: &["differs"],
        rule: "one domain meshed under 3 to 6 schedules: new hash keys, operations regrouped and reordered, segments reversed, polygons rotated, meshed twice, meshed after a refinement; non-trivial: at least two schedules were compared",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P06", quick: 100000, thorough: 2000000, classes: &["accept", "conflict", "reject-changed"],
        rule: "histories in which about half of the operations must be rejected; every verdict is compared with the reference model; non-trivial: at least one operation was accepted and one rejected",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P07", quick: 100000, thorough: 2000000, classes: &["state", "declared-changed"],
        rule: "histories of accepted and rejected operations with meshing and refinement in between; after every step the declared state is compared with the reference model; non-trivial: at least two accepted operations",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P08", quick: 40000, thorough: 800000, classes: &["refined:orient", "refined:dupedge", "refined:stray-rim", "refined:border", "refined:area", "refined:missing-vertex", "refined:extra-vertex", "refined:segment", "refined:delaunay", "refined:adjacency", "refined:ghosts"],
        rule: "histories that end in one or more refinements with swarm-chosen quality and area bounds; non-trivial: a refinement added at least one vertex",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P09", quick: 48000, thorough: 960000, classes: &["quality", "max-area", "encroached"],
        rule: "as P08, two thirds of the domains without corners below 60 degrees; non-trivial: a quality or an area bound was decided on a refined mesh (encroachment is decided on every one)",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P10", quick: 50000, thorough: 1000000, classes: &[],
        rule: "a mix of the histories of P01, P06, P08 and P09; every call must return within 150 million allocations and 1 GB, without a panic; non-trivial: at least one mesh was built",
        components: LIB, assumptions: LIB_ASSUME },
    Def { id: "P14", quick: 12000, thorough: 240000, classes: &["shape", "echo", "indices", "mesh", "bounds", "stdout-noise"],
        rule: "one run of the program on a swarm-generated document of polygons, circles, segments and vertices in a random style; the output is read back and judged against the document; non-trivial: an output of at least 4 triangles was checked",
        components: CLI, assumptions: CLI_ASSUME },
    Def { id: "P15", quick: 8000, thorough: 160000, classes: &["domain", "refused"],
        rule: "one document in 2 to 4 styles (order of actions, direction and start of polygons, grouping of constraints, number format) under 2 to 4 randomness keys; every output must tile the includes less the removals; non-trivial: at least two outputs were checked",
        components: CLI, assumptions: CLI_ASSUME },
    Def { id: "P16", quick: 12000, thorough: 240000, classes: &["accepted-bad", "touched", "stdout-noise"],
        rule: "documents with one fault out of 45 kinds, or whose domain or constraints must be refused; exit status, stdout and the output file are judged; non-trivial: at least one document was refused",
        components: CLI, assumptions: CLI_ASSUME },
    Def { id: "P17", quick: 10000, thorough: 200000, classes: &["silent", "not-transparent", "recover", "touched"],
        rule: "histories of 1 to 3 runs with 1 to 4 faults or crashes each and a clean run at the end, over one directory; successes are compared with the same execution without faults; non-trivial: at least one fault fired",
        components: CLI, assumptions: CLI_ASSUME },
    Def { id: "P12", quick: 100000, thorough: 2000000, classes: &["orient", "dupedge", "stray-rim", "border", "area", "missing-vertex", "extra-vertex", "segment", "delaunay", "adjacency", "ghosts", "report"],
        rule: "1 to 8 batches of points and constrained segments into a triangulation that starts as one edge, one hash key each; after every step the mesh is judged against the convex hull of everything given; non-trivial: a mesh of at least 4 triangles was checked",
        components: LIB, assumptions: &["coordinates as in P01", "the first batch is not in line with the first edge", "segments cross no earlier segment and points lie on none: the Triangulator splits them first"] },
    Def { id: "P13", quick: 200000, thorough: 4000000, classes: &["join", "decompose", "loop", "hull", "minify", "sort"],
        rule: "one unordered set of edges, triangles or vertices put in order under 1 to 4 hash keys, every answer compared with the model; non-trivial: at least one set had an order to find",
        components: LIB, assumptions: &["coordinates as in P01", "for joining, no two edges of one direction overlap: the chain they belong to would be ambiguous"] },
    Def { id: "P18", quick: 200000, thorough: 4000000, classes: &["told", "set", "neighbours", "vertices", "edges"],
        rule: "1 to 5 batches of up to 30 triangles included in or removed from one triangulation, each named from any of its vertices, one hash key a batch; non-trivial: at least two were included and one operation removed something or had no effect",
        components: LIB, assumptions: &["no triangle takes an edge another one has: that would be no mesh"] },
    Def { id: "P11", quick: 120000, thorough: 2400000, classes: &["union", "subtract", "intersect", "contact"],
        rule: "chains of 1 to 5 unions, subtractions and intersections of lattice polygons (crossing, touching, sharing edges, nested, apart; also rotated and scaled), one hash key each, every result judged as a point set; non-trivial: at least one operation gave a polyline",
        components: LIB, assumptions: &["polygons are simple and counterclockwise, corners and crossings at least 1e-7 of the size apart", "a union that encloses a void is filled, and none is given when the polygons only meet in points"] },
];

pub fn find(id: &str) -> Option<&'static Def> {
    DEFS.iter().find(|d| d.id == id)
}

/// A run that never delivers decides every property of what it delivers.
pub fn decides(id: &str, class: &str) -> bool {
    CRASH.contains(&class) || find(id).map(|d| d.classes.contains(&class)).unwrap_or(true)
}

pub fn gen(prop: &str, seed: u64) -> Case {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut p = genlib::default();
    let all_q = vec![1.0, 1.1, 1.2, 1.42, 1.5, 2.0];
    match prop {
        "tri" | "P01" | "P02" | "P03" => {
            p.big = r.chance(0.06);
            p.chaos = r.chance(0.15);
        }
        "P04" => {
            p.big = r.chance(0.04);
            p.chaos = r.chance(0.15);
            p.refine = r.chance(0.33);
        }
        "P14" | "P15" | "P16" | "P17" => return Case::Cli(crate::cli::gen(r, prop)),
        "P12" => return Case::Points(crate::points::gen(r)),
        "P13" => return Case::Edges(crate::edges::gen(r)),
        "P18" => return Case::Mesh(crate::meshops::gen(r)),
        "P11" => return Case::Poly(crate::poly::gen(r)),
        "P05" => return Case::Sched(crate::sched::gen(r)),
        "chaos" | "P06" => {
            p.chaos = true;
            p.no_mesh = r.chance(0.75);
        }
        "P07" => {
            p.chaos = r.chance(0.6);
            p.no_mesh = r.chance(0.4);
            p.refine = r.chance(0.3);
        }
        "refine" | "P08" => {
            p.refine = true;
            p.wide = r.chance(0.3);
            p.big = r.chance(0.03);
            p.quality = all_q;
        }
        "wide" | "P09" => {
            p.refine = true;
            p.wide = r.chance(0.7);
            p.quality = if r.chance(0.7) { vec![1.42, 1.5, 2.0] } else { all_q };
        }
        "P10" => {
            p.big = r.chance(0.05);
            p.chaos = r.chance(0.3);
            p.refine = r.chance(0.5);
            p.wide = r.chance(0.3);
            p.quality = all_q;
        }
        _ => panic!("no property {}", prop),
    }
    Case::Lib(genlib::gen(r, &p))
}

pub fn nontrivial(prop: &str, r: &Report) -> bool {
    let t = |k: &str| r.tags.get(k).cloned().unwrap_or(0);
    let m = |k: &str| r.maxima.get(k).cloned().unwrap_or(0);
    match prop {
        "P01" | "P03" | "P04" => m("max_triangles") >= 4,
        "P02" => m("max_triangles") >= 2 && t("with_segments") + t("with_vertices") > 0,
        "P05" => t("schedules_compared") >= 1,
        "P06" => t("accepted") >= 1 && t("rejected") >= 1,
        "P07" => t("accepted") >= 2,
        "P08" => t("steiner_points") > 0,
        "P09" => t("refine_wide_angles") + t("refine_max_area") > 0,
        "P10" => t("triangulate") > 0,
        "P11" => t("results") > 0,
        "P18" => t("included") >= 2 && t("removed") + t("without_effect") > 0,
        "P13" => t("edges_joined") + t("decomposed") + t("closed") + t("hull") + t("minify") + t("sort") > 0,
        "P12" => m("max_triangles") >= 4,
        "P14" => m("max_triangles") >= 4,
        "P15" => t("outputs_checked") >= 2,
        "P16" => t("refused_documents") > 0,
        "P17" => r.tags.keys().any(|k| k.starts_with("fault:")),
        _ => true,
    }
}

pub fn judge(c: &Case) -> Report {
    match c {
        Case::Lib(s) => crate::lib_judge::judge(s),
        Case::Sched(s) => crate::sched::judge(s),
        Case::Poly(s) => crate::poly::judge(s),
        Case::Points(s) => crate::points::judge(s),
        Case::Edges(s) => crate::edges::judge(s),
        Case::Mesh(s) => crate::meshops::judge(s),
        Case::Cli(s) => crate::cli::judge(s),
    }
}

pub fn shrink(c: &Case) -> Vec<Case> {
    match c {
        Case::Lib(s) => genlib::shrink(s).into_iter().map(Case::Lib).collect(),
        Case::Sched(s) => crate::sched::shrink(s).into_iter().map(Case::Sched).collect(),
        Case::Poly(s) => crate::poly::shrink(s).into_iter().map(Case::Poly).collect(),
        Case::Points(s) => crate::points::shrink(s).into_iter().map(Case::Points).collect(),
        Case::Edges(s) => crate::edges::shrink(s).into_iter().map(Case::Edges).collect(),
        Case::Mesh(s) => crate::meshops::shrink(s).into_iter().map(Case::Mesh).collect(),
        Case::Cli(s) => crate::cli::shrink(s).into_iter().map(Case::Cli).collect(),
    }
}

pub fn prepare(prop: &str) {
    if ["P14", "P15", "P16", "P17"].contains(&prop) {
        crate::cli::prepare();
    }
}
pub fn cleanup() {
    crate::cli::cleanup();
}
