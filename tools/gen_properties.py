#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that the lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

A = "include/CoMMA/Agglomerator.h"; C = "include/CoMMA/CoMMA.h"; CC = "include/CoMMA/Coarse_Cell_Container.h"
S = "include/CoMMA/Seeds_Pool.h"; G = "include/CoMMA/Dual_Graph.h"; U = "include/CoMMA/Util.h"
CELL = "include/CoMMA/Coarse_Cell.h"
N = "include/CoMMA/Neighbourhood.h"; AR = "include/CoMMA/ARComputer.h"; B = "src/CoMMA.cpp"; ARGS = "include/CoMMA/Args.h"

p("P01", "Agglomeration terminates and yields a complete, gap-free partition",
  "For every symmetric fine graph and every accepted configuration the agglomeration call returns normally. Its result assigns exactly one coarse identifier to each fine cell. The identifiers used are exactly 0..n-1, each one owning at least one fine cell.",
  ["inputs", "configurations"],
  "All labelled graphs up to 5 nodes (6 thorough), all subsets of small 2D/3D grids and larger structured grids, connected or not, times seed orderings, aspect ratios, neighbourhood kinds, look-ahead depths, cardinalities, correction thresholds and anisotropic modes.",
  "The suite checks a dozen fixed meshes with a handful of configurations; which cells are left over, or which identifier is skipped, depends on the exact combination of connectivity, boundary counts, priorities and configuration.",
  [C, A, CC, S, G], [("seed loop and coarse-cell creation", A), ("coarse identifier bookkeeping and renumbering", CC), ("seed selection", S)])

p("P02", "Every coarse cell is connected",
  "In the result of any accepted agglomeration call, the fine cells sharing a coarse identifier induce a connected subgraph of the fine graph. This holds for isotropic and anisotropic coarse cells, before and after the correction of singular cells.",
  ["inputs", "configurations"],
  "Same enumerated space of graphs and configurations as P01, including disconnected graphs, graphs with holes, both neighbourhood kinds, every look-ahead depth and correction thresholds.",
  "A disconnected coarse cell needs a particular order of candidates or a particular correction move; fixed meshes with eyeballed expected partitions do not exercise those orders.",
  [A, CC, N], [("greedy growth by shared faces", A), ("correction moves", CC), ("candidate management", N)])

p("P03", "Cardinality limits hold and undersized cells are only unavoidable ones",
  "Without correction, no isotropic coarse cell has more fine cells than the maximum cardinality. One has fewer than the minimum only if all fine cells adjacent to it belong to coarse cells with smaller identifiers, that is, nothing was left to absorb when it was created.",
  ["inputs", "configurations"],
  "All enumerated graphs times all ordered cardinality triples in a small range (2..6 plus typical 3D values), seed orderings, neighbourhood kinds, look-ahead depths.",
  "The limit is only reached for particular leftovers; the tests assert sizes on meshes that divide evenly or use one triple.",
  [A, C], [("size selection in the growth loop", A), ("parameter passing", C)])

p("P04", "Correction absorbs singular coarse cells and changes nothing else",
  "Turning correction on must leave no isotropic coarse cell with at most the threshold number of fine cells adjacent to another isotropic coarse cell. Fine cells of any other coarse cell stay together with their original identifiers' relative order, two of those cells are never merged, and anisotropic coarse cells keep their content and identifiers.",
  ["inputs", "configurations"],
  "All enumerated graphs and configurations, comparing the corrected and uncorrected runs for thresholds 1..5 (also thresholds at or above the minimum cardinality).",
  "Correction rewrites identifiers while iterating over coarse cells that change under it; failures need several singular cells with particular adjacencies and thresholds above one, which no fixed mesh in the suite has.",
  [CC, C], [("correction loop and renumbering", CC)])

p("P05", "Exported anisotropic lines are consistent with the partition",
  "After an anisotropic call, the exported lines list every anisotropic coarse cell exactly once, in identifier order starting at 0, with well-formed offsets. Consecutive coarse cells of a line touch, each holds two fine cells, or three only at the end of a line when odd lengths are allowed, all of them compliant and above the anisotropy threshold. The fine cells taken from one line never exceed the requested maximum, and without a maximum at most the last cell of an odd line is left out.",
  ["inputs", "configurations"],
  "All stretched grids up to 6x6 and 3x3x4, all small weighted graphs with all compliant subsets, times odd flag, maximum line length (none, 1..7), threshold, coupling, direction flag, priorities and seed orderings.",
  "Interactions of odd lengths, maximum length and start side only show up for specific remainders; the suite has a few fixed line lengths.",
  [A, C, G], [("pairwise agglomeration along lines", A), ("export of lines", A), ("tagging of anisotropic cells", G)])

p("P06", "Line construction follows the documented rule",
  "Lines start from not-yet-used anisotropic cells in decreasing priority and extend at each step to the unused anisotropic neighbour with the strongest coupling (more than 90% of the cell's maximum), or, once a direction exists and must be kept, to the best aligned one within 20 degrees, strongly coupled neighbours first; ties go to the lower index. When one side stops, the line is extended from its starting cell in the opposite direction. Lines of one cell are discarded and the coarse cells pair up consecutive cells of each line.",
  ["inputs", "configurations"],
  "All stretched/skewed grid variants and all small weighted graphs with compliant subsets, times coupling kind, direction flag, threshold, priority patterns, neighbour orders.",
  "Expected lines are only pinned for a few axis-aligned meshes; bends, weak couplings, both-sided growth and ties need enumerated geometries and an independent reference.",
  [A, G, U], [("line building", A), ("cell tagging", G), ("direction tests", U)])

p("P07", "Provided anisotropic lines are agglomerated pairwise from the right end",
  "When lines are provided, each line with at least two cells is paired consecutively starting from the end with more boundary faces (capped at the dimension), then higher priority, then lower index; a trailing third cell joins the last pair if odd lengths are allowed and is otherwise left to the isotropic pass. Shorter lines are ignored, the maximum line length is respected, and the exported lines replace the provided ones in the same order. If the provided lines are unusable (missing, or all too short) the result is the purely isotropic one.",
  ["inputs", "configurations"],
  "All sets of disjoint simple paths on small path/grid graphs used as provided lines, in both directions, times boundary counts, priorities, odd flag and maximum length.",
  "The suite provides lines in one or two meshes only; the start side and remainders depend on ties between boundary counts, priorities and indices.",
  [A, C], [("line direction choice", A), ("provided line parsing", A)])

p("P08", "Seeds respect boundary, priority and neighbourhood ordering",
  "Without anisotropy and correction, coarse cell 0 contains the cell with the most boundary faces (capped at the dimension), ties broken by higher priority then lower index; with full initialisation every further coarse cell likewise contains the best-ranked remaining cell of the mesh's top boundary level as long as one is left. With boundary-first orderings every coarse cell k contains a cell whose boundary count is the largest among all cells of coarse cells k and above. With neighbourhood-first orderings, apart from those initial cells, every coarse cell touches an earlier one until no unagglomerated cell does, and each restart contains the best-ranked remaining cell of the highest remaining boundary level.",
  ["inputs", "configurations"],
  "All small graphs times all boundary-count vectors and all priority orders (with ties, zero and negative values), four seed orderings, several cardinalities.",
  "Expected seeds are pinned for one or two hand-made pools with positive, mostly distinct priorities.",
  [S, A], [("seed queues", S), ("seed pool update after each coarse cell", A)])

p("P09", "Coarse cells grow greedily by shared faces, distance, then aspect ratio",
  "With look-ahead 1, each isotropic coarse cell is obtained from one of its cells by repeatedly adding, among the candidates of the chosen neighbourhood kind, the one sharing most faces with the current set, then closest to the seed, then giving the smallest aspect ratio of the selected kind. Among the sizes between minimum and maximum cardinality reached on the way, a most compact one (largest minimum number of internal neighbours) is kept. If fewer cells than the goal cardinality are reachable, all of them are taken.",
  ["inputs", "configurations"],
  "All subsets of small grids (uniform and stretched, varying volumes/weights), all small weighted graphs, times ten aspect ratios, two neighbourhood kinds, four seed orderings and several cardinality triples; every coarse cell of every run is replayed against a reference model.",
  "Choosing a slightly worse neighbour still yields a valid partition, so the suite's structural expectations on regular meshes rarely notice.",
  [A, AR, N, G], [("best fine cell choice", A), ("aspect ratio computation", AR), ("candidates", N)])

p("P10", "Multi-level chaining preserves partitions, lines and totals",
  "Feeding the coarse graph and the exported lines of one level into the next one, for any sequence of per-level configurations, keeps every level a valid connected partition and the composed map a partition of the finest cells into connected groups. Total volume is preserved at each level. A line keeps its identity: its number of cells at the next level is half the one before, rounded down, until it has fewer than two cells.",
  ["histories", "configurations"],
  "All sequences of up to 4 (5 thorough) per-level configurations from an alphabet of cardinalities, seed orderings, odd flags and correction, started from a set of 2D/3D stretched grids, run to the coarsest level.",
  "Tests agglomerate two levels on one mesh; errors that only accumulate through exported lines or coarse attributes need longer, varied histories.",
  [A, C, U], [("line export and re-use", A), ("coarse graph building", U)])

p("P11", "The coarse graph is the exact quotient of the fine graph",
  "The coarse graph built from a fine graph and a partition has an edge between two coarse cells exactly when a fine edge crosses between them, weighted by the sum of the crossing fine weights, and no self edge. Volumes are summed, centres are volume-weighted averages, priorities are maxima (whatever their sign) and boundary counts are maxima of the fine ones. Previous content of the output vectors does not matter.",
  ["inputs"],
  "All labelled graphs up to 5 nodes times all set partitions, with distinct edge weights, volumes and positive, zero and negative priorities.",
  "The only test uses a uniform grid with unit weights and volumes, for which wrong indexing or wrong normalisation is invisible.",
  [U], [("coarse graph construction", U)])

p("P12", "Invalid arguments are rejected, valid ones accepted",
  "The agglomeration call throws std::invalid_argument exactly when the dimension is not 2 or 3, a cardinality is at most 1 or they are not ordered, the look-ahead is outside 1..4, the singular threshold is not positive, the row pointers, neighbours and weights have inconsistent sizes, non-empty provided lines do not match their index, or the seed ordering or aspect ratio kind is unknown. Every other combination is accepted.",
  ["inputs", "configurations"],
  "The full cross product of small ranges around every limit for all scalar arguments, all enumerators plus unknown ones, and all small array-size mismatches.",
  "Tests check one bad value per argument, with everything else valid; masking between checks and off-by-one limits need the cross product.",
  [C, A], [("sanity checks", C), ("aspect ratio selection", A)])

p("P13", "Equivalent inputs give the same coarse cells",
  "The result does not depend on the order in which compliant cells or (in isotropic calls; in anisotropic ones, for lines and their coarse cells) neighbours are listed, on duplicates in the compliant list, on reversing provided lines, on strictly increasing transformations of priorities, on translating, mirroring, uniformly scaling the mesh or swapping its two axes in 2D, on boundary counts above the dimension, on a singular threshold at or above the minimum cardinality instead of one below it, or on a non-positive limit instead of none for built lines. An anisotropy threshold t in (0,1] means the same as 1/t. In an isotropic call, renumbering cells with pairwise distinct priorities only renames cells.",
  ["inputs", "configurations"],
  "All small graphs and grids times all listed transformations (all neighbour-order permutations and renumberings for the smallest), on all seed orderings, aspect ratios, neighbourhood kinds.",
  "Tests fix one representation of each mesh.",
  [C, A, G, S, AR], [("argument normalisation", C), ("ordering of candidates and seeds", S)])

p("P14", "Calls are deterministic, history-independent and leave inputs alone",
  "A call's results depend only on its arguments: repeating it, preceding it by any other calls (including rejected ones) or passing non-empty output vectors gives identical results. Input arrays are never modified.",
  ["histories", "inputs"],
  "All sequences of three calls over an alphabet of diverse calls (isotropic, anisotropic, provided lines, invalid, coarse graph, helpers), compared with each call run in a fresh process; all pre-fill variants of outputs.",
  "Tests start every section from fresh empty outputs and do not compare repeated calls.",
  [C, A, U], [("output vectors handling", C)])

p("P15", "Concurrent calls on separate data do not interfere",
  "Two agglomeration calls running concurrently in different threads on separate outputs give the same results as when run one after the other, whatever the interleaving.",
  ["schedules"],
  "All interleavings with one preemption (two for the smallest calls) at any memory allocation (thorough: or release) of two calls drawn from an alphabet of 41 calls, executed on real threads under a controlled scheduler.",
  "Tests are single-threaded; shared mutable state would only show under particular interleavings.",
  [C, A, CC, S], [("absence of shared mutable state", C)])

p("P16", "All entry points and numeric types give the same result",
  "The call taking grouped arguments, the call taking separate arguments (with explicit or defaulted trailing arguments) and the Python functions return the same coarse cells and lines for the same data. So do instantiations with other integer types, and with other floating types where data and aspect ratios are exactly representable.",
  ["inputs", "configurations"],
  "Small graph and grid families times configurations that vary one or two arguments away from the defaults, through every entry point and six type instantiations.",
  "Tests use one type set, and the Python tests only check a couple of meshes; swapped or dropped forwarded arguments stay invisible while both values are equal or default.",
  [C, ARGS, B, U], [("argument forwarding", C), ("Python bindings", B)])

p("P17", "No undefined behaviour on valid inputs",
  "No accepted agglomeration call, coarse-graph construction or helper call reads or writes outside its data, uses freed memory, leaks, overflows or dereferences invalid iterators, on any valid input.",
  ["inputs", "configurations"],
  "Reduced versions of the spaces of P01, P04, P05, P07, P11, P23, P24 executed with address and undefined-behaviour sanitizers and library assertions.",
  "Tests run without sanitizers on inputs that do not reach the boundary cases.",
  [A, CC, G, S, U], [("iterator arithmetic along lines", A), ("renumbering during iteration", CC)])

p("P18", "A failed allocation surfaces as bad_alloc and leaves no damage",
  "If any single memory allocation during an agglomeration or coarse-graph call fails, the call throws std::bad_alloc (or, where the memory was dispensable, completes with its usual result), leaks nothing and leaves its inputs unmodified. Later calls behave normally.",
  ["fault_sequences"],
  "Every allocation index of every call in an alphabet covering isotropic, iterative, anisotropic (built/provided), corrected and coarse-graph calls.",
  "Tests never inject failures.",
  [C, A, CC], [("ownership through smart pointers and containers", A)])

p("P19", "Aspect ratios and cell features match their definitions",
  "Adding the cells of a coarse cell one at a time, in any order that keeps each addition adjacent, gives the number of shared faces with the current set and, for each aspect-ratio kind, the value of its definition computed on the whole set (diameter, minimum edge, measure, internal and external weights, barycentre distances). The value does not depend on the order of additions.",
  ["inputs", "histories"],
  "All connected cell sets of small 2D/3D grids and small weighted graphs, all connected insertion orders, ten aspect-ratio kinds (and the radius-based ones in dimensions 1, 4 and 5), non-unit volumes and weights, boundary faces.",
  "Tests evaluate a few additions on regular unit meshes, where several definitions coincide.",
  [AR, G], [("incremental features update", AR)])

p("P20", "The seeds pool behaves as an ordered multi-level queue",
  "For any sequence of insertions and seed requests following the initialisation, a requested seed is an unagglomerated cell, and one is returned exactly while some cell is left. Boundary-first pools return a cell of the highest remaining boundary level; neighbourhood-first pools return queued cells first, by level not above the current one, and otherwise restart from the best-ranked cell of the highest remaining level. Inserted groups are ordered by priority, then index.",
  ["histories"],
  "All operation sequences up to depth 5 (6 thorough) on pools of up to 5 cells, all boundary vectors and several priority vectors with ties and negatives, both kinds and both initialisations, plus patterned pools of up to 260 cells, compared with a reference model.",
  "Tests follow two scripted sequences.",
  [S], [("queues and levels", S)])

p("P21", "Neighbourhood candidates and distances are exact",
  "The computed neighbourhood of a seed set contains exactly the unagglomerated cells reachable through unagglomerated cells within the requested number of steps (extended while fewer than the maximum cardinality were found), with their step distance. While a coarse cell grows, an extended neighbourhood proposes exactly the allowed cells adjacent to it, earliest first, and a pure-front one the allowed neighbours of the last cell (all of them during the first steps, older fronts once empty), each once, by decreasing priority then index; copies evolve independently.",
  ["inputs", "histories"],
  "All graphs up to 5 nodes, all seed sets, agglomerated subsets, orders and cardinalities; all growth sequences for both kinds, through copies and from scratch, compared with reference models.",
  "Tests walk one path on one grid.",
  [N, G], [("candidate update", N), ("breadth-first neighbourhood", G)])

p("P22", "Local subgraph editing keeps a consistent graph",
  "After any sequence of node insertions and removals on a local subgraph, its adjacency is symmetric and equals the induced graph on the present nodes with the right weights, volumes, local-to-global map, size and compactness. The connectivity query tells whether that graph is connected, any number of times.",
  ["histories"],
  "All insertion/removal sequences up to depth 4 (7 thorough) over all global graphs of 4 nodes with distinct weights, shorter ones over 5 nodes, longer over 3, from every starting subset; all insertion orders through coarse cells.",
  "The test removes one node of degree one and inserts one node, and does not look at the adjacency.",
  [G], [("node insertion/removal in compressed rows", G)])

p("P23", "Wall distance is the graph distance to the wall",
  "The neighbourhood-based wall distance of each cell is the minimum number of edges to a wall cell, 0 on the wall and negative when no wall cell is reachable or the wall is empty, whatever the output vector held before.",
  ["inputs"],
  "All labelled graphs up to 5 nodes (6 thorough) times all wall subsets in several listing orders with duplicates, and larger grids.",
  "Tests use two grids with one wall.",
  [U], [("breadth-first search", U)])

p("P24", "Cell filtering and compactness queries are exact",
  "Filtering by number of edges returns, in increasing order, exactly the cells whose neighbours plus boundary faces is in the requested positive set, and nothing when no positive value is requested. The compactness of a cell set is the smallest number of neighbours a member has inside the set (0 for a single cell), and the cells around a set are exactly its unagglomerated outside neighbours.",
  ["inputs"],
  "All labelled graphs up to 5 nodes times boundary vectors, requested sets, all cell subsets and agglomerated subsets, plus patterned meshes of up to 70001 cells.",
  "Tests use one grid.",
  [U, G], [("filter", U), ("compactness and neighbourhood of a set", G)])

p("P25", "A corrected cell goes to the neighbour that suits it best",
  "Correction treats the too small isotropic coarse cells in identifier order, each seeing the outcome of the previous ones. One of several fine cells first joins, as a whole, the smallest adjacent isotropic coarse cell (then lowest identifier) among those whose compactness it increases. Otherwise its fine cells move one by one to the adjacent isotropic coarse cell chosen by: compactness increased, most shared faces, smallest, lowest identifier.",
  ["inputs", "configurations"],
  "The graph and grid families of P01 with thresholds 1, 2 and 4, replaying the correction of the uncorrected result in a reference model (all orders of moving the fine cells of one coarse cell are accepted).",
  "Any neighbouring cell gives a plausible partition; tests contain one or two corrected cells.",
  [CC], [("choice of the receiving coarse cell", CC)])

p("P26", "Legacy containers keep their contract",
  "The deprecated queue is first-in first-out and its priority pairs order by decreasing first then increasing second member. The deprecated two-way map keeps both directions consistent under insertion of fresh keys, key updates and erasure.",
  ["histories"],
  "All operation sequences up to depth 6 over small key sets and patterned ones on up to 300 entries, compared with standard containers.",
  "Tests follow one scripted sequence per container.",
  ["include/CoMMA/deprecated/Queue.h", "include/CoMMA/deprecated/Priority_Pair.h", "include/CoMMA/deprecated/Bimap.h"], [("legacy containers", "include/CoMMA/deprecated")])

p("P27", "Look-ahead chooses the cell that opens the best continuation",
  "With a look-ahead of several iterations, the fine cell added next to a growing coarse cell is one with the highest score: the larger of the number of its faces shared with the coarse cell and the number the cell following it, chosen in the same way with one iteration less, would then share. Among equal scores it is one closest, in steps, to the starting cell; of those whose following cell does not share exactly as many faces as they do, one giving the smallest aspect ratio of the selected kind is preferred, and further ties are left open.",
  ["inputs", "configurations"],
  "Small graphs and grid subsets with look-ahead 2 to 4, all aspect ratios the model covers, both neighbourhood kinds; every coarse cell must be a possible outcome of the reference growth.",
  "Tests run a deeper look-ahead on one mesh and compare with a fixed partition.",
  [A], [("recursive choice of the next cell", A)])

p("P28", "Containers of coarse cells keep exact books",
  "Every coarse cell created is recorded once: its identifier is the number of those created before it and is returned, its fine cells are marked agglomerated and mapped to it, and the counts follow. Delayed coarse cells mark their fine cells at once but get identifiers, in order of request, only when all delayed ones are created. After a correction, which changes nothing when repeated, the stored coarse cells are counted and numbered without gaps, know their numbers, and each holds exactly the fine cells mapped to it, with its cardinality, compactness and kind.",
  ["histories", "inputs"],
  "All sequences of creations (isotropic, anisotropic, delayed) of disjoint connected sets on all small graphs, then corrections with every threshold up to 4, plus gathered corrections on larger shapes.",
  "Tests create two or three coarse cells and read a few fields.",
  [CC, "include/CoMMA/Coarse_Cell.h"], [("creation and renumbering", CC), ("content of one coarse cell", "include/CoMMA/Coarse_Cell.h")])

p("P29", "Seeds follow the queue fed by each coarse cell",
  "Each isotropic coarse cell grows from the cell the seed ordering designates: after each one, its unagglomerated neighbouring fine cells are queued by distance from its starting cell (those beyond the searched distance last), then boundary level, priority and index, and neighbourhood-first orderings take the next seed from that queue. Next to anisotropic lines the queue is fed in line order before the isotropic pass.",
  ["inputs", "configurations"],
  "Small graphs, grid subsets and line meshes times all seed orderings, neighbourhood kinds and cardinalities: the starting cell of every coarse cell of every run is predicted and must be compatible with the coarse cell.",
  "The partition shows starting cells only indirectly; tests compare a few partitions.",
  [A, S], [("queue update after each coarse cell", A), ("seed orderings", S)])

p("P30", "The call does what its classes do, with the documented defaults",
  "The agglomeration call gives the same partition and lines as building the seeds pool, graph, container, anisotropic and isotropic agglomerators by hand and running them in the documented order, and the isotropic agglomerator returns that partition. A cardinality given as zero stands for the default of the dimension (2D: goal 4, minimum 3, maximum 5; 3D: 8, 6, 10). A dimension other than 2 or 3 and an unknown aspect ratio are refused with an exception.",
  ["inputs", "configurations"],
  "The small graph and grid families times seed orderings, aspect ratios, cardinalities including zeros, corrections, anisotropic modes.",
  "Tests use either the call or the classes, never both on the same input, and mostly explicit cardinalities.",
  [C, A], [("assembly of the classes", C), ("default cardinalities", A)])

p("P31", "Queries of the dual graph are exact",
  "For every cell the graph returns its neighbours and edge weights in the given order (as vectors and iterators), their number, its boundary faces and whether there are any, total faces as neighbours plus boundary faces, and weights in which each boundary face is estimated by the mean weight of the cell's faces. Centre directions are unit vectors returned with the distance. The connectivity query tells whether the graph is connected, any number of times.",
  ["inputs"],
  "All labelled graphs up to 5 nodes (6 thorough) with ten attribute patterns, all subsets of a 3x3 grid with and without self entries, larger meshes.",
  "Tests query single cells of one or two meshes.",
  [G], [("graph queries", G)])

p("P32", "Helper functions and comparators match their definitions",
  "The pair comparators order by second value and, for equal second values, take the lower first value as the greater; the second-based one ignores first values, and search by first value, list of first values and set of keys are exact. Dot product, squared distance, unit direction with its length, squares, cubes and integer powers equal their definitions, and two directions deviate when the angle between them, up to sign, exceeds 20 degrees.",
  ["inputs"],
  "All triples and all sequences up to length 5 (6 thorough) over alphabets of pairs, all pairs of vectors over a set of values in 1 to 3 dimensions and two precisions, every hundredth of a degree, powers 0 to 7 of 276 values, long vectors and lists of up to 1000 pairs.",
  "Tests evaluate one or two values, and integer powers not at all.",
  [U], [("functors and vector helpers", U)])

p("P33", "The size kept for a coarse cell is the most compact one",
  "Among the sizes from minimum to maximum cardinality a growing coarse cell passes through, the one kept has the highest compactness, then the lowest number of external faces minus number of cells, then the goal cardinality if it is among the equal ones, otherwise the largest. The compactness reported with the coarse cell is that of its cells.",
  ["inputs", "configurations"],
  "Coarse cells grown from every free cell of all small graphs with every agglomerated subset and many cardinality triples, requests on larger shapes, and whole runs on small graphs and grid subsets.",
  "Tests use cardinalities for which only one size is possible, or regular meshes on which the goal is best.",
  [A], [("choice among recorded sizes", A)])

p("P34", "The legacy tree keeps ordered sons under insertion and deletion",
  "Sons are appended to the root, or to the first son of the root with the given index, and deletion removes the first son of the root with the given index, or nothing. After any sequence of operations each father's sons form a doubly linked list in order of insertion with the right fathers, count and volumes. Search from the first son finds the first with the index or nothing.",
  ["histories"],
  "All sequences of up to 6 (7 thorough) operations out of 15 over three indices, two root indices, and patterned sequences with up to 100 sons, compared with ordered lists after every operation.",
  "The only test of the tree is disabled.",
  ["include/CoMMA/deprecated/Tree.h"], [("links between sons", "include/CoMMA/deprecated/Tree.h")])

p("P35", "Cells are tagged anisotropic by ratio, mode and order",
  "Exactly the compliant cells whose largest over smallest face weight (its square root in 3D) reaches the threshold are tagged, all of them when the threshold is negative, and the pool lists them by decreasing priority, then index. Boundary-layer preservation for 2D (3D) with a non-negative threshold keeps only those with 4 (6) neighbours, or 3 (5) and a boundary face. The reference weight of each compliant cell is its largest face weight or, when coupling by distance, its largest inverse squared centre distance, and the alternative weights hold those inverses.",
  ["inputs", "configurations"],
  "All labelled graphs up to 4 nodes (5 thorough) with every compliant set, cells with up to 7 neighbours and every weighting of their faces, hubs of up to 64, grids with self entries, times thresholds, couplings and preservation modes.",
  "Tests tag one mesh and only without preservation.",
  [G], [("tagging", G)])

p("P36", "Settings act only on the part of the call they are about",
  "An isotropic call ignores every anisotropic setting and returns the given lines unchanged, and without correction the singular threshold is ignored. In an anisotropic call, exported lines and their coarse cells do not depend on seed ordering, cardinalities, aspect ratio, neighbourhood kind, look-ahead or correction; lines given as input are ignored when lines are built, and anisotropy threshold, compliant cells, coupling and direction flag when lines are provided. When no line results, the partition is that of the isotropic call.",
  ["inputs", "configurations"],
  "Every call of the common universe of small graphs, grids, built and provided lines, times nineteen changes of settings that do not apply to it.",
  "Tests never repeat a call with an irrelevant setting changed.",
  [C, A], [("use of arguments", C), ("anisotropic pass", A)])

p("P37", "Separate pieces of a mesh are agglomerated independently",
  "With full initialisation, the coarse cells and exported lines of each connected piece of a mesh are, in the same order, those obtained by agglomerating the piece alone. With one-point initialisation and no lines this holds for the piece holding the first seed, and every other piece behaves as alone with full initialisation. Lines and their coarse cells are those of the piece alone in all cases.",
  ["inputs", "configurations"],
  "Every disconnected mesh of the common universe, all pairs of connected graphs up to 5 nodes (6 thorough) and triples up to 4 nodes up to isomorphism, pairs of larger shapes, two numberings, lines built and provided in several pieces, all seed orderings.",
  "Tests use connected meshes, apart from two fixed ones.",
  [C, A, S], [("seed queues", S), ("restarts", S)])

p("P38", "Overridden settings are reported, other calls are silent",
  "A call that returns normally writes a message if and only if the singular threshold is not below the minimum cardinality, lines are to be built with a null limit, an unknown coupling, or without compliant cells, lines to be provided are missing or all shorter than two cells, or no line can be built. Otherwise it writes nothing.",
  ["inputs", "configurations"],
  "Every call of the common universe of small graphs, grids, built and provided lines, times settings that are overridden or not.",
  "Tests do not look at the output of the library.",
  [C, A], [("argument normalisation", C), ("line construction", A)])

p("P39", "A coarse cell knows its cells, compactness and connectivity",
  "After its creation and any sequence of insertions of single fine cells or groups, with their new compactness given or left to be computed, a coarse cell holds exactly the cells put into it, with the right cardinality, compactness and kind. Asked whether it is connected it answers for the set it holds, a single fine cell being connected. The variant holding a subgraph keeps it in step, and what it remembers as up to date about its connectivity is right.",
  ["histories", "inputs"],
  "All small graphs, starting sets and ordered groups of cells inserted afterwards, and larger shapes, for both classes of coarse cells.",
  "No test asks a coarse cell whether it is connected; a single cell or two separate dense groups are needed to tell compactness from connectivity.",
  [CELL, G], [("coarse cells", CELL), ("compactness of sets", G)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
