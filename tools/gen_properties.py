#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
I = "include/CoMMA/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": [I + f if not f.startswith("src") else f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["return values / output arguments of the public function"]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ALLG = ("every undirected graph (connected or not, with isolated cells), every positive face weight and volume, "
        "every cell centre, every priority (any sign, ties included), every boundary-face count, and every accepted "
        "combination of options")

prop("C01", "Agglomeration yields a total, contiguous partition",
     "For every accepted input the agglomeration terminates without error and gives each fine cell exactly one coarse "
     "cell. The coarse identifiers used are exactly 0..N-1, none skipped and none out of range. This holds with and "
     "without the anisotropic pass and with and without the correction pass.",
     ["inputs", "configurations"], ALLG + ".",
     "The existing tests run a few hand-made meshes with one ordering and positive descending priorities; they cannot "
     "quantify over topologies, orderings, ties and option combinations.",
     ["CoMMA.h", "Agglomerator.h", "Coarse_Cell_Container.h", "Seeds_Pool.h"],
     [("main loop until all cells are agglomerated", "Agglomerator_Isotropic::agglomerate_one_level"),
      ("identifier assignment and renumbering", "Coarse_Cell_Container::create_cc / correct"),
      ("fallback queues of the seeds pool", "Seeds_Pool*::choose_new_seed")],
     [("fine-to-coarse map", "coarse identifier of each fine cell", "Coarse_Cell_Container")],
     ["fc_to_cc output of agglomerate_one_level"])

prop("C02", "Every coarse cell is a connected set of fine cells",
     "In the result of an agglomeration the fine cells of each isotropic coarse cell induce a connected subgraph of the "
     "input graph, and so do those of each coarse cell coming from a line whose consecutive cells are neighbours. "
     "Correction never breaks this.",
     ["inputs", "configurations"], ALLG + ".",
     "Tests compare a handful of results with literal expectations; a growth or correction step that attaches a "
     "non-adjacent cell only shows for specific orderings and ties.",
     ["Agglomerator.h", "Neighbourhood.h", "Coarse_Cell_Container.h", "Dual_Graph.h"],
     [("candidates are face neighbours of the growing cell", "Neighbourhood_Extended/Pure_Front::update_it"),
      ("whole-region shortcut when few cells are left", "Agglomerator_Biconnected::choose_optimal_cc_and_update_seeds_pool"),
      ("moves go to adjacent coarse cells only", "Coarse_Cell_Container::correct")],
     None, ["fc_to_cc output of agglomerate_one_level"])

prop("C03", "Coarse cell sizes respect the requested cardinalities",
     "Without correction, no isotropic coarse cell has more fine cells than the requested maximum. An isotropic coarse "
     "cell may be smaller than the requested minimum only if it took every fine cell still available around it, hence "
     "two isotropic coarse cells that touch are never both below the minimum.",
     ["inputs", "configurations"], ALLG + ", for every ordered triple of cardinalities.",
     "Tests check sizes on regular meshes where the goal size is always reachable; the leftover situations depend on "
     "the order in which cells are consumed.",
     ["Agglomerator.h", "Dual_Graph.h"],
     [("choice of the final size between minimum and maximum", "Agglomerator_Biconnected::choose_optimal_cc_and_update_seeds_pool"),
      ("neighbourhood search until maximum cardinality", "Dual_Graph::compute_neighbourhood_of_cc")],
     None, ["fc_to_cc output of agglomerate_one_level"])

prop("C04", "Correction absorbs singular cells and nothing else",
     "With correction on, any two fine cells that were together in a coarse cell larger than the singularity threshold "
     "(or in an anisotropic one) stay together and such coarse cells only gain cells, anisotropic ones gain none. Afterwards no "
     "isotropic coarse cell at or below the threshold touches another isotropic coarse cell; coarse cells made of "
     "untouched cells keep their relative numbering.",
     ["inputs", "configurations"], ALLG + ", for every singularity threshold from one to the minimum cardinality.",
     "The tests call the correction on four small fixed partitions; partial moves, chains of singular cells, cells with "
     "only anisotropic neighbours and the renumbering afterwards are history dependent.",
     ["Coarse_Cell_Container.h", "Coarse_Cell.h", "CoMMA.h"],
     [("selection of the receiving coarse cell", "Coarse_Cell_Container::select_best_cc_to_agglomerate(_whole)"),
      ("removal and renumbering", "Coarse_Cell_Container::correct"),
      ("threshold clamping", "agglomerate_one_level")],
     [("singular cells", "coarse cells created at or below the threshold", "Coarse_Cell_Container")],
     ["fc_to_cc with and without correction"])

prop("C05", "Given anisotropic lines are coarsened pairwise in order",
     "When lines are given, each line with at least two cells is cut, from the end with more boundary faces (then "
     "higher priority, then smaller index), into consecutive pairs; a last odd cell joins the last pair when odd groups "
     "are allowed and is otherwise left to the isotropic pass. If a maximum number of cells per line is set, the line "
     "never uses more cells than that and the remaining ones are left to the isotropic pass. These groups are exactly "
     "the anisotropic coarse cells, numbered in line order before all others.",
     ["inputs", "configurations"],
     "every set of disjoint lines over every graph, every boundary count and priority, both parities, every line limit "
     "including odd limits and limits of one, both settings for odd groups.",
     "Tests use one limit and lines of a few lengths; the limit is combined with only one parity.",
     ["Agglomerator.h", "CoMMA.h"],
     [("pairwise loop with odd tail and limit", "Agglomerator_Anisotropic::agglomerate_one_level"),
      ("direction of traversal", "Agglomerator_Anisotropic::agglomerate_one_level")],
     None, ["fc_to_cc and the lines returned by agglomerate_one_level"])

prop("C06", "Built lines use only eligible cells, once each, face to face",
     "When lines are built, only cells declared compliant whose face-weight ratio reaches the threshold (all compliant "
     "ones for a negative threshold; a threshold in (0,1] counts as its inverse) belong to lines, each to at most one, consecutive "
     "cells of a line share a face, and every line has two cells or more. Two eligible neighbours strongly coupled to each other are never "
     "both left out, and a line stops only where no free eligible cell strongly coupled to its end continues it. With straight "
     "lines requested successive steps of a line never deviate by more than 20 degrees, otherwise every step follows a strong coupling.",
     ["inputs", "configurations"],
     "every graph, every face weight, centre, threshold, set of compliant cells, coupling kind and direction option.",
     "Tests look at three fixed stretched meshes; weights near the dominance and threshold limits, ties and cells with "
     "several dominant faces are not reached.",
     ["Agglomerator.h", "Dual_Graph.h", "Util.h"],
     [("tagging of anisotropic cells", "Dual_Graph::tag_anisotropic_cells"),
      ("line growth in two directions", "Agglomerator_Anisotropic::build_anisotropic_lines"),
      ("candidate filters", "find_cell_candidates_for_line_max_weight / _direction")],
     None, ["anisotropic coarse cells and exported lines"])

prop("C07", "Returned lines describe the new level and can be fed back",
     "The lines returned by an anisotropic agglomeration are a well-formed index/value pair: indices start at zero, "
     "never decrease and end at the number of values. Every value is the identifier of an anisotropic coarse cell of the "
     "new level, each such coarse cell appears exactly once, and successive values in a line are adjacent coarse cells "
     "when the original line cells were. Lines are emptied when the requested anisotropic pass found no usable line; feeding the returned lines "
     "to the next level is accepted.",
     ["inputs", "configurations", "histories"],
     "every graph, line set and option, over one and two successive agglomeration levels, with and without correction.",
     "Tests check the lines of single-level runs on fixed meshes.",
     ["Agglomerator.h", "CoMMA.h", "Coarse_Cell_Container.h"],
     [("export of lines at the coarse level", "Agglomerator_Anisotropic::export_anisotropic_lines"),
      ("stability of anisotropic identifiers under correction", "Coarse_Cell_Container::correct")],
     None, ["agglomerationLines_Idx / agglomerationLines outputs"])

prop("C08", "Invalid arguments are rejected, valid ones accepted",
     "A call is refused with an invalid-argument error exactly when the dimension is not 2 or 3, a cardinality is below "
     "two or they are not ordered, the choice-iteration count is outside 1..4, the compressed graph sizes disagree, "
     "given lines have inconsistent sizes, the singularity threshold is not positive, or the seed ordering or "
     "aspect-ratio kind is unknown. A refused call leaves the output mapping untouched; any other call succeeds.",
     ["inputs", "configurations"], "all machine-integer values of every scalar option and all sizes of the arrays.",
     "Tests try a few literal bad values one at a time; they cannot show that no other value is refused or accepted.",
     ["CoMMA.h", "Agglomerator.h"],
     [("sanity checks", "agglomerate_one_level"),
      ("unknown aspect ratio", "Agglomerator_Isotropic constructor")],
     None, ["exception type, outputs after the call"])

prop("C09", "Seeds are consumed in the requested order",
     "Without lines, the first coarse cell contains the cell with most boundary faces, ties broken by highest priority then "
     "lowest index. With boundary ordering every later coarse cell contains a cell whose boundary-face count is maximal "
     "among the cells not yet agglomerated; with one-point neighbourhood ordering every later coarse cell contains a "
     "cell touching the already agglomerated region, until none is left, and the next one then contains the best seed, "
     "in the same sense, of the cells left. After lines, boundary ordering follows the same rule for later coarse cells and "
     "neighbourhood ordering starts with a coarse cell containing a cell that touches them, if one is left.",
     ["inputs", "configurations"], ALLG + ", for the four seed orderings.",
     "Tests fix the priorities so that they follow the numbering, hence ordering mistakes are invisible.",
     ["Seeds_Pool.h", "CoMMA.h", "Agglomerator.h", "Util.h"],
     [("queues by boundary count", "Seeds_Pool_Boundary_Priority / Seeds_Pool_Neighbourhood_Priority"),
      ("initial queue", "SPFullInitializator / SPOnePointInitializator")],
     [("current queue level", "boundary count currently served", "Seeds_Pool")],
     ["membership of the coarse cells in identifier order, without correction"])

prop("C10", "A coarse cell grows by its best available neighbour",
     "When a coarse cell is grown step by step (single-step choice), each added fine cell is, among the available "
     "candidate neighbours, one sharing the largest number of faces with the cell under construction; among those one closest to the "
     "seed, and among those one giving the smallest value of the requested aspect-ratio measure. What still ties goes to the "
     "candidate proposed first: discovered earlier, then of higher priority, then of lower index.",
     ["inputs", "configurations"], "every graph, volumes, weights, centres and priorities, for the aspect-ratio kinds.",
     "Tests use uniform meshes where most candidates tie; a wrong comparison or a wrong measure rarely changes them.",
     ["Agglomerator.h", "ARComputer.h", "Neighbourhood.h"],
     [("lexicographic choice", "Agglomerator_Biconnected::compute_best_fc_to_add"),
      ("candidates", "Neighbourhood_Extended::update_it")],
     None, ["first coarse cell of a result with fixed cardinality"])

prop("C11", "All entry points mean the same and calls do not interfere",
     "Calling the structured-arguments interface, or driving the steps one by one, is equivalent to calling the flat interface with the same values, and "
     "default options equal their documented explicit values; what one refuses the other refuses. Repeating a call gives the same result and no input is "
     "modified.",
     ["inputs", "configurations", "histories"], "all option values and all inputs of the graphs in the bound.",
     "One test compares the two interfaces with default options, where swapped options are invisible.",
     ["CoMMA.h", "Args.h"],
     [("forwarding of arguments", "agglomerate_one_level (GraphArgs, AgglomerationArgs, AnisotropicArgs)"),
      ("constructors of the argument structures", "Args.h")],
     None, ["fc_to_cc and lines of both interfaces"])

prop("C12", "Boundary counts above the dimension act as the dimension",
     "Replacing every boundary-face count that exceeds the space dimension by the dimension changes nothing in the "
     "result, whatever the input counts.",
     ["inputs", "configurations"], "all non-negative counts, all graphs in the bound, all seed orderings.",
     "No test passes a count above the dimension together with all orderings.",
     ["CoMMA.h", "Seeds_Pool.h"],
     [("clamping", "agglomerate_one_level")], None, ["fc_to_cc"])

prop("C13", "Neighbourhood search returns exact graph distances",
     "The neighbourhood of a set of cells contains exactly cells reachable through not-yet-agglomerated cells, each with "
     "its exact distance in steps; it contains every such cell up to the requested order, and continues until the "
     "maximum cardinality is available or nothing is left. The direct neighbourhood of a set is exactly the "
     "not-yet-agglomerated cells touching it.",
     ["inputs"], "every graph, seed set, agglomeration state, order and maximum cardinality in the bound.",
     "Tests check three seeds on two meshes.",
     ["Dual_Graph.h"],
     [("breadth-first layers", "Dual_Graph::compute_neighbourhood_of_cc"),
      ("direct neighbours", "Dual_Graph::get_neighbourhood_of_cc")], None,
     ["returned map / set"])

prop("C14", "Growth candidates are exactly the admissible neighbours",
     "While a coarse cell grows, the extended neighbourhood proposes each admissible cell touching the current cell exactly once "
     "and never a member, with cells discovered earlier first and same-step discoveries by decreasing priority then "
     "increasing index. The pure-front neighbourhood proposes only such cells too: all of them at first, later those touching the latest cell that has any, or else "
     "the oldest, the second latest, and so on.",
     ["inputs", "histories"], "every graph, admissible set, priorities and growth sequence in the bound.",
     "Tests follow one growth sequence per kind.",
     ["Neighbourhood.h", "Util.h"],
     [("update after each added cell", "Neighbourhood_Extended::update_it / Neighbourhood_Pure_Front::update_it"),
      ("independent copies", "NeighbourhoodCreator::clone")], None, ["get_candidates"])

prop("C15", "Incremental cell features and aspect ratios match their definition",
     "After any sequence of additions the tracked features of a coarse cell (measure, inner and outer face weight, inner "
     "face count, largest and smallest centre distance, barycentre, outer faces of each cell) equal those computed from scratch from its fine cells, and the "
     "aspect-ratio value is the documented formula of those features.",
     ["inputs", "histories"], "every graph, volume, weight, centre and growth sequence in the bound, for each aspect-ratio kind.",
     "Tests use unit squares and cubes where many formulas coincide.",
     ["ARComputer.h", "Dual_Graph.h", "Util.h"],
     [("incremental update", "ARComputer::update_basic_features / update_approximated_geometric_features"),
      ("formulas", "AR* classes")], None, ["features and aspect ratio returned by each computer"])

prop("C16", "Priority comparisons are strict orders",
     "The comparisons used to order cells are strict orders: irreflexive, asymmetric, transitive and, for the two custom "
     "pair orders, total up to equality, being exact converses of each other. Higher priority comes first and ties "
     "are broken by the lower index.",
     ["inputs"], "all indices and all non-NaN priorities.",
     "Tests compare three literal pairs.",
     ["Util.h"], [("comparison functors", "CustomPairGreaterFunctor / CustomPairLessFunctor / PairSecondBasedLessFunctor")],
     None, ["functor results"])

prop("C17", "Wall distance is the graph distance to the wall",
     "The neighbourhood-based wall distance of a cell is the minimal number of steps to a wall cell, zero exactly on the wall, and negative exactly for cells not connected to "
     "any wall cell or when there is no wall.",
     ["inputs"], "every graph and every set of wall cells in the bound (any order, repeated entries allowed).",
     "Tests use two meshes and three walls.",
     ["Util.h"], [("breadth-first traversal", "compute_neighbourhood_based_wall_distance")], None, ["dist output"])

prop("C18", "Filtering by edge count keeps exactly the allowed cells",
     "Filtering cells by edge count returns, in increasing order and without repetition, exactly the cells whose number "
     "of neighbours plus boundary faces is one of the allowed positive values; previous content of the output is discarded.",
     ["inputs"], "every graph, boundary counts and set of allowed values in the bound.",
     "Tests use three literal sets on one mesh.",
     ["Util.h"], [("filter", "filter_cells_by_n_edges")], None, ["filtered output"])

prop("C19", "The coarse graph conserves the fine graph",
     "The coarse graph built from a fine graph and a partition has, per coarse cell, the sum of the volumes, the "
     "volume-weighted mean of the centres, the maximum priority and the maximum boundary count of its fine cells. Two "
     "coarse cells are adjacent exactly when some of their fine cells are, the face weight is the sum of the fine face weights "
     "between them, and the adjacency is symmetric, sorted and free of self loops.",
     ["inputs"], "every graph, partition, volumes, weights, centres, priorities of any sign and boundary counts in the bound.",
     "The only test has unit weights, unit volumes and positive priorities.",
     ["Util.h"], [("accumulation over fine cells and faces", "build_coarse_graph")], None, ["output arrays"])

prop("C20", "The seeds pool serves every cell, in the order due",
     "For any history of updates and agglomerations a seeds pool, once initialised, returns a not-yet-agglomerated cell as long as one "
     "exists and nothing otherwise: the first waiting one of the level served (boundary ordering) or of the highest level not above it "
     "(neighbourhood ordering), otherwise those with most boundary faces by decreasing priority, then increasing index. With boundary ordering the returned cell has the maximal "
     "boundary count among the remaining ones; seeds added together wait by decreasing boundary count, decreasing priority and increasing index.",
     ["histories", "inputs", "configurations"],
     "every history up to the bound of adding seeds and agglomerating cells, every boundary count and priority, both pools, both initialisations.",
     "Tests run six scripted histories.",
     ["Seeds_Pool.h"],
     [("queue draining and rebuild", "Seeds_Pool::spoil_queue / build_queue / choose_new_seed")],
     [("queues by boundary count", "seeds waiting per level", "Seeds_Pool")], ["choose_new_seed"])

prop("C21", "Accepted inputs never cause an invalid memory access",
     "Processing an accepted input never reads or writes outside a container, dereferences an end or invalidated position, reads an "
     "empty optional or trips an internal assertion, in any of the public functions.",
     ["inputs", "configurations"], ALLG + ".",
     "Tests run without bounds checking on meshes that do not exercise short lines, isolated cells or empty queues.",
     ["Agglomerator.h", "Dual_Graph.h", "Seeds_Pool.h", "Coarse_Cell_Container.h", "Neighbourhood.h", "Util.h"],
     [("loop bounds and emptiness tests", "all of them")], None, ["process termination, bounds-checked containers"])

prop("C22", "Editing a subgraph keeps it a consistent graph",
     "Adding a node to a subgraph adds it, its volume and, for every given neighbour present in the subgraph, an edge in both directions with the given "
     "weight, and nothing else; removing a node removes exactly that node and its edges and "
     "renumbers the others consistently. The number of nodes, the compactness and the answer about connectivity follow the edits.",
     ["inputs", "histories"], "every subgraph, weights and node in the bound.",
     "One test adds a node and checks only the mapping, one removes a node and checks nothing.",
     ["Dual_Graph.h", "Coarse_Cell.h"],
     [("insertion", "Subgraph::insert_node"), ("removal", "Subgraph::remove_node")], None,
     ["compressed rows, columns, values, volumes and mapping of the subgraph"])

prop("C23", "Compactness is the minimal inner degree",
     "The compactness of a set of fine cells is the smallest number of faces any of them shares with the others of the set "
     "(zero for a single cell), and the per-cell values are the inner degrees.",
     ["inputs"], "every graph and every set of cells in the bound.",
     "Tests use three sets on two meshes.",
     ["Dual_Graph.h"],
     [("inner degrees", "Graph::compute_fc_compactness_inside_a_cc / compute_min_fc_compactness_inside_a_cc")], None,
     ["returned value and map"])

prop("C24", "Only the order of priorities matters",
     "Two calls whose priorities induce the same ordering (ties included) of the cells give the same result, and relabelling "
     "priorities never changes which inputs are accepted.",
     ["inputs", "configurations"], "every pair of order-isomorphic priority assignments on the graphs in the bound, including negative and zero priorities.",
     "Needs pairs of related executions; the tests use one assignment.",
     ["Seeds_Pool.h", "Agglomerator.h", "Neighbourhood.h", "Util.h"],
     [("comparisons of priorities", "CustomPairGreaterFunctor, SPOnePointInitializator, traversal direction of lines")],
     None, ["fc_to_cc and lines of both calls"])

prop("C25", "The Python module forwards every argument unchanged",
     "Calling a function of the Python module, by position, by keyword or leaving out trailing arguments, is equivalent to calling the C++ function with "
     "the same values or its documented defaults, and returns what that one produces. Every enumerator of the module stands for the "
     "C++ one of the same meaning.",
     ["inputs", "configurations"], "all option values and inputs of the graphs in the bound.",
     "The Python test compares one configuration per option.",
     ["src/CoMMA.cpp"], [("functions, argument names, defaults and enumerators registered with the module", "src/CoMMA.cpp")], None, ["returned tuple"])

prop("C26", "Direction and distance helpers compute what they say",
     "The squared distance of two points is symmetric, non-negative and zero exactly for equal points; the direction from one "
     "distinct point to another has unit length, points from the first to the second and comes with their distance; the deviation test is true "
     "exactly when the absolute cosine is below the documented limit.",
     ["inputs"], "all coordinates in two and three dimensions in the bound.",
     "Not tested directly.",
     ["Util.h"], [("helpers", "squared_euclidean_distance / get_direction / dot_product / dot_deviate")], None, ["returned values"])

prop("C27", "A singular coarse cell joins the neighbour it fits best",
     "With correction on, each fine cell left alone is given to a neighbouring isotropic coarse cell: one that becomes more compact with it when there is any, "
     "otherwise one sharing most faces with it; a larger group at or below the threshold moves whole to one that becomes more compact with it, or else cell by cell. Ties go to the coarse cell "
     "with fewest fine cells, then to the lowest number, and singular coarse cells are treated in the order of their numbers.",
     ["inputs", "configurations"], ALLG + ".",
     "The tests call the correction on fixed partitions in which a lone cell has one sensible receiver.",
     ["Coarse_Cell_Container.h", "Coarse_Cell.h"],
     [("choice of the receiver", "Coarse_Cell_Container::select_best_cc_to_agglomerate / _whole")], None,
     ["fc_to_cc with and without correction"])

prop("C28", "A coarse cell takes the most compact of its possible sizes",
     "A growing coarse cell may stop at any size between the minimum and the maximum cardinality. The size kept is the one of "
     "highest compactness (smallest number of inner neighbours of a member), then with fewest faces towards the outside and "
     "the domain boundary. Among what still ties the goal size is kept if met, otherwise the largest size.",
     ["inputs", "configurations"], "every graph, boundary-face counts, priorities and accepted cardinalities.",
     "Most tests use equal minimum, goal and maximum cardinalities or grids where one size is plainly the best.",
     ["Agglomerator.h"],
     [("choice of the best cardinality", "Agglomerator_Biconnected::choose_optimal_cc_and_update_seeds_pool"),
      ("count of outer faces", "Agglomerator_Biconnected")],
     None, ["sizes and members of the coarse cells of a result"])

prop("C29", "Built lines are exactly those given by the documented rules",
     "Lines are started from eligible cells by decreasing priority, then increasing index, and extended from their last cell, then from "
     "their first one. Each step takes the free eligible neighbour of strongest coupling among those above 90 % of the strongest of the end; "
     "once a straight line has a direction, the best aligned one within 20 degrees, strongly coupled ones first. Lines are then cut in pairs from the end "
     "with more boundary faces, higher priority or lower index.",
     ["inputs", "configurations"],
     "every face weight, centre, priority, threshold, set of compliant cells, coupling kind and direction option on the graphs in the bound.",
     "Tests use regular stretched meshes where every choice of a step is unique.",
     ["Agglomerator.h", "Dual_Graph.h", "Util.h"],
     [("line growth in two directions", "Agglomerator_Anisotropic::build_anisotropic_lines"),
      ("candidate filters", "find_cell_candidates_for_line_max_weight / _direction"),
      ("order of the seeds", "Dual_Graph::tag_anisotropic_cells")],
     None, ["exported lines, fc_to_cc and returned lines"])

prop("C30", "The result is exactly the one the documented rules determine",
     "Seeds, growth, sizes and the seeds proposed by each finished coarse cell determine the result: neighbours of given lines are seeds first, then "
     "the neighbours of each new coarse cell in order of distance from its seed, boundary faces, priority and index. Every cell ends up in the coarse cell these "
     "rules give it, with the number of its creation, for each seed ordering and each kind of candidate neighbourhood.",
     ["inputs", "configurations"], "every graph, boundary-face counts, priorities, cardinalities, given lines, seed ordering and neighbourhood kind.",
     "Tests check few meshes, nearly all with the default ordering and neighbourhood; the order in which new seeds enter the pool shows only in the third or later coarse cell.",
     ["Agglomerator.h", "Seeds_Pool.h", "Neighbourhood.h", "Dual_Graph.h", "CoMMA.h"],
     [("seeds given back by a finished coarse cell", "Agglomerator_Biconnected::choose_optimal_cc_and_update_seeds_pool"),
      ("seeds given back by the lines", "Agglomerator_Anisotropic::update_seeds_pool"),
      ("options handed to the agglomerators", "agglomerate_one_level")],
     None, ["fc_to_cc output of agglomerate_one_level"])

prop("C31", "Looking ahead picks the cell with the best prospects",
     "With a look-ahead of k cells each growth step adds the candidate for which itself or the cell that would best follow it shares most faces with "
     "the coarse cell. Ties go to the candidate nearest to the seed, then to the best shape reached, where a follower sharing as many faces counts too, then to the "
     "one proposed first; the coarse cell then keeps its best size as without look-ahead.",
     ["inputs", "configurations"], "every graph, weights, volumes, centres, priorities, cardinalities and look-ahead depth.",
     "The tests run a look-ahead on one mesh, where the shape never decides.",
     ["Agglomerator.h", "Neighbourhood.h", "ARComputer.h"],
     [("recursive choice", "Agglomerator_Iterative::compute_best_fc_to_add"),
      ("copy of the candidates for each trial", "NeighbourhoodCreator::clone")],
     None, ["fc_to_cc output of agglomerate_one_level"])

prop("C32", "A complete call is the composition of its documented steps",
     "One call that builds lines, cuts them (with or without a limit and groups of three), coarsens the rest and corrects singular coarse cells gives "
     "exactly what these steps give one after the other, on meshes large enough for all of them to meet. The lines returned name, line by line, the coarse "
     "cells made from them.",
     ["inputs", "configurations"], "every mesh, layers of strongly coupled cells, priorities, boundary counts, face weights and combination of options.",
     "Each existing test turns on one or two options on one mesh; steps hand state to each other (seeds, taken cells, numbering) that only shows when they are combined.",
     ["Agglomerator.h", "CoMMA.h", "Seeds_Pool.h", "Neighbourhood.h", "Coarse_Cell_Container.h", "ARComputer.h"],
     [("order of the steps", "agglomerate_one_level"),
      ("state handed to the isotropic step", "Agglomerator_Anisotropic::update_seeds_pool"),
      ("correction after everything else", "Coarse_Cell_Container::correct")],
     None, ["fc_to_cc, aniso_lines_idx and aniso_lines outputs of agglomerate_one_level"])

prop("C33", "Levels can be chained",
     "The coarse graph of a result, together with the lines it returned, is an accepted input of the next agglomeration, for several levels. At every level volume is conserved, centres, faces, "
     "boundary counts and priorities are those of the original cells gathered so far, which stay connected, and lines follow faces; the coarse cells are those the rules give on that level.",
     ["histories", "inputs", "configurations"], "every mesh, layers, priorities, face weights, options, and sequence of up to three or four levels.",
     "Tests run one level, and those on coarse graphs use one given partition; defects in what a level hands to the next only show in the second call.",
     ["CoMMA.h", "Util.h", "Agglomerator.h"],
     [("graph of the next level", "build_coarse_graph"),
      ("lines of the next level", "Agglomerator_Anisotropic::export_anisotropic_lines"),
      ("one level", "agglomerate_one_level")],
     None, ["outputs of agglomerate_one_level and build_coarse_graph, call after call"])

prop("C34", "The order in which faces are listed does not matter",
     "Listing the faces of the cells in another order gives the same isotropic coarse cells, with and without correction, the same lines and anisotropic coarse cells, the same "
     "coarse graph and the same distances from the wall. Only the cells taken first after lines may follow the order listed.",
     ["inputs", "configurations"], "every mesh, pair of orders of the faces of each cell, priorities, face weights, layers of strongly coupled cells and options.",
     "Test meshes list faces in one order, mostly sorted; a search or a tie that depends on it gives plausible results there.",
     ["Dual_Graph.h", "Neighbourhood.h", "Agglomerator.h", "ARComputer.h", "Coarse_Cell_Container.h", "Util.h"],
     [("loops over the faces of a cell", "Graph::neighbours_cbegin and weights_cbegin and their users"),
      ("candidates ordered by priority and not by place", "Neighbourhood::update_it"),
      ("faces gathered by coarse cell", "build_coarse_graph")],
     None, ["fc_to_cc, lines, coarse graph and distances of both calls"])

prop("C35", "The numbering of the cells only breaks ties",
     "When all priorities differ (and the faces along lines too), numbering the cells of a mesh in another way, each cell keeping its data and the order of its faces, gives the same "
     "coarse cells under the same identifiers and the same returned lines, with and without given or built lines and correction.",
     ["inputs", "configurations"], "every mesh, renumbering, distinct priorities, lines and options.",
     "Needs pairs of executions on renumbered meshes; a comparison by index instead of by priority, or a result depending on the order of a hash table, is a "
     "plausible partition in each of them.",
     ["Seeds_Pool.h", "Neighbourhood.h", "Agglomerator.h", "Dual_Graph.h", "Coarse_Cell_Container.h"],
     [("comparisons of cells", "CustomPairGreaterFunctor and its users"),
      ("hash sets and maps of cells", "Agglomerator_Biconnected::choose_optimal_cc_and_update_seeds_pool, Coarse_Cell_Container::correct")],
     None, ["fc_to_cc and lines of both calls"])

prop("C36", "Origin, axes and units do not matter",
     "Moving the origin, exchanging or reversing axes, or measuring areas, volumes and lengths each in another unit does not change the coarse cells nor the lines.",
     ["inputs", "configurations"], "every mesh, shift of the origin, permutation of axes, units, aspect ratio, lines and options.",
     "The tests have unit cells near the origin; an absolute tolerance or a quantity of the wrong dimension does not show there.",
     ["ARComputer.h", "Agglomerator.h", "Dual_Graph.h", "Util.h"],
     [("comparison of shapes", "ARComputer::compute_and_update_features, compute_best_fc_to_add"),
      ("strong coupling and direction", "Agglomerator_Anisotropic::is_high_coupling, dot_deviate, get_direction")],
     None, ["fc_to_cc and lines of both calls"])

prop("C37", "The record of coarse cells agrees with the result",
     "At any moment the record of coarse cells holds exactly one entry per number in use, with its number, cells, cardinality, kind and compactness, and the "
     "counts of coarse cells and of treated fine cells are right; numbers follow the order of creation, delayed coarse cells coming last. "
     "This also holds after a correction, and a second correction changes nothing.",
     ["histories", "inputs"], "every graph, every distribution of cells over creations (immediate, delayed, anisotropic), every threshold, then corrections.",
     "The tests look at the final assignment of a few cases; delayed creations, counts after a correction and the contents of the records are never read.",
     ["Coarse_Cell_Container.h", "Coarse_Cell.h"],
     [("creation", "Coarse_Cell_Container::create_cc, cc_create_all_delayed_cc"), ("removal and renumbering", "Coarse_Cell_Container::correct"),
      ("growth of a coarse cell", "Coarse_Cell::insert_cell, insert_cells")], None,
     ["records, counts and assignment of the container after each step"])

prop("C38", "The number types chosen by the caller do not matter",
     "Whatever integer type is used for indices, integer type for counts and floating type for values, the result is the same as long as the types hold the values exactly.",
     ["configurations", "inputs"], "every choice of types, mesh and options.",
     "The tests are compiled with one set of types; comparisons of signed and unsigned values, promotions and overflow of small types need another one.",
     ["CoMMA.h", "Agglomerator.h", "Dual_Graph.h", "Seeds_Pool.h", "Coarse_Cell_Container.h", "Util.h"],
     [("template parameters", "agglomerate_one_level"), ("helpers", "build_coarse_graph, compute_neighbourhood_based_wall_distance, filter_cells_by_n_edges")], None,
     ["fc_to_cc, lines, coarse graph of both calls"])

prop("C39", "Eligible cells for lines are those asked for, in order of priority",
     "A compliant cell is eligible exactly when the ratio of its largest to its smallest face (its root in space) reaches the threshold, or always for a negative one; "
     "when only cells of boundary layers are asked for, they must also have four neighbours (six in space), or one less next to the boundary. "
     "Eligible cells come by decreasing priority, then increasing index, and each compliant cell is noted with its strongest coupling, by area or by inverse squared distance.",
     ["inputs", "configurations"], "every graph, areas, centres, priorities, boundary counts, compliant cells, threshold, coupling and restriction to boundary layers.",
     "The tests tag the cells of one mesh, never in space and never with the restriction to boundary layers.",
     ["Dual_Graph.h"], [("tagging", "Dual_Graph::tag_anisotropic_cells"), ("ratio of faces", "Dual_Graph::_compute_AR")], None,
     ["couplings, strongest couplings, marks and list of eligible cells"])

prop("C40", "Questions about single cells are answered exactly",
     "The graph tells for each cell its neighbours and face weights in the order given, its inner, boundary and total number of faces, and its total face weight with each "
     "boundary face counted as the mean of the others; and the unit direction between two centres. The fronts kept during growth hold, latest first, what is left around each "
     "cell taken. The record of coarse cells tells which of them surround a cell and how many faces it shares with each.",
     ["inputs", "histories"], "every graph, weights, boundary counts, centres, order in which cells are taken and distribution over coarse cells.",
     "The tests read a few of these answers for a few cells of regular meshes.",
     ["Dual_Graph.h", "Neighbourhood.h", "Coarse_Cell_Container.h"],
     [("graph", "Graph::get_neighbours, get_weights, Dual_Graph::get_total_n_faces, estimated_total_weight, get_center_direction"),
      ("fronts", "Neighbourhood_Pure_Front::get_neighbours_by_level"), ("coarse cells around", "Coarse_Cell_Container::get_neighs_cc, get_shared_faces")], None,
     ["values returned"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
