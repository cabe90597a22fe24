"""Drivers, bounds and reachability labels of the checks."""
AGGLO_BOUNDS = ("meshes of 3..9 cells: every labelled graph of 3 and 4 cells, one graph per isomorphism class of 4, 5 and 6 "
                "cells, 4x2 grid (3x3 in the thorough tier); any integer priorities in [-1000,1000], boundary counts 0..2 "
                "(0..1 where stated in the driver) and face weights in [1,1000] where symbolic; cardinalities between 2 and 5; "
                "four seed orderings; up to 2 given lines and lines built on 3-4 cells; threshold of singular cells 1..2")
AGGLO_OUT = ("larger meshes and cardinalities, other number types; float rounding of aspect ratios is abstracted (free value) "
             "except for sums, differences and comparisons of integers")

LINES_BOUNDS = ("connected graphs of 3 and 4 cells with any integer face weight in 1..32; chain and triangle with every set of compliant cells, "
                "thresholds -1, 0.25, 1, 2 in 2D and 3D; graphs of 4 cells with any priorities; 3x2 grid with any choice of strong faces, moved and "
                "excluded cells, coupling by face or by distance; fork with one cell at any integer height in -16..16; chain with one cell at any integer "
                "place in 1..40; thorough: 5 cells, 4x2 grid, more thresholds")
LINES_BOUNDS += ("; layers of 2..8 cells of several heights, strong faces between them and holes on 6x6, 4x8 and 3x3x3 boxes; a strong path, straight, bent or "
                 "winding, on a 6x5 grid with any of its first 8 cells as the first one")
LINES_OUTSIDE = "coincident centres, longer lines, weights that are not integers, coordinates that are not integers"
LARGE = ("; meshes of some dozens of cells with concrete irregular data (6x6 squares, 3x3x3 cubes, 32 triangles, wheel, tree, several pieces, ring with "
         "chords, complete graph), priorities irregular, equal or with one symbolic, coarse cells of up to 16 cells, every combination of the options stated in the driver")
ROW = "; lines built on a row of 7 (8) cells with any faces strong or any cells near, from any cell, straight or not"
LAYERS = "; layers of 2..6 strongly coupled cells on 6x6 and 3x3x3 boxes"
PROPS = {
    "C01": {
        "drivers": [{"src": "agglo.cpp", "flags": ["-DPROP=1"]}],
        "covers": ["several coarse cells", "something is grouped"],
        "bounds": AGGLO_BOUNDS + LARGE + LAYERS + ROW, "outside": AGGLO_OUT,
    },
    "C02": {
        "drivers": [{"src": "agglo.cpp", "flags": ["-DPROP=2"]}],
        "covers": ["several coarse cells", "something is grouped"],
        "bounds": AGGLO_BOUNDS + LARGE + LAYERS + ROW, "outside": AGGLO_OUT,
    },
    "C03": {
        "drivers": [{"src": "agglo.cpp", "flags": ["-DPROP=3"]}],
        "covers": ["several coarse cells", "something is grouped", "small coarse cell"],
        "bounds": AGGLO_BOUNDS + LARGE + LAYERS + "; no correction", "outside": AGGLO_OUT,
    },
    "C04": {
        "drivers": [{"src": "corr.cpp", "flags": ["-DPROP=4"]}],
        "covers": ["singular coarse cell"],
        "bounds": "every labelled graph of 3 and 4 cells, one graph per isomorphism class of connected graphs of 5 cells (in two numberings) and 6 cells, 7-cell chains with any subset of second-neighbour faces, 5-cell graphs with any line of 2..4 cells; boundary counts 0..2 (0..1 from 5 cells on), priorities decreasing with the index (any with 3 cells and in the thorough tier); cardinalities 2..4, singularity threshold 1..2 (1..3 thorough); any connected groups made by hand on graph classes of 4 and 5 cells and around a cell next to all others, the first one anisotropic or not" + LARGE + LAYERS,
        "outside": "larger meshes, thresholds and cardinalities; both runs compared use the same options except correction",
    },
    "C05": {
        "drivers": [{"src": "lines.cpp", "flags": ["-DPROP=5"]}],
        "covers": ["anisotropic cells", "group of three"],
        "bounds": "1..2 disjoint lines (3 thorough) of any cells on 3-cell graphs and the 2x2 grid, any lines of neighbours on a 5-cell graph, one line of 5..7 cells, two lines of 1..4 cells on the 4x2 grid; any integer priorities in [-1000,1000] (end cells on the long lines) and boundary counts 0..1 (0..2); no limit or any limit 1..8; both settings of odd groups" + "; long lines on a 6x6 grid",
        "outside": "longer lines, more than three lines; lines given with repeated cells are not valid input",
    },
    "C07": {
        "drivers": [{"src": "lines.cpp", "flags": ["-DPROP=7"]}],
        "covers": ["anisotropic cells", "line of several coarse cells"],
        "bounds": "as C05, followed by a second agglomeration of the coarse graph with the returned lines" + "; long lines on a 6x6 grid",
        "outside": "more than two levels, lines built by the library beyond C06's bounds",
    },
    "C13": {
        "drivers": [{"src": "parts.cpp", "flags": ["-DPROP=13"]}],
        "covers": ["distance above one", "extended beyond the order"],
        "bounds": "every labelled graph of 4 cells with any set of starting cells, any set of already agglomerated cells, order 1..3 (4), cardinality 2..n+1; classes of 5 cells (6 thorough) in two numberings; 3x2 grid with any starting set; chain of 7 (8) cells" + LARGE,
        "outside": "larger meshes; order 0",
    },
    "C14": {
        "drivers": [{"src": "parts.cpp", "flags": ["-DPROP=14"]}],
        "covers": ["two cells discovered at once", "old proposals kept", "front after the beginning", "front gone back"],
        "bounds": "connected classes of 4 cells with symbolic priorities in [-1000,1000] and any admissible set, every labelled graph of 4 cells, classes of 5 cells, 3x2 grid in two numberings, a fan and every tree of 6 cells; every sequence of additions among the proposals until nothing is left, cloning or not at every other step; both kinds of neighbourhood; dimension 2 and 3" + LARGE + ", additions chosen freely at two steps and by one of four rules otherwise",
        "outside": "larger meshes",
    },
    "C15": {
        "drivers": [{"src": "parts.cpp", "flags": ["-DPROP=15"]}],
        "covers": ["several shared faces"],
        "bounds": "sums: connected graph classes of 3 and 4 cells and the 3x2 grid, symbolic weights and volumes in [1,50], boundary counts 0..2, every order of additions of 3 cells, six measures; distances: 3 cells, integer coordinates in [-3,3], four measures; barycentre: 2..3 cells with symbolic volumes in [1,8] and fixed irregular centres, and a 4-cell star with one symbolic volume for the smallest distance; arithmetic exact (reals)" + "; coarse cells of up to 10 cells grown from any cell of larger meshes by three rules, with one symbolic volume and weight",
        "outside": "rounding of the floating-point operations; an isolated cell with boundary faces (its estimated boundary weight is undefined in the code: 0/0); coordinates and volumes symbolic together",
    },
    "C20": {
        "drivers": [{"src": "parts.cpp", "flags": ["-DPROP=20"]}],
        "covers": ["update", "every cell was a seed", "fed before"],
        "bounds": "2..5 cells, four pools, symbolic boundary counts 0..3 and priorities in [-1000,1000] (fixed irregular where stated in the driver); after each seed any subset of other cells taken and any subset of cells announced as new seeds, ordered or as a queue; pools fed before their initialisation with any agglomerated subset" + "; pools over 30 cells",
        "outside": "longer histories",
    },
    "C16": {
        "drivers": [{"src": "util.cpp", "flags": ["-DPROP=16"]}],
        "covers": ["different priorities", "equal priorities"],
        "bounds": "any three pairs with index in [0,1000000] and integer value in [-1000,1000]; ordered container of three pairs",
        "outside": "NaN priorities; fractions (order only matters: see C24)",
    },
    "C17": {
        "drivers": [{"src": "util.cpp", "flags": ["-DPROP=17"]}],
        "covers": ["distance above one", "unreachable cell"],
        "bounds": "every labelled graph of 4 cells, classes of 5 cells (every graph thorough) and connected classes of 6 cells, 3x2 (3x3) grid, each with every wall set; chain of 6 (7) cells in every numbering; repeated wall entries as in the driver" + "; 300 cells (chain, grid, star, tree) with any one wall cell",
        "outside": "larger meshes",
    },
    "C18": {
        "drivers": [{"src": "util.cpp", "flags": ["-DPROP=18"]}],
        "covers": ["kept cell"],
        "bounds": "1 cell with 0..4 (5) neighbours and boundary faces and any set of allowed values in [-2,7] ([-2,9]); 2 cells with 0..2 (3) and allowed values 0..4; 3 cells with 0..1 (2) and allowed values 1..3 (4); output empty or with previous content" + "; many cells with concrete counts",
        "outside": "more cells (cells are independent in the definition)",
    },
    "C19": {
        "drivers": [{"src": "util.cpp", "flags": ["-DPROP=19"]}],
        "covers": ["coarse face"],
        "bounds": "every labelled graph of 3 and 4 cells, connected classes of 5 cells and the 3x2 grid with every partition (two labellings), symbolic weights and volumes in [1,1000], priorities in [-1000,1000], boundary counts 0..3; complete graph of 4 cells with symbolic centres and 3 cells with symbolic volumes; exact arithmetic" + LARGE,
        "outside": "rounding; volumes and centres symbolic together",
    },
    "C21": {
        "drivers": [{"src": "safe.cpp", "flags": ["-D_GLIBCXX_DEBUG", "-D_GLIBCXX_DEBUG_PEDANTIC"]}],
        "covers": ["came back"],
        "bounds": "with checked containers, iterators and algorithms: 0 to 2 cells with every option of lines; every graph of 3 and 4 cells, connected or not, with symbolic boundary counts (and priorities on 3), four orderings; every aspect ratio on the classes of 4 cells; correction with thresholds 1..2 (4) on the classes of 5 (6) cells; any 1-2 (3) lines over 3 (4) cells, empty lines, missing lines; lines built on the classes of 4 cells with every set of compliant cells; utilities on every graph of 0-3 cells" + LARGE + LAYERS,
        "outside": "raw-pointer errors the checked library cannot see, integer overflow, larger meshes",
    },
    "C22": {
        "drivers": [{"src": "util.cpp", "flags": ["-DPROP=22"]}],
        "covers": ["node added", "node removed", "disconnected subgraph"],
        "bounds": "subgraphs of 2 nodes with 2 (3) edits, 3 nodes with 2 edits, 4 nodes with 1 (2) edits, any shape and symbolic weights in [1,100]; each edit inserts a node with any neighbours or removes any node; the same edits on a coarse cell cut out of any graph of 3 or 4 cells",
        "outside": "larger subgraphs; nodes given twice",
    },
    "C23": {
        "drivers": [{"src": "util.cpp", "flags": ["-DPROP=23"]}],
        "covers": ["compact set"],
        "bounds": "every labelled graph of 4 cells (5 thorough), classes of 5 and 6 cells, every set of cells" + LARGE,
        "outside": "larger sets",
    },
    "C25": {
        "drivers": [{"src": "pymod.cpp"}],
        "covers": ["by keyword", "by position", "defaults", "left out"],
        "bounds": "binding code compiled against a stand-in for pybind11 that keeps functions, argument names, defaults and enumerators; by position, by keyword and mixed; every isotropic option on an irregular 3x2 grid, every anisotropic one on a stretched 4x2 grid, 0..7 trailing arguments left out, any of the isotropic options left out on meshes of some dozens of cells, any of the anisotropic ones on a 5x4 grid with strong faces along bends, lines started anywhere; symbolic priorities and boundary counts on the 4-cell (5-cell) classes; wall distance on every graph of 4 cells, filter and coarse graph on every graph of 3 (4) cells with symbolic weights and volumes" + LARGE,
        "outside": "conversions done by pybind11 itself (lists, numpy arrays, out-of-range integers), the Python interpreter",
    },
    "C26": {
        "drivers": [{"src": "util.cpp", "flags": ["-DPROP=26"]}],
        "reduced": [{"src": "parts.cpp", "flags": ["-DPROP=15"]}, {"src": "build.cpp", "flags": ["-DPROP=29"]}],
        "covers": ["equal points", "direction", "deviates", "does not deviate"],
        "bounds": "integer coordinates in [-1000,1000] in 2 and 3 dimensions; directions along eight Pythagorean vectors of any integer length 1..1000 and any 2D vector in [-100,100]; cosines in steps of 2^-20; lengths in units of 2^-30, 1 or 2^30; exact arithmetic",
        "outside": "rounding of the floating-point operations",
    },
    "C08": {
        "drivers": [{"src": "api.cpp", "flags": ["-DPROP=8"]}],
        "covers": ["refused", "accepted"],
        "bounds": "dimension, three cardinalities, choice iterations and singularity threshold all symbolic in [-1000,1000] at once; raw seed orderings -2..13, aspect-ratio kinds -2..11, couplings -1..3, line limits 0..3; last row index, columns and weights each off by -1..+1, empty rows; 0..2 line indices and 0..3 line cells with any last index 0..4, with and without building; 3-4 cell chains",
        "outside": "values of the arrays themselves (other properties)",
    },
    "C11": {
        "drivers": [{"src": "api.cpp", "flags": ["-DPROP=11"]}],
        "covers": ["defaults", "step by step", "refused by both"],
        "bounds": "every combination of dimension, correction, 4 orderings, 10 aspect ratios, singularity threshold 1..2 (3), iterations 1..2 (3), 2 neighbourhoods and 5 cardinality triples on an irregular 3x2 grid; every combination of the anisotropic options on a stretched 4x2 grid; symbolic priorities in [-1000,1000] and boundary counts 0..1 on 4-cell (5-cell) graph classes; defaults with symbolic priorities, isotropic and anisotropic; each call made through both interfaces and repeated, inputs compared afterwards; the steps driven one by one through their classes, cardinalities given or left at zero; any leading part of the isotropic options given to either interface on meshes of some dozens of cells; dimension, cardinalities, iterations and threshold of -10..10 refused or accepted by both interfaces alike" + LARGE + LAYERS,
        "outside": "concurrent calls; larger meshes",
    },
    "C12": {
        "drivers": [{"src": "api.cpp", "flags": ["-DPROP=12"]}],
        "covers": ["count above the dimension"],
        "bounds": "every labelled graph of 3 cells, connected classes of 4 cells (every graph of 4 and classes of 5 thorough) with counts 0..dimension+1 (+2), four seed orderings, dimension 2 and 3; a 4-cell line with counts 0..6; 3-cell graphs with counts up to 1000000" + LARGE + LAYERS + ", with one boundary count of 0..1000000",
        "outside": "larger meshes",
    },
    "C24": {
        "drivers": [{"src": "api.cpp", "flags": ["-DPROP=24"]}],
        "covers": ["same order"],
        "bounds": "every labelled graph of 3 cells, connected classes of 4 and 5 cells, one built and one given line; two symbolic priority vectors in [-1000,1000] inducing the same order, the second also scaled by 2^-20 and 2^40; priorities shifted by 2^40 on classes of 4 cells; four seed orderings" + LARGE + LAYERS,
        "outside": "larger meshes",
    },
    "C34": {
        "drivers": [{"src": "invar.cpp", "flags": ["-DPROP=34"]}],
        "covers": ["listed in another order"],
        "bounds": "connected graphs of 4 cells with any face of each cell listed first and any priorities, of 5 cells and the 3x2 grid (any integer face weights in 1..50) with faces listed backwards or rotated; pairs of the four seed orderings, both neighbourhoods" + LARGE + LAYERS,
        "outside": "areas whose sums round differently in another order, larger meshes",
    },
    "C35": {
        "drivers": [{"src": "invar.cpp", "flags": ["-DPROP=35"]}],
        "covers": ["renumbered", "with lines"],
        "bounds": "connected graphs of 4 and 5 cells with any distinct priorities numbered backwards; any two cells of the 4x4 grid exchanged; any line of up to 4 (5) neighbours on the 4x3 grid with limits 1..4" + LARGE + LAYERS + " with distinct areas along the layers",
        "outside": "equal priorities, lines built through equal couplings, sums that round differently in another order, larger meshes",
    },
    "C36": {
        "drivers": [{"src": "invar.cpp", "flags": ["-DPROP=36"]}],
        "covers": ["described in another way", "with lines"],
        "bounds": "any integer shift of the origin up to 1000000 along each axis (three measures, built lines); six choices of units, powers of two from 2^-40 to 2^40 (distances above 1e-9), each with an exchange or reversal of axes, all ten measures; any integer areas or volumes in 1..50 on the 3x2 grid" + LARGE + LAYERS,
        "outside": "units that are not powers of two and shifts of barycentres (rounding), rotations",
    },
    "C37": {
        "drivers": [{"src": "record.cpp", "flags": []}],
        "reduced": [{"src": "corr.cpp", "flags": ["-DPROP=4"]}],
        "covers": ["delayed", "fewer coarse cells after the correction"],
        "bounds": "every distribution of the cells over up to three creations (four thorough), each immediate, delayed or anisotropic; every labelled graph of 3 cells, classes of 4 and 5 cells, a chain of 6; thresholds 1..3; the correction run twice",
        "outside": "larger graphs, longer histories, creations after a correction",
    },
    "C38": {
        "drivers": [{"src": "types.cpp", "flags": ["-DVARIANT=%d" % k]} for k in range(3)],
        "covers": ["with lines"],
        "bounds": "three choices of index, real and integer types (int/double/unsigned, unsigned char/double/signed char, long long/float/short) against unsigned long/double/int; every labelled graph of 3 cells and classes of 4 cells with any priorities, every one or two lines on the 3x2 grid" + LARGE + LAYERS,
        "outside": "other combinations of types; values that a type cannot hold, real values that a shorter type rounds",
    },
    "C39": {
        "drivers": [{"src": "tags.cpp", "flags": []}],
        "reduced": [{"src": "build.cpp", "flags": ["-DPROP=29"]}],
        "covers": ["by area", "by distance", "boundary layer", "boundary layer in space"],
        "bounds": "any subset of compliant cells and any integer areas in 1..64 on graph classes of 3 cells, any areas around a cell with 4 (5) neighbours, any priorities on graph classes of 4 (5) cells, a cell at any of 16 or 64 places; boundary-layer cells only (in 2D and in 3D) on 3x3, 4x3 and 3x3x3 boxes flat along any axis, any cell less flat, next to the boundary or without one of its faces; thresholds -1, 1, 1.5, 2, 3, 9 (1.25, 4 thorough); couplings by area and by distance; exact arithmetic",
        "outside": "larger meshes, faces of a cell with itself, rounding",
    },
    "C40": {
        "drivers": [{"src": "query.cpp", "flags": []}],
        "reduced": [{"src": "util.cpp", "flags": ["-DPROP=23"]}],
        "covers": ["weights", "direction", "fronts", "coarse cells around"],
        "bounds": "every labelled graph of 3 cells and graph classes of 5 (6) cells, connected or not, with any integer weights in 1..1000 and boundary counts up to the dimension; centres at any two integer places in [-100,100] along any axis; fronts of graph classes of 4 cells for any order of all cells and of 5 cells for two (four) cells, any allowed cells, any priorities; every distribution of 5 (6) cells over three coarse cells; exact arithmetic",
        "outside": "larger graphs, other directions (C26), cells without neighbours (no estimate), rounding",
    },
    "C27": {
        "drivers": [{"src": "corr.cpp", "flags": ["-DPROP=27"]}],
        "covers": ["lone cell moved", "group moved whole", "pair parted"],
        "bounds": "as C04 with thresholds 1 and 2: every labelled graph of 3 and 4 cells, graph classes of 5 and 6 cells, 7-cell chains with any second-neighbour faces, 5-cell graphs with a line; cardinalities 2..4; any connected groups made by hand on graph classes of 4 and 5 cells and around a cell next to all others, the first one anisotropic or not" + LARGE + LAYERS,
        "outside": "groups of three or more that fit no neighbour whole (C04 only), larger thresholds and meshes",
    },
    "C09": {
        "drivers": [{"src": "growth.cpp", "flags": ["-DPROP=9"]}],
        "covers": ["later seed, boundary", "later seed, neighbourhood", "another component", "first seed after lines"],
        "bounds": "every labelled graph of 3 cells and graph classes of 4 and 5 cells with all priorities and boundary counts 0..2 (0..3 in 3D), the 3x2 grid with any priorities and the 4x2 grid (5x2 thorough) with any boundary counts 0..1, four pieces in 2D and 3D with any boundary counts; a given line in a row or a 3x2 grid beside a separate piece with any boundary counts; coarse cells of 2 or 3 cells; the four seed orderings" + LARGE, "outside": "the exact order inside the pool of neighbours (only membership is asserted for seeds after the first), larger meshes",
    },
    "C10": {
        "drivers": [{"src": "growth.cpp", "flags": ["-DPROP=10"]}],
        "covers": ["decided by the measure", "later coarse cell"],
        "bounds": "fixed coarse size: connected graph classes of 4 and 5 cells, the 3x2 grid and the 3x3 grid; symbolic priorities; symbolic weights 1..50, volumes 1..50 (both together in 4 cells; 1..6 in 3D) or centres -4..4 in exact real arithmetic; the eight aspect-ratio measures; sizes 2..5" + LARGE, "outside": "look-ahead of several cells, pure-front neighbourhoods, rounding errors, larger meshes",
    },
    "C06": {
        "drivers": [{"src": "build.cpp", "flags": ["-DPROP=6"]}],
        "covers": ["three in a row", "end of a line next to a free eligible cell", "neighbours left"],
        "bounds": LINES_BOUNDS, "outside": LINES_OUTSIDE,
    },
    "C29": {
        "drivers": [{"src": "build.cpp", "flags": ["-DPROP=29"]}],
        "covers": ["two aligned candidates", "straight through a weak face", "grown at both ends"],
        "bounds": LINES_BOUNDS, "outside": LINES_OUTSIDE,
    },
    "C28": {
        "drivers": [{"src": "growth.cpp", "flags": ["-DPROP=28"]}],
        "covers": ["equally compact sizes", "later coarse cell"],
        "bounds": "every labelled graph of 4 cells, connected graph classes of 5 and 6 cells, 3x3 grid; boundary counts 0..2; priorities symbolic in 4 cells; tuples of cardinalities with minimum 2..4, maximum 3..9; the seed orderings" + LARGE, "outside": "look-ahead of several cells, larger meshes",
    },
    "C30": {
        "drivers": [{"src": "whole.cpp", "flags": ["-DPROP=30"]}],
        "covers": ["three coarse cells", "older front", "queue built anew", "neighbours of lines come first", "more boundary faces elsewhere"],
        "bounds": "graph classes of 4 cells (connected or not) with symbolic priorities, of 5 cells with symbolic priorities and with boundary counts 0..1, of 6 cells with fixed irregular priorities; 3x3 grid with three symbolic priorities; up to two given lines (distinct or equal priorities) on the 3x2 grid, one on the 4x2 grid and on 5-cell graphs; 6x6 and 3x3x3 grids with equal or irregular weights and one symbolic priority; graph classes of 5 cells in three dimensions with any first cell and any cell on a corner; cardinalities from (2,2,2) to (8,8,12); the four seed orderings; both neighbourhood kinds" + LARGE, "outside": "larger meshes, several symbolic kinds of data at once, correction (C04, C27), lines built from weights (C29)",
    },
    "C32": {
        "drivers": [{"src": "full.cpp"}],
        "covers": ["lines and the rest", "corrected"],
        "bounds": "5x5 grid of squares with layers of symbolic height in two columns, 3x3x3 grid with layers, 32 triangles, 4x4 grid with three symbolic face weights (exact arithmetic), 5x5 grid with four symbolic boundary counts; one or three symbolic priorities in [0, 30]; eight measures of the shape; limits on lines, groups of three, correction with thresholds 1 to 3, four seed orderings, both neighbourhoods, look-ahead 1 and 2 (3), cardinalities from (2,2,2) to (6,8,10)", "outside": "other meshes of that size, groups of three and more that part under correction, lines bent or crossing (C29)",
    },
    "C33": {
        "drivers": [{"src": "levels.cpp"}],
        "covers": ["third level", "line on a coarse level"],
        "bounds": "three levels from the 5x5 grid with layers of symbolic height in two columns and from the 3x3x3 grid with layers, from the 4x6 grid with lines limited to 1-5 cells, four levels from the 6x6 grid, one symbolic priority in [0, 30]; three levels from connected graphs of 5 (6) cells with symbolic volumes and up to four symbolic face weights (exact arithmetic); cardinalities from (2,2,2) to (2,4,5); with and without correction", "outside": "more levels, other meshes",
    },
    "C31": {
        "drivers": [{"src": "whole.cpp", "flags": ["-DPROP=31"]}],
        "covers": ["follower counts", "decided by the measure"],
        "bounds": "connected graph classes of 4 to 6 cells, 3x3 grid, 3x2 grid with symbolic weights in [1, 50] (exact arithmetic); symbolic priorities on 4 cells; look-ahead 2 to 4; cardinalities from (3,3,3) to (2,2,5); both neighbourhood kinds" + LARGE, "outside": "larger meshes, look-ahead above 4, symbolic centres",
    },
}

NOT_APPLICABLE = {}
