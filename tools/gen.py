"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/permaviss/"
COVER, DIFF, FLAG, VR = (S + "covers/cubical_cover.py",
                         S + "simplicial_complexes/differentials.py",
                         S + "simplicial_complexes/flag_complex.py",
                         S + "simplicial_complexes/vietoris_rips.py")
ARI, GAUSS, FUN = (S + "gauss_mod_p/arithmetic_mod_p.py",
                   S + "gauss_mod_p/gauss_mod_p.py",
                   S + "gauss_mod_p/functions.py")
BB, IK, MPH, PH = (S + "persistence_algebra/barcode_bases.py",
                   S + "persistence_algebra/image_kernel.py",
                   S + "persistence_algebra/module_persistence_homology.py",
                   S + "persistence_algebra/PH_classic.py")
MV, SS, LC = (S + "spectral_sequence/MV_spectral_seq.py",
              S + "spectral_sequence/spectral_sequence_class.py",
              S + "spectral_sequence/local_chains_class.py")
EX = S + "sample_point_clouds/examples.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop("C01", "Mayer-Vietoris result equals persistent homology of the cloud",
     "For every nonempty point cloud, radius and dimension bound, number of "
     "divisions, prime and overlap at least as large as the maximal radius, "
     "the spectral sequence computation terminates without error and returns "
     "one barcode for each degree below the dimension bound. Each of them "
     "equals, as a multiset of bars, the barcode obtained directly from the "
     "Vietoris-Rips filtration of the whole cloud over the same field.",
     ["inputs", "configurations"],
     "all clouds (any dimension, coincident points, flat or elongated), all "
     "max_r, max_dim, max_div, overlap >= max_r, all primes",
     "the tests compare a handful of random clouds with one parameter set "
     "each; nontrivial higher differentials, extension problems, degenerate "
     "clouds and empty diagonals are never reached",
     [MV, SS, LC, COVER, IK, MPH, PH],
     [("create_MV_ss: pages, then extension problem", MV),
      ("high_differential, lift_to_page, extension", SS)],
     "explicit enumeration of bounded input spaces executed on the real code, "
     "compared state by state with a reference model of the filtration",
     "exhaustive within the listed families (point sets on small grids, all "
     "vertex subsets and length patterns of 3D/4D polytopes, ...); not a "
     "proof for larger clouds")
prop("C02", "Every page of the spectral sequence is the right one",
     "For every cloud and every cover whose regions contain all simplices, "
     "each entry of each page of the computed spectral sequence has the "
     "barcode of the corresponding page of the spectral sequence of the "
     "column filtration of the Mayer-Vietoris double complex, as far as all "
     "differentials that define it stay below the dimension bound. The table "
     "of page dimensions agrees with the stored barcodes.",
     ["inputs", "configurations"],
     "all clouds, covers, primes, pages and positions",
     "the tests only look at the final barcodes of a few clouds, where pages "
     "beyond the second are equal",
     [MV, SS, MPH],
     [("first_differential, high_differential", SS),
      ("module_persistence_homology per page", MPH)],
     "explicit-state reference model of the double complex (reduction at "
     "every radius) compared with every page of real executions over an "
     "enumerated set of clouds and covers",
     "cubical covers and arbitrary covers with up to 4 regions")
prop("C03", "Stored representatives are correct in the total complex",
     "For every cloud and cover, each class on each page after the first "
     "comes with chains of the total complex that exist from its birth "
     "radius on and whose total differential vanishes in all columns the "
     "page has reached. Their leading parts form a barcode basis of the page "
     "entry: at every radius those of the living classes are a basis, and "
     "those of dead classes are zero.",
     ["inputs", "configurations"],
     "all clouds, covers, primes, pages, positions and radii",
     "one test checks the zig-zag identity of the last page on one random "
     "torus sample; births, deaths and independence are never checked",
     [SS, LC],
     [("compute_two_page_representatives, compute_higher_representatives",
       SS), ("local_chains.sums", LC)],
     "explicit-state reference model of the double complex; every stored "
     "representative of real executions over an enumerated set of clouds and "
     "covers is checked at every radius",
     "cubical covers and arbitrary covers with up to 4 regions")
prop("C04", "Local boundaries and Cech differentials form a double complex",
     "For every cloud and cover, the local complexes are the Vietoris-Rips "
     "complexes of the region intersections, and the vertical differential "
     "is the simplicial boundary up to a sign per degree. The Cech "
     "differential is linear and sends a simplex of an intersection to the "
     "alternating sum of its copies in the larger intersections, with signs "
     "such that it squares to zero and anticommutes with the vertical "
     "differential.",
     ["inputs", "configurations"],
     "all clouds, covers, primes, positions and simplices",
     "one test squares the Cech differential on one sample; wrong entries "
     "that cancel, or positions with few points, stay unseen",
     [SS, LC, DIFF],
     [("cech_diff, cech_diff_local, local_cech_matrix", SS)],
     "every generator of the double complex of each enumerated execution is "
     "pushed through the real differentials and compared with the model",
     "every simplex of every enumerated cloud and cover")
prop("C05", "Results do not depend on scheduling or the number of processes",
     "For every assignment of the parallel tasks to worker processes, every "
     "order in which workers execute and complete them and every number of "
     "processes, the spectral sequence computation returns the same "
     "barcodes, page dimensions, coordinates and representatives.",
     ["schedules"],
     "all task-to-worker assignments and orders of every parallel map",
     "the tests run whatever schedule the machine happens to produce",
     [MV, SS],
     [("Pool().map over nerve simplices", MV),
      ("Pool().map in cech_diff_and_lift", SS)],
     "stateless exploration of schedules under a controlled worker pool "
     "(set partitions of tasks over forked workers, orders, one deviating "
     "map call at a time), plus genuine process pools",
     "deviation bound 1 per run plus all uniform strategies")
prop("C06", "Computations are pure and independent of earlier calls",
     "No computation modifies its arguments or consumes random numbers, and "
     "the result of a call depends on its arguments only: not on the calls "
     "made before it (also with other primes), on results that are still in "
     "use or have been overwritten by the caller, nor on the memory layout "
     "of the input. Earlier results keep their value when new ones are "
     "computed.",
     ["histories"],
     "all sequences of library calls",
     "each test makes its calls in one fixed order",
     [MV, SS, LC, IK, MPH, PH, GAUSS, COVER, VR],
     [("copies of inputs in every reduction", GAUSS),
      ("spectral_sequence object state", SS)],
     "exhaustive enumeration of call histories up to length 3 (4 in the "
     "thorough tier) on the real code, each result compared with a fresh "
     "process",
     "alphabet of 31 operations: all pairs, all triples of 12, each with and "
     "without overwriting results")
prop("C07", "Barcodes are invariants of the cloud, not of its description",
     "The returned barcodes do not change when points are listed in another "
     "order, when the cloud is moved by a translation, a reflection or a "
     "permutation of the axes, or when the cover is chosen with another "
     "number of divisions or a larger overlap. Scaling the cloud and the "
     "radii scales the barcodes, lowering the maximal radius truncates them, "
     "and lowering the dimension bound only drops degrees.",
     ["inputs", "configurations"],
     "all clouds, orders, motions, covers and parameters",
     "no test runs the same cloud twice",
     [MV, SS, COVER],
     [("spectral sequence converges to an invariant", MV)],
     "exhaustive enumeration of the orders, motions and parameters of a set "
     "of clouds, executed on the real code and compared with each other",
     "all orders of clouds up to 5 points, generators of the symmetric group "
     "for larger ones")
prop("C08", "Cubical covers contain every point and every short simplex",
     "For every nonempty cloud, number of divisions and positive overlap, "
     "the cover consists of the points lying in the enlarged boxes of a "
     "regular division whose longest side is cut into the given number of "
     "parts. Every point is in some region, every set of points with mutual "
     "distances below the overlap lies in a common region, intersections "
     "hold exactly the common points with matching coordinates, and the "
     "nerve lists the intersections.",
     ["inputs", "configurations"],
     "all clouds in all dimensions, divisions and overlaps",
     "one test with 14 fixed points in the plane",
     [COVER],
     [("generate_cover, corners_hypercube, intersection_covers", COVER)],
     "exhaustive enumeration of point sets on grids with all divisions and "
     "overlaps, checked against the geometric definition",
     "grids in 1-3 dimensions, named and generic clouds")
prop("C09", "Flag complexes list all cliques; the cover nerve is complete",
     "For every graph the flag complex contains each clique up to the "
     "dimension bound exactly once, with faces present. For every division "
     "of a box, the nerve contains exactly the sets of pairwise adjacent "
     "boxes, also diagonally adjacent ones, and boxes are enumerated in "
     "mixed radix order.",
     ["inputs"],
     "all graphs and all box divisions",
     "the tests use two graphs and two divisions",
     [FLAG, COVER],
     [("flag_complex", FLAG),
      ("nerve_hypercube_cover, next_hypercube", COVER)],
     "exhaustive enumeration of all labelled graphs and all box divisions up "
     "to a size",
     "all graphs up to 6 vertices, divisions in up to 4 dimensions")
prop("C10", "Vietoris-Rips complexes hold every simplex with its radius",
     "For every symmetric distance matrix, radius and dimension bound, the "
     "complex contains every set of points with mutual distances below the "
     "radius exactly once. The recorded birth of a simplex is its diameter, "
     "births are sorted in each dimension, and no simplex is born before its "
     "faces.",
     ["inputs"],
     "all distance matrices, radii and dimension bounds",
     "the tests use two small clouds",
     [VR],
     [("vietoris_rips", VR)],
     "exhaustive enumeration of distance matrices over a small value set",
     "all matrices up to 4 points over 4 values, all graphs on 5 points")
prop("C11", "Boundary matrices are those of the complex, for every prime",
     "For every simplicial complex and prime, the matrix of each dimension "
     "has exactly the faces of each simplex as nonzero entries, with "
     "alternating signs, and consecutive matrices multiply to zero modulo "
     "the prime.",
     ["inputs"],
     "all complexes and primes",
     "the tests use two complexes",
     [DIFF],
     [("complex_differentials", DIFF)],
     "exhaustive enumeration of all small complexes and clique complexes",
     "all complexes up to 4 vertices, clique complexes on 5, skeleta")
prop("C12", "Direct persistent homology returns a correct barcode basis",
     "For every filtered complex, radius and prime the classical algorithm "
     "returns the barcode of each degree. Its representatives are cycles "
     "that appear at the birth radius, form a basis of the homology at every "
     "radius where they live and are boundaries from their death on, and "
     "image bases and preimages describe the boundary map.",
     ["inputs"],
     "all filtered complexes, primes and radii",
     "the tests compare numbers for a few fixed complexes",
     [PH, MV],
     [("persistent_homology", PH), ("local_persistent_homology", MV)],
     "exhaustive enumeration of filtered complexes, real output checked at "
     "every radius against a reference reduction",
     "all edge orders on up to 4 vertices, surfaces with torsion, clouds")
prop("C13", "Image and kernel of a persistence morphism are correct",
     "For every well defined morphism between finite barcode modules over "
     "every prime field, the computed image and kernel are barcode bases of "
     "the true image and kernel at every radius, and the preimages map to "
     "the image generators. The answer does not depend on the order of the "
     "generators and is returned in standard order.",
     ["inputs"],
     "all morphisms of barcode modules, primes and generator orders",
     "the tests use five fixed matrices",
     [IK, BB],
     [("image_kernel, pivot_check_reduce", IK)],
     "exhaustive enumeration of modules and matrices over small radii, "
     "checked pointwise at every radius",
     "all modules up to 3+2 generators with radii 0..3 (p=2), fewer for "
     "larger p")
prop("C14", "Relative images and quotients of persistence modules are correct",
     "For every morphism of barcode modules whose first generators are "
     "divided out, the computed relative image is a barcode basis of the "
     "quotient of the images at every radius, with representatives that live "
     "at their birth. Quotients of a module by a submodule have the same "
     "guarantee.",
     ["inputs"],
     "all modules, submodules and primes",
     "the tests use two fixed quotients",
     [IK, MPH],
     [("image_kernel with start_index", IK), ("quotient", MPH)],
     "exhaustive enumeration of modules and matrices, checked pointwise at "
     "every radius",
     "up to 2|1 -> 2 generators exhaustively, larger structured ones")
prop("C15", "Homology of complexes of persistence modules is correct",
     "For every chain complex of barcode modules, including zero modules, "
     "the computed homology of each position is a barcode basis of "
     "kernel modulo image at every radius, given in coordinates of the "
     "module, and images and preimages describe each map.",
     ["inputs"],
     "all chain complexes of barcode modules and primes",
     "the tests use two fixed complexes",
     [MPH, IK],
     [("module_persistence_homology", MPH)],
     "exhaustive enumeration of three-term complexes and of filtered "
     "simplices, checked pointwise at every radius",
     "up to 2 generators per module exhaustively")
prop("C16", "Gluing bars by extension coefficients gives the right barcode",
     "For every list of bars and every way a generator may continue as a "
     "combination of other generators when it dies, the computed image "
     "barcode of generators in the glued module is the barcode of the "
     "resulting persistence module, whatever the order of the bars.",
     ["inputs"],
     "all barcodes, extension matrices, orders and primes",
     "one test uses one fixed broken basis",
     [IK, BB],
     [("image_kernel for broken bases", IK), ("update_broken", BB)],
     "exhaustive enumeration of bars and extension matrices, compared with "
     "the rank function of the glued module",
     "all extension matrices on up to 4 bars with radii 0..4 (p=2), 3 bars "
     "(p=3), chains of up to 8 bars")
prop("C17", "Linear algebra modulo a prime is exact",
     "For every prime and all integer matrices, also with entries outside "
     "the residue range, inverses, sums and products are exact residues, and "
     "column elimination returns a reduced matrix with the invertible "
     "transformation that produces it. Linear systems are solved whenever a "
     "solution exists, and an error is raised exactly when none exists.",
     ["inputs"],
     "all primes, matrices and right-hand sides",
     "the tests use a few fixed matrices and primes",
     [ARI, GAUSS, FUN],
     [("inv_mod_p", ARI), ("gauss_col", GAUSS),
      ("solve_mod_p, solve_matrix_mod_p", FUN)],
     "exhaustive enumeration of matrices over small fields and of residues",
     "all matrices of small shapes for p = 2, 3, 5, all residues of many "
     "primes")
prop("C18", "Elimination respects birth radii and barcodes",
     "For every matrix whose last columns are combinations of earlier "
     "columns that are available at their radius, elimination by radius "
     "expresses them by exactly such columns, and elimination by barcodes "
     "returns coefficients of living columns that reproduce the column on "
     "the living rows. Columns that cannot be reduced raise an error.",
     ["inputs"],
     "all matrices, radii, barcodes and primes",
     "one test per function",
     [GAUSS],
     [("gauss_col_rad, gauss_barcodes", GAUSS)],
     "exhaustive enumeration of matrices with radii and barcodes",
     "all matrices of the listed shapes over p = 2, 3, 5, 7")
prop("C19", "Barcode bases keep bars and coordinates together",
     "Under every sequence of construction, sorting and queries, a barcode "
     "basis behaves as a list of bars with attached coordinates: bars of "
     "non-positive length are dropped together with their coordinates, "
     "sorting is by birth and then by decreasing death, and queries for "
     "births, deaths, living bars and changes are exact.",
     ["histories", "inputs"],
     "all bar lists and operation sequences",
     "the tests check a few lists",
     [BB],
     [("barcode_basis", BB)],
     "exhaustive exploration of operation histories compared with a list "
     "model",
     "all lists up to 3 bars, histories of sort and query operations")
prop("C20", "Operations on local chains agree with dense chains",
     "For every sequence of additions, linear combinations, sign changes and "
     "copies, chains stored by references on the regions represent the same "
     "vectors as dense chains would. Operands are not changed except by "
     "in-place negation, and malformed entries are rejected.",
     ["histories", "inputs"],
     "all reference patterns and operation sequences",
     "the tests never use the operations with differing references",
     [LC],
     [("local_chains", LC)],
     "exhaustive exploration of operation histories compared with a dense "
     "model",
     "all reference patterns on 2 regions and 3 classes, histories of "
     "operations")
prop("C21", "Sample generators return the shape they are named after",
     "Whatever the random numbers are, each generator returns the requested "
     "number of points of the requested dimension on its circle, annulus, "
     "ball, sphere, cube, grid or torus. Subsampling returns distinct points "
     "of the cloud, each as far as possible from those taken before, and a "
     "given seed, passed or set for numpy beforehand, fixes the result.",
     ["inputs", "fault_sequences"],
     "all sequences of answers of the random source, all parameters",
     "no test looks at the generators",
     [EX],
     [("take_sample, random_sphere, torus3D, ...", EX)],
     "exhaustive enumeration of scripted answers of the random source and "
     "of all start points of the subsampling",
     "scripts over 6 values up to length 3, all multisets of up to 5 points")


prop("C22", "Extension coefficients continue the classes that die on the last "
     "page",
     "When a generator of the last page in a positive column dies before "
     "max_r, its representative in the total complex is, at that radius, "
     "homologous to the combination of representatives of lower columns given "
     "by the stored extension coefficients (all of them alive then), or a "
     "boundary when they vanish.",
     ["inputs"],
     "all clouds, covers, primes and radii",
     "the tests look at the barcodes only, which hardly depend on the values "
     "of the coefficients",
     [SS, MV],
     [("spectral_sequence.extension", SS), ("create_MV_ss", MV)],
     "exhaustive enumeration of bounded clouds and covers; every generator "
     "is checked for being a boundary in an independent total complex",
     "same families as C02, plus windings around cylinders and projective "
     "planes, where the coefficients depend on the prime")
prop("C23", "Lifts to the first page split cycles into classes and boundaries",
     "For every cloud, cover and prime, lifting vertical cycles to the first "
     "page at radii where they exist writes each of them as the returned "
     "combination of stored local classes born by then plus the boundary of "
     "the returned chain, which exists by then too. Lifting Cech differentials "
     "returns classes and chains such that chain and lift together have these "
     "classes as total differential. Cycles of several regions, and several "
     "cycles at once, are lifted independently of each other.",
     ["inputs"],
     "all clouds, covers, primes, positions, cycles and radii",
     "the tests call the lifts on the chains that happen to occur and never "
     "look at the result",
     [SS],
     [("first_page_lift, first_page_local_lift", SS),
      ("cech_diff_and_lift, cech_diff_and_lift_local", SS)],
     "exhaustive enumeration of bounded clouds and covers; in every position "
     "a generating set of cycles is lifted and the identities of chains are "
     "checked",
     "same families as C02; all local classes, boundaries of the local "
     "simplices (at most about 12 a region) and sums across regions")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=a, where=b)
                                        for a, b in p["mech"]],
                             hook_needed=None))) + "\n")
    man = dict(version=1,
               setup_cmd="/opt/venv/bin/python -c \"from mc import core; "
                         "core.load_library()\"",
               checks=[dict(property=p["id"],
                            quick_cmd="./check %s --tier quick" % p["id"],
                            thorough_cmd="./check %s --tier thorough" %
                            p["id"],
                            technique="model checking: " + p["technique"],
                            level="model_checking", level_note=p["note"])
                       for p in P],
               not_applicable=[])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
