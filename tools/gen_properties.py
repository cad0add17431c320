"""Single source of the property list: writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          "hook_needed": None}})
C = "structrans/crystallography/"; M = "structrans/marttrans/"; L = M + "lat_cor/"; U = "structrans/util/utils.py"

p("C01", "Hermite normal form lists are complete and free of duplicates",
  "For every positive determinant and dimension, and for every list of positive diagonal entries, the listed Hermite normal forms are exactly the lower triangular integer matrices with that determinant (diagonal) whose entries left of the diagonal lie in (-d, 0] for the diagonal entry d of their row, each listed once. Negative determinants are rejected, and the divisors used to factor a determinant are exactly its positive divisors in increasing order.",
  ["inputs"], "all determinants and dimensions, all diagonals",
  "The tests look at one diagonal and determinants 0, 1, 2 only.",
  [C+"hnf.py", C+"sublattice.py", U],
  [("hnf_from_diag fills the strictly lower triangle", C+"hnf.py"), ("hnf_from_det runs over divisor tuples", C+"hnf.py"), ("divisors", U)])
p("C02", "Hermite decomposition is canonical, exact and unimodular",
  "Every full-rank square integer matrix decomposes exactly into a Hermite normal form times an integer matrix of determinant +1 or -1, whether or not the second factor is asked for. The normal form depends only on the lattice spanned by the columns: multiplying the input from the right by any unimodular matrix does not change it. The input is not modified.",
  ["inputs"], "all nonsingular integer matrices, all unimodular column changes",
  "The test draws one dimension and one determinant at random and small unimodular factors.",
  [C+"hnf.py", C+"sublattice.py"],
  [("column gcd elimination, recursion on the lower right block, final reduction of column 0", C+"hnf.py hnfd")])
p("C03", "Lattice equality means same point set; only real lattices are built",
  "Two lattices compare equal exactly when they have the same dimension and their bases differ by an integer matrix of determinant +1 or -1, so equality is reflexive, symmetric and transitive, a lattice never equals its proper sublattices, and it never equals something that is not a lattice. Construction accepts every nonsingular finite square matrix, at any scale, reproduces it as the base, and raises ValueError for anything else.",
  ["inputs"], "all pairs and triples of bases in dimensions 1-5, all malformed inputs",
  "The tests compare two random bases and one permutation, and reject two or three malformed bases.",
  [C+"lattice.py"], [("__eq__ tests inv(E1).E2 for an integer change of basis", C+"lattice.py"), ("constructor validation", C+"lattice.py")])
p("C04", "Symmetry groups of a lattice are genuine, consistent groups",
  "For every 2D or 3D lattice the reported Laue, point, special lattice and lattice groups contain the identity, are closed under products and inverses, have no repeated element, and every element really maps the lattice onto itself. The Laue group is the set of proper rotations in the point group, the (special) lattice group is the point (Laue) group rewritten as integer matrices in the lattice basis, and other dimensions are refused with AttributeError.",
  ["inputs"], "all lattices in 2D and 3D, any basis and orientation",
  "The tests check orders of four lattices and one random (triclinic) lattice.",
  [C+"lattice.py", C+"matrix_group.py"],
  [("filtering of the cubic/hexagonal/square tables by the lattice", C+"lattice.py Laue_group, point_group"), ("conjugation to integer matrices", C+"lattice.py special_lattice_group, lattice_group")])
p("C05", "All symmetries of a Bravais lattice are found; membership is exact",
  "For every Bravais lattice in its standard setting, with lattice parameters generic for its type, the Laue, point and lattice groups contain every symmetry of the lattice. For every lattice of any dimension, the membership tests for the point group and the lattice group accept a matrix exactly when it is an orthogonal matrix (an integer matrix) that maps the lattice onto itself, and return False for matrices of another shape.",
  ["inputs"], "all 14+5 Bravais types and generic parameters; all candidate matrices",
  "Only fcc, one monoclinic and two hexagonal lattices are counted by tests, and no Bravais lattice object is tested at all.",
  [C+"lattice.py", C+"bravais_lattice.py", C+"matrix_group.py"],
  [("group tables and the choice between cubic and hexagonal", C+"lattice.py"), ("inpointgroup, inlatticegroup", C+"lattice.py")])
p("C06", "Objects are values: answers do not depend on history or outside arrays",
  "Any sequence of queries on a lattice, Bravais lattice, matrix group, martensite, twin pair or twin system returns, at each step, what the same query returns on a freshly built object. Modifying an array that was passed in at construction, or an array that an earlier query returned, never changes any later answer.",
  ["histories"], "all interleavings of queries and of writes to arrays passed in or handed out",
  "Tests make each query once on a fresh object and never write to an array afterwards.",
  [C+"lattice.py", C+"bravais_lattice.py", C+"matrix_group.py", M+"martensite.py", M+"twin.py"],
  [("lazily filled caches", C+"lattice.py, "+M+"martensite.py, "+M+"twin.py"), ("defensive copies", C+"lattice.py base, "+M+"martensite.py getU")],
  [("lazy caches", "groups, variants, twin parameters computed on first use", "private attributes")])
p("C07", "Bravais lattices have the geometry their parameters say",
  "For every Bravais type and valid lattice parameters, the conventional basis vectors have exactly the given lengths and mutual angles (hexagonal cells use 60 degrees), are right-handed and stand in the standard orientation, and the primitive basis spans exactly the conventional lattice together with the centring points of the type. The conversion matrix takes the primitive basis to the conventional one and has determinant equal to the number of lattice points per conventional cell.",
  ["inputs"], "14 types in 3D and 5 in 2D, all valid parameters",
  "No test constructs a Bravais lattice.",
  [C+"bravais_lattice.py"], [("per-type primitive bases and conversion matrices", C+"bravais_lattice.py")])
p("C08", "Invalid Bravais input is rejected; identity and description are faithful",
  "A Bravais lattice is built exactly when the type number is valid for the dimension (2 or 3), the number of parameters fits the type and the parameters are positive and describe a non-degenerate cell; everything else raises ValueError. A built lattice reports its type and parameters unchanged, and its textual description names the type and shows every lattice parameter under its own name.",
  ["inputs"], "all type numbers, dimensions, parameter lists",
  "No test constructs a Bravais lattice.",
  [C+"bravais_lattice.py"], [("constructor validation", C+"bravais_lattice.py __init__"), ("__str__", C+"bravais_lattice.py")])
p("C09", "Index conversion between primitive and conventional cells is exact",
  "For every Bravais lattice, converting a direction index or a list of indices between the conventional and the primitive basis describes the same vector in space, converting back returns the original, and a list is converted element by element. Input of the wrong shape raises ValueError, and the deprecated spellings give the same answers.",
  ["inputs"], "all lattices, all indices and lists of indices",
  "No test converts an index.",
  [C+"bravais_lattice.py"], [("to_primitive_Miller, to_conventional_Miller", C+"bravais_lattice.py")])
p("C10", "Subgroup test decides inclusion of groups",
  "For any two finite matrix groups, the subgroup test answers True exactly when every element of the candidate occurs in the group it is asked about, independently of the order in which the elements are listed. Anything that is not a group object raises TypeError.",
  ["inputs"], "all pairs of finite matrix groups of the same dimension",
  "Tests try five pairs of point groups.",
  [C+"matrix_group.py"], [("order must divide, every element must be matched", C+"matrix_group.py hassubgroup")])
p("C11", "Martensite variants are the orbit of the stretch, indexed by cosets",
  "For every stretch tensor whose lattice symmetries belong to the parent's Laue group, the variants are exactly the distinct tensors Q U Q^T over that group, starting with U itself, so their number is the group order divided by the order of U's stabiliser. The index table assigns every group element to exactly one variant, the one it maps U to; the n-th variant is the n-th of the list; if the symmetries are not contained in the group, asking for variants raises AttributeError.",
  ["inputs"], "all stretch tensors and Laue groups",
  "The only test of variants is commented out.",
  [M+"martensite.py"], [("orbit enumeration", M+"martensite.py calcvariants"), ("isreversible", M+"martensite.py")])
p("C12", "Setting stretch or symmetry yields a new, valid martensite",
  "Setting the stretch tensor builds it from one, two, three, four numbers or a 3x3 matrix as documented, accepts exactly the symmetric positive definite ones and raises TypeError otherwise. Setting the Laue group accepts a group or a Bravais type number from 1 to 14, giving that type's group, and raises ValueError otherwise; both return a new object, keep the other attribute and leave the original unchanged through any sequence of such calls.",
  ["inputs", "histories"], "all argument forms and all sequences of settings",
  "The only test of the setters is commented out.",
  [M+"martensite.py"], [("setU, setLaue", M+"martensite.py")])
p("C13", "Correspondence maps directions and planes consistently",
  "For every invertible lattice correspondence, a direction of the initial phase is mapped by the inverse of the correspondence and a plane by its transpose, so a direction lying in a plane still lies in it after both are transformed. Lists are transformed element by element, and a single vector gives a single vector.",
  ["inputs"], "all correspondences, directions, planes and lists of them",
  "The tests of orientation relationships are commented out.",
  [M+"orientation_relationship.py"], [("direc_trans, plane_trans", M+"orientation_relationship.py")])
p("C14", "Rotation helpers return the rotation asked for",
  "For every axis and angle the axis-angle helper returns the proper rotation that fixes the axis and turns by that angle counter-clockwise about it, and the Euler helper returns the three elementary rotations applied one after the other in the given order about fixed axes. A screw of order n and pitch p is the rotation by 360/n degrees about the axis together with the translation by p/n (p modulo n when p exceeds n) of the axis vector. Degrees and radians agree, the length of the axis does not matter, and wrong numbers of angles or unknown axes raise ValueError.",
  ["inputs"], "all axes (including coordinate axes and their opposites), angles, orders and units",
  "The tests of rotations are commented out.",
  [U, C+"spacegroup.py"], [("rotation, Euler", U), ("skew", C+"spacegroup.py")])
p("C15", "Distances between lattices are correct, symmetric-invariant and consistent",
  "The Cauchy distance of a correspondence L equals the squared Frobenius norm of Cinv - I for the exact deformation from the first lattice's L-sublattice to the second lattice, in 2D and 3D; the strain and Ericksen distances equal their definitions likewise. They vanish exactly when the deformation is a pure rotation, do not change under symmetries of the first lattice (the Cauchy and strain distances also not under those of the second), and the batched evaluation of any number of correspondences returns the same values in the same order as one-by-one evaluation.",
  ["inputs"], "all bases and integer matrices, all batch sizes",
  "No test evaluates a distance.",
  [L+"dist.py"], [("Eric_dist, strain_dist, Cauchy_dist, Cauchy_dist_vec", L+"dist.py")])
p("C16", "Integer vectors are enumerated completely, once, and resumably",
  "Enumerating integer vectors up to a given length yields every vector strictly inside that length exactly once and none outside, in a fixed order that does not depend on the length. Resuming the enumeration at any vector, with the same or a smaller length, yields exactly the not yet enumerated vectors within that length, in the same order.",
  ["inputs", "histories"], "all lengths, dimensions and resume points, repeated interruption with shrinking length",
  "No test calls the enumeration.",
  [L+"main_direct.py"], [("recursive vec_generator with start vector", L+"main_direct.py")],
  [("checkpoint", "first vector not yet handed out", L+"main_direct.py")])
p("C17", "Direct search returns the globally best correspondences",
  "For every pair of Bravais lattices with parameters generic for their types and every requested number of solutions, the direct search returns at least that many nonsingular correspondences, sorted by distance and pairwise inequivalent under the two lattices' symmetries, and no inequivalent correspondence is closer than the last one requested. The outcome does not depend on the random start or on the slice size.",
  ["inputs", "schedules", "configurations"], "all lattice pairs, numbers of solutions, random seeds and slice sizes",
  "No test runs the search.",
  [L+"main_direct.py", L+"quartic_opt.py", L+"dist.py"],
  [("radius bound from the quartic minimum, shrinking with the best distance", L+"main_direct.py"), ("solution list with equivalence set", L+"main_direct.py add_sol, update_sol")],
  [("SOLS, EXT_SOLS, DMAX, maxRadius, checkpoint", "best classes so far, their members, pruning distance, search radius, resume point", L+"main_direct.py")])
p("C18", "Every reported solution is internally consistent",
  "In every solution of either search the distance, the conventional-cell correspondence, the stretch tensor and the sorted principal stretches all belong to the reported integer correspondence: the stretch is the symmetric positive definite square root of the Cauchy-Born deformation's right Cauchy-Green tensor, its eigenvalues are the listed stretches in increasing order, and the conventional correspondence is the integer one rewritten in the conventional bases. Solutions of the sublattice search combine a Hermite normal form with a unimodular matrix, and solutions of the direct search keep the orientation whenever an equivalent one does.",
  ["inputs"], "all lattice pairs, both algorithms, 2D and 3D",
  "No test runs either search.",
  [L+"main_direct.py", L+"main_hnf.py"], [("post-processing of the solution list", L+"main_direct.py, "+L+"main_hnf.py")])
p("C19", "Symmetry reduction keeps one Hermite form per orbit",
  "For every list of Hermite normal forms and every lattice group, the reduced list is a subset of the input containing exactly one form from each orbit of sublattices under the group. Reducing pieces of the list separately and then reducing the concatenation gives the same orbits.",
  ["inputs", "schedules"], "all lists, groups and divisions into pieces",
  "No test reduces a list.",
  [L+"main_hnf.py"], [("orbit membership through the normal form", L+"main_hnf.py reduce_hnfs")])
p("C20", "Sublattice search result is independent of scheduling",
  "For every order in which parallel sublattice optimisations complete, every pool size, and for serial execution, the sublattice search returns the same best solutions: the requested number of correspondences of smallest distance, pairwise inequivalent under the proper symmetries of the two lattices, among all candidates produced for the sublattices (plus ties with the last one), sorted by distance. No sublattice whose size is within the volume threshold is left out, and when no size is within it the nearest positive size is used.",
  ["schedules", "inputs", "configurations"], "all completion orders, pool sizes, candidate lists and thresholds",
  "No test runs the search, serially or in parallel.",
  [L+"main_hnf.py"], [("merge_sols, add_sol, truncate_sols", L+"main_hnf.py"), ("polling loop over asynchronous results", L+"main_hnf.py")],
  [("sols, EXT_SOLS2, async_results", "merged list, equivalents already seen, tasks in flight", L+"main_hnf.py")])
p("C21", "Cell optimisation returns the best nearby lattice-invariant shears",
  "For every pair of bases the optimisation over lattice-invariant shears returns unimodular matrices of determinant +1 sorted by their true distance and pairwise inequivalent under the two special lattice groups. With the default depth, and whichever distance is chosen, at least the number of solutions requested is returned and the best one (in one of its equivalent forms) is not beaten by any matrix within three elementary shears of it; any such matrix closer than the last solution requested is equivalent to a returned one.",
  ["inputs", "configurations"], "all bases in 2D and 3D, distances, numbers of solutions",
  "No test runs the optimisation.",
  [L+"lat_opt.py", L+"slnode.py", L+"dfs.py"],
  [("breadth-first search over a pruned tree of transvections", L+"slnode.py"), ("steepest descent with cache", L+"dfs.py"), ("restart when a better minimum appears", L+"lat_opt.py bfs")],
  [("dopt, lopt, EXT_SOLS", "best matrices so far, their distances and equivalents", L+"lat_opt.py")])
p("C22", "Lattice reduction returns a reduced basis of the same lattice",
  "For every nonsingular basis, of integers or floats, LLL reduction returns a basis of the same lattice with the same orientation that is size-reduced (Gram-Schmidt coefficients at most 1/2 in absolute value) and satisfies the exchange condition with factor 4/3 for consecutive projections. The Gram-Schmidt helper returns mutually orthogonal columns and a unit lower triangular coefficient matrix that reproduce the basis. The input is not modified.",
  ["inputs"], "all nonsingular bases",
  "No test reduces a basis.",
  [C+"lattice_reduction.py"], [("Gram-Schmidt, size reduction, swapping", C+"lattice_reduction.py")])
p("C23", "Twin table and twin classification are right",
  "The twin table of a list of variants lists exactly the pairs, each once, that differ and can be connected by a rotation and a rank-one step (within the documented tolerance). A twin is reported conventional exactly when a 180 degree rotation of the parent's Laue group relates its variants, compound exactly when two different 180 degree rotations relate them, and every reported twin axis is the axis of such a rotation. The answers do not depend on the order in which they are asked for.",
  ["inputs"], "all variant sets and Laue groups",
  "No test touches twins.",
  [M+"twin.py"], [("istwinnable by the middle eigenvalue", M+"twin.py"), ("isconventional, ax", M+"twin.py")])
p("C24", "Twin parameters solve the twinning equation",
  "For every twinnable pair whose variants are related by a 180 degree rotation, both returned triples (Q, a, n) satisfy Q Uj - Ui = a n^T with Q a proper rotation and n a unit vector, and the two are different solutions, the first being the type I twin (its plane is normal to a twin axis); for other twinnable pairs they do so to within the twinnability tolerance. The cofactor parameters equal the norms of the inverse stretch and of the stretch applied to the twin axis, the directly computed cofactor values equal - U a . cof(U^2 - I) n for the two solutions, and asking for parameters of an untwinnable pair, or cofactor parameters of a compound twin, raises AttributeError.",
  ["inputs"], "all pairs of positive definite symmetric matrices",
  "No test touches twins.",
  [M+"twin.py"], [("_solvetwin closed forms", M+"twin.py"), ("XI, XII", M+"twin.py")])
p("C25", "Volume fractions and habit planes solve the habit plane equation",
  "Whenever a volume fraction f is reported for a twin, 0 <= f <= 1 and the average deformation U + f a n^T is compatible with the undeformed phase; a fraction is reported whenever one exists in the open interval, and compatibility answers agree. For variants related by a 180 degree rotation, every returned habit plane triple (R, b, m) for the chosen twin type has R a proper rotation and m a unit vector with (I + m b^T)(I + b m^T) equal to the right Cauchy-Green tensor C of the average deformation at f or 1 - f and R C^(1/2) = I + b m^T, and both habit planes of each of the two mixtures are returned; incompatible twins raise AttributeError.",
  ["inputs"], "all twins, all twin type selections",
  "No test touches twins.",
  [M+"twin.py"], [("_solve_f quadratic", M+"twin.py"), ("habitplanes, _solve_am", M+"twin.py")])
p("C26", "Rank-one compatibility is decided and solved correctly",
  "Two deformations are reported compatible exactly when the middle eigenvalue of the relative Cauchy-Green tensor is 1, and only positive definite symmetric 3x3 arrays count as stretch tensors. The austenite/martensite solvers return, for every compatible tensor C different from the identity, two pairs (b, m) with m a unit vector and (I + m b^T)(I + b m^T) = C, and the austenite/martensite solver returns nothing for an incompatible one instead of a wrong answer.",
  ["inputs"], "all pairs of nonsingular matrices, all symmetric positive definite tensors",
  "No test calls these functions.",
  [M+"Compatibility.py", U], [("isCompatible, AM_Solver", M+"Compatibility.py"), ("solve_rank1, pos_def_sym, sort_eig", U)])
p("C27", "Batched matrix helpers agree with matrix algebra",
  "For every list of square matrices of any dimension stored row-wise, the batched product, trace, determinant, transpose and eigenvalues are, entry by entry, those of the individual matrices, the cofactor matrix A' satisfies A'^T A = det(A) I, and removing duplicate rows keeps exactly one copy of each distinct row.",
  ["inputs"], "all dimensions, list lengths and entries",
  "No test calls these functions.",
  ["structrans/mat_math.py", M+"twin.py"], [("mat_dot, mat_trace, mat_det, mat_T, mat_eig, unique_rows, cofactor, eigSort", "structrans/mat_math.py")])
p("C28", "Unit cells have the right corners and edges; projections are right",
  "For every Bravais lattice in 2D or 3D the primitive and conventional unit cells have as corners the origin plus every sum of distinct basis vectors, each once, and as bonds exactly the edges of that parallelepiped (parallelogram). The stereographic projection of a direction along a zone axis has the length of the axis times tan(theta/2), theta being the angle to the axis after folding into the upper hemisphere, and points along the direction's component perpendicular to the axis, in the plane axes (z2, -z1, 0) and z x (z2, -z1, 0) (the first two coordinate axes when z lies along the third); pole figures project element by element.",
  ["inputs"], "all lattices, origins, directions and zone axes",
  "No test draws a cell or projects a direction.",
  [C+"visualization.py", C+"stereogram.py"], [("vertex, bonds, UnitCell", C+"visualization.py"), ("stereo_proj, pole_figure", C+"stereogram.py")])

p("C29", "The report of a search shows what the search returned",
  "Whenever a search of either kind displays or logs its result (display level 1 or more, the module's logger, or the direct search's log file), the text describes the two lattices searched and then shows exactly the returned solutions, in order and numbered from 1: for every conventional basis vector of the product its indices in the conventional cell of the parent, the rows of the stretch matrix, for the sublattice search the rows of the Hermite normal form, the sorted principal stretches, and the distance under its own name, each at the printed precision. With display level 0 nothing is printed, though the log is still written, and the display level does not change the solutions.",
  ["inputs"], "all pairs of lattices, numbers of solutions, distances and display levels, both searches",
  "No test reads a report; tests run with display off or ignore it.",
  [L+"main_direct.py", L+"main_hnf.py"], [("_sols_tostr, lprint", L+"main_direct.py"), ("_sols_tostr, lprint", L+"main_hnf.py")])

p("C30", "The bound that limits the direct search is the true minimum",
  "For every two bases A and M, given as the fourth order tensor of the form f(L) = |F^T F|^2 with F = A L M^-1 (as built by the direct search or symmetrised), the quartic minimisation returns the global minimum of f over all L with |L| = 1 within two percent, whatever the random starts, so that no correspondence of smaller distance lies outside the radius derived from it.",
  ["inputs"], "all pairs of bases whose minimum is well above the solver's absolute tolerance 1e-4 squared (2e-4 and more), all random starts",
  "Tests run one search; a minimisation that stops at a saddle or too early only shows for some lattices and starts.",
  [L+"quartic_opt.py", L+"main_direct.py"], [("quart_min", L+"quartic_opt.py"), ("alpha, rmax", L+"main_direct.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
