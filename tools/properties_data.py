PBT = "property-based testing (Hypothesis): "

prop("P01", "Number arithmetic is exact",
     "Sum, difference, product and quotient of two numbers (a+b*tau)/c (icosahedral) or (a+b*sqrt(3)/2)/c (dodecagonal) equal "
     "the true value of the operation, whatever the size or sign of the integers and whether or not the operands are reduced. "
     "The result is in lowest terms with a positive denominator, division by zero gives no result, and the operands are left unchanged. "
     "The same holds along any chain of operations in which each result feeds the next one.",
     "all pairs of numbers with integers up to 1e9 in size, and chains of up to 8 operations",
     "No repository test covers the arithmetic of src/; the legacy tests compare a handful of small constants, so wrong results "
     "for negative denominators, unreduced operands, special values (equal, opposite, conjugate) or large integers stay unseen.",
     both("math1.py"), [("add, sub, mul, div with gcd reduction and sign normalisation", "math1.py")],
     PBT + "library result against an independent exact field implementation, single operations and operation chains",
     "Random search over operands up to 1e9; trusts the reference quadratic-field arithmetic (pbt/field.py, Python integers).",
     over=("inputs", "histories"), observe=["ico2.math1", "dode2.math1"])

prop("P02", "Vector and matrix operations are exact",
     "Vector sums, differences, scalings, inner and outer products, matrix products, determinants, matrix powers and centroids of "
     "exact numbers equal the true value component by component, in lowest terms, for every dimension the operation accepts. "
     "Applying an operation to a set of vectors or to a set of cells is the same as applying it to each member. Arguments are never modified.",
     "all vectors and matrices of exact numbers of the supported shapes",
     "The repository's tests never call these functions on generic operands; one wrong index shows only for particular components.",
     both("math1.py"), [("add_vectors, mul_vectors, inner_product, outer_product, dot_product, det_matrix, centroid", "math1.py")],
     PBT + "differential against exact reference linear algebra",
     "Random search, components up to 40 with denominators up to 6, dimensions up to 7.")

prop("P03", "Projections and numerical values match the exact coordinates",
     "The physical- and internal-space components of a 6D vector are exactly the published linear maps of its coordinates, and the "
     "internal-only lift keeps the internal component while its physical component is zero. Every floating-point value (number, "
     "vector, length, projection, area, volume, single or for a set) agrees with the exact one to rounding accuracy.",
     "all 6D vectors, triangles and tetrahedra with exact coordinates",
     "Tests look at a few fixed vectors; a sign or index error in one component of the projection changes results only for vectors with that component.",
     both("math1.py", "numericalc.py"), [("projection, projection3, projection_perp", "math1.py"), ("numerical_vector, projection_numerical, ...", "numericalc.py")],
     PBT + "exact and float results against reference projection",
     "Random search; floating-point comparison to 1e-9 relative to operand size.")

prop("P04", "Symmetry operations are the point group and act rigidly",
     "The list of symmetry operations contains exactly the 120 icosahedral (24 dodecagonal) operations, each once, identity first. "
     "Applying an operation about any centre to a vector, a set of vectors or a domain moves every vertex exactly as that operation does "
     "about that centre, keeps lengths in both spaces, and applying two in turn equals applying their product.",
     "all operations and pairs of operations, all vectors and centres",
     "Tests use one or two fixed domains around the origin, never generic centres or pairs of operations.",
     both("symmetry.py"), [("icosasymop / dodesymop", "symmetry.py"), ("symop_vec, symop_obj", "symmetry.py")],
     PBT + "group found independently from the metric; exact images; composition law",
     "Exhaustive over the operations, random over vectors and centres (components up to 9).")

prop("P05", "Symmetric domains are exact orbits",
     "Generating the symmetric domain of a set of cells about a centre returns exactly the images of every cell under every point-group "
     "operation, one per operation and cell, and a single selected operation returns exactly that image. "
     "The list of vectors equivalent to given ones holds each distinct image once and nothing else.",
     "all sets of cells, vectors and centres",
     "Tests generate the orbit of a fixed asymmetric unit about one centre and compare only counts or files.",
     both("occupation_domain.py", "symmetry.py"), [("symmetric, symmetric_0", "occupation_domain.py"),
      ("generator_obj_symmetric_*, generator_equivalent_vec(tors)", "symmetry.py")],
     PBT + "multiset of returned cells against reference orbit", "Random search; cells with components up to 9, denominators up to 4.")

prop("P06", "Shifting a domain moves every vertex exactly",
     "Shifting a domain by a 6D vector adds exactly that vector to every vertex, in lowest terms, keeping the number and order of cells "
     "and vertices. Shifting back restores the domain and two shifts equal one shift by the sum; the given domain is not changed.",
     "all domains and shift vectors", "Tests shift one domain by one vector.",
     both("occupation_domain.py"), [("shift", "occupation_domain.py")],
     PBT + "exact reference, inverse and composition relations", "Random search; components up to 40, denominators up to 6.")

prop("P07", "Volume and area are exact",
     "The volume (icosahedral) or area (dodecagonal) of a domain is the exact number obtained by adding the measures of its cells, "
     "never negative and in lowest terms. It does not change when the domain is shifted, rotated by a symmetry operation, subdivided, or its "
     "cells, vertices or coordinates are written differently, and the symmetric domain has 120 (24) times the volume of its asymmetric part.",
     "all single cells, domains and collections of domains",
     "Tests compare the volume of a few fixed domains.",
     both("occupation_domain.py", "utils.py"), [("volume", "occupation_domain.py"), ("tetrahedron_volume(_6d), triangle_area(_6d), obj_volume_6d", "utils.py")],
     PBT + "exact determinant oracle plus metamorphic relations", "Random search; components up to 9, denominators up to 4.")

prop("P08", "Icosahedral intersection is exactly the common part",
     "The intersection of two icosahedral domains is a set of proper, non-overlapping tetrahedra whose union is exactly the set of points "
     "common to both: nothing missing, nothing extra, whatever the relative position (separate, touching, sharing vertices, edges or faces, "
     "contained, identical) and the number of cells. When the domains share no volume the result is empty; the given domains are not modified.",
     "all pairs of domains made of interior-disjoint tetrahedra",
     "Tests intersect a few fixed domains; degenerate contacts (vertex on face, edge through edge, coplanar faces) depend on exact coincidences that fixed inputs do not sample.",
     [I + "two_occupation_domains.py", I + "intsct.py", I + "math1.py", I + "numericalc.py", I + "utils.py"],
     [("intersection", I + "two_occupation_domains.py"), ("intersection_two_tetrahedron, tetrahedralization", I + "intsct.py")],
     PBT + "exact convex clipping oracle (measure, containment, non-overlap)",
     "Random search over cells (generic and degenerate), subdivided domains, published vertices and parts of triacontahedra; trusts exact clipping in pbt/geom.py.")

prop("P09", "Dodecagonal intersection is exactly the common part",
     "The intersection of two dodecagonal domains is a set of proper, non-overlapping triangles whose union is exactly the set of points "
     "common to both: nothing missing, nothing extra, whatever the relative position and the number of cells. "
     "When the domains share no area the result is empty; the given domains are not modified.",
     "all pairs of domains made of interior-disjoint triangles",
     "Tests intersect a few fixed domains; degenerate contacts are not sampled.",
     [D + "two_occupation_domains.py", D + "intsct.py", D + "math1.py", D + "numericalc.py", D + "utils.py"],
     [("intersection", D + "two_occupation_domains.py"), ("intersection_two_triangles, triangulation", D + "intsct.py")],
     PBT + "exact polygon clipping oracle", "Random search; trusts exact clipping in pbt/geom.py.")

prop("P10", "The simple form of an intersection covers the same region",
     "Asking for the simple form of an intersection gives exactly the same region as the standard form, again as proper non-overlapping cells, "
     "and never with more cells. A cell of the first domain that lies completely inside the second one is returned whole.",
     "all pairs of domains", "Tests run the simple form on one or two fixed pairs without comparing regions.",
     both("two_occupation_domains.py", "intsct.py"), [("intersection(kind='simple')", "two_occupation_domains.py")],
     PBT + "exact region oracle and comparison of the two forms", "Random search in both systems.",
     over=("inputs", "configurations"))

prop("P11", "Convex intersection is exactly the common part",
     "For two convex domains, the convex intersection returns proper non-overlapping cells whose union is exactly the common part, including "
     "when one contains the other, when no vertex of one lies inside the other, and when they only touch (empty result).",
     "all pairs of convex domains given by face-to-face cells", "Only fixed pairs are run, and only where vertices of one lie inside the other.",
     both("two_occupation_domains.py", "intsct.py"), [("intersection_convex", "two_occupation_domains.py")],
     PBT + "exact clipping oracle", "Random search in both systems.")

prop("P12", "An intersection depends only on the two regions",
     "The region of an intersection does not change when the domains are swapped, their cells or vertices are reordered, coordinates are "
     "unreduced or differ by a vector with no internal component, or the call is repeated, and it moves with the domains under a common symmetry operation or shift. "
     "This also holds along sequences in which the result of one intersection is intersected with the next domain.",
     "all pairs and sequences of domains and all equivalent ways of writing them",
     "Tests give each pair once, in one order and one form.",
     both("two_occupation_domains.py", "intsct.py", "occupation_domain.py"), [("intersection", "two_occupation_domains.py"), ("remove_doubling_in_perp_space", "utils.py")],
     PBT + "metamorphic relations and operation sequences against exact clipping", "Random search; sequences up to depth 3.",
     over=("inputs", "histories"))

prop("P13", "XYZ files round-trip exactly",
     "Writing a domain, its edges or its vertices to an XYZ file and reading it back gives the same exact coordinates in the same order, and the "
     "file's point count, numerical coordinates and (icosahedral) total and per-cell volumes agree with the exact data. A file is complete when the call returns, "
     "saving under an existing name replaces the old contents, and no other file is touched.",
     "all sets of cells, edges, triangles and vertices, file names and sequences of saves and loads",
     "Tests write one domain and do not read it back.",
     both("occupation_domain.py", "utils.py"), [("write_xyz, write, read_xyz, generator_xyz_*", "occupation_domain.py, utils.py")],
     PBT + "round trip and independent parse of the written file", "Random search; files written in scratch folders only.",
     over=("inputs", "histories"))

prop("P14", "VESTA files show exactly the domain",
     "A VESTA file written for a domain contains every cell (normal form) or every vertex and every edge exactly once (merged forms), nothing else, at the "
     "internal-space coordinates of the exact vertices, each bond with the right length and the requested colour. The file is complete when the call returns, "
     "replaces an older one of the same name, and the vertex list returned with the pod/atm form follows the order in the file.",
     "all domains, display forms, colours and file names",
     "Tests write one file and never look at its contents.",
     both("occupation_domain.py", "utils.py"), [("write_vesta, write(format='vesta')", "occupation_domain.py")],
     PBT + "independent parse of the written file compared with the exact domain", "Random search; parser covers the sections the library writes; coordinates to six decimals.",
     over=("inputs", "configurations"))

prop("P15", "pod and atm files describe exactly the domain",
     "The pod and atm files written for a domain whose cells share a vertex name that vertex as the centre, list every other vertex once, and their cell index list "
     "gives back exactly the cells. A domain without a common vertex is refused and nothing is written. Files written from vertex and cell lists hold each listed cell, "
     "with positions relative to the chosen centre, the requested shift and the announced counts.",
     "all domains with and without a common vertex, all vertex and cell lists, positions and shifts",
     "Tests never read the files back.",
     both("occupation_domain.py"), [("obj2podatm, write_podatm", "occupation_domain.py")],
     PBT + "independent parse of the files, cells rebuilt from the index lists", "Random search; coordinates to the decimals written.")

prop("P16", "Surface, edges and border edges are exactly those of the domain",
     "For a domain whose cells meet face to face, the surface consists of exactly the faces that belong to one cell only, the edge list holds each edge once, and the "
     "border edges are exactly the edges at which the surface is not flat (icosahedral) or the outline (dodecagonal), with pieces in one straight line joined into one edge. "
     "Every returned vertex is one of the domain's own exact vertices, and the domain is not modified.",
     "all domains of face-to-face cells, convex or not, including complete and partial orbits of the point group",
     "The tests never generate a surface or border; the legacy scripts draw a few fixed ones and do not check them.",
     both("occupation_domain.py", "utils.py"),
     [("surface, generator_surface_1", "utils.py"), ("generate_border_edges, outline", "occupation_domain.py, utils.py"), ("generator_unique_edges", "utils.py")],
     PBT + "independent exact face/edge counting and exact coplanarity",
     "Random search over fans, wedges and partial orbits plus the triacontahedron and dodecagon; coinciding vertices are given by the same coordinates.")

prop("P17", "Simplification and merging by hand keep the region exactly",
     "Simplifying a domain gives proper, non-overlapping cells covering exactly the same region: a convex domain is built from its corners only, a domain that is not convex is "
     "not filled up. The convex hull of a domain covers exactly its hull. Merging by hand writes and returns every vertex once, and each group of vertices chosen gives cells filling "
     "exactly the hull of those vertices.",
     "all domains of face-to-face cells and all choices of vertex groups",
     "No test simplifies a domain; a wrong hull shows only for particular shapes.",
     both("occupation_domain.py", "utils.py"), [("simplification, simple_hand_step1, simple_hand_step2", "occupation_domain.py"), ("generate_convex_hull, generator_surface_1", "utils.py")],
     PBT + "exact volume and hull oracle", "Random search over the shapes of P16.")

prop("P18", "Duplicates, equality and neighbours are decided by exact position",
     "Removing duplicates from a list of vectors keeps each distinct vector (or each distinct internal-space position) exactly once and invents none; two cells, faces or edges are equivalent "
     "exactly when they have the same set of vertices in internal space, and neighbours exactly when they share a face. Two cells (segments) are merged into one exactly when together "
     "they form one, which is returned with the right vertices.",
     "all lists of vectors with repetitions and all pairs of cells, faces and edges, also when the same position is written in different ways",
     "The self-tests remove doubles in one small random list; pairs sharing some vertices are not sampled.",
     both("utils.py", "intsct.py"),
     [("remove_doubling, remove_doubling_in_perp_space, remove_vector, sort_vctors, middle_position", "utils.py"), ("equivalent_*, check_two_*_connectivity, merge_two_*", "utils.py")],
     PBT + "set comparison of exact internal-space positions", "Random search; lists up to about ten vectors.")

prop("P19", "Point location and crossing points are right",
     "A point inside a cell, domain, triangle or segment, or exactly on its boundary, is reported in, and a point clearly outside is reported out; points that are exactly coplanar are recognised and others are not. "
     "A segment and a triangle, or two segments, are reported to cross exactly when they do, and the crossing point returned is exact.",
     "all points, cells, triangles and segments with exact coordinates, except misses below the documented tolerance",
     "No test locates a point or crosses two segments; special positions (on a vertex, edge or face) need constructed inputs.",
     both("numericalc.py", "intsct.py", "math1.py"),
     [("inside_outside_*, on_out_surface, point_on_segment, coplanar_check", "numericalc.py, math1.py"), ("intersection_segment_surface, intersection_two_segment", "intsct.py")],
     PBT + "exact barycentric oracle; positions constructed inside, on vertices, edges and faces, and outside",
     "Random search; near misses below the library's tolerance of 1e-6 are not judged.")

prop("P20", "Points are divided into cells that exactly fill their hull",
     "Dividing a set of points in internal space into tetrahedra (triangles) gives proper, non-overlapping cells whose vertices are the given points and whose union is exactly the convex hull; "
     "points that lie in a plane (on a line) give no cell.",
     "all sets of distinct points, including points on a common sphere, on faces and edges of the hull, and in any order",
     "Tests do not divide point sets; degenerate sets (cospherical, collinear) are where Delaunay division goes wrong.",
     both("utils.py"), [("tetrahedralization_points, triangulation_points", "utils.py")],
     PBT + "exact hull volume and exact overlap oracle", "Random search; sets of up to nine points, nearly flat sets not judged.")

prop("P21", "The asymmetric part is exactly the part inside the sector",
     "The asymmetric part of an icosahedral domain with respect to a position and three vectors is proper non-overlapping cells that cover exactly the part of the domain inside the sector spanned there. "
     "For a domain symmetric under the point group, with the vectors along the axes bounding a fundamental sector, its volume is exactly 1/120 of the domain's, and its orbit is the domain again.",
     "all domains within reach of the vectors, all sectors",
     "One legacy script prints the asymmetric part of one domain; the current package has no test of it.",
     [I + "occupation_domain.py", I + "two_occupation_domains.py", I + "intsct.py"], [("asymmetric", I + "occupation_domain.py")],
     PBT + "exact clipping oracle and orbit volume", "Random search; icosahedral only (no such function in the dodecagonal package).")

prop("P22", "Site symmetry and equivalent sites are complete",
     "For a site of the dodecagonal lattice given in the unit cell, the site symmetry lists exactly the point-group operations that bring the site to itself up to a lattice translation. "
     "The coset representatives bring the site to each of its equivalent positions exactly once, and their number times the order of the site symmetry is 24.",
     "all sites with coordinates in [0,1), rational or irrational, in the 4D and 5D description",
     "The self-test of the module never asks for a site symmetry; special positions are many and differ in the translation needed.",
     [D + "symmetry.py"], [("site_symmetry, coset, site_symmetry_and_coset, translation", D + "symmetry.py")],
     PBT + "exact group action modulo the lattice", "All sites with halves and thirds, plus random sites on mirrors and in general position.",
     over=("inputs", "configurations"))

prop("P23", "Similarity transformations are exact similarities",
     "The dodecagonal similarity transformation with exponent m multiplies squared lengths in physical space by exactly (2+sqrt(3))^m and in internal space (and areas of domains) by (2-sqrt(3))^m, "
     "keeps angles, orientation and the coordinate along the periodic axis, and maps the lattice to itself. Exponents add, and m followed by -m gives the vectors back exactly.",
     "all vectors, domains and exponents from -45 to 45 (-6 to 6 for domains)",
     "No test calls it.",
     [D + "symmetry.py", D + "occupation_domain.py"], [("similarity, similarity_vec, similarity_triangle, similarity_obj", D + "symmetry.py")],
     PBT + "exact metric, composition and inverse relations; intersections of similar domains", "Random search; exponents beyond 45 in size not explored.")

CY = "src_cython/"

prop("P24", "The Cython packages compute exactly too",
     "In the Cython packages the sum, difference, product and quotient of two numbers of the field, products of vectors and matrices, projections onto the two spaces, and areas and volumes "
     "are exact: they equal the field value in lowest terms, and the numerical functions agree with them to rounding.",
     "all numbers with integers up to 10**5 and all vectors and domains of the usual size",
     "The Cython test scripts print values for one input and are not run by the test suite.",
     [CY + "ico/math1.pyx", CY + "ico/utils.pyx", CY + "ico/numericalc.pyx", CY + "dode/math12.pyx", CY + "dode/utils12.pyx", CY + "dode/numericalc12.pyx"],
     [("add, sub, mul, div, inner_product, outer_product, projection, det_matrix", CY + "ico/math1.pyx, " + CY + "dode/math12.pyx"), ("obj_volume_6d, obj_area_6d, ...", CY + "*/utils*.pyx")],
     PBT + "exact field arithmetic oracle; the packages are compiled by the check", "Random search; integers that could overflow are not explored.")

prop("P25", "The Cython packages move domains exactly too",
     "In the Cython packages shifting a domain moves every vertex by exactly the given vector, the symmetry operations of a domain form exactly the orbit of the point group about the given centre, "
     "and a similarity transformation is exact. For the dodecagonal lattice the site symmetry and the coset of a site are complete.",
     "all domains, centres and shifts; sites with rational coordinates in the unit cell",
     "The Cython test scripts move one domain and are not run by the test suite.",
     [CY + "ico/symmetry.pyx", CY + "ico/occupation_domain.py", CY + "dode/symmetry12.pyx", CY + "dode/occupation_domain.py"],
     [("shift, symmetric, generator_*", CY + "*/occupation_domain.py"), ("site_symmetry, coset, similarity_*", CY + "*/symmetry*.pyx")],
     PBT + "exact group action; the packages are compiled by the check", "Random search.",
     over=("inputs", "configurations"))

prop("P26", "Generated dodecagonal structures are the cut of the lattice",
     "Generating a dodecagonal structure lists exactly the lattice points within the index range whose internal-space position, seen from the shifted origin and with the phason strain applied, falls into "
     "the occupation domain, each exactly once, at its physical-space position and labelled with its domain. The files written hold the same points.",
     "all models of one or several domains, origin shifts, phason matrices and index ranges",
     "No test generates a structure.",
     [CY + "dode/strc12.pyx", CY + "dode/occupation_domain.py", CY + "dode/numericalc12.pyx"],
     [("strc", CY + "dode/strc12.pyx"), ("qcstrc", CY + "dode/occupation_domain.py")],
     PBT + "independent cut-and-project oracle over the whole index range", "Random search; index range up to 4; points on the border of a domain may go either way.")

prop("P27", "The Cython packages write and read domains without loss",
     "In the Cython packages a domain, or a set of faces, edges or vertices, written to an XYZ file and read back is the same, vertex by vertex and in the same order; the file announces the right number of points, "
     "their coordinates are those of internal space, and the volume or area quoted for the domain and for each cell is exact.",
     "all domains and sets of vertices, file names, new and existing folders, and files overwritten by shorter ones",
     "The Cython test scripts write files nobody reads back and are not run by the test suite.",
     [CY + "ico/occupation_domain.py", CY + "dode/occupation_domain.py"],
     [("write, write_xyz, read_xyz", CY + "*/occupation_domain.py")],
     PBT + "round trip, independent XYZ reader, exact measures", "Random search.",
     over=("inputs", "histories"))

prop("P28", "The Cython packages intersect domains exactly too",
     "In the Cython packages the intersection of two domains covers exactly their common part without overlapping itself (cells without volume aside), whichever of the equivalent functions computes it.",
     "all pairs of domains whose edges and faces cross at points with small integers, so that 64-bit integers suffice",
     "The Cython test scripts print one intersection and are not run by the test suite.",
     [CY + "ico/intsct.pyx", CY + "ico/two_occupation_domains.py", CY + "dode/intsct12.pyx", CY + "dode/numericalc12.pyx", CY + "dode/occupation_domain.py"],
     [("intersection, intersection_2, intersection_3", CY + "ico/two_occupation_domains.py"), ("intersection", CY + "dode/occupation_domain.py")],
     PBT + "exact clipping oracle", "Random search; cells at dyadic positions of a common frame, lattice cells, subdivided domains.")

prop("P29", "The Cython packages find surfaces, edges and outlines exactly too",
     "In the Cython packages the surface of a domain consists of exactly the triangles that belong to one cell only, its edges are each returned once, and the outline of a dodecagonal domain "
     "is exactly its border, piece by piece or with straight pieces joined; the triangulation from a point joins that point to every such side. Lists freed of duplicates "
     "(vertices, edges, cells) keep each item exactly once.",
     "all domains whose cells meet face to face, of ordinary size; lists with and without repetitions",
     "The Cython test scripts print one surface and are not run by the test suite.",
     [CY + "ico/utils.pyx", CY + "ico/occupation_domain.py", CY + "dode/utils12.pyx", CY + "dode/occupation_domain.py"],
     [("gen_surface, generate_edges, generator_obj_edge", CY + "ico/occupation_domain.py, " + CY + "ico/utils.pyx"), ("outline, outline1, triangulation", CY + "dode/occupation_domain.py"),
      ("remove_doubling_*", CY + "*/utils*.pyx")],
     PBT + "exact incidence counting on generated domains; the packages are compiled by the check", "Random search.")

prop("P30", "The Cython packages export for VESTA and for refinement correctly too",
     "A VESTA file written by the Cython packages holds exactly the cells of the domain (or, merged, exactly its vertices and edges, each once) at their internal-space positions and in the colour asked for, "
     "with bonds drawn up to the length asked for; pod and atm files list exactly the domains, vertices and tetrahedra asked for, relative to their centre, with the right counts.",
     "all domains and lists of tetrahedra, colours, bond lengths, new and existing folders, and files overwritten",
     "The Cython test scripts write files nobody reads back and are not run by the test suite.",
     [CY + "ico/occupation_domain.py", CY + "dode/occupation_domain.py"],
     [("write_vesta, write, write_podatm", CY + "ico/occupation_domain.py"), ("write_vesta, write", CY + "dode/occupation_domain.py")],
     PBT + "independent reader of the files, exact geometry", "Random search; merged drawings of up to eight cells.",
     over=("inputs", "histories"))

prop("P31", "The Cython packages cut out asymmetric units and simplify exactly too",
     "In the Cython packages the asymmetric part of a domain is exactly its common part with the cone given by the position and the vectors (5 times their length for icosahedral, 10 times for "
     "dodecagonal domains, where the outline is returned); simplification covers exactly the same region; merging by hand fills exactly the convex hulls of the vertices listed; "
     "and the crossing point of two dodecagonal segments is exact.",
     "all domains, positions and vectors of ordinary size, so that 64-bit integers suffice",
     "The Cython test scripts print one result and are not run by the test suite.",
     [CY + "ico/occupation_domain.py", CY + "ico/intsct.pyx", CY + "ico/mics.pyx", CY + "dode/occupation_domain.py", CY + "dode/intsct12.pyx", CY + "dode/numericalc12.pyx"],
     [("asymmetric, simplification, simple_hand_step1, simple_hand_step2", CY + "ico/occupation_domain.py"), ("asymmetric, intersection_two_segments", CY + "dode/occupation_domain.py")],
     PBT + "exact clipping and convex-hull oracles", "Random search; dodecagonal asymmetric parts of single triangles.")
