"""Writes /verif/properties.jsonl from the table below (kept in one place so ids stay stable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

G = "newt/"
p("C01", "Newtonian force and torque between point-mass arrays are the exact pair sum",
  "The gravitational force that one point-mass array exerts on another is the sum over all pairs of G m1 m2 d/|d|^3 directed from the first body's points towards the second's, and the torque is the sum of r x F about the origin over the first body's points. It is linear in both sets of masses (including zero and negative masses), additive over splitting either array, obeys Newton's third law for force and torque about the common origin, and is the same whether a single point is passed as one row or as a 1-row array.",
  ["inputs"], "All arrays of distinct point masses of any length, sign of mass and position, one-row or many-row form.",
  "Tests check one pair, one ring and one axis-aligned torque; the law must hold for every configuration, mass sign and array shape.",
  [G+"glib.py"], [("pair force", G+"glib.py: gmmr2_array"), ("pair sum and torque", G+"glib.py: point_matrix_gravity")])
p("C02", "Yukawa force and torque between point-mass arrays are the exact pair sum",
  "The Yukawa force that one point-mass array exerts on another is the sum over all pairs of alpha G m1 m2 (1/r^2)(1 + r/lambda) exp(-r/lambda) directed from the first body's points towards the second's, i.e. the gradient of the potential alpha G m1 m2 exp(-r/lambda)/r, and the torque is the sum of r x F about the origin. It is linear in alpha and in both sets of masses, additive, obeys Newton's third law, and tends to alpha times the Newtonian result for lambda much larger than the separation.",
  ["inputs"], "All arrays of distinct point masses, coupling strengths and positive ranges, one-row or many-row form.",
  "Tests exercise the Yukawa law only in one large-range limit and one shell; any other ratio r/lambda, sign or array form is unseen.",
  [G+"glib.py"], [("pair force", G+"glib.py: yukawa_array"), ("pair sum and torque", G+"glib.py: point_matrix_yukawa")])
p("C03", "Translating and rotating point-mass arrays are rigid motions",
  "Translating a point-mass array adds the vector to every position, and rotating it about a vector turns every position right-handedly by the angle about that axis through the origin (whatever the vector's length), leaving masses, row order and the input array unchanged. Hence motions compose, invert, preserve all mutual distances, and forces between jointly moved bodies rotate with them.",
  ["inputs", "histories"], "All sequences of translations and rotations by any vector, axis and angle on one-row or many-row arrays.",
  "Tests rotate by a handful of right angles about coordinate axes; composition and general axes or angles are never reached.",
  [G+"glib.py"], [("translation", G+"glib.py: translate_point_array"), ("Rodrigues rotation", G+"glib.py: rotate_point_array")])
p("C04", "Inner multipole moments of a point array are exact sums of solid harmonics",
  "For every degree l and order |m|<=l the inner moment of a point-mass array is the sum of m_i r_i^l times the conjugate spherical harmonic at that point (orthonormal harmonics with the Condon-Shortley phase), for arrays including points at the origin, on the z axis or with negative mass. The single-moment and whole-table routines agree, the table has shape (L+1)x(2L+1) with order m in column L+m and zeros where |m|>l, and it is additive over concatenating arrays.",
  ["inputs"], "All finite point arrays (including origin and axis points), all maximum degrees and orders of either sign.",
  "Tests look at a few low-degree entries of symmetric bodies, never at points at the origin with l>0 nor at general tables.",
  [G+"pg2Multi.py"], [("single moment", G+"pg2Multi.py: qmoment"), ("table", G+"pg2Multi.py: qmoments")])
p("C05", "Outer multipole moments of a point array are exact sums of irregular harmonics",
  "For every degree l and order |m|<=l the outer moment of a point-mass array is the sum of m_i r_i^-(l+1) times the spherical harmonic at that point, in the same (L+1)x(2L+1) layout, with the single-moment and whole-table routines agreeing. Together with the inner moments it reproduces the interaction energy: -4 pi G sum_lm q_lm Q_lm/(2l+1) converges to -G sum m m'/|r-r'| whenever every inner point is nearer the origin than every outer point.",
  ["inputs"], "All finite point arrays with no point at the origin, all maximum degrees and orders of either sign.",
  "Tests compare a few entries for symmetric rings; the full table and its use with inner moments for general positions is unseen.",
  [G+"pg2Multi.py"], [("single moment", G+"pg2Multi.py: Qmomentb"), ("table", G+"pg2Multi.py: Qmomentsb")])
p("C06", "Inner Yukawa moments of a point array are exact sums over every degree",
  "For every degree l and order |m|<=l the inner Yukawa moment of a point-mass array with range lambda is the sum of m_i i_l(r_i/lambda) times the conjugate spherical harmonic, where i_l is the modified spherical Bessel function of that same degree. This holds for arrays with points at the origin, and the single-moment and whole-table routines agree entry by entry.",
  ["inputs"], "All finite point arrays, all positive ranges, all maximum degrees and orders.",
  "No test calls the Yukawa moment routines at all.",
  [G+"pg2Multi.py"], [("single moment", G+"pg2Multi.py: imoment"), ("table", G+"pg2Multi.py: imoments")])
p("C07", "Rotating moments equals taking the moments of the rotated body",
  "Rotating a table of inner moments by z-y-z Euler angles (alpha, beta, gamma) yields exactly the moments of the body turned by gamma about z, then beta about y, then alpha about z, for any angles including beta outside [0, pi], and the matching sign rule holds for outer moments. The recursive and the explicit Wigner matrices are equal, unitary and compose as the rotations do; applying precomputed matrices, their conjugate transpose (inverse) and right multiplication are consistent with the direct rotation.",
  ["inputs", "histories"], "All Euler angles, degrees and moment tables, and compositions of rotations.",
  "Tests rotate a few bodies by a few right angles at low degree; the recursion's branches depend on beta's range, on degree and on every (m', m) entry.",
  [G+"rotations.py"], [("recursive H matrices", G+"rotations.py: rotate_H_recurs"), ("Wigner matrices", G+"rotations.py: wignerDl, dlmn, Dlmn, Dl"), ("application", G+"rotations.py: rotate_qlm, rotate_qlm_Ds, rotate_qlm_Ds_right")])
p("C08", "Translating inner moments equals taking the moments of the translated body",
  "Translating a table of inner moments by any vector (zero, along +z, along -z, or general) yields, with no truncation error at any degree, exactly the inner moments of the body displaced by that vector. The Clebsch-Gordan and the recursive implementations agree, translations add and invert, and the mass (monopole) is unchanged.",
  ["inputs", "histories"], "All translation vectors including zero and both z directions, all degrees, all moment tables, and sequences of translations.",
  "Tests translate a few bodies by one or two vectors at low degree; special-case branches (zero, +z) and high-order mixing are not covered together.",
  [G+"translations.py", G+"translationRecurs.py"], [("Clebsch-Gordan translation", G+"translations.py: translate_qlm"), ("recursive translation", G+"translationRecurs.py: translate_qlm, transl_newt_z_RR, apply_trans_mat")])
p("C09", "Translating outer moments follows the truncated irregular addition theorem",
  "Translating a table of outer moments of degree L by a vector shorter than the nearest source distance gives the outer moments of the displaced sources, up to exactly the terms of degree above L that the table does not contain. Both implementations give the same table for every vector (zero, +z, -z, general), the degree-L row is unchanged, and the error shrinks as L grows.",
  ["inputs"], "All outer moment tables and translation vectors, including zero and both z directions.",
  "Tests compare a single translation of one array at loose tolerance.",
  [G+"translations.py", G+"translationRecurs.py"], [("Clebsch-Gordan translation", G+"translations.py: translate_Qlmb"), ("recursive translation", G+"translationRecurs.py: translate_Qlmb, transl_newt_z_SS")])
p("C10", "Displacing a body turns its inner moments into the right outer moments",
  "Converting inner moments of degree L with a displacement longer than the body's extent gives the outer moments, about the original origin, of the body moved by that displacement, including every available inner degree up to L in every outer degree up to L. Both implementations agree for all displacement directions (along +z, -z, in the plane, general), and the error against the directly computed outer moments falls geometrically with L.",
  ["inputs"], "All inner moment tables and non-zero displacements in any direction.",
  "Tests compare low-degree entries for one or two displacements.",
  [G+"translations.py", G+"translationRecurs.py"], [("Clebsch-Gordan conversion", G+"translations.py: translate_q2Q"), ("recursive conversion", G+"translationRecurs.py: translate_q2Q, transl_newt_z_SR")])
p("C11", "The multipole force equals the truncated gradient of the multipole energy",
  "The force on a body with given inner moments, centred at any position (including the origin), in the field of given outer moments is exactly the gradient of the degree-L truncated multipole energy with respect to that position. It is real, linear in both tables, and converges to the sum of point-to-point forces as L grows when inner points stay inside the outer points. The breakdown of the force by inner order has one column per order holding the force of the moments of that order alone, so its columns add up to the force.",
  ["inputs"], "All pairs of inner and outer tables of equal degree and all positions.",
  "Tests compare a few configurations at loose tolerances, mostly at the origin or on an axis.",
  [G+"multipoleLib.py"], [("harmonic gradients", G+"multipoleLib.py: force_basis"), ("force sum", G+"multipoleLib.py: multipole_force")])
p("C12", "Multipole torques equal the torque on the turned body at every angle",
  "The torque about z computed from inner and outer tables, its Fourier coefficients, and their evaluation at any turntable angle all equal the z-torque on the body turned by that angle in the outer field, to the degree kept. The combined routine that also rotates by Euler angles and translates (inner-inner, inner-outer, outer-outer) gives the same torque as rotating and translating the tables first, for every displacement direction including zero and along z, and rejects unknown modes.",
  ["inputs", "configurations"], "All inner/outer tables, Euler angles, displacements, translation modes and turntable angles.",
  "Tests cover a few angles for one body per mode and never the special-cased displacements along z.",
  [G+"multipoleLib.py"], [("torque moments", G+"multipoleLib.py: torque_lm"), ("rotated and translated torque", G+"multipoleLib.py: torque"), ("angle series", G+"multipoleLib.py: torques_at_angle")])
p("C13", "Closed-form inner moments of homogeneous solids are the exact volume integrals",
  "For each solid offered with a total mass (annulus and cylinder sections, cones, spheres, triangular/rectangular/n-gon prisms, tetrahedra, pyramids), every inner moment up to the requested degree equals the solid-harmonic integral over exactly the described solid of uniform density carrying that mass. This holds for every physical parameter choice including off-centre azimuth, partial sections, degenerate inner radii and obtuse or one-sided triangles, at any degree.",
  ["inputs"], "All physical shape parameters and all maximum degrees.",
  "Tests compare a few parameter sets with coarse point clouds or numeric integrals at low degree.",
  [G+"qlm.py"], [("closed forms", G+"qlm.py: sphere, cylinder, annulus, cone, tri_iso_prism, tri_iso_prism2, tri_prism, rect_prism, ngon_prism, tetrahedron, tetrahedron2, pyramid")])
p("C14", "Explicit density-based inner moments of MULTIN solids are the exact integrals",
  "For each MULTIN primitive (rectangular block, annulus, cones, triangular prism, trapezoid, cylindrical section, tetrahedron, pyramid, holes) the explicit degree-5 table equals density times the solid-harmonic integral over the described solid, entry by entry. Requesting a smaller maximum degree returns the same entries truncated, and results scale linearly with density.",
  ["inputs"], "All physical shape parameters, densities and maximum degrees up to 5.",
  "Tests compare a few entries of single parameter sets, sometimes only the first four degrees.",
  [G+"qlmACH.py"], [("explicit tables", G+"qlmACH.py: rect_prism, annulus, cone, cone2, tri_prism, trapezoid, cylindrical_section, tetrahedron, cylhole, cylhole2, platehole, pyramid")])
p("C15", "Outer moments of extended solids are the exact volume integrals",
  "The outer moments of a uniform sphere equal its mass times the irregular harmonic at its centre, and those of an annular section equal the irregular-harmonic integral over exactly the described section, entry by entry up to the supported degree, for any azimuth, section angle and height range that excludes the origin.",
  ["inputs"], "All physical shape parameters and degrees up to the supported maximum.",
  "Tests compare selected entries of one parameter set.",
  [G+"bigQlm.py"], [("outer sphere and annulus", G+"bigQlm.py: sphere, annulus")])
p("C16", "Numerical-integration moments agree with the exact integrals they approximate",
  "Each numerically integrated inner or outer moment equals, within its quadrature tolerance, the real part of the exact integral of the same solid, mass, degree and order.",
  ["inputs"], "All physical shape parameters, degrees and orders.",
  "Tests compare these routines only with the closed forms for a few entries.",
  [G+"qlmNum.py", G+"bigQlmNum.py"], [("inner integrals", G+"qlmNum.py"), ("outer integrals", G+"bigQlmNum.py")])
p("C17", "Uniform point-cloud solids carry the stated mass and lie inside the stated solid",
  "Every uniform point-cloud generator returns equal-density points that all lie inside the described solid and fill it: total mass equals the requested mass, the centre of mass and second moments converge to those of the continuous solid as the grid is refined, and mirror symmetries of the solid are symmetries of the cloud.",
  ["inputs"], "All physical shape parameters and grid counts, including unequal counts per axis.",
  "Tests check total mass and a couple of moments for single cubic-grid parameter sets.",
  [G+"glibShapes.py"], [("grid generators", G+"glibShapes.py")])
p("C18", "Gauss-Legendre point-cloud solids integrate polynomials over the stated solid",
  "Every Gauss-Legendre point-cloud generator returns points inside the described solid whose masses are positive and sum to the requested mass. A block reproduces every polynomial moment its quadrature orders can, exactly, also with unequal orders per axis; the sieved solids fill the whole solid, keep its mirror symmetries, and agree with its centre of mass and second moments to a grid cell. Cones stand on z=0 with the apex up.",
  ["inputs"], "All physical shape parameters and quadrature orders.",
  "Tests check single parameter sets by comparing few moments.",
  [G+"gShapeGL.py"], [("quadrature generators", G+"gShapeGL.py")])
p("C19", "A body keeps moments, mass, centre of mass and mesh consistent over histories",
  "Through any sequence of creating, rotating, translating (including conversion from inner to outer moments) and adding bodies, a body's moment table, mass, centre of mass and mesh all describe the same physical object moved by the same motions. Adding bodies adds masses and moments, mass-averages centres of mass and never changes the added bodies, and operations that mix inner and outer descriptions or convert back to inner are refused without changing the body.",
  ["histories", "inputs"], "All sequences of body operations on all body types, inner and outer.",
  "No test drives the body classes through histories; consistency across four attributes is never asserted.",
  [G+"shapes.py", G+"genCAD.py"], [("body lifecycle", G+"shapes.py: Shape.rotate, Shape.translate, Shape.add"), ("constructors", G+"shapes.py: subclasses")],
  [("qlm", "moment table", "shapes.Shape"), ("mass", "total mass", "shapes.Shape"), ("com", "centre of mass", "shapes.Shape"), ("mesh", "CAD mesh", "shapes.Shape"), ("inner", "inner or outer moments", "shapes.Shape")])
p("C20", "Running a MULTIN program yields the moments its commands describe",
  "Interpreting a MULTIN program gives the moments of the assembly its commands build, in order: units, creation of each primitive at its density and position, rotation in degrees, translation, adding the working body to the total, exchanging and clearing working and total registers, loading stored moments, comments and blank lines, stopping at the end command. Every command affects only its documented register and commands never depend on unrelated later text.",
  ["programs"], "All well-formed MULTIN programs (command sequences, units, comments, primitives).",
  "Tests run a handful of fixed files; command interleavings, comments, register transfers and unit switches are combinatorial.",
  [G+"read_multiFor.py"], [("interpreter", G+"read_multiFor.py: read_mpc")],
  [("working register", "moments of the body being built", "read_mpc"), ("total register", "accumulated moments", "read_mpc"), ("unit factor", "cm or inch to m", "read_mpc")])
p("C21", "Stored moment files are read into SI tables exactly",
  "Reading a stored inner or outer moment file returns a table in which each listed degree/order entry appears at its index with sign and complex parts as written, converted from cgs to SI by the degree-dependent factor, with negative orders filled by the reality symmetry and unlisted entries zero.",
  ["inputs"], "All well-formed inner and outer moment files and maximum degrees.",
  "Tests read a few fixed files.",
  [G+"read_multiFor.py"], [("readers", G+"read_multiFor.py: read_gsq, read_gbq")])
p("C22", "Clebsch-Gordan coefficients are exact for all angular momenta",
  "Both coefficient routines return the Clebsch-Gordan coefficient with the standard phase convention for every combination of non-negative integer angular momenta and projections, including vanishing ones; combinations violating the triangle or projection rules give zero. The coefficients satisfy orthogonality and the exchange and reversal symmetries.",
  ["inputs"], "All integer (j1, m1, j2, m2, J, M).",
  "Tests check a small table of values and one sum rule.",
  [G+"clebschGordan.py"], [("log-gamma formula", G+"clebschGordan.py: cgCoeff"), ("binomial formula", G+"clebschGordan.py: cgCoeff2")])
p("C23", "Every moment table is well-formed and unphysical solids are rejected",
  "Every routine that produces a moment table of maximum degree L for a real body returns a complex (L+1)x(2L+1) table with zeros where |m|>l, the reality symmetry X(l,-m) = (-1)^m conj X(l,m), and monopole equal to the (real) mass over sqrt(4 pi) for inner tables, for every L including 0. Solids with unphysical dimensions (negative or zero lengths, radii out of order, section angles out of range) are refused with an error instead of producing numbers.",
  ["inputs"], "All moment-producing routines, shape parameters (physical and not) and maximum degrees from 0.",
  "Tests never check layout or rejection and rarely use L below 3.",
  [G+"qlm.py", G+"bigQlm.py", G+"qlmACH.py", G+"pg2Multi.py", G+"qlmNum.py", G+"bigQlmNum.py"], [("argument checks", G+"qlm.py, "+G+"bigQlm.py, "+G+"qlmACH.py, "+G+"qlmNum.py, "+G+"bigQlmNum.py"), ("symmetry fill", G+"qlm.py, "+G+"qlmACH.py, "+G+"pg2Multi.py")])
p("C24", "Embedding and truncating tables preserves every retained moment",
  "Changing the maximum degree of a moment table keeps every moment of degree present in both at its (degree, order) position, fills new ones with zero, and returns a table independent of the input; enlarging then shrinking is the identity.",
  ["inputs"], "All tables and old/new maximum degrees.",
  "Tests do not cover shrinking, growing and equality together for general tables.",
  [G+"multipoleLib.py"], [("embedding", G+"multipoleLib.py: embed_qlm")])
p("C25", "Library calls never modify their inputs nor return views that alias them",
  "No force, torque, motion, moment, rotation, translation, conversion or embedding call changes any array, matrix list or body passed to it, and changing a returned table or array never changes the arguments or other results. Repeating a call with the same arguments gives the same result.",
  ["histories"], "All public computations and all interleavings of calls with later modifications of their results.",
  "Tests use each result once and never modify results or re-inspect arguments.",
  [G+"translations.py", G+"rotations.py", G+"multipoleLib.py", G+"glib.py", G+"shapes.py"], [("copies", "np.copy / fresh arrays in each routine")])
p("C26", "The Octave port computes the same physics as the Python library",
  "The Octave point-mass routines give the same gravitational force and torque, rigid motions, multipole moments (order m >= 0) and point-cloud bodies as their definitions in the Python library for the same arrays, the rotation being in the sense the Octave documentation gives (counter-clockwise as seen from the origin).",
  ["inputs"], "All point arrays, vectors, axes, angles and body parameters accepted by the Octave functions.",
  "The Octave test blocks check one or two axis-aligned cases with tolerance tests that a wrong sign can pass.",
  ["matlab-src"], [("forces", "matlab-src/*: Gmmr2Array, pointMatrixGravity"), ("motions", "matlab-src/*: translatePMArray, rotatePMArray"), ("moments and bodies", "matlab-src/*: computeMoments, genPointMass*")])
p("C27", "Generated meshes describe the same solid as the moments",
  "The surface mesh generated for each primitive encloses, within the meshing tolerance, the described solid: same volume, same centre of mass, same extents and orientation; rotating, translating and combining meshes move it exactly as the moments are moved.",
  ["inputs", "histories"], "All physical shape parameters and sequences of mesh motions.",
  "No test examines the meshes.",
  [G+"genCAD.py"], [("mesh builders", G+"genCAD.py"), ("mesh motions", G+"genCAD.py: rotate_mesh, translate_mesh")])
p("C28", "Yukawa moment translation matrices satisfy the addition theorem",
  "The coaxial translation matrices for Yukawa moments (regular to regular and regular to singular, one matrix per order m >= 0 over degrees m..L) re-expand i_l(kr)Y_lm and k_l(kr)Y_lm about a centre displaced by dr along +z: applied to the inner Yukawa moments of a body they give the inner moments, or for a far centre the outer moments, of the same body seen from the displaced centre; no displacement changes nothing.",
  ["inputs"], "All degrees, displacements dr >= 0 (dr > 0 for regular to singular) and inverse ranges k > 0.",
  "No test calls the Yukawa recursions.",
  [G+"translationRecurs.py"], [("recursions", G+"translationRecurs.py: transl_yuk_z_SR_recurs, transl_yuk_z_RR_recurs"), ("application", G+"translationRecurs.py: apply_trans_mat")])
if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(path, "w") as f:
        for q in P:
            assert len(q["title"]) <= 80, q["title"]
            f.write(json.dumps(q) + "\n")
