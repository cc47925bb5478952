"""property id -> (python module holding the check, what the check covers)."""
CHECKS = {
    "C01": ("c_points", "Covers arrays of 1-164 points on coarse and fine rational lattices, any sign of mass, all one-row forms, both orders, nine unit systems."),
    "C02": ("c_points", "Covers the same arrays and units for six (alpha, lambda) pairs including a short range, and the large-range limit."),
    "C03": ("c_points", "Covers histories of translations and rational rotations about 12 axes and 21 angles (plus whole turns), nine unit systems."),
}
NOT_APPLICABLE = {}
CHECKS.update({
    "C04": ("c_inner", "Covers bodies of 1-7 lattice points (origin, axis, plane, general) at degrees 0-20, all orders, nine unit systems."),
    "C07": ("c_inner", "Covers tables to degree 15 (inner) and 13 (outer), entries to 14, Euler angles from 21 rational angles plus whole turns, inner and outer tables, all application forms."),
    "C08": ("c_inner", "Covers degrees 0-15, zero/+z/-z/in-plane/general rational displacements, both implementations, histories, nine unit systems."),
})
CHECKS.update({
    "C05": ("c_outer", "Covers 1-3 sources at rational distances in every octant, degrees 0-17, plus the interaction energy."),
    "C06": ("c_outer", "Covers bodies of 1-4 points incl. origin, degrees 0-15, r/lambda up to about 9 (44-term exact partial sums)."),
    "C09": ("c_outer", "Covers degrees 0-12, zero/+z/-z/in-plane/general rational displacements, both implementations, chains, and convergence."),
})
CHECKS.update({
    "C10": ("c_couple", "Covers degrees 0-10, displacements in all octants, along +z/-z and in the plane, both implementations, and convergence."),
    "C11": ("c_couple", "Covers degrees 0-14, positions at the origin, on axes, in planes and general, the per-order split, and convergence to the pair sum."),
    "C12": ("c_couple", "Covers degrees 0-8, all three modes, zero/+z/-z/general displacements, rational Euler angles and turntable angles, unequal degrees."),
})
CHECKS.update({
    "C13": ("c_solids", "Covers all 12 solids with rational dimensions, degrees 0-12, 17 section angles, 21 azimuths plus turns, one-sided/obtuse/negative-side triangles, 8 side counts."),
    "C14": ("c_solids", "Covers all 12 density routines (both cylinder-hole forms) with rational dimensions at every degree 0-5, truncation and larger tables."),
})
CHECKS.update({
    "C15": ("c_solids", "Covers spheres at rational centres in all octants and annular sections above/below the plane, 12 section angles, 16 azimuths plus turns, degrees 0-7."),
})
CHECKS.update({
    "C22": ("c_algebra", "Covers j1, j2 up to 14 (8 in the denser half), all J and projections, and combinations breaking each rule; python and numpy integers."),
})
CHECKS.update({
    "C24": ("c_algebra", "Covers chains of enlarging/shrinking between degrees 0-9 with user writes in between, every entry distinct."),
    "C25": ("c_algebra", "Covers histories of 44 calls among 51 routines on a shared heap, user writes to any argument or result, repeated calls."),
})
CHECKS.update({
    "C23": ("c_format", "Covers 34 solid routines with valid and impossible dimensions (each role and relation broken), degrees 0-6, and the tables of point arrays."),
})
CHECKS.update({
    "C20": ("c_multin", "Covers programs of up to 14 commands over all 11 primitives, both units, comments in every place, tricky part names, degrees 0-4 (and 6-7)."),
})
CHECKS.update({
    "C21": ("c_multin", "Covers inner and outer files of degree 0-10, complete or ending early, several number layouts, entries of both signs."),
})
CHECKS.update({
    "C17": ("c_clouds", "Covers 13 grid generators with rational dimensions, unequal grid counts 22-30 (4-12 for some blocks), 12 section angles, plus seeded random shells."),
    "C18": ("c_clouds", "Covers 6 Gauss-Legendre generators, unequal orders 24-32 (1-9 for blocks, exact to degree min(7, 2n-1))."),
})
CHECKS.update({
    "C16": ("c_numeric", "Covers the 5 inner and 3 outer quadrature routines with rational dimensions, heights on both sides of the plane, degrees 0-4 (outer 0-3); and the three integrands themselves at rational points, all orders to degree 12."),
})
CHECKS.update({
    "C19": ("c_body", "Covers all body classes with rational dimensions, moments to degree 4, and histories of turns, moves, conversions, additions and refusals over a pool of three bodies."),
    "C26": ("c_octave", "Covers the Octave functions on arrays of up to 65 points, 12 axes, 16 angles, moments to degree 5, 6 array builders, 3 random bodies (fixed seeds), scan levelling."),
    "C27": ("c_mesh", "Covers 16 mesh builders with rational dimensions and histories of turns, moves, unions and holes over a pool of three meshes; exports."),
})
CHECKS.update({
    "C28": ("c_yukshift", "Covers degrees 0-6, all orders, k from 1/1000 to 30 and dr from 1e-6 to 3 (and no displacement), tables of both signs of order, and bodies of 1-4 points displaced near and far."),
})
