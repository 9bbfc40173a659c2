# further properties; executed by props.py
prop("C07", "Electrical potentials superpose electrode voltages",
     "A system's dc or rf electrical potential and all its derivatives are "
     "the sum over electrodes of voltage times that electrode's unit "
     "potential, individual potentials are those units in order, and a "
     "single point, a batch of points, the expanded form and the potential "
     "at an instant (dc + cos(t) rf) agree with it, whatever voltages are "
     "zero.", "inputs configurations",
     "all geometries, voltages (with every pattern of zero voltages), "
     "observation points; orders 0-5; every kind of surface electrode",
     "Tests use a few voltages at one point and look at one representation "
     "each.", "electrode/system.py electrode/electrode.py "
     "electrode/cexpressions.pyx", "System.electrical_potential, "
     "individual_potential, time_potential", EXE, TRUST)
prop("C09", "Compiled kernels stay inside the arrays they are given",
     "Whatever the shapes of the arrays and whatever the indices in a mesh "
     "description, the compiled potential routines either raise or access "
     "only elements of the arrays they were given; nothing outside is read "
     "or written.", "inputs",
     "all array sizes, derivative orders and mesh index contents, with and "
     "without output buffer",
     "Bounds checks are compiled out, so an inconsistent input reads or "
     "overwrites memory silently; tests pass consistent input only.",
     "electrode/cexpressions.pyx", "point_potential, polygon_potential, "
     "mesh_potential with boundscheck off", "symbolic execution of the real "
     "kernels with symbolic shapes and indices, z3 decides every access",
     "Loops unrolled to 2 (thorough 3) iterations per dimension; trusts the "
     "symbolic interpreter of the Cython source and z3.")
prop("C08", "A mesh made from polygon electrodes is equivalent to them",
     "The mesh electrode built from a system (or list) of polygon electrodes "
     "without cover plane has, at every point and derivative order, the "
     "potential of those electrodes at their dc voltages, times the mesh's "
     "own voltage, also when an electrode has several paths or none.",
     "inputs configurations",
     "all polygons, dc voltages, observation points off the plane; orders "
     "0-2 (thorough 5)",
     "The mesh electrode is untested; its index bookkeeping only shows with "
     "several electrodes and paths.",
     "electrode/electrode.py electrode/cexpressions.pyx",
     "MeshPixelElectrode.from_polygon_system", EXE, TRUST)
prop("C10", "Pseudopotential and its derivatives",
     "The pseudopotential is the square of coefficient times rf field with "
     "coefficient sqrt(q/m)/(2 l Omega), and its derivatives of order one to "
     "four are the complete symmetric derivative tensors of that function, "
     "for every rf field.", "inputs",
     "all fields and derivatives, voltages, masses, charges, lengths, "
     "frequencies; orders 0-4",
     "Tests compare one trap at one point; a missing permutation of a "
     "product term shows only in generic fields.",
     "electrode/system.py electrode/utils.py",
     "System.pseudo_potential, rf_scale", EXE, TRUST)
prop("C11", "Combined potential is dc part plus pseudopotential",
     "At every derivative order and for any batch of points the total "
     "potential is the dc electrical potential plus the pseudopotential in "
     "full tensor form, either part can be asked for alone, unknown parts "
     "are refused, and voltages that are zero make no difference to shape or "
     "value.", "inputs configurations",
     "all electrodes, voltages, points; orders 0-3 (thorough 4)",
     "Tests look at the combination at one or two points only.",
     "electrode/system.py", "System.potential", EXE, TRUST)
prop("C12", "Packing and naming of harmonic derivative tensors",
     "The full tensor rebuilt from the 2n+1 stored components is symmetric "
     "and traceless and contains them, reducing it returns them, and names, "
     "axis tuples, flat and reduced indices and parent derivatives all refer "
     "to the same entries, for any number of leading axes.", "inputs",
     "all components, every derivative name; orders 0-5",
     "Wrong bookkeeping of one high-order entry needs that entry to be "
     "nonzero; tests use few.", "electrode/utils.py",
     "expand_tensor, select_tensor and the name maps", EXE, TRUST)
prop("C13", "Rotating a tensor transforms every index",
     "rotate_tensor(c, r) contracts each tensor index with the first index of "
     "r, for every matrix r, leaving leading axes in place (also when the "
     "rank is given explicitly) and the argument unchanged.", "inputs",
     "all tensors of rank 0-5, all 3x3 matrices",
     "Symmetric tensors and single points, as in the tests, hide exchanged "
     "axes.", "electrode/utils.py", "rotate_tensor", EXE, TRUST)
prop("C14", "Spherical harmonic coefficients reproduce the potential",
     "The coefficients computed from a reduced derivative tensor of order l "
     "multiply the real spherical harmonics (times r^l) to give exactly that "
     "order's term of the potential's expansion.", "inputs",
     "all components; orders 0-5, one set or several in parallel",
     "A wrong factor in one of the 36 coefficients shows only for fields "
     "containing it.", "electrode/utils.py",
     "cartesian_to_spherical_harmonics", EXE, TRUST)
prop("C15", "Area, centroid, orientation and point approximation",
     "Area and centroid of a polygon are the integrals over its interior "
     "(negative area for clockwise paths), orientations are the signs of the "
     "areas, and converting to points gives one point per path at its "
     "centroid with its area, keeping name, voltages and cover settings.",
     "inputs",
     "all polygons with 3-8 vertices and nonzero area; up to four paths",
     "Tests use rectangles near the origin.",
     "electrode/utils.py electrode/electrode.py",
     "area_centroid, orientations, to_points", EXE, TRUST)
prop("C16", "Temporary voltages are undone however the block ends",
     "Inside a with_voltages block the given dc and rf voltages are in force "
     "(others unchanged), and after it, nested or not, ended by an exception "
     "or not, and whatever was set inside, every electrode given temporary "
     "voltages has its previous ones; voltages, names and electrodes read "
     "back as set, by index or first matching name.", "histories inputs",
     "all voltages, any subset of dc/rf given in any sequence form, "
     "exceptions at every stage, two nested blocks",
     "Tests do not leave blocks by exceptions or nest them.",
     "electrode/system.py", "System.with_voltages and properties", EXE, TRUST)
prop("C17", "Grouping by voltage partitions the electrodes",
     "Grouping yields one electrode more than there are thresholds; the ith "
     "holds exactly the paths of the electrodes with threshold i-1 <= voltage "
     "< threshold i and their mean dc and rf voltages; without thresholds "
     "every distinct voltage is one.", "inputs",
     "all voltages, including ones equal to thresholds; 0-3 thresholds; "
     "voltages from the electrodes or given",
     "Boundary values and partially empty bins are not in the tests.",
     "electrode/system.py", "System.group", EXE, TRUST)
prop("C18", "Searches for minima and saddle points follow the potential",
     "The value, gradient and curvature given to the optimizer by "
     "System.minimum and System.saddle are the system's potential and its "
     "derivatives with respect to the varied axes in the given coordinate "
     "system, whatever points are asked for in whatever order; the returned "
     "point is the optimizer's end point with the other axes unchanged, the "
     "start array is left alone, and a failed search raises ValueError.",
     "inputs histories",
     "all harmonic potentials to third degree, any coordinate matrix, five "
     "sets of axes, any trial points; the optimizer is a recorder",
     "Tests use coord = identity and one trap each.",
     "electrode/system.py", "System.minimum, System.saddle", EXE,
     "the optimizer itself (scipy, electrode.saddle.rfo) is replaced; rfo is "
     "C19; " + TRUST)
prop("C19", "The saddle search steps up the lowest mode and keeps its books",
     "In electrode.saddle.rfo, the point, value and gradient reported and "
     "returned belong together; each step goes up along the lowest mode of "
     "the Hessian and down along the others and is no longer than dx_max; "
     "the updated Hessian is symmetric and maps the step to the change of "
     "the gradient. The search ends when and only when the tolerances or "
     "maxiter say so, for the reason it reports.", "inputs histories",
     "all values, gradients, tolerances and step limits; one and two "
     "variables, several Hessians, two iterations",
     "Only whole searches on two surfaces are tested; a wrong step still "
     "converges often.", "electrode/saddle.py", "rfo", EXE,
     "numpy.linalg.eigh is replaced by exact eigensystems; " + TRUST)
prop("C21", "optimize and shims give the objectives asked for",
     "Every voltage vector the linear program allows in System.optimize "
     "produces the objectives in the requested proportions, the reported "
     "strength is the common factor and is what is maximised, and no other "
     "demand is made. In System.shims each vector does this for one "
     "objective with the others at zero.", "inputs",
     "all proportions, effects and voltages; 1-3 objectives, 1-4 electrodes",
     "Tests solve a few problems numerically; a dropped or spurious equality "
     "shows only for certain values.", "electrode/system.py",
     "System.optimize, System.shims, pattern_constraints", EXE,
     "the linear program solver and the pseudoinverse are replaced; " + TRUST)
prop("C22", "System.solve poses exactly the problem that was asked for",
     "The linear program given to the solver holds, for every voltage "
     "vector, exactly the requested local and global constraints with the "
     "electrodes' unit potentials in the rotated frame, voltage derivatives "
     "are finite differences between sets, the objective is the weighted "
     "sum of all objectives, and the solution is returned per set.",
     "inputs histories",
     "all unit potentials, limits, weights and voltages; 3 electrodes, "
     "1-6 sets",
     "Tests check solutions of single small problems.",
     "electrode/system.py electrode/pattern_constraints.py",
     "System.solve, pattern_constraints", EXE,
     "the solver is replaced by a recorder; " + TRUST)
prop("C20", "Modes, Floquet exponents and trajectories obey the motion",
     "System.modes diagonalises the second derivatives of the total "
     "potential; System.mathieu (with scale from rf_scale) and "
     "utils.mathieu diagonalise exactly the truncated Floquet matrix of the "
     "ion's equation of motion; values come sorted with their own vectors. "
     "System.trajectory hands the integrator minus the gradient of the "
     "momentary potential along the chosen axes, at each step from the last "
     "state.", "inputs histories",
     "all harmonic potentials to third degree, voltages, points, masses, "
     "frequencies; cutoffs 0-3; three time steps",
     "Tests compare a few eigenvalues and skip trajectories.",
     "electrode/system.py electrode/utils.py",
     "System.modes, System.mathieu, System.rf_scale, System.trajectory, "
     "utils.mathieu", EXE,
     "eigenvalue routines and the integrator are replaced; " + TRUST)
prop("C23", "Gridded electrodes interpolate and differentiate their data",
     "The potential and derivatives of a GridElectrode are the multilinear "
     "interpolation of its data at (x - origin)/spacing (the nearest grid "
     "value outside), times the voltage, added to the given output. Missing "
     "orders are finite differences of the order below along the right axis "
     "and spacing, exact for polynomials for which differences are exact. "
     "from_result keeps every grid point's potential and field in place.",
     "inputs", "all data on 2x3x2 grids, origins, spacings, points in seven "
     "cells; difference orders 1-4",
     "Tests look at one point of one grid with tolerances.",
     "electrode/electrode.py electrode/grid.py electrode/utils.py",
     "GridElectrode, construct_derivative", EXE,
     "scipy's map_coordinates is replaced by an exact multilinear one; "
     + TRUST)
prop("C24", "Grid indices and coordinates describe the same points",
     "For every center, step and shape the points of a Grid, as list, mesh "
     "or axes, are center + step*(index - (shape - 1)/2) in index order, "
     "and indices_to_coordinates and coordinates_to_indices are inverse to "
     "each other.", "inputs",
     "all centers, steps, coordinates; six shapes, array, list and tuple "
     "arguments", "There are no tests of grids.", "electrode/grid.py",
     "Grid, UnstructuredGrid", EXE, TRUST)
prop("C26", "Mathieu functions solve the recurrence and the initial values",
     "The Floquet coefficients of class Mathieu satisfy the three-term "
     "recurrence of Mathieu's equation with the truncation asked for and "
     "their normalisations; sol_y1 and sol_y2 and their time derivatives of "
     "any order are the Floquet sums; init_value meets the given value and "
     "slope at t0; nu follows from the truncated determinant whose order "
     "meets the tolerance, or from the initial value problem.", "inputs",
     "all a, q, nu, coefficients, times, initial values; cutoffs up to 4; "
     "derivatives 0-5", "There are no tests of this class.",
     "electrode/mathieu.py", "Mathieu", EXE,
     "determinant and integrator are replaced by arbitrary values; complex "
     "exponents are not covered; " + TRUST)
prop("C25", "Spherical harmonic transform and spherical coordinates",
     "SphericalHarmonics.synthesis is the sum of coefficients times Y_nm on "
     "the Gauss-Legendre grid, analysis is the weighted projection on Y_nm "
     "and inverts synthesis. Spherical and cartesian coordinates transform "
     "there and back, differentials (dr, dtheta, dphi) with the derivative "
     "of that map. SphericalGrid lists origin + r times the unit sphere.",
     "inputs", "all real and complex coefficients and functions for nmax "
     "1-4; all coordinates off the axis, differentials, origins and radii",
     "There are no tests of this module.",
     "electrode/spherical_harmonics.py electrode/grid.py",
     "SphericalHarmonics, spherical_to_cartesian, cartesian_to_spherical, "
     "derivatives_spherical_cartesian, SphericalGrid", EXE,
     "the Fourier transform is replaced by its defining sum; " + TRUST)
prop("C31", "Adjust moves the minimum as asked and keeps its books",
     "The voltage changes Adjust proposes shift the minimum by +dis along "
     "the chosen eigen-axis (to first order for 'force', stationary there "
     "for 'position'). Proposals apply to the saved voltages; accepted "
     "steps append voltages, minimum and curvatures, declined ones restore "
     "the last accepted voltages, in every order of these operations.",
     "inputs histories",
     "all potentials, voltages, axes, curvatures, displacements; 18 "
     "histories of up to 4 steps", "There are no tests of this class.",
     "electrode/adjust.py", "Adjust", EXE,
     "minimum and modes are replaced by arbitrary results; " + TRUST)
prop("C29", "Polygons keep the outlines and areas of electrodes",
     "Polygons.from_system assigns every negative path to the smallest "
     "positive path around it; to_system returns exteriors counter-clockwise "
     "and holes clockwise with the same vertices. remove_overlaps leaves "
     "every point to the first electrode covering it; unify, unify_by_name, "
     "restrict, within, filter, add_gaps and simplify change exactly what "
     "they say and keep names and order.", "inputs",
     "all vertex coordinates of outlines with up to 5 vertices and 2 holes, "
     "all containment relations and sizes of up to 3 (thorough: 4) rings, "
     "all overlaps of up to 3 (4) regions, all outcomes of validity tests",
     "The tests use two layouts.", "electrode/polygons.py",
     "Polygons.from_system, to_system, remove_overlaps, unify, "
     "unify_by_name, restrict, within, filter, add_gaps, simplify, validate",
     EXE, "shapely's predicates and set operations are assumed correct; " +
     TRUST)
prop("C30", "GDS, pad and XIC data are the geometry given",
     "to_gds writes every outline, gap and name, rounded to integers of the "
     "physical unit, on the layers asked for, and from_gds reads it back to "
     "half a unit, sorting elements by layer. from_data cuts the field into "
     "disjoint fragments: polygons by name, the rest along gaps and routes. "
     "assign_to_pad gives each pad the first free polygon under it; "
     "square_pads and xic_to_list give the positions of pads and points.",
     "inputs", "all coordinates, scales, units, layers and numbers in the "
     "files; 1-5 pads per edge, any corner; all hit patterns of 3 (4) pads "
     "on 3 polygons; all regions of gaps, routes, bridges, 2 polygons",
     "The tests read one file without checking the result.",
     "electrode/polygons.py electrode/xic.py",
     "Polygons.to_gds, from_gds, from_data, assign_to_pad, square_pads, "
     "xic_to_list", EXE,
     "shapely and gdsii are assumed correct; " + TRUST)
prop("C32", "Contour and voltage plots show the potentials and voltages",
     "plot_contour hands matplotlib the coordinates of the two axes of the "
     "slice, the potential of the requested type at exactly these points, "
     "levels from the smallest value to the largest over divide_max, and "
     "returns the true extremes. plot_voltages draws every electrode in the "
     "colour of its own voltage on the given scale.", "inputs",
     "all grids, slice positions, voltages and dc/rf potentials; slices of "
     "2-5 points (3-8 without levels)", "There are no tests of the plots.",
     "electrode/system.py electrode/grid.py",
     "System.plot_contour, plot_voltages, Grid.to_xyz", EXE,
     "matplotlib is replaced by axes that record what is drawn; " + TRUST)
