O = dict(
C01="the pixel formula written down, and for the next order the symbolic derivative of what the kernel returned for the order below; polynomial identities after clearing r. Sums over pixels and points by executing two of each.",
C02="symbolic derivatives of the previous order per component; one edge of the mesh kernel is the unit, closed paths follow because polygon and mesh kernels are shown to be the sum of their edges (3 and 4 vertices executed, no vertex coupling). arctan terms are differentiated and anchored. Harmonicity is the trace of the expanded second order.",
C03="Stokes: the derivative of the edge contribution along its end point is the boundary integrand of the point-source potential/field (polynomial identity), and an empty edge contributes nothing; so the sum over a closed path is the area integral.",
C04="the two implementations executed on the same symbols; every component equal (also radicals and arctangents rewritten to common form), plus initial content of the given buffer.",
C05="kernel at transformed arguments against transformed kernel values; rotation by a rational parametrisation of the angle, tensors rotated with plain loops; cyclic shift and chord cut on the polygon kernel; z mirrored is the odd image.",
C06="plane kernels (uninterpreted after C01-C03) summed over image heights 2nh with both signs written as a plain loop; outermost image only on the cover; cover electrode formula and additivity.",
C07="sum of voltage times individual unit potential, explored over every pattern of zero voltages (the code skips zero electrodes); time potential dc + rf cos t with cos t free in [-1, 1].",
C08="polygon kernel sums per electrode against the mesh built from the system, edge lists executed.",
C09="the pyx code runs on arrays of symbolic dimensions and symbolic integer content; every element access yields the obligation 0 <= i < dim under the path condition; inconsistent input has to raise before any access. The only check where loops are unrolled to a bound.",
C10="Phi = c^2 |E|^2 with the electrodes' derivatives of all orders as free variables; the n-th derivative by the product rule over index subsets written as a sum over partitions (no transposes). rf_scale against sqrt(q/m)/(2 l Omega).",
C11="the parts computed separately through the same uninterpreted electrodes; part names other than the three have to raise; all patterns of zero voltages.",
C12="index-by-index definition of symmetric traceless tensors: symmetry, zero trace, select after expand is the identity, expand after select on traceless tensors too; names against their letters.",
C13="index-by-index contraction with plain loops; argument unchanged.",
C14="real spherical harmonics from their Cartesian definition: the homogeneous polynomial of the expanded tensor against the expansion in the returned coefficients, sign and normalisation anchored per m; squared sums are rotation invariant.",
C15="shoelace area and centroid written per triangle fan, translation law, reversal negates; to_points keeps name, voltages, cover and totals.",
C16="a list model of voltages through sequences of setters, with-blocks, nesting, exceptions inside and bad lengths; every branch switch is a symbolic Boolean explored exhaustively.",
C17="bins by definition; every electrode path is in exactly one group, voltage means; thresholds and voltages symbolic (orders explored).",
C18="the functions handed to the (recorded) optimiser evaluated at symbolic points: potential, gradient, curvature in the rotated axes by symbolic differentiation of the potential polynomial; start points, failures raised, result composed from it.",
C19="recurrence of the eigenvector-following rational function step: uphill along the lowest, downhill along the others, lambda from the 2x2 secular equation, step limit, secant equation and symmetry of the updated Hessian, stop criteria per path.",
C20="eigenvalue routine replaced by a recorder (any eigenpairs): the matrix is the curvature; Floquet matrix entry by entry from inserting the Fourier ansatz in the equation of motion; sorting with vectors; trajectories: acceleration is minus the gradient at that time, times and copies.",
C21="right inverse characterised by B Bp = 1; any voltages satisfying the constraints given to the solver have effects in proportion c to the values, c is what is returned and maximised; shims rows independent of each other and of given values. The cvxopt stand-in reproduces its operand rules (shapes, nonempty matrices).",
C22="the constraints and objective given to the solver, evaluated at arbitrary voltages, are equivalent (both directions) to the requested ones written from the potentials and plain finite differences.",
C23="multilinear interpolation written from the definition, clamped outside; finite differences of harmonic polynomials are the exact central/one-sided ones; orders made and axis/spacing pairing.",
C24="center + step*(i - (n-1)/2) and its inverse; all four views list the same points in C order.",
C25="synthesis against the sum over harmonics with exact associated Legendre polynomials, analysis(synthesis) = id within 1e-9 for bounded coefficients (interval of linear forms decided by z3); coordinates by their defining equations; chain rule for differentials.",
C26="three-term recurrence of the coefficients and the normalisations, solutions as term sums, derivatives by symbolic differentiation, Wronskian system of the initial values, Hill determinant entries; tolerance search as a history.",
C29="outlines as rings with symbolic coordinates/areas and containment relations as free Booleans (consistent nestings), regions as unions of free Venn cells: results are set-algebraically what is asked, areas included.",
C30="elements written/read compared coordinate by coordinate (rounding as an integer within one half), layers, names, properties; assign_to_pad against first-free-polygon by a list model with free intersection relations; square pads against corner/edge formulas.",
C31="list model of histories of voltages, minima and curvatures; volt_change against the linear system asked for (force: -k dis, position: zero gradient there); accept/decline sequences.",
C32="axes that record calls: abscissae and ordinates are center + step*(i-(n-1)/2), values the potential polynomials at these points of the slice; the extremes bound the values and are among them (every order of values explored); colours are (u/um+1)/2 of the own voltage.",
)
