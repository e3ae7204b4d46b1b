#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=hook)))

prop("C01", "Discrete conservation of every conserved quantity",
 "On a periodic domain the domain total of every conserved quantity (advected scalar; mass, momentum and energy) is unchanged, to rounding, by any number of time steps, for every polynomial order, interface flux, time integrator, limiting and interface-enhancement choice. With zero-gradient boundaries, the rate of change of the total is exactly the interface flux entering at the left end minus the one leaving at the right end.",
 ["inputs", "configurations", "histories"],
 "every initial state, option combination and number of steps",
 "The tests step six shock tubes with zero-gradient ends to one final time and compare with stored numbers; no test runs a periodic problem or checks a total, so a loss confined to one integrator, order, flux, boundary or to a limited step is invisible.",
 ["dg1d/dg.py", "dg1d/rk.py", "dg1d/limiting.py", "dg1d/enhance.py", "dg1d/solution.py"],
 [("single-valued interface flux added with opposite signs", "dg1d/dg.py add_interior_face_fluxes"), ("cell average kept by the limiter", "dg1d/limiting.py limit_monomial"), ("ghost cells", "dg1d/solution.py apply_bc")],
 [("solution coefficients", "Legendre modes per cell and field; mode 0 is the average", "dg1d/solution.py u")],
 ["cell averages before and after time integration", "semi-discrete residual"])

prop("C02", "A uniform flow stays uniform",
 "If the initial solution is the same constant state in every cell, then it is a steady solution: after any number of time steps every cell still holds that constant state, to rounding. This holds for both equation systems, every order, interface flux, integrator, boundary type, limiting and enhancement choice.",
 ["inputs", "configurations", "histories"], "every admissible constant state (sub- and supersonic, either direction) and option combination",
 "No test integrates a uniform state; the stored shock-tube results only contain two particular uniform regions at one boundary type.",
 ["dg1d/dg.py", "dg1d/euler_physics.py", "dg1d/enhance.py", "dg1d/limiting.py", "dg1d/rk.py"],
 [("interior and face flux balance", "dg1d/dg.py residual"), ("flux consistency", "dg1d/euler_physics.py riemann_*")],
 observe=["solution after time integration"])

prop("C03", "Results do not depend on where a periodic domain is cut",
 "On a periodic domain, shifting the initial solution by any whole number of cells shifts the solution after any number of time steps by the same number of cells and changes nothing else (to rounding). This includes runs with sensors, limiting and interface enhancement.",
 ["inputs", "configurations", "histories"], "every initial state, shift, option combination and number of steps",
 "All stored results have zero-gradient ends far away from the waves, so a cell next to the boundary that is treated differently from an interior one is never noticed.",
 ["dg1d/solution.py", "dg1d/dg.py", "dg1d/limiting.py", "dg1d/sensor.py", "dg1d/rk.py"],
 [("ghost cells refreshed before every use", "dg1d/solution.py apply_bc, dg1d/dg.py residual, dg1d/limiting.py adaptive_hr"), ("loops over all interior cells", "dg1d/limiting.py adaptive_hr")],
 observe=["solution after time integration"])

prop("C04", "Euler results are mirror symmetric",
 "For the Euler equations, reflecting the initial solution in space (reversing the cells and the velocity) reflects the solution after any number of time steps and changes nothing else, to rounding. This holds for every interface flux, order, integrator, boundary type and enhancement choice, with limiting off or applied in every cell, and each interface flux itself has this symmetry.",
 ["inputs", "configurations", "histories"], "every initial state and option combination; every pair of states for the fluxes",
 "The tests contain only right-pointing problems and six hand-picked interface pairs; left-going branches of the fluxes are barely reached.",
 ["dg1d/euler_physics.py", "dg1d/dg.py", "dg1d/limiting.py", "dg1d/enhance.py"],
 [("left/right branches of the interface fluxes", "dg1d/euler_physics.py riemann_*, sonic, massflux"), ("left/right candidates of the limiter", "dg1d/limiting.py limit_monomial"), ("left/right enhancement vectors", "dg1d/enhance.py")],
 observe=["interface fluxes", "solution after time integration"])

prop("C05", "The advection operator is linear and exact on polynomials",
 "For linear advection at unit speed without limiting, the semi-discrete operator is a linear function of the solution, and where a cell and its neighbors hold one common polynomial of degree at most the solution order it returns exactly minus the derivative of that polynomial in the cell. With interface enhancement that uses at least one mode of the neighbor, the same holds.",
 ["inputs", "configurations"], "every solution, order, grid size and spacing, and enhancement choice (linearity makes a basis of the solution space exhaustive)",
 "The tests check two helper steps of the operator on one array each and never evaluate the complete operator.",
 ["dg1d/dg.py", "dg1d/basis.py", "dg1d/enhance.py", "dg1d/advection_physics.py", "dg1d/solution.py"],
 [("weak form", "dg1d/dg.py residual"), ("weighted basis gradients", "dg1d/basis.py evaluate_basis_gauss"), ("scaling by the cell size", "dg1d/solution.py scaled_minv")],
 observe=["semi-discrete residual in the interior cells"])

prop("C06", "The advection operator never produces energy",
 "For linear advection without enhancement or limiting on a periodic domain, the rate of change of the domain integral of one half of the square of the solution is never positive: it is exactly minus one half of the sum over the interfaces of the squared jumps of the solution.",
 ["inputs", "configurations"], "every solution, order and grid (the identity is bilinear: checking all pairs of basis functions is exhaustive)",
 "No test evaluates the semi-discrete operator or any energy.",
 ["dg1d/dg.py", "dg1d/basis.py", "dg1d/advection_physics.py"],
 [("upwind flux", "dg1d/advection_physics.py riemann_upwinding"), ("weak form", "dg1d/dg.py residual"), ("mass matrix", "dg1d/basis.py mass_matrix")],
 observe=["semi-discrete residual"])

prop("C07", "The semi-discrete operator is the DG weak form, with a compact stencil",
 "For both systems, the time derivative of the n-th Legendre coefficient in every interior cell is (2n+1)/dx times the Gauss-quadrature (order+1 points) integral of the physical flux against the derivative of the n-th Legendre polynomial, minus the selected interface flux at the right face, plus (-1)^n times the one at the left face. Without enhancement the face values are the cell polynomials at their ends; the result in a cell depends on no cell other than itself and its two neighbors (across the boundary: the periodic image or the boundary cell itself), and evaluating it changes no interior coefficient.",
 ["inputs", "configurations"], "every state, order, number of cells (one upward), cell size, flux, boundary type, and any earlier evaluations with the same solver",
 "The two unit tests on this code check the face-flux addition and the mass-matrix product on one scalar array each; the assembled operator is only seen through six stored runs at orders 1 to 3.",
 ["dg1d/dg.py", "dg1d/solution.py", "dg1d/basis.py", "dg1d/euler_physics.py", "dg1d/enhance.py"],
 [("residual assembly", "dg1d/dg.py residual, integrate_interior_flux, add_interior_face_fluxes, inverse_mass_matrix_multiply"), ("collocation", "dg1d/solution.py collocate, collocate_faces")],
 observe=["semi-discrete residual in the interior cells"])

prop("C08", "Interface fluxes are consistent, local and pure",
 "For every interface flux (upwind, Rusanov, Roe, Godunov) and every admissible state, the flux between two identical states is the physical flux of that state. In a vector of interfaces the flux at each interface depends only on its own left and right state, not on the position, number or content of the others, and evaluating it neither changes its inputs nor depends on earlier calls.",
 ["inputs", "histories"], "every state; every combination, order and number of interfaces; every sequence of calls",
 "The tests evaluate one fixed vector of six interfaces for each flux and never an interface between identical states.",
 ["dg1d/euler_physics.py", "dg1d/advection_physics.py"],
 [("vectorized flux formulas", "dg1d/euler_physics.py riemann_rusanov, riemann_roe"), ("loop over the interfaces", "dg1d/euler_physics.py riemann_godunov"), ("entropy-fix masks", "dg1d/euler_physics.py riemann_roe")],
 observe=["interface fluxes"])

prop("C09", "Godunov's flux is the flux of the exact Riemann solution",
 "For any two states of positive density and pressure, Godunov's flux is the physical flux of the exact Riemann solution at the interface, to the accuracy of its 1e-6 pressure iteration: for all wave patterns (shock or rarefaction on either side, sonic rarefactions, contact on either side, supersonic and colliding supersonic streams, vacuum) and every ratio of specific heats. If its iteration does not converge, or finds no positive pressure (strong expansions, vacuum), it stops with an error instead of returning a flux, and that never happens for moderate pressure ratios.",
 ["inputs"], "every pair of states",
 "The test compares six interfaces with an exact solver; most wave patterns, both sonic cases and all left-going flows are missing.",
 ["dg1d/euler_physics.py"],
 [("fixed-point iteration for the star pressure", "dg1d/euler_physics.py riemann_godunov, massflux"), ("sonic rarefaction", "dg1d/euler_physics.py sonic"), ("upwinding when no wave crosses the interface", "dg1d/euler_physics.py supersonic")],
 observe=["interface fluxes"])

prop("C10", "Roe's and Rusanov's fluxes are the published ones",
 "For any two admissible states Rusanov's flux is the mean of the two physical fluxes minus half the larger of the two |velocity|+sound speed times the difference of the states. Roe's flux is the mean minus half the Roe-averaged absolute-eigenvalue dissipation, with Harten's correction of the two acoustic eigenvalues where they spread; so a single shock or contact that satisfies the jump conditions gives exactly the flux of its upstream side and a stationary one is not smeared.",
 ["inputs"], "every pair of states and every ratio of specific heats",
 "The tests evaluate six fixed interfaces per flux, at one ratio of specific heats, and compare with stored numbers.",
 ["dg1d/euler_physics.py"],
 [("Roe averages, wave strengths, entropy fix", "dg1d/euler_physics.py riemann_roe"), ("maximum eigenvalue per interface", "dg1d/euler_physics.py riemann_rusanov")],
 observe=["interface fluxes"])

prop("C11", "Every time integrator has its stated order of accuracy",
 "The time integrators selected as rk3, rk4, rk5, rk6, rk8, rk10, rk12, rk14 and low_storage_rk4 have order of accuracy 3, 4, 5, 6, 8, 10, 12, 14 and 4: one time step agrees with the exact solution of every system of ordinary differential equations up to and including that power of the step. Equivalently, all their order conditions (one per rooted tree) hold to near rounding, and the stage times are the row sums of the coefficients.",
 ["inputs", "configurations"], "every ordinary differential equation, i.e. every rooted tree up to the order (53,272 for order 14)",
 "No test looks at the coefficients; the stored runs use rk4 and rk8 only and are dominated by spatial errors.",
 ["dg1d/rk_coeffs.py", "dg1d/rk.py"],
 [("Butcher tables", "dg1d/rk_coeffs.py get_rk*_coefficients"), ("stage and update sums", "dg1d/rk.py classic_rk, low_storage_rk4")],
 observe=["result of time integration of a given right-hand side"])

prop("C12", "Each time step is exactly one Runge-Kutta step of the current state",
 "The state after a time step is the Runge-Kutta combination, with the selected scheme's coefficients, of right-hand sides evaluated at that step's own stage states and stage times; it depends only on the state, time and step size at its start, not on earlier steps, so stopping and continuing later gives the same result. low_storage_rk4 gives the same result as rk4, an unrecognized scheme name selects rk4, and limiting is applied to every stage state after the first and to the new state, whose ghost cells match its boundary conditions.",
 ["histories", "configurations", "inputs"], "every right-hand side, scheme, number of steps and split of the run",
 "The tests never call the integrators except through six full runs with one output each at the end; carry-over between steps, stage times and low_storage_rk4 are not exercised.",
 ["dg1d/rk.py", "dg1d/solution.py", "dg1d/rk_coeffs.py"],
 [("stage loop and storage", "dg1d/rk.py classic_rk, low_storage_rk4"), ("scheme selection", "dg1d/rk.py integrate"), ("copy and axpy", "dg1d/solution.py copy_data_only, smart_axpy")],
 [("stage increments", "kept in lists that live across time steps", "dg1d/rk.py K, du"), ("work copies", "us, uk, ustar", "dg1d/rk.py")],
 ["right-hand-side calls (state, time)", "state after each step"])

prop("C13", "All requested outputs are written, at the requested times",
 "With a number of outputs n of at least 2 and a final time T after the start time, a run writes exactly the outputs numbered 0 to n-1, once each and in order; output k holds the solution at time start + k (T-start)/(n-1), and the run ends at T right after the last one. This holds for every sequence of stable step sizes, including ones larger than the output interval, that land exactly on an output time, or that change from step to step, and time never runs backwards.",
 ["histories", "inputs", "configurations"], "every sequence of stable step sizes and every n and T",
 "Three tests call the step adjustment once each; every stored run asks for the initial and final output only.",
 ["dg1d/rk.py"],
 [("step adjustment", "dg1d/rk.py adjust_for_output, get_next_time_step"), ("output bookkeeping", "dg1d/rk.py classic_rk, low_storage_rk4")],
 [("output counter and next output time", "nout, tout", "dg1d/rk.py")],
 ["output calls: number, time", "step sizes"])

prop("C14", "Every step obeys the CFL condition of the current solution",
 "The size of each time step is CFL number x cell size / ((2 order + 1) x largest signal speed), shortened only to land on an output or final time and never longer. The largest signal speed is 1 for advection and, for Euler, the maximum over all cells of |velocity| + sound speed of the cell average, in the solution at the start of the step.",
 ["inputs", "histories", "configurations"], "every solution (fastest cell anywhere, either direction), order, cell size, CFL number, scheme and step",
 "One test evaluates the Euler wave speed on one array; the step size itself and its use of the current solution are never checked.",
 ["dg1d/rk.py", "dg1d/euler_physics.py", "dg1d/advection_physics.py", "dg1d/solution.py"],
 [("step size", "dg1d/rk.py cfl_time_step, get_next_time_step"), ("maximum wave speed", "dg1d/euler_physics.py max_wave_speed")],
 observe=["time between consecutive steps", "signal speed of a solution"])

prop("C15", "A run that breaks down stops with an error",
 "If at the start of any time step the stable step size is not a number or is below 1e-14 (for example because a cell lost positive pressure or a value overflowed), the run ends at once with a nonzero exit status: it takes no further step, writes no further output, and never loops for ever. Conversely a run is not stopped while its step sizes are numbers of at least 1e-14.",
 ["fault_sequences", "histories"], "every kind of breakdown at every step of every scheme, before or between outputs",
 "No test contains a failing run.",
 ["dg1d/rk.py", "dg1d/euler_physics.py", "dg1d/main.py"],
 [("step sanity check", "dg1d/rk.py sanity_check_dt"), ("NaN-propagating maximum", "dg1d/euler_physics.py max_wave_speed")],
 observe=["exit status", "outputs written", "steps taken"])

prop("C16", "A written solution reads back as the same solution",
 "Reading an output back gives a solution with exactly the same coefficients in every cell, field and mode, and the same time, step number, order, grid and boundary conditions as the one written, for every system, order, number of cells of at least 2 and output number. The solution read back behaves like the original one: boundary conditions, face and quadrature values, signal speed, semi-discrete operator, further time steps (without enhancement and limiting) and writing it again all give the same results.",
 ["inputs", "configurations", "histories"], "every finite floating-point content, grid, order, system, boundary type and output number",
 "Reading is only used for plotting and no test checks anything that was read.",
 ["dg1d/solution.py"],
 [("writer", "dg1d/solution.py printer, format_fnames"), ("reader", "dg1d/solution.py loader, add_ghosts")],
 observe=["files written", "solution after reading"])

prop("C17", "Input decks are read faithfully, in any order",
 "Reading a deck gives every option the value on the line after its heading, whatever the order of the sections and whatever other lines are in between; options that are absent keep their documented defaults, and if a section is repeated the last one counts. Writing a deck from a list of sections and reading it back gives those values.",
 ["inputs"], "every subset, order and repetition of sections and every value",
 "No unit test reads a deck; the six regression decks all have the same section order and nearly the same sections.",
 ["dg1d/deck.py"],
 [("section dispatch", "dg1d/deck.py parser"), ("defaults", "dg1d/deck.py __init__"), ("writer", "dg1d/deck.py write_deck")],
 observe=["values of the options after reading"])

prop("C18", "Limiting keeps cell averages and touches only flagged cells",
 "Limiting never changes the average of any field in any cell, changes the coefficients only in cells flagged by the sensors, and leaves the ghost cells consistent with the boundary conditions. A flagged cell is limited in all fields, whatever its position; without limiting selected, or if no cell is flagged, the interior solution is unchanged.",
 ["inputs", "configurations"], "every solution, set of flagged cells, order, system and boundary type",
 "The three tests limit one smooth solution per order with all cells flagged; partial flags, boundary cells and other boundary types are not covered.",
 ["dg1d/limiting.py", "dg1d/sensor.py", "dg1d/solution.py"],
 [("flag test and loop", "dg1d/limiting.py adaptive_hr"), ("average kept", "dg1d/limiting.py limit_monomial")],
 observe=["solution before and after limiting", "sensor flags"])

prop("C19", "The limiter is hierarchical reconstruction with minmod",
 "In a flagged cell every field is replaced by its hierarchical reconstruction from the unlimited polynomials of the cell and its two neighbors: from the highest derivative down, the coefficient is the minmod of the left and right difference quotients of the cell-averaged linear parts. Hence data that is one polynomial over the three cells is unchanged, at order 1 the face values stay between the averages of the cell and its neighbors, and limiting commutes with scaling, adding a constant and reflection and does not depend on the order in which cells are visited.",
 ["inputs", "configurations"], "every triple of cell polynomials, every order and every field",
 "The tests check a few hand-made triples up to order 3; sign patterns of the candidates (equal, opposite, zero) and higher orders are barely sampled.",
 ["dg1d/limiting.py"],
 [("reconstruction", "dg1d/limiting.py limit_monomial, scalar_minmod"), ("basis change", "dg1d/limiting.py legendre_to_monomial, monomial_to_legendre"), ("unlimited neighbors", "dg1d/limiting.py adaptive_hr (ulim)")],
 observe=["solution before and after limiting"])

prop("C20", "Sensors flag exactly the cells next to detected discontinuities",
 "A cell is flagged if and only if at one of its two faces the measure computed from the two adjacent cell averages exceeds its threshold: 2f/(1+f)^2 with f the jump for advection; for Euler, with f the contact strength over the density sum (flag 1), or with f the pressure jump over the pressure sum if in addition the Roe-averaged left acoustic speed lies strictly between the right and the (larger) left one (flag 2, which overrides flag 1). Both cells at such a face are flagged, and the flags depend only on the current averages, not on earlier evaluations.",
 ["inputs", "histories"], "every sequence of cell averages, thresholds and every history of evaluations",
 "Two tests evaluate one data set each, with a fresh sensor.",
 ["dg1d/sensor.py", "dg1d/advection_physics.py", "dg1d/euler_physics.py"],
 [("flags cleared before each evaluation", "dg1d/sensor.py sensing"), ("measures", "dg1d/advection_physics.py sensing, dg1d/euler_physics.py sensing")],
 [("flags", "one integer per cell including ghosts", "dg1d/sensor.py sensors")],
 ["sensor flags after an evaluation"])

prop("C21", "Ghost cells always mirror the boundary conditions",
 "After the boundary conditions are applied, on a periodic end the ghost cell holds all coefficients of all fields of the cell at the opposite end, and on a zero-gradient end those of the adjacent cell, as they are at that moment. The interior is untouched, applying twice equals applying once, and this holds for any number of cells, system, order, combination of end types, and for copies and loaded solutions.",
 ["inputs", "configurations", "histories"], "every solution, number of cells (one upward), end types and provenance",
 "No test applies boundary conditions except to set up a limiter test on one periodic grid.",
 ["dg1d/solution.py"],
 [("ghost assignment", "dg1d/solution.py apply_bc"), ("ghost columns", "dg1d/solution.py add_ghosts")],
 observe=["solution including ghost cells"])

prop("C22", "Independent solutions and copies do not influence each other",
 "Whatever is done to one solution (boundary conditions, limiting, time integration, overwriting, creating or reading further solutions) has no effect on another solution, its copies, or results computed from them later. A copy starts equal to its original and from then on evolves exactly as the original would have.",
 ["histories"], "every interleaving of operations on two or more solutions",
 "Each test creates one solution and uses it once.",
 ["dg1d/solution.py", "dg1d/constants.py", "dg1d/enhance.py", "dg1d/sensor.py", "dg1d/dg.py"],
 [("deep copy", "dg1d/solution.py copy"), ("per-solution buffers", "dg1d/enhance.py uf_tmp, dg1d/sensor.py sensors"), ("process-wide constant", "dg1d/constants.py gamma")],
 [("ratio of specific heats", "process-wide value set by constructors", "dg1d/constants.py gamma")],
 ["solutions and results computed from them"])

prop("C23", "Initial solutions are the projections of the documented states on an even grid",
 "For every named initial condition and number of cells the grid is an even partition of the documented domain, with cell centers midway between the edges, and every cell and field holds the Gauss-quadrature Legendre projection of the documented state, with the documented boundary types and ratio of specific heats. The shock-tube state takes its left values strictly left of the given diaphragm position and its right values elsewhere; with any other number of parameters than the eight documented ones it is refused.",
 ["inputs", "configurations"], "every initial condition, number of cells, order and shock-tube parameters",
 "Tests sample one condition on two and ten cells; the stored runs use one more; simplew, acsticw, shuoshe and non-centered diaphragms are hardly reached.",
 ["dg1d/solution.py", "dg1d/basis.py", "dg1d/constants.py"],
 [("initial conditions", "dg1d/solution.py sinewave, simplew, entrpyw, acsticw, scktube, shuoshe, ictest"), ("grid and projection", "dg1d/solution.py setup_common_ic, populate, dg1d/basis.py projection")],
 observe=["grid and coefficients of a new solution"])

prop("C24", "Basis, quadrature and projection are exact",
 "For every order p the quadrature integrates polynomials up to degree 2p+1 exactly, the Legendre basis values at the quadrature points and cell ends and the weighted gradients are exact, the mass matrix is the diagonal one of the Legendre polynomials and the discrete integration-by-parts identity holds. Projecting a polynomial of degree at most p on any interval reproduces it, and the shift and product-integral operations on Legendre series are exact.",
 ["inputs", "configurations"], "every order and polynomial (by linearity: every basis polynomial)",
 "The tests check one order with rounded table values.",
 ["dg1d/basis.py"],
 [("quadrature and tables", "dg1d/basis.py Basis"), ("projection", "dg1d/basis.py projection, shifted_xgauss"), ("series operations", "dg1d/basis.py shift_legendre_polynomial, integrate_legendre_product")],
 observe=["basis tables", "projection coefficients"])

prop("C25", "Enhanced face values come from the documented reconstruction",
 "With enhancement, the value on either side of an interface is that of the polynomial of degree order + number of selected modes that has the cell's own coefficients as its Legendre coefficients up to the order and reproduces the selected Legendre moments of the neighbor across that interface. It is therefore linear, exact for any polynomial of that degree over the two cells, independent of all other cells, other modes of the neighbor and other fields, mirror symmetric, and the same for any listing order of the modes.",
 ["inputs", "configurations"], "every order, every subset and listing order of modes, every solution, both systems",
 "The tests check one matrix and one set of vectors at orders 1 and 2 on a scalar problem.",
 ["dg1d/enhance.py", "dg1d/basis.py", "dg1d/solution.py"],
 [("enhancement matrices and vectors", "dg1d/enhance.py enhancement_matrices, left_enhancement_vectors"), ("face values", "dg1d/enhance.py face_value")],
 observe=["face values of a solution with enhancement"])

prop("C26", "A run computes what its deck asks for",
 "Running the program on a deck, wherever the deck is and with or without git and a repository, writes into the current directory the files that the documented method gives for exactly the options in the deck: initial projection, limiting of the initial state, then Runge-Kutta time steps of the limited DG scheme with the selected system, order, integrator, interface flux, limiter, sensor thresholds, enhancement, CFL number, final time and number of outputs. Every option takes effect, the sensor files hold the flags of the last limiting, running again gives identical files, and other files are not written.",
 ["configurations", "inputs", "histories"], "every combination of deck options",
 "Six stored runs cover six of the many option combinations, compare only one output each, and never use godunov, enhancement, advection, most integrators or several outputs.",
 ["dg1d/main.py", "dg1d/deck.py", "dg1d/solution.py", "dg1d/rk.py", "dg1d/limiting.py", "dg1d/dg.py"],
 [("option plumbing", "dg1d/main.py"), ("selection of the physics functions", "dg1d/solution.py set_manipulation_functions")],
 observe=["files written by the program"])

prop("C27", "Lowest-order runs create no overshoots and keep density and pressure positive",
 "For advection at order 0 and CFL number at most 1, a periodic run with rk3, rk4 or low_storage_rk4 creates no value outside the range of the initial values and never increases the total variation. For Euler at order 0 with Rusanov's flux, a forward Euler step of the semi-discrete operator of size at most the time step for CFL number 1 keeps the density and pressure of every cell positive.",
 ["inputs", "configurations"], "every initial state and every step size up to the bound",
 "No test uses order 0.",
 ["dg1d/dg.py", "dg1d/rk.py", "dg1d/advection_physics.py", "dg1d/euler_physics.py"],
 [("upwind flux", "dg1d/advection_physics.py riemann_upwinding"), ("Rusanov dissipation", "dg1d/euler_physics.py riemann_rusanov"), ("step size", "dg1d/rk.py cfl_time_step")],
 observe=["solution after a step"])

prop("C28", "Creating an output directory is safe under concurrency",
 "When any number of processes or threads ask for the same or for nested directories at the same time, then under every interleaving of their file-system operations all of them return without error and every requested directory exists afterwards. Asking for a directory that already exists changes nothing. With files and links in the way, a call that returns has made the directory and one that cannot make it fails, and neither removes anything; new directories have the permissions that the caller's mask asks for.",
 ["schedules"], "every interleaving of the file-system operations of the callers, and every initial state of the path",
 "The helper has no test, and a single-threaded test cannot create the window between checking and creating.",
 ["dg1d/helpers.py"],
 [("existence check and creation", "dg1d/helpers.py makedir")],
 observe=["exceptions", "existence of the directories"])

prop("C29", "Looking at a solution does not change it",
 "Writing output, evaluating boundary, face or quadrature values, signal speed, interface or interior fluxes, sensors or the semi-discrete operator, and making copies, in any order and any number of times between time steps, leave the interior solution and its time and step number unchanged, return the same results when repeated, and do not change any later step of the run.",
 ["histories"], "every sequence of observations inserted between time steps",
 "Each test calls one operation on a fresh object; no test repeats or interleaves operations.",
 ["dg1d/solution.py", "dg1d/dg.py", "dg1d/sensor.py", "dg1d/enhance.py", "dg1d/euler_physics.py", "dg1d/advection_physics.py"],
 [("work buffers kept in objects", "dg1d/dg.py F, Q, ug, uf; dg1d/enhance.py uf_tmp; dg1d/sensor.py sensors")],
 observe=["solution and results between operations"])

prop("C30", "Advection runs at CFL 0.5 are stable",
 "For linear advection on a periodic domain without enhancement or limiting, at orders 0 to 5 with any of the nine time integrators (and at orders 6 to 9 with all but rk5 and rk14), and CFL numbers up to 0.5, no solution grows over time: every eigenvalue of the map from one step to the next has modulus at most 1 (to rounding), and the total is an eigenvalue-1 invariant.",
 ["inputs", "configurations"], "every initial solution and number of steps (spectrum of the exact one-step map), every integrator and order",
 "No test runs advection in time.",
 ["dg1d/rk.py", "dg1d/rk_coeffs.py", "dg1d/dg.py", "dg1d/basis.py"],
 [("step size scaled by 2p+1", "dg1d/rk.py cfl_time_step"), ("Runge-Kutta tables", "dg1d/rk_coeffs.py")],
 observe=["solution after one step"])

prop("C31", "Smooth solutions converge at the expected rate under grid refinement",
 "For smooth exact solutions (advected sine wave, Euler entropy wave, Euler simple rarefaction waves) without limiting, each halving of the cell size, once the wave is resolved and the error is above rounding, divides the L2 error at a fixed time by about 2^(order+1) at every order from 1 up, and the error stays within a small factor of that of the best approximation; at order 0 the error also falls. This holds for every interface flux, enhancement and sufficiently accurate time integrator. The error of the cell averages of advection falls faster, like 2^(2 order+1), and by one more power with enhancement.",
 ["inputs", "configurations"], "every flux, order, enhancement, integrator and refinement step within the explored grids (up to 64 cells; 256 at order 0)",
 "No test compares a run with an exact solution; the convergence scripts only draw pictures, and the stored results have one grid each.",
 ["dg1d/dg.py", "dg1d/rk.py", "dg1d/enhance.py", "dg1d/solution.py", "dg1d/basis.py"],
 [("spatial operator", "dg1d/dg.py residual"), ("projection of the named initial conditions", "dg1d/solution.py populate"), ("time integration", "dg1d/rk.py integrate")],
 observe=["errors against exact solutions on a sequence of grids"])

prop("C32", "Shock tubes reach the exact Riemann solution",
 "A shock tube run with any interface flux, at order 0 without limiting and at higher orders with the limiter, ends at the final time in the exact solution of its Riemann problem: the cell averages differ from it only in a fixed number of cells per wave, which does not grow under refinement; the states between the waves, away from them, are the exact ones; the totals change by exactly what enters and leaves through the ends. A stationary contact is kept exactly by the Roe and Godunov fluxes. The six regression problems give their stored results.",
 ["inputs", "configurations"], "every wave pattern, mirrored or not, flux, order, diaphragm position and grid within the explored ones",
 "The six stored runs are all with the Roe or one other flux at one order and grid each and are compared with the program's own earlier output, not with an exact solution.",
 ["dg1d/main.py", "dg1d/dg.py", "dg1d/euler_physics.py", "dg1d/limiting.py", "dg1d/sensor.py", "dg1d/solution.py", "dg1d/rk.py"],
 [("interface fluxes", "dg1d/euler_physics.py riemann_*"), ("limiting at shocks", "dg1d/limiting.py adaptive_hr"), ("initial states", "dg1d/solution.py")],
 observe=["cell averages at the final time"])

prop("C33", "The plot tools draw the stored solution",
 "dg1d/plot.py draws, for the requested output number and system, the field (for the Euler equations density, velocity and pressure) of the stored solution at the quadrature points of every cell and its two one-sided values at every cell end, at their positions, plus the sensors of the cells where they are stored; regressions/plot.py draws the density, velocity and pressure of the cell averages at the cell centers. No other stored output is shown.",
 ["inputs"], "every stored solution: system, order, number of cells, output number, with or without sensors",
 "The plot programs have no test.",
 ["dg1d/plot.py", "regressions/plot.py", "dg1d/solution.py", "dg1d/basis.py"],
 [("reading and evaluating the solution", "dg1d/plot.py"), ("file reader", "dg1d/solution.py loader")],
 observe=["points given to the drawing library"])

prop("C34", "The convergence study runs every resolution and draws its errors",
 "advection_convergence/run.py runs the solver once for every resolution of the study, one after the other, wherever the study is, each in its own directory <order>/<resolution> with a deck that asks for that order and number of cells, and stores what the run printed in the logfile there. Results of an earlier study of the same order are gone afterwards; nothing else is touched; a failing run does not keep the others from running. advection_convergence/plot.py draws, for each order, the root mean square over the cells of half the difference between the first and the eleventh stored cell averages against the number of cells in increasing order, and against the elapsed seconds in the logfile, plus a line of slope -(2 order+1) through the first point.",
 ["inputs", "configurations", "histories"], "every content of the directories before the study, every run that fails, every set of stored resolutions and results",
 "Neither program has a test.",
 ["advection_convergence/run.py", "advection_convergence/plot.py", "dg1d/deck.py", "dg1d/main.py"],
 [("working directories, decks and runs", "advection_convergence/run.py"), ("errors and times", "advection_convergence/plot.py error_norm, get_timer")],
 observe=["runs started, files written", "points given to the drawing library"])

prop("C35", "The stability analysis tools analyse the scheme that is run",
 "analysis/dg_stability.py computes, for every wave number, order and set of modes of an icb enhancement, the eigenvalues of the semi-discrete advection operator that the solver applies (upwind, with or without that enhancement), and reports their smallest and largest real parts; analysis/rk_stability.py draws for each Runge-Kutta method the curve in the complex plane where the amplification factor of the solver's own coefficients has modulus 1: each drawn point is on it up to the grid spacing, no part inside the window is missing, and each curve has the name of its method. Sorting roots by angle keeps every root, and the delta function accepts two integers only.",
 ["inputs", "configurations"], "every order, set of modes and wave number; every integrator and point of the drawn window",
 "The analysis programs have no test.",
 ["analysis/rk_stability.py", "analysis/dg_stability.py", "analysis/aux_functions.py", "dg1d/rk_coeffs.py", "dg1d/enhance.py", "dg1d/basis.py"],
 [("amplification factor", "analysis/rk_stability.py approximate_stability_bndry, exact_stability_boundary"), ("symbols of the operators", "analysis/dg_stability.py dg_matrices, icb_matrices, get_eigenvalue")],
 observe=["eigenvalues", "points given to the drawing library"])

prop("C36", "Results do not depend on the units of density, velocity and length",
 "Take any run (any order, integrator, interface flux, enhancement, limiter, thresholds, boundaries, ratio of specific heats) and express the same problem in other units: densities, velocities and the length of the domain multiplied by constants (momentum and energy accordingly; for advection, the field multiplied by any constant or by -1). The run in the new units takes the same steps, writes outputs at the same (converted) times, flags the same cells and holds the converted solution. Exceptions: Godunov's pressure iteration stops at an absolute tolerance of 1e-6, advection's sensor threshold and the smallest time step have units.",
 ["inputs", "configurations", "histories"], "every initial data and every scale, not the scale of the shipped problems",
 "Tests use data of order one on domains of fixed length, so an absolute constant hidden in a flux, limiter, sensor or time step cannot show.",
 ["dg1d/euler_physics.py", "dg1d/limiting.py", "dg1d/sensor.py", "dg1d/rk.py", "dg1d/dg.py", "dg1d/solution.py"],
 [("fluxes and wave speeds", "dg1d/euler_physics.py"), ("time step", "dg1d/rk.py get_next_time_step, dg1d/solution.py max_wave_speed"), ("sensing", "dg1d/sensor.py sensing"), ("limiting", "dg1d/limiting.py")],
 observe=["stored states", "times and steps of the outputs", "flagged cells"])

prop("C37", "With uniform pressure and velocity only the density is carried along",
 "If an Euler solution has the same velocity U and pressure everywhere (any density, as polynomials in every cell), it keeps that velocity and pressure after every step, whatever the order, integrator, flux, enhancement, limiter, thresholds, boundary types, ratio of specific heats, direction and Mach number; and with the Roe or Godunov flux its density is, after every step, the one that the program's own advection solver computes from the same density in time U t (mirrored for a flow to the left, limited in the same cells). No pressure or velocity oscillation appears at a contact.",
 ["inputs", "configurations", "histories"], "every density distribution, velocity, pressure, configuration and step",
 "Tests compare single fluxes and single limiter calls with stored numbers.",
 ["dg1d/euler_physics.py", "dg1d/dg.py", "dg1d/limiting.py", "dg1d/rk.py", "dg1d/enhance.py"],
 [("fluxes", "dg1d/euler_physics.py riemann_roe, riemann_rusanov, riemann_godunov, interior_flux"), ("limiting of primitive quantities", "dg1d/limiting.py"), ("operator", "dg1d/dg.py residual")],
 observe=["stored states after every step"])

prop("C38", "A standing shock or contact stays where it is",
 "If two constant states that satisfy the jump conditions of a standing shock (any Mach number above one, either direction, any ratio of specific heats), or a standing contact (any ratio of densities), meet at an end of a cell, then with the Roe flux every later state of the run, limited or not, is the first one to rounding, for every order, integrator and step size; with the Godunov flux to the accuracy of its pressure iteration.",
 ["inputs", "configurations", "histories"], "every strength, direction, position, ratio of specific heats, configuration and step",
 "Tests compare single fluxes of a few states with stored numbers; a small loss of sharpness at shocks passes them.",
 ["dg1d/euler_physics.py", "dg1d/limiting.py", "dg1d/dg.py"],
 [("fluxes", "dg1d/euler_physics.py riemann_roe, riemann_godunov"), ("limiting of mean values", "dg1d/limiting.py"), ("operator", "dg1d/dg.py residual")],
 observe=["stored states after every step"])

prop("C39", "A change in one cell reaches one cell further per evaluation, none upwind",
 "Change the data of one cell and run again with the same time step: after k steps, cells further away than k times the number of evaluations of the operator per step (twice that when solutions are limited after each of them) hold exactly the values they had, whatever the system, order, integrator, flux, enhancement, limiter, boundaries and position (ends of the domain included; periodic ends are neighbors). In advection, and in supersonic flow with the Roe or Godunov flux, without limiting and enhancement no cell on the upwind side changes at all.",
 ["inputs", "configurations", "histories"], "every cell and disturbance, every configuration and step",
 "Tests run a few cells and compare with stored numbers; a coupling of far cells (a global maximum, a wrong neighbor) would be within their data.",
 ["dg1d/dg.py", "dg1d/limiting.py", "dg1d/sensor.py", "dg1d/euler_physics.py", "dg1d/advection_physics.py", "dg1d/rk.py"],
 [("faces", "dg1d/dg.py residual, dg1d/solution.py evaluate_faces"), ("fluxes", "dg1d/euler_physics.py, dg1d/advection_physics.py"), ("neighbors in limiting", "dg1d/limiting.py"), ("sensing", "dg1d/sensor.py")],
 observe=["stored states of pairs of runs"])

prop("C40", "At lowest order entropy is never destroyed",
 "For Euler at order 0 with Rusanov's or Godunov's flux and every positive state, ratio of specific heats and boundary type: the semi-discrete operator lets the total physical entropy (density times log(p/rho^gamma)/(gamma-1)) of the domain grow at least as fast as the flow through its ends brings it in, so in a periodic domain it never goes down; a forward Euler step within the stable time step (half of it with Godunov's flux) leaves every cell with at least the lowest specific entropy that it and its neighbors had; and in periodic runs of moderate data with any integrator at CFL number at most 0.5 the total entropy is not lower at any output than at the one before. No expansion shock is kept. Godunov's flux is judged to the accuracy of its pressure iteration, on data that open no vacuum.",
 ["inputs", "configurations", "histories"], "every pair and word of states, every ratio of specific heats, step size and configuration",
 "Tests compare single fluxes with stored numbers; a wrong wave speed or a missed sonic point for other states passes them.",
 ["dg1d/euler_physics.py", "dg1d/dg.py", "dg1d/rk.py"],
 [("dissipation", "dg1d/euler_physics.py riemann_rusanov"), ("wave pattern and sonic points", "dg1d/euler_physics.py riemann_godunov"), ("operator", "dg1d/dg.py residual")],
 observe=["residual", "solution after a step", "stored states"])

prop("C41", "A run that was killed can be continued from any of its outputs",
 "End a run at any point: every output it announced until then is complete and the one of the uninterrupted run, and there are no files of later ones. A new solution made from the same deck that loads any of these outputs, has its boundary conditions applied and is integrated to the same final time with the remaining number of outputs, first writes the output it was started from, unchanged, and then all outputs that were missing: the same step numbers and times, the same solution to rounding; also if it is ended and continued again, any number of times.",
 ["crash_points", "configurations", "histories"], "every point in the run where it can be ended, every sequence of continuations, every configuration",
 "Tests load one stored file and look at single values; none goes on from it, and none ends a run early.",
 ["dg1d/solution.py", "dg1d/rk.py", "dg1d/dg.py", "dg1d/limiting.py", "dg1d/main.py"],
 [("writing and loading", "dg1d/solution.py printer, loader"), ("output times from the current time on", "dg1d/rk.py classic_rk, low_storage_rk4, adjust_for_output"), ("constants of the problem", "dg1d/solution.py, dg1d/constants.py")],
 [("step number, time, boundary types", "header of every stored file", "dg1d/solution.py printer, loader")],
 observe=["files after the end of the process", "files of the continued run"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        if not p['anchors']['state']: del p['anchors']['state']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
