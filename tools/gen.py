"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing; both outputs are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "moving_mesh_transport/solver_classes/"; F = "moving_mesh_transport/solver_functions/"; L = "moving_mesh_transport/loading_and_saving/"
NOTEST = "The three stable tests check one spline and two closed forms at one time each; "
# id, title, statement, over, quantifier text, why, files, mechanisms [(name, where)], technique, note
T = [
("C01", "Quadrature rules are exact on their polynomial class",
 "For every supported rule (Gauss-Legendre, Gauss-Lobatto, Chebyshev) and every number of points, the nodes are distinct, sorted and inside [-1,1], the weights are positive, and the rule integrates every polynomial up to its degree of exactness to rounding error. Gauss-Lobatto rules contain both end points.",
 ["inputs", "configurations"], "all rule names and point counts, all polynomials of the exactness class",
 NOTEST + "none calls a quadrature rule; exactness is a statement over all point counts and polynomials.",
 [S + "functions.py"], [("quadrature", S + "functions.py:quadrature"), ("Newton iteration for Lobatto nodes", S + "functions.py:newtons")],
 "runtime oracle: real quadrature code executed for a sweep of sizes, integrals of random polynomials against closed forms", "sweep of every size in range plus random polynomials; a size outside the sweep is not covered"),
("C02", "Basis functions are orthonormal, and edge values and derivatives agree",
 "On every cell, of any width and position, the spatial basis functions are orthonormal, their values at the edges are those used in surface terms, and their first derivatives are the derivatives of the same functions. Points outside the cell give zero where the interface promises it.",
 ["inputs"], "all cells [a,b], degrees and evaluation points",
 NOTEST + "none evaluates a basis function; the identity must hold for every cell width, offset and degree.",
 [S + "functions.py"], [("normPn, Pn, normTn, dx_normPn, weight_func_Tn", S + "functions.py")],
 "runtime oracle: basis routines executed on random cells against an independent polynomial library", "random cells over eight decades of width; all degrees the code implements"),
("C03", "Element matrices are the integrals they stand for",
 "For every geometry, order, cell and pair of edge velocities, each entry of the mass, stiffness, mesh-motion and angular-redistribution matrices equals the integral of the corresponding product of basis functions over the cell. This includes the derivative of the mass matrix in time when the cell moves.",
 ["inputs", "configurations"], "all cells, edge velocities, orders and both geometries",
 NOTEST + "the repository's matrix tests need data files that are not there and sample one cell.",
 [S + "matrices.py", S + "GMAT_sphere.py"], [("slab and spherical element matrices", S + "matrices.py:G_L.make_all_matrices"), ("MPRIME closed form", S + "GMAT_sphere.py")],
 "runtime oracle: matrices built by the real code compared entrywise with numerical integration", "every entry for M<=8 (sphere), M<=12 (slab) on random cells"),
("C04", "The mesh is a valid partition of the domain at every time",
 "For every problem type, static or moving, and at every time up to the final time the cell edges are finite, strictly increasing (touching only where the problem starts from a point), cover the region the problem requires and keep the number of cells. The layout is symmetric where the problem is symmetric, and edges marking source boundaries stay where the source is.",
 ["inputs", "configurations", "histories"], "all mesh configurations and all sequences of times requested by an adaptive integrator",
 NOTEST + "no mesh is built by any passing test.",
 [S + "mesh.py", S + "mesh_functions.py"], [("mesh initialisation and motion", S + "mesh.py:mesh_class.initialize_mesh, move"), ("thick square motion", S + "mesh_functions.py:thick_square_moving_func")],
 "runtime invariant monitor on the mesh state after every move under random time histories", "16 mesh families, random sizes and time histories"),
("C05", "Mesh velocities are the time derivatives of the edges",
 "At every time the reported edge velocities are the rates of change of the reported edges, and both depend only on the time asked for, not on the earlier requests. A static mesh has zero velocities and stays at its initial position.",
 ["inputs", "configurations", "histories"], "all mesh configurations and all orders of requested times, including steps an integrator rejects",
 NOTEST + "no test moves a mesh, and history dependence needs sequences of calls.",
 [S + "mesh.py", S + "mesh_functions.py"], [("move", S + "mesh.py:mesh_class.move"), ("mesh_cluster_blast_wave, set_func", S + "mesh_functions.py")],
 "runtime differential monitor: history-driven mesh against fresh meshes and central differences", "random histories; kinks of tabulated waves excluded; two recorded findings (finite domain)"),
("C06", "The semi-discrete equations conserve particles",
 "The rate of change of the particle number implied by the right-hand side equals source minus absorption minus leakage through the domain boundary, on static and moving meshes. Streaming, mesh motion, scattering and angular redistribution neither create nor destroy particles.",
 ["inputs", "configurations"], "all states, times, meshes, opacities and boundary settings",
 NOTEST + "none evaluates the right-hand side; conservation is a statement over all states.",
 [S + "rhs_class_1.py", S + "numerical_flux.py", S + "matrices.py", S + "functions.py"], [("right-hand side", S + "rhs_class_1.py:rhs_class.call"), ("surface terms", S + "numerical_flux.py:LU_surf.make_LU"), ("angular redistribution", S + "functions.py:finite_diff_uneven")],
 "runtime conservation monitor on right-hand-side evaluations of the real solver objects", "random states and configurations; exact up to rounding for constant opacity"),
("C07", "The right-hand side is the weak form of the transport equation",
 "For every state and time, the vector handed to the time integrator equals the discontinuous Galerkin weak form of the configured transport equation on the moving mesh: streaming, mesh motion, upwind surface terms, boundary inflow, absorption, scattering, sources and angular redistribution. This holds in slab and spherical geometry for every number of angles, cells and order.",
 ["inputs", "configurations"], "all states, times, problem types, opacities, geometries and orders",
 NOTEST + "none evaluates the right-hand side.",
 [S + "rhs_class_1.py", S + "numerical_flux.py", S + "matrices.py", S + "sources.py", S + "phi_class.py", S + "opacity.py"], [("right-hand side", S + "rhs_class_1.py:rhs_class.call")],
 "runtime oracle: every entry of the real right-hand side against an independent quadrature of the weak form", "random configurations and states; edges and velocities taken from the mesh (C04, C05)"),
("C08", "The right-hand side is a pure affine function of time and state",
 "Evaluating the right-hand side gives the same result whatever was evaluated before, in whatever order of times, and does not modify its input. For transport problems it is affine in the state.",
 ["histories", "inputs"], "all sequences of (time, state) evaluations an adaptive integrator can make",
 NOTEST + "none makes two evaluations; purity is about histories.",
 [S + "rhs_class_1.py", S + "opacity.py", S + "mesh.py", S + "sources.py"], [("objects mutated during evaluation", S + "rhs_class_1.py:rhs_class.call")],
 "runtime differential monitor over random call histories against fresh objects", "random histories of up to a few dozen calls"),
("C09", "A complete solve delivers the configured physics",
 "Running a problem from start to final time gives the scalar flux of the exact solution within discretisation error, conserves particles, keeps the symmetries of the problem, and does not depend on the supported way of computing it (uncollided treatment on or off, static or moving mesh, order of output).",
 ["inputs", "configurations"], "all supported problem types and options",
 NOTEST + "no passing test runs the solver.",
 [F + "main_functions.py", S + "rhs_class_1.py", S + "make_phi.py", S + "build_problem.py"], [("solve", F + "main_functions.py:solve")],
 "runtime oracle: full solves judged against exact solutions, conservation and metamorphic relations", "a few dozen solves per run; tolerances from discretisation error"),
("C10", "Uncollided fluxes solve the collisionless transport equation",
 "For every problem with an uncollided treatment, the uncollided scalar flux at every point and time is the integral of the attenuated source over emission times and directions, scaled once by the source strength. It vanishes ahead of the fastest uncollided particle and is even where the source is.",
 ["inputs", "configurations"], "all points, times, widths, switch-off times and source strengths; both angular models",
 "Two stable tests compare the two-direction form and the square form with a table at one time each; the identity is over all points and times.",
 [S + "uncollided_solutions.py", S + "functions.py"], [("uncollided_solution", S + "uncollided_solutions.py:uncollided_solution"), ("uncollided_su_olson_s2, uncollided_square_s2, s2 gaussians", S + "functions.py")],
 "runtime oracle: closed forms executed on random points against adaptive integration of the definition", "random parameters with points on both sides of each wavefront; unit cross section"),
("C11", "Outputs are the expansion evaluated at the requested points",
 "The scalar flux, angular flux, exit distribution and material energy returned for given coefficients are the evaluation of the expansion on the cell containing each requested point plus the uncollided part, and zero outside the domain. The automatic list of evaluation points lies in the domain and resolves every cell.",
 ["inputs", "configurations"], "all coefficient sets, meshes and evaluation points, including edges and outside points",
 NOTEST + "no output is reconstructed by a passing test.",
 [S + "make_phi.py", S + "functions.py"], [("make_output", S + "make_phi.py:make_output"), ("find_nodes", S + "functions.py:find_nodes")],
 "runtime oracle: reconstruction executed on random data against direct evaluation", "random meshes, coefficients and points"),
("C12", "Initial coefficients represent the configured initial state",
 "For every problem type the initial coefficients are the projection of the prescribed initial angular flux and material energy on the initial mesh, with the configured strength and width, and are zero when the state is carried by the uncollided solution. The particle number they represent is the configured one.",
 ["inputs", "configurations"], "all problem types, widths, strengths, meshes, orders and angle sets",
 NOTEST + "no initial condition is built by a passing test.",
 [S + "build_problem.py", S + "mutables.py"], [("make_IC", S + "build_problem.py:build.make_IC"), ("IC_func", S + "mutables.py:IC_func.function")],
 "runtime oracle: projected coefficients against independent projections and particle counts", "random configurations; one recorded finding (two-cell static plane pulse)"),
("C13", "Source moments are the projection of the configured source",
 "For every source type, cell and time the moments handed to the solver are the projection of the configured volumetric source, or of the scattered uncollided flux, on the cell, with the configured strength and scattering ratio applied once. They vanish outside the source and after it is switched off and do not depend on earlier calls.",
 ["inputs", "configurations", "histories"], "all cells, times, source types, strengths and orders",
 NOTEST + "no source is evaluated by a passing test.",
 [S + "sources.py", S + "uncollided_solutions.py"], [("make_source", S + "sources.py:source_class.make_source")],
 "runtime oracle: moments against independent high-order projection; fresh-object differential", "random cells and times"),
("C14", "Absorption and scattering use the represented opacity",
 "For every opacity law, the opacity moments of a cell are the projection of the opacity at the current time on the current cell, and absorption and scattering terms are the projections of opacity times flux. They follow the mesh and the time whatever the order of calls.",
 ["inputs", "configurations", "histories"], "all opacity laws, cells, times, flux states and histories of meshes",
 NOTEST + "no opacity is evaluated by a passing test.",
 [S + "opacity.py", S + "phi_class.py"], [("sigma_moments, make_vectors", S + "opacity.py:sigma_integrator"), ("make_P", S + "phi_class.py:scalar_flux.make_P")],
 "runtime oracle: opacity terms against direct integration through random mesh histories", "random histories; Msigma up to the order the package's rule is exact for"),
("C15", "Surface terms are upwind fluxes with the configured boundary data",
 "On every edge the surface term is the flux of the upwind side relative to the moving edge, so that what leaves one cell through an edge enters its neighbour. At the ends of the domain inflow is the configured boundary source or reflection and zero otherwise.",
 ["inputs", "configurations"], "all states, directions, edge velocities and boundary settings",
 NOTEST + "no surface term is evaluated by a passing test.",
 [S + "numerical_flux.py"], [("make_LU, make_sol, make_h, B_LR_func", S + "numerical_flux.py:LU_surf")],
 "runtime oracle and conservation monitor on surface terms", "random states, all upwind patterns"),
("C16", "Loading a saved run gives back exactly what was saved last",
 "For every sequence of saves and loads, loading a run by its key returns the arrays of the last save under that key, and saving one run leaves every run with another key unchanged. Keys tell apart problem, source, treatment, mesh motion, resolution, time and parameters.",
 ["histories", "inputs"], "all histories of saves, overwrites of different size and loads",
 NOTEST + "nothing is saved or loaded by a passing test.",
 [L + "save_output.py", L + "load_solution.py"], [("save_solution, save_wave_loc, save_RMS", L + "save_output.py:save_output"), ("load_sol", L + "load_solution.py:load_sol")],
 "runtime model-based monitor: random save/load histories against a map model of the file", "random histories of tens of operations"),
("C17", "Every configured value reaches the solver, and bad scripts are refused",
 "For every input script and every problem in it, each value the user configured is the value the driver works with, taken from the section of the selected problem and from no other, whether the script is given as a dictionary or read from a file. The scripts themselves are not changed, and contradictory scripts (several geometries, couplings or opacities, lists of different lengths) are refused.",
 ["inputs", "configurations"], "all input scripts: every field, every problem section",
 NOTEST + "none loads an input script.",
 [L + "load_parameters.py", F + "run_functions.py", "moving_mesh_transport/solver.py"], [("parameter_load_class", L + "load_parameters.py:parameter_load_class"), ("run.load", F + "run_functions.py:run.load")],
 "runtime oracle: random scripts loaded by the real loader, every attribute compared with the script", "random scripts with every section distinct; nine recorded findings (shipped scripts of an earlier layout)"),
("C18", "Benchmark values are those of the requested problem, time and points",
 "For every problem, time and query grid, the values a solution is compared with are the tabulated ones of exactly that problem and time, interpolated inside the table and zero beyond its end, for symmetric grids too. The query grid is not modified, and tabulated mesh data are interpolated without reading outside the table.",
 ["inputs", "configurations"], "all problems, tabulated times, query grids and scalings",
 "One stable test checks one spline of one file at one time; the guarantee covers every problem, time and grid.",
 [L + "load_bench.py", L + "load_bench_su_olson.py", S + "mesh_functions.py"], [("load_bench", L + "load_bench.py:load_bench"), ("load_bench_su_olson", L + "load_bench_su_olson.py")],
 "runtime oracle: loader executed on synthesised tables with known functions", "synthesised tables; symmetric grids with an even number of points"),
("C19", "Interpolation and elimination utilities meet their defining equations",
 "The spline and linear interpolants reproduce their data at every node and the function class they are exact for in between, and derivative interpolants are the derivatives of the same function. Linear systems are solved to rounding error for every well-conditioned matrix, and inputs are left unchanged where the interface promises it.",
 ["inputs"], "all tables, query points and well-conditioned systems",
 "One stable test checks one cubic spline on one table.",
 [S + "cubic_spline.py", S + "mesh_functions.py", S + "functions.py"], [("spline and linear interpolation", S + "cubic_spline.py"), ("interpolation of tabulated waves", S + "mesh_functions.py")],
 "runtime oracle: utilities executed on random data against their defining equations", "random tables and systems"),
("C20", "Compiled solver and source agree, with no bad memory access",
 "For every configuration the compiled solver gives the result its source defines, repeatably: no read outside an array, no read of a value that was never written, no dependence on leftover memory, no non-finite result from finite data. This covers every object a solve uses and the solve itself.",
 ["inputs", "configurations"], "all configurations of the compiled classes",
 NOTEST + "the compiler turns bounds errors into silent memory reads, which no test can see.",
 [S + "rhs_class_1.py", S + "mesh.py", S + "matrices.py", S + "sources.py", S + "make_phi.py", F + "main_functions.py"], [("compiled classes", S + "build_problem.py"), ("solve", F + "main_functions.py:solve")],
 "sanitizer (numba bounds checking, uninitialised-read trap) plus differential monitor between compiled and interpreted execution", "a dozen configurations per quick run because every compiled class takes a minute to build"),
("C21", "Emission is the projection of the temperature law on the cell",
 "For every temperature law, heat capacity, order, cell and energy state, the emission moments are the projection of the law applied to the represented energy density. They are zero without coupling, positive on average for a non-zero temperature, and do not depend on cells handled before.",
 ["inputs", "configurations"], "all energy states, cells, laws and orders",
 NOTEST + "none evaluates the coupling.",
 [S + "radiative_transfer.py"], [("T_function.make_H", S + "radiative_transfer.py:T_function")],
 "runtime oracle: emission moments of the real object against independent projections", "slab; the quartic law up to the error of the package's own rule"),
("C22", "Computed fluxes converge to the exact solution under refinement",
 "For every supported problem and treatment the computed scalar, collided and angular fluxes approximate the exact solution of the transport equation at every output time, within the error of the discretisation, and the error falls as cells, order or directions are refined: scattering, absorption and variable opacity along rays included, in the slab and in the sphere. Fluxes scale with the source.",
 ["inputs", "configurations"], "all problems, cross sections, meshes, orders, directions and output times",
 NOTEST + "no passing test runs a solve.",
 [S + "rhs_class_1.py", S + "sources.py", S + "uncollided_solutions.py", S + "matrices.py", S + "numerical_flux.py", F + "main_functions.py"], [("solve", F + "main_functions.py:solve"), ("rhs_class.call", S + "rhs_class_1.py:rhs_class.call")],
 "runtime oracle: complete solves against exact solutions (Fourier series and Volterra equation, ray attenuation)", "coarse discretisations with the measured discretisation error as tolerance; discontinuous problems in the mean"),
("C23", "Numerical helpers compute what their names say",
 "Every numerical helper gives the quantity it is named for on its whole domain: uneven angular differences are conservative and telescope, derivatives of Legendre polynomials match the polynomials, roots found are roots, quadratures and reconstructions meet their definitions, convergence orders are recovered, and selectors name the configured problem. The answer depends on the arguments only.",
 ["inputs"], "all arguments of the helper routines in their documented domain",
 NOTEST + "no helper routine of this kind is called by a passing test.",
 [S + "functions.py", F + "run_functions.py", S + "make_phi.py"], [("finite_diff_uneven, angular_deriv, Legendre derivatives, root finders", S + "functions.py"), ("convergence orders", S + "functions.py:convergence")],
 "runtime oracle: helper routines executed on random data against independent evaluations of their definitions", "random arguments; iterative helpers are given brackets or starting points from which they converge"),
("C24", "A solve integrates the configured equations and reports its states",
 "Every solve hands the time integrator the configured interval, initial state, tolerances, step limit, method and output times, and a right-hand side that is the one of the configured problem at whatever time and state it is asked. Every returned flux, exit distribution, point list and mesh is the evaluation of the state returned for exactly that output time, and the list of output times does not change the solution.",
 ["inputs", "configurations", "histories"], "all configurations, output times and call histories of the integrator",
 NOTEST + "no passing test calls solve.",
 [F + "main_functions.py", S + "make_phi.py"], [("solve", F + "main_functions.py:solve")],
 "runtime monitor in place of the time integrator: recorded arguments and returned arrays against independent evaluations; plus differential real solves", "random configurations and random integrator histories of a few calls; uncoupled problems"),
("C25", "The driver runs what is configured and reports and saves what it got",
 "For every script the driver calls the solver once per configured run and repetition, with each configured value in its place, and all four treatments when asked for all. The results it reports, saves, times and compares with benchmarks are those the solver returned for that run and output time, under the key of that run, and a run with saving off writes nothing.",
 ["inputs", "configurations", "histories"], "all scripts, sources, sequences of runs and solver results",
 NOTEST + "no passing test starts the driver.",
 ["moving_mesh_transport/solver.py", F + "run_functions.py", F + "main_functions.py", L + "save_output.py"], [("main_class.main", "moving_mesh_transport/solver.py:main_class.main"), ("run", F + "run_functions.py:run"), ("parameter_function, x0_function, s2_source_type_selector", F + "main_functions.py")],
 "runtime monitor in place of the solver: recorded calls, reported and saved results against the script and the monitor's synthetic results; plus real runs", "random scripts of every source; one recorded finding (coefficients of earlier output times)"),
("C26", "Benchmarks of the run scripts solve the problems they are compared with",
 "The closed-form and tabulated benchmark solutions of the run scripts (fake Sedov and moving shock with a boundary source, steady Gaussian attenuation, Siewert slab, Olson-Henderson square source) are the solution of the transport problem that was run, at every point, time, direction and parameter, and the error reported against them is the distance of the computed flux at that time from that solution.",
 ["inputs", "configurations"], "all points, output times, shock speeds, source durations, domain widths and numbers of directions",
 "The stable tests use none of these benchmarks; a table or closed form can be right at one point and wrong in a regime (shock gone, source off) that a test does not sample.",
 [F + "run_functions.py"], [("fake_sedov_benchmark, fake_sedov, moving shock, steady_state_gaussian_benchmark, siewert benchmarks, olson_henderson_bench", F + "run_functions.py:run")],
 "runtime oracle: benchmark routines executed at random parameters against line integrals of the opacity and independent solutions; plotted curves captured with a stand-in", "random parameters, tables to their printed digits; one recorded finding (steady Gaussian width)"),
("C27", "Convergence tables are loaded, fitted, compared and drawn as they were stored",
 "What the plotting tools load for a problem, treatment (moving or static, with or without uncollided solution), kind of table, time and order is the row stored for exactly that run; the fitted convergence constants, percent differences and averaged coefficients are those of the loaded numbers; and every curve drawn shows stored cells or orders against the stored error it stands for (material energy for energy plots, scalar flux otherwise), once per treatment and distinguishable from the others. The benchmark plots show the tabulated benchmark of that source and time.",
 ["inputs", "configurations", "histories"], "all sources, treatments, kinds of table, orders, whole and fractional times, stored numbers and sequences of stored tables",
 NOTEST + "no test stores, loads or draws a convergence table; a wrong row or treatment looks like a plausible curve.",
 ["moving_mesh_transport/plots/make_plots.py", "moving_mesh_transport/plots/plotting_script.py", "moving_mesh_transport/plots/plot_functions/coeff_con.py", L + "save_output.py"],
 [("rms_plotter", "moving_mesh_transport/plots/make_plots.py:rms_plotter"), ("plot_rms_cells, plot_rms_Ms, plot_all_rms_times, compare_rms", "moving_mesh_transport/plots/plotting_script.py"), ("coeff_con", "moving_mesh_transport/plots/plot_functions/coeff_con.py:coeff_con")],
 "runtime monitor over the plotting tools: random tables stored with the package, loaded rows, printed fits and every curve on real off-screen figures compared with what was stored", "random tables of every source and treatment; label positions, limits and colours beyond telling treatments apart are not judged"),
]
T += json.load(open(os.path.join(HERE, "tools", "more.json"))) if os.path.exists(os.path.join(HERE, "tools", "more.json")) else []
NA = []
def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for (i, title, st, over, q, why, files, mech, *_r) in T:
            assert len(title) <= 80, title
            f.write(json.dumps({"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}}) + "\n")
    checks = [{"property": t[0], "quick_cmd": "./run.sh %s --tier quick" % t[0], "thorough_cmd": "./run.sh %s --tier thorough" % t[0],
               "evidence_file": "evidence/%s.json" % t[0], "technique": t[8], "level": "exploration",
               "level_note": t[9] + ". Verdicts come from executions of the code in /repo; a violation seen under the interpreter is replayed with the compiled code before it is reported."} for t in T
              if os.path.exists(os.path.join(HERE, "checks", t[0].lower() + ".py"))]
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": NA}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
main()
