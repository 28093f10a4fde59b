#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
      "quantifier": {"over": over, "text": " ".join(text.split())},
      "why_tests_cant": " ".join(why.split()),
      "anchors": {"files": files,
                  "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                  "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                  "observe_at": observe, "hook_needed": None}})
M, L, S, PL = ("puncturedfem/mesh/", "puncturedfem/locfun/", "puncturedfem/solver/", "puncturedfem/plot/")

prop("C01", "An edge's sampled geometry is exactly its recorded transformation history",
 """Whenever an edge has been parameterized, its sampled points, unit tangents, unit normals, derivative norms and
 signed curvature are those of its base curve carried through every transformation requested since its endpoints were
 last set, in order, no matter how often and with which quadratures it was parameterized, de-parameterized, reversed or
 deep-copied in between. Products, integrals and other queries along it, with or without its last point, are those of these samples, and an
 edge that is not sampled refuses to answer. A transformation that is rejected changes nothing, and one that is interrupted is either fully in
 effect or not at all once the edge is parameterized again.""",
 ["histories", "crash_points"],
 """every interleaving of translate/rotate/reflect/dilate/orthogonal/join/set-endpoints calls with parameterize, de-parameterize,
 reverse, deepcopy, rejected calls and interruptions at any point, for loops and open curves of every curve type""",
 """tests parameterize each edge once with at most one transformation; nothing re-parameterizes after a transformation history or interrupts one""",
 [M+"edge.py", M+"edgelib/", M+"transform.py", M+"quad.py"],
 [("transformation diary replayed on every parameterization", M+"edge.py"), ("affine updates of sampled data in place", M+"edge.py")],
 ["sampled arrays of an Edge after parameterize()"],
 [("diary", "ordered list of transformations still to be replayed", M+"edge.py")])

prop("C02", "Splitting an edge yields pieces that retrace it and leaves it alone",
 """For any edge with any history of transformations, splitting it at parameters in any order (or into equal parts) gives pieces that,
 chained end to end, trace exactly the same curve as the parent would: shared endpoints coincide, the pieces inherit
 the cells on both sides, and lengths and enclosed area add up. The parent edge and the caller's list of split parameters are unchanged,
 also when the split is rejected or interrupted.""",
 ["histories", "crash_points"],
 "every transformation history of the parent (including reflections), every set and order of split parameters, repeated splitting of pieces, and interruption during the split",
 "tests split one untransformed edge type at fixed parameters and compare a few points",
 [M+"split_edge.py", M+"transform.py", M+"edge.py"],
 [("replays the parent's transformations on the split vertices", M+"split_edge.py")],
 ["sampled points of the pieces versus the parent"])

prop("C03", "Sampling a cell gives the same result whatever happened before",
 """After a mesh cell is parameterized with a quadrature, everything observable about it (boundary points, tangents, normals,
 weights, hole points, interior points, triangulation, integrals) equals what a freshly built copy of the mesh gives, regardless of
 earlier parameterizations of this or neighbouring cells with any quadratures, grids of interior points, de-parameterizations, edge-space
 construction or queries, and whatever callers did to the arrays they were given.
 De-parameterizing a cell un-samples exactly its own edges.
 The boundary is traversed with the cell on the left (outer boundary first, counterclockwise; holes clockwise; outward normals) in whatever
 order and direction the edges were given; interior points lie in the cell, and the triangles flagged as touching the boundary are those with a vertex on it.""",
 ["histories", "configurations"],
 "every sequence of operations on cells, edges and function spaces sharing the mesh, and every listing order and orientation of the edges",
 "tests parameterize each cell once, immediately after building it, with edges listed in one convenient order",
 [M+"cell.py", M+"closed_contour.py", M+"planar_mesh.py", M+"edge.py"],
 [("shared Edge objects re-sampled and re-oriented in place per cell", M+"closed_contour.py"), ("outer boundary detection and swap", M+"cell.py")],
 ["all query methods of a parameterized MeshCell"],
 [("shared Edge arrays", "orientation currently applied to edges shared by two cells", M+"edge.py"),
  ("components", "boundary components, outer boundary first", M+"cell.py")])

prop("C04", "An interrupted geometry operation can simply be repeated",
 """If building a mesh, sampling or un-sampling an edge, contour or cell, or generating interior points is interrupted at any point
 (user interrupt, out of memory, failing curve evaluation), repeating the operation succeeds and gives exactly
 what it would have given had the interruption never happened, for that cell and for every other cell of the mesh.""",
 ["crash_points", "fault_sequences"],
 "an exception at any executed statement of any geometry operation, any number of times, followed by any continuation",
 "no test interrupts an operation",
 [M+"cell.py", M+"closed_contour.py", M+"edge.py", M+"planar_mesh.py"],
 [("re-sampling overwrites every derived quantity", M+"edge.py"), ("component bookkeeping in MeshCell", M+"cell.py")],
 ["cell and edge observables after the repeated call"])

prop("C05", "An interrupted local computation leaves its inputs intact and can be repeated",
 """If setting up a boundary-integral solver, a local function, an edge space or a local function space, or evaluating inner products,
 interior values or linear combinations is interrupted at any point (user interrupt, out of memory, failed iterative solve),
 then the cell, solver, traces and functions passed in still give the same answers as before, and repeating the
 operation gives exactly the uninterrupted result.""",
 ["crash_points", "fault_sequences"],
 "an exception at any executed statement or numerical-library call of any local computation, repeated any number of times",
 "no test interrupts a computation or looks at the inputs afterwards",
 [L+"nystrom.py", L+"local_poisson.py", L+"local_harmonic.py", L+"local_space.py", L+"antilap.py", L+"trace.py", L+"edge_space.py"],
 [("local objects are built from read-only cells and solvers", L+"local_poisson.py"), ("per-call temporaries in operators", L+"nystrom.py")],
 ["values, inner products and interior data after the repeated call"])

prop("C06", "A linear system depends only on the problem, not on the assembly history",
 """Assembling and solving gives the same matrices, right-hand side, solution and per-cell coefficients however often and in whatever
 order problems are assembled, re-assembled with other coefficients or options, solved, or set up by several solvers sharing
 one function space or mesh, moved to another space or given a bilinear form that was changed in place since, and in whatever order local spaces were built before. In every state the degrees of freedom of each cell are numbered
 consistently (shared ones identically on both sides, together covering every unknown exactly once), stiffness and mass are symmetric with the right totals,
 the solution returned belongs to the system currently assembled, and the function a solver makes of given coefficients on a cell is exactly their combination of the local basis functions.""",
 ["histories", "configurations"],
 "every sequence of space construction, local space builds, assembly, re-assembly, coefficient changes, solves and queries, on one or several solvers over a shared space or mesh",
 "tests assemble and solve each problem once with a new solver, space and mesh",
 [S+"solver.py", S+"globfunsp.py", S+"bilinear_form.py", S+"globkey.py"],
 [("per-cell list of global keys", S+"globfunsp.py"), ("global numbering bubble/vertex/edge", S+"globfunsp.py"), ("linear-system arrays reset at assembly", S+"solver.py")],
 ["global matrices, right-hand side, solution and cell coefficients"],
 [("cell_dofs", "global keys of the functions on each cell", S+"globfunsp.py"), ("soln", "stored solution vector", S+"solver.py")])

prop("C07", "An interrupted or failed assembly or solve can be repeated with correct results",
 """If building the function space, assembling, solving or evaluating a solution is interrupted or fails at any point (interrupt, out of memory, failing
 linear solve), repeating it on the same objects gives the same system, solution and cell coefficients as a run
 that never failed. A failed call never leaves behind a solution or coefficients that differ from the correct ones without raising an error.""",
 ["crash_points", "fault_sequences"],
 "an exception at any executed statement or library call of space construction, assembly, solve and post-processing, repeated any number of times",
 "no test interrupts an assembly",
 [S+"solver.py", S+"globfunsp.py", L+"local_space.py"],
 [("global keys appended while local spaces are built", S+"globfunsp.py"), ("arrays re-initialised at the start of assembly", S+"solver.py")],
 ["global matrices, right-hand side, solution and cell coefficients after the repeated call"])

prop("C08", "Polynomial arithmetic is exact bookkeeping over any operation sequence",
 """Any sequence of sums, differences, products, powers, scalar operations, compositions, derivatives, anti-Laplacians, copies, in-place updates,
 comparisons and printing on polynomials agrees at every step with ordinary polynomial algebra, and each call finishes in bounded work.
 Only an explicitly in-place update changes a polynomial, and then only its target: operands, results computed earlier and copies
 keep their values even if they stem from the same objects, also when an operation is rejected or interrupted.""",
 ["histories", "crash_points"],
 "every sequence of operations over a pool of polynomials with arbitrary aliasing (including a polynomial combined with itself), and interruption of non-mutating operations at any point",
 "tests check single operations on new operands; aliasing between results, copies and operands over a sequence is not sampled",
 [L+"poly/poly.py", L+"poly/monomial.py", L+"poly/multi_index.py"],
 [("term lists shared between polynomials are rebuilt, never edited in place", L+"poly/poly.py"), ("consolidation and sorting of terms", L+"poly/poly.py")],
 ["values and coefficients of all live polynomials"],
 [("monos", "list of terms, possibly shared between polynomials", L+"poly/poly.py")])

prop("C09", "Local function and trace arithmetic is linear and never disturbs its operands",
 """Over any sequence of sums, differences, scalings and divisions of local functions, their parts and boundary traces, the trace, weighted derivatives, interior values
 and gradients, and inner products of the results equal the corresponding linear combination of the originals. No operation, query or later modification of
 another function or of the data it was built from changes the values of an existing function or trace, also when an operation (or an edit of the trace itself) is rejected.""",
 ["histories"],
 "every sequence of arithmetic, queries, setter calls on traces and modifications of the caller's own arrays over a pool of functions and traces sharing operands",
 "tests form one sum or product and compare one number; operands and aliasing are not examined over a history",
 [L+"local_poisson.py", L+"local_harmonic.py", L+"local_polynomial.py", L+"trace.py", L+"inner_prod.py"],
 [("operators build new objects from parts", L+"local_poisson.py"), ("setters copy values into own storage", L+"trace.py")],
 ["trace values, derivatives, interior data and inner products of all live functions"])

prop("C10", "Threads may share a sampled cell and its solver for local computations",
 """When several threads use one parameterized cell, boundary-integral solver, set of local functions or polynomials at the same time to build
 local functions, evaluate inner products and interior values, or combine, compare and print them, every thread gets exactly the result it would get alone,
 under every interleaving. The shared objects are unchanged afterwards.""",
 ["schedules"],
 "every preemption of any thread at any executed statement of the library while other threads run the same or other operations on the shared objects",
 "the tests are single-threaded",
 [L+"nystrom.py", L+"local_poisson.py", L+"inner_prod.py", L+"poly/poly.py", M+"cell.py"],
 [("operators and functions keep no per-call state on shared objects", L+"nystrom.py"), ("query methods build new arrays", M+"cell.py")],
 ["per-thread results compared with sequential results"])

prop("C11", "Separate problems never influence each other",
 """Problems that share no mesh, edge, cell, function space or solver object can be worked on in any interleaving, on one thread or several, in one process,
 with some of them aborted midway, and each gives exactly the result it gives alone in a new process. This covers geometry,
 quadratures, local functions, polynomials, spaces, assembly and solution, including problems that agree in all but one parameter.""",
 ["schedules", "histories"],
 "every interleaving (by thread preemption at any statement or by order in one thread) of any set of independent problems, with similar or different parameters",
 "each test handles one problem at a time, and state hidden between tests would have to collide by accident",
 ["puncturedfem/"],
 [("no module-level mutable state; parameters passed explicitly", "puncturedfem/"), ("curve modules loaded by name per call", M+"edge.py")],
 ["results of each problem compared with a run in a pristine process"])

prop("C12", "A boundary-integral solve that did not converge is never silent",
 """Whenever the iterative solver behind a local function, harmonic conjugate, Neumann solve or solver set-up reports that it did not converge, the caller is told by a warning
 or an exception, for each such solve, whatever the verbosity, cell or options; a later converged solve on the same solver is unaffected and gives no warning.
 A failing or singular global solve likewise raises or warns and never replaces a solution with an unmarked wrong one.""",
 ["fault_sequences", "histories"],
 "every sequence of converged and non-converged iterative solves, on simply and multiply connected cells, through every caller, and failing global solves",
 "in the tests every solve converges, so the failure path never runs",
 [L+"nystrom.py", L+"antilap.py", L+"local_harmonic.py", S+"solver.py"],
 [("convergence flag checked after each iterative solve", L+"nystrom.py"), ("sparse direct solve", S+"solver.py")],
 ["standard output, standard error, warnings and exceptions during solves"])

prop("C13", "Progress output, its failures and the clock never affect results",
 """Meshes, spaces, linear systems and solutions are the same with verbose output on or off, whatever the clock does, and whether the output streams work, are slow to accept
 data, or fail at any write. If a failing stream aborts a call, repeating the call with a working stream gives the correct result on the same objects.""",
 ["fault_sequences", "configurations"],
 "every pattern of failing writes and flushes on standard output and error at any write, every verbosity combination, and clock jumps forwards and backwards during progress reporting",
 "tests run with working streams and the real clock",
 [S+"solver.py", S+"globfunsp.py", L+"local_space.py", L+"nystrom.py", M+"planar_mesh.py", "puncturedfem/util/print_color.py"],
 [("verbose branches duplicate the work of quiet ones", S+"globfunsp.py"), ("progress bars wrapped around loops", L+"local_space.py")],
 ["matrices, solution and coefficients in each verbosity and fault pattern"])

prop("C14", "A figure is saved completely or the draw call fails, and can be retried",
 """A draw call that is given a file name and returns has written a complete, readable image there, creating missing directories (also if another process creates them at the same moment, and
 for a bare file name). If the directory or file cannot be created or written in full the call raises, and in every case, also on interruption or invalid options,
 no figure stays open, process-wide plotting and numerical settings are as before, and repeating the call works.""",
 ["fault_sequences", "crash_points"],
 "every file-system fault (denied, full disk after any byte, failing close, missing or concurrently created directories) and interruption at any point in any kind of plot, followed by retries",
 "tests do not draw to files under faults and never inspect what a failed draw leaves behind",
 [PL+"plot_util.py", PL+"mesh_plot.py", PL+"locfun_plot.py", PL+"globfun_plot.py", PL+"trace_plot.py"],
 [("directory creation before saving", PL+"plot_util.py"), ("figure created, saved and closed by each draw", PL+"mesh_plot.py")],
 ["files on the simulated disk, open figures, global plotting and floating-point error settings"])

prop("C15", "Plotting never changes what is plotted, and does not depend on earlier plots",
 """Creating and drawing plots of meshes, traces, local functions and solutions with any options, in any order and any number of times, leaves every mesh, cell, trace, function, coefficient and solver result
 unchanged; what is drawn shows exactly the values of the plotted object in the colors and with the options asked for (title, legend, labelled ticks, axis, grid, color bar and one color range for all cells, boundary, triangulation, levels, styles and scale), admissible requests succeed, and the same plot request gives the same picture whatever was drawn before, including after draws that failed (a trace may be given as an object or as its values; arrows on an already sampled edge shared by two cells follow the cell used last).""",
 ["histories", "fault_sequences"],
 "every sequence of plot constructions and draws with any options over shared functions, cells and solvers, some of them failing, between computations",
 "tests draw each plot at most once and do not look at the plotted objects afterwards",
 [PL+"locfun_plot.py", PL+"globfun_plot.py", PL+"mesh_plot.py", PL+"trace_plot.py", M+"cell.py"],
 [("edges copied before re-sampling for a plot", PL+"mesh_plot.py"), ("triangulation mask recomputed for each draw", PL+"locfun_plot.py"), ("values transformed for display", PL+"locfun_plot.py")],
 ["function values and geometry before and after, figures at the moment they are shown or saved, and pixels of repeated draws"])

prop("C16", "Results depend only on the arguments, never on the surroundings",
 """The same problem gives the same geometry, basis ordering, matrices, solution and plots in every process: hash randomisation, state of the random generators, clock, working directory, memory layout,
 garbage collection timing and what the process did earlier have no influence. The library in turn leaves process-wide settings (random generators, floating-point error handling, warning filters, working directory) untouched.""",
 ["configurations", "schedules"],
 "every assignment of the ambient inputs the simulator controls (hash seed, random state, clock, directory, collection points, allocation history), before and during every operation",
 "tests run in one environment and compare to tolerances, so a reordering or ambient dependence is invisible",
 ["puncturedfem/"],
 [("ordering by index rather than by hash or identity", L+"local_space.py"), ("explicit parameters only", "puncturedfem/")],
 ["digests and arrays of all results under different surroundings"])

prop("C17", "Results on one cell stay valid while other cells are worked on",
 """A local function, trace or function space built on one cell, and every value, inner product, combination and interior value obtained from it, stays correct when other cells of the same mesh are later parameterized with the same quadrature,
 their spaces are built, or the whole mesh is assembled and plotted (a new global space leaves the mesh unsampled: until the cell is sampled again, using them may raise, but never gives other values). In particular the local spaces kept by a solver can be used on any cell, in any order, after assembly.""",
 ["histories"],
 "every sequence of work on neighbouring cells (sharing edges with either orientation) between creating functions on a cell and using them",
 "tests use a cell's functions before touching any other cell of the mesh",
 [M+"closed_contour.py", M+"edge.py", L+"inner_prod.py", L+"trace.py", S+"solver.py"],
 [("functions store their own boundary arrays", L+"trace.py"), ("shared edges re-oriented in place for each cell", M+"closed_contour.py")],
 ["inner products, traces, combinations and interior values after work on neighbours"])

# ---- pure functions of their input: stated for completeness, not claimed ---------------------------------------
NA_why = "quantifies over inputs only; tests sample a handful of shapes and tolerances"
prop("C30", "Inner products and interior values of local functions converge to the exact ones",
 "For every admissible cell, polynomial Laplacian and trace, the H1 and L2 (semi-)inner products, interior values and gradients converge to the exact ones as the boundary sampling is refined.",
 ["inputs"], "all cells and functions", NA_why, [L+"nystrom.py", L+"antilap.py", L+"inner_prod.py"], [("Nystrom discretisation", L+"nystrom.py")], ["inner products"])
prop("C31", "The finite element solution converges and is Galerkin-optimal",
 "For every mesh, coefficients and right-hand side the computed solution is the energy-best approximation in the space, up to quadrature error.",
 ["inputs"], "all meshes and data", NA_why, [S+"solver.py", S+"bilinear_form.py"], [("bilinear form evaluation", S+"bilinear_form.py")], ["solution"])
prop("C32", "Quadrature rules integrate smooth and corner-graded functions accurately",
 "Trapezoid and Kress rules have the convergence order stated for them on every smooth integrand.",
 ["inputs"], "all integrands", NA_why, [M+"quad.py"], [("Kress change of variables", M+"quad.py")], ["weights and nodes"])
prop("C33", "Curve derivatives in the curve library match the curves",
 "For each curve type and all admissible options the first and second derivatives are those of the curve.",
 ["inputs"], "all curve options and parameters", NA_why, [M+"edgelib/"], [("X, DX, DDX per curve", M+"edgelib/")], ["curve modules"])
prop("C34", "Edge spaces have the right dimension and reproduce polynomial traces",
 "For every edge and degree the edge space basis is linearly independent, spans the traces of polynomials of that degree and separates vertices from interiors.",
 ["inputs"], "all edges and degrees", NA_why, [L+"edge_space.py", L+"poly/barycentric.py", L+"poly/legendre.py"], [("pivoted basis selection", L+"edge_space.py")], ["edge spaces"])
prop("C35", "Malformed arguments are rejected with an error",
 "Every argument of the wrong type, size or range is rejected with an error rather than accepted with a wrong result.",
 ["inputs"], "all malformed arguments", NA_why, ["puncturedfem/"], [("type and range checks", "puncturedfem/")], ["exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
