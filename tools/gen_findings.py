"""Write known_findings.json. Every entry is 'fixed': it records a repair and suppresses nothing."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C01","f3040db","an edge joined by join_points lost its diary of transformations when it was sampled a second time"),
 ("C01","385e264","a rejected join_points stayed in the transformation diary and made the edge unusable"),
 ("C01","cfd43b8","dilating by a negative factor left tangent and normal pointing the wrong way"),
 ("C01","04a762e","changing the matrix passed to apply_orthogonal_transformation later changed the recorded transformation"),
 ("C08","592c9e2","negating a Monomial changed the Monomial itself"),
 ("C08","be01eda","p += p on a Polynomial did not terminate"),
 ("C08","30844e8","comparing Polynomials with repeated or cancelling terms depended on how they were built"),
 ("C08","51bbb94","an interruption inside Polynomial normalisation left the operand with missing terms; a second thread saw it half done (C10)"),
 ("C02","57c9e84","split_edge inserted 0 and 2*pi in the caller's list of parameters"),
 ("C02","c1c7302","the pieces of an edge dilated by a negative factor did not retrace it"),
 ("C03","1023552","a cell whose first edge belongs to a hole took the hole for its outer boundary"),
 ("C06","4cf0150","building the space of a cell twice listed its degrees of freedom twice"),
 ("C06","5efa8b6","get_solution returned the solution of a system that had been reassembled since"),
 ("C17","c76eb48","after a neighbour was sampled a cell traversed shared edges in the direction of the neighbour"),
 ("C06","67c5a5f","vertex functions of a reversed edge were attached to the wrong vertices"),
 ("C07","351e80b","an interrupted assembly left the matrix of one problem and the right-hand side of another"),
 ("C05","b8a387e","an interrupted evaluation of interior values left partial sums that were returned as the values"),
 ("C09","a5e0cff","a gradient that was not computed was stored as zero and entered linear combinations"),
 ("C09","57a869c","a trace shared its lists of functions and edges with its creator and with the cell"),
 ("C10","2a793a6","printing a Polynomial while another thread evaluates it gave the other thread wrong values"),
 ("C14","d7ace02","save_figure failed for a bare file name and when the directory was created by another process meanwhile"),
 ("C15","361611f","TracePlot of one DirichletTrace plotted it as many times as it has values, or failed"),
 ("C15","fc05773","a logarithmic plot replaced the values of the function by their logarithms"),
 ("C14","e8f9839","an interrupted gradient plot left floating-point warnings switched off for the process"),
 ("C14","e6b6f11","the colormap of one plot became the default of the process"),
 ("C15","17f4de4","plotting a solution masked triangles of the triangulation of the cell"),
 ("C14","f07c86b","a draw that failed or was interrupted left its figure open"),
 ("C17","c996da9","a trace evaluated new functions along a shared edge in the direction the neighbour had left it in"),
 ("C06","ffdd12f","a solver given another space evaluated its coefficients with the local functions of the previous one"),
 ("C14","b6319ee","a solution could not be plotted when its gradient had not been computed (introduced by a5e0cff)"),
 ("C01","15a111c","changing the vector passed to translate later changed the recorded transformation"),
 ("C01","eca892b","dot products along an edge including its endpoint used no values at all (slice :-0)"),
 ("C01","e543cc4","the integral over an edge without its endpoint ignored one of the given values"),
 ("C03","815b8cb","interior points on a grid with different numbers of rows and columns failed, or were those of the transposed grid"),
 ("C15","4467a69","a function could not be plotted without its boundary values (use_interp=False)"),
 ("C09","829471d","setting the functions of a trace from polynomials failed"),
 ("C06","086e101","the function of given coefficients left out those below 1e-4 and was zero for small solutions"),
 ("C15","44f7f67","a solution was not plotted in the colors of its color bar"),
 ("C01","a85f3d7","set_curve_type checked the old curve type and accepted unknown ones"),
 ("C03","2c38db4","triangles of interior points were taken for triangles at the boundary, and left out of plots"),
 ("C09","b79e5d7","an edit of a trace that was rejected left it with zeros, or with the function that could not be evaluated"),
 ("C04","55c5f42","an interrupted parameterization left a cell with one boundary contour twice and another lost"),
 ("C15","dde11da","a solution was plotted without axes although they were asked for"),
 ("C15","182e2f9","the ticks of a trace plot were labelled with other parameters than those they were at"),
 ("C09","5153e73","a trace given neither values nor functions had no values at all"),
 ("C03","507abb9","a piecewise polynomial had the values of its last piece on the first edge and zeros elsewhere"),
]
out = [dict(id=f"fixed-{c}", property=p, status="fixed", what=f"fixed: property={p} {c} {w}") for p, c, w in F]
json.dump({"findings": out}, open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
