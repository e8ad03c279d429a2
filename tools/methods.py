METHODS = {
"C01": """*Observed:* `harness/meshdump` (linked against the library's own `libmesioapi`) loads a random database on 1..7 processes and every process writes what the public mesh API returns.
*Oracle:* the union of the per-rank dumps must be a bijection (by coordinates) onto the generated mesh: elements with type, body, material, node order; regions item by item; transformed instances recomputed by the generator.
*Generated:* format x ascii/binary x id options x wildcard paths x CRLF x numbering gaps x loader (MPI, collective, POSIX) x process count x threads x decomposer x options x duplicates.
*Bound/cost:* 200 databases (quick, ~40 s), 1600 larger ones (thorough). Block boundaries of parallel readers fall on arbitrary bytes because sizes and process counts are random - tests load no database at all.""",
"C02": """*Observed:* the same dumps as C01. *Oracle:* cross-rank invariants: ids contiguous/unique, rank lists exact, shared coordinates identical, neighbours = shared faces (recomputed from connectivity), node->element links, domains, boundary parents.
No reference mesh is needed, so the invariants also hold for duplicated and reordered meshes. *Bound/cost:* 200 / 1600 loads (~40 s quick).""",
"C03": """*Observed:* the database written by `mesio` for a random C01 input. *Oracle:* independent readers; per region: cells with type/node order mapped back to generated nodes by a k-d tree, stored node sets, no duplicates, nameless remainder, outer surface recomputed.
Writers x stripes (512 B .. 1 MB, 0..3 writers) exercise the reordering of blocks that is invisible with the default stripe of 1 MB. *Bound/cost:* 150 / 1500 conversions (~25 s quick).""",
"C07": """*Observed:* stored TEMPERATURE, GRADIENT, FLUX of a random problem. *Oracle:* `fem.py` assembles the same Galerkin problem (same quadrature orders, coefficients evaluated from the same expression text by Python) and solves it directly; fields compared in the maximum norm relative to their range (1e-5).
*Generated:* external 3D mixed meshes, generated 2D meshes, 4 conductivity models, Cartesian/cylindrical axes, region-wise materials, expressions, four kinds of loads, layouts, FETI variants. *Bound/cost:* ~200 / 2000 runs (~60 s quick).""",
"C08": """As C07 for DISPLACEMENT, FORCE, component/principal/von Mises stresses and strains; external 3D meshes, all generator element types in 3D, three 2D behaviours. Also runs the known finding's history (shared force). *Bound/cost:* 200 / 2000 runs (~60 s quick).""",
"C09": """*Observed:* every stored substep with its time value. *Oracle:* an independent time integrator over `fem.py` matrices (theta scheme, Newmark) over random sequences of 1..3 load steps (steady then transient, several transient ones with different schemes and steps), incomplete last steps, TIME-dependent data.
A state that is lost between substeps or load steps, or a matrix that is not refreshed, changes the stored history. *Bound/cost:* 200 / 2000 histories (~50 s quick).""",
"C10": """*Observed:* stored substeps. *Oracle:* Picard (heat) or Newton (finite strain, generalized alpha) iterations on independently assembled residuals and consistent tangents, converged to 1e-12; cases whose oracle does not converge are inconclusive. espreso's tolerance is set to 1e-8 and results are compared to 2e-5.
*Bound/cost:* 150 / 1500 problems (~50 s quick). Refusals bounded by n/16.""",
"C11": """C07/C08 problems with every supported combination of FETI options (operator implementations, storage orders, Schur complements, projector optimisations, regularizations, preconditioners, iterative solvers) and layouts, including one-element domains and processes with no own multipliers. *Oracle:* the direct SciPy solution. *Bound/cost:* ~300 / 3000 runs (~90 s quick).""",
"C19": """*Observed:* valgrind memcheck records of every process of random runs drawn from the generators of C03, C07-C11. *Oracle:* a record is a violation if it is an invalid free, a write outside blocks owned by espreso's code (also when the write happens inside MKL/MPI given a too small buffer), or an invalid read / use of uninitialised data whose accessing frame is compiled from espreso's sources.
Records born inside MPI/MKL are not judged. *Bound/cost:* 24 runs (quick, ~150 s) / 320 (thorough).""",
}
