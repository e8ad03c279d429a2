import json, os
F = [
 ("C01","9b0d5b2","per-thread ASCII block boundaries ran past the end of the block"),
 ("C02","3634c96","MESIONodesDomains dereferenced NULL"),
 ("C02","4c3aed9","MESIOBoundaryRegion returned wrong parents and a NULL distribution"),
 ("C01","306f342","omit_midpoints corrupted meshes with linear elements"),
 ("C01","cbf43cb","VTK wildcard lost files in directories with more than 127 files"),
 ("C01","c8ae4ff","VTK wildcard in a path starting with a dot matched no file"),
 ("C02","cb931b0","FORCE_CONTINUITY never finished"),
 ("C01","06118a2","METIS parallel decomposition assigned elements to nonexistent processes"),
 ("C02","998afca","exchangeElements duplicated nodes with several threads"),
 ('C07','32ce419','expressions of coordinates, time or temperature in materials and loads were evaluated with unset variables'),
 ('C07','1377960','temperature gradient and flux of an odd interval overwrote the next interval'),
 ('C07','f7fdf13','FETI iterative solvers reported success with a NaN solution when the residual became exactly zero'),
 ('C07','0270b42','generator boundary regions contained elements outside the requested interval, depending on the cluster layout'),
 ('C08','1281f28','EnSight symmetric tensors were stored with components 13 and 23 swapped'),
 ('C08','2d0b75f','VTK_LEGACY stored symmetric tensors with the layout of asymmetric ones'),
 ('C08','2ba6094','FORCE on face/edge regions was added to wrong nodes'),
 ('C08','879d3c4','generator node regions contained lattice points that are not nodes of elements (mapped to node 0)'),
 ('C08','eb73d12','FETI returned wrong displacements of axisymmetric problems'),
 ('C08','d285858','normal pressure on generated X_0 faces of quadratic tetrahedra had the opposite sign'),
 ('C11','af9d39a','orthogonalPCG made one more step with a degenerated direction after it had converged (wrong solution of a small problem)'),
 ('C11','42ea04f','orthogonalization in orthogonalPCG considered only the last interval of multipliers'),
 ('C11','6f397b6','HYBRID FETI with EXPLICIT_GENERALSCHUR_CPU and MKL PARDISO Schur complement wrote behind its buffers'),
 ('C11','667c1cb','DIRICHLET_IMPLICIT preconditioner refused domains without interior unknowns'),
 ('C11','56cc486','orthogonalPCG stagnated when a process owned no multipliers'),
 ('C03','70b394c','VTK legacy files of boundary regions stored process-local numbers in the CELLS header'),
 ('C09','1993e54','heat mass matrix ignored the heat capacity'),
 ('C09','d3b43ad','heat mass matrix was not updated for TIME dependent materials'),
 ('C09','99e61cd','processes disagreed on whether matrices, loads and Dirichlet conditions are constant'),
 ('C10','c38284d','damping coefficients of the nonlinear Newmark scheme used the time shift instead of delta'),
 ('C10','556aafc','the predictor of the nonlinear Newmark scheme had a wrong sign of the acceleration'),
 ('C10','5979c65','NEO_HOOKEAN_CMP stresses were wrong for general deformations'),
 ('C11','dfcf987','DIRICHLET preconditioner wrote out of its memory for domains without interior unknowns'),
 ('C19','ad3a92e','face matching read nodes behind faces with a different number of nodes'),
 ('C11','5c87355','dense matrices with an empty dimension had zero leading dimension; BLAS refused to compute and Schur complements stayed uninitialised'),
 ('C19','49335f6','residual of the explicit and Moore-Penrose operators was computed from uninitialised memory'),
 ('C10','044553b','DIRICHLET preconditioner corrupted the heap (uninitialized reads in MKL PARDISO Schur complement) for domains whose interior DOFs are not mutually coupled'),
]
def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = {"findings": OPEN, "fixed": ["fixed: property=%s %s %s" % f for f in F]}
    json.dump(out, open(root + "/known_findings.json", "w"), indent=1)
OPEN = [
 {"property": "C08", "key": "force-shared", "status": "open",
  "what": "FORCE prescribed on nodes shared by several processes is added once per process (the references of tests/structuralMechanics/const/volume/boundary/force depend on it)",
  "input": "vf/check_C08.py shared_force(): the same grid computed with 1 and 2 processes"},
]
if __name__ == "__main__":
    main()
