// Included before sources whose own MFEM_ASSERT rejects marker arrays longer than one mesh needs, which the solvers pass on purpose
// (see the note in MultiBlockSolver::SetupBCVariables); MFEM's shipped build has these assertions off.
#undef MFEM_ASSERT
#define MFEM_ASSERT(x, msg)
