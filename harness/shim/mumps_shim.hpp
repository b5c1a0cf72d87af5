// MFEM here is built without MUMPS; force-included so that the repository's solver sources compile.
#ifndef VERIF_MUMPS_SHIM
#define VERIF_MUMPS_SHIM
#include "mfem.hpp"
#ifndef MFEM_USE_MUMPS
namespace mfem {
class MUMPSSolver : public Solver {
   DenseMatrix *A = nullptr; DenseMatrixInverse *inv = nullptr; int sym = 0;
public:
   enum MatType { UNSYMMETRIC = 0, SYMMETRIC_POSITIVE_DEFINITE = 1, SYMMETRIC_INDEFINITE = 2 };
   MUMPSSolver(MPI_Comm = MPI_COMM_SELF) {}
   ~MUMPSSolver() { delete inv; delete A; }
   void SetOperator(const Operator &op) override
   {
      delete inv; delete A; inv = nullptr; A = nullptr; height = op.Height(); width = op.Width();
      auto *h = dynamic_cast<const HypreParMatrix*>(&op);
      A = new DenseMatrix(height, width); *A = 0.0;
      if (h) { SparseMatrix s; const_cast<HypreParMatrix*>(h)->MergeDiagAndOffd(s);
         for (int i = 0; i < height; i++) for (int k = s.GetI()[i]; k < s.GetI()[i+1]; k++) (*A)(i, s.GetJ()[k]) += s.GetData()[k]; }
      else { Vector e(width), c(height); for (int j = 0; j < width; j++) { e = 0.0; e(j) = 1.0; op.Mult(e, c); A->SetCol(j, c); } }
      if (sym) for (int i = 0; i < height; i++) for (int j = i + 1; j < width; j++) { (*A)(i, j) = (*A)(j, i); } // a symmetric solve reads the lower triangle only
      inv = new DenseMatrixInverse(*A);
   }
   void Mult(const Vector &x, Vector &y) const override { y.SetSize(height); inv->Mult(x, y); }
   void MultTranspose(const Vector &x, Vector &y) const override { mfem_error("shim"); }
   void SetPrintLevel(int) {}
   void SetMatrixSymType(MatType t) { sym = t; }
   template <class T> void SetReorderingStrategy(T) {}
   void SetReorderingReuse(bool) {}
};
}
#endif
#endif
