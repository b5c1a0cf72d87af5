#ifndef VERIF_SHIM_MATRIX_H
#define VERIF_SHIM_MATRIX_H
#include "linalg/Vector.h"
namespace CAROM {
class Matrix {
   int r = 0, c = 0; bool dist = false; std::vector<double> d; // row-major, like libROM
public:
   Matrix() {}
   Matrix(int nr, int nc, bool distributed) : r(nr), c(nc), dist(distributed), d((size_t)nr*nc, 0.0) {}
   int numRows() const { return r; }
   int numColumns() const { return c; }
   int numDistributedRows() const { return r; }
   bool distributed() const { return dist; }
   void setSize(int nr, int nc) { r = nr; c = nc; d.assign((size_t)nr*nc, 0.0); }
   double &operator()(int i, int j) { assert(i>=0&&i<r&&j>=0&&j<c); return d[(size_t)i*c+j]; }
   const double &operator()(int i, int j) const { assert(i>=0&&i<r&&j>=0&&j<c); return d[(size_t)i*c+j]; }
   double &item(int i, int j) { return (*this)(i,j); }
   const double &item(int i, int j) const { return (*this)(i,j); }
   double *getData() const { return const_cast<double*>(d.data()); }
   void gather() { dist = false; }
   void distribute(int) { dist = true; }
   // this^T * o
   void transposeMult(const Matrix &o, Matrix &res) const
   {
      assert(o.r == r); res.setSize(c, o.c);
      for (int k=0;k<r;k++) for (int i=0;i<c;i++) for (int j=0;j<o.c;j++) res(i,j) += (*this)(k,i)*o(k,j);
   }
   void transposeMult(const Vector &o, Vector &res) const
   {
      assert(o.dim() == r); res.setSize(c); res = 0.0;
      for (int k=0;k<r;k++) for (int i=0;i<c;i++) res(i) += (*this)(k,i)*o(k);
   }
   void mult(const Vector &o, Vector &res) const
   {
      assert(o.dim() == c); res.setSize(r); res = 0.0;
      for (int k=0;k<r;k++) for (int i=0;i<c;i++) res(k) += (*this)(k,i)*o(i);
   }
};
}
#endif
