#ifndef VERIF_SHIM_VECTOR_H
#define VERIF_SHIM_VECTOR_H
#include <vector>
#include <cassert>
#include <cmath>
#include <string>
#include <memory>
namespace CAROM {
class Vector {
   std::vector<double> d; bool dist = false;
public:
   Vector() {}
   Vector(int n, bool distributed) : d(n, 0.0), dist(distributed) { assert(n > 0); }
   Vector(double *v, int n, bool distributed, bool copy = true) : d(v, v + n), dist(distributed) { (void)copy; }
   int dim() const { return (int)d.size(); }
   bool distributed() const { return dist; }
   void setSize(int n) { d.resize(n); }
   double &operator()(int i) { assert(i >= 0 && i < dim()); return d[i]; }
   const double &operator()(int i) const { assert(i >= 0 && i < dim()); return d[i]; }
   double &item(int i) { assert(i >= 0 && i < dim()); return d[i]; }
   const double &item(int i) const { assert(i >= 0 && i < dim()); return d[i]; }
   double *getData() const { return const_cast<double*>(d.data()); }
   double norm() const { double s = 0; for (double x : d) s += x*x; return std::sqrt(s); }
   Vector &operator=(const double &a) { for (double &x : d) x = a; return *this; }
   Vector &operator+=(const Vector &o) { assert(o.dim()==dim()); for (int i=0;i<dim();i++) d[i]+=o.d[i]; return *this; }
   Vector &operator-=(const Vector &o) { assert(o.dim()==dim()); for (int i=0;i<dim();i++) d[i]-=o.d[i]; return *this; }
   void gather() { dist = false; }
   void distribute(int) { dist = true; }
};
}
#endif
