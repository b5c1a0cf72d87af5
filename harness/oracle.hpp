// Independent evaluation of DG face and interface terms: plain quadrature in physical space, no shared code with the library.
#ifndef VERIF_ORACLE_HPP
#define VERIF_ORACLE_HPP
#include "common.hpp"
#include <memory>
namespace vf {
using namespace mfem;
#define VF_FAST __attribute__((no_sanitize("address", "undefined"), optimize("O2")))

struct SideEval { Vector sh; DenseMatrix g; double det = 0; Vector x; int attr = 0; };   // basis values, physical gradients, Jacobian determinant
inline void eval_side(const FiniteElement &fe, ElementTransformation &T, const IntegrationPoint &ip, SideEval &s)
{
   T.SetIntPoint(&ip); int nd = fe.GetDof(), dim = fe.GetDim(); s.sh.SetSize(nd); fe.CalcShape(ip, s.sh); DenseMatrix d(nd, dim); fe.CalcDShape(ip, d);
   const DenseMatrix &J = T.Jacobian(); s.det = J.Det(); DenseMatrix Ji(J); Ji.Invert(); s.g.SetSize(nd, dim);
   for (int i = 0; i < nd; i++) for (int k = 0; k < dim; k++) { double t = 0; for (int l = 0; l < dim; l++) { t += d(i, l) * Ji(l, k); } s.g(i, k) = t; }
   s.x.SetSize(dim); T.Transform(ip, s.x); s.attr = T.Attribute;
}

struct FP { double w = 0; Vector n, x; int e1 = -1, e2 = -1; IntegrationPoint ip1, ip2; };   // quadrature point of a face: weight, scaled normal out of side 1
inline void scaled_normal(const DenseMatrix &J, Vector &n)
{
   n.SetSize(J.Height());
   if (J.Height() == 2) { n(0) = J(1, 0); n(1) = -J(0, 0); }
   else { n(0) = J(1, 0) * J(2, 1) - J(2, 0) * J(1, 1); n(1) = J(2, 0) * J(0, 1) - J(0, 0) * J(2, 1); n(2) = J(0, 0) * J(1, 1) - J(1, 0) * J(0, 1); }
}

inline std::vector<FP> face_points(FaceElementTransformations &tr, const IntegrationRule &ir)
{
   std::vector<FP> o;
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      FP f; const IntegrationPoint &ip = ir.IntPoint(q); tr.SetAllIntPoints(&ip); f.w = ip.weight; f.e1 = tr.Elem1No; f.e2 = tr.Elem2No; f.ip1 = tr.GetElement1IntPoint(); if (f.e2 >= 0) { f.ip2 = tr.GetElement2IntPoint(); }
      if (tr.Elem1->GetSpaceDim() == 1)
      { // a point: the normal leads away from the middle of the first element
         f.n.SetSize(1); f.x.SetSize(1); Vector mid(1); tr.Elem1->Transform(Geometries.GetCenter(Geometry::SEGMENT), mid); tr.Elem1->Transform(f.ip1, f.x); f.n(0) = f.x(0) > mid(0) ? 1 : -1; o.push_back(f); continue;
      }
      scaled_normal(tr.Jacobian(), f.n); f.x.SetSize(f.n.Size()); tr.Transform(ip, f.x); o.push_back(f);
   }
   return o;
}

// Interface between boundary element be1 of m1 and be2 of m2, which coincide in physical space (after moving x by `shift` into m2's frame).
inline bool interface_points(Mesh &m1, Mesh &m2, int be1, int be2, const IntegrationRule &ir, std::vector<FP> &o, const std::function<void(const Vector &, Vector &)> &to2 = nullptr)
{
   FaceElementTransformations *tr = m1.GetBdrFaceTransformations(be1); o = face_points(*tr, ir); int e2, inf; m2.GetBdrElementAdjacentElement(be2, e2, inf);
   IsoparametricTransformation T; m2.GetElementTransformation(e2, &T); bool ok = true;
   for (auto &f : o)
   {
      f.e2 = e2; Vector y(f.x); if (to2) { to2(f.x, y); }
      f.ip2 = Geometries.GetCenter(T.GetGeometryType()); int dim = y.Size(); Vector d(dim), u(dim);
      for (int it = 0; it < 60; it++) // plain Newton; the generated elements are mildly warped
      {
         T.SetIntPoint(&f.ip2); T.Transform(f.ip2, d); for (int k = 0; k < dim; k++) { d(k) = y(k) - d(k); } DenseMatrix Ji(T.Jacobian()); Ji.Invert(); Ji.Mult(d, u); f.ip2.x += u(0); f.ip2.y += u(1); if (dim == 3) { f.ip2.z += u(2); } if (u.Normlinf() < 1e-15) { break; }
      }
      Vector z(y.Size()); T.SetIntPoint(&f.ip2); T.Transform(f.ip2, z); double len = T.Jacobian().MaxMaxNorm(); z -= y; if (!(z.Normlinf() < 1e-10 * len + 1e-12 * y.Normlinf())) { ok = false; }
   }
   return ok;
}

// Size of an element
inline double extent(Mesh &m) { double v = 0; for (int e = 0; e < m.GetNE(); e++) { v = std::max(v, m.GetElementSize(e)); } return v; }
// Material given at a physical point inside a subdomain
struct Mat { std::function<double(const Vector &, int)> a, b; std::function<void(const Vector &, int, DenseMatrix &)> M; int kind = 0; };
// kind 0: scalar diffusion (coefficient a), 1: scalar diffusion with matrix M, 2: vector diffusion (a), 3: elasticity (lambda a, mu b)
struct DGTerm { int kind = 0; double alpha = 0, kappa = 0; Mat m; };
inline int vdim_of(const DGTerm &t, int dim) { return t.kind >= 2 ? dim : 1; }

VF_FAST inline void rank1(double *A, double *J, int na, int nb, int vd, const double *sa, const double *sb, const double *fl, double ca, double cj)
{
   int h = vd * na;
   for (int c = 0; c < vd; c++) for (int j = 0; j < nb; j++) for (int r = 0; r < vd; r++) for (int i = 0; i < na; i++)
            { A[(c * nb + j) * h + r * na + i] += ca * sa[i] * fl[(c * nb + j) * vd + r]; if (r == c) { J[(c * nb + j) * h + r * na + i] += cj * sa[i] * sb[j]; } }
}
VF_FAST inline void combine(double *o, const double *A, const double *At, const double *J, int h, int w, double alpha) { for (int j = 0; j < w; j++) for (int i = 0; i < h; i++) { o[j * h + i] = -A[j * h + i] + alpha * At[i * w + j] + J[j * h + i]; } }
// One face: A[a][b] (test side a, trial side b), fully assembled for the given points. nside = 1 on a boundary.
inline void dg_face(const DGTerm &t, const std::vector<FP> &pts, const FiniteElement &f1, ElementTransformation &T1, const FiniteElement *f2, ElementTransformation *T2, DenseMatrix out[2][2])
{
   int ns = f2 ? 2 : 1, dim = f1.GetDim(), vd = vdim_of(t, dim); const FiniteElement *fe[2] = {&f1, f2}; ElementTransformation *T[2] = {&T1, T2}; DenseMatrix A[2][2], J[2][2];
   for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) { A[a][b].SetSize(vd * fe[a]->GetDof(), vd * fe[b]->GetDof()); A[a][b] = 0.; J[a][b] = A[a][b]; }
   for (auto &p : pts)
   {
      SideEval s[2]; double sg[2] = {1, -1}, wt = ns == 2 ? 0.5 : 1.0, pen = 0; std::vector<double> fl[2]; // fl: normal flux of trial function (c,j), component r
      for (int b = 0; b < ns; b++)
      {
         eval_side(*fe[b], *T[b], b ? p.ip2 : p.ip1, s[b]); int nd = fe[b]->GetDof(); fl[b].assign(vd * nd * vd, 0.); const Vector &x = s[b].x; int at = s[b].attr;
         double ca = t.m.a ? t.m.a(x, at) : 1.0, cb = t.m.b ? t.m.b(x, at) : 0.0; DenseMatrix M(dim); if (t.kind == 1) { t.m.M(x, at, M); } double nn = p.n * p.n, nMn = 0;
         if (t.kind == 1) { for (int k = 0; k < dim; k++) for (int l = 0; l < dim; l++) { nMn += p.n(k) * M(k, l) * p.n(l); } }
         pen += wt * p.w / s[b].det * (t.kind == 1 ? nMn : t.kind == 3 ? (ca + 2 * cb) * nn : ca * nn);
         for (int c = 0; c < vd; c++) for (int j = 0; j < nd; j++) for (int r = 0; r < vd; r++)
               {
                  double v = 0; const DenseMatrix &g = s[b].g; double gn = 0; for (int k = 0; k < dim; k++) { gn += g(j, k) * p.n(k); }
                  if (t.kind == 0) { v = ca * gn; } else if (t.kind == 1) { for (int k = 0; k < dim; k++) for (int l = 0; l < dim; l++) { v += p.n(k) * M(k, l) * g(j, l); } }
                  else if (t.kind == 2) { v = c == r ? ca * gn : 0; } else { v = ca * g(j, c) * p.n(r) + cb * ((c == r ? gn : 0) + g(j, r) * p.n(c)); }
                  fl[b][(c * nd + j) * vd + r] = v;
               }
      }
      for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++)
         {
            int na = fe[a]->GetDof(), nb = fe[b]->GetDof();
            rank1(A[a][b].GetData(), J[a][b].GetData(), na, nb, vd, s[a].sh.GetData(), s[b].sh.GetData(), fl[b].data(), p.w * wt * sg[a], t.kappa * pen * sg[a] * sg[b]);
         }
   }
   for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++)
      { out[a][b].SetSize(A[a][b].Height(), A[a][b].Width()); combine(out[a][b].GetData(), A[a][b].GetData(), A[b][a].GetData(), J[a][b].GetData(), A[a][b].Height(), A[a][b].Width(), t.alpha); }
}

// < [u].n, {q} > with the library's sign: test q averaged, trial u jumped
inline void normal_flux_face(const std::vector<FP> &pts, const FiniteElement *tr[2], const FiniteElement *te[2], ElementTransformation *T[2], int ns, DenseMatrix out[2][2])
{
   int dim = tr[0]->GetDim(); double sg[2] = {1, -1};
   for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) { out[a][b].SetSize(te[a]->GetDof(), dim * tr[b]->GetDof()); out[a][b] = 0.; }
   for (auto &p : pts)
   {
      SideEval u[2], q[2]; for (int b = 0; b < ns; b++) { eval_side(*tr[b], *T[b], b ? p.ip2 : p.ip1, u[b]); eval_side(*te[b], *T[b], b ? p.ip2 : p.ip1, q[b]); }
      for (int a = 0; a < ns; a++) for (int b = 0; b < ns; b++) for (int i = 0; i < te[a]->GetDof(); i++) for (int c = 0; c < dim; c++) for (int j = 0; j < tr[b]->GetDof(); j++)
                  { out[a][b](i, c * tr[b]->GetDof() + j) += p.w * (ns == 2 ? 0.5 : 1.0) * sg[b] * p.n(c) * q[a].sh(i) * u[b].sh(j); }
   }
}

// ---- nonlinear fluxes, with their exact derivative by forward differentiation
struct Dual { double v = 0; double d[6] = {0, 0, 0, 0, 0, 0}; Dual(double x = 0) : v(x) {} };
inline Dual operator+(const Dual &a, const Dual &b) { Dual r(a.v + b.v); for (int k = 0; k < 6; k++) { r.d[k] = a.d[k] + b.d[k]; } return r; }
inline Dual operator-(const Dual &a, const Dual &b) { Dual r(a.v - b.v); for (int k = 0; k < 6; k++) { r.d[k] = a.d[k] - b.d[k]; } return r; }
inline Dual operator*(const Dual &a, const Dual &b) { Dual r(a.v * b.v); for (int k = 0; k < 6; k++) { r.d[k] = a.d[k] * b.v + a.v * b.d[k]; } return r; }
inline Dual dsqrt(const Dual &a) { Dual r(std::sqrt(a.v)); for (int k = 0; k < 6; k++) { r.d[k] = r.v > 0 ? a.d[k] / (2 * r.v) : 0.0; } return r; }

// Normal flux pair: contribution f1 to the test function of side 1 and f2 to that of side 2, for states u1, u2 (duals). two: second state present; side2: it is an unknown
enum FluxKind { TEMAM, LAXF };
inline void flux_pair(FluxKind kind, int dim, const Dual *u1, const Dual *u2, const Vector &n, bool two, Dual *f1, Dual *f2)
{
   Dual un1, un2; for (int k = 0; k < dim; k++) { un1 = un1 + u1[k] * Dual(n(k)); if (two) { un2 = un2 + u2[k] * Dual(n(k)); } }
   if (kind == TEMAM)
   {
      for (int k = 0; k < dim; k++) { if (two) { f1[k] = Dual(-0.5) * un1 * u2[k]; f2[k] = Dual(0.5) * un1 * u1[k]; } else { f1[k] = Dual(0.5) * un1 * u1[k]; f2[k] = Dual(0); } }
      return;
   }
   Dual m1, m2; for (int k = 0; k < dim; k++) { m1 = m1 + u1[k] * u1[k]; if (two) { m2 = m2 + u2[k] * u2[k]; } }
   Dual lam = dsqrt(m1.v >= m2.v ? m1 : m2) * Dual(std::sqrt(n * n));
   for (int k = 0; k < dim; k++) { Dual fl = two ? Dual(0.5) * (un1 * u1[k] + un2 * u2[k]) + lam * (u1[k] - u2[k]) : un1 * u1[k]; f1[k] = Dual(-1) * fl; f2[k] = fl; }
}

// Residual and derivative of one face. ud: prescribed outer state (boundary) or null. margin: smallest relative gap between the two state magnitudes seen (kink of the maximum)
inline void flux_face(FluxKind kind, const std::vector<FP> &pts, const FiniteElement &f1, ElementTransformation &T1, const FiniteElement *f2, ElementTransformation *T2, const Vector &x1, const Vector &x2,
                      const std::function<double(const Vector &)> &Q, const std::function<void(const Vector &, Vector &)> &ud, Vector &y1, Vector &y2, DenseMatrix G[2][2], double &margin, const std::vector<double> *wts = nullptr)
{
   int dim = f1.GetDim(), n1 = f1.GetDof(), n2 = f2 ? f2->GetDof() : 0; y1.SetSize(dim * n1); y1 = 0.; y2.SetSize(dim * n2); y2 = 0.; int nn[2] = {n1, n2};
   for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { G[a][b].SetSize(dim * nn[a], dim * nn[b]); G[a][b] = 0.; }
   for (size_t q = 0; q < pts.size(); q++)
   {
      const FP &p = pts[q]; SideEval s[2]; eval_side(f1, T1, p.ip1, s[0]); if (f2) { eval_side(*f2, *T2, p.ip2, s[1]); }
      Dual u1[3], u2[3], r1[3], r2[3]; bool two = f2 || ud; double w = (wts ? (*wts)[q] : p.w) * (Q ? Q(p.x) : 1.0);
      for (int c = 0; c < dim; c++) { for (int i = 0; i < n1; i++) { u1[c].v += x1(c * n1 + i) * s[0].sh(i); } u1[c].d[c] = 1; }
      if (f2) { for (int c = 0; c < dim; c++) { for (int i = 0; i < n2; i++) { u2[c].v += x2(c * n2 + i) * s[1].sh(i); } u2[c].d[3 + c] = 1; } }
      else if (ud) { Vector v(dim); ud(p.x, v); for (int c = 0; c < dim; c++) { u2[c].v = v(c); } }
      if (two) { double a = 0, b = 0; for (int c = 0; c < dim; c++) { a += u1[c].v * u1[c].v; b += u2[c].v * u2[c].v; } a = std::sqrt(a); b = std::sqrt(b); if (std::max(a, b) > 0) { margin = std::min(margin, std::fabs(a - b) / std::max(a, b)); } }
      flux_pair(kind, dim, u1, u2, p.n, two, r1, r2);
      for (int a = 0; a < (f2 ? 2 : 1); a++) for (int r = 0; r < dim; r++) for (int i = 0; i < nn[a]; i++)
            {
               const Dual &f = a ? r2[r] : r1[r]; double t = w * s[a].sh(i); (a ? y2 : y1)(r * nn[a] + i) += t * f.v;
               for (int b = 0; b < (f2 ? 2 : 1); b++) for (int c = 0; c < dim; c++) for (int j = 0; j < nn[b]; j++) { G[a][b](r * nn[a] + i, c * nn[b] + j) += t * f.d[3 * b + c] * s[b].sh(j); }
            }
   }
}
// ---- convective domain terms: c1 (a.grad u).v + c2 (u.grad v).u with a = u or a prescribed field
struct ConvTerm { double c1 = 1, c2 = 0; std::function<double(const Vector &)> Q; std::function<void(const Vector &, Vector &)> a; };
inline void conv_elem(const ConvTerm &t, const FiniteElement &fe, ElementTransformation &T, const IntegrationRule &ir, const std::vector<double> *wts, const Vector &x, Vector &y, DenseMatrix &G)
{
   int dim = fe.GetDim(), nd = fe.GetDof(); y.SetSize(dim * nd); y = 0.; G.SetSize(dim * nd); G = 0.; SideEval s;
   for (int q = 0; q < ir.GetNPoints(); q++)
   {
      const IntegrationPoint &ip = ir.IntPoint(q); eval_side(fe, T, ip, s); double w = (wts ? (*wts)[q] : ip.weight) * std::fabs(s.det) * (t.Q ? t.Q(s.x) : 1.0), u[3] = {0, 0, 0}, du[3][3], a[3];
      if (w == 0) { continue; }
      for (int r = 0; r < dim; r++) { for (int k = 0; k < dim; k++) { du[r][k] = 0; } for (int i = 0; i < nd; i++) { u[r] += x(r * nd + i) * s.sh(i); for (int k = 0; k < dim; k++) { du[r][k] += x(r * nd + i) * s.g(i, k); } } }
      if (t.a) { Vector v(dim); t.a(s.x, v); for (int k = 0; k < dim; k++) { a[k] = v(k); } } else { for (int k = 0; k < dim; k++) { a[k] = u[k]; } }
      std::vector<double> ag(nd, 0.), ug(nd, 0.); for (int i = 0; i < nd; i++) for (int k = 0; k < dim; k++) { ag[i] += a[k] * s.g(i, k); ug[i] += u[k] * s.g(i, k); }
      for (int r = 0; r < dim; r++) for (int i = 0; i < nd; i++)
         {
            double adu = 0; for (int k = 0; k < dim; k++) { adu += a[k] * du[r][k]; }
            y(r * nd + i) += w * (t.c1 * s.sh(i) * adu + t.c2 * ug[i] * u[r]);
            for (int c = 0; c < dim; c++) for (int j = 0; j < nd; j++)
               {
                  double v = 0; if (t.c1) { v += t.c1 * s.sh(i) * ((t.a ? 0.0 : s.sh(j) * du[r][c]) + (r == c ? ag[j] : 0)); } if (t.c2) { v += t.c2 * s.sh(j) * (s.g(i, c) * u[r] + (r == c ? ug[i] : 0)); }
                  G.GetData()[(r * nd + i) + G.Height() * (c * nd + j)] += w * v;
               }
         }
   }
}
} // namespace vf
#endif
