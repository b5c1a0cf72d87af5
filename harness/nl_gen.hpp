// One mesh with velocity spaces of several orders, and the prescribed fields, for the nonlinear-integrator drivers.
#ifndef VERIF_NL_GEN_HPP
#define VERIF_NL_GEN_HPP
#include "topo_gen.hpp"
#include "oracle.hpp"
namespace vf {
struct NLMesh
{
   std::unique_ptr<Mesh> m; SubSpec s; std::vector<std::unique_ptr<FiniteElementCollection>> fec; std::vector<std::unique_ptr<FiniteElementSpace>> fes; std::string sig;
   NLMesh(Rng &r, int dim, int nsp, int maxorder)
   {
      s.dim = dim; m = parent_mesh(r, s, 3, 2, true); if (m->GetNE() > 60) { maxorder = 2; } sig = fmt("dim%d|%s|order%d|affine%d|", dim, s.shape(), s.order, s.affine);
      for (int k = 0; k < nsp; k++)
      {
         int o = m->GetNE() <= 12 && r.b(0.06) ? r.i(maxorder + 1, dim == 3 ? 3 : 6) : r.i(1, maxorder); bool h1 = r.b(0.4); fec.emplace_back(h1 ? (FiniteElementCollection *)new H1_FECollection(o, dim) : (FiniteElementCollection *)new L2_FECollection(o, dim, r.b() ? BasisType::GaussLegendre : BasisType::GaussLobatto));
         fes.emplace_back(new FiniteElementSpace(m.get(), fec.back().get(), dim)); sig += fmt("%s%d", h1 ? "H" : "L", o);
      }
   }
};
struct Fields
{
   double w0, w1, w2, p[4]; std::function<double(const Vector &)> q; std::function<void(const Vector &, Vector &)> u; std::unique_ptr<FunctionCoefficient> Q; std::map<int, std::unique_ptr<VectorFunctionCoefficient>> U;
   Fields(Rng &r, double mag = 1)
   {
      w0 = r.u(0.5, 2) * (r.b(0.2) ? -1 : 1); w1 = r.u(0, 0.8); w2 = r.u(0.2, 2); for (double &x : p) { x = r.u(-1, 1); }
      q = [this](const Vector &x) { double s = 0; for (int k = 0; k < x.Size(); k++) { s += std::sin(w2 * x(k) + k); } return w0 * (1 + w1 * s / x.Size()); };
      u = [this, mag](const Vector &x, Vector &v) { for (int k = 0; k < x.Size(); k++) { v(k) = mag * (p[k] + p[3] * std::cos(w2 * x(k) + 2 * x((k + 1) % x.Size()))); } };
      Q.reset(new FunctionCoefficient(q)); for (int d = 1; d <= 3; d++) { U[d].reset(new VectorFunctionCoefficient(d, u)); }
   }
};
inline std::string state(Rng &r, const FiniteElement &f, Vector &x, double mag)
{
   int dim = f.GetDim(), nd = f.GetDof(); x.SetSize(dim * nd); r.fill(x); x *= mag; int k = r.i(0, 7);
   if (k == 0) { x = 0.; return "rest"; } if (k == 1) { for (int c = 0; c < dim; c++) { double v = mag * r.u(-1, 1); for (int i = 0; i < nd; i++) { x(c * nd + i) = v; } } return "uniform"; }
   if (k == 2) { int c = r.i(0, dim - 1); for (int i = 0; i < nd; i++) { x(c * nd + i) = 0; } return "one-component"; } return "random";
}
}
#endif
