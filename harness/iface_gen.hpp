// Multi-block systems for the assembly drivers: a decomposed mesh or a component system, with finite element spaces on every block.
#ifndef VERIF_IFACE_GEN_HPP
#define VERIF_IFACE_GEN_HPP
#include "topo_gen.hpp"
#include "oracle.hpp"
#include <unordered_map>
namespace vf {
struct Topo
{
   std::unique_ptr<Mesh> parent; CompSystem S; std::unique_ptr<TopologyHandler> H; Array<Mesh *> ms; int dim = 2; bool comp = false, big = false; std::string sig;
   int cells() const { int n = 0; for (int k = 0; k < ms.Size(); k++) { n += ms[k]->GetNE(); } return n; }
   int max_order(Rng &r) const { int n = cells(); if (n > (dim == 2 ? 60 : 12)) { return n > (dim == 2 ? 200 : 40) ? 1 : 2; } if (dim == 3) { return n <= 8 && r.b(0.1) ? 3 : 2; } return r.b(0.08) ? r.i(4, 6) : 3; }
};
inline int rule_order(Rng &r, int usual, int dim) { return r.b(0.08) ? r.i(usual + 1, dim == 2 ? 21 : 12) : r.i(1, usual); }
inline std::unique_ptr<Topo> make_topo(Ctx &c, Rng &r, bool comp, int dim, int max2 = 4, int max3 = 2, bool wide = false)
{
   std::unique_ptr<Topo> t(new Topo); t->dim = dim; t->comp = comp; TopologyData td;
   if (comp)
   {
      t->S = comp_system(c, r, dim, true, 2, 2, wide); load_config(c.path("t.yml"), write_system(c, r, t->S, "", r.i(0, 1), false)); t->H.reset(new ComponentTopologyHandler());
      t->sig = fmt("comp|dim%d|%s|order%d|rot%d|n%d|comps%d", dim, t->S.shape(), t->S.order, t->S.rotated, t->S.n, (int)t->S.names.size());
   }
   else
   {
      SubSpec s; s.dim = dim; t->parent = parent_mesh(r, s, max2, max3, wide); t->big = s.big; load_config(c.path("t.yml"), "mesh:\n  uniform_refinement: 0\n"); t->H.reset(new SubMeshTopologyHandler(t->parent.get()));
      t->sig = fmt("sub|dim%d|%s|order%d|affine%d|%s|n%d|shuffle%d", dim, s.shape(), s.order, s.affine, s.part.c_str(), s.numSub, s.shuffle);
   }
   t->H->ExportInfo(t->ms, td); return t;
}
struct Spaces
{
   std::vector<std::unique_ptr<FiniteElementCollection>> fec; std::vector<std::unique_ptr<FiniteElementSpace>> own; Array<FiniteElementSpace *> fes; std::string sig;
   int total() const { int n = 0; for (int k = 0; k < fes.Size(); k++) { n += fes[k]->GetTrueVSize(); } return n; }
};
// like: other spaces whose per-mesh order choice must follow (components of the same type share the order)
inline std::unique_ptr<Spaces> make_spaces(Rng &r, const Array<Mesh *> &ms, int dim, int vdim, int maxorder, const std::vector<int> *type = nullptr, int minorder = 1, std::vector<int> *chosen = nullptr)
{
   std::unique_ptr<Spaces> s(new Spaces); bool mixed = r.b(0.4), h1 = r.b(0.35), bynodes = r.b(0.7); int o0 = r.i(minorder, maxorder); std::map<int, int> byt;
   for (int k = 0; k < ms.Size(); k++)
   {
      int o = o0; if (mixed) { if (type) { int t = (*type)[k]; if (!byt.count(t)) { byt[t] = r.i(minorder, maxorder); } o = byt[t]; } else { o = r.i(minorder, maxorder); } }
      if (chosen) { chosen->push_back(h1 && o >= 1 ? o : -1 - o); }
      s->fec.emplace_back(h1 && o >= 1 ? (FiniteElementCollection *)new H1_FECollection(o, dim) : (FiniteElementCollection *)new L2_FECollection(o, dim, r.b(0.5) ? BasisType::GaussLegendre : BasisType::GaussLobatto));
      s->own.emplace_back(new FiniteElementSpace(ms[k], s->fec.back().get(), vdim, bynodes ? Ordering::byNODES : Ordering::byVDIM)); s->fes.Append(s->own.back().get());
   }
   s->sig = fmt("%s%d%s%s", h1 ? "H" : "L", o0, mixed ? "m" : "", bynodes ? "" : "v"); return s;
}
// Expected block, stored sparsely; compared entry by entry with the library's matrix
struct SpBlock { int h = 0, w = 0; std::unordered_map<long, double> e; double mx = 0; void add(int i, int j, double v) { double &x = e[(long)i * w + j]; x += v; } };
inline void add_block(SpBlock &B, const Array<int> &rv, const Array<int> &cv, const DenseMatrix &e)
{
   for (int i = 0; i < rv.Size(); i++) for (int j = 0; j < cv.Size(); j++) { int a = rv[i] < 0 ? -1 - rv[i] : rv[i], b = cv[j] < 0 ? -1 - cv[j] : cv[j]; double s = (rv[i] < 0 ? -1 : 1) * (cv[j] < 0 ? -1 : 1); B.add(a, b, s * e.GetData()[i + e.Height() * j]); }
}
inline bool close_block(Ctx &c, const SparseMatrix &S, const SpBlock &B, double tol, const std::string &key, const std::string &what, double minscale = 1e-7)
{
   c.evaluations++; if (S.Height() != B.h || S.Width() != B.w) { c.fail(key, fmt("%s size %dx%d expected %dx%d", what.c_str(), S.Height(), S.Width(), B.h, B.w)); return false; }
   std::unique_ptr<SparseMatrix> C; const SparseMatrix *M = &S; if (!S.Finalized()) { C.reset(new SparseMatrix(S)); C->Finalize(0); M = C.get(); }
   double sc = minscale; for (auto &x : B.e) { sc = std::max(sc, std::fabs(x.second)); } std::unordered_map<long, double> got; const int *I = M->GetI(), *J = M->GetJ(); const double *D = M->GetData();
   for (int i = 0; i < M->Height(); i++) for (int k = I[i]; k < I[i + 1]; k++) { got[(long)i * B.w + J[k]] += D[k]; }
   double &mx = c.maxima[key];
   auto bad = [&](long k, double a, double b) { if (!(std::fabs(a - b) <= tol * sc)) { c.fail(key, fmt("%s entry (%ld,%ld) got %.17g expected %.17g (scale %.3g)", what.c_str(), k / B.w, k % B.w, a, b, sc)); return true; } mx = std::max(mx, std::fabs(a - b) / sc); return false; };
   for (auto &x : B.e) { auto it = got.find(x.first); if (bad(x.first, it == got.end() ? 0.0 : it->second, x.second)) { return false; } }
   for (auto &x : got) if (!B.e.count(x.first) && bad(x.first, x.second, 0.0)) { return false; }
   return true;
}
} // namespace vf
#endif
