// Nonlinear interface fluxes: the residual is the documented flux on both sides, the gradient its exact derivative.
#include "common.hpp"
#include "iface_gen.hpp"
#include "interface_form.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
typedef std::vector<std::vector<std::unique_ptr<SpBlock>>> Blocks;
static SpBlock &blk(Blocks &B, int i, int j, int h, int w) { if (!B[i][j]) { B[i][j].reset(new SpBlock); B[i][j]->h = h; B[i][j]->w = w; } return *B[i][j]; }

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; bool comp = c.kase % 2; int dim = (c.kase / 2) % 4 == 3 ? 3 : 2; auto T = make_topo(c, r, comp, dim, 4, 2, true); TopologyHandler &H = *T->H; Array<Mesh *> &ms = T->ms; int N = ms.Size();
   const std::vector<int> *ty = comp ? &T->S.type : nullptr; auto S = make_spaces(r, ms, dim, dim, T->max_order(r), ty); int kinds = r.i(1, 3); // bit 0 Temam, bit 1 Lax-Friedrichs
   double w0 = r.u(0.5, 2), w1 = r.u(0, 0.8), w2 = r.u(0.2, 2); auto q = [=](const Vector &x) { double s = 0; for (int k = 0; k < x.Size(); k++) { s += std::sin(w2 * x(k) + k); } return w0 * (1 + w1 * s / x.Size()); };
   FunctionCoefficient Q(q); InterfaceForm F(ms, S->fes, &H); Geometry::Type fg = dim == 2 ? Geometry::SEGMENT : ms[0]->GetBdrElementBaseGeometry(0); const IntegrationRule *ir = kinds == 2 && r.b(0.3) ? &IntRules.Get(fg, rule_order(r, 7, dim)) : NULL;
   if (kinds & 1) { F.AddInterfaceIntegrator(new InterfaceDGTemamFluxIntegrator(Q)); } if (kinds & 2) { F.AddInterfaceIntegrator(new DGLaxFriedrichsFluxIntegrator(Q, NULL, ir)); }
   const Array<int> &off = F.GetBlockOffsets(); c.check(off.Size() == N + 1 && off[N] == S->total(), "block-offsets");
   for (int rep = 0; rep < 2; rep++)
   {
      int mode = r.i(0, 6); double mag = r.pick<double>({1.0, 1.0, 1.0, 1e-6, 1e4, 1e7}); Vector x(off[N]), y(off[N]), y0(off[N]); r.fill(y0, -1, 1); y0 *= mag * mag; y = y0; BlockVector bx(x.GetData(), off); bool grad = true; std::string mn = "random";
      r.fill(x, -1, 1); x *= mag;
      if (mode == 1) { x = 0.; mn = "at-rest"; } else if (mode == 2) { int z = r.i(0, N - 1); for (int k = off[z]; k < off[z + 1]; k++) { x(k) = 0; } mn = "block-at-rest"; }
      else if (mode == 3) { Vector u(dim); r.fill(u); u *= mag; VectorConstantCoefficient uc(u); for (int k = 0; k < N; k++) { GridFunction g(S->fes[k], bx.GetBlock(k).GetData()); g.ProjectCoefficient(uc); } mn = "uniform"; }
      else if (mode == 4) { // smooth field, same on all blocks
         VectorFunctionCoefficient sc(dim, [&](const Vector &p, Vector &v) { for (int k = 0; k < v.Size(); k++) { v(k) = mag * (std::sin(1.3 * p(0) + k) + 0.5 * p(1) * k); } }); for (int k = 0; k < N; k++) { GridFunction g(S->fes[k], bx.GetBlock(k).GetData()); g.ProjectCoefficient(sc); } mn = "smooth"; grad = false; }
      else if (mode == 5) { // two uniform states of clearly different size
         for (int k = 0; k < N; k++) { Vector u(dim); r.fill(u, 0.3, 1); u *= mag * (1 + 3.0 * k); VectorConstantCoefficient uc(u); GridFunction g(S->fes[k], bx.GetBlock(k).GetData()); g.ProjectCoefficient(uc); } mn = "piecewise-uniform"; }
      Vector xs(x); bool gfirst = r.b(0.4); if (!gfirst) { F.InterfaceAddMult(x, y); }
      Array2D<SparseMatrix *> M(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { M(i, j) = new SparseMatrix(S->fes[i]->GetTrueVSize(), S->fes[j]->GetTrueVSize()); }
      F.InterfaceGetGradient(x, M); if (gfirst) { F.InterfaceAddMult(x, y); c.event("gradient before residual"); } { bool same = true; for (int k = 0; k < x.Size(); k++) { same = same && biteq(x(k), xs(k)); } c.check(same, "state-unchanged"); }
      Vector want(y0), scale(off[N]); scale = 0.; Blocks G(N); for (auto &b : G) { b.resize(N); } double margin = 1; bool ok = true; Vector total(dim); total = 0.; double tsc = 0;
      for (int p = 0; p < H.GetNumPorts() && ok; p++)
      {
         const PortInfo *pi = H.GetPortInfo(p); int id[2] = {pi->Mesh1, pi->Mesh2}; Array<InterfaceInfo> &I = *H.GetInterfaceInfos(p); Mesh &m1 = *ms[id[0]], &m2 = *ms[id[1]];
         for (int k = 0; k < I.Size() && ok; k++)
         {
            int e1, e2, inf; m1.GetBdrElementAdjacentElement(I[k].BE1, e1, inf); m2.GetBdrElementAdjacentElement(I[k].BE2, e2, inf); const FiniteElement &f1 = *S->fes[id[0]]->GetFE(e1), &f2 = *S->fes[id[1]]->GetFE(e2); std::vector<FP> pts;
            const IntegrationRule &rule = ir ? *ir : IntRules.Get(m1.GetBdrElementBaseGeometry(I[k].BE1), (int)std::ceil(1.5 * (2 * std::max(f1.GetOrder(), f2.GetOrder()) - 1)));
            if (!interface_points(m1, m2, I[k].BE1, I[k].BE2, rule, pts)) { c.fail("interface-geometry", "the paired faces do not coincide"); ok = false; break; }
            IsoparametricTransformation T1, T2; m1.GetElementTransformation(e1, &T1); m2.GetElementTransformation(e2, &T2); Array<int> v[2]; S->fes[id[0]]->GetElementVDofs(e1, v[0]); S->fes[id[1]]->GetElementVDofs(e2, v[1]); Vector x1, x2, a[2]; bx.GetBlock(id[0]).GetSubVector(v[0], x1); bx.GetBlock(id[1]).GetSubVector(v[1], x2); DenseMatrix g[2][2]; c.event("interface faces");
            for (int kind = 0; kind < 2; kind++) if (kinds & (1 << kind))
               {
                  flux_face(kind ? LAXF : TEMAM, pts, f1, T1, &f2, &T2, x1, x2, q, nullptr, a[0], a[1], g, margin);
                  for (int s = 0; s < 2; s++) { for (int i = 0; i < v[s].Size(); i++) { want(off[id[s]] + v[s][i]) += a[s](i); } for (int t = 0; t < 2; t++) { add_block(blk(G, id[s], id[t], S->fes[id[s]]->GetTrueVSize(), S->fes[id[t]]->GetTrueVSize()), v[s], v[t], g[s][t]); } }
               }
         }
      }
      if (!ok) { break; }
      const char *kn = kinds == 1 ? "temam" : kinds == 2 ? "lax-friedrichs" : "both"; c.closeVec(y, want, 1e-9, std::string(kn) + "-residual", mn, 1e-14); c.event("residuals");
      if (mode == 3 && kinds == 2) {} // (uniform flow: side 1 loses what side 2 gains, implied by the residual)
      if (grad && (margin > 1e-5 || mode == 1 || mode == 3))
      {
         c.event("gradients"); bool allok = true;
         for (int i = 0; i < N && allok; i++) for (int j = 0; j < N && allok; j++)
            { if (G[i][j]) { allok = close_block(c, *M(i, j), *G[i][j], 1e-9, std::string(kn) + "-gradient", fmt("%s block (%d,%d)", mn.c_str(), i, j), 1e-14); } else { M(i, j)->Finalize(); allok = c.check(M(i, j)->NumNonZeroElems() == 0 || M(i, j)->MaxNorm() == 0, "block-of-unconnected-subdomains"); } }
         if (allok && kinds == 2)
         { // what leaves one side enters the other: total over all test functions per component vanishes
            Vector one(off[N]); one = 0.; for (int d = 0; d < dim; d++) { Vector u(dim); u = 0.; u(d) = 1; VectorConstantCoefficient uc(u); double s = 0, a = 0; for (int k = 0; k < N; k++) { GridFunction g(S->fes[k]); g.ProjectCoefficient(uc); for (int z = 0; z < g.Size(); z++) { s += g(z) * (y(off[k] + z) - y0(off[k] + z)); a += std::fabs(g(z)) * (std::fabs(y(off[k] + z)) + std::fabs(y0(off[k] + z))); } } c.close(s, 0, a + 1e-300, 1e-11, "flux-conservation", mn); }
         }
      }
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { delete M(i, j); }
      c.sig(fmt("%s|%d|%s|%s", T->sig.c_str(), kinds, S->sig.c_str(), mn.c_str()));
   }
   c.sample(fmt("%s, fluxes %d, space %s", T->sig.c_str(), kinds, S->sig.c_str()));
}
VF_MAIN(480, 9000)
