// Linear interface operators between blocks equal the interior-face terms of one undivided DG discretization.
#include "common.hpp"
#include "iface_gen.hpp"
#include "interface_form.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}

struct MatC : MatrixCoefficient { const Mat &m; MatC(int d, const Mat &mm) : MatrixCoefficient(d), m(mm) {} void Eval(DenseMatrix &M, ElementTransformation &T, const IntegrationPoint &ip) override { Vector x(T.GetSpaceDim()); T.Transform(ip, x); M.SetSize(height); m.M(x, T.Attribute, M); } };
struct FnC : Coefficient { std::function<double(const Vector &, int)> f; FnC(std::function<double(const Vector &, int)> g) : f(g) {} double Eval(ElementTransformation &T, const IntegrationPoint &ip) override { Vector x(T.GetSpaceDim()); T.Transform(ip, x); return f(x, T.Attribute); } };

typedef std::function<void(const Vector &, Vector &)> Move;
typedef std::vector<std::vector<std::unique_ptr<SpBlock>>> Blocks;
static SpBlock &blk(Blocks &B, int i, int j, int h, int w) { if (!B[i][j]) { B[i][j].reset(new SpBlock); B[i][j]->h = h; B[i][j]->w = w; } return *B[i][j]; }

static bool pair_oracle(Ctx &c, const DGTerm &t, Mesh &m1, Mesh &m2, FiniteElementSpace &s1, FiniteElementSpace &s2, Array<InterfaceInfo> &I, SpBlock *B[2][2], const Move &to2)
{
   for (int k = 0; k < I.Size(); k++)
   {
      int e1, e2, inf; m1.GetBdrElementAdjacentElement(I[k].BE1, e1, inf); m2.GetBdrElementAdjacentElement(I[k].BE2, e2, inf); const FiniteElement &f1 = *s1.GetFE(e1), &f2 = *s2.GetFE(e2); std::vector<FP> pts;
      const IntegrationRule &ir = IntRules.Get(m1.GetBdrElementBaseGeometry(I[k].BE1), 2 * std::max(f1.GetOrder(), f2.GetOrder())); if (!interface_points(m1, m2, I[k].BE1, I[k].BE2, ir, pts, to2)) { c.fail("interface-geometry", "the paired faces do not coincide"); return false; }
      IsoparametricTransformation T1, T2; m1.GetElementTransformation(e1, &T1); m2.GetElementTransformation(e2, &T2); DenseMatrix o[2][2]; dg_face(t, pts, f1, T1, &f2, &T2, o); Array<int> v[2]; s1.GetElementVDofs(e1, v[0]); s2.GetElementVDofs(e2, v[1]); c.event("interface faces");
      for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { add_block(*B[a][b], v[a], v[b], o[a][b]); }
   }
   return true;
}
static bool pair_oracle_mixed(Ctx &c, Mesh &m1, Mesh &m2, FiniteElementSpace *tr[2], FiniteElementSpace *te[2], Array<InterfaceInfo> &I, SpBlock *B[2][2], const Move &to2)
{
   for (int k = 0; k < I.Size(); k++)
   {
      int e[2], inf; m1.GetBdrElementAdjacentElement(I[k].BE1, e[0], inf); m2.GetBdrElementAdjacentElement(I[k].BE2, e[1], inf); const FiniteElement *ft[2] = {tr[0]->GetFE(e[0]), tr[1]->GetFE(e[1])}, *fq[2] = {te[0]->GetFE(e[0]), te[1]->GetFE(e[1])}; std::vector<FP> pts;
      IsoparametricTransformation T1, T2; m1.GetElementTransformation(e[0], &T1); m2.GetElementTransformation(e[1], &T2); ElementTransformation *T[2] = {&T1, &T2};
      int ord = std::min(T1.OrderW(), T2.OrderW()) + std::max(ft[0]->GetOrder(), ft[1]->GetOrder()) + std::max(fq[0]->GetOrder(), fq[1]->GetOrder()) + (ft[0]->Space() == FunctionSpace::Pk ? 1 : 0);
      const IntegrationRule &ir = IntRules.Get(m1.GetBdrElementBaseGeometry(I[k].BE1), ord); if (!interface_points(m1, m2, I[k].BE1, I[k].BE2, ir, pts, to2)) { c.fail("interface-geometry", "the paired faces do not coincide"); return false; }
      DenseMatrix o[2][2]; normal_flux_face(pts, ft, fq, T, 2, o); Array<int> v[2], w[2]; for (int a = 0; a < 2; a++) { te[a]->GetElementVDofs(e[a], v[a]); tr[a]->GetElementVDofs(e[a], w[a]); } c.event("mixed interface faces");
      for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { add_block(*B[a][b], v[a], w[b], o[a][b]); }
   }
   return true;
}

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; bool comp = c.kase % 2; int dim = (c.kase / 2) % 4 == 3 ? 3 : 2; auto T = make_topo(c, r, comp, dim, 4, 2, true); TopologyHandler &H = *T->H; Array<Mesh *> &ms = T->ms; int N = ms.Size();
   DGTerm t[2]; int nt = r.b(0.25) ? 2 : 1; bool mixedform = r.b(0.35); bool vec = r.b(0.6); double w0 = r.u(0.5, 2) * (r.b(0.08) ? r.pick<double>({1e9, 1e-6, -1}) : 1), w1 = r.u(0, 0.5), w2 = r.u(0.1, 2), jump = r.b() ? r.u(0, 3) : 0;
   int maxo = T->max_order(r); const std::vector<int> *ty = comp ? &T->S.type : nullptr;
   auto fa = [=](const Vector &x, int at) { double s = 0; for (int k = 0; k < x.Size(); k++) { s += std::sin(w2 * x(k) + k); } return w0 * (1 + w1 * s / x.Size()) * (1 + jump * (at % 3)); };
   auto fb = [=](const Vector &x, int at) { double s = 0; for (int k = 0; k < x.Size(); k++) { s += std::cos(w2 * x(k) + 2 * k); } return w0 * (1 + w1 * s / x.Size()) * (1 + jump * ((at + 1) % 3)); };
   auto fm = [=](const Vector &x, int at, DenseMatrix &M) { for (int i = 0; i < M.Height(); i++) for (int j = 0; j < M.Width(); j++) { M(i, j) = (i == j ? 2.0 : 0.0) + 0.4 * std::sin(w2 * x(0) + i + 2 * j) + 0.2 * (at % 2); } };
   if (mixedform)
   {
      std::vector<int> o1; auto U = make_spaces(r, ms, dim, dim, maxo, ty, 1), P = make_spaces(r, ms, dim, 1, maxo, ty, 0); MixedInterfaceForm F(ms, U->fes, P->fes, &H); F.AddInterfaceIntegrator(new InterfaceDGNormalFluxIntegrator());
      Blocks want(N); for (auto &b : want) { b.resize(N); }
      Array2D<SparseMatrix *> M(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { M(i, j) = new SparseMatrix(P->fes[i]->GetTrueVSize(), U->fes[j]->GetTrueVSize()); }
      F.AssembleInterfaceMatrices(M); bool ok = true;
      for (int p = 0; p < H.GetNumPorts() && ok; p++)
      {
         const PortInfo *q = H.GetPortInfo(p); int id[2] = {q->Mesh1, q->Mesh2}; SpBlock *B[2][2]; FiniteElementSpace *tr[2] = {U->fes[id[0]], U->fes[id[1]]}, *te[2] = {P->fes[id[0]], P->fes[id[1]]};
         for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { B[a][b] = &blk(want, id[a], id[b], te[a]->GetTrueVSize(), tr[b]->GetTrueVSize()); } ok = pair_oracle_mixed(c, *ms[id[0]], *ms[id[1]], tr, te, *H.GetInterfaceInfos(p), B, nullptr);
      }
      for (int i = 0; i < N && ok; i++) for (int j = 0; j < N && ok; j++)
         { if (want[i][j]) { ok = close_block(c, *M(i, j), *want[i][j], 1e-8, "normal-flux-block", fmt("block (%d,%d)", i, j), 1e-12); } else { M(i, j)->Finalize(); ok = c.check(M(i, j)->NumNonZeroElems() == 0 || M(i, j)->MaxNorm() == 0, "block-of-unconnected-subdomains", fmt("(%d,%d)", i, j)); } c.event("blocks compared"); }
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { delete M(i, j); }
      if (comp && !T->S.rotated && ok)
      { // reference ports
         int nc = H.GetNumComponents(); Array<Mesh *> cm; std::vector<int> id(nc); for (int k = 0; k < nc; k++) { cm.Append(H.GetComponentMesh(k)); id[k] = k; } auto CU = make_spaces(r, cm, dim, dim, maxo, &id, 1), CP = make_spaces(r, cm, dim, 1, maxo, &id, 0);
         for (int p = 0; p < H.GetNumRefPorts() && ok; p++)
         {
            int k[2]; H.GetComponentPair(p, k[0], k[1]); Array2D<SparseMatrix *> R(2, 2); R = NULL; F.AssembleInterfaceMatrixAtPort(p, CU->fes, CP->fes, R); if (r.b(0.3)) { F.AssembleInterfaceMatrixAtPort(p, CU->fes, CP->fes, R); c.event("port matrices replaced"); } SpBlock w[2][2], *B[2][2]; FiniteElementSpace *tr[2] = {CU->fes[k[0]], CU->fes[k[1]]}, *te[2] = {CP->fes[k[0]], CP->fes[k[1]]};
            for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { w[a][b].h = te[a]->GetTrueVSize(); w[a][b].w = tr[b]->GetTrueVSize(); B[a][b] = &w[a][b]; }
            auto &rc = T->S.ref_conf[p]; Mesh ma(*cm[k[0]]), mb(*cm[k[1]]); ok = pair_oracle_mixed(c, ma, mb, tr, te, *H.GetRefInterfaceInfos(p), B, [&](const Vector &x, Vector &y) { y = x; for (int d = 0; d < dim; d++) { y(d) -= rc[d]; } });
            for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { ok = ok && close_block(c, *R(a, b), w[a][b], 1e-8, "normal-flux-reference-port", fmt("port %d block (%d,%d)", p, a, b), 1e-12); delete R(a, b); } c.event("reference ports");
         }
      }
      c.sig(T->sig + "|mixed|" + U->sig + P->sig); return;
   }
   auto S = make_spaces(r, ms, dim, vec ? dim : 1, maxo, ty);
   Mat mat; std::vector<std::unique_ptr<Coefficient>> cf; std::vector<std::unique_ptr<MatrixCoefficient>> mc; InterfaceForm F(ms, S->fes, &H); std::string kinds; bool plain = false;
   for (int k = 0; k < nt; k++)
   {
      DGTerm &q = t[k]; q.kind = vec ? r.i(2, 3) : r.i(0, 1); q.alpha = r.pick<double>({-1, 1, 0, 0.37}); q.kappa = r.b(0.2) ? 0.0 : r.b(0.08) ? r.pick<double>({1e6, 1e-5, 400, -3}) : r.u(0.5, 20); plain = q.kind == 0 && r.b(0.3); q.m.a = fa; q.m.b = fb; q.m.M = fm; if (plain) { q.m.a = nullptr; }
      kinds += fmt("%d%s%s%s", q.kind, plain ? "p" : "", q.kappa == 0 ? "z" : "", q.alpha == -1 ? "s" : "");
      InterfaceNonlinearFormIntegrator *I = NULL;
      if (q.kind == 0) { cf.emplace_back(new FnC(fa)); I = plain ? new InterfaceDGDiffusionIntegrator(q.alpha, q.kappa) : new InterfaceDGDiffusionIntegrator(*cf.back(), q.alpha, q.kappa); }
      else if (q.kind == 1) { mc.emplace_back(new MatC(dim, q.m)); I = new InterfaceDGDiffusionIntegrator(*mc.back(), q.alpha, q.kappa); }
      else if (q.kind == 2) { cf.emplace_back(new FnC(fa)); I = new InterfaceDGVectorDiffusionIntegrator(*cf.back(), q.alpha, q.kappa); }
      else { cf.emplace_back(new FnC(fa)); cf.emplace_back(new FnC(fb)); I = new InterfaceDGElasticityIntegrator(cf[cf.size() - 2].get(), cf.back().get(), q.alpha, q.kappa); }
      F.AddInterfaceIntegrator(I);
   }
   Blocks want(N); for (auto &b : want) { b.resize(N); }
   Array2D<SparseMatrix *> M(N, N); bool pre = r.b(0.3);
   for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
      {
         int h = S->fes[i]->GetTrueVSize(), w = S->fes[j]->GetTrueVSize(); M(i, j) = new SparseMatrix(h, w);
         if (pre && r.b()) { SpBlock &D = blk(want, i, j, h, w); for (int k = 0; k < 5; k++) { int a = r.i(0, h - 1), b = r.i(0, w - 1); double v = r.u(-1, 1); M(i, j)->Add(a, b, v); D.add(a, b, v); } }
      }
   F.AssembleInterfaceMatrices(M); bool ok = true;
   for (int p = 0; p < H.GetNumPorts() && ok; p++)
   {
      const PortInfo *q = H.GetPortInfo(p); int id[2] = {q->Mesh1, q->Mesh2}; SpBlock *B[2][2]; for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { B[a][b] = &blk(want, id[a], id[b], S->fes[id[a]]->GetTrueVSize(), S->fes[id[b]]->GetTrueVSize()); }
      for (int k = 0; k < nt && ok; k++) { ok = pair_oracle(c, t[k], *ms[id[0]], *ms[id[1]], *S->fes[id[0]], *S->fes[id[1]], *H.GetInterfaceInfos(p), B, nullptr); }
   }
   static const char *nm[] = {"diffusion", "tensor-diffusion", "vector-diffusion", "elasticity"};
   for (int i = 0; i < N && ok; i++) for (int j = 0; j < N && ok; j++)
      { if (want[i][j]) { ok = close_block(c, *M(i, j), *want[i][j], 1e-8, std::string(nm[t[0].kind]) + "-block", fmt("block (%d,%d)", i, j), 1e-12); } else { M(i, j)->Finalize(); ok = c.check(M(i, j)->NumNonZeroElems() == 0 || M(i, j)->MaxNorm() == 0, "block-of-unconnected-subdomains", fmt("(%d,%d)", i, j)); } c.event("blocks compared"); }
   // constants are in the kernel (no jump, no gradient): rows sum to zero per vector component
   if (ok && !pre && !(nt == 2) ) { for (int i = 0; i < N; i++) { Vector y(S->fes[i]->GetTrueVSize()); y = 0.; double sc = 0; for (int j = 0; j < N; j++) { Vector x(S->fes[j]->GetTrueVSize()), z(y.Size()); x = 1.; if (!M(i, j)->Finalized()) { M(i, j)->Finalize(); } M(i, j)->Mult(x, z); y += z; if (M(i, j)->NumNonZeroElems()) { sc = std::max(sc, M(i, j)->MaxNorm()); } } if (sc > 0 ) { c.close(y.Normlinf(), 0, sc * 50, 1e-9, "constants-see-no-interface"); } } }
   for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { delete M(i, j); }
   if (comp && !T->S.rotated && ok)
   {
      int nc = H.GetNumComponents(); Array<Mesh *> cm; std::vector<int> id(nc); for (int k = 0; k < nc; k++) { cm.Append(H.GetComponentMesh(k)); id[k] = k; } auto CS = make_spaces(r, cm, dim, vec ? dim : 1, maxo, &id);
      for (int p = 0; p < H.GetNumRefPorts() && ok; p++)
      {
         int k[2]; H.GetComponentPair(p, k[0], k[1]); Array2D<SparseMatrix *> R(2, 2); R = NULL; F.AssembleInterfaceMatrixAtPort(p, CS->fes, R); if (r.b(0.3)) { F.AssembleInterfaceMatrixAtPort(p, CS->fes, R); c.event("port matrices replaced"); } SpBlock w[2][2], *B[2][2]; FiniteElementSpace *s[2] = {CS->fes[k[0]], CS->fes[k[1]]};
         for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { w[a][b].h = s[a]->GetTrueVSize(); w[a][b].w = s[b]->GetTrueVSize(); B[a][b] = &w[a][b]; }
         auto &rc = T->S.ref_conf[p]; Mesh ma(*cm[k[0]]), mb(*cm[k[1]]);
         for (int q = 0; q < nt && ok; q++) { ok = pair_oracle(c, t[q], ma, mb, *s[0], *s[1], *H.GetRefInterfaceInfos(p), B, [&](const Vector &x, Vector &y) { y = x; for (int d = 0; d < dim; d++) { y(d) -= rc[d]; } }); }
         for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) { ok = ok && close_block(c, *R(a, b), w[a][b], 1e-8, std::string(nm[t[0].kind]) + "-reference-port", fmt("port %d block (%d,%d)", p, a, b), 1e-12); delete R(a, b); } c.event("reference ports");
      }
   }
   c.sig(T->sig + "|" + kinds + "|" + S->sig); c.sample(fmt("%s, term %s, space %s, %d blocks", T->sig.c_str(), kinds.c_str(), S->sig.c_str(), N));
}
VF_MAIN(900, 9000)
