// Nonlinear domain and face terms within one mesh: residual == documented integral, gradient == exact derivative, independent of what the integrator did before.
#include "common.hpp"
#include "nl_gen.hpp"
#include "nonlinear_integ.hpp"
#include "hyperreduction_integ.hpp"
#include "interfaceinteg.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; std::vector<std::unique_ptr<NLMesh>> M; M.emplace_back(new NLMesh(r, c.kase % 3 == 2 ? 3 : c.kase % 12 == 4 ? 1 : 2, 2, c.kase % 3 == 2 ? 2 : 4)); if (r.b(0.7)) { M.emplace_back(new NLMesh(r, r.b(0.25) ? 3 : r.b(0.1) ? 1 : 2, 2, 2)); }
   double mag = r.pick<double>({1.0, 1.0, 1.0, 1e-5, 1e3, 1e6}); Fields F(r, mag);
   struct Dom { std::string name; std::unique_ptr<NonlinearFormIntegrator> I; ConvTerm t; }; std::vector<Dom> D; // integrators live for the whole history
   for (int rep = 0; rep < 2; rep++) // the second set is never given a rule
   {
      ConvTerm a; a.c1 = 1; a.c2 = 0; a.Q = F.q; ConvTerm b; b.c1 = 0.5; b.c2 = -0.5; b.Q = F.q; ConvTerm e; e.c1 = 0; e.c2 = 1; e.Q = F.q; ConvTerm a0 = a, b0 = b, e0 = e; a0.Q = b0.Q = e0.Q = nullptr;
      D.push_back({"convection", std::unique_ptr<NonlinearFormIntegrator>(new VectorConvectionTrilinearFormIntegrator(*F.Q)), a}); D.push_back({"temam", std::unique_ptr<NonlinearFormIntegrator>(new TemamTrilinearFormIntegrator(*F.Q)), b});
      D.push_back({"inviscid-flux", std::unique_ptr<NonlinearFormIntegrator>(new IncompressibleInviscidFluxNLFIntegrator(*F.Q)), e}); D.push_back({"convection", std::unique_ptr<NonlinearFormIntegrator>(new VectorConvectionTrilinearFormIntegrator()), a0});
      D.push_back({"temam", std::unique_ptr<NonlinearFormIntegrator>(new TemamTrilinearFormIntegrator()), b0}); D.push_back({"inviscid-flux", std::unique_ptr<NonlinearFormIntegrator>(new IncompressibleInviscidFluxNLFIntegrator()), e0});
   }
   std::map<int, std::unique_ptr<NonlinearFormIntegrator>> presc; for (int d = 1; d <= 3; d++) { presc[d].reset(new VectorConvectionTrilinearFormIntegrator(*F.Q, F.U[d].get())); presc[d + 10].reset(new VectorConvectionTrilinearFormIntegrator(*F.Q, F.U[d].get())); }
   DGTemamFluxIntegrator temam(*F.Q), temam0(*F.Q); DGLaxFriedrichsFluxIntegrator lf(*F.Q), lf0(*F.Q); std::map<int, std::unique_ptr<DGLaxFriedrichsFluxIntegrator>> lfd; for (int d = 1; d <= 3; d++) { lfd[d].reset(new DGLaxFriedrichsFluxIntegrator(*F.Q, F.U[d].get())); lfd[d + 10].reset(new DGLaxFriedrichsFluxIntegrator(*F.Q, F.U[d].get())); }
   int nops = c.tier == "thorough" ? 60 : 36; std::string prev = "-"; std::unique_ptr<Vector> y(new Vector); std::unique_ptr<DenseMatrix> A(new DenseMatrix);
   for (int op = 0; op < nops; op++)
   {
      NLMesh &N = *M[r.i(0, (int)M.size() - 1)]; Mesh &m = *N.m; int dim = N.s.dim, what = r.i(0, 2); double ref = mag * mag, ext = std::pow(extent(m), dim - 1);
      if (r.b(0.6)) { y.reset(new Vector(r.i(0, 40))); r.fill(*y); } if (r.b(0.6)) { A.reset(new DenseMatrix(r.i(1, 20), r.i(1, 20))); r.fill(*A); } // outputs of any former size, old ones gone
      if (what == 0)
      {
         FiniteElementSpace &fs = *N.fes[r.i(0, 1)]; int e = r.i(0, m.GetNE() - 1); const FiniteElement &fe = *fs.GetFE(e); IsoparametricTransformation T; m.GetElementTransformation(e, &T); Vector x, want; std::unique_ptr<Vector> xp(new Vector); std::string sn = state(r, fe, *xp, mag); x = *xp; DenseMatrix G;
         bool untouched = r.b(0.4); int nd = D.size() / 2, k = r.i(0, nd); NonlinearFormIntegrator &I = k < nd ? *D[k + untouched * nd].I : *presc[dim + 10 * untouched]; ConvTerm t = k < nd ? D[k].t : D[0].t; std::string name = k < nd ? D[k].name : "convection-by-field"; if (k == nd) { t.a = F.u; }
         const IntegrationRule *ir = !untouched && r.b(0.4) ? &IntRules.Get(fe.GetGeomType(), (r.b(0.08) ? r.i(8, dim == 2 ? 21 : 12) : r.i(1, 7))) : NULL; if (!untouched) { I.SetIntRule(ir); } const IntegrationRule &rule = ir ? *ir : IntRules.Get(fe.GetGeomType(), 2 * fe.GetOrder() + T.OrderGrad(&fe));
         IsoparametricTransformation T2; m.GetElementTransformation(e, &T2); conv_elem(t, fe, T2, rule, nullptr, x, want, G); bool first = r.b();
         double ys = 0; for (int i = 0; i < want.Size(); i++) { ys = std::max(ys, std::fabs(want(i))); }
         for (int pass = 0; pass < 2; pass++) { if ((pass == 0) == first) { I.AssembleElementVector(fe, T, *xp, *y); c.closeVec(*y, want, 1e-9, name + "-residual", sn, 1e-4 * ref * ext); } else { I.AssembleElementGrad(fe, T, *xp, *A); c.closeMat(*A, G, 1e-9, name + "-gradient", sn, 1e-4 * mag * ext); } }
         bool same = true; for (int i = 0; i < x.Size(); i++) { same = same && biteq(x(i), (*xp)(i)); } c.check(same, "state-unchanged"); if (!untouched) { I.SetIntRule(NULL); }
         c.event("element operations"); c.sig(fmt("%s|%s|%d|%s", N.sig.c_str(), name.c_str(), ir != NULL, sn.c_str())); prev = name;
      }
      else
      {
         bool bdr = what == 1; FaceElementTransformations *tr = nullptr; FiniteElementSpace &f1 = *N.fes[r.i(0, 1)], &f2 = *N.fes[r.i(0, 1)];
         if (bdr) { tr = m.GetBdrFaceTransformations(r.i(0, m.GetNBE() - 1)); } else { for (int z = 0; z < 20 && !tr; z++) { tr = m.GetInteriorFaceTransformations(r.i(0, m.GetNumFaces() - 1)); } }
         if (!tr) { continue; }
         const FiniteElement &e1 = *f1.GetFE(tr->Elem1No), &e2 = bdr ? e1 : *f2.GetFE(tr->Elem2No); int k = r.i(0, 2); std::string name = k == 0 ? "temam-flux" : k == 1 ? "lax-friedrichs" : bdr ? "lax-friedrichs-dirichlet" : "lax-friedrichs"; name += bdr ? "-boundary" : "-interior";
         bool untouched = r.b(0.4); NonlinearFormIntegrator &I = k == 0 ? (NonlinearFormIntegrator &)(untouched ? temam0 : temam) : k == 1 ? (NonlinearFormIntegrator &)(untouched ? lf0 : lf) : (NonlinearFormIntegrator &)*lfd[dim + 10 * untouched];
         Vector x1, x2; std::string sn = state(r, e1, x1, mag); if (!bdr) { sn += "/" + state(r, e2, x2, mag * r.pick<double>({1.0, 0.3, 3.0})); }
         std::unique_ptr<Vector> xp(new Vector(x1.Size() + x2.Size())); for (int i = 0; i < x1.Size(); i++) { (*xp)(i) = x1(i); } for (int i = 0; i < x2.Size(); i++) { (*xp)(x1.Size() + i) = x2(i); } Vector x(*xp);
         const IntegrationRule *ir = !untouched && r.b(0.4) ? &IntRules.Get(tr->GetGeometryType(), (r.b(0.08) ? r.i(8, dim == 2 ? 21 : 12) : r.i(1, 7))) : NULL; if (!untouched) { I.SetIntRule(ir); } const IntegrationRule &rule = ir ? *ir : IntRules.Get(tr->GetGeometryType(), (int)std::ceil(1.5 * (2 * std::max(e1.GetOrder(), bdr ? 0 : e2.GetOrder()) - 1)));
         std::vector<FP> pts = face_points(*tr, rule); IsoparametricTransformation T1, T2; m.GetElementTransformation(tr->Elem1No, &T1); if (!bdr) { m.GetElementTransformation(tr->Elem2No, &T2); } Vector a[2]; DenseMatrix g[2][2]; double margin = 1;
         flux_face(k == 0 ? TEMAM : LAXF, pts, e1, T1, bdr ? nullptr : &e2, bdr ? nullptr : &T2, x1, x2, F.q, k == 2 && bdr ? F.u : nullptr, a[0], a[1], g, margin);
         int n1 = x1.Size(), n = n1 + x2.Size(); Vector want(n); DenseMatrix G(n); G = 0.; for (int s = 0; s < (bdr ? 1 : 2); s++) { for (int i = 0; i < a[s].Size(); i++) { want(s * n1 + i) = a[s](i); } for (int t = 0; t < (bdr ? 1 : 2); t++) { G.CopyMN(g[s][t], s * n1, t * n1); } }
         bool first = r.b();
         for (int pass = 0; pass < 2; pass++)
         {
            if ((pass == 0) == first) { I.AssembleFaceVector(e1, e2, *tr, *xp, *y); c.closeVec(*y, want, 1e-9, name + "-residual", sn, 1e-4 * ref * ext); }
            else { I.AssembleFaceGrad(e1, e2, *tr, *xp, *A); if (k == 0 || margin > 1e-5) { c.closeMat(*A, G, 1e-9, name + "-gradient", sn, 1e-4 * mag * ext); c.event("face gradients"); } else { bool fin = true; for (int i = 0; i < A->Height() * A->Width(); i++) { fin = fin && std::isfinite(A->GetData()[i]); } c.check(fin, name + "-gradient-finite", sn); } }
         }
         bool same = true; for (int i = 0; i < n; i++) { same = same && biteq(x(i), (*xp)(i)); } c.check(same, "state-unchanged"); if (!untouched) { I.SetIntRule(NULL); }
         c.event("face operations"); c.sig(fmt("%s|%s|%d|%s", N.sig.c_str(), name.c_str(), ir != NULL, sn.c_str())); prev = name;
      }
   }
   c.sample(fmt("%s, %d operations, magnitude %g", M[0]->sig.c_str(), nops, mag));
}
VF_MAIN(400, 8000)
