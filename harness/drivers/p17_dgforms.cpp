// DG face terms inside one subdomain and boundary data terms: compared with plain quadrature of the formulas they document.
#include "common.hpp"
#include "nl_gen.hpp"
#include "iface_gen.hpp"
#include "dg_bilinear.hpp"
#include "dg_linear.hpp"
#include "dg_mixed_bilin.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
struct Space { std::unique_ptr<FiniteElementCollection> fec; std::unique_ptr<FiniteElementSpace> fes; };
static Space space(Rng &r, Mesh &m, int o, bool h1, int vdim, bool bynodes)
{
   Space s; int dim = m.Dimension(); s.fec.reset(h1 && o > 0 ? (FiniteElementCollection *)new H1_FECollection(o, dim) : (FiniteElementCollection *)new L2_FECollection(o, dim, r.b() ? BasisType::GaussLegendre : BasisType::GaussLobatto));
   s.fes.reset(new FiniteElementSpace(&m, s.fec.get(), vdim, bynodes ? Ordering::byNODES : Ordering::byVDIM)); return s;
}
static int nf_order(FaceElementTransformations &tr, const FiniteElement &t1, const FiniteElement *t2, const FiniteElement &q1, const FiniteElement *q2)
{
   int o = t2 ? std::min(tr.Elem1->OrderW(), tr.Elem2->OrderW()) + std::max(t1.GetOrder(), t2->GetOrder()) + std::max(q1.GetOrder(), q2->GetOrder()) : tr.Elem1->OrderW() + t1.GetOrder() + q1.GetOrder(); return o + (t1.Space() == FunctionSpace::Pk ? 1 : 0);
}
static void nf_block(Mesh &m, FaceElementTransformations &tr, FiniteElementSpace &tf, FiniteElementSpace &qf, SpBlock &B, double scale)
{
   bool in = tr.Elem2No >= 0; const FiniteElement *t[2] = {tf.GetFE(tr.Elem1No), in ? tf.GetFE(tr.Elem2No) : nullptr}, *q[2] = {qf.GetFE(tr.Elem1No), in ? qf.GetFE(tr.Elem2No) : nullptr}; const IntegrationRule &rule = IntRules.Get(tr.GetGeometryType(), nf_order(tr, *t[0], t[1], *q[0], q[1]));
   std::vector<FP> pts = face_points(tr, rule); int e[2] = {tr.Elem1No, tr.Elem2No}; IsoparametricTransformation T1, T2; m.GetElementTransformation(e[0], &T1); if (in) { m.GetElementTransformation(e[1], &T2); } ElementTransformation *T[2] = {&T1, &T2}; DenseMatrix out[2][2]; normal_flux_face(pts, t, q, T, in ? 2 : 1, out);
   for (int a = 0; a < (in ? 2 : 1); a++) for (int b = 0; b < (in ? 2 : 1); b++) { Array<int> rv, cv; qf.GetElementVDofs(e[a], rv); tf.GetElementVDofs(e[b], cv); out[a][b] *= scale; add_block(B, rv, cv, out[a][b]); }
}

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; int dim = c.kase % 4 == 3 ? 3 : c.kase % 16 == 6 ? 1 : 2; SubSpec s; s.dim = dim; auto mp = parent_mesh(r, s, 3, 2, true); Mesh &m = *mp; std::string ms = fmt("dim%d|%s|order%d|affine%d", dim, s.shape(), s.order, s.affine); if (dim == 2 || r.b()) { for (int i = 0; i < m.GetNBE(); i++) { m.SetBdrAttribute(i, r.i(1, 4)); } m.SetAttributes(); }
   int om = m.GetNE() > 60 ? 1 : dim == 3 ? (m.GetNE() < 9 && r.b(0.1) ? 3 : 2) : m.GetNE() < 20 && r.b(0.08) ? r.i(4, 6) : 3; Fields F(r); double alpha = r.pick<double>({-1, 0, 1, r.u(-2, 2)}), kappa = r.pick<double>({0.0, r.u(0.1, 10), 4.0, 100.0, 1e6}); std::vector<Space> V; for (int k = 0; k < 2; k++) { V.push_back(space(r, m, r.i(1, om), r.b(0.4), dim, r.b(0.6))); } auto q = F.q; auto u = F.u;
   DGVectorDiffusionIntegrator vd(*F.Q, alpha, kappa); DGVectorDirichletLFIntegrator vdl(*F.U[dim], *F.Q, alpha, kappa); DGBoundaryNormalLFIntegrator bn(*F.U[dim]);
   double a0 = r.u(-1, 1), a1 = r.u(-1, 1); auto st = [=](const Vector &x, Vector &v) { for (int k = 0; k < dim * dim; k++) { v(k) = std::sin(a0 * k + a1) + x(k % dim) * (k + 1) * 0.3; } }; VectorFunctionCoefficient SF(dim * dim, st); BoundaryNormalStressLFIntegrator ns(SF); bool withZ = r.b(); DGBdrTemamLFIntegrator tl(*F.U[dim], withZ ? F.Q.get() : NULL);
   std::unique_ptr<Vector> y(new Vector); std::unique_ptr<DenseMatrix> A(new DenseMatrix); bool rules = r.b(0.5); int nops = c.tier == "thorough" ? 50 : 24;
   for (int op = 0; op < nops; op++)
   {
      int what = r.i(0, dim == 1 ? 5 : 7); if (r.b()) { y.reset(new Vector(r.i(1, 50))); A.reset(new DenseMatrix(r.i(1, 9), r.i(1, 9))); } std::string name; FiniteElementSpace &f1 = *V[r.i(0, 1)].fes, &f2 = *V[r.i(0, 1)].fes; int be = r.i(0, m.GetNBE() - 1);
      if (what <= 2)
      { // interior and boundary faces of the vector diffusion term
         FaceElementTransformations *tr = nullptr; bool bdr = what == 0; if (bdr) { tr = m.GetBdrFaceTransformations(be); } else { for (int z = 0; z < 20 && !tr; z++) { tr = m.GetInteriorFaceTransformations(r.i(0, m.GetNumFaces() - 1)); } } if (!tr) { continue; }
         const FiniteElement &e1 = *f1.GetFE(tr->Elem1No), &e2 = bdr ? e1 : *f2.GetFE(tr->Elem2No); const IntegrationRule *ir = rules && r.b(0.4) ? &IntRules.Get(tr->GetGeometryType(), (r.b(0.08) ? r.i(7, dim == 2 ? 21 : 12) : r.i(1, 6))) : NULL; if (rules) { vd.SetIntRule(ir); } const IntegrationRule &rule = ir ? *ir : IntRules.Get(tr->GetGeometryType(), 2 * std::max(e1.GetOrder(), bdr ? 0 : e2.GetOrder()));
         std::vector<FP> pts = face_points(*tr, rule); IsoparametricTransformation T1, T2; m.GetElementTransformation(tr->Elem1No, &T1); if (!bdr) { m.GetElementTransformation(tr->Elem2No, &T2); } DGTerm t; t.kind = 2; t.alpha = alpha; t.kappa = kappa; t.m.a = [=](const Vector &x, int) { return q(x); }; DenseMatrix g[2][2];
         dg_face(t, pts, e1, T1, bdr ? nullptr : &e2, bdr ? nullptr : &T2, g); int n1 = dim * e1.GetDof(), n = n1 + (bdr ? 0 : dim * e2.GetDof()); DenseMatrix G(n); for (int a = 0; a < (bdr ? 1 : 2); a++) for (int b = 0; b < (bdr ? 1 : 2); b++) { G.CopyMN(g[a][b], a * n1, b * n1); }
         name = bdr ? "vector-diffusion-boundary" : "vector-diffusion-interior"; vd.AssembleFaceMatrix(e1, e2, *tr, *A); c.closeMat(*A, G, 1e-9, name, fmt("alpha %g kappa %g", alpha, kappa), 1e-12);
      }
      else if (what <= 5)
      { // boundary data through the neighbouring element
         FaceElementTransformations *tr = m.GetBdrFaceTransformations(be); if (!tr) { continue; } const FiniteElement &e = *f1.GetFE(tr->Elem1No); int nd = e.GetDof(), k = what == 3 ? 0 : what == 4 ? r.i(1, 2) : 3; IsoparametricTransformation T1; m.GetElementTransformation(tr->Elem1No, &T1); int o = k == 3 ? (int)std::ceil(1.5 * (2 * e.GetOrder() - 1)) : 2 * e.GetOrder();
         LinearFormIntegrator *I = k == 0 ? (LinearFormIntegrator *)&vdl : k == 1 ? (LinearFormIntegrator *)&bn : k == 2 ? (LinearFormIntegrator *)&ns : (LinearFormIntegrator *)&tl; const IntegrationRule *ir = rules && r.b(0.4) ? &IntRules.Get(tr->GetGeometryType(), (r.b(0.08) ? r.i(7, dim == 2 ? 21 : 12) : r.i(1, 6))) : NULL; if (rules) { I->SetIntRule(ir); }
         std::vector<FP> pts = face_points(*tr, ir ? *ir : IntRules.Get(tr->GetGeometryType(), o)); Vector want((k == 1 ? 1 : dim) * nd); want = 0.; const char *nm[4] = {"dirichlet-data", "normal-data", "normal-stress-data", "temam-data"}; name = nm[k];
         for (auto &p : pts)
         {
            SideEval sv; eval_side(e, T1, p.ip1, sv); Vector uv(dim); u(p.x, uv); double Q = q(p.x), un = uv * p.n, nn = p.n * p.n;
            for (int i = 0; i < nd; i++)
            {
               double gn = 0; for (int l = 0; l < dim; l++) { gn += sv.g(i, l) * p.n(l); }
               if (k == 1) { want(i) += p.w * un * sv.sh(i); continue; }
               Vector Fv(dim * dim); if (k == 2) { st(p.x, Fv); }
               for (int d = 0; d < dim; d++)
               {
                  double v = 0; if (k == 0) { v = p.w * Q * uv(d) * (alpha * gn + kappa * nn / sv.det * sv.sh(i)); } else if (k == 2) { for (int l = 0; l < dim; l++) { v += p.w * Fv(d + dim * l) * p.n(l) * sv.sh(i); } } else { v = p.w * (withZ ? Q : 1.0) * un * uv(d) * sv.sh(i); }
                  want(d * nd + i) += v;
               }
            }
         }
         I->AssembleRHSElementVect(e, *tr, *y); c.closeVec(*y, want, 1e-9, name, fmt("alpha %g kappa %g", alpha, kappa), 1e-12);
      }
      else
      { // boundary data through the boundary element
         FiniteElementSpace *fh = nullptr; for (auto &sp : V) { if (dynamic_cast<H1_FECollection *>(sp.fec.get())) { fh = sp.fes.get(); } } if (!fh) { continue; } const FiniteElement &e = *fh->GetBE(be); int nd = e.GetDof(); IsoparametricTransformation T; m.GetBdrElementTransformation(be, &T); const IntegrationRule &rule = IntRules.Get(e.GetGeomType(), 2 * e.GetOrder()); if (rules) { bn.SetIntRule(NULL); ns.SetIntRule(NULL); }
         bool stress = what == 7; Vector want((stress ? dim : 1) * nd), n, uv(dim), x(dim), sh(nd), Fv(dim * dim); want = 0.; name = stress ? "normal-stress-data-on-boundary-element" : "normal-data-on-boundary-element";
         for (int k = 0; k < rule.GetNPoints(); k++) { const IntegrationPoint &ip = rule.IntPoint(k); T.SetIntPoint(&ip); scaled_normal(T.Jacobian(), n); T.Transform(ip, x); u(x, uv); e.CalcShape(ip, sh); st(x, Fv); for (int i = 0; i < nd; i++) { if (!stress) { want(i) += ip.weight * (uv * n) * sh(i); } else for (int d = 0; d < dim; d++) for (int l = 0; l < dim; l++) { want(d * nd + i) += ip.weight * Fv(d + dim * l) * n(l) * sh(i); } } }
         ElementTransformation *TB = m.GetBdrElementTransformation(be); (stress ? (LinearFormIntegrator &)ns : (LinearFormIntegrator &)bn).AssembleRHSElementVect(e, *TB, *y); c.closeVec(*y, want, 1e-9, name, "", 1e-12);
      }
      c.event("face terms"); c.sig(fmt("%s|%s|%s|a%d k%d", ms.c_str(), name.c_str(), f1.FEColl()->Name(), alpha == 0 ? 0 : alpha == 1 ? 1 : alpha == -1 ? 2 : 3, kappa == 0));
   }
   { // mixed form: domain, interior and marked boundary face terms, and a second form sharing the integrators
      bool h1 = r.b(0.4), by = r.b(0.6); Space tv = space(r, m, r.i(1, om), h1, dim, by), qv = space(r, m, r.i(0, om), r.b(0.3), 1, true); int nb = m.bdr_attributes.Max(); bool dom = r.b(), inner = r.b(0.8); int nbdr = r.i(0, 2); std::vector<Array<int>> mk(3); std::vector<int> marked(3, 0); bool second = r.b(0.5), firstgone = r.b(); int skip = r.i(0, 1);
      std::unique_ptr<MixedBilinearFormDGExtension> B(new MixedBilinearFormDGExtension(tv.fes.get(), qv.fes.get())), B2; int ninner = inner ? r.i(1, 2) : 0; for (int k = 0; k < ninner; k++) { B->AddInteriorFaceIntegrator(new DGNormalFluxIntegrator); } if (dom) { B->AddDomainIntegrator(new VectorDivergenceIntegrator()); }
      for (int k = 0; k < nbdr; k++) { mk[k].SetSize(nb); for (int a = 0; a < nb; a++) { mk[k][a] = r.i(0, 1); } if (r.b(0.6)) { marked[k] = 1; B->AddBdrFaceIntegrator(new DGNormalFluxIntegrator, mk[k]); } else { B->AddBdrFaceIntegrator(new DGNormalFluxIntegrator); } }
      c.check(B->GetFBFI()->Size() == ninner && B->GetBFBFI()->Size() == nbdr && B->GetBFBFI_Marker()->Size() == nbdr, "mixed-form-terms");
      if (second) { B2.reset(new MixedBilinearFormDGExtension(tv.fes.get(), qv.fes.get(), B.get())); }
      auto expect = [&](SpBlock &W)
      {
         W.h = qv.fes->GetVSize(); W.w = tv.fes->GetVSize(); for (int k = 0; k < ninner; k++) for (int f = 0; f < m.GetNumFaces(); f++) { FaceElementTransformations *tr = m.GetInteriorFaceTransformations(f); if (tr) { nf_block(m, *tr, *tv.fes, *qv.fes, W, 1); } }
         for (int k = 0; k < nbdr; k++) for (int b = 0; b < m.GetNBE(); b++) { if (marked[k] && !mk[k][m.GetBdrAttribute(b) - 1]) { continue; } FaceElementTransformations *tr = m.GetBdrFaceTransformations(b); if (tr) { nf_block(m, *tr, *tv.fes, *qv.fes, W, 1); c.event("boundary faces"); } }
         if (dom) for (int e = 0; e < m.GetNE(); e++)
            {
               const FiniteElement &t = *tv.fes->GetFE(e), &p = *qv.fes->GetFE(e); IsoparametricTransformation T; m.GetElementTransformation(e, &T); const IntegrationRule &rule = VectorDivergenceIntegrator::GetRule(t, p, T); DenseMatrix D(p.GetDof(), dim * t.GetDof()); D = 0.; SideEval a, b2;
               for (int k = 0; k < rule.GetNPoints(); k++) { const IntegrationPoint &ip = rule.IntPoint(k); eval_side(t, T, ip, a); eval_side(p, T, ip, b2); for (int i = 0; i < p.GetDof(); i++) for (int d = 0; d < dim; d++) for (int j = 0; j < t.GetDof(); j++) { D(i, d * t.GetDof() + j) += ip.weight * std::fabs(a.det) * b2.sh(i) * a.g(j, d); } } Array<int> rv, cv; qv.fes->GetElementVDofs(e, rv); tv.fes->GetElementVDofs(e, cv); add_block(W, rv, cv, D);
            }
      };
      SpBlock W; expect(W); auto chk = [&](MixedBilinearFormDGExtension &X, const char *w) { X.Assemble(skip); if (r.b()) { X.Finalize(); } close_block(c, X.SpMat(), W, 1e-9, "mixed-normal-flux", w); };
      // the second form borrows its terms, so the first outlives it
      if (second && firstgone) { chk(*B2, "sharing form"); B2.reset(); chk(*B, "owning form"); } else { chk(*B, "owning form"); if (second) { chk(*B2, "sharing form"); B2.reset(); } }
      B.reset(); c.event("mixed forms"); c.sig(fmt("%s|mixed %s%d%d|%d%d|b%d%d|2nd%d", ms.c_str(), h1 ? "H" : "L", by, dom, ninner, skip, nbdr, marked[0] + marked[1], second));
   }
   c.sample(fmt("%s alpha %g kappa %g", ms.c_str(), alpha, kappa));
}
VF_MAIN(400, 8000)
