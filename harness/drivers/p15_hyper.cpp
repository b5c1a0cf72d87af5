// Hyper-reduction kernels: one weighted quadrature point at a time, full space and projected, add up to the full integrals they replace.
#include "common.hpp"
#include "nl_gen.hpp"
#include "iface_gen.hpp"
#include "hyperreduction_integ.hpp"
#include "interfaceinteg.hpp"
#include "hdf5_utils.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
static Vector mult(const DenseMatrix &B, const Vector &x) { Vector y(B.Height()); for (int i = 0; i < B.Height(); i++) { double s = 0; for (int j = 0; j < B.Width(); j++) { s += B(i, j) * x(j); } y(i) = s; } return y; }
static void add_t(const DenseMatrix &B, const Vector &r, Vector &y) { for (int j = 0; j < B.Width(); j++) { for (int i = 0; i < B.Height(); i++) { y(j) += B(i, j) * r(i); } } }
static void add_tgt(const DenseMatrix &B, const DenseMatrix &G, const DenseMatrix &C, DenseMatrix &J)
{
   DenseMatrix GC(G.Height(), C.Width()); for (int j = 0; j < C.Width(); j++) for (int i = 0; i < G.Height(); i++) { double s = 0; for (int k = 0; k < C.Height(); k++) { s += G(i, k) * C(k, j); } GC(i, j) = s; }
   for (int j = 0; j < C.Width(); j++) for (int i = 0; i < B.Width(); i++) { double s = 0; for (int k = 0; k < B.Height(); k++) { s += B(k, i) * GC(k, j); } J(i, j) += s; }
}
static DenseMatrix traces(const FiniteElement &fe, ElementTransformation &T, const IntegrationPoint &ip, const DenseMatrix &B, Array<DenseMatrix *> *grads)
{
   SideEval s; eval_side(fe, T, ip, s); int dim = fe.GetDim(), nd = fe.GetDof(); DenseMatrix S(dim, B.Width()); S = 0.;
   for (int k = 0; k < B.Width(); k++)
   {
      DenseMatrix *g = grads ? new DenseMatrix(dim) : nullptr; if (g) { *g = 0.; }
      for (int d = 0; d < dim; d++) for (int i = 0; i < nd; i++) { S(d, k) += B(d * nd + i, k) * s.sh(i); if (g) { for (int l = 0; l < dim; l++) { (*g)(d, l) += B(d * nd + i, k) * s.g(i, l); } } }
      if (grads) { grads->Append(g); }
   }
   return S;
}
static double pick_w(Rng &r, double w) { return r.pick<double>({w, w, 1.0, 0.0, 2.5 * w, -0.3, 40.0}); }
static bool finite_all(const DenseMatrix &A) { for (int i = 0; i < A.Height() * A.Width(); i++) { if (!std::isfinite(A.GetData()[i])) { return false; } } return true; }

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; int dim = c.kase % 4 == 3 ? 3 : 2; auto T = make_topo(c, r, c.kase % 8 == 6, dim, 4, 2, true); TopologyHandler &H = *T->H; Array<Mesh *> &ms = T->ms; double mag = r.pick<double>({1.0, 1.0, 1.0, 1e-4, 1e3, 1e6}); Fields F(r, mag);
   const std::vector<int> *ty = T->comp ? &T->S.type : nullptr; auto S = make_spaces(r, ms, dim, dim, T->max_order(r), ty);
   ConvTerm conv; conv.c1 = 1; conv.c2 = 0; conv.Q = F.q; ConvTerm inv; inv.c1 = 0; inv.c2 = 1; inv.Q = F.q; ConvTerm pre = conv; pre.a = F.u;
   VectorConvectionTrilinearFormIntegrator I0(*F.Q), I2(*F.Q, F.U[dim].get()); IncompressibleInviscidFluxNLFIntegrator I1(*F.Q); VectorConvectionTrilinearFormIntegrator I3; IncompressibleInviscidFluxNLFIntegrator I4; ConvTerm conv1 = conv, inv1 = inv; conv1.Q = inv1.Q = nullptr; // without a coefficient
   HyperReductionIntegrator *DI[5] = {&I0, &I1, &I2, &I3, &I4}; ConvTerm DT[5] = {conv, inv, pre, conv1, inv1}; const char *DN[5] = {"convection", "inviscid-flux", "convection-by-field", "convection", "inviscid-flux"};
   DGLaxFriedrichsFluxIntegrator L0(*F.Q), L1(*F.Q, F.U[dim].get()); int nops = c.tier == "thorough" ? 60 : 30; std::unique_ptr<Vector> y(new Vector), y2(new Vector); std::unique_ptr<DenseMatrix> A(new DenseMatrix);
   for (int op = 0; op < nops; op++)
   {
      int what = r.i(0, 3), kind = r.i(0, 3); bool grad = r.b(), fast = r.b(); std::string where = what == 0 ? "element" : what == 1 ? "boundary" : what == 2 ? "interior" : "interface", name; int nb = r.b(0.05) ? r.i(7, 40) : r.i(1, 6); if (r.b(0.5)) { y.reset(new Vector(r.i(1, 60))); y2.reset(new Vector(r.i(1, 30))); } if (r.b(0.5)) { A.reset(new DenseMatrix(r.i(1, 9), r.i(1, 9))); }
      int mi = r.i(0, ms.Size() - 1); Mesh &m = *ms[mi]; FiniteElementSpace &fs = *S->fes[mi]; const double ext = std::pow(extent(*ms[mi]), dim - 1);
      if (what == 0)
      {
         int e = r.i(0, m.GetNE() - 1), k = r.i(0, 4); const FiniteElement &fe = *fs.GetFE(e); IsoparametricTransformation Te, To; m.GetElementTransformation(e, &Te); m.GetElementTransformation(e, &To); HyperReductionIntegrator &I = *DI[k]; name = std::string(DN[k]) + "-element";
         const IntegrationRule &rule = IntRules.Get(fe.GetGeomType(), rule_order(r, 6, dim)); I.SetIntRule(&rule); int q = r.i(0, rule.GetNPoints() - 1), n = dim * fe.GetDof(); double iw = pick_w(r, rule.IntPoint(q).weight); std::vector<double> wts(rule.GetNPoints(), 0.); wts[q] = iw; Vector want; DenseMatrix G; if (r.b(0.7)) { const IntegrationPoint &was = rule.IntPoint(r.i(0, rule.GetNPoints() - 1)); Te.SetIntPoint(&was); Te.Weight(); }
         if (!fast)
         {
            Vector x(n); r.fill(x); x *= mag; conv_elem(DT[k], fe, To, rule, &wts, x, want, G);
            if (!grad) { I.AssembleQuadratureVector(fe, Te, rule.IntPoint(q), iw, x, *y); c.closeVec(*y, want, 1e-9, name + "-point-residual", "", 1e-4 * ext * mag * mag); } else { I.AssembleQuadratureGrad(fe, Te, rule.IntPoint(q), iw, x, *A); c.closeMat(*A, G, 1e-9, name + "-point-gradient", "", 1e-4 * ext * mag); }
         }
         else
         {
            DenseMatrix B(n, nb); r.fill(B); Vector xr(nb); r.fill(xr); xr *= mag; Vector x = mult(B, xr); conv_elem(DT[k], fe, To, rule, &wts, x, want, G); EQPSample sm(SampleInfo({.el = e, .qp = q, .qw = iw})); sm.shape1 = new DenseMatrix(traces(fe, To, rule.IntPoint(q), B, &sm.dshape1));
            if (!grad) { Vector got(nb), ex(nb); r.fill(got); got *= mag * mag; ex = got; add_t(B, want, ex); I.AddAssembleVector_Fast(sm, Te, xr, got); c.closeVec(got, ex, 1e-9, name + "-fast-residual", "", 1e-4 * ext * mag * mag); }
            else { DenseMatrix got(nb), ex; r.fill(got); got *= mag; ex = got; add_tgt(B, G, B, ex); I.AddAssembleGrad_Fast(sm, Te, xr, got); c.closeMat(got, ex, 1e-9, name + "-fast-gradient", "", 1e-4 * ext * mag); }
         }
      }
      else if (what < 3)
      {
         bool bdr = what == 1; FaceElementTransformations *tr = nullptr; if (bdr) { tr = m.GetBdrFaceTransformations(r.i(0, m.GetNBE() - 1)); } else { for (int z = 0; z < 20 && !tr; z++) { tr = m.GetInteriorFaceTransformations(r.i(0, m.GetNumFaces() - 1)); } } if (!tr) { continue; }
         bool dir = bdr && r.b(); DGLaxFriedrichsFluxIntegrator &I = dir || (!bdr && r.b(0.3)) ? L1 : L0; name = std::string("lax-friedrichs-") + where + (dir ? "-dirichlet" : ""); const FiniteElement &e1 = *fs.GetFE(tr->Elem1No), &e2 = bdr ? e1 : *fs.GetFE(tr->Elem2No);
         const IntegrationRule &rule = IntRules.Get(tr->GetGeometryType(), rule_order(r, 6, dim)); I.SetIntRule(&rule); int q = r.i(0, rule.GetNPoints() - 1), n1 = dim * e1.GetDof(), n2 = bdr ? 0 : dim * e2.GetDof(); double iw = pick_w(r, rule.IntPoint(q).weight), margin = 1; std::vector<double> wts(rule.GetNPoints(), 0.); wts[q] = iw;
         std::vector<FP> pts = face_points(*tr, rule); IsoparametricTransformation T1, T2; m.GetElementTransformation(tr->Elem1No, &T1); if (!bdr) { m.GetElementTransformation(tr->Elem2No, &T2); }
         DenseMatrix B(n1 + n2, nb); r.fill(B); Vector xr(nb); r.fill(xr); xr *= mag; if (r.b(0.1)) { xr = 0.; } Vector x = mult(B, xr); if (!fast && r.b(0.7)) { r.fill(x); x *= mag; } Vector x1(n1), x2(n2); for (int i = 0; i < n1; i++) { x1(i) = x(i); } for (int i = 0; i < n2; i++) { x2(i) = x(n1 + i); }
         Vector a[2]; DenseMatrix g[2][2]; std::vector<FP> one(1, pts[q]); std::vector<double> w1(1, iw); flux_face(LAXF, one, e1, T1, bdr ? nullptr : &e2, bdr ? nullptr : &T2, x1, x2, F.q, dir ? F.u : nullptr, a[0], a[1], g, margin, &w1);
         Vector want(n1 + n2); DenseMatrix G(n1 + n2); G = 0.; for (int s = 0; s < (bdr ? 1 : 2); s++) { for (int i = 0; i < a[s].Size(); i++) { want(s * n1 + i) = a[s](i); } for (int t = 0; t < (bdr ? 1 : 2); t++) { G.CopyMN(g[s][t], s * n1, t * n1); } }
         if (!fast)
         {
            if (!grad) { I.AssembleQuadratureVector(e1, e2, *tr, rule.IntPoint(q), iw, x, *y); c.closeVec(*y, want, 1e-9, name + "-point-residual", "", 1e-4 * ext * mag * mag); } else { I.AssembleQuadratureGrad(e1, e2, *tr, rule.IntPoint(q), iw, x, *A); if (margin > 1e-5) { c.closeMat(*A, G, 1e-9, name + "-point-gradient", "", 1e-4 * ext * mag); } }
         }
         else
         {
            DenseMatrix B1(n1, nb), B2(n2, nb); B1.CopyMN(B, n1, nb, 0, 0); if (n2) { B2.CopyMN(B, n2, nb, n1, 0); } EQPSample sm(SampleInfo({.el = 0, .qp = q, .qw = iw})); sm.shape1 = new DenseMatrix(traces(e1, T1, pts[q].ip1, B1, nullptr)); if (!bdr) { sm.shape2 = new DenseMatrix(traces(e2, T2, pts[q].ip2, B2, nullptr)); }
            if (!grad) { Vector got(nb), ex(nb); r.fill(got); got *= mag * mag; ex = got; add_t(B, want, ex); I.AddAssembleVector_Fast(sm, *tr, xr, got); c.closeVec(got, ex, 1e-9, name + "-fast-residual", "", 1e-4 * ext * mag * mag); }
            else { DenseMatrix got(nb), ex; r.fill(got); got *= mag; ex = got; add_tgt(B, G, B, ex); I.AddAssembleGrad_Fast(sm, *tr, xr, got); if (margin > 1e-5) { c.closeMat(got, ex, 1e-9, name + "-fast-gradient", "", 1e-4 * ext * mag); } else { c.check(finite_all(got), name + "-fast-gradient-finite"); } }
         }
      }
      else
      {
         if (!H.GetNumPorts()) { continue; } int p = r.i(0, H.GetNumPorts() - 1); const PortInfo *pi = H.GetPortInfo(p); Array<InterfaceInfo> &II = *H.GetInterfaceInfos(p); if (!II.Size()) { continue; } InterfaceInfo &inf = II[r.i(0, II.Size() - 1)]; Mesh &m1 = *ms[pi->Mesh1], &m2 = *ms[pi->Mesh2];
         FaceElementTransformations *t1 = NULL, *t2 = NULL; int g1 = m1.GetBdrElementBaseGeometry(inf.BE1); const IntegrationRule &rule = IntRules.Get((Geometry::Type)g1, rule_order(r, 6, dim)); std::vector<FP> pts; if (!interface_points(m1, m2, inf.BE1, inf.BE2, rule, pts)) { c.fail("interface-geometry", "the paired faces do not coincide"); return; }
         int k1, k2, d; m1.GetBdrElementAdjacentElement(inf.BE1, k1, d); m2.GetBdrElementAdjacentElement(inf.BE2, k2, d); const FiniteElement &e1 = *S->fes[pi->Mesh1]->GetFE(k1), &e2 = *S->fes[pi->Mesh2]->GetFE(k2); int n1 = dim * e1.GetDof(), n2 = dim * e2.GetDof(), nb2 = r.b(0.05) ? r.i(7, 40) : r.i(1, 6);
         int q = r.i(0, rule.GetNPoints() - 1); double iw = pick_w(r, rule.IntPoint(q).weight), margin = 1; DGLaxFriedrichsFluxIntegrator &I = r.b(0.2) ? L1 : L0; I.SetIntRule(&rule); name = "lax-friedrichs-interface"; IsoparametricTransformation T1, T2; m1.GetElementTransformation(k1, &T1); m2.GetElementTransformation(k2, &T2);
         DenseMatrix B1(n1, nb), B2(n2, nb2); r.fill(B1); r.fill(B2); Vector r1(nb), r2(nb2); r.fill(r1); r.fill(r2); r1 *= mag; r2 *= mag; if (r.b(0.1)) { r1 = 0.; r2 = 0.; } Vector x1 = mult(B1, r1), x2 = mult(B2, r2), a[2]; DenseMatrix g[2][2]; std::vector<FP> one(1, pts[q]); std::vector<double> w1(1, iw);
         flux_face(LAXF, one, e1, T1, &e2, &T2, x1, x2, F.q, nullptr, a[0], a[1], g, margin, &w1); H.GetInterfaceTransformations(&m1, &m2, &inf, t1, t2);
         if (!fast)
         {
            if (!grad) { I.AssembleQuadratureVector(e1, e2, *t1, *t2, rule.IntPoint(q), iw, x1, x2, *y, *y2); c.closeVec(*y, a[0], 1e-9, name + "-point-residual", "side 1", 1e-4 * ext * mag * mag); c.closeVec(*y2, a[1], 1e-9, name + "-point-residual", "side 2", 1e-4 * ext * mag * mag); }
            else { Array2D<DenseMatrix *> em(2, 2); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { em(i, j) = new DenseMatrix(r.i(1, 4), r.i(1, 4)); } I.AssembleQuadratureGrad(e1, e2, *t1, *t2, rule.IntPoint(q), iw, x1, x2, em);
               for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { if (margin > 1e-5) { c.closeMat(*em(i, j), g[i][j], 1e-9, name + "-point-gradient", fmt("%d%d", i, j), 1e-4 * ext * mag); } delete em(i, j); } }
         }
         else
         {
            EQPSample sm(SampleInfo({.el = 0, .qp = q, .qw = iw})); sm.shape1 = new DenseMatrix(traces(e1, T1, pts[q].ip1, B1, nullptr)); sm.shape2 = new DenseMatrix(traces(e2, T2, pts[q].ip2, B2, nullptr)); const DenseMatrix *BB[2] = {&B1, &B2}; int nn[2] = {nb, nb2};
            if (!grad) { Vector g1v(nb), g2v(nb2), e1v, e2v; r.fill(g1v); r.fill(g2v); g1v *= mag * mag; g2v *= mag * mag; e1v = g1v; e2v = g2v; add_t(B1, a[0], e1v); add_t(B2, a[1], e2v); I.AddAssembleVector_Fast(sm, *t1, *t2, r1, r2, g1v, g2v); c.closeVec(g1v, e1v, 1e-9, name + "-fast-residual", "side 1", 1e-4 * ext * mag * mag); c.closeVec(g2v, e2v, 1e-9, name + "-fast-residual", "side 2", 1e-4 * ext * mag * mag); }
            else
            {
               Array2D<SparseMatrix *> J(2, 2); DenseMatrix ex[2][2];
               for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { J(i, j) = new SparseMatrix(nn[i], nn[j]); ex[i][j].SetSize(nn[i], nn[j]); r.fill(ex[i][j]); ex[i][j] *= mag; for (int u = 0; u < nn[i]; u++) for (int v = 0; v < nn[j]; v++) { J(i, j)->Set(u, v, ex[i][j](u, v)); } if (r.b()) { J(i, j)->Finalize(0); } add_tgt(*BB[i], g[i][j], *BB[j], ex[i][j]); }
               I.AddAssembleGrad_Fast(sm, *t1, *t2, r1, r2, J);
               for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { if (!J(i, j)->Finalized()) { J(i, j)->Finalize(0); } DenseMatrix *D = J(i, j)->ToDenseMatrix(); if (margin > 1e-5) { c.closeMat(*D, ex[i][j], 1e-9, name + "-fast-gradient", fmt("%d%d", i, j), 1e-4 * ext * mag); } delete D; delete J(i, j); }
            }
         }
      }
      c.event((where + (fast ? " fast " : " point ") + (grad ? "gradients" : "residuals"))); c.sig(fmt("%s|%s|%s|%s%s", T->sig.c_str(), S->sig.c_str(), name.c_str(), fast ? "fast" : "point", grad ? "-gradient" : ""));
   }
   { // the points of a rule with the rule's own weights add up to the full integral; samples survive the file
      const double ext = std::pow(extent(*ms[0]), dim - 1);
      int e = r.i(0, ms[0]->GetNE() - 1), k = r.i(0, 4); const FiniteElement &fe = *S->fes[0]->GetFE(e); IsoparametricTransformation Te; ms[0]->GetElementTransformation(e, &Te); HyperReductionIntegrator &I = *DI[k]; const IntegrationRule &rule = IntRules.Get(fe.GetGeomType(), rule_order(r, 6, dim)); I.SetIntRule(&rule);
      Vector x(dim * fe.GetDof()), full, sum(dim * fe.GetDof()), one; r.fill(x); x *= mag; sum = 0.; I.AssembleElementVector(fe, Te, x, full); Array<SampleInfo> si; for (int q = 0; q < rule.GetNPoints(); q++) { si.Append(SampleInfo({.el = e, .qp = q, .qw = rule.IntPoint(q).weight})); }
      if (r.b(0.1)) { si.SetSize(0); } EQPElement el(si); IntegratorType ty2 = r.pick<IntegratorType>({IntegratorType::DOMAIN, IntegratorType::INTERIORFACE, IntegratorType::BDRFACE, IntegratorType::INTERFACE}); std::string f = c.path("eqp.h5");
      hid_t id = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); Array<SampleInfo> other; for (int z = r.i(0, 4); z > 0; z--) { other.Append(SampleInfo({.el = r.i(0, 99), .qp = r.i(0, 9), .qw = r.u(0, 1)})); } EQPElement el2(other); el2.Save(id, "other", ty2); el.Save(id, "main", ty2); H5Fclose(id);
      id = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (r.b(0.3)) { other.SetSize(0); while (other.Size() < si.Size()) { other.Append(SampleInfo({.el = r.i(0, 99), .qp = r.i(0, 9), .qw = r.u(0, 1)})); } }
      EQPElement back(r.b(0.6) ? other : Array<SampleInfo>()); bool held = r.b(); if (held) { for (int q = 0; q < back.Size(); q++) { EQPSample &z = *back.GetSample(q); z.shape1 = new DenseMatrix(dim, 2); z.dshape1.Append(new DenseMatrix(dim)); if (r.b()) { z.shape2 = new DenseMatrix(dim, 2); z.dshape2.Append(new DenseMatrix(dim)); } } } back.Load(id, "main", ty2);
      if (held) { bool none = true; for (int q = 0; q < back.Size(); q++) { EQPSample &z = *back.GetSample(q); none = none && !z.shape1 && !z.shape2 && !z.dshape1.Size() && !z.dshape2.Size(); } c.check(none, "coefficients-of-replaced-points-kept"); } H5Fclose(id); c.check(H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL) == 0, "samples-file-left-open");
      if (c.check(back.Size() == si.Size(), "sample-count")) { for (int q = 0; q < si.Size(); q++) { SampleInfo &b = back.GetSample(q)->info; c.check(b.el == si[q].el && b.qp == si[q].qp && biteq(b.qw, si[q].qw), "sample-roundtrip"); I.AssembleQuadratureVector(fe, Te, rule.IntPoint(b.qp), b.qw, x, one); sum += one; } if (si.Size()) { c.closeVec(sum, full, 1e-11, "points-add-up", DN[k], 1e-4 * ext * mag * mag); } }
      c.event("sample files");
   }
   c.sample(fmt("%s, space %s, %d operations", T->sig.c_str(), S->sig.c_str(), nops));
}
VF_MAIN(1200, 20000)
