// Hyper-reduced forms: the weighted sampled points, projected; direct and precomputed evaluation, shared samples, training and files.
#include "common.hpp"
#include "nl_gen.hpp"
#include "iface_gen.hpp"
#include "rom_nonlinearform.hpp"
#include "rom_interfaceform.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
typedef std::map<int, std::vector<double>> Wts;
static void fill_wts(const Array<SampleInfo> &s, int nq, Wts &w) { w.clear(); for (int k = 0; k < s.Size(); k++) { auto &v = w[s[k].el]; v.resize(nq, 0.); v[s[k].qp] += s[k].qw; } }
static Wts all_wts(const std::vector<int> &els, const IntegrationRule &ir) { Wts w; for (int e : els) { for (int q = 0; q < ir.GetNPoints(); q++) { w[e].push_back(ir.IntPoint(q).weight); } } return w; }
// samples: all points with the rule's weights, or an arbitrary list (repeated, unordered, any sign of weight when allowed), possibly empty
static Array<SampleInfo> draw(Rng &r, const std::vector<int> &els, const IntegrationRule &ir, int mode)
{
   Array<SampleInfo> s;
   if (mode == 0) { for (int e : els) { for (int q = 0; q < ir.GetNPoints(); q++) { s.Append(SampleInfo({.el = e, .qp = q, .qw = ir.IntPoint(q).weight})); } } }
   else if (els.size()) { int n = mode == 2 ? r.i(0, 1) : r.i(1, 14), last = r.pick(els); for (int k = 0; k < n; k++) { if (r.b(0.6)) { last = r.pick(els); } s.Append(SampleInfo({.el = last, .qp = r.i(0, ir.GetNPoints() - 1), .qw = r.pick<double>({r.u(0, 2), r.u(0, 0.1), 5.0, -0.4})})); } }
   return s;
}
struct Term { int place = 0; ConvTerm conv; bool dir = false; std::vector<int> marker; const IntegrationRule *ir = nullptr; std::vector<int> els; Wts w; Array<SampleInfo> s; HyperReductionIntegrator *I = nullptr; int idx = 0; const char *name() const { return place == 0 ? "domain" : place == 1 ? "interior-face" : "boundary-face"; } };
static double proj_row(const DenseMatrix &B, int off, const Array<int> &v, int j, const Vector &y) { double s = 0; for (int i = 0; i < v.Size(); i++) { s += B(off + (v[i] < 0 ? -1 - v[i] : v[i]), j) * (v[i] < 0 ? -1 : 1) * y(i); } return s; }
static Vector local(const DenseMatrix &B, int off, const Array<int> &v, const Vector &x) { Vector y(v.Size()); for (int i = 0; i < v.Size(); i++) { double s = 0; int g = off + (v[i] < 0 ? -1 - v[i] : v[i]); for (int j = 0; j < B.Width(); j++) { s += B(g, j) * x(j); } y(i) = v[i] < 0 ? -s : s; } return y; }
static void project(const DenseMatrix &A, int oa, const Array<int> &va, const DenseMatrix &G, const DenseMatrix &B, int ob, const Array<int> &vb, DenseMatrix &J)
{
   for (int j = 0; j < B.Width(); j++)
   {
      Vector t(va.Size()); for (int i = 0; i < va.Size(); i++) { double s = 0; for (int k = 0; k < vb.Size(); k++) { s += G(i, k) * B(ob + vb[k], j); } t(i) = s; }
      for (int i = 0; i < A.Width(); i++) { J(i, j) += proj_row(A, oa, va, i, t); }
   }
}
// residual and derivative of one term at the full-space state u, projected on B
static void term_eval(const Term &t, const Wts &w, FiniteElementSpace &fs, const DenseMatrix &B, int off, const Vector &u, const Fields &F, Vector &y, DenseMatrix *J, double &margin)
{
   Mesh &m = *fs.GetMesh();
   for (auto &x : w)
   {
      Array<int> v, v2; Vector a, b, x1, x2; DenseMatrix G, g[2][2];
      if (t.place == 0)
      {
         fs.GetElementVDofs(x.first, v); u.GetSubVector(v, x1); IsoparametricTransformation T; m.GetElementTransformation(x.first, &T); conv_elem(t.conv, *fs.GetFE(x.first), T, *t.ir, &x.second, x1, a, G);
         for (int j = 0; j < B.Width(); j++) { y(j) += proj_row(B, off, v, j, a); } if (J) { project(B, off, v, G, B, off, v, *J); }
         continue;
      }
      FaceElementTransformations *tr = t.place == 1 ? m.GetInteriorFaceTransformations(x.first) : m.GetBdrFaceTransformations(x.first); std::vector<FP> pts = face_points(*tr, *t.ir), sel; std::vector<double> ws; for (size_t q = 0; q < pts.size(); q++) { if (x.second[q] != 0) { sel.push_back(pts[q]); ws.push_back(x.second[q]); } }
      int e1 = tr->Elem1No, e2 = tr->Elem2No; bool two = t.place == 1; IsoparametricTransformation T1, T2; m.GetElementTransformation(e1, &T1); fs.GetElementVDofs(e1, v); u.GetSubVector(v, x1); if (two) { m.GetElementTransformation(e2, &T2); fs.GetElementVDofs(e2, v2); u.GetSubVector(v2, x2); }
      flux_face(LAXF, sel, *fs.GetFE(e1), T1, two ? fs.GetFE(e2) : nullptr, two ? &T2 : nullptr, x1, x2, F.q, t.dir ? F.u : nullptr, a, b, g, margin, &ws);
      for (int j = 0; j < B.Width(); j++) { y(j) += proj_row(B, off, v, j, a); if (two) { y(j) += proj_row(B, off, v2, j, b); } }
      if (J) { project(B, off, v, g[0][0], B, off, v, *J); if (two) { project(B, off, v, g[0][1], B, off, v2, *J); project(B, off, v2, g[1][0], B, off, v, *J); project(B, off, v2, g[1][1], B, off, v2, *J); } }
   }
}
static bool solved_all() { for (bool b : CAROM::NNLSSolver::log()) { if (!b) { return false; } } return true; }
static CAROM::Matrix snaps(Rng &r, int n, int ns, double mag) { CAROM::Matrix S(n, ns, true); for (int i = 0; i < n; i++) for (int k = 0; k < ns; k++) { S(i, k) = mag * r.u(-1, 1); } return S; }
// what training promises: the sampled sums reproduce the full ones on the training states within the tolerance, with positive weights
static void trained(Ctx &c, bool solved, const std::vector<double> &got, const std::vector<double> &full, double tol, bool l2, const std::string &key, double mag)
{
   if (!solved) { c.event("training systems the stand-in solver left unsolved"); return; } double e = 0, n = 0; bool each = true; for (size_t k = 0; k < full.size(); k++) { e += (got[k] - full[k]) * (got[k] - full[k]); n += full[k] * full[k]; each = each && std::fabs(got[k] - full[k]) <= tol * std::fabs(full[k]) * (1 + 1e-6) + 1e-8 * mag * mag; }
   if (l2) { c.check(std::sqrt(e) <= tol * std::sqrt(n) * (1 + 1e-6) + 1e-8 * mag * mag, key, fmt("distance %.3g of %.3g, tolerance %.1e", std::sqrt(e), std::sqrt(n), tol)); } else { c.check(each, key, fmt("some value farther than %.1e", tol)); }
}
static void form_config(Ctx &c, bool l2) { load_config(c.path("e.yml"), std::string("model_reduction:\n  eqp:\n    criterion: ") + (l2 ? "l2" : "linf") + "\n"); }

static void domain_case(Ctx &c)
{
   Rng &r = c.rng; int dim = c.kase % 8 == 6 ? 3 : 2; std::unique_ptr<NLMesh> M; do { M.reset(new NLMesh(r, dim, 1, dim == 3 ? 2 : 3)); } while (M->m->GetNumGeometries(dim) > 1); Mesh &m = *M->m; double mag = r.pick<double>({1.0, 1.0, 1e-3, 1e2}); Fields F(r, mag);
   std::unique_ptr<FiniteElementSpace> fs(new FiniteElementSpace(&m, M->fec[0].get(), dim, r.b(0.6) ? Ordering::byNODES : Ordering::byVDIM)); int n = fs->GetTrueVSize(), nb = r.i(1, 5), off = r.b(0.3) ? r.i(1, 9) : 0; bool l2 = r.b(); form_config(c, l2);
   DenseMatrix B(n + off + (r.b(0.3) ? r.i(1, 5) : 0), nb); r.fill(B); bool view_case = r.b(0.4);
   std::vector<int> els, ifc; for (int e = 0; e < m.GetNE(); e++) { els.push_back(e); } for (int f = 0; f < m.GetNumFaces(); f++) { if (m.GetInteriorFaceTransformations(f)) { ifc.push_back(f); } } Geometry::Type fg = m.GetBdrElementBaseGeometry(0);
   std::vector<std::unique_ptr<Term>> T; int maxb = m.bdr_attributes.Max(); auto build = [&](ROMNonlinearForm &R, bool describe)
   {
      if (describe)
      {
         int nt = r.i(1, 4);
         for (int k = 0; k < nt; k++)
         {
            std::unique_ptr<Term> t(new Term); t->place = r.i(0, 2); if (t->place == 1 && ifc.empty()) { t->place = 0; } int kind = r.i(0, 2); t->ir = &IntRules.Get(t->place == 0 ? m.GetElementBaseGeometry(0) : fg, r.i(1, t->place == 0 ? 4 : 5));
            if (t->place == 0) { t->conv.Q = F.q; t->conv.c1 = kind != 1; t->conv.c2 = kind == 1; if (kind == 2) { t->conv.a = F.u; } t->els = els; }
            else if (t->place == 1) { t->els = ifc; }
            else { t->dir = r.b(); if (r.b(0.7)) { t->marker.assign(maxb, 0); for (int &x : t->marker) { x = r.b(); } t->marker[m.GetBdrAttribute(r.i(0, m.GetNBE() - 1)) - 1] = 1; } for (int b = 0; b < m.GetNBE(); b++) { if ((t->marker.empty() || t->marker[m.GetBdrAttribute(b) - 1]) && m.GetBdrFaceTransformations(b)) { t->els.push_back(b); } } }
            T.push_back(std::move(t));
         }
      }
      int cnt[3] = {0, 0, 0};
      for (auto &t : T)
      {
         HyperReductionIntegrator *I; if (t->place == 0) { I = t->conv.a ? (HyperReductionIntegrator *)new VectorConvectionTrilinearFormIntegrator(*F.Q, F.U[dim].get()) : t->conv.c1 ? (HyperReductionIntegrator *)new VectorConvectionTrilinearFormIntegrator(*F.Q) : (HyperReductionIntegrator *)new IncompressibleInviscidFluxNLFIntegrator(*F.Q); I->SetIntRule(t->ir); R.AddDomainIntegrator(I); }
         else { I = new DGLaxFriedrichsFluxIntegrator(*F.Q, t->dir ? F.U[dim].get() : NULL, t->ir); if (t->place == 1) { R.AddInteriorFaceIntegrator(I); } else if (t->marker.empty()) { R.AddBdrFaceIntegrator(I); } else { Array<int> mk(maxb); for (int k = 0; k < maxb; k++) { mk[k] = t->marker[k]; } R.AddBdrFaceIntegrator(I, mk); mk = -1; } }
         t->I = I; t->idx = cnt[t->place]++;
      }
   };
   auto type = [](const Term &t) { return t.place == 0 ? IntegratorType::DOMAIN : t.place == 1 ? IntegratorType::INTERIORFACE : IntegratorType::BDRFACE; };
   auto set = [&](ROMNonlinearForm &R, Term &t) { if (t.place == 0) { R.UpdateDomainIntegratorSampling(t.idx, t.s); } else if (t.place == 1) { R.UpdateInteriorFaceIntegratorSampling(t.idx, t.s); } else { R.UpdateBdrFaceIntegratorSampling(t.idx, t.s); } fill_wts(t.s, t.ir->GetNPoints(), t.w); };
   auto share = [&](ROMNonlinearForm &V, ROMNonlinearForm &R) { for (auto &t : T) { EQPElement *e = R.GetEQPForIntegrator(type(*t), t->idx); if (t->place == 0) { V.SetDomainEQPElems(t->idx, e); } else if (t->place == 1) { V.SetInteriorEQPElems(t->idx, e); } else { V.SetBdrEQPElems(t->idx, e); } } };
   std::unique_ptr<ROMNonlinearForm> R(new ROMNonlinearForm(nb, fs.get())), V; build(*R, true); R->SetBasis(B, off); DenseMatrix Bs(n, nb); for (int i = 0; i < n; i++) for (int j = 0; j < nb; j++) { Bs(i, j) = B(off + i, j); } if (r.b(0.5)) { B = 0.; } // the form keeps its own copy
   std::unique_ptr<Mesh> m2; std::unique_ptr<FiniteElementSpace> f2; if (view_case) { m2.reset(new Mesh(m)); f2.reset(new FiniteElementSpace(m2.get(), M->fec[0].get(), dim, fs->GetOrdering())); V.reset(new ROMNonlinearForm(nb, f2.get(), false)); build(*V, false); V->SetBasis(Bs); }
   auto judge = [&](ROMNonlinearForm &G, const std::string &how)
   {
      Vector x(nb), y(nb), want(nb); r.fill(x); x *= mag; r.fill(y); want = 0.; DenseMatrix J(nb); J = 0.; double margin = 1; Vector u(n); for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < nb; j++) { s += Bs(i, j) * x(j); } u(i) = s; } Vector x0(x);
      for (auto &t : T) { term_eval(*t, t->w, *fs, Bs, 0, u, F, want, &J, margin); }
      int ord = r.i(0, 2); DenseMatrix got(nb); for (int k = 0; k < 2; k++) { if (k == (ord == 1)) { G.Mult(x, y); } else { got = (DenseMatrix &)G.GetGradient(x); } }
      c.closeVec(y, want, 1e-9, how + "-residual", "", 1e-2 * mag * mag); if (margin > 1e-5) { c.closeMat(got, J, 1e-9, how + "-gradient", "", 1e-2 * mag); } for (int k = 0; k < nb; k++) { c.check(biteq(x(k), x0(k)), "state-unchanged"); } c.event(how + " evaluations");
   };
   int rounds = r.i(1, 3);
   for (int k = 0; k < rounds; k++)
   {
      int how = r.i(0, 3); std::string mode = how == 0 ? "all-points" : how == 3 ? "trained" : "sampled"; double tol = r.pick<double>({1e-1, 1e-2, 1e-4});
      if (how < 3) { for (auto &t : T) { t->s = draw(r, t->els, *t->ir, how); set(*R, *t); } }
      else
      {
         int ns = r.i(1, 3), rows = n + (r.b(0.3) ? r.i(1, 4) : 0); CAROM::Matrix S = snaps(r, rows, ns, mag); CAROM::NNLSSolver::log().clear(); R->TrainEQP(S, tol);
         for (auto &t : T)
         {
            EQPElement *e = R->GetEQPForIntegrator(type(*t), t->idx); if (!c.check(e, "trained-samples-exist")) { return; } t->s.SetSize(0); bool ok = true; std::set<std::pair<int, int>> seen;
            for (int q = 0; q < e->Size(); q++) { SampleInfo &i = e->GetSample(q)->info; t->s.Append(i); ok = ok && i.qw > 0 && i.qp >= 0 && i.qp < t->ir->GetNPoints() && std::find(t->els.begin(), t->els.end(), i.el) != t->els.end() && seen.insert({i.el, i.qp}).second; }
            if (!c.check(ok, "trained-samples-are-points", t->name())) { return; } fill_wts(t->s, t->ir->GetNPoints(), t->w);
            std::vector<double> got, full; Wts all = all_wts(t->els, *t->ir);
            for (int s = 0; s < ns; s++) { Vector u(n), a(nb), b(nb); for (int i = 0; i < n; i++) { u(i) = S(i, s); } a = 0.; b = 0.; double mg; term_eval(*t, t->w, *fs, Bs, 0, u, F, a, nullptr, mg); term_eval(*t, all, *fs, Bs, 0, u, F, b, nullptr, mg); for (int j = 0; j < nb; j++) { got.push_back(a(j)); full.push_back(b(j)); } }
            trained(c, solved_all(), got, full, tol, l2, std::string("training-tolerance-") + t->name(), mag); c.event("trained terms");
         }
      }
      if (V) { share(*V, *R); } R->SetPrecomputeMode(false); judge(*R, mode); if (V) { V->SetPrecomputeMode(false); judge(*V, mode + "-shared"); }
      R->SetPrecomputeMode(true); R->PrecomputeCoefficients(); c.check(R->PrecomputeMode(), "precompute-mode"); judge(*R, mode + "-precomputed"); if (V) { V->SetPrecomputeMode(true); judge(*V, mode + "-precomputed-shared"); }
      if (r.b(0.4))
      { // through the file, into a form that held other samples
         std::string f = c.path("eqp.h5"); hid_t id = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (auto &t : T) { R->SaveEQPForIntegrator(type(*t), t->idx, id, fmt("%s%d", t->name(), t->idx)); if (t->place == 0 && t->s.Size()) { R->SaveDomainEQPCoords(t->idx, id, fmt("coords%d", t->idx)); } } H5Fclose(id);
         R->SetPrecomputeMode(false); for (auto &t : T) { Array<SampleInfo> keep(t->s), other = draw(r, t->els, *t->ir, 1); t->s = other; set(*R, *t); t->s = keep; fill_wts(t->s, t->ir->GetNPoints(), t->w); }
         id = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); for (auto &t : T) { R->LoadEQPForIntegrator(type(*t), t->idx, id, fmt("%s%d", t->name(), t->idx)); }
         for (auto &t : T) if (t->place == 0 && t->s.Size())
            {
               hid_t g = H5Gopen2(id, fmt("coords%d", t->idx).c_str(), H5P_DEFAULT); DenseMatrix X; hdf5_utils::ReadDataset(g, "coords", X); H5Gclose(g); c.check(X.NumRows() == t->s.Size() && X.NumCols() == 3, "coordinates-size");
               for (int q = 0; q < std::min(X.NumRows(), t->s.Size()); q++) { IsoparametricTransformation Te; m.GetElementTransformation(t->s[q].el, &Te); Vector p(dim); Te.Transform(t->ir->IntPoint(t->s[q].qp), p); for (int d = 0; d < 3; d++) { c.close(X(q, d), d < dim ? p(d) : 0.0, 1.0, 1e-10, "sample-coordinates"); } }
            }
         H5Fclose(id); c.check(H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL) == 0, "file-left-open"); judge(*R, mode + "-reloaded"); if (V) { share(*V, *R); }
      }
      c.sig(fmt("domain|%s|%s|%d|view%d|off%d|%s", M->sig.c_str(), mode.c_str(), (int)T.size(), view_case, off > 0, l2 ? "l2" : "linf"));
   }
   if (r.b(0.25))
   { // misuse is refused
      Term *b = nullptr; for (auto &t : T) { if (t->place == 2 && !t->marker.empty()) { b = t.get(); } } int bad = -1; if (b) { for (int e = 0; e < m.GetNBE(); e++) { if (!b->marker[m.GetBdrAttribute(e) - 1]) { bad = e; } } }
      if (bad >= 0) { Array<SampleInfo> s; s.Append(SampleInfo({.el = bad, .qp = 0, .qw = 1.0})); R->SetPrecomputeMode(false); R->UpdateBdrFaceIntegratorSampling(b->idx, s); int rc = forked([&]() { Vector x(nb), y(nb); x = 1.; R->Mult(x, y); return 0; }); c.check(rc == 1, "sample-off-the-boundary-refused", fmt("rc %d", rc)); c.event("refusals"); }
      Term *d = nullptr; for (auto &t : T) { if (t->place == 0) { d = t.get(); } }
      if (V && d) { Array<SampleInfo> s; int rc = forked([&]() { V->UpdateDomainIntegratorSampling(d->idx, s); return 0; }); c.check(rc == 1, "shared-samples-not-replaced", fmt("rc %d", rc)); rc = forked([&]() { R->SetDomainEQPElems(d->idx, NULL); return 0; }); c.check(rc == 1, "own-samples-not-shared", fmt("rc %d", rc)); c.event("refusals", 2); }
   }
   c.sample(fmt("form on %s, %d terms, %d basis vectors, %d rounds", M->sig.c_str(), (int)T.size(), nb, rounds));
}

struct OpenForm : public ROMInterfaceForm { using ROMInterfaceForm::ROMInterfaceForm; EQPElement *ref(int i, int rp) { return fnfi_ref_sample[rp + i * numRefPorts]; } };
static void interface_case(Ctx &c)
{
   Rng &r = c.rng; bool comp = c.kase % 4 == 1; int dim = c.kase % 16 >= 14 ? 3 : 2; std::unique_ptr<Topo> T; bool mixed; do { T = make_topo(c, r, comp, dim, 4, 2); mixed = false; if (dim == 3) { for (int k = 0; k < T->ms.Size(); k++) { mixed = mixed || T->ms[k]->GetNumGeometries(2) > 1; } } } while (mixed || !T->H->GetNumPorts());
   TopologyHandler &H = *T->H; Array<Mesh *> &ms = T->ms; int N = ms.Size(), nc = H.GetNumComponents(), np = H.GetNumPorts(), nrp = H.GetNumRefPorts(); double mag = r.pick<double>({1.0, 1.0, 1e-3, 1e2}); Fields F(r, mag); bool l2 = r.b(); form_config(c, l2);
   std::vector<std::unique_ptr<FiniteElementCollection>> fec; std::vector<std::unique_ptr<FiniteElementSpace>> own; Array<FiniteElementSpace *> cf(nc), fes(N); std::vector<DenseMatrix> B(nc); std::vector<int> off(nc), nb(nc); int o0 = r.i(1, dim == 3 ? 2 : 3); bool mo = r.b(0.4), h1 = r.b(0.4), nodes = r.b(0.6), offs = r.b(0.3);
   for (int k = 0; k < nc; k++)
   {
      int o = mo ? r.i(1, dim == 3 ? 2 : 3) : o0; fec.emplace_back(h1 ? (FiniteElementCollection *)new H1_FECollection(o, dim) : (FiniteElementCollection *)new L2_FECollection(o, dim)); own.emplace_back(new FiniteElementSpace(H.GetComponentMesh(k), fec.back().get(), dim, nodes ? Ordering::byNODES : Ordering::byVDIM)); cf[k] = own.back().get();
      nb[k] = r.i(1, 4); off[k] = offs ? r.i(0, 7) : 0; B[k].SetSize(cf[k]->GetTrueVSize() + off[k] + (r.b(0.3) ? r.i(1, 5) : 0), nb[k]); r.fill(B[k]);
   }
   for (int k = 0; k < N; k++) { int t = H.GetMeshType(k); own.emplace_back(new FiniteElementSpace(ms[k], fec[t].get(), dim, nodes ? Ordering::byNODES : Ordering::byVDIM)); fes[k] = own.back().get(); }
   OpenForm R(ms, fes, cf, &H); int nt = r.i(1, 2); std::vector<const IntegrationRule *> ir; Geometry::Type fg = dim == 2 ? Geometry::SEGMENT : ms[0]->GetBdrElementBaseGeometry(0);
   for (int k = 0; k < nt; k++) { ir.push_back(&IntRules.Get(fg, r.i(1, 5))); R.AddInterfaceIntegrator(new DGLaxFriedrichsFluxIntegrator(*F.Q, NULL, ir.back())); }
   for (int k = nc - 1; k >= 0; k--) { R.SetBasisAtComponent(k, B[k], off[k]); } R.UpdateBlockOffsets(); Array<int> bo(N + 1); bo[0] = 0; for (int k = 0; k < N; k++) { bo[k + 1] = bo[k] + nb[H.GetMeshType(k)]; } { const Array<int> &g = R.GetBlockOffsets(); bool ok = g.Size() == N + 1; for (int k = 0; ok && k <= N; k++) { ok = g[k] == bo[k]; } if (!c.check(ok, "reduced-block-offsets")) { return; } }
   std::vector<std::vector<Array<SampleInfo>>> sm(nt, std::vector<Array<SampleInfo>>(nrp)); auto range = [&](int rp) { std::vector<int> e; for (int k = 0; k < H.GetRefInterfaceInfos(rp)->Size(); k++) { e.push_back(k); } return e; };
   // one interface face, given weights: residual and derivative with respect to the reduced coordinates of both sides
   auto face = [&](Mesh &m1, Mesh &m2, InterfaceInfo &I, FiniteElementSpace &s1, FiniteElementSpace &s2, const IntegrationRule &rule, const std::vector<double> &w, const std::function<void(const Array<int> &, Vector &, int)> &st, const std::function<void(const Vector *, const DenseMatrix (*)[2], const Array<int> *)> &use, double &margin, const std::function<void(const Vector &, Vector &)> &to2) -> bool
   {
      int e1, e2, d; m1.GetBdrElementAdjacentElement(I.BE1, e1, d); m2.GetBdrElementAdjacentElement(I.BE2, e2, d); std::vector<FP> pts, sel; std::vector<double> ws; if (!interface_points(m1, m2, I.BE1, I.BE2, rule, pts, to2)) { c.fail("interface-geometry", "the paired faces do not coincide"); return false; }
      for (size_t q = 0; q < pts.size(); q++) { if (w[q] != 0) { sel.push_back(pts[q]); ws.push_back(w[q]); } } IsoparametricTransformation T1, T2; m1.GetElementTransformation(e1, &T1); m2.GetElementTransformation(e2, &T2); Array<int> v[2]; s1.GetElementVDofs(e1, v[0]); s2.GetElementVDofs(e2, v[1]); Vector x1, x2, a[2]; st(v[0], x1, 0); st(v[1], x2, 1); DenseMatrix g[2][2];
      flux_face(LAXF, sel, *s1.GetFE(e1), T1, s2.GetFE(e2), &T2, x1, x2, F.q, nullptr, a[0], a[1], g, margin, &ws); use(a, g, v); return true;
   };
   auto judge = [&](const std::string &how) -> bool
   {
      Vector x(bo[N]), y(bo[N]), y0(bo[N]), want; r.fill(x); x *= mag; r.fill(y0); y0 *= mag * mag; y = y0; want = y0; double margin = 1; std::vector<std::vector<DenseMatrix>> J(N, std::vector<DenseMatrix>(N)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { J[i][j].SetSize(bo[i + 1] - bo[i], bo[j + 1] - bo[j]); r.fill(J[i][j]); J[i][j] *= mag; }
      Array2D<SparseMatrix *> S(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { S(i, j) = new SparseMatrix(J[i][j].Height(), J[i][j].Width()); for (int a = 0; a < J[i][j].Height(); a++) for (int b = 0; b < J[i][j].Width(); b++) { S(i, j)->Set(a, b, J[i][j](a, b)); } if (r.b()) { S(i, j)->Finalize(0); } }
      bool ok = true;
      for (int t = 0; t < nt && ok; t++) for (int p = 0; p < np && ok; p++)
         {
            const PortInfo *pi = H.GetPortInfo(p); int id[2] = {pi->Mesh1, pi->Mesh2}, ct[2] = {H.GetMeshType(id[0]), H.GetMeshType(id[1])}; Wts w; fill_wts(sm[t][H.GetPortType(p)], ir[t]->GetNPoints(), w);
            for (auto &q : w) if (ok)
               {
                  ok = face(*ms[id[0]], *ms[id[1]], (*H.GetInterfaceInfos(p))[q.first], *fes[id[0]], *fes[id[1]], *ir[t], q.second, [&](const Array<int> &v, Vector &u, int s) { Vector xs(x.GetData() + bo[id[s]], nb[ct[s]]); u = local(B[ct[s]], off[ct[s]], v, xs); },
                            [&](const Vector *a, const DenseMatrix (*g)[2], const Array<int> *v) { for (int s = 0; s < 2; s++) { for (int j = 0; j < nb[ct[s]]; j++) { want(bo[id[s]] + j) += proj_row(B[ct[s]], off[ct[s]], v[s], j, a[s]); } for (int z = 0; z < 2; z++) { project(B[ct[s]], off[ct[s]], v[s], g[s][z], B[ct[z]], off[ct[z]], v[z], J[id[s]][id[z]]); } } }, margin, nullptr); c.event("interface faces");
               }
         }
      if (ok)
      {
         bool gfirst = r.b(); if (gfirst) { R.InterfaceGetGradient(x, S); } R.InterfaceAddMult(x, y); if (!gfirst) { R.InterfaceGetGradient(x, S); } c.closeVec(y, want, 1e-9, how + "-interface-residual", "", 1e-2 * mag * mag);
         if (margin > 1e-5) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { if (!S(i, j)->Finalized()) { S(i, j)->Finalize(0); } DenseMatrix *D = S(i, j)->ToDenseMatrix(); c.closeMat(*D, J[i][j], 1e-9, how + "-interface-gradient", fmt("block (%d,%d)", i, j), 1e-2 * mag); delete D; }
         c.event(how + " interface evaluations");
      }
      for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { delete S(i, j); } return ok;
   };
   int rounds = r.i(1, 3);
   for (int k = 0; k < rounds; k++)
   {
      int how = r.i(0, 3); std::string mode = how == 0 ? "all-points" : how == 3 ? "trained" : "sampled"; double tol = r.pick<double>({1e-1, 1e-2, 1e-4});
      if (how < 3) { for (int t = 0; t < nt; t++) for (int p = 0; p < nrp; p++) { sm[t][p] = draw(r, range(p), *ir[t], how); R.UpdateInterFaceIntegratorSampling(t, p, sm[t][p]); } }
      else for (int p = 0; p < nrp; p++)
         {
            int c1, c2; H.GetComponentPair(p, c1, c2); int n1 = cf[c1]->GetTrueVSize(), n2 = cf[c2]->GetTrueVSize(), ns1 = r.i(1, 3), ns2 = r.i(1, 3), np2 = r.i(1, 3); CAROM::Matrix S1 = snaps(r, n1 + (r.b(0.2) ? 2 : 0), ns1, mag), S2 = snaps(r, n2 + (r.b(0.2) ? 3 : 0), ns2, mag); Array2D<int> pr(np2, 2); for (int z = 0; z < np2; z++) { pr(z, 0) = r.i(0, ns1 - 1); pr(z, 1) = r.i(0, ns2 - 1); }
            CAROM::NNLSSolver::log().clear(); R.TrainEQPForRefPort(p, S1, S2, pr, tol); Array<InterfaceInfo> &I = *H.GetRefInterfaceInfos(p); Mesh ma(*H.GetComponentMesh(c1)), mb(*H.GetComponentMesh(c2));
            std::function<void(const Vector &, Vector &)> to2; if (T->comp) { auto rc = T->S.ref_conf[p]; to2 = [rc, dim](const Vector &x, Vector &y) { Vector z(x); for (int d = 0; d < dim; d++) { z(d) -= rc[d]; } y = z; if (dim == 2) { double cs = std::cos(rc[3]), sn = std::sin(rc[3]); y(0) = cs * z(0) + sn * z(1); y(1) = -sn * z(0) + cs * z(1); } }; }
            for (int t = 0; t < nt; t++)
            {
               EQPElement *e = R.ref(t, p); if (!c.check(e, "trained-samples-exist")) { return; } sm[t][p].SetSize(0); bool ok = true; for (int q = 0; q < e->Size(); q++) { SampleInfo &i = e->GetSample(q)->info; sm[t][p].Append(i); ok = ok && i.qw > 0 && i.qp >= 0 && i.qp < ir[t]->GetNPoints() && i.el >= 0 && i.el < I.Size(); } if (!c.check(ok, "trained-samples-are-points", "interface")) { return; }
               Wts w[2]; fill_wts(sm[t][p], ir[t]->GetNPoints(), w[0]); w[1] = all_wts(range(p), *ir[t]); std::vector<double> val[2]; bool good = true;
               for (int z = 0; z < np2 && good; z++) for (int s = 0; s < 2 && good; s++)
                  {
                     std::vector<double> a(nb[c1] + nb[c2], 0.); double mg = 1;
                     for (auto &q : w[s]) { good = good && face(ma, mb, I[q.first], *cf[c1], *cf[c2], *ir[t], q.second, [&](const Array<int> &v, Vector &u, int sd) { u.SetSize(v.Size()); for (int i = 0; i < v.Size(); i++) { u(i) = sd ? S2(v[i], pr(z, 1)) : S1(v[i], pr(z, 0)); } },
                           [&](const Vector *y, const DenseMatrix (*)[2], const Array<int> *v) { for (int j = 0; j < nb[c1]; j++) { a[j] += proj_row(B[c1], off[c1], v[0], j, y[0]); } for (int j = 0; j < nb[c2]; j++) { a[nb[c1] + j] += proj_row(B[c2], off[c2], v[1], j, y[1]); } }, mg, to2); }
                     val[s].insert(val[s].end(), a.begin(), a.end());
                  }
               if (!good) { return; } trained(c, solved_all(), val[0], val[1], tol, l2, "training-tolerance-interface", mag); c.event("trained interface terms");
            }
         }
      R.SetPrecomputeMode(false); if (!judge(mode)) { return; } R.PrecomputeCoefficients(); R.SetPrecomputeMode(true); if (!judge(mode + "-precomputed")) { return; }
      bool names = true; std::set<std::array<int, 4>> nm; for (int p = 0; p < nrp; p++) { int a, b, d, e; H.GetRefPortInfo(p, a, b, d, e); names = names && nm.insert({a, b, d, e}).second; }
      if (r.b(0.4) && names)
      {
         std::string f = c.path("eqp.h5"); hid_t id = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); for (int t = 0; t < nt; t++) { R.SaveEQPForIntegrator(t, id, fmt("itf%d", t)); } H5Fclose(id); R.SetPrecomputeMode(false);
         for (int t = 0; t < nt; t++) for (int p = 0; p < nrp; p++) { Array<SampleInfo> o = draw(r, range(p), *ir[t], 1); R.UpdateInterFaceIntegratorSampling(t, p, o); } id = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); for (int t = 0; t < nt; t++) { R.LoadEQPForIntegrator(t, id, fmt("itf%d", t)); } H5Fclose(id); c.check(H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ALL) == 0, "file-left-open"); if (!judge(mode + "-reloaded")) { return; }
      }
      c.sig(fmt("interface|%s|%s|%s%d%s|off%d|%d|%s", T->sig.c_str(), mode.c_str(), h1 ? "H" : "L", o0, mo ? "m" : "", offs, nt, l2 ? "l2" : "linf"));
   }
   c.sample(fmt("interface form on %s, %d terms, %d reference ports, %d rounds", T->sig.c_str(), nt, nrp, rounds));
}
void vf::run_case(Ctx &c) { if (c.kase % 2) { interface_case(c); } else { domain_case(c); } }
VF_MAIN(480, 9000)
