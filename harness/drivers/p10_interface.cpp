// Both sides of every interface see the same physical points, in the same order, with one normal pointing from side 1 to side 2.
#include "common.hpp"
#include "topo_gen.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
// the direction from a face point into its element: the image of the direction towards the reference centre
static Vector &inward(FaceElementTransformations *t, const IntegrationPoint &e, Vector &d)
{
   const IntegrationPoint &m = Geometries.GetCenter(t->Elem1->GetGeometryType()); int dim = d.Size(); Vector v(dim); double a[3] = {m.x - e.x, m.y - e.y, m.z - e.z}; for (int k = 0; k < dim; k++) { v(k) = a[k]; }
   t->Elem1->SetIntPoint(&e); t->Elem1->Jacobian().Mult(v, d); return d;
}
// off2: maps points of side 2 into the frame of side 1
static void watch(Ctx &c, TopologyHandler &H, Mesh *m1, Mesh *m2, Array<InterfaceInfo> *I, const std::function<void(Vector &)> &off2, const char *what, double &area)
{
   int dim = m1->Dimension();
   for (int k = 0; k < I->Size(); k++)
   {
      FaceElementTransformations *t1 = NULL, *t2 = NULL; H.GetInterfaceTransformations(m1, m2, &(*I)[k], t1, t2);
      if (!c.check(t1 && t2, std::string(what) + "/transformations-exist")) { return; }
      c.check(t1->Elem1No >= 0 && t2->Elem1No >= 0 && t1->Elem2No < 0 && t2->Elem2No < 0, std::string(what) + "/one-element-per-side");
      { const IntegrationRule &ar = IntRules.Get(t1->GetGeometryType(), 9); Vector w(dim); for (int q = 0; q < ar.GetNPoints(); q++) { t1->SetAllIntPoints(&ar.IntPoint(q)); CalcOrtho(t1->Jacobian(), w); area += ar.IntPoint(q).weight * w.Norml2(); } }
      const IntegrationRule &ir = IntRules.Get(t1->GetGeometryType(), c.rng.i(1, 5)); Vector x1(dim), x2(dim), n(dim), ce(dim), n2(dim);
      for (int q = 0; q < ir.GetNPoints(); q++)
      {
         const IntegrationPoint &ip = ir.IntPoint(q); t1->SetAllIntPoints(&ip); t2->SetAllIntPoints(&ip);
         const IntegrationPoint &e1 = t1->GetElement1IntPoint(), &e2 = t2->GetElement1IntPoint();
         t1->Elem1->Transform(e1, x1); t2->Elem1->Transform(e2, x2); Vector x0(x2); if (off2) { off2(x2); } c.event("interface quadrature points");
         double h = std::pow(std::fabs(t1->Elem1->Weight()), 1.0 / dim) + 1e-3; Vector d(x1); d -= x2; 
         if (!c.check(d.Normlinf() < 1e-9 * std::max(1.0, h), std::string(what) + "/points-coincide", fmt("pair %d point %d: gap %g", k, q, d.Normlinf()))) { return; }
         CalcOrtho(t1->Jacobian(), n);
         { DenseMatrix J(dim, dim - 1); t1->Loc1.Transf.SetIntPoint(&ip); Mult(t1->Elem1->Jacobian(), t1->Loc1.Transf.Jacobian(), J); CalcOrtho(J, n2); double e1 = 0, e2 = 0; for (int k2 = 0; k2 < dim; k2++) { e1 = std::max(e1, std::fabs(n(k2) - n2(k2))); e2 = std::max(e2, std::fabs(n(k2) + n2(k2))); }
           c.check(std::min(e1, e2) < 1e-9 * std::max(1e-3, n2.Norml2()), std::string(what) + "/normal-and-measure-at-the-point", fmt("pair %d point %d: off by %g of %g (orientation %d)", k, q, std::min(e1, e2), n2.Norml2(), (*I)[k].Inf1 % 64)); } c.check(inward(t1, e1, d) * n < 0, std::string(what) + "/normal-leaves-side-1");
         if (off2)
         {  // direction seen from side 1: differences of mapped points
            inward(t2, e2, d); Vector y(x0); y += d; off2(y); Vector z(x0); off2(z); y -= z; d = y;
         }
         else { inward(t2, e2, d); }
         c.check(d * n > 0, std::string(what) + "/normal-enters-side-2");
      }
   }
}
void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; double area = 0;
   if (c.kase % 2 == 0)
   {
      SubSpec s; s.dim = c.kase % 8 >= 5 || c.kase % 8 == 2 ? 3 : 2; auto pm = parent_mesh(r, s, 5, 3, true); load_config(c.path("t.yml"), "mesh:\n  uniform_refinement: 0\n");
      SubMeshTopologyHandler H(pm.get()); double want = 0; Array<Mesh *> ms; TopologyData td; H.ExportInfo(ms, td);
      for (int p = 0; p < H.GetNumPorts(); p++) { const PortInfo *q = H.GetPortInfo(p); watch(c, H, ms[q->Mesh1], ms[q->Mesh2], H.GetInterfaceInfos(p), nullptr, "decomposed", area); }
      for (int f = 0; f < pm->GetNumFaces(); f++)
      { // total interface measure, from the parent
         int a, b; pm->GetFaceElements(f, &a, &b); if (b < 0 || pm->GetAttribute(a) == pm->GetAttribute(b)) { continue; } ElementTransformation *t = pm->GetFaceTransformation(f); const IntegrationRule &ir = IntRules.Get(t->GetGeometryType(), 9); for (int q = 0; q < ir.GetNPoints(); q++) { t->SetIntPoint(&ir.IntPoint(q)); want += ir.IntPoint(q).weight * t->Weight(); } }
      c.close(area, want, std::max(want, 1e-3), 1e-9, "interface-measure");
      c.sig(fmt("sub|dim%d|%s|order%d|affine%d|%s|n%d|shuffle%d", s.dim, s.shape(), s.order, s.affine, s.part.c_str(), s.numSub, s.shuffle)); c.sample(fmt("decomposed dim %d %s order %d: measure %.4g", s.dim, s.shape(), s.order, area));
   }
   else
   {
      int dim = c.kase % 8 == 3 || c.kase % 8 == 7 ? 3 : 2; CompSystem S = comp_system(c, r, dim, true, 3, 3, true); load_config(c.path("t.yml"), write_system(c, r, S, "", r.i(0, 1), false)); ComponentTopologyHandler H; Array<Mesh *> ms; TopologyData td; H.ExportInfo(ms, td);
      for (int p = 0; p < H.GetNumPorts(); p++) { const PortInfo *q = H.GetPortInfo(p); watch(c, H, ms[q->Mesh1], ms[q->Mesh2], H.GetInterfaceInfos(p), nullptr, "component", area); }
      c.close(area, (double)S.ports.size() * std::pow(S.L, dim - 1), std::max(1.0, area), dim == 3 && S.order > 1 ? 1e-5 : 1e-9, "port-measure");
      for (int k = 0; k < H.GetNumRefPorts(); k++)
      {
         int c1, c2; H.GetComponentPair(k, c1, c2); Mesh *a = H.GetComponentMesh(c1); std::unique_ptr<Mesh> cp; Mesh *b = H.GetComponentMesh(c2); if (c1 == c2) { cp.reset(new Mesh(*a)); b = cp.get(); } auto &t = S.ref_conf[k]; double dump = 0;
         watch(c, H, a, b, H.GetRefInterfaceInfos(k), [&](Vector &x) { if (dim == 2) { double cs = std::cos(t[3]), sn = std::sin(t[3]), u = cs * x(0) - sn * x(1) + t[0], v = sn * x(0) + cs * x(1) + t[1]; x(0) = u; x(1) = v; } else { for (int d = 0; d < 3; d++) { x(d) += t[d]; } } }, "reference", dump);
      }
      int rc = 1; if (r.b(0.1)) { InterfaceInfo i0{0, 0, 0, 0}; FaceElementTransformations *u, *v; rc = forked([&]() { H.GetInterfaceTransformations(ms[0], ms[0], &i0, u, v); return 0; }); c.check(rc == 1, "interface-to-itself-stops", fmt("outcome %d", rc)); c.event("self interfaces"); }
      c.sig(fmt("comp|dim%d|%s|order%d|rot%d|n%d|comps%d|refs%d", dim, S.shape(), S.order, S.rotated, S.n, (int)S.names.size(), std::min(9, (int)S.ref_names.size()))); c.sample(fmt("components dim %d: %d ports", dim, (int)S.ports.size()));
   }
}
VF_MAIN(1600, 32000)
