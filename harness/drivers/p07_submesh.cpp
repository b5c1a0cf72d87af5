// Decomposition of a mesh into subdomains: partition, exactly-once interfaces, boundary attributes, transfer back to the parent.
#include "common.hpp"
#include "topo_gen.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
typedef std::vector<double> VD;
static VD bdr_centre(Mesh *m, int be) { Array<int> v; m->GetBdrElementVertices(be, v); VD c(m->Dimension(), 0.0); for (int k = 0; k < v.Size(); k++) for (int d = 0; d < m->Dimension(); d++) { c[d] += m->GetVertex(v[k])[d] / v.Size(); } return c; }
static VD face_centre(Mesh *m, int f) { Array<int> v; m->GetFaceVertices(f, v); VD c(m->Dimension(), 0.0); for (int k = 0; k < v.Size(); k++) for (int d = 0; d < m->Dimension(); d++) { c[d] += m->GetVertex(v[k])[d] / v.Size(); } return c; }
static double dist(const VD &a, const VD &b) { double s = 0; for (size_t k = 0; k < a.size(); k++) { s = std::max(s, std::fabs(a[k] - b[k])); } return s; }

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; SubSpec s; s.dim = c.kase % 4 == 3 ? 3 : 2; auto pm = parent_mesh(r, s, 5, 3, true);
   bool nodd = r.b(0.15), fromfile = s.order == 1 && r.b(0.2); int ref = s.dim == 2 && pm->GetNE() < 20 && r.b(0.2) ? 1 : 0;
   std::string mf = c.path("parent.mesh"); if (fromfile) { std::ofstream o(mf); o.precision(17); pm->Print(o); }
   load_config(c.path("t.yml"), fmt("mesh:\n  filename: %s\n  uniform_refinement: %d\ndomain-decomposition:\n  type: %s\n", mf.c_str(), ref, nodd ? "none" : "interior_penalty"));
   std::unique_ptr<SubMeshTopologyHandler> H; if (fromfile) { H.reset(new SubMeshTopologyHandler()); } else { H.reset(new SubMeshTopologyHandler(pm.get())); }
   Mesh *P = H->GetGlobalMesh(); if (!fromfile) { c.check(P == pm.get(), "global-mesh"); }
   int dim = s.dim, N = nodd ? 1 : s.numSub, ne = P->GetNE();
   c.check(H->GetNumSubdomains() == N, "number-of-subdomains", fmt("%d expected %d", H->GetNumSubdomains(), N)); c.check(H->GetNumComponents() == N, "number-of-components");
   Array<Mesh *> ms; TopologyData td; H->ExportInfo(ms, td); c.check(ms.Size() == N && td.numSub == N && td.dim == dim, "export");
   if (ms.Size() != N) { return; }
   // ---- elements: each parent element in exactly one subdomain, the one its attribute says, with the same geometry
   std::vector<int> owner(ne, -1), local(ne, -1); 
   for (int k = 0; k < N; k++)
   {
      c.check(H->GetMesh(k) == ms[k], "export-mesh-order"); c.check(H->GetMeshType(k) == k && H->GetComponentIndexOfMesh(k) == 0, "mesh-type");
      SubMesh *sm = dynamic_cast<SubMesh *>(ms[k]); if (!c.check(sm != NULL, "is-submesh")) { return; }
      const Array<int> &pe = sm->GetParentElementIDMap(); c.check(pe.Size() == sm->GetNE(), "element-map-size");
      for (int e = 0; e < sm->GetNE(); e++)
      {
         int q = pe[e]; c.event("subdomain elements"); if (!c.check(q >= 0 && q < ne && owner[q] < 0, "element-in-one-subdomain", fmt("parent element %d", q))) { return; } owner[q] = k; local[q] = e;
         if (!nodd) { c.check(P->GetAttribute(q) == k + 1, "element-attribute"); }
         ElementTransformation *t = P->GetElementTransformation(q); IntegrationPoint ip; ip.Set3(0.3, 0.21, 0.17); Vector x(dim), y(dim); t->Transform(ip, x); ElementTransformation *u = sm->GetElementTransformation(e); u->Transform(ip, y); y -= x; c.check(y.Normlinf() < 1e-12, "element-geometry", fmt("element %d differs by %g", q, y.Normlinf()));
      }
   }
   for (int e = 0; e < ne; e++) { c.check(owner[e] >= 0, "element-covered", fmt("parent element %d", e)); }
   // ---- expected interfaces from the parent mesh
   struct Face { int f, o1, o2; bool hit = false; }; std::vector<Face> faces; std::map<int, int> bface; // parent face -> boundary attribute
   for (int b = 0; b < P->GetNBE(); b++) { bface[P->GetBdrFace(b)] = P->GetBdrAttribute(b); }
   for (int f = 0; f < P->GetNumFaces(); f++) { int e1, e2; P->GetFaceElements(f, &e1, &e2); if (e2 >= 0 && owner[e1] != owner[e2]) { Face q; q.f = f; q.o1 = owner[e1]; q.o2 = owner[e2]; faces.push_back(q); } }
   std::set<std::pair<int, int>> adj; for (auto &f : faces) { adj.insert({std::min(f.o1, f.o2), std::max(f.o1, f.o2)}); }
   c.check(H->GetNumPorts() == (int)adj.size(), "one-port-per-adjacent-pair", fmt("%d ports, %d adjacent pairs", H->GetNumPorts(), (int)adj.size()));
   c.check(H->GetNumRefPorts() == H->GetNumPorts(), "reference-ports");
   std::set<int> pattr; std::set<std::pair<int, int>> seenpair; std::map<std::pair<int, int>, int> beattr; // (mesh, be) -> port attribute
   long nif = 0;
   for (int p = 0; p < H->GetNumPorts(); p++)
   {
      const PortInfo *pi = H->GetPortInfo(p); std::pair<int, int> pr{std::min(pi->Mesh1, pi->Mesh2), std::max(pi->Mesh1, pi->Mesh2)};
      if (!c.check(adj.count(pr) && seenpair.insert(pr).second, "port-of-adjacent-pair-once", fmt("meshes %d %d", pi->Mesh1, pi->Mesh2))) { continue; }
      c.check(pattr.insert(pi->PortAttr).second && P->bdr_attributes.Find(pi->PortAttr) < 0, "port-attribute-unique", fmt("%d", pi->PortAttr)); c.check(pi->Attr1 == pi->PortAttr && pi->Attr2 == pi->PortAttr, "port-side-attributes"); c.check(H->GetPortType(p) == p, "port-type");
      int a, b, a1, a2; H->GetComponentPair(p, a, b); c.check(a == pi->Mesh1 && b == pi->Mesh2, "component-pair"); H->GetRefPortInfo(p, a, b, a1, a2); c.check(a == pi->Mesh1 && b == pi->Mesh2 && a1 == pi->Attr1 && a2 == pi->Attr2, "reference-port-info");
      Array<InterfaceInfo> *I = H->GetInterfaceInfos(p); c.check(H->GetRefInterfaceInfos(p) == I, "reference-interfaces");
      for (int k = 0; k < I->Size(); k++)
      {
         InterfaceInfo &q = (*I)[k]; nif++; c.event("interface pairs"); Mesh *m1 = ms[pi->Mesh1], *m2 = ms[pi->Mesh2];
         if (!c.check(q.BE1 >= 0 && q.BE1 < m1->GetNBE() && q.BE2 >= 0 && q.BE2 < m2->GetNBE(), "boundary-element-range")) { continue; }
         VD c1 = bdr_centre(m1, q.BE1), c2 = bdr_centre(m2, q.BE2); c.check(dist(c1, c2) < 1e-10, "paired-faces-coincide", fmt("ports %d pair %d gap %g", p, k, dist(c1, c2)));
         int e1, inf1, e2, inf2; m1->GetBdrElementAdjacentElement(q.BE1, e1, inf1); m2->GetBdrElementAdjacentElement(q.BE2, e2, inf2);
         Face *hit = NULL; for (auto &f : faces) if (!f.hit && dist(face_centre(P, f.f), c1) < 1e-10) { hit = &f; break; }
         if (!c.check(hit != NULL, "pair-is-an-unused-parent-interface", fmt("port %d pair %d", p, k))) { continue; }
         hit->hit = true; c.check(std::make_pair(std::min(hit->o1, hit->o2), std::max(hit->o1, hit->o2)) == pr, "pair-owners");
         int pe1, pe2; P->GetFaceElements(hit->f, &pe1, &pe2); if (owner[pe1] != pi->Mesh1) { std::swap(pe1, pe2); }
         c.check(local[pe1] == e1 && local[pe2] == e2, "adjacent-elements"); int i1, i2; P->GetFaceInfos(hit->f, &i1, &i2); int xx, yy; P->GetFaceElements(hit->f, &xx, &yy); if (xx != pe1) { std::swap(i1, i2); }
         c.check(q.Inf1 / 64 == i1 / 64 && q.Inf2 / 64 == i2 / 64, "local-face-info", fmt("(%d,%d) expected local faces of (%d,%d)", q.Inf1, q.Inf2, i1, i2)); // relative orientation: P10
         c.check(!beattr.count({pi->Mesh1, q.BE1}) && !beattr.count({pi->Mesh2, q.BE2}), "boundary-element-in-one-pair"); beattr[{pi->Mesh1, q.BE1}] = pi->PortAttr; beattr[{pi->Mesh2, q.BE2}] = pi->PortAttr;
      }
   }
   for (auto &f : faces) { c.check(f.hit, "every-interface-found", fmt("parent face %d between subdomains %d and %d", f.f, f.o1, f.o2)); }
   // ---- boundary attributes
   long outer = 0;
   for (int k = 0; k < N; k++)
   {
      std::set<int> used;
      for (int b = 0; b < ms[k]->GetNBE(); b++)
      {
         int a = ms[k]->GetBdrAttribute(b); used.insert(a); auto it = beattr.find({k, b}); c.event("boundary elements");
         if (it != beattr.end()) { c.check(a == it->second, "interface-boundary-attribute", fmt("mesh %d be %d got %d expected %d", k, b, a, it->second)); continue; }
         outer++; VD x = bdr_centre(ms[k], b); int want = -1; int e, inf; ms[k]->GetBdrElementAdjacentElement(b, e, inf); int pe = dynamic_cast<SubMesh *>(ms[k])->GetParentElementIDMap()[e];
         Array<int> pf, po; if (dim == 2) { P->GetElementEdges(pe, pf, po); } else { P->GetElementFaces(pe, pf, po); }
         for (int q = 0; q < pf.Size(); q++) if (dist(face_centre(P, pf[q]), x) < 1e-10 && bface.count(pf[q])) { want = bface[pf[q]]; }
         c.check(a == want, "outer-boundary-attribute", fmt("mesh %d be %d got %d expected %d", k, b, a, want));
      }
      std::set<int> listed; for (int q = 0; q < ms[k]->bdr_attributes.Size(); q++) { listed.insert(ms[k]->bdr_attributes[q]); } c.check(listed == used && (int)listed.size() == ms[k]->bdr_attributes.Size(), "boundary-attribute-list", fmt("mesh %d", k));
   }
   c.check(outer == P->GetNBE(), "outer-boundary-count", fmt("%ld of %d", outer, P->GetNBE()));
   // ---- fields go back to the parent
   int nv = r.i(1, 3); Array<GridFunction *> us, gu; std::vector<std::unique_ptr<FiniteElementCollection>> fec; std::vector<std::unique_ptr<FiniteElementSpace>> keep; bool ok = true;
   for (int v = 0; v < nv; v++) { int o = r.i(1, 2); if (r.b()) { fec.emplace_back(new H1_FECollection(o, dim)); } else { fec.emplace_back(new L2_FECollection(r.i(0, 2), dim)); } }
   std::vector<int> vd(nv), od(nv); for (int v = 0; v < nv; v++) { vd[v] = r.i(1, dim); od[v] = r.i(0, 1); }
   auto field = [&](int v) { return VectorFunctionCoefficient(vd[v], [v](const Vector &x, Vector &y) { for (int k = 0; k < y.Size(); k++) { y(k) = std::sin(1.7 * x(0) + k + 3 * v) + 0.3 * x(1) * x(x.Size() - 1) + v; } }); };
   for (int k = 0; k < N; k++) for (int v = 0; v < nv; v++)
      { keep.emplace_back(new FiniteElementSpace(ms[k], fec[v].get(), vd[v], od[v] ? Ordering::byVDIM : Ordering::byNODES)); us.Append(new GridFunction(keep.back().get())); auto f = field(v); us.Last()->ProjectCoefficient(f); }
   std::vector<std::unique_ptr<GridFunction>> want;
   for (int v = 0; v < nv; v++) { keep.emplace_back(new FiniteElementSpace(P, fec[v].get(), vd[v], od[v] ? Ordering::byVDIM : Ordering::byNODES)); gu.Append(new GridFunction(keep.back().get())); *gu.Last() = 1e30; want.emplace_back(new GridFunction(keep.back().get())); auto f = field(v); want.back()->ProjectCoefficient(f); }
   H->TransferToGlobal(us, gu, nv); c.event("fields transferred", nv);
   for (int v = 0; v < nv && ok; v++) { ok = c.closeVec(*gu[v], *want[v], 1e-12, "field-transfer", fmt("variable %d", v)); }
   for (int k = 0; k < us.Size(); k++) { delete us[k]; } for (int k = 0; k < gu.Size(); k++) { delete gu[k]; }
   c.sig(fmt("dim%d|%s|%s|n%d|order%d|affine%d|nodd%d|ref%d|shuffle%d|ports%d", dim, s.shape(), s.part.c_str(), s.numSub, s.order, s.affine, nodd, ref, s.shuffle, std::min(6, H->GetNumPorts())));
   c.sample(fmt("dim %d %s %dx%dx%d, %d subdomains (%s), %d ports, %ld interface faces", dim, s.shape(), s.n[0], s.n[1], s.n[2], N, s.part.c_str(), H->GetNumPorts(), nif));
}
VF_MAIN(2400, 40000)
