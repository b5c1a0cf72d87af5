// Component systems: placement, boundary map, port pairing (P08); port files (P09, --mode files); loud failure on unusable systems.
#include "common.hpp"
#include "topo_gen.hpp"
using namespace vf; using namespace mfem;
void vf::setup(Ctx &) {}
typedef std::vector<double> VD;
#ifndef P09
#define P09 0
#endif
static VD bdr_centre(Mesh *m, int be) { ElementTransformation *t = m->GetBdrElementTransformation(be); Vector x(m->Dimension()); t->Transform(Geometries.GetCenter(t->GetGeometryType()), x); return VD(x.GetData(), x.GetData() + x.Size()); }
static double dist(const VD &a, const VD &b) { double s = 0; for (size_t k = 0; k < a.size(); k++) { s = std::max(s, std::fabs(a[k] - b[k])); } return s; }

static void observe(Ctx &c, CompSystem &S, ComponentTopologyHandler &H)
{
   int nm = S.type.size(), nc = S.names.size(), dim = S.dim;
   c.check(H.GetNumSubdomains() == nm && H.GetNumComponents() == nc && H.GetNumPorts() == (int)S.ports.size() && H.GetNumRefPorts() == (int)S.ref_names.size(), "counts");
   Array<Mesh *> ms; TopologyData td; H.ExportInfo(ms, td); if (!c.check(ms.Size() == nm && td.numSub == nm && td.dim == dim, "export")) { return; }
   std::vector<int> cnt(nc, 0); for (int k = 0; k < nc; k++) { c.check(H.GetComponentName(k) == S.names[k], "component-name", H.GetComponentName(k)); c.check(H.GetComponentMesh(k)->GetNE() == S.comps[k]->GetNE(), "component-mesh"); }
   for (int m = 0; m < nm; m++) { c.check(H.GetMeshType(m) == S.type[m], "mesh-component"); c.check(H.GetComponentIndexOfMesh(m) == cnt[S.type[m]], "mesh-index-within-component", fmt("mesh %d", m)); cnt[S.type[m]]++; }
   for (int k = 0; k < nc; k++) { c.check(H.GetNumSubdomains(k) == cnt[k], "subdomains-per-component"); }
   std::set<int> compattr, glob; for (auto &q : S.comps) for (int k = 0; k < q->bdr_attributes.Size(); k++) { compattr.insert(q->bdr_attributes[k]); } for (auto &b : S.bdr) { glob.insert(b[0]); }
   std::set<int> gl; for (int k = 0; k < td.global_bdr_attributes->Size(); k++) { gl.insert((*td.global_bdr_attributes)[k]); } c.check(gl == glob && (int)gl.size() == td.global_bdr_attributes->Size(), "global-boundary-attributes");
   std::map<std::pair<int, int>, int> want; for (auto &b : S.bdr) { want[{b[1], b[2]}] = b[0]; }
   std::set<int> pa;
   for (int p = 0; p < H.GetNumPorts(); p++)
   {
      const PortInfo *q = H.GetPortInfo(p); auto &e = S.ports[p];
      c.check(q->Mesh1 == e.m1 && q->Mesh2 == e.m2 && q->Attr1 == e.a1 && q->Attr2 == e.a2 && H.GetPortType(p) == e.ref, "port-info", fmt("port %d", p));
      c.check(pa.insert(q->PortAttr).second && !glob.count(q->PortAttr) && !compattr.count(q->PortAttr), "port-attribute-unique", fmt("%d", q->PortAttr)); want[{e.m1, e.a1}] = q->PortAttr; want[{e.m2, e.a2}] = q->PortAttr;
   }
   for (int m = 0; m < nm; m++)
   {
      Mesh E = S.placed(m); Mesh &C = *S.comps[S.type[m]]; Mesh *M = ms[m]; c.check(H.GetMesh(m) == M, "export-mesh-order");
      if (!c.check(M->GetNE() == C.GetNE() && M->GetNBE() == C.GetNBE() && M->GetNV() == C.GetNV(), "mesh-size")) { continue; }
      for (int e = 0; e < M->GetNE(); e++)
      { c.event("elements placed"); IntegrationPoint ip; ip.Set3(0.27, 0.33, 0.2); Vector x(dim), y(dim); M->GetElementTransformation(e)->Transform(ip, x); E.GetElementTransformation(e)->Transform(ip, y); y -= x; if (!c.check(y.Normlinf() < 1e-10, "mesh-placement", fmt("mesh %d element %d off by %g", m, e, y.Normlinf()))) { break; } }
      std::set<int> used, listed;
      for (int b = 0; b < M->GetNBE(); b++) { int a = C.GetBdrAttribute(b); used.insert(M->GetBdrAttribute(b)); c.event("boundary elements"); c.check(M->GetBdrAttribute(b) == (want[{m, a}]), "boundary-attribute-map", fmt("mesh %d component attribute %d got %d expected %d", m, a, M->GetBdrAttribute(b), (want[{m, a}]))); }
      for (int k = 0; k < M->bdr_attributes.Size(); k++) { listed.insert(M->bdr_attributes[k]); } c.check(used == listed && (int)listed.size() == M->bdr_attributes.Size(), "boundary-attribute-list");
      Array<int> *map = H.GetBdrAttrComponentToGlobalMap(m); Mesh *cm = H.GetComponentMesh(S.type[m]); if (c.check(map && map->Size() == cm->bdr_attributes.Size(), "boundary-map-size")) for (int k = 0; k < map->Size(); k++) { c.check((*map)[k] == (want[{m, cm->bdr_attributes[k]}]), "boundary-map"); }
   }
   for (int k = 0; k < H.GetNumRefPorts(); k++)
   {
      auto &q = S.ref_info[k]; int c1, c2, a1, a2; H.GetComponentPair(k, c1, c2); c.check(c1 == q[0] && c2 == q[1], "reference-pair"); H.GetRefPortInfo(k, c1, c2, a1, a2); c.check(c1 == q[0] && c2 == q[1] && a1 == q[2] && a2 == q[3], "reference-port-info");
   }
   for (int p = 0; p < H.GetNumPorts(); p++)
   {
      auto &e = S.ports[p]; Array<InterfaceInfo> *I = H.GetInterfaceInfos(p); Mesh &C1 = *S.comps[S.type[e.m1]], &C2 = *S.comps[S.type[e.m2]]; std::set<int> s1, s2, w1, w2;
      for (int b = 0; b < C1.GetNBE(); b++) if (C1.GetBdrAttribute(b) == e.a1) { w1.insert(b); } for (int b = 0; b < C2.GetNBE(); b++) if (C2.GetBdrAttribute(b) == e.a2) { w2.insert(b); }
      c.check(I == H.GetRefInterfaceInfos(e.ref), "port-uses-its-reference");
      for (int k = 0; k < I->Size(); k++)
      {
         InterfaceInfo &q = (*I)[k]; c.event("interface pairs"); c.check(s1.insert(q.BE1).second && s2.insert(q.BE2).second, "boundary-element-paired-once", fmt("port %d pair %d", p, k));
         if (!c.check(w1.count(q.BE1) && w2.count(q.BE2), "pair-on-the-port-sides", fmt("port %d be %d %d", p, q.BE1, q.BE2))) { continue; }
         VD x = bdr_centre(ms[e.m1], q.BE1), y = bdr_centre(ms[e.m2], q.BE2); c.check(dist(x, y) < 1e-9, "paired-faces-coincide", fmt("port %d pair %d gap %g", p, k, dist(x, y)));
      }
      c.check(s1 == w1 && s2 == w2, "every-port-face-paired", fmt("port %d: %d pairs, %d faces", p, I->Size(), (int)w1.size()));
   }
}
static void samePort(Ctx &c, ComponentTopologyHandler &A, ComponentTopologyHandler &B, const char *w)
{
   if (!c.check(A.GetNumRefPorts() == B.GetNumRefPorts(), std::string(w) + "/count")) { return; }
   for (int k = 0; k < A.GetNumRefPorts(); k++)
   {
      auto *a = A.GetPortData(k), *b = B.GetPortData(k); c.event("port data compared");
      c.check(a->Component1 == b->Component1 && a->Component2 == b->Component2 && a->Attr1 == b->Attr1 && a->Attr2 == b->Attr2, std::string(w) + "/sides"); c.check(a->vtx2to1 == b->vtx2to1, std::string(w) + "/vertex-map");
      std::set<std::pair<int, int>> pa, pb; for (int i = 0; i < a->be_pairs.NumRows(); i++) { pa.insert({a->be_pairs(i, 0), a->be_pairs(i, 1)}); } for (int i = 0; i < b->be_pairs.NumRows(); i++) { pb.insert({b->be_pairs(i, 0), b->be_pairs(i, 1)}); } c.check(pa == pb && a->be_pairs.NumRows() == b->be_pairs.NumRows(), std::string(w) + "/face-pairs");
      Array<InterfaceInfo> *x = A.GetRefInterfaceInfos(k), *y = B.GetRefInterfaceInfos(k); bool same = x->Size() == y->Size(); for (int i = 0; same && i < x->Size(); i++) { bool f = false; for (int j = 0; j < y->Size(); j++) { auto &p = (*x)[i]; auto &q = (*y)[j]; f = f || (p.BE1 == q.BE1 && p.BE2 == q.BE2 && p.Inf1 == q.Inf1 && p.Inf2 == q.Inf2); } same = f; } c.check(same, std::string(w) + "/interfaces");
   }
}
static void handles(Ctx &c, const char *w) { ssize_t n = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR); long f = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_FILE), d = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_DATASET), g = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_GROUP), t = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_DATATYPE), a = H5Fget_obj_count((hid_t)H5F_OBJ_ALL, H5F_OBJ_ATTR);
   c.check(n == 0, std::string("files-closed/") + w, fmt("%ld HDF5 objects left open: %ld files %ld datasets %ld groups %ld types %ld attributes", (long)n, f, d, g, t, a)); }

void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; int dim = c.kase % 4 == 3 ? 3 : 2; CompSystem S = comp_system(c, r, dim, true, 3, 3, true);
   std::string sg = fmt("dim%d|%s|n%d|order%d|rot%d|comps%d|meshes%d|ports%d", dim, S.shape(), S.n, S.order, S.rotated * 2 + S.relabel, (int)S.names.size(), (int)S.type.size(), std::min(12, (int)S.ports.size()));
   if (!P09)
   {
      if (r.b(0.2)) { S.refine = 1; for (auto &q : S.comps) { q->UniformRefinement(); } c.event("refined systems"); }
      int how = r.i(0, 1); bool sep = r.b(0.3); std::string y = write_system(c, r, S, "", how, sep); load_config(c.path("t.yml"), y);
      { ComponentTopologyHandler H; observe(c, S, H); }
      handles(c, "after-set-up");
      if (r.b(0.25))
      { // unusable systems must stop
         CompSystem Q = comp_system(c, r, dim); int kind = r.i(0, 3); std::string why; std::string yy;
         if (kind == 0) { int k = r.i(0, (int)Q.ref_names.size() - 1); Q.ref_conf[k][r.i(0, dim - 1)] += r.pick<double>({1e-3, -0.1, 3.0, 1e-6}); why = "port-offset"; yy = write_system(c, r, Q, "bad", r.i(0, 1), false); }
         else if (kind == 1) { int k = r.i(0, (int)Q.ports.size() - 1); auto &lb = Q.label[Q.type[Q.ports[k].m1]]; int s0 = 1; while (lb[s0] != Q.ports[k].a1) { s0++; } Q.ports[k].a1 = lb[1 + s0 % (2 * dim)]; why = "port-side-mismatch"; yy = write_system(c, r, Q, "bad", r.i(0, 1), false); }
         else if (kind == 2) { why = "port-missing"; yy = write_system(c, r, Q, "bad", 0, false); size_t a = yy.find("      - name: \"" + Q.ref_names[0] + "\""); yy.replace(a, 15 + Q.ref_names[0].size(), "      - name: \"other"); }
         else { why = "boundary-missing"; if (Q.bdr.size() < 2) { return; } Q.bdr.pop_back(); yy = write_system(c, r, Q, "bad", r.i(0, 1), false); }
         std::string f = c.path("bad.yml"); std::string log; int rc = forked([&]() { load_config(f, yy); ComponentTopologyHandler H; return 0; }, nullptr, 60, &log);
         c.check(rc == 1, "unusable-system-stops/" + why, fmt("outcome %d: %s", rc, log.substr(0, 300).c_str())); c.event("unusable systems"); c.sig("bad|" + why);
      }
      if (r.b(0.1))
      { // sides coincide up to the configured gap
         CompSystem Q = comp_system(c, r, dim); double T = r.pick<double>({1e-3, 1e-5}); bool ok = r.b(); Q.ref_conf[r.i(0, (int)Q.ref_names.size() - 1)][r.i(0, dim - 1)] += (r.b() ? 1 : -1) * T * (ok ? 0.3 : 3.0);
         std::string yy = write_system(c, r, Q, "gap", r.i(0, 1), false), k = "  component-wise:\n"; yy.insert(yy.find(k) + k.size(), fmt("    vertex_gap_threshold: %g\n", T)); std::string f = c.path("gap.yml");
         int rc = forked([&]() { load_config(f, yy); ComponentTopologyHandler H; return 0; }, nullptr, 60); c.check(rc == (ok ? 0 : 1), ok ? "gap-within-threshold-accepted" : "gap-beyond-threshold-stops", fmt("outcome %d threshold %g", rc, T)); c.event("gap thresholds");
      }
      c.sig(sg + fmt("|how%d|sep%d", how, sep));
   }
   else
   {
      std::map<std::string, std::string> pf; for (auto &n : S.ref_names) { pf[n] = c.path("pf_" + n + ".h5"); unlink(pf[n].c_str()); }
      std::string y = write_system(c, r, S, "w", 0, false, pf, true); load_config(c.path("w.yml"), y); ComponentTopologyHandler W; observe(c, S, W); handles(c, "after-writing-ports");
      // read back, one file per port, possibly with one file holding all ports in another order plus an unrelated one
      bool one = r.b(0.5), twice = r.b(0.4); std::string all = c.path("all_ports.h5"); std::map<std::string, std::string> pr = pf;
      if (one)
      {
         hid_t f = H5Fcreate(all.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); std::vector<int> o; for (size_t k = 0; k < S.ref_names.size(); k++) { o.push_back(k); } for (int k = (int)o.size() - 1; k > 0; k--) { std::swap(o[k], o[r.i(0, k)]); }
         int extra = r.i(0, 1), n = (int)o.size() + extra, g0 = 0; hdf5_utils::WriteAttribute(f, "number_of_ports", n);
         auto put = [&](const std::string &name, ComponentTopologyHandler::PortData *d, bool junk)
         {
            hid_t g = H5Gcreate(f, std::to_string(g0++).c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); hdf5_utils::WriteAttribute(g, "name", name); hdf5_utils::WriteAttribute(g, "bdr_attr1", d->Attr1); hdf5_utils::WriteAttribute(g, "bdr_attr2", d->Attr2);
            hdf5_utils::WriteAttribute(g, "component1", junk ? std::string("nowhere") : S.names[d->Component1]); hdf5_utils::WriteAttribute(g, "component2", S.names[d->Component2]);
            Array<int> a, b; for (auto &q : d->vtx2to1) { b.Append(q.first); a.Append(q.second); } hdf5_utils::WriteDataset(g, "vtx1", a); hdf5_utils::WriteDataset(g, "vtx2", b); Array<int> e, h; for (int k = 0; k < d->be_pairs.NumRows(); k++) { e.Append(d->be_pairs(k, 0)); h.Append(d->be_pairs(k, 1)); } hdf5_utils::WriteDataset(g, "be1", e); hdf5_utils::WriteDataset(g, "be2", h); H5Gclose(g);
         };
         if (extra) { put("unrelated", W.GetPortData(0), true); } for (int k : o) { put(S.ref_names[k], W.GetPortData(k), false); } H5Fclose(f);
         for (auto &q : pr) { if (twice || r.b()) { q.second = all; } } pr[S.ref_names[0]] = all;
      }
      std::string y2 = write_system(c, r, S, "r", 0, false, pr); load_config(c.path("r.yml"), y2);
      { ComponentTopologyHandler R; observe(c, S, R); samePort(c, W, R, "read-back"); } handles(c, one ? "after-reading-a-shared-port-file" : "after-reading-ports");
      // the same port file can be written again afterwards
      if (r.b(0.5)) { for (auto &q : pf) { unlink(q.second.c_str()); } if (one) { unlink(all.c_str()); } load_config(c.path("w.yml"), y); int rc = forked([&]() { ComponentTopologyHandler W2; return 0; }); c.check(rc == 0, "rewrite-port-files", fmt("outcome %d", rc)); c.event("port files rewritten"); }
      c.sig(sg + fmt("|one%d|twice%d", one, twice));
   }
   c.sample(sg);
}
#if P09
VF_MAIN(400, 8000)
#else
VF_MAIN(800, 16000)
#endif
