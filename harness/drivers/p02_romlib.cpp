// Save a library of component/boundary/port operators, load it into a system that uses some of the components in another order.
#include "common.hpp"
#include "rom_element_collection.hpp"
#include <memory>
using namespace mfem; using namespace vf;
struct Ref { int c1, c2, a1, a2; };
class MockTopology : public TopologyHandler
{
public:
   std::vector<std::shared_ptr<Mesh>> ms; std::vector<Ref> refs;
   MockTopology(const std::vector<std::string> &names, const std::vector<std::shared_ptr<Mesh>> &m, const std::vector<Ref> &rf) : TopologyHandler(TopologyHandlerMode::COMPONENT), ms(m), refs(rf)
   { comp_names = names; num_comp = names.size(); numSub = num_comp; dim = 2; }
   Mesh *GetMesh(const int k) override { return ms[k].get(); }
   Mesh *GetGlobalMesh() override { return nullptr; }
   Mesh *GetComponentMesh(const int &c) override { return ms[c].get(); }
   const int GetNumRefPorts() override { return refs.size(); }
   void GetComponentPair(const int &p, int &a, int &b) override { a = refs[p].c1; b = refs[p].c2; }
   void GetRefPortInfo(const int &p, int &a, int &b, int &x, int &y) override { a = refs[p].c1; b = refs[p].c2; x = refs[p].a1; y = refs[p].a2; }
   void ExportInfo(Array<Mesh *> &, TopologyData &) override {}
   void TransferToGlobal(Array<GridFunction *> &, Array<GridFunction *> &, const int &) override {}
};
static std::shared_ptr<Mesh> mk(Rng &r, int nb)
{
   auto m = std::make_shared<Mesh>(Mesh::MakeCartesian2D(2, 2, Element::QUADRILATERAL));
   for (int b = 0; b < m->GetNBE(); b++) { m->SetBdrAttribute(b, 1 + b % nb); } m->SetAttributes(); return m;
}
typedef std::map<std::string, std::vector<double>> Content; // name -> dense content with shape prefix
static std::vector<double> flat(const MatrixBlocks &b)
{
   std::vector<double> o = {(double)b.nrows, (double)b.ncols};
   for (int i = 0; i < b.nrows; i++) for (int j = 0; j < b.ncols; j++)
      {
         const SparseMatrix *s = b(i, j); if (!s || s->NumNonZeroElems() == 0) { o.push_back(-1); continue; }
         o.push_back(s->Height()); o.push_back(s->Width()); DenseMatrix d; s->ToDenseMatrix(d); for (int q = 0; q < d.Width(); q++) for (int p = 0; p < d.Height(); p++) { o.push_back(d(p, q)); }
      }
   return o;
}
static void fillb(Rng &r, MatrixBlocks &b, const std::vector<int> &rs, const std::vector<int> &cs)
{
   for (int i = 0; i < b.nrows; i++) for (int j = 0; j < b.ncols; j++)
      {
         delete b(i, j); b(i, j) = nullptr; if (r.b(0.2)) { continue; }
         auto *s = new SparseMatrix(rs[i], cs[j]); for (int p = 0; p < rs[i]; p++) for (int q = 0; q < cs[j]; q++) { if (r.b(0.8)) { s->Set(p, q, r.u(-1, 1)); } } s->Finalize(0); b(i, j) = s;
      }
}
static Content snapshot(ROMLinearElement &e, MockTopology &t)
{
   Content o; for (int c = 0; c < t.GetNumComponents(); c++)
   {
      std::string n = t.GetComponentName(c); o["dom " + n] = flat(*e.comp[c]); o["mass " + n] = flat(*e.mass[c]);
      for (int b = 0; b < e.bdr[c]->Size(); b++) { o["bdr " + n + "#" + std::to_string(b)] = flat(*(*e.bdr[c])[b]); }
   }
   for (int p = 0; p < (int)t.refs.size(); p++) { auto &x = t.refs[p]; o["port " + t.GetComponentName(x.c1) + ">" + t.GetComponentName(x.c2) + fmt("@%d@%d", x.a1, x.a2)] = flat(*e.port[p]); }
   return o;
}
void vf::setup(Ctx &) { }
void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; static const std::vector<std::string> pool = {"empty", "square-circle", "a", "ab", "a.b", "component 7", "joint-1D", "rod_H", "x1", "x10"};
   int nc = r.b(0.05) ? r.i(6, 16) : r.i(1, 5); const int big = r.b(0.06) ? r.i(2, 8) : 1; std::vector<std::string> names; std::vector<std::shared_ptr<Mesh>> ms;
   { std::vector<std::string> p = pool; for (int k = 0; k < 8; k++) { p.push_back(fmt("part-%d.%s", r.i(0, 9999), std::string(r.i(0, 60), 'q').c_str()) + std::to_string(k)); } for (int k = 0; k < nc; k++) { int q = r.i(0, (int)p.size() - 1); names.push_back(p[q]); p.erase(p.begin() + q); ms.push_back(mk(r, r.b(0.05) ? 8 : r.i(1, 6))); } }
   std::vector<Ref> refs; std::set<std::string> seen; for (int k = r.b(0.06) ? r.i(7, 40) : r.i(0, 6); k > 0; k--) { Ref x{r.i(0, nc - 1), r.i(0, nc - 1), r.b(0.05) ? r.i(13, 2000) : r.i(1, 12), r.b(0.05) ? r.i(13, 2000) : r.i(1, 12)}; if (seen.insert(fmt("%d,%d,%d,%d", x.c1, x.c2, x.a1, x.a2)).second) { refs.push_back(x); } }
   bool sep = r.b(); int nv = r.i(1, 3); DG_FECollection fec(1, 2);
   std::vector<std::shared_ptr<FiniteElementSpace>> own;
   auto spaces = [&](const std::vector<std::shared_ptr<Mesh>> &m) { Array<FiniteElementSpace *> a; for (auto &x : m) for (int v = 0; v < nv; v++) { own.push_back(std::make_shared<FiniteElementSpace>(x.get(), &fec)); a.Append(own.back().get()); } return a; };
   int bs = sep ? nv : 1; std::map<std::string, std::vector<int>> nb; for (auto &n : names) { std::vector<int> v; for (int k = 0; k < bs; k++) { v.push_back(big * r.i(1, 5)); } nb[n] = v; }
   auto fillall = [&](ROMLinearElement &e, MockTopology &t)
   {
      for (int k = 0; k < t.GetNumComponents(); k++) { auto &v = nb[t.GetComponentName(k)]; fillb(r, *e.comp[k], v, v); fillb(r, *e.mass[k], v, v); for (int b = 0; b < e.bdr[k]->Size(); b++) { fillb(r, *(*e.bdr[k])[b], v, v); } }
      for (size_t p = 0; p < t.refs.size(); p++) { std::vector<int> v = nb[t.GetComponentName(t.refs[p].c1)]; auto &w = nb[t.GetComponentName(t.refs[p].c2)]; v.insert(v.end(), w.begin(), w.end()); fillb(r, *e.port[p], v, v); }
   };
   MockTopology lib(names, ms, refs); ROMLinearElement e(&lib, spaces(ms), sep); fillall(e, lib); Content truth = snapshot(e, lib);
   std::string fn = c.path("lib.h5"); if (r.b(0.3)) { ROMLinearElement e0(&lib, spaces(ms), sep); fillall(e0, lib); e0.Save(fn); c.event("library overwritten"); }
   e.Save(fn); c.event("library saved"); c.check(snapshot(e, lib) == truth, "save-leaves-library-unchanged");
   // user system: subset, permuted
   int rounds = r.i(1, 3);
   for (int q = 0; q < rounds; q++)
   {
      std::vector<int> perm; for (int k = 0; k < nc; k++) { perm.push_back(k); } for (int k = nc - 1; k > 0; k--) { std::swap(perm[k], perm[r.i(0, k)]); } int mc = q == 0 && r.b(0.3) ? nc : r.i(1, nc); perm.resize(mc);
      std::vector<std::string> un; std::vector<std::shared_ptr<Mesh>> um; std::map<int, int> back; for (int k = 0; k < mc; k++) { un.push_back(names[perm[k]]); um.push_back(ms[perm[k]]); back[perm[k]] = k; }
      std::vector<Ref> ur; for (auto &x : refs) { if (back.count(x.c1) && back.count(x.c2) && r.b(0.8)) { ur.push_back({back[x.c1], back[x.c2], x.a1, x.a2}); } } for (int k = (int)ur.size() - 1; k > 0; k--) { std::swap(ur[k], ur[r.i(0, k)]); }
      MockTopology t(un, um, ur); ROMLinearElement u(&t, spaces(um), sep); bool dirty = r.b(0.4); if (dirty) { fillall(u, t); }
      u.Load(fn); Content got = snapshot(u, t);
      for (auto &g : got) { std::string k = g.first.substr(0, g.first.find(' ')); c.check(truth.count(g.first) && truth[g.first] == g.second, "loaded-" + k + "-differs", g.first + fmt(" (%d of %d components, dirty %d)", mc, nc, dirty)); c.event("element checked: " + k); }
      c.sig(fmt("n%d use%d ports%zu/%zu sep%d nv%d dirty%d sorted%d", nc, mc, ur.size(), refs.size(), sep, nv, dirty, (int)std::is_sorted(perm.begin(), perm.end())));
      // a saved copy of the loaded subset is again loadable
      if (r.b(0.3)) { u.Save(c.path("sub.h5")); ROMLinearElement w(&t, spaces(um), sep); w.Load(c.path("sub.h5")); c.check(snapshot(w, t) == got, "second-generation-differs"); c.event("second generation"); }
   }
   if (c.kase % 25 == 3)
   {  // elements that are not in the library: the load must stop, not leave zeros
      int what = r.i(0, 1); std::vector<std::string> un = names; std::vector<Ref> ur = refs; if (what == 0) { un[0] = "not-in-library"; ur.clear(); } else { ur.push_back({0, 0, 7777, 7778}); if (ur.size() > 1) { ur.erase(ur.begin()); } }
      MockTopology t(un, ms, ur); ROMLinearElement u(&t, spaces(ms), sep); int rc = forked([&]() { u.Load(fn); return 0; }); c.check(rc == 1, "missing-element-stops", fmt("kind %d outcome %d", what, rc)); c.event("missing element");
   }
   c.sample(fmt("%d components, %zu ports, %d variables, separate %d", nc, refs.size(), nv, sep));
}
VF_MAIN(1200, 30000)
