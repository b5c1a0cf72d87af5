// P26: snapshots - what a run saves per component and per port is what training gets back, in order, from one or many files.
#include "topo_gen.hpp"
#include "etc.hpp"
#include "sample_generator.hpp"
#include "main_workflow.hpp"
using namespace vf;
void vf::setup(Ctx &) {}
typedef std::vector<double> Col;
struct SG : SampleGenerator { SG() : SampleGenerator(MPI_COMM_SELF) {} const std::vector<BasisTag> &tags() { return basis_tags; } const std::vector<PortTag> &ports() { return port_tags; } };
typedef std::map<std::string, std::vector<Col>> Cols; // tag -> columns
struct PortKey { std::string a, b; int x, y; bool operator<(const PortKey &o) const { return std::tie(a, b, x, y) < std::tie(o.a, o.b, o.x, o.y); } };
typedef std::map<PortKey, std::vector<std::vector<Col>>> Pairs; // port -> per saved interface, first and second side, all variables
static bool same(const CAROM::Matrix &M, int j, const Col &x) { for (int i = 0; i < M.numRows(); i++) if (!biteq(M(i, j), x[i])) { return false; } return M.numRows() == (int)x.size(); }
void vf::run_case(Ctx &c)
{
   Rng &r = c.rng; int dim = r.b(0.8) ? 2 : 3, nvar = r.i(1, 3); bool separate = r.b(0.6); if (!separate) { nvar = 1; } static const char *vn[] = {"vel", "pres", "temp"};
   CompSystem S = comp_system(c, r, dim, false, 3, 3); std::string base = write_system(c, r, S, "", r.i(0, 1), false); load_config(c.path("s.yml"), base); std::unique_ptr<ComponentTopologyHandler> H(new ComponentTopologyHandler()); int nm = H->GetNumSubdomains(), nc = S.names.size();
   std::vector<std::vector<int>> len(nc, std::vector<int>(nvar)); for (auto &v : len) for (auto &x : v) { x = r.b(0.04) ? r.i(13, 90) : r.i(1, 12); }
   int runs = r.b(0.05) ? r.i(5, 12) : r.i(1, 4); Cols all; Pairs pr; std::vector<Cols> byrun(runs); std::vector<Pairs> prun(runs); std::vector<std::string> prefix; bool fmtnames = r.b(0.4); int first = r.i(0, 20);
   for (int q = 0; q < runs; q++)
   {
      std::string dir = c.path(fmt("k%d", c.kase)); mkdir(dir.c_str(), 0700); std::string pre = fmtnames ? fmt("run%02d", first + q) : fmt("%s%d", r.pick<std::string>({"run", "a.b", "long-prefix-"}).c_str(), q); if (r.b(0.3)) { dir += "/."; }
      config.dict_ = YAML::Load(base + fmt("\nsample_generation:\n  maximum_number_of_snapshots: 400\n  file_path:\n    directory: %s\n    prefix: %s\n  parameters:\n    - {key: a, type: double, sample_size: 2, minimum: 0, maximum: 1}\n", dir.c_str(), pre.c_str())); SG g; prefix.push_back(g.GetSamplePrefix());
      int ns = r.b(0.05) ? r.i(6, 15) : r.i(1, 5); std::vector<int> order(nm);
      for (int s = 0; s < ns; s++)
      {
         Array<int> off(nm * nvar + 1); off[0] = 0; std::vector<BasisTag> tags; for (int m = 0; m < nm; m++) for (int v = 0; v < nvar; v++) { off[m * nvar + v + 1] = off[m * nvar + v] + len[S.type[m]][v]; tags.push_back(separate ? BasisTag(S.names[S.type[m]], vn[v]) : BasisTag(S.names[S.type[m]])); }
         BlockVector U(off); r.fill(U, -1, 1); if (r.b(0.1)) { U = 0.0; } Vector keep(U); Array<int> col; g.SaveSnapshot(&U, tags, col); c.check(col.Size() == nm * nvar, "column-list-size"); bool unch = true; for (int k = 0; k < U.Size(); k++) { unch = unch && biteq(U(k), keep(k)); } c.check(unch, "solution-untouched");
         auto part = [&](int m, int v) { Vector b; U.GetBlockView(m * nvar + v, b); return Col(b.GetData(), b.GetData() + b.Size()); };
         for (int m = 0; m < nm; m++) for (int v = 0; v < nvar; v++)
            {
               auto &L = byrun[q][tags[m * nvar + v].print()]; c.check(col[m * nvar + v] == (int)L.size(), "column-of-the-snapshot", fmt("subdomain %d variable %d: column %d, expected %zu", m, v, col[m * nvar + v], L.size())); L.push_back(part(m, v)); c.event("snapshots saved"); }
         g.SaveSnapshotPorts(H.get(), col);
         for (auto &p : S.ports)
         { PortKey k{S.names[S.type[p.m1]], S.names[S.type[p.m2]], p.a1, p.a2}; std::vector<Col> e; for (int sd = 0; sd < 2; sd++) { Col x; for (int v = 0; v < nvar; v++) { Col y = part(sd ? p.m2 : p.m1, v); x.insert(x.end(), y.begin(), y.end()); } e.push_back(x); } prun[q][k].push_back(e); c.event("port pairs saved"); }
         U = 1234.5; // the generator must hold copies
      }
      auto judge = [&](SG &g2, Cols &C, Pairs &P, const char *w)
      {
         c.check(g2.tags().size() == C.size(), "all-tags-present", fmt("%s: %zu tags, expected %zu", w, g2.tags().size(), C.size()));
         for (auto &x : C)
         {
            BasisTag t; for (auto &y : g2.tags()) if (y.print() == x.first) { t = y; } if (!c.check(t.print() == x.first, "tag-present", x.first)) { continue; } auto M = g2.LookUpSnapshot(t);
            bool ok = M->numColumns() == (int)x.second.size() && M->numRows() == (int)x.second[0].size(); for (int j = 0; ok && j < M->numColumns(); j++) { ok = same(*M, j, x.second[j]); c.evaluations++; } c.check(ok, "snapshots-in-order", fmt("%s: tag %s, %d columns, expected %zu", w, x.first.c_str(), M->numColumns(), x.second.size())); c.event("snapshot matrices compared"); }
         for (auto &x : P)
         {
            Array2D<int> *I = g2.LookUpSnapshotPortColOffsets(PortTag{x.first.a, x.first.b, x.first.x, x.first.y}); bool ok = I && I->NumRows() == (int)x.second.size() && I->NumCols() == 2;
            // the columns listed for a port hold, row by row, the states of its two sides
            std::shared_ptr<const CAROM::Matrix> M[2][3]; for (int sd = 0; sd < 2; sd++) for (int v = 0; v < nvar; v++) { std::string cn = sd ? x.first.b : x.first.a; M[sd][v] = g2.LookUpSnapshot(separate ? BasisTag(cn, vn[v]) : BasisTag(cn)); }
            // LookUpSnapshot of one tag hands out one matrix at a time: compare against the recorded columns instead
            for (int k = 0; ok && k < I->NumRows(); k++) for (int sd = 0; ok && sd < 2; sd++)
               { Col got; for (int v = 0; v < nvar; v++) { std::string t = (sd ? x.first.b : x.first.a) + (separate ? std::string("_") + vn[v] : std::string()); int j = (*I)(k, sd); if (j < 0 || j >= (int)C[t].size()) { ok = false; break; } got.insert(got.end(), C[t][j].begin(), C[t][j].end()); } ok = ok && got == x.second[k][sd]; c.evaluations++; }
            c.check(ok, "port-pairs-match", fmt("%s: port %s:%s %d %d, %d rows, expected %zu", w, x.first.a.c_str(), x.first.b.c_str(), x.first.x, x.first.y, I ? I->NumRows() : -1, x.second.size())); c.event("port tables compared");
         }
         c.check(g2.ports().size() == P.size(), "all-ports-present", fmt("%s: %zu ports, expected %zu", w, g2.ports().size(), P.size()));
      };
      judge(g, byrun[q], prun[q], "in memory"); g.WriteSnapshots(); if (!S.ports.empty()) { g.WriteSnapshotPorts(); }
   }
   // training: any subset and order of the runs, by port files or by basis files
   std::vector<int> ord; for (int q = 0; q < runs; q++) if (r.b(0.85)) { ord.push_back(q); } if (ord.empty()) { ord.push_back(r.i(0, runs - 1)); } for (int k = (int)ord.size() - 1; k > 0; k--) { std::swap(ord[k], ord[r.i(0, k)]); }
   bool byport = r.b(0.6), usefmt = fmtnames && r.b(0.6), dflt = r.b(0.15); if (usefmt) { ord.clear(); for (int q = 0; q < runs; q++) { ord.push_back(q); } } if (dflt) { ord = {r.i(0, runs - 1)}; usefmt = false; } int expl = usefmt && runs > 1 && r.b(0.4) ? 1 : 0; // first run listed by name, the rest by format
   for (int q : ord) { for (auto &x : byrun[q]) { auto &L = all[x.first]; size_t n0 = L.size(); (void)n0; L.insert(L.end(), x.second.begin(), x.second.end()); } for (auto &x : prun[q]) { auto &L = pr[x.first]; L.insert(L.end(), x.second.begin(), x.second.end()); } }
   std::string k0 = c.path(fmt("k%d", c.kase)); auto stem = [&](const std::string &tail) { return k0 + "/run%02d_sample" + tail; };
   std::string y = "main: {solver: " + std::string("poisson") + "}\nmesh:\n  type: component-wise\n  component-wise:\n    components:\n"; for (auto &n : S.names) { y += "      - name: \"" + n + "\"\n"; }
   y += fmt("model_reduction: {separate_variable_basis: %s}\n", separate ? "true" : "false"); std::string bp = c.path(fmt("k%d/basis", c.kase)); int nb = r.i(1, 3), nspec = r.i(1, 4); bool sv = r.b(); y += fmt("basis:\n  prefix: %s\n  number_of_basis: %d\n  svd: {save_spectrum: %s}\n", bp.c_str(), nb, sv ? "true" : "false"); std::string dirs = k0, pre1 = "none"; if (dflt) { std::string f = prefix[ord[0]]; size_t a = f.rfind('/'); dirs = f.substr(0, a); pre1 = f.substr(a + 1, f.size() - a - 1 - 7); }
   bool possible = byport ? !S.ports.empty() : true; if (byport && !possible) { return; }
   if (!byport && separate) { possible = false; } // by-basis collection takes its variables from the solver; exercised with a single variable and with the explicit call below
   if (byport)
   {
      y += "sample_collection:\n  mode: port\n"; if (!dflt) { if (!usefmt || expl) { y += "  port_files: ["; int n = 0; for (int q : ord) { if (usefmt && n >= expl) { break; } y += (n++ ? ", " : "") + prefix[q] + ".port.h5"; } y += "]\n"; } if (usefmt) { y += fmt("  port_fileformat: {format: \"%s\", minimum: %d, maximum: %d}\n", stem(".port.h5").c_str(), first + expl, first + runs - 1); } }
   }
   else if (!dflt)
   {
      if (r.b()) { y += "sample_collection: {mode: basis}\n"; } std::string t = "  tags:\n"; for (auto &x : all) { t += "    - name: " + x.first + "\n"; if (r.b(0.4)) { t += fmt("      number_of_basis: %d\n", nspec); } if (!usefmt || expl) { t += "      snapshot_files: ["; int n = 0; for (int q : ord) { if (usefmt && n >= expl) { break; } t += (n++ ? ", " : "") + prefix[q] + "_" + x.first + "_snapshot"; } t += "]\n"; } if (usefmt) { t += fmt("      snapshot_format: {format: \"%s\", minimum: %d, maximum: %d}\n", stem("_" + x.first + "_snapshot").c_str(), first + expl, first + runs - 1); } }
      y += "basis2: 0\n"; size_t a = y.find("  svd:"); y.insert(a, t);
   }
   y += fmt("sample_generation:\n  maximum_number_of_snapshots: 2000\n  file_path:\n    directory: %s\n    prefix: %s\n  parameters:\n    - {key: a, type: double, sample_size: 2, minimum: 0, maximum: 1}\n", dirs.c_str(), pre1.c_str());
   config.dict_ = YAML::Load(y); SG t; Pairs none;
   bool everytag = true; for (auto &n : S.names) for (int v = 0; v < nvar; v++) { everytag = everytag && all.count(separate ? n + "_" + vn[v] : n); }
   if (byport || possible) { CollectSamples(&t); }
   else { for (auto &x : all) { BasisTag tg; size_t a = x.first.rfind('_'); tg = BasisTag(x.first.substr(0, a), x.first.substr(a + 1)); std::vector<std::string> fl, want; FindSnapshotFilesForBasis(tg, t.GetBaseFilename(t.GetSamplePrefix(), tg) + "_snapshot", fl); t.CollectSnapshotsByBasis(bp, tg, fl); } }
   { Cols &C = all; Pairs &P = byport ? pr : none;
      c.check(t.tags().size() == C.size(), "all-tags-present", fmt("collected: %zu tags, expected %zu", t.tags().size(), C.size()));
      for (auto &x : C)
      {
         BasisTag tg; for (auto &z : t.tags()) if (z.print() == x.first) { tg = z; } if (!c.check(tg.print() == x.first, "tag-present", x.first)) { continue; } auto M = t.LookUpSnapshot(tg); bool ok = M->numColumns() == (int)x.second.size() && M->numRows() == (int)x.second[0].size(); for (int j = 0; ok && j < M->numColumns(); j++) { ok = same(*M, j, x.second[j]); c.evaluations++; }
         c.check(ok, "collected-snapshots-in-order", fmt("%s, %zu files: tag %s, %d columns, expected %zu", byport ? "port files" : "basis files", ord.size(), x.first.c_str(), M->numColumns(), x.second.size())); c.event("collected matrices compared");
      }
      for (auto &x : P)
      {
         Array2D<int> *I = t.LookUpSnapshotPortColOffsets(PortTag{x.first.a, x.first.b, x.first.x, x.first.y}); bool ok = I && I->NumRows() == (int)x.second.size() && I->NumCols() == 2;
         for (int k = 0; ok && k < I->NumRows(); k++) for (int sd = 0; ok && sd < 2; sd++) { Col got; for (int v = 0; v < nvar; v++) { std::string n = (sd ? x.first.b : x.first.a) + (separate ? std::string("_") + vn[v] : std::string()); int j = (*I)(k, sd); if (j < 0 || j >= (int)C[n].size()) { ok = false; break; } got.insert(got.end(), C[n][j].begin(), C[n][j].end()); } ok = ok && got == x.second[k][sd]; c.evaluations++; }
         c.check(ok, "collected-port-pairs-match", fmt("%zu files: port %s:%s %d %d", ord.size(), x.first.a.c_str(), x.first.b.c_str(), x.first.x, x.first.y)); c.event("collected port tables compared");
      }
      c.check(t.ports().size() == P.size(), "all-ports-present");
   }
   t.FormReducedBasis(bp); for (auto &x : all)
   {
      c.check(FileExists(bp + "_" + x.first + ".000000"), "basis-file-written", x.first); c.check(FileExists(bp + "_" + x.first + "_sv.txt") == sv, "spectrum-file-as-asked", x.first); c.event("bases formed");
      if (sv) { std::ifstream i(bp + "_" + x.first + "_sv.txt"); double s2 = 0, v; int n = 0; bool dec = true; double last = 1e300; while (i >> v) { s2 += v * v; dec = dec && v <= last * (1 + 1e-12); last = v; n++; } double f2 = 0; for (auto &q : x.second) for (double z : q) { f2 += z * z; } c.check(dec && n == std::min(x.second.size(), x.second[0].size()), "spectrum-length", fmt("%s: %d values", x.first.c_str(), n)); c.close(s2, f2, f2 + 1e-12, 1e-8, "spectrum-energy"); }
   }
   if (c.kase % 25 == 4)
   {
      int k = r.i(0, 3), rc = forked([&]() { if (k == 0) { t.LookUpSnapshot(BasisTag("nobody")); } else if (k == 1) { t.LookUpSnapshotPortColOffsets(PortTag{"x", "y", 1, 2}); } else if (k == 2) { t.CollectSnapshotsByPort(bp, c.path("missing.port.h5")); } else { config.dict_["sample_generation"]["maximum_number_of_snapshots"] = 2; SG z; Array<int> off(2); off[0] = 0; off[1] = 3; BlockVector U(off); U = 1.0; std::vector<BasisTag> tg = {BasisTag("a")}; Array<int> ci; for (int q = 0; q < 3; q++) { z.SaveSnapshot(&U, tg, ci); } } return 0; });
      c.check(rc == 1, "unusable-request-stops", fmt("kind %d outcome %d", k, rc)); c.event("unusable requests");
   }
   c.sig(fmt("%s|runs%d|used%zu|vars%d|sep%d|comps%d|ports%d|%s", byport ? "port" : possible ? "basis" : "call", runs, ord.size(), nvar, separate, nc, std::min(4, (int)S.ref_names.size()), dflt ? "default" : usefmt ? expl ? "list+format" : "format" : "list"));
   c.sample(fmt("%d runs of %d subdomains (%d components, %zu ports), %zu files collected by %s", runs, nm, nc, S.ports.size(), ord.size(), byport ? "port" : "basis"));
   std::string cmd = "rm -rf '" + k0 + "'"; if (k0.find("/vfcase.") != std::string::npos && system(cmd.c_str())) {}
}
VF_MAIN(600, 12000)
