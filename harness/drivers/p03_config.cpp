// Reference model: a nested ordered map of typed values. Every lookup through the real parser is compared with the model.
#include "common.hpp"
#include "input_parser.hpp"
#include "etc.hpp"
#include <memory>
using namespace vf;

struct Val; typedef std::shared_ptr<Val> VP;
struct Val
{
   char t; // i d b s | I D S (lists) | m (map) | L (list of maps)
   int i = 0; double d = 0; bool b = false; std::string s;
   std::vector<int> I; std::vector<double> Dv; std::vector<std::string> S;
   std::vector<std::pair<std::string, VP>> m; std::vector<VP> L;
   VP get(const std::string &k) { for (auto &p : m) { if (p.first == k) { return p.second; } } return nullptr; }
   void put(const std::string &k, VP v) { for (auto &p : m) { if (p.first == k) { p.second = v; return; } } m.push_back({k, v}); }
};
static std::string dstr(double v) { return fmt("%.17g", v); }
static double rd(Rng &r) { if (r.b(0.03)) { return r.pick<double>({0.0, 1.0, 100000.0, 1e6, 123456789.0, 1e15, 9007199254740993.0, 1e100, 1e300, 2.2250738585072014e-308, 1e-300, -1e-9, 0.1, 1.0 / 3}); } return r.b(0.3) ? (double)r.i(-5, 5) + 0.5 : r.u(-1, 1) * std::pow(10.0, r.i(-12, 12)); }
static std::string longword(Rng &r) { static const int len[] = {15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 199, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 3000}; int n = len[r.i(0, 26)]; std::string s = "w"; while ((int)s.size() < n) { s += "abcdefghij_KLMNOP.qrs/tuv-XYZ0123456789"[r.i(0, 38)]; } if (s.back() == '.' || s.back() == '/') { s.back() = 'z'; } return s; }
static std::string word(Rng &r) { if (r.b(0.06)) { return longword(r); } static const char *w[] = {"alpha", "beta", "mesh", "file-name.h5", "x_y", "dd", "A1", "path/to/file_00001.h5", "name with space", "rom", "component", "nu"}; return w[r.i(0, 11)]; }
static std::string key(Rng &r) { if (r.b(0.05)) { return r.pick<std::string>({"a_rather_long_option_name_that_does_not_fit_small_strings", "Abcdefghijklmnopqrstuvwxyz", "0", "10", "true_", "mesh2", "x-y-z", "Mesh", "MESH", "_", "parameterized_problem"}); } static const char *w[] = {"a", "b", "mesh", "type", "solver", "max_iter", "k-1", "k.2", "name", "option", "aa", "ab"}; return w[r.i(0, 11)]; }

static VP leaf(Rng &r)
{
   auto v = std::make_shared<Val>(); v->t = r.pick<char>({'i', 'd', 'b', 's', 'I', 'D', 'S', 'i', 'd', 's'});
   switch (v->t)
   {
      case 'i': v->i = r.b(0.2) ? (r.b() ? 2147483647 : -2147483647 - 1) : r.i(-1000, 1000); break;
      case 'd': v->d = rd(r); break;
      case 'b': v->b = r.b(); break;
      case 's': v->s = word(r); break;
      case 'I': for (int k = r.b(0.06) ? r.pick<int>({6, 8, 10, 16, 33, 64, 100, 129, 300}) : r.i(0, 5); k > 0; k--) { v->I.push_back(r.b(0.05) ? r.i(-2000000000, 2000000000) : r.i(-99, 99)); } break;
      case 'D': for (int k = r.b(0.06) ? r.pick<int>({6, 8, 10, 16, 33, 64, 100, 129, 300}) : r.i(0, 5); k > 0; k--) { v->Dv.push_back(rd(r)); } break;
      case 'S': for (int k = r.b(0.06) ? r.pick<int>({5, 6, 8, 10, 16, 33, 64, 100}) : r.i(0, 4); k > 0; k--) { v->S.push_back(word(r)); } break;
   }
   return v;
}
static VP tree(Rng &r, int depth)
{
   auto v = std::make_shared<Val>(); v->t = 'm'; int n = r.b(0.05) ? r.i(6, 14) : r.i(1, 5);
   for (int k = 0; k < n; k++)
   {
      VP c;
      if (depth > 0 && r.b(0.4)) { c = tree(r, depth - 1); }
      else if (depth > 0 && r.b(0.2)) { c = std::make_shared<Val>(); c->t = 'L'; for (int q = r.b(0.05) ? r.i(5, 30) : r.i(0, 4); q > 0; q--) { c->L.push_back(tree(r, depth - 1)); } }
      else { c = leaf(r); }
      v->put(key(r), c);
   }
   return v;
}
static std::string flow(const VP &v)
{
   std::string o;
   switch (v->t)
   {
      case 'i': return fmt("%d", v->i);
      case 'd': return dstr(v->d);
      case 'b': return v->b ? "true" : "false";
      case 's': return v->s;
      case 'I': o = "["; for (size_t k = 0; k < v->I.size(); k++) { o += (k ? ", " : "") + fmt("%d", v->I[k]); } return o + "]";
      case 'D': o = "["; for (size_t k = 0; k < v->Dv.size(); k++) { o += (k ? ", " : "") + dstr(v->Dv[k]); } return o + "]";
      case 'S': o = "["; for (size_t k = 0; k < v->S.size(); k++) { o += (k ? ", " : "") + v->S[k]; } return o + "]";
   }
   return "";
}
static void emit(const VP &v, int ind, std::string &o)
{
   std::string pad(ind, ' ');
   for (auto &p : v->m)
   {
      o += pad + p.first + ":";
      if (p.second->t == 'm') { o += "\n"; emit(p.second, ind + 2, o); }
      else if (p.second->t == 'L')
      {
         if (p.second->L.empty()) { o += " []\n"; continue; }
         o += "\n";
         for (auto &e : p.second->L) { std::string s; emit(e, ind + 4, s); s[ind + 2] = '-'; o += s; }
      }
      else { o += " " + flow(p.second) + "\n"; }
   }
}
static bool same(InputParser &ip, const std::string &path, const VP &v, std::string &d)
{
   switch (v->t)
   {
      case 'i': { int x = ip.GetOption<int>(path, v->i ^ 1); d = fmt("int %d expected %d", x, v->i); return x == v->i; }
      case 'd': { double x = ip.GetOption<double>(path, v->d + 1); d = fmt("double %.17g expected %.17g", x, v->d); return x == v->d; }
      case 'b': { bool x = ip.GetOption<bool>(path, !v->b); d = "bool"; return x == v->b; }
      case 's': { std::string x = ip.GetOption<std::string>(path, v->s + "?"); d = "string '" + x + "' expected '" + v->s + "'"; return x == v->s; }
      case 'I': { Array<int> fb({-12345}); Array<int> x = ip.GetOption<Array<int>>(path, fb); d = fmt("int list of %d expected %zu", x.Size(), v->I.size()); if (x.Size() != (int)v->I.size()) { return false; } for (int k = 0; k < x.Size(); k++) if (x[k] != v->I[k]) { return false; } return true; }
      case 'D': { Vector fb(1); fb = 9; Vector x = ip.GetOption<Vector>(path, fb); d = fmt("real list of %d expected %zu", x.Size(), v->Dv.size()); if (x.Size() != (int)v->Dv.size()) { return false; } for (int k = 0; k < x.Size(); k++) if (x[k] != v->Dv[k]) { return false; }
            Array<double> y = ip.GetRequiredOption<Array<double>>(path); if (y.Size() != x.Size()) { return false; } for (int k = 0; k < x.Size(); k++) if (y[k] != v->Dv[k]) { return false; }
            std::vector<double> z = ip.GetRequiredOption<std::vector<double>>(path); return z == v->Dv; }
      case 'S': { auto x = ip.GetOption<std::vector<std::string>>(path, {"?"}); d = fmt("string list of %zu expected %zu", x.size(), v->S.size()); return x == v->S; }
   }
   return true;
}
static bool same_req(InputParser &ip, const std::string &path, const VP &v)
{
   switch (v->t)
   {
      case 'i': return ip.GetRequiredOption<int>(path) == v->i;
      case 'd': return ip.GetRequiredOption<double>(path) == v->d;
      case 'b': return ip.GetRequiredOption<bool>(path) == v->b;
      case 's': return ip.GetRequiredOption<std::string>(path) == v->s;
      case 'S': return ip.GetRequiredOption<std::vector<std::string>>(path) == v->S;
   }
   return true;
}
static void walk(const VP &v, const std::string &p, std::vector<std::pair<std::string, VP>> &out)
{ for (auto &q : v->m) { std::string k = p.empty() ? q.first : p + "/" + q.first; out.push_back({k, q.second}); if (q.second->t == 'm') { walk(q.second, k, out); } } }
static VP find(VP v, const std::string &path, bool &through)
{ // through: a non-map is crossed
   std::istringstream is(path); std::string s; through = false;
   while (std::getline(is, s, '/')) { if (!v) { return nullptr; } if (v->t != 'm') { through = true; return nullptr; } v = v->get(s); }
   return v;
}
static void setv(VP v, const std::string &path, VP nv)
{ std::istringstream is(path); std::vector<std::string> ks; std::string s; while (std::getline(is, s, '/')) { ks.push_back(s); }
   for (size_t k = 0; k + 1 < ks.size(); k++) { VP n = v->get(ks[k]); if (!n) { n = std::make_shared<Val>(); n->t = 'm'; v->put(ks[k], n); } v = n; } v->put(ks.back(), nv); }
static void setreal(InputParser &ip, const std::string &path, const VP &v)
{
   switch (v->t)
   {
      case 'i': ip.SetOption<int>(path, v->i); break;
      case 'd': ip.SetOption<double>(path, v->d); break;
      case 'b': ip.SetOption<bool>(path, v->b); break;
      case 's': ip.SetOption<std::string>(path, v->s); break;
      case 'I': { Array<int> a; for (int x : v->I) { a.Append(x); } ip.SetOption<Array<int>>(path, a); break; }
      case 'D': { Vector a(v->Dv.size()); for (size_t k = 0; k < v->Dv.size(); k++) { a(k) = v->Dv[k]; } ip.SetOption<Vector>(path, a); break; }
      case 'S': ip.SetOption<std::vector<std::string>>(path, v->S); break;
   }
}
static std::string rpath(Rng &r, int maxd) { std::string p = key(r); for (int k = r.b(0.04) ? r.i(4, 12) : r.i(0, maxd); k > 0; k--) { p += "/" + key(r); } return p; }

void vf::setup(Ctx &) {}
void vf::run_case(Ctx &c)
{
   Rng &r = c.rng;
   int inited = 0; MPI_Initialized(&inited); bool mpi = c.kase >= vf::num_cases(c.tier) / 2;
   if (mpi && !inited) { MPI_Init(NULL, NULL); }
   if (!mpi && inited) { return; }
   VP root = tree(r, r.b(0.05) ? r.i(4, 6) : r.i(1, 3)); std::string text; emit(root, 0, text);
   if (r.b(0.3)) { text = "# a comment\n" + text + std::string(r.i(0, 40), '\n') + "# end"; }
   std::string fn = c.path("in.yml"); { std::ofstream o(fn); o << text; }
   // command-line overrides
   std::string forced; int nf = r.b(0.5) ? (r.b(0.08) ? r.i(5, 25) : r.i(1, 4)) : 0;
   for (int k = 0; k < nf; k++)
   {
      VP v = leaf(r); if ((v->t == 'I' && v->I.empty()) || (v->t == 'D' && v->Dv.empty()) || (v->t == 'S' && v->S.empty())) { continue; }
      std::string p = rpath(r, 2); bool th; find(root, p, th); if (th) { continue; }
      bool parent_ok = true; { std::string pre; std::istringstream is(p); std::string s; while (std::getline(is, s, '/')) { if (!pre.empty()) { bool t2; VP q = find(root, pre, t2); if (q && q->t != 'm') { parent_ok = false; } } pre += (pre.empty() ? "" : "/") + s; } }
      if (!parent_ok) { continue; }
      forced += (forced.empty() ? "" : ":") + p + "=" + flow(v); setv(root, p, v); c.event("command-line override");
   }
   InputParser ip(fn, forced);
   auto audit = [&](const std::string &when)
   {
      std::vector<std::pair<std::string, VP>> all; walk(root, "", all);
      for (auto &q : all)
      {
         std::string d; bool ok = true;
         if (q.second->t == 'm') { YAML::Node n = ip.FindNode(q.first); ok = n && n.IsMap(); int cnt = 0; for (auto it = n.begin(); it != n.end(); ++it) { cnt++; } ok = ok && cnt == (int)q.second->m.size(); d = "map size"; }
         else if (q.second->t == 'L') { YAML::Node n = ip.FindNode(q.first); ok = n && n.size() == q.second->L.size(); d = "list size"; }
         else { ok = same(ip, q.first, q.second, d) && same_req(ip, q.first, q.second); }
         c.check(ok, "value:" + when + ":" + std::string(1, q.second->t), q.first + " " + d);
      }
   };
   audit("after-parse");
   int nops = r.b(0.04) ? r.i(60, 150) : r.i(5, 25); std::string ops;
   for (int k = 0; k < nops; k++)
   {
      int op = r.i(0, 9); std::vector<std::pair<std::string, VP>> all; walk(root, "", all);
      if (op <= 2) // set
      {
         std::string p = r.b(0.5) ? r.pick(all).first : rpath(r, 3); bool th; 
         // every proper prefix must be a map or absent
         bool ok = true; std::string pre; std::istringstream is(p); std::string s; while (std::getline(is, s, '/')) { if (!pre.empty()) { VP q = find(root, pre, th); if (th || (q && q->t != 'm')) { ok = false; } } pre += (pre.empty() ? "" : "/") + s; }
         if (!ok) { continue; }
         VP old = find(root, p, th); VP v = leaf(r);
         if ((v->t == 'I' && v->I.empty()) || (v->t == 'D' && v->Dv.empty()) || (v->t == 'S' && v->S.empty())) { continue; }
         setreal(ip, p, v); setv(root, p, v);
         std::string d; c.check(same(ip, p, v, d), std::string("set-then-get:") + v->t, p + " " + d); ops += 'S'; c.event(old ? "option overwritten" : "option created");
         c.sig(fmt("set|%s>%c|%zu|%d", old ? std::string(1, old->t).c_str() : "new", v->t, std::count(p.begin(), p.end(), '/'), mpi));
      }
      else if (op <= 5) // missing -> fallback
      {
         std::string p = rpath(r, 3); bool th; VP v = find(root, p, th); if (v || th) { continue; }
         int fb = r.i(-9, 9); double fd = rd(r); std::string fs = word(r); Array<int> fa({fb, 3}); bool fbool = r.b();
         Array<int> ga = ip.GetOption<Array<int>>(p, fa);
         bool ok = ip.GetOption<int>(p, fb) == fb && ip.GetOption<double>(p, fd) == fd && ip.GetOption<std::string>(p, fs) == fs && ga.Size() == 2 && ga[0] == fb && ga[1] == 3 && ip.GetOption<bool>(p, fbool) == fbool && !ip.FindNode(p);
         c.check(ok, "missing-gives-fallback", p); c.event("missing option looked up"); c.sig(fmt("missing|%zu|%d", std::count(p.begin(), p.end(), '/'), mpi)); ops += 'M';
         if (r.b(0.05)) { int rc = forked([&]() { ip.GetRequiredOption<int>(p); return 0; }, nullptr, 60); c.check(rc == 1, "missing-required-stops", p + fmt(" outcome %d", rc)); c.event("missing required option"); }
      }
      else if (op == 6) // lookup in a sub-dictionary
      {
         std::vector<std::pair<std::string, VP>> maps; for (auto &q : all) { if (q.second->t == 'm') { maps.push_back(q); } } if (maps.empty()) { continue; }
         auto q = r.pick(maps); auto e = q.second->m[r.i(0, (int)q.second->m.size() - 1)]; YAML::Node sub = ip.FindNode(q.first); if (e.second->t != 'i' && e.second->t != 's') { continue; }
         bool ok = e.second->t == 'i' ? ip.GetRequiredOptionFromDict<int>(e.first, sub) == e.second->i && ip.GetOptionFromDict<int>(e.first, 0, sub) == e.second->i : ip.GetRequiredOptionFromDict<std::string>(e.first, sub) == e.second->s;
         ok = ok && ip.GetOptionFromDict<int>("zz/none", 17, sub) == 17;
         c.check(ok, "sub-dictionary-lookup", q.first + "/" + e.first); c.event("sub-dictionary lookup"); ops += 'D'; c.sig(fmt("sub|%c|%d", e.second->t, mpi));
         if (r.b(0.3)) { int nv = r.i(-99, 99); if (e.second->t == 'i') { ip.SetOptionInDict<int>(e.first, nv, sub); auto v = std::make_shared<Val>(); v->t = 'i'; v->i = nv; q.second->put(e.first, v); c.check(ip.GetRequiredOption<int>(q.first + "/" + e.first) == nv, "set-in-sub-dictionary", e.first); } }
      }
      else // table look-up in a list of maps
      {
         std::vector<std::pair<std::string, VP>> ls; for (auto &q : all) { if (q.second->t == 'L') { ls.push_back(q); } } if (ls.empty()) { continue; }
         auto q = r.pick(ls); auto &L = q.second->L; YAML::Node lst = ip.FindNode(q.first);
         // pick a leaf key of type int/string in a random element
         std::string lk = rpath(r, 1); std::string want; int wi = 0; bool isint = false, have = false;
         if (!L.empty()) { std::vector<std::pair<std::string, VP>> el; walk(L[r.i(0, (int)L.size() - 1)], "", el); auto &e = r.pick(el); lk = e.first; if (e.second->t == 'i') { isint = true; wi = e.second->i; have = true; } else if (e.second->t == 's') { want = e.second->s; have = true; } }
         if (!have) { continue; }
         // model: first element whose lk exists and (converted) equals. Skip when another element holds lk with another kind, or the path crosses a non-map.
         int hit = -1; bool skip = false;
         for (size_t e = 0; e < L.size(); e++) { bool th; VP v = find(L[e], lk, th); if (th) { skip = true; break; } if (!v) { continue; } if (v->t != (isint ? 'i' : 's')) { skip = true; break; } if (hit < 0 && (isint ? v->i == wi : v->s == want)) { hit = e; } }
         if (skip) { continue; }
         bool miss = r.b(0.25); if (miss) { want += "#no"; wi = 424242; hit = -1; }
         YAML::Node got = isint ? ip.LookUpFromDict(lk, wi, lst) : ip.LookUpFromDict(lk, want, lst);
         c.check((bool)got == (hit >= 0), "table-lookup-presence", q.first + " " + lk);
         std::string rk = "b"; int fbv = -77, expect = fbv; if (hit >= 0) { std::vector<std::pair<std::string, VP>> el; walk(L[hit], "", el); for (auto &x : el) { if (x.second->t == 'i' && r.b(0.6)) { rk = x.first; expect = x.second->i; break; } } bool th; VP v = find(L[hit], rk, th); if (th || (v && v->t != 'i')) { continue; } if (v) { expect = v->i; } }
         int res = isint ? ip.LookUpFromDict<int, int>(lk, wi, rk, fbv, lst) : ip.LookUpFromDict<std::string, int>(lk, want, rk, fbv, lst);
         c.check(res == expect, "table-lookup-value", fmt("%s[%s] -> %s got %d expected %d (entry %d of %zu)", q.first.c_str(), lk.c_str(), rk.c_str(), res, expect, hit, L.size()));
         if (hit >= 0 && (bool)got) { std::vector<std::pair<std::string, VP>> el; walk(L[hit], "", el); for (auto &x : el) if (x.second->t == 'i') { c.check(ip.GetRequiredOptionFromDict<int>(x.first, got) == x.second->i, "table-lookup-entry", x.first); } }
         c.event(hit >= 0 ? "table look-up hit" : "table look-up miss"); ops += 'T'; c.sig(fmt("table|%d|%zu|%d|%d", hit, L.size(), isint, mpi));
      }
      if (r.b(0.3)) { audit("after-ops"); }
   }
   audit("at-end");
   { // tables with repeated names and rows that lack the looked-up entry: the first row of the name decides
      int rows = r.b(0.06) ? r.pick<int>({7, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 150}) : r.i(0, 6), cols = 3; bool big = rows > 6; auto anm = [&]() { return big && r.b(0.9) ? fmt("row%d", r.i(0, rows)) : std::string(1, "abc"[r.i(0, 2)]); }; std::vector<std::string> nm(rows); std::vector<std::array<int, 3>> val(rows); std::string t = rows ? "tab:\n" : "tab: []\n"; bool nested = r.b(0.3);
      for (int k = 0; k < rows; k++)
      {
         nm[k] = r.b(0.15) ? "" : anm(); t += "  - {z: 0"; if (nm[k] != "") { t += nested ? ", id: {name: " + nm[k] + "}" : ", name: " + nm[k]; }
         for (int q = 0; q < cols; q++) { val[k][q] = r.b(0.55) ? r.i(1, 99) : -1; if (val[k][q] > 0) { t += fmt(", v%d: %d", q, val[k][q]); } } t += "}\n";
      }
      { std::ofstream o(c.path("tab.yml")); o << t; } InputParser q(c.path("tab.yml")); YAML::Node lst = q.FindNode("tab"); std::string lk = nested ? "id/name" : "name";
      for (int k = 0; k < (big ? 40 : 6); k++)
      {
         std::string w = r.b(0.2) ? "d" : anm(); if (big && r.b(0.3)) { std::string l = nm[r.i(rows / 2, rows - 1)]; if (l != "") { w = l; } } int col = r.i(0, cols - 1), hit = -1; for (int e = 0; e < rows && hit < 0; e++) if (nm[e] == w) { hit = e; }
         int expect = hit >= 0 && val[hit][col] > 0 ? val[hit][col] : -5, got = q.LookUpFromDict<std::string, int>(lk, w, fmt("v%d", col), -5, lst); c.event("repeated-name table look-up");
         c.check(got == expect, "table-first-row", fmt("%s v%d got %d expected %d (row %d) in %s", w.c_str(), col, got, expect, hit, t.c_str())); YAML::Node nd = q.LookUpFromDict(lk, w, lst); c.check((bool)nd == (hit >= 0), "table-first-row-presence", w);
         if (hit >= 0 && nd) { for (int e = 0; e < cols; e++) { c.check(q.GetOptionFromDict<int>(fmt("v%d", e), -1, nd) == val[hit][e], "table-first-row-entry", fmt("%s v%d", w.c_str(), e)); } }
         c.sig(fmt("rep|%d|%d|%d", std::min(hit, 3), expect > 0, nested));
      }
   }
   if (c.kase % 40 == 0)
   { // malformed command-line overrides must stop the program
      std::string bad = r.pick<std::string>({"abc", "a=b=c", "a=1:b", "a=1:b=2=3", "=", "a="});
      int rc = forked([&]() { InputParser q(fn, bad); return 0; }); c.check(rc == 1, "malformed-override-stops", bad + fmt(" outcome %d", rc)); c.event("malformed override");
   }
   c.sig(fmt("tree|%zu|%d", root->m.size(), (int)forced.size() > 0)); c.sample(fmt("%zu bytes of yaml, overrides '%s', ops %s, mpi %d", text.size(), forced.c_str(), ops.c_str(), mpi));
}
int vf::num_cases(const std::string &t) { return t == "thorough" ? 40000 : 2400; }
int main(int argc, char **argv) { int rc = vf::driver_main(argc, argv); fflush(stdout); fflush(stderr); _exit(rc); }
