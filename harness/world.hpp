// Small molecules in monomer and dimer calculations, the files that describe them and the coupling they have.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include "mc.hpp"
#include "formula.hpp"
#include "gauss.hpp"
#include <numeric>
using namespace gauss;
// ------------------------------------------------------------ the molecules ---
struct Spin { M C; vector<double> E; int homo = 0; };
struct Calc { vector<Atom> at; std::map<string, Spin> spin; M S; };
struct World { Calc P, m1, m2; bool cp = false; };
static Atom site(int a, int nb) {
  static const double t[][3] = {{0, 0, 0}, {1.0001, 0, 0}, {-1.0001, 0, 0}, {1.0002, 0, 0}, {0, 1.0001, 0}, {0, 0, 1.0001}, {12.345678, -0.0001, 2}, {12.345778, -0.0001, 2}, {12.345678, 0.0001, 2}, {1, 1, 1}};
  static const char* el[] = {"C", "H", "O", "Cl", "N", "S", "Br", "C", "H", "H"}; static const int z[] = {6, 1, 8, 17, 7, 16, 35, 6, 1, 1};
  return {el[a % 10], z[a % 10], t[a % 10][0] + a / 10, t[a % 10][1], t[a % 10][2], nb};
}
static Spin spin_of(int seed, int K, int N, int homo) { Spin s; s.C = coefs(seed, K, N, sc(N)); s.E = energies(seed + 50, K); if (seed % 2) { if (homo >= 2) std::swap(s.E[0], s.E[homo - 1]); if (K - homo >= 2) std::swap(s.E[homo], s.E[K - 1]); } s.homo = homo; return s; }  // not always in ascending order
static vector<int> block_columns(const vector<Atom>& at, const vector<int>& perm) { vector<int> off(1, 0), c; for (auto& a : at) off.push_back(off.back() + a.nb); for (int a : perm) for (int k = 0; k < at[a].nb; ++k) c.push_back(off[a] + k); return c; }
// the same calculation as a file that lists the atoms in another order would hold it
static Calc reordered(const Calc& c, const vector<int>& perm) {
  Calc r = c; r.at.clear(); for (int a : perm) r.at.push_back(c.at[a]); vector<int> col = block_columns(c.at, perm);
  for (auto& s : r.spin) { M n = s.second.C; for (size_t k = 0; k < n.size(); ++k) for (size_t j = 0; j < col.size(); ++j) n[k][j] = c.spin.at(s.first).C[k][col[j]]; s.second.C = n; }
  if (!c.S.empty()) for (size_t i = 0; i < col.size(); ++i) for (size_t j = 0; j < col.size(); ++j) r.S[i][j] = c.S[col[i]][col[j]];
  return r;
}
static string energy_text(const Calc& c) { string s; for (auto& p : c.spin) { auto& e = p.second.E; int h = p.second.homo; s += gauss::energies(p.first, vector<double>(e.begin(), e.begin() + h), vector<double>(e.begin() + h, e.end())); } return s; }
enum { GEO, OVL, ENE, POP, NSEC };
static string section(const Calc& c, int k) {
  switch (k) { case GEO: return geometry(c.at, 0); case OVL: return c.S.empty() ? "" : gauss::overlap(c.S) + after_overlap((int)c.S.size()); case ENE: return " The electronic state is 1-A1.\n" + energy_text(c); default: return population(c.at, c.spin.size() > 1 ? 4 : 1); }
}
static string log_text(const Calc& c, const vector<int>& order = {GEO, OVL, ENE, POP}) { string s = preamble(); for (int k : order) s += section(c, k); return s + ending(); }
static string pun_text(const Calc& c) { string s = pun_header(); for (auto& p : c.spin) s += pun_orbitals(p.first, p.second.C, p.second.E); return s; }
static void put_calc(const string& stem, const Calc& c, const vector<int>& order = {GEO, OVL, ENE, POP}) { put(stem + ".log", log_text(c, order)); put(stem + ".pun", pun_text(c)); }
static M p6(const M& m) { return gauss::printed(m, 6); }
static M p8(const M& m) { return gauss::printed(m, 8); }
static vector<double> p5(vector<double> v) { for (double& x : v) x = fixed(x, 10, 5); return v; }
struct Pick { string sP = "Alpha", s1 = "Alpha", s2 = "Alpha", t1 = "HOMO", t2 = "HOMO"; int n1 = 0, n2 = 0; };
static int row_of(const Spin& s, const string& type, int num) { return type == "HOMO" ? s.homo + num : s.homo + 1 + num; }
static bool selectable(const Calc& c, const string& spin, const string& type, int num) { auto it = c.spin.find(spin); if (it == c.spin.end()) return false; int r = row_of(it->second, type, num); return type == "HOMO" ? r >= 1 && num <= 0 : r <= (int)it->second.E.size() && num >= 0; }
static Ref reference(const World& w, const Pick& p) {
  const Spin &P = w.P.spin.at(p.sP), &a = w.m1.spin.at(p.s1), &b = w.m2.spin.at(p.s2);
  return formula(p8(a.C)[row_of(a, p.t1, p.n1) - 1], p8(b.C)[row_of(b, p.t2, p.n2) - 1], p8(P.C), p6(w.P.S), p5(P.E), w.cp);
}
// monomers of nA and nB atoms with their own functions; cp: every calculation has all atoms
static World world(const vector<int>& nb, int nA, bool cp, bool unrestricted, int seed = 0, int KP = 3, int K1 = 3, int K2 = 4, int rot = 0) {
  World w; w.cp = cp; int n = (int)nb.size(), N = std::accumulate(nb.begin(), nb.end(), 0), NA = std::accumulate(nb.begin(), nb.begin() + nA, 0);
  vector<Atom> all; for (int i = 0; i < n; ++i) all.push_back(site((i + rot) % 10 + (i >= 10 ? 10 * (i / 10) : 0), nb[i]));
  w.P.at = all; w.m1.at = cp ? all : vector<Atom>(all.begin(), all.begin() + nA); w.m2.at = cp ? all : vector<Atom>(all.begin() + nA, all.end());
  w.P.S = ::overlap(seed + 4, N); w.P.spin["Alpha"] = spin_of(seed + 3, KP, N, KP / 2);
  w.m1.spin["Alpha"] = spin_of(seed + 1, K1, cp ? N : NA, 1 + K1 / 3); w.m2.spin["Alpha"] = spin_of(seed + 2, K2, cp ? N : N - NA, K2 / 2);
  w.m1.S = ::overlap(seed + 8, cp ? N : NA); w.m2.S = ::overlap(seed + 9, cp ? N : N - NA);
  if (unrestricted) { w.P.spin["Beta"] = spin_of(seed + 13, KP, N, KP / 2); w.m1.spin["Beta"] = spin_of(seed + 11, K1, cp ? N : NA, K1 / 3); w.m2.spin["Beta"] = spin_of(seed + 12, K2, cp ? N : N - NA, K2 / 2 - 1); }
  return w;
}
static vector<string> file_args(const string& d, int style) {
  vector<string> a; const char* mol[] = {"P", "1", "2"}; const string stem[] = {d + "/pair", d + "/mon1", d + "/mon2"};
  for (int i = 0; i < 3; ++i) {
    int s = style == 3 ? i % 2 : style;       // 3: one kind for each
    if (s == 0 || s == 2) { a.push_back(string(style == 2 ? "-p_" : "--pun_") + mol[i]); a.push_back(stem[i] + ".pun"); }
    if (s == 1 || s == 2) { a.push_back(string(s == 1 && i % 2 ? "-l_" : "--log_") + mol[i]); a.push_back(stem[i] + ".log"); }
  }
  return a;
}
static void pick_args(vector<string>& a, const Pick& p, bool cp, bool all) {
  auto add = [&](const char* f, const string& v, const string& def) { if (all || v != def) { a.push_back(f); a.push_back(v); } };
  add("-s_P", p.sP, "Alpha"); add("--spin_1", p.s1, "Alpha"); add("-s_2", p.s2, "Alpha"); add("-orb_ty_1", p.t1, "HOMO"); add("--orbital_type_2", p.t2, "HOMO"); add("--orbital_num_1", to_string(p.n1), "0"); add("-orb_num_2", to_string(p.n2), "0");
  if (cp) a.push_back("-cp");
}
static vector<int> choose_perm(int n) { vector<int> left(n), p; std::iota(left.begin(), left.end(), 0); while (!left.empty()) { int k = mc::choose((int)left.size()); p.push_back(left[k]); left.erase(left.begin() + k); } return p; }
static string str(const vector<int>& v) { string s = "("; for (int x : v) s += " " + to_string(x); return s + " )"; }
static vector<int> ident(int n) { vector<int> v(n); std::iota(v.begin(), v.end(), 0); return v; }

#endif
