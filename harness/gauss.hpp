// Generator of well-formed Gaussian log and pun text, with the values it printed.
#ifndef VERIF_GAUSS_HPP
#define VERIF_GAUSS_HPP
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <string>
#include <vector>
namespace gauss {
using std::string; using std::vector; using std::to_string;
typedef vector<vector<double>> M;

inline string fmt(const char* f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
// Fortran D format: sign, 0., digits, D, exponent
inline string dnum(double x, int width, int digits) {
  string s;
  if (x == 0) s = "0." + string(digits, '0') + "D+00";
  else {
    int e = (int)std::floor(std::log10(std::fabs(x))) + 1; double m = std::fabs(x) / std::pow(10.0, e);
    string t = fmt("%.*f", digits, m);
    if (t[0] == '1') { ++e; t = fmt("%.*f", digits, m / 10); }
    if (t[2] == '0') { --e; t = fmt("%.*f", digits, m * 10); }
    s = t + fmt("D%c%02d", e < 0 ? '-' : '+', std::abs(e)); if (x < 0) s = "-" + s;
  }
  while ((int)s.size() < width) s = " " + s;
  return s;
}
inline double dval(string s) { for (char& c : s) if (c == 'D') c = 'e'; return strtod(s.c_str(), nullptr); }
// the value a reader must deliver for x printed in that format
inline double printed(double x, int digits) { return dval(dnum(x, 0, digits)); }
inline double fixed(double x, int w, int d) { return strtod(fmt("%*.*f", w, d, x).c_str(), nullptr); }
inline bool near(double a, double b) { return std::fabs(a - b) <= 1e-12 * std::fabs(b) || a == b; }

// ------------------------------------------------------------------- log ---
struct Atom { string el; int z; double x, y, z3; int nb; };
inline string preamble() { return " Entering Gaussian System, Link 0=g09\n ----------------------------------------------------------------------\n # b3lyp/sto-3g pop=full iop(3/33=1) punch=mo\n"; }
inline string geometry(const vector<Atom>& at, int style) {
  string s = style == 0 ? "                         Standard orientation:                         \n" : "                          Input orientation:                          \n";
  string dash = " ---------------------------------------------------------------------\n";
  s += dash;
  s += style == 1 ? " Center     Atomic     Atomic              Coordinates (Angstroms)\n Number     Number      Type              X           Y           Z\n"
                  : " Center     Atomic      Atomic             Coordinates (Angstroms)\n Number     Number       Type             X           Y           Z\n";
  s += dash; int i = 0;
  for (auto& a : at) s += fmt("%7d%11d%12d    %12.6f%12.6f%12.6f\n", ++i, a.z, 0, a.x, a.y, a.z3);
  return s + dash;
}
inline string lower(const M& S, const char* title) {
  int n = (int)S.size(); string s = string(" *** ") + title + " ***\n";
  for (int b = 0; b < n; b += 5) {
    s += "    "; for (int j = b; j < std::min(n, b + 5); ++j) s += fmt("%14d", j + 1); s += "\n";
    for (int i = b; i < n; ++i) { s += fmt("%7d", i + 1); for (int j = b; j <= std::min(i, b + 4); ++j) s += dnum(S[i][j], 14, 6); s += "\n"; }
  }
  return s;
}
inline string after_overlap(int n) { M k(n, vector<double>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) k[i][j] = 29.0 + i + j; return lower(k, "Kinetic Energy"); }
inline string overlap(const M& S) { return lower(S, "Overlap"); }
inline string energy_lines(const string& spin, const char* kind, const vector<double>& e, int per = 5) {
  string s;
  for (size_t i = 0; i < e.size(); i += per) { s += fmt(" %5s %s eigenvalues -- ", spin.c_str(), kind); for (size_t j = i; j < std::min(e.size(), i + per); ++j) s += fmt("%10.5f", e[j]); s += "\n"; }
  return s;
}
inline string energies(const string& spin, const vector<double>& occ, const vector<double>& virt, int per = 5) { return energy_lines(spin, " occ.", occ, per) + energy_lines(spin, "virt.", virt, per); }
inline const char* orb_name(int k) { static const char* n[] = {"1S", "2S", "2PX", "2PY", "2PZ", "3S", "3PX", "3PY", "3PZ", "4D 0", "4D+1", "13F+10", "13F+11", "4D-1", "4D+2", "4D-2", "14XXXXX", "14XXXXY", "5XX", "6F 0", "6F+1", "10S", "11PX", "12D-2"}; if (k < 24) return n[k]; static std::map<int, string> more; string& m = more[k]; if (m.empty()) { static const char* t[] = {"S", "PX", "PY", "PZ"}; m = std::to_string(15 + (k - 24) / 4) + t[k % 4]; } return m.c_str(); }
inline string population(const vector<Atom>& at, int columns) {
  string s = "     Gross orbital populations:\n"; s += columns == 1 ? "                           1\n" : "                          Total     Alpha     Beta      Spin\n";
  int ao = 0, i = 0;
  for (auto& a : at) {
    ++i;
    for (int k = 0; k < a.nb; ++k) {
      ++ao;
      s += k == 0 ? fmt("%4d %-4d%-2s %-8s", ao, i, a.el.c_str(), orb_name(k)) : fmt("%4d        %-8s", ao, orb_name(k));
      double v = 1.0 + 0.013 * ((ao * 7) % 50) - (ao % 5 == 0 ? 1.2 : 0);
      for (int c = 0; c < columns; ++c) s += fmt("%10.5f", c == 0 ? v : v / 2 + 0.01 * c);
      s += "\n";
    }
  }
  s += "         Condensed to atoms (all electrons):\n"; s += "              1          2\n";
  for (size_t k = 0; k < at.size(); ++k) s += fmt("%6d  %-2s   4.892384   0.408021\n", (int)k + 1, at[k].el.c_str());
  return s;
}
inline int decoys() { return 6; }
inline string decoy(int k) {
  switch (k) {
    case 0: return " -------------------------------------------------------------------\n Center     Atomic                   Forces (Hartrees/Bohr)\n Number     Number              X              Y              Z\n -------------------------------------------------------------------\n      1        6           0.000000000    0.000000000   -0.012345678\n -------------------------------------------------------------------\n";
    case 1: return " The electronic state is 1-A1.\n Orbital symmetries:\n       Occupied  (A1) (A1) (B2)\n       Virtual   (A1) (B2)\n";
    case 2: return " Alpha occ 1 OE=-19.12345 is O1-s=0.9954\n Mulliken charges:\n               1\n     1  O   -0.330532\n     Density Matrix:\n                           1         2\n   1 1   O  1S          2.10549\n";
    case 3: return "\n     Atomic contributions to Alpha molecular orbitals:\n Alpha occ. orbitals 5  virt. 2\n";
    case 4: return " *** Core Hamiltonian ***\n                1             2\n      1 -0.328064D+02\n      2 -0.764209D+01 -0.927401D+01\n";
    default: return " SCF Done:  E(RB3LYP) =  -75.3128     A.U. after    8 cycles\n";
  }
}
inline string ending() { return " Job cpu time:  0 days  0 hours  0 minutes  1.0 seconds.\n Normal termination of Gaussian 09.\n"; }

// ------------------------------------------------------------------- pun ---
inline string pun_header() { return "(5D15.8)\n"; }
inline string pun_orbitals(const string& spin, const M& C, const vector<double>& oe = {}) {
  string s;
  for (size_t k = 0; k < C.size(); ++k) {
    s += fmt("%5d %s MO OE=%s\n", (int)k + 1, spin.c_str(), dnum(k < oe.size() ? oe[k] : -1.0 - 0.1 * k, 15, 8).c_str());
    for (size_t i = 0; i < C[k].size(); ++i) { s += dnum(C[k][i], 15, 8); if (i % 5 == 4 || i + 1 == C[k].size()) s += "\n"; }
  }
  return s;
}
inline M printed(const M& m, int digits) { M r = m; for (auto& v : r) for (double& x : v) x = printed(x, digits); return r; }

// ----------------------------------------------------------------- files ---
inline void put(const string& path, const string& text) { std::ofstream f(path, std::ios::binary | std::ios::trunc); f.write(text.data(), (std::streamsize)text.size()); }
inline string scratch() {
  static string d; static pid_t owner = 0;
  if (owner != getpid()) {
    const char* e = getenv("VERIF_SCRATCH"); d = string(e ? e : "/tmp") + "/w" + to_string(getpid()); mkdir(d.c_str(), 0755); owner = getpid();
  }
  return d;
}
}  // namespace gauss
#endif
