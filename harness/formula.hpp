// The projection formula, its printed form and deterministic test problems.
#ifndef VERIF_FORMULA_HPP
#define VERIF_FORMULA_HPP
#include "mc.hpp"
using std::string; using std::vector; using std::to_string;
typedef vector<vector<double>> M;

// ------------------------------------------------ the defining formula ---
struct Ref { long double J, ea, eb, S, eff, eJ, ea_err, eb_err, eS, eeff; };   // values and rounding bounds
static Ref formula(const vector<double>& c1, const vector<double>& c2, const M& C, const M& S, const vector<double>& E, bool cp) {
  size_t N = S.size(); vector<long double> a(N, 0), b(N, 0);
  for (size_t i = 0; i < c1.size(); ++i) a[i] = c1[i];
  for (size_t i = 0; i < c2.size(); ++i) b[cp ? i : i + c1.size()] = c2[i];
  Ref r{0, 0, 0, 0, 0, 0, 0, 0, 0, 0}; auto A = [](long double x) { return x < 0 ? -x : x; };
  vector<long double> aS(N, 0), bS(N, 0), aA(N, 0), bA(N, 0);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { aS[j] += a[i] * S[i][j]; bS[j] += b[i] * S[i][j]; aA[j] += A(a[i] * S[i][j]); bA[j] += A(b[i] * S[i][j]); }
  for (size_t k = 0; k < C.size(); ++k) {
    long double ga = 0, gb = 0, sa = 0, sb = 0;
    for (size_t j = 0; j < N; ++j) { ga += aS[j] * C[k][j]; gb += bS[j] * C[k][j]; sa += aA[j] * A(C[k][j]); sb += bA[j] * A(C[k][j]); }
    r.S += ga * gb; r.J += ga * gb * E[k]; r.ea += ga * ga * E[k]; r.eb += gb * gb * E[k];
    r.eS += sa * sb; r.eJ += sa * sb * A(E[k]); r.ea_err += sa * sa * A(E[k]); r.eb_err += sb * sb * A(E[k]);
  }
  long double den = 1 - r.S * r.S, u = 1e-13L * (N + C.size()); r.eff = (r.J - (r.ea + r.eb) / 2 * r.S) / den;
  r.eS *= u; r.eJ *= u; r.ea_err *= u; r.eb_err *= u;
  r.eeff = (r.eJ + (r.ea_err + r.eb_err) / 2 * A(r.S) + A(r.ea + r.eb) / 2 * r.eS + A(r.eff) * (2 * A(r.S) * r.eS + u)) / A(den) + u * A(r.eff);
  return r;
}
static bool singular(const Ref& r) { return std::fabs((double)(1 - r.S * r.S)) < 1e-6; }
static const long double EV = 27.2114L;

static void check_value(double got, const Ref& r, const char* sig, const string& what) {
  mc::check(std::fabs((double)(got - r.eff)) <= (double)r.eeff, sig, [&] {
    std::ostringstream o; o.precision(15); o << what << ": returned " << got << " Hartree, the formula gives " << (double)r.eff << " (J_ab " << (double)r.J << " e_a " << (double)r.ea << " e_b " << (double)r.eb << " S_ab " << (double)r.S << ")"; return o.str(); });
}
// the printed lines: each label once, with the right value and unit
static void check_print(const string& out, const Ref& r, const string& what) {
  struct L { const char* n; long double v, e; bool ev; } ls[] = {{"J_ab", r.J * EV, r.eJ * EV, true}, {"e_a", r.ea * EV, r.ea_err * EV, true}, {"e_b", r.eb * EV, r.eb_err * EV, true}, {"S_ab", r.S, r.eS, false}, {"J_eff", r.eff * EV, r.eeff * EV, true}};
  for (auto& l : ls) {
    int n = 0; std::istringstream is(out); string line;
    while (std::getline(is, line)) {
      std::istringstream w(line); string lab, val, unit, extra; w >> lab;
      if (lab != l.n) continue;
      ++n; w >> val >> unit;
      char* end = nullptr; double v = strtod(val.c_str(), &end);
      mc::check(end && !*end && !val.empty(), "print", [&] { return what + ": line '" + line + "' has no number"; });
      mc::check(std::fabs(v - (double)l.v) <= 1e-5 * std::fabs((double)l.v) + (double)l.e, "print", [&] { std::ostringstream o; o.precision(12); o << what << ": printed '" << line << "', expected " << (double)l.v; return o.str(); });
      mc::check(l.ev ? unit == "eV" : unit.empty(), "print", [&] { return what + ": line '" + line + "' has the wrong unit"; });
    }
    mc::check(n == 1, "print", [&] { return what + ": " + to_string(n) + " lines start with " + l.n + " in\n" + out; });
  }
}

// a deterministic well-conditioned problem: overlap close to the identity, distinct entries everywhere
static double val(int seed, int i, int j) { unsigned h = 2166136261u; for (int v : {seed, i, j}) { h ^= (unsigned)v + 0x9e37u; h *= 16777619u; h ^= h >> 13; } return ((int)(h % 2001) - 1000) / 1000.0; }
static M coefs(int seed, int rows, int cols, double scale) { M m(rows, vector<double>(cols)); for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) m[i][j] = scale * val(seed, i, j); return m; }
static M overlap(int seed, int n) { M m(n, vector<double>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) m[i][j] = m[j][i] = i == j ? 1.0 : 0.3 * val(seed, i, j); return m; }
static vector<double> energies(int seed, int n) { vector<double> e(n); for (int i = 0; i < n; ++i) e[i] = -1.5 + 0.7 * i + 0.05 * val(seed, i, 77); return e; }
static double sc(int n) { return 0.9 / (1 + 0.5 * n); }

#endif
