// C01, C02, C03, C04, C06: the projection formula, orbital selection and atom realignment of the library.
#include "mc.hpp"
#include "formula.hpp"
#include "matrix.hpp"
#include "qc_functions.hpp"
#include <memory>
#include <numeric>
using namespace catnip;

static Matrix mk(const M& m) {
  Matrix r((int)m.size(), (int)m[0].size());
  for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[0].size(); ++j) r.set_elem(m[i][j], (int)i + 1, (int)j + 1);
  return r;
}
static Matrix* mkp(const M& m) { return new Matrix(mk(m)); }
static Matrix colv(const vector<double>& v) { Matrix r((int)v.size(), 1); for (size_t i = 0; i < v.size(); ++i) r.set_elem(v[i], (int)i + 1, 1); return r; }
static string str(const M& m) { std::ostringstream o; for (auto& r : m) { o << "["; for (double x : r) o << " " << x; o << " ]"; } return o.str(); }
static bool eq(const Matrix& a, const M& m) {
  if (a.get_rows() != (int)m.size() || a.get_cols() != (int)m[0].size()) return false;
  for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < m[0].size(); ++j) if (a.get_elem((int)i + 1, (int)j + 1) != m[i][j]) return false;
  return true;
}
static string show(const Matrix& a) { std::ostringstream o; for (int i = 1; i <= a.get_rows(); ++i) { o << "["; for (int j = 1; j <= a.get_cols(); ++j) o << " " << a.get_elem(i, j); o << " ]"; } return o.str(); }

// ---------------------------------------------------------------- C01 ---
static void one_formula(const vector<double>& c1, const vector<double>& c2, const M& C, const M& S, const vector<double>& E, bool cp) {
  Ref r = formula(c1, c2, C, S, E, cp);
  mc::state(mc::Hash().add(c1).add(c2).add((int)cp).add(E).add(str(C)).add(str(S)));
  if (singular(r)) { mc::outcome("singular, not judged"); return; }
  mc::tr([&] { return "c1 " + str(M{c1}) + " c2 " + str(M{c2}) + " C " + str(C) + " S " + str(S) + " E " + str(M{E}) + (cp ? " counterpoise" : ""); });
  double got = 0; string out; Matrix m1 = mk(M{c1}), m2 = mk(M{c2}), mC = mk(C), mS = mk(S), mE = colv(E);
  mc::CaptureCout cap;
  mc::Attempt a = mc::attempt([&] { got = calculate_transfer_integral(m1, m2, mC, mS, mE, cp); });
  out = cap.str(); mc::step();
  mc::check(a.ok(), "refused", [&] { return "consistent matrices were " + a.str(); });
  check_value(got, r, "value", "calculate_transfer_integral");
  check_print(out, r, "calculate_transfer_integral");
  mc::check(eq(m1, M{c1}) && eq(m2, M{c2}) && eq(mC, C) && eq(mS, S), "inputs changed");
  mc::outcome(cp ? "counterpoise ok" : "ok");
}
static void setup01() {
  mc::scenario("two-functions", "two basis functions, one per monomer, 1 or 2 dimer orbitals, EVERY combination of coefficients in {-1,0,1/2,2}, overlap off-diagonal in {0,1/2,-1/4} and diagonal in {1,2}, energies in {-1,0,1/4} (quick: coefficients {-1,1/2,2}, off-diagonal {1/2,-1/4})", [] {
    vector<double> cv = mc::thorough() ? vector<double>{-1, 0, .5, 2} : vector<double>{-1, .5, 2}, ov = mc::thorough() ? vector<double>{0, .5, -.25} : vector<double>{.5, -.25}, dv{1, 2}, ev{-1, 0, .25};
    int K = 1 + mc::choose(2);
    vector<double> c1{mc::pick(cv)}, c2{mc::pick(cv)};
    M C(K, vector<double>(2)); for (auto& r : C) for (double& x : r) x = mc::pick(cv);
    double o = mc::pick(ov); M S{{mc::pick(dv), o}, {o, mc::pick(dv)}};
    vector<double> E(K); for (double& x : E) x = mc::pick(ev);
    one_formula(c1, c2, C, S, E, false);
  });
  mc::scenario("two-functions-counterpoise", "two basis functions, both monomers full, one or two dimer orbitals, EVERY combination of coefficients in {-1,1/2,2} for the monomers and {0,1/2,-2} for the dimer, off-diagonal overlap in {1/2,-1/4}, energies {-1,1/4}", [] {
    vector<double> cv{-1, .5, 2}, pv = mc::thorough() ? vector<double>{0, .5, -2} : vector<double>{.5, -2}, ov{.5, -.25}, ev{-1, .25};
    int K = 1 + mc::choose(2);
    vector<double> c1{mc::pick(cv), mc::pick(cv)}, c2{mc::pick(cv), mc::pick(cv)};
    M C(K, vector<double>(2)); for (auto& r : C) for (double& x : r) x = mc::pick(pv);
    double o = mc::pick(ov); M S{{1, o}, {o, 1}};
    vector<double> E(K); for (double& x : E) x = mc::pick(ev);
    one_formula(c1, c2, C, S, E, true);
  });
  mc::scenario("shapes", "every number of basis functions 1..5 (thorough 8) on each monomer, every number of dimer orbitals 1..6 (10), counterpoise on and off, 3 (8) sets of distinct values", [] {
    int b = mc::bound(5, 8); bool cp = mc::flip(); int n1 = 1 + mc::choose(b), n2 = 1 + mc::choose(b), K = 1 + mc::choose(mc::bound(6, 10)), v = mc::choose(mc::bound(3, 8));
    int N = n1 + n2; double s = sc(N);
    one_formula(coefs(v * 10 + 1, 1, cp ? N : n1, s)[0], coefs(v * 10 + 2, 1, cp ? N : n2, s)[0], coefs(v * 10 + 3, K, N, s), overlap(v * 10 + 4, N), energies(v, K), cp);
  });
  mc::scenario("large", "6x6 (thorough 11x11) monomer sizes of 1..129 basis functions around powers of two and of ten, 1, 33 or 101 (thorough also 260) dimer orbitals, counterpoise on and off, directly and through TransferComplex::calcJ", [] {
    static const vector<int> q{1, 17, 32, 33, 65, 101}, t{1, 8, 16, 17, 31, 32, 33, 64, 65, 100, 129}; const vector<int>& w = mc::thorough() ? t : q;
    bool cp = mc::flip(), via = mc::flip(); int n1 = mc::pick(w), n2 = mc::pick(w), K = mc::thorough() ? mc::pick(vector<int>{1, 33, 101, 260}) : mc::pick(vector<int>{1, 33, 101});
    int N = n1 + n2; double s = .8 / std::sqrt((double)N);
    M c1 = coefs(101, 1, cp ? N : n1, s), c2 = coefs(102, 1, cp ? N : n2, s), C = coefs(103, K, N, 1.5 * s), S = overlap(104, N); vector<double> E = energies(105, K); for (double& e : E) e *= 10. / (K + 9);
    Ref r = formula(c1[0], c2[0], C, S, E, cp); mc::state(mc::Hash().add((int)cp).add((int)via).add(n1).add(n2).add(K));
    if (singular(r)) { mc::outcome("singular, not judged"); return; }
    string what = string(cp ? "counterpoise, " : "") + to_string(n1) + " and " + to_string(n2) + " functions, " + to_string(K) + " dimer orbitals"; mc::tr([&] { return what; });
    double got = 0; Matrix oe = colv(E); mc::CaptureCout cap;
    mc::Attempt a = mc::attempt([&] {
      if (via) { TransferComplex tc(mkp(c1), mkp(c2), mkp(C), {1, 1}, {1, 1}, mkp(S), &oe, cp); got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "HOMO"}}, {{"mon1", 0}, {"mon2", 0}}); }
      else { Matrix m1 = mk(c1), m2 = mk(c2), mC = mk(C), mS = mk(S); got = calculate_transfer_integral(m1, m2, mC, mS, oe, cp); }
    });
    mc::step();
    mc::check(a.ok(), "refused", [&] { return what + ": consistent matrices were " + a.str(); });
    check_value(got, r, "value", what); check_print(cap.str(), r, what); mc::outcome(cp ? "counterpoise ok" : "ok");
  });
  mc::scenario("through-calcJ", "the same shapes through TransferComplex::calcJ without realignment, 1..3 orbitals per monomer", [] {
    int b = mc::bound(3, 5); bool cp = mc::flip(); int n1 = 1 + mc::choose(b), n2 = 1 + mc::choose(b), K = 1 + mc::choose(4), o1 = 1 + mc::choose(3), o2 = 1 + mc::choose(3);
    int N = n1 + n2; double s = sc(N);
    M C1 = coefs(1, o1, cp ? N : n1, s), C2 = coefs(2, o2, cp ? N : n2, s), C = coefs(3, K, N, s), S = overlap(4, N); vector<double> E = energies(5, K);
    mc::state(mc::Hash().add(n1).add(n2).add(K).add(o1).add(o2).add((int)cp));
    double got = 0; mc::CaptureCout cap; Matrix oe = colv(E);
    mc::Attempt a = mc::attempt([&] {
      TransferComplex tc(mkp(C1), mkp(C2), mkp(C), {o1, o1}, {o2, o2}, mkp(S), &oe, cp);
      got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "HOMO"}}, {{"mon1", 0}, {"mon2", 0}});
    });
    mc::step();
    mc::check(a.ok(), "refused", [&] { return "consistent matrices were " + a.str(); });
    Ref r = formula(C1[o1 - 1], C2[o2 - 1], C, S, E, cp);
    check_value(got, r, "value", "calcJ"); check_print(cap.str(), r, "calcJ");
  });
  mc::scenario("magnitudes", "energies scaled by every power of ten -9..9, the coefficients of each monomer by one of 1, 1e-2, 1e-4, 1e-8, 1e-12, those of the dimer by 1 or 1e-6, the overlap between functions by 1, 1e-5 or 1e-10, one orbital on each monomer or shared, both signs, both modes: value, eV conversion and print", [] {
    int p = mc::choose(19) - 9, q = mc::choose(5), q2 = mc::choose(5), cs = mc::choose(2), os = mc::choose(3), loc = mc::choose(2), cp = mc::choose(2), sg = mc::choose(2); int n1 = 2, n2 = 3, N = 5, K = 4; static const double sq[] = {1, 1e-2, 1e-4, 1e-8, 1e-12}, so[] = {1, 1e-5, 1e-10};
    double s = sc(N); vector<double> E = energies(3, K); for (double& x : E) x *= (sg ? -1 : 1) * std::pow(10.0, p);
    M S = overlap(4, N), C = coefs(3, K, N, cs ? 3e-7 : 0.3); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (i != j) S[i][j] *= so[os]; if (loc) for (int k = 0; k < K; ++k) for (int j = 0; j < N; ++j) if ((j < n1) == (k % 2 == 0)) C[k][j] *= 1e-7;
    one_formula(coefs(1, 1, cp ? N : n1, s * sq[q])[0], coefs(2, 1, cp ? N : n2, s * sq[q2])[0], C, S, E, cp);
  });
}

// ---------------------------------------------------------------- C02 ---
struct Sel { string type; int num; };
static bool exists(const Sel& s, int K, int homo, int& row) {
  if (s.type == "HOMO") { if (s.num > 0 || s.num < -100000) return false; row = homo + s.num; return row >= 1; }
  if (s.type == "LUMO") { if (s.num < 0 || s.num > 100000) return false; row = homo + 1 + s.num; return row <= K; }
  return false;
}
static void setup02() {
  auto run = [](int maxK, int calls, bool bad_types, bool extra = false) {
    int K1 = 1 + mc::choose(maxK), h1 = mc::choose(K1 + 1), K2 = 1 + mc::choose(maxK), h2 = mc::choose(K2 + 1); bool cp = maxK <= 3 && mc::flip();
    int x1 = extra ? mc::choose(3) : 0, x2 = extra ? mc::choose(3) : 0;
    int n1 = 2, n2 = 3, N = 5; double s = sc(N);
    M C1 = coefs(11, K1 + x1, cp ? N : n1, s), C2 = coefs(12, K2 + x2, cp ? N : n2, s), C = coefs(13, 4, N, s), S = overlap(14, N); vector<double> E = energies(15, 4);
    Matrix &m1 = *mkp(C1), &m2 = *mkp(C2), &mC = *mkp(C), &mS = *mkp(S), oe = colv(E);
    TransferComplex tc(&m1, &m2, &mC, {K1, h1}, {K2, h2}, &mS, &oe, cp);
    mc::tr([&] { return "monomer 1: " + to_string(K1) + " orbitals, HOMO " + to_string(h1) + "; monomer 2: " + to_string(K2) + ", HOMO " + to_string(h2) + (cp ? ", counterpoise" : ""); });
    vector<string> types = bad_types ? vector<string>{"HOMO", "LUMO", "", "homo", "HOMOS", "LUM"} : vector<string>{"HOMO", "LUMO"};
    for (int k = 0; k < calls; ++k) {
      // the choices of one call first, independent of any outcome
      Sel a{mc::pick(types), mc::choose(2 * K1 + 3) - K1 - 1}, b{mc::pick(types), mc::choose(2 * K2 + 3) - K2 - 1};
      mc::state(mc::Hash().add(K1).add(h1).add(K2).add(h2).add(a.type).add(a.num).add(b.type).add(b.num).add(k).add((int)cp));
      int ra = 0, rb = 0; bool ea = exists(a, K1, h1, ra), eb = exists(b, K2, h2, rb);
      double got = 0; mc::CaptureCout cap;
      mc::Attempt at = mc::attempt([&] { got = tc.calcJ({{"mon1", a.type}, {"mon2", b.type}}, {{"mon1", a.num}, {"mon2", b.num}}); });
      mc::step();
      string what = "call " + to_string(k + 1) + " " + a.type + " " + to_string(a.num) + " / " + b.type + " " + to_string(b.num) + " with " + to_string(K1) + " orbitals HOMO " + to_string(h1) + " / " + to_string(K2) + " orbitals HOMO " + to_string(h2);
      mc::tr([&] { return what + " -> " + at.str(); });
      if (ea && eb) {
        mc::check(at.ok(), "existing refused", [&] { return what + " was " + at.str(); });
        Ref r = formula(C1[ra - 1], C2[rb - 1], C, S, E, cp);
        check_value(got, r, "orbital", what); check_print(cap.str(), r, what); mc::outcome("used");
      } else {
        mc::check(at.refused(), "absent accepted", [&] { return what + " was " + at.str() + " and returned " + to_string(got); });
        mc::check(cap.str().find("J_eff") == string::npos, "absent printed", [&] { return what + " printed a coupling"; });
        mc::outcome("refused");
      }
    }
    mc::check(eq(m1, C1) && eq(m2, C2) && eq(mC, C) && eq(mS, S), "inputs changed");
  };
  mc::scenario("one-selection", "1..5 (thorough 7) orbitals per monomer, every HOMO position 0..n on each, every HOMO/LUMO offset -n-1..n+1 on each", [=] { run(mc::bound(5, 7), 1, false); });
  mc::scenario("kinds", "1..3 orbitals per monomer, every HOMO position, orbital kinds HOMO, LUMO and four unknown ones, every offset, counterpoise on and off", [=] { run(mc::bound(2, 3), 1, true); });
  mc::scenario("counts", "1..2 (thorough 3) orbitals per monomer, every HOMO position, coefficient matrices with 0, 1 or 2 rows more than there are orbitals: every offset, counterpoise on and off", [=] { run(mc::bound(2, 3), 1, false, true); });
  mc::scenario("histories", "1..2 orbitals per monomer, every HOMO position, every sequence of two selections (existing and absent) on one complex", [=] { run(2, 2, false); });
  mc::scenario("shared-matrices", "two complexes made of the same matrix objects with different HOMO positions, or with the monomers exchanged: every pair of selections of monomer 1, the first one asked again afterwards", [] {
    const int K = mc::bound(3, 4), N = 5; bool cp = true, swap = mc::flip(); int h = mc::choose(K + 1), g = mc::choose(K + 1); double s = sc(N); M C1 = coefs(11, K, N, s), C2 = coefs(12, K, N, s), C = coefs(13, 4, N, s), S = overlap(14, N); vector<double> E = energies(15, 4);
    Matrix &m1 = *mkp(C1), &m2 = *mkp(C2), &mC = *mkp(C), &mS = *mkp(S), oe = colv(E); TransferComplex one(&m1, &m2, &mC, {K, h}, {K, 1}, &mS, &oe, cp), two(swap ? &m2 : &m1, swap ? &m1 : &m2, &mC, {K, g}, {K, 1}, &mS, &oe, cp);
    Sel a{mc::flip() ? "HOMO" : "LUMO", 0}, b{mc::flip() ? "HOMO" : "LUMO", 0}; a.num = mc::choose(K + 1) * (a.type == "HOMO" ? -1 : 1); b.num = mc::choose(K + 1) * (b.type == "HOMO" ? -1 : 1);
    mc::state(mc::Hash().add(h).add(g).add((int)swap).add(a.type).add(a.num).add(b.type).add(b.num));
    for (int k = 0; k < 3; ++k) {
      TransferComplex& t = k == 1 ? two : one; const Sel& q = k == 1 ? b : a; int row = 0; bool ex = exists(q, K, k == 1 ? g : h, row); double got = 0; mc::CaptureCout cap; mc::Attempt at = mc::attempt([&] { got = t.calcJ({{"mon1", q.type}, {"mon2", "HOMO"}}, {{"mon1", q.num}, {"mon2", 0}}); }); mc::step();
      string what = "call " + to_string(k + 1) + " on complex " + (k == 1 ? "2" : "1") + ": " + q.type + " " + to_string(q.num) + " of " + to_string(K) + " orbitals, HOMO " + to_string(k == 1 ? g : h); mc::tr([&] { return what + " -> " + at.str(); });
      if (!ex) { mc::check(at.refused(), "absent accepted", [&] { return what + " was " + at.str(); }); continue; }
      mc::check(at.ok(), "existing refused", [&] { return what + " was " + at.str(); }); bool x = k == 1 && swap; Ref r = formula((x ? C2 : C1)[row - 1], (x ? C1 : C2)[0], C, S, E, cp); check_value(got, r, "orbital", what); check_print(cap.str(), r, what);
    }
  });
  mc::scenario("one-matrix", "one complex whose monomers are the same matrix object, 2..3 (thorough 4) orbitals, every HOMO position claimed for either, every pair of selections, existing or not", [] {
    const int K = 2 + mc::choose(mc::bound(2, 3)), N = 5; int h = mc::choose(K + 1), g = mc::choose(K + 1); double s = sc(N); M C1 = coefs(11, K, N, s), C = coefs(13, 4, N, s), S = overlap(14, N); vector<double> E = energies(15, 4);
    Matrix &m1 = *mkp(C1), &mC = *mkp(C), &mS = *mkp(S), oe = colv(E); TransferComplex tc(&m1, &m1, &mC, {K, h}, {K, g}, &mS, &oe, true);
    Sel a{mc::flip() ? "HOMO" : "LUMO", 0}, b{mc::flip() ? "HOMO" : "LUMO", 0}; a.num = mc::choose(K + 1) * (a.type == "HOMO" ? -1 : 1); b.num = mc::choose(K + 1) * (b.type == "HOMO" ? -1 : 1); mc::state(mc::Hash().add(K).add(h).add(g).add(a.type).add(a.num).add(b.type).add(b.num));
    int r1 = 0, r2 = 0; bool ex = exists(a, K, h, r1); ex = exists(b, K, g, r2) && ex; double got = 0; mc::CaptureCout cap; mc::Attempt at = mc::attempt([&] { got = tc.calcJ({{"mon1", a.type}, {"mon2", b.type}}, {{"mon1", a.num}, {"mon2", b.num}}); }); mc::step();
    string what = a.type + " " + to_string(a.num) + " (HOMO " + to_string(h) + ") and " + b.type + " " + to_string(b.num) + " (HOMO " + to_string(g) + ") of one matrix with " + to_string(K) + " orbitals"; mc::tr([&] { return what + " -> " + at.str(); });
    if (!ex) { mc::check(at.refused(), "absent accepted", [&] { return what + " was " + at.str(); }); return; } mc::check(at.ok(), "existing refused", [&] { return what + " was " + at.str(); });
    Ref r = formula(C1[r1 - 1], C1[r2 - 1], C, S, E, true); if (singular(r)) { mc::outcome("singular, not judged"); return; } check_value(got, r, "orbital", what); check_print(cap.str(), r, what);
  });
  for (int big = 0; big < 2; ++big)
  mc::scenario(big ? "hundreds-of-orbitals" : "many-orbitals", big ? "130 (thorough 130, 257, 1030) orbitals on one monomer, HOMO positions 0, 1, around 10, 64, 100, 128 and at the end, offsets 0, 1, 9..11, 63..65, 99..101, 127..129 and those reaching the first and last orbital and one beyond, either monomer" : "24 (thorough 60) orbitals on one monomer, every HOMO position, every offset of HOMO and LUMO, either monomer", [=] {
    int K = big ? mc::thorough() ? mc::pick(vector<int>{130, 257, 1030}) : 130 : mc::bound(24, 60), h = big ? mc::pick(vector<int>{0, 1, 9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, K - 1, K}) : mc::choose(K + 1); bool second = mc::flip(); Sel a{mc::flip() ? "HOMO" : "LUMO", 0};
    if (big) { int sg = mc::flip() ? -1 : 1; vector<int> off{0, 1, 2, 9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 129, h - 1, h, h + 1, K - h - 1, K - h, K - h + 1, K - 1, K, K + 1, 1000000000, 1999999999}; a.num = sg * mc::pick(off); }
    else a.num = mc::choose(2 * K + 5) - K - 2;
    M CL = coefs(21, K, 2, .4), CO = coefs(22, 1, 2, .4), C = coefs(23, 3, 4, .4), S = overlap(24, 4); vector<double> E = energies(25, 3); Matrix oe = colv(E);
    Matrix &l = *mkp(CL), &o = *mkp(CO);
    TransferComplex tc(second ? &o : &l, second ? &l : &o, mkp(C), second ? std::make_pair(1, 1) : std::make_pair(K, h), second ? std::make_pair(K, h) : std::make_pair(1, 1), mkp(S), &oe, false);
    int row = 0; bool ex = exists(a, K, h, row); double got = 0; mc::CaptureCout cap; mc::step();
    mc::state(mc::Hash().add(h).add((int)second).add(a.type).add(a.num));
    Sel x{"HOMO", 0}; const Sel &s1 = second ? x : a, &s2 = second ? a : x;
    mc::Attempt at = mc::attempt([&] { got = tc.calcJ({{"mon1", s1.type}, {"mon2", s2.type}}, {{"mon1", s1.num}, {"mon2", s2.num}}); });
    string what = a.type + to_string(a.num) + " of " + to_string(K) + " orbitals, HOMO " + to_string(h) + (second ? ", monomer 2" : ", monomer 1");
    if (!ex) { mc::check(at.refused(), "absent accepted", [&] { return what + " was " + at.str(); }); mc::outcome("refused"); return; }
    mc::check(at.ok(), "existing refused", [&] { return what + " was " + at.str(); });
    Ref r = second ? formula(CO[0], CL[row - 1], C, S, E, false) : formula(CL[row - 1], CO[0], C, S, E, false);
    check_value(got, r, "orbital", what); mc::outcome("used");
  });
}

// ------------------------------------------------------- C03, C04, C06 ---
static vector<int> choose_perm(int n) { vector<int> left(n), p; std::iota(left.begin(), left.end(), 0); while (!left.empty()) { int k = mc::choose((int)left.size()); p.push_back(left[k]); left.erase(left.begin() + k); } return p; }
static string str(const vector<int>& v) { string s = "("; for (int x : v) s += " " + to_string(x); return s + " )"; }
// perm[k] = canonical index of the atom at file position k; blocks of canonical atom a start at off[a]
struct Layout { vector<int> nb, off; int N; explicit Layout(const vector<int>& b) : nb(b), N(0) { for (int x : b) { off.push_back(N); N += x; } } };
static vector<int> columns(const Layout& L, const vector<int>& perm) { vector<int> c; for (int a : perm) for (int k = 0; k < L.nb[a]; ++k) c.push_back(L.off[a] + k); return c; }
static M pick_cols(const M& m, const vector<int>& c) { M r(m.size(), vector<double>(c.size())); for (size_t i = 0; i < m.size(); ++i) for (size_t j = 0; j < c.size(); ++j) r[i][j] = m[i][c[j]]; return r; }
static M pick_both(const M& m, const vector<int>& c) { M r(c.size(), vector<double>(c.size())); for (size_t i = 0; i < c.size(); ++i) for (size_t j = 0; j < c.size(); ++j) r[i][j] = m[c[i]][c[j]]; return r; }
static vector<int> inverse(const vector<int>& p) { vector<int> q(p.size()); for (size_t i = 0; i < p.size(); ++i) q[p[i]] = (int)i; return q; }
static vector<int> permuted(const vector<int>& nb, const vector<int>& perm) { vector<int> r; for (int a : perm) r.push_back(nb[a]); return r; }
static M tagged(int rows, int N) { M m(rows, vector<double>(N)); for (int i = 0; i < rows; ++i) for (int j = 0; j < N; ++j) m[i][j] = 100 * (i + 1) + j + 1; return m; }
static M tagged_sym(int N) { M m(N, vector<double>(N)); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) m[i][j] = 100 * (std::max(i, j) + 1) + std::min(i, j) + 1; return m; }
// positions (1-based) in the file of canonical atoms from..to
static vector<int> matches(const vector<int>& perm, int from, int to) { vector<int> q = inverse(perm), r; for (int a = from; a < to; ++a) r.push_back(q[a] + 1); return r; }
// coordinates of canonical atoms: all distinct at four decimals, mirror images and near-ties among them
static vector<double> xyz(int a) {
  static const double t[][3] = {{0, 0, 0}, {1.0001, 0, 0}, {-1.0001, 0, 0}, {1.0002, 0, 0}, {0, 1.0001, 0}, {0, 0, 1.0001}, {123.4567, -0.0001, 2}, {123.4568, -0.0001, 2}, {123.4567, 0.0001, 2}, {1, 1, 1}};
  if (a < 10) return {t[a][0], t[a][1], t[a][2]};
  // further atoms: pairs and triples that differ by one unit of the fourth decimal in one coordinate, on a wide grid
  int g = a / 3, k = a % 3; return {3.5 + 1.25 * (g % 7) + (k == 1 ? .0001 : 0), -4.75 + 1.5 * (g / 7 % 6) + (k == 2 ? .0001 : 0), -120.5 + 11 * (g / 42)};
}
// orders of many atoms: families that exercise every position without being n! many
static int families(int n) { return 5; }
static vector<int> family(int k, int n) {
  vector<int> p(n); std::iota(p.begin(), p.end(), 0);
  if (k == 0) std::reverse(p.begin(), p.end());
  else if (k == 1) std::rotate(p.begin(), p.begin() + 1 + mc::choose(n - 1), p.end());
  else if (k == 2) { int step = mc::pick(vector<int>{3, 7, 11}); vector<int> q; vector<char> used(n, 0); for (int i = 0, at = 0; i < n; ++i) { while (used[at]) at = (at + 1) % n; used[at] = 1; q.push_back(at); at = (at + step) % n; } p = q; }
  else if (k == 3) { int i = mc::choose(n), d = mc::pick(vector<int>{1, 2, n / 2, n - 1}); mc::step(0); std::swap(p[i], p[(i + d) % n]); }
  else { int i = mc::choose(n); int x = p[i]; p.erase(p.begin() + i); p.insert(mc::flip() ? p.begin() : p.end(), x); }
  return p;
}
static vector<int> blocks(int n, int w) { vector<int> b; for (int i = 0; i < n; ++i) b.push_back(w == 0 ? 1 + i % 4 : w == 1 ? (i % 3 == 1 ? 13 : 2) : w == 2 ? (i == n / 2 ? 25 : 1) : 5); return b; }
// coordinates as another run prints them: the same to four decimals, not to the last digit
static double last_digit(int how, int i, int j) { static const double u[] = {0, 1e-6, 1e-5, 2e-5}; int k = how % 4, sg = how / 4 % 3; return u[k] * (sg == 0 ? 1 : sg == 1 ? -1 : (i + j) % 2 ? -1 : 1); }
static M coord_of(const vector<int>& atoms, int how = 0) { M m(3, vector<double>(atoms.size())); for (size_t j = 0; j < atoms.size(); ++j) { auto c = xyz(atoms[j]); for (int i = 0; i < 3; ++i) m[i][j] = c[i] + last_digit(how, i, (int)j); } return m; }

// the three calculations print the atoms' coordinates with last digits of their own
static void last_digits(bool cp) {
  int n = 2 + mc::choose(mc::bound(2, cp ? 2 : 3)), nA = cp ? n : 1 + mc::choose(n - 1), rot = 5 * mc::choose(2); vector<int> p = choose_perm(n), p2 = cp ? choose_perm(n) : vector<int>(); int h1 = mc::choose(12), h2 = mc::choose(mc::bound(3, 12)), hP = mc::choose(mc::bound(2, 12)); if (!mc::thorough()) { h2 = h2 == 2 ? 11 : h2 == 1 ? (h1 + 4) % 12 : 0; hP = hP ? 7 : 0; } if (n > 3 && hP % 4 == 1) return;
  vector<int> nb, at, aP, a2, aA, b2; for (int i = 0; i < n; ++i) { nb.push_back(1 + (i + 1) % 3); at.push_back(i + rot); } Layout L(nb); int N = L.N, NA = 0; for (int i = 0; i < (cp ? n : nA); ++i) NA += nb[i]; for (int a : p) aP.push_back(at[a]);
  aA.assign(at.begin(), at.begin() + nA); if (cp) { for (int a : p2) a2.push_back(at[a]); b2 = permuted(nb, p2); } else { a2.assign(at.begin() + nA, at.end()); b2.assign(nb.begin() + nA, nb.end()); }
  mc::state(mc::Hash().add(nA).add(rot).add(p).add(p2).add(h1).add(h2).add(hP)); double s = sc(N); int N2 = cp ? N : N - NA; M C1 = coefs(161, 2, NA, s), C2 = coefs(162, 2, N2, s), C = coefs(163, 3, N, s), S = overlap(164, N); vector<double> E = energies(165, 3);
  vector<int> cols = columns(L, p); M fC = pick_cols(C, cols), fS = pick_both(S, cols), f2 = cp ? pick_cols(C2, columns(L, p2)) : C2; Matrix &m1 = *mkp(C1), &m2 = *mkp(f2), &mC = *mkp(fC), &mS = *mkp(fS), oe = colv(E); double got = 0; mc::CaptureCout cap; Matrix k1 = mk(coord_of(aA, h1)), k2 = mk(coord_of(a2, h2)), kP = mk(coord_of(aP, hP));
  string what = to_string(n) + " atoms, " + to_string(nA) + " on monomer 1, dimer order " + str(p) + (cp ? " monomer 2 order " + str(p2) : "") + ", last digits of kinds " + to_string(h1) + " " + to_string(h2) + " " + to_string(hP) + "\n" + show(k1) + "\n" + show(k2) + "\n" + show(kP); mc::tr([&] { return what; });
  mc::Attempt a = mc::attempt([&] { TransferComplex tc(&m1, &m2, &mC, {2, 1}, {2, 1}, &mS, &oe, cp); tc.unscramble(k1, k2, kP, permuted(nb, p), b2); got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}}); });
  mc::step(3); mc::check(a.ok(), "refused", [&] { return what + ": " + a.str(); }); Ref r = formula(C1[0], C2[1], C, S, E, cp); check_value(got, r, "coupling", what);
  for (Matrix* x : {&m1, &m2, &mC, &mS}) delete x;
}
static void realign(int n, int nA, const vector<int>& nb, const vector<int>& perm, int rows, bool two) {
  Layout L(nb); vector<int> cols = columns(L, perm), bP = permuted(nb, perm);
  M canC = tagged(rows, L.N), canS = tagged_sym(L.N), fileC = pick_cols(canC, cols), fileS = pick_both(canS, cols);
  vector<int> mA = matches(perm, 0, two ? nA : n), mB = matches(perm, nA, n);
  mc::tr([&] { return "atoms in file order " + str(perm) + " functions " + str(bP) + " matches " + str(mA) + (two ? str(mB) : ""); });
  std::unique_ptr<Matrix> C(mkp(fileC)), S(mkp(fileS)), oC, oS;
  vector<int> kA = mA, kB = mB, kb = bP;
  mc::Attempt a = mc::attempt([&] { oC.reset(two ? unscramble_Coef(mA, mB, bP, C.get()) : unscramble_Coef(mA, bP, C.get())); });
  mc::check(a.ok(), "refused", [&] { return "unscramble_Coef was " + a.str(); });
  mc::check(eq(*oC, canC), "coefficients", [&] { return "file order " + str(perm) + " functions " + str(bP) + (two ? " monomer 1 has " + to_string(nA) : "") + ": got " + show(*oC) + " expected " + str(canC); });
  a = mc::attempt([&] { oS.reset(two ? unscramble_S(mA, mB, bP, S.get()) : unscramble_S(mA, bP, S.get())); });
  mc::check(a.ok(), "refused", [&] { return "unscramble_S was " + a.str(); });
  mc::check(eq(*oS, canS), "overlap", [&] { return "file order " + str(perm) + " functions " + str(bP) + ": got " + show(*oS) + " expected " + str(canS); });
  mc::check(eq(*C, fileC) && eq(*S, fileS) && mA == kA && mB == kB && bP == kb, "inputs changed", [&] { return "file order " + str(perm) + ": an input was modified"; });
  mc::step(2);
}
// several alignments of one complex: the last one that succeeded counts, a refused one leaves nothing behind
static void attempts(bool cp) {
  int n = cp ? 2 + mc::choose(mc::bound(1, 2)) : 2 + mc::choose(mc::bound(2, 3)), nA = cp ? n : 1 + mc::choose(n - 1), n2 = cp ? n : n - nA; vector<int> id(n), rev(n), rot(n); std::iota(id.begin(), id.end(), 0); rev = rot = id; std::reverse(rev.begin(), rev.end()); std::rotate(rot.begin(), rot.begin() + 1, rot.end());
  vector<vector<int>> orders{rot, id, rev}; const int B = 2, N = B * n; vector<int> nb(n, B), nb2(n2, B), none;
  M C1 = coefs(151, 2, B * nA, .4), C2 = coefs(152, 2, B * n2, .4), C = coefs(153, 3, N, .4), S = overlap(154, N); vector<double> E = energies(155, 3);
  Matrix &m1 = *mkp(C1), &m2 = *mkp(C2), &mC = *mkp(C), &mS = *mkp(S), oe = colv(E); mc::CaptureCout cap; string what = to_string(n) + " atoms, " + to_string(nA) + " on monomer 1" + (cp ? ", counterpoise" : "");
  std::unique_ptr<TransferComplex> tc; mc::Attempt at = mc::attempt([&] { tc.reset(new TransferComplex(&m1, &m2, &mC, {2, 1}, {2, 1}, &mS, &oe, cp)); }); mc::check(at.ok(), "refused", [&] { return "construction was " + at.str(); });
  vector<int> lastP = id, last2 = id;      // order of the atoms in the dimer's and monomer 2's matrices, as last told
  vector<int> aA(id.begin(), id.begin() + nA), aB(id.begin() + (cp ? 0 : nA), id.end());
  int len = 1 + mc::choose(mc::bound(cp ? 2 : 3, 3));
  for (int k = 0; k < len; ++k) {
    int op = mc::choose(9); mc::step(); string d;
    if (op == 8) { d = "calcJ"; }
    else {
      int o = op < 3 ? op : 0, o2 = cp && op < 3 ? mc::choose(3) : 0; vector<int> P = orders[o], s2 = cp ? orders[o2] : aB, s1 = aA, b = nb, b2 = nb2; bool good = op < 3;
      if (op == 3) { s1[0] = 9; d = "an atom of monomer 1 nowhere"; } if (op == 4) { s2[0] = 9; d = "an atom of monomer 2 nowhere"; } if (op == 5) { P[n - 1] = 9; d = "an atom of the dimer nowhere"; }
      if (op == 6) { b[n - 1] = 3; d = "too many functions on a dimer atom"; } if (op == 7) { if (cp) { b2[0] = 1; d = "too few functions on an atom of monomer 2"; } else { b.push_back(1); d = "functions for one more atom"; } }
      if (good) d = "dimer order " + str(P) + (cp ? " monomer 2 order " + str(s2) : "");
      at = mc::attempt([&] { tc->unscramble(mk(coord_of(s1)), mk(coord_of(s2)), mk(coord_of(P)), b, b2); });
      mc::check(good ? at.ok() : at.refused(), good ? "refused" : "unmatchable accepted", [&] { return what + ", aligned with " + d + ": " + at.str(); });
      if (good) { lastP = P; last2 = cp ? s2 : last2; }
    }
    what += "; " + d; mc::tr([&] { return what; });
    if (op == 8 || k == len - 1) {
      auto cols = [&](const vector<int>& o) { vector<int> c; for (int a = 0; a < n; ++a) { int at = (int)(std::find(o.begin(), o.end(), a) - o.begin()); for (int q = 0; q < B; ++q) c.push_back(at * B + q); } return c; };
      Ref r = formula(C1[0], (cp ? pick_cols(C2, cols(last2)) : C2)[1], pick_cols(C, cols(lastP)), pick_both(S, cols(lastP)), E, cp); double got = 0; size_t from = cap.str().size();
      at = mc::attempt([&] { got = tc->calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}}); }); mc::check(at.ok(), "refused", [&] { return what + ": calcJ was " + at.str(); });
      check_value(got, r, "value", what); check_print(cap.str().substr(from), r, "calcJ");
    }
  }
  mc::state(mc::Hash().add(what)); mc::check(eq(m1, C1) && eq(m2, C2) && eq(mC, C) && eq(mS, S), "inputs changed");
  for (Matrix* x : {&m1, &m2, &mC, &mS}) delete x;
}
static void setup03() {
  mc::scenario("last-digits", "2..3 (thorough 4) atoms, every order, every division, two sets of sites, the coordinates of each calculation off by 0, 1e-6, 1e-5 or 2e-5 upwards, downwards or alternating (quick: monomer 1 all, monomer 2 three and the dimer two of them): aligned all the same", [] { last_digits(false); });
  mc::scenario("attempts", "2..3 (thorough 4) atoms, every division: every sequence of up to three alignments and calculations on one complex, the alignments with one of three orders, or with an atom of monomer 1, of monomer 2 or of the dimer at no place, or with wrong function counts: the last one that was accepted counts, the refused ones leave nothing behind", [] { attempts(false); });
  mc::scenario("permutations", "every order of 2..6 (thorough 7) dimer atoms, every division of the atoms between the monomers, distinct block sizes", [] {
    int n = 2 + mc::choose(mc::bound(5, 6)), nA = 1 + mc::choose(n - 1); vector<int> p = choose_perm(n), nb;
    for (int i = 0; i < n; ++i) nb.push_back(1 + (i * 2 + n) % 3);
    mc::state(mc::Hash().add(nA).add(p)); realign(n, nA, nb, p, 2, true);
  });
  mc::scenario("block-sizes", "every order of 2..4 (thorough 5) dimer atoms, every division, every number of functions 1..3 on every atom", [] {
    int n = 2 + mc::choose(mc::bound(3, 3)), nA = 1 + mc::choose(n - 1); vector<int> p = choose_perm(n), nb;
    for (int i = 0; i < n; ++i) nb.push_back(1 + mc::choose(3));
    mc::state(mc::Hash().add(nA).add(p).add(nb)); realign(n, nA, nb, p, 1, true);
  });
  mc::scenario("block-sizes-5", "every order of 5 dimer atoms, every division, every number of functions 1..2 on every atom", [] {
    int n = 5, nA = 1 + mc::choose(n - 1); vector<int> p = choose_perm(n), nb;
    for (int i = 0; i < n; ++i) nb.push_back(1 + mc::choose(2));
    mc::state(mc::Hash().add(nA).add(p).add(nb)); realign(n, nA, nb, p, 1, true);
  });
  mc::scenario("many-atoms", "9 (thorough 14) atoms: every transposition composed with every rotation, and every reversal of a segment, every division", [] {
    int n = mc::bound(9, 14), nA = 1 + mc::choose(n - 1); vector<int> p(n), nb; std::iota(p.begin(), p.end(), 0);
    int k = mc::choose(2), i = mc::choose(n), j = mc::choose(n);
    if (k == 0) { std::swap(p[i], p[j]); std::rotate(p.begin(), p.begin() + mc::choose(n), p.end()); } else { mc::choose(1); if (i < j) std::reverse(p.begin() + i, p.begin() + j + 1); }
    for (int a = 0; a < n; ++a) nb.push_back(1 + a % 4);
    mc::state(mc::Hash().add(nA).add(p)); realign(n, nA, nb, p, 1, true);
  });
  mc::scenario("large", "12, 33 or 40 (thorough up to 101) atoms with 1..25 basis functions each, 4 patterns of block sizes; the order in the file reversed, in every rotation, with strides 3, 7, 11, with every near or far pair swapped, with any atom moved to either end; monomer 1 has 1, a third, half or all but one of them: the exact matrices", [] {
    int n = mc::thorough() ? mc::pick(vector<int>{12, 33, 40, 65, 101}) : mc::pick(vector<int>{12, 33, 40}), nA = mc::pick(vector<int>{1, n / 3, n / 2, n - 1}), w = mc::choose(n > 60 ? 1 : 4), f = mc::choose(families(n)); vector<int> p = family(f, n);
    mc::state(mc::Hash().add(nA).add(p).add(w)); realign(n, nA, blocks(n, w), p, 1, true);
  });
  mc::scenario("big-blocks", "2 and 3 atoms, every order, every division, one or all of them with 63..65, 127..129, 255..257 or 300 functions (thorough also 511..513), the others with one or two", [] {
    vector<int> z{63, 64, 65, 127, 128, 129, 255, 256, 257, 300}; if (mc::thorough()) for (int x : {511, 512, 513}) z.push_back(x);
    int n = 2 + mc::choose(2), nA = 1 + mc::choose(n - 1), big = mc::pick(z), which = mc::choose(n + 1); vector<int> p = choose_perm(n), nb; for (int i = 0; i < n; ++i) nb.push_back(i == which || (which == n && i < 2) ? big : 1 + i % 2);
    mc::state(mc::Hash().add(nA).add(big).add(which).add(p)); realign(n, nA, nb, p, 1, true);
  });
  mc::scenario("large-complex", "the same with 12 or 30 (thorough up to 101) atoms through TransferComplex::unscramble (neighbouring atoms within one unit of the fourth decimal), then calcJ equals the formula on the canonical molecules", [] {
    int n = mc::thorough() ? mc::pick(vector<int>{12, 30, 65, 101}) : mc::pick(vector<int>{12, 30}), nA = mc::pick(vector<int>{1, n / 3, n / 2, n - 1}), f = mc::choose(families(n)); vector<int> p = family(f, n), nb; for (int i = 0; i < n; ++i) nb.push_back(i == n / 2 ? 12 : 1 + i % 3);
    mc::state(mc::Hash().add(nA).add(p)); vector<int> atoms(n); for (int i = 0; i < n; ++i) atoms[i] = i;
    Layout L(nb); int N = L.N, NA = 0; for (int i = 0; i < nA; ++i) NA += nb[i];
    double s = 1 / std::sqrt((double)N); M C1 = coefs(131, 2, NA, s), C2 = coefs(132, 2, N - NA, s), C = coefs(133, 6, N, s), S = overlap(134, N); vector<double> E = energies(135, 6);
    vector<int> cols = columns(L, p); M fC = pick_cols(C, cols), fS = pick_both(S, cols); vector<int> aA(atoms.begin(), atoms.begin() + nA), aB(atoms.begin() + nA, atoms.end()), b2(nb.begin() + nA, nb.end());
    Matrix &m1 = *mkp(C1), &m2 = *mkp(C2), &mC = *mkp(fC), &mS = *mkp(fS), oe = colv(E); double got = 0; mc::CaptureCout cap; Matrix k1 = mk(coord_of(aA)), k2 = mk(coord_of(aB)), kP = mk(coord_of(p));
    string what = to_string(n) + " atoms, " + to_string(nA) + " on monomer 1, file order " + str(p); mc::tr([&] { return what; });
    mc::Attempt at = mc::attempt([&] { TransferComplex tc(&m1, &m2, &mC, {2, 1}, {2, 1}, &mS, &oe, false); tc.unscramble(k1, k2, kP, permuted(nb, p), b2); got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}}); });
    mc::step(3); mc::check(at.ok(), "refused", [&] { return what + " was " + at.str(); });
    Ref r = formula(C1[0], C2[1], C, S, E, false); check_value(got, r, "coupling", what); check_print(cap.str(), r, "calcJ");
    mc::check(eq(m1, C1) && eq(m2, C2) && eq(mC, fC) && eq(mS, fS), "inputs changed");
    for (Matrix* x : {&m1, &m2, &mC, &mS}) delete x;
  });
  mc::scenario("through-complex", "every order of 2..5 dimer atoms in the file, every division, monomer atoms themselves in every rotation: TransferComplex::unscramble then calcJ equals the formula on the canonical molecules; matrices passed in unchanged", [] {
    int n = 2 + mc::choose(4), nA = 1 + mc::choose(n - 1); vector<int> p = choose_perm(n), nb; int w = mc::choose(2);
    for (int i = 0; i < n; ++i) nb.push_back(w ? 1 + (i + 1) % 3 : 1 + (n - i) % 2);
    // the canonical order is the monomers' own
    int rot = mc::choose(n); vector<int> id(n); std::iota(id.begin(), id.end(), 0); vector<int> atoms(n); for (int i = 0; i < n; ++i) atoms[i] = (i + rot) % n + (n <= 4 && rot % 2 ? 5 : 0);
    Layout L(nb); int N = L.N, NA = 0; for (int i = 0; i < nA; ++i) NA += nb[i];
    double s = sc(N); M C1 = coefs(31, 2, NA, s), C2 = coefs(32, 2, N - NA, s), C = coefs(33, 3, N, s), S = overlap(34, N); vector<double> E = energies(35, 3);
    vector<int> cols = columns(L, p); M fC = pick_cols(C, cols), fS = pick_both(S, cols); vector<int> fa; for (int a : p) fa.push_back(atoms[a]);
    vector<int> aA(atoms.begin(), atoms.begin() + nA), aB(atoms.begin() + nA, atoms.end()), b2(nb.begin() + nA, nb.end());
    mc::state(mc::Hash().add(nA).add(p).add(rot).add(w));
    mc::tr([&] { return "file order " + str(p) + " functions " + str(permuted(nb, p)) + " monomer 1 has " + to_string(nA) + " atoms, sites " + str(atoms); });
    Matrix &m1 = *mkp(C1), &m2 = *mkp(C2), &mC = *mkp(fC), &mS = *mkp(fS), oe = colv(E); double got = 0; mc::CaptureCout cap;
    Matrix k1 = mk(coord_of(aA)), k2 = mk(coord_of(aB)), kP = mk(coord_of(fa));
    mc::Attempt at = mc::attempt([&] {
      TransferComplex tc(&m1, &m2, &mC, {2, 1}, {2, 1}, &mS, &oe, false);
      tc.unscramble(k1, k2, kP, permuted(nb, p), b2);
      got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}});
    });
    mc::step(3);
    mc::check(at.ok(), "refused", [&] { return "file order " + str(p) + " was " + at.str(); });
    Ref r = formula(C1[0], C2[1], C, S, E, false);
    check_value(got, r, "coupling", "file order " + str(p) + " functions " + str(permuted(nb, p))); check_print(cap.str(), r, "calcJ");
    mc::check(eq(m1, C1) && eq(m2, C2) && eq(mC, fC) && eq(mS, fS), "inputs changed");
  });
}
static void setup04() {
  mc::scenario("last-digits", "2..3 atoms, every order in the dimer's and in monomer 2's file, two sets of sites, the coordinates of each calculation off by 0, 1e-6, 1e-5 or 2e-5 upwards, downwards or alternating (quick: monomer 1 all, monomer 2 three and the dimer two of them): aligned all the same", [] { last_digits(true); });
  mc::scenario("attempts", "2 (thorough 3) atoms: every sequence of up to two (thorough three) alignments and calculations on one complex, the alignments with three orders of the dimer times three of monomer 2, or with an atom of monomer 1, of monomer 2 or of the dimer at no place, or with wrong function counts: the last one that was accepted counts, the refused ones leave nothing behind", [] { attempts(true); });
  mc::scenario("permutations", "every order of 1..6 (thorough 7) atoms, distinct block sizes, the single-list alignment of coefficients and overlap", [] {
    int n = 1 + mc::choose(mc::bound(6, 7)); vector<int> p = choose_perm(n), nb;
    for (int i = 0; i < n; ++i) nb.push_back(1 + (i * 2 + n) % 3);
    mc::state(mc::Hash().add(p)); realign(n, n, nb, p, 2, false);
  });
  mc::scenario("block-sizes", "every order of 1..5 atoms, every number of functions 1..3 (thorough) or 1..2 (five atoms, quick) on every atom", [] {
    int n = 1 + mc::choose(5); vector<int> p = choose_perm(n), nb;
    for (int i = 0; i < n; ++i) nb.push_back(1 + mc::choose(n == 5 ? mc::bound(2, 3) : 3));
    mc::state(mc::Hash().add(p).add(nb)); realign(n, n, nb, p, 1, false);
  });
  mc::scenario("large", "12, 33 or 40 (thorough up to 101) atoms with 1..25 basis functions each, 4 patterns of block sizes, the five families of orders of C03: the exact matrices", [] {
    int n = mc::thorough() ? mc::pick(vector<int>{12, 33, 40, 65, 101}) : mc::pick(vector<int>{12, 33, 40}), w = mc::choose(n > 60 ? 1 : 4), f = mc::choose(families(n)); vector<int> p = family(f, n);
    mc::state(mc::Hash().add(p).add(w)); realign(n, n, blocks(n, w), p, 1, false);
  });
  mc::scenario("large-complex", "12 or 26 (thorough up to 65) atoms in every calculation: the five families of orders in the dimer file times reversed, rotated and unchanged in monomer 2's: unscramble then calcJ equals the formula on the canonical molecules", [] {
    int n = mc::thorough() ? mc::pick(vector<int>{12, 26, 65}) : mc::pick(vector<int>{12, 26}), f = mc::choose(families(n)); vector<int> pP = family(f, n), p2(n), nb; std::iota(p2.begin(), p2.end(), 0); int g = mc::choose(4); if (g == 1) std::reverse(p2.begin(), p2.end()); if (g == 2) std::rotate(p2.begin(), p2.begin() + n / 3, p2.end()); if (g == 3) p2 = pP;
    for (int i = 0; i < n; ++i) nb.push_back(i == n / 2 ? 12 : 1 + i % 3);
    Layout L(nb); int N = L.N; double s = 1 / std::sqrt((double)N); mc::state(mc::Hash().add(pP).add(p2));
    M C1 = coefs(141, 2, N, s), C2 = coefs(142, 2, N, s), C = coefs(143, 5, N, s), S = overlap(144, N); vector<double> E = energies(145, 5); vector<int> id(n); std::iota(id.begin(), id.end(), 0);
    vector<int> cP = columns(L, pP), c2 = columns(L, p2); M fC = pick_cols(C, cP), fS = pick_both(S, cP), f2 = pick_cols(C2, c2);
    Matrix &m1 = *mkp(C1), &m2 = *mkp(f2), &mC = *mkp(fC), &mS = *mkp(fS), oe = colv(E); double got = 0; mc::CaptureCout cap; Matrix k1 = mk(coord_of(id)), k2 = mk(coord_of(p2)), kP = mk(coord_of(pP));
    string what = to_string(n) + " atoms, dimer order " + str(pP) + " monomer 2 order " + str(p2); mc::tr([&] { return what; });
    mc::Attempt at = mc::attempt([&] { TransferComplex tc(&m1, &m2, &mC, {2, 1}, {2, 1}, &mS, &oe, true); tc.unscramble(k1, k2, kP, permuted(nb, pP), permuted(nb, p2)); got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}}); });
    mc::step(3); mc::check(at.ok(), "refused", [&] { return what + " was " + at.str(); });
    Ref r = formula(C1[0], C2[1], C, S, E, true); check_value(got, r, "coupling", what); check_print(cap.str(), r, "calcJ");
    mc::check(eq(m1, C1) && eq(m2, f2) && eq(mC, fC) && eq(mS, fS), "inputs changed");
    for (Matrix* x : {&m1, &m2, &mC, &mS}) delete x;
  });
  mc::scenario("through-complex", "2..4 (thorough 5) atoms, every order in the dimer file times every order in monomer 2's file, 3 block-size patterns: unscramble then calcJ equals the formula on the canonical molecules", [] {
    int n = 2 + mc::choose(mc::bound(3, 4)); vector<int> pP = choose_perm(n), p2 = choose_perm(n), nb; int w = mc::choose(n == 5 ? 1 : 3);
    for (int i = 0; i < n; ++i) nb.push_back(w == 0 ? 1 + (i + 1) % 3 : w == 1 ? 1 : 1 + (n - i) % 2);
    vector<int> atoms(n); for (int i = 0; i < n; ++i) atoms[i] = (i * 3 + w) % 10;
    Layout L(nb); int N = L.N; double s = sc(N);
    M C1 = coefs(41, 2, N, s), C2 = coefs(42, 3, N, s), C = coefs(43, 3, N, s), S = overlap(44, N); vector<double> E = energies(45, 3);
    vector<int> cP = columns(L, pP), c2 = columns(L, p2); M fC = pick_cols(C, cP), fS = pick_both(S, cP), f2 = pick_cols(C2, c2);
    vector<int> aP, a2; for (int a : pP) aP.push_back(atoms[a]); for (int a : p2) a2.push_back(atoms[a]);
    mc::state(mc::Hash().add(pP).add(p2).add(w));
    mc::tr([&] { return "dimer order " + str(pP) + " monomer 2 order " + str(p2) + " functions " + str(nb); });
    Matrix &m1 = *mkp(C1), &m2 = *mkp(f2), &mC = *mkp(fC), &mS = *mkp(fS), oe = colv(E); double got = 0; mc::CaptureCout cap;
    Matrix k1 = mk(coord_of(atoms)), k2 = mk(coord_of(a2)), kP = mk(coord_of(aP));
    mc::Attempt at = mc::attempt([&] {
      TransferComplex tc(&m1, &m2, &mC, {2, 1}, {3, 1}, &mS, &oe, true);
      tc.unscramble(k1, k2, kP, permuted(nb, pP), permuted(nb, p2));
      got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 1}});
    });
    mc::step(3);
    mc::check(at.ok(), "refused", [&] { return "orders " + str(pP) + str(p2) + " were " + at.str(); });
    Ref r = formula(C1[0], C2[2], C, S, E, true);
    check_value(got, r, "coupling", "dimer order " + str(pP) + " monomer 2 order " + str(p2) + " functions " + str(nb)); check_print(cap.str(), r, "calcJ");
    mc::check(eq(m1, C1) && eq(m2, f2) && eq(mC, fC) && eq(mS, fS), "inputs changed");
  });
}
static void setup06() {
  mc::scenario("sizes", "every overlap rows and columns, dimer columns, monomer columns and number of dimer energies within 1..4 of each other, counterpoise on and off, without realignment", [] {
    bool cp = mc::flip(); int mx = mc::bound(4, 5);
    int n1 = 1 + mc::choose(mx - (cp ? 0 : 1)), n2 = 1 + mc::choose(mx - (cp ? 0 : 1)), NP = 1 + mc::choose(mx), sr = 1 + mc::choose(mx), scl = 1 + mc::choose(mx), K = 1 + mc::choose(3), ne = 1 + mc::choose(4);
    bool okk = sr == NP && scl == NP && ne == K && (cp ? n1 == NP && n2 == NP : n1 + n2 == NP);
    M C1 = coefs(1, 2, n1, .3), C2 = coefs(2, 2, n2, .3), C = coefs(3, K, NP, .3), S(sr, vector<double>(scl)); vector<double> E = energies(4, ne);
    for (int i = 0; i < sr; ++i) for (int j = 0; j < scl; ++j) S[i][j] = i == j ? 1 : .2 * val(5, std::min(i, j), std::max(i, j));
    mc::state(mc::Hash().add((int)cp).add(n1).add(n2).add(NP).add(sr).add(scl).add(K).add(ne));
    string what = string(cp ? "counterpoise " : "") + "monomers " + to_string(n1) + "," + to_string(n2) + " functions, dimer " + to_string(K) + " orbitals of " + to_string(NP) + ", overlap " + to_string(sr) + "x" + to_string(scl) + ", " + to_string(ne) + " energies";
    mc::tr([&] { return what; });
    Matrix oe = colv(E); double got = 0; mc::CaptureCout cap; mc::step();
    mc::Attempt at = mc::attempt([&] { TransferComplex tc(mkp(C1), mkp(C2), mkp(C), {2, 1}, {2, 1}, mkp(S), &oe, cp); got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}}); });
    if (okk) { mc::check(at.ok(), "consistent refused", [&] { return what + " was " + at.str(); }); check_value(got, formula(C1[0], C2[1], C, S, E, cp), "value", what); mc::outcome("computed"); }
    else { mc::check(at.refused() && cap.str().find("J_eff") == string::npos, "inconsistent accepted", [&] { return what + " was " + at.str() + ", returned " + to_string(got); }); mc::outcome("refused"); }
  });
  mc::scenario("large", "30..131 functions per monomer, 40 or 130 dimer orbitals, counterpoise on and off: consistent, or exactly one of the ten sizes too large or too small by one", [] {
    bool cp = mc::flip(); int n1 = mc::pick(vector<int>{30, 64, 131}), n2 = mc::pick(vector<int>{33, 100}), K = mc::pick(vector<int>{40, 130}), what = mc::choose(13); int N = n1 + n2;
    int a = cp ? N : n1, b = cp ? N : n2, NP = N, sr = N, scl = N, ne = K; int* v[] = {&a, &b, &NP, &sr, &scl, &ne}; if (what) *v[(what - 1) / 2] += (what - 1) % 2 ? 1 : -1;
    double s = .5 / std::sqrt((double)N); M C1 = coefs(1, 2, a, s), C2 = coefs(2, 2, b, s), C = coefs(3, K, NP, s), S(sr, vector<double>(scl)); vector<double> E = energies(4, ne); for (int i = 0; i < sr; ++i) for (int j = 0; j < scl; ++j) S[i][j] = i == j ? 1 : .2 * val(5, std::min(i, j), std::max(i, j));
    mc::state(mc::Hash().add((int)cp).add(n1).add(n2).add(K).add(what)); mc::step(); string w = string(cp ? "counterpoise, " : "") + to_string(n1) + " and " + to_string(n2) + " functions, " + to_string(K) + " dimer orbitals, size " + to_string((what + 1) / 2) + (what == 0 ? " as it should be" : what % 2 ? " one too small" : " one too large"); mc::tr([&] { return w; });
    Matrix oe = colv(E); double got = 0; mc::CaptureCout cap;
    mc::Attempt at = mc::attempt([&] { TransferComplex tc(mkp(C1), mkp(C2), mkp(C), {2, 1}, {2, 1}, mkp(S), &oe, cp); got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}}); });
    if (!what) { mc::check(at.ok(), "consistent refused", [&] { return w + " was " + at.str(); }); check_value(got, formula(C1[0], C2[1], C, S, E, cp), "value", w); mc::outcome("computed"); }
    else { mc::check(at.refused() && cap.str().find("J_eff") == string::npos, "inconsistent accepted", [&] { return w + " was " + at.str() + ", returned " + to_string(got); }); mc::outcome("refused"); }
  });
  mc::scenario("atoms-large", "12 or 33 (thorough 65) atoms: every single atom of either monomer or of the dimer off its place (by one unit of the fourth decimal, by far) or repeating another, counterpoise on and off: refused", [] {
    bool cp = mc::flip(); int n = mc::thorough() ? mc::pick(vector<int>{12, 33, 65}) : mc::pick(vector<int>{12, 33}), nA = cp ? n : n / 3, n2 = cp ? n : n - nA, who = mc::choose(3), i = mc::choose(n), kind = mc::choose(3);
    mc::state(mc::Hash().add((int)cp).add(n).add(who).add(i).add(kind)); if (i >= (who == 0 ? nA : who == 1 ? n2 : n)) { mc::outcome("no such atom"); return; }
    vector<int> s1, s2, sP; for (int k = 0; k < nA; ++k) s1.push_back(k); for (int k = cp ? 0 : nA; k < n; ++k) s2.push_back(k); for (int k = 0; k < n; ++k) sP.push_back((k + 5) % n);
    M x[3] = {coord_of(s1), coord_of(s2), coord_of(sP)}; if (kind == 0) x[who][0][i] += .0003; else if (kind == 1) x[who][2][i] -= 7.5; else { int o = (i + 1) % (int)x[who][0].size(); for (int d = 0; d < 3; ++d) x[who][d][i] = x[who][d][o]; if (o == i) { mc::outcome("no such atom"); return; } }
    M C1 = coefs(1, 2, nA, .1), C2 = coefs(2, 2, n2, .1), C = coefs(3, 3, n, .1), S = overlap(4, n); vector<double> E = energies(5, 3); Matrix oe = colv(E); mc::step();
    string w = string(cp ? "counterpoise, " : "") + to_string(n) + " atoms, atom " + to_string(i + 1) + " of " + (who == 0 ? "monomer 1" : who == 1 ? "monomer 2" : "the dimer") + (kind == 0 ? " moved by 0.0003" : kind == 1 ? " far away" : " on the place of the next"); mc::tr([&] { return w; });
    double got = 0; mc::CaptureCout cap; mc::Attempt at = mc::attempt([&] { TransferComplex tc(mkp(C1), mkp(C2), mkp(C), {2, 1}, {2, 1}, mkp(S), &oe, cp); tc.unscramble(mk(x[0]), mk(x[1]), mk(x[2]), vector<int>(n, 1), vector<int>(n2, 1)); got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}}); });
    mc::check(at.refused() && cap.str().find("J_eff") == string::npos, "unmatchable accepted", [&] { return w + " was " + at.str() + ", returned " + to_string(got); }); mc::outcome("refused");
  });
  mc::scenario("missing-rows", "orbital counts and HOMO positions claimed beyond the rows of the coefficient matrix: every claim 0..4 for 1..3 rows, every selection: never a value from outside the matrix", [] {
    int K = 1 + mc::choose(3), claim = mc::choose(6), h = mc::choose(6); Sel a{mc::flip() ? "HOMO" : "LUMO", mc::choose(9) - 4}; bool second = mc::flip();
    M CL = coefs(1, K, 2, .4), CO = coefs(2, 1, 2, .4), C = coefs(3, 3, 4, .4), S = overlap(4, 4); vector<double> E = energies(5, 3); Matrix oe = colv(E);
    mc::state(mc::Hash().add(K).add(claim).add(h).add(a.type).add(a.num).add((int)second)); mc::step();
    double got = 0; mc::CaptureCout cap; Sel x{"HOMO", 0}; const Sel &s1 = second ? x : a, &s2 = second ? a : x;
    mc::Attempt at = mc::attempt([&] {
      TransferComplex tc(mkp(second ? CO : CL), mkp(second ? CL : CO), mkp(C), second ? std::make_pair(1, 1) : std::make_pair(claim, h), second ? std::make_pair(claim, h) : std::make_pair(1, 1), mkp(S), &oe, false);
      got = tc.calcJ({{"mon1", s1.type}, {"mon2", s2.type}}, {{"mon1", s1.num}, {"mon2", s2.num}});
    });
    int row = 0; bool ex = exists(a, claim, h, row) && row <= K;
    string what = a.type + to_string(a.num) + " with " + to_string(K) + " rows, claimed " + to_string(claim) + " orbitals, HOMO " + to_string(h) + (second ? ", monomer 2" : ", monomer 1");
    mc::tr([&] { return what + " -> " + at.str(); });
    if (!ex) mc::check(at.refused(), "absent accepted", [&] { return what + " was " + at.str(); });
    else if (at.ok()) check_value(got, second ? formula(CO[0], CL[row - 1], C, S, E, false) : formula(CL[row - 1], CO[0], C, S, E, false), "value", what);
    mc::outcome(at.ok() ? "computed" : "refused");
  });
  // atoms: each monomer atom sits on a site, the dimer lists sites; anything but a one-to-one matching is refused
  auto atoms = [](int n, int sites, bool cp, int kind) {
    int nA = cp ? n : 1 + mc::choose(n - 1), n2 = cp ? n : n - nA; vector<int> s1(nA), s2(n2), sP(n);
    // dimer fixed to distinct sites 0..n-1 in a chosen rotation; monomers choose any site
    int rot = mc::choose(n); for (int i = 0; i < n; ++i) sP[i] = (i + rot) % n;
    for (int& x : s1) x = mc::choose(sites);
    for (int& x : s2) x = mc::choose(sites);
    int dup = kind == 1 ? mc::choose(n + 1) : 0; if (dup) sP[dup - 1] = sP[(dup) % n];      // the dimer lists one site twice
    vector<int> nb(10); for (int i = 0; i < 10; ++i) nb[i] = 1;
    std::multiset<int> all(sP.begin(), sP.end()); bool okk;
    auto distinct = [](vector<int> v) { std::sort(v.begin(), v.end()); return std::unique(v.begin(), v.end()) == v.end(); };
    if (cp) { std::multiset<int> a(s1.begin(), s1.end()), b(s2.begin(), s2.end()); okk = a == all && b == all && distinct(sP); }
    else { std::multiset<int> a(s1.begin(), s1.end()); a.insert(s2.begin(), s2.end()); okk = a == all && distinct(sP); }
    int N = n; M C1 = coefs(1, 2, nA, .3), C2 = coefs(2, 2, n2, .3), C = coefs(3, 3, N, .3), S = overlap(4, N); vector<double> E = energies(5, 3); Matrix oe = colv(E);
    string what = string(cp ? "counterpoise, " : "") + "monomer 1 sites " + str(s1) + " monomer 2 sites " + str(s2) + " dimer sites " + str(sP);
    mc::state(mc::Hash().add(s1).add(s2).add(sP)); mc::step(); mc::tr([&] { return what; });
    double got = 0; mc::CaptureCout cap;
    mc::Attempt at = mc::attempt([&] {
      TransferComplex tc(mkp(C1), mkp(C2), mkp(C), {2, 1}, {2, 1}, mkp(S), &oe, cp);
      tc.unscramble(mk(coord_of(s1)), mk(coord_of(s2)), mk(coord_of(sP)), vector<int>(n, 1), vector<int>(n2, 1));
      got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}});
    });
    if (okk) {
      mc::check(at.ok(), "consistent refused", [&] { return what + " was " + at.str(); });
      // reference: reorder everything to monomer 1's (then monomer 2's) order
      vector<int> want = s1; if (!cp) want.insert(want.end(), s2.begin(), s2.end());
      vector<int> pos, pos2; for (int x : want) { pos.push_back((int)(std::find(sP.begin(), sP.end(), x) - sP.begin())); if (cp) pos2.push_back((int)(std::find(s2.begin(), s2.end(), x) - s2.begin())); }
      check_value(got, formula(C1[0], cp ? pick_cols(C2, pos2)[1] : C2[1], pick_cols(C, pos), pick_both(S, pos), E, cp), "value", what); mc::outcome("computed");
    } else { mc::check(at.refused() && cap.str().find("J_eff") == string::npos, "unmatchable accepted", [&] { return what + " was " + at.str() + ", returned " + to_string(got); }); mc::outcome("refused"); }
  };
  mc::scenario("atoms", "2..4 atoms, each monomer atom on any of n+1 sites (present, absent, repeated), dimer in every rotation, every division", [=] { int n = 2 + mc::choose(3); atoms(n, n + 1, false, 0); });
  mc::scenario("atoms-dimer-repeats", "2..3 atoms, each monomer atom on any of n+1 sites, the dimer possibly listing a site twice", [=] { int n = 2 + mc::choose(2); atoms(n, n + 1, false, 1); });
  mc::scenario("atoms-counterpoise", "2..3 atoms (all in every calculation), each atom of either monomer on any of n+1 sites, the dimer possibly listing a site twice", [=] { int n = 2 + mc::choose(2); atoms(n, n + 1, true, 1); });
  mc::scenario("monomer-sizes", "2..4 atoms, every function count 1..2 per atom, every division, dimer in every rotation: the two monomers' matrices 1..4 functions each, adding up to the dimer or not, with realignment", [] {
    int n = 2 + mc::choose(mc::bound(2, 3)), nA = 1 + mc::choose(n - 1), rot = mc::choose(n); vector<int> nb(n); for (int& x : nb) x = 1 + mc::choose(2); int N = std::accumulate(nb.begin(), nb.end(), 0);
    int w1 = std::accumulate(nb.begin(), nb.begin() + nA, 0), w2 = N - w1, d1 = mc::choose(5) - 2, d2 = mc::choose(5) - 2; vector<int> s1, s2, sP(n), nP(n);
    for (int i = 0; i < nA; ++i) s1.push_back(i); for (int i = nA; i < n; ++i) s2.push_back(i); for (int i = 0; i < n; ++i) { sP[i] = (i + rot) % n; nP[i] = nb[sP[i]]; }
    mc::state(mc::Hash().add(nb).add(nA).add(rot).add(d1).add(d2)); if (w1 + d1 < 1 || w2 + d2 < 1) { mc::outcome("empty"); return; }
    M C1 = coefs(1, 2, w1 + d1, .3), C2 = coefs(2, 2, w2 + d2, .3), C = coefs(3, 3, N, .3), S = overlap(4, N); vector<double> E = energies(5, 3); Matrix oe = colv(E); bool okk = d1 == 0 && d2 == 0;
    string what = "functions " + str(nb) + ", monomer 1 of " + to_string(nA) + " atoms with " + to_string(d1) + " too many, monomer 2 with " + to_string(d2) + " too many, dimer rotated by " + to_string(rot); mc::tr([&] { return what; }); mc::step();
    vector<int> order, start(n); { int at = 0; for (int i = 0; i < n; ++i) { start[sP[i]] = at; at += nP[i]; } } for (int i = 0; i < n; ++i) for (int k = 0; k < nb[i]; ++k) order.push_back(start[i] + k);
    double got = 0; mc::CaptureCout cap; vector<int> nb2(nb.begin() + nA, nb.end());
    mc::Attempt at = mc::attempt([&] { TransferComplex tc(mkp(C1), mkp(C2), mkp(C), {2, 1}, {2, 1}, mkp(S), &oe, false); tc.unscramble(mk(coord_of(s1)), mk(coord_of(s2)), mk(coord_of(sP)), nP, nb2); got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}}); });
    if (okk) { mc::check(at.ok(), "consistent refused", [&] { return what + " was " + at.str(); }); check_value(got, formula(C1[0], C2[1], pick_cols(C, order), pick_both(S, order), E, false), "value", what); mc::outcome("computed"); }
    else { mc::check(at.refused() && cap.str().find("J_eff") == string::npos, "inconsistent accepted", [&] { return what + " was " + at.str() + ", returned " + to_string(got); }); mc::outcome("refused"); }
  });
  mc::scenario("matchings", "the alignment functions themselves, for coefficients and overlap, with one list or two: every list of 0..4 positions, each 0..4 (thorough -1..5), and every division of it, 1..3 atoms with one of four patterns of functions, matrices of the right size or one column more or fewer: a value exactly if every atom is named once and the sizes agree", [] {
    int n = 1 + mc::choose(3), len = mc::choose(5), lo = mc::thorough() ? -1 : 0, hi = mc::thorough() ? 5 : 4; vector<int> l(len); for (int& x : l) x = lo + mc::choose(hi - lo + 1); int two = mc::choose(2), split = two ? mc::choose(len + 1) : 0, w = mc::choose(4), d = mc::choose(3) - 1, f = mc::choose(2);
    vector<int> b(n), sorted = l; int N = 0; for (int i = 0; i < n; ++i) N += b[i] = w == 0 ? 1 : w == 1 ? 2 : w == 2 ? 1 + i : n - i; std::sort(sorted.begin(), sorted.end()); bool good = d == 0 && len == n; for (int i = 0; good && i < n; ++i) good = sorted[i] == i + 1;
    mc::state(mc::Hash().add(l).add(split).add(two).add(b).add(d).add(f)); if (N + d < 1) { mc::outcome("empty"); return; }
    M X = coefs(6, f ? N + d : 2, N + d, .5); Matrix& x = *mkp(X); vector<int> l1(l.begin(), l.begin() + split), l2(l.begin() + split, l.end()); Matrix* r = nullptr; string what = string(f ? "overlap" : "coefficients") + " of " + to_string(N + d) + " functions, " + str(b) + " on the atoms, matched by " + (two ? str(l1) + " and " + str(l2) : str(l)); mc::tr([&] { return what; }); mc::step();
    mc::Attempt at = mc::attempt([&] { r = f == 0 ? (two ? unscramble_Coef(l1, l2, b, &x) : unscramble_Coef(l, b, &x)) : (two ? unscramble_S(l1, l2, b, &x) : unscramble_S(l, b, &x)); });
    if (good) { mc::check(at.ok() && r, "consistent refused", [&] { return what + " was " + at.str(); }); vector<int> start(n), cols; int at0 = 0; for (int i = 0; i < n; ++i) { start[i] = at0; at0 += b[i]; } for (int a : l) for (int q = 0; q < b[a - 1]; ++q) cols.push_back(start[a - 1] + q);
      mc::check(eq(*r, f ? pick_both(X, cols) : pick_cols(X, cols)), "value", [&] { return what; }); mc::outcome("aligned"); }
    else { mc::check(at.refused(), "unmatchable accepted", [&] { return what + " was " + at.str(); }); mc::outcome("refused"); }
    mc::check(eq(x, X), "inputs changed"); delete &x;
  });
  mc::scenario("basis-counts", "3 atoms, function counts claimed per dimer atom 0..3 each and 2..4 entries, monomer-2 counts likewise in counterpoise: a list that does not add up to the matrices or to the atoms is refused", [] {
    bool cp = mc::flip(); int len = 2 + mc::choose(3); vector<int> b(len); for (int& x : b) x = mc::choose(len == 4 ? 3 : 4);
    vector<int> b2{1, 2, 1}; if (cp) { int k = mc::choose(6); if (k == 1) b2 = {1, 2}; if (k == 2) b2 = {1, 2, 1, 1}; if (k == 3) b2 = {2, 2, 1}; if (k == 4) b2 = {1, 1, 1}; if (k == 5) b2 = {1, 2, 1, 0}; }
    else b2 = {1};
    int N = 4; vector<int> sites{0, 1, 2}, s1 = cp ? sites : vector<int>{0, 1}, s2 = cp ? sites : vector<int>{2};
    M C1 = coefs(1, 2, cp ? N : 3, .3), C2 = coefs(2, 2, cp ? N : 1, .3), C = coefs(3, 3, N, .3), S = overlap(4, N); vector<double> E = energies(5, 3); Matrix oe = colv(E);
    int sum = std::accumulate(b.begin(), b.end(), 0), sum2 = std::accumulate(b2.begin(), b2.end(), 0);
    // lists that add up but put zero functions on an atom, or contradict the monomer blocks, are left open
    bool bad = len != 3 || sum != N || (cp && ((int)b2.size() != 3 || sum2 != N)); bool good = !bad && b == vector<int>({1, 2, 1});
    string what = string(cp ? "counterpoise " : "") + "dimer counts " + str(b) + " monomer 2 counts " + str(b2);
    mc::state(mc::Hash().add((int)cp).add(b).add(b2)); mc::step(); mc::tr([&] { return what; });
    double got = 0; mc::CaptureCout cap;
    mc::Attempt at = mc::attempt([&] {
      TransferComplex tc(mkp(C1), mkp(C2), mkp(C), {2, 1}, {2, 1}, mkp(S), &oe, cp);
      tc.unscramble(mk(coord_of(s1)), mk(coord_of(s2)), mk(coord_of(sites)), b, b2);
      got = tc.calcJ({{"mon1", "HOMO"}, {"mon2", "LUMO"}}, {{"mon1", 0}, {"mon2", 0}});
    });
    if (good) { mc::check(at.ok(), "consistent refused", [&] { return what + " was " + at.str(); }); check_value(got, formula(C1[0], C2[1], C, S, E, cp), "value", what); }
    else if (bad) mc::check(at.refused() && cap.str().find("J_eff") == string::npos, "inconsistent accepted", [&] { return what + " was " + at.str() + ", returned " + to_string(got); });
    mc::outcome(at.ok() ? "computed" : "refused");
  });
}

static void setup() {
#if PROP == 1
  setup01();
#elif PROP == 2
  setup02();
#elif PROP == 3
  setup03();
#elif PROP == 4
  setup04();
#elif PROP == 6
  setup06();
#endif
}
MC_MAIN(setup)
