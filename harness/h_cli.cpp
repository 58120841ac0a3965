// C05, C14-C17, C26: the command line and the calc_J program (its own main, run in-process).
#include "mc.hpp"
#include "formula.hpp"
#include "gauss.hpp"
#include "world.hpp"
#include "io.hpp"
#include "parameters.hpp"
#include <memory>
#include <numeric>
using namespace catnip; using namespace gauss;
int calcj_main(int argc, const char* argv[]);

static string line(const vector<string>& a) { string s; for (auto& x : a) s += " '" + x + "'"; return s; }
struct Run { mc::Attempt at; int rc = 0; string out; bool success() const { return (at.ok() && rc == 0) || at.k == mc::Attempt::EXIT0; } string str() const { return at.ok() ? "exit status " + to_string(rc) : at.str(); } };
static Run calcj(const vector<string>& args) {
  Run r; vector<const char*> v{"calc_J"}; for (auto& a : args) v.push_back(a.c_str()); v.push_back(nullptr);
  { mc::CaptureCout cap; r.at = mc::attempt([&] { r.rc = calcj_main((int)v.size() - 1, v.data()); }); r.out = cap.str(); }
  mc::step(); return r;
}
static vector<string> words(const string& s) { std::istringstream is(s); vector<string> v; string w; while (is >> w) v.push_back(w); return v; }
static bool has(const string& s, const string& w) { return s.find(w) != string::npos; }
// number of lines that start with the label and a number
static int result_lines(const string& out, const string& label) { int n = 0; std::istringstream is(out); string l; while (std::getline(is, l)) { std::istringstream w(l); string a, b; w >> a >> b; char* e = nullptr; strtod(b.c_str(), &e); if (a == label && !b.empty() && !*e) ++n; } return n; }
static bool any_result(const string& out) { return result_lines(out, "J_eff") > 0; }

static void expect(const Run& r, const World& w, const Pick& p, const string& what) {
  mc::check(r.success(), "failed", [&] { return what + ": a complete calculation ended with " + r.str() + "\n" + r.out.substr(0, 800); });
  Ref f = reference(w, p); if (singular(f)) { mc::outcome("singular, not judged"); return; }
  check_print(r.out, f, what);
}
// ---------------------------------------------------------------- C05 ---
// the line about one molecule names the spin and the orbital used
static void reported(const Run& r, const string& mol, const string& spin, const string& orbital, const string& what) {
  std::istringstream is(r.out); string l; bool spins = false, orb = orbital.empty(); std::set<string> other{"Alpha", "Beta"}; other.erase(spin);
  while (std::getline(is, l)) if (has(l, mol) && has(l, "Spin")) { string w; std::istringstream ws(l); while (ws >> w) { if (w == spin) spins = true; if (w == orbital) orb = true; if (other.count(w)) { spins = false; break; } } }
  mc::check(spins && orb, "report", [&] { return what + ": the output does not say that " + mol + " was used with spin " + spin + " " + orbital + "\n" + r.out; });
}
static string orbital_name(const string& t, int n) { return n ? t + (n > 0 ? "+" : "") + to_string(n) : t; }
static void reported(const Run& r, const Pick& p, const string& what) { reported(r, "Dimer", p.sP, "", what); reported(r, "Monomer 1", p.s1, orbital_name(p.t1, p.n1), what); reported(r, "Monomer 2", p.s2, orbital_name(p.t2, p.n2), what); }
static void setup05() {
  mc::scenario("orders", "2..4 (thorough 5) atoms, every order in the dimer file, every division between the monomers, 4 block-size patterns (two mixed, all one function, all two), 2 sets of sites", [] {
    int n = 2 + mc::choose(mc::bound(3, 4)), nA = 1 + mc::choose(n - 1), v = mc::choose(4), rot = 5 * mc::choose(2); vector<int> p = choose_perm(n), nb; for (int i = 0; i < n; ++i) nb.push_back(v == 3 ? 2 : v == 2 ? 1 : v ? 1 + (i + 1) % 3 : 1 + (n - i) % 2);
    mc::state(mc::Hash().add(nA).add(v).add(rot).add(p)); World w = world(nb, nA, false, false, 0, 3, 3, 4, rot); string d = scratch();
    put_calc(d + "/pair", reordered(w.P, p)); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", w.m2);
    auto a = file_args(d, 0); string what = "dimer order " + str(p) + " functions " + str(nb) + ", monomer 1 has " + to_string(nA) + " atoms"; mc::tr([&] { return what; });
    Run r = calcj(a); expect(r, w, Pick(), what);
  });
  mc::scenario("orders-counterpoise", "2..3 (thorough 4) atoms in all three calculations, every order in the dimer file times every order in monomer 2's file, 4 block-size patterns", [] {
    int n = 2 + mc::choose(mc::bound(2, 3)), v = mc::choose(4); vector<int> p = choose_perm(n), p2 = choose_perm(n), nb; for (int i = 0; i < n; ++i) nb.push_back(v == 3 ? 2 : v == 2 ? 1 : v ? 1 + (i + 1) % 3 : 1 + (n - i) % 2);
    mc::state(mc::Hash().add(v).add(p).add(p2)); World w = world(nb, 1, true, false); string d = scratch();
    put_calc(d + "/pair", reordered(w.P, p)); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", reordered(w.m2, p2));
    auto a = file_args(d, 1); a.push_back("--counter_poise"); string what = "counterpoise, dimer order " + str(p) + " monomer 2 order " + str(p2) + " functions " + str(nb); mc::tr([&] { return what; });
    Run r = calcj(a); expect(r, w, Pick(), what);
  });
  mc::scenario("selection", "restricted and unrestricted calculations, counterpoise on and off, every spin of dimer and monomers, every orbital kind, offsets -1..1 that exist, two dimer orders, four ways of naming the files, options spelled out or left to their defaults", [] {
    bool un = mc::flip(), cp = mc::flip(), all = mc::flip(); int style = mc::choose(4), o = mc::choose(2); Pick p; if (un) { if (mc::flip()) p.sP = "Beta"; if (mc::flip()) p.s1 = "Beta"; if (mc::flip()) p.s2 = "Beta"; }
    if (mc::flip()) p.t1 = "LUMO"; if (mc::flip()) p.t2 = "LUMO"; p.n1 = mc::choose(2); p.n2 = mc::choose(2); if (p.t1 == "HOMO") p.n1 = -p.n1; if (p.t2 == "HOMO") p.n2 = -p.n2;
    World w = world({2, 1, 3}, 2, cp, un, un ? 20 : 0); if (!selectable(w.m1, p.s1, p.t1, p.n1) || !selectable(w.m2, p.s2, p.t2, p.n2)) return;
    mc::state(mc::Hash().add((int)un).add((int)cp).add((int)all).add(style).add(o).add(p.sP).add(p.s1).add(p.s2).add(p.t1).add(p.t2).add(p.n1).add(p.n2));
    string d = scratch(); put_calc(d + "/pair", reordered(w.P, o ? vector<int>{2, 0, 1} : vector<int>{0, 1, 2})); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", w.m2);
    auto a = file_args(d, style); pick_args(a, p, cp, all); string what = "arguments" + line(a); mc::tr([&] { return what; }); Run r = calcj(a); expect(r, w, p, what);
    // the files and the selection are reported as used
    reported(r, p, what);
    for (int i = 0; i < 3; ++i) for (const char* e : {".pun", ".log"}) { string f = d + (i == 0 ? "/pair" : i == 1 ? "/mon1" : "/mon2") + e; mc::check(has(r.out, f), "files", [&] { return what + ": the output does not name " + f + "\n" + r.out; }); }
  });
  mc::scenario("names", "file names of 1..3 lengths per file (one letter, six, thirty), in the same or in different directories, each of the six files under a name of its own: the coupling of those files, and the output names each file used", [] {
    int dirs = mc::choose(2), n[6]; bool cp = mc::flip(); static const string base[] = {"a", "dimers", "a_rather_long_name_of_a_file_xy"}; mc::Hash h; h.add(dirs).add((int)cp); for (int& x : n) { x = mc::choose(3); h.add(x); } mc::state(h);
    World w = world({2, 1, 3}, 1, cp, false, 60); string d = scratch() + "/names"; mkdir(d.c_str(), 0755); Calc c[] = {reordered(w.P, {2, 0, 1}), w.m1, w.m2}; vector<string> a, f; static const char* mol[] = {"P", "1", "2"};
    for (int i = 0; i < 3; ++i) { string q = d; if (dirs) { q += string(1 + 4 * i, (char)('k' + i)); mkdir(q.c_str(), 0755); } for (int k = 0; k < 2; ++k) { string s = q + "/" + base[n[2 * i + k]] + mol[i] + (k ? ".log" : ".pun"); put(s, k ? log_text(c[i]) : pun_text(c[i])); a.push_back(string(k ? "--log_" : "--pun_") + mol[i]); a.push_back(s); f.push_back(s); } }
    if (cp) a.push_back("-cp"); string what = "arguments" + line(a); mc::tr([&] { return what; }); Run r = calcj(a); for (auto& x : f) unlink(x.c_str());
    expect(r, w, Pick(), what); for (auto& x : f) { auto ws = words(r.out); mc::check(std::find(ws.begin(), ws.end(), x) != ws.end(), "files", [&] { return what + ": the output does not name " + x + "\n" + r.out; }); }
  });
  mc::scenario("mixed", "each of the three calculations restricted or unrestricted on its own, either spin asked of each, four pairs of orbitals, counterpoise on and off: computed from the spins named, and refused exactly if a molecule lacks the spin asked of it", [] {
    int un = mc::choose(8), k = mc::choose(4); bool cp = mc::flip(); Pick p; if (mc::flip()) p.sP = "Beta"; if (mc::flip()) p.s1 = "Beta"; if (mc::flip()) p.s2 = "Beta"; p.t1 = k & 1 ? "LUMO" : "HOMO"; p.t2 = k & 2 ? "LUMO" : "HOMO"; p.n2 = k == 3 ? 1 : 0;
    World w = world({2, 1, 3}, 2, cp, true, 20); Calc* c[] = {&w.P, &w.m1, &w.m2}; for (int i = 0; i < 3; ++i) if (!(un >> i & 1)) c[i]->spin.erase("Beta");
    mc::state(mc::Hash().add(un).add(k).add((int)cp).add(p.sP).add(p.s1).add(p.s2)); string d = scratch(); put_calc(d + "/pair", reordered(w.P, {2, 0, 1})); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", w.m2); auto a = file_args(d, k); pick_args(a, p, cp, false); string what = "arguments" + line(a) + ", unrestricted: " + string(un & 1 ? "dimer " : "") + (un & 2 ? "monomer 1 " : "") + (un & 4 ? "monomer 2" : ""); mc::tr([&] { return what; });
    bool ok = w.P.spin.count(p.sP) && selectable(w.m1, p.s1, p.t1, p.n1) && selectable(w.m2, p.s2, p.t2, p.n2); Run r = calcj(a);
    if (ok) { expect(r, w, p, what); reported(r, p, what); mc::outcome("computed"); } else { mc::check(!r.success() && !any_result(r.out), "absent spin", [&] { return what + ": ended with " + r.str() + "\n" + r.out; }); mc::outcome("refused"); }
  });
  mc::scenario("sizes", "1..4 (thorough 6) functions on each of the first atoms of both monomers (up to 21 functions, several table blocks), 1..7 dimer orbitals, 4 orders of the sections in the dimer's log, reversed atoms", [] {
    int a = 1 + mc::choose(mc::bound(4, 6)), b = 1 + mc::choose(mc::bound(4, 6)), K = 1 + mc::choose(7), o = mc::choose(4); bool big = mc::flip(); vector<int> nb{a, b, a + 1, 2}; if (big) nb.push_back(5);
    static const vector<vector<int>> ord{{GEO, OVL, ENE, POP}, {ENE, POP, GEO, OVL}, {POP, ENE, OVL, GEO}, {OVL, GEO, POP, ENE}};
    mc::state(mc::Hash().add(a).add(b).add(K).add(o).add((int)big)); World w = world(nb, 2, false, o % 2, 40, K, 3, 4, 0); string d = scratch(); vector<int> p((int)nb.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = (int)(p.size() - 1 - i);
    put_calc(d + "/pair", reordered(w.P, p), ord[o]); put_calc(d + "/mon1", w.m1, ord[(o + 1) % 4]); put_calc(d + "/mon2", w.m2, ord[(o + 2) % 4]);
    auto args = file_args(d, 2); string what = "functions " + str(nb) + ", " + to_string(K) + " dimer orbitals, section order " + to_string(o); mc::tr([&] { return what; }); Run r = calcj(args); expect(r, w, Pick(), what);
  });
  mc::scenario("large", "9, 10, 11, 12, 21, 33 atoms (up to 99 functions, 40 orbitals), 3 divisions between the monomers, 2 block-size patterns, 7 orders of the atoms in the dimer file, with and without counterpoise (then 4 orders in monomer 2's file), orbitals deep and at the edges, both spins", [] {
    static const vector<int> Ns{9, 10, 11, 12, 21, 33}; int n = mc::pick(Ns), dv = mc::choose(3), v = mc::choose(2), o = mc::choose(7); bool cp = mc::flip(); int o2 = cp ? mc::choose(4) : 0, sel = mc::choose(4);
    auto order = [](int n, int o) { vector<int> p; if (o == 0) return ident(n); if (o == 1) for (int i = n; i-- > 0;) p.push_back(i); if (o == 2) for (int i = 0; i < n; ++i) p.push_back((i + 1) % n); if (o == 3) { for (int i = 0; i < n; i += 2) p.push_back(i); for (int i = 1; i < n; i += 2) p.push_back(i); } if (o == 4) { p = ident(n); std::swap(p[0], p[n - 1]); } if (o == 5) for (int i = 0; i < n; ++i) p.push_back((i + n / 2) % n); if (o == 6) { p = ident(n); std::swap(p[n / 2], p[n - 2]); std::swap(p[1], p[n - 1]); } return p; };
    static const int to2[] = {0, 1, 2, 6}; int nA = dv == 0 ? 1 : dv == 1 ? n / 2 : n - 1; vector<int> nb, p = order(n, o), p2 = order(n, to2[o2]); for (int i = 0; i < n; ++i) nb.push_back(v ? 1 + (i * 2 + i / 3) % 5 : 1 + (i + 1) % 2);
    if (!mc::thorough() && n > 12 && (o2 == 1 || o2 == 2 || sel >= 2)) return;
    mc::state(mc::Hash().add(n).add(dv).add(v).add(o).add((int)cp).add(o2).add(sel)); World w = world(nb, nA, cp, true, 90 + n, std::min(40, 3 * n), 30, 25); string d = scratch();
    Pick q; if (sel == 1) { q.t1 = "LUMO"; q.n1 = 18; q.n2 = -11; q.sP = "Beta"; } if (sel == 2) { q.s2 = "Beta"; q.n1 = -10; q.n2 = 13; q.t2 = "LUMO"; } if (sel == 3) { q.s1 = "Beta"; q.n1 = -9; q.t2 = "LUMO"; q.n2 = 5; }
    put_calc(d + "/pair", reordered(w.P, p)); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", cp ? reordered(w.m2, p2) : w.m2);
    auto a = file_args(d, 0); pick_args(a, q, cp, false); string what = string(cp ? "counterpoise, " : "") + "dimer order " + str(p) + (cp ? " monomer 2 order " + str(p2) : "") + " functions " + str(nb) + ", monomer 1 has " + to_string(nA) + " atoms, arguments" + line(a); mc::tr([&] { return what; });
    mc::check(selectable(w.m1, q.s1, q.t1, q.n1) && selectable(w.m2, q.s2, q.t2, q.n2), "harness", [&] { return what; }); Run r = calcj(a); expect(r, w, q, what); reported(r, q, what);
  });
  mc::scenario("last-digits", "three atoms, every order in the dimer file, with and without counterpoise (then three orders in monomer 2's file), two sets of sites: the logs of the three calculations print coordinates that differ by up to 2e-5 in seven ways", [] {
    bool cp = mc::flip(); int rot = 5 * mc::choose(2), k = mc::choose(7), o2 = cp ? mc::choose(3) : 0; vector<int> p = choose_perm(3), nb{2, 1, 3}, p2 = o2 == 0 ? ident(3) : o2 == 1 ? vector<int>{2, 1, 0} : vector<int>{1, 2, 0}; mc::state(mc::Hash().add((int)cp).add(rot).add(k).add(o2).add(p)); World w = world(nb, 2, cp, false, 0, 3, 3, 4, rot); string d = scratch();
    static const double u[7][3] = {{0, 1e-6, 0}, {0, 0, -1e-6}, {1e-6, -1e-6, 0}, {2e-5, -2e-5, 0}, {-2e-5, 0, 2e-5}, {0, 2e-5, -2e-5}, {-1e-5, 1e-5, 2e-5}}; Calc* c[] = {&w.m1, &w.m2, &w.P}; for (int f = 0; f < 3; ++f) for (size_t i = 0; i < c[f]->at.size(); ++i) { double e = u[k][f]; auto& a = c[f]->at[i]; a.x += e; a.y += i % 2 ? -e : e; a.z3 -= e; }
    put_calc(d + "/pair", reordered(w.P, p)); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", cp ? reordered(w.m2, p2) : w.m2); auto a = file_args(d, 0); if (cp) a.push_back("-cp"); string what = string(cp ? "counterpoise, " : "") + "dimer order " + str(p) + (cp ? " monomer 2 order " + str(p2) : "") + ", last digits of the coordinates " + to_string(k); mc::tr([&] { return what; }); Run r = calcj(a); expect(r, w, Pick(), what);
  });
  mc::scenario("same-file", "counterpoise with one calculation named for both monomers, or for a monomer and the dimer: every spin and orbital kind of either, both orders of the atoms in the dimer file", [] {
    int kind = mc::choose(3), o = mc::choose(2); Pick q; if (mc::flip()) q.sP = "Beta"; if (mc::flip()) q.s1 = "Beta"; if (mc::flip()) q.s2 = "Beta"; if (mc::flip()) q.t1 = "LUMO"; if (mc::flip()) q.t2 = "LUMO";
    World w = world({2, 1, 3}, 1, true, true, 20, 5, 5, 6); if (kind == 0) w.m2 = w.m1; if (kind == 1) w.m1 = w.P; if (kind == 2) w.m2 = w.P; if (!selectable(w.m1, q.s1, q.t1, q.n1) || !selectable(w.m2, q.s2, q.t2, q.n2)) return;
    mc::state(mc::Hash().add(kind).add(o).add(q.sP).add(q.s1).add(q.s2).add(q.t1).add(q.t2)); string d = scratch(); vector<int> p = o ? vector<int>{2, 0, 1} : ident(3); put_calc(d + "/pair", reordered(w.P, p)); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", w.m2);
    auto a = file_args(d, 2); for (auto& s : a) { auto re = [&](const char* from, const char* to) { size_t k = s.find(from); if (k != string::npos) s = s.substr(0, k) + to + s.substr(k + strlen(from)); }; if (kind == 0) re("/mon2.", "/mon1."); if (kind == 1) re("/mon1.", "/pair."); if (kind == 2) re("/mon2.", "/pair."); }
    // a monomer that is the dimer's file has the dimer's order of the atoms
    pick_args(a, q, true, true); string what = "arguments" + line(a); mc::tr([&] { return what; }); Run r = calcj(a); expect(r, w, q, what); reported(r, q, what);
  });
  mc::scenario("without-populations", "every subset of the three logs without a population table, with and without counterpoise, every order of three atoms in the dimer file, 2 division points: files in line give the coupling, others the coupling or a warning", [] {
    int m = mc::choose(8), nA = 1 + mc::choose(2); bool cp = mc::flip(); vector<int> p = choose_perm(3), nb{2, 1, 3}; mc::state(mc::Hash().add(m).add(nA).add((int)cp).add(p)); World w = world(nb, nA, cp, false, 33); string d = scratch();
    auto sec = [&](int bit) { return m >> bit & 1 ? vector<int>{GEO, OVL, ENE} : vector<int>{GEO, OVL, ENE, POP}; }; put_calc(d + "/pair", reordered(w.P, p), sec(0)); put_calc(d + "/mon1", w.m1, sec(1)); put_calc(d + "/mon2", w.m2, sec(2));
    auto a = file_args(d, 0); if (cp) a.push_back("-cp"); string what = string("logs without populations: ") + to_string(m) + ", dimer order " + str(p) + (cp ? " counterpoise" : ""); mc::tr([&] { return what; });
    std::ostringstream err; auto* old = std::cerr.rdbuf(err.rdbuf()); Run r = calcj(a); std::cerr.rdbuf(old);
    if (m == 0 || p == ident(3)) { expect(r, w, Pick(), what); return; }
    string t = err.str() + r.out; for (auto& c : t) c = (char)tolower(c); mc::outcome(r.success() ? "not in line, computed" : "not in line, refused"); mc::check(!any_result(r.out) || !err.str().empty() || has(t, "warn"), "warning", [&] { return what + ": a coupling of basis functions that could not be aligned was printed without a warning\n" + r.out; });
  });
  mc::scenario("updated-sections", "files as a multi-step job leaves them: an earlier geometry, earlier energies of both spins, an earlier overlap matrix and earlier populations, of the same or of another molecule and basis, before the final ones, in every combination per file", [] {
    int k = mc::choose(32), f = mc::choose(3); World w = world({2, 1, 3, 1}, 2, false, true, 60), old = world(mc::flip() ? vector<int>{2, 1, 3, 1} : vector<int>{1, 4, 2, 2, 1, 3}, 2, false, true, 77, 5, 6, 7, 5); vector<int> p{3, 1, 0, 2}, op = old.P.at.size() == 4 ? p : vector<int>{3, 1, 0, 2, 5, 4}; string d = scratch();
    mc::state(mc::Hash().add(k).add(f).add((int)op.size())); auto text = [&](const Calc& c, const Calc& o, bool dirty) { string s = preamble(); if (dirty) { if (k & 1) s += section(o, GEO); if (k & 2) s += section(o, ENE); if (k & 4) s += section(o, POP); if (k & 16) s += section(o, OVL); if (k & 8) s += decoy(0) + decoy(4); } for (int i : {GEO, OVL, ENE, POP}) s += section(c, i); return s + ending(); };
    Calc P = reordered(w.P, p), oP = reordered(old.P, op); put(d + "/pair.log", text(P, oP, f == 0)); put(d + "/pair.pun", pun_text(P)); put(d + "/mon1.log", text(w.m1, old.m1, f == 1)); put(d + "/mon1.pun", pun_text(w.m1)); put(d + "/mon2.log", text(w.m2, old.m2, f == 2)); put(d + "/mon2.pun", pun_text(w.m2));
    Pick q; q.s1 = "Beta"; auto a = file_args(d, 0); pick_args(a, q, false, false); string what = "earlier sections " + to_string(k) + " in file " + to_string(f); mc::tr([&] { return what; }); Run r = calcj(a); expect(r, w, q, what);
  });
}

// ---------------------------------------------------------------- C14 ---
static mc::Attempt parse(ArgumentParser& p, const vector<string>& args) { vector<const char*> v{"prog"}; for (auto& a : args) v.push_back(a.c_str()); string o; mc::CaptureCout cap; mc::Attempt a = mc::attempt([&] { p.parse(v.data(), (int)v.size()); }); mc::step(); return a; }
static bool whole_int(const string& s, long& v) { if (s.empty()) return false; size_t i = s[0] == '-' || s[0] == '+'; if (i == s.size()) return false; for (size_t k = i; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') return false; if (s.size() > 12) return false; v = strtol(s.c_str(), nullptr, 10); return v >= -2147483648L && v <= 2147483647L; }
static bool whole_num(const string& s, double& v) { if (s.empty()) return false; for (char c : s) if (!strchr("0123456789+-.eE", c)) return false; char* e = nullptr; v = strtod(s.c_str(), &e); return !*e; }
enum Kind { STR, SW, INT, DBL, FIL };
struct Flag { string full, abbr; Kind k; };
struct Model { std::map<string, string> s; std::map<string, int> i; std::map<string, double> d; bool bad = false; string why; };
static bool switch_value(const string& v, int& on) { if (v == "ON" || v == "TRUE" || v == "1") { on = 1; return true; } if (v == "OFF" || v == "FALSE" || v == "0") { on = 0; return true; } return false; }
template <class Ok> static Model interpret(const vector<Flag>& fl, const vector<string>& a, Model m, Ok ok) {
  auto find = [&](const string& t) { for (auto& f : fl) if (t == f.full || t == f.abbr) return &f; return (const Flag*)nullptr; };
  for (size_t i = 0; i < a.size(); ++i) {
    const Flag* f = find(a[i]); if (!f) { m.bad = true; m.why = "'" + a[i] + "' is not a flag"; return m; }
    bool next = i + 1 < a.size();
    if (f->k == SW) { if (next && !find(a[i + 1]) && a[i + 1] != "-h" && a[i + 1] != "--help") { int on; if (!switch_value(a[i + 1], on)) { m.bad = true; m.why = "'" + a[i + 1] + "' is no switch value"; return m; } m.i[f->full] = on; ++i; } else m.i[f->full] = 1; continue; }
    if (!next) { m.bad = true; m.why = a[i] + " has no value"; return m; }
    string v = a[++i]; long n; double x;
    if (!ok(*f, v)) { m.bad = true; m.why = "'" + v + "' is not allowed for " + f->full; return m; }
    if (f->k == STR || f->k == FIL) m.s[f->full] = v;
    if (f->k == INT) { if (!whole_int(v, n)) { m.bad = true; m.why = "'" + v + "' is no integer"; return m; } m.i[f->full] = (int)n; }
    if (f->k == DBL) { if (!whole_num(v, x)) { m.bad = true; m.why = "'" + v + "' is no number"; return m; } m.d[f->full] = x; }
  }
  return m;
}
static void compare(ArgumentParser& p, const vector<Flag>& fl, const Model& m, const mc::Attempt& at, const string& what) {
  if (m.bad) { mc::check(at.refused(), "accepted", [&] { return what + ": " + m.why + ", but parsing was " + at.str(); }); mc::outcome("refused"); return; }
  mc::check(at.ok(), "refused", [&] { return what + " was " + at.str(); });
  for (auto& f : fl) {
    auto bad = [&](const string& got, const string& want) { mc::fail("value", what + ": " + f.full + " is " + got + ", expected " + want); };
    if (f.k == STR || f.k == FIL) { string g; mc::Attempt a = mc::attempt([&] { g = p.getStr(f.full); }); auto it = m.s.find(f.full); if (it == m.s.end()) { if (a.ok()) bad("'" + g + "'", "not set"); } else if (!a.ok() || g != it->second) bad(a.ok() ? "'" + g + "'" : a.str(), "'" + it->second + "'"); }
    if (f.k == INT || f.k == SW) { int g = 0; mc::Attempt a = mc::attempt([&] { g = p.getInt(f.full); }); auto it = m.i.find(f.full); if (it == m.i.end()) { if (a.ok()) bad(to_string(g), "not set"); } else if (!a.ok() || g != it->second) bad(a.ok() ? to_string(g) : a.str(), to_string(it->second));
      if (f.k == SW) { string s; int on = -1; a = mc::attempt([&] { s = p.getStr(f.full); }); if (it != m.i.end() && (!a.ok() || !switch_value(s, on) || on != it->second)) bad(a.ok() ? "'" + s + "'" : a.str(), it->second ? "on" : "off"); } }
    if (f.k == DBL) { double g = 0; mc::Attempt a = mc::attempt([&] { g = p.getDouble(f.full); }); auto it = m.d.find(f.full); if (it == m.d.end()) { if (a.ok()) bad(to_string(g), "not set"); } else if (!a.ok() || g != it->second) bad(a.ok() ? to_string(g) : a.str(), to_string(it->second)); }
  }
  mc::outcome("parsed");
}
static const vector<Flag>& toy_flags() { static vector<Flag> f{{"--str", "-s", STR}, {"--sw", "-w", SW}, {"--int", "-i", INT}, {"--dbl", "-d", DBL}, {"--file", "-f", FIL}, {"--text", "-t", STR}}; return f; }
static std::unique_ptr<ArgumentParser> toy(bool defaults, Model& m) {
  std::set<vector<string>> s; for (auto& f : toy_flags()) s.insert(vector<string>{f.full, f.abbr, "About " + f.full});
  std::unique_ptr<ArgumentParser> p(new ArgumentParser(s));
  p->setFlagArgOpt("--str", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("true")); p->setFlagArgOpt("--str", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", std::set<string>{"a", "ON"});
  p->setFlagArgOpt("--sw", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT", string("OFF"));
  p->setFlagArgOpt("--int", "ARGUMENT_INT", "PROPERTY_INT", "MIN", -2); p->setFlagArgOpt("--int", "ARGUMENT_INT", "PROPERTY_INT", "MAX", 7);
  p->addFlagArg("--dbl", "ARGUMENT_DOUBLE"); p->setFlagArgOpt("--dbl", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MAX", 7.5);
  p->setFlagArgOpt("--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", std::set<string>{".txt", ".a"}); p->setFlagArgOpt("--file", "ARGUMENT_FILE", "PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", 0);
  p->addFlagArg("--text", "ARGUMENT_STRING");
  if (defaults) { p->setFlagDefaultValue("--str", string("a")); p->setFlagDefaultValue("--sw", string("OFF")); p->setFlagDefaultValue("--int", 5); p->setFlagDefaultValue("--dbl", 0.5); p->setFlagDefaultValue("--text", string("none")); m.s["--str"] = "a"; m.i["--sw"] = 0; m.i["--int"] = 5; m.d["--dbl"] = .5; m.s["--text"] = "none"; }
  return p;
}
static bool toy_ok(const Flag& f, const string& v) {
  if (f.full == "--str") return v == "a" || v == "ON"; if (f.full == "--file") { string b = v.substr(v.rfind('/') == string::npos ? 0 : v.rfind('/') + 1); size_t d = b.rfind('.'); string e = d == string::npos ? "" : b.substr(d); return e == ".txt" || e == ".a"; }
  if (f.full == "--int") { long n; return !whole_int(v, n) || (n >= -2 && n <= 7); } if (f.full == "--dbl") { double x; return !whole_num(v, x) || x <= 7.5; } return true;
}
static const vector<string>& tool_spins() { static vector<string> v{"Alpha", "Beta"}; return v; }
static vector<Flag> tool_flags() {
  vector<Flag> f; for (const char* m : {"P", "1", "2"}) { f.push_back({string("--pun_") + m, string("-p_") + m, FIL}); f.push_back({string("--log_") + m, string("-l_") + m, FIL}); f.push_back({string("--spin_") + m, string("-s_") + m, STR}); }
  for (const char* m : {"1", "2"}) { f.push_back({string("--orbital_type_") + m, string("-orb_ty_") + m, STR}); f.push_back({string("--orbital_num_") + m, string("-orb_num_") + m, INT}); }
  f.push_back({"--counter_poise", "-cp", SW}); return f;
}
static bool tool_ok(const Flag& f, const string& v) {
  if (f.full.find("--spin_") == 0) return v == "Alpha" || v == "Beta"; if (f.full.find("--orbital_type_") == 0) return v == "HOMO" || v == "LUMO";
  if (f.k == FIL) { string b = v.substr(v.rfind('/') == string::npos ? 0 : v.rfind('/') + 1); size_t d = b.rfind('.'); string e = d == string::npos ? "" : b.substr(d); return f.full.find("--log_") == 0 ? e == ".log" : e == ".pun" || e == ".orb" || e == ".7"; }
  return true;
}
static Model tool_defaults() { Model m; for (const char* x : {"--spin_P", "--spin_1", "--spin_2"}) m.s[x] = "Alpha"; m.s["--orbital_type_1"] = m.s["--orbital_type_2"] = "HOMO"; m.i["--orbital_num_1"] = m.i["--orbital_num_2"] = 0; m.i["--counter_poise"] = 0; return m; }
static void setup14() {
  mc::scenario("token-sequences", "a parser with a flag of every kind (choice, free text, switch, bounded integer, bounded real, file), with defaults: every sequence of up to 3 (thorough 4) tokens from 12 flags and 20 values, valid, invalid, empty and flag-like", [] {
    static const vector<string> tok{"--str", "-s", "--sw", "-w", "--int", "-i", "--dbl", "-d", "--file", "-f", "--text", "-t", "a", "b", "ON", "OFF", "TRUE", "0", "1", "-2", "8", "1x", "006", "2.5", "7.75", "x.txt", "d.a/x", "x.txt.bak", "", "--st", "-x", "3.0"};
    int n = mc::choose(mc::bound(4, 5)); if (n == 0) return; vector<string> a; for (int i = 0; i < n; ++i) a.push_back(mc::pick(tok));
    Model m; auto p = toy(true, m); mc::state(mc::Hash().add(a)); mc::tr([&] { return "arguments" + line(a); }); mc::Attempt at = parse(*p, a); compare(*p, toy_flags(), interpret(toy_flags(), a, m, toy_ok), at, "arguments" + line(a));
  });
  mc::scenario("flag-value-sequences", "the same parser without defaults: every sequence of 1..3 (thorough 4) flags, long or short form, each with a value of its kind or alone (switch)", [] {
    static const vector<vector<string>> ops{{"--str", "a"}, {"-s", "ON"}, {"--sw"}, {"-w", "0"}, {"-w"}, {"--sw", "TRUE"}, {"-i", "-2"}, {"--int", "7"}, {"-d", "7.5"}, {"--dbl", "-1e3"}, {"-f", "p q/x.b.txt"}, {"--file", ".a"}, {"-t", "-s"}, {"--text", "--sw"}, {"-t", ""}};
    int n = 1 + mc::choose(mc::bound(3, 4)); vector<string> a; for (int i = 0; i < n; ++i) { auto& o = mc::pick(ops); a.insert(a.end(), o.begin(), o.end()); }
    Model m; auto p = toy(false, m); mc::state(mc::Hash().add(a)); mc::tr([&] { return "arguments" + line(a); }); mc::Attempt at = parse(*p, a); compare(*p, toy_flags(), interpret(toy_flags(), a, m, toy_ok), at, "arguments" + line(a));
  });
  mc::scenario("repeated-parses", "one parser parsing two argument lists in turn, each of one or two of the operations above or an invalid one: the second adds to the values of the first", [] {
    static const vector<vector<string>> ops{{"--str", "a"}, {"-s", "ON"}, {"--sw"}, {"-w", "0"}, {"-i", "-2"}, {"--int", "7"}, {"-d", "7.5"}, {"-f", "x.txt"}, {"-t", "word"}, {"-i", "9"}, {"-s", "c"}};
    Model m; auto p = toy(true, m); string what; mc::Hash h; vector<vector<string>> as; for (int k = 0; k < 2; ++k) { vector<string> a; int n = 1 + mc::choose(2); for (int i = 0; i < n; ++i) { auto& o = mc::pick(ops); a.insert(a.end(), o.begin(), o.end()); } as.push_back(a); }
    for (auto& a : as) { h.add(a); mc::state(h); what += " arguments" + line(a); mc::Attempt at = parse(*p, a); Model n = interpret(toy_flags(), a, m, toy_ok); compare(*p, toy_flags(), n, at, what); if (n.bad) return; m = n; }
    mc::tr([&] { return what; });
  });
  mc::scenario("tool-flags", "calc_J's own flags: every sequence of 1..2 (thorough 3) of its 14 value flags, long and short, with every kind of valid and invalid value, and the counterpoise switch in six spellings", [] {
    static const vector<vector<string>> ops = [] {
      vector<vector<string>> o; for (auto& f : tool_flags()) {
        vector<string> vs; if (f.k == SW) { for (const char* v : {"ON", "OFF", "1", "0", "TRUE", "FALSE", "yes", "on"}) o.push_back({f.abbr, v}); o.push_back({f.full}); o.push_back({f.abbr}); continue; }
        if (f.full.find("spin") != string::npos) vs = {"Alpha", "Beta", "alpha", "HOMO", ""}; else if (f.k == STR) vs = {"HOMO", "LUMO", "homo", "Alpha"}; else if (f.k == INT) vs = {"0", "-1", "12", "010", "-007", "0x10", "1.5", "1e1", "2x", "x", "-", "99999999999"}; else vs = {"/nonexistent/x.log", "x.pun", "/nonexistent/a.b/x", "y.txt", "z.7"};
        for (auto& v : vs) o.push_back({o.size() % 2 ? f.full : f.abbr, v}); o.push_back({f.full});
      } return o; }();
    int n = 1 + mc::choose(mc::bound(2, 3)); vector<string> a; for (int i = 0; i < n; ++i) { auto& o = mc::pick(ops); a.insert(a.end(), o.begin(), o.end()); }
    static const vector<Flag> fl = tool_flags(); mc::state(mc::Hash().add(a)); mc::tr([&] { return "arguments" + line(a); });
    auto p = prepareParser(); mc::Attempt at = parse(*p, a); Model m = interpret(fl, a, tool_defaults(), tool_ok); compare(*p, fl, m, at, "calc_J" + line(a));
  });
}

// ---------------------------------------------------------------- C15 ---
static void touch(const string& p) { put(p, "x\n"); }
struct Shape { string dir, stem1, stem2; };
static const vector<Shape>& shapes() { static vector<Shape> v{{"", "m", "n"}, {"./", "m", "n"}, {"d/", "m", "n"}, {"d.1/", "m", "n"}, {"d e/", "m f", "n g"}, {"d/../d/", "m.n", "m.o"}, {"", "m.log", "m.pun"}, {"d.pun/", "x.y.z", "x.y"}, {"ABS/d/", "m", "m1"}, {"", " m", "n "}}; return v; }
static vector<string>& created() { static vector<string> v; return v; }
static void clean_tree() {
  static pid_t made = 0; string d = scratch(); if (chdir(d.c_str())) mc::fail("harness", "chdir");
  for (auto& f : created()) unlink(f.c_str());
  created().clear();
  if (made != getpid()) { for (const char* x : {"d", "d.1", "d e", "d.pun"}) mkdir((d + "/" + x).c_str(), 0755); made = getpid(); }
}
struct Mol { int pun = 0, log = 0; bool same = true; int exist = 0; string pflag, lflag; };   // exist bits: pun-stem.pun, pun-stem.log, log-stem.pun, log-stem.log
static void mol_files(const Mol& m, const string& dir, const string& s1, const string& s2, Mol& o, string& wantp, string& wantl) {
  string b = m.same ? s1 : s2; string f[4] = {dir + s1 + ".pun", dir + s1 + ".log", dir + b + ".pun", dir + b + ".log"}; std::map<string, bool> on;
  for (int i = 0; i < 4; ++i) { if (m.same && i >= 2) break; if (m.exist >> i & 1) { touch(f[i]); created().push_back(f[i]); on[f[i]] = true; } }
  o = m; o.pflag = m.pun ? f[0] : ""; o.lflag = m.log ? f[3] : "";
  auto ex = [&](const string& x) { return on.count(x) > 0; };
  wantp = m.pun && ex(f[0]) ? f[0] : m.log && ex(f[2]) ? f[2] : ""; wantl = m.log && ex(f[3]) ? f[3] : m.pun && ex(f[1]) ? f[1] : "";
}
static void resolve(const vector<string>& args, const string wp[3], const string wl[3], const string& what) {
  std::unique_ptr<Parameters> par; auto p = prepareParser(); mc::Attempt at = parse(*p, args); if (at.ok()) at = mc::attempt([&] { par = prepareParameters(p); });
  bool good = true; for (int i = 0; i < 3; ++i) good = good && !wp[i].empty() && !wl[i].empty();
  for (auto& f : created()) unlink(f.c_str()); created().clear();
  mc::outcome(good ? "resolved" : "refused");
  if (!good) { mc::check(at.refused(), "accepted", [&] { return what + ": a needed file cannot be found, but preparing the parameters was " + at.str(); }); return; }
  mc::check(at.ok(), "refused", [&] { return what + " was " + at.str(); });
  string gp[3] = {par->getPunP(), par->getPun1(), par->getPun2()}, gl[3] = {par->getLogP(), par->getLog1(), par->getLog2()}; const char* nm[] = {"dimer", "monomer 1", "monomer 2"};
  for (int i = 0; i < 3; ++i) mc::check(gp[i] == wp[i] && gl[i] == wl[i], "file", [&] { return what + ": " + nm[i] + " uses '" + gp[i] + "' and '" + gl[i] + "', expected '" + wp[i] + "' and '" + wl[i] + "'"; });
}
static void mol_args(vector<string>& a, const Mol& o, int which, int form) {
  static const char* x[] = {"P", "1", "2"}; string pf = (form & 1 ? "-p_" : "--pun_") + string(x[which]), lf = (form & 1 ? "-l_" : "--log_") + string(x[which]);
  vector<string> p, l; if (!o.pflag.empty()) p = {pf, o.pflag}; if (!o.lflag.empty()) l = {lf, o.lflag}; if (form & 2) p.swap(l); a.insert(a.end(), p.begin(), p.end()); a.insert(a.end(), l.begin(), l.end());
}
static string abs_dir(string d) { return d.substr(0, 4) == "ABS/" ? scratch() + d.substr(3) : d; }
static void setup15() {
  mc::scenario("one-molecule", "one molecule in every state (pun flag given or not, log flag given or not, same or different stems, every subset of the four files existing), 10 path shapes, for each of dimer and monomers, short and long flags, either flag order; the others complete under other names", [] {
    clean_tree(); int which = mc::choose(3), sh = mc::choose((int)shapes().size()), form = mc::choose(4); Mol m; m.pun = mc::choose(2); m.log = mc::choose(2); m.same = mc::flip(); m.exist = mc::choose(m.same ? 4 : 16);
    const Shape& s = shapes()[sh]; string wp[3], wl[3]; vector<string> a;
    for (int i = 0; i < 3; ++i) { Mol o; if (i == which) mol_files(m, abs_dir(s.dir), s.stem1, s.stem2, o, wp[i], wl[i]); else { Mol g; g.pun = i != 2; g.log = i == 2; g.exist = 3; mol_files(g, "d/", "other" + to_string(i), "", o, wp[i], wl[i]); } mol_args(a, o, i, form); }
    mc::state(mc::Hash().add(which).add(sh).add(form).add(m.pun).add(m.log).add((int)m.same).add(m.exist)); string what = "arguments" + line(a) + ", files present " + line(created()); mc::tr([&] { return what; });
    resolve(a, wp, wl, what);
  });
  mc::scenario("three-molecules", "all three molecules in the same directory and stems sharing prefixes, each with flags pun / log / both and every subset of its two or four files (thorough: both stems), all combinations", [] {
    clean_tree(); string wp[3], wl[3]; vector<string> a; mc::Hash h;
    for (int i = 0; i < 3; ++i) { Mol m, o; int f = mc::choose(3); m.pun = f != 1; m.log = f != 0; m.exist = mc::choose(4); m.same = true; h.add(f).add(m.exist); if (mc::thorough() && f == 2) { m.same = mc::flip(); if (!m.same) m.exist |= mc::choose(4) << 2; h.add(m.exist); } mol_files(m, "d/", i == 0 ? "a.b" : i == 1 ? "a" : "a.b.c", i == 0 ? "z.b" : i == 1 ? "z" : "z.b.c", o, wp[i], wl[i]); mol_args(a, o, i, i); }
    mc::state(h); string what = "arguments" + line(a) + ", files present " + line(created()); mc::tr([&] { return what; }); resolve(a, wp, wl, what);
  });
  mc::scenario("shared-files", "two or three molecules naming the same files, or one molecule's pun with another's log, every assignment of three stems to the three pun and the three log flags (absent, stem a, b or c)", [] {
    clean_tree(); static const char* x[] = {"P", "1", "2"}; string wp[3], wl[3]; vector<string> a; int miss = mc::choose(3); mc::Hash h; h.add(miss);
    auto ex = [&](const string& f) { return !((miss == 1 && f == "d/b.log") || (miss == 2 && f == "d/b.pun")); };
    for (const char* s : {"a", "b", "c"}) for (const char* e : {".pun", ".log"}) { string f = string("d/") + s + e; if (ex(f)) { touch(f); created().push_back(f); } }
    for (int i = 0; i < 3; ++i) { int p = mc::choose(4), l = mc::choose(4); h.add(p).add(l); string ps = p ? string("d/") + (char)('a' + p - 1) : "", ls = l ? string("d/") + (char)('a' + l - 1) : "";
      if (p) { a.push_back(string("--pun_") + x[i]); a.push_back(ps + ".pun"); } if (l) { a.push_back(string("-l_") + x[i]); a.push_back(ls + ".log"); }
      wp[i] = p && ex(ps + ".pun") ? ps + ".pun" : l && ex(ls + ".pun") ? ls + ".pun" : ""; wl[i] = l && ex(ls + ".log") ? ls + ".log" : p && ex(ps + ".log") ? ps + ".log" : ""; }
    mc::state(h); if (a.empty()) { for (auto& f : created()) unlink(f.c_str()); created().clear(); return; } string what = "arguments" + line(a) + ", files present " + line(created()); mc::tr([&] { return what; }); resolve(a, wp, wl, what);
  });
  mc::scenario("repeated-flags", "the pun and log flags of one molecule given twice (files that exist, exist without sibling, or do not exist, 3x3 per flag, flag absent or once too), for each molecule: the last occurrence counts", [] {
    clean_tree(); int which = mc::choose(3); static const char* x[] = {"P", "1", "2"}; int seq[4]; for (int& s : seq) s = mc::choose(4); bool inter = mc::flip(); string wp[3], wl[3]; vector<string> a;
    // r: both files; s: only this one; t: none
    auto stem = [&](int k, bool pun) { return string("d/") + (k == 1 ? "r" : k == 2 ? (pun ? "sp" : "sl") : "t"); };
    for (const char* f : {"d/r.pun", "d/r.log", "d/sp.pun", "d/sl.log"}) { touch(f); created().push_back(f); }
    for (int i = 0; i < 3; ++i) { if (i == which) continue; Mol g, o; g.pun = 1; g.exist = 3; mol_files(g, "d/", "other" + to_string(i), "", o, wp[i], wl[i]); mol_args(a, o, i, 0); }
    vector<int> ord = inter ? vector<int>{0, 2, 1, 3} : vector<int>{0, 1, 2, 3}; int lastp = 0, lastl = 0;
    for (int k : ord) { bool pun = k < 2; if (!seq[k]) continue; a.push_back(string(pun ? (k ? "-p_" : "--pun_") : (k == 3 ? "-l_" : "--log_")) + x[which]); a.push_back(stem(seq[k], pun) + (pun ? ".pun" : ".log")); (pun ? lastp : lastl) = seq[k]; }
    auto ex = [&](const string& f) { return f == "d/r.pun" || f == "d/r.log" || f == "d/sp.pun" || f == "d/sl.log"; }; string ps = lastp ? stem(lastp, true) : "", ls = lastl ? stem(lastl, false) : "";
    wp[which] = lastp && ex(ps + ".pun") ? ps + ".pun" : lastl && ex(ls + ".pun") ? ls + ".pun" : ""; wl[which] = lastl && ex(ls + ".log") ? ls + ".log" : lastp && ex(ps + ".log") ? ps + ".log" : "";
    mc::state(mc::Hash().add(which).add(seq[0]).add(seq[1]).add(seq[2]).add(seq[3]).add((int)inter)); string what = "arguments" + line(a) + ", files present " + line(created()); mc::tr([&] { return what; }); resolve(a, wp, wl, what);
  });
}

// ---------------------------------------------------------------- C16 ---
static void setup16() {
  auto files = [] { static pid_t made = 0; string d = scratch(); if (made != getpid()) { for (const char* s : {"pair", "mon1", "mon2"}) for (const char* e : {".pun", ".log"}) touch(d + "/" + s + e); made = getpid(); } return file_args(d, 0); };
  struct Opt { const char* full; const char* abbr; vector<string> vals; };
  auto run = [](vector<string> a, const Pick& want, int cp, bool bad, const string& why) {
    string what = "arguments" + line(vector<string>(a.begin(), a.end())); std::unique_ptr<Parameters> par; auto p = prepareParser(); mc::Attempt at = parse(*p, a); if (at.ok()) at = mc::attempt([&] { par = prepareParameters(p); });
    mc::tr([&] { return what + " -> " + at.str(); }); mc::outcome(bad ? "refused" : "prepared");
    if (bad) { mc::check(at.refused(), "accepted", [&] { return what + ": " + why + ", but it was " + at.str(); }); return; }
    mc::check(at.ok(), "refused", [&] { return what + " was " + at.str(); });
    string got = par->getSpinP() + " " + par->getSpin1() + " " + par->getSpin2() + " " + par->getOrbType1() + to_string(par->getOrbNum1()) + " " + par->getOrbType2() + to_string(par->getOrbNum2()) + (par->getCounterPoise() ? " cp" : "");
    string exp = want.sP + " " + want.s1 + " " + want.s2 + " " + want.t1 + to_string(want.n1) + " " + want.t2 + to_string(want.n2) + (cp ? " cp" : "");
    mc::check(got == exp, "option", [&] { return what + ": prepared " + got + ", expected " + exp; });
  };
  mc::scenario("all-options", "the full product: three spins (not given, Alpha, Beta), two orbital kinds (not given, HOMO, LUMO), two offsets (not given, -3, -1, 0, 1, 3; thorough -12..12 extremes too), counterpoise not given or in three spellings, forward and reversed flag order", [=] {
    static const vector<string> sp{"", "Alpha", "Beta"}, ty{"", "HOMO", "LUMO"}, cps{"", "-cp", "-cp ON", "--counter_poise 0"}; vector<string> nums{"", "-1", "0", "1", "-3", "3"}; if (mc::thorough()) { nums.push_back("-12"); nums.push_back("12"); nums.push_back("+2"); }
    string v[7]; for (int i = 0; i < 3; ++i) v[i] = mc::pick(sp); v[3] = mc::pick(ty); v[4] = mc::pick(ty); v[5] = mc::pick(nums); v[6] = mc::pick(nums); string cp = mc::pick(cps); bool rev = mc::flip();
    static const char* full[] = {"--spin_P", "--spin_1", "--spin_2", "--orbital_type_1", "--orbital_type_2", "--orbital_num_1", "--orbital_num_2"}; static const char* abbr[] = {"-s_P", "-s_1", "-s_2", "-orb_ty_1", "-orb_ty_2", "-orb_num_1", "-orb_num_2"};
    vector<vector<string>> g; for (int i = 0; i < 7; ++i) if (!v[i].empty()) g.push_back({(i + (int)rev) % 2 ? full[i] : abbr[i], v[i]}); if (!cp.empty()) { size_t q = cp.find(' '); if (q == string::npos) g.push_back({cp}); else g.push_back({cp.substr(0, q), cp.substr(q + 1)}); }
    if (rev) std::reverse(g.begin(), g.end()); vector<string> a; auto f = files(); if (!rev) a = f; for (auto& x : g) a.insert(a.end(), x.begin(), x.end()); if (rev) a.insert(a.end(), f.begin(), f.end());
    Pick w; if (!v[0].empty()) w.sP = v[0]; if (!v[1].empty()) w.s1 = v[1]; if (!v[2].empty()) w.s2 = v[2]; if (!v[3].empty()) w.t1 = v[3]; if (!v[4].empty()) w.t2 = v[4]; if (!v[5].empty()) w.n1 = atoi(v[5].c_str()); if (!v[6].empty()) w.n2 = atoi(v[6].c_str());
    bool bad = (w.t1 == "HOMO" ? w.n1 > 0 : w.n1 < 0) || (w.t2 == "HOMO" ? w.n2 > 0 : w.n2 < 0);
    mc::Hash h; for (auto& x : v) h.add(x); mc::state(h.add(cp).add((int)rev)); run(a, w, cp == "-cp" || cp == "-cp ON", bad, "an offset has the wrong sign");
  });
  mc::scenario("offsets", "one or both offsets of 24 magnitudes up to 2^31-1 around powers of two and ten, of either sign (refused when it does not suit the orbital kind), both kinds", [=] {
    static const vector<int> ns{1, 2, 7, 8, 9, 10, 99, 100, 126, 127, 128, 129, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 99999, 100000, 1000000000, 2147483647}; Pick w; int which = 1 + mc::choose(3); string t[2] = {mc::flip() ? "LUMO" : "HOMO", mc::flip() ? "LUMO" : "HOMO"}; int n = mc::pick(ns), m = which == 3 ? mc::pick(ns) : 0;
    w.t1 = t[0]; w.t2 = t[1]; w.n1 = which & 1 ? n : 0; w.n2 = which == 3 ? m : which & 2 ? n : 0; bool wrong = mc::flip(); if ((w.t1 == "HOMO") != wrong) w.n1 = -w.n1; if ((w.t2 == "HOMO") != (wrong && !(which == 3 && n == 8))) w.n2 = -w.n2; auto a = files(); pick_args(a, w, false, true); mc::state(mc::Hash().add(w.n1).add(w.n2).add(w.t1).add(w.t2)); run(a, w, 0, wrong, "an offset has the wrong sign");
  });
  mc::scenario("bad-values", "each option with each of 9 values outside the documented ones, in long and short form, alone and after a valid occurrence", [=] {
    static const vector<std::pair<string, string>> fl{{"--spin_P", "-s_P"}, {"--spin_1", "-s_1"}, {"--spin_2", "-s_2"}, {"--orbital_type_1", "-orb_ty_1"}, {"--orbital_type_2", "-orb_ty_2"}, {"--orbital_num_1", "-orb_num_1"}, {"--orbital_num_2", "-orb_num_2"}, {"--counter_poise", "-cp"}}; static const vector<string> vals{"alpha", "BETA", "homo", "HOMO-1", "", "0x1", "1.5", "- 1", "yes"};
    int k = mc::choose((int)fl.size()); bool ab = mc::flip(), after = mc::flip(); string v = mc::pick(vals); auto a = files(); if (after) { a.push_back(fl[k].first); a.push_back(k < 3 ? "Beta" : k < 5 ? "LUMO" : k < 7 ? "0" : "ON"); } a.push_back(ab ? fl[k].second : fl[k].first); a.push_back(v);
    mc::state(mc::Hash().add(k).add((int)ab).add((int)after).add(v)); run(a, Pick(), 0, true, "'" + v + "' is not allowed");
  });
  mc::scenario("overrides", "every pair of values for the same option given one after the other, for every option and pair of options: the last counts and the other molecules keep theirs", [=] {
    static const vector<vector<string>> ops{{"-s_P", "Alpha"}, {"-s_P", "Beta"}, {"-s_1", "Alpha"}, {"-s_1", "Beta"}, {"--spin_2", "Alpha"}, {"-s_2", "Beta"}, {"-orb_ty_1", "HOMO"}, {"--orbital_type_1", "LUMO"}, {"-orb_ty_2", "HOMO"}, {"-orb_ty_2", "LUMO"}, {"-orb_num_1", "0"}, {"-orb_num_1", "2"}, {"--orbital_num_1", "-2"}, {"-orb_num_2", "0"}, {"-orb_num_2", "3"}, {"-orb_num_2", "-1"}, {"-cp"}, {"-cp", "OFF"}, {"-cp", "ON"}, {"--counter_poise", "FALSE"}};
    int n = mc::bound(3, 4); auto a = files(); Pick w; int cp = 0; mc::Hash h;
    for (int i = 0; i < n; ++i) { int k = mc::choose((int)ops.size()); h.add(k); auto& o = ops[k]; a.insert(a.end(), o.begin(), o.end()); string f = o[0]; if (f == "-s_P") w.sP = o[1]; if (f == "-s_1") w.s1 = o[1]; if (f == "-s_2" || f == "--spin_2") w.s2 = o[1]; if (f == "-orb_ty_1" || f == "--orbital_type_1") w.t1 = o[1]; if (f == "-orb_ty_2") w.t2 = o[1]; if (f == "-orb_num_1" || f == "--orbital_num_1") w.n1 = atoi(o[1].c_str()); if (f == "-orb_num_2") w.n2 = atoi(o[1].c_str()); if (f == "-cp" || f == "--counter_poise") cp = o.size() == 1 || o[1] == "ON"; }
    bool bad = (w.t1 == "HOMO" ? w.n1 > 0 : w.n1 < 0) || (w.t2 == "HOMO" ? w.n2 > 0 : w.n2 < 0); mc::state(h); run(a, w, cp, bad, "an offset has the wrong sign");
  });
}

// ---------------------------------------------------------------- C17 ---
static const vector<string>& tool_names() { static vector<string> v{"--help", "-h", "--citation", "-cite", "--version", "-v", "--counter_poise", "-cp", "--pun_P", "-p_P", "--pun_1", "-p_1", "--pun_2", "-p_2", "--log_P", "-l_P", "--log_1", "-l_1", "--log_2", "-l_2", "--spin_P", "-s_P", "--spin_1", "-s_1", "--spin_2", "-s_2", "--orbital_type_1", "-orb_ty_1", "--orbital_type_2", "-orb_ty_2", "--orbital_num_1", "-orb_num_1", "--orbital_num_2", "-orb_num_2"}; return v; }
static void check_info(const Run& r, const vector<string>& info, const string& what) {
  bool help = false, cite = false; for (auto& x : info) { if (x == "-h" || x == "--help") help = true; if (x == "-cite" || x == "--citation") cite = true; if (x == "-v" || x == "--version") break; }
  auto w = words(r.out); auto in = [&](const string& x) { return std::find(w.begin(), w.end(), x) != w.end(); };
  mc::check(in("VERSION"), "version", [&] { return what + ": no version is printed\n" + r.out.substr(0, 600); });
  { auto it = std::find(w.begin(), w.end(), "VERSION"); mc::check(it + 1 < w.end() && isdigit((unsigned char)(it + 1)->at(0)), "version", [&] { return what + ": no version number is printed"; }); }
  if (help) for (auto& n : tool_names()) mc::check(in(n), "help", [&] { return what + ": help does not list " + n + "\n" + r.out; });
  if (help) { // every flag is followed by its description
    const auto& n = tool_names(); for (size_t i = 0; i + 1 < n.size(); i += 2) { bool ok = false; for (size_t k = 0; k + 2 < w.size(); ++k) if (w[k] == n[i] && w[k + 1] == n[i + 1] && w[k + 2][0] != '-') ok = true; mc::check(ok, "help", [&] { return what + ": help has no line for " + n[i] + " " + n[i + 1]; }); } }
  if (cite) mc::check(in("Citation:") && has(r.out, "CATNIP"), "citation", [&] { return what + ": the citation is not printed\n" + r.out.substr(0, 600); });
}
static void setup17() {
  mc::scenario("alone", "every sequence of 1..4 (thorough 6) informational flags (long and short help, citation, version), and every sequence of up to 2 repeated in turn to 5..16 flags", [] {
    static const vector<string> f{"-h", "--help", "-cite", "--citation", "-v", "--version"}; bool rep = mc::flip(); int n = 1 + mc::choose(rep ? 2 : mc::bound(4, 6)); vector<string> a; for (int i = 0; i < n; ++i) a.push_back(mc::pick(f)); if (rep) { int m = 5 + mc::choose(12); for (int i = n; i < m; ++i) a.push_back(a[i - n]); }
    mc::state(mc::Hash().add(a)); string what = "arguments" + line(a); mc::tr([&] { return what; }); Run r = calcj(a); mc::check(r.success(), "failed", [&] { return what + " ended with " + r.str(); }); check_info(r, a, what); mc::check(!any_result(r.out), "result", [&] { return what + " printed a coupling"; });
  });
  mc::scenario("with-a-calculation", "a complete valid command line with one or two informational flags at every position between its arguments, counterpoise switch on or absent: help and citation leave the result unchanged, a version request ends the run successfully", [] {
    static const vector<string> f{"-h", "--help", "-cite", "--citation", "-v", "--version"}; bool cp = mc::flip(); vector<string> info; int n = 1 + mc::choose(2); static pid_t made = 0; string d = scratch();
    static const World w[2] = {world({2, 1, 3}, 1, false, false), world({2, 1, 3}, 1, true, false)};
    if (made != getpid()) { for (int c = 0; c < 2; ++c) { string s = d + (c ? "/c" : "/n"); mkdir(s.c_str(), 0755); put_calc(s + "/pair", reordered(w[c].P, {1, 2, 0})); put_calc(s + "/mon1", w[c].m1); put_calc(s + "/mon2", w[c].m2); } made = getpid(); }
    vector<vector<string>> g; { auto fa = file_args(d + (cp ? "/c" : "/n"), 0); for (size_t i = 0; i < fa.size(); i += 2) g.push_back({fa[i], fa[i + 1]}); } g.push_back({"-orb_ty_2", "LUMO"}); if (cp) g.insert(g.begin() + 1, vector<string>{"-cp"});
    vector<int> at; for (int i = 0; i < n; ++i) { info.push_back(mc::pick(f)); at.push_back(mc::choose((int)g.size() + 1)); }
    vector<string> a; vector<string> seq; for (size_t i = 0; i <= g.size(); ++i) { for (int k = 0; k < n; ++k) if (at[k] == (int)i) { a.push_back(info[k]); seq.push_back(info[k]); } if (i < g.size()) a.insert(a.end(), g[i].begin(), g[i].end()); }
    mc::state(mc::Hash().add(a)); string what = "arguments" + line(a); mc::tr([&] { return what; }); Run r = calcj(a); bool ver = false; for (auto& x : seq) if (x == "-v" || x == "--version") ver = true;
    check_info(r, seq, what); if (ver) { mc::check(r.success(), "failed", [&] { return what + " ended with " + r.str(); }); return; } Pick p; p.t2 = "LUMO"; expect(r, w[cp], p, what);
  });
  mc::scenario("descriptions", "parsers with 1..3 flags whose names have lengths 4..20 and whose descriptions have 1..40 words of lengths 1..15 (every combination of five word counts, four word lengths and three name lengths): help lists each with its complete description", [] {
    int n = 1 + mc::choose(3); std::set<vector<string>> s; vector<vector<string>> fl; static const vector<int> wc{1, 2, 9, 17, 40}, wl{1, 5, 9, 15}, nl{1, 8, 17}; mc::Hash h;
    for (int i = 0; i < n; ++i) { int a = i == 2 ? 2 : mc::pick(wc), b = i == 2 ? 5 : mc::pick(wl), c = mc::pick(nl); h.add(a).add(b).add(c); string d; for (int k = 0; k < a; ++k) { string w; for (int j = 0; j < 1 + (b + k) % (b + 1) + b / 2; ++j) w += (char)('a' + (k * 7 + j + i) % 26); d += (k ? " " : "") + w; } string nm = string(1, (char)('p' + i)) + string(c, 'x'); fl.push_back({"--" + nm, "-" + string(1, (char)('p' + i)) + string(c / 2 + (c == 17 ? 5 : 0), 'y'), d}); s.insert(fl.back()); }
    mc::state(h); ArgumentParser p(s); for (auto& f : fl) p.addFlagArg(f[0], "ARGUMENT_STRING"); string out; { mc::CaptureCout cap; mc::Attempt a = mc::attempt([&] { p.showUsage(); }); out = cap.str(); mc::check(a.ok(), "failed", [&] { return "showUsage was " + a.str(); }); } mc::step(); mc::tr([&] { return out.substr(0, 300); });
    auto w = words(out); for (auto& f : fl) { auto d = words(f[2]); d.insert(d.begin(), f[1]); d.insert(d.begin(), f[0]); mc::check(std::search(w.begin(), w.end(), d.begin(), d.end()) != w.end(), "help", [&] { return "help does not list " + f[0] + " " + f[1] + " " + f[2] + " completely:\n" + out; }); }
  });
  mc::scenario("long-parts", "parsers with one or two flags, names of 1..120 letters in eight steps, descriptions of 1..4 words, one of them of 1..600 letters in eleven steps at any place: help ends and lists each completely", [] {
    static const vector<int> nl{1, 12, 25, 40, 60, 79, 90, 120}, wl{1, 20, 40, 60, 70, 79, 80, 81, 100, 300, 600}; int n = 1 + mc::choose(2), c = mc::pick(nl), m = 1 + mc::choose(4), at = mc::choose(m), L = mc::pick(wl); mc::state(mc::Hash().add(n).add(c).add(m).add(at).add(L)); std::set<vector<string>> s; vector<vector<string>> fl;
    for (int i = 0; i < n; ++i) { string nm = string(1, (char)('p' + i)) + string(i ? 3 : c, 'x'), d; for (int k = 0; k < m; ++k) d += (k ? " " : "") + (k == at ? string(L, (char)('a' + i)) : "word" + to_string(k)); fl.push_back({"--" + nm, "-" + nm.substr(0, 1 + c / 3), d}); s.insert(fl.back()); }
    mc::tr([&] { return fl[0][0] + " " + fl[0][2]; }); ArgumentParser p(s); for (auto& f : fl) p.addFlagArg(f[0], "ARGUMENT_STRING"); string out; { mc::CaptureCout cap; mc::Attempt a = mc::attempt([&] { p.showUsage(); }); out = cap.str(); mc::check(a.ok(), "failed", [&] { return "showUsage was " + a.str(); }); } mc::step();
    auto w = words(out); for (auto& f : fl) { auto d = words(f[2]); d.insert(d.begin(), f[1]); d.insert(d.begin(), f[0]); mc::check(std::search(w.begin(), w.end(), d.begin(), d.end()) != w.end(), "help", [&] { return "help does not list " + f[0] + " " + f[1] + " " + f[2] + " completely:\n" + out.substr(0, 3000); }); }
  });
  mc::scenario("optional-parts", "parsers with 1..3 flags, each with or without a short form and with or without a description, in every combination and with names of three lengths: help ends and lists each with what it has", [] {
    int n = 1 + mc::choose(3); std::set<vector<string>> s; vector<vector<string>> fl; mc::Hash h;
    for (int i = 0; i < n; ++i) { static const vector<int> nl{1, 9, 30}; bool sh = mc::flip(), de = mc::flip(); int c = mc::pick(nl); h.add((int)sh).add((int)de).add(c); string nm = string(1, (char)('p' + i)) + string(c, 'x'); vector<string> f{"--" + nm, sh ? "-" + nm.substr(0, 1 + c / 4) : "", de ? "chooses the " + nm + " of the calculation" : ""}; fl.push_back(f); vector<string> g; for (auto& x : f) if (!x.empty()) g.push_back(x); s.insert(g); }
    mc::state(h); mc::tr([&] { string r; for (auto& f : fl) r += "flag '" + f[0] + "' short '" + f[1] + "' description '" + f[2] + "'\n"; return r; });
    ArgumentParser p(s); for (auto& f : fl) p.addFlagArg(f[0], "ARGUMENT_STRING"); string out; { mc::CaptureCout cap; mc::Attempt a = mc::attempt([&] { p.showUsage(); }); out = cap.str(); mc::check(a.ok(), "failed", [&] { return "showUsage was " + a.str(); }); } mc::step();
    auto w = words(out); fl.push_back({"--help", "-h", "Display help message"});
    for (auto& f : fl) { auto it = std::find(w.begin(), w.end(), f[0]); auto end = it == w.end() ? it : std::find_if(it + 1, w.end(), [&](const string& x) { for (auto& g : fl) if (x == g[0]) return true; return false; }); auto d = words(f[2]);
      mc::check(it != w.end() && (f[1].empty() || std::find(it, end, f[1]) != end) && (d.empty() || std::search(it, end, d.begin(), d.end()) != end), "help", [&] { return "help does not list " + f[0] + " " + f[1] + " " + f[2] + " completely:\n" + out.substr(0, 3000); }); }
    vector<string> a; for (int i = 0; i < n; ++i) { a.push_back(fl[i][0]); a.push_back("value" + std::to_string(i)); } vector<const char*> av{"tool"}; for (auto& x : a) av.push_back(x.c_str());
    mc::Attempt at = mc::attempt([&] { p.parse(av.data(), (int)av.size()); for (int i = 0; i < n; ++i) mc::check(p.getStr(fl[i][0]) == a[2 * i + 1], "value", [&] { return "the value of " + fl[i][0] + " is not the one given"; }); }); mc::check(at.ok(), "failed", [&] { return "parsing" + line(a) + " was " + at.str(); }); mc::step();
  });
}

// ---------------------------------------------------------------- C26 ---
struct Setup26 { World w; Calc f[3]; string log[3], pun[3]; bool has_log[3] = {true, true, true}, has_pun[3] = {true, true, true}; vector<string> args; Pick p; bool cp = false; bool must_fail = false, may = false, own_args = false; string names; };
struct Fault { string name; int must; std::function<void(Setup26&)> f; };   // must: 1 has to fail, 0 harmless, 2 either way (but never half a result), 3 has to fail where the atoms are compared at all (all files list populations), 4 has to fail on its own, but may be made good by another
static string without(const string& s, const string& from, const string& to) { size_t a = s.find(from); if (a == string::npos) return s; size_t b = s.find(to, a + from.size()); return s.substr(0, a) + (b == string::npos ? "" : s.substr(b)); }
static string all_replaced(string s, const string& a, const string& b) { for (size_t p = 0; (p = s.find(a, p)) != string::npos; p += b.size()) s.replace(p, a.size(), b); return s; }
static const char* mol_name(int i) { return i == 0 ? "dimer" : i == 1 ? "monomer 1" : "monomer 2"; }
static vector<Fault>& faults() {
  static vector<Fault> v; if (!v.empty()) return v;
  for (int i = 0; i < 3; ++i) {
    string m = mol_name(i);
    v.push_back({m + " log missing", 1, [i](Setup26& s) { s.has_log[i] = false; }});
    v.push_back({m + " pun missing", 1, [i](Setup26& s) { s.has_pun[i] = false; }});
    v.push_back({m + " log empty", 1, [i](Setup26& s) { s.log[i] = ""; }});
    v.push_back({m + " pun empty", 1, [i](Setup26& s) { s.pun[i] = ""; }});
    v.push_back({m + " log has no energies", 1, [i](Setup26& s) { s.log[i] = all_replaced(s.log[i], "eigenvalues --", "eigenvalues=="); }});
    for (int more : {1, 0, 2}) v.push_back({m + string(more == 1 ? " log lists one energy more than there are orbitals" : more == 0 ? " log lists one energy fewer than there are orbitals" : " pun has one orbital more than the log lists energies"), i == 0 ? 4 : 2, [i, more](Setup26& s) { Calc c = s.f[i]; auto& q = c.spin.at("Alpha"); if (more == 1) q.E.push_back(9.5); if (more == 0) { q.E.pop_back(); if (q.homo > (int)q.E.size()) --q.homo; } if (more == 2) { if (s.pun[i] != pun_text(s.f[i])) return; q.C.push_back(q.C[0]); s.pun[i] = pun_text(c); return; } s.log[i] = all_replaced(s.log[i], energy_text(s.f[i]), energy_text(c)); }});
    v.push_back({m + " log has no geometry", 3, [i](Setup26& s) { s.log[i] = all_replaced(s.log[i], "Center     Atomic", "Centre     Atomic"); }});
    v.push_back({m + " log has no populations", 2, [i](Setup26& s) { s.log[i] = all_replaced(s.log[i], "Gross orbital populations", "Gross orbitals"); }});
    v.push_back({m + " log has no overlap", i == 0 ? 1 : 0, [i](Setup26& s) { s.log[i] = all_replaced(s.log[i], "*** Overlap ***", "*** Overlay ***"); }});
    v.push_back({m + " log cut in half", 2, [i](Setup26& s) { s.log[i] = s.log[i].substr(0, s.log[i].size() / 2); }});
    v.push_back({m + " pun cut in half", 2, [i](Setup26& s) { s.pun[i] = s.pun[i].substr(0, s.pun[i].size() / 2); }});
    v.push_back({m + " pun without its last orbital", 2, [i](Setup26& s) { size_t q = s.pun[i].rfind("MO OE="); if (q == string::npos) return; q = s.pun[i].rfind('\n', q); s.pun[i] = s.pun[i].substr(0, q + 1); }});
    v.push_back({m + " pun with one function too many", 1, [i](Setup26& s) { Calc c = s.f[i]; for (auto& x : c.spin) for (auto& r : x.second.C) r.push_back(.01); s.pun[i] = pun_text(c); }});
    v.push_back({m + " pun with one function too few", 1, [i](Setup26& s) { Calc c = s.f[i]; for (auto& x : c.spin) for (auto& r : x.second.C) r.pop_back(); s.pun[i] = pun_text(c); }});
    v.push_back({m + " has an atom elsewhere", 3, [i](Setup26& s) { Calc c = s.f[i]; c.at[0].x += .25; s.log[i] = all_replaced(s.log[i], section(s.f[i], GEO), section(c, GEO)); }});
    v.push_back({m + " lists an atom twice", 3, [i](Setup26& s) { Calc c = s.f[i]; c.at.push_back(c.at[0]); s.log[i] = all_replaced(s.log[i], section(s.f[i], GEO), section(c, GEO)); }});
    v.push_back({m + " lacks an atom in its geometry", 3, [i](Setup26& s) { Calc c = s.f[i]; c.at.pop_back(); if (c.at.empty()) c.at.push_back(site(9, 1)); s.log[i] = all_replaced(s.log[i], section(s.f[i], GEO), section(c, GEO)); }});
    v.push_back({m + " with other output in between", 0, [i](Setup26& s) { s.log[i] = preamble() + decoy(0) + decoy(1) + decoy(4) + s.log[i] + decoy(3) + decoy(2); }});
    v.push_back({m + " pun with words in place of numbers", 1, [i](Setup26& s) { size_t q = s.pun[i].find("MO OE="); if (q == string::npos || s.pun[i].find('\n', q) + 8 > s.pun[i].size()) return; q = s.pun[i].find('\n', q); s.pun[i].replace(q + 2, 6, "******"); }});
    v.push_back({m + " log is another molecule's", 3, [i](Setup26& s) { s.log[i] = log_text(world({3, 3, 2, 2}, 2, false, false, 90, 4, 4, 4).P); }});
    v.push_back({m + " spin Beta requested from a restricted calculation", 1, [i](Setup26& s) { (i == 0 ? s.p.sP : i == 1 ? s.p.s1 : s.p.s2) = "Beta"; }});
    v.push_back({m + " log is not text", 1, [i](Setup26& s) { string g; for (int k = 0; k < 400; ++k) g += (char)((k * 37 + 11) % 256); s.log[i] = g; }});
    v.push_back({m + " pun is not text", 1, [i](Setup26& s) { string g; for (int k = 0; k < 400; ++k) g += (char)((k * 37 + 11) % 256); s.pun[i] = g; }});
    if (i) { v.push_back({m + " orbital HOMO-9 requested", 0, [i](Setup26& s) { (i == 1 ? s.p.t1 : s.p.t2) = "HOMO"; (i == 1 ? s.p.n1 : s.p.n2) = -9; }}); v.push_back({m + " orbital LUMO+9 requested", 0, [i](Setup26& s) { (i == 1 ? s.p.t1 : s.p.t2) = "LUMO"; (i == 1 ? s.p.n1 : s.p.n2) = 9; }}); for (bool hi : {false, true}) v.push_back({m + (hi ? " highest" : " lowest") + string(" orbital requested"), 0, [i, hi](Setup26& s) { const Spin& q = (i == 1 ? s.w.m1 : s.w.m2).spin.at("Alpha"); (i == 1 ? s.p.t1 : s.p.t2) = hi ? "LUMO" : "HOMO"; (i == 1 ? s.p.n1 : s.p.n2) = hi ? (int)q.E.size() - q.homo - 1 : 1 - q.homo; }}); v.push_back({m + " next orbital requested", 0, [i](Setup26& s) { (i == 1 ? s.p.t1 : s.p.t2) = "HOMO"; (i == 1 ? s.p.n1 : s.p.n2) = -1; }}); }
  }
  v.push_back({"no arguments for monomer 2", 1, [](Setup26& s) { s.args.resize(4); }});
  v.push_back({"counterpoise requested for ordinary monomers", 1, [](Setup26& s) { s.cp = true; }});
  v.push_back({"an unknown flag", 1, [](Setup26& s) { s.args.push_back("--orbital"); }});
  v.push_back({"a flag without value", 1, [](Setup26& s) { s.args.insert(s.args.begin(), {"-s_1"}); }});
  v.push_back({"a file that is a directory", 1, [](Setup26& s) { s.args[1] = scratch() + "/dir.pun"; }});
  return v;
}
static void run26(const vector<int>& ks, bool cpw) {
  Setup26 s; s.w = world({2, 1, 3}, 1, cpw, false, 0, 3, 6, 7); vector<int> perm{2, 0, 1}; s.f[0] = reordered(s.w.P, perm); s.f[1] = s.w.m1; s.f[2] = cpw ? reordered(s.w.m2, {1, 0, 2}) : s.w.m2; string d = scratch();
  for (int i = 0; i < 3; ++i) { s.log[i] = log_text(s.f[i]); s.pun[i] = pun_text(s.f[i]); } s.args = file_args(d, 0); s.cp = cpw; string what = cpw ? "counterpoise: " : "";
  mkdir((d + "/dir.pun").c_str(), 0755); bool geo = false;
  for (int k : ks) { auto& f = faults()[k]; what += (what.empty() || what == "counterpoise: " ? "" : " + ") + f.name; f.f(s); if (f.must == 1) s.must_fail = true; if (f.must == 2) s.may = true; if (f.must == 3) geo = true; if (f.must == 4) (ks.size() == 1 ? s.must_fail : s.may) = true; }
  if (geo) { bool compared = true; for (int i = 0; i < 3; ++i) compared = compared && has(s.log[i], "Gross orbital populations"); (compared ? s.must_fail : s.may) = true; }
  if (cpw) for (int k : ks) if (faults()[k].name.find("counterpoise requested") == 0) return;
  if (!selectable(s.w.m1, "Alpha", s.p.t1, s.p.n1) || !selectable(s.w.m2, "Alpha", s.p.t2, s.p.n2)) s.must_fail = true;
  static const char* stem[] = {"/pair", "/mon1", "/mon2"}; for (int i = 0; i < 3; ++i) { string l = d + stem[i] + ".log", p = d + stem[i] + ".pun"; if (s.has_log[i]) put(l, s.log[i]); else unlink(l.c_str()); if (s.has_pun[i]) put(p, s.pun[i]); else unlink(p.c_str()); }
  vector<string> a = s.args; pick_args(a, s.p, s.cp, false); mc::tr([&] { return what + ":" + line(a); }); Run r = calcj(a);
  int n[5], k = 0; for (const char* l : {"J_ab", "e_a", "e_b", "S_ab", "J_eff"}) n[k++] = result_lines(r.out, l);
  bool all = true; for (int x : n) all = all && x == 1;
  mc::check(r.success() ? all : n[4] == 0, "half a result", [&] { return what + ": ended with " + r.str() + " and printed\n" + r.out; });
  mc::check(!(s.must_fail && r.success()), "not reported", [&] { return what + ": ended with success\n" + r.out; });
  mc::check(s.must_fail || s.may || r.success(), "failed", [&] { return what + ": ended with " + r.str(); });
  if (!s.must_fail && !s.may) expect(r, s.w, s.p, what);
  mc::outcome(r.success() ? "computed" : "reported");
}
static void setup26() {
  mc::scenario("single-faults", "every single fault of the menu (90 faults of the six files and the command line), ordinary and counterpoise calculation", [] { bool cp = mc::flip(); int k = mc::choose((int)faults().size()); mc::state(mc::Hash().add(k).add((int)cp)); run26({k}, cp); });
  mc::scenario("fault-pairs", "every ordered pair of faults of the menu, ordinary calculation (thorough: every pair in counterpoise and every triple of the harmless and either-way ones too)", [] { int n = (int)faults().size(), a = mc::choose(n), b = mc::choose(n); bool cp = mc::thorough() && mc::flip(); if (a == b) return; mc::state(mc::Hash().add(a).add(b).add((int)cp)); run26({a, b}, cp); });
  mc::scenario("cut-anywhere", "each of the six files of a small calculation cut at EVERY third byte (thorough: every byte): a complete result or a reported failure, and a result only with the right values when the cut loses nothing that is needed", [] {
    World w = world({2, 1}, 1, false, false); Calc P = reordered(w.P, {1, 0}); string d = scratch(); int f = mc::choose(6); const Calc& c = f / 2 == 0 ? P : f / 2 == 1 ? w.m1 : w.m2; string full = f % 2 ? pun_text(c) : log_text(c); int st = mc::bound(3, 1); int cut = mc::choose((int)full.size() / st) * st;
    mc::state(mc::Hash().add(f).add(cut)); static const char* stem[] = {"/pair", "/mon1", "/mon2"}; put_calc(d + "/pair", P); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", w.m2); put(d + stem[f / 2] + (f % 2 ? ".pun" : ".log"), full.substr(0, cut));
    Run r = calcj(file_args(d, 1)); string what = string(mol_name(f / 2)) + (f % 2 ? " pun" : " log") + " cut at byte " + to_string(cut) + " of " + to_string(full.size()); mc::tr([&] { return what + " -> " + r.str(); }); int k = 0, n[5]; bool all = true; for (const char* l : {"J_ab", "e_a", "e_b", "S_ab", "J_eff"}) { n[k] = result_lines(r.out, l); all = all && n[k] == 1; ++k; }
    mc::check(r.success() ? all : n[4] == 0, "half a result", [&] { return what + ": ended with " + r.str() + " and printed\n" + r.out; });
    // a result is only given when the whole tables that are used are there: the populations come last in a log
    if (r.success()) { size_t pop = f % 2 ? string::npos : full.find("Gross orbital"); bool aligned = f % 2 || (size_t)cut > full.find("Condensed"); if (aligned) expect(r, w, Pick(), what); else mc::check((size_t)cut <= pop + 40 && cut > (int)full.find("eigenvalues"), "not reported", [&] { return what + ": a result was printed\n" + r.out; }); }
    mc::outcome(r.success() ? "computed" : "reported");
  });
}

static void setup() {
#if PROP == 5
  setup05();
#elif PROP == 14
  setup14();
#elif PROP == 15
  setup15();
#elif PROP == 16
  setup16();
#elif PROP == 17
  setup17();
#elif PROP == 26
  setup26();
#endif
}
MC_MAIN(setup)
