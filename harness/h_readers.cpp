// C08-C13, C27: the Gaussian log and pun readers on generated files.
#include "mc.hpp"
#include "gauss.hpp"
#include "matrix.hpp"
#include "file_readers/logreader.hpp"
#include "file_readers/punreader.hpp"
#include <memory>
#include <numeric>
using namespace catnip; using namespace gauss;

static string show(const vector<double>& v) { std::ostringstream o; o.precision(10); o << "("; for (double x : v) o << " " << x; o << " )"; return o.str(); }
static string show(const vector<int>& v) { std::ostringstream o; o << "("; for (int x : v) o << " " << x; o << " )"; return o.str(); }
static string tail(const string& s, size_t n = 700) { return s.size() <= n ? s : s.substr(0, n) + "..."; }
static string logfile() { return scratch() + "/m.log"; }
static string punfile() { return scratch() + "/m.pun"; }

static std::unique_ptr<LogReader> read_log(const string& text, mc::Attempt& a, const string& path = "") {
  string p = path.empty() ? logfile() : path; put(p, text);
  std::unique_ptr<LogReader> r; a = mc::attempt([&] { r.reset(new LogReader(p)); r->read(); }); mc::step(); return r;
}
static std::unique_ptr<PunReader> read_pun(const string& text, mc::Attempt& a, const string& path = "") {
  string p = path.empty() ? punfile() : path; put(p, text);
  std::unique_ptr<PunReader> r; a = mc::attempt([&] { r.reset(new PunReader(p)); r->read(); }); mc::step(); return r;
}

// ------------------------------------------------------------- energies ---
struct Listing { bool listed = false; vector<double> occ, virt; };
static void check_energies(LogReader& r, const string& spin, const Listing& l, const string& text) {
  vector<double> oe; int homo = -1; mc::Attempt a = mc::attempt([&] { oe = r.getOE(spin); }), b = mc::attempt([&] { homo = r.getHOMOLevel(spin); });
  if (!l.listed || l.occ.size() + l.virt.size() == 0) {
    mc::check(a.refused() && b.refused(), "absent spin", [&] { return "energies of " + spin + " are not in the file, but getOE was " + a.str() + " and getHOMOLevel " + b.str() + "\n" + tail(text); }); return;
  }
  mc::check(a.ok() && b.ok(), "refused", [&] { return "energies of " + spin + ": " + a.str() + b.str() + "\n" + tail(text); });
  vector<double> w; for (double x : l.occ) w.push_back(fixed(x, 10, 5)); for (double x : l.virt) w.push_back(fixed(x, 10, 5));
  mc::check(oe == w, "energies", [&] { return spin + " energies " + show(oe) + ", the file lists " + show(w) + "\n" + tail(text); });
  mc::check(homo == (int)l.occ.size(), "homo", [&] { return spin + " HOMO position " + to_string(homo) + ", the file lists " + to_string(l.occ.size()) + " occupied\n" + tail(text); });
}
static vector<double> ramp(int n, double from, double step) { vector<double> v; for (int i = 0; i < n; ++i) v.push_back(from + step * i); return v; }
static vector<Atom> water() { return {{"O", 8, 0.0, 0.0, 0.119159, 5}, {"H", 1, 0.0, 0.763239, -0.476635, 1}, {"Cl", 17, 1.5, -0.763239, -0.476635, 2}}; }
static M ovl(int n, int seed) { M m(n, vector<double>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { double v = i == j ? 1.0 : ((i * 31 + j * 17 + seed * 7) % 199 - 99) / 100.0 * std::pow(10.0, -((i + 2 * j + seed) % 5)); m[i][j] = m[j][i] = v; } return m; }
static M cof(int r, int c, int seed) { M m(r, vector<double>(c)); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m[i][j] = ((i * 37 + j * 11 + seed * 13) % 211 - 105) / 100.0 * std::pow(10.0, -((i + j + seed) % 4)); return m; }

static void setup08() {
  mc::scenario("one-line", "every line of 1..5 energies drawn from six widths (-101.56324 ten columns wide, -10.2, -0.12345, 0.01234, 12.34567, 100.12345), occupied or virtual, either spin", [] {
    static const vector<double> cls{-101.56324, -10.20000, -0.12345, 0.01234, 12.34567, 100.12345};
    int n = 1 + mc::choose(5); bool virt = mc::flip(), beta = mc::flip(); vector<double> v; for (int i = 0; i < n; ++i) v.push_back(mc::pick(cls) - 0.001 * i);
    Listing a, b; a.listed = true; (virt ? a.virt : a.occ) = v;
    if (virt) a.occ = {-19.1};
    b.listed = beta; if (beta) { b = a; a.occ = {-3.25}; a.virt = {0.5}; }
    string t = preamble() + " The electronic state is 1-A1.\n" + energies("Alpha", a.occ, a.virt) + (beta ? energies("Beta", b.occ, b.virt) : "") + ending();
    mc::state(mc::Hash().add(v).add((int)virt).add((int)beta)); mc::tr([&] { return tail(t); });
    mc::Attempt at; auto r = read_log(t, at); mc::check(at.ok(), "refused", [&] { return at.str() + "\n" + tail(t); });
    check_energies(*r, "Alpha", a, t); check_energies(*r, "Beta", b, t);
  });
  mc::scenario("wide-lines", "two full lines of five energies, every way of placing ten-column negative values among ordinary ones (2^10)", [] {
    vector<double> v; for (int i = 0; i < 10; ++i) v.push_back(mc::flip() ? -101.5 - i : (i % 2 ? 0.25 : -9.75) + i * 0.01);
    Listing a; a.listed = true; a.occ = v; string t = preamble() + energies("Alpha", a.occ, {}) + ending();
    mc::state(mc::Hash().add(v)); mc::Attempt at; auto r = read_log(t, at); mc::check(at.ok(), "refused", [&] { return at.str() + tail(t); }); check_energies(*r, "Alpha", a, t); check_energies(*r, "Beta", Listing(), t);
  });
  mc::scenario("counts", "0..12 (thorough 23) occupied and virtual energies, 1..8 per line, restricted and unrestricted with different counts, including a spin without occupied or without virtual orbitals", [] {
    int mx = mc::bound(12, 23), o = mc::choose(mx + 1), v = mc::choose(mx + 1), k = mc::choose(8), per = k < 5 ? 5 - k : k + 1, un = mc::choose(3);
    if (o + v == 0) return;
    Listing a, b; a.listed = true; a.occ = ramp(o, -101.2, 3.7); a.virt = ramp(v, 0.012, 4.31);
    if (un) { b.listed = true; b.occ = ramp(un == 1 ? std::max(0, o - 1) : v, -99.1, 2.9); b.virt = ramp(un == 1 ? v + 1 : o, 0.5, 1.01); }
    string t = preamble() + energies("Alpha", a.occ, a.virt, per) + energies("Beta", b.occ, b.virt, per) + decoy(2) + ending();
    mc::state(mc::Hash().add(o).add(v).add(per).add(un)); mc::tr([&] { return tail(t, 1500); });
    mc::Attempt at; auto r = read_log(t, at); mc::check(at.ok(), "refused", [&] { return at.str() + "\n" + tail(t); });
    check_energies(*r, "Alpha", a, t); check_energies(*r, "Beta", b, t);
  });
  mc::scenario("hundreds", "16 numbers of occupied and of virtual energies between 0 and 256 around full lines, 64, 100, 128 and 256 (thorough 520), and 999..1001 of either, restricted and both spins, with other sections in between", [] {
    static const vector<int> w{0, 1, 5, 24, 25, 26, 49, 50, 51, 63, 64, 65, 99, 100, 101, 102, 127, 128, 129, 255, 256, 257, 520}; int lim = mc::bound(16, 23), o, v;
    if (mc::thorough()) { o = w[mc::choose(lim)]; v = w[mc::choose(lim)]; } else { static const vector<int> q{0, 1, 5, 24, 25, 26, 49, 51, 63, 64, 65, 99, 100, 101, 128, 256}; o = mc::pick(q); v = mc::pick(q); } if (int k = mc::choose(7)) { (k < 4 ? o : v) = 998 + (k - 1) % 3 + 1; if ((k < 4 ? v : o) % 5) return; }
    int un = mc::choose(2), ctx = mc::choose(2); mc::state(mc::Hash().add(o).add(v).add(un).add(ctx)); if (o + v == 0) return;
    Listing a, b; a.listed = true; a.occ = ramp(o, -301.2, o > 900 ? .29 : 1.17); a.virt = ramp(v, 0.012, .231); if (un) { b.listed = true; b.occ = ramp(v / 2 + 1, -99.1, .19); b.virt = ramp(o + 1, 0.5, o > 900 ? .73 : 1.01); }
    string t = preamble() + energies("Alpha", a.occ, a.virt) + energies("Beta", b.occ, b.virt) + (ctx ? overlap(ovl(6, 1)) + after_overlap(6) + geometry(water(), 0) + population(water(), 1) : "") + ending();
    mc::tr([&] { return to_string(o) + " occupied, " + to_string(v) + " virtual"; }); mc::Attempt at; auto r = read_log(t, at); mc::check(at.ok(), "refused", [&] { return at.str() + "\n" + tail(t); }); check_energies(*r, "Alpha", a, t); check_energies(*r, "Beta", b, t);
  });
  mc::scenario("not-printed", "two lines of energies with asterisks (a number too wide for its columns) at every non-empty subset of the places, occupied or virtual, either spin: an error, not a value or a shifted list", [] {
    int n = 1 + mc::choose(mc::bound(8, 10)), m = 1 + mc::choose((1 << n) - 1); bool beta = mc::flip(), virt = mc::flip(); vector<double> v = ramp(n, -31.2, 5.7), w = ramp(3, -30.1, 1.25); string t;
    for (const char* sp : {"Alpha", "Beta"}) { bool hit = beta == (sp[0] == 'B'); string l = energies(sp, hit && virt ? w : v, hit && virt ? v : w); if (hit) { vector<string> num; int k = -1, at = virt ? 3 : 0; for (size_t i = 0; i + 9 < l.size(); ) { size_t e = l.find("-- ", i); if (e == string::npos) break; i = e + 3; while (l[i] != '\n') { ++k; if (k >= at && k < at + n && (m >> (k - at) & 1)) l.replace(i, 10, "**********"); i += 10; } } } t += l; }
    t = preamble() + t + ending(); mc::state(mc::Hash().add(n).add(m).add((int)beta).add((int)virt)); mc::tr([&] { return tail(t); }); mc::check(t.find("**********") != string::npos, "harness", [&] { return t; });
    mc::Attempt at; auto r = read_log(t, at); if (at.ok()) { vector<double> g; at = mc::attempt([&] { g = r->getOE(beta ? "Beta" : "Alpha"); }); mc::check(!at.ok(), "accepted", [&] { return "energies that are not in the file were returned: " + show(g) + "\n" + tail(t); }); }
    mc::check(at.refused(), "refused", [&] { return at.str() + "\n" + tail(t); });
  });
  mc::scenario("section-orders", "every sequence of 1..4 sections (thorough 5) from: restricted listing, unrestricted listing, overlap, populations, geometry, two kinds of other output; each listing has its own values and may start the file", [] {
    int n = 1 + mc::choose(mc::bound(4, 5)); bool pre = mc::flip(); string t = pre ? preamble() : ""; Listing a, b; string names; mc::Hash h; h.add((int)pre);
    for (int i = 0; i < n; ++i) {
      int k = mc::choose(7); h.add(k); names += to_string(k);
      if (k <= 1) {
        a = Listing(); a.listed = true; a.occ = ramp(3 + i, -20.5 - i, 1.3); a.virt = ramp(4 + k, 0.1 + i, 0.77); t += (i || pre ? " The electronic state is 1-A1.\n" : "") + energies("Alpha", a.occ, a.virt);
        if (k == 1) { b = Listing(); b.listed = true; b.occ = ramp(2 + i, -30.5 - i, 1.1); b.virt = ramp(6, 0.2 + i, 0.7); t += energies("Beta", b.occ, b.virt); }
      } else if (k == 2) t += overlap(ovl(6, i)) + after_overlap(6);
      else if (k == 3) t += population(water(), 1 + 3 * (i % 2));
      else if (k == 4) t += geometry(water(), i % 2);
      else t += decoy(k == 5 ? 1 : 2);
    }
    t += ending(); mc::state(h); mc::tr([&] { return "sections " + names; });
    mc::Attempt at; auto r = read_log(t, at); mc::check(at.ok(), "refused", [&] { return "sections " + names + ": " + at.str(); });
    check_energies(*r, "Alpha", a, t); check_energies(*r, "Beta", b, t);
  });
}

// --------------------------------------------------------------- overlap ---
static void check_overlap(LogReader& r, const M* S, const string& text) {
  Matrix* m = nullptr; mc::Attempt a = mc::attempt([&] { m = r.getOverlapMatrix(); });
  if (!S) { mc::check(a.refused(), "absent overlap", [&] { return "the file has no overlap table, but getOverlapMatrix was " + a.str(); }); return; }
  mc::check(a.ok() && m, "refused", [&] { return "getOverlapMatrix was " + a.str() + "\n" + tail(text); });
  int n = (int)S->size();
  mc::check(m->get_rows() == n && m->get_cols() == n, "shape", [&] { return "overlap is " + to_string(m->get_rows()) + "x" + to_string(m->get_cols()) + ", the table has " + to_string(n) + " functions"; });
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    double w = printed((*S)[std::max(i, j)][std::min(i, j)], 6), g = m->get_elem(i + 1, j + 1);
    mc::check(near(g, w), "overlap", [&] { std::ostringstream o; o.precision(12); o << "S(" << i + 1 << "," << j + 1 << ") = " << g << ", printed " << w << " (" << n << " functions)\n" << tail(text, 1500); return o.str(); });
  }
}
static void setup09() {
  mc::scenario("sizes", "every number of functions 1..26 (thorough 1..61), 4 value patterns, with and without other sections before and after", [] {
    int n = 1 + mc::choose(mc::bound(26, 61)), seed = mc::choose(4), ctx = mc::choose(4); M S = ovl(n, seed);
    string t = (ctx & 1 ? preamble() + geometry(water(), 0) : "") + overlap(S) + after_overlap(n) + (ctx & 2 ? energies("Alpha", {-1.5, -.5}, {.5}) + population(water(), 1) : "") + ending();
    mc::state(mc::Hash().add(n).add(seed).add(ctx)); mc::tr([&] { return tail(overlap(S), 1200); });
    mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return to_string(n) + " functions: " + a.str(); }); check_overlap(*r, &S, t);
    if (ctx & 2) { Listing l; l.listed = true; l.occ = {-1.5, -.5}; l.virt = {.5}; check_energies(*r, "Alpha", l, t); }
  });
  mc::scenario("large", "31..33, 49..51, 63..66, 99..101, 105, 126, 131 and 1001 functions (thorough also 200, 256, 301, 999, 1000), 2 value patterns, alone and among other sections: every entry", [] {
    vector<int> w{31, 32, 33, 49, 50, 51, 63, 64, 65, 66, 99, 100, 101, 105, 126, 131}; if (mc::thorough()) { for (int k : {200, 256, 301, 999, 1000}) w.push_back(k); } w.push_back(1001);
    int n = mc::pick(w), seed = 1 + mc::choose(2), ctx = mc::choose(2); if (n > 900 && (seed == 1 || ctx)) return; M S = ovl(n, seed); string t = (ctx ? preamble() + geometry(water(), 0) : "") + overlap(S) + after_overlap(n) + (ctx ? energies("Alpha", {-1.5, -.5}, {.5}) + population(water(), 1) : "") + ending();
    mc::state(mc::Hash().add(n).add(seed).add(ctx)); mc::tr([&] { return to_string(n) + " functions"; }); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return to_string(n) + " functions: " + a.str(); }); check_overlap(*r, &S, t);
  });
  mc::scenario("values", "tables of 1..12 functions: one entry at every position takes every sign and every exponent -20..+03 with 3 mantissas", [] {
    int n = mc::bound(0, 0) + (mc::thorough() ? 1 + mc::choose(12) : vector<int>{1, 2, 6, 7, 11}[mc::choose(5)]); int e = mc::choose(n * (n + 1) / 2), i = 0; while (e > i) { e -= i + 1; ++i; }
    int x = mc::choose(24) - 20, s = mc::choose(2), mm = mc::choose(3); double v = (s ? -1 : 1) * (mm == 0 ? 0.1 : mm == 1 ? 0.999999 : 0.123456) * std::pow(10.0, x);
    M S = ovl(n, 1); S[i][e] = S[e][i] = v; string t = preamble() + overlap(S) + after_overlap(n) + ending();
    mc::state(mc::Hash().add(n).add(i).add(e).add(v)); mc::tr([&] { return "entry " + to_string(i + 1) + "," + to_string(e + 1) + " of " + to_string(n) + " = " + dnum(v, 14, 6); });
    mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return to_string(n) + " functions: " + a.str(); }); check_overlap(*r, &S, t);
  });
  mc::scenario("sign-patterns", "tables of 1..4 functions with every sign and zero pattern of the entries", [] {
    int n = 1 + mc::choose(4); M S(n, vector<double>(n)); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { int k = mc::choose(n == 4 ? 2 : 3); S[i][j] = S[j][i] = k == 0 ? 0.25 + 0.01 * (i * 5 + j) : k == 1 ? -0.5 - 0.001 * (i * 7 + j) : 0.0; }
    mc::Hash h; for (auto& r : S) h.add(r); mc::state(h);
    string t = preamble() + overlap(S) + after_overlap(n) + ending(); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return to_string(n) + " functions: " + a.str() + "\n" + tail(t); }); check_overlap(*r, &S, t);
  });
  mc::scenario("absent", "every sequence of 0..4 other sections, none of them an overlap table: asking for the overlap is refused", [] {
    int n = mc::choose(5); string t; mc::Hash h; for (int i = 0; i < n; ++i) { int k = mc::choose(6); h.add(k); t += k == 0 ? energies("Alpha", {-1, -.5}, {.2}) : k == 1 ? population(water(), 1) : k == 2 ? geometry(water(), 0) : k == 3 ? after_overlap(5) : decoy(k == 4 ? 4 : 0); }
    mc::state(h); mc::Attempt a; auto r = read_log(t + ending(), a); mc::check(a.ok(), "refused", [&] { return a.str() + "\n" + tail(t); }); check_overlap(*r, nullptr, t);
  });
  mc::scenario("several-tables", "two (thorough three) overlap tables in one log, each of 1..12 functions, directly after one another, also with diagonals other than one, or with other sections between: the last table counts", [] {
    int n = mc::bound(2, 3), ctx = mc::choose(3), N = 0; M last; string t = preamble(); mc::Hash h; h.add(ctx); for (int i = 0; i < n; ++i) { N = 1 + mc::choose(12); h.add(N); last = ovl(N, i); if (ctx == 2) for (int q = 0; q < N; ++q) last[q][q] = 0.5 + 0.125 * ((q + i) % 5); t += overlap(last) + after_overlap(N); if (ctx == 1) t += energies("Alpha", {-1, -.5}, {.2}) + population(water(), 4) + geometry(water(), 1); }
    M S = last; mc::state(h); mc::tr([&] { return tail(t, 3000); }); mc::Attempt a; auto r = read_log(t + ending(), a); mc::check(a.ok(), "refused", [&] { return a.str() + "\n" + tail(t); }); check_overlap(*r, &S, t);
  });
  mc::scenario("section-orders", "an overlap table among every sequence of up to 3 (thorough 4) other sections, at every place", [] {
    int n = 1 + mc::choose(mc::bound(3, 4)), at = mc::choose(n + 1), N = vector<int>{2, 5, 7}[mc::choose(3)]; string t; mc::Hash h; h.add(N).add(at); M S = ovl(N, 3);
    for (int i = 0; i <= n; ++i) { if (i == at) t += overlap(S) + after_overlap(N); if (i == n) break; int k = mc::choose(6); h.add(k); t += k == 0 ? energies("Alpha", {-1, -.5}, {.2}) + energies("Beta", {-1}, {.2, .3}) : k == 1 ? population(water(), 4) : k == 2 ? geometry(water(), 1) : decoy(k - 3 == 0 ? 4 : k - 3 == 1 ? 0 : 2); }
    mc::state(h); mc::Attempt a; auto r = read_log(t + ending(), a); mc::check(a.ok(), "refused", [&] { return a.str() + "\n" + tail(t); }); check_overlap(*r, &S, t);
  });
}

// -------------------------------------------------------------- geometry ---
static vector<Atom> molecule(int n, int seed) {
  static const char* el[] = {"C", "H", "Cl", "O", "Br", "N", "S", "Si"}; static const int z[] = {6, 1, 17, 8, 35, 7, 16, 14};
  vector<Atom> v; for (int i = 0; i < n; ++i) { int k = (i * 3 + seed) % 8; v.push_back({el[k], z[k], ((i * 7919LL + seed * 104729LL) % 39999999 - 19999999) / 1e6, ((i * 15485863LL + seed * 31) % 1999999 - 999999) / 1e6, -(i % 700 * 1.25) + seed * 0.000001, 1 + (i * 5 + seed) % 4}); } return v;
}
static void check_geometry(LogReader& r, const vector<Atom>* at, const string& text) {
  vector<vector<double>> c; mc::Attempt a = mc::attempt([&] { c = r.getCoords(); });
  if (!at) { mc::check(a.refused() || c.empty(), "absent geometry", [&] { return "the file has no geometry, but " + to_string(c.size()) + " lists were returned"; }); return; }
  mc::check(a.ok() && c.size() == 3, "shape", [&] { return "getCoords " + a.str() + " returned " + to_string(c.size()) + " lists\n" + tail(text); });
  vector<vector<double>> w(3); for (auto& x : *at) { w[0].push_back(fixed(x.x, 12, 6)); w[1].push_back(fixed(x.y, 12, 6)); w[2].push_back(fixed(x.z3, 12, 6)); }
  for (int k = 0; k < 3; ++k) mc::check(c[k] == w[k], "coordinates", [&] { return string(1, "xyz"[k]) + " is " + show(c[k]) + ", the last table lists " + show(w[k]) + "\n" + tail(text, 1500); });
}
static void setup10() {
  mc::scenario("sizes", "every number of atoms 1..40 (thorough 1..130), both header styles, 4 coordinate sets, at the start of the file or after other text", [] {
    int n = 1 + mc::choose(mc::bound(40, 130)), st = mc::choose(3), seed = mc::choose(4), pre = mc::choose(2); auto at = molecule(n, seed); string g = geometry(at, st);
    if (!pre) g = g.substr(g.find(" Center"));     // the header is the first line of the file
    string t = (pre ? preamble() : "") + g + ending(); mc::state(mc::Hash().add(n).add(st).add(seed).add(pre)); mc::tr([&] { return tail(g); });
    mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + tail(t); }); check_geometry(*r, &at, t);
  });
  mc::scenario("large", "63..65, 99..101, 128..130, 255..257, 999..1001 and 1234 atoms (thorough also 9999..10001), both header styles, alone, after a smaller table and before a smaller table", [] {
    vector<int> w{63, 64, 65, 99, 100, 101, 128, 129, 130, 255, 256, 257, 999, 1000, 1001, 1234}; if (mc::thorough()) { w.push_back(9999); w.push_back(10000); w.push_back(10001); }
    int n = mc::pick(w), st = mc::choose(2), ctx = mc::choose(3); auto at = molecule(n, 2), small = molecule(3, 1); string t = preamble() + (ctx == 1 ? geometry(small, st) : "") + geometry(at, st) + (ctx == 2 ? geometry(small, 1 - st) : "") + ending();
    mc::state(mc::Hash().add(n).add(st).add(ctx)); mc::tr([&] { return to_string(n) + " atoms, context " + to_string(ctx); }); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + tail(t); }); check_geometry(*r, ctx == 2 ? &small : &at, t);
  });
  mc::scenario("regular", "2..4 atoms whose coordinates take the values 0 and 1.1 in every combination (linear, planar and coinciding atoms included), atomic numbers equal to the centre's number, to the next one's or all the same: every atom and coordinate", [] {
    int n = 2 + mc::choose(3), zk = mc::choose(3); auto at = molecule(n, 1); mc::Hash h; for (int i = 0; i < n; ++i) { int b = mc::choose(8); h.add(b); at[i].x = b & 1 ? 1.1 : 0; at[i].y = b & 2 ? 1.1 : 0; at[i].z3 = b & 4 ? 1.1 : 0; at[i].z = zk == 0 ? i + 1 : zk == 1 ? i + 2 : 6; }
    string t = preamble() + geometry(at, 0) + decoy(0) + ending(); mc::state(h.add(n).add(zk)); mc::tr([&] { return tail(t); }); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + tail(t); }); check_geometry(*r, &at, t);
  });
  mc::scenario("centres", "1..4 centres, each any of carbon, a ghost (atomic number 0), a dummy (-1), uranium or oganesson (118), both header styles: every centre listed is returned", [] {
    int n = 1 + mc::choose(4), st = mc::choose(2); auto at = molecule(n, 1); mc::Hash h; for (auto& a : at) { a.z = mc::pick(vector<int>{6, 0, -1, 92, 118}); h.add(a.z); }
    string t = preamble() + geometry(at, st) + decoy(0) + ending(); mc::state(h.add(st)); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + tail(t); }); check_geometry(*r, &at, t);
  });
  mc::scenario("values", "one coordinate of a three-atom molecule takes every magnitude and sign, every position", [] {
    static const vector<double> vals{0.0, -0.000001, 0.000001, -1.0, 9.999999, -9.999999, 10.0, -99.123456, 123.456789, -999.999999, 1234.5};
    auto at = water(); int i = mc::choose(3), k = mc::choose(3); double v = mc::pick(vals); (k == 0 ? at[i].x : k == 1 ? at[i].y : at[i].z3) = v;
    string t = preamble() + geometry(at, 0) + ending(); mc::state(mc::Hash().add(i).add(k).add(v)); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + tail(t); }); check_geometry(*r, &at, t);
  });
  mc::scenario("several-tables", "every sequence of 1..5 (thorough 6) sections from: geometry in either style with 1..4 atoms, energies, overlap, populations, forces table, other output; the last geometry counts", [] {
    int n = 1 + mc::choose(mc::bound(4, 6)); string t = preamble(), names; mc::Hash h; vector<Atom> last; bool have = false;
    for (int i = 0; i < n; ++i) {
      int k = mc::choose(7); h.add(k); names += to_string(k);
      if (k <= 1) { last = molecule(1 + (i * 2 + k) % 4, i * 2 + k); have = true; t += geometry(last, k); }
      else if (k == 2) t += energies("Alpha", {-1.1, -.5}, {.2}) + energies("Beta", {-1.1}, {.2});
      else if (k == 3) t += overlap(ovl(4 + i, i)) + after_overlap(4 + i);
      else if (k == 4) t += population(water(), 1);
      else t += decoy(k == 5 ? 0 : 3);
    }
    t += ending(); mc::state(h); mc::tr([&] { return "sections " + names; }); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return names + a.str(); }); check_geometry(*r, have ? &last : nullptr, t);
  });
}

// ------------------------------------------------------------ populations ---
static void check_basis(LogReader& r, const vector<Atom>& at, const string& text) {
  vector<int> b, w; for (auto& x : at) w.push_back(x.nb); mc::Attempt a = mc::attempt([&] { b = r.getBasisFuncCount(); });
  mc::check(a.ok() && b == w, "counts", [&] { return "functions per atom " + a.str() + " " + show(b) + ", the table lists " + show(w) + "\n" + tail(text, 1500); });
}
// the names and values of every function, as far as they are single words
static void check_info(LogReader& r, const vector<Atom>& at, int columns, const string& text) {
  auto info = r.getOrbitalInfo(); int ao = 0;
  mc::check(info.size() == at.size(), "orbital information", [&] { return "orbital information of " + to_string(info.size()) + " atoms, the table lists " + to_string(at.size()) + "\n" + tail(text, 1500); });
  for (size_t i = 0; i < at.size(); ++i) {
    auto it = info.find({(int)i + 1, at[i].el}); mc::check(it != info.end(), "orbital information", [&] { return "no orbital information of atom " + to_string(i + 1) + " " + at[i].el + "\n" + tail(text, 1500); });
    mc::check((int)it->second.size() == at[i].nb, "orbital information", [&] { return "atom " + to_string(i + 1) + " has " + to_string(it->second.size()) + " functions, the table lists " + to_string(at[i].nb) + "\n" + tail(text, 1500); });
    for (int k = 0; k < at[i].nb; ++k) { ++ao; string n = orb_name(k); auto o = it->second.find(n); mc::check(o != it->second.end(), "orbital information", [&] { return "atom " + to_string(i + 1) + " has no function " + n + "\n" + tail(text, 1500); });
      vector<double> w; double v = 1.0 + 0.013 * ((ao * 7) % 50) - (ao % 5 == 0 ? 1.2 : 0); for (int c = 0; c < columns; ++c) w.push_back(fixed(c == 0 ? v : v / 2 + 0.01 * c, 10, 5));
      mc::check(o->second == w, "orbital information", [&] { return "function " + n + " of atom " + to_string(i + 1) + " has values " + show(o->second) + ", the table lists " + show(w) + "\n" + tail(text, 1500); }); }
  }
}
static void setup11() {
  mc::scenario("contents", "1..6 and 11, 101 atoms, 3 patterns of elements and of functions per atom, restricted and unrestricted columns: the element, the names and the populations of every function listed", [] {
    static const int N[] = {1, 2, 3, 4, 5, 6, 11, 101}; int n = N[mc::choose(8)], p = mc::choose(3), q = mc::choose(3), col = mc::flip() ? 4 : 1; auto at = molecule(n, p); for (int i = 0; i < n; ++i) at[i].nb = q == 0 ? 1 : q == 1 ? 1 + i % 5 : 20 - i % 7;
    string t = preamble() + population(at, col) + ending(); mc::state(mc::Hash().add(n).add(p).add(q).add(col)); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + "\n" + tail(t); }); check_basis(*r, at, t); check_info(*r, at, col, t);
  });
  mc::scenario("several-tables", "two (thorough three) population tables in one log, each of one of 10 molecules that differ in the number, elements and functions of the atoms and in the columns, with or without other sections between: the last table counts", [] {
    auto mol = [](int k) { vector<Atom> at = molecule(k % 5 == 4 ? 4 : 1 + k % 5, k); if (k >= 5) for (auto& x : at) { x.nb = 7 - x.nb; } if (k == 3) at[0].el = "H"; return at; };
    int n = mc::bound(2, 3), ctx = mc::choose(3), last = 0, col = 1; string t = preamble(); mc::Hash h; h.add(ctx); for (int i = 0; i < n; ++i) { last = mc::choose(10); col = mc::flip() ? 4 : 1; h.add(last).add(col); t += population(mol(last), col); if (ctx) t += energies("Alpha", {-1.1, -.5}, {.2}) + geometry(molecule(2, i), 0) + decoy(0); if (ctx == 2) t += overlap(ovl(4, i)) + after_overlap(4); }
    t += ending(); mc::state(h); mc::tr([&] { return tail(t, 3000); }); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + "\n" + tail(t); }); check_basis(*r, mol(last), t); check_info(*r, mol(last), col, t);
  });
  mc::scenario("small", "1..4 atoms, every number of functions 1..4 on each, every element from {H, C, Cl, Br}, restricted and unrestricted columns", [] {
    int n = 1 + mc::choose(4), col = mc::flip() ? 4 : 1; static const char* el[] = {"H", "C", "Cl", "Br"}; vector<Atom> at; mc::Hash h; h.add(col);
    for (int i = 0; i < n; ++i) { int nb = 1 + mc::choose(n == 4 ? mc::bound(3, 4) : 4), e = mc::choose(n == 4 ? mc::bound(2, 4) : 4); if (n == 4 && !mc::thorough()) e = e ? 2 : 0; at.push_back({el[e], 1, 0, 0, 0, nb}); h.add(nb).add(e); }
    string t = preamble() + population(at, col) + ending(); mc::state(h); mc::tr([&] { return tail(population(at, col)); });
    mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + "\n" + tail(t); }); check_basis(*r, at, t);
  });
  mc::scenario("many-functions", "three atoms, one of them (at any place) with 21..40, 63..65, 99..101, 126..131, 254..257 or 999..1001 functions, the others with 1 or 19, both column kinds: counts, names and populations", [] {
    static const vector<int> w = [] { vector<int> v; for (int i = 21; i <= 40; ++i) v.push_back(i); for (int i : {63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 131, 254, 255, 256, 257, 999, 1000, 1001}) v.push_back(i); return v; }(); int nb = mc::pick(w), at0 = mc::choose(3), o = mc::flip() ? 19 : 1, col = mc::flip() ? 4 : 1; auto at = molecule(3, 1); for (auto& x : at) x.nb = o; at[at0].nb = nb;
    string t = preamble() + population(at, col) + ending(); mc::state(mc::Hash().add(nb).add(at0).add(o).add(col)); mc::tr([&] { return to_string(nb) + " functions on atom " + to_string(at0 + 1) + ", " + to_string(o) + " on the others"; }); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + "\n" + tail(t); }); check_basis(*r, at, t); check_info(*r, at, col, t);
  });
  mc::scenario("large", "1..40, 63..65, 99..101, 128, 220 (thorough 1..220) atoms, 6 patterns of functions per atom (up to 20, function numbers beyond 999), mixed one- and two-letter elements, both column kinds", [] {
    int n = 1 + mc::choose(mc::bound(48, 220)); if (!mc::thorough() && n > 40) n = vector<int>{63, 64, 65, 99, 100, 101, 128, 220}[n - 41]; int p = mc::choose(6), col = mc::flip() ? 4 : 1; auto at = molecule(n, p); for (int i = 0; i < n; ++i) at[i].nb = p == 0 ? 1 : p == 1 ? 20 : p == 2 ? 1 + i % 20 : p == 3 ? (i % 2 ? 1 : 15) : p == 4 ? (i == n - 1 ? 1 : 9) : (i == 0 ? 1 : 30) ;
    if (p == 5) for (auto& x : at) if (x.nb == 30) x.nb = 19;
    string t = preamble() + population(at, col) + ending(); mc::state(mc::Hash().add(n).add(p).add(col)); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return a.str() + "\n" + tail(t); }); check_basis(*r, at, t);
  });
  mc::scenario("section-orders", "a population table (or two of the same molecule, or none) among every sequence of up to 4 sections: energies, overlap, geometry, forces, other output", [] {
    int n = 1 + mc::choose(mc::bound(4, 5)); string t = preamble(), names; mc::Hash h; bool have = false; auto at = water();
    for (int i = 0; i < n; ++i) { int k = mc::choose(7); h.add(k); names += to_string(k); if (k <= 1) { have = true; t += population(at, k ? 4 : 1); } else t += k == 2 ? energies("Alpha", {-1.1, -.5}, {.2}) : k == 3 ? overlap(ovl(3 + i, i)) + after_overlap(3 + i) : k == 4 ? geometry(molecule(2, i), 0) : decoy(k == 5 ? 0 : 2); }
    t += ending(); mc::state(h); mc::tr([&] { return "sections " + names; }); mc::Attempt a; auto r = read_log(t, a); mc::check(a.ok(), "refused", [&] { return names + a.str(); }); check_basis(*r, have ? at : vector<Atom>(), t);
  });
}

// ------------------------------------------------------------------- pun ---
static void check_coefs(PunReader& r, const string& spin, const M* C, const string& text) {
  Matrix* m = nullptr; mc::Attempt a = mc::attempt([&] { m = r.getCoefsMatrix(spin); });
  if (!C) { mc::check(a.refused(), "absent spin", [&] { return spin + " coefficients are not in the file but getCoefsMatrix was " + a.str() + "\n" + tail(text); }); return; }
  mc::check(a.ok() && m, "refused", [&] { return spin + " coefficients: " + a.str() + "\n" + tail(text); });
  int R = (int)C->size(), K = (int)(*C)[0].size();
  mc::check(m->get_rows() == R && m->get_cols() == K, "shape", [&] { return spin + " coefficients are " + to_string(m->get_rows()) + "x" + to_string(m->get_cols()) + ", the file lists " + to_string(R) + " orbitals of " + to_string(K) + "\n" + tail(text); });
  for (int i = 0; i < R; ++i) for (int j = 0; j < K; ++j) { double w = printed((*C)[i][j], 8), g = m->get_elem(i + 1, j + 1);
    mc::check(near(g, w), "coefficient", [&] { std::ostringstream o; o.precision(12); o << spin << " C(" << i + 1 << "," << j + 1 << ") = " << g << ", printed " << w << "\n" << tail(text, 1500); return o.str(); }); }
}
static void check_restricted(PunReader& r, bool want) { bool rs = false; mc::Attempt q = mc::attempt([&] { rs = r.restrictedShell(); }); mc::check(q.ok() && rs == want, "restricted", [&] { return string("restrictedShell is ") + (rs ? "true" : "false") + " for a file with " + (want ? "one spin" : "both spins"); }); }
static void setup12() {
  mc::scenario("sizes", "1..8 (thorough 1..26) orbitals of 1..12 (thorough 1..21) coefficients, restricted, Beta only, and both spins with equal or different numbers of orbitals", [] {
    int R = 1 + mc::choose(mc::bound(8, 26)), K = 1 + mc::choose(mc::bound(12, 21)), kind = mc::choose(5); M A = cof(R, K, 1), B = cof(kind == 3 ? std::max(1, R - 1) : kind == 4 ? R + 2 : R, K, 2);
    bool a = kind != 1, b = kind != 0; string t = pun_header() + (a ? pun_orbitals("Alpha", A) : "") + (b ? pun_orbitals("Beta", B) : ""); mc::state(mc::Hash().add(R).add(K).add(kind)); mc::tr([&] { return tail(t); });
    mc::Attempt at; auto r = read_pun(t, at); mc::check(at.ok(), "refused", [&] { return at.str() + "\n" + tail(t); }); check_coefs(*r, "Alpha", a ? &A : nullptr, t); check_coefs(*r, "Beta", b ? &B : nullptr, t);
    bool rs = false; mc::Attempt q = mc::attempt([&] { rs = r->restrictedShell(); }); mc::check(q.ok() && rs == (a != b), "restricted", [&] { return string("restrictedShell is ") + (rs ? "true" : "false") + " for a file with " + (a ? "Alpha " : "") + (b ? "Beta" : ""); });
    check_coefs(*r, "Gamma", nullptr, t); check_coefs(*r, "", nullptr, t);
  });
  mc::scenario("many-orbitals", "9..12, 19..21, 99..112 and 201 orbitals of 3 coefficients, restricted and both spins: orbital numbers of every width", [] {
    static const vector<int> Rs{9, 10, 11, 12, 19, 20, 21, 99, 100, 101, 102, 110, 111, 112, 201, 1001}; int R = mc::pick(Rs); bool both = mc::flip(); M A = cof(R, 3, 1), B = cof(R, 3, 5); string t = pun_header() + pun_orbitals("Alpha", A) + (both ? pun_orbitals("Beta", B) : "");
    mc::state(mc::Hash().add(R).add((int)both)); mc::Attempt at; auto r = read_pun(t, at); mc::check(at.ok(), "refused", [&] { return at.str(); }); check_coefs(*r, "Alpha", &A, t); check_coefs(*r, "Beta", both ? &B : nullptr, t); check_restricted(*r, !both);
  });
  mc::scenario("wide-orbitals", "1..3 and 12 orbitals of 24..26, 49..51, 63..65, 99..101, 126..131, 255..257 coefficients (thorough also 1000, 1001), restricted and both spins", [] {
    vector<int> Ks{24, 25, 26, 49, 50, 51, 63, 64, 65, 99, 100, 101, 126, 127, 128, 129, 130, 131, 255, 256, 257}; if (mc::thorough()) { Ks.push_back(1000); Ks.push_back(1001); } int K = mc::pick(Ks), R = mc::pick(vector<int>{1, 2, 3, 12}); bool both = mc::flip(); M A = cof(R, K, 1), B = cof(R, K, 5); string t = pun_header() + pun_orbitals("Alpha", A) + (both ? pun_orbitals("Beta", B) : "");
    mc::state(mc::Hash().add(R).add(K).add((int)both)); mc::tr([&] { return to_string(R) + " orbitals of " + to_string(K); }); mc::Attempt at; auto r = read_pun(t, at); mc::check(at.ok(), "refused", [&] { return at.str(); }); check_coefs(*r, "Alpha", &A, t); check_coefs(*r, "Beta", both ? &B : nullptr, t); check_restricted(*r, !both);
  });
  mc::scenario("following-text", "2..4 orbitals of 1..11 coefficients per spin, restricted and both spins, followed by nothing, an empty line, blanks, or other punched text after the last orbital", [] {
    int R = 2 + mc::choose(3), K = 1 + mc::choose(11); bool both = mc::flip(); int f = mc::choose(5); M A = cof(R, K, 1), B = cof(R, K, 5); static const char* after[] = {"", "\n", "     \n\n", " Normal termination of the punch file\n", "   8  0.0000000000D+00  0.2252000000D+00\n   1  0.1400000000D+01\n"};
    string t = pun_header() + pun_orbitals("Alpha", A) + (both ? pun_orbitals("Beta", B) : "") + after[f]; mc::state(mc::Hash().add(R).add(K).add((int)both).add(f)); mc::tr([&] { return tail(t); });
    mc::Attempt at; auto r = read_pun(t, at); mc::check(at.ok(), "refused", [&] { return at.str() + "\n" + tail(t); }); check_coefs(*r, "Alpha", &A, t); check_coefs(*r, "Beta", both ? &B : nullptr, t); check_restricted(*r, !both);
  });
  mc::scenario("values", "2 orbitals of 7 coefficients: each position takes every sign, exponent -20..+03 and 3 mantissas", [] {
    M A = cof(2, 7, 1); int i = mc::choose(2), j = mc::choose(7), x = mc::choose(24) - 20, s = mc::choose(2), mm = mc::choose(3); double v = (s ? -1 : 1) * (mm == 0 ? 0.1 : mm == 1 ? 0.99999999 : 0.12345678) * std::pow(10.0, x); A[i][j] = v;
    string t = pun_header() + pun_orbitals("Alpha", A); mc::state(mc::Hash().add(i).add(j).add(v)); mc::tr([&] { return tail(t); }); mc::Attempt at; auto r = read_pun(t, at); mc::check(at.ok(), "refused", [&] { return at.str() + "\n" + tail(t); }); check_coefs(*r, "Alpha", &A, t);
  });
  mc::scenario("sign-patterns", "1..2 orbitals of 1..6 coefficients, every pattern of signs (values touching without a space) and zeros", [] {
    int R = 1 + mc::choose(2), K = 1 + mc::choose(R == 1 ? 6 : 5); M A(R, vector<double>(K)); mc::Hash h; for (auto& r : A) for (double& x : r) { int k = mc::choose(R == 1 ? 3 : 2); h.add(k); x = k == 0 ? -0.25 - 0.001 * K : k == 1 ? 0.75 : 0; }
    mc::state(h.add(R).add(K)); string t = pun_header() + pun_orbitals("Alpha", A) + pun_orbitals("Beta", A); mc::Attempt at; auto r = read_pun(t, at); mc::check(at.ok(), "refused", [&] { return at.str() + "\n" + tail(t); }); check_coefs(*r, "Alpha", &A, t); check_coefs(*r, "Beta", &A, t);
  });
  mc::scenario("orbital-energies", "the energy on the orbital line takes every sign and magnitude; titles before the orbitals; no header line", [] {
    static const vector<double> oe{-123.45678901, -0.5, 0, 0.00012345, 12.5}; M A = cof(3, 6, 2); vector<double> e{mc::pick(oe), mc::pick(oe), mc::pick(oe)}; int pre = mc::choose(3);
    string t = string(pre == 0 ? "" : pre == 1 ? pun_header() : "(5D15.8)\n\n") + pun_orbitals("Alpha", A, e); mc::state(mc::Hash().add(e).add(pre)); mc::Attempt at; auto r = read_pun(t, at); mc::check(at.ok(), "refused", [&] { return at.str() + "\n" + tail(t); }); check_coefs(*r, "Alpha", &A, t); check_coefs(*r, "Beta", nullptr, t);
  });
}

// ------------------------------------------------------------- truncation ---
struct Piece { string text; int kind; int id; Listing l; };    // kind: 0 other, 1 overlap, 2 geometry, 3 population, 4 energies Alpha, 5 energies Beta
static vector<Piece> log_pieces(int which) {
  vector<Piece> p;
  auto ov = [&](int n, int s) { p.push_back({overlap(ovl(n, s)), 1, n * 10 + s}); p.push_back({after_overlap(n), 0, 0}); };
  auto ge = [&](int n, int s) { p.push_back({geometry(molecule(n, s), s % 2), 2, n * 10 + s}); };
  auto en = [&](const char* spin, vector<double> o, vector<double> v) { Listing l; l.listed = true; l.occ = o; l.virt = v; p.push_back({energies(spin, o, v), spin[0] == 'A' ? 4 : 5, 0, l}); };
  auto po = [&](int n, int s, int col) { p.push_back({population(molecule(n, s), col), 3, n * 10 + s}); };
  auto run = [](int n, double a) { vector<double> v; for (int i = 0; i < n; ++i) v.push_back(a + .01 * i); return v; };
  p.push_back({preamble(), 0, 0});
  switch (which) {
    case 4: en("Alpha", {-9.5, -3.25, -.5, -.4, -.3, -.2, -.1}, {.1}); po(2, 0, 1); ov(6, 3); po(3, 2, 1); ov(5, 1); en("Alpha", {-1.5}, {.2, .3, .4, .5, .6, .7}); break;   // every table twice
    case 5: ov(2, 0); po(5, 1, 4); en("Alpha", run(9, -2), run(3, .1)); en("Beta", run(5, -2), run(7, .1)); ge(5, 1); ge(5, 0); en("Alpha", run(4, -3), run(8, .2)); en("Beta", run(6, -3), run(6, .2)); break;
    case 6: ge(12, 4); ov(26, 4); en("Alpha", run(17, -4), run(21, .05)); en("Beta", run(12, -4), run(26, .05)); po(12, 2, 4); p.push_back({decoy(1), 0, 0}); ge(12, 5); break;
    case 7: ov(51, 2); po(9, 0, 1); ge(9, 3); en("Beta", run(3, -1), run(4, .5)); en("Alpha", run(30, -1), run(25, .5)); break;
    case 0: ge(3, 0); ov(7, 1); en("Alpha", {-20.5, -1.25, -.5}, {.1, .25, .75, 1.5}); p.push_back({population(molecule(3, 1), 1), 3, 31}); break;
    case 1: ge(2, 1); ge(2, 2); ov(3, 0); en("Alpha", {-101.56324, -101.5, -.5, -.4, -.3, -.2}, {.1}); en("Beta", {-101.5, -.5}, {.1, .2}); p.push_back({population(molecule(2, 3), 4), 3, 23}); p.push_back({decoy(0), 0, 0}); ge(2, 3); break;
    case 2: p.push_back({population(molecule(4, 2), 1), 3, 42}); ov(11, 2); ge(4, 1); break;
    default: ge(1, 0); ov(1, 0); en("Alpha", {}, {.5}); p.push_back({population(molecule(1, 0), 1), 3, 10}); ov(5, 1); break;
  }
  p.push_back({ending(), 0, 0}); return p;
}
static void setup13() {
  mc::scenario("log", mc::thorough() ? "8 log files (every section kind, every table repeated, overlap blocks of 1 to 11, 1 to 12 atoms, both spins): cut at EVERY byte" : "6 log files (every section kind, every table repeated, overlap blocks of 1 to 3, both spins): cut at EVERY byte", [] {
    int which = mc::choose(mc::bound(6, 8)); auto ps = log_pieces(which); string full; for (auto& p : ps) full += p.text;
    int cut = mc::choose((int)full.size() + 1); string t = full.substr(0, cut);
    mc::state(mc::Hash().add(which).add(cut)); mc::tr([&] { return "file " + to_string(which) + " cut at byte " + to_string(cut) + " of " + to_string(full.size()) + ": ..." + t.substr(t.size() > 120 ? t.size() - 120 : 0); });
    mc::Attempt a; auto r = read_log(t, a);
    mc::check(a.k != mc::Attempt::EXIT0, "exit 0");
    mc::outcome(a.ok() ? "read" : "reported");
    // the getters stay safe even after an error
    if (!a.ok()) { mc::attempt([&] { r->getOverlapMatrix(); }); mc::attempt([&] { r->getCoords(); }); mc::attempt([&] { r->getBasisFuncCount(); }); mc::attempt([&] { r->getOE("Alpha"); }); return; }
    int lastOv = -1, lastGe = -1, lastPo = -1; size_t pos = 0; int inside = 0, partOv = 0; bool alpha = false, beta = false; const Piece* pa = nullptr; const Piece* pb = nullptr;
    for (auto& p : ps) {
      size_t end = pos + p.text.size();
      if (end <= t.size()) { if (p.kind == 1) lastOv = p.id; if (p.kind == 2) lastGe = p.id; if (p.kind == 3) lastPo = p.id; if (p.kind == 4) { alpha = true; pa = &p; } if (p.kind == 5) { beta = true; pb = &p; } }
      else if (pos < t.size()) inside = p.kind;
      pos = end;
      if (end >= t.size()) break;
    }
    // where the header of the table itself is not complete yet, the table has not begun
    auto begun = [&](const char* head, const char* other) { size_t q = t.rfind(head), q2 = other ? t.rfind(other) : string::npos; if (q2 != string::npos && (q == string::npos || q2 > q)) q = q2; return q; };
    string where = "file " + to_string(which) + " cut at byte " + to_string(cut);
    if (inside == 1 && t.find(" *** Overlap ***", full.find(t.substr(0, 1)) + (lastOv >= 0 ? t.find(" *** Overlap ***") + 5 : 0)) != string::npos) {
      mc::Attempt q = mc::attempt([&] { r->getOverlapMatrix(); });
      mc::check(q.refused(), "partial overlap", [&] { return where + ", inside the overlap table, but reading reports no error and an overlap matrix is returned"; });
    } else if (lastOv >= 0) { M S = ovl(lastOv / 10, lastOv % 10); check_overlap(*r, &S, where); }
    else check_overlap(*r, nullptr, where);
    bool gIn = false;
    if (inside == 2) { size_t st = 0; for (auto& p : ps) { if (st + p.text.size() > t.size()) { string part = t.substr(st); gIn = part.find("Center     Atomic      Atomic") != string::npos || part.find("Center     Atomic     Atomic") != string::npos; break; } st += p.text.size(); } }
    if (gIn) { vector<vector<double>> c; mc::Attempt q = mc::attempt([&] { c = r->getCoords(); });
      // the closing line is complete when all its dashes are there
      bool closed = false; { size_t st = 0; for (auto& p : ps) { if (st + p.text.size() > t.size()) { closed = t.size() - st + 1 >= p.text.size(); if (closed) { auto at = molecule(p.id / 10, p.id % 10); check_geometry(*r, &at, where); } break; } st += p.text.size(); } }
      if (!closed) mc::check(q.refused() || c.empty(), "partial geometry", [&] { return where + ", inside the geometry table, but reading reports no error and " + to_string(c.empty() ? 0 : c[0].size()) + " atoms are returned"; });
    } else if (lastGe >= 0) { auto at = molecule(lastGe / 10, lastGe % 10); check_geometry(*r, &at, where); }
    else check_geometry(*r, nullptr, where);
    bool pIn = false, pDone = false; int pid = -1;
    if (inside == 3) { size_t st = 0; for (auto& p : ps) { if (st + p.text.size() > t.size()) { string part = t.substr(st); pIn = part.find("     Gross orbital populations:") != string::npos; pDone = part.find("         Condensed to atoms") != string::npos; pid = p.id; break; } st += p.text.size(); } }
    vector<int> b; mc::Attempt qb = mc::attempt([&] { b = r->getBasisFuncCount(); });
    if (pIn && !pDone) mc::check(qb.refused() || b.empty(), "partial populations", [&] { return where + ", inside the population table, but reading reports no error and " + to_string(b.size()) + " atoms have functions"; });
    else if (pIn && pDone) check_basis(*r, molecule(pid / 10, pid % 10), where);
    else check_basis(*r, lastPo >= 0 ? molecule(lastPo / 10, lastPo % 10) : vector<Atom>(), where);
    (void)alpha; (void)beta; (void)partOv; (void)begun;
    auto listing = [&](const Piece* p, const string& spin) { if (!p) return; check_energies(*r, spin, p->l, where); };
    listing(pa, "Alpha"); listing(pb, "Beta");
    // a listing that is cut off, be it after a complete line, is not delivered as if it were complete
    { size_t st = 0; for (auto& p : ps) { if (st + p.text.size() > t.size()) { string part = t.substr(st); const char* spin = p.kind == 4 ? "Alpha" : "Beta";
        if ((p.kind == 4 || p.kind == 5) && part.find("eigenvalues --") != string::npos) { mc::Attempt q = mc::attempt([&] { r->getOE(spin); }); mc::check(q.refused(), "partial energies", [&] { return where + ", inside the " + spin + " energies, but reading reports no error and energies are returned"; }); }
        break; } st += p.text.size(); } }
  });
  mc::scenario("pun", mc::thorough() ? "8 pun files (up to 31 orbitals of 26, both spins, full and partial lines) cut at EVERY byte" : "6 pun files (one orbital, several, both spins, full and partial lines) cut at EVERY byte", [] {
    int which = mc::choose(mc::bound(6, 8)); static const int dim[][4] = {{1, 1, 0, 0}, {3, 7, 0, 0}, {2, 5, 2, 5}, {4, 11, 3, 11}, {1, 6, 1, 6}, {11, 10, 10, 10}, {31, 26, 0, 0}, {12, 15, 14, 15}}; const int* d = dim[which]; M A = cof(d[0], d[1], 1), B = d[2] ? cof(d[2], d[3], 2) : M();
    string head = pun_header(), ta = pun_orbitals("Alpha", A), tb = d[2] ? pun_orbitals("Beta", B) : "", full = head + ta + tb; int cut = mc::choose((int)full.size() + 1); string t = full.substr(0, cut);
    mc::state(mc::Hash().add(which).add(cut)); mc::tr([&] { return "file " + to_string(which) + " cut at byte " + to_string(cut) + " of " + to_string(full.size()) + ": ..." + t.substr(t.size() > 120 ? t.size() - 120 : 0); });
    mc::Attempt a; auto r = read_pun(t, a); mc::check(a.k != mc::Attempt::EXIT0, "exit 0"); mc::outcome(a.ok() ? "read" : "reported");
    if (!a.ok()) { mc::attempt([&] { r->getCoefsMatrix("Alpha"); }); mc::attempt([&] { r->getCoefsMatrix("Beta"); }); mc::attempt([&] { r->restrictedShell(); }); return; }
    string where = "file " + to_string(which) + " cut at byte " + to_string(cut);
    auto one = [&](const string& spin, const M& C, size_t start) {
      // how many orbitals are complete (all their numbers) in the prefix, and does it end inside the numbers of one?
      size_t pos = start; int done = 0; bool inside = false, line_end = false; size_t got = 0;
      for (size_t k = 0; k < C.size(); ++k) {
        size_t hl = full.find('\n', pos) + 1; if (t.size() < hl) { inside = t.size() > pos && false; break; }
        size_t p = hl; size_t K = C[k].size(), lines = (K + 4) / 5, len = K * 15 + lines; 
        if (t.size() >= p + len - 1) { ++done; pos = p + len; continue; }
        inside = true; size_t in = t.size() - p; size_t fl = in / 76, rest = in % 76; got = fl * 5; if (rest == 75) { got += 5; rest = 0; } line_end = t.find_last_not_of(' ') + 1 + rest % 15 <= t.size(); got += rest / 15; break;
      }
      Matrix* m = nullptr; mc::Attempt q = mc::attempt([&] { m = r->getCoefsMatrix(spin); });
      if (done == 0 && inside && line_end && got > 0 && q.ok()) {
        // a prefix of the first orbital that is itself a well-formed file of one shorter orbital
        mc::check(m->get_rows() == 1 && m->get_cols() == (int)got, "partial coefficients", [&] { return where + ": " + to_string(m->get_rows()) + "x" + to_string(m->get_cols()) + " " + spin + " coefficients returned, " + to_string(got) + " are in the prefix"; });
        for (size_t j = 0; j < got; ++j) mc::check(near(m->get_elem(1, (int)j + 1), printed(C[0][j], 8)), "partial coefficients", [&] { return where + ": wrong values"; });
        return;
      }
      if (inside) { mc::check(q.refused(), "partial coefficients", [&] { return where + ", inside the numbers of " + spin + " orbital " + to_string(done + 1) + ", but reading reports no error and a " + to_string(m->get_rows()) + "x" + to_string(m->get_cols()) + " matrix is returned"; }); return; }
      if (done == 0) { mc::check(q.refused(), "absent spin", [&] { return where + ": " + spin + " has no orbital in the prefix but coefficients are returned"; }); return; }
      M D(C.begin(), C.begin() + done); if ((size_t)done < C.size() && q.refused()) return; check_coefs(*r, spin, &D, where);
    };
    one("Alpha", A, head.size()); if (d[2]) one("Beta", B, head.size() + ta.size());
  });
}

// -------------------------------------------------- repetition (C27) ---
static string log_summary(LogReader& r) {
  std::ostringstream o; o.precision(17);
  mc::Attempt a = mc::attempt([&] { Matrix* m = r.getOverlapMatrix(); o << "S" << m->get_rows() << ":"; for (int i = 1; i <= m->get_rows(); ++i) for (int j = 1; j <= m->get_cols(); ++j) o << m->get_elem(i, j) << ","; }); o << (a.ok() ? "" : "S refused");
  for (const char* s : {"Alpha", "Beta"}) { a = mc::attempt([&] { vector<double> e = r.getOE(s); o << "|" << s; for (double x : e) o << " " << x; o << " h" << r.getHOMOLevel(s); }); if (!a.ok()) o << "|" << s << " refused"; }
  a = mc::attempt([&] { o << "|B"; for (int b : r.getBasisFuncCount()) o << " " << b; }); a = mc::attempt([&] { o << "|X"; for (auto& v : r.getCoords()) { for (double x : v) o << " " << x; o << ";"; } });
  return o.str();
}
static string pun_summary(PunReader& r) {
  std::ostringstream o; o.precision(17); 
  for (const char* s : {"Alpha", "Beta"}) { mc::Attempt a = mc::attempt([&] { Matrix* m = r.getCoefsMatrix(s); o << "|" << s << m->get_rows() << "x" << m->get_cols(); for (int i = 1; i <= m->get_rows(); ++i) for (int j = 1; j <= m->get_cols(); ++j) o << "," << m->get_elem(i, j); }); if (!a.ok()) o << "|" << s << " refused"; }
  mc::attempt([&] { o << "|r" << r.restrictedShell(); }); return o.str();
}
static vector<string>& log_texts() {
  static vector<string> v{
    energies("Alpha", {-20.5, -1.25}, {.1, .25, .75}) + overlap(ovl(7, 1)) + after_overlap(7) + geometry(molecule(3, 0), 0) + population(molecule(3, 1), 1) + ending(),
    geometry(molecule(2, 1), 1).substr(geometry(molecule(2, 1), 1).find(" Center")) + overlap(ovl(4, 2)) + after_overlap(4) + energies("Alpha", {-5, -4, -3, -2, -1, -.5}, {.5}) + energies("Beta", {-2}, {.1, .2}) + population(molecule(2, 2), 4) + ending(),
    preamble() + decoy(1) + energies("Beta", {-2.5}, {.1}) + energies("Alpha", {-2.5}, {.1}) + ending() };
  return v;
}
static vector<string>& pun_texts() { static vector<string> v{pun_header() + pun_orbitals("Alpha", cof(3, 7, 1)), pun_header() + pun_orbitals("Alpha", cof(2, 4, 3)) + pun_orbitals("Beta", cof(2, 4, 4)), pun_orbitals("Beta", cof(1, 6, 5))}; return v; }
static void setup27() {
  // reference summaries by fresh readers
  auto ref = [](bool log, int i) { static std::map<int, string> memo; int key = (log ? 0 : 10) + i; auto it = memo.find(key); if (it != memo.end()) return it->second;
    string s; mc::Attempt a; if (log) { auto r = read_log(log_texts()[i], a, scratch() + "/ref.log"); s = log_summary(*r); } else { auto r = read_pun(pun_texts()[i], a, scratch() + "/ref.pun"); s = pun_summary(*r); } mc::check(a.ok(), "refused", [&] { return "a well-formed file was " + a.str(); }); return memo[key] = s; };
  mc::scenario("histories", "2 (thorough 3) readers on any of 6 files (3 log, 3 pun, possibly the same file), every sequence of 5 (6) operations read or query on any of them: each query returns what a fresh reader returns", [=] {
    int n = mc::bound(2, 3), len = mc::bound(5, 6); vector<int> f; for (int i = 0; i < n; ++i) f.push_back(mc::choose(6));
    vector<string> path; for (int i = 0; i < 6; ++i) { path.push_back(scratch() + "/h" + to_string(i) + (i < 3 ? ".log" : ".pun")); }
    static pid_t wrote = 0; if (wrote != getpid()) { for (int i = 0; i < 6; ++i) put(path[i], i < 3 ? log_texts()[i] : pun_texts()[i - 3]); wrote = getpid(); }
    vector<std::unique_ptr<LogReader>> L(n); vector<std::unique_ptr<PunReader>> P(n); vector<int> reads(n, 0);
    for (int i = 0; i < n; ++i) if (f[i] < 3) L[i].reset(new LogReader(path[f[i]])); else P[i].reset(new PunReader(path[f[i]]));
    string ops;
    for (int k = 0; k < len; ++k) {
      int o = mc::choose(2 * n), i = o / 2; ops += (o % 2 ? " query " : " read ") + to_string(i); mc::step();
      mc::state(mc::Hash().add(f).add(reads).add(o));
      if (o % 2 == 0) { mc::Attempt a = mc::attempt([&] { if (L[i]) L[i]->read(); else P[i]->read(); }); mc::check(a.ok(), "refused", [&] { return "files" + show(f) + ops + ": read was " + a.str(); }); ++reads[i]; }
      else { string s = L[i] ? log_summary(*L[i]) : pun_summary(*P[i]); if (reads[i]) { string w = ref(f[i] < 3, f[i] % 3); mc::check(s == w, "repeat", [&] { return "files" + show(f) + ops + ": got " + s.substr(0, 400) + "\nfresh reader: " + w.substr(0, 400); }); } }
    }
    mc::tr([&] { return "files" + show(f) + ops; });
  });
  mc::scenario("after-failure", "a reader whose file is first cut inside a table at one of 12 places, then completed: reading again succeeds with the results of a fresh reader; likewise for a file that first does not exist", [=] {
    bool log = mc::flip(); int i = mc::choose(3), c = mc::choose(13); string p = scratch() + (log ? "/cut.log" : "/cut.pun"); const string& full = log ? log_texts()[i] : pun_texts()[i]; unlink(p.c_str());
    if (c < 12) put(p, full.substr(0, full.size() * (c + 1) / 14));
    mc::state(mc::Hash().add((int)log).add(i).add(c)); std::unique_ptr<LogReader> L; std::unique_ptr<PunReader> P; if (log) L.reset(new LogReader(p)); else P.reset(new PunReader(p));
    mc::Attempt a = mc::attempt([&] { if (log) L->read(); else P->read(); }); mc::step(2); if (c == 12) mc::check(a.refused(), "missing file", [&] { return "reading a missing file was " + a.str(); });
    bool failed = a.refused(); put(p, full); a = mc::attempt([&] { if (log) L->read(); else P->read(); });
    mc::check(a.ok(), "refused", [&] { return "reading the completed file was " + a.str(); }); string s = log ? log_summary(*L) : pun_summary(*P), w = ref(log, i);
    mc::check(s == w, "repeat", [&] { return "after a failed read: " + s.substr(0, 300) + "\nfresh: " + w.substr(0, 300); });
    mc::outcome(failed ? "first read failed" : "first read succeeded");
  });
  mc::scenario("rewritten", "one reader of one path: every sequence of two (thorough three) contents in turn, each one of three well-formed files, one of them cut inside a table at one of 6 places, or no file, read after each: what the reader then delivers is what a fresh reader does, of a whole, a cut and a missing file", [=] {
    bool log = mc::flip(); string p = scratch() + (log ? "/re.log" : "/re.pun"); std::unique_ptr<LogReader> L; std::unique_ptr<PunReader> P; if (log) L.reset(new LogReader(p)); else P.reset(new PunReader(p)); string what; mc::Hash h; h.add((int)log); int n = mc::bound(2, 3);
    for (int k = 0; k < n; ++k) {
      int c = mc::choose(10); h.add(c); unlink(p.c_str()); const string& full = (log ? log_texts() : pun_texts())[c < 3 ? c : 0]; if (c < 3) put(p, full); else if (c < 9) put(p, full.substr(0, full.size() * (c - 2) / 8));
      what += c < 3 ? " file " + to_string(c) : c < 9 ? " file 0 cut at " + to_string(c - 2) + "/8" : " no file"; mc::step(); mc::tr([&] { return what; });
      mc::Attempt a = mc::attempt([&] { if (log) L->read(); else P->read(); }); if (c == 9) mc::check(a.refused(), "missing file", [&] { return what + ": reading a missing file was " + a.str(); });
      if (c < 3) { mc::check(a.ok(), "refused", [&] { return what + ": was " + a.str(); }); string s = log ? log_summary(*L) : pun_summary(*P), w = ref(log, c); mc::check(s == w, "repeat", [&] { return what + ": got " + s.substr(0, 300) + "\nfresh: " + w.substr(0, 300); }); }
      else { string s = log ? log_summary(*L) : pun_summary(*P), w; { std::unique_ptr<LogReader> FL; std::unique_ptr<PunReader> FP; if (log) FL.reset(new LogReader(p)); else FP.reset(new PunReader(p)); mc::attempt([&] { if (log) FL->read(); else FP->read(); }); w = log ? log_summary(*FL) : pun_summary(*FP); } mc::check(s == w, "remains", [&] { return what + ": then the reader delivers " + s.substr(0, 300) + "\na fresh reader: " + w.substr(0, 300); }); }
    }
    mc::state(h);
  });
  mc::scenario("names", "every combination of 5 directory parts, 13 stems and 9 endings: a log (pun) reader accepts the name exactly when its last extension is .log (.pun); missing files are reported when read", [] {
    static const vector<string> dirs{"", "./", "a.b/", "x.pun/", "/tmp/no.log/"}, stems{"m", "m.x", "90_pair", "a.log", "a.pun", ".hidden", "a..b", "a.", "..", "log", "pun", "a~b.c", "a b"}, ends{".log", ".pun", ".LOG", ".lo", ".logs", "", ".", ".log.bak", ".7"};
    string n = mc::pick(dirs) + mc::pick(stems) + mc::pick(ends); bool log = mc::flip(); mc::state(mc::Hash().add(n).add((int)log)); mc::tr([&] { return (log ? "LogReader " : "PunReader ") + n; }); mc::step();
    string base = n.substr(n.rfind('/') == string::npos ? 0 : n.rfind('/') + 1); size_t d = base.rfind('.'); string ext = d == string::npos ? "" : base.substr(d);
    std::unique_ptr<LogReader> L; std::unique_ptr<PunReader> P; mc::Attempt a = mc::attempt([&] { if (log) L.reset(new LogReader(n)); else P.reset(new PunReader(n)); });
    bool want = ext == (log ? ".log" : ".pun"); mc::check(a.ok() == want, "name", [&] { return string(log ? "LogReader" : "PunReader") + " on '" + n + "' was " + a.str(); });
    mc::outcome(a.ok() ? "accepted" : "refused");
    if (a.ok()) { string e; mc::attempt([&] { e = log ? L->getExt() : P->getExt(); }); mc::check(e == ext, "name", [&] { return "getExt of '" + n + "' is '" + e + "'"; }); a = mc::attempt([&] { if (log) L->read(); else P->read(); }); mc::check(a.refused(), "missing file", [&] { return "reading the missing file '" + n + "' was " + a.str(); }); }
  });
  mc::scenario("odd-names", "existing files whose names hold each of 27 unusual characters (blank, ~, #, quotes, brackets, bytes above 127, ...) at three places, in directories with and without one, or names of 1..240 letters: they are accepted and read like any other", [] {
    static const string odd = " ~#%$&'\"()+,-;=@[]^_{}!:*?\xc3\x7f"; int k = mc::choose((int)odd.size() + 8), w = mc::choose(3), dr = mc::choose(2); bool log = mc::flip(); string d = scratch() + "/odd"; mkdir(d.c_str(), 0700); string stem, o;
    if (k < (int)odd.size()) { o = odd[k]; stem = w == 0 ? "a" + o + "b" : w == 1 ? "a." + o + "b" + o + ".c" : "9" + o + o + "d"; if (dr) { d += "/x" + o + "y.log"; mkdir(d.c_str(), 0700); } } else { static const int len[] = {1, 2, 31, 63, 64, 127, 128, 240}; stem = string(len[k - odd.size()], w == 0 ? 'a' : w == 1 ? 'Z' : '7'); if (dr) { d += "/" + stem; mkdir(d.c_str(), 0700); } }
    string n = d + "/" + stem + (log ? ".log" : ".pun"); M C = cof(3, 4, 1); string t = log ? preamble() + energies("Alpha", {-1.1, -.5}, {.2}) + ending() : pun_header() + pun_orbitals("Alpha", C); put(n, t); mc::state(mc::Hash().add(stem).add(dr).add((int)log)); mc::tr([&] { return n; }); mc::step();
    std::unique_ptr<LogReader> L; std::unique_ptr<PunReader> P; mc::Attempt a = mc::attempt([&] { if (log) { L.reset(new LogReader(n)); L->read(); } else { P.reset(new PunReader(n)); P->read(); } }); unlink(n.c_str());
    mc::check(a.ok(), "name", [&] { return "the file '" + n + "' exists but was " + a.str(); }); if (log) { Listing x; x.listed = true; x.occ = {-1.1, -.5}; x.virt = {.2}; check_energies(*L, "Alpha", x, t); } else check_coefs(*P, "Alpha", &C, t);
  });
}

static void setup() {
#if PROP == 8
  setup08();
#elif PROP == 9
  setup09();
#elif PROP == 10
  setup10();
#elif PROP == 11
  setup11();
#elif PROP == 12
  setup12();
#elif PROP == 13
  setup13();
#elif PROP == 27
  setup27();
#endif
}
MC_MAIN(setup)
