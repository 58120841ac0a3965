// C18, C19, C20, C21, C07, C23: catnip::Matrix and findRank against plain reference models.
#include "mc.hpp"
#include "matrix.hpp"
#include "qc_functions.hpp"
#include <climits>
#include <memory>
using namespace catnip;
using std::string; using std::vector; using std::to_string;

// ------------------------------------------------------------ the model ---
struct Model {
  int r = 0, c = 0, s = 0;
  vector<double> d;                       // [r][c][s]
  Model() {}
  Model(int r_, int c_, int s_ = 1) : r(r_), c(c_), s(s_), d((size_t)r_ * c_ * s_, 0.0) {}
  double& at(int i, int j, int k = 1) { return d[((size_t)(i - 1) * c + (j - 1)) * s + (k - 1)]; }
  double at(int i, int j, int k = 1) const { return d[((size_t)(i - 1) * c + (j - 1)) * s + (k - 1)]; }
  bool operator==(const Model& o) const { return r == o.r && c == o.c && s == o.s && d == o.d; }
  string str() const {
    std::ostringstream o; o << r << "x" << c << "x" << s << " [";
    for (int i = 1; i <= r; ++i) { o << (i > 1 ? " | " : ""); for (int j = 1; j <= c; ++j) for (int k = 1; k <= s; ++k) o << (k > 1 ? "," : " ") << at(i, j, k); }
    o << " ]"; return o.str();
  }
  mc::Hash hash() const { mc::Hash h; h.add(r).add(c).add(s).add(d); return h; }
  Model reshaped(int R, int C, int S) const {        // keep what fits, zero the rest
    Model m(R, C, S);
    for (int i = 1; i <= std::min(R, r); ++i) for (int j = 1; j <= std::min(C, c); ++j) for (int k = 1; k <= std::min(S, s); ++k) m.at(i, j, k) = at(i, j, k);
    return m;
  }
};

static Model observe(const Matrix& m) {
  Model o(m.get_rows(), m.get_cols(), m.get_shel());
  for (int i = 1; i <= o.r; ++i) for (int j = 1; j <= o.c; ++j) for (int k = 1; k <= o.s; ++k) o.at(i, j, k) = m.get_elem(i, j, k);
  return o;
}
static void same(const Matrix& m, const Model& e, const char* sig, const string& what) {
  mc::check(m.get_rows() == e.r && m.get_cols() == e.c && m.get_shel() == e.s, sig, [&] {
    return what + ": shape " + to_string(m.get_rows()) + "x" + to_string(m.get_cols()) + "x" + to_string(m.get_shel()) + ", expected " + e.str(); });
  Model o = observe(m);
  mc::check(o == e, sig, [&] { return what + ": holds " + o.str() + ", expected " + e.str(); });
}
// every way of reading agrees with the model
static void deep_same(Matrix& m, const Model& e, const char* sig, const string& what) {
  same(m, e, sig, what);
  mc::check(m.total_elem() == e.r * e.c * e.s, sig, [&] { return what + ": total_elem " + to_string(m.total_elem()); });
  if (e.s < 1) return;
  for (int i = 1; i <= e.r; ++i) {
    if (e.c >= 1) {
      vector<double> row = m.get_row(i), er; for (int j = 1; j <= e.c; ++j) er.push_back(e.at(i, j));
      mc::check(row == er, sig, [&] { return what + ": get_row(" + to_string(i) + ") differs from the contents"; });
      mc::check(m.get_elem(i) == e.at(i, 1), sig, [&] { return what + ": get_elem(r) differs"; });
    }
    for (int j = 1; j <= e.c; ++j) {
      mc::check(m.get_elem(i, j) == e.at(i, j), sig, [&] { return what + ": get_elem(r,c) differs"; });
      mc::check(*m.get_elem_ptr(i, j) == e.at(i, j), sig, [&] { return what + ": get_elem_ptr differs"; });
    }
  }
  if (e.r >= 1) for (int j = 1; j <= e.c; ++j) {
    vector<double> col = m.get_col(j), ec; for (int i = 1; i <= e.r; ++i) ec.push_back(e.at(i, j));
    mc::check(col == ec, sig, [&] { return what + ": get_col(" + to_string(j) + ") differs from the contents"; });
  }
  if (e.r >= 1 && e.c >= 1) mc::check(m.get_elem() == e.at(1, 1), sig, [&] { return what + ": get_elem() differs"; });
}
static Model numbered(int r, int c, int s = 1, double base = 0) {
  Model m(r, c, s); double v = base; for (double& x : m.d) x = ++v + 1.0 / 3; return m;
}
static Matrix* build(const Model& m) {
  Matrix* p = m.s == 1 ? new Matrix(m.r, m.c) : new Matrix(m.r, m.c, m.s);
  for (int i = 1; i <= m.r; ++i) for (int j = 1; j <= m.c; ++j) for (int k = 1; k <= m.s; ++k) p->set_elem(m.at(i, j, k), i, j, k);
  return p;
}

// ------------------------------------------------- edit operations (C18) ---
enum OpK { SET1, SET_R, SET_RC, SET_RCS, SETROW, SETCOL, MVROW, MVCOL, SWROW, SWCOL, ROWS, COLS, SHEL, RESIZE };
struct Op { OpK k; int a = 0, b = 0, c = 0; };
static string opstr(const Op& o) {
  static const char* n[] = {"set_elem(v)", "set_elem(v,r)", "set_elem(v,r,c)", "set_elem(v,r,c,s)", "set_row", "set_col", "move_row", "move_col", "swap_row", "swap_col", "set_rows", "set_cols", "set_shel", "resize"};
  return string(n[o.k]) + " " + to_string(o.a) + " " + to_string(o.b) + " " + to_string(o.c);
}
// all operations with in-range arguments; dimensions may grow to at most mx
static vector<Op> ops_for(const Model& m, int mxr, int mxc, int mxs, bool dims, bool elems) {
  vector<Op> v;
  bool ne = m.r >= 1 && m.c >= 1 && m.s >= 1;
  if (ne && elems) {
    v.push_back({SET1});
    for (int i = 1; i <= m.r; ++i) v.push_back({SET_R, i});
    for (int i = 1; i <= m.r; ++i) for (int j = 1; j <= m.c; ++j) { v.push_back({SET_RC, i, j}); if (m.s > 1) for (int k = 1; k <= m.s; ++k) v.push_back({SET_RCS, i, j, k}); }
    for (int i = 1; i <= m.r; ++i) v.push_back({SETROW, i});
    for (int j = 1; j <= m.c; ++j) v.push_back({SETCOL, j});
  }
  if (ne && m.s == 1) {
    for (int i = 1; i <= m.r; ++i) for (int j = 1; j <= m.r; ++j) { v.push_back({MVROW, i, j}); v.push_back({SWROW, i, j}); }
    for (int i = 1; i <= m.c; ++i) for (int j = 1; j <= m.c; ++j) { v.push_back({MVCOL, i, j}); v.push_back({SWCOL, i, j}); }
  }
  if (dims) {
    for (int i = 0; i <= mxr; ++i) v.push_back({ROWS, i});
    for (int i = 0; i <= mxc; ++i) v.push_back({COLS, i});
    for (int i = 0; i <= mxs; ++i) v.push_back({SHEL, i});
    if (ne) for (int i = 1; i <= mxr; ++i) for (int j = 1; j <= mxc; ++j) v.push_back({RESIZE, i, j});
  }
  return v;
}
static void apply(const Op& o, Model& e, double v) {
  switch (o.k) {
    case SET1: e.at(1, 1) = v; break;
    case SET_R: e.at(o.a, 1) = v; break;
    case SET_RC: e.at(o.a, o.b) = v; break;
    case SET_RCS: e.at(o.a, o.b, o.c) = v; break;
    case SETROW: for (int j = 1; j <= e.c; ++j) e.at(o.a, j) = v + j; break;
    case SETCOL: for (int i = 1; i <= e.r; ++i) e.at(i, o.a) = v + i; break;
    case MVROW: { Model n = e; vector<int> ord; for (int i = 1; i <= e.r; ++i) if (i != o.a) ord.push_back(i); ord.insert(ord.begin() + (o.b - 1), o.a);
      for (int i = 1; i <= e.r; ++i) for (int j = 1; j <= e.c; ++j) n.at(i, j) = e.at(ord[i - 1], j); e = n; break; }
    case MVCOL: { Model n = e; vector<int> ord; for (int i = 1; i <= e.c; ++i) if (i != o.a) ord.push_back(i); ord.insert(ord.begin() + (o.b - 1), o.a);
      for (int i = 1; i <= e.r; ++i) for (int j = 1; j <= e.c; ++j) n.at(i, j) = e.at(i, ord[j - 1]); e = n; break; }
    case SWROW: for (int j = 1; j <= e.c; ++j) std::swap(e.at(o.a, j), e.at(o.b, j)); break;
    case SWCOL: for (int i = 1; i <= e.r; ++i) std::swap(e.at(i, o.a), e.at(i, o.b)); break;
    case ROWS: e = e.reshaped(o.a, e.c, e.s); break;
    case COLS: e = e.reshaped(e.r, o.a, e.s); break;
    case SHEL: e = e.reshaped(e.r, e.c, o.a); break;
    case RESIZE: e = e.reshaped(o.a, o.b, 1); break;
  }
}
static void apply(const Op& o, Matrix& m, double v) {
  vector<double> w;
  switch (o.k) {
    case SET1: m.set_elem(v); break;
    case SET_R: m.set_elem(v, o.a); break;
    case SET_RC: m.set_elem(v, o.a, o.b); break;
    case SET_RCS: m.set_elem(v, o.a, o.b, o.c); break;
    case SETROW: for (int j = 1; j <= m.get_cols(); ++j) w.push_back(v + j); m.set_row(w, o.a); break;
    case SETCOL: for (int i = 1; i <= m.get_rows(); ++i) w.push_back(v + i); m.set_col(w, o.a); break;
    case MVROW: m.move_row(o.a, o.b); break;
    case MVCOL: m.move_col(o.a, o.b); break;
    case SWROW: m.swap_row(o.a, o.b); break;
    case SWCOL: m.swap_col(o.a, o.b); break;
    case ROWS: m.set_rows(o.a); break;
    case COLS: m.set_cols(o.a); break;
    case SHEL: m.set_shel(o.a); break;
    case RESIZE: m.resize(o.a, o.b); break;
  }
}
static void edit_sequence(int r, int c, int s, int depth, int mxr, int mxc, int mxs, bool dims, bool elems) {
  Model e = numbered(r, c, s);
  Matrix& m = *build(e);
  mc::tr([&] { return "start " + e.str(); });
  mc::state(e.hash());
  for (int t = 0; t < depth; ++t) {
    vector<Op> v = ops_for(e, mxr, mxc, mxs, dims, elems);
    if (v.empty()) break;
    Op o = v[mc::choose((int)v.size())];
    double val = 1000.0 * (t + 1);
    apply(o, e, val);
    mc::tr([&] { return opstr(o) + " -> expected " + e.str(); });
    mc::Attempt a = mc::attempt([&] { apply(o, m, val); });
    mc::step();
    mc::check(a.ok(), "refused", [&] { return opstr(o) + " is in range but was " + a.str(); });
    mc::state(e.hash());
    deep_same(m, e, "contents", "after " + opstr(o));
  }
}
static void setup18() {
  mc::scenario("one-op-every-shape", "every shape up to 6x6x1, 4x4x3 and 2x3x6, every operation with every in-range argument, growth up to +2", [] {
    bool three = mc::flip();
    int r, c, s = 1;
    if (three) { s = 2 + mc::choose(5); int big = s > 3; r = 1 + mc::choose(big ? 2 : 4); c = 1 + mc::choose(big ? 3 : 4); }
    else { r = 1 + mc::choose(6); c = 1 + mc::choose(6); }
    edit_sequence(r, c, s, 1, r + 2, c + 2, s + 2, true, true);
  });
  mc::scenario("pairs", "shapes up to 3x3x2 (thorough 4x4x2), every pair of operations", [] {
    int n = mc::bound(3, 4);
    int r = 1 + mc::choose(n), c = 1 + mc::choose(n), s = 1 + mc::choose(2);
    edit_sequence(r, c, s, 2, 4, 4, 2, true, true);
  });
  mc::scenario("triples-2d", "shapes 1x3, 3x1, 2x3, 3x2 (thorough also 3x3, 2x2), every sequence of 3 moves, swaps, resizes, dimension changes and row/column writes", [] {
    static const int sh[][2] = {{1, 3}, {3, 1}, {2, 3}, {3, 2}, {2, 2}, {3, 3}};
    int i = mc::choose(mc::bound(4, 6));
    edit_sequence(sh[i][0], sh[i][1], 1, 3, 3, 3, 2, true, mc::thorough());
  });
  mc::scenario("dimension-changes", "2x2x2 start, every sequence of 4 (thorough 5) set_rows/set_cols/set_shel calls with sizes 0..3", [] {
    Model e = numbered(2, 2, 2);
    Matrix& m = *build(e);
    int depth = mc::bound(4, 5);
    for (int t = 0; t < depth; ++t) {
      Op o{(OpK)(ROWS + mc::choose(3)), mc::choose(4)};
      apply(o, e, 0); mc::step();
      mc::tr([&] { return opstr(o) + " -> expected " + e.str(); });
      mc::Attempt a = mc::attempt([&] { apply(o, m, 0); });
      mc::check(a.ok(), "refused", [&] { return opstr(o) + " was " + a.str(); });
      mc::state(e.hash());
      deep_same(m, e, "contents", "after " + opstr(o));
      // fill the fresh entries, so that later steps have something to lose
      for (int i = 1; i <= e.r; ++i) for (int j = 1; j <= e.c; ++j) for (int k = 1; k <= e.s; ++k) if (e.at(i, j, k) == 0) { double v = 100 * (t + 1) + i * 16 + j * 4 + k; e.at(i, j, k) = v; m.set_elem(v, i, j, k); }
    }
  });
  mc::scenario("moves-large", "every move and swap of rows and columns in 9x4, 4x9, 12x7 and 7x12 matrices, pairs in 5x6", [] {
    static const int sh[][2] = {{9, 4}, {4, 9}, {12, 7}, {7, 12}, {5, 6}};
    int i = mc::choose(5);
    edit_sequence(sh[i][0], sh[i][1], 1, i == 4 ? 2 : 1, 0, 0, 0, false, false);
  });
  mc::scenario("resize-large", "every resize between shapes up to 12x12 from 11x3, 3x11, 10x10", [] {
    static const int sh[][2] = {{11, 3}, {3, 11}, {10, 10}};
    int i = mc::choose(3);
    Model e = numbered(sh[i][0], sh[i][1]);
    Matrix& m = *build(e);
    int kind = mc::choose(3), a = 1 + mc::choose(13), b = kind == 0 ? 1 + mc::choose(13) : 0;
    Op o{kind == 0 ? RESIZE : kind == 1 ? ROWS : COLS, a, b};
    mc::tr([&] { return e.str() + "; " + opstr(o); });
    apply(o, e, 0); mc::step(); mc::state(e.hash());
    mc::Attempt at = mc::attempt([&] { apply(o, m, 0); });
    mc::check(at.ok(), "refused", [&] { return opstr(o) + " was " + at.str(); });
    deep_same(m, e, "contents", "after " + opstr(o));
  });
}

static void setup18_large() {
  mc::scenario("large-shapes", "12 shapes up to 257 rows or columns (33x5, 65x3, 101x2, 64x64, 130x1, 40x40x3, ...): every kind of operation with indices 1, 2, around 16, 32, 64, 100, 128, 256, the middle and the end; dimension changes by one, to half, to double", [] {
    static const int sh[][3] = {{33, 5, 1}, {5, 33, 1}, {65, 3, 1}, {3, 65, 1}, {101, 2, 1}, {2, 101, 1}, {64, 64, 1}, {130, 1, 1}, {1, 130, 1}, {40, 40, 3}, {257, 3, 1}, {3, 257, 1}};
    const int* q = sh[mc::choose(12)]; Model e = numbered(q[0], q[1], q[2]); Op o{(OpK)mc::choose(14)};
    auto idx = [](int n) { static const int at[] = {1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257}; vector<int> v; for (int x : at) if (x <= n) v.push_back(x); for (int x : {n / 2, n - 1, n}) if (x >= 1 && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); return mc::pick(v); };
    auto dim = [](int n) { return mc::pick(vector<int>{0, 1, n / 2, n - 1, n, n + 1, n + 2, 2 * n, 2 * n + 1}); };
    switch (o.k) {
      case SET1: break;
      case SET_R: case SETROW: o.a = idx(e.r); break;
      case SETCOL: o.a = idx(e.c); break;
      case SET_RC: o.a = idx(e.r); o.b = idx(e.c); break;
      case SET_RCS: o.a = idx(e.r); o.b = idx(e.c); o.c = idx(e.s); break;
      case MVROW: case SWROW: o.a = idx(e.r); o.b = idx(e.r); break;
      case MVCOL: case SWCOL: o.a = idx(e.c); o.b = idx(e.c); break;
      case ROWS: o.a = dim(e.r); break; case COLS: o.a = dim(e.c); break; case SHEL: o.a = dim(e.s); break;
      case RESIZE: o.a = std::max(1, dim(e.r)); o.b = std::max(1, dim(e.c)); break;
    }
    if (e.s > 1 && o.k >= MVROW && o.k <= SWCOL) { mc::outcome("shelves: not defined"); return; }
    string what = opstr(o) + " on " + to_string(e.r) + "x" + to_string(e.c) + "x" + to_string(e.s); mc::tr([&] { return what; });
    Matrix* m = build(e); apply(o, e, 1000000); mc::Attempt a = mc::attempt([&] { apply(o, *m, 1000000); }); mc::step(); mc::state(mc::Hash().add(what));
    mc::check(a.ok(), "refused", [&] { return what + " is in range but was " + a.str(); });
    Model g = observe(*m); mc::check(g.r == e.r && g.c == e.c && g.s == e.s, "contents", [&] { return what + ": shape " + to_string(g.r) + "x" + to_string(g.c) + "x" + to_string(g.s); });
    for (int i = 1; i <= e.r; ++i) for (int j = 1; j <= e.c; ++j) for (int k = 1; k <= e.s; ++k) mc::check(g.at(i, j, k) == e.at(i, j, k), "contents", [&] { return what + ": entry " + to_string(i) + "," + to_string(j) + "," + to_string(k) + " is " + to_string(g.at(i, j, k)) + ", expected " + to_string(e.at(i, j, k)); });
    if (e.r && e.c && e.s) for (int i : {1, e.r}) { vector<double> r = m->get_row(i); for (int j = 1; j <= e.c; ++j) mc::check((int)r.size() == e.c && r[j - 1] == e.at(i, j), "contents", [&] { return what + ": get_row"; }); }
    if (e.r && e.c && e.s) for (int j : {1, e.c}) { vector<double> r = m->get_col(j); for (int i = 1; i <= e.r; ++i) mc::check((int)r.size() == e.r && r[i - 1] == e.at(i, j), "contents", [&] { return what + ": get_col"; }); }
    delete m;
  });
}

static void setup18_shelves() {
  mc::scenario("shelves", "shapes up to 4x4x4 with two or more shelves, every move and swap of rows and columns: the rows and columns of the first shelf move, the entries of each other shelf stay or move the same way", [] {
    int r = 1 + mc::choose(4), c = 1 + mc::choose(4), s = 2 + mc::choose(3); Model e = numbered(r, c, s); Op o{(OpK)(MVROW + mc::choose(4))}; int n = o.k == MVROW || o.k == SWROW ? r : c; o.a = 1 + mc::choose(n); o.b = 1 + mc::choose(n);
    string what = opstr(o) + " on " + e.str(); mc::tr([&] { return what; }); mc::state(mc::Hash().add(what)); std::unique_ptr<Matrix> m(build(e)); mc::Attempt a = mc::attempt([&] { apply(o, *m, 0); }); mc::step();
    if (a.refused()) { mc::outcome("refused"); same(*m, e, "contents", what + ", which was refused"); return; } mc::check(a.ok(), "refused", [&] { return what + " was " + a.str(); });
    Model g = observe(*m); mc::check(g.r == r && g.c == c && g.s == s, "contents", [&] { return what + ": the shape is now " + g.str(); });
    for (int k = 1; k <= s; ++k) { Model sh(r, c), got(r, c); for (int i = 1; i <= r; ++i) for (int j = 1; j <= c; ++j) { sh.at(i, j) = e.at(i, j, k); got.at(i, j) = g.at(i, j, k); } Model moved = sh; apply(o, moved, 0); mc::check(got == moved || (k > 1 && got == sh), "contents", [&] { return what + ": shelf " + to_string(k) + " is now " + got.str(); }); }
  });
}

// ------------------------------------------------------- algebra (C19) ---
static void refused(const char* sig, const string& what, std::function<void()> f) {
  mc::Attempt a = mc::attempt(f);
  mc::step();
  mc::check(a.refused(), sig, [&] { return what + " should be refused but was " + a.str(); });
}
static Model m_mul(const Model& a, const Model& b) {
  Model m(a.r, b.c); for (int i = 1; i <= a.r; ++i) for (int j = 1; j <= b.c; ++j) { double s = 0; for (int k = 1; k <= a.c; ++k) s += a.at(i, k) * b.at(k, j); m.at(i, j) = s; } return m;
}
// values whose products and sums stay exact in double arithmetic
static Model valued(int r, int c, int s, int salt) {
  Model m(r, c, s); int n = 0;
  for (double& x : m.d) { ++n; x = ((n * 37 + salt * 101) % 61 - 30) * (n % 3 == 0 ? 0.5 : 1.0) + 0.25 * (salt % 3); }
  return m;
}
// values that need all digits of a double, for operations that only move them
static Model fine(Model m) { int n = 0; for (double& x : m.d) x += 1.0 / (7 + ++n); return m; }
template <class F> static void result(const char* sig, const string& what, const Model& e, F f) {
  std::unique_ptr<Model> got; Model o;
  mc::Attempt a = mc::attempt([&] { o = f(); });
  mc::step();
  mc::check(a.ok(), sig, [&] { return what + " was " + a.str(); });
  mc::check(o == e, sig, [&] { return what + " gave " + o.str() + ", expected " + e.str(); });
}
static void setup19() {
  mc::scenario("product-exhaustive", "all pairs of 2x2, 1x2*2x1, 2x1*1x2 matrices with entries -1,0,2", [] {
    static const int sh[][3] = {{2, 2, 2}, {1, 2, 1}, {2, 1, 2}};
    int i = mc::choose(3);
    static const double A[] = {-1, 0, 2};
    Model a(sh[i][0], sh[i][1]), b(sh[i][1], sh[i][2]);
    for (double& x : a.d) x = A[mc::choose(3)];
    for (double& x : b.d) x = A[mc::choose(3)];
    Matrix &ma = *build(a), &mb = *build(b);
    mc::tr([&] { return a.str() + " * " + b.str(); });
    mc::state(mc::Hash().add(a.d).add(b.d).add(i));
    result("product", "product", m_mul(a, b), [&] { return observe(ma * mb); });
    same(ma, a, "operand changed", "left operand"); same(mb, b, "operand changed", "right operand");
  });
  mc::scenario("product-shapes", "all shapes n x m times k x l with n,m,k,l <= 5 (thorough 7): exact product if m==k, refused otherwise", [] {
    int N = mc::bound(5, 7);
    int n = 1 + mc::choose(N), m = 1 + mc::choose(N), k = 1 + mc::choose(N), l = 1 + mc::choose(N);
    Model a = valued(n, m, 1, 1), b = valued(k, l, 1, 2);
    Matrix &ma = *build(a), &mb = *build(b);
    mc::tr([&] { return a.str() + " * " + b.str(); });
    mc::state(mc::Hash().add(n).add(m).add(k).add(l));
    if (m == k) result("product", "product", m_mul(a, b), [&] { return observe(ma * mb); });
    else refused("product-size", "product of " + a.str() + " and " + b.str(), [&] { (void)(ma * mb); });
    same(ma, a, "operand changed", "left operand"); same(mb, b, "operand changed", "right operand");
  });
  mc::scenario("product-long", "inner dimension 1..40, outer 1x1, 3x2 and square with itself: long sums and aliased operands", [] {
    int k = 1 + mc::choose(40), w = mc::choose(3);
    if (w == 2) {
      int n = 1 + k % 12; Model a = valued(n, n, 1, k); Matrix& ma = *build(a); mc::state(mc::Hash().add("sq").add(k));
      mc::tr([&] { return "square of " + a.str(); });
      result("product", "A*A", m_mul(a, a), [&] { return observe(ma * ma); }); same(ma, a, "operand changed", "operand"); return;
    }
    Model a = valued(w ? 3 : 1, k, 1, 3), b = valued(k, w ? 2 : 1, 1, 4);
    mc::tr([&] { return a.str() + " * " + b.str(); });
    mc::state(mc::Hash().add(k).add(w));
    Matrix &ma = *build(a), &mb = *build(b);
    result("product", "product", m_mul(a, b), [&] { return observe(ma * mb); });
  });
  mc::scenario("product-precision", "inner dimension 1..12 (thorough 40), outer shapes 1x1, 2x3, 4x4, entries that need all digits, of magnitudes 1e-8..1e8, with cancellation: every entry within the rounding of its own sum", [] {
    int k = 1 + mc::choose(mc::bound(12, 40)), w = mc::choose(3), mag = mc::choose(5), mode = mc::choose(3);
    static const int R[] = {1, 2, 4}, C[] = {1, 3, 4}; static const double sc[] = {1e-8, 1e-3, 1, 1e3, 1e8};
    Model a(R[w], k), b(k, C[w]); int n = 0;
    for (double& x : a.d) { ++n; x = sc[mag] * (1 + 1.0 / (n + 2)) * (mode == 1 && n % 2 ? -1 : 1); }
    for (double& x : b.d) { ++n; x = 1.0 / (n + 0.3) + (mode == 2 ? 1000.0 * (n % 2 ? 1 : -1) : 0); }
    Matrix &ma = *build(a), &mb = *build(b);
    mc::tr([&] { return a.str() + " * " + b.str(); }); mc::state(mc::Hash().add(k).add(w).add(mag).add(mode));
    Model o; mc::Attempt at = mc::attempt([&] { o = observe(ma * mb); }); mc::step();
    mc::check(at.ok(), "product", [&] { return "product was " + at.str(); });
    mc::check(o.r == a.r && o.c == b.c && o.s == 1, "product", [&] { return "product has shape " + o.str(); });
    for (int i = 1; i <= o.r; ++i) for (int j = 1; j <= o.c; ++j) {
      long double s = 0, t = 0; for (int q = 1; q <= k; ++q) { long double p = (long double)a.at(i, q) * b.at(q, j); s += p; t += std::fabs((double)p); }
      mc::check(std::fabs((double)(o.at(i, j) - s)) <= (double)((k + 2) * 2.3e-16L * t), "precision", [&] { std::ostringstream e; e.precision(17); e << "entry " << i << "," << j << " is " << o.at(i, j) << ", expected " << (double)s; return e.str(); });
    }
    same(ma, a, "operand changed", "left operand"); same(mb, b, "operand changed", "right operand");
  });
  mc::scenario("3d-refused", "product and transposition of matrices with more than one shelf are refused", [] {
    int s1 = 1 + mc::choose(3), s2 = 1 + mc::choose(3), op = mc::choose(2);
    Model a = valued(2, 2, s1, 1), b = valued(2, 2, s2, 2);
    Matrix &ma = *build(a), &mb = *build(b);
    mc::tr([&] { return string(op ? "transpose " : "multiply ") + to_string(s1) + " " + to_string(s2); });
    mc::state(mc::Hash().add(s1).add(s2).add(op));
    if (op == 0) { if (s1 > 1 || s2 > 1) refused("3d", "product of 3d matrices", [&] { (void)(ma * mb); }); else result("product", "product", m_mul(a, b), [&] { return observe(ma * mb); }); }
    else if (s1 > 1) refused("3d", "transpose of a 3d matrix", [&] { Matrix r = ma.invert(); });
    same(ma, a, "operand changed", "operand");
  });
  mc::scenario("unary", "transpose, copy, getRow, getCol, diag for every shape up to 6x6x3 (thorough 9x9x4)", [] {
    int N = mc::bound(6, 9);
    int r = 1 + mc::choose(N), c = 1 + mc::choose(N), s = 1 + mc::choose(mc::bound(3, 4));
    Model a = fine(valued(r, c, s, r + 2 * c + 3 * s)); Matrix& m = *build(a);
    mc::tr([&] { return a.str(); });
    mc::state(a.hash());
    if (s == 1) { Model t(c, r); for (int i = 1; i <= r; ++i) for (int j = 1; j <= c; ++j) t.at(j, i) = a.at(i, j); result("transpose", "invert()", t, [&] { return observe(m.invert()); }); }
    result("copy", "Matrix_copy", a, [&] { return observe(Matrix_copy(m)); });
    for (int i = 1; i <= r; ++i) { Model e(1, c, s); for (int j = 1; j <= c; ++j) for (int k = 1; k <= s; ++k) e.at(1, j, k) = a.at(i, j, k); result("getRow", "getRow(" + to_string(i) + ")", e, [&] { return observe(m.getRow(i)); }); }
    for (int j = 1; j <= c; ++j) { Model e(r, 1, s); for (int i = 1; i <= r; ++i) for (int k = 1; k <= s; ++k) e.at(i, 1, k) = a.at(i, j, k); result("getCol", "getCol(" + to_string(j) + ")", e, [&] { return observe(m.getCol(j)); }); }
    if ((r > 1 && c > 1) || s > 1) refused("diag", "Matrix_diag of " + a.str(), [&] { Matrix_diag(m); });
    else { int n = std::max(r, c); Model e(n, n); for (int i = 1; i <= n; ++i) e.at(i, i) = r >= c ? a.at(i, 1) : a.at(1, i); result("diag", "Matrix_diag", e, [&] { return observe(Matrix_diag(m)); }); }
    same(m, a, "operand changed", "operand");
  });
  mc::scenario("concatenate", "all pairs of shapes up to 3x3x2 (thorough 4x4x2), rows and columns: exact when the other dimensions agree, refused otherwise", [] {
    int N = mc::bound(3, 4);
    int r1 = 1 + mc::choose(N), c1 = 1 + mc::choose(N), s1 = 1 + mc::choose(2), r2 = 1 + mc::choose(N), c2 = 1 + mc::choose(N), s2 = 1 + mc::choose(2);
    Model a = fine(valued(r1, c1, s1, 1)), b = fine(valued(r2, c2, s2, 2)); Matrix &ma = *build(a), &mb = *build(b);
    mc::tr([&] { return a.str() + " ++ " + b.str(); });
    mc::state(mc::Hash().add(r1).add(c1).add(s1).add(r2).add(c2).add(s2));
    if (c1 == c2 && s1 == s2) {
      Model e(r1 + r2, c1, s1); for (int i = 1; i <= r1 + r2; ++i) for (int j = 1; j <= c1; ++j) for (int k = 1; k <= s1; ++k) e.at(i, j, k) = i <= r1 ? a.at(i, j, k) : b.at(i - r1, j, k);
      result("concatenate rows", "Matrix_concatenate_rows", e, [&] { return observe(Matrix_concatenate_rows(ma, mb)); });
    } else refused("concatenate rows size", "Matrix_concatenate_rows of " + a.str() + " and " + b.str(), [&] { Matrix_concatenate_rows(ma, mb); });
    if (r1 == r2 && s1 == s2) {
      Model e(r1, c1 + c2, s1); for (int i = 1; i <= r1; ++i) for (int j = 1; j <= c1 + c2; ++j) for (int k = 1; k <= s1; ++k) e.at(i, j, k) = j <= c1 ? a.at(i, j, k) : b.at(i, j - c1, k);
      result("concatenate cols", "Matrix_concatenate_cols", e, [&] { return observe(Matrix_concatenate_cols(ma, mb)); });
    } else refused("concatenate cols size", "Matrix_concatenate_cols of " + a.str() + " and " + b.str(), [&] { Matrix_concatenate_cols(ma, mb); });
    same(ma, a, "operand changed", "first operand"); same(mb, b, "operand changed", "second operand");
  });
  mc::scenario("construct", "vector, integer vector (small values, values that need up to 31 bits), nested vectors (every shape up to 6x6 and every ragged pattern of 3 rows), sized constructors -1..4", [] {
    int kind = mc::choose(7);
    mc::state(mc::Hash().add(kind));
    if (kind == 0) { int n = 1 + mc::choose(9); vector<double> v; Model e(n, 1); for (int i = 1; i <= n; ++i) { v.push_back(i / 1.7); e.at(i, 1) = i / 1.7; } result("construct", "Matrix(vector<double>)", e, [&] { return observe(Matrix(v)); }); }
    else if (kind == 1) { int n = 1 + mc::choose(9); int big = mc::choose(3); vector<int> v; Model e(n, 1); for (int i = 1; i <= n; ++i) { int x = big == 0 ? i * 3 - 7 : big == 1 ? (i % 2 ? 1 : -1) * (2147483000 - 7 * i) : (i % 2 ? -1 : 1) * ((1 << (31 - 3 * i)) + i); v.push_back(x); e.at(i, 1) = x; } result("construct", "Matrix(vector<int>)", e, [&] { return observe(Matrix(v)); }); }
    else if (kind == 2) { int r = 1 + mc::choose(6), c = 1 + mc::choose(6); Model e = fine(valued(r, c, 1, 5)); vector<vector<double>> v(r); for (int i = 1; i <= r; ++i) for (int j = 1; j <= c; ++j) v[i - 1].push_back(e.at(i, j)); result("construct", "Matrix(vector<vector>)", e, [&] { return observe(Matrix(v)); }); }
    else if (kind == 3) { int l[3]; for (int& x : l) x = 1 + mc::choose(3); vector<vector<double>> v(3); for (int i = 0; i < 3; ++i) v[i].assign(l[i], 2.0);
      if (l[0] == l[1] && l[1] == l[2]) { Model e(3, l[0]); for (double& x : e.d) x = 2; result("construct", "Matrix(vector<vector>)", e, [&] { return observe(Matrix(v)); }); }
      else refused("ragged", "Matrix from vectors of lengths " + to_string(l[0]) + "," + to_string(l[1]) + "," + to_string(l[2]), [&] { Matrix m(v); }); }
    else if (kind == 4) { int r = mc::choose(6) - 1; if (r < 0) refused("negative size", "Matrix(-1)", [&] { Matrix m(r); }); else { Model e = r ? Model(r, 1) : Model(0, 0, 0); result("construct", "Matrix(r)", e, [&] { return observe(Matrix(r)); }); } }
    else if (kind == 5) { int r = mc::choose(6) - 1, c = mc::choose(6) - 1; if (r < 1 || c < 1) refused("negative size", "Matrix(r,c)", [&] { Matrix m(r, c); }); else result("construct", "Matrix(r,c)", Model(r, c), [&] { return observe(Matrix(r, c)); }); }
    else { int r = mc::choose(5) - 1, c = mc::choose(5) - 1, s = mc::choose(5) - 1; if (r < 1 || c < 1 || s < 1) refused("negative size", "Matrix(r,c,s)", [&] { Matrix m(r, c, s); }); else result("construct", "Matrix(r,c,s)", Model(r, c, s), [&] { return observe(Matrix(r, c, s)); }); }
    if (kind == 0) result("construct", "Matrix()", Model(1, 1), [&] { return observe(Matrix()); });
    mc::tr([&] { return "kind " + to_string(kind); });
  });
  mc::scenario("chains", "products and transposes of products: (AB)^T == B^T A^T and (AB)C == A(BC) for every shape a,b,c,d <= 3 with small integers", [] {
    int n = 1 + mc::choose(3), m = 1 + mc::choose(3), k = 1 + mc::choose(3), l = 1 + mc::choose(3);
    auto iv = [](int r, int c, int s) { Model x(r, c); int q = 0; for (double& d : x.d) d = (++q * s) % 7 - 3; return x; };
    Model a = iv(n, m, 3), b = iv(m, k, 5), c = iv(k, l, 2);
    Matrix &A = *build(a), &B = *build(b), &C = *build(c);
    mc::state(mc::Hash().add(n).add(m).add(k).add(l));
    mc::tr([&] { return a.str() + b.str() + c.str(); });
    Model ab = m_mul(a, b), abc = m_mul(ab, c);
    result("chain", "(AB)C", abc, [&] { return observe((A * B) * C); });
    result("chain", "A(BC)", abc, [&] { return observe(A * (B * C)); });
    Model t(ab.c, ab.r); for (int i = 1; i <= ab.r; ++i) for (int j = 1; j <= ab.c; ++j) t.at(j, i) = ab.at(i, j);
    result("chain", "(AB)^T", t, [&] { return observe((A * B).invert()); });
    result("chain", "B^T A^T", t, [&] { return observe(B.invert() * A.invert()); });
    same(A, a, "operand changed", "A"); same(B, b, "operand changed", "B"); same(C, c, "operand changed", "C");
  });
}

static void setup19_large() {
  auto brief = [](const Model& m) { return to_string(m.r) + "x" + to_string(m.c) + "x" + to_string(m.s); };
  auto exact = [=](const char* sig, const string& what, const Model& e, std::function<Model()> f) {
    Model o; mc::Attempt a = mc::attempt([&] { o = f(); }); mc::step();
    mc::check(a.ok(), sig, [&] { return what + " was " + a.str(); }); mc::check(o.r == e.r && o.c == e.c && o.s == e.s, sig, [&] { return what + " has shape " + brief(o); });
    for (size_t i = 0; i < e.d.size(); ++i) mc::check(o.d[i] == e.d[i], sig, [&] { std::ostringstream t; t.precision(17); t << what << ": element " << i / e.s / e.c + 1 << "," << i / e.s % e.c + 1 << " is " << o.d[i] << ", expected " << e.d[i]; return t.str(); });
  };
  mc::scenario("product-large", "27 shapes of products up to 129x129x129 and inner dimension 1025, 2 value patterns: exact", [=] {
    static const int sh[][3] = {{16, 16, 16}, {17, 17, 17}, {31, 33, 32}, {33, 33, 33}, {64, 64, 64}, {65, 65, 65}, {40, 8, 72}, {1, 64, 1}, {1, 65, 1}, {1, 257, 1}, {1, 1025, 1}, {2, 130, 3}, {130, 2, 130}, {130, 1, 1}, {1, 1, 130}, {1, 130, 33}, {33, 130, 1}, {101, 3, 5}, {3, 5, 101}, {100, 100, 100}, {101, 101, 101}, {128, 128, 128}, {129, 129, 129}, {257, 3, 3}, {3, 257, 257}, {5, 1024, 5}, {257, 1, 257}};
    const int* q = sh[mc::choose(27)]; int v = mc::choose(2); Model a = valued(q[0], q[1], 1, 1 + v), b = valued(q[1], q[2], 1, 5 - v); std::unique_ptr<Matrix> A(build(a)), B(build(b)); string what = "product of " + brief(a) + " and " + brief(b);
    mc::state(mc::Hash().add(what).add(v)); mc::tr([&] { return what; }); exact("product", what, m_mul(a, b), [&] { return observe(*A * *B); });
    mc::check(observe(*A) == a && observe(*B) == b, "operand changed", [&] { return what; });
  });
  mc::scenario("unary-large", "10 shapes up to 257 rows, columns or 64x64x2: transpose, copy, every row, every column, diagonal; concatenation with a matrix of 1, 32 and 130 rows or columns", [=] {
    static const int sh[][3] = {{33, 40, 1}, {64, 64, 1}, {65, 65, 1}, {130, 1, 1}, {1, 130, 1}, {257, 2, 1}, {2, 257, 1}, {64, 64, 2}, {33, 5, 3}, {101, 99, 1}}; const int* q = sh[mc::choose(10)]; int op = mc::choose(8); Model a = fine(valued(q[0], q[1], q[2], 4)); std::unique_ptr<Matrix> m(build(a)); int r = a.r, c = a.c, s = a.s;
    string what = "operation " + to_string(op) + " on " + brief(a); mc::state(mc::Hash().add(what)); mc::tr([&] { return what; });
    if (op == 0 && s == 1) { Model t(c, r); for (int i = 1; i <= r; ++i) for (int j = 1; j <= c; ++j) t.at(j, i) = a.at(i, j); exact("transpose", what, t, [&] { return observe(m->invert()); }); }
    if (op == 1) exact("copy", what, a, [&] { return observe(Matrix_copy(*m)); });
    if (op == 2) for (int i = 1; i <= r; ++i) { Model e(1, c, s); for (int j = 1; j <= c; ++j) for (int k = 1; k <= s; ++k) e.at(1, j, k) = a.at(i, j, k); exact("getRow", what, e, [&] { return observe(m->getRow(i)); }); }
    if (op == 3) for (int j = 1; j <= c; ++j) { Model e(r, 1, s); for (int i = 1; i <= r; ++i) for (int k = 1; k <= s; ++k) e.at(i, 1, k) = a.at(i, j, k); exact("getCol", what, e, [&] { return observe(m->getCol(j)); }); }
    if (op == 4 && (r == 1 || c == 1)) { int n = std::max(r, c); Model e(n, n); for (int i = 1; i <= n; ++i) e.at(i, i) = r >= c ? a.at(i, 1) : a.at(1, i); exact("diag", what, e, [&] { return observe(Matrix_diag(*m)); }); }
    if (op >= 5) { int n = op == 5 ? 1 : op == 6 ? 32 : 130; Model b = fine(valued(n, c, s, 2)), d = fine(valued(r, n, s, 3)); std::unique_ptr<Matrix> B(build(b)), D(build(d)); Model e(r + n, c, s), f(r, c + n, s);
      for (int i = 1; i <= r + n; ++i) for (int j = 1; j <= c; ++j) for (int k = 1; k <= s; ++k) e.at(i, j, k) = i <= r ? a.at(i, j, k) : b.at(i - r, j, k);
      for (int i = 1; i <= r; ++i) for (int j = 1; j <= c + n; ++j) for (int k = 1; k <= s; ++k) f.at(i, j, k) = j <= c ? a.at(i, j, k) : d.at(i, j - c, k);
      exact("concatenate rows", what, e, [&] { return observe(Matrix_concatenate_rows(*m, *B)); }); exact("concatenate cols", what, f, [&] { return observe(Matrix_concatenate_cols(*m, *D)); }); }
    mc::check(observe(*m) == a, "operand changed", [&] { return what; });
  });
}

// -------------------------------------------------- value semantics (C20) ---
static Matrix by_value(Matrix m) { m.set_elem(-77, 1, 1); if (m.get_rows() > 1) m.swap_row(1, 2); return m; }
static void value_sequence(int depth, int which) {
  static const int sh[][3] = {{2, 2, 1}, {1, 3, 1}, {2, 2, 2}, {3, 1, 1}};
  std::unique_ptr<Matrix> X[3]; Model E[3];
  for (int i = 0; i < 3; ++i) { const int* q = sh[(which + i) % 4]; E[i] = numbered(q[0], q[1], q[2], 100 * (i + 1)); X[i].reset(build(E[i])); }
  mc::tr([&] { return "a=" + E[0].str() + " b=" + E[1].str() + " c=" + E[2].str(); });
  for (int t = 0; t < depth; ++t) {
    int k = mc::choose(9), i = mc::choose(2), j = 0; double v = 5000 + t;
    string d;
    mc::Attempt a;
    switch (k) {
      case 0: j = mc::choose(3); d = "x" + to_string(i) + " = x" + to_string(j); E[i] = E[j]; a = mc::attempt([&] { *X[i] = *X[j]; }); break;
      case 1: j = mc::choose(3); d = "x" + to_string(i) + " copy-constructed from x" + to_string(j); E[i] = E[j]; a = mc::attempt([&] { X[i].reset(new Matrix(*X[j])); }); break;
      case 2: d = "x" + to_string(i) + ".set_elem(v,1,1)"; E[i].at(1, 1) = v; a = mc::attempt([&] { X[i]->set_elem(v, 1, 1); }); break;
      case 3: d = "x" + to_string(i) + ".set_elem(v,last)"; E[i].at(E[i].r, E[i].c, E[i].s) = v; a = mc::attempt([&] { X[i]->set_elem(v, X[i]->get_rows(), X[i]->get_cols(), X[i]->get_shel()); }); break;
      case 4: { int R = 1 + mc::choose(3); d = "x" + to_string(i) + ".resize(" + to_string(R) + ",2)"; E[i] = E[i].reshaped(R, 2, 1); a = mc::attempt([&] { X[i]->resize(R, 2); }); break; }
      case 5: j = mc::choose(3); d = "x" + to_string(i) + " = by_value(x" + to_string(j) + ")"; if (E[j].s != 1) { d = "skip"; break; }
        { Model e = E[j]; e.at(1, 1) = -77; if (e.r > 1) for (int q = 1; q <= e.c; ++q) std::swap(e.at(1, q), e.at(2, q)); E[i] = e; a = mc::attempt([&] { *X[i] = by_value(*X[j]); }); } break;
      case 6: { j = mc::choose(3); d = "vector copies of x" + to_string(j) + " then x" + to_string(i) + " = copy[1]";
        a = mc::attempt([&] { vector<Matrix> vm; for (int q = 0; q < 3; ++q) vm.push_back(*X[j]); vm[0].set_elem(-5, 1, 1); vm[2].set_elem(-6, 1, 1); *X[i] = vm[1]; }); E[i] = E[j]; break; }
      case 7: { j = mc::choose(3); if (E[j].s != 1) { d = "skip"; break; } d = "x" + to_string(i) + " = transpose(x" + to_string(j) + ")"; Model n(E[j].c, E[j].r); for (int p = 1; p <= E[j].r; ++p) for (int q = 1; q <= E[j].c; ++q) n.at(q, p) = E[j].at(p, q); E[i] = n; a = mc::attempt([&] { *X[i] = X[j]->invert(); }); break; }
      case 8: { j = mc::choose(3); d = "x" + to_string(i) + " = Matrix_copy(x" + to_string(j) + ")"; E[i] = E[j]; a = mc::attempt([&] { *X[i] = Matrix_copy(*X[j]); }); break; }
    }
    mc::step();
    mc::tr([&] { return d; });
    mc::check(a.ok(), "refused", [&] { return d + " was " + a.str(); });
    mc::state(mc::Hash().add(E[0].d).add(E[0].r).add(E[0].s).add(E[1].d).add(E[1].r).add(E[1].s).add(E[2].d));
    for (int q = 0; q < 3; ++q) deep_same(*X[q], E[q], "independence", "x" + to_string(q) + " after " + d);
  }
}
static void setup20() {
  mc::scenario("histories", "three matrices of different shapes, every sequence of 3 (thorough 4) copies, assignments, by-value calls, vector storage, edits and resizes over them", [] {
    int w = mc::choose(4); value_sequence(mc::bound(3, 4), w); });
  mc::scenario("self-assign", "every shape up to 5x5x3 and the empty matrix: self assignment, chained assignment, assignment to and from an empty matrix", [] {
    int e = mc::choose(2);
    int r = 1 + mc::choose(5), c = 1 + mc::choose(5), s = 1 + mc::choose(3);
    Model m = numbered(r, c, s); Matrix& x = *build(m); Matrix& self = x;
    mc::state(m.hash()); mc::tr([&] { return m.str(); });
    mc::Attempt a = mc::attempt([&] { x = self; });
    mc::check(a.ok(), "refused", [&] { return "self assignment was " + a.str(); });
    same(x, m, "self assignment", "after x = x");
    if (!e) { Matrix y(2, 2), z(3, 3, 2); a = mc::attempt([&] { y = z = x; }); mc::check(a.ok(), "refused", [&] { return "chained assignment was " + a.str(); });
      same(y, m, "assignment", "y = z = x, y"); same(z, m, "assignment", "y = z = x, z"); x.set_elem(-1, r, c, s); same(y, m, "assignment", "y after x changed"); same(z, m, "assignment", "z after x changed"); }
    else { Matrix y(0); a = mc::attempt([&] { y = x; }); mc::check(a.ok(), "refused", [&] { return "assignment to an empty matrix was " + a.str(); }); same(y, m, "assignment", "empty = x");
      Matrix z(0); a = mc::attempt([&] { x = z; }); mc::check(a.ok(), "assign-empty", [&] { return "assignment from an empty matrix was " + a.str(); }); same(x, Model(0, 0, 0), "assign-empty", "x = empty");
      Matrix w(z); same(w, Model(0, 0, 0), "copy-empty", "copy of empty"); }
    mc::step(4);
  });
  mc::scenario("arguments", "every library function taking a matrix by value or reference, every shape up to 4x4: later changes of the result do not reach the argument and conversely", [] {
    int r = 1 + mc::choose(4), c = 1 + mc::choose(4), f = mc::choose(6);
    Model m = numbered(r, c); Matrix& x = *build(m); mc::state(mc::Hash().add(r).add(c).add(f)); mc::tr([&] { return m.str() + " function " + to_string(f); });
    Model e; std::unique_ptr<Matrix> y;
    mc::Attempt a = mc::attempt([&] {
      if (f == 0) y.reset(new Matrix(Matrix_concatenate_rows(x, x)));
      else if (f == 1) y.reset(new Matrix(Matrix_concatenate_cols(x, x)));
      else if (f == 2) y.reset(new Matrix(x.getRow(r)));
      else if (f == 3) y.reset(new Matrix(x.getCol(c)));
      else if (f == 4) y.reset(new Matrix(Matrix_copy(x)));
      else y.reset(new Matrix(x.invert()));
    });
    mc::check(a.ok(), "refused", [&] { return "function " + to_string(f) + " was " + a.str(); });
    same(x, m, "independence", "argument after the call");
    e = observe(*y);
    y->set_elem(-9, 1, 1); e.at(1, 1) = -9; same(x, m, "independence", "argument after its result changed");
    x.set_elem(-8, 1, 1); same(*y, e, "independence", "result after the argument changed");
    x.resize(r + 1, c + 1); same(*y, e, "independence", "result after the argument was resized");
    mc::step(4);
  });
}

// results that are held while others are computed from the same and other operands
static void setup20_results() {
  mc::scenario("held-results", "three matrices up to 3x3, two (thorough: 2x2, three) results in turn held as returned (products of every pair, nested products, transposes, copies, rows, columns, concatenations) while operands and later results change: every result keeps its contents", [] {
    int n = mc::thorough() ? 2 : 1 + mc::choose(3); Model E[3]; Matrix* X[3];
    for (int i = 0; i < 3; ++i) { E[i] = Model(n, n); int q = 0; for (double& d : E[i].d) d = (++q * (2 * i + 3)) % 7 - 2; X[i] = build(E[i]); }
    mc::tr([&] { return "a=" + E[0].str() + " b=" + E[1].str() + " c=" + E[2].str(); });
    auto T = [](const Model& m) { Model t(m.c, m.r); for (int i = 1; i <= m.r; ++i) for (int j = 1; j <= m.c; ++j) t.at(j, i) = m.at(i, j); return t; };
    struct H { Model e; const Matrix* m; string d; }; vector<H> held;
    auto all = [&](const string& what) { for (auto& h : held) same(*h.m, h.e, "held", h.d + " after " + what); for (int i = 0; i < 3; ++i) same(*X[i], E[i], "operand", string(1, "abc"[i]) + " after " + what); };
    std::function<void(int)> go = [&](int left) {
      if (!left) return;
      int f = mc::choose(10), i = mc::choose(3), j = f < 3 ? mc::choose(3) : 0; string d; Model e;
      const Matrix &x = *X[i], &y = *X[j]; const string xs(1, "abc"[i]), ys(1, "abc"[j]);
      // the result lives as long as the scope it is bound in
      auto keep = [&](const Matrix& r, const string& what, const Model& want) {
        mc::step(); mc::tr([&] { return "hold " + what; }); mc::state(mc::Hash().add(n).add(what).add(held.size()).add(E[0].d).add(E[1].d).add(E[2].d));
        held.push_back({want, &r, what}); all(what);
        int k = held.size() == 3 ? 0 : mc::choose(3), o = k || held.size() < 3 ? mc::choose(3) : 0;
        if (k == 1) { X[o]->set_elem(50 + left, 1, 1); E[o].at(1, 1) = 50 + left; all("an entry of " + string(1, "abc"[o]) + " changed"); }
        if (k == 2) { *X[o] = *X[(o + 1) % 3]; E[o] = E[(o + 1) % 3]; all(string(1, "abc"[o]) + " was assigned"); }
        go(left - 1);
        all("the end"); held.pop_back();
      };
      if (f == 0) { const Matrix& r = x * y; keep(r, xs + "*" + ys, m_mul(E[i], E[j])); }
      else if (f == 1) { const Matrix& r = x * (y * x); keep(r, xs + "*(" + ys + "*" + xs + ")", m_mul(E[i], m_mul(E[j], E[i]))); }
      else if (f == 2) { const Matrix& r = (x * y) * (y * x); keep(r, "(" + xs + "*" + ys + ")*(" + ys + "*" + xs + ")", m_mul(m_mul(E[i], E[j]), m_mul(E[j], E[i]))); }
      else if (f == 3) { const Matrix& r = x.invert(); keep(r, xs + "^T", T(E[i])); }
      else if (f == 4) { const Matrix& r = Matrix_copy(x); keep(r, "copy of " + xs, E[i]); }
      else if (f == 5) { const Matrix& r = x.getRow(n); Model w(1, n); for (int q = 1; q <= n; ++q) w.at(1, q) = E[i].at(n, q); keep(r, "last row of " + xs, w); }
      else if (f == 6) { const Matrix& r = x.getCol(1); Model w(n, 1); for (int q = 1; q <= n; ++q) w.at(q, 1) = E[i].at(q, 1); keep(r, "first column of " + xs, w); }
      else if (f == 7) { const Matrix& r = Matrix_concatenate_rows(x, *X[(i + 1) % 3]); Model w(2 * n, n); for (int p = 1; p <= n; ++p) for (int q = 1; q <= n; ++q) { w.at(p, q) = E[i].at(p, q); w.at(n + p, q) = E[(i + 1) % 3].at(p, q); } keep(r, xs + " over the next", w); }
      else if (f == 8) { const Matrix& r = Matrix_concatenate_cols(x, *X[(i + 1) % 3]); Model w(n, 2 * n); for (int p = 1; p <= n; ++p) for (int q = 1; q <= n; ++q) { w.at(p, q) = E[i].at(p, q); w.at(p, n + q) = E[(i + 1) % 3].at(p, q); } keep(r, xs + " beside the next", w); }
      else { Model v(n, 1); for (int q = 1; q <= n; ++q) v.at(q, 1) = E[i].at(q, n); const Matrix& r = Matrix_diag(*build(v)); Model w(n, n); for (int q = 1; q <= n; ++q) w.at(q, q) = v.at(q, 1); keep(r, "diagonal", w); }
    };
    go(mc::bound(2, 3));
  });
}

// what the alignment functions return belongs to the caller, also where nothing moves
static void setup20_aligned() {
  mc::scenario("aligned", "up to 3 (thorough 4) atoms in every order, three patterns of functions per atom, coefficients and overlap, one and two lists: the same alignment requested twice, then an edit of either result or of the given matrix, which must not show in the other two", [] {
    int n = 1 + mc::choose(mc::bound(3, 4)); vector<int> perm(n), left; for (int i = 0; i < n; ++i) left.push_back(i + 1);
    for (int i = 0; i < n; ++i) { int k = mc::choose(n - i); perm[i] = left[k]; left.erase(left.begin() + k); }
    int pat = mc::choose(3), f = mc::choose(2), split = mc::choose(n), edit = mc::choose(3);
    vector<int> b(n); int N = 0; for (int i = 0; i < n; ++i) N += b[i] = pat == 0 ? 1 : pat == 1 ? 2 : 1 + i % 3;
    Model m = numbered(f ? N : 2, N); Matrix& x = *build(m); vector<int> l1(perm.begin(), perm.begin() + split), l2(perm.begin() + split, perm.end());
    auto call = [&]() -> Matrix* { if (f == 0) return split ? unscramble_Coef(l1, l2, b, &x) : unscramble_Coef(perm, b, &x); return split ? unscramble_S(l1, l2, b, &x) : unscramble_S(perm, b, &x); };
    mc::state(mc::Hash().add(perm).add(b).add(f).add(split)); mc::tr([&] { string s = f ? "overlap" : "coefficients"; for (int i : perm) s += " " + to_string(i); return s + " split after " + to_string(split); });
    Matrix *r = nullptr, *q = nullptr; mc::Attempt a = mc::attempt([&] { r = call(); q = call(); }); mc::step(2);
    mc::check(a.ok() && r && q, "refused", [&] { return "an alignment was " + a.str(); });
    same(x, m, "independence", "the given matrix after its alignment");
    Model e = observe(*r), g = observe(*q); mc::check(e == g, "independence", [] { return string("the same alignment gives two different results"); });
    if (edit == 0) { r->set_elem(-9, 1, 1); e.at(1, 1) = -9; } else if (edit == 1) { q->set_elem(-9, 2 > g.r ? 1 : 2, N); g.at(2 > g.r ? 1 : 2, N) = -9; } else { x.set_elem(-9, 1, N); m.at(1, N) = -9; }
    same(x, m, "independence", "the given matrix after an edit"); same(*r, e, "independence", "the first result after an edit"); same(*q, g, "independence", "the second result after an edit"); mc::step();
  });
}

static void setup20_large() {
  mc::scenario("large", "every ordered pair of 7 shapes from 1x1 to 257x3 and 65x65: copy-construct, assign (to smaller, equal and larger), pass by value, store in a vector, hold a product: contents equal and independent afterwards", [] {
    static const int sh[][3] = {{1, 1, 1}, {16, 16, 1}, {33, 33, 1}, {65, 65, 1}, {257, 3, 1}, {2, 101, 1}, {33, 9, 3}}; const int *p = sh[mc::choose(7)], *q = sh[mc::choose(7)]; int op = mc::choose(6); Model a = numbered(p[0], p[1], p[2]), b = numbered(q[0], q[1], q[2], 70000); std::unique_ptr<Matrix> A(build(a)), B(build(b)), R;
    string what = "operation " + to_string(op) + " on " + to_string(a.r) + "x" + to_string(a.c) + "x" + to_string(a.s) + " and " + to_string(b.r) + "x" + to_string(b.c) + "x" + to_string(b.s); mc::state(mc::Hash().add(what)); mc::tr([&] { return what; });
    Model want = a;
    mc::Attempt at = mc::attempt([&] {
      if (op == 0) R.reset(new Matrix(*A));
      else if (op == 1) { *B = *A; R.reset(new Matrix(*B)); b = a; }
      else if (op == 2) { if (a.s == 1) { R.reset(new Matrix(by_value(*A))); want.at(1, 1) = -77; if (want.r > 1) for (int j = 1; j <= want.c; ++j) std::swap(want.at(1, j), want.at(2, j)); } else R.reset(new Matrix(*A)); }
      else if (op == 3) { vector<Matrix> v; v.push_back(*A); v.push_back(*B); v.push_back(*A); v[0].set_elem(-1, a.r, a.c, a.s); v.insert(v.begin(), *B); R.reset(new Matrix(v[3])); }
      else if (op == 4) { Matrix t(*B); t = *A; t = *B; t = *A; R.reset(new Matrix(t)); }
      else { Matrix t(*A); *A = *B; R.reset(new Matrix(t)); a = b; }
    });
    mc::step(); mc::check(at.ok(), "refused", [&] { return what + " was " + at.str(); });
    auto is = [&](const Matrix& m, const Model& e, const char* n) { mc::check(observe(m) == e, "independence", [&] { return what + ": " + n + " differs"; }); };
    if (R) { is(*R, want, "the copy"); R->set_elem(-5, want.r, want.c, want.s); is(*A, a, "the original after the copy changed"); is(*B, b, "the other matrix after the copy changed"); want.at(want.r, want.c, want.s) = -5; A->set_elem(-6, 1, 1); B->set_elem(-7, 1, 1); is(*R, want, "the copy after the originals changed"); }
    else { is(*A, a, "first"); is(*B, b, "second"); }
  });
}

// -------------------------------------------------- bounds (C21) ---
static void setup21() {
  mc::scenario("element-access", "every shape up to 4x4x3 plus the empty matrices, every accessor, every index -2..n+2 and +-1000000", [] {
    int w = mc::choose(4); Model e; Matrix* p;
    if (w == 0) { int r = 1 + mc::choose(4), c = 1 + mc::choose(4), s = 1 + mc::choose(3); e = numbered(r, c, s); p = build(e); }
    else if (w == 1) { e = Model(0, 0, 0); p = new Matrix(0); }
    else if (w == 2) { int r = 1 + mc::choose(2); e = numbered(r, 2); p = build(e); p->set_rows(0); e = e.reshaped(0, 2, 1); }
    else { e = numbered(2, 2); p = build(e); p->set_cols(0); e = e.reshaped(2, 0, 1); }
    Matrix& m = *p;
    auto idx = [](int n) { int k = mc::choose(n + 7); return k < n ? k + 1 : k == n ? n + 1 : k == n + 1 ? 0 : k == n + 2 ? -1 : k == n + 3 ? n + 2 : k == n + 4 ? -2 : k == n + 5 ? 1000000 : -1000000; };
    int acc = mc::choose(16); int r = 1, c = 1, s = 1; bool in = e.r >= 1 && e.c >= 1 && e.s >= 1; string n; Model after = e; double got = 0, want = 0; bool reads = false;
    auto inr = [&] { return r >= 1 && r <= e.r; }; auto inc = [&] { return c >= 1 && c <= e.c; }; auto ins = [&] { return s >= 1 && s <= e.s; };
    mc::Attempt a;
    switch (acc) {
      case 0: n = "get_elem()"; if (in) want = e.at(1, 1); reads = true; a = mc::attempt([&] { got = m.get_elem(); }); break;
      case 1: r = idx(e.r); n = "get_elem(r)"; in = in && inr(); if (in) want = e.at(r, 1); reads = true; a = mc::attempt([&] { got = m.get_elem(r); }); break;
      case 2: r = idx(e.r); c = idx(e.c); n = "get_elem(r,c)"; in = in && inr() && inc(); if (in) want = e.at(r, c); reads = true; a = mc::attempt([&] { got = m.get_elem(r, c); }); break;
      case 3: r = idx(e.r); c = idx(e.c); s = idx(e.s); n = "get_elem(r,c,s)"; in = in && inr() && inc() && ins(); if (in) want = e.at(r, c, s); reads = true; a = mc::attempt([&] { got = m.get_elem(r, c, s); }); break;
      case 4: n = "set_elem(v)"; if (in) after.at(1, 1) = -3; a = mc::attempt([&] { m.set_elem(-3); }); break;
      case 5: r = idx(e.r); n = "set_elem(v,r)"; in = in && inr(); if (in) after.at(r, 1) = -3; a = mc::attempt([&] { m.set_elem(-3, r); }); break;
      case 6: r = idx(e.r); c = idx(e.c); n = "set_elem(v,r,c)"; in = in && inr() && inc(); if (in) after.at(r, c) = -3; a = mc::attempt([&] { m.set_elem(-3, r, c); }); break;
      case 7: r = idx(e.r); c = idx(e.c); s = idx(e.s); n = "set_elem(v,r,c,s)"; in = in && inr() && inc() && ins(); if (in) after.at(r, c, s) = -3; a = mc::attempt([&] { m.set_elem(-3, r, c, s); }); break;
      case 8: r = idx(e.r); c = idx(e.c); n = "get_elem_ptr"; in = in && inr() && inc(); if (in) want = e.at(r, c); reads = true; a = mc::attempt([&] { double* q = m.get_elem_ptr(r, c); got = *q; }); break;
      case 9: r = idx(e.r); n = "get_row"; in = in && inr(); if (in) want = e.at(r, e.c); reads = true; if (inr() && (e.c < 1 || e.s < 1)) return; a = mc::attempt([&] { vector<double> v = m.get_row(r); got = v.back(); }); break;
      case 10: c = idx(e.c); n = "get_col"; in = in && inc(); if (in) want = e.at(e.r, c); reads = true; if (inc() && (e.r < 1 || e.s < 1)) return; a = mc::attempt([&] { vector<double> v = m.get_col(c); got = v.back(); }); break;
      case 11: { r = idx(e.r); int len = mc::choose(e.c + 3); n = "set_row len " + to_string(len); if (e.c < 1 || e.s < 1) return; in = in && inr() && len == e.c; vector<double> v(len, -4.0); if (in) for (int j = 1; j <= e.c; ++j) after.at(r, j) = -4; a = mc::attempt([&] { m.set_row(v, r); }); break; }
      case 12: { c = idx(e.c); int len = mc::choose(e.r + 3); n = "set_col len " + to_string(len); if (e.r < 1 || e.s < 1) return; in = in && inc() && len == e.r; vector<double> v(len, -4.0); if (in) for (int i = 1; i <= e.r; ++i) after.at(i, c) = -4; a = mc::attempt([&] { m.set_col(v, c); }); break; }
      case 13: r = idx(e.r); n = "getRow"; in = in && inr(); if (in) want = e.at(r, 1); reads = true; a = mc::attempt([&] { got = m.getRow(r).get_elem(1, 1); }); break;
      case 14: c = idx(e.c); n = "getCol"; in = in && inc(); if (in) want = e.at(1, c); reads = true; a = mc::attempt([&] { got = m.getCol(c).get_elem(1, 1); }); break;
      case 15: { int d = mc::choose(5); static const int bad[] = {-1, -2, -1000000}; int k = mc::choose(3); in = false; n = "dimension change to " + to_string(bad[k]);
        a = mc::attempt([&] { if (d == 0) m.set_rows(bad[k]); else if (d == 1) m.set_cols(bad[k]); else if (d == 2) m.set_shel(bad[k]); else if (d == 3) m.resize(bad[k], 1); else m.resize(1, bad[k]); }); break; }
    }
    mc::step();
    mc::state(mc::Hash().add(e.r).add(e.c).add(e.s).add(acc).add(r).add(c).add(s).add(n));
    mc::tr([&] { return e.str() + " " + n + " r=" + to_string(r) + " c=" + to_string(c) + " s=" + to_string(s) + " -> " + a.str(); });
    if (in) { mc::check(a.ok(), "in-range refused", [&] { return n + " in range was " + a.str(); }); if (reads) mc::check(got == want, "wrong value", [&] { return n + " read " + to_string(got) + " expected " + to_string(want); }); }
    else mc::check(a.refused(), "out-of-range accepted", [&] { return n + " r=" + to_string(r) + " c=" + to_string(c) + " s=" + to_string(s) + " on " + e.str() + " was " + a.str(); });
    mc::outcome(string(in ? "in range " : "out of range ") + (a.ok() ? "accepted" : "refused"));
    same(m, after, "memory changed", "after " + n + " r=" + to_string(r) + " c=" + to_string(c) + " s=" + to_string(s));
  });
  mc::scenario("move-swap", "every shape up to 4x4, move and swap of rows and columns with every pair of indices 0..n+1 and -1", [] {
    int r = 1 + mc::choose(4), c = 1 + mc::choose(4); Model e = numbered(r, c), after = e; Matrix& m = *build(e);
    int k = mc::choose(4); int n = (k & 1) ? c : r;
    auto idx = [&] { int q = mc::choose(n + 3); return q < n ? q + 1 : q == n ? n + 1 : q == n + 1 ? 0 : -1; };
    int a = idx(), b = idx(); bool in = a >= 1 && a <= n && b >= 1 && b <= n;
    Op o{k == 0 ? MVROW : k == 1 ? MVCOL : k == 2 ? SWROW : SWCOL, a, b};
    if (in) apply(o, after, 0);
    mc::Attempt at = mc::attempt([&] { apply(o, m, 0); });
    mc::step(); mc::state(mc::Hash().add(r).add(c).add(k).add(a).add(b));
    mc::tr([&] { return e.str() + " " + opstr(o) + " -> " + at.str(); });
    mc::outcome(string(in ? "in range " : "out of range ") + (at.ok() ? "accepted" : "refused"));
    if (in) mc::check(at.ok(), "in-range refused", [&] { return opstr(o) + " was " + at.str(); });
    else mc::check(at.refused(), "out-of-range accepted", [&] { return opstr(o) + " on " + e.str() + " was " + at.str(); });
    same(m, after, "memory changed", "after " + opstr(o));
  });
}

static void setup21_large() {
  mc::scenario("large", "33x40, 64x64, 130x2, 2x130, 257x1, 20x20x3: single-element accessors, rows and columns, moves and swaps with indices -1000000, -1, 0, 1, the middle, n-1, n, n+1, 2n, another dimension's size, n*m, 1000000", [] {
    static const int sh[][3] = {{33, 40, 1}, {64, 64, 1}, {130, 2, 1}, {2, 130, 1}, {257, 1, 1}, {20, 20, 3}}; const int* q = sh[mc::choose(6)]; Model e = numbered(q[0], q[1], q[2]); std::unique_ptr<Matrix> p(build(e)); Matrix& m = *p;
    auto idx = [&](int n, int other) { return mc::pick(vector<int>{-1000000, -1, 0, 1, n / 2, n - 1, n, n + 1, 2 * n, other + n, n * other + n + 1, 1000000}); };
    int acc = mc::choose(12), r = 1, c = 1, k = 1; bool in = true; double got = 0, want = 0; bool reads = false; mc::Attempt a; Model after = e;
    auto ok = [](int x, int n) { return x >= 1 && x <= n; };
    switch (acc) {
      case 0: r = idx(e.r, e.c); c = idx(e.c, e.r); k = e.s > 1 ? idx(e.s, e.c) : 1; in = ok(r, e.r) && ok(c, e.c) && ok(k, e.s); reads = true; if (in) want = e.at(r, c, k); a = mc::attempt([&] { got = m.get_elem(r, c, k); }); break;
      case 1: r = idx(e.r, e.c); c = idx(e.c, e.r); k = e.s > 1 ? idx(e.s, e.c) : 1; in = ok(r, e.r) && ok(c, e.c) && ok(k, e.s); if (in) after.at(r, c, k) = -3; a = mc::attempt([&] { m.set_elem(-3, r, c, k); }); break;
      case 2: r = idx(e.r, e.c); c = idx(e.c, e.r); in = ok(r, e.r) && ok(c, e.c); reads = true; if (in) want = e.at(r, c); a = mc::attempt([&] { got = *m.get_elem_ptr(r, c); }); break;
      case 3: r = idx(e.r, e.c); in = ok(r, e.r); reads = true; if (in) want = e.at(r, e.c); a = mc::attempt([&] { got = m.get_row(r).back(); }); break;
      case 4: c = idx(e.c, e.r); in = ok(c, e.c); reads = true; if (in) want = e.at(e.r, c); a = mc::attempt([&] { got = m.get_col(c).back(); }); break;
      case 5: r = idx(e.r, e.c); in = ok(r, e.r); reads = true; if (in) want = e.at(r, e.c, e.s); a = mc::attempt([&] { got = m.getRow(r).get_elem(1, e.c, e.s); }); break;
      case 6: c = idx(e.c, e.r); in = ok(c, e.c); reads = true; if (in) want = e.at(e.r, c, e.s); a = mc::attempt([&] { got = m.getCol(c).get_elem(e.r, 1, e.s); }); break;
      case 7: { r = idx(e.r, e.c); int len = mc::pick(vector<int>{e.c - 1, e.c, e.c + 1}); in = ok(r, e.r) && len == e.c; if (in) for (int j = 1; j <= e.c; ++j) after.at(r, j) = -4; vector<double> v(len, -4.); a = mc::attempt([&] { m.set_row(v, r); }); break; }
      case 8: { c = idx(e.c, e.r); int len = mc::pick(vector<int>{e.r - 1, e.r, e.r + 1}); in = ok(c, e.c) && len == e.r; if (in) for (int i = 1; i <= e.r; ++i) after.at(i, c) = -4; vector<double> v(len, -4.); a = mc::attempt([&] { m.set_col(v, c); }); break; }
      case 9: case 10: { bool rows = mc::flip(); r = idx(rows ? e.r : e.c, 7); c = idx(rows ? e.r : e.c, 7); int n = rows ? e.r : e.c; in = ok(r, n) && ok(c, n); Op o{acc == 9 ? (rows ? MVROW : MVCOL) : rows ? SWROW : SWCOL, r, c}; if (e.s > 1) { mc::outcome("shelves: not defined"); return; } if (in) apply(o, after, 0); a = mc::attempt([&] { apply(o, m, 0); }); break; }
      default: r = idx(e.r, e.c); in = ok(r, e.r); reads = true; if (in) want = e.at(r, 1); a = mc::attempt([&] { got = m.get_elem(r); }); break;
    }
    string what = "accessor " + to_string(acc) + " r=" + to_string(r) + " c=" + to_string(c) + " s=" + to_string(k) + " on " + to_string(e.r) + "x" + to_string(e.c) + "x" + to_string(e.s); mc::step(); mc::state(mc::Hash().add(what)); mc::tr([&] { return what + " -> " + a.str(); });
    if (in) { mc::check(a.ok(), "in-range refused", [&] { return what + " was " + a.str(); }); if (reads) mc::check(got == want, "wrong value", [&] { return what + " read " + to_string(got) + ", expected " + to_string(want); }); }
    else mc::check(a.refused(), "out-of-range accepted", [&] { return what + " was " + a.str(); });
    mc::check(observe(m) == after, "memory changed", [&] { return what + " left other contents than expected"; }); mc::outcome(string(in ? "in range " : "out of range ") + (a.ok() ? "accepted" : "refused"));
  });
}

// -------------------------------------------------- matching (C07) ---
static bool agree(double a, double b, int d) { double p = 1; for (int i = 0; i < d; ++i) p *= 10; return std::llround(a * p) == std::llround(b * p); }
// numbers close to k/10^d but never close to a rounding boundary
static void match_check(const Model& A, const Model& B, int sf, bool rows) {
  Matrix &ma = *build(A), &mb = *build(B);
  vector<int> got;
  mc::Attempt a = mc::attempt([&] { got = rows ? ma.matchRow(mb, sf) : ma.matchCol(mb, sf); });
  mc::step();
  int nA = rows ? A.r : A.c, nB = rows ? B.r : B.c, lA = rows ? A.c : A.r, lB = rows ? B.c : B.r;
  mc::tr([&] { string s; for (int g : got) s += to_string(g) + " "; return string(rows ? "matchRow " : "matchCol ") + A.str() + " against " + B.str() + " decimals " + to_string(sf) + " -> " + a.str() + " " + s; });
  if (lA != lB) mc::check(a.refused(), "lengths", [&] { return "vectors of different lengths: " + a.str(); });
  else {
    mc::check(a.ok(), "refused", [&] { return "matching was " + a.str(); });
    mc::check((int)got.size() == nA, "size", [&] { return "result has " + to_string(got.size()) + " entries, expected " + to_string(nA); });
    for (int i = 1; i <= nA; ++i) {
      std::set<int> ok;
      for (int k = 1; k <= nB; ++k) { bool m = true; for (int j = 1; j <= lA && m; ++j) m = agree(rows ? A.at(i, j) : A.at(j, i), rows ? B.at(k, j) : B.at(j, k), sf); if (m) ok.insert(k); }
      int g = got[i - 1];
      mc::check(ok.empty() ? g == -1 : ok.count(g) == 1, "match", [&] { return string(rows ? "row " : "column ") + to_string(i) + " of " + A.str() + " against " + B.str() + " at " + to_string(sf) + " decimals: reported " + to_string(g) + ", " + (ok.empty() ? "none matches" : "first true match is " + to_string(*ok.begin())); });
      mc::outcome(ok.empty() ? "no match" : ok.size() > 1 ? "ambiguous" : "unique");
    }
  }
  same(ma, A, "operand changed", "left"); same(mb, B, "operand changed", "right");
}
static void setup07() {
  mc::scenario("two-values", "1x1 against 1x1, every pair of an alphabet of 43 values (zeros of both signs, tiny, negative, large, neighbours at each decimal) and every number of decimals 0..8, rows and columns", [] {
    static const double V[] = {0.0, -0.0, 0.000012, -0.000012, 0.000074, -0.000074, 0.4, -0.4, 0.6, 1.0, -1.0, 1.00002, 1.00008, 1.0001, 1.00012, 0.99996, 0.9999, 1.2345, 1.2346, -1.2345, 12.3456, 12.3457, 99.9999, 100.0, 100.0001, 123.4561, 123.4564, 123.4568, -123.4561, -123.4564, 999.99991, 999.99999, 1000.0, 1234.56781, 1234.56789, -1234.56781, 54321.1234, 54321.1238, 3.14159265, 3.14159263, 0.00000042, -0.00000042, 0.0000003};
    const int N = sizeof V / sizeof *V;
    int i = mc::choose(N), j = mc::choose(N), sf = mc::choose(9); bool rows = mc::flip();
    Model A(1, 1), B(1, 1); A.d[0] = V[i]; B.d[0] = V[j];
    mc::state(mc::Hash().add(i).add(j).add(sf).add(rows));
    match_check(A, B, sf, rows);
  });
  mc::scenario("grid", "value pairs k/10^d + x with k in -12..12, x in {0, +-0.3, +-0.49} ulps of the last decimal, against j/10^d + y, |k-j| <= 1, offsets 0, 7, 130, 2500, decimals 0..6", [] {
    int d = mc::choose(7); double p = std::pow(10.0, d);
    static const double off[] = {0, 7, 130, 2500, -7, -130}; static const double X[] = {0, 0.3, -0.3, 0.49, -0.49};
    double o = off[mc::choose(6)]; int k = mc::choose(25) - 12, j = k + mc::choose(3) - 1; double x = X[mc::choose(5)], y = X[mc::choose(5)];
    bool rows = mc::flip();
    Model A(1, 1), B(1, 1); A.d[0] = o + (k + x) / p; B.d[0] = o + (j + y) / p;
    mc::state(mc::Hash().add(A.d[0]).add(B.d[0]).add(d).add(rows));
    match_check(A, B, d, rows);
  });
  mc::scenario("rectangles", "A with 1..3 rows and B with 1..3 rows of 1..2 entries over {0, 1, -0.00001}, every assignment; rows and columns; 4 decimals", [] {
    int n = 1 + mc::choose(mc::bound(2, 3)), m = 1 + mc::choose(3), l = 1 + mc::choose(2); bool rows = mc::flip();
    static const double V[] = {0, 1, -0.00001};
    Model A = rows ? Model(n, l) : Model(l, n), B = rows ? Model(m, l) : Model(l, m);
    for (double& x : A.d) x = V[mc::choose(l == 2 ? 2 : 3)];
    for (double& x : B.d) x = V[mc::choose(3)];
    mc::state(mc::Hash().add(n).add(m).add(l).add(rows).add(A.d).add(B.d));
    match_check(A, B, 4, rows);
  });
  mc::scenario("lengths", "every pair of shapes up to 4x4: refused exactly when the vector lengths differ", [] {
    int a = 1 + mc::choose(4), b = 1 + mc::choose(4), c = 1 + mc::choose(4), d = 1 + mc::choose(4); bool rows = mc::flip();
    mc::state(mc::Hash().add(a).add(b).add(c).add(d).add(rows));
    Model A = numbered(a, b), B = numbered(c, d);
    match_check(A, B, 4, rows);
  });
  mc::scenario("atoms", "three coordinates, 1..6 atoms (thorough 7) in every order against a list of 1..3 more atoms, coordinates differing in one component only, 4 decimals", [] {
    int n = 1 + mc::choose(mc::bound(5, 6)); int extra = mc::choose(3);
    static const double P[][3] = {{0, 0, 0}, {0, 0, 1.0892}, {0, 1.0892, 0}, {1.0892, 0, 0}, {0, 0, 1.0893}, {101.2345, -101.2345, 0}, {101.2346, -101.2345, 0}, {101.2345, -101.2346, 0.0001}, {-0.7071, 2.1304, -3.5}};
    vector<int> perm; for (int i = 0; i < n; ++i) perm.push_back(i);
    vector<int> ord; while (!perm.empty()) { int k = mc::choose((int)perm.size()); ord.push_back(perm[k]); perm.erase(perm.begin() + k); }
    Model A(3, n), B(3, n + extra);
    for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) A.at(k + 1, i + 1) = P[i][k];
    for (int i = 0; i < n + extra; ++i) for (int k = 0; k < 3; ++k) B.at(k + 1, i + 1) = i < n ? P[ord[i]][k] : P[n + (i - n)][k];
    // round-off of the other file
    for (int i = 0; i < n; ++i) for (int k = 0; k < 3; ++k) B.at(k + 1, i + 1) += (i % 2 ? 1 : -1) * 0.00002;
    mc::state(mc::Hash().add(A.d).add(B.d));
    bool tr = mc::flip();
    if (tr) { auto T = [](const Model& m) { Model t(m.c, m.r); for (int i = 1; i <= m.r; ++i) for (int j = 1; j <= m.c; ++j) t.at(j, i) = m.at(i, j); return t; }; match_check(T(A), T(B), 4, true); }
    else match_check(A, B, 4, false);
  });
  mc::scenario("large", "20, 33, 65 or 130 vectors (thorough also 257) of 3 or 40 entries against the same list reversed, rotated, strided or with one vector missing, moved by one unit of the last decimal in one entry, or repeated; round-off below the decimals; rows and columns; 4 and 2 decimals", [] {
    int n = mc::thorough() ? mc::pick(vector<int>{20, 33, 65, 130, 257}) : mc::pick(vector<int>{20, 33, 65, 130}), l = n > 100 ? 3 : mc::pick(vector<int>{3, 40}), ord = mc::choose(4), kind = mc::choose(5), at = kind < 1 ? 0 : mc::pick(vector<int>{0, 1, n / 2, n - 2, n - 1}), sf = mc::flip() ? 4 : 2; bool rows = mc::flip();
    double u = sf == 4 ? .0001 : .01; mc::state(mc::Hash().add(n).add(l).add(ord).add(kind).add(at).add(sf).add((int)rows));
    vector<vector<double>> a(n, vector<double>(l)), b; for (int i = 0; i < n; ++i) for (int j = 0; j < l; ++j) a[i][j] = u * ((j == i % l ? i / l : 3 * j) + 17 * (j % 5) - 60);
    for (int i = 0; i < n; ++i) a[i][0] += u * 3 * (i % l) - (i % 7) * 12.5;
    for (int i = 0; i < n; ++i) b.push_back(a[ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i + n / 3) % n : (i * 7 + 3) % n]);
    if (kind == 1) b.erase(b.begin() + at); if (kind == 2) b[at][l - 1] += u; if (kind == 3) b[at] = b[(at + 3) % n]; if (kind == 4) { b.insert(b.begin() + at, vector<double>(l, 999.5)); }
    for (size_t i = 0; i < b.size(); ++i) for (double& x : b[i]) x += (i % 2 ? .2 : -.2) * u;
    Model A = rows ? Model(n, l) : Model(l, n), B = rows ? Model((int)b.size(), l) : Model(l, (int)b.size());
    for (int i = 0; i < n; ++i) for (int j = 0; j < l; ++j) (rows ? A.at(i + 1, j + 1) : A.at(j + 1, i + 1)) = a[i][j]; for (size_t i = 0; i < b.size(); ++i) for (int j = 0; j < l; ++j) (rows ? B.at((int)i + 1, j + 1) : B.at(j + 1, (int)i + 1)) = b[i][j];
    match_check(A, B, sf, rows);
  });
  mc::scenario("magnitudes", "1x1 against 1x1: 5 mantissas times 29 powers of ten from 1e-12 to 1e308, against itself, its negative, ten times it, one to three units of the last decimal away and one to four representable numbers away, 0..8 and 12 decimals, rows and columns; pairs whose agreement depends on less than a representable step are open", [] {
    static const double M[] = {1, 1.5, 1.23456789012345, 4.4999, 9.9999}; static const int X[] = {-12, -9, -8, -6, -5, -4, -2, -1, 0, 1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18, 20, 100, 300, 304, 307};
    double a = M[mc::choose(5)] * std::pow(10., X[mc::choose(29)]), b = a; int k = mc::choose(12), sf = mc::pick(vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 12}); bool rows = mc::flip(); double u = std::pow(10., -sf), inf = std::numeric_limits<double>::infinity();
    if (k == 1) b = -a; else if (k == 2) b = 10 * a; else if (k < 6) b = a + (k - 2) * u; else if (k < 8) b = a - (k - 5) * u; else for (int i = 7; i < k; ++i) b = std::nextafter(b, inf);
    if (b > std::numeric_limits<double>::max()) b = a / 10;
    auto text = [&](double v) { char buf[512]; snprintf(buf, sizeof buf, "%.*f", sf, v); string s = buf; return s.find_first_of("123456789") == string::npos && s[0] == '-' ? s.substr(1) : s; };
    // the decimals of the exact binary value and of its neighbours
    bool all = true, none = true; for (double p : {std::nextafter(a, -inf), a, std::nextafter(a, inf)}) for (double q : {std::nextafter(b, -inf), b, std::nextafter(b, inf)}) { bool e = text(p) == text(q); all = all && e; none = none && !e; }
    bool must = a == b || all, open = !must && !none;
    Matrix m(1, 1), n(1, 1); m.set_elem(a, 1, 1); n.set_elem(b, 1, 1); vector<int> got; mc::Attempt at = mc::attempt([&] { got = rows ? m.matchRow(n, sf) : m.matchCol(n, sf); }); mc::step();
    auto d = [&] { char buf[128]; snprintf(buf, sizeof buf, "%.17g against %.17g at %d decimals: ", a, b, sf); return string(buf) + at.str() + (got.size() == 1 ? " " + to_string(got[0]) : "") + (must ? ", they agree" : open ? ", open" : ", they differ"); };
    mc::state(mc::Hash().add(a).add(b).add(sf).add((int)rows)); mc::tr(d); mc::check(at.ok() && got.size() == 1, "refused", d); mc::outcome(must ? "agree" : open ? "open" : "differ");
    mc::check(got[0] == (must ? 1 : -1) || (open && got[0] == 1), "match", d);
  });
  mc::scenario("shelves", "matching matrices with several shelves is refused", [] {
    int s1 = 1 + mc::choose(2), s2 = 1 + mc::choose(2); bool rows = mc::flip();
    if (s1 == 1 && s2 == 1) return;
    Matrix a(2, 2, s1), b(2, 2, s2); mc::state(mc::Hash().add(s1).add(s2).add(rows));
    mc::tr([&] { return "shelves " + to_string(s1) + " " + to_string(s2); });
    mc::Attempt at = mc::attempt([&] { if (rows) a.matchRow(b, 4); else a.matchCol(b, 4); }); mc::step();
    mc::check(at.refused(), "3d", [&] { return "matching 3d matrices was " + at.str(); });
  });
}

// -------------------------------------------------- findRank (C23) ---
static void rank_check(const vector<double>& al, const vector<double>& be) {
  Matrix A = al.empty() ? Matrix(0) : Matrix(al), B = be.empty() ? Matrix(0) : Matrix(be);
  std::unordered_map<int, std::pair<double, string>> r;
  mc::Attempt a = mc::attempt([&] { r = findRank(A, B); }); mc::step();
  auto desc = [&] { std::ostringstream o; o << "alpha:"; for (double x : al) o << " " << x; o << " beta:"; for (double x : be) o << " " << x; o << " -> " << a.str(); for (size_t i = 1; i <= r.size(); ++i) if (r.count((int)i)) o << " [" << i << ":" << r[i].first << " " << r[i].second << "]"; return o.str(); };
  mc::tr(desc);
  mc::check(a.ok(), "refused", desc);
  size_t n = al.size() + be.size();
  mc::check(r.size() == n, "count", desc);
  vector<std::pair<double, string>> want, got;
  for (double x : al) want.push_back({x, "Alpha"}); for (double x : be) want.push_back({x, "Beta"});
  double last = 0;
  for (size_t i = 1; i <= n; ++i) { mc::check(r.count((int)i) == 1, "ranks", desc); got.push_back(r[(int)i]); if (i > 1) mc::check(got.back().first >= last, "order", desc); last = got.back().first; }
  std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
  mc::check(want == got, "multiset", desc);
}
static void setup23() {
  mc::scenario("small", "every alpha list of 1..4 and beta list of 0..3 (thorough 0..4) energies over {-2, -0.5, 0, 1.5}", [] {
    static const double V[] = {-2, -0.5, 0, 1.5};
    int n = 1 + mc::choose(4), m = mc::choose(mc::bound(4, 5)); vector<double> a, b;
    for (int i = 0; i < n; ++i) a.push_back(V[mc::choose(4)]);
    for (int i = 0; i < m; ++i) b.push_back(V[mc::choose(4)]);
    mc::state(mc::Hash().add(a).add(b)); rank_check(a, b);
  });
  mc::scenario("permutations", "every order of 7 (thorough 8) distinct energies split at every point between the spins", [] {
    int N = mc::bound(7, 8); vector<double> p; for (int i = 0; i < N; ++i) p.push_back(i * 0.1 - 0.35);
    vector<double> o; while (!p.empty()) { int k = mc::choose((int)p.size()); o.push_back(p[k]); p.erase(p.begin() + k); }
    int cut = 1 + mc::choose(N); vector<double> a(o.begin(), o.begin() + cut), b(o.begin() + cut, o.end());
    mc::state(mc::Hash().add(a).add(b)); rank_check(a, b);
  });
  mc::scenario("large", "list lengths 1, 63..65, 99..101, 127..129, 255..257 and 1000 on either side, rising, falling, interleaved, with runs of equal energies within and between the spins", [] {
    static const vector<int> L{1, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000}; int n = mc::pick(L), m = mc::choose(15), kind = mc::choose(5); m = m == 14 ? 0 : L[m]; vector<double> a, b; mc::state(mc::Hash().add(n).add(m).add(kind));
    for (int i = 0; i < n; ++i) a.push_back(kind == 0 ? i * .01 - 3 : kind == 1 ? -i * .01 : kind == 2 ? ((i * 7) % 50) * .5 - 9 : kind == 3 ? (i * 37 % n) * .11 - 20 : -1.5 - i / 10); for (int i = 0; i < m; ++i) b.push_back(kind == 0 ? i * .01 - 2.995 : kind == 1 ? -i * .01 - .005 : kind == 2 ? ((i * 11) % 50) * .5 - 9 : kind == 3 ? (i * 41 % m) * .13 - 25 : -1.5 - i / 7);
    rank_check(a, b);
  });
  mc::scenario("sizes", "every pair of list lengths 1..40 and 0..40", [] {
    int n = 1 + mc::choose(40), m = mc::choose(41); vector<double> a, b;
    for (int i = 0; i < n; ++i) a.push_back(((i * 29) % 83) * 0.37 - 11); for (int i = 0; i < m; ++i) b.push_back(((i * 31) % 79) * 0.37 - 10.93);
    mc::state(mc::Hash().add(n).add(m)); rank_check(a, b);
  });
}

// ---------------------------------------------------------------- C28 ---
struct Format { const char* name; void (*set)(std::ostream&); };
static const Format kFormats[] = {{"as a new stream", [](std::ostream&) {}}, {"precision 3", [](std::ostream& o) { o.precision(3); }}, {"precision 17", [](std::ostream& o) { o.precision(17); }}, {"fixed, precision 8", [](std::ostream& o) { o << std::fixed; o.precision(8); }}, {"scientific", [](std::ostream& o) { o << std::scientific; }}};
// the words after the attributes: every shelf, in each of them every row followed by all of its entries as the stream writes numbers
static void check_printed(const string& out, const vector<Model>& es, const Format& f, const string& what) {
  std::istringstream is(out); vector<string> w; string x; while (is >> x) w.push_back(x); size_t q = 0; auto num = [&](double v) { std::ostringstream o; f.set(o); o << v; return o.str(); };
  auto bad = [&](const string& why) { mc::check(false, "printed", [&] { return what + " (" + f.name + "): " + why + "\n" + out.substr(0, 1500); }); };
  auto find = [&](const char* a, int n, bool fold) { string b = to_string(n); for (size_t i = q; i + 1 < w.size(); ++i) { string l = w[i]; if (fold) for (char& ch : l) ch = (char)tolower(ch); if (l == a && w[i + 1] == b) { q = i + 2; return true; } } return false; };
  for (auto& e : es) {
    if (!find("rows", e.r, true) || !find("cols", e.c, true) || !find("shel", e.s, true)) { bad("the shape " + to_string(e.r) + "x" + to_string(e.c) + "x" + to_string(e.s) + " is not printed"); return; }
    for (int k = 1; k <= e.s; ++k) { if (!find("Shelf", k, false)) { bad("shelf " + to_string(k) + " is not printed"); return; }
      for (int i = 1; i <= e.r; ++i) { if (!find("Row", i, false)) { bad("row " + to_string(i) + " of shelf " + to_string(k) + " is not printed"); return; }
        for (int j = 1; j <= e.c; ++j, ++q) if (q >= w.size() || w[q] != num(e.at(i, j, k))) { bad("entry " + to_string(i) + "," + to_string(j) + "," + to_string(k) + " is printed as " + (q < w.size() ? w[q] : "nothing") + ", it is " + num(e.at(i, j, k))); return; } } }
  }
}
static void printed_case(const vector<Model>& es, int fmt, const string& what) {
  const Format& f = kFormats[fmt]; std::ostringstream o; f.set(o); vector<std::unique_ptr<Matrix>> ms; for (auto& e : es) ms.emplace_back(build(e));
  mc::Attempt a = mc::attempt([&] { for (auto& m : ms) { std::ostream& r = o << *m; r << "\n"; } }); mc::step(); mc::check(a.ok(), "refused", [&] { return "printing " + what + " was " + a.str(); });
  check_printed(o.str(), es, f, what); for (size_t i = 0; i < es.size(); ++i) mc::check(observe(*ms[i]) == es[i], "changed", [&] { return "printing changed " + what; });
}
static void setup28() {
  mc::scenario("shapes", "every shape up to 5x5x4, with values all different, as five stream formats write numbers, alone or twice in one stream", [] {
    int r = 1 + mc::choose(5), c = 1 + mc::choose(5), s = 1 + mc::choose(4), f = mc::choose(5), n = 1 + mc::choose(2); vector<Model> es; for (int i = 0; i < n; ++i) { es.push_back(numbered(r, c, s, 100 * i)); if (f) for (double& x : es.back().d) x = x * .37 - 3; } mc::state(mc::Hash().add(r).add(c).add(s).add(f).add(n)); printed_case(es, f, es[0].str());
  });
  mc::scenario("values", "every 2x2 matrix and every 1x2x2 one of 7 values (zero, fractions, negative, tiny and huge numbers), five stream formats", [] {
    static const vector<double> V{0, 1, -1, .1, -123456.789, 1e-12, 3e200}; int f = mc::choose(5); bool cube = mc::flip(); Model e = cube ? Model(1, 2, 2) : Model(2, 2); for (double& x : e.d) x = mc::pick(V); mc::state(e.hash().add(f)); printed_case({e}, f, e.str());
  });
  mc::scenario("large", "9 shapes with up to 130 rows, columns or shelves", [] {
    static const int sh[][3] = {{9, 1, 1}, {10, 11, 1}, {1, 12, 2}, {65, 2, 1}, {2, 65, 1}, {101, 1, 1}, {1, 130, 1}, {2, 2, 33}, {1, 1, 101}}; int k = mc::choose(9); Model e = numbered(sh[k][0], sh[k][1], sh[k][2]); mc::state(mc::Hash().add(k)); printed_case({e}, 0, "a " + to_string(e.r) + "x" + to_string(e.c) + "x" + to_string(e.s) + " matrix");
  });
  mc::scenario("after-edits", "2x2x2 and 2x3 matrices, every pair of changes (one entry written, rows, columns or shelves added or removed, shape changed), printed before and after each", [] {
    bool cube = mc::flip(); Model e = cube ? numbered(2, 2, 2) : numbered(2, 3); std::unique_ptr<Matrix> m(build(e)); std::ostringstream all; vector<Model> es{e}; all << *m << "\n"; mc::Hash h; h.add((int)cube);
    for (int t = 0; t < 2; ++t) { int op = mc::choose(4), a = 1 + mc::choose(4); h.add(op).add(a); switch (op) { case 0: { int i = 1 + (a - 1) % e.r, j = 1 + (a - 1) % e.c, k = 1 + (a - 1) % e.s; m->set_elem(50 + a, i, j, k); e.at(i, j, k) = 50 + a; break; } case 1: m->set_rows(a); e = e.reshaped(a, e.c, e.s); break; case 2: m->set_cols(a); e = e.reshaped(e.r, a, e.s); break; default: m->set_shel(a); e = e.reshaped(e.r, e.c, a); } mc::step(); es.push_back(e); all << *m << "\n"; }
    mc::state(h); check_printed(all.str(), es, kFormats[0], es[0].str());
  });
}

static void setup() {
#if PROP == 18
  setup18(); setup18_large(); setup18_shelves();
#elif PROP == 19
  setup19(); setup19_large();
#elif PROP == 20
  setup20(); setup20_results(); setup20_large(); setup20_aligned();
#elif PROP == 21
  setup21(); setup21_large();
#elif PROP == 7
  setup07();
#elif PROP == 23
  setup23();
#elif PROP == 28
  setup28();
#endif
}
MC_MAIN(setup)
