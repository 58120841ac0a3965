// C22: option validators against a model of their settings, over every history of settings up to a depth.
#include "mc.hpp"
#include "gauss.hpp"
#include "argumentparser.hpp"
#include "arguments/argumentdouble.hpp"
#include "arguments/argumentfile.hpp"
#include "arguments/argumentint.hpp"
#include "arguments/argumentstring.hpp"
#include "arguments/argumentswitch.hpp"
#include "arguments/properties/propertydouble.hpp"
#include "arguments/properties/propertyfileexist.hpp"
#include "arguments/properties/propertyfileext.hpp"
#include "arguments/properties/propertyint.hpp"
#include "arguments/properties/propertysisterfile.hpp"
#include "arguments/properties/propertystring.hpp"
#include "arguments/properties/propertystringchoice.hpp"
#include "arguments/properties/propertyswitch.hpp"
#include <functional>
#include <limits>
#include <memory>
#include <set>
using namespace catnip; using std::string; using std::vector; using std::set; using std::map; using std::to_string; using std::function;
using gauss::put; using gauss::scratch; using gauss::fmt;

static string show(const string& s) { return "'" + s + "'"; }
static string show(const char* s) { return show(string(s)); }
static string show(int v) { return to_string(v); }
static string show(size_t v) { return to_string(v); }
static string show(double v) { return fmt("%.17g", v); }
static string show(const set<string>& v) { string r = "{"; for (auto& x : v) r += x + ","; return r + "}"; }
static string show(const vector<string>& v) { string r = "["; for (auto& x : v) r += x + ","; return r + "]"; }

// A history: each step applies one setting (or changes the world), then everything observable is verified.
struct Op { string name; bool ok; function<void()> set; function<void()> model; };
static void history(const vector<Op>& ops, int depth, const string& start, function<void(const string&)> verify, function<string()> state) {
  string what = start; mc::Hash h; h.add(start); verify(what); 
  for (int i = 0; i < depth; ++i) {
    const Op& o = ops[mc::choose((int)ops.size())]; what += "; " + o.name; h.add(o.name); mc::tr([&] { return o.name; }); mc::Attempt at = mc::attempt([&] { o.set(); }); mc::step();
    if (o.ok) { mc::check(at.ok(), "setting refused", [&] { return what + " was " + at.str(); }); o.model(); } else mc::check(at.refused(), "setting accepted", [&] { return what + " was " + at.str(); });
    verify(what); mc::state(mc::Hash().add(state()).add(i));
  }
}
template <class V, class F> static void judged(const string& what, const char* how, const V& v, bool want, F f) {
  bool got = false; mc::Attempt at = mc::attempt([&] { got = f(); }); mc::step(); mc::outcome(want ? "accepted" : "refused");
  mc::check(want ? at.ok() && got : at.refused() || (at.ok() && !got), want ? "rejected" : "accepted", [&] { return what + how + show(v) + (want ? " must be accepted but was " : " must be refused but was ") + (at.ok() ? (got ? "accepted" : "rejected") : at.str()); });
}

// ------------------------------------------------ a rule object on its own ---
template <class P, class S, class T> struct Rule {
  std::shared_ptr<P> p; std::shared_ptr<map<string, T>> m; string name; vector<S> probes; function<bool(map<string, T>&, const S&)> accept; vector<Op> ops;
  Rule(P* q, const string& n) : p(q), m(new map<string, T>), name(n) {}
  template <class V> void setting(const string& opt, const V& v, bool ok, const T& stored) { auto pp = p; auto mm = m; ops.push_back({opt + "=" + show(v), ok, [pp, opt, v] { pp->setPropOption(opt, v); }, [mm, opt, stored] { (*mm)[opt] = stored; }}); }
  void event(const string& n, function<void()> f) { ops.push_back({n, true, f, [] {}}); }
  void options(const string& what, const string& more = "", bool unknown = true) {
    for (auto& o : *m) { T got; mc::Attempt at = mc::attempt([&] { got = p->getPropOption(o.first); }); mc::check(at.ok() && got == o.second, "option", [&] { return what + more + ": " + o.first + " is " + (at.ok() ? show(got) : at.str()) + ", expected " + show(o.second); }); }
    if (!unknown) return;
    for (const char* o : {"", "UNKNOWN", "MI", "MINI"}) { mc::Attempt at = mc::attempt([&] { p->getPropOption(o); }); mc::check(at.refused(), "unknown option", [&] { return what + ": reading option '" + o + "' was " + at.str(); }); }
  }
  void verify(const string& what) {
    mc::check(p->getPropertyName() == name, "name", [&] { return what + ": the property is called " + p->getPropertyName(); });
    auto l = p->getPropertyOptions(); set<string> got(l.begin(), l.end()), want; for (auto& o : *m) want.insert(o.first); mc::check(got == want, "options", [&] { return what + ": the options are " + show(l); });
    options(what); for (auto& s : probes) { judged(what, ": checking ", s, accept(*m, s), [&] { return p->propValid(s); }); options(what, "; check", false); }
  }
  string key() { string k; for (auto& o : *m) k += o.first + show(o.second); return k; }
  void run(int depth, const string& start = "") { history(ops, depth, name + start, [this](const string& w) { verify(w); }, [this] { return key(); }); }
};
static void prop_int() {
  Rule<PropertyInt, int, int> r(new PropertyInt, "PROPERTY_INT"); const int lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max(); (*r.m)["MIN"] = lo; (*r.m)["MAX"] = hi;
  for (int v : {-3, 0, 2}) for (const char* o : {"MIN", "MAX"}) r.setting(o, v, true, v); r.setting("MIN", hi, true, hi); r.setting("MAX", lo, true, lo); r.setting("MIN", lo, true, lo); r.setting("MAX", hi, true, hi); r.setting("MID", 1, false, 0); r.setting("", 0, false, 0);
  r.probes = {lo, lo + 1, -4, -3, -2, -1, 0, 1, 2, 3, hi - 1, hi}; r.accept = [](map<string, int>& m, const int& v) { return v >= m["MIN"] && v <= m["MAX"]; }; r.run(mc::bound(3, 4));
}
static void prop_double() {
  Rule<PropertyDouble, double, double> r(new PropertyDouble, "PROPERTY_DOUBLE"); const double lo = std::numeric_limits<double>::lowest(), hi = std::numeric_limits<double>::max(); (*r.m)["MIN"] = lo; (*r.m)["MAX"] = hi;
  for (double v : {-2.5, 0., 1e-300, 2.5}) for (const char* o : {"MIN", "MAX"}) r.setting(o, v, true, v); r.setting("MAX", lo, true, lo); r.setting("MIN", hi, true, hi); r.setting("STEP", .5, false, 0);
  r.probes = {lo, -1e300, -2.5000000000000004, -2.5, -2.4999999999999996, -1e-300, 0, 5e-324, 1e-300, 2.4999999999999996, 2.5, 2.5000000000000004, 1e300, hi}; r.accept = [](map<string, double>& m, const double& v) { return v >= m["MIN"] && v <= m["MAX"]; }; r.run(mc::bound(3, 4));
}
static void prop_string() {
  Rule<PropertyString, string, size_t> r(new PropertyString, "PROPERTY_STRING"); (*r.m)["MIN_LENGTH"] = 0; (*r.m)["MAX_LENGTH"] = (size_t)-1;
  for (size_t v : {(size_t)0, (size_t)1, (size_t)4, (size_t)-1}) for (const char* o : {"MIN_LENGTH", "MAX_LENGTH"}) r.setting(o, v, true, v); r.setting("LENGTH", (size_t)1, false, 0); r.setting("STRING_CHOICES", (size_t)1, false, 0);
  r.probes = {"", "a", " ", "ab", "abc", "ab c", "abcd", "ab\ncd", string(300, 'x')}; r.accept = [](map<string, size_t>& m, const string& v) { return v.size() >= m["MIN_LENGTH"] && v.size() <= m["MAX_LENGTH"]; }; r.run(mc::bound(4, 5));
}
static void prop_choice() {
  Rule<PropertyStringChoice, string, set<string>> r(new PropertyStringChoice, "PROPERTY_STRING_CHOICE"); (*r.m)["STRING_CHOICE_ENFORCED"] = {"false"}; (*r.m)["STRING_CHOICES"] = {"NOT_DEFINED"}; typedef set<string> X;
  for (const char* v : {"true", "false"}) { r.setting("STRING_CHOICE_ENFORCED", string(v), true, X{v}); r.setting("STRING_CHOICE_ENFORCED", X{v}, true, X{v}); }
  r.setting("STRING_CHOICES", string("a"), true, X{"a"}); r.setting("STRING_CHOICES", X{"a", "bc", ""}, true, X{"a", "bc", ""}); r.setting("STRING_CHOICES", X{}, true, X{}); r.setting("STRING_CHOICES", X{"true", "A b"}, true, X{"true", "A b"});
  r.setting("STRING_CHOICE_ENFORCED", string("yes"), false, X{}); r.setting("STRING_CHOICE_ENFORCED", X{"true", "false"}, false, X{}); r.setting("STRING_CHOICE_ENFORCED", X{}, false, X{}); r.setting("STRING_CHOICE_ENFORCED", X{"TRUE"}, false, X{}); r.setting("CHOICES", string("a"), false, X{}); r.setting("MIN", X{"true"}, false, X{});
  r.probes = {"a", "bc", "", "A b", "ab", "b", "a ", "true", "NOT_DEFINED"}; r.accept = [](map<string, X>& m, const string& v) { return *m["STRING_CHOICE_ENFORCED"].begin() == "false" || m["STRING_CHOICES"].count(v) > 0; }; r.run(mc::bound(3, 4));
}
static void prop_switch() {
  Rule<PropertySwitch, string, string> r(new PropertySwitch, "PROPERTY_SWITCH"); (*r.m)["DEFAULT"] = "OFF"; for (const char* v : {"ON", "OFF", "TRUE", "FALSE", "1", "0"}) r.setting("DEFAULT", string(v), true, string(v)); r.setting("VALUE", string("ON"), false, string());
  r.probes = {"ON", "OFF", "TRUE", "FALSE", "1", "0", "on", "true", "ONN", "O", "", "2", "-1", "01", " ON", "ON "}; r.accept = [](map<string, string>&, const string& v) { return v == "ON" || v == "OFF" || v == "TRUE" || v == "FALSE" || v == "1" || v == "0"; };
  auto p = r.p; for (int v = -2; v <= 3; ++v) judged("PROPERTY_SWITCH", " checking the integer ", v, v == 0 || v == 1, [&] { return p->propValid(v); });
  r.run(mc::bound(4, 5));
}
static string ext_of(const string& path) { string b = path.substr(path.rfind('/') == string::npos ? 0 : path.rfind('/') + 1); size_t d = b.rfind('.'); return d == string::npos ? "" : b.substr(d); }
static bool ext_ok(const set<string>& a, const string& path) { for (auto& e : a) if (e == "*" || e == ext_of(path)) return true; return false; }
static const vector<string>& paths() { static vector<string> v{"f.log", "f.pun", "f", "", ".log", "d.log/f", "d.pun/f.log", "f.log.pun", "/x/y.z/f.LOG", "f.", "f.logs", "f log", "f.a b", "./f.log", "log", "f.log "}; return v; }
static void prop_ext() {
  typedef set<string> X; int c = mc::choose(4); X init; PropertyFileExt* q = nullptr; if (c == 0) { q = new PropertyFileExt(); init = {"*"}; } else if (c == 1) { q = new PropertyFileExt(string(".log")); init = {".log"}; } else if (c == 2) { init = {".pun", ""}; q = new PropertyFileExt(init); } else { init = {}; q = new PropertyFileExt(init); }
  Rule<PropertyFileExt, string, X> r(q, "PROPERTY_FILE_EXT"); (*r.m)["ALLOWED_FILE_EXT"] = init;
  r.setting("ALLOWED_FILE_EXT", string(".pun"), true, X{".pun"}); r.setting("ALLOWED_FILE_EXT", X{".log", ".pun"}, true, X{".log", ".pun"}); r.setting("ALLOWED_FILE_EXT", X{"*"}, true, X{"*"}); r.setting("ALLOWED_FILE_EXT", X{".log", "*"}, true, X{".log", "*"}); r.setting("ALLOWED_FILE_EXT", string(""), true, X{""}); r.setting("ALLOWED_FILE_EXT", X{}, true, X{}); r.setting("ALLOWED_FILE_EXT", X{".", ".a b", ".z"}, true, X{".", ".a b", ".z"}); r.setting("FILE_EXT", string(".log"), false, X{}); r.setting("FILE_EXT", X{".log"}, false, X{});
  r.probes = paths(); r.accept = [](map<string, X>& m, const string& v) { return ext_ok(m["ALLOWED_FILE_EXT"], v); }; r.run(mc::bound(3, 4), " built with " + show(init));
}
// ------------------------------------------------ wide ranges of values ---
static const vector<int>& numbers() { static vector<int> v; if (v.empty()) { set<int> s{std::numeric_limits<int>::min(), std::numeric_limits<int>::max()}; for (int b : {0, 9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 99999, 1000000, 16777216, 16777217, 2147483646}) { s.insert(b); s.insert(-b); } v.assign(s.begin(), s.end()); } return v; }
static void wide_int() {
  int a = mc::pick(numbers()), b = mc::pick(numbers()); PropertyInt p; ArgumentInt g; p.setPropOption("MIN", a); p.setPropOption("MAX", b); g.setArgPropertyOpt("PROPERTY_INT", "MIN", a); g.setArgPropertyOpt("PROPERTY_INT", "MAX", b); mc::state(mc::Hash().add(a).add(b)); string w = "MIN " + show(a) + " MAX " + show(b);
  for (int v : numbers()) { judged(w, ": checking ", v, v >= a && v <= b, [&] { return p.propValid(v); }); judged(w, ", argument: checking ", v, v >= a && v <= b, [&] { return g.argValid(v); }); }
}
static void wide_double() {
  static vector<double> n; if (n.empty()) { set<double> s{std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), 5e-324}; for (double b : {0., 1e-12, 1e-7, .1, 1., 1.0000001, 1.0000000000000002, 16777217., 1e6, 123456.789, 2147483648., 4294967296.5, 9007199254740993., 1e18, 1e40}) { s.insert(b); s.insert(-b); } n.assign(s.begin(), s.end()); }
  double a = mc::pick(n), b = mc::pick(n); PropertyDouble p; ArgumentDouble g; p.setPropOption("MIN", a); p.setPropOption("MAX", b); g.setArgPropertyOpt("PROPERTY_DOUBLE", "MIN", a); g.setArgPropertyOpt("PROPERTY_DOUBLE", "MAX", b); mc::state(mc::Hash().add(a).add(b)); string w = "MIN " + show(a) + " MAX " + show(b);
  for (double v : n) { judged(w, ": checking ", v, v >= a && v <= b, [&] { return p.propValid(v); }); judged(w, ", argument: checking ", v, v >= a && v <= b, [&] { return g.argValid(v); }); }
}
static void wide_length() {
  static const vector<size_t> n{0, 1, 9, 10, 15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 32768, 65535, 65536, 65537}; size_t a = mc::pick(n), b = mc::pick(n); PropertyString p; ArgumentString g; p.setPropOption("MIN_LENGTH", a); p.setPropOption("MAX_LENGTH", b); g.setArgPropertyOpt("PROPERTY_STRING", "MIN_LENGTH", (int)a); g.setArgPropertyOpt("PROPERTY_STRING", "MAX_LENGTH", (int)b);
  mc::state(mc::Hash().add(a).add(b)); string w = "MIN_LENGTH " + show(a) + " MAX_LENGTH " + show(b);
  for (size_t v : n) for (char c : {'x', ' '}) { string t(v, c); bool ok = v >= a && v <= b; string h = string(": checking a text of ") + c + "s, length "; judged(w, h.c_str(), v, ok, [&] { return p.propValid(t); }); judged(w, (", argument" + h).c_str(), v, ok, [&] { return g.argValid(t); }); }
}
static const vector<string>& words() { static vector<string> v{"", "a", "A", "aa", "ab", "Alpha", "alpha", "Alph", "Alphaa", "Alphb", "Beta", "HOMO", "HOMO-1", "HOMO-10", "a long choice of words", "a long choice of word", "a long choice of words ", "a long choice of wordz", "b long choice of words", "Alpha Beta", " Alpha", "Alpha ", "Alpha,Beta", "1", "01", "1.0", "true", "false", "NOT_DEFINED", "*"}; return v; }
static void wide_choice() {
  set<string> ch; string x = mc::pick(words()), y = mc::pick(words()); bool third = mc::flip(), enforced = mc::flip(), first = mc::flip(); ch.insert(x); ch.insert(y); if (third) ch.insert("another"); PropertyStringChoice p; ArgumentString g; string e = enforced ? "true" : "false";
  if (first) { p.setPropOption("STRING_CHOICE_ENFORCED", e); g.setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", e); }
  p.setPropOption("STRING_CHOICES", ch); g.setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICES", ch); if (!first) { p.setPropOption("STRING_CHOICE_ENFORCED", e); g.setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", e); }
  mc::state(mc::Hash().add(x).add(y).add((int)third).add((int)enforced).add((int)first)); string w = "choices " + show(ch) + (enforced ? " enforced" : ""); for (auto& v : words()) { bool ok = !enforced || ch.count(v); judged(w, ": checking ", v, ok, [&] { return p.propValid(v); }); judged(w, ", argument: checking ", v, ok, [&] { return g.argValid(v); }); }
}
static void wide_ext() {
  static const vector<string> e{".log", ".lo", ".logs", ".LOG", ".l", ".pun", ".punch", ".7", ".77", ".orb", ".extension", ".extensiom", ".g09", "", "*"}; static const vector<string> dirs{"", "/", "./", "../", "a/", "a.log/", "/a.b/c.pun/", "a b/"}, stems{"f", "f.log", "f.pun.x", ".h", "f ", "", "a long name of a file with-dashes_and.dots"};
  string x = mc::pick(e), y = mc::pick(e); set<string> st{x, y}; PropertyFileExt p(st); ArgumentFile g; g.setArgPropertyOpt("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", st); mc::state(mc::Hash().add(x).add(y)); string w = "extensions " + show(st);
  for (auto& d : dirs) for (auto& n : stems) for (auto& t : e) if (t != "*") { string v = d + n + t; bool ok = ext_ok(st, v); judged(w, ": checking ", v, ok, [&] { return p.propValid(v); }); }
}
static void prop_ext_forms() {
  static const vector<string> forms{".log", "*", "", "log", "a.log", ".a.b", "x.", "."}; static const vector<bool> good{true, true, true, false, false, false, false, true}; int a = mc::choose(8), b = mc::choose(9); mc::state(mc::Hash().add(a).add(b));
  if (b == 8) { mc::Attempt at = mc::attempt([&] { PropertyFileExt p(forms[a]); }); mc::step(); mc::check(good[a] ? at.ok() : at.refused(), "form", [&] { return "a file extension rule for '" + forms[a] + "' was " + at.str(); }); }
  else { set<string> x{forms[a], forms[b]}; mc::Attempt at = mc::attempt([&] { PropertyFileExt p(x); }); mc::step(); mc::check(good[a] && good[b] ? at.ok() : at.refused(), "form", [&] { return "a file extension rule for " + show(x) + " was " + at.str(); }); }
}
struct Files { string d = scratch() + "/v"; map<string, bool> on; string path(const string& n) const { return d + "/" + n; } void set(const string& n, bool e) { on[n] = e; if (e) put(path(n), "x"); else unlink(path(n).c_str()); } Files() { mkdir(d.c_str(), 0755); mkdir((d + "/e.x").c_str(), 0755); } };
static void prop_exist() {
  auto f = std::make_shared<Files>(); f->set("a.log", true); f->set("b.log", false); int c = mc::choose(3); Rule<PropertyFileExist, string, int> r(c == 0 ? new PropertyFileExist() : new PropertyFileExist(c - 1), "PROPERTY_FILE_EXIST"); (*r.m)["FILE_MUST_EXIST"] = c == 2; (*r.m)["FILE_DOES_EXIST"] = 0;
  for (int v : {0, 1}) { r.setting("FILE_MUST_EXIST", v, true, v); r.setting("FILE_DOES_EXIST", v, true, v); } r.setting("EXIST", 1, false, 0); for (const char* n : {"a.log", "b.log"}) r.event(string(n) + " comes or goes", [f, n] { f->set(n, !f->on[n]); });
  r.probes = {f->path("a.log"), f->path("b.log"), f->path("c.log"), "", f->path("a.log/x")};
  auto ex = [f](const string& v) { for (auto& o : f->on) if (o.second && f->path(o.first) == v) return true; return false; };
  r.accept = [ex](map<string, int>& m, const string& v) { m["FILE_DOES_EXIST"] = ex(v); return !m["FILE_MUST_EXIST"] || ex(v); };
  auto p = r.p; auto m = r.m; auto probes = r.probes; r.event("post-check", [=] { for (auto& v : probes) { mc::attempt([&] { p->propValid(v); }); (*m)["FILE_DOES_EXIST"] = ex(v); mc::Attempt at = mc::attempt([&] { p->postCheck(); }); bool bad = (*m)["FILE_MUST_EXIST"] && !ex(v); mc::check(bad ? at.refused() : at.ok(), "post-check", [&] { return "the post-check after checking " + v + " was " + at.str(); }); } });
  r.run(mc::bound(3, 4), " built for " + to_string(c - 1));
}
// what a sibling rule reports after a check
static void sisters(const vector<string>& allowed, const string& path, map<string, vector<string>>& m, function<bool(const string&)> ex) {
  size_t s = path.rfind('/'); string dir = s == string::npos ? "" : path.substr(0, s + 1), b = path.substr(dir.size()); size_t d = b.rfind('.'); if (d != string::npos) b = b.substr(0, d);
  vector<string> n, p, pn, e; for (auto& x : allowed) if (x != "NOT_DEFINED") { n.push_back(b + x); p.push_back(dir); pn.push_back(dir + b + x); e.push_back(ex(dir + b + x) ? "true" : "false"); }
  m["SISTER_FILE_NAME"] = n; m["SISTER_FILE_PATH"] = p; m["SISTER_FILE_PATH_NAME"] = pn; m["SISTER_FILE_EXISTS"] = e;
}
static void prop_sister() {
  typedef vector<string> X; auto f = std::make_shared<Files>(); f->set("a.log", true); f->set("a.pun", false); f->set("a.b.pun", true); f->set("e.x/n.pun", true); Rule<PropertySisterFile, string, X> r(new PropertySisterFile(), "PROPERTY_SISTER_FILE"); auto& m = *r.m; m["ALLOWED_SISTER_FILE_EXT"] = m["SISTER_FILE_NAME"] = m["SISTER_FILE_PATH"] = m["SISTER_FILE_PATH_NAME"] = X{"NOT_DEFINED"}; m["SISTER_FILE_EXISTS"] = X{"false"};
  // reports about siblings are judged straight after a check only
  auto p = r.p; auto mm = r.m; string A = "ALLOWED_SISTER_FILE_EXT"; r.setting(A, string(".pun"), true, X{".pun"}); r.setting(A, X{".log", ".pun"}, true, X{".log", ".pun"}); r.setting(A, X{".pun", ".log", ".orb"}, true, X{".pun", ".log", ".orb"}); r.setting(A, X{}, true, X{}); r.setting(A, string("x.pun"), false, X{}); r.setting(A, X{".log", "pun"}, false, X{});
  for (const char* o : {"SISTER_FILE_NAME", "SISTER_FILE_PATH", "SISTER_FILE_PATH_NAME", "SISTER_FILE_EXISTS", "OTHER"}) { if (o[0] == 'O' || o[12] == 'N') r.setting(o, string("true"), false, X{}); else r.setting(o, X{"a", "b"}, false, X{}); }
  for (const char* n : {"a.log", "a.pun", "a.b.pun"}) r.event(string(n) + " comes or goes", [f, n] { f->set(n, !f->on[n]); });
  auto ex = [f](const string& v) { for (auto& o : f->on) if (o.second && f->path(o.first) == v) return true; return false; };
  r.probes = {f->path("a.log"), f->path("a.pun"), f->path("a.b.c"), f->path("a"), f->path("e.x/n"), "q.log", "", f->path("a.b.log")};
  r.accept = [ex](map<string, X>& m, const string& v) { sisters(m["ALLOWED_SISTER_FILE_EXT"], v, m, ex); return true; };
  r.run(mc::bound(3, 4));
}

// ----------------------------------------- the rules inside an argument object ---
static string joined(const vector<string>& v) { string s; for (size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + v[i]; return s; }
static string joined(const set<string>& v) { return joined(vector<string>(v.begin(), v.end())); }
static bool same_text(const string& a, const string& b) { if (a == b) return true; char *e, *g; double x = strtod(a.c_str(), &e), y = strtod(b.c_str(), &g); return !a.empty() && !b.empty() && !*e && !*g && x == y; }
struct Opts { map<string, map<string, string>> text; };   // property -> option -> reported text
template <class A> static void reports(A& a, const Opts& o, const string& what, bool unknown = true) {
  auto pv = a.getProperties(); set<string> ps(pv.begin(), pv.end()), want; for (auto& p : o.text) want.insert(p.first); mc::check(ps == want, "properties", [&] { return what + ": the properties are " + show(pv); });
  auto ov = a.getPropertyOptions(); set<string> os(ov.begin(), ov.end()), wo; for (auto& p : o.text) for (auto& x : p.second) wo.insert(x.first); mc::check(os == wo, "options", [&] { return what + ": the options are " + show(ov); });
  map<string, string> all; mc::Attempt am = mc::attempt([&] { all = a.getPropertyValues(); }); mc::check(am.ok(), "values", [&] { return what + ": listing the options was " + am.str(); });
  for (auto& p : o.text) for (auto& x : p.second) {
    if (x.second == "\x01") continue;      // not judged
    string got; mc::Attempt at = mc::attempt([&] { got = a.getPropertyValues(p.first, x.first); });
    mc::check(at.ok() && same_text(got, x.second), "value", [&] { return what + ": " + p.first + " " + x.first + " is reported as " + (at.ok() ? show(got) : at.str()) + ", expected " + show(x.second); });
    mc::check(all.count(x.first) && same_text(all[x.first], x.second), "value", [&] { return what + ": " + x.first + " is listed as " + show(all[x.first]) + ", expected " + show(x.second); });
  }
  if (!unknown) return;
  for (auto& p : o.text) { mc::Attempt at = mc::attempt([&] { a.getPropertyValues(p.first, "UNKNOWN"); }); mc::check(at.refused(), "unknown option", [&] { return what + ": reading an unknown option of " + p.first + " was " + at.str(); }); }
  { mc::Attempt at = mc::attempt([&] { a.getPropertyValues("PROPERTY_UNKNOWN", "MIN"); }); mc::check(at.refused(), "unknown property", [&] { return what + ": reading an unknown property was " + at.str(); }); }
}
static void arg_numbers() {
  bool real = mc::flip(); auto mn = std::make_shared<double>(real ? std::numeric_limits<double>::lowest() : std::numeric_limits<int>::min()), mx = std::make_shared<double>(real ? std::numeric_limits<double>::max() : std::numeric_limits<int>::max()); auto ai = std::make_shared<ArgumentInt>(); auto ad = std::make_shared<ArgumentDouble>(); vector<Op> ops; string P = real ? "PROPERTY_DOUBLE" : "PROPERTY_INT";
  auto op = [&](const string& p, const string& o, double v, bool ok, std::shared_ptr<double> t) { ops.push_back({p + " " + o + "=" + show(v), ok, [=] { if (real) ad->setArgPropertyOpt(p, o, v); else ai->setArgPropertyOpt(p, o, (int)v); }, [=] { if (t) *t = v; }}); };
  for (double v : {-3., 0., 2., 7.}) { op(P, "MIN", v, true, mn); op(P, "MAX", v, true, mx); } if (real) { op(P, "MIN", -.5, true, mn); op(P, "MAX", 2.25, true, mx); } op(P, "MEAN", 1, false, nullptr); op("PROPERTY_STRING", "MIN", 1, false, nullptr); op("", "", 1, false, nullptr);
  ops.push_back({"text for " + P, false, [=] { if (real) ad->setArgPropertyOpt(P, "MIN", string("2")); else ai->setArgPropertyOpt(P, "MIN", string("2")); }, [] {}});
  auto verify = [=](const string& w) { Opts o; o.text[P]["MIN"] = real ? to_string(*mn) : to_string((int)*mn); o.text[P]["MAX"] = real ? to_string(*mx) : to_string((int)*mx); string nm = real ? ad->getArgumentName() : ai->getArgumentName(); mc::check(nm == (real ? "ARGUMENT_DOUBLE" : "ARGUMENT_INT"), "name", [&] { return "the argument is called " + nm; });
    for (int k = 0; k < 2; ++k) { if (real) reports(*ad, o, w, k == 0); else reports(*ai, o, w, k == 0); for (double v : {-1000000., -4., -3., -1., -.5, 0., 1., 2., 2.25, 3., 6.875, 7., 8., 1e6}) { if (!real && v != (int)v) continue; bool in = v >= *mn && v <= *mx; judged(w, ": checking ", v, in, [&] { return real ? ad->argValid(v) : ai->argValid((int)v); }); } } };
  history(ops, mc::bound(2, 3), real ? "ARGUMENT_DOUBLE" : "ARGUMENT_INT", verify, [=] { return show(*mn) + show(*mx); });
}
static void arg_string() {
  struct St { size_t mn = 0, mx = (size_t)-1; string enf = "false"; set<string> ch{"NOT_DEFINED"}; }; auto s = std::make_shared<St>(); auto a = std::make_shared<ArgumentString>(); vector<Op> ops; typedef set<string> X;
  for (int v : {0, 1, 2, 5}) { ops.push_back({"MIN_LENGTH=" + to_string(v), true, [=] { a->setArgPropertyOpt("PROPERTY_STRING", "MIN_LENGTH", v); }, [=] { s->mn = v; }}); ops.push_back({"MAX_LENGTH=" + to_string(v), true, [=] { a->setArgPropertyOpt("PROPERTY_STRING", "MAX_LENGTH", v); }, [=] { s->mx = v; }}); }
  for (const char* e : {"true", "false"}) { string v = e; ops.push_back({"ENFORCED=" + v, true, [=] { a->setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", v); }, [=] { s->enf = v; }}); ops.push_back({"ENFORCED={" + v + "}", true, [=] { a->setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", X{v}); }, [=] { s->enf = v; }}); }
  for (auto& v : vector<X>{{"a"}, {"a", "true", "abcde"}, {""}}) ops.push_back({"CHOICES=" + show(v), true, [=] { a->setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICES", v); }, [=] { s->ch = v; }});
  ops.push_back({"CHOICES='ab'", true, [=] { a->setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICES", string("ab")); }, [=] { s->ch = X{"ab"}; }});
  auto bad = [&](const string& n, function<void()> f) { ops.push_back({n, false, f, [] {}}); };
  bad("MIN_LENGTH=-1", [=] { a->setArgPropertyOpt("PROPERTY_STRING", "MIN_LENGTH", -1); }); bad("ENFORCED='no'", [=] { a->setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("no")); }); bad("ENFORCED={true,false}", [=] { a->setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", X{"true", "false"}); }); bad("LENGTH=1", [=] { a->setArgPropertyOpt("PROPERTY_STRING", "LENGTH", 1); }); bad("PROPERTY_INT MIN=1", [=] { a->setArgPropertyOpt("PROPERTY_INT", "MIN", 1); }); bad("STRING_CHOICES as number", [=] { a->setArgPropertyOpt("PROPERTY_STRING_CHOICE", "STRING_CHOICES", 1); });
  auto verify = [=](const string& w) { Opts o; o.text["PROPERTY_STRING"]["MIN_LENGTH"] = to_string(s->mn); o.text["PROPERTY_STRING"]["MAX_LENGTH"] = to_string(s->mx); o.text["PROPERTY_STRING_CHOICE"]["STRING_CHOICE_ENFORCED"] = s->enf; o.text["PROPERTY_STRING_CHOICE"]["STRING_CHOICES"] = joined(s->ch);
    for (int k = 0; k < 2; ++k) { reports(*a, o, w, k == 0); for (const char* c : {"", "a", "ab", "b", "true", "abcde", "abcdef", "NOT_DEFINED"}) { string v = c; judged(w, ": checking ", v, v.size() >= s->mn && v.size() <= s->mx && (s->enf == "false" || s->ch.count(v)), [&] { return a->argValid(v); }); } } };
  history(ops, mc::bound(2, 3), "ARGUMENT_STRING", verify, [=] { return show(s->mn) + show(s->mx) + s->enf + show(s->ch); });
}
static void arg_switch() {
  auto def = std::make_shared<string>("OFF"); auto a = std::make_shared<ArgumentSwitch>(); vector<Op> ops; for (const char* e : {"ON", "OFF", "TRUE", "0"}) { string v = e; ops.push_back({"DEFAULT=" + v, true, [=] { a->setArgPropertyOpt("PROPERTY_SWITCH", "DEFAULT", v); }, [=] { *def = v; }}); }
  ops.push_back({"VALUE=ON", false, [=] { a->setArgPropertyOpt("PROPERTY_SWITCH", "VALUE", string("ON")); }, [] {}}); ops.push_back({"PROPERTY_STRING", false, [=] { a->setArgPropertyOpt("PROPERTY_STRING", "DEFAULT", string("ON")); }, [] {}});
  auto verify = [=](const string& w) { Opts o; o.text["PROPERTY_SWITCH"]["DEFAULT"] = *def; reports(*a, o, w); mc::check(!a->requiresParameter(), "switch", [&] { return w + ": a switch asks for a parameter"; }); struct V { const char* v; int on; };
    for (V v : {V{"ON", 1}, V{"OFF", 0}, V{"TRUE", 1}, V{"FALSE", 0}, V{"1", 1}, V{"0", 0}, V{"On", -1}, V{"", -1}, V{"10", -1}, V{"yes", -1}}) { string t = v.v; judged(w, ": checking ", t, v.on >= 0, [&] { return a->argValid(t); }); bool p = false; mc::Attempt at = mc::attempt([&] { p = a->positive(t); }); mc::check(v.on < 0 ? at.refused() : at.ok() && p == (v.on == 1), "positive", [&] { return w + ": " + show(t) + " counts as " + (at.ok() ? (p ? "on" : "off") : at.str()); }); } };
  history(ops, mc::bound(4, 5), "ARGUMENT_SWITCH", verify, [=] { return *def; });
}
static void arg_file() {
  typedef set<string> X; typedef vector<string> Y; auto f = std::make_shared<Files>(); f->set("a.log", true); f->set("a.pun", true); f->set("b.log", false); struct St { int must = 0; X ext{"*"}; Y sis{"NOT_DEFINED"}; }; auto s = std::make_shared<St>(); auto a = std::make_shared<ArgumentFile>(); vector<Op> ops;
  for (int v : {0, 1}) ops.push_back({"FILE_MUST_EXIST=" + to_string(v), true, [=] { a->setArgPropertyOpt("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", v); }, [=] { s->must = v; }});
  for (auto& v : vector<X>{{".log"}, {".log", ".pun"}, {"*"}}) ops.push_back({"ALLOWED_FILE_EXT=" + show(v), true, [=] { a->setArgPropertyOpt("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", v); }, [=] { s->ext = v; }}); ops.push_back({"ALLOWED_FILE_EXT='.pun'", true, [=] { a->setArgPropertyOpt("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", string(".pun")); }, [=] { s->ext = X{".pun"}; }});
  for (auto& v : vector<Y>{{".pun", ".log"}, {".pun"}}) ops.push_back({"SISTER=" + show(v), true, [=] { a->setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", v); }, [=] { s->sis = v; }}); ops.push_back({"SISTER='.log'", true, [=] { a->setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", string(".log")); }, [=] { s->sis = Y{".log"}; }});
  auto bad = [&](const string& n, function<void()> g) { ops.push_back({n, false, g, [] {}}); }; bad("SISTER={'x.y'}", [=] { a->setArgPropertyOpt("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", Y{"x.y"}); }); bad("SISTER_FILE_EXISTS=true", [=] { a->setArgPropertyOpt("PROPERTY_SISTER_FILE", "SISTER_FILE_EXISTS", Y{"true"}); }); bad("MUST_EXIST=1", [=] { a->setArgPropertyOpt("PROPERTY_FILE_EXIST", "MUST_EXIST", 1); }); bad("PROPERTY_FILE", [=] { a->setArgPropertyOpt("PROPERTY_FILE", "FILE_MUST_EXIST", 1); });
  for (const char* n : {"a.log", "a.pun", "b.log"}) ops.push_back({string(n) + " comes or goes", true, [f, n] { f->set(n, !f->on[n]); }, [] {}});
  auto ex = [f](const string& v) { for (auto& o : f->on) if (o.second && f->path(o.first) == v) return true; return false; };
  auto verify = [=](const string& w) {
    Opts o; o.text["PROPERTY_FILE_EXIST"]["FILE_MUST_EXIST"] = to_string(s->must); o.text["PROPERTY_FILE_EXIST"]["FILE_DOES_EXIST"] = "\x01"; o.text["PROPERTY_FILE_EXT"]["ALLOWED_FILE_EXT"] = joined(s->ext); auto& t = o.text["PROPERTY_SISTER_FILE"]; t["ALLOWED_SISTER_FILE_EXT"] = joined(s->sis); t["SISTER_FILE_NAME"] = t["SISTER_FILE_PATH"] = t["SISTER_FILE_PATH_NAME"] = t["SISTER_FILE_EXISTS"] = "\x01"; reports(*a, o, w);
    for (const char* n : {"a.log", "b.log", "a.pun", "a.txt", "a"}) { string v = f->path(n); bool ok = (!s->must || ex(v)) && ext_ok(s->ext, v); judged(w, ": checking ", v, ok, [&] { return a->argValid(v); }); if (!ok) { reports(*a, o, w, false); continue; } Opts q = o; map<string, Y> m; sisters(s->sis, v, m, ex); q.text["PROPERTY_FILE_EXIST"]["FILE_DOES_EXIST"] = ex(v) ? "1" : "0"; for (auto& x : m) q.text["PROPERTY_SISTER_FILE"][x.first] = joined(x.second); reports(*a, q, w + "; check " + v, false); mc::Attempt at = mc::attempt([&] { a->postArgCheck(); }); mc::check(at.ok(), "post-check", [&] { return w + "; the post-check after " + v + " was " + at.str(); }); } };
  history(ops, mc::bound(2, 3), "ARGUMENT_FILE", verify, [=] { return show(s->must) + show(s->ext) + show(s->sis); });
}

// ---------------------------------------------- the rules behind a parser's flags ---
static void parser_rules() {
  struct St { int lo[2] = {std::numeric_limits<int>::min(), std::numeric_limits<int>::min()}, hi[2] = {std::numeric_limits<int>::max(), std::numeric_limits<int>::max()}; double dm = std::numeric_limits<double>::max(); size_t mx[2] = {(size_t)-1, (size_t)-1}; string enf[2] = {"false", "false"}; set<string> ch[2] = {{"NOT_DEFINED"}, {"NOT_DEFINED"}}; set<string> ext[2] = {{"*"}, {"*"}}; string sw = "OFF"; };
  auto s = std::make_shared<St>(); std::set<vector<string>> fl{{"--i0", "-a"}, {"--i1", "-b"}, {"--d", "-d"}, {"--s0", "-s"}, {"--s1", "-t"}, {"--f0", "-f"}, {"--f1", "-g"}, {"--w", "-w"}}; auto p = std::make_shared<ArgumentParser>(fl); typedef set<string> X;
  p->addFlagArg("--i0", "ARGUMENT_INT"); p->addFlagArg("--i1", "ARGUMENT_INT"); p->addFlagArg("--d", "ARGUMENT_DOUBLE"); p->addFlagArg("--s0", "ARGUMENT_STRING"); p->addFlagArg("--s1", "ARGUMENT_STRING"); p->addFlagArg("--f0", "ARGUMENT_FILE"); p->addFlagArg("--f1", "ARGUMENT_FILE"); p->addFlagArg("--w", "ARGUMENT_SWITCH");
  vector<Op> ops; auto op = [&](const string& n, bool ok, function<void()> f, function<void()> m) { ops.push_back({n, ok, f, m}); };
  for (int i = 0; i < 2; ++i) { string I = "--i" + to_string(i), S = "--s" + to_string(i), F = "--f" + to_string(i);
    op(I + " MIN=1", true, [=] { p->setFlagArgOpt(I, "ARGUMENT_INT", "PROPERTY_INT", "MIN", 1); }, [=] { s->lo[i] = 1; }); op(I + " MAX=2", true, [=] { p->setFlagArgOpt(I, "ARGUMENT_INT", "PROPERTY_INT", "MAX", 2); }, [=] { s->hi[i] = 2; }); if (i == 0) op(I + " MIN=-5", true, [=] { p->setFlagArgOpt(I, "ARGUMENT_INT", "PROPERTY_INT", "MIN", -5); }, [=] { s->lo[i] = -5; });
    op(S + " ENFORCED", true, [=] { p->setFlagArgOpt(S, "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("true")); }, [=] { s->enf[i] = "true"; }); op(S + " CHOICES={a,b}", true, [=] { p->setFlagArgOpt(S, "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", X{"a", "b"}); }, [=] { s->ch[i] = X{"a", "b"}; }); op(S + " MAX_LENGTH=2", true, [=] { p->setFlagArgOpt(S, "ARGUMENT_STRING", "PROPERTY_STRING", "MAX_LENGTH", 2); }, [=] { s->mx[i] = 2; }); if (i) op(S + " CHOICES='abc'", true, [=] { p->setFlagArgOpt(S, "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", string("abc")); }, [=] { s->ch[i] = X{"abc"}; });
    op(F + " EXT={.log}", true, [=] { p->setFlagArgOpt(F, "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", X{".log"}); }, [=] { s->ext[i] = X{".log"}; }); if (i) op(F + " EXT='.pun'", true, [=] { p->setFlagArgOpt(F, "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", string(".pun")); }, [=] { s->ext[i] = X{".pun"}; }); }
  op("--d MAX=1.5", true, [=] { p->setFlagArgOpt("--d", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MAX", 1.5); }, [=] { s->dm = 1.5; }); op("--w DEFAULT=ON", true, [=] { p->setFlagArgOpt("--w", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT", string("ON")); }, [=] { s->sw = "ON"; }); op("--w DEFAULT=0", true, [=] { p->setFlagArgOpt("--w", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT", 0); }, [=] { s->sw = "OFF"; });
  op("--i0 MID", false, [=] { p->setFlagArgOpt("--i0", "ARGUMENT_INT", "PROPERTY_INT", "MID", 1); }, [] {}); op("--s0 ENFORCED='maybe'", false, [=] { p->setFlagArgOpt("--s0", "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", string("maybe")); }, [] {}); op("--f0 unknown", false, [=] { p->setFlagArgOpt("--f0", "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "EXT", X{".log"}); }, [] {}); op("unknown kind", false, [=] { p->setFlagArgOpt("--f0", "ARGUMENT_PATH", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", X{".log"}); }, [] {}); op("--w DEFAULT=7", false, [=] { p->setFlagArgOpt("--w", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT", 7); }, [] {}); op("--i0 again", false, [=] { p->addFlagArg("--i0", "ARGUMENT_INT"); }, [] {});
  auto verify = [=](const string& w) {
    auto value = [&](const string& f, const string& a, const string& pr, const string& o, const string& want) { string got; mc::Attempt at = mc::attempt([&] { got = p->getFlagArgOptValue(f, a, pr, o); }); mc::check(at.ok() && same_text(got, want), "value", [&] { return w + ": " + f + " " + o + " is " + (at.ok() ? show(got) : at.str()) + ", expected " + show(want); }); };
    auto probe = [&](const string& f, const string& v, bool ok) { const char* av[] = {"prog", f.c_str(), v.c_str(), nullptr}; judged(w, (": parsing " + f + " ").c_str(), v, ok, [&] { p->parse(av, 3); return true; }); };
    value("--d", "ARGUMENT_DOUBLE", "PROPERTY_DOUBLE", "MAX", to_string(s->dm)); value("--w", "ARGUMENT_SWITCH", "PROPERTY_SWITCH", "DEFAULT", s->sw);
    for (int i = 0; i < 2; ++i) { string I = "--i" + to_string(i), S = "--s" + to_string(i), F = "--f" + to_string(i); value(I, "ARGUMENT_INT", "PROPERTY_INT", "MIN", to_string(s->lo[i])); value(I, "ARGUMENT_INT", "PROPERTY_INT", "MAX", to_string(s->hi[i])); value(S, "ARGUMENT_STRING", "PROPERTY_STRING", "MAX_LENGTH", to_string(s->mx[i])); value(S, "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", s->enf[i]); value(S, "ARGUMENT_STRING", "PROPERTY_STRING_CHOICE", "STRING_CHOICES", joined(s->ch[i])); value(F, "ARGUMENT_FILE", "PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", joined(s->ext[i]));
      for (int v : {-6, -5, 0, 1, 2, 3}) probe(I, to_string(v), v >= s->lo[i] && v <= s->hi[i]); for (const char* v : {"a", "b", "abc", "ab", "NOT_DEFINED"}) { string t = v; probe(S, t, t.size() <= s->mx[i] && (s->enf[i] == "false" || s->ch[i].count(t))); } for (const char* v : {"x.log", "x.pun", "x"}) probe(F, v, ext_ok(s->ext[i], v)); }
    for (double v : {-2., 1.5, 1.75}) probe("--d", fmt("%g", v), v <= s->dm); };
  history(ops, mc::bound(2, 3), "parser", verify, [=] { string k; for (int i = 0; i < 2; ++i) k += show(s->lo[i]) + show(s->hi[i]) + show(s->mx[i]) + s->enf[i] + show(s->ch[i]) + show(s->ext[i]); return k + show(s->dm) + s->sw; });
}
static void setup() {
  const string h = "every history of up to ";
  mc::scenario("integer-rule", h + "3 (thorough 4) of 12 settings, valid and unknown; after each, all options read back and 12 boundary values checked", prop_int);
  mc::scenario("real-rule", h + "3 (thorough 4) of 11 settings; after each, all options and 14 boundary values", prop_double);
  mc::scenario("length-rule", h + "4 (thorough 5) of 10 settings; after each, all options and 9 strings", prop_string);
  mc::scenario("choice-rule", h + "3 (thorough 4) of 14 settings as text or set; after each, all options and 9 strings", prop_choice);
  mc::scenario("switch-rule", h + "4 (thorough 5) of 7 settings; after each, 16 strings and six integers", prop_switch);
  mc::scenario("extension-rule", "four ways of building it times " + h + "3 (thorough 4) of 9 settings; after each, 16 paths", prop_ext);
  mc::scenario("extension-forms", "every single extension and every pair out of eight forms given when building the rule", prop_ext_forms);
  mc::scenario("integers", "every pair of limits out of 41 integers over the whole range, by the rule and through the argument: each of the 41 checked", wide_int);
  mc::scenario("reals", "every pair of limits out of 32 reals over the whole range, by the rule and through the argument: each of the 32 checked", wide_double);
  mc::scenario("lengths", "every pair of limits out of 22 lengths to 65537, by the rule and through the argument: texts of each length checked", wide_length);
  mc::scenario("choices", "every pair out of 30 similar texts as choices, alone or with a third, enforced or not, set in either order, by the rule and through the argument: each of the 30 checked", wide_choice);
  mc::scenario("extensions", "every pair out of 15 similar extensions: paths of 8 folders, 7 stems and 14 endings checked", wide_ext);
  mc::scenario("existence-rule", "three ways of building it times " + h + "3 (thorough 4) of 5 settings, two files appearing or disappearing, and post-checks; after each, 5 paths", prop_exist);
  mc::scenario("sibling-rule", h + "3 (thorough 4) of 11 settings and three files appearing or disappearing; after each, 8 paths and the siblings reported for each", prop_sister);
  mc::scenario("number-arguments", "integer and real arguments, " + h + "2 (thorough 3) settings through the argument", arg_numbers);
  mc::scenario("string-arguments", h + "2 (thorough 3) of 22 length and choice settings through the argument", arg_string);
  mc::scenario("switch-arguments", h + "4 (thorough 5) of 6 settings through the argument", arg_switch);
  mc::scenario("file-arguments", h + "2 (thorough 3) of 16 settings and file events through the argument, siblings and existence reported after each check", arg_file);
  mc::scenario("parser-flags", "a parser with eight flags of five kinds, " + h + "2 (thorough 3) of 22 settings of its flags; after each, the options of every flag and what it accepts", parser_rules);
}
MC_MAIN(setup)
