// C25: diagnostics at every configured level, and whole calculations by programs built at every level.
#include "mc.hpp"
#include "world.hpp"
#include <fcntl.h>
#include <sys/wait.h>
#define DECL(n) void probe_##n(int, int, bool, string&, string&, int&);
DECL(0) DECL(1) DECL(2) DECL(3)
static string show(const string& s) { string r = "'"; for (char c : s) r += c == '\n' ? string("\\n") : string(1, c); return r + "'"; }
static void probe(int cfg, int k, int lv, bool doit, string& t, string& f, int& l) { (cfg == 0 ? probe_0 : cfg == 1 ? probe_1 : cfg == 2 ? probe_2 : probe_3)(k, lv, doit, t, f, l); }

struct Run { int status = -1; string out; };
static Run spawn(int level, const vector<string>& args) {
  Run r; const char* exe = getenv(("VERIF_CALCJ" + to_string(level)).c_str()); if (!exe) { mc::fail("harness", "no program for level " + to_string(level)); return r; } string of = scratch() + "/out";
  vector<char*> v{(char*)"calc_J"}; for (auto& a : args) v.push_back((char*)a.c_str()); v.push_back(nullptr);
  pid_t p = fork(); if (p == 0) { int o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644), n = open("/dev/null", O_WRONLY); dup2(o, 1); dup2(n, 2); alarm(20); execv(exe, v.data()); _exit(127); }
  int st = 0; waitpid(p, &st, 0); r.status = st; std::ifstream i(of, std::ios::binary); std::stringstream b; b << i.rdbuf(); r.out = b.str(); mc::step(); return r;
}
// a diagnostic starts with its source location
static bool diagnostic(const string& l) { for (size_t p = l.find("pp:"); p != string::npos; p = l.find("pp:", p + 1)) { size_t q = p + 3; while (q < l.size() && isdigit((unsigned char)l[q])) ++q; if (q > p + 3 && q + 1 < l.size() && l[q] == ':' && l[q + 1] == ' ') return true; } return false; }
// the four programs are built in different directories: source locations are compared by file name
static string local(const string& l) { size_t p = l.find("pp:"), q = l.rfind('/', p); return q == string::npos ? l : l.substr(q + 1); }
static void split(const string& out, vector<string>& results, vector<string>& diags) { std::istringstream is(out); string l; while (std::getline(is, l)) if (diagnostic(l)) diags.push_back(local(l)); else results.push_back(l); }
static bool subsequence(const vector<string>& a, const vector<string>& b) { size_t i = 0; for (auto& x : b) if (i < a.size() && a[i] == x) ++i; return i == a.size(); }
static string join(const vector<string>& v) { string s; for (auto& x : v) s += x + "\n"; return s; }
static void levels(const vector<string>& args, const string& what, bool result) {
  mc::tr([&] { return what; }); Run r[4]; vector<string> res[4], dia[4]; for (int l = 0; l < 4; ++l) { r[l] = spawn(l, args); split(r[l].out, res[l], dia[l]); }
  for (int l = 1; l < 4; ++l) {
    mc::check((r[l].status == 0) == (r[0].status == 0), "status", [&] { return what + ": exit status " + to_string(r[0].status) + " at log level 0 but " + to_string(r[l].status) + " at log level " + to_string(l); });
    if (!WIFEXITED(r[0].status) || !WIFEXITED(r[l].status)) continue;  // an exception that ends the program leaves what was not yet written unwritten
    mc::check(res[l] == res[0], "results", [&] { return what + ": at log level 0\n" + join(res[0]) + "at log level " + to_string(l) + "\n" + join(res[l]); });
    mc::check(subsequence(dia[l - 1], dia[l]), "diagnostics", [&] { return what + ": diagnostics of log level " + to_string(l - 1) + " missing or out of order at level " + to_string(l) + "\n" + join(dia[l - 1]) + "---\n" + join(dia[l]); });
  }
  mc::check(dia[0].empty(), "diagnostics", [&] { return what + ": diagnostics at log level 0:\n" + join(dia[0]); });
  if (result) { mc::check(r[0].status == 0, "status", [&] { return what + ": exit status " + to_string(r[0].status) + "\n" + r[0].out; }); for (int l = 1; l < 4; ++l) mc::check(dia[l].size() > dia[l - 1].size(), "diagnostics", [&] { return what + ": no diagnostics of level " + to_string(l); }); }
  mc::outcome(r[0].status == 0 ? "computed" : "refused");
}
static void setup() {
  mc::scenario("messages", "configured level 0..3 times message level -1..5 times every message of one part (14 kinds: literals, lvalue, temporary, const and empty strings, C text, characters, integers, real, boolean, own type, field width, line feeds), every one of two parts (15 kinds, also the line-end manipulator), every one of three parts of five kinds, and one of eleven parts", [] {
    int cfg = mc::choose(4), lv = mc::choose(7) - 1, k = mc::choose(366); string text, file; int line = 0; mc::state(mc::Hash().add(cfg).add(lv).add(k));
    string out; { mc::CaptureCout cap; probe(cfg, k, lv, true, text, file, line); out = cap.str(); } mc::step(); if (text == "\x01") return;
    string want = lv <= cfg ? file + ":" + to_string(line) + ": " + text + "\n" : ""; string what = "configured level " + to_string(cfg) + ", message " + to_string(k) + " of level " + to_string(lv); mc::tr([&] { return what; });
    // a field width applies to whatever follows it, so only the text that was put in must be there
    mc::check(out == want, "message", [&] { return what + ": printed " + show(out) + ", expected " + show(want); }); mc::outcome(want.empty() ? "silent" : "printed");
  });
  mc::scenario("message-sequences", "configured level 0..3, every sequence of three messages out of four with every level 0..4 each: printed in order, each exactly once", [] {
    int cfg = mc::choose(4); static const int ks[] = {225, 3, 240, 229}; string want, out, what = "configured level " + to_string(cfg); mc::Hash h; h.add(cfg);
    { mc::CaptureCout cap; for (int i = 0; i < 3; ++i) { int k = ks[mc::choose(4)], lv = mc::choose(5); string t, f; int l = 0; probe(cfg, k, lv, true, t, f, l); h.add(k).add(lv); what += ", message " + to_string(k) + " of level " + to_string(lv); if (lv <= cfg) want += f + ":" + to_string(l) + ": " + t + "\n"; } out = cap.str(); }
    mc::state(h); mc::step(3); mc::tr([&] { return what; }); mc::check(out == want, "message", [&] { return what + ": printed " + show(out) + ", expected " + show(want); });
  });
  mc::scenario("calculations", "the program built at log levels 0, 1, 2 and 3 on the same files: restricted and unrestricted, counterpoise or not, five atom orders, every selection of one offset, orbital kind and dimer spin, files named as pun or log or both", [] {
    bool un = mc::flip(), cp = mc::flip(); int o = mc::choose(mc::bound(2, 5)), style = mc::choose(mc::bound(2, 3)); static const vector<vector<int>> ord{{2, 0, 1}, {0, 1, 2}, {1, 0, 2}, {2, 1, 0}, {1, 2, 0}}; Pick p; if (un && mc::flip()) p.sP = "Beta"; if (mc::flip()) p.t1 = "LUMO"; if (mc::flip()) { p.t2 = "LUMO"; p.n2 = 1; }
    World w = world({2, 1, 3}, 2, cp, un, un ? 20 : 0, 4, 4, 4); mc::state(mc::Hash().add((int)un).add((int)cp).add(o).add(style).add(p.sP).add(p.t1).add(p.t2)); string d = scratch();
    put_calc(d + "/pair", reordered(w.P, ord[o])); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", w.m2); vector<string> a = file_args(d, style); pick_args(a, p, cp, false); levels(a, "dimer order " + str(ord[o]) + (cp ? " counterpoise" : "") + (un ? " unrestricted" : ""), selectable(w.m1, p.s1, p.t1, p.n1) && selectable(w.m2, p.s2, p.t2, p.n2));
  });
  mc::scenario("failures", "the four programs on the same damaged inputs: each of the six files missing, empty or cut at any twelfth of its length, and five bad command lines", [] {
    World w = world({2, 1}, 1, false, false); string d = scratch(); static const char* f[] = {"/pair.log", "/pair.pun", "/mon1.log", "/mon1.pun", "/mon2.log", "/mon2.pun"}; put_calc(d + "/pair", reordered(w.P, {1, 0})); put_calc(d + "/mon1", w.m1); put_calc(d + "/mon2", w.m2); vector<string> a = file_args(d, 0); string what; int kind = mc::choose(2);
    if (kind == 0) { int i = mc::choose(6), how = mc::choose(13); mc::state(mc::Hash().add(i).add(how)); string path = d + f[i]; const Calc& c = i / 2 == 0 ? w.P : i / 2 == 1 ? w.m1 : w.m2; string t = i % 2 ? pun_text(c) : log_text(c); if (how == 0) unlink(path.c_str()); else put(path, t.substr(0, t.size() * (how - 1) / 12)); what = string(f[i]) + (how == 0 ? " missing" : " cut to " + to_string(how - 1) + "/12"); }
    else { static const vector<vector<string>> bad{{"--unknown"}, {"-orb_num_1", "5"}, {"-s_1", "Gamma"}, {"-orb_ty_1"}, {"-h"}}; int b = mc::choose(5); mc::state(mc::Hash().add(100 + b)); a.insert(a.end(), bad[b].begin(), bad[b].end()); what = "arguments ending in " + bad[b].back(); }
    levels(a, what, false);
  });
}
MC_MAIN(setup)
