// C24: string and path helpers against their defining laws, over every string of a bounded length.
#include "mc.hpp"
#include "string_support.hpp"
#include <string>
#include <vector>
using namespace catnip; using std::string; using std::vector; using std::to_string;

static string show(const string& s) { string r = "'"; for (unsigned char c : s) { if (c == '\t') r += "\\t"; else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c; } return r + "'"; }
static string show(const vector<string>& v) { string r = "["; for (auto& x : v) r += show(x) + " "; return r + "]"; }
static bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
template <class T> static string any(const T& v) { return show(v); }
static string any(bool b) { return b ? "true" : "false"; }

template <class T, class F> static void same(const char* fn, const string& args, const T& want, F f) {
  T got; mc::Attempt at = mc::attempt([&] { got = f(); }); mc::step();
  mc::check(at.ok(), fn, [&] { return string(fn) + "(" + args + ") was " + at.str(); });
  mc::check(got == want, fn, [&] { return string(fn) + "(" + args + ") is " + any(got) + ", expected " + any(want); });
}
// every string over the alphabet up to n characters, one choice per character
static string choose_string(const string& alphabet, int n) { string s; for (int len = mc::choose(n + 1); len > 0; --len) s += alphabet[mc::choose((int)alphabet.size())]; return s; }

static void whole(const string& s) {
  mc::state(mc::Hash().add(s)); mc::tr([&] { return show(s); }); string q = show(s);
  { vector<string> w; bool in = false; for (char c : s) { if (space(c)) in = false; else { if (!in) w.push_back(""); in = true; w.back() += c; } } same("splitSt", q, w, [&] { return splitSt(s); }); }
  { size_t p = s.rfind('/'); string dir = p == string::npos ? "" : s.substr(0, p + 1), last = p == string::npos ? s : s.substr(p + 1);
    same("getPath", q, dir, [&] { return getPath(s); }); same("lastStringInPath", q, last, [&] { return lastStringInPath(s); }); same("getPath + lastStringInPath", q, s, [&] { return getPath(s) + lastStringInPath(s); }); }
  { size_t b = 0, e = s.size(); while (b < e && space(s[b])) ++b; string l = s.substr(b); while (e > b && space(s[e - 1])) --e; string both = s.substr(b, e - b); size_t e2 = s.size(); while (e2 > 0 && space(s[e2 - 1])) --e2;
    same("ltrimmed", q, l, [&] { return ltrimmed(s); }); same("rtrimmed", q, s.substr(0, e2), [&] { return rtrimmed(s); }); same("trimmed", q, both, [&] { return trimmed(s); }); same("trim", q, both, [&] { string t = s; trim(t); return t; }); }
  { bool a = !s.empty(); for (char c : s) a = a && letter(c); same("isAlphabetical", q, a, [&] { return isAlphabetical(s); }); }
  for (int n = 0; n <= (int)s.size(); ++n) {
    string qn = q + ", " + to_string(n); size_t k = s.size() - n;
    same("firstN", qn, string(s, 0, n), [&] { return firstN(s, n); }); same("lastN", qn, string(s, k), [&] { return lastN(s, n); }); same("cut_beg", qn, string(s, n), [&] { return cut_beg(s, n); }); same("cut_end", qn, string(s, 0, k), [&] { return cut_end(s, n); });
    same("firstN + cut_beg", qn, s, [&] { return firstN(s, n) + cut_beg(s, n); }); same("cut_end + lastN", qn, s, [&] { return cut_end(s, n) + lastN(s, n); });
  }
}
static void pattern(const string& s, const string& p) {
  mc::state(mc::Hash().add(s).add(p)); mc::tr([&] { return show(s) + " pattern " + show(p); }); string q = show(s) + ", " + show(p); size_t L = p.size();
  // positions by definition
  long first = -1, last = -1; for (long i = 0; i + (long)L <= (long)s.size(); ++i) { bool m = true; for (size_t k = 0; k < L; ++k) m = m && s[i + k] == p[k]; if (m) { if (first < 0) first = i; last = i; } }
  bool f = first >= 0; mc::outcome(!f ? "absent" : first == last ? "once" : "several");
  same("foundSubStrInStr", q, f, [&] { return foundSubStrInStr(s, p); });
  same("grabStrBeforeFirstOccurance", q, f ? s.substr(0, first) : s, [&] { return grabStrBeforeFirstOccurance(s, p); });
  same("grabStrAfterFirstOccurance", q, f ? s.substr(first + L) : string(), [&] { return grabStrAfterFirstOccurance(s, p); });
  same("grabStrBeforeLastOccurance", q, f ? s.substr(0, last) : s, [&] { return grabStrBeforeLastOccurance(s, p); });
  same("grabStrBeforeLastOccuranceInclusive", q, f ? s.substr(0, last + L) : s, [&] { return grabStrBeforeLastOccuranceInclusive(s, p); });
  same("grabStrAfterLastOccurance", q, f ? s.substr(last + L) : string(), [&] { return grabStrAfterLastOccurance(s, p); });
  same("grabStrAfterLastOccuranceInclusive", q, f ? s.substr(last) : string(), [&] { return grabStrAfterLastOccuranceInclusive(s, p); });
}
static void setup() {
  mc::scenario("short-strings", "every string of up to 5 (thorough 6) characters over a, Z, dot, slash, blank, tab, newline, digit", [] { whole(choose_string("aZ./ \t\n7", mc::bound(5, 6))); });
  mc::scenario("character-classes", "every string of up to 2 of all 255 characters other than NUL (letters at the ends of the alphabet, all white space, bytes above 127)", [] { static const string all = [] { string s; for (int c = 1; c < 256; ++c) s += (char)c; return s; }(); whole(choose_string(all, 2)); });
  mc::scenario("zero-bytes", "every string of up to 5 characters over a, slash, blank, the zero byte and 0xff, and every one of up to 4 with every pattern of one or two of them", [] { static const string al("a/ \0\xff", 5); if (mc::flip()) whole(choose_string(al, 5)); else { string s = choose_string(al, 4); string p; for (int n = 1 + mc::choose(2); n > 0; --n) p += al[mc::choose(5)]; pattern(s, p); } });
  mc::scenario("long-strings", "every string of up to 9 (thorough 12) characters over letter, slash, blank", [] { whole(choose_string("a/ ", mc::bound(9, 12))); });
  mc::scenario("repeats", "lengths 1..130 of a letter, a slash or a blank run between two letters, and words of that length", [] { static const string cs = "a/ .\t"; int n = 1 + mc::choose(130); char c = cs[mc::choose((int)cs.size())]; int k = mc::choose(4); string r(n, c); whole(k == 0 ? r : k == 1 ? "b" + r + "d" : k == 2 ? r + "b" : "b" + r); });
  mc::scenario("patterns", "every string of up to 6 (thorough 8) characters over a, b, dot, slash with every pattern of one or two of them", [] { string s = choose_string("ab./", mc::bound(6, 8)); string p; for (int n = 1 + mc::choose(2); n > 0; --n) p += "ab./"[mc::choose(4)]; pattern(s, p); });
  mc::scenario("long-patterns", "strings of 29 lengths from 14 to 1030 around powers of two, of one letter or of words, in which a pattern of 1..4 characters stands once or twice, at the start, one further, in the middle, one before the end and at the end, or not at all", [] {
    static const vector<int> ns{14, 15, 16, 17, 21, 22, 23, 24, 30, 31, 32, 33, 62, 63, 64, 65, 66, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1024, 1030}; static const vector<string> ps{".", "ab", "a.b", "/ab/"}; int n = mc::pick(ns), c = mc::choose(3), i = mc::choose(6), j = mc::choose(6); string p = mc::pick(ps), s; for (int k = 0; k < n; ++k) s += c == 0 ? 'x' : c == 1 ? "xy "[k % 3] : "xyz wv/u"[k % 8]; int L = (int)p.size();
    for (int q : {i, j}) { if (q == 5) continue; int at = q == 0 ? 0 : q == 1 ? 1 : q == 2 ? n / 2 : q == 3 ? n - L - 1 : n - L; s.replace(at, L, p); } pattern(s, p); whole(s);
  });
  mc::scenario("overlapping-patterns", "every string of up to 10 (thorough 13) characters over a, b with every pattern of one to four of them", [] { string s = choose_string("ab", mc::bound(10, 13)); string p; for (int n = 1 + mc::choose(4); n > 0; --n) p += "ab"[mc::choose(2)]; pattern(s, p); });
  mc::scenario("white-space-patterns", "every string of up to 5 characters over D, blank, tab, minus, 1 with every pattern of one to three of them", [] { string s = choose_string("D \t-1", mc::bound(5, 6)); string p; for (int n = 1 + mc::choose(3); n > 0; --n) p += "D \t-1"[mc::choose(5)]; pattern(s, p); });
  mc::scenario("empty-pattern", "every string of up to 5 characters over a, slash, blank and the empty pattern: the parts before and after it give back the string", [] { string s = choose_string("a/ ", 5); mc::state(mc::Hash().add(s)); mc::tr([&] { return show(s); });
    same("before + after the first empty pattern", show(s), s, [&] { return grabStrBeforeFirstOccurance(s, "") + grabStrAfterFirstOccurance(s, ""); });
    same("before + after the last empty pattern", show(s), s, [&] { return grabStrBeforeLastOccurance(s, "") + grabStrAfterLastOccurance(s, ""); });
    same("before, inclusive + after the last empty pattern", show(s), s, [&] { return grabStrBeforeLastOccuranceInclusive(s, "") + grabStrAfterLastOccurance(s, ""); });
    same("before + after, inclusive, the last empty pattern", show(s), s, [&] { return grabStrBeforeLastOccurance(s, "") + grabStrAfterLastOccuranceInclusive(s, ""); }); });
}
MC_MAIN(setup)
