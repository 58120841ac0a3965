// Messages of every composition at one configured log level; compiled once per level with the namespace renamed.
#include "log.hpp"
#include <iomanip>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
using namespace catnip;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
namespace CAT(probe_ns, LOG_LEVEL) {
struct Own { int v; };
inline std::ostream& operator<<(std::ostream& o, const Own& x) { return o << "<own " << x.v << ">"; }
static std::string lv = "an lvalue: {x}"; static int num = -42; static const char* cp = "c-text"; static double dbl = 0.1; static const std::string cs = "";
#define P0 "literal"
#define P1 lv
#define P2 std::string("temporary ") + std::to_string(num)
#define P3 num
#define P4 7
#define P5 dbl
#define P6 cp
#define P7 'c'
#define P8 Own{num}
#define P9 cs
#define P10 true
#define P11 (size_t)18446744073709551615ull
#define P12 std::setw(6)
#define P13 "%d\n\ttwo lines"
#define P14 std::endl
struct E { std::string text; int line; };
static std::string expected(const std::ostringstream& o) { return o.str(); }
#define ONE(...) { std::ostringstream o; o << __VA_ARGS__; text = expected(o); if (doit) { line = __LINE__; LOG(__VA_ARGS__, level); } } break;
#define C2(a) case a * 15 + 0: ONE(P##a << P0) case a * 15 + 1: ONE(P##a << P1) case a * 15 + 2: ONE(P##a << P2) case a * 15 + 3: ONE(P##a << P3) case a * 15 + 4: ONE(P##a << P4) case a * 15 + 5: ONE(P##a << P5) case a * 15 + 6: ONE(P##a << P6) case a * 15 + 7: ONE(P##a << P7) case a * 15 + 8: ONE(P##a << P8) case a * 15 + 9: ONE(P##a << P9) case a * 15 + 10: ONE(P##a << P10) case a * 15 + 11: ONE(P##a << P11) case a * 15 + 12: ONE(P##a << P12) case a * 15 + 13: ONE(P##a << P13) case a * 15 + 14: ONE(P##a << P14)
#define C3B(a, b) case 240 + (a * 5 + b) * 5 + 0: ONE(P##a << P##b << P0) case 240 + (a * 5 + b) * 5 + 1: ONE(P##a << P##b << P1) case 240 + (a * 5 + b) * 5 + 2: ONE(P##a << P##b << P2) case 240 + (a * 5 + b) * 5 + 3: ONE(P##a << P##b << P3) case 240 + (a * 5 + b) * 5 + 4: ONE(P##a << P##b << P4)
#define C3(a) C3B(a, 0) C3B(a, 1) C3B(a, 2) C3B(a, 3) C3B(a, 4)
}
// composition 0..224: two parts; 225..239: one part; 240..364: three parts; 365: six parts
void CAT(probe_, LOG_LEVEL)(int composition, int level, bool doit, std::string& text, std::string& file, int& line) {
  using namespace CAT(probe_ns, LOG_LEVEL);
  file = __FILE__;
  switch (composition) {
    C2(0) C2(1) C2(2) C2(3) C2(4) C2(5) C2(6) C2(7) C2(8) C2(9) C2(10) C2(11) C2(12) C2(13)
    case 210: case 211: case 212: case 213: case 214: case 215: case 216: case 217: case 218: case 219: case 220: case 221: case 222: case 223: case 224: text = "\x01"; break;
    case 225: ONE(P0) case 226: ONE(P1) case 227: ONE(P2) case 228: ONE(P3) case 229: ONE(P4) case 230: ONE(P5) case 231: ONE(P6) case 232: ONE(P7) case 233: ONE(P8) case 234: ONE(P9) case 235: ONE(P10) case 236: ONE(P11) case 237: ONE(P12) case 238: ONE(P13) case 239: text = "\x01"; break;
    C3(0) C3(1) C3(2) C3(3) C3(4)
    case 365: ONE(P0 << P1 << P2 << P3 << P4 << P5 << P6 << P7 << P8 << P14 << P0)
  }
}
