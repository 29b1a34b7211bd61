// VC-SOURCES: setting_file_reader/c2a_command_database.cpp utilities/endian.cpp
// VC-REPLACE: ~(__isoc23_)?strtoul WITH vc_strtoul
// VC-REPLACE: ~(__isoc23_)?strtol WITH vc_strtol
// VC-REPLACE: __errno_location WITH vc_errno
#include "vc_s2e.hpp"
#include "setting_file_reader/c2a_command_database.hpp"
using namespace s2e::setting_file_reader;
typedef unsigned char u8;
static long gv_number; static int gv_errno;
extern "C" int* vc_errno() { return &gv_errno; }
// the text's number (standard library)
extern "C" unsigned long vc_strtoul(const char* t, char** end, int base) { if (end) *end = (char*)t + 1; return (unsigned long)gv_number; }
extern "C" long vc_strtol(const char* t, char** end, int base) { if (end) *end = (char*)t + 1; return gv_number; }
// command arguments are encoded most significant byte first in the size of their type
PROP(argument) {
  vc_option("allow-throw");
  static const C2aArgumentType kType[] = {C2aArgumentType::kUint8t, C2aArgumentType::kUint16t, C2aArgumentType::kUint32t, C2aArgumentType::kUint64t, C2aArgumentType::kInt8t, C2aArgumentType::kInt16t, C2aArgumentType::kInt32t, C2aArgumentType::kInt64t};
  int k = 0; while (k < 7 && vc_bool("next type")) k++;
  int size = 1 << (k % 4); bool is_signed = k >= 4; unsigned long x = (unsigned long)vc_u64("number"); if (is_signed) { long half = size == 8 ? 0 : 1L << (8 * size - 1); if (half) { vc_assume((long)x >= -half); vc_assume((long)x < half); } } else if (size < 8) vc_assume(x < (1UL << (8 * size)));
  gv_number = (long)x; u8 p[10]; for (int i = 0; i < 10; i++) p[i] = 0xa5; size_t n = 0; std::string t = "7"; if (!vc_is_symbolic()) t = is_signed ? std::to_string((long)x) : std::to_string(x);
  DecodeC2aCommandArgument(kType[k], t, p, n);
  vc_check("the argument has the size of its type", n == (size_t)size); bool ok = true, out = true; for (int i = 0; i < 10; i++) if (i < size) ok &= p[i] == (u8)(x >> (8 * (size - 1 - i))); else out &= p[i] == 0xa5;
  vc_check("the argument is encoded most significant byte first", ok); vc_check("nothing beyond the argument is written", out);
}
