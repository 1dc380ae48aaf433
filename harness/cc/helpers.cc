// Reads records "op, argument lengths, arguments" from a file and writes one
// line per record with what the helper of validate.h says. The arguments are
// copied to strings of exactly their size, so that AddressSanitizer sees
// every read behind their end.
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>

#include "validate/validate.h"

static std::string exact(const char* p, size_t n) {
  std::string s;
  s.assign(p, n);
  s.shrink_to_fit();
  return s;
}

int main(int argc, char** argv) {
  if (argc != 3) return 3;
  FILE* f = fopen(argv[1], "rb");
  FILE* o = fopen(argv[2], "wb");
  if (!f || !o) return 3;
  std::vector<char> buf;
  for (;;) {
    int op = fgetc(f);
    if (op == EOF) break;
    uint32_t la, lb;
    if (fread(&la, 4, 1, f) != 1 || fread(&lb, 4, 1, f) != 1) return 3;
    buf.resize(static_cast<size_t>(la) + lb + 1);
    if (fread(buf.data(), 1, la + lb, f) != la + lb) return 3;
    const std::string a = exact(buf.data(), la), b = exact(buf.data() + la, lb);
    const std::string a0 = a, b0 = b;
    long long r = -1;
    switch (op) {
      case 'p': r = pgv::IsPrefix(a, b); break;
      case 's': r = pgv::IsSuffix(a, b); break;
      case 'c': r = pgv::Contains(a, b); break;
      case 'n': r = pgv::NotContains(a, b); break;
      case '4': r = pgv::IsIpv4(a); break;
      case '6': r = pgv::IsIpv6(a); break;
      case 'i': r = pgv::IsIp(a); break;
      case 'h': r = pgv::IsHostname(a); break;
      case 'u': r = static_cast<long long>(pgv::Utf8Len(a)); break;
      default: return 3;
    }
    if (a != a0 || b != b0) r = -2;
    fprintf(o, "%lld\n", r);
    fflush(o);
  }
  fclose(o);
  return 0;
}
