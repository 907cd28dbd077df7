// Scratch directory and ways to break a file of numbers.
#ifndef VF_FILES_HPP
#define VF_FILES_HPP
#include "common.hpp"
#include <sys/stat.h>
namespace vf {
struct Buf { char* p; long n; Buf() : p(0), n(0) {} ~Buf() { free(p); } void load(const char* f) { free(p); p = 0; n = 0; FILE* h = fopen(f, "rb"); if (!h) return; fseek(h, 0, SEEK_END); n = ftell(h); rewind(h); p = (char*)malloc(n + 1); long k = (long)fread(p, 1, n, h); n = k; p[n] = 0; fclose(h); } };
inline void put(const char* f, const char* s, long n) { FILE* h = fopen(f, "wb"); if (!h) { fprintf(stderr, "cannot write %s\n", f); _exit(3); } if (n && fwrite(s, 1, n, h) != (size_t)n) _exit(3); fclose(h); }
inline bool isws(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
enum { BRK = 6 };
inline const char* brkName(int k) { static const char* N[] = {"missing", "empty", "truncated", "garbage", "directory", "blank"}; return N[k]; }
// fewer numbers than before can be read from the front afterwards
inline void breakFile(Rng& r, const char* f, int how) { Buf b; b.load(f); switch (how) { case 0: unlink(f); break; case 1: put(f, "", 0); break; case 5: put(f, " \n \t\n", 5); break; case 4: unlink(f); mkdir(f, 0755); break;
    case 2: { int tok = 0; for (long i = 0; i < b.n; ++i) if (!isws(b.p[i]) && (i == 0 || isws(b.p[i - 1]))) ++tok; int keepn = r.range(0, tok - 1), t = 0; long i = 0; for (; i < b.n; ++i) if (!isws(b.p[i]) && (i == 0 || isws(b.p[i - 1]))) { if (t == keepn) break; ++t; } put(f, b.p, i); break; }
    case 3: { long i; do i = r.range(0, (int)b.n - 1); while (isws(b.p[i]) || (i > 0 && !isws(b.p[i - 1]))); static const char* G[] = {"x", "abc", "#", "--", "e5", "\"", ";"}; const char* g = G[r.range(0, 6)]; memcpy(b.p + i, g, 1); if (g[1] && i + 1 < b.n && !isws(b.p[i + 1])) b.p[i + 1] = g[1]; put(f, b.p, b.n); break; } } char k[64]; snprintf(k, sizeof k, "broken:%s", brkName(how)); add(k); }
inline void wipe(const char* f) { struct stat st; if (lstat(f, &st) == 0) { if (S_ISDIR(st.st_mode)) rmdir(f); else unlink(f); } }
inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
} // namespace vf
#endif
