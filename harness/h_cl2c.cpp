/* The build tool that embeds the OpenCL kernel: for every file content, the C source it writes defines the named string with
   exactly that content. */
#define IOSIM_IMPL
#include "iosim.h"
#include "sx.h"
template class std::basic_string<char>;
sxfs_file sxfs_in, sxfs_out;
sxfs_file *sxfs_find(const char *path, bool write) { sx_assert(strcmp(path, write ? "out.c" : "in.cl") == 0, "file name"); return write ? &sxfs_out : &sxfs_in; }
int cl2c_main(int argc, char *argv[]);
static size_t p; static int peekc(void) { return p < sxfs_out.n ? sxfs_out.d[p] : -1; }
static void ws(void) { while (peekc() == ' ' || peekc() == '\n' || peekc() == '\t') p++; }
static void lit(const char *w) { ws(); for (; *w; w++) { if (*w == ' ') { ws(); continue; } sx_assert(peekc() == *w, "the declaration of the named string"); p++; } }
extern "C" void sx_main(void) {
  unsigned n = sx_param("n", 4), pre = sx_param("pre", 0); sxfs_in.exists = true; sxfs_in.writesLeft = sxfs_out.writesLeft = -1; static const char P[] = "a\\b\"c\n\n\"\\\"d //\t\n"; unsigned k = 0;
  for (; k < pre; k++) sxfs_in.d[k] = (uint8_t)P[k % (sizeof P - 1)]; n = n == 99 ? sx_choose(5, "n") : n; if (n) sx_sym(sxfs_in.d + pre, n, "text"); sxfs_in.n = pre + n;
  char a0[] = "cl2c", a1[] = "in.cl", a2[] = "out.c", a3[] = "NAME"; char *av[] = {a0, a1, a2, a3, nullptr}; sx_leak_begin(); int r = cl2c_main(4, av); sx_leak_check(); sx_assert(r == 0, "success");
  lit("const char *NAME = "); size_t o = 0;
  for (;;) {
    ws(); if (peekc() != '"') break; p++;
    for (;;) {
      int c = peekc(); sx_assert(c >= 0 && c != '\n', "a string literal ends on its line"); p++; if (c == '"') break; int v = c;
      if (c == '\\') { c = peekc(); p++; if (c >= '0' && c <= '7') { v = c - '0'; for (int i = 0; i < 2 && peekc() >= '0' && peekc() <= '7'; i++) v = v * 8 + (peekc() - '0'), p++; v &= 255; } else { v = c == 'n' ? '\n' : c == 't' ? '\t' : c == 'r' ? '\r' : c == 'a' ? 7 : c == 'b' ? 8 : c == 'v' ? 11 : c == 'f' ? 12 : c; sx_assert(c == 'n' || c == 't' || c == 'r' || c == 'a' || c == 'b' || c == 'v' || c == 'f' || c == '\\' || c == '"' || c == '\'' || c == '?', "a known escape sequence"); } }
      sx_assert(o < sxfs_in.n && sxfs_in.d[o] == v, "the string equals the file"); o++;
    }
  }
  lit(";"); ws(); sx_assert(p == sxfs_out.n, "nothing else is written"); sx_assert(o == sxfs_in.n, "the whole file"); sx_reach("done");
}
