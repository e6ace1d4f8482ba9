/* Stand-ins for the tools of a Mac build. The behaviour is chosen by argv[0].
 *  mcc mcxx libtool dsymutil   log the command line, write the file named by -o and the depfile named by -MF
 *  strip lipo mact             log the command line; lipo writes -output, mact every --out; mact --fail-if F fails if F exists
 *  xcodebuild xcrun sw_vers    answer with $MXV, $MXB and a fixed naming of SDKs
 *  otool nm plutil touch-free  print something fixed
 * Every logged run appends one JSON line to $VLOG with the arguments (response files expanded). */
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char *buf; static size_t len, cap;
static void put(const char *s, size_t n) {
  if (len + n + 1 > cap) { cap = (len + n + 1) * 2; buf = realloc(buf, cap); }
  memcpy(buf + len, s, n); len += n; buf[len] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }
static void jstr(const char *s) {
  char t[8];
  puts_("\"");
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { t[0] = '\\'; t[1] = c; put(t, 2); }
    else if (c < 0x20 || c >= 0x7f) { snprintf(t, sizeof t, "\\u%04x", c); puts_(t); }
    else put((char *)&c, 1);
  }
  puts_("\"");
}
static const char *tool; static char *a[65536]; static int n;
static const char *names[] = {"CONFIGURATION", "PRODUCT_NAME", "BUILT_PRODUCTS_DIR", "TARGET_BUILD_DIR", "SRCROOT",
  "SOURCE_ROOT", "EXECUTABLE_NAME", "EXECUTABLE_PATH", "FULL_PRODUCT_NAME", "MACH_O_TYPE", "PRODUCT_TYPE",
  "XCODE_VERSION_ACTUAL", "SDKROOT", "LD_DYLIB_INSTALL_NAME", "DYLIB_INSTALL_NAME_BASE", "BUILT_FRAMEWORKS_DIR",
  "CONTENTS_FOLDER_PATH", "EXECUTABLE_FOLDER_PATH", "UNLOCALIZED_RESOURCES_FOLDER_PATH", "JAVA_FOLDER_PATH",
  "FRAMEWORKS_FOLDER_PATH", "SHARED_FRAMEWORKS_FOLDER_PATH", "SHARED_SUPPORT_FOLDER_PATH", "PLUGINS_FOLDER_PATH",
  "XPCSERVICES_FOLDER_PATH", "INFOPLIST_PATH", "WRAPPER_NAME", 0};
static void expand(const char *f) {
  FILE *h = fopen(f, "r");
  if (!h) { a[n++] = strdup("@missing-response-file"); return; }
  char *w = malloc(65536); int k = 0, in = 0, q = 0, c;
  while ((c = fgetc(h)) != EOF) {
    if (q) { if (c == q) q = 0; else if (c == '\\' && q == '"') w[k++] = fgetc(h); else w[k++] = c; continue; }
    if (c == '\'' || c == '"') { q = c; in = 1; continue; }
    if (c == '\\') { w[k++] = fgetc(h); in = 1; continue; }
    if (c == ' ' || c == '\n' || c == '\t') { if (in) { w[k] = 0; a[n++] = strdup(w); k = in = 0; } continue; }
    w[k++] = c; in = 1;
  }
  if (in) { w[k] = 0; a[n++] = strdup(w); }
  fclose(h);
}
static void logit(int rc) {
  const char *f = getenv("VLOG");
  if (!f) return;
  char cwd[4096];
  if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
  puts_("{\"tool\":"); jstr(tool); puts_(",\"cwd\":"); jstr(cwd); puts_(",\"argv\":[");
  for (int i = 0; i < n; i++) { if (i) puts_(","); jstr(a[i]); }
  puts_("],\"rc\":"); puts_(rc ? "1" : "0");
  if (rc) puts_(",\"err\":\"failed\"");
  puts_(",\"env\":{");
  int first = 1;
  for (int i = 0; names[i]; i++) {
    char *v = getenv(names[i]);
    if (!v || strcmp(tool, "mact")) continue;
    if (!first) puts_(",");
    first = 0; jstr(names[i]); puts_(":"); jstr(v);
  }
  puts_("}}\n");
  int fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd >= 0) { if (write(fd, buf, len) < 0) {} close(fd); }
}
static int bad(const char *w, const char *x) { fprintf(stderr, "%s: %s %s\n", tool, w, x); logit(1); return 1; }
static int out(const char *p) {
  FILE *h = fopen(p, "w");
  if (!h) return 0;
  fprintf(h, "%s", tool);
  for (int i = 0; i < n; i++) fprintf(h, " %s", a[i]);
  fprintf(h, "\n");
  fclose(h);
  return 1;
}
static int ends(const char *s, const char *e) { size_t x = strlen(s), y = strlen(e); return x >= y && !strcmp(s + x - y, e); }
static char *env(const char *k, char *d) { char *v = getenv(k); return v && *v ? v : d; }

int main(int argc, char **argv) {
  const char *s = strrchr(argv[0], '/');
  tool = s ? s + 1 : argv[0];
  for (int i = 1; i < argc; i++) if (argv[i][0] == '@' && access(argv[i] + 1, F_OK) == 0) expand(argv[i] + 1); else a[n++] = argv[i];
  if (!strcmp(tool, "xcodebuild")) {
    if (n && !strcmp(a[0], "-version")) { printf("Xcode %s\nBuild version %s\n", env("MXV", "12.4"), env("MXB", "12D4e")); return 0; }
    if (n && !strcmp(a[0], "-showsdks")) { printf("OS X SDKs:\n\tOS X 11.1    -sdk macosx11.1\n"); return 0; }
    return 1;
  }
  if (!strcmp(tool, "xcrun")) {
    if (n < 3) return 1;
    const char *sdk = *a[1] ? a[1] : "macosx11.1";
    if (!strcmp(a[2], "--show-sdk-path")) printf("/sdks/%s.sdk\n", sdk);
    else if (!strcmp(a[2], "--show-sdk-version")) printf("11.1\n");
    else if (!strcmp(a[2], "--show-sdk-build-version")) printf("20C63\n");
    else if (!strcmp(a[2], "--show-sdk-platform-path")) printf("/platforms/%s\n", sdk);
    else return 1;
    return 0;
  }
  if (!strcmp(tool, "sw_vers")) { printf("20D64\n"); return 0; }
  if (!strcmp(tool, "otool")) { printf("          cmd LC_ID_DYLIB\n"); return 0; }
  if (!strcmp(tool, "nm")) { printf("_f T 0 0\n"); return 0; }
  const char *o = 0, *mf = 0, *src = 0;
  for (int i = 0; i < n; i++) {
    if (!strcmp(a[i], "-o") && i + 1 < n) o = a[++i];
    else if (!strcmp(a[i], "-output") && i + 1 < n && !strcmp(tool, "lipo")) o = a[++i];
    else if (!strcmp(a[i], "-MF") && i + 1 < n) mf = a[++i];
    else if (!strcmp(a[i], "-include") && i + 1 < n) {
      char t[8192];
      snprintf(t, sizeof t, "%s.gch", a[++i]);
      if (access(t, R_OK) && access(a[i], R_OK)) return bad("no prefix header", a[i]);
    } else if (a[i][0] != '-' && (ends(a[i], ".o") || ends(a[i], ".c") || ends(a[i], ".cc") || ends(a[i], ".m") || ends(a[i], ".mm"))) {
      if (access(a[i], R_OK)) return bad("missing input", a[i]);
      src = a[i];
    }
  }
  if (!strcmp(tool, "mact")) {
    for (int i = 0; i + 1 < n; i++) {
      if (!strcmp(a[i], "--fail-if") && access(a[i + 1], F_OK) == 0) return bad("told to fail by", a[i + 1]);
      if (!strcmp(a[i], "--out") && !out(a[i + 1])) return bad("cannot write", a[i + 1]);
      if (!strcmp(a[i], "--in") && access(a[i + 1], F_OK)) return bad("missing", a[i + 1]);
    }
  }
  if (!strcmp(tool, "dsymutil") || !strcmp(tool, "strip"))
    for (int i = 0; i < n; i++)
      if (a[i][0] != '-' && a[i] != o && access(a[i], F_OK)) return bad("missing", a[i]);
  if (o && !out(o)) return bad("cannot write", o);
  if (mf) {
    FILE *h = fopen(mf, "w");
    if (!h) return bad("cannot write", mf);
    fprintf(h, "%s: %s\n", o ? o : "x", src ? src : "");
    fclose(h);
  }
  logit(0);
  return 0;
}
