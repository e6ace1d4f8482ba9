/* Stand-ins for compiler, archiver, linker and custom tools. The behaviour is chosen by argv[0].
 *  vcc vcxx   compile: -o OUT [-MF F] [-I dir]... SRC ; follows #include "x"; writes a depfile
 *  var        archive: FLAGS OUT members... | @listfile
 *  vld        link: -o OUT inputs...   (vcc/vcxx without -c also link)
 *  vact       --in F ... --out F ... -- any arguments
 *  vnm vreadelf  print something derived from the file
 * Every run appends one JSON line to $VLOG. Every output holds the digest of everything it was made from.
 * An output is first written as INCOMPLETE and finished after a delay derived from $VSEED; reading an
 * INCOMPLETE or missing input is an error and is logged as such. */
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static char *buf; static size_t len, cap;
static void put(const char *s, size_t n) {
  if (len + n + 1 > cap) { cap = (len + n + 1) * 2; buf = realloc(buf, cap); }
  memcpy(buf + len, s, n); len += n; buf[len] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }
static void jstr(const char *s) {
  char t[8];
  puts_("\"");
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') { t[0] = '\\'; t[1] = c; put(t, 2); }
    else if (c < 0x20 || c >= 0x7f) { snprintf(t, sizeof t, "\\u%04x", c); puts_(t); }
    else put((char *)&c, 1);
  }
  puts_("\"");
}
static uint64_t fnv(uint64_t h, const void *p, size_t n) {
  const unsigned char *s = p;
  while (n--) { h ^= *s++; h *= 1099511628211ULL; }
  return h;
}
#define H0 14695981039346656037ULL
static const char *tool; static int ac; static char **av;
static char cwd[4096];
static const char *errkind, *errfile;
static char *reads[4096]; static int nreads;
static char *writes[256]; static int nwrites;

static void logit(int rc) {
  const char *f = getenv("VLOG");
  if (!f) return;
  len = 0;
  puts_("{\"tool\":"); jstr(tool); puts_(",\"cwd\":"); jstr(cwd); puts_(",\"argv\":[");
  for (int i = 1; i < ac; i++) { if (i > 1) puts_(","); jstr(av[i]); }
  puts_("],\"reads\":[");
  for (int i = 0; i < nreads; i++) { if (i) puts_(","); jstr(reads[i]); }
  puts_("],\"writes\":[");
  for (int i = 0; i < nwrites; i++) { if (i) puts_(","); jstr(writes[i]); }
  puts_("],\"rc\":"); puts_(rc ? "1" : "0");
  if (errkind) { puts_(",\"err\":"); jstr(errkind); puts_(",\"file\":"); jstr(errfile ? errfile : ""); }
  const char *ll = getenv("LD_LIBRARY_PATH");
  if (ll) { puts_(",\"llp\":"); jstr(ll); }
  puts_("}\n");
  int fd = open(f, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd >= 0) { if (write(fd, buf, len) < 0) {} close(fd); }
}
static void fail(const char *kind, const char *file) {
  errkind = kind; errfile = file;
  fprintf(stderr, "%s: %s: %s\n", tool, kind, file);
  logit(1);
  exit(1);
}
static char *slurp(const char *p, size_t *n) {
  int fd = open(p, O_RDONLY);
  if (fd < 0) return NULL;
  struct stat st;
  if (fstat(fd, &st) || !S_ISREG(st.st_mode)) { close(fd); return NULL; }
  char *b = malloc(st.st_size + 1); size_t k = 0; ssize_t r;
  while (k < (size_t)st.st_size && (r = read(fd, b + k, st.st_size - k)) > 0) k += r;
  b[k] = 0; *n = k; close(fd);
  return b;
}
static char *input(const char *p, size_t *n) {
  char *b = slurp(p, n);
  if (!b) fail("missing-input", p);
  if (nreads < 4096) reads[nreads++] = strdup(p);
  if (!strncmp(b, "INCOMPLETE", 10)) fail("read-before-finished", p);
  return b;
}
static void begin(const char *p) {
  unlink(p);
  int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0755);
  if (fd < 0) fail("cannot-write", p);
  if (write(fd, "INCOMPLETE\n", 11) < 0) {}
  close(fd);
  if (nwrites < 256) writes[nwrites++] = strdup(p);
}
static void jitter(const char *p) {
  const char *j = getenv("VJIT"), *s = getenv("VSEED");
  if (!j) return;
  uint64_t h = fnv(fnv(H0, s ? s : "", s ? strlen(s) : 0), p, strlen(p));
  h ^= h >> 29;
  unsigned m = atoi(j);
  if (m) usleep(h % m);
}
static void finish(const char *p, const char *s, size_t n) {
  int fd = open(p, O_WRONLY | O_TRUNC, 0755);
  if (fd < 0) fail("cannot-write", p);
  if (write(fd, s, n) < 0) {}
  close(fd);
}
static char *seen[2048]; static int nseen;
static const char *incs[512]; static int nincs;
static char *out_; static size_t olen, ocap;
static void o(const char *s, size_t n) {
  if (olen + n + 1 > ocap) { ocap = (olen + n + 1) * 2; out_ = realloc(out_, ocap); }
  memcpy(out_ + olen, s, n); olen += n; out_[olen] = 0;
}
static void os(const char *s) { o(s, strlen(s)); }
static void dig(const char *what, const char *name, const char *b, size_t n) {
  char t[64];
  os(what); os(" "); os(name);
  snprintf(t, sizeof t, " %016llx\n", (unsigned long long)fnv(H0, b, n));
  os(t);
}
static void scan(const char *path) {
  for (int i = 0; i < nseen; i++) if (!strcmp(seen[i], path)) return;
  if (nseen < 2048) seen[nseen++] = strdup(path);
  size_t n; char *b = input(path, &n);
  dig("dep", path, b, n);
  char *save, *line = strtok_r(b, "\n", &save);
  for (; line; line = strtok_r(NULL, "\n", &save)) {
    if (strncmp(line, "#include \"", 10)) continue;
    char *e = strchr(line + 10, '"');
    if (!e) continue;
    *e = 0;
    char cand[8192]; const char *sl = strrchr(path, '/');
    int found = 0;
    snprintf(cand, sizeof cand, "%.*s%s", sl ? (int)(sl - path + 1) : 0, path, line + 10);
    if (access(cand, R_OK) == 0) { scan(cand); found = 1; }
    for (int i = 0; !found && i < nincs; i++) {
      snprintf(cand, sizeof cand, "%s/%s", incs[i], line + 10);
      if (access(cand, R_OK) == 0) { scan(cand); found = 1; }
    }
    if (!found) fail("missing-header", strdup(line + 10));
  }
}
static int ends(const char *s, const char *e) {
  size_t a = strlen(s), b = strlen(e);
  return a >= b && !strcmp(s + a - b, e);
}
static int is_src(const char *s) {
  return ends(s, ".c") || ends(s, ".cc") || ends(s, ".cpp") || ends(s, ".cxx") || ends(s, ".S") || ends(s, ".s");
}
static void mkparent(const char *p) {
  char t[8192]; snprintf(t, sizeof t, "%s", p);
  for (char *q = t + 1; *q; q++) if (*q == '/') { *q = 0; mkdir(t, 0755); *q = '/'; }
}
static const char *esc(const char *p) {   /* a name in a depfile, as gcc writes it */
  char *r = malloc(2 * strlen(p) + 1), *d = r;
  for (; *p; p++) { if (*p == ' ' || *p == '#') *d++ = '\\'; if (*p == '$') *d++ = '$'; *d++ = *p; }
  *d = 0;
  return r;
}
static int compile_(void) {
  const char *out = NULL, *mf = NULL, *src = NULL;
  os(tool); os("\n");
  for (int i = 1; i < ac; i++) {
    if (!strcmp(av[i], "-o") && i + 1 < ac) { out = av[++i]; continue; }
    if (!strcmp(av[i], "-MF") && i + 1 < ac) { mf = av[++i]; continue; }
    if (!strncmp(av[i], "-I", 2)) incs[nincs++] = av[i] + 2;
    if (av[i][0] != '-' && is_src(av[i])) { if (src) fail("two-sources", av[i]); src = av[i]; continue; }
    os("arg "); os(av[i]); os("\n");
  }
  if (!out || !src) fail("bad-usage", out ? "no source" : "no output");
  begin(out);
  scan(src);
  jitter(out);
  if (mf) {
    FILE *f = fopen(mf, "w");
    if (!f) fail("cannot-write", mf);
    fprintf(f, "%s:", esc(out));
    int col = strlen(out) + 1;
    for (int i = 0; i < nseen; i++) {
      int k = strlen(seen[i]);
      if (col + k > 72 && i) { fprintf(f, " \\\n"); col = 0; }
      fprintf(f, " %s", esc(seen[i])); col += k + 1;
    }
    fprintf(f, "\n");
    fclose(f);
  }
  finish(out, out_, olen);
  return 0;
}
static int link_(void) {
  const char *out = NULL;
  static char *v[8192]; int n = 0;
  os(tool); os("\n");
  for (int i = 1; i < ac && n < 8000; i++) {
    if (av[i][0] == '@') {        /* a response file */
      size_t k; char *b = slurp(av[i] + 1, &k), *save;
      if (!b) fail("missing-input", av[i] + 1);
      for (char *m = strtok_r(b, " \n", &save); m && n < 8000; m = strtok_r(NULL, " \n", &save)) v[n++] = m;
    } else v[n++] = av[i];
  }
  for (int i = 0; i + 1 < n; i++) if (!strcmp(v[i], "-o")) out = v[i + 1];
  if (!out) fail("bad-usage", "no output");
  begin(out);
  for (int i = 0; i < n; i++) {
    if (!strcmp(v[i], "-o")) { i++; continue; }
    const char *a = v[i];
    if (a[0] != '-' && (ends(a, ".o") || ends(a, ".a") || strstr(a, ".so") || strchr(a, '/') || access(a, R_OK) == 0)) {
      size_t k0; char *b = input(a, &k0); dig("in", a, b, k0);
      if (!strncmp(b, "archive\n", 8)) {   /* a thin archive: its members are read too */
        char *save, *l = strtok_r(b, "\n", &save);
        for (; l; l = strtok_r(NULL, "\n", &save)) if (!strncmp(l, "member ", 7)) {
          char *sp = strrchr(l, ' '); *sp = 0;
          size_t k; char *c = input(l + 7, &k);
          char t[64]; snprintf(t, sizeof t, "%016llx", (unsigned long long)fnv(H0, c, k));
          if (strcmp(t, sp + 1)) fail("stale-archive", a);
        }
      }
      continue;
    }
    os("arg "); os(a); os("\n");
  }
  jitter(out);
  finish(out, out_, olen);
  return 0;
}
static int ar_(void) {
  if (ac < 3) fail("bad-usage", "ar");
  const char *out = av[2];
  os("archive\n"); os("ar "); os(av[1]); os("\n");
  begin(out);
  for (int i = 3; i < ac; i++) {
    if (av[i][0] == '@') {
      size_t n; char *b = input(av[i] + 1, &n), *save;
      for (char *m = strtok_r(b, " \n", &save); m; m = strtok_r(NULL, " \n", &save)) {
        size_t k; char *c = input(m, &k); dig("member", m, c, k);
      }
    } else { size_t k; char *c = input(av[i], &k); dig("member", av[i], c, k); }
  }
  jitter(out);
  finish(out, out_, olen);
  return 0;
}
static int act_(void) {
  const char *outs[128]; int no = 0; int i;
  const char *ins[256]; int ni = 0;
  for (i = 1; i < ac; i++) {
    if (!strcmp(av[i], "--in") && i + 1 < ac) ins[ni++] = av[++i];
    else if (!strcmp(av[i], "--out") && i + 1 < ac) outs[no++] = av[++i];
    else break;
  }
  int first = i;
  for (int k = 0; k < no; k++) {
    if (getenv("VMKDIR")) mkparent(outs[k]);
    begin(outs[k]);
  }
  for (int k = 0; k < ni; k++) { size_t n; char *b = input(ins[k], &n); dig("//in", "", b, n); }
  for (int k = first; k < ac; k++) { os("//arg "); os(av[k]); os("\n"); }
  for (int k = 0; k < no; k++) {
    jitter(outs[k]);
    size_t keep = olen;
    const char *sl = strrchr(outs[k], '/');
    os("//out "); os(sl ? sl + 1 : outs[k]); os("\n");
    finish(outs[k], out_, olen);
    olen = keep;
  }
  return 0;
}
/* $VRSP: arguments of the form @file are replaced by the words of the file, as gcc and ar do. */
static void respond(void) {
  char **n = malloc(sizeof *n * 65536); int k = 0;
  n[k++] = av[0];
  for (int i = 1; i < ac && k < 65000; i++) {
    size_t l; char *b = av[i][0] == '@' ? slurp(av[i] + 1, &l) : NULL;
    if (!b) { n[k++] = av[i]; continue; }
    char *w = malloc(l + 2), *e = b + l;
    while (b < e && k < 65000) {
      while (b < e && strchr(" \t\n\r\f\v", *b)) b++;
      if (b >= e) break;
      char *d = w, q = 0;
      for (; b < e && (q || !strchr(" \t\n\r\f\v", *b)); b++) {
        if (*b == '\\' && b + 1 < e) *d++ = *++b;
        else if (q ? *b == q : *b == '"' || *b == '\'') q = q ? 0 : *b;
        else *d++ = *b;
      }
      *d = 0;
      n[k++] = strdup(w);
    }
  }
  ac = k; av = n;
}
int main(int argc, char **argv) {
  ac = argc; av = argv;
  const char *s = strrchr(argv[0], '/');
  tool = s ? s + 1 : argv[0];
  if (!getcwd(cwd, sizeof cwd)) return 2;
  int rc = 0;
  if (getenv("VRSP")) { respond(); argc = ac; argv = av; }
  if (!strcmp(tool, "var") || !strcmp(tool, "ar")) rc = ar_();
  else if (!strcmp(tool, "vact")) rc = act_();
  else if (!strcmp(tool, "vld")) rc = link_();
  else if (!strcmp(tool, "readelf") || !strcmp(tool, "nm")) {
    const char *f = argv[argc - 1]; size_t n; char *b = slurp(f, &n);
    if (!b) return 1;
    if (!strcmp(tool, "nm")) printf("s%016llx T 0 0\n", (unsigned long long)fnv(H0, b, n));   /* the interface: all of it */
    else printf("0x0 (SONAME) Library soname: [%s]\n", f);
    return 0;
  } else {
    int c = 0;
    for (int i = 1; i < argc; i++) {
      if (!strcmp(argv[i], "-dM")) { printf("#define __linux__ 1\n"); return 0; }
      if (!strcmp(argv[i], "-c")) c = 1;
    }
    rc = c ? compile_() : link_();
  }
  logit(rc);
  return rc;
}
