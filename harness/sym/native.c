/* Native versions of the engine's primitives: a harness binary run natively
 * takes its inputs from a case file and so replays one path on the real code.
 *
 * usage: BIN replay FILE     FILE: "harness case v1 v2 ..." (one line)
 *        BIN batch FILE      many such lines, each followed by "= o1 o2 ...";
 *                            every case must end normally with exactly these
 *                            observations.
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

struct entry { const char *name; void (*fn)(void); };

static uint64_t *in_v;
static size_t in_n, in_i;
static uint64_t *ob_v;
static size_t ob_n, ob_i;
static int checking_obs, quiet;
static uint64_t case_no;

void rsym_any(uint8_t *p, size_t n, const char *name, size_t nl) {
  size_t parts = (n == 1 || n == 2 || n == 4 || n == 8) ? 1 : n;
  size_t k = parts == 1 ? n : 1;
  for (size_t i = 0; i < parts; i++) {
    uint64_t v = 0;
    if (in_i < in_n) v = in_v[in_i];
    in_i++;
    if (!quiet) printf("INPUT %.*s = %llu\n", (int)nl, name, (unsigned long long)v);
    memcpy(p + i * k, &v, k);
  }
}
void rsym_assume(uint32_t c) {
  if (!c) { printf("ASSUMPTION NOT MET\n"); fflush(stdout); _exit(43); }
}
void rsym_check(uint32_t c, const char *name, size_t nl) {
  if (!c) { printf("CHECK FAILED: %.*s\n", (int)nl, name); fflush(stdout); _exit(42); }
}
void rsym_cover(const char *name, size_t nl) {
  if (!quiet) printf("REACHED %.*s\n", (int)nl, name);
}
void rsym_observe(uint64_t v) {
  if (!quiet) printf("OBSERVED %llu\n", (unsigned long long)v);
  if (checking_obs) {
    if (ob_i >= ob_n || ob_v[ob_i] != v) {
      printf("OBSERVATION %zu DIFFERS: native %llu, engine %llu\n", ob_i, (unsigned long long)v,
             (unsigned long long)(ob_i < ob_n ? ob_v[ob_i] : 0));
      fflush(stdout); _exit(44);
    }
    ob_i++;
  }
}
uint64_t rsym_concretize(uint64_t v) { return v; }
uint64_t rsym_case(void) { return case_no; }

static void (*find(const struct entry *t, size_t n, const char *name))(void) {
  for (size_t i = 0; i < n; i++) if (!strcmp(t[i].name, name)) return t[i].fn;
  fprintf(stderr, "no harness %s\n", name);
  exit(3);
}

int rsym_main(const struct entry *t, size_t n, int argc, char **argv) {
  if (argc == 2 && !strcmp(argv[1], "list")) {
    for (size_t i = 0; i < n; i++) printf("%s\n", t[i].name);
    return 0;
  }
  if (argc != 3) { fprintf(stderr, "usage: list | replay FILE | batch FILE\n"); return 3; }
  int batch = !strcmp(argv[1], "batch");
  FILE *f = fopen(argv[2], "r");
  if (!f) { perror(argv[2]); return 3; }
  char *line = 0; size_t cap = 0; ssize_t len;
  size_t total = 0, bad = 0;
  while ((len = getline(&line, &cap, f)) > 0) {
    in_v = realloc(in_v, (len + 1) * 8); ob_v = realloc(ob_v, (len + 1) * 8);
    in_n = in_i = ob_n = ob_i = 0;
    char *save = 0, *w = strtok_r(line, " \n", &save);
    if (!w) continue;
    void (*fn)(void) = find(t, n, w);
    w = strtok_r(0, " \n", &save);
    case_no = strtoull(w, 0, 10);
    int obs = 0;
    while ((w = strtok_r(0, " \n", &save))) {
      if (!strcmp(w, "=")) { obs = 1; continue; }
      uint64_t v = strtoull(w, 0, 10);
      if (obs) ob_v[ob_n++] = v; else in_v[in_n++] = v;
    }
    if (!batch) { fn(); printf("PATH ENDED NORMALLY\n"); return 0; }
    quiet = 1; checking_obs = 1; total++;
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); return 3; }
    if (p == 0) {
      fn();
      if (ob_i != ob_n || in_i != in_n) {
        printf("LENGTHS DIFFER: inputs %zu/%zu observations %zu/%zu\n", in_i, in_n, ob_i, ob_n);
        fflush(stdout); _exit(45);
      }
      _exit(0);
    }
    int s; waitpid(p, &s, 0);
    if (s != 0) { bad++; printf("CASE %zu MISMATCH status %d\n", total, s); }
  }
  printf("BATCH total %zu bad %zu\n", total, bad);
  return bad ? 1 : 0;
}
