/* What the Rust wrapper's program is linked with in place of the watcher: plays RSW_SCRIPT and logs every call. */
#include "wtr/watcher-c.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static wtr_watcher_callback cb; static void* cx; static int nopen, closed;
static pthread_t th; static int going;
static void log_(char const* what, char const* arg) { char const* p = getenv("RSW_LOG"); FILE* f = fopen(p, "a"); fprintf(f, "%s", what); if (arg) { fputc(' ', f); for (char const* c = arg; *c; c++) fprintf(f, "%02x", (unsigned char)*c); } fputc('\n', f); fclose(f); }
static char* unhex(char const* h) { if (h[0] == '-') return 0; size_t n = strlen(h) / 2; char* o = malloc(n + 1); for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); o[i] = (char)v; } o[n] = 0; return o; }
/* "time path assoc effect type;…|…": before the bar while opening, after it from a thread */
static void play(char const* s) {
  char buf[65536]; snprintf(buf, sizeof buf, "%s", s);
  char *sv, *t = strtok_r(buf, ";", &sv);
  for (; t; t = strtok_r(0, ";", &sv)) {
    long long tm; char p[8192], a[8192]; int e, k;
    if (sscanf(t, "%lld %8191s %8191s %d %d", &tm, p, a, &e, &k) != 5) continue;
    struct wtr_watcher_event ev = {0};
    char *ps = unhex(p), *as = unhex(a);
    ev.effect_time = tm; ev.path_name = ps; ev.associated_path_name = as; ev.effect_type = (int8_t)e; ev.path_type = (int8_t)k;
    cb(ev, cx);
    if (ps) { memset(ps, 0, strlen(ps)); free(ps); }
    free(as);
  }
}
static void* run(void* v) { usleep(20000); play(v); return 0; }
void* wtr_watcher_open(char const* const path, wtr_watcher_callback f, void* c) {
  char const* s = getenv("RSW_SCRIPT"); char* b = strdup(s ? s : "");
  log_("open", path); nopen++;
  if (getenv("RSW_FAIL")) return 0;
  cb = f; cx = c;
  char* bar = strchr(b, '|'); if (bar) *bar = 0;
  play(b);
  if (bar && bar[1]) { going = 1; pthread_create(&th, 0, run, bar + 1); }
  return &nopen;
}
bool wtr_watcher_close(void* w) {
  log_(w != &nopen ? "close-unknown" : closed ? "close-again" : "close", 0);
  if (going && !closed) pthread_join(th, 0);
  closed++;
  return true;
}
