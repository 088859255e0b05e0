/* plot data files and printed arrays. nothing is displayed: a stand-in records how gnuplot is called */
#include "../sp.h"
#include <sph-sp/plot.h>
#include <sph-sp/helper.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/file.h>
#include "seq.h"

static char path[512];
static size_t lines; /* lines of the file that was read last */
static double* value; /* as floating point */
static u64* integer;

/* every line has to be one decimal number */
static void read_file(size_t most) {
  FILE* f = fopen(path, "r");
  CHECK(f, "no file was written");
  char line[1024];
  lines = 0;
  value = new_samples(most + 1);
  integer = new_array(u64, most + 1);
  while (fgets(line, sizeof line, f)) {
    size_t n = strlen(line);
    char* end;
    if (lines == most || !n || line[n - 1] != '\n') {
      fclose(f);
      if (lines == most) pbt_fail("the file has more than %zu lines", most);
      pbt_fail("line %zu is not terminated: %.60s", lines, line);
    }
    line[n - 1] = 0;
    value[lines] = strtod(line, &end);
    int ok = end != line && !*end;
    integer[lines] = strtoull(line, 0, 10);
    if (!ok) {
      fclose(f);
      pbt_fail("line %zu is not a number: %.60s", lines, line);
    }
    lines++;
  }
  fclose(f);
}

static double magnitude(const double* a, size_t n, size_t k) {
  long double re = 0, im = 0;
  for (size_t i = 0; i < n; i++) {
    long double t = 2 * M_PIl * (long double)((u64)i * k % n) / n;
    re += a[i] * cosl(t);
    im -= a[i] * sinl(t);
  }
  return (double)(2 * sqrtl(re * re + im * im) / n);
}

extern uint32_t sp_plot_temp_file_index __attribute__((weak));
extern void sp_plot_times_file(uint8_t* path, uint8_t use_steps) __attribute__((weak)); /* no header declares it */
static char args[400];
static void set_up(void) {
  char dir[300], tool[340], line[900];
  setup_sp();
  snprintf(dir, sizeof dir, "%s/bin", pbt_scratch());
  snprintf(tool, sizeof tool, "%s/gnuplot", dir);
  snprintf(args, sizeof args, "%s/args", pbt_scratch());
  mkdir(dir, 0700);
  FILE* f = fopen(tool, "w");
  if (!f) _exit(77);
  fprintf(f, "#!/bin/sh\nfor a in \"$@\"; do printf '%%s\\n' \"$a\"; done >> '%s'\necho end >> '%s'\n", args, args);
  fclose(f);
  if (chmod(tool, 0700)) _exit(77);
  snprintf(line, sizeof line, "%s:%s", dir, getenv("PATH") ? getenv("PATH") : "/usr/bin:/bin");
  setenv("PATH", line, 1);
}
/* how gnuplot was called since the last time: sets the path of the data that it should plot */
static void called(const char* from) {
  char text[4096];
  FILE* f = fopen(args, "r");
  CHECK(f, "gnuplot is not called");
  size_t n = fread(text, 1, sizeof text - 1, f);
  fclose(f);
  unlink(args);
  text[n] = 0;
  char* end = strstr(text, "\nend\n");
  CHECK(end && !end[5], "gnuplot is called more than once: %s", text);
  char *e = strstr(text, "-e\n"), *a = e ? strstr(e, "plot \"") : 0, *b = a ? strchr(a + 6, '"') : 0;
  CHECK(e && a && b && b < end, "gnuplot is not called with -e and a command that plots a file: %s", text);
  *b = 0;
  if (from) CHECK(!strcmp(a + 6, from), "the file %s should be plotted instead of %s", from, a + 6);
  snprintf(path, sizeof path, "%s", a + 6);
  for (char* q = b + 1; q < end; q++) CHECK(*q != '\n', "the plot command is more than one argument");
}
static void check_lines(int kind, sp_sample_t* a, sp_time_t* t, sp_time_t n) {
  read_file(n);
  CHECK(lines == n, "the file has %zu lines for %u elements", lines, n);
  for (sp_time_t i = 0; i < n; i++) {
    if (kind == 1) {
      CHECK(integer[i] == t[i] && value[i] == (double)t[i], "line %u is %llu instead of %u", i, (unsigned long long)integer[i], t[i]);
      continue;
    }
    double want = kind == 0 ? a[i] : magnitude(a, n, i), sum = 1;
    if (kind == 2) for (sp_time_t j = 0; j < n; j++) sum += fabs(a[j]);
    double tolerance = 0.0005 + (kind == 0 ? 1e-6 : 1e-9 * sum) + 1e-15 * fabs(want);
    CHECK(fabs(value[i] - want) <= tolerance, "line %u is %.12g instead of %.12g", i, value[i], want);
  }
}
static int lock_fd = -1;
/* an event rendered for display */
static void render_case(void) {
  seq_begin();
  sp_time_t from = d_chance(70) ? 0 : d_below(30), late = 0;
  rec_t* r = rec_new(from, from + 1 + d_below(d_chance(85) ? 60 : 2 * TEST_RATE + 60), 1 + d_below(sp_channel_count));
  rec_draw(r, 1);
  int fail = d_chance(20) ? 1 + d_below(2) : 0;
  if (fail == 1) {
    r->fail_generate = 1;
    r->fail_at = d_below(r->end - r->start);
  }
  if (fail == 2) r->has_prepare = r->fail_prepare = 1;
  sp_event_t event = rec_event(r);
  if (!fail && !from && r->has_prepare && d_bool()) {
    late = r->late_end = r->end;
    event.end = 0;
  }
  pbt_note("rendered plot of an event %u..%u%s%s; ", r->start, r->end, late ? ", prepared late" : "", fail == 1 ? ", generate fails" : fail == 2 ? ", prepare fails" : "");
  seq_expect(0, r->end);
  if (late) r->may_prepare = 1;
  size_t length;
  out_capture();
  status_t s = sp_render_plot(event);
  char* text = out_text(&length);
  if (fail) {
    CHECK(s.id == 1000 && !strcmp((char*)s.group, "rec"), "status %d of group %s instead of the event's", s.id, (char*)s.group);
    CHECK(access(args, F_OK), "gnuplot is called for an event that failed");
  } else {
    CHECK_OK(s, "sp_render_plot");
    called(0);
    read_file(r->end);
    if (!strncmp(path, "/tmp/sp-plot", 12) && !strchr(path + 12, '/') && strlen(path) < 60) unlink(path);
    CHECK(lines == r->end, "%zu lines for %u samples", lines, r->end);
    for (sp_time_t i = 0; i < r->end; i++) {
      double want = i < from ? 0 : rec_value(r->id, 0, i - from);
      CHECK(fabs(value[i] - want) <= 0.0006, "line %u is %.12g instead of %.12g", i, value[i], want);
    }
    char* n = text + strcspn(text, "0123456789");
    u64 duration = strtoull(n, &n, 10), want = !strncmp(n, " milli", 6) ? 1000ull * r->end / sp_rate : r->end / sp_rate;
    CHECK(*n == ' ' && (duration == want || duration == want + 1), "%u samples at rate %u are displayed as: %s", r->end, sp_rate, text);
  }
  seq_check_released();
}
static void plot_case(void) {
  int kind = (int)d_below(3), rounds = 1 + d_below(2);
  char used[2][400] = { "", "" };
  /* the files are in a directory that all processes share */
  sp_time_t small = (sp_time_t)d_below(90);
  if (&sp_plot_temp_file_index) sp_plot_temp_file_index = 100 * ((sp_time_t)getpid() % 9999999) + small;
  if (lock_fd < 0) {
    char p[400];
    snprintf(p, sizeof p, "%s/../../plot-lock", pbt_scratch());
    lock_fd = open(p, O_RDWR | O_CREAT | O_CLOEXEC, 0600);
    if (lock_fd < 0) _exit(77);
  }
  flock(lock_fd, LOCK_EX);
  unlink(args);
  if (d_chance(25)) {
    render_case();
    CHECK(mem_live == 0, "%ld allocations are not freed", mem_live);
    rounds = 0;
  }
  for (int r = 0; r < rounds; r++) {
    sp_time_t n = 1 + d_below(12);
    sp_sample_t* a = d_samples(n, -10, 10);
    sp_time_t* t = d_times(n, 0, 100000);
    if (&sp_plot_temp_file_index && d_chance(8)) {
      /* without memory: nothing may be kept */
      char p[60];
      snprintf(p, sizeof p, "/tmp/sp-plot-%lu", (unsigned long)sp_plot_temp_file_index);
      int fail = 1 + (int)d_below(3);
      pbt_note("plot of %u elements, allocation %d fails; ", n, fail);
      mem_failed = 0;
      mem_fail_at = fail;
      if (kind == 0) sp_plot_samples(a, n);
      else if (kind == 1) sp_plot_times(t, n);
      else sp_plot_spectrum(a, n);
      mem_fail_at = 0;
      if (!access(args, F_OK)) called(0);
      unlink(p);
    } else if (d_chance(40) && (kind != 1 || sp_plot_times_file)) {
      /* of an existing file */
      static const char* names[] = { "a", "data", "x y", "some.longer-name_0123456789" };
      char p[400];
      snprintf(p, sizeof p, "%s/%s", pbt_scratch(), names[d_below(4)]);
      pbt_note("plot of the file %s; ", strrchr(p, '/'));
      if (kind == 0) sp_plot_samples_file((uint8_t*)p, d_bool());
      else if (kind == 1) sp_plot_times_file((uint8_t*)p, d_bool());
      else sp_plot_spectrum_file((uint8_t*)p);
      called(p);
    } else {
      pbt_note("plot of %u elements; ", n);
      if (kind == 0) sp_plot_samples(a, n);
      else if (kind == 1) sp_plot_times(t, n);
      else sp_plot_spectrum(a, n);
      called(0);
      int ours = !strncmp(path, "/tmp/sp-plot", 12) && !strchr(path + 12, '/') && strlen(path) < 60;
      check_lines(kind, a, t, n);
      if (ours) unlink(path);
      snprintf(used[r], sizeof used[r], "%s", path);
      if (r && used[0][0]) CHECK(strcmp(used[0], used[1]), "the plots use the same file %s, which may still be displayed", used[0]);
    }
    CHECK(mem_live == 0, "%ld allocations are not freed", mem_live);
  }
  flock(lock_fd, LOCK_UN);
  pbt_label("plot");
  pbt_nontrivial();
}
/* one line on standard output */
static void display_case(void) {
  int kind = (int)d_below(3);
  sp_time_t n = 1 + d_below(d_bool() ? 5 : 60);
  if (d_rare(100)) n = (sp_time_t)d_mid();
  size_t length;
  sp_sample_t* a = 0;
  sp_time_t* t = 0;
  u8* b = 0;
  pbt_note("display of %u %s", n, kind == 0 ? "samples" : kind == 1 ? "times" : "bytes");
  if (kind == 0) a = d_samples(n, -1000, 1000);
  else if (kind == 1) t = d_times(n, 0, d_bool() ? 100 : 4294967295u);
  else {
    b = new_array(u8, n);
    for (sp_time_t i = 0; i < n; i++) b[i] = (u8)d_below(256);
  }
  int one = kind == 2 && n == 1 && d_bool();
  out_capture();
  if (kind == 0) sp_samples_display(a, n);
  else if (kind == 1) sp_times_display(t, n);
  else if (one) sph_helper_display_bits_u8(*b);
  else sph_helper_display_bits(b, n);
  char *text = out_text(&length), *p = text, *end = 0;
  if (!one) {
    CHECK(length && text[length - 1] == '\n' && strlen(text) == length && !strchr(text, '\n')[1], "not one line is displayed: %s", text);
    text[--length] = 0;
  }
  if (kind == 2) {
    CHECK(length == 8 * (size_t)n, "%zu characters for the bits of %u bytes", length, n);
    for (size_t i = 0; i < length; i++) CHECK(text[i] == '0' + (1 & (b[i / 8] >> (i % 8))), "bit %zu of byte %zu is displayed as %c", i % 8, i / 8, text[i]);
  } else for (sp_time_t i = 0; i < n; i++) {
    CHECK(!i || *p == ' ', "after element %u: %s", i - 1, p);
    if (kind == 1) CHECK((*p == ' ' ? p[1] : *p) >= '0' && strtoull(p, &end, 10) == t[i], "element %u, which is %u, is displayed as %s", i, t[i], p);
    else {
      double v = strtod(p, &end);
      CHECK(end != p && fabs(v - a[i]) <= 0.0051 + 1e-6 * fabs(a[i]), "element %u, which is %.9g, is displayed as %s", i, a[i], p);
    }
    p = end;
  }
  if (kind != 2) CHECK(!*p, "more is displayed: %s", p);
  pbt_label("display");
  if (n > 1) pbt_nontrivial();
}
static void run(void) {
  if (lock_fd >= 0) flock(lock_fd, LOCK_UN); /* a failed case */
  if (d_rare(150)) {
    plot_case();
    return;
  }
  if (d_chance(10)) {
    display_case();
    return;
  }
  int kind = (int)d_below(3);
  sp_time_t n = (sp_time_t)(d_chance(80) ? 1 + d_below(12) : d_below(kind == 2 ? 150 : 600));
  if (kind < 2 && d_rare(2000)) {
    n = d_long();
    pbt_label("long");
  }
  if (kind == 2 && !n) n = 1;
  int unwritable = d_chance(4);
  u64 fail = kind == 2 && d_chance(8) ? 1 + d_below(4) : 0;
  pbt_label(kind == 0 ? "samples" : kind == 1 ? "times" : "spectrum");
  pbt_note("%s, %u elements%s", kind == 0 ? "samples" : kind == 1 ? "times" : "spectrum", n, unwritable ? ", unwritable path" : "");
  snprintf(path, sizeof path, "%s/%splot", pbt_scratch(), unwritable ? "missing/" : "");
  unlink(path);
  if (!unwritable && d_chance(20)) { /* an older, longer file is replaced */
    FILE* f = fopen(path, "w");
    for (int i = 0; i < 800; i++) fprintf(f, "old %d\n", i);
    fclose(f);
    if (fail) unlink(path);
    pbt_note(", file exists");
  }
  int fd = fd_lowest();
  sp_sample_t* a = 0;
  sp_time_t* t = 0;
  void* keep;
  if (kind == 1) {
    t = new_times(n);
    for (sp_time_t i = 0; i < n; i++) t[i] = d_chance(20) ? (sp_time_t)(0u - d_below(3)) : d_chance(30) ? (sp_time_t)d_below(10) : (sp_time_t)d_below(1ull << 32);
    keep = memcpy(new_times(n), t, n * sizeof *t);
  } else {
    a = new_samples(n);
    d_fill(a, n, -1, 1);
    double scale = d_chance(30) ? 1000 : d_chance(20) ? 1e9 : 1;
    for (sp_time_t i = 0; i < n; i++) a[i] *= scale;
    if (n && d_chance(30)) a[d_below(n)] = d_float(-100000, 100000);
    keep = memcpy(new_samples(n), a, n * sizeof *a);
  }
  mem_reset();
  mem_fail_at = (long)fail;
  if (kind == 0) sp_plot_samples_to_file(a, n, (uint8_t*)path);
  else if (kind == 1) sp_plot_times_to_file(t, n, (uint8_t*)path);
  else sp_plot_spectrum_to_file(a, n, (uint8_t*)path);
  int failed = mem_failed;
  mem_fail_at = 0;
  CHECK(mem_live == 0, "%ld allocations are not freed", mem_live);
  CHECK(fd_lowest() == fd, "a file stays open");
  CHECK(!memcmp(keep, kind == 1 ? (void*)t : (void*)a, n * (kind == 1 ? sizeof *t : sizeof *a)), "the input was modified");
  if (unwritable || failed) {
    CHECK(!unwritable || access(path, F_OK), "a file exists below a missing directory");
    pbt_nontrivial();
    return;
  }
  check_lines(kind, a, t, n);
  if (n > 2) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C32", .quick = 100000, .thorough = 3000000, .setup = set_up, .run = run,
  .rule = "more than two elements, or a path or allocation that fails, or a call of gnuplot" };
