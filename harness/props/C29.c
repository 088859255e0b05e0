/* every allocation of generated programs fails once, one at a time.
   a scenario is a program that uses the library as a careful user would. it runs undisturbed first, which counts the
   allocations and records the results, and then once per allocation with that allocation failing: the call in which
   it fails must report the failure and keep nothing, the same call must then succeed and lead to the same results */
#include "../sp.h"
#include <pthread.h>
#include <sph-sp/helper.h>
#include <nayuki-fft/fft.h>
#pragma weak Fft_convolveReal
#pragma weak Fft_convolveComplex
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>

static u64 rng, rng_start;
static u64 R(u64 n) { /* parameters: the same in all runs of a case */
  rng = mix64(rng + 0x9e3779b97f4a7c15u);
  return rng % n;
}
static double RU(void) { return (double)R(1000) / 999; }
static int size_limit;
static sp_time_t RS(void) { return 1 + (sp_time_t)R(size_limit); }

static double rec[200000];
static size_t rec_n, rec_at;
static int faulty; /* run number, 0: undisturbed */
static int faults_seen;
static const char* scenario;
static void out_number(double a, const char* what) {
  if (!faulty) {
    if (rec_n < sizeof rec / sizeof *rec) rec[rec_n++] = a;
  } else if (rec_at < rec_n) {
    double b = rec[rec_at++];
    CHECK(a == b || (a != a && b != b), "%s: %s is %.17g after allocation %d had failed once, %.17g without", scenario, what, a, faulty, b);
  }
}
static void out_samples(const sp_sample_t* a, size_t n, const char* what) { for (size_t i = 0; i < n; i++) out_number(a[i], what); }
static void out_times(const sp_time_t* a, size_t n, const char* what) { for (size_t i = 0; i < n; i++) out_number(a[i], what); }
static int fault_before;
static long live_before;
static void begin_call(void) {
  fault_before = mem_failed;
  live_before = mem_live;
}
/* the result of one call: 1 if the allocation failed in it */
static int end_call(int id, const char* what, int keeps) {
  if (mem_failed == fault_before) {
    CHECK(id == 0, "%s: %s returned %d without a failing allocation", scenario, what, id);
    return 0;
  }
  faults_seen++;
  CHECK(id != 0, "%s: %s reports success although an allocation (the %d.) failed", scenario, what, faulty);
  if (!keeps) CHECK(mem_live == live_before, "%s: %s failed and leaves %ld allocation(s)", scenario, what, mem_live - live_before);
  return 1;
}
#define TRY_(call, id, keeps) do { \
    begin_call(); \
    int id_ = (call)id; \
    if (end_call(id_, #call, keeps)) { \
      begin_call(); \
      id_ = (call)id; \
      CHECK(!id_, "%s: %s failed again (status %d) after memory is available", scenario, #call, id_); \
    } \
  } while (0)
#define TRY(call) TRY_(call, .id, 0)
#define TRY_KEEPS(call) TRY_(call, .id, 1)
#define TRY_INT(call) TRY_(call, , 0)

static sp_sample_t* some_samples(size_t n) { sp_sample_t* a = new_samples(n); for (size_t i = 0; i < n; i++) a[i] = (double)R(2001) / 1000 - 1; return a; }
static sp_time_t* some_times(size_t n, u64 max) { sp_time_t* a = new_times(n); for (size_t i = 0; i < n; i++) a[i] = (sp_time_t)R(max); return a; }

/* ---- scenarios ---- */
static void sc_arrays(void) {
  sp_time_t n = RS();
  sp_time_t *t = 0, *t2 = 0, *t3 = 0;
  sp_sample_t *s = 0, *s2 = 0;
  TRY(sp_times_new(n, &t));
  out_times(t, n, "a new array");
  for (sp_time_t i = 0; i < n; i++) t[i] = (sp_time_t)R(100);
  TRY(sp_times_duplicate(t, n, &t2));
  out_times(t2, n, "a duplicate");
  TRY(sp_times_constant(n, 7, &t3));
  out_times(t3, n, "a constant");
  TRY(sp_samples_new(n, &s));
  out_samples(s, n, "a new array");
  for (sp_time_t i = 0; i < n; i++) s[i] = (double)R(100) / 10;
  TRY(sp_samples_duplicate(s, n, &s2));
  out_samples(s2, n, "a duplicate");
  sp_time_t factor = 1 + R(3);
  sp_time_t* scaled = new_times(n * factor + factor);
  TRY(sp_times_scale(t, n, factor, scaled));
  out_times(t3, n, "scaled");
  t_free(t);
  t_free(t3);
  t_free(s);
  /* converted in place of the input: the input stays valid when it fails */
  TRY(sp_times_to_samples_replace(t2, n, &s));
  out_samples(s, n, "converted");
  TRY(sp_samples_to_times_replace(s2, n, &t));
  out_times(t, n, "converted");
  t_free(t);
  t_free(s);
}
static void sc_enumerate(void) {
  sp_time_t n = 1 + R(4), count = 0, *sizes = 0, **a = 0;
  sp_time_t* set = new_times(n);
  for (sp_time_t i = 0; i < n; i++) set[i] = 3 + i * 2;
  TRY(sp_times_permutations(n, set, n, &a, &count));
  out_number(count, "count");
  for (sp_time_t i = 0; i < count; i++) out_times(a[i], n, "a permutation"), t_free(a[i]);
  t_free(a);
  TRY(sp_times_compositions(n, &a, &count, &sizes));
  out_number(count, "count");
  for (sp_time_t i = 0; i < count; i++) out_times(a[i], sizes[i], "a composition"), t_free(a[i]);
  t_free(a);
  t_free(sizes);
}
static void sc_enumerate_many(void) {
  /* more results than small counters hold */
  sp_time_t n = 9 + R(2), count = 0, *sizes = 0, **a = 0, set[6] = { 4, 9, 1, 7, 3, 5 };
  if (R(2)) {
    TRY(sp_times_permutations(6, set, 6, &a, &count));
    out_number(count, "count");
    for (sp_time_t i = 0; i < count; i++) out_times(a[i], 6, "a permutation"), t_free(a[i]);
    t_free(a);
  } else {
    TRY(sp_times_compositions(n, &a, &count, &sizes));
    out_number(count, "count");
    for (sp_time_t i = 0; i < count; i++) out_times(a[i], sizes[i], "a composition"), t_free(a[i]);
    t_free(a);
    t_free(sizes);
  }
}
static void sc_random(void) {
  sp_time_t n = RS(), *out = new_times(n), kept = 0;
  TRY(sp_times_random_binary(n, out));
  for (sp_time_t i = 0; i < n; i++) CHECK(out[i] < 2, "random binary %u", out[i]);
  sp_time_t* in = some_times(n, 100);
  /* no status, but it must not keep memory */
  begin_call();
  if (n > 1) sp_times_select_random(in, n, out, &kept);
  if (mem_failed != fault_before) faults_seen++;
  CHECK(mem_live == live_before, "sp_times_select_random keeps %ld allocation(s)", mem_live - live_before);
}
static void sc_statistics(void) {
  sp_time_t n = 2 + RS(), *t = some_times(n, 1000);
  sp_sample_t *s = some_samples(n), r[4]; /* range writes minimum and maximum too */
  typedef uint8_t (*tf)(sp_time_t*, sp_time_t, sp_sample_t*);
  typedef uint8_t (*sf)(sp_sample_t*, sp_time_t, sp_sample_t*);
  static const tf tfs[] = { sp_stat_times_median, sp_stat_times_range, sp_stat_times_mean, sp_stat_times_deviation, sp_stat_times_center, sp_stat_times_inharmonicity };
  static const sf sfs[] = { sp_stat_samples_median, sp_stat_samples_range, sp_stat_samples_mean, sp_stat_samples_deviation, sp_stat_samples_center };
  for (int i = 0; i < 6; i++) {
    memset(r, 0, sizeof r);
    t[0] += 1;
    TRY_INT((tfs[i])(t, n, r));
    out_number(*r, "a statistic of integers");
  }
  for (int i = 0; i < 5; i++) {
    memset(r, 0, sizeof r);
    TRY_INT((sfs[i])(s, n, r));
    out_number(*r, "a statistic of samples");
  }
}
static void sc_block(void) {
  sp_block_t b = { 0 };
  int channels = 1 + R(2);
  sp_time_t n = RS();
  TRY(sp_block_new(channels, n, &b));
  CHECK(b.channel_count == channels && b.size == n, "block");
  for (int i = 0; i < channels; i++) out_samples(b.samples[i], n, "a new block");
  sp_block_free(&b);
}
/* filters */
static status_t own_ir(void* a, sp_sample_t** out, sp_time_t* n) {
  status_declare;
  status_require(sp_samples_new(((u8*)a)[0], out));
  *n = ((u8*)a)[0];
  for (int i = 0; i < ((u8*)a)[0]; i++) (*out)[i] = (i * 7 + ((u8*)a)[1]) % 5 - 2;
exit:
  status_return;
}
static void sc_convolution(void) {
  sp_convolution_filter_state_t* state = 0;
  u8 args[2] = { 1 + R(12), R(9) };
  int blocks = 1 + R(8), windowed = R(3);
  double cutoff = 0.1, transition = 0.3;
  int flag = R(2);
  for (int b = 0; b < blocks; b++) {
    sp_time_t n = RS();
    sp_sample_t *in = some_samples(n), *out = new_samples(n);
    if (R(2)) {
      args[0] = 1 + R(20);
      args[1] = R(9);
      cutoff = 0.02 + 0.4 * RU();
      transition = 0.08 + 0.4 * RU();
      flag = R(2);
    }
    if (windowed == 0) TRY_KEEPS(sp_convolution_filter(in, n, own_ir, args, 2, &state, out));
    if (windowed == 1) TRY_KEEPS(sp_windowed_sinc_lp_hp(in, n, cutoff, transition, flag, &state, out));
    double high = cutoff + 0.1 * RU();
    if (windowed == 2) TRY_KEEPS(sp_windowed_sinc_bp_br(in, n, cutoff, high, transition, 0.2, flag, &state, out));
    out_samples(out, n, "filtered");
  }
  sp_convolution_filter_state_free(state);
}
static void sc_first_filter(void) { /* a failing first call must leave no state */
  sp_convolution_filter_state_t* state = 0;
  u8 args[2] = { 1 + R(6), R(9) };
  sp_time_t n = RS();
  sp_sample_t *in = some_samples(n), *out = new_samples(n);
  if (R(2)) TRY(sp_convolution_filter(in, n, own_ir, args, 2, &state, out));
  else TRY(sp_convolution_filter_state_set(own_ir, args, 2, &state));
  out_number(state->ir_len, "length");
  sp_convolution_filter_state_free(state);
}
static void sc_ir(void) {
  sp_sample_t* ir = 0;
  sp_time_t n = 0;
  double lo = R(4) ? 0.02 + 0.2 * RU() : 0, hi = R(4) ? 0.25 + 0.2 * RU() : 0.6, t = 0.1 + 0.3 * RU(), t2 = 0.1 + 0.3 * RU();
  int flag = R(2);
  TRY(sp_windowed_sinc_lp_hp_ir(0.05 + lo, t, flag, &ir, &n));
  out_samples(ir, n, "impulse response");
  t_free(ir);
  TRY(sp_windowed_sinc_bp_br_ir(lo, hi, t, t2, flag, &ir, &n));
  out_samples(ir, n, "impulse response");
  t_free(ir);
  TRY(sp_null_ir(&ir, &n));
  out_samples(ir, n, "impulse response");
  t_free(ir);
  TRY(sp_passthrough_ir(&ir, &n));
  out_samples(ir, n, "impulse response");
  t_free(ir);
}
/* transforms: lengths that are not powers of two need memory */
static void sc_fft(void) {
  sp_time_t n = 1 + R(3 * size_limit);
  sp_sample_t *re = some_samples(n), *im = some_samples(n), *r = new_samples(n), *i = new_samples(n), *y = some_samples(n), *yi = some_samples(n);
  int inverse = R(2);
#define given (memcpy(r, re, n * sizeof *r), memcpy(i, im, n * sizeof *i))
  TRY_INT((given, inverse ? sp_ffti(n, r, i) : sp_fft(n, r, i)));
  out_samples(r, n, "a transform");
  out_samples(i, n, "a transform");
  int real = R(2);
  if (real && Fft_convolveReal) {
    TRY_INT(!Fft_convolveReal(re, y, r, n));
    out_samples(r, n, "a convolution");
  }
  if (!real && Fft_convolveComplex) {
    TRY_INT(!Fft_convolveComplex(re, im, y, yi, r, i, n));
    out_samples(r, n, "a convolution");
    out_samples(i, n, "a convolution");
  }
#undef given
}
/* paths from segments, also with a segment that can not be prepared */
static u8 refusing_prepare(spline_path_segment_t* s) { return 1; }
static void sc_spline(void) {
  spline_path_segment_t s[4];
  spline_path_t path;
  spline_path_value_t out[60];
  int n = 1 + R(4);
  for (int i = 0; i < n; i++) s[i] = R(2) ? spline_path_line((i + 1) * 10, R(20)) : spline_path_bezier1(i * 10 + 5, R(20), (i + 1) * 10, R(20));
  TRY_INT(spline_path_set_copy(&path, s, n));
  spline_path_get(&path, 0, n * 10, out);
  out_samples(out, n * 10, "a path");
  t_free(path.segments);
  if (R(2)) {
    s[R(n)].prepare = refusing_prepare;
    begin_call();
    u8 r = spline_path_set_copy(&path, s, n);
    if (mem_failed != fault_before) faults_seen++;
    CHECK(r, "spline_path_set_copy reports success although a segment can not be prepared");
    CHECK(mem_live == live_before, "spline_path_set_copy failed and leaves %ld allocation(s)", mem_live - live_before);
  }
}
/* paths and envelopes */
static void sc_path(void) {
  sp_time_t n = 30 + R(size_limit), *t = 0;
  sp_sample_t *s = 0, x[22], y[24], c[23];
  int points = 2 + R(5);
  for (int i = 0; i < points; i++) {
    y[i] = 1 + 50 * RU();
    c[i] = R(2) ? 0 : 0.8 * RU();
    x[i] = (i + 1) * (int)(n / points);
  }
  double *cs = R(2) ? c : 0, x1 = x[0], x2 = x[1], x3 = x[2];
  int length_points = (int)R(4);
  if (points > 4) x3 = x[2]; else { x1 = (int)(n / 5); x2 = 2 * x1; x3 = 3 * x1; }
#define S(call) do { TRY(call); out_samples(s, n, "a path"); t_free(s); s = 0; } while (0)
#define T(call) do { TRY(call); out_times(t, n, "a path"); t_free(t); t = 0; } while (0)
  switch (R(8)) {
    case 0:
      S(sp_path_samples(&s, n, points, x, y, cs));
      T(sp_path_times(&t, n, points, x, y, cs));
      break;
    case 1:
      if (length_points == 0) S(sp_path_samples2(&s, n, 1, 9));
      if (length_points == 1) S(sp_path_samples3(&s, n, x1, 1, 9, 4));
      if (length_points == 2) S(sp_path_samples4(&s, n, x1, x2, 1, 9, 4, 6));
      if (length_points == 3) S(sp_path_samples5(&s, n, x1, x2, x3, 1, 9, 4, 6, 2));
      break;
    case 2:
      if (length_points == 0) T(sp_path_times2(&t, n, 1, 9));
      if (length_points == 1) T(sp_path_times3(&t, n, x1, 1, 9, 4));
      if (length_points == 2) T(sp_path_times4(&t, n, x1, x2, 1, 9, 4, 6));
      if (length_points == 3) T(sp_path_times5(&t, n, x1, x2, x3, 1, 9, 4, 6, 2));
      break;
    case 3:
      if (length_points == 0) S(sp_path_samples_c2(&s, n, 1, 9, 0.5));
      if (length_points == 1) S(sp_path_samples_c3(&s, n, x1, 1, 9, 4, 0.5, 0));
      if (length_points == 2) S(sp_path_samples_c4(&s, n, x1, x2, 1, 9, 4, 6, 0.5, 0, 0.3));
      if (length_points == 3) S(sp_path_samples_c5(&s, n, x1, x2, x3, 1, 9, 4, 6, 2, 0.5, 0, 0.3, 0.2));
      break;
    case 4:
      if (length_points == 0) T(sp_path_times_c2(&t, n, 1, 9, 0.5));
      if (length_points == 1) T(sp_path_times_c3(&t, n, x1, 1, 9, 4, 0.5, 0));
      if (length_points == 2) T(sp_path_times_c4(&t, n, x1, x2, 1, 9, 4, 6, 0.5, 0, 0.3));
      if (length_points == 3) T(sp_path_times_c5(&t, n, x1, x2, x3, 1, 9, 4, 6, 2, 0.5, 0, 0.3, 0.2));
      break;
    case 5:
      for (int i = 0; i < points; i++) x[i] = 1.0 / points;
      S(sp_envelope_zero(&s, n, points + 1, x, y, 0));
      T(sp_envelope_scaled(&t, n, points, 3, x, y, 0));
      break;
    case 6:
      if (length_points == 0) S(sp_envelope_zero3(&s, n, 0.2, 1));
      if (length_points == 1) S(sp_envelope_zero4(&s, n, 0.2, 0.3, 1, 2));
      if (length_points == 2) S(sp_envelope_zero5(&s, n, 0.2, 0.3, 0.1, 1, 2, 0.5));
      if (length_points == 3) S(sp_envelope_zero_c3(&s, n, 0.2, 1, 0.4, 0.2));
      break;
    default:
      if (length_points == 0) T(sp_envelope_scaled3(&t, n, 8, 0.2, 1, 2, 3));
      if (length_points == 1) T(sp_envelope_scaled4(&t, n, 8, 0.2, 0.3, 1, 2, 3, 4));
      if (length_points == 2) T(sp_envelope_scaled5(&t, n, 8, 0.2, 0.3, 0.1, 1, 2, 3, 4, 5));
      if (length_points == 3) T(sp_envelope_scaled_c3(&t, n, 8, 0.2, 1, 2, 3, 0.4, 0.2));
  }
}
/* files */
static void sc_file(void) {
  char path[300];
  snprintf(path, sizeof path, "%s/m.wav", pbt_scratch());
  int channels = 1 + R(2), blocks = 1 + R(3), fd = fd_lowest();
  sp_file_t f;
  sp_sample_t* a[2];
  TRY(sp_file_open_write((uint8_t*)path, channels, 960, &f));
  sp_time_t total = 0;
  for (int b = 0; b < blocks; b++) {
    sp_time_t n = RS();
    for (int i = 0; i < channels; i++) a[i] = some_samples(n);
    TRY(sp_file_write(&f, a, n));
    total += n;
  }
  sp_file_close_write(&f);
  TRY(sp_file_open_read((uint8_t*)path, &f));
  CHECK(f.channel_count == channels, "channels");
  while (total) {
    sp_time_t n = 1 + R(total);
    for (int i = 0; i < channels; i++) a[i] = new_samples(n);
    TRY(sp_file_read(f, n, a));
    for (int i = 0; i < channels; i++) out_samples(a[i], n, "read");
    total -= n;
  }
  sp_file_close_read(f);
  unlink(path);
  CHECK(fd_lowest() == fd, "a file remains open");
}
static void sc_plot(void) {
  char path[300];
  snprintf(path, sizeof path, "%s/m.plot", pbt_scratch());
  int fd = fd_lowest();
  sp_time_t n = RS();
  sp_sample_t* a = some_samples(n);
  unlink(path);
  begin_call();
  sp_plot_spectrum_to_file(a, n, (uint8_t*)path); /* no status: nothing may be kept */
  if (mem_failed != fault_before) faults_seen++;
  CHECK(mem_live == live_before, "sp_plot_spectrum_to_file keeps %ld allocation(s)", mem_live - live_before);
  CHECK(fd_lowest() == fd, "a file remains open");
  unlink(path);
}
/* the allocation helpers */
static void sc_helper(void) {
  u8 *a = 0, *b = 0;
  sp_time_t *c = 0, n = RS(), m = n + RS();
  TRY(sph_helper_malloc(n, &a));
  memset(a, 1, n);
  TRY(sph_helper_malloc_string(n, &b));
  CHECK(b[n] == 0, "the string is not terminated");
  memset(b, 1, n);
  TRY(sph_helper_calloc(n * sizeof(sp_time_t), &c));
  out_times(c, n, "zeroed");
  for (sp_time_t i = 0; i < n; i++) c[i] = i;
  TRY(sph_helper_realloc(m * sizeof(sp_time_t), &c));
  out_times(c, n, "resized");
  c[m - 1] = 1;
  t_free(a);
  t_free(b);
  t_free(c);
}
/* event lists, event memory, groups */
#define event_add(e, p) sp_event_memory_add_with_handler(e, p, t_free)
#define event_fixed_add(e, p) sp_event_memory_fixed_add_with_handler(e, p, t_free)
static int prepared;
static status_t leaf_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  sp_time_t* c = e->config;
  for (sp_time_t i = start; i < end; i++)
    for (int ci = 0; ci < out.channel_count; ci++) out.samples[ci][i - start] += c[0] + 0.001 * (double)i + ci;
  status_return;
}
static status_t leaf_prepare(sp_event_t* e) { /* as user code does it */
  status_declare;
  sp_time_t *c, *d;
  c = 0;
  prepared++;
  status_require(sph_helper_malloc(16, &d));
  if (event_add(e, d).id) {
    t_free(d);
    sp_memory_error;
  }
exit:
  status_return;
}
static status_t leaf(sp_event_t* e, sp_time_t start, sp_time_t duration, int depth);
static status_t map_f(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* state) {
  status_declare;
  for (sp_time_t i = 0; i < end - start; i++)
    for (int ci = 0; ci < out.channel_count; ci++)
      if (in.samples[ci] == out.samples[ci]) out.samples[ci][i] *= 2;
      else out.samples[ci][i] += 2 * in.samples[ci][i];
  status_return;
}
/* registers with the event or releases */
#define OWN(e, call, pointer) do { \
    status_require(call); \
    status = event_add(e, pointer); \
    if (status.id) { t_free(pointer); goto exit; } \
  } while (0)
static int noise_used, seq_parallel;
static status_t leaf(sp_event_t* e, sp_time_t start, sp_time_t duration, int depth) {
  /* on failure everything is released, so that it can be called again */
  status_declare;
  u64 r0 = rng;
  memset(e, 0, sizeof *e);
  int kind = (int)R(depth ? 7 : 4);
  e->start = start;
  e->end = start + duration;
  if (kind < 2) { /* own event */
    sp_time_t* c = 0;
    OWN(e, sph_helper_malloc(8, &c), c);
    *c = 1 + R(9);
    e->config = c;
    e->generate = leaf_generate;
    if (kind) e->prepare = leaf_prepare;
  } else if (kind == 2) { /* wave */
    sp_wave_event_config_t* c = 0;
    sp_sample_t* amod = 0;
    OWN(e, sp_wave_event_config_new(&c), c);
    OWN(e, sp_path_samples2(&amod, duration, 1, RU()), amod);
    c->channel_count = 1;
    c->channel_config->amod = amod;
    c->channel_config->frq = 3 + R(50);
    sp_wave_event(e, c);
  } else if (kind == 3) { /* noise: the content is random */
    sp_noise_event_config_t* c = 0;
    sp_sample_t* amod = 0;
    noise_used = 1;
    OWN(e, sp_noise_event_config_new(&c), c);
    OWN(e, sp_path_samples2(&amod, duration, 1, 1), amod);
    c->channel_count = 1;
    c->channel_config->amod = amod;
    c->channel_config->frq = R(50);
    c->channel_config->wdt = 50 + R(100);
    c->channel_config->trnl = c->channel_config->trnh = 200;
    c->resolution = 5 + R(40);
    sp_noise_event(e, c);
  } else if (kind < 6) { /* map */
    sp_map_event_config_t* c = 0;
    OWN(e, sp_map_event_config_new(&c), c);
    c->map_generate = map_f;
    c->isolate = R(2);
    status_require(leaf(&c->event, 0, duration, depth - 1));
    sp_map_event(e, c);
  } else { /* group */
    if (R(2) || seq_parallel) { sp_group_event(e); } else { sp_group_parallel_event(e); } /* not nested, see C03 */
    e->end = e->start = 0;
    int n = 1 + (int)R(3);
    for (int i = 0; i < n; i++) {
      sp_event_t x;
      sp_time_t s = R(duration), d = 1 + R(duration - s);
      status_require(leaf(&x, s, d, 0));
      status = R(3) ? sp_group_add(e, x) : (x.end -= x.start, x.start = 0, sp_group_append(e, x));
      if (status.id) {
        sp_event_free(x);
        goto exit;
      }
    }
    e->start += start;
    e->end += start;
  }
exit:
  if (status.id) {
    sp_event_free((*e));
    if (e->memory.data) sp_event_memory_free(e);
    rng = r0; /* the same event the next time */
  }
  status_return;
}
static void sc_build(void) {
  seq_parallel = 0;
  sp_event_t e;
  int n = 1 + R(3);
  for (int i = 0; i < n; i++) {
    sp_time_t start = R(20), duration = 1 + R(30);
    TRY(leaf(&e, start, duration, 2));
    out_number(e.end, "end");
    sp_event_free(e);
  }
}
static void sc_group(void) { /* adding is repeated on the same group */
  sp_event_t g = { 0 }, *gp = &g;
  sp_group_event(gp);
  int n = 1 + R(6);
  for (int i = 0; i < n; i++) {
    sp_event_t x = { 0 };
    x.start = R(10);
    x.end = x.start + 1 + R(20);
    x.generate = leaf_generate;
    int add = R(2);
    if (add) TRY(sp_group_add(gp, x));
    else TRY(sp_group_append(gp, x));
    out_number(g.end, "the end of the group");
  }
  for (sp_event_list_t* a = *sp_group_event_list(gp); a; a = a->next) {
    out_number(a->event.start, "the start of an event in the group");
    out_number(a->event.end, "the end of an event in the group");
  }
  sp_event_free(g);
}
static void sc_memory(void) {
  sp_event_t e = { 0 };
  int n = (int)R(20), live = 0;
  if (R(2)) {
    int m = 1 + R(6);
    TRY_KEEPS(sp_event_memory_ensure(&e, m));
    for (int i = R(m); i < m; i++) event_fixed_add(&e, t_malloc(3)), live++;
  }
  for (int i = 0; i < n; i++) {
    if (R(4) == 0) {
      int m = 1 + R(6);
      TRY_KEEPS(sp_event_memory_ensure(&e, m));
      if (R(2)) for (; m; m--) event_fixed_add(&e, t_malloc(3)), live++;
    }
    void* p = t_malloc(5);
    TRY_KEEPS(event_add(&e, p));
    live++;
  }
  CHECK((int)e.memory.used == live, "%zu registered, expected %d", e.memory.used, live);
  if (e.free) e.free(&e); else CHECK(!live, "no free function");
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
}
static void sc_configs(void) {
  int n = 1 + R(3);
  sp_wave_event_config_t* w = 0;
  sp_noise_event_config_t* no = 0;
  sp_map_event_config_t* m = 0;
  TRY(sp_wave_event_config_new_n(n, &w));
  for (int i = 0; i < n; i++) out_number(w[i].wvf_size, "waveform size"), out_number(w[i].channel_config[1].amp, "amplitude");
  TRY(sp_noise_event_config_new_n(n, &no));
  for (int i = 0; i < n; i++) out_number(no[i].resolution, "resolution"), out_number(no[i].channel_config[1].amp, "amplitude");
  TRY(sp_map_event_config_new_n(n, &m));
  for (int i = 0; i < n; i++) out_number(!m[i].config, "config");
  t_free(w);
  t_free(no);
  t_free(m);
}
static void sc_noise(void) { /* prepared and generated directly; failing prepare can be repeated */
  sp_event_t e = { 0 }, *ep = &e;
  sp_noise_event_config_t c = sp_noise_event_config_defaults();
  sp_time_t duration = 10 + R(120), at = 0;
  sp_sample_t* amod = some_samples(duration);
  sp_time_t* fmod = some_times(duration, 80);
  int channels = 1 + R(2);
  c.channel_count = channels;
  c.resolution = 5 + R(60);
  c.is_reject = R(2);
  for (int i = 0; i < channels; i++) {
    sp_noise_event_channel_config_t* cc = c.channel_config + i;
    cc->use = 1;
    cc->amod = i && R(2) ? 0 : amod;
    cc->frq = R(100);
    cc->fmod = R(3) ? 0 : fmod;
    cc->wdt = 50 + R(100);
    cc->trnl = 150 + R(100);
    cc->trnh = 150 + R(100);
    if (i && R(2)) cc->use = 0;
  }
  sp_noise_event(ep, &c);
  e.end = duration;
  TRY(e.prepare(&e));
  e.prepare = 0;
  while (at < duration) {
    sp_time_t n = 1 + R(duration - at);
    sp_block_t out = buf_block(channels, n);
    TRY_KEEPS(e.generate(at, at + n, out, &e));
    at += n;
  }
  e.free(&e);
}
static void sc_seq(void) {
  u64 r0 = rng;
  int again = 0, attempts = 0;
  do {
    again = 0;
    rng = r0;
    noise_used = 0;
    CHECK(attempts++ < 2, "%s fails without a failing allocation", scenario);
    sp_event_list_t* list = 0;
    int n = 1 + R(4);
    sp_time_t stop = 1;
    for (int i = 0; i < n; i++) {
      sp_event_t e;
      sp_time_t s = R(30), d = 1 + R(40);
      TRY(leaf(&e, s, d, 2));
      if (e.end > stop) stop = e.end;
      TRY(sp_event_list_add(&list, e));
    }
    sp_seq_events_prepare(&list);
    int channels = 1 + R(2);
    sp_time_t t = 0;
    size_t rec_at0 = rec_at;
    while (t < stop) {
      sp_time_t m = 1 + R(30);
      sp_block_t out = buf_block(channels, m);
      begin_call();
      status_t s = seq_parallel ? sp_seq_parallel(t, t + m, out, &list) : sp_seq(t, t + m, out, &list);
      if (end_call(s.id, seq_parallel ? "sp_seq_parallel" : "sp_seq", 1)) {
        CHECK(!list, "%s: the list is not empty after an error", scenario);
        CHECK(mem_live == 0, "%s: %ld allocation(s) remain after an error", scenario, mem_live);
        again = 1;
        rec_at = rec_at0;
        break;
      }
      for (int i = 0; i < channels; i++) noise_used ? 0 : (out_samples(out.samples[i], m, "the output"), 0);
      t += m;
    }
    sp_event_list_free(&list);
  } while (again);
}
static void sc_seq_serial(void) { seq_parallel = 0; sc_seq(); }
static void sc_seq_parallel(void) { seq_parallel = 1; sc_seq(); }
static int freed_marks;
static void mark_free(void* p) { freed_marks++; t_free(p); }
static void sc_render(void) {
  /* whether a range rendering that fails has freed the event is not documented: freed at most once, and nothing else remains */
  char path[300];
  snprintf(path, sizeof path, "%s/r.wav", pbt_scratch());
  int to_file = R(2), channels = 1 + R(2), attempts = 0, fd = fd_lowest(), id;
  sp_time_t duration = 1 + R(60), value = R(9), block_size = 1 + R(30);
  sp_block_t out;
  do {
    sp_event_t e = { 0 };
    CHECK(attempts++ < 2, "rendering fails without a failing allocation");
    freed_marks = 0;
    sp_time_t* c = t_malloc(sizeof(sp_time_t));
    *c = value;
    TRY(sp_event_memory_add_with_handler(&e, c, mark_free));
    e.config = c;
    e.generate = leaf_generate;
    e.end = duration;
    memset(&out, 0, sizeof out);
    begin_call();
    if (to_file) id = sp_render_range_file(e, 0, duration, sp_render_config(channels, 960, block_size, 0), (uint8_t*)path).id;
    else id = sp_render_range_block(e, 0, duration, sp_render_config(channels, 960, block_size, 0), &out).id;
    id = end_call(id, "rendering", 1);
    CHECK(freed_marks < 2, "the event is freed twice");
    if (id && !freed_marks) sp_event_memory_free(&e);
    CHECK(fd_lowest() == fd, "a file remains open");
    if (id) CHECK(mem_live == 0, "%ld allocation(s) remain after rendering failed", mem_live);
  } while (id);
  if (!to_file) {
    for (int i = 0; i < channels; i++) out_samples(out.samples[i], duration, "the output");
    sp_block_free(&out);
  }
  unlink(path);
}
static void sc_initialize(void) {
  sp_deinitialize();
  mem_live = 0;
  begin_call();
  sp_time_t rate = 10 + R(100);
  status_t s = sp_initialize(1, 2, rate);
  if (end_call(s.id, "sp_initialize", 0)) {
    if (R(2)) sp_deinitialize(); /* allowed: nothing is left to do */
    s = sp_initialize(1, 2, rate);
    CHECK(s.id == 0, "sp_initialize fails after memory is available");
  }
  out_samples(sp_sine_table, rate, "the sine table");
  sp_deinitialize();
  CHECK(mem_live == 0, "%ld allocation(s) remain after sp_deinitialize", mem_live);
  mem_fail_at = 0;
  CHECK_OK(sp_initialize(1, 2, TEST_RATE), "sp_initialize");
  mem_live = 0; /* the tables of the process */
}
static volatile int task_runs;
static void* task(void* a) { __sync_fetch_and_add(&task_runs, 1); return (u8*)a + 1; }
static void some_futures(int n) {
  sph_future_t f[8];
  task_runs = 0;
  for (int i = 0; i < n; i++) sph_future_new(task, (u8*)0 + i * 8, f + i);
  for (int i = 0; i < n; i++) CHECK((u8*)sph_future_touch(f + i) - (u8*)0 == i * 8 + 1, "future %d has the wrong result", i);
  CHECK(task_runs == n, "%d futures ran %d times", n, task_runs);
}
static void sc_futures(void) {
  /* stopping the workers needs memory. when there is none, they must stay usable or be gone */
  int workers = 1 + R(4), jobs = (int)R(8);
  if (sp_cpu_count) sph_future_deinit();
  mem_live = 0;
  CHECK(!sph_future_init(workers), "sph_future_init failed");
  some_futures(jobs);
  begin_call();
  sph_future_deinit();
  if (mem_failed != fault_before) {
    faults_seen++;
    CHECK(!sph_future_init(workers), "sph_future_init failed");
    some_futures(jobs);
    sph_future_deinit();
  }
  CHECK(mem_live == 0, "%ld allocation(s) remain after sph_future_deinit", mem_live);
  CHECK(!sph_future_init(1), "sph_future_init failed");
}

static const struct { const char* name; void (*f)(void); int weight; } scenarios[] = {
  { "arrays", sc_arrays, 6 }, { "enumeration", sc_enumerate, 6 }, { "large enumeration", sc_enumerate_many, 1 }, { "random selection", sc_random, 4 }, { "statistics", sc_statistics, 4 },
  { "blocks", sc_block, 3 }, { "filter streams", sc_convolution, 12 }, { "first filter call", sc_first_filter, 3 }, { "impulse responses", sc_ir, 6 },
  { "transforms", sc_fft, 4 }, { "paths from segments", sc_spline, 3 }, { "paths and envelopes", sc_path, 12 }, { "files", sc_file, 5 }, { "spectrum plot", sc_plot, 3 }, { "allocation helpers", sc_helper, 4 },
  { "event construction", sc_build, 8 }, { "groups", sc_group, 4 }, { "event memory", sc_memory, 8 }, { "event configurations", sc_configs, 3 }, { "noise events", sc_noise, 8 },
  { "sequences", sc_seq_serial, 14 }, { "parallel sequences", sc_seq_parallel, 8 }, { "range rendering", sc_render, 6 },
  { "initialisation", sc_initialize, 1 }, { "worker threads", sc_futures, 2 },
};
static void run(void) {
  int total = 0, k = 0;
  for (size_t i = 0; i < sizeof scenarios / sizeof *scenarios; i++) total += scenarios[i].weight;
  int w = (int)d_below(total);
  while (w >= scenarios[k].weight) w -= scenarios[k++].weight;
  scenario = scenarios[k].name;
  size_limit = 1 + (int)d_below(40);
  rng_start = d_below(1u << 30);
  pbt_label(scenario);
  rec_n = 0;
  faults_seen = 0;
  long n = 1;
  int step = 1;
  for (faulty = 0; faulty <= n; faulty += !faulty || step == 1 ? 1 : 1 + (int)(mix64(rng_start + faulty) % (2 * step))) {
    mem_reset();
    mem_fail_at = faulty;
    rec_at = 0;
    rng = rng_start;
    sp_random_state = sp_random_state_new(rng_start);
    scenarios[k].f();
    CHECK(mem_live == 0, "%s: %ld allocation(s) remain at the end, allocation %d failed", scenario, mem_live, faulty);
    if (!faulty) {
      n = mem_count;
      step = (int)(n / 300 + 1) * (n > 300 ? 4 : 1);
      pbt_note("%s, sizes up to %d, seed %llu: %ld allocations", scenario, size_limit, (unsigned long long)rng_start, n);
    }
    mem_fail_at = 0;
    buf_free_all();
  }
  if (faults_seen > 1) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C29", .quick = 20000, .thorough = 500000, .setup = setup_sp, .run = run,
  .rule = "a program with at least two allocations, each failed once" };
