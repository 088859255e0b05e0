/* library access for the checks: public headers, allocation accounting, fault injection, comparison helpers.
   Everything is reached through the shared library built from /repo's working tree. */
#ifndef SP_TEST_H
#define SP_TEST_H
#include "pbt.h"
#include <sph-sp/sph-sp.h>
#include <sph-sp/status.h>

/* exported by the library, without a declaration in the public headers */
extern void sp_interleave(sp_sample_t** a, sp_sample_t* b, sp_time_t a_size, sp_channel_count_t channel_count) __attribute__((weak));
extern void sp_deinterleave(sp_sample_t** a, sp_sample_t* b, sp_time_t a_size, sp_channel_count_t channel_count) __attribute__((weak));
extern void sp_samples_differences(sp_sample_t* a, sp_time_t count, sp_sample_t* out) __attribute__((weak));
extern void sp_samples_limit(sp_sample_t* in_out, sp_time_t count, sp_sample_t limit) __attribute__((weak));
extern void sp_event_list_remove(sp_event_list_t** a, sp_event_list_t* element) __attribute__((weak));
extern void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_value_t* out);
extern spline_path_segment_t spline_path_bezier_arc(spline_path_value_t x, spline_path_value_t y, spline_path_value_t curvature);

/* ---- allocation accounting (the library is linked with --wrap=malloc etc.) ---- */
extern volatile long mem_live; /* allocations made by the library or by t_* that are not freed yet */
extern volatile long mem_count; /* library allocations so far */
extern volatile long mem_fail_at; /* the nth library allocation from now fails, 0: none */
extern volatile int mem_failed; /* how many were failed */
extern volatile int mem_fill; /* fill fresh library allocations with 0xff (malloc only) */
extern volatile long fwrite_fail_at, thread_fail_at; /* the nth call from now fails, 0: none */
extern volatile int fwrite_failed, thread_failed;
extern volatile size_t fwrite_failed_size; /* of the last failed call */
extern volatile long fread_fail_at;
extern volatile int fread_failed;
int thread_count(void); /* running threads of this process */
void* t_malloc(size_t n); /* memory owned by the library afterwards or shared with it */
void* t_calloc(size_t n);
void t_free(void* p);
static inline void mem_reset(void) { mem_live = 0; mem_count = 0; mem_fail_at = 0; mem_failed = 0; fwrite_fail_at = 0; fwrite_failed = 0; fread_fail_at = 0; fread_failed = 0; thread_fail_at = 0; thread_failed = 0; }

/* ---- buffers: exact size, so that AddressSanitizer sees the first element outside ---- */
void* buf_new(size_t n); /* freed at the end of the case; filled with 0xff */
#define new_samples(n) ((sp_sample_t*)buf_new((n) * sizeof(sp_sample_t)))
#define new_times(n) ((sp_time_t*)buf_new((n) * sizeof(sp_time_t)))
#define new_array(type, n) ((type*)buf_new((n) * sizeof(type)))
#define zero_samples(n) ((sp_sample_t*)memset(new_samples(n), 0, (n) * sizeof(sp_sample_t)))
sp_block_t buf_block(sp_channel_count_t channels, sp_time_t size); /* zeroed, freed at the end of the case */
void buf_free_all(void);
int fd_lowest(void);
void out_capture(void); /* what the library writes to standard output is collected */
char* out_text(size_t* length); /* until now: restores standard output. freed at the end of the case */

#define TEST_RATE 960
void setup_sp(void); /* sp_initialize with one worker thread */

/* ---- generators ---- */
#define d_mid() (240 + (size_t)d_below(d_bool() ? 40 : 700)) /* lengths around and above 8 bits */
#define d_long() (65000 + (size_t)d_below(d_bool() ? 1100 : 70000)) /* lengths around and above 16 bits */
double d_float(double lo, double hi); /* mixture of simple and arbitrary values */
double d_unit(void); /* 0..1 */
sp_sample_t* d_samples(size_t n, double lo, double hi);
sp_time_t* d_times(size_t n, sp_time_t lo, sp_time_t hi);
void d_fill(sp_sample_t* a, size_t n, double lo, double hi); /* content from one drawn seed: cheap for long arrays */
/* split 0..total into consecutive positive pieces; returns count, pieces in out (at most max) */
size_t d_partition(size_t total, size_t* out, size_t max);

/* ---- comparison ---- */
static inline int near_abs(double a, double b, double tol) { return a == b || fabs(a - b) <= tol; }
static inline int near_rel(double a, double b, double rel, double abs) {
  double m = fabs(a) > fabs(b) ? fabs(a) : fabs(b);
  return a == b || fabs(a - b) <= abs + rel * m;
}
#define CHECK_OK(s, what) do { status_t s_ = (s); CHECK(s_.id == 0, "%s returned status %d of group '%s'", what, s_.id, (char*)s_.group); } while (0)
u64 mix64(u64 a);
static inline double hash_unit(u64 a) { return (mix64(a) >> 11) * 0x1.0p-53 * 2 - 1; }
#endif
