/* histories of initialising with different parameters, using the library and deinitialising */
#include "../sp.h"
#include <pthread.h>
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>

static int base_threads;
static void set_up(void) { base_threads = thread_count(); }
/* threads that have been joined can still be listed for a moment */
static int threads_settle(int want) {
  int n = 0;
  for (int i = 0; i < 2000; i++) {
    n = thread_count() - base_threads;
    if (n == want) break;
    usleep(i < 100 ? 100 : 1000);
  }
  return n;
}
static void* task(void* x) {
  *(int*)x += 1;
  return (char*)x + 1;
}
static void period(const double* a, size_t n, const char* what) {
  CHECK(a, "%s is missing", what);
  size_t step = n < 3000 ? 1 : 1 + n / 2000;
  for (size_t i = 0; i < n; i = i + step < n || i == n - 1 ? i + step : n - 1) {
    double e = sin(2 * M_PI * (double)i / (double)n);
    CHECK(fabs(a[i] - e) <= 1e-9, "%s with rate %u: element %zu of %zu is %.12g instead of %.12g", what, (unsigned)sp_rate, i, n, a[i], e);
  }
}
static void released(const char* when) {
  CHECK(mem_live == 0, "%ld allocations remain %s", mem_live, when);
  int n = threads_settle(0);
  CHECK(n == 0, "%d threads remain %s", n, when);
}
static void run(void) {
  int rounds = 1 + (int)d_below(4), interesting = 0, failing = 0;
  mem_fill = 1;
  for (int r = 0; r < rounds; r++) {
    int cpu = d_chance(40) ? 0 : d_chance(90) ? 1 + (int)d_below(5) : 1 + (int)d_below(128), channels = 1 + (int)d_below(2);
    sp_time_t rate = d_chance(60) ? 1 + (sp_time_t)d_below(100) : d_chance(90) ? 2 + (sp_time_t)d_below(3000) : 44100 + 3900 * (sp_time_t)d_below(3);
    if (!d_rare(400) && rate > 10000) rate /= 50;
    mem_reset();
    /* not enough threads or memory */
    int fault = d_chance(25) ? 1 + (int)d_below(2) : 0;
    if (fault == 1 && cpu) thread_fail_at = 1 + (long)d_below((u64)cpu);
    if (fault == 2) mem_fail_at = 1 + (long)d_below(3);
    pbt_note("%s%d threads, %d channels, rate %u%s", r ? "; " : "", cpu, channels, rate, thread_fail_at ? ", a thread can not be created" : mem_fail_at ? ", without memory" : "");
    status_t s = sp_initialize((uint16_t)cpu, (sp_channel_count_t)channels, rate);
    int failed = mem_failed || thread_failed;
    mem_fail_at = thread_fail_at = 0;
    CHECK(!s.id == !failed, "sp_initialize returns %d when %s", s.id, failed ? "a resource is missing" : "nothing is missing");
    if (failed) {
      failing++;
      released("after initialising failed");
      continue;
    }
    CHECK(sp_rate == rate && sp_channel_count == channels && (int)sp_cpu_count == cpu, "the rate is %u, channel count %u, cpu count %u after initialising with %u %d %d", (unsigned)sp_rate, (unsigned)sp_channel_count, (unsigned)sp_cpu_count, rate, channels, cpu);
    period(sp_sine_table, rate, "sp_sine_table");
    period(sp_sine_table_lfo, (size_t)rate * sp_sine_lfo_factor, "sp_sine_table_lfo");
    sp_random_state_t fresh = sp_random_state_new(sp_random_seed);
    for (int i = 0; i < 3; i++) CHECK(sp_time_random() == sp_time_random_primitive(&fresh), "the random state is not the initial one");
    int n = threads_settle(cpu);
    CHECK(n == cpu, "%d threads were started instead of %d", n, cpu);
    if (cpu) {
      int jobs = (int)d_below(20), count[20] = { 0 };
      sph_future_t f[20];
      memset(f, 0xff, sizeof f);
      for (int i = 0; i < jobs; i++) sph_future_new(task, count + i, f + i);
      int touch = d_bool();
      if (touch) for (int i = 0; i < jobs; i++) CHECK(sph_future_touch(f + i) == (char*)(count + i) + 1, "a future gives another result");
      pbt_note(", %d futures%s", jobs, touch ? " touched" : "");
      long live = mem_live;
      sp_deinitialize();
      CHECK(live == 2, "%ld instead of two tables are allocated", live);
      for (int i = 0; i < jobs; i++) CHECK(count[i] == 1, "future %d ran %d times before deinitialising completed", i, count[i]);
      if (r) interesting = 1;
    } else sp_deinitialize();
    CHECK(!sp_sine_table && !sp_sine_table_lfo, "a table remains after deinitialising");
    released("after deinitialising");
    if (d_chance(30)) {
      sp_deinitialize();
      pbt_note(" (deinitialised twice)");
      released("after deinitialising twice");
    }
  }
  if (failing) pbt_label("initialising fails");
  if (rounds > 1) pbt_label("several times");
  if (interesting || failing) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C34", .quick = 8000, .thorough = 300000, .setup = set_up, .run = run, .nondeterministic = 1,
  .rule = "worker threads are used and it is not the first initialisation, or initialising fails for a lack of memory or threads" };
