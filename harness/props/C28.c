/* task queue, thread pools and futures: histories of operations with real threads */
#include "../sp.h"
#include <pthread.h>
#include <sched.h>
#include <stddef.h>
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>

typedef struct { int id; sph_queue_node_t a; char pad[3]; sph_queue_node_t b; } elem_t;
static void queue_case(void) {
  sph_queue_t q[2];
  elem_t* e = memset(new_array(elem_t, 40), 0xff, 40 * sizeof(elem_t));
  int in[2][40], model[2][40], n[2] = {0, 0}, ops = 1 + (int)d_below(60), most = 0;
  memset(in, 0, sizeof in);
  for (int i = 0; i < 40; i += 1) e[i].id = i;
  sph_queue_init(q);
  sph_queue_init(q + 1);
  pbt_label("queue");
  for (int o = 0; o < ops; o += 1) {
    int w = d_chance(25); /* two queues over the same elements */
    u64 op = d_below(20);
    if (op < 11) {
      int i = (int)d_below(40);
      if (in[w][i]) continue;
      sph_queue_enq(q + w, w ? &e[i].b : &e[i].a);
      model[w][n[w]++] = i;
      in[w][i] = 1;
      if (n[w] > most) most = n[w];
    } else if (op < 19) {
      if (!n[w]) continue;
      sph_queue_node_t* node = sph_queue_deq(q + w);
      elem_t* g = w ? sph_queue_get(node, elem_t, b) : sph_queue_get(node, elem_t, a);
      CHECK(g == e + model[w][0], "element %d was dequeued, expected %d", (int)(g - e), model[w][0]);
      in[w][model[w][0]] = 0;
      memmove(model[w], model[w] + 1, --n[w] * sizeof(int));
    } else {
      sph_queue_init(q + w);
      n[w] = 0;
      memset(in[w], 0, sizeof in[w]);
    }
    for (int i = 0; i < 2; i += 1) CHECK((int)q[i].size == n[i], "the size of the queue is %u, expected %d", q[i].size, n[i]);
  }
  for (int w = 0; w < 2; w += 1) while (n[w]) { /* drain */
    sph_queue_node_t* node = sph_queue_deq(q + w);
    elem_t* g = w ? sph_queue_get(node, elem_t, b) : sph_queue_get(node, elem_t, a);
    CHECK(g == e + model[w][0], "element %d was dequeued, expected %d", (int)(g - e), model[w][0]);
    memmove(model[w], model[w] + 1, --n[w] * sizeof(int));
    CHECK((int)q[w].size == n[w], "the size of the queue is %u, expected %d", q[w].size, n[w]);
  }
  pbt_note("queue, %d operations", ops);
  if (most > 1) pbt_nontrivial();
}

#define MAX_TASKS 400
typedef struct { int i, work; volatile int runs, done; void* got; int order; int spawn; } job_t;
static job_t jobs[MAX_TASKS];
static int jobs_n;
static volatile int order_next;
static u64 work_seed;
static sph_future_t* futures;
static char results[MAX_TASKS];
static void jitter(int i, int work) {
  u64 h = mix64(work_seed + i);
  switch (work) {
  case 1: for (int k = 0; k < (int)(h % 5); k += 1) sched_yield(); break;
  case 2: usleep(h % 200); break;
  case 3: { volatile int x = 0; for (int k = 0; k < (int)(h % 3000); k += 1) x += k; } break;
  }
}
static void new_future(int i);
static void work(job_t* j) {
  __atomic_fetch_add(&j->runs, 1, __ATOMIC_RELAXED);
  j->order = __atomic_fetch_add(&order_next, 1, __ATOMIC_RELAXED);
  jitter(j->i, j->work);
  if (j->spawn) new_future(j->spawn);
  j->done = 1;
}
static void* future_f(void* data) {
  job_t* j = data;
  j->got = data;
  work(j);
  return results + j->i;
}
static void new_future(int i) { sph_future_new(future_f, jobs + i, futures + i); }
static int new_job(int w) {
  int i = jobs_n++;
  memset(jobs + i, 0, sizeof *jobs);
  jobs[i].i = i;
  jobs[i].work = w;
  return i;
}
static void touched(int i) {
  void* r = sph_future_touch(futures + i);
  CHECK(jobs[i].done, "touching future %d returned before it was finished", i);
  CHECK(r == results + i, "touching future %d does not give its result", i);
}
static void* touch_thread(void* x) { touched((int)(intptr_t)x); return 0; }
static void all_ran(int from, const char* when) {
  for (int i = from; i < jobs_n; i += 1) {
    CHECK(jobs[i].runs == 1, "task %d ran %d times %s", i, jobs[i].runs, when);
    CHECK(jobs[i].done, "task %d is still running %s", i, when);
  }
}
static int d_workers(void) { return d_chance(60) ? 1 + (int)d_below(4) : d_chance(90) ? 1 + (int)d_below(12) : 1 + (int)d_below(128); }

static void future_case(void) {
  int rounds = 1 + (int)d_below(3), mode = (int)d_below(4);
  futures = memset(new_array(sph_future_t, MAX_TASKS), 0xff, MAX_TASKS * sizeof *futures);
  jobs_n = 0;
  pbt_label("futures");
  work_seed = d_below(1 << 20);
  for (int r = 0; r < rounds; r += 1) {
    int w = d_workers(), first = jobs_n, ops = (int)d_below(d_chance(20) ? 100 : 25), nested = 0;
    order_next = 0;
    CHECK(sph_future_init(w) == 0, "sph_future_init(%d) failed", w);
    if (d_chance(20)) CHECK(sph_future_init(1 + (int)d_below(4)) == 0, "initialising again failed");
    pbt_note("%s%d workers:", r ? "; " : "", w);
    pthread_t th[8];
    int th_n = 0;
    for (int o = 0; o < ops && jobs_n + 2 < MAX_TASKS; o += 1) {
      u64 op = d_below(12);
      if (op < 8 || jobs_n == first) {
        int i = new_job(mode);
        if (d_chance(10)) { jobs[i].spawn = new_job(mode); nested = 1; }
        pbt_note(" new");
        new_future(i);
      } else {
        int i = first + (int)d_below(jobs_n - first);
        for (int p = first; p < jobs_n; p += 1) if (i && jobs[p].spawn == i) { touched(p); break; } /* exists once its parent has run */
        pbt_note(" touch %d", i - first);
        if (op < 11 || th_n == 8) touched(i);
        else pthread_create(th + th_n++, 0, touch_thread, (void*)(intptr_t)i);
      }
    }
    while (th_n) pthread_join(th[--th_n], 0);
    if (nested) for (int p = first; p < jobs_n; p += 1) if (jobs[p].spawn) touched(p); /* tasks that tasks make are enqueued before finishing */
    int touch_all = d_bool();
    if (touch_all) { pbt_note(" touch all"); for (int i = first; i < jobs_n; i += 1) touched(i); }
    sph_future_deinit();
    if (d_chance(20)) sph_future_deinit();
    all_ran(first, "after the pool was finished");
    for (int i = first; i < jobs_n; i += 1) { CHECK(jobs[i].got == jobs + i, "task %d ran with other data", i); touched(i); }
    if (w == 1 && !nested) for (int i = first + 1; i < jobs_n; i += 1) CHECK(jobs[i].order > jobs[i - 1].order, "with one thread task %d ran before task %d", i, i - 1);
    if (jobs_n - first > 1 && w > 1) pbt_nontrivial();
    CHECK(mem_live == 0, "%ld allocations remain after finishing the pool", mem_live);
  }
}

typedef struct { sph_thread_pool_task_t task; job_t* job; } ptask_t;
static ptask_t* ptasks;
static int gate; /* the first task of a pool may wait for it */
static void pool_f(sph_thread_pool_task_t* t) {
  ptask_t* p = (ptask_t*)((char*)t - offsetof(ptask_t, task));
  if (p == ptasks) while (!__atomic_load_n(&gate, __ATOMIC_ACQUIRE)) usleep(20);
  p->job->got = t->data;
  work(p->job);
}
typedef struct { sph_thread_pool_t* pool; int from, to; int pause; } producer_t;
static void* producer(void* x) {
  producer_t* p = x;
  for (int i = p->from; i < p->to; i += 1) {
    sph_thread_pool_enqueue(p->pool, &ptasks[i].task);
    if (p->pause) jitter(i + 1000, p->pause);
  }
  return 0;
}
static void pool_case(void) {
  sph_thread_pool_t* pool = memset(new_array(sph_thread_pool_t, 1), 0xff, sizeof *pool);
  int w = d_workers(), producers = 1 + (int)d_below(4), each = (int)d_below(d_chance(10) ? 90 : 30), mode = (int)d_below(4), pause = (int)d_below(4), discard = d_chance(10), early = d_chance(25), again_discard = early && d_chance(20);
  gate = !(early && d_bool());
  ptasks = memset(new_array(ptask_t, MAX_TASKS), 0xff, MAX_TASKS * sizeof *ptasks);
  jobs_n = 0;
  order_next = 0;
  work_seed = d_below(1 << 20);
  pbt_label("pool");
  pbt_note("pool of %d threads, %d producers of %d tasks%s%s%s", w, producers, each, early ? gate ? ", finished first without waiting" : ", finished first without waiting while a task is running" : "", discard ? ", queue discarded" : "", again_discard ? ", queue discarded the second time" : "");
  CHECK(sph_thread_pool_new((sph_thread_pool_size_t)w, pool) == 0, "sph_thread_pool_new(%d) failed", w);
  producer_t p[4];
  pthread_t th[4];
  for (int i = 0; i < producers * each; i += 1) {
    int j = new_job(mode);
    ptasks[i].task.f = pool_f;
    ptasks[i].task.data = results + i;
    ptasks[i].job = jobs + j;
  }
  if (d_chance(30)) usleep((unsigned)d_below(300)); /* threads may be waiting already */
  for (int i = 0; i < producers; i += 1) {
    p[i] = (producer_t){ .pool = pool, .from = i * each, .to = (i + 1) * each, .pause = pause };
    if (producers == 1) producer(p);
    else pthread_create(th + i, 0, producer, p + i);
  }
  if (producers > 1) for (int i = 0; i < producers; i += 1) pthread_join(th[i], 0);
  if (early) {
    pbt_label("pool finished without waiting");
    CHECK(sph_thread_pool_finish(pool, 1, (u8)discard) == 0, "sph_thread_pool_finish without waiting failed");
    if (d_chance(30)) usleep((unsigned)d_below(300));
    __atomic_store_n(&gate, 1, __ATOMIC_RELEASE);
    if (d_chance(30)) usleep((unsigned)d_below(300));
    CHECK(sph_thread_pool_finish(pool, 0, (u8)again_discard) == 0, "finishing the pool again failed");
    discard |= again_discard;
  } else CHECK(sph_thread_pool_finish(pool, 0, (u8)discard) == 0, "sph_thread_pool_finish failed");
  for (int i = 0; i < jobs_n; i += 1) {
    CHECK(discard ? jobs[i].runs <= 1 : jobs[i].runs == 1, "task %d ran %d times", i, jobs[i].runs);
    if (jobs[i].runs) CHECK(jobs[i].done && jobs[i].got == results + i, "task %d is still running after finishing the pool or had other data", i);
  }
  if (w == 1) for (int q = 0; q < producers; q += 1) for (int i = q * each + 1; i < (q + 1) * each; i += 1)
    if (jobs[i].runs) CHECK(jobs[i].order > jobs[i - 1].order, "with one thread task %d ran before task %d, which was enqueued before", i, i - 1);
  if (w > 1 && producers * each > 1) pbt_nontrivial();
  CHECK(mem_live == 0, "%ld allocations remain after finishing the pool", mem_live);
}

static int base_threads;
/* threads that have been joined can still be listed for a moment */
static int threads_settle(void) {
  int n = 0;
  for (int i = 0; i < 2000; i += 1) {
    n = thread_count() - base_threads;
    if (!n) break;
    usleep(i < 100 ? 100 : 1000);
  }
  return n;
}
static void* no_work(void* a) { return a; }
/* the first thread of a process can make the thread sanitizer start one of its own */
static void threads_base(void) {
  static int pid;
  pthread_t t;
  if (pid == getpid()) return;
  pid = getpid();
  if (!pthread_create(&t, 0, no_work, 0)) pthread_join(t, 0);
  usleep(20000);
  base_threads = thread_count();
}
/* a pool for which a thread can not be created */
static void failing_case(void) {
  int w = d_workers(), at = 1 + (int)d_below((u64)w), future = d_bool();
  sph_thread_pool_t* pool = memset(new_array(sph_thread_pool_t, 1), d_bool() ? 0xff : 0, sizeof *pool);
  pbt_label("a thread can not be created");
  pbt_note("%s of %d threads, creation of thread %d fails", future ? "futures" : "pool", w, at);
  threads_base();
  int before = thread_count() - base_threads;
  thread_fail_at = at;
  int r = future ? sph_future_init((sph_thread_pool_size_t)w) : sph_thread_pool_new((sph_thread_pool_size_t)w, pool), failed = thread_failed;
  thread_fail_at = 0;
  CHECK(!failed || r, "zero was returned although a thread could not be created");
  CHECK(failed || !r, "creating the pool failed with %d", r);
  if (failed && before <= 0) {
    int n = threads_settle();
    CHECK(n <= 0, "%d threads remain of a pool that could not be created", n);
    CHECK(mem_live == 0, "%ld allocations remain of a pool that could not be created", mem_live);
  }
  if (w > 1) pbt_nontrivial();
  if (!failed) { future ? sph_future_deinit() : sph_thread_pool_finish(pool, 0, 0); return; }
  if (d_bool()) { /* it can be created later */
    futures = memset(new_array(sph_future_t, MAX_TASKS), 0xff, MAX_TASKS * sizeof *futures);
    jobs_n = 0;
    work_seed = 1;
    if (future) {
      CHECK(sph_future_init((sph_thread_pool_size_t)w) == 0, "the pool can not be initialised after a failure");
      for (int i = 0; i < 5; i += 1) new_future(new_job(0));
      for (int i = 0; i < 5; i += 1) touched(i);
      sph_future_deinit();
      all_ran(0, "after the pool was finished");
    } else {
      CHECK(sph_thread_pool_new((sph_thread_pool_size_t)w, pool) == 0, "the pool can not be created after a failure");
      CHECK(sph_thread_pool_finish(pool, 0, 0) == 0, "sph_thread_pool_finish failed");
    }
    CHECK(mem_live == 0, "%ld allocations remain after finishing the pool", mem_live);
  }
}

static void setup(void) { sph_future_deinit(); usleep(1000); base_threads = thread_count(); }
static void run(void) {
  mem_reset();
  mem_fill = 1;
  u64 k = d_below(20);
  if (k < 6) queue_case();
  else if (k < 14) future_case();
  else if (k == 19 && d_chance(30)) failing_case();
  else pool_case();
}

static const pbt_meta META = { .id = "C28", .quick = 30000, .thorough = 1000000, .setup = setup, .run = run, .nondeterministic = 1,
  .rule = "histories of queue operations against a model; futures created, touched (also repeatedly and from other threads), created inside tasks, over 1 to 3 lifetimes of the pool with 1 to 128 threads; raw pools fed by 1 to 4 threads, finished at once or first without waiting, possibly while a task is running; tasks yield, sleep or compute for varying times; pools for which a thread can not be created; non-trivial: at least two queued elements, or at least two tasks and threads" };
