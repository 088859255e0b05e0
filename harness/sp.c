#include <pthread.h>
volatile long mem_live, mem_count, mem_fail_at;
volatile int mem_failed, mem_fill = 1;
#include <malloc.h>

static int fail_now(void) {
  __atomic_fetch_add(&mem_count, 1, __ATOMIC_RELAXED);
  if (__atomic_load_n(&mem_fail_at, __ATOMIC_RELAXED) > 0 && __atomic_sub_fetch(&mem_fail_at, 1, __ATOMIC_RELAXED) == 0) {
    __atomic_fetch_add(&mem_failed, 1, __ATOMIC_RELAXED);
    return 1;
  }
  return 0;
}
void* __wrap_malloc(size_t n) {
  if (fail_now()) return 0;
  void* p = malloc(n);
  if (p) {
    __atomic_fetch_add(&mem_live, 1, __ATOMIC_RELAXED);
    if (mem_fill) memset(p, 0xff, n);
  }
  return p;
}
void* __wrap_calloc(size_t a, size_t b) {
  if (fail_now()) return 0;
  void* p = calloc(a, b);
  if (p) __atomic_fetch_add(&mem_live, 1, __ATOMIC_RELAXED);
  return p;
}
void* __wrap_realloc(void* q, size_t n) {
  if (fail_now()) return 0;
  size_t old = q ? malloc_usable_size(q) : 0;
  void* p = realloc(q, n);
  if (p && !q) __atomic_fetch_add(&mem_live, 1, __ATOMIC_RELAXED);
  if (p && mem_fill && n > old) memset((char*)p + old, 0xff, n - old);
  return p;
}
void __wrap_free(void* p) {
  if (p) __atomic_fetch_sub(&mem_live, 1, __ATOMIC_RELAXED);
  free(p);
}
volatile long fwrite_fail_at, thread_fail_at;
volatile int fwrite_failed, thread_failed;
volatile size_t fwrite_failed_size;
size_t __wrap_fwrite(const void* a, size_t size, size_t n, FILE* f) {
  if (fwrite_fail_at > 0 && --fwrite_fail_at == 0) {
    fwrite_failed++;
    fwrite_failed_size = size * n;
    errno = ENOSPC;
    return 0;
  }
  return fwrite(a, size, n, f);
}
volatile long fread_fail_at;
volatile int fread_failed;
size_t __wrap_fread(void* a, size_t size, size_t n, FILE* f) {
  if (size && n && fread_fail_at > 0 && !feof(f) && --fread_fail_at == 0) { /* nothing is read once the end was reached. a part is read, then an error that is not the end */
    size_t k = fread(a, size, n / 2, f);
    if (k < n / 2) return k;
    fread_failed++;
    errno = EIO;
    return k;
  }
  return fread(a, size, n, f);
}
/* the library is compiled to call this. libgcc has a __wrap_pthread_create */
int t_pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* x) {
  if (thread_fail_at > 0 && --thread_fail_at == 0) {
    thread_failed++;
    return EAGAIN;
  }
  return pthread_create(t, a, f, x);
}
#include <dirent.h>
int thread_count(void) {
  int n = 0;
  struct dirent* e;
  DIR* d = opendir("/proc/self/task");
  if (!d) return -1;
  while ((e = readdir(d))) n += e->d_name[0] != '.';
  closedir(d);
  return n;
}
void* t_malloc(size_t n) {
  void* p = malloc(n);
  __atomic_fetch_add(&mem_live, 1, __ATOMIC_RELAXED);
  memset(p, 0xff, n);
  return p;
}
void* t_calloc(size_t n) {
  __atomic_fetch_add(&mem_live, 1, __ATOMIC_RELAXED);
  return calloc(n ? n : 1, 1);
}
void t_free(void* p) { __wrap_free(p); }

static void** bufs;
static size_t bufs_n, bufs_cap;
void* buf_new(size_t n) {
  if (bufs_n == bufs_cap) {
    bufs_cap = bufs_cap ? 2 * bufs_cap : 64;
    bufs = realloc(bufs, bufs_cap * sizeof(void*));
  }
  void* p = malloc(n);
  memset(p, 0xff, n);
  bufs[bufs_n++] = p;
  return p;
}
void buf_free_all(void) {
  while (bufs_n) free(bufs[--bufs_n]);
}
sp_block_t buf_block(sp_channel_count_t channels, sp_time_t size) {
  sp_block_t b;
  memset(&b, 0, sizeof(b));
  b.channel_count = channels;
  b.size = size;
  for (int i = 0; i < channels; i++) b.samples[i] = zero_samples(size);
  return b;
}
static int out_saved = -1, out_file = -1;
void out_capture(void) {
  if (out_file < 0) {
    out_file = memfd_create("out", MFD_CLOEXEC);
    out_saved = fcntl(1, F_DUPFD_CLOEXEC, 10);
  }
  fflush(stdout);
  if (out_file < 0 || out_saved < 0 || ftruncate(out_file, 0) || lseek(out_file, 0, SEEK_SET) < 0 || dup2(out_file, 1) < 0) _exit(EXIT_FAIL);
}
char* out_text(size_t* length) {
  fflush(stdout);
  off_t n = lseek(out_file, 0, SEEK_END);
  char* a = buf_new((size_t)n + 1);
  if (n < 0 || pread(out_file, a, (size_t)n, 0) != n || dup2(out_saved, 1) < 0) _exit(EXIT_FAIL);
  a[n] = 0;
  *length = (size_t)n;
  return a;
}
int fd_lowest(void) {
  int f = dup(2);
  if (f >= 0) close(f);
  return f;
}
u64 mix64(u64 z) {
  z += 0x9E3779B97F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
double d_float(double lo, double hi) {
  u64 k = d_below(6);
  double v;
  if (k < 3) { /* integers and simple fractions */
    static const double div[3] = { 1, 4, 100 };
    double d = div[k];
    double n = floor((hi - lo) * d);
    v = lo + (n > 0 ? (double)d_below((u64)n + 1) : 0) / d;
  } else v = lo + (hi - lo) * ((double)d_below((1ull << 53) + 1) * 0x1.0p-53);
  return v > hi ? hi : v < lo ? lo : v;
}
double d_unit(void) { return d_float(0, 1); }
sp_sample_t* d_samples(size_t n, double lo, double hi) {
  sp_sample_t* a = new_samples(n);
  if (n > 24) d_fill(a, n, lo, hi);
  else
    for (size_t i = 0; i < n; i++) a[i] = d_float(lo, hi);
  return a;
}
sp_time_t* d_times(size_t n, sp_time_t lo, sp_time_t hi) {
  sp_time_t* a = new_times(n);
  u64 seed = n > 40 ? d_below(1u << 30) : 0;
  for (size_t i = 0; i < n; i++) a[i] = n > 40 ? lo + mix64(seed * 1000003 + i) % ((u64)hi - lo + 1) : (sp_time_t)d_range(lo, hi);
  return a;
}
void d_fill(sp_sample_t* a, size_t n, double lo, double hi) {
  u64 seed = d_below(1u << 30);
  for (size_t i = 0; i < n; i++) a[i] = lo + (hi - lo) * (hash_unit(seed * 1000003 + i) + 1) / 2;
}
size_t d_partition(size_t total, size_t* out, size_t max) {
  size_t n = 0, left = total;
  int style = d_below(4);
  size_t fixed = 1 + d_below(total < 64 ? total : 64);
  while (left) {
    size_t k = style == 0 ? fixed : style == 1 ? 1 + d_below(left) : style == 2 ? 1 + d_below(left < 8 ? left : 8) : 1 + d_below(left < 64 ? left : 64);
    if (n + 1 == max || k > left) k = left;
    out[n++] = k;
    left -= k;
  }
  return n;
}
static void case_begin(void) {
  mem_reset();
  sp_random_state = sp_random_state_new(sp_random_seed);
}
static void case_end(void) { buf_free_all(); }
/* once per worker, after fork */
void setup_sp(void) {
  status_t s = sp_initialize(1, 2, TEST_RATE);
  if (s.id) {
    fprintf(stderr, "sp_initialize failed\n");
    _exit(EXIT_FAIL);
  }
}
