/* engine: included once, after the property, in the single translation unit of a check */
#include <setjmp.h>

#define TAPE_CAP 200000
#define MAX_WORKERS 64
#define MAX_LABELS 96
#define MAX_SAMPLES 14
#define NOTE_CAP 6000
#define HASH_SLOTS (1u << 23)
#define EXIT_FAIL 77
#define EXIT_ASAN 78

typedef struct {
  volatile u64 case_index;
  volatile double case_start; /* 0: idle */
  volatile u64 cases, nontrivial, discarded;
  volatile int failed; /* set by pbt_fail */
  volatile int is_nontrivial;
  volatile size_t tape_len;
  volatile u64 known_seen;
  char note[NOTE_CAP];
  size_t note_len;
  char message[2000];
  u64 tape[TAPE_CAP];
} worker_shm;

typedef struct {
  char name[64];
  volatile u64 count;
} label_shm;

typedef struct {
  volatile int lock;
  volatile u64 distinct;
  volatile u64 slots_used;
  label_shm labels[MAX_LABELS];
  volatile int label_count;
  label_shm known[16];
  volatile int known_count;
  char known_msg[16][400];
  char samples[MAX_SAMPLES][1600];
  volatile int sample_count;
  volatile u64 hashes[HASH_SLOTS];
  worker_shm w[MAX_WORKERS + 1]; /* last one: replay and shrinking */
} shm_t;

static shm_t* S;
static worker_shm* W;
static const char* known_list = "";
static char scratch_dir[400];
static jmp_buf case_jmp;

/* tape state */
static int tape_mode; /* 0 random, 1 replay, 2 bytes */
static u64 rng_s[4];
static const u64* replay_tape;
static size_t replay_len, replay_pos;
static const u8* bytes_data;
static size_t bytes_len, bytes_pos;

static double now(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
static u64 splitmix(u64* s) {
  u64 z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static u64 rng_next(void) {
  u64 r = rng_s[0] + rng_s[3];
  u64 t = rng_s[1] << 17;
  rng_s[2] ^= rng_s[0];
  rng_s[3] ^= rng_s[1];
  rng_s[1] ^= rng_s[2];
  rng_s[0] ^= rng_s[3];
  rng_s[2] ^= t;
  rng_s[3] = (rng_s[3] << 45) | (rng_s[3] >> 19);
  return r ^ (r >> 29);
}
static void rng_seed(u64 seed, u64 index) {
  u64 s = seed * 0xD1342543DE82EF95ull + index * 0x9E3779B97F4A7C15ull + 12345;
  for (int i = 0; i < 4; i++) rng_s[i] = splitmix(&s);
}
static u64 rng_below(u64 n) {
  return (u64)(((unsigned __int128)rng_next() * n) >> 64);
}

u64 d_below(u64 n) {
  u64 v;
  if (n <= 1) return 0;
  if (tape_mode == 0) {
    u64 k = rng_below(32);
    /* a little weight on the edges and on small values */
    if (n > 4 && k == 0) v = 0;
    else if (n > 4 && k == 1) v = n - 1;
    else if (n > 16 && k == 2) v = rng_below(4);
    else if (n > 64 && k == 3) v = n - 1 - rng_below(4);
    else v = rng_below(n);
  } else if (tape_mode == 1) {
    v = replay_pos < replay_len ? replay_tape[replay_pos] : 0;
    replay_pos++;
    if (v >= n) v = n - 1;
  } else {
    int k = n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
    v = 0;
    for (int i = 0; i < k; i++)
      if (bytes_pos < bytes_len) v |= (u64)bytes_data[bytes_pos++] << (8 * i);
    v %= n;
  }
  if (W->tape_len < TAPE_CAP) W->tape[W->tape_len++] = v;
  return v;
}

static void lock(void) {
  double t = now();
  while (__sync_lock_test_and_set(&S->lock, 1)) {
    usleep(50);
    if (now() - t > 3) break; /* the holder died */
  }
}
static void unlock(void) { __sync_lock_release(&S->lock); }

static label_shm* label_get(label_shm* a, volatile int* count, int max, const char* name) {
  for (int i = 0; i < *count; i++)
    if (!strcmp(a[i].name, name)) return a + i;
  lock();
  label_shm* r = 0;
  for (int i = 0; i < *count; i++)
    if (!strcmp(a[i].name, name)) r = a + i;
  if (!r && *count < max) {
    r = a + *count;
    snprintf(r->name, sizeof(r->name), "%s", name);
    r->count = 0;
    __sync_synchronize();
    *count += 1;
  }
  unlock();
  return r;
}
void pbt_label(const char* name) {
  label_shm* l = label_get(S->labels, &S->label_count, MAX_LABELS, name);
  if (l) __sync_fetch_and_add(&l->count, 1);
}
void pbt_nontrivial(void) { W->is_nontrivial = 1; }
void pbt_note(const char* fmt, ...) {
  va_list ap;
  if (W->note_len + 2 >= NOTE_CAP) return;
  va_start(ap, fmt);
  int n = vsnprintf(W->note + W->note_len, NOTE_CAP - W->note_len, fmt, ap);
  va_end(ap);
  if (n > 0) W->note_len = W->note_len + n < NOTE_CAP ? W->note_len + n : NOTE_CAP - 1;
}
void pbt_fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(W->message, sizeof(W->message), fmt, ap);
  va_end(ap);
  W->failed = 1;
#ifdef PBT_FUZZ
  fprintf(stderr, "PROPERTY FAILED: %s\ncase: %s\n", W->message, W->note);
  abort();
#endif
  _exit(EXIT_FAIL);
}
void pbt_known(const char* key, const char* fmt, ...) {
  char pat[160];
  va_list ap;
  char msg[400];
  va_start(ap, fmt);
  vsnprintf(msg, sizeof(msg), fmt, ap);
  va_end(ap);
  snprintf(pat, sizeof(pat), ",%s,", key);
  if (!strstr(known_list, pat)) pbt_fail("%s", msg);
  label_shm* l = label_get(S->known, &S->known_count, 16, key);
  if (l) {
    if (__sync_fetch_and_add(&l->count, 1) == 0) snprintf(S->known_msg[l - S->known], 400, "%s", msg);
  }
}
int tape_mode_is_search(void) { return tape_mode == 0; }
int W_index(void) { return (int)(W - S->w); }
void pbt_discard(void) { longjmp(case_jmp, 1); }
const char* pbt_scratch(void) {
  if (!scratch_dir[0]) {
    const char* base = getenv("PBT_SCRATCH");
    snprintf(scratch_dir, sizeof(scratch_dir), "%s/w%ld", base ? base : "/tmp", (long)getpid());
    mkdir(scratch_dir, 0700);
  }
  return scratch_dir;
}

static u64 tape_hash(void) {
  u64 h = 0xcbf29ce484222325ull;
  for (size_t i = 0; i < W->tape_len; i++) {
    h ^= W->tape[i] + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0x100000001b3ull;
  }
  return h ? h : 1;
}
static void hash_add(u64 h) {
  if (S->slots_used > HASH_SLOTS * 3ull / 4) return;
  u32 i = (u32)(h % HASH_SLOTS);
  for (;;) {
    u64 old = S->hashes[i];
    if (old == h) return;
    if (!old) {
      if (__sync_bool_compare_and_swap(&S->hashes[i], 0, h)) {
        __sync_fetch_and_add(&S->distinct, 1);
        __sync_fetch_and_add(&S->slots_used, 1);
        return;
      }
      continue;
    }
    i = (i + 1) % HASH_SLOTS;
  }
}

static void case_begin(void);
static void case_end(void);
static void run_one(u64 index) {
  case_begin();
  W->tape_len = 0;
  W->note_len = 0;
  W->note[0] = 0;
  W->is_nontrivial = 0;
  W->case_index = index;
  W->case_start = now();
  if (setjmp(case_jmp) == 0) {
    META.run();
    W->cases++;
    if (W->is_nontrivial) {
      W->nontrivial++;
      hash_add(tape_hash());
      /* the first few, then ever more widely spaced */
      if (S->sample_count < MAX_SAMPLES && (W->nontrivial & (W->nontrivial - 1)) == 0 && W->nontrivial > 2) {
        lock();
        if (S->sample_count < MAX_SAMPLES) {
          snprintf(S->samples[S->sample_count], sizeof(S->samples[0]), "#%llu %s", (unsigned long long)index, W->note);
          S->sample_count++;
        }
        unlock();
      }
    }
  } else W->discarded++;
  W->case_start = 0;
  case_end();
}

#ifndef PBT_FUZZ
static void redirect(const char* name) {
  char p[600];
  snprintf(p, sizeof(p), "%s/%s", getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp", name);
  int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  fd = open("/dev/null", O_WRONLY);
  dup2(fd, 1);
  close(fd);
}
static void rm_scratch_of(pid_t pid) {
  char p[700];
  snprintf(p, sizeof(p), "rm -rf '%s/w%ld'", getenv("PBT_SCRATCH"), (long)pid);
  if (getenv("PBT_SCRATCH")) { if (system(p)) {} }
}
/* 0: passed, 1: failed, 2: hang. runs the tape in a fresh process */
static int run_tape(const u64* tape, size_t len, double limit) {
  worker_shm* w = &S->w[MAX_WORKERS];
  w->failed = 0;
  w->message[0] = 0;
  w->case_start = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (!pid) {
    W = w;
    redirect("replay.err");
    tape_mode = 1;
    replay_tape = tape;
    replay_len = len;
    replay_pos = 0;
    if (META.setup) META.setup();
    run_one(0);
    _exit(0);
  }
  double t = now();
  int st;
  for (;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    if (now() - t > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      rm_scratch_of(pid);
      snprintf(w->message, sizeof(w->message), "no result within %.0f s (hang or deadlock)", limit);
      return 2;
    }
    usleep(now() - t < 0.05 ? 500 : 3000);
  }
  rm_scratch_of(pid);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (!w->failed) {
    if (WIFEXITED(st)) snprintf(w->message, sizeof(w->message), "process ended with code %d%s", WEXITSTATUS(st), WEXITSTATUS(st) == EXIT_ASAN ? " (sanitizer report)" : "");
    else snprintf(w->message, sizeof(w->message), "process killed by signal %d", WTERMSIG(st));
  }
  return 1;
}

static u64 best[TAPE_CAP];
static size_t best_len;
static u64 cand[TAPE_CAP];
static double shrink_deadline, shrink_limit;
static int attempts;
static int try_cand(size_t len) {
  if (now() > shrink_deadline) return 0;
  attempts++;
  if (!run_tape(cand, len, shrink_limit)) return 0;
  /* keep what was really consumed */
  worker_shm* w = &S->w[MAX_WORKERS];
  size_t n = w->tape_len;
  if (n > 0 && n <= len) {
    memcpy(best, w->tape, n * sizeof(u64));
    best_len = n;
  } else {
    memcpy(best, cand, len * sizeof(u64));
    best_len = len;
  }
  return 1;
}
static void shrink(void) {
  int improved = 1;
  while (improved && now() < shrink_deadline) {
    improved = 0;
    /* delete spans */
    for (size_t k = best_len / 2 ? best_len / 2 : 1; k >= 1; k = k > 8 ? k / 2 : k - 1) {
      for (size_t i = 0; i + k <= best_len && now() < shrink_deadline;) {
        size_t old = best_len;
        memcpy(cand, best, i * sizeof(u64));
        memcpy(cand + i, best + i + k, (best_len - i - k) * sizeof(u64));
        if (try_cand(best_len - k) && best_len < old) improved = 1;
        else i += k;
      }
    }
    /* zero spans */
    for (size_t k = 8; k >= 1; k /= 2) {
      for (size_t i = 0; i + k <= best_len && now() < shrink_deadline; i += k) {
        int nz = 0;
        for (size_t j = 0; j < k; j++) nz |= best[i + j] != 0;
        if (!nz) continue;
        memcpy(cand, best, best_len * sizeof(u64));
        memset(cand + i, 0, k * sizeof(u64));
        if (try_cand(best_len)) improved = 1;
      }
    }
    /* lower single values */
    for (size_t i = 0; i < best_len && now() < shrink_deadline; i++) {
      u64 lo = 0;
      while (i < best_len && best[i] > lo && now() < shrink_deadline) {
        u64 mid = lo + (best[i] - lo) / 2;
        u64 before = best[i];
        memcpy(cand, best, best_len * sizeof(u64));
        cand[i] = mid;
        if (try_cand(best_len)) {
          improved = 1;
          if (i >= best_len || best[i] >= before) break;
        } else lo = mid + 1;
      }
    }
  }
}
static int load_tape(const char* path) {
  FILE* f = fopen(path, "r");
  char line[64];
  if (!f) return 1;
  best_len = 0;
  int in = 0;
  static char buf[8192];
  while (fgets(buf, sizeof(buf), f)) {
    if (!strncmp(buf, "tape:", 5)) { in = 1; continue; }
    if (in && sscanf(buf, "%63s", line) == 1 && best_len < TAPE_CAP) best[best_len++] = strtoull(line, 0, 10);
  }
  fclose(f);
  return 0;
}
static void save_tape(const char* path, const char* kind, const char* msg, const char* note) {
  FILE* f = fopen(path, "w");
  if (!f) return;
  fprintf(f, "property: %s\nkind: %s\nmessage: %s\ncase: %s\n", META.id, kind, msg, note);
  char p[600];
  snprintf(p, sizeof(p), "%s/replay.err", getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp");
  FILE* e = fopen(p, "r");
  if (e) {
    char line[500];
    int n = 0;
    while (n < 40 && fgets(line, sizeof(line), e)) {
      fprintf(f, "stderr: %s%s", line, strchr(line, '\n') ? "" : "\n");
      n++;
    }
    fclose(e);
  }
  fprintf(f, "tape:\n");
  for (size_t i = 0; i < best_len; i++) fprintf(f, "%llu\n", (unsigned long long)best[i]);
  fclose(f);
}
static void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c == '\n') fprintf(f, "\\n");
    else if (c < 32 || c > 126) fprintf(f, "?");
    else fputc(c, f);
  }
  fputc('"', f);
}
static void write_stats(const char* path, double wall, const char* violation, const char* vmsg, const char* vnote) {
  FILE* f = fopen(path, "w");
  u64 cases = 0, nontrivial = 0, discarded = 0;
  for (int i = 0; i <= MAX_WORKERS; i++) {
    if (i == MAX_WORKERS) continue;
    cases += S->w[i].cases;
    nontrivial += S->w[i].nontrivial;
    discarded += S->w[i].discarded;
  }
  fprintf(f, "{\"id\":\"%s\",\"cases\":%llu,\"nontrivial\":%llu,\"discarded\":%llu,\"distinct_nontrivial\":%llu,\"wall\":%.2f,\"shrink_attempts\":%d,\n\"rule\":", META.id, (unsigned long long)cases, (unsigned long long)nontrivial, (unsigned long long)discarded, (unsigned long long)S->distinct, wall, attempts);
  json_str(f, META.rule);
  fprintf(f, ",\n\"labels\":{");
  for (int i = 0; i < S->label_count; i++) {
    if (i) fprintf(f, ",");
    json_str(f, S->labels[i].name);
    fprintf(f, ":%llu", (unsigned long long)S->labels[i].count);
  }
  fprintf(f, "},\n\"known\":{");
  for (int i = 0; i < S->known_count; i++) {
    if (i) fprintf(f, ",");
    json_str(f, S->known[i].name);
    fprintf(f, ":{\"count\":%llu,\"message\":", (unsigned long long)S->known[i].count);
    json_str(f, S->known_msg[i]);
    fprintf(f, "}");
  }
  fprintf(f, "},\n\"samples\":[");
  for (int i = 0; i < S->sample_count; i++) {
    if (i) fprintf(f, ",\n");
    json_str(f, S->samples[i]);
  }
  fprintf(f, "],\n\"violation\":");
  if (violation) {
    fprintf(f, "{\"kind\":");
    json_str(f, violation);
    fprintf(f, ",\"message\":");
    json_str(f, vmsg);
    fprintf(f, ",\"case\":");
    json_str(f, vnote);
    fprintf(f, "}");
  } else fprintf(f, "null");
  fprintf(f, "}\n");
  fclose(f);
}

int main(int argc, char** argv) {
  u64 cases = 0, seed = 1;
  double cap = 60;
  int workers = 8;
  const char *stats = 0, *replay = 0, *replay_out = 0, *bytes_file = 0;
  const char* tier = "quick";
  u64 range_from = 0, range_to = 0;
  int range = 0;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--cases")) cases = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
    else if (!strcmp(argv[i], "--cap")) cap = atof(argv[++i]);
    else if (!strcmp(argv[i], "--workers")) workers = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--stats")) stats = argv[++i];
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--replay-out")) replay_out = argv[++i];
    else if (!strcmp(argv[i], "--bytes")) bytes_file = argv[++i];
    else if (!strcmp(argv[i], "--known")) known_list = argv[++i];
    else if (!strcmp(argv[i], "--tier")) tier = argv[++i];
    else if (!strcmp(argv[i], "--range")) {
      range = 1;
      range_from = strtoull(argv[++i], 0, 10);
      range_to = strtoull(argv[++i], 0, 10);
    }
  }
  if (META.workers) workers = META.workers;
  if (workers > MAX_WORKERS) workers = MAX_WORKERS;
  if (!cases) cases = strcmp(tier, "thorough") ? META.quick : META.thorough;
  double hang = META.hang_seconds > 0 ? META.hang_seconds : 40;
  S = mmap(0, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 3; }
  double t0 = now();
  if (replay) {
    if (load_tape(replay)) { fprintf(stderr, "cannot read %s\n", replay); return 3; }
    int tries = META.nondeterministic ? 20 : 1, r = 0;
    for (int i = 0; i < tries && !r; i++) r = run_tape(best, best_len, hang);
    worker_shm* w = &S->w[MAX_WORKERS];
    printf("replay %s: %s\n%s\ncase: %s\n", replay, r ? "FAILS" : "passes", r ? w->message : "", w->note);
    return r ? 1 : 0;
  }
  int found = 0; /* 1 failure, 2 hang */
  u64 found_index = 0;
  char message[2000] = "", note[NOTE_CAP] = "";
  if (bytes_file) {
    /* convert a libFuzzer input to a tape: run it once in a child */
    static u8 data[1 << 20];
    FILE* f = fopen(bytes_file, "r");
    if (!f) return 3;
    size_t n = fread(data, 1, sizeof(data), f);
    fclose(f);
    worker_shm* w = &S->w[0];
    pid_t pid = fork();
    if (!pid) {
      W = w;
      redirect("worker0.err");
      tape_mode = 2;
      bytes_data = data;
      bytes_len = n;
      if (META.setup) META.setup();
      run_one(0);
      _exit(0);
    }
    double t = now();
    int st;
    while (waitpid(pid, &st, WNOHANG) != pid) {
      if (now() - t > hang) { kill(pid, SIGKILL); waitpid(pid, &st, 0); found = 2; break; }
      usleep(2000);
    }
    rm_scratch_of(pid);
    if (!found && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) found = 1;
    if (found) {
      memcpy(best, w->tape, w->tape_len * sizeof(u64));
      best_len = w->tape_len;
      snprintf(message, sizeof(message), "%s", w->message);
      snprintf(note, sizeof(note), "%s", w->note);
    }
  } else {
    pid_t pids[MAX_WORKERS];
    int alive[MAX_WORKERS];
    if (range) workers = 1;
    fflush(stdout);
    for (int i = 0; i < workers; i++) {
      pids[i] = fork();
      alive[i] = 1;
      if (!pids[i]) {
        char name[40];
        snprintf(name, sizeof(name), "worker%d.err", i);
        W = &S->w[i];
        redirect(name);
        double t = now();
        if (META.setup) META.setup();
        for (u64 c = range ? range_from : (u64)i; c < (range ? range_to : cases); c += range ? 1 : (u64)workers) {
          tape_mode = 0;
          rng_seed(seed, c);
          run_one(c);
          if ((W->cases & 15) == 0 && now() - t > cap) break;
        }
        _exit(0);
      }
    }
    int left = workers;
    while (left && !found) {
      int progress = 0;
      for (int i = 0; i < workers; i++) {
        if (!alive[i]) continue;
        int st;
        pid_t r = waitpid(pids[i], &st, WNOHANG);
        if (r == pids[i]) {
          alive[i] = 0;
          left--;
          progress = 1;
          rm_scratch_of(pids[i]);
          if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
            fprintf(stderr, "a worker was ended from outside (SIGKILL): its remaining cases are skipped\n");
          } else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            found = 1;
            worker_shm* w = &S->w[i];
            found_index = w->case_index;
            if (!w->failed) snprintf(w->message, sizeof(w->message), WIFEXITED(st) ? "process ended with code %d (78: sanitizer report)" : "process killed by signal %d", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
            memcpy(best, w->tape, w->tape_len * sizeof(u64));
            best_len = w->tape_len;
            snprintf(message, sizeof(message), "%s", w->message);
            snprintf(note, sizeof(note), "%s", w->note);
            break;
          }
          continue;
        }
        double cs = S->w[i].case_start;
        if (cs > 0 && now() - cs > hang) {
          worker_shm* w = &S->w[i];
          found = 2;
          found_index = w->case_index;
          memcpy(best, w->tape, w->tape_len * sizeof(u64));
          best_len = w->tape_len;
          snprintf(message, sizeof(message), "no result within %.0f s (hang or deadlock)", hang);
          snprintf(note, sizeof(note), "%s", w->note);
          break;
        }
      }
      if (!progress) usleep(5000);
    }
    for (int i = 0; i < workers; i++) {
      if (alive[i]) {
        kill(pids[i], SIGKILL);
        waitpid(pids[i], 0, 0);
        rm_scratch_of(pids[i]);
      }
    }
  }
  double search_wall = now() - t0;
  const char* kind = 0;
  if (found) {
    worker_shm* w = &S->w[MAX_WORKERS];
    /* confirm in fresh processes */
    int tries = found == 2 ? 2 : META.nondeterministic ? 40 : 10, hits = 0;
    for (int i = 0; i < tries; i++) {
      int r = run_tape(best, best_len, hang);
      if (r) hits++;
      else if (found == 2) break;
      if (hits >= (found == 2 ? 2 : META.nondeterministic ? 1 : 2)) break;
    }
    if (found == 2 && hits < 2) {
      fprintf(stderr, "a case took longer than %.0f s once but not again: ignored (loaded machine)\n", hang);
      found = 0;
    } else if (hits) {
      kind = found == 2 ? "hang" : "failure";
      snprintf(message, sizeof(message), "%s", w->message);
      snprintf(note, sizeof(note), "%s", w->note);
      shrink_limit = found == 2 ? (hang < 8 ? hang : 8) : hang;
      shrink_deadline = now() + (META.nondeterministic || found == 2 ? 30 : 60);
      if (hits >= 2 || META.nondeterministic) shrink();
      for (int i = 0; i < (META.nondeterministic ? 20 : 1); i++)
        if (run_tape(best, best_len, hang)) {
          snprintf(message, sizeof(message), "%s", w->message);
          snprintf(note, sizeof(note), "%s", w->note);
          break;
        }
    } else {
      /* does not fail alone: the failure was observed all the same; the replay is the drawn case */
      kind = "failure-observed-once";
    }
    if (found && replay_out) save_tape(replay_out, kind, message, note);
    if (found && replay_out && !hits) {
      FILE* f = fopen(replay_out, "a");
      if (f) { fprintf(f, "# seed %llu case %llu workers %d\n", (unsigned long long)seed, (unsigned long long)found_index, workers); fclose(f); }
    }
  }
  if (stats) write_stats(stats, search_wall, kind, message, note);
  return found ? 1 : 0;
}
#else
int LLVMFuzzerTestOneInput(const u8* data, size_t size) {
  static int init = 0;
  if (!init) {
    init = 1;
    S = mmap(0, sizeof(shm_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    W = &S->w[0];
    known_list = getenv("PBT_KNOWN") ? getenv("PBT_KNOWN") : "";
    if (META.setup) META.setup();
  }
  tape_mode = 2;
  bytes_data = data;
  bytes_len = size;
  bytes_pos = 0;
  run_one(0);
  return 0;
}
#endif
