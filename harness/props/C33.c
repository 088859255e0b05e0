/* status descriptions, string helpers, path helpers.
   The helpers are header code: they are compiled here with an allocator that can fail and with a mkdir that refuses
   everything outside of the scratch directory, so that a wrong path creates nothing elsewhere. */
#include "../sp.h"
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <fcntl.h>
#include <libgen.h>
#include <errno.h>

static long h_fail; /* the nth allocation of a helper fails */
static int h_failed;
static void* h_malloc(size_t n) {
  if (h_fail && !--h_fail) {
    h_failed = 1;
    return 0;
  }
  return t_malloc(n);
}
static char base[512];
static char escaped[1024];
static int h_mkdir(const char* path, mode_t mode) {
  if (path[0] == '/' && strncmp(path, base, strlen(base))) {
    snprintf(escaped, sizeof escaped, "%s", path);
    errno = EACCES;
    return -1;
  }
  int depth = 0; /* relative paths do not leave the current directory, which is the scratch directory */
  const char* p = path[0] == '/' ? path + strlen(base) : path;
  while (*p) {
    size_t n = strcspn(p, "/");
    depth += n == 2 && !strncmp(p, "..", 2) ? -1 : n == 0 || (n == 1 && *p == '.') ? 0 : 1;
    if (depth < 0) {
      snprintf(escaped, sizeof escaped, "%s", path);
      errno = EACCES;
      return -1;
    }
    p += n;
    if (*p) p++;
  }
  return mkdir(path, mode);
}
#define malloc h_malloc
#define free t_free
#define mkdir h_mkdir
#include <sph-sp/string.h>
#include <sph-sp/filesystem.h>
#undef malloc
#undef free
#undef mkdir

/* ---- status ---- */
static void expect_word(const char* what, status_t s, const uint8_t* got, const char* word) {
  CHECK(got, "%s of status %d of group '%s' is null", what, s.id, (char*)s.group);
  CHECK(strstr((const char*)got, word), "%s of status %d of group '%s' is '%s'", what, s.id, (char*)s.group, (const char*)got);
}
static void status(void) {
  static const struct { int id; const char *description, *name; } known[] = {
    { sp_s_id_eof, "end of file", "end" }, { sp_s_id_input_type, "type", "type" }, { sp_s_id_not_implemented, "implemented", "implemented" }, { sp_s_id_memory, "memory", "memory" },
    { sp_s_id_file_write, "write", "write" }, { sp_s_id_file_read, "read", "read" }, { sp_s_id_file_not_implemented, "support", "implemented" },
    { sp_s_id_file_eof, "end of file", "end" }, { sp_s_id_invalid_argument, "argument", "argument" } };
  size_t n = sizeof known / sizeof *known;
  static const char* groups[] = { sp_s_group_sp, sp_s_group_sph, sp_s_group_libc, "", "s", "spx", "sphx", "other" };
  int g = d_bool() ? 0 : (int)d_below(8), id = d_chance(70) ? (int)d_range(0, 12) : (int)d_range(-2000, 2000);
  /* equal content is enough, groups are not compared by address */
  uint8_t* group = memcpy(new_array(uint8_t, strlen(groups[g]) + 1), groups[g], strlen(groups[g]) + 1);
  status_t s = { .id = id, .group = group };
  pbt_note("status %d of group '%s'", id, groups[g]);
  uint8_t *d = sp_status_description(s), *name = sp_status_name(s);
  CHECK(d && name, "no description or name for status %d of group '%s'", id, groups[g]);
  if (g == 0) {
    size_t k = n;
    for (size_t i = 0; i < n; i++) if (known[i].id == id) k = i;
    if (k < n) {
      expect_word("the description", s, d, known[k].description);
      expect_word("the name", s, name, known[k].name);
      CHECK(!strchr((char*)name, ' '), "the name '%s' is not one word", (char*)name);
    } else CHECK(!*d && !strcmp((char*)name, "unknown"), "status %d of group '%s' is not known but has description '%s' and name '%s'", id, groups[g], (char*)d, (char*)name);
  } else if (g == 1 && id == sph_helper_status_id_memory) {
    expect_word("the description", s, d, "memory");
    expect_word("the helper description", s, sph_helper_status_description(s), "memory");
    expect_word("the helper name", s, sph_helper_status_name(s), "memory");
    expect_word("the name", s, name, "memory");
  } else CHECK(!*d && !strcmp((char*)name, "unknown"), "status %d of group '%s' is not known but has description '%s' and name '%s'", id, groups[g], (char*)d, (char*)name);
  pbt_nontrivial();
}
/* failures of the library itself have a description */
static void real_failure(void) {
  int kind = (int)d_below(4);
  char path[600];
  status_t s;
  sp_file_t file = { 0 };
  const char* word;
  pbt_note("failure %d", kind);
  mem_reset();
  if (kind == 0) {
    sp_block_t b = { 0 };
    mem_fail_at = 1;
    s = sp_block_new(1, 10, &b);
    word = "memory";
  } else if (kind == 1) {
    snprintf(path, sizeof path, "%s/not-a-wav", pbt_scratch());
    int f = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    int n = (int)d_below(60);
    for (int i = 0; i < n; i++) if (write(f, "x", 1) != 1) break;
    close(f);
    s = sp_file_open_read((uint8_t*)path, &file);
    word = "";
  } else if (kind == 2) {
    sp_time_t* t;
    mem_fail_at = 1;
    s = sp_times_new(10, &t);
    word = "memory";
  } else {
    sp_sample_t* a;
    mem_fail_at = 1;
    s = sp_samples_new(10, &a);
    word = "memory";
  }
  mem_fail_at = 0;
  CHECK(s.id, "no failure is reported");
  expect_word("the description", s, sp_status_description(s), word);
  CHECK(*sp_status_description(s), "the description of status %d of group '%s' is empty", s.id, (char*)s.group);
  CHECK(strcmp((char*)sp_status_name(s), "unknown"), "the name of status %d of group '%s' is unknown", s.id, (char*)s.group);
  pbt_nontrivial();
}

/* the macros for error handling: stop at the first failure, keep its status, run nothing after it */
static int flow_ran;
static status_t flow_step(int id, uint8_t* group) {
  flow_ran++;
  return (status_t){ .id = id, .group = group };
}
static int flow_step_i(int id) {
  flow_ran++;
  return id;
}
static int flow_exited;
static status_t flow_steps(const int* kinds, const int* ids, uint8_t** groups, int n) {
  status_declare;
  for (int i = 0; i < n; i++) {
    switch (kinds[i]) {
    case 0: status_require(flow_step(ids[i], groups[i])); break;
    case 1: srq(flow_step(ids[i], groups[i])); break;
    case 2: status_i_require(flow_step_i(ids[i])); break;
    case 3: status_require_return(flow_step(ids[i], groups[i])); break;
    case 4: flow_ran++; if (ids[i]) { status_set_goto(groups[i], ids[i]); } break;
    case 5: flow_ran++; if (ids[i]) { sp_status_set_goto(ids[i]); } break;
    default: flow_ran++; if (ids[i]) { status_set(groups[i], ids[i]); if (status_is_failure) { status_goto; } } break;
    }
  }
exit:
  flow_exited = 1;
  status_return;
}
static int flow_steps_i(const int* ids, int n) {
  status_declare;
  for (int i = 0; i < n; i++) { status_i_require(flow_step_i(ids[i])); }
exit:
  status_i_return;
}
static void flow(void) {
  static char* names[] = { "a", "sp", "sph", "" };
  int n = (int)d_below(8), kinds[8], ids[8], first = -1;
  uint8_t* groups[8];
  pbt_note("steps:");
  for (int i = 0; i < n; i++) {
    kinds[i] = (int)d_below(7);
    ids[i] = d_chance(75) ? 0 : (int)d_range(-300, 70000);
    groups[i] = (uint8_t*)names[d_below(4)];
    if (ids[i] && first < 0) first = i;
    pbt_note(" %d:%d", kinds[i], ids[i]);
  }
  flow_ran = flow_exited = 0;
  status_t s = flow_steps(kinds, ids, groups, n);
  int want = first < 0 ? n : first + 1;
  CHECK(flow_ran == want, "%d steps ran instead of %d", flow_ran, want);
  CHECK(s.id == (first < 0 ? 0 : ids[first]), "the status is %d", s.id);
  CHECK(!flow_exited == (first >= 0 && kinds[first] == 3), "the code after the exit label ran, or did not run");
  if (first >= 0 && kinds[first] != 2) {
    const char* g = kinds[first] == 5 ? sp_s_group_sp : (char*)groups[first];
    CHECK(s.group && !strcmp((char*)s.group, g), "the group is '%s' instead of '%s'", s.group ? (char*)s.group : "(null)", g);
  }
  flow_ran = 0;
  int r = flow_steps_i(ids, n);
  CHECK(r == (first < 0 ? 0 : ids[first]) && flow_ran == want, "status_i_require gives %d after %d steps", r, flow_ran);
  if (first >= 0 && first + 1 < n) pbt_nontrivial();
}
/* the allocation helpers: contents survive, failure leaves the old allocation in place */
static void memory_helpers(void) {
  sp_time_t n = 1 + (sp_time_t)d_below(60), m = 1 + (sp_time_t)d_below(60), *a = 0, *b = 0;
  uint8_t* string = 0;
  pbt_note("allocate %u, then %u", n, m);
  mem_reset();
  CHECK_OK(sp_calloc_type(n, sp_time_t, &a), "sp_calloc_type");
  for (sp_time_t i = 0; i < n; i++) CHECK(!a[i], "element %u of %u is not zero", i, n);
  for (sp_time_t i = 0; i < n; i++) a[i] = i * 77777u + 5;
  CHECK_OK(sp_malloc_type(m, sp_time_t, &b), "sp_malloc_type");
  memset(b, 1, m * sizeof *b);
  CHECK_OK(sph_helper_malloc_string(m, &string), "sph_helper_malloc_string");
  memset(string, 'x', m);
  CHECK(string[m] == 0, "the new string is not terminated");
  CHECK(mem_live == 3, "%ld allocations instead of three", mem_live);
  sp_time_t* old = a;
  int fail = d_chance(30);
  mem_fail_at = fail ? 1 : 0;
  mem_count = 0;
  status_t s = sp_realloc_type(m, sp_time_t, &a);
  mem_fail_at = 0;
  CHECK(!s.id == !fail, "sp_realloc_type returns status %d", s.id);
  if (fail) CHECK(a == old && s.id == sph_helper_status_id_memory && !strcmp((char*)s.group, (char*)sph_helper_status_group), "a failed reallocation changes the pointer or has status %d of group %s", s.id, (char*)s.group);
  sp_time_t kept = fail || n < m ? n : m;
  for (sp_time_t i = 0; i < kept; i++) CHECK(a[i] == i * 77777u + 5, "element %u is lost", i);
  if (!fail) memset(a, 2, m * sizeof *a);
  CHECK(mem_live == 3, "%ld allocations instead of three", mem_live);
  t_free(a);
  t_free(b);
  t_free(string);
  if (n > 1 && m != n) pbt_nontrivial();
}

/* ---- strings ---- */
static uint8_t* d_string(size_t most) {
  static const char alphabet[] = "ab/. \n\xc3\xa4";
  size_t n = d_below(most + 1), filled = 0;
  /* lengths around what fits one or two bytes */
  if (d_rare(16)) filled = d_rare(4) ? 65536 - d_below(20) : d_bool() ? 256 - d_below(20) : d_below(900);
  n += filled;
  uint8_t* a = new_array(uint8_t, n + 1);
  for (size_t i = 0; i < filled; i++) a[i] = i % 7 == 6 ? '/' : 'a' + i % 23;
  for (size_t i = filled; i < n; i++) a[i] = (uint8_t)(d_chance(80) ? alphabet[d_below(sizeof alphabet - 1)] : 1 + d_below(255));
  a[n] = 0;
  return a;
}
static void h_start(void) {
  mem_reset();
  h_failed = 0;
  h_fail = d_chance(15) ? 1 + (long)d_below(3) : 0;
}
static void strings(void) {
  int op = (int)d_below(4);
  uint8_t *a = d_string(12), *b = d_string(6), *r = 0;
  size_t an = strlen((char*)a), bn = strlen((char*)b);
  uint8_t *ka = memcpy(new_array(uint8_t, an + 1), a, an + 1), *kb = memcpy(new_array(uint8_t, bn + 1), b, bn + 1);
  h_start();
  if (op == 0) {
    pbt_note("ensure_trailing_slash '%.80s'", (char*)a);
    uint8_t s = ensure_trailing_slash(a, &r);
    if (h_failed) {
      CHECK(s == 1, "ensure_trailing_slash returned %d after a failed allocation", s);
    } else if (!an || a[an - 1] == '/') {
      CHECK(s == 0 && r == a, "ensure_trailing_slash did not return the given string");
    } else {
      CHECK(s == 2 && r != a, "ensure_trailing_slash returned %d", s);
      CHECK(!memcmp(r, ka, an) && r[an] == '/' && !r[an + 1], "ensure_trailing_slash of '%.80s' is '%.80s'", (char*)a, (char*)r);
      t_free(r);
      pbt_nontrivial();
    }
  } else if (op == 1) {
    pbt_note("string_append '%.80s' '%.80s'", (char*)a, (char*)b);
    r = string_append(a, b);
    CHECK(!r == h_failed, "string_append returned a string after a failed allocation, or none");
    if (r) {
      CHECK(r != a && r != b && strlen((char*)r) == an + bn && !memcmp(r, ka, an) && !memcmp(r + an, kb, bn), "string_append of '%.80s' and '%.80s' is '%.80s'", (char*)a, (char*)b, (char*)r);
      t_free(r);
      if (an && bn) pbt_nontrivial();
    }
  } else if (op == 2) {
    pbt_note("string_clone '%.80s'", (char*)a);
    r = string_clone(a);
    CHECK(!r == h_failed, "string_clone returned a string after a failed allocation, or none");
    if (r) {
      CHECK(r != a && !strcmp((char*)r, (char*)ka), "string_clone of '%.80s' is '%.80s'", (char*)a, (char*)r);
      t_free(r);
      if (an) pbt_nontrivial();
    }
  } else {
    size_t n = d_rare(30) ? 250 + d_below(20) : d_below(7), want_n = 0, rn = 12345;
    uint8_t** list = new_array(uint8_t*, n);
    size_t want_max = 1;
    char* want;
    pbt_note("string_join with '%.60s':", (char*)b);
    for (size_t i = 0; i < n; i++) {
      list[i] = n > 7 ? (uint8_t*)(i % 3 ? "a" : "bc") : d_chance(20) ? a : d_string(8);
      if (n < 8) pbt_note(" '%.60s'", (char*)list[i]);
      want_max += bn + strlen((char*)list[i]);
    }
    if (n > 7) pbt_note(" %zu strings", n);
    want = new_array(char, want_max);
    for (size_t i = 0; i < n; i++) {
      if (i) memcpy(want + want_n, b, bn), want_n += bn;
      size_t ln = strlen((char*)list[i]);
      memcpy(want + want_n, list[i], ln), want_n += ln;
    }
    want[want_n] = 0;
    r = string_join(list, n, b, &rn);
    CHECK(!r == (h_failed || !n), "string_join of %zu strings returned %s", n, r ? "a string" : "nothing");
    if (r) {
      CHECK(!strcmp((char*)r, want) && rn == want_n, "string_join is '%.200s' with length %zu instead of '%.200s' (%zu)", (char*)r, rn, want, want_n);
      t_free(r);
      if (n > 2 && bn) pbt_nontrivial();
    }
  }
  CHECK(!memcmp(a, ka, an + 1) && !memcmp(b, kb, bn + 1), "an argument was modified");
  CHECK(mem_live == 0, "%ld allocations are left", mem_live);
}

/* ---- paths ---- */
static void parent(void) {
  uint8_t *a = d_string(14), *r;
  size_t an = strlen((char*)a);
  uint8_t *ka = memcpy(new_array(uint8_t, an + 1), a, an + 1), *copy = memcpy(new_array(uint8_t, an + 1), a, an + 1);
  h_start();
  pbt_note("dirname_2 '%.80s'", (char*)a);
  char* want = dirname((char*)copy);
  r = dirname_2(a);
  CHECK(!memcmp(a, ka, an + 1), "dirname_2 modified its argument");
  if (h_failed) {
    CHECK(!r && mem_live == 0, "dirname_2 returned a string or left %ld allocations after a failed allocation", mem_live);
    return;
  }
  CHECK(r && !strcmp((char*)r, want), "dirname_2 of '%.80s' is '%.80s' instead of '%.80s'", (char*)a, r ? (char*)r : "(null)", want);
  CHECK(mem_live == 1, "dirname_2 left %ld allocations instead of the new string", mem_live);
  t_free(r);
  CHECK(mem_live == 0, "the result of dirname_2 is not a new string");
  if (strchr((char*)a, '/')) pbt_nontrivial();
}
static void remove_tree(void) { /* the scratch directory has only what the case created */
  char c[700];
  snprintf(c, sizeof c, "%s/d", base);
  static char stack[64][700];
  int n = 0;
  snprintf(stack[n++], 700, "%s", c);
  /* names are a, b, cc, file: depth first, at most six levels */
  static const char* names[] = { "a", "b", "cc", "file" };
  int visited[64] = { 0 };
  while (n) {
    int k = visited[n - 1]++;
    if (k < 4) {
      char p[700];
      if (snprintf(p, sizeof p, "%s/%s", stack[n - 1], names[k]) >= (int)sizeof p) continue;
      struct stat st;
      if (lstat(p, &st)) continue;
      if (S_ISDIR(st.st_mode)) {
        visited[n] = 0;
        snprintf(stack[n++], 700, "%s", p);
      } else unlink(p);
    } else {
      rmdir(stack[n - 1]);
      n--;
    }
  }
}
static int exists(const char* p) { return access(p, F_OK) == 0; }
static void directories(void) {
  static const char* names[] = { "a", "b", "cc", "a", "b", "cc", ".", "file" };
  char d[600], path[1200], rel[600] = "";
  snprintf(base, sizeof base, "%s", pbt_scratch());
  escaped[0] = 0;
  remove_tree();
  snprintf(d, sizeof d, "%s/d", base);
  CHECK(!mkdir(d, 0700), "SETUP: mkdir failed");
  int cwd = open(".", O_RDONLY | O_DIRECTORY);
  if (cwd < 0 || chdir(d)) pbt_fail("SETUP: chdir failed");
  int calls = 1 + (int)d_below(3), levels_missing = 0;
  if (d_chance(30)) { /* a file is in the way, or not */
    int f = open("file", O_CREAT | O_WRONLY, 0600);
    if (f >= 0) close(f);
    pbt_note("file exists;");
  }
  const char* failure = 0;
  char message[2000];
  for (int call = 0; call < calls && !failure; call++) {
    rel[0] = 0;
    int depth = 1 + (int)d_below(5), level = 0, plain = 1;
    for (int i = 0; i < depth; i++) {
      if (i) strcat(rel, d_chance(10) ? "//" : "/");
      if (level > 0 && d_chance(8)) {
        strcat(rel, "..");
        level--;
        plain = 0;
      } else {
        const char* name = names[d_below(8)];
        strcat(rel, name);
        level += name[0] != '.';
        plain &= name[0] != '.';
      }
    }
    if (d_chance(20)) strcat(rel, d_chance(20) ? "//" : "/");
    int absolute = d_bool();
    if (absolute) snprintf(path, sizeof path, "%s/%s", d, rel);
    else snprintf(path, sizeof path, "%s", rel);
    int before = exists(path);
    /* number of missing levels */
    if (!before) {
      char prefix[1200];
      snprintf(prefix, sizeof prefix, "%s", path);
      for (size_t i = 1; prefix[i]; i++)
        if (prefix[i] == '/' ) {
          prefix[i] = 0;
          if (!exists(prefix)) levels_missing++;
          prefix[i] = '/';
        }
    }
    mode_t mode = d_bool() ? 0700 : 0755;
    pbt_note("ensure %s%s;", absolute ? "(absolute) " : "", rel);
    mem_reset();
    h_failed = 0;
    h_fail = d_chance(10) ? 1 + (long)d_below(6) : 0;
    errno = d_bool() ? 0 : d_bool() ? EEXIST : ENOENT; /* left over from earlier calls */
    uint8_t* arg = memcpy(new_array(uint8_t, strlen(path) + 1), path, strlen(path) + 1);
    uint8_t r = ensure_directory_structure(arg, mode);
    int after = exists(path);
    if (escaped[0]) failure = "a directory outside of the path would be created";
    else if (strcmp((char*)arg, path)) failure = "the path was modified";
    else if (mem_live) failure = "allocations are left";
    else if (!file_exists(path) != !after) failure = "file_exists does not tell whether the path exists";
    else if (r && !after) failure = "success is reported but the path does not exist";
    else if (!r && after) failure = "failure is reported but the path exists";
    else if (!r && !h_failed) { /* only a file in the way is a reason */
      if (!strstr(rel, "file") || !exists("file")) failure = "a missing path was not created";
    } else if (r && !before) {
      struct stat st;
      mode_t mask = umask(0);
      umask(mask);
      if (plain && (stat(path, &st) || !S_ISDIR(st.st_mode))) failure = "the path is not a directory";
      else if (plain && (st.st_mode & 0777) != (mode & ~mask)) failure = "the directory does not have the requested mode";
    }
    if (failure) snprintf(message, sizeof message, "ensure_directory_structure of %s returned %d: %s%s%s", path, r, failure, escaped[0] ? ": " : "", escaped);
  }
  if (fchdir(cwd)) failure = failure ? failure : "SETUP: fchdir";
  close(cwd);
  remove_tree();
  if (failure) pbt_fail("%s", message);
  if (levels_missing > 1) pbt_nontrivial();
}

static void run(void) {
  int i = (int)d_below(8);
  static const char* names[] = { "status and control flow", "failure of the library, memory", "strings", "strings", "strings", "parent directory", "directories", "directories" };
  pbt_label(names[i]);
  if (i == 0) {
    if (d_bool()) status();
    else flow();
  } else if (i == 1) {
    if (d_bool()) real_failure();
    else memory_helpers();
  }
  else if (i < 5) strings();
  else if (i == 5) parent();
  else directories();
}
static const pbt_meta META = { .id = "C33", .quick = 200000, .thorough = 3000000, .setup = setup_sp, .run = run,
  .rule = "a status lookup, steps after a failing one, reallocation to another size, a new string from non-empty input, a path with a separator, or several missing directory levels" };
