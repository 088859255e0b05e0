/* instruments: events whose prepare function builds other events from memory that is bound to them */
#include "../sp.h"
/* what the macros of the headers release here is released with the free that counts */
static inline sp_memory_free_t counted(sp_memory_free_t h) { return h == (sp_memory_free_t)free ? t_free : h; }
#define free(a) t_free(a)
#define sp_event_memory_add_with_handler(e, a, h) (sp_event_memory_add_with_handler)(e, a, counted(h))
#define sp_event_memory_fixed_add_with_handler(e, a, h) (sp_event_memory_fixed_add_with_handler)(e, a, counted(h))
#undef local_memory_add2
#define local_memory_add2(address, handler) memreg2_add_named(exit, address, counted((sp_memory_free_t)handler))
#define TABLE 64
static sp_sample_t table[TABLE];
enum { OWN, WAVE, NOISE, MAP, GROUP };
typedef struct sound {
  int id, kind, samples_by, times_by, alloc_by, channel, local, second, by_parent, parallel;
  sp_time_t duration, cut;
  sp_sample_t amp, amp2, x[3], xf[3], y[5], c[4];
  sp_time_t t[8];
  struct sound* child[3];
  sp_time_t child_start[3];
  int child_n, append;
  /* expected */
  sp_sample_t* out[2];
} sound_t;
static sound_t sounds[40];
static int sounds_n, prepares;

/* ---- all ways to get a path, with the same arguments for the bound and the plain variant */
#define SAMPLES(F) \
  F(0, path_samples, n, 5, s->xn, s->y, s->c) \
  F(1, path_samples3, n, s->xn[0], s->y[0], s->y[1], s->y[2]) \
  F(2, path_samples4, n, s->xn[0], s->xn[1], s->y[0], s->y[1], s->y[2], s->y[3]) \
  F(3, path_samples5, n, s->xn[0], s->xn[1], s->xn[2], s->y[0], s->y[1], s->y[2], s->y[3], s->y[4]) \
  F(4, path_samples_c3, n, s->xn[0], s->y[0], s->y[1], s->y[2], s->c[0], s->c[1]) \
  F(5, path_samples_c4, n, s->xn[0], s->xn[1], s->y[0], s->y[1], s->y[2], s->y[3], s->c[0], s->c[1], s->c[2]) \
  F(6, path_samples_c5, n, s->xn[0], s->xn[1], s->xn[2], s->y[0], s->y[1], s->y[2], s->y[3], s->y[4], s->c[0], s->c[1], s->c[2], s->c[3]) \
  F(7, envelope_zero, n, 5, s->xf, s->y, s->c) \
  F(8, envelope_zero3, n, s->xf[0], s->y[0]) \
  F(9, envelope_zero4, n, s->xf[0], s->xf[1], s->y[0], s->y[1]) \
  F(10, envelope_zero5, n, s->xf[0], s->xf[1], s->xf[2], s->y[0], s->y[1], s->y[2]) \
  F(11, envelope_zero_c3, n, s->xf[0], s->y[0], s->c[0], s->c[1]) \
  F(12, envelope_zero_c4, n, s->xf[0], s->xf[1], s->y[0], s->y[1], s->c[0], s->c[1], s->c[2]) \
  F(13, envelope_zero_c5, n, s->xf[0], s->xf[1], s->xf[2], s->y[0], s->y[1], s->y[2], s->c[0], s->c[1], s->c[2], s->c[3])
#define TIMES(F) \
  F(0, path_times, n, 5, s->xn, s->y, s->c) \
  F(1, path_times3, n, s->xn[0], s->y[0], s->y[1], s->y[2]) \
  F(2, path_times4, n, s->xn[0], s->xn[1], s->y[0], s->y[1], s->y[2], s->y[3]) \
  F(3, path_times5, n, s->xn[0], s->xn[1], s->xn[2], s->y[0], s->y[1], s->y[2], s->y[3], s->y[4]) \
  F(4, path_times_c3, n, s->xn[0], s->y[0], s->y[1], s->y[2], s->c[0], s->c[1]) \
  F(5, path_times_c4, n, s->xn[0], s->xn[1], s->y[0], s->y[1], s->y[2], s->y[3], s->c[0], s->c[1], s->c[2]) \
  F(6, path_times_c5, n, s->xn[0], s->xn[1], s->xn[2], s->y[0], s->y[1], s->y[2], s->y[3], s->y[4], s->c[0], s->c[1], s->c[2], s->c[3]) \
  F(7, envelope_scaled, n, 5, 3, s->xf, s->y, s->c) \
  F(8, envelope_scaled3, n, 3, s->xf[0], s->y[0], s->y[1], s->y[2]) \
  F(9, envelope_scaled4, n, 3, s->xf[0], s->xf[1], s->y[0], s->y[1], s->y[2], s->y[3]) \
  F(10, envelope_scaled5, n, 3, s->xf[0], s->xf[1], s->xf[2], s->y[0], s->y[1], s->y[2], s->y[3], s->y[4]) \
  F(11, envelope_scaled_c3, n, 3, s->xf[0], s->y[0], s->y[1], s->y[2], s->c[0], s->c[1]) \
  F(12, envelope_scaled_c4, n, 3, s->xf[0], s->xf[1], s->y[0], s->y[1], s->y[2], s->y[3], s->c[0], s->c[1], s->c[2]) \
  F(13, envelope_scaled_c5, n, 3, s->xf[0], s->xf[1], s->xf[2], s->y[0], s->y[1], s->y[2], s->y[3], s->y[4], s->c[0], s->c[1], s->c[2], s->c[3])
typedef struct {
  sp_sample_t xn[3], xf[3], y[5], c[4];
} args_t; /* copies: the functions may change what they are given */
static args_t args_of(sound_t* a, int times) {
  args_t b;
  for (int i = 0; i < 3; i++) {
    b.xn[i] = a->x[i];
    b.xf[i] = a->xf[i];
  }
  for (int i = 0; i < 5; i++) b.y[i] = times ? floor(9 * a->y[i]) : a->y[i];
  memcpy(b.c, a->c, sizeof b.c);
  return b;
}
#define BOUND(k, name, ...) case k: sp_event_##name##_srq(e, out, __VA_ARGS__); break;
#define PLAIN(k, name, ...) case k: status_require(sp_##name(out, __VA_ARGS__)); break;
static status_t bound_samples(sp_event_t* e, sound_t* a, sp_sample_t** out) {
  status_declare;
  args_t b = args_of(a, 0), *s = &b;
  sp_time_t n = a->duration;
  switch (a->samples_by) {
    SAMPLES(BOUND)
    default:
      sp_event_samples_srq(e, n, out);
      for (sp_time_t i = 0; i < n; i++) CHECK((*out)[i] == 0, "sp_event_samples_srq: element %u is %g", i, (*out)[i]);
      for (sp_time_t i = 0; i < n; i++) (*out)[i] = a->y[i % 5];
  }
exit:
  status_return;
}
static status_t plain_samples(sound_t* a, sp_sample_t** out) {
  status_declare;
  args_t b = args_of(a, 0), *s = &b;
  sp_time_t n = a->duration;
  switch (a->samples_by) {
    SAMPLES(PLAIN)
    default:
      status_require(sp_samples_new(n, out));
      for (sp_time_t i = 0; i < n; i++) (*out)[i] = a->y[i % 5];
  }
exit:
  status_return;
}
static status_t bound_times(sp_event_t* e, sound_t* a, sp_time_t** out) {
  status_declare;
  args_t b = args_of(a, 1), *s = &b;
  sp_time_t n = a->duration;
  switch (a->times_by) {
    TIMES(BOUND)
    default:
      sp_event_times_srq(e, n, out);
      for (sp_time_t i = 0; i < n; i++) CHECK((*out)[i] == 0, "sp_event_times_srq: element %u is %u", i, (*out)[i]);
      for (sp_time_t i = 0; i < n; i++) (*out)[i] = a->t[i % 8];
  }
exit:
  status_return;
}
static status_t plain_times(sound_t* a, sp_time_t** out) {
  status_declare;
  args_t b = args_of(a, 1), *s = &b;
  sp_time_t n = a->duration;
  switch (a->times_by) {
    TIMES(PLAIN)
    default:
      status_require(sp_times_new(n, out));
      for (sp_time_t i = 0; i < n; i++) (*out)[i] = a->t[i % 8];
  }
exit:
  status_return;
}

/* ---- the instrument */
typedef struct {
  sp_sample_t* a;
  sp_time_t* f;
  sp_sample_t* u;
  sound_t* s;
} own_t;
/* when it belongs to the memory of the event that contains the event, then the settings of the event are in it */
typedef struct {
  own_t own;
  sound_t* s;
  union {
    sp_wave_event_config_t wave;
    sp_noise_event_config_t noise;
  };
} config_t;
/* uses memory of the containing event */
static int own_freed;
static void own_free(sp_event_t* e) {
  config_t* c = e->config;
  e->free = 0;
  CHECK(c->s >= sounds && c->s < sounds + sounds_n && c->s->id == c->s - sounds + 1 && c->s->by_parent, "the settings of an event are not valid anymore when it is freed");
  __atomic_fetch_add(&own_freed, 1, __ATOMIC_SEQ_CST);
  sp_event_memory_free(e);
}
static sp_sample_t silence[8192];
static status_t own_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  own_t o = sp_event_config_get((*e), own_t);
  for (sp_time_t i = start; i < end; i++) {
    out.samples[0][i - start] += o.s->amp * o.a[i] + o.u[i % 3];
    out.samples[1][i - start] += o.f[i];
  }
  status_return;
}
static status_t map_generate(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* state) {
  status_declare;
  for (int ci = 0; ci < 2; ci++)
    for (sp_time_t i = 0; i < end - start; i++) out.samples[ci][i] += *(sp_sample_t*)state * in.samples[ci][i];
  status_return;
}
static status_t sound_prepare(sp_event_t* e);
sp_define_event(sound_event, sound_prepare, 0);
/* a copy of the defined event. releases what it holds when it fails */
static status_t sound_new(sound_t* s, sp_time_t start, sp_event_t* e, sp_event_t* parent) {
  status_declare;
  config_t* c;
  *e = sound_event;
  e->start = start;
  e->end = start + s->duration;
  if (s->by_parent && parent) {
    sp_event_malloc_type_srq(parent, config_t, (&c));
    if (s->kind == OWN) e->free = own_free;
  } else switch (s->alloc_by) {
    case 0: {
      sp_event_malloc_type_srq(e, config_t, (&c));
      break;
    }
    case 1: {
      sp_event_malloc_type_n_srq(e, 3, config_t, (&c));
      c[2].s = 0;
      break;
    }
    case 2: {
      sp_event_malloc_srq(e, sizeof(config_t), (&c));
      break;
    }
    default: {
      sp_event_alloc_srq(e, sph_helper_calloc, sizeof(config_t), (&c));
    }
  }
  c->s = s;
  e->config = c;
  CHECK(e->prepare == sound_prepare && sp_event_duration((*e)) == s->duration, "the copy of a defined event differs");
exit:
  if (status.id) { sp_event_free((*e)); }
  status_return;
}
static status_t sound_prepare(sp_event_t* e) {
  status_declare;
  local_memory_init(4);
  config_t* config = e->config;
  sound_t* s = config->s;
  int by_parent = s->by_parent;
  sp_time_t n = sp_event_duration((*e));
  sp_sample_t *a, *l, *scale;
  sp_time_t *f, *lt;
  sp_sample_t* u;
  e->prepare = 0;
  prepares++;
  if (s->local) {
    sp_local_samples_srq(n, (&l));
    sp_local_times_srq(n, (&lt));
    for (sp_time_t i = 0; i < n; i++) {
      CHECK(l[i] == 0 && lt[i] == 0, "local arrays are not zero");
      l[i] = lt[i] = 1;
    }
    if (s->local > 1) {
      sp_local_alloc_srq(sp_samples_new, 2 * n, (&l));
      l[2 * n - 1] = 1;
    }
  }
  if (s->kind == OWN || s->kind == WAVE) {
    if (s->second) {
      srq(bound_times(e, s, &f));
      srq(bound_samples(e, s, &a));
    } else {
      srq(bound_samples(e, s, &a));
      srq(bound_times(e, s, &f));
    }
  }
  if (s->kind == OWN) {
    own_t* o;
    sp_event_samples_srq(e, 3, (&u));
    for (int i = 0; i < 3; i++) {
      u[i] = s->t[i] & 1;
    }
    if (by_parent) {
      o = &config->own;
    } else {
      sp_event_malloc_type_srq(e, own_t, (&o));
    }
    o->a = a;
    o->f = f;
    o->u = u;
    o->s = s;
    e->config = o;
    e->generate = own_generate;
  } else if (s->kind == WAVE) {
    sp_wave_event_config_t* w;
    if (by_parent) {
      w = &config->wave;
      *w = sp_wave_event_config_defaults();
    } else {
      srq(sp_wave_event_config_new(&w));
      status = sp_event_memory_add(e, w);
      if (status.id) {
        t_free(w);
        goto exit;
      }
    }
    w->wvf = table;
    w->wvf_size = TABLE;
    w->channel_config->amod = a;
    w->channel_config->fmod = f;
    w->channel_config->frq = s->t[3];
    w->channel_config->amp = s->amp;
    w->channel_config->channel = s->channel;
    w->channel_config[1].channel = !s->channel;
    if (s->second) {
      w->channel_config[1].use = 1;
      w->channel_config[1].amp = s->amp2;
    }
    sp_wave_event(e, w);
  } else if (s->kind == NOISE) {
    sp_noise_event_config_t* w;
    if (by_parent) {
      w = &config->noise;
      *w = sp_noise_event_config_defaults();
    } else {
      sp_event_alloc_srq(e, sp_noise_event_config_new_n, 1, (&w));
    }
    w->channel_config->frq = sp_rate / 8;
    w->channel_config->wdt = sp_rate / 8;
    w->channel_config->amod = silence;
    w->channel_config->amp = s->amp;
    w->channel_config[1].use = s->second;
    w->channel_config[1].trnl = w->channel_config->trnl * (1 + s->channel);
    sp_noise_event(e, w);
  } else if (s->kind == MAP) {
    sp_map_event_config_t* m;
    sp_event_alloc_srq(e, sp_map_event_config_new_n, 1, (&m));
    sp_event_malloc_type_srq(e, sp_sample_t, (&scale));
    *scale = s->amp;
    m->map_generate = map_generate;
    m->config = scale;
    m->isolate = 1;
    srq(sound_new(s->child[0], 0, &m->event, e));
    sp_map_event(e, m);
  } else {
    sp_memory_t own = e->memory;
    if (s->parallel) {
      sp_group_parallel_event(e);
    } else {
      sp_group_event(e);
    }
    CHECK(e->memory.data == own.data, "making an event a group changes the memory registered with it");
    for (int i = 0; i < s->child_n; i++) {
      sp_event_t b;
      srq(sound_new(s->child[i], s->append ? 0 : s->child_start[i], &b, e));
      sp_time_t end = e->end;
      if (s->append) e->end = s->child_start[i];
      status = s->append ? sp_group_append(e, b) : sp_group_add(e, b);
      e->end = end;
      if (status.id) {
        sp_event_free(b);
        goto exit;
      }
    }
  }
  sp_event_prepare_optional_srq((*e));
  CHECK(!e->prepare, "the prepare function stays set after preparing");
exit:
  local_memory_free;
  status_return;
}

/* ---- what is expected, from plain arrays */
static sound_t* sound_draw(int depth, int top) {
  sound_t* s = sounds + sounds_n++;
  memset(s, 0, sizeof *s);
  s->id = sounds_n;
  s->kind = depth ? d_below(4) : d_below(2);
  if (s->kind >= 2) s->kind++;
  if (d_chance(6)) s->kind = NOISE;
  s->by_parent = !top && d_chance(40);
  s->duration = 8 + d_below(30);
  s->samples_by = d_below(15);
  s->times_by = d_below(15);
  s->alloc_by = d_below(4);
  s->channel = d_bool();
  s->local = d_below(3);
  s->second = d_bool();
  s->amp = (double)(1 + d_below(7)) / 4;
  s->amp2 = (double)(1 + d_below(7)) / 8;
  for (int i = 0; i < 3; i++) {
    s->x[i] = (i ? s->x[i - 1] : 0) + 1 + (double)d_below((s->duration - 2) / 3);
    s->xf[i] = 0.02 + 0.3 * d_unit();
  }
  for (int i = 0; i < 5; i++) s->y[i] = d_unit();
  for (int i = 0; i < 4; i++) s->c[i] = d_bool() ? 0 : (double)d_range(-9, 9) / 10;
  for (int i = 0; i < 8; i++) s->t[i] = d_below(9);
  static const char* kinds[] = { "own", "wave", "noise", "map", "group" };
  pbt_note(" %s%s %u samples by %d times by %d", s->by_parent ? "bound " : "", kinds[s->kind], s->duration, s->samples_by, s->times_by);
  if (s->kind == MAP) {
    pbt_note(" (");
    s->child[0] = sound_draw(depth - 1, 0);
    s->duration = s->child[0]->duration;
    s->child_n = 1;
    pbt_note(")");
  } else if (s->kind == GROUP) {
    s->child_n = 1 + d_below(3);
    s->append = d_bool();
    sp_time_t end = 0;
    pbt_note(" (");
    for (int i = 0; i < s->child_n; i++) {
      /* the same definition can be used repeatedly */
      s->child[i] = i && d_chance(40) ? s->child[i - 1] : sound_draw(depth - 1, 0);
      s->child_start[i] = d_below(20);
      if (s->child_start[i] + s->child[i]->duration > end) end = s->child_start[i] + s->child[i]->duration;
      pbt_note(" at %u", s->child_start[i]);
    }
    pbt_note(")");
    s->duration = end;
  }
  return s;
}
static int sound_expect(sound_t* s) {
  sp_time_t n = s->duration;
  s->out[0] = zero_samples(n);
  s->out[1] = zero_samples(n);
  if (s->kind == MAP) {
    sound_expect(s->child[0]);
    for (int ci = 0; ci < 2; ci++)
      for (sp_time_t i = 0; i < n; i++) s->out[ci][i] = s->amp * s->child[0]->out[ci][i];
    return 1;
  }
  if (s->kind == GROUP) {
    for (int k = 0; k < s->child_n; k++) {
      if (!(k && s->child[k] == s->child[k - 1])) sound_expect(s->child[k]);
      for (int ci = 0; ci < 2; ci++)
        for (sp_time_t i = 0; i < s->child[k]->duration; i++) s->out[ci][s->child_start[k] + i] += s->child[k]->out[ci][i];
    }
    return 1;
  }
  sp_sample_t* a = 0;
  sp_time_t* f = 0;
  if (s->kind == NOISE) return 1;
  CHECK_OK(plain_samples(s, &a), "making samples");
  CHECK_OK(plain_times(s, &f), "making times");
  if (s->kind == OWN) {
    for (sp_time_t i = 0; i < n; i++) {
      s->out[0][i] = s->amp * a[i] + (s->t[i % 3] & 1);
      s->out[1][i] = f[i];
    }
  } else {
    u64 phase = 0;
    for (sp_time_t i = 0; i < n; i++) {
      s->out[s->channel][i] = s->amp * a[i] * table[phase];
      /* a second channel without own modulation takes that of the first */
      s->out[!s->channel][i] = (s->second ? s->amp2 : s->amp) * a[i] * table[phase];
      phase = (phase + s->t[3] + f[i]) % TABLE;
    }
  }
  t_free(a);
  t_free(f);
  return 1;
}
static void run(void) {
  sounds_n = prepares = own_freed = 0;
  int n = 1 + d_below(3), fault = d_chance(40), failed = 0, parallel = d_chance(25);
  sound_t* top[4];
  sp_time_t start[4], stop = 0;
  for (int i = 0; i < TABLE; i++) table[i] = (double)((i * 37) % TABLE) / 16 - 2;
  for (int i = 0; i < n; i++) {
    start[i] = d_below(20);
    pbt_note("%s%u:", i ? "; " : "", start[i]);
    top[i] = i && d_chance(20) ? top[i - 1] : sound_draw(d_below(3), 1);
    if (top[i] == (i ? top[i - 1] : 0)) pbt_note(" the same");
    else sound_expect(top[i]);
    if (!parallel && top[i]->kind == GROUP && d_chance(15)) {
      pbt_note(" in parallel");
      top[i]->parallel = 1;
    }
    if (start[i] + top[i]->duration > stop) stop = start[i] + top[i]->duration;
  }
  CHECK(mem_live == 0, "%ld allocations remain after making arrays", mem_live);
  pbt_note(", %s", parallel ? "parallel" : "serial");
  long k = fault ? 1 + (long)d_below(12 * sounds_n + 6) : 0;
  if (fault) pbt_note(", allocation %ld fails", k);
  mem_fail_at = k;
  sp_declare_event_list(list);
  status_t s = { 0 };
  for (int i = 0; i < n && !s.id; i++) {
    sp_event_t e;
    s = sound_new(top[i], start[i], &e, 0);
    if (s.id) break;
    s = sp_event_list_add(&list, e);
    if (s.id) { sp_event_free(e); }
  }
  if (!s.id) {
    sp_seq_events_prepare(&list);
    sp_time_t t = 0;
    while (t < stop) {
      sp_time_t size = d_bool() ? 1 + d_below(stop - t) : 1 + d_below(9);
      if (size > stop - t) size = stop - t;
      sp_block_t out = buf_block(2, size);
      s = parallel ? sp_seq_parallel(t, t + size, out, &list) : sp_seq(t, t + size, out, &list);
      if (s.id) {
        CHECK(!list, "the list is not empty after an error");
        break;
      }
      for (int ci = 0; ci < 2; ci++)
        for (sp_time_t i = 0; i < size; i++) {
          double want = 0;
          for (int j = 0; j < n; j++)
            if (t + i >= start[j] && t + i < start[j] + top[j]->duration) want += top[j]->out[ci][t + i - start[j]];
          CHECK(near_rel(out.samples[ci][i], want, 1e-9, 1e-9), "channel %d: sample at %u is %.17g instead of %.17g", ci, t + i, out.samples[ci][i], want);
        }
      t += size;
    }
  }
  mem_fail_at = 0;
  failed = s.id != 0;
  CHECK(!failed || mem_failed, "status %d of group '%s'", s.id, (char*)s.group);
  sp_event_list_free(&list);
  CHECK(mem_live == 0, "%ld allocations remain %s", mem_live, failed ? "after an error" : "");
  if (failed) pbt_label("an allocation failed");
  if (parallel) pbt_label("parallel");
  int built = 0;
  for (int i = 0; i < sounds_n; i++) built |= 1 << sounds[i].kind;
  if (built & (1 << MAP)) pbt_label("maps");
  if (built & (1 << GROUP)) pbt_label("groups");
  if (built & (1 << WAVE)) pbt_label("waves");
  if (built & (1 << NOISE)) pbt_label("noise");
  if (own_freed) pbt_label("freed with settings in memory of the containing event");
  if (prepares > 1) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C36", .quick = 200000, .thorough = 20000000, .setup = setup_sp, .run = run,
  .rule = "two or more events built others or their arrays while rendering" };
#undef free
