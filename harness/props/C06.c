/* wave event */
#include "seq.h"
static void default_config(sp_wave_event_config_t* c) {
  CHECK(c->channel_count == sp_channel_count_limit && c->wvf == sp_sine_table && c->wvf_size == TEST_RATE && c->channel_config[0].use == 1, "the default configuration is not as documented");
  for (int i = 0; i < sp_channel_count_limit; i++) {
    sp_wave_event_channel_config_t* cc = c->channel_config + i;
    CHECK(cc->use == (i == 0) && cc->amp == 1 && cc->channel == i && !cc->frq && !cc->phs && !cc->amod && !cc->fmod && !cc->pmod, "the default configuration of channel %d is not as documented", i);
  }
}
static sp_sample_t* some_samples(size_t n) {
  if (n < 500) return d_samples(n, -1, 1);
  sp_sample_t* a = new_samples(n);
  d_fill(a, n, -1, 1);
  return a;
}
static sp_time_t* some_times(size_t n, sp_time_t max) {
  if (n < 500) return d_times(n, 0, max);
  sp_time_t* a = new_times(n);
  u64 q = d_below(1u << 30);
  for (size_t i = 0; i < n; i++) a[i] = (sp_time_t)(mix64(q + i) % max);
  return a;
}
static void run(void) {
  int out_channels = 1 + d_below(sp_channel_count_limit), n = 1 + d_below(out_channels);
  sp_time_t duration = 1 + d_below(d_bool() ? 30 : 400), start = d_chance(40) ? 0 : d_below(50), first = d_late();
  start += first;
  if (d_rare(20000)) {
    duration = d_long();
    pbt_label("long");
  }
  sp_wave_event_config_t* c;
  int fixed_config = d_chance(25);
  if (fixed_config) {
    static sp_wave_event_config_t local;
    local = sp_wave_event_config_defaults();
    c = &local;
  } else if (d_chance(80)) CHECK_OK(sp_wave_event_config_new(&c), "sp_wave_event_config_new");
  else {
    /* several configurations at once: all have the defaults */
    int count = 1 + d_below(5), use = d_below(count);
    sp_wave_event_config_t* all;
    CHECK_OK(sp_wave_event_config_new_n(count, &all), "sp_wave_event_config_new_n");
    for (int i = 0; i < count; i++) default_config(all + i);
    c = t_malloc(sizeof *c);
    *c = all[use];
    t_free(all);
  }
  default_config(c);
  c->channel_count = n;
  int table = d_chance(70);
  if (table) {
    c->wvf_size = 1 + d_below(d_bool() ? 9 : 90);
    if (d_rare(5000)) c->wvf_size = (sp_time_t)(d_bool() ? d_mid() : d_long());
    c->wvf = some_samples(c->wvf_size);
  }
  int order = out_channels > 1 && d_chance(40), enabled = 0;
  sp_wave_event_channel_config_t orig[sp_channel_count_limit];
  int mods = 0;
  pbt_note("duration %u at %u, table of %u%s, %d of %d channels:", duration, start, c->wvf_size, table ? "" : " (sine)", n, out_channels);
  for (int i = 0; i < n; i++) {
    sp_wave_event_channel_config_t* cc = c->channel_config + i;
    cc->use = i == 0 ? 1 : d_bool();
    /* also several to the same output */
    cc->channel = order ? d_below(out_channels) : i;
    if (i && cc->use) enabled++;
    cc->amp = d_chance(20) ? 1 : d_float(-2, 2);
    if (i == 0 || d_bool()) cc->amod = some_samples(duration);
    if (d_chance(60)) cc->frq = d_below(d_bool() ? 50 : 65536);
    if (d_chance(40)) {
      cc->fmod = some_times(duration, d_chance(80) ? 60 : 100000);
      mods = 1;
    }
    if (d_chance(40)) {
      cc->pmod = some_times(duration, d_chance(80) ? 100 : 2000000000);
      mods = 1;
    }
    if (d_chance(50)) cc->phs = d_below(c->wvf_size);
    orig[i] = *cc;
    pbt_note(" [use %d out %d amp %g frq %u phs %u%s%s%s]", cc->use, cc->channel, cc->amp, cc->frq, cc->phs, cc->amod ? " amod" : "", cc->fmod ? " fmod" : "", cc->pmod ? " pmod" : "");
  }
  sp_event_t event = sp_null_event;
  sp_event_t* ep = &event;
  event.start = start;
  event.end = start + duration;
  sp_wave_event(ep, c);
  if (!fixed_config) CHECK_OK(sp_event_memory_add_with_handler(&event, c, t_free), "sp_event_memory_add");
  /* model */
  double* expect[sp_channel_count_limit];
  for (int ci = 0; ci < sp_channel_count_limit; ci++) expect[ci] = zero_samples(duration);
  for (int i = 0; i < n; i++) {
    sp_wave_event_channel_config_t cc = i == 0 || orig[i].use ? orig[i] : orig[0];
    cc.channel = orig[i].channel;
    if (i && orig[i].use) {
      if (!cc.amod) cc.amod = orig[0].amod;
      if (!cc.fmod) cc.fmod = orig[0].fmod;
      if (!cc.pmod) cc.pmod = orig[0].pmod;
      if (!cc.frq) cc.frq = orig[0].frq;
    }
    u64 phs = cc.phs;
    for (sp_time_t k = 0; k < duration; k++) {
      expect[cc.channel][k] += cc.amp * cc.amod[k] * c->wvf[(phs + (cc.pmod ? cc.pmod[k] : 0)) % c->wvf_size];
      phs = (phs + cc.frq + (cc.fmod ? cc.fmod[k] : 0)) % c->wvf_size;
    }
  }
  sp_event_list_t* list = 0;
  CHECK_OK(sp_event_list_add(&list, event), "sp_event_list_add");
  sp_seq_events_prepare(&list);
  size_t piece[64], pieces = d_partition(start - first + duration + d_below(4), piece, 64);
  sp_time_t t = first;
  pbt_note(" blocks");
  for (size_t b = 0; b < pieces; b++) {
    sp_sample_t* before[sp_channel_count_limit];
    sp_block_t out = block_filled(out_channels, piece[b], before);
    pbt_note(" %zu", piece[b]);
    CHECK_OK(sp_seq(t, t + piece[b], out, &list), "sp_seq");
    for (int ci = 0; ci < out_channels; ci++)
      for (sp_time_t k = 0; k < piece[b]; k++) {
        double e = before[ci][k];
        if (t + k >= start && t + k < start + duration) e += expect[ci][t + k - start];
        CHECK(near_rel(out.samples[ci][k], e, 1e-9, 1e-9), "channel %d sample %u (event sample %ld): %.17g instead of %.17g", ci, t + k, (long)(t + k) - (long)start, out.samples[ci][k], e);
      }
    t += piece[b];
  }
  sp_event_list_free(&list);
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (n > 1) pbt_label(enabled == n - 1 ? "all channels enabled" : "a channel is not enabled");
  if (mods) pbt_label("modulated");
  if (pieces > 1 && (mods || n > 1)) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C06", .quick = 1000000, .thorough = 10000000, .setup = setup_sp, .run = run,
  .rule = "rendered in two or more blocks, with modulation arrays or several channels" };
