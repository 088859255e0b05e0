/* noise event: model built from the impulse response and the random stream */
#include "seq.h"
/* cache of impulse responses of this case */
typedef struct { double l, h, tl, th; int reject; sp_sample_t* ir; sp_time_t len; } ir_t;
static ir_t irs[16384];
static int irs_n;
static ir_t* ir_get(sp_noise_event_channel_config_t* c, sp_time_t frq, sp_time_t wdt, int reject) {
  double l = sp_hz_to_factor(frq), h = sp_hz_to_factor(frq + wdt), tl = sp_hz_to_factor(c->trnl), th = sp_hz_to_factor(c->trnh);
  for (int i = 0; i < irs_n; i++)
    if (irs[i].l == l && irs[i].h == h && irs[i].tl == tl && irs[i].th == th && irs[i].reject == reject) return irs + i;
  ir_t* a = irs + irs_n++;
  a->l = l;
  a->h = h;
  a->tl = tl;
  a->th = th;
  a->reject = reject;
  CHECK_OK(sp_windowed_sinc_bp_br_ir(l, h, tl, th, reject, &a->ir, &a->len), "sp_windowed_sinc_bp_br_ir");
  return a;
}
static void default_config(sp_noise_event_config_t* c) {
  CHECK(c->channel_count == sp_channel_count_limit && c->resolution == sp_default_resolution && !c->is_reject && !c->temp[0] && !c->temp[1] && !c->temp[2], "the default configuration is not as documented");
  for (int i = 0; i < sp_channel_count_limit; i++) {
    sp_noise_event_channel_config_t* cc = c->channel_config + i;
    CHECK(cc->use == (i == 0) && cc->amp == 1 && cc->channel == i && !cc->filter_state && !cc->frq && !cc->amod && !cc->fmod && !cc->wmod && cc->wdt == TEST_RATE / 2 && cc->trnl == (sp_frq_t)(TEST_RATE * 0.08) && cc->trnh == (sp_frq_t)(TEST_RATE * 0.08), "the default configuration of channel %d is not as documented", i);
  }
}
static void run(void) {
  irs_n = 0;
  int out_channels = 1 + d_below(sp_channel_count_limit), n = d_chance(60) ? out_channels : 1 + d_below(out_channels);
  sp_time_t duration = d_rare(2000) ? d_mid() : d_below(d_chance(70) ? 60 : d_chance(80) ? 400 : 4500), start = d_chance(40) ? 0 : d_below(30), first = d_late();
  start += first;
  sp_noise_event_config_t* c;
  sp_random_state = sp_random_state_new(d_below(1u << 31));
  if (d_chance(80)) CHECK_OK(sp_noise_event_config_new(&c), "sp_noise_event_config_new");
  else {
    /* several configurations at once: all have the defaults */
    int count = 1 + d_below(5), use = d_below(count);
    sp_noise_event_config_t* all;
    CHECK_OK(sp_noise_event_config_new_n(count, &all), "sp_noise_event_config_new_n");
    for (int i = 0; i < count; i++) default_config(all + i);
    c = t_malloc(sizeof *c);
    *c = d_bool() ? all[use] : sp_noise_event_config_defaults();
    t_free(all);
  }
  default_config(c);
  c->channel_count = n;
  c->is_reject = d_bool();
  int res = d_below(3);
  if (res == 1) c->resolution = (duration > 400 ? 30 : 1) + d_below(100);
  if (res == 2) c->resolution = TEST_RATE;
  sp_noise_event_channel_config_t orig[sp_channel_count_limit];
  int order = out_channels > 1 && d_chance(30), mods = 0;
  pbt_note("duration %u at %u, %s, resolution %u, %d of %d channels:", duration, start, c->is_reject ? "reject" : "pass", c->resolution, n, out_channels);
  for (int i = 0; i < n; i++) {
    sp_noise_event_channel_config_t* cc = c->channel_config + i;
    cc->use = i == 0 ? 1 : d_chance(65);
    /* also several to the same output */
    cc->channel = order ? d_below(out_channels) : i;
    cc->amp = d_chance(30) ? 1 : d_float(0, 4);
    if (i == 0 || d_bool()) cc->amod = d_samples(duration + !duration, -1, 1);
    cc->frq = d_chance(30) ? 0 : d_below(TEST_RATE / 2 + 20);
    if (d_chance(60)) cc->wdt = 1 + d_below(TEST_RATE / 2 + 20);
    if (d_chance(30)) {
      cc->fmod = d_times(duration + !duration, 0, TEST_RATE / 2);
      mods = 1;
    }
    if (d_chance(20)) {
      cc->wmod = d_times(duration + !duration, 1, TEST_RATE / 2);
      mods = 1;
    }
    static const int trns[] = { 76, 40, 200, 480, 100, 15 };
    if (d_chance(80)) cc->trnl = trns[d_below(6)];
    if (d_chance(80)) cc->trnh = trns[d_below(6)];
    if (d_chance(3) && duration > 100) cc->trnl = 1 + d_below(4);
    if (i && d_chance(25)) {
      /* lacks everything: shares the noise of the first channel */
      cc->frq = cc->wdt = cc->trnl = cc->trnh = 0;
      cc->fmod = cc->wmod = 0;
    } else if (i) {
      if (d_chance(25)) cc->wdt = 0;
      if (d_chance(25)) cc->trnl = 0;
      if (d_chance(25)) cc->trnh = 0;
    }
    orig[i] = *cc;
    pbt_note(" [use %d out %d amp %g frq %u wdt %u trn %u %u%s%s%s]", cc->use, cc->channel, cc->amp, cc->frq, cc->wdt, cc->trnl, cc->trnh, cc->amod ? " amod" : "", cc->fmod ? " fmod" : "", cc->wmod ? " wmod" : "");
  }
  sp_event_t event = sp_null_event;
  sp_event_t* ep = &event;
  event.start = start;
  event.end = start + duration;
  sp_noise_event(ep, c);
  CHECK_OK(sp_event_memory_add_with_handler(&event, c, t_free), "sp_event_memory_add");
  if (duration && d_chance(2)) { /* the amplitudes of the first channel are required */
    c->channel_config->amod = 0;
    sp_event_list_t* list = 0;
    sp_sample_t* before[sp_channel_count_limit];
    pbt_note(" without amplitudes");
    pbt_label("refused");
    CHECK_OK(sp_event_list_add(&list, event), "sp_event_list_add");
    sp_seq_events_prepare(&list);
    sp_time_t size = start - first + 1 + d_below(4);
    sp_block_t out = block_filled(out_channels, size, before);
    status_t s = sp_seq(first, first + size, out, &list);
    CHECK(s.id == sp_s_id_invalid_argument && !strcmp((char*)s.group, sp_s_group_sp), "an event without amplitudes gives status %d of group %s", s.id, (char*)s.group);
    sp_event_list_free(&list);
    CHECK(mem_live == 0, "%ld allocations remain", mem_live);
    return;
  }
  /* settings in effect */
  sp_noise_event_channel_config_t eff[sp_channel_count_limit];
  int own[sp_channel_count_limit] = { 1, 0 }, owns = 0, shares = 0;
  eff[0] = orig[0];
  int filter_mod = eff[0].fmod || eff[0].wmod;
  for (int i = 1; i < n; i++) {
    eff[i] = orig[i];
    if (!orig[i].use) {
      eff[i] = orig[0];
      eff[i].channel = orig[i].channel;
    } else {
      if (!eff[i].amod) eff[i].amod = orig[0].amod;
      own[i] = orig[i].frq || orig[i].wdt || orig[i].fmod || orig[i].wmod || orig[i].trnl || orig[i].trnh;
      if (own[i]) {
        owns++;
        if (eff[i].fmod || eff[i].wmod) filter_mod = 1;
        if (!eff[i].fmod) eff[i].fmod = orig[0].fmod;
        if (!eff[i].wmod) eff[i].wmod = orig[0].wmod;
        if (!eff[i].wdt) eff[i].wdt = orig[0].wdt;
        if (!eff[i].trnl) eff[i].trnl = orig[0].trnl;
        if (!eff[i].trnh) eff[i].trnh = orig[0].trnh;
      } else shares++;
    }
  }
  sp_time_t resolution = filter_mod ? c->resolution : duration;
  /* the random stream: seeded when the event is prepared */
  sp_random_state_t global = sp_random_state;
  sp_random_state_t stream = sp_random_state_new(sph_random_u32(&global));
  sp_time_t warm[sp_channel_count_limit] = { 0 };
  for (int i = 0; i < n; i++)
    if (own[i]) warm[i] = sp_windowed_sinc_lp_hp_ir_length(sp_hz_to_factor(eff[i].trnl < eff[i].trnh ? eff[i].trnl : eff[i].trnh));
  double* in[sp_channel_count_limit];
  for (int i = 0; i < n; i++) {
    in[i] = zero_samples(warm[i] + duration);
    if (own[i]) sph_random_f64_array_1to1(&stream, warm[i], in[i]);
  }
  double* noise = new_samples(duration);
  sph_random_f64_array_1to1(&stream, duration, noise);
  for (int i = 0; i < n; i++) memcpy(in[i] + warm[i], noise, duration * sizeof(double));
  /* blocks; the largest that may be requested is the rendering block size */
  size_t piece[64], pieces = 0;
  sp_time_t total = start - first + duration + !duration + d_below(4);
  pieces = d_partition(total, piece, 64);
  if (duration > 4 * TEST_RATE) {
    size_t q[64], m = 0;
    for (size_t i = 0; i < pieces && m < 60; i++) {
      while (piece[i] > 3000) {
        q[m++] = 3000;
        piece[i] -= 3000;
      }
      if (piece[i]) q[m++] = piece[i];
    }
    memcpy(piece, q, sizeof(q));
    pieces = m;
  }
  /* parameters per event sample */
  double* filtered[sp_channel_count_limit];
  double* expect[sp_channel_count_limit];
  for (int ci = 0; ci < sp_channel_count_limit; ci++) expect[ci] = zero_samples(duration);
  for (int i = 0; i < n; i++) {
    if (!own[i]) {
      filtered[i] = filtered[0];
      continue;
    }
    size_t size = warm[i] + duration;
    double* out = filtered[i] = zero_samples(size);
    sp_time_t at = 0;
    /* the warm-up uses the settings of the first sample, later ones change at block starts and every resolution samples */
    size_t b = 0, k = 0;
    sp_time_t next = 0, block_end = 0, done = 0;
    ir_t* ir = ir_get(eff + i, eff[i].fmod ? eff[i].fmod[0] : eff[i].frq, eff[i].wmod ? eff[i].wmod[0] : eff[i].wdt, c->is_reject);
    sp_time_t t = first;
    sp_time_t* starts = new_times(duration + 1);
    memset(starts, 0, (duration + 1) * sizeof(sp_time_t));
    for (b = 0; b < pieces; b++) {
      /* event relative request of this block */
      i64 from = (i64)t - start, to = from + (i64)piece[b];
      if (from < 0) from = 0;
      if (to > duration) to = duration;
      for (i64 x = from; x < to; x += resolution) starts[x] = 1;
      t += piece[b];
    }
    for (size_t x = 0; x < size; x++) {
      if (x >= warm[i] && starts[x - warm[i]]) {
        sp_time_t e = x - warm[i];
        ir = ir_get(eff + i, eff[i].fmod ? eff[i].fmod[e] : eff[i].frq, eff[i].wmod ? eff[i].wmod[e] : eff[i].wdt, c->is_reject);
      }
      for (sp_time_t y = 0; y < ir->len && x + y < size; y++) out[x + y] += in[i][x] * ir->ir[y];
    }
    filtered[i] = out + warm[i];
  }
  for (int i = 0; i < n; i++)
    for (sp_time_t k = 0; k < duration; k++) {
      double v = eff[i].amp * eff[i].amod[k] * filtered[i][k];
      expect[eff[i].channel][k] += v < -1 ? -1 : v > 1 ? 1 : v;
    }
  sp_event_list_t* list = 0;
  CHECK_OK(sp_event_list_add(&list, event), "sp_event_list_add");
  sp_seq_events_prepare(&list);
  sp_time_t t = first;
  pbt_note(" blocks");
  int stop_early = d_chance(10), loud = 0, sources[sp_channel_count_limit] = { 0 }; /* each is limited to -1..1 */
  for (int i = 0; i < n; i++) sources[eff[i].channel]++;
  for (size_t b = 0; b < pieces; b++) {
    if (stop_early && d_chance(30)) break;
    sp_sample_t* before[sp_channel_count_limit];
    sp_block_t out = block_filled(out_channels, piece[b], before);
    pbt_note(" %zu", piece[b]);
    CHECK_OK(sp_seq(t, t + piece[b], out, &list), "sp_seq");
    for (int ci = 0; ci < out_channels; ci++)
      for (sp_time_t k = 0; k < piece[b]; k++) {
        double e = before[ci][k], v = out.samples[ci][k];
        int in_event = t + k >= start && t + k < start + duration;
        CHECK(isfinite(v) && fabs(v - e) <= sources[ci] + 1e-9 && (in_event || v == e), "channel %d sample %u: %.17g is added", ci, t + k, v - e);
        if (in_event) {
          double x = expect[ci][t + k - start];
          if (fabs(x) > 0.01) loud = 1;
          CHECK(fabs(v - e - x) < 1e-7, "channel %d sample %u (event sample %u): %.12g instead of %.12g", ci, t + k, t + k - start, v - e, x);
        }
      }
    t += piece[b];
  }
  sp_event_list_free(&list);
  for (int i = 0; i < irs_n; i++) t_free(irs[i].ir);
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (owns) pbt_label("further channels with own filter");
  if (shares) pbt_label("enabled channels share the noise");
  if (owns + shares < n - 1) pbt_label("further channels not enabled");
  if (filter_mod) pbt_label("modulated filter");
  if (irs[0].len > duration) pbt_label("response longer than the event");
  if (loud && (pieces > 1 || n > 1)) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C07", .quick = 30000, .thorough = 250000, .setup = setup_sp, .run = run,
  .rule = "audible output in several blocks or on two channels" };
