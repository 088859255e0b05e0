/* filters with state on streams: custom impulse responses and windowed-sinc filters */
typedef struct { u8 length, seed, more[6]; } args_t;
static int ir_calls, ir_fail, ir_scale;
static int ir_value(int which, int seed, int i) { return (int)(mix64(which * 1000003 + seed * 1009 + i) % 19) - 9; }
static status_t ir_any(int which, void* arguments, sp_sample_t** out, sp_time_t* out_len) {
  status_declare;
  u8* a = arguments;
  ir_calls++;
  if (ir_fail) {
    status_set_goto("ir", 77);
  }
  *out_len = ir_scale * a[0];
  *out = t_malloc(*out_len * sizeof(double));
  for (int i = 0; i < (int)*out_len; i++) (*out)[i] = ir_value(which, a[1], i);
exit:
  status_return;
}
static status_t ir_one(void* a, sp_sample_t** out, sp_time_t* n) { return ir_any(0, a, out, n); }
static status_t ir_two(void* a, sp_sample_t** out, sp_time_t* n) { return ir_any(1, a, out, n); }

static double* want;
static void add(double* in, size_t at, size_t n, double* ir, size_t ir_n, size_t total) {
  for (size_t i = 0; i < n; i++)
    for (size_t k = 0; k < ir_n && at + i + k < total; k++) want[at + i + k] += in[i] * ir[k];
}
static void run(void) {
  size_t total = d_rare(10000) ? d_long() : d_rare(2000) ? 1 + d_mid() * 2 : 1 + d_below(d_chance(70) ? 40 : 300), piece[64], pieces = d_partition(total, piece, 64), at = 0;
  int sinc = d_chance(40), changes = 0, shorter = 0, function_changes = 0, failures = 0;
  double* in = total < 41 ? d_samples(total, -4, 4) : new_samples(total);
  if (total >= 41) d_fill(in, total, -1, 1);
  want = zero_samples(total);
  ir_scale = d_rare(1500) ? 1 + (int)d_below(90) : total > 600 && total < 60000 ? 1 + (int)d_below(60) : 1;
  if (total > 60000) pbt_label("long");
  if (ir_scale > 1) pbt_label("long response");
  sp_convolution_filter_state_t* state = 0;
  args_t args = { 1 + d_below(8), d_below(4), { 0 } };
  int args_len = 2 + d_below(3), which = 0;
  int filter = d_below(2);
  double cutoff = 0.1 + d_unit() * 0.3, cutoff2 = 0.4, transition = 0.1 + d_unit() * 0.4, transition2 = 0.2;
  int flag = d_bool();
  u8 last[16] = { 255 };
  int last_len = -1, last_which = -1, last_ir_n = 0;
  pbt_note("%s, %zu samples:", sinc ? (filter ? "band filter" : "low/high pass") : "custom response", total);
  for (size_t b = 0; b < pieces; b++) {
    size_t n = piece[b];
    double* part = memcpy(new_samples(n), in + at, n * sizeof(double));
    double* out = new_samples(n);
    status_t s;
    double* ir = 0;
    sp_time_t ir_n = 0;
    if (b && d_chance(35)) {
      if (sinc) {
        switch (d_below(4)) {
          case 0: cutoff = 0.05 + d_unit() * 0.3; break;
          case 1: transition = d_chance(20) ? 0.04 : 0.1 + d_unit() * 0.4; break;
          case 2: transition2 = 0.1 + d_unit() * 0.4; cutoff2 = d_chance(30) ? 0.6 : 0.3 + d_unit() * 0.19; break;
          default: flag = !flag;
        }
        if (d_chance(10)) filter = !filter;
        if (d_chance(10)) cutoff = d_bool() ? 0 : cutoff;
      } else {
        switch (d_below(5)) {
          case 0: args.length = 1 + d_below(d_chance(80) ? 8 : 40); break;
          case 1: args.seed = d_below(4); break;
          case 2: args_len = 2 + d_below(6); break;
          case 3: which = !which; break;
          default: args.more[d_below(6)] = d_below(2);
        }
      }
    }
    if (sinc) {
      s = filter ? sp_windowed_sinc_bp_br(part, n, cutoff, cutoff2, transition, transition2, flag, &state, out) : sp_windowed_sinc_lp_hp(part, n, cutoff, transition, flag, &state, out);
      CHECK(s.id == 0, "the filter returned status %d", s.id);
      if (filter) CHECK_OK(sp_windowed_sinc_bp_br_ir(cutoff, cutoff2, transition, transition2, flag, &ir, &ir_n), "sp_windowed_sinc_bp_br_ir");
      else CHECK_OK(sp_windowed_sinc_lp_hp_ir(cutoff, transition, flag, &ir, &ir_n), "sp_windowed_sinc_lp_hp_ir");
      pbt_note(" %zu by %u", n, ir_n);
      double key[5] = { cutoff, transition, flag, filter ? cutoff2 : 0, filter ? transition2 : 0 };
      static double last_key[6];
      int changed = b && (memcmp(key, last_key, sizeof(key)) || last_which != filter);
      changes += changed;
      function_changes += b && last_which != filter;
      memcpy(last_key, key, sizeof(key));
      last_which = filter;
    } else {
      u8* given = memcpy(buf_new(args_len), &args, args_len);
      int changed = last_len != args_len || last_which != which || memcmp(last, &args, args_len);
      if (b && d_chance(4)) {
        /* a failing response function leaves the state as it was */
        u8 other[2] = { 3, 9 };
        ir_fail = 1;
        s = sp_convolution_filter(part, n, ir_two, other, 2, &state, out);
        ir_fail = 0;
        CHECK(s.id == 77 && !strcmp((char*)s.group, "ir"), "a failing response function gives status %d of group %s", s.id, (char*)s.group);
        pbt_note(" failure");
        failures++;
        ir_calls = 0;
        s = sp_convolution_filter(part, n, which ? ir_two : ir_one, given, args_len, &state, out);
        CHECK(!changed || ir_calls, "the response was not computed again");
      } else {
        ir_calls = 0;
        s = sp_convolution_filter(part, n, which ? ir_two : ir_one, given, args_len, &state, out);
        CHECK(ir_calls == changed, "the response function was called %d times, the parameters %s", ir_calls, changed ? "changed" : "are the same");
      }
      CHECK(s.id == 0, "the filter returned status %d", s.id);
      CHECK(!memcmp(given, &args, args_len), "the arguments were changed");
      memset(given, 0xaa, args_len);
      changes += b && changed;
      function_changes += b && last_which != which;
      memcpy(last, &args, args_len);
      last_len = args_len;
      last_which = which;
      ir_n = ir_scale * args.length;
      ir = t_malloc(ir_n * sizeof(double));
      for (sp_time_t i = 0; i < ir_n; i++) ir[i] = ir_value(which, args.seed, i);
      pbt_note(" %zu by %u", n, ir_n);
    }
    CHECK(!memcmp(part, in + at, n * sizeof(double)), "the input was changed");
    add(part, at, n, ir, ir_n, total);
    for (size_t i = 0; i < n; i++) CHECK(fabs(out[i] - want[at + i]) <= (sinc ? 1e-9 : 1e-9 * 400), "sample %zu is %.17g instead of %.17g", at + i, out[i], want[at + i]);
    if (b && (int)ir_n < last_ir_n) shorter = 1;
    last_ir_n = ir_n;
    t_free(ir);
    at += n;
  }
  CHECK(state, "no state was created");
  sp_convolution_filter_state_free(state);
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (d_chance(2)) sp_convolution_filter_state_free(0);
  if (changes) pbt_label("parameters change");
  if (function_changes) pbt_label("response function changes");
  if (shorter) pbt_label("response gets shorter");
  if (failures) pbt_label("response function fails");
  if (pieces > 1) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C15", .quick = 1000000, .thorough = 10000000, .setup = setup_sp, .run = run,
  .rule = "at least two blocks" };
