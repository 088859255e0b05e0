/* moving average */
static double at(double* in, i64 n, double* prev, double* next, i64 i) {
  if (i < 0) return prev ? prev[n + i] : -in[-i];
  if (i >= n) return next ? next[i - n] : -in[2 * (n - 1) - i];
  return in[i];
}
static double* exact(double* a, size_t n) { return memcpy(new_samples(n), a, n * sizeof(double)); }
static void run(void) {
  sp_time_t radius = d_chance(85) ? d_below(6) : d_below(30), n = 2 * radius + 2 + d_below(d_chance(80) ? 12 : 80), width;
  if (d_rare(2000)) {
    radius = d_below(4);
    n = d_long();
    pbt_label("long");
  } else if (d_rare(500)) {
    radius = d_bool() ? 120 + d_below(200) : d_below(6);
    n = 2 * radius + 2 + d_mid();
    pbt_label("wide");
  }
  width = 2 * radius + 1;
  if (d_chance(40)) {
    /* a signal in portions equals the whole signal */
    int portions = 2 + d_below(3);
    double* all = new_samples(n * portions);
    d_fill(all, n * portions, -4, 4);
    double* want = new_samples(n * portions);
    double* before = d_bool() ? d_samples(n * portions, -4, 4) : 0;
    double* after = d_bool() ? d_samples(radius, -4, 4) : 0;
    pbt_note("%d portions of %u, radius %u", portions, n, radius);
    sp_moving_average(all, n * portions, before, after, radius, want);
    for (int b = 0; b < portions; b++) {
      double* in = exact(all + b * n, n);
      double* out = new_samples(n);
      double* prev = b ? exact(all + (b - 1) * n, n) : before ? exact(before + (portions - 1) * n, n) : 0;
      double* next = b < portions - 1 ? exact(all + (b + 1) * n, radius) : after;
      sp_moving_average(in, n, prev, next, radius, out);
      for (sp_time_t i = 0; i < n; i++) CHECK(fabs(out[i] - want[b * n + i]) < 1e-9, "element %u of portion %d is %.15g, averaging everything at once gives %.15g", i, b, out[i], want[b * n + i]);
    }
    if (radius) pbt_nontrivial();
    pbt_label("portions");
    return;
  }
  double* in = d_samples(n, -10, 10);
  double* prev = d_bool() ? d_samples(n, -10, 10) : 0;
  double* next = d_bool() ? d_samples(radius, -10, 10) : 0;
  double* out = new_samples(n);
  double* keep = exact(in, n);
  pbt_note("%u values, radius %u%s%s", n, radius, prev ? ", with previous" : "", next ? ", with next" : "");
  sp_moving_average(in, n, prev, next, radius, out);
  for (i64 i = 0; i < n; i++) {
    long double s = 0;
    for (i64 k = i - radius; k <= i + (i64)radius; k++) s += at(in, n, prev, next, k);
    CHECK(fabs((double)(s / width) - out[i]) < 1e-9, "element %ld is %.15g instead of %.15g", (long)i, out[i], (double)(s / width));
  }
  CHECK(!memcmp(keep, in, n * sizeof(double)), "the input was changed");
  if (radius) pbt_nontrivial();
  pbt_label(prev && next ? "both neighbours" : prev ? "previous only" : next ? "next only" : "no neighbours");
}
static const pbt_meta META = { .id = "C16", .quick = 4000000, .thorough = 30000000, .setup = setup_sp, .run = run,
  .rule = "radius above zero" };
