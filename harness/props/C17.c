/* table oscillators, sine tables, phases */
static double* exact(double* a, size_t n) { return memcpy(new_samples(n), a, n * sizeof(double)); }
static void run(void) {
  int kind = d_below(8);
  if (kind == 0) {
    /* one period of a sine for every size */
    sp_time_t n = d_chance(70) ? 1 + d_below(60) : 1 + d_below(5000);
    if (d_rare(300)) n = d_long();
    double* out = new_samples(n);
    pbt_note("sine table of %u", n);
    sp_sine_period(n, out);
    for (sp_time_t i = 0; i < n; i++) {
      double e = sinl(2 * 3.141592653589793238462643383279503L * i / n);
      CHECK(fabs(out[i] - e) < 1e-9, "element %u of %u is %.12g instead of %.12g", i, n, out[i], e);
    }
    if (n & 1) pbt_label("table of odd size");
    if (n > 2) pbt_nontrivial();
    return;
  }
  if (kind == 1) {
    sp_time_t cycle = 1 + d_below(d_bool() ? 20 : 100000), current = d_below(cycle), change = d_chance(80) ? d_below(3 * (u64)cycle) : d_below(1u << 30);
    pbt_note("phase %u + %u in %u", current, change, cycle);
    sp_time_t r = sp_phase(current, change, cycle);
    CHECK(r == ((u64)current + change) % cycle, "sp_phase gives %u", r);
    double c = d_chance(30) ? change : change + d_unit();
    r = sp_phase_float(current, c, cycle);
    CHECK(r == (u64)(current + ceill(c)) % cycle, "sp_phase_float with %.17g gives %u", c, r);
    if (change) pbt_nontrivial();
    pbt_label("phase");
    return;
  }
  sp_time_t n = 1 + d_below(d_chance(85) ? 40 : 2000), table_size = 1 + d_below(d_bool() ? 12 : 300);
  if (d_rare(2000)) {
    n = d_long();
    if (d_bool()) table_size = d_long();
    pbt_label("long");
  }
  double amp = d_chance(20) ? 1 : d_float(-2, 2);
  double* amod = d_bool() ? d_samples(n, -1, 1) : 0;
  int fn = d_below(4); /* 0, 1: sp_wave; 2: sp_sine; 3: sp_sine_lfo */
  sp_time_t size = fn == 2 ? sp_rate : fn == 3 ? sp_rate * sp_sine_lfo_factor : table_size;
  double* table = fn == 2 ? sp_sine_table : fn == 3 ? sp_sine_table_lfo : 0;
  if (fn < 2) {
    table = new_samples(size);
    d_fill(table, size, -1, 1);
  }
  if (fn > 1) {
    CHECK(size == (fn == 2 ? TEST_RATE : TEST_RATE * 100), "the sine table has size %u", size);
    sp_time_t k = d_below(size);
    CHECK(fabs(table[k] - sin(2 * M_PI * k / size)) < 1e-9, "element %u of the sine table of %u is %.12g", k, size, table[k]);
  }
  sp_time_t frq = d_below(d_chance(80) ? size + 2 : 5 * size + 3);
  sp_time_t* fmod = d_chance(40) ? d_times(n, 0, d_chance(80) ? size : 4 * size) : 0;
  sp_time_t phase = d_chance(30) ? 0 : d_below(size);
  int stored = d_chance(80);
  double* out = new_samples(n);
  d_fill(out, n, -3, 3);
  double* before = exact(out, n);
  size_t piece[64], pieces = d_partition(n, piece, 64), at = 0;
  pbt_note("%s, table of %u, amplitude %.4g%s, frequency %u%s, phase %u%s, blocks", fn == 2 ? "sine" : fn == 3 ? "low frequency sine" : "wave", size, amp, amod ? " array" : "", frq, fmod ? " array" : "", phase, stored ? "" : " not stored");
  u64 model = phase;
  sp_time_t state = phase;
  int wraps = 0;
  for (size_t b = 0; b < pieces; b++) {
    size_t m = piece[b];
    double* o = exact(out + at, m);
    double* am = amod ? exact(amod + at, m) : 0;
    sp_time_t* fm = fmod ? memcpy(new_times(m), fmod + at, m * sizeof(sp_time_t)) : 0;
    sp_time_t* ps = stored ? &state : 0;
    pbt_note(" %zu", m);
    if (fn == 2) sp_sine(m, amp, am, frq, fm, ps, o);
    else if (fn == 3) sp_sine_lfo(m, amp, am, frq, fm, ps, o);
    else sp_wave(m, table, size, amp, am, frq, fm, ps, o);
    if (!stored) model = 0;
    for (size_t i = 0; i < m; i++) {
      double e = before[at + i] + amp * (amod ? amod[at + i] : 1) * table[model];
      CHECK(fabs(o[i] - e) < 1e-9, "sample %zu is %.15g instead of %.15g (phase %lu)", at + i, o[i], e, (unsigned long)model);
      model += fmod ? fmod[at + i] : frq;
      if (model >= size) wraps++;
      model %= size;
    }
    if (stored) CHECK(state == model, "the stored phase is %u instead of %lu", state, (unsigned long)model);
    if (am) CHECK(!memcmp(am, amod + at, m * sizeof(double)), "the amplitudes were changed");
    if (fm) CHECK(!memcmp(fm, fmod + at, m * sizeof(sp_time_t)), "the frequencies were changed");
    at += m;
  }
  if (wraps) pbt_label("phase wraps");
  if (!stored) pbt_label("phase not stored");
  if (!amod) pbt_label("no amplitude array");
  if (fmod) pbt_label("frequency array");
  if (wraps && pieces > 1) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C17", .quick = 1000000, .thorough = 8000000, .setup = setup_sp, .run = run,
  .rule = "phase wraps in one of several blocks, a table larger than two, or a phase change" };
