/* streaming convolution */
static double* reference(double* a, size_t an, double* b, size_t bn, double* tol) {
  size_t n = an + bn - 1;
  double* out = new_samples(n);
  double m = 0;
  for (size_t i = 0; i < n; i++) {
    long double s = 0, t = 0;
    for (size_t k = i >= an ? i - an + 1 : 0; k < bn && k <= i; k++)
      {
        s += (long double)a[i - k] * b[k];
        t += fabs(a[i - k] * b[k]);
      }
    out[i] = s;
    if (t > m) m = t;
  }
  *tol = 1e-12 * m + 1e-300;
  return out;
}
/* every portion with one of several impulse responses. the carryover is as long as the longest */
static void changing(void) {
  int rn = 2 + (int)d_below(2);
  size_t bn[3], max = 1, total = 1 + d_below(d_chance(80) ? 30 : 150), piece[64], at = 0;
  double* b[3];
  for (int r = 0; r < rn; r++) {
    bn[r] = d_chance(25) ? 1 : 1 + d_below(d_chance(80) ? 12 : 80);
    b[r] = new_samples(bn[r]);
    d_fill(b[r], bn[r], -1, 1);
    if (bn[r] > max) max = bn[r];
  }
  double* a = new_samples(total);
  d_fill(a, total, -1, 1);
  size_t pieces = d_partition(total, piece, 64);
  static long double want[512];
  memset(want, 0, sizeof(want));
  double* carry = zero_samples(max - 1);
  size_t cl = 0;
  int shorter = 0, tight = d_bool();
  double tol = 1e-12 * (double)(max + 1) * 2;
  pbt_label("changing response");
  pbt_note("responses of %zu %zu %zu, portions by response", bn[0], bn[1], rn > 2 ? bn[2] : 0);
  for (size_t i = 0, last = 0; i < pieces; i++) {
    size_t n = piece[i];
    int r = (int)d_below((uint64_t)rn);
    double* in = memcpy(new_samples(n), a + at, n * sizeof(double));
    double* out = new_samples(n);
    pbt_note(" %zu by %d", n, r);
    for (size_t k = 0; k < n; k++)
      for (size_t j = 0; j < bn[r]; j++) want[at + k + j] += (long double)a[at + k] * b[r][j];
    sp_convolve(in, n, b[r], bn[r], cl, carry, out);
    for (size_t k = 0; k < n; k++) CHECK(fabs(out[k] - (double)want[at + k]) <= tol, "sample %zu is %.17g instead of %.17g", at + k, out[k], (double)want[at + k]);
    at += n;
    for (size_t k = 0; k < max - 1; k++) CHECK(fabs(carry[k] - (double)want[at + k]) <= tol, "carryover %zu after %zu samples is %.17g instead of %.17g", k, at, carry[k], (double)want[at + k]);
    if (i && bn[r] < last) shorter = 1;
    last = bn[r];
    /* what is left of the earlier tail can be longer than the response */
    size_t rest = tight ? (cl > n ? cl - n : 0) : cl;
    cl = rest > bn[r] - 1 ? rest : bn[r] - 1;
  }
  if (shorter) pbt_nontrivial();
}
static void run(void) {
  if (d_chance(15)) { changing(); return; }
  size_t an = 1 + d_below(d_chance(80) ? 30 : 200), bn = 1 + d_below(d_chance(80) ? 12 : 120);
  if (d_rare(3000)) {
    if (d_bool()) an = d_long(), bn = 1 + d_below(5);
    else bn = d_long(), an = 1 + d_below(5);
    pbt_label("long");
  }
  double* a = an < 31 ? d_samples(an, -4, 4) : new_samples(an);
  double* b = bn < 31 ? d_samples(bn, -4, 4) : new_samples(bn);
  if (an >= 31) d_fill(a, an, -1, 1);
  if (bn >= 31) d_fill(b, bn, -1, 1);
  double tol;
  double* want = reference(a, an, b, bn, &tol);
  if (d_chance(20)) {
    double* out = zero_samples(an + bn - 1);
    pbt_note("one shot, %zu with %zu", an, bn);
    sp_convolve_one(a, an, b, bn, out);
    for (size_t i = 0; i < an + bn - 1; i++) CHECK(fabs(out[i] - want[i]) <= tol, "element %zu is %.17g instead of %.17g", i, out[i], want[i]);
    pbt_label("one shot");
    if (an > 1 && bn > 1) pbt_nontrivial();
    return;
  }
  size_t piece[64], pieces = d_partition(an, piece, 64), at = 0;
  double* carry = zero_samples(bn - 1);
  int shorter = 0, longer = 0;
  int first_zero = d_bool(); /* the first call may have no carryover or one of zeros */
  pbt_note("response of %zu, portions", bn);
  for (size_t i = 0; i < pieces; i++) {
    size_t n = piece[i];
    double* in = memcpy(new_samples(n), a + at, n * sizeof(double));
    double* out = new_samples(n);
    double* keep = memcpy(new_samples(bn), b, bn * sizeof(double));
    pbt_note(" %zu", n);
    sp_convolve(in, n, b, bn, i || first_zero ? bn - 1 : 0, carry, out);
    for (size_t k = 0; k < n; k++) CHECK(fabs(out[k] - want[at + k]) <= tol, "sample %zu is %.17g instead of %.17g", at + k, out[k], want[at + k]);
    CHECK(!memcmp(in, a + at, n * sizeof(double)) && !memcmp(keep, b, bn * sizeof(double)), "the input was changed");
    at += n;
    for (size_t k = 0; k < bn - 1; k++) {
      /* what the samples so far add beyond the end */
      long double s = 0;
      for (size_t j = k + 1; j < bn && j - k <= at; j++) s += (long double)a[at - (j - k)] * b[j];
      CHECK(fabs((double)s - carry[k]) <= tol, "carryover %zu after %zu samples is %.17g instead of %.17g", k, at, carry[k], (double)s);
    }
    if (n < bn - 1) shorter = 1;
    if (n >= bn) longer = 1;
  }
  if (shorter) pbt_label("portion shorter than the carryover");
  if (longer) pbt_label("portion as long as the response");
  if (pieces > 1 && bn > 1) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C13", .quick = 2000000, .thorough = 20000000, .setup = setup_sp, .run = run,
  .rule = "at least two portions (or both inputs longer than one for the one-shot form) and a response longer than one, or a change to a shorter response" };
