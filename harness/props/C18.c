/* paths from points: sp_path_samples, sp_path_times and the fixed-argument variants */
#include "path.h"
#define MAXP 24
static int n;
static sp_time_t length;
static double X[MAXP], Y[MAXP], CV[MAXP];
static int curved, fractional;

/* what segment s may have near x */
static void seg_hull(int s, double x, double w, double* lo, double* hi) {
  pnt p[3] = {{X[s], Y[s]}, {0, 0}, {X[s + 1], Y[s + 1]}};
  double c = curved ? CV[s] : 0;
  if (fabs(c) < 1e-5) {
    pnt l[2] = {p[0], p[2]};
    bez_hull(l, 2, x, w, lo, hi);
  } else {
    p[1] = arc_control(p[0], p[2], c);
    bez_hull(p, 3, x, w, lo, hi);
  }
}
static void check_samples(const sp_sample_t* out, const char* what, double round_slack) {
  for (int s = 0; s + 1 < n; s += 1) {
    double c = curved ? CV[s] : 0;
    for (sp_time_t k = (sp_time_t)ceil(X[s]); k < X[s + 1] && k < length; k += 1) {
      double lo, hi;
      if (fractional) {
        /* positions are rounded: anything within a sample and a half, also of the neighbours */
        lo = INFINITY, hi = -INFINITY;
        for (int o = s > 1 ? s - 2 : 0; o + 1 < n && o < s + 3; o += 1)
          if (X[o] <= k + 1.501 && X[o + 1] >= k - 1.501) {
            double l, h;
            seg_hull(o, k, 1.501, &l, &h);
            lo = fmin(lo, l), hi = fmax(hi, h);
          }
      } else seg_hull(s, k, fabs(c) < 1e-5 ? 0 : 0.501, &lo, &hi);
      CHECK(out[k] >= lo - round_slack && out[k] <= hi + round_slack, "%s: at %u, in the segment (%g %g) to (%g %g) with curvature %g, got %.12g, expected %.12g to %.12g", what, k, X[s], Y[s], X[s + 1], Y[s + 1], c, out[k], lo, hi);
    }
  }
}

static void same_samples(status_t s, sp_sample_t* a, const sp_sample_t* b, const char* what) {
  CHECK(s.id == 0, "%s returned status %d", what, s.id);
  for (sp_time_t i = 0; i < length; i += 1) CHECK(near_rel(a[i], b[i], 1e-12, 1e-300), "%s: element %u is %.12g, the general variant gives %.12g", what, i, a[i], b[i]);
  t_free(a);
}
static void same_times(status_t s, sp_time_t* a, const sp_time_t* b, const char* what) {
  CHECK(s.id == 0, "%s returned status %d", what, s.id);
  for (sp_time_t i = 0; i < length; i += 1) CHECK(a[i] == b[i], "%s: element %u is %u, the general variant gives %u", what, i, a[i], b[i]);
  t_free(a);
}

static void fixed_samples(const sp_sample_t* ref) {
  sp_sample_t* o = 0;
  status_t s;
#define T(what, call) do { o = 0; s = call; same_samples(s, o, ref, what); } while (0)
  if (!curved) {
    if (n == 2) T("sp_path_samples2", sp_path_samples2(&o, length, Y[0], Y[1]));
    if (n == 3) T("sp_path_samples3", sp_path_samples3(&o, length, X[1], Y[0], Y[1], Y[2]));
    if (n == 4) T("sp_path_samples4", sp_path_samples4(&o, length, X[1], X[2], Y[0], Y[1], Y[2], Y[3]));
    if (n == 5) T("sp_path_samples5", sp_path_samples5(&o, length, X[1], X[2], X[3], Y[0], Y[1], Y[2], Y[3], Y[4]));
  } else {
    if (n == 2) T("sp_path_samples_c2", sp_path_samples_c2(&o, length, Y[0], Y[1], CV[0]));
    if (n == 3) T("sp_path_samples_c3", sp_path_samples_c3(&o, length, X[1], Y[0], Y[1], Y[2], CV[0], CV[1]));
    if (n == 4) T("sp_path_samples_c4", sp_path_samples_c4(&o, length, X[1], X[2], Y[0], Y[1], Y[2], Y[3], CV[0], CV[1], CV[2]));
    if (n == 5) T("sp_path_samples_c5", sp_path_samples_c5(&o, length, X[1], X[2], X[3], Y[0], Y[1], Y[2], Y[3], Y[4], CV[0], CV[1], CV[2], CV[3]));
  }
#undef T
}
static void fixed_times(const sp_time_t* ref) {
  sp_time_t* o = 0;
  status_t s;
#define T(what, call) do { o = 0; s = call; same_times(s, o, ref, what); } while (0)
  if (!curved) {
    if (n == 2) T("sp_path_times2", sp_path_times2(&o, length, Y[0], Y[1]));
    if (n == 3) T("sp_path_times3", sp_path_times3(&o, length, X[1], Y[0], Y[1], Y[2]));
    if (n == 4) T("sp_path_times4", sp_path_times4(&o, length, X[1], X[2], Y[0], Y[1], Y[2], Y[3]));
    if (n == 5) T("sp_path_times5", sp_path_times5(&o, length, X[1], X[2], X[3], Y[0], Y[1], Y[2], Y[3], Y[4]));
  } else {
    if (n == 2) T("sp_path_times_c2", sp_path_times_c2(&o, length, Y[0], Y[1], CV[0]));
    if (n == 3) T("sp_path_times_c3", sp_path_times_c3(&o, length, X[1], Y[0], Y[1], Y[2], CV[0], CV[1]));
    if (n == 4) T("sp_path_times_c4", sp_path_times_c4(&o, length, X[1], X[2], Y[0], Y[1], Y[2], Y[3], CV[0], CV[1], CV[2]));
    if (n == 5) T("sp_path_times_c5", sp_path_times_c5(&o, length, X[1], X[2], X[3], Y[0], Y[1], Y[2], Y[3], Y[4], CV[0], CV[1], CV[2], CV[3]));
  }
#undef T
}
/* the event variants also register the array with the event */
static status_t event_path(sp_event_t* e, sp_sample_t** o) {
  status_declare;
  sp_event_path_samples3_srq(e, o, length, X[1], Y[0], Y[1], Y[2]);
exit:
  status_return;
}

/* on the perpendicular through the midpoint, towards the first point's height, one at the border of the rectangle */
static void perpendicular(void) {
  int horizontal = d_chance(10), vertical = d_chance(10);
  spline_path_point_t a = { d_float(-100, 100), d_float(-100, 100) }, b = { d_float(-100, 100), d_float(-100, 100) }, r, o;
  if (horizontal) b.y = a.y;
  if (vertical) b.x = a.x;
  double c = d_chance(20) ? (double)d_range(-1, 1) : d_unit() * 2 - 1;
  pbt_label("perpendicular point");
  pbt_note("perpendicular point of (%.9g %.9g) (%.9g %.9g) at %.9g", a.x, a.y, b.x, b.y, c);
  r = spline_path_perpendicular_point(a, b, c);
  o = spline_path_perpendicular_point(a, b, -c);
  double mx = (a.x + b.x) / 2, my = (a.y + b.y) / 2, w = fabs(a.x - b.x), h = fabs(a.y - b.y), scale = 1e-9 * (1 + w + h + fabs(mx) + fabs(my));
  CHECK(near_abs((r.x + o.x) / 2, mx, scale) && near_abs((r.y + o.y) / 2, my, scale), "opposite distances are not opposite: (%.9g %.9g) and (%.9g %.9g)", r.x, r.y, o.x, o.y);
  if (!w || !h) {
    CHECK(near_abs(r.x, mx, scale) && near_abs(r.y, my, scale), "(%.9g %.9g) is not the centre", r.x, r.y);
    return;
  }
  double dx = r.x - mx, dy = r.y - my;
  CHECK(fabs(dx * (b.x - a.x) + dy * (b.y - a.y)) <= 1e-9 * (1 + w * w + h * h + (w + h) * scale * 1e9), "(%.9g %.9g) is not on the perpendicular", r.x, r.y);
  if (w < 1e-3 * h || h < 1e-3 * w) return;
  double reach = fmax(fabs(dx) / (w / 2), fabs(dy) / (h / 2));
  CHECK(near_abs(reach, fabs(c), 1e-6), "(%.9g %.9g) reaches %.9g of the way to the border", r.x, r.y, reach);
  if (fabs(c) > 1e-6) CHECK((dy > 0) == ((a.y > my) == (c > 0)), "(%.9g %.9g) is on the other side", r.x, r.y);
  pbt_nontrivial();
}
static void run(void) {
  if (d_chance(3)) { perpendicular(); return; }
  n = (int)d_range(2, d_chance(30) ? MAXP : 5);
  int times = d_bool();
  curved = d_bool();
  fractional = d_chance(10);
  int big = d_chance(15), huge = d_rare(400);
  if (huge) pbt_label("long");
  X[0] = 0;
  for (int i = 1; i < n; i += 1) {
    X[i] = X[i - 1] + (double)d_range(1, huge ? 70000 / (n - 1) + 2000 : big ? 2000 : 12);
    if (fractional && i < n - 1) X[i] += d_unit() * 0.5;
  }
  length = (sp_time_t)ceil(X[n - 1]);
  X[n - 1] = length;
  int simple = d_chance(30);
  double top = times && d_chance(15) ? 4.29e9 : 1e5; /* up to the largest time value */
  for (int i = 0; i < n; i += 1) Y[i] = simple ? (double)d_range(0, 3) : times ? floor(d_unit() * top) : d_float(-1000, 1000);
  int flat = 0, falling = 0, bent = 0;
  for (int i = 0; i + 1 < n; i += 1) {
    switch (d_below(5)) {
    case 0: CV[i] = 0; break;
    case 1: CV[i] = d_bool() ? 1 : -1; break;
    default: CV[i] = d_unit() * 2 - 1;
    }
    if (fabs(CV[i]) > 1e-6 && fabs(CV[i]) < 1e-4) CV[i] = 0.01;
    if (curved && CV[i] != 0) {
      bent = 1;
      if (Y[i] == Y[i + 1]) flat = 1;
      if (Y[i] > Y[i + 1]) falling = 1;
    }
  }
  pbt_note("%s, %d points, length %u, %s:", times ? "times" : "samples", n, length, curved ? "curved" : "lines");
  for (int i = 0; i < n; i += 1) pbt_note(" (%g %g)%s", X[i], Y[i], "");
  if (curved) for (int i = 0; i + 1 < n; i += 1) pbt_note(" c%g", CV[i]);
  if (bent) pbt_label("with curvature");
  if (flat) pbt_label("flat curved segment");
  if (falling) pbt_label("falling curved segment");
  if (n > 2) pbt_nontrivial();
  mem_reset();
  sp_sample_t *x = n > 2 ? new_samples(n - 2) : 0, *y = new_samples(n), *c = curved ? new_samples(n - 1) : 0;
  for (int i = 0; i < n; i += 1) y[i] = Y[i];
  for (int i = 0; i + 2 < n; i += 1) x[i] = X[i + 1];
  for (int i = 0; c && i + 1 < n; i += 1) c[i] = CV[i];
  if (times) {
    sp_time_t* o = 0;
    CHECK_OK(sp_path_times(&o, length, n, x, y, c), "sp_path_times");
    sp_sample_t* os = new_samples(length);
    for (sp_time_t i = 0; i < length; i += 1) os[i] = o[i];
    check_samples(os, "sp_path_times", 0.5 + 1e-6);
    fixed_times(o);
    t_free(o);
  } else {
    sp_sample_t* o = 0;
    CHECK_OK(sp_path_samples(&o, length, n, x, y, c), "sp_path_samples");
    check_samples(o, "sp_path_samples", 0);
    fixed_samples(o);
    if (n == 3 && !curved) {
      sp_event_t e = {0};
      sp_sample_t* o2 = 0;
      CHECK_OK(event_path(&e, &o2), "sp_event_path_samples3");
      for (sp_time_t i = 0; i < length; i += 1) CHECK(near_rel(o[i], o2[i], 1e-12, 1e-300), "the event variant gives %g at %u instead of %g", o2[i], i, o[i]);
      sp_event_memory_free(&e);
      mem_live -= 1; /* the macro registers this file's free, which is not counted */
    }
    /* opposite curvature: mirrored at the middle of each segment */
    if (bent && !fractional) {
      sp_sample_t* m = 0;
      for (int i = 0; i + 1 < n; i += 1) c[i] = -CV[i];
      CHECK_OK(sp_path_samples(&m, length, n, x, y, c), "sp_path_samples");
      for (int i = 0; i + 1 < n; i += 1) CV[i] = -CV[i];
      check_samples(m, "sp_path_samples with opposite curvature", 0);
      t_free(m);
    }
    t_free(o);
  }
  for (int i = 0; i < n; i += 1) CHECK(y[i] == Y[i], "the y values of the caller were changed");
  for (int i = 0; i + 2 < n; i += 1) CHECK(x[i] == X[i + 1], "the x values of the caller were changed");
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
}

static const pbt_meta META = { .id = "C18", .quick = 20000, .thorough = 800000, .setup = setup_sp, .run = run,
  .rule = "2 to 24 points with increasing positions, rising, falling or equal values, curvature from -1 to 1 or none, as samples or times, general and fixed-argument variants; non-trivial: at least one inner point" };
