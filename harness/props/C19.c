/* spline paths read in pieces */
#include "path.h"
enum { MOVE, LINE, CONST, BEZ1, BEZ2, ARC, PATH };
static const char* names[] = {"move", "line", "constant", "bezier1", "bezier2", "arc", "path"};
typedef struct { int kind; pnt p[4]; int n; double c; } seg;
typedef struct { seg s[8]; int n; spline_path_segment_t segs[8], raw[8]; spline_path_t path; double end; } pth;
static pth paths[2];
static int nested;
static size_t base; /* a move or line to here comes first */

static double d_y(void) { return d_chance(40) ? (double)d_range(0, 9) : d_float(-100, 100); }

static void make(int index, int depth, int big) {
  pth* P = paths + index;
  double x = 0, y = 0;
  P->n = (int)d_range(1, big > 2 ? 2 : depth ? 4 : 7);
  pbt_note("[");
  for (int i = 0; i < P->n; i += 1) {
    seg* s = P->s + i;
    int last = i == P->n - 1;
    int k = (int)d_below(last ? 7 : 6);
    static const int kinds[] = {LINE, BEZ1, ARC, BEZ2, MOVE, PATH, CONST};
    s->kind = kinds[k];
    if (base && !depth && i == 0) s->kind = d_bool() ? MOVE : LINE;
    if (s->kind == PATH && (depth || nested)) s->kind = LINE; /* at most one nested path */
    double w = (double)d_range(d_chance(10) ? 0 : 1, big > 2 ? 150000 : big > 1 ? 40000 : big ? 600 : 12);
    if (base && !depth && i == 0) w = (double)base;
    if (w == 0 && s->kind != MOVE && s->kind != LINE) w = 1;
    s->p[0] = (pnt){x, y};
    s->n = 2;
    s->p[1] = (pnt){x + w, d_y()};
    switch (s->kind) {
    case MOVE:
      P->segs[i] = spline_path_move(s->p[1].x, s->p[1].y);
      break;
    case LINE:
      P->segs[i] = spline_path_line(s->p[1].x, s->p[1].y);
      break;
    case CONST:
      P->segs[i] = spline_path_constant();
      s->p[1] = s->p[0];
      break;
    case BEZ1:
      s->n = 3;
      s->p[2] = s->p[1];
      s->p[1] = (pnt){x + w * d_unit(), d_y()};
      P->segs[i] = spline_path_bezier1(s->p[1].x, s->p[1].y, s->p[2].x, s->p[2].y);
      break;
    case BEZ2:
      s->n = 4;
      s->p[3] = s->p[1];
      s->p[1] = (pnt){x + w * d_unit(), d_y()};
      s->p[2] = (pnt){x + w * d_unit(), d_y()};
      P->segs[i] = spline_path_bezier2(s->p[1].x, s->p[1].y, s->p[2].x, s->p[2].y, s->p[3].x, s->p[3].y);
      break;
    case ARC:
      s->n = 3;
      s->c = d_chance(25) ? 1 : d_chance(25) ? -1 : d_unit() * 2 - 1;
      s->p[2] = s->p[1];
      s->p[1] = arc_control(s->p[0], s->p[2], s->c);
      if (s->c == 0) s->n = 2, s->p[1] = s->p[2], s->kind = LINE;
      P->segs[i] = spline_path_bezier_arc(s->p[s->n - 1].x, s->p[s->n - 1].y, s->c);
      break;
    case PATH:
      nested = 1;
      make(1, depth + 1, big);
      P->segs[i] = spline_path_path(paths[1].path);
      s->p[1] = (pnt){x + paths[1].end, paths[1].s[paths[1].n - 1].p[paths[1].s[paths[1].n - 1].n - 1].y};
      break;
    }
    pbt_note("%s%s to (%g %g)", i ? ", " : "", names[s->kind], s->p[s->n - 1].x, s->p[s->n - 1].y);
    pbt_label(names[s->kind]);
    x = s->p[s->n - 1].x;
    y = s->p[s->n - 1].y;
  }
  P->end = x;
  pbt_note("]");
  memcpy(P->raw, P->segs, sizeof P->raw); /* segments are given to a path once */
  CHECK(!spline_path_set(&P->path, P->segs, P->n), "spline_path_set failed");
}
/* expected value range at k */
static void expect(pth* P, size_t k, double* lo, double* hi) {
  for (int i = 0; i < P->n; i += 1) {
    seg* s = P->s + i;
    double x0 = s->p[0].x, x1 = s->p[s->n - 1].x;
    if (s->kind == CONST) {
      if (k >= x0) { *lo = *hi = s->p[0].y; return; }
      continue;
    }
    if (k < x0 || k >= x1) continue;
    switch (s->kind) {
    case MOVE: *lo = *hi = 0; return;
    case LINE: bez_hull(s->p, 2, k, 0, lo, hi); return;
    case BEZ1: case ARC: bez_hull(s->p, 3, k, 0.501, lo, hi); return;
    case BEZ2: bez_hull(s->p, 4, k, 1.01, lo, hi); return;
    case PATH: expect(paths + 1, k - (size_t)x0, lo, hi); return;
    }
  }
  *lo = *hi = 0;
}

static void run(void) {
  memset(paths, 0, sizeof paths);
  int big = d_rare(250) ? 2 + d_chance(30) : d_chance(15);
  if (big > 1) pbt_label("long");
  nested = 0;
  mem_reset();
  pth* P = paths;
  base = d_chance(12) ? ((size_t)1 << d_range(15, 36)) + d_below(5) - 2 : 0;
  if (base) pbt_label("far from the beginning");
  make(0, 0, big);
  spline_path_segment_t* copy = 0;
  if (d_chance(25)) {
    CHECK(!spline_path_set_copy(&P->path, P->raw, P->n), "spline_path_set_copy failed");
    copy = P->path.segments;
    pbt_note(" copied");
  }
  int has_const = P->s[P->n - 1].kind == CONST;
  size_t size = (size_t)P->end;
  /* what is read begins at o */
  size_t o = base ? base - d_below(20) : 0;
  size_t total = size - o + (has_const || d_chance(30) ? d_below(8) : 0);
  if (total == 0) total = 1;
  CHECK(spline_path_size(P->path) == size, "spline_path_size is %zu instead of %zu", spline_path_size(P->path), size);
  spline_path_point_t pe = spline_path_end(P->path), ps = spline_path_start(P->path);
  CHECK(ps.x == 0 && ps.y == 0, "spline_path_start is (%g %g)", ps.x, ps.y);
  seg* ls = P->s + P->n - 1;
  CHECK(pe.x == P->end && near_rel(pe.y, ls->p[ls->n - 1].y, 1e-12, 1e-12), "spline_path_end is (%g %g)", pe.x, pe.y);
  double *lo = new_samples(total), *hi = new_samples(total), *first = new_samples(total);
  u8* seen = calloc(total, 1);
  for (size_t k = 0; k < total; k += 1) expect(P, o + k, lo + k, hi + k);
  int reads = (int)d_range(1, 8), back = 0, rep = 0;
  size_t prev_start = 0, prev_end = 0;
  pbt_note(" reads");
  for (int r = 0; r < reads; r += 1) {
    size_t a, b;
    switch (d_below(5)) {
    case 0: a = 0, b = total; break;
    case 1: a = r ? prev_end : 0, b = total; break;
    case 2: a = prev_start, b = prev_end; break;
    default: a = d_below(total), b = a + 1 + d_below(total - a);
    }
    if (a >= total) a = 0;
    if (b <= a) b = a + 1;
    if (r && a < prev_end) back = 1;
    if (r && a == prev_start) rep = 1;
    prev_start = a;
    prev_end = b;
    pbt_note(" %zu-%zu", o + a, o + b);
    double* out = zero_samples(b - a);
    if (r == 0 && copy == 0 && !nested && d_chance(20)) {
      /* create the array directly from segments */
      spline_path_segment_t* t = new_array(spline_path_segment_t, P->n);
      memcpy(t, P->raw, P->n * sizeof(*t));
      CHECK(!spline_path_segments_get(t, P->n, o + a, o + b, out), "spline_path_segments_get failed");
      pbt_note("(segments)");
    } else spline_path_get(&P->path, o + a, o + b, out);
    for (size_t k = a; k < b; k += 1) {
      double v = out[k - a];
      CHECK(v >= lo[k] && v <= hi[k], "read %d (%zu to %zu) gives %.12g at %zu, expected %.12g to %.12g", r, o + a, o + b, v, o + k, lo[k], hi[k]);
      if (seen[k]) CHECK(near_rel(v, first[k], 1e-9, 1e-12), "read %d (%zu to %zu) gives %.12g at %zu, an earlier read gave %.12g", r, o + a, o + b, v, o + k, first[k]);
      seen[k] = 1;
      first[k] = v;
    }
  }
  free(seen);
  if (back) pbt_label("backward or overlapping read");
  if (rep) pbt_label("repeated start");
  if (nested) pbt_label("nested path");
  if (P->n > 1 && reads > 1) pbt_nontrivial();
  spline_path_free(P->path);
  if (copy) t_free(copy);
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
}

static const pbt_meta META = { .id = "C19", .quick = 70000, .thorough = 2000000, .setup = setup_sp, .run = run,
  .rule = "1 to 7 segments (moves, lines, constants at the end, curves with one or two control points, arcs, a nested path) and 1 to 8 reads of any ranges in any order, set in place, copied or read directly; non-trivial: several segments and several reads" };
