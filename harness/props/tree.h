/* trees of groups over recording events */
typedef struct node {
  int group, parallel, n;
  rec_t* rec; /* group: only counts registered memory */
  struct node* child[8];
  sp_time_t start, end; /* relative to the parent */
  sp_event_t event;
} node_t;
static node_t nodes[100];
static int tree_long; /* times above 16 bits */
static sp_time_t tree_ago; /* members are active this long after their groups begin */
static int nodes_n, tree_parallel, tree_groups, tree_depth, tree_cut;

static node_t* tree_leaf(int channels, int memory, int delays) {
  node_t* a = nodes + nodes_n++;
  memset(a, 0, sizeof(*a));
  a->start = d_below(24);
  a->end = a->start + (d_chance(8) ? 0 : 1 + d_below(24));
  if (a->end == 0) a->end = 1;
  if (tree_long && d_bool()) {
    sp_time_t n = d_below(70000);
    if (d_bool()) a->start += n;
    a->end += n;
  }
  if (tree_ago && d_chance(95)) {
    if (d_chance(70)) a->start += tree_ago;
    a->end += tree_ago;
  }
  a->rec = rec_new(a->start, a->end, 1 + d_below(channels));
  rec_draw(a->rec, memory);
  if (delays) a->rec->delay = d_below(4) ? 0 : d_below(6000);
  a->event = rec_event(a->rec);
  return a;
}
static node_t* tree_group(int channels, int depth, int memory, int delays, int allow_parallel) {
  node_t* a = nodes + nodes_n++;
  memset(a, 0, sizeof(*a));
  a->group = 1;
  tree_groups++;
  a->parallel = tree_parallel < allow_parallel && d_chance(40);
  if (a->parallel) tree_parallel++;
  sp_event_t* g = &a->event;
  sp_event_reset(a->event);
  if (a->parallel) {
    sp_group_parallel_event(g);
  } else {
    sp_group_event(g);
  }
  a->rec = rec_new(0, 0, 0);
  if (memory && d_chance(30)) rec_register(a->rec, g, 1 + d_below(5), 0);
  int n = d_chance(8) ? 0 : 1 + d_below(4);
  pbt_note(" (%s", a->parallel ? "parallel" : "group");
  for (int i = 0; i < n && nodes_n < 60; i++) {
    node_t* b = depth > 0 && d_chance(35) ? tree_group(channels, depth - 1, memory, delays, allow_parallel) : tree_leaf(channels, memory, delays);
    a->child[a->n++] = b;
    sp_time_t before = g->end;
    int late = !b->group && b->rec->has_prepare && b->start == 0 && b->end > 0 && d_chance(30);
    if (late) {
      /* the end is only known after prepare */
      b->rec->late_end = b->end;
      b->rec->may_prepare = 1;
      b->event.end = 0;
    }
    if (b->group && !b->event.end) b->rec->may_prepare = 1;
    if (!tree_ago && d_bool()) {
      CHECK_OK(sp_group_append(g, b->event), "sp_group_append");
      b->start += before;
      b->end += before;
      CHECK(g->end == b->end, "appending a member that ends at %u to a group that ends at %u gives the end %u", b->end - before, before, g->end);
      pbt_note(" append");
    } else {
      CHECK_OK(sp_group_add(g, b->event), "sp_group_add");
      CHECK(g->end >= b->end && g->end >= before && (g->end == b->end || g->end == before), "adding a member that ends at %u to a group that ends at %u gives the end %u", b->end, before, g->end);
      pbt_note(" add");
    }
    if (late) CHECK(b->rec->prepared == 1, "a member without end was not prepared when it was added");
    pbt_note(" %s%u..%u", late ? "late " : "", b->start, b->end);
  }
  CHECK(g->start == 0, "adding members changed the start of the group");
  a->end = g->end;
  if (a->end > 1 && d_chance(20)) {
    tree_cut = 1;
    a->end = g->end = tree_ago && a->end > 30 ? a->end - d_below(30) : 1 + d_below(a->end);
    pbt_note(" cut at %u", a->end);
  }
  if (d_chance(60)) {
    sp_time_t shift = 1 + d_below(tree_long ? 70000 : 20);
    if (a->end || a->n == 0) {
      a->start += shift;
      a->end += shift;
      if (d_bool()) *g = sp_event_schedule(*g, shift, 0, 0);
      else {
        g->start += shift;
        g->end += shift;
      }
    }
  }
  pbt_note(")");
  return a;
}
static void tree_place(node_t* a, sp_time_t base, sp_time_t cs, sp_time_t ce, int depth) {
  sp_time_t s = base + a->start, e = base + a->end;
  if (s > cs) cs = s;
  if (e < ce) ce = e;
  if (ce < cs) ce = cs;
  if (depth > tree_depth) tree_depth = depth;
  if (a->group) {
    a->rec->start = a->rec->end = a->rec->win_start = a->rec->win_end = s;
    for (int i = 0; i < a->n; i++) tree_place(a->child[i], s, cs, ce, depth + 1);
  } else {
    a->rec->start = s;
    a->rec->end = e;
    a->rec->win_start = cs;
    a->rec->win_end = ce;
  }
}
static void tree_begin(void) {
  tree_ago = 0;
  nodes_n = tree_parallel = tree_groups = tree_depth = tree_cut = 0;
}
static void tree_draw_ago(sp_time_t base) {
  if (!d_chance(10)) return;
  pbt_label("members active long after their group begins");
  static const sp_time_t at[] = {65000, 16777000, 2147483000u};
  int k = d_below(4);
  tree_ago = k < 3 ? at[k] + d_below(1000) : d_below(4000000000u);
  /* all times fit */
  if (tree_ago > 4200000000u - base) tree_ago = 4200000000u - base;
}
