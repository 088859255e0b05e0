/* event lists: content, order, links, removal, scheduling */
#include "seq.h"
typedef struct { int id; sp_time_t start, end; int present; int freed; } item_t;
enum { MOST = 1000 };
static item_t items[MOST];
static void item_free(sp_event_t* e) {
  item_t* a = e->config;
  a->freed++;
  e->free = 0;
}
static void check_all(sp_event_list_t* list, int n, int count, int sorted, const char* what) {
  list_check(list, count);
  static char seen[MOST];
  memset(seen, 0, sizeof seen);
  sp_time_t last = 0;
  for (sp_event_list_t* a = list; a; a = a->next) {
    item_t* x = a->event.config;
    CHECK(x >= items && x < items + n, "%s: an element does not hold an added event", what);
    CHECK(a->event.start == x->start && a->event.end == x->end, "%s: event %d has changed its times", what, x->id);
    CHECK(x->present && !seen[x->id], "%s: event %d should not be in the list%s", what, x->id, seen[x->id] ? " twice" : "");
    seen[x->id] = 1;
    if (sorted && a->previous) CHECK(a->event.start >= last, "%s: start %u after %u", what, a->event.start, last);
    last = a->event.start;
  }
}
static void run(void) {
  int n = d_rare(8000) ? (int)d_mid() : d_below(14), prepared_early = 0;
  sp_event_list_t* list = 0;
  sp_time_t span = 1 + d_below(d_bool() ? 12 : 400);
  if (d_chance(5)) span = 4000000000u;
  int style = d_below(4);
  pbt_note("starts:");
  int count = 0, removed = 0;
  for (int i = 0; i < n; i++) {
    item_t* x = items + i;
    x->id = i;
    x->start = style == 1 ? i * 3 : style == 2 ? (n - i) * 3 : d_below(span);
    x->end = x->start + 1 + d_below(20);
    x->present = 1;
    x->freed = 0;
    sp_declare_event(e);
    e.start = x->start;
    e.end = x->end;
    e.generate = rec_generate;
    e.config = x;
    e.free = item_free;
    sp_event_t keep = e;
    if (d_chance(30)) {
      /* scheduling */
      sp_time_t onset = d_below(50), duration = d_below(50);
      item_t* c2 = d_bool() ? x : 0;
      if (c2) e.config = 0;
      sp_event_t s = sp_event_schedule(e, onset, duration, c2);
      CHECK(e.start == keep.start && e.end == keep.end, "sp_event_schedule changed the original");
      CHECK(s.start == keep.start + onset && s.end == keep.end + onset + duration, "sp_event_schedule(%u..%u, %u, %u) gives %u..%u", keep.start, keep.end, onset, duration, s.start, s.end);
      CHECK(s.config == x && s.generate == keep.generate && s.free == keep.free && s.prepare == keep.prepare && s.memory.data == keep.memory.data, "sp_event_schedule lost a field");
      x->start = s.start;
      x->end = s.end;
      e = s;
    }
    pbt_note(" %u", x->start);
    CHECK_OK(sp_event_list_add(&list, e), "sp_event_list_add");
    count++;
    check_all(list, i + 1, count, 0, "after adding");
    if (sp_event_list_remove && d_chance(8)) {
      /* removal from an unprepared list */
      sp_event_list_t* a = list;
      for (int k = d_below(count); k > 0; k--) a = a->next;
      item_t* y = a->event.config;
      sp_event_list_remove(&list, a);
      y->present = 0;
      count--;
      removed++;
      pbt_note(" -%d", y->id);
      CHECK(y->freed == 1, "removing event %d called free %d times", y->id, y->freed);
      check_all(list, i + 1, count, 0, "after removing from the unprepared list");
    }
  }
  if (d_chance(20)) {
    /* reversing twice gives the same list */
    sp_event_list_t* order[MOST];
    int m = 0;
    for (sp_event_list_t* b = list; b; b = b->next) order[m++] = b;
    sp_event_list_reverse(&list);
    check_all(list, n, count, 1, "after reversing");
    for (sp_event_list_t* b = list; b; b = b->next) CHECK(b == order[--m], "reversing does not give the opposite order");
    sp_event_list_reverse(&list);
    check_all(list, n, count, 0, "after reversing twice");
    for (sp_event_list_t* b = list; b; b = b->next) CHECK(b == order[m++], "reversing twice does not give the same order");
    pbt_label("reversed twice");
  }
  sp_seq_events_prepare(&list);
  check_all(list, n, count, 1, "after preparing");
  if (d_chance(20)) {
    /* valid lists are not rejected: this would end the process. one line for each event */
    sp_event_list_validate(list);
    size_t length;
    out_capture();
    sp_event_list_display(list);
    char *text = out_text(&length), *t = text;
    for (sp_event_list_t* b = list; b; b = b->next) {
      char *end = strchr(t, '\n'), *w = 0, *p;
      CHECK(end, "a line for each event should be displayed");
      u64 number[8] = { 0 };
      int numbers = 0;
      for (*end = 0, p = t; (w = strpbrk(p, "0123456789")) && numbers < 8; numbers++) number[numbers] = strtoull(w, &p, 10);
      CHECK(numbers >= 2 && number[numbers - 2] == b->event.start && number[numbers - 1] == b->event.end, "event %u..%u is displayed as %s", b->event.start, b->event.end, t);
      t = end + 1;
    }
    CHECK(t == text + length, "more lines than events are displayed");
    pbt_label("validated and displayed");
  }
  pbt_note(" prepared");
  while (sp_event_list_remove && count && d_chance(85)) {
    sp_event_list_t* a = list;
    for (int k = d_below(count); k > 0; k--) a = a->next;
    item_t* y = a->event.config;
    sp_event_list_t* order[MOST];
    int m = 0;
    for (sp_event_list_t* b = list; b; b = b->next)
      if (b != a) order[m++] = b;
    sp_event_list_remove(&list, a);
    y->present = 0;
    count--;
    removed++;
    pbt_note(" -%d", y->id);
    CHECK(y->freed == 1, "removing event %d called free %d times", y->id, y->freed);
    check_all(list, n, count, 1, "after removing");
    m = 0;
    for (sp_event_list_t* b = list; b; b = b->next) CHECK(order[m++] == b, "removing changed the order of other elements");
  }
  sp_event_list_free(&list);
  CHECK(!list, "list not empty after freeing");
  for (int i = 0; i < n; i++) CHECK(items[i].freed == 1, "event %d was freed %d times", i, items[i].freed);
  CHECK(mem_live == 0, "%ld allocations remain", mem_live);
  if (!n) pbt_label("empty list");
  if (removed) pbt_label("removals");
  if (n >= 3 && removed) pbt_nontrivial();
}
static const pbt_meta META = { .id = "C05", .quick = 3000000, .thorough = 30000000, .setup = setup_sp, .run = run,
  .rule = "three or more events and at least one removal" };
