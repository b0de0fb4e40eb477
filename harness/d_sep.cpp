// C29: threads which work on unrelated values, texts, files and objects. Every task is a function of a seed which touches only what it makes; its
// results are written down as a text. Each task is run alone and among others in several threads; the texts must be the same. Race detector.
// LINK: -Wl,--wrap=nanosleep
#include "ops.hpp"
#include "textgen.hpp"
#include "iot/base64.h"
#include "iot/component.h"
#include "iot/config.h"
#include "iot/container.h"
#include "iot/file.h"
#include "iot/hash.h"
#include "iot/json.h"
#include "iot/logger.h"
#include "iot/queue.h"
#include "iot/scheduler.h"
#include "iot/store.h"
#include "iot/thread.h"
#include "iot/threadpool.h"
#include "iot/util.h"
#include "iot/uuid.h"
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <sys/stat.h>
typedef std::string Str;
// a pool being freed looks every fifth of a second whether its threads have gone: let it look more often
extern "C" { int __real_nanosleep (const struct timespec *, struct timespec *); int __wrap_nanosleep (const struct timespec * t, struct timespec * rem) { struct timespec s { 0, 2000000 }; return __real_nanosleep (t->tv_sec || t->tv_nsec > 2000000 ? &s : t, rem); } }
struct Out { Str s; void add (const Str & x) { s += x; s += '\n'; } void num (long long x) { add (std::to_string (x)); } void val (const iot_data_t * d) { add (d ? vshow (snapshot (d)) : Str ("none")); } void text (char * t) { add (t ? Str (t) : Str ("none")); free (t); } };
static GenOpt g_opt (Rng & r) { GenOpt o; o.inf = true; o.holes = true; o.width = 4; o.depth = 1 + (unsigned) r.below (3); o.neg_zero = false; o.pointers = false; o.long_strings = r.chance (1, 8); return o; }
static void t_value (Rng & r, Out & o)
{
  GenOpt g = g_opt (r); V v = gen_value (r, g), w = r.chance (1, 2) ? mutate_value (r, g, v) : gen_value (r, g); iot_data_t * d = build_random (v, r), * e = build (w);
  o.text (iot_data_to_json (d)); o.text (iot_data_to_json_with_size (e, 1 + (uint32_t) r.below (100))); { char * b = (char *) malloc (64); o.text (iot_data_to_json_with_buffer (d, b, 64)); }
  for (iot_data_t * x : { d, e }) { iot_data_t * c = r.chance (1, 2) ? iot_data_to_cbor (x) : iot_data_to_cbor_with_size (x, 1 + (uint32_t) r.below (50)); o.val (c); if (c) iot_data_free (c); o.num (iot_data_hash (x)); o.add (iot_data_type_name (x)); o.num (iot_data_length (x)); }
  o.num (iot_data_compare (d, e) < 0); o.num (iot_data_compare_value (d, e) < 0); o.num (iot_data_equal (d, e)); o.num (iot_data_equal_value (d, e));
  iot_typecode_t tc; iot_data_typecode (d, &tc); o.num (tc.type * 10000 + tc.element_type * 100 + tc.key_type); o.num (iot_data_matches (e, &tc));
  iot_data_t * c = r.chance (1, 2) ? iot_data_copy (d) : iot_data_shallow_copy (d); o.val (c); o.num (iot_data_equal (c, d)); iot_data_free (c);
  if (r.chance (1, 2)) { if (r.chance (1, 2)) iot_data_compress (e); else { iot_data_t * k = iot_data_alloc_typed_map (IOT_DATA_STRING, IOT_DATA_STRING); iot_data_t * k2 = iot_data_alloc_map (IOT_DATA_MULTI); iot_data_free (k); iot_data_compress_with_cache (e, k2); iot_data_free (k2); } o.val (e); }
  if (iot_data_type (d) == IOT_DATA_VECTOR) { uint32_t n = 0; iot_data_t * dim = iot_data_vector_dimensions (d, &n); o.num (n); o.val (dim); iot_data_free (dim); static const iot_data_type_t T[] = { IOT_DATA_INT8, IOT_DATA_UINT64, IOT_DATA_FLOAT32, IOT_DATA_FLOAT64, IOT_DATA_STRING }; iot_data_type_t t = r.pick (T); o.num (iot_data_vector_element_count (d, t, true)); if (t != IOT_DATA_STRING) { iot_data_t * a = iot_data_vector_to_array (d, t, true); o.val (a); iot_data_free (a); } a_again: { iot_data_t * a = iot_data_vector_to_vector (d, t, r.chance (1, 2)); o.val (a); iot_data_free (a); } if (false) goto a_again; }
  if (iot_data_type (d) == IOT_DATA_ARRAY) { iot_data_t * a = iot_data_array_transform (d, IOT_DATA_FLOAT64); o.val (a); iot_data_free (a); }
  iot_data_free (d); iot_data_free (e);
}
static void t_json (Rng & r, Out & o)
{
  Str t = tg::any (r, 0); if (t.size () > 20000) t.resize (20000); iot_data_t * cache = r.chance (1, 3) ? iot_data_alloc_typed_map (IOT_DATA_STRING, IOT_DATA_STRING) : NULL; bool ord = r.chance (1, 2);
  iot_data_t * d = cache ? iot_data_from_json_with_cache (t.c_str (), ord, cache) : r.chance (1, 2) ? iot_data_from_json (t.c_str ()) : iot_data_from_json_with_ordering (t.c_str (), ord); o.val (d); if (d) { o.text (iot_data_to_json (d)); iot_data_free (d); } if (cache) { o.num (iot_data_map_size (cache)); iot_data_free (cache); }
  iot_json_tok_t tok[40]; iot_json_parser p; iot_json_init (&p); size_t n = strlen (t.c_str ()); int k = iot_json_parse (&p, t.c_str (), n, tok, 40); o.num (k); for (int z = 0; z < k && z < 40; z++) o.num (tok[z].start * 1000 + tok[z].end * 10 + tok[z].type);
}
static void t_xml (Rng & r, Out & o) { Str t = tg::any (r, 1); if (t.size () > 8000) t.resize (8000); iot_data_t * d = iot_data_from_xml (t.c_str ()); o.val (d); if (d) iot_data_free (d); }
static void t_yaml (Rng & r, Out & o) { Str t = tg::any (r, 2); if (t.size () > 8000) t.resize (8000); iot_data_t * ex = NULL, * d = iot_data_from_yaml (t.c_str (), &ex); o.val (d); o.val (ex); if (d) iot_data_free (d); if (ex) iot_data_free (ex); }
static void t_b64 (Rng & r, Out & o)
{
  Str raw; for (size_t n = r.below (200); n--;) raw += (char) r.next (); std::vector<char> e (iot_b64_encodesize (raw.size ())); o.num (iot_b64_encode (raw.data (), raw.size (), e.data (), e.size ())); Str t = e.data (); o.add (t);
  if (r.chance (1, 2)) t = tg::any (r, 3); std::vector<uint8_t> b (iot_b64_maxdecodesize (t.c_str ()) + 1); size_t n = b.size (); bool ok = iot_b64_decode (t.c_str (), b.data (), &n); o.num (ok); if (ok) o.add (Str ((char *) b.data (), n));
  iot_data_t * a = iot_data_alloc_array_from_base64 (t.c_str ()); o.val (a); if (a) iot_data_free (a);
  iot_data_t * bin = iot_data_alloc_binary ((void *) raw.data (), (uint32_t) raw.size (), IOT_DATA_REF), * s = iot_data_string_from_binary (bin), * back = s ? iot_data_binary_from_string (s) : NULL; o.val (s); o.val (back); if (back) iot_data_free (back); if (s) iot_data_free (s); iot_data_free (bin);
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING), * k = iot_data_alloc_string ("bytes", IOT_DATA_REF); iot_data_map_add (m, iot_data_add_ref (k), iot_data_alloc_string (t.c_str (), IOT_DATA_COPY)); o.num (iot_data_map_base64_to_array (m, k)); o.val (m); iot_data_free (k); iot_data_free (m);
  o.num (iot_hash (t.c_str ())); o.num (iot_hash_data ((const uint8_t *) raw.data (), raw.size ()));
}
static void t_num (Rng & r, Out & o)
{
  for (unsigned n = 12; n--;)
  {
    iot_data_type_t t = (iot_data_type_t) r.below (IOT_DATA_BOOL + 2); Str s = r.chance (2, 3) ? tg::number (r) : tg::any (r, 4); if (s.size () > 500) s.resize (500); if (!s.c_str ()[0]) s = "0"; iot_data_t * d = r.chance (1, 2) ? iot_data_alloc_from_string (t, s.c_str ()) : iot_data_alloc_from_strings (iot_data_type_string (t), s.c_str ()); o.val (d); if (!d) continue;
    if (t <= IOT_DATA_FLOAT64) for (int c = 0; c <= IOT_DATA_FLOAT64; c++) { uint64_t x = 0; bool ok = iot_data_cast (d, (iot_data_type_t) c, &x); o.num (ok); if (ok) o.num ((long long) x); }
    if (t < IOT_DATA_FLOAT32) { if (r.chance (1, 2)) iot_data_increment (d); else iot_data_decrement (d); o.val (d); }
    iot_data_free (d);
  }
  iot_data_t * f = iot_data_alloc_string_fmt ("%d %s %.3f", (int) r.below (1000), tg::word (r).c_str (), 1.5 * (double) r.below (100)); o.val (f); iot_data_free (f);
}
static void t_config (Rng & r, Out & o)
{
  iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); GenOpt g = g_opt (r); g.depth = 1; static const char * K[] = { "a", "b", "c", "d" };
  for (const char * k : K) if (r.chance (4, 5)) { if (r.chance (1, 2)) iot_data_string_map_add (m, k, iot_data_alloc_string (tg::any (r, 5).substr (0, 600).c_str (), IOT_DATA_COPY)); else iot_data_string_map_add (m, k, build (gen_value (r, g, 1))); }
  for (const char * k : K)
  {
    int64_t i = 0; uint64_t u = 0; int32_t j = 0; uint32_t w = 0; double f = 0; bool b = false; o.num (iot_config_i64 (m, k, &i, NULL)); o.num (i); o.num (iot_config_ui64 (m, k, &u, NULL)); o.num ((long long) u); o.num (iot_config_i32 (m, k, &j, NULL)); o.num (j); o.num (iot_config_ui32 (m, k, &w, NULL)); o.num (w); o.num (iot_config_f64 (m, k, &f, NULL)); o.add (std::to_string (f)); o.num (iot_config_bool (m, k, &b, NULL)); o.num (b);
    const char * s = iot_config_string (m, k, false, NULL); o.add (s ? s : "none"); s = iot_config_string (m, k, true, NULL); o.text ((char *) s); s = iot_config_string_default (m, k, "default", true); o.text ((char *) s); s = iot_config_string_default (m, k, "default", false); o.add (s ? s : "none"); o.val (iot_config_map (m, k, NULL)); o.val (iot_config_vector (m, k, NULL));
  }
  o.text (iot_config_substitute_env (tg::any (r, 5).substr (0, 600).c_str (), NULL)); iot_data_free (m);
}
static bool eq_cb (const iot_data_t * d, const void * a) { return iot_data_equal (d, (const iot_data_t *) a); }
static iot_data_t * up_cb (const iot_data_t * d, void * a) { (*(unsigned *) a)++; iot_data_t * l = iot_data_alloc_list (); if (d) iot_data_list_tail_push (l, iot_data_add_ref (d)); return l; }
static void t_hist (Rng & r, Out & o)
{
  GenOpt g = g_opt (r); g.depth = 1; iot_data_t * m = iot_data_alloc_map (IOT_DATA_UINT32), * l = iot_data_alloc_list (), * v = iot_data_alloc_vector (4); unsigned ups = 0;
  for (unsigned n = 30; n--;)
  {
    uint32_t key = (uint32_t) r.below (12); iot_data_t * k = iot_data_alloc_ui32 (key);
    switch (r.below (9))
    {
      case 0: case 1: iot_data_map_add (m, iot_data_add_ref (k), build (gen_value (r, g, 1))); break;
      case 2: o.num (iot_data_map_remove (m, k)); break;
      case 3: o.val (iot_data_map_get (m, k)); break;
      case 4: if (r.chance (1, 2)) iot_data_list_head_push (l, build (gen_value (r, g, 1))); else iot_data_list_tail_push (l, iot_data_add_ref (k)); break;
      case 5: { iot_data_t * x = r.chance (1, 2) ? iot_data_list_head_pop (l) : iot_data_list_tail_pop (l); o.val (x); if (x) iot_data_free (x); break; }
      case 6: o.num (iot_data_list_find (l, eq_cb, k) != NULL); o.num (iot_data_list_remove (l, eq_cb, k)); break;
      case 7: iot_data_vector_add (v, key % iot_data_vector_size (v), build (gen_value (r, g, 1))); if (r.chance (1, 3)) iot_data_vector_resize (v, 1 + (uint32_t) r.below (9)); break;
      default: { iot_data_t * p = iot_data_alloc_list (); iot_data_list_tail_push (p, iot_data_add_ref (k)); o.val (iot_data_get_at (m, p)); iot_data_t * z = r.chance (1, 3) ? iot_data_update_at (m, p, up_cb, &ups) : r.chance (1, 2) ? iot_data_add_at (m, p, iot_data_alloc_bool (true)) : iot_data_remove_at (m, p); o.val (z); if (z) iot_data_free (z); iot_data_free (p); }
    }
    iot_data_free (k);
  }
  o.num (iot_data_vector_compact (v)); o.val (m); o.val (l); o.val (v); o.num (ups);
  { iot_data_map_iter_t it; iot_data_map_iter (m, &it); while (iot_data_map_iter_prev (&it)) o.num (iot_data_ui32 (iot_data_map_iter_key (&it))); }
  iot_data_free (m); iot_data_free (l); iot_data_free (v);
}
static void t_file (Rng & r, Out & o)
{
  char nm[40]; snprintf (nm, sizeof nm, "s%016lx", (unsigned long) r.next ()); Str name = nm; Str data; for (size_t n = r.below (3000); n--;) data += (char) (1 + r.below (255)); Str uri = "stored";
  o.num (iot_store_config_save (name.c_str (), uri.c_str (), data.c_str ())); o.text (iot_store_config_load (name.c_str (), uri.c_str ()));
  Str p = uri + "/" + name + ".bin"; o.num (iot_store_write_binary (p.c_str (), (const uint8_t *) data.data (), data.size ())); size_t len = 0; uint8_t * b = r.chance (1, 2) ? iot_store_read_binary (p.c_str (), &len) : iot_file_read_binary (p.c_str (), &len); o.num ((long long) len); if (b) o.add (Str ((char *) b, len)); free (b);
  iot_data_t * ls = iot_file_list (uri.c_str (), ("^" + name + "\\.").c_str ()); o.num (iot_data_list_length (ls)); iot_data_free (ls);
  if (r.chance (1, 2)) { iot_data_t * cl = iot_store_config_list (uri.c_str ()); iot_data_t * k = iot_data_alloc_string (name.c_str (), IOT_DATA_REF); o.num (cl && iot_data_list_find (cl, eq_cb, k) != NULL); iot_data_free (k); if (cl) iot_data_free (cl); }
  o.num (iot_store_config_delete (name.c_str (), uri.c_str ())); o.num (iot_store_delete (p.c_str ())); char * gone = iot_store_config_load (name.c_str (), uri.c_str ()); o.num (gone == NULL); free (gone);
}
static void t_uuid (Rng & r, Out & o)
{
  iot_uuid_t u; for (auto & x : u) x = (uint8_t) r.next (); char b[64]; memset (b, 0, sizeof b); iot_uuid_unparse (u, b); o.add (b); o.num (iot_util_string_is_uuid (b)); b[r.below (36)] = 'g'; o.num (iot_util_string_is_uuid (b));
  iot_data_t * d = iot_data_alloc_uuid_string (); o.num (iot_util_string_is_uuid (iot_data_string (d))); iot_data_free (d); iot_uuid_generate (u); memset (b, 0, sizeof b); iot_uuid_unparse (u, b); o.num (iot_util_string_is_uuid (b));
  for (int t = 0; t <= IOT_DATA_MULTI; t++) { const char * n = iot_data_type_string ((iot_data_type_t) t); o.add (n ? n : "none"); if (n) o.num (iot_data_name_type (n)); o.num (iot_data_type_size ((iot_data_type_t) t)); }
}
static void t_queue (Rng & r, Out & o)
{
  iot_queue_t * q = iot_queue_alloc ((uint32_t) r.below (6));
  for (unsigned n = 30; n--;) switch (r.below (4)) { case 0: case 1: { iot_data_t * e = iot_data_alloc_ui32 (n); bool ok = iot_queue_try_enqueue (q, e); o.num (ok); if (!ok) iot_data_free (e); break; } case 2: { iot_data_t * e = iot_queue_try_dequeue (q); o.val (e); if (e) iot_data_free (e); break; } default: o.num (iot_queue_size (q)); if (r.chance (1, 4)) iot_queue_setmaxsize (q, (uint32_t) r.below (6)); o.num (iot_queue_maxsize (q)); }
  iot_queue_stop (q); iot_queue_free (q);
}
struct LogCtx { Out * o; };
static void l_sink (iot_logger_t *, iot_loglevel_t level, uint64_t, const char * msg, const void * c) { ((LogCtx *) c)->o->add (std::to_string (level) + "|" + msg); }
static void t_log (Rng & r, Out & o)
{
  LogCtx c { &o }; iot_logger_t * next = r.chance (1, 2) ? iot_logger_alloc_custom ("next", IOT_LOG_WARN, true, NULL, l_sink, &c, NULL) : NULL, * l = iot_logger_alloc_custom (tg::word (r).substr (0, 40).c_str (), IOT_LOG_INFO, true, next, l_sink, &c, NULL);
  for (unsigned n = 10; n--;) { if (r.chance (1, 6)) iot_logger_set_level (l, (iot_loglevel_t) r.below (6)); Str s = tg::word (r).substr (0, 300); iot_log_info (l, "%s %u", s.c_str (), n); iot_log_error (l, "%u%%", n); iot_log_trace (l, "trace"); }
  iot_logger_free (l); if (next) iot_logger_free (next);
}
struct PoolCtx { std::atomic<unsigned> n {0}; };
static void * job (void * p) { ((PoolCtx *) p)->n++; return NULL; }
static void t_pool (Rng & r, Out & o)
{
  PoolCtx c; iot_threadpool_t * p = iot_threadpool_alloc ((uint16_t) r.range (1, 3), 0, -1, -1, NULL); iot_threadpool_start (p); unsigned n = (unsigned) r.below (20); for (unsigned k = 0; k < n; k++) iot_threadpool_add_work (p, job, &c, IOT_THREAD_NO_PRIORITY); iot_threadpool_wait (p); o.num (c.n == n); iot_threadpool_stop (p); iot_threadpool_free (p);
}
static void * s_job (void * p) { ((PoolCtx *) p)->n++; return NULL; }
static void t_sched (Rng & r, Out & o)
{
  PoolCtx c; iot_scheduler_t * s = iot_scheduler_alloc (IOT_THREAD_NO_PRIORITY, IOT_THREAD_NO_AFFINITY, NULL); uint64_t n = r.range (1, 4); iot_schedule_t * x = iot_schedule_create (s, s_job, NULL, &c, 1000, 0, n, NULL, IOT_THREAD_NO_PRIORITY); iot_schedule_set_sync (x, true); o.num (iot_schedule_add (s, x)); iot_scheduler_start (s); for (unsigned k = 0; k < 20000 && c.n < n; k++) usleep (500); o.num (c.n); usleep (2000); o.num (c.n); iot_scheduler_stop (s); iot_schedule_delete (s, x); iot_scheduler_free (s);
}
struct Comp { iot_component_t c; };
static void c_start (iot_component_t * c) { iot_component_set_running (c); } static void c_stop (iot_component_t * c) { iot_component_set_stopped (c); }
static iot_component_t * c_make (iot_container_t *, const iot_data_t * m);
static void c_free (iot_component_t * c) { iot_component_fini (c); free (c); }
static iot_component_factory_t g_fac = { "Sep::Node", IOT_CATEGORY_USER, c_make, c_free, NULL, NULL };
static iot_component_t * c_make (iot_container_t *, const iot_data_t *) { Comp * c = (Comp *) calloc (1, sizeof *c); iot_component_init (&c->c, &g_fac, c_start, c_stop); return &c->c; }
static void t_cont (Rng & r, Out & o)
{
  char nm[40]; snprintf (nm, sizeof nm, "cont%016lx", (unsigned long) r.next ()); iot_container_t * c = iot_container_alloc (nm); VH_CHECK (c, "sep-container", "no container with a name never used"); unsigned n = (unsigned) r.below (5);
  for (unsigned k = 0; k < n; k++) { Str cn = "n" + std::to_string (k); iot_container_add_component (c, "Sep::Node", cn.c_str (), ("{\"k\":" + std::to_string (k) + "}").c_str ()); }
  iot_container_start (c); if (n && r.chance (1, 2)) iot_container_delete_component (c, "n0"); for (unsigned k = 0; k < 5; k++) { Str cn = "n" + std::to_string (k); iot_data_t * d = iot_container_component_read (c, cn.c_str ()); o.val (d); if (d) iot_data_free (d); o.num (iot_container_find_component (c, cn.c_str ()) != NULL); }
  iot_data_t * ls = iot_container_list_components (c, NULL); o.num (ls ? iot_data_length (ls) : 0); if (ls) iot_data_free (ls); iot_container_stop (c); iot_container_free (c);
}
struct Task { const char * name; void (* fn) (Rng &, Out &); unsigned weight; };
static const Task TASKS[] = { { "values", t_value, 6 }, { "json", t_json, 4 }, { "xml", t_xml, 3 }, { "yaml", t_yaml, 3 }, { "base64", t_b64, 3 }, { "numbers", t_num, 4 }, { "configuration", t_config, 4 }, { "histories", t_hist, 4 }, { "files", t_file, 3 }, { "identifiers", t_uuid, 2 }, { "queues", t_queue, 2 }, { "loggers", t_log, 2 }, { "pools", t_pool, 1 }, { "schedulers", t_sched, 1 }, { "containers", t_cont, 2 } };
static const unsigned NT = sizeof TASKS / sizeof *TASKS;
struct Work { unsigned task; uint64_t seed; Str got, want; };
struct Th { pthread_t t; std::vector<Work> w; std::atomic<unsigned> * ready; unsigned n; };
static std::atomic<uint64_t> g_order; static thread_local unsigned g_me;
// the allocation policy is the thread's own
static Str run_one (const Work & w) { Rng r (w.seed); Out o; bool heap = r.chance (1, 3), old = iot_data_alloc_heap (heap); TASKS[w.task].fn (r, o); o.num (old); o.num (iot_data_alloc_heap (false) == heap); return o.s; }
static void * th (void * p) { Th * t = (Th *) p; t->ready->fetch_add (1); while (t->ready->load () < t->n) sched_yield (); for (auto & w : t->w) { w.got = run_one (w); uint64_t o = g_order; g_order = o * 31 + (uint64_t) (uintptr_t) t % 1009 + w.task; progress (); } return NULL; }
static void m_apart (Rng & r, uint64_t)
{
  mkdir ("stored", 0755); static bool once = (iot_component_factory_add (&g_fac), setenv ("VH_A", "value of A", 1), setenv ("VH_REF", "${VH_A}", 1), setenv ("VH_EMPTY", "", 1), iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE), true); (void) once;
  static std::vector<unsigned> lots; if (lots.empty ()) { Str kinds = "," + Str (arg ("only", "")) + ","; for (unsigned k = 0; k < NT; k++) if (kinds == ",," || kinds.find ("," + Str (TASKS[k].name) + ",") != Str::npos) lots.insert (lots.end (), TASKS[k].weight, k); if (lots.empty ()) { fprintf (stderr, "harness: no such task\n"); exit (2); } }
  unsigned n = (unsigned) r.range (2, 6); std::atomic<unsigned> ready {0}; std::vector<Th> t (n);
  unsigned only[3]; for (auto & x : only) x = r.pick (lots); bool few = r.chance (1, 2);   // often the same few tasks in all threads
  for (auto & x : t) { x.ready = &ready; x.n = n; for (unsigned k = 6 + (unsigned) r.below (20); k--;) { unsigned z = r.pick (lots); x.w.push_back (Work { few ? only[r.below (3)] : z, r.next (), "", "" }); } }
  bool before = r.chance (1, 2); g_order = 0;   // alone first, or (first use of everything) together first
  if (before) for (auto & x : t) for (auto & w : x.w) w.want = run_one (w);
  for (auto & x : t) if (pthread_create (&x.t, NULL, th, &x)) { perror ("harness: thread"); exit (2); } for (auto & x : t) pthread_join (x.t, NULL);
  if (!before) for (auto & x : t) for (auto & w : x.w) w.want = run_one (w);
  for (auto & x : t) for (auto & w : x.w)
  {
    evaluation (); count (TASKS[w.task].name); size_t at = 0; while (at < w.got.size () && at < w.want.size () && w.got[at] == w.want[at]) at++; size_t b = at > 40 ? at - 40 : 0;
    VH_CHECK (w.got == w.want, (Str ("sep-") + TASKS[w.task].name).c_str (), "%s (seed %lu) among %u threads gives '...%s', alone '...%s'", TASKS[w.task].name, (unsigned long) w.seed, n, w.got.substr (b, 160).c_str (), w.want.substr (b, 160).c_str ());
  }
  if (want_sample ()) show ("%u threads, %zu tasks in the first, first %s, %s", n, t[0].w.size (), TASKS[t[0].w[0].task].name, before ? "each run alone before" : "each run alone afterwards");
  distinct (g_order); for (auto & x : t) x.w = std::vector<Work> (); rmdir ("stored");
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "apart", m_apart, true } };
  return run (argc, argv, modes, 1);
}
