// C13: values shared by threads. Every thread reads, refers to, copies, encodes and releases the same values while others allocate, exchange and free
// their own; every result is compared with what one thread computed beforehand from equal values built separately; at the end nothing may be left.
#include "ops.hpp"
#include "iot/uuid.h"
#include <pthread.h>
#include <sched.h>
static int sgn (int x) { return (x > 0) - (x < 0); }
struct Tok { std::atomic<int> freed; };
static void tok_free (void * p) { ((Tok *) p)->freed.fetch_add (1); }
struct Shared { V v; iot_data_t * d = nullptr; std::string json; bool has_json = false; std::string cbor; bool has_cbor = false; uint32_t hash = 0; bool meta = false; V mv; Tok * tok = nullptr; bool fixed = false; };
struct Slot { std::atomic<iot_data_t *> d; };
struct Ctx
{
  std::vector<Shared> s; std::vector<std::vector<int>> cmp, cmpv; Slot slot[8]; std::atomic<int> ready {0}; int n = 0; std::vector<iot_data_t *> batch; std::vector<Tok *> btok; iot_data_t * metakey = nullptr; unsigned steps = 0; bool heavy = false;
};
struct Th { pthread_t t; Ctx * c; uint64_t seed; int id; uint64_t ops; };
static std::atomic<uint64_t> g_order; // which thread did what after which: fingerprint of the interleaving
static void barrier (Ctx * c) { int at = c->ready.fetch_add (1) / c->n; while (c->ready.load () / c->n == at) sched_yield (); }
static iot_data_t * stamped (Rng & r)
{
  uint32_t id = (uint32_t) r.next () & 0x3fffffff;
  switch (r.below (6))
  {
    case 0: { iot_data_t * l = iot_data_alloc_list (); iot_data_list_tail_push (l, iot_data_alloc_ui32 (id)); for (uint32_t k = 1; k < 5; k++) iot_data_list_tail_push (l, iot_data_alloc_ui32 (id + k)); return l; }
    case 1: { iot_data_t * m = iot_data_alloc_map (IOT_DATA_UINT32); iot_data_map_add (m, iot_data_alloc_ui32 (id), iot_data_alloc_ui32 (id)); for (uint32_t k = 1; k < 4; k++) iot_data_map_add (m, iot_data_alloc_ui32 (id + k), iot_data_alloc_ui32 (id + k)); return m; }
    case 2: { iot_data_t * v = iot_data_alloc_vector (4); for (uint32_t k = 0; k < 4; k++) iot_data_vector_add (v, k, iot_data_alloc_ui32 (id + k)); return v; }
    case 3: { char b[80]; snprintf (b, sizeof b, "%u %u%s", id, id, id & 1 ? "" : " and some more text so that it does not fit"); return iot_data_alloc_string (b, IOT_DATA_COPY); }
    case 4: { uint32_t a[8]; for (uint32_t k = 0; k < 8; k++) a[k] = id + k; return iot_data_alloc_array (a, 8, IOT_DATA_UINT32, IOT_DATA_COPY); }
    default: return iot_data_alloc_ui64 (((uint64_t) id << 32) | id);
  }
}
static void check_stamped (const iot_data_t * d)
{
  switch (iot_data_type (d))
  {
    case IOT_DATA_LIST: { iot_data_list_iter_t i; iot_data_list_iter (d, &i); std::vector<uint32_t> x; while (iot_data_list_iter_next (&i)) x.push_back (iot_data_ui32 (iot_data_list_iter_value (&i))); VH_CHECK (x.size () == 5 && iot_data_list_length (d) == 5, "conc-foreign", "list of 5 has %zu elements", x.size ()); bool up = x[1] > x[0]; for (size_t k = 1; k < 5; k++) VH_CHECK (x[k] == (up ? x[0] + k : x[0] - k), "conc-foreign", "element %zu is %u after %u", k, x[k], x[0]); break; }
    case IOT_DATA_MAP: { iot_data_map_iter_t i; iot_data_map_iter (d, &i); uint32_t n = 0, at = 0; while (iot_data_map_iter_next (&i)) { uint32_t k = iot_data_ui32 (iot_data_map_iter_key (&i)), v = iot_data_ui32 (iot_data_map_iter_value (&i)); VH_CHECK (k == v && (!n || k == at + 1), "conc-foreign", "map entry %u:%u after %u", k, v, at); at = k; n++; } VH_CHECK (n == 4, "conc-foreign", "map of 4 has %u entries", n); break; }
    case IOT_DATA_VECTOR: { uint32_t z = iot_data_ui32 (iot_data_vector_get (d, 0)); for (uint32_t k = 0; k < 4; k++) VH_CHECK (iot_data_ui32 (iot_data_vector_get (d, k)) == z + k, "conc-foreign", "vector element %u differs", k); break; }
    case IOT_DATA_STRING: { unsigned a, b; VH_CHECK (sscanf (iot_data_string (d), "%u %u", &a, &b) == 2 && a == b, "conc-foreign", "string is '%.60s'", iot_data_string (d)); break; }
    case IOT_DATA_ARRAY: { const uint32_t * a = (const uint32_t *) iot_data_address (d); VH_CHECK (iot_data_array_length (d) == 8, "conc-foreign", "array length %u", iot_data_array_length (d)); for (uint32_t k = 0; k < 8; k++) VH_CHECK (a[k] == a[0] + k, "conc-foreign", "array element %u differs", k); break; }
    case IOT_DATA_UINT64: { uint64_t x = iot_data_ui64 (d); VH_CHECK (x >> 32 == (x & 0xffffffff), "conc-foreign", "number is %lx", x); break; }
    default: fail ("conc-foreign", "value of type %s", iot_data_type_name (d));
  }
}
static void judge_text (char * j, const Shared & s, const char * how) { VH_CHECK ((j != nullptr) == s.has_json && (!j || s.json == j), "conc-json", "%s gives '%.200s', one thread got '%.200s'", how, j ? j : "nothing", s.json.c_str ()); free (j); }
static void one (Th * t, Rng & r, std::vector<std::vector<iot_data_t *>> & held)
{
  Ctx * c = t->c; size_t i = r.below (c->s.size ()); Shared & s = c->s[i]; if (held[i].empty ()) return; iot_data_t * d = held[i][r.below (held[i].size ())];
  unsigned op = (unsigned) r.below (c->heavy ? 10 : 30); t->ops++;
  switch (op)
  {
    case 0: case 1: { iot_data_t * e = iot_data_add_ref (d); VH_CHECK (e == d, "conc-ref", "add_ref returned another value"); held[i].push_back (e); if (!s.fixed) VH_CHECK (iot_data_ref_count (d) >= held[i].size (), "conc-ref", "reference count %u while this thread alone holds %zu", iot_data_ref_count (d), held[i].size ()); break; }
    case 2: case 3: if (held[i].size () > 1) { iot_data_free (held[i].back ()); held[i].pop_back (); if (!s.fixed) VH_CHECK (iot_data_ref_count (d) >= held[i].size (), "conc-ref", "reference count %u while this thread alone holds %zu", iot_data_ref_count (d), held[i].size ()); } break;
    case 4: for (int k = 0; k < 40; k++) iot_data_add_ref (d); for (int k = 0; k < 40; k++) iot_data_free (d); if (s.tok) VH_CHECK (s.tok->freed == 0, "conc-early", "content released while referenced"); count ("reference_storms"); break;
    case 5: case 6: { iot_data_t * mine = stamped (r); iot_data_t * got = c->slot[r.below (8)].d.exchange (mine); if (got) { check_stamped (got); iot_data_free (got); count ("values_taken_from_threads"); } break; }
    case 7: { iot_data_t * x[24]; size_t n = 1 + r.below (24); for (size_t k = 0; k < n; k++) x[k] = stamped (r); for (size_t k = 0; k < n; k++) check_stamped (x[k]); for (size_t k = 0; k < n; k++) iot_data_free (x[k]); break; }
    case 8: { void * b[16]; size_t n = 1 + r.below (16); for (size_t k = 0; k < n; k++) { b[k] = iot_data_block_alloc (iot_data_block_size ()); memset (b[k], (int) (t->id * 16 + (int) k), iot_data_block_size ()); } for (size_t k = 0; k < n; k++) { for (uint32_t z = 0; z < iot_data_block_size (); z++) VH_CHECK (((unsigned char *) b[k])[z] == (unsigned char) (t->id * 16 + (int) k), "conc-block", "a block was handed out twice"); iot_data_block_free (b[k]); } count ("blocks_used", n); break; }
    case 9: { bool b = r.chance (1, 2); iot_data_t * x = iot_data_alloc_bool (b), * n = iot_data_alloc_null (); for (int k = 0; k < 5; k++) { iot_data_add_ref (x); iot_data_add_ref (n); } VH_CHECK (iot_data_bool (x) == b && iot_data_type (n) == IOT_DATA_NULL, "conc-static", "a constant changed"); for (int k = 0; k < 6; k++) { iot_data_free (x); iot_data_free (n); } break; }
    case 10: case 11: CHECK_MATCH (d, s.v, "conc-read"); break;
    case 12: case 13: VH_CHECK (iot_data_hash (d) == s.hash, "conc-hash", "hash is %08x, one thread got %08x", iot_data_hash (d), s.hash); break;
    case 14: case 15: { size_t j = r.below (c->s.size ()); if (held[j].empty ()) break; iot_data_t * e = held[j][0]; int k = sgn (iot_data_compare (d, e)); VH_CHECK (k == c->cmp[i][j], "conc-compare", "compare is %d, one thread got %d", k, c->cmp[i][j]); VH_CHECK (iot_data_equal (d, e) == (c->cmp[i][j] == 0), "conc-compare", "equal is wrong"); k = sgn (iot_data_compare_value (d, e)); VH_CHECK (k == c->cmpv[i][j], "conc-compare", "compare_value is %d, one thread got %d", k, c->cmpv[i][j]); break; }
    case 16: judge_text (iot_data_to_json_with_size (d, 1 + (uint32_t) r.below (300)), s, "to_json"); break;
    case 17: if (s.has_cbor) { iot_data_t * b = iot_data_to_cbor (d); VH_CHECK (b && s.cbor == std::string ((const char *) iot_data_address (b), iot_data_array_size (b)), "conc-cbor", "CBOR differs from what one thread got"); iot_data_free (b); } break;
    case 18: { iot_data_t * e = iot_data_copy (d); if (!s.tok) CHECK_MATCH (e, s.v, "conc-copy"); if (s.meta) CHECK_MATCH (iot_data_get_metadata (e, c->metakey), s.mv, "conc-copy"); iot_data_free (e); break; }
    case 19:
    {
      iot_data_t * e = iot_data_shallow_copy (d); CHECK_MATCH (e, s.v, "conc-copy");
      if (e != d && s.v.t == IOT_DATA_LIST && s.v.et == IOT_DATA_MULTI) { iot_data_list_head_push (e, iot_data_add_ref (d)); iot_data_free (iot_data_list_tail_pop (e)); }
      if (e != d && s.v.t == IOT_DATA_MAP && s.v.kt == IOT_DATA_STRING && s.v.et == IOT_DATA_MULTI) { iot_data_string_map_add (e, "another", iot_data_add_ref (d)); iot_data_string_map_remove (e, "k0"); }
      iot_data_free (e); break;
    }
    case 20: { iot_data_t * l = iot_data_alloc_list (); for (int k = 0; k < 6; k++) { size_t j = r.below (c->s.size ()); if (!held[j].empty ()) iot_data_list_tail_push (l, iot_data_add_ref (held[j][0])); } if (r.chance (1, 2)) iot_data_hash (l); if (r.chance (1, 2)) { iot_data_t * m = iot_data_copy (l); VH_CHECK (iot_data_list_length (m) == iot_data_list_length (l), "conc-copy", "copy of another length"); iot_data_free (m); } iot_data_free (l); break; }
    case 21: if (s.v.t == IOT_DATA_MAP && s.v.m.size ()) { for (auto & kv : s.v.m) { iot_data_t * k = build (kv.first); const iot_data_t * x = iot_data_map_get (d, k); VH_CHECK (x != nullptr, "conc-lookup", "entry not found"); CHECK_MATCH (x, kv.second, "conc-lookup"); iot_data_free (k); } count ("lookups", s.v.m.size ()); } break;
    case 22: if (s.meta) { const iot_data_t * m = iot_data_get_metadata (d, c->metakey); VH_CHECK (m != nullptr, "conc-metadata", "metadata not found"); CHECK_MATCH (m, s.mv, "conc-metadata"); count ("metadata_reads"); } break;
    case 23: { iot_data_t * m = iot_data_alloc_map (IOT_DATA_MULTI); for (size_t j = 0; j < c->s.size (); j++) if (!held[j].empty () && c->s[j].v.t <= IOT_DATA_STRING) iot_data_map_add (m, iot_data_add_ref (held[j][0]), iot_data_add_ref (held[j][0])); iot_data_hash (m); iot_data_free (m); break; }
    case 24: { static const char * J = "{\"a\":[1,2,{\"b\":\"text that is long enough to need its own buffer\",\"c\":[true,null]}],\"d\":-1.5e3,\"e\":{\"a\":1}}"; iot_data_t * cache = r.chance (1, 2) ? iot_data_alloc_typed_map (IOT_DATA_STRING, IOT_DATA_STRING) : NULL; iot_data_t * x = cache ? iot_data_from_json_with_cache (J, r.chance (1, 2), cache) : iot_data_from_json (J); VH_CHECK (x != nullptr, "conc-parse", "valid document refused"); char * j = iot_data_to_json (x); VH_CHECK (j && strstr (j, "text that is long enough"), "conc-parse", "document changed: %.200s", j ? j : ""); free (j); iot_data_free (x); if (cache) iot_data_free (cache); break; }
    case 25: { iot_data_t * u = r.chance (1, 2) ? iot_data_alloc_uuid_string () : iot_data_alloc_uuid (); iot_data_free (u); break; }
    case 26: { bool old = iot_data_alloc_heap (true); iot_data_t * x = stamped (r); iot_data_alloc_heap (old); check_stamped (x); iot_data_t * y = iot_data_copy (x); iot_data_free (x); check_stamped (y); iot_data_free (y); break; }
    case 27: if (s.v.t == IOT_DATA_STRING) VH_CHECK (s.v.s == iot_data_string (d), "conc-read", "string differs"); else if (s.v.t == IOT_DATA_VECTOR) { uint32_t total = 0; iot_data_t * dims = iot_data_vector_dimensions (d, &total); iot_data_free (dims); } else if (s.v.t == IOT_DATA_ARRAY) { iot_data_t * x = iot_data_array_transform (d, IOT_DATA_FLOAT64); iot_data_free (x); } break;
    case 28: { iot_data_t * ex = NULL, * x = iot_data_from_yaml ("a: [1, 2, {b: c}]\nd: text\n", &ex); VH_CHECK (x != nullptr, "conc-parse", "valid YAML refused"); iot_data_free (x); x = iot_data_from_xml ("<a b='c'>t<d/></a>"); VH_CHECK (x != nullptr, "conc-parse", "valid XML refused"); iot_data_free (x); break; }
    default: if (is_composed (s.v.t)) { iot_data_iter_t it; iot_data_iter (d, &it); uint32_t n = 0; while (iot_data_iter_next (&it)) n++; VH_CHECK (n == (s.v.t == IOT_DATA_MAP ? s.v.m.size () : s.v.e.size ()), "conc-read", "iterated %u elements", n); } break;
  }
  if (s.tok) VH_CHECK (s.tok->freed == 0, "conc-early", "content released while this thread holds a reference");
  evaluation ();
}
static void * th (void * p)
{
  Th * t = (Th *) p; Ctx * c = t->c; Rng r (t->seed);
  {
    std::vector<std::vector<iot_data_t *>> held (c->s.size ()); for (size_t i = 0; i < c->s.size (); i++) held[i].push_back (c->s[i].d);
    barrier (c);
    for (unsigned k = 0; k < c->steps; k++) { one (t, r, held); if (k % 64 == 0) { uint64_t o = g_order; g_order = o * 31 + (uint64_t) t->id; } }
    for (size_t k = 0; k < c->batch.size (); k++) { if (k % 16 == 0) barrier (c); iot_data_free (c->batch[k]); } // all threads let go of the same values
    size_t off = r.chance (1, 2) ? (size_t) t->id : 0; for (size_t k = 0; k < held.size (); k++) { size_t i = (k + off) % held.size (); while (held[i].size ()) { iot_data_free (held[i].back ()); held[i].pop_back (); } }
  }
  return NULL;
}
static void run_threads (Rng & r, Ctx & c, int nt)
{
  c.n = nt; std::vector<Th> t ((size_t) nt); g_order = 0;
  for (auto & s : c.s) for (int k = 1; k < nt; k++) iot_data_add_ref (s.d);
  for (int k = 0; k < nt; k++) { t[(size_t) k] = Th { {}, &c, r.next (), k, 0 }; if (pthread_create (&t[(size_t) k].t, NULL, th, &t[(size_t) k])) { perror ("harness: thread"); exit (2); } }
  for (auto & x : t) pthread_join (x.t, NULL);
  for (auto & s : c.slot) if (iot_data_t * d = s.d.exchange (NULL)) { check_stamped (d); iot_data_free (d); }
  for (auto & s : c.s) if (s.tok) { VH_CHECK (s.tok->freed == 1, "conc-release", "content released %d times", (int) s.tok->freed); delete s.tok; }
  for (auto * k : c.btok) { VH_CHECK (*&k->freed == 1, "conc-release", "content of a value released by %d threads at once released %d times", nt, (int) k->freed); count ("joint_releases"); delete k; }
  distinct (g_order); for (auto & s : c.s) if (s.fixed) { /* static storage, freed with the case */ }
}
static void make_batch (Rng & r, Ctx & c, int nt)
{
  size_t n = 16 * (1 + r.below (6));
  for (size_t k = 0; k < n; k++)
  {
    Tok * tok = new Tok (); tok->freed = 0; iot_data_t * p = iot_data_alloc_pointer (tok, tok_free); c.btok.push_back (tok);
    if (r.chance (1, 2)) { iot_data_t * l = iot_data_alloc_list (); iot_data_list_tail_push (l, p); iot_data_list_tail_push (l, iot_data_alloc_ui32 ((uint32_t) k)); p = l; } else if (r.chance (1, 3)) { iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); iot_data_string_map_add (m, "k", p); p = m; }
    for (int z = 1; z < nt; z++) iot_data_add_ref (p); c.batch.push_back (p);
  }
}
static void m_share (Rng & r, uint64_t)
{
  // the block cache never shrinks: let it grow beyond what any interleaving needs, so that what a case adds to the heap is a leak
  static bool warm; if (!warm && vh::have_live_allocs ()) { warm = true; static void * b[12000]; for (auto & x : b) x = iot_data_block_alloc (8); for (auto & x : b) iot_data_block_free (x); }
  Ctx c; for (auto & s : c.slot) s.d = NULL; int nt = 2 + (int) r.below (5); c.steps = 60 + (unsigned) r.below (200); c.heavy = r.chance (1, 4); if (c.heavy) c.steps *= 3; c.metakey = iot_data_alloc_string ("meta", IOT_DATA_COPY);
  GenOpt o; o.inf = true; o.holes = true; o.width = 5; o.depth = 2 + (unsigned) r.below (2); o.neg_zero = false; static iot_data_static_t st[4]; unsigned nst = 0;
  size_t n = 2 + r.below (5); std::vector<iot_data_t *> twin; std::vector<V> vs;
  { BuildCtx shared; shared.r = &r; shared.share = true; // equal parts of different values are the same object
  for (size_t k = 0; k < n; k++)
  {
    Shared s; s.v = vs.size () && r.chance (1, 3) ? mutate_value (r, o, vs[r.below (vs.size ())]) : gen_value (r, o);
    if (r.chance (1, 3)) { V w; w.t = IOT_DATA_LIST; for (auto & x : vs) if (r.chance (1, 2)) w.e.push_back (x); w.e.push_back (s.v); s.v = w; }
    vs.push_back (s.v);
    if (r.chance (1, 6)) { s.tok = new Tok (); s.tok->freed = 0; s.v = V (); s.v.t = IOT_DATA_LIST; s.v.e.push_back (vptr (s.tok)); s.v.e.push_back (vstr ("beside a pointer")); s.d = iot_data_alloc_list (); iot_data_list_head_push (s.d, iot_data_alloc_pointer (s.tok, tok_free)); iot_data_list_tail_push (s.d, iot_data_alloc_string ("beside a pointer", IOT_DATA_COPY)); if (!iot_data_list_length (s.d)) {} }
    else if (r.chance (1, 8) && nst < 4) { s.v = vstr ("in static storage"); s.d = iot_data_alloc_const_string (&st[nst++], "in static storage"); s.fixed = true; }
    else { s.d = build (s.v, shared); if (r.chance (1, 4)) { iot_data_t * f = iot_data_copy (s.d); iot_data_free (s.d); s.d = f; } }
    c.s.push_back (s);
  } }
  for (auto & s : c.s)
  {
    iot_data_t * w;
    if (s.tok) { std::string why; if (!matches (s.d, s.v, why)) { std::swap (s.v.e[0], s.v.e[1]); } CHECK_MATCH (s.d, s.v, "conc-build"); w = iot_data_alloc_list (); for (auto & x : s.v.e) iot_data_list_head_push (w, x.t == IOT_DATA_POINTER ? iot_data_alloc_pointer (x.p, NULL) : build (x)); }
    else w = build (s.v);
    char * j = s.tok ? NULL : iot_data_to_json (w); s.has_json = j != NULL; if (j) s.json = j; free (j);
    if (s.tok) { char * q = iot_data_to_json (w); s.has_json = q != NULL; if (q) s.json = q; free (q); }
    iot_data_t * b = s.tok ? NULL : iot_data_to_cbor (w); s.has_cbor = b != NULL; if (b) { s.cbor.assign ((const char *) iot_data_address (b), iot_data_array_size (b)); iot_data_free (b); }
    s.hash = iot_data_hash (w); twin.push_back (w);
    if (!s.fixed && iot_data_ref_count (s.d) == 1 && r.chance (1, 3)) { GenOpt mo; mo.neg_zero = false; s.mv = gen_value (r, mo, 1); s.meta = true; iot_data_set_metadata (s.d, build (s.mv), c.metakey); }
  }
  c.cmp.resize (n); c.cmpv.resize (n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { c.cmp[i].push_back (sgn (iot_data_compare (twin[i], twin[j]))); c.cmpv[i].push_back (sgn (iot_data_compare_value (twin[i], twin[j]))); }
  for (auto * w : twin) iot_data_free (w);
  make_batch (r, c, nt); run_threads (r, c, nt); iot_data_free (c.metakey);
  for (unsigned k = 0; k < nst; k++) memset (&st[k], 0, sizeof st[k]);
  count ("values_shared", n); count ("threads_run", (uint64_t) nt);
  if (want_sample ()) show ("%d threads, %u steps each, %zu shared values, first %s", nt, c.steps, n, quote (vshow (vs[0])).substr (0, 150).c_str ());
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "share", m_share, true } };
  return run (argc, argv, modes, 1);
}
