// Random operations on library containers, mirrored on the ideal value; every observable result is judged.
#pragma once
#include "model_impl.hpp"
using namespace vh;

static std::string b64_of (const std::string & s)
{
  static const char * al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t k = 0; k < s.size (); k += 3)
  {
    unsigned n = std::min<size_t> (3, s.size () - k);
    uint32_t x = (uint32_t) (uint8_t) s[k] << 16 | (n > 1 ? (uint32_t) (uint8_t) s[k + 1] << 8 : 0) | (n > 2 ? (uint32_t) (uint8_t) s[k + 2] : 0);
    o += al[x >> 18]; o += al[(x >> 12) & 63]; o += n > 1 ? al[(x >> 6) & 63] : '='; o += n > 2 ? al[x & 63] : '=';
  }
  return o;
}
static V elem_for (Rng & r, const GenOpt & o, iot_data_type_t et)
{
  GenOpt k = o; k.width = 3;
  unsigned depth = r.chance (1, 5) ? 2 : 0;
  return et == IOT_DATA_MULTI ? gen_value (r, k, depth) : gen_typed (r, k, et, depth);
}
static bool gt8 (const V & v) { return v.t == IOT_DATA_STRING; }

// Compare a shallow view quickly: pointer identity of values is checked where the library must keep our object
struct MapOps
{
  Rng & r; GenOpt o; V m; iot_data_t * d;
  std::vector<V> universe;     // keys used
  MapOps (Rng & rr, const GenOpt & oo, iot_data_type_t kt, iot_data_type_t et, unsigned nkeys) : r (rr), o (oo)
  {
    m.t = IOT_DATA_MAP; m.kt = kt; m.et = et;
    d = et == IOT_DATA_MULTI ? iot_data_alloc_map (kt) : iot_data_alloc_typed_map (kt, et);
    for (unsigned k = 0; k < nkeys; k++)
    {
      V key = kt == IOT_DATA_MULTI && r.chance (1, 2) ? vint ((iot_data_type_t) r.below (8), (int64_t) r.below (8)) : gen_key (r, o, kt);
      if (kt == IOT_DATA_STRING && key.s.size () > 400) key.s.resize (400);
      universe.push_back (key);
    }
  }
  ~MapOps () { iot_data_free (d); }
  const V & key () { return universe[r.below (universe.size ())]; }
  static uint64_t & serial () { static uint64_t s = 0; return s; }
  void lookups ()
  {
    const V & k = key ();
    const V * want = vmap_find (m, k);
    iot_data_t * kd = build (k);
    const iot_data_t * got = iot_data_map_get (d, kd);
    VH_CHECK ((got != nullptr) == (want != nullptr), "map-get", "get(%s) %s in %s", vshow (k).c_str (), got ? "found something" : "found nothing", quote (vshow (m)).c_str ());
    if (want) { std::string why; VH_CHECK (matches (got, *want, why), "map-get-value", "get(%s): %s, expected %s", vshow (k).c_str (), why.c_str (), vshow (*want).c_str ()); }
    iot_data_type_t wt = want ? want->t : IOT_DATA_INVALID;
    iot_data_type_t ty = r.chance (1, 2) && want ? wt : (iot_data_type_t) r.below (19);
    VH_CHECK (iot_data_map_get_typed (d, kd, ty) == (ty == wt ? got : nullptr), "map-get-typed", "get_typed(%s, %s) wrong", vshow (k).c_str (), iot_data_type_string (ty));
    const char * gs = iot_data_map_get_string (d, kd);
    VH_CHECK (wt == IOT_DATA_STRING ? (gs && want->s == gs) : gs == nullptr, "map-get-string", "get_string(%s) wrong", vshow (k).c_str ());
    int64_t di = (int64_t) gen_u64 (r); uint64_t du = gen_u64 (r); bool db = r.chance (1, 2); double dd = gen_f64 (r, false, false);
    VH_CHECK (iot_data_map_get_i64 (d, kd, di) == (wt == IOT_DATA_INT64 ? want->i : di), "map-get-i64", "get_i64(%s)", vshow (k).c_str ());
    VH_CHECK (iot_data_map_get_ui64 (d, kd, du) == (wt == IOT_DATA_UINT64 ? want->u : du), "map-get-ui64", "get_ui64(%s)", vshow (k).c_str ());
    VH_CHECK (iot_data_map_get_bool (d, kd, db) == (wt == IOT_DATA_BOOL ? want->b : db), "map-get-bool", "get_bool(%s)", vshow (k).c_str ());
    double gd = iot_data_map_get_f64 (d, kd, dd); VH_CHECK (gd == (wt == IOT_DATA_FLOAT64 ? want->d : dd), "map-get-f64", "get_f64(%s)", vshow (k).c_str ());
    VH_CHECK (iot_data_map_get_pointer (d, kd) == (wt == IOT_DATA_POINTER ? want->p : nullptr), "map-get-pointer", "get_pointer(%s)", vshow (k).c_str ());
    VH_CHECK (iot_data_map_get_vector (d, kd) == (wt == IOT_DATA_VECTOR ? got : nullptr), "map-get-vector", "get_vector(%s)", vshow (k).c_str ());
    VH_CHECK (iot_data_map_get_map (d, kd) == (wt == IOT_DATA_MAP ? got : nullptr), "map-get-map", "get_map(%s)", vshow (k).c_str ());
    VH_CHECK (iot_data_map_get_list (d, kd) == (wt == IOT_DATA_LIST ? got : nullptr), "map-get-list", "get_list(%s)", vshow (k).c_str ());
    VH_CHECK (iot_data_map_get_array (d, kd) == (wt == IOT_DATA_ARRAY ? got : nullptr), "map-get-array", "get_array(%s)", vshow (k).c_str ());
    int iv = 12345; bool iok = iot_data_map_get_int (d, kd, &iv);
    long double x = 0; bool num = want && wt <= IOT_DATA_BOOL;
    if (num) x = is_sint (wt) ? (long double) want->i : is_uint (wt) ? (long double) want->u : wt == IOT_DATA_BOOL ? (long double) want->b : (long double) want->d;
    bool fits = num && x >= INT32_MIN && x <= INT32_MAX;
    VH_CHECK (iok == fits && iv == (fits ? (int) truncl (x) : 12345), "map-get-int", "get_int(%s) gave %d/%d", vshow (k).c_str (), iok, iv);
    int64_t nv = 77; bool nok = iot_data_map_get_number (d, kd, IOT_DATA_INT64, &nv);
    bool nfits = num && x >= (long double) INT64_MIN && x <= (long double) INT64_MAX;
    VH_CHECK (nok == nfits && nv == (nfits ? (int64_t) truncl (x) : 77), "map-get-number", "get_number(%s) gave %d/%ld", vshow (k).c_str (), nok, (long) nv);
    if (k.t == IOT_DATA_STRING)
    {
      const char * s = k.s.c_str ();
      VH_CHECK (iot_data_string_map_get (d, s) == got, "smap-get", "string get(%s)", vshow (k).c_str ());
      const char * g2 = iot_data_string_map_get_string (d, s);
      VH_CHECK (g2 == gs, "smap-get-string", "string get_string(%s)", vshow (k).c_str ());
      VH_CHECK (iot_data_string_map_get_i64 (d, s, di) == (wt == IOT_DATA_INT64 ? want->i : di), "smap-get-i64", "(%s)", vshow (k).c_str ());
      VH_CHECK (iot_data_string_map_get_ui64 (d, s, du) == (wt == IOT_DATA_UINT64 ? want->u : du), "smap-get-ui64", "(%s)", vshow (k).c_str ());
      VH_CHECK (iot_data_string_map_get_bool (d, s, db) == (wt == IOT_DATA_BOOL ? want->b : db), "smap-get-bool", "(%s)", vshow (k).c_str ());
      gd = iot_data_string_map_get_f64 (d, s, dd); VH_CHECK (gd == (wt == IOT_DATA_FLOAT64 ? want->d : dd), "smap-get-f64", "(%s)", vshow (k).c_str ());
      VH_CHECK (iot_data_string_map_get_pointer (d, s) == (wt == IOT_DATA_POINTER ? want->p : nullptr), "smap-get-pointer", "(%s)", vshow (k).c_str ());
      VH_CHECK (iot_data_string_map_get_vector (d, s) == (wt == IOT_DATA_VECTOR ? got : nullptr), "smap-get-vector", "(%s)", vshow (k).c_str ());
      VH_CHECK (iot_data_string_map_get_map (d, s) == (wt == IOT_DATA_MAP ? got : nullptr), "smap-get-map", "(%s)", vshow (k).c_str ());
      VH_CHECK (iot_data_string_map_get_list (d, s) == (wt == IOT_DATA_LIST ? got : nullptr), "smap-get-list", "(%s)", vshow (k).c_str ());
      iv = 12345; iok = iot_data_string_map_get_int (d, s, &iv);
      VH_CHECK (iok == fits && iv == (fits ? (int) truncl (x) : 12345), "smap-get-int", "(%s) gave %d/%d", vshow (k).c_str (), iok, iv);
    }
    iot_data_free (kd);
    count (want ? "lookups present" : "lookups absent");
  }
  void ends ()
  {
    const iot_data_t * s = iot_data_map_start (d), * e = iot_data_map_end (d);
    VH_CHECK ((s == nullptr) == m.m.empty () && (e == nullptr) == m.m.empty (), "map-ends", "start/end %p/%p with %zu entries", (const void *) s, (const void *) e, m.m.size ());
    iot_data_map_iter_t it; iot_data_map_iter (d, &it);
    std::vector<const iot_data_t *> keys, vals;
    VH_CHECK (iot_data_map_iter_key (&it) == nullptr && iot_data_map_iter_value (&it) == nullptr && iot_data_map_iter_string_key (&it) == nullptr && iot_data_map_iter_pointer_value (&it) == nullptr && !iot_data_map_iter_bool_value (&it), "map-iter-fresh", "fresh iterator has a position");
    for (;;)
    {
      bool hn = iot_data_map_iter_has_next (&it);
      bool n = iot_data_map_iter_next (&it);
      VH_CHECK (n == (keys.size () < m.m.size ()), "map-iter", "forward iteration %s after %zu of %zu", n ? "continued" : "ended", keys.size (), m.m.size ());
      VH_CHECK (hn == n, "map-has-next", "has_next said %d, next %d at %zu of %zu", hn, n, keys.size (), m.m.size ());
      if (!n) break;
      keys.push_back (iot_data_map_iter_key (&it)); vals.push_back (iot_data_map_iter_value (&it));
      if (iot_data_type (keys.back ()) == IOT_DATA_STRING) VH_CHECK (iot_data_map_iter_string_key (&it) == iot_data_string (keys.back ()), "map-iter-string-key", "differs");
      VH_CHECK (iot_data_map_iter_string_value (&it) == iot_data_string (vals.back ()), "map-iter-string-value", "differs");
      VH_CHECK (iot_data_map_iter_pointer_value (&it) == iot_data_pointer (vals.back ()), "map-iter-pointer-value", "differs");
      if (iot_data_type (vals.back ()) == IOT_DATA_BOOL) VH_CHECK (iot_data_map_iter_bool_value (&it) == iot_data_bool (vals.back ()), "map-iter-bool-value", "differs");
    }
    if (!keys.empty ()) VH_CHECK (s == vals.front () && e == vals.back (), "map-ends", "start/end are not the first/last entries");
    if (!keys.empty ()) VH_CHECK (iot_data_map_start_pointer (d) == iot_data_pointer (vals.front ()) && iot_data_map_end_pointer (d) == iot_data_pointer (vals.back ()), "map-ends", "start/end pointers");
    else VH_CHECK (!iot_data_map_start_pointer (d) && !iot_data_map_end_pointer (d), "map-ends", "start/end pointers of empty map");
    for (size_t k = 1; k < keys.size (); k++) VH_CHECK (iot_data_compare (keys[k - 1], keys[k]) < 0, "map-order", "keys %zu and %zu not increasing: %s, %s", k - 1, k, vshow (snapshot (keys[k - 1])).c_str (), vshow (snapshot (keys[k])).c_str ());
    // it is at the end: iterating again restarts
    for (int pass = 0; pass < 2 && !keys.empty (); pass++)   // iteration restarts after the end
    {
      for (size_t k = 0; k < keys.size (); k++)
      {
        VH_CHECK (iot_data_map_iter_next (&it) && iot_data_map_iter_key (&it) == keys[k] && iot_data_map_iter_value (&it) == vals[k], "map-iter-restart", "second pass differs at %zu of %zu", k, keys.size ());
        VH_CHECK (iot_data_map_iter_has_next (&it) == (k + 1 < keys.size ()), "map-has-next", "has_next wrong in second pass at %zu of %zu", k, keys.size ());
      }
      VH_CHECK (!iot_data_map_iter_next (&it), "map-iter-restart", "second pass does not end");
    }
    iot_data_map_iter (d, &it);
    for (size_t k = keys.size (); k-- > 0;) VH_CHECK (iot_data_map_iter_prev (&it) && iot_data_map_iter_key (&it) == keys[k] && iot_data_map_iter_value (&it) == vals[k], "map-iter-prev", "backward iteration differs at %zu of %zu", k, keys.size ());
    VH_CHECK (!iot_data_map_iter_prev (&it), "map-iter-prev", "backward iteration continues past the start");
    // wandering
    if (!keys.empty ())
    {
      iot_data_map_iter (d, &it); long pos = -1;
      for (unsigned k = 0; k < 12; k++)
      {
        bool fwd = r.chance (1, 2), ok = fwd ? iot_data_map_iter_next (&it) : iot_data_map_iter_prev (&it);
        long n = (long) keys.size ();
        pos = fwd ? (pos < 0 ? 0 : pos + 1) : (pos < 0 ? n - 1 : pos - 1);
        if (pos >= n || pos < 0) pos = -1;
        VH_CHECK (ok == (pos >= 0) && iot_data_map_iter_value (&it) == (pos >= 0 ? vals[pos] : nullptr), "map-iter-wander", "mixed iteration lost its place at %ld of %ld", pos, n);
        VH_CHECK (iot_data_map_iter_has_next (&it) == (pos + 1 < n), "map-has-next", "has_next wrong at %ld of %ld of a mixed iteration", pos, n);
      }
    }
    iot_data_iter_t g; iot_data_iter (d, &g); size_t n = 0;
    while (iot_data_iter_next (&g)) { VH_CHECK (n < vals.size () && iot_data_iter_value (&g) == vals[n], "generic-iter", "generic iteration of map differs at %zu", n); n++; }
    VH_CHECK (n == vals.size (), "generic-iter", "generic iteration visited %zu of %zu", n, vals.size ());
    VH_CHECK (iot_data_length (d) == m.m.size () && iot_data_map_size (d) == m.m.size (), "map-size", "size %u, expected %zu", iot_data_map_size (d), m.m.size ());
    count ("iterations judged");
  }
  void step ()
  {
    unsigned op = r.below (22);
    if (op < 7)
    {
      const V & k = key (); V v = elem_for (r, o, m.et);
      log_op ("add %s = %s", vshow (k).substr (0, 100).c_str (), vshow (v).substr (0, 100).c_str ());
      if (op == 6 && k.t == IOT_DATA_STRING) { static const char * lit[] = {"k0", "k1", "k2", "lit"}; const char * l = r.pick (lit); iot_data_string_map_add (d, l, build (v)); vmap_set (m, vstr (l), v); }
      else
      {
        iot_data_t * vd = build_random (v, r); iot_data_map_add (d, build_random (k, r), vd);
        // an equal key keeps its first spelling; 0.0 and -0.0 are equal
        vmap_set (m, k, v);
      }
      count ("add");
    }
    else if (op < 9)
    {
      const V & k = key (); V v = elem_for (r, o, m.et); bool have = vmap_find (m, k) != nullptr;
      log_op ("add_unused %s", vshow (k).substr (0, 100).c_str ());
      iot_data_t * kd = build (k), * vd = build (v);
      bool did = iot_data_map_add_unused (d, kd, vd);
      VH_CHECK (did == !have, "map-add-unused", "add_unused(%s) returned %d, key %s", vshow (k).c_str (), did, have ? "present" : "absent");
      if (did) vmap_set (m, k, v); else { iot_data_free (kd); iot_data_free (vd); }
      count ("add unused");
    }
    else if (op < 14)
    {
      const V & k = key (); bool have = vmap_find (m, k) != nullptr;
      log_op ("remove %s", vshow (k).substr (0, 100).c_str ());
      bool did;
      if (k.t == IOT_DATA_STRING && r.chance (1, 3)) did = iot_data_string_map_remove (d, k.s.c_str ());
      else { iot_data_t * kd = build (k); did = iot_data_map_remove (d, kd); iot_data_free (kd); }
      VH_CHECK (did == have, "map-remove", "remove(%s) returned %d, key %s", vshow (k).c_str (), did, have ? "present" : "absent");
      vmap_del (m, k);
      if (r.chance (1, 20)) { VH_CHECK (!iot_data_map_remove (d, nullptr) && !iot_data_string_map_remove (d, nullptr), "map-remove-null", "remove(NULL) returned true"); }
      count ("remove");
    }
    else if (op == 14)
    {
      if (r.chance (1, 8)) { log_op ("merge NULL"); iot_data_map_merge (d, nullptr); }
      V add; add.t = IOT_DATA_MAP; add.kt = m.kt; add.et = m.et;
      unsigned n = r.below (5); for (unsigned k = 0; k < n; k++) vmap_set (add, key (), elem_for (r, o, m.et));
      log_op ("merge %s", vshow (add).substr (0, 150).c_str ());
      iot_data_t * ad = build_random (add, r); iot_data_map_merge (d, ad);
      CHECK_MATCH (ad, add, "map-merge-source");
      for (auto & kv : add.m) vmap_set (m, kv.first, kv.second);
      if (r.chance (1, 2)) { iot_data_t * c = iot_data_add_ref (ad); iot_data_free (c); }
      iot_data_free (ad); count ("merge");
    }
    else if (op == 15 && r.chance (1, 4)) { log_op ("empty"); iot_data_map_empty (d); m.m.clear (); count ("empty"); }
    else if (op == 16 || op == 17)
    {
      if (m.m.empty ()) return;
      iot_data_map_iter_t it; iot_data_map_iter (d, &it);
      size_t n = r.below (m.m.size ()); bool fwd = r.chance (1, 2);
      for (size_t k = 0; k <= n; k++) { bool ok = fwd ? iot_data_map_iter_next (&it) : iot_data_map_iter_prev (&it); VH_CHECK (ok, "map-iter", "iteration ended early"); }
      V kv = snapshot (iot_data_map_iter_key (&it)); V v = elem_for (r, o, m.et);
      log_op ("iter replace %s = %s", vshow (kv).substr (0, 80).c_str (), vshow (v).substr (0, 80).c_str ());
      const iot_data_t * before = iot_data_map_iter_value (&it);
      iot_data_t * vd = build (v);
      iot_data_t * old = iot_data_map_iter_replace_value (&it, vd);
      VH_CHECK (old == before, "map-iter-replace", "replace returned something other than the old value");
      VH_CHECK (iot_data_map_iter_value (&it) == vd, "map-iter-replace", "iterator does not see the new value");
      iot_data_free (old); vmap_set (m, kv, v);
      count ("iterator replace");
    }
    else if (op == 18)
    {
      const V & k = key (); V * have = vmap_find (m, k);
      if (!have) return;
      if (m.et == IOT_DATA_MULTI || m.et == IOT_DATA_STRING)
      {
        std::string bytes; unsigned n = 1 + r.below (20); for (unsigned b = 0; b < n; b++) bytes += (char) r.next ();
        bool good = r.chance (2, 3);
        V sv = vstr (good ? b64_of (bytes) : "!" + b64_of (bytes));
        iot_data_map_add (d, build (k), build (sv)); vmap_set (m, k, sv);
        if (r.chance (1, 2)) iot_data_hash (d);
        iot_data_t * kd = build (k);
        bool did = iot_data_map_base64_to_array (d, kd);
        iot_data_free (kd);
        good = good && m.et == IOT_DATA_MULTI;
        log_op ("base64_to_array %s", vshow (k).substr (0, 80).c_str ());
        VH_CHECK (did == good, "map-base64", "base64_to_array(%s) returned %d", sv.s.c_str (), did);
        if (did) { V av; av.t = IOT_DATA_ARRAY; av.et = IOT_DATA_UINT8; av.s = bytes; vmap_set (m, k, av); }
        count ("base64 to array");
      }
    }
    else lookups ();
    if (r.chance (1, 6)) iot_data_hash (d);
    if (r.chance (1, 25)) { iot_data_t * c = r.chance (1, 2) ? iot_data_copy (d) : iot_data_shallow_copy (d); iot_data_free (d); d = c; log_op ("copied"); }
  }
};

struct SeqOps   // lists and vectors
{
  Rng & r; GenOpt o; V m; iot_data_t * d;
  SeqOps (Rng & rr, const GenOpt & oo, bool list, iot_data_type_t et, unsigned size) : r (rr), o (oo)
  {
    m.t = list ? IOT_DATA_LIST : IOT_DATA_VECTOR; m.et = et;
    if (list) d = et == IOT_DATA_MULTI ? iot_data_alloc_list () : iot_data_alloc_typed_list (et);
    else { d = et == IOT_DATA_MULTI ? iot_data_alloc_vector (size) : iot_data_alloc_typed_vector (size, et); for (unsigned k = 0; k < size; k++) m.e.push_back (vhole ()); }
  }
  ~SeqOps () { iot_data_free (d); }
  struct FindArg { const iot_data_t * want; std::vector<const iot_data_t *> seen; };
  static bool find_cb (const iot_data_t * data, const void * arg) { FindArg * a = (FindArg *) arg; a->seen.push_back (data); return data && iot_data_equal (data, a->want); }
  // bring an iterator to position p (model index), from either end
  void seek (iot_data_list_iter_t & it, size_t p)
  {
    iot_data_list_iter (d, &it);
    size_t steps = r.chance (1, 2) ? p + 1 : 0; bool ok = true;
    if (steps) { while (steps--) ok = ok && iot_data_list_iter_next (&it); } else { steps = m.e.size () - p; while (steps--) ok = ok && iot_data_list_iter_prev (&it); }
    VH_CHECK (ok, "list-iter", "iteration ended early seeking %zu of %zu", p, m.e.size ());
  }
  V need () { return elem_for (r, o, m.et); }
  void list_step ()
  {
    unsigned op = r.below (14);
    size_t n = m.e.size ();
    switch (op)
    {
      case 0: case 1: { V v = need (); log_op ("head_push %s", vshow (v).substr (0, 100).c_str ()); iot_data_list_head_push (d, build_random (v, r)); m.e.push_back (v); count ("head push"); break; }
      case 2: case 3: { V v = need (); log_op ("tail_push %s", vshow (v).substr (0, 100).c_str ()); iot_data_list_tail_push (d, build_random (v, r)); m.e.insert (m.e.begin (), v); count ("tail push"); break; }
      case 4: case 5:
      {
        bool head = op == 4; log_op ("%s_pop", head ? "head" : "tail");
        iot_data_t * v = head ? iot_data_list_head_pop (d) : iot_data_list_tail_pop (d);
        VH_CHECK ((v != nullptr) == (n > 0), "list-pop", "pop of list of %zu returned %p", n, (void *) v);
        if (v) { std::string why; VH_CHECK (matches (v, head ? m.e.back () : m.e.front (), why), "list-pop-value", "%s pop: %s", head ? "head" : "tail", why.c_str ()); if (head) m.e.pop_back (); else m.e.erase (m.e.begin ()); }
        iot_data_free (v); count ("pop"); break;
      }
      case 6: case 7:
      {
        FindArg a; V v = n && r.chance (3, 4) ? m.e[r.below (n)] : need ();
        iot_data_t * want = build (v); a.want = want;
        size_t f = n; for (size_t k = 0; k < n; k++) if (veq (m.e[k], v)) { f = k; break; }
        log_op ("%s %s", op == 6 ? "find" : "remove", vshow (v).substr (0, 100).c_str ());
        if (op == 6)
        {
          const iot_data_t * got = iot_data_list_find (d, find_cb, &a);
          VH_CHECK ((got != nullptr) == (f < n), "list-find", "find(%s) %s", vshow (v).c_str (), got ? "found" : "did not find");
          if (got) { iot_data_list_iter_t it; iot_data_list_iter (d, &it); for (size_t k = 0; k <= f; k++) iot_data_list_iter_next (&it); VH_CHECK (got == iot_data_list_iter_value (&it), "list-find", "find did not return the first match"); }
        }
        else
        {
          bool did = iot_data_list_remove (d, find_cb, &a);
          VH_CHECK (did == (f < n), "list-remove", "remove(%s) returned %d", vshow (v).c_str (), did);
          if (f < n) m.e.erase (m.e.begin () + f);
        }
        iot_data_free (want); count (op == 6 ? "find" : "remove"); break;
      }
      case 8: case 9:
      {
        // remove any subset while iterating, in either direction
        bool fwd = r.chance (1, 2); unsigned prob = 1 + r.below (4);
        log_op ("iterate %s removing 1 in %u", fwd ? "forward" : "backward", prob);
        iot_data_list_iter_t it; iot_data_list_iter (d, &it);
        if (fwd)
        {
          size_t k = 0;
          while (iot_data_list_iter_next (&it))
          {
            VH_CHECK (k < m.e.size (), "list-iter-remove", "iteration overran after removals");
            std::string why; VH_CHECK (matches (iot_data_list_iter_value (&it), m.e[k], why), "list-iter-remove", "at %zu while removing: %s", k, why.c_str ());
            if (r.chance (1, prob)) { VH_CHECK (iot_data_list_iter_remove (&it), "list-iter-remove", "remove returned false"); m.e.erase (m.e.begin () + k); count ("iterator remove"); }
            else k++;
          }
          VH_CHECK (k == m.e.size (), "list-iter-remove", "iteration ended at %zu of %zu", k, m.e.size ());
        }
        else if (n)
        {
          // removal steps the iterator back to the previous (tail side) element; re-read it through prev/next
          size_t p = r.below (n); seek (it, p);
          VH_CHECK (iot_data_list_iter_remove (&it), "list-iter-remove", "remove returned false");
          m.e.erase (m.e.begin () + p);
          const iot_data_t * cur = iot_data_list_iter_value (&it);
          if (p == 0) VH_CHECK (cur == nullptr, "list-iter-remove", "iterator keeps a position after removing the first element");
          else { std::string why; VH_CHECK (cur && matches (cur, m.e[p - 1], why), "list-iter-remove", "iterator not at the preceding element: %s", why.c_str ()); }
        }
        iot_data_list_iter (d, &it); VH_CHECK (!iot_data_list_iter_remove (&it), "list-iter-remove", "remove at no position returned true");
        break;
      }
      case 10: case 11:
      {
        if (!n) break;
        size_t p = r.below (n); iot_data_list_iter_t it; seek (it, p);
        V v = need (); log_op ("replace %zu with %s", p, vshow (v).substr (0, 100).c_str ());
        iot_data_t * vd = build (v); const iot_data_t * was = iot_data_list_iter_value (&it);
        iot_data_t * old = iot_data_list_iter_replace (&it, vd);
        VH_CHECK (old == was && iot_data_list_iter_value (&it) == vd, "list-iter-replace", "replace at %zu wrong", p);
        iot_data_free (old); m.e[p] = v; count ("iterator replace"); break;
      }
      case 12: if (r.chance (1, 3)) { log_op ("empty"); iot_data_list_empty (d); m.e.clear (); count ("empty"); } break;
      default: wander_list (); break;
    }
    VH_CHECK (iot_data_list_length (d) == m.e.size () && iot_data_length (d) == m.e.size (), "list-length", "length %u, expected %zu", iot_data_list_length (d), m.e.size ());
  }
  void wander_list ()
  {
    long n = (long) m.e.size (), pos = -1;
    iot_data_list_iter_t it; iot_data_list_iter (d, &it);
    iot_data_iter_t g; iot_data_iter (d, &g);
    for (unsigned k = 0; k < 14; k++)
    {
      bool fwd = r.chance (1, 2);
      bool hn = iot_data_list_iter_has_next (&it), ghn = iot_data_iter_has_next (&g);
      bool whn = pos < 0 ? n > 0 : pos + 1 < n;
      VH_CHECK (hn == whn && ghn == whn, "list-has-next", "has_next %d/%d at %ld of %ld", hn, ghn, pos, n);
      bool ok = fwd ? iot_data_list_iter_next (&it) : iot_data_list_iter_prev (&it);
      bool gok = fwd ? iot_data_iter_next (&g) : iot_data_iter_prev (&g);
      pos = fwd ? (pos < 0 ? 0 : pos + 1) : (pos < 0 ? n - 1 : pos - 1);
      if (pos >= n || pos < 0) pos = -1;
      VH_CHECK (ok == (pos >= 0) && gok == ok, "list-iter-wander", "iteration ok=%d/%d at %ld of %ld", ok, gok, pos, n);
      const iot_data_t * v = iot_data_list_iter_value (&it);
      VH_CHECK (iot_data_iter_value (&g) == v, "generic-iter", "generic list iteration differs");
      if (pos >= 0)
      {
        std::string why; VH_CHECK (matches (v, m.e[pos], why), "list-iter-wander", "at %ld: %s", pos, why.c_str ());
        VH_CHECK (iot_data_list_iter_string_value (&it) == iot_data_string (v) && iot_data_list_iter_pointer_value (&it) == iot_data_pointer (v), "list-iter-typed", "typed iterator value differs");
      }
      else VH_CHECK (!v && !iot_data_list_iter_string_value (&it) && !iot_data_list_iter_pointer_value (&it), "list-iter-typed", "value at no position");
    }
    count ("iterations judged");
  }
  void vector_step ()
  {
    unsigned op = r.below (13);
    size_t n = m.e.size ();
    switch (op)
    {
      case 0: case 1: case 2: case 3:
      {
        if (!n) break;
        size_t p = r.below (n); bool hole = r.chance (1, 5); V v = hole ? vhole () : need ();
        log_op ("add [%zu] = %s", p, vshow (v).substr (0, 100).c_str ());
        iot_data_vector_add (d, p, hole ? nullptr : build_random (v, r)); m.e[p] = v; count ("store"); break;
      }
      case 4: case 5:
      {
        uint32_t s = r.chance (1, 3) ? r.below (4) : r.chance (1, 4) ? n : r.below (n + 6);
        log_op ("resize %zu -> %u", n, s);
        iot_data_vector_resize (d, s); m.e.resize (s, vhole ()); count ("resize"); break;
      }
      case 6:
      {
        log_op ("compact");
        uint32_t got = iot_data_vector_compact (d);
        m.e.erase (std::remove_if (m.e.begin (), m.e.end (), [] (const V & x) { return x.hole (); }), m.e.end ());
        VH_CHECK (got == m.e.size (), "vector-compact", "compact returned %u, expected %zu", got, m.e.size ()); count ("compact"); break;
      }
      case 7:
      {
        FindArg a; V v = n && r.chance (3, 4) ? m.e[r.below (n)] : need (); if (v.hole ()) break;
        iot_data_t * want = build (v); a.want = want;
        size_t f = n; for (size_t k = 0; k < n; k++) if (!m.e[k].hole () && veq (m.e[k], v)) { f = k; break; }
        const iot_data_t * got = iot_data_vector_find (d, find_cb, &a);
        VH_CHECK (got == (f < n ? iot_data_vector_get (d, f) : nullptr), "vector-find", "find(%s) wrong", vshow (v).c_str ());
        iot_data_free (want); count ("find"); break;
      }
      case 8: case 9:
      {
        if (!n) break;
        size_t p = r.below (n); iot_data_vector_iter_t it; iot_data_vector_iter (d, &it);
        for (size_t k = 0; k <= p; k++) iot_data_vector_iter_next (&it);
        V v = need (); log_op ("iter replace [%zu] = %s", p, vshow (v).substr (0, 100).c_str ());
        const iot_data_t * was = iot_data_vector_iter_value (&it); iot_data_t * vd = build (v);
        iot_data_t * old = iot_data_vector_iter_replace_value (&it, vd);
        VH_CHECK (old == was && iot_data_vector_get (d, p) == vd, "vector-iter-replace", "replace at %zu wrong", p);
        iot_data_free (old); m.e[p] = v;
        iot_data_vector_iter (d, &it); iot_data_t * x = build (v); VH_CHECK (iot_data_vector_iter_replace_value (&it, x) == nullptr, "vector-iter-replace", "replace at no position"); iot_data_free (x);
        count ("iterator replace"); break;
      }
      case 10: counts (); break;
      default: wander_vector (); break;
    }
    VH_CHECK (iot_data_vector_size (d) == m.e.size () && iot_data_length (d) == m.e.size (), "vector-size", "size %u, expected %zu", iot_data_vector_size (d), m.e.size ());
  }
  static uint32_t cnt (const V & v, iot_data_type_t t, bool rec)
  {
    uint32_t c = 0;
    for (auto & x : v.e) { if (x.hole ()) continue; if (rec && x.t == IOT_DATA_VECTOR) c += cnt (x, t, rec); else if (t == IOT_DATA_MULTI || x.t == t) c++; }
    return c;
  }
  void counts ()
  {
    for (unsigned k = 0; k < 6; k++)
    {
      iot_data_type_t t = r.chance (1, 3) ? IOT_DATA_MULTI : (iot_data_type_t) r.below (19); bool rec = r.chance (1, 2);
      uint32_t got = iot_data_vector_element_count (d, t, rec), want = cnt (m, t, rec);
      VH_CHECK (got == want, "vector-count", "element_count(%s, %d) = %u, expected %u in %s", iot_data_type_string (t), rec, got, want, quote (vshow (m)).c_str ());
    }
    count ("element counts");
  }
  void wander_vector ()
  {
    long n = (long) m.e.size (), pos = -1;
    iot_data_vector_iter_t it; iot_data_vector_iter (d, &it);
    iot_data_iter_t g; iot_data_iter (d, &g);
    for (unsigned k = 0; k < 14; k++)
    {
      bool fwd = r.chance (1, 2), whn = pos < 0 ? n > 0 : pos + 1 < n;
      VH_CHECK (iot_data_vector_iter_has_next (&it) == whn && iot_data_iter_has_next (&g) == whn, "vector-has-next", "has_next %d at %ld of %ld", !whn, pos, n);
      bool ok = fwd ? iot_data_vector_iter_next (&it) : iot_data_vector_iter_prev (&it);
      bool gok = fwd ? iot_data_iter_next (&g) : iot_data_iter_prev (&g);
      pos = fwd ? (pos < 0 ? 0 : pos + 1) : (pos < 0 ? n - 1 : pos - 1);
      if (pos >= n || pos < 0) pos = -1;
      VH_CHECK (ok == (pos >= 0) && gok == ok, "vector-iter-wander", "iteration ok=%d/%d at %ld of %ld", ok, gok, pos, n);
      const iot_data_t * v = iot_data_vector_iter_value (&it);
      VH_CHECK (iot_data_iter_value (&g) == v, "generic-iter", "generic vector iteration differs");
      if (pos >= 0)
      {
        std::string why; VH_CHECK (matches (v, m.e[pos], why), "vector-iter-wander", "at %ld: %s", pos, why.c_str ());
        VH_CHECK (iot_data_vector_iter_index (&it) == (uint32_t) pos, "vector-iter-index", "index %u, expected %ld", iot_data_vector_iter_index (&it), pos);
        VH_CHECK (v == iot_data_vector_get (d, (uint32_t) pos), "vector-get", "get and iterator disagree at %ld", pos);
        VH_CHECK (iot_data_vector_iter_string_value (&it) == (v ? iot_data_string (v) : nullptr) && iot_data_vector_iter_pointer_value (&it) == (v ? iot_data_pointer (v) : nullptr), "vector-iter-typed", "typed iterator value differs");
        if (v) VH_CHECK (iot_data_vector_iter_string (&it) == iot_data_string (v), "vector-iter-typed", "iterator string differs");
        VH_CHECK (iot_data_vector_get_pointer (d, pos) == (v && iot_data_type (v) == IOT_DATA_POINTER ? iot_data_pointer (v) : nullptr), "vector-get-pointer", "differs at %ld", pos);
      }
      else VH_CHECK (!v && !iot_data_vector_iter_string_value (&it) && !iot_data_vector_iter_pointer_value (&it) && !iot_data_vector_iter_string (&it), "vector-iter-typed", "value at no position");
    }
    VH_CHECK (iot_data_vector_get_pointer (d, n) == nullptr, "vector-get-pointer", "value past the end");
    count ("iterations judged");
  }
  void step ()
  {
    if (m.t == IOT_DATA_LIST) list_step (); else vector_step ();
    if (r.chance (1, 6)) iot_data_hash (d);
    if (r.chance (1, 30)) { iot_data_t * c = r.chance (1, 2) ? iot_data_copy (d) : iot_data_shallow_copy (d); iot_data_free (d); d = c; log_op ("copied"); }
  }
};
