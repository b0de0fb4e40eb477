// C07: maps behave as ordered dictionaries under every operation history.
#include "ops.hpp"
#include <set>
static GenOpt opt (Rng & r)
{
  GenOpt o; o.pointers = true; o.inf = r.chance (1, 2); o.composed_keys = r.chance (1, 3); o.neg_zero = false; o.width = 4; o.depth = 2;
  return o;
}
static void m_history (Rng & r, uint64_t idx)
{
  GenOpt o = opt (r);
  iot_data_type_t kt = r.chance (1, 3) ? IOT_DATA_STRING : r.chance (1, 3) ? IOT_DATA_MULTI : (iot_data_type_t) r.below (16);
  if (kt == IOT_DATA_NULL) kt = IOT_DATA_MULTI;
  iot_data_type_t et = r.chance (2, 3) ? IOT_DATA_MULTI : (iot_data_type_t) r.below (19);
  unsigned nkeys = r.chance (1, 4) ? 3 + r.below (4) : 6 + r.below (60);
  MapOps ops (r, o, kt, et, nkeys);
  unsigned steps = 40 + r.below (120);
  uint64_t h = vhash (ops.m);
  for (unsigned k = 0; k < steps; k++)
  {
    ops.step ();
    VH_CHECK (iot_data_map_size (ops.d) == ops.m.m.size (), "map-size", "size %u, expected %zu", iot_data_map_size (ops.d), ops.m.m.size ());
    if (r.chance (1, 10)) { CHECK_MATCH (ops.d, ops.m, "map-content"); ops.ends (); }
    evaluation ();
    h = Rng::mix (h ^ vhash (ops.m)); distinct (h);
  }
  CHECK_MATCH (ops.d, ops.m, "map-content"); ops.ends ();
  // equality, hash and order agree with a freshly built equal map
  iot_data_t * f = build (ops.m);
  VH_CHECK (iot_data_equal (f, ops.d) && iot_data_hash (f) == iot_data_hash (ops.d), "map-equal-fresh", "a map with this history does not equal a fresh one: %s", quote (vshow (ops.m)).c_str ());
  iot_data_free (f);
  if (idx < 4 && want_sample ()) show ("history of %u operations over %u keys of %s, %zu entries left: %s", steps, nkeys, iot_data_type_string (kt), ops.m.m.size (), vshow (ops.m).substr (0, 300).c_str ());
}
// Integer keys in adversarial insertion/removal orders: exercises every tree shape; full check against std::map order
static void m_orders (Rng & r, uint64_t)
{
  unsigned n = 1 + r.below (r.chance (1, 6) ? 300 : 40);
  iot_data_t * d = iot_data_alloc_map (IOT_DATA_INT32);
  std::set<int> m;
  unsigned pat = r.below (6);
  auto pick = [&] (unsigned i) -> int { switch (pat) { case 0: return i; case 1: return n - i; case 2: return i % 2 ? (int) i : (int) (n - i); case 3: return (int) ((i * 7) % n); default: return (int) r.below (n * 2); } };
  auto judge = [&] ()
  {
    VH_CHECK (iot_data_map_size (d) == m.size (), "map-size", "size %u, expected %zu", iot_data_map_size (d), m.size ());
    iot_data_map_iter_t it; iot_data_map_iter (d, &it);
    for (int x : m) { VH_CHECK (iot_data_map_iter_next (&it) && iot_data_i32 (iot_data_map_iter_key (&it)) == x && iot_data_i32 (iot_data_map_iter_value (&it)) == x * 3, "map-order", "iteration differs at key %d", x); }
    VH_CHECK (!iot_data_map_iter_next (&it), "map-order", "iteration overran");
    iot_data_map_iter (d, &it);
    for (auto x = m.rbegin (); x != m.rend (); ++x) VH_CHECK (iot_data_map_iter_prev (&it) && iot_data_i32 (iot_data_map_iter_key (&it)) == *x, "map-order", "backward iteration differs at key %d", *x);
    VH_CHECK (!iot_data_map_iter_prev (&it), "map-order", "backward iteration overran");
    for (unsigned k = 0; k < 5; k++) { int x = (int) r.below (n * 2 + 1); iot_data_t * kd = iot_data_alloc_i32 (x); const iot_data_t * v = iot_data_map_get (d, kd); VH_CHECK ((v != nullptr) == (m.count (x) != 0), "map-get", "get(%d) %s", x, v ? "found" : "absent"); iot_data_free (kd); }
    evaluation ();
  };
  auto add = [&] (int x) { log_op ("add %d", x); iot_data_map_add (d, iot_data_alloc_i32 (x), iot_data_alloc_i32 (x * 3)); m.insert (x); };
  auto del = [&] (int x) { log_op ("remove %d", x); iot_data_t * kd = iot_data_alloc_i32 (x); bool b = iot_data_map_remove (d, kd); iot_data_free (kd); VH_CHECK (b == (m.erase (x) != 0), "map-remove", "remove(%d) returned %d", x, b); };
  uint64_t h = pat;
  for (unsigned i = 0; i < n; i++) { int x = pick (i); add (x); h = Rng::mix (h ^ (uint64_t) x); if (n < 60 || i % 16 == 0) judge (); if (r.chance (1, 5)) { x = pick (r.below (n)); del (x); h = Rng::mix (h ^ ~(uint64_t) x); judge (); } }
  distinct (h);
  pat = r.below (6);
  for (unsigned i = 0; i < n * 2 && !m.empty (); i++)
  {
    int x = r.chance (1, 2) ? pick (i % n) : r.chance (1, 2) ? *m.begin () : *m.rbegin ();
    del (x); h = Rng::mix (h ^ ~(uint64_t) x); distinct (h);
    if (r.chance (1, 6)) add ((int) r.below (n * 2));
    if (n < 60 || i % 16 == 0) judge ();
  }
  judge ();
  count ("tree histories");
  iot_data_free (d);
}
static const Mode modes[] = { {"history", m_history, true}, {"orders", m_orders, true} };
int main (int argc, char ** argv) { return run (argc, argv, modes, 2); }
