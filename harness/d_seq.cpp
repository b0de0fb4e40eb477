// C08: lists, vectors and arrays behave as sequences under every operation history.
#include "ops.hpp"
static GenOpt opt (Rng & r) { GenOpt o; o.pointers = true; o.inf = true; o.holes = true; o.width = 4; o.depth = 2; (void) r; return o; }
static void history (Rng & r, bool list, uint64_t idx)
{
  GenOpt o = opt (r);
  iot_data_type_t et = r.chance (2, 3) ? IOT_DATA_MULTI : (iot_data_type_t) r.below (19);
  if (!list && r.chance (1, 4)) et = r.chance (1, 2) ? IOT_DATA_VECTOR : IOT_DATA_MULTI;
  SeqOps ops (r, o, list, et, list ? 0 : r.below (12));
  unsigned steps = 40 + r.below (100);
  uint64_t h = vhash (ops.m);
  for (unsigned k = 0; k < steps; k++)
  {
    ops.step ();
    if (r.chance (1, 6)) CHECK_MATCH (ops.d, ops.m, "seq-content");
    evaluation (); h = Rng::mix (h ^ vhash (ops.m)); distinct (h);
  }
  CHECK_MATCH (ops.d, ops.m, "seq-content");
  if (list) ops.wander_list (); else { ops.wander_vector (); ops.counts (); }
  iot_data_t * f = build (ops.m);
  VH_CHECK (iot_data_equal (f, ops.d) && iot_data_hash (f) == iot_data_hash (ops.d), "seq-equal-fresh", "a sequence with this history does not equal a fresh one: %s", quote (vshow (ops.m)).c_str ());
  iot_data_free (f);
  if (idx < 3 && want_sample ()) show ("%s history of %u operations: %s", list ? "list" : "vector", steps, vshow (ops.m).substr (0, 300).c_str ());
}
static void m_list (Rng & r, uint64_t i) { history (r, true, i); }
static void m_vector (Rng & r, uint64_t i) { history (r, false, i); }
static void m_array (Rng & r, uint64_t)
{
  GenOpt o = opt (r); o.width = 20;
  for (unsigned rep = 0; rep < 20; rep++)
  {
    bool bin = r.chance (1, 4);
    V a = gen_typed (r, o, bin ? IOT_DATA_BINARY : IOT_DATA_ARRAY, 0);
    unsigned w = width (a.et); uint32_t n = a.s.size () / w;
    iot_data_t * d; std::string ext = a.s; bool ref = r.chance (1, 4);
    if (ref) d = bin ? iot_data_alloc_binary (n ? &ext[0] : nullptr, n, IOT_DATA_REF) : iot_data_alloc_array (n ? &ext[0] : nullptr, n, a.et, IOT_DATA_REF);
    else d = build_random (a, r);
    log_op ("array %s %s", vshow (a).substr (0, 180).c_str (), ref ? "by reference" : "");
    CHECK_MATCH (d, a, "array-content");
    VH_CHECK (iot_data_length (d) == n && iot_data_array_length (d) == n && iot_data_array_size (d) == n * w, "array-length", "length %u size %u, expected %u x %u", iot_data_array_length (d), iot_data_array_size (d), n, w);
    for (unsigned t = 0; t < 11; t++) VH_CHECK (iot_data_array_is_of_type (d, (iot_data_type_t) t) == (t == a.et), "array-type", "is_of_type(%u)", t);
    if (!bin) for (uint32_t k = 0; k < n; k++) VH_CHECK (memcmp (iot_data_array_get (d, k), a.s.data () + k * w, w) == 0, "array-get", "element %u differs", k);
    long pos = -1; iot_data_array_iter_t it; iot_data_array_iter (d, &it);
    for (unsigned k = 0; k < 2 * n + 6; k++)
    {
      bool fwd = k <= n + 1 ? true : r.chance (1, 2); bool whn = pos < 0 ? n > 0 : pos + 1 < (long) n;
      VH_CHECK (iot_data_array_iter_has_next (&it) == whn, "array-has-next", "has_next wrong at %ld of %u", pos, n);
      bool ok = fwd ? iot_data_array_iter_next (&it) : iot_data_array_iter_prev (&it);
      pos = fwd ? (pos < 0 ? 0 : pos + 1) : (pos < 0 ? (long) n - 1 : pos - 1); if (pos >= (long) n || pos < 0) pos = -1;
      VH_CHECK (ok == (pos >= 0), "array-iter", "iteration ok=%d at %ld of %u", ok, pos, n);
      const void * v = iot_data_array_iter_value (&it);
      if (pos >= 0) { VH_CHECK (iot_data_array_iter_index (&it) == (uint32_t) pos, "array-iter-index", "index %u at %ld", iot_data_array_iter_index (&it), pos); VH_CHECK (v && memcmp (v, a.s.data () + pos * w, w) == 0, "array-iter", "value differs at %ld", pos); }
      else VH_CHECK (v == nullptr, "array-iter", "value at no position");
    }
    iot_data_free (d); VH_CHECK (ext == a.s, "array-ref-untouched", "referenced bytes changed");
    evaluation (); distinct (vhash (a)); count ("arrays");
  }
}
// dimensions of nested vectors
static V nest (Rng & r, const std::vector<unsigned> & dims, size_t k)
{
  V v; v.t = IOT_DATA_VECTOR;
  for (unsigned i = 0; i < dims[k]; i++) v.e.push_back (k + 1 < dims.size () ? nest (r, dims, k + 1) : vint (IOT_DATA_UINT32, r.below (5)));
  return v;
}
static void perturb (Rng & r, V & v)
{
  if (!v.e.empty () && v.e[0].t == IOT_DATA_VECTOR && r.chance (2, 3)) { perturb (r, v.e[r.below (v.e.size ())]); return; }
  switch (r.below (4))
  {
    case 0: v.e.push_back (vint (IOT_DATA_INT8, 1)); break;
    case 1: if (!v.e.empty ()) v.e.pop_back (); break;
    case 2: if (!v.e.empty ()) { V x; x.t = IOT_DATA_VECTOR; x.e.push_back (v.e.back ()); v.e.back () = x; } break;
    default: if (!v.e.empty ()) v.e[r.below (v.e.size ())] = vhole (); break;
  }
}
static unsigned depth_of (const V & v)   // common depth, 1 when elements are not all vectors of one depth
{
  if (v.e.empty ()) return 1;
  unsigned d = 0;
  for (auto & x : v.e) { if (x.t != IOT_DATA_VECTOR) return 1; unsigned k = depth_of (x); if (d && k != d) return 1; d = k; }
  return d + 1;
}
static bool dims_of (const V & v, unsigned depth, std::vector<uint32_t> & dims, size_t k)
{
  if (dims.size () <= k) dims.push_back (v.e.size ()); else if (dims[k] != v.e.size ()) return false;
  if (depth > 1) for (auto & x : v.e) if (!dims_of (x, depth - 1, dims, k + 1)) return false;
  return true;
}
static void m_dims (Rng & r, uint64_t)
{
  for (unsigned rep = 0; rep < 20; rep++)
  {
    std::vector<unsigned> ds; unsigned nd = 1 + r.below (4); for (unsigned k = 0; k < nd; k++) ds.push_back (r.chance (1, 8) ? 0 : 1 + r.below (3));
    V v = nest (r, ds, 0); unsigned p = r.below (3); for (unsigned k = 0; k < p; k++) perturb (r, v);
    iot_data_t * d = build (v); uint32_t total = 999;
    log_op ("dimensions of %s", vshow (v).substr (0, 200).c_str ());
    iot_data_t * a = iot_data_vector_dimensions (d, &total);
    std::vector<uint32_t> want; bool ok = dims_of (v, depth_of (v), want, 0);
    VH_CHECK ((a != nullptr) == ok, "dimensions", "%s %s", vshow (v).c_str (), a ? "accepted" : "refused");
    uint32_t t = ok ? 1 : 0; if (ok) for (uint32_t x : want) t *= x;
    VH_CHECK (total == t, "dimensions-total", "%s total %u, expected %u", vshow (v).c_str (), total, t);
    if (a) { VH_CHECK (iot_data_array_length (a) == want.size () && memcmp (iot_data_address (a), want.data (), want.size () * 4) == 0, "dimensions-value", "%s gave %s", vshow (v).c_str (), vshow (snapshot (a)).c_str ()); iot_data_free (a); }
    CHECK_MATCH (d, v, "dimensions-source"); iot_data_free (d);
    evaluation (); distinct (vhash (v)); count (ok ? "regular vectors" : "irregular vectors");
  }
}
static const Mode modes[] = { {"list", m_list, true}, {"vector", m_vector, true}, {"array", m_array, true}, {"dims", m_dims, true} };
int main (int argc, char ** argv) { return run (argc, argv, modes, 4); }
