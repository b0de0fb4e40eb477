// C11: copies and path updates give the right value and never alter the original; compression keeps the value and shares equal parts.
#include "ops.hpp"
#include <map>
static GenOpt opt (Rng & r)
{
  GenOpt o; o.pointers = false; o.inf = true; o.holes = false; o.width = 4; o.depth = 3; o.neg_zero = false; o.typed = r.chance (1, 3); o.string_keys = r.chance (1, 2); return o;
}
static bool cont (const V & v) { return v.t == IOT_DATA_MAP || v.t == IOT_DATA_VECTOR; }
// a container of mostly maps and vectors
static V tree (Rng & r, const GenOpt & o, unsigned depth)
{
  V v; v.t = r.chance (1, 2) ? IOT_DATA_MAP : IOT_DATA_VECTOR; unsigned n = r.below (5);
  if (v.t == IOT_DATA_MAP) v.kt = o.string_keys || r.chance (1, 2) ? IOT_DATA_STRING : r.chance (1, 2) ? IOT_DATA_INT32 : IOT_DATA_MULTI;
  for (unsigned k = 0; k < n; k++)
  {
    V x = depth && r.chance (2, 3) ? tree (r, o, depth - 1) : gen_value (r, o, r.below (3));
    if (v.t == IOT_DATA_MAP) vmap_set (v, gen_key (r, o, v.kt), x); else v.e.push_back (x);
  }
  return v;
}
typedef std::vector<V> Path;
static V * at (V & v, const Path & p, size_t n) { V * c = &v; for (size_t k = 0; k < n && c; k++) { if (c->t == IOT_DATA_MAP) c = vmap_find (*c, p[k]); else if (c->t == IOT_DATA_VECTOR && p[k].t == IOT_DATA_UINT32 && p[k].u < c->e.size ()) { c = &c->e[p[k].u]; if (c->hole ()) c = nullptr; } else c = nullptr; } return c; }
static V bad_step (Rng & r, const GenOpt & o, const V & c)
{
  if (c.t == IOT_DATA_MAP) { V k = gen_key (r, o, c.kt); return k; }
  if (c.t == IOT_DATA_VECTOR) switch (r.below (4)) { case 0: return vint (IOT_DATA_UINT32, c.e.size ()); case 1: return vint (IOT_DATA_INT32, 0); case 2: return vstr ("0"); default: return vint (IOT_DATA_UINT32, (int64_t) (c.e.size () + r.below (4000000000ull))); }
  return r.chance (1, 2) ? vstr ("x") : vint (IOT_DATA_UINT32, 0);
}
// a path to an existing element; stops with chance at each level. Every step is valid.
static Path walk (Rng & r, const V & v, bool into_containers)
{
  Path p; const V * c = &v;
  while (cont (*c) && (p.empty () || r.chance (3, 4)))
  {
    size_t n = c->t == IOT_DATA_MAP ? c->m.size () : c->e.size (); if (!n) break;
    size_t k = r.below (n); const V * nx = c->t == IOT_DATA_MAP ? &c->m[k].second : &c->e[k];
    if (into_containers && !cont (*nx)) break;
    p.push_back (c->t == IOT_DATA_MAP ? c->m[k].first : vint (IOT_DATA_UINT32, (int64_t) k)); c = nx;
  }
  return p;
}
static iot_data_t * path_of (Rng & r, const Path & p, iot_data_list_static_t * st = nullptr)   // read from the head
{
  iot_data_t * l = st ? iot_data_alloc_const_list (st) : iot_data_alloc_list ();
  if (r.chance (1, 2)) for (auto & x : p) iot_data_list_tail_push (l, build (x)); else for (size_t k = p.size (); k-- > 0;) iot_data_list_head_push (l, build (p[k]));
  return l;
}
static std::string pshow (const Path & p) { std::string s; for (auto & x : p) s += "/" + vshow (x); return s.substr (0, 300); }
struct PathArg { const iot_data_t * want; V * repl; unsigned calls; const iot_data_t * seen; };
static iot_data_t * upd (const iot_data_t * d, void * a) { PathArg * p = (PathArg *) a; p->calls++; p->seen = d; return p->repl ? build (*p->repl) : iot_data_add_ref (d); }

struct Version { V v; iot_data_t * d; };
static void m_path (Rng & r, uint64_t idx)
{
  GenOpt o = opt (r); std::vector<Version> vs;
  V root = tree (r, o, 3); while (!cont (root)) root = tree (r, o, 3);
  vs.push_back ({ root, build_random (root, r) });
  unsigned steps = 20 + r.below (40); uint64_t h = vhash (root);
  for (unsigned s = 0; s < steps; s++)
  {
    size_t w = r.below (vs.size ()); V v = vs[w].v; iot_data_t * d = vs[w].d; if (!cont (v)) { root = tree (r, o, 3); vs.push_back ({ root, build (root) }); continue; }
    iot_data_list_static_t st; bool stat = r.chance (1, 5);
    unsigned op = r.below (10);
    V nv; iot_data_t * nd = nullptr; Path p; iot_data_t * pd;
    if (op < 3)
    {
      p = walk (r, v, false); bool bad = r.chance (1, 3);
      if (bad) { size_t n = r.below (p.size () + 1); V * c = at (v, p, n); p.resize (n); p.push_back (bad_step (r, o, *c)); if (r.chance (1, 3)) p.push_back (vstr ("more")); }
      pd = path_of (r, p, stat ? &st : nullptr); log_op ("get_at %s in version %zu", pshow (p).c_str (), w);
      V * want = at (v, p, p.size ()); const iot_data_t * got = iot_data_get_at (d, pd);
      VH_CHECK ((got != nullptr) == (want != nullptr), "get-at", "get_at(%s) %s in %s", pshow (p).c_str (), got ? "found something" : "found nothing", quote (vshow (v)).c_str ());
      if (want) CHECK_MATCH (got, *want, "get-at-value");
      count (want ? "lookups of existing paths" : "lookups of absent paths");
    }
    else if (op < 5)
    {
      // add at a path whose intermediate elements exist
      p = walk (r, v, true); V * c = at (v, p, p.size ());
      if (c->t == IOT_DATA_VECTOR && c->e.empty ()) continue;
      iot_data_type_t et = c->et;
      V k = c->t == IOT_DATA_MAP ? (c->m.empty () || r.chance (1, 2) ? gen_key (r, o, c->kt) : c->m[r.below (c->m.size ())].first) : vint (IOT_DATA_UINT32, (int64_t) r.below (c->e.size ()));
      p.push_back (k); V x = et == IOT_DATA_MULTI ? (r.chance (1, 3) ? tree (r, o, 2) : gen_value (r, o, 1)) : gen_typed (r, o, et, 1);
      nv = v; V * nc = at (nv, p, p.size () - 1); if (nc->t == IOT_DATA_MAP) vmap_set (*nc, k, x); else nc->e[k.u] = x;
      pd = path_of (r, p, stat ? &st : nullptr); log_op ("add_at %s = %s in version %zu", pshow (p).c_str (), vshow (x).substr (0, 100).c_str (), w);
      iot_data_t * xd = build_random (x, r); nd = iot_data_add_at (d, pd, xd);
      VH_CHECK (iot_data_get_at (nd, pd) == xd, "add-at-stored", "the value added is not at its path"); count ("path additions");
    }
    else if (op < 7)
    {
      p = walk (r, v, false); if (p.empty ()) continue;
      nv = v; V * nc = at (nv, p, p.size () - 1); bool absent = nc->t == IOT_DATA_MAP && r.chance (1, 4);
      if (absent) { V k = gen_key (r, o, nc->kt); p.back () = k; }
      if (nc->t == IOT_DATA_MAP) vmap_del (*nc, p.back ()); else nc->e.erase (nc->e.begin () + (long) p.back ().u);
      pd = path_of (r, p, stat ? &st : nullptr); log_op ("remove_at %s in version %zu", pshow (p).c_str (), w);
      nd = iot_data_remove_at (d, pd); count ("path removals");
    }
    else if (op < 9)
    {
      p = walk (r, v, false); V * c = at (v, p, p.size ()); nv = v; PathArg a { nullptr, nullptr, 0, nullptr };
      V parent; iot_data_type_t et = IOT_DATA_MULTI; if (!p.empty ()) et = at (v, p, p.size () - 1)->et;
      V x = et == IOT_DATA_MULTI ? gen_value (r, o, 1) : gen_typed (r, o, et, 1); bool same = r.chance (1, 5); bool absent = !p.empty () && at (v, p, p.size () - 1)->t == IOT_DATA_MAP && r.chance (1, 6);
      if (absent) { p.back () = gen_key (r, o, at (v, p, p.size () - 1)->kt); c = at (v, p, p.size ()); }
      if (!same) a.repl = &x;
      if (!same && c) *at (nv, p, p.size ()) = x;
      pd = path_of (r, p, stat ? &st : nullptr); log_op ("update_at %s = %s in version %zu", pshow (p).c_str (), vshow (x).substr (0, 100).c_str (), w);
      const iot_data_t * was = iot_data_get_at (d, pd);
      nd = iot_data_update_at (d, pd, upd, &a);
      VH_CHECK (a.calls == (c ? 1u : 0u), "update-at-calls", "update function called %u times", a.calls); if (c) VH_CHECK (a.seen == was, "update-at-arg", "update function given another value");
      if (nd == d) { VH_CHECK (p.empty () && same, "update-at-same", "an update returned its argument"); iot_data_free (nd); nd = nullptr; }
      count ("path updates");
    }
    else
    {
      // in-place change of one version's root: derived versions and originals must not notice
      if (!cont (v)) continue; pd = path_of (r, p, nullptr); stat = false;
      if (v.t == IOT_DATA_MAP) { V k = gen_key (r, o, v.kt), x = v.et == IOT_DATA_MULTI ? gen_value (r, o, 1) : gen_typed (r, o, v.et, 1); log_op ("map_add to version %zu", w); iot_data_map_add (d, build (k), build (x)); vmap_set (vs[w].v, k, x); }
      else { log_op ("resize version %zu", w); if (v.et == IOT_DATA_MULTI) { iot_data_vector_resize (d, v.e.size () + 1); V x = gen_value (r, o, 1); iot_data_vector_add (d, v.e.size (), build (x)); vs[w].v.e.push_back (x); } }
      count ("in-place changes");
    }
    if (stat) { iot_data_list_empty (pd); } else { V pv; pv.t = IOT_DATA_LIST; for (size_t k = p.size (); k-- > 0;) pv.e.push_back (p[k]); CHECK_MATCH (pd, pv, "path-changed"); }
    iot_data_free (pd);
    if (nd)
    {
      std::string why; VH_CHECK (matches (nd, nv, why, true), "path-result", "%s; expected %s", why.c_str (), quote (vshow (nv)).c_str ());
      vs.push_back ({ nv, nd });
    }
    for (size_t k = 0; k < vs.size (); k++) if (k == w || r.chance (1, 3) || vs.size () < 5) CHECK_MATCH (vs[k].d, vs[k].v, "path-original-changed");
    if (vs.size () > 8) { size_t k = r.below (vs.size ()); log_op ("free version %zu", k); iot_data_free (vs[k].d); vs.erase (vs.begin () + (long) k); }
    evaluation (); h = Rng::mix (h ^ vhash (nd ? nv : v)); distinct (h);
  }
  // hashes and equality of versions agree with fresh values
  for (auto & x : vs) { iot_data_t * f = build (x.v); VH_CHECK (iot_data_equal (f, x.d) && iot_data_hash (f) == iot_data_hash (x.d), "version-equal", "a derived version does not equal a fresh one: %s", quote (vshow (x.v)).c_str ()); iot_data_free (f); }
  if (idx < 3 && want_sample ()) show ("%u path operations ending with %zu live versions, e.g. %s", steps, vs.size (), vshow (vs.back ().v).substr (0, 300).c_str ());
  for (auto & x : vs) iot_data_free (x.d);
}
// no composed value (or byte buffer) may be shared between a value and its deep copy
static void collect (const iot_data_t * d, std::vector<const iot_data_t *> & out)
{
  if (!d) return; out.push_back (d);
  iot_data_iter_t it;
  switch (iot_data_type (d))
  {
    case IOT_DATA_VECTOR: for (uint32_t k = 0; k < iot_data_vector_size (d); k++) collect (iot_data_vector_get (d, k), out); break;
    case IOT_DATA_LIST: case IOT_DATA_MAP: iot_data_iter (d, &it); while (iot_data_iter_next (&it)) collect (iot_data_iter_value (&it), out); break;
    default: break;
  }
}
static void m_copy (Rng & r, uint64_t idx)
{
  GenOpt o = opt (r); o.holes = true; o.pointers = true; o.neg_zero = true; o.width = 5;
  for (unsigned rep = 0; rep < 4; rep++)
  {
    V v = gen_value (r, o); if (v.t == IOT_DATA_MAP || v.t == IOT_DATA_VECTOR || v.t == IOT_DATA_LIST || rep == 0) {} else v = gen_typed (r, o, (iot_data_type_t) (16 + r.below (3)), 3);
    std::function<void (V &)> nz = [&] (V & x) { for (auto & y : x.e) nz (y); for (auto & y : x.m) { if (is_flt (y.first.t) && y.first.d == 0) y.first.d = 0.0; nz (y.second); } }; nz (v);
    iot_data_t * d = build_random (v, r), * meta = iot_data_alloc_string ("note", IOT_DATA_REF); bool has_meta = !iot_data_is_static (d) && r.chance (1, 2);
    V mv = gen_value (r, o, 1); nz (mv); if (has_meta) iot_data_set_metadata (d, build (mv), meta);
    iot_data_t * c = iot_data_copy (d), * s = iot_data_shallow_copy (d);
    log_op ("copies of %s", vshow (v).substr (0, 300).c_str ());
    CHECK_MATCH (c, v, "copy-value"); CHECK_MATCH (s, v, "shallow-copy-value");
    VH_CHECK (iot_data_equal (c, d) && iot_data_equal (s, d) && iot_data_hash (c) == iot_data_hash (d), "copy-equal", "a copy does not equal its source: %s", quote (vshow (v)).c_str ());
    if (has_meta) { const iot_data_t * m = iot_data_get_metadata (c, meta); VH_CHECK (m != nullptr, "copy-metadata", "metadata lost"); CHECK_MATCH (m, mv, "copy-metadata"); }
    if (v.t >= IOT_DATA_VECTOR)
    {
      std::vector<const iot_data_t *> a, b; collect (d, a); collect (c, b); std::map<const void *, bool> seen;
      for (auto x : a) { seen[x] = true; }
      for (auto x : b) VH_CHECK (!seen.count (x) || iot_data_is_static (x) || iot_data_type (x) == IOT_DATA_POINTER, "copy-shares", "a deep copy shares a %s with its source", iot_data_type_name (x));
      count ("sub-values checked for sharing", b.size ());
      // the shallow copy holds the same elements
      iot_data_iter_t i1, i2; if (v.t != IOT_DATA_MAP || true) { iot_data_iter (d, &i1); iot_data_iter (s, &i2); while (iot_data_iter_next (&i1)) { VH_CHECK (iot_data_iter_next (&i2) && iot_data_iter_value (&i1) == iot_data_iter_value (&i2), "shallow-copy-elements", "a shallow copy holds other elements"); } VH_CHECK (!iot_data_iter_next (&i2), "shallow-copy-elements", "a shallow copy holds more elements"); }
    }
    // change one of the three in every way its type allows; the others must not notice
    unsigned which = r.below (3); iot_data_t * t = which == 0 ? d : which == 1 ? c : s;
    bool composed = v.t >= IOT_DATA_VECTOR; V tv = v;
    if (composed || (which == 1 && v.t != IOT_DATA_POINTER && v.t != IOT_DATA_BOOL && v.t != IOT_DATA_NULL))
    {
      if (v.t == IOT_DATA_MAP) { iot_data_map_empty (t); tv.m.clear (); }
      else if (v.t == IOT_DATA_VECTOR) { iot_data_vector_resize (t, 0); tv.e.clear (); }
      else if (v.t == IOT_DATA_LIST) { iot_data_list_empty (t); tv.e.clear (); }
      else if (is_int (v.t)) { iot_data_increment (t); tv = snapshot (t); }
      else if (v.t == IOT_DATA_BINARY || v.t == IOT_DATA_ARRAY) { uint32_t n; void * p = iot_data_binary_take (t, &n); if (n) memset (p, 0x55, n); free (p); tv = snapshot (t); }
      if (has_meta && which < 2) { iot_data_set_metadata (t, iot_data_alloc_i32 (-9), meta); }
      count ("copies diverged");
      CHECK_MATCH (d, which == 0 ? tv : v, "copy-aliased"); CHECK_MATCH (c, which == 1 ? tv : v, "copy-aliased"); if (composed) CHECK_MATCH (s, which == 2 ? tv : v, "copy-aliased");
      if (has_meta && which < 2) CHECK_MATCH (iot_data_get_metadata (which == 0 ? c : d, meta), mv, "copy-metadata-aliased");
    }
    // deep change: mutate a nested container of the deep copy
    if (composed && which != 1)
    {
      std::vector<const iot_data_t *> b; collect (c, b); std::vector<iot_data_t *> cs; for (auto x : b) if (iot_data_type (x) >= IOT_DATA_VECTOR && iot_data_type (x) <= IOT_DATA_MAP) cs.push_back ((iot_data_t *) x);
      iot_data_t * x = cs[r.below (cs.size ())];
      if (iot_data_type (x) == IOT_DATA_MAP) iot_data_map_empty (x); else if (iot_data_type (x) == IOT_DATA_VECTOR) iot_data_vector_resize (x, 0); else iot_data_list_empty (x);
      CHECK_MATCH (d, which == 0 ? tv : v, "copy-deep-aliased"); CHECK_MATCH (s, which == 2 ? tv : v, "copy-deep-aliased"); count ("deep copies diverged");
    }
    if (idx < 2 && want_sample ()) show ("copy %s", vshow (v).substr (0, 300).c_str ());
    iot_data_free (meta); iot_data_free (c); iot_data_free (d); iot_data_free (s);
    evaluation (); distinct (vhash (v));
  }
}
static void m_compress (Rng & r, uint64_t idx)
{
  GenOpt o = opt (r); o.width = 6; o.holes = r.chance (1, 3); o.neg_zero = false;
  iot_data_t * cache = r.chance (1, 2) ? iot_data_alloc_map (IOT_DATA_MULTI) : nullptr;
  std::vector<V> vocab; for (unsigned k = 0; k < 5; k++) vocab.push_back (gen_value (r, o, 1));
  std::vector<Version> vs; unsigned n = 1 + r.below (4);
  for (unsigned k = 0; k < n; k++)
  {
    V v = gen_typed (r, o, (iot_data_type_t) (16 + r.below (3)), 3);
    if (v.et == IOT_DATA_MULTI) { for (auto & x : v.e) if (r.chance (1, 2)) x = r.pick (vocab); for (auto & x : v.m) if (r.chance (1, 2)) x.second = r.pick (vocab); }
    iot_data_t * d = build_random (v, r); log_op ("compress %s", vshow (v).substr (0, 200).c_str ());
    uint32_t h0 = r.chance (1, 2) ? iot_data_hash (d) : 0;
    if (cache) iot_data_compress_with_cache (d, cache); else iot_data_compress (d);
    vs.push_back ({ v, d });
    if (h0) VH_CHECK (iot_data_hash (d) == h0, "compress-hash", "compressing changed the hash of %s", quote (vshow (v)).c_str ());
    evaluation (); distinct (vhash (v));
  }
  std::vector<const iot_data_t *> all;
  for (auto & x : vs)
  {
    V got = snapshot (x.d); VH_CHECK (veq (got, x.v), "compress-value", "compressing changed %s to %s", quote (vshow (x.v)).c_str (), quote (vshow (got)).c_str ());
    iot_data_t * f = build (x.v); VH_CHECK (iot_data_equal (f, x.d), "compress-equal", "a compressed value does not equal its original %s", quote (vshow (x.v)).c_str ()); iot_data_free (f);
    if (cache || vs.size () == 1) { std::vector<const iot_data_t *> k; collect (x.d, k); all.insert (all.end (), k.begin () + 1, k.end ()); }
  }
  if (all.size () < 400) for (size_t a = 0; a < all.size (); a++) for (size_t b = 0; b < a; b++) if (all[a] != all[b] && iot_data_type (all[a]) < IOT_DATA_VECTOR)
  {
    VH_CHECK (!iot_data_equal (all[a], all[b]), "compress-shares", "equal sub-values not shared after compression: %s", vshow (snapshot (all[a])).c_str ()); count ("pairs judged for sharing");
  }
  if (idx < 2 && want_sample ()) show ("compressed %s", vshow (vs[0].v).substr (0, 300).c_str ());
  if (r.chance (1, 2)) { iot_data_free (cache); cache = nullptr; }
  for (auto & x : vs) { CHECK_MATCH (x.d, snapshot (x.d), "compress-value"); iot_data_free (x.d); }
  iot_data_free (cache);
}
static const Mode modes[] = { {"path", m_path, true}, {"copy", m_copy, true}, {"compress", m_compress, true} };
int main (int argc, char ** argv) { return run (argc, argv, modes, 3); }
