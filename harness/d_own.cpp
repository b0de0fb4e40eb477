// C10: every value is released exactly once, when its last owner lets go.
// An object graph with owner counts is kept beside the library; after every operation each live object's reference count must equal
// its owners, and the release callbacks seen must be exactly those of the objects whose last owner let go, at that moment.
#include "model_impl.hpp"
#include <set>
#include <map>
using namespace vh;

enum Kind { LEAF, PTR, KEY, LIST, VEC, MAP, COPY };
struct Obj
{
  iot_data_t * d = nullptr; Kind kind = LEAF; long drv = 0, held = 0; bool live = true; bool stat = false;
  std::vector<int> e;                                // list in iteration order, vector with -1 for holes
  std::vector<std::pair<int, int>> m, meta;          // (key object, value object)
  std::string s;                                     // content of a key; bytes of a referenced buffer
  long cookie = -1;                                  // pointer with a release callback
  std::vector<int> extra;                            // opaque deep copies: owners taken of these objects
  const char * what = "";
};
static const int NC = 4096;
static int g_released[NC]; static char g_arena[NC];
static void release_cb (void * p) { long k = (char *) p - g_arena; VH_CHECK (k >= 0 && k < NC, "release-arg", "release called with a foreign pointer"); g_released[k]++; }

struct World
{
  Rng & r; std::vector<Obj> o; long cookies = 0; std::set<int> want_released; iot_data_list_static_t slist;
  std::vector<std::string *> bufs;
  bool heap0;
  World (Rng & rr) : r (rr) { memset (g_released, 0, sizeof g_released); heap0 = iot_data_alloc_heap (false); o.reserve (4096); }
  ~World () { iot_data_alloc_heap (heap0); for (auto b : bufs) delete b; }
  int add (iot_data_t * d, Kind k, const char * what) { Obj x; x.d = d; x.kind = k; x.drv = 1; x.what = what; o.push_back (x); count ("objects created"); return (int) o.size () - 1; }
  void drop (int i)
  {
    if (i < 0) return;
    Obj & x = o[i];
    if (x.stat || x.drv + x.held > 0 || !x.live) return;
    x.live = false;
    if (x.cookie >= 0) want_released.insert ((int) x.cookie);
    std::vector<int> kids = x.e; for (auto & kv : x.m) { kids.push_back (kv.first); kids.push_back (kv.second); } for (auto & kv : x.meta) { kids.push_back (kv.first); kids.push_back (kv.second); } for (int k : x.extra) kids.push_back (k);
    for (int k : kids) if (k >= 0) { o[k].held--; drop (k); }
    count ("objects released");
  }
  int pick (std::function<bool (const Obj &)> ok) { std::vector<int> c; for (size_t k = 0; k < o.size (); k++) if (o[k].live && (o[k].drv > 0) && ok (o[k])) c.push_back ((int) k); return c.empty () ? -1 : c[r.below (c.size ())]; }
  int pick_kind (Kind k) { return pick ([k] (const Obj & x) { return x.kind == k; }); }
  bool reaches (int from, int to) { if (from == to) return true; for (int k : o[from].e) if (k >= 0 && reaches (k, to)) return true; for (auto & kv : o[from].m) if (reaches (kv.first, to) || reaches (kv.second, to)) return true; for (auto & kv : o[from].meta) if (reaches (kv.first, to) || reaches (kv.second, to)) return true; return false; }
  // a reference to hand over: either our own is given away or a new one is taken
  iot_data_t * give (int i) { if (o[i].drv > 1 || r.chance (1, 2)) { o[i].drv--; o[i].held++; return o[i].d; } o[i].held++; return iot_data_add_ref (o[i].d); }
  int value_for (int container) { return pick ([&] (const Obj & x) { return x.kind != COPY && !reaches ((int) (&x - &o[0]), container); }); }
  int leaf ()
  {
    bool h = r.chance (1, 4); iot_data_alloc_heap (h);
    int i; std::string s; unsigned n;
    switch (r.below (9))
    {
      case 0: i = add (iot_data_alloc_i32 ((int32_t) r.next ()), LEAF, "int"); break;
      case 1: n = r.below (100); s.assign (n, 'x'); i = add (iot_data_alloc_string (s.c_str (), IOT_DATA_COPY), LEAF, "copied string"); if (n) s[0] = 'y'; VH_CHECK (strlen (iot_data_string (o[i].d)) == n && (!n || iot_data_string (o[i].d)[0] == 'x'), "copied-not-duplicated", "a copied string follows its source"); break;
      case 2: n = r.below (100); s.assign (n, 'z'); i = add (iot_data_alloc_string (strdup (s.c_str ()), IOT_DATA_TAKE), LEAF, "taken string"); break;
      case 3: { std::string * b = new std::string (1 + r.below (60), 'r'); bufs.push_back (b); i = add (iot_data_alloc_string (b->c_str (), IOT_DATA_REF), LEAF, "referenced string"); o[i].s = *b; VH_CHECK (iot_data_string (o[i].d) == b->c_str (), "referenced-copied", "a referenced string was duplicated"); break; }
      case 4: { n = 1 + r.below (40); void * p = malloc (n * 4); memset (p, 7, n * 4); i = add (r.chance (1, 2) ? iot_data_alloc_array (p, n, IOT_DATA_UINT32, IOT_DATA_TAKE) : iot_data_alloc_binary (p, n * 4, IOT_DATA_TAKE), LEAF, "taken array"); break; }
      case 5: { std::string * b = new std::string (1 + r.below (60), 'b'); bufs.push_back (b); i = add (iot_data_alloc_binary (&(*b)[0], b->size (), r.chance (1, 2) ? IOT_DATA_REF : IOT_DATA_COPY), LEAF, "referenced/copied binary"); break; }
      default:
      {
        bool cb = cookies < NC - 1; long c = cb ? cookies++ : 0;
        i = add (iot_data_alloc_pointer (&g_arena[c], cb ? release_cb : nullptr), PTR, "pointer"); if (cb) o[i].cookie = c; break;
      }
    }
    iot_data_alloc_heap (r.chance (1, 4));
    return i;
  }
  int key (int similar = -1)
  {
    std::string s = similar >= 0 ? o[similar].s : "k" + std::to_string (r.below (8)); if (r.chance (1, 8) && similar < 0) s += "-a-longer-key-that-does-not-fit-inline";
    int i = add (r.chance (1, 3) ? iot_data_alloc_string (strdup (s.c_str ()), IOT_DATA_TAKE) : iot_data_alloc_string (s.c_str (), IOT_DATA_COPY), KEY, "key"); o[i].s = s; return i;
  }
  int some_key (int c) { int k = r.chance (1, 2) ? pick_kind (KEY) : -1; return k >= 0 && !reaches (k, c) ? k : key (); }
  int container ()
  {
    int i; iot_data_alloc_heap (r.chance (1, 4));
    switch (r.below (3))
    {
      case 0: i = add (iot_data_alloc_list (), LIST, "list"); break;
      case 1: { unsigned n = r.below (6); i = add (iot_data_alloc_vector (n), VEC, "vector"); o[i].e.assign (n, -1); break; }
      default: i = add (iot_data_alloc_map (IOT_DATA_STRING), MAP, "map"); break;
    }
    return i;
  }
  std::pair<int, int> * entry (std::vector<std::pair<int, int>> & m, int k) { for (auto & kv : m) if (o[kv.first].s == o[k].s) return &kv; return nullptr; }
  void put (std::vector<std::pair<int, int>> & m, int container, int k, int v)   // owners of k and v already counted
  {
    bool meta = &m == &o[container].meta; (void) meta;
    std::pair<int, int> * have = entry (m, k);
    if (have) { int ov = have->second; have->second = v; o[k].held--; drop (k); o[ov].held--; drop (ov); }
    else
    {
      size_t n = 0; while (n < m.size () && o[m[n].first].s < o[k].s) n++;
      m.insert (m.begin () + n, std::make_pair (k, v));
    }
  }
  // owners a deep copy takes: pointers are shared, metadata entries are shared
  void copy_owners (int i, std::vector<int> & ex)
  {
    Obj & x = o[i];
    if (x.kind == PTR) { ex.push_back (i); return; }
    if (x.stat && x.kind != LIST) return;
    for (int k : x.e) if (k >= 0) copy_owners (k, ex);
    for (auto & kv : x.m) { copy_owners (kv.first, ex); copy_owners (kv.second, ex); }
    for (auto & kv : x.meta) { ex.push_back (kv.first); ex.push_back (kv.second); }
  }
  void judge ()
  {
    for (size_t k = 0; k < o.size (); k++) if (o[k].live && !o[k].stat && o[k].kind != COPY)
    {
      uint32_t rc = iot_data_ref_count (o[k].d);
      VH_CHECK ((long) rc == o[k].drv + o[k].held, "ref-count", "%s #%zu has %ld owners but reference count %u", o[k].what, k, o[k].drv + o[k].held, rc);
    }
    for (long c = 0; c < cookies; c++)
    {
      int want = want_released.count ((int) c) ? 1 : 0;
      VH_CHECK (g_released[c] == want, want > g_released[c] ? "not-released" : "released-wrongly", "pointer %ld released %d times, expected %d", c, g_released[c], want);
    }
    evaluation ();
  }
  void free_ref (int i) { Obj & x = o[i]; x.drv--; iot_data_t * d = x.d; log_op ("free %s #%d", x.what, i); drop (i); iot_data_free (d); count ("frees"); }
  void step ()
  {
    unsigned op = r.below (30);
    if (op < 5) { int i = leaf (); log_op ("alloc %s #%d", o[i].what, i); return; }
    if (op < 8) { int i = container (); log_op ("alloc %s #%d", o[i].what, i); return; }
    if (op < 10) { int i = pick ([] (const Obj &) { return true; }); if (i >= 0 && !o[i].stat && o[i].kind != COPY) { log_op ("add_ref #%d", i); VH_CHECK (iot_data_add_ref (o[i].d) == o[i].d, "add-ref", "returned another value"); o[i].drv++; } return; }
    if (op < 13) { int i = pick ([] (const Obj & x) { return !x.stat; }); if (i >= 0) free_ref (i); return; }
    if (op < 16)
    {
      int c = pick_kind (LIST); if (c < 0) return; int v = value_for (c); if (v < 0) return;
      bool head = r.chance (1, 2); log_op ("%s_push #%d to #%d", head ? "head" : "tail", v, c);
      iot_data_t * d = give (v); if (head) { iot_data_list_head_push (o[c].d, d); o[c].e.push_back (v); } else { iot_data_list_tail_push (o[c].d, d); o[c].e.insert (o[c].e.begin (), v); }
      return;
    }
    if (op < 18)
    {
      int c = pick_kind (LIST); if (c < 0) return; std::vector<int> & e = o[c].e;
      unsigned w = r.below (4);
      if (w < 2)
      {
        iot_data_t * d = w ? iot_data_list_head_pop (o[c].d) : iot_data_list_tail_pop (o[c].d);
        VH_CHECK ((d == nullptr) == e.empty (), "list-pop", "pop"); if (!d) return;
        int v = w ? e.back () : e.front (); if (w) e.pop_back (); else e.erase (e.begin ());
        VH_CHECK (d == o[v].d, "list-pop", "popped another value"); o[v].held--; o[v].drv++; log_op ("pop #%d from #%d", v, c);
      }
      else if (!e.empty ())
      {
        size_t p = r.below (e.size ()); iot_data_list_iter_t it; iot_data_list_iter (o[c].d, &it); for (size_t k = 0; k <= p; k++) iot_data_list_iter_next (&it);
        int v = e[p];
        if (w == 2) { log_op ("iter_remove #%d from #%d", v, c); e.erase (e.begin () + p); o[v].held--; drop (v); iot_data_list_iter_remove (&it); }
        else { int n = value_for (c); if (n < 0) return; log_op ("iter_replace #%d by #%d in #%d", v, n, c); iot_data_t * old = iot_data_list_iter_replace (&it, give (n)); o[c].e[p] = n; VH_CHECK (old == o[v].d, "list-replace", "another value"); o[v].held--; o[v].drv++; }
      }
      return;
    }
    if (op < 22)
    {
      int c = pick_kind (VEC); if (c < 0) return; size_t n = o[c].e.size (); unsigned w = r.below (6);
      if (w < 3 && n)
      {
        size_t p = r.below (n); int v = r.chance (1, 6) ? -1 : value_for (c); log_op ("vector_add #%d [%zu] = #%d", c, p, v);
        iot_data_t * d = v >= 0 ? give (v) : nullptr; int old = o[c].e[p]; o[c].e[p] = v; if (old >= 0) { o[old].held--; drop (old); }
        iot_data_vector_add (o[c].d, p, d);
      }
      else if (w == 3)
      {
        uint32_t s = r.below (8); log_op ("resize #%d %zu to %u", c, n, s);
        std::vector<int> gone; for (size_t k = s; k < n; k++) gone.push_back (o[c].e[k]);
        o[c].e.resize (s, -1); for (int g : gone) if (g >= 0) { o[g].held--; drop (g); }
        iot_data_vector_resize (o[c].d, s);
      }
      else if (w == 4) { log_op ("compact #%d", c); auto & e = o[c].e; e.erase (std::remove (e.begin (), e.end (), -1), e.end ()); iot_data_vector_compact (o[c].d); }
      else if (n)
      {
        size_t p = r.below (n); int v = value_for (c); if (v < 0) return; log_op ("vector iter_replace #%d [%zu] = #%d", c, p, v);
        iot_data_vector_iter_t it; iot_data_vector_iter (o[c].d, &it); for (size_t k = 0; k <= p; k++) iot_data_vector_iter_next (&it);
        iot_data_t * old = iot_data_vector_iter_replace_value (&it, give (v)); int ov = o[c].e[p]; o[c].e[p] = v;
        VH_CHECK (old == (ov >= 0 ? o[ov].d : nullptr), "vector-replace", "another value"); if (ov >= 0) { o[ov].held--; o[ov].drv++; }
      }
      return;
    }
    if (op < 26)
    {
      int c = pick_kind (MAP); if (c < 0) return; unsigned w = r.below (8);
      if (w < 3)
      {
        int k = some_key (c), v = value_for (c); if (v < 0 || v == k) return; log_op ("map_add #%d %s(#%d) = #%d", c, o[k].s.c_str (), k, v);
        iot_data_t * kd = give (k), * vd = give (v); put (o[c].m, c, k, v); iot_data_map_add (o[c].d, kd, vd);
      }
      else if (w == 3)
      {
        int k = some_key (c), v = value_for (c); if (v < 0 || v == k) return; bool have = entry (o[c].m, k) != nullptr; log_op ("map_add_unused #%d %s(#%d) = #%d", c, o[k].s.c_str (), k, v);
        if (have) { VH_CHECK (!iot_data_map_add_unused (o[c].d, o[k].d, o[v].d), "add-unused", "replaced"); }
        else { iot_data_t * kd = give (k), * vd = give (v); put (o[c].m, c, k, v); VH_CHECK (iot_data_map_add_unused (o[c].d, kd, vd), "add-unused", "refused"); }
      }
      else if (w == 4)
      {
        int k = some_key (c); log_op ("map_remove #%d %s", c, o[k].s.c_str ()); std::pair<int, int> * have = entry (o[c].m, k); bool h = have != nullptr;
        iot_data_t * kd = iot_data_add_ref (o[k].d);   // the key used to remove may be the map's own
        if (have) { std::pair<int, int> kv = *have; o[c].m.erase (o[c].m.begin () + (have - &o[c].m[0])); o[kv.first].held--; o[kv.second].held--; drop (kv.first); drop (kv.second); }
        VH_CHECK (iot_data_map_remove (o[c].d, kd) == h, "map-remove", "wrong result"); iot_data_free (kd);
      }
      else if (w == 5)
      {
        int a = pick ([&] (const Obj & x) { return x.kind == MAP && &x != &o[c]; }); if (a < 0 || reaches (a, c)) return; log_op ("map_merge #%d into #%d", a, c);
        auto src = o[a].m; for (auto & kv : src) { o[kv.first].held++; o[kv.second].held++; put (o[c].m, c, kv.first, kv.second); }
        iot_data_map_merge (o[c].d, o[a].d);
      }
      else if (w == 6 && r.chance (1, 2)) { log_op ("map_empty #%d", c); auto src = o[c].m; o[c].m.clear (); for (auto & kv : src) { o[kv.first].held--; o[kv.second].held--; drop (kv.first); drop (kv.second); } iot_data_map_empty (o[c].d); }
      else if (w == 7 && r.chance (1, 2))
      {
        std::string enc; for (unsigned n = 1 + (unsigned) r.below (r.chance (1, 4) ? 40 : 6); n--;) enc += "QUJD"; bool good = r.chance (3, 4); if (!good) enc += "*";
        int k = some_key (c), v = add (iot_data_alloc_string (enc.c_str (), IOT_DATA_COPY), LEAF, "base64 text"); log_op ("map_base64_to_array #%d %s(#%d), text #%d", c, o[k].s.c_str (), k, v); if (r.chance (1, 2)) { iot_data_add_ref (o[v].d); o[v].drv++; }
        iot_data_t * kd = give (k), * vd = give (v); iot_data_t * used = iot_data_add_ref (o[k].d); put (o[c].m, c, k, v); iot_data_map_add (o[c].d, kd, vd); bool did = iot_data_map_base64_to_array (o[c].d, used); VH_CHECK (did == good, "base64-to-array", "returned %d", did);
        if (did)
        {
          const iot_data_t * nd = iot_data_map_get (o[c].d, used); VH_CHECK (nd && nd != o[v].d && iot_data_type (nd) == IOT_DATA_ARRAY, "base64-to-array", "the value was not replaced");
          int nv = add ((iot_data_t *) nd, LEAF, "array from base64"); o[nv].drv = 0; o[nv].held = 1; entry (o[c].m, k)->second = nv; o[v].held--; drop (v); count ("base64 converted");
        }
        iot_data_free (used);
      }
      else if (!o[c].m.empty ())
      {
        size_t p = r.below (o[c].m.size ()); int v = value_for (c); if (v < 0) return; log_op ("map iter_replace #%d [%zu] = #%d", c, p, v);
        iot_data_map_iter_t it; iot_data_map_iter (o[c].d, &it); for (size_t k = 0; k <= p; k++) iot_data_map_iter_next (&it);
        int ov = o[c].m[p].second; iot_data_t * old = iot_data_map_iter_replace_value (&it, give (v)); VH_CHECK (old == o[ov].d, "map-replace", "another value");
        o[c].m[p].second = v; o[ov].held--; o[ov].drv++;
      }
      return;
    }
    switch (op)
    {
      case 26:
      {
        int c = pick ([] (const Obj & x) { return x.kind != COPY; }); if (c < 0 || o[c].stat) return;
        if (r.chance (1, 2))
        {
          log_op ("deep copy #%d", c); std::vector<int> ex; if (o[c].kind != PTR) copy_owners (c, ex);
          iot_data_t * d = iot_data_copy (o[c].d); VH_CHECK (d != nullptr, "copy", "no copy");
          if (o[c].kind == PTR) { VH_CHECK (d == o[c].d, "copy", "pointer not shared"); o[c].drv++; }
          else { VH_CHECK (d != o[c].d, "copy", "a copy is the original"); int i = add (d, COPY, "copy"); o[i].extra = ex; for (int k : ex) o[k].held++; }
        }
        else
        {
          log_op ("shallow copy #%d", c); iot_data_t * d = iot_data_shallow_copy (o[c].d);
          if (o[c].kind == LIST || o[c].kind == VEC || o[c].kind == MAP)
          {
            VH_CHECK (d != o[c].d, "shallow-copy", "is the original"); int i = add (d, o[c].kind, "shallow copy"); o[i].e = o[c].e; o[i].m = o[c].m;
            for (int k : o[i].e) if (k >= 0) o[k].held++; for (auto & kv : o[i].m) { o[kv.first].held++; o[kv.second].held++; }
          }
          else { VH_CHECK (d == o[c].d, "shallow-copy", "a scalar was duplicated"); o[c].drv++; }
        }
        break;
      }
      case 27: case 28:
      {
        int c = pick ([] (const Obj & x) { return x.kind != COPY && !x.stat; }); if (c < 0) return; int v = value_for (c), k = some_key (c); if (v < 0 || v == k || c == k || v == c || reaches (v, c)) return;
        log_op ("set_metadata #%d %s = #%d", c, o[k].s.c_str (), v);
        iot_data_t * vd = give (v); o[k].held++; put (o[c].meta, c, k, v); iot_data_set_metadata (o[c].d, vd, o[k].d);
        VH_CHECK (iot_data_get_metadata (o[c].d, o[k].d) == o[v].d, "metadata", "not stored"); count ("metadata set");
        break;
      }
      default:
      {
        // ownership of a value's bytes
        unsigned n = 1 + r.below (50); std::string buf (n, (char) r.next ()); iot_data_ownership_t own = (iot_data_ownership_t) r.below (3);
        void * p = own == IOT_DATA_TAKE ? memcpy (malloc (n), buf.data (), n) : (void *) &buf[0];
        std::string was = buf; iot_data_t * d = r.chance (1, 2) ? iot_data_alloc_binary (p, n, own) : iot_data_alloc_array (p, n, IOT_DATA_UINT8, own);
        bool shared = r.chance (1, 3); if (shared) iot_data_add_ref (d);
        uint32_t len = 0; char * t = (char *) iot_data_binary_take (d, &len);
        VH_CHECK (len == n && memcmp (t, was.data (), n) == 0 && t != &buf[0], "binary-take", "took %u of %u bytes", len, n);
        memset (t, 0xee, n);
        if (shared || own == IOT_DATA_REF) VH_CHECK (iot_data_array_size (d) == n && memcmp (iot_data_address (d), was.data (), n) == 0, "binary-take", "a shared value lost its bytes");
        free (t); iot_data_free (d); if (shared) iot_data_free (d);
        VH_CHECK (buf == was, "referenced-touched", "a referenced buffer was changed"); count ("buffers taken");
        break;
      }
    }
  }
};
static void m_own (Rng & r, uint64_t idx)
{
  World w (r);
  unsigned steps = 40 + r.below (160); uint64_t h = 7;
  if (r.chance (1, 2)) { iot_data_t * d = iot_data_alloc_const_list (&w.slist); int i = w.add (d, LIST, "static list"); w.o[i].stat = true; }
  for (unsigned k = 0; k < 6; k++) { w.leaf (); w.container (); w.key (); }
  for (unsigned k = 0; k < steps; k++)
  {
    size_t n = w.o.size (); w.step (); w.judge ();
    h = Rng::mix (h ^ n ^ (w.want_released.size () << 20)); distinct (h);
    if (w.o.size () > 3000) break;
  }
  // let go of everything in random order
  for (size_t k = 0; k < w.o.size (); k++) if (w.o[k].stat) { log_op ("empty static list"); auto e = w.o[k].e; w.o[k].e.clear (); for (int x : e) { w.o[x].held--; w.drop (x); } iot_data_list_empty (w.o[k].d); iot_data_free (w.o[k].d); VH_CHECK (iot_data_list_length (w.o[k].d) == 0, "static-list", "freed or not emptied"); if (!w.o[k].meta.empty ()) fail ("harness", "meta"); w.judge (); }
  for (;;) { int i = w.pick ([] (const Obj & x) { return !x.stat; }); if (i < 0) break; w.free_ref (i); if (r.chance (1, 4)) w.judge (); }
  w.judge ();
  for (auto & x : w.o) VH_CHECK (!x.live || x.stat, "harness-model", "%s #%zu is still owned at the end (%ld, %ld)", x.what, (size_t) (&x - &w.o[0]), x.drv, x.held);
  for (auto b : w.bufs) for (char c : *b) VH_CHECK (c == 'r' || c == 'b', "referenced-touched", "a referenced buffer was changed");
  count ("histories"); count ("release callbacks observed", w.want_released.size ());
  if (idx < 3 && want_sample ()) show ("history of %u operations over %zu objects, %zu release callbacks", steps, w.o.size (), w.want_released.size ());
}
// Ownership of values produced by decoding, transforming, casting and path functions: only leaks and double frees are judged here
static void m_values (Rng & r, uint64_t)
{
  GenOpt o; o.pointers = r.chance (1, 3); o.holes = r.chance (1, 3); o.inf = true; o.width = 5; o.depth = 3;
  for (unsigned k = 0; k < 6; k++)
  {
    iot_data_alloc_heap (r.chance (1, 3));
    V v = gen_value (r, o); iot_data_t * d = build_random (v, r), * c = iot_data_copy (d), * s = iot_data_shallow_copy (d);
    iot_data_t * key = iot_data_alloc_string ("meta", IOT_DATA_REF); iot_data_t * tgt = iot_data_alloc_list ();
    iot_data_set_metadata (tgt, iot_data_add_ref (d), key); iot_data_t * t2 = iot_data_copy (tgt); iot_data_free (tgt);
    VH_CHECK (iot_data_get_metadata (t2, key) == d, "metadata-copy", "a copy lost its metadata"); iot_data_free (t2); iot_data_free (key);
    iot_data_compress (c); if (r.chance (1, 2)) { iot_data_t * cache = iot_data_alloc_map (IOT_DATA_MULTI); iot_data_compress_with_cache (c, cache); iot_data_compress_with_cache (s, cache); iot_data_free (cache); }
    iot_data_t * order[3] = { d, c, s }; for (unsigned i = 3; i > 1; i--) std::swap (order[i - 1], order[r.below (i)]);
    for (auto x : order) { VH_CHECK (veq (snapshot (x), v), "alias-changed", "releasing one alias changed another: %s", quote (vshow (v)).c_str ()); iot_data_free (x); }
    evaluation (); distinct (vhash (v)); count ("values aliased and released");
  }
  iot_data_alloc_heap (false);
}
static const Mode modes[] = { {"own", m_own, true}, {"values", m_values, true} };
int main (int argc, char ** argv) { return run (argc, argv, modes, 2); }
