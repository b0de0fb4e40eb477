// C20: containers. Oracle: an ideal loader over the same configuration texts; nodes of a recording component type report every call.
// LINK: -Wl,--wrap=dlopen,--wrap=dlsym,--wrap=dlclose,--wrap=dlerror
#include "vh.hpp"
#include "iot/container.h"
#include "iot/config.h"
#include "iot/logger.h"
#include "iot/threadpool.h"
#include "iot/scheduler.h"
#include "iot/thread.h"
#include "iot/time.h"
#include <map>
#include <set>
#include <deque>
#include <algorithm>
#include <pthread.h>
#include <fcntl.h>
using namespace vh;
struct Node { iot_component_t base; std::string name; std::vector<Node *> deps; int id; bool slow = false; pthread_t th; bool thread = false; int world; };
enum EvK { CREATE, STARTING, START, RUNNING, STOPPING, STOP, FREE, RELEASE, RECONF };
struct Ev { EvK k; std::string name; int id; bool timeout = false; };
struct World { std::map<std::string, std::string> conf; std::set<std::string> absent; std::vector<Ev> ev; std::map<std::string, std::string> saved; long live = 0; int next_id = 0; };
static thread_local World * W;
static std::string esc (const std::string & s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
static void release (Node * n)
{
  if (!iot_component_dec_ref (&n->base)) return;
  W->ev.push_back (Ev { RELEASE, n->name, n->id }); W->live--;
  for (Node * d : n->deps) release (d);
  iot_component_fini (&n->base); delete n;
}
static void n_start (iot_component_t * c) { Node * n = (Node *) c; W->ev.push_back (Ev { START, n->name, n->id }); if (!n->slow) iot_component_set_running (c); else iot_component_set_starting (c); }
static void n_stop (iot_component_t * c) { Node * n = (Node *) c; W->ev.push_back (Ev { STOP, n->name, n->id }); iot_component_set_stopped (c); }
static void n_running (iot_component_t * c, bool to) { Node * n = (Node *) c; W->ev.push_back (Ev { RUNNING, n->name, n->id, to }); }
static void n_starting (iot_component_t * c) { Node * n = (Node *) c; W->ev.push_back (Ev { STARTING, n->name, n->id }); }
static void n_stopping (iot_component_t * c) { Node * n = (Node *) c; W->ev.push_back (Ev { STOPPING, n->name, n->id }); }
static void n_free (iot_component_t * c) { Node * n = (Node *) c; W->ev.push_back (Ev { FREE, n->name, n->id }); release (n); }
static iot_component_t * n_config (iot_container_t * cont, const iot_data_t * map)
{
  std::vector<Node *> deps; bool strict = iot_data_string_map_get_bool (map, "Strict", true), ok = true;
  const iot_data_t * v = iot_data_string_map_get (map, "Deps");
  if (v && iot_data_type (v) == IOT_DATA_VECTOR) for (uint32_t k = 0; k < iot_data_vector_size (v); k++)
  {
    Node * d = (Node *) iot_container_find_component (cont, iot_data_string (iot_data_vector_get (v, k)));
    if (!d) { if (strict) { ok = false; break; } continue; }
    deps.push_back (d);
  }
  if (iot_data_string_map_get_bool (map, "Refuse", false)) ok = false;
  if (!ok) return NULL;
  Node * n = new Node (); memset (&n->base, 0, sizeof n->base);
  static const iot_component_factory_t * fac = iot_component_factory_find ("T::Node");
  iot_component_init (&n->base, fac, n_start, n_stop);
  n->name = iot_data_string_map_get_string (map, "Self"); n->deps = deps; n->id = W->next_id++; n->slow = iot_data_string_map_get_bool (map, "Slow", false);
  for (Node * d : deps) iot_component_add_ref (&d->base);
  if (iot_data_string_map_get_bool (map, "Callbacks", false)) { iot_component_set_running_callback (&n->base, n_running); iot_component_set_starting_callback (&n->base, n_starting); iot_component_set_stopping_callback (&n->base, n_stopping); }
  W->live++; W->ev.push_back (Ev { CREATE, n->name, n->id });
  return &n->base;
}
static bool n_reconfig (iot_component_t * c, iot_container_t *, const iot_data_t * map) { Node * n = (Node *) c; W->ev.push_back (Ev { RECONF, n->name, n->id }); return !iot_data_string_map_get_bool (map, "RefuseReconfig", false); }
static iot_component_factory_t g_node = { "T::Node", IOT_CATEGORY_USER, n_config, n_free, n_reconfig, NULL };
static iot_component_factory_t g_node2 = { "T::Other", NULL, n_config, n_free, NULL, NULL };
static char * load (const char * name, const char * uri) { if (strcmp (uri, "the-uri")) fail ("harness", "uri"); auto it = W->conf.find (name); return it == W->conf.end () ? NULL : strdup (it->second.c_str ()); }
static bool save (const char * name, const char * uri, const char * config) { (void) uri; W->saved[name] = config; return true; }
static const iot_container_config_t g_conf = { load, "the-uri", save };
static const iot_container_config_t g_conf_nosave = { load, "the-uri", NULL };

// the ideal loader
struct M { std::vector<std::string> deps; bool strict = true, refuse = false, slow = false, callbacks = false; int kind = 0; bool listed = true; std::string type; /* kind 0 = good, else not loadable */ };
struct Ideal {
  std::map<std::string, M> m; std::vector<std::string> created, progress; bool contdoc = true;
  bool has (const std::string & n) const { return std::find (created.begin (), created.end (), n) != created.end (); }
  bool make (const std::string & n, const M & x)
  {
    if (x.kind || x.refuse) { if (x.kind) return false; }
    progress.push_back (n); bool ok = true;
    for (auto & d : x.deps) if (!find (d)) { if (x.strict) { ok = false; break; } }
    progress.pop_back ();
    if (!ok || x.refuse) return false;
    created.push_back (n); return true;
  }
  bool find (const std::string & n)
  {
    if (has (n)) return true;
    if (!contdoc) return false;
    if (std::find (progress.begin (), progress.end (), n) != progress.end ()) return false;
    auto it = m.find (n); if (it == m.end () || !it->second.listed || (it->second.type != "T::Node" && it->second.type != "T::Other")) return false;
    return make (n, it->second);
  }
};
static std::string node_json (Rng & r, const std::string & name, const M & x)
{
  switch (x.kind)
  {
    case 1: return "{\"Self\":" + esc (name) + ", \"Deps\":[";           // truncated
    case 2: return "[1,2]";
    case 3: return "";
    case 4: return "{\"Self\":\"${VERIF_UNSET_VARIABLE}\"}";
    case 5: return "not json at all";
    case 6: return "{\"Self\":\"${}\"}";
    default: break;
  }
  std::string s = "{";
  s += "\"Self\":" + esc (name) + ", \"Strict\":" + (x.strict ? "true" : "false") + ", \"Slow\":" + (x.slow ? "true" : "false") + ", \"Callbacks\":" + (x.callbacks ? "true" : "false") + ", \"Refuse\":" + (x.refuse ? "true" : "false") + ", \"Env\":\"${VERIF_SET_VARIABLE}\", \"Deps\":[";
  for (size_t k = 0; k < x.deps.size (); k++) s += (k ? "," : "") + esc (x.deps[k]);
  s += "]"; if (r.chance (1, 3)) s += ", \"x\":" + std::to_string (r.below (1000)); if (r.chance (1, 3)) s += ",\n \"nested\":{\"a\":[1,2.5,null]}"; s += "}";
  return s;
}
static std::vector<std::string> order_of (EvK k, size_t from) { std::vector<std::string> v; for (size_t q = from; q < W->ev.size (); q++) if (W->ev[q].k == k) v.push_back (W->ev[q].name); return v; }
static std::string join (const std::vector<std::string> & v) { std::string s; for (auto & x : v) s += x + " "; return s; }
static void check_listing (iot_container_t * c, const std::vector<std::string> & created, const std::map<std::string, M> & m)
{
  for (int which = 0; which < 4; which++)
  {
    const char * cat = which == 0 ? NULL : which == 1 ? IOT_CATEGORY_USER : which == 2 ? IOT_CATEGORY_CORE : "nothing";
    iot_data_t * l = iot_container_list_components (c, cat); std::multiset<std::string> got, want;
    iot_data_list_iter_t it; iot_data_list_iter (l, &it);
    while (iot_data_list_iter_next (&it))
    {
      const iot_data_t * e = iot_data_list_iter_value (&it); std::string n = iot_data_string_map_get_string (e, "name"); got.insert (n);
      VH_CHECK (m.count (n) && m.at (n).type == iot_data_string_map_get_string (e, "type"), "cont-list", "%s listed with type %s", n.c_str (), iot_data_string_map_get_string (e, "type"));
      VH_CHECK (iot_data_string_map_get (e, "config") && iot_data_string_map_get_string (iot_data_string_map_get (e, "config"), "Self") == n, "cont-list", "%s listed with another configuration", n.c_str ());
      VH_CHECK (!strcmp (iot_data_string_map_get_string (iot_data_string_map_get (e, "config"), "Env"), "value of it"), "cont-env", "environment reference not substituted");
    }
    for (auto & n : created) if (which == 0 || (which == 1 && m.at (n).type == "T::Node")) want.insert (n);
    VH_CHECK (got == want, "cont-list", "listing of category %s holds %zu components, expected %zu", cat ? cat : "(all)", got.size (), want.size ());
    iot_data_free (l); evaluation ();
  }
}
static void m_graph (Rng & r, uint64_t idx)
{
  setenv ("VERIF_SET_VARIABLE", "value of it", 1);
  World w; W = &w; iot_container_config (r.chance (1, 4) ? &g_conf_nosave : &g_conf); bool saving = iot_container_get_config () == &g_conf;
  unsigned n = (unsigned) r.range (1, 8); int kind = (int) r.below (4);    // 0,1: acyclic and well formed; 2: cyclic; 3: anything goes
  Ideal ideal; std::vector<std::string> names;
  static const char * pool[] = { "a", "zz", "Comp one", "m", "B", "0", "k.9", "q\xc3\xa9", "-", "node10", "node9", "node1", "node", "Comp", "aa", "z" };
  std::vector<std::string> avail (pool, pool + 16); for (unsigned k = 0; k < n; k++) { size_t q = r.below (avail.size ()); names.push_back (avail[q]); avail.erase (avail.begin () + (long) q); }
  bool slowcase = idx % 64 == 63;
  for (unsigned k = 0; k < n; k++)
  {
    M x; x.type = r.chance (1, 4) ? "T::Other" : "T::Node"; x.callbacks = r.chance (1, 2); x.strict = kind == 0 ? true : r.chance (1, 2);
    for (unsigned q = r.below (4); q-- > 0; )
    {
      if (kind >= 2) x.deps.push_back (r.pick (names)); else if (k) x.deps.push_back (names[r.below (k)]);
    }
    if (kind == 3)
    {
      if (r.chance (1, 5)) x.kind = 1 + (int) r.below (6); if (r.chance (1, 8)) x.refuse = true;
      if (r.chance (1, 8)) x.deps.push_back ("not configured"); if (r.chance (1, 8)) x.type = r.chance (1, 2) ? "T::Unknown" : "";
    }
    ideal.m[names[k]] = x;
  }
  int contkind = kind == 3 && r.chance (1, 8) ? 1 + (int) r.below (5) : 0; ideal.contdoc = contkind == 0;
  if (r.chance (1, 3) && !contkind) { std::vector<std::string> tmp = names; }
  std::string doc = "{"; bool firstm = true;
  std::vector<std::string> shuf = names; for (size_t k = shuf.size (); k > 1; k--) std::swap (shuf[k - 1], shuf[r.below (k)]);
  for (auto & s : shuf) { M & x = ideal.m[s]; doc += std::string (firstm ? "" : ", ") + esc (s) + ":" + (x.type.empty () ? (r.chance (1, 2) ? "null" : "[3]") : esc (x.type)); firstm = false; if (x.kind != 3 || r.chance (1, 2)) w.conf[s] = node_json (r, s, x); }
  doc += "}";
  switch (contkind) { case 1: doc.pop_back (); break; case 2: doc = "[]"; break; case 3: doc = "\"str"; break; case 4: doc = "{\"a\":\"${VERIF_UNSET_VARIABLE}\"}"; break; default: break; }
  if (contkind != 5) w.conf["cont"] = doc;
  log_op ("container %s", quote (doc).c_str ()); for (auto & kv : w.conf) log_op ("%s: %s", quote (kv.first).c_str (), quote (kv.second).c_str ());
  iot_container_t * c = iot_container_alloc ("cont");
  bool ok = iot_container_init (c);
  VH_CHECK (ok == ideal.contdoc, "cont-init-result", "init reports %d for container configuration %s", ok, quote (doc).c_str ());
  if (ideal.contdoc) { std::vector<std::string> sorted = names; std::sort (sorted.begin (), sorted.end ()); for (auto & s : sorted) ideal.find (s); }
  auto check_created = [&] (const char * when)
  {
    std::vector<std::string> made = order_of (CREATE, 0); std::set<std::string> a (made.begin (), made.end ()), b (ideal.created.begin (), ideal.created.end ());
    VH_CHECK (made.size () == a.size (), "cont-created-twice", "%s: a component was created twice: %s", when, join (made).c_str ());
    VH_CHECK (a == b, "cont-created", "%s: created %s, expected %s", when, join (made).c_str (), join (ideal.created).c_str ());
    for (size_t k = 0; k < made.size (); k++) for (auto & d : ideal.m[made[k]].deps) if (b.count (d) && ideal.m[made[k]].strict)
      VH_CHECK ((size_t) (std::find (made.begin (), made.end (), d) - made.begin ()) < k || d == made[k], "cont-order", "%s: %s created before %s, on which it depends", when, made[k].c_str (), d.c_str ());
  };
  check_created ("init");
  if (ideal.contdoc) { count ("containers_loaded"); if (ideal.created.size () < n) count ("containers_with_failures"); }
  std::vector<std::string> order = order_of (CREATE, 0);   // creation order of those that exist
  std::map<std::string, uint32_t> state; for (auto & s : order) state[s] = 0;
  check_listing (c, order, ideal.m);
  std::vector<std::string> extra_avail = avail; size_t total_created = order.size ();
  std::map<std::string, iot_component_t *> ptr;
  for (int step = 0; step < 14; step++)
  {
    size_t from = w.ev.size (); unsigned op = (unsigned) r.below (10);
    switch (op)
    {
      case 0: case 1:
      { // start
        log_op ("start"); iot_container_start (c);
        std::vector<std::string> st = order_of (START, from); VH_CHECK (st == order, "cont-start-order", "started %s, created %s", join (st).c_str (), join (order).c_str ());
        std::vector<std::string> cb; for (auto & s : order) if (ideal.m[s].callbacks) cb.push_back (s);
        VH_CHECK (order_of (STARTING, from) == cb, "cont-callbacks", "starting callbacks %s, expected %s", join (order_of (STARTING, from)).c_str (), join (cb).c_str ());
        VH_CHECK (order_of (RUNNING, from) == cb, "cont-callbacks", "running callbacks %s, expected %s", join (order_of (RUNNING, from)).c_str (), join (cb).c_str ());
        int phase = 0; for (size_t q = from; q < w.ev.size (); q++) { int p = w.ev[q].k == STARTING ? 0 : w.ev[q].k == START ? 1 : 2; VH_CHECK (p >= phase, "cont-callbacks", "callbacks out of order"); phase = p; VH_CHECK (w.ev[q].k != RUNNING || !w.ev[q].timeout, "cont-callbacks", "timeout reported although all components are running"); }
        for (auto & s : order) state[s] = IOT_COMPONENT_RUNNING;
        count ("starts"); break;
      }
      case 2:
      { // stop
        log_op ("stop"); iot_container_stop (c); std::vector<std::string> rev (order.rbegin (), order.rend ()), cb; for (auto & s : rev) if (ideal.m[s].callbacks) cb.push_back (s);
        VH_CHECK (order_of (STOP, from) == rev, "cont-stop-order", "stopped %s, created %s", join (order_of (STOP, from)).c_str (), join (order).c_str ());
        VH_CHECK (order_of (STOPPING, from) == cb, "cont-callbacks", "stopping callbacks %s, expected %s", join (order_of (STOPPING, from)).c_str (), join (cb).c_str ());
        bool stopped = false; for (size_t q = from; q < w.ev.size (); q++) { if (w.ev[q].k == STOP) stopped = true; else VH_CHECK (!stopped, "cont-callbacks", "stopping callback after a component was stopped"); }
        for (auto & s : order) state[s] = IOT_COMPONENT_STOPPED;
        count ("stops"); break;
      }
      case 3: case 4: case 5:
      { // find
        std::string nm = r.chance (1, 5) ? "nobody" : r.chance (1, 10) ? "" : r.pick (names); if (r.chance (1, 10)) { if (r.chance (1, 2)) nm += r.chance (1, 2) ? "1" : "x"; else if (!nm.empty ()) nm.pop_back (); } std::vector<std::string> before = ideal.created; log_op ("find %s", nm.c_str ());
        iot_component_t * f = iot_container_find_component (c, nm.c_str ()); bool want = ideal.find (nm);
        VH_CHECK ((f != NULL) == want, "cont-find", "find of %s gives %p, expected %s", nm.c_str (), (void *) f, want ? "it" : "nothing");
        if (f) VH_CHECK (((Node *) f)->name == nm && !strcmp (f->name, nm.c_str ()), "cont-find", "find of %s gives %s", nm.c_str (), f->name);
        for (auto & s : order_of (CREATE, from)) { order.push_back (s); state[s] = 0; total_created++; }
        std::set<std::string> a (order.begin (), order.end ()), b (ideal.created.begin (), ideal.created.end ());
        VH_CHECK (a == b && a.size () == order.size (), "cont-created", "after find of %s: %s, expected %s", nm.c_str (), join (order).c_str (), join (ideal.created).c_str ());
        VH_CHECK (iot_container_find_component (c, NULL) == NULL, "cont-find", "find of NULL"); count ("finds"); break;
      }
      case 6:
      { // delete
        std::string nm = order.empty () || r.chance (1, 4) ? "nobody" : r.pick (order); log_op ("delete %s", nm.c_str ());
        iot_container_delete_component (c, nm.c_str ()); bool was = std::find (order.begin (), order.end (), nm) != order.end ();
        std::vector<std::string> fr = order_of (FREE, from), st = order_of (STOP, from);
        VH_CHECK (was ? fr.size () == 1 && fr[0] == nm : fr.empty (), "cont-delete", "deleting %s freed %s", nm.c_str (), join (fr).c_str ());
        bool need = was && state[nm] != IOT_COMPONENT_STOPPED; VH_CHECK (need ? st.size () == 1 && st[0] == nm : st.empty (), "cont-delete", "deleting %s in state %u stopped %s", nm.c_str (), was ? state[nm] : 99, join (st).c_str ());
        if (was) { order.erase (std::find (order.begin (), order.end (), nm)); ideal.created.erase (std::find (ideal.created.begin (), ideal.created.end (), nm)); count ("deletes"); } break;
      }
      case 7:
      { // add
        if (extra_avail.empty ()) break;
        std::string nm = extra_avail.back (); extra_avail.pop_back (); M x; x.listed = false; x.type = r.chance (1, 6) ? "T::Unknown" : r.chance (1, 3) ? "T::Other" : "T::Node"; x.callbacks = r.chance (1, 2); x.kind = r.chance (1, 5) ? 1 + (int) r.below (6) : 0; x.strict = r.chance (1, 2);
        for (unsigned q = r.below (3); q-- > 0; ) x.deps.push_back (r.chance (1, 6) ? nm : r.pick (names));
        std::string js = node_json (r, nm, x); log_op ("add %s %s %s", nm.c_str (), x.type.c_str (), quote (js).c_str ());
        iot_container_add_component (c, x.type.c_str (), nm.c_str (), js.c_str ());
        if (x.type != "T::Unknown") { ideal.make (nm, x); }
        ideal.m[nm] = x; if (!ideal.has (nm)) ideal.m.erase (nm);
        for (auto & s : order_of (CREATE, from)) { order.push_back (s); state[s] = 0; total_created++; }
        std::set<std::string> a (order.begin (), order.end ()), b (ideal.created.begin (), ideal.created.end ());
        VH_CHECK (a == b && a.size () == order.size (), "cont-created", "after adding %s: %s, expected %s", nm.c_str (), join (order).c_str (), join (ideal.created).c_str ());
        if (ideal.has (nm)) { names.push_back (nm); ideal.m[nm].kind = 0; }
        count ("adds"); break;
      }
      case 8:
      { // reconfigure
        if (order.empty ()) break;
        std::string nm = r.pick (order); bool refuse = r.chance (1, 3); iot_component_t * f = iot_container_find_component (c, nm.c_str ());
        iot_data_t * m = iot_data_alloc_map (IOT_DATA_STRING); int64_t val = (int64_t) r.below (1000000); iot_data_string_map_add (m, "x", iot_data_alloc_i64 (val)); if (refuse) iot_data_string_map_add (m, "RefuseReconfig", iot_data_alloc_bool (true));
        w.saved.clear (); bool takes = ideal.m[nm].type == "T::Node"; int64_t old = iot_data_string_map_get_i64 (f->config, "x", -1);
        bool res = iot_component_reconfig (f, c, m); bool exp = !(takes && refuse); log_op ("reconfig %s", nm.c_str ());
        VH_CHECK (res == exp, "cont-reconfig", "reconfiguration reports %d", res); VH_CHECK (order_of (RECONF, from).size () == (takes ? 1 : 0), "cont-reconfig", "reconfiguration not passed on");
        VH_CHECK (iot_data_string_map_get_i64 (f->config, "x", -1) == (exp ? val : old) && iot_data_string_map_get_string (f->config, "Self") == nm, "cont-reconfig", "configuration not merged");
        if (saving && exp) { VH_CHECK (w.saved.size () == 1 && w.saved.count (nm), "cont-reconfig", "configuration of %s not saved", nm.c_str ()); iot_data_t * d = iot_data_from_json (w.saved[nm].c_str ()); VH_CHECK (iot_data_equal (d, f->config) || iot_data_string_map_get_i64 (d, "x", -1) == val, "cont-reconfig", "saved configuration differs"); iot_data_free (d); count ("saves"); }
        else VH_CHECK (w.saved.empty (), "cont-reconfig", "refused configuration saved");
        iot_data_free (m); break;
      }
      default:
      {
        check_listing (c, order, ideal.m);
        std::string nm = r.chance (1, 4) ? "nobody" : r.pick (names); iot_data_t * d = iot_container_component_read (c, nm.c_str ()); bool was = std::find (order.begin (), order.end (), nm) != order.end ();
        VH_CHECK ((d != NULL) == was, "cont-read", "reading %s gives %s", nm.c_str (), d ? "something" : "nothing");
        if (d) { VH_CHECK (nm == iot_data_string_map_get_string (d, "name") && !strcmp (iot_data_string_map_get_string (d, "state"), iot_component_state_name ((iot_component_state_t) state[nm])), "cont-read", "%s read in state %s, expected %s", nm.c_str (), iot_data_string_map_get_string (d, "state"), iot_component_state_name ((iot_component_state_t) state[nm])); iot_data_free (d); }
        VH_CHECK (iot_container_component_read (c, NULL) == NULL, "cont-read", "NULL read"); break;
      }
    }
    VH_CHECK (w.next_id == (int) total_created, "cont-created", "%d components were created, expected %zu", w.next_id, total_created);
    evaluation (); uint64_t h = op; for (auto & s : order) h = hash_bytes (s.data (), s.size (), h * 31 + state[s]); distinct (h);
  }
  size_t from = w.ev.size (); log_op ("free");
  iot_container_free (c);
  std::vector<std::string> fr = order_of (FREE, from), st = order_of (STOP, from); std::multiset<std::string> a (fr.begin (), fr.end ()), b (order.begin (), order.end ());
  VH_CHECK (a == b, "cont-free", "freed %s, expected %s", join (fr).c_str (), join (order).c_str ());
  std::multiset<std::string> sa (st.begin (), st.end ()), sb; for (auto & s : order) if (state[s] != IOT_COMPONENT_STOPPED) sb.insert (s);
  VH_CHECK (sa == sb, "cont-free-stop", "freeing the container stopped %s", join (st).c_str ());
  VH_CHECK (w.live == 0, "cont-leak", "%ld components were not released", w.live);
  if (want_sample ()) show ("%s -> %s", quote (doc).c_str (), join (ideal.created).c_str ());
  W = nullptr; (void) slowcase;
}
// Components that take a while to run, or never do
static void * later (void * a) { usleep (150000); iot_component_set_running ((iot_component_t *) a); return NULL; }
static void m_slow (Rng & r, uint64_t idx)
{
  World w; W = &w; iot_container_config (&g_conf); bool never = idx % 4 == 3; setenv ("VERIF_SET_VARIABLE", "value of it", 1);
  w.conf["cont"] = "{\"s\":\"T::Node\",\"f\":\"T::Node\"}"; M s; s.slow = true; s.callbacks = true; s.type = "T::Node"; M f; f.callbacks = true; f.type = "T::Node"; f.deps.push_back ("s");
  w.conf["s"] = node_json (r, "s", s); w.conf["f"] = node_json (r, "f", f);
  iot_container_t * c = iot_container_alloc ("cont"); iot_container_init (c);
  iot_component_t * sc = iot_container_find_component (c, "s"); pthread_t t; 
  if (!never) { pthread_create (&t, NULL, later, sc); }
  iot_container_start (c);
  if (!never) pthread_join (t, NULL);
  unsigned seen = 0; for (auto & e : w.ev) if (e.k == RUNNING) { seen++; VH_CHECK (e.timeout == never, "cont-running-timeout", "running callback of %s told timeout=%d", e.name.c_str (), e.timeout); }
  VH_CHECK (seen == 2, "cont-callbacks", "%u running callbacks", seen);
  iot_container_stop (c); iot_container_free (c); VH_CHECK (w.live == 0, "cont-leak", "not released"); evaluation (); distinct (idx); count (never ? "start_timeouts" : "slow_starts"); W = nullptr;
}
// Graphs of the library's own component types, well formed or not
static std::atomic<int> g_ran;
static void * job (void *) { g_ran++; return NULL; }
static std::string junk (Rng & r) { static const char * j[] = { "null", "true", "\"text\"", "-1", "3.5", "1e300", "[]", "{}", "123456789012345678901234567890", "\"\"" }; return r.pick (j); }
static void m_real (Rng & r, uint64_t)
{
  World w; W = &w; iot_container_config (&g_conf); bool clean = r.chance (1, 2); 
  std::vector<std::string> loggers, all; std::string doc = "{"; std::map<std::string, int> kind; unsigned n = (unsigned) r.range (1, 6); bool rev = r.chance (1, 2); std::set<std::string> bad;
  std::string dir = arg ("dir", ".");
  for (unsigned k = 0; k < n; k++)
  {
    int t = (int) r.below (3); std::string nm = std::string (t == 0 ? "log" : t == 1 ? "pool" : "sched") + std::to_string (rev ? 9 - k : k); kind[nm] = t; all.push_back (nm);
    doc += std::string (k ? "," : "") + esc (nm) + ":" + (t == 0 ? "\"IOT::Logger\"" : t == 1 ? "\"IOT::ThreadPool\"" : "\"IOT::Scheduler\"");
    std::string js = "{"; auto opt = [&] (const char * key, const std::string & good) { std::string v = !clean && r.chance (1, 4) ? junk (r) : good; js += std::string (js.size () > 1 ? "," : "") + "\"" + key + "\":" + v; return v; };
    std::string lg = loggers.empty () || r.chance (1, 4) ? "\"missing\"" : esc (r.pick (loggers));
    if (t == 0)
    {
      if (clean || r.chance (7, 8)) { if (opt ("Name", esc (nm))[0] != '"') bad.insert (nm); } else bad.insert (nm);
      opt ("Level", r.chance (1, 2) ? "\"Error\"" : "\"none\""); if (r.chance (1, 2)) opt ("Next", lg); if (r.chance (1, 3)) opt ("Start", r.chance (1, 2) ? "true" : "false");
      if (r.chance (1, 2)) opt ("To", r.chance (1, 2) ? "\"file:" + dir + "/x.log\"" : r.chance (1, 2) ? "\"udp:127.0.0.1:9\"" : "\"file:/nonexistent/dir/x\"");
      loggers.push_back (nm);
    }
    else if (t == 1)
    {
      js += "\"Threads\":" + std::to_string (1 + r.below (3)); opt ("MaxJobs", std::to_string (r.below (20))); if (r.chance (1, 2)) opt ("Logger", lg);
      if (!clean && r.chance (1, 3)) { js += ",\"Priority\":" + std::string (r.chance (1, 2) ? "\"x\"" : "100000"); } if (r.chance (1, 3)) js += ",\"Affinity\":" + std::to_string (r.below (200));
    }
    else { if (r.chance (1, 2)) opt ("Logger", lg); if (!clean && r.chance (1, 3)) opt ("Priority", "-50"); }
    js += "}"; w.conf[nm] = js; log_op ("%s: %s", nm.c_str (), quote (js).c_str ());
  }
  doc += "}"; w.conf["cont"] = doc; log_op ("container %s", quote (doc).c_str ());
  iot_container_t * c = iot_container_alloc ("cont");
  VH_CHECK (iot_container_init (c), "cont-init-result", "init failed");
  std::set<std::string> names (all.begin (), all.end ());
  for (auto & nm : names) { iot_component_t * f = iot_container_find_component (c, nm.c_str ()); VH_CHECK ((f != NULL) == !bad.count (nm), "cont-created", "%s %s", nm.c_str (), f ? "exists" : "does not exist"); }
  if (r.chance (1, 4)) for (auto & nm : names) if (r.chance (1, 4)) iot_container_delete_component (c, nm.c_str ());
  // the remaining ones run
  iot_data_t * l = iot_container_list_components (c, IOT_CATEGORY_CORE); bool all_ok = true;
  iot_data_list_iter_t it; iot_data_list_iter (l, &it); std::vector<std::string> have; while (iot_data_list_iter_next (&it)) have.push_back (iot_data_string_map_get_string (iot_data_list_iter_value (&it), "name")); iot_data_free (l);
  if (r.chance (3, 4))
  {
    iot_container_start (c);
    for (auto & nm : have)
    {
      iot_component_t * f = iot_container_find_component (c, nm.c_str ()); VH_CHECK (f && f->state == IOT_COMPONENT_RUNNING, "cont-real-start", "%s is not running", nm.c_str ());
      if (kind[nm] == 1) { g_ran = 0; iot_threadpool_add_work ((iot_threadpool_t *) f, job, NULL, IOT_THREAD_NO_PRIORITY); iot_threadpool_wait ((iot_threadpool_t *) f); VH_CHECK (g_ran == 1, "cont-real-run", "the job ran %d times", g_ran.load ()); }
      if (kind[nm] == 0) iot_log_trace ((iot_logger_t *) f, "hidden");
    }
    if (r.chance (2, 3)) { iot_container_stop (c); for (auto & nm : have) { iot_component_t * f = iot_container_find_component (c, nm.c_str ()); VH_CHECK (f->state == IOT_COMPONENT_STOPPED, "cont-real-stop", "%s is not stopped", nm.c_str ()); } }
  }
  (void) all_ok; iot_container_free (c); unlink ((dir + "/x.log").c_str ());
  evaluation (names.size ()); count ("library_components", names.size ()); count ("refused_components", bad.size ()); uint64_t h = 3; for (auto & kv : w.conf) h = hash_bytes (kv.second.data (), kv.second.size (), h); distinct (h);
  if (want_sample ()) show ("%s", quote (doc).c_str ());
  W = nullptr;
}
// Component types that come from libraries named in the configuration. The libraries are stand-ins: opening, looking up and closing are answered here
// and counted, so that missing libraries and symbols can be had at will.
struct Lib { std::string name; bool there; std::map<std::string, int> syms; int opens = 0, closes = 0; };
static std::map<std::string, Lib> * g_libs; static std::string g_dlerr; static std::deque<iot_component_factory_t> g_facs; static std::deque<std::string> g_fac_names;   // factories are registered for good
template <int K> static const iot_component_factory_t * give (void) { return &g_facs[g_facs.size () - 4 + K]; }
static const iot_component_factory_t * (* const GIVE[4]) (void) = { give<0>, give<1>, give<2>, give<3> };
extern "C" {
void * __real_dlopen (const char *, int); void * __real_dlsym (void *, const char *); int __real_dlclose (void *); char * __real_dlerror (void);
void * __wrap_dlopen (const char * f, int fl) { if (!g_libs) return __real_dlopen (f, fl); auto it = f ? g_libs->find (f) : g_libs->end (); if (it == g_libs->end () || !it->second.there) { g_dlerr = std::string (f ? f : "?") + ": cannot open"; return NULL; } it->second.opens++; return &it->second; }
static Lib * lib_of (void * h) { if (g_libs) for (auto & kv : *g_libs) if (&kv.second == h) return &kv.second; return NULL; }
void * __wrap_dlsym (void * h, const char * n) { Lib * l = lib_of (h); if (!l) return __real_dlsym (h, n); VH_CHECK (l->opens > l->closes, "cont-lib-closed", "symbol %s looked up in a closed library", n); auto it = l->syms.find (n); if (it == l->syms.end ()) { g_dlerr = "no symbol"; return NULL; } return (void *) GIVE[it->second]; }
int __wrap_dlclose (void * h) { Lib * l = lib_of (h); if (!l) return __real_dlclose (h); l->closes++; VH_CHECK (l->closes <= l->opens, "cont-lib-closed", "library %s closed more often than opened", l->name.c_str ()); return 0; }
char * __wrap_dlerror (void) { if (!g_libs) return __real_dlerror (); return (char *) g_dlerr.c_str (); }
}
static void m_dynamic (Rng & r, uint64_t idx)
{
  setenv ("VERIF_SET_VARIABLE", "value of it", 1); setenv ("VERIF_LIB", "lib0", 1);
  World w; W = &w; iot_container_config (&g_conf);
  std::map<std::string, Lib> libs; std::string types[4]; bool known[4] = { false, false, false, false };
  for (int k = 0; k < 4; k++) { types[k] = "D" + std::to_string (idx) + "::" + std::to_string (k); g_fac_names.push_back (types[k]); g_facs.push_back (iot_component_factory_t { g_fac_names.back ().c_str (), IOT_CATEGORY_USER, n_config, n_free, NULL, NULL }); }
  for (int k = 0; k < 2; k++) { Lib l; l.name = "lib" + std::to_string (k) + ".so"; l.there = r.chance (4, 5); libs[l.name] = l; }
  for (int k = 0; k < 4; k++) if (r.chance (5, 6)) libs[k % 2 ? "lib1.so" : "lib0.so"].syms["make" + std::to_string (k)] = k;
  // each component: its type, and perhaps where that type comes from
  struct C { std::string name; int type; int lib; int sym; int kind; bool dep; }; std::vector<C> cs; unsigned n = (unsigned) r.range (1, 5); unsigned long opens_expected = 0, failures = 0;
  std::string doc = "{";
  for (unsigned k = 0; k < n; k++)
  {
    C c; c.name = "c" + std::to_string (k); c.type = (int) r.below (5); c.lib = r.chance (4, 5) ? c.type % 2 : (int) r.below (3); c.sym = c.type; c.kind = r.chance (1, 8) ? 1 : 0; c.dep = false;
    if (r.chance (1, 6)) c.lib = -1; if (r.chance (1, 8)) c.sym = -1; cs.push_back (c);
    std::string js = "{\"Self\":" + esc (c.name) + ",\"Deps\":[]"; if (k && r.chance (1, 3)) js = "{\"Self\":" + esc (c.name) + ",\"Deps\":[\"c" + std::to_string (r.below (k)) + "\"],\"Strict\":false";
    if (c.lib >= 0) js += std::string (",\"Library\":") + (c.lib == 0 && r.chance (1, 2) ? "\"${VERIF_LIB}.so\"" : "\"lib" + std::to_string (c.lib) + ".so\""); else if (r.chance (1, 2)) js += ",\"Library\":7";
    if (c.sym >= 0) js += ",\"Factory\":\"make" + std::to_string (c.sym) + "\""; else if (r.chance (1, 2)) js += ",\"Factory\":[]";
    js += "}"; if (c.kind) js = r.chance (1, 2) ? "{\"Self\":" : "[]"; w.conf[c.name] = js; log_op ("%s: %s", c.name.c_str (), quote (js).c_str ());
    doc += (k ? "," : "") + esc (c.name) + ":" + (c.type == 4 ? "\"T::Node\"" : esc (types[c.type]));
  }
  doc += "}"; w.conf["cont"] = doc; for (auto & kv : libs) { std::string l; for (auto & sy : kv.second.syms) l += sy.first + " "; log_op ("%s %s: %s", kv.first.c_str (), kv.second.there ? "provides" : "missing", l.c_str ()); }
  std::map<std::string, std::pair<int, int>> bal;    // library -> opened, closed
  auto fetch = [&] (const C & c) -> bool
  { // the ideal loader's account of what loading for this component does
    if (c.kind || c.lib < 0 || c.sym < 0) { failures++; return false; }
    std::string ln = "lib" + std::to_string (c.lib) + ".so"; auto it = libs.find (ln); if (it == libs.end () || !it->second.there) { failures++; return false; }
    opens_expected++; bal[ln].first++; auto sy = it->second.syms.find ("make" + std::to_string (c.sym)); if (sy == it->second.syms.end ()) { bal[ln].second++; failures++; return false; }
    known[sy->second] = true; count ("types_loaded"); return true;
  };
  auto check = [&] (iot_container_t * c, const std::set<std::string> & want, const char * when)
  {
    std::set<std::string> got; iot_data_t * l = iot_container_list_components (c, NULL); iot_data_list_iter_t it; iot_data_list_iter (l, &it); while (iot_data_list_iter_next (&it)) got.insert (iot_data_string_map_get_string (iot_data_list_iter_value (&it), "name")); iot_data_free (l);
    std::string a, b; for (auto & x : got) a += x + " "; for (auto & x : want) b += x + " "; VH_CHECK (got == want, "cont-dynamic", "%s the components are %s, expected %s", when, a.c_str (), b.c_str ());
    VH_CHECK (w.live == (long) want.size (), "cont-dynamic", "%s %ld components live, expected %zu", when, w.live, want.size ());
    for (int k = 0; k < 4; k++) VH_CHECK ((iot_component_factory_find (types[k].c_str ()) != NULL) == known[k], "cont-dynamic", "%s type %s is %sregistered", when, types[k].c_str (), known[k] ? "not " : "");
    for (auto & kv : libs) VH_CHECK (kv.second.opens == bal[kv.first].first && kv.second.closes == bal[kv.first].second, "cont-lib-balance", "%s %s was opened %d times and closed %d times, expected %d and %d", when, kv.first.c_str (), kv.second.opens, kv.second.closes, bal[kv.first].first, bal[kv.first].second);
    evaluation (6 + libs.size ());
  };
  g_libs = &libs; iot_container_t * c = iot_container_alloc ("cont"); std::set<std::string> want;
  if (r.chance (2, 3))
  {
    VH_CHECK (iot_container_init (c), "cont-init-result", "init failed");
    for (auto & x : cs) if (x.type < 4 && !known[x.type]) fetch (x);
    for (auto & x : cs) if (!x.kind && (x.type == 4 || known[x.type])) want.insert (x.name);
    check (c, want, "after loading");
  }
  for (int k = 0; k < 4; k++)
  { // added one by one
    C x; x.name = "x" + std::to_string (k); x.type = (int) r.below (4); x.lib = r.chance (5, 6) ? x.type % 2 : -1; x.sym = r.chance (7, 8) ? x.type : -1; x.kind = r.chance (1, 8);
    std::string js = "{\"Self\":" + esc (x.name) + (x.lib >= 0 ? ",\"Library\":\"lib" + std::to_string (x.lib) + ".so\"" : "") + (x.sym >= 0 ? ",\"Factory\":\"make" + std::to_string (x.sym) + "\"" : "") + "}"; if (x.kind) js = "{,";
    log_op ("add %s %s %s", x.name.c_str (), types[x.type].c_str (), js.c_str ()); iot_container_add_component (c, types[x.type].c_str (), x.name.c_str (), js.c_str ());
    if (!known[x.type]) fetch (x); if (known[x.type] && !x.kind) want.insert (x.name);
    check (c, want, "after adding");
  }
  if (r.chance (1, 2)) { iot_container_start (c); for (auto & nm : want) { iot_component_t * f = iot_container_find_component (c, nm.c_str ()); VH_CHECK (f && f->state == IOT_COMPONENT_RUNNING, "cont-real-start", "%s is not running", nm.c_str ()); } }
  iot_container_free (c); VH_CHECK (w.live == 0, "cont-leak", "%ld components were not released", w.live); g_libs = NULL;
  count ("libraries_opened", opens_expected); count ("loads_refused", failures); uint64_t h = 5; for (auto & kv : w.conf) h = hash_bytes (kv.second.data (), kv.second.size (), h); distinct (h); if (want_sample ()) show ("%s", quote (doc).c_str ()); W = nullptr;
}
// Containers used in different threads do not disturb one another
struct TT { uint64_t seed; pthread_barrier_t * bar; iot_container_t * c; };
static void * in_thread (void * p)
{
  TT * t = (TT *) p; World w; W = &w; Rng r (t->seed); unsigned n = 6;
  std::string doc = "{"; for (unsigned k = 0; k < n; k++) { std::string nm = "n" + std::to_string (k); M x; x.type = "T::Node"; for (unsigned q = k + 1; q < n; q++) if (r.chance (1, 2)) x.deps.push_back ("n" + std::to_string (q)); w.conf[nm] = node_json (r, nm, x); doc += std::string (k ? "," : "") + esc (nm) + ":\"T::Node\""; }
  w.conf["cont"] = doc + "}";
  pthread_barrier_wait (t->bar);
  for (int k = 0; k < 3; k++)
  {
    VH_CHECK (iot_container_init (t->c), "cont-init-result", "init failed");
    VH_CHECK (order_of (CREATE, 0).size () == n * (unsigned) (k + 1), "cont-threads", "%zu of %u components created while other containers were loading", order_of (CREATE, 0).size (), n * (k + 1));
    iot_container_start (t->c); iot_container_stop (t->c);
    for (unsigned q = 0; q < n; q++) iot_container_delete_component (t->c, ("n" + std::to_string (q)).c_str ());
    VH_CHECK (w.live == 0, "cont-leak", "%ld components left", w.live); evaluation ();
  }
  W = nullptr; return NULL;
}
static void m_threads (Rng & r, uint64_t)
{
  iot_container_config (&g_conf_nosave); pthread_t th[4]; TT t[4]; pthread_barrier_t bar; unsigned n = (unsigned) r.range (2, 4); pthread_barrier_init (&bar, NULL, n); setenv ("VERIF_SET_VARIABLE", "value of it", 1);
  for (unsigned k = 0; k < n; k++) { t[k] = TT { r.next (), &bar, iot_container_alloc ("cont") }; }
  for (unsigned k = 0; k < n; k++) pthread_create (&th[k], NULL, in_thread, &t[k]);
  for (unsigned k = 0; k < n; k++) { pthread_join (th[k], NULL); iot_container_free (t[k].c); }
  pthread_barrier_destroy (&bar); count ("parallel_loads", n); distinct (r.next ());
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "graph", m_graph, true }, { "slow", m_slow, false }, { "real", m_real, true }, { "threads", m_threads, false }, { "dynamic", m_dynamic, false } };
  iot_component_factory_add (&g_node); iot_component_factory_add (&g_node2); iot_component_factory_add (&g_node);
  iot_component_factory_add (iot_logger_factory ()); iot_component_factory_add (iot_threadpool_factory ()); iot_component_factory_add (iot_scheduler_factory ());
  // messages about refused configuration go nowhere
  iot_logger_set_level (iot_logger_default (), IOT_LOG_NONE);
  return run (argc, argv, modes, 5);
}
