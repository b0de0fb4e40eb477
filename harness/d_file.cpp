// C23: files and stored configurations. fault: one operation of a forked child is traced at its system calls; it is killed before and after each, and
// each is made to fail (or to transfer less), and the files then left are compared with the old and new ones. hist: histories against a model of the
// directory. conc: readers and writers of one file at once.
#include "vh.hpp"
#include "iot/iot.h"
#include "iot/file.h"
#include "iot/store.h"
#include <map>
#include <set>
#include <algorithm>
#include <sys/ptrace.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/prctl.h>
#include <dirent.h>
#include <fcntl.h>
#include <errno.h>
#include <limits.h>
#include <pthread.h>
using namespace vh;
typedef std::string Str;
// ---- what is on disk, read without the library
struct Entry { char type; Str data; bool operator== (const Entry & o) const { return type == o.type && data == o.data; } };
typedef std::map<Str, Entry> Tree;
static void tree (const Str & dir, const Str & rel, Tree & out)
{
  DIR * d = opendir (dir.c_str ()); if (!d) return;
  while (struct dirent * e = readdir (d))
  {
    Str n = e->d_name; if (n == "." || n == "..") continue;
    Str p = dir + "/" + n, q = rel.empty () ? n : rel + "/" + n; struct stat st; if (lstat (p.c_str (), &st)) continue;
    if (S_ISDIR (st.st_mode)) { out[q] = Entry { 'd', "" }; tree (p, q, out); }
    else if (S_ISLNK (st.st_mode)) { char b[512]; ssize_t l = readlink (p.c_str (), b, sizeof b); out[q] = Entry { 'l', Str (b, l > 0 ? (size_t) l : 0) }; }
    else if (S_ISREG (st.st_mode)) { Entry & x = out[q]; x.type = 'f'; int f = open (p.c_str (), O_RDONLY); char b[65536]; ssize_t l; while ((l = read (f, b, sizeof b)) > 0) x.data.append (b, (size_t) l); close (f); }
    else out[q] = Entry { 'o', "" };
  }
  closedir (d);
}
static void put (const Str & p, const Str & c) { int f = open (p.c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t at = 0; while (at < c.size ()) { ssize_t n = write (f, c.data () + at, c.size () - at); if (n <= 0) { perror ("harness: write"); exit (2); } at += (size_t) n; } if (f < 0) { perror (p.c_str ()); exit (2); } close (f); }
static void wipe (const Str & dir) { Tree t; tree (dir, "", t); for (auto i = t.rbegin (); i != t.rend (); ++i) { Str p = dir + "/" + i->first; if (i->second.type == 'd') rmdir (p.c_str ()); else unlink (p.c_str ()); } }
static Str diff (const Tree & a, const Tree & b) { for (auto & x : a) { auto i = b.find (x.first); if (i == b.end ()) return x.first + " is missing"; if (!(i->second == x.second)) return x.first + " has changed (" + std::to_string (x.second.data.size ()) + " to " + std::to_string (i->second.data.size ()) + " bytes)"; } for (auto & x : b) if (!a.count (x.first)) return x.first + " was left behind"; return ""; }
static const Str BASE = "fs";
static Str content (Rng & r, bool text)
{
  static const unsigned SZ[] = { 1, 2, 100, 4095, 4096, 4097, 8192, 12288, 65536, 100000 }; size_t n = r.chance (1, 2) ? SZ[r.below (10)] : 1 + r.below (r.chance (1, 4) ? 40000 : 600); if (r.chance (1, 25)) n = 0; if (r.chance (1, 60)) n = 1000000 + r.below (5000);
  Str s (n, 0); uint64_t z = r.next (); for (size_t k = 0; k < n; k++) { z = z * 6364136223846793005ull + 1442695040888963407ull; unsigned char c = (unsigned char) (z >> 56); s[k] = (char) (text && !c ? 1 : c); }
  if (!text && n && r.chance (1, 3)) s[r.below (n)] = 0;
  return s;
}
// ---- operations
enum Op { WB, WS, SWB, SWS, CSAVE, RB, RS, SRB, SRS, CLOAD, DEL, SDEL, CDEL, LIST, CLIST, NOPS };
static const char * ON[] = { "iot_file_write_binary", "iot_file_write", "iot_store_write_binary", "iot_store_write", "iot_store_config_save", "iot_file_read_binary", "iot_file_read", "iot_store_read_binary", "iot_store_read", "iot_store_config_load", "iot_file_delete", "iot_store_delete", "iot_store_config_delete", "iot_file_list", "iot_store_config_list" };
static bool is_write (Op o) { return o <= CSAVE; } static bool is_read (Op o) { return o >= RB && o <= CLOAD; } static bool is_del (Op o) { return o >= DEL && o <= CDEL; }
struct Call { Op op = WB; Str dir, name; bool nouri = false; Str data; Str regex; bool noregex = false; };
static Str path_of (const Call & c) { Str n = c.dir.empty () ? c.name : c.dir + "/" + c.name; return c.op == CSAVE || c.op == CLOAD || c.op == CDEL ? n + ".json" : n; }
struct Out { bool ok; bool null; size_t len; bool haslen; Str data; std::vector<Str> list; };
static Out perform (const Call & c)
{
  Out o {}; Str p = path_of (c); const char * uri = c.dir.empty () ? NULL : c.dir.c_str (); uint8_t * b = NULL; char * s = NULL; iot_data_t * l = NULL; size_t len = 0x5A5A5A;
  switch (c.op)
  {
    case WB: { uint8_t * copy = (uint8_t *) malloc (c.data.size () ? c.data.size () : 1); memcpy (copy, c.data.data (), c.data.size ()); o.ok = iot_file_write_binary (p.c_str (), copy, c.data.size ()); free (copy); return o; }
    case WS: o.ok = iot_file_write (p.c_str (), c.data.c_str ()); return o;
    case SWB: { uint8_t * copy = (uint8_t *) malloc (c.data.size () ? c.data.size () : 1); memcpy (copy, c.data.data (), c.data.size ()); o.ok = iot_store_write_binary (p.c_str (), copy, c.data.size ()); free (copy); return o; }
    case SWS: o.ok = iot_store_write (p.c_str (), c.data.c_str ()); return o;
    case CSAVE: o.ok = iot_store_config_save (c.name.c_str (), uri, c.data.c_str ()); return o;
    case RB: b = iot_file_read_binary (p.c_str (), c.noregex ? NULL : &len); break;
    case SRB: b = iot_store_read_binary (p.c_str (), c.noregex ? NULL : &len); break;
    case RS: s = iot_file_read (p.c_str ()); break;
    case SRS: s = iot_store_read (p.c_str ()); break;
    case CLOAD: s = iot_store_config_load (c.name.c_str (), uri); break;
    case DEL: o.ok = iot_file_delete (p.c_str ()); return o;
    case SDEL: o.ok = iot_store_delete (p.c_str ()); return o;
    case CDEL: o.ok = iot_store_config_delete (c.name.c_str (), uri); return o;
    case LIST: l = iot_file_list (p.c_str (), c.noregex ? NULL : c.regex.c_str ()); break;
    default: l = iot_store_config_list (p.c_str ()); break;
  }
  if (c.op == LIST || c.op == CLIST)
  {
    o.null = !l; if (l) { iot_data_list_iter_t i; iot_data_list_iter (l, &i); while (iot_data_list_iter_next (&i)) o.list.push_back (iot_data_list_iter_string_value (&i)); VH_CHECK (iot_data_list_length (l) == o.list.size (), "file-list", "list of length %u has %zu elements", iot_data_list_length (l), o.list.size ()); iot_data_free (l); }
    std::sort (o.list.begin (), o.list.end ()); return o;
  }
  if ((c.op == RB || c.op == SRB) && !c.noregex) { o.haslen = true; o.len = len; o.null = !b; if (b) { VH_CHECK (len < (1u << 30), "file-read", "length %zu", len); o.data.assign ((char *) b, len); VH_CHECK (b[len] == 0, "file-read", "no terminator after the content"); } }
  else { if (!s) s = (char *) b; b = NULL; o.null = !s; if (s) o.data = s; free (s); }
  free (b);
  return o;
}
// names the regular expressions used here match
static const char * RX[] = { NULL, "\\.json$", "^a", "x$", "b", ".", "^$", "[", "a\\{1", "^[a-c][a-z]*$", "" };
static bool rx_bad (const char * x) { return x && (!strcmp (x, "[") || !strcmp (x, "a\\{1")); }
static bool ends (const Str & n, const char * e) { size_t l = strlen (e); return n.size () >= l && n.compare (n.size () - l, l, e) == 0; }
static bool rx_match (const char * x, const Str & n)
{
  if (!x || !*x || !strcmp (x, ".")) return true;
  if (!strcmp (x, "\\.json$")) return ends (n, ".json"); if (!strcmp (x, "^a")) return n[0] == 'a'; if (!strcmp (x, "x$")) return ends (n, "x"); if (!strcmp (x, "b")) return n.find ('b') != Str::npos;
  if (!strcmp (x, "^[a-c][a-z]*$")) { if (n[0] < 'a' || n[0] > 'c') return false; for (size_t k = 1; k < n.size (); k++) if (n[k] < 'a' || n[k] > 'z') return false; return true; }
  return false;
}
// the target as it is in the model; "" is BASE itself
static Str rel (const Str & p) { Str q = p; if (q.rfind (BASE + "/", 0) == 0) q = q.substr (BASE.size () + 1); else if (q == BASE) q = ""; return q; }
static bool dir_ok (const Tree & t, const Str & q) { if (q.empty ()) return true; auto i = t.find (q); return i != t.end () && i->second.type == 'd'; }
static Str parent (const Str & q) { size_t k = q.rfind ('/'); return k == Str::npos ? "" : q.substr (0, k); }
static std::vector<Str> m_list (const Tree & t, const Call & c)
{
  std::vector<Str> l; Str q = rel (path_of (c));
  for (auto & x : t) if (x.second.type == 'f' && parent (x.first) == q) { Str n = q.empty () ? x.first : x.first.substr (q.size () + 1); if (c.op == LIST ? rx_match (c.noregex ? NULL : c.regex.c_str (), n) : ends (n, ".json")) l.push_back (c.op == LIST ? n : n.substr (0, n.size () - 5)); }
  std::sort (l.begin (), l.end ()); return l;
}
static bool empty_dir (const Tree & t, const Str & q) { for (auto & x : t) if (x.first.rfind (q + "/", 0) == 0) return false; return true; }
// what the call must do with nothing going wrong: updates t, returns whether it succeeds; maybe: may be refused
static bool m_apply (Tree & t, const Call & c, bool & maybe)
{
  Str q = rel (path_of (c)); maybe = false;
  if (is_write (c.op))
  {
    if (!dir_ok (t, parent (q))) return false; auto i = t.find (q); if (i != t.end () && i->second.type == 'd') return false;
    Str last = parent (q).empty () ? q : q.substr (parent (q).size () + 1); if (last.size () > 255) return false; if (last.size () > 240) maybe = true;
    t[q] = Entry { 'f', c.op == WB || c.op == SWB ? c.data : Str (c.data.c_str ()) }; return true;
  }
  if (is_del (c.op)) { auto i = t.find (q); if (i == t.end ()) return false; if (i->second.type == 'd') { if (!empty_dir (t, q)) return false; maybe = true; } t.erase (i); return true; }
  return true;
}
static void judge_read (const Tree & t, const Call & c, const Out & o, bool faulted)
{
  Str q = rel (path_of (c)); auto i = t.find (q); bool has = i != t.end () && i->second.type == 'f'; const Str empty, & want = has ? i->second.data : empty;
  if (o.haslen && o.null) VH_CHECK (o.len == 0, "file-read", "%s gave no content but a length of %zu", ON[c.op], o.len);
  if (o.null) { VH_CHECK (faulted || !has || want.empty (), "file-read", "%s of %s (%zu bytes) returned nothing", ON[c.op], q.c_str (), want.size ()); return; }
  VH_CHECK (has, "file-read", "%s returned %zu bytes of %s, which is no file", ON[c.op], o.data.size (), q.c_str ());
  bool bin = o.haslen; Str w = bin ? want : Str (want.c_str ());
  if (o.data != w) { size_t k = 0; while (k < w.size () && k < o.data.size () && w[k] == o.data[k]) k++; fail ("file-read", "%s returned %zu bytes of %s, written were %zu; differs at %zu", ON[c.op], o.data.size (), q.c_str (), w.size (), k); }
}
static void judge_list (const Tree & t, const Call & c, const Out & o, bool faulted)
{
  Str q = rel (path_of (c)); bool can = dir_ok (t, q) && !(c.op == LIST && !c.noregex && rx_bad (c.regex.c_str ()));
  if (o.null) { VH_CHECK (faulted || !can, "file-list", "%s of %s returned nothing", ON[c.op], q.c_str ()); return; }
  VH_CHECK (can, "file-list", "%s of %s returned a list of %zu", ON[c.op], q.c_str (), o.list.size ());
  std::vector<Str> w = m_list (t, c);
  if (o.list != w) { Str bad; for (auto & x : o.list) if (!std::binary_search (w.begin (), w.end (), x)) bad += " +" + x; for (auto & x : w) if (!std::binary_search (o.list.begin (), o.list.end (), x)) bad += " -" + x; fail ("file-list", "%s (%s) of %s has %zu names, expected %zu:%.300s", ON[c.op], c.op == LIST && !c.noregex ? c.regex.c_str () : "", q.c_str (), o.list.size (), w.size (), bad.c_str ()); }
}
static Str some_name (Rng & r)
{
  static const char * N[] = { "a", "b", "ab", "a.new", "a.new1", "b.new", "a.json", "a.json.new", "xjson", "x.jsonx", ".json", "c d", "caf\xC3\xA9", "json", "a.txt", "abc" }; unsigned k = (unsigned) r.below (20);
  if (k < 16) return N[k]; if (k < 19) return Str (1, (char) ('a' + r.below (4)));
  return Str (r.chance (1, 2) ? 230 + r.below (30) : 1 + r.below (200), 'n');
}
static Str some_dir (Rng & r) { static const char * D[] = { "", "/d", "/d", "/d/e", "/nodir", "/a", "/d/" }; return BASE + D[r.below (r.chance (1, 3) ? 7 : 3)]; }
static Call some_call (Rng & r, bool writes)
{
  Call c; static const Op OPS[] = { WB, WB, WS, SWB, SWS, CSAVE, CSAVE, RB, RS, SRB, SRS, CLOAD, DEL, SDEL, CDEL, LIST, CLIST }; c.op = writes ? OPS[r.below (7)] : OPS[r.below (17)];
  c.dir = some_dir (r); c.name = some_name (r); c.noregex = r.chance (1, 4); if (c.op == RB || c.op == SRB) c.noregex = r.chance (1, 6);
  const char * x = RX[1 + r.below (10)]; c.regex = x; if (c.op == LIST || c.op == CLIST) { c.name = c.dir; c.dir = ""; if (c.name.back () == '/') c.name.pop_back (); }
  if (c.dir.size () && c.dir.back () == '/') c.dir.pop_back ();
  if (is_write (c.op)) { c.data = content (r, !(c.op == WB || c.op == SWB)); }
  return c;
}
static Str text (const Call & c) { Str s = Str (ON[c.op]) + " " + path_of (c).substr (0, 80); if (is_write (c.op)) s += " " + std::to_string (c.data.size ()) + " bytes"; if (c.op == LIST) s += c.noregex ? " (all)" : " (" + c.regex + ")"; return s; }
static void populate (Rng & r, Tree & t)
{
  wipe (BASE); mkdir (BASE.c_str (), 0755); t.clear (); mkdir ((BASE + "/d").c_str (), 0755); if (r.chance (1, 2)) mkdir ((BASE + "/d/e").c_str (), 0755);
  for (unsigned k = (unsigned) r.below (7); k--;) { Str p = BASE + (r.chance (1, 2) ? "/" : "/d/") + some_name (r).substr (0, 200); struct stat st; if (!stat (p.c_str (), &st)) continue; put (p, content (r, false)); }
  if (r.chance (1, 5)) { if (symlink ("nowhere", (BASE + "/lnk.json").c_str ())) {} } if (r.chance (1, 6)) mkdir ((BASE + "/dir.json").c_str (), 0755); if (r.chance (1, 5)) mkfifo ((BASE + "/p.json").c_str (), 0644);
  tree (BASE, "", t);
}
static int open_fds () { int n = 0; DIR * d = opendir ("/proc/self/fd"); if (!d) return -1; while (readdir (d)) n++; closedir (d); return n; }
// ---- histories
static void m_hist (Rng & r, uint64_t)
{
  Tree t; populate (r, t); unsigned n = 10 + (unsigned) r.below (40); int fds = open_fds (); uint64_t f = 1;
  while (n--)
  {
    Call c = some_call (r, false); log_op ("%s", text (c).c_str ()); auto fifo = t.find (rel (path_of (c))); if (is_read (c.op) && fifo != t.end () && fifo->second.type == 'o') continue;
    Tree before = t; bool maybe; bool want = m_apply (t, c, maybe); Out o = perform (c); Tree now; tree (BASE, "", now);
    if (is_write (c.op) || is_del (c.op))
    {
      if (maybe && !o.ok) { t = before; want = false; }
      VH_CHECK (o.ok == want, is_write (c.op) ? "file-write" : "file-delete", "%s returned %s", text (c).c_str (), o.ok ? "true" : "false");
      count (o.ok ? is_write (c.op) ? "writes" : "deletes" : "refused");
      if (o.ok && is_write (c.op) && r.chance (1, 2)) { Call b = c; b.op = c.op == CSAVE ? CLOAD : c.op == WB || c.op == SWB ? (r.chance (1, 2) ? RB : SRB) : r.chance (1, 2) ? RS : SRS; b.noregex = false; judge_read (now, b, perform (b), false); count ("read_back"); }
    }
    else if (is_read (c.op)) { judge_read (t, c, o, false); count (o.null ? "reads_of_nothing" : "reads"); } else { judge_list (t, c, o, false); count ("lists"); }
    Str d = diff (t, now); VH_CHECK (d.empty (), "file-tree", "after %s (%s): %s", text (c).c_str (), o.ok ? "true" : "false", d.c_str ());
    f = f * 31 + (uint64_t) c.op * 8 + (o.ok ? 1 : 0) + (o.null ? 2 : 0) + hash_bytes (c.name.data (), c.name.size ()) % 97 * 64; evaluation (); distinct (f); progress ();
    int g = open_fds (); VH_CHECK (g == fds, "file-descriptors", "%d descriptors more after %s", g - fds, text (c).c_str ());
  }
  wipe (BASE); if (want_sample ()) { Str l; for (auto & x : t) l += Str (" ") + x.second.type + ":" + x.first.substr (0, 40) + "(" + std::to_string (x.second.data.size ()) + ")"; show ("directory after a history:%s", l.c_str ()); }
  // stores of other kinds
  if (r.chance (1, 4))
  {
    static std::map<Str, Str> mem; mem.clear ();
    iot_store_config ([] (const char * p, size_t * len) -> uint8_t * { auto i = mem.find (p); if (i == mem.end ()) { if (len) *len = 0; return NULL; } uint8_t * b = (uint8_t *) malloc (i->second.size () + 1); memcpy (b, i->second.c_str (), i->second.size () + 1); if (len) *len = i->second.size (); return b; },
      [] (const char * p, const uint8_t * b, size_t len) -> bool { mem[p] = Str ((const char *) b, len); return true; }, [] (const char * p) -> bool { return mem.erase (p) == 1; });
    std::map<Str, Str> m;
    for (int k = 0; k < 12; k++)
    {
      Str name = some_name (r), uri = r.chance (1, 2) ? "u" : "v/w"; bool nouri = r.chance (1, 3); Str key = (nouri ? "" : uri + "/") + name + ".json"; const char * u = nouri ? NULL : uri.c_str ();
      switch (r.below (3))
      {
        case 0: { Str d = content (r, true); bool ok = iot_store_config_save (name.c_str (), u, d.c_str ()); VH_CHECK (ok, "store-write", "save returned false"); m[key] = d; break; }
        case 1: { char * s = iot_store_config_load (name.c_str (), u); auto i = m.find (key); VH_CHECK (!s == (i == m.end ()), "store-read", "load of %s returned %s", key.c_str (), s ? "something" : "nothing"); if (s) VH_CHECK (i->second == s, "store-read", "load of %s differs from what was saved", key.c_str ()); free (s); break; }
        default: { bool ok = iot_store_config_delete (name.c_str (), u); VH_CHECK (ok == (m.erase (key) == 1), "store-delete", "delete of %s returned %d", key.c_str (), ok); break; }
      }
      VH_CHECK (mem == m, "store-map", "the store holds %zu entries, expected %zu, or others", mem.size (), m.size ()); evaluation (); count ("memory_store_calls");
    }
    mem.clear ();
    iot_store_config (NULL, NULL, NULL); size_t len = 7; uint8_t one = 1; VH_CHECK (!iot_store_read ("x") && !iot_store_read_binary ("x", &len) && !iot_store_write ("x", "y") && !iot_store_write_binary ("x", &one, 1) && !iot_store_delete ("x") && !iot_store_config_load ("x", NULL) && !iot_store_config_save ("x", "u", "{}") && !iot_store_config_delete ("x", NULL), "store-none", "a store without functions reported success");
    iot_store_config (iot_file_read_binary, iot_file_write_binary, iot_file_delete);
  }
}
// ---- faults and crashes of one operation, at its system calls
struct Shared { volatile int done; int ok, null, haslen; size_t len, nlist; long live; int fds; char data[3 << 20]; };
static Shared * sh; static const uint64_t MARK = 0x7e57c0de;
enum { F_NONE, F_KILL_BEFORE, F_KILL_AFTER, F_ERR, F_ERR_AFTER, F_SHORT, F_TYPES };
struct Fault { int at, kind, err; };
struct Sys { long nr; uint64_t len; };
static const struct { long nr; const char * name; } SN[] = { { SYS_read, "read" }, { SYS_write, "write" }, { SYS_open, "open" }, { SYS_openat, "openat" }, { SYS_close, "close" }, { SYS_fstat, "fstat" }, { SYS_newfstatat, "newfstatat" }, { SYS_stat, "stat" }, { SYS_lstat, "lstat" }, { SYS_lseek, "lseek" }, { SYS_rename, "rename" }, { SYS_renameat, "renameat" }, { SYS_renameat2, "renameat2" }, { SYS_unlink, "unlink" }, { SYS_unlinkat, "unlinkat" }, { SYS_rmdir, "rmdir" }, { SYS_fsync, "fsync" }, { SYS_fdatasync, "fdatasync" }, { SYS_link, "link" }, { SYS_linkat, "linkat" }, { SYS_getdents64, "getdents64" }, { SYS_ftruncate, "ftruncate" }, { SYS_truncate, "truncate" }, { SYS_pread64, "pread" }, { SYS_pwrite64, "pwrite" }, { SYS_writev, "writev" }, { SYS_readv, "readv" }, { SYS_creat, "creat" }, { SYS_chmod, "chmod" }, { SYS_fchmod, "fchmod" }, { SYS_access, "access" }, { SYS_statx, "statx" }, { SYS_fallocate, "fallocate" }, { SYS_symlink, "symlink" }, { SYS_copy_file_range, "copy_file_range" }, { SYS_sendfile, "sendfile" }, { SYS_fchmodat, "fchmodat" }, { SYS_openat2, "openat2" } };
static const char * sys_name (long nr) { for (auto & s : SN) if (s.nr == nr) return s.name; return NULL; }
struct Run { bool killed = false, exited = false; int status = 0; std::vector<Sys> calls; std::vector<long> faulted; };
static Out g_out; static bool g_faulted_unlink;
// errors each call may give
static int some_err (Rng & r, long nr)
{
  switch (nr)
  {
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_ftruncate: case SYS_fallocate: case SYS_copy_file_range: case SYS_sendfile: { static const int E[] = { ENOSPC, EIO, EDQUOT, EFBIG, EINTR }; return E[r.below (5)]; }
    case SYS_open: case SYS_openat: case SYS_openat2: case SYS_creat: { static const int E[] = { EACCES, EMFILE, ENFILE, ENOSPC, EROFS, ENOMEM, EIO, EPERM }; return E[r.below (8)]; }
    case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_link: case SYS_linkat: { static const int E[] = { EACCES, ENOSPC, EIO, EROFS, EXDEV, EPERM, EBUSY }; return E[r.below (7)]; }
    case SYS_unlink: case SYS_unlinkat: case SYS_rmdir: { static const int E[] = { EACCES, EBUSY, EIO, EPERM, EROFS }; return E[r.below (5)]; }
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_getdents64: { static const int E[] = { EIO, EIO, EINTR, ENOMEM }; return nr == SYS_getdents64 ? E[r.below (2)] : E[r.below (3)]; }
    case SYS_close: case SYS_fsync: case SYS_fdatasync: { static const int E[] = { EIO, ENOSPC, EDQUOT }; return E[r.below (3)]; }
    default: { static const int E[] = { EIO, EACCES, ENOMEM }; return E[r.below (3)]; }
  }
}
static Run traced (const Call & c, const std::vector<Fault> & faults)
{
  Run res {}; sh->done = 0; fflush (stdout); fflush (stderr);
  pid_t pid = fork ();
  if (pid < 0) { perror ("harness: fork"); exit (2); }
  if (pid == 0)
  {
    prctl (PR_SET_PDEATHSIG, SIGKILL); if (ptrace (PTRACE_TRACEME, 0, 0, 0)) _exit (97); raise (SIGSTOP);
    int fds = open_fds (); long live = live_allocs ();
    {
      syscall (SYS_getpgid, MARK); Out o = perform (c); syscall (SYS_getpgid, MARK);
      sh->ok = o.ok; sh->null = o.null; sh->haslen = o.haslen; sh->len = o.len; sh->nlist = o.list.size (); Str all = o.data; if (c.op == LIST || c.op == CLIST) for (auto & x : o.list) { all += x; all += '/'; } sh->data[0] = 0; if (all.size () < sizeof (sh->data)) memcpy (sh->data, all.data (), all.size ()); sh->live = (long) all.size ();
    }
    size_t n = (size_t) sh->live; sh->live = live_allocs () - live; sh->fds = open_fds () - fds; sh->done = 1 + (int) n;
    _exit (0);
  }
  int st; if (waitpid (pid, &st, 0) != pid || !WIFSTOPPED (st)) { fprintf (stderr, "harness: child cannot be traced\n"); exit (2); }
  ptrace (PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
  bool in = false, entry = true; int idx = -1; const Fault * cur = NULL; int sig = 0;
  for (;;)
  {
    if (ptrace (PTRACE_SYSCALL, pid, 0, sig) && !res.killed) { perror ("harness: ptrace"); exit (2); } sig = 0;
    if (waitpid (pid, &st, 0) != pid) { perror ("harness: waitpid"); exit (2); }
    if (WIFEXITED (st) || WIFSIGNALED (st)) { res.exited = WIFEXITED (st); res.status = WIFEXITED (st) ? WEXITSTATUS (st) : WTERMSIG (st); break; }
    if (WSTOPSIG (st) != (SIGTRAP | 0x80)) { sig = WSTOPSIG (st); if (sig == SIGSTOP || sig == SIGTRAP) sig = 0; continue; }
    struct user_regs_struct g; ptrace (PTRACE_GETREGS, pid, 0, &g); long nr = (long) g.orig_rax;
    if (entry)
    {
      entry = false; cur = NULL;
      if (nr == SYS_getpgid && g.rdi == MARK) { in = !in; continue; }
      if (!in) continue;
      idx++; res.calls.push_back (Sys { nr, g.rdx });
      for (auto & f : faults) if (f.at == idx) cur = &f;
      if (!cur) continue;
      static Fault shifted; // the calls may differ from the dry run's after an earlier fault
      if (cur->kind != F_KILL_BEFORE && cur->kind != F_KILL_AFTER && !sys_name (nr)) { cur = NULL; continue; }
      if (cur->kind == F_ERR && nr == SYS_close) { shifted = *cur; shifted.kind = F_ERR_AFTER; cur = &shifted; }
      else if (cur->kind == F_ERR_AFTER && nr != SYS_close) { shifted = *cur; shifted.kind = F_ERR; cur = &shifted; }
      if (cur->kind == F_SHORT && nr != SYS_read && nr != SYS_write && nr != SYS_pread64 && nr != SYS_pwrite64) { cur = NULL; continue; }
      if (cur->kind == F_KILL_BEFORE) { kill (pid, SIGKILL); res.killed = true; continue; }
      if (cur->kind == F_ERR) { g.orig_rax = (unsigned long long) -1; ptrace (PTRACE_SETREGS, pid, 0, &g); res.faulted.push_back (nr); }
      else if (cur->kind == F_SHORT && g.rdx > 1) { g.rdx = (g.rdx + 1) / 2; ptrace (PTRACE_SETREGS, pid, 0, &g); }
    }
    else
    {
      entry = true; if (!cur) continue;
      if (cur->kind == F_KILL_AFTER) { kill (pid, SIGKILL); res.killed = true; }
      else if (cur->kind == F_ERR || (cur->kind == F_ERR_AFTER && (long) g.rax >= 0)) { g.rax = (unsigned long long) -(long long) cur->err; ptrace (PTRACE_SETREGS, pid, 0, &g); if (cur->kind == F_ERR_AFTER) res.faulted.push_back (nr); }
      else if (cur->kind == F_TYPES && (long) g.rax > 0)
      {
        std::vector<char> b ((size_t) g.rax); struct iovec l { b.data (), b.size () }, m { (void *) g.rsi, b.size () };
        if (process_vm_readv (pid, &l, 1, &m, 1, 0) == (ssize_t) b.size ()) { for (size_t k = 0; k + 19 < b.size ();) { unsigned short len; memcpy (&len, &b[k + 16], 2); b[k + 18] = 0; k += len ? len : b.size (); } if (process_vm_writev (pid, &l, 1, &m, 1, 0) < 0) {} }
      }
      cur = NULL;
    }
  }
  if (sh->done) { size_t n = (size_t) sh->done - 1; g_out = Out {}; g_out.ok = sh->ok; g_out.null = sh->null; g_out.haslen = sh->haslen; g_out.len = sh->len; if (c.op == LIST || c.op == CLIST) { Str all (sh->data, n); size_t at = 0, e; while ((e = all.find ('/', at)) != Str::npos) { g_out.list.push_back (all.substr (at, e - at)); at = e + 1; } } else g_out.data.assign (sh->data, n); }
  return res;
}
static void materialise (const Tree & t) { wipe (BASE); mkdir (BASE.c_str (), 0755); for (auto & x : t) { Str p = BASE + "/" + x.first; if (x.second.type == 'd') mkdir (p.c_str (), 0755); else if (x.second.type == 'f') put (p, x.second.data); else if (x.second.type == 'l') { if (symlink (x.second.data.c_str (), p.c_str ())) {} } else mkfifo (p.c_str (), 0644); } }
static void m_fault (Rng & r, uint64_t)
{
  if (!sh) { sh = (Shared *) mmap (NULL, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  Tree before; populate (r, before); Call c = some_call (r, r.chance (2, 3)); Str q = rel (path_of (c)); auto f = before.find (q); if (is_read (c.op) && f != before.end () && f->second.type == 'o') return;
  if (c.data.size () > 200000) c.data.resize (200000);
  if (r.chance (1, 2) && f == before.end () && dir_ok (before, parent (q)) && c.name.size () < 200 && c.op < DEL) { before[q] = Entry { 'f', content (r, false) }; }
  if (is_write (c.op) && r.chance (1, 4) && dir_ok (before, parent (q)) && c.name.size () < 200) before[q + ".new"] = Entry { 'f', "left from a crash" };
  materialise (before); Tree want = before; bool maybe; bool wok = m_apply (want, c, maybe); log_op ("%s", text (c).c_str ());
  auto judge = [&] (const Run & run, const std::vector<Fault> & fs, const Str & what) {
    Tree now; tree (BASE, "", now); bool faulted = !run.faulted.empty (), cut = false; for (auto & x : fs) if (x.kind == F_KILL_BEFORE || x.kind == F_KILL_AFTER) cut = true;
    evaluation (); progress ();
    if (!run.killed)
    {
      VH_CHECK (run.exited && run.status == 0 && sh->done, "file-crash", "%s, %s: %s %d", text (c).c_str (), what.c_str (), run.exited ? "exited with" : "died of signal", run.status);
      VH_CHECK (sh->fds == 0, "file-descriptors", "%s, %s: %d descriptors left open", text (c).c_str (), what.c_str (), sh->fds);
      VH_CHECK (sh->live == 0, "file-leak", "%s, %s: %ld blocks leaked", text (c).c_str (), what.c_str (), sh->live);
    }
    if (is_write (c.op) || is_del (c.op))
    {
      bool unl = false; for (long nr : run.faulted) if (nr == SYS_unlink || nr == SYS_unlinkat || nr == SYS_rmdir) unl = true;
      Tree rest = now, old = before, neu = want; auto has = now.find (q);
      if (!run.killed && g_out.ok) { VH_CHECK (wok || (maybe && !fs.empty ()), "file-write", "%s, %s: reported success", text (c).c_str (), what.c_str ()); Str d = diff (want, now); VH_CHECK (d.empty (), "file-success", "%s, %s: reported success, but %s", text (c).c_str (), what.c_str (), d.c_str ()); }
      else
      {
        if (!run.killed && !faulted && !maybe) VH_CHECK (!wok, "file-write", "%s, %s: reported failure", text (c).c_str (), what.c_str ());
        bool same_old = before.count (q) ? has != now.end () && has->second == before[q] : has == now.end (), same_new = want.count (q) ? has != now.end () && has->second == want[q] : has == now.end ();
        VH_CHECK (same_old || same_new, "file-torn", "%s, %s: the target holds %zu bytes, neither its old content (%zu bytes%s) nor the new (%zu bytes)", text (c).c_str (), what.c_str (), has == now.end () ? 0 : has->second.data.size (), before.count (q) ? before[q].data.size () : 0, before.count (q) ? "" : ", absent", c.data.size ());
        if (is_del (c.op) && !run.killed && !faulted) VH_CHECK (same_old, "file-delete", "%s, %s: reported failure but removed it", text (c).c_str (), what.c_str ());
        count (same_new && !same_old ? "found_new" : "found_old");
        // everything else is as it was; a temporary file may remain only if the process died or could not remove it
        rest.erase (q); old.erase (q); for (auto i = rest.begin (); i != rest.end ();) { if (!old.count (i->first) && (run.killed || unl) && i->second.type == 'f' && parent (i->first) == parent (q)) { i = rest.erase (i); count ("temporary_left"); } else ++i; }
        Str d = diff (old, rest); VH_CHECK (d.empty (), "file-other", "%s, %s: %s", text (c).c_str (), what.c_str (), d.c_str ());
      }
    }
    else { Str d = diff (before, now); VH_CHECK (d.empty (), "file-tree", "%s, %s: %s", text (c).c_str (), what.c_str (), d.c_str ()); if (!run.killed) { if (is_read (c.op)) judge_read (before, c, g_out, faulted); else judge_list (before, c, g_out, faulted); } }
    (void) cut;
    // the directory is as usable as before
    if (is_write (c.op) && !fs.empty () && wok && !maybe) { Call again = c; again.data = c.data + "+"; Out o = perform (again); VH_CHECK (o.ok, "file-after", "%s, %s: the next write fails", text (c).c_str (), what.c_str ()); Tree t2; tree (BASE, "", t2); VH_CHECK (t2[q].data == (c.op == WB || c.op == SWB ? again.data : Str (again.data.c_str ())), "file-after", "%s, %s: the next write stored something else", text (c).c_str (), what.c_str ()); count ("writes_after_a_fault"); }
  };
  Run dry = traced (c, {}); judge (dry, {}, "no fault"); uint64_t fp = (uint64_t) c.op; for (auto & s : dry.calls) fp = fp * 31 + (uint64_t) s.nr;
  int n = (int) dry.calls.size (); count ("system_calls_seen", (uint64_t) n); Str line; if (n > 400) n = 400;
  auto go = [&] (const std::vector<Fault> & fs) {
    materialise (before); Str what; for (auto & x : fs) { if (!what.empty ()) what += " and "; const char * nm = x.at < (int) dry.calls.size () ? sys_name (dry.calls[(size_t) x.at].nr) : NULL; what += Str (x.kind == F_KILL_BEFORE ? "killed before" : x.kind == F_KILL_AFTER ? "killed after" : x.kind == F_SHORT ? "less done by" : x.kind == F_TYPES ? "no file types from" : strerror (x.err)) + " call " + std::to_string (x.at) + (nm ? Str (" ") + nm : ""); }
    Run run = traced (c, fs); judge (run, fs, what); for (auto & x : fs) fp = fp * 131 + (uint64_t) x.at * 8 + (uint64_t) x.kind; distinct (fp);
  };
  for (int k = 0; k < n; k++)
  {
    long nr = dry.calls[(size_t) k].nr; const char * nm = sys_name (nr);
    if (nm || thorough ()) { go ({ Fault { k, F_KILL_BEFORE, 0 } }); count ("crashes"); if (nm) { go ({ Fault { k, F_KILL_AFTER, 0 } }); count ("crashes"); } }
    if (!nm) continue;
    for (int z = thorough () ? 3 : 1; z--;) { go ({ Fault { k, nr == SYS_close ? F_ERR_AFTER : F_ERR, some_err (r, nr) } }); count ("faults"); }
    if (nr == SYS_write || nr == SYS_pwrite64 || nr == SYS_read || nr == SYS_pread64) { go ({ Fault { k, F_SHORT, 0 } }); count ("short_transfers"); }
    if (nr == SYS_getdents64) { go ({ Fault { k, F_TYPES, 0 } }); count ("untyped_listings"); }
  }
  std::vector<int> fa; for (int k = 0; k < n; k++) if (sys_name (dry.calls[(size_t) k].nr)) fa.push_back (k);
  if (fa.size () > 1) for (int z = thorough () ? 12 : 4; z--;)
  {
    int a = fa[r.below (fa.size ())], b = fa[r.below (fa.size ())]; if (a == b) continue; long na = dry.calls[(size_t) a].nr, nb = dry.calls[(size_t) b].nr; bool sa = (na == SYS_write || na == SYS_read) && r.chance (1, 2);
    go ({ Fault { a, sa ? F_SHORT : na == SYS_close ? F_ERR_AFTER : F_ERR, some_err (r, na) }, r.chance (1, 3) ? Fault { b, r.chance (1, 2) ? F_KILL_BEFORE : F_KILL_AFTER, 0 } : Fault { b, nb == SYS_close ? F_ERR_AFTER : F_ERR, some_err (r, nb) } }); count ("double_faults");
  }
  if (want_sample ()) { for (auto & s : dry.calls) { const char * nm = sys_name (s.nr); if (nm) line += Str (" ") + nm; } show ("%s:%s", text (c).c_str (), line.c_str ()); }
  wipe (BASE);
}
// ---- one file written and read by several threads
struct CT { Str path; uint64_t seed; int id; unsigned n; pthread_t t; };
static Str stamped (uint64_t id, size_t n) { Str s = std::to_string (id) + " " + std::to_string (n) + " "; while (s.size () < n + 30) s += (char) ('a' + (id * 7 + s.size ()) % 26); return s; }
static std::atomic<bool> g_stop;
static void * c_writer (void * p) { CT * t = (CT *) p; Rng r (t->seed); for (unsigned k = 0; k < t->n; k++) { Str s = stamped ((uint64_t) t->id * 1000 + k, r.below (r.chance (1, 2) ? 20000 : 100)); VH_CHECK (iot_file_write (t->path.c_str (), s.c_str ()), "file-write", "write by one of several threads failed"); evaluation (); } return NULL; }
static void * c_reader (void * p) { CT * t = (CT *) p; do { char * s = iot_file_read (t->path.c_str ()); VH_CHECK (s, "file-read", "the file vanished while being replaced"); uint64_t id, n; VH_CHECK (sscanf (s, "%lu %lu ", &id, &n) == 2 && stamped (id, n) == s, "file-torn", "read %zu bytes that were never written as a whole", strlen (s)); free (s); evaluation (); count ("reads_during_writes"); } while (!g_stop); return NULL; }
static void m_conc (Rng & r, uint64_t)
{
  wipe (BASE); mkdir (BASE.c_str (), 0755); Str p = BASE + "/shared"; Str first = stamped (0, 10); VH_CHECK (iot_file_write (p.c_str (), first.c_str ()), "file-write", "write failed"); g_stop = false;
  CT w[4], d[4]; int nw = 1 + (int) r.below (3), nr = 1 + (int) r.below (3);
  for (int k = 0; k < nr; k++) { d[k].path = p; pthread_create (&d[k].t, NULL, c_reader, &d[k]); } for (int k = 0; k < nw; k++) { w[k].path = p; w[k].seed = r.next (); w[k].id = k + 1; w[k].n = 20; pthread_create (&w[k].t, NULL, c_writer, &w[k]); }
  for (int k = 0; k < nw; k++) pthread_join (w[k].t, NULL); g_stop = true; for (int k = 0; k < nr; k++) pthread_join (d[k].t, NULL);
  Tree t; tree (BASE, "", t); VH_CHECK (t.size () == 1 && t.count ("shared"), "file-tree", "%zu files left, expected the one", t.size ()); distinct (hash_bytes (t["shared"].data.data (), 8) ^ (uint64_t) (nw * 8 + nr)); wipe (BASE);
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "hist", m_hist, true }, { "fault", m_fault, false }, { "conc", m_conc, true } };
  return run (argc, argv, modes, 3);
}
