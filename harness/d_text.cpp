// C01: untrusted text, generated and mutated without guidance (f_text.cpp: guided by coverage).
#include "untrusted.hpp"
using namespace vh;
static void run_kind (Rng & r, int kind)
{
  un::set_env (); un::quiet ();
  for (int k = 0; k < 20; k++)
  {
    std::string s = tg::any (r, kind); log_op ("%s text %s", tg::kind_name (kind), quote (s).substr (0, 3000).c_str ()); un::Seen seen; bool ok = un::judge (kind, s, seen);
    evaluation (); distinct (seen.shape * 31 + (uint64_t) kind); count (ok ? "texts_decoded" : "texts_refused"); count ("values_walked", seen.nodes); if (s.size () > 1000) count ("texts_beyond_1000_bytes"); if (want_sample ()) show ("%s %s: %s", tg::kind_name (kind), ok ? "decoded" : "refused", quote (s).substr (0, 150).c_str ());
  }
}
template <int K> static void m (Rng & r, uint64_t) { run_kind (r, K); }
// every truncation, and every byte replaced by each of a set, of small documents
static void m_near (Rng & r, uint64_t)
{
  un::set_env (); un::quiet (); int kind = (int) r.below (tg::KINDS); std::string s; do { s = tg::generate (r, kind); for (auto & c : s) if (!c) c = 1; } while (s.size () > 150);
  auto go = [&] (const std::string & t) { log_op ("%s text %s", tg::kind_name (kind), quote (t).c_str ()); un::Seen seen; bool ok = un::judge (kind, t, seen); evaluation (); distinct (seen.shape * 31 + (uint64_t) kind); count (ok ? "texts_decoded" : "texts_refused"); };
  for (size_t k = 0; k <= s.size (); k++) go (s.substr (0, k)); for (size_t k = 1; k < s.size (); k++) go (s.substr (k)); progress ();
  static const char B[] = "\x01\x1f\x22\x27\x5c\x80\xff{}[]<>&:,-0\n"; for (size_t k = 0; k < s.size (); k++) { std::string t = s; t[k] = B[r.below (sizeof B - 1)]; go (t); t = s; t.erase (k, 1); go (t); t = s; t.insert (k, 1, B[r.below (sizeof B - 1)]); go (t); }
  count ("documents_taken_apart");
}
// nested further than any stack is deep, or very long and flat; on a stack of ordinary size
struct Far { int kind; const std::string * s; un::Seen seen; bool ok; };
static void * far_go (void * p) { Far * f = (Far *) p; f->ok = un::judge (f->kind, *f->s, f->seen); return NULL; }
static void m_far (Rng & r, uint64_t)
{
  un::set_env (); un::quiet (); int kind = (int) r.below (8); if (kind >= 6) kind = tg::JSON; if (kind > 3) kind = tg::YAML; std::string s, what; bool nest = kind < tg::B64 && r.chance (2, 3);
  if (nest)
  {
    unsigned n = kind == tg::JSON ? 20000 + (unsigned) r.below (180000) : kind == tg::YAML ? 8000 + (unsigned) r.below (8000) : 3000 + (unsigned) r.below (40000); static const char * O[3][4] = { { "[", "{\"a\":", "[{\"k\":", "[1," }, { "<a>", "<b>", "<a x='1'>", "<_>" }, { "[", "{a: ", "[{b: ", "- " } }, * C[3][4] = { { "]", "}", "}]", "]" }, { "</a>", "</b>", "</a>", "</_>" }, { "]", "}", "}]", "" } };
    unsigned w = (unsigned) r.below (4); for (unsigned k = 0; k < n; k++) s += O[kind][w]; s += kind == tg::JSON ? "1" : "x"; unsigned m = r.chance (3, 4) ? n : (unsigned) r.below (n + 1); for (unsigned k = 0; k < m; k++) s += C[kind][w]; what = std::string (O[kind][w]) + " nested " + std::to_string (n); count ("texts_nested_beyond_any_limit");
  }
  else
  {
    unsigned n = 2000 + (unsigned) r.below (20000), w = (unsigned) r.below (3); auto rep = [&] (const char * a, const char * b, const char * c) { s = a; for (unsigned k = 0; k < n; k++) { if (k) s += ","; s += b; s += std::to_string (k % 5000); } s += c; };
    switch (kind)
    {
      case tg::JSON: if (w == 0) rep ("[", "1", "]"); else if (w == 1) { s = "{"; for (unsigned k = 0; k < n; k++) s += (k ? ",\"k" : "\"k") + std::to_string (k % 5000) + "\":" + std::to_string (k); s += "}"; } else { s = "[\""; for (unsigned k = 0; k < n * 10; k++) s += k % 7 ? "x" : "\\u20ac"; s += "\"]"; } break;
      case tg::XML: s = "<a>"; for (unsigned k = 0; k < n / 4; k++) s += w == 0 ? "<b/>" : w == 1 ? "text &lt; " : "<c d='e'>f</c>"; s += "</a>"; break;
      case tg::YAML: if (w == 0) for (unsigned k = 0; k < n / 4; k++) s += "- " + std::to_string (k) + "\n"; else if (w == 1) for (unsigned k = 0; k < n / 4; k++) s += "k" + std::to_string (k) + ": v\n"; else s = "a: \"" + std::string (n * 10, 'y') + "\"\n"; break;
      default: for (unsigned k = 0; k < n; k++) s += "QUJD"; break;
    }
    what = std::to_string (s.size ()) + " flat bytes"; count ("texts_of_many_elements");
  }
  log_op ("%s text: %s", tg::kind_name (kind), what.c_str ()); Far f; f.kind = kind; f.s = &s; f.ok = false; pthread_attr_t a; pthread_attr_init (&a); pthread_attr_setstacksize (&a, kind == tg::XML ? 8u << 20 : 2u << 20); pthread_t t; VH_CHECK (!pthread_create (&t, &a, far_go, &f), "harness", "no thread"); pthread_join (t, NULL); pthread_attr_destroy (&a);
  evaluation (); distinct (f.seen.shape * 31 + (uint64_t) kind); count (f.ok ? "texts_decoded" : "texts_refused"); count ("values_walked", f.seen.nodes); if (want_sample ()) show ("%s %s: %s", tg::kind_name (kind), f.ok ? "decoded" : "refused", what.c_str ());
}
int main (int argc, char ** argv)
{
  static const Mode modes[] = { { "json", m<tg::JSON>, true }, { "xml", m<tg::XML>, true }, { "yaml", m<tg::YAML>, true }, { "b64", m<tg::B64>, true }, { "str", m<tg::STR>, true }, { "env", m<tg::ENV>, true }, { "near", m_near, true }, { "far", m_far, true } };
  un::set_env (); un::quiet (); return run (argc, argv, modes, 8);
}
