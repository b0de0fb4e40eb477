// Linearizability of small concurrent histories: depth-first search over orders allowed by real time, with memoised (done set, state).
#pragma once
#include "vh.hpp"
#include <unordered_set>
namespace lin {
struct Op { uint64_t inv = 0, res = ~0ull; int kind = 0; int64_t arg = 0, ret = 0; int thread = 0; bool pending = false; };
// apply(state, op) returns true when the op's result is legal in `state` and updates state. State: copyable with hash().
template <class S> struct Checker {
  const std::vector<Op> & h; bool (*apply) (S &, const Op &); std::unordered_set<uint64_t> seen; uint64_t visited = 0;
  Checker (const std::vector<Op> & ops, bool (*a) (S &, const Op &)) : h (ops), apply (a) {}
  bool go (uint64_t done, const S & s, size_t left)
  {
    if (!left) return true;
    uint64_t key = vh::Rng::mix (vh::Rng::mix (done) * 3 + vh::Rng::mix (s.hash ()));
    if (!seen.insert (key).second) return false;
    if (++visited > 2000000) { vh::count ("searches_cut_short"); return true; }
    uint64_t minres = ~0ull;
    for (size_t k = 0; k < h.size (); k++) if (!(done >> k & 1) && !h[k].pending && h[k].res < minres) minres = h[k].res;
    for (size_t k = 0; k < h.size (); k++)
    {
      if (done >> k & 1 || h[k].inv > minres) continue;
      S n = s;
      if (!apply (n, h[k])) continue;
      if (go (done | 1ull << k, n, left - (h[k].pending ? 0 : 1))) return true;
    }
    return false;
  }
  bool check (const S & s) { size_t left = 0; for (auto & o : h) if (!o.pending) left++; return go (0, s, left); }
};
}
