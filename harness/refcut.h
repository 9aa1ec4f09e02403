// Reference for the recursive XY-cut, written from its documentation (utils/XYCut.h), independent of
// /repo's code: elements are plain boxes, and a choice function decides which candidates are used.
#ifndef VERIF_HARNESS_REFCUT_H_
#define VERIF_HARNESS_REFCUT_H_
#include "doc.h"

namespace refcut {
using syn::Box;
struct Item { Box b; int id = 0, rank = -1; int kind = 0; int aux = 0; };  // kind 0: text
using Items = std::vector<Item>;
struct Cand { size_t pos; double gap, lo, hi; int before, after; Items over; bool chosen = false; };
using Cands = std::vector<Cand>;
using Choose = std::function<void(Cands&, const Items&)>;

inline Items sorted(Items v, bool X) {
  std::stable_sort(v.begin(), v.end(), [&](const Item& a, const Item& b) { return X ? a.b.x0 < b.b.x0 : a.b.y0 < b.b.y0; });
  return v;
}
// v is sorted in cut direction. before/after are positions in v.
inline Cands candidates(const Items& v, bool X, double minGap, int maxOver) {
  Cands res;
  double lo = 1e300, hi = -1e300;
  for (auto& i : v) { lo = std::min(lo, X ? i.b.y0 : i.b.x0); hi = std::max(hi, X ? i.b.y1 : i.b.x1); }
  for (size_t p = 1; p < v.size(); p++) {
    std::vector<int> prev;
    for (size_t j = 0; j < p; j++) { prev.push_back(j); }
    auto end = [&](int j) { return X ? v[j].b.x1 : v[j].b.y1; };
    std::stable_sort(prev.begin(), prev.end(), [&](int a, int b) { return end(a) > end(b); });
    double start = X ? v[p].b.x0 : v[p].b.y0;
    for (size_t k = 0; k < prev.size() && static_cast<int>(k) <= maxOver; k++) {
      double gap = start - end(prev[k]);
      if (gap >= minGap - 1e-4) {
        Cand c{ p, gap, lo, hi, prev[k], static_cast<int>(p), {} };
        for (size_t m = 0; m < k; m++) { c.over.push_back(v[prev[m]]); }
        res.push_back(c);
        break;
      }
    }
  }
  return res;
}
inline bool cut(const Items& in, bool X, double minGap, int maxOver, const Choose& ch, std::vector<Items>* out) {
  if (in.empty()) { return false; }
  Items v = sorted(in, X);
  Cands cs = candidates(v, X, minGap, maxOver);
  ch(cs, v);
  size_t from = 0;
  bool any = false;
  for (auto& c : cs) {
    if (!c.chosen) { continue; }
    out->push_back(Items(v.begin() + from, v.begin() + c.pos));
    from = c.pos;
    any = true;
  }
  out->push_back(Items(v.begin() + from, v.end()));
  return any;
}
inline void xy(const Items& v, double minX, double minY, int maxOver, const Choose& cx, const Choose& cy, std::vector<Items>* out) {
  if (v.empty()) { return; }
  std::vector<Items> xs;
  if (!cut(v, true, minX, maxOver, cx, &xs)) {
    std::vector<Items> ys;
    if (!cut(v, false, minY, 0, cy, &ys)) { out->push_back(v); return; }
    for (auto& g : ys) { xy(g, minX, minY, maxOver, cx, cy, out); }
    return;
  }
  for (auto& x : xs) {
    std::vector<Items> ys;
    if (!cut(x, false, minY, 0, cy, &ys)) { out->push_back(x); continue; }
    for (auto& g : ys) { xy(g, minX, minY, maxOver, cx, cy, out); }
  }
}
}  // namespace refcut
#endif  // VERIF_HARNESS_REFCUT_H_
