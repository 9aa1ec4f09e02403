// P32: XY-cuts, all sets of boxes on a grid x thresholds x answers of the choice function.
#include <cmath>
#include <map>
#include "Types.h"
#include "mc.h"
#include "utils/XYCut.h"
using namespace ppp::types;
using ppp::utils::xCut;
using ppp::utils::yCut;
using ppp::utils::xyCut;
using Group = std::vector<PdfElement*>;

struct Cand { int pos; double gap, at; std::vector<double> over; };
// Reference: candidates of a cut along an axis. `s`/`e` are start and end of the (sorted) elements.
static std::vector<Cand> candidates(const std::vector<std::pair<double, double>>& iv, double minGap, int maxOver) {
  std::vector<Cand> res;
  for (size_t i = 1; i < iv.size(); i++) {
    std::vector<double> ends;
    for (size_t j = 0; j < i; j++) { ends.push_back(iv[j].second); }
    std::sort(ends.rbegin(), ends.rend());
    for (int k = 0; k <= maxOver && k < static_cast<int>(ends.size()); k++) {
      double gap = iv[i].first - ends[k];
      if (gap >= minGap - 1e-6) {
        res.push_back({ static_cast<int>(i), gap, ends[k] + gap / 2,
            std::vector<double>(ends.begin(), ends.begin() + k) });
        break;
      }
    }
  }
  return res;
}

using Intervals = std::vector<std::pair<double, double>>;
static void checkCut(mc::Report& r, bool X, const Intervals& in0, double minGap, int maxOver, const std::function<bool(size_t)>& sel, const std::string& name) {
  int n = in0.size();
  std::stringstream d;
  d << (X ? "xCut" : "yCut") << " intervals";
  for (int i = 0; i < n && i < 20; i++) { d << " [" << in0[i].first << "," << in0[i].second << "]"; }
  d << " minGap " << minGap << " maxOverlapping " << maxOver << " chosen " << name;
  r.desc(d.str());
  std::vector<PdfWord> ws;
  ws.reserve(n);
  Group in;
  for (int i = 0; i < n; i++) {
    auto v = in0[i];
    double u0 = 100 + 7 * ((i * 3) % 4), u1 = u0 + 6;
    if (X) { ws.emplace_back(1, v.first, u0, v.second, u1, 0, 0); } else { ws.emplace_back(1, u0, v.first, u1, v.second, 0, 0); }
    in.push_back(&ws.back());
  }
  auto iv = in0;
  // (elements with the same start may be ordered either way; longer ends do not matter for maxOver 0)
  std::stable_sort(iv.begin(), iv.end(), [](auto& a, auto& b) { return a.first < b.first; });
  bool tie = false;
  for (int i = 0; i + 1 < n; i++) { tie = tie || (iv[i].first == iv[i + 1].first && iv[i].second != iv[i + 1].second); }
  std::vector<Cand> ref = candidates(iv, minGap, maxOver);
  bool compareAll = !tie || maxOver == 0;
  std::vector<Group> groups;
  std::vector<Cut*> cuts;
  int calls = 0;
  size_t offered = 0;
  Group given;
  auto choose = [&](const std::vector<Cut*>& cs, const Group& es, bool) {
    calls++;
    offered = cs.size();
    given = es;
    for (size_t i = 0; i < cs.size(); i++) { if (sel(i)) { cs[i]->isChosen = true; } }
  };
  bool ok = X ? xCut(in, minGap, maxOver, choose, true, &groups, &cuts)
              : yCut(in, minGap, choose, true, &groups, &cuts);
  r.step();
  r.eq(calls, 1, "choose-called", "number of calls of the choice function");
  auto start = [&](const PdfElement* e) { return X ? e->pos->leftX : e->pos->upperY; };
  auto end = [&](const PdfElement* e) { return X ? e->pos->rightX : e->pos->lowerY; };
  // The groups partition the elements and are sorted in cut direction.
  Group flat;
  for (auto& g : groups) { r.check(!g.empty(), "emptygroup", "an empty group"); flat.insert(flat.end(), g.begin(), g.end()); }
  Group s1 = flat, s2 = in;
  std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
  r.check(s1 == s2, "partition", "the groups are no partition of the elements");
  for (size_t i = 0; i + 1 < flat.size(); i++) {
    r.check(start(flat[i]) <= start(flat[i + 1]), "sorted", "the elements are not in cut order");
  }
  Group s3 = given;
  std::sort(s3.begin(), s3.end());
  r.check(s3 == s2, "given", "the choice function is not given all elements");
  r.eq(cuts.size(), offered, "resultcuts", "number of reported cuts");
  size_t chosen = 0;
  std::string st;
  for (size_t i = 0; i < cuts.size(); i++) {
    Cut* x = cuts[i];
    bool picked = sel(i);
    chosen += picked;
    double a = X ? x->x1 : x->y1, b = X ? x->x2 : x->y2, gap = X ? x->gapWidth : x->gapHeight;
    r.eq(x->isChosen, picked, "ischosen", "isChosen");
    r.check(a == b, "straight", "the cut is not straight");
    r.check((x->dir == CutDir::X) == X, "dir", "direction of the cut");
    r.check(gap >= minGap - 1e-6, "gap", "the gap is too small");
    r.check(std::fabs(start(x->elementAfter) - end(x->elementBefore) - gap) < 1e-6, "gap2", "the gap is not that between the elements");
    r.check(std::fabs(a - (start(x->elementAfter) + end(x->elementBefore)) / 2) < 1e-6, "mid", "the cut is not in the middle of the gap");
    r.check(static_cast<int>(x->overlappingElements.size()) <= maxOver, "overlapping", "too many overlapping elements");
    // No element but the overlapping ones crosses the gap.
    int crossing = 0;
    for (auto* e : in) {
      bool before = end(e) <= end(x->elementBefore) + 1e-6, after = start(e) >= start(x->elementAfter) - 1e-6;
      if (!before && !after) {
        crossing++;
        bool listed = false;
        for (auto* o : x->overlappingElements) { listed = listed || o == e; }
        r.check(listed, "crossing", "an element crosses the cut but is not listed as overlapping");
      }
    }
    r.check(crossing <= maxOver, "crossings", "too many elements cross the cut");
    st += std::to_string(static_cast<int>(a * 4)) + (picked ? "!" : "?");
  }
  if (compareAll) {
    r.eq(cuts.size(), ref.size(), "candidates", "number of cut candidates");
    for (size_t i = 0; i < cuts.size() && i < ref.size(); i++) {
      double a = X ? cuts[i]->x1 : cuts[i]->y1;
      r.check(std::fabs(a - ref[i].at) < 1e-6, "at", [&] { return "position of cut " + std::to_string(i) + " is " +
          std::to_string(a) + " instead of " + std::to_string(ref[i].at); });
      r.eq(static_cast<int>(cuts[i]->posInElements), ref[i].pos, "pos", "index of the cut");
      r.eq(cuts[i]->overlappingElements.size(), ref[i].over.size(), "nover", "number of overlapping elements");
      std::vector<double> o;
      for (auto* e : cuts[i]->overlappingElements) { o.push_back(end(e)); }
      std::sort(o.rbegin(), o.rend());
      r.check(o == ref[i].over, "over", "overlapping elements");
    }
  }
  r.eq(ok, chosen > 0, "result", "return value");
  r.eq(groups.size(), chosen + 1, "numgroups", "number of groups");
  // Every group ends at the chosen cut.
  size_t g = 0;
  for (size_t i = 0; i < cuts.size(); i++) {
    if (!sel(i) || g + 1 >= groups.size()) { continue; }
    double a = X ? cuts[i]->x1 : cuts[i]->y1;
    for (auto* e : groups[g]) { r.check(start(e) < a || maxOver > 0, "side", "an element is on the wrong side of its cut"); }
    for (auto* e : groups[g + 1]) {
      bool o = false;
      for (auto* q : cuts[i]->overlappingElements) { o = o || q == e; }
      r.check(start(e) > a || o || maxOver > 0, "side2", "an element is on the wrong side of its cut");
    }
    r.check(groups[g + 1].front() == cuts[i]->elementAfter || maxOver > 0 || tie, "after", "the group does not start after the cut");
    g++;
  }
  r.state(st + "/" + std::to_string(groups.size()));
  for (auto* x : cuts) { delete x; }
}

static void oneCut(mc::Chooser& c, mc::Report& r, bool X) {
  static std::vector<std::pair<double, double>> I;
  if (I.empty()) {
    int G = mc::tier(5, 6);
    for (int a = 0; a < G; a++) { for (int b = a + 1; b < G; b++) { I.push_back({ 10 + 5.0 * a, 10 + 5.0 * b - 1 }); } }
  }
  int n = c.range(1, mc::tier(4, 5));
  std::vector<int> k;
  for (int i = 0; i < n; i++) { k.push_back(c.choose(I.size())); }
  double minGap = std::vector<double>{ 0.9, 5.9, 2.5 }[c.choose(mc::tier(2, 3))];
  int maxOver = X ? c.choose(3) : 0;
  int mask = c.choose(1 << (n - 1));
  double shift = c.choose(2) ? -23.5 : 0;   // the grid around 0
  if (!c.owns()) { return; }
  Intervals in0;
  for (int i : k) { in0.push_back({ I[i].first + shift, I[i].second + shift }); }
  checkCut(r, X, in0, minGap, maxOver, [&](size_t i) { return mask >> i & 1; }, "mask " + std::to_string(mask));
}
static void manyElements(mc::Chooser& c, mc::Report& r, bool X) {
  // `n` intervals with gaps of two sizes, and long ones that cross some of the gaps.
  int n = c.of(std::vector<int>{ 5, 8, 16, 17, 33, 64, 65, 100, 129, 257, 500 }), pattern = c.choose(4), crossing = X ? c.range(0, 5) : c.choose(2), maxOver = X ? c.range(0, 4) : 0;
  int pick = c.choose(5), order = c.choose(3);
  double minGap = c.of(std::vector<double>{ 0.9, 3.5 }), shift = c.of(std::vector<double>{ 0, -700.5 });
  if (!c.owns()) { return; }
  Intervals in;
  double at = 10;
  for (int i = 0; i < n; i++) {
    double w = pattern == 1 ? 3 + i % 5 : 6, gap = pattern == 2 ? (i % 3 ? -1 : 4) : pattern == 3 ? (i % 2 ? 2 : 0.5) : 2 + i % 2 * 2;
    in.push_back({ at + shift, at + w + shift });
    at += w + gap;
  }
  int m = n / 2;
  for (int k = 0; k < crossing; k++) { in.push_back({ in[m].first - 0.125 * (k + 1), in[std::min(n - 1, m + 2 + k)].second + 0.25 * k }); }
  if (order == 1) { std::reverse(in.begin(), in.end()); }
  if (order == 2) { Intervals q; for (size_t i = 0; i < in.size(); i++) { if (i % 2) { q.push_back(in[i]); } else { q.insert(q.begin(), in[i]); } } in = q; }
  auto sel = [&](size_t i) { return pick == 0 || (pick == 2 && i % 2) || (pick == 3 && i % 7 == 0) || (pick == 4 && i > 100); };
  checkCut(r, X, in, minGap, maxOver, sel, "choice " + std::to_string(pick));
}
// Recursive cutting against a reference recursion, with all cuts of at least a size accepted.
struct Rect { double x0, y0, x1, y1; int id; };
using RG = std::vector<std::vector<Rect>>;
static bool refCut(std::vector<Rect> v, bool X, double minGap, double accept, RG* out) {
  std::stable_sort(v.begin(), v.end(), [&](auto& a, auto& b) { return X ? a.x0 < b.x0 : a.y0 < b.y0; });
  std::vector<Rect> g;
  double mx = -1e9;
  bool any = false;
  for (auto& b : v) {
    double s = X ? b.x0 : b.y0, e = X ? b.x1 : b.y1;
    if (!g.empty() && s - mx >= minGap - 1e-6 && s - mx >= accept) { out->push_back(g); g.clear(); any = true; }
    g.push_back(b);
    mx = std::max(mx, e);
  }
  out->push_back(g);
  return any;
}
static void refXY(const std::vector<Rect>& v, double mx, double my, double acc, RG* out) {
  RG xs;
  if (!refCut(v, true, mx, acc, &xs)) {
    RG ys;
    if (!refCut(v, false, my, acc, &ys)) { out->push_back(v); return; }
    for (auto& y : ys) { refXY(y, mx, my, acc, out); }
    return;
  }
  for (auto& x : xs) {
    RG ys;
    if (!refCut(x, false, my, acc, &ys)) { out->push_back(x); continue; }
    for (auto& y : ys) { refXY(y, mx, my, acc, out); }
  }
}
static void checkRecursive(mc::Report& r, const std::vector<Rect>& v, int cfg) {
  int n = v.size();
  double mx = cfg == 1 ? 3.5 : 1.5, my = cfg == 2 ? 3.5 : 1.5, acc = cfg == 0 ? 0 : 3;
  std::stringstream d;
  d << "xyCut minGaps " << mx << "," << my << " boxes";
  for (size_t i = 0; i < v.size() && i < 20; i++) { auto& b = v[i]; d << " [" << b.x0 << "," << b.y0 << "," << b.x1 << "," << b.y1 << "]"; }
  r.desc(d.str());
  std::vector<PdfWord> ws;
  ws.reserve(n);
  Group in;
  std::map<PdfElement*, int> id;
  for (auto& b : v) { ws.emplace_back(1, b.x0, b.y0, b.x1, b.y1, 0, 0); in.push_back(&ws.back()); id[in.back()] = b.id; }
  auto choose = [&](bool X) {
    return [&, X](const std::vector<Cut*>& cs, const Group&, bool) {
      for (auto* x : cs) { x->isChosen = (X ? x->gapWidth : x->gapHeight) >= acc; }
    };
  };
  std::vector<Group> groups;
  std::vector<Cut*> cuts;
  xyCut(in, mx, my, 0, choose(true), choose(false), true, &groups, &cuts);
  RG ref;
  refXY(v, mx, my, acc, &ref);
  auto show = [](std::vector<std::vector<int>> g) {
    std::string s;
    for (auto& x : g) { std::sort(x.begin(), x.end()); s += "{"; for (int i : x) { s += std::to_string(i) + ","; } s += "}"; }
    return s;
  };
  std::vector<std::vector<int>> a, b;
  for (auto& g : groups) { a.emplace_back(); for (auto* e : g) { a.back().push_back(id[e]); } }
  for (auto& g : ref) { b.emplace_back(); for (auto& e : g) { b.back().push_back(e.id); } }
  r.eq(show(a), show(b), "groups", "groups of the recursive cut");
  r.state(show(a));
  r.step(cuts.size() + 1);
  for (auto* x : cuts) { delete x; }
}

static void recursive(mc::Chooser& c, mc::Report& r) {
  static std::vector<std::pair<double, double>> I;
  if (I.empty()) {
    for (int a = 0; a < 3; a++) { for (int b = a + 1; b < 4; b++) { I.push_back({ 10 + 10.0 * a, 10 + 10.0 * b - (a == 1 ? 2 : 4) }); } }
  }
  int n = c.range(1, mc::tier(3, 4));
  std::vector<Rect> v;
  for (int i = 0; i < n; i++) {
    auto x = c.of(I), y = c.of(I);
    v.push_back({ x.first, y.first, x.second, y.second, i });
  }
  int cfg = c.choose(3);
  if (!c.owns()) { return; }
  checkRecursive(r, v, cfg);
}
// Grids of boxes, nested grids, staircases.
static void manyBoxes(mc::Chooser& c, mc::Report& r) {
  int rows = c.of(std::vector<int>{ 1, 2, 3, 8, 17, 40 }), cols = c.of(std::vector<int>{ 1, 2, 3, 7, 20 }), kind = c.choose(5), order = c.choose(2), cfg = c.choose(3);
  if (!c.owns()) { return; }
  std::vector<Rect> v;
  auto add = [&](double a, double b, double x, double y) { v.push_back({ a, b, x, y, static_cast<int>(v.size()) }); };
  for (int i = 0; i < rows * cols; i++) {
    double x = 14.0 * (i % cols), y = 14.0 * (i / cols);
    if (kind == 1) { y += 5 * (i % cols); }                     // columns at different heights
    if (kind == 2) { x += 5 * (i / cols); }                     // rows that start at different positions
    if (kind == 4) { x *= 1 + (i % cols) % 3 * 0.1; }
    add(x, y, x + (kind == 4 ? 11.5 : 10) + (kind == 3 && i % 4 == 1 ? 18 : 0), y + 10 + (kind == 3 && i % 5 == 2 ? 18 : 0));
  }
  if (order) { std::reverse(v.begin(), v.end()); }
  checkRecursive(r, v, cfg);
}
static mc::Register D({ "P32", "many_x", "a case is a row of up to 500 boxes with up to 5 crossing ones", [](mc::Chooser& c, mc::Report& r) { manyElements(c, r, true); }, nullptr, 1000 });
static mc::Register E({ "P32", "many_y", "a case is a column of up to 500 boxes with up to one crossing one", [](mc::Chooser& c, mc::Report& r) { manyElements(c, r, false); }, nullptr, 1000 });
static mc::Register F({ "P32", "grids", "a case is a grid of up to 800 boxes, regular or with shifted, spanning or uneven rows and columns", manyBoxes, nullptr, 1000 });
static mc::Register A({ "P32", "xcut", "all sequences of up to 4 (thorough: 5) x-extents on a grid of 5 (6) points, gap "
  "thresholds, allowed overlaps 0..2, and all subsets of chosen candidates",
  [](mc::Chooser& c, mc::Report& r) { oneCut(c, r, true); }, nullptr, 100000 });
static mc::Register B({ "P32", "ycut", "all sequences of up to 4 (thorough: 5) y-extents on a grid of 5 (6) points, gap "
  "thresholds, and all subsets of chosen candidates",
  [](mc::Chooser& c, mc::Report& r) { oneCut(c, r, false); }, nullptr, 100000 });
static mc::Register C({ "P32", "recursive", "all arrangements of up to 3 (thorough: 4) boxes on a 3x3 grid, "
  "three threshold settings", recursive, nullptr, 100000 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
