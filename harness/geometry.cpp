// P27: geometry, comparison and arithmetic primitives, all pairs/triples of boxes on a grid.
#include <cmath>
#include "Types.h"
#include "mc.h"
#include "utils/Comparators.h"
#include "utils/MathUtils.h"
#include "utils/PdfElementsUtils.h"
using namespace ppp::types;
using namespace ppp::utils::elements;
namespace m = ppp::utils::math;
namespace cmp = ppp::utils::comparators;

struct Box { double x0, y0, x1, y1; int rot; };
static std::string str(const Box& b) {
  std::stringstream s;
  s << "[" << b.x0 << "," << b.y0 << "," << b.x1 << "," << b.y1 << " rot " << b.rot << "]";
  return s.str();
}
static bool near(double a, double b) { return std::fabs(a - b) < 1e-9; }

// One axis interval out of a grid; includes empty ones (points).
static const std::vector<std::pair<double, double>>& intervals() {
  static std::vector<std::pair<double, double>> v;
  if (v.empty()) {
    std::vector<double> g = { -31.5, -8, -2, 0, 10, 13, 13.5, 20, 32.25 };
    for (size_t i = 0; i < g.size(); i++) { for (size_t j = i; j < g.size(); j++) { v.push_back({ g[i], g[j] }); } }
  }
  return v;
}

static void pairs(mc::Chooser& c, mc::Report& r) {
  auto& I = intervals();
  auto a = c.of(I), b = c.of(I);
  int flip = c.choose(4), rot = c.choose(4);
  if (!c.owns()) { return; }
  // 1-dimensional reference.
  double la = a.second - a.first, lb = b.second - b.first;
  double ov = std::max(0.0, std::min(a.second, b.second) - std::max(a.first, b.first));
  double ra = la > 0 ? ov / la : 0, rb = lb > 0 ? ov / lb : 0;
  std::stringstream d;
  d << "intervals [" << a.first << "," << a.second << "] [" << b.first << "," << b.second << "] flip "
    << flip << " rot " << rot;
  r.desc(d.str());
  auto p = computeOverlapRatios(flip & 1 ? a.second : a.first, flip & 1 ? a.first : a.second,
      flip & 2 ? b.second : b.first, flip & 2 ? b.first : b.second);
  r.check(near(p.first, ra) && near(p.second, rb), "ratios", "overlap ratios of intervals");
  r.check(p.first >= 0 && p.first <= 1 && p.second >= 0 && p.second <= 1, "range", "ratio out of [0,1]");
  r.state(std::to_string(ra) + "/" + std::to_string(rb));
  // The intervals as x extents (y fixed) and as y extents (x fixed).
  PdfWord x1(1, a.first, 5, a.second, 9, rot, 0), x2(1, b.first, 100, b.second, 120, rot, 0);
  PdfWord y1(1, 5, a.first, 9, a.second, rot, 0), y2(1, 100, b.first, 120, b.second, rot, 0);
  auto px = computeXOverlapRatios(&x1, &x2), py = computeYOverlapRatios(&y1, &y2);
  r.check(near(px.first, ra) && near(px.second, rb), "xratios", "horizontal overlap ratios");
  r.check(near(py.first, ra) && near(py.second, rb), "yratios", "vertical overlap ratios");
  auto pz = computeXOverlapRatios(&y1, &y2), pw = computeYOverlapRatios(&x1, &x2);
  r.check(pz.first == 0 && pz.second == 0 && pw.first == 0 && pw.second == 0, "otheraxis",
      "overlap in the axis in which the boxes are disjoint");
  double mx = std::max(ra, rb);
  r.check(near(computeMaxXOverlapRatio(&x1, &x2), mx), "maxx", "max horizontal overlap ratio");
  r.check(near(computeMaxXOverlapRatio(&x2, &x1), mx), "maxxsym", "max horizontal overlap ratio, swapped");
  r.check(near(computeMaxYOverlapRatio(&y1, &y2), mx), "maxy", "max vertical overlap ratio");
  r.check(near(computeMaxYOverlapRatio(&y2, &y1), mx), "maxysym", "max vertical overlap ratio, swapped");
  // Gaps.
  if (a.first != b.first) {
    double gap = a.first < b.first ? b.first - a.second : a.first - b.second;
    r.check(near(computeHorizontalGap(&x1, &x2), gap), "hgap", "horizontal gap");
    r.check(near(computeHorizontalGap(&x2, &x1), gap), "hgapsym", "horizontal gap, swapped");
    r.check(near(computeVerticalGap(&y1, &y2), gap), "vgap", "vertical gap");
    r.check(near(computeVerticalGap(&y2, &y1), gap), "vgapsym", "vertical gap, swapped");
  } else {
    double g1 = b.first - a.second, g2 = a.first - b.second;
    for (double g : { computeHorizontalGap(&x1, &x2), computeVerticalGap(&y1, &y2) }) {
      r.check(near(g, g1) || near(g, g2), "gaptie", "gap of elements with the same start");
    }
  }
  // Tolerant equality and offsets.
  for (double tol : { 0.0, 0.4, 3.2, 7.0, 50.0 }) {
    bool e0 = std::fabs(a.first - b.first) <= tol, e1 = std::fabs(a.second - b.second) <= tol;
    r.check(computeHasEqualLeftX(&x1, &x2, tol) == e0, "equalLeftX", "equal leftX");
    r.check(computeHasEqualRightX(&x1, &x2, tol) == e1, "equalRightX", "equal rightX");
    r.check(computeHasEqualUpperY(&y1, &y2, tol) == e0, "equalUpperY", "equal upperY");
    r.check(computeHasEqualLowerY(&y1, &y2, tol) == e1, "equalLowerY", "equal lowerY");
    PdfWord f1, f2;
    f1.fontSize = a.first; f2.fontSize = b.first;
    f1.fontName = a.second == b.second ? "F" : "G"; f2.fontName = "F";
    r.check(computeHasEqualFontSize(&f1, &f2, tol) == e0, "equalFontSize", "equal font size");
    r.check(computeHasEqualFont(&f1, &f2) == (a.second == b.second), "equalFont", "equal font");
  }
  r.check(near(computeLeftXOffset(&x1, &x2), a.first - b.first), "leftXOffset", "leftX offset");
  r.check(near(computeRightXOffset(&x1, &x2), a.second - b.second), "rightXOffset", "rightX offset");
}

// The rotated view of a box: turning the page so that the text is upright.
static void rotated(mc::Chooser& c, mc::Report& r) {
  auto& I = intervals();
  auto a = c.of(I), b = c.of(I);
  int rot = c.choose(4);
  if (!c.owns()) { return; }
  PdfPosition p;
  p.leftX = a.first; p.rightX = a.second; p.upperY = b.first; p.lowerY = b.second; p.rotation = rot;
  Box x{ a.first, b.first, a.second, b.second, rot };
  r.desc(str(x));
  // Where the reading start, reading end, ascender side and descender side of the text are.
  double start = rot == 0 ? x.x0 : rot == 1 ? x.y0 : rot == 2 ? x.x1 : x.y1;
  double end = rot == 0 ? x.x1 : rot == 1 ? x.y1 : rot == 2 ? x.x0 : x.y0;
  double top = rot == 0 ? x.y0 : rot == 1 ? x.x1 : rot == 2 ? x.y1 : x.x0;
  double bottom = rot == 0 ? x.y1 : rot == 1 ? x.x0 : rot == 2 ? x.y0 : x.x1;
  r.eq(p.getRotLeftX(), start, "rotLeftX", "getRotLeftX");
  r.eq(p.getRotRightX(), end, "rotRightX", "getRotRightX");
  r.eq(p.getRotUpperY(), top, "rotUpperY", "getRotUpperY");
  r.eq(p.getRotLowerY(), bottom, "rotLowerY", "getRotLowerY");
  r.check(near(p.getWidth(), x.x1 - x.x0), "width", "getWidth");
  r.check(near(p.getHeight(), x.y1 - x.y0), "height", "getHeight");
  r.check(near(p.getRotWidth(), std::fabs(end - start)), "rotWidth", "getRotWidth");
  r.check(near(p.getRotHeight(), std::fabs(bottom - top)), "rotHeight", "getRotHeight");
  r.state(str(x));
}

template <typename C>
static void order(mc::Report& r, const std::string& name, const std::vector<PdfWord*>& w,
    const std::function<double(const PdfWord*)>& key, bool asc) {
  C less;
  for (size_t i = 0; i < w.size(); i++) {
    for (size_t j = 0; j < w.size(); j++) {
      double a = key(w[i]), b = key(w[j]);
      r.check(less(w[i], w[j]) == (asc ? a < b : a > b), "order-" + name, name + " orders wrongly");
    }
  }
  std::vector<PdfElement*> s(w.begin(), w.end());
  std::sort(s.begin(), s.end(), less);
  for (size_t i = 0; i + 1 < s.size(); i++) {
    double a = key(static_cast<PdfWord*>(s[i])), b = key(static_cast<PdfWord*>(s[i + 1]));
    r.check(asc ? a <= b : a >= b, "sort-" + name, name + " sorts wrongly");
  }
}

static void orders(mc::Chooser& c, mc::Report& r) {
  auto& I = intervals();
  std::vector<PdfWord> ws;
  ws.reserve(3);
  std::string d;
  int rot = c.choose(4);
  for (int i = 0; i < 3; i++) {
    // The y extent differs from the x extent, so that mixed-up axes are seen.
    int k = c.choose(I.size());
    int l = i == 2 ? (k + 1) % static_cast<int>(I.size()) : (k * 5 + 3) % static_cast<int>(I.size());
    ws.emplace_back(1, I[k].first, I[l].first, I[k].second, I[l].second, rot, 0);
    d += str({ I[k].first, I[l].first, I[k].second, I[l].second, rot });
  }
  if (!c.owns()) { return; }
  r.desc(d);
  std::vector<PdfWord*> w = { &ws[0], &ws[1], &ws[2] };
  order<cmp::LeftXAscComparator>(r, "LeftXAsc", w, [](const PdfWord* e) { return e->pos->leftX; }, true);
  order<cmp::RightXDescComparator>(r, "RightXDesc", w, [](const PdfWord* e) { return e->pos->rightX; }, false);
  order<cmp::UpperYAscComparator>(r, "UpperYAsc", w, [](const PdfWord* e) { return e->pos->upperY; }, true);
  auto start = [](const PdfWord* e) {
    auto* p = e->pos;
    return p->rotation == 0 ? p->leftX : p->rotation == 1 ? p->upperY : p->rotation == 2 ? p->rightX : p->lowerY; };
  auto bottom = [](const PdfWord* e) {
    auto* p = e->pos;
    return p->rotation == 0 ? p->lowerY : p->rotation == 1 ? p->leftX : p->rotation == 2 ? p->upperY : p->rightX; };
  order<cmp::RotLeftXAscComparator>(r, "RotLeftXAsc", w, start, true);
  order<cmp::RotLeftXDescComparator>(r, "RotLeftXDesc", w, start, false);
  order<cmp::RotLowerYAscComparator>(r, "RotLowerYAsc", w, bottom, true);
  order<cmp::RotLowerYDescComparator>(r, "RotLowerYDesc", w, bottom, false);
  r.state(d);
}

// Arithmetic: values around each other at distances below, near and above the tolerance.
static void arithmetic(mc::Chooser& c, mc::Report& r) {
  static const std::vector<double> base = { 0, 1, -1, 12.34, -250.75, 1e6 };
  static const std::vector<double> deltas = { 0, 0.5, -0.5, 0.04, -0.04, 0.06, -0.06, 3, -3, 0.00001, -0.00001 };
  static const std::vector<double> tols = { 0.05, 1, 0.0001 };
  double a = c.of(base), b = a + c.of(deltas), x = a + c.of(deltas), tol = c.of(tols);
  double e = b + c.choose(3) * 2.0;
  if (!c.owns()) { return; }
  std::stringstream d;
  d.precision(12);
  d << "values " << a << " " << b << " " << x << " " << e << " tolerance " << tol;
  r.desc(d.str());
  bool L = m::larger(a, b, tol), S = m::smaller(a, b, tol), E = m::equal(a, b, tol);
  r.check(L == (a - b > tol), "larger", "larger");
  r.check(S == (b - a > tol), "smaller", "smaller");
  r.check(E == (std::fabs(a - b) <= tol), "equal", "equal");
  r.check(L + S + E == 1, "trichotomy", "exactly one of larger/smaller/equal holds");
  r.check(m::equalOrLarger(a, b, tol) == !(b - a > tol), "equalOrLarger", "equalOrLarger");
  r.check(m::equalOrSmaller(a, b, tol) == !(a - b > tol), "equalOrSmaller", "equalOrSmaller");
  double lo = std::min(b, e), hi = std::max(b, e);
  r.check(m::between(x, lo, hi, tol) == (x - lo >= -tol && hi - x >= -tol), "between", "between");
  r.eq(m::minimum(a, b), std::min(a, b), "min2");
  r.eq(m::maximum(a, b), std::max(a, b), "max2");
  r.eq(m::minimum(a, b, x), std::min({ a, b, x }), "min3");
  r.eq(m::maximum(a, b, x), std::max({ a, b, x }), "max3");
  for (int i = 0; i < 4; i++) {
    double v[4] = { a, b, x, e };
    std::rotate(v, v + i, v + 4);
    r.eq(m::minimum(v[0], v[1], v[2], v[3]), std::min({ a, b, x, e }), "min4");
    r.eq(m::maximum(v[0], v[1], v[2], v[3]), std::max({ a, b, x, e }), "max4");
  }
  r.state(std::to_string(L) + std::to_string(S) + d.str());
}

static void rounding(mc::Chooser& c, mc::Report& r) {
  int k = c.range(-2030, 2030);   // value k/1000 + offset
  int off = c.choose(3), dec = c.choose(4);
  if (!c.owns()) { return; }
  double v = k / 1000.0 + (off == 1 ? 123.0 : off == 2 ? -4000.0 : 0.0);
  r.desc("round(" + std::to_string(v) + ", " + std::to_string(dec) + ")");
  double got = m::round(v, dec);
  double unit = std::pow(10.0, -dec);
  // At most half a unit away, and a multiple of the unit.
  r.check(std::fabs(got - v) <= unit / 2 + 1e-9, "round", [&] { return "rounded to " + std::to_string(got); });
  r.check(std::fabs(got / unit - std::round(got / unit)) < 1e-6, "roundunit", [&] { return "rounded to " + std::to_string(got); });
  long frac = std::labs(std::lround(v * 1000)) % std::lround(1000 * unit);
  if (2 * frac == std::lround(1000 * unit) && dec == 0) {
    r.check(std::fabs(got) > std::fabs(v), "half", [&] { return "half rounds towards zero: " + std::to_string(got); });
  }
  r.eq(m::round(got, dec), got, "idempotent", "rounding twice");
  r.state(std::to_string(got));
}

static mc::Register A({ "P27", "intervals", "all pairs of intervals on a grid (points, touching, nested, "
  "disjoint, negative), all endpoint orders and rotations", pairs, nullptr, 1000000 });
static mc::Register B({ "P27", "rotated-view", "all boxes on the grid x 4 rotations", rotated, nullptr, 1000000 });
static mc::Register C({ "P27", "orders", "all triples of boxes x 4 rotations, all comparators", orders, nullptr, 1000000 });
static mc::Register D({ "P27", "arithmetic", "all combinations of base values, differences around the "
  "tolerance, and tolerances", arithmetic, nullptr, 1000000 });
static mc::Register E({ "P27", "rounding", "all thousandths in [-2.03, 2.03] at three offsets, 0 to 3 decimals",
  rounding, nullptr, 1000000 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
