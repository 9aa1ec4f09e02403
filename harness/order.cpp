// P10 reading order, P20 semantic roles.
#include <cmath>
#include <cppflow/cppflow.h>
#include <fstream>
#include "ReadingOrderDetection.h"
#include "SemanticRolesPrediction.h"
#include "doc.h"
#include "refbpe.h"
#include "refcut.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace syn;

static const double CW = 5, CH = 10;
using Vocab = std::unordered_map<std::wstring, int>;
static const Vocab& vocab() {
  static Vocab v = { { L"a", 0 }, { L"b", 1 }, { L"ab", 2 }, { L"c", 3 }, { L"b\u2702", 4 }, { L"\u00c4", 5 }, { L"\u0141a", 6 }, { L"abc", 7 }, { L".", 8 } };
  return v;
}
static Config& conf() {
  static Config c;
  static bool init = false;
  if (!init) {
    std::string d = mc::scratchDir() + "/model." + std::to_string(getpid());
    mkdir(d.c_str(), 0700);
    std::ofstream v(d + "/bpe-vocab.tsv"), r(d + "/roles-vocab.tsv");
    // (the last lines have no newline)
    v << "a\t0\nb\t1\nab\t2\nc\t3\nb\xE2\x9C\x82\t4\n\xC3\x84\t5\n\xC5\x81" "a\t6\nabc\t7\n.\t8";
    r << "x\t0\ny\t1";
    c.semanticRolesPrediction.modelsDir = d;
    init = true;
  }
  return c;
}
static void answer(const std::vector<int>& roles) {
  cppflow::env().answer = [roles](const std::vector<std::pair<std::string, cppflow::tensor>>& in) {
    int64_t n = in.empty() || in[0].second._shape.empty() ? 0 : in[0].second._shape[0];
    std::vector<float> v(n * 14, 0.01f);
    for (int64_t i = 0; i < n; i++) { v[i * 14 + roles[i % roles.size()]] = 0.9f; }
    return cppflow::tensor(v, std::vector<int64_t>{ n, 14 });
  };
}
static const int P = static_cast<int>(SemanticRole::PARAGRAPH), T = static_cast<int>(SemanticRole::TITLE), A = static_cast<int>(SemanticRole::AUTHOR_INFO),
    M = static_cast<int>(SemanticRole::MARGINAL), H = static_cast<int>(SemanticRole::HEADING);

static PdfTextBlock* block(Doc* doc, PdfPage* pg, const Box& b, int rot = 0, int wm = 0, double fs = 10, const std::string& fn = "f",
    const std::string& text = "abc") {
  auto* k = new PdfTextBlock();
  k->doc = doc->d.get(); k->id = "b" + std::to_string(++doc->nch); k->rank = pg->blocks.size();
  k->pos->pageNum = pg->pageNum; k->pos->leftX = b.x0; k->pos->upperY = b.y0; k->pos->rightX = b.x1; k->pos->lowerY = b.y1;
  k->pos->rotation = rot; k->pos->wMode = wm; k->fontSize = fs; k->fontName = fn; k->text = text;
  doc->font(fn);
  if (!pg->blocks.empty()) { pg->blocks.back()->nextBlock = k; k->prevBlock = pg->blocks.back(); }
  pg->blocks.push_back(k);
  return k;
}

// ------------------------------------------------------------------------------------------------
// P10
enum { TEXT, FIGURE, SHAPE };
struct El { Box b; int kind = TEXT, role = P, rot = 0, wm = 0; };

static std::vector<refcut::Items> refGroups(const std::vector<El>& es) {
  using namespace refcut;
  Items all;
  Box page;
  for (int k = TEXT; k <= SHAPE; k++) {
    for (size_t i = 0; i < es.size(); i++) { if (es[i].kind == k) { Item t; t.b = es[i].b; t.id = i; t.kind = k; all.push_back(t); page.add(t.b); } }
  }
  auto neighbour = [&](const Items& v, int k) -> const El& { return es[v[k].id]; };
  Choose primX = [&](Cands& cs, const Items& v) {
    double mid = (page.y0 + page.y1) / 2;
    for (auto& c : cs) {
      for (int k : { c.before, c.after }) {
        const El& e = neighbour(v, k);
        if (e.kind == TEXT) { c.chosen = c.chosen || e.rot || e.wm; }
        else { c.chosen = c.chosen || (e.b.y1 - e.b.y0 > 10 * CH && e.b.y0 < mid && e.b.y1 > mid); }
      }
    }
  };
  Choose primY = [&](Cands& cs, const Items& v) {
    double mid = (page.x0 + page.x1) / 2;
    for (auto& c : cs) {
      const El& a = neighbour(v, c.before);
      const El& b = neighbour(v, c.after);
      for (int role : { T, A, M }) { if ((a.kind == TEXT && a.role == role) != (b.kind == TEXT && b.role == role)) { c.chosen = true; } }
      for (const El* e : { &a, &b }) {
        if (e->kind != TEXT && e->b.x1 - e->b.x0 > 10 * CW && e->b.x0 < mid && e->b.x1 > mid) { c.chosen = true; }
      }
    }
  };
  Choose allX = [](Cands& cs, const Items&) { for (auto& c : cs) { c.chosen = true; } };
  auto splits = [](const Items& v, size_t from, size_t to) { return !candidates(sorted(Items(v.begin() + from, v.begin() + to), true), true, 0, 0).empty(); };
  Choose chooseY = [&](Cands& cs, const Items& v) {
    if (cs.empty()) { return; }
    int n = cs.size(), first = 0, last = n - 1;
    for (int i = 0; i < n; i++) { if (splits(v, cs[i].pos, v.size())) { cs[i].chosen = true; last = i; break; } }
    for (int i = last; i >= 0; i--) { if (splits(v, 0, cs[i].pos)) { cs[i].chosen = true; first = i; break; } }
    for (int i = first; i < last; i++) {
      for (int j = last; j > i; j--) { if (splits(v, cs[i].pos, cs[j].pos)) { cs[i].chosen = cs[j].chosen = true; i = j; break; } }
    }
  };
  std::vector<Items> xs, res;
  cut(all, true, 0, 0, primX, &xs);
  for (auto& x : xs) {
    std::vector<Items> ys;
    cut(x, false, 0, 0, primY, &ys);
    for (auto& y : ys) { xy(y, 0, 0, 0, allX, chooseY, &res); }
  }
  return res;
}

static void checkOrder(mc::Report& r, const std::vector<std::vector<El>>& pages) {
  Doc doc;
  doc.d->avgCharWidth = CW; doc.d->avgCharHeight = CH;
  std::vector<std::vector<PdfTextBlock*>> blocks;
  std::vector<int> roles;
  std::stringstream d;
  for (auto& es : pages) {
    PdfPage* pg = doc.page();
    blocks.push_back({});
    for (auto& e : es) {
      d << (e.kind == TEXT ? "text" : e.kind == FIGURE ? "figure" : "shape") << e.b;
      if (e.role != P) { d << " role" << e.role; }
      if (e.rot || e.wm) { d << " rot" << e.rot << " wm" << e.wm; }
      d << "; ";
      PdfTextBlock* k = nullptr;
      if (e.kind == TEXT) { k = block(&doc, pg, e.b, e.rot, e.wm); roles.push_back(e.role); }
      else if (e.kind == FIGURE) { pg->figures.push_back(new PdfFigure(pg->pageNum, e.b.x0, e.b.y0, e.b.x1, e.b.y1)); }
      else { auto* s = new PdfShape(); s->pos->pageNum = pg->pageNum; s->pos->leftX = e.b.x0; s->pos->upperY = e.b.y0; s->pos->rightX = e.b.x1; s->pos->lowerY = e.b.y1; pg->shapes.push_back(s); }
      blocks.back().push_back(k);
    }
    d << "| ";
  }
  r.desc(d.str());
  if (roles.empty()) { roles = { P }; }
  answer(roles);
  ppp::modules::ReadingOrderDetection(doc.d.get(), &conf().readingOrderDetection, &conf().semanticRolesPrediction).process();
  r.step();
  std::string st;
  for (size_t p = 0; p < pages.size(); p++) {
    PdfPage* pg = doc.d->pages[p];
    auto& mine = blocks[p];
    std::string got, exp;
    std::vector<int> order;
    for (auto* k : pg->blocks) { order.push_back(std::find(mine.begin(), mine.end(), k) - mine.begin()); got += std::to_string(order.back()) + ","; }
    // A permutation of the page's blocks.
    std::vector<int> s = order, all;
    std::sort(s.begin(), s.end());
    for (size_t i = 0; i < mine.size(); i++) { if (mine[i]) { all.push_back(i); } }
    if (!r.check(s == all, "permutation", [&] { return "blocks of page " + std::to_string(p + 1) + " after ordering: " + got; })) { continue; }
    // The order of the reference; blocks of a group with the same upper end may be in any order.
    auto gs = refGroups(pages[p]);
    size_t at = 0;
    bool ok = true;
    for (auto& g : gs) {
      std::vector<int> ids;
      for (auto& i : g) { if (i.kind == TEXT) { ids.push_back(i.id); } }
      std::stable_sort(ids.begin(), ids.end(), [&](int a, int b) { return pages[p][a].b.y0 < pages[p][b].b.y0; });
      for (int i : ids) { exp += std::to_string(i) + ","; }
      exp += "|";
      std::vector<int> part(order.begin() + at, order.begin() + at + ids.size());
      at += ids.size();
      for (size_t i = 0; i < part.size(); i++) { ok = ok && pages[p][part[i]].b.y0 == pages[p][ids[i]].b.y0; }
      std::sort(ids.begin(), ids.end());
      std::sort(part.begin(), part.end());
      ok = ok && ids == part;
    }
    r.check(ok, "order", [&] { return "order of the blocks of page " + std::to_string(p + 1) + ": expected " + exp + " got " + got; });
    st += exp + "/";
    for (size_t i = 0, k = 0; i < mine.size(); i++) {
      if (!mine[i]) { continue; }
      r.check(boxOf(mine[i]) == pages[p][i].b && mine[i]->text == "abc" && mine[i]->rank == static_cast<int>(k), "unchanged", "a block was changed by ordering");
      k++;
    }
  }
  r.state(st);
}
static const std::vector<std::pair<double, double>> XS = { { 50, 290 }, { 310, 550 }, { 50, 550 }, { 50, 150 }, { 200, 400 }, { 310, 400 }, { 450, 550 }, { 290, 310 } };
static const std::vector<std::pair<double, double>> YS = { { 100, 150 }, { 150, 300 }, { 310, 400 }, { 100, 400 }, { 410, 420 } };

static void layouts(mc::Chooser& c, mc::Report& r) {
  std::vector<El> es;
  int n = c.range(1, mc::tier(4, 5));
  for (int i = 0; i < n; i++) {
    El e;
    auto x = XS[c.choose(n <= 3 ? 8 : n == 4 ? 5 : 3)];
    auto y = YS[c.choose(n <= 3 ? 5 : n == 4 ? mc::tier(3, 4) : 4)];
    e.b = { x.first, y.first, x.second, y.second };
    es.push_back(e);
  }
  if (!c.owns()) { return; }
  checkOrder(r, { es });
}
// All sets of cells of two or three columns and a few rows, in both drawing orders, with wide headings.
static void columns(mc::Chooser& c, mc::Report& r) {
  std::vector<El> es;
  int rows = c.range(2, mc::tier(4, 5)), cols = c.range(2, rows <= 3 ? 3 : 2);
  double w = 500.0 / cols;
  bool byColumn = c.flag(), reversed = c.flag();
  std::vector<std::vector<int>> kind(rows, std::vector<int>(cols));
  for (int i = 0; i < rows; i++) {
    // a row is a heading over all columns, or a cell for each column
    bool wide = c.flag();
    for (int k = 0; k < cols; k++) { kind[i][k] = wide ? (k ? 0 : 3) : c.choose(3); }  // empty, full height, short
  }
  for (int a = 0; a < (byColumn ? cols : rows); a++) {
    for (int b = 0; b < (byColumn ? rows : cols); b++) {
      int i = byColumn ? b : a, k = byColumn ? a : b;
      if (!kind[i][k]) { continue; }
      El e;
      e.b = { 50 + k * w, 100 + 50.0 * i + (kind[i][k] == 2 ? 15 : 0), 50 + (kind[i][k] == 3 ? 500 : (k + 1) * w - 10), 140 + 50.0 * i + (kind[i][k] == 2 ? 20 : 0) };
      es.push_back(e);
    }
  }
  if (reversed) { std::reverse(es.begin(), es.end()); }
  if (!c.owns()) { return; }
  checkOrder(r, { es });
}
// Primary cuts: roles, rotated text and lines/figures that separate.
static void primary(mc::Chooser& c, mc::Report& r) {
  std::vector<El> es;
  int n = c.range(2, mc::tier(3, 4));
  for (int i = 0; i < n; i++) {
    El e;
    auto x = XS[c.choose(n == 2 ? 8 : n == 3 ? mc::tier(3, 4) : 3)];
    auto y = YS[c.choose(n <= 3 ? 4 : 2)];
    double j = 0.25 * i;  // no two elements begin or end at the same place
    e.b = { x.first + j, y.first + j, x.second + 2 * j - 4, y.second + 2 * j - 4 };
    int k = c.choose(n == 2 ? 11 : n == 3 ? mc::tier(5, 9) : 6);
    static const std::vector<El> K = { { {}, TEXT, P, 0, 0 }, { {}, TEXT, T, 0, 0 }, { {}, TEXT, M, 0, 0 }, { {}, SHAPE, P, 0, 0 }, { {}, TEXT, P, 1, 0 },
      { {}, TEXT, A, 0, 0 }, { {}, FIGURE, P, 0, 0 }, { {}, TEXT, P, 0, 1 }, { {}, SHAPE, P, 0, 0 }, { {}, TEXT, H, 0, 0 }, { {}, TEXT, P, 2, 0 } };
    El q = K[k];
    q.b = e.b;
    if (k == 8) { q.b = { 320.0 + j, 120.0 + j, 322.0 + j, 390.0 + j }; }  // a tall line
    es.push_back(q);
  }
  if (!c.owns()) { return; }
  checkOrder(r, { es });
}
// A separator of critical width or height between columns and rows.
static std::vector<El> separated(mc::Chooser& c, const std::vector<double>& lens, const std::vector<double>& froms) {
  std::vector<El> es;
  bool horizontal = c.flag(), figure = c.flag();
  double len = c.of(lens), from = c.of(froms);
  int cells = c.choose(16), first = c.choose(3);
  El s;
  s.kind = figure ? FIGURE : SHAPE;
  s.b = horizontal ? Box{ from, 200, from + len, 201 } : Box{ 299, from, 301, from + len };
  if (first == 1) { es.push_back(s); }
  for (int k = 0; k < 4; k++) {
    if (!(cells >> k & 1)) { continue; }
    double x = k & 1 ? 310 : 50, y = k & 2 ? 210 : 100;
    if (!horizontal) { y = k & 2 ? 350 : 100; }
    El e;
    e.b = { x, y + k, x + 240 - k, y + (horizontal ? 90 : 240) };
    es.push_back(e);
  }
  if (first == 0) { es.push_back(s); }
  if (first == 2) { es.push_back(s); El t = s; t.b.y0 += 600; t.b.y1 += 600; es.push_back(t); }
  return es;
}
static void separators(mc::Chooser& c, mc::Report& r) {
  auto es = separated(c, { 40, 48, 52, 98, 102, 150, 300 }, { 50, 195, 250, 298.5, 302, 350 });
  if (!c.owns()) { return; }
  checkOrder(r, { es });
}
// The extents of a page's elements do not influence those of other pages: a page with a separator
// before or after a page whose elements reach farther in some direction (and a page without elements).
static void extents(mc::Chooser& c, mc::Report& r) {
  auto es = separated(c, { 52, 102, 300 }, { 50, 250, 302 });
  std::vector<El> other;
  int k = c.choose(6);
  static const std::vector<Box> FAR = { { 900, 100, 990, 130 }, { -400, 100, -300, 130 }, { 50, 1000, 90, 1100 }, { 50, -600, 90, -500 }, { -400, -600, 990, 1100 } };
  if (k < 5) { El e; e.b = FAR[k]; other.push_back(e); if (c.flag()) { other.back().kind = FIGURE; } }
  bool before = c.flag();
  if (!c.owns()) { return; }
  if (before) { checkOrder(r, { other, es }); } else { checkOrder(r, { es, other, es }); }
}
static void pages(mc::Chooser& c, mc::Report& r) {
  std::vector<std::vector<El>> ps;
  int n = c.range(0, 3);
  for (int p = 0; p < n; p++) {
    ps.push_back({});
    int k = c.choose(n == 3 ? 3 : mc::tier(3, 4));
    for (int i = 0; i < k; i++) {
      El e;
      auto x = XS[c.choose(n == 3 ? mc::tier(2, 3) : 3)];
      double y = c.flag() ? 100 : 200;
      e.b = { x.first, y, x.second, y + 50 };
      if (p && c.flag()) { e.role = T; }
      ps.back().push_back(e);
    }
  }
  if (!c.owns()) { return; }
  checkOrder(r, ps);
}
// Many blocks, areas and pages.
static void largeOrder(mc::Chooser& c, mc::Report& r) {
  int n = c.of(std::vector<int>{ 5, 8, 9, 16, 17, 33, 65, 129, 200 }), kind = c.choose(6), cols = c.range(1, 4), order = c.choose(3);
  if (!c.owns()) { return; }
  if (kind != 2 && n * cols > 260) { return; }
  std::vector<std::vector<El>> ps(1);
  double y = 20;
  for (int i = 0; i < n; i++) {
    if (kind == 2 && i) { ps.emplace_back(); y = 20; }  // pages
    bool head = (kind == 1 && i % 5 == 0) || (kind == 5 && i == n / 2);  // areas under headings
    for (int k = 0; k < (head ? 1 : cols); k++) {
      El e;
      double x = 50 + 120.0 * k, h = kind == 3 ? 10 + (i * 7 + k * 3) % 9 : 12;  // (3: rows of blocks of different heights)
      e.b = { x, y + 0.01 * k, head ? x + 120.0 * cols - 10 : x + 110, y + h };
      if (kind == 4 && i % 10 == 9 && k == 0) { e.kind = SHAPE; e.b = { 40, y + 11, 60 + 120.0 * cols, y + 12 }; }
      if (kind == 5 && i == 0) { e.role = T; }
      ps.back().push_back(e);
    }
    y += kind == 3 ? 20 : 14;
  }
  for (auto& p : ps) {
    if (order == 1) { std::reverse(p.begin(), p.end()); }
    if (order == 2) { std::stable_sort(p.begin(), p.end(), [](auto& a, auto& b) { return a.b.x0 < b.b.x0; }); }
  }
  checkOrder(r, ps);
}
static mc::Register o7({ "P10", "large", "a case is a page or document of up to 260 blocks in columns, areas and pages", largeOrder, nullptr });
static mc::Register o1({ "P10", "layouts", "a case is a set of text blocks at positions of a grid, in some drawing order", layouts, nullptr });
static mc::Register o2({ "P10", "columns", "a case is a page of rows and columns with empty, full and short cells and wide headings", columns, nullptr });
static mc::Register o3({ "P10", "primary", "a case is a set of blocks, figures and lines with roles and rotations", primary, nullptr });
static mc::Register o4({ "P10", "separators", "a case is a page with a separating line or figure of critical length and position", separators, nullptr });
static mc::Register o6({ "P10", "extents", "a case is a page with a separating line or figure next to a page whose elements reach farther", extents, nullptr });
static mc::Register o5({ "P10", "pages", "a case is a document with several (or no) pages", pages, nullptr });

// ------------------------------------------------------------------------------------------------
// P20
struct B { Box b; std::string text = "abc"; double fs = 10; int weight = 400; bool italic = false; int page = 0; };
struct Pg { double x0 = 0, y0 = 0, w = 600, h = 800; };

static std::wstring wide(const std::string& s) {  // as UTF-16
  std::wstring w;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    unsigned v = n == 1 ? c : c & (0xFF >> (n + 1));
    for (int k = 1; k < n; k++) { v = v << 6 | (s[i + k] & 63); }
    i += n;
    if (v < 0x10000) { w += static_cast<wchar_t>(v); } else { v -= 0x10000; w += static_cast<wchar_t>(0xD800 + (v >> 10)); w += static_cast<wchar_t>(0xDC00 + (v & 1023)); }
  }
  return w;
}
static void checkRoles(mc::Report& r, const std::vector<Pg>& pgs, const std::vector<B>& bs, const std::vector<float>& ans, int dim, int repeat = 1,
    const std::function<void(ppp::modules::SemanticRolesPrediction&)>& before = nullptr) {
  Doc doc;
  std::stringstream d;
  for (auto& p : pgs) {
    PdfPage* q = doc.page();
    q->clipLeftX = p.x0; q->clipUpperY = p.y0; q->clipRightX = p.x0 + p.w; q->clipLowerY = p.y0 + p.h;
  }
  std::vector<PdfTextBlock*> ks;
  double fmin = 1e9, fmax = -1;
  for (size_t i = 0; i < bs.size(); i++) {
    auto& b = bs[i];
    std::string fn = "f" + std::to_string(b.weight) + (b.italic ? "i" : "");
    doc.font(fn, b.weight, b.italic);
    PdfPage* pg = doc.d->pages[b.page];
    auto* k = block(&doc, pg, b.b, 0, 0, b.fs, fn, b.text);
    ks.push_back(k);
    auto* l = new PdfTextLine();
    std::stringstream s(b.text);
    std::string x;
    PdfPageSegment* sg = pg->segments.empty() ? segment(&doc, pg, {}) : pg->segments[0];
    while (s >> x) { auto* w = doc.word(pg, x, 0, 0, 1, 1); l->words.push_back(w); }
    sg->lines.push_back(l);
    k->lines.push_back(l);
    fmin = std::min(fmin, b.fs); fmax = std::max(fmax, b.fs);
    d << "'" << b.text << "'" << b.b << " fs" << b.fs << " weight" << b.weight << (b.italic ? "i" : "") << " p" << b.page << "; ";
  }
  for (auto& p : pgs) { d << "page " << p.w << "x" << p.h << " "; }
  if (!ans.empty() && ans.size() < 60) { d << "answer"; for (float a : ans) { d << " " << a; } }
  r.desc(d.str());
  int64_t n = bs.size();
  auto& env = cppflow::env();
  ppp::modules::SemanticRolesPrediction pred(&conf().semanticRolesPrediction);
  if (before) { before(pred); }
  env.calls.clear();
  env.record = true;
  env.answer = [&](const std::vector<std::pair<std::string, cppflow::tensor>>&) {
    std::vector<float> v = ans;
    if (v.empty()) { v.assign(n * dim, 0.01f); for (int64_t i = 0; i < n; i++) { v[i * dim + (i * 5 + 3) % dim] = 0.5f; } }
    return cppflow::tensor(v, std::vector<int64_t>{ n, dim });
  };
  for (int k = 0; k < repeat; k++) { pred.predict(doc.d.get()); }
  r.step();
  env.record = false;
  // The roles.
  std::string st;
  for (int64_t i = 0; i < n; i++) {
    int role = static_cast<int>(ks[i]->role);
    st += std::to_string(role) + ",";
    if (ans.empty()) { r.eq(role, static_cast<int>((i * 5 + 3) % dim), "role", "role of block " + std::to_string(i)); continue; }
    float best = *std::max_element(ans.begin() + i * dim, ans.begin() + (i + 1) * dim);
    r.check(role >= 0 && role < dim && ans[i * dim + role] == best, "role", [&] { return "role of block " + std::to_string(i) + " is " + std::to_string(role); });
  }
  r.state(st + d.str().substr(0, 30));
  // The question.
  if (n == 0 && env.calls.empty()) { return; }
  if (!r.eq(env.calls.size(), static_cast<size_t>(repeat), "calls", "number of questions to the model")) { return; }
  auto& q = env.calls.back();
  if (!r.check(q.size() == 2, "inputs", "the model was not given two inputs")) { return; }
  const cppflow::tensor* lay = nullptr; const cppflow::tensor* wrd = nullptr;
  for (auto& x : q) { if (x.first == "serving_default_layout_features_input:0") { lay = &x.second; } if (x.first == "serving_default_words_input:0") { wrd = &x.second; } }
  if (!r.check(lay && wrd, "names", "wrong names of the inputs of the model")) { return; }
  if (!r.check((lay->_shape == std::vector<int64_t>{ n, 15 }) && (wrd->_shape == std::vector<int64_t>{ n, 100 }), "shape", "shapes of the inputs of the model")) { return; }
  Vocab full = vocab();
  int vn = full.size();
  full[refbpe::PAD] = vn; full[refbpe::UNK] = vn + 1; full[refbpe::DEL] = vn + 2;
  static const char* NAMES[] = { "page", "left", "lower", "right", "upper", "font size", "bold", "italic", "at sign", "starts with digit", "digits", "non-ASCII", "punctuation",
    "uppercased words", "uppercased characters" };
  for (int64_t i = 0; i < n; i++) {
    auto& b = bs[i];
    const Pg& p = pgs[b.page];
    std::wstring w = wide(b.text);
    double dig = 0, non = 0, pun = 0, up = 0, vis = 0, wu = 0, wn = 0;
    for (wchar_t c : w) {
      dig += c >= '0' && c <= '9'; non += c > 127; up += c >= 'A' && c <= 'Z'; vis += !(c == ' ' || (c >= 9 && c <= 13));
      pun += c > 32 && c < 127 && !isalnum(static_cast<int>(c));
    }
    std::stringstream s(b.text);
    std::string x;
    while (s >> x) { wn++; wu += x[0] >= 'A' && x[0] <= 'Z'; }
    auto part = [](double a, double t) { return t > 0 ? a / t : 0; };
    std::vector<double> f = { pgs.size() > 1 ? static_cast<double>(b.page) / (pgs.size() - 1) : 0,
      part(b.b.x0, p.w), part(p.h - b.b.y1, p.h), part(b.b.x1, p.w), part(p.h - b.b.y0, p.h),
      fmax > fmin ? (b.fs - fmin) / (fmax - fmin) : 0, b.weight > 500 ? 1.0 : 0.0, b.italic ? 1.0 : 0.0,
      b.text.find('@') != std::string::npos ? 1.0 : 0.0, !w.empty() && w[0] >= '0' && w[0] <= '9' ? 1.0 : 0.0,
      part(dig, vis), part(non, vis), part(pun, vis), part(wu, wn), part(up, vis) };
    for (int k = 0; k < 15; k++) {
      r.check(std::fabs(lay->_data[i * 15 + k] - f[k]) < 1e-4, "feature", [&] { return "feature '" + std::string(NAMES[k]) + "' of block " + std::to_string(i) + " is " +
          std::to_string(lay->_data[i * 15 + k]) + ", expected " + std::to_string(f[k]); });
    }
    std::vector<int> tok = refbpe::reference(full, w, 100, {}), got;
    for (int k = 0; k < 100; k++) { got.push_back(static_cast<int>(wrd->_data[i * 100 + k])); }
    r.eq(mc::vecStr(got), mc::vecStr(tok), "tokens", "tokens of block " + std::to_string(i));
  }
}
static void answers(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, mc::tier(2, 3));
  static const std::vector<std::vector<float>> V = { { 0.02f, 0.6f, 0.3f }, { 0.1f, 0.1000001f, 0.1f }, { 0, 1, 0 }, { 0.05f, 0.4f, 0.4f }, { 0.0001f, 0.00011f, 0.0001f } };
  std::vector<float> ans;
  for (int i = 0; i < n; i++) {
    auto v = c.of(V);
    int best = c.choose(14), second = c.choose(n == 1 ? 14 : 2);
    for (int k = 0; k < 14; k++) { ans.push_back(v[0]); }
    ans[i * 14 + (n == 1 ? second : second ? 13 : 0)] = v[2];
    ans[i * 14 + best] = v[1];
  }
  if (!c.owns()) { return; }
  std::vector<B> bs(n);
  std::vector<Pg> pgs(2);
  for (int i = 0; i < n; i++) { bs[i].b = { 100, 100 + 50.0 * i, 200, 120 + 50.0 * i }; }
  if (n > 1) { bs[n - 1].page = 1; }
  checkRoles(r, pgs, bs, ans, 14);
}
static void features(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> TX = { "abc", "Abc Def ghi", "1. x@y", "\xC3\x84\xC3\xB6", "\xC5\x81""a", "\xE6\x97\xA5\xE6\x9C\xAC", "", "...", "A1", "\xF0\x9F\x98\x80", "ab ab abc b",
    "\xC4\xB1 ABC", "\xE2\x80\xA2 a-b", "a\tb", "Z\xC5\x81.9" };
  int n = c.range(0, 3), np = n ? c.range(1, 3) : c.range(0, 2);
  std::vector<Pg> pgs(np);
  for (int i = 0; i < np; i++) { int k = i < 2 ? c.choose(2) : 0; if (k == 1) { pgs[i].w = 500; pgs[i].h = 400; } }
  std::vector<B> bs;
  for (int i = 0; i < n; i++) {
    B b;
    // one block takes every text and font, the others a few
    b.text = TX[c.choose(n == 1 ? TX.size() : i == 0 ? 4 : 2)];
    b.fs = c.of(n == 1 ? std::vector<double>{ 10, 7.5 } : std::vector<double>{ 10, 8, 20 });
    int k = c.choose(i == 0 ? 6 : 1);
    b.weight = std::vector<int>{ 400, 500, 501, 700, 400, 700 }[k];
    b.italic = k >= 4;
    b.page = bs.empty() ? c.choose(np) : bs.back().page + c.choose(np - bs.back().page);
    static const std::vector<Box> BX = { { 50, 100, 200, 150 }, { -10, 0, 600, 800 }, { 300, 350.5, 310, 399 } };
    b.b = BX[c.choose(n == 1 ? 3 : n == 2 ? 2 : 1)];
    bs.push_back(b);
  }
  if (!c.owns()) { return; }
  checkRoles(r, pgs, bs, {}, 14);
}
// Texts of blocks: all strings over a few characters; long ones.
static void texts(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> CH = { "a", "b", "B", " ", "\xC3\x84", "\xC5\x81", ".", "7" };
  int len = c.range(0, mc::tier(4, 6));
  std::string t;
  for (int i = 0; i < len; i++) { t += c.of(CH); }
  int rep = len == 1 || len == 2 ? c.of(std::vector<int>{ 1, 49, 50, 51, 99, 100, 101, 200 }) : 1;
  bool sep = rep > 1 && c.flag();
  if (!c.owns()) { return; }
  std::string all;
  for (int i = 0; i < rep; i++) { all += (i && sep ? " " : "") + t; }
  std::vector<B> bs(2);
  bs[0].text = all; bs[1].text = "abc";
  bs[0].b = bs[1].b = { 10, 10, 20, 20 };
  checkRoles(r, std::vector<Pg>(1), bs, {}, 14, 2);
}
// A document after others, with the same or another predictor.
static void documents(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> TX = { "abc", "ab. 7", "" };
  struct D { int n, np; double fs; int text; };
  auto pick = [&](bool last) {
    D d;
    d.n = c.choose(last ? 3 : 4); d.np = d.n ? c.range(1, 2) : 1; d.fs = c.of(last ? std::vector<double>{ 10, 30 } : std::vector<double>{ 1, 10, 90 }); d.text = c.choose(2);
    return d;
  };
  auto blocksOf = [](const D& d) {
    std::vector<B> bs(d.n);
    for (int i = 0; i < d.n; i++) { bs[i].b = { 10, 10 + 20.0 * i, 20, 20 + 20.0 * i }; bs[i].fs = d.fs + 3 * i; bs[i].text = TX[(d.text + i) % 3]; bs[i].page = i < d.n - 1 ? 0 : d.np - 1; }
    return bs;
  };
  int m = c.range(1, mc::tier(2, 3));
  std::vector<D> others;
  for (int i = 0; i < m; i++) { others.push_back(pick(false)); }
  D main = pick(true);
  bool same = c.flag();
  if (!c.owns()) { return; }
  auto before = [&](ppp::modules::SemanticRolesPrediction& pred) {
    for (auto& o : others) {
      Doc doc;
      for (int p = 0; p < o.np; p++) { doc.page(); }
      for (auto& b : blocksOf(o)) { block(&doc, doc.d->pages[b.page], b.b, 0, 0, b.fs, "f", b.text); }
      cppflow::env().answer = [&](const std::vector<std::pair<std::string, cppflow::tensor>>&) {
        std::vector<float> v(o.n * 14, 0.01f);
        for (int i = 0; i < o.n; i++) { v[i * 14 + 13 - i] = 0.99f; }
        return cppflow::tensor(v, std::vector<int64_t>{ o.n, 14 });
      };
      if (same) { pred.predict(doc.d.get()); } else { ppp::modules::SemanticRolesPrediction p2(&conf().semanticRolesPrediction); p2.predict(doc.d.get()); }
    }
  };
  checkRoles(r, std::vector<Pg>(main.np), blocksOf(main), {}, 14, 1, before);
}
static void largeRoles(mc::Chooser& c, mc::Report& r) {
  int n = c.of(std::vector<int>{ 5, 9, 15, 16, 17, 33, 65, 100, 127, 129, 257, 300 }), pages = c.of(std::vector<int>{ 1, 2, 7, 300 }), kind = c.choose(3);
  if (!c.owns()) { return; }
  pages = std::min(pages, n);
  std::vector<B> bs(n);
  static const std::vector<std::string> TX = { "abc", "Abc Def ghi", "1. x@y", "\xC3\x84", "\xC5\x81""a", "" };
  for (int i = 0; i < n; i++) {
    bs[i].b = { 100, 100 + 2.0 * i, 200, 102 + 2.0 * i };
    bs[i].text = TX[i % 6];
    bs[i].page = i * pages / n;
    if (kind == 1) { bs[i].fs = 5 + i % 9; bs[i].weight = i % 3 ? 400 : 700; bs[i].italic = i % 4 == 0; }
    if (kind == 2) { bs[i].text = ""; for (int k = 0; k <= i % 20 * 40; k++) { bs[i].text += k % 7 ? "ab" : " B"; } }
  }
  checkRoles(r, std::vector<Pg>(pages), bs, {}, 14);
}
static mc::Register p4({ "P20", "documents", "a case is a document after one or two (thorough: three) others, with the same or another predictor", documents, nullptr });
static mc::Register p5({ "P20", "large", "a case is a document of up to 300 blocks on up to 300 pages", largeRoles, nullptr });
static mc::Register p1({ "P20", "answers", "a case is an answer of the model with any best and second best role", answers, nullptr });
static mc::Register p2({ "P20", "features", "a case is a document with up to three blocks with critical texts, fonts, positions and pages", features, nullptr });
static mc::Register p3({ "P20", "texts", "a case is a text of a block", texts, nullptr });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
