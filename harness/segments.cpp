// P06: page segmentation, against a reference recursion with the documented rules for choosing cuts.
#include "PageSegmentation.h"
#include "refcut.h"
using namespace syn;
using refcut::Item; using refcut::Items; using refcut::Cands;

static const double CW = 5, CH = 10, WD = 3;
static const Config& conf() { static Config c; return c; }

// Which x-cuts are used: none through overlapping elements (below 500 elements), no small gap of a
// low group, none between consecutive words of a line, none that leaves a slim group.
static void chooseX(Cands& cs, const Items& v) {
  int prev = -1;  // first element after the previous chosen cut
  for (auto& c : cs) {
    if (!c.over.empty()) {
      if (v.size() < 500) { continue; }
      bool margin = true;
      for (auto& o : c.over) { margin = margin && o.b.y0 - c.lo >= 5 * CH - 1e-4 && c.hi - o.b.y1 >= 5 * CH - 1e-4; }
      if (!margin) { continue; }
    }
    if (c.gap < 2 * CW - 1e-4 && c.hi - c.lo < 6 * CH - 1e-4) { continue; }
    bool contiguous = false;
    const Item& l = v[c.before];
    if (l.kind == 0) {
      for (size_t i = c.pos; i < v.size(); i++) {
        contiguous = contiguous || (v[i].kind == 0 && v[i].rank == l.rank + 1 && maxRatio(l.b.y0, l.b.y1, v[i].b.y0, v[i].b.y1) >= 0.1 - 1e-4);
      }
    }
    if (contiguous) { continue; }
    double leftW = v[c.before].b.x1 - v[prev < 0 ? 0 : prev].b.x0;
    double rightW = v.back().b.x1 - v[c.after].b.x0;
    if (leftW < 10 * CW - 1e-4 || rightW < 10 * CW - 1e-4) { continue; }
    c.chosen = true;
    prev = c.after;
  }
}
// Pairs of y-cuts (or page ends) that enclose a region which can be cut vertically.
static void chooseY(Cands& cs, const Items& v) {
  if (cs.empty()) { return; }
  std::vector<size_t> pos{ 0 };
  for (auto& c : cs) { pos.push_back(c.pos); }
  pos.push_back(v.size());
  for (size_t i = 0; i < pos.size(); i++) {
    size_t last = 0;
    for (size_t j = i + 1; j < pos.size(); j++) {
      std::vector<Items> tmp;
      Items part(v.begin() + pos[i], v.begin() + pos[j]);
      if (!refcut::cut(part, true, 2 * WD, 1, chooseX, &tmp)) { break; }
      last = j;
    }
    if (last) {
      if (i >= 1 && i <= cs.size()) { cs[i - 1].chosen = true; }
      if (last >= 1 && last <= cs.size()) { cs[last - 1].chosen = true; }
      i = last;
    }
  }
}

// Where the elements are (also outside of the page).
static double away = 0;
static void elsewhere(mc::Chooser& c, mc::Report& r, void (*body)(mc::Chooser&, mc::Report&)) {
  away = c.of(std::vector<double>{ -2000, 3000 });
  body(c, r);
  away = 0;
}
static Box moved(const Box& b) { return { b.x0 + away, b.y0 + away, b.x1 + away, b.y1 + away }; }

static void checkSegments(mc::Report& r, std::vector<Items> pages) {
  for (auto& p : pages) { for (auto& i : p) { i.b = moved(i.b); } }
  Doc doc;
  doc.d->avgCharWidth = CW; doc.d->avgCharHeight = CH; doc.d->mostFreqWordDistance = WD;
  std::stringstream d;
  std::vector<std::vector<PdfElement*>> es(pages.size());
  for (size_t p = 0; p < pages.size(); p++) {
    PdfPage* pg = doc.page();
    for (auto& it : pages[p]) {
      const Box& b = it.b;
      PdfElement* e;
      if (it.kind == 0) { e = doc.word(pg, "w", b.x0, b.y0, b.x1, b.y1); }
      else if (it.kind == 1) { auto* f = new PdfFigure(p + 1, b.x0, b.y0, b.x1, b.y1); pg->figures.push_back(f); e = f; }
      else {
        if (it.kind == 2) { auto* s = new PdfShape(); pg->shapes.push_back(s); e = s; } else { auto* s = new PdfGraphic(); pg->graphics.push_back(s); e = s; }
        e->pos->pageNum = p + 1; e->pos->leftX = b.x0; e->pos->upperY = b.y0; e->pos->rightX = b.x1; e->pos->lowerY = b.y1;
      }
      e->doc = doc.d.get();
      if (it.kind == 0) { e->rank = it.rank; }
      es[p].push_back(e);
      if (pages[p].size() < 30) { d << (it.kind ? "figure" : "word") << b << " "; }
    }
    d << "| ";
  }
  r.desc(d.str());
  ppp::modules::PageSegmentation(doc.d.get(), &conf().pageSegmentation).process();
  r.step();
  std::string st;
  for (size_t p = 0; p < pages.size(); p++) {
    PdfPage* pg = doc.d->pages[p];
    std::vector<Items> ref;
    refcut::xy(pages[p], 2 * WD, 2.0, 1, chooseX, chooseY, &ref);
    std::string exp, got;
    std::vector<int> all;
    for (auto& g : ref) {
      std::vector<int> k;
      for (auto& i : g) { k.push_back(i.id); }
      std::sort(k.begin(), k.end());
      for (int i : k) { exp += std::to_string(i) + ","; }
      exp += "|";
    }
    for (auto* s : pg->segments) {
      std::vector<int> k;
      Box b;
      for (auto* e : s->elements) {
        size_t i = std::find(es[p].begin(), es[p].end(), e) - es[p].begin();
        if (!r.check(i < pages[p].size(), "foreign", "a segment contains an element of another page")) { return; }
        k.push_back(pages[p][i].id); b.add(pages[p][i].b); all.push_back(i);
      }
      std::sort(k.begin(), k.end());
      for (int i : k) { got += std::to_string(i) + ","; }
      got += "|";
      r.check(!k.empty(), "empty", "an empty segment");
      if (!k.empty()) { r.eq(boxOf(s), b, "box", "box of a segment"); }
      r.eq(static_cast<int>(s->pos->pageNum), static_cast<int>(p + 1), "page", "page of a segment");
      r.check(s->doc == doc.d.get(), "doc", "the segment does not refer to its document");
    }
    std::sort(all.begin(), all.end());
    bool perm = all.size() == pages[p].size();
    for (size_t i = 0; perm && i < all.size(); i++) { perm = all[i] == static_cast<int>(i); }
    r.check(perm, "partition", "the segments are no partition of the elements of the page");
    r.eq(got, exp, "segments", "elements of the segments");
    st += pages[p].size() < 30 ? exp : std::to_string(ref.size());
  }
  r.state(st);
}

// Free arrangements.
static void freeBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(0, mc::tier(4, 5));
  static const std::vector<std::pair<double, double>> X = { { 100, 160 }, { 180, 240 }, { 168, 230 }, { 100, 240 }, { 100, 130 }, { 163, 225 } };
  static const std::vector<double> Y = { 100, 114, 128, 111 };
  Items v;
  for (int i = 0; i < n; i++) {
    auto x = X[n <= 3 ? c.choose(mc::tier(5, 6)) : c.choose(i < 3 ? mc::tier(3, 4) : 6)];
    double y = Y[n <= 3 ? c.choose(mc::tier(3, 4)) : c.choose(mc::tier(2, 3) + (i == 3))];
    int k = n <= 3 ? c.choose(3) : (i == n - 1 ? c.choose(3) : 0);  // word; tall word; tall figure
    double h = k ? 70 : 10;
    Item it;
    it.b = { x.first + 0.25 * i, y + 0.25 * i, x.second + 0.25 * i, y + h + 0.25 * i };
    it.id = i; it.rank = i; it.kind = k == 2 ? 1 + i % 3 : 0;
    v.push_back(it);
  }
  int skip = n ? c.choose(2) : 0;  // the ranks of the words are not consecutive
  if (!c.owns()) { return; }
  if (skip) { for (auto& i : v) { i.rank *= 2; } }
  checkSegments(r, { v });
}
// Layouts: areas of one to three columns, each with a number of rows, between spanning elements.
static void layoutBody(mc::Chooser& c, mc::Report& r) {
  int areas = c.range(1, mc::tier(2, 3));
  Items v;
  double y = 50;
  int id = 0;
  bool byRow = c.flag();
  for (int a = 0; a < areas; a++) {
    int head = c.choose(a == 0 ? 3 : 4);  // nothing; a spanning line; a short line at the left; a spanning figure
    if (head) {
      double h = head == 3 ? 60 : 12;
      Item it;
      it.b = { 50.0 + 0.01 * id, y, head == 2 ? 120 : 550.0, y + h };
      it.id = id++; it.kind = head == 3 ? 1 : 0;
      it.aux = 0;
      v.push_back(it);
      y += h + (a == 0 ? 6 : c.of(std::vector<double>{ 6, 1 }));
    }
    int cols = c.range(1, 3), rows = c.of(mc::thorough() ? std::vector<int>{ 1, 2, 3, 4, 5 } : std::vector<int>{ 1, 2, 5 }), wide = c.choose(mc::tier(2, 3)), wpl = c.range(1, 2);
    double gap = std::vector<double>{ 20, 8, 4 }[wide];
    double cw = (500 - gap * (cols - 1)) / cols;
    int ragged = c.choose(2);  // the last column starts lower
    for (int o = 0; o < cols * rows; o++) {
      int col = byRow ? o % cols : o / rows, row = byRow ? o / cols : o % rows;
      for (int w = 0; w < wpl; w++) {
        double x0 = 50 + col * (cw + gap), x1 = x0 + cw;
        if (wpl == 2) { double m = x0 + cw / 2; if (w == 0) { x1 = m - 1.5; } else { x0 = m + 1.5; } }
        Item it;
        double yy = y + 14 * row + (ragged && col == cols - 1 ? 7 : 0);
        it.b = { x0 + 0.01 * id, yy + 0.001 * id, x1, yy + 10 };
        it.id = id++;
        v.push_back(it);
      }
    }
    y += 14 * rows + (ragged ? 7 : 0) + 5;
  }
  if (!c.owns()) { return; }
  int rank = 0;
  for (auto& i : v) { if (!i.kind) { i.rank = rank++; } }
  checkSegments(r, { v });
}
static void pagesBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, 3);
  std::vector<Items> pages;
  int id = 0;
  for (int p = 0; p < n; p++) {
    int k = c.choose(5);
    Items v;
    for (int i = 0; i < std::vector<int>{ 0, 1, 4, 4, 1 }[k]; i++) {
      Item it;
      double x = 100 + (i % 2) * 120, y = 100 + (i / 2) * (k == 3 ? 14 : 60);
      it.b = { x, y + 0.25 * i, x + 100, y + (k == 3 ? 10 : 50) };
      it.id = id++; it.kind = k == 4 ? 1 : 0; it.rank = i * 2;
      v.push_back(it);
    }
    pages.push_back(v);
  }
  if (!c.owns()) { return; }
  checkSegments(r, pages);
}
// Big pages: here, cuts may pass through one element if it is far from both ends of the cut.
static void bigBody(mc::Chooser& c, mc::Report& r) {
  int rows = c.of(std::vector<int>{ 255, 240, 249, 250 });
  // The distance of the word to the top or bottom of the page's content, its height, and that of a second one.
  static const std::vector<double> D = { 300, 0, 3, 22, 41, 46, 49.3, 51, 56, 150 };
  double dist = c.of(D);
  bool bottom = c.flag();
  double h = c.of(std::vector<double>{ 2.5, 12, 7 });
  int two = c.choose(4), missing = c.choose(3);  // (fewer words in the right column: the number of elements is odd or even)
  if (!c.owns()) { return; }
  Items v;
  int id = 0;
  double top = 50, bot = 50 + 3.0 * (rows - 1) + 2.5;
  for (int i = 0; i < 2 * rows; i++) {
    if (missing && i >= rows && i < rows + missing) { continue; }
    int col = i / rows, row = i % rows;
    Item it;
    it.b = { 50.0 + 260 * col, 50 + 3.0 * row, 290.0 + 260 * col, 52.5 + 3 * row };
    it.id = id++; it.rank = i;
    it.b.x0 += 0.0001 * i;
    v.push_back(it);
  }
  for (int k = 0; k <= (two > 0); k++) {
    Item it;
    double y = bottom ? bot - dist - h : top + dist;
    if (k) { y = two == 1 ? y + 20 : two == 2 ? (bottom ? top + 52 : bot - 52 - h) : (bottom ? top + 47 : bot - 47 - h); }
    it.b = { 49.0 - k, y, 400.0, y + h };
    it.id = id++; it.rank = 2 * rows + 5 + 2 * k;
    v.push_back(it);
  }
  checkSegments(r, { v });
}
// Two to four columns of one word or figure each: slim columns, small gaps, words that follow each other.
static void columnsBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(2, 4);
  static const std::vector<double> W = { 60, 30, 45 }, G = { 20, 8, 4 }, Y = { 0, 66, 100 };
  static const std::vector<std::pair<double, int>> H = { { 70, 0 }, { 10, 0 }, { 70, 1 } };
  Items v;
  double x = 100;
  int rank = 0;
  for (int i = 0; i < n; i++) {
    Item it;
    double w = W[c.choose(n <= 3 ? 3 : 2)];
    auto h = H[c.choose(n == 2 ? 3 : n == 3 ? (i < 2 ? 3 : 2) : (i == 0 ? 2 : 1))];
    double y = 100 + Y[i ? c.choose(n <= 3 ? 3 : 2) : 0];
    if (i) { x += G[c.choose(n <= 3 ? 3 : 2)]; rank += 1 + c.choose(2); }
    it.b = { x, y + 0.25 * i, x + w, y + h.first + 0.25 * i };
    it.id = i; it.rank = rank; it.kind = h.second;
    x += w;
    v.push_back(it);
  }
  int order = c.choose(n <= 3 ? 2 : 1);
  if (!c.owns()) { return; }
  if (order) { for (auto& i : v) { i.rank = rank - i.rank; } std::reverse(v.begin(), v.end()); }
  checkSegments(r, { v });
}
// Two columns; the word after the rightmost one of the left column is anywhere.
static void contiguousBody(mc::Chooser& c, mc::Report& r) {
  int n = c.of(std::vector<int>{ 8, 6, 10, 17, 33, 65, mc::tier(66, 129) });
  int l = c.of(std::vector<int>{ 0, n / 2, n - 1, 1 }), s = c.choose(n), dir = c.choose(2), slope = c.choose(2), gap = c.choose(2);
  if (!c.owns()) { return; }
  Items v;
  for (int i = 0; i < 2 * n; i++) {
    int col = i / n, row = i % n;
    Item it;
    double x = 100 + col * (200 + (gap ? 20 : 12)), y = 100 + 12 * row;
    it.b = { x + 0.05 * (slope ? row : n - row), y, x + 199 + (col || row == l ? 1 : 0), y + 10 };
    it.id = i;
    it.rank = col == 0 ? (row == l ? 1000 : 2 * row) : row == s ? (dir ? 1001 : 999) : 2000 + 2 * row;
    v.push_back(it);
  }
  checkSegments(r, { v });
}
static mc::Register H({ "P06", "contiguous", "a case is a page of two columns with one pair of consecutive words, at any rows", contiguousBody, nullptr });
// Many pages and many regions.
static void largeBody(mc::Chooser& c, mc::Report& r) {
  int n = c.of(std::vector<int>{ 5, 8, 9, 16, 17, 33, 65, 129, 200, 257 }), kind = c.choose(4), cols = c.range(1, 3);
  if (!c.owns()) { return; }
  if (kind == 2 && n > 65) { n = 65; }
  std::vector<Items> pages(1);
  int id = 0;
  double y = 50;
  for (int i = 0; i < n; i++) {
    if (i && kind == 0) { pages.emplace_back(); y = 50; }  // pages
    bool head = kind == 2 && i % 4 == 0;                      // areas under headings
    for (int k = 0; k < (head ? 1 : cols); k++) {
      Item it;
      it.b = { 50.0 + 120 * k + 0.001 * id, y + 0.001 * k, (head ? 400.0 : 150.0 + 120 * k), y + (kind == 1 ? 20 : 10) };
      it.id = id++; it.rank = id * (kind == 3 ? 1 : 2);
      pages.back().push_back(it);
    }
    y += kind == 1 ? 28 : 12.5 + (i % 4 == 3 ? 3 : 0);
  }
  checkSegments(r, pages);
}
static mc::Register E({ "P06", "columns", "a case is a row of two to four words or figures: slim or wide, low or high, close or distant, consecutive or not", columnsBody, nullptr });
static mc::Register G({ "P06", "elsewhere", "a case is a document as in space pages, far to the left and above or to the right and below of the page", [](mc::Chooser& c, mc::Report& r) { elsewhere(c, r, pagesBody); }, nullptr });
static mc::Register F({ "P06", "large", "a case is a document of up to 257 pages or rows, or 17 areas", largeBody, nullptr });
static mc::Register A({ "P06", "free", "a case is a set of words and figures with x- and y-extents of a critical grid", freeBody, nullptr });
static mc::Register B({ "P06", "layouts", "a case is a page of areas with one to three columns, headings and figures", layoutBody, nullptr });
static mc::Register C({ "P06", "pages", "a case is a document of several pages, also empty ones", pagesBody, nullptr });
static mc::Register D({ "P06", "big", "a case is a two-column page of about 500 words with words across the gap", bigBody, nullptr });
int main(int argc, char** argv) { return mc::driver(argc, argv); }
