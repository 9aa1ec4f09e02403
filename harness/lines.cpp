// P07 text lines, P08 sub- and superscripts, P31 (line hierarchy, trim box), P19 (line statistics).
#include "SubSuperScriptsDetection.h"
#include "TextLinesDetection.h"
#include "TextLinesStatisticsCalculation.h"
#include "doc.h"
using namespace syn;

static const Config& conf() { static Config c; return c; }
static const double CW = 5;  // the average glyph width

struct W { std::string text; Box b; int rot = 0, wm = 0; std::vector<std::pair<double, double>> g; std::vector<std::string> fonts{ "f" };
  int part = -1;  // the operator this word is a limit of
};
static double low(const Box& b, int rot) { return rot == 0 ? b.y1 : rot == 1 ? b.x0 : rot == 2 ? b.y0 : b.x1; }
static double left(const Box& b, int rot) { return rot == 0 ? b.x0 : rot == 1 ? b.y0 : rot == 2 ? b.x1 : b.y1; }

struct RL { std::vector<int> w; Box b; };
// The lines of the words of one rotation. `tie` is set if their order is not determined.
static std::vector<RL> refLines(const std::vector<W>& ws, int rot, bool* tie) {
  std::map<double, RL> cl;
  for (size_t i = 0; i < ws.size(); i++) {
    if (ws[i].part >= 0 || ws[i].rot != rot) { continue; }
    RL& l = cl[low(ws[i].b, rot)];
    l.w.push_back(i);
    l.b.add(ws[i].b);
    for (size_t j = 0; j < ws.size(); j++) { if (ws[j].part == static_cast<int>(i)) { l.w.push_back(j); l.b.add(ws[j].b); } }
  }
  std::vector<RL> ls;
  for (auto& p : cl) { ls.push_back(p.second); }
  bool asc = rot <= 1;
  std::stable_sort(ls.begin(), ls.end(), [&](const RL& a, const RL& b) { return asc ? low(a.b, rot) < low(b.b, rot) : low(a.b, rot) > low(b.b, rot); });
  for (size_t i = 0; i + 1 < ls.size(); i++) { *tie = *tie || low(ls[i].b, rot) == low(ls[i + 1].b, rot); }
  for (bool merged = true; merged;) {
    merged = false;
    std::vector<RL> out;
    for (auto& l : ls) {
      if (!out.empty()) {
        RL& p = out.back();
        double gap = p.b.x0 < l.b.x0 ? l.b.x0 - p.b.x1 : p.b.x0 - l.b.x1;
        if (maxRatio(p.b.y0, p.b.y1, l.b.y0, l.b.y1) >= (gap < 3 * CW ? 0.4 : 0.8) - 1e-4) {
          p.w.insert(p.w.end(), l.w.begin(), l.w.end());
          p.b.add(l.b);
          merged = true;
          continue;
        }
      }
      out.push_back(l);
    }
    ls = out;
  }
  return ls;
}

// Where the elements are (also outside of the page).
static double away = 0;
static void elsewhere(mc::Chooser& c, mc::Report& r, void (*body)(mc::Chooser&, mc::Report&)) {
  away = c.of(std::vector<double>{ -2000, 3000 });
  body(c, r);
  away = 0;
}
static Box moved(const Box& b) { return { b.x0 + away, b.y0 + away, b.x1 + away, b.y1 + away }; }

static void checkLines(mc::Report& r, std::vector<std::vector<W>> segs, const std::vector<int>& pageOf, bool stmt = true) {
  for (auto& s : segs) { for (W& w : s) { w.b = moved(w.b); for (auto& g : w.g) { g.second += away; } } }
  Doc doc;
  doc.d->avgCharWidth = CW;
  std::stringstream d;
  std::vector<std::vector<PdfWord*>> pw(segs.size());
  std::vector<PdfPageSegment*> ps;
  for (size_t s = 0; s < segs.size(); s++) {
    while (static_cast<int>(doc.d->pages.size()) <= pageOf[s]) { doc.page(); }
    PdfPage* pg = doc.d->pages[pageOf[s]];
    std::vector<PdfElement*> es;
    for (auto& w : segs[s]) {
      auto* q = doc.word(pg, w.text, w.b.x0, w.b.y0, w.b.x1, w.b.y1, 10, "f", w.rot, w.wm);
      glyphs(&doc, q, w.g.empty() ? std::vector<std::pair<double, double>>{ { 10, w.b.y1 - 2 } } : w.g, w.fonts);
      pw[s].push_back(q);
      es.push_back(q);
      d << w.text << w.b << "r" << w.rot << (w.part >= 0 ? "limit of " + std::to_string(w.part) : "") << "; ";
    }
    for (size_t i = 0; i < segs[s].size(); i++) {
      int p = segs[s][i].part;
      if (p >= 0) { pw[s][i]->isPartOfStackedMathSymbol = pw[s][p]; pw[s][p]->isBaseOfStackedMathSymbol.push_back(pw[s][i]); }
    }
    if (!segs[s].empty() || s % 2) {  // a figure in the segment is no text
      auto* f = new PdfFigure(pg->pageNum, 90, 90, 95, 95);
      pg->figures.push_back(f);
      es.push_back(f);
    }
    ps.push_back(segment(&doc, pg, es));
    d << "| ";
  }
  r.desc(d.str());
  ppp::modules::TextLinesDetection(doc.d.get(), &conf().textLinesDetection).process();
  r.step();
  int rank = 0;
  std::string st;
  for (size_t s = 0; s < segs.size(); s++) {
    auto& ws = segs[s];
    // The words of the segment, in the order of its lines, each exactly once.
    std::vector<int> all;
    std::map<int, std::vector<PdfTextLine*>> byRot;
    int prevRot = -1;
    for (auto* l : ps[s]->lines) {
      r.check(!l->words.empty(), "emptyline", "a line without words");
      if (l->words.empty()) { return; }
      for (auto* w : l->words) { all.push_back(std::find(pw[s].begin(), pw[s].end(), w) - pw[s].begin()); }
      if (l->pos->rotation != prevRot) {
        r.check(byRot[l->pos->rotation].empty(), "rotorder", "the lines of one rotation are not together");
        prevRot = l->pos->rotation;
      }
      byRot[l->pos->rotation].push_back(l);
      r.eq(l->rank, rank++, "rank", "rank of a line");
      r.check(l->segment == ps[s], "segment", "the line does not refer to its segment");
      r.eq(static_cast<int>(l->pos->pageNum), pageOf[s] + 1, "page", "page of the line");
    }
    std::vector<int> sorted = all;
    std::sort(sorted.begin(), sorted.end());
    bool perm = sorted.size() == ws.size();
    for (size_t i = 0; perm && i < sorted.size(); i++) { perm = sorted[i] == static_cast<int>(i); }
    if (!r.check(perm, "words", "not each word is in exactly one line")) { continue; }
    for (auto& br : byRot) {
      int rot = br.first;
      bool tie = false;
      auto ref = refLines(ws, rot, &tie);
      auto& got = br.second;
      for (size_t i = 0; i < got.size(); i++) {
        r.check(got[i]->prevLine == (i ? got[i - 1] : nullptr), "prevline", "wrong previous line");
        r.check(got[i]->nextLine == (i + 1 < got.size() ? got[i + 1] : nullptr), "nextline", "wrong next line");
      }
      if (!tie) {
        std::string g, e;
        for (auto* l : got) {
          std::set<int> k;
          for (auto* w : l->words) { k.insert(std::find(pw[s].begin(), pw[s].end(), w) - pw[s].begin()); }
          for (int i : k) { g += std::to_string(i) + ","; }
          g += "|";
        }
        for (auto& l : ref) { std::set<int> k(l.w.begin(), l.w.end()); for (int i : k) { e += std::to_string(i) + ","; } e += "|"; }
        st += e + "/";
        r.eq(g, e, "grouping", "words of the lines of rotation " + std::to_string(rot));
      }
      for (auto* l : got) {
        Box b; std::string text; std::vector<double> fs, base; std::vector<std::string> fn;
        std::set<int> wm; double prev = 0;
        for (size_t i = 0; i < l->words.size(); i++) {
          int k = std::find(pw[s].begin(), pw[s].end(), l->words[i]) - pw[s].begin();
          const W& w = ws[k];
          double x = left(w.b, rot);
          if (i) { r.check(rot <= 1 ? prev <= x : prev >= x, "order", "the words of a line are not in reading direction"); }
          prev = x;
          wm.insert(w.wm);
          b.add(w.b);
          text += (i ? " " : "") + w.text;
          for (auto* c : pw[s][k]->characters) { fs.push_back(c->fontSize); base.push_back(c->base); fn.push_back(c->fontName); }
          r.check(pw[s][k]->line == l, "wordline", "the word does not refer to its line");
        }
        r.eq(l->text, text, "text", "text of the line");
        r.eq(boxOf(l), b, "box", "box of the line");
        r.check(modes(fs).count(l->fontSize), "fontsize", "font size of the line is not the most frequent one");
        r.check(modes(fn).count(l->fontName), "font", "font of the line is not the most frequent one");
        r.check(modes(base).count(l->base), "base", "base line of the line is not the most frequent one");
        r.eq(l->maxFontSize, *std::max_element(fs.begin(), fs.end()), "maxfontsize", "greatest font size of the line");
        r.check(wm.count(l->pos->wMode), "wmode", "writing mode of the line is not that of its words");
        r.check(l->doc == doc.d.get(), "doc", "the line does not refer to its document");
      }
    }
  }
  r.state(st);
}

static void placeBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, 5);
  static const std::vector<double> X = { 100, 128, 170 };
  static const std::vector<double> Y = { 300, 302, 304.5, 307, 311, 315, 293 };
  static const std::vector<double> H = { 10, 6, 20 };
  std::vector<W> ws;
  for (int i = 0; i < n; i++) {
    double x, y, h;
    if (n <= 3) { x = X[i == 0 ? 0 : c.choose(3)]; y = Y[i == 0 ? 0 : c.choose(7)]; h = H[c.choose(3)]; }
    else if (n == 4) { x = X[i == 0 ? 0 : c.choose(3)]; y = Y[i == 0 ? 0 : c.choose(6)]; h = H[i == 0 ? 0 : c.choose(mc::tier(2, 3))]; }
    else { x = X[i == 0 ? 0 : c.choose(2)]; y = Y[i == 0 ? 0 : c.choose(mc::tier(4, 6))]; h = H[i == 0 || i == 4 ? 0 : c.choose(2)]; }
    x += 0.25 * i;
    W w;
    w.text = std::string(1, 'a' + i);
    w.b = { x, y - h, x + 20, y };
    ws.push_back(w);
  }
  bool flip = n <= 3 ? c.flag() : false;  // the same, upside-down
  if (!c.owns()) { return; }
  if (flip) { for (auto& w : ws) { w.rot = 2; w.b = { 600 - w.b.x1, 800 - w.b.y1, 600 - w.b.x0, 800 - w.b.y0 }; } }
  checkLines(r, { ws }, { 0 });
}
static void rotBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, 4);
  std::vector<W> ws;
  for (int i = 0; i < n; i++) {
    W w;
    w.text = std::string(1, 'a' + i);
    w.rot = c.choose(i < 2 ? 4 : 2) * (i == 3 ? 2 : 1);
    w.wm = c.choose(i < 1 ? 2 : 1);
    int k = c.choose(i < 3 ? 3 : 2), dir = c.choose(2);
    double along = 100 + 30 * i, across = 300 + 20 * k;
    if (dir) { along = 400 - along; }
    if (w.rot % 2) { w.b = { across, along, across + 10, along + 20 }; } else { w.b = { along, across, along + 20, across + 10 }; }
    ws.push_back(w);
  }
  if (!c.owns()) { return; }
  checkLines(r, { ws }, { 0 });
}
static void limitsBody(mc::Chooser& c, mc::Report& r) {
  // An operator with up to two limits, among words of the same and of other lines.
  std::vector<W> ws;
  int limits = c.choose(3), n = c.range(0, 2), first = c.flag();
  W op; op.text = "S"; op.b = { 200, 290, 220, 310 };
  std::vector<W> lim;
  for (int i = 0; i < limits; i++) {
    W w; w.text = std::string(1, 'x' + i);
    double y = c.of(std::vector<double>{ 280, 310, 325, 286 }), x = c.of(std::vector<double>{ 202, 195 }) + i;
    w.b = { x, y, x + 10, y + 8 };
    lim.push_back(w);
  }
  if (first) { ws = lim; ws.push_back(op); } else { ws.push_back(op); ws.insert(ws.end(), lim.begin(), lim.end()); }
  int at = first ? limits : 0;
  for (int i = 0; i < static_cast<int>(ws.size()); i++) { if (i != at) { ws[i].part = at; } }
  for (int i = 0; i < n; i++) {
    W w; w.text = std::string(1, 'a' + i);
    double x = c.of(std::vector<double>{ 150, 225, 300 }) + 0.25 * i, y = c.of(std::vector<double>{ 295, 300, 282, 314, 330, 270 });
    w.b = { x, y, x + 20, y + 10 };
    ws.push_back(w);
  }
  if (!c.owns()) { return; }
  checkLines(r, { ws }, { 0 });
}
static void segBody(mc::Chooser& c, mc::Report& r) {
  // Several segments on several pages; some without words.
  int n = c.range(1, 3);
  std::vector<std::vector<W>> segs; std::vector<int> pageOf;
  int pg = 0;
  for (int s = 0; s < n; s++) {
    if (s) { pg += c.choose(2); }
    int k = c.range(0, 2);
    std::vector<W> ws;
    for (int i = 0; i < k; i++) {
      W w; w.text = std::string(1, 'a' + 3 * s + i);
      double y = 300 + 15 * c.choose(3);
      w.rot = c.choose(s == 0 ? 3 : 1);
      w.b = { 100.0 + 100 * s + 30 * i, y, 120.0 + 100 * s + 30 * i, y + 10 };
      ws.push_back(w);
    }
    segs.push_back(ws);
    pageOf.push_back(pg);
  }
  if (!c.owns()) { return; }
  checkLines(r, segs, pageOf);
}
static void propsBody(mc::Chooser& c, mc::Report& r) {
  // Fonts, sizes and base lines of the glyphs of two words of one line.
  std::vector<W> ws(2);
  for (int i = 0; i < 2; i++) {
    ws[i].text = i ? "b" : "a";
    ws[i].b = { 100.0 + 30 * i, 290, 120.0 + 30 * i, 300 };
    int n = c.range(1, 3);
    ws[i].fonts.clear();
    for (int k = 0; k < n; k++) {
      static const std::vector<std::pair<double, double>> S = { { 10, 298 }, { 6, 295 }, { 14, 298 }, { 6, 298 } };
      ws[i].g.push_back(c.of(S));
      ws[i].fonts.push_back(c.flag() ? "g" : "f");
    }
  }
  if (!c.owns()) { return; }
  checkLines(r, { ws }, { 0 });
}
static void largeLines(mc::Chooser& c, mc::Report& r) {
  int n = c.of(std::vector<int>{ 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 200, 255, 257, 400 }), kind = c.choose(11), order = c.choose(3);
  if (!c.owns()) { return; }
  std::vector<std::vector<W>> segs(1);
  std::vector<int> pageOf{ 0 };
  for (int i = 0; i < n; i++) {
    int k = order == 1 ? n - 1 - i : order == 2 ? (i * 7 + 3) % n : i;  // drawing order (7: not for multiples of 7)
    if (order == 2 && n % 7 == 0) { k = i; }
    double x = 100, y = 100;
    W w;
    w.text = "w" + std::to_string(k);
    switch (kind) {
      case 0: x += 25 * k; break;                            // one line
      case 1: y += 20 * k; break;                            // lines of one word
      case 2: x += 25 * (k % 10); y += 20 * (k / 10); break;  // lines of ten words
      case 3: x += 25 * (k % 10); y += 20 * (k / 10) + (k % 2 ? 2 : 0); break;  // the base lines differ within the lines
      case 4: y += 20 * k; if (i && i % 2 == 0) { segs.emplace_back(); pageOf.push_back(pageOf.back()); } break;  // segments
      case 5: y += 20 * k; if (i) { segs.emplace_back(); pageOf.push_back(i); } break;  // pages
      case 6: x += 25 * (k % 10); y += 20 * (k / 10); w.rot = 2; break;
      default: y += 20 * k; x += k % 3; break;  // lines of one word with a tall word beside them
    }
    w.b = { x, y, x + 20, y + 10 };
    if (kind >= 7 && k == (kind == 7 || kind == 10 ? n - 1 : kind == 8 ? 0 : n / 2)) {
      double h = kind == 10 ? n / 2 : n;  // (the lower half only)
      w.b = { 60, std::max(100.0, 100 + 20 * (n - h)), 90, 100 + 20.0 * (n - 1) + 10 + (kind == 9 ? 0.5 : -0.5) };
    }
    w.g = { { 10, y + 8 }, { 10, y + 8 }, { k % 3 ? 10.0 : 7.0, y + (k % 3 ? 8 : 5) } };
    if (k % 4 == 1) { w.fonts = { "f", "g" }; }
    segs.back().push_back(w);
  }
  checkLines(r, segs, pageOf);
}
static mc::Register r7f({ "P07", "large", "a case is a segment or document of up to 400 words on one or many lines, segments and pages", largeLines, nullptr });
static mc::Register r7g({ "P07", "elsewhere", "a case is a document as in space segments, far to the left and above or to the right and below of the page", [](mc::Chooser& c, mc::Report& r) { elsewhere(c, r, segBody); }, nullptr });
static mc::Register r7a({ "P07", "placement", "a case is a set of words with horizontal and vertical positions and heights on a grid, upright or upside-down", placeBody, nullptr });
static mc::Register r7b({ "P07", "rotations", "a case is a set of words with all rotations and writing modes", rotBody, nullptr });
static mc::Register r7c({ "P07", "operators", "a case is an operator with its limits among other words", limitsBody, nullptr });
static mc::Register r7d({ "P07", "segments", "a case is a document with several pages and segments", segBody, nullptr });
static mc::Register r7e({ "P07", "fonts", "a case is a line with all font data of its glyphs", propsBody, nullptr });

// ------------------------------------------------------------------------------------------------
// P08
struct Script { double fs, base; };  // (relative to the usual size and to the base line)
// lines[l][w][g]: the glyphs of the words of the lines. `where`: all lines in segments of their own on a page (0),
// on pages of their own (1), in one segment (2).
static void checkScripts(mc::Report& r, double usual, const std::vector<std::vector<std::vector<Script>>>& lines, int where) {
  Doc doc;
  doc.d->mostFreqFontSize = usual;
  std::stringstream d;
  struct E { PdfCharacter* ch; double fs, base; int line; };
  std::vector<E> es;
  int nl = lines.size();
  std::vector<PdfTextLine*> got;
  std::vector<double> bases;
  std::vector<PdfElement*> els;
  std::vector<PdfTextLine*> open;
  PdfPage* pg = nullptr;
  for (int l = 0; l < nl; l++) {
    if (!pg || where == 1) { pg = doc.page(); }
    bases.push_back(300 + 20.0 * l);
    auto* line = new PdfTextLine();
    line->base = bases[l];
    line->doc = doc.d.get();
    for (size_t w = 0; w < lines[l].size(); w++) {
      auto* q = doc.word(pg, "w", 100 + 50.0 * w, 290 + 20.0 * l, 140 + 50.0 * w, 302 + 20.0 * l);
      std::vector<std::pair<double, double>> g;
      for (auto& x : lines[l][w]) { g.push_back({ usual + x.fs, bases[l] + x.base }); }
      glyphs(&doc, q, g);
      for (auto* x : q->characters) {
        es.push_back({ x, x->fontSize, x->base, l });
        if (es.size() < 30) { d << "fs" << x->fontSize << " base" << x->base - bases[l] << "; "; }
      }
      els.push_back(q);
      line->words.push_back(q);
    }
    d << "| ";
    open.push_back(line);
    if (where != 2 || l + 1 == nl) { segment(&doc, pg, els)->lines = open; els.clear(); open.clear(); }
    got.push_back(line);
  }
  r.desc("usual size " + std::to_string(usual) + ", place " + std::to_string(where) + ": " + d.str());
  ppp::modules::SubSuperScriptsDetection(doc.d.get(), &conf().subSuperScriptsDetection).process();
  r.step();
  std::vector<Box> bb(nl);
  std::string st;
  for (auto& e : es) {
    bool small = e.fs < usual - 0.9, sup = small && e.base < bases[e.line] - 0.1, sub = small && e.base > bases[e.line] + 0.1;
    r.eq(e.ch->isSuperscript, sup, sup ? "nosuper" : "super", "glyph is a superscript");
    r.eq(e.ch->isSubscript, sub, sub ? "nosub" : "sub", "glyph is a subscript");
    if (st.size() < 20) { st += sup ? "^" : sub ? "_" : "-"; }
    if (!sup && !sub) { bb[e.line].add(boxOf(e.ch)); }
  }
  for (int l = 0; l < nl; l++) {
    if (bb[l].x0 > 1e299) { continue; }
    r.eq((Box{ got[l]->baseBBoxLeftX, got[l]->baseBBoxUpperY, got[l]->baseBBoxRightX, got[l]->baseBBoxLowerY }), bb[l], "basebox", "box of the glyphs of the line that are no sub- or superscripts");
  }
  r.state(st);
}
static void subsuper(mc::Chooser& c, mc::Report& r) {
  double usual = c.of(std::vector<double>{ 10, 12 });
  int nl = c.range(1, 2);
  std::vector<std::vector<std::vector<Script>>> lines(nl);
  for (int l = 0; l < nl; l++) {
    int nw = nl == 1 ? c.range(1, 2) : 1;
    for (int w = 0; w < nw; w++) {
      int n = c.range(1, nw + nl == 2 ? mc::tier(3, 4) : (w + l == 0 ? 2 : mc::tier(1, 2)));
      std::vector<Script> g;
      for (int i = 0; i < n; i++) {
        double fs = c.of(std::vector<double>{ 0, -0.5, -1.5, 6 - usual, 4 });
        double b = c.of(std::vector<double>{ 0, -3, 3, 0.05, -0.25, 0.25 });
        g.push_back({ fs, b });
      }
      lines[l].push_back(g);
    }
  }
  int where = nl > 1 ? c.choose(3) : 0;
  if (!c.owns()) { return; }
  checkScripts(r, usual, lines, where);
}
static void largeScripts(mc::Chooser& c, mc::Report& r) {
  int n = c.of(std::vector<int>{ 8, 16, 33, 65, 100, 129, 257, 600 }), kind = c.choose(4), every = c.of(std::vector<int>{ 2, 3, 7 }), where = c.choose(3);
  if (!c.owns()) { return; }
  static const std::vector<Script> S = { { 0, 0 }, { -3, -3 }, { -3, 3 }, { -3, 0 }, { 0, 3 }, { -3, -0.25 }, { 2, -3 } };
  std::vector<std::vector<std::vector<Script>>> lines(kind < 2 ? 1 : n);
  for (int i = 0; i < n; i++) {
    auto& l = lines[kind < 2 ? 0 : i];
    Script s = i % every == every - 1 || i == n - 1 ? S[1 + i % 6] : S[0];
    if (kind == 0 && i) { l[0].push_back(s); }                                     // one word
    else if (kind == 3) { l.push_back({ S[0], S[1 + i % 6] }); l.push_back({ s }); }  // lines of two words
    else { l.push_back({ s }); }
  }
  checkScripts(r, 10, lines, where);
}
static mc::Register r8b({ "P08", "large", "a case is a word, line, segment or document of up to 600 glyphs", largeScripts, nullptr });
static mc::Register r8({ "P08", "lines", "a case is a set of lines with glyphs of all sizes and base lines around the tolerances", subsuper, nullptr });

// ------------------------------------------------------------------------------------------------
// P31: parent and sibling lines, and the trim box of a segment.
struct HL { double x, y, w; int seg, rot; };
static void checkHierarchy(mc::Report& r, const std::vector<HL>& ls, bool shift) {
  int n = ls.size();
  Doc doc;
  doc.d->avgCharWidth = CW;
  PdfPage* pg = doc.page();
  double dx = shift ? 250 : 0, dy = shift ? 333 : 0;
  std::vector<PdfElement*> es;
  std::stringstream d;
  for (int i = 0; i < n; i++) {
    auto& l = ls[i];
    auto* w = doc.word(pg, "w", l.x + dx, l.y + dy, l.x + dx + l.w, l.y + dy + 10);
    glyphs(&doc, w, { { 10, l.y + 8 } });
    es.push_back(w);
    d << "[x" << l.x << " y" << l.y << " seg" << l.seg << "] ";
    if (i + 1 == n || ls[i + 1].seg != l.seg) { segment(&doc, pg, es); es.clear(); }
  }
  r.desc(d.str());
  ppp::modules::TextLinesDetection(doc.d.get(), &conf().textLinesDetection).process();
  r.step();
  std::vector<const PdfTextLine*> got;
  for (auto* s : pg->segments) { for (auto* l : s->lines) { got.push_back(l); } }
  if (!r.eq(got.size(), static_cast<size_t>(n), "count", "number of lines")) { return; }
  // Reference: the open lines, from the outermost to the innermost.
  std::vector<int> parent(n, -1), prev(n, -1), next(n, -1), open;
  for (int i = 0; i < n; i++) {
    if (i) {
      double up = std::min(ls[i].y, ls[i - 1].y), lo = std::max(ls[i].y, ls[i - 1].y);
      if (std::fabs(lo - (up + 10)) > 10.1) { open.clear(); }
    }
    while (!open.empty() && ls[open.back()].x > ls[i].x + CW) { open.pop_back(); }
    if (open.empty()) { open.push_back(i); continue; }
    int t = open.back();
    if (ls[t].y >= ls[i].y - 0.1) { continue; }
    if (ls[t].x < ls[i].x - CW) { parent[i] = t; open.push_back(i); continue; }
    prev[i] = t; next[t] = i; parent[i] = parent[t];
    open.back() = i;
  }
  auto idx = [&](const PdfTextLine* l) { return l ? static_cast<int>(std::find(got.begin(), got.end(), l) - got.begin()) : -1; };
  std::string st;
  for (int i = 0; i < n; i++) {
    std::string k = " of line " + std::to_string(i);
    r.eq(idx(got[i]->parentLine), parent[i], "parent", "parent line" + k);
    r.eq(idx(got[i]->prevSiblingLine), prev[i], "prevsibling", "previous sibling line" + k);
    r.eq(idx(got[i]->nextSiblingLine), next[i], "nextsibling", "next sibling line" + k);
    st += std::to_string(parent[i]) + "," + std::to_string(prev[i]) + "," + std::to_string(next[i]) + ";";
  }
  r.state(st);
}
static void hierarchy(mc::Chooser& c, mc::Report& r) {
  int n = c.range(2, mc::tier(5, 6));
  std::vector<HL> ls;
  double y = 100;
  int seg = 0;
  for (int i = 0; i < n; i++) {
    static const std::vector<double> X = { 100, 108, 116, 103, 92 };
    double x = X[i == 0 ? c.choose(2) : c.choose(n <= 4 ? 5 : 3)];
    int k = i ? c.choose(n <= 4 ? 6 : 3) : 0;  // line distance: usual, large, larger; new segment (below, next column, far below)
    if (k == 1) { y += 7.75; }
    if (k == 2) { y += 8.5; }
    if (k >= 3) { seg++; }
    if (k == 4) { y = 100; }
    if (k == 5) { y += 30; }
    ls.push_back({ x, y, 200, seg, 0 });
    y += 12;
  }
  bool shift = c.flag();  // the same elsewhere on the page
  if (!c.owns()) { return; }
  checkHierarchy(r, ls, shift);
}
static void deepHierarchy(mc::Chooser& c, mc::Report& r) {
  // Indents down to some depth, back to some level, and again.
  int depth = c.range(1, 12), back = c.range(0, depth), again = c.range(0, 3), run = c.of(std::vector<int>{ 1, 2, 30 }), cut = c.choose(4);
  if (!c.owns()) { return; }
  std::vector<HL> ls;
  double y = 100;
  int seg = 0;
  auto add = [&](int level) { ls.push_back({ 50 + 12.0 * level, y, 200, seg, 0 }); y += 12; };
  for (int i = 0; i < depth; i++) { for (int k = 0; k < run; k++) { add(i); } }
  if (cut == 1) { y += 30; }
  if (cut == 2) { seg++; }
  if (cut == 3) { seg++; y = 100; }
  for (int k = 0; k < run; k++) { add(back); }
  for (int i = 1; i <= again; i++) { add(back + i); }
  add(std::max(0, back - 1));
  add(0);
  checkHierarchy(r, ls, false);
}
static mc::Register r31c({ "P31", "deep", "a case is a sequence of lines with indents down to a level of up to 12 and back", deepHierarchy, nullptr });
static void trim(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, 5);
  std::vector<double> right;
  for (int i = 0; i < n; i++) { right.push_back(c.of(std::vector<double>{ 300, 300.25, 310, 280, 299.75 })); }
  double extra = c.flag() ? 20 : 0;
  if (!c.owns()) { return; }
  Doc doc;
  doc.d->avgCharWidth = CW;
  PdfPage* pg = doc.page();
  std::vector<PdfElement*> es;
  std::vector<double> rounded;
  std::string d;
  for (int i = 0; i < n; i++) {
    auto* w = doc.word(pg, "w", 100, 100 + 20 * i, right[i], 110 + 20 * i);
    glyphs(&doc, w, { { 10, 100 } });
    es.push_back(w);
    rounded.push_back(std::round(right[i]));
    d += std::to_string(right[i]) + " ";
  }
  auto* s = segment(&doc, pg, es);
  s->pos->rightX += extra;
  Box b = boxOf(s);
  r.desc("right ends " + d);
  ppp::modules::TextLinesDetection(doc.d.get(), &conf().textLinesDetection).process();
  r.step();
  std::set<double> ok;
  for (double m : modes(rounded)) {
    bool often = std::count(rounded.begin(), rounded.end(), m) * 2 >= n;
    ok.insert(often ? m : b.x1);
  }
  r.check(ok.count(s->trimRightX), "right", [&] { return "right end of the trim box is " + std::to_string(s->trimRightX); });
  r.eq(s->trimLeftX, b.x0, "left", "left end of the trim box");
  r.eq(s->trimUpperY, b.y0, "upper", "upper end of the trim box");
  r.eq(s->trimLowerY, b.y1, "lower", "lower end of the trim box");
  r.state(d);
}
static mc::Register r31a({ "P31", "hierarchy", "a case is a sequence of lines with indents, distances, segments and columns", hierarchy, nullptr });
static mc::Register r31b({ "P31", "trimbox", "a case is a segment with lines of various right ends", trim, nullptr });

// ------------------------------------------------------------------------------------------------
// P19: line distances.
struct LS { double y, h, fs; int rot, wm, seg, page; };
static void checkLineStats(mc::Report& r, const std::vector<LS>& ls) {
  int n = ls.size();
  Doc doc;
  doc.page();
  PdfPageSegment* s = nullptr;
  std::stringstream d;
  std::vector<double> all;
  std::map<double, std::vector<double>> per;
  for (int i = 0; i < n; i++) {
    auto& l = ls[i];
    while (static_cast<int>(doc.d->pages.size()) <= l.page) { doc.page(); }
    if (!i || ls[i - 1].seg != l.seg) { s = segment(&doc, doc.d->pages[l.page], {}); }
    // (the box of the line is larger than that of its glyphs of the usual size)
    auto* t = new PdfTextLine(l.page + 1, 100, l.y - 3, 200, l.y + l.h + 3, l.rot, l.wm);
    t->baseBBoxLeftX = 100; t->baseBBoxUpperY = l.y; t->baseBBoxRightX = 200; t->baseBBoxLowerY = l.y + l.h;
    t->fontSize = l.fs; t->maxFontSize = 20;
    s->lines.push_back(t);
    d << "y" << l.y << " fs" << l.fs << " rot" << l.rot << " wm" << l.wm << " seg" << l.seg << " p" << l.page << "; ";
    if (i && ls[i - 1].seg == l.seg && ls[i - 1].rot == l.rot && ls[i - 1].wm == l.wm) {
      double dist = std::max(0.0, std::round((l.y - ls[i - 1].y - 10) * 10) / 10);
      all.push_back(dist);
      if (std::fabs(ls[i - 1].fs - l.fs) <= 1) { per[l.fs].push_back(dist); }
    }
  }
  r.desc(d.str());
  PdfDocument* q = doc.d.get();
  ppp::modules::TextLinesStatisticsCalculation(q, &conf().textLinesStatisticsCalculation).process();
  r.step();
  auto in = [](double v, const std::vector<double>& x) { for (double m : modes(x)) { if (std::fabs(m - v) < 1e-6) { return true; } } return false; };
  r.check(all.empty() ? q->mostFreqLineDistance == 0 : in(q->mostFreqLineDistance, all), "linedistance", [&] { return "mostFreqLineDistance is " + std::to_string(q->mostFreqLineDistance); });
  r.eq(q->mostFreqLineDistancePerFontSize.size(), per.size(), "nsizes", "number of font sizes with a line distance");
  for (auto& p : per) {
    r.check(q->mostFreqLineDistancePerFontSize.count(p.first) && in(q->mostFreqLineDistancePerFontSize.at(p.first), p.second), "perfontsize",
        [&] { return "line distance of font size " + std::to_string(p.first); });
  }
  r.state(d.str());
}
static void lineStats(mc::Chooser& c, mc::Report& r) {
  int n = c.range(0, mc::tier(4, 5));
  std::vector<LS> ls;
  double y = 100;
  int seg = 0, page = 0;
  for (int i = 0; i < n; i++) {
    if (i) {
      y += c.of(std::vector<double>{ 12, 14.25, -5, 12.05 });
      int k = c.choose(n <= 3 ? 3 : 2);
      if (k) { seg++; }
      if (k == 2) { page++; }
    }
    double fs = c.of(std::vector<double>{ 10, 9.5, 14 });
    int a = c.choose(n <= 3 ? 3 : 2);
    if (n > 3 && a) { a = 2; }
    ls.push_back({ y, 10, fs, a == 1 ? 1 : 0, a == 2 ? 1 : 0, seg, page });
  }
  if (!c.owns()) { return; }
  checkLineStats(r, ls);
}
static void largeLineStats(mc::Chooser& c, mc::Report& r) {
  int n = c.of(std::vector<int>{ 20, 127, 257, 520, 2000 }), seg = c.of(std::vector<int>{ 2, 5, 10000 }), part = c.of(std::vector<int>{ 1, 2, 3 }), sizes = c.of(std::vector<int>{ 1, 2, 40 }), page = c.of(std::vector<int>{ 1, 3 });
  if (!c.owns()) { return; }
  std::vector<LS> ls;
  double y = 100;
  for (int i = 0; i < n; i++) {
    y += 12 + (i % 4 < part ? 1.5 : 0) + (i / 3 % sizes) * 0.25;
    ls.push_back({ y, 10, 10.0 + 2 * (i / 3 % sizes), 0, 0, i / seg, i / seg / page % 2 + i / seg / page / 2 * 2 });
  }
  checkLineStats(r, ls);
}
static mc::Register r19e({ "P19", "many_lines", "a case is a document with up to 2000 lines in segments, of up to 40 sizes", largeLineStats, nullptr });
static mc::Register r19({ "P19", "lines", "a case is a document with lines at critical distances, sizes and attributes", lineStats, nullptr });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
