// Synthetic documents: glyphs, words, lines and blocks given by their geometry, for driving the
// layout modules of /repo directly (the geometry of real glyphs comes from PdfParsing, see pdf.cpp).
#ifndef VERIF_HARNESS_DOC_H_
#define VERIF_HARNESS_DOC_H_
#include <algorithm>
#include <cmath>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "Config.h"
#include "Types.h"
#include "mc.h"

namespace syn {
using namespace ppp::types;
using ppp::config::Config;

struct Box { double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
  void add(double a, double b, double c, double d) { x0 = std::min(x0, a); y0 = std::min(y0, b); x1 = std::max(x1, c); y1 = std::max(y1, d); }
  void add(const Box& b) { add(b.x0, b.y0, b.x1, b.y1); }
  bool operator==(const Box& b) const {
    auto e = [](double a, double c) { return std::fabs(a - c) < 1e-6; };
    return e(x0, b.x0) && e(y0, b.y0) && e(x1, b.x1) && e(y1, b.y1);
  }
  std::string str() const { std::stringstream s; s << "[" << x0 << "," << y0 << "," << x1 << "," << y1 << "]"; return s.str(); }
};
inline std::ostream& operator<<(std::ostream& o, const Box& b) { return o << b.str(); }
inline Box boxOf(const PdfElement* e) { return { e->pos->leftX, e->pos->upperY, e->pos->rightX, e->pos->lowerY }; }

inline std::string utf8(unsigned int u) {
  std::string s;
  if (u < 0x80) { s += static_cast<char>(u); }
  else if (u < 0x800) { s += static_cast<char>(0xC0 | u >> 6); s += static_cast<char>(0x80 | (u & 63)); }
  else if (u < 0x10000) { s += static_cast<char>(0xE0 | u >> 12); s += static_cast<char>(0x80 | ((u >> 6) & 63)); s += static_cast<char>(0x80 | (u & 63)); }
  else { s += static_cast<char>(0xF0 | u >> 18); s += static_cast<char>(0x80 | ((u >> 12) & 63)); s += static_cast<char>(0x80 | ((u >> 6) & 63)); s += static_cast<char>(0x80 | (u & 63)); }
  return s;
}

inline double overlap(double a0, double a1, double b0, double b1) { return std::max(0.0, std::min(a1, b1) - std::max(a0, b0)); }
// The greater of the fractions of the two intervals that the other one covers.
inline double maxRatio(double a0, double a1, double b0, double b1) {
  double o = overlap(a0, a1, b0, b1);
  double r = 0;
  if (a1 > a0) { r = std::max(r, o / (a1 - a0)); }
  if (b1 > b0) { r = std::max(r, o / (b1 - b0)); }
  return r;
}

// The most frequent values (all of them, if several are equally frequent).
template <typename T> std::set<T> modes(const std::vector<T>& v) {
  std::map<T, int> n;
  int best = 0;
  for (auto& x : v) { best = std::max(best, ++n[x]); }
  std::set<T> s;
  for (auto& p : n) { if (p.second == best) { s.insert(p.first); } }
  return s;
}

// A document under construction; the document owns its pages and they own their elements.
struct Doc {
  int nch = 0;
  std::unique_ptr<PdfDocument> d;
  int nextRank = 0;
  Doc() : d(new PdfDocument()) {}
  PdfPage* page(double w = 600, double h = 800) {
    PdfPage* p = new PdfPage();
    p->pageNum = d->pages.size() + 1;
    p->clipLeftX = 0; p->clipUpperY = 0; p->clipRightX = w; p->clipLowerY = h;
    d->pages.push_back(p);
    return p;
  }
  PdfFontInfo* font(const std::string& name, int weight = 400, bool italic = false) {
    auto& f = d->fontInfos[name];
    if (!f) { f = new PdfFontInfo(); f->fontName = name; f->normFontName = name; f->fontBaseName = name; f->weight = weight; f->isItalic = italic; }
    return f;
  }
  PdfCharacter* ch(PdfPage* p, const std::string& text, double x0, double y0, double x1, double y1,
      double fs = 10, const std::string& fn = "f", int rot = 0, int wMode = 0) {
    PdfCharacter* c = new PdfCharacter(p->pageNum, x0, y0, x1, y1, rot, wMode);
    c->id = "c" + std::to_string(++nch);
    c->text = text; c->name = text; c->fontSize = fs; c->fontName = fn; c->doc = d.get();
    c->rank = nextRank++; c->base = y1; c->color[0] = c->color[1] = c->color[2] = 0;
    p->characters.push_back(c);
    return c;
  }
  PdfWord* word(PdfPage* p, const std::string& text, double x0, double y0, double x1, double y1,
      double fs = 10, const std::string& fn = "f", int rot = 0, int wMode = 0) {
    PdfWord* w = new PdfWord(p->pageNum, x0, y0, x1, y1, rot, wMode);
    w->id = "w" + std::to_string(++nch);
    w->text = text; w->fontSize = fs; w->fontName = fn; w->doc = d.get(); w->rank = p->words.size();
    p->words.push_back(w);
    return w;
  }
};
}  // namespace syn

namespace syn {
// Gives a word one glyph per entry of `sizes` (font size, base line offset).
inline void glyphs(Doc* doc, PdfWord* w, const std::vector<std::pair<double, double>>& fsBase,
    const std::vector<std::string>& fonts = { "f" }) {
  size_t n = fsBase.size();
  double step = (w->pos->rightX - w->pos->leftX) / n;
  for (size_t i = 0; i < n; i++) {
    PdfPage* pg = doc->d->pages[w->pos->pageNum - 1];
    auto* c = doc->ch(pg, "a", w->pos->leftX + i * step, w->pos->upperY, w->pos->leftX + (i + 1) * step, w->pos->lowerY,
        fsBase[i].first, fonts[i % fonts.size()], w->pos->rotation, w->pos->wMode);
    c->base = fsBase[i].second;
    c->word = w;
    w->characters.push_back(c);
  }
}
inline PdfPageSegment* segment(Doc* doc, PdfPage* pg, const std::vector<PdfElement*>& es) {
  PdfPageSegment* s = new PdfPageSegment();
  s->id = "s" + std::to_string(++doc->nch);
  s->doc = doc->d.get();
  s->pos->pageNum = pg->pageNum;
  Box b;
  for (auto* e : es) { b.add(boxOf(e)); }
  s->pos->leftX = s->trimLeftX = b.x0; s->pos->upperY = s->trimUpperY = b.y0;
  s->pos->rightX = s->trimRightX = b.x1; s->pos->lowerY = s->trimLowerY = b.y1;
  s->elements = es;
  pg->segments.push_back(s);
  return s;
}
}  // namespace syn
#endif  // VERIF_HARNESS_DOC_H_
