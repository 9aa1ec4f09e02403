// Reads back the marks (annotations) of a visualization, and computes the expected ones from the
// extracted document.
#ifndef VERIF_HARNESS_ANNOTS_H_
#define VERIF_HARNESS_ANNOTS_H_
#include <algorithm>
#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "poppler/Annot.h"
#include "poppler/Page.h"
#include "poppler/PDFDoc.h"
#include "poppler/PDFDocFactory.h"
#include "poppler/GlobalParams.h"
#include "poppler/Stream.h"
#include "Types.h"

namespace annots {
using namespace ppp::types;

// The page of a PDF: its description, its content and its marks.
struct Mark {
  std::string type, text;  // "Square", "Circle", "FreeText", "Line"
  double x1 = 0, y1 = 0, x2 = 0, y2 = 0;  // the box, or the ends of the line
  std::string str() const {
    char b[160];
    snprintf(b, sizeof b, "%s(%.2f %.2f %.2f %.2f)%s%s%s", type.c_str(), x1, y1, x2, y2, text.empty() ? "" : " '", text.c_str(), text.empty() ? "" : "'");
    return b;
  }
};
struct Page {
  std::string frame;    // boxes and rotation
  std::string content;  // all content streams
  std::vector<Mark> marks;
};
struct File { bool ok = false; std::vector<Page> pages; };

inline std::string utf16(const std::string& s) {
  if (s.size() < 2 || s[0] != '\xfe' || s[1] != '\xff') { return s; }
  std::string r;
  for (size_t i = 3; i < s.size(); i += 2) { r += s[i - 1] ? std::string("?") : std::string(1, s[i]); }
  return r;
}
inline double numAt(const Object& a, int i) { Object o = a.arrayGet(i); return o.isNum() ? o.getNum() : NAN; }

inline File read(const std::string& path) {
  File f;
  GooString p(path);
  std::unique_ptr<PDFDoc> d = PDFDocFactory().createPDFDoc(p);
  if (!d || !d->isOk()) { return f; }
  f.ok = true;
  for (int n = 1; n <= d->getNumPages(); n++) {
    Page g;
    ::Page* page = d->getPage(n);
    if (!page) { f.ok = false; return f; }
    const PDFRectangle* m = page->getMediaBox();
    char b[120];
    snprintf(b, sizeof b, "%.3f %.3f %.3f %.3f rotated %d", m->x1, m->y1, m->x2, m->y2, page->getRotate());
    g.frame = b;
    auto stream = [&](Object& o) {
      if (!o.isStream()) { g.content += "(no stream)"; return; }
      o.streamReset();
      int c;
      while ((c = o.streamGetChar()) != EOF) { g.content += static_cast<char>(c); }
      o.streamClose();
      g.content += '\n';
    };
    Object c = page->getContents();
    if (c.isArray()) { for (int i = 0; i < c.arrayGetLength(); i++) { Object s = c.arrayGet(i); stream(s); } } else { stream(c); }
    Object as = page->getAnnotsObject();
    for (int i = 0; as.isArray() && i < as.arrayGetLength(); i++) {
      Object o = as.arrayGet(i);
      Mark k;
      if (!o.isDict()) { k.type = "(none)"; g.marks.push_back(k); continue; }
      Object t = o.dictLookup("Subtype"), txt = o.dictLookup("Contents"), r = o.dictLookup("Rect"), l = o.dictLookup("L");
      k.type = t.isName() ? t.getName() : "(no type)";
      if (txt.isString()) { k.text = utf16(txt.getString()->toStr()); }
      const Object& q = k.type == "Line" && l.isArray() ? l : r;
      if (q.isArray()) { k.x1 = numAt(q, 0); k.y1 = numAt(q, 1); k.x2 = numAt(q, 2); k.y2 = numAt(q, 3); }
      g.marks.push_back(k);
    }
    f.pages.push_back(g);
  }
  return f;
}

// The requested marks.
enum Vis { CHARS, FIGURES, SHAPES, GRAPHICS, WORDS, LINES, BLOCKS, SEGMENTS, ORDER, SEGMENT_CUTS, ORDER_CUTS, NUM_VIS };
static const char* const OPTIONS[NUM_VIS] = { "characters", "figures", "shapes", "graphics", "words", "text-lines", "text-blocks", "segments", "reading-order", "segment-cuts", "reading-order-cuts" };

// The geometry of a page in its file.
struct Frame { double x0 = 0, y0 = 0, w = 200, h = 200; int rotate = 0; };
inline void toUser(const Frame& f, double dx, double dy, double* x, double* y) {
  switch (f.rotate) {
    case 0: *x = f.x0 + dx; *y = f.y0 + f.h - dy; break;
    case 90: *x = f.x0 + dy; *y = f.y0 + dx; break;
    case 180: *x = f.x0 + f.w - dx; *y = f.y0 + dy; break;
    default: *x = f.x0 + f.w - dy; *y = f.y0 + f.h - dx; break;
  }
}
// An expected mark. Boxes that are flat may be up to one point larger in that direction ("a minimum
// size"); the decorations of cuts and of the reading order only need to be at their element.
struct Expected {
  std::string type, text;
  double x1 = 0, y1 = 0, x2 = 0, y2 = 0;
  enum { BOX, AT, LINE } kind = BOX;
  bool matches(const Mark& m) const {
    auto near = [](double a, double b) { return std::fabs(a - b) <= 0.06; };
    if (m.type != type || (!text.empty() && m.text != text)) { return false; }
    if (kind == LINE) { return (near(m.x1, x1) && near(m.y1, y1) && near(m.x2, x2) && near(m.y2, y2)) || (near(m.x1, x2) && near(m.y1, y2) && near(m.x2, x1) && near(m.y2, y1)); }
    if (kind == AT) { return m.x1 <= x1 + 20.1 && x1 <= m.x2 + 20.1 && m.y1 <= y1 + 20.1 && y1 <= m.y2 + 20.1; }
    auto side = [&](double lo, double hi, double mlo, double mhi) {
      if (near(lo, mlo) && near(hi, mhi)) { return true; }
      return hi - lo < 1.02 && mlo <= lo + 0.06 && mhi >= hi - 0.06 && mhi - mlo <= hi - lo + 1.06;
    };
    return side(x1, x2, m.x1, m.x2) && side(y1, y2, m.y1, m.y2);
  }
  std::string str() const { Mark m{ type, text, x1, y1, x2, y2 }; return m.str(); }
};
inline Expected box(const Frame& f, const PdfElement* e, const std::string& type = "Square") {
  Expected r;
  r.type = type;
  toUser(f, e->pos->leftX, e->pos->upperY, &r.x1, &r.y1);
  toUser(f, e->pos->rightX, e->pos->lowerY, &r.x2, &r.y2);
  if (r.x1 > r.x2) { std::swap(r.x1, r.x2); }
  if (r.y1 > r.y2) { std::swap(r.y1, r.y2); }
  return r;
}
inline Expected at(const Frame& f, const std::string& type, const std::string& text, double dx, double dy) {
  Expected r;
  r.type = type; r.text = text; r.kind = Expected::AT;
  toUser(f, dx, dy, &r.x1, &r.y1);
  return r;
}
inline Expected line(const Frame& f, double ax, double ay, double bx, double by) {
  Expected r;
  r.type = "Line"; r.kind = Expected::LINE;
  toUser(f, ax, ay, &r.x1, &r.y1);
  toUser(f, bx, by, &r.x2, &r.y2);
  return r;
}
inline std::vector<Expected> expected(const PdfPage* p, const Frame& f, const std::vector<int>& requested) {
  static const std::vector<std::string> ROLES = { "paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract", "date", "caption", "table", "other", "toc" };
  std::vector<Expected> r;
  auto boxes = [&](auto& v) { for (auto* e : v) { r.push_back(box(f, e)); } };
  auto blocks = [&] {
    boxes(p->blocks);
    for (auto* b : p->blocks) { r.push_back(at(f, "FreeText", ROLES[static_cast<int>(b->role)], b->pos->leftX, b->pos->upperY)); }
  };
  auto cuts = [&](auto& v) {
    int chosen = 0;
    for (auto* c : v) {
      r.push_back(line(f, c->x1, c->y1, c->x2, c->y2));
      if (c->isChosen) {
        r.push_back(at(f, "Square", "", c->x1, c->y1));
        r.push_back(at(f, "FreeText", std::to_string(++chosen), c->x1, c->y1));
      }
      r.push_back(at(f, "FreeText", c->id, c->x2, c->y2));
    }
  };
  for (int v : requested) {
    switch (v) {
      case CHARS: boxes(p->characters); break;
      case FIGURES: boxes(p->figures); break;
      case SHAPES: boxes(p->shapes); break;
      case GRAPHICS: boxes(p->graphics); break;
      case WORDS: boxes(p->words); break;
      case LINES: for (auto* s : p->segments) { boxes(s->lines); } break;
      case BLOCKS: blocks(); break;
      case SEGMENTS: for (auto* s : p->segments) { r.push_back(box(f, s)); boxes(s->blocks); } break;
      case ORDER: {
        blocks();
        auto mx = [](const PdfElement* e) { return (e->pos->leftX + e->pos->rightX) / 2; };
        auto my = [](const PdfElement* e) { return (e->pos->upperY + e->pos->lowerY) / 2; };
        for (size_t i = 0; i < p->blocks.size() && p->blocks.size() > 1; i++) {
          auto* b = p->blocks[i];
          if (i) { auto* a = p->blocks[i - 1]; r.push_back(line(f, mx(a), my(a), mx(b), my(b))); }
          r.push_back(at(f, "Circle", "", mx(b), my(b)));
          r.push_back(at(f, "FreeText", std::to_string(i + 1), mx(b), my(b)));
        }
        break;
      }
      case SEGMENT_CUTS: cuts(p->blockDetectionCuts); break;
      default: cuts(p->readingOrderCuts); break;
    }
  }
  return r;
}
// A perfect matching between the expected marks and those that are there; returns "" or what is
// missing or too much.
inline std::string compare(const std::vector<Expected>& want, const std::vector<Mark>& got) {
  std::vector<int> of(got.size(), -1);
  std::string bad;
  for (size_t i = 0; i < want.size(); i++) {
    std::vector<char> seen(got.size(), 0);
    std::function<bool(size_t)> augment = [&](size_t w) {
      for (size_t j = 0; j < got.size(); j++) {
        if (seen[j] || !want[w].matches(got[j])) { continue; }
        seen[j] = 1;
        if (of[j] < 0 || augment(of[j])) { of[j] = w; return true; }
      }
      return false;
    };
    if (!augment(i) && bad.size() < 600) { bad += "missing: " + want[i].str() + "; "; }
  }
  for (size_t j = 0; j < got.size(); j++) { if (of[j] < 0 && bad.size() < 1200) { bad += "not requested: " + got[j].str() + "; "; } }
  return bad;
}
}  // namespace annots
#endif  // VERIF_HARNESS_ANNOTS_H_
