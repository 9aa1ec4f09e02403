// P04 words, P05 diacritical marks, P30 stacked math symbols, P19 (glyph and word statistics).
#include <GlobalParams.h>
#include <utf8proc.h>
#include "DiacriticalMarksMerging.h"
#include "GlyphsStatisticsCalculation.h"
#include "WordsDetection.h"
#include "WordsStatisticsCalculation.h"
#include "doc.h"
using namespace syn;

static const Config& conf() { static Config c; return c; }

// ------------------------------------------------------------------------------------------------
// P04
struct G { std::string text; Box b; double fs; std::string fn; int rot, wm, page; bool merged = false; std::string withMark; };

struct RefWord { std::vector<int> glyphs; };
static std::vector<std::vector<RefWord>> refWords(const std::vector<G>& gs, int pages) {
  std::vector<std::vector<RefWord>> res(pages);
  for (int p = 0; p < pages; p++) {
    Box act; double fs = 0; int prev = -1;
    for (size_t i = 0; i < gs.size(); i++) {
      const G& g = gs[i];
      if (g.page != p || g.merged) { continue; }
      bool start = prev < 0;
      if (!start) {
        start = gs[prev].rot != g.rot || gs[prev].wm != g.wm;
        start = start || maxRatio(act.y0, act.y1, g.b.y0, g.b.y1) < 0.5 - 1e-4;
        double gap = std::max(act.x0, g.b.x0) - (act.x0 < g.b.x0 ? act.x1 : g.b.x1);
        if (act.x0 == g.b.x0) { gap = std::max(act.x0 - g.b.x1, act.x0 - act.x1); }
        start = start || gap > 0.15 * fs + 1e-4;
      }
      if (start) { res[p].push_back({}); act = Box(); fs = 0; }
      res[p].back().glyphs.push_back(i);
      act.add(g.b);
      fs = std::max(fs, g.fs);
      prev = i;
    }
  }
  return res;
}

// Where the elements are (also outside of the page).
static double away = 0;
static void elsewhere(mc::Chooser& c, mc::Report& r, void (*body)(mc::Chooser&, mc::Report&)) {
  away = c.of(std::vector<double>{ -2000, 3000 });
  body(c, r);
  away = 0;
}
static Box moved(const Box& b) { return { b.x0 + away, b.y0 + away, b.x1 + away, b.y1 + away }; }

static void checkWords(mc::Report& r, std::vector<G> gs, int pages) {
  for (G& g : gs) { g.b = moved(g.b); }
  Doc doc;
  for (int p = 0; p < pages; p++) { doc.page(); }
  std::vector<PdfCharacter*> cs;
  std::stringstream d;
  for (const G& g : gs) {
    cs.push_back(doc.ch(doc.d->pages[g.page], g.text, g.b.x0, g.b.y0, g.b.x1, g.b.y1, g.fs, g.fn, g.rot, g.wm));
    d << g.text << g.b << "fs" << g.fs << " " << g.fn << " rot" << g.rot << " wm" << g.wm << " p" << g.page << (g.merged ? " merged" : "") << "; ";
  }
  for (auto* pg : doc.d->pages) {  // glyphs of a figure form no words
    auto* f = new PdfFigure(pg->pageNum, 100, 250, 200, 320);
    for (int i = 0; i < 2; i++) {
      auto* q = doc.ch(pg, "F", 106 + 5 * i, 290, 111 + 5 * i, 300);
      pg->characters.pop_back();
      f->characters.push_back(q);
    }
    pg->figures.push_back(f);
  }
  for (size_t i = 0; i < gs.size(); i++) {
    if (gs[i].merged) { cs[i]->isDiacriticMarkOfBaseChar = cs[i - 1]; }
    if (!gs[i].withMark.empty()) { cs[i]->isBaseCharOfDiacriticMark = cs[i + 1]; cs[i]->textWithDiacriticMark = gs[i].withMark; }
  }
  r.desc(d.str());
  ppp::modules::WordsDetection(doc.d.get(), &conf().wordsDetection).process();
  r.step(gs.size());
  auto ref = refWords(gs, pages);
  std::string st;
  for (int p = 0; p < pages; p++) {
    PdfPage* pg = doc.d->pages[p];
    std::string got, exp;
    for (auto* w : pg->words) {
      for (auto* c : w->characters) { got += std::to_string(std::find(cs.begin(), cs.end(), c) - cs.begin()) + ","; }
      got += "|";
    }
    for (auto& w : ref[p]) { for (int i : w.glyphs) { exp += std::to_string(i) + ","; } exp += "|"; }
    st += exp + "/";
    if (!r.eq(got, exp, "split", "glyphs of the words on page " + std::to_string(p + 1))) { continue; }
    for (size_t i = 0; i < pg->words.size(); i++) {
      PdfWord* w = pg->words[i];
      Box b; std::string text; std::vector<double> fs; std::vector<std::string> fn;
      for (int k : ref[p][i].glyphs) {
        b.add(gs[k].b); text += gs[k].withMark.empty() ? gs[k].text : gs[k].withMark;
        fs.push_back(gs[k].fs); fn.push_back(gs[k].fn);
        r.check(cs[k]->word == w, "charword", "the glyph does not refer to its word");
      }
      r.eq(w->text, text, "text", "text of word");
      r.eq(boxOf(w), b, "box", "box of word");
      r.check(modes(fs).count(w->fontSize), "fontsize", "font size of the word is not the most frequent one");
      r.check(modes(fn).count(w->fontName), "font", "font of the word is not the most frequent one");
      const G& f = gs[ref[p][i].glyphs[0]];
      r.eq(w->pos->rotation, f.rot, "rotation", "rotation of the word");
      r.eq(w->pos->wMode, f.wm, "wmode", "writing mode of the word");
      r.eq(w->rank, static_cast<int>(i), "rank", "rank of the word");
      r.eq(static_cast<int>(w->pos->pageNum), p + 1, "page", "page of the word");
      r.check(w->doc == doc.d.get(), "doc", "the word does not refer to its document");
    }
  }
  r.state(st);
}

// All sequences of glyphs: each is placed relative to the word so far.
static void seqBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, mc::tier(4, 5));
  static const std::vector<double> DX = { 0.25, 1.25, 1.75, 2.75, 3.25, 20, -3, -40 };  // gap to the word so far
  static const std::vector<double> DY = { 0, 4, 6, -4, -6, 15 };
  std::vector<G> gs;
  Box act;
  for (int i = 0; i < n; i++) {
    int dx = 0, dy = 0, big = 0;
    if (i == 0) { big = c.choose(2); }
    else {
      // Every combination in the first two steps; afterwards one deviation per glyph.
      if (i <= mc::tier(2, 3)) { dx = c.choose(DX.size()); dy = c.choose(DY.size()); big = c.choose(3); }
      else { int k = c.choose(DX.size() + 4); if (k < static_cast<int>(DX.size())) { dx = k; } else { k -= DX.size() - 1; dy = k < 3 ? k : 0; big = k >= 3 ? k - 2 : 0; } }
    }
    double fs = std::vector<double>{ 10, 20, 6 }[big];
    double w = fs / 2, h = fs;
    double x = i ? act.x1 + DX[dx] : 100, base = i ? act.y1 + DY[dy] : 300;
    if (DX[dx] == -40) { x = act.x0 - w - 1.25; }  // to the left of the word
    G g{ std::string(1, 'a' + i), { x, base - h, x + w, base }, fs, fs == 10 ? "f" : (fs == 20 ? "g" : "h"), 0, 0, 0 };
    gs.push_back(g);
    act.add(g.b);
    if (i && (dy == 5 || dx == 5)) { act = g.b; }
  }
  // All glyphs of the same rotation and writing mode: the gaps are those along the page's axes.
  int rot = n <= 3 ? c.choose(4) : 0, wm = n <= 3 ? c.choose(2) : 0;
  for (auto& g : gs) { g.rot = rot; g.wm = wm; }
  if (!c.owns()) { return; }
  checkWords(r, gs, 1);
}

// Rotations, writing modes, page breaks and merged marks between glyphs that would form one word.
static void attrBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, 4);
  std::vector<G> gs;
  int page = 0;
  bool marked = false;
  for (int i = 0; i < n; i++) {
    int rot = c.choose(i < 2 ? 4 : 2), wm = c.choose(i == 3 ? 1 : 2);
    if (i && page < 2) { page += c.choose(2); }
    int fn = i & 1;
    double x = 100 + 5 * i;
    G g{ std::string(1, 'a' + i), { x, 290, x + 5, 300 }, 10, fn ? "g" : "f", rot, wm, page };
    gs.push_back(g);
  }
  int m = c.choose(n + 1);  // glyph m - 1 has a mark after it that was merged with it
  marked = m > 0;
  if (!c.owns()) { return; }
  if (marked) {
    G k = gs[m - 1];
    k.text = "\xC2\xB4"; k.merged = true; k.fs = 30; k.fn = "x"; k.b.y0 -= 40;
    gs[m - 1].withMark = "\xC3\xA1";
    gs.insert(gs.begin() + m, k);
  }
  checkWords(r, gs, page + 1);
}

// The word's font and size: all multisets.
static void fontBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, 5);
  std::vector<G> gs;
  for (int i = 0; i < n; i++) {
    double fs = c.of(std::vector<double>{ 10, 9.5, 11 });
    std::string fn = c.of(std::vector<std::string>{ "f", "g", "h" });
    double x = 100 + 5 * i;
    gs.push_back({ std::string(1, 'a' + i), { x, 290, x + 5, 300 }, fs, fn, 0, 0, 0 });
  }
  if (!c.owns()) { return; }
  checkWords(r, gs, 1);
}
// Words at the end of a page and at the beginning of the next one: neither is measured with the other.
static void pagesBody(mc::Chooser& c, mc::Report& r) {
  static const std::vector<double> GAP = { 1.25, 1.75, 4.25, 4.75 }, FSZ = { 10, 30 };
  int pages = c.range(2, 3);
  std::vector<G> gs;
  for (int p = 0; p < pages; p++) {
    int n = c.range(p == 1 && pages == 3 ? 0 : 1, 2);
    double x = 100 + 30 * c.choose(p == 0 ? 1 : 3), y = 300 + 8 * c.choose(p == 0 ? 1 : 2);
    for (int i = 0; i < n; i++) {
      double fs = c.of(FSZ);
      if (i) { x += c.of(GAP); }
      gs.push_back({ std::string(1, 'a' + gs.size()), { x, y - 10, x + 5, y }, fs, fs > 20 ? "g" : "f", 0, 0, p });
      x += 5;
    }
  }
  if (!c.owns()) { return; }
  checkWords(r, gs, pages);
}
static mc::Register r4e({ "P04", "pages", "a case is a sequence of pages with up to two glyphs each, of all sizes and gaps", pagesBody, nullptr });
// Many glyphs, words and pages.
static const std::vector<int>& sizes() { static const std::vector<int> v{ 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000, 1023, 1025 }; return v; }
static void largeWords(mc::Chooser& c, mc::Report& r) {
  int n = c.of(sizes()), kind = c.choose(5), special = c.choose(4);
  if (!c.owns()) { return; }
  std::vector<G> gs;
  int at = special == 1 ? n - 1 : special == 2 ? n / 2 : 1;  // where the sequence is interrupted
  for (int i = 0; i < n; i++) {
    double x = 100, y = 300;
    int page = 0;
    switch (kind) {
      case 0: x += 5 * i; break;                                            // one word
      case 1: x += 10 * (i % 50); y += 20 * (i / 50); break;                // words of one glyph
      case 2: x += 5 * (i % 60) + 3 * (i % 60 / 7); y += 20 * (i / 60); break;  // words of seven glyphs
      case 3: page = i / 2; x += 5 * (i % 2); break;                        // a page per word
      default: x += 5 * (i % 40); y += i / 40 * 5; break;                   // lines that overlap
    }
    G g{ std::string(1, 'a' + i % 26), { x, y - 10, x + 5, y }, 10, "f", 0, 0, page };
    if (special && i == at) {
      if (special == 1) { g.fs = 30; }
      if (special == 2) { g.rot = 2; }
      if (special == 3) { g.text = "\xF0\x9D\x92\x9C\x66\x69"; g.fn = "g"; }
    }
    if (special == 3 && 2 * i > n) { g.fs = 11; g.fn = "h"; }
    gs.push_back(g);
  }
  checkWords(r, gs, gs.back().page + 1);
}
static mc::Register r4f({ "P04", "elsewhere", "a case is a sequence of pages as in space pages, far to the left and above or to the right and below of the page", [](mc::Chooser& c, mc::Report& r) { elsewhere(c, r, pagesBody); }, nullptr });
static mc::Register r4d({ "P04", "large", "a case is a document of up to 1025 glyphs: one word, many words, many pages", largeWords, nullptr });
static mc::Register r4a({ "P04", "sequences", "a case is a sequence of glyphs, each placed at a critical gap and height next to the word so far", seqBody, nullptr });
static mc::Register r4b({ "P04", "attributes", "a case is a sequence of adjacent glyphs with all rotations, writing modes, page breaks and merged accents", attrBody, nullptr });
static mc::Register r4c({ "P04", "fonts", "a case is a sequence of adjacent glyphs with all fonts and sizes", fontBody, nullptr });

// ------------------------------------------------------------------------------------------------
// P05
static std::string nfc(const std::vector<unsigned int>& us) {
  std::string s;
  for (auto u : us) { s += utf8(u); }
  utf8proc_uint8_t* o = utf8proc_NFC(reinterpret_cast<const utf8proc_uint8_t*>(s.c_str()));
  std::string t = o ? reinterpret_cast<char*>(o) : s;
  free(o);
  return t;
}

struct D { std::vector<unsigned int> u; unsigned int comb; Box b; };  // comb: 0 if it is no mark

static void checkMarks(mc::Report& r, std::vector<std::vector<D>> pages) {
  Doc doc;
  std::stringstream d;
  std::vector<std::vector<PdfCharacter*>> cs(pages.size());
  for (size_t p = 0; p < pages.size(); p++) {
    PdfPage* pg = doc.page();
    for (auto& g : pages[p]) {
      std::string t;
      for (auto u : g.u) { t += utf8(u); }
      auto* c = doc.ch(pg, t, g.b.x0, g.b.y0, g.b.x1, g.b.y1);
      c->unicodes = g.u;
      cs[p].push_back(c);
      d << t << g.b << " ";
    }
    d << "/ ";
  }
  r.desc(d.str());
  // Reference, by the definition.
  std::vector<std::vector<int>> baseOf(pages.size());
  std::vector<std::vector<std::vector<unsigned int>>> full(pages.size());
  std::vector<std::vector<Box>> boxes(pages.size());
  std::vector<std::vector<bool>> isBase(pages.size());
  for (size_t p = 0; p < pages.size(); p++) {
    auto& gs = pages[p];
    int n = gs.size();
    baseOf[p].assign(n, -1);
    isBase[p].assign(n, false);
    for (auto& g : gs) { full[p].push_back(g.u); boxes[p].push_back(g.b); }
    auto ratio = [&](int i, int j) { return maxRatio(boxes[p][i].x0, boxes[p][i].x1, boxes[p][j].x0, boxes[p][j].x1); };
    for (int i = 0; i < n; i++) {
      if (!gs[i].comb) { continue; }
      auto skip = [&](int j) { return gs[j].comb && ratio(i, j) > 0; };
      int a = i - 1, b = i + 1;
      while (a >= 0 && skip(a)) { a--; }
      while (b < n && skip(b)) { b++; }
      double ra = a >= 0 ? ratio(i, a) : 0, rb = b < n ? ratio(i, b) : 0;
      if (ra == 0 && rb == 0) { continue; }
      int k = ra > rb + 1e-4 ? a : b;
      baseOf[p][i] = k;
      isBase[p][k] = true;
      full[p][k].push_back(gs[i].comb);
      boxes[p][k].add(boxes[p][i]);
    }
  }
  ppp::modules::DiacriticalMarksMerging(doc.d.get(), &conf().diacriticalMarksMerging).process();
  ppp::modules::WordsDetection(doc.d.get(), &conf().wordsDetection).process();
  r.step();
  std::string st;
  for (size_t p = 0; p < pages.size(); p++) {
    std::string exp, got;
    for (size_t i = 0; i < cs[p].size(); i++) {
      int k = baseOf[p][i];
      st += std::to_string(k) + ",";
      auto* c = cs[p][i];
      std::string g = "glyph " + std::to_string(i);
      r.check(c->isDiacriticMarkOfBaseChar == (k >= 0 ? cs[p][k] : nullptr), k >= 0 ? "base" : "nobase", [&] { return g + ": base character is wrong"; });
      r.eq(c->isBaseCharOfDiacriticMark != nullptr, static_cast<bool>(isBase[p][i]), "isbase", g + " is a base character");
      if (isBase[p][i]) {
        r.eq(c->textWithDiacriticMark, nfc(full[p][i]), "composed", g + ": composed text");
        r.eq(boxOf(c), boxes[p][i], "box", g + ": box of the base character");
      } else if (k < 0) {
        r.eq(boxOf(c), pages[p][i].b, "otherbox", g + ": box of another glyph");
      }
      if (k < 0) { exp += isBase[p][i] ? nfc(full[p][i]) : c->text; }
    }
    for (auto* w : doc.d->pages[p]->words) { got += w->text; }
    r.eq(got, exp, "words", "text of the words of the page");
  }
  r.state(st);
}

// Letters stand in slots of 6pt; marks are placed relative to the slots.
static void marksBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, mc::tier(4, 5));
  struct K { std::vector<unsigned int> u; unsigned int comb; };
  static const std::vector<K> kinds = { { { 'a' }, 0 }, { { 0x0301 }, 0x0301 }, { { 0x00A8 }, 0x0308 }, { { 'f', 'i' }, 0 }, { { 0x0327 }, 0x0327 } };
  // Offsets of a mark of width 4 from the start of the next free slot (letters are 6 wide).
  static const std::vector<double> off = { -5, 1, -3, -1, 7, -12 };
  std::vector<D> gs;
  double x = 100;
  for (int i = 0; i < n; i++) {
    const K& k = kinds[c.choose(i < 4 ? 5 : 3)];
    if (k.comb) {
      double o = off[c.choose(i < 3 ? 6 : 4)];
      double y = k.comb == 0x0327 ? 301 : 284;
      gs.push_back({ k.u, k.comb, { x + o, y, x + o + 4, y + 4 } });
    } else {
      gs.push_back({ k.u, 0, { x, 290, x + 6, 300 } });
      x += 6;
    }
  }
  int split = c.choose(n > 1 && n < 4 ? n : 1);  // a page break before this glyph
  if (!c.owns()) { return; }
  std::vector<std::vector<D>> pages(1);
  for (int i = 0; i < n; i++) {
    if (split && i == split) { pages.emplace_back(); }
    pages.back().push_back(gs[i]);
  }
  checkMarks(r, pages);
}

// Marks and other glyphs of all kinds at the limits of the definition.
static void markKinds(mc::Chooser& c, mc::Report& r) {
  struct K { std::vector<unsigned int> u; unsigned int comb; };
  static const std::vector<K> kinds = { { { 'a' }, 0 }, { { 0x0301 }, 0x0301 }, { { 0x02B0 }, 0x02B0 }, { { 0x02FF }, 0x02FF }, { { 0x036F }, 0x036F }, { { 0x0300 }, 0x0300 }, { { '^' }, 0x302 },
    { { 0x0301, 'a' }, 0 }, { { 0x0301, 0x0302 }, 0 }, { { 0x2D8 }, 0x2D8 }, { { 0x370 }, 0 }, { { 0x2AF }, 0 }, { { 0x5D0, 0x5B0 }, 0 }, { {}, 0 } };
  static const std::vector<double> off = { 1, -5, -2 };
  int n = c.range(1, mc::tier(3, 4));
  std::vector<D> gs;
  double x = 100;
  for (int i = 0; i < n; i++) {
    const K& k = kinds[c.choose(14)];
    if (k.comb || c.flag()) {
      double o = off[c.choose(n < 4 ? 3 : 2)];
      gs.push_back({ k.u, k.comb, { x + o, 284, x + o + 4, 288 } });
    } else {
      gs.push_back({ k.u, 0, { x, 290, x + 6, 300 } });
      x += 6;
    }
  }
  if (!c.owns()) { return; }
  checkMarks(r, { gs });
}

// All base letters x all documented marks (combining range and the spacing equivalents).
static const std::map<unsigned int, unsigned int>& spacing() {
  // The spacing diacritics and their combining equivalents, from the Unicode character names.
  static const std::map<unsigned int, unsigned int> m = {
    { 0x22, 0x30B }, { 0x27, 0x301 }, { 0x5E, 0x302 }, { 0x5F, 0x332 }, { 0x60, 0x300 }, { 0x7E, 0x303 },
    { 0xA8, 0x308 }, { 0xAF, 0x304 }, { 0xB0, 0x30A }, { 0xB4, 0x301 }, { 0xB8, 0x327 },
    { 0x2B2, 0x321 }, { 0x2B7, 0x32B }, { 0x2B9, 0x301 }, { 0x2CC, 0x329 }, { 0x2BA, 0x30B }, { 0x2BB, 0x312 },
    { 0x2BC, 0x313 }, { 0x2BD, 0x314 }, { 0x2C6, 0x302 }, { 0x2C7, 0x30C }, { 0x2C8, 0x30D }, { 0x2C9, 0x304 },
    { 0x2CA, 0x301 }, { 0x2CB, 0x300 }, { 0x2CD, 0x331 }, { 0x2D4, 0x31D }, { 0x2D5, 0x31E }, { 0x2D6, 0x31F },
    { 0x2D7, 0x320 }, { 0x2DA, 0x30A }, { 0x2DC, 0x303 }, { 0x2DD, 0x30B }, { 0x384, 0x301 }, { 0x485, 0x314 },
    { 0x486, 0x313 }, { 0x559, 0x314 }, { 0x55A, 0x313 }, { 0x204E, 0x359 } };
  return m;
}
static void allMarksBody(mc::Chooser& c, mc::Report& r) {
  // Every code point up to 0x52F plus a few beyond, as the middle glyph over the first or last one.
  int u = c.range(0x21, mc::tier(0x600, 0x2200));
  if (u == 0x601 - 1) { u = 0x204E; }
  unsigned int base = c.of(std::vector<unsigned int>{ 'a', 'i', 'C', 0x3B1, 0xE4 });
  bool before = c.flag();
  if (!c.owns()) { return; }
  unsigned int comb = 0;
  if (spacing().count(u)) { comb = spacing().at(u); } else if (u >= 0x2B0 && u <= 0x36F) { comb = u; }
  std::vector<D> gs;
  D m{ { static_cast<unsigned>(u) }, comb, { 101, 284, 105, 288 } };
  if (before) { gs.push_back(m); }
  gs.push_back({ { base }, 0, { 100, 290, 106, 300 } });
  if (!before) { gs.push_back(m); }
  gs.push_back({ { 'x' }, 0, { 106, 290, 112, 300 } });
  checkMarks(r, { gs });
}
static void poppler() { static bool b = false; if (!b) { b = true; globalParams = std::make_unique<GlobalParams>(); } }
static void largeMarks(mc::Chooser& c, mc::Report& r) {
  int n = c.of(sizes()), kind = c.choose(5);
  bool before = c.flag();
  if (!c.owns()) { return; }
  if (kind == 3 && n > 40) { n = 40; }
  std::vector<std::vector<D>> pages(1);
  for (int i = 0; i < n; i++) {
    double x = 100 + 6 * i;
    D l{ { static_cast<unsigned>('a' + i % 26) }, 0, { x, 290, x + 6, 300 } }, m{ { 0xA8 }, 0x308, { x + 1, 284, x + 5, 288 } };
    bool marked = kind == 0 || kind == 4 || (kind == 1 && i == n - 1) || (kind == 2 && i == n / 2);
    if (kind == 3) {  // one letter with many marks
      if (i == 0 && !before) { pages[0].push_back(l); }
      D q{ { static_cast<unsigned>(0x300 + i) }, static_cast<unsigned>(0x300 + i), { 101, 284, 105, 288 } };
      pages[0].push_back(q);
      if (i == n - 1 && before) { l.b = { 100, 290, 106, 300 }; pages[0].push_back(l); }
      continue;
    }
    if (kind == 4 && i) { pages.emplace_back(); }
    if (marked && before) { pages.back().push_back(m); }
    pages.back().push_back(l);
    if (marked && !before) { pages.back().push_back(m); }
  }
  checkMarks(r, pages);
}
static mc::Register r5c({ "P05", "large", "a case is a document of up to 1025 letters with accents: many pages, many accents, one letter with many", largeMarks, poppler });
static mc::Register r5d({ "P05", "kinds", "a case is a sequence of glyphs at the limits of what an accent is, over or beside each other", markKinds, poppler });
static mc::Register r5a({ "P05", "sequences", "a case is a sequence of letters, ligatures and accents with every overlap pattern", marksBody, poppler });
static mc::Register r5b({ "P05", "all_marks", "a case is a code point drawn over a base letter", allMarksBody, poppler });

// ------------------------------------------------------------------------------------------------
// P30
struct K { const char *text, *name; bool op; const char *pre = "", *post = ""; };  // (pre, post: further glyphs of the word)
static const std::vector<K> kinds = { { "x", "x", false }, { "\xE2\x88\x91", "x", true }, { "lim", "", true }, { "?", "integraldisplay", true },
      { "\xE2\x88\x8F", "x", true }, { "\xE2\x88\xAB", "x", true }, { "\xE2\x8A\x97", "x", true }, { "sup", "", true }, { "?", "summationdisplay", true },
      { "?", "productdisplay", true }, { "?", "circlemultiplydisplay", true }, { "limx", "", false },
      { "\xE2\x88\x91", "x", true, "(" }, { "?", "integraldisplay", true, "a", "b" }, { "\xE2\x88\xAB", "x", true, "", "f" }, { "y", "y", false, "a", "b" } };
static const std::vector<std::pair<double, double>> XR = { { 100, 120 }, { 104, 112 }, { 112, 132 }, { 108, 128 }, { 113, 200 }, { 90, 107 } };
static const std::vector<double> FS = { 10, 6, 9.5, 14 };
struct SW { int k, x, fs; };
static void checkStacked(mc::Report& r, const std::vector<SW>& ws) {
  int n = ws.size();
  Doc doc;
  PdfPage* pg = doc.page();
  std::stringstream d;
  for (int i = 0; i < n; i++) {
    const K& k = kinds[ws[i].k];
    auto x = XR[ws[i].x];
    double y = 100 + 40.0 * i;
    std::string t = k.text;
    d << k.pre << t << k.post << "(" << k.name << ")[" << x.first << "," << x.second << "]fs" << FS[ws[i].fs] << " ";
    if (t.size() > 3 || t == "lim" || t == "sup") {  // one glyph per letter
      double w = (x.second - x.first) / t.size();
      for (size_t j = 0; j < t.size(); j++) { doc.ch(pg, t.substr(j, 1), x.first + j * w, y, x.first + (j + 1) * w, y + 10, FS[ws[i].fs]); }
    } else {
      std::vector<std::string> parts;
      if (*k.pre) { parts.push_back(k.pre); }
      parts.push_back(t);
      if (*k.post) { parts.push_back(k.post); }
      double w = (x.second - x.first) / parts.size();
      for (size_t j = 0; j < parts.size(); j++) {
        auto* ch = doc.ch(pg, parts[j], x.first + j * w, y, x.first + (j + 1) * w, y + 10, FS[ws[i].fs]);
        if (parts[j] == t) { ch->name = k.name; }
      }
    }
  }
  r.desc(d.str());
  // Reference.
  std::vector<int> part(n, -1);
  std::vector<std::vector<int>> of(n);
  for (int i = 0; i < n; i++) {
    if (!kinds[ws[i].k].op || part[i] >= 0) { continue; }
    auto take = [&](int j) {
      auto a = XR[ws[i].x], b = XR[ws[j].x];
      if (maxRatio(a.first, a.second, b.first, b.second) < 0.5 - 1e-6) { return false; }
      if (part[j] >= 0 || !of[j].empty()) { return false; }
      if (!(FS[ws[j].fs] < FS[ws[i].fs] - 1.0)) { return false; }
      part[j] = i;
      of[i].push_back(j);
      return true;
    };
    for (int j = i - 1; j >= 0 && take(j); j--) {}
    for (int j = i + 1; j < n && take(j); j++) {}
  }
  ppp::modules::WordsDetection(doc.d.get(), &conf().wordsDetection).process();
  r.step();
  if (!r.eq(pg->words.size(), static_cast<size_t>(n), "count", "number of words")) { return; }
  std::string st;
  for (int i = 0; i < n; i++) {
    PdfWord* w = pg->words[i];
    r.eq(w->text, std::string(kinds[ws[i].k].pre) + kinds[ws[i].k].text + kinds[ws[i].k].post, "text", "text of word");
    const PdfWord* b = part[i] >= 0 ? pg->words[part[i]] : nullptr;
    r.check(w->isPartOfStackedMathSymbol == b, b ? "part" : "nopart", [&] { return "word " + std::to_string(i) + ": operator it belongs to is wrong"; });
    std::set<int> got, exp(of[i].begin(), of[i].end());
    for (auto* q : w->isBaseOfStackedMathSymbol) { got.insert(std::find(pg->words.begin(), pg->words.end(), q) - pg->words.begin()); }
    r.check(got == exp && w->isBaseOfStackedMathSymbol.size() == exp.size(), "limits", [&] { return "word " + std::to_string(i) + ": limits are wrong"; });
    st += std::to_string(part[i]) + ",";
  }
  r.state(st);
}
static void stackedBody(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, mc::tier(4, 5));
  std::vector<SW> ws;
  int nk = n <= 2 ? 16 : 3, nx = n <= 3 ? 6 : 3, nf = n <= 3 ? 4 : 2;
  for (int i = 0; i < n; i++) { SW w; w.k = c.choose(nk); w.x = c.choose(nx); w.fs = c.choose(nf); ws.push_back(w); }
  if (!c.owns()) { return; }
  checkStacked(r, ws);
}
// Operators with many limits, and many operators.
static void largeStacked(mc::Chooser& c, mc::Report& r) {
  int n = c.of(sizes()), kind = c.choose(6), op = c.of(std::vector<int>{ 1, 2, 3 });
  if (!c.owns()) { return; }
  std::vector<SW> ws;
  for (int i = 0; i < n; i++) {
    bool isOp = kind == 0 ? i == 0 : kind == 1 ? i == n - 1 : kind == 2 ? i == n / 2 : kind == 3 ? i % 3 == 1 : kind == 4 ? i % 8 == 7 : i == 0 || i == n - 1;
    ws.push_back({ isOp ? op : 0, isOp ? 0 : i % 2, isOp ? 3 : kind == 4 && i % 8 == 3 ? 3 : 1 });
  }
  checkStacked(r, ws);
}
static mc::Register r30b({ "P30", "large", "a case is a stack of up to 1025 words with one or many operators", largeStacked, nullptr });
static mc::Register r30({ "P30", "operators", "a case is a sequence of words in a stack: operators and others, x-ranges and font sizes", stackedBody, nullptr });

// ------------------------------------------------------------------------------------------------
// P19: glyph and word statistics.
static void checkGlyphStats(mc::Report& r, Doc& doc, const std::vector<double>& fs, const std::vector<std::string>& fn, double w, double h, const std::string& desc) {
  int n = fs.size();
  for (auto* pg : doc.d->pages) {  // (glyphs of figures do not count)
    auto* f = new PdfFigure(pg->pageNum, 100, 250, 200, 320);
    for (int i = 0; i < 3; i++) {
      auto* x = doc.ch(pg, "F", 100, 100, 130, 170, 33, "figure");
      pg->characters.pop_back();
      f->characters.push_back(x);
    }
    pg->figures.push_back(f);
  }
  r.desc(desc);
  PdfDocument* q = doc.d.get();
  ppp::modules::GlyphsStatisticsCalculation(q, &conf().glyphsStatisticsCalculation).process();
  r.step();
  auto near = [](double a, double b) { return std::fabs(a - b) < 1e-6; };
  if (!n) {
    r.check(q->mostFreqFontSize == 0 && q->avgCharWidth == 0 && q->avgCharHeight == 0 && q->mostFreqFontName.empty(), "empty", "statistics of a document without glyphs");
  } else {
    r.check(modes(fs).count(q->mostFreqFontSize), "fontsize", [&] { return "mostFreqFontSize " + std::to_string(q->mostFreqFontSize); });
    r.check(modes(fn).count(q->mostFreqFontName), "font", [&] { return "mostFreqFontName " + q->mostFreqFontName; });
    r.check(near(q->avgCharWidth, w / n), "width", [&] { return "avgCharWidth " + std::to_string(q->avgCharWidth); });
    r.check(near(q->avgCharHeight, h / n), "height", [&] { return "avgCharHeight " + std::to_string(q->avgCharHeight); });
  }
  r.state(desc);
}

static void glyphStats(mc::Chooser& c, mc::Report& r) {
  int pages = c.range(1, 2);
  Doc doc;
  std::vector<double> fs; std::vector<std::string> fn;
  double w = 0, h = 0;
  int n = 0;
  std::stringstream d;
  for (int p = 0; p < pages; p++) {
    PdfPage* pg = doc.page();
    int k = c.range(0, pages == 1 ? mc::tier(3, 4) : 2);
    for (int i = 0; i < k; i++) {
      double f = c.of(std::vector<double>{ 10, 9.5, 12 });
      std::string m = c.of(std::vector<std::string>{ "f", "g" });
      auto sz = c.of(std::vector<std::pair<double, double>>{ { 5, 10 }, { 2.5, 12 }, { 0, 8 } });
      doc.ch(pg, "a", 100 + 20 * i, 100, 100 + 20 * i + sz.first, 100 + sz.second, f, m, i % 4);
      fs.push_back(f); fn.push_back(m); w += sz.first; h += sz.second; n++;
      d << "p" << p << " fs" << f << " " << m << " " << sz.first << "x" << sz.second << "; ";
    }
  }
  if (!c.owns()) { return; }
  checkGlyphStats(r, doc, fs, fn, w, h, d.str());
}
static void largeGlyphs(mc::Chooser& c, mc::Report& r) {
  int n = c.of(mc::thorough() ? std::vector<int>{ 100, 127, 255, 256, 257, 1000, 32767, 65535, 65537, 200000 } : std::vector<int>{ 100, 127, 255, 256, 257, 1000, 33000, 70000 });
  int kind = c.choose(3), part = c.of(std::vector<int>{ 1, 2, 3 });
  if (!c.owns()) { return; }
  Doc doc;
  std::vector<double> fs; std::vector<std::string> fn;
  double w = 0, h = 0;
  PdfPage* pg = doc.page();
  for (int i = 0; i < n; i++) {
    if (kind == 1 && i % 100 == 99) { pg = doc.page(); }
    if (kind == 2 && i == n / 2) { doc.page(); pg = doc.page(); }
    // `part` out of 4 glyphs are large, but the first and the last are not.
    bool big = i && i < n - 1 && i % 4 < part;
    double f = big ? 12 : 10, cw = big ? 7.5 : 5;
    std::string m = i % 5 < part ? "g" : "f";
    doc.ch(pg, "a", 100, 100, 100 + cw, 100 + f, f, m);
    fs.push_back(f); fn.push_back(m); w += cw; h += f;
  }
  checkGlyphStats(r, doc, fs, fn, w, h, std::to_string(n) + " glyphs, kind " + std::to_string(kind) + ", " + std::to_string(part) + " of 4 large");
}
struct SW2 { Box b; double fs; int rot, wm, page; };
static void checkWordStats(mc::Report& r, const std::vector<SW2>& ws) {
  typedef SW2 W;
  const double mf = 10;
  int pages = ws.empty() ? 1 : ws.back().page + 1;
  Doc doc;
  std::stringstream d;
  for (int p = 0; p < pages; p++) { doc.page(); }
  for (auto& w : ws) {
    doc.word(doc.d->pages[w.page], "w", w.b.x0, w.b.y0, w.b.x1, w.b.y1, w.fs, "f", w.rot, w.wm);
    d << "p" << w.page << w.b << "fs" << w.fs << "r" << w.rot << "m" << w.wm << "; ";
  }
  r.desc(d.str());
  PdfDocument* q = doc.d.get();
  q->mostFreqFontSize = mf;
  std::vector<double> hs, hg, vg;
  for (size_t i = 0; i < ws.size(); i++) {
    const W& w = ws[i];
    if (w.fs < mf - 1) { continue; }
    hs.push_back(w.b.y1 - w.b.y0);
    if (i == 0 || ws[i - 1].page != w.page) { continue; }
    const W& v = ws[i - 1];
    if (v.rot != w.rot || v.wm != w.wm || std::fabs(v.fs - mf) > 1) { continue; }
    double ratio = maxRatio(v.b.y0, v.b.y1, w.b.y0, w.b.y1);
    if (ratio >= 0.5) { hg.push_back(v.b.x0 < w.b.x0 ? w.b.x0 - v.b.x1 : v.b.x0 - w.b.x1); }
    if (ratio <= 0) { vg.push_back(v.b.y0 < w.b.y0 ? w.b.y0 - v.b.y1 : v.b.y0 - w.b.y1); }
  }
  ppp::modules::WordsStatisticsCalculation(q, &conf().wordsStatisticsCalculation).process();
  r.step();
  auto test = [&](double got, const std::vector<double>& v, const char* k) {
    bool ok = v.empty() ? got == 0 : false;
    for (double m : modes(v)) { ok = ok || std::fabs(m - got) < 1e-9; }
    r.check(ok, k, [&] { return std::string(k) + " is " + std::to_string(got); });
  };
  test(q->mostFreqWordHeight, hs, "mostFreqWordHeight");
  test(q->mostFreqWordDistance, hg, "mostFreqWordDistance");
  test(q->mostFreqEstimatedLineDistance, vg, "mostFreqEstimatedLineDistance");
  r.state(d.str());
}
static void wordStats(mc::Chooser& c, mc::Report& r) {
  int pages = c.range(1, 2);
  typedef SW2 W;
  std::vector<W> ws;
  int n = c.range(0, mc::tier(3, 4));
  Box prev{ 100, 100, 130, 110 };
  int cut = pages > 1 ? c.choose(n + 1) : n;
  for (int i = 0; i < n; i++) {
    static const std::vector<std::pair<double, double>> place = { { 3, 0 }, { 5, 4 }, { -60, 0 }, { 3, 6 }, { -30, 12 }, { -30, 14.5 }, { -10, -20 }, { 4, 10 } };
    auto pl = i == 0 ? place[0] : place[c.choose(n > 3 ? 5 : 8)];
    double fs = c.of(std::vector<double>{ 10, 9.25, 8, 13 });
    int attr = c.choose(n > 2 ? 2 : 3);
    double h = attr == 1 ? 12 : 10;
    double x = prev.x1 + pl.first, y = prev.y0 + pl.second;
    W w{ { x, y, x + 30, y + h }, fs, attr == 2 ? 1 : 0, 0, i >= cut ? 1 : 0 };
    if (n <= 2) { w.wm = c.choose(2); }
    ws.push_back(w);
    prev = w.b;
  }
  if (!c.owns()) { return; }
  checkWordStats(r, ws);
}
static void largeWordStats(mc::Chooser& c, mc::Report& r) {
  int n = c.of(std::vector<int>{ 50, 127, 200, 257, 520, 1000, 5000 }), row = c.of(std::vector<int>{ 1, 2, 9, 100 }), part = c.of(std::vector<int>{ 1, 2, 3 }), pages = c.of(std::vector<int>{ 1, 3 });
  if (!c.owns()) { return; }
  std::vector<SW2> ws;
  double x = 100, y = 100;
  for (int i = 0; i < n; i++) {
    // Rarer: greater distances (with probability part / 4), other heights and small words.
    bool rare = i % 4 < part;
    if (i % row == 0) { x = 100; y += 12 + (i / row % 4 < part ? 3 : 0); } else { x += 33 + (rare ? 2 : 0); }
    ws.push_back({ { x, y, x + 30, y + (i % 5 < part ? 11.5 : 10) }, i % 7 == 3 ? 8.0 : 10.0, 0, 0, i * pages / n });
  }
  checkWordStats(r, ws);
}
static mc::Register r19d({ "P19", "many_words", "a case is a document with up to 5000 words in rows with two distances each", largeWordStats, nullptr });
static mc::Register r19c({ "P19", "many_glyphs", "a case is a document with up to 70000 (thorough: 200000) glyphs of two sizes and fonts on one or many pages", largeGlyphs, nullptr });
static mc::Register r19a({ "P19", "glyphs", "a case is a document of up to two pages with glyphs of all fonts and sizes", glyphStats, nullptr });
static mc::Register r19b({ "P19", "words", "a case is a document with words at critical distances", wordStats, nullptr });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
