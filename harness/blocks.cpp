// P09 text blocks, P31 features of lines and blocks.
#include <cctype>
#include "TextBlocksDetection.h"
#include "doc.h"
#include "utils/TextLinesDetectionUtils.h"
using namespace syn;

static const Config& conf() { static Config c; return c; }
static const double CW = 5;  // average glyph width

// ------------------------------------------------------------------------------------------------
// Input lines.
struct C { std::string text; bool super = false, sub = false; };
struct W { std::vector<C> chars; double width = 20.25, fs = 10; std::string font = "f";
  std::string text() const { std::string s; for (auto& c : chars) { s += c.text; } return s; } };
struct L {
  double x0 = 100, x1 = 400, y0 = 0, y1 = 0;
  int rot = 0, wm = 0;
  double fs = 10, maxfs = 10;
  std::string font = "f";
  std::vector<W> words;
  int seg = 0;
  // The hierarchy (given).
  int parent = -1, prevSib = -1, nextSib = -1;
  std::string text() const { std::string s; for (auto& w : words) { s += (s.empty() ? "" : " ") + w.text(); } return s; }
};
static W word(const std::string& t, double width = 20.25) {
  W w;
  for (size_t i = 0; i < t.size();) {
    size_t n = 1;
    while (i + n < t.size() && (static_cast<unsigned char>(t[i + n]) & 0xC0) == 0x80) { n++; }
    w.chars.push_back({ t.substr(i, n) });
    i += n;
  }
  w.width = width;
  return w;
}
static std::vector<W> words(const std::string& t, double width = 20.25) {
  std::vector<W> v;
  std::stringstream s(t);
  std::string x;
  while (s >> x) { v.push_back(word(x, width)); }
  return v;
}
struct In {
  std::vector<L> ls;
  std::vector<Box> figures;
  double lineDist = 3, wordHeight = 10, docFs = 10;
  std::map<double, double> perFs;
  std::string docFont = "f";
  std::map<std::string, std::pair<int, bool>> fonts = { { "f", { 400, false } } };
  bool hierarchy = false;  // have the hierarchy computed
  double segX0 = 1e9, segX1 = -1e9, trimX1 = -1;
};

// ------------------------------------------------------------------------------------------------
// The reference.
static bool lower(char c) { return c >= 'a' && c <= 'z'; }
static bool upper(char c) { return c >= 'A' && c <= 'Z'; }
static bool digit(char c) { return c >= '0' && c <= '9'; }

static bool roman(std::string s) {
  for (char& c : s) { c = toupper(c); }
  for (const char* x : { "", "X" }) { for (const char* y : { "IX", "IV", "", "I", "II", "III", "V", "VI", "VII", "VIII" }) { if (s == std::string(x) + y) { return true; } } }
  return false;
}
static bool itemLabel(const std::string& text) {
  size_t e = 0;
  while (e < text.size() && !isspace(static_cast<unsigned char>(text[e]))) { e++; }
  if (e == text.size()) { return false; }  // a blank must follow the label
  std::string l = text.substr(0, e);
  if (l == "-" || l == "+" || l == "\xE2\x80\xA2" || l == "\xE2\x80\x93") { return true; }
  if (l.empty()) { return false; }
  char a = l.front(), z = l.back();
  std::string core = l.substr(0, l.size() - 1);
  auto digits = [](const std::string& s, size_t from) { for (size_t i = from; i < s.size(); i++) { if (!digit(s[i])) { return false; } } return true; };
  if (z == '.' && (roman(core) || (core.size() == 1 && lower(core[0])) || (!core.empty() && digits(core, 0)))) { return true; }
  if (z == ')' && !core.empty() && core.size() <= 2 && isalnum(static_cast<unsigned char>(core[0])) && digits(core, 1)) { return true; }
  if (l.size() >= 2 && (a == '(' || a == '[') && (z == ')' || z == ']')) {
    std::string in = l.substr(1, l.size() - 2);
    if (a == '(' && z == ')' && roman(in)) { return true; }
    if (!in.empty() && in.size() <= 3 && isalnum(static_cast<unsigned char>(in[0])) && digits(in, 1)) { return true; }
    if (a == '[' && z == ']' && !in.empty() && in.size() <= 6 && upper(in[0]) && std::all_of(in.begin(), in.end(), [](char c) { return lower(c) || upper(c) || digit(c); })) { return true; }
  }
  std::string u = l;
  for (char& c : u) { c = toupper(c); }
  return u == "PACS";
}

struct RB { std::vector<int> lines; Box box, trim; bool centered = false; std::set<bool> emph; double hi = 0; std::string text; };

struct Ref {
  const In& in;
  std::vector<int> prev;
  std::vector<double> lm, rm;
  std::set<std::string> labels;
  std::vector<std::vector<RB>> pre;
  std::vector<RB> fin;
  std::map<int, std::pair<Box, double>> segs;  // box, right end of the trim box

  const L& l(int i) const { return in.ls[i]; }
  double gap(int a, int b) const { const L* u = &l(a); const L* v = &l(b); if (!(u->y0 < v->y0)) { std::swap(u, v); } return v->y0 - u->y1; }
  static double r1(double d) { return std::round(d * 10) / 10; }

  explicit Ref(const In& i) : in(i), prev(i.ls.size(), -1), lm(i.ls.size()), rm(i.ls.size()) {
    int n = in.ls.size();
    for (int k = 0; k < n; k++) { segs[l(k).seg].first.add(l(k).x0, l(k).y0, l(k).x1, l(k).y1); }
    for (auto& s : segs) {
      s.second.first.x0 = std::min(s.second.first.x0, in.segX0); s.second.first.x1 = std::max(s.second.first.x1, in.segX1);
      s.second.second = in.trimX1 > 0 ? in.trimX1 : s.second.first.x1;
    }
    for (int k = 1; k < n; k++) { if (l(k).seg == l(k - 1).seg) { prev[k] = k - 1; } }
    std::vector<int> cur;
    for (int k = 0; k < n; k++) {
      if (!k || l(k).seg != l(k - 1).seg) { flush(&cur, pre.empty() ? nullptr : &pre.back()); pre.push_back({}); }
      if (!cur.empty() && startsPre(k)) { flush(&cur, &pre.back()); }
      cur.push_back(k);
    }
    flush(&cur, pre.empty() ? nullptr : &pre.back());
    for (auto& s : pre) {
      for (auto& b : s) {
        for (int k : b.lines) {
          collect(k);
          if (!cur.empty() && starts(b, k)) { flush(&cur, &fin); }
          cur.push_back(k);
        }
        flush(&cur, &fin);
      }
    }
  }
  void flush(std::vector<int>* cur, std::vector<RB>* to) {
    if (cur->empty()) { return; }
    RB b;
    b.lines = *cur;
    std::vector<std::string> fonts; std::vector<double> sizes;
    for (size_t i = 0; i < cur->size(); i++) {
      int k = cur->at(i);
      prev[k] = i ? cur->at(i - 1) : -1;
      b.box.add(l(k).x0, l(k).y0, l(k).x1, l(k).y1);
      fonts.push_back(l(k).font); sizes.push_back(l(k).fs);
      b.text += (i ? " " : "") + l(k).text();
    }
    const auto& sg = segs.at(l(b.lines[0]).seg);
    b.trim = b.box;
    b.trim.x1 = std::min(b.box.x1, sg.second);
    for (auto& f : modes(fonts)) { for (double s : modes(sizes)) { b.emph.insert(emphasized(f, s, b.text)); } }
    b.centered = linesCentered(b.lines);
    double right = b.trim.x1;
    if (cur->size() == 2 && !to->empty()) {
      bool cent = std::fabs((b.box.x0 - sg.first.x0) - (sg.first.x1 - b.box.x1)) <= CW;
      if (!cent) { right = std::max(right, to->back().trim.x1); }
    }
    for (int k : b.lines) { lm[k] = l(k).x0 - b.trim.x0; rm[k] = right - l(k).x1; }
    b.hi = hangingIndent(b.lines);
    to->push_back(b);
    cur->clear();
  }
  bool emphasized(const std::string& font, double fs, const std::string& text) const {
    if (!in.fonts.count(in.docFont) || !in.fonts.count(font)) { return false; }
    if (fs > in.docFs + 1) { return true; }
    bool notSmaller = fs >= in.docFs - 1;
    if (notSmaller && in.fonts.at(font).first > in.fonts.at(in.docFont).first + 100) { return true; }
    if (notSmaller && in.fonts.at(font).second) { return true; }
    bool alpha = false;
    for (char c : text) { if (lower(c)) { return false; } alpha = alpha || upper(c); }
    return alpha;
  }
  bool centeredPair(int a, int b) const {
    if (maxRatio(l(a).x0, l(a).x1, l(b).x0, l(b).x1) < 0.99) { return false; }
    return std::fabs(std::fabs(l(a).x0 - l(b).x0) - std::fabs(l(a).x1 - l(b).x1)) <= 2 * CW;
  }
  bool linesCentered(const std::vector<int>& v) const {
    bool large = false;
    int justified = 0;
    for (size_t i = 1; i < v.size(); i++) {
      int a = v[i - 1], b = v[i];
      if (!centeredPair(a, b)) { return false; }
      bool formula = (l(a).text() + l(b).text()).find_first_of("=+") != std::string::npos;
      bool off = std::fabs(l(a).x0 - l(b).x0) > 2 * CW || std::fabs(l(a).x1 - l(b).x1) > 2 * CW;
      if (!formula && off) { large = true; } else { justified++; }
    }
    return large && justified <= 5;
  }
  bool capacity(int p, int k) const {
    if (p < 0 || l(k).words.empty()) { return false; }
    return rm[p] > l(k).words[0].width + 2 * CW;
  }
  double hangingIndent(const std::vector<int>& v) const {
    int longLines = 0, large = 0;
    std::map<double, int> cnt;
    for (int k : v) {
      if (l(k).text().size() >= 3) { longLines++; }
      if (lm[k] >= CW) { large++; cnt[lm[k]]++; }
    }
    double hi = 0; int best = 0;
    for (auto& c : cnt) { if (c.second > best) { best = c.second; hi = c.first; } }
    if (best * 2 <= large) { return 0; }
    bool firstIndented = false, firstCap = false, othersIndented = true;
    int lowNon = 0, lowInd = 0, non = 0, ind = 0;
    for (size_t i = 0; i < v.size(); i++) {
      int k = v[i];
      if (l(k).text().size() < 3) { continue; }
      if (std::fabs(lm[k] - rm[k]) <= CW && lm[k] > CW) { continue; }  // centered
      bool n = std::fabs(lm[k]) <= CW, d = std::fabs(lm[k] - hi) <= CW;
      bool low = lower(l(k).text()[0]);
      std::string first = l(k).words[0].text();
      non += n; ind += d;
      if (low && d) { lowInd++; }
      if (low && n && first != "van" && first != "von" && first != "de") { lowNon++; }
      if (i == 0) { firstIndented = d; } else { othersIndented = othersIndented && d; }
      if (i == 1) { firstCap = capacity(prev[k], k); }
    }
    if (!ind || lowNon) { return 0; }
    if (!firstIndented && !firstCap && othersIndented) { return hi; }
    if (non >= 10) { return hi; }
    if (longLines >= 4 && lowInd >= 1) { return hi; }
    return 0;
  }
  int figure(int k) const {
    for (size_t f = 0; f < in.figures.size(); f++) {
      const Box& b = in.figures[f];
      if (overlap(l(k).x0, l(k).x1, b.x0, b.x1) >= 0.5 * (l(k).x1 - l(k).x0) && overlap(l(k).y0, l(k).y1, b.y0, b.y1) >= 0.5 * (l(k).y1 - l(k).y0)) { return f; }
    }
    return -1;
  }
  bool startsPre(int k) const {
    int p = prev[k];
    if (p < 0) { return true; }
    if (figure(p) >= 0 && figure(p) == figure(k)) { return false; }
    if (l(p).rot != l(k).rot || l(p).wm != l(k).wm) { return true; }
    if (std::fabs(l(p).fs - l(k).fs) > 1 && std::fabs(l(p).maxfs - l(k).maxfs) > 1) { return true; }
    double expd = in.lineDist;
    if (in.perFs.count(l(k).fs)) { expd = std::max(expd, in.perFs.at(l(k).fs)); }
    expd = std::max(expd, 0.0);
    double act = r1(gap(p, k));
    if (act <= 1e-4) { return false; }
    if (act > expd + std::max(1.0, 0.1 * expd)) { return true; }
    return prev[p] >= 0 && act > r1(gap(prev[p], p)) + 0.5 * in.wordHeight;
  }
  void collect(int k) {
    for (auto& w : l(k).words) {
      bool seen = false;
      std::string s;
      for (auto& c : w.chars) {
        if (!seen) { seen = !c.super && !c.sub; continue; }
        if (c.text.empty()) { continue; }
        bool label = std::string("*∗†‡§‖¶?").find(c.text) != std::string::npos || (c.super && isalnum(static_cast<unsigned char>(c.text[0])));
        if (label) { s += c.text; } else { if (!s.empty()) { labels.insert(s); } s.clear(); }
      }
      if (!s.empty()) { labels.insert(s); }
    }
  }
  bool hasLabel(int k) const {
    if (l(k).words.empty() || l(k).words[0].chars.empty()) { return false; }
    const C& c = l(k).words[0].chars[0];
    if (c.super && std::string("*∗abcdefghijklmnopqrstuvwxyz01234567890()").find(c.text) != std::string::npos) { return true; }
    return itemLabel(l(k).text());
  }
  bool hasFootnoteLabel(int k, bool useSet) const {
    if (l(k).words.empty()) { return false; }
    std::string s;
    for (auto& c : l(k).words[0].chars) { if (!c.super) { break; } s += c.text; }
    return useSet ? labels.count(s) > 0 : !s.empty();
  }
  bool sameFirst(int a, int b) const { const W& v = l(a).words[0]; const W& w = l(b).words[0]; return v.font == w.font && std::fabs(v.fs - w.fs) <= 1; }
  bool first(int k, bool useSet) const {
    if (l(k).words.empty()) { return false; }
    bool fn = hasFootnoteLabel(k, useSet);
    if (!hasLabel(k) && !fn) { return false; }
    int p = prev[k];
    if (p >= 0) {
      std::string t = l(p).text();
      bool delim = !t.empty() && std::string("?!.);").find(t.back()) != std::string::npos;
      if (!hasLabel(p) && l(p).font == l(k).font && std::fabs(l(p).fs - l(k).fs) <= 1 && gap(p, k) <= 1e-4 && !delim && std::fabs(l(p).x0 - l(k).x0) <= CW) { return false; }
    }
    for (int s : { l(k).prevSib, l(k).nextSib }) {
      if (s >= 0 && !l(s).words.empty() && hasLabel(s) && sameFirst(s, k)) { return true; }
    }
    return fn;
  }
  bool cont(int k) const { for (int p = l(k).parent; p >= 0; p = l(p).parent) { if (first(p, true)) { return true; } } return false; }
  bool starts(const RB& b, int k) const {
    int p = prev[k];
    if (p < 0) { return true; }
    if (b.centered) { return first(k, false); }
    double off = l(p).x0 - l(k).x0;
    bool inTol = off >= -CW - 1e-4 && off <= 6 * CW + 1e-4;
    bool cap = capacity(p, k);
    if (first(k, true)) { return true; }
    bool prevFirst = first(p, true), prevCont = cont(p);
    if (cont(k)) {
      if (cap) { return true; }
      if (prevFirst) { return false; }
      return prevCont && !inTol;
    }
    if (prevFirst || prevCont) {
      if (cap) { return true; }
      std::string t = l(p).text(), c = l(k).text();
      bool delim = !t.empty() && std::string("?!.);").find(t.back()) != std::string::npos;
      if (!delim && !(c.size() && upper(c[0]))) { return false; }
    }
    if (emphasized(l(p).font, l(p).fs, l(p).text()) && emphasized(l(k).font, l(k).fs, l(k).text()) && l(p).font == l(k).font && std::fabs(l(p).fs - l(k).fs) <= 1) { return false; }
    if (b.hi > 1e-4) {
      if (lm[k] < b.hi - CW) { return true; }
      bool prevMore = lm[p] > b.hi + CW;
      if (lm[k] <= b.hi + CW) { return prevMore ? !inTol : cap; }
      return prevMore ? !inTol : true;
    }
    bool same = std::fabs(off) <= CW;
    if (lm[k] > 6 * CW || lm[p] > 6 * CW) { return !same; }
    if (lm[k] >= CW) { return true; }
    return cap;
  }
};

// ------------------------------------------------------------------------------------------------
enum { PARTITION = 1, FEATURES = 2 };

static double away = 0;  // where the elements are (also outside of the page)
static void run(mc::Report& r, In& in, int what) {
  for (auto* v : { &in.figures }) { for (auto& b : *v) { b = { b.x0 + away, b.y0 + away, b.x1 + away, b.y1 + away }; } }
  for (auto& l : in.ls) { l.x0 += away; l.x1 += away; l.y0 += away; l.y1 += away; }
  Doc doc;
  PdfPage* pg = doc.page();
  PdfDocument* q = doc.d.get();
  q->avgCharWidth = CW; q->avgCharHeight = 10; q->mostFreqWordHeight = in.wordHeight; q->mostFreqLineDistance = in.lineDist;
  q->mostFreqFontName = in.docFont; q->mostFreqFontSize = in.docFs;
  for (auto& p : in.perFs) { q->mostFreqLineDistancePerFontSize[p.first] = p.second; }
  for (auto& f : in.fonts) { doc.font(f.first, f.second.first, f.second.second); }
  for (auto& f : in.figures) { pg->figures.push_back(new PdfFigure(1, f.x0, f.y0, f.x1, f.y1)); }
  std::vector<PdfTextLine*> ls;
  std::stringstream d;
  d << "line distance " << in.lineDist << "; ";
  PdfPageSegment* s = nullptr;
  for (size_t i = 0; i < in.ls.size(); i++) {
    L& x = in.ls[i];
    if (!i || in.ls[i - 1].seg != x.seg) { s = segment(&doc, pg, {}); }
    auto* t = new PdfTextLine(1, x.x0, x.y0, x.x1, x.y1, x.rot, x.wm);
    t->id = "l" + std::to_string(i); t->doc = q; t->segment = s; t->rank = i; t->text = x.text();
    t->fontName = x.font; t->fontSize = x.fs; t->maxFontSize = x.maxfs; t->base = x.y1;
    t->baseBBoxLeftX = x.x0; t->baseBBoxUpperY = x.y0; t->baseBBoxRightX = x.x1; t->baseBBoxLowerY = x.y1;
    double wx = x.x0;
    for (auto& w : x.words) {
      auto* pw = doc.word(pg, w.text(), wx, x.y0, wx + w.width, x.y1, w.fs, w.font, x.rot, x.wm);
      pw->line = t;
      double cx = wx, step = w.width / std::max<size_t>(1, w.chars.size());
      for (auto& c : w.chars) {
        auto* pc = doc.ch(pg, c.text, cx, x.y0, cx + step, x.y1, w.fs, w.font, x.rot, x.wm);
        pc->isSuperscript = c.super; pc->isSubscript = c.sub; pc->word = pw;
        pw->characters.push_back(pc);
        cx += step;
      }
      t->words.push_back(pw);
      wx += w.width + 3;
    }
    if (!s->lines.empty()) { t->prevLine = s->lines.back(); s->lines.back()->nextLine = t; }
    s->lines.push_back(t);
    ls.push_back(t);
    d << "'" << x.text() << "'" << Box{ x.x0, x.y0, x.x1, x.y1 };
    if (!x.words.empty() && x.words[0].width != 20.25) { d << " w" << x.words[0].width; }
    if (x.fs != 10 || x.maxfs != 10) { d << " fs" << x.fs << "/" << x.maxfs; }
    if (x.font != "f") { d << " " << x.font; }
    if (x.rot || x.wm) { d << " rot" << x.rot << " wm" << x.wm; }
    if (x.seg) { d << " seg" << x.seg; }
    d << "; ";
  }
  for (auto& f : in.figures) { d << "figure" << f << " "; }
  r.desc(d.str());
  auto idx = [&](const PdfTextLine* l) { return l ? static_cast<int>(std::find(ls.begin(), ls.end(), l) - ls.begin()) : -1; };
  if (in.hierarchy) {
    static ppp::utils::TextLinesDetectionUtils u(&conf().textLinesDetection);
    u.computeTextLineHierarchy(pg);
    for (size_t i = 0; i < ls.size(); i++) { in.ls[i].parent = idx(ls[i]->parentLine); in.ls[i].prevSib = idx(ls[i]->prevSiblingLine); in.ls[i].nextSib = idx(ls[i]->nextSiblingLine); }
  } else {
    for (size_t i = 0; i < ls.size(); i++) {
      auto at = [&](int k) { return k < 0 ? nullptr : ls[k]; };
      ls[i]->parentLine = at(in.ls[i].parent); ls[i]->prevSiblingLine = at(in.ls[i].prevSib); ls[i]->nextSiblingLine = at(in.ls[i].nextSib);
    }
  }
  Ref ref(in);
  int si = 0;
  for (auto& sg : ref.segs) {
    PdfPageSegment* p = pg->segments[si++];
    const Box& b = sg.second.first;
    p->pos->leftX = p->trimLeftX = b.x0; p->pos->upperY = p->trimUpperY = b.y0; p->pos->rightX = b.x1; p->pos->lowerY = p->trimLowerY = b.y1;
    p->trimRightX = sg.second.second;
  }
  ppp::modules::TextBlocksDetection(q, &conf().textBlocksDetection).process();
  r.step(in.ls.size());
  auto show = [&](const std::vector<std::vector<int>>& v) { std::string t; for (auto& b : v) { for (int k : b) { t += std::to_string(k) + ","; } t += "|"; } return t; };
  auto lists = [&](const std::vector<PdfTextBlock*>& v) { std::vector<std::vector<int>> x; for (auto* b : v) { x.push_back({}); for (auto* l : b->lines) { x.back().push_back(idx(l)); } } return x; };
  auto rlists = [&](const std::vector<RB>& v) { std::vector<std::vector<int>> x; for (auto& b : v) { x.push_back(b.lines); } return x; };
  std::string st = show(rlists(ref.fin));
  r.state(st);
  bool same = show(lists(pg->blocks)) == st;
  if (what & PARTITION) { r.eq(show(lists(pg->blocks)), st, "split", "lines of the text blocks"); }
  if (what & FEATURES) {
    for (size_t g = 0; g < ref.pre.size(); g++) {
      auto& sb = pg->segments[g]->blocks;
      if (!r.eq(show(lists(sb)), show(rlists(ref.pre[g])), "presplit", "lines of the preliminary text blocks")) { continue; }
      for (size_t i = 0; i < sb.size(); i++) {
        r.eq(sb[i]->isLinesCentered, ref.pre[g][i].centered, "centered", "preliminary block centered");
        r.eq(sb[i]->hangingIndent, ref.pre[g][i].hi, "hangingindent", "hanging indent of preliminary block");
      }
    }
  }
  if (!same) { return; }
  for (size_t i = 0; i < pg->blocks.size(); i++) {
    PdfTextBlock* b = pg->blocks[i];
    const RB& x = ref.fin[i];
    if (what & PARTITION) {
      std::vector<double> fs; std::vector<std::string> fn;
      for (int k : x.lines) {
        fs.push_back(in.ls[k].fs); fn.push_back(in.ls[k].font);
        r.check(ls[k]->block == b, "lineblock", "the line does not refer to its block");
      }
      for (size_t j = 0; j < x.lines.size(); j++) {
        r.eq(idx(ls[x.lines[j]]->prevLine), j ? x.lines[j - 1] : -1, "prevline", "previous line in the block");
        r.eq(idx(ls[x.lines[j]]->nextLine), j + 1 < x.lines.size() ? x.lines[j + 1] : -1, "nextline", "next line in the block");
      }
      r.eq(b->text, x.text, "text", "text of block");
      r.eq(boxOf(b), x.box, "box", "box of block");
      r.check(modes(fs).count(b->fontSize), "fontsize", "font size of the block is not the most frequent one of its lines");
      r.check(modes(fn).count(b->fontName), "font", "font of the block is not the most frequent one of its lines");
      r.eq(b->rank, static_cast<int>(i), "rank", "rank of block");
      r.check(b->prevBlock == (i ? pg->blocks[i - 1] : nullptr), "prevblock", "link to the previous block");
      r.check(b->nextBlock == (i + 1 < pg->blocks.size() ? pg->blocks[i + 1] : nullptr), "nextblock", "link to the next block");
      r.check(b->segment == ls[x.lines[0]]->segment && b->doc == q && b->pos->pageNum == 1, "refs", "references of the block to segment, document and page");
      r.check(b->pos->rotation == in.ls[x.lines[0]].rot && b->pos->wMode == in.ls[x.lines[0]].wm, "direction", "rotation and writing mode of the block");
    }
    if (what & FEATURES) {
      r.check(x.emph.count(b->isEmphasized), "emphasized", [&] { return "block " + std::to_string(i) + (b->isEmphasized ? " is" : " is not") + " emphasized"; });
      r.eq(b->isLinesCentered, x.centered, "centered", "block centered");
      r.eq(b->hangingIndent, x.hi, "hangingindent", "hanging indent of block");
      r.eq(Box{ b->trimLeftX, b->trimUpperY, b->trimRightX, b->trimLowerY }, x.trim, "trim", "trim box of block");
      for (int k : x.lines) {
        r.eq(ls[k]->leftMargin, ref.lm[k], "leftmargin", "left margin of line " + std::to_string(k));
        r.eq(ls[k]->rightMargin, ref.rm[k], "rightmargin", "right margin of line " + std::to_string(k));
      }
    }
  }
}
static void put(In* in, L l, double gap, double h = 10) {
  double y = in->ls.empty() ? 100 : in->ls.back().y1 + gap;
  l.y0 = y; l.y1 = y + h;
  in->ls.push_back(l);
}

// Line distances, sizes, directions, figures.
static void pre(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = c.range(1, 4);
  in.lineDist = c.of(std::vector<double>{ 3, 20, 0 });
  if (c.flag()) { in.perFs[10] = 6; in.perFs[14] = 1; }
  // distances: overlapping, zero, usual, increased, larger than expected for some of the settings
  static const std::vector<double> D = { 2.5, -3, 0, 3.9, 4.6, 7.5, 21, 24, 4.03, 4.08, 7.03, -6.5 };
  for (int i = 0; i < n; i++) {
    L l;
    l.words = words("abc def");
    double gap = 0;
    int a = 0;
    if (i) { gap = c.of(n == 4 ? std::vector<double>{ 2.5, 3.9, 7.5, -3 } : D); }
    // one deviation per line
    a = n == 4 ? (i == 3 ? c.choose(8) : c.choose(2) * 6) : c.choose(n == 3 && i == 1 ? 5 : 8);
    if (a == 1) { l.fs = 14; l.maxfs = 14; }
    if (a == 2) { l.maxfs = 14; }
    if (a == 3) { l.fs = 14; l.maxfs = 10; }
    if (a == 4) { l.rot = 2; }
    if (a == 5) { l.wm = 1; }
    if (a == 6) { l.seg = 1; }
    if (a == 7) { l.fs = 10.75; l.maxfs = 10.75; }
    if (i && in.ls.back().seg) { l.seg = in.ls.back().seg + l.seg; }
    put(&in, l, gap);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
static void elsewhere(mc::Chooser& c, mc::Report& r, int what) {
  away = c.of(std::vector<double>{ -2000, 3000 });
  int n = c.range(1, 3);
  In in;
  for (int i = 0; i < n; i++) {
    L l;
    l.words = words("abc def");
    l.x0 += c.of(std::vector<double>{ 0, 12 });
    put(&in, l, i ? c.of(std::vector<double>{ 2.5, 9 }) : 0);
  }
  if (c.owns()) { run(r, in, what); }
  away = 0;
}
static void figures(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = c.range(2, mc::tier(4, 5));
  for (int i = 0; i < n; i++) {
    L l;
    l.words = words("abc def");
    int a = c.choose(3);
    if (a == 1) { l.fs = l.maxfs = 20; }
    if (a == 2) { l.rot = 1; }
    put(&in, l, i ? c.of(std::vector<double>{ 2, 50 }) : 0);
  }
  // figures that cover a run of lines wholly, or by part of their widths or heights, or two figures
  int k = c.choose(6), from = c.choose(n - 1), to = from + 1 + c.choose(n - from - 1);
  Box b{ 90, in.ls[from].y0 - 1, 410, in.ls[to].y1 + 1 };
  if (k == 1) { b.x1 = 240; }
  if (k == 2) { b.x1 = 260; }
  if (k == 3) { b.y1 = in.ls[to].y0 + 4; }
  if (k == 4) { b.y1 = in.ls[to].y0 + 6; }
  if (k) { in.figures.push_back(b); }
  if (k == 5) { in.figures[0].y1 = (in.ls[from].y1 + in.ls[to].y0) / 2; Box e = b; e.y0 = in.figures[0].y1; in.figures.push_back(e); }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// Indentation and capacity.
static void indents(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = c.range(2, mc::tier(4, 5));
  in.segX0 = 100; in.segX1 = 400;
  bool rich = n <= 3;
  if (c.flag()) { in.trimX1 = 390; }
  for (int i = 0; i < n; i++) {
    L l;
    l.x0 = 100 + c.of(rich ? std::vector<double>{ 0, 2, 12.25, 40.5, 55.25 } : std::vector<double>{ 0, 12.25, 40.5 });
    l.x1 = c.of(rich ? (i < 2 || n == 2 ? std::vector<double>{ 400, 398, 350, 200 } : std::vector<double>{ 400 }) : std::vector<double>{ 400, 350 });
    if (c.choose(rich ? 2 : 1)) { l.words = words("Abc Def", 60.25); } else { l.words = words("abc def"); }
    put(&in, l, 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
static void hanging(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = c.range(3, mc::tier(5, 7));
  static const std::vector<std::string> T = { "abc def", "Abc def", "van Def", "ab" };
  for (int i = 0; i < n; i++) {
    L l;
    int k = c.choose(n == 3 ? 10 : n == 4 ? 7 : mc::tier(5, 7));
    static const std::vector<std::pair<int, double>> K = { { 0, 0 }, { 1, 0 }, { 0, 20 }, { 1, 20 }, { 0, 50 }, { 2, 0 }, { 3, 20 }, { 2, 20 }, { 3, 0 }, { 1, 22 } };
    l.words = words(T[K[k].first]);
    l.x0 += K[k].second;
    if (i == 0 && c.flag()) { l.x1 = 300; }
    if (i == 1 && c.flag()) { l.x1 = 380; }  // centered, if indented
    put(&in, l, 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// Many non-indented lines.
static void bibliography(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = mc::thorough() ? c.range(8, 14) : c.range(9, 12);
  int ind = c.choose(n), ind2 = ind + c.choose(n - ind), low = c.choose(n + 1), lowKind = c.choose(3);
  bool cap = c.flag();
  for (int i = 0; i < n; i++) {
    L l;
    l.words = words(i == low ? (lowKind == 0 ? "abc def" : lowKind == 1 ? "de Abc" : "von") : "Abc def");
    if (i == ind || i == ind2) { l.x0 = 120; }
    if (cap && i + 1 == ind) { l.x1 = 300; }
    put(&in, l, 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
static void centered(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = c.range(2, 4);
  in.hierarchy = true;
  for (int i = 0; i < n; i++) {
    L l;
    static const std::vector<std::pair<double, double>> K = { { 0, 0 }, { 40, 40 }, { 100, 100 }, { 40, 46 }, { 3, 3 }, { 40, 80 }, { -20, 60 } };
    auto k = c.of(K);
    l.x0 += k.first; l.x1 -= k.second;
    int t = c.choose(n == 2 ? 5 : n == 3 ? 3 : 1);
    l.words = words(t == 0 ? "abc def" : t == 1 ? "1. abc" : t == 2 ? "a = b" : t == 3 ? "a+b c" : "Abc");
    put(&in, l, t == 4 ? -1 : 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
static void justified(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = c.range(2, 10), at = c.choose(n + 1), formula = c.choose(n + 1);
  for (int i = 0; i < n; i++) {
    L l;
    l.words = words(i == formula ? "a =b" : "abc def");
    if (i == at) { l.x0 += 50; l.x1 -= 50; }
    put(&in, l, 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// List items and footnotes.
static L itemLine(mc::Chooser& c, int n) {
  L l;
  static const std::vector<std::string> T = { "abc def", "1. abc", "Abc def", "abc.", "2. Abc", "(a) abc", "S1 abc", "abcS1 def", "Sx Abc", "abS*c" };
  std::string t = T[c.choose(n)];
  std::stringstream s(t);
  std::string x;
  while (s >> x) {
    size_t k = x.find('S');
    W w = word(k == std::string::npos ? x : x.substr(0, k) + x.substr(k + 1));
    if (k != std::string::npos) { w.chars[k].super = true; }
    l.words.push_back(w);
  }
  return l;
}
static void items(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  in.hierarchy = true;
  int n = c.range(2, mc::tier(4, 4));
  for (int i = 0; i < n; i++) {
    L l = itemLine(c, n == 2 ? 10 : n == 3 ? mc::tier(6, 9) : mc::tier(4, 7));
    l.x0 += c.of(n <= 2 ? std::vector<double>{ 0, 12.25, 40.5 } : std::vector<double>{ 0, 12.25 });
    int k = c.choose(n == 2 ? 4 : n == 3 && i < mc::tier(1, 2) ? 4 : n == 3 && i == 1 ? 2 : 1);
    if (k == 1) { l.x1 = 300; }
    if (k == 2) { l.font = "g"; for (auto& w : l.words) { w.font = "g"; } }
    if (k == 3) { for (auto& w : l.words) { w.fs = 8; } l.fs = 8; }
    put(&in, l, i && (n == 2 || (n == 3 && i == 2)) && c.flag() ? -0.5 : 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// Deeper hierarchies, given freely.
static void nested(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = c.range(3, 4);
  for (int i = 0; i < n; i++) {
    L l = itemLine(c, n == 3 || i == 0 ? mc::tier(3, 4) : mc::tier(2, 3));
    if (i) {
      l.parent = c.choose(std::min(i, n == 3 ? 2 : 1) + 1) - 1;
      int s = c.choose(std::min(i, 2) + 1) - 1;
      l.prevSib = s;
      if (s >= 0) { in.ls[s].nextSib = i; }
      l.x0 += c.of(n == 3 ? std::vector<double>{ 0, 20, 60 } : std::vector<double>{ 0, 20 });
    }
    put(&in, l, 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// Footnote labels that occur (or not) earlier in the document.
static void footnotes(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  in.hierarchy = true;
  static const std::vector<std::string> T = { "abc def", "abcS1 def", "Sxabc def", "S1abc def", "Sx Abc", "S1 Abc", "abcT1 def", "ab* def", "aS1b def", "aS1Sx def", "S1Sx abc", "S1", "SA bcd", "aSA bcd", "def abcS1",
    "ab\u201DS1 def", "a\u2013b def", "S\u2020 abc", "ab\u2020 def", "ab\u2020", "S\u2013a abc",
    "a_S1b def", "aS1_S2 def", "_S1 abc", "aE_S1 def", "S_1 abc", "S1_S2 def", "S1S2 def" };
  int n = c.range(1, 3);
  for (int i = 0; i < n; i++) {
    L l;
    std::stringstream s(T[c.choose(n < 3 || i == 0 ? T.size() : mc::tier(18, T.size()))]);
    std::string x;
    while (s >> x) {
      W w;
      bool sup = false, sub = false;
      for (size_t k = 0; k < x.size(); k++) {
        if (x[k] == 'S') { sup = true; continue; }
        if (x[k] == 'T') { sub = true; continue; }
        if (x[k] == '_') { w.chars.push_back({ "", sup, sub }); sup = sub = false; continue; }  // a glyph without text
        int bytes = (x[k] & 0x80) ? 3 : 1;
        w.chars.push_back({ x.substr(k, bytes), sup, sub });
        k += bytes - 1;
        sup = sub = false;
      }
      w.width = 20.25;
      l.words.push_back(w);
    }
    if (n < 3) { l.x0 += c.of(std::vector<double>{ 0, 12.25 }); }
    put(&in, l, i && c.flag() ? -1 : 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// Every short string as the label of an item.
static void labels(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  static const std::vector<std::string> A = { "a", "Q", "I", "V", "X", "x", "1", ".", "(", ")", "[", "]", "-", "+", "\xE2\x80\xA2", "\xE2\x80\x93" };
  static const std::vector<std::string> FIXED = { "PACS", "pacs", "Pacs", "PACSX", "XVIII.", "xviii.", "XVIIII.", "(XVIII)", "(iv)", "[Bu2]", "[Enn202]", "[Enn2020]", "[bu2]", "[Bu]2]", "1234567.", "(C12)", "(C123)", "(123)", "(1234)", "a12)", "12)", "123)", "1.2", "XX.", "XXI." };
  int len = c.range(1, mc::tier(3, 4));
  std::string s;
  int fixed = len == 1 ? c.choose(FIXED.size() + 1) : 0;
  if (fixed) { s = FIXED[fixed - 1]; } else { for (int i = 0; i < len; i++) { s += c.of(A); } }
  bool tail = c.flag();
  if (!c.owns()) { return; }
  for (int i = 0; i < 2; i++) {
    L l;
    l.words = words(i ? s + (tail ? " abc" : "abc") : "1. abc");
    put(&in, l, 2);
  }
  in.ls[1].prevSib = 0; in.ls[0].nextSib = 1;
  run(r, in, what);
}
static void emphasis(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  in.fonts = { { "f", { 400, false } }, { "b", { 700, false } }, { "i", { 400, true } }, { "m", { 500, false } } };
  static const std::vector<std::string> F = { "f", "b", "i", "m", "unknown" };
  int n = c.range(1, 3);
  if (n < 3) { in.docFont = F[c.choose(n == 2 ? 2 : 5)]; if (n == 2 && in.docFont == "b") { in.docFont = "i"; } }
  in.segX1 = 400;
  for (int i = 0; i < n; i++) {
    L l;
    l.font = F[c.choose(n == 3 ? 3 : 5)];
    l.fs = l.maxfs = c.of(n <= 2 ? std::vector<double>{ 10, 9.25, 8.5, 10.75, 11.5 } : std::vector<double>{ 10, 9.25, 10.75 });
    int t = c.choose(n <= 2 ? 4 : 2);
    l.words = words(t == 0 ? "abc def" : t == 1 ? "ABC 12" : t == 2 ? "12 3" : "ABc");
    if (i + 1 < n) { l.x1 = c.flag() ? 400 : 250; }
    put(&in, l, 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// Blocks of two short lines after other blocks; several segments.
static void margins(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  in.segX0 = 100; in.segX1 = 400;
  int blocks = c.range(2, 3), seg = 0;
  for (int b = 0; b < blocks; b++) {
    int n = c.range(1, blocks == 2 ? 3 : 2);
    double right = c.of(std::vector<double>{ 400, 300, 270 }), left = c.of(std::vector<double>{ 0, 50, 150 });
    if (b) { seg += c.choose(2); }
    for (int i = 0; i < n; i++) {
      L l;
      l.seg = seg;
      l.words = words("abc def");
      l.x0 += left; l.x1 = right + (i ? 0 : -10);
      put(&in, l, i ? 2 : 30);
    }
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// Long chains of parents, one of which may begin an item.
static void chain(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = c.of(std::vector<int>{ 3, 4, 5, 6, 8, 13, 40 });
  int item = c.choose(n <= 8 ? n : 3) - 1;                          // the line with the label (-1: no one)
  int cut = c.choose(n <= 8 ? n : 3), skip = c.choose(3), kind = c.choose(3), sib = c.choose(n <= 8 ? n : 3);
  bool footnote = c.flag(), shortLine = c.flag(), pair = c.flag();
  int step = c.choose(4);
  if (!c.owns()) { return; }
  for (int i = 0; i < n; i++) {
    L l;
    l.words = words(i == item ? (kind == 0 ? "1. abc" : kind == 1 ? "- abc" : "(a) Abc") : i % 2 ? "Abc def" : "abc def");
    if (footnote && i == item) { l.words = words("x Abc"); l.words[0].chars[0].super = true; }
    if (i && i != cut) { l.parent = skip == 1 && i > 2 ? i - 2 : skip == 2 && i > 1 && i % 3 == 0 ? i - 2 : i - 1; }
    if (sib && i == sib && i > 1) { l.prevSib = i - 1; in.ls[i - 1].nextSib = i; l.parent = in.ls[i - 1].parent; }
    if (item >= 0 && item + 1 < n && i + 1 == n && pair) { l.words = words("2. abc"); l.prevSib = item; l.parent = in.ls[item].parent; in.ls[item].nextSib = i; }
    if (step && i > item) { l.x0 += step == 1 ? 12.25 * (i % 2) : step == 2 ? 6.25 * (i % 16) : 30.25 * (i % 3); }
    if (shortLine && i + 2 == n) { l.x1 = 250; }
    put(&in, l, 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// Lines of various indents that follow lines in hanging indent format.
static void deep(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int k = c.range(2, 3);
  for (int i = 0; i < 2 + k; i++) {
    L l;
    l.words = words(i == 0 || (i == 3 && c.flag()) ? "Abc def" : "abc def");
    if (i) { l.x0 += 20; }
    put(&in, l, 2);
  }
  int m = c.range(1, mc::tier(3, 4));
  for (int i = 0; i < m; i++) {
    L l;
    static const std::vector<double> X = { 0, 20, 50.5, 22, 60, 40, 57, 100, 14.5 };
    l.x0 += X[c.choose(m <= 2 ? 9 : m == 3 ? 7 : 5)];
    l.words = words(m <= 3 && c.flag() ? "Abc def" : "abc def");
    if (m <= 2 && c.flag()) { l.x1 = 330; }
    put(&in, l, 2);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}
// Many lines in several segments, with periodic deviations.
static void large(mc::Chooser& c, mc::Report& r, int what) {
  In in;
  int n = c.of(std::vector<int>{ 20, 60, mc::tier(150, 400) });
  int indent = c.choose(5), cap = c.choose(4), gap = c.choose(4), size = c.choose(3), label = c.choose(4), seg = c.choose(3);
  in.hierarchy = c.flag();
  in.fonts["g"] = { 700, false };
  in.segX0 = 100; in.segX1 = 400;
  int sg = 0;
  for (int i = 0; i < n; i++) {
    L l;
    static const int P[] = { 0, 3, 5, 7, 11 };
    auto at = [&](int period, int rest) { return period && i % period == rest; };
    if (at(P[indent], 0)) { l.x0 += 12.25; }
    if (indent == 4 && !at(11, 0)) { l.x0 += 20; }  // hanging
    if (cap && i % (cap * 4 + 1) == 2) { l.x1 = 250; }
    if (size && i % (size * 6) >= size * 5) { l.fs = l.maxfs = 14; if (size == 2) { l.font = "g"; } }
    std::string t = i % 3 ? "abc def" : "Abc def.";
    if (label == 1 && i % 4 == 0) { t = std::to_string(i / 4 + 1) + ". Abc"; }
    if (label == 2 && i % 5 == 0) { t = "- abc"; }
    l.words = words(t);
    if (label == 3 && i % 6 == 4) { l.words.push_back(word("x1")); l.words.back().chars[1].super = true; }
    if (label == 3 && i % 6 == 0) { l.words.insert(l.words.begin(), word("1")); l.words[0].chars[0].super = true; }
    for (auto& w : l.words) { w.fs = l.fs; w.font = l.font; }
    if (seg && i && i % (seg * 17) == 0) { sg++; }
    l.seg = sg;
    double g = 2;
    if (gap && i % (gap * 4) == 1) { g = gap == 1 ? 4.6 : gap == 2 ? 20 : -1; }
    put(&in, l, g);
  }
  if (!c.owns()) { return; }
  run(r, in, what);
}

#define SPACE09(name, rule) \
  static mc::Register r09_##name({ "P09", #name, rule, [](mc::Chooser& c, mc::Report& r) { name(c, r, PARTITION); }, nullptr });
#define SPACE(name, rule) \
  static mc::Register r09_##name({ "P09", #name, rule, [](mc::Chooser& c, mc::Report& r) { name(c, r, PARTITION); }, nullptr }); \
  static mc::Register r31_##name({ "P31", #name, rule, [](mc::Chooser& c, mc::Report& r) { name(c, r, FEATURES); }, nullptr });
SPACE09(pre, "a case is a sequence of lines with critical distances, sizes and directions")
SPACE(elsewhere, "a case is a sequence of lines far to the left and above or to the right and below of the page")
SPACE09(figures, "a case is a sequence of lines, some of them covered by a figure")
SPACE(indents, "a case is a sequence of lines with critical indents, right ends and first words")
SPACE(hanging, "a case is a sequence of lines that is or nearly is in hanging indent format")
SPACE(bibliography, "a case is a long sequence of mostly non-indented lines")
SPACE(centered, "a case is a sequence of lines that is or nearly is centered")
SPACE(justified, "a case is a long sequence of mostly justified lines")
SPACE(items, "a case is a sequence of lines with item and footnote labels, indents and fonts")
SPACE(nested, "a case is a sequence of lines with any hierarchy of parents and siblings")
SPACE(footnotes, "a case is a sequence of lines with superscripts in critical positions")
SPACE(labels, "a case is a candidate for an item label")
SPACE(emphasis, "a case is a sequence of lines with any fonts, sizes and cases")
SPACE(margins, "a case is a sequence of blocks and segments of various widths")
SPACE(deep, "a case is a sequence of lines in hanging indent format, followed by lines with any indents")
SPACE(chain, "a case is a chain of parents of any length, one of which begins an item")
SPACE(large, "a case is a document of many lines with periodic indents, distances, sizes and labels")

int main(int argc, char** argv) { return mc::driver(argc, argv); }
