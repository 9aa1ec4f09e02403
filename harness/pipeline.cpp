// P01 (every glyph once), P29 (consistent hierarchy), P28 (damaged files): whole documents through the
// whole pipeline.
#include <array>
#include "doc.h"
#include "gendoc.h"
#include "run.h"
#include "hierarchy.h"
#include "poppler/Error.h"
using namespace syn;
using pdfgen::num;
using pdfgen::lit;

static void quiet() { setErrorCallback([](ErrorCategory, Goffset, const char*) {}); }

// ------------------------------------------------------------------------------------------------
// P01
static std::vector<std::string> chars(const std::string& s) {
  std::vector<std::string> r;
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : c < 0xE0 ? 2 : c < 0xF0 ? 3 : 4;
    r.push_back(s.substr(i, n));
    i += n;
  }
  return r;
}
static std::string join(std::vector<std::string> v) { std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) { s += x + " "; } return s; }

static void checkText(mc::Report& r, const gen::Doc& g) {
  r.desc(g.desc);
  auto res = run::process(g.pdf().build());
  r.step();
  if (!r.eq(res.status, 0, "status", "status")) { return; }
  if (!r.eq(res.doc->pages.size(), g.pages.size(), "pages", "number of pages")) { return; }
  std::vector<std::string> all;
  size_t joined = 0, hyphens = 0;
  for (size_t p = 0; p < g.pages.size(); p++) {
    auto* pg = res.doc->pages[p];
    std::string at = " on page " + std::to_string(p + 1);
    // How often each glyph occurs below the blocks.
    std::map<const PdfCharacter*, int> seen;
    std::vector<std::string> got, fig;
    std::set<const PdfWord*> words;
    std::set<const PdfTextLine*> lines;
    for (auto* b : pg->blocks) {
      for (auto* l : b->lines) {
        r.check(lines.insert(l).second, "line-twice", "a line belongs to two blocks" + at);
        for (auto* w : l->words) {
          r.check(words.insert(w).second, "word-twice", "a word belongs to two lines" + at);
          if (w->isFirstPartOfHyphenatedWord) { r.check(w->text.size() > 1 && w->text.back() == '-', "joined", "a word without a hyphen at its end was joined" + at); }
          if (w->isSecondPartOfHyphenatedWord) { joined++; }
          for (auto* c : w->characters) { seen[c]++; }
        }
      }
    }
    for (auto* c : pg->characters) {
      int n = seen[c];
      bool mark = c->isDiacriticMarkOfBaseChar != nullptr;
      if (!mark || n) { r.check(n == 1, "glyph", [&] { return "the glyph '" + c->text + "' occurs " + std::to_string(n) + " times in the words of the blocks" + at; }); }
      if (!mark) { got.push_back(c->isBaseCharOfDiacriticMark ? c->textWithDiacriticMark : c->text); }
    }
    for (auto* f : pg->figures) { for (auto* c : f->characters) { fig.push_back(c->text); r.check(seen[c] == 0, "figure", "a glyph of a figure is in a word" + at); } }
    r.eq(join(got), join(g.pages[p].glyphs), "glyphs", "glyphs" + at);
    r.eq(join(fig), join(g.pages[p].figures), "figure-glyphs", "glyphs of figures" + at);
    for (auto& t : g.pages[p].glyphs) { if (t == "-") { hyphens++; } else { all.push_back(t); } }
  }
  std::string txt = run::txt(res.doc.get());
  std::vector<std::string> got;
  size_t h = 0;
  for (auto& c : chars(txt)) { if (c == "-") { h++; } else if (c != " " && c != "\n") { got.push_back(c); } }
  r.eq(join(got), join(all), "text", "characters of the output");
  r.eq(h, hyphens - joined, "hyphens", "hyphens of the output");
  r.state(txt);
}

enum What { TEXT, HIERARCHY };
static void docChecks(mc::Report& r, const gen::Doc& g, What what) {
  if (what == TEXT) { checkText(r, g); return; }
  r.desc(g.desc);
  auto res = run::process(g.pdf().build());
  r.step();
  if (!r.eq(res.status, 0, "status", "status")) { return; }
  if (!r.eq(res.doc->pages.size(), g.pages.size(), "pages", "number of pages")) { return; }
  hierarchy::check(r, res.doc.get(), true);
  r.state(hierarchy::shape(res.doc.get()));
}
static const std::vector<std::vector<int>> ROLES = { { 0 }, { 6, 2, 0 }, { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13 } };
// One object of any kind, at any position, size and rotation.
static void one(mc::Chooser& c, mc::Report& r, What what) {
  gen::Doc g;
  int kind = c.choose(gen::Doc::KINDS);
  double x = c.of(std::vector<double>{ 40, 100, 150 }), y = c.of(std::vector<double>{ 40, 100, 150 }), fs = c.of(std::vector<double>{ 10, 5, 16, 0.5 });
  int rot = c.choose(4), pages = c.choose(3);
  if (!c.owns()) { return; }
  run::setModel({ 0 });
  if (pages == 2) { g.newPage(); }
  g.add(kind, x, y, fs, rot);
  if (pages == 1) { g.newPage(); }
  docChecks(r, g, what);
}
// Several objects of all kinds at critical positions to each other.
static void several(mc::Chooser& c, mc::Report& r, What what) {
  struct O { int kind, x, y, fs, rot, page; };
  std::vector<O> os;
  int n = c.range(2, mc::tier(3, 4));
  static const std::vector<double> XS = { 20, 110, 36 }, YS = { 170, 157, 100 }, FS = { 10, 7 };
  int roles = n == 2 && mc::thorough() ? c.choose(3) : n - 1;
  for (int i = 0; i < n; i++) {
    O o{};
    if (n == 2) {
      o.kind = c.choose(gen::Doc::KINDS); o.x = i ? c.choose(3) : 0; o.y = i ? c.choose(3) : 0; o.fs = i ? c.choose(2) : 0;
      o.page = i ? c.flag() : 0;
    } else if (n == 3) {
      static const std::vector<int> K = { 1, 3, 4, 2, 6, 8, 13, 10 };
      o.kind = c.of(std::vector<int>(K.begin(), K.begin() + mc::tier(5, 8))); o.x = c.choose(2); o.y = c.choose(i ? 3 : 1); o.page = i == 2 ? c.flag() : 0;
      o.fs = mc::thorough() && i ? c.choose(2) : 0;
    } else {
      static const std::vector<int> K = { 1, 3, 4, 13 };
      o.kind = c.of(K); o.x = c.choose(2); o.y = c.choose(i ? 3 : 1); o.page = i == 2 ? c.flag() : 0;
    }
    os.push_back(o);
  }
  if (!c.owns()) { return; }
  gen::Doc g;
  for (auto& o : os) { if (o.page) { g.newPage(); } g.add(o.kind, XS[o.x], YS[o.y], FS[o.fs], 0); }
  run::setModel(ROLES[roles % 3]);
  docChecks(r, g, what);
}
// Texts of different rotations.
static void rotated(mc::Chooser& c, mc::Report& r, What what) {
  int n = c.range(2, mc::tier(2, 3));
  struct O { int kind, pos, rot; };
  std::vector<O> os;
  static const std::vector<int> K = { 1, 4, 6, 3, 2 };
  static const double PX[] = { 60, 100, 100, 140 }, PY[] = { 100, 100, 60, 150 };
  for (int i = 0; i < n; i++) { O o; o.kind = c.of(std::vector<int>(K.begin(), K.begin() + (n == 2 ? 5 : 3))); o.pos = c.choose(n == 2 ? 4 : 3); o.rot = c.choose(4); os.push_back(o); }
  if (!c.owns()) { return; }
  gen::Doc g;
  for (auto& o : os) { g.add(o.kind, PX[o.pos], PY[o.pos], 10, o.rot); }
  run::setModel({ 0, 2, 6 });
  docChecks(r, g, what);
}
// Longer pages: rows of two columns, with short and long lines, headings, lines and gaps.
static void flow(mc::Chooser& c, mc::Report& r, What what) {
  int rows = mc::tier(4, 5);
  bool byColumn = c.flag(), twoColumns = c.flag();
  std::vector<int> left, right;
  static const std::vector<int> K = { 1, 3, 9, 2, 7 };
  for (int i = 0; i < rows; i++) { left.push_back(c.choose(mc::tier(3, 4))); right.push_back(twoColumns ? c.choose(2) : -1); }
  int gapRow = c.choose(rows + 1);
  if (!c.owns()) { return; }
  gen::Doc g;
  auto y = [&](int i) { return 180 - 12.0 * i - (i >= gapRow ? 10 : 0); };
  if (byColumn) { for (int i = 0; i < rows; i++) { g.add(K[left[i]], 20, y(i)); } for (int i = 0; i < rows; i++) { if (right[i] >= 0) { g.add(K[right[i]], 110, y(i)); } } }
  else { for (int i = 0; i < rows; i++) { g.add(K[left[i]], 20, y(i)); if (right[i] >= 0) { g.add(K[right[i]], 110, y(i)); } } }
  run::setModel({ 0 });
  docChecks(r, g, what);
}
// Texts that are drawn several times at the same or at nearby positions (bold effects, shadows, repeated letters), glyph
// by glyph or text by text, with other states of the second drawing.
static void overprint(mc::Chooser& c, mc::Report& r, What what) {
  static const std::vector<std::string> T = { "b", "bb", "bcb", "cc bb", "mm-", "1.1", "(b)", "b;c", "II ll" };
  static const std::vector<std::pair<double, double>> D = { { 0, 0 }, { 0.02, 0 }, { 0.3, 0 }, { 0, 0.3 }, { -0.4, 0.4 }, { 5.56, 0 }, { 2.5, 0 }, { 0, -3 }, { 0, -12 }, { 60, 0 } };
  static const std::vector<std::string> S = { "", "1 1 1 rg 1 1 1 RG", "1 0 0 rg", "3 Tr", "2 Tr", "1 Tc", "5 Ts" };
  auto& t = c.of(T);
  auto d = c.of(D);
  int copies = c.range(2, 3), how = c.choose(3), rot = c.choose(what == TEXT ? 4 : mc::tier(2, 4));
  double fs = c.of(std::vector<double>{ 10, 4, 24 }), fs2 = c.flag() ? fs * 0.8 : fs;
  auto& st = c.of(S);
  if (!c.owns()) { return; }
  gen::Doc g;
  g.desc = lit(t) + " " + std::to_string(copies) + " times, each moved by " + num(d.first) + "," + num(d.second) + ", way " + std::to_string(how) + ", rotation " + std::to_string(rot) + ", sizes " + num(fs) + " " + num(fs2) + " with " + st;
  const double x = 90, y = 110;
  auto show = [&](const std::string& s, double dx, int k) {
    double ex = dx + d.first * k, ey = d.second * k;
    g.raw("q BT " + (k ? st : "") + " /F1 " + num(k ? fs2 : fs) + " Tf " + gen::Doc::matrix(rot, gen::Doc::px(rot, x, ex, ey), gen::Doc::py(rot, y, ex, ey)) + "Tm " + lit(s) + " Tj ET Q");
    g.note(s);
  };
  if (how == 0) { for (int k = 0; k < copies; k++) { show(t, 0, k); } }
  else if (how == 1) { for (size_t i = 0; i < t.size(); i++) { for (int k = 0; k < copies; k++) { show(t.substr(i, 1), 0.6 * fs * i, k); } } }
  else { for (int k = 0; k < copies; k++) { if (k) { g.newPage(); } show(t, 0, k); } }
  run::setModel({ 0 });
  docChecks(r, g, what);
}
// Large documents: many pages, columns and rows, all of one or two kinds of objects.
static void large(mc::Chooser& c, mc::Report& r, What what) {
  static const std::vector<int> K = { 1, 3, 4, 2, 7, 6, 14, 5, 8, 16 };
  int cols = c.of(std::vector<int>{ 1, 2, 3, 6 }), rows = c.of(std::vector<int>{ 1, 12, 45 }), pages = c.of(std::vector<int>{ 1, 2, 12 });
  int k1 = c.of(K), k2 = c.of(std::vector<int>(K.begin(), K.begin() + mc::tier(3, K.size()))), order = c.choose(3);
  double dist = c.of(std::vector<double>{ 13, 30 });
  if (pages == 12 && (order || dist == 30)) { return; }
  if (!c.owns()) { return; }
  gen::Doc g;
  g.width = 700;
  g.height = 1500;
  g.desc = std::to_string(pages) + " pages, " + std::to_string(cols) + " columns, " + std::to_string(rows) + " rows, order " + std::to_string(order) + ", ";
  std::string desc = g.desc + "kinds " + std::to_string(k1) + " " + std::to_string(k2) + ", distance " + num(dist);
  for (int p = 0; p < pages; p++) {
    if (p) { g.newPage(); }
    for (int i = 0; i < rows * cols; i++) {
      int j = order == 2 ? rows * cols - 1 - i : i;
      int x = order == 1 ? j % cols : j / rows, y = order == 1 ? j / cols : j % rows;
      g.add((x + y) % 2 ? k2 : k1, 40 + 105 * x, 1440 - dist * y);
    }
  }
  g.desc = desc;
  run::setModel({ 0, 2, 6 });
  docChecks(r, g, what);
}
// ------------------------------------------------------------------------------------------------
// P28
// The documents to damage.
static std::string crossRefStream() {
  // Objects in an object stream, and a cross reference stream.
  std::string o = "%PDF-1.5\n";
  std::vector<std::string> bodies = { "<< /Type /Catalog /Pages 2 0 R >>", "<< /Type /Pages /Kids [3 0 R] /Count 1 /MediaBox [0 0 200 200] >>",
    "<< /Type /Page /Parent 2 0 R /Resources << /Font << /F1 4 0 R >> >> /Contents 6 0 R >>", "<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>" };
  std::string head, data;
  for (size_t i = 0; i < bodies.size(); i++) { head += std::to_string(i + 1) + " " + std::to_string(data.size()) + " "; data += bodies[i] + " "; }
  size_t p5 = o.size();
  o += "5 0 obj\n" + pdfgen::Pdf::stream(head + data, "/Type /ObjStm /N 4 /First " + std::to_string(head.size())) + "\nendobj\n";
  size_t p6 = o.size();
  std::string hex;
  for (unsigned char c : pdfgen::text(20, 100, "abc de")) { char b[4]; snprintf(b, sizeof b, "%02x", c); hex += b; }
  o += "6 0 obj\n" + pdfgen::Pdf::stream(hex + ">", "/Filter /ASCIIHexDecode") + "\nendobj\n";
  size_t p7 = o.size();
  std::string x;
  auto row = [&](int t, int a, int b) { x += static_cast<char>(t); x += static_cast<char>(a >> 8); x += static_cast<char>(a & 255); x += static_cast<char>(b); };
  row(0, 0, 255);
  for (int i = 0; i < 4; i++) { row(2, 5, i); }
  row(1, p5, 0); row(1, p6, 0); row(1, p7, 0);
  o += "7 0 obj\n" + pdfgen::Pdf::stream(x, "/Type /XRef /W [1 2 1] /Size 8 /Root 1 0 R") + "\nendobj\nstartxref\n" + std::to_string(p7) + "\n%%EOF\n";
  return o;
}
static const std::vector<std::string>& originals() {
  static std::vector<std::string> v;
  if (v.empty()) {
    gen::Doc a;
    a.add(1, 20, 170); a.add(3, 20, 157); a.newPage(); a.add(4, 20, 100); a.add(8, 120, 120); a.add(6, 60, 50, 14);
    pdfgen::Pdf q = a.pdf();
    q.compact = true;
    v.push_back(q.build());
    v.push_back(crossRefStream());
    // Images, forms, and fonts of other kinds.
    pdfgen::Pdf p;
    p.compact = true;
    p.resources = "/XObject << /Im 20 0 R /Fm 21 0 R >> /ExtGState << /G << /CA 0.5 >> >>";
    p.fonts = "/FT 22 0 R /FC 24 0 R";
    p.extraObjs = { pdfgen::Pdf::stream("x", "/Type /XObject /Subtype /Image /Width 1 /Height 1 /BitsPerComponent 8 /ColorSpace /DeviceGray"),
      pdfgen::Pdf::stream("10 10 20 20 re S BT /F1 10 Tf 5 5 Td (fm) Tj ET", "/Type /XObject /Subtype /Form /BBox [0 0 60 50] /Matrix [1 0 0 1 35 40] /Resources << /Font << /F1 3 0 R >> >>"),
      "<< /Type /Font /Subtype /Type3 /FontBBox [0 0 10 10] /FontMatrix [0.1 0 0 0.1 0 0] /CharProcs << /sq 23 0 R >> /Encoding << /Type /Encoding /Differences [97 /sq] >> /FirstChar 97 /LastChar 97 /Widths [10] >>",
      pdfgen::Pdf::stream("10 0 d0 0 0 8 8 re f"),
      "<< /Type /Font /Subtype /Type0 /BaseFont /TestCid /Encoding /Identity-V /DescendantFonts [25 0 R] /ToUnicode 26 0 R >>",
      "<< /Type /Font /Subtype /CIDFontType2 /BaseFont /TestCid /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> /DW 500 /W [1 [400 600]] /DW2 [880 -1000] >>",
      pdfgen::Pdf::stream("begincmap 1 begincodespacerange <0000> <ffff> endcodespacerange 1 beginbfchar <0001> <00660069> endbfchar 1 beginbfrange <0002> <0004> <0041> endbfrange endcmap") };
    p.pages = { "q 40 0 0 30 25 45 cm /Im Do Q /Fm Do /G gs BT /FT 12 Tf 20 150 Td (aa) Tj /FC 10 Tf 60 0 Td <000100020003> Tj ET q 20 20 50 50 re W n 30 30 m 50 50 l S Q 10 10 80 80 re f*", pdfgen::text(20, 100, "xy") };
    p.rotate = { 90, 0 };
    v.push_back(p.build());
  }
  return v;
}
static void damagedChecks(mc::Report& r, const std::string& bytes, const std::string& what) {
  r.desc(what);
  run::setModel({ 0 });
  auto res = run::process(bytes);
  r.step();
  if (res.status != 0) {
    r.check(res.doc->pages.empty(), "no-result", "an error code was returned, but there are pages");
    r.state("error " + std::to_string(res.status));
    return;
  }
  hierarchy::check(r, res.doc.get(), true);
  std::string t = run::txt(res.doc.get());
  r.check(!t.empty() && t.back() == '\n', "text", "the text does not end with a newline");
  run::serialize(ppp::serialization::PlainTextExtendedSerializer(), res.doc.get());
  run::serialize(ppp::serialization::JsonlSerializer(1), res.doc.get());
  r.state(hierarchy::shape(res.doc.get()) + t);
}
static void truncated(mc::Chooser& c, mc::Report& r) {
  int k = c.choose(3);
  int n = c.choose(originals()[k].size());
  bool cut = c.flag();  // the end or the beginning is missing
  if (!c.owns()) { return; }
  auto& o = originals()[k];
  damagedChecks(r, cut ? o.substr(n) : o.substr(0, n), "document " + std::to_string(k) + (cut ? " from byte " : " up to byte ") + std::to_string(n));
}
static void bytes(mc::Chooser& c, mc::Report& r) {
  static const std::vector<int> V = { -1, ' ', '9', 0xFF, -2, 0, '/', '<', '(', '-', 'R', ']', -3 };
  int k = c.choose(3);
  int n = c.choose(originals()[k].size()), v = V[c.choose(mc::tier(3, V.size()))];
  if (!c.owns()) { return; }
  std::string o = originals()[k];
  std::string what = "document " + std::to_string(k) + " byte " + std::to_string(n) + " ('" + o.substr(n, 1) + "') ";
  if (v == -1) { o.erase(n, 1); what += "removed"; } else if (v == -2) { o.insert(n, 1, o[n]); what += "doubled"; } else if (v == -3) { o[n] ^= 1; what += "^ 1"; }
  else { o[n] = static_cast<char>(v); what += "set to " + std::to_string(v); }
  damagedChecks(r, o, what);
}
// Every number of the file, including references, lengths and operands, replaced by others.
static void numbers(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> V = { "0", "-1", "99999999999", "2147483647", "1", "2", "3", "4", "20", "21", "22", "25", "100", "101", "102", "-2147483648", "1e400", "0.000001", "255", "1.5", "/x", "null", "[", "<<", "18446744073709551616" };
  static std::vector<std::vector<std::pair<size_t, size_t>>> tokens;
  if (tokens.empty()) {
    for (auto& o : originals()) {
      tokens.push_back({});
      for (size_t i = 0; i < o.size(); i++) {
        if (!isdigit(static_cast<unsigned char>(o[i])) || (i && (isalnum(static_cast<unsigned char>(o[i - 1])) || o[i - 1] == '.'))) { continue; }
        size_t e = i;
        while (e < o.size() && (isdigit(static_cast<unsigned char>(o[e])) || o[e] == '.')) { e++; }
        // (the long list of widths and the table of offsets: only the first ones)
        if (o.substr(i, 7) == "500 500" || o.substr(e, 6) == " 65535") { i = e; continue; }
        tokens.back().push_back({ i, e - i });
        i = e;
      }
    }
  }
  int k = c.choose(3);
  auto t = tokens[k][c.choose(tokens[k].size())];
  auto& v = V[c.choose(mc::tier(15, V.size()))];
  if (!c.owns()) { return; }
  std::string o = originals()[k];
  damagedChecks(r, o.substr(0, t.first) + v + o.substr(t.first + t.second), "document " + std::to_string(k) + " number at byte " + std::to_string(t.first) + " (" + o.substr(t.first, t.second) + ") replaced by " + v);
}
// Damage of the second page's content leaves the first and third pages' glyphs as they are.
static void isolated(mc::Chooser& c, mc::Report& r) {
  gen::Doc g;
  g.add(1, 20, 170); g.add(4, 20, 100); g.newPage(); g.add(6, 40, 150, 14); g.add(8, 100, 100); g.add(2, 20, 40); g.newPage(); g.add(3, 30, 120);
  std::string& s = g.pages[1].content;
  static const std::vector<int> V = { -1, ' ', '9', 0xFF, '(', '<', '[', 'q', -2, '-', '/', ')', 'Q', '.', -4 };
  int n = c.choose(s.size()), v = V[c.choose(V.size())];
  if (!c.owns()) { return; }
  if (v == -1) { s.erase(n, 1); } else if (v == -2) { s.insert(n, 1, s[n]); } else if (v == -4) { s.resize(n); } else { s[n] = static_cast<char>(v); }
  r.desc("byte " + std::to_string(n) + " of the second page, " + std::to_string(v));
  run::setModel({ 0 });
  auto res = run::process(g.pdf().build());
  r.step();
  if (!r.eq(res.status, 0, "status", "status") || !r.eq(res.doc->pages.size(), size_t(3), "pages", "number of pages")) { return; }
  hierarchy::check(r, res.doc.get(), true);
  for (int p : { 0, 2 }) {
    std::vector<std::string> got;
    for (auto* b : res.doc->pages[p]->blocks) { for (auto* l : b->lines) { for (auto* w : l->words) { for (auto* x : w->characters) { got.push_back(x->text); } } } }
    r.eq(join(got), join(g.pages[p].glyphs), "intact", "glyphs of the intact page " + std::to_string(p + 1));
  }
  r.state(run::txt(res.doc.get()));
}
static mc::Register r28a({ "P28", "truncated", "a case is a file cut off at its end or beginning", truncated, quiet, 400, 30 });
static mc::Register r28b({ "P28", "bytes", "a case is a file with one byte changed, removed or doubled", bytes, quiet, 400, 30 });
static mc::Register r28c({ "P28", "numbers", "a case is a file with one number or reference replaced", numbers, quiet, 400, 30 });
static mc::Register r28d({ "P28", "isolated", "a case is a damaged byte in the content of the second of three pages", isolated, quiet, 400, 30 });

#define SPACE(name, rule) \
  static mc::Register r01_##name({ "P01", #name, rule, [](mc::Chooser& c, mc::Report& r) { name(c, r, TEXT); }, quiet, 400 }); \
  static mc::Register r29_##name({ "P29", #name, rule, [](mc::Chooser& c, mc::Report& r) { name(c, r, HIERARCHY); }, quiet, 400 });
SPACE(one, "a case is an object (word, line, superscript, accent, operator with limits, figure, shape, ...) at some position, size, rotation and page")
SPACE(several, "a case is a sequence of objects at critical positions to each other, on one or several pages")
SPACE(rotated, "a case is a sequence of objects of all rotations at nearby positions")
SPACE(overprint, "a case is a text drawn several times at the same or nearby positions")
SPACE(large, "a case is a large document (pages, columns, rows) of one or two kinds of objects")
SPACE(flow, "a case is a page of rows in one or two columns, drawn by rows or by columns")

int main(int argc, char** argv) { return mc::driver(argc, argv); }
