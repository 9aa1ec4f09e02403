// P22: embedded Type 1 fonts. Font programs are generated (encrypted as the Type 1 format demands),
// embedded in a PDF, and the fonts and glyphs of the extraction result are checked.
#include "doc.h"
#include "run.h"
#include "poppler/Error.h"
using pdfgen::num;

static void quiet() { setErrorCallback([](ErrorCategory, Goffset, const char*) {}); }

// ------------------------------------------------------------------------------------------------
// The Type 1 format.
static std::string encrypt(const std::string& s, unsigned r) {
  std::string o;
  for (unsigned char c : s) { unsigned char x = c ^ (r >> 8); r = ((x + r) * 52845 + 22719) & 0xFFFF; o += static_cast<char>(x); }
  return o;
}
static std::string number(int v) {
  std::string s;
  if (v >= -107 && v <= 107) { s += static_cast<char>(v + 139); }
  else if (v >= 108 && v <= 1131) { s += static_cast<char>((v - 108) / 256 + 247); s += static_cast<char>((v - 108) % 256); }
  else if (v <= -108 && v >= -1131) { s += static_cast<char>((-v - 108) / 256 + 251); s += static_cast<char>((-v - 108) % 256); }
  else { s += '\xff'; for (int k = 24; k >= 0; k -= 8) { s += static_cast<char>(v >> k & 255); } }
  return s;
}
static std::string numbers(std::initializer_list<int> v) { std::string s; for (int x : v) { s += number(x); } return s; }

struct Font {
  // The clear text.
  std::string weight = "(Medium)", angle = "0", matrix = "[0.001 0 0 0.001 0 0]", newline = "\n", more;
  int lenIV = 4;
  bool statesLenIV = true;
  std::vector<std::string> subrs;                              // charstrings
  std::vector<std::pair<std::string, std::string>> glyphs;     // names and charstrings
  std::string garble = "ABCD";                                 // the random bytes in front of the encrypted portion
  std::string subrFill = std::string(16, 'x');                 // those in front of the charstrings
  std::string clear() const {
    std::string n = newline;
    return "%!PS-AdobeFont-1.0: Test 001.000" + n + "/FontName /Test def" + n + "/FontInfo 5 dict dup begin" + n + (weight.empty() ? "" : "/Weight " + weight + " readonly def" + n) +
      (angle.empty() ? "" : "/ItalicAngle " + angle + " def" + n) + "end readonly def" + n + "/PaintType 0 def" + n + "/FontType 1 def" + n + (matrix.empty() ? "" : "/FontMatrix " + matrix + "readonly def" + n) +
      "/Encoding StandardEncoding def" + n + "/FontBBox {0 0 1000 1000} readonly def" + n + more + "currentdict end" + n + "currentfile eexec" + n;
  }
  std::string code(const std::string& cs) const { return encrypt(subrFill.substr(0, lenIV) + cs, 4330); }
  std::string priv() const {
    std::string s = "dup /Private 8 dict dup begin\n/RD {string currentfile exch readstring pop} executeonly def\n/NP {noaccess put} executeonly def\n/ND {noaccess def} executeonly def\n/BlueValues [] def\n/password 5839 def\n";
    if (statesLenIV) { s += "/lenIV " + std::to_string(lenIV) + " def\n"; }
    s += "/Subrs " + std::to_string(subrs.size()) + " array\n";
    for (size_t i = 0; i < subrs.size(); i++) { std::string c = code(subrs[i]); s += "dup " + std::to_string(i) + " " + std::to_string(c.size()) + " RD " + c + " NP\n"; }
    s += "ND\n2 index /CharStrings " + std::to_string(glyphs.size()) + " dict dup begin\n";
    for (auto& g : glyphs) { std::string c = code(g.second); s += "/" + g.first + " " + std::to_string(c.size()) + " RD " + c + " ND\n"; }
    return s + "end\nend\nreadonly put\nnoaccess put\ndup/FontName get exch definefont pop\nmark currentfile closefile\n";
  }
  std::string binary() const { return encrypt(garble + priv(), 55665); }
  static std::string trailer() { std::string s; for (int i = 0; i < 8; i++) { s += std::string(64, '0') + "\n"; } return s + "cleartomark\n"; }
};
static std::string hex(const std::string& s, int line) {
  static const char* D = "0123456789abcdefABCDEF";
  std::string o;
  int k = 0;
  for (unsigned char c : s) { o += D[c >> 4]; o += D[(c & 15) >= 10 && k % 3 == 0 ? (c & 15) + 6 : c & 15]; if (line && ++k % line == 0) { o += '\n'; } }
  return o;
}
// The document: a page with the given text in the embedded font F8.
struct Embedding {
  std::string baseFont = "ABCDEF+Test", flags = "4", descriptor, subtype = "/Type1", fileKey = "FontFile", lengths;  // (lengths: replaced)
  std::string streamEntries;
};
static std::string document(const std::string& file, int length1, int length2, const std::string& content, const Embedding& e = {}, int glyphs = 26) {
  pdfgen::Pdf p;
  p.fonts = "/F8 20 0 R";
  std::string diff, w;
  for (int i = 0; i < glyphs; i++) { diff += std::string("/") + static_cast<char>((i < 26 ? 'A' : 'a' - 26) + i) + " "; w += "500 "; }
  std::string lengths = e.lengths.empty() ? "/Length1 " + std::to_string(length1) + " /Length2 " + std::to_string(length2) + " /Length3 532" : e.lengths;
  p.extraObjs = { "<< /Type /Font /Subtype " + e.subtype + " /BaseFont /" + e.baseFont + " /FirstChar 65 /LastChar " + std::to_string(64 + glyphs) + " /Widths [" + w + "] /Encoding << /Type /Encoding /Differences [65 " + diff + "] >> /FontDescriptor 21 0 R >>",
    "<< /Type /FontDescriptor /FontName /" + e.baseFont + " /Flags " + e.flags + " /FontBBox [0 -200 1000 900] /ItalicAngle 0 /Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 " + e.descriptor + " /" + e.fileKey + " 22 0 R >>",
    pdfgen::Pdf::stream(file, lengths + " " + e.streamEntries) };
  p.pages = { content };
  return p.build();
}
static std::string whole(const Font& f) { return f.clear() + f.binary() + Font::trailer(); }
static std::string document(const Font& f, const std::string& content, const Embedding& e = {}, int glyphs = 26) { return document(whole(f), f.clear().size(), f.binary().size(), content, e, glyphs); }

// ------------------------------------------------------------------------------------------------
// A reference interpreter of drawing commands: the area the outline certainly reaches, and the area of all
// points it names.
struct Area {
  double x1 = 1e9, y1 = 1e9, x2 = -1e9, y2 = -1e9;
  void add(double x, double y) { x1 = std::min(x1, x); x2 = std::max(x2, x); y1 = std::min(y1, y); y2 = std::max(y2, y); }
  bool empty() const { return x1 > x2; }
};
struct Pen {
  double x = 0, y = 0;
  Area drawn, all;
  void start(double sx, double sy) { x = sx; y = sy; all.add(x, y); }
  void move(double dx, double dy) { x += dx; y += dy; all.add(x, y); }
  void line(double dx, double dy) { drawn.add(x, y); move(dx, dy); drawn.add(x, y); }
  void curve(double a, double b, double c, double d, double e, double f) { drawn.add(x, y); move(a, b); move(c, d); move(e, f); drawn.add(x, y); }
};
struct Command { std::string name, code; std::function<void(Pen*)> draw; };
static const std::vector<std::string>& subroutines() {
  static const std::vector<std::string> S = { numbers({ 3, 0 }) + "\x0c\x10\x0c\x11\x0c\x11\x0c\x21\x0b", numbers({ 0, 1 }) + "\x0c\x10\x0b", numbers({ 0, 2 }) + "\x0c\x10\x0b", "\x0b",
    numbers({ 40, 350 }) + "\x05\x0b",                     // 4: dx dy rlineto
    number(4) + "\x0a" + number(-800) + "\x07\x0b",        // 5: calls 4, then a line downwards
    number(700) };                                         // 6: leaves a number
  return S;
}
static std::vector<Command> makeCommands() {
  auto op = [](std::initializer_list<int> v, char c) { return numbers(v) + std::string(1, c); };
  std::vector<Command> v;
  v.push_back({ "rlineto", op({ 100, 300 }, 5), [](Pen* p) { p->line(100, 300); } });
  v.push_back({ "vlineto up", op({ 1200 }, 7), [](Pen* p) { p->line(0, 1200); } });
  v.push_back({ "vlineto down", op({ -600 }, 7), [](Pen* p) { p->line(0, -600); } });
  v.push_back({ "hlineto", op({ 200 }, 6), [](Pen* p) { p->line(200, 0); } });
  v.push_back({ "rmoveto", op({ 10, 1100 }, 21), [](Pen* p) { p->move(10, 1100); } });
  v.push_back({ "vmoveto", op({ -500 }, 4), [](Pen* p) { p->move(0, -500); } });
  v.push_back({ "hmoveto", op({ -130 }, 22), [](Pen* p) { p->move(-130, 0); } });
  v.push_back({ "rrcurveto", op({ 10, 20, 30, 400, 50, 600 }, 8), [](Pen* p) { p->curve(10, 20, 30, 400, 50, 600); } });
  v.push_back({ "rrcurveto down", op({ 0, -300, 120, -300, -50, -600 }, 8), [](Pen* p) { p->curve(0, -300, 120, -300, -50, -600); } });
  v.push_back({ "vhcurveto", op({ 500, 100, 600, 200 }, 30), [](Pen* p) { p->curve(0, 500, 100, 600, 200, 0); } });
  v.push_back({ "hvcurveto", op({ 100, 200, 600, -90 }, 31), [](Pen* p) { p->curve(100, 0, 200, 600, 0, -90); } });
  v.push_back({ "closepath", op({}, 9), [](Pen*) {} });
  v.push_back({ "callsubr", op({ 4 }, 10), [](Pen* p) { p->line(40, 350); } });
  v.push_back({ "callsubr nested", op({ 5 }, 10), [](Pen* p) { p->line(40, 350); p->line(0, -800); } });
  v.push_back({ "number of a subr", op({ 6 }, 10) + "\x07", [](Pen* p) { p->line(0, 700); } });
  v.push_back({ "div", op({ 3000, 2 }, 12) + "\x0c\x07", [](Pen* p) { p->line(0, 1500); } });
  v.push_back({ "stems", op({ -20, 20 }, 1) + op({ 0, 1500 }, 3) + std::string("\x0c\x00", 2) + op({ 1, 2, 3, 4, 5, 6 }, 12) + "\x01" + op({ 1, 2, 3, 4, 5, 900 }, 12) + "\x02", [](Pen*) {} });
  v.push_back({ "hint replacement", op({ 4, 1, 3 }, 12) + "\x10\x0c\x11\x0a", [](Pen* p) { p->line(40, 350); } });
  return v;
}
static const std::vector<Command>& commands() { static const std::vector<Command> v = makeCommands(); return v; }

// Checks the boxes of glyphs at rotation 0: glyph i of the font size fs is at (x0 + i * fs / 2, y0).
static void checkGlyphs(mc::Report& r, const std::string& pdf, const std::vector<Pen>& pens, double x0, double y0, double fs, const double* fm) {
  run::setModel({ 0 });
  auto res = run::process(pdf);
  r.step();
  if (!r.eq(res.status, 0, "status", "status") || !r.eq(res.doc->pages.size(), size_t(1), "pages", "pages")) { return; }
  auto& cs = res.doc->pages[0]->characters;
  if (!r.eq(cs.size(), pens.size(), "glyphs", "number of glyphs")) { return; }
  for (size_t i = 0; i < cs.size(); i++) {
    auto* c = cs[i];
    std::string glyph = std::string(1, static_cast<char>((i < 26 ? 'A' : 'a' - 26) + i));
    r.eq(c->text, glyph, "text", "text of glyph " + std::to_string(i));
    double x = x0 + i * fs * 0.5, e = 0.07;
    auto place = [&](const Area& a) {  // on the page
      Area b;
      if (!a.empty()) { b.add(x + fs * (a.x1 * fm[0] + fm[4]), 200 - (y0 + fs * (a.y1 * fm[3] + fm[5]))); b.add(x + fs * (a.x2 * fm[0] + fm[4]), 200 - (y0 + fs * (a.y2 * fm[3] + fm[5]))); }
      return b;
    };
    Area in = place(pens[i].drawn), out = place(pens[i].all), std;
    std.add(x, 200 - y0 - 0.95 * fs); std.add(x + 0.5 * fs, 200 - y0 + 0.35 * fs);
    auto beyond = [&](const Area& a, double t) { return !a.empty() && (a.y1 < std.y1 - t || a.y2 > std.y2 + t); };
    auto* p = c->pos;
    auto same = [&](const Area& a) { return std::fabs(p->leftX - a.x1) < e && std::fabs(p->rightX - a.x2) < e && std::fabs(p->upperY - a.y1) < e && std::fabs(p->lowerY - a.y2) < e; };
    bool standard = same(std) && std::fabs(c->base - (200 - y0)) < e;
    // The box of the outline: contains everything drawn, and nothing beyond the points.
    bool outline = !in.empty() && p->leftX < in.x1 + e && p->rightX > in.x2 - e && p->upperY < in.y1 + e && p->lowerY > in.y2 - e &&
      p->leftX > out.x1 - e && p->rightX < out.x2 + e && p->upperY > out.y1 - e && p->lowerY < out.y2 + e && std::fabs(c->base - p->lowerY) < e;
    auto str = [](const Area& a) { return "(" + std::to_string(a.x1) + " " + std::to_string(a.y1) + " " + std::to_string(a.x2) + " " + std::to_string(a.y2) + ")"; };
    std::string box = "(" + std::to_string(p->leftX) + " " + std::to_string(p->upperY) + " " + std::to_string(p->rightX) + " " + std::to_string(p->lowerY) + ") base " + std::to_string(c->base);
    if (pens[i].drawn.empty()) { r.check(std::isfinite(p->leftX + p->upperY + p->rightX + p->lowerY) && (standard || (p->upperY > out.y1 - e && p->lowerY < out.y2 + e)), "box", [&] { return "glyph " + glyph + ": box " + box + ", nothing is drawn, standard " + str(std); }); }
    else if (beyond(in, 0.15)) { r.check(outline, "box", [&] { return "glyph " + glyph + ": box " + box + ", but the outline is " + str(in) + " (points " + str(out) + ")"; }); }
    else if (!beyond(out, 0.05)) { r.check(standard, "box", [&] { return "glyph " + glyph + ": box " + box + ", but the standard box is " + str(std) + " and comprises the outline " + str(in); }); }
    else { r.check(standard || outline, "box", [&] { return "glyph " + glyph + ": box " + box + ", neither the standard box " + str(std) + " nor the outline " + str(in); }); }
    r.state(box);
  }
}
static const double FM[6] = { 0.001, 0, 0, 0.001, 0, 0 };
static std::string show(int n, double x, double y, double fs) { std::string s; for (int i = 0; i < n; i++) { s += static_cast<char>('A' + i); } return pdfgen::text(x, y, s, fs, "F8"); }

// All sequences of drawing commands (the last commands of the sequences share a font).
static void outlines(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, mc::tier(4, 5));
  int start = c.choose(3);
  std::vector<int> cs;
  for (int i = 0; i + 1 < n; i++) { cs.push_back(c.choose(commands().size())); }
  if (!c.owns()) { return; }
  Font f;
  f.subrs = subroutines();
  std::vector<Pen> pens;
  std::string desc = start == 0 ? "hsbw" : start == 1 ? "sbw" : "hsbw moved";
  for (int k : cs) { desc += ", " + commands()[k].name; }
  for (size_t last = 0; last < commands().size(); last++) {
    Pen p;
    std::string code;
    if (start == 0) { code = numbers({ 0, 500 }) + "\x0d"; p.start(0, 0); }
    if (start == 1) { code = numbers({ 20, -100, 500, 0 }) + "\x0c\x07"; p.start(20, -100); }
    if (start == 2) { code = numbers({ -30, 500 }) + "\x0d" + numbers({ 60, 200 }) + "\x15"; p.start(-30, 0); p.move(60, 200); }
    for (int k : cs) { code += commands()[k].code; commands()[k].draw(&p); }
    code += commands()[last].code + "\x0e";
    commands()[last].draw(&p);
    f.glyphs.push_back({ std::string(1, static_cast<char>('A' + last)), code });
    pens.push_back(p);
  }
  r.desc("charstrings: " + desc);
  checkGlyphs(r, document(f, show(pens.size(), 20, 100, 10)), pens, 20, 100, 10, FM);
}
// Numbers in all encodings.
static void numerals(mc::Chooser& c, mc::Report& r) {
  static const std::vector<int> N = { 0, 1, 106, 107, 108, 109, 362, 363, 364, 365, 619, 620, 875, 876, 1130, 1131, 1132, 5000, 32000, 65536, 8388607 };
  int v = c.of(N) * (c.flag() ? -1 : 1), enc = c.choose(2), op = c.choose(4), scale = c.choose(2);
  if (!c.owns()) { return; }
  std::string code;
  if (enc) { code += '\xff'; for (int k = 24; k >= 0; k -= 8) { code += static_cast<char>(v >> k & 255); } } else { code = number(v); }
  double fs = std::abs(v) > 2000 ? 10000.0 / std::abs(v) : 10;
  double fm[6] = { 0.001, 0, 0, 0.001, 0, 0 };
  Font f;
  if (scale) { f.matrix = "[0.002 0 0 0.0005 0 0 ]"; fm[0] = 0.002; fm[3] = 0.0005; }
  f.subrs = subroutines();
  Pen p;
  p.start(0, 0);
  std::string s = numbers({ 0, 500 }) + "\x0d";
  if (op == 0) { s += code + "\x07"; p.line(0, v); }
  if (op == 1) { s += number(30) + code + "\x05"; p.line(30, v); }
  if (op == 2) { s += numbers({ 10, 20, 30 }) + code + numbers({ 40, 50 }) + "\x08"; p.curve(10, 20, 30, v, 40, 50); }
  if (op == 3) { s += code + "\x04" + numbers({ 10, 10 }) + "\x05"; p.move(0, v); p.line(10, 10); }
  f.glyphs = { { "A", s + "\x0e" } };
  r.desc("number " + std::to_string(v) + (enc ? " in five bytes" : "") + " operator " + std::to_string(op) + " matrix " + f.matrix);
  std::string size = num(fs);
  char b[40];
  snprintf(b, sizeof b, "%.8f", fs);
  checkGlyphs(r, document(f, std::string("BT /F8 ") + b + " Tf 1 0 0 1 100 100 Tm (A) Tj ET"), { p }, 100, 100, fs, fm);
}
// All containers: raw, hexadecimal and PFB files, numbers of random bytes, matrices, line ends, and subroutines
// whose encrypted bytes look like operators.
static void containers(mc::Chooser& c, mc::Report& r) {
  Font f;
  int kind = c.choose(6), iv = c.choose(5), matrix = c.choose(5);
  f.newline = c.of(std::vector<std::string>{ "\n", "\r", "\r\n" });
  int special = c.choose(5), size = c.choose(2), wrong = c.choose(3);
  if (!c.owns()) { return; }
  f.lenIV = iv == 0 || iv == 4 ? 4 : iv == 1 ? 0 : iv == 2 ? 1 : 8;
  f.statesLenIV = iv != 4;
  static const char* const M[] = { "[0.001 0 0 0.001 0 0]", "[0.001 0 0 0.001 0 0 ]", "[ 0.001 0 0 0.001 0 0 ] ", "[1e-3 0 0 0.0015 0 0]", "[0.0005 0 0 .0005 0.1 -0.2]" };
  static const double V[][6] = { { 0.001, 0, 0, 0.001, 0, 0 }, { 0.001, 0, 0, 0.001, 0, 0 }, { 0.001, 0, 0, 0.001, 0, 0 }, { 0.001, 0, 0, 0.0015, 0, 0 }, { 0.0005, 0, 0, 0.0005, 0.1, -0.2 } };
  f.matrix = M[matrix];
  f.subrs = subroutines();
  // A subroutine (the first one that is read, and never called) with the bytes in its encrypted form.
  static const char* const B[] = { "", "ND", " ND\n", "|-", "NP" };
  if (special) {
    std::string s;
    // (choose the plain bytes behind the first ones such that the wanted ones result)
    std::string want = B[special];
    unsigned rr = 4330;
    std::string plain = f.subrFill.substr(0, f.lenIV) + "\x0b";
    for (unsigned char ch : plain) { unsigned char x = ch ^ (rr >> 8); rr = ((x + rr) * 52845 + 22719) & 0xFFFF; }
    s = "\x0b";
    for (unsigned char ch : want) { s += static_cast<char>(ch ^ (rr >> 8)); rr = ((ch + rr) * 52845 + 22719) & 0xFFFF; }
    f.subrs[3] = s;
  }
  std::string start = numbers({ 0, 500 }) + "\x0d";
  std::vector<Pen> pens(3);
  for (auto& p : pens) { p.start(0, 0); }
  f.glyphs.push_back({ "A", start + number(5) + "\x0a\x0e" });
  pens[0].line(40, 350); pens[0].line(0, -800);
  f.glyphs.push_back({ "B", start + number(2900) + "\x07\x0e" });
  pens[1].line(0, 2900);
  f.glyphs.push_back({ "C", start + numbers({ 100, 100 }) + "\x05\x0e" });
  pens[2].line(100, 100);
  std::string a = f.clear(), b = f.binary(), t = Font::trailer(), file;
  int l1 = a.size(), l2 = b.size();
  Embedding e;
  auto segment = [](int type, const std::string& s) { std::string o = "\x80"; o += static_cast<char>(type); for (int k = 0; k < 32; k += 8) { o += static_cast<char>(s.size() >> k & 255); } return o + s; };
  switch (kind) {
    case 0: file = a + b + t; break;
    case 1: b = hex(b, 0); file = a + b + t; l2 = b.size(); break;
    case 2: b = hex(b, 32); file = a + b + t; l2 = b.size(); break;
    case 3: file = segment(1, a) + segment(2, b) + segment(1, t); break;
    case 4: file = hex(a + b + t, 40) + ">"; e.streamEntries = "/Filter /ASCIIHexDecode"; break;
    default: b = hex(b, 2); file = a + b + t; l2 = b.size(); break;
  }
  // (The lengths may be too large: the data ends earlier.)
  if (wrong == 1) { l2 += 300; }
  if (wrong == 2) { l2 += 100000; }
  r.desc("container " + std::to_string(kind) + " lenIV " + std::to_string(f.lenIV) + " matrix " + f.matrix + " special " + B[special] + " newline " + std::to_string(f.newline.size()) + f.newline[0] + " length2 +" + std::to_string(wrong));
  double fs = size ? 4 : 12;
  checkGlyphs(r, document(file, l1, l2, show(3, 50, 100, fs), e), pens, 50, 100, fs, V[matrix]);
}
// Names, flags and weights.
static void styles(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> NAMES = { "Test", "ABCDEF+Test", "ABCDEF+Test12-BoldItalic", "Test-Bold", "TESTBLACK", "Te1st2#2bx", "X#20Y-Italic-9", "oblique", "ITALIC", "CMBX10", "-Bold", "1234", "A+B+C3-D", "BoldBlack+x", "Semibold" };
  static const std::vector<std::string> WEIGHTS = { "", "(Regular)", "(Medium)", "(Bold)", "(Black)", "(bold)", "()" };
  static const std::vector<std::string> ANGLES = { "", "0", "-12", "0.0", "9.5", "-0", "0.5" };
  static const std::vector<std::string> FLAGS = { "4", "32", "68", "262148", "6", "1", "262214" };
  static const std::vector<int> DESC = { 0, 100, 400, 700, 900 };
  bool embedded = c.flag();
  std::string name = c.of(NAMES), flags = c.of(FLAGS);
  int w = c.of(DESC);
  std::string weight, angle = "0", newline = "\n";
  bool skip = false;
  if (embedded) { weight = c.of(WEIGHTS); angle = c.of(ANGLES); newline = c.of(std::vector<std::string>{ "\n", "\r\n", "\r" }); skip = c.flag(); }
  if (!c.owns()) { return; }
  r.desc("font " + name + " flags " + flags + " weight of the descriptor " + std::to_string(w) + (embedded ? " embedded with weight " + weight + " angle " + angle + " newline " + std::to_string(newline.size()) + (newline == "\n" ? "n" : "r") + (skip ? " not read" : "") : ""));
  Font f;
  f.weight = weight; f.angle = angle; f.newline = newline;
  f.glyphs = { { "A", numbers({ 0, 500 }) + "\x0d" + numbers({ 100, 100 }) + "\x05\x0e" } };
  Embedding e;
  e.baseFont = name; e.flags = flags;
  if (w) { e.descriptor = "/FontWeight " + std::to_string(w); }
  if (!embedded) { e.fileKey = "Nothing"; }
  run::setModel({ 0 });
  Config conf = run::config();
  conf.pdfParsing.skipEmbeddedFontFilesParsing = skip;
  auto res = run::process(document(f, pdfgen::text(20, 100, "AA", 10, "F8"), e), &conf);
  r.step();
  if (!r.eq(res.status, 0, "status", "status") || !r.eq(res.doc->pages.size(), size_t(1), "pages", "pages") || !r.eq(res.doc->pages[0]->characters.size(), size_t(2), "glyphs", "glyphs")) { return; }
  std::string real;
  for (size_t i = 0; i < name.size(); i++) { if (name[i] == '#') { real += static_cast<char>(std::stoi(name.substr(i + 1, 2), nullptr, 16)); i += 2; } else { real += name[i]; } }
  std::string lower = real, norm, base;
  for (char& ch : lower) { ch = tolower(ch); }
  norm = lower.substr(lower.find('+') == std::string::npos ? 0 : lower.find('+') + 1);
  for (char ch : norm.substr(0, norm.find('-'))) { if (!isdigit(static_cast<unsigned char>(ch))) { base += ch; } }
  auto has = [&](const char* x) { return lower.find(x) != std::string::npos; };
  int fl = std::stoi(flags), want = w ? w : 400;
  if (fl >> 18 & 1) { want = 700; }
  if (has("bold")) { want = 700; }
  if (has("black")) { want = 800; }
  if (embedded && !skip) { if (weight == "(Regular)") { want = 400; } if (weight == "(Medium)") { want = 500; } if (weight == "(Bold)") { want = 700; } }
  bool italic = (fl >> 6 & 1) || has("italic");
  if (embedded && !skip && !angle.empty() && std::stod(angle) != 0) { italic = true; }
  for (auto* ch : res.doc->pages[0]->characters) {
    r.eq(ch->fontName, real, "name", "name of the font");
    auto it = res.doc->fontInfos.find(ch->fontName);
    if (!r.check(it != res.doc->fontInfos.end(), "font", "there is no font of the name of the glyph")) { return; }
    auto* i = it->second;
    r.eq(i->fontName, real, "name", "name of the font");
    r.eq(i->normFontName, norm, "normalized", "normalized name");
    r.eq(i->fontBaseName, base, "base", "base name");
    r.eq(i->weight, want, "weight", "weight");
    r.eq(int(i->isItalic), int(italic), "italic", "italic");
    if (fl & 1) { r.eq(int(i->isFixedWidth), 1, "flags", "fixed width"); }  // (poppler also detects it by the widths)
    r.eq(int(i->isSerif), fl >> 1 & 1, "flags", "serif");
    r.eq(int(i->isSymbolic), fl >> 2 & 1, "flags", "symbolic");
    r.eq(int(i->isType3), 0, "type3", "type 3");
  }
  r.state(norm + base + std::to_string(want) + std::to_string(italic) + flags);
}

// Documents with fonts of several types: each has its own data.
static void kinds(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, mc::tier(3, 4));
  std::vector<int> ks;
  for (int i = 0; i < n; i++) { ks.push_back(c.choose(6)); }
  bool repeat = c.flag(), pages = c.flag();
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  std::string d, content, w;
  for (int i = 0; i < 224; i++) { w += "500 "; }
  static const char* const NAMES[] = { "", "Alpha", "Beta-Bold", "XYZABC+Gamma-Italic", "DeltaBlack", "" };
  struct Want { std::string name; int type3, weight, italic; };
  std::vector<Want> want;
  for (int i = 0; i < n; i++) {
    int k = ks[i], obj = 20 + 2 * i;
    std::string res = "K" + std::to_string(i), name = NAMES[k] + (k && k < 5 ? std::string(1, 'p' + i) : ""), desc;
    if (k > 0 && k < 5) { desc = "/FontDescriptor << /Type /FontDescriptor /FontName /" + name + " /Flags 4 /FontBBox [0 -200 1000 900] /ItalicAngle 0 /Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 >>"; }
    pdf.fonts += "/" + res + " " + std::to_string(obj) + " 0 R ";
    if (k == 0 || k == 5) {
      pdf.extraObjs.push_back("<< /Type /Font /Subtype /Type3 /FontBBox [0 0 750 750] /FontMatrix [0.001 0 0 0.001 0 0] /CharProcs << /a " + std::to_string(obj + 1) + " 0 R >> /Encoding << /Type /Encoding /Differences [97 /a /b] >> /FirstChar 97 /LastChar 98 /Widths [500 500] /Resources << >> " +
        (k == 5 ? "/FontDescriptor << /Type /FontDescriptor /Flags 64 /ItalicAngle 0 >> " : "") + ">>");
      pdf.extraObjs.push_back(pdfgen::Pdf::stream("500 0 d0 0 0 750 750 re f"));
      want.push_back({ "font" + std::to_string(obj) + "_0", 1, 400, k == 5 });
    } else {
      pdf.extraObjs.push_back("<< /Type /Font /Subtype /" + std::string(k == 3 ? "TrueType" : "Type1") + " /BaseFont /" + name + " /FirstChar 32 /LastChar 255 /Widths [" + w + "] /Encoding /WinAnsiEncoding " + desc + " >>");
      pdf.extraObjs.push_back("null");
      want.push_back({ name, 0, k == 2 ? 700 : k == 4 ? 800 : 400, k == 3 });
    }
    d += (want.back().type3 ? "type 3" : name) + ", ";
  }
  std::vector<int> seq;
  for (int i = 0; i < n; i++) { seq.push_back(i); }
  if (repeat) { for (int i = n - 1; i >= 0; i--) { seq.push_back(i); } }
  int y = 180;
  for (int i : seq) {
    content += pdfgen::text(20, y, "a", 10, "K" + std::to_string(i));
    y -= 20;
    if (pages && y == 160) { pdf.pages.push_back(content); content.clear(); }
  }
  pdf.pages.push_back(content);
  r.desc(d + (repeat ? "each twice" : "") + (pages ? ", on two pages" : ""));
  run::setModel({ 0 });
  auto res = run::process(pdf.build());
  r.step();
  if (!r.eq(res.status, 0, "status", "status")) { return; }
  std::vector<ppp::types::PdfCharacter*> cs;
  for (auto* p : res.doc->pages) { cs.insert(cs.end(), p->characters.begin(), p->characters.end()); }
  if (!r.eq(cs.size(), seq.size(), "glyphs", "number of glyphs")) { return; }
  std::string st;
  for (size_t i = 0; i < seq.size(); i++) {
    const Want& x = want[seq[i]];
    auto it = res.doc->fontInfos.find(cs[i]->fontName);
    if (!r.eq(cs[i]->fontName, x.name, "name", "name of the font of glyph " + std::to_string(i)) || !r.check(it != res.doc->fontInfos.end(), "font", "there is no font of the name of the glyph")) { return; }
    r.eq(int(it->second->isType3), x.type3, "type3", "type 3 flag of font " + std::to_string(seq[i]));
    r.eq(it->second->weight, x.weight, "weight", "weight of font " + std::to_string(seq[i]));
    r.eq(int(it->second->isItalic), x.italic, "italic", "italic flag of font " + std::to_string(seq[i]));
    st += x.name + std::to_string(x.type3);
  }
  std::set<std::string> names;
  for (auto& x : want) { names.insert(x.name); }
  r.eq(res.doc->fontInfos.size(), names.size(), "fonts", "number of fonts");
  r.state(st);
}
// ------------------------------------------------------------------------------------------------
// Damages. The text does not depend on the font program.
static void damaged(mc::Report& r, const std::string& pdf, int glyphs) {
  run::setModel({ 0 });
  auto res = run::process(pdf);
  r.step();
  if (!r.eq(res.status, 0, "status", "status") || !r.eq(res.doc->pages.size(), size_t(1), "pages", "pages")) { return; }
  auto& cs = res.doc->pages[0]->characters;
  if (!r.eq(cs.size(), size_t(glyphs), "glyphs", "number of glyphs")) { return; }
  std::string s;
  for (int i = 0; i < glyphs; i++) {
    r.eq(cs[i]->text, std::string(1, static_cast<char>('A' + i)), "text", "text of a glyph");
    auto* p = cs[i]->pos;
    r.check(std::isfinite(p->leftX + p->upperY + p->rightX + p->lowerY) && p->leftX <= p->rightX && p->upperY <= p->lowerY, "box", "the box of a glyph is not valid");
    s += std::to_string(p->leftX) + "," + std::to_string(p->upperY) + "," + std::to_string(p->rightX) + "," + std::to_string(p->lowerY) + ";";
  }
  for (auto& f : res.doc->fontInfos) { s += f.first + std::to_string(f.second->weight) + std::to_string(f.second->isItalic); }
  r.state(s);
}
static Font sample() {
  Font f;
  f.subrs = subroutines();
  std::string start = numbers({ 0, 500 }) + "\x0d";
  f.glyphs = { { "A", start + number(5) + "\x0a\x0e" }, { "B", start + numbers({ 10, 20, 30, 400, 50, 1600 }) + "\x08\x09\x0e" }, { "C", start + commands()[17].code + commands()[15].code + "\x0e" } };
  return f;
}
static const char* const BYTES[] = { "\x00", "\xff", " ", "9", "/", "R", "-", "\n", "]", "(" };
// One byte of the clear text, of the private portion before its encryption, of the encrypted file, or of a charstring before
// its encryption is replaced, removed or doubled, or all ends there.
static std::string damage(std::string s, int at, int how) {
  if (how == 0) { return s.substr(0, at); }
  if (how == 1) { s.erase(at, 1); return s; }
  if (how == 2) { s.insert(at, 1, s[at]); return s; }
  if (how == 3) { s[at] ^= 1; return s; }
  s[at] = BYTES[how - 4][0];
  return s;
}
static void bytes(mc::Chooser& c, mc::Report& r) {
  static const Font F = sample();
  static const std::string A = F.clear(), P = F.priv(), B = F.binary(), T = Font::trailer();
  int where = c.choose(4);
  const std::string* of = where == 0 ? &A : where == 1 ? &P : &B;
  int n = of->size(), at = 0, how = 0, g = 0;
  if (where < 3) { at = c.choose(n); how = c.choose(mc::tier(where == 2 ? 4 : 8, 14)); }
  else { g = c.choose(F.subrs.size() + F.glyphs.size()); const std::string& cs = g < static_cast<int>(F.subrs.size()) ? F.subrs[g] : F.glyphs[g - F.subrs.size()].second; at = c.choose(cs.size()); how = c.choose(4 + mc::tier(64, 256)); }
  if (!c.owns()) { return; }
  std::string file, desc = "byte " + std::to_string(at) + " changed in way " + std::to_string(how);
  int l1 = A.size(), l2 = B.size();
  if (where == 0) { file = damage(A, at, how) + B + T; desc += " in the clear text"; }
  if (where == 1) { std::string b = encrypt(F.garble + damage(P, at, how), 55665); file = A + b + T; l2 = b.size(); desc += " in the private portion"; }
  if (where == 2) { file = A + damage(B, at, how) + (how == 0 ? "" : T); desc += " in the encrypted portion"; }
  if (where == 3) {
    Font f = F;
    std::string& cs = g < static_cast<int>(f.subrs.size()) ? f.subrs[g] : f.glyphs[g - f.subrs.size()].second;
    if (how < 4) { cs = damage(cs, at, how); } else { cs[at] = static_cast<char>((how - 4) * mc::tier(4, 1) + mc::tier(at % 4, 0)); }
    l2 = f.binary().size();
    file = whole(f);
    desc += " in charstring " + std::to_string(g);
  }
  r.desc(desc);
  damaged(r, document(file, l1, l2, pdfgen::text(20, 100, "ABC", 10, "F8")), 3);
}
// All charstrings of a few bytes over the operators and numbers (as glyphs of a font, and in subroutines that call each other).
static void charstrings(mc::Chooser& c, mc::Report& r) {
  static const std::vector<unsigned char> B = { 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 21, 22, 30, 31, 0, 2, 16, 17, 33, 139, 140, 136, 247, 251, 255 };
  int n = c.range(1, mc::tier(3, 4)), prefix = c.choose(4);
  std::string s;
  for (int i = 0; i + 1 < n; i++) { s += static_cast<char>(c.of(B)); }
  bool subr = c.flag();
  if (!c.owns()) { return; }
  static const std::vector<std::string> P = { "", numbers({ 0, 500 }) + "\x0d", numbers({ 1, 2, 3, 4, 5, 6 }), std::string("\xff\x7f\xff\xff\xff\xff\x80\x00\x00\x00\xff\x7f\xff\xff\xff", 15) };
  Font f;
  f.subrs = { "\x0b", number(1) + "\x0a", number(3) + "\x0a", number(2) + "\x0a", "" };
  int k = 0;
  std::string d;
  for (unsigned char last : B) {
    if (k == 26) { break; }
    std::string code = P[prefix] + s + static_cast<char>(last);
    if (subr) { f.subrs.push_back(code); code = P[prefix] + number(f.subrs.size() - 1) + "\x0a" + static_cast<char>(last); }
    f.glyphs.push_back({ std::string(1, static_cast<char>('A' + k++)), code });
  }
  for (unsigned char ch : s) { d += std::to_string(ch) + " "; }
  r.desc("charstrings: prefix " + std::to_string(prefix) + " bytes " + d + "and any last one" + (subr ? ", in a subroutine" : ""));
  damaged(r, document(f, show(26, 20, 100, 5)), 26);
}
// Critical lengths, numbers of bytes and counts; other kinds of font files.
static void lengths(mc::Chooser& c, mc::Report& r) {
  static const Font F = sample();
  static const std::vector<std::string> V = { "0", "1", "-1", "4", "100", "1000000", "2147483647", "-2147483648", "99999999999", "1.5", "null", "(x)", "22 0 R", "99 0 R" };
  int what = c.choose(4);
  std::string file = whole(F);
  int l1 = F.clear().size(), l2 = F.binary().size();
  Embedding e;
  std::string desc;
  if (what == 0) {
    std::string a = c.of(V), b = c.choose(3) ? c.of(V) : std::to_string(l2);
    bool pfb = c.flag();
    e.lengths = "/Length1 " + a + " /Length2 " + b;
    if (pfb) { file = std::string("\x80\x01", 2) + c.of(std::vector<std::string>{ std::string("\xff\xff\xff\x7f", 4), std::string("\xff\xff\xff\xff", 4), std::string("\0\0\0\0", 4), std::string("\x10\0\0\0", 4) }) + F.clear() + std::string("\x80\x02", 2) +
      c.of(std::vector<std::string>{ std::string("\xff\xff\xff\x7f", 4), std::string("\0\0\0\x80", 4), std::string("\1\0\0\0", 4) }) + F.binary(); }
    desc = "lengths " + e.lengths;
  } else if (what == 1) {
    // Numbers in the private portion.
    static const std::vector<std::string> N = { "0", "1", "5", "999999999", "2147483648", "99999999999999999999", "-1", "x", "" };
    std::string p = F.priv(), from = c.of(std::vector<std::string>{ "/lenIV 4", "/Subrs 7", "dup 4 ", "/A ", "/CharStrings 3", " RD ", "/B " });
    std::string to = c.of(N);
    if (!c.owns()) { return; }
    size_t at = p.find(from);
    if (at == std::string::npos) { abort(); }
    if (from == "/lenIV 4") { p.replace(at, 8, "/lenIV " + to); } else if (from == " RD ") { size_t q = p.rfind(' ', at - 1); p.replace(q + 1, at - q - 1, to); }
    else if (from[0] == '/' && from.size() == 3) { size_t q = p.find(' ', at + 3); p.replace(at + 3, q - at - 3, to); }
    else if (from == "dup 4 ") { p.replace(at, 6, "dup " + to + " "); } else { p.replace(at + from.size() - 1, 1, to); }
    std::string b = encrypt(F.garble + p, 55665);
    file = F.clear() + b + Font::trailer();
    l2 = b.size();
    desc = "number at [" + from + "] is [" + to + "]";
    r.desc(desc);
    damaged(r, document(file, l1, l2, pdfgen::text(20, 100, "ABC", 10, "F8"), e), 3);
    return;
  } else if (what == 2) {
    e.fileKey = c.of(std::vector<std::string>{ "FontFile", "FontFile2", "FontFile3" });
    e.subtype = c.of(std::vector<std::string>{ "/Type1", "/TrueType", "/MMType1" });
    static const std::vector<std::string> S = { "", "/Subtype /Type1C", "/Subtype /OpenType", "/Subtype /CIDFontType0C", "/Subtype /Unknown" };
    e.streamEntries = c.of(S);
    int content = c.choose(5);
    if (content == 1) { file = std::string("\1\0\4\1\0\1\1\1\5Test\0\1\1\1", 18) + std::string(100, '\x05'); }
    if (content == 2) { file = std::string("\0\1\0\0\0\2\0\0\0\0\0\0", 12) + std::string(200, '\x01'); }
    if (content == 3) { file = ""; }
    if (content == 4) { file = "OTTO" + std::string(60, '\xff'); }
    desc = "font file " + e.fileKey + " of a font of type " + e.subtype + " " + e.streamEntries + " content " + std::to_string(content);
  } else {
    // Long names, many and long tokens.
    int n = c.of(std::vector<int>{ 1, 126, 127, 128, 1000, 100000 }), kind = c.choose(5);
    if (!c.owns()) { return; }
    Font f = F;
    std::string x(n, 'n');
    if (kind == 0) { f.glyphs.push_back({ x, "\x0e" }); }
    if (kind == 1) { f.more = "/" + x + " [" + std::string(n, '(') + "\n"; }
    if (kind == 2) { f.weight = "(" + x + ")"; f.angle = x; }
    if (kind == 3) { f.glyphs[0].second = std::string(n, '\x8b') + "\x05"; f.glyphs[1].second = number(0) + std::string(n, '\x0a'); }
    if (kind == 4) { for (int i = 0; i < std::min(n, 3000); i++) { f.subrs.push_back(number(i) + "\x0a\x0b"); } f.matrix = "[" + std::string(n, '0') + " " + std::string(n, '9') + " 1e" + std::string(std::min(n, 300), '9') + " 1]"; }
    r.desc("long parts " + std::to_string(n) + " kind " + std::to_string(kind));
    damaged(r, document(f, pdfgen::text(20, 100, "ABC", 10, "F8")), 3);
    return;
  }
  if (!c.owns()) { return; }
  r.desc(desc);
  damaged(r, document(file, l1, l2, pdfgen::text(20, 100, "ABC", 10, "F8"), e), 3);
}

#ifdef __SANITIZE_ADDRESS__
static mc::Register b1({ "P22", "bytes", "a case is a font program with one byte changed", bytes, quiet, 400, 30 });
static mc::Register b2({ "P22", "charstrings", "a case is 26 charstrings with the same first bytes", charstrings, quiet, 400, 30 });
static mc::Register b3({ "P22", "lengths", "a case is a font program with one length or number replaced, or of another kind", lengths, quiet, 400, 30 });
#else
static mc::Register a1({ "P22", "outlines", "a case is 18 charstrings with the same first drawing commands", outlines, quiet, 2000, 30 });
static mc::Register a2({ "P22", "numerals", "a case is a number, its encoding and the operator", numerals, quiet, 2000, 30 });
static mc::Register a3({ "P22", "containers", "a case is a container format, a matrix, line endings and critical bytes", containers, quiet, 2000, 30 });
static mc::Register a5({ "P22", "kinds", "a case is a sequence of fonts of several types", kinds, quiet, 2000, 30 });
static mc::Register a4({ "P22", "styles", "a case is a font name, flags, weights and an italic angle", styles, quiet, 2000, 30 });
#endif

int main(int argc, char** argv) { return mc::driver(argc, argv); }
