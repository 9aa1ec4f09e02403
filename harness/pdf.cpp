// P02 (glyph attributes), P03 (shapes, images, figures), P33 (glyph texts): all short programs of PDF
// operators, as real PDF files through the real parsing (PdfToTextPlusPlus::process with the later
// stages disabled), against a small interpreter of the PDF imaging model.
#include <array>
#include "doc.h"
#include "run.h"
#include "poppler/Error.h"
using namespace syn;
using pdfgen::num;
using pdfgen::lit;

static void quiet() { setErrorCallback([](ErrorCategory, Goffset, const char*) {}); }
static const Config& parseOnly() {
  static Config c = [] {
    Config k = run::config();
    k.glyphsStatisticsCalculation.disabled = k.diacriticalMarksMerging.disabled = k.wordsDetection.disabled = true;
    k.wordsStatisticsCalculation.disabled = k.pageSegmentation.disabled = k.textLinesDetection.disabled = true;
    k.textLinesStatisticsCalculation.disabled = k.subSuperScriptsDetection.disabled = k.textBlocksDetection.disabled = true;
    k.readingOrderDetection.disabled = k.semanticRolesPrediction.disabled = k.wordsDehyphenation.disabled = true;
    return k;
  }();
  return c;
}

// ------------------------------------------------------------------------------------------------
// The imaging model.
typedef std::array<double, 6> M;
static M mul(const M& a, const M& b) {
  return { a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3],
    a[4] * b[0] + a[5] * b[2] + b[4], a[4] * b[1] + a[5] * b[3] + b[5] };
}
static std::string mstr(const M& m) { std::string s; for (double d : m) { s += num(d) + " "; } return s; }
struct Font { std::string res, name; double width = 0.5; bool vertical = false; M matrix{ { 1, 0, 0, 1, 0, 0 } }; };
struct Glyph { std::string text; Box b; double base = 0, fs = 0, op = 1; double col[3] = { 0, 0, 0 }; int rot = 0, rank = 0, wm = 0, page = 0; std::string font; };
struct Painted { Box b; int rank = 0; bool known = false; };
struct Group { Box clip; std::vector<Glyph> glyphs; std::vector<Painted> shapes, graphics; };
struct Gs {
  M ctm{ { 1, 0, 0, 1, 0, 0 } };
  Box clip;
  Font font{ "F1", "AAAAAA+TestSans" };
  double fs = 10, tc = 0, tw = 0, tz = 1, tl = 0, ts = 0, op = 1;
  double col[3] = { 0, 0, 0 };
};
struct Vm {
  std::string out;  // the content stream
  Gs s;
  std::vector<Gs> stack;
  M tm, tlm;
  std::vector<Group> groups;  // the first one is the page
  std::vector<std::pair<double, double>> path;
  int* rank;
  int page;
  bool hiddenEdges = false;
  Vm(const pdfgen::Pdf& p, int rotate, int* rank, int page) : rank(rank), page(page) {
    // Device space has its origin at the upper left of the rotated page.
    double x0 = p.x0, y0 = p.y0, w = p.width, h = p.height;
    switch (rotate) {
      case 90: s.ctm = { 0, 1, 1, 0, -y0, -x0 }; break;
      case 180: s.ctm = { -1, 0, 0, 1, x0 + w, -y0 }; break;
      case 270: s.ctm = { 0, -1, -1, 0, y0 + h, x0 + w }; break;
      default: s.ctm = { 1, 0, 0, -1, -x0, y0 + h }; break;
    }
    bool swap = rotate == 90 || rotate == 270;
    s.clip = { 0, 0, swap ? h : w, swap ? w : h };
    groups.push_back({ s.clip });
  }
  void emit(const std::string& o) { out += o + "\n"; }
  // Graphics state
  void q() { emit("q"); stack.push_back(s); }
  void Q() { emit("Q"); if (!stack.empty()) { s = stack.back(); stack.pop_back(); } }
  void cm(const M& m) { emit(mstr(m) + "cm"); s.ctm = mul(m, s.ctm); }
  void stroke(double r, double g, double b) { emit(num(r) + " " + num(g) + " " + num(b) + " RG"); s.col[0] = r; s.col[1] = g; s.col[2] = b; }
  void gray(double g) { emit(num(g) + " G"); s.col[0] = s.col[1] = s.col[2] = g; }
  void alpha(const std::string& n, double a) { emit("/" + n + " gs"); s.op = a; }
  // Text
  void BT() { emit("BT"); tm = tlm = { 1, 0, 0, 1, 0, 0 }; }
  void ET() { emit("ET"); }
  void Tf(const Font& f, double fs) { emit("/" + f.res + " " + num(fs) + " Tf"); s.font = f; s.fs = fs; }
  void Tm(const M& m) { emit(mstr(m) + "Tm"); tm = tlm = m; }
  void td(double x, double y) { tlm = mul({ 1, 0, 0, 1, x, y }, tlm); tm = tlm; }
  void Td(double x, double y) { emit(num(x) + " " + num(y) + " Td"); td(x, y); }
  void TD(double x, double y) { emit(num(x) + " " + num(y) + " TD"); s.tl = -y; td(x, y); }
  void Tstar() { emit("T*"); td(0, -s.tl); }
  void TL(double v) { emit(num(v) + " TL"); s.tl = v; }
  void Tc(double v) { emit(num(v) + " Tc"); s.tc = v; }
  void Tw(double v) { emit(num(v) + " Tw"); s.tw = v; }
  void Tz(double v) { emit(num(v) + " Tz"); s.tz = v / 100; }
  void Ts(double v) { emit(num(v) + " Ts"); s.ts = v; }
  void Tj(const std::string& t) { emit(lit(t) + " Tj"); show(t); }
  void quote(const std::string& t) { emit(lit(t) + " '"); td(0, -s.tl); show(t); }
  void dquote(double tw, double tc, const std::string& t) { emit(num(tw) + " " + num(tc) + " " + lit(t) + " \""); s.tw = tw; s.tc = tc; td(0, -s.tl); show(t); }
  void adjust(double v) { double t = -v / 1000 * s.fs; tm = mul(s.font.vertical ? M{ 1, 0, 0, 1, 0, t } : M{ 1, 0, 0, 1, t * s.tz, 0 }, tm); }
  void TJ(double before, const std::string& a, double mid, const std::string& b) {
    emit("[" + num(before) + " " + lit(a) + " " + num(mid) + " " + lit(b) + "] TJ");
    adjust(before); show(a); adjust(mid); show(b);
  }
  Group& group() {
    auto eq = [](const Box& a, const Box& b) { return std::fabs(a.x0 - b.x0) < 0.1 && std::fabs(a.y0 - b.y0) < 0.1 && std::fabs(a.x1 - b.x1) < 0.1 && std::fabs(a.y1 - b.y1) < 0.1; };
    for (auto& g : groups) { if (eq(g.clip, s.clip)) { return g; } }
    groups.push_back({ s.clip });
    return groups.back();
  }
  void show(const std::string& t) {
    for (unsigned char c : t) {
      M trm = mul(mul({ s.fs * s.tz, 0, 0, s.fs, 0, s.ts }, tm), s.ctm), dir = mul(tm, s.ctm);
      M nxt = mul(mul({ 1, 0, 0, 1, s.font.width * s.fs * s.tz, 0 }, tm), s.ctm);
      if (c != ' ' && c != 0xA0) { glyph(std::string(1, c), trm, dir, nxt); }
      if (s.font.vertical) { tm = mul({ 1, 0, 0, 1, 0, -s.fs + s.tc + (c == ' ' ? s.tw : 0) }, tm); }
      else { tm = mul({ 1, 0, 0, 1, (s.font.width * s.fs + s.tc + (c == ' ' ? s.tw : 0)) * s.tz, 0 }, tm); }
    }
  }
  // A glyph of a composite font (horizontal writing): its code, text and width.
  struct Cid { std::string code, text; double width; };
  void showCid(const std::vector<Cid>& cs) {
    std::string h;
    for (auto& g : cs) {
      for (unsigned char b : g.code) { char z[4]; snprintf(z, sizeof z, "%02x", b); h += z; }
      M trm = mul(mul({ s.fs * s.tz, 0, 0, s.fs, 0, s.ts }, tm), s.ctm), dir = mul(tm, s.ctm);
      M nxt = mul(mul({ 1, 0, 0, 1, g.width * s.fs * s.tz, 0 }, tm), s.ctm);
      glyph(g.text, trm, dir, nxt);
      tm = mul({ 1, 0, 0, 1, (g.width * s.fs + s.tc + (g.code == " " ? s.tw : 0)) * s.tz, 0 }, tm);
    }
    emit("<" + h + "> Tj");
  }
  void glyph(const std::string& t, const M& trm, const M& dir, const M& nxt) {
    Glyph g;
    g.text = t; g.font = s.font.name; g.op = s.op; g.wm = s.font.vertical; g.page = page;
    for (int i = 0; i < 3; i++) { g.col[i] = s.col[i]; }
    g.fs = std::hypot(dir[2], dir[3]) * std::fabs(s.fs);
    M gl = mul(s.font.matrix, dir);  // the glyph space of type 3 fonts
    double a = gl[0] * s.fs, b = gl[1] * s.fs, c = gl[2] * s.fs, d = gl[3] * s.fs;
    // Reading from left to right, or with the top up: not rotated.
    if (std::fabs(a * d) > std::fabs(b * c)) { g.rot = a > 0 || d < 0 ? 0 : 2; } else { g.rot = c > 0 ? 1 : 3; }
    if (g.wm) { g.rot = (g.rot + 1) & 3; }
    double x = trm[4], y = trm[5], asc = 0.95 * g.fs, des = 0.35 * g.fs;
    if (g.wm) {
      static const int SX[4] = { -1, 0, 0, -1 }, SY[4] = { -1, -1, 0, 0 };
      g.b.add(x + SX[g.rot] * g.fs, y + SY[g.rot] * g.fs, x + (SX[g.rot] + 1) * g.fs, y + (SY[g.rot] + 1) * g.fs);
      g.base = 0;
    } else if (g.rot == 0 || g.rot == 2) {
      double up = g.rot == 0 ? asc : des, down = g.rot == 0 ? des : asc;
      g.b.add(std::min(x, nxt[4]), y - up, std::max(x, nxt[4]), y + down);
      g.base = y;
    } else {
      double left = g.rot == 1 ? des : asc, right = g.rot == 1 ? asc : des;
      g.b.add(x - left, std::min(y, nxt[5]), x + right, std::max(y, nxt[5]));
      g.base = x;
    }
    g.rank = (*rank)++;
    group().glyphs.push_back(g);
  }
  // Paths
  std::pair<double, double> dev(double x, double y) { return { x * s.ctm[0] + y * s.ctm[2] + s.ctm[4], x * s.ctm[1] + y * s.ctm[3] + s.ctm[5] }; }
  void pt(double x, double y) { path.push_back(dev(x, y)); }
  void re(double x, double y, double w, double h) { emit(num(x) + " " + num(y) + " " + num(w) + " " + num(h) + " re"); pt(x, y); pt(x + w, y); pt(x + w, y + h); pt(x, y + h); }
  void line(double x, double y, double x2, double y2) { emit(num(x) + " " + num(y) + " m " + num(x2) + " " + num(y2) + " l"); pt(x, y); pt(x2, y2); }
  void curve(double x, double y, double x1, double y1, double x2, double y2, double x3, double y3) {
    emit(num(x) + " " + num(y) + " m " + num(x1) + " " + num(y1) + " " + num(x2) + " " + num(y2) + " " + num(x3) + " " + num(y3) + " c");
    pt(x, y); pt(x1, y1); pt(x2, y2); pt(x3, y3);
  }
  void paint(const std::string& op) {
    emit(op);
    int times = op == "n" ? 0 : op[0] == 'B' || op[0] == 'b' ? 2 : 1;
    for (int k = 0; k < times; k++) {
      Painted p;
      bool any = false;
      const Box& c = s.clip;
      for (auto& q : path) {
        double x = std::round(q.first * 10) / 10, y = std::round(q.second * 10) / 10;
        if (x > c.x0 + 0.1001 && x < c.x1 - 0.1001 && y > c.y0 + 0.1001 && y < c.y1 - 0.1001) { p.b.add(x, y, x, y); any = true; }
      }
      if (!any) { continue; }
      p.rank = (*rank)++;
      group().shapes.push_back(p);
    }
    path.clear();
  }
  void clip(const std::string& op = "W n") {
    emit(op);
    Box h;
    for (auto& q : path) { h.add(q.first, q.second, q.first, q.second); }
    s.clip = { std::max(s.clip.x0, h.x0), std::max(s.clip.y0, h.y0), std::min(s.clip.x1, h.x1), std::min(s.clip.y1, h.y1) };
    path.clear();
  }
  void image(const std::string& what) {
    emit(what);
    Box b;
    for (int i = 0; i < 4; i++) { auto q = dev(i & 1, i >> 1); b.add(q.first, q.second, q.first, q.second); }
    const Box& c = s.clip;
    Painted p;
    p.b = { std::max(b.x0, c.x0), std::max(b.y0, c.y0), std::min(b.x1, c.x1), std::min(b.y1, c.y1) };
    if (p.b.x0 >= p.b.x1 - 0.1 || p.b.y0 >= p.b.y1 - 0.1) { return; }  // nothing of it inside
    // Known finding: images that begin at (or beyond) an edge of the clip are not extracted.
    p.known = s.ctm[4] <= c.x0 + 0.11 || s.ctm[5] <= c.y0 + 0.11 || s.ctm[4] + s.ctm[0] + s.ctm[2] >= c.x1 - 0.11 || s.ctm[5] + s.ctm[1] + s.ctm[3] >= c.y1 - 0.11;
    if (p.known) { hiddenEdges = true; return; }
    p.rank = (*rank)++;
    group().graphics.push_back(p);
  }
  // A form: what is drawn inside is written by `f` into the form's own stream.
  std::string form(const std::string& name, const Box& bbox, const M& m, const std::function<void()>& f) {
    emit("/" + name + " Do");
    std::string o = out;
    out.clear();
    Gs keep = s;
    s.ctm = mul(m, s.ctm);
    Box h;
    for (int i = 0; i < 4; i++) { auto q = dev(i & 1 ? bbox.x1 : bbox.x0, i & 2 ? bbox.y1 : bbox.y0); h.add(q.first, q.second, q.first, q.second); }
    s.clip = { std::max(s.clip.x0, h.x0), std::max(s.clip.y0, h.y0), std::min(s.clip.x1, h.x1), std::min(s.clip.y1, h.y1) };
    f();
    s = keep;
    std::string body = out;
    out = o;
    return body;
  }
};
static const Font F1{ "F1", "AAAAAA+TestSans" }, F2{ "F2", "BBBBBB+TestSans-Bold" }, F3{ "F3", "CCCCCC+TestSerif-Italic" };

// Values are rounded to one decimal: at most 0.05 from the exact value.
static bool near(double got, double exact) { return std::fabs(got - exact) <= 0.05 + 1e-6 && std::fabs(got * 10 - std::round(got * 10)) < 1e-6; }
static bool near(const Box& g, const Box& e) { return near(g.x0, e.x0) && near(g.y0, e.y0) && near(g.x1, e.x1) && near(g.y1, e.y1); }

static void checkGlyphs(mc::Report& r, const std::vector<PdfCharacter*>& got, const std::vector<Glyph>& exp, const std::string& where) {
  std::string a, b;
  for (auto* c : got) { a += c->text; }
  for (auto& g : exp) { b += g.text; }
  if (!r.eq(a, b, "glyphs", "glyphs of " + where)) { return; }
  for (size_t i = 0; i < exp.size(); i++) {
    auto* c = got[i];
    const Glyph& g = exp[i];
    auto tell = [&](const std::string& what, const std::string& x, const std::string& y) { return "glyph '" + g.text + "' (" + std::to_string(i) + ") of " + where + " has " + what + " " + x + ", expected " + y; };
    r.check(c->rank == g.rank, "rank", [&] { return tell("rank", std::to_string(c->rank), std::to_string(g.rank)); });
    r.check(c->pos->pageNum == g.page, "page", [&] { return tell("page", std::to_string(c->pos->pageNum), std::to_string(g.page)); });
    r.check(c->pos->rotation == g.rot, "rotation", [&] { return tell("rotation", std::to_string(c->pos->rotation), std::to_string(g.rot)); });
    r.check(c->pos->wMode == g.wm, "wmode", [&] { return tell("writing mode", std::to_string(c->pos->wMode), std::to_string(g.wm)); });
    r.check(near(boxOf(c), g.b), "box", [&] { return tell("box", boxOf(c).str(), g.b.str()); });
    if (!g.wm) { r.check(near(c->base, g.base), "base", [&] { return tell("base", std::to_string(c->base), std::to_string(g.base)); }); }
    r.check(near(c->fontSize, g.fs), "size", [&] { return tell("font size", std::to_string(c->fontSize), std::to_string(g.fs)); });
    r.check(c->fontName == g.font, "font", [&] { return tell("font", c->fontName, g.font); });
    r.check(std::fabs(c->opacity - g.op) < 1e-3, "opacity", [&] { return tell("opacity", std::to_string(c->opacity), std::to_string(g.op)); });
    for (int k = 0; k < 3; k++) { r.check(std::fabs(c->color[k] - g.col[k]) < 2e-3, "color", [&] { return tell("color component", std::to_string(c->color[k]), std::to_string(g.col[k])); }); }
  }
}
template <typename T> static void checkPainted(mc::Report& r, const std::vector<T*>& got, const std::vector<Painted>& exp, const std::string& what, int page) {
  if (!r.eq(got.size(), exp.size(), what + "-count", "number of " + what)) { return; }
  for (size_t i = 0; i < exp.size(); i++) {
    r.check(near(boxOf(got[i]), exp[i].b), what + "-box", [&] { return "box of " + what + " " + std::to_string(i) + " is " + boxOf(got[i]).str() + ", expected " + exp[i].b.str(); });
    r.eq(got[i]->rank, exp[i].rank, what + "-rank", "rank of " + what);
    r.check(got[i]->pos->pageNum == page, what + "-page", "wrong page number");
  }
}

// Runs a document and compares all pages. `vms` has the reference of each page.
static void checkDoc(mc::Report& r, pdfgen::Pdf& pdf, const std::vector<Vm*>& vms) {
  std::string d;
  for (auto* v : vms) { pdf.pages.push_back(v->out); d += v->out + " | "; }
  for (char& c : d) { if (c == '\n') { c = ';'; } }
  r.desc(d);
  auto res = run::process(pdf.build(), &parseOnly());
  r.step();
  if (!r.check(res.status == 0 && res.doc->pages.size() == vms.size(), "status", "the document was not processed")) { return; }
  std::string st;
  for (size_t p = 0; p < vms.size(); p++) {
    auto* pg = res.doc->pages[p];
    Vm& v = *vms[p];
    r.check(pg->pageNum == static_cast<int>(p) + 1, "page-number", "wrong page number");
    const Box& c = v.groups[0].clip;
    r.check(near({ pg->clipLeftX, pg->clipUpperY, pg->clipRightX, pg->clipLowerY }, c), "page-box", [&] { return "page box " + Box{ pg->clipLeftX, pg->clipUpperY, pg->clipRightX, pg->clipLowerY }.str() + ", expected " + c.str(); });
    std::string where = "page " + std::to_string(p + 1);
    checkGlyphs(r, pg->characters, v.groups[0].glyphs, where);
    checkPainted(r, pg->shapes, v.groups[0].shapes, "shape", p + 1);
    checkPainted(r, pg->graphics, v.groups[0].graphics, "graphic", p + 1);
    r.check(!v.hiddenEdges, "known:edge", "an image that begins at (or beyond) an edge of the clip is not extracted");
    if (r.eq(pg->figures.size(), v.groups.size() - 1, "figures", "number of figures of " + where)) {
      for (size_t i = 0; i < pg->figures.size(); i++) {
        auto* f = pg->figures[i];
        Group& g = v.groups[i + 1];
        checkGlyphs(r, f->characters, g.glyphs, "figure " + std::to_string(i) + " of " + where);
        checkPainted(r, f->shapes, g.shapes, "figure-shape", p + 1);
        checkPainted(r, f->graphics, g.graphics, "figure-graphic", p + 1);
        Box b;
        for (auto& x : g.glyphs) { b.add(x.b); }
        for (auto& x : g.shapes) { b.add(x.b); }
        for (auto& x : g.graphics) { b.add(x.b); }
        r.check(near(boxOf(f), b), "figure-box", [&] { return "box of figure " + std::to_string(i) + " is " + boxOf(f).str() + ", expected " + b.str(); });
        r.check(near({ f->clipLeftX, f->clipUpperY, f->clipRightX, f->clipLowerY }, g.clip), "figure-clip", [&] { return "clip of figure " + std::to_string(i) + ", expected " + g.clip.str(); });
        r.check(f->pos->pageNum == p + 1.0, "figure-page", "wrong page number of a figure");
      }
    }
    for (auto* ch : pg->characters) { std::stringstream o; o << ch->text << boxOf(ch) << ch->pos->rotation; st += o.str(); }
    for (auto* s : pg->shapes) { st += boxOf(s).str(); }
    for (auto* s : pg->graphics) { st += "g" + boxOf(s).str(); }
    for (auto* s : pg->figures) { st += "f" + boxOf(s).str(); }
  }
  r.state(st);
}

// ------------------------------------------------------------------------------------------------
// P02
static const std::string RES = "/ExtGState << /G5 << /CA 0.5 /ca 0.25 >> /G1 << /CA 1 >> >>";
static void textOp(Vm& v, int k, int* n) {
  auto t = [&] { return std::string(1, 'b' + (*n)++); };
  switch (k) {
    case 0: v.Tj(t()); break;
    case 1: v.Td(5, -12); break;
    case 2: v.TD(0, -14); break;
    case 3: v.Tstar(); break;
    case 4: v.Tm({ 1, 0, 0, 1, 60, 70 }); break;
    case 5: v.Tm({ 0, 1, -1, 0, 80, 60 }); break;
    case 6: v.Tm({ 2, 0, 0, 2, 50, 80 }); break;
    case 7: v.Tc(2.5); break;
    case 8: v.Tw(3); break;
    case 9: v.Tz(150); break;
    case 10: v.TL(15); break;
    case 11: v.Ts(4); break;
    case 12: v.Tf(F2, 7.5); break;
    case 13: v.quote(t()); break;
    case 14: { std::string a = t(); v.dquote(1.5, 1, a + " " + t()); break; }
    case 15: { std::string a = t(); v.TJ(250, a, -500, t()); break; }
    case 16: { std::string a = t(); v.Tj(a + " " + t()); break; }
    case 17: v.stroke(1, 0.5, 0); break;
    case 18: v.Tj("\xA0"); break;
    case 19: v.emit("0 0 1 rg 3 Tr"); break;
    case 20: v.Tf(F3, -12); break;
    case 21: v.Tm({ -1, 0, 0, -1, 90, 90 }); break;
    case 22: v.Ts(-2); break;
    case 23: v.gray(0.5); break;
    case 24: v.Tj(""); break;
    case 25: v.Tm({ 0, -1, 1, 0, 80, 90 }); break;
    case 26: v.alpha("G5", 0.5); break;
    default: v.Tm({ 1, 0, 0, -1, 60, 60 }); break;
  }
}
static void textOps(mc::Chooser& c, mc::Report& r) {
  int len = c.range(0, mc::tier(3, 4));
  std::vector<int> ops;
  for (int i = 0; i < len; i++) { ops.push_back(c.choose(len == 4 ? 18 : 28)); }
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  pdf.resources = RES;
  int rank = 0, n = 0;
  Vm v(pdf, 0, &rank, 1);
  v.BT(); v.Tf(F1, 10); v.Td(50, 100); v.Tj("a");
  for (int k : ops) { textOp(v, k, &n); }
  v.Tj("z");
  v.ET();
  checkDoc(r, pdf, { &v });
}
static const std::vector<M> MS = { { 1, 0, 0, 1, 0, 0 }, { 0, 1, -1, 0, 150, 20 }, { -1, 0, 0, -1, 160, 150 }, { 0, -1, 1, 0, 20, 160 }, { 1, 0, 0, 1, 20.3, 10.7 },
  { 1.5, 0, 0, 1.5, 5, 5 }, { 1, 0, 0, -1, 10, 150 }, { -1, 0, 0, 1, 150, 10 }, { 0.8, 0, 0, 1.2, 0, 0 }, { 1, 0, 0.3, 1, 0, 0 }, { 0.9848, 0.1736, -0.1736, 0.9848, 10, 10 }, { 0, 1, 1, 0, 10, 10 } };
static void matrices(mc::Chooser& c, mc::Report& r) {
  pdfgen::Pdf pdf;
  int rot = 90 * c.choose(4);
  bool origin = c.flag();
  const M& a = c.of(MS);
  const M& b = c.of(MS);
  double tz = c.flag() ? 80 : 100, ts = c.flag() ? 3 : 0, fs = c.of(mc::thorough() ? std::vector<double>{ 10, 7.3, -9, 0.5 } : std::vector<double>{ 10, 7.3 });
  if (!c.owns()) { return; }
  pdf.width = 220; pdf.height = 180;
  if (origin) { pdf.x0 = -30; pdf.y0 = 17.5; }
  pdf.rotate = { rot };
  int rank = 0;
  Vm v(pdf, rot, &rank, 1);
  v.q(); v.cm(a); v.BT(); v.Tf(F1, fs); v.Tz(tz); v.Ts(ts); v.Tm(b); v.Td(12.4, 31.6); v.Tj("ab"); v.ET(); v.Q();
  v.BT(); v.Tf(F2, 10); v.Td(20, 30); v.Tj("c"); v.ET();
  checkDoc(r, pdf, { &v });
}
// Operators of the graphics state around pieces of text, on one or two pages.
static void stateOps(mc::Chooser& c, mc::Report& r) {
  int len = c.range(0, mc::tier(4, 5)), two = c.choose(2);
  std::vector<int> ops;
  for (int i = 0; i < len; i++) { ops.push_back(c.choose(len <= 3 ? 12 : 9)); }
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  pdf.resources = RES + " /XObject << /Fm 20 0 R >>";
  int rank = 0, n = 0;
  std::vector<std::unique_ptr<Vm>> vs;
  std::string body, fres = "/Resources << /Font << /F1 3 0 R /F2 4 0 R >> >>";
  M fm{ { 1, 0, 0, 1, 7, 9 } };
  Box bb{ -500, -500, 500, 500 };
  for (int p = 0; p <= two; p++) {
    vs.emplace_back(new Vm(pdf, 0, &rank, p + 1));
    Vm& v = *vs.back();
    auto text = [&](double x) { v.BT(); v.Td(x, 60); v.Tj(std::string(1, 'a' + n % 26)); n++; v.ET(); };
    v.Tf(F1, 10);
    for (int k : ops) {
      switch (k) {
        case 0: text(40); break;
        case 1: v.q(); break;
        case 2: v.Q(); break;
        case 3: v.cm({ 1, 0, 0, 1, 10, 20 }); break;
        case 4: v.stroke(0, 1, 0.5); break;
        case 5: v.Tf(F2, 20); break;
        case 6: v.alpha("G5", 0.5); break;
        case 7: body = v.form("Fm", bb, fm, [&] { v.cm({ 2, 0, 0, 2, 0, 0 }); v.BT(); v.Td(20, 30); v.Tj("X"); v.ET(); v.stroke(1, 1, 0); v.Tf(F2, 30); }); break;
        case 8: v.cm({ 0, 1, -1, 0, 100, 0 }); break;
        case 9: v.Tc(3); break;
        case 10: v.alpha("G1", 1); break;
        default: v.re(20, 20, 10, 10); v.paint("f"); break;
      }
    }
    text(60);
  }
  if (body.empty()) { body = "0 g"; }
  pdf.extraObjs = { pdfgen::Pdf::stream(body, "/Type /XObject /Subtype /Form /BBox [-500 -500 500 500] /Matrix [1 0 0 1 7 9] " + fres) };
  std::vector<Vm*> ps;
  for (auto& v : vs) { ps.push_back(v.get()); }
  checkDoc(r, pdf, ps);
}
// Vertical writing mode: a composite font with Identity-V encoding.
static void vertical(mc::Chooser& c, mc::Report& r) {
  pdfgen::Pdf pdf;
  const M& a = c.of(MS);
  int rot = 90 * c.choose(4), len = c.range(1, 3);
  double tc = c.choose(3);
  bool wmode = c.flag();
  if (!c.owns()) { return; }
  pdf.rotate = { rot };
  pdf.fonts = "/FV 20 0 R";
  pdf.extraObjs = { std::string("<< /Type /Font /Subtype /Type0 /BaseFont /TestCid /Encoding /") + (wmode ? "Identity-V" : "Identity-H") + " /DescendantFonts [21 0 R] /ToUnicode 22 0 R >>",
    "<< /Type /Font /Subtype /CIDFontType2 /BaseFont /TestCid /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> /DW 1000 /FontDescriptor "
    "<< /Type /FontDescriptor /FontName /TestCid /Flags 4 /FontBBox [0 -200 1000 900] /ItalicAngle 0 /Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 >> >>",
    pdfgen::Pdf::stream("/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /T def 1 begincodespacerange <0000> <ffff> endcodespacerange 1 beginbfrange <0061> <007a> <0061> endbfrange endcmap end end") };
  int rank = 0;
  Vm v(pdf, rot, &rank, 1);
  v.BT(); v.Tf({ "FV", "TestCid", 1.0, wmode }, 10); v.Tc(tc); v.Tm(mul({ 1, 0, 0, 1, 40, 90 }, a));
  std::string t, raw;
  for (int i = 0; i < len; i++) { t += static_cast<char>('a' + i); raw += '\0'; raw += static_cast<char>('a' + i); }
  v.emit(lit(raw) + " Tj");
  if (wmode) {
    // The glyph is placed by its position vector (here: half of its width, 0.88 of its height).
    for (char ch : t) {
      M trm = mul(mul({ v.s.fs, 0, 0, v.s.fs, 0, 0 }, v.tm), v.s.ctm), dir = mul(v.tm, v.s.ctm);
      v.glyph(std::string(1, ch), trm, dir, dir);
      v.tm = mul({ 1, 0, 0, 1, 0, -v.s.fs + tc }, v.tm);
    }
  } else { v.show(t); }
  v.ET();
  checkDoc(r, pdf, { &v });
}
// Composite fonts: codes of one to three bytes, with a width of their own.
static void composite(mc::Chooser& c, mc::Report& r) {
  // CIDs as in the maps below; the width of CID n, and codes whose bytes mean another glyph when they are swapped.
  static const std::vector<Vm::Cid> ID = { { { 1, 2 }, "a", 0.3 }, { { 2, 1 }, "b", 0.9 }, { { 0, 'a' }, "c", 0.7 }, { { 'a', 0 }, "d", 0.4 }, { { 0, ' ' }, "e", 1.2 }, { { 5, 5 }, "f", 0.55 }, { { ' ', ' ' }, "ffi", 0.8 } };
  static const std::vector<Vm::Cid> MX = { { "A", "a", 0.3 }, { " ", "b", 0.9 }, { "\x80\x81", "c", 0.7 }, { "\x81\x80", "d", 0.4 }, { "\x01\x01\x02", "e", 1.2 }, { "\x01\x02\x01", "f", 0.55 }, { "B", "ffi", 0.8 } };
  bool mixed = c.flag();
  const auto& all = mixed ? MX : ID;
  int len = c.range(1, mc::tier(2, 3));
  std::vector<Vm::Cid> t;
  for (int i = 0; i < len; i++) { t.push_back(all[c.choose(7)]); }
  M a = c.of(std::vector<M>{ { 1, 0, 0, 1, 40, 90 }, { 0, 1, -1, 0, 90, 40 }, { 2, 0, 0, 1.5, 20, 60 } });
  double tz = c.of(std::vector<double>{ 100, 60 });
  int sp = c.choose(mixed ? 2 : 3);  // word spacing only where no visible glyph has the code 32
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  pdf.fonts = "/FC 20 0 R";
  std::string cm = "/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /Mine def 3 begincodespacerange <20> <7f> <8000> <bfff> <010000> <01ffff> endcodespacerange "
    "7 begincidchar <41> 258 <20> 513 <8081> 97 <8180> 24832 <010102> 32 <010201> 1285 <42> 8224 endcidchar endcmap end end";
  auto uni = [&] {
    std::string u = "/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /T def ";
    u += mixed ? "3 begincodespacerange <20> <7f> <8000> <bfff> <010000> <01ffff> endcodespacerange" : "1 begincodespacerange <0000> <ffff> endcodespacerange";
    u += " 7 beginbfchar ";
    for (auto& g : all) {
      u += "<"; for (unsigned char b : g.code) { char z[4]; snprintf(z, sizeof z, "%02x", b); u += z; }
      u += "> <"; for (char b : g.text) { char z[8]; snprintf(z, sizeof z, "00%02x", b); u += z; }
      u += "> ";
    }
    return u + "endbfchar endcmap end end";
  };
  pdf.extraObjs = { std::string("<< /Type /Font /Subtype /Type0 /BaseFont /TestCid /Encoding ") + (mixed ? "23 0 R" : "/Identity-H") + " /DescendantFonts [21 0 R] /ToUnicode 22 0 R >>",
    "<< /Type /Font /Subtype /CIDFontType2 /BaseFont /TestCid /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >> /DW 1000 "
    "/W [258 [300] 513 513 900 97 [700] 24832 24832 400 32 [1200] 1285 [550] 8224 [800]] /FontDescriptor "
    "<< /Type /FontDescriptor /FontName /TestCid /Flags 4 /FontBBox [0 -200 1000 900] /ItalicAngle 0 /Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 >> >>",
    pdfgen::Pdf::stream(uni()),
    pdfgen::Pdf::stream(cm, "/Type /CMap /CMapName /Mine /CIDSystemInfo << /Registry (Adobe) /Ordering (Identity) /Supplement 0 >>") };
  int rank = 0;
  Vm v(pdf, 0, &rank, 1);
  v.BT(); v.Tf({ "FC", "TestCid" }, 10); v.Tz(tz);
  if (sp == 1) { v.Tc(2); }
  if (sp == 2) { v.Tw(3); }
  v.Tm(a); v.showCid(t); v.ET();
  checkDoc(r, pdf, { &v });
}
// Simple fonts whose glyphs have widths of their own, also beyond the listed ones.
static void widths(mc::Chooser& c, mc::Report& r) {
  static const std::vector<Vm::Cid> G = { { "a", "a", 0.3 }, { "b", "b", 0.9 }, { "c", "c", 0 }, { "d", "d", 0.65 }, { "z", "z", 0.45 }, { "A", "A", 0.45 }, { "\xe9", "\xc3\xa9", 0.45 } };
  int len = c.range(1, mc::tier(3, 4)), kind = c.choose(2);
  std::vector<Vm::Cid> t;
  for (int i = 0; i < len; i++) { t.push_back(G[c.choose(7)]); }
  double fs = c.of(std::vector<double>{ 10, 8.25, -6 }), tz = c.of(std::vector<double>{ 100, 130 }), tc = c.of(std::vector<double>{ 0, -1 });
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  pdf.fonts = "/FW 20 0 R";
  pdf.extraObjs = { std::string("<< /Type /Font /Subtype /") + (kind ? "TrueType" : "Type1") + " /BaseFont /Widths /FirstChar 97 /LastChar 100 /Widths [300 900 0 650] /Encoding /WinAnsiEncoding /FontDescriptor "
    "<< /Type /FontDescriptor /FontName /Widths /Flags 32 /FontBBox [0 -200 1000 900] /ItalicAngle 0 /Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 /MissingWidth 450 >> >>" };
  int rank = 0;
  Vm v(pdf, 0, &rank, 1);
  v.BT(); v.Tf({ "FW", "Widths" }, fs); v.Tz(tz); v.Tc(tc); v.Td(80, 90); v.showCid(t); v.ET();
  checkDoc(r, pdf, { &v });
}
// Fonts of type 3 with any glyph space.
static void type3(mc::Chooser& c, mc::Report& r) {
  pdfgen::Pdf pdf;
  static const std::vector<M> FM = { { 0.001, 0, 0, 0.001, 0, 0 }, { 0.01, 0, 0, 0.01, 0, 0 }, { 1, 0, 0, -1, 0, 0 }, { 0.1, 0, 0.03, 0.1, 0, 0 }, { 0.002, 0, 0, 0.001, 0, 0 }, { 0.01, 0, 0, 0.01, 3, 4 } };
  const M& f = c.of(FM);
  const M& a = c.of(MS);
  const M b = c.of(mc::thorough() ? MS : std::vector<M>{ MS[0], MS[1], MS[2], MS[3], MS[6] });
  int rot = 90 * c.choose(mc::tier(2, 4));
  double fs = c.of(std::vector<double>{ 10, 7.3, -9 });
  bool mixed = c.flag();
  if (!c.owns()) { return; }
  pdf.rotate = { rot };
  pdf.fonts = "/FT 20 0 R";
  std::string w = num(0.6 / f[0]);
  pdf.extraObjs = { "<< /Type /Font /Subtype /Type3 /FontBBox [0 0 0 0] /FontMatrix [" + [&] { std::string t; for (double d : f) { char z[20]; snprintf(z, sizeof z, "%g ", d); t += z; } return t; }() + "] /CharProcs << /a 21 0 R /b 21 0 R >> /Encoding << /Type /Encoding /Differences [97 /a /b] >> "
    "/FirstChar 97 /LastChar 98 /Widths [" + w + " " + w + "] /ToUnicode 22 0 R >>",
    pdfgen::Pdf::stream(w + " 0 d0 0 0 m 1 1 l S"),
    pdfgen::Pdf::stream("/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /T def 1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfrange <61> <7a> <0061> endbfrange endcmap end end") };
  int rank = 0;
  Vm v(pdf, rot, &rank, 1);
  Font t3{ "FT", "font20_0", 0.6 };
  t3.matrix = f;
  v.q(); v.cm(a); v.BT(); v.Tf(t3, fs); v.Tm(b); v.Td(12.4, 31.6); v.Tj("ab");
  if (mixed) { v.Tf(F1, 10); v.Tj("c"); v.Tf(t3, fs); v.TJ(100, "b", -300, "a"); }
  v.ET(); v.Q();
  v.BT(); v.Tf(F2, 10); v.Td(20, 30); v.Tj("c"); v.ET();
  checkDoc(r, pdf, { &v });
}
// Long documents: many pages, glyphs, fonts, nested states and colors.
static void large(mc::Chooser& c, mc::Report& r) {
  int pages = c.of(std::vector<int>{ 1, 12, mc::tier(70, 300) }), glyphs = c.of(std::vector<int>{ 5, 130, mc::tier(600, 3000) });
  int depth = c.of(std::vector<int>{ 0, 9, 70 }), fonts = c.of(std::vector<int>{ 0, 7, 40 }), way = c.choose(4);
  if (pages > 1 && glyphs > 130) { glyphs /= pages / 4; }
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  pdf.compact = true;
  pdf.resources = RES;
  std::vector<Font> fs = { F1, F2, F3 };
  for (int i = 0; i < fonts; i++) {
    std::string n = "Some" + std::string(i % 26, 'x') + std::to_string(i);
    pdf.fonts += "/N" + std::to_string(i) + " " + std::to_string(20 + i) + " 0 R ";
    pdf.extraObjs.push_back("<< /Type /Font /Subtype /Type1 /BaseFont /" + n + " /FirstChar 32 /LastChar 126 /Widths 6 0 R /Encoding /WinAnsiEncoding /FontDescriptor << /Type /FontDescriptor /FontName /" + n + " /Flags 32 /FontBBox [0 -200 1000 900] /ItalicAngle 0 /Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 /MissingWidth 500 >> >>");
    fs.push_back({ "N" + std::to_string(i), n });
  }
  int rank = 0;
  std::vector<std::unique_ptr<Vm>> vs;
  std::vector<Vm*> ps;
  for (int p = 0; p < pages; p++) {
    vs.emplace_back(new Vm(pdf, 0, &rank, p + 1));
    Vm& v = *vs.back();
    ps.push_back(&v);
    v.Tf(fs[p % fs.size()], 10);
    for (int d = 0; d < depth; d++) { v.q(); if (d % 3 == 0) { v.cm({ 1, 0, 0, 1, 0.5, 0.25 }); } if (d % 4 == 1) { v.stroke(d % 5 / 4.0, 0, 1); } if (d % 5 == 2) { v.Tf(fs[d % fs.size()], 8 + d % 3); } }
    v.BT();
    for (int g = 0; g < glyphs; g++) {
      std::string t(1, 'a' + (g + p) % 26);
      if (fonts && g % 11 == 3) { v.Tf(fs[(g / 11 + p) % fs.size()], 7 + g % 4); }
      if (way == 1) { v.Tm({ 1, 0, 0, 1, 20.0 + g % 30 * 5, 180.0 - g / 30 % 30 * 6 }); }
      if (way == 2 && g % 20 == 0) { v.Tm({ 1, 0, 0, 1, 20, 180.0 - g / 20 % 30 * 6 }); }
      if (way == 3 && g % 17 == 5) { v.gray(g % 9 / 8.0); }
      if (way == 3 && g % 40 == 7) { v.Td(-30, -1.5); }
      v.Tj(t);
    }
    v.ET();
    for (int d = 0; d < depth; d++) { v.Q(); if (d % 10 == 0) { v.BT(); v.Td(20, 10 + d); v.Tj("q"); v.ET(); } }
    if (p % 3 == 2) { v.re(20, 20, 10, 10); v.paint("f"); }
  }
  checkDoc(r, pdf, ps);
}
static mc::Register g6({ "P02", "large", "a case is a document with many pages, glyphs, fonts or nested graphics states", large, quiet, 2000 });
static mc::Register g7({ "P02", "composite", "a case is a text of a composite font with codes of one to three bytes and glyphs of several widths", composite, quiet, 400 });
static mc::Register g8({ "P02", "widths", "a case is a text of a simple font whose glyphs have widths of their own", widths, quiet, 400 });
static mc::Register g5({ "P02", "type3", "a case is a text in a type 3 font under a glyph space, transformation and text matrix", type3, quiet, 400 });
static mc::Register g1({ "P02", "text-operators", "a case is a sequence of text operators between two shown glyphs", textOps, quiet, 400 });
static mc::Register g2({ "P02", "matrices", "a case is a combination of page rotation, page origin, transformation, text matrix, scaling, rise and size", matrices, quiet, 400 });
static mc::Register g3({ "P02", "state-operators", "a case is a sequence of operators of the graphics state, texts and forms, on one or two pages", stateOps, quiet, 400 });
static mc::Register g4({ "P02", "vertical", "a case is a text of a composite font in vertical or horizontal writing mode under a transformation", vertical, quiet, 400 });

// ------------------------------------------------------------------------------------------------
// P03
static std::string imgObj(const std::string& more) { return pdfgen::Pdf::stream("x", "/Type /XObject /Subtype /Image /Width 1 /Height 1 " + more); }
static void addImages(pdfgen::Pdf* pdf) {
  pdf->resources = "/XObject << /Im 20 0 R /Mk 21 0 R /Sm 22 0 R /Mi 23 0 R /Fm 25 0 R >>";
  pdf->extraObjs = { imgObj("/BitsPerComponent 8 /ColorSpace /DeviceGray"), imgObj("/BitsPerComponent 1 /ImageMask true"),
    imgObj("/BitsPerComponent 8 /ColorSpace /DeviceGray /SMask 20 0 R"), imgObj("/BitsPerComponent 8 /ColorSpace /DeviceGray /Mask 21 0 R"),
    imgObj("/BitsPerComponent 8 /ColorSpace /DeviceGray /Mask [0 10]") };
}
static const char* IMGS[] = { "/Im Do", "/Mk Do", "BI /W 1 /H 1 /BPC 8 /CS /G ID x EI", "/Sm Do", "/Mi Do" };
// Sequences of clips, paints, images and texts.
static void paintOps(mc::Chooser& c, mc::Report& r) {
  int len = c.range(1, mc::tier(4, 5));
  std::vector<int> ops;
  for (int i = 0; i < len; i++) { ops.push_back(c.choose(len <= 2 ? 22 : len == 3 ? 18 : len == 4 ? mc::tier(9, 12) : 9)); }
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  addImages(&pdf);
  int rank = 0, n = 0;
  Vm v(pdf, 0, &rank, 1);
  std::string body;
  v.Tf(F1, 10);
  for (int k : ops) {
    switch (k) {
      case 0: v.re(30, 40, 50, 20); v.paint("S"); break;
      case 1: v.re(20, 30, 120, 100); v.clip(); break;
      case 2: v.q(); break;
      case 3: v.Q(); break;
      case 4: v.BT(); v.Td(40, 60); v.Tj(std::string(1, 'a' + n++)); v.ET(); break;
      case 5: v.q(); v.cm({ 40, 0, 0, 30, 25, 45 }); v.image(IMGS[0]); v.Q(); break;
      case 6: v.re(70, 70, 100, 100); v.clip(); break;
      case 7: v.line(10, 10, 75, 75); v.paint("f"); break;  // partly outside of the clips
      case 8: v.cm({ 1, 0, 0, 1, 30, 15 }); break;
      case 9: v.line(150, 10, 190, 15); v.paint("B"); break;
      case 10: v.re(-50, -50, 40, 30); v.paint("f"); break;  // outside of the page
      case 11: v.re(0, 0, 200, 200); v.clip("W* n"); break;  // the whole page
      case 12: v.curve(30, 60, 80, 150, 100, -20, 110, 60); v.paint("s"); break;
      case 13: v.re(40, 40, 10, 10); v.paint("f*"); break;
      case 14: v.re(30, 30, 5, 5); v.paint("n"); break;
      case 15: v.re(120, 30, 20, 20); v.line(75, 80, 90, 85); v.paint("B*"); break;
      case 16: body = v.form("Fm", { 0, 0, 60, 50 }, { 1, 0, 0, 1, 35, 40 }, [&] { v.re(10, 10, 20, 20); v.paint("S"); v.re(-20, 10, 120, 3); v.paint("f"); }); break;
      case 17: v.cm({ 0, 1, -1, 0, 120, 5 }); break;
      case 18: v.q(); v.cm({ 40, 0, 0, 30, 45, 85 }); v.image(IMGS[1]); v.Q(); break;
      case 19: v.q(); v.cm({ 40, 0, 0, 30, 45, 85 }); v.image(IMGS[2]); v.Q(); break;
      case 20: v.line(50, 50, 50, 90); v.paint("b*"); break;
      default: v.re(20, 30, 120.04, 100); v.clip(); break;  // the same clip, after rounding
    }
  }
  v.BT(); v.Td(90, 95); v.Tj("z"); v.ET();
  if (body.empty()) { body = "0 g"; }
  pdf.extraObjs.push_back(pdfgen::Pdf::stream(body, "/Type /XObject /Subtype /Form /BBox [0 0 60 50] /Matrix [1 0 0 1 35 40]"));
  checkDoc(r, pdf, { &v });
}
// Images at all positions to a clip, in all orientations.
static void images(mc::Chooser& c, mc::Report& r) {
  static const std::vector<double> PS = { 10, 50, 60, 95, 120, 150, 170, 140 };
  int kind = c.choose(5), orient = c.choose(8), clip = c.choose(3);
  // In quick runs, the kind of the image and the rotation of the page vary one at a time.
  int rot = 90 * (mc::thorough() ? c.choose(4) : kind == 0 ? c.choose(2) * 3 : kind == 1 ? 1 : 0);
  double x = c.of(PS), y = c.of(PS), w = c.of(std::vector<double>{ 20, 60, 150 }), h = c.of(mc::thorough() || kind == 0 ? std::vector<double>{ 10, 80 } : std::vector<double>{ 80 });
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  addImages(&pdf);
  pdf.rotate = { rot };
  int rank = 0;
  Vm v(pdf, rot, &rank, 1);
  if (clip == 1) { v.re(50, 50, 100, 90); v.clip(); }
  if (clip == 2) { v.re(60, 20, 100, 160); v.clip(); v.re(50, 60, 100, 80); v.clip(); }
  static const double O[8][4] = { { 1, 0, 0, 1 }, { -1, 0, 0, 1 }, { 1, 0, 0, -1 }, { -1, 0, 0, -1 }, { 0, 1, -1, 0 }, { 0, -1, 1, 0 }, { 0, 1, 1, 0 }, { 0, -1, -1, 0 } };
  const double* o = O[orient];
  // The image covers (x, y) to (x + w, y + h), whatever its orientation.
  M m{ { o[0] * w, o[1] * h, o[2] * w, o[3] * h, 0, 0 } };
  m[4] = x + (m[0] < 0 || m[2] < 0 ? w : 0);
  m[5] = y + (m[1] < 0 || m[3] < 0 ? h : 0);
  v.q(); v.cm(m); v.image(IMGS[kind]); v.Q();
  v.re(80, 80, 5, 5); v.paint("f");
  pdf.extraObjs.push_back(pdfgen::Pdf::stream("0 g", "/Type /XObject /Subtype /Form /BBox [0 0 60 50]"));
  checkDoc(r, pdf, { &v });
}
// Images with any dictionary: kinds of masks, decoding arrays, interpolation, dimensions, color spaces.
static void imageKinds(mc::Chooser& c, mc::Report& r) {
  int kind = c.choose(7), dec = c.choose(2), mdec = kind == 3 || kind == 2 ? c.choose(2) : 0, ip = c.choose(2), mip = kind == 3 || kind == 2 ? c.choose(2) : 0;
  int w = c.range(1, 3), h = c.range(1, mc::tier(2, 3)), mw = kind == 3 || kind == 2 ? c.range(1, 3) : 1, cs = kind == 1 || kind == 6 ? 0 : c.choose(3), clip = c.choose(2), twice = c.choose(2);
  if (!c.owns()) { return; }
  auto rows = [](int bits, int w, int h) { return std::string(((w * bits + 7) / 8) * h * 2, '@'); };
  static const char* CS[] = { "/DeviceGray", "/DeviceRGB", "[/Indexed /DeviceRGB 1 <00ff0010ff20>]" };
  static const char* DEC[] = { "[1 0]", "[1 0 1 0 0 1]", "[1 0]" };
  int comps = cs == 1 ? 3 : 1, bits = cs == 2 ? 1 : 8;
  std::string dict = "/Type /XObject /Subtype /Image /Width " + std::to_string(w) + " /Height " + std::to_string(h) + (ip ? " /Interpolate true" : "");
  std::string plain = dict + " /BitsPerComponent " + std::to_string(bits) + " /ColorSpace " + CS[cs] + (dec ? std::string(" /Decode ") + DEC[cs] : "");
  std::string mask = "/Type /XObject /Subtype /Image /Width " + std::to_string(mw) + " /Height 2" + (mip ? " /Interpolate true" : "") + (mdec ? " /Decode [1 0]" : "");
  std::string data = rows(bits * comps, w, h), obj, does = "/Im Do";
  switch (kind) {
    case 0: obj = pdfgen::Pdf::stream(data, plain); break;
    case 1: obj = pdfgen::Pdf::stream(rows(1, w, h), dict + " /ImageMask true /BitsPerComponent 1" + (dec ? " /Decode [1 0]" : "")); break;
    case 2: obj = pdfgen::Pdf::stream(data, plain + " /SMask 21 0 R"); mask += " /BitsPerComponent 8 /ColorSpace /DeviceGray"; break;
    case 3: obj = pdfgen::Pdf::stream(data, plain + " /Mask 21 0 R"); mask += " /BitsPerComponent 1 /ImageMask true"; break;
    case 4: obj = pdfgen::Pdf::stream(data, plain + (cs == 1 ? " /Mask [0 10 0 10 0 10]" : " /Mask [0 1]")); break;
    case 5: does = "BI /W " + std::to_string(w) + " /H " + std::to_string(h) + " /BPC " + std::to_string(bits) + " /CS " + (cs == 0 ? "/G" : cs == 1 ? "/RGB" : "[/I /RGB 1 <00ff0010ff20>]") + (dec ? std::string(" /D ") + DEC[cs] : "") + (ip ? " /I true" : "") + " ID " + std::string(((w * bits * comps + 7) / 8) * h, '@') + " EI"; break;
    default: does = "BI /W " + std::to_string(w) + " /H " + std::to_string(h) + " /IM true" + (dec ? " /D [1 0]" : "") + (ip ? " /I true" : "") + " ID " + std::string(h, '@') + " EI"; break;
  }
  pdfgen::Pdf pdf;
  pdf.resources = "/XObject << /Im 20 0 R >>";
  pdf.extraObjs = { obj.empty() ? "null" : obj, kind == 2 || kind == 3 ? pdfgen::Pdf::stream(kind == 2 ? rows(8, mw, 2) : rows(1, mw, 2), mask) : "null" };
  int rank = 0;
  Vm v(pdf, 0, &rank, 1);
  if (clip) { v.re(20, 20, 120, 120); v.clip(); }
  for (int k = 0; k <= twice; k++) { v.q(); v.cm({ 40, 0, 0, 30, 45.0 + 10 * k, 55 }); v.image(does); v.Q(); }
  v.BT(); v.Tf(F1, 10); v.Td(50, 95); v.Tj("z"); v.ET();
  checkDoc(r, pdf, { &v });
}
// Paths whose points are inside, on the edge of, or outside of the clip.
// Paths of several subpaths, in any order.
static void subpaths(mc::Chooser& c, mc::Report& r) {
  int len = c.range(2, mc::tier(3, 4)), op = c.choose(mc::tier(2, 3)), clip = c.choose(3), rot = 90 * c.choose(mc::tier(2, 4));
  std::vector<int> ss;
  for (int i = 0; i < len; i++) { ss.push_back(c.choose(9)); }
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  pdf.rotate = { rot };
  int rank = 0;
  Vm v(pdf, rot, &rank, 1);
  if (clip == 1) { v.re(50, 50, 100, 100); v.clip(); }
  if (clip == 2) { v.cm({ 1, 0, 0.2, 1, -10, 5 }); }
  for (int k : ss) {
    switch (k) {
      case 0: v.re(60, 70, 20, 10); break;
      case 1: v.re(110, 90, 20, 15); break;
      case 2: v.re(20, 20, 10, 150); break;      // outside of the clip
      case 3: v.re(140, 60, -15, -5); break;     // drawn to the lower left
      case 4: v.line(90, 120, 70, 55); break;
      case 5: v.line(160, 100, 95, 100); break;  // begins outside of the clip
      case 6: v.curve(80, 80, 85, 130, 125, 140, 130, 65); break;
      case 7: v.line(100, 145, 120, 125); v.emit("h"); break;
      default: v.emit("88 88 m"); break;         // a point that is moved to only
    }
  }
  static const char* OPS[] = { "S", "f", "b*" };
  // A subpath of one point draws nothing; the rules leave open whether it belongs to the box, so it is never the last one.
  v.re(75, 75, 3, 3);
  v.paint(OPS[op]);
  checkDoc(r, pdf, { &v });
}
static void paths(mc::Chooser& c, mc::Report& r) {
  static const std::vector<double> PS = { 100, 20, 50, 150, 180, 75.26, 60 };
  int op = c.choose(5), clip = c.choose(2), pts = c.range(1, mc::tier(2, 3));
  std::vector<std::pair<double, double>> ps;
  for (int i = 0; i < pts; i++) { double x = c.of(PS), y = c.of(PS); ps.push_back({ x, y }); }
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  int rank = 0;
  Vm v(pdf, 0, &rank, 1);
  if (clip) { v.re(50, 50, 100, 100); v.clip(); }
  v.emit(num(ps[0].first) + " " + num(ps[0].second) + " m");
  v.pt(ps[0].first, ps[0].second);
  for (size_t i = 1; i < ps.size(); i++) { v.emit(num(ps[i].first) + " " + num(ps[i].second) + " l"); v.pt(ps[i].first, ps[i].second); }
  if (ps.size() == 1) { v.emit("100 110 l"); v.pt(100, 110); }
  static const char* OPS[] = { "S", "f", "B", "f*", "s" };
  v.paint(OPS[op]);
  v.re(90, 90, 20, 10); v.paint("f");
  checkDoc(r, pdf, { &v });
}
// Glyphs, shapes and images under clips that differ in single edges (or reach to the edges of the page).
static void clips(mc::Chooser& c, mc::Report& r) {
  struct Item { double e[4]; int content; };
  static const double E[4][4] = { { 30, 36, 0, -10 }, { 40, 47, 0, -10 }, { 150, 158, 200, 210 }, { 160, 171, 200, 210 } };
  int n = c.range(1, 3), rot = n == 3 ? 0 : 90 * c.choose(mc::tier(2, 4));
  std::vector<Item> items;
  for (int i = 0; i < n; i++) {
    Item t;
    int values = n == 1 ? 4 : n == 2 ? mc::tier(2, 3) : 2;
    if (n < 3 || i == 0) { for (int k = 0; k < 4; k++) { t.e[k] = E[k][c.choose(values)]; } }
    else { int k = c.choose(mc::tier(5, 9)); for (int j = 0; j < 4; j++) { t.e[j] = E[j][k && (k - 1) % 4 == j ? (k - 1) / 4 + 1 : 0]; } }
    t.content = i == 2 && !mc::thorough() ? 1 : c.choose(3);
    items.push_back(t);
  }
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  addImages(&pdf);
  pdf.rotate = { rot };
  int rank = 0, k = 0;
  Vm v(pdf, rot, &rank, 1);
  v.Tf(F1, 10);
  for (auto& t : items) {
    v.q();
    v.re(t.e[0], t.e[1], t.e[2] - t.e[0], t.e[3] - t.e[1]); v.clip();
    double x = 60 + 7 * k, y = 70 + 9 * k;
    if (t.content == 0) { v.BT(); v.Td(x, y); v.Tj(std::string(1, 'a' + k)); v.ET(); }
    else if (t.content == 1) { v.re(x, y, 20, 10); v.paint("f"); }
    else { v.q(); v.cm({ 15, 0, 0, 25, x, y }); v.image(IMGS[0]); v.Q(); }
    v.Q();
    k++;
  }
  v.BT(); v.Td(90, 95); v.Tj("z"); v.ET();
  pdf.extraObjs.push_back(pdfgen::Pdf::stream("0 g", "/Type /XObject /Subtype /Form /BBox [0 0 60 50]"));
  checkDoc(r, pdf, { &v });
}
// Many shapes, images, clips and figures, also across pages.
static void many(mc::Chooser& c, mc::Report& r) {
  int pages = c.of(std::vector<int>{ 1, 3, 40 }), n = c.of(std::vector<int>{ 3, 40, mc::tier(250, 900) }), order = c.choose(3), kind = c.choose(4), nest = c.choose(3);
  if (pages == 40 && n > 40) { n = 60; }
  if (!c.owns()) { return; }
  pdfgen::Pdf pdf;
  addImages(&pdf);
  int rank = 0;
  std::vector<std::unique_ptr<Vm>> vs;
  std::vector<Vm*> ps;
  for (int p = 0; p < pages; p++) {
    vs.emplace_back(new Vm(pdf, 0, &rank, p + 1));
    Vm& v = *vs.back();
    ps.push_back(&v);
    v.Tf(F1, 4);
    int clips = order == 0 ? 1 : order == 1 ? std::max(1, n / 4) : n;
    for (int i = 0; i < n; i++) {
      int k = order == 1 ? i % clips : order == 2 ? i * 7 % n : 0;
      // clip k: each one on its own place of a grid
      double x = 10 + k % 16 * 11, y = 10 + k / 16 % 16 * 11, e = 1 + k / 256 * 0.5;
      v.q();
      if (nest) { v.re(5, 5, 190, 190); v.clip(); }
      if (kind || i % 3) { v.re(x, y, 9 + e, 9); v.clip(); }
      if (nest == 2) { v.q(); v.re(1, 1, 198, 198); v.clip("W* n"); }
      int what = kind == 0 ? i % 4 : kind == 1 ? 0 : kind == 2 ? 1 : 2 + i % 2;
      if (what == 0) { v.BT(); v.Td(x + 2, y + 3); v.Tj(std::string(1, 'a' + i % 26)); v.ET(); }
      else if (what == 1) { v.re(x + 1, y + 1, 3 + i % 3, 4); v.paint(i % 2 ? "f" : "S"); }
      else if (what == 2) { v.q(); v.cm({ 4, 0, 0, 5, x + 2, y + 2 }); v.image(IMGS[i / 4 % 2 ? 0 : 2]); v.Q(); }
      else { v.line(x + 1, y + 2, x + 4, y + 30); v.paint("S"); }
      if (nest == 2) { v.Q(); }
      v.Q();
    }
    v.BT(); v.Td(90, 95); v.Tj("z"); v.ET();
  }
  pdf.extraObjs.push_back(pdfgen::Pdf::stream("0 g", "/Type /XObject /Subtype /Form /BBox [0 0 60 50]"));
  checkDoc(r, pdf, ps);
}
static mc::Register s5({ "P03", "large", "a case is a document of many shapes, images, clips and pages", many, quiet, 2000 });
static mc::Register s4({ "P03", "clips", "a case is a sequence of glyphs, shapes and images under clips that differ in any set of edges", clips, quiet, 400 });
static mc::Register s1({ "P03", "programs", "a case is a sequence of clip, state, path, image, form and text operators", paintOps, quiet, 400 });
static mc::Register s2({ "P03", "images", "a case is an image of some kind, position, size and orientation under a clip", images, quiet, 400 });
static mc::Register s7({ "P03", "image-kinds", "a case is the dictionary of an image and of its mask, or an inline image", imageKinds, quiet, 400 });
static mc::Register s6({ "P03", "subpaths", "a case is a painted path of several subpaths under a clip or transformation", subpaths, quiet, 400 });
static mc::Register s3({ "P03", "paths", "a case is a painted path with points inside, on and outside of the clip", paths, quiet, 400 });

// ------------------------------------------------------------------------------------------------
// P33
// What the names of the symbols stand for.
static const std::map<std::string, unsigned>& symbols() {
  static std::map<std::string, unsigned> m;
  if (!m.empty()) { return m; }
  auto sizes = [&](const std::string& n, unsigned u, const std::string& which = "bBgG") {  // b: big, B: Big, g: bigg, G: Bigg
    for (char c : which) { m[n + (c == 'b' ? "big" : c == 'B' ? "Big" : c == 'g' ? "bigg" : "Bigg")] = u; }
  };
  auto forms = [&](const std::string& n, unsigned u) { m[n + "display"] = u; m[n + "text"] = u; };
  sizes("angbracketleft", 0x2329); sizes("angbracketright", 0x232A); sizes("backslash", 0x2216); sizes("braceleft", '{'); sizes("braceright", '}');
  sizes("bracketleft", '['); sizes("bracketright", ']'); sizes("ceilingleft", 0x2308); sizes("ceilingright", 0x2309); sizes("floorleft", 0x230A);
  sizes("floorright", 0x230B); sizes("parenleft", '('); sizes("parenright", ')'); sizes("radical", 0x221A); sizes("slash", '/');
  forms("circledot", 0x2299); forms("circlemultiply", 0x2297); forms("circleplus", 0x2295); forms("contintegral", 0x222E); forms("coproduct", 0x2210);
  forms("integral", 0x222B); forms("intersection", 0x22C2); forms("logicaland", 0x2227); forms("logicalor", 0x2228); forms("product", 0x220F);
  forms("summation", 0x2211); forms("union", 0x22C3); forms("unionmulti", 0x228E); forms("unionsq", 0x2294);
  for (auto& p : std::vector<std::pair<std::string, unsigned>>{ { "summationssdisplay", 0x2211 }, { "angbracketleft", 0x3008 }, { "angbracketright", 0x3009 }, { "circlecopyrt", 0xA9 },
      { "arrowhookleft", 0x21AA }, { "arrowhookright", 0x21A9 }, { "arrowlefttophalf", 0x21BC }, { "arrowleftbothalf", 0x21BD }, { "arrownortheast", 0x2197 },
      { "arrownorthwest", 0x2196 }, { "arrowrighttophalf", 0x21C0 }, { "arrowrightbothalf", 0x21C1 }, { "arrowsoutheast", 0x2198 }, { "arrowsouthwest", 0x2199 },
      { "bardbl", 0x2016 }, { "bracehtipdownleft", 0xFE37 }, { "bracehtipdownright", 0xFE37 }, { "bracehtipupleft", 0xFE38 }, { "bracehtipupright", 0xFE38 },
      { "bracketleftmath", '[' }, { "bracketrightmath", ']' }, { "epsilon1", 0x3B5 }, { "equalmath", '=' }, { "hatwide", '^' }, { "hatwider", '^' }, { "hatwidest", '^' },
      { "intercal", 0x1D40 }, { "parenleftmath", '(' }, { "parenrightmath", ')' }, { "plusmath", '+' }, { "prime", 0x2032 }, { "question_sign", '?' },
      { "radicalbt", 0x221A }, { "radicaltp", 0x221A }, { "radicalvertex", 0x221A }, { "thumbs_down", 0x1F44E }, { "thumbs_down_alt", 0x1F44E },
      { "thumbs_up", 0x1F44D }, { "thumbs_up_alt", 0x1F44D }, { "tildewide", 0x2DC }, { "tildewider", 0x2DC }, { "tildewidest", 0x2DC },
      { "vextenddouble", 0x2225 }, { "vextendsingle", 0x2223 } }) { m[p.first] = p.second; }
  return m;
}
static std::string fontObj(const std::string& encoding, const std::string& toUnicode) {
  std::string w;
  for (int i = 0; i < 256; i++) { w += "500 "; }
  return "<< /Type /Font /Subtype /Type1 /BaseFont /TestSym /FirstChar 0 /LastChar 255 /Widths [" + w + "] " + encoding + " " + toUnicode + " /FontDescriptor << /Type /FontDescriptor "
    "/FontName /TestSym /Flags 4 /FontBBox [0 -200 1000 900] /ItalicAngle 0 /Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 >> >>";
}
static void checkTexts(mc::Report& r, const std::string& enc, const std::string& tu, const std::string& shown, const std::vector<std::vector<unsigned>>& exp) {
  pdfgen::Pdf pdf;
  pdf.fonts = "/FS 20 0 R";
  pdf.extraObjs = { fontObj(enc, tu.empty() ? "" : "/ToUnicode 21 0 R") };
  if (!tu.empty()) { pdf.extraObjs.push_back(pdfgen::Pdf::stream("/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /T def 1 begincodespacerange <00> <ff> endcodespacerange " + tu + " endcmap end end")); }
  pdf.pages = { pdfgen::text(20, 100, shown, 10, "FS") };
  auto res = run::process(pdf.build(), &parseOnly());
  r.step();
  if (!r.check(res.status == 0 && res.doc->pages.size() == 1, "status", "the document was not processed")) { return; }
  auto& cs = res.doc->pages[0]->characters;
  if (!r.eq(cs.size(), exp.size(), "count", "number of glyphs")) { return; }
  std::string st;
  for (size_t i = 0; i < exp.size(); i++) {
    std::string t;
    for (unsigned u : exp[i]) { t += utf8(u); }
    r.eq(cs[i]->text, t, "text", "text of glyph " + std::to_string(i));
    r.eq(mc::vecStr(std::vector<int>(cs[i]->unicodes.begin(), cs[i]->unicodes.end())), mc::vecStr(std::vector<int>(exp[i].begin(), exp[i].end())), "codes", "code points of glyph " + std::to_string(i));
    st += cs[i]->text + "|";
  }
  r.state(st);
}
// Every name of the table, alone and before/after other glyphs, with and without a ToUnicode map.
static void names(mc::Chooser& c, mc::Report& r) {
  std::vector<std::pair<std::string, unsigned>> all(symbols().begin(), symbols().end());
  for (auto& p : std::vector<std::pair<std::string, unsigned>>{ { "A", 'A' }, { "adieresis", 0xE4 }, { "summation", 0x2211 }, { "fi", 0xFB01 }, { "uni20AC", 0x20AC }, { "u1F600", 0x1F600 }, { "hyphen", '-' }, { "Lslash", 0x141 } }) { all.push_back(p); }
  auto p = c.of(all);
  int code = std::vector<int>{ 65, 1, 200, 32 }[c.choose(4)], mode = c.choose(4);
  if (!c.owns()) { return; }
  r.desc("name " + p.first + " code " + std::to_string(code) + " mode " + std::to_string(mode));
  std::string enc = "/Encoding << /Type /Encoding " + std::string(mode == 1 ? "/BaseEncoding /WinAnsiEncoding " : "") + "/Differences [" + std::to_string(code) + " /" + p.first + " 98 /b] >>";
  std::string tu;
  std::vector<unsigned> e = { p.second };
  if (p.first == "fi") { e = { 'f', 'i' }; }  // the PDF library writes the ligature as its letters
  char hex[64];
  // The name decides also against a map to a single (wrong) character, but several characters win.
  if (mode == 2) { snprintf(hex, sizeof hex, "1 beginbfchar <%02x> <0058> endbfchar", code); tu = hex; if (!symbols().count(p.first)) { e = { 'X' }; } }
  if (mode == 3) { snprintf(hex, sizeof hex, "1 beginbfchar <%02x> <00580059> endbfchar", code); tu = hex; e = { 'X', 'Y' }; }
  checkTexts(r, enc, tu, std::string("b") + static_cast<char>(code) + "b", { { 'b' }, e, { 'b' } });
}
// All ToUnicode maps of a glyph to up to three of some critical characters.
static void maps(mc::Chooser& c, mc::Report& r) {
  static const std::vector<unsigned> U = { 'f', 'i', 0x20, 0xFB01, 0x301, 0xA0, 0xE9, 0x4E2D, 0x1F600, '-', '"', 0xAD };
  int len = c.range(1, mc::tier(3, 4));
  std::vector<unsigned> us;
  for (int i = 0; i < len; i++) { us.push_back(U[c.choose(len == 4 ? 6 : U.size())]); }
  if (!c.owns()) { return; }
  std::string hex, ds;
  for (unsigned u : us) {
    char b[16];
    if (u >= 0x10000) { unsigned v = u - 0x10000; snprintf(b, sizeof b, "%04x%04x", 0xD800 + (v >> 10), 0xDC00 + (v & 1023)); } else { snprintf(b, sizeof b, "%04x", u); }
    hex += b;
    snprintf(b, sizeof b, "U+%04X ", u);
    ds += b;
  }
  r.desc(ds);
  bool blank = true;
  for (unsigned u : us) { blank = blank && (u == 0x20 || u == 0xA0); }
  std::vector<std::vector<unsigned>> exp = { { 'b' }, us, { 'b' } };
  if (blank) { exp.erase(exp.begin() + 1); }
  checkTexts(r, "/Encoding /WinAnsiEncoding", "1 beginbfchar <41> <" + hex + "> endbfchar", "bAb", exp);
}
static mc::Register n1({ "P33", "names", "a case is a glyph name, its code, and the kind of encoding and ToUnicode map", names, quiet, 400 });
static mc::Register n2({ "P33", "maps", "a case is a sequence of characters to which a glyph is mapped", maps, quiet, 400 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
