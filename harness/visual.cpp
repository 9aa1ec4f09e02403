// P24: the visualization is the input PDF plus the requested marks.
#include "doc.h"
#include "gendoc.h"
#include "run.h"
#include "annots.h"
#include "PdfDocumentVisualization.h"
#include "poppler/Error.h"
using namespace annots;
using ppp::visualization::PdfDocumentVisualization;

static void quiet() { setErrorCallback([](ErrorCategory, Goffset, const char*) {}); }
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }

static void draw(const PdfDocumentVisualization& v, const PdfDocument& d, int what) {
  namespace cs = ppp::visualization::color_schemes;
  switch (what) {
    case CHARS: v.visualizeCharacters(d, cs::blue); break;
    case FIGURES: v.visualizeFigures(d, cs::blue); break;
    case SHAPES: v.visualizeShapes(d, cs::blue); break;
    case GRAPHICS: v.visualizeGraphics(d, cs::blue); break;
    case WORDS: v.visualizeWords(d, cs::blue); break;
    case LINES: v.visualizeTextLines(d, cs::blue); break;
    case BLOCKS: v.visualizeTextBlocks(d, cs::red); break;
    case SEGMENTS: v.visualizePageSegments(d, cs::blue); break;
    case ORDER: v.visualizeReadingOrder(d, cs::blue); break;
    case SEGMENT_CUTS: v.visualizeSegmentCuts(d, cs::blue); break;
    default: v.visualizeReadingOrderCuts(d, cs::blue); break;
  }
}
static void checkVisual(mc::Report& r, pdfgen::Pdf pdf, const std::vector<int>& what, const std::string& desc, const std::vector<int>& roles = { 0, 6, 2 }) {
  std::string d = desc + " marks:";
  for (int w : what) { d += std::string(" ") + OPTIONS[w]; }
  r.desc(d);
  run::setModel(roles);
  std::string bytes = pdf.build();
  auto res = run::process(bytes);
  r.step();
  if (!r.eq(res.status, 0, "status", "status")) { return; }
  std::string in = run::tmpPdf(), out = mc::scratchDir() + "/v" + std::to_string(getpid()) + ".pdf";
  unlink(out.c_str());
  bool saved;
  {
    PdfDocumentVisualization v(in, run::config().pdfDocumentVisualization);
    for (int w : what) { draw(v, *res.doc, w); }
    struct stat st;
    r.check(stat(out.c_str(), &st) != 0, "early", "the file exists before it is saved");
    saved = v.save(out);
  }
  r.check(saved, "save", "the visualization could not be saved");
  r.check(slurp(in) == bytes, "input", "the input file was changed");
  File a = read(in), b = read(out);
  if (!r.check(b.ok, "valid", "the visualization is not a valid PDF")) { return; }
  if (!r.eq(b.pages.size(), a.pages.size(), "pages", "number of pages")) { return; }
  std::string all;
  for (size_t p = 0; p < b.pages.size(); p++) {
    std::string at = " of page " + std::to_string(p + 1);
    r.eq(b.pages[p].frame, a.pages[p].frame, "frame", "boxes and rotation" + at);
    r.eq(b.pages[p].content, a.pages[p].content, "content", "content" + at);
    Frame f;
    f.x0 = pdf.x0; f.y0 = pdf.y0; f.w = pdf.width; f.h = pdf.height;
    f.rotate = p < pdf.rotate.size() ? pdf.rotate[p] : 0;
    auto want = expected(res.doc->pages[p], f, what);
    // The marks that the input has already.
    std::vector<Mark> old = a.pages[p].marks, got = b.pages[p].marks;
    bool kept = got.size() >= old.size();
    for (size_t i = 0; kept && i < old.size(); i++) { kept = old[i].str() == got[i].str(); }
    if (!r.check(kept, "annotations", "annotations of the input are missing" + at)) { continue; }
    got.erase(got.begin(), got.begin() + old.size());
    std::string bad = compare(want, got);
    r.check(bad.empty(), "marks", [&] { return "marks" + at + ": " + bad; });
    for (auto& m : got) { all += m.str(); }
  }
  r.state(all);
}
static void frame(mc::Chooser& c, pdfgen::Pdf* p, std::string* d) {
  int rot = c.choose(4), o = c.choose(3);
  for (size_t i = 0; i < p->pages.size(); i++) { p->rotate.push_back(90 * ((rot + i) % 4)); }
  if (o == 1) { p->x0 = -30; p->y0 = 40; p->width = 200; p->height = 260; }
  if (o == 2) { p->x0 = 15; p->y0 = -25; p->width = 280; p->height = 200; }
  *d += "rotation " + std::to_string(90 * rot) + " frame " + std::to_string(o) + "; ";
}
// Every kind of mark (and any two of them) on every kind of object in every frame.
static void objects(mc::Chooser& c, mc::Report& r) {
  int kind = c.choose(gen::Doc::KINDS), second = c.choose(mc::tier(4, 5)), rot = c.choose(2);
  std::vector<int> what = { c.choose(NUM_VIS) };
  gen::Doc g;
  g.add(kind, 60, 150, 10, rot);
  if (second == 1) { g.add(0, 120, 60); }
  if (second == 2) { g.newPage(); g.add(4, 30, 90); }
  if (second == 3) { g.add(13, 110, 150); g.add(1, 130, 140); }
  if (second == 4) { g.add(12, 50, 120); g.add(4, 40, 60); g.newPage(); }
  pdfgen::Pdf p = g.pdf();
  std::string d;
  frame(c, &p, &d);
  if (!c.owns()) { return; }
  checkVisual(r, p, what, g.desc + d);
}
// All sets of marks on one document.
static void sets(mc::Chooser& c, mc::Report& r) {
  std::vector<int> what;
  for (int i = 0; i < NUM_VIS; i++) { if (c.flag()) { what.push_back(i); } }
  int order = c.choose(mc::tier(1, 2));
  gen::Doc g;
  g.add(11, 20, 170, 14); g.add(4, 20, 140); g.add(4, 110, 140); g.add(13, 100, 140); g.add(8, 150, 60); g.newPage(); g.add(1, 40, 60);
  pdfgen::Pdf p = g.pdf();
  p.resources = "/XObject << /Im 21 0 R >>";
  p.extraObjs.push_back(pdfgen::Pdf::stream("x", "/Type /XObject /Subtype /Image /Width 1 /Height 1 /BitsPerComponent 8 /ColorSpace /DeviceGray"));
  p.pages[1] += "q 40 0 0 30 25 105 cm /Im Do Q";
  if (!c.owns()) { return; }
  if (order) { std::reverse(what.begin(), what.end()); }
  checkVisual(r, p, what, g.desc);
}
// Pages with several blocks: order, roles and cuts.
static void orders(mc::Chooser& c, mc::Report& r) {
  int n = c.range(0, mc::tier(3, 4));
  gen::Doc g;
  static const int XS[] = { 20, 110, 70 }, YS[] = { 170, 110, 50 };
  std::vector<int> used;
  for (int i = 0; i < n; i++) { int at = c.choose(9); g.add(i == 1 ? 4 : 0, XS[at % 3], YS[at / 3]); used.push_back(at); }
  static const std::vector<std::vector<int>> W = { { ORDER }, { ORDER_CUTS, SEGMENT_CUTS }, { BLOCKS, SEGMENTS } };
  int w = c.choose(3), role = c.choose(n == 1 ? 14 : 3);
  pdfgen::Pdf p = g.pdf();
  std::string d;
  if (n < 3) { frame(c, &p, &d); }
  if (!c.owns()) { return; }
  for (size_t i = 0; i < used.size(); i++) { for (size_t j = 0; j < i; j++) { if (used[i] == used[j]) { return; } } }
  checkVisual(r, p, W[w], g.desc + d, { role, 6, 2 });
}
// Input with annotations of its own, content in several streams, no content, and objects in streams.
static void inputs(mc::Chooser& c, mc::Report& r) {
  int variant = c.choose(4);
  std::vector<int> what;
  for (int i : { int(WORDS), int(BLOCKS), int(ORDER) }) { if (c.flag()) { what.push_back(i); } }
  pdfgen::Pdf p;
  p.pages = { pdfgen::text(20, 100, "abc de"), pdfgen::text(40, 60, "fg") + pdfgen::text(40, 120, "hi") };
  if (variant == 1) { p.pages[0] = ""; }
  std::string d;
  frame(c, &p, &d);
  if (!c.owns()) { return; }
  if (variant >= 2) {
    // (the generator has no annotations: they are put into the pages' resources)
    p.extraObjs = { "<< /Type /Annot /Subtype /Square /Rect [10 10 30 40] /C [0 1 0] >>" };
    p.resources = variant == 2 ? ">> /Annots [20 0 R] /X << " : ">> /Annots [20 0 R << /Type /Annot /Subtype /Text /Rect [60 60 80 80] /Contents (note) >>] /X << ";
  }
  checkVisual(r, p, what, "variant " + std::to_string(variant) + " " + d);
}
// Many pages and many blocks.
static void large(mc::Chooser& c, mc::Report& r) {
  int pages = c.of(std::vector<int>{ 1, 3, mc::tier(12, 40) }), cols = c.range(1, 3), rows = c.of(std::vector<int>{ 1, 4, 12, 40 });
  static const std::vector<std::vector<int>> W = { { ORDER }, { ORDER_CUTS }, { SEGMENT_CUTS }, { SEGMENTS }, { BLOCKS }, { LINES, WORDS }, { CHARS }, { GRAPHICS, SHAPES, FIGURES } };
  int w = c.choose(W.size()), sparse = c.choose(3), rot = c.choose(2), big = c.choose(2);
  if (!c.owns()) { return; }
  if (pages * cols * rows > 400) { return; }
  gen::Doc g;
  if (big) { g.width = 1000; g.height = 1400; } else { g.width = 600; g.height = 800; }
  for (int p = 0; p < pages; p++) {
    if (p) { g.newPage(); }
    if (sparse == 1 && p % 2) { continue; }                      // every other page is empty
    int n = sparse == 2 ? 1 + p % rows : rows;
    for (int y = 0; y < n; y++) { for (int x = 0; x < cols; x++) { g.add(y % 5 == 3 && w > 3 ? 12 + x % 2 : 0, 20 + 150 * x, g.height - 20 - (g.height - 40) * (y + 0.5) / rows, y % 7 == 2 ? 14 : 10); } }
  }
  pdfgen::Pdf p = g.pdf();
  for (int i = 0; rot && i < pages; i++) { p.rotate.push_back(90 * (i % 4)); }
  checkVisual(r, p, W[w], std::to_string(pages) + " pages of " + std::to_string(cols) + "x" + std::to_string(rows) + " blocks, sparse " + std::to_string(sparse) + " rotated " + std::to_string(rot) + " size " + std::to_string(big), { 0, 4, 2, 12 });
}
// Any sequence of cuts, chosen or not.
static void cuts(mc::Chooser& c, mc::Report& r) {
  if (!globalParams) { globalParams = std::make_unique<GlobalParams>(); }
  int n = c.range(0, mc::tier(3, 4)), where = c.choose(3), many = n == 0 ? c.choose(4) : 0;
  PdfDocument d;
  static const int MANY[] = { 0, 9, 13, 40 };
  auto* p1 = new ppp::types::PdfPage();
  auto* p2 = new ppp::types::PdfPage();
  p1->pageNum = 1; p2->pageNum = 2;
  d.pages = { p1, p2 };
  for (int i = 0; i < n + MANY[many]; i++) {
    bool x = n ? c.flag() : i % 3 == 0;
    auto* k = new ppp::types::Cut(x ? ppp::types::CutDir::X : ppp::types::CutDir::Y, "c" + std::string(1, 'a' + i % 26) + std::string(1, 'a' + i / 26), i);
    k->isChosen = n ? c.flag() : i % 4 != 1;
    int page = n > 1 && i ? c.choose(2) : n ? 0 : i % 2;
    k->pageNum = page + 1;
    double a = 30.5 + 37.25 * (i % 4) + 0.5 * (i / 4);
    if (x) { k->x1 = k->x2 = a; k->y1 = 10; k->y2 = 150; } else { k->y1 = k->y2 = a; k->x1 = 25; k->x2 = 170; }
    auto* pg = d.pages[page];
    (where == 0 || (where == 2 && i % 2) ? pg->blockDetectionCuts : pg->readingOrderCuts).push_back(k);
  }
  pdfgen::Pdf pdf;
  pdf.pages = { pdfgen::text(20, 100, "abc"), pdfgen::text(20, 100, "de") };
  std::string desc;
  if (n < 3) { frame(c, &pdf, &desc); }
  if (!c.owns()) { return; }
  std::vector<int> what = where == 0 ? std::vector<int>{ SEGMENT_CUTS } : where == 1 ? std::vector<int>{ ORDER_CUTS } : std::vector<int>{ ORDER_CUTS, SEGMENT_CUTS };
  for (auto* pg : d.pages) {
    for (auto* k : pg->blockDetectionCuts) { desc += std::string(k->isChosen ? "chosen " : "") + (k->dir == ppp::types::CutDir::X ? "x-cut, " : "y-cut, "); }
    for (auto* k : pg->readingOrderCuts) { desc += std::string(k->isChosen ? "chosen " : "") + (k->dir == ppp::types::CutDir::X ? "x-cut, " : "y-cut, "); }
    desc += "; ";
  }
  r.desc(desc);
  std::string in = run::writePdf(pdf.build()), out = mc::scratchDir() + "/v" + std::to_string(getpid()) + ".pdf";
  unlink(out.c_str());
  bool saved;
  { PdfDocumentVisualization v(in, run::config().pdfDocumentVisualization); for (int w : what) { draw(v, d, w); } saved = v.save(out); }
  r.step();
  r.check(saved, "save", "the visualization could not be saved");
  File b = read(out);
  if (!r.check(b.ok && b.pages.size() == 2, "valid", "the visualization is not a valid PDF with two pages")) { return; }
  std::string all;
  for (size_t p = 0; p < 2; p++) {
    Frame f;
    f.x0 = pdf.x0; f.y0 = pdf.y0; f.w = pdf.width; f.h = pdf.height;
    f.rotate = p < pdf.rotate.size() ? pdf.rotate[p] : 0;
    std::string bad = compare(expected(d.pages[p], f, what), b.pages[p].marks);
    r.check(bad.empty(), "marks", [&] { return "marks of page " + std::to_string(p + 1) + ": " + bad; });
    for (auto& m : b.pages[p].marks) { all += m.str(); }
  }
  r.state(all);
}
// Failures to write are reported.
static void failures(mc::Chooser& c, mc::Report& r) {
  gen::Doc g;
  g.add(4, 20, 140); g.newPage(); g.add(0, 20, 100);
  bool marks = c.flag();
  static std::string whole[2];
  run::setModel({ 0 });
  auto write = [&](const std::string& out, const size_t* limit) {
    auto res = run::process(g.pdf().build());
    PdfDocumentVisualization v(run::tmpPdf(), run::config().pdfDocumentVisualization);
    if (marks) { draw(v, *res.doc, CHARS); draw(v, *res.doc, BLOCKS); }
    struct rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    if (limit) { signal(SIGXFSZ, SIG_IGN); lim = old; lim.rlim_cur = *limit; setrlimit(RLIMIT_FSIZE, &lim); }
    bool ok = v.save(out);
    setrlimit(RLIMIT_FSIZE, &old);
    return ok;
  };
  std::string out = mc::scratchDir() + "/v" + std::to_string(getpid()) + ".pdf";
  if (whole[marks].empty()) {
    unlink(out.c_str());
    write(out, nullptr);
    whole[marks] = slurp(out);
  }
  // (the identifiers in the file depend on time, so its size may differ by a little from run to run)
  size_t size = whole[marks].size();
  int kind = c.choose(4);
  size_t limit = 0;
  int step = mc::tier(61, 7);
  if (kind == 0) { limit = static_cast<size_t>(c.choose(400)) * step; if (limit + 300 > size) { return; } }
  if (!c.owns()) { return; }
  r.desc(kind == 0 ? "file size limited to " + std::to_string(limit) + " of " + std::to_string(size) : kind == 1 ? "missing directory" : kind == 2 ? "the path is a directory" : "full device");
  unlink(out.c_str());
  if (kind == 1) { out = mc::scratchDir() + "/none/v.pdf"; }
  if (kind == 2) { out = mc::scratchDir(); }
  if (kind == 3) { if (symlink("/dev/full", out.c_str())) { return; } }
  bool ok = write(out, kind == 0 ? &limit : nullptr);
  r.step();
  if (kind == 3) { unlink(out.c_str()); }
  r.check(!ok, "reported", "the visualization could not be written completely, but no error was reported");
  r.state(std::to_string(kind));
}
static mc::Register r1({ "P24", "objects", "a case is a page of objects of one kind, a page rotation and origin, and a kind of marks", objects, quiet, 400 });
static mc::Register r2({ "P24", "sets", "a case is a set of kinds of marks", sets, quiet, 400 });
static mc::Register r3({ "P24", "orders", "a case is a page with blocks at some positions and roles, with reading order, cuts, or blocks and segments", orders, quiet, 400 });
static mc::Register r4({ "P24", "inputs", "a case is a PDF with annotations of its own or an empty page, and a set of kinds of marks", inputs, quiet, 400 });
static mc::Register r5({ "P24", "failures", "a case is a size the written file is limited to, or another reason why it cannot be written", failures, quiet, 400 });
static mc::Register r6({ "P24", "large", "a case is a number of pages and of rows and columns of blocks, and a kind of marks", large, quiet, 200 });
static mc::Register r7({ "P24", "cuts", "a case is a sequence of cuts, each of which is chosen or not", cuts, quiet, 400 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
