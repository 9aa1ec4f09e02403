// P18: the output depends on the PDF and the options only. Every execution runs in a process of its own
// (forked from one that has not processed anything), with a chosen layout and content of the memory, log
// settings, random seed and history of documents processed before.
#include <malloc.h>
#include <poll.h>
#include <sys/mman.h>
#include <filesystem>
#include <regex>
#include "doc.h"
#include "gendoc.h"
#include "run.h"
#include "annots.h"
#include "poppler/Error.h"
namespace fs = std::filesystem;
using ppp::config::Config;

// ------------------------------------------------------------------------------------------------
// The memory that the C++ code gets: where the blocks are, and what is in them.
struct Arena {
  enum { OFF, UP, DOWN, ALTERNATING, SPREAD } order = OFF;
  char* base = nullptr;
  size_t size = 0, low = 0, high = 0, n = 0;
  int fill = 0;
};
static Arena arena;
static const size_t ARENA = size_t(1) << 30;
static void* arenaAlloc(size_t n) {
  n = (n + 31) & ~size_t(15);
  char* p = nullptr;
  arena.n++;
  // (SPREAD: slots in bit-reversed order, each of a megabyte, for small blocks; they are used round by round)
  bool up = arena.order == Arena::UP || (arena.order == Arena::ALTERNATING && arena.n % 2);
  if (arena.order == Arena::SPREAD && n <= 4096) {
    static size_t used[256];
    size_t k = arena.n & 255, rev = 0;
    for (int b = 0; b < 8; b++) { rev |= (k >> b & 1) << (7 - b); }
    if (used[rev] + n <= (size_t(1) << 20)) { p = arena.base + (rev << 20) + used[rev]; used[rev] += n; }
  }
  if (!p) {
    if (arena.low + n + arena.high > arena.size) { return nullptr; }
    if (up) { p = arena.base + arena.low; arena.low += n; } else { arena.high += n; p = arena.base + arena.size - arena.high; }
  }
  memset(p, arena.fill, n);
  return p;
}
static bool inArena(void* p) { return arena.base && p >= arena.base && p < arena.base + arena.size; }
void* operator new(size_t n) {
  void* p = arena.order != Arena::OFF ? arenaAlloc(n) : nullptr;
  if (!p) { p = malloc(n ? n : 1); }
  if (!p) { abort(); }
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (!inArena(p)) { free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

__attribute__((noinline)) static void fillStack(int byte) {
  volatile char a[400000];
  for (size_t i = 0; i < sizeof a; i++) { a[i] = static_cast<char>(byte); }
}
struct Memory { int order = 0, fill = 0; bool perturb = false; };
static void apply(const Memory& m) {
  if (m.perturb) { mallopt(M_PERTURB, m.fill == 0 ? 0xFF : m.fill); fillStack(m.fill); }
  if (m.order) {
    arena.base = static_cast<char*>(mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (arena.base == MAP_FAILED) { abort(); }
    arena.size = ARENA;
    arena.low = m.order == Arena::SPREAD ? size_t(256) << 20 : 0;
    arena.fill = m.fill;
    arena.order = static_cast<decltype(arena.order)>(m.order);
  }
}

// ------------------------------------------------------------------------------------------------
// Documents.
static std::vector<std::string> someDocuments() {
  std::vector<std::string> v;
  auto add = [&](gen::Doc g) { v.push_back(g.pdf().build()); };
  { gen::Doc g; g.add(11, 20, 180, 14); g.add(4, 20, 150); g.add(3, 20, 110); g.add(0, 20, 98); g.add(2, 120, 110); g.add(8, 150, 40); g.add(13, 105, 150); g.newPage(); g.add(4, 20, 170); g.add(6, 60, 100, 14); g.add(12, 20, 60); add(g); }
  { gen::Doc g; g.add(0, 40, 100, 16); add(g); }
  { gen::Doc g; add(g); }                                             // an empty page
  { gen::Doc g; g.add(4, 20, 150, 7); g.add(4, 110, 150, 7); g.add(14, 20, 80, 7); g.add(14, 20, 70, 7); add(g); }
  { gen::Doc g; g.add(0, 40, 100, 10, 1); g.newPage(); g.add(5, 40, 100, 12); g.add(10, 40, 40, 9); add(g); }
  // Other fonts of the same names, and accents.
  { pdfgen::Pdf p; p.fonts = "/F9 << /Type /Font /Subtype /Type1 /BaseFont /Times-Bold >>"; p.pages = { pdfgen::text(20, 150, "Abstract", 12, "F9") + pdfgen::text(20, 120, "1. some (text) re-", 9, "F9") + pdfgen::text(20, 108, "peated words", 9, "F9") }; v.push_back(p.build()); }
  { gen::Doc g; g.add(16, 20, 150); g.add(15, 20, 120); g.add(7, 20, 100); g.newPage(); g.newPage(); g.add(1, 20, 30, 6); add(g); }
  // Fonts without names, a Type 3 font.
  { pdfgen::Pdf p; p.fonts = "/F8 << /Type /Font /Subtype /TrueType >> /F7 << /Type /Font /Subtype /Type1 >> /F6 << /Type /Font /Subtype /Type3 /FontBBox [0 0 750 750] /FontMatrix [0.001 0 0 0.001 0 0] /FirstChar 97 /LastChar 98 /Widths [750 750] /Encoding << /Type /Encoding /Differences [97 /a /b] >> /CharProcs << /a 20 0 R /b 20 0 R >> >>";
    p.extraObjs = { pdfgen::Pdf::stream("750 0 0 0 750 750 d1 0 0 750 750 re f") };
    p.pages = { pdfgen::text(20, 150, "nameless words", 12, "F8") + pdfgen::text(20, 120, "more of them", 9, "F7") + pdfgen::text(20, 90, "abba", 9, "F6") + pdfgen::text(100, 50, "and others", 9, "F8") }; v.push_back(p.build()); }
  v.push_back("this is not a PDF");
  v.push_back("%PDF-1.4\n1 0 obj << /Type /Catalog /Pages 2 0 R >> endobj 2 0 obj << /Type /Pages /Kids [] /Count 0 >> endobj trailer << /Root 1 0 R >>\n%%EOF\n");
  return v;
}
static const std::vector<std::string>& documents() { static std::vector<std::string> v = someDocuments(); return v; }

// How a document is processed.
struct Way {
  int level = 4, debug = 0, filter = -1;  // log settings
  bool timings = false;
  unsigned seed = 1;
  int skip = 0;
  int roles = 0;
  int models = 0;  // the directory of the models
};
static std::string canonical(const std::string& s) {  // random identifiers
  static const std::regex id("\\b(char|word|line|block|segment|figure|shape|graphic|image|page)-[A-Za-z0-9]{4,16}\\b");
  std::string o;
  std::map<std::string, int> seen;
  std::sregex_iterator it(s.begin(), s.end(), id), end;
  size_t at = 0;
  for (; it != end; ++it) {
    o += s.substr(at, it->position() - at);
    int k = seen.insert({ it->str(), seen.size() }).first->second;
    o += (*it)[1].str() + "#" + std::to_string(k);
    at = it->position() + it->length();
  }
  return o + s.substr(at);
}
struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
// Several directories with models, with other vocabularies.
static const std::vector<std::string>& modelDirs() {
  static std::vector<std::string> d;
  if (d.empty()) {
    d = { run::modelDir(), run::modelDir() + ".b", run::modelDir() + ".c" };
    for (int k = 1; k < 3; k++) {
      mkdir(d[k].c_str(), 0700);
      std::ofstream v(d[k] + "/bpe-vocab.tsv");
      v << (k == 1 ? "</w>\t1\no\t2\nr\t3\nor\t4\na\t5\n" : "a\t1\nb\t2\nab\t3\n</w>\t4\n");
      std::ofstream r(d[k] + "/roles-vocab.tsv");
      size_t n = ppp::types::SEMANTIC_ROLE_NAMES.size();
      for (size_t i = 0; i < n; i++) { r << ppp::types::SEMANTIC_ROLE_NAMES[i] << "\t" << (k == 1 ? i : n - 1 - i) << "\n"; }
    }
  }
  return d;
}
static Config configOf(const Way& w) {
  Config c;
  c.semanticRolesPrediction.modelsDir = modelDirs()[w.models];
  using namespace ppp::utils::log;
  const LogLevel L[] = { TRACE, ppp::utils::log::DEBUG, INFO, WARN, ERROR };
  int i = 0;
  auto set = [&](auto& conf) {
    if constexpr (requires { conf.disabled; }) { conf.disabled = w.skip >> i & 1; }
    conf.logLevel = w.debug >> i & 1 ? ppp::utils::log::DEBUG : L[w.level];
    conf.logPageFilter = w.filter;
    i++;
  };
  set(c.pdfParsing); set(c.glyphsStatisticsCalculation); set(c.diacriticalMarksMerging); set(c.wordsDetection); set(c.wordsStatisticsCalculation); set(c.pageSegmentation);
  set(c.textLinesDetection); set(c.subSuperScriptsDetection); set(c.textLinesStatisticsCalculation); set(c.textBlocksDetection); set(c.readingOrderDetection);
  set(c.semanticRolesPrediction); set(c.wordsDehyphenation);
  return c;
}
static const std::vector<std::vector<int>> ROLES = { { 0 }, { 6, 2, 0, 3 }, { 9 } };
// All outputs: the text in all formats, and the marks of the visualization.
static std::string outputs(PdfDocument* doc, int status) {
  std::string s = "status " + std::to_string(status) + "\n";
  if (status) { return s; }
  s += run::txt(doc) + "\x02" + run::serialize(ppp::serialization::PlainTextExtendedSerializer(), doc) + "\x02" + canonical(run::serialize(ppp::serialization::JsonlSerializer(2), doc)) + "\x02";
  for (auto* p : doc->pages) {
    for (int v = 0; v < annots::NUM_VIS; v++) {
      std::vector<std::string> marks;
      for (auto m : annots::expected(p, annots::Frame(), { v })) { if (v == annots::SEGMENT_CUTS || v == annots::ORDER_CUTS) { m.text.clear(); } marks.push_back(m.str()); }
      if (v != annots::ORDER) { std::sort(marks.begin(), marks.end()); }
      for (auto& m : marks) { s += m + ";"; }
      s += "\n";
    }
  }
  return s;
}
// What the layout rules have computed: statistics, fonts and features.
static std::string features(PdfDocument* doc) {
  std::stringstream o;
  o << "document " << doc->avgCharWidth << " " << doc->avgCharHeight << " " << doc->mostFreqFontSize << " " << doc->mostFreqFontName << " " << doc->mostFreqWordDistance << " " << doc->mostFreqEstimatedLineDistance << " " << doc->mostFreqLineDistance << " " << doc->mostFreqWordHeight << " " << doc->mostFreqLineLeftMargin << "\n";
  std::map<double, double> ds(doc->mostFreqLineDistancePerFontSize.begin(), doc->mostFreqLineDistancePerFontSize.end());
  for (auto& d : ds) { o << d.first << ":" << d.second << " "; }
  std::map<std::string, ppp::types::PdfFontInfo*> fonts(doc->fontInfos.begin(), doc->fontInfos.end());
  for (auto& f : fonts) {
    auto* i = f.second;
    o << "font " << f.first << " " << i->fontName << " " << i->normFontName << " " << i->fontBaseName << " " << i->isSerif << i->isSymbolic << i->isItalic << i->isType3 << " " << i->weight << "\n";
  }
  for (auto* p : doc->pages) {
    o << "page " << p->pageNum << " " << p->words.size() << " words " << p->segments.size() << " segments\n";
    for (auto* c : p->characters) { o << c->text << " " << c->name << " " << c->base << (c->isSubscript ? " sub" : "") << (c->isSuperscript ? " super" : "") << ";"; }
    for (auto* w : p->words) { o << w->text << " " << w->rank << (w->isFirstPartOfHyphenatedWord ? " first" : "") << (w->isSecondPartOfHyphenatedWord ? " second" : "") << (w->isPartOfStackedMathSymbol ? " part" : "") << ";"; }
    for (auto* b : p->blocks) {
      o << "block " << b->isLinesCentered << b->isEmphasized << " " << b->hangingIndent << " " << b->rank << "\n";
      for (auto* l : b->lines) { o << "line " << l->rank << " " << l->maxFontSize << " " << l->base << " " << l->leftMargin << " " << l->rightMargin << (l->parentLine ? " parent " + l->parentLine->text : "") << (l->prevSiblingLine ? " prev " + l->prevSiblingLine->text : "") << (l->nextSiblingLine ? " next " + l->nextSiblingLine->text : "") << "\n"; }
    }
  }
  for (auto& call : cppflow::env().calls) { for (auto& in : call) { o << "input " << in.first; for (auto d : in.second._shape) { o << " " << d; } o << ":"; for (auto d : in.second._data) { o << " " << d; } o << "\n"; } }
  return o.str();
}
static std::string perform(const std::string& path, const Way& w, ppp::PdfToTextPlusPlus* engine = nullptr) {
  Null null;
  std::streambuf* old = std::cout.rdbuf(&null);
  srand(w.seed);
  run::setModel(ROLES[w.roles]);
  Config c = configOf(w);
  cppflow::env().record = true;
  cppflow::env().calls.clear();
  std::vector<ppp::types::Timing> ts;
  auto* doc = new PdfDocument(path);
  int status;
  if (engine) { status = engine->process(doc, w.timings ? &ts : nullptr); } else { ppp::PdfToTextPlusPlus e(&c); status = e.process(doc, w.timings ? &ts : nullptr); }
  std::cout.rdbuf(old);
  std::string s = outputs(doc, status);
  if (!status) { s += features(doc); }
  delete doc;
  return s;
}
// Runs f in a process of its own and returns its result.
static std::string isolated(const std::function<std::string()>& f) {
  int p[2];
  if (pipe2(p, O_CLOEXEC)) { abort(); }
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    std::string s = f() + "\x03";
    for (size_t i = 0; i < s.size();) { ssize_t n = write(p[1], s.data() + i, s.size() - i); if (n <= 0) { _exit(1); } i += n; }
    _exit(0);
  }
  close(p[1]);
  std::string s;
  char buf[65536];
  ssize_t n;
  while ((n = ::read(p[0], buf, sizeof buf)) > 0) { s.append(buf, n); }
  close(p[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (s.empty() || s.back() != '\x03') { return "the process ended with status " + std::to_string(st) + " " + s; }
  return s;
}
static void setup() { setErrorCallback([](ErrorCategory, Goffset, const char*) {}); run::modelDir(); modelDirs(); }
static std::string put(const std::string& bytes, int k) {
  std::string p = mc::scratchDir() + "/r" + std::to_string(getpid()) + "." + std::to_string(k) + ".pdf";
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o << bytes;
  return p;
}
// The output of the document, processed first and alone.
static const std::string& baseline(const std::string& bytes, int skip, int roles, int models = 0) {
  static std::map<std::string, std::string> cache;
  std::string key = std::to_string(skip) + "," + std::to_string(roles) + "," + std::to_string(models) + bytes;
  auto it = cache.find(key);
  if (it != cache.end()) { return it->second; }
  if (cache.size() > 40) { cache.clear(); }
  std::string path = put(bytes, 9);
  Way w;
  w.skip = skip; w.roles = roles; w.models = models;
  return cache[key] = isolated([&] { return perform(path, w); });
}
static std::string firstDifference(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) { i++; }
  size_t f = i > 60 ? i - 60 : 0;
  return "at " + std::to_string(i) + ": alone <" + a.substr(f, 160) + ">, now <" + b.substr(f, 160) + ">";
}
static void compare(mc::Report& r, const std::string& want, const std::string& got, const char* key) {
  r.check(want.rfind("status ", 0) == 0, "crash", [&] { return "the document alone: " + want.substr(0, 200); });
  r.check(got == want, key, [&] { return "the output is different " + firstDifference(want, got); });
  r.state(got);
}

// ------------------------------------------------------------------------------------------------
// Spaces.
static const std::vector<Memory>& memories() {
  static const std::vector<Memory> M = { { Arena::UP, 0, false }, { Arena::DOWN, 0, false }, { Arena::ALTERNATING, 0xAA, true }, { Arena::SPREAD, 0x55, true }, { Arena::DOWN, 0xFF, true }, { Arena::OFF, 0xAA, true }, { Arena::OFF, 0x01, true },
    { Arena::UP, 0x7F, true } };
  return M;
}
static std::string bytesOf(mc::Chooser& c, std::string* desc) {  // a generated document
  gen::Doc g;
  int n = c.choose(3);
  if (n == 0) { const std::string& b = c.of(documents()); *desc = "a sample document"; return b; }
  struct O { int kind; double x, y, fs; int rot; };
  static const std::vector<int> K = { 1, 3, 4, 5, 6, 8, 10, 13, 14, 16 };
  if (n == 1) {
    int kind = c.choose(gen::Doc::KINDS), rot = c.choose(4);
    g.add(kind, 100, 100, 10, rot);
  } else {
    int a = c.of(K), b = c.of(K), where = c.choose(4);
    bool page = where == 3;
    g.add(a, 20, 170);
    if (page) { g.newPage(); }
    g.add(b, where == 1 ? 110 : 20, where == 0 ? 157 : where == 2 ? 100 : 170, where == 2 ? 7 : 10);
  }
  *desc = g.desc;
  return g.pdf().build();
}
static void memory(mc::Chooser& c, mc::Report& r) {
  std::string desc, bytes = bytesOf(c, &desc);
  Memory m = c.of(memories());
  Way w;
  w.roles = mc::thorough() ? c.choose(3) : 1;
  w.skip = mc::thorough() ? c.choose(3) == 1 ? 1 << 10 : 0 : 0;
  if (!c.owns()) { return; }
  r.desc(desc + " memory order " + std::to_string(m.order) + " fill " + std::to_string(m.fill));
  std::string path = put(bytes, 0);
  std::string got = isolated([&] { apply(m); return perform(path, w); });
  r.step();
  compare(r, baseline(bytes, w.skip, w.roles), got, "memory");
}
static void logging(mc::Chooser& c, mc::Report& r) {
  std::string desc, bytes = bytesOf(c, &desc);
  Way w;
  int k = c.choose(mc::tier(20, 26));
  if (k < 4) { w.level = k; } else if (k < 17) { w.debug = 1 << (k - 4); } else if (k == 17) { w.timings = true; } else if (k == 18) { w.level = 1; w.filter = 2; w.timings = true; } else if (k == 19) { w.seed = 77777; }
  else if (k == 20) { w.level = 0; w.filter = 1; } else if (k == 21) { w.debug = 0x1555; } else if (k == 22) { w.debug = 0x0AAA; w.filter = 1; } else if (k == 23) { w.seed = 0; w.timings = true; } else if (k == 24) { w.level = 2; w.filter = 99; } else { w.level = 0; w.filter = 0; w.seed = 5; }
  w.roles = 1;
  if (!c.owns()) { return; }
  r.desc(desc + " log level " + std::to_string(w.level) + " debug " + std::to_string(w.debug) + " filter " + std::to_string(w.filter) + (w.timings ? " timings" : "") + " seed " + std::to_string(w.seed));
  std::string path = put(bytes, 0);
  std::string got = isolated([&] { return perform(path, w); });
  r.step();
  compare(r, baseline(bytes, w.skip, w.roles), got, "logging");
}
// Modules left out: the rest must not depend on what they would have set.
static void skips(mc::Chooser& c, mc::Report& r) {
  Way w;
  static const std::vector<int> SUBSETS = [] {
    std::vector<int> v;
    for (int s = 1; s < 4096; s++) { int n = __builtin_popcount(s); if (mc::thorough() || n <= 2 || n >= 11) { v.push_back(s << 1); } }
    return v;
  }();
  w.skip = c.of(SUBSETS);
  w.roles = 1;
  int doc = c.choose(mc::tier(7, 8));
  Memory m = memories()[c.of(std::vector<int>{ 2, 4, 7 })];
  if (!c.owns()) { return; }
  r.desc("document " + std::to_string(doc) + " skipping the modules " + std::to_string(w.skip) + " memory order " + std::to_string(m.order) + " fill " + std::to_string(m.fill));
  const std::string& bytes = documents()[doc];
  std::string path = put(bytes, 0);
  std::string got = isolated([&] { apply(m); return perform(path, w); });
  r.step();
  compare(r, baseline(bytes, w.skip, w.roles), got, "skips");
}
// Documents processed before in the same process, in all orders, with several settings.
static void histories(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, mc::tier(2, 3));
  std::vector<int> before;
  std::vector<Way> ways;
  for (int i = 0; i < n; i++) {
    before.push_back(c.choose(n == 3 ? 6 : documents().size()));
    Way w;
    int k = n == 1 ? c.choose(6) : n == 2 ? c.choose(mc::tier(2, 4)) : 0;
    if (k == 1) { w.skip = 0x0FFE; } else if (k == 2) { w.roles = 1; w.debug = 0x1FFF; } else if (k == 3) { w.skip = 1 << 9 | 1 << 12; w.timings = true; } else if (k == 4) { w.skip = 1 << 3; } else if (k == 5) { w.skip = 1 << 11 | 1 << 5; }
    ways.push_back(w);
  }
  int target = c.choose(documents().size());
  bool reuse = n < 3 ? c.flag() : false;
  if (!c.owns()) { return; }
  std::string desc = "documents";
  for (int i = 0; i < n; i++) { desc += " " + std::to_string(before[i]) + (ways[i].skip ? " skipping " + std::to_string(ways[i].skip) : "") + ","; }
  r.desc(desc + " then " + std::to_string(target) + (reuse ? " with the same engine" : ""));
  std::vector<std::string> paths;
  for (int i = 0; i < n; i++) { paths.push_back(put(documents()[before[i]], i)); }
  paths.push_back(put(documents()[target], 5));
  Way last;
  last.roles = 1;
  std::string got = isolated([&] {
    Config conf = configOf(last);
    std::unique_ptr<ppp::PdfToTextPlusPlus> engine;
    if (reuse) { engine.reset(new ppp::PdfToTextPlusPlus(&conf)); }
    for (int i = 0; i < n; i++) { perform(paths[i], ways[i], engine.get()); }
    return perform(paths[n], last, engine.get());
  });
  r.step(n + 1);
  compare(r, baseline(documents()[target], 0, 1), got, "histories");
}

// Two documents that are the same in many respects, one after the other.
static std::vector<std::pair<std::string, std::vector<std::string>>> makeTwins() {
  std::vector<std::pair<std::string, std::vector<std::string>>> v;
  auto font = [](const std::string& name, const std::string& flags, const std::string& more = "", const std::string& desc = "") {
    std::string w;
    for (int i = 0; i < 224; i++) { w += "500 "; }
    return "<< /Type /Font /Subtype /Type1 /BaseFont /" + name + " /FirstChar 32 /LastChar 255 /Widths [" + w + "] " + (more.empty() ? "/Encoding /WinAnsiEncoding" : more) + " /FontDescriptor << /Type /FontDescriptor /FontName /" + name + " /Flags " + flags + " /FontBBox [0 -200 1000 900] /ItalicAngle 0 /Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 " + desc + ">> >>";
  };
  auto doc = [&](const std::string& content, const std::vector<std::string>& objs = {}, const std::function<void(pdfgen::Pdf&)>& f = nullptr) {
    pdfgen::Pdf p;
    p.fonts = "/F9 20 0 R";
    p.extraObjs = objs;
    if (objs.empty()) { p.extraObjs = { font("Same", "32") }; }
    p.pages = { content };
    if (f) { f(p); }
    return p.build();
  };
  using pdfgen::text;
  auto body = [&](const std::string& f) { return text(20, 180, "Some heading words", 10, f) + text(20, 150, "the first line of a", 10) + text(20, 138, "paragraph with words", 10) + text(20, 126, "and more of them.", 10); };
  // Fonts of the same name.
  v.push_back({ "flags of a font", { doc(body("F9"), { font("Same", "32") }), doc(body("F9"), { font("Same", "96") }), doc(body("F9"), { font("Same", "262176") }) } });
  v.push_back({ "weight of a font", { doc(body("F9"), { font("Same", "32", "", "/FontWeight 400 ") }), doc(body("F9"), { font("Same", "32", "", "/FontWeight 700 ") }) } });
  auto map = [](const std::string& to) { return pdfgen::Pdf::stream("/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /T def 1 begincodespacerange <00> <ff> endcodespacerange 1 beginbfchar <61> <" + to + "> endbfchar endcmap end end"); };
  v.push_back({ "map of a font", { doc(body("F9"), { font("Same", "4", "/Encoding /WinAnsiEncoding /ToUnicode 21 0 R"), map("0041") }), doc(body("F9"), { font("Same", "4", "/Encoding /WinAnsiEncoding /ToUnicode 21 0 R"), map("00660069") }) } });
  v.push_back({ "encoding of a font", { doc(body("F9"), { font("Same", "4", "/Encoding << /Differences [97 /summationdisplay] >>") }), doc(body("F9"), { font("Same", "4", "/Encoding << /Differences [97 /a 98 /uni0301] >>") }) } });
  v.push_back({ "same font id, other name", { doc(body("F9"), { font("SameBold", "32") }), doc(body("F9"), { font("Other", "32") }), doc(body("F9"), { "<< /Type /Font /Subtype /Type1 >>" }), doc(body("F9"), { "<< /Type /Font /Subtype /Type3 /FontBBox [0 0 1 1] /FontMatrix [0.1 0 0 0.1 0 0] /CharProcs << >> /Encoding << /Differences [97 /a] >> /FirstChar 97 /LastChar 97 /Widths [5] >>" }) } });
  // Statistics.
  v.push_back({ "font sizes", { doc(text(20, 180, "big words", 20) + text(20, 150, "many more big words", 18) + text(20, 130, "x1", 9)), doc(text(20, 180, "big words", 20) + text(20, 150, "many", 7) + text(20, 140, "more small words of this", 7) + text(20, 130, "x1", 9)) } });
  v.push_back({ "line distances", { doc(text(20, 180, "one two", 10) + text(20, 160, "three", 10) + text(20, 140, "four", 10) + text(20, 128, "five", 10)), doc(text(20, 180, "one two", 10) + text(20, 168, "three", 10) + text(20, 156, "four", 10) + text(20, 136, "five", 10)) } });
  v.push_back({ "word distances", { doc(text(20, 180, "one   two   three", 10) + text(20, 168, "four five", 10)), doc(text(20, 180, "one two three", 10) + text(20, 168, "four   five", 10)) } });
  // Footnote labels of one page or document only.
  auto super = [&](double x, double y, const std::string& t) { return text(x, y + 4, t, 6); };
  v.push_back({ "footnote labels", { doc(text(20, 180, "some words", 10) + super(71, 180, "2") + text(80, 180, "with a mark", 10) + super(20, 140, "2") + text(24, 140, "The note", 10) + text(20, 128, "goes on here", 10)),
    doc(text(20, 180, "some words", 10) + text(80, 180, "with no mark", 10) + super(20, 140, "2") + text(24, 140, "The note", 10) + text(20, 128, "goes on here", 10)) } });
  // The end of a document and the beginning of the next one.
  v.push_back({ "hyphens", { doc(text(20, 180, "the line ends with hy-", 10)), doc(text(20, 180, "phen starts the line", 10)), doc(text(20, 180, "more hyphens hy-", 10) + text(20, 168, "phen-", 10), {}, [](pdfgen::Pdf& p) { p.pages.push_back(pdfgen::text(20, 180, "ated", 10)); p.pages.push_back(""); }) } });
  v.push_back({ "accents", { doc(text(20, 180, "a", 10) + text(20, 180, "\xB4", 10)), doc(text(20, 180, "e", 10) + text(60, 180, "\xB4", 10) + text(20, 100, "a", 10)) } });
  // Pages.
  auto paged = [&](int n, int rot, double w) { return doc(body("F1"), {}, [&](pdfgen::Pdf& p) { p.width = w; p.rotate = { rot }; for (int i = 1; i < n; i++) { p.pages.push_back(i % 2 ? "" : body("F2")); p.rotate.push_back(i % 2 ? rot : 0); } }); };
  v.push_back({ "pages", { paged(1, 0, 200), paged(3, 0, 200), paged(2, 90, 200), paged(1, 0, 300), paged(2, 180, 150) } });
  // Clips, shapes, images and figures; the graphics state at the end of a document.
  v.push_back({ "graphics", { doc(body("F1") + "10 10 100 100 re W n " + text(20, 60, "inside", 10)), doc(body("F1") + "1 0 0 RG /F2 20 Tf 2 Tr 5 Tc q q 2 0 0 2 0 0 cm BT"), doc(body("F1") + "20 60 m 100 60 l S " + text(20, 50, "below", 10)), doc(text(20, 60, "inside", 10) + "10 10 100 100 re W n " + text(20, 40, "a", 10)) } });
  // The same words at other places.
  v.push_back({ "order", { doc(text(20, 150, "left column words", 8) + text(20, 140, "left column words", 8) + text(110, 150, "right column words", 8) + text(110, 140, "right column words", 8)),
    doc(text(110, 150, "left column words", 8) + text(110, 140, "left column words", 8) + text(20, 150, "right column words", 8) + text(20, 140, "right column words", 8)), doc(text(20, 140, "left column words", 8) + text(20, 150, "left column words", 8)) } });
  // A document of which nothing can be read, and one that is truncated.
  std::string whole = doc(body("F9"));
  v.push_back({ "damages", { whole, whole.substr(0, whole.size() / 2), "", whole.substr(0, whole.size() - 300) } });
  return v;
}
static void twins(mc::Chooser& c, mc::Report& r) {
  static const auto all = makeTwins();
  size_t k = c.choose(all.size());
  const auto& ds = all[k].second;
  int n = c.range(1, 2);
  std::vector<int> seq;
  for (int i = 0; i <= n; i++) { seq.push_back(c.choose(ds.size())); }
  int path = c.choose(3);      // the same path, other paths, or the same file name in another directory
  int life = c.choose(3);      // an engine for each document, one for all, or all documents kept until the end
  int models = c.choose(n == 1 ? 3 : mc::tier(1, 3));
  bool skipFonts = n == 1 && c.flag();
  if (!c.owns()) { return; }
  std::string desc = all[k].first + ":";
  for (int i : seq) { desc += " " + std::to_string(i); }
  r.desc(desc + (path == 0 ? ", same path" : path == 1 ? "" : ", same name") + (life == 1 ? ", same engine" : life == 2 ? ", kept" : "") + " models " + std::to_string(models) + (skipFonts ? ", fonts skipped before" : ""));
  auto at = [&](int i) {
    std::string base = mc::scratchDir() + "/t" + std::to_string(getpid());
    if (path == 2) { mkdir((base + "." + std::to_string(i)).c_str(), 0700); return base + "." + std::to_string(i) + "/in.pdf"; }
    return base + (path == 1 ? "." + std::to_string(i) : "") + ".pdf";
  };
  Way last;
  last.roles = 1; last.models = models;
  Way before = last;
  before.models = models ? 3 - models : 0;
  before.debug = skipFonts ? 2 : 0;
  std::string got = isolated([&] {
    Config conf = configOf(last);
    conf.pdfParsing.skipEmbeddedFontFilesParsing = false;
    ppp::PdfToTextPlusPlus engine(&conf);
    std::vector<PdfDocument*> kept;
    Null null;
    for (int i = 0; i < n; i++) {
      { std::ofstream o(at(i), std::ios::binary | std::ios::trunc); o << ds[seq[i]]; }
      if (life == 2) {
        auto* old = std::cout.rdbuf(&null);
        run::setModel(ROLES[0]);
        Config b = configOf(before);
        b.pdfParsing.skipEmbeddedFontFilesParsing = skipFonts;
        kept.push_back(new PdfDocument(at(i)));
        int status = ppp::PdfToTextPlusPlus(&b).process(kept.back());
        outputs(kept.back(), status);
        std::cout.rdbuf(old);
      } else { perform(at(i), before, life == 1 ? &engine : nullptr); }
    }
    { std::ofstream o(at(n), std::ios::binary | std::ios::trunc); o << ds[seq[n]]; }
    return perform(at(n), last, life == 1 ? &engine : nullptr);
  });
  r.step(n + 1);
  compare(r, baseline(ds[seq[n]], 0, 1, models), got, "twins");
}

// ------------------------------------------------------------------------------------------------
// The program in different environments.
struct Run { int status = 0; std::string out, err, file, vis; };
static const std::string& dir() {
  static std::string b;
  if (b.empty()) { b = mc::scratchDir() + "/env." + std::to_string(getpid()); }
  return b;
}
static Run program(const std::vector<std::string>& args, const std::vector<std::string>& env, const std::string& cwd) {
  Run r;
  int o[2], e[2];
  if (pipe2(o, O_CLOEXEC) || pipe2(e, O_CLOEXEC)) { abort(); }
  std::string cli = getenv("VERIF_CLI");
  std::vector<const char*> a = { "pdftotext++" }, v;
  for (auto& x : args) { a.push_back(x.c_str()); }
  for (auto& x : env) { v.push_back(x.c_str()); }
  a.push_back(nullptr); v.push_back(nullptr);
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int n = open("/dev/null", O_RDONLY);
    dup2(n, 0); dup2(o[1], 1); dup2(e[1], 2);
    if (chdir(cwd.c_str())) { _exit(126); }
    execve(cli.c_str(), const_cast<char**>(a.data()), const_cast<char**>(v.data()));
    _exit(127);
  }
  close(o[1]); close(e[1]);
  struct pollfd fds[2] = { { o[0], POLLIN, 0 }, { e[0], POLLIN, 0 } };
  int left = 2;
  char buf[65536];
  while (left) {
    poll(fds, 2, -1);
    for (int i = 0; i < 2; i++) {
      if (fds[i].fd < 0 || !fds[i].revents) { continue; }
      ssize_t n = ::read(fds[i].fd, buf, sizeof buf);
      if (n <= 0) { close(fds[i].fd); fds[i].fd = -1; left--; continue; }
      (i ? r.err : r.out).append(buf, n);
    }
  }
  int st = 0;
  waitpid(p, &st, 0);
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  return r;
}
static void environments(mc::Chooser& c, mc::Report& r) {
  int doc = c.choose(8), env = c.choose(12), form = c.choose(5);
  bool timings = c.flag(), extended = c.flag();
  if (!c.owns()) { return; }
  std::error_code e;
  fs::remove_all(dir(), e);
  fs::create_directories(dir() + "/in/deep");
  auto spit = [](const std::string& p, const std::string& s) { std::ofstream f(p, std::ios::binary); f << s; };
  static const std::vector<std::vector<std::string>> E = { { "PATH=/usr/bin:/bin" }, {}, { "LC_ALL=xx_YY.UTF-8" }, { "LC_ALL=C" }, { "LC_ALL=C.UTF-8" }, { "LANG=de_DE.UTF-8" }, { "LC_NUMERIC=de_DE", "LC_CTYPE=POSIX" }, { "TZ=Asia/Tokyo" }, { "HOME=/nonexistent" },
    { "TERM=dumb", "COLUMNS=1" }, { "TMPDIR=/nonexistent" }, { "LANG=C.UTF-8", "LC_ALL=" } };
  std::string name = form == 1 ? "other name.pdf" : form == 4 ? "ohne.Endung" : "in.pdf", path = dir() + "/in/" + name, cwd = dir() + "/in", arg = name;
  spit(path, documents()[doc]);
  if (form == 2) { arg = path; cwd = "/"; }
  if (form == 3) { cwd += "/deep"; arg = "../in.pdf"; }
  if (form == 4) {  // (another time)
    struct timespec t[2] = { { 1000000000, 0 }, { 1000000000, 0 } };
    utimensat(AT_FDCWD, path.c_str(), t, 0);
  }
  std::vector<std::string> args;
  if (timings) { args.push_back("--print-running-times"); }
  if (extended) { args.push_back("--format=txt-extended"); }
  args.push_back(arg);
  std::vector<std::string> v = E[env];
  v.push_back("PPP_MODEL=gcad");
  std::string desc;
  for (auto& x : E[env]) { desc += x + " "; }
  for (auto& x : args) { desc += "[" + x + "] "; }
  r.desc(desc + "document " + std::to_string(doc));
  Run u = program(args, v, cwd);
  r.step();
  // The same, by the library.
  static std::map<std::pair<int, bool>, std::string> texts;
  auto key = std::make_pair(doc, extended);
  if (!texts.count(key)) {
    std::string p = put(documents()[doc], 8);
    texts[key] = isolated([&] {
      run::setModel({ 6, 2, 0, 3 });
      Way w;
      Config conf = configOf(w);
      PdfDocument d(p);
      ppp::PdfToTextPlusPlus engine(&conf);
      engine.process(&d);
      return extended ? run::serialize(ppp::serialization::PlainTextExtendedSerializer(), &d) : run::txt(&d);
    });
    texts[key].pop_back();
  }
  const std::string& want = texts[key];
  r.check(u.status == 0 && u.err.empty(), "status", [&] { return "status " + std::to_string(u.status) + " " + u.err; });
  if (timings) {
    r.check(u.out.rfind(want, 0) == 0 && u.out.find("Finished in") == u.out.find_first_not_of("\x1b[0123456789m", want.size()), "environment", [&] { return firstDifference(want, u.out); });
  } else { r.check(u.out == want, "environment", [&] { return firstDifference(want, u.out); }); }
  r.state(u.out.substr(0, want.size()));
}

static mc::Register a1({ "P18", "memory", "a case is a document and a layout and content of the memory", memory, setup, 3000, 60 });
static mc::Register a2({ "P18", "logging", "a case is a document and log settings, running-time reports or a random seed", logging, setup, 3000, 60 });
static mc::Register a3({ "P18", "histories", "a case is a sequence of documents with their settings, the last one is compared with its output alone", histories, setup, 3000, 60 });
static mc::Register a6({ "P18", "twins", "a case is a sequence of documents that differ in one respect, a reuse of paths and objects, and the models", twins, setup, 3000, 60 });
static mc::Register a5({ "P18", "skips", "a case is a document, a set of modules to skip and a layout and content of the memory", skips, setup, 3000, 60 });
static mc::Register a4({ "P18", "environments", "a case is a document, an environment, a working directory and a name of the file", environments, setup, 3000, 60 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
