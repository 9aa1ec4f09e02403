// P16 (output goes to the requested file or the run fails visibly) and P17 (command line options):
// the command-line program (the path is in VERIF_CLI) is run in a scratch directory.
#include <poll.h>
#include <filesystem>
#include <regex>
#include "doc.h"
#include "gendoc.h"
#include "run.h"
#include "annots.h"
#include "poppler/Error.h"
namespace fs = std::filesystem;
using ppp::config::Config;

static std::string slurp(const fs::path& p) { std::ifstream f(p, std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static void spit(const fs::path& p, const std::string& s) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f << s; }

// ------------------------------------------------------------------------------------------------
// Running the program.
static const std::string& base() {  // the scratch directory of this worker
  static std::string b;
  if (b.empty()) { b = mc::scratchDir() + "/cli." + std::to_string(getpid()); }
  return b;
}
static void fresh() { std::error_code e; fs::remove_all(base(), e); fs::create_directories(base() + "/cwd"); }
static std::string cwd() { return base() + "/cwd"; }
// All files below the directory.
static std::map<std::string, std::string> snapshot() {
  std::map<std::string, std::string> m;
  for (auto& e : fs::recursive_directory_iterator(base())) {
    std::string n = e.path().string().substr(base().size() + 1);
    if (e.is_symlink()) { m[n] = "link " + fs::read_symlink(e.path()).string(); }
    else if (e.is_directory()) { m[n] = "dir"; }
    else { m[n] = "file " + slurp(e.path()); }
  }
  return m;
}
struct Run { int status = 0, signal = 0; std::string out, err; };
enum Stdout { PIPE, CLOSED, FULL, LIMITED };
static std::string roleLetters = "a";
// The parent reads both streams; a limit applies to regular files only.
static Run runCli(const std::vector<std::string>& args, Stdout so = PIPE, long limit = -1) {
  Run r;
  int o[2], e[2];
  if (pipe2(o, O_CLOEXEC) || pipe2(e, O_CLOEXEC)) { abort(); }
  std::string cli = getenv("VERIF_CLI"), model = "PPP_MODEL=" + roleLetters, home = "HOME=" + cwd(), limited = base() + "/stdout";
  std::vector<const char*> argv = { "pdftotext++" };
  for (auto& a : args) { argv.push_back(a.c_str()); }
  argv.push_back(nullptr);
  std::string dir = cwd();
  const char* envp[] = { "PATH=/usr/bin:/bin", model.c_str(), home.c_str(), nullptr };
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int n = open("/dev/null", O_RDONLY);
    dup2(n, 0);
    dup2(e[1], 2);
    if (so == PIPE) { dup2(o[1], 1); } else if (so == CLOSED) { close(1); } else {
      int f = so == FULL ? open("/dev/full", O_WRONLY) : open(limited.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(f, 1);
    }
    if (limit >= 0) {
      signal(SIGXFSZ, SIG_IGN);
      struct rlimit l = { static_cast<rlim_t>(limit), static_cast<rlim_t>(limit) };
      setrlimit(RLIMIT_FSIZE, &l);
    }
    if (chdir(dir.c_str())) { _exit(126); }
    execve(cli.c_str(), const_cast<char**>(argv.data()), const_cast<char**>(envp));
    _exit(127);
  }
  close(o[1]); close(e[1]);
  struct pollfd fds[2] = { { o[0], POLLIN, 0 }, { e[0], POLLIN, 0 } };
  int open_ = 2;
  char buf[65536];
  while (open_ > 0) {
    poll(fds, 2, -1);
    for (int i = 0; i < 2; i++) {
      if (fds[i].fd < 0 || !fds[i].revents) { continue; }
      ssize_t n = ::read(fds[i].fd, buf, sizeof buf);
      if (n <= 0) { close(fds[i].fd); fds[i].fd = -1; open_--; continue; }
      (i ? r.err : r.out).append(buf, n);
    }
  }
  int st = 0;
  waitpid(p, &st, 0);
  if (WIFEXITED(st)) { r.status = WEXITSTATUS(st); } else { r.signal = WTERMSIG(st); }
  if (so == LIMITED) { r.out = slurp(limited); fs::remove(limited); }
  return r;
}
static std::string shown(const std::vector<std::string>& a) { std::string s = "pdftotext++"; for (auto& x : a) { s += " [" + x + "]"; } return s; }
static void quiet() { setErrorCallback([](ErrorCategory, Goffset, const char*) {}); }

// ------------------------------------------------------------------------------------------------
// What the options ask for.
static const std::vector<std::string> MODULES = { "pdf-parsing", "glyphs-statistics-calculation", "diacritic-marks-merging", "words-detection", "words-statistics-calculation",
  "page-segmentation", "text-lines-detection", "sub-super-scripts-detection", "text-lines-statistics-calculation", "text-blocks-detection", "reading-order-detection",
  "semantic-roles-prediction", "words-dehyphenation" };
static const std::vector<std::string> SKIPS = { "embedded-font-files-parsing", "glyphs-statistics-calculation", "diacritic-marks-merging", "words-detection",
  "words-statistics-calculation", "page-segmentation", "text-lines-detection", "sub-super-scripts-detection", "text-lines-statistics-calculation", "text-blocks-detection",
  "reading-order-detection", "semantic-roles-prediction", "words-dehyphenation" };
static const std::vector<std::string> ROLE_NAMES = { "paragraph", "reference", "marginal", "footnote", "heading", "formula", "title", "author-info", "abstract", "date", "caption", "table", "other", "toc" };
static const std::vector<std::string> TYPE_NAMES = { "pages", "blocks", "lines", "words", "characters", "figures", "shapes" };
struct Settings {
  bool extended = false, noDehyphenation = false, timings = false, visPath = false;
  std::vector<int> roles;
  int level = 4, filter = -1;  // error, no filter
  int skip = 0, debug = 0, vis = 0;
  std::string key() const {
    std::string s;
    for (int v : { int(extended), int(noDehyphenation), int(timings), int(visPath), level, filter, skip, debug, vis }) { s += std::to_string(v) + ","; }
    for (int v : roles) { s += "r" + std::to_string(v); }
    return s;
  }
};
// An option on the command line, and what it changes.
struct Opt {
  std::string name, value;  // (no value: a flag)
  bool flag = true;
  std::function<void(Settings*)> apply;
};
static std::vector<Opt> allOptions() {
  std::vector<Opt> v;
  auto val = [&](const std::string& n, const std::string& x, std::function<void(Settings*)> f) { v.push_back({ n, x, false, f }); };
  auto flag = [&](const std::string& n, std::function<void(Settings*)> f) { v.push_back({ n, "", true, f }); };
  val("format", "txt", [](Settings* s) { s->extended = false; });
  val("format", "txt-extended", [](Settings* s) { s->extended = true; });
  flag("no-dehyphenation", [](Settings* s) { s->noDehyphenation = true; });
  flag("print-running-times", [](Settings* s) { s->timings = true; });
  for (int i = 0; i < 14; i++) { val("role", ROLE_NAMES[i], [i](Settings* s) { s->roles.push_back(i); }); }
  for (int i = 0; i < 7; i++) { val("type", TYPE_NAMES[i], [](Settings*) {}); }
  static const char* const L[] = { "trace", "debug", "info", "warn", "error" };
  for (int i = 0; i < 5; i++) { val("verbosity", L[i], [i](Settings* s) { s->level = i; }); }
  for (int i : { 1, 2, 3, -1 }) { val("log-page-filter", std::to_string(i), [i](Settings* s) { s->filter = i; }); }
  for (int i = 0; i < 13; i++) { flag("skip-" + SKIPS[i], [i](Settings* s) { s->skip |= 1 << i; }); }
  for (int i = 0; i < 13; i++) { flag("debug-" + MODULES[i], [i](Settings* s) { s->debug |= 1 << i; }); }
  for (int i = 0; i < annots::NUM_VIS; i++) { flag(std::string("visualize-") + annots::OPTIONS[i], [i](Settings* s) { s->vis |= 1 << i; }); }
  val("visualization-path", "vis.pdf", [](Settings* s) { s->visPath = true; });
  return v;
}
static const std::vector<Opt>& options() { static std::vector<Opt> v = allOptions(); return v; }

// The document: two pages with a title, hyphenated words, scripts, an accent, a figure and a line.
static const gen::Doc& document() {
  static gen::Doc g;
  if (g.desc.empty()) {
    g.add(11, 20, 180, 14); g.add(4, 20, 150); g.add(2, 20, 110); g.add(3, 48, 110); g.add(0, 20, 98); g.add(8, 150, 40); g.add(13, 105, 150); g.add(5, 120, 60);
    g.newPage();
    g.add(4, 20, 170); g.add(6, 60, 100, 14); g.add(12, 20, 60); g.add(1, 20, 30); g.add(0, 96, 50);
  }
  return g;
}
static const std::string& documentBytes() { static std::string b = document().pdf().build(); return b; }
// The roles of the blocks (block i gets the i-th letter, repeatedly).
static const std::vector<int> ROLE_ANSWER = { 6, 0, 4, 3, 10 };

// Without timestamps and random identifiers.
static std::string masked(const std::string& in) {
  static const std::regex time("\\d{4}-\\d\\d-\\d\\d \\d\\d:\\d\\d:\\d\\d\\.\\d+");
  std::string s, o;
  std::stringstream ss(in);
  std::string l;
  bool nl = !in.empty() && in.back() == '\n';
  while (std::getline(ss, l)) {
    if (l.size() > 23 && isdigit(static_cast<unsigned char>(l[0]))) { std::string h = l.substr(0, 24); l = std::regex_replace(h, time, "TIME") + l.substr(24); }
    s += l + "\n";
  }
  if (!nl && !s.empty()) { s.pop_back(); }
  for (size_t i = 0; i < s.size(); i++) {
    o += s[i];
    if (s[i] == '-' && i && islower(static_cast<unsigned char>(s[i - 1]))) {
      size_t e = i + 1;
      while (e < s.size() && isalnum(static_cast<unsigned char>(s[e]))) { e++; }
      if (e - i - 1 == 8) { o += "########"; i = e - 1; }
    }
  }
  return o;
}
static std::vector<std::string> linesOf(const std::string& s) { std::vector<std::string> v(1); for (char ch : s) { if (ch == '\n') { v.emplace_back(); } else { v.back() += ch; } } return v; }
static std::set<int> changes(const std::string& a, const std::string& b) {
  std::vector<std::string> x = linesOf(a), y = linesOf(b);
  std::set<int> n;
  for (size_t i = 0; i < x.size() && i < y.size(); i++) { if (x[i] != y[i]) { n.insert(i); } }
  return n;
}
// The first line that differs.
static std::string difference(const std::string& want, const std::string& got, const std::set<int>& changing) {
  std::vector<std::string> x = linesOf(want), y = linesOf(got);
  for (size_t i = 0; i < std::max(x.size(), y.size()); i++) {
    if (i < x.size() && i < y.size() && (x[i] == y[i] || changing.count(i))) { continue; }
    return "line " + std::to_string(i + 1) + ": expected <" + (i < x.size() ? x[i] : "(end)") + ">, got <" + (i < y.size() ? y[i] : "(end)") + ">";
  }
  return "";
}
struct Expected { std::string log, text; std::set<int> changing;  // (lines of the log that are different in each run)
   std::vector<std::string> steps; std::vector<std::vector<annots::Expected>> marks; };
static const Expected& reference(const Settings& s) {
  static std::map<std::string, Expected> cache;
  auto it = cache.find(s.key());
  if (it != cache.end()) { return it->second; }
  Expected& x = cache[s.key()];
  for (int round = 0; round < 2; round++) {
  Config c;
  c.semanticRolesPrediction.modelsDir = run::modelDir();
  using ppp::utils::log::LogLevel;
  static const LogLevel L[] = { ppp::utils::log::TRACE, ppp::utils::log::DEBUG, ppp::utils::log::INFO, ppp::utils::log::WARN, ppp::utils::log::ERROR };
  int i = 0;
  auto set = [&](auto& conf) {
    if constexpr (requires { conf.disabled; }) { conf.disabled = i > 0 && (s.skip >> i & 1); }
    conf.logLevel = s.debug >> i & 1 ? ppp::utils::log::DEBUG : L[s.level];
    conf.logPageFilter = s.filter;
    i++;
  };
  set(c.pdfParsing); set(c.glyphsStatisticsCalculation); set(c.diacriticalMarksMerging); set(c.wordsDetection); set(c.wordsStatisticsCalculation); set(c.pageSegmentation);
  set(c.textLinesDetection); set(c.subSuperScriptsDetection); set(c.textLinesStatisticsCalculation); set(c.textBlocksDetection); set(c.readingOrderDetection);
  set(c.semanticRolesPrediction); set(c.wordsDehyphenation);
  c.pdfParsing.skipEmbeddedFontFilesParsing = s.skip & 1;
  if (s.noDehyphenation) { c.wordsDehyphenation.disabled = true; }
  std::stringstream o;
  std::streambuf* old = std::cout.rdbuf(o.rdbuf());
  run::setModel(ROLE_ANSWER);
  PdfDocument doc(run::writePdf(documentBytes()));
  std::vector<ppp::types::Timing> ts;
  ppp::PdfToTextPlusPlus engine(&c);
  engine.process(&doc, &ts);
  std::cout.rdbuf(old);
  if (round == 0) { x.log = masked(o.str()); } else { x.changing = changes(x.log, masked(o.str())); continue; }
  std::unordered_set<SemanticRole> roles = run::allRoles();
  if (!s.roles.empty()) { roles.clear(); for (int r : s.roles) { roles.insert(SemanticRole(r)); } }
  x.text = s.extended ? run::serialize(ppp::serialization::PlainTextExtendedSerializer(), &doc, roles) : run::serialize(ppp::serialization::PlainTextSerializer(), &doc, roles);
  if (s.timings) {
    for (auto& t : ts) { x.steps.push_back(t.name); }
    x.steps.push_back("Serialize");
    if (s.visPath) { x.steps.push_back("Visualize"); }
  }
  if (s.visPath) {
    std::vector<int> what;
    for (int v = 0; v < annots::NUM_VIS; v++) { if (s.vis >> v & 1) { what.push_back(v); } }
    // (The texts may contain random identifiers; they are checked by P24.)
    for (auto* p : doc.pages) { x.marks.push_back(annots::expected(p, annots::Frame(), what)); for (auto& m : x.marks.back()) { m.text.clear(); } }
  }
  }
  return x;
}
// The report of running times: its steps, or an empty list if it is malformed.
static std::vector<std::string> stepsOf(const std::string& s) {
  std::vector<std::string> v;
  std::stringstream ss(std::regex_replace(s, std::regex("\x1b\\[[0-9;]*m"), ""));
  std::string l;
  std::smatch m;
  if (!std::getline(ss, l) || !std::regex_match(l, m, std::regex("Finished in ([0-9,.]+) ms\\."))) { return v; }
  auto num = [](std::string t) { t.erase(std::remove_if(t.begin(), t.end(), [](char c) { return !isdigit(static_cast<unsigned char>(c)); }), t.end()); return atol(t.c_str()); };
  long total = num(m[1]), sum = 0;
  while (std::getline(ss, l)) {
    if (!std::regex_match(l, m, std::regex(" \\* (.*): *([0-9,.]+) ms \\(.*%\\)"))) { return {}; }
    v.push_back(m[1]);
    sum += num(m[2]);
  }
  return sum == total ? v : std::vector<std::string>();
}
static std::string joined(const std::vector<std::string>& v) { std::string s; for (auto& x : v) { s += x + ", "; } return s; }

// Runs the program with the arguments and compares everything with the settings.
static void checkRun(mc::Report& r, const std::vector<std::string>& args, const Settings& s, const std::string& outFile) {
  r.desc(shown(args));
  fresh();
  spit(cwd() + "/in.pdf", documentBytes());
  auto before = snapshot();
  roleLetters.clear();
  for (int v : ROLE_ANSWER) { roleLetters += static_cast<char>('a' + v); }
  Run u = runCli(args);
  r.step();
  const Expected& x = reference(s);
  if (!r.check(u.status == 0 && u.signal == 0, "status", [&] { return "ended with status " + std::to_string(u.status) + " signal " + std::to_string(u.signal) + ": " + u.err; })) { return; }
  r.eq(u.err, std::string(), "stderr", "standard error");
  auto after = snapshot();
  // Nothing but the requested files.
  std::map<std::string, std::string> want = before;
  if (!outFile.empty()) { want["cwd/" + outFile] = "file " + x.text; }
  if (s.visPath) { want["cwd/vis.pdf"] = after["cwd/vis.pdf"]; r.check(after["cwd/vis.pdf"].substr(0, 9) == "file %PDF", "visualization", "no visualization was written"); }
  for (auto& e : after) { if (!want.count(e.first)) { r.fail("extra-file", "the file " + e.first + " was not requested"); } }
  for (auto& e : want) { r.eq(after[e.first], e.second, "file", "the file " + e.first); }
  std::string out = masked(u.out), head = x.log + (outFile.empty() ? masked(x.text) : "");
  if (!s.timings) { std::string d = difference(head, out, x.changing); r.check(d.empty(), "stdout", "standard output, " + d); } else {
    std::string d = difference(head, out.substr(0, head.size()), x.changing);  // (random identifiers have fixed lengths)
    r.check(d.empty(), "stdout", "standard output before the running times, " + d);
    r.eq(joined(stepsOf(out.size() > head.size() ? out.substr(head.size()) : "")), joined(x.steps), "running-times", "steps of the running times");
  }
  if (s.visPath) {
    annots::File f = annots::read(cwd() + "/vis.pdf");
    if (r.check(f.ok && f.pages.size() == x.marks.size(), "visualization", "the visualization is not a PDF with the pages of the input")) {
      for (size_t p = 0; p < f.pages.size(); p++) {
        std::string bad = annots::compare(x.marks[p], f.pages[p].marks);
        r.check(bad.empty(), "marks", [&] { return "marks of page " + std::to_string(p + 1) + ": " + bad; });
      }
    }
  }
  r.state(head + joined(x.steps) + x.text);
}
// The command line: options before, between and after the positional arguments.
struct Placed { const Opt* o; int place; bool equals; };
static std::vector<std::string> commandLine(const std::vector<Placed>& os, const std::string& outFile, bool dash) {
  std::vector<std::string> a;
  auto put = [&](int place) {
    for (auto& p : os) {
      if (p.place != place) { continue; }
      if (p.o->flag) { a.push_back("--" + p.o->name); }
      else if (p.equals) { a.push_back("--" + p.o->name + "=" + p.o->value); }
      else { a.push_back("--" + p.o->name); a.push_back(p.o->value); }
    }
  };
  put(0);
  a.push_back("in.pdf");
  put(1);
  if (!outFile.empty()) { a.push_back(outFile); } else if (dash) { a.push_back("-"); }
  put(2);
  return a;
}
static Settings settingsOf(const std::vector<Placed>& os) {
  Settings s;
  for (int place = 0; place < 3; place++) { for (auto& p : os) { if (p.place == place) { p.o->apply(&s); } } }
  return s;
}
static bool conflicting(const std::vector<Placed>& os) {  // an option that may be given once only is repeated
  for (size_t i = 0; i < os.size(); i++) { for (size_t j = 0; j < i; j++) { if (os[i].o->name == os[j].o->name && os[i].o->name != "role" && os[i].o->name != "type") { return true; } } }
  return false;
}
static const Opt* option(const std::string& n, const std::string& v = "") { for (auto& o : options()) { if (o.name == n && o.value == v) { return &o; } } abort(); }

static void single(mc::Chooser& c, mc::Report& r) {
  const Opt* o = &c.of(options());
  int place = c.choose(3), target = c.choose(3);
  bool equals = o->flag ? false : c.flag();
  std::vector<Placed> os = { { o, place, equals } };
  // (to be seen at all)
  if (o->name.rfind("visualize-", 0) == 0 && c.flag()) { os.push_back({ option("visualization-path", "vis.pdf"), c.choose(3), false }); }
  if (o->name == "log-page-filter") { os.push_back({ option("verbosity", "debug"), c.choose(3), false }); }
  if (o->name.rfind("skip-", 0) == 0 && c.flag()) { os.push_back({ option("print-running-times"), c.choose(3), false }); }
  if (!c.owns()) { return; }
  std::string out = target == 1 ? "out.txt" : "";
  checkRun(r, commandLine(os, out, target == 2), settingsOf(os), out);
}
// Two options in all orders and places.
static void pairs(mc::Chooser& c, mc::Report& r) {
  static const std::vector<const Opt*> A = { option("format", "txt-extended"), option("no-dehyphenation"), option("print-running-times"), option("role", "title"), option("role", "paragraph"),
    option("role", "table"), option("type", "words"), option("verbosity", "debug"), option("verbosity", "warn"), option("log-page-filter", "2"), option("skip-words-dehyphenation"),
    option("skip-semantic-roles-prediction"), option("skip-reading-order-detection"), option("skip-diacritic-marks-merging"), option("debug-words-detection"), option("debug-text-blocks-detection"),
    option("debug-page-segmentation"), option("visualization-path", "vis.pdf"), option("visualize-words"), option("visualize-text-blocks"), option("visualize-segments"), option("skip-text-blocks-detection"),
    option("skip-page-segmentation"), option("format", "txt") };
  int n = mc::thorough() ? c.range(2, 3) : 2;
  std::vector<Placed> os;
  for (int i = 0; i < n; i++) { const Opt* o = c.of(A); os.push_back({ o, c.choose(3), i == 0 && !o->flag }); }
  bool file = n == 2 ? c.flag() : false;
  if (!c.owns()) { return; }
  if (conflicting(os)) { return; }
  std::string out = file ? "out.txt" : "";
  checkRun(r, commandLine(os, out, false), settingsOf(os), out);
}
// Lists of roles and types.
static void lists(mc::Chooser& c, mc::Report& r) {
  int n = c.range(1, mc::tier(2, 3));
  std::vector<Placed> os;
  for (int i = 0; i < n; i++) {
    const Opt* o = n == 3 ? option("role", ROLE_NAMES[c.of(ROLE_ANSWER)]) : option("role", c.of(ROLE_NAMES));
    os.push_back({ o, c.choose(n == 3 ? 1 : 2) * 2, false });
  }
  if (c.flag()) { os.push_back({ option("format", "txt-extended"), 1, true }); }
  if (!c.owns()) { return; }
  checkRun(r, commandLine(os, "", false), settingsOf(os), "");
}
// The document's text as the options document it, written down by hand: the words of a small file.
static void effects(mc::Chooser& c, mc::Report& r) {
  bool extended = c.flag(), noDehyphenation = c.flag();
  int roles = c.choose(1 << 3), skipRoles = c.flag();
  bool file = c.flag();
  if (!c.owns()) { return; }
  // Blocks: a title, a paragraph with a hyphenated word, and on the second page a footnote.
  pdfgen::Pdf p;
  p.pages = { pdfgen::text(20, 180, "the title", 14, "F2") + pdfgen::text(20, 140, "some hyphe-") + pdfgen::text(20, 128, "nated words"), pdfgen::text(20, 30, "a note") };
  fresh();
  spit(cwd() + "/in.pdf", p.build());
  roleLetters = "gad";
  std::vector<std::string> a = { "in.pdf" };
  if (extended) { a.insert(a.begin(), "--format=txt-extended"); }
  if (noDehyphenation) { a.push_back("--no-dehyphenation"); }
  static const char* const N[] = { "title", "paragraph", "footnote" };
  for (int i = 0; i < 3; i++) { if (roles >> i & 1) { a.push_back("--role"); a.push_back(N[i]); } }
  if (skipRoles) { a.push_back("--skip-semantic-roles-prediction"); }
  if (file) { a.push_back("--"); a.push_back("-out.txt"); }
  r.desc(shown(a));
  Run u = runCli(a);
  r.step();
  if (!r.check(u.status == 0 && u.signal == 0 && u.err.empty(), "status", "status " + std::to_string(u.status) + " " + u.err)) { return; }
  std::vector<std::string> texts = { "the title", noDehyphenation ? "some hyphe- nated words" : "some hyphenated words", "a note" }, want;
  static const char* const U[] = { "[TITLE] ", "[PARAGRAPH] ", "[FOOTNOTE] " };
  for (int i = 0; i < 3; i++) { if (!skipRoles && (roles == 0 || (roles >> i & 1))) { want.push_back((extended ? U[i] : "") + texts[i]); } }
  std::string got = file ? slurp(cwd() + "/-out.txt") : u.out;
  if (file) { r.eq(u.out, std::string(), "stdout", "standard output"); }
  if (skipRoles) { r.state("skipped" + got); return; }  // (the role is then an unspecified default)
  // (control characters aside: they belong to the format)
  std::string flat, wantFlat;
  for (char ch : got) { if (ch != '\x01' && ch != '\f') { flat += ch == '\n' ? ' ' : ch; } }
  for (auto& w : want) { wantFlat += w + " "; }
  auto squeeze = [](const std::string& s) { std::string o; for (char ch : s) { if (ch != ' ' || (!o.empty() && o.back() != ' ')) { o += ch; } } while (!o.empty() && o.back() == ' ') { o.pop_back(); } return o; };
  r.eq(squeeze(flat), squeeze(wantFlat), "text", "text of the blocks");
  r.state(got);
}
// Documented effects that are not there (known findings).
static void undone(mc::Chooser& c, mc::Report& r) {
  int what = c.choose(3), place = c.choose(2);
  if (!c.owns()) { return; }
  pdfgen::Pdf p;
  p.pages = { pdfgen::text(20, 140, "a note") + pdfgen::text(50, 145, "7", 6) + pdfgen::text(60, 140, "and words of text"), pdfgen::text(20, 100, "on page") };
  fresh();
  spit(cwd() + "/in.pdf", p.build());
  roleLetters = "ag";
  static const std::vector<std::vector<std::string>> O = { { "--no-scripts" }, { "--control-characters" }, { "--semantic-roles" }};
  std::vector<std::string> a = O[what];
  a.insert(place ? a.begin() : a.end(), "in.pdf");
  r.desc(shown(a));
  Run u = runCli(a);
  r.step();
  if (!r.check(u.status == 0 && u.signal == 0, "status", "status " + std::to_string(u.status) + " " + u.err)) { return; }
  r.check(u.out.find("words of text") != std::string::npos && u.out.find("on page") != std::string::npos, "text", "the text is missing");
  if (what == 0) { r.check(u.out.find('7') == std::string::npos, "known:no-scripts", "--no-scripts has no effect"); }
  if (what == 1) { r.check(u.out.find('\f') != std::string::npos, "known:control-characters", "--control-characters has no effect"); }
  if (what == 2) { r.check(u.out.find("TITLE") != std::string::npos || u.out.find("title") != std::string::npos, "known:semantic-roles", "--semantic-roles has no effect"); }
  r.state(u.out);
}
// Mistakes: exit with a failure, a message, no output.
static void mistakes(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::vector<std::string>> M = {
    { "--unknown" }, { "--output-words" }, { "-x" }, { "--format", "xml" }, { "--format", "TXT" }, { "--format", "jsonl" }, { "--format", "" }, { "--format=" }, { "--format", "txt-" }, { "--format", "tx" },
    { "--role", "chapter" }, { "--role", "Title" }, { "--role", "0" }, { "--role=" }, { "--role", "title", "--role", "chapter" }, { "--role", "titl" }, { "--role", "title,table" },
    { "--type", "glyphs" }, { "--type", "Words" }, { "--type", "word" }, { "--type=" },
    { "--log-page-filter", "one" }, { "--log-page-filter", "1.5" }, { "--log-page-filter", "" }, { "--log-page-filter", "99999999999999" }, { "--log-page-filter", "1x" },
    { "--verbosity", "foo" }, { "--verbosity=" }, { "--verbosity", "Debug" }, { "--verbosity", "warning" }, { "--verbosity", "1" },
    { "--no-dehyphenation=1" }, { "--print-running-times=yes" }, { "--skip-words-detection=0" }, { "--format", "txt", "--format", "txt-extended" }, { "--verbosity", "debug", "--verbosity", "debug" },
    { "--log-page-filter", "1", "--log-page-filter", "2" }, { "--visualization-path", "vis.pdf", "--visualization-path", "other.pdf" },
    { "--format" }, { "--role" }, { "--type" }, { "--verbosity" }, { "--log-page-filter" }, { "--visualization-path" },  // (arguments are missing at the end)
  };
  int m = c.choose(M.size() + 4);
  int place = m >= static_cast<int>(M.size()) ? 0 : M[m].size() == 1 && M[m][0].find('=') == std::string::npos && m >= static_cast<int>(M.size()) - 6 ? 2 : c.choose(3);
  bool file = c.flag(), exists = c.flag();
  const Opt* with = c.choose(3) == 0 ? nullptr : c.flag() ? option("format", "txt-extended") : option("visualization-path", "vis.pdf");
  bool withLast = with ? c.flag() : false;
  if (!c.owns()) { return; }
  std::vector<std::string> a;
  auto put = [&](int at) { if (m < static_cast<int>(M.size()) && place == at) { a.insert(a.end(), M[m].begin(), M[m].end()); } };
  // (an option that is given twice is a mistake of its own)
  if (with && !withLast) { a.push_back("--" + with->name + "=" + with->value); }
  put(0);
  int k = m - static_cast<int>(M.size());
  if (k < 0) { a.push_back("in.pdf"); put(1); if (file) { a.push_back("out.txt"); } }
  if (k == 0) { a.push_back("in.pdf"); a.push_back("out.txt"); a.push_back("third"); }  // too many
  if (k == 2) { a.push_back("in.pdf"); a.push_back("-"); a.push_back("out.txt"); }
  if (k == 3) { a.push_back("--"); a.push_back("in.pdf"); a.push_back("--format"); a.push_back("txt"); }  // (everything after "--" is positional)
  if (with && withLast && place != 2) { a.push_back("--" + with->name); a.push_back(with->value); }
  put(2);
  r.desc(shown(a));
  fresh();
  spit(cwd() + "/in.pdf", documentBytes());
  if (exists) { spit(cwd() + "/out.txt", "old"); }
  roleLetters = "a";
  auto before = snapshot();
  Run u = runCli(a);
  r.step();
  r.check(u.signal == 0 && u.status != 0, "accepted", [&] { return "status " + std::to_string(u.status) + " signal " + std::to_string(u.signal); });
  r.check(!u.err.empty(), "message", "there is no message");
  r.eq(u.out, std::string(), "stdout", "standard output");
  r.check(snapshot() == before, "files", "files were changed");
  r.state(u.err);
}
// Help and version, with and without an input file and other options.
static void help(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> H = { "--help", "-h", "--full-help", "--version", "-v" };
  static const std::vector<std::vector<std::string>> W = { {}, { "in.pdf" }, { "in.pdf", "out.txt" }, { "missing.pdf" }, { "--format", "txt-extended" }, { "--verbosity=debug" }, { "--visualization-path", "vis.pdf", "in.pdf" },
    { "--role", "title", "--role", "table" }, { "--skip-words-detection" } };
  int h = c.choose(H.size()), w = c.choose(W.size()), at = c.choose(W[w].size() + 1);
  if (!c.owns()) { return; }
  std::vector<std::string> a = W[w];
  // (not between an option and its value)
  if (at && at <= static_cast<int>(a.size()) && a[at - 1][0] == '-' && a[at - 1].find('=') == std::string::npos && a[at - 1] != "--skip-words-detection") { at = a.size(); }
  a.insert(a.begin() + at, H[h]);
  r.desc(shown(a));
  fresh();
  spit(cwd() + "/in.pdf", documentBytes());
  auto before = snapshot();
  Run u = runCli(a);
  r.step();
  r.check(u.signal == 0 && u.status == 0, "status", [&] { return "status " + std::to_string(u.status) + " signal " + std::to_string(u.signal) + " " + u.err; });
  r.eq(u.err, std::string(), "stderr", "standard error");
  r.check(snapshot() == before, "files", "files were changed");
  std::set<std::string> names;  // all options that are listed at the beginning of a line
  std::stringstream ss(std::regex_replace(u.out, std::regex("\x1b\\[[0-9;]*m"), ""));
  std::string l;
  std::smatch m;
  while (std::getline(ss, l)) { if (std::regex_search(l, m, std::regex("^ *(-. \\[ )?--([a-z-]+)( \\])?( arg)?$"))) { names.insert(m[2]); } }
  std::set<std::string> publics = { "control-characters", "semantic-roles", "no-scripts", "help", "version", "format", "role", "type", "no-dehyphenation", "visualization-path", "verbosity" }, privates = { "pdf-file", "output-file", "full-help" };
  for (auto& o : options()) { if (o.name.rfind("visualize-", 0) == 0) { publics.insert(o.name); } else if (!publics.count(o.name)) { privates.insert(o.name); } }
  if (h < 3) {
    for (auto& n : publics) { r.check(names.count(n), "help", "the help does not list --" + n); }
    for (auto& n : privates) { r.check(names.count(n) == (h == 2), "help", (h == 2 ? "the full help does not list --" : "the help lists the non-public option --") + n); }
    for (auto* v : { &ROLE_NAMES, &TYPE_NAMES }) { for (auto& n : *v) { r.check(u.out.find(n) != std::string::npos, "help", "the help does not mention the value " + n); } }
  } else { r.check(u.out.find("0.0.0") != std::string::npos && names.empty(), "version", "the version is not printed: " + u.out); }
  r.state(u.out);
}

// ------------------------------------------------------------------------------------------------
// P16
static const std::string& smallBytes() { static std::string b; if (b.empty()) { pdfgen::Pdf p; p.pages = { pdfgen::text(20, 140, "some words") + pdfgen::text(20, 90, "more"), pdfgen::text(20, 100, "end") }; b = p.build(); } return b; }
static std::string textOf(bool extended) {
  static std::map<bool, std::string> m;
  if (!m.count(extended)) {
    run::setModel({ 0 });
    auto res = run::process(smallBytes());
    m[extended] = extended ? run::serialize(ppp::serialization::PlainTextExtendedSerializer(), res.doc.get()) : run::txt(res.doc.get());
  }
  return m[extended];
}
static const std::vector<std::string>& names() {
  static const std::vector<std::string> N = { "out.txt", "with blank", "quote's", "double\"quote", "$HOME", "$(touch a)", "`touch b`", "semi;touch c", "amp&touch d", "pipe|cat", "star*", "back\\slash", "tab\tname", "new\nline",
    "\xc3\xa4\xe2\x88\x91", "\xff\xfe", "-dash", "--format", "--", "%s%n", "#hash", "~", "..hidden", ".", "a", std::string(255, 'x'), "-", "in.pdf.txt", "{}", "<in", ">out" };
  return N;
}
// All names, below all kinds of parent directories, for the output and the visualization.
static void targets(mc::Chooser& c, mc::Report& r) {
  std::string name = c.of(names());
  int parent = c.choose(8), exists = c.choose(4);
  bool vis = c.flag(), extended = mc::thorough() ? c.flag() : false;
  std::string dir;
  bool makes = false;  // the parent directory is missing
  switch (parent) {
    case 0: break;
    case 1: dir = "sub/"; makes = true; break;
    case 2: dir = "sub/" + c.of(names()) + "/deep/"; makes = true; break;
    case 3: dir = "there/"; break;
    case 4: dir = "../"; break;
    case 5: dir = cwd() + "/"; break;
    case 6: dir = "there/../new/"; makes = true; break;
    default: dir = "./"; break;
  }
  if (!c.owns()) { return; }
  std::string path = dir + name;
  if (path == "-" && vis) { return; }
  if (name == "." || path == "--" || (parent == 2 && (dir == "sub/./deep/"))) { if (name != "." && parent != 2 && path != "--") { return; } }
  r.desc((vis ? "visualization at [" : "output to [") + path + "] exists " + std::to_string(exists));
  fresh();
  spit(cwd() + "/in.pdf", smallBytes());
  fs::create_directories(cwd() + "/there");
  fs::path full = fs::path(path).is_absolute() ? fs::path(path) : fs::path(cwd()) / path;
  bool fail = name == "." ;  // a directory
  bool real = path != "-";
  if (exists && real && !makes && name != ".") {
    if (exists == 1) { spit(full, std::string(100, 'o')); }
    if (exists == 2) { fs::create_directories(full); fail = true; }
    if (exists == 3) { spit(base() + "/linked", "old"); fs::create_symlink(base() + "/linked", full); }
  } else if (exists) { return; }
  if (vis && makes) { fail = true; }  // (only the directories of the output file are made)
  roleLetters = "a";
  std::vector<std::string> a;
  if (extended) { a.push_back("--format=txt-extended"); }
  if (vis) { a.push_back("--visualization-path=" + path); }
  a.push_back("--"); a.push_back("in.pdf");
  if (!vis) { a.push_back(path); }
  auto before = snapshot();
  Run u = runCli(a);
  r.step();
  auto after = snapshot();
  std::string text = textOf(extended);
  if (fail) {
    r.check(u.signal == 0 && u.status != 0, "no-failure", [&] { return "the file cannot be written, but the status is " + std::to_string(u.status) + " signal " + std::to_string(u.signal); });
    r.check(!u.err.empty(), "message", "there is no message");
    if (!vis) { r.eq(u.out, std::string(), "stdout", "standard output"); }
    for (auto& e : before) { r.check(after[e.first] == e.second, "changed", "the file " + e.first + " was changed"); }
    r.state("fails");
    return;
  }
  if (!r.check(u.signal == 0 && u.status == 0 && u.err.empty(), "status", [&] { return "status " + std::to_string(u.status) + " signal " + std::to_string(u.signal) + " " + u.err; })) { return; }
  r.eq(u.out, real && !vis ? std::string() : text, "stdout", "standard output");
  auto want = before;
  if (real) {
    fs::path q = exists == 3 ? fs::path(base()) / "linked" : full.lexically_normal();
    std::string rel = q.string().substr(base().size() + 1);
    std::string content = slurp(full);
    if (vis) { r.check(content.substr(0, 5) == "%PDF-", "visualization", "no PDF was written"); want[rel] = "file " + content; }
    else { r.eq(content, text, "content", "content of the file"); want[rel] = "file " + text; }
    if (makes) {
      // The missing directories.
      fs::path d = fs::path(cwd());
      for (auto& part : fs::path(dir)) { if (part.empty()) { continue; } d /= part; std::string n = d.lexically_normal().string(); while (n.back() == '/') { n.pop_back(); } if (n.size() > base().size()) { want[n.substr(base().size() + 1)] = "dir"; } }
    }
  }
  for (auto& e : after) { if (!want.count(e.first)) { r.fail("extra-file", "the file [" + e.first + "] was not requested"); } else { r.check(want[e.first] == e.second, "changed", "the file " + e.first + " was changed"); } }
  for (auto& e : want) { r.check(after.count(e.first), "missing-file", "the file [" + e.first + "] is missing"); }
  r.state(path);
}
// Writing fails after every possible number of bytes.
static void limits(mc::Chooser& c, mc::Report& r) {
  bool extended = c.flag();
  int doc = c.choose(3), target = c.choose(3);  // a new file, an existing file, the standard output
  static std::map<int, std::string> texts;
  static const int LENGTHS[] = { 0, 1, 300 };
  auto bytes = [&] {
    pdfgen::Pdf p;
    if (doc == 0) { return smallBytes(); }
    // Longer than the buffers of the streams: several thousand characters.
    std::string s;
    for (int l = 0; l < (doc == 1 ? 1 : 40); l++) { s += pdfgen::text(10, 190 - 4.5 * l, std::string(LENGTHS[doc], 'm') + (doc == 1 ? "" : "x"), 1); }
    p.pages = { s };
    return p.build();
  };
  int k = doc * 2 + extended;
  if (!texts.count(k)) {
    run::setModel({ 0 });
    auto res = run::process(bytes());
    texts[k] = extended ? run::serialize(ppp::serialization::PlainTextExtendedSerializer(), res.doc.get()) : run::txt(res.doc.get());
  }
  const std::string& text = texts[k];
  int n = text.size();
  int step = doc < 2 ? 1 : mc::tier(509, 61);
  int count = n / step + 3;
  int i = c.choose(count);
  long limit = i >= count - 3 ? n - 1 + (i - (count - 3)) : static_cast<long>(i) * step;  // ..., n-1, n, n+1
  if (!c.owns()) { return; }
  r.desc("writing fails after " + std::to_string(limit) + " of " + std::to_string(n) + " bytes, target " + std::to_string(target));
  fresh();
  spit(cwd() + "/in.pdf", bytes());
  if (target == 1) { spit(cwd() + "/out.txt", "old text"); }
  roleLetters = "a";
  std::vector<std::string> a = { "in.pdf" };
  if (extended) { a.push_back("--format=txt-extended"); }
  if (target < 2) { a.push_back("out.txt"); }
  Run u = runCli(a, target == 2 ? LIMITED : PIPE, limit);
  r.step();
  if (limit >= n) {
    r.check(u.status == 0 && u.signal == 0, "status", [&] { return "status " + std::to_string(u.status) + " signal " + std::to_string(u.signal) + " " + u.err; });
    r.eq(target < 2 ? slurp(cwd() + "/out.txt") : u.out, text, "content", "output");
  } else {
    r.check(u.signal == 0 && u.status != 0, "no-failure", [&] { return "the output is incomplete, but the status is " + std::to_string(u.status) + " signal " + std::to_string(u.signal); });
    r.check(!u.err.empty(), "message", "there is no message");
    if (target < 2) { r.eq(u.out, std::string(), "stdout", "standard output"); }
  }
  r.state(std::to_string(u.status) + u.err);
}
// Other obstacles.
static void obstacles(mc::Chooser& c, mc::Report& r) {
  int what = c.choose(14);
  bool extended = c.flag(), vis = c.flag();
  if (!c.owns()) { return; }
  fresh();
  spit(cwd() + "/in.pdf", smallBytes());
  spit(cwd() + "/file", "x");
  fs::create_directories(cwd() + "/dir");
  fs::create_symlink("loop", cwd() + "/loop");
  fs::create_symlink("nowhere/at/all", cwd() + "/dangling");
  fs::create_symlink("/dev/full", cwd() + "/full");
  std::vector<std::string> a;
  if (extended) { a.push_back("--format=txt-extended"); }
  std::string in = "in.pdf", out;
  Stdout so = PIPE;
  bool badInput = false;
  switch (what) {
    case 0: so = CLOSED; break;
    case 1: so = FULL; break;
    case 2: out = "file/out"; break;
    case 3: out = "dir"; break;
    case 4: out = "dir/"; break;
    case 5: out = "new/"; break;
    case 6: out = "loop"; break;
    case 7: out = "dangling"; break;
    case 8: out = "full"; break;
    case 9: out = std::string(256, 'y'); break;
    case 10: out = "file/sub/deep/out"; break;
    case 11: in = "missing.pdf"; out = "out.txt"; badInput = true; break;
    case 12: in = "dir"; badInput = true; break;
    default: in = "file"; out = "out.txt"; badInput = true; break;
  }
  if (vis && !out.empty()) { a.push_back("--visualization-path"); a.push_back("vis.pdf"); }
  a.push_back(in);
  if (!out.empty()) { a.push_back(out); }
  r.desc(shown(a) + (so == CLOSED ? " with a closed standard output" : so == FULL ? " with a full standard output" : ""));
  roleLetters = "a";
  auto before = snapshot();
  Run u = runCli(a, so);
  r.step();
  r.check(u.signal == 0 && u.status != 0, "no-failure", [&] { return "status " + std::to_string(u.status) + " signal " + std::to_string(u.signal) + " " + u.err; });
  r.check(!u.err.empty(), "message", "there is no message");
  r.eq(u.out, std::string(), "stdout", "standard output");
  auto after = snapshot();
  for (auto& e : before) { r.check(after[e.first] == e.second, "changed", "the file " + e.first + " was changed"); }
  if (badInput) { r.check(after == before, "extra-file", "there are files although the input could not be read"); }
  r.state(std::to_string(what) + u.err);
}
// Input files of all names; their contents stay as they are.
static void inputs(mc::Chooser& c, mc::Report& r) {
  std::string name = c.of(names());
  int dir = c.choose(3), content = c.choose(5), out = c.choose(2);
  if (!c.owns()) { return; }
  if (name == ".") { return; }
  std::string path = (dir == 1 ? "sub/" : dir == 2 ? cwd() + "/" : "") + name;
  if (path == "-") { return; }
  fresh();
  fs::create_directories(cwd() + "/sub");
  fs::path full = fs::path(path).is_absolute() ? fs::path(path) : fs::path(cwd()) / path;
  static const std::string GARBAGE = "this is not a PDF\n";
  bool good = content == 0;
  if (content == 0) { spit(full, smallBytes()); }
  if (content == 1) { spit(full, ""); }
  if (content == 2) { spit(full, GARBAGE); }
  if (content == 3) { spit(full, "%PDF-1.4\n%%EOF\n"); }
  // (content 4: no such file)
  std::vector<std::string> a = { "--", path };
  if (out) { a.push_back("the output"); }
  r.desc(shown(a) + " content " + std::to_string(content));
  roleLetters = "a";
  auto before = snapshot();
  Run u = runCli(a);
  r.step();
  auto after = snapshot();
  if (good) {
    r.check(u.signal == 0 && u.status == 0 && u.err.empty(), "status", [&] { return "status " + std::to_string(u.status) + " signal " + std::to_string(u.signal) + " " + u.err; });
    r.eq(out ? after["cwd/the output"] : "file " + u.out, "file " + textOf(false), "content", "output");
    if (out) { r.eq(u.out, std::string(), "stdout", "standard output"); before["cwd/the output"] = after["cwd/the output"]; }
  } else {
    r.check(u.signal == 0 && u.status != 0, "no-failure", [&] { return "status " + std::to_string(u.status) + " signal " + std::to_string(u.signal) + " " + u.err; });
    r.check(!u.err.empty(), "message", "there is no message");
    r.eq(u.out, std::string(), "stdout", "standard output");
  }
  r.check(after == before, "files", "files were changed or added");
  r.state(path + std::to_string(content));
}

// Files that are no (complete) PDFs: the program succeeds if and only if poppler is able to open the file.
static const std::string& minimalBytes() {
  static std::string b;
  if (b.empty()) { pdfgen::Pdf p; p.compact = true; p.pages = { pdfgen::text(20, 140, "some words") }; b = p.build(); }
  return b;
}
static void unreadable(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> ROOTS = { "[ 1 2 3 ]", "null", "(x)", "<< >>", "<< /Type /Catalog >>", "<< /Type /Catalog /Pages 1 0 R >>", "<< /Type /Catalog /Pages 99 0 R >>", "5", "<<", "<< /Type /Pages /Pages 2 0 R >>", "" };
  static const std::vector<std::string> TRAILERS = { "", "/Size 3", "/Root 99 0 R", "/Root null", "/Root 2 0 R", "/Root 1 0 R /Encrypt 1 0 R", "/Root 1 0 R /Encrypt 99 0 R",
    "/Root 1 0 R /Encrypt << >>", "/Root 1 0 R /Encrypt << /Filter /Unknown /V 1 >>", "/Root 1 0 R /Encrypt << /Filter /Standard /V 9 /R 9 >>",
    "/Root 1 0 R /ID [(0123456789abcdef) (0123456789abcdef)] /Encrypt << /Filter /Standard /V 1 /R 2 /P -44 /O (01234567890123456789012345678901) /U (abcdefghijklmnopqrstuvwxyzabcdef) >>",
    "/Root 1 0 R /ID [(0123456789abcdef) (0123456789abcdef)] /Encrypt << /Filter /Standard /V 2 /R 3 /Length 128 /P -44 /O (01234567890123456789012345678901) /U (abcdefghijklmnopqrstuvwxyzabcdef) >>" };
  int what = c.choose(4);
  const std::string& o = minimalBytes();
  std::string bytes, desc;
  if (what == 0) {
    size_t n = c.choose(o.size() / mc::tier(3, 1)) * mc::tier(3, 1);
    bytes = o.substr(0, n);
    desc = "the first " + std::to_string(n) + " bytes";
  } else if (what == 1) {
    auto& root = c.of(ROOTS);
    bytes = o;
    size_t a = bytes.find("1 0 obj\n") + 8, e = bytes.find("\nendobj", a);
    bytes.replace(a, e - a, root);
    desc = "the catalog " + root;
    if (c.flag()) { bytes.resize(bytes.find("xref")); bytes += "trailer << /Size 102 /Root 1 0 R >>\n%%EOF\n"; desc += " without cross references"; }
  } else if (what == 2) {
    auto& t = c.of(TRAILERS);
    bytes = o;
    size_t a = bytes.find("trailer << ") + 11, e = bytes.find(" >>", a);
    bytes.replace(a, e - a, "/Size 102 " + t);
    desc = "the trailer " + t;
    if (c.flag()) { size_t x = bytes.find("startxref"); bytes.erase(x, 20); desc += " without startxref"; }
  } else {
    static const std::vector<std::string> H = { "", "%PDF-9.9\n", "%!PS-Adobe\n", "%PDF-\n", "\n\n\n%PDF-1.4\n", std::string("\0\0\0", 3), std::string(1020, 'x') + "%PDF-1.4\n", std::string(3000, 'x') };
    bytes = c.of(H) + (c.flag() ? o.substr(9) : std::string());
    desc = "another header";
  }
  int out = c.choose(3);  // to the standard output, to a file, with a visualization
  if (!c.owns()) { return; }
  fresh();
  spit(cwd() + "/in.pdf", bytes);
  bool readable = false;
  { if (!globalParams) { globalParams = std::make_unique<GlobalParams>(); } PDFDoc d(std::make_unique<GooString>(cwd() + "/in.pdf")); readable = d.isOk(); }
  std::vector<std::string> a = { "in.pdf" };
  if (out) { a.push_back("out.txt"); }
  if (out == 2) { a.push_back("--visualization-path=vis.pdf"); }
  r.desc(desc + " | " + shown(a));
  roleLetters = "a";
  auto before = snapshot();
  Run u = runCli(a);
  r.step();
  auto after = snapshot();
  if (readable) {
    r.check(u.signal == 0 && u.status == 0, "failure", [&] { return "status " + std::to_string(u.status) + " signal " + std::to_string(u.signal) + " " + u.err; });
    run::setModel({ 0 });
    auto res = run::process(bytes);
    r.eq(out ? after["cwd/out.txt"] : "file " + u.out, "file " + run::txt(res.doc.get()), "content", "output");
    if (out) { r.eq(u.out, std::string(), "stdout", "standard output"); after.erase("cwd/out.txt"); }
    if (out == 2) { r.check(after["cwd/vis.pdf"].size() > 100, "vis", "there is no visualization"); after.erase("cwd/vis.pdf"); }
  } else {
    r.check(u.signal == 0 && u.status != 0, "no-failure", [&] { return "status " + std::to_string(u.status) + " signal " + std::to_string(u.signal) + " " + u.err; });
    r.check(!u.err.empty(), "message", "there is no message");
    r.eq(u.out, std::string(), "stdout", "standard output");
  }
  r.check(after == before, "files", "files were changed or added");
  r.state(std::to_string(readable) + u.out + u.err);
}

static mc::Register r1({ "P17", "single", "a case is an option (with each of its values), its spelling, its place and the target of the output", single, quiet, 2000 });
static mc::Register r2({ "P17", "pairs", "a case is a sequence of options at all places", pairs, quiet, 2000 });
static mc::Register r3({ "P17", "lists", "a case is a list of roles at all places", lists, quiet, 2000 });
static mc::Register r4({ "P17", "effects", "a case is a combination of the main options", effects, quiet, 2000 });
static mc::Register r5({ "P17", "undone", "a case is an option whose effect is documented, but not implemented", undone, quiet, 2000 });
static mc::Register r6({ "P17", "mistakes", "a case is a command line with one mistake", mistakes, quiet, 2000 });
static mc::Register r7({ "P17", "help", "a case is a command line that asks for help or the version", help, quiet, 2000 });
static mc::Register s1({ "P16", "targets", "a case is a name, a parent directory and what is there before", targets, quiet, 2000 });
static mc::Register s2({ "P16", "limits", "a case is a number of bytes after which writing fails", limits, quiet, 2000 });
static mc::Register s3({ "P16", "obstacles", "a case is an obstacle to reading or writing", obstacles, quiet, 2000 });
static mc::Register s4({ "P16", "inputs", "a case is a name and content of the input file", inputs, quiet, 2000 });
static mc::Register s5({ "P16", "unreadable", "a case is a damaged file and a target of the output", unreadable, quiet, 2000 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
