// P23: the logger, all histories of setting changes and messages.
#include <regex>
#include "mc.h"
#include "utils/Log.h"
using namespace ppp::utils::log;

static void body(mc::Chooser& c, mc::Report& r) {
  static const LogLevel levels[] = { TRACE, DEBUG, INFO, WARN, ERROR };
  static const char* names[] = { "TRACE:", "DEBUG:", "INFO: ", "WARN: ", "ERROR:" };
  static const int filters[] = { -1, 0, 1, 2 };
  static const int pages[] = { -1, 0, 1, 2, 3 };
  // Two loggers, so that state leaking from one into the other is seen.
  int lev[2], fil[2];
  for (int i = 0; i < 2; i++) { lev[i] = c.choose(i ? 2 : 5); if (i) { lev[i] = lev[i] ? 4 : 1; } fil[i] = i ? 2 : c.choose(4); }
  struct Op { int kind, logger, arg, page; };
  std::vector<Op> ops;
  int depth = mc::tier(3, 4);
  for (int i = 0; i < depth; i++) {
    int v = c.choose(i == 0 ? 3 : 4);
    if (v == 0) { ops.push_back({ 0, i == 0 ? c.choose(2) : 0, c.choose(5), i == 0 ? c.choose(5) : 2 * c.choose(2) }); }
    if (v == 1) { ops.push_back({ 1, 0, c.choose(5), 0 }); }
    if (v == 2) { ops.push_back({ 2, 0, c.choose(4), 0 }); }
    if (v == 3) { break; }
  }
  if (!c.owns()) { return; }
  std::stringstream d;
  d << "logger0(level " << lev[0] << ", filter " << filters[fil[0]] << ") logger1(level " << lev[1]
    << ", filter " << filters[fil[1]] << ")";
  for (auto& o : ops) {
    if (o.kind == 0) { d << " message(logger " << o.logger << ", level " << o.arg << ", page " << pages[o.page] << ")"; }
    if (o.kind == 1) { d << " setLogLevel(" << o.arg << ")"; }
    if (o.kind == 2) { d << " setPageFilter(" << filters[o.arg] << ")"; }
  }
  r.desc(d.str());
  std::stringstream out;
  std::streambuf* old = std::cout.rdbuf(out.rdbuf());
  std::vector<std::string> expected;
  {
    Logger l0(levels[lev[0]], filters[fil[0]]), l1(levels[lev[1]], filters[fil[1]]);
    Logger* l[2] = { &l0, &l1 };
    int L[2] = { lev[0], lev[1] }, F[2] = { filters[fil[0]], filters[fil[1]] };
    int n = 0;
    for (auto& o : ops) {
      r.step();
      if (o.kind == 1) { l0.setLogLevel(levels[o.arg]); L[0] = o.arg; }
      if (o.kind == 2) { l0.setPageFilter(filters[o.arg]); F[0] = filters[o.arg]; }
      if (o.kind == 0) {
        int p = pages[o.page];
        Logger* x = l[o.logger];
        std::ostream& s = o.arg == 0 ? x->trace(p) : o.arg == 1 ? x->debug(p) : o.arg == 2 ? x->info(p) :
            o.arg == 3 ? x->warn(p) : x->error(p);
        std::string m = "message " + std::to_string(n++) + " 1.5 \xc3\xa4";
        s << "message " << n - 1 << " " << 1.5 << " \xc3\xa4" << std::endl;
        if (o.arg >= L[o.logger] && !(F[o.logger] > 0 && p > 0 && p != F[o.logger])) {
          expected.push_back(std::string(names[o.arg]) + m);
        }
      }
    }
  }
  std::cout.rdbuf(old);
  std::vector<std::string> got;
  std::string line;
  static const std::regex rx("^\\d{4}-\\d\\d-\\d\\d \\d\\d:\\d\\d:\\d\\d\\.\\d{3}\t- ((\x1b\\[[0-9;]*m)+)([A-Z]+: ?)\x1b\\[0?m (.*)$");
  std::string st;
  while (std::getline(out, line)) {
    std::smatch m;
    if (!r.check(std::regex_match(line, m, rx), "format", [&] { return "malformed line: " + line; })) { continue; }
    got.push_back(m[3].str() + m[4].str());
    st += m[3].str();
  }
  r.state(st + "/" + std::to_string(ops.size()));
  auto join = [](const std::vector<std::string>& v) {
    std::string s;
    for (auto& x : v) { s += "[" + x + "]"; }
    return s;
  };
  r.eq(join(got), join(expected), "messages", "printed messages");
}
static mc::Register a({ "P23", "histories", "all histories of level and filter changes and messages of "
  "all levels and pages on two loggers", body, nullptr, 100000 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
