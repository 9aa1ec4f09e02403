// P26: counters, all histories of insertions and overwrites.
#include <limits>
#include <stdexcept>
#include "mc.h"
#include "utils/Counter.h"
using ppp::utils::counter::DoubleCounter;
using ppp::utils::counter::StringCounter;

// What a query returns, or that it throws.
template <typename F> static std::string q(F f) {
  try {
    std::stringstream s;
    s.precision(17);
    s << f();
    return s.str();
  } catch (const std::runtime_error&) { return "throws"; }
}

template <typename C, typename K>
static void histories(mc::Chooser& c, mc::Report& r, const std::vector<K>& keys) {
  int depth = mc::tier(4, 5);
  struct Op { int kind, key; };
  std::vector<Op> ops;
  for (int i = 0; i < depth; i++) {
    int v = c.choose(static_cast<int>(keys.size()) * 4 + 1);
    if (v == 0) { break; }
    ops.push_back({ (v - 1) % 4, (v - 1) / 4 });
  }
  if (!c.owns()) { return; }
  std::stringstream d;
  static const char* names[] = { "++", "=0", "=3", "=70000" };
  for (auto& o : ops) { d << "c[" << keys[o.key] << "]" << names[o.kind] << " "; }
  r.desc(d.str());
  C cnt;
  std::vector<std::pair<K, unsigned>> ref;
  auto check = [&]() {
    unsigned sum = 0, best = 0;
    for (auto& p : ref) { sum += p.second; best = std::max(best, p.second); }
    r.eq(cnt.sumCounts(), sum, "sumCounts", "sumCounts");
    r.eq(q([&] { return cnt.mostFreqCount(); }), best ? std::to_string(best) : std::string("throws"),
        "mostFreqCount", "mostFreqCount");
    bool ok = false;
    std::string got = q([&] { return cnt.mostFreq(); });
    std::string first = q([&] { return cnt.mostFreqAndCount().first; });
    for (auto& p : ref) {
      if (p.second == best && best && q([&] { return p.first; }) == got) { ok = true; }
    }
    r.check(best ? ok : got == "throws", "mostFreq", [&] { return "mostFreq is " + got; });
    r.eq(first, got, "mostFreqAndCount", "first of mostFreqAndCount");
    r.eq(q([&] { return cnt.mostFreqAndCount().second; }),
        best ? std::to_string(best) : std::string("throws"), "mostFreqAndCount2", "second of mostFreqAndCount");
    r.eq(q([&] { return cnt.mostFreq(); }), got, "stable", "a second query");
    if constexpr (std::is_same_v<K, double>) {
      bool any = false;
      double mx = 0;
      for (auto& p : ref) { if (p.second > 0 && (!any || p.first > mx)) { mx = p.first; any = true; } }
      r.eq(q([&] { return cnt.max(); }), any ? q([&] { return mx; }) : std::string("throws"), "max", "max");
    }
    r.state(got + "/" + std::to_string(sum));
  };
  check();
  for (auto& o : ops) {
    K k = keys[o.key];
    unsigned* p = nullptr;
    for (auto& e : ref) { if (e.first == k) { p = &e.second; } }
    if (!p) { ref.push_back({ k, 0 }); p = &ref.back().second; }
    if (o.kind == 0) { cnt[k]++; (*p)++; }
    if (o.kind == 1) { cnt[k] = 0; *p = 0; }
    if (o.kind == 2) { cnt[k] = 3; *p = 3; }
    if (o.kind == 3) { cnt[k] = 70000; *p = 70000; }
    r.step();
    check();
  }
}

static mc::Register a({ "P26", "double", "all histories of increments and overwrites over 5 values "
  "(negative, zero, positive)", [](mc::Chooser& c, mc::Report& r) {
    histories<DoubleCounter, double>(c, r, { 1.0, -2.5, 0.0, 12.3, -1000.0 }); },
  nullptr, 200000 });
static mc::Register b({ "P26", "string", "all histories of increments and overwrites over 4 strings "
  "(including the empty one)", [](mc::Chooser& c, mc::Report& r) {
    histories<StringCounter, std::string>(c, r, { "a", "", "b", "ab" }); }, nullptr, 200000 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
