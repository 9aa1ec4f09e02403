// P34: the fixed-capacity priority queue, all operation histories.
#include <functional>
#include <set>
#include "mc.h"
#include "utils/FixedCapacityPriorityQueue.h"

template <typename Cmp>
static void body(mc::Chooser& c, mc::Report& r, const char* order) {
  Cmp cmp;
  int cap = c.range(1, mc::tier(4, 5));
  int depth = mc::tier(7, 8);
  std::vector<int> ops;  // 0: pop, 1..4: push that value
  for (int i = 0; i < depth; i++) { ops.push_back(c.choose(5)); }
  if (!c.owns()) { return; }
  std::string d = std::string(order) + " capacity " + std::to_string(cap) + " ops";
  for (int o : ops) { d += o ? " push(" + std::to_string(o) + ")" : " pop"; }
  r.desc(d);
  FixedCapacityPriorityQueue<int, Cmp> q(cap);
  std::vector<int> ref;  // sorted, top last
  auto ins = [&](int v) { ref.push_back(v); std::stable_sort(ref.begin(), ref.end(), cmp); };
  for (int o : ops) {
    if (o == 0) {
      if (ref.empty()) { continue; }
      q.pop();
      ref.pop_back();
    } else {
      q.push(o);
      if (static_cast<int>(ref.size()) == cap) { ref.pop_back(); }
      ins(o);
    }
    r.step();
    r.eq(q.size(), ref.size(), "size", "number of elements");
    r.eq(q.empty(), ref.empty(), "empty", "empty()");
    r.check(static_cast<int>(q.size()) <= cap, "capacity", "more elements than the capacity");
    if (!ref.empty()) { r.eq(q.top(), ref.back(), "top", "top()"); }
    std::vector<int> s, t;
    q.sort(std::less<int>(), &s);
    r.check(std::is_sorted(s.begin(), s.end()), "sort", "sort() does not sort");
    t = ref;
    std::sort(t.begin(), t.end());
    r.check(s == t, "content", "sort() does not list the content");
    q.sort(std::greater<int>(), &s);
    std::reverse(t.begin(), t.end());
    r.check(s == t, "sort2", "sort() with another comparator");
  }
  std::string st;
  while (!ref.empty() && !q.empty()) {
    r.eq(q.top(), ref.back(), "drain", "top() while draining");
    st += std::to_string(q.top());
    q.pop();
    ref.pop_back();
  }
  r.check(q.empty() && ref.empty(), "drained", "the number of elements is wrong");
  r.state(st);
}
// Large capacities: pushed and popped up to and beyond the capacity.
static void large(mc::Chooser& c, mc::Report& r) {
  static const std::vector<int> CAPS = { 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537 };
  int cap = c.of(CAPS), more = c.range(-1, 2), order = c.choose(3), pops = c.choose(3);
  if (!c.owns()) { return; }
  r.desc("capacity " + std::to_string(cap) + ", " + std::to_string(cap + more) + " values in order " + std::to_string(order));
  FixedCapacityPriorityQueue<int, std::greater<int>> q(cap);
  std::multiset<int> ref;
  for (int i = 0; i < cap + more; i++) {
    int v = order == 0 ? i : order == 1 ? -i : i * 7919 % 1009;
    q.push(v);
    if (static_cast<int>(ref.size()) == cap) { ref.erase(ref.begin()); }
    ref.insert(v);
  }
  for (int i = 0; i < pops; i++) { q.pop(); ref.erase(ref.begin()); }
  r.eq(q.size(), ref.size(), "size", "number of elements");
  r.eq(q.top(), *ref.begin(), "top", "top()");
  std::vector<int> s;
  q.sort(std::less<int>(), &s);
  r.check(s == std::vector<int>(ref.begin(), ref.end()), "content", "sort() does not list the content");
  r.state(std::to_string(ref.size()) + "/" + std::to_string(*ref.begin()));
}
static mc::Register l({ "P34", "large", "capacities around the limits of small integer types, filled up to and beyond them", large, nullptr, 200000 });
static mc::Register a({ "P34", "less", "all push/pop histories over 4 values (least-first order)",
  [](mc::Chooser& c, mc::Report& r) { body<std::less<int>>(c, r, "less"); }, nullptr, 200000 });
static mc::Register b({ "P34", "greater", "all push/pop histories over 4 values (greatest-first order)",
  [](mc::Chooser& c, mc::Report& r) { body<std::greater<int>>(c, r, "greater"); }, nullptr, 200000 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
