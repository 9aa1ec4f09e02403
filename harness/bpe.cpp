// P21: byte pair encoding, all vocabularies over a token set x texts x encoding histories.
#include <unordered_map>
#include "mc.h"
#include "refbpe.h"
#include "utils/BytePairEncoder.h"
using ppp::utils::BytePairEncoder;
using namespace refbpe;

static std::string show(const std::vector<int>& v) { return mc::vecStr(v); }

static void body(mc::Chooser& c, mc::Report& r) {
  static const std::vector<W> tokens = { L"a", L"ab", L"ba", L"aa", L"b\u2702", L"aba", L"\u2702", L"ab\u2702" };
  static const std::vector<W> others = { L"", L"ab", L"aa ab", L"ba", L"x", L"abab" };
  int mask = c.choose(1 << tokens.size());
  W text;
  int maxLen = mc::tier(3, 5);
  for (int i = 0; i < maxLen; i++) {
    int v = c.choose(5);
    if (v == 0) { break; }
    text += L" abx"[v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 0 : 3];
  }
  int other = c.choose(others.size());
  size_t target = std::vector<size_t>{ 0, 3, 6 }[c.choose(3)];
  if (!c.owns()) { return; }
  std::unordered_map<W, int> vocab;
  std::string d = "vocabulary";
  for (size_t i = 0; i < tokens.size(); i++) {
    if (mask >> i & 1) { vocab[tokens[i]] = 10 + static_cast<int>(i); d += " " + std::string(tokens[i].begin(), tokens[i].end()); }
  }
  d += " text '" + std::string(text.begin(), text.end()) + "' after '" + std::string(others[other].begin(), others[other].end()) +
      "' target " + std::to_string(target);
  r.desc(d);
  std::unordered_map<W, int> full = vocab, copy = vocab;
  int n = vocab.size();
  full[PAD] = n; full[UNK] = n + 1; full[DEL] = n + 2;
  BytePairEncoder enc(&copy);
  r.check(copy == vocab, "input", "the vocabulary of the caller was changed");
  std::vector<int> r0, r1, r2, r3 = { 77 };
  enc.encode(others[other], target, "", &r0);
  enc.encode(text, target, "", &r1);
  enc.encode(text, target, "", &r2);
  enc.encode(others[other], 0, "", &r3);
  r.step(4);
  r.eq(show(r0), show(reference(full, others[other], target, {})), "first", "encoding of the first text");
  r.eq(show(r1), show(reference(full, text, target, {})), "second", "encoding of the second text");
  r.eq(show(r2), show(r1), "again", "encoding the same text again");
  r.eq(show(r3), show(reference(full, others[other], 0, { 77 })), "append", "encoding appended to a list");
  r.state(show(r1));
}
// Long words, many words, all kinds of whitespace, other characters.
static void largeBody(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::vector<W>> vocabs = { { L"a", L"ab", L"abab", L"abababab", L"b\u2702", L"ba" }, { L"aa", L"aaaa", L"aaaaaaaa", L"a", L"b" }, { L"x" }, { L"\u00e4", L"\u00e4b", L"\U0001F600", L"b\u2702", L"a\u2702" },
    { L"ab", L"bc", L"abc", L"bca", L"c\u2702", L"ca", L"cab" } };
  static const std::vector<W> units = { L"ab", L"a", L"aab", L"\u00e4b", L"abc", L"ba", L"\U0001F600a", L"abcb", L"\u2702a" };
  static const std::vector<W> seps = { L"", L" ", L"\t", L"\n", L"  ", L" \r\n", L"\v\f" };
  int v = c.choose(vocabs.size()), u = c.choose(units.size()), n = c.of(std::vector<int>{ 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64, 100, 101, 300 }), s = c.choose(seps.size());
  size_t target = std::vector<size_t>{ 0, 1, 100, 1000 }[c.choose(4)];
  int vary = c.choose(3);
  if (!c.owns()) { return; }
  W text;
  for (int i = 0; i < n; i++) {
    if (i) { text += seps[s]; }
    for (int k = 0; k < (vary == 1 ? 1 + i % 4 : 1); k++) { text += units[u]; }
    if (vary == 2 && i % 3 == 2) { text += units[(u + 1) % units.size()]; }
  }
  std::unordered_map<W, int> vocab;
  for (size_t i = 0; i < vocabs[v].size(); i++) { vocab[vocabs[v][i]] = static_cast<int>(i) + 1000; }
  r.desc("vocabulary " + std::to_string(v) + ", unit " + std::to_string(u) + " x " + std::to_string(n) + ", separator " + std::to_string(s) + ", variant " + std::to_string(vary) + ", target " + std::to_string(target));
  std::unordered_map<W, int> full = vocab;
  int k = vocab.size();
  full[PAD] = k; full[UNK] = k + 1; full[DEL] = k + 2;
  BytePairEncoder enc(&vocab);
  auto exp = show(reference(full, text, target, {}));
  for (int i = 0; i < 2; i++) {
    std::vector<int> got;
    enc.encode(text, target, "", &got);
    r.eq(show(got), exp, i ? "again" : "long", "encoding of a long text");
  }
  r.step(2);
  r.state(exp);
}
static mc::Register B({ "P21", "large", "a case is a text of up to 300 words or a word of up to 1200 characters, with any kind of whitespace", largeBody, nullptr, 1000 });
static mc::Register A({ "P21", "histories", "all vocabularies over 8 tokens x all texts over {a, b, x, blank} "
  "up to length 3 (5) x texts encoded before x target lengths", body, nullptr, 1000000 });
int main(int argc, char** argv) { return mc::driver(argc, argv); }
