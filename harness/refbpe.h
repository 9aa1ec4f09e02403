// Reference for the byte pair encoding, written from its documentation.
#ifndef VERIF_HARNESS_REFBPE_H_
#define VERIF_HARNESS_REFBPE_H_
#include <string>
#include <unordered_map>
#include <vector>

namespace refbpe {
using W = std::wstring;
static const W PAD = L"\u229b", UNK = L"\u233e", DEL = L"\u2702";

inline std::vector<int> reference(const std::unordered_map<W, int>& vocab, const W& text, size_t target,
    const std::vector<int>& given) {
  std::vector<int> res = given;
  std::vector<W> words;
  W cur;
  for (wchar_t ch : text + L" ") {
    if (W(L" \t\r\n\f\v").find(ch) != W::npos) { if (!cur.empty()) { words.push_back(cur); } cur.clear(); } else { cur += ch; }
  }
  for (auto& w : words) {
    std::vector<W> t;
    for (wchar_t ch : w + DEL) { t.push_back(W(1, ch)); }
    while (true) {
      // The leftmost pair whose concatenation is a token.
      W merge;
      for (size_t i = 0; i + 1 < t.size() && merge.empty(); i++) {
        if (vocab.count(t[i] + t[i + 1])) { merge = t[i] + t[i + 1]; }
      }
      if (merge.empty()) { break; }
      std::vector<W> n;
      for (size_t i = 0; i < t.size(); i++) {
        if (i + 1 < t.size() && t[i] + t[i + 1] == merge) { n.push_back(merge); i++; } else { n.push_back(t[i]); }
      }
      t = n;
    }
    for (auto& x : t) { res.push_back(vocab.count(x) ? vocab.at(x) : vocab.at(UNK)); }
  }
  if (target > 0) { res.resize(target, vocab.at(PAD)); }
  return res;
}
}  // namespace refbpe
#endif  // VERIF_HARNESS_REFBPE_H_
