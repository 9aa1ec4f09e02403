// P25: text helpers on all strings over a critical alphabet up to a length.
#include <cctype>
#include <set>
#include "mc.h"
#include "utils/TextUtils.h"
using namespace ppp::utils::text;

static std::string pick(mc::Chooser& c, const std::vector<std::string>& alpha, int maxLen) {
  std::string s;
  int n = 0;
  for (int i = 0; i < maxLen; i++) {
    int v = c.choose(alpha.size() + 1);
    if (v == 0) { break; }
    s += alpha[v - 1];
    n++;
  }
  // Short patterns are repeated also, up to lengths above 40 and 256.
  if (n >= 1 && n <= 4 && maxLen > 2) {
    static const int K[] = { 1, 6, 13, 20, 90 };
    int k = K[c.choose(5)];
    std::string one = s;
    for (int i = 1; i < k; i++) { s += one; }
    if (k > 1 && c.flag()) { s += alpha[n % alpha.size()]; }
  }
  return s;
}
static std::string vis(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch < 33 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; } else { o += ch; }
  }
  return "<" + o + ">";
}
// A string in a heap block of exactly its size, so that the address sanitizer sees reads outside.
struct Tight {
  std::string s;
  explicit Tight(const std::string& x) : s(x) { s.shrink_to_fit(); }
};

// A minimal JSON string parser; false if it is not the inside of a valid JSON string.
static bool unescape(const std::string& s, std::string* out) {
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char ch = s[i];
    if (ch < 0x20 || ch == '"') { return false; }
    if (ch != '\\') { *out += ch; continue; }
    if (++i >= s.size()) { return false; }
    static const std::map<char, char> m = { { '"', '"' }, { '\\', '\\' }, { '/', '/' }, { 'b', '\b' },
      { 'f', '\f' }, { 'n', '\n' }, { 'r', '\r' }, { 't', '\t' } };
    if (m.count(s[i])) { *out += m.at(s[i]); continue; }
    if (s[i] != 'u' || i + 4 >= s.size()) { return false; }
    int v = 0;
    for (int k = 1; k <= 4; k++) {
      if (!isxdigit(static_cast<unsigned char>(s[i + k]))) { return false; }
      v = v * 16 + (isdigit(s[i + k]) ? s[i + k] - '0' : (s[i + k] | 32) - 'a' + 10);
    }
    i += 4;
    if (v > 0x7f) { return false; }
    *out += static_cast<char>(v);
  }
  return true;
}

static void escape(mc::Chooser& c, mc::Report& r) {
  static std::vector<std::string> alpha;
  if (alpha.empty()) {
    for (int i = 0; i < 256; i++) { alpha.push_back(std::string(1, static_cast<char>(i))); }
  }
  // All byte strings of length <= 2, then all strings over a critical alphabet.
  std::string s;
  if (c.flag()) {
    s = pick(c, { "\"", "\\", "\n", std::string(1, '\0'), "\x1f", "a", "u", "0", "/", "\xc3\xa4", "\x7f", "\x0b" },
        mc::tier(5, 6));
  } else { s = pick(c, alpha, 2); }
  if (!c.owns()) { return; }
  r.desc("escapeJson(" + vis(s) + ")");
  Tight t(s);
  std::string e = escapeJson(t.s), back;
  bool ok = unescape(e, &back);
  r.check(ok, "invalid", [&] { return "not a valid JSON string: " + vis(e); });
  r.check(!ok || back == s, "roundtrip", [&] { return vis(e) + " is parsed as " + vis(back); });
  r.state(e);
}
// Strings with any bytes around the limits of what is whitespace.
static void stripBytes(mc::Chooser& c, mc::Report& r) {
  std::string s = pick(c, { " ", "a", std::string(1, '\0'), "\x08", "\x0e", "\x1f", "\x85", "\xa0", "\t", "\r" }, 4);
  if (!c.owns()) { return; }
  r.desc("string " + vis(s));
  Tight t(s);
  size_t b = 0, e = s.size();
  auto sp = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
  while (b < e && sp(s[b])) { b++; }
  while (e > b && sp(s[e - 1])) { e--; }
  r.check(strip(t.s) == s.substr(b, e - b), "strip", [&] { return "strip gives " + vis(strip(t.s)); });
  r.state(strip(t.s));
}
static void strips(mc::Chooser& c, mc::Report& r) {
  std::string s = pick(c, { " ", "a", "\n", "\t", "\xc3\xa4", "\v\f\r", "." }, mc::tier(7, 8));
  if (!c.owns()) { return; }
  r.desc("string " + vis(s));
  Tight t(s);
  size_t b = 0, e = s.size();
  auto sp = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
  while (b < e && sp(s[b])) { b++; }
  while (e > b && sp(s[e - 1])) { e--; }
  r.check(strip(t.s) == s.substr(b, e - b), "strip", [&] { return "strip gives " + vis(strip(t.s)); });
  // Wrapping a single line keeps the text: only blanks turn into newlines plus indent.
  for (unsigned width : { 4u, 7u, 30u, 100u }) {
    for (unsigned indent : { 0u, 2u }) {
      std::string w = wrap(t.s, width, indent), x;
      // No line is longer than the width (if no word is).
      size_t run = 0, longest = 0, line = 0, longestLine = 0;
      for (char ch : s) { run = ch == ' ' || ch == '\n' ? 0 : run + 1; longest = std::max(longest, run); }
      for (char ch : w) { line = ch == '\n' ? 0 : line + 1; longestLine = std::max(longestLine, line); }
      if (longest + indent <= width) { r.check(longestLine <= width, "wrapwidth", [&] { return "wrap(" + std::to_string(width) + "," + std::to_string(indent) + ") gives " + vis(w); }); }
      if (s.find('\n') != std::string::npos) {
        // With explicit line ends, the lines between them are not indented each; the content is kept all the same.
        std::string a, b;
        for (char ch : w) { a += ch == '\n' ? ' ' : ch; }
        for (char ch : s) { b += ch == '\n' ? ' ' : ch; }
        if (indent) { for (auto* z : { &a, &b }) { z->erase(std::remove(z->begin(), z->end(), ' '), z->end()); } }
        r.check(a == b, "wraplines", [&] { return "wrap(" + std::to_string(width) + "," + std::to_string(indent) + ") gives " + vis(w); });
        continue;
      }
      std::string ind(indent, ' ');
      std::stringstream ss(w);
      size_t p = 0;
      bool ok = true, first = true;
      while (p <= w.size()) {
        size_t q = w.find('\n', p);
        if (q == std::string::npos) { q = w.size(); }
        std::string line = w.substr(p, q - p);
        ok = ok && line.compare(0, indent, ind) == 0;
        x += (first ? "" : " ") + line.substr(std::min<size_t>(indent, line.size()));
        first = false;
        p = q + 1;
      }
      std::string y = s;
      for (auto& ch : y) { if (ch == '\n') { ch = ' '; } }
      r.check(ok, "wrapindent", [&] { return "a line is not indented: " + vis(w); });
      r.check(x == y, "wrap", [&] { return "wrap(" + std::to_string(width) + "," + std::to_string(indent) + ") gives " + vis(w); });
    }
  }
  for (unsigned n = 0; n <= s.size() + 1; n += s.size() > 60 && n > 50 && n + 5 < s.size() ? 7 : 1) {
    std::string want = s.size() <= n ? s : s.substr(0, n) + "...";
    r.check(shorten(t.s, n) == want, "shorten", [&] { return "shorten " + std::to_string(n) + " gives " + vis(shorten(t.s, n)); });
  }
  r.eq(shorten(t.s), s.size() <= 40 ? s : s.substr(0, 40) + "...", "shorten40");
  r.state(strip(t.s));
}
static void splits(mc::Chooser& c, mc::Report& r) {
  std::string s = pick(c, { " ", "a", "b", "\n", "-", "\f" }, mc::tier(7, 8));
  int d = c.choose(3);
  if (!c.owns()) { return; }
  static const char* delims[] = { " \t\r\n\f\v", "-", "a -" };
  r.desc("splitIntoWords(" + vis(s) + ") at " + vis(delims[d]));
  std::vector<std::string> want, got;
  std::string cur;
  for (char ch : s + delims[d][0]) {
    if (strchr(delims[d], ch)) { if (!cur.empty()) { want.push_back(cur); } cur.clear(); } else { cur += ch; }
  }
  Tight t(s);
  if (d == 0) { splitIntoWords(t.s, &got); } else { splitIntoWords(t.s, &got, delims[d]); }
  r.check(got == want, "split", [&] { std::string o; for (auto& w : got) { o += vis(w); } return "splits into " + o; });
  std::wstring ws(s.begin(), s.end());
  std::vector<std::wstring> wgot;
  if (d == 0) { splitIntoWords(ws, &wgot); } else { splitIntoWords(ws, &wgot, delims[d]); }
  bool eq = wgot.size() == want.size();
  for (size_t i = 0; eq && i < want.size(); i++) { eq = std::wstring(want[i].begin(), want[i].end()) == wgot[i]; }
  r.check(eq, "wsplit", "the wide-character variant differs");
  size_t before = got.size();
  splitIntoWords(t.s, &got);
  r.check(got.size() >= before, "append", "the result is not appended");
  std::string st = std::to_string(want.size());
  for (auto& w : want) { st += "|" + w; }
  r.state(st);
}
static void joins(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> parts = { "a", "bc", " ", "\xc3\xa4", "," };
  std::vector<std::string> v;
  int n = c.range(0, mc::tier(4, 5));
  for (int i = 0; i < n; i++) { v.push_back(c.of(parts)); }
  std::string sep = c.of(std::vector<std::string>{ ", ", "", "-" });
  if (!c.owns()) { return; }
  std::string want;
  for (int i = 0; i < n; i++) { want += (i ? sep : "") + v[i]; }
  r.desc("join to " + vis(want));
  r.eq(join(v, sep), want, "join", "join");
  if (sep == ", ") { r.eq(join(v), want, "joindefault", "join with the default separator"); }
  r.state(want);
}
static void predicates(mc::Chooser& c, mc::Report& r) {
  std::string s;
  int n = c.range(0, 2);
  for (int i = 0; i < n; i++) { s += static_cast<char>(i + 1 == n || i == 0 ? c.choose(256) : 'a'); }
  if (!c.owns()) { return; }
  r.desc("string " + vis(s));
  Tight t(s);
  bool end = !s.empty() && std::string("?!.);").find(s.back()) != std::string::npos;
  r.eq(endsWithSentenceDelimiter(t.s), end, "sentence", "endsWithSentenceDelimiter");
  bool end2 = !s.empty() && (s.back() == 'x' || s.back() == '.');
  r.eq(endsWithSentenceDelimiter(t.s, "x."), end2, "sentence2", "endsWithSentenceDelimiter with own delimiters");
  bool up = !s.empty() && s[0] >= 'A' && s[0] <= 'Z';
  r.eq(startsWithUpper(t.s), up, "upper", "startsWithUpper");
  r.state(std::to_string(end) + std::to_string(up));
}
static void randoms(mc::Chooser& c, mc::Report& r) {
  int len = c.range(0, 12), p = c.choose(3), a = c.choose(2);
  if (!c.owns()) { return; }
  std::string prefix = p == 0 ? "" : p == 1 ? "char-" : "\xc3\xa4";
  for (int k = 0; k < 200; k++) {
    std::string s = a ? createRandomString(len, prefix, "xyz") : createRandomString(len, prefix);
    r.check(s.size() == prefix.size() + len && s.compare(0, prefix.size(), prefix) == 0, "random", [&] { return vis(s); });
    for (size_t i = prefix.size(); i < s.size(); i++) {
      r.check(a ? strchr("xyz", s[i]) != nullptr : isalnum(static_cast<unsigned char>(s[i])) != 0, "alphabet", [&] { return vis(s); });
    }
  }
  r.state(std::to_string(len) + prefix);
}
static mc::Register A({ "P25", "escape", "all byte strings of length <= 2 and all strings over 12 critical "
  "characters up to length 5 (6)", escape, nullptr, 1000000 });
static mc::Register G({ "P25", "strip-bytes", "all strings over 10 symbols (blanks, controls, other bytes) up to length 4", stripBytes, nullptr, 100000 });
static mc::Register B({ "P25", "strip-wrap-shorten", "all strings over 7 symbols (blanks, controls, multi-byte) up to "
  "length 6 (7), all lengths", strips, nullptr, 1000000 });
static mc::Register C({ "P25", "split", "all strings over 6 symbols up to length 6 (7), three delimiter sets", splits, nullptr, 1000000 });
static mc::Register D({ "P25", "join", "all lists of up to 4 (5) non-empty parts, three separators", joins, nullptr, 1000000 });
static mc::Register E({ "P25", "predicates", "all byte strings of length <= 2", predicates, nullptr, 1000000 });
static mc::Register F({ "P25", "random", "all lengths 0..12, prefixes, two alphabets", randoms, nullptr, 1000000 });

int main(int argc, char** argv) { return mc::driver(argc, argv); }
