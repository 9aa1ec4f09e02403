// P11 (dehyphenation), P12, P13 (text formats), P14 (JSONL), P15 (filters): all small documents, given
// as pages of blocks of lines of words of glyphs, through the real dehyphenation and serializers,
// against references that write the text (or list the JSON values) from the same description.
#include "doc.h"
#include "PdfDocumentSerialization.h"
#include "WordsDehyphenation.h"
#include "utils/PdfElementsUtils.h"
using namespace syn;
using ppp::serialization::JsonlSerializer;
using ppp::serialization::PlainTextExtendedSerializer;
using ppp::serialization::PlainTextSerializer;
using ppp::serialization::Serializer;

// ------------------------------------------------------------------------------------------------
// The description of a document.
struct G { std::string text; int mark = 0; std::string composed; };  // mark 1: base of a mark, 2: a mark
struct Wd { std::vector<G> glyphs; std::string text; int part = 0; std::string merged; };  // part 1: first, 2: second part
typedef std::vector<Wd> Ln;
struct Bl { std::vector<Ln> lines; int role = 0; bool emph = false; };
typedef std::vector<std::vector<Bl>> Dc;

static Wd plain(const std::string& s) {
  Wd w;
  w.text = s;
  for (size_t i = 0; i < s.size();) {
    size_t k = i + 1;
    while (k < s.size() && (s[k] & 0xC0) == 0x80) { k++; }
    w.glyphs.push_back({ s.substr(i, k - i) });
    i = k;
  }
  return w;
}
static std::string show(const Dc& dc) {
  std::string s;
  for (auto& p : dc) {
    for (auto& b : p) {
      s += "role" + std::to_string(b.role) + (b.emph ? "^" : "") + "{";
      for (auto& l : b.lines) { for (auto& w : l) { s += "'" + w.text + "'" + (w.part == 1 ? ">" + w.merged : w.part ? "<" : "") + " "; } s += "/ "; }
      s += "} ";
    }
    s += "| ";
  }
  return s;
}

// The text of a document in the two text formats.
static std::string expect(const Dc& dc, bool ext, const std::set<int>& roles = {}) {
  std::string s;
  bool first = true;
  for (auto& p : dc) {
    for (auto& b : p) {
      if (!roles.empty() && !roles.count(b.role)) { continue; }
      if (!first) { s += "\n\n"; }
      first = false;
      if (ext) {
        std::string n = SEMANTIC_ROLE_NAMES[b.role];
        for (char& c : n) { if (c >= 'a' && c <= 'z') { c -= 32; } }
        s += "[" + n + "] ";
        if (b.emph) { s += '\x01'; }
      }
      std::string t;
      bool any = false;
      for (auto& l : b.lines) {
        for (auto& w : l) {
          if (w.part == 2) { continue; }
          if (any) { t += " "; }
          any = true;
          if (w.part == 1) { t += w.merged; continue; }
          for (auto& g : w.glyphs) { t += g.mark == 0 ? g.text : g.mark == 1 ? g.composed : ""; }
        }
      }
      s += t;
    }
    if (ext) { s += "\n\f"; }
  }
  return s + "\n";
}

// The document of /repo for a description. Values are chosen such that every element has its own.
struct Built {
  Doc doc;
  std::vector<PdfWord*> merged;
  std::vector<std::vector<PdfTextBlock*>> blocks;
  ~Built() {  // the elements are freed by the document where it owns them
  }
};
static void build(Built* u, const Dc& dc, bool flags = true, const std::string& fn = "f", double dx = 0) {
  static const double COL[4][3] = { { 0, 0, 0 }, { 1, 0.5, 0.25 }, { 0.2, 0.4, 1 }, { 0.75, 1, 0 } };
  int n = 0;
  u->doc.font(fn, 700, true);
  u->doc.font("g", 400, false)->isType3 = true;
  const PdfWord* m = nullptr;
  for (auto& p : dc) {
    PdfPage* pg = u->doc.page(612.5, 792);
    u->blocks.push_back({});
    for (auto& b : p) {
      auto* k = new PdfTextBlock();
      k->doc = u->doc.d.get(); k->id = "b" + std::to_string(++u->doc.nch); k->rank = pg->blocks.size();
      k->role = static_cast<SemanticRole>(b.role); k->isEmphasized = b.emph; k->fontName = fn; k->fontSize = 9.5 + n % 4;
      k->pos->pageNum = pg->pageNum; k->pos->leftX = 50.5 + dx; k->pos->upperY = 60.1 + n % 50; k->pos->rightX = 500.2 + dx; k->pos->lowerY = 700.9;
      PdfPageSegment* sg = pg->segments.empty() ? segment(&u->doc, pg, {}) : pg->segments[0];
      for (auto& l : b.lines) {
        auto* t = new PdfTextLine();
        t->doc = u->doc.d.get(); t->id = "l" + std::to_string(++u->doc.nch); t->pos->pageNum = pg->pageNum; t->block = k; t->segment = sg;
        for (auto& w : l) {
          n++;
          double x = dx + 100 + n % 200 + 0.1 * (n % 10), y = 100 + n % 300;
          auto* q = u->doc.word(pg, w.text, x, y, x + 20.5, y + 10, 8 + n % 5, n % 3 ? fn : "g");
          for (size_t i = 0; i < w.glyphs.size(); i++) {
            auto* c = u->doc.ch(pg, w.glyphs[i].text, x + i, y + 0.5, x + i + 1, y + 9, 8.5 + i % 3, (n + i) % 3 ? fn : "g", (n + i) % 4, i % 2);
            for (int j = 0; j < 3; j++) { c->color[j] = COL[(n + i) % 4][j]; }
            c->opacity = (n + i) % 2 ? 1 : 0.5;
            c->word = q;
            q->characters.push_back(c);
          }
          // A mark belongs to the base before it.
          for (size_t i = 0; i < w.glyphs.size(); i++) {
            if (w.glyphs[i].mark != 1) { continue; }
            q->characters[i]->textWithDiacriticMark = w.glyphs[i].composed;
            q->characters[i]->isBaseCharOfDiacriticMark = q->characters[i + 1];
            q->characters[i + 1]->isDiacriticMarkOfBaseChar = q->characters[i];
          }
          if (flags && w.part == 1) {
            auto* x2 = new PdfWord();
            x2->text = w.merged; x2->doc = u->doc.d.get();
            u->merged.push_back(x2);
            m = x2;
            q->isFirstPartOfHyphenatedWord = x2;
          }
          if (flags && w.part == 2) { q->isSecondPartOfHyphenatedWord = m ? m : q; }
          t->words.push_back(q);
          t->text += (t->text.empty() ? "" : " ") + w.text;
        }
        k->text += (k->text.empty() ? "" : " ") + t->text;
        k->lines.push_back(t);
        sg->lines.push_back(t);
      }
      pg->blocks.push_back(k);
      u->blocks.back().push_back(k);
    }
  }
}
static std::string out(const Serializer& s, const PdfDocument* d, const std::unordered_set<SemanticRole>& roles = {},
    const std::unordered_set<PdfElementType>& units = {}) {
  std::stringstream o;
  std::streambuf* old = std::cout.rdbuf(o.rdbuf());
  bool ok = s.serialize(d, roles, units, "-");
  std::cout.rdbuf(old);
  return ok ? o.str() : "(failed)";
}
static std::unordered_set<SemanticRole> roleSet(const std::set<int>& s) {
  std::unordered_set<SemanticRole> r;
  for (int i : s) { r.insert(static_cast<SemanticRole>(i)); }
  return r;
}
static std::string mask(const std::string& s) {
  std::string o;
  for (unsigned char c : s) { if (c == '\n') { o += "\\n"; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else { o += c; } }
  return o;
}

// ------------------------------------------------------------------------------------------------
// P11
// Joins the words by the rule: for each two non-empty lines that follow each other.
static void refJoin(Dc* dc) {
  std::vector<Ln*> ls;
  for (auto& p : *dc) { for (auto& b : p) { for (auto& l : b.lines) { if (!l.empty()) { ls.push_back(&l); } } } }
  Wd* head = nullptr;  // the word that carries the joined text
  for (size_t i = 0; i + 1 < ls.size(); i++) {
    Wd& a = ls[i]->back();
    Wd& b = ls[i + 1]->front();
    if (a.text.size() < 2 || a.text.back() != '-') { continue; }
    if (a.part == 2) { head->merged.pop_back(); }
    else { head = &a; a.part = 1; a.merged = a.text.substr(0, a.text.size() - 1); }
    head->merged += b.text;
    b.part = 2;
  }
}
static void checkJoin(mc::Report& r, const Dc& in) {
  r.desc(show(in));
  Dc dc = in;
  refJoin(&dc);
  Built u;
  build(&u, in, false);
  auto before = out(PlainTextSerializer(), u.doc.d.get());
  r.eq(mask(before), mask(expect(in, false)), "before", "text without dehyphenation");
  auto words = out(JsonlSerializer(1), u.doc.d.get(), {}, { PdfElementType::WORDS });
  ppp::config::WordsDehyphenationConfig conf;
  ppp::modules::WordsDehyphenation(u.doc.d.get(), &conf).process();
  r.step();
  auto got = out(PlainTextSerializer(), u.doc.d.get()), ext = out(PlainTextExtendedSerializer(), u.doc.d.get());
  r.eq(mask(got), mask(expect(dc, false)), "joined", "text after dehyphenation");
  r.eq(mask(ext), mask(expect(dc, true)), "joined-extended", "extended text after dehyphenation");
  r.eq(out(JsonlSerializer(1), u.doc.d.get(), {}, { PdfElementType::WORDS }), words, "words", "the words of the document were changed");
  // The links between the parts.
  for (size_t p = 0; p < dc.size(); p++) {
    for (size_t k = 0; k < dc[p].size(); k++) {
      for (size_t l = 0; l < dc[p][k].lines.size(); l++) {
        for (size_t i = 0; i < dc[p][k].lines[l].size(); i++) {
          PdfWord* q = u.blocks[p][k]->lines[l]->words[i];
          const Wd& w = dc[p][k].lines[l][i];
          r.check((q->isFirstPartOfHyphenatedWord != nullptr) == (w.part == 1) && (q->isSecondPartOfHyphenatedWord != nullptr) == (w.part == 2), "parts",
              [&] { return "word '" + w.text + "' has the wrong part flags"; });
        }
      }
    }
  }
  r.state(mask(expect(dc, false)));
}
// Same block, new block, new page, new page after a page without blocks, new block after a block without lines.
static void divide(Dc* dc, int brk) {
  if (brk == 2 || brk == 3) { dc->push_back({}); }
  if (brk == 3) { dc->push_back({}); }
  if (brk == 4) { dc->back().push_back({}); }
  if (brk) { dc->back().push_back({}); }
}
static void joinSmall(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> W = { "ab-", "cd", "-", "e-", "-f", "g--", "", "\xC3\xA4-", "h\xE2\x80\x90", "i-j", "--" };
  int n = c.range(0, 3);
  Dc dc(1);
  dc[0].push_back({});
  for (int i = 0; i < n; i++) {
    if (i) { divide(&dc, c.choose(n <= 2 ? 5 : mc::tier(3, 5))); }
    Ln l;
    int k = c.choose(3), alphabet = n <= 2 ? W.size() : mc::tier(5, 6);
    for (int j = 0; j < k; j++) { l.push_back(plain(c.of(std::vector<std::string>(W.begin(), W.begin() + alphabet)))); }
    dc.back().back().lines.push_back(l);
  }
  if (!c.owns()) { return; }
  checkJoin(r, dc);
}
static void joinLong(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> W = { "ab-", "cd", "-", "efg-", "hi-j" };
  int n = c.range(4, mc::tier(5, 6));
  Dc dc(1);
  dc[0].push_back({});
  for (int i = 0; i < n; i++) {
    if (i) { divide(&dc, n == 4 ? c.choose(mc::tier(4, 5)) : i == n / 2 ? 1 + c.choose(4) : 0); }
    Ln l;
    int k = c.choose(5);  // no word, one word, two words
    if (k) { l.push_back(plain(W[k <= 3 ? k - 1 : 1])); }
    if (k == 4) { l.push_back(plain(W[3])); }
    dc.back().back().lines.push_back(l);
  }
  if (!c.owns()) { return; }
  checkJoin(r, dc);
}
static mc::Register h1({ "P11", "small", "a case is a document of up to three lines of up to two words, in one or several blocks and pages", joinSmall, nullptr });
static mc::Register h2({ "P11", "chains", "a case is a document of four or more short lines, so that words are hyphenated repeatedly", joinLong, nullptr });

// ------------------------------------------------------------------------------------------------
// P12, P13
static std::vector<Wd> WORDS() {
  std::vector<Wd> v = { plain("ab"), plain(""), plain("x y"), plain("a\nb"), plain("\xC3\xA4\xE6\x97\xA5"), plain("-") };
  Wd w;  // "e" + acute, merged
  w.glyphs = { { "r" }, { "e", 1, "\xC3\xA9" }, { "\xC2\xB4", 2 }, { "s" } };
  w.text = "r\xC3\xA9s";
  v.insert(v.begin() + 1, w);
  Wd f = plain("ab-"); f.part = 1; f.merged = "abcd";
  Wd s = plain("cd"); s.part = 2;
  v.insert(v.begin() + 2, f); v.insert(v.begin() + 3, s);
  Wd e; e.part = 1; e.merged = ""; v.push_back(e);
  Wd d = w; d.part = 1; d.merged = "r\xC3\xA9st"; v.push_back(d);
  return v;
}
static Dc genText(mc::Chooser& c, bool roles) {
  static const std::vector<Wd> W = WORDS();
  Dc dc;
  int np = c.range(0, 3), total = 0;
  for (int p = 0; p < np; p++) {
    dc.push_back({});
    int nb = c.choose(np == 1 ? 4 : np == 2 ? 3 : 2);
    for (int b = 0; b < nb; b++) {
      Bl k;
      if (roles) { k.role = total == 0 ? c.choose(nb == 1 && np == 1 ? 14 : 3) : (total * 3) % 14; k.emph = c.flag(); }
      int nl = nb * np <= 2 ? c.choose(3) : c.choose(2);
      for (int l = 0; l < nl; l++) {
        Ln t;
        int nw = nb * np == 1 ? c.choose(nl <= 1 ? 4 : 3) : nb * np <= 2 && nl <= 1 ? c.choose(3) : c.choose(2);
        int a = nb * np == 1 ? (nl == 1 ? (nw == 3 ? mc::tier(8, 11) : 11) : mc::tier(5, 7)) : nb * np == 2 ? mc::tier(4, 6) : 4;
        for (int i = 0; i < nw; i++) { t.push_back(W[c.choose(a)]); }
        k.lines.push_back(t);
      }
      dc.back().push_back(k);
      total++;
    }
  }
  return dc;
}
static void text(mc::Chooser& c, mc::Report& r) {
  Dc dc = genText(c, false);
  if (!c.owns()) { return; }
  r.desc(show(dc));
  Built u;
  build(&u, dc);
  auto got = out(PlainTextSerializer(), u.doc.d.get());
  r.step();
  r.eq(mask(got), mask(expect(dc, false)), "text", "the plain text");
  r.state(got);
}
static void extended(mc::Chooser& c, mc::Report& r) {
  Dc dc = genText(c, true);
  if (!c.owns()) { return; }
  r.desc(show(dc));
  Built u;
  build(&u, dc);
  auto got = out(PlainTextExtendedSerializer(), u.doc.d.get());
  r.step();
  r.eq(mask(got), mask(expect(dc, true)), "text", "the extended text");
  r.state(got);
}
static mc::Register t1({ "P12", "documents", "a case is a document of up to three pages with blocks, lines, words (plain, accented, joined, empty)", text, nullptr });
static mc::Register t2({ "P13", "documents", "a case is a document of up to three pages with blocks of all roles, emphasis, lines and words", extended, nullptr });

// ------------------------------------------------------------------------------------------------
// P14: a strict JSON reader.
struct Js {
  const std::string& s;
  size_t i = 0;
  std::string err;
  std::map<std::string, std::string> v;  // key -> "s:..." / "n:..." / "b:..." / "a:..."
  explicit Js(const std::string& s) : s(s) {}
  bool fail(const std::string& e) { if (err.empty()) { err = e + " at " + std::to_string(i); } return false; }
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) { i++; } }
  bool str(std::string* o) {
    if (i >= s.size() || s[i] != '"') { return fail("string expected"); }
    for (i++; i < s.size() && s[i] != '"'; i++) {
      unsigned char c = s[i];
      if (c < 0x20) { return fail("control character in a string"); }
      if (c >= 0x80) {
        int n = c >= 0xF0 && c < 0xF5 ? 3 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xC2 && c < 0xE0 ? 1 : -1;
        if (n < 0 || i + n >= s.size()) { return fail("invalid UTF-8"); }
        *o += c;
        for (; n > 0; n--) { i++; if ((s[i] & 0xC0) != 0x80) { return fail("invalid UTF-8"); } *o += s[i]; }
        continue;
      }
      if (c != '\\') { *o += c; continue; }
      if (++i >= s.size()) { break; }
      static const std::string E = "\"\\/bfnrt", R = "\"\\/\b\f\n\r\t";
      size_t k = E.find(s[i]);
      if (k != std::string::npos) { *o += R[k]; continue; }
      if (s[i] != 'u' || i + 4 >= s.size()) { return fail("invalid escape"); }
      unsigned u = 0;
      for (int d = 0; d < 4; d++) { i++; if (!isxdigit(static_cast<unsigned char>(s[i]))) { return fail("invalid escape"); } u = u * 16 + (isdigit(s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10); }
      *o += utf8(u);
    }
    if (i >= s.size()) { return fail("end of string expected"); }
    i++;
    return true;
  }
  bool number(std::string* o) {
    size_t b = i;
    if (i < s.size() && s[i] == '-') { i++; }
    if (i >= s.size() || !isdigit(s[i])) { return fail("number expected"); }
    if (s[i] == '0') { i++; } else { while (i < s.size() && isdigit(s[i])) { i++; } }
    if (i < s.size() && s[i] == '.') { i++; if (i >= s.size() || !isdigit(s[i])) { return fail("digit expected"); } while (i < s.size() && isdigit(s[i])) { i++; } }
    if (i < s.size() && (s[i] | 32) == 'e') {
      i++;
      if (i < s.size() && (s[i] == '+' || s[i] == '-')) { i++; }
      if (i >= s.size() || !isdigit(s[i])) { return fail("digit expected"); }
      while (i < s.size() && isdigit(s[i])) { i++; }
    }
    *o = s.substr(b, i - b);
    return true;
  }
  bool object() {
    ws();
    if (i >= s.size() || s[i] != '{') { return fail("'{' expected"); }
    i++;
    for (bool first = true;; first = false) {
      ws();
      if (first && i < s.size() && s[i] == '}') { break; }
      std::string k, x, val;
      if (!str(&k)) { return false; }
      ws();
      if (i >= s.size() || s[i] != ':') { return fail("':' expected"); }
      i++; ws();
      if (i >= s.size()) { return fail("value expected"); }
      if (s[i] == '"') { if (!str(&x)) { return false; } val = "s:" + x; }
      else if (s.compare(i, 4, "true") == 0) { i += 4; val = "b:1"; }
      else if (s.compare(i, 5, "false") == 0) { i += 5; val = "b:0"; }
      else if (s[i] == '[') {
        val = "a:";
        do { i++; ws(); x.clear(); if (!number(&x)) { return false; } val += x + ";"; ws(); } while (i < s.size() && s[i] == ',');
        if (i >= s.size() || s[i] != ']') { return fail("']' expected"); }
        i++;
      } else { if (!number(&x)) { return false; } val = "n:" + x; }
      if (v.count(k)) { return fail("key '" + k + "' twice"); }
      v[k] = val;
      ws();
      if (i < s.size() && s[i] == ',') { i++; continue; }
      break;
    }
    if (i >= s.size() || s[i] != '}') { return fail("'}' expected"); }
    i++; ws();
    return i == s.size() || fail("trailing characters");
  }
};
// The expected values of an element, in the same notation (numbers are compared by value).
typedef std::map<std::string, std::string> Rec;
static std::string numS(double d) { char b[64]; snprintf(b, sizeof b, "n:%.10g", d); return b; }
static bool same(const std::string& a, const std::string& b) {
  if (a == b) { return true; }
  if (a.substr(0, 2) == "n:" && b.substr(0, 2) == "n:") { return std::fabs(atof(a.c_str() + 2) - atof(b.c_str() + 2)) < 1e-7 * std::max(1.0, std::fabs(atof(b.c_str() + 2))); }
  if (a.substr(0, 2) == "a:" && b.substr(0, 2) == "a:") {
    std::stringstream x(a.substr(2)), y(b.substr(2));
    std::string p, q;
    while (std::getline(x, p, ';')) { if (!std::getline(y, q, ';') || std::fabs(atof(p.c_str()) - atof(q.c_str())) > 1e-7) { return false; } }
    return !std::getline(y, q, ';');
  }
  return false;
}
static void boxRec(Rec* r, const PdfElement* e) {
  (*r)["id"] = "s:" + e->id; (*r)["rank"] = numS(e->rank); (*r)["page"] = numS(e->pos->pageNum);
  (*r)["minX"] = numS(e->pos->leftX); (*r)["minY"] = numS(e->pos->upperY); (*r)["maxX"] = numS(e->pos->rightX); (*r)["maxY"] = numS(e->pos->lowerY);
}
static std::vector<Rec> records(const PdfDocument* d, PdfElementType t, const std::set<int>& roles) {
  std::vector<Rec> v;
  for (auto* p : d->pages) {
    if (t == PdfElementType::PAGES) { v.push_back({ { "type", "s:page" }, { "num", numS(p->pageNum) }, { "width", numS(p->clipRightX - p->clipLeftX) }, { "height", numS(p->clipLowerY - p->clipUpperY) } }); }
    if (t == PdfElementType::FIGURES) { for (auto* f : p->figures) { Rec r; boxRec(&r, f); r["type"] = "s:figure"; v.push_back(r); } }
    if (t == PdfElementType::SHAPES) { for (auto* f : p->shapes) { Rec r; boxRec(&r, f); r["type"] = "s:shape"; v.push_back(r); } }
    for (auto* b : p->blocks) {
      if (!roles.empty() && !roles.count(static_cast<int>(b->role))) { continue; }
      auto text = [](Rec* r, const PdfTextElement* e) { boxRec(r, e); (*r)["font"] = "s:" + e->fontName; (*r)["fontSize"] = numS(e->fontSize); (*r)["text"] = "s:" + e->text; };
      if (t == PdfElementType::TEXT_BLOCKS) { Rec r; text(&r, b); r["type"] = "s:block"; r["role"] = "s:" + SEMANTIC_ROLE_NAMES[static_cast<int>(b->role)]; v.push_back(r); }
      for (auto* l : b->lines) {
        for (auto* w : l->words) {
          if (t == PdfElementType::WORDS) { Rec r; text(&r, w); r["type"] = "s:word"; r["block"] = "s:" + b->id; v.push_back(r); }
          if (t != PdfElementType::CHARACTERS) { continue; }
          for (auto* c : w->characters) {
            if (c->isDiacriticMarkOfBaseChar) { continue; }
            Rec r;
            text(&r, c);
            r["type"] = "s:char"; r["word"] = "s:" + w->id; r["block"] = "s:" + b->id;
            if (c->isBaseCharOfDiacriticMark) { r["text"] = "s:" + c->textWithDiacriticMark; }
            const PdfFontInfo* f = d->fontInfos.at(c->fontName);
            r["wMode"] = numS(c->pos->wMode); r["rotation"] = numS(c->pos->rotation); r["weight"] = numS(f->weight);
            r["italic"] = f->isItalic ? "b:1" : "b:0"; r["type-3"] = f->isType3 ? "b:1" : "b:0";
            r["opacity"] = numS(c->opacity);
            r["color"] = "a:";
            for (int j = 0; j < 3; j++) { r["color"] += numS(c->color[j]).substr(2) + ";"; }
            v.push_back(r);
          }
        }
      }
    }
  }
  return v;
}
static void checkJson(mc::Report& r, const PdfDocument* d, const std::set<int>& roles, const std::set<int>& units) {
  std::unordered_set<PdfElementType> us;
  for (int u : units) { us.insert(static_cast<PdfElementType>(u)); }
  auto got = out(JsonlSerializer(1), d, roleSet(roles), us);
  r.step();
  std::map<std::string, std::vector<Rec>> lines;
  std::stringstream ss(got);
  std::string line;
  r.check(got.empty() || got.back() == '\n', "newline", "the last line has no end");
  while (std::getline(ss, line)) {
    Js j(line);
    if (!r.check(j.object(), "json", [&] { return "not a JSON object: " + j.err + ": " + mask(line); })) { return; }
    auto o = j.v.find("origin");
    r.check(o != j.v.end() && o->second == "s:pdftotext++", "origin", "wrong origin");
    j.v.erase("origin");
    lines[j.v["type"]].push_back(j.v);
  }
  r.state(got);
  static const std::map<std::string, PdfElementType> NAMES = { { "s:page", PdfElementType::PAGES }, { "s:block", PdfElementType::TEXT_BLOCKS }, { "s:word", PdfElementType::WORDS },
    { "s:char", PdfElementType::CHARACTERS }, { "s:figure", PdfElementType::FIGURES }, { "s:shape", PdfElementType::SHAPES } };
  for (auto& l : lines) { r.check(NAMES.count(l.first) || l.first == "s:line", "type", [&] { return "unexpected type " + l.first; }); }
  size_t nlines = 0;
  for (auto* p : d->pages) { for (auto* b : p->blocks) { if (roles.empty() || roles.count(static_cast<int>(b->role))) { nlines += b->lines.size(); } } }
  if ((units.empty() || units.count(static_cast<int>(PdfElementType::TEXT_LINES))) && nlines) {
    r.check(lines["s:line"].size() == nlines, "known:lines", "text lines are requested, but there is no output for them");
  }
  for (auto& n : NAMES) {
    std::vector<Rec> exp;
    if (units.empty() || units.count(static_cast<int>(n.second))) { exp = records(d, n.second, roles); }
    auto& g = lines[n.first];
    if (!r.eq(g.size(), exp.size(), "count", "number of lines of type " + n.first)) { continue; }
    for (size_t i = 0; i < exp.size(); i++) {
      for (auto& kv : exp[i]) {
        auto it = g[i].find(kv.first);
        r.check(it != g[i].end() && same(it->second, kv.second), "value", [&] { return "value '" + kv.first + "' of " + n.first + " " + std::to_string(i) + " is " +
            (it == g[i].end() ? "missing" : mask(it->second)) + ", expected " + mask(kv.second); });
      }
      r.eq(g[i].size(), exp[i].size(), "keys", "number of values of " + n.first);
    }
  }
}
static void addNonText(Doc* doc, PdfPage* pg, int k) {
  for (int i = 0; i < k; i++) {
    auto* f = new PdfFigure(pg->pageNum, 10.5 + i, 20, 30, 40.1 + i);
    f->id = "f" + std::to_string(++doc->nch); f->rank = 7 + i;
    pg->figures.push_back(f);
    auto* s = new PdfShape();
    s->id = "s" + std::to_string(++doc->nch); s->rank = 17 + i;
    s->pos->pageNum = pg->pageNum; s->pos->leftX = -5.5; s->pos->upperY = 0.1 * i; s->pos->rightX = 100; s->pos->lowerY = 0.1 * i + 0.2;
    pg->shapes.push_back(s);
  }
}
// Every selection of units and of roles of a few documents.
static void selections(mc::Chooser& c, mc::Report& r) {
  static const std::vector<Wd> W = WORDS();
  std::set<int> units, roles;
  int um = c.choose(128), rm = c.choose(8), kind = c.choose(4);
  for (int i = 0; i < 7; i++) { if (um >> i & 1) { units.insert(i); } }
  static const int R[3] = { 0, 6, 13 };
  for (int i = 0; i < 3; i++) { if (rm >> i & 1) { roles.insert(R[i]); } }
  if (!c.owns()) { return; }
  Dc dc;
  if (kind >= 1) { Bl a; a.lines = { { W[0], W[1] }, {}, { W[2] } }; Bl b; b.role = 6; b.lines = { { W[3], W[4] } }; dc.push_back({ a, b }); }
  if (kind >= 2) { dc.push_back({}); }
  if (kind >= 3) { Bl a; a.role = 13; a.lines = { { W[8] } }; Bl b; Bl e; e.role = 3; e.lines = { { W[0] } }; dc.push_back({ a, b, e, a }); }
  Built u;
  build(&u, dc);
  for (size_t p = 0; p < dc.size(); p++) { addNonText(&u.doc, u.doc.d->pages[p], (p + 1) % 3); }
  r.desc("document " + std::to_string(kind) + " units mask " + std::to_string(um) + " roles mask " + std::to_string(rm));
  checkJson(r, u.doc.d.get(), roles, units);
}
// Every string of critical characters as the text of a glyph/word/block and as the name of a font.
static void strings(mc::Chooser& c, mc::Report& r) {
  static const std::vector<std::string> CH = { "a", "\"", "\\", "\n", "\t", "\x01", "/", "\xC3\xA4", "\x1f", "\r", "\x7f", "\xF0\x9F\x98\x80", "n", "u", "{", "\b", "\f", "\xE2\x80\xA8", "\x0b", "0" };
  bool font = c.flag();
  int len = c.range(0, mc::tier(3, 4));
  std::string s;
  for (int i = 0; i < len; i++) { s += CH[c.choose(len <= 2 ? CH.size() : len == 3 ? 10 : 7)]; }
  if (!c.owns()) { return; }
  r.desc((font ? "font name '" : "text '") + mask(s) + "'");
  Bl b;
  Wd w = plain(font ? "a" : s);
  Wd m;
  m.glyphs = { { "e", 1, font ? "x" : s }, { "'", 2 } };
  m.text = font ? "x" : s;
  b.lines = { { w, m } };
  Built u;
  build(&u, { { b } }, true, font ? s : "f");
  checkJson(r, u.doc.d.get(), {}, {});
}
// Critical numbers as coordinates, sizes, colors and ranks.
static void numbers(mc::Chooser& c, mc::Report& r) {
  static const std::vector<double> V = { 0, 1, -0.1, 99999.9, 12345.6, 0.1, -14400, 100000, 200.5, -0.5 };
  double v = c.of(V), w = c.of(V), x = c.of(V);  // at most six digits are printed
  int what = c.choose(6);
  if (!c.owns()) { return; }
  std::stringstream ds;
  ds << "field " << what << " values " << v << " " << w << " " << x;
  r.desc(ds.str());
  Bl b;
  b.lines = { { plain("ab"), plain("c") } };
  Built u;
  build(&u, { { b, b } });
  auto* pg = u.doc.d->pages[0];
  addNonText(&u.doc, pg, 1);
  auto set = [&](PdfElement* e) { e->pos->leftX = v; e->pos->upperY = w; e->pos->rightX = x; e->pos->lowerY = v; e->rank = static_cast<int>(w * 10); };
  auto* k = pg->blocks[0];
  switch (what) {
    case 0: set(k); k->fontSize = x; break;
    case 1: set(k->lines[0]->words[0]); k->lines[0]->words[0]->fontSize = x; break;
    case 2: { auto* ch = k->lines[0]->words[0]->characters[1]; set(ch); ch->fontSize = v; ch->opacity = w; ch->color[0] = v; ch->color[1] = w; ch->color[2] = x; break; }
    case 3: set(pg->figures[0]); break;
    case 4: set(pg->shapes[0]); break;
    default: for (double* q : { &v, &w, &x }) { *q = std::round(fabs(*q) > 9999 ? *q / 100 : *q * 2) / 2; }
      pg->clipLeftX = v; pg->clipRightX = w; pg->clipUpperY = x; pg->clipLowerY = w; break;
  }
  checkJson(r, u.doc.d.get(), {}, {});
}
static mc::Register js1({ "P14", "selections", "a case is a selection of units and roles for a small document", selections, nullptr });
static mc::Register js2({ "P14", "strings", "a case is a string of critical characters as a text or font name", strings, nullptr });
static mc::Register js3({ "P14", "numbers", "a case is a combination of critical numbers as coordinates, sizes, colors or ranks of an element", numbers, nullptr });

// ------------------------------------------------------------------------------------------------
// P15
static std::vector<std::string> typed(const std::string& json, const std::string& t) {
  std::vector<std::string> v;
  std::stringstream s(json);
  std::string l;
  while (std::getline(s, l)) { if (l.find("\"type\": \"" + t + "\"") != std::string::npos || l.find("\"type\":\"" + t + "\"") != std::string::npos) { v.push_back(l); } }
  return v;
}
static void checkFilter(mc::Report& r, const Dc& dc, const std::set<int>& roles) {
  Built u;
  build(&u, dc);
  auto* d = u.doc.d.get();
  auto rs = roleSet(roles);
  std::string tx = out(PlainTextSerializer(), d, rs), ex = out(PlainTextExtendedSerializer(), d, rs);
  r.step();
  r.eq(mask(tx), mask(expect(dc, false, roles)), "text", "plain text of the selected roles");
  r.eq(mask(ex), mask(expect(dc, true, roles)), "extended", "extended text of the selected roles");
  // The filtered JSON lines are the lines of the unfiltered output whose block has a selected role.
  std::string all = out(JsonlSerializer(1), d), part = out(JsonlSerializer(1), d, rs);
  std::set<std::string> sel;
  for (size_t p = 0; p < dc.size(); p++) { for (size_t i = 0; i < dc[p].size(); i++) { if (roles.empty() || roles.count(dc[p][i].role)) { sel.insert(u.blocks[p][i]->id); } } }
  for (auto& t : { "block", "word", "char", "page", "figure", "shape" }) {
    std::vector<std::string> exp, got = typed(part, t);
    std::string key = t == std::string("block") ? "id" : "block";
    for (auto& l : typed(all, t)) {
      if (t == std::string("block") || t == std::string("word") || t == std::string("char")) {
        Js j(l);
        j.object();
        if (!sel.count(j.v[key].substr(2))) { continue; }
      }
      exp.push_back(l);
    }
    r.check(got == exp, "jsonl", [&] { return "filtered lines of type " + std::string(t) + ": " + std::to_string(got.size()) + " instead of " + std::to_string(exp.size()) + ", or other ones"; });
  }
  r.state(tx);
}
// All sets of roles for a document that has a block of each role.
static void roleSets(mc::Chooser& c, mc::Report& r) {
  int m = c.choose(1 << 14), kind = c.choose(mc::tier(1, 2));
  if (!c.owns()) { return; }
  Dc dc(2);
  std::set<int> roles;
  for (int i = 0; i < 14; i++) {
    Bl b;
    b.role = kind ? (i * 5) % 14 : i;
    b.lines = { { plain(std::string(1, 'a' + i)) } };
    dc[i % 3 == 2].push_back(b);
    if (m >> i & 1) { roles.insert(i); }
  }
  r.desc("role mask " + std::to_string(m));
  checkFilter(r, dc, roles);
}
// All assignments of three roles to the blocks of small documents and all subsets of these.
static void roleDocs(mc::Chooser& c, mc::Report& r) {
  static const std::vector<Wd> W = WORDS();
  static const int R[3] = { 0, 7, 13 };
  Dc dc(1);
  int n = c.range(0, mc::tier(3, 4)), rm = c.choose(8), at = 0;
  std::set<int> roles;
  for (int i = 0; i < 3; i++) { if (rm >> i & 1) { roles.insert(R[i]); } }
  for (int i = 0; i < n; i++) {
    Bl b;
    b.role = R[c.choose(3)];
    int k = c.choose(n <= 2 ? 6 : n == 3 ? mc::tier(4, 5) : 4);
    b.emph = k == 1;
    // plain words; emphasized; a first part at the end; a second part at the begin; no line; no word
    if (k <= 1) { b.lines = { { plain(std::string(1, 'a' + at++)), W[1] } }; }
    if (k == 2) { b.lines = { { plain(std::string(1, 'p' + at++)), W[2] } }; }
    if (k == 3) { b.lines = { { W[3], plain(std::string(1, 'A' + at++)) } }; }
    if (k == 5) { b.lines = { {} }; }
    dc.back().push_back(b);
    if (n == 4 ? i == 1 : c.flag()) { dc.push_back({}); }
  }
  if (!c.owns()) { return; }
  r.desc(show(dc) + " role mask " + std::to_string(rm));
  checkFilter(r, dc, roles);
}
static mc::Register f1({ "P15", "role-sets", "a case is one of all 16384 sets of roles", roleSets, nullptr });
static mc::Register f2({ "P15", "documents", "a case is a document of up to four blocks of three roles and a subset of these", roleDocs, nullptr });

// ------------------------------------------------------------------------------------------------
// Large documents: many pages, blocks, lines and words.
static Dc genLarge(mc::Chooser& c, bool hyphens) {
  static const std::vector<Wd> W = WORDS();
  static const std::vector<std::string> H = { "ab-", "cd", "efg-", "hi", "-", "jkl-" };
  std::vector<int> N = { 1, 3, 11, 130 };
  int np = c.of(N), nb = c.of(N), nl = c.of(N), nw = c.of(N), step = 1 + c.choose(mc::tier(2, 5)), gap = c.choose(3);
  Dc dc;
  if (static_cast<long>(np) * nb * nl * nw > mc::tier(1500, 20000)) { return dc; }
  int n = 0;
  for (int p = 0; p < np; p++) {
    dc.push_back({});
    if (gap == 1 && p % 3 == 1) { continue; }
    for (int b = 0; b < nb; b++) {
      Bl k;
      k.role = (p + b) % 14;
      k.emph = b % 3 == 1;
      for (int l = 0; l < (gap == 2 && b % 4 == 2 ? 0 : nl); l++) {
        Ln t;
        for (int w = 0; w < nw; w++, n += step) { t.push_back(hyphens ? plain(H[n % H.size()]) : W[n % 2 ? 0 : n / 2 % 4 == 1 ? 1 : 4 + n / 2 % 4]); }
        k.lines.push_back(t);
      }
      dc.back().push_back(k);
    }
  }
  return dc;
}
static void largeDoc(mc::Chooser& c, mc::Report& r, int what) {
  Dc dc = genLarge(c, what == 11);
  std::set<int> roles;
  if (what >= 14) { int k = c.choose(what == 15 ? mc::tier(2, 4) : mc::tier(1, 2)); if (k == 1) { roles = { 0, 3, 13 }; } if (k == 2) { roles = { 5 }; } if (k == 3) { for (int i = 1; i < 14; i++) { roles.insert(i); } } }
  if (!c.owns() || dc.empty()) { return; }
  if (what == 11) { checkJoin(r, dc); return; }
  std::string d = show(dc);
  r.desc(std::to_string(dc.size()) + " pages, " + std::to_string(dc[0].size()) + " blocks: " + d.substr(0, 200));
  if (what == 15) { checkFilter(r, dc, roles); return; }
  Built u;
  build(&u, dc);
  if (what == 14) {
    for (size_t p = 0; p < dc.size(); p++) { addNonText(&u.doc, u.doc.d->pages[p], dc.size() > 20 ? p % 2 : p % 13); }
    checkJson(r, u.doc.d.get(), roles, {});
    return;
  }
  auto got = what == 12 ? out(PlainTextSerializer(), u.doc.d.get()) : out(PlainTextExtendedSerializer(), u.doc.d.get());
  r.step();
  r.eq(mask(got), mask(expect(dc, what == 13)), "text", "the text");
  r.state(got);
}
#define LARGE(n) static mc::Register large##n({ "P" #n, "large", "a case is a large document (up to 130 pages, blocks, lines or words)", \
  [](mc::Chooser& c, mc::Report& r) { largeDoc(c, r, n); }, nullptr, 400 });
LARGE(11) LARGE(12) LARGE(13) LARGE(14) LARGE(15)

int main(int argc, char** argv) { return mc::driver(argc, argv); }
