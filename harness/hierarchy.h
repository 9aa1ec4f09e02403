// The invariants of an extracted document (P29), for every document.
#ifndef VERIF_HARNESS_HIERARCHY_H_
#define VERIF_HARNESS_HIERARCHY_H_
#include <cmath>
#include <map>
#include <set>
#include <string>
#include "Types.h"
#include "mc.h"

namespace hierarchy {
using namespace ppp::types;

inline std::string boxStr(const PdfPosition* p) {
  std::stringstream s;
  s << "[" << p->leftX << "," << p->upperY << "," << p->rightX << "," << p->lowerY << "]";
  return s.str();
}
inline bool encloses(const PdfPosition* a, const PdfPosition* b) {
  double t = 0.051;  // (values are rounded to one decimal)
  return a->leftX <= b->leftX + t && a->upperY <= b->upperY + t && a->rightX >= b->rightX - t && a->lowerY >= b->lowerY - t;
}
// An outcome: the numbers of parts.
inline std::string shape(const PdfDocument* d) {
  std::stringstream s;
  for (auto* p : d->pages) {
    s << "/" << p->figures.size() << "," << p->shapes.size() << "," << p->graphics.size() << ":" << p->segments.size() << ";";
    for (auto* b : p->blocks) { s << "b"; for (auto* l : b->lines) { s << "l"; for (auto* w : l->words) { s << w->characters.size() << " "; } } }
  }
  return s.str();
}

inline void check(mc::Report& r, const PdfDocument* doc, bool links) {
  int rank = -1, n = 0;
  std::set<int> ranks;
  std::set<std::string> ids;
  for (auto* page : doc->pages) {
    n++;
    std::string at = " on page " + std::to_string(n);
    r.check(page->pageNum == n, "page-number", [&] { return "page " + std::to_string(n) + " has the number " + std::to_string(page->pageNum); });
    auto element = [&](const PdfElement* e, const std::string& what, bool num = true) {
      auto* p = e->pos;
      r.check(std::isfinite(p->leftX) && std::isfinite(p->upperY) && std::isfinite(p->rightX) && std::isfinite(p->lowerY) && std::fabs(p->leftX) < 1e15 && std::fabs(p->upperY) < 1e15 && std::fabs(p->rightX) < 1e15 && std::fabs(p->lowerY) < 1e15,
          "finite", [&] { return "the box of a " + what + at + " is " + boxStr(p); });
      r.check(p->leftX <= p->rightX && p->upperY <= p->lowerY, "box", [&] { return "the box of a " + what + at + " is " + boxStr(p); });
      r.check(p->rotation >= 0 && p->rotation <= 3, "rotation", "the rotation of a " + what + at);
      r.check(p->pageNum == n, "page-of-element", [&] { std::stringstream s; s << "a " << what << at << " has the page number " << p->pageNum; return s.str(); });
      if (num) { r.check(e->doc == doc, "document", "a " + what + at + " does not refer to the document"); }
      if (!e->id.empty()) { r.check(ids.insert(e->id).second, "id", "the id of a " + what + at + " occurs twice"); }
    };
    auto within = [&](const PdfElement* a, const PdfElement* b, const std::string& what, const std::string& parent) {
      r.check(encloses(a->pos, b->pos), "encloses-" + what, [&] { return "a " + what + at + " " + boxStr(b->pos) + " is not inside of its " + parent + " " + boxStr(a->pos); });
    };
    auto paint = [&](const PdfElement* e, const std::string& what) {
      element(e, what);
      r.check(e->rank >= 0 && ranks.insert(e->rank).second, "rank-" + what, [&] { return "the rank " + std::to_string(e->rank) + " of a " + what + at + " is missing or occurs twice"; });
    };
    // Within each list, the drawing order is kept.
    auto ascending = [&](const auto& v, const std::string& what) {
      int last = -1;
      for (auto* e : v) { r.check(e->rank > last, "order-" + what, "the " + what + "s" + at + " are not in drawing order"); last = e->rank; }
    };
    for (auto* c : page->characters) { paint(c, "glyph"); }
    for (auto* s : page->shapes) { paint(s, "shape"); }
    for (auto* g : page->graphics) { paint(g, "image"); }
    ascending(page->characters, "glyph"); ascending(page->shapes, "shape"); ascending(page->graphics, "image");
    for (auto* f : page->figures) {
      element(f, "figure");
      r.check(!f->characters.empty() || !f->shapes.empty() || !f->graphics.empty(), "empty-figure", "a figure" + at + " has no parts");
      for (auto* c : f->characters) { paint(c, "glyph of a figure"); within(f, c, "glyph", "figure"); r.check(!c->word, "figure-word", "a glyph of a figure is in a word"); }
      for (auto* s : f->shapes) { paint(s, "shape of a figure"); within(f, s, "shape", "figure"); }
      for (auto* g : f->graphics) { paint(g, "image of a figure"); within(f, g, "image", "figure"); }
      ascending(f->characters, "glyph"); ascending(f->shapes, "shape"); ascending(f->graphics, "image");
    }
    // Upwards references are those of the downwards ones.
    std::set<const PdfPageSegment*> segments(page->segments.begin(), page->segments.end());
    std::map<const PdfTextLine*, const PdfPageSegment*> lineSegment;
    for (auto* s : page->segments) {
      element(s, "segment");
      for (auto* e : s->elements) { r.check(e->pos->pageNum == n, "segment-page", "an element of another page in a segment" + at); within(s, e, "element", "segment"); }
      for (auto* l : s->lines) {
        r.check(lineSegment.insert({ l, s }).second, "line-segments", "a line" + at + " is in two segments");
        r.check(l->segment == s, "segment-of-line", "a line" + at + " does not refer to its segment");
      }
    }
    size_t lines = 0;
    std::set<const PdfTextBlock*> blocks(page->blocks.begin(), page->blocks.end());
    std::set<const PdfTextLine*> seenLines;
    std::set<const PdfWord*> seenWords;
    std::set<const PdfCharacter*> seenChars;
    std::vector<const PdfTextLine*> inBlocks;
    r.check(blocks.size() == page->blocks.size(), "block-twice", "a block" + at + " occurs twice");
    for (auto* b : page->blocks) {
      element(b, "block");
      r.check(!b->lines.empty(), "empty-block", "a block" + at + " has no lines");
      r.check(segments.count(b->segment), "segment-of-block", "a block" + at + " does not refer to a segment of its page");
      r.check(static_cast<int>(b->role) >= 0 && static_cast<int>(b->role) < 14, "role", "a block" + at + " has no valid role");
      for (size_t i = 0; i < b->lines.size(); i++) {
        auto* l = b->lines[i];
        lines++;
        inBlocks.push_back(l);
        element(l, "line");
        within(b, l, "line", "block");
        r.check(seenLines.insert(l).second, "line-twice", "a line" + at + " occurs twice");
        r.check(l->block == b, "block-of-line", "a line" + at + " does not refer to its block");
        r.check(lineSegment.count(l) && lineSegment[l] == b->segment, "segments", "a line" + at + " and its block are of different segments");
        r.check(!l->words.empty(), "empty-line", "a line" + at + " has no words");
        if (links) {
          r.check(l->prevLine == (i ? b->lines[i - 1] : nullptr) && l->nextLine == (i + 1 < b->lines.size() ? b->lines[i + 1] : nullptr), "line-links", "the links of a line" + at + " are not those of its block");
        }
        for (auto* w : l->words) {
          element(w, "word");
          within(l, w, "word", "line");
          r.check(seenWords.insert(w).second, "word-twice", "a word" + at + " occurs twice");
          r.check(w->line == l, "line-of-word", "a word" + at + " does not refer to its line");
          r.check(!w->characters.empty(), "empty-word", "a word" + at + " has no glyphs");
          for (auto* c : w->characters) {
            within(w, c, "glyph", "word");
            r.check(c->word == w, "word-of-glyph", "a glyph" + at + " does not refer to its word");
            r.check(seenChars.insert(c).second, "glyph-twice", "a glyph" + at + " occurs twice");
          }
        }
      }
    }
    r.check(lines == lineSegment.size(), "lines", [&] { return std::to_string(lineSegment.size()) + " lines in segments, but " + std::to_string(lines) + " in blocks" + at; });
    r.check(seenWords.size() <= page->words.size(), "words", "more words in lines than words" + at);
    for (auto* c : page->characters) {
      if (c->isDiacriticMarkOfBaseChar) {
        r.check(c->isDiacriticMarkOfBaseChar->isBaseCharOfDiacriticMark != nullptr, "mark", "a mark" + at + " refers to a glyph that is not a base");
      } else { r.check(seenChars.count(c), "glyph-in-words", "the glyph '" + c->text + "'" + at + " is not in a word of a line of a block"); }
    }
    // The list of the page's lines is that of its blocks.
    r.check(std::vector<const PdfTextLine*>(page->textLines.begin(), page->textLines.end()) == inBlocks, "page-lines", "the lines of the page are not those of its blocks");
    // Ranks of words, lines and blocks.
    int k = 0;
    for (auto* w : page->words) { r.check(w->rank == k++, "rank-word", "the ranks of the words" + at + " have gaps"); }
    std::set<int> br, lr;
    for (auto* b : page->blocks) { br.insert(b->rank); for (auto* l : b->lines) { lr.insert(l->rank); } }
    r.check(br.size() == page->blocks.size() && (br.empty() || (*br.begin() == 0 && *br.rbegin() == static_cast<int>(br.size()) - 1)), "rank-block", "the ranks of the blocks" + at + " are not those of a sequence");
    r.check(lr.size() == lines, "rank-line", "two lines" + at + " have the same rank");
    // Links of blocks.
    if (links) {
      int ends = 0;
      for (auto* b : page->blocks) {
        if (b->nextBlock) { r.check(b->nextBlock->prevBlock == b, "block-links", "the next block's previous block is another one" + at); }
        if (b->prevBlock) { r.check(b->prevBlock->nextBlock == b, "block-links", "the previous block's next block is another one" + at); }
        ends += !b->prevBlock || b->prevBlock->pos->pageNum != n;
      }
      r.check(page->blocks.empty() || ends == 1, "block-chain", [&] { return "the blocks" + at + " form " + std::to_string(ends) + " chains"; });
    }
  }
  (void)rank;
}
}  // namespace hierarchy
#endif  // VERIF_HARNESS_HIERARCHY_H_
