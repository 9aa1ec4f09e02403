// Generates whole documents (as PDF files) out of text objects, for the exploration of the complete
// pipeline; every glyph of a document has a text of its own, so that each can be traced.
#ifndef VERIF_HARNESS_GENDOC_H_
#define VERIF_HARNESS_GENDOC_H_
#include <cmath>
#include <set>
#include <string>
#include <vector>
#include "pdfgen.h"

namespace gen {
struct Page {
  std::string content;
  std::vector<std::string> glyphs;   // the texts of the glyphs outside of figures (composed where an accent is drawn over a letter)
  std::vector<std::string> figures;  // those of the glyphs in figures
};
struct Doc {
  std::vector<Page> pages{ 1 };
  std::string desc;
  double width = 200, height = 200;
  int next = 0, nextBase = 0, nextDigit = 0;
  std::string letter() {
    // (the vowels are the bases of accents)
    static const std::string A = "bcdfghjklmnpqrstvwxyzBCDFGHJKLMNPQRSTVWXYZ";
    return std::string(1, A[next++ % A.size()]);
  }
  std::string letters(int n) { std::string s; while (n--) { s += letter(); } return s; }
  void note(const std::string& s, bool figure = false) { for (char c : s) { if (c != ' ') { (figure ? pages.back().figures : pages.back().glyphs).push_back(std::string(1, c)); } } }
  void raw(const std::string& s) { pages.back().content += s + "\n"; }
  static std::string matrix(int rot, double x, double y) {
    static const char* R[4] = { "1 0 0 1 ", "0 -1 1 0 ", "-1 0 0 -1 ", "0 1 -1 0 " };
    return R[rot] + pdfgen::num(x) + " " + pdfgen::num(y) + " ";
  }
  void show(const std::string& s, double x, double y, double fs, const std::string& font, int rot, bool figure = false) {
    raw("BT /" + font + " " + pdfgen::num(fs) + " Tf " + matrix(rot, x, y) + "Tm " + pdfgen::lit(s) + " Tj ET");
    note(s, figure);
  }
  // A point of the text's own coordinates.
  static double px(int rot, double x, double dx, double dy) { return x + (rot == 0 ? dx : rot == 1 ? dy : rot == 2 ? -dx : -dy); }
  static double py(int rot, double y, double dx, double dy) { return y + (rot == 0 ? dy : rot == 1 ? -dx : rot == 2 ? -dy : dx); }
  static const int KINDS = 17;
  void add(int kind, double x, double y, double fs = 10, int rot = 0) {
    desc += "kind " + std::to_string(kind) + " at " + pdfgen::num(x) + "," + pdfgen::num(y) + " size " + pdfgen::num(fs) + (rot ? " rotation " + std::to_string(rot) : "") + "; ";
    auto at = [&](const std::string& s, double dx, double dy, double size, const std::string& font = "F1", bool fig = false) { show(s, px(rot, x, dx, dy), py(rot, y, dx, dy), size, font, rot, fig); };
    switch (kind) {
      case 0: at(letters(3), 0, 0, fs); break;
      case 1: at(letters(2) + " " + letters(2), 0, 0, fs); break;
      case 2: at(letters(2), 0, 0, fs); at(letters(1), fs, 0.4 * fs, 0.6 * fs); break;  // superscript
      case 3: at(letters(2) + "-", 0, 0, fs); break;
      case 4: at(letters(2) + " " + letters(3), 0, 0, fs); at(letters(1) + " " + letters(2), 0, -1.2 * fs, fs); break;
      case 5: {  // an accented letter
        static const std::string V = "aeiou";
        static const std::vector<std::string> C = { "\u00e1", "\u00e9", "\u00ed", "\u00f3", "\u00fa" };
        int k = nextBase++ % 5;
        std::string l = letters(1);
        raw("BT /F1 " + pdfgen::num(fs) + " Tf " + matrix(rot, x, y) + "Tm " + pdfgen::lit(l + V[k]) + " Tj ET BT " + matrix(rot, px(rot, x, 0.5 * fs, 0.01 * fs), py(rot, y, 0.5 * fs, 0.01 * fs)) + "Tm (\\264) Tj ET");
        note(l);
        pages.back().glyphs.push_back(C[k]);
        break;
      }
      case 6: {  // an operator with limits
        raw("BT /FS " + pdfgen::num(fs) + " Tf " + matrix(rot, x, y) + "Tm (A) Tj ET");
        pages.back().glyphs.push_back("\u2211");
        at(letters(1), 0.1 * fs, -0.9 * fs, 0.6 * fs);
        at(letters(1), 0.1 * fs, 1.0 * fs, 0.6 * fs);
        at(letters(2), 0.8 * fs, 0, fs);
        break;
      }
      case 7: at("(" + std::string(1, "0123456789"[nextDigit++ % 10]) + ") " + letters(2), 0, 0, fs); break;
      case 8: raw("q " + pdfgen::num(x - 30) + " " + pdfgen::num(y - 30) + " 60 60 re W n"); at(letters(2), 0, 0, fs, "F1", true); raw("Q"); break;
      case 9: at("  ", 0, 0, fs); break;
      case 10: at(letters(2), 0, 0, fs); at(letters(2), 0, 0, fs); break;  // drawn over each other
      case 11: at(letters(3), 0, 0, fs, "F2"); break;
      case 12: raw(pdfgen::num(x) + " " + pdfgen::num(y) + " 80 0.5 re f"); break;
      case 13: raw(pdfgen::num(x) + " " + pdfgen::num(y - 60) + " 0.5 80 re f"); break;
      case 14: at(letters(1), 0, 0, fs); at(letters(1), 3 * fs, 0, fs); break;  // a row of a table
      case 15: at("-" + letters(1) + "- " + letters(1), 0, 0, fs, "F3"); break;
      default: at(letters(1), 0, 0, fs); at(letters(1), 0.5 * fs, -0.3 * fs, 0.6 * fs); at(letters(1), 0.8 * fs, 0, fs); break;  // subscript
    }
  }
  void newPage() { pages.push_back({}); desc += "| "; }
  pdfgen::Pdf pdf() const {
    pdfgen::Pdf p;
    p.width = width;
    p.height = height;
    p.fonts = "/FS 20 0 R";
    p.extraObjs = { "<< /Type /Font /Subtype /Type1 /BaseFont /TestSym /FirstChar 65 /LastChar 65 /Widths [500] /Encoding << /Type /Encoding /Differences [65 /summationdisplay] >> "
      "/FontDescriptor << /Type /FontDescriptor /FontName /TestSym /Flags 4 /FontBBox [0 -200 1000 900] /ItalicAngle 0 /Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 >> >>" };
    for (auto& g : pages) { p.pages.push_back(g.content); }
    return p;
  }
};
}  // namespace gen
#endif  // VERIF_HARNESS_GENDOC_H_
