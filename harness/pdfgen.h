// Builds small, valid PDF files in memory, for the exhaustive exploration at the PDF level.
#ifndef VERIF_HARNESS_PDFGEN_H_
#define VERIF_HARNESS_PDFGEN_H_
#include <cstdio>
#include <string>
#include <vector>

namespace pdfgen {

inline std::string num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.4f", v);
  std::string s = b;
  while (s.back() == '0') { s.pop_back(); }
  if (s.back() == '.') { s.pop_back(); }
  return s == "-0" ? "0" : s;
}

struct Pdf {
  double width = 200, height = 200;
  double x0 = 0, y0 = 0;  // origin of the media box
  std::vector<std::string> pages;        // content streams
  std::vector<int> rotate;               // /Rotate per page
  std::string resources;                 // additional entries of the resource dictionary
  std::vector<std::string> extraObjs;    // objects 20, 21, ... (complete bodies)
  std::string fonts;                     // entries of the font dictionary
  bool compact = false;                  // the fonts share their list of widths (object 6)
  // F1: Helvetica-like with all widths 500 (so every glyph is exactly 0.5 em wide).
  std::string build() const {
    std::vector<std::pair<int, std::string>> objs;
    auto dict = [](const std::string& s) { return "<< " + s + " >>"; };
    std::string kids;
    int n = pages.size();
    for (int i = 0; i < n; i++) { kids += std::to_string(100 + 2 * i) + " 0 R "; }
    objs.push_back({ 1, dict("/Type /Catalog /Pages 2 0 R") });
    objs.push_back({ 2, dict("/Type /Pages /Kids [" + kids + "] /Count " + std::to_string(n) +
        " /MediaBox [" + num(x0) + " " + num(y0) + " " + num(x0 + width) + " " +
        num(y0 + height) + "]") });
    std::string w;
    for (int i = 0; i < (compact ? 95 : 224); i++) { w += "500 "; }
    auto font = [&](const std::string& base, const std::string& flags, const std::string& more) {
      return dict("/Type /Font /Subtype /Type1 /BaseFont /" + base + " /FirstChar 32 /LastChar " + std::string(compact ? "126" : "255") + " "
        "/Widths " + (compact ? "6 0 R" : "[" + w + "]") + " /Encoding /WinAnsiEncoding /FontDescriptor << /Type /FontDescriptor "
        "/FontName /" + base + " /Flags " + flags + " /FontBBox [0 -200 1000 900] /ItalicAngle 0 "
        "/Ascent 900 /Descent -200 /CapHeight 700 /StemV 80 /MissingWidth 500 " + more + " >>");
    };
    objs.push_back({ 3, font("AAAAAA+TestSans", "32", "") });
    objs.push_back({ 4, font("BBBBBB+TestSans-Bold", "32", "") });
    objs.push_back({ 5, font("CCCCCC+TestSerif-Italic", "98", "") });
    if (compact) { objs.push_back({ 6, "[" + w + "]" }); }
    for (size_t i = 0; i < extraObjs.size(); i++) { objs.push_back({ 20 + static_cast<int>(i), extraObjs[i] }); }
    for (int i = 0; i < n; i++) {
      objs.push_back({ 100 + 2 * i, dict("/Type /Page /Parent 2 0 R /Resources << /Font << /F1 3 0 R "
        "/F2 4 0 R /F3 5 0 R " + fonts + " >> " + resources + " >> " +
        (i < static_cast<int>(rotate.size()) && rotate[i] ? "/Rotate " + std::to_string(rotate[i]) + " " : "") +
        "/Contents " + std::to_string(101 + 2 * i) + " 0 R") });
      objs.push_back({ 101 + 2 * i, stream(pages[i]) });
    }
    std::string out = "%PDF-1.4\n";
    int maxId = 0;
    for (auto& o : objs) { maxId = o.first > maxId ? o.first : maxId; }
    std::vector<long> off(maxId + 1, -1);
    for (auto& o : objs) {
      off[o.first] = out.size();
      out += std::to_string(o.first) + " 0 obj\n" + o.second + "\nendobj\n";
    }
    long xref = out.size();
    out += "xref\n0 " + std::to_string(maxId + 1) + "\n0000000000 65535 f \n";
    for (int i = 1; i <= maxId; i++) {
      char b[32];
      if (off[i] < 0) { snprintf(b, sizeof b, "0000000000 65535 f \n"); }
      else { snprintf(b, sizeof b, "%010ld 00000 n \n", off[i]); }
      out += b;
    }
    out += "trailer << /Size " + std::to_string(maxId + 1) + " /Root 1 0 R >>\nstartxref\n" +
      std::to_string(xref) + "\n%%EOF\n";
    return out;
  }
  static std::string stream(const std::string& data, const std::string& entries = "") {
    return "<< /Length " + std::to_string(data.size()) + " " + entries + " >>\nstream\n" + data +
      "\nendstream";
  }
};

// A literal PDF string.
inline std::string lit(const std::string& s) {
  std::string o = "(";
  for (unsigned char c : s) {
    if (c == '(' || c == ')' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) {
      char b[8]; snprintf(b, sizeof b, "\\%03o", c); o += b;
    } else { o += c; }
  }
  return o + ")";
}

// Shows `s` with font/size at (x, y) (PDF user space, y pointing up).
inline std::string text(double x, double y, const std::string& s, double size = 10,
    const std::string& font = "F1") {
  return "BT /" + font + " " + num(size) + " Tf 1 0 0 1 " + num(x) + " " + num(y) + " Tm " +
      lit(s) + " Tj ET\n";
}

}  // namespace pdfgen
#endif  // VERIF_HARNESS_PDFGEN_H_
