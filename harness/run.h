// Runs the real extraction pipeline of /repo on a PDF and gives access to its results.
#ifndef VERIF_HARNESS_RUN_H_
#define VERIF_HARNESS_RUN_H_
#include <cppflow/cppflow.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include "Config.h"
#include "PdfDocumentSerialization.h"
#include "PdfToTextPlusPlus.h"
#include "Types.h"
#include "mc.h"
#include "pdfgen.h"
#include "utils/PdfElementsUtils.h"

namespace run {
using namespace ppp::types;
using ppp::config::Config;

// A small model directory (the vocabulary files are read on every run), written once per process.
inline const std::string& modelDir() {
  static std::string d;
  if (d.empty()) {
    d = mc::scratchDir() + "/model." + std::to_string(getpid());
    mkdir(d.c_str(), 0700);
    std::ofstream v(d + "/bpe-vocab.tsv");
    v << "a\t1\nb\t2\nab\t3\n</w>\t4\n";
    std::ofstream r(d + "/roles-vocab.tsv");
    for (size_t i = 0; i < SEMANTIC_ROLE_NAMES.size(); i++) { r << SEMANTIC_ROLE_NAMES[i] << "\t" << i << "\n"; }
  }
  return d;
}

inline std::string tmpPdf() {
  return mc::scratchDir() + "/w" + std::to_string(getpid()) + ".pdf";
}

inline std::string writePdf(const std::string& bytes) {
  std::string p = tmpPdf();
  std::ofstream o(p, std::ios::binary | std::ios::trunc);
  o << bytes;
  o.close();
  return p;
}

// roles: block i of the document (in the order in which the model sees the blocks) gets the role
// roles[i % size].
inline void setModel(const std::vector<int>& roles) {
  cppflow::env().answer = [roles](const std::vector<std::pair<std::string, cppflow::tensor>>& in) {
    int64_t n = in.empty() || in[0].second._shape.empty() ? 0 : in[0].second._shape[0];
    std::vector<float> v(n * 14, 0.01f);
    for (int64_t i = 0; i < n; i++) { v[i * 14 + roles[i % roles.size()]] = 0.9f; }
    return cppflow::tensor(v, std::vector<int64_t>{ n, 14 });
  };
}

inline Config& config() {
  static Config c;
  c.semanticRolesPrediction.modelsDir = modelDir();
  return c;
}

struct Result {
  std::unique_ptr<PdfDocument> doc;
  int status = 0;
};

inline Result process(const std::string& bytes, const Config* conf = nullptr) {
  Result r;
  std::string p = writePdf(bytes);
  r.doc.reset(new PdfDocument(p));
  ppp::PdfToTextPlusPlus engine(conf ? conf : &config());
  r.status = engine.process(r.doc.get());
  return r;
}

inline std::unordered_set<SemanticRole> allRoles() {
  auto v = ppp::utils::elements::getSemanticRoles();
  return std::unordered_set<SemanticRole>(v.begin(), v.end());
}
inline std::unordered_set<PdfElementType> allTypes() {
  auto v = ppp::utils::elements::getPdfElementTypes();
  return std::unordered_set<PdfElementType>(v.begin(), v.end());
}

// Serializes through the public interface ("-" is the standard output).
inline std::string serialize(const ppp::serialization::Serializer& s, const PdfDocument* doc,
    const std::unordered_set<SemanticRole>& roles = allRoles(),
    const std::unordered_set<PdfElementType>& types = allTypes()) {
  std::stringstream o;
  std::streambuf* old = std::cout.rdbuf(o.rdbuf());
  s.serialize(doc, roles, types, "-");
  std::cout.rdbuf(old);
  return o.str();
}
inline std::string txt(const PdfDocument* doc) {
  return serialize(ppp::serialization::PlainTextSerializer(), doc);
}
}  // namespace run
#endif  // VERIF_HARNESS_RUN_H_
