// Environment model of the cppflow library (TensorFlow inference), used to build the whole of
// pdftotext++ without TensorFlow.  The answer of the model is the "environment answer": it is
// chosen by the harness through ppp_model_env (or, in the command-line binary, by the environment
// variable PPP_MODEL).
#ifndef VERIF_STUB_CPPFLOW_H_
#define VERIF_STUB_CPPFLOW_H_
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace cppflow {
class tensor {
 public:
  tensor() = default;
  tensor(const tensor&) = default;
  tensor(tensor&&) = default;
  tensor& operator=(const tensor&) = default;
  tensor& operator=(tensor&&) = default;
  template <typename T>
  tensor(const std::vector<T>& values, const std::vector<int64_t>& shape) {
    _shape = shape;
    for (const auto& v : values) { _data.push_back(static_cast<double>(v)); }
    int64_t n = 1;
    for (auto s : shape) { n *= s; }
    // The real library copies exactly prod(shape) values and aborts otherwise.
    if (n != static_cast<int64_t>(values.size())) {
      throw std::runtime_error("cppflow: number of values does not match the shape");
    }
  }
  template <typename T>
  std::vector<T> get_data() const {
    std::vector<T> r;
    for (double d : _data) { r.push_back(static_cast<T>(d)); }
    return r;
  }
  tensor shape() const {
    tensor t;
    t._shape = { static_cast<int64_t>(_shape.size()) };
    for (auto s : _shape) { t._data.push_back(static_cast<double>(s)); }
    return t;
  }
  std::vector<int64_t> _shape;
  std::vector<double> _data;
};

// What the model was asked and what it answered.
struct Env {
  // Computes the answer for the given inputs. If not set, `table`/`PPP_MODEL` is used.
  std::function<tensor(const std::vector<std::pair<std::string, tensor>>&)> answer;
  std::vector<std::vector<std::pair<std::string, tensor>>> calls;
  std::vector<std::string> loadedModels;
  bool record = false;
};
inline Env& env() { static Env e; return e; }

class model {
 public:
  explicit model(const std::string& path) { env().loadedModels.push_back(path); }
  std::vector<tensor> operator()(std::vector<std::tuple<std::string, tensor>> in,
      std::vector<std::string> out) {
    std::vector<std::pair<std::string, tensor>> inputs;
    for (auto& t : in) { inputs.emplace_back(std::get<0>(t), std::get<1>(t)); }
    if (env().record) { env().calls.push_back(inputs); }
    if (env().answer) { return { env().answer(inputs) }; }
    // Default: PPP_MODEL is a string over the letters a..n; block i gets the role of letter
    // i mod length ("a" = paragraph).
    const char* e = std::getenv("PPP_MODEL");
    std::string roles = e && *e ? e : "a";
    int64_t n = inputs.empty() || inputs[0].second._shape.empty() ? 0 : inputs[0].second._shape[0];
    std::vector<float> v(n * 14, 0.01f);
    for (int64_t i = 0; i < n; i++) { v[i * 14 + (roles[i % roles.size()] - 'a') % 14] = 0.9f; }
    return { tensor(v, { n, 14 }) };
  }
};
}  // namespace cppflow
#endif  // VERIF_STUB_CPPFLOW_H_
