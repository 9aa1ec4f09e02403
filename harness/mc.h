// A small stateless model checker: it enumerates *every* sequence of choices a generator can make
// (depth first, by replaying choice prefixes), runs the real code on each one, and lets an oracle
// judge it.  Nothing is sampled: a space is either exhausted or reported as not exhausted.
//
// The space is split over worker processes by case number.  A worker that crashes (assertion,
// sanitizer report, uncaught exception) or hangs is a violation of the case it was executing.
// Every violation is replayed in a fresh process before it is reported.
#ifndef VERIF_HARNESS_MC_H_
#define VERIF_HARNESS_MC_H_
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

inline double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) {
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

inline std::string jsonEsc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') { o += "\\n";
    } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b;
    } else { o += c; }
  }
  return o;
}

inline bool thorough() {
  const char* t = getenv("VERIF_TIER");
  return t && std::string(t) == "thorough";
}
// The bound of a space: `q` in the quick tier, `t` in the thorough one.
inline int tier(int q, int t) { return thorough() ? t : q; }

constexpr int MAX_CHOICES = 4000;
constexpr int MAX_VIOL = 64;

struct Viol {
  char key[160];
  char msg[3000];
  int n;
  short choices[MAX_CHOICES];
};

struct Shared {  // one per worker
  volatile int64_t cases, steps, checks, owned;
  volatile double caseStart;
  volatile int running;
  volatile int nchoices;
  short choices[MAX_CHOICES];
  volatile int done;
  volatile int nviol;
  Viol viol[MAX_VIOL];
  volatile int nsamples;
  char samples[3][600];
};

class Chooser {
 public:
  std::vector<int> cur, width;
  std::vector<int> prefix;
  int W = 1, w = 0;
  int64_t index = 0;
  bool replay = false;
  Shared* sh = nullptr;

  // One of n alternatives. Alternative 0 is explored first.
  int choose(int n) {
    if (n <= 0) { n = 1; }
    size_t i = cur.size();
    int v = i < prefix.size() ? prefix[i] : 0;
    if (v >= n) { v = n - 1; }
    if (cur.size() >= MAX_CHOICES) { fprintf(stderr, "too many choices\n"); _exit(99); }
    cur.push_back(v);
    width.push_back(n);
    return v;
  }
  bool flag() { return choose(2) == 1; }
  int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
  template <typename T> const T& of(const std::vector<T>& v) { return v[choose(v.size())]; }
  // A deviation from alternative 0 costs one unit of the budget; with no budget left the default
  // is taken (so a space with budget k holds *all* inputs within k deviations of the base input).
  int deviate(int n, int* budget) {
    if (*budget <= 0) { return 0; }
    int v = choose(n);
    if (v) { (*budget)--; }
    return v;
  }
  // To be called once the case is generated: does this worker execute it?
  bool owns() {
    if (replay) { return true; }
    bool mine = (index % W) == w;
    if (mine && sh) {
      sh->nchoices = cur.size();
      for (size_t i = 0; i < cur.size(); i++) { sh->choices[i] = cur[i]; }
      sh->caseStart = now();
      sh->running = 1;
      sh->owned = sh->owned + 1;
    }
    return mine;
  }
  bool next() {
    prefix = cur;
    std::vector<int> wd = width;
    while (!prefix.empty() && prefix.back() + 1 >= wd[prefix.size() - 1]) { prefix.pop_back(); }
    cur.clear();
    width.clear();
    index++;
    if (prefix.empty()) { return false; }
    prefix.back()++;
    return true;
  }
};

class Report {
 public:
  Shared* sh = nullptr;
  Chooser* ch = nullptr;
  bool replay = false, failed = false;
  std::unordered_set<uint64_t> states;
  std::string caseDesc;
  // A distinct state / outcome that was reached.
  void state(const std::string& s) { if (states.size() < 4000000) states.insert(hashStr(s)); }
  void step(int64_t n = 1) { if (sh) { sh->steps = sh->steps + n; } }
  void desc(const std::string& d) { caseDesc = d; }
  bool check(bool ok, const std::string& key, const std::function<std::string()>& msg) {
    if (sh) { sh->checks = sh->checks + 1; }
    if (!ok) { fail(key, msg()); }
    return ok;
  }
  bool check(bool ok, const std::string& key, const std::string& msg = "") {
    if (sh) { sh->checks = sh->checks + 1; }
    if (!ok) { fail(key, msg); }
    return ok;
  }
  template <typename A, typename B>
  bool eq(const A& a, const B& b, const std::string& key, const std::string& what = "") {
    if (sh) { sh->checks = sh->checks + 1; }
    if (a == b) { return true; }
    std::stringstream s;
    s << what << ": expected <" << b << ">, got <" << a << ">";
    fail(key, s.str());
    return false;
  }
  void fail(const std::string& key, const std::string& msg) {
    failed = true;
    if (replay) { fprintf(stderr, "FAILED [%s] %s\n%s\n", key.c_str(), msg.c_str(), caseDesc.c_str()); }
    if (!sh) { return; }
    // Keep the first (shortest-prefix) example of every kind of failure.
    for (int i = 0; i < sh->nviol; i++) { if (key == sh->viol[i].key) { return; } }
    if (sh->nviol >= MAX_VIOL) { return; }
    Viol& v = sh->viol[sh->nviol];
    snprintf(v.key, sizeof v.key, "%s", key.c_str());
    snprintf(v.msg, sizeof v.msg, "%s | %s", msg.c_str(), caseDesc.c_str());
    v.n = ch->cur.size();
    for (int i = 0; i < v.n; i++) { v.choices[i] = ch->cur[i]; }
    sh->nviol = sh->nviol + 1;
  }
};

using Body = std::function<void(Chooser&, Report&)>;
struct Space {
  std::string property, name, rule;
  Body body;
  std::function<void()> setup;  // run once in each worker
  int recycle = 20000;          // cases after which a worker process is replaced
  double hang = 60;             // seconds after which a case counts as hanging
};

inline std::vector<Space>& spaces() { static std::vector<Space> s; return s; }
struct Register { explicit Register(Space s) { spaces().push_back(std::move(s)); } };
inline std::string& scratchDir() { static std::string s; return s; }

inline void quietWorker(const std::string& errFile) {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  int e = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
  if (e >= 0) { dup2(e, 2); }
}

inline std::string tailOf(const std::string& f, size_t n = 1500) {
  std::ifstream in(f);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  size_t p = s.find("ERROR: AddressSanitizer");
  if (p != std::string::npos) { return s.substr(p, n); }
  p = s.rfind("Assertion");
  if (p != std::string::npos) { return s.substr(p > 200 ? p - 200 : 0, n); }
  p = s.rfind("terminate called");
  if (p != std::string::npos) { return s.substr(p, n); }
  return s.size() > n ? s.substr(s.size() - n) : s;
}

// Returns the exit status class of a worker run: runs cases from `prefix` on.
inline void workerRun(const Space& sp, Shared* sh, int W, int w, std::vector<int> prefix,
    int64_t index, const std::string& stFile) {
  Chooser c;
  c.W = W; c.w = w; c.sh = sh; c.prefix = prefix; c.index = index;
  Report r;
  r.sh = sh; r.ch = &c;
  if (sp.setup) { sp.setup(); }
  int64_t start = sh->owned;
  bool more = true;
  while (more) {
    r.failed = false; r.caseDesc.clear();
    sp.body(c, r);
    // Written-out samples of the cases that were really executed (the 1st, 10th and 1000th).
    if (sh->running && sh->nsamples < 3 &&
        (sh->owned == 1 || sh->owned == 10 || sh->owned == 1000)) {
      std::string d = r.caseDesc;
      if (d.empty()) { for (int v : c.cur) { d += (d.empty() ? "choices " : ",") + std::to_string(v); } }
      snprintf(sh->samples[sh->nsamples], sizeof sh->samples[0], "%s", d.c_str());
      sh->nsamples = sh->nsamples + 1;
    }
    sh->running = 0;
    sh->cases = c.index + 1;
    more = c.next();
    if (more && sh->owned - start >= sp.recycle) { break; }
  }
  FILE* f = fopen(stFile.c_str(), "ab");
  for (uint64_t h : r.states) { fwrite(&h, 8, 1, f); }
  fclose(f);
  // Hand over where to continue.
  sh->done = more ? 0 : 1;
  sh->nchoices = c.prefix.size();
  for (size_t i = 0; i < c.prefix.size(); i++) { sh->choices[i] = c.prefix[i]; }
  sh->cases = c.index;
  _exit(more ? 77 : 0);
}

// Runs one case in a fresh process. Returns 0: held, 1: oracle violated, 2: crashed / hung.
inline int replayCase(const Space& sp, const std::vector<int>& choices, std::string* key,
    std::string* msg, bool verbose) {
  std::string err = scratchDir() + "/replay.err";
  Shared* sh = reinterpret_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  memset(reinterpret_cast<void*>(sh), 0, sizeof(Shared));
  pid_t p = fork();
  if (p == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (!verbose) { quietWorker(err); } else { int n = open("/dev/null", O_WRONLY); dup2(n, 1); }
    Chooser c;
    c.replay = true; c.prefix = choices;
    Report r;
    r.sh = sh; r.ch = &c; r.replay = verbose;
    if (sp.setup) { sp.setup(); }
    sp.body(c, r);
    _exit(0);
  }
  double t0 = now();
  int st = 0;
  int rc = 0;
  while (true) {
    pid_t q = waitpid(p, &st, WNOHANG);
    if (q == p) { break; }
    if (now() - t0 > sp.hang) {
      kill(p, SIGKILL); waitpid(p, &st, 0);
      *key = "hang"; *msg = "did not finish"; rc = 2; break;
    }
    usleep(2000);
  }
  if (!rc) {
    if (sh->nviol > 0) {
      rc = 1; *key = sh->viol[0].key; *msg = sh->viol[0].msg;
    } else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      rc = 2; *key = "crash"; *msg = verbose ? "crashed" : tailOf(err);
    }
  }
  munmap(sh, sizeof(Shared));
  return rc;
}

struct Found { std::string space, key, msg; std::vector<int> choices; };

inline std::string vecStr(const std::vector<int>& v) {
  std::string s;
  for (size_t i = 0; i < v.size(); i++) { s += (i ? "," : "") + std::to_string(v[i]); }
  return s;
}

// Usage: BIN --property ID --out RESULT.json [--replay SPACE CHOICES] [--jobs N] [--deadline S]
inline int driver(int argc, char** argv) {
  std::string prop, out, rspace, rchoices, only;
  int jobs = 8;
  double deadline = 780;
  bool rep = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--property") { prop = argv[++i]; }
    else if (a == "--out") { out = argv[++i]; }
    else if (a == "--jobs") { jobs = atoi(argv[++i]); }
    else if (a == "--deadline") { deadline = atof(argv[++i]); }
    else if (a == "--only") { only = argv[++i]; }
    else if (a == "--scratch") { scratchDir() = argv[++i]; }
    else if (a == "--replay") { rep = true; rspace = argv[++i]; rchoices = argv[++i]; }
    else if (a == "--list") {
      for (auto& s : spaces()) { printf("%s %s\n", s.property.c_str(), s.name.c_str()); }
      return 0;
    }
  }
  char tmpl[] = "/tmp/vppmc.XXXXXX";
  bool ownScratch = scratchDir().empty();
  if (ownScratch) { scratchDir() = mkdtemp(tmpl); }
  if (rep) {
    std::vector<int> c;
    std::stringstream ss(rchoices);
    std::string t;
    while (std::getline(ss, t, ',')) { if (!t.empty()) { c.push_back(atoi(t.c_str())); } }
    int rc = 3;
    for (auto& s : spaces()) {
      if (s.property == prop && s.name == rspace) {
        std::string k, m;
        rc = replayCase(s, c, &k, &m, true);
        printf("replay: %s [%s] %s\n", rc == 0 ? "held" : "VIOLATED", k.c_str(), m.c_str());
      }
    }
    if (ownScratch) { std::string cmd = "rm -rf '" + scratchDir() + "'"; if (system(cmd.c_str())) {} }
    return rc == 0 ? 0 : 1;
  }

  double tStart = now();
  bool failFast = getenv("VERIF_FAILFAST") != nullptr;   // stop at the first violation (used for measuring with mutants only)
  std::vector<Found> found;
  std::stringstream js;
  js << "{\"spaces\":[";
  bool firstSpace = true;
  bool allExhausted = true;
  for (auto& sp : spaces()) {
    if (sp.property != prop) { continue; }
    if (!only.empty() && sp.name != only) { continue; }
    if (failFast && deadline == 0) { continue; }
    double t0 = now();
    std::vector<Shared*> shs;
    struct W { pid_t pid = 0; int crashes = 0; bool fin = false, exhausted = false; };
    std::vector<W> ws(jobs);
    std::string stFile = scratchDir() + "/states." + std::to_string(getpid());
    unlink(stFile.c_str());
    auto spawn = [&](int w, std::vector<int> prefix, int64_t index) {
      Shared* sh = shs[w];
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        quietWorker(scratchDir() + "/w" + std::to_string(w) + ".err");
        workerRun(sp, sh, jobs, w, prefix, index, stFile + "." + std::to_string(w));
      }
      ws[w].pid = p;
    };
    for (int w = 0; w < jobs; w++) {
      Shared* sh = reinterpret_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
          MAP_SHARED | MAP_ANONYMOUS, -1, 0));
      memset(reinterpret_cast<void*>(sh), 0, sizeof(Shared));
      shs.push_back(sh);
      unlink((stFile + "." + std::to_string(w)).c_str());
      spawn(w, {}, 0);
    }
    int live = jobs;
    while (live > 0) {
      bool progressed = false;
      for (int w = 0; w < jobs; w++) {
        if (ws[w].fin) { continue; }
        int st = 0;
        pid_t q = waitpid(ws[w].pid, &st, WNOHANG);
        Shared* sh = shs[w];
        bool hung = false;
        if (q == 0) {
          if (sh->running && now() - sh->caseStart > sp.hang) {
            kill(ws[w].pid, SIGKILL); waitpid(ws[w].pid, &st, 0); hung = true;
          } else if (now() - tStart > deadline) {
            kill(ws[w].pid, SIGKILL); waitpid(ws[w].pid, &st, 0);
            ws[w].fin = true; live--; continue;
          } else { continue; }
        }
        progressed = true;
        std::vector<int> at(sh->choices, sh->choices + sh->nchoices);
        if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
          ws[w].fin = ws[w].exhausted = true; live--;
        } else if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 77) {
          spawn(w, at, sh->cases);
        } else {
          if (!sh->running && !hung) {
            fprintf(stderr, "worker died outside of a case: %s\n",
                tailOf(scratchDir() + "/w" + std::to_string(w) + ".err").c_str());
            return 2;
          }
          sh->running = 0;
          found.push_back({ sp.name, hung ? "hang" : "crash",
              hung ? "the case did not finish" : tailOf(scratchDir() + "/w" + std::to_string(w) + ".err"),
              at });
          // One crash (or hang) per worker and space is enough to decide the property.
          if (++ws[w].crashes >= (hung ? 1 : 8)) {
            ws[w].fin = true; live--;
          } else {
            // Continue after the case that crashed: re-generate it without executing it.
            Chooser c;
            c.W = 1; c.w = 1;  // owns nothing
            c.prefix = at;
            c.index = 0;
            Report r; r.ch = &c;
            // Generation only: index % 1 == 0 != w
            sp.body(c, r);
            if (c.next()) { spawn(w, c.prefix, sh->cases + 1); } else {
              ws[w].fin = ws[w].exhausted = true; live--; }
          }
        }
      }
      if (failFast) {
        for (auto& f : found) { if (f.key.compare(0, 6, "known:") != 0) { deadline = 0; } }
        for (auto* sh : shs) { if (sh->nviol && strncmp(sh->viol[0].key, "known:", 6) != 0) { deadline = 0; } }
      }
      if (!progressed) { usleep(3000); }
    }
    int64_t owned = 0, steps = 0, checks = 0;
    bool exhausted = true;
    std::vector<uint64_t> st;
    std::vector<std::string> samples;
    for (int w = 0; w < jobs; w++) {
      owned += shs[w]->owned; steps += shs[w]->steps; checks += shs[w]->checks;
      exhausted = exhausted && ws[w].exhausted;
      std::ifstream f(stFile + "." + std::to_string(w), std::ios::binary);
      uint64_t h;
      while (f.read(reinterpret_cast<char*>(&h), 8)) { st.push_back(h); }
      unlink((stFile + "." + std::to_string(w)).c_str());
      for (int i = 0; i < shs[w]->nsamples && samples.size() < 4; i++) {
        if (w == 0 || i == 2) { samples.push_back(shs[w]->samples[i]); }
      }
      for (int i = 0; i < shs[w]->nviol; i++) {
        Viol& v = shs[w]->viol[i];
        Found f{ sp.name, v.key, v.msg, std::vector<int>(v.choices, v.choices + v.n) };
        bool dup = false;
        for (auto& g : found) {
          if (g.space == f.space && g.key == f.key) {
            dup = true;
            if (f.choices < g.choices) { g = f; }
          }
        }
        if (!dup) { found.push_back(f); }
      }
      munmap(shs[w], sizeof(Shared));
    }
    std::sort(st.begin(), st.end());
    st.erase(std::unique(st.begin(), st.end()), st.end());
    allExhausted = allExhausted && exhausted;
    js << (firstSpace ? "" : ",") << "{\"name\":\"" << jsonEsc(sp.name) << "\",\"rule\":\""
       << jsonEsc(sp.rule) << "\",\"cases\":" << owned << ",\"states\":" << st.size()
       << ",\"transitions\":" << (steps > 0 ? steps : owned) << ",\"checks\":" << checks
       << ",\"exhausted\":" << (exhausted ? "true" : "false") << ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) { js << (i ? "," : "") << "\"" << jsonEsc(samples[i]) << "\""; }
    js << "],\"wall_s\":" << now() - t0 << "}";
    firstSpace = false;
    fprintf(stderr, "  space %-40s cases=%ld states=%zu checks=%ld exhausted=%d %.1fs\n",
        sp.name.c_str(), static_cast<long>(owned), st.size(), static_cast<long>(checks), exhausted, now() - t0);
  }
  js << "],\"violations\":[";
  bool firstV = true;
  std::set<std::string> seenCrash;
  for (auto& f : found) {
    for (auto& sp : spaces()) {
      if (sp.property != prop || sp.name != f.space) { continue; }
      std::string k, m;
      int rc = replayCase(sp, f.choices, &k, &m, false);
      if (rc == 0) {
        // Not reproducible in a fresh process: keep it, but say so (the runner decides).
        k = f.key; m = "(not reproduced when replayed alone) " + f.msg;
      }
      if (rc == 1) { k = f.key; m = f.msg; }
      std::string sig = f.space + "/" + k;
      if (rc == 2 && !seenCrash.insert(sig + m.substr(0, 80)).second) { continue; }
      js << (firstV ? "" : ",") << "{\"space\":\"" << jsonEsc(f.space) << "\",\"key\":\""
         << jsonEsc(k) << "\",\"reproduced\":" << (rc ? "true" : "false") << ",\"choices\":\""
         << vecStr(f.choices) << "\",\"msg\":\"" << jsonEsc(m) << "\"}";
      firstV = false;
    }
  }
  js << "],\"exhausted\":" << (allExhausted ? "true" : "false") << ",\"wall_s\":" << now() - tStart << "}";
  if (!out.empty()) { std::ofstream o(out); o << js.str() << "\n"; } else { printf("%s\n", js.str().c_str()); }
  if (ownScratch) { std::string cmd = "rm -rf '" + scratchDir() + "'"; if (system(cmd.c_str())) {} }
  return 0;
}

}  // namespace mc
#endif  // VERIF_HARNESS_MC_H_
