// main() of every harness binary: runs a shard of each suite's cases and writes what the monitors saw.
#include "vh.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <thread>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

#ifdef __SANITIZE_THREAD__
extern "C" void AnnotateIgnoreReadsBegin(const char*, int);
#endif
namespace vh {
std::vector<Suite>& suites() {
  static std::vector<Suite> s;
  return s;
}
struct Failure {
  std::string suite, key, detail;
  int index;
};
static std::vector<Failure> g_fail;
static std::map<std::string, int> g_failcount;
static std::map<std::string, uint64_t> g_counts;
static std::unordered_set<uint64_t> g_distinct;
static std::vector<std::string> g_samples;
static std::map<std::string, int> g_samplesPerSuite;
static uint64_t g_evals = 0;
static std::map<std::string, uint64_t> g_digest;
static void appendFail(const std::string& line);
static char g_cur[256] = "startup";
static char g_crashfile[1024];
static char g_outfile[1024];

void Case::fail(const std::string& key, const std::string& detail) {
  std::string k = std::string(suite) + "/" + key;
  if (g_failcount[k]++ < 5) {
    g_fail.push_back({suite, key, detail, index});
    appendFail(std::string(suite) + "\t" + std::to_string(index) + "\t" + key + "\t" + detail);
  }
  if (verbose) fprintf(stderr, "FAIL %s case %d: %s\n", k.c_str(), index, detail.c_str());
}
static bool g_stop = false;
void Case::stop() { g_stop = true; }
void Case::count(const char* name, uint64_t n) { g_counts[std::string(suite) + "." + name] += n; }
void Case::distinct(uint64_t h) {
  if (g_distinct.size() < 400000) g_distinct.insert(h ^ hashStr(suite));
}
void Case::sample(const std::string& s) {
  if (g_samplesPerSuite[suite]++ < 1 && g_samples.size() < 12)
    g_samples.push_back(fmt("%s#%d: ", suite, index) + s.substr(0, 500));
}
void Case::digest(uint64_t h) {
  uint64_t& d = g_digest[std::string(suite) + ":" + std::to_string(index)];
  d = (d ^ h) * 1099511628211ull + 1;
}
static void appendFail(const std::string& line) {
  if (!strcmp(g_crashfile, "/dev/null")) return;
  std::string l = line;
  for (char& ch : l)
    if (ch == '\n') ch = ' ';
  l += "\n";
  std::string fn = std::string(g_crashfile, strlen(g_crashfile) - 6) + ".fails";
  int fd = open(fn.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0) return;
  (void)!write(fd, l.data(), l.size());
  ::close(fd);
}
void Case::evals(uint64_t n) { g_evals += n; }

static std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c >= 0x7f)
      o += fmt("\\u%04x", c);
    else
      o += c;
  }
  return o;
}

static void writeOut(const char* outfile, bool partial) {
  FILE* f = fopen(outfile, "w");
  if (!f) _exit(97);
  fprintf(f, "{\"partial\": %s, \"evaluations\": %llu, \"failures\": [", partial ? "true" : "false",
          (unsigned long long)g_evals);
  for (size_t i = 0; i < g_fail.size(); i++)
    fprintf(f, "%s{\"suite\": \"%s\", \"key\": \"%s\", \"index\": %d, \"detail\": \"%s\"}", i ? ", " : "",
            esc(g_fail[i].suite).c_str(), esc(g_fail[i].key).c_str(), g_fail[i].index, esc(g_fail[i].detail).c_str());
  fprintf(f, "], \"failcounts\": {");
  bool first = true;
  for (auto& k : g_failcount) {
    fprintf(f, "%s\"%s\": %d", first ? "" : ", ", esc(k.first).c_str(), k.second);
    first = false;
  }
  fprintf(f, "}, \"counts\": {");
  first = true;
  for (auto& k : g_counts) {
    fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(k.first).c_str(), (unsigned long long)k.second);
    first = false;
  }
  fprintf(f, "}, \"samples\": [");
  first = true;
  for (auto& k : g_samples) {
    fprintf(f, "%s\"%s\"", first ? "" : ", ", esc(k).c_str());
    first = false;
  }
  fprintf(f, "], \"digests\": {");
  first = true;
  for (auto& k : g_digest) {
    fprintf(f, "%s\"%s\": \"%llx\"", first ? "" : ", ", esc(k.first).c_str(), (unsigned long long)k.second);
    first = false;
  }
  fprintf(f, "}, \"distinct\": [");
  first = true;
  for (auto h : g_distinct) {
    fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 12));
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
}

static void rawCrash(const char* kind) {
  int fd = open(g_crashfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return;
  (void)!write(fd, kind, strlen(kind));
  (void)!write(fd, " ", 1);
  (void)!write(fd, g_cur, strlen(g_cur));
  (void)!write(fd, "\n", 1);
  ::close(fd);
}
static void onDeath() { rawCrash("death"); }
static void onAbrt(int) {
  rawCrash("abort");
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
}
static void onFpe(int s) {
  rawCrash("signal");
  signal(s, SIG_DFL);
  raise(s);
}
static void onAlarm(int) {
  rawCrash("hang");
  _exit(98);
}
// Signals may never reach a thread that is stuck inside a lock under ThreadSanitizer: a thread of its own watches the clock too.
static std::atomic<int64_t> g_deadline{0};  // ms, 0: none
static int64_t steadyMs() {
  return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static void watch() {
#ifdef __SANITIZE_THREAD__
  AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
#endif
  for (;;) {
    std::this_thread::sleep_for(std::chrono::milliseconds(500));
    int64_t d = g_deadline.load(std::memory_order_relaxed);
    if (d && steadyMs() > d) {
      rawCrash("hang");
      _exit(98);
    }
  }
}
static bool wantSuite(const std::string& list, const char* n) {
  if (list.empty()) return true;
  std::stringstream ss(list);
  std::string t;
  while (std::getline(ss, t, ','))
    if (t == n) return true;
  return false;
}
}  // namespace vh

int main(int argc, char** argv) {
  using namespace vh;
  uint64_t seed = 1;
  bool thorough = false, verbose = false;
  int shard = 0, nshards = 1, only = -1, from = -1, wdmul = 1;
  std::string out, suiteSel, fromSuite;
  double scale = 1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--seed")
      seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--thorough")
      thorough = true;
    else if (a == "--shard") {
      sscanf(argv[++i], "%d/%d", &shard, &nshards);
    } else if (a == "--out")
      out = val();
    else if (a == "--suites")
      suiteSel = val();
    else if (a == "--case")
      only = atoi(val().c_str());
    else if (a == "--resume") {  // suite:index -> skip everything up to and including it
      std::string v = val();
      size_t p = v.rfind(':');
      fromSuite = v.substr(0, p);
      from = atoi(v.c_str() + p + 1);
    } else if (a == "--wdmul")
      wdmul = atoi(val().c_str());
    else if (a == "--scale")
      scale = atof(val().c_str());
    else if (a == "-v")
      verbose = true;
    else if (a == "--list") {
      for (auto& s : suites()) printf("%s %d %d\n", s.name, s.quick, s.thorough);
      return 0;
    }
  }
  snprintf(g_crashfile, sizeof g_crashfile, "%s.crash", out.empty() ? "/dev/null" : out.c_str());
  if (out.empty()) snprintf(g_crashfile, sizeof g_crashfile, "/dev/null");
  signal(SIGALRM, onAlarm);
  signal(SIGABRT, onAbrt);
  if (!__sanitizer_set_death_callback) {
    signal(SIGSEGV, onFpe);
    signal(SIGFPE, onFpe);
  } else {
    __sanitizer_set_death_callback(onDeath);
  }
  if (!verbose) {  // the code under test prints; keep the harness's verdict channel separate
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
  }
  std::thread(watch).detach();
  bool skipping = from >= 0;
  for (auto& s : suites()) {
    if (!wantSuite(suiteSel, s.name)) continue;
    int n = (int)((thorough ? s.thorough : s.quick) * scale);
    if (n < 1 && (thorough ? s.thorough : s.quick) > 0) n = 1;
    if (only >= 0) n = only + 1;
    for (int i = (only >= 0 ? only : 0); i < n && !g_stop; i++) {
      if (only < 0 && (i % nshards) != shard) continue;
      if (skipping) {
        if (fromSuite == s.name && i == from) skipping = false;
        continue;
      }
      snprintf(g_cur, sizeof g_cur, "%s %d", s.name, i);
      alarm(s.watchdog_s * wdmul);
      g_deadline.store(steadyMs() + s.watchdog_s * wdmul * 1000 + 2000, std::memory_order_relaxed);
      Case c(hashStr(s.name) ^ (seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)i * 0xD1B54A32D192ED03ull), i, thorough,
             s.name, verbose);
      g_evals++;
      try {
        s.fn(c);
      } catch (const std::exception& e) {
        c.fail(std::string("exception:") + e.what(), fmt("uncaught exception: %s", e.what()));
      }
      alarm(0);
      g_deadline.store(0, std::memory_order_relaxed);
    }
  }
  snprintf(g_cur, sizeof g_cur, "shutdown 0");
  if (!out.empty()) writeOut(out.c_str(), false);
  if (verbose || out.empty()) {
    for (auto& k : g_counts) fprintf(stderr, "%s = %llu\n", k.first.c_str(), (unsigned long long)k.second);
    for (auto& k : g_failcount) fprintf(stderr, "FAILED %s x%d\n", k.first.c_str(), k.second);
    for (auto& k : g_fail) fprintf(stderr, "  %s/%s case %d: %s\n", k.suite.c_str(), k.key.c_str(), k.index, k.detail.c_str());
    fprintf(stderr, "evals %llu distinct %zu\n", (unsigned long long)g_evals, g_distinct.size());
  }
  fflush(0);
  _exit(g_fail.empty() ? 0 : 1);
}
