#include "mc.h"

#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

namespace {

struct Scenario {
  std::string name;
  Body body;
  Tier tier;
};
std::vector<Scenario> &scenarios() {
  static std::vector<Scenario> s;
  return s;
}

constexpr int MAX_CHOICES = 4000;
struct Slot {
  volatile int job;      // index of the job in hand, -1: none
  volatile int running;  // inside an execution
  volatile uint64_t beat; // executions started
  volatile int n;
  int values[2 * MAX_CHOICES]; // value, arity
};
struct Shared {
  volatile int next_job;
  volatile int stop;
  volatile int unlisted;
  Slot slots[64];
};
Shared *shared = nullptr;
Slot *my_slot = nullptr;
bool g_thorough = false;
double g_deadline = 0;

double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

struct Stats {
  uint64_t executions = 0, pruned = 0, transitions = 0, checks = 0;
  bool complete = true;
  std::unordered_set<uint64_t> states;
  std::vector<std::string> samples;
};
Stats *stats = nullptr;
std::FILE *viol = nullptr;
std::map<std::string, int> seen_keys;

std::string esc(const std::string &s) {
  std::string o;
  for (char ch : s) {
    const unsigned char u = static_cast<unsigned char>(ch);
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (u < 0x20 || u >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", u);
      o += b;
    } else {
      o += ch;
    }
  }
  return o;
}

std::string choices_str(const std::vector<std::pair<int, int>> &v,
                        std::size_t n) {
  std::string s;
  for (std::size_t i = 0; i < n && i < v.size(); ++i) {
    s += (i ? " " : "") + std::to_string(v[i].first);
  }
  return s;
}

void emit(const std::string &scenario, const std::string &key,
          const std::string &msg, const std::string &choices) {
  if (viol == nullptr) {
    std::printf("FAIL scenario=%s key=%s\n  choices=[%s]\n  %s\n",
                scenario.c_str(), key.c_str(), choices.c_str(), msg.c_str());
    std::fflush(stdout);
    ++seen_keys[key];
    return;
  }
  if (seen_keys[key]++ > 0) {
    return;
  }
  std::string m = msg.substr(0, 3000);
  std::fprintf(viol, "{\"scenario\":\"%s\",\"key\":\"%s\",\"message\":\"%s\","
                     "\"choices\":\"%s\"}\n",
               esc(scenario).c_str(), esc(key).c_str(), esc(m).c_str(),
               choices.c_str());
  std::fflush(viol);
}

struct Diverged : std::runtime_error {
  Diverged() : std::runtime_error("nondeterministic scenario") {}
};

void run_once(const Scenario &s, Ctx &c) {
  c.pos = 0;
  c.text.clear();
  c.prefix_done = c.n_shards <= 1;
  c.prefix_product = 1;
  c.prefix_index = 0;
  try {
    s.body(c);
  } catch (const Pruned &) {
    if (stats)
      ++stats->pruned;
    return;
  } catch (const Failed &f) {
    c.report(f.key, f.msg);
  } catch (const Diverged &) {
    c.report("diverged:" + s.name, "the replayed prefix took another path");
  } catch (const std::exception &e) {
    std::string w = e.what();
    c.report("exception:" + s.name,
             "an exception escaped from the library: " + w);
  } catch (...) {
    c.report("exception:" + s.name, "an unknown exception escaped");
  }
  if (!c.prefix_done) {
    // A path shorter than the sharding prefix belongs to shard 0.
    if (c.shard != 0)
      return;
  }
  if (stats) {
    ++stats->executions;
    stats->transitions += c.pos + c.steps;
    stats->checks += c.checks;
    if (stats->samples.size() < 3 &&
        (stats->executions == 1 || stats->executions == 7 ||
         stats->executions == 100)) {
      std::string t = "choices [" + choices_str(c.choices, c.pos) + "] " + c.text;
      stats->samples.push_back(s.name + ": " + t.substr(0, 600));
    }
  }
}

bool advance(Ctx &c) {
  c.choices.resize(c.pos);
  while (!c.choices.empty()) {
    if (++c.choices.back().first < c.choices.back().second) {
      return true;
    }
    c.choices.pop_back();
  }
  return false;
}

} // namespace

Register::Register(const std::string &name, Body body, Tier tier) {
  scenarios().push_back({name, std::move(body), tier});
}

bool thorough() { return g_thorough; }

int Ctx::choose(int n) {
  if (n <= 0) {
    throw std::logic_error("choose(0)");
  }
  int v = 0;
  if (pos < choices.size()) {
    if (choices[pos].second == 0) {
      choices[pos].second = n; // resumed or replayed
    }
    if (choices[pos].second != n || choices[pos].first >= n) {
      throw Diverged();
    }
    v = choices[pos].first;
  } else {
    choices.emplace_back(0, n);
  }
  if (my_slot != nullptr && pos < MAX_CHOICES) {
    my_slot->values[2 * pos] = v;
    my_slot->values[2 * pos + 1] = n;
    my_slot->n = static_cast<int>(pos) + 1;
  }
  ++pos;
  if (!prefix_done && n > 1) {
    prefix_product *= static_cast<uint64_t>(n);
    prefix_index = prefix_index * static_cast<uint64_t>(n) +
                   static_cast<uint64_t>(v);
    if (prefix_product >= 4 * n_shards) {
      prefix_done = true;
      uint64_t h = prefix_index * 0x9E3779B97F4A7C15ull;
      h ^= h >> 29;
      if (h % n_shards != shard) {
        throw Pruned();
      }
    }
  }
  return v;
}

std::vector<std::size_t> Ctx::subset(std::size_t n) {
  std::vector<std::size_t> out;
  for (std::size_t i = 0; i < n; ++i) {
    if (flip())
      out.push_back(i);
  }
  return out;
}

std::vector<std::size_t> Ctx::permutation(std::size_t n) {
  std::vector<std::size_t> left, out;
  for (std::size_t i = 0; i < n; ++i)
    left.push_back(i);
  while (!left.empty()) {
    const auto i = choose(static_cast<int>(left.size()));
    out.push_back(left[static_cast<std::size_t>(i)]);
    left.erase(left.begin() + i);
  }
  return out;
}

void Ctx::state(const std::string &s) {
  if (stats)
    stats->states.insert(fnv(s, fnv(scenario)));
}

void Ctx::report(const std::string &key, const std::string &msg) {
  emit(scenario, key, msg + (text.empty() ? "" : "\n  in: " + text),
       choices_str(choices, pos));
}

void Ctx::close(double got, double want, const char *key,
                const std::string &what, double rtol, double atol) {
  ++checks;
  if (!near(got, want, rtol, atol)) {
    char b[200];
    std::snprintf(b, sizeof b, " got %.17g want %.17g", got, want);
    report(key, what + b);
  }
}

bool dies(const std::function<void()> &f) {
  std::fflush(stdout);
  std::cout.flush();
  const pid_t pid = fork();
  if (pid == 0) {
    const int null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    dup2(null, 2);
    try {
      f();
    } catch (...) {
      _exit(17);
    }
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

namespace {

struct Job {
  std::size_t scenario;
  std::size_t shard, n_shards;
};

void write_stats(const std::string &path, Stats &st) {
  std::ofstream os(path + ".stats");
  os << st.executions << " " << st.pruned << " " << st.transitions << " "
     << st.checks << " " << (st.complete ? 1 : 0) << "\n";
  for (const auto &s : st.samples)
    os << esc(s) << "\n";
  std::ofstream hs(path + ".states", std::ios::binary);
  for (uint64_t h : st.states)
    hs.write(reinterpret_cast<const char *>(&h), sizeof h);
}

// A worker: takes jobs until none is left.  Statistics are appended per
// process, so a crash loses only the counts of that process.
void worker(const std::vector<Job> &jobs, int slot_index, int resume_job,
            std::vector<int> resume, const std::string &base) {
  my_slot = &shared->slots[slot_index];
  Stats st;
  stats = &st;
  viol = std::fopen((base + ".viol").c_str(), "w");
  const int errfd = open((base + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  dup2(errfd, 2);
  dup2(errfd, 1);
  for (;;) {
    int j;
    bool resumed = false;
    if (resume_job >= 0) {
      j = resume_job;
      resume_job = -1;
      resumed = true;
    } else {
      j = __sync_fetch_and_add(&shared->next_job, 1);
    }
    if (j >= static_cast<int>(jobs.size()) || shared->stop)
      break;
    const Job &job = jobs[static_cast<std::size_t>(j)];
    const Scenario &s = scenarios()[job.scenario];
    my_slot->job = j;
    Ctx c;
    c.scenario = s.name;
    c.shard = job.shard;
    c.n_shards = job.n_shards;
    c.narrate = true;
    if (resumed) {
      // Continue just behind the execution that died.
      for (std::size_t i = 0; i + 1 < resume.size(); i += 2)
        c.choices.emplace_back(resume[i], resume[i + 1]);
      c.pos = c.choices.size();
      if (!advance(c))
        continue;
    }
    for (;;) {
      if (now() > g_deadline) {
        st.complete = false;
        break;
      }
      if (shared->stop)
        break;
      my_slot->n = 0;
      my_slot->beat = my_slot->beat + 1;
      my_slot->running = 1;
      c.steps = 0;
      c.checks = 0;
      c.narrate = true;
      if (my_slot->beat % 64 == 0 && ftruncate(errfd, 0) != 0) {
      }
      run_once(s, c);
      my_slot->running = 0;
      if (!advance(c))
        break;
    }
    my_slot->job = -1;
  }
  std::fflush(stdout);
  write_stats(base, st);
  std::fclose(viol);
  _exit(0);
}

std::string tail(const std::string &path, std::size_t n) {
  std::ifstream is(path, std::ios::binary);
  std::stringstream ss;
  ss << is.rdbuf();
  std::string s = ss.str();
  return s.size() > n ? s.substr(s.size() - n) : s;
}

} // namespace
} // namespace mc

// Usage: prog --out DIR [--tier quick|thorough] [--budget SECONDS]
//             [--workers N] [--only SUBSTR] [--hang SECONDS]
//        prog --replay SCENARIO "c0 c1 c2 ..."
int main(int argc, char **argv) {
  using namespace mc;
  std::string out, only, replay, vec, skip;
  int workers = 8;
  double budget = 600, hang = 60;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--out")
      out = val();
    else if (a == "--tier")
      g_thorough = val() == "thorough";
    else if (a == "--budget")
      budget = std::stod(val());
    else if (a == "--workers")
      workers = std::stoi(val());
    else if (a == "--only")
      only = val();
    else if (a == "--hang")
      hang = std::stod(val());
    else if (a == "--replay") {
      replay = val();
      vec = val();
    } else if (a == "--list") {
      for (const auto &s : scenarios())
        std::printf("%s\n", s.name.c_str());
      return 0;
    }
  }
  if (!replay.empty()) {
    for (const auto &s : scenarios()) {
      if (s.name != replay)
        continue;
      Ctx c;
      c.scenario = s.name;
      c.narrate = true;
      std::istringstream is(vec);
      int v;
      while (is >> v)
        c.choices.emplace_back(v, 0);
      run_once(s, c);
      std::printf("REPLAY scenario=%s choices=[%s]\n  %s\n  violations=%zu\n",
                  s.name.c_str(), choices_str(c.choices, c.pos).c_str(),
                  c.text.c_str(), seen_keys.size());
      return seen_keys.empty() ? 0 : 1;
    }
    std::printf("no such scenario\n");
    return 2;
  }
  if (out.empty()) {
    std::printf("--out DIR needed\n");
    return 2;
  }
  mkdir(out.c_str(), 0755);
  workers = std::min(workers, 60);
  shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared),
                                      PROT_READ | PROT_WRITE,
                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const double t0 = now();
  g_deadline = t0 + budget;
  std::vector<Job> jobs;
  std::size_t n_scen = 0;
  const std::size_t K = 16;
  for (std::size_t k = 0; k < K; ++k) {
    for (std::size_t i = 0; i < scenarios().size(); ++i) {
      const auto &s = scenarios()[i];
      if (!only.empty() && s.name.find(only) == std::string::npos)
        continue;
      if (s.tier == THOROUGH_ONLY && !g_thorough)
        continue;
      if (s.tier == QUICK_ONLY && g_thorough)
        continue;
      if (k == 0)
        ++n_scen;
      jobs.push_back({i, k, K});
    }
  }
  std::fflush(stdout);
  int gen = 0;
  std::vector<std::string> bases;
  std::map<pid_t, int> slot_of;
  std::map<pid_t, std::string> base_of;
  auto start = [&](int slot, int job, std::vector<int> resume) {
    const std::string base = out + "/w" + std::to_string(gen++);
    bases.push_back(base);
    shared->slots[slot].job = -1;
    shared->slots[slot].running = 0;
    const pid_t pid = fork();
    if (pid == 0) {
      worker(jobs, slot, job, resume, base);
      _exit(0);
    }
    slot_of[pid] = slot;
    base_of[pid] = base;
  };
  for (int w = 0; w < workers; ++w)
    start(w, -1, {});
  std::vector<uint64_t> last_beat(64, 0);
  std::vector<double> last_time(64, now());
  std::ofstream crash(out + "/crash.viol");
  int crashes = 0, hangs = 0;
  while (!slot_of.empty()) {
    int st = 0;
    const pid_t pid = waitpid(-1, &st, WNOHANG);
    if (pid == 0) {
      usleep(20000);
      for (auto &ps : slot_of) {
        const auto i = static_cast<std::size_t>(ps.second);
        Slot &sl = shared->slots[i];
        if (sl.beat != last_beat[i] || !sl.running) {
          last_beat[i] = sl.beat;
          last_time[i] = now();
        } else if (now() - last_time[i] > hang) {
          last_time[i] = now();
          kill(ps.first, SIGKILL);
        }
      }
      continue;
    }
    if (pid < 0)
      break;
    if (slot_of.count(pid) == 0)
      continue;
    const int slot = slot_of[pid];
    const std::string base = base_of[pid];
    slot_of.erase(pid);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      continue;
    Slot &sl = shared->slots[slot];
    const int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    const int j = sl.job;
    const std::string scen =
        j >= 0 ? scenarios()[jobs[static_cast<std::size_t>(j)].scenario].name
               : std::string("?");
    std::string v;
    std::vector<int> values;
    for (int i = 0; i < sl.n && i < MAX_CHOICES; ++i) {
      v += (i ? " " : "") + std::to_string(sl.values[2 * i]);
      values.push_back(sl.values[2 * i]);
      values.push_back(sl.values[2 * i + 1]);
    }
    crash << "{\"scenario\":\"" << esc(scen) << "\",\"key\":\""
          << (sig == SIGKILL ? "hang:" : "crash:") << esc(scen)
          << "\",\"message\":\""
          << esc("the execution died: " +
                 (sig ? std::string("signal ") + std::to_string(sig)
                      : std::string("exit ") + std::to_string(WEXITSTATUS(st))) +
                 "; its stderr: " + tail(base + ".err", 1500))
          << "\",\"choices\":\"" << v << "\"}" << std::endl;
    // A new worker goes on just behind the execution that died.
    ++crashes;
    hangs += sig == SIGKILL ? 1 : 0;
    if (hangs >= 6)
      shared->stop = 1;
    if (crashes < 40)
      start(slot, j, values);
  }
  // merge
  std::unordered_set<uint64_t> states;
  uint64_t ex = 0, pr = 0, tr = 0, ch = 0;
  bool complete = crashes == 0;
  std::vector<std::string> samples;
  for (const auto &b : bases) {
    std::ifstream is(b + ".stats");
    uint64_t a1, a2, a3, a4;
    int ok;
    if (is >> a1 >> a2 >> a3 >> a4 >> ok) {
      ex += a1;
      pr += a2;
      tr += a3;
      ch += a4;
      complete = complete && ok;
      std::string line;
      std::getline(is, line);
      while (std::getline(is, line))
        if (samples.size() < 24)
          samples.push_back(line);
    } else {
      complete = false;
    }
    std::ifstream hs(b + ".states", std::ios::binary);
    uint64_t h;
    while (hs.read(reinterpret_cast<char *>(&h), sizeof h))
      states.insert(h);
  }
  std::ofstream rep(out + "/report.json");
  rep << "{\"scenarios\":" << n_scen << ",\"executions\":" << ex
      << ",\"pruned\":" << pr << ",\"transitions\":" << tr
      << ",\"assertions\":" << ch << ",\"states\":" << states.size()
      << ",\"complete\":" << (complete ? "true" : "false")
      << ",\"wall_s\":" << now() - t0 << ",\"samples\":[";
  for (std::size_t i = 0; i < samples.size(); ++i)
    rep << (i ? "," : "") << "\"" << samples[i] << "\"";
  rep << "],\"violations\":[";
  bool first = true;
  std::vector<std::string> files;
  for (const auto &b : bases)
    files.push_back(b + ".viol");
  crash.close();
  files.push_back(out + "/crash.viol");
  for (const auto &f : files) {
    std::ifstream is(f);
    std::string line;
    while (std::getline(is, line)) {
      if (line.empty() || line.back() != '}')
        continue;
      rep << (first ? "" : ",") << "\n" << line;
      first = false;
    }
  }
  rep << "]}\n";
  rep.close();
  return 0;
}
