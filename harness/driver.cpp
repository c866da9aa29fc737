// Driver of the property-based checks: search, shrink, replay, evidence.  See pbt.h.
#include "pbt.h"
#include <iomanip>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#endif

extern const char *pbt_property_id;
extern const char *pbt_rule;

namespace pbt {

static std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c: s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char) c; }
    else if (c == '\n') o += "\\n";
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char) c;
  }
  return o + "\"";
}

struct Plan {
  struct Entry { int target; uint64_t first, count; };
  std::vector<Entry> entries;
  uint64_t total = 0;
};

static uint64_t case_seed(uint64_t seed, int target, uint64_t i) {
  uint64_t h = mix64(seed);
  for (char c: targets()[target].name) h = mix64(h ^ (unsigned char) c);
  return mix64(h ^ (i * 0x9e3779b97f4a7c15ULL));
}

enum Outcome { PASS = 0, FAILED = 1, DISCARD = 2 };

static Outcome run_case(int target, Src &s, std::string &msg) {
  try {
    targets()[target].fn(s);
    return PASS;
  } catch (const Failure &f) {
    msg = f.msg;
    return FAILED;
  } catch (const TooLong &) {
    return DISCARD;
  } catch (const std::exception &e) {
    msg = std::string("unexpected exception: ") + e.what();
    return FAILED;
  } catch (const char *e) {
    msg = std::string("unexpected exception: ") + e;
    return FAILED;
  } catch (...) {
    msg = "unexpected exception of unknown type";
    return FAILED;
  }
}

static std::string tmpdir;

static void silence(const std::string &errfile) {
  int n = open("/dev/null", O_WRONLY);
  dup2(n, 1);
  int e = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (e >= 0) dup2(e, 2); else dup2(n, 2);
}

static std::string tail_of(const std::string &file, size_t max = 1500) {
  std::ifstream f(file);
  std::string t((std::istreambuf_iterator<char>(f)), {});
  // keep the interesting line of a sanitizer report or an assertion
  for (const char *k: {"ERROR: AddressSanitizer", "runtime error:", "Assertion", "terminate called"}) {
    auto p = t.find(k);
    if (p != std::string::npos) return t.substr(p, 400);
  }
  if (t.size() > max) t = t.substr(t.size() - max);
  return t;
}

// Cases run in the same process before the case under examination: (target, seed of its choices).  A failure that only
// shows after others (state kept by the code from call to call) is replayed with the shortest such history found.
using History = std::vector<std::pair<int, uint64_t>>;
static History history;

// Runs one case, after `history`, in a child process; returns FAILED and a message, PASS, or DISCARD; -1 when it timed out.
static int run_isolated(int target, const std::vector<uint64_t> &seq, std::string &msg, std::string &desc,
                        std::vector<uint64_t> *used = nullptr, int timeout_s = 30) {
  int p[2];
  if (pipe(p) != 0) { perror("pipe"); exit(97); }
  std::string errfile = tmpdir + "/iso.err";
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    silence(errfile);
    for (auto &h: history) {
      Src before(h.second);
      std::string ignored;
      run_case(h.first, before, ignored);
    }
    Src s(seq);
    // the description and choices are sent even when the case ends the process
    static Src *gs;
    static int gfd;
    static pid_t gpid;
    gs = &s;
    gfd = p[1];
    gpid = getpid();
    static auto report = [](int o, const std::string &m) {
      if (getpid() != gpid) return;
      gpid = 0;
      std::ostringstream out;
      out << o << "\n" << m.size() << "\n" << m << "\n";
      std::string d = gs->desc.str();
      out << d.size() << "\n" << d << "\n";
      size_t n = std::min(gs->pos, gs->seq.size());
      out << n;
      for (size_t i = 0; i < n; ++i) out << " " << gs->seq[i];
      out << "\n";
      std::string t = out.str();
      size_t off = 0;
      while (off < t.size()) {
        ssize_t w = write(gfd, t.data() + off, t.size() - off);
        if (w <= 0) break;
        off += (size_t) w;
      }
    };
    atexit([] { report(9, ""); });
    struct sigaction sa{};
    sa.sa_handler = [](int sig) { report(9, ""); signal(sig, SIG_DFL); raise(sig); };
    sigaction(SIGABRT, &sa, nullptr);
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_set_death_callback([] { report(9, ""); });
#endif
    std::string m;
    Outcome o = run_case(target, s, m);
    report((int) o, m);
    _exit(0);
  }
  close(p[1]);
  std::string got;
  auto t0 = std::chrono::steady_clock::now();
  bool timed_out = false;
  fcntl(p[0], F_SETFL, O_NONBLOCK);
  int st = 0;
  for (;;) {
    char buf[65536];
    ssize_t n = read(p[0], buf, sizeof buf);
    if (n > 0) { got.append(buf, (size_t) n); continue; }
    if (n == 0) break;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > timeout_s) { timed_out = true; break; }
    usleep(200);
  }
  close(p[0]);
  if (timed_out) kill(pid, SIGKILL);
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (timed_out) { msg = "the case does not terminate (" + std::to_string(timeout_s) + " s)"; return -1; }
  auto died = [&] {
    std::ostringstream o;
    if (WIFSIGNALED(st)) o << "the process was killed by signal " << WTERMSIG(st);
    else o << "the process exited with status " << WEXITSTATUS(st) << " in the middle of the case";
    o << ": " << tail_of(errfile);
    msg = o.str();
    return (int) FAILED;
  };
  if (got.empty()) return died();
  std::istringstream in(got);
  int o;
  size_t n;
  in >> o >> n;
  in.get();
  msg.resize(n);
  in.read(&msg[0], (std::streamsize) n);
  in >> n;
  in.get();
  desc.resize(n);
  in.read(&desc[0], (std::streamsize) n);
  in >> n;
  if (used) {
    used->resize(n);
    for (auto &v: *used) in >> v;
  }
  if (o == 9) return died();
  return o;
}

// Cases that run other programs (compilers, git) are given more time before they are taken for hangs.
static int patience(int target) { return pbt::targets()[(size_t) target].fuzzable ? 1 : 5; }

// Shrinks a failing sequence.
static std::vector<uint64_t> shrink(int target, std::vector<uint64_t> best, bool hang, std::string &msg, std::string &desc, long &attempts) {
  auto t0 = std::chrono::steady_clock::now();
  attempts = 0;
  if (hang) return best;
  auto over = [&] { return attempts > 3000 || std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 60; };
  auto try_seq = [&](std::vector<uint64_t> c) {
    if (over()) return false;
    ++attempts;
    std::string m, d;
    std::vector<uint64_t> used;
    int r = run_isolated(target, c, m, d, &used, 10 * patience(target));
    if (r != FAILED) return false;
    if (!used.empty() && used.size() < c.size()) c = used;
    while (!c.empty() && c.back() == 0) c.pop_back();
    if (c.size() > best.size() || (c.size() == best.size() && !(c < best))) return false;
    best = c;
    msg = m;
    if (!d.empty()) desc = d;
    return true;
  };
  try_seq(best);
  bool progress = true;
  while (progress && !over()) {
    progress = false;
    // delete chunks
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && !over();) {
        auto c = best;
        c.erase(c.begin() + (long) i, c.begin() + (long) (i + len));
        if (try_seq(c)) progress = true; else i += len;
      }
      if (len == 1) break;
    }
    // zero chunks
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && !over(); i += len) {
        auto c = best;
        bool any = false;
        for (size_t k = i; k < i + len; ++k) { any |= c[k] != 0; c[k] = 0; }
        if (any && try_seq(c)) progress = true;
      }
      if (len == 1) break;
    }
    // minimise single values
    for (size_t i = 0; i < best.size() && !over(); ++i) {
      uint64_t lo = 0;
      while (i < best.size() && lo < best[i] && !over()) {
        auto c = best;
        uint64_t mid = lo + (best[i] - lo) / 2;
        c[i] = mid;
        if (try_seq(c)) progress = true; else lo = mid + 1;
      }
    }
  }
  return best;
}

struct Shared {
  volatile uint64_t cur[64];       // case being run by each worker, +1 (0: none)
  volatile uint64_t done[64];
  volatile uint64_t started_at[64];
};

static double now_s() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

int driver_main(int argc, char **argv, const char *property, const char *rule) {
  std::string tier = "quick", evidence, replay_out, replay_in, only;
  uint64_t seed = 1;
  int workers = 8;
  double scale = 1, budget = 1e9;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--evidence") evidence = val();
    else if (a == "--replay-out") replay_out = val();
    else if (a == "--replay") replay_in = val();
    else if (a == "--only") only = val();
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--list") { for (auto &t: targets()) printf("%s %d\n", t.name.c_str(), t.quick_cases); return 0; }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  workers = std::max(1, std::min(workers, 64));
  char tmpl[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; }
  tmpdir = tmpl;
  struct Cleaner {
    ~Cleaner() {
      for (int w = 0; w < 64; ++w) for (const char *x: {".err", ".out"}) unlink((tmpdir + "/w" + std::to_string(w) + x).c_str());
      unlink((tmpdir + "/iso.err").c_str());
      rmdir(tmpdir.c_str());
    }
  } cleaner;

  // ---- replay ------------------------------------------------------------------------------
  if (!replay_in.empty()) {
    std::ifstream f(replay_in);
    std::string line, tname;
    std::vector<uint64_t> seq;
    while (std::getline(f, line)) {
      if (line.rfind("before=", 0) == 0) {
        std::istringstream in(line.substr(7));
        std::string n;
        uint64_t v;
        if (in >> v >> n)
          for (size_t t = 0; t < targets().size(); ++t) if (targets()[t].name == n) history.push_back({(int) t, v});
      }
      if (line.rfind("target=", 0) == 0) tname = line.substr(7);
      if (line.rfind("choices=", 0) == 0) {
        std::istringstream in(line.substr(8));
        uint64_t v;
        while (in >> v) seq.push_back(v);
      }
    }
    for (size_t t = 0; t < targets().size(); ++t)
      if (targets()[t].name == tname) {
        std::string m, d;
        int r = run_isolated((int) t, seq, m, d, nullptr, 60 * patience((int) t));
        if (r == FAILED || r == -1) {
          printf("replay of %s fails: %s\n  case: %s\nVIOLATION property=%s replay=%s\n", tname.c_str(), m.c_str(), d.c_str(), property, replay_in.c_str());
          return 1;
        }
        printf("replay of %s passes (case: %s)\n", tname.c_str(), d.c_str());
        return 0;
      }
    fprintf(stderr, "replay: no target named '%s'\n", tname.c_str());
    return 2;
  }

  // ---- plan --------------------------------------------------------------------------------
  Plan plan;
  for (size_t t = 0; t < targets().size(); ++t) {
    if (!only.empty() && targets()[t].name != only) continue;
    double n = targets()[t].quick_cases * scale;
    if (tier == "thorough") n *= targets()[t].thorough_factor;
    uint64_t c = std::max<uint64_t>(1, (uint64_t) n);
    plan.entries.push_back({(int) t, plan.total, c});
    plan.total += c;
  }
  // the targets are interleaved, so that a run cut by the time budget still touches all of them
  std::vector<std::pair<double, std::pair<int, uint64_t>>> order;
  order.reserve(plan.total);
  for (auto &e: plan.entries)
    for (uint64_t i = 0; i < e.count; ++i) order.push_back({((double) i + 0.5) / (double) e.count, {e.target, i}});
  std::sort(order.begin(), order.end());
  auto locate = [&](uint64_t k) { return order[k].second; };

  double t0 = now_s();
  auto *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  size_t hbytes = (plan.total + 1) * sizeof(uint64_t);
  auto *hashes = (uint64_t *) mmap(nullptr, hbytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  memset((void *) sh, 0, sizeof *sh);

  uint64_t fail_case = UINT64_MAX;  // smallest failing case
  bool hang = false;
  fflush(stdout);
  std::vector<pid_t> pids(workers);
  for (int w = 0; w < workers; ++w) {
    pids[w] = fork();
    if (pids[w] == 0) {
      silence(tmpdir + "/w" + std::to_string(w) + ".err");
      std::map<std::string, uint64_t> labels;
      std::vector<std::string> samples;
      uint64_t discards = 0;
      std::map<int, int> sampled;
      bool failed = false, cut = false;
      for (uint64_t k = (uint64_t) w; k < plan.total; k += (uint64_t) workers) {
        auto loc = locate(k);
        sh->started_at[w] = (uint64_t) now_s();
        sh->cur[w] = k + 1;
        Src s(case_seed(seed, loc.first, loc.second));
        std::string m;
        Outcome o = run_case(loc.first, s, m);
        if (o == FAILED) { failed = true; break; }
        if (o == DISCARD) { discards++; sh->done[w] = sh->done[w] + 1; continue; }
        uint64_t h = mix64(0x1234567 + (uint64_t) loc.first);
        for (auto v: s.seq) h = mix64(h ^ v);
        hashes[k] = s.is_nontrivial ? (h | 1) : 0;
        std::string tn = targets()[loc.first].name;
        labels[tn + ":cases"]++;
        if (s.is_nontrivial) labels[tn + ":nontrivial"]++;
        std::set<std::string> seen;
        for (auto l: s.labels) seen.insert(l);
        for (auto &l: s.dyn_labels) seen.insert(l);
        for (auto &l: seen) labels[tn + ":" + l]++;
        if (s.is_nontrivial && sampled[loc.first] < 1) {
          sampled[loc.first]++;
          std::string d = s.desc.str();
          if (d.size() > 600) d = d.substr(0, 600) + "...";
          samples.push_back(tn + ": " + d);
        }
        sh->done[w] = sh->done[w] + 1;
        if (now_s() - t0 > budget) { cut = true; break; }
      }
      if (!failed) sh->cur[w] = 0;
      std::ofstream out(tmpdir + "/w" + std::to_string(w) + ".out");
      out << discards << " " << cut << "\n" << labels.size() << "\n";
      for (auto &l: labels) out << l.second << " " << l.first << "\n";
      out << samples.size() << "\n";
      for (auto &x: samples) { std::string y = x; for (auto &c: y) if (c == '\n') c = ' '; out << y << "\n"; }
      out.close();
      _exit(failed ? 3 : 0);
    }
  }
  // wait, watching for hangs (a case that runs for more than 120 s, or 600 s if it runs other programs, is examined separately)
  int alive = workers;
  while (alive > 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      usleep(2000);
      for (int w = 0; w < workers; ++w) {
        uint64_t c = sh->cur[w];
        if (pids[w] > 0 && c && now_s() - (double) sh->started_at[w] > 120 * patience(locate(c - 1).first)) {
          kill(pids[w], SIGKILL);
          hang = true;
        }
      }
      continue;
    }
    if (p < 0) { if (errno == EINTR) continue; break; }
    for (int w = 0; w < workers; ++w)
      if (pids[w] == p) {
        pids[w] = 0;
        --alive;
        bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (bad && sh->cur[w]) fail_case = std::min(fail_case, (uint64_t) sh->cur[w] - 1);
        else if (bad) { fprintf(stderr, "worker %d ended abnormally outside a case (status %d)\n", w, st); return 2; }
      }
  }

  // ---- collect -----------------------------------------------------------------------------
  uint64_t evaluations = 0, discards = 0;
  bool cut = false;
  for (int w = 0; w < workers; ++w) evaluations += sh->done[w];
  std::map<std::string, uint64_t> labels;
  std::map<std::string, std::string> samples;
  for (int w = 0; w < workers; ++w) {
    std::ifstream in(tmpdir + "/w" + std::to_string(w) + ".out");
    uint64_t d;
    int c;
    size_t n;
    if (!(in >> d >> c >> n)) continue;
    discards += d;
    cut |= c;
    std::string line;
    for (size_t i = 0; i < n; ++i) {
      uint64_t v;
      in >> v;
      in.get();
      std::getline(in, line);
      labels[line] += v;
    }
    in >> n;
    in.get();
    for (size_t i = 0; i < n; ++i) {
      std::getline(in, line);
      std::string key = line.substr(0, line.find(':'));
      if (!samples.count(key)) samples[key] = line;
    }
  }
  std::vector<uint64_t> hs;
  for (uint64_t k = 0; k < plan.total; ++k) if (hashes[k]) hs.push_back(hashes[k]);
  std::sort(hs.begin(), hs.end());
  hs.erase(std::unique(hs.begin(), hs.end()), hs.end());

  // ---- failure -----------------------------------------------------------------------------
  int violations = 0;
  std::string vmsg, vdesc;
  if (fail_case != UINT64_MAX) {
    auto loc = locate(fail_case);
    // regenerate the choices of the failing case: run it in a child that records them before dying
    std::vector<uint64_t> seq;
    {
      auto *buf = (uint64_t *) mmap(nullptr, sizeof(uint64_t) * 262144, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pid_t pid = fork();
      if (pid == 0) {
        silence(tmpdir + "/iso.err");
        Src s(case_seed(seed, loc.first, loc.second));
        s.rec = buf;
        std::string m;
        alarm(30 * patience(loc.first));
        run_case(loc.first, s, m);
        _exit(0);
      }
      int st;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      seq.assign(buf + 1, buf + 1 + buf[0]);
    }
    std::string m, d;
    int r = run_isolated(loc.first, seq, m, d, nullptr, (hang ? 60 : 30) * patience(loc.first));
    vmsg = m;
    vdesc = d;
    long attempts = 0;
    if (r == PASS || r == DISCARD) {
      // it does not fail on its own: run it after the cases its worker had run before it, then with fewer and fewer of them
      History all;
      for (uint64_t k = fail_case % (uint64_t) workers; k < fail_case; k += (uint64_t) workers)
        all.push_back({locate(k).first, case_seed(seed, locate(k).first, locate(k).second)});
      double h0 = now_s();
      auto fails = [&](const History &h) {
        history = h;
        std::string m2, d2;
        int r2 = run_isolated(loc.first, seq, m2, d2, nullptr, 200);
        if (r2 == FAILED) { vmsg = m2; if (!d2.empty()) vdesc = d2; }
        return r2 == FAILED;
      };
      History best;
      bool found = false;
      for (size_t n = 1; !found && now_s() - h0 < 150; n *= 2) {
        History h(all.end() - (long) std::min(n, all.size()), all.end());
        if (fails(h)) { best = h; found = true; }
        if (n >= all.size()) break;
      }
      if (!found && fails(all)) { best = all; found = true; }
      if (found) {
        for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
          for (size_t i = 0; i + len <= best.size() && now_s() - h0 < 200;) {
            History h = best;
            h.erase(h.begin() + (long) i, h.begin() + (long) (i + len));
            if (fails(h)) best = h; else i += len;
          }
          if (len == 1) break;
        }
        history = best;
        r = FAILED;
      } else history.clear();
    }
    if (r == FAILED || r == -1) seq = shrink(loc.first, seq, r == -1, vmsg, vdesc, attempts);
    int confirmed = 0;
    for (int i = 0; i < 3; ++i) {
      std::string m2, d2;
      int r2 = run_isolated(loc.first, seq, m2, d2, nullptr, (r == -1 ? 60 : 30) * patience(loc.first));
      if (r2 == FAILED || (r == -1 && r2 == -1)) { confirmed++; if (!m2.empty()) vmsg = m2; if (!d2.empty()) vdesc = d2; }
    }
    if (confirmed == 3) {
      violations = 1;
      std::string path = replay_out.empty() ? "replay.txt" : replay_out;
      std::ofstream f(path);
      f << "property=" << property << "\ntarget=" << targets()[loc.first].name << "\nseed=" << seed << "\n";
      for (auto &h: history) f << "before=" << h.second << " " << targets()[(size_t) h.first].name << "\n";
      f << "choices=";
      for (auto v: seq) f << v << " ";
      std::string m1 = vmsg, d1 = vdesc;
      for (auto *x: {&m1, &d1}) for (auto &c: *x) if (c == '\n') c = ' ';
      f << "\nmessage=" << m1 << "\ncase=" << d1 << "\nreplay with=checks/run.sh " << property << " replay " << path << "\n";
      f.close();
      if (!history.empty()) printf("the failure needs %zu case(s) run before it in the same process\n", history.size());
      printf("target %s, case %llu (shrunk in %ld attempts to %zu choices)\n  %s\n  case: %s\n", targets()[loc.first].name.c_str(),
             (unsigned long long) loc.second, attempts, seq.size(), vmsg.c_str(), vdesc.c_str());
      printf("VIOLATION property=%s replay=%s\n", property, path.c_str());
    } else {
      printf("a failure of target %s did not reproduce (%d/3): not reported as a violation: %s\n", targets()[loc.first].name.c_str(), confirmed, vmsg.c_str());
      return 2;
    }
  }

  double wall = now_s() - t0;
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    f << "{\n \"property\": " << jstr(property) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evaluations << ",\n  \"distinct_nontrivial\": " << hs.size()
      << ",\n  \"planned\": " << plan.total << ",\n  \"discarded\": " << discards << ",\n  \"cut_by_time_budget\": " << (cut ? "true" : "false")
      << ",\n  \"rule\": " << jstr(rule) << ",\n  \"classes\": {";
    bool first = true;
    for (auto &l: labels) { f << (first ? "" : ",") << "\n   " << jstr(l.first) << ": " << l.second; first = false; }
    f << "\n  },\n  \"samples\": [";
    first = true;
    for (auto &x: samples) { f << (first ? "" : ",") << "\n   " << jstr(x.second); first = false; }
    f << "\n  ]\n },\n \"assumptions\": [\"g++ 13 / Eigen 3.4 / Boost 1.83 as installed; headers taken from /repo/src at check time; IEEE-754 double\"],\n \"wall_s\": "
      << std::fixed << std::setprecision(2) << wall << ",\n \"violations\": " << violations << "\n}\n";
  }
  printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %.1f s%s\n", property, tier.c_str(), (unsigned long long) seed,
         (unsigned long long) evaluations, hs.size(), wall, cut ? " (cut by the time budget)" : "");
  return violations ? 1 : 0;
}

}  // namespace pbt

int main(int argc, char **argv) { return pbt::driver_main(argc, argv, pbt_property_id, pbt_rule); }
