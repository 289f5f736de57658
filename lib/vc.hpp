// vc.hpp - stateless model checking engine: exhaustive depth-first enumeration of
// every sequence of choices a harness body makes, on the real code.
//   * vc::choose(n) is the only source of nondeterminism; the engine explores all values.
//   * worker processes explore disjoint subtrees; a crash (signal, abort, sanitizer) is a
//     violation attributed to the exact choice sequence and exploration goes on behind it.
//   * every violation carries its choice sequence, which `--replay FILE` re-executes alone.
#pragma once
#include <algorithm>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>

namespace vc {
struct Failure { std::string key, msg; };
struct Prune {};
struct SkipUnit {};

constexpr int MAXD = 4096;
struct Shm {
  volatile uint64_t execs, steps, nontrivial, progress, units;
  volatile int depth;
  uint32_t c[MAXD], a[MAXD];
  char note[16384];
  volatile int notelen;
  char ctx[512];
  volatile uint64_t unitIndex;
  volatile int done;
};
struct Options {
  int splitDepth = 2;
  bool forkEach = false;   // every execution in a process of its own
  int hangSeconds = 120;
  int workers = 8;
  const char *rule = "";
};
inline Shm *S;
inline std::vector<std::pair<uint32_t, uint32_t>> G_seq; // (choice, arity) prefix to follow
inline size_t G_pos;
inline bool G_replay, G_fresh, G_owned = true;
inline int G_split = 2, G_tier = 0;
inline std::unordered_set<uint64_t> G_states;
inline uint64_t G_statecap = 20000000;
inline bool thorough() { return G_tier == 1; }

inline void vnote(const char *f, va_list ap) {
  int n = S->notelen;
  if (n > (int)sizeof(S->note) - 300) return;
  int k = vsnprintf(S->note + n, sizeof(S->note) - n - 2, f, ap);
  if (k < 0) return;
  if (k > (int)sizeof(S->note) - n - 3) k = sizeof(S->note) - n - 3;
  S->note[n + k] = '\n'; S->note[n + k + 1] = 0;
  S->notelen = n + k + 1;
}
__attribute__((format(printf, 1, 2))) inline void note(const char *f, ...) {
  va_list ap; va_start(ap, f); vnote(f, ap); va_end(ap);
}
// identifies the input/call site for known findings and crash keys
__attribute__((format(printf, 1, 2))) inline void ctx(const char *f, ...) {
  va_list ap; va_start(ap, f); vsnprintf(S->ctx, sizeof(S->ctx), f, ap); va_end(ap);
}
inline void step(int n = 1) { S->steps = S->steps + n; }
inline bool G_nontriv;
inline void nontrivial() { G_nontriv = true; }
inline void state(uint64_t h) { if (G_states.size() < G_statecap) G_states.insert(h); }
inline uint64_t hash(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
inline uint64_t hash(const std::string &s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
[[noreturn]] __attribute__((format(printf, 2, 3))) inline void fail(const char *key, const char *f, ...) {
  char buf[8192]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  throw Failure{key, buf};
}
#define VC_CHECK(cond, key, ...) do { if (!(cond)) vc::fail(key, __VA_ARGS__); } while (0)
[[noreturn]] inline void prune() { throw Prune{}; }

inline uint32_t choose(uint32_t n) {
  if (n == 0) throw Prune{};
  S->progress = S->progress + 1;
  if (!G_replay && (int)G_pos == G_split && !G_owned) throw SkipUnit{};
  uint32_t v;
  if (G_pos < G_seq.size()) {
    v = G_seq[G_pos].first;
    if (!G_replay && G_seq[G_pos].second != n) { fprintf(stderr, "vc: nondeterministic harness: arity %u vs %u at %zu\n%s", G_seq[G_pos].second, n, G_pos, S->note); _exit(77); }
    G_seq[G_pos].second = n;
    if (v >= n) { fprintf(stderr, "vc: bad replay choice\n"); _exit(77); }
  } else { v = 0; G_seq.push_back({0, n}); }
  if (G_pos < MAXD) { S->c[G_pos] = v; S->a[G_pos] = n; S->depth = G_pos + 1; }
  G_pos++;
  return v;
}
template <class T> inline const T &pick(const std::vector<T> &v) { return v[choose(v.size())]; }
template <class T> inline T pick(std::initializer_list<T> v) { return *(v.begin() + choose(v.size())); }
inline bool flip() { return choose(2); }

// advance G_seq to the next unexplored sequence; returns false if exhausted; sets unit counter
inline bool advance() {
  while (!G_seq.empty()) {
    auto &b = G_seq.back();
    if (b.first + 1 < b.second) {
      b.first++;
      if ((int)G_seq.size() - 1 < G_split) S->unitIndex = S->unitIndex + 1;
      return true;
    }
    G_seq.pop_back();
  }
  return false;
}
inline std::string jstr(const std::string &s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Viol { std::string key, msg, note; std::vector<uint32_t> seq; uint64_t count = 1; };
inline std::string violJson(const Viol &v) {
  std::string o = "{\"key\":" + jstr(v.key) + ",\"msg\":" + jstr(v.msg) + ",\"note\":" + jstr(v.note) + ",\"seq\":[";
  for (size_t i = 0; i < v.seq.size(); i++) o += (i ? "," : "") + std::to_string(v.seq[i]);
  return o + "],\"count\":" + std::to_string(v.count) + "}";
}
inline void beginExec() {
  G_pos = 0; S->depth = 0; S->notelen = 0; S->note[0] = 0; S->ctx[0] = 0; G_nontriv = false;
}
// 0 ok, 1 pruned, 2 skipped, 3 failed
inline int runOnce(const std::function<void()> &body, Viol *out) {
  beginExec();
  try { body(); return 0; }
  catch (Prune &) { return 1; }
  catch (SkipUnit &) { return 2; }
  catch (Failure &f) {
    out->key = f.key; out->msg = f.msg; out->note = S->note; out->seq.clear();
    for (size_t i = 0; i < G_pos && i < G_seq.size(); i++) out->seq.push_back(G_seq[i].first);
    return 3;
  } catch (std::exception &e) {
    out->key = std::string("exception:") + S->ctx; out->msg = std::string("uncaught exception: ") + e.what(); out->note = S->note; out->seq.clear();
    for (size_t i = 0; i < G_pos && i < G_seq.size(); i++) out->seq.push_back(G_seq[i].first);
    return 3;
  }
}
inline Shm *mapShm() {
  void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset(p, 0, sizeof(Shm));
  return (Shm *)p;
}
inline std::string slurp(const std::string &f, size_t cap = 20000) {
  std::string r; FILE *p = fopen(f.c_str(), "r"); if (!p) return r;
  char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, p)) > 0 && r.size() < cap) r.append(b, n);
  fclose(p); return r;
}
inline std::string crashKey(int status, const std::string &err) {
  std::string k;
  size_t p = err.find("SUMMARY: ");
  if (p != std::string::npos) {
    // "SUMMARY: AddressSanitizer: heap-buffer-overflow file:line in func"
    std::string l = err.substr(p + 9, err.find('\n', p) - p - 9);
    size_t c = l.find(": "); std::string kind = c == std::string::npos ? l : l.substr(c + 2);
    kind = kind.substr(0, kind.find(' '));
    size_t in = l.rfind(" in "); std::string fn = in == std::string::npos ? "" : l.substr(in + 4);
    k = "sanitizer:" + kind + (fn.empty() ? "" : ":" + fn);
  } else if (WIFSIGNALED(status)) k = std::string("crash:") + strsignal(WTERMSIG(status));
  else k = "exit:" + std::to_string(WEXITSTATUS(status));
  return k;
}

inline int main(int argc, char **argv, const Options &opt, const std::function<void()> &body) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  std::string outFile, replayFile, scratch = "/tmp"; double budget = 780; int W = opt.workers;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    if (s == "--out") outFile = argv[++i];
    else if (s == "--replay") replayFile = argv[++i];
    else if (s == "--tier") G_tier = !strcmp(argv[++i], "thorough");
    else if (s == "--budget") budget = atof(argv[++i]);
    else if (s == "--workers") W = atoi(argv[++i]);
    else if (s == "--scratch") scratch = argv[++i];
  }
  G_split = opt.splitDepth;
  if (!replayFile.empty()) {
    S = mapShm(); G_replay = true;
    std::string t = slurp(replayFile, 1 << 20);
    const char *p = strstr(t.c_str(), "seq:"); if (!p) { fprintf(stderr, "no seq in %s\n", replayFile.c_str()); return 2; }
    p += 4; char *e; 
    while (true) { while (*p == ' ' || *p == ',') p++; long v = strtol(p, &e, 10); if (e == p) break; G_seq.push_back({(uint32_t)v, 0}); p = e; }
    Viol v; int r = runOnce(body, &v);
    fprintf(stderr, "%s", S->note);
    if (r == 3) { fprintf(stderr, "FAIL %s: %s\n", v.key.c_str(), v.msg.c_str()); return 1; }
    fprintf(stderr, "no violation on replay\n"); return 0;
  }
  double t0 = now();
  std::vector<pid_t> sup(W); std::vector<Shm *> sh(W);
  // once something is violated the search goes on only for a while
  static volatile double *firstViol = (volatile double *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); *firstViol = 0;
  auto over = [&] { double t = now(); return t - t0 > budget || (*firstViol && t - *firstViol > (G_tier ? 900 : 40)); };
  for (int w = 0; w < W; w++) sh[w] = mapShm();
  for (int w = 0; w < W; w++) {
    pid_t p = fork();
    if (p) { sup[w] = p; continue; }
    // supervisor of shard w
    S = sh[w]; Shm *my = S;
    std::string vf = scratch + "/viol." + std::to_string(w), ef = scratch + "/err." + std::to_string(w), sf = scratch + "/states." + std::to_string(w), pf = scratch + "/samples." + std::to_string(w);
    FILE *vfp = fopen(vf.c_str(), "w");
    std::map<std::string, uint64_t> seen; uint64_t total = 0, crashes = 0; bool complete = false, stop = false, first = true, internal = false;
    auto record = [&](Viol &v) {
      total++;
      if (seen[v.key]++ < 3) { fprintf(vfp, "%s\n", violJson(v).c_str()); fflush(vfp); }
      if (seen.size() > 40 || total > 20000) stop = true;
    };
    (void)first;
    while (!stop) {
      // child explores from G_seq (already positioned) until the space is exhausted or it crashes
      int pp[2]; if (pipe(pp)) _exit(70);
      pid_t c = fork();
      if (c == 0) {
        close(pp[0]);
        int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1); close(fd);
        FILE *vp = fdopen(pp[1], "w"); FILE *sp = fopen(pf.c_str(), "a"); int ns = 0; uint64_t nextSample = 0;
        std::map<std::string, uint64_t> cseen;
        while (true) {
          G_owned = (S->unitIndex % W) == (uint64_t)w;
          Viol v; int r;
          r = runOnce(body, &v);
          bool counted = r != 2 && G_owned;
          if (r == 2) G_seq.resize(G_split);
          else G_seq.resize(G_pos);
          if (counted && r != 1) {
            S->execs = S->execs + 1; if (G_nontriv) S->nontrivial = S->nontrivial + 1;
            if (sp && ns < 4 && S->execs >= nextSample) { fprintf(sp, "%s%c", S->note, 0); ns++; nextSample = S->execs * 17 + 3; }
          }
          if (r == 3 && counted) { if (!*firstViol) *firstViol = now();
            if (++cseen[v.key] <= 200) { fprintf(vp, "%s\n", (v.key).c_str()); 
              std::string j = violJson(v); fprintf(vp, "%s\n", j.c_str()); fflush(vp); }
          }
          S->progress = S->progress + 1;
          if (opt.forkEach) { S->done = 2; break; }
          if (!advance()) { S->done = 1; break; }
          if (over()) { S->done = 3; break; }
        }
        if (sp) fclose(sp);
        if (S->done != 2 || !G_states.empty()) { FILE *st = fopen(sf.c_str(), "ab"); if (st) { for (uint64_t h : G_states) fwrite(&h, 8, 1, st); fclose(st); } }
        fflush(vp); fclose(vp);
        _exit(0);
      }
      close(pp[1]);
      // watch
      uint64_t lastp = my->progress; double lastt = now(); bool hung = false; std::string acc; char b[65536]; int status = 0; bool eof = false;
      while (true) {
        struct pollfd pf{pp[0], POLLIN, 0};
        int pr = eof ? 0 : poll(&pf, 1, 1000);
        if (pr > 0) { ssize_t n = read(pp[0], b, sizeof b); if (n > 0) acc.append(b, n); else eof = true; }
        if (eof || pr == 0) {
          pid_t q = waitpid(c, &status, eof ? 0 : WNOHANG);
          if (q == c) break;
        }
        if (my->progress != lastp) { lastp = my->progress; lastt = now(); }
        else if (now() - lastt > opt.hangSeconds) { hung = true; kill(c, SIGKILL); waitpid(c, &status, 0); break; }
      }
      // drain
      while (!eof) { ssize_t n = read(pp[0], b, sizeof b); if (n > 0) acc.append(b, n); else break; }
      close(pp[0]);
      { size_t i = 0; while (i < acc.size()) {
          size_t e1 = acc.find('\n', i); if (e1 == std::string::npos) break; size_t e2 = acc.find('\n', e1 + 1); if (e2 == std::string::npos) break;
          std::string key = acc.substr(i, e1 - i); total++; if (seen[key]++ < 3) { fprintf(vfp, "%s\n", acc.substr(e1 + 1, e2 - e1 - 1).c_str()); fflush(vfp); }
          i = e2 + 1; }
        if (seen.size() > 40 || total > 20000) stop = true; }
      // recover the position reached by the child
      G_seq.clear(); for (int i = 0; i < my->depth && i < MAXD; i++) G_seq.push_back({my->c[i], my->a[i]});
      bool died = hung || !WIFEXITED(status) || WEXITSTATUS(status) != 0;
      if (died && WIFEXITED(status) && WEXITSTATUS(status) == 77) { internal = true; break; }
      if (died) {
        std::string err = slurp(ef, 100000);
        Viol v; v.key = (hung ? std::string("hang") : crashKey(status, err)) + (my->ctx[0] ? std::string("@") + my->ctx : "");
        v.msg = hung ? "no progress (hang)" : "process died: " + crashKey(status, err) + "\n" + err.substr(0, 3000);
        v.note = my->note; for (auto &x : G_seq) v.seq.push_back(x.first);
        bool owned = (my->unitIndex % W) == (uint64_t)w;
        if (owned) { if (!*firstViol) *firstViol = now(); my->execs = my->execs + 1; record(v); if (++crashes > 40) stop = true; }
        my->done = 0;
        if (!advance()) { complete = true; break; }
      } else if (my->done == 1) { complete = true; break; }
      else if (my->done == 2) {
        my->done = 0;
        // skipped units leave depth == split
        if (!advance()) { complete = true; break; }
      } else break;
      if (over()) break;
    }
    fclose(vfp);
    _exit(internal ? 77 : complete ? 0 : 3);
  }
  bool exhaustive = true, internal = false;
  for (int w = 0; w < W; w++) {
    int st; waitpid(sup[w], &st, 0);
    if (!WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) internal = true;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) exhaustive = false;
  }
  uint64_t ex = 0, st = 0, nt = 0; std::vector<uint64_t> hs; std::string viols, samples;
  for (int w = 0; w < W; w++) {
    ex += sh[w]->execs; st += sh[w]->steps; nt += sh[w]->nontrivial;
    FILE *f = fopen((scratch + "/states." + std::to_string(w)).c_str(), "rb");
    if (f) { uint64_t h; while (fread(&h, 8, 1, f) == 1) hs.push_back(h); fclose(f); }
    std::string v = slurp(scratch + "/viol." + std::to_string(w), 1 << 24); viols += v;
    if (w < 3) samples += slurp(scratch + "/samples." + std::to_string(w), 6000);
  }
  std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
  std::string o = "{\"executions\":" + std::to_string(ex) + ",\"steps\":" + std::to_string(st) + ",\"nontrivial\":" + std::to_string(nt) + ",\"states\":" + std::to_string(hs.size()) +
      ",\"exhaustive\":" + (exhaustive && !internal ? "true" : "false") + ",\"internal_error\":" + (internal ? "true" : "false") + ",\"rule\":" + jstr(opt.rule) + ",\"wall\":" + std::to_string(now() - t0) + ",\"samples\":[";
  { size_t i = 0; int k = 0; while (i < samples.size() && k < 6) { size_t e = samples.find('\0', i); if (e == std::string::npos) break; o += (k ? "," : "") + jstr(samples.substr(i, std::min<size_t>(e - i, 1500))); i = e + 1; k++; } }
  o += "],\"violations\":[";
  { size_t i = 0; bool f = true; while (i < viols.size()) { size_t e = viols.find('\n', i); if (e == std::string::npos) break; o += (f ? "" : ",") + viols.substr(i, e - i); f = false; i = e + 1; } }
  o += "]}\n";
  if (outFile.empty()) fputs(o.c_str(), stdout);
  else { FILE *f = fopen(outFile.c_str(), "w"); fputs(o.c_str(), f); fclose(f); }
  return internal ? 2 : 0;
}
} // namespace vc
