// Command line: search a range of seeds, minimise and record a violation, replay one.
#include "exec.hpp"
#include "gen.hpp"
#include <algorithm>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace pg;

static rt::Result *R; // shared with the children
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Out {
  int cls = 0, op = -1;
  std::string msg;
  uint64_t hash = 0, obs = 0, sched = 0;
  bool killed = false;
};

// one execution in a process of its own
static Out run_once(const Case &c, const rt::HeapCfg &heap) {
  memset(R, 0, offsetof(rt::Result, sw));
  memset(R->op_allocs, 0, sizeof R->op_allocs);
  memset(R->op_obs, 0, sizeof R->op_obs);
  R->note[0] = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { perror("fork"); _exit(2); }
  if (p == 0) {
    signal(SIGTERM, SIG_DFL);
    rt::Cfg g;
    g.sched = c.sched;
    g.heap = heap;
    g.faults = c.faults;
    g.call_cap = gn::call_cap(c);
    g.cls_mask = gn::cls_mask(c.prop);
    g.stack_bytes = (size_t)c.P("stack_kb", 1024) << 10;
    rt::install_crash_handlers();
    rt::begin_run(g, R);
    ex::run_case(c);
    rt::fail(rt::V_NONE, "");
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  Out o;
  if (!R->done) {
    o.cls = rt::V_HARNESS;
    o.killed = true;
    char b[100];
    snprintf(b, sizeof b, "the simulation process ended unexpectedly (status %x)", st);
    o.msg = b;
    return o;
  }
  o.cls = R->cls;
  o.op = R->op;
  o.msg = R->msg;
  o.hash = R->hash;
  o.obs = R->obs_hash;
  o.sched = R->sched_hash;
  return o;
}

static const Op *op_by_id(const Case &c, int id) {
  for (auto &o : c.ops) if (o.id == id) return &o;
  return nullptr;
}

// one case: for heap comparisons this is several executions
static Out run_case(const Case &c, std::vector<uint64_t> *ctr = nullptr) {
  auto add = [&] { if (ctr) for (int i = 0; i < rt::N_CTRS; ++i) (*ctr)[i] += R->ctr[i]; };
  Out o = run_once(c, c.heap);
  add();
  if (o.cls || c.heaps.empty()) return o;
  auto obs0 = std::make_unique<uint64_t[]>(rt::MAX_OPS);
  memcpy(obs0.get(), R->op_obs, sizeof R->op_obs);
  for (auto &h : c.heaps) {
    Out p = run_once(c, h);
    add();
    p.hash ^= o.hash * 3;
    if (p.cls) return p;
    if (p.obs != o.obs) {
      int id = -1;
      for (auto &q : c.ops) if (R->op_obs[q.id] != obs0[q.id]) { id = q.id; break; }
      p.cls = rt::V_HEAPDEP;
      p.op = id;
      const Op *q = id >= 0 ? op_by_id(c, id) : nullptr;
      char b[400];
      snprintf(b, sizeof b, "the same program observes something else when fresh memory has other contents or lies elsewhere (heap reuse %d fill %d against reuse %d fill %d); first at %s",
               c.heap.reuse, c.heap.fill, h.reuse, h.fill, q ? show(*q).c_str() : "the end");
      p.msg = b;
      return p;
    }
    o.hash = p.hash;
  }
  return o;
}

// ---- minimisation ----------------------------------------------------------------------------
static volatile sig_atomic_t stop_now;
static void on_term(int) { stop_now = 1; }

struct Min {
  int cls;
  double until;
  int tried = 0;
  bool fails(const Case &c) {
    if (stop_now || now() > until) return false;
    ++tried;
    return run_case(c).cls == cls;
  }
  template <class V, class Set> void ddmin(Case &c, V get, Set set) {
    auto items = get(c);
    size_t chunk = std::max<size_t>(1, items.size() / 2);
    while (!items.empty() && now() < until) {
      bool any = false;
      for (size_t i = 0; i < items.size();) {
        auto t = items;
        t.erase(t.begin() + (long)i, t.begin() + (long)std::min(items.size(), i + chunk));
        Case d = c;
        set(d, t);
        if (fails(d)) { items = t; c = d; any = true; }
        else i += chunk;
        if (now() > until) break;
      }
      if (chunk == 1 && !any) break;
      if (chunk > 1) chunk = std::max<size_t>(1, chunk / 2);
    }
  }
};

static void minimise(Case &c, int cls, double seconds) {
  Min m{cls, now() + seconds};
  double end = m.until;
  auto gops = [](Case &x) { return x.ops; };
  auto sops = [](Case &x, const std::vector<Op> &v) { x.ops = v; };
  auto gf = [](Case &x) { return x.faults; };
  auto sf = [](Case &x, const std::vector<rt::Fault> &v) { x.faults = v; };
  // explicit schedule
  auto to_script = [&] {
    if (c.strands > 1 && !c.sched.replay) {
      Out o = run_case(c);
      if (o.cls == cls && R->n_sw <= rt::MAX_SW && c.heaps.empty()) {
        Case d = c;
        d.sched.replay = true;
        d.sched.script.assign(R->sw, R->sw + R->n_sw);
        if (m.fails(d)) c = d;
      }
    }
  };
  // fewer callers' programs first, with the seeded scheduler
  for (int s = c.strands - 1; s >= 0 && c.ops.size() > 4; --s) {
    Case d = c;
    d.ops.erase(std::remove_if(d.ops.begin(), d.ops.end(), [&](const Op &o) { return o.strand == s; }), d.ops.end());
    if (d.ops.size() < c.ops.size() && m.fails(d)) c = d;
  }
  if (c.rounds > 3) { Case d = c; d.rounds = 3; if (m.fails(d)) c = d; }
  to_script();
  m.until = std::min(end, now() + seconds * 0.5);
  m.ddmin(c, gops, sops);
  m.until = end;
  m.ddmin(c, gf, sf);
  { Case d = c; d.heap.fill = rt::G_NOISE; d.heap.reuse = rt::R_NEVER; if (c.heaps.empty() && m.fails(d)) c = d; }
  while (c.heaps.size() > 1) {
    bool any = false;
    for (size_t i = 0; i < c.heaps.size() && !any; ++i) {
      Case d = c;
      d.heaps.erase(d.heaps.begin() + (long)i);
      if (m.fails(d)) { c = d; any = true; }
    }
    if (!any) break;
  }
  if (c.sched.replay) {
    m.ddmin(c, [](Case &x) { return x.sched.script; }, [](Case &x, const std::vector<rt::Switch> &v) { x.sched.script = v; });
    m.ddmin(c, gops, sops);
  } else
    m.ddmin(c, gops, sops);
  for (const char *k : {"n", "el", "var"}) { // scenario sizes
    auto it = c.par.find(k);
    if (it == c.par.end() || c.scen == "draws") continue;
    for (int i = 0; i < 8; ++i) {
      Case d = c;
      d.par[k] = k[0] == 'n' ? std::max(12L, d.par[k] / 2) : 1 * (k[0] == 'e');
      if (d.par[k] == c.par[k] || !m.fails(d)) break;
      c = d;
    }
  }
}

static std::string replay_text(const Case &c, const Out &o, const Case &orig) {
  std::ostringstream s;
  s << "# INNC simulation replay\n# property " << c.prop << ", found with seed " << c.seed << "\n# violation: " << rt::cls_name(o.cls) << "\n";
  std::istringstream m(o.msg);
  std::string l;
  while (std::getline(m, l)) s << "# " << l << "\n";
  s << "# calls " << c.ops.size() << " (of " << orig.ops.size() << "), faults " << c.faults.size() << " (of " << orig.faults.size() << "), forced switches " << c.sched.script.size() << "\n";
  std::istringstream p(summary(c, 200));
  while (std::getline(p, l)) s << "#   " << l << "\n";
  s << "expect " << o.cls << " " << std::hex << o.hash << std::dec << "\n";
  s << to_text(c);
  return s.str();
}

static std::string json(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += (char)ch;
  }
  return r + "\"";
}

static int replay(const char *file, bool verbose) {
  std::ifstream f(file);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string t = ss.str(), line, rest;
  int ecls = -1;
  uint64_t eh = 0;
  std::istringstream in(t);
  while (std::getline(in, line)) {
    if (line.rfind("expect ", 0) == 0) sscanf(line.c_str(), "expect %d %lx", &ecls, &eh);
    else rest += line + "\n";
  }
  Case c;
  if (!from_text(rest, c)) { fprintf(stderr, "cannot read %s\n", file); return 2; }
  Out o = run_case(c);
  if (verbose) {
    printf("class %s\nhash %lx%s\n%s\n", rt::cls_name(o.cls), o.hash, o.hash == eh ? " (as recorded)" : " (differs from the recording)", o.msg.c_str());
    if (o.cls) printf("%s", summary(c, 200).c_str());
    if (R->n_foreign) printf("[not judged here] %s: %s\n", rt::cls_name(R->foreign_cls), R->foreign_msg);
  }
  if (o.cls == rt::V_HARNESS) return 2;
  return o.cls ? (o.cls == ecls && (o.hash == eh || !eh) ? 1 : 3) : 0;
}

// place faults with the help of a fault-free run of the same case
static Out prepare_and_run(Case &c, std::vector<uint64_t> &ctr, int &probes) {
  if (gn::wants_faults(c)) {
    Out o = run_case(c, &ctr);
    ++probes;
    if (o.cls) return o;
    auto al = std::make_unique<uint32_t[]>(rt::MAX_OPS);
    memcpy(al.get(), R->op_allocs, sizeof R->op_allocs);
    gn::place_faults(c, al.get());
  }
  return run_case(c, &ctr);
}


static const char *arg(int n, char **v, const char *name, const char *dflt) {
  for (int i = 0; i + 1 < n; ++i) if (!strcmp(v[i], name)) return v[i + 1];
  return dflt;
}

int main(int argc, char **argv) {
  if (!getenv("SIM_NOASLR")) { // addresses are part of an execution
    setenv("SIM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  struct rlimit rl { 0, 0 };
  setrlimit(RLIMIT_CORE, &rl);
  if (argc < 3) { fprintf(stderr, "usage: sim batch PROP --base N --first I --step K --count N --seconds S --replay-dir D | replay FILE | hashes PROP ... | show PROP SEED\n"); return 2; }
  R = (rt::Result *)mmap(nullptr, sizeof(rt::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  rt::init_process();
  su::warm_up();
  std::string mode = argv[1];
  if (mode == "replay") return replay(argv[2], true);
  std::string prop = argv[2];
  uint64_t base = strtoull(arg(argc, argv, "--base", "1"), nullptr, 10);
  long first = atol(arg(argc, argv, "--first", "0")), step = atol(arg(argc, argv, "--step", "1")), cnt = atol(arg(argc, argv, "--count", "100"));
  double secs = atof(arg(argc, argv, "--seconds", "600"));
  std::string dir = arg(argc, argv, "--replay-dir", ".");
  auto seed_of = [&](long i) { return base * 10000000ull + (uint64_t)i; };
  if (mode == "show" || mode == "one") {
    Case c = gn::generate(prop, strtoull(argv[3], nullptr, 10));
    std::vector<uint64_t> ctr(rt::N_CTRS, 0);
    int pr = 0;
    Out o = prepare_and_run(c, ctr, pr);
    if (mode == "show") printf("%s", summary(c, 500).c_str());
    printf("class %s hash %lx obs %lx\n%s\n", rt::cls_name(o.cls), o.hash, o.obs, o.msg.c_str());
    if (R->n_foreign) printf("[not judged] %s: %s\n", rt::cls_name(R->foreign_cls), R->foreign_msg);
    for (int i = 0; i < rt::N_CTRS; ++i) if (ctr[i]) printf("  %s %lu\n", rt::ctr_names[i], ctr[i]);
    if (argc > 4) { std::ofstream f(argv[4]); f << to_text(c); }
    return 0;
  }
  if (mode == "hashes") {
    for (long i = first; i < cnt; i += step) {
      Case c = gn::generate(prop, seed_of(i));
      std::vector<uint64_t> ctr(rt::N_CTRS, 0);
      int pr = 0;
      Out o = prepare_and_run(c, ctr, pr);
      printf("%s %lu %d %lx %lx %lx\n", prop.c_str(), seed_of(i), o.cls, o.hash, o.obs, o.sched);
    }
    return 0;
  }
  if (mode == "fixed") { // a recorded history, by name
    Case c;
    c.prop = prop;
    c.scen = argv[3];
    c.seed = 0;
    c.heap.reuse = rt::R_NEVER;
    Out o = run_case(c);
    std::string note = R->note, path;
    if (o.cls && o.cls != rt::V_HARNESS) {
      Out o2 = run_case(c);
      if (o2.cls != o.cls || o2.hash != o.hash) o.cls = rt::V_HARNESS;
      path = dir + "/" + prop + "-" + c.scen + ".replay";
      std::ofstream f(path);
      f << replay_text(c, o, c);
    }
    printf("{\"cls\":%s,\"msg\":%s,\"note\":%s,\"replay\":%s,\"steps\":%lu}\n", json(rt::cls_name(o.cls)).c_str(), json(o.msg).c_str(), json(note).c_str(), json(path).c_str(), (unsigned long)R->ctr[rt::N_STEPS]);
    return 0;
  }
  if (mode != "batch") return 2;
  { struct sigaction sa {}; sa.sa_handler = on_term; sa.sa_flags = SA_RESTART; sigaction(SIGTERM, &sa, nullptr); }

  std::vector<uint64_t> ctr(rt::N_CTRS, 0);
  std::unordered_set<uint64_t> hashes, obss, scheds;
  std::map<std::string, long> kinds, scens, foreign, heapk, schedk;
  std::vector<std::string> samples, errors;
  long runs = 0, execs = 0, nontriv = 0, multi = 0, faulty = 0, faults_planned = 0;
  int probes = 0;
  std::string vio, viomsg, viocls;
  uint64_t vioseed = 0;
  double t0 = now();
  size_t vio_before = 0, vio_after = 0;
  for (long i = first; i < cnt; i += step) {
    if (stop_now || now() - t0 > secs) break;
    uint64_t seed = seed_of(i);
    Case c = gn::generate(prop, seed);
    std::vector<uint64_t> one(rt::N_CTRS, 0);
    int p0 = probes;
    Out o = prepare_and_run(c, one, probes);
    ++runs;
    execs += 1 + (probes - p0) + (long)c.heaps.size();
    for (int k = 0; k < rt::N_CTRS; ++k) ctr[k] += one[k];
    for (auto &q : c.ops) ++kinds[kind_names[q.kind]];
    std::string sn = c.scen;
    if (c.scen == "scale") sn += ":" + std::to_string(c.P("shape"));
    if (c.scen == "opscale") sn += ":" + std::to_string(c.P("op"));
    if (c.scen == "chain") sn += ":link" + std::to_string(c.P("link")) + ":drop" + std::to_string(c.P("drop"));
    ++scens[sn];
    static const char *rn[] = {"never", "lifo", "fifo", "random"}, *fn[] = {"zero", "ff", "noise", "stale", "one"};
    ++heapk[std::string("reuse-") + rn[c.heap.reuse & 3] + "/fill-" + fn[c.heap.fill % 5]];
    if (c.strands > 1) {
      ++schedk[c.sched.pct ? "pct" : c.sched.p_mem >= 0.01 ? "random-access" : c.sched.p_shared >= 0.2 ? "shared-access" : c.sched.p_alloc >= 0.1 ? "allocation" : c.sched.p_op >= 0.6 ? "call-boundary" : "rare-access"];
      if (c.sched.stall_tid > 0) ++schedk["with-stalled-caller"];
    }
    multi += c.strands > 1;
    faults_planned += (long)c.faults.size();
    bool fired = one[rt::N_FAULT_ONCE] + one[rt::N_FAULT_REST] + one[rt::N_FAULT_BIG] + one[rt::N_FAULT_WINDOW] > 0;
    faulty += fired;
    bool nt = one[rt::N_ALLOC] > 0 && (one[rt::N_OPS] >= 4 || one[rt::N_NODES] >= 8 || c.scen == "opscale" || c.scen == "progress");
    if (hashes.insert(o.hash).second && nt) ++nontriv;
    obss.insert(o.obs);
    if (c.strands > 1) scheds.insert(o.sched ^ (uint64_t)(c.seed * 0x9E3779B97F4A7C15ull));
    if (R->n_foreign) ++foreign[std::string(rt::cls_name(R->foreign_cls)) + ": " + std::string(R->foreign_msg).substr(0, 160)];
    if (samples.size() < 2 && nt && (runs % 7 == 3 || samples.empty())) samples.push_back(summary(c, 14));
    if (!o.cls) continue;
    if (o.cls == rt::V_HARNESS) { if (errors.size() < 5) errors.push_back("seed " + std::to_string(seed) + ": " + o.msg); else break; continue; }
    // gate: the same case again must end in the same way
    Out o2 = run_case(c);
    if (o2.cls == o.cls && o2.hash != o.hash && run_case(c).cls == o.cls && run_case(c).cls == o.cls) {
      // the code under test draws on something outside the simulation: the violation recurs every time, its details do not
      vio = dir + "/" + prop + "-seed" + std::to_string(seed) + ".replay";
      o.hash = 0;
      { std::ofstream s(vio); s << replay_text(c, o, c); }
      viomsg = o.msg + "\n(details differ from one execution of this case to the next)\n" + summary(c, 40);
      viocls = rt::cls_name(o.cls);
      vioseed = seed;
      vio_before = vio_after = c.ops.size();
      break;
    }
    if (o2.cls != o.cls || o2.hash != o.hash) { errors.push_back("seed " + std::to_string(seed) + " is not repeatable: " + rt::cls_name(o.cls) + " " + o.msg + " / " + rt::cls_name(o2.cls)); if (errors.size() > 5) break; continue; }
    Case orig = c;
    vio_before = c.ops.size();
    minimise(c, o.cls, atof(arg(argc, argv, "--min-seconds", "25")));
    Out f = run_case(c);
    if (f.cls != o.cls) { c = orig; f = o; }
    vio_after = c.ops.size();
    vio = dir + "/" + prop + "-seed" + std::to_string(seed) + ".replay";
    { std::ofstream s(vio); s << replay_text(c, f, orig); }
    viomsg = f.msg + "\n" + summary(c, 40);
    viocls = rt::cls_name(f.cls);
    vioseed = seed;
    break;
  }
  std::ostringstream j;
  auto dump = [&](const char *n, const std::map<std::string, long> &m) {
    j << ",\"" << n << "\":{";
    bool f = true;
    for (auto &k : m) { j << (f ? "" : ",") << json(k.first) << ":" << k.second; f = false; }
    j << "}";
  };
  j << "{\"runs\":" << runs << ",\"executions\":" << execs << ",\"nontrivial\":" << nontriv << ",\"multi\":" << multi << ",\"faulty\":" << faulty << ",\"faults_planned\":" << faults_planned << ",\"distinct_logs\":" << hashes.size()
    << ",\"distinct_observations\":" << obss.size() << ",\"distinct_interleavings\":" << scheds.size() << ",\"seconds\":" << now() - t0;
  j << ",\"ctr\":{";
  for (int k = 0; k < rt::N_CTRS; ++k) j << (k ? "," : "") << "\"" << rt::ctr_names[k] << "\":" << ctr[k];
  j << "}";
  dump("kinds", kinds);
  dump("scens", scens);
  dump("foreign", foreign);
  dump("heaps", heapk);
  dump("scheds", schedk);
  j << ",\"samples\":[";
  for (size_t k = 0; k < samples.size(); ++k) j << (k ? "," : "") << json(samples[k]);
  j << "],\"errors\":[";
  for (size_t k = 0; k < errors.size(); ++k) j << (k ? "," : "") << json(errors[k]);
  j << "],\"violation\":" << json(vio) << ",\"cls\":" << json(viocls) << ",\"msg\":" << json(viomsg) << ",\"vseed\":" << vioseed << ",\"calls_before\":" << vio_before << ",\"calls_after\":" << vio_after << "}\n";
  fputs(j.str().c_str(), stdout);
  return 0;
}
