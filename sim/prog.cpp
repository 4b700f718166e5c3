#include "prog.hpp"
#include "model.hpp"
#include <cstdio>
#include <cstring>
#include <sstream>

namespace pg {
const char *kind_names[K_COUNT] = {
#define X(n) #n,
    OPKINDS(X)
#undef X
};

static std::string esc(const std::string &s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == ' ') { r += '_'; continue; }
    if (isalnum((unsigned char)c) || strchr(":,+-.", c)) { r += c; continue; }
    char b[4];
    snprintf(b, sizeof b, "%%%02x", (unsigned char)c);
    r += b;
  }
  return r + "\"";
}
static std::string unesc(const std::string &s) {
  std::string r;
  for (size_t i = 1; i + 1 < s.size(); ++i) {
    if (s[i] == '%' && i + 3 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else r += s[i] == '_' ? ' ' : s[i];
  }
  return r;
}
template <class V> static std::string join(const V &v) {
  std::string s;
  for (auto x : v) { if (!s.empty()) s += ','; s += std::to_string(x); }
  return s.empty() ? "-" : s;
}
static std::vector<long long> unjoin(const std::string &s) {
  std::vector<long long> r;
  if (s == "-") return r;
  size_t p = 0;
  while (p <= s.size()) {
    size_t q = s.find(',', p);
    if (q == std::string::npos) q = s.size();
    r.push_back(atoll(s.substr(p, q - p).c_str()));
    p = q + 1;
  }
  return r;
}

std::string to_text(const Case &c) {
  std::ostringstream o;
  o.precision(17);
  o << "case " << c.prop << " seed " << c.seed << " scen " << c.scen << " strands " << c.strands << " phases " << c.phases << " rounds " << c.rounds
    << " audit " << c.audit << "\n";
  for (auto &p : c.par) o << "par " << p.first << " " << p.second << "\n";
  o << "heap " << c.heap.seed << " " << c.heap.reuse << " " << c.heap.fill << "\n";
  for (auto &h : c.heaps) o << "altheap " << h.seed << " " << h.reuse << " " << h.fill << "\n";
  auto &s = c.sched;
  o << "sched " << (s.replay ? 1 : 0) << " " << s.seed << " " << s.p_mem << " " << s.p_shared << " " << s.p_alloc << " " << s.p_op << " " << s.pct << " "
    << s.pct_span << " " << s.stall_tid << " " << s.stall_from << " " << s.stall_len << "\n";
  for (auto &f : c.faults) o << "fault " << f.op << " " << f.attempt << " " << f.kind << " " << f.ord << " " << f.arg << "\n";
  for (auto &p : c.ops) {
    o << "op " << p.id << " " << p.strand << " " << p.phase << " " << kind_names[p.kind] << " dst=" << p.dst << " a=" << p.a << " b=" << p.b << " dt=" << p.dt
      << " n0=" << p.n0 << " n1=" << p.n1 << " val=" << p.val << " lock=" << p.lock << " block=" << p.block << " list=" << join(p.list) << " sz=" << join(p.sz)
      << " str=" << esc(p.str) << "\n";
  }
  for (auto &w : s.script) o << "switch " << w.op << " " << w.ev << " " << w.to << "\n";
  o << "end\n";
  return o.str();
}

bool from_text(const std::string &t, Case &c) {
  c = Case{};
  std::istringstream in(t);
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream l(line);
    std::string k, w;
    l >> k;
    if (k == "end") return true;
    if (k == "case") {
      l >> c.prop >> w >> c.seed >> w >> c.scen >> w >> c.strands >> w >> c.phases >> w >> c.rounds >> w >> c.audit;
    } else if (k == "par") {
      long v;
      l >> w >> v;
      c.par[w] = v;
    } else if (k == "heap") {
      l >> c.heap.seed >> c.heap.reuse >> c.heap.fill;
    } else if (k == "altheap") {
      rt::HeapCfg h;
      l >> h.seed >> h.reuse >> h.fill;
      c.heaps.push_back(h);
    } else if (k == "sched") {
      auto &s = c.sched;
      int r;
      l >> r >> s.seed >> s.p_mem >> s.p_shared >> s.p_alloc >> s.p_op >> s.pct >> s.pct_span >> s.stall_tid >> s.stall_from >> s.stall_len;
      s.replay = r;
    } else if (k == "fault") {
      rt::Fault f;
      l >> f.op >> f.attempt >> f.kind >> f.ord >> f.arg;
      c.faults.push_back(f);
    } else if (k == "switch") {
      rt::Switch s;
      l >> s.op >> s.ev >> s.to;
      c.sched.script.push_back(s);
    } else if (k == "op") {
      Op p;
      std::string kn;
      l >> p.id >> p.strand >> p.phase >> kn;
      p.kind = -1;
      for (int i = 0; i < K_COUNT; ++i) if (kn == kind_names[i]) p.kind = i;
      if (p.kind < 0) return false;
      while (l >> w) {
        size_t e = w.find('=');
        if (e == std::string::npos) return false;
        std::string n = w.substr(0, e), v = w.substr(e + 1);
        if (n == "dst") p.dst = atoi(v.c_str());
        else if (n == "a") p.a = atoi(v.c_str());
        else if (n == "b") p.b = atoi(v.c_str());
        else if (n == "dt") p.dt = atoi(v.c_str());
        else if (n == "n0") p.n0 = atol(v.c_str());
        else if (n == "n1") p.n1 = atol(v.c_str());
        else if (n == "val") p.val = atof(v.c_str());
        else if (n == "lock") p.lock = atoi(v.c_str());
        else if (n == "block") p.block = atoi(v.c_str());
        else if (n == "list") { for (auto x : unjoin(v)) p.list.push_back((int)x); }
        else if (n == "sz") p.sz = unjoin(v);
        else if (n == "str") p.str = unesc(v);
        else return false;
      }
      c.ops.push_back(p);
    } else
      return false;
  }
  return false;
}

static std::string sl(int s) { return s >= SHARED ? "S" + std::to_string(s - SHARED) : "t" + std::to_string(s); }
static std::string shp(const std::vector<long long> &v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "}";
}
std::string show(const Op &o) {
  std::string d = o.dst >= 0 ? sl(o.dst) + " = " : "", a = sl(o.a), b = sl(o.b), t = o.dt >= 0 && o.dt < 6 ? md::dt_names[o.dt] : "?";
  std::string n0 = std::to_string(o.n0), n1 = std::to_string(o.n1), x;
  char vb[40];
  snprintf(vb, sizeof vb, "%g", o.val);
  switch (o.kind) {
  case K_ZEROS: x = "zeros(" + shp(o.sz) + ", " + t + ")"; break;
  case K_ONES: x = "ones(" + shp(o.sz) + ", " + t + ")"; break;
  case K_FULLI: x = "full(" + shp(o.sz) + ", " + n0 + ", " + t + ")"; break;
  case K_FULLD: x = "full(" + shp(o.sz) + ", " + vb + ", " + t + ")"; break;
  case K_EYE: x = "eye(" + n0 + ", " + n1 + ", " + t + ")"; break;
  case K_BLOB: x = "from_blob(buffer#" + n1 + ", " + shp(o.sz) + ", " + t + ")"; break;
  case K_ZLIKE: x = "zeros_like(" + a + ")"; break;
  case K_OLIKE: x = "ones_like(" + a + ")"; break;
  case K_SCALAR: x = std::string("Tensor(") + t + " " + vb + ")"; break;
  case K_INIT: x = "Tensor({...} form " + n0 + " " + t + ")"; break;
  case K_RANDN: x = "randn(" + shp(o.sz) + ", " + t + ")"; break;
  case K_RANDLIKE: x = "randn_like(" + a + ")"; break;
  case K_ADD: x = a + " + " + b; break;
  case K_SUB: x = a + " - " + b; break;
  case K_MUL: x = a + " * " + b; break;
  case K_DIV: x = a + " / " + b; break;
  case K_LT: x = a + " < " + b; break;
  case K_GT: x = a + " > " + b; break;
  case K_LE: x = a + " <= " + b; break;
  case K_GE: x = a + " >= " + b; break;
  case K_EQ: x = a + " == " + b; break;
  case K_NE: x = a + " != " + b; break;
  case K_NEG: x = "-" + a; break;
  case K_POS: x = "+" + a; break;
  case K_SUM: x = a + ".sum()"; break;
  case K_MEAN: x = a + ".mean()"; break;
  case K_MAX: x = a + ".max()"; break;
  case K_MIN: x = a + ".min()"; break;
  case K_ABS: x = a + ".abs()"; break;
  case K_ALL: x = a + ".all()"; break;
  case K_SLICE: x = a + "[\"" + o.str + "\"]"; break;
  case K_TRANS: x = a + ".transpose(" + n0 + ", " + n1 + ")"; break;
  case K_TRANSS: x = "transpose(" + a + ", " + n0 + ", " + n1 + ")"; break;
  case K_RESHAPE: x = a + ".reshape(" + shp(o.sz) + ")"; break;
  case K_RESHAPES: x = "reshape(" + a + ", " + shp(o.sz) + ")"; break;
  case K_RESHAPEAS: x = a + ".reshape_as(" + b + ")"; break;
  case K_DETACH: x = a + ".detach()"; break;
  case K_CLONE: x = a + ".clone()"; break;
  case K_CONTIG: x = a + ".contiguous()"; break;
  case K_TYPE: x = a + ".type(" + t + ")"; break;
  case K_CAT: {
    x = "cat({";
    for (size_t i = 0; i < o.list.size(); ++i) x += (i ? "," : "") + sl(o.list[i]);
    x += "}, " + n0 + ")";
    break;
  }
  case K_IADD: x = a + " += " + b; break;
  case K_REQ: x = a + ".requires_grad(" + n0 + ")"; break;
  case K_RETAIN: x = a + ".retain_grad(" + n0 + ")"; break;
  case K_BACK: x = a + ".backward()"; break;
  case K_ZGRAD: x = a + ".zero_grad()"; break;
  case K_GRADC: x = a + ".grad().clone()"; break;
  case K_UNINIT: x = "Tensor(" + shp(o.sz) + ", " + t + ")"; break;
  case K_GRADH: x = a + ".grad()"; break;
  case K_COPYH: x = a; break;
  case K_MOVEH: x = "move(" + a + ")"; break;
  case K_DROP: x = "drop " + a; break;
  case K_RELEASE: x = a + ".release(), drop"; break;
  case K_QUERY: x = "print " + a; break;
  case K_AUDIT: x = o.n0 ? "check memory in use" : "check all tensors"; break;
  case K_SEED: x = "seed " + n0; break;
  }
  std::string head = "#" + std::to_string(o.id) + " [" + (o.strand < 0 ? std::string("main") : "strand " + std::to_string(o.strand)) +
                     (o.phase ? " phase " + std::to_string(o.phase) : "") + (o.lock ? " locked" : "") + (o.block >= 0 ? " block " + std::to_string(o.block) : "") + "] ";
  return head + d + x;
}

std::string summary(const Case &c, size_t max_ops) {
  std::ostringstream o;
  o << "property " << c.prop << ", scenario " << c.scen << ", seed " << c.seed << ", " << c.strands << " strand(s), " << c.phases << " phase(s), " << c.rounds
    << " round(s); heap reuse " << c.heap.reuse << " fill " << c.heap.fill;
  for (auto &p : c.par) o << "; " << p.first << "=" << p.second;
  o << "\n";
  size_t n = 0;
  for (auto &p : c.ops) {
    if (n++ >= max_ops) { o << "  ... " << c.ops.size() - max_ops << " more calls\n"; break; }
    o << "  " << show(p) << "\n";
  }
  for (auto &f : c.faults) o << "  fault: " << rt::fault_name(f.kind) << " at allocation " << f.ord << (f.arg ? " (" + std::to_string(f.arg) + ")" : "") << " of call #" << f.op << ", attempt " << f.attempt << "\n";
  if (c.sched.replay) {
    o << "  schedule: " << c.sched.script.size() << " switches:";
    size_t k = 0;
    for (auto &s : c.sched.script) { if (k++ > 30) { o << " ..."; break; } o << " #" << s.op << "@" << s.ev << "->" << s.to; }
    o << "\n";
  }
  return o.str();
}
} // namespace pg
