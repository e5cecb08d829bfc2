// C28: what is printed is what was computed.
#include "steps.hpp"
#include <proxsuite-nlp/linalg/block-ldlt.hpp>
#include <sys/mman.h>
#include <unistd.h>
using namespace pn;
using mc::Ctx;
namespace la = proxsuite::nlp::linalg;

// everything the process writes to its standard output while f runs
static std::string captured(const std::function<void()> &f) {
  static int mem = memfd_create("out", 0);
  std::cout.flush();
  fflush(stdout);
  int keep = dup(1);
  if (ftruncate(mem, 0) || lseek(mem, 0, SEEK_SET) < 0 || dup2(mem, 1) < 0)
    abort();
  auto back = [&] {
    std::cout.flush();
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
  };
  try {
    f();
  } catch (...) {
    back();
    throw;
  }
  back();
  std::string s(size_t(lseek(mem, 0, SEEK_END)), 0);
  if (pread(mem, &s[0], s.size(), 0) != ssize_t(s.size()))
    abort();
  return s;
}
static std::vector<std::string> split(const std::string &s, const std::string &sep) {
  std::vector<std::string> r;
  size_t a = 0, b;
  while ((b = s.find(sep, a)) != std::string::npos) {
    r.push_back(s.substr(a, b - a));
    a = b + sep.size();
  }
  r.push_back(s.substr(a));
  return r;
}
static std::string trim(std::string s) { // blanks and terminal attributes
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\x1b') {
      while (i < s.size() && s[i] != 'm')
        i++;
      continue;
    }
    if (s[i] != ' ')
      r += s[i];
  }
  return r;
}
// the last line says how the solve ended; removes it
static void status(Ctx &c, std::string &out, bool threw, ConvergenceFlag f, const std::string &w) {
  std::string m;
  if (!threw) {
    c.require(!out.empty() && out.back() == '\n', "status", w + ": " + out);
    size_t k = out.size() > 1 ? out.rfind('\n', out.size() - 2) : std::string::npos;
    k = k == std::string::npos ? 0 : k + 1;
    m = out.substr(k);
    out.resize(k);
  }
  for (auto &t : m)
    t = char(tolower(t));
  auto has = [&](const char *t) { return m.find(t) != std::string::npos; };
  c.require(has("success") == (f == SUCCESS && !threw), "status", w + ": flag " + str(int(f)) + " announced as " + m);
  c.require(has("max number of iterations") == (f == MAX_ITERS_REACHED && !threw), "status", w + ": flag " + str(int(f)) + " announced as " + m);
}
using Row = std::vector<std::string>;
struct Log {
  std::vector<Row> rows;
  std::vector<bool> header_before; // a header directly before the row
  bool first_is_header = false;
  int headers = 0;
};
static const char *COLUMNS[] = {"iter", "step_size", "inner_crit", "prim_err", "dual_err", "xreg", "dphi0", "merit", "dM", "al_iter"};
static Log parse(Ctx &c, const std::string &text, const std::string &sep, const std::string &w) {
  Log l;
  auto lines = split(text, "\n");
  c.require(!lines.empty() && trim(lines.back()).empty(), "log-format", w + ": unfinished line in " + text);
  lines.pop_back();
  bool head = false;
  for (size_t k = 0; k < lines.size(); k++) {
    Row r = split(lines[k], sep);
    for (auto &t : r)
      t = trim(t);
    c.require(r.size() == 10, "log-format", w + ": " + str(r.size()) + " columns in " + lines[k]);
    if (r == Row(COLUMNS, COLUMNS + 10)) {
      l.first_is_header |= k == 0;
      l.headers++;
      head = true;
      continue;
    }
    l.rows.push_back(r);
    l.header_before.push_back(head);
    head = false;
  }
  return l;
}
static std::string fmt3(double v, char kind) {
  char b[64];
  snprintf(b, sizeof b, kind == 'e' ? "%.3e" : "%.3g", v);
  return b;
}
static bool shows(const std::string &t, double v) { // t displays v with three digits or more
  char *e;
  double p = strtod(t.c_str(), &e);
  if (t.empty() || *e)
    return false;
  if (v != v)
    return p != p;
  if (std::isinf(v) || v == 0)
    return p == v;
  return std::abs(p - v) <= 0.5e-2 * std::abs(v) && t == fmt3(v, t.find_first_of("eE") != std::string::npos && fmt3(v, 'g') != t ? 'e' : 'g');
}
static bool about(const std::string &t, double v, double slack) {
  char *e;
  double p = strtod(t.c_str(), &e);
  return !t.empty() && !*e && std::abs(p - v) <= 1.01e-3 * std::abs(v) + slack;
}

// the logger on its own
static void logger(Ctx &c) {
  BaseLogger log;
  log.active = !c.flip("inactive");
  log.COL_WIDTH_0 = c.pick<unsigned>({4, 1, 9}, "first width");
  log.COL_WIDTH = c.pick<unsigned>({10, 1, 17}, "width");
  const int field = c.choose(8, "field");
  const size_t it = c.pick<size_t>({1, 0, 24, 25, 26, 50, 100000}, "iteration");
  c.shard();
  const double v = c.pick<double>({0.0004567, 0., -0., 1., -1., 12345.678, -9.9996, 1e-300, -3.14159e200, 1. / 0., -1. / 0., 0. / 0., 5e-324, 999.96}, "value");
  const size_t al = c.pick<size_t>({1, 37, 1234567}, "outer iteration");
  double d[8];
  for (int i = 0; i < 8; i++)
    d[i] = (i + 1.125) * (i % 3 == 2 ? -1 : 1);
  d[field] = v;
  const std::string w = "field " + str(field) + " value " + str(v) + " iteration " + str(it);
  std::string out = captured([&] { log.log({it, d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], al}); });
  if (!log.active) {
    c.require(out.empty() && captured([&] { log.start(); }).empty(), "silent", w + ": " + out);
    return;
  }
  Log l = parse(c, out, log.join_str, w);
  c.require(l.rows.size() == 1, "row-count", w + ": " + out);
  c.require(l.headers == (it % BaseLogger::print_outline_every() == 0), "header", w + ": " + out);
  const Row &r = l.rows[0];
  c.require(r[0] == str(it) && r[9] == str(al), "row-counters", w + ": " + out);
  for (int i = 0; i < 8; i++)
    c.require(shows(r[size_t(i) + 1], d[i]), "row-value", w + ": column " + COLUMNS[i + 1] + " shows " + r[size_t(i) + 1] + " for " + str(d[i]));
  std::string h = captured([&] { log.start(); });
  Log s = parse(c, h, log.join_str, w);
  c.require(s.headers == 1 && s.rows.empty(), "header", w + ": " + h);
  c.step(2);
  c.obs(mc::hash_str(out));
}

struct SeenStep {
  double alpha, inner, prim, dual, dphi0, merit, dmerit, merit_scale, xreg, xreg_slack, inner_slack, dm_slack;
  size_t it, al;
};
// the log of a solve
static void solves(Ctx &c) {
  Prb P;
  if (c.flip("steep")) { // curvature which no regularisation level makes up for
    P.M = polymorphic<Manifold>(VSpace(2));
    P.cost = quad_cost(c.pick({-1e9, -1e12, -1e30}, "curvature") * qp_hess(2, 0), Vec::LinSpaced(2, -3, 2));
    P.name = "steep";
    if (c.flip("constrained"))
      P.add(qp_rows(2, 0), EQ);
    P.build();
  } else
    P = small_problem(c, 7);
  Cfg g = pick_cfg(c, true, true);
  if (g.hess == HessianApprox::BFGS && P.M->nx() != P.M->ndx())
    c.prune();
  const int level = c.choose(3, "level"); // quiet, verbose, logger switched off
  const int nsolves = c.range(1, 2, "solves");
  c.shard();
  const std::string w = P.name + " " + g.name() + " level " + str(level);
  const int n = P.M->ndx();
  for (int k = 0; k < nsolves; k++) {
    Vec x0 = start_point(P, k), l0 = pick_l0(P.nc(), k);
    // the reference: a quiet solve
    auto q = make_solver(*P.p, g);
    q->verbose = QUIET;
    q->setup();
    Outcome want;
    bool threw = false;
    std::string out = captured([&] {
      try {
        want = outcome(*q, q->solve(x0, l0));
      } catch (const std::runtime_error &) {
        threw = true;
      }
    });
    status(c, out, threw, want.f, w);
    c.require(out.empty(), "silent", w + ": a quiet solve prints " + out);
    std::vector<SeenStep> seen;
    auto spy = std::make_shared<SpyCost>(P.cost);
    Problem prob(P.M, spy, P.cons);
    auto s = make_solver(prob, g);
    s->verbose = level == 0 ? QUIET : k || g.kkt == KKT_PRIMAL_DUAL ? VERYVERBOSE : VERBOSE;
    if (level == 2)
      s->logger.active = false;
    s->setup();
    Step cur;
    bool fresh = false;
    spy->at_gradient = [&](const Eigen::Ref<const Vec> &x) {
      cur.x = x;
      cur.lam = s->results_->data_lams_opt;
      cur.lame = s->workspace_->data_lams_prev;
      cur.xprev = s->workspace_->x_prev;
      cur.mu = s->results_->mu;
      cur.rho = s->results_->rho;
      fresh = true;
    };
    auto cb = std::make_shared<FnCallback>();
    cb->f = [&](const WS &ws, const RS &r) {
      if (!fresh || r.converged != UNINIT || r.al_iters >= s->max_al_iters)
        return;
      fresh = false;
      SeenStep t;
      t.alpha = ws.alpha_opt;
      Vec raw = ws.kkt_rhs - ws.kkt_rhs_corr;
      t.inner = raw.size() ? raw.cwiseAbs().maxCoeff() : 0;
      t.inner_slack = 1e-14 * (ws.kkt_rhs.norm() + ws.kkt_rhs_corr.norm());
      t.prim = r.prim_infeas;
      t.dual = r.dual_infeas;
      t.dphi0 = ws.dmerit_dir;
      t.merit = r.merit;
      const double before = full_merit(P, cur, cur.x, cur.lam, g.beta);
      t.dmerit = r.merit - before;
      t.dm_slack = 1e-11 * (1 + std::abs(r.merit) + std::abs(before)) * (1 + P.M->nx() + P.nc()) + 1e-6 * std::abs(t.dmerit);
      { // magnitudes which cancel in the merit function
        double m = 0;
        for (int i = 0; i < P.nc(); i++)
          m += std::abs(cur.lame[i] * cur.lame[i] * cur.mu) + std::abs(cur.lam[i] * cur.lam[i] * cur.mu) + std::abs(r.data_lams_opt[i] * r.data_lams_opt[i] * cur.mu);
        t.dm_slack += 1e-11 * m + 1e-13 / cur.mu;
      }
      // the shift which makes the step solve the system
      Vec dx = ws.pd_step.head(n);
      Vec res = ws.kkt_matrix.topRows(n) * ws.pd_step + ws.kkt_rhs.head(n); // = -shift dx
      t.xreg = dx.norm() > 0 ? -res.dot(dx) / dx.squaredNorm() : NAN;
      t.xreg_slack = dx.norm() > 0 ? 1e-9 * (ws.kkt_matrix.topRows(n).norm() * ws.pd_step.norm() + ws.kkt_rhs.norm()) / dx.norm() : 0;
      t.it = r.num_iters;
      t.al = r.al_iters;
      seen.push_back(t);
    };
    s->registerCallback(cb);
    Outcome got;
    bool threw2 = false;
    out = captured([&] {
      try {
        got = outcome(*s, s->solve(x0, l0));
      } catch (const std::runtime_error &) {
        threw2 = true;
      }
    });
    const std::string wk = w + " solve " + str(k);
    c.require(threw == threw2 && (threw || equal(want, got)), "verbosity-changes-result", wk);
    c.step(1 + seen.size());
    status(c, out, threw, got.f, wk);
    if (level != 1) {
      c.require(out.empty(), "silent", wk + ": prints " + out);
      c.count("silent solves");
      continue;
    }
    Log l = parse(c, out, s->logger.join_str, wk);
    c.require(l.first_is_header, "header", wk + ": " + out);
    c.require(l.rows.size() == seen.size() && (threw || seen.size() == got.it), "row-count", wk + ": " + str(l.rows.size()) + " rows for " + str(seen.size()) + " steps");
    for (size_t i = 0; i < seen.size(); i++) {
      const SeenStep &t = seen[i];
      const Row &r = l.rows[i];
      auto at = [&](int col, double v) { return wk + " row " + str(i) + ": column " + COLUMNS[col] + " shows " + r[size_t(col)] + " for " + str(v); };
      c.require(r[0] == str(i + 1), "row-counters", at(0, double(i + 1)));
      c.require(r[9] == str(t.al + 1), "row-counters", at(9, double(t.al + 1)));
      c.require(l.header_before[i] == (i == 0 || (i + 1) % BaseLogger::print_outline_every() == 0), "header", wk + " row " + str(i));
      c.require(shows(r[1], t.alpha), "row-value", at(1, t.alpha));
      c.require(about(r[2], t.inner, t.inner_slack), "row-value", at(2, t.inner));
      c.require(shows(r[3], t.prim), "row-value", at(3, t.prim));
      c.require(shows(r[4], t.dual), "row-value", at(4, t.dual));
      if (t.xreg == t.xreg)
        c.require(about(r[5], t.xreg, t.xreg_slack), "row-value", at(5, t.xreg) + " +- " + str(t.xreg_slack));
      c.require(shows(r[6], t.dphi0), "row-value", at(6, t.dphi0));
      c.require(shows(r[7], t.merit), "row-value", at(7, t.merit));
      c.require(std::abs(strtod(r[8].c_str(), nullptr) - t.dmerit) <= 0.6e-2 * std::abs(t.dmerit) + t.dm_slack, "row-value", at(8, t.dmerit) + " +- " + str(t.dm_slack));
    }
    c.count("logged solves");
    if (seen.size() >= 25)
      c.count("solves with a repeated header");
    c.obs(mc::hash_str(out));
  }
}

static bool in_kind(la::BlockKind k, long i, long j) {
  switch (k) {
  case la::Zero: return false;
  case la::Diag: return i == j;
  case la::TriL: return i >= j;
  case la::TriU: return i <= j;
  case la::Dense: return true;
  }
  return false;
}
static void sparsity(Ctx &c) {
  using namespace la;
  const int nb = c.range(1, c.thorough ? 4 : 3, "blocks");
  std::vector<isize> lens;
  for (int i = 0; i < nb; i++)
    lens.push_back(c.pick<isize>({1, 2, 3, 0}, "size"));
  c.shard();
  SymbolicBlockMatrix m(lens);
  std::string text = "sizes";
  for (auto l : lens)
    text += " " + str(long(l));
  const BlockKind K[] = {Zero, Diag, TriL, TriU, Dense};
  long cells = 0;
  for (int i = 0; i < nb; i++)
    for (int j = 0; j < nb; j++) {
      // all five kinds in one or two cells, the rest from a pattern
      const bool square = lens[size_t(i)] == lens[size_t(j)];
      const bool special = nb <= 2 || (i == nb - 1 && j >= nb - 2) || (i == 0 && j == nb - 1);
      BlockKind k = special ? (square ? K[c.choose(5, "kind")] : c.pick({Zero, Dense}, "kind")) : (i + j) % 2 ? Zero : square ? TriL : Dense;
      m(i, j) = k;
      text += " " + str(int(k));
      cells++;
    }
  std::string want;
  for (int i = 0; i < nb; i++)
    for (long a = 0; a < lens[size_t(i)]; a++) {
      for (int j = 0; j < nb; j++)
        for (long b = 0; b < lens[size_t(j)]; b++)
          want += in_kind(m(i, j), a, b) ? "██" : "░░";
      want += '\n';
    }
  std::string out = captured([&] { print_sparsity_pattern(m); });
  c.require(out == want, "sparsity-pattern", text + " printed\n" + out + "instead of\n" + want);
  if (nb <= 2 && lens[0] && lens.back()) { // the factorisation prints its own structure
    long n = 0;
    for (auto l : lens)
      n += l;
    BlockLDLT<double> f(n, m);
    out = captured([&] { f.print_sparsity(); });
    c.require(out == want, "sparsity-pattern", text + " by the factorisation: printed\n" + out + "instead of\n" + want);
  }
  delete[] m.m_data;
  delete[] m.segment_lens;
  c.step(cells);
  c.obs(mc::hash_str(out));
}
// options of the line search: every name with the value stored under it
static void options(Ctx &c) {
  using LS = Linesearch<double>;
  LS::Options o;
  const double V[] = {1e-4, 0.5, 0.8, 0.25, 1., 0.};
  std::map<std::string, double *> f{{"armijo_c1", &o.armijo_c1}, {"wolfe_c2", &o.wolfe_c2}, {"dphi_thresh", &o.dphi_thresh}, {"alpha_min", &o.alpha_min}, {"contraction_min", &o.contraction_min}, {"contraction_max", &o.contraction_max}};
  o.armijo_c1 = V[c.choose(6, "c1")];
  o.contraction_min = V[c.choose(6, "min")];
  o.contraction_max = V[c.choose(6, "max")];
  c.shard();
  o.wolfe_c2 = 0.9375;
  o.alpha_min = 0.03125;
  o.dphi_thresh = 0.0078125;
  std::ostringstream os;
  os << o;
  std::string t = os.str();
  c.require(t.size() > 2 && t.front() == '{' && t.back() == '}', "options", t);
  auto parts = split(t.substr(1, t.size() - 2), ",");
  for (auto &p : parts) {
    auto kv = split(trim(p), "=");
    c.require(kv.size() == 2, "options", t);
    if (!f.count(kv[0]))
      continue;
    c.require(strtod(kv[1].c_str(), nullptr) == strtod(fmt3(*f[kv[0]], 'e').c_str(), nullptr), "options", kv[0] + " printed as " + kv[1] + " instead of " + str(*f[kv[0]]));
    c.count("options shown");
    c.step();
  }
  c.obs(mc::hash_str(t));
}
int main(int argc, char **argv) {
  mc::Main m("C28");
  m.note = "logger: every field x special values x iterations x widths; solves: 7 problems x configurations within 1 deviation x "
           "verbosity x 1-2 solves, every printed row compared with what an independent observer of that step computes; "
           "structures: all sizes 0-3 and kinds up to 2 (3 with a fixed part) blocks; states are distinct outputs";
  m.assumptions = {"numbers are shown with three digits after the first", "turning the log on again after a quiet solve of the same solver is not required"};
  const bool t = getenv("VERIF_TIER") && std::string(getenv("VERIF_TIER")) == "thorough";
  m.add("logger", logger);
  m.add("options", options);
  m.add("sparsity", sparsity);
  m.add("solves", solves, t ? 2 : 1);
  return m.run(argc, argv);
}
