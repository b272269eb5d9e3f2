// C31, second half: the simulator of divisor structures. Oracle: E.
// With DEBUG defined it compares divisors, otherwise their number.
#include <divsim/stdinc.h>
#include <divsim/DivListModel.h>
#include <divsim/KDTreeModel.h>
#include <divsim/Simulation.h>
#include "mon.h"
#include "process.h"
#include <cerrno>
using namespace mon;
#ifdef DEBUG
int divsim_main();
#endif

namespace {
  // A structure that is obviously right, or wrong about query number wrongAt.
  class Plain {
  public:
    typedef ::Monomial Monomial;
    typedef Monomial Entry;
    Plain(size_t varCount, bool minimize, size_t wrongAt): vars_(varCount), minimize_(minimize), wrongAt_(wrongAt), queries_(0), found_(0) {}
    template<class Out> void insert(const Entry& e, Out& out) {
      if (minimize_) {
        for (size_t i = 0; i < in_.size(); ++i) if (divides(in_[i], e)) return;
        size_t k = 0;
        for (size_t i = 0; i < in_.size(); ++i) if (divides(e, in_[i])) out.push_back(in_[i]); else in_[k++] = in_[i];
        in_.resize(k);
      }
      in_.push_back(e);
    }
    void insert(const Entry& e) { std::vector<Entry> out; insert(e, out); }
    Entry* findDivisor(const Monomial& m) {
      Entry* r = 0;
      for (size_t i = 0; r == 0 && i < in_.size(); ++i) if (divides(in_[i], m)) r = &in_[i];
      if (++queries_ == wrongAt_) r = r == 0 ? &other_ : 0;
      if (r) ++found_;
      return r;
    }
    template<class Out> void findAllDivisors(const Monomial& m, Out& out) const {
      bool skip = ++queries_ == wrongAt_;
      for (size_t i = 0; i < in_.size(); ++i) if (divides(in_[i], m)) { if (skip) { skip = false; continue; } ++found_; out.proceed(in_[i]); }
      if (skip && !in_.empty()) out.proceed(in_[0]);
    }
    template<class Out> void forAll(Out& out) { for (size_t i = 0; i < in_.size(); ++i) out.proceed(in_[i]); }
    std::string getName() const { return "plain"; }
    unsigned long long getExpQueryCount() const { return 0; }
    size_t size() const { return in_.size(); }
    ~Plain() { fprintf(stderr, "SIM size %zu queries %zu found %zu\n", in_.size(), queries_, found_); }
  private:
    bool divides(const Monomial& a, const Monomial& b) const {
      for (size_t v = 0; v < vars_; ++v) if (a[v] > b[v]) return false;
      return true;
    }
    size_t vars_;
    bool minimize_;
    size_t wrongAt_;
    mutable size_t queries_, found_;
    std::vector<Entry> in_;
    Entry other_;
  };

  template<bool UDM, bool UTDM, bool PT> void trees(Simulation& sim, bool mini, bool sort, bool cache, double ratio, size_t least) {
    sim.run<KDTreeModel<UDM, UTDM, PT, 1, 1> >(mini, sort, cache, ratio, least);
    sim.run<KDTreeModel<UDM, UTDM, PT, 8, 1> >(mini, sort, cache, ratio, least);
    if (!mini) sim.run<KDTreeModel<UDM, UTDM, PT, 2, 0> >(mini, sort, cache, ratio, least);
  }

  int simulate(const std::vector<std::string>& a) {
    // vars inserts queries findAll minimize options ratio least wrong
    std::vector<size_t> n;
    for (size_t i = 0; i < a.size(); ++i) n.push_back(strtoull(a[i].c_str(), 0, 10));
    Simulation sim(1, true);
    sim.makeStandard(n[0], n[1], n[2], n[3] != 0);
    bool mini = n[4] != 0, sort = n[5] & 1, cache = n[5] & 2, front = !sort && (n[5] & 4);
    double ratio = n[6] / 10.0;
    size_t least = n[7];
    sim.run<Plain>(mini, 0);
    if (n[8] != 0) { sim.run<Plain>(mini, n[8]); return 0; }
    sim.run<DivListModel<0, 0> >(mini, front, sort, ratio, least);
    sim.run<DivListModel<1, 0> >(mini, front, sort, ratio, least);
    sim.run<DivListModel<0, 1> >(mini, front, sort, ratio, least);
    sim.run<DivListModel<1, 1> >(mini, front, sort, ratio, least);
    trees<0, 0, 0>(sim, mini, sort, cache, ratio, least);
    trees<0, 0, 1>(sim, mini, sort, cache, ratio, least);
    trees<1, 0, 0>(sim, mini, sort, cache, ratio, least);
    trees<1, 0, 1>(sim, mini, sort, cache, ratio, least);
    trees<1, 1, 0>(sim, mini, sort, cache, ratio, least);
    trees<1, 1, 1>(sim, mini, sort, cache, ratio, least);
    sim.printData(std::cout);
    return 0;
  }

  size_t count(const std::string& s, const std::string& what) {
    size_t n = 0;
    for (size_t p = s.find(what); p != std::string::npos; p = s.find(what, p + what.size())) ++n;
    return n;
  }

  void divCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    std::vector<std::string> args;
    bool program = false;
#ifdef DEBUG
    program = ctx.index < 8 || rng.chance(1, 40);
#endif
    bool mini = rng.coin();
    // without minimisation, trees refuse equal monomials, so there must be none
    size_t vars = rng.range(mini ? 1 : 3, rng.coin() ? 4 : 12);
    size_t inserts = rng.range(0, ctx.tier ? 1000 : 250), queries = rng.range(0, ctx.tier ? 2000 : 500);
    bool findAll = rng.chance(2, 3);
    if (program) args.push_back("main");
    else {
      size_t a[] = {vars, inserts, queries, findAll, mini, rng.below(8), rng.chance(1, 3) ? 0 : rng.range(1, 15), rng.chance(1, 3) ? 0 : rng.range(1, 100), 0};
      for (size_t i = 0; i < sizeof a / sizeof *a; ++i) args.push_back(std::to_string(a[i]));
    }
    std::string line;
    for (size_t i = 0; i < args.size(); ++i) { line += (i ? " " : "") + args[i]; ctx.argS(args[i]); }
    ChildResult r = runChild(args);
    MON_CHECK(ctx, "E", r.status == 0, "the simulation " << line << " ended with status " << r.status << ": " << shown(r.err.substr(r.err.size() > 700 ? r.err.size() - 700 : 0)));
    ctx.count("simulations of divisor structures")++;
    size_t header = r.out.find("*** Simulation outcome");
    MON_CHECK(ctx, "E", header != std::string::npos, "the simulation " << line << " prints no outcome");
    size_t reports = count(r.err, " eqs\n"), rows = count(r.out.substr(header), "eqs\n");
    ctx.count("structures run") += reports;
    MON_CHECK(ctx, "E", reports >= (program || mini ? 17 : 23) && rows == reports, "the simulation " << line << " reports on " << reports << " structures and has a table of " << rows);
    ctx.nontrivial = true;
    if (program) { ctx.count("runs of divsim")++; return; }
    // the sizes at the end
    size_t size = 0, asked = 0, found = 0, seen = 0;
    size_t at = r.err.find("SIM size ");
    MON_CHECK(ctx, "E", at != std::string::npos && sscanf(r.err.c_str() + at, "SIM size %zu queries %zu found %zu", &size, &asked, &found) == 3, "the simulation " << line << " has no record");
    std::istringstream in(r.out.substr(0, header));
    std::string l;
    while (std::getline(in, l))
      if (!l.empty() && l.find_first_not_of("0123456789") == std::string::npos) {
        ++seen;
        MON_CHECK(ctx, "E", strtoull(l.c_str(), 0, 10) == size, "a structure of the simulation " << line << " has " << l << " entries in place of " << size);
      }
    MON_CHECK(ctx, "E", seen == reports, "the simulation " << line << " prints " << seen << " sizes of " << reports << " structures");
    size_t q = queries == 0 ? 0 : queries - 1; // one insertion more than asked for
    MON_CHECK(ctx, "E", asked == q, "the simulation " << line << " has " << asked << " queries");
    if (!mini) MON_CHECK(ctx, "E", size == inserts + (queries ? 1 : 0), "the simulation " << line << " inserts " << size);
    ctx.count("divisors found") += found * reports;
    if (asked > 0 && size > 0 && rng.coin()) {
      size_t k = rng.range(1, asked);
      args.back() = std::to_string(k);
      ctx.op("wrong"); ctx.arg(k);
      ChildResult w = runChild(args);
      ctx.count("wrong structures noticed")++;
      MON_CHECK(ctx, "E", w.status != 0, "the simulation " << line << " of a structure that is wrong about query number " << k << " of " << asked << " ended normally");
    }
  }
  Registrar r0("divsim", "C31 C28", &divCase);
}

int monChild(int argc, char** argv) {
  std::vector<std::string> a(argv, argv + argc);
#ifdef DEBUG
  if (!a.empty() && a[0] == "main") return divsim_main();
#endif
  return simulate(a);
}
