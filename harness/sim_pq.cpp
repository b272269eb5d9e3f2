// C31, first half: the simulator of priority queues. Oracle: E.
// Every simulation runs in a process of its own, as it ends the process when
// queues disagree.
#include <pqsim/stdinc.h>
#include <pqsim/Simulator.h>
#include <pqsim/StlSetModel.h>
#include <pqsim/HeapModel.h>
#include <pqsim/GeobucketModel.h>
#include <pqsim/TourTreeModel.h>
#include "mon.h"
#include "process.h"
#include <cerrno>
using namespace mon;
int pqsim_main(int argc, const char** args);

namespace {
  // A queue that is obviously right, or obviously wrong from some pop on.
  struct Recorder {
    std::multiset<Value> in;
    size_t pushes, pushed, pops, most, wrongAt;
    bool sorted;
    explicit Recorder(size_t w): pushes(0), pushed(0), pops(0), most(0), wrongAt(w), sorted(true) {}
    std::string getName() const { return "recorder"; }
    unsigned long getComparisons() const { return 0; }
    size_t getMemoryUse() const { return 0; }
    void print(std::ostream&) const {}
    void push(const Value* b, const Value* e) {
      ++pushes; pushed += (size_t)(e - b);
      for (const Value* v = b; v != e; ++v) { in.insert(*v); if (v != b && v[-1] < *v) sorted = false; }
      most = std::max(most, in.size());
    }
    Value pop() {
      ++pops;
      if (in.empty()) { fputs("SIM popped an empty queue\n", stderr); _exit(7); }
      Value top = *in.rbegin();
      in.erase(top);
      return pops == wrongAt ? top + 1 : top;
    }
  };

  int simulate(const std::vector<std::string>& a) {
    // kind seed repeats p1 p2 p3 p4 wrong
    std::vector<size_t> n;
    for (size_t i = 1; i < a.size(); ++i) n.push_back(strtoull(a[i].c_str(), 0, 10));
    srand((unsigned)n[0]);
    Simulator sim(n[1]);
    if (a[0] == "order") sim.orderSpans(n[2], n[3], n[4]);
    else sim.dupSpans(n[2], n[3], n[4], n[5]);
    Recorder r(n[6]);
    sim.run(r, true);
    fprintf(stderr, "SIM pushes %zu pushed %zu pops %zu most %zu left %zu sorted %d\n", r.pushes, r.pushed, r.pops, r.most, r.in.size(), (int)r.sorted);
    if (n[6] != 0) return 0;
    std::ostringstream o;
    sim.printEventSummary(std::cout);
    sim.printEvents(o);
    {TourTreeModel<1,0> x; sim.run(x);}
    {TourTreeModel<0,0> x; sim.run(x);}
    {GeobucketModel<0,0,0,0,0,0,0> x(4, 32); sim.run(x);}
    {GeobucketModel<0,0,0,0,0,0,0> x(2, 1); sim.run(x);}
    {GeobucketModel<0,0,0,1,0,0,0> x(4, 32); sim.run(x);}
    {StlSetModel<1> x; sim.run(x);}
    {StlSetModel<0> x; sim.run(x);}
    {HeapModel<0,0,0> x; sim.run(x);}
    {HeapModel<1,0,0> x; sim.run(x);}
    {HeapModel<0,1,0> x; sim.run(x);}
    {HeapModel<1,1,0> x; sim.run(x);}
    sim.printData(std::cout);
    return 0;
  }

  size_t count(const std::string& s, const std::string& what) {
    size_t n = 0;
    for (size_t p = s.find(what); p != std::string::npos; p = s.find(what, p + what.size())) ++n;
    return n;
  }

  void pqCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    std::vector<std::string> args;
    unsigned x = (unsigned)rng.below(8);
    size_t span = rng.chance(1, 4) ? rng.range(1, 3) : rng.chance(1, 3) ? rng.range(9, 12) : rng.range(1, 60);
    size_t avg = rng.chance(1, 4) ? rng.range(1, 3) : rng.range(1, 60);
    size_t elements = rng.chance(1, 12) ? 0 : rng.chance(1, 4) ? rng.range(1, 10) : rng.range(1, ctx.tier ? 3000 : 600);
    size_t dups = rng.chance(1, 3) ? 30 : rng.chance(1, 3) ? 0 : rng.range(0, 110);
    if (x < 2) {
      elements = rng.range(0, 40) * (rng.chance(1, 6) ? 10 : 1);
      if (rng.coin()) { span = rng.range(1, 12); avg = rng.range(1, 12); }
      args.push_back("main"); args.push_back(std::to_string(elements)); args.push_back(std::to_string(span)); args.push_back(std::to_string(avg));
      if (rng.coin()) args.push_back(std::to_string(dups));
      if (x == 0 && rng.chance(1, 8)) args.resize(rng.range(1, 3)); // shows how to use it
    } else {
      bool order = x == 2;
      size_t repeats = rng.chance(1, 3) ? rng.range(2, 4) : 1;
      args.push_back(order ? "order" : "dup");
      args.push_back(std::to_string(rng.below(1000000)));
      args.push_back(std::to_string(repeats));
      if (order) elements = rng.range(1, 12);
      args.push_back(std::to_string(elements)); args.push_back(std::to_string(span)); args.push_back(std::to_string(avg)); args.push_back(std::to_string(dups));
      args.push_back("0");
    }
    for (size_t i = 0; i < args.size(); ++i) ctx.argS(args[i]);
    std::string line;
    for (size_t i = 0; i < args.size(); ++i) line += (i ? " " : "") + args[i];
    ChildResult r = runChild(args);
    MON_CHECK(ctx, "E", r.status == 0, "the simulation " << line << " ended with status " << r.status << ": " << shown(r.err.substr(r.err.size() > 700 ? r.err.size() - 700 : 0)));
    ctx.count("simulations of queues")++;
    if (args.size() < 4) return;
    // every queue reports, and is in the table
    size_t reports = count(r.err, " cmps "), rows = 0, header = r.out.find("*** Simulation outcome ***");
    MON_CHECK(ctx, "E", header != std::string::npos, "the simulation " << line << " prints no outcome");
    rows = count(r.out.substr(header), "cmps ");
    ctx.count("queues run") += reports;
    MON_CHECK(ctx, "E", reports >= 11 && rows == reports, "the simulation " << line << " reports on " << reports << " queues and has a table of " << rows);
    if (elements > 0) ctx.nontrivial = true;
    if (x < 2) { ctx.count("runs of pqsim")++; return; }
    size_t repeats = strtoull(args[2].c_str(), 0, 10);
    size_t pushes = 0, pushed = 0, pops = 0, most = 0, left = 1; int sorted = 0;
    size_t at = r.err.find("SIM pushes ");
    MON_CHECK(ctx, "E", at != std::string::npos && sscanf(r.err.c_str() + at, "SIM pushes %zu pushed %zu pops %zu most %zu left %zu sorted %d", &pushes, &pushed, &pops, &most, &left, &sorted) == 6, "the simulation " << line << " has no record");
    ctx.count("events replayed") += (pushes + pops) * reports;
    MON_CHECK(ctx, "E", left == 0, "the simulation " << line << " leaves " << left << " elements in the queue");
    MON_CHECK(ctx, "E", sorted, "the simulation " << line << " pushes a span that is not sorted");
    MON_CHECK(ctx, "E", pushed <= pops * most && (pushed == 0) == (pops == 0), "the simulation " << line << " pushes " << pushed << " elements but pops " << pops << " times");
    if (x == 2) MON_CHECK(ctx, "E", pushes == elements * repeats && pushed == pushes * span, "the simulation " << line << " has " << pushes << " spans with " << pushed << " elements");
    else MON_CHECK(ctx, "E", pushed >= elements * repeats, "the simulation " << line << " has only " << pushed << " elements");
    size_t told = 0;
    at = r.out.find(" spans\n");
    if (at != std::string::npos) {
      size_t b = at;
      while (b > 0 && isdigit((unsigned char)r.out[b - 1])) --b;
      told = strtoull(r.out.c_str() + b, 0, 10);
      MON_CHECK(ctx, "E", told * repeats == pushes, "the simulation " << line << " describes " << told << " spans but has " << pushes << " in " << repeats << " repeats");
    }
    if (pops > 0 && rng.chance(1, 2)) {
      // a queue that is wrong once must not go unnoticed
      size_t k = rng.range(1, pops);
      args.back() = std::to_string(k);
      ctx.op("wrong"); ctx.arg(k);
      ChildResult w = runChild(args);
      ctx.count("wrong queues noticed")++;
      MON_CHECK(ctx, "E", w.status == 1, "the simulation " << line << " of a queue whose pop number " << k << " of " << pops << " gives another value ended with status " << w.status);
    }
  }
  Registrar r0("pqsim", "C31 C28", &pqCase);
}

int monChild(int argc, char** argv) {
  std::vector<std::string> a(argv, argv + argc);
  if (!a.empty() && a[0] == "main") return pqsim_main(argc, (const char**)argv);
  return simulate(a);
}
