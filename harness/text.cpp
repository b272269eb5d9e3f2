// C22 the column printer, C23 formatted numbers, C26 displayed messages and
// C27 the timer. Oracles: W tables, Z numbers, Y messages, J timer.
#include <mathic/ColumnPrinter.h>
#include <mathic/display.h>
#include <mathic/error.h>
#include <mathic/Timer.h>
#include "mon.h"
#include "capture.h"
#include "wrap.h"
#include <cmath>
#include <memory>
#include <time.h>
#include <dlfcn.h>
#include <sys/syscall.h>
using namespace mon;

// The processor time is under the control of the timer's cases.
namespace {
  struct OwnClock {
    bool controlled = false;
    long long now = 0;   // microseconds
    long long step = 0;  // added by every reading
    u64 readings = 0;
  };
#define clockControlled perCase<OwnClock>().controlled
#define clockNow perCase<OwnClock>().now
#define clockStep perCase<OwnClock>().step
#define clockReadings perCase<OwnClock>().readings
  long long controlled() { long long r = clockNow; clockNow += clockStep; ++clockReadings; return r; }
}
extern "C" clock_t clock(void) noexcept {
  if (clockControlled) return (clock_t)controlled();
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t);
  return (clock_t)(t.tv_sec * 1000000ll + t.tv_nsec / 1000);
}
extern "C" int clock_gettime(clockid_t id, struct timespec* t) noexcept {
  if (clockControlled && id == CLOCK_PROCESS_CPUTIME_ID) {
    long long n = controlled();
    t->tv_sec = n / 1000000; t->tv_nsec = (n % 1000000) * 1000;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, t);
}

namespace {
  std::string randomText(Rng& rng, size_t maxLen, const char* alphabet) {
    std::string s;
    size_t n = rng.chance(1, 12) ? rng.range(0, maxLen * 6) : rng.range(0, maxLen), k = strlen(alphabet);
    for (size_t i = 0; i < n; ++i) s += alphabet[rng.below(k)];
    return s;
  }

  // ***** the column printer

  struct Cell { std::string text; bool fill; char filler; };
  struct Column { bool left; std::string prefix, suffix; std::vector<Cell> cells; std::string open; };

  void tableCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    const char* alphabet = rng.coin() ? "ab c" : "0123456789.-|+ xyz\t\x80\xff";
    std::string prefix;
    std::vector<Column> cols;
    size_t n = rng.chance(1, 60) ? rng.range(7, 40) : rng.range(0, 6);
    bool viaConstructor = rng.chance(1, 4);
    ctx.arg(n); ctx.arg(viaConstructor);
    std::unique_ptr<mathic::ColumnPrinter> pr(viaConstructor ? new mathic::ColumnPrinter(n) : new mathic::ColumnPrinter());
    if (viaConstructor) for (size_t i = 0; i < n; ++i) { Column c; c.left = true; c.prefix = "  "; cols.push_back(c); }
    std::vector<std::ostream*> streams;
    if (viaConstructor) for (size_t i = 0; i < n; ++i) streams.push_back(&(*pr)[i]);
    size_t more = viaConstructor ? rng.range(0, 2) : n;
    u64 filled = 0, written = 0, spent = 0;
    if (rng.coin()) { prefix = randomText(rng, 4, alphabet); pr->setPrefix(prefix); ctx.op("prefix"); ctx.argS(prefix); }
    size_t steps = rng.chance(1, 6) ? rng.range(0, 3) : rng.range(3, ctx.tier ? 120 : 60);
    if (rng.chance(1, 400)) steps = 1500;
    size_t width = rng.chance(1, 400) ? 12000 : rng.chance(1, 5) ? 40 : rng.range(1, 9);
    std::string printed;
    for (size_t s = 0; s < steps + more; ++s) {
      if (more > 0 && (cols.empty() || s < more || rng.chance(1, 8))) {
        --more;
        Column c;
        unsigned how = (unsigned)rng.below(4);
        c.left = true; c.prefix = "  ";
        ctx.op("column"); ctx.arg(how);
        std::ostream* st;
        if (how == 0) st = &pr->addColumn();
        else {
          c.left = rng.coin();
          if (how > 1) c.prefix = randomText(rng, 3, alphabet);
          if (how > 2) c.suffix = randomText(rng, 3, alphabet);
          st = how == 1 ? &pr->addColumn(c.left) : how == 2 ? &pr->addColumn(c.left, c.prefix) : &pr->addColumn(c.left, c.prefix, c.suffix);
          ctx.arg(c.left); ctx.argS(c.prefix); ctx.argS(c.suffix);
        }
        cols.push_back(c); streams.push_back(st);
        MON_CHECK(ctx, "W", pr->getColumnCount() == cols.size(), "getColumnCount() is " << pr->getColumnCount() << " after adding " << cols.size() << " columns");
        continue;
      }
      if (cols.empty()) continue;
      size_t i = (size_t)rng.below(cols.size());
      Column& c = cols[i];
      std::ostream& out = rng.coin() ? *streams[i] : (*pr)[i];
      unsigned x = (unsigned)rng.below(10);
      if (x < 6) {
        std::string t = randomText(rng, width, alphabet);
        ctx.op("cell"); ctx.arg(i); ctx.argS(t);
        if (rng.coin()) out << t << '\n';
        else { for (size_t k = 0; k < t.size(); ++k) out << t[k]; out << "\n"; }
        Cell cell = {c.open + t, false, ' '};
        c.cells.push_back(cell); c.open.clear(); ++written;
      } else if (x < 7) {
        u64 v = rng.skewed(1ull << 40);
        ctx.op("number"); ctx.arg(i); ctx.arg(v);
        out << v;
        c.open += std::to_string(v);
      } else if (x < 9) {
        const char fillers[] = "-=.* 0x_\t\x01\xff#";
        char f = fillers[rng.below(12)];
        bool all = rng.chance(1, 3);
        ctx.op(all ? "fill-all" : "fill"); ctx.arg(i); ctx.arg(f);
        if (all) pr->repeatToEndOfLine(f); else pr->repeatToEndOfLine(f, i);
        for (size_t k = 0; k < cols.size(); ++k)
          if (all || k == i) {
            Cell cell = {cols[k].open, true, f};
            cols[k].cells.push_back(cell); cols[k].open.clear(); ++filled;
          }
      } else {
        ctx.op("newline"); ctx.arg(i);
        out << '\n';
        Cell cell = {c.open, false, ' '};
        c.cells.push_back(cell); c.open.clear();
      }
      if (!rng.chance(1, 20) && s + 1 != steps + more) continue;
      // What it should look like.
      size_t lines = 0;
      std::vector<size_t> widths(cols.size(), 0);
      std::vector<std::vector<Cell> > cells(cols.size());
      for (size_t k = 0; k < cols.size(); ++k) {
        cells[k] = cols[k].cells;
        if (!cols[k].open.empty()) { Cell cell = {cols[k].open, false, ' '}; cells[k].push_back(cell); }
        lines = std::max(lines, cells[k].size());
        for (size_t l = 0; l < cells[k].size(); ++l) widths[k] = std::max(widths[k], cells[k][l].text.size());
      }
      size_t bytes = 0;
      for (size_t k = 0; k < cols.size(); ++k) bytes += (widths[k] + 8) * lines;
      if (spent + bytes > (s + 1 == steps + more ? 30000000 : 15000000)) { ctx.count("prints of huge tables skipped")++; continue; }
      spent += bytes;
      std::vector<std::string> want;
      for (size_t l = 0; l < lines; ++l) {
        std::string line = prefix;
        for (size_t k = 0; k < cols.size(); ++k) {
          Cell cell = {"", false, ' '};
          if (l < cells[k].size()) cell = cells[k][l];
          std::string pad(widths[k] - cell.text.size(), cell.fill ? cell.filler : ' ');
          line += cols[k].prefix;
          line += cols[k].left ? cell.text + pad : pad + cell.text;
          line += cols[k].suffix;
        }
        want.push_back(line + '\n');
      }
      std::string all;
      for (size_t l = 0; l < lines; ++l) all += want[l];
      std::string got;
      unsigned how = (unsigned)rng.below(3);
      for (unsigned twice = 0; twice < 2; ++twice, how = (how + 1) % 3) {
        if (how == 0) { std::ostringstream o; pr->print(o); got = o.str(); }
        else if (how == 1) { std::ostringstream o; o << *pr; got = o.str(); }
        else {
          char* buf = 0; size_t size = 0;
          FILE* f = open_memstream(&buf, &size);
          if (f == 0) { fputs("no memory stream\n", stderr); _exit(3); }
          mathic::print(f, *pr);
          fclose(f);
          got.assign(buf, size);
          free(buf);
        }
        ctx.count("tables printed")++;
        if (got == all) continue;
        size_t p = 0, line = 0;
        while (p < got.size() && p < all.size() && got[p] == all[p]) { if (all[p] == '\n') ++line; ++p; }
        MON_CHECK(ctx, "W", false, "" << (twice ? "printed again " : "") << "line " << line << " of a table of " << cols.size() << " columns and " << lines << " lines should be "
          << (line < want.size() ? shown(want[line]) : "missing") << " but the table reads " << shown(got.substr(0, 600)));
      }
      ctx.count("lines printed") += lines;
    }
    ctx.count("cells written") += written;
    ctx.count("cells filled") += filled;
    if (cols.size() >= 2 && written >= 3) ctx.nontrivial = true;
  }

  // ***** formatted numbers

  typedef mathic::ColumnPrinter CP;
  typedef unsigned long long ull;
  typedef long double LD;

  u64 someNumber(Rng& rng) {
    switch (rng.below(6)) {
    case 0: return rng.below(2000);
    case 1: { // about a power of ten or a limit of a unit
      u64 p = 1;
      for (u64 i = rng.range(0, 19); i > 0; --i) p *= 10;
      u64 base = rng.coin() ? p : rng.chance(1, 2) ? p / 2 : p - p / 20000;
      return base + rng.below(5) - 2;
    }
    case 2: {
      u64 p = u64(1) << rng.below(64);
      u64 base = rng.coin() ? p : p - p / 20480;
      return base + rng.below(5) - 2;
    }
    case 3: return rng.next();
    case 4: { // halves in the last digit
      u64 p = rng.coin() ? 1000 : 1024;
      for (u64 i = rng.below(5); i > 0; --i) p *= p % 10 == 0 ? 1000 : 1024;
      return p / 20 * rng.below(40) + p * rng.below(1000) + rng.below(3) - 1;
    }
    }
    return rng.skewed(~u64(0));
  }

  // "digits.digit" -> tenths
  bool tenthsOf(const std::string& s, LD& v, std::string& why) {
    size_t dot = s.find('.');
    if (dot == std::string::npos || dot == 0 || dot + 2 != s.size()) { why = "is not a number with one decimal"; return false; }
    v = 0;
    for (size_t i = 0; i < s.size(); ++i) {
      if (i == dot) continue;
      if (s[i] < '0' || s[i] > '9') { why = "is not a number with one decimal"; return false; }
      v = v * 10 + (s[i] - '0');
    }
    if (dot > 1 && s[0] == '0') { why = "starts with a zero"; return false; }
    return true;
  }
  void checkQuotient(Ctx& ctx, const std::string& s, LD exact, const std::string& call) {
    LD v; std::string why;
    MON_CHECK(ctx, "Z", tenthsOf(s, v, why), call << " is " << shown(s) << ", which " << why);
    LD slack = exact * 8e-16L + 1e-12L;
    MON_CHECK(ctx, "Z", fabsl(v / 10 - exact) <= 0.05L + slack, call << " is " << shown(s) << " but the value is " << (double)exact);
  }

  void checkUnits(Ctx& ctx, const std::string& s, u64 l, u64 base, const std::string& none, const char* const* units, const std::string& call) {
    if (l < base) {
      MON_CHECK(ctx, "Z", s == std::to_string(l) + none, call << " is " << shown(s));
      return;
    }
    size_t p = 0;
    while (p < s.size() && (s[p] == '.' || (s[p] >= '0' && s[p] <= '9'))) ++p;
    std::string unit = s.substr(p);
    LD u = 1; size_t k = 0;
    for (; k < 6; ++k) { u *= base; if (unit == units[k]) break; }
    MON_CHECK(ctx, "Z", k < 6, call << " is " << shown(s) << ", which has no known unit");
    LD v; std::string why;
    MON_CHECK(ctx, "Z", tenthsOf(s.substr(0, p), v, why), call << " is " << shown(s) << ", which " << why);
    MON_CHECK(ctx, "Z", v >= 10 && v < base * 10, call << " is " << shown(s) << ", which should use another unit");
    MON_CHECK(ctx, "Z", fabsl(v / 10 - l / u) <= 0.05L + 1e-12L, call << " is " << shown(s) << ", which is not the nearest");
    ctx.count("numbers with units")++;
  }

  void numberCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    static const char* const si[] = {"k", "M", "G", "T", "P", "E"};
    static const char* const bin[] = {"kB", "MB", "GB", "TB", "PB", "EB"};
    size_t n = rng.range(20, 60);
    for (size_t i = 0; i < n; ++i) {
      u64 l = someNumber(rng);
      unsigned x = (unsigned)rng.below(10);
      ctx.arg(x); ctx.arg(l);
      ctx.count("numbers formatted")++;
      std::string id = std::to_string(l);
      if (x == 0 || x == 1) {
        std::string s = CP::commafy(l), want;
        for (size_t k = 0; k < id.size(); ++k) {
          if (k > 0 && (id.size() - k) % 3 == 0) want += ',';
          want += id[k];
        }
        MON_CHECK(ctx, "Z", s == want, "commafy(" << l << ") is " << shown(s) << " in place of " << want);
      } else if (x == 2 || x == 3) checkUnits(ctx, CP::withSIPrefix(l), l, 1000, "", si, "withSIPrefix(" + id + ")");
      else if (x == 4 || x == 5) checkUnits(ctx, CP::bytesInUnit(l), l, 1024, "B", bin, "bytesInUnit(" + id + ")");
      else {
        u64 d = rng.chance(1, 12) ? 0 : rng.chance(1, 3) ? rng.range(1, 3000) : someNumber(rng);
        if (rng.chance(1, 4)) l = rng.chance(1, 2) ? rng.below(3000) : d == 0 ? 0 : rng.below(d);
        id = std::to_string(l);
        ctx.arg(d); ctx.arg(l);
        std::string args = "(" + id + ", " + std::to_string(d) + ")";
        if (d == 0) {
          const char* want = l == 0 ? "0/0" : "?/0";
          ctx.count("zero denominators")++;
          MON_CHECK(ctx, "Z", CP::ratioInteger(l, d) == want, "ratioInteger" << args << " is " << shown(CP::ratioInteger(l, d)));
          MON_CHECK(ctx, "Z", CP::ratioDouble((double)l, 0.0) == want, "ratioDouble" << args << " is " << shown(CP::ratioDouble((double)l, 0.0)));
          MON_CHECK(ctx, "Z", CP::percentInteger(l, d) == want + std::string("%"), "percentInteger" << args << " is " << shown(CP::percentInteger(l, d)));
          MON_CHECK(ctx, "Z", CP::percentDouble((double)l, 0.0) == want + std::string("%"), "percentDouble" << args << " is " << shown(CP::percentDouble((double)l, 0.0)));
          MON_CHECK(ctx, "Z", CP::percentIntegerFixed(l, d) == "  " + std::string(want) + '%', "percentIntegerFixed" << args << " is " << shown(CP::percentIntegerFixed(l, d)));
          continue;
        }
        LD q = (LD)l / (LD)d;
        if (q * 1000 > 1e18L) continue; // beyond the printed digits
        ctx.count("quotients formatted")++;
        checkQuotient(ctx, CP::ratioInteger(l, d), q, "ratioInteger" + args);
        double dl = (double)l, dd = (double)d;
        checkQuotient(ctx, CP::ratioDouble(dl, dd), (LD)dl / dd, "ratioDouble" + args);
        std::string s = CP::percentInteger(l, d);
        MON_CHECK(ctx, "Z", !s.empty() && s[s.size() - 1] == '%', "percentInteger" << args << " is " << shown(s));
        checkQuotient(ctx, s.substr(0, s.size() - 1), q * 100, "percentInteger" + args);
        std::string f = CP::percentIntegerFixed(l, d);
        std::string want = std::string(s.size() < 6 ? 6 - s.size() : 0, ' ') + s;
        MON_CHECK(ctx, "Z", f == want, "percentIntegerFixed" << args << " is " << shown(f) << " but percentInteger is " << shown(s));
        s = CP::percentDouble(dl, dd);
        MON_CHECK(ctx, "Z", !s.empty() && s[s.size() - 1] == '%', "percentDouble" << args << " is " << shown(s));
        checkQuotient(ctx, s.substr(0, s.size() - 1), (LD)dl / dd * 100, "percentDouble" + args);
        double r = dl / dd;
        s = CP::percentDouble(r);
        MON_CHECK(ctx, "Z", !s.empty() && s[s.size() - 1] == '%', "percentDouble(" << r << ") is " << shown(s));
        checkQuotient(ctx, s.substr(0, s.size() - 1), (LD)r * 100, "percentDouble(" + str(r) + ")");
        checkQuotient(ctx, CP::oneDecimal(r), r, "oneDecimal(" + str(r) + ")");
        // quotients that are fractions on both sides
        double a = (double)rng.below(100000) / 64, b = (double)rng.range(1, 100000) / 1024;
        checkQuotient(ctx, CP::ratioDouble(a, b), (LD)a / b, "ratioDouble(" + str(a) + ", " + str(b) + ")");
        double smallest = std::ldexp((double)rng.range(1, 1000), -(int)rng.range(0, 25));
        if (smallest > 1e-6) checkQuotient(ctx, CP::ratioDouble(a, smallest), (LD)a / smallest, "ratioDouble(" + str(a) + ", " + str(smallest) + ")");
      }
    }
    ctx.nontrivial = true;
  }

  // ***** displayed messages

  std::string randomMessage(Rng& rng, bool tier) {
    std::string msg;
    size_t lines = rng.chance(1, 4) ? 1 : rng.range(0, 6);
    const bool high = rng.chance(1, 8); // with characters that are not ASCII
    const char* blanks = rng.chance(1, 8) ? "\t\r\v\f" : "\t\t\t\t";
    for (size_t l = 0; l < lines; ++l) {
      if (rng.chance(1, 3)) msg += std::string(rng.range(0, rng.chance(1, 8) ? 90 : 8), rng.chance(1, 5) ? blanks[rng.below(4)] : ' ');
      size_t words = rng.chance(1, 6) ? 0 : rng.chance(1, 3) ? rng.range(1, 4) : rng.range(5, tier ? 80 : 40);
      // sometimes aim at the width exactly
      size_t longest = rng.chance(1, 6) ? 100 : rng.chance(1, 4) ? 2 : 12;
      for (size_t w = 0; w < words; ++w) {
        size_t n = rng.chance(1, 8) ? rng.range(1, longest) : rng.range(1, std::min<size_t>(longest, 12));
        for (size_t i = 0; i < n; ++i) msg += (char)(high && rng.chance(1, 3) ? rng.range(128, 255) : rng.range(33, 126));
        if (w + 1 < words || rng.chance(1, 6)) msg += std::string(rng.chance(1, 8) ? rng.range(1, 5) : 1, rng.chance(1, 20) ? blanks[rng.below(4)] : ' ');
      }
      if (l + 1 < lines || rng.coin()) msg += '\n';
    }
    return msg;
  }

  void displayCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    size_t n = rng.range(1, 6);
    for (size_t i = 0; i < n; ++i) {
      std::string msg = randomMessage(rng, ctx.tier != 0), prefix, label;
      if (rng.chance(1, 6)) {
        // a line that just fits or just does not
        msg = std::string(rng.range(70, 78), 'a') + ' ' + std::string(rng.range(1, 10), 'b') + "\n";
      }
      unsigned how = (unsigned)rng.below(8);
      if (how >= 4 && rng.coin()) {
        prefix = randomText(rng, 6, " >#ab");
        if (rng.chance(1, 20)) prefix = std::string(85, '#');
      }
      ctx.op("display"); ctx.arg(how); ctx.argS(msg); ctx.argS(prefix);
      std::string full;
      Capture cap;
      if (how == 0) { mathic::displayNote(msg); full = "NOTE: " + msg + '\n'; }
      else if (how == 1) { mathic::displayError(msg); full = "ERROR: " + msg + '\n'; }
      else if (how == 2) { mathic::displayInternalError(msg); full = "INTERNAL ERROR: " + msg + '\n'; }
      else if (how == 3) {
        try { mathic::reportError(msg); } catch (const mathic::MathicException& e) { mathic::displayException(e); }
        full = "ERROR: " + msg;
      } else if (prefix.empty() && rng.coin()) { mathic::display(msg); full = msg; }
      else { mathic::display(msg, prefix); full = msg; }
      std::string text = cap.text();
      ctx.count("messages displayed")++;
      MON_CHECK(ctx, "Y", isWrapped(text, full, prefix), "the message " << shown(full) << " with prefix " << shown(prefix) << " is displayed as " << shown(text.substr(0, 900))
        << " in place of " << shown(wrapped(full, prefix, true).substr(0, 900)));
      u64 given = std::count(full.begin(), full.end(), '\n'), got = std::count(text.begin(), text.end(), '\n');
      if (got > given + 1) { ctx.count("lines broken") += got - given; ctx.nontrivial = true; }
    }
  }

  // ***** the timer

  void timerCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    if (rng.chance(1, 30)) {
      // the real clock
      long long before = clock();
      mathic::Timer t;
      long long after = clock();
      volatile u64 sink = 0;
      for (u64 i = rng.below(2000000); i > 0; --i) sink = sink + i;
      long long b2 = clock();
      unsigned long ms = t.getMilliseconds();
      long long a2 = clock();
      ctx.op("real");
      double least = (b2 - after) / 1000.0, most = (a2 - before) / 1000.0;
      ctx.count("readings of the real clock")++;
      MON_CHECK(ctx, "J", (double)ms >= least - 0.51 && (double)ms <= most + 0.51, "the timer reads " << ms << " ms after between " << least << " and " << most << " ms");
      return;
    }
    struct Guard { Guard() { clockControlled = true; } ~Guard() { clockControlled = false; clockStep = 0; } } guard;
    clockStep = 0;
    clockNow = (long long)(rng.coin() ? rng.below(1000000) : rng.skewed(1ull << 50));
    std::unique_ptr<mathic::Timer> t(new mathic::Timer);
    std::unique_ptr<mathic::Timer> other;
    long long start = clockNow, otherStart = 0;
    size_t steps = rng.range(1, 40);
    for (size_t s = 0; s < steps; ++s) {
      long long jump;
      switch (rng.below(7)) {
      case 0: jump = (long long)rng.below(3000); break;
      case 1: jump = (long long)rng.below(3) * 500 + (long long)rng.below(3) - 1; break;
      case 2: jump = (long long)rng.below(120) * 1000000 + (long long)rng.below(3) * 499; break;
      case 3: jump = 3600000000ll * (long long)rng.below(30) + (long long)rng.below(1000); break;
      case 4: jump = 60000000ll * (long long)rng.below(61) - (long long)rng.below(2) * 600; break;
      case 5: jump = (long long)rng.skewed(1ull << 50); break;
      default: jump = 0;
      }
      if (jump < 0) jump = 0;
      clockNow += jump;
      if (clockNow > (1ll << 53)) clockNow = start;
      ctx.op("advance"); ctx.arg((u64)jump);
      if (rng.chance(1, 5)) { t->reset(); start = clockNow; ctx.op("reset"); }
      if (rng.chance(1, 10)) { other.reset(new mathic::Timer(*t)); otherStart = start; ctx.op("copy"); }
      if (other.get() && rng.chance(1, 4)) { std::swap(t, other); std::swap(start, otherStart); }
      long long span = clockNow - start;
      if (span < 0) continue;
      u64 want = (u64)((span + 500) / 1000);
      bool half = span % 1000 == 500;
      u64 ms = t->getMilliseconds();
      ctx.count("readings of the timer")++;
      MON_CHECK(ctx, "J", ms == want || (half && ms + 1 == want), "the timer reads " << ms << " ms after " << span << " microseconds");
      std::ostringstream o;
      std::string file;
      if (rng.coin()) o << *t; else t->print(o);
      {
        char* buf = 0; size_t size = 0;
        FILE* f = open_memstream(&buf, &size);
        if (f == 0) _exit(3);
        t->print(f);
        fclose(f);
        file.assign(buf, size);
        free(buf);
      }
      std::string form;
      char b[64];
      u64 h = ms / 3600000, m = ms / 60000 % 60, sec = ms / 1000 % 60;
      if (h != 0) form += std::to_string(h) + "h";
      if (h != 0 || m != 0) form += std::to_string(m) + "m";
      snprintf(b, sizeof b, "%llu.%03llus", (ull)sec, (ull)(ms % 1000));
      form += b;
      MON_CHECK(ctx, "J", o.str() == form, ms << " ms are printed as " << shown(o.str()) << " in place of " << form);
      MON_CHECK(ctx, "J", file == "(" + form + ")", ms << " ms are printed to a file as " << shown(file) << " in place of (" << form << ")");
      if (h != 0) ctx.count("printed times with hours")++;
      if (span > 0) ctx.nontrivial = true;
      if (rng.chance(1, 6)) {
        // a clock that goes on all the time
        clockStep = (long long)rng.range(1, 5000);
        mathic::Timer u;
        long long low = clockNow - clockStep;
        clockNow += (long long)rng.below(1000000);
        long long atCall = clockNow;
        u64 r = u.getMilliseconds();
        double least = (atCall - low - clockStep) / 1000.0, most = (clockNow - low) / 1000.0;
        clockStep = 0;
        MON_CHECK(ctx, "J", (double)r >= least - 0.51 && (double)r <= most + 0.51, "the timer reads " << r << " ms after between " << least << " and " << most << " ms");
      }
    }
  }

  Registrar r0("tables", "C22 C28 C35", &tableCase, 3);
  Registrar r1("numbers", "C23 C28 C35", &numberCase, 1);
  Registrar r2("messages", "C26 C28 C35f", &displayCase, 2);
  Registrar r3("timer", "C27 C28 C35f", &timerCase, 1);
}
