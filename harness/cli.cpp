// C24 names, C25 command lines, C32 help. Oracles: A names, C command lines,
// G help.
#include <mathic/NameFactory.h>
#include <mathic/CliParser.h>
#include <mathic/HelpAction.h>
#include <mathic/BoolParameter.h>
#include <mathic/IntegerParameter.h>
#include <mathic/StringParameter.h>
#include <mathic/error.h>
#include "mon.h"
#include "capture.h"
#include "wrap.h"
#include <memory>
using namespace mon;
namespace {
  typedef std::vector<std::string> Strings;

  std::string randomName(Rng& rng, const char* alphabet, size_t most) {
    std::string s;
    for (size_t n = rng.range(1, most), k = strlen(alphabet); n > 0; --n) s += alphabet[rng.below(k)];
    return s;
  }
  // distinct names, many of them related
  Strings randomNames(Rng& rng, size_t n, const char* alphabet) {
    Strings r;
    std::set<std::string> in;
    size_t most = rng.chance(1, 3) ? 3 : rng.chance(1, 12) ? 60 : 8;
    for (size_t tries = 0; r.size() < n && tries < 60 + 3 * n; ++tries) {
      std::string s;
      if (!r.empty() && rng.coin()) {
        s = r[rng.below(r.size())];
        if (rng.coin()) s = s.substr(0, rng.range(1, s.size()));
        if (rng.coin()) s += randomName(rng, alphabet, 2);
      } else s = randomName(rng, alphabet, most);
      if (in.insert(s).second) r.push_back(s);
    }
    return r;
  }
  std::string randomPrefix(Rng& rng, const Strings& names, const char* alphabet) {
    if (names.empty() || rng.chance(1, 5)) return rng.chance(1, 5) ? std::string() : randomName(rng, alphabet, 4);
    std::string s = names[rng.below(names.size())];
    if (rng.chance(2, 3)) s = s.substr(0, rng.range(0, s.size()));
    if (rng.chance(1, 8)) s += randomName(rng, alphabet, 1);
    return s;
  }
  bool startsWith(const std::string& s, const std::string& p) {
    if (s.size() < p.size()) return false;
    for (size_t i = 0; i < p.size(); ++i) if (s[i] != p[i]) return false;
    return true;
  }
  enum Kind { Fine, Unknown, Ambiguous, Other };
  const char* kindName(Kind k) { return k == Fine ? "a result" : k == Unknown ? "an unknown name error" : k == Ambiguous ? "an ambiguous name error" : "another error"; }
  Kind resolve(const Strings& names, const std::string& prefix, std::string& name, Strings& matches) {
    matches.clear();
    for (size_t i = 0; i < names.size(); ++i) {
      if (names[i] == prefix) { name = prefix; return Fine; }
      if (startsWith(names[i], prefix)) matches.push_back(names[i]);
    }
    if (matches.size() == 1) { name = matches[0]; return Fine; }
    return matches.empty() ? Unknown : Ambiguous;
  }
  bool hasToken(const std::string& text, const std::string& token) {
    std::istringstream in(text);
    std::string t;
    while (in >> t) {
      while (!t.empty() && (t[t.size() - 1] == ',' || t[t.size() - 1] == '.' || t[t.size() - 1] == '"' || t[t.size() - 1] == '\'')) t.erase(t.size() - 1);
      while (!t.empty() && (t[0] == '"' || t[0] == '\'')) t.erase(0, 1);
      if (t == token) return true;
    }
    return false;
  }

  // ***** names

  struct Product {
    struct Live { long n = 0; };
    static long& live() { return perCase<Live>().n; }
    virtual ~Product() { --live(); }
    Product() { ++live(); }
    virtual int number() const = 0;
  };
  template<int N> struct Made : Product {
    int number() const override { return N; }
    struct Name { std::string s; };
    static std::string& given() { return perCase<Name>().s; }
    static const char* staticName() { return given().c_str(); }
  };
  typedef mathic::NameFactory<Product> Factory;
  template<int N> std::unique_ptr<Product> makeProduct() { return std::unique_ptr<Product>(new Made<N>()); }
  const size_t maxProducts = 40;
  template<int N> void registerNth(Factory& f, size_t n, const std::string& name, unsigned how) {
    if (n != N) { registerNth<N + 1>(f, n, name, how); return; }
    if (how == 0) f.registerProduct(name, &makeProduct<N>);
    else if (how == 1) mathic::nameFactoryRegister<Made<N> >(f, name);
    else { Made<N>::given() = name; mathic::nameFactoryRegister<Made<N> >(f); }
  }
  template<> void registerNth<maxProducts>(Factory&, size_t, const std::string&, unsigned) {}

  const char* const nameAlphabets[] = {"xy", "xyzXY-_0", "q", "klmn"};

  void nameCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    const char* alphabet = nameAlphabets[rng.below(4)];
    Strings names = randomNames(rng, rng.chance(1, 8) ? 0 : rng.range(1, rng.chance(1, 6) ? maxProducts : 12), alphabet);
    if (rng.chance(1, 15) && names.size() < maxProducts) names.insert(names.begin() + rng.below(names.size() + 1), "");
    Factory f("gizmo");
    MON_CHECK(ctx, "A", f.empty(), "a factory without names is not empty");
    MON_CHECK(ctx, "A", f.abstractProductName() == "gizmo", "abstractProductName() is " << f.abstractProductName());
    Strings in;
    long live = Product::live();
    for (size_t i = 0; i <= names.size(); ++i) {
      if (i > 0) {
        registerNth<0>(f, i - 1, names[i - 1], (unsigned)rng.below(3));
        in.push_back(names[i - 1]);
        ctx.op("register"); ctx.argS(names[i - 1]);
        MON_CHECK(ctx, "A", !f.empty(), "a factory with names is empty");
      }
      size_t queries = i == names.size() ? 24 : rng.below(4);
      for (size_t q = 0; q < queries; ++q) {
        std::string prefix = randomPrefix(rng, names, alphabet);
        unsigned x = (unsigned)rng.below(5);
        ctx.op("query"); ctx.arg(x); ctx.argS(prefix);
        std::string want; Strings matches;
        size_t exact = (size_t)(std::find(in.begin(), in.end(), prefix) - in.begin());
        bool isName = exact < in.size();
        if (x == 0) {
          Strings got, expect;
          f.namesWithPrefix(prefix, got);
          for (size_t k = 0; k < in.size(); ++k) if (startsWith(in[k], prefix)) expect.push_back(in[k]);
          std::sort(expect.begin(), expect.end());
          ctx.count("listings")++;
          MON_CHECK(ctx, "A", got == expect, "namesWithPrefix(" << shown(prefix) << ") gives " << got.size() << " names in place of " << expect.size() << " or in another order, the first being "
            << (got.empty() ? "none" : shown(got[0])));
        } else if (x == 1) {
          std::unique_ptr<Product> p = f.createNullOnUnknown(prefix);
          MON_CHECK(ctx, "A", (p.get() != 0) == isName, "createNullOnUnknown(" << shown(prefix) << ") gives " << (p.get() ? "a product" : "nothing"));
          if (isName) MON_CHECK(ctx, "A", p->number() == (int)exact, "createNullOnUnknown(" << shown(prefix) << ") gives the product of " << shown(names[p->number()]));
        } else if (x == 2) {
          Kind got = Fine;
          std::unique_ptr<Product> p;
          try { p = f.create(prefix); }
          catch (const mathic::UnknownNameException&) { got = Unknown; }
          catch (const mathic::AmbiguousNameException&) { got = Ambiguous; }
          catch (const mathic::MathicException&) { got = Other; }
          MON_CHECK(ctx, "A", got == (isName ? Fine : Unknown), "create(" << shown(prefix) << ") gives " << kindName(got));
          if (isName) MON_CHECK(ctx, "A", p.get() != 0 && p->number() == (int)exact, "create(" << shown(prefix) << ") gives another product");
        } else {
          Kind expect = resolve(in, prefix, want, matches), got = Fine;
          std::string text, name;
          std::unique_ptr<Product> p;
          try {
            if (x == 3) name = mathic::uniqueNameWithPrefix(f, prefix);
            else p = mathic::createWithPrefix(f, prefix);
          }
          catch (const mathic::UnknownNameException& e) { got = Unknown; text = e.what(); }
          catch (const mathic::AmbiguousNameException& e) { got = Ambiguous; text = e.what(); }
          catch (const mathic::MathicException& e) { got = Other; text = e.what(); }
          const char* call = x == 3 ? "uniqueNameWithPrefix(" : "createWithPrefix(";
          MON_CHECK(ctx, "A", got == expect, call << shown(prefix) << ") gives " << kindName(got) << " in place of " << kindName(expect));
          ctx.count(expect == Fine ? "names resolved" : expect == Unknown ? "unknown names" : "ambiguous names")++;
          if (expect == Fine && x == 3) MON_CHECK(ctx, "A", name == want, call << shown(prefix) << ") is " << shown(name) << " in place of " << shown(want));
          if (expect == Fine && x == 4) MON_CHECK(ctx, "A", p.get() != 0 && names[p->number()] == want, call << shown(prefix) << ") gives " << (p.get() ? "the product of " + shown(names[p->number()]) : "nothing") << " in place of that of " << shown(want));
          if (expect == Ambiguous)
            for (size_t k = 0; k < in.size(); ++k) {
              bool candidate = std::find(matches.begin(), matches.end(), in[k]) != matches.end();
              if (in[k].empty() || in[k] == prefix) continue;
              MON_CHECK(ctx, "A", hasToken(text, in[k]) == candidate, "the error of the ambiguous prefix " << shown(prefix) << (candidate ? " does not name " : " names ") << shown(in[k]) << ": " << shown(text));
            }
          if (expect == Ambiguous) ctx.nontrivial = true;
        }
      }
    }
    MON_CHECK(ctx, "A", Product::live() == live, "products are left behind");
  }

  // ***** command lines

  enum PType { PInt, PBool, PString };
  struct PSpec {
    PType type;
    std::string name, description;
    unsigned defInt; bool defBool; std::string defString;
    std::string value() const { return type == PInt ? std::to_string(defInt) : type == PBool ? (defBool ? "on" : "off") : defString; }
  };
  struct ASpec {
    std::string name, description, shortDescription;
    std::vector<PSpec> params;
    bool takesDirect, odd;
  };
  const size_t maxActions = 24;
  size_t someActions(Rng& rng, size_t least) { return rng.range(least, rng.chance(1, 8) ? maxActions : 6); }
  struct Specs { ASpec all[maxActions]; };
  ASpec* specs() { return perCase<Specs>().all; }

  struct TestAction : mathic::Action {
    const ASpec& spec;
    std::vector<std::unique_ptr<mathic::CliParameter> > params;
    std::vector<std::string> direct;
    unsigned directCalls = 0;
    mathic::CliParser* parser = 0;
    struct Live { long n = 0; };
    static long& live() { return perCase<Live>().n; }
    explicit TestAction(const ASpec& s): spec(s) {
      ++live();
      for (size_t i = 0; i < s.params.size(); ++i) {
        const PSpec& p = s.params[i];
        if (p.type == PInt) params.emplace_back(new mathic::IntegerParameter(p.name, p.description, p.defInt));
        else if (p.type == PBool) params.emplace_back(new mathic::BoolParameter(p.name, p.description, p.defBool));
        else params.emplace_back(new mathic::StringParameter(p.name, p.description, p.defString));
      }
    }
    ~TestAction() { --live(); }
    void directOptions(std::vector<std::string> tokens, mathic::CliParser& p) override {
      ++directCalls;
      direct = tokens;
      parser = &p;
      if (!spec.takesDirect) mathic::Action::directOptions(tokens, p);
    }
    void performAction() override {}
    const char* name() const override { return spec.name.c_str(); }
    const char* description() const override { return spec.description.c_str(); }
    const char* shortDescription() const override { return spec.shortDescription.c_str(); }
    void pushBackParameters(std::vector<mathic::CliParameter*>& ps) override {
      for (size_t i = 0; i < params.size(); ++i) ps.push_back(params[i].get());
    }
  };
  template<int N> struct NthAction : TestAction {
    NthAction(): TestAction(specs()[N]) {}
    static const char* staticName() { return specs()[N].name.c_str(); }
  };
  template<int N> void registerAction(mathic::CliParser& p, size_t n, bool byStatic) {
    if (n != N) { registerAction<N + 1>(p, n, byStatic); return; }
    if (byStatic) p.registerAction<NthAction<N> >();
    else p.registerAction<NthAction<N> >(specs()[N].name);
  }
  template<> void registerAction<maxActions>(mathic::CliParser&, size_t, bool) {}

  std::string words(Rng& rng, size_t most) {
    std::string s;
    for (size_t n = rng.range(0, most); n > 0; --n) {
      for (size_t k = rng.range(1, 9); k > 0; --k) s += (char)rng.range('a', 'z');
      if (n > 1) s += rng.chance(1, 10) ? "  " : rng.chance(1, 30) ? "\n" : " ";
    }
    return s;
  }
  std::string oneLine(std::string s) { std::replace(s.begin(), s.end(), '\n', ' '); return s; }

  unsigned someInt(Rng& rng) {
    unsigned m = 0x7FFFFFFFu;
    switch (rng.below(4)) {
    case 0: return (unsigned)rng.below(12);
    case 1: return m - (unsigned)rng.below(2);
    case 2: { unsigned p = 1; for (u64 i = rng.below(10); i > 0; --i) p *= 10; return p - (unsigned)rng.below(2); }
    }
    return (unsigned)rng.skewed(m);
  }
  std::string badInt(Rng& rng) {
    std::string v = std::to_string(someInt(rng));
    switch (rng.below(14)) {
    case 0: return "0" + v;
    case 1: return "+" + v;
    case 2: return v + "x";
    case 3: return " " + v;
    case 4: return v + " ";
    case 5: return v + ".0";
    case 6: return "0x" + v;
    case 7: return std::to_string((1ull << 32) + rng.skewed(1ull << 62));
    case 8: return "99999999999999999999" + v;
    case 9: return "on";
    case 10: return std::string("x") + v;
    case 11: return v + "e3";
    case 12: return "1," + v;
    }
    return "4294967296";
  }
  bool goodInt(const std::string& s, unsigned& v) {
    if (s.empty() || s.size() > 10 || (s.size() > 1 && s[0] == '0')) return false;
    u64 x = 0;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] < '0' || s[i] > '9') return false; x = x * 10 + (u64)(s[i] - '0'); }
    v = (unsigned)x;
    return x <= 0x7FFFFFFFu;
  }

  Strings makeSpecs(Rng& rng, size_t n, const char* alphabet) {
    Strings names;
    do { names = randomNames(rng, n, alphabet); } while (std::find(names.begin(), names.end(), "help") != names.end());
    for (size_t i = 0; i < names.size(); ++i) {
      ASpec& a = specs()[i];
      a.name = names[i];
      a.description = words(rng, 30) + (rng.coin() ? "\n" : "");
      a.shortDescription = oneLine(words(rng, rng.chance(1, 4) ? 20 : 6));
      a.takesDirect = rng.coin();
      a.params.clear();
      Strings params = randomNames(rng, rng.chance(1, 6) ? 0 : rng.range(1, rng.chance(1, 12) ? 30 : 7), alphabet);
      for (size_t k = 0; k < params.size(); ++k) {
        PSpec p;
        if (params[k][0] == '-' && rng.coin()) continue;
        p.type = (PType)rng.below(3);
        p.name = params[k];
        p.description = words(rng, rng.coin() ? 5 : 25);
        p.defInt = someInt(rng);
        p.defBool = rng.coin();
        p.defString = oneLine(words(rng, 3));
        a.params.push_back(p);
      }
    }
    return names;
  }

  const char* const cliAlphabets[] = {"xy", "xyzXY-_0", "hepl", "klmn"};

  void parameterCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    std::string name = randomName(rng, "abc", 5), desc = words(rng, 6);
    unsigned di = someInt(rng); bool db = rng.coin(); std::string ds = words(rng, 3);
    mathic::IntegerParameter pi(name, desc, di);
    mathic::BoolParameter pb(name, desc, db);
    mathic::StringParameter ps(name, desc, ds);
    std::string more = words(rng, 3);
    mathic::CliParameter* all[] = {&pi, &pb, &ps};
    for (unsigned i = 0; i < 3; ++i) {
      MON_CHECK(ctx, "C", all[i]->name() == name && all[i]->description() == desc, "a parameter has another name or description than given");
      all[i]->appendToDescription(more);
      MON_CHECK(ctx, "C", all[i]->description() == desc + more, "appendToDescription changed " << shown(desc) << " to " << shown(all[i]->description()));
    }
    MON_CHECK(ctx, "C", pi.value() == di && pb.value() == db && ps.value() == ds, "a parameter does not have its default value");
    for (size_t n = rng.range(3, 25); n > 0; --n) {
      unsigned x = (unsigned)rng.below(9);
      ctx.arg(x);
      if (x < 3) {
        bool bad = x == 2;
        std::string arg = bad ? (rng.chance(1, 5) ? "" : rng.chance(1, 6) ? "-" + std::to_string(someInt(rng)) : badInt(rng)) : std::to_string(someInt(rng));
        unsigned v = 0;
        bool good = goodInt(arg, v);
        ctx.argS(arg);
        bool threw = false;
        try { pi.processArgument(arg); } catch (const mathic::MathicException&) { threw = true; }
        ctx.count(good ? "arguments accepted" : "arguments refused")++;
        MON_CHECK(ctx, "C", threw == !good, "the integer parameter " << (threw ? "refuses " : "accepts ") << shown(arg));
        if (good) MON_CHECK(ctx, "C", pi.value() == v && (unsigned)pi == v && pi.valueAsString() == arg, "the integer parameter given " << shown(arg) << " has value " << pi.value() << " shown as " << shown(pi.valueAsString()));
        else pi.setValue(v = someInt(rng));
      } else if (x < 5) {
        const char* args[] = {"", "on", "off", "On", "OFF", "of", "onn", "1", "0", "true", "yes", " on"};
        std::string arg = args[rng.below(rng.coin() ? 3 : 12)];
        ctx.argS(arg);
        bool good = arg == "" || arg == "on" || arg == "off", before = pb.value(), threw = false;
        try { pb.processArgument(arg); } catch (const mathic::MathicException&) { threw = true; }
        ctx.count(good ? "arguments accepted" : "arguments refused")++;
        MON_CHECK(ctx, "C", threw == !good, "the boolean parameter " << (threw ? "refuses " : "accepts ") << shown(arg));
        bool v = good ? arg != "off" : before;
        MON_CHECK(ctx, "C", pb.value() == v && (bool)pb == v && pb.valueAsString() == (v ? "on" : "off"), "the boolean parameter given " << shown(arg) << " has value " << pb.value() << " shown as " << shown(pb.valueAsString()));
      } else if (x < 7) {
        std::string arg = rng.chance(1, 4) ? "" : words(rng, 5);
        ctx.argS(arg);
        ps.processArgument(arg);
        ctx.count("arguments accepted")++;
        MON_CHECK(ctx, "C", ps.value() == arg && ps.valueAsString() == arg && ps == arg && !(ps == arg + "x"), "the string parameter given " << shown(arg) << " has value " << shown(ps.value()));
      } else if (x == 7) {
        unsigned v = someInt(rng); bool b = rng.coin(); std::string s = words(rng, 2);
        pi = v; pb = b; ps = s;
        MON_CHECK(ctx, "C", pi.value() == v && pb.value() == b && ps.value() == s && pi.valueAsString() == std::to_string(v), "a parameter does not have the value assigned to it");
      } else {
        unsigned v = someInt(rng); bool b = rng.coin(); std::string s = words(rng, 2);
        pi.setValue(v); pb.setValue(b); ps.setValue(s);
        const std::string& c = ps;
        MON_CHECK(ctx, "C", pi.value() == v && pb.value() == b && c == s, "a parameter does not have the value set");
      }
    }
    ctx.nontrivial = true;
  }

  void commandCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    const char* alphabet = cliAlphabets[rng.below(4)];
    size_t n = rng.chance(1, 10) ? 0 : someActions(rng, 1);
    bool help = rng.chance(1, 4);
    Strings names = makeSpecs(rng, n, alphabet), all = names;
    mathic::CliParser parser;
    long live = TestAction::live();
    size_t helpAt = help ? (size_t)rng.below(names.size() + 1) : names.size() + 1;
    for (size_t i = 0; i <= names.size(); ++i) {
      if (i == helpAt) parser.registerHelpAction("pre", "post");
      if (i < names.size()) { registerAction<0>(parser, i, rng.coin()); ctx.op("action"); ctx.argS(names[i]); }
    }
    if (help) all.push_back("help");
    {
      Strings got, want = all;
      parser.pushBackRegisteredActionNames(got);
      std::sort(want.begin(), want.end());
      MON_CHECK(ctx, "C", got == want, "pushBackRegisteredActionNames gives " << got.size() << " names in place of " << want.size() << " or in another order");
    }
    for (size_t line = rng.range(2, 12); line > 0; --line) {
      Strings cl;
      std::set<int> errors; // of kinds
      std::string name; Strings matches;
      Kind k = Fine;
      ASpec* spec = 0;
      Strings direct;
      std::vector<std::string> values;
      bool extra = false;
      if (!rng.chance(1, 40)) cl.push_back(randomPrefix(rng, all, alphabet));
      if (cl.empty()) k = Unknown;
      else k = resolve(all, cl[0], name, matches);
      if (k != Fine) errors.insert(k);
      else {
        Strings params;
        if (name != "help") {
          spec = specs() + (std::find(names.begin(), names.end(), name) - names.begin());
          for (size_t i = 0; i < spec->params.size(); ++i) { params.push_back(spec->params[i].name); values.push_back(spec->params[i].value()); }
        }
        // mostly sensible tokens, in the order of a command line
        size_t directs = rng.chance(1, 3) ? rng.range(1, 3) : 0;
        for (size_t i = 0; i < directs; ++i) cl.push_back(rng.chance(1, 10) ? "" : randomName(rng, "abc-", 4));
        for (size_t i = rng.range(0, 6); i > 0; --i) {
          size_t which = params.empty() ? 0 : (size_t)rng.below(params.size());
          std::string opt = params.empty() || rng.chance(1, 15) ? randomPrefix(rng, params, alphabet) : params[which];
          if (!params.empty() && rng.chance(1, 3)) {
            // the shortest prefix that is good enough, often
            for (size_t len = 0; len < params[which].size(); ++len) {
              std::string r; Strings m;
              if (resolve(params, params[which].substr(0, len), r, m) == Fine && r == params[which]) { opt = params[which].substr(0, len); break; }
            }
          }
          cl.push_back("-" + opt);
          if (rng.chance(1, 20)) cl.push_back("");
          std::string r; Strings m;
          PType type = PString;
          if (resolve(params, opt, r, m) == Fine) type = spec->params[std::find(params.begin(), params.end(), r) - params.begin()].type;
          if (type == PInt && !rng.chance(1, 30)) cl.push_back(rng.chance(1, 30) ? badInt(rng) : std::to_string(someInt(rng)));
          else if (type == PBool && rng.chance(2, 3)) cl.push_back(rng.chance(1, 30) ? "maybe" : rng.coin() ? "on" : "off");
          else if (type == PString && rng.chance(2, 3)) cl.push_back(rng.chance(1, 4) ? oneLine(words(rng, 3)) : rng.chance(1, 3) ? "a-b" : randomName(rng, "abc= /", 6));
          if (rng.chance(1, 40)) cl.push_back("stray");
        }
        // what it means
        bool sawDash = false;
        int current = -1; // index of the parameter waiting for an argument
        bool waiting = false;
        std::string argument;
        Strings tokens;
        for (size_t i = 1; i < cl.size(); ++i) {
          if (cl[i].empty()) continue;
          if (cl[i][0] == '-') sawDash = true;
          (sawDash ? tokens : direct).push_back(cl[i]);
        }
        if (!direct.empty() && (spec == 0 ? direct.size() > 1 : !spec->takesDirect)) errors.insert(Other);
        for (size_t i = 0; i < tokens.size(); ++i) {
          if (tokens[i][0] != '-') { errors.insert(Other); extra = true; continue; }
          std::string opt = tokens[i].substr(1), arg, r;
          Strings m;
          if (i + 1 < tokens.size() && tokens[i + 1][0] != '-') { arg = tokens[i + 1]; ++i; }
          Kind pk = resolve(params, opt, r, m);
          if (pk != Fine) { errors.insert(pk); continue; }
          size_t which = (size_t)(std::find(params.begin(), params.end(), r) - params.begin());
          unsigned v = 0;
          PType type = spec->params[which].type;
          if (type == PInt) { if (goodInt(arg, v)) values[which] = arg; else errors.insert(Other); }
          else if (type == PBool) { if (arg == "" || arg == "on") values[which] = "on"; else if (arg == "off") values[which] = "off"; else errors.insert(Other); }
          else values[which] = arg;
          ctx.count("options given")++;
        }
      }
      ctx.op("parse");
      for (size_t i = 0; i < cl.size(); ++i) ctx.argS(cl[i]);
      Kind got = Fine;
      std::string text;
      std::unique_ptr<mathic::Action> a;
      try {
        if (rng.coin()) a = parser.parse(cl);
        else {
          std::vector<std::vector<char> > copy;
          for (size_t i = 0; i < cl.size(); ++i) { copy.emplace_back(cl[i].begin(), cl[i].end()); copy.back().push_back('\0'); }
          std::vector<char*> argv;
          for (size_t i = 0; i < cl.size(); ++i) argv.push_back(copy[i].data());
          argv.push_back(0);
          a = parser.parse((int)cl.size(), argv.data());
        }
      }
      catch (const mathic::UnknownNameException& e) { got = Unknown; text = e.what(); }
      catch (const mathic::AmbiguousNameException& e) { got = Ambiguous; text = e.what(); }
      catch (const mathic::MathicException& e) { got = Other; text = e.what(); }
      if (errors.empty()) {
        ctx.count("command lines parsed")++;
        MON_CHECK(ctx, "C", got == Fine, "a correct command line gives " << kindName(got) << ": " << shown(text));
        MON_CHECK(ctx, "C", a.get() != 0 && a->name() == name, "the action is " << (a.get() ? a->name() : "missing") << " in place of " << name);
        if (spec == 0) {
          MON_CHECK(ctx, "C", a->isHelpAction(), "help is no help action");
          continue;
        }
        TestAction* t = dynamic_cast<TestAction*>(a.get());
        MON_CHECK(ctx, "C", t != 0 && !a->isHelpAction(), "the action is of another class");
        MON_CHECK(ctx, "C", t->directCalls == 1 && t->direct == direct && t->parser == &parser, "the action got " << t->direct.size() << " direct arguments in place of " << direct.size() << ", in " << t->directCalls << " calls");
        for (size_t i = 0; i < values.size(); ++i) {
          MON_CHECK(ctx, "C", t->params[i]->valueAsString() == values[i], "parameter " << shown(spec->params[i].name) << " of " << shown(name) << " has value " << shown(t->params[i]->valueAsString()) << " in place of " << shown(values[i]));
          if (values[i] != spec->params[i].value()) { ctx.count("parameters set")++; ctx.nontrivial = true; }
        }
      } else {
        ctx.count("malformed command lines")++;
        MON_CHECK(ctx, "C", got != Fine, "a command line that should give " << kindName((Kind)*errors.begin()) << " is accepted");
        MON_CHECK(ctx, "C", errors.count(got) != 0, "a command line that should give " << kindName((Kind)*errors.begin()) << " gives " << kindName(got) << ": " << shown(text));
      }
    }
    MON_CHECK(ctx, "C", TestAction::live() == live, "actions are left behind");
  }

  // ***** help

  void helpCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    const char* alphabet = cliAlphabets[rng.below(4)];
    Strings names = makeSpecs(rng, someActions(rng, 0), alphabet), all = names;
    all.push_back("help");
    mathic::CliParser parser;
    std::string pre = words(rng, 25), post = words(rng, 25);
    size_t helpAt = (size_t)rng.below(names.size() + 1);
    for (size_t i = 0; i <= names.size(); ++i) {
      if (i == helpAt) parser.registerHelpAction(pre, post);
      if (i < names.size()) { registerAction<0>(parser, i, rng.coin()); ctx.op("action"); ctx.argS(names[i]); }
    }
    MON_CHECK(ctx, "G", parser.helpPreMessage() == pre && parser.helpPostMessage() == post, "the registered messages are " << shown(parser.helpPreMessage()) << " and " << shown(parser.helpPostMessage()));
    std::map<std::string, ASpec*> byName;
    for (size_t i = 0; i < names.size(); ++i) byName[names[i]] = specs() + i;
    for (size_t rounds = rng.range(1, 4); rounds > 0; --rounds) {
      unsigned x = (unsigned)rng.below(4);
      Strings cl;
      cl.push_back("help");
      ctx.op("help"); ctx.arg(x);
      if (x == 0) {
        std::unique_ptr<mathic::Action> a = parser.parse(cl);
        std::string text;
        { Capture cap; a->performAction(); text = cap.text(); }
        std::string want = pre + "\n";
        size_t w1 = 4, w2 = strlen(mathic::HelpAction().shortDescription());
        for (size_t i = 0; i < names.size(); ++i) { w1 = std::max(w1, names[i].size()); w2 = std::max(w2, specs()[i].shortDescription.size()); }
        Strings sorted = all;
        std::sort(sorted.begin(), sorted.end());
        for (size_t i = 0; i < sorted.size(); ++i) {
          std::string s = sorted[i] == "help" ? mathic::HelpAction().shortDescription() : byName[sorted[i]]->shortDescription;
          want += " " + std::string(w1 - sorted[i].size(), ' ') + sorted[i] + " - " + s + std::string(w2 - s.size(), ' ') + '\n';
        }
        want += "\n" + post + "\n";
        ctx.count("actions listed") += sorted.size();
        if (names.size() > 1) ctx.nontrivial = true;
        MON_CHECK(ctx, "G", isWrapped(text, want, ""), "the help is " << shown(text) << " in place of " << shown(wrapped(want, "", true)));
      } else {
        std::string topic = randomPrefix(rng, all, alphabet), name;
        if (topic.empty() || topic[0] == '-') topic = "help";
        Strings matches;
        cl.push_back(topic);
        ctx.argS(topic);
        if (rng.chance(1, 8)) {
          cl.push_back(rng.coin() ? "help" : "zz");
          bool threw = false;
          std::string text;
          try {
            std::unique_ptr<mathic::Action> a = parser.parse(cl);
            Capture cap;
            a->performAction();
          } catch (const mathic::MathicException& e) { threw = true; text = e.what(); }
          MON_CHECK(ctx, "G", threw, "help with two topics gives no error");
          ctx.count("errors of help")++;
          continue;
        }
        Kind expect = resolve(all, topic, name, matches), got = Fine;
        std::string text, error;
        try {
          std::unique_ptr<mathic::Action> a = parser.parse(cl);
          Capture cap;
          a->performAction();
          text = cap.text();
        }
        catch (const mathic::UnknownNameException& e) { got = Unknown; error = e.what(); }
        catch (const mathic::AmbiguousNameException& e) { got = Ambiguous; error = e.what(); }
        catch (const mathic::MathicException& e) { got = Other; error = e.what(); }
        MON_CHECK(ctx, "G", got == expect, "help on " << shown(topic) << " gives " << kindName(got) << " in place of " << kindName(expect));
        if (expect != Fine) { ctx.count("errors of help")++; continue; }
        ctx.count("topics displayed")++;
        std::string desc = name == "help" ? mathic::HelpAction().description() : byName[name]->description;
        std::string want = wrapped("Displaying information on action: " + name + "\n\n" + desc + "\n", "", true);
        std::map<std::string, const PSpec*> params;
        if (name != "help") for (size_t i = 0; i < byName[name]->params.size(); ++i) params[byName[name]->params[i].name] = &byName[name]->params[i];
        if (!params.empty()) {
          ctx.nontrivial = true;
          want += "\nThe parameters accepted by " + name + " are as follows.\n";
          for (std::map<std::string, const PSpec*>::iterator it = params.begin(); it != params.end(); ++it) {
            const PSpec& p = *it->second;
            ctx.count("parameters described")++;
            want += "\n -" + p.name + (p.type == PInt ? " INTEGER" : p.type == PBool ? " [BOOL]" : " STRING") + "   (default is " + p.value() + ")\n";
            want += wrapped(p.description, "   ", true);
          }
        }
        MON_CHECK(ctx, "G", text == want, "help on " << shown(topic) << " is " << shown(text) << " in place of " << shown(want));
      }
    }
  }

  Registrar r0("names", "C24 C28 C35", &nameCase, 1);
  Registrar r1("parameters", "C25 C28 C35", &parameterCase, 1);
  Registrar r2("commands", "C25 C28 C35", &commandCase, 3);
  Registrar r3("help", "C32 C28 C35f", &helpCase, 2);
}
