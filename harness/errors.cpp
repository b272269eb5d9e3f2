// C34 errors that are reported. Oracle: e.
#include <mathic/error.h>
#include "mon.h"
#include "capture.h"
#include <memory>
#include <typeinfo>
using namespace mon;

namespace mathic { MATHIC_DEFINE_EXCEPTION(MonitorsOwn); }

namespace {
  using mathic::reportInternalError;
  unsigned macroLine = 0;
  void macro(const std::string& m) { macroLine = __LINE__; MATHIC_INTERNAL_ERROR(m); }
  int macroInBranch(const std::string& m, bool really) {
    // one statement, and no value has to be returned after it
    if (really) { macroLine = __LINE__; if (really) MATHIC_INTERNAL_ERROR(m); else return 2; }
    else
      return 1;
    return 3;
  }

  struct Expected {
    std::string text;
    const std::type_info* type;
    bool expected, internal; // by the base class
  };

  std::string fileName(Rng& rng) {
    static const char* names[] = {"a.cpp", "", "src/mathic/x.h", "C:\\dir\\y.cpp", "/a b/ c"};
    return rng.chance(1, 4) ? std::string(rng.range(1, 300), 'p') : names[rng.below(5)];
  }

  void raise(Ctx& ctx, unsigned how, const std::string& msg, const std::string& file, unsigned line) {
    // the message and the name are gone when the exception is looked at
    std::unique_ptr<std::string> m(new std::string(msg)), f(new std::string(file));
    switch (how) {
    case 0: mathic::reportError(*m); break;
    case 1: mathic::reportInternalError(*m); break;
    case 2: mathic::reportInternalError(*m, f->c_str(), line); break;
    case 3: mathic::throwError<mathic::UnknownNameException>(*m); break;
    case 4: mathic::throwError<mathic::AmbiguousNameException>(*m); break;
    case 5: mathic::throwError<mathic::UnsupportedException>(*m); break;
    case 6: mathic::throwError<mathic::MathicException>(*m); break;
    case 7: mathic::throwError<mathic::MonitorsOwnException>(*m); break;
    case 8: mathic::throwError<mathic::InternalMathicException>(*m); break;
    case 9: macro(*m); break;
    case 10: macroInBranch(*m, true); break;
    case 11: throw mathic::UnsupportedException(*m);
    case 12: throw mathic::MathicException(*m);
    case 13: throw mathic::InternalMathicException(*m);
    case 14: throw mathic::UnknownNameException(*m);
    default: throw mathic::AmbiguousNameException(*m);
    }
    ctx.fail("e", "an error that was reported was not raised");
  }

  Expected expectation(unsigned how, const std::string& msg, const std::string& file, unsigned line) {
    std::ostringstream place;
    place << msg << "\nThe internal error occured in file " << (how == 2 ? file : std::string(__FILE__)) << " on line " << (how == 2 ? line : macroLine) << '.';
    const std::type_info& U = typeid(mathic::UnknownNameException);
    const std::type_info& A = typeid(mathic::AmbiguousNameException);
    const std::type_info& S = typeid(mathic::UnsupportedException);
    const std::type_info& M = typeid(mathic::MathicException);
    const std::type_info& I = typeid(mathic::InternalMathicException);
    const std::type_info& O = typeid(mathic::MonitorsOwnException);
    switch (how) {
    case 0: return {"ERROR: " + msg, &M, true, false};
    case 1: return {"INTERNAL ERROR: " + msg, &I, false, true};
    case 2: case 9: case 10: return {"INTERNAL ERROR: " + place.str(), &I, false, true};
    case 3: return {"ERROR: " + msg + "\n", &U, true, false};
    case 4: return {"ERROR: " + msg + "\n", &A, true, false};
    case 5: return {"ERROR: " + msg + "\n", &S, true, false};
    case 6: return {"ERROR: " + msg + "\n", &M, true, false};
    case 7: return {"ERROR: " + msg + "\n", &O, true, false};
    case 8: return {"ERROR: " + msg + "\n", &I, false, true};
    case 11: return {msg, &S, true, false};
    case 12: return {msg, &M, true, false};
    case 13: return {msg, &I, false, true};
    case 14: return {msg, &U, true, false};
    default: return {msg, &A, true, false};
    }
  }

  void errorCase(Ctx& ctx) {
    Rng& rng = ctx.rng;
    for (u64 i = rng.range(2, 12); i > 0; --i) {
      unsigned how = (unsigned)rng.below(16);
      std::string msg;
      size_t n = rng.chance(1, 20) ? rng.range(1000, 20000) : rng.range(0, 60);
      for (size_t k = 0; k < n; ++k) msg += rng.chance(1, 8) ? '\n' : (char)rng.range(1, 255);
      if (rng.chance(1, 8)) msg = rng.coin() ? "ERROR: " + msg : "%s%n%d " + msg;
      std::string file = fileName(rng);
      unsigned line = rng.chance(1, 4) ? (rng.coin() ? 4294967295u : 2147483648u) : (unsigned)rng.skewed(1u << 31);
      ctx.op("error"); ctx.arg(how); ctx.argS(msg); ctx.argS(file); ctx.arg(line);
      std::exception_ptr kept;
      bool asExpected = false, asInternal = false;
      std::string out;
      {
        Capture cap;
        try { raise(ctx, how, msg, file, line); }
        catch (const mathic::MathicException&) { kept = std::current_exception(); asExpected = true; }
        catch (const mathic::InternalMathicException&) { kept = std::current_exception(); asInternal = true; }
        catch (const Violation&) { throw; }
        catch (const Foreign&) { throw; }
        catch (...) { kept = std::current_exception(); }
        out = cap.text();
      }
      Expected want = expectation(how, msg, file, line);
      ctx.count("errors raised")++;
      ctx.nontrivial = true;
      MON_CHECK(ctx, "e", asExpected == want.expected && asInternal == want.internal, "error " << how << " was raised as an "
                << (asExpected ? "expected" : asInternal ? "internal" : "unrelated") << " one");
      bool runtime = false, logic = false, named = false;
      std::string text;
      try { std::rethrow_exception(kept); }
      catch (const std::exception& e) {
        text = e.what();
        named = typeid(e) == *want.type;
        runtime = dynamic_cast<const std::runtime_error*>(&e) != 0;
        logic = dynamic_cast<const std::logic_error*>(&e) != 0;
        if (text.empty() && !want.text.empty()) text = e.what();
      }
      catch (...) { ctx.fail("e", "error " + str(how) + " was raised as something that is no exception of the standard"); }
      MON_CHECK(ctx, "e", named, "error " << how << " was raised as another class");
      MON_CHECK(ctx, "e", runtime == want.expected && logic == want.internal, "error " << how << " has the wrong base");
      MON_CHECK(ctx, "e", text == want.text, "error " << how << " says " << shown(text.substr(0, 300)) << " in place of " << shown(want.text.substr(0, 300)));
      MON_CHECK(ctx, "e", out.empty(), "raising error " << how << " displayed " << shown(out.substr(0, 200)));
      if (how == 2 || how == 9 || how == 10) ctx.count("errors with their place")++;
    }
    if (rng.chance(1, 10)) MON_CHECK(ctx, "e", macroInBranch("none", false) == 1, "an error was raised that was not reported");
  }
  Registrar r("errors", "C34 C28 C35f", &errorCase, 1);
}
