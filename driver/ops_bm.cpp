#include "driver.h"

void defineBmOps() {
  // ---- chronometer
  OPS["bm.new"] = [](Reader &r) { std::string n = r.s(); W->bms[n] = r.more() ? new SimpleBenchmark(r.u()) : new SimpleBenchmark(); return std::string(); };
  OPS["bm.copy"] = [](Reader &r) { std::string n = r.s(); W->bms[n] = new SimpleBenchmark(*need(W->bms, r.s())); return std::string(); };
  OPS["bm.assign"] = [](Reader &r) { SimpleBenchmark *b = need(W->bms, r.s()); *b = *need(W->bms, r.s()); return std::string(); };
  OPS["bm.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->bms, n); W->bms.erase(n); return std::string(); };
  OPS["bm.start"] = [](Reader &r) { need(W->bms, r.s())->start(); return std::string(); };
  OPS["bm.cont"] = [](Reader &r) { need(W->bms, r.s())->cont(); return std::string(); };
  OPS["bm.reset"] = [](Reader &r) { need(W->bms, r.s())->reset(); return std::string(); };
  OPS["bm.step"] = [](Reader &r) { SimpleBenchmark *b = need(W->bms, r.s()); if (r.more()) b->step(r.bytes()); else b->step(); return std::string(); };
  OPS["bm.pause"] = [](Reader &r) { SimpleBenchmark *b = need(W->bms, r.s()); if (r.more()) b->pause(r.bytes()); else b->pause(); return std::string(); };
  OPS["bm.stop"] = [](Reader &r) { SimpleBenchmark *b = need(W->bms, r.s()); if (r.more()) b->stop(r.bytes()); else b->stop(); return std::string(); };
  OPS["bm.state"] = [](Reader &r) { SimpleBenchmark *b = need(W->bms, r.s()); return std::string(b->isPaused() ? "1" : "0") + " " + (b->isStopped() ? "1" : "0"); };
  OPS["bm.at"] = [](Reader &r) { // by number
    SimpleBenchmark *b = need(W->bms, r.s());
    size_t c = r.u();
    return std::to_string(b->benchmark(c).count()) + " " + std::to_string(b->cumulativeBenchmark(c, true).count()) + " " + std::to_string(b->cumulativeBenchmark(c, false).count());
  };
  OPS["bm.named"] = [](Reader &r) {
    SimpleBenchmark *b = need(W->bms, r.s());
    std::string c = r.bytes();
    return std::to_string(b->benchmark(c).count()) + " " + std::to_string(b->cumulativeBenchmark(c, true).count()) + " " + std::to_string(b->cumulativeBenchmark(c, false).count());
  };
  OPS["bm.last"] = [](Reader &r) {
    SimpleBenchmark *b = need(W->bms, r.s());
    return std::to_string(b->benchmark().count()) + " " + std::to_string(b->cumulativeBenchmark().count());
  };
  OPS["bm.stats"] = [](Reader &r) {
    SimpleBenchmark *b = need(W->bms, r.s());
    std::string s;
    for (int np = 1; np >= 0; np--) {
      if (!s.empty()) s += " ";
      s += fmtd(b->average(np)) + " " + fmtd(b->variance(np)) + " " + fmtd(b->standardDeviation(np)) + " " + std::to_string(b->min(np).count()) + " " + std::to_string(b->max(np).count());
    }
    return s;
  };
  OPS["bm.statsd"] = [](Reader &r) { // with the default argument
    SimpleBenchmark *b = need(W->bms, r.s());
    return fmtd(b->average()) + " " + fmtd(b->variance()) + " " + fmtd(b->standardDeviation()) + " " + std::to_string(b->min().count()) + " " + std::to_string(b->max().count());
  };

  // ---- exceptions: the object lives on the heap of the case
  OPS["ex.new"] = [](Reader &r) {
    std::string n = r.s(), kind = r.s(), m = r.bytes();
    bool fatal = r.u() != 0;
    int code = (int) r.ll();
    if (kind == "e") W->exs[n] = new Exception(m, fatal, code);
    else if (kind == "p") W->exs[n] = new ProtocolException(m, fatal, code);
    else W->exs[n] = new OutOfBoundException(m, fatal);
    return std::string();
  };
  OPS["ex.newd"] = [](Reader &r) {
    std::string n = r.s(), kind = r.s();
    if (kind == "e") W->exs[n] = new Exception();
    else if (kind == "p") W->exs[n] = new ProtocolException();
    else W->exs[n] = new OutOfBoundException();
    return std::string();
  };
  OPS["ex.newm"] = [](Reader &r) {
    std::string n = r.s(), kind = r.s(), m = r.bytes();
    if (kind == "e") W->exs[n] = new Exception(m);
    else if (kind == "p") W->exs[n] = new ProtocolException(m);
    else W->exs[n] = new OutOfBoundException(m);
    return std::string();
  };
  OPS["ex.copy"] = [](Reader &r) { std::string n = r.s(); W->exs[n] = new Exception(*need(W->exs, r.s())); return std::string(); };
  OPS["ex.assign"] = [](Reader &r) { Exception *e = need(W->exs, r.s()); *e = *need(W->exs, r.s()); return std::string(); };
  OPS["ex.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->exs, n); W->exs.erase(n); return std::string(); };
  OPS["ex.setm"] = [](Reader &r) { Exception *e = need(W->exs, r.s()); e->setMessage(r.bytes()); return std::string(); };
  OPS["ex.setf"] = [](Reader &r) { Exception *e = need(W->exs, r.s()); if (r.more()) e->setFatal(r.u() != 0); else e->setFatal(); return std::string(); };
  OPS["ex.setc"] = [](Reader &r) { Exception *e = need(W->exs, r.s()); e->setExitCode((int) r.ll()); return std::string(); };
  OPS["ex.all"] = [](Reader &r) {
    Exception *e = need(W->exs, r.s());
    return hexOf(e->getMessage()) + " " + hexOf(std::string(e->what())) + " " + (e->isFatal() ? "1" : "0") + " " + std::to_string(e->getExitCode());
  };
  OPS["ex.throw"] = [](Reader &r) -> std::string { // throw a copy, catch it as X
    Exception *e = need(W->exs, r.s());
    std::string as = r.s();
    auto desc = [](const Exception &x) { return hexOf(x.getMessage()) + " " + hexOf(std::string(x.what())) + " " + (x.isFatal() ? "1" : "0") + " " + std::to_string(x.getExitCode()); };
    auto thrower = [&]() {
      if (auto *o = dynamic_cast<OutOfBoundException *>(e)) throw OutOfBoundException(*o);
      if (auto *p = dynamic_cast<ProtocolException *>(e)) throw ProtocolException(*p);
      throw Exception(*e);
    };
    if (as == "std") {
      try { thrower(); } catch (std::exception &x) { return hexOf(std::string(x.what())); }
    } else if (as == "base") {
      try { thrower(); } catch (Exception &x) { return desc(x); }
    } else if (as == "p") {
      try { thrower(); } catch (ProtocolException &x) { return "p " + desc(x); } catch (Exception &x) { return "other"; }
    } else {
      try { thrower(); } catch (OutOfBoundException &x) { return "o " + desc(x); } catch (Exception &x) { return "other"; }
    }
    return "none";
  };
}
