#include "driver.h"

void defineMiscOps() {
  // ---- StrInt
  OPS["si.new"] = [](Reader &r) {
    std::string n = r.s();
    size_t bytes = r.u();
    if (!r.more()) {
      W->strints[n] = new StrInt(bytes);
    } else {
      std::string v = r.s();
      if (v == "null") {
        W->strints[n] = new StrInt(bytes, nullptr, r.u());
      } else {
        std::string b = unhex(v);
        byte *buf = new byte[b.size()];
        memcpy(buf, b.data(), b.size());
        W->strints[n] = new StrInt(bytes, buf, b.size());
        delete[] buf;
      }
    }
    return std::string();
  };
  OPS["si.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->strints, n); W->strints.erase(n); return std::string(); };
  OPS["si.copy"] = [](Reader &r) { std::string n = r.s(); W->strints[n] = new StrInt(*need(W->strints, r.s())); return std::string(); };
  OPS["si.assign"] = [](Reader &r) { StrInt *s = need(W->strints, r.s()); *s = *need(W->strints, r.s()); return std::string(); };
  OPS["si.set"] = [](Reader &r) {
    StrInt *s = need(W->strints, r.s());
    std::string b = r.bytes();
    byte *buf = new byte[b.size()];
    memcpy(buf, b.data(), b.size());
    s->set(buf, b.size());
    delete[] buf;
    return std::string();
  };
  OPS["si.setu"] = [](Reader &r) { StrInt *s = need(W->strints, r.s()); s->set((unsigned long) r.u()); return std::string(); };
  OPS["si.inc"] = [](Reader &r) { need(W->strints, r.s())->inc(); return std::string(); };
  OPS["si.add"] = [](Reader &r) { StrInt *s = need(W->strints, r.s()); s->add((unsigned long) r.u()); return std::string(); };
  OPS["si.rem"] = [](Reader &r) { StrInt *s = need(W->strints, r.s()); return std::to_string(s->rem((unsigned long) r.u())); };
  OPS["si.all"] = [](Reader &r) {
    StrInt *s = need(W->strints, r.s());
    std::ostringstream os;
    os.exceptions(std::ios_base::badbit);
    os << *s;
    return s->toString() + " " + os.str() + " " + std::to_string(s->lsb()) + " " + std::to_string(s->getByteSize());
  };
  OPS["si.bytes"] = [](Reader &r) { // null | a buffer of that many bytes
    StrInt *s = need(W->strints, r.s());
    std::string k = r.s();
    if (k == "null") {
      size_t len = r.more() ? r.u() : 0;
      byte *b = s->toBytes(nullptr, &len);
      std::string res = hexOf(b, len) + " new";
      delete[] b;
      return res;
    }
    size_t cap = (size_t) strtoull(k.c_str(), nullptr, 10), len = cap;
    byte *buf = new byte[cap];
    memset(buf, 0xa5, cap);
    byte *b = s->toBytes(buf, &len);
    std::string res = hexOf(b, len) + (b == buf ? " same" : " new");
    if (b != buf) delete[] b;
    else
      for (size_t i = len; i < cap; i++)
        if (buf[i] != 0xa5) { res += " spilled"; break; }
    delete[] buf;
    return res;
  };

  // ---- small helpers
  OPS["log2"] = [](Reader &r) { return std::to_string(NTL::log2(r.zz())); };
  OPS["blocks"] = [](Reader &r) { size_t a = r.u(); return std::to_string(NTL::blocks(a, r.u())); };
  OPS["bytesu"] = [](Reader &r) { return std::to_string(NTL::bytes((unsigned long) r.u())); };
  OPS["byteszz"] = [](Reader &r) { return std::to_string(NTL::bytes(r.zz())); };
  OPS["byteszzp"] = [](Reader &r) { return std::to_string(NTL::bytes(r.zzp())); };
  OPS["zeropad"] = [](Reader &r) { ZZ z = r.zz(); size_t n = r.u(); ZZ c = z; ZZ q = zeroPad(z, n); return strZZ(q) + (c == z ? "" : " modified"); };
  OPS["zeropadto"] = [](Reader &r) { ZZ z = r.zz(); return strZZ(zeroPadTo(z, r.u())); };
  OPS["clz"] = [](Reader &r) { return std::to_string(countLeadingZeros(r.zz())); };
  OPS["v2v"] = [](Reader &r) {
    std::string how = r.s();
    std::vector<ZZ_p> v;
    while (r.more()) v.push_back(r.zzp());
    ZZ_p *arr = new ZZ_p[v.size()];
    for (size_t i = 0; i < v.size(); i++) arr[i] = v[i];
    vec_ZZ_p res;
    if (how == "vr") res = vector2VecZZp(v);
    else if (how == "vp") { res.SetLength(3); res[0] = to_ZZ_p(5); vector2VecZZp(res, v); }
    else if (how == "ar") res = array2VecZZp(arr, v.size());
    else if (how == "ap") { res.SetLength(3); res[0] = to_ZZ_p(5); array2VecZZp(res, arr, v.size()); }
    else if (how == "anr") res = array2VecZZp((const ZZ_p *) nullptr, v.size());
    else if (how == "anp") { res.SetLength(1); res[0] = to_ZZ_p(5); array2VecZZp(res, (const ZZ_p *) nullptr, v.size()); }
    std::string s = std::to_string(res.length());
    for (long i = 0; i < res.length(); i++) s += " " + strZZp(res[i]);
    bool same = true;
    for (size_t i = 0; i < v.size(); i++) same = same && arr[i] == v[i];
    if (!same) s += " modified";
    delete[] arr;
    return s;
  };
  OPS["printarr"] = [](Reader &r) {
    std::vector<ZZ> v;
    while (r.more()) v.push_back(r.zz());
    return hexOf(captured([&]() { printZZArray(v.data(), v.size()); }));
  };
  OPS["showarr"] = [](Reader &r) { // (in threads: printed, not collected)
    std::vector<ZZ> v;
    while (r.more()) v.push_back(r.zz());
    printZZArray(v.data(), v.size());
    return std::string();
  };
}
