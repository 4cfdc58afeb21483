#include "driver.h"

void definePrfOps() {
  // ---- pseudo-random functions
  OPS["prf.new"] = [](Reader &r) { W->prfs[r.s()] = new ZZPRF(); return std::string(); };
  OPS["prf.copy"] = [](Reader &r) { std::string n = r.s(); W->prfs[n] = new ZZPRF(*need(W->prfs, r.s())); return std::string(); };
  OPS["prf.assign"] = [](Reader &r) { std::string n = r.s(); *need(W->prfs, n) = *need(W->prfs, r.s()); return std::string(); };
  OPS["prf.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->prfs, n); W->prfs.erase(n); return std::string(); };
  OPS["prf.gen"] = [](Reader &r) { ZZPRF *p = need(W->prfs, r.s()); ZZ s = r.zz(); size_t i = r.u(); return strZZ(p->generate(s, i, r.u())); };
  OPS["prf.gend"] = [](Reader &r) { ZZPRF *p = need(W->prfs, r.s()); ZZ s = r.zz(); return strZZ(p->generate(s, r.u())); };
  OPS["prf.auto"] = [](Reader &r) { ZZPRF *p = need(W->prfs, r.s()); size_t i = r.u(); return strZZ(p->generate(i, r.u())); };
  OPS["prf.defseed"] = [](Reader &r) { return strZZ(need(W->prfs, r.s())->defaultSeed()); };
  OPS["prf.range"] = [](Reader &r) { // from, count: the values of consecutive indexes
    ZZPRF *p = need(W->prfs, r.s());
    ZZ s = r.zz();
    size_t from = r.u(), n = r.u(), bits = r.u();
    std::string o;
    for (size_t i = 0; i < n; i++) o += (i ? " " : "") + strZZ(p->generate(s, from + i, bits));
    return o;
  };
  OPS["pprf.new"] = [](Reader &r) {
    std::string n = r.s();
    ZZ m = r.zz();
    W->pprfs[n] = r.more() ? new ZZpPRF(m, need(W->prfs, r.s())) : new ZZpPRF(m);
    return std::string();
  };
  OPS["pprf.copy"] = [](Reader &r) { std::string n = r.s(); W->pprfs[n] = new ZZpPRF(*need(W->pprfs, r.s())); return std::string(); };
  OPS["pprf.assign"] = [](Reader &r) { std::string n = r.s(); *need(W->pprfs, n) = *need(W->pprfs, r.s()); return std::string(); };
  OPS["pprf.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->pprfs, n); W->pprfs.erase(n); return std::string(); };
  OPS["pprf.mod"] = [](Reader &r) { return strZZ(need(W->pprfs, r.s())->getModulo()); };
  OPS["pprf.setmod"] = [](Reader &r) { ZZpPRF *p = need(W->pprfs, r.s()); p->setModulo(r.zz()); return std::string(); };
  OPS["pprf.gen"] = [](Reader &r) { ZZpPRF *p = need(W->pprfs, r.s()); ZZ_p s = r.zzp(); size_t i = r.u(); return strZZp(p->generate(s, i, r.u())); };
  OPS["pprf.gend"] = [](Reader &r) { ZZpPRF *p = need(W->pprfs, r.s()); ZZ_p s = r.zzp(); return strZZp(((PseudoRandom<ZZ_p, ZZ_p> *) p)->generate(s, r.u(), 0)); };
  OPS["pprf.auto"] = [](Reader &r) { PseudoRandom<ZZ_p, ZZ_p> *p = need(W->pprfs, r.s()); size_t i = r.u(); return strZZp(p->generate(i, r.u())); };
  OPS["pprf.next"] = [](Reader &r) { PseudoRandom<ZZ_p, ZZ_p> *p = need(W->pprfs, r.s()); return strZZp(p->generate()); };
  OPS["pprf.many"] = [](Reader &r) { // so many automatic draws: hash of their texts, number of repeated ones
    PseudoRandom<ZZ_p, ZZ_p> *p = need(W->pprfs, r.s());
    size_t n = r.u();
    unsigned long long h = 0xcbf29ce484222325ULL;
    std::set<std::string> seen;
    for (size_t i = 0; i < n; i++) {
      std::string s = strZZp(p->generate()) + "\n";
      for (unsigned char ch : s) h = (h ^ ch) * 0x100000001b3ULL;
      seen.insert(s);
    }
    char b[32];
    snprintf(b, sizeof(b), "%016llx", h);
    return std::string(b) + " " + std::to_string(n - seen.size());
  };
  OPS["pprf.defseed"] = [](Reader &r) { return strZZp(need(W->pprfs, r.s())->defaultSeed()); };

  // ---- polynomials
  OPS["poly.new"] = [](Reader &r) { std::string n = r.s(); W->polys[n] = new ZZpPolynomials(r.u()); return std::string(); };
  OPS["poly.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->polys, n); W->polys.erase(n); return std::string(); };
  OPS["poly.copy"] = [](Reader &r) { std::string n = r.s(); W->polys[n] = new ZZpPolynomials(*need(W->polys, r.s())); return std::string(); };
  OPS["poly.assign"] = [](Reader &r) { ZZpPolynomials *p = need(W->polys, r.s()); *p = *need(W->polys, r.s()); return std::string(); };
  OPS["poly.info"] = [](Reader &r) {
    ZZpPolynomials *p = need(W->polys, r.s());
    std::ostringstream os;
    os.exceptions(std::ios_base::badbit);
    os << *p;
    return std::to_string(p->size()) + " " + std::to_string(p->getPadsize()) + " " + hexOf(os.str());
  };
  OPS["poly.threads"] = [](Reader &r) { ZZpPolynomials *p = need(W->polys, r.s()); p->useThreads(r.u()); return std::string(); };
  static auto readXY = [](Reader &r, vec_ZZ_p &x, size_t &L) {
    size_t D = r.u();
    x.SetLength((long) D);
    for (size_t i = 0; i < D; i++) x[(long) i] = r.zzp();
    L = r.u();
    vec_ZZ_p *y = new vec_ZZ_p[L];
    for (size_t j = 0; j < L; j++) {
      y[j].SetLength((long) D);
      for (size_t i = 0; i < D; i++) y[j][(long) i] = r.zzp();
    }
    return y;
  };
  static auto strVec = [](const vec_ZZ &v) {
    std::string s = std::to_string(v.length());
    for (long i = 0; i < v.length(); i++) s += " " + strZZ(v[i]);
    return s;
  };
  OPS["poly.interp"] = [](Reader &r) {
    ZZpPolynomials *p = need(W->polys, r.s());
    std::string monic = r.s();
    vec_ZZ_p x, x0;
    size_t L;
    vec_ZZ_p *y = readXY(r, x, L);
    x0 = x;
    if (monic == "default") p->interpolate(x, y, L);
    else p->interpolate(x, y, L, monic == "monic");
    delete[] y;
    return std::string(x == x0 ? "" : "modified");
  };
  OPS["poly.monic"] = [](Reader &r) { need(W->polys, r.s())->makeMonic(); return std::string(); };
  OPS["poly.fact"] = [](Reader &r) {
    ZZpPolynomials *p = need(W->polys, r.s());
    std::string a = r.s();
    if (a == "default") p->factorise();
    else p->factorise(a == "b" ? PFA_BERLEKAMP : PFA_CANZASS);
    return std::string();
  };
  OPS["poly.find"] = [](Reader &r) { return strVec(need(W->polys, r.s())->findIntersection()); };
  OPS["poly.findxy"] = [](Reader &r) {
    ZZpPolynomials *p = need(W->polys, r.s());
    std::string a = r.s();
    vec_ZZ_p x;
    size_t L;
    vec_ZZ_p *y = readXY(r, x, L);
    std::string s = a == "default" ? strVec(p->findIntersection(x, y, L)) : strVec(p->findIntersection(x, y, L, a == "b" ? PFA_BERLEKAMP : PFA_CANZASS));
    delete[] y;
    return s;
  };
}
