#include "driver.h"

void defineHashOps() {
  // ---- hash algorithms
  OPS["alg.new"] = [](Reader &r) { std::string n = r.s(); W->algs[n] = makeAlg(r); return std::string(); };
  OPS["alg.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->algs, n); W->algs.erase(n); return std::string(); };
  OPS["alg.put"] = [](Reader &r) {
    TableHash *t = dynamic_cast<TableHash *>(need(W->algs, r.s()));
    std::string k = strZZp(r.zzp());
    t->put(k, r.bytes());
    return std::string();
  };
  OPS["alg.hash"] = [](Reader &r) {
    HashAlgorithm<ZZ_p> *a = need(W->algs, r.s());
    ZZ_p v = r.zzp();
    byte *h = r.more() ? a->hash(v, r.u()) : a->hash(v);
    return h == nullptr ? std::string("null") : hexOf(h, a->hashSize());
  };
  // hash with several algorithms, then read all the digests
  OPS["alg.hash2"] = [](Reader &r) {
    std::vector<std::pair<HashAlgorithm<ZZ_p> *, byte *>> v;
    while (r.more()) {
      HashAlgorithm<ZZ_p> *a = need(W->algs, r.s());
      ZZ_p z = r.zzp();
      v.push_back({a, a->hash(z)});
    }
    std::string s;
    for (auto &p : v) s += (s.empty() ? "" : " ") + hexOf(p.second, p.first->hashSize());
    return s;
  };
  OPS["alg.info"] = [](Reader &r) {
    HashAlgorithm<ZZ_p> *a = need(W->algs, r.s());
    return std::to_string(a->hashSize()) + " " + hexOf(a->name());
  };
  OPS["alg.copysha"] = [](Reader &r) {
    std::string d = r.s();
    SHAZZp *s = dynamic_cast<SHAZZp *>(need(W->algs, r.s()));
    (void) s;
    W->algs[d] = s == nullptr ? nullptr : new SHAZZp(SHA1_FLAVOUR);
    return std::string();
  };
  OPS["hexdigest"] = [](Reader &r) {
    std::string b = r.bytes();
    return hexOf(HashAlgorithm<ZZ_p>::readableDigest((const byte *) b.data(), b.size()));
  };
  OPS["shas.new"] = [](Reader &r) { std::string n = r.s(); W->shaStr[n] = new SHAString((HashFlavour) r.u()); return std::string(); };
  OPS["shas.copy"] = [](Reader &r) { std::string n = r.s(); W->shaStr[n] = new SHAString(*need(W->shaStr, r.s())); return std::string(); };
  OPS["shas.assign"] = [](Reader &r) { std::string n = r.s(); *need(W->shaStr, n) = *need(W->shaStr, r.s()); return std::string(); };
  OPS["shas.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->shaStr, n); W->shaStr.erase(n); return std::string(); };
  OPS["shas.hash"] = [](Reader &r) {
    SHAString *a = need(W->shaStr, r.s());
    std::string v = r.bytes();
    byte *h = r.more() ? a->hash(v, r.u()) : a->hash(v);
    return h == nullptr ? std::string("null") : hexOf(h, a->hashSize());
  };
  OPS["shas.info"] = [](Reader &r) { SHAString *a = need(W->shaStr, r.s()); return std::to_string(a->hashSize()) + " " + hexOf(a->name()); };
  OPS["shab.new"] = [](Reader &r) { std::string n = r.s(); W->shaByte[n] = new SHAByteArray((HashFlavour) r.u()); return std::string(); };
  OPS["shab.copy"] = [](Reader &r) { std::string n = r.s(); W->shaByte[n] = new SHAByteArray(*need(W->shaByte, r.s())); return std::string(); };
  OPS["shab.assign"] = [](Reader &r) { std::string n = r.s(); *need(W->shaByte, n) = *need(W->shaByte, r.s()); return std::string(); };
  OPS["shab.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->shaByte, n); W->shaByte.erase(n); return std::string(); };
  OPS["shab.hash"] = [](Reader &r) {
    SHAByteArray *a = need(W->shaByte, r.s());
    std::string v = r.s();
    byte *h;
    if (v == "null") {
      h = a->hash(nullptr, r.u());
    } else {
      // exactly as many bytes as given: an access beyond is seen
      std::string b = unhex(v);
      byte *buf = new byte[b.size()];
      memcpy(buf, b.data(), b.size());
      h = a->hash(buf, r.more() ? r.u() : b.size());
      std::string s = h == nullptr ? std::string("null") : hexOf(h, a->hashSize());
      if (memcmp(buf, b.data(), b.size()) != 0) s += " modified";
      delete[] buf;
      return s;
    }
    return h == nullptr ? std::string("null") : hexOf(h, a->hashSize());
  };
  OPS["shab.chain"] = [](Reader &r) { // hash of the digest of the digest..., in place
    SHAByteArray *a = need(W->shaByte, r.s());
    std::string b = r.bytes();
    size_t n = r.u();
    byte *h = a->hash((byte *) b.data(), b.size());
    for (size_t i = 1; i < n; i++) h = a->hash(h, a->hashSize());
    return hexOf(h, a->hashSize());
  };
  OPS["shab.info"] = [](Reader &r) { SHAByteArray *a = need(W->shaByte, r.s()); return std::to_string(a->hashSize()) + " " + hexOf(a->name()); };

  // ---- hash buckets
  OPS["hb.new"] = [](Reader &r) {
    std::string n = r.s();
    size_t k = r.u(), m = r.u();
    std::string a = r.s();
    W->hbs[n] = a == "none" ? new HashBuckets<ZZ_p>(k, m) : new HashBuckets<ZZ_p>(k, m, need(W->algs, a));
    return std::string();
  };
  OPS["hb.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->hbs, n); W->hbs.erase(n); return std::string(); };
  OPS["hb.copy"] = [](Reader &r) { std::string n = r.s(); W->hbs[n] = new HashBuckets<ZZ_p>(*need(W->hbs, r.s())); return std::string(); };
  OPS["hb.assign"] = [](Reader &r) { HashBuckets<ZZ_p> *h = need(W->hbs, r.s()); *h = *need(W->hbs, r.s()); return std::string(); };
  OPS["hb.setalg"] = [](Reader &r) {
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    std::string a = r.s();
    h->setHashAlgorithm(a == "null" ? (const HashAlgorithm<ZZ_p> *) nullptr : need(W->algs, a));
    return std::string();
  };
  OPS["hb.add"] = [](Reader &r) {
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    while (r.more()) h->add(r.zzp());
    return std::string();
  };
  OPS["hb.addlist"] = [](Reader &r) {
    HashTable<ZZ_p, MarkedVector<ZZ_p>> *h = need(W->hbs, r.s());
    std::vector<ZZ_p> v;
    while (r.more()) v.push_back(r.zzp());
    h->add(v.data(), v.size());
    return std::string();
  };
  OPS["hb.addto"] = [](Reader &r) {
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    size_t i = r.u();
    while (r.more()) h->addToBucket(r.zzp(), i);
    return std::string();
  };
  OPS["hb.get"] = [](Reader &r) { HashBuckets<ZZ_p> *h = need(W->hbs, r.s()); return bucketDump(h->getBucket(r.u())); };
  OPS["hb.idx"] = [](Reader &r) { HashBuckets<ZZ_p> *h = need(W->hbs, r.s()); return bucketDump((*h)[r.u()]); };
  // a bucket handed out is a copy: changing it must not change the table
  OPS["hb.scribble"] = [](Reader &r) {
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    MarkedVector<ZZ_p> b = h->getBucket(r.u());
    b.push_back(to_ZZ_p(1));
    b.mark();
    return std::string();
  };
  OPS["hb.info"] = [](Reader &r) {
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    return std::to_string(h->size()) + " " + std::to_string(h->getLength()) + " " + std::to_string(h->getMaxLoad());
  };
  OPS["hb.dump"] = [](Reader &r) {
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    std::string s = std::to_string(h->getLength());
    for (size_t i = 0; i < h->getLength(); i++) s += " " + bucketDump(h->getBucket(i));
    return s;
  };
  OPS["hb.conceal"] = [](Reader &r) { // with recognisable values
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    CountingPRF g;
    g.base = r.zz();
    while (r.more()) g.first.push_back(r.zzp());
    h->conceal(g);
    return std::to_string(g.given);
  };
  OPS["hb.concealp"] = [](Reader &r) {
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    h->conceal(*need(W->pprfs, r.s()));
    return std::string();
  };
  OPS["hb.stats"] = [](Reader &r) {
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    std::string full = r.s();
    return hexOf(captured([&]() {
      if (full == "full") h->printStats(true);
      else if (full == "short") h->printStats(false);
      else h->printStats();
    }));
  };
  OPS["hb.show"] = [](Reader &r) { // (in threads: printed, not collected)
    HashBuckets<ZZ_p> *h = need(W->hbs, r.s());
    h->printStats(r.s() == "full");
    return std::string();
  };
  OPS["mv"] = [](Reader &r) { // marked vector: a program of m(ark) u(nmark) p(ush) f(mark false)
    MarkedVector<ZZ_p> v;
    std::string s = v.isMarked() ? "1" : "0";
    std::string prog = r.s();
    for (char c : prog) {
      if (c == 'm') v.mark();
      else if (c == 'f') v.mark(false);
      else if (c == 't') v.mark(true);
      else if (c == 'u') v.unmark();
      else if (c == 'p') v.push_back(to_ZZ_p(7));
      s += v.isMarked() ? "1" : "0";
    }
    return s + " " + std::to_string(v.size());
  };
  OPS["hbs.new"] = [](Reader &r) {
    std::string n = r.s();
    size_t k = r.u(), m = r.u();
    W->hbss[n] = new HashBuckets<std::string>(k, m, need(W->shaStr, r.s()));
    return std::string();
  };
  OPS["hbs.add"] = [](Reader &r) {
    HashBuckets<std::string> *h = need(W->hbss, r.s());
    while (r.more()) h->add(r.bytes());
    return std::string();
  };
  OPS["hbs.dump"] = [](Reader &r) {
    HashBuckets<std::string> *h = need(W->hbss, r.s());
    std::string s = std::to_string(h->size()) + " " + std::to_string(h->getLength());
    for (size_t i = 0; i < h->getLength(); i++) {
      MarkedVector<std::string> b = h->getBucket(i);
      s += std::string(b.isMarked() ? " m " : " u ") + std::to_string(b.size());
      for (auto &e : b) s += " " + hexOf(e);
    }
    return s;
  };
  OPS["hbs.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->hbss, n); W->hbss.erase(n); return std::string(); };
}
