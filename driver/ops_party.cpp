#include "driver.h"

void definePartyOps() {
  // ---- parties
  OPS["p.client"] = [](Reader &r) {
    std::string n = r.s(), id = r.bytes();
    ZZ p = r.zz();
    size_t L = r.u(), H = r.u(), D = r.u();
    HashBuckets<ZZ_p> *hb = need(W->hbs, r.s());
    std::string kind = r.s();
    EOPSIClient *c;
    if (kind == "z") {
      c = new Spy<EOPSIClient>(W, n, *hb, p, L, H, D, id, r.zz());
    } else {
      std::string b = r.bytes();
      byte *buf = new byte[b.size()];
      memcpy(buf, b.data(), b.size());
      c = new Spy<EOPSIClient>(W, n, *hb, p, L, H, D, id, (const byte *) buf, b.size());
      delete[] buf;
    }
    W->clients[n] = c;
    W->parties[n] = c;
    W->lengths[n] = L;
    return std::string();
  };
  OPS["p.server"] = [](Reader &r) {
    std::string n = r.s(), id = r.bytes();
    ZZ p = r.zz();
    size_t L = r.u(), H = r.u(), D = r.u();
    W->parties[n] = new Spy<EOPSIServer>(W, n, p, L, H, D, id);
    W->lengths[n] = L;
    return std::string();
  };
  OPS["p.recorder"] = [](Reader &r) {
    std::string n = r.s(), kind = r.s(), id = r.bytes();
    ZZ p = r.zz();
    size_t L = r.u(), H = r.u(), D = r.u();
    W->parties[n] = new Recorder(W, n, kind == "s" ? EOPSI_PARTY_SERVER : EOPSI_PARTY_CLIENT, p, L, H, D, id);
    W->lengths[n] = L;
    return std::string();
  };
  OPS["p.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->parties, n); W->parties.erase(n); W->clients.erase(n); return std::string(); };
  OPS["p.copy"] = [](Reader &r) { // new name, party
    std::string n = r.s(), o = r.s();
    EOPSIParty *a = need(W->parties, o);
    EOPSIClient *c = dynamic_cast<EOPSIClient *>(a);
    EOPSIServer *s = dynamic_cast<EOPSIServer *>(a);
    if (c != nullptr) W->parties[n] = W->clients[n] = new Spy<EOPSIClient>(W, n, (const EOPSIClient &) *c);
    else W->parties[n] = new Spy<EOPSIServer>(W, n, (const EOPSIServer &) *s);
    W->lengths[n] = W->lengths[o];
    W->rawOf[n] = W->rawOf.count(o) ? W->rawOf[o] : o;
    return std::string();
  };
  OPS["p.assign"] = [](Reader &r) { // party, party
    std::string n = r.s(), o = r.s();
    EOPSIParty *a = need(W->parties, n), *b = need(W->parties, o);
    if (dynamic_cast<EOPSIClient *>(a) != nullptr) dynamic_cast<EOPSIClient &>(*a).EOPSIClient::operator=(dynamic_cast<EOPSIClient &>(*b));
    else dynamic_cast<EOPSIServer &>(*a).EOPSIServer::operator=(dynamic_cast<EOPSIServer &>(*b));
    W->lengths[n] = W->lengths[o];
    W->rawOf[n] = W->rawOf.count(o) ? W->rawOf[o] : o;
    return std::string();
  };
  OPS["p.auth"] = [](Reader &r) { EOPSIParty *a = need(W->parties, r.s()); a->authenticate(*need(W->parties, r.s())); return std::string(); };
  OPS["p.authall"] = [](Reader &r) {
    std::vector<EOPSIParty *> v;
    while (r.more()) v.push_back(need(W->parties, r.s()));
    for (auto *a : v) for (auto *b : v) a->authenticate(*b);
    return std::string();
  };
  OPS["p.hasid"] = [](Reader &r) { EOPSIParty *a = need(W->parties, r.s()); return std::string(a->hasAuthenticated(r.bytes()) ? "1" : "0"); };
  OPS["p.has"] = [](Reader &r) { EOPSIParty *a = need(W->parties, r.s()); return std::string(a->hasAuthenticated(*need(W->parties, r.s())) ? "1" : "0"); };
  OPS["p.info"] = [](Reader &r) {
    EOPSIParty *a = need(W->parties, r.s());
    return hexOf(a->getId()) + " " + std::to_string((int) a->getType()) + " " + strZZ(a->getFieldsize()) + " " + std::to_string(a->getDegree());
  };
  OPS["p.setid"] = [](Reader &r) { EOPSIParty *a = need(W->parties, r.s()); a->setId(r.bytes()); return std::string(); };
  OPS["p.settype"] = [](Reader &r) { EOPSIParty *a = need(W->parties, r.s()); a->setType((EOPSIPartyType) r.u()); return std::string(); };
  OPS["p.setfield"] = [](Reader &r) { EOPSIParty *a = need(W->parties, r.s()); a->setFieldsize(r.zz()); return std::string(); };
  OPS["p.setdegree"] = [](Reader &r) { EOPSIParty *a = need(W->parties, r.s()); a->setDegree(r.u()); return std::string(); };
  OPS["p.setsecret"] = [](Reader &r) { EOPSIClient *a = need(W->clients, r.s()); a->setSecret(r.zz()); return std::string(); };
  OPS["p.secret"] = [](Reader &r) { return strZZ(need(W->clients, r.s())->getSecret()); };
  OPS["p.raw"] = [](Reader &r) {
    std::string n = r.s();
    EOPSIClient *c = need(W->clients, n);
    size_t bits = r.u();
    std::string th = r.s();
    size_t cnt = r.u();
    std::vector<ZZ> &v = W->rawData[n];
    W->rawOf.erase(n);
    v.clear();
    for (size_t i = 0; i < cnt; i++) v.push_back(r.zz());
    if (th == "-") c->setRawData(v.data(), v.size(), bits);
    else c->setRawData(v.data(), v.size(), bits, (unsigned) strtoul(th.c_str(), nullptr, 10));
    return std::string();
  };
  OPS["p.rawnull"] = [](Reader &r) { EOPSIClient *c = need(W->clients, r.s()); c->setRawData(nullptr, r.u(), 10); return std::string(); };
  OPS["p.getraw"] = [](Reader &r) {
    std::string n = r.s();
    EOPSIClient *c = need(W->clients, n);
    ZZ *d = c->getRawData();
    std::string s = std::to_string(c->getRawDataSize());
    if (d == nullptr) return s + " null";
    s += d == W->rawData[W->rawOf.count(n) ? W->rawOf[n] : n].data() ? " same" : " other";
    for (size_t i = 0; i < c->getRawDataSize(); i++) s += " " + strZZ(d[i]);
    return s;
  };
  OPS["p.blinded"] = [](Reader &r) {
    std::string n = r.s();
    EOPSIClient *c = need(W->clients, n);
    vec_ZZ_p *m = c->getBlindedData();
    std::string s = std::to_string(c->getBlindedDataSize());
    return m == nullptr ? s + " null" : s + " " + World::matrix(m, W->lengths[n]);
  };
  OPS["p.inter"] = [](Reader &r) {
    vec_ZZ v = need(W->clients, r.s())->getIntersection();
    std::string s = std::to_string(v.length());
    for (long i = 0; i < v.length(); i++) s += " " + strZZ(v[i]);
    return s;
  };
  OPS["p.mode"] = [](Reader &r) {
    std::string n = r.s(), m = r.s();
    W->modes[n] = m == "hold" ? HOLD : m == "drop" ? DROP : m == "throw" ? THROW : m == "mute" ? MUTE : FORWARD;
    return std::string();
  };
  OPS["p.held"] = [](Reader &r) { return std::to_string(W->held[r.s()].size()); };
  OPS["p.deliver"] = [](Reader &r) { // the i-th message held
    std::string n = r.s();
    EOPSIMessage *m = W->held[n].at(r.u());
    Spy<EOPSIClient> *c = dynamic_cast<Spy<EOPSIClient> *>(need(W->parties, n));
    if (c != nullptr) c->real(m);
    else dynamic_cast<Spy<EOPSIServer> *>(need(W->parties, n))->real(m);
    return std::string();
  };
  OPS["p.forgetheld"] = [](Reader &r) { W->held[r.s()].clear(); return std::string(); };
  OPS["p.clearheld"] = [](Reader &r) { for (auto *m : W->held[r.s()]) delete m; return std::string(); };
  OPS["p.outsource"] = [](Reader &r) { // client, server: the message is kept alive
    EOPSIClient *c = need(W->clients, r.s());
    EOPSIParty *s = need(W->parties, r.s());
    EOPSIMessage *m = new EOPSIMessage();
    W->msgs["_out" + std::to_string(W->msgs.size())] = m;
    m->setType(EOPSI_MESSAGE_OUTSOURCING_DATA);
    m->setPartyId(c->getId());
    m->setData(c->getBlindedData(), c->getBlindedDataSize());
    c->send(*s, m);
    return std::string();
  };
  OPS["p.request"] = [](Reader &r) { // requester, delegate, [secret to give instead]
    EOPSIClient *c = need(W->clients, r.s());
    EOPSIParty *d = need(W->parties, r.s());
    ZZ secret = r.more() ? r.zz() : c->getSecret();
    size_t sl = (size_t) NumBytes(secret), len = c->getId().size() + 1 + sl + 1;
    byte *data = new byte[len];
    memcpy(data, c->getId().c_str(), c->getId().size() + 1);
    BytesFromZZ(data + c->getId().size() + 1, secret, (long) sl);
    data[len - 1] = 0;
    struct Free { byte *b; ~Free() { delete[] b; } } f{data};
    EOPSIMessage m;
    m.setType(EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST);
    m.setPartyId(c->getId());
    m.setData(data, len);
    c->send(*d, &m);
    return std::string();
  };

  // ---- messages
  OPS["m.new"] = [](Reader &r) { W->msgs[r.s()] = new EOPSIMessage(); return std::string(); };
  OPS["m.full"] = [](Reader &r) { // name, type, party, data...
    std::string n = r.s();
    int type = (int) r.u();
    std::string id = r.bytes(), kind = r.s();
    EOPSIMessage *m = new EOPSIMessage();
    m->setType((EOPSIMessageType) type);
    m->setPartyId(id);
    if (kind == "bytes") {
      std::string b = r.bytes();
      byte *d = new byte[b.size()];
      memcpy(d, b.data(), b.size());
      m->setData(d, r.more() ? r.u() : b.size());
    } else if (kind == "blinded") {
      EOPSIClient *c = need(W->clients, r.s());
      m->setData(c->getBlindedData(), c->getBlindedDataSize());
    } else if (kind == "matrix") {
      vec_ZZ_p *x = readMatrix(r);
      m->setData(x, r.more() ? r.u() : 1);
    } else if (kind == "dataof") {
      EOPSIMessage *o = need(W->msgs, r.s());
      m->setData(o->getData(), o->length());
    } else if (kind == "null") {
      m->setData(nullptr, r.more() ? r.u() : 0);
    }
    W->msgs[n] = m;
    return std::string();
  };
  OPS["m.ctor"] = [](Reader &r) { // with the constructor: name, type, length
    std::string n = r.s();
    int type = (int) r.u();
    std::string len = r.s();
    static byte fixed[64];
    if (len == "default") W->msgs[n] = new EOPSIMessage();
    else if (len == "null") W->msgs[n] = new EOPSIMessage(nullptr, 0, (EOPSIMessageType) type);
    else W->msgs[n] = new EOPSIMessage(fixed, r.more() ? 0 : strtoull(len.c_str(), nullptr, 10), (EOPSIMessageType) type);
    EOPSIMessage *m = W->msgs[n];
    return std::string(m->getData() == nullptr ? "null" : m->getData() == fixed ? "same" : "other");
  };
  OPS["m.set"] = [](Reader &r) { // type | id | data (kept by the caller)
    EOPSIMessage *m = msgOf(r.s());
    std::string what = r.s();
    static byte fixed[64];
    if (what == "type") m->setType((EOPSIMessageType) r.u());
    else if (what == "id") m->setPartyId(r.bytes());
    else if (what == "null") { if (r.more()) m->setData(nullptr, r.u()); else m->setData(nullptr); }
    else { if (r.more()) m->setData(fixed, r.u()); else m->setData(fixed); return std::string(m->getData() == fixed ? "same" : "other"); }
    return std::string(m->getData() == nullptr ? "null" : m->getData() == fixed ? "same" : "other");
  };
  OPS["m.info"] = [](Reader &r) {
    EOPSIMessage *m = msgOf(r.s());
    return hexOf(m->getPartyId()) + " " + std::to_string((int) m->getType()) + " " + std::to_string(m->length()) + " " + (m->getData() == nullptr ? "null" : "data");
  };
  OPS["m.copy"] = [](Reader &r) { std::string n = r.s(); W->msgs[n] = new EOPSIMessage(*msgOf(r.s())); return std::string(); };
  OPS["m.del"] = [](Reader &r) { std::string n = r.s(); delete need(W->msgs, n); W->msgs.erase(n); return std::string(); };
  OPS["m.delbytes"] = [](Reader &r) { std::string n = r.s(); delete[] (byte *) need(W->msgs, n)->getData(); delete W->msgs[n]; W->msgs.erase(n); return std::string(); };
  OPS["m.send"] = [](Reader &r) { EOPSIParty *a = need(W->parties, r.s()); EOPSIParty *b = need(W->parties, r.s()); a->send(*b, msgOf(r.s())); return std::string(); };
  OPS["m.recv"] = [](Reader &r) { EOPSIParty *b = need(W->parties, r.s()); b->receive(msgOf(r.s())); return std::string(); };
  OPS["m.isauth"] = [](Reader &r) { EOPSIParty *b = need(W->parties, r.s()); return std::string(b->isAuthorised(msgOf(r.s())) ? "1" : "0"); };
}
