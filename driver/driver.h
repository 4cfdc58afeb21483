// Driver: an interpreter that runs scripts of API operations against the real
// libeopsi, and reports what was observed at the API boundary.
//
// Only the public API of the library is used (classes, and subclasses that
// override public virtual methods as spies), so that it does not depend on how
// the library is written inside.
//
// Script (stdin): one operation per line, tokens separated by one space.
//   case <id> ... endcase : runs in a forked child of its own.
//   fork ... endfork      : runs in a forked child of the case, its ending is a result.
//   thread ... endthread  : (TSan mode) consecutive thread blocks run concurrently.
// Byte strings are written x<hex>, big integers in (unprefixed) hex.
// Results (fd 3): see Out.

#ifndef DRIVER_H
#define DRIVER_H
#include <libeopsi.h>
#include "libeopsi/zzppoly.h"
#include "libeopsi/protocolex.h"
#include "libeopsi/exception.h"

#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <cinttypes>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <mutex>
#include <algorithm>
#include <chrono>
#include <stdexcept>
#include <thread>
#include <typeinfo>
#include <vector>

#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define HAVE_LIVE 1
#endif

using namespace NTL;
typedef std::vector<std::string> Tokens;


// the virtual environment (env.cpp)
extern std::deque<int> g_randQueue;
extern std::atomic<unsigned long long> g_randState, g_randCalls, g_srandCalls;
extern std::atomic<bool> g_virtualClock, g_virtualTime;
extern std::atomic<long long> g_clockNs, g_clockCalls, g_time;
// ---------------------------------------------------------------------------
// Text
// ---------------------------------------------------------------------------
inline std::string hexOf(const byte *b, size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s = "x";
  for (size_t i = 0; i < n; i++) {
    s += d[b[i] >> 4];
    s += d[b[i] & 15];
  }
  return s;
}
inline std::string hexOf(const std::string &s) { return hexOf((const byte *) s.data(), s.size()); }
inline int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
inline std::string unhex(const std::string &t) {
  if (t.empty() || t[0] != 'x') throw std::logic_error("script: bad byte string " + t);
  std::string s;
  for (size_t i = 1; i + 1 < t.size(); i += 2) s += (char) (nib(t[i]) * 16 + nib(t[i + 1]));
  return s;
}
inline ZZ parseZZ(const std::string &t) {
  std::vector<byte> b;
  bool neg = !t.empty() && t[0] == '-';
  std::string h = neg ? t.substr(1) : t;
  if (h.size() % 2) h = "0" + h;
  for (size_t i = h.size(); i >= 2; i -= 2) b.push_back((byte) (nib(h[i - 2]) * 16 + nib(h[i - 1])));
  ZZ z = ZZFromBytes(b.data(), (long) b.size());
  return neg ? -z : z;
}
inline std::string strZZ(const ZZ &z) {
  long n = NumBytes(z);
  if (n == 0) return "0";
  std::vector<byte> b(n);
  BytesFromZZ(b.data(), z, n);
  static const char *d = "0123456789abcdef";
  std::string s;
  if (sign(z) < 0) s = "-";
  for (long i = n; i-- > 0;) {
    s += d[b[i] >> 4];
    s += d[b[i] & 15];
  }
  return s;
}
inline std::string strZZp(const ZZ_p &z) { return strZZ(rep(z)); }
inline ZZ_p parseZZp(const std::string &t) { return to_ZZ_p(parseZZ(t)); }

// ---------------------------------------------------------------------------
// Output: one line per result on fd 3
//   R <line> <tokens>    value of the operation at that line of the case
//   X <line> <type> <x-what>   the operation threw
//   V <tokens>           event seen by a spy
// ---------------------------------------------------------------------------
extern int g_out;
struct Out {
  std::string buf;
  bool keeps = false; ///< (output of a thread: written when it ended)
  void line(const std::string &s) {
    buf += s;
    buf += '\n';
    if (!keeps && buf.size() > 60000) flush();
  }
  void flush() {
    size_t o = 0;
    while (o < buf.size()) {
      ssize_t w = write(g_out, buf.data() + o, buf.size() - o);
      if (w <= 0) _exit(97);
      o += (size_t) w;
    }
    buf.clear();
  }
};


struct World;

// What the spies do with the messages that arrive.
enum Mode { FORWARD, HOLD, DROP, THROW, MUTE };

// The virtual environment as one history sees it.
struct Env {
  std::deque<int> randQueue;
  unsigned long long randState = 12345, randCalls = 0, srandCalls = 0;
  bool virtualClock = false, virtualTime = false, modulus = false;
  long long clockNs = 0, time = 0;
  ZZ_pContext field;
  void save();
  void restore() const;
};

struct World {
  Out out;
  Env env;
  std::map<std::string, EOPSIParty *> parties;
  std::map<std::string, EOPSIClient *> clients;
  std::map<std::string, HashBuckets<ZZ_p> *> hbs;
  std::map<std::string, HashBuckets<std::string> *> hbss;
  std::map<std::string, HashAlgorithm<ZZ_p> *> algs;
  std::map<std::string, SHAString *> shaStr;
  std::map<std::string, SHAByteArray *> shaByte;
  std::map<std::string, std::vector<ZZ>> rawData;
  std::map<std::string, std::string> rawOf; ///< copied party -> the party whose data it uses
  std::map<std::string, EOPSIMessage *> msgs;
  std::map<std::string, Mode> modes;
  std::map<std::string, std::vector<EOPSIMessage *>> held;
  std::map<std::string, ZZPRF *> prfs;
  std::map<std::string, ZZpPRF *> pprfs;
  std::map<std::string, StrInt *> strints;
  std::map<std::string, ZZpPolynomials *> polys;
  std::map<std::string, SimpleBenchmark *> bms;
  std::map<std::string, Exception *> exs;
  std::map<std::string, size_t> lengths; ///< party -> number of polynomials
  std::vector<vec_ZZ_p *> foreign;       ///< matrices built here
  bool tracing = false;
  bool dumpMatrices = false;
  bool flushes = true;                   ///< write the results so far before each operation

  static std::string matrix(const vec_ZZ_p *m, size_t L) {
    std::string s = "L " + std::to_string(L);
    for (size_t j = 0; j < L; j++) {
      s += " D " + std::to_string(m[j].length());
      for (long i = 0; i < m[j].length(); i++) s += " " + strZZp(m[j][i]);
    }
    return s;
  }

  void event(const std::string &party, EOPSIMessage *m) {
    if (!tracing) return;
    std::string s = "V recv " + hexOf(party);
    if (m == nullptr) {
      out.line(s + " null");
      return;
    }
    s += " " + hexOf(m->getPartyId()) + " " + std::to_string((int) m->getType()) + " " + std::to_string(m->length());
    if (m->getData() == nullptr) {
      s += " nodata";
    } else {
      switch (m->getType()) {
        case EOPSI_MESSAGE_CLIENT_COMPUTATION_REQUEST:
        case EOPSI_MESSAGE_CLOUD_COMPUTATION_REQUEST:
          s += " " + hexOf((const byte *) m->getData(), m->length());
          break;
        case EOPSI_MESSAGE_OUTPUT_COMPUTATION:
        case EOPSI_MESSAGE_POLYNOMIAL:
        case EOPSI_MESSAGE_OUTSOURCING_DATA:
          if (dumpMatrices) s += " " + matrix((const vec_ZZ_p *) m->getData(), lengths[party]);
          break;
        default:
          break;
      }
    }
    out.line(s);
  }
};

extern thread_local World *W;

template <class Base> class Spy : public Base {
  World *w;
  std::string name;
public:
  template <class... A> Spy(World *w, const std::string &name, A &&... a) : Base(std::forward<A>(a)...), w(w), name(name) {}
  void real(EOPSIMessage *m) { Base::receive(m); }
  virtual void receive(EOPSIMessage *m) {
    w->event(name, m);
    switch (w->modes[name]) {
      case HOLD:
        w->held[name].push_back(m == nullptr ? nullptr : new EOPSIMessage(*m));
        return;
      case DROP:
        return;
      case MUTE: // without the answers of a run
        if (m == nullptr || (m->getType() != EOPSI_MESSAGE_OUTPUT_COMPUTATION && m->getType() != EOPSI_MESSAGE_POLYNOMIAL)) {
          Base::receive(m);
        }
        return;
      case THROW:
        throw ProtocolException("spy refuses");
      default:
        Base::receive(m);
        if (w->tracing) w->out.line("V done " + hexOf(name));
    }
  }
};

// A party that only records what it receives.
class Recorder : public EOPSIParty {
  World *w;
  std::string name;
public:
  Recorder(World *w, const std::string &name, EOPSIPartyType t, const ZZ &p, size_t L, size_t H, size_t D, const std::string &id)
      : EOPSIParty(t, p, L, H, D, id), w(w), name(name) {}
  virtual void receive(EOPSIMessage *m) {
    w->event(name, m);
    if (w->modes[name] == THROW) throw ProtocolException("recorder refuses");
    if (w->modes[name] == HOLD) w->held[name].push_back(m == nullptr ? nullptr : new EOPSIMessage(*m));
  }
  virtual bool isAuthorised(const EOPSIMessage *) const { return true; }
};

// A hash algorithm whose digests are given: element -> bytes.
class TableHash : public HashAlgorithm<ZZ_p> {
  size_t size;
  std::map<std::string, std::vector<byte>> table;
  std::vector<byte> last;
public:
  TableHash(size_t size) : size(size), last(size + 1) {}
  void put(const std::string &k, const std::string &d) { table[k] = std::vector<byte>(d.begin(), d.end()); }
  virtual byte *hash(ZZ_p n, const size_t = 0) {
    std::vector<byte> &d = table.at(strZZp(n));
    std::copy(d.begin(), d.begin() + size, last.begin());
    return last.data();
  }
  virtual size_t hashSize() const { return size; }
  virtual std::string name() const { return "table"; }
};

// A generator which gives recognisable values: base, base + 1, ...
class CountingPRF : public PseudoRandom<ZZ_p, ZZ_p> {
public:
  ZZ base;
  size_t given = 0;
  std::vector<ZZ_p> first;   // these come before
  virtual ZZ_p next() {
    size_t n = given++;
    return n < first.size() ? first[n] : to_ZZ_p(base + to_ZZ((long) n));
  }
  virtual ZZ_p generate(const ZZ_p, const size_t, const size_t) { return next(); }
  virtual ZZ_p generate(const size_t, const size_t = 0) { return next(); }
  virtual ZZ_p generate() { return next(); }
  virtual ZZ_p randomSeed() { return to_ZZ_p(base); }
  virtual ZZ_p defaultSeed() { return to_ZZ_p(base); }
};

// ---------------------------------------------------------------------------
class Reader {
  const Tokens &t;
  size_t i;
public:
  Reader(const Tokens &t, size_t i) : t(t), i(i) {}
  bool more() const { return i < t.size(); }
  const std::string &s() {
    if (i >= t.size()) throw std::logic_error("script: missing token after " + t[0]);
    return t[i++];
  }
  std::string bytes() { return unhex(s()); }
  size_t u() { return (size_t) strtoull(s().c_str(), nullptr, 10); }
  long long ll() { return strtoll(s().c_str(), nullptr, 10); }
  ZZ zz() { return parseZZ(s()); }
  ZZ_p zzp() { return parseZZp(s()); }
};

template <class T> static T *need(std::map<std::string, T *> &m, const std::string &k) {
  auto i = m.find(k);
  if (i == m.end()) throw std::logic_error("script: unknown object " + k);
  return i->second;
}

// Capture what is written to the standard output (by any means)
inline std::string captured(const std::function<void()> &f) {
  std::cout.flush();
  fflush(stdout);
  int saved = dup(1), fd = memfd_create("cap", 0);
  dup2(fd, 1);
  f();
  std::cout.flush();
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  off_t n = lseek(fd, 0, SEEK_END);
  std::string s((size_t) n, '\0');
  if (n > 0 && pread(fd, &s[0], (size_t) n, 0) != n) s = "?";
  close(fd);
  return s;
}

inline std::string bucketDump(MarkedVector<ZZ_p> b) {
  std::string s = std::string(b.isMarked() ? "m" : "u") + " " + std::to_string(b.size());
  for (auto &e : b) s += " " + strZZp(e);
  return s;
}

inline HashAlgorithm<ZZ_p> *makeAlg(Reader &r) {
  const std::string &k = r.s();
  if (k == "none") return nullptr;
  if (k == "mh3") return new MurmurHash3((uint32_t) r.u());
  if (k == "mh3r") return new MurmurHash3();
  if (k == "sha1") return new SHAZZp(SHA1_FLAVOUR);
  if (k == "shadef") return new SHAZZp();
  if (k == "sha256") return new SHAZZp(SHA256_FLAVOUR);
  if (k == "sha128") return new SHAZZp(MURMURHASH3_128_FLAVOUR); // not a SHA: falls back to SHA1
  if (k == "table") return new TableHash(r.u());
  throw std::logic_error("script: bad algorithm " + k);
}

inline std::string fmtd(double d) {
  char b[64];
  snprintf(b, sizeof b, "%.17g", d);
  return b;
}

typedef std::string (*Op)(Reader &);
extern std::map<std::string, Op> OPS;
void defineHashOps();
void defineMiscOps();
void definePrfOps();
void defineBmOps();
void definePartyOps();

inline vec_ZZ_p *readMatrix(Reader &r) {
  size_t L = r.u();
  vec_ZZ_p *m = new vec_ZZ_p[L];
  for (size_t j = 0; j < L; j++) {
    size_t D = r.u();
    m[j].SetLength((long) D);
    for (size_t i = 0; i < D; i++) m[j][(long) i] = r.zzp();
  }
  return m;
}

inline EOPSIMessage *msgOf(const std::string &n) { return n == "null" ? nullptr : need(W->msgs, n); }

#endif
