// Hash-consed expression DAG: reals, booleans, bit-vectors.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <gmpxx.h>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint32_t E;

enum Op : uint8_t {
  O_NONE,
  // reals
  R_CONST, R_VAR, R_ADD, R_SUB, R_MUL, R_DIV, R_NEG, R_SQRT, R_CBRT, R_POW,
  R_EXP, R_LOG, R_SIN, R_COS, R_ATAN, R_TANH, R_ATAN2, R_ACOS, R_TRI, R_UF, R_ITE,
  // booleans
  B_TRUE, B_FALSE, B_VAR, B_NOT, B_AND, B_OR, B_XOR, B_LT, B_LE, B_EQ,
  // bit-vector predicates
  B_IEQ, B_ISLT, B_ISLE, B_IULT, B_IULE,
  // bit-vectors
  I_CONST, I_VAR, I_ADD, I_SUB, I_MUL, I_AND, I_OR, I_XOR, I_SHL, I_LSHR,
  I_ASHR, I_ZEXT, I_SEXT, I_TRUNC, I_ITE, I_FROMB, I_SDIV, I_SREM, I_UDIV, I_UREM,
};

inline bool isReal(Op o) { return o >= R_CONST && o <= R_ITE; }
inline bool isBool(Op o) { return o >= B_TRUE && o <= B_IULE; }
inline bool isBV(Op o) { return o >= I_CONST; }

struct Node {
  Op op;
  uint8_t w; // width for BV
  E a, b, c;
  uint64_t x; // payload
};

struct VarInfo {
  std::string name;
  double lo, hi;     // range for reals
  bool haslo, hashi;
  int64_t ilo, ihi;  // ints
  char sort;         // 'r','b','i'
  E e;
};

struct TooBig : std::runtime_error {
  TooBig(const std::string &s) : std::runtime_error(s) {}
};

// A rational with small numerator and denominator within rel of d, if there is one.
inline bool simpleRational(double d, double rel, mpq_class &out) {
  double ad = std::fabs(d), x = ad;
  double p0 = 0, q0 = 1, p1 = 1, q1 = 0;
  for (int i = 0; i < 20; i++) {
    double a = std::floor(x);
    double p2 = a * p1 + p0, q2 = a * q1 + q0;
    if (q2 > 3000 || p2 > 3000) return false;
    p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    if (std::fabs(p1 / q1 - ad) <= rel * ad) {
      mpq_class r((long)p1, (long)q1);
      r.canonicalize();
      out = d < 0 ? mpq_class(-r) : r;
      return true;
    }
    if (x == a) return false;
    x = 1 / (x - a);
  }
  return false;
}

// Reads a double as the simplest rational it can stand for.
inline mpq_class snap(double d) {
  if (d == 0)
    return mpq_class(0);
  if (!std::isfinite(d))
    throw std::runtime_error("non-finite constant lifted");
  double ad = std::fabs(d);
  if (ad < 1e15 && ad == std::floor(ad))
    return mpq_class(d);
  {
    mpq_class r;
    if (simpleRational(d, 4e-16, r)) return r;
  }
  // short decimal
  for (int prec = 1; prec <= 12; prec++) {
    char buf[64];
    snprintf(buf, sizeof buf, "%.*e", prec - 1, d);
    double back = strtod(buf, nullptr);
    if (back == d || std::fabs(back - d) <= 4e-16 * ad) {
      // parse mantissa/exponent
      std::string s(buf);
      size_t e = s.find('e');
      int ex = atoi(s.c_str() + e + 1);
      std::string m = s.substr(0, e);
      bool neg = m[0] == '-';
      if (neg) m = m.substr(1);
      size_t dot = m.find('.');
      int frac = 0;
      if (dot != std::string::npos) {
        frac = m.size() - dot - 1;
        m.erase(dot, 1);
      }
      mpz_class num(m, 10);
      int sc = ex - frac;
      mpz_class p;
      mpz_ui_pow_ui(p.get_mpz_t(), 10, std::abs(sc));
      mpq_class r = sc >= 0 ? mpq_class(num * p) : mpq_class(num, p);
      r.canonicalize();
      return neg ? mpq_class(-r) : r;
    }
  }
  return mpq_class(d);
}

struct Pool {
  std::vector<Node> nodes;
  struct Key {
    Op op; uint8_t w; E a, b, c; uint64_t x;
    bool operator==(const Key &o) const {
      return op == o.op && w == o.w && a == o.a && b == o.b && c == o.c && x == o.x;
    }
  };
  struct KH {
    size_t operator()(const Key &k) const {
      uint64_t h = k.op * 0x9E3779B97F4A7C15ull + k.w;
      auto mix = [&](uint64_t v) {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 33;
      };
      mix(k.a); mix(k.b); mix(k.c); mix(k.x);
      return h;
    }
  };
  std::unordered_map<Key, E, KH> tab;
  std::vector<mpq_class> qs;
  std::map<mpq_class, uint32_t> qtab;
  std::vector<VarInfo> vars;
  std::map<std::string, E> varByName;
  std::vector<std::pair<std::string, std::vector<E>>> ufs;
  std::map<std::pair<std::string, std::vector<E>>, uint32_t> uftab;

  Pool() { nodes.push_back({O_NONE, 0, 0, 0, 0, 0}); }

  E mk(Op op, E a = 0, E b = 0, E c = 0, uint64_t x = 0, uint8_t w = 0) {
    Key k{op, w, a, b, c, x};
    auto it = tab.find(k);
    if (it != tab.end())
      return it->second;
    E id = nodes.size();
    if (id > 60000000)
      throw TooBig("expression pool");
    nodes.push_back({op, w, a, b, c, x});
    tab.emplace(k, id);
    return id;
  }
  const Node &n(E e) const { return nodes[e]; }
  Op op(E e) const { return nodes[e].op; }

  // ---- reals
  E q(const mpq_class &v) {
    auto it = qtab.find(v);
    uint32_t i;
    if (it == qtab.end()) {
      i = qs.size();
      qs.push_back(v);
      qtab[v] = i;
    } else
      i = it->second;
    return mk(R_CONST, 0, 0, 0, i);
  }
  E num(double d) { return q(snap(d)); }
  bool isC(E e) const { return nodes[e].op == R_CONST; }
  const mpq_class &cv(E e) const { return qs[nodes[e].x]; }
  bool isZ(E e) const { return isC(e) && cv(e) == 0; }
  bool isOne(E e) const { return isC(e) && cv(e) == 1; }

  E realVar(const std::string &name, bool hl, double lo, bool hh, double hi) {
    auto it = varByName.find(name);
    if (it != varByName.end()) return it->second;
    uint32_t i = vars.size();
    VarInfo v{name, lo, hi, hl, hh, 0, 0, 'r', 0};
    vars.push_back(v);
    E e = mk(R_VAR, 0, 0, 0, i);
    vars[i].e = e;
    varByName[name] = e;
    return e;
  }
  E boolVar(const std::string &name) {
    auto it = varByName.find(name);
    if (it != varByName.end()) return it->second;
    uint32_t i = vars.size();
    vars.push_back({name, 0, 1, false, false, 0, 1, 'b', 0});
    E e = mk(B_VAR, 0, 0, 0, i);
    vars[i].e = e;
    varByName[name] = e;
    return e;
  }
  E intVar(const std::string &name, int w, int64_t lo, int64_t hi) {
    auto it = varByName.find(name);
    if (it != varByName.end()) return it->second;
    uint32_t i = vars.size();
    vars.push_back({name, (double)lo, (double)hi, true, true, lo, hi, 'i', 0});
    E e = mk(I_VAR, 0, 0, 0, i, w);
    vars[i].e = e;
    varByName[name] = e;
    return e;
  }

  E add(E a, E b) {
    if (isC(a) && isC(b)) return q(cv(a) + cv(b));
    if (isZ(a)) return b;
    if (isZ(b)) return a;
    if (op(b) == R_NEG) return sub(a, n(b).a);
    if (op(a) == R_NEG) return sub(b, n(a).a);
    if (a > b) std::swap(a, b);
    return mk(R_ADD, a, b);
  }
  E sub(E a, E b) {
    if (a == b) return q(0);
    if (isC(a) && isC(b)) return q(cv(a) - cv(b));
    if (isZ(b)) return a;
    if (isZ(a)) return neg(b);
    if (op(b) == R_NEG) return add(a, n(b).a);
    return mk(R_SUB, a, b);
  }
  E neg(E a) {
    if (isC(a)) return q(-cv(a));
    if (op(a) == R_NEG) return n(a).a;
    if (op(a) == R_SUB) return sub(n(a).b, n(a).a);
    return mk(R_NEG, a);
  }
  E mul(E a, E b) {
    if (isC(a) && isC(b)) return q(cv(a) * cv(b));
    if (isZ(a) || isZ(b)) return q(0);
    if (isOne(a)) return b;
    if (isOne(b)) return a;
    if (isC(a) && cv(a) == -1) return neg(b);
    if (isC(b) && cv(b) == -1) return neg(a);
    if (op(a) == R_NEG && op(b) == R_NEG) return mul(n(a).a, n(b).a);
    if (op(a) == R_NEG) return neg(mul(n(a).a, b));
    if (op(b) == R_NEG) return neg(mul(a, n(b).a));
    if (a > b) std::swap(a, b);
    return mk(R_MUL, a, b);
  }
  E div(E a, E b) {
    if (isC(b)) {
      if (cv(b) == 0)
        return mk(R_DIV, a, b);
      return mul(a, q(1 / cv(b)));
    }
    if (a == b) return q(1);
    if (isZ(a)) return a;
    if (op(a) == R_NEG) return neg(div(n(a).a, b));
    if (op(b) == R_NEG) return neg(div(a, n(b).a));
    return mk(R_DIV, a, b);
  }
  E fn1(Op o, E a) { return mk(o, a); }
  E pow(E a, E b) {
    if (isC(b)) {
      const mpq_class &v = cv(b);
      if (v == 0) return q(1);
      if (v == 1) return a;
      if (v.get_den() == 1 && v > 0 && v <= 8) {
        E r = a;
        for (int i = 1; i < v.get_num().get_si(); i++) r = mul(r, a);
        return r;
      }
      if (v.get_den() == 1 && v < 0 && v >= -8)
        return div(q(1), pow(a, q(-v)));
    }
    if (isOne(a)) return a;
    return mk(R_POW, a, b);
  }
  E uf(const std::string &name, const std::vector<E> &args) {
    auto k = std::make_pair(name, args);
    auto it = uftab.find(k);
    uint32_t i;
    if (it == uftab.end()) {
      i = ufs.size();
      ufs.push_back(k);
      uftab[k] = i;
    } else
      i = it->second;
    return mk(R_UF, 0, 0, 0, i);
  }
  E rite(E c, E a, E b) {
    if (c == T()) return a;
    if (c == F()) return b;
    if (a == b) return a;
    return mk(R_ITE, c, a, b);
  }
  // ---- bools
  E T() { return mk(B_TRUE); }
  E F() { return mk(B_FALSE); }
  E bnot(E a) {
    if (op(a) == B_TRUE) return F();
    if (op(a) == B_FALSE) return T();
    if (op(a) == B_NOT) return n(a).a;
    if (op(a) == B_LT) return le(n(a).b, n(a).a);
    if (op(a) == B_LE) return lt(n(a).b, n(a).a);
    return mk(B_NOT, a);
  }
  E band(E a, E b) {
    if (a == F() || b == F()) return F();
    if (a == T()) return b;
    if (b == T()) return a;
    if (a == b) return a;
    if (a == bnot(b)) return F();
    if (a > b) std::swap(a, b);
    return mk(B_AND, a, b);
  }
  E bor(E a, E b) {
    if (a == T() || b == T()) return T();
    if (a == F()) return b;
    if (b == F()) return a;
    if (a == b) return a;
    if (a == bnot(b)) return T();
    if (a > b) std::swap(a, b);
    return mk(B_OR, a, b);
  }
  E bxor(E a, E b) {
    if (a == F()) return b;
    if (b == F()) return a;
    if (a == T()) return bnot(b);
    if (b == T()) return bnot(a);
    if (a == b) return F();
    if (a > b) std::swap(a, b);
    return mk(B_XOR, a, b);
  }
  E bite(E c, E a, E b) {
    if (c == T()) return a;
    if (c == F()) return b;
    if (a == b) return a;
    return bor(band(c, a), band(bnot(c), b));
  }
  E lt(E a, E b) {
    if (a == b) return F();
    if (isC(a) && isC(b)) return cv(a) < cv(b) ? T() : F();
    return mk(B_LT, a, b);
  }
  E le(E a, E b) {
    if (a == b) return T();
    if (isC(a) && isC(b)) return cv(a) <= cv(b) ? T() : F();
    return mk(B_LE, a, b);
  }
  E eq(E a, E b) {
    if (a == b) return T();
    if (isC(a) && isC(b)) return cv(a) == cv(b) ? T() : F();
    if (a > b) std::swap(a, b);
    return mk(B_EQ, a, b);
  }
  // ---- bit-vectors
  static uint64_t mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
  static int64_t sx(uint64_t v, int w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= mask(w);
    return (int64_t)((v ^ m) - m);
  }
  E ic(uint64_t v, int w) { return mk(I_CONST, 0, 0, 0, v & mask(w), w); }
  bool isIC(E e) const { return nodes[e].op == I_CONST; }
  E fromB(E b, int w) {
    if (b == T()) return ic(1, w);
    if (b == F()) return ic(0, w);
    return mk(I_FROMB, b, 0, 0, 0, w);
  }
  static uint64_t ibin(Op o, uint64_t a, uint64_t b, int w) {
    uint64_t m = mask(w);
    switch (o) {
    case I_ADD: return (a + b) & m;
    case I_SUB: return (a - b) & m;
    case I_MUL: return (a * b) & m;
    case I_AND: return a & b;
    case I_OR: return a | b;
    case I_XOR: return a ^ b;
    case I_SHL: return b >= (uint64_t)w ? 0 : (a << b) & m;
    case I_LSHR: return b >= (uint64_t)w ? 0 : a >> b;
    case I_ASHR: return (uint64_t)(sx(a, w) >> (b >= (uint64_t)w ? w - 1 : b)) & m;
    case I_SDIV: return b == 0 ? 0 : (uint64_t)(sx(a, w) / sx(b, w)) & m;
    case I_SREM: return b == 0 ? 0 : (uint64_t)(sx(a, w) % sx(b, w)) & m;
    case I_UDIV: return b == 0 ? 0 : a / b;
    case I_UREM: return b == 0 ? 0 : a % b;
    default: throw std::runtime_error("ibin");
    }
  }
  E bin(Op o, E a, E b) {
    int w = n(a).w;
    if (isIC(a) && isIC(b)) return ic(ibin(o, n(a).x, n(b).x, w), w);
    if ((o == I_ADD || o == I_OR || o == I_XOR) && isIC(a) && n(a).x == 0) return b;
    if ((o == I_ADD || o == I_SUB || o == I_OR || o == I_XOR || o == I_SHL ||
         o == I_LSHR || o == I_ASHR) && isIC(b) && n(b).x == 0) return a;
    if (o == I_AND && isIC(b) && op(a) == I_FROMB) return (n(b).x & 1) ? a : ic(0, w);
    if (o == I_AND && isIC(a) && op(b) == I_FROMB) return (n(a).x & 1) ? b : ic(0, w);
    if (op(a) == I_FROMB && op(b) == I_FROMB) {
      if (o == I_AND) return fromB(band(n(a).a, n(b).a), w);
      if (o == I_OR) return fromB(bor(n(a).a, n(b).a), w);
      if (o == I_XOR) return fromB(bxor(n(a).a, n(b).a), w);
    }
    if (o == I_XOR && isIC(b) && n(b).x == 1 && op(a) == I_FROMB) return fromB(bnot(n(a).a), w);
    if (o == I_XOR && isIC(a) && n(a).x == 1 && op(b) == I_FROMB) return fromB(bnot(n(b).a), w);
    return mk(o, a, b, 0, 0, w);
  }
  E zext(E a, int w) {
    if (isIC(a)) return ic(n(a).x, w);
    if (op(a) == I_FROMB) return fromB(n(a).a, w);
    return mk(I_ZEXT, a, 0, 0, 0, w);
  }
  E sext(E a, int w) {
    if (isIC(a)) return ic(sx(n(a).x, n(a).w), w);
    if (op(a) == I_FROMB && n(a).w > 1) return fromB(n(a).a, w);
    return mk(I_SEXT, a, 0, 0, 0, w);
  }
  E trunc(E a, int w) {
    if (isIC(a)) return ic(n(a).x, w);
    if (op(a) == I_FROMB) return fromB(n(a).a, w);
    if ((op(a) == I_ZEXT || op(a) == I_SEXT) && n(n(a).a).w == w) return n(a).a;
    return mk(I_TRUNC, a, 0, 0, 0, w);
  }
  E iite(E c, E a, E b) {
    if (c == T()) return a;
    if (c == F()) return b;
    if (a == b) return a;
    if (isIC(a) && isIC(b) && n(a).x == 1 && n(b).x == 0) return fromB(c, n(a).w);
    if (isIC(a) && isIC(b) && n(a).x == 0 && n(b).x == 1) return fromB(bnot(c), n(a).w);
    return mk(I_ITE, c, a, b, 0, n(a).w);
  }
  E icmp(Op o, E a, E b) {
    int w = n(a).w;
    if (isIC(a) && isIC(b)) {
      uint64_t x = n(a).x, y = n(b).x;
      bool r = false;
      switch (o) {
      case B_IEQ: r = x == y; break;
      case B_ISLT: r = sx(x, w) < sx(y, w); break;
      case B_ISLE: r = sx(x, w) <= sx(y, w); break;
      case B_IULT: r = x < y; break;
      case B_IULE: r = x <= y; break;
      default: break;
      }
      return r ? T() : F();
    }
    // push a comparison with a constant into FROMB / ITE-of-constants
    auto leafish = [&](E e) { return op(e) == I_FROMB || op(e) == I_ITE; };
    if (isIC(b) && leafish(a)) {
      E c = n(a).a, t, f;
      if (op(a) == I_FROMB) { t = ic(1, w); f = ic(0, w); }
      else { t = n(a).b; f = n(a).c; }
      return bite(c, icmp(o, t, b), icmp(o, f, b));
    }
    if (isIC(a) && leafish(b)) {
      E c = n(b).a, t, f;
      if (op(b) == I_FROMB) { t = ic(1, w); f = ic(0, w); }
      else { t = n(b).b; f = n(b).c; }
      return bite(c, icmp(o, a, t), icmp(o, a, f));
    }
    if (a == b) return (o == B_IEQ || o == B_ISLE || o == B_IULE) ? T() : F();
    return mk(o, a, b);
  }

  // ---- derivative of a real expression by a real variable
  std::unordered_map<uint64_t, E> dmemo;
  E deriv(E e, E v) {
    const Node nd = n(e);
    if (e == v) return q(1);
    switch (nd.op) {
    case R_CONST: case R_VAR: return q(0);
    default: break;
    }
    uint64_t key = ((uint64_t)e << 32) | v;
    auto it = dmemo.find(key);
    if (it != dmemo.end()) return it->second;
    E r;
    switch (nd.op) {
    case R_ADD: r = add(deriv(nd.a, v), deriv(nd.b, v)); break;
    case R_SUB: r = sub(deriv(nd.a, v), deriv(nd.b, v)); break;
    case R_NEG: r = neg(deriv(nd.a, v)); break;
    case R_MUL: r = add(mul(deriv(nd.a, v), nd.b), mul(nd.a, deriv(nd.b, v))); break;
    case R_DIV: {
      E da = deriv(nd.a, v), db = deriv(nd.b, v);
      r = sub(div(da, nd.b), div(mul(nd.a, db), mul(nd.b, nd.b)));
      break;
    }
    case R_SQRT: r = div(deriv(nd.a, v), mul(q(2), e)); break;
    case R_CBRT: r = div(deriv(nd.a, v), mul(q(3), mul(e, e))); break;
    case R_EXP: r = mul(deriv(nd.a, v), e); break;
    case R_LOG: r = div(deriv(nd.a, v), nd.a); break;
    case R_SIN: r = mul(deriv(nd.a, v), fn1(R_COS, nd.a)); break;
    case R_COS: r = neg(mul(deriv(nd.a, v), fn1(R_SIN, nd.a))); break;
    case R_ATAN: r = div(deriv(nd.a, v), add(q(1), mul(nd.a, nd.a))); break;
    case R_TANH: r = mul(deriv(nd.a, v), sub(q(1), mul(e, e))); break;
    case R_ATAN2: r = div(sub(mul(deriv(nd.a, v), nd.b), mul(nd.a, deriv(nd.b, v))), add(mul(nd.a, nd.a), mul(nd.b, nd.b))); break;
    case R_ACOS: r = neg(div(deriv(nd.a, v), fn1(R_SQRT, sub(q(1), mul(nd.a, nd.a))))); break;
    case R_TRI: r = div(deriv(nd.a, v), sub(mul(q(12), mul(e, e)), q(3))); break;
    case R_POW: {
      E da = deriv(nd.a, v), db = deriv(nd.b, v);
      E t1 = isZ(da) ? q(0) : mul(mul(nd.b, div(e, nd.a)), da);
      E t2 = isZ(db) ? q(0) : mul(mul(e, fn1(R_LOG, nd.a)), db);
      r = add(t1, t2);
      break;
    }
    case R_ITE: r = rite(nd.a, deriv(nd.b, v), deriv(nd.c, v)); break;
    case R_UF: {
      // total derivative through uninterpreted partials
      r = q(0);
      auto f = ufs[nd.x];
      for (size_t i = 0; i < f.second.size(); i++) {
        E d = deriv(f.second[i], v);
        if (!isZ(d)) r = add(r, mul(d, uf("D" + std::to_string(i) + "_" + f.first, f.second)));
      }
      break;
    }
    default: throw std::runtime_error("deriv: op");
    }
    dmemo[key] = r;
    return r;
  }
};
