// Rational-function normal form over atoms, interval bounds, SMT-LIB emission.
#pragma once
#include "expr.h"
#include <algorithm>
#include <functional>
#include <limits>
#include <memory>
#include <sstream>

typedef std::vector<std::pair<uint32_t, int32_t>> Mono; // (atom, exponent), sorted

struct MonoHash {
  size_t operator()(const Mono &m) const {
    uint64_t h = 1469598103934665603ull;
    for (auto &p : m) {
      h ^= ((uint64_t)p.first << 20) ^ (uint32_t)p.second;
      h *= 1099511628211ull;
      h ^= h >> 29;
    }
    return h;
  }
};

inline Mono mmul(const Mono &a, const Mono &b) {
  Mono r;
  r.reserve(a.size() + b.size());
  size_t i = 0, j = 0;
  while (i < a.size() || j < b.size()) {
    if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
    else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
    else {
      int e = a[i].second + b[j].second;
      if (e) r.push_back({a[i].first, e});
      i++; j++;
    }
  }
  return r;
}
inline Mono minvert(const Mono &a) {
  Mono r = a;
  for (auto &p : r) p.second = -p.second;
  return r;
}

struct Poly {
  std::vector<std::pair<Mono, mpq_class>> t; // sorted by mono
  bool zero() const { return t.empty(); }
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first.empty()); }
  mpq_class constVal() const { return t.empty() ? mpq_class(0) : t[0].second; }
  bool operator==(const Poly &o) const { return t == o.t; }
  bool operator<(const Poly &o) const {
    if (t.size() != o.t.size()) return t.size() < o.t.size();
    for (size_t i = 0; i < t.size(); i++) {
      if (t[i].first != o.t[i].first) return t[i].first < o.t[i].first;
      int c = cmp(t[i].second, o.t[i].second);
      if (c) return c < 0;
    }
    return false;
  }
};

struct Itv { double lo, hi; };

struct RF {
  Poly num;
  std::vector<std::pair<int, int>> den; // (factor id, multiplicity) sorted
};

enum AK { A_VAR, A_ROOT, A_POW, A_EXP, A_LOG, A_FN, A_UF, A_ITE, A_TRI };

struct Atom {
  AK k;
  E src;            // VAR / FN / UF / ITE source node
  int deg = 0;      // ROOT
  RF arg, arg2;     // args
  std::vector<RF> args;
  std::string fname;
  Itv itv;
  bool positive() const { return itv.lo > 0; }
};

static const double DINF = std::numeric_limits<double>::infinity();

struct Norm {
  Pool &P;
  std::vector<Atom> atoms;
  std::vector<Poly> facs;
  std::vector<int> facSign; // 2 = not computed
  std::map<Poly, int> facTab;
  std::unordered_map<E, RF> memo;
  std::unordered_map<E, uint32_t> varAtom;
  size_t termCap = 60000;
  uint64_t work = 0, workCap = 400000000ull;

  Norm(Pool &p) : P(p) {}

  // ---------- polynomials
  static Poly pconst(const mpq_class &c) {
    Poly p;
    if (c != 0) p.t.push_back({Mono(), c});
    return p;
  }
  // Constants are rounded to double in the code; coefficients that cancel to
  // within a few units in the last place cancel.
  static bool negligible(const mpq_class &c, double scale) { return std::fabs(c.get_d()) <= 4e-15 * scale; }
  // Long coefficients come from products of rounded constants: back to the simple
  // rational they stand for, or to 240 bits.
  static void tidy(mpq_class &c) {
    size_t bits = mpz_sizeinbase(c.get_num_mpz_t(), 2) + mpz_sizeinbase(c.get_den_mpz_t(), 2);
    if (bits < 128) return;
    double d = c.get_d();
    if (std::isfinite(d) && std::fabs(d) > 1e-9 && std::fabs(d) < 1e9) {
      mpq_class r;
      if (simpleRational(d, 2e-15, r)) { c = r; return; }
    }
    if (bits < 700) return;
    mpf_class f(c, 240);
    c = mpq_class(f);
  }
  Poly padd(const Poly &a, const Poly &b, const mpq_class &cb = 1) {
    Poly r;
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
      if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
      else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
        r.t.push_back({b.t[j].first, b.t[j].second * cb});
        j++;
      } else {
        mpq_class c = a.t[i].second + b.t[j].second * cb;
        if (c != 0 && !negligible(c, std::fabs(a.t[i].second.get_d()))) { tidy(c); r.t.push_back({a.t[i].first, c}); }
        i++; j++;
      }
    }
    work += r.t.size();
    chk(r);
    return r;
  }
  void chk(const Poly &r) {
    if (r.t.size() > termCap) throw TooBig("polynomial terms");
    if (work > workCap) throw TooBig("normaliser work");
  }
  Poly pmul(const Poly &a, const Poly &b) {
    if (a.zero() || b.zero()) return Poly();
    if (a.t.size() == 1 && a.t[0].first.empty()) {
      Poly r = b;
      if (a.t[0].second != 1) for (auto &x : r.t) { x.second *= a.t[0].second; tidy(x.second); }
      return r;
    }
    if (b.t.size() == 1 && b.t[0].first.empty()) return pmul(b, a);
    if (a.t.size() * b.t.size() > 20000000) throw TooBig("polynomial product");
    std::unordered_map<Mono, std::pair<mpq_class, double>, MonoHash> acc;
    acc.reserve(a.t.size() * b.t.size() / 2 + 8);
    for (auto &x : a.t)
      for (auto &y : b.t) {
        auto &c = acc[mmul(x.first, y.first)];
        mpq_class v = x.second * y.second;
        c.first += v;
        c.second = std::max(c.second, std::fabs(v.get_d()));
      }
    work += 4 * a.t.size() * b.t.size();
    Poly r;
    r.t.reserve(acc.size());
    for (auto &kv : acc)
      if (kv.second.first != 0 && !negligible(kv.second.first, kv.second.second)) { tidy(kv.second.first); r.t.push_back({kv.first, kv.second.first}); }
    std::sort(r.t.begin(), r.t.end(), [](auto &x, auto &y) { return x.first < y.first; });
    chk(r);
    return r;
  }
  Poly pscaleMono(const Poly &a, const Mono &m, const mpq_class &c) {
    Poly r;
    r.t.reserve(a.t.size());
    for (auto &x : a.t) r.t.push_back({mmul(x.first, m), x.second * c});
    std::sort(r.t.begin(), r.t.end(), [](auto &x, auto &y) { return x.first < y.first; });
    return r;
  }
  // content monomial (min exponents over all terms)
  static Mono content(const Poly &p) {
    std::map<uint32_t, int> mn;
    bool first = true;
    for (auto &t : p.t) {
      if (first) {
        for (auto &x : t.first) mn[x.first] = x.second;
        first = false;
        continue;
      }
      std::map<uint32_t, int> cur;
      for (auto &x : t.first) cur[x.first] = x.second;
      for (auto &x : mn) {
        auto it = cur.find(x.first);
        int e = it == cur.end() ? 0 : it->second;
        if (e < x.second) x.second = e;
      }
      for (auto &x : cur)
        if (!mn.count(x.first)) mn[x.first] = std::min(0, x.second);
    }
    Mono m;
    for (auto &x : mn)
      if (x.second) m.push_back({x.first, x.second});
    return m;
  }
  // exact division a / b of ordinary polynomials; false when not divisible.
  // Uses a degree-compatible comparison on dense exponents.
  struct LexCmp {
    bool operator()(const Mono &a, const Mono &b) const {
      // lexicographic with atom 0 most significant: larger exponent of the smallest atom wins
      size_t i = 0, j = 0;
      while (i < a.size() && j < b.size()) {
        if (a[i].first < b[j].first) return a[i].second > 0 ? false : true;
        if (b[j].first < a[i].first) return b[j].second > 0 ? true : false;
        if (a[i].second != b[j].second) return a[i].second < b[j].second;
        i++; j++;
      }
      if (i < a.size()) return a[i].second < 0;
      if (j < b.size()) return b[j].second > 0;
      return false;
    }
  };
  // a = c r^2 for a positive c and a polynomial r; false when it is not
  bool psqrt(const Poly &a, Poly &r, mpq_class &c) {
    std::map<Mono, std::pair<mpq_class, double>, LexCmp> rem;
    for (auto &x : a.t) rem[x.first] = {x.second, std::fabs(x.second.get_d())};
    c = std::prev(rem.end())->second.first;
    if (c <= 0) return false;
    for (auto &x : rem) { x.second.first /= c; x.second.second /= c.get_d(); }
    std::vector<std::pair<Mono, mpq_class>> q;
    Mono lead;
    for (auto &x : std::prev(rem.end())->first) {
      if (x.second < 0 || x.second % 2) return false;
      lead.push_back({x.first, x.second / 2});
    }
    Mono il = minvert(lead);
    while (!rem.empty()) {
      auto it = std::prev(rem.end());
      Mono top = it->first, m = mmul(top, il);
      for (auto &x : m)
        if (x.second < 0) return false;
      mpq_class k = q.empty() ? mpq_class(1) : mpq_class(it->second.first / 2);
      tidy(k);
      auto sub = [&](const Mono &w, const mpq_class &d) {
        auto z = rem.find(w);
        if (z == rem.end()) rem[w] = {-d, std::fabs(d.get_d())};
        else {
          z->second.first -= d;
          z->second.second = std::max(z->second.second, std::fabs(d.get_d()));
          if (z->second.first == 0 || std::fabs(z->second.first.get_d()) <= 2e-14 * z->second.second) rem.erase(z);
        }
      };
      for (auto &y : q) sub(mmul(m, y.first), mpq_class(2 * k * y.second));
      sub(mmul(m, m), mpq_class(k * k));
      rem.erase(top);
      q.push_back({m, k});
      if (q.size() > 12) return false;
    }
    std::sort(q.begin(), q.end(), [](auto &x, auto &y) { return x.first < y.first; });
    r.t = q;
    return true;
  }
  bool pdiv(const Poly &a, const Poly &b, Poly &q) {
    if (b.t.size() > a.t.size() + 1 && a.t.size() > 0 && b.t.size() > 4 * a.t.size()) return false;
    std::map<Mono, std::pair<mpq_class, double>, LexCmp> rem;
    for (auto &x : a.t) rem[x.first] = {x.second, std::fabs(x.second.get_d())};
    Mono lb;
    mpq_class cb;
    bool f = true;
    LexCmp lc;
    for (auto &x : b.t)
      if (f || lc(lb, x.first)) { lb = x.first; cb = x.second; f = false; }
    Mono il = minvert(lb);
    std::vector<std::pair<Mono, mpq_class>> qt;
    size_t steps = 0;
    while (!rem.empty()) {
      auto it = std::prev(rem.end());
      Mono m = mmul(it->first, il);
      for (auto &x : m)
        if (x.second < 0) return false;
      mpq_class c = it->second.first / cb;
      tidy(c);
      Mono top = it->first;
      qt.push_back({m, c});
      for (auto &y : b.t) {
        Mono k = mmul(m, y.first);
        auto r = rem.find(k);
        mpq_class d = -c * y.second;
        if (r == rem.end()) rem[k] = {d, std::fabs(d.get_d())};
        else {
          r->second.first += d;
          r->second.second = std::max(r->second.second, std::fabs(d.get_d()));
          if (r->second.first == 0 || std::fabs(r->second.first.get_d()) <= 2e-14 * r->second.second) rem.erase(r);
        }
      }
      rem.erase(top);
      work += b.t.size() * 4;
      if (++steps > 4000 || steps > a.t.size() * 2 + 16) return false;
    }
    std::sort(qt.begin(), qt.end(), [](auto &x, auto &y) { return x.first < y.first; });
    q.t = qt;
    return true;
  }

  // ---------- intervals
  static Itv imul(Itv a, Itv b) {
    double c[4];
    auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0. : x * y; };
    c[0] = m(a.lo, b.lo); c[1] = m(a.lo, b.hi); c[2] = m(a.hi, b.lo); c[3] = m(a.hi, b.hi);
    Itv r{*std::min_element(c, c + 4), *std::max_element(c, c + 4)};
    return widen(r);
  }
  static Itv widen(Itv r) {
    if (std::isfinite(r.lo)) r.lo = r.lo > 0 ? r.lo * (1 - 1e-14) : r.lo * (1 + 1e-14);
    if (std::isfinite(r.hi)) r.hi = r.hi > 0 ? r.hi * (1 + 1e-14) : r.hi * (1 - 1e-14);
    return r;
  }
  static Itv ipow(Itv a, int e) {
    if (e < 0) {
      if (a.lo > 0 || a.hi < 0) {
        Itv p = ipow(a, -e);
        double x = 1 / p.lo, y = 1 / p.hi;
        if (p.lo == 0) x = DINF;
        if (std::isinf(p.hi)) y = 0;
        return widen({std::min(x, y), std::max(x, y)});
      }
      if (a.lo >= 0 || (e % 2 == 0)) return {0, DINF};
      return {-DINF, DINF};
    }
    double x = std::pow(a.lo, e), y = std::pow(a.hi, e);
    if (e % 2 == 0) {
      if (a.lo <= 0 && a.hi >= 0) return widen({0, std::max(x, y)});
      return widen({std::min(x, y), std::max(x, y)});
    }
    return widen({x, y});
  }
  Itv pitv(const Poly &p) {
    double lo = 0, hi = 0, mag = 0;
    for (auto &t : p.t) {
      double c = t.second.get_d();
      Itv v = widen({c, c});
      for (auto &x : t.first) v = imul(v, ipow(atoms[x.first].itv, x.second));
      lo += v.lo; hi += v.hi;
      if (std::isnan(lo)) lo = -DINF;
      if (std::isnan(hi)) hi = DINF;
      mag += std::max(std::fabs(v.lo), std::fabs(v.hi));
    }
    if (p.t.size() > 1 && std::isfinite(mag)) { lo -= mag * 1e-13; hi += mag * 1e-13; }
    return {lo, hi};
  }
  int facsign(int f) {
    if (facSign[f] != 2) return facSign[f];
    Itv v = pitv(facs[f]);
    int s = v.lo > 0 ? 1 : v.hi < 0 ? -1 : 0;
    facSign[f] = s;
    return s;
  }
  Itv ritv(const RF &r) {
    Itv v = pitv(r.num);
    for (auto &d : r.den) {
      Itv w = ipow(pitv(facs[d.first]), d.second);
      if (w.lo > 0 || w.hi < 0) v = imul(v, ipow(w, -1));
      else return {-DINF, DINF};
    }
    return v;
  }

  // ---------- rational functions
  RF rconst(const mpq_class &c) { RF r; r.num = pconst(c); return r; }
  RF ratom(uint32_t a, int e = 1) {
    RF r;
    Mono m;
    if (e) m.push_back({a, e});
    r.num.t.push_back({m, 1});
    return reduce(r);
  }
  static std::vector<std::pair<int, int>> denmul(const std::vector<std::pair<int, int>> &a,
                                                 const std::vector<std::pair<int, int>> &b) {
    std::map<int, int> m;
    for (auto &x : a) m[x.first] += x.second;
    for (auto &x : b) m[x.first] += x.second;
    std::vector<std::pair<int, int>> r;
    for (auto &x : m)
      if (x.second) r.push_back(x);
    return r;
  }
  void cancel(RF &r) {
    if (r.num.zero()) { r.den.clear(); return; }
    if (r.den.empty()) return;
    for (auto &d : r.den) {
      const Poly &f = facs[d.first];
      while (d.second > 0) {
        if (r.num.t.size() < f.t.size() && r.num.t.size() * 3 < f.t.size()) break;
        Mono c = content(r.num);
        Poly base = c.empty() ? r.num : pscaleMono(r.num, minvert(c), 1);
        Poly q;
        if (!pdiv(base, f, q)) break;
        r.num = c.empty() ? q : pscaleMono(q, c, 1);
        d.second--;
      }
    }
    std::vector<std::pair<int, int>> k;
    for (auto &d : r.den)
      if (d.second) k.push_back(d);
    r.den = k;
  }
  RF radd(const RF &a, const RF &b, int sgn = 1) {
    if (b.num.zero()) return a;
    if (a.num.zero()) {
      RF r = b;
      if (sgn < 0) for (auto &x : r.num.t) x.second = -x.second;
      return r;
    }
    RF r;
    if (a.den == b.den) {
      r.num = padd(a.num, b.num, sgn);
      r.den = a.den;
      if (!r.den.empty()) cancel(r);
      return r;
    }
    std::map<int, int> l, da, db;
    for (auto &x : a.den) { da[x.first] = x.second; l[x.first] = x.second; }
    for (auto &x : b.den) { db[x.first] = x.second; l[x.first] = std::max(l[x.first], x.second); }
    Poly na = a.num, nb = b.num;
    for (auto &x : l) {
      for (int i = da[x.first]; i < x.second; i++) na = pmul(na, facs[x.first]);
      for (int i = db[x.first]; i < x.second; i++) nb = pmul(nb, facs[x.first]);
    }
    r.num = padd(na, nb, sgn);
    for (auto &x : l) r.den.push_back(x);
    r = reduce(r);
    cancel(r);
    return r;
  }
  RF rmul(const RF &a, const RF &b) {
    RF r;
    if (a.num.zero() || b.num.zero()) return r;
    r.num = pmul(a.num, b.num);
    r.den = denmul(a.den, b.den);
    r = reduce(r);
    if (!r.den.empty() && (a.den.empty() != b.den.empty() || 1)) cancel(r);
    return r;
  }
  int factor(const Poly &p) {
    auto it = facTab.find(p);
    if (it != facTab.end()) return it->second;
    int id = facs.size();
    facs.push_back(p);
    facSign.push_back(2);
    facTab[p] = id;
    return id;
  }
  RF rinv(const RF &b) {
    if (b.num.zero()) throw std::runtime_error("normaliser: division by zero");
    RF r;
    Mono c = content(b.num);
    Poly base = c.empty() ? b.num : pscaleMono(b.num, minvert(c), 1);
    mpq_class lead = base.t.back().second;
    Poly prim = pscaleMono(base, Mono(), 1 / lead);
    Poly num = pconst(1 / lead);
    if (!c.empty()) num = pscaleMono(num, minvert(c), 1);
    if (!(prim.t.size() == 1 && prim.t[0].first.empty())) {
      // split known factors off
      std::map<int, int> d;
      if (prim.t.size() > 1) {
        auto ex = facTab.find(prim);
        if (ex != facTab.end()) d[ex->second]++;
        else {
          Poly rest = prim;
          int nf = facs.size();
          for (int f = 0; f < nf && rest.t.size() > 1; f++) {
            if (facs[f].t.size() > rest.t.size() * 2) continue;
            Poly q;
            while (rest.t.size() > 1 && pdiv(rest, facs[f], q)) {
              d[f]++;
              rest = q;
            }
          }
          if (!rest.isConst()) {
            Mono c2 = content(rest);
            if (!c2.empty()) { // cannot happen for primitive input, be safe
              rest = pscaleMono(rest, minvert(c2), 1);
              num = pscaleMono(num, minvert(c2), 1);
            }
            mpq_class l2 = rest.t.back().second;
            rest = pscaleMono(rest, Mono(), 1 / l2);
            for (auto &x : num.t) x.second /= l2;
            if (!rest.isConst()) d[factor(rest)]++;
          } else {
            for (auto &x : num.t) x.second /= rest.constVal();
          }
        }
      }
      for (auto &x : d) r.den.push_back(x);
    }
    for (auto &x : b.den)
      for (int i = 0; i < x.second; i++) num = pmul(num, facs[x.first]);
    r.num = num;
    r = reduce(r);
    cancel(r);
    return r;
  }
  RF rdiv(const RF &a, const RF &b) { return rmul(a, rinv(b)); }
  RF rpow(const RF &a, int e) {
    if (e < 0) return rinv(rpow(a, -e));
    RF r = rconst(1), b = a;
    while (e) {
      if (e & 1) r = rmul(r, b);
      e >>= 1;
      if (e) b = rmul(b, b);
    }
    return r;
  }
  bool rzero(const RF &r) { return r.num.zero(); }
  bool requal(const RF &a, const RF &b) {
    if (a.num == b.num && a.den == b.den) return true;
    return radd(a, b, -1).num.zero();
  }

  // root reduction: exponents of a root atom kept in [0, deg)
  RF reduce(const RF &r) {
    for (auto &t : r.num.t)
      for (auto &x : t.first)
        if (atoms[x.first].k == A_ROOT && (x.second < 0 || x.second >= atoms[x.first].deg))
          return reduceAtom(r, x.first);
        else if (atoms[x.first].k == A_TRI && x.second > 2)
          return reduceTri(r, x.first);
    return r;
  }
  // c^3 = (3 c + k) / 4 for c = cos(acos(k) / 3)
  RF reduceTri(const RF &r, uint32_t a) {
    RF rest, high, c, k = atoms[a].args[0];
    Mono one{{a, 1}};
    c.num.t.push_back({one, mpq_class(3, 4)});
    RF cube = radd(c, rmul(k, rconst(mpq_class(1, 4))));
    for (auto &t : r.num.t) {
      int e = 0;
      Mono m;
      for (auto &x : t.first) {
        if (x.first == a) e = x.second;
        else m.push_back(x);
      }
      if (e < 3) { rest.num.t.push_back(t); continue; }
      if (e > 3) { Mono x{{a, e - 3}}; m = mmul(m, x); }
      high.num.t.push_back({m, t.second});
    }
    std::sort(high.num.t.begin(), high.num.t.end(), [](auto &x, auto &y) { return x.first < y.first; });
    RF sum = radd(rmul(high, cube), rest);
    RF d;
    d.num = sum.num;
    d.den = denmul(sum.den, r.den);
    return d;
  }
  RF reduceAtom(const RF &r, uint32_t a) {
    int q = atoms[a].deg;
    std::map<int, Poly> g;
    for (auto &t : r.num.t) {
      int e = 0;
      Mono m;
      for (auto &x : t.first) {
        if (x.first == a) e = x.second;
        else m.push_back(x);
      }
      int k = e >= 0 ? e / q : -((-e + q - 1) / q);
      int rem = e - k * q;
      if (rem) {
        Mono ra{{a, rem}};
        m = mmul(m, ra);
      }
      g[k].t.push_back({m, t.second});
    }
    RF sum;
    RF arg = atoms[a].arg;
    for (auto &x : g) {
      std::sort(x.second.t.begin(), x.second.t.end(), [](auto &p, auto &q2) { return p.first < q2.first; });
      Poly merged;
      for (auto &t : x.second.t) {
        if (!merged.t.empty() && merged.t.back().first == t.first) merged.t.back().second += t.second;
        else merged.t.push_back(t);
      }
      Poly clean;
      for (auto &t : merged.t)
        if (t.second != 0) clean.t.push_back(t);
      RF part;
      part.num = clean;
      part = reduce(part);
      if (x.first != 0) part = rmul(part, rpow(arg, x.first));
      sum = radd(sum, part);
    }
    RF d;
    d.num = sum.num;
    d.den = denmul(sum.den, r.den);
    return d;
  }

  // ---------- atoms
  uint32_t newAtom(const Atom &a) {
    atoms.push_back(a);
    return atoms.size() - 1;
  }
  uint32_t var(E e) {
    auto it = varAtom.find(e);
    if (it != varAtom.end()) return it->second;
    Atom a;
    a.k = A_VAR;
    a.src = e;
    const VarInfo &v = P.vars[P.n(e).x];
    a.itv = {v.haslo ? v.lo : -DINF, v.hashi ? v.hi : DINF};
    uint32_t id = newAtom(a);
    varAtom[e] = id;
    return id;
  }
  static bool perfectRoot(const mpq_class &c, int q, mpq_class &out) {
    if (c < 0) return false;
    mpz_class n, d;
    int e1 = mpz_root(n.get_mpz_t(), c.get_num().get_mpz_t(), q);
    int e2 = mpz_root(d.get_mpz_t(), c.get_den().get_mpz_t(), q);
    if (!e1 || !e2) return false;
    out = mpq_class(n, d);
    return true;
  }
  // q-th root (principal, argument assumed >= 0)
  RF root(const RF &arg0, int q) {
    RF arg = arg0;
    if (arg.num.zero()) return arg;
    RF pre = rconst(1);
    // pull positive monomial content
    Mono c = content(arg.num);
    Mono out, in;
    for (auto &x : c) {
      if (atoms[x.first].positive()) {
        int k = x.second >= 0 ? x.second / q : -((-x.second + q - 1) / q);
        if (k) out.push_back({x.first, k});
      }
    }
    if (!out.empty()) {
      Mono strip;
      for (auto &x : out) strip.push_back({x.first, -x.second * q});
      arg.num = pscaleMono(arg.num, strip, 1);
      pre.num.t[0].first = out;
      pre = reduce(pre);
    }
    // positive factors in the denominator: r(num/f^k) = r(num*f^(mq-k))/f^m
    std::vector<std::pair<int, int>> nd;
    for (auto &d : arg.den) {
      if (facsign(d.first) > 0) {
        int m = (d.second + q - 1) / q;
        for (int i = d.second; i < m * q; i++) arg.num = pmul(arg.num, facs[d.first]);
        RF di;
        di.num = pconst(1);
        di.den.push_back({d.first, m});
        pre = rmul(pre, di);
      } else
        nd.push_back(d);
    }
    arg.den = nd;
    arg = reduce(arg);
    // single monomial of positive atoms: distribute
    if (arg.den.empty() && arg.num.t.size() == 1 && arg.num.t[0].second > 0) {
      bool allpos = true;
      for (auto &x : arg.num.t[0].first)
        if (!atoms[x.first].positive()) allpos = false;
      if (allpos) {
        RF r = pre;
        mpq_class cc = arg.num.t[0].second, pr;
        if (perfectRoot(cc, q, pr)) r = rmul(r, rconst(pr));
        else r = rmul(r, rconst(snap(std::pow(cc.get_d(), 1. / q))));
        for (auto &x : arg.num.t[0].first) r = rmul(r, ratom(rootAtom(ratom(x.first), q), x.second));
        return r;
      }
    }
    // powers of an argument whose root is already known
    if (arg.num.t.size() > 1)
      for (uint32_t i = 0; i < atoms.size(); i++)
        if (atoms[i].k == A_ROOT && atoms[i].deg == q && atoms[i].arg.den.empty() && atoms[i].arg.num.t.size() > 1 && atoms[i].arg.num.t.size() < arg.num.t.size()) {
          const Poly p = atoms[i].arg.num;
          Mono cm = content(arg.num);
          Poly base = cm.empty() ? arg.num : pscaleMono(arg.num, minvert(cm), 1), t1, t2;
          Mono pm = content(p);
          Poly pb = pm.empty() ? p : pscaleMono(p, minvert(pm), 1);
          int n = 0;
          t2 = base;
          while (n < q && t2.t.size() >= pb.t.size() && pdiv(t2, pb, t1)) { t2 = t1; n++; }
          if (n < q) continue;
          // arg = pb^q * t2 * cm = (p / pm)^q * t2 * cm
          RF rest = arg, pr;
          rest.num = cm.empty() ? t2 : pscaleMono(t2, cm, 1);
          if (!pm.empty()) {
            Mono back;
            for (auto &x : pm) back.push_back({x.first, -x.second * q});
            rest.num = pscaleMono(rest.num, back, 1);
          }
          pr.num = p;
          rest = reduce(rest);
          return rmul(pre, rmul(reduce(pr), root(rest, q)));
        }
    // the square of a polynomial whose sign is known
    if (q == 2 && arg.den.empty() && arg.num.t.size() > 2 && arg.num.t.size() < 40) {
      Mono cm = content(arg.num);
      bool even = true;
      for (auto &x : cm) even &= x.second % 2 == 0;
      Poly base = cm.empty() ? arg.num : pscaleMono(arg.num, minvert(cm), 1), rt;
      mpq_class c;
      if (even && psqrt(base, rt, c)) {
        Mono half;
        for (auto &x : cm) half.push_back({x.first, x.second / 2});
        if (!half.empty()) rt = pscaleMono(rt, half, 1);
        Itv v = pitv(rt);
        if (v.lo >= 0 || v.hi <= 0) {
          mpq_class pr;
          if (!perfectRoot(c, 2, pr)) pr = snap(std::sqrt(c.get_d()));
          RF r;
          r.num = pscaleMono(rt, Mono(), v.lo >= 0 ? pr : -pr);
          return rmul(pre, r);
        }
      }
    }
    // normalise a rational scale that is a perfect power
    if (!arg.num.zero()) {
      mpq_class lead = arg.num.t.back().second, pr;
      if (lead < 0) lead = -lead;
      if (lead != 1) {
        if (!perfectRoot(lead, q, pr)) pr = snap(q == 2 ? std::sqrt(lead.get_d()) : q == 3 ? std::cbrt(lead.get_d()) : std::pow(lead.get_d(), 1. / q));
        arg.num = pscaleMono(arg.num, Mono(), 1 / lead);
        pre = rmul(pre, rconst(pr));
      }
    }
    // arg == 1
    if (arg.den.empty() && arg.num.isConst() && arg.num.constVal() == 1) return pre;
    return rmul(pre, ratom(rootAtom(arg, q)));
  }
  uint32_t rootAtom(const RF &arg, int q) {
    for (uint32_t i = 0; i < atoms.size(); i++)
      if (atoms[i].k == A_ROOT && atoms[i].deg == q && requal(atoms[i].arg, arg)) return i;
    Atom a;
    a.k = A_ROOT;
    a.src = 0;
    a.deg = q;
    a.arg = arg;
    Itv v = ritv(arg);
    double lo = v.lo > 0 ? std::pow(v.lo, 1. / q) * (1 - 1e-14) : 0;
    double hi = v.hi > 0 ? std::pow(v.hi, 1. / q) * (1 + 1e-14) : 0;
    a.itv = {lo, std::isinf(v.hi) ? DINF : hi};
    return newAtom(a);
  }
  uint32_t funAtom(AK k, const std::string &fn, const std::vector<RF> &args, Itv itv) {
    for (uint32_t i = 0; i < atoms.size(); i++) {
      if (atoms[i].k != k || atoms[i].fname != fn || atoms[i].args.size() != args.size()) continue;
      bool ok = true;
      for (size_t j = 0; j < args.size() && ok; j++) ok = requal(atoms[i].args[j], args[j]);
      if (ok) return i;
    }
    Atom a;
    a.k = k;
    a.src = 0;
    a.fname = fn;
    a.args = args;
    a.itv = itv;
    return newAtom(a);
  }
  // base^e, exponent a monomial term (no constant part)
  RF powTerm(const RF &base, const Mono &m, const mpq_class &coef) {
    // atom is base^(m / den), exponent num
    mpz_class num = coef.get_num(), den = coef.get_den();
    RF ex;
    ex.num.t.push_back({m, mpq_class(1, 1) / mpq_class(den)});
    Itv b = ritv(base);
    Itv range{0, DINF};
    if (b.lo > 0) {
      Itv ei = ritv(ex);
      // bounds of b^e from corners (monotone in each argument)
      double c[4] = {std::pow(b.lo, ei.lo), std::pow(b.lo, ei.hi), std::pow(b.hi, ei.lo), std::pow(b.hi, ei.hi)};
      bool ok = true;
      for (double x : c) if (std::isnan(x)) ok = false;
      if (ok && std::isfinite(ei.lo) && std::isfinite(ei.hi) && std::isfinite(b.hi)) {
        range.lo = *std::min_element(c, c + 4) * (1 - 1e-12);
        range.hi = *std::max_element(c, c + 4) * (1 + 1e-12);
      } else
        range.lo = 1e-300;
    }
    uint32_t a = funAtom(A_POW, "pow", {base, ex}, range);
    return ratom(a, num.get_si());
  }
  RF powGen(const RF &base, const RF &ex) {
    if (ex.den.empty()) {
      RF r = rconst(1);
      for (auto &t : ex.num.t) {
        if (t.first.empty()) {
          // constant part p/q
          mpz_class p = t.second.get_num(), q = t.second.get_den();
          if (q > 64 || abs(p) > 64) {
            uint32_t a = funAtom(A_POW, "pow", {base, rconst(t.second)}, {ritv(base).lo > 0 ? 1e-300 : 0, DINF});
            r = rmul(r, ratom(a));
            continue;
          }
          if (q == 1) r = rmul(r, rpow(base, p.get_si()));
          else r = rmul(r, rpow(root(base, q.get_si()), p.get_si()));
        } else
          r = rmul(r, powTerm(base, t.first, t.second));
      }
      return r;
    }
    uint32_t a = funAtom(A_POW, "pow", {base, ex}, {ritv(base).lo > 0 ? 1e-300 : 0, DINF});
    return ratom(a);
  }
  RF pow(const RF &base, const RF &ex) {
    // integer constant exponent
    if (ex.den.empty() && ex.num.isConst() && ex.num.constVal().get_den() == 1 &&
        abs(ex.num.constVal()) <= 64)
      return rpow(base, ex.num.constVal().get_num().get_si());
    // split positive monomial bases
    if (base.den.empty() && base.num.t.size() == 1 && base.num.t[0].second > 0) {
      bool allpos = true;
      for (auto &x : base.num.t[0].first)
        if (!atoms[x.first].positive()) allpos = false;
      if (allpos) {
        RF r = rconst(1);
        if (base.num.t[0].second != 1) r = powGen(rconst(base.num.t[0].second), ex);
        for (auto &x : base.num.t[0].first) {
          RF p = powGen(ratom(x.first), ex);
          r = rmul(r, rpow(p, x.second));
        }
        return r;
      }
    }
    // (p r)^e = p^e r^e for a positive monomial p with a positive coefficient
    if (!base.num.zero()) {
      Mono out, strip;
      for (auto &x : content(base.num))
        if (atoms[x.first].positive()) { out.push_back(x); strip.push_back({x.first, -x.second}); }
      mpq_class lead = abs(base.num.t.back().second);
      if (!out.empty() || lead != 1) {
        RF rest = base, p;
        rest.num = pscaleMono(base.num, strip, 1 / lead);
        p.num.t.push_back({out, lead});
        return rmul(pow(p, ex), powGen(reduce(rest), ex));
      }
    }
    return powGen(base, ex);
  }
  RF expo(const RF &arg) {
    if (arg.den.empty()) {
      RF r = rconst(1);
      for (auto &t : arg.num.t) {
        if (t.first.size() == 1 && t.first[0].second == 1 && atoms[t.first[0].first].k == A_LOG && t.second.get_den() == 1 && abs(t.second.get_num()) <= 64) {
          RF of = atoms[t.first[0].first].args[0];
          r = rmul(r, rpow(of, t.second.get_num().get_si())); // exp(k log x) = x^k
          continue;
        }
        RF ex;
        ex.num.t.push_back({t.first, mpq_class(1, 1) / mpq_class(t.second.get_den())});
        if (t.second.get_num() > 64 || t.second.get_num() < -64) {
          ex.num.t[0].second = t.second;
          uint32_t a = funAtom(A_EXP, "exp", {ex}, expItv(ex));
          r = rmul(r, ratom(a));
          continue;
        }
        uint32_t a = funAtom(A_EXP, "exp", {ex}, expItv(ex));
        r = rmul(r, ratom(a, t.second.get_num().get_si()));
      }
      return r;
    }
    // canonical sign: leading coefficient positive
    if (arg.num.t.back().second < 0) {
      RF n = arg;
      for (auto &x : n.num.t) x.second = -x.second;
      return rinv(ratom(funAtom(A_EXP, "exp", {n}, expItv(n))));
    }
    return ratom(funAtom(A_EXP, "exp", {arg}, expItv(arg)));
  }
  Itv expItv(const RF &a) {
    Itv v = ritv(a);
    double lo = std::exp(v.lo) * (1 - 1e-12), hi = std::exp(v.hi) * (1 + 1e-12);
    if (lo <= 0) lo = 1e-300;
    return {lo, hi};
  }

  RF norm(E e) {
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    // iterative post-order to avoid deep recursion
    std::vector<E> st{e};
    while (!st.empty()) {
      E x = st.back();
      if (memo.count(x)) { st.pop_back(); continue; }
      const Node nd = P.n(x);
      bool ready = true;
      auto need = [&](E y) {
        if (!memo.count(y)) { st.push_back(y); ready = false; }
      };
      switch (nd.op) {
      case R_CONST: case R_VAR: break;
      case R_ADD: case R_SUB: case R_MUL: case R_DIV: case R_POW: case R_ATAN2: need(nd.a); need(nd.b); break;
      case R_ITE: need(nd.b); need(nd.c); break;
      case R_UF: for (E y : P.ufs[nd.x].second) need(y); break;
      default: need(nd.a);
      }
      if (!ready) continue;
      st.pop_back();
      memo[x] = norm1(nd, x);
    }
    return memo[e];
  }
  RF norm1(const Node &nd, E e) {
    switch (nd.op) {
    case R_CONST: return rconst(P.qs[nd.x]);
    case R_VAR: return ratom(var(e));
    case R_ADD: return radd(memo[nd.a], memo[nd.b]);
    case R_SUB: return radd(memo[nd.a], memo[nd.b], -1);
    case R_NEG: { RF r = memo[nd.a]; for (auto &x : r.num.t) x.second = -x.second; return r; }
    case R_MUL: return rmul(memo[nd.a], memo[nd.b]);
    case R_DIV: return rdiv(memo[nd.a], memo[nd.b]);
    case R_SQRT: return root(memo[nd.a], 2);
    case R_CBRT: return root(memo[nd.a], 3);
    case R_POW: return pow(memo[nd.a], memo[nd.b]);
    case R_EXP: return expo(memo[nd.a]);
    case R_LOG: return ratom(funAtom(A_LOG, "log", {memo[nd.a]}, {-DINF, DINF}));
    case R_SIN: return ratom(funAtom(A_FN, "sin", {memo[nd.a]}, {-1, 1}));
    case R_COS: return ratom(funAtom(A_FN, "cos", {memo[nd.a]}, {-1, 1}));
    case R_ATAN: return ratom(funAtom(A_FN, "atan", {memo[nd.a]}, {-1.5708, 1.5708}));
    case R_TANH: return ratom(funAtom(A_FN, "tanh", {memo[nd.a]}, {-1, 1}));
    case R_ATAN2: return ratom(funAtom(A_FN, "atan2", {memo[nd.a], memo[nd.b]}, {-3.1416, 3.1416}));
    case R_ACOS: return ratom(funAtom(A_FN, "acos", {memo[nd.a]}, {0, 3.1416}));
    case R_TRI: return ratom(funAtom(A_TRI, "tri", {memo[nd.a]}, {0.5, 1}));
    case R_UF: {
      std::vector<RF> a;
      for (E y : P.ufs[nd.x].second) a.push_back(memo[y]);
      return ratom(funAtom(A_UF, P.ufs[nd.x].first, a, {-DINF, DINF}));
    }
    case R_ITE: {
      for (uint32_t i = 0; i < atoms.size(); i++)
        if (atoms[i].k == A_ITE && atoms[i].src == nd.a && requal(atoms[i].arg, memo[nd.b]) &&
            requal(atoms[i].arg2, memo[nd.c]))
          return ratom(i);
      Atom a;
      a.k = A_ITE;
      a.src = nd.a;
      a.arg = memo[nd.b];
      a.arg2 = memo[nd.c];
      Itv u = ritv(a.arg), w = ritv(a.arg2);
      a.itv = {std::min(u.lo, w.lo), std::max(u.hi, w.hi)};
      return ratom(newAtom(a));
    }
    default: throw std::runtime_error("norm: op");
    }
  }

  // ---------- SMT-LIB
  static std::string qstr(const mpq_class &c) {
    mpq_class a = abs(c);
    std::string s = a.get_den() == 1 ? a.get_num().get_str() + ".0"
                                     : "(/ " + a.get_num().get_str() + ".0 " + a.get_den().get_str() + ".0)";
    return c < 0 ? "(- " + s + ")" : s;
  }
  static std::string dstr(double d) { return qstr(mpq_class(d)); }
  bool lin = false; // products of atoms become variables of their own
  std::map<Mono, int> linMono;
  std::string pstr(const Poly &p, std::set<uint32_t> &used) {
    if (p.zero()) return "0.0";
    std::string s;
    if (p.t.size() > 1) s = "(+";
    for (auto &t : p.t) {
      std::string m;
      int cnt = 0;
      for (auto &x : t.first) {
        used.insert(x.first);
        for (int i = 0; i < x.second; i++) { m += " a" + std::to_string(x.first); cnt++; }
      }
      if (lin && cnt > 1) {
        auto it = linMono.emplace(t.first, (int)linMono.size()).first;
        m = " m" + std::to_string(it->second);
        cnt = 1;
      }
      std::string term;
      if (cnt == 0) term = qstr(t.second);
      else if (t.second == 1 && cnt == 1) term = m.substr(1);
      else if (t.second == 1) term = "(*" + m + ")";
      else term = "(* " + qstr(t.second) + m + ")";
      s += p.t.size() > 1 ? " " + term : term;
    }
    if (p.t.size() > 1) s += ")";
    return s;
  }
  // numerator with cleared monomial denominators; rel: 0 '=', 1 '<0', 2 '<=0'
  // diff rel 0  ->  smt formula; side conditions appended
  std::string relstr(const RF &d0, int rel, std::set<uint32_t> &used, std::vector<std::string> &side) {
    RF d = d0;
    Mono c = content(d.num);
    Mono clear;
    int sgnFlip = 1;
    std::vector<uint32_t> extra;
    for (auto &x : c)
      if (x.second < 0) {
        int k = -x.second;
        Itv v = atoms[x.first].itv;
        if (v.lo > 0) {
        } else if (rel != 0 && v.hi < 0) {
          if (k % 2) sgnFlip = -sgnFlip;
        } else {
          if (rel != 0 && k % 2) k++;
          used.insert(x.first);
          side.push_back("(not (= a" + std::to_string(x.first) + " 0.0))");
        }
        clear.push_back({x.first, k});
      }
    Poly p = clear.empty() ? d.num : pscaleMono(d.num, clear, 1);
    if (rel == 0) {
      for (auto &f : d.den) sideFac(f.first, used, side);
      return "(= " + pstr(p, used) + " 0.0)";
    }
    for (auto &f : d.den) {
      int s = facsign(f.first);
      if (f.second % 2 == 0) {
        if (!s) sideFac(f.first, used, side);
        continue;
      }
      if (s > 0) continue;
      if (s < 0) { sgnFlip = -sgnFlip; continue; }
      p = pmul(p, facs[f.first]);
      sideFac(f.first, used, side);
    }
    std::string o = rel == 1 ? (sgnFlip > 0 ? "<" : ">") : (sgnFlip > 0 ? "<=" : ">=");
    return "(" + o + " " + pstr(p, used) + " 0.0)";
  }
  void sideFac(int f, std::set<uint32_t> &used, std::vector<std::string> &side) {
    if (facsign(f)) return;
    side.push_back("(not (= " + pstr(facs[f], used) + " 0.0))");
  }

  // boolean/BV formulas
  struct Emit {
    std::set<uint32_t> used;
    std::vector<std::string> side;
    std::set<E> bvars, ivars;
    std::unordered_map<E, std::string> done;
    std::vector<std::string> defs;
    bool bv = false;
  };
  std::string bstr(E e, Emit &em) {
    auto it = em.done.find(e);
    if (it != em.done.end()) return it->second;
    const Node nd = P.n(e);
    std::string s;
    switch (nd.op) {
    case B_TRUE: s = "true"; break;
    case B_FALSE: s = "false"; break;
    case B_VAR: em.bvars.insert(e); s = "b" + std::to_string(e); break;
    case B_NOT: s = "(not " + bstr(nd.a, em) + ")"; break;
    case B_AND: s = "(and " + bstr(nd.a, em) + " " + bstr(nd.b, em) + ")"; break;
    case B_OR: s = "(or " + bstr(nd.a, em) + " " + bstr(nd.b, em) + ")"; break;
    case B_XOR: s = "(xor " + bstr(nd.a, em) + " " + bstr(nd.b, em) + ")"; break;
    case B_LT: s = relE(nd.a, nd.b, 1, em); break;
    case B_LE: s = relE(nd.a, nd.b, 2, em); break;
    case B_EQ: s = relE(nd.a, nd.b, 0, em); break;
    case B_IEQ: s = "(= " + istr(nd.a, em) + " " + istr(nd.b, em) + ")"; break;
    case B_ISLT: s = "(bvslt " + istr(nd.a, em) + " " + istr(nd.b, em) + ")"; break;
    case B_ISLE: s = "(bvsle " + istr(nd.a, em) + " " + istr(nd.b, em) + ")"; break;
    case B_IULT: s = "(bvult " + istr(nd.a, em) + " " + istr(nd.b, em) + ")"; break;
    case B_IULE: s = "(bvule " + istr(nd.a, em) + " " + istr(nd.b, em) + ")"; break;
    default: throw std::runtime_error("bstr");
    }
    if (s.size() > 40 && nd.op != B_TRUE) {
      std::string nm = "d" + std::to_string(e);
      em.defs.push_back("(define-fun " + nm + " () Bool " + s + ")");
      s = nm;
    }
    em.done[e] = s;
    return s;
  }
  std::string relE(E a, E b, int rel, Emit &em) {
    RF d = radd(norm(a), norm(b), -1);
    if (d.num.zero()) return rel == 1 ? "false" : "true";
    if (d.num.isConst() && d.den.empty()) {
      int s = sgn(d.num.constVal());
      return (rel == 0 ? s == 0 : rel == 1 ? s < 0 : s <= 0) ? "true" : "false";
    }
    return relstr(d, rel, em.used, em.side);
  }
  std::string istr(E e, Emit &em) {
    em.bv = true;
    auto it = em.done.find(e);
    if (it != em.done.end()) return it->second;
    const Node nd = P.n(e);
    std::string s;
    auto bin = [&](const char *o) { s = std::string("(") + o + " " + istr(nd.a, em) + " " + istr(nd.b, em) + ")"; };
    switch (nd.op) {
    case I_CONST: s = "(_ bv" + std::to_string(nd.x) + " " + std::to_string(nd.w) + ")"; break;
    case I_VAR: em.ivars.insert(e); s = "i" + std::to_string(e); break;
    case I_ADD: bin("bvadd"); break;
    case I_SUB: bin("bvsub"); break;
    case I_MUL: bin("bvmul"); break;
    case I_AND: bin("bvand"); break;
    case I_OR: bin("bvor"); break;
    case I_XOR: bin("bvxor"); break;
    case I_SHL: bin("bvshl"); break;
    case I_LSHR: bin("bvlshr"); break;
    case I_ASHR: bin("bvashr"); break;
    case I_SDIV: bin("bvsdiv"); break;
    case I_SREM: bin("bvsrem"); break;
    case I_UDIV: bin("bvudiv"); break;
    case I_UREM: bin("bvurem"); break;
    case I_ZEXT: s = "((_ zero_extend " + std::to_string(nd.w - P.n(nd.a).w) + ") " + istr(nd.a, em) + ")"; break;
    case I_SEXT: s = "((_ sign_extend " + std::to_string(nd.w - P.n(nd.a).w) + ") " + istr(nd.a, em) + ")"; break;
    case I_TRUNC: s = "((_ extract " + std::to_string(nd.w - 1) + " 0) " + istr(nd.a, em) + ")"; break;
    case I_ITE: s = "(ite " + bstr(nd.a, em) + " " + istr(nd.b, em) + " " + istr(nd.c, em) + ")"; break;
    case I_FROMB:
      s = "(ite " + bstr(nd.a, em) + " (_ bv1 " + std::to_string(nd.w) + ") (_ bv0 " + std::to_string(nd.w) + "))";
      break;
    default: throw std::runtime_error("istr");
    }
    if (s.size() > 60) {
      std::string nm = "n" + std::to_string(e);
      em.defs.push_back("(define-fun " + nm + " () (_ BitVec " + std::to_string(nd.w) + ") " + s + ")");
      s = nm;
    }
    em.done[e] = s;
    return s;
  }
  // Full query text for a conjunction.
  std::string query(const std::vector<E> &conj, std::vector<E> &modelVars, bool &bv) {
    Emit em;
    std::vector<std::string> as;
    for (E c : conj) as.push_back(bstr(c, em));
    // close over atoms
    std::vector<std::string> facts;
    std::set<uint32_t> seen;
    while (true) {
      std::vector<uint32_t> todo;
      for (uint32_t a : em.used)
        if (!seen.count(a)) todo.push_back(a);
      if (todo.empty()) break;
      for (uint32_t a : todo) {
        seen.insert(a);
        Atom A = atoms[a];
        std::string nm = "a" + std::to_string(a);
        if (std::isfinite(A.itv.lo)) facts.push_back("(>= " + nm + " " + boundstr(A, A.itv.lo, true) + ")");
        if (std::isfinite(A.itv.hi)) facts.push_back("(<= " + nm + " " + boundstr(A, A.itv.hi, false) + ")");
        if (A.k == A_ROOT) {
          // nm^deg * den = num
          RF d = radd(A.arg, rconst(0));
          Poly n = d.num;
          Poly dn = pconst(1);
          for (auto &f : d.den)
            for (int i = 0; i < f.second; i++) dn = pmul(dn, facs[f.first]);
          Mono c = content(n), clear;
          for (auto &x : c)
            if (x.second < 0) clear.push_back({x.first, -x.second});
          n = pscaleMono(n, clear, 1);
          dn = pscaleMono(dn, clear, 1);
          if (lin) {
            Mono am{{a, A.deg}};
            facts.push_back("(= " + pstr(pscaleMono(dn, am, 1), em.used) + " " + pstr(n, em.used) + ")");
          } else {
            std::string pw;
            for (int i = 0; i < A.deg; i++) pw += " " + nm;
            facts.push_back("(= (*" + pw + " " + pstr(dn, em.used) + ") " + pstr(n, em.used) + ")");
          }
        } else if (A.k == A_TRI) {
          RF c = ratom(a);
          // not through rmul, which would reduce it: 4 c^3 = 3 c + k
          RF l = radd(rmul(c, rconst(3)), A.args[0]);
          Poly cube = pconst(4);
          for (int i = 0; i < 3; i++) cube = pmul(cube, c.num);
          for (auto &f : l.den)
            for (int i = 0; i < f.second; i++) cube = pmul(cube, facs[f.first]);
          RF d;
          d.num = padd(cube, l.num, -1);
          facts.push_back(relstr(d, 0, em.used, em.side));
        } else if (A.k == A_EXP) {
          std::string ge = relstr(radd(rconst(0), A.args[0], -1), 2, em.used, em.side); // -arg <= 0
          std::string le = relstr(A.args[0], 2, em.used, em.side);
          facts.push_back("(=> " + ge + " (>= " + nm + " 1.0))");
          facts.push_back("(=> " + le + " (<= " + nm + " 1.0))");
        } else if (A.k == A_POW) {
          if (ritv(A.args[0]).lo > 0) {
            std::string bge = relstr(radd(rconst(1), A.args[0], -1), 2, em.used, em.side);
            std::string ble = relstr(radd(A.args[0], rconst(1), -1), 2, em.used, em.side);
            std::string ege = relstr(radd(rconst(0), A.args[1], -1), 2, em.used, em.side);
            std::string ele = relstr(A.args[1], 2, em.used, em.side);
            facts.push_back("(=> (and " + bge + " " + ege + ") (>= " + nm + " 1.0))");
            facts.push_back("(=> (and " + ble + " " + ele + ") (>= " + nm + " 1.0))");
            facts.push_back("(=> (and " + bge + " " + ele + ") (<= " + nm + " 1.0))");
            facts.push_back("(=> (and " + ble + " " + ege + ") (<= " + nm + " 1.0))");
          }
        } else if (A.k == A_LOG) {
          std::string ge = relstr(radd(rconst(1), A.args[0], -1), 2, em.used, em.side);
          std::string le = relstr(radd(A.args[0], rconst(1), -1), 2, em.used, em.side);
          facts.push_back("(=> " + ge + " (>= " + nm + " 0.0))");
          facts.push_back("(=> " + le + " (<= " + nm + " 0.0))");
        } else if (A.k == A_ITE) {
          std::string c = bstr(A.src, em);
          RF s = ratom(a);
          std::string t = relstr(radd(s, A.arg, -1), 0, em.used, em.side);
          std::string f = relstr(radd(s, A.arg2, -1), 0, em.used, em.side);
          facts.push_back("(ite " + c + " " + t + " " + f + ")");
        }
      }
    }
    std::string out;
    modelVars.clear();
    for (uint32_t a : seen) {
      out += "(declare-fun a" + std::to_string(a) + " () Real)\n";
      if (atoms[a].k == A_VAR) modelVars.push_back(atoms[a].src);
    }
    for (E b : em.bvars) {
      out += "(declare-fun b" + std::to_string(b) + " () Bool)\n";
      modelVars.push_back(b);
    }
    for (E i : em.ivars) {
      const VarInfo &v = P.vars[P.n(i).x];
      int w = P.n(i).w;
      std::string nm = "i" + std::to_string(i), ws = std::to_string(w);
      out += "(declare-fun " + nm + " () (_ BitVec " + ws + "))\n";
      auto cst = [&](int64_t x) { return "(_ bv" + std::to_string((uint64_t)x & Pool::mask(w)) + " " + ws + ")"; };
      facts.push_back("(bvsge " + nm + " " + cst(v.ilo) + ")");
      facts.push_back("(bvsle " + nm + " " + cst(v.ihi) + ")");
      modelVars.push_back(i);
    }
    for (auto &x : linMono) {
      std::string nm = "m" + std::to_string(x.second);
      out += "(declare-fun " + nm + " () Real)\n";
      Itv v{1, 1};
      for (auto &y : x.first) v = imul(v, ipow(atoms[y.first].itv, y.second));
      if (std::isfinite(v.lo)) facts.push_back("(>= " + nm + " " + dstr(v.lo) + ")");
      if (std::isfinite(v.hi)) facts.push_back("(<= " + nm + " " + dstr(v.hi) + ")");
    }
    for (auto &d : em.defs) out += d + "\n";
    for (auto &f : facts) out += "(assert " + f + ")\n";
    for (auto &f : em.side) out += "(assert " + f + ")\n";
    for (auto &f : as) out += "(assert " + f + ")\n";
    bv = em.bv;
    return out;
  }
  std::string boundstr(const Atom &A, double v, bool) {
    if (A.k == A_VAR) return qstr(snap(v));
    return dstr(v);
  }

  // definite truth value of a condition by interval bounds: 1 true, 0 false, -1 unknown
  int quick(E e) {
    const Node nd = P.n(e);
    switch (nd.op) {
    case B_TRUE: return 1;
    case B_FALSE: return 0;
    case B_NOT: { int a = quick(nd.a); return a < 0 ? -1 : !a; }
    case B_AND: {
      int a = quick(nd.a), b = quick(nd.b);
      if (a == 0 || b == 0) return 0;
      return a == 1 && b == 1 ? 1 : -1;
    }
    case B_OR: {
      int a = quick(nd.a), b = quick(nd.b);
      if (a == 1 || b == 1) return 1;
      return a == 0 && b == 0 ? 0 : -1;
    }
    case B_LT: case B_LE: case B_EQ: {
      RF d = radd(norm(nd.a), norm(nd.b), -1);
      if (d.num.zero()) return nd.op == B_LT ? 0 : 1;
      Itv v = ritv(d);
      if (nd.op == B_LT) return v.hi < 0 ? 1 : v.lo >= 0 ? 0 : -1;
      if (nd.op == B_LE) return v.hi <= 0 ? 1 : v.lo > 0 ? 0 : -1;
      return v.lo > 0 || v.hi < 0 ? 0 : -1;
    }
    default: return -1;
    }
  }
};

// double evaluation of the DAG (candidate models only)
struct Eval {
  Pool &P;
  std::vector<double> vv; // by var index
  std::vector<double> val;
  std::vector<uint8_t> have;
  Eval(Pool &p) : P(p) {}
  void reset() { val.assign(P.nodes.size(), 0); have.assign(P.nodes.size(), 0); }
  double uf(const std::string &n, const std::vector<double> &a) {
    double h = 0.3;
    for (char c : n) h = std::fmod(h * 31.7 + c, 7.3);
    for (double x : a) h = h * 0.37 + std::sin(x * 1.3 + h);
    return h;
  }
  double ev(E e) {
    if (have[e]) return val[e];
    const Node nd = P.n(e);
    double r = 0;
    switch (nd.op) {
    case R_CONST: r = P.qs[nd.x].get_d(); break;
    case R_VAR: case B_VAR: case I_VAR: r = vv[nd.x]; break;
    case R_ADD: r = ev(nd.a) + ev(nd.b); break;
    case R_SUB: r = ev(nd.a) - ev(nd.b); break;
    case R_MUL: r = ev(nd.a) * ev(nd.b); break;
    case R_DIV: r = ev(nd.a) / ev(nd.b); break;
    case R_NEG: r = -ev(nd.a); break;
    case R_SQRT: r = std::sqrt(ev(nd.a)); break;
    case R_CBRT: r = std::cbrt(ev(nd.a)); break;
    case R_POW: r = std::pow(ev(nd.a), ev(nd.b)); break;
    case R_EXP: r = std::exp(ev(nd.a)); break;
    case R_LOG: r = std::log(ev(nd.a)); break;
    case R_SIN: r = std::sin(ev(nd.a)); break;
    case R_COS: r = std::cos(ev(nd.a)); break;
    case R_ATAN: r = std::atan(ev(nd.a)); break;
    case R_TANH: r = std::tanh(ev(nd.a)); break;
    case R_ATAN2: r = std::atan2(ev(nd.a), ev(nd.b)); break;
    case R_ACOS: r = std::acos(ev(nd.a)); break;
    case R_TRI: r = std::cos(std::acos(std::max(-1., std::min(1., ev(nd.a)))) / 3); break;
    case R_UF: {
      std::vector<double> a;
      for (E y : P.ufs[nd.x].second) a.push_back(ev(y));
      r = uf(P.ufs[nd.x].first, a);
      break;
    }
    case R_ITE: r = ev(nd.a) != 0 ? ev(nd.b) : ev(nd.c); break;
    case B_TRUE: r = 1; break;
    case B_FALSE: r = 0; break;
    case B_NOT: r = ev(nd.a) == 0; break;
    case B_AND: r = ev(nd.a) != 0 && ev(nd.b) != 0; break;
    case B_OR: r = ev(nd.a) != 0 || ev(nd.b) != 0; break;
    case B_XOR: r = (ev(nd.a) != 0) != (ev(nd.b) != 0); break;
    case B_LT: r = ev(nd.a) < ev(nd.b); break;
    case B_LE: r = ev(nd.a) <= ev(nd.b); break;
    case B_EQ: {
      double a = ev(nd.a), b = ev(nd.b);
      r = std::fabs(a - b) <= 1e-8 * (std::fabs(a) + std::fabs(b) + 1e-9);
      break;
    }
    case B_IEQ: r = ev(nd.a) == ev(nd.b); break;
    case B_ISLT: r = Pool::sx((uint64_t)(int64_t)ev(nd.a), P.n(nd.a).w) < Pool::sx((uint64_t)(int64_t)ev(nd.b), P.n(nd.b).w); break;
    case B_ISLE: r = Pool::sx((uint64_t)(int64_t)ev(nd.a), P.n(nd.a).w) <= Pool::sx((uint64_t)(int64_t)ev(nd.b), P.n(nd.b).w); break;
    case B_IULT: r = ((uint64_t)(int64_t)ev(nd.a) & Pool::mask(P.n(nd.a).w)) < ((uint64_t)(int64_t)ev(nd.b) & Pool::mask(P.n(nd.a).w)); break;
    case B_IULE: r = ((uint64_t)(int64_t)ev(nd.a) & Pool::mask(P.n(nd.a).w)) <= ((uint64_t)(int64_t)ev(nd.b) & Pool::mask(P.n(nd.a).w)); break;
    case I_CONST: r = (double)Pool::sx(nd.x, nd.w); break;
    case I_FROMB: r = ev(nd.a) != 0; break;
    case I_ITE: r = ev(nd.a) != 0 ? ev(nd.b) : ev(nd.c); break;
    case I_ZEXT: r = (double)((uint64_t)(int64_t)ev(nd.a) & Pool::mask(P.n(nd.a).w)); break;
    case I_SEXT: r = ev(nd.a); break;
    case I_TRUNC: r = (double)Pool::sx((uint64_t)(int64_t)ev(nd.a), nd.w); break;
    default:
      if (isBV(nd.op))
        r = (double)Pool::sx(Pool::ibin(nd.op, (uint64_t)(int64_t)ev(nd.a) & Pool::mask(nd.w),
                                        (uint64_t)(int64_t)ev(nd.b) & Pool::mask(nd.w), nd.w), nd.w);
    }
    have[e] = 1;
    val[e] = r;
    return r;
  }
};
