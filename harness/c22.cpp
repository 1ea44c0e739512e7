// C22: posits as the scalar of Eigen matrices: every matrix operation is the element-wise posit operation
#include "positeigen.h"
#include "cfg.hpp"
#include <Eigen/Dense>
using namespace mc;
#define CK4(NAME, OK) MC_CK(c, NAME, OK, "patterns %lld %lld %lld %lld", (long long)q[0].v, (long long)q[1].v, (long long)q[2].v, (long long)q[3].v)
template <class P> struct T2 {
  typedef Eigen::Matrix<P, 2, 2> M;
  typedef Eigen::Matrix<P, 2, 1> V2;
  typedef Eigen::Matrix<P, Eigen::Dynamic, Eigen::Dynamic> D;
  typedef Eigen::Matrix<P, Eigen::Dynamic, 1> VD;
  typedef typename P::UnpackedT U;
  template <class A, class F> static bool each(const A &m, F f) { bool ok = true; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) ok = ok && f(i, j).v == m(i, j).v; return ok; }
  static bool sameu(const U &a, const U &b) { return a.type == b.type && (a.type == U::Zero || a.type == U::NaN || a.negativeSign == b.negativeSign) && (a.type != U::Regular || (a.exponent == b.exponent && a.fraction == b.fraction)); }
  static void quad(Ctx &c, const P *q, bool more) {
    MC_OP(c, "dot");
    V2 u(q[0], q[1]), v(q[2], q[3]); VD du = u, dv = v;
    P w = q[0] * q[2] + q[1] * q[3];
    CK4("dot", u.dot(v).v == w.v && du.dot(dv).v == w.v);
    MC_OP(c, "row by column"); CK4("row by column", (u.transpose() * v).value().v == w.v && (du.transpose() * dv).value().v == w.v);
    if (!more) return;
    M a, b; a << q[0], q[1], q[2], q[3]; b << q[2], q[0], q[3], q[1];
    D da = a, db = b;
    MC_OP(c, "matrix sum"); CK4("matrix sum", each(M(a + b), [&](int i, int j) { return a(i, j) + b(i, j); }) && each(D(da + db), [&](int i, int j) { return a(i, j) + b(i, j); }));
    { M t = a; t += b; CK4("matrix +=", each(t, [&](int i, int j) { return a(i, j) + b(i, j); })); t = a; t -= b; CK4("matrix -=", each(t, [&](int i, int j) { return a(i, j) - b(i, j); })); }
    MC_OP(c, "matrix difference"); CK4("matrix difference", each(M(a - b), [&](int i, int j) { return a(i, j) - b(i, j); }));
    MC_OP(c, "matrix negation"); CK4("matrix negation", each(M(-a), [&](int i, int j) { return -a(i, j); }));
    MC_OP(c, "cwiseProduct"); CK4("cwiseProduct", each(M(a.cwiseProduct(b)), [&](int i, int j) { return a(i, j) * b(i, j); }) && each(D(da.cwiseProduct(db)), [&](int i, int j) { return a(i, j) * b(i, j); }));
    MC_OP(c, "cwiseQuotient"); CK4("cwiseQuotient", each(M(a.cwiseQuotient(b)), [&](int i, int j) { return a(i, j) / b(i, j); }));
    MC_OP(c, "scaling"); CK4("scaling", each(M(a * q[3]), [&](int i, int j) { return a(i, j) * q[3]; }) && each(M(q[3] * a), [&](int i, int j) { return a(i, j) * q[3]; }) && each(M(a / q[3]), [&](int i, int j) { return a(i, j) / q[3]; }));
    { M t = a; t *= q[1]; CK4("matrix *=", each(t, [&](int i, int j) { return a(i, j) * q[1]; })); t = a; t /= q[1]; CK4("matrix /=", each(t, [&](int i, int j) { return a(i, j) / q[1]; })); }
    MC_OP(c, "matrix product"); CK4("matrix product", each(M(a * b), [&](int i, int j) { return a(i, 0) * b(0, j) + a(i, 1) * b(1, j); }) && each(D(da * db), [&](int i, int j) { return a(i, 0) * b(0, j) + a(i, 1) * b(1, j); }));
    CK4("lazy product", each(D(da.lazyProduct(db)), [&](int i, int j) { return a(i, 0) * b(0, j) + a(i, 1) * b(1, j); }));
    MC_OP(c, "outer product"); CK4("outer product", each(M(u * v.transpose()), [&](int i, int j) { return u(i) * v(j); }));
    MC_OP(c, "reductions"); CK4("reductions", u.sum().v == (q[0] + q[1]).v && u.prod().v == (q[0] * q[1]).v && a.trace().v == (q[0] + q[3]).v && u.squaredNorm().v == (q[0] * q[0] + q[1] * q[1]).v && a.determinant().v == (q[0] * q[3] - q[1] * q[2]).v);
    MC_OP(c, "cwiseAbs"); CK4("cwiseAbs", each(M(a.cwiseAbs()), [&](int i, int j) { return a(i, j).abs(); }));
    bool fin = true, finite = true, fits = true;
    for (int i = 0; i < 4; i++) { Num n = decode(Tr<P>::f(), q[i].v); if (n.c == NAN_ || (n.c == INF && Tr<P>::f().spec == S_INF)) fin = false; if (n.c != REG && n.c != ZERO) finite = false; if (n.c == REG && scale(n) > 29) fits = false; }
    if (fin) {
      MC_OP(c, "extremes"); const P *lo = q, *hi = q; for (int i = 1; i < 4; i++) { if (q[i] < *lo) lo = q + i; if (*hi < q[i]) hi = q + i; }
      CK4("extremes", a.minCoeff().v == lo->v && a.maxCoeff().v == hi->v && da.minCoeff().v == lo->v && da.maxCoeff().v == hi->v);
      CK4("cwise min max", each(M(a.cwiseMin(b)), [&](int i, int j) { return a(i, j) < b(i, j) ? a(i, j) : b(i, j); }) && each(M(a.cwiseMax(b)), [&](int i, int j) { return a(i, j) < b(i, j) ? b(i, j) : a(i, j); }));
      int n = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) n += a(i, j) < b(i, j);
      CK4("compare count", (a.array() < b.array()).count() == n && (a == a) && (a == b) == (each(a, [&](int i, int j) { return b(i, j); })));
    }
    MC_OP(c, "matrix casts");
    if (finite) {
      Eigen::Matrix2f f = a.template cast<float>(); Eigen::Matrix2d d = a.template cast<double>();
      bool ok = true; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) ok = ok && f(i, j) == (float)a(i, j) && d(i, j) == (double)a(i, j);
      CK4("cast to floats", ok); CK4("cast from floats", each(M(f.template cast<P>()), [&](int i, int j) { return P((float)a(i, j)); }) && each(M(d.template cast<P>()), [&](int i, int j) { return a(i, j); }));
      if (fits) { Eigen::Matrix2i k = a.template cast<int>(); ok = true; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) ok = ok && k(i, j) == (int)a(i, j);
        CK4("cast to ints", ok); CK4("cast from ints", each(M(k.template cast<P>()), [&](int i, int j) { return P((int)a(i, j)); })); }
    }
    typedef Eigen::Matrix<U, 2, 2> MU;
    MC_OP(c, "unpacked matrices"); MU x = a.template cast<U>(), y = b.template cast<U>(), s = x + y, p = x.cwiseProduct(y), z = x.cwiseQuotient(y), e = x * y;
    bool ok = true; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) ok = ok && sameu(x(i, j), a(i, j).unpack()) && sameu(s(i, j), x(i, j) + y(i, j)) && sameu(p(i, j), x(i, j) * y(i, j)) && sameu(z(i, j), x(i, j) / y(i, j)) && sameu(e(i, j), x(i, 0) * y(0, j) + x(i, 1) * y(1, j));
    CK4("unpacked matrices", ok);
  }
  static void constants(Ctx &c) {
    typedef Eigen::NumTraits<P> NT; const Fmt f = Tr<P>::f(); c.states++; c.at(0); MC_OP(c, "traits");
    MC_CK(c, "traits", !NT::IsComplex && !NT::IsInteger && NT::IsSigned && NT::RequireInitialization, "flags of NumTraits");
    MC_CK(c, "highest", NT::highest().v == maxpos(f), "got %lld", (long long)NT::highest().v);
    MC_CK(c, "lowest", NT::lowest().v == -maxpos(f), "got %lld", (long long)NT::lowest().v);
    MC_CK(c, "epsilon", NT::epsilon().v == std::numeric_limits<P>::epsilon().v, "got %lld", (long long)NT::epsilon().v);
    typedef Eigen::NumTraits<U> NU; MC_CK(c, "unpacked traits", !NU::IsComplex && !NU::IsInteger && NU::IsSigned && NU::RequireInitialization, "flags of NumTraits");
    for (int n = 1; n <= 9; n++) for (int m = 1; m <= 9; m++) { c.at(n, m);
      MC_OP(c, "constant matrices"); D z = D::Zero(n, m), o = D::Ones(n, m), i = D::Identity(n, m), k = D::Constant(n, m, P::two()), d(n, m); P s(0); bool ok = true;
      for (int x = 0; x < n; x++) for (int y = 0; y < m; y++) ok = ok && z(x, y).v == 0 && o(x, y).v == P::one().v && i(x, y).v == (x == y ? P::one().v : 0) && k(x, y).v == P::two().v && d(x, y).v == 0;
      MC_CK(c, "constant matrices", ok, "%d x %d", n, m); (void)s; }
  }
  // every entry small enough that every sum met is exact: the product of any size is the exact one
  static void sizes(Ctx &c, int n, int m, int k) {
    c.states++; c.at(n, m, k);
    for (int seed = 0; seed < 3; seed++) {
      D a(n, k), b(k, m); Eigen::MatrixXi x(n, k), y(k, m);
      for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) a(i, j) = P(x(i, j) = (i * 3 + j * 5 + seed) % 5 - 2);
      for (int i = 0; i < k; i++) for (int j = 0; j < m; j++) b(i, j) = P(y(i, j) = (i * 7 + j * 2 + seed * 3) % 5 - 2);
      D r = a * b; D at = a.transpose(), r2 = at.transpose() * b, acc = r; acc.noalias() -= a * b; D twice = r; twice.noalias() += a * b; Eigen::MatrixXi z = x * y; bool ok = true, ok2 = true;
      MC_OP(c, "product of any size");
      for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { ok = ok && r(i, j).v == P(z(i, j)).v && r2(i, j).v == r(i, j).v; ok2 = ok2 && acc(i, j).v == 0 && twice(i, j).v == P(2 * z(i, j)).v; }
      MC_CK(c, "product of any size", ok, "%d x %d x %d, filling %d", n, k, m, seed); MC_CK(c, "accumulated product", ok2, "%d x %d x %d, filling %d", n, k, m, seed);
      MC_OP(c, "sum of any size"); MC_CK(c, "sum of any size", a.sum().v == P(x.sum()).v && (VD(a.rowwise().sum())).sum().v == P(x.sum()).v, "%d x %d", n, k);
    }
  }
};
// every pattern of the small format in each of the four positions
template <class P> static void all4(Ctx &c) {
  const Fmt f = Tr<P>::f(); std::vector<int64_t> A = fullset(f);
  size_t n = 0;
  for (int64_t a : c.S1(A)) for (int64_t b : A) for (int64_t d : c.S2(A)) for (int64_t e : A) { c.at(a, b, d); P q[4] = {mkp<P>(a), mkp<P>(b), mkp<P>(d), mkp<P>(e)}; T2<P>::quad(c, q, f.N <= 4 || c.thorough || n++ % 5 == 0 || a == b || d == e); }
}
template <class P> static std::vector<int64_t> thin(int lvl, size_t n) {
  const Fmt f = Tr<P>::f(); std::vector<int64_t> A = alphabet(f, lvl), B;
  for (size_t i = 0; i < A.size(); i += std::max<size_t>(1, A.size() / n)) B.push_back(A[i]);
  B.push_back(top(f)); B.push_back(0); B.push_back(maxpos(f)); B.push_back(-maxpos(f)); return B;
}
template <class P> static void alpha4(Ctx &c, int lvl) {
  std::vector<int64_t> A = thin<P>(lvl, c.thorough ? 150 : 60), B = thin<P>(lvl, c.thorough ? 31 : 11);
  size_t n = 0;
  for (int64_t a : c.S1(A)) for (int64_t b : B) for (int64_t d : c.S2(A)) for (int64_t e : B) { c.at(a, b, d); P q[4] = {mkp<P>(a), mkp<P>(b), mkp<P>(d), mkp<P>(e)}; T2<P>::quad(c, q, n++ % 3 == 0 || b == e || d == a); }
}
template <class P> static void common(const std::string &n) {
  add(n + " constants", 1, [](Ctx &c) { T2<P>::constants(c); });
}
namespace { struct R { R() {
  typedef Posit<int8_t, 4, 0, uint8_t, PositSpec::WithNan> A; typedef Posit<int8_t, 5, 1, uint8_t, PositSpec::WithNanInf> B; typedef Posit<int8_t, 5, 0, uint8_t, PositSpec::WithInf> C;
  typedef Posit<int16_t, 16, 1, uint16_t, PositSpec::WithNan> E; typedef Posit<int32_t, 32, 2, uint64_t, PositSpec::WithNanInf> G; typedef Posit<int8_t, 8, 0, uint8_t, PositSpec::WithInf> H;
#if SHARD % 3 == 0
  add("matrices 4,0 WithNan", 8, all4<A>); common<A>("4,0"); add("matrices 8,0 WithInf", 16, [](Ctx &c) { alpha4<H>(c, 0); }); common<H>("8,0");
#elif SHARD % 3 == 1
  add("matrices 5,1 WithNanInf", 32, all4<B>); common<B>("5,1"); add("matrices 5,0 WithInf", 32, all4<C>);
#else
  add("matrices 16,1 WithNan", 16, [](Ctx &c) { alpha4<E>(c, 0); }); common<E>("16,1"); add("matrices 32,2 WithNanInf", 16, [](Ctx &c) { alpha4<G>(c, 0); }); common<G>("32,2");
  for (int n = 1; n <= 24; n++) add("products " + std::to_string(n), 4, [n](Ctx &c) { std::vector<int64_t> s; for (int m = 1; m <= 24; m++) if (c.thorough || m % 4 <= 1 || m == n) s.push_back(m); for (int64_t m : c.S1(s)) for (int k = 1; k <= 24; k++) if (c.thorough || k <= 9 || k % 4 <= 1) { T2<E>::sizes(c, n, (int)m, k); T2<G>::sizes(c, n, (int)m, k); } });
#endif
} } r_; }
