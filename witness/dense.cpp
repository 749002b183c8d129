// Instantiates the library's templates for sizes its own sources do not use, so that the analysis sees their bodies.
// Only parsed by the analysis, never executed.
#include "math/Mat.h"

namespace verif_witness {
using namespace nla3d;
using namespace nla3d::math;

template <uint16 M>
void sym() {
  MatSym<M> a, b;
  a.zero();
  a.comp(0, 0) = 1.0;
  a += b;
  a.compare(b);
  Mat<M, M> m = a.toMat();
  (void) m;
  a.getLength();
  Vec<M> v, r;
  matBVprod(a, v, 2.0, r);
}

template <uint16 M>
void vec() {
  Vec<M> a, b, c;
  c = a + b;
  c = a - b;
  c = -a;
  c = a * 2.0;
  c += a;
  c.zero();
  double d = a * b + a.length() + a.qlength();
  a.compare(b);
  a[0] = d;
}

template <uint16 M, uint16 N, uint16 L>
void mat() {
  Mat<M, N> a, b, c;
  c = a + b;
  c = a - b;
  c = -a;
  c = a * 2.0;
  c += a;
  c.zero();
  a.compare(b);
  Mat<N, M> t = a.transpose();
  Mat<N, L> p;
  Mat<M, L> q = a * p;
  Vec<N> x;
  Vec<M> y = a * x;
  MatSym<M> d;
  MatSym<N> r;
  Mat<M, L> pp;
  Mat<N, L> qq;
  matBTDBprod(a, d, 2.0, r);
  matBVprod(a, x, 2.0, y);
  matBTVprod(a, y, 2.0, x);
  matABprod(a, p, 2.0, q);
  matATBprod(a, pp, 2.0, qq);
  (void) t;
}

template <uint16 M>
void square() {
  Mat<M, M> a;
  a.Identity();
  double d = a.det();
  Mat<M, M> b = a.inv(d);
  (void) b;
}

void use() {
  sym<1>();
  sym<2>();
  sym<3>();
  sym<6>();
  sym<9>();
  MatSym<12> s12;
  MatSym<24> s24;
  MatSym<8> s8;
  MatSym<4> s4;
  s4.comp(0, 0) = s8.comp(0, 0) = s12.comp(0, 0) = s24.comp(0, 0);
  vec<1>();
  vec<2>();
  vec<3>();
  vec<6>();
  mat<1, 1, 1>();
  mat<2, 3, 2>();
  mat<3, 2, 4>();
  mat<3, 3, 3>();
  mat<6, 3, 1>();
  square<2>();
  square<3>();
  square<4>();
  Mat<4, 4> m4;
  m4.cross_cut(0, 0);
  Mat<3, 3> m3;
  Vec<3> e = m3.eigenvalues();
  (void) e;
}

}  // namespace verif_witness
