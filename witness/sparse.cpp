// Instantiates the block matrix for several block counts and gives the analysis named construction sites.
// Only parsed by the analysis, never executed.
#include "math/BlockSparseMatrix.h"

namespace verif_witness {
using namespace nla3d;
using namespace nla3d::math;

template <uint16 N>
void blockUse(BlockSparseSymMatrix<N>* b) {
  b->addEntry(1, 1);
  b->addValue(1, 1, 1.0);
  b->block(1);
  b->block(1, 2);
  b->zero();
  b->compress();
  b->isCompressed();
  b->nRows();
}

BlockSparseSymMatrix<2>* block2(uint32 a, uint32 b, uint32 m) {
  BlockSparseSymMatrix<2>* p = new BlockSparseSymMatrix<2>({a, b}, m);
  return p;
}

BlockSparseSymMatrix<3>* block3(uint32 a, uint32 b, uint32 c, uint32 m) {
  return new BlockSparseSymMatrix<3>({a, b, c}, m);
}

BlockSparseSymMatrix<4>* block4(uint32 a, uint32 b, uint32 c, uint32 d, uint32 m) {
  return new BlockSparseSymMatrix<4>({a, b, c, d}, m);
}

BlockSparseSymMatrix<2>* like2(BlockSparseSymMatrix<2>* ex) { return new BlockSparseSymMatrix<2>(ex); }
BlockSparseSymMatrix<3>* like3(BlockSparseSymMatrix<3>* ex) { return new BlockSparseSymMatrix<3>(ex); }
BlockSparseSymMatrix<4>* like4(BlockSparseSymMatrix<4>* ex) { return new BlockSparseSymMatrix<4>(ex); }

SparseMatrix* general(uint32 n, uint32 m, uint32 k) { return new SparseMatrix(n, m, k); }
SparseSymMatrix* symmetric(uint32 n, uint32 k) { return new SparseSymMatrix(n, k); }
SparseMatrix* generalLike(SparseMatrix* a) { return new SparseMatrix(a->getSparsityInfo()); }
SparseSymMatrix* symmetricLike(SparseSymMatrix* a) { return new SparseSymMatrix(a->getSparsityInfo()); }

void use() {
  blockUse<2>(nullptr);
  blockUse<3>(nullptr);
  blockUse<4>(nullptr);
}
}

namespace verif_witness {
dVec* vector(uint32 n, double v) { return new dVec(n, v); }
dVec* view(dVec* r, uint32 s, uint32 n) { return new dVec(*r, s, n); }
dVec* emptyVector() { return new dVec(); }
dVec* copyVector(dVec* r) { return new dVec(*r); }
dVec* moveVector(dVec* r) { return new dVec(std::move(*r)); }
void assignVector(dVec* a, dVec* b) { *a = *b; }
void deleteVector(dVec* a) { delete a; }
double getEntry(dVec* a, uint32 i) { return (*a)[i]; }
double getEntryConst(const dVec* a, uint32 i) { return (*a)[i]; }
void setEntry(dVec* a, uint32 i, double v) { (*a)[i] = v; }
void sumVector(dVec* a, dVec* b, dVec* r) { *r = *a + *b; }
void differenceVector(dVec* a, dVec* b, dVec* r) { *r = *a - *b; }
void negateVector(dVec* a, dVec* r) { *r = -*a; }
void scaleVector(dVec* a, double s, dVec* r) { *r = *a * s; }
void scaleLeftVector(dVec* a, double s, dVec* r) { *r = operator*(s, *a); }
void divideVector(dVec* a, double s, dVec* r) { *r = *a / s; }
void deleteGeneral(SparseMatrix* a) { delete a; }
void deleteSymmetric(SparseSymMatrix* a) { delete a; }
void setGeneral(SparseMatrix* a, uint32 i, uint32 j, double v) { (*a)(i, j) = v; }
void setSymmetric(SparseSymMatrix* a, uint32 i, uint32 j, double v) { (*a)(i, j) = v; }
void reinitGeneral(SparseMatrix* m, uint32 n, uint32 k, uint32 c, uint32 i1, uint32 j1, double v1, uint32 i2, uint32 j2, double v2, uint32 i3, uint32 j3, double v3) {
  std::vector<SparseEntry> e;
  SparseEntry a;
  a.i = i1; a.j = j1; a.v = v1;
  if (c > 0) e.push_back(a);
  a.i = i2; a.j = j2; a.v = v2;
  if (c > 1) e.push_back(a);
  a.i = i3; a.j = j3; a.v = v3;
  if (c > 2) e.push_back(a);
  m->BaseSparseMatrix::reinit(n, k, e);
}
}

#include "math/EquationSolver.h"
namespace verif_witness {
EquationSolver* gaussSolver() { return new GaussDenseEquationSolver; }
#ifdef NLA3D_USE_MKL
EquationSolver* pardisoSolver() { return new PARDISO_equationSolver; }
#endif
EquationSolver* chosenSolver() { return defaultEquationSolver; }
void deleteSolver(EquationSolver* s) { delete s; }
}
