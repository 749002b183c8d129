// Named construction, hand-over and destruction sites. Only parsed by the analysis, never executed.
#include "FEStorage.h"
#include "FESolver.h"
#include "Mpc.h"
#include "VtkProcessor.h"
#include "ReactionProcessor.h"
#include "FEComponent.h"
#include "elements/ElementFactory.h"
#include "elements/PLANE41.h"
#include "elements/SOLID81.h"
#include "elements/TRUSS3.h"
#include "elements/TRIANGLE4.h"
#include "elements/TETRA0.h"
#include "elements/TETRA1.h"
#include "elements/QUADTH.h"
#include "elements/INTER0.h"
#include "elements/INTER3.h"
#include "materials/MaterialFactory.h"

namespace verif_witness {
using namespace nla3d;
using namespace nla3d::math;

FEStorage* lifeStorage() { return new FEStorage; }
void lifeDeleteStorage(FEStorage* s) { delete s; }
void lifeNode(FEStorage* s) { s->addNode(new Node); }
void lifeNodes(FEStorage* s, uint32 n) { s->createNodes(n); }
void lifeElements(FEStorage* s, uint32 n, ElementType t) { s->createElements(n, t); }
void lifeElement(FEStorage* s) { s->addElement(new ElementTRUSS3); }
template <class T>
void lifeLike(FEStorage* s, uint32 n) {
  T* e = new T;
  s->createElements(n, *e);
  delete e;
}
void lifeLikePLANE41(FEStorage* s, uint32 n) { lifeLike<ElementPLANE41>(s, n); }
void lifeLikeSOLID81(FEStorage* s, uint32 n) { lifeLike<ElementSOLID81>(s, n); }
void lifeLikeTRUSS3(FEStorage* s, uint32 n) { lifeLike<ElementTRUSS3>(s, n); }
void lifeLikeTRIANGLE4(FEStorage* s, uint32 n) { lifeLike<ElementTRIANGLE4>(s, n); }
void lifeLikeTETRA0(FEStorage* s, uint32 n) { lifeLike<ElementTETRA0>(s, n); }
void lifeLikeTETRA1(FEStorage* s, uint32 n) { lifeLike<ElementTETRA1>(s, n); }
void lifeLikeQUADTH(FEStorage* s, uint32 n) { lifeLike<ElementQUADTH>(s, n); }
void lifeLikeINTER0(FEStorage* s, uint32 n) { lifeLike<ElementINTER0>(s, n); }
void lifeLikeINTER3(FEStorage* s, uint32 n) { lifeLike<ElementINTER3>(s, n); }
void lifeConnect(FEStorage* s, uint32 e, uint16 i, uint32 n) { s->getElement(e).getNodeNumber(i) = n; }
void lifeMpc(FEStorage* s, int32 n, int32 m) {
  Mpc* p = new Mpc;
  p->b = 0.0;
  p->eq.push_back(MpcTerm(n, Dof::UX, 1.0));
  p->eq.push_back(MpcTerm(m, Dof::UX, -1.0));
  s->addMpc(p);
}
RigidBodyMpc* lifeRigid(FEStorage* s, uint32 master, uint32 slave) {
  RigidBodyMpc* r = new RigidBodyMpc;
  r->storage = s;
  r->masterNode = master;
  r->slaveNodes.push_back(slave);
  r->dofs.push_back(Dof::UX);
  r->dofs.push_back(Dof::UY);
  s->addMpcCollection(r);
  return r;
}
void lifeComponent(FEStorage* s) {
  FEComponent* f = new FEComponent;
  f->list.push_back(1);
  f->name = "comp";
  s->addFEComponent(f);
}
void lifeMaterial0(FEStorage* s) { s->material = MaterialFactory::createMaterial("Compressible Neo-Hookean"); }
Material* lifeMaterial(uint16 k) { return MaterialFactory::createMaterial(MaterialFactory::matModelLabels[k]); }
void lifeGive(FEStorage* s, Material* m) { s->material = m; }
void lifeDeleteMaterial(Material* m) { delete m; }
void lifeTransient(FEStorage* s, bool t) { s->setTransient(t); }
void lifeDofs(FEStorage* s) { s->initDofs(); }
void lifeNumbers(FEStorage* s) { s->assignEquationNumbers(); }
void lifeSolution(FEStorage* s) { s->initSolutionData(); }
void lifeDeleteSolution(FEStorage* s) { s->deleteSolutionData(); }
void lifeDeleteMesh(FEStorage* s) { s->deleteMesh(); }
void lifeDeleteNodes(FEStorage* s) { s->deleteNodes(); }
void lifeDeleteElements(FEStorage* s) { s->deleteElements(); }
void lifeDeleteMpcs(FEStorage* s) { s->deleteMpcs(); }
void lifeDeleteCollections(FEStorage* s) { s->deleteMpcCollections(); }
void lifeDeleteComponents(FEStorage* s) { s->deleteFeComponents(); }
uint32 lifeNNodes(FEStorage* s) { return s->nNodes(); }
uint32 lifeNElements(FEStorage* s) { return s->nElements(); }
uint32 lifeNMpc(FEStorage* s) { return s->nMpc(); }
uint32 lifeNDofs(FEStorage* s) { return s->nDofs(); }

FESolver* lifeLinear() { return new LinearFESolver; }
FESolver* lifeNonlinear() { return new NonlinearFESolver; }
FESolver* lifeTransientSolver() { return new LinearTransientFESolver; }
void lifeDeleteSolver(FESolver* s) { delete s; }
void lifeAttach(FESolver* s, FEStorage* st) { s->attachFEStorage(st); }
void lifeVtk(FESolver* s, FEStorage* st) { s->addPostProcessor(new VtkProcessor(st, "out")); }
void lifeReaction(FESolver* s, FEStorage* st) { s->addPostProcessor(new ReactionProcessor(st)); }
void lifeDeletePost(FESolver* s) { s->deletePostProcessors(); }
uint32 lifeNPost(FESolver* s) { return s->getNumberOfPostProcessors(); }
void lifeSolver(FESolver* s, EquationSolver* e) { s->attachEquationSolver(e); }

SparsityInfo* lifePattern(uint32 n, uint32 m, uint32 k) { return new SparsityInfo(n, m, k); }
SparsityInfo* lifeNoPattern() { return new SparsityInfo; }
void lifePatternInit(SparsityInfo* p, uint32 n, uint32 m, uint32 k) { p->reinit(n, m, k); }
void lifePatternAdd(SparsityInfo* p, uint32 i, uint32 j) { p->addEntry(i, j); }
void lifePatternCompress(SparsityInfo* p) { p->compress(); }
void lifeDeletePattern(SparsityInfo* p) { delete p; }
SparseMatrix* lifeNoGeneral() { return new SparseMatrix; }
SparseSymMatrix* lifeNoSymmetric() { return new SparseSymMatrix; }
void lifeDeleteBlock(BlockSparseSymMatrix<2>* b) { delete b; }
dVec* lifeVec(uint32 n) { return new dVec(n, 1.0); }
dVec* lifeNoVec() { return new dVec; }
dVec* lifeVecLike(dVec* o) { return new dVec(*o); }
dVec* lifeVecView(dVec* o, uint32 a, uint32 n) { return new dVec(*o, a, n); }
dVec* lifeVecFrom(dVec* o) { return new dVec(std::move(*o)); }
void lifeVecAssign(dVec* a, dVec* b) { *a = *b; }
void lifeVecReinit(dVec* a, uint32 n) { a->reinit(n, 2.0); }
void lifeVecReview(dVec* a, dVec* b, uint32 f, uint32 n) { a->reinit(*b, f, n); }
void lifeVecAdd(dVec* a, dVec* b) { *a += *b; }
void lifeVecClear(dVec* a) { a->clear(); }
void lifeDeleteVec(dVec* a) { delete a; }
dMat* lifeMat(uint16 m, uint16 n) { return new dMat(m, n); }
dMat* lifeMatLike(dMat* o) { return new dMat(*o); }
void lifeMatAssign(dMat* a, dMat* b) { *a = *b; }
void lifeMatResize(dMat* a, uint16 m, uint16 n) { a->resize(m, n); }
void lifeDeleteMat(dMat* a) { delete a; }
}
