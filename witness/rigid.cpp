// Named construction sites for constraints. Only parsed by the analysis, never executed.
#include "Mpc.h"
#include "FEStorage.h"

namespace verif_witness {
using namespace nla3d;

RigidBodyMpc* rigidBody(FEStorage* s, uint32 master) {
  RigidBodyMpc* r = new RigidBodyMpc;
  r->storage = s;
  r->masterNode = master;
  return r;
}
void rigidSlave(RigidBodyMpc* r, uint32 n) { r->slaveNodes.push_back(n); }
void rigidDof(RigidBodyMpc* r, Dof::dofType d) { r->dofs.push_back(d); }
void rigidPre(RigidBodyMpc* r) { r->pre(); }
void rigidUpdate(RigidBodyMpc* r) { r->update(); }
void rigidRegister(RigidBodyMpc* r) { r->registerMpcsInStorage(); }
uint32 rigidSize(RigidBodyMpc* r) { return r->collection.size(); }
uint32 rigidTerms(RigidBodyMpc* r, uint32 k) { return r->collection[k]->eq.size(); }
double rigidConstant(RigidBodyMpc* r, uint32 k) { return r->collection[k]->b; }
static MpcTerm* rigidTerm(RigidBodyMpc* r, uint32 k, uint32 t) {
  std::list<MpcTerm>::iterator i = r->collection[k]->eq.begin();
  for (uint32 j = 0; j < t; j++) i++;
  return &*i;
}
uint32 rigidNode(RigidBodyMpc* r, uint32 k, uint32 t) { return rigidTerm(r, k, t)->node; }
uint32 rigidType(RigidBodyMpc* r, uint32 k, uint32 t) { return rigidTerm(r, k, t)->node_dof; }
double rigidCoef(RigidBodyMpc* r, uint32 k, uint32 t) { return rigidTerm(r, k, t)->coef; }
void rigidPrint(RigidBodyMpc* r, std::ostream& out) { r->printEquations(out); }
}
