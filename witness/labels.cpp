// Named access to material constants and labels. Only parsed by the analysis, never executed.
#include "materials/MaterialFactory.h"
#include "FEStorage.h"
#include "elements/element.h"

namespace verif_witness {
using namespace nla3d;
Material* makeMaterial(const std::string& n) { return MaterialFactory::createMaterial(n); }
void setConstant(Material* m, const std::string& n, double v) { m->Ci(n) = v; }
double constant(Material* m, uint16 i) { return m->Ci(i); }
void setElementNode(Element* e, uint16 i, uint32 n) { e->getNodeNumber(i) = n; }
uint32 elementNode(Element* e, uint16 i) { return e->getNodeNumber(i); }
}
