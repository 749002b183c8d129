// Named construction sites and calls for the VTK writer. Only parsed by the analysis, never executed.
#include "VtkProcessor.h"

namespace verif_witness {
using namespace nla3d;

VtkProcessor* vtk(FEStorage* s) { return new VtkProcessor(s, "out"); }
void vtkPre(VtkProcessor* p) { p->pre(); }
void vtkStep(VtkProcessor* p, uint16 k) { p->process(k); }
void vtkAll(VtkProcessor* p) { p->writeAllResults(); }
void vtkScalar(VtkProcessor* p, scalarQuery q) { p->registerResults({q}); }
void vtkVector(VtkProcessor* p, vectorQuery q) { p->registerResults({q}); }
void vtkTensor(VtkProcessor* p, tensorQuery q) { p->registerResults({q}); }
}
