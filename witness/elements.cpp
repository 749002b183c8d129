// Instantiates the library's templates for sizes its own sources do not use, so that the analysis sees their bodies.
// Only parsed by the analysis, never executed.
#include "elements/element.h"
#include "elements/isoparametric.h"

namespace verif_witness {
using namespace nla3d;
using namespace nla3d::math;

class Probe : public Element {
  public:
    void all() {
      MatSym<4> a;
      MatSym<6> b;
      MatSym<12> c;
      Vec<4> va;
      Vec<6> vb;
      assembleK(a, {Dof::UX});
      assembleC(a, {Dof::UX});
      assembleM(a, {Dof::UX});
      assembleK(b, {Dof::UX, Dof::UY});
      assembleC(b, {Dof::UX, Dof::UY});
      assembleM(b, {Dof::UX, Dof::UY});
      assembleK(c, {Dof::UX, Dof::UY, Dof::UZ});
      assembleC(c, {Dof::UX, Dof::UY, Dof::UZ});
      assembleM(c, {Dof::UX, Dof::UY, Dof::UZ});
      assembleK(a, va, {Dof::UX});
      assembleK(b, vb, {Dof::UX, Dof::UY});
    }
};

}  // namespace verif_witness
