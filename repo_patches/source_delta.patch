From 7907e7f427535137f1a8e08e1078af46a0e0dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 01/35] fix: Element::assembleM adds to the mass matrix, not to
 the damping matrix

---
 src/lib/elements/element.h | 874 ++++++++++++++++++-------------------
 1 file changed, 437 insertions(+), 437 deletions(-)

diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index 0401ff2..d1ace57 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -1,437 +1,437 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include "sys.h"
-#include <vector>
-#include <math.h>
-#include <initializer_list>
-#include <Eigen/Dense>
-
-#include "query.h"
-#include "Node.h"
-#include "math/Vec.h"
-#include "math/Mat.h"
-
-namespace nla3d {
-
-//pre-defines
-class Material;
-class FEStorage;
-
-
-// Element shapes are taken from vtk-file-formats.pdf
-enum ElementShape {
-  VERTEX = 0,
-  TWIN_VERTEX,
-  LINE,
-  TRIANGLE,
-  QUAD,
-  TETRA,
-  HEXAHEDRON,
-  WEDGE,
-  PYRAMID,
-  QUADRARIC_EDGE,
-  QUADRATIC_TRIANGLE,
-  QUADRATIC_QUAD,
-  QUADRATIC_TETRA,
-  QUADRARIC_HEXAHEDRON,
-  UNDEFINED
-};
-
-// number of dimensions in shape
-static const uint16 _shape_dim[] = {
-  0,  // VERTEX
-  0,  // TWIN_VERTEX
-  1,  // LINE
-  2,  // TRIANGLE
-  2,  // QUAD
-  3,  // TETRA
-  3,  // HEXAHEDRON
-  3,  // WEDGE
-  3,  // PYRAMID
-  2,  // QUADRARIC_EDGE
-  2,  // QUADRATIC_TRIANGLE
-  2,  // QUADRATIC_QUAD
-  3,  // QUADRATIC_TETRA
-  3   // QUADRARIC_HEXAHEDRON
-};
-
-
-// number of nodes in shape
-static const uint16 _shape_nnodes[] = {
-  1,  // VERTEX,
-  2,  // TWIN_VERTEX
-  2,  // LINE
-  3,  // TRIANGLE
-  4,  // QUAD
-  4,  // TETRA
-  8,  // HEXAHEDRON
-  6,  // WEDGE
-  5,  // PYRAMID
-  3,  // QUADRARIC_EDGE
-  6,  // QUADRATIC_TRIANGLE
-  8,  // QUADRATIC_QUAD
-  10, // QUADRATIC_TETRA
-  20  // QUADRARIC_HEXAHEDRON
-};
-
-
-// Element base class
-// All FE should be derived from that class. The class provide interface for building stiffness,
-// damping and inertia matrices (methods buildK(), buildC(), buildM()), for get element results
-// (methods getScalar(...), getVector(...), getTensor(...)), for update element state after solution
-// iteration (method update()).
-class Element {
-  public: 
-    Element ();
-    virtual ~Element();
-
-    // get element number, as it is stored in FEStorage. Numbers start from 1.
-    uint32 getElNum();
-    // return number of nodes for the element
-    uint16 getNNodes();
-    // return number of dimensions (0D, 1D, 2D, 3D) occupied by element shape. 
-    uint16 getDim();
-    // return element shape
-    ElementShape getShape();
-    // return element type
-    ElementType getType();
-    // return node number (as it stored in FEStorage) of the i-th node in the element
-    uint32& getNodeNumber (uint16 num);
-    // return the FEStorage to which element belongs
-    FEStorage& getStorage();
-    // return order of integration scheme used in the particular element for integration over volume
-    uint16 getIntegrationOrder();
-    // set the integration order for the element
-    void setIntegrationOrder(uint16 _nint); // нельзя вызывать после выполнения функции pre() (начало решения)
-
-    // heart of the element class
-    // TODO: comment massively here
-    virtual void pre()=0;
-    virtual void buildK()=0;
-    virtual void buildC();
-    virtual void buildM();
-    virtual void update()=0;
-
-    // The methods below are getters to receive solution information related to elements (like
-    // stresses, strains, volume and so on). The first argument is a pointer on return value. Please
-    // note, that result of the function times scale will be added to the pointer's value (*scalar
-    // += result * scale, in particular case). query is a value from enum shows with particular
-    // result should be returned. gp is a number of Gaussian point, if gp == GP_MEAN then the
-    // result will be averaged over the element based on current integration scheme.
-    // The methods return true if the query is relevant for the element and false if the element
-    // can't return asked query code.
-    virtual bool getScalar(double* scalar, scalarQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-    virtual bool getVector(math::Vec<3>* vector, vectorQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-    virtual bool getTensor(math::MatSym<3>* tensor, tensorQuery query,
-                           uint16 gp = GP_MEAN, const double scale = 1.0);
-
-    Element& operator= (const Element& from);
-
-    //in-out operation:
-    void print (std::ostream& out);
-
-    // some general purpose assemble procedures. Particular element realization could have it own
-    // assembly procedure.
-    template <uint16 dimM>
-    void assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs);
-    template <uint16 dimM>
-    void assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs);
-    template <uint16 dimM>
-    void assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs);
-
-    template <uint16 dimM>
-    void assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe,
-                   std::initializer_list<Dof::dofType> _nodeDofs);
-
-    void assembleK(Eigen::Ref<Eigen::MatrixXd> Ke, std::initializer_list<Dof::dofType> _nodeDofs);
-
-    friend class FEStorage;
-  protected:
-
-    ElementType type = ElementType::UNDEFINED;
-    ElementShape shape = ElementShape::UNDEFINED;
-    uint16 intOrder = 0; // number of int points overall
-    uint32 elNum = 0;
-    uint32 *nodes = nullptr;
-    FEStorage* storage = nullptr;
-};
-
-
-//Element geometry class
-class ElementVERTEX : public Element {
-  public:
-    ElementVERTEX() {
-      shape = ElementShape::VERTEX;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementVERTEX& operator= (const ElementVERTEX& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementTWIN_VERTEX : public Element {
-  public:
-    ElementTWIN_VERTEX() {
-      shape = ElementShape::TWIN_VERTEX;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTWIN_VERTEX& operator= (const ElementTWIN_VERTEX& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementLINE : public Element {
-  public:
-    ElementLINE() {
-      shape = ElementShape::LINE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementLINE& operator= (const ElementLINE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-class ElementTRIANGLE : public Element {
-  public:
-    ElementTRIANGLE() {
-      shape = ElementShape::TRIANGLE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTRIANGLE& operator= (const ElementTRIANGLE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementQUAD : public Element {
-  public:
-    ElementQUAD () {
-      shape = ElementShape::QUAD;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementQUAD& operator= (const ElementQUAD& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementTETRA : public Element {
-  public:
-    ElementTETRA() {
-      shape = ElementShape::TETRA;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementTETRA& operator= (const ElementTETRA& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementHEXAHEDRON : public Element {
-  public:
-    ElementHEXAHEDRON() {
-      shape = ElementShape::HEXAHEDRON;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementHEXAHEDRON& operator= (const ElementHEXAHEDRON& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-
-class ElementWEDGE : public Element {
-  public:
-    ElementWEDGE() {
-      shape = ElementShape::WEDGE;
-      nodes = new uint32[getNNodes()];
-    }
-
-    ElementWEDGE& operator= (const ElementWEDGE& from) {
-      Element::operator= (from);
-      return *this;
-    }
-};
-
-} // namespace nla3d
-
-// 'dirty' hack to avoid include loops (element-vs-festorage)
-#include "FEStorage.h"
-
-namespace nla3d {
-
-template <uint16 dimM>
-void Element::assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ke_p = Ke.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
-            Ke_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ce_p = Ce.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ce_p);
-            Ce_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Me_p = Me.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
-            Me_p++;
-          }
-        }
-      }
-    }
-  }
-}
-
-
-template <uint16 dimM>
-void Element::assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe, std::initializer_list<Dof::dofType> _nodeDofs) {
-  assert (nodes != NULL);
-  double* Ke_p = Ke.ptr();
-  std::vector<Dof::dofType> nodeDof(_nodeDofs);
-  uint16 dim = static_cast<uint16> (_nodeDofs.size());
-  assert (getNNodes() * dim == dimM);
-
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-      for (uint16 j=i; j < getNNodes(); j++) {
-        for (uint16 dj=0; dj < dim; dj++) {
-          if ((i==j) && (dj<di)) {
-            continue;
-          } else {
-            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
-            Ke_p++;
-          }
-        }
-      }
-    }
-  }
-
-  double* Fe_p = Fe.ptr();
-  for (uint16 i=0; i < getNNodes(); i++) {
-    for (uint16 di=0; di < dim; di++) {
-            storage->addValueF(nodes[i], nodeDof[di], *Fe_p);
-            Fe_p++;
-    }
-  }
-}
-
-
-inline uint16 Element::getNNodes() {
-  return _shape_nnodes[shape];
-}
-
-
-inline uint16 Element::getDim() {
-  return _shape_dim[shape];
-}
-
-
-inline ElementShape Element::getShape() {
-  return shape;
-}
-
-inline ElementType Element::getType() {
-  return type;
-
-}
-
-
-// & is used here because this function is called such this:
-// el->getNodeNumber(0) = 1234;
-inline uint32& Element::getNodeNumber(uint16 num) {
-  assert(num < getNNodes());
-  assert(nodes);
-  return nodes[num];
-}
-
-
-inline uint16 Element::getIntegrationOrder() {
-  return intOrder;
-}
-
-
-inline void Element::setIntegrationOrder(uint16 _nint) {
-  intOrder = _nint; 
-}
-
-
-inline FEStorage& Element::getStorage() {
-  return *storage;
-}
-
-
-inline uint32 Element::getElNum() {
-  return elNum;
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include "sys.h"
+#include <vector>
+#include <math.h>
+#include <initializer_list>
+#include <Eigen/Dense>
+
+#include "query.h"
+#include "Node.h"
+#include "math/Vec.h"
+#include "math/Mat.h"
+
+namespace nla3d {
+
+//pre-defines
+class Material;
+class FEStorage;
+
+
+// Element shapes are taken from vtk-file-formats.pdf
+enum ElementShape {
+  VERTEX = 0,
+  TWIN_VERTEX,
+  LINE,
+  TRIANGLE,
+  QUAD,
+  TETRA,
+  HEXAHEDRON,
+  WEDGE,
+  PYRAMID,
+  QUADRARIC_EDGE,
+  QUADRATIC_TRIANGLE,
+  QUADRATIC_QUAD,
+  QUADRATIC_TETRA,
+  QUADRARIC_HEXAHEDRON,
+  UNDEFINED
+};
+
+// number of dimensions in shape
+static const uint16 _shape_dim[] = {
+  0,  // VERTEX
+  0,  // TWIN_VERTEX
+  1,  // LINE
+  2,  // TRIANGLE
+  2,  // QUAD
+  3,  // TETRA
+  3,  // HEXAHEDRON
+  3,  // WEDGE
+  3,  // PYRAMID
+  2,  // QUADRARIC_EDGE
+  2,  // QUADRATIC_TRIANGLE
+  2,  // QUADRATIC_QUAD
+  3,  // QUADRATIC_TETRA
+  3   // QUADRARIC_HEXAHEDRON
+};
+
+
+// number of nodes in shape
+static const uint16 _shape_nnodes[] = {
+  1,  // VERTEX,
+  2,  // TWIN_VERTEX
+  2,  // LINE
+  3,  // TRIANGLE
+  4,  // QUAD
+  4,  // TETRA
+  8,  // HEXAHEDRON
+  6,  // WEDGE
+  5,  // PYRAMID
+  3,  // QUADRARIC_EDGE
+  6,  // QUADRATIC_TRIANGLE
+  8,  // QUADRATIC_QUAD
+  10, // QUADRATIC_TETRA
+  20  // QUADRARIC_HEXAHEDRON
+};
+
+
+// Element base class
+// All FE should be derived from that class. The class provide interface for building stiffness,
+// damping and inertia matrices (methods buildK(), buildC(), buildM()), for get element results
+// (methods getScalar(...), getVector(...), getTensor(...)), for update element state after solution
+// iteration (method update()).
+class Element {
+  public: 
+    Element ();
+    virtual ~Element();
+
+    // get element number, as it is stored in FEStorage. Numbers start from 1.
+    uint32 getElNum();
+    // return number of nodes for the element
+    uint16 getNNodes();
+    // return number of dimensions (0D, 1D, 2D, 3D) occupied by element shape. 
+    uint16 getDim();
+    // return element shape
+    ElementShape getShape();
+    // return element type
+    ElementType getType();
+    // return node number (as it stored in FEStorage) of the i-th node in the element
+    uint32& getNodeNumber (uint16 num);
+    // return the FEStorage to which element belongs
+    FEStorage& getStorage();
+    // return order of integration scheme used in the particular element for integration over volume
+    uint16 getIntegrationOrder();
+    // set the integration order for the element
+    void setIntegrationOrder(uint16 _nint); // нельзя вызывать после выполнения функции pre() (начало решения)
+
+    // heart of the element class
+    // TODO: comment massively here
+    virtual void pre()=0;
+    virtual void buildK()=0;
+    virtual void buildC();
+    virtual void buildM();
+    virtual void update()=0;
+
+    // The methods below are getters to receive solution information related to elements (like
+    // stresses, strains, volume and so on). The first argument is a pointer on return value. Please
+    // note, that result of the function times scale will be added to the pointer's value (*scalar
+    // += result * scale, in particular case). query is a value from enum shows with particular
+    // result should be returned. gp is a number of Gaussian point, if gp == GP_MEAN then the
+    // result will be averaged over the element based on current integration scheme.
+    // The methods return true if the query is relevant for the element and false if the element
+    // can't return asked query code.
+    virtual bool getScalar(double* scalar, scalarQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+    virtual bool getVector(math::Vec<3>* vector, vectorQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+    virtual bool getTensor(math::MatSym<3>* tensor, tensorQuery query,
+                           uint16 gp = GP_MEAN, const double scale = 1.0);
+
+    Element& operator= (const Element& from);
+
+    //in-out operation:
+    void print (std::ostream& out);
+
+    // some general purpose assemble procedures. Particular element realization could have it own
+    // assembly procedure.
+    template <uint16 dimM>
+    void assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs);
+    template <uint16 dimM>
+    void assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs);
+    template <uint16 dimM>
+    void assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs);
+
+    template <uint16 dimM>
+    void assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe,
+                   std::initializer_list<Dof::dofType> _nodeDofs);
+
+    void assembleK(Eigen::Ref<Eigen::MatrixXd> Ke, std::initializer_list<Dof::dofType> _nodeDofs);
+
+    friend class FEStorage;
+  protected:
+
+    ElementType type = ElementType::UNDEFINED;
+    ElementShape shape = ElementShape::UNDEFINED;
+    uint16 intOrder = 0; // number of int points overall
+    uint32 elNum = 0;
+    uint32 *nodes = nullptr;
+    FEStorage* storage = nullptr;
+};
+
+
+//Element geometry class
+class ElementVERTEX : public Element {
+  public:
+    ElementVERTEX() {
+      shape = ElementShape::VERTEX;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementVERTEX& operator= (const ElementVERTEX& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementTWIN_VERTEX : public Element {
+  public:
+    ElementTWIN_VERTEX() {
+      shape = ElementShape::TWIN_VERTEX;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTWIN_VERTEX& operator= (const ElementTWIN_VERTEX& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementLINE : public Element {
+  public:
+    ElementLINE() {
+      shape = ElementShape::LINE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementLINE& operator= (const ElementLINE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+class ElementTRIANGLE : public Element {
+  public:
+    ElementTRIANGLE() {
+      shape = ElementShape::TRIANGLE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTRIANGLE& operator= (const ElementTRIANGLE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementQUAD : public Element {
+  public:
+    ElementQUAD () {
+      shape = ElementShape::QUAD;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementQUAD& operator= (const ElementQUAD& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementTETRA : public Element {
+  public:
+    ElementTETRA() {
+      shape = ElementShape::TETRA;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementTETRA& operator= (const ElementTETRA& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementHEXAHEDRON : public Element {
+  public:
+    ElementHEXAHEDRON() {
+      shape = ElementShape::HEXAHEDRON;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementHEXAHEDRON& operator= (const ElementHEXAHEDRON& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+
+class ElementWEDGE : public Element {
+  public:
+    ElementWEDGE() {
+      shape = ElementShape::WEDGE;
+      nodes = new uint32[getNNodes()];
+    }
+
+    ElementWEDGE& operator= (const ElementWEDGE& from) {
+      Element::operator= (from);
+      return *this;
+    }
+};
+
+} // namespace nla3d
+
+// 'dirty' hack to avoid include loops (element-vs-festorage)
+#include "FEStorage.h"
+
+namespace nla3d {
+
+template <uint16 dimM>
+void Element::assembleK(math::MatSym<dimM> &Ke, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ke_p = Ke.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
+            Ke_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleC(math::MatSym<dimM> &Ce, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ce_p = Ce.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueC(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ce_p);
+            Ce_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleM(math::MatSym<dimM> &Me, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Me_p = Me.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueM(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Me_p);
+            Me_p++;
+          }
+        }
+      }
+    }
+  }
+}
+
+
+template <uint16 dimM>
+void Element::assembleK(math::MatSym<dimM> &Ke, math::Vec<dimM> &Fe, std::initializer_list<Dof::dofType> _nodeDofs) {
+  assert (nodes != NULL);
+  double* Ke_p = Ke.ptr();
+  std::vector<Dof::dofType> nodeDof(_nodeDofs);
+  uint16 dim = static_cast<uint16> (_nodeDofs.size());
+  assert (getNNodes() * dim == dimM);
+
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+      for (uint16 j=i; j < getNNodes(); j++) {
+        for (uint16 dj=0; dj < dim; dj++) {
+          if ((i==j) && (dj<di)) {
+            continue;
+          } else {
+            storage->addValueK(nodes[i], nodeDof[di], nodes[j], nodeDof[dj], *Ke_p);
+            Ke_p++;
+          }
+        }
+      }
+    }
+  }
+
+  double* Fe_p = Fe.ptr();
+  for (uint16 i=0; i < getNNodes(); i++) {
+    for (uint16 di=0; di < dim; di++) {
+            storage->addValueF(nodes[i], nodeDof[di], *Fe_p);
+            Fe_p++;
+    }
+  }
+}
+
+
+inline uint16 Element::getNNodes() {
+  return _shape_nnodes[shape];
+}
+
+
+inline uint16 Element::getDim() {
+  return _shape_dim[shape];
+}
+
+
+inline ElementShape Element::getShape() {
+  return shape;
+}
+
+inline ElementType Element::getType() {
+  return type;
+
+}
+
+
+// & is used here because this function is called such this:
+// el->getNodeNumber(0) = 1234;
+inline uint32& Element::getNodeNumber(uint16 num) {
+  assert(num < getNNodes());
+  assert(nodes);
+  return nodes[num];
+}
+
+
+inline uint16 Element::getIntegrationOrder() {
+  return intOrder;
+}
+
+
+inline void Element::setIntegrationOrder(uint16 _nint) {
+  intOrder = _nint; 
+}
+
+
+inline FEStorage& Element::getStorage() {
+  return *storage;
+}
+
+
+inline uint32 Element::getElNum() {
+  return elNum;
+}
+
+} // namespace nla3d
-- 
2.43.0


From 771030226661cedfa79e7a308d2b7d6959b87377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 02/35] fix: FEStorage::deleteMpcs leaves no dangling pointers
 in the list

---
 src/lib/FEStorage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/FEStorage.cpp b/src/lib/FEStorage.cpp
index 2d123fa..4445412 100644
--- a/src/lib/FEStorage.cpp
+++ b/src/lib/FEStorage.cpp
@@ -274,6 +274,7 @@ void FEStorage::deleteMpcs() {
     delete *mpc;
     mpc++;
   }
+  mpcs.clear();
 }
 
 
-- 
2.43.0


From 5816003289aba6060d4c411ef0a18080f72f94d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 03/35] fix: virtual destructors for classes that are deleted
 through a base pointer

---
 src/lib/Mpc.h                |   1 +
 src/lib/PostProcessor.h      | 104 +++++++++++++-------------
 src/lib/materials/material.h | 140 +++++++++++++++++------------------
 3 files changed, 123 insertions(+), 122 deletions(-)

diff --git a/src/lib/Mpc.h b/src/lib/Mpc.h
index 22c4a5b..e8fba36 100644
--- a/src/lib/Mpc.h
+++ b/src/lib/Mpc.h
@@ -39,6 +39,7 @@ class Mpc {
 
 class MpcCollection {
   public:
+    virtual ~MpcCollection() { };
     virtual void update() = 0;
     virtual void pre() = 0;
     void printEquations(std::ostream& out);
diff --git a/src/lib/PostProcessor.h b/src/lib/PostProcessor.h
index 3ad5b30..63dff32 100755
--- a/src/lib/PostProcessor.h
+++ b/src/lib/PostProcessor.h
@@ -1,52 +1,52 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include "sys.h"
-#include "FEStorage.h"
-
-namespace nla3d {
-
-class FEStorage;
-class FESolver;
-
-//Data_Processor
-class PostProcessor {
-public:
-	PostProcessor(FEStorage *st);
-	~PostProcessor() { };
-	virtual void pre ()=0;
-	virtual void process (uint16 curLoadstep)=0;
-	virtual void post (uint16 curLoadstep)=0;
-	std::string getStatus ();
-	uint16 getnPost_num () {
-		return nPost_proc;
-	}
-	void setActive (bool act) {
-		if (failed) {
-			LOG(WARNING) << "PostProcessor " << nPost_proc << " (" << name << "): can't set active,"
-          << "because post_proc has been already failed";
-			return;
-		}
-		active = act;
-	}
-	bool getActive () {
-		return active;
-	}
-
-	uint16 getProc_num () {
-		return nPost_proc;
-	}
-
-	friend class FEStorage;
-	friend class FESolver;
-protected:
-	FEStorage *storage;
-	uint16 nPost_proc;
-	std::string name;
-	bool active;
-	bool failed;
-};
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include "sys.h"
+#include "FEStorage.h"
+
+namespace nla3d {
+
+class FEStorage;
+class FESolver;
+
+//Data_Processor
+class PostProcessor {
+public:
+	PostProcessor(FEStorage *st);
+	virtual ~PostProcessor() { };
+	virtual void pre ()=0;
+	virtual void process (uint16 curLoadstep)=0;
+	virtual void post (uint16 curLoadstep)=0;
+	std::string getStatus ();
+	uint16 getnPost_num () {
+		return nPost_proc;
+	}
+	void setActive (bool act) {
+		if (failed) {
+			LOG(WARNING) << "PostProcessor " << nPost_proc << " (" << name << "): can't set active,"
+          << "because post_proc has been already failed";
+			return;
+		}
+		active = act;
+	}
+	bool getActive () {
+		return active;
+	}
+
+	uint16 getProc_num () {
+		return nPost_proc;
+	}
+
+	friend class FEStorage;
+	friend class FESolver;
+protected:
+	FEStorage *storage;
+	uint16 nPost_proc;
+	std::string name;
+	bool active;
+	bool failed;
+};
+
+} // namespace nla3d
diff --git a/src/lib/materials/material.h b/src/lib/materials/material.h
index c8b0d00..b1ec8d6 100755
--- a/src/lib/materials/material.h
+++ b/src/lib/materials/material.h
@@ -1,70 +1,70 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#pragma once
-#include <string>
-#include "math/Vec.h"
-#include "math/Mat.h"
-
-namespace nla3d {
-
-class MaterialFactory;
-
-// Material must have named material constants
-class Material {
-public:
-	Material () : MC(NULL), numC(0), code(0) { 
-	}
-	Material (uint16 num_c);
-	~Material()   // TODO: discover the virtual destructor
-	{
-		if (MC) delete[] MC; 
-		MC = NULL;
-	}
-
-	virtual std::string toString();
-
-	std::string getName();
-	uint16 getCode ();
-  // constants getters
-	double& Ci (uint16 i);
-	double& Ci (const std::string& nameConst);
-	uint16 getNumC ();
-
-	static const double I[6];
-
-  friend class MaterialFactory;
-protected:
-	void register_mat_const(uint16 num, ...);
-	double* MC;
-	std::vector<std::string> MC_names;
-	uint16 numC;
-	uint16 code;
-	std::string name;
-};
-
-
-// ---=== FUNCTIONS ===--- //
-inline std::string Material::getName()
-{
-	return name;
-}
-
-inline uint16 Material::getCode ()
-{
-	return code;
-}
-
-inline double& Material::Ci (uint16 i)
-{
-	assert(i < numC);
-	return MC[i];
-}
-
-inline uint16 Material::getNumC ()
-{
-	return numC;
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#pragma once
+#include <string>
+#include "math/Vec.h"
+#include "math/Mat.h"
+
+namespace nla3d {
+
+class MaterialFactory;
+
+// Material must have named material constants
+class Material {
+public:
+	Material () : MC(NULL), numC(0), code(0) { 
+	}
+	Material (uint16 num_c);
+	virtual ~Material()
+	{
+		if (MC) delete[] MC; 
+		MC = NULL;
+	}
+
+	virtual std::string toString();
+
+	std::string getName();
+	uint16 getCode ();
+  // constants getters
+	double& Ci (uint16 i);
+	double& Ci (const std::string& nameConst);
+	uint16 getNumC ();
+
+	static const double I[6];
+
+  friend class MaterialFactory;
+protected:
+	void register_mat_const(uint16 num, ...);
+	double* MC;
+	std::vector<std::string> MC_names;
+	uint16 numC;
+	uint16 code;
+	std::string name;
+};
+
+
+// ---=== FUNCTIONS ===--- //
+inline std::string Material::getName()
+{
+	return name;
+}
+
+inline uint16 Material::getCode ()
+{
+	return code;
+}
+
+inline double& Material::Ci (uint16 i)
+{
+	assert(i < numC);
+	return MC[i];
+}
+
+inline uint16 Material::getNumC ()
+{
+	return numC;
+}
+
+} // namespace nla3d
-- 
2.43.0


From e2f86a73be344ea2fb0a4a1e314ad1171e192107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 04/35] fix: Newmark velocity update weights the new and the
 old acceleration correctly

---
 src/lib/FESolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 000fcaa..26df88b 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -617,7 +617,7 @@ void LinearTransientFESolver::solve() {
 
     // restore derivatives
     vecDDUnext = a0 * (vecUnext - vecU) - a2 * vecDU - a3 * vecDDU;
-    vecDUnext = vecDU + a6 * vecDDUnext + a7 * vecDDU;
+    vecDUnext = vecDU + a6 * vecDDU + a7 * vecDDUnext;
 
     vecU = vecUnext;
     vecDU = vecDUnext;
-- 
2.43.0


From 6263b94bac3001b4602a0b992ae1b7610961333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 05/35] fix: transient solution takes prescribed DoF values
 into account in the rhs

---
 src/lib/FESolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 26df88b..a75c0ae 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -609,6 +609,8 @@ void LinearTransientFESolver::solve() {
 
       // copy constrained dofs values
       vecUnextc = vecUc;
+      // need to take into account elimination of constrained DoFs (their values are constant in time):
+      matBTVprod(*(matK->block(1,2)), vecUnextc, -1.0, rhs);
       // solve equation system
       eqSolver->substituteEquations(&matKmod, &rhs[0], &vecUnextsl[0]);
 
-- 
2.43.0


From 6b39738731f52c1adcc2ecaeacd836444c819d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 06/35] fix: transient solution performs exactly
 numberOfTimesteps steps

---
 src/lib/FESolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index a75c0ae..30af697 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -543,7 +543,7 @@ void LinearTransientFESolver::solve() {
 
   double dt = (time1 - time0) / numberOfTimesteps;
   double curTime = time0 + dt;
-  uint16 curTimestep = 1;
+  uint32 curTimestep = 1;
   // initialize parameters of Newmark procedure
   a0 = 1.0 / (alpha * dt * dt);
   a1 = delta / (alpha * dt);
@@ -601,7 +601,7 @@ void LinearTransientFESolver::solve() {
   eqSolver->factorizeEquations(&matKmod);
 
   // timestepping
-  while (curTime <= time1) {
+  while (curTimestep <= numberOfTimesteps) {
     for (;;) {
       rhs = vecFsl + vecRsl;
       matBVprod(*(matM->block(2)), a0*vecUsl + a2*vecDUsl + a3*vecDDUsl, 1.0, rhs);
-- 
2.43.0


From 5747c83c7331a9e0e96c467a7e64810a3bd3a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 07/35] fix: ReactionProcessor does not dereference DoFs that
 are not used

---
 src/lib/ReactionProcessor.cpp | 268 +++++++++++++++++-----------------
 1 file changed, 134 insertions(+), 134 deletions(-)

diff --git a/src/lib/ReactionProcessor.cpp b/src/lib/ReactionProcessor.cpp
index 72ab1b7..cf8fc8d 100755
--- a/src/lib/ReactionProcessor.cpp
+++ b/src/lib/ReactionProcessor.cpp
@@ -1,134 +1,134 @@
-// This file is a part of nla3d project. For information about authors and
-// licensing go to project's repository on github:
-// https://github.com/dmitryikh/nla3d 
-
-#include "ReactionProcessor.h"
-#include "Node.h"
-
-namespace nla3d {
-
-ReactionProcessor::ReactionProcessor(FEStorage *st) : PostProcessor(st) {
-	name ="ReactionProcessor";
-}
-
-ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : PostProcessor(st) {
-	name ="ReactionProcessor";
-  filename = _filename;
-}
-
-void ReactionProcessor::pre() {
-	if (nodes.size() == 0) {
-    LOG(WARNING) << "Can't work. No nodes. Processor name = " << name;
-    return;
-  }
-
-  // define Dofs by the following rule:
-  // 1. If dofs is not empty than user alreade define which dof use to calculate reaction
-  // 2. If dofs.size() == 0 , select dof thich are constrained in current node set.
-  // if different nodes has different constrained dofs - error
-  if (dofs.size() == 0) {
-    for (uint16 d = 0; d < Dof::numberOfDofTypes; d++) {
-      Dof::dofType t = static_cast<Dof::dofType> (d);
-      if (storage->isNodeDofUsed(nodes[0], t) && storage->getNodeDof(nodes[0], t)->isConstrained) {
-        dofs.push_back(t);
-      } 
-    }
-    if (dofs.size() == 0) {
-      LOG(WARNING) << "Can't select dofs for reactions (they are unconstrained)";
-    } 
-    // check that others nodes have the same constrained dofs
-    bool sameDofsConstrained = true;
-    uint32 n = 0;
-    while (sameDofsConstrained && n < nodes.size()) {
-      for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) && !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
-          LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
-          sameDofsConstrained = false;
-          break;
-        }
-      }
-      n++;
-    }
-  } else {
-    // in case of user defined dofs just check that this dofs are used in the FE
-    bool dofsUsed = true;
-    uint32 n = 0;
-    while (dofsUsed && n < nodes.size()) {
-      for (uint16 d = 0; d < dofs.size(); d++) {
-        if (!storage->isNodeDofUsed(nodes[n], dofs[d])) {
-          LOG(ERROR) << "some dofs are not used in FE calculations";
-          dofsUsed = false;
-          break;
-        }
-      }
-      n++;
-    }
-  }
-  if (filename.length() > 0) {
-    std::ofstream file(filename.c_str(),std::ios::trunc);
-    if (!file) {
-      LOG(WARNING) << "Can't create a file with name " << filename;
-      return;
-    }
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << Dof::dofTypeLabels[dofs[d]];
-    }
-    file << std::endl;
-    file << "0";
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << 0.0;
-    }
-    file << std::endl;
-    file.close();
-  }
-  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    //sumOfDofsReactions[d].reserve(qLoadstep+1);
-    sumOfDofsReactions[d].push_back(0.0);
-  }
-}
-
-void ReactionProcessor::process (uint16 curLoadstep) {
-  std::vector<double> reactions;
-  reactions.assign(dofs.size(), 0.0);
-
-	for (uint32 n = 0; n < nodes.size(); n++) {
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      reactions[d] += storage->getReaction(nodes[n],dofs[d]);
-    }
-  }
-
-  if (filename.length() > 0) {
-    std::ofstream file(filename.c_str(),std::ios::app);
-    if (!file) {
-      LOG(WARNING) << "Can't open a file with name " << filename;
-      return;
-    }
-    file << curLoadstep;
-    for (uint16 d = 0; d < dofs.size(); d++) {
-      file << "\t" << reactions[d];
-    }
-    file << std::endl;
-    file.close();
-  }
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    sumOfDofsReactions[d].push_back(reactions[d]);
-  }
-}
-
-
-void ReactionProcessor::post (uint16 curLoadstep) {
-}
-
-
-std::vector<double> ReactionProcessor::getReactions (Dof::dofType dof) {
-  for (uint16 d = 0; d < dofs.size(); d++) {
-    if (dofs[d] == dof) {
-      return sumOfDofsReactions[d];
-    }
-  }
-  LOG(ERROR) << "There is not results for DoF = " << Dof::dofTypeLabels[dof];
-  return std::vector<double> ();
-}
-
-} // namespace nla3d
+// This file is a part of nla3d project. For information about authors and
+// licensing go to project's repository on github:
+// https://github.com/dmitryikh/nla3d 
+
+#include "ReactionProcessor.h"
+#include "Node.h"
+
+namespace nla3d {
+
+ReactionProcessor::ReactionProcessor(FEStorage *st) : PostProcessor(st) {
+	name ="ReactionProcessor";
+}
+
+ReactionProcessor::ReactionProcessor(FEStorage *st, std::string _filename) : PostProcessor(st) {
+	name ="ReactionProcessor";
+  filename = _filename;
+}
+
+void ReactionProcessor::pre() {
+	if (nodes.size() == 0) {
+    LOG(WARNING) << "Can't work. No nodes. Processor name = " << name;
+    return;
+  }
+
+  // define Dofs by the following rule:
+  // 1. If dofs is not empty than user alreade define which dof use to calculate reaction
+  // 2. If dofs.size() == 0 , select dof thich are constrained in current node set.
+  // if different nodes has different constrained dofs - error
+  if (dofs.size() == 0) {
+    for (uint16 d = 0; d < Dof::numberOfDofTypes; d++) {
+      Dof::dofType t = static_cast<Dof::dofType> (d);
+      if (storage->isNodeDofUsed(nodes[0], t) && storage->getNodeDof(nodes[0], t)->isConstrained) {
+        dofs.push_back(t);
+      } 
+    }
+    if (dofs.size() == 0) {
+      LOG(WARNING) << "Can't select dofs for reactions (they are unconstrained)";
+    } 
+    // check that others nodes have the same constrained dofs
+    bool sameDofsConstrained = true;
+    uint32 n = 0;
+    while (sameDofsConstrained && n < nodes.size()) {
+      for (uint16 d = 0; d < dofs.size(); d++) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d]) || !storage->getNodeDof(nodes[n], dofs[d])->isConstrained) {
+          LOG(FATAL) << "Different dofs are constrained in the node set. Autochoosing of dofs is failed";
+          sameDofsConstrained = false;
+          break;
+        }
+      }
+      n++;
+    }
+  } else {
+    // in case of user defined dofs just check that this dofs are used in the FE
+    bool dofsUsed = true;
+    uint32 n = 0;
+    while (dofsUsed && n < nodes.size()) {
+      for (uint16 d = 0; d < dofs.size(); d++) {
+        if (!storage->isNodeDofUsed(nodes[n], dofs[d])) {
+          LOG(ERROR) << "some dofs are not used in FE calculations";
+          dofsUsed = false;
+          break;
+        }
+      }
+      n++;
+    }
+  }
+  if (filename.length() > 0) {
+    std::ofstream file(filename.c_str(),std::ios::trunc);
+    if (!file) {
+      LOG(WARNING) << "Can't create a file with name " << filename;
+      return;
+    }
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      file << "\t" << Dof::dofTypeLabels[dofs[d]];
+    }
+    file << std::endl;
+    file << "0";
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      file << "\t" << 0.0;
+    }
+    file << std::endl;
+    file.close();
+  }
+  sumOfDofsReactions.assign(dofs.size(), std::vector<double> ());
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    //sumOfDofsReactions[d].reserve(qLoadstep+1);
+    sumOfDofsReactions[d].push_back(0.0);
+  }
+}
+
+void ReactionProcessor::process (uint16 curLoadstep) {
+  std::vector<double> reactions;
+  reactions.assign(dofs.size(), 0.0);
+
+	for (uint32 n = 0; n < nodes.size(); n++) {
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      reactions[d] += storage->getReaction(nodes[n],dofs[d]);
+    }
+  }
+
+  if (filename.length() > 0) {
+    std::ofstream file(filename.c_str(),std::ios::app);
+    if (!file) {
+      LOG(WARNING) << "Can't open a file with name " << filename;
+      return;
+    }
+    file << curLoadstep;
+    for (uint16 d = 0; d < dofs.size(); d++) {
+      file << "\t" << reactions[d];
+    }
+    file << std::endl;
+    file.close();
+  }
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    sumOfDofsReactions[d].push_back(reactions[d]);
+  }
+}
+
+
+void ReactionProcessor::post (uint16 curLoadstep) {
+}
+
+
+std::vector<double> ReactionProcessor::getReactions (Dof::dofType dof) {
+  for (uint16 d = 0; d < dofs.size(); d++) {
+    if (dofs[d] == dof) {
+      return sumOfDofsReactions[d];
+    }
+  }
+  LOG(ERROR) << "There is not results for DoF = " << Dof::dofTypeLabels[dof];
+  return std::vector<double> ();
+}
+
+} // namespace nla3d
-- 
2.43.0


From 2decb4a42be15592229a6dfa35e88acec868246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:53 +0000
Subject: [PATCH 08/35] fix: PLANE41 writes invariants into the components of
 the vector

---
 src/lib/elements/PLANE41.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index fe31d30..b482a4b 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -200,9 +200,9 @@ bool ElementPLANE41::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       CVec[M_YY] = C[gp][1];
       CVec[M_XY] = C[gp][2];
       solidmech::IC_C(CVec.ptr(), IC);
-      vector[0] += IC[0] * scale;
-      vector[1] += IC[1] * scale;
-      vector[2] += IC[2] * scale;
+      (*vector)[0] += IC[0] * scale;
+      (*vector)[1] += IC[1] * scale;
+      (*vector)[2] += IC[2] * scale;
       return true;
   }
   return false;
-- 
2.43.0


From f8c9435fa26e04d506be60ee033acf7f97bbd816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 09/35] fix: PLANE41 Cauchy stress is F*S*F^T/J and is scaled

---
 src/lib/elements/PLANE41.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/PLANE41.cpp b/src/lib/elements/PLANE41.cpp
index b482a4b..92fe2a4 100755
--- a/src/lib/elements/PLANE41.cpp
+++ b/src/lib/elements/PLANE41.cpp
@@ -246,8 +246,8 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
 
       matF.zero();
       matF.data[0][0] = 1+O[gp][0]; //11
-      matF.data[0][1] = O[gp][1];  //12
-      matF.data[1][0] = O[gp][2];  //21
+      matF.data[0][1] = O[gp][2];  //21
+      matF.data[1][0] = O[gp][1];  //12
       matF.data[1][1] = 1+O[gp][3];//22
       matF.data[2][2] = 1; //33
 
@@ -264,7 +264,7 @@ bool  ElementPLANE41::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
       mat = dynamic_cast<Mat_Hyper_Isotrop_General*>(storage->getMaterial());
       CHECK_NOTNULL(mat);
       mat->getS_UP(6, solidmech::defaultTensorComponents, CVec.ptr(), p_e, matS.data);
-      matBTDBprod(matF, matS, 1.0/J, *tensor); //Symmetric Couchy tensor
+      matBTDBprod(matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-- 
2.43.0


From 0cd062106cef20a19950329e9532cad3d6ba56ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 10/35] fix: TETRA0 result queries honour the scale

---
 src/lib/elements/TETRA0.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index b449d51..d76be34 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -200,7 +200,7 @@ void ElementTETRA0::makeC (math::MatSym<6> &C) {
 
 bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
   if (query == scalarQuery::VOL){
-     *scalar += vol;
+     *scalar += vol*scale;
     return true;
   }
   return false;
@@ -208,27 +208,27 @@ bool ElementTETRA0::getScalar(double* scalar, scalarQuery query, uint16 gp, cons
 
 bool  ElementTETRA0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale) {
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
-      tensor->comp(0,1) += strains[3];
-      tensor->comp(1,2) += strains[4];
-      tensor->comp(0,2) += strains[5];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
+      tensor->comp(0,1) += strains[3]*scale;
+      tensor->comp(1,2) += strains[4]*scale;
+      tensor->comp(0,2) += strains[5]*scale;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
-    tensor->comp(0,1) += stress[3];
-    tensor->comp(1,2) += stress[4];
-    tensor->comp(0,2) += stress[5];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
+    tensor->comp(0,1) += stress[3]*scale;
+    tensor->comp(1,2) += stress[4]*scale;
+    tensor->comp(0,2) += stress[5]*scale;
     return true;
   }
   if (query == tensorQuery::TSTRAIN){
-    tensor->comp(0,0) += alpha*T;
-    tensor->comp(1,1) += alpha*T;
-    tensor->comp(2,2) += alpha*T;
+    tensor->comp(0,0) += alpha*T*scale;
+    tensor->comp(1,1) += alpha*T*scale;
+    tensor->comp(2,2) += alpha*T*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
-- 
2.43.0


From 315462a290a20623fe0a91112a1fc1c4e43949c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 11/35] fix: INTER0 result query honours the scale

---
 src/lib/elements/INTER0.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 8884c3f..62eba24 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -71,9 +71,9 @@ bool  ElementINTER0::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER0::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
-- 
2.43.0


From dc1cfc67794574b56599d3cef19682ec3d1303a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 12/35] fix: INTER3 result query honours the scale and reports
 unknown queries

---
 src/lib/elements/INTER3.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib/elements/INTER3.cpp b/src/lib/elements/INTER3.cpp
index 35e985d..4f84f62 100644
--- a/src/lib/elements/INTER3.cpp
+++ b/src/lib/elements/INTER3.cpp
@@ -215,23 +215,24 @@ bool  ElementINTER3::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
 
 bool ElementINTER3::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint16 gp, const double scale){
   if (query == tensorQuery::C){
-      tensor->comp(0,0) += strains[0];
-      tensor->comp(1,1) += strains[1];
-      tensor->comp(2,2) += strains[2];
+      tensor->comp(0,0) += strains[0]*scale;
+      tensor->comp(1,1) += strains[1]*scale;
+      tensor->comp(2,2) += strains[2]*scale;
       tensor->comp(0,1) += 0.;
       tensor->comp(1,2) += 0.;
       tensor->comp(0,2) += 0.;
       return true;
   }
   if (query == tensorQuery::E){
-    tensor->comp(0,0) += stress[0];
-    tensor->comp(1,1) += stress[1];
-    tensor->comp(2,2) += stress[2];
+    tensor->comp(0,0) += stress[0]*scale;
+    tensor->comp(1,1) += stress[1]*scale;
+    tensor->comp(2,2) += stress[2]*scale;
     tensor->comp(0,1) += 0.;
     tensor->comp(1,2) += 0.;
     tensor->comp(0,2) += 0.;
     return true;
   }
+  return false;
 }
 
 
-- 
2.43.0


From 31e21a791fca831eae718b4cbb08c95b99fdebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 13/35] fix: TRIANGLE4 strains and stresses do not accumulate
 over updates

---
 src/lib/elements/TRIANGLE4.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index 41e2d7a..efedb92 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -68,8 +68,10 @@ void ElementTRIANGLE4::update () {
     U[i*2 + 1] = storage->getNodeDofSolution(getNodeNumber(i), Dof::UY);
   }
   // restore strains
+  strains.zero();
   math::matBVprod(matB, U, 1.0, strains);
   // restore stresses
+  stress.zero();
   math::matBVprod(matC, strains, 1.0, stress);
 }
 
-- 
2.43.0


From 645cf5f48929690157378aedb5d03da244da6a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 14/35] fix: TRIANGLE4 plane stress elasticity is E/(1-my^2)

---
 src/lib/elements/TRIANGLE4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TRIANGLE4.cpp b/src/lib/elements/TRIANGLE4.cpp
index efedb92..ffc6ecc 100644
--- a/src/lib/elements/TRIANGLE4.cpp
+++ b/src/lib/elements/TRIANGLE4.cpp
@@ -113,7 +113,7 @@ void ElementTRIANGLE4::makeC (math::MatSym<3> &C) {
     }
     //Plane stress state
     if (state == PlaneState::Stress){
-      const double A = E*(1.-my*my);
+      const double A = E/(1.-my*my);
       C.comp(0,0) = 1.*A;
       C.comp(0,1) = my*A; 
       C.comp(1,1) = 1.*A;
-- 
2.43.0


From 4f0fc7ebc95a539de7b0bbc8bed80eb972d01bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 15/35] fix: cdb reader reads exactly the declared number of
 constraint terms

---
 src/lib/FEReaders.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index a503562..2c7ed87 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -561,7 +561,8 @@ bool readCdbFile(std::string filename, MeshData& md) {
         getLine(file, line);
         t.tokenize(line);
         uint16 place = 6;
-        for (int i = 0; i < std::max(n_terms, 2); i++) {
+        int in_row = std::min(n_terms, 2);
+        for (int i = 0; i < in_row; i++) {
           uint32 node = t.tokenInt(3 + 3 * i + 0);
           Dof::dofType dof = Dof::label2dofType(t.tokens[3 + 3 * i + 1]);
           double coef = t.tokenDouble(3 + 3 * i + 2);
-- 
2.43.0


From ba98d6451115b04fc2e0a92b39414873f5a74cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 16/35] fix: compressNumbers renumbers any node numbering other
 than 1..n in order

---
 src/lib/FEReaders.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/FEReaders.cpp b/src/lib/FEReaders.cpp
index 2c7ed87..4811569 100644
--- a/src/lib/FEReaders.cpp
+++ b/src/lib/FEReaders.cpp
@@ -34,7 +34,14 @@ void MeshData::clear() {
 
 void MeshData::compressNumbers() {
   // numbers should start from 1
-  if (nodesNumbers.size() == *std::max_element(nodesNumbers.begin(), nodesNumbers.end())) { 
+  bool compressed = true;
+  for (uint32 i = 0; i < nodesNumbers.size(); i++) {
+    if (nodesNumbers[i] != i + 1) {
+      compressed = false;
+      break;
+    }
+  }
+  if (compressed) {
     // nothing to do
     return;
   }
-- 
2.43.0


From ed564a17dc6e06f7d0f8618b49b23c5183bd4246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 17/35] fix: TimeControl starts stepping from the start time

---
 src/lib/FESolver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/FESolver.cpp b/src/lib/FESolver.cpp
index 30af697..a34295d 100644
--- a/src/lib/FESolver.cpp
+++ b/src/lib/FESolver.cpp
@@ -103,16 +103,17 @@ double TimeControl::getCurrentNormalizedTimeDelta() {
 
 
 void TimeControl::setEndTime(double _endTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set end time = " << _endTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set end time = " << _endTime
       << " when solution is running (current time = " << currentTime << ")";
   endTime = _endTime;
 }
 
 
 void TimeControl::setStartTime(double _startTime) {
-  LOG_IF(currentTime > 0.0, ERROR) << "Trying to set start time = " << _startTime
+  LOG_IF(currentTime > startTime, ERROR) << "Trying to set start time = " << _startTime
       << " when solution is running (current time = " << currentTime << ")";
   startTime = _startTime;
+  currentTime = _startTime;
 }
 
 
-- 
2.43.0


From 8f83b40fb48c2e23439482ea133fe9946b65bb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 18/35] fix: TETRA1 conductivity matrix has the sign of the
 other thermal elements

---
 src/lib/elements/TETRA1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 3465078..4f99260 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -131,9 +131,9 @@ void ElementTETRA1::makeB(math::Mat<3,4> &B)
 }
 
 void ElementTETRA1::makeC (math::MatSym<3> &C) {
-  C.comp(0,0) = -k;
-  C.comp(1,1) = -k;
-  C.comp(2,2) = -k;
+  C.comp(0,0) = k;
+  C.comp(1,1) = k;
+  C.comp(2,2) = k;
 }
 
 bool ElementTETRA1::getScalar(double* scalar, scalarQuery query, uint16 gp, const double scale) {
-- 
2.43.0


From aa13259ce50dc4d02dd2110dbe2efc4a64194ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 19/35] fix: SOLID81 stress results contain the pressure part
 once

---
 src/lib/elements/SOLID81.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/lib/elements/SOLID81.cpp b/src/lib/elements/SOLID81.cpp
index a3130f4..b8e7c72 100644
--- a/src/lib/elements/SOLID81.cpp
+++ b/src/lib/elements/SOLID81.cpp
@@ -282,8 +282,6 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
   Mat<3,3> matF;
   MatSym<3> matS;
   double J;
-  double cInv[6];
-  double pe;
 
   switch (query) {
     case tensorQuery::COUCHY:
@@ -301,25 +299,17 @@ bool  ElementSOLID81::getTensor(math::MatSym<3>* tensor, tensorQuery query, uint
 
       J = solidmech::J_C(C[gp].ptr());
 
-      //deviatoric part of S: Sd = S[gp]
-      //hydrostatic part of S: Sp = p * J * C^(-1)
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
-      // TODO: it seems that S[gp] contains deviatoric + pressure already..
-      // we dont need to sum it again
+      // S[gp] contains both deviatoric and hydrostatic parts
       for (uint16 i = 0; i < 6; i++) {
-        matS.data[i] = S[gp][i] + pe * J * cInv[i];
+        matS.data[i] = S[gp][i];
       }
       matBTDBprod (matF, matS, 1.0/J*scale, *tensor); //Symmetric Couchy tensor
       return true;
 
     case tensorQuery::PK2:
-      // hydrostatic part of S: Sp = p * J * C^(-1)
-      J = solidmech::J_C(C[gp].ptr());
-      solidmech::invC_C (C[gp].ptr(), J, cInv); 
-      pe = storage->getElementDofSolution(getElNum(), Dof::HYDRO_PRESSURE);
+      // S[gp] contains both deviatoric and hydrostatic parts
       for (uint16 i = 0; i < 6; i++) {
-        tensor->data[i] += (S[gp][i] + pe * J * cInv[i]) * scale;
+        tensor->data[i] += S[gp][i] * scale;
       }
       return true;
 
-- 
2.43.0


From 7f8f17f261fe72242866080150c40dd03e1315be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:54 +0000
Subject: [PATCH 20/35] fix: TETRA0 thermal strain does not pile up over
 assemblies

---
 src/lib/elements/TETRA0.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/elements/TETRA0.cpp b/src/lib/elements/TETRA0.cpp
index d76be34..4e63335 100644
--- a/src/lib/elements/TETRA0.cpp
+++ b/src/lib/elements/TETRA0.cpp
@@ -52,23 +52,23 @@ void ElementTETRA0::buildK() {
     matBTC = matB.transpose()*matC.toMat();
 
     //mechanical initial stress
+    math::Vec<6> initStrains = strains;
     if (stress.qlength() != 0.){
-      strains.zero();
       math::Mat<6,6> matP;
       matP = matC.toMat().inv(matC.toMat().det());
-      strains = matP*stress;
+      initStrains = matP*stress;
     }
     
     //termal initial strains
     if (alpha != 0. && T != 0.){
       //temp node forces
       math::Vec<6> tStrains = {alpha*T,alpha*T,alpha*T,0.,0.,0.};
-      strains = strains + tStrains;
+      initStrains = initStrains + tStrains;
     }
 
 
     //mechanical initial strains
-    math::matBVprod(matBTC, strains, -vol, Fe);
+    math::matBVprod(matBTC, initStrains, -vol, Fe);
 
     assembleK(matKe, Fe, {Dof::UX, Dof::UY, Dof::UZ});
   }
-- 
2.43.0


From ba63439d849ab43b48ffefe073cc874530c89de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:41 +0000
Subject: [PATCH 21/35] fix: third order triangle quadrature has the points
 that belong to its weights

---
 src/lib/elements/INTER3.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/elements/INTER3.h b/src/lib/elements/INTER3.h
index 3607af2..b4eb70a 100644
--- a/src/lib/elements/INTER3.h
+++ b/src/lib/elements/INTER3.h
@@ -96,9 +96,9 @@ static const TrianglePt _triangle_o2[] = {
 // 3d order
 static const TrianglePt _triangle_o3[] = {
   {1./3.,     1./3.,     1./3.,   -27./48.},
-  {11./15.,   2./15.,    2./15.,   25./48.},
-  {2./15.,    2./15.,    11./15.,  25./48.},
-  {2./15.,    11./15.,   2./15.,   25./48.}
+  {3./5.,     1./5.,     1./5.,    25./48.},
+  {1./5.,     1./5.,     3./5.,    25./48.},
+  {1./5.,     3./5.,     1./5.,    25./48.}
 };
 
 // 4 order
-- 
2.43.0


From d5a4f4dbcd2200f3b4680cfaa3f92d9bd9a56933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:46 +0000
Subject: [PATCH 22/35] fix: INTER0 tangent directions exist for every normal

---
 src/lib/elements/INTER0.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/elements/INTER0.cpp b/src/lib/elements/INTER0.cpp
index 62eba24..48da535 100644
--- a/src/lib/elements/INTER0.cpp
+++ b/src/lib/elements/INTER0.cpp
@@ -23,7 +23,10 @@ void ElementINTER0::buildK() {
   K.setZero();
 
   //Произвольный линенйно независмый базис
-  math::Vec<3> s1(n[0],n[1]+1.,n[2]+1.);
+  math::Vec<3> s1(0., -n[2], n[1]);
+  if (fabs(n[0]) > fabs(n[2])) {
+    s1 = math::Vec<3>(-n[1], n[0], 0.);
+  }
   //ортогонализаця базиса
   math::Vec<3> proj_s1_n = n*((s1[0]*n[0]+s1[1]*n[1]+s1[2]*n[2])/n.qlength());
   s1 = s1 - proj_s1_n;
-- 
2.43.0


From 89525fe655b4fd317ff7e5100ace8a0d8f5bb811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:30 +0000
Subject: [PATCH 23/35] fix: TETRA1 temperature gradient has the sign opposite
 to the heat flux

---
 src/lib/elements/TETRA1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/elements/TETRA1.cpp b/src/lib/elements/TETRA1.cpp
index 4f99260..0729a04 100644
--- a/src/lib/elements/TETRA1.cpp
+++ b/src/lib/elements/TETRA1.cpp
@@ -150,7 +150,7 @@ bool  ElementTETRA1::getVector(math::Vec<3>* vector, vectorQuery query, uint16 g
       *vector += flux*scale;
       return true;
     case vectorQuery::GRADT:
-      *vector += flux*(scale/k);
+      *vector += flux*(-scale/k);
       return true;
   }  
   return false;
-- 
2.43.0


From 8539a1c5f6c68a14ef37858ebc66ab779ca5a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 24/35] fix: a block matrix that shares sparsity has the rows
 of the original, not twice as many

---
 src/lib/math/BlockSparseMatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/math/BlockSparseMatrix.h b/src/lib/math/BlockSparseMatrix.h
index 5d8b2e6..aebbf9c 100644
--- a/src/lib/math/BlockSparseMatrix.h
+++ b/src/lib/math/BlockSparseMatrix.h
@@ -99,7 +99,6 @@ BlockSparseSymMatrix<nb>::BlockSparseSymMatrix(BlockSparseSymMatrix<nb>* ex) {
     for (uint16 j = i+1; j < nb; j++) {
       block(i+1, j+1)->setSparsityInfo(ex->block(i+1, j+1)->getSparsityInfo());
     }
-    total_rows += rows_in_block[i];
   }
 }
 
-- 
2.43.0


From b59d6f43b21d0847c4671ca643cd5551e5d43470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:58 +0000
Subject: [PATCH 25/35] fix: Mooney-Rivlin material reports the name it is
 created by

---
 src/lib/materials/materials_hyperelastic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/materials/materials_hyperelastic.h b/src/lib/materials/materials_hyperelastic.h
index 6b81b28..ee35e4b 100644
--- a/src/lib/materials/materials_hyperelastic.h
+++ b/src/lib/materials/materials_hyperelastic.h
@@ -95,7 +95,7 @@ class Mat_Comp_MooneyRivlin : public Mat_Hyper_Isotrop_General
 	
 	Mat_Comp_MooneyRivlin () {
 		register_mat_const(3,"C10","C01","K");
-    name = "Money-Rivlin";
+    name = "Mooney-Rivlin";
 	}
 	void W_first_derivatives (double I1, double I2, double I3, double *alpha);
 	void W_second_derivatives (double I1, double I2, double I3, double *alpha);
-- 
2.43.0


From fce050c0faf245d2368105fd4d2289b6fac51413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:05 +0000
Subject: [PATCH 26/35] fix: unknown material constant name returned a
 reference to a dead local

---
 src/lib/materials/material.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/materials/material.cpp b/src/lib/materials/material.cpp
index bf31414..b87c58e 100755
--- a/src/lib/materials/material.cpp
+++ b/src/lib/materials/material.cpp
@@ -33,8 +33,8 @@ double& Material::Ci (const std::string& nameConst) {
       return MC[i];
     }
   }
-	LOG(ERROR) << "Dan't find a material constant with name " << nameConst;
-  double dummy;
+	LOG(FATAL) << "Can't find a material constant with name " << nameConst;
+  static double dummy = 0.0;
   return dummy;
 }
 
-- 
2.43.0


From 4538cf553aef582b8cc417b24387cec0747873b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 27/35] fix: dVec::writeTextFormat kept 6 digits of the values,
 so a dump differed from its own vector

---
 src/lib/math/Vec.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index 74eb812..e1e3993 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -253,10 +253,16 @@ bool dVec::compare(const dVec& op2, double th) {
 
 
 void dVec::writeTextFormat(std::ostream& out) {
+  // 17 significant digits: the values should be read back the same
+  auto old_precision = out.precision(16);
+  auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   out << size() << std::endl;
   for (uint32 i = 0; i < size(); i++) {
     out << data[i] << std::endl;
   }
+  // return back old setup
+  out.precision(old_precision);
+  out.flags(old_flags);
 }
 
 
-- 
2.43.0


From aa3f9e9d6d05084c3ef5454b9034723d2e184b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:08 +0000
Subject: [PATCH 28/35] fix: sparse matrix text dump lost the last digit and
 did not restore the stream flags

---
 src/lib/math/SparseMatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 92dde44..f871e8d 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -186,7 +186,7 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(values);
   assert(si->compressed);
   // we need to return back old preferences after usage
-  auto old_precision = out.precision(15);
+  auto old_precision = out.precision(16);
   auto old_flags = out.setf(std::ios_base::scientific, std::ios_base::floatfield);
   // write header: nRows, nColumns, numberOfValues
   out << si->nRows << ' ' << si->nColumns << ' ' << si->numberOfValues << std::endl;
@@ -200,7 +200,7 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
   assert(total == si->numberOfValues);
   // return back old setup
   out.precision(old_precision);
-  out.setf(old_flags);
+  out.flags(old_flags);
 }
 
 
-- 
2.43.0


From 4890373deee64e4254701c53a32efa96de3e5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:06 +0000
Subject: [PATCH 29/35] fix: reading a matrix or vector from a missing or
 truncated file used uninitialised sizes

---
 src/lib/math/SparseMatrix.cpp | 4 +++-
 src/lib/math/Vec.cpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index f871e8d..9fe0a17 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -206,15 +206,17 @@ void BaseSparseMatrix::writeCoordinateTextFormat(std::ostream& out) {
 
 void BaseSparseMatrix::readCoordinateTextFormat(std::istream& in) {
   std::vector<SparseEntry> entries;
-  uint32 _nrows, _ncols, _nvalues;
+  uint32 _nrows = 0, _ncols = 0, _nvalues = 0;
   // read header: nRows, nColumns, numberOfValues
   in >> _nrows >> _ncols >> _nvalues;
+  CHECK(in) << "can't read the header of a sparse matrix";
   entries.reserve(_nvalues);
   for (uint32 i = 1; i <= _nvalues; i++) {
     SparseEntry entry;
     in >> entry.i >> entry.j >> entry.v;
     entries.push_back(entry);
   }
+  CHECK(in) << "can't read entries of a sparse matrix";
   reinit(_nrows, _ncols, entries);
 }
 
diff --git a/src/lib/math/Vec.cpp b/src/lib/math/Vec.cpp
index e1e3993..7c2f021 100644
--- a/src/lib/math/Vec.cpp
+++ b/src/lib/math/Vec.cpp
@@ -267,12 +267,14 @@ void dVec::writeTextFormat(std::ostream& out) {
 
 
 void dVec::readTextFormat(std::istream& in) {
-  uint32 _len;
+  uint32 _len = 0;
   in >> _len;
+  CHECK(in) << "can't read the size of a vector";
   reinit(_len);
   for (uint32 i = 0; i < _len; i++) {
     in >> data[i];
   }
+  CHECK(in) << "can't read values of a vector";
 }
 
 } // namespace math
-- 
2.43.0


From e2843434c0c6341c3d2c9fc39ff012c0a3d6325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 30/35] fix: tensor cell data in VTK files started from
 uninitialised memory

---
 src/lib/VtkProcessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/VtkProcessor.cpp b/src/lib/VtkProcessor.cpp
index e50040e..c351aa9 100755
--- a/src/lib/VtkProcessor.cpp
+++ b/src/lib/VtkProcessor.cpp
@@ -263,7 +263,10 @@ void VtkProcessor::write_cell_data(std::ofstream &file) {
 
   // write Element tensor results (only if they are requested in cellScalarQueries)
   for(auto query : cellTensorQueries) {
-    dataTensor.assign(en, MatSym<3>());
+    // MatSym<3>() doesn't set its components
+    MatSym<3> zeroTensor;
+    zeroTensor.zero();
+    dataTensor.assign(en, zeroTensor);
     for (uint32 i = 1; i <= storage->nElements(); i++) {
       // dataTensor[i-1].zero();
       storage->getElement(i).getTensor(&(dataTensor[i-1]), query);
-- 
2.43.0


From 3baa72ee12c7f33ef06d53c0d1d509d034796e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 31/35] fix: GaussDenseEquationSolver destroyed the caller's
 right-hand side

---
 src/lib/math/EquationSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index d0e8e43..2076d4e 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -57,7 +57,9 @@ void GaussDenseEquationSolver::substituteEquations(math::SparseSymMatrix* matrix
       // NOTE: SparseMatrix getters works with indexes started from 1
       // TODO: we can fill dense matrix from sparse one in a more optimized way
       matA[i][j] = matrix->value(i+1, j+1);
-  bool res = _solve(unknowns, matA.ptr(), rhs, nEq);
+  // _solve() performs elimination in place: keep caller's rhs untouched
+  std::vector<double> b(rhs, rhs + nEq);
+  bool res = _solve(unknowns, matA.ptr(), b.data(), nEq);
   CHECK(res == true) << "ERROR during solution";
 }
 
-- 
2.43.0


From cf10f0f34b291c5228396858eb94052b15d7c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 32/35] fix: PARDISO_equationSolver released uninitialised
 handle if it was never used

---
 src/lib/math/EquationSolver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index 2076d4e..d734d93 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -137,7 +137,10 @@ bool GaussDenseEquationSolver::_solve(double* X, double* A,
 
 #ifdef NLA3D_USE_MKL
 PARDISO_equationSolver::~PARDISO_equationSolver () {
-  releasePARDISO();
+  // nothing was allocated by PARDISO (and pt isn't initialized) before the first factorization
+  if (!firstRun) {
+    releasePARDISO();
+  }
 }
 
 void PARDISO_equationSolver::solveEquations (math::SparseSymMatrix* matrix, double* rhs, double* unknowns) {
-- 
2.43.0


From c41de4fb3fe037129a90df5fe48764df4cd1edc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 33/35] fix: PARDISO_equationSolver reused symbolic
 factorization for a matrix with another sparsity

---
 src/lib/math/EquationSolver.cpp | 6 ++++++
 src/lib/math/EquationSolver.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/math/EquationSolver.cpp b/src/lib/math/EquationSolver.cpp
index d734d93..28414fa 100644
--- a/src/lib/math/EquationSolver.cpp
+++ b/src/lib/math/EquationSolver.cpp
@@ -171,8 +171,14 @@ void PARDISO_equationSolver::substituteEquations(math::SparseSymMatrix* matrix,
 
 void PARDISO_equationSolver::factorizeEquations(math::SparseSymMatrix* matrix) {
   TIMED_SCOPE(t, "factorizeEquations");
+  // symbolic factorization is valid only for the sparsity it was performed on
+  if (!firstRun && sparsity != matrix->getSparsityInfo()) {
+    releasePARDISO();
+    firstRun = true;
+  }
   if (firstRun) {
     initializePARDISO(matrix);
+    sparsity = matrix->getSparsityInfo();
   }
   firstRun = false;
 
diff --git a/src/lib/math/EquationSolver.h b/src/lib/math/EquationSolver.h
index f0f3e89..ac835c1 100644
--- a/src/lib/math/EquationSolver.h
+++ b/src/lib/math/EquationSolver.h
@@ -70,6 +70,8 @@ protected:
 	int msglvl = 0; 
   
   bool firstRun = true;
+  // sparsity of the matrix for which symbolic factorization was performed
+  std::shared_ptr<SparsityInfo> sparsity;
   // real symmetric undifinite defined matrix
 	int mtype = -2; 
 };
-- 
2.43.0


From bb1022caa4153302c8ce5ef0d6c23061d392cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 34/35] fix: copying an element shared its array of node
 numbers, which was freed twice

---
 src/lib/elements/element.cpp | 10 ++++++++++
 src/lib/elements/element.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/lib/elements/element.cpp b/src/lib/elements/element.cpp
index b195a4d..c81e4ab 100755
--- a/src/lib/elements/element.cpp
+++ b/src/lib/elements/element.cpp
@@ -12,6 +12,16 @@ Element::Element () {
 }
 
 
+// every element owns its array of node numbers
+Element::Element (const Element& from) :
+    type(from.type), shape(from.shape), intOrder(from.intOrder), elNum(from.elNum), storage(from.storage) {
+  if (from.nodes) {
+    nodes = new uint32[getNNodes()];
+    memcpy(nodes, from.nodes, sizeof(uint32)*getNNodes());
+  }
+}
+
+
 Element::~Element() {
   if (nodes) {
     delete[] nodes;
diff --git a/src/lib/elements/element.h b/src/lib/elements/element.h
index d1ace57..9a4bed6 100755
--- a/src/lib/elements/element.h
+++ b/src/lib/elements/element.h
@@ -86,6 +86,7 @@ static const uint16 _shape_nnodes[] = {
 class Element {
   public: 
     Element ();
+    Element (const Element& from);
     virtual ~Element();
 
     // get element number, as it is stored in FEStorage. Numbers start from 1.
-- 
2.43.0


From ac24e45aa48f7cbd3c01d9d4f6ae0c89a1f24eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 35/35] fix: BaseSparseMatrix::setSparsityInfo kept values
 array of the previous sparsity

---
 src/lib/math/SparseMatrix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/math/SparseMatrix.cpp b/src/lib/math/SparseMatrix.cpp
index 9fe0a17..b9480ee 100755
--- a/src/lib/math/SparseMatrix.cpp
+++ b/src/lib/math/SparseMatrix.cpp
@@ -345,6 +345,11 @@ void BaseSparseMatrix::setSparsityInfo(std::shared_ptr<SparsityInfo> spar_info)
   // use already exist SparsityInfo instance. It can in compressed = false state or already
   // compressed = true state
   si = spar_info;
+  // values of the previous sparsity don't fit to the new one
+  if (values) {
+    delete[] values;
+    values = nullptr;
+  }
   // if we add SparsityInfo with alreade fixed number of entries we are ready to allocate values
   if (si->compressed == true) 
     compress();
-- 
2.43.0

