From 0d19b402bb591c4eca2e868c23721845e4c25881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:24 +0000
Subject: [PATCH 01/50] fix: compare the nodal connectivity index of 1DGTU
 meshes in isEqual*

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 30 ++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 3df1fc0..758747a 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -2928,17 +2928,18 @@ MEDCoupling1DGTUMesh::isEqualIfNotWhy(const MEDCouplingMesh *other, double prec,
     if (!MEDCoupling1GTUMesh::isEqualIfNotWhy(other, prec, reason))
         return false;
     const DataArrayIdType *c1(_conn), *c2(otherC->_conn);
-    if (c1 == c2)
-        return true;
-    if (!c1 || !c2)
-    {
-        reason = "in connectivity of single dynamic geometric type exactly one among this and other is null !";
-        return false;
-    }
-    if (!c1->isEqualIfNotWhy(*c2, reason))
+    if (c1 != c2)
     {
-        reason.insert(0, "Nodal connectivity DataArrayIdType differs : ");
-        return false;
+        if (!c1 || !c2)
+        {
+            reason = "in connectivity of single dynamic geometric type exactly one among this and other is null !";
+            return false;
+        }
+        if (!c1->isEqualIfNotWhy(*c2, reason))
+        {
+            reason.insert(0, "Nodal connectivity DataArrayIdType differs : ");
+            return false;
+        }
     }
     c1 = _conn_indx;
     c2 = otherC->_conn_indx;
@@ -2970,6 +2971,15 @@ MEDCoupling1DGTUMesh::isEqualWithoutConsideringStr(const MEDCouplingMesh *other,
     if (!MEDCoupling1GTUMesh::isEqualWithoutConsideringStr(other, prec))
         return false;
     const DataArrayIdType *c1(_conn), *c2(otherC->_conn);
+    if (c1 != c2)
+    {
+        if (!c1 || !c2)
+            return false;
+        if (!c1->isEqualWithoutConsideringStr(*c2))
+            return false;
+    }
+    c1 = _conn_indx;
+    c2 = otherC->_conn_indx;
     if (c1 == c2)
         return true;
     if (!c1 || !c2)
-- 
2.43.0


From 548b13771681df1b1a8b75f5be673c1396b2669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:24 +0000
Subject: [PATCH 02/50] fix: compare the structure of curvilinear meshes
 without coordinates in isEqual*

---
 src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index b17f08c..e516b4f 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -143,11 +143,11 @@ MEDCouplingCurveLinearMesh::isEqualIfNotWhy(const MEDCouplingMesh *other, double
             reason.insert(0, oss.str());
             return false;
         }
-        if (_structure != otherC->_structure)
-        {
-            reason = "CurveLinearMesh structures differ !";
-            return false;
-        }
+    }
+    if (_structure != otherC->_structure)
+    {
+        reason = "CurveLinearMesh structures differ !";
+        return false;
     }
     return true;
 }
@@ -165,9 +165,9 @@ MEDCouplingCurveLinearMesh::isEqualWithoutConsideringStr(const MEDCouplingMesh *
     {
         if (!_coords->isEqualWithoutConsideringStr(*(otherC->_coords), prec))
             return false;
-        if (_structure != otherC->_structure)
-            return false;
     }
+    if (_structure != otherC->_structure)
+        return false;
     return true;
 }
 
-- 
2.43.0


From c31e91feee0e5e46b547960378730fd722013b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 03/50] fix: compare the quantity kind of fields in
 isEqualIfNotWhy

---
 src/MEDCoupling/MEDCouplingFieldT.txx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingFieldT.txx b/src/MEDCoupling/MEDCouplingFieldT.txx
index c20444c..f914dff 100644
--- a/src/MEDCoupling/MEDCouplingFieldT.txx
+++ b/src/MEDCoupling/MEDCouplingFieldT.txx
@@ -177,6 +177,11 @@ MEDCouplingFieldT<T>::isEqualIfNotWhy(
         throw INTERP_KERNEL::Exception("MEDCouplingFieldT::isEqualIfNotWhy : other instance is NULL !");
     if (!isEqualIfNotWhyProtected(other, meshPrec, reason))
         return false;
+    if (!_quantity_kind->isEqual(other->_quantity_kind, reason))
+    {
+        reason.insert(0, "In FieldT quantity kinds differ :");
+        return false;
+    }
     if (!_time_discr->isEqualIfNotWhy(other->_time_discr, T(valsPrec), reason))
     {
         reason.insert(0, "In FieldT time discretizations differ :");
-- 
2.43.0


From ff8a2abe8ab33f83b8a148079663d197d427409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:41 +0000
Subject: [PATCH 04/50] fix: move the modification stamp in DataArray
 aggregate, insertAtTheEnd, writeOnPlace and desallocate

---
 src/MEDCoupling/MEDCouplingMemArray.hxx | 2 ++
 src/MEDCoupling/MEDCouplingMemArray.txx | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.hxx b/src/MEDCoupling/MEDCouplingMemArray.hxx
index 3ac13db..7486d8e 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.hxx
+++ b/src/MEDCoupling/MEDCouplingMemArray.hxx
@@ -457,6 +457,7 @@ class MEDCOUPLING_EXPORT_TEMPLATE DataArrayTemplate : public DataArray
     void writeOnPlace(std::size_t id, T element0, const T *others, mcIdType sizeOfOthers)
     {
         _mem.writeOnPlace(id, element0, others, sizeOfOthers);
+        declareAsNew();
     }
     void fillWithZero();
 
@@ -1508,6 +1509,7 @@ DataArrayTemplate<T>::insertAtTheEnd(InputIterator first, InputIterator last)
             "DataArrayDouble::insertAtTheEnd : not available for DataArrayDouble with number of components different "
             "than 1 !"
         );
+    this->declareAsNew();
 }
 
 /*!
diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 1a60caa..e76f872 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -941,6 +941,7 @@ void
 DataArrayTemplate<T>::desallocate()
 {
     _mem.destroy();
+    declareAsNew();
 }
 
 /*!
@@ -3793,6 +3794,7 @@ DataArrayTemplateClassic<T>::aggregate(const typename Traits<T>::ArrayType *othe
     if (this->getNumberOfComponents() != other->getNumberOfComponents())
         throw INTERP_KERNEL::Exception("DataArrayDouble::aggregate : mismatch number of components !");
     this->_mem.insertAtTheEnd(other->begin(), other->end());
+    this->declareAsNew();
 }
 
 /*!
-- 
2.43.0


From 30d894c4cd283c656d1001852f952aebaa08a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:00 +0000
Subject: [PATCH 05/50] fix: move the modification stamp of meshes in
 setNodeGridStructure, insertNextCell, setFactors, unserialization

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx         | 5 +++++
 src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx | 1 +
 src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx  | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 758747a..4c3bbd5 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -2062,7 +2062,10 @@ MEDCoupling1SGTUMesh::insertNextCell(const mcIdType *nodalConnOfCellBg, const mc
     {
         DataArrayIdType *c(_conn);
         if (c)
+        {
             c->pushBackValsSilent(nodalConnOfCellBg, nodalConnOfCellEnd);
+            c->declareAsNew();
+        }
         else
             throw INTERP_KERNEL::Exception(
                 "MEDCoupling1SGTUMesh::insertNextCell : nodal connectivity array is null ! Call "
@@ -4212,6 +4215,8 @@ MEDCoupling1DGTUMesh::insertNextCell(const mcIdType *nodalConnOfCellBg, const mc
         {
             c->pushBackValsSilent(nodalConnOfCellBg, nodalConnOfCellEnd);
             c2->pushBackSilent(pos + ToIdType(sz));
+            c->declareAsNew();
+            c2->declareAsNew();
         }
         else
         {
diff --git a/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx b/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx
index ab604d6..757c0d1 100644
--- a/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCartesianAMRMesh.cxx
@@ -832,6 +832,7 @@ MEDCouplingCartesianAMRMeshGen::setFactors(const std::vector<mcIdType> &newFacto
     if (_factors.empty())
     {
         _factors = newFactors;
+        declareAsNew();
         return;
     }
     if (_factors == newFactors)
diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index e516b4f..bc64596 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -361,6 +361,7 @@ MEDCouplingCurveLinearMesh::setNodeGridStructure(const mcIdType *gridStructBg, c
     {
         _structure.resize(0);
         _structure.insert(_structure.end(), gridStructBg, gridStructEnd);
+        declareAsNew();
     }
     else
     {
@@ -1161,6 +1162,7 @@ MEDCouplingCurveLinearMesh::unserialization(
         std::vector<std::string> littleStrings2(littleStrings.begin() + 3, littleStrings.end());
         _coords->finishUnserialization(tinyInfo2, littleStrings2);
     }
+    declareAsNew();
 }
 
 void
-- 
2.43.0


From 56465f33fb8512b51ba358911345323cb46e43db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:13 +0000
Subject: [PATCH 06/50] fix: refresh the stamp of a part before a composite's
 stamp takes it into account

---
 src/MEDCoupling/MEDCouplingTimeLabel.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling/MEDCouplingTimeLabel.cxx b/src/MEDCoupling/MEDCouplingTimeLabel.cxx
index 28ebdce..836023b 100644
--- a/src/MEDCoupling/MEDCouplingTimeLabel.cxx
+++ b/src/MEDCoupling/MEDCouplingTimeLabel.cxx
@@ -48,6 +48,7 @@ TimeLabel::declareAsNew() const
 void
 TimeLabel::updateTimeWith(const TimeLabel &other) const
 {
+    other.updateTime();
     if (_time < other._time)
         _time = other._time;
 }
-- 
2.43.0


From 15ca261671dd5d46ce652d46c3f56a6551b62edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:13 +0000
Subject: [PATCH 07/50] fix: the stamp of an extruded mesh covers its 3D cell
 ids

---
 src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 3585114..1b438d1 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -521,6 +521,8 @@ MEDCouplingMappedExtrudedMesh::updateTime() const
         updateTimeWith(*_mesh2D);
     if (_mesh1D.isNotNull())
         updateTimeWith(*_mesh1D);
+    if (_mesh3D_ids.isNotNull())
+        updateTimeWith(*_mesh3D_ids);
 }
 
 void
-- 
2.43.0


From bb9eafd1c9eb3c8cbca474b69ebd0b5acaea4138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:29 +0000
Subject: [PATCH 08/50] fix: the stamp of integer and float fields covers their
 arrays

---
 src/MEDCoupling/MEDCouplingFieldT.hxx | 1 +
 src/MEDCoupling/MEDCouplingFieldT.txx | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingFieldT.hxx b/src/MEDCoupling/MEDCouplingFieldT.hxx
index c15d325..328c627 100644
--- a/src/MEDCoupling/MEDCouplingFieldT.hxx
+++ b/src/MEDCoupling/MEDCouplingFieldT.hxx
@@ -49,6 +49,7 @@ class MEDCouplingFieldT : public MEDCouplingField
    public:
     MEDCOUPLING_EXPORT TypeOfTimeDiscretization getTimeDiscretization() const;
     MEDCOUPLING_EXPORT virtual typename Traits<T>::FieldType *clone(bool recDeepCpy) const = 0;
+    MEDCOUPLING_EXPORT void updateTime() const;
     MEDCOUPLING_EXPORT void checkConsistencyLight() const;
     MEDCOUPLING_EXPORT typename Traits<T>::FieldType *cloneWithMesh(bool recDeepCpy) const;
     MEDCOUPLING_EXPORT typename Traits<T>::FieldType *buildSubPart(const DataArrayIdType *part) const;
diff --git a/src/MEDCoupling/MEDCouplingFieldT.txx b/src/MEDCoupling/MEDCouplingFieldT.txx
index f914dff..4c2a96c 100644
--- a/src/MEDCoupling/MEDCouplingFieldT.txx
+++ b/src/MEDCoupling/MEDCouplingFieldT.txx
@@ -81,6 +81,14 @@ MEDCouplingFieldT<T>::~MEDCouplingFieldT()
     delete _time_discr;
 }
 
+template <class T>
+void
+MEDCouplingFieldT<T>::updateTime() const
+{
+    MEDCouplingField::updateTime();
+    this->updateTimeWith(*_time_discr);
+}
+
 template <class T>
 void
 MEDCouplingFieldT<T>::initQuantityKind()
-- 
2.43.0


From 75a6d494dfcfa2e180fe369fe7ffe40d17bca693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:21 +0000
Subject: [PATCH 09/50] fix: serialization of an extruded mesh carries its
 time, order and time unit

---
 .../MEDCouplingMappedExtrudedMesh.cxx         | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 1b438d1..1d70908 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -1011,17 +1011,26 @@ MEDCouplingMappedExtrudedMesh::getTinySerializationInformation(
     std::vector<std::string> ls2;
     std::vector<double> ls4;
     _mesh1D->getTinySerializationInformation(ls4, tinyInfo2, ls2);
+    int it, order;
+    double time = getTime(it, order);
+    tinyInfoD.clear();
+    tinyInfoD.insert(tinyInfoD.end(), ls3.begin(), ls3.end());
+    tinyInfoD.insert(tinyInfoD.end(), ls4.begin(), ls4.end());
+    tinyInfoD.push_back(time);
     tinyInfo.clear();
     littleStrings.clear();
     tinyInfo.insert(tinyInfo.end(), tinyInfo1.begin(), tinyInfo1.end());
     littleStrings.insert(littleStrings.end(), ls1.begin(), ls1.end());
     tinyInfo.insert(tinyInfo.end(), tinyInfo2.begin(), tinyInfo2.end());
     littleStrings.insert(littleStrings.end(), ls2.begin(), ls2.end());
+    tinyInfo.push_back(it);
+    tinyInfo.push_back(order);
     tinyInfo.push_back(_cell_2D_id);
     tinyInfo.push_back(ToIdType(tinyInfo1.size()));
     tinyInfo.push_back(_mesh3D_ids->getNbOfElems());
     littleStrings.push_back(getName());
     littleStrings.push_back(getDescription());
+    littleStrings.push_back(getTimeUnit());
 }
 
 void
@@ -1035,7 +1044,7 @@ MEDCouplingMappedExtrudedMesh::resizeForUnserialization(
     std::size_t sz = tinyInfo.size();
     mcIdType sz1 = tinyInfo[sz - 2];
     std::vector<mcIdType> ti1(tinyInfo.begin(), tinyInfo.begin() + sz1);
-    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 3);
+    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 5);
     MEDCouplingUMesh *um = MEDCouplingUMesh::New();
     DataArrayIdType *a1tmp = DataArrayIdType::New();
     DataArrayDouble *a2tmp = DataArrayDouble::New();
@@ -1057,7 +1066,7 @@ MEDCouplingMappedExtrudedMesh::resizeForUnserialization(
     //
     a1->alloc(la1 + tinyInfo[sz - 1], 1);
     a2->alloc(la2, 1);
-    littleStrings.resize(ls1.size() + ls2.size() + 2);
+    littleStrings.resize(ls1.size() + ls2.size() + 3);
 }
 
 void
@@ -1093,13 +1102,15 @@ MEDCouplingMappedExtrudedMesh::unserialization(
     const std::vector<std::string> &littleStrings
 )
 {
-    setName(littleStrings[littleStrings.size() - 2]);
-    setDescription(littleStrings.back());
+    setName(littleStrings[littleStrings.size() - 3]);
+    setDescription(littleStrings[littleStrings.size() - 2]);
+    setTimeUnit(littleStrings.back());
     std::size_t sz = tinyInfo.size();
+    setTime(tinyInfoD.back(), FromIdType<int>(tinyInfo[sz - 5]), FromIdType<int>(tinyInfo[sz - 4]));
     mcIdType sz1 = tinyInfo[sz - 2];
     _cell_2D_id = tinyInfo[sz - 3];
     std::vector<mcIdType> ti1(tinyInfo.begin(), tinyInfo.begin() + sz1);
-    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 3);
+    std::vector<mcIdType> ti2(tinyInfo.begin() + sz1, tinyInfo.end() - 5);
     DataArrayIdType *a1tmp = DataArrayIdType::New();
     DataArrayDouble *a2tmp = DataArrayDouble::New();
     const mcIdType *a1Ptr = a1->begin();
@@ -1112,13 +1123,13 @@ MEDCouplingMappedExtrudedMesh::unserialization(
     a2Ptr += a2tmp->getNbOfElems();
     a1Ptr += a1tmp->getNbOfElems();
     ls2.insert(ls2.end(), littleStrings.begin(), littleStrings.begin() + ls1.size());
-    std::vector<double> d1(1);
+    std::vector<double> d1(tinyInfoD.begin(), tinyInfoD.begin() + 1), d2(tinyInfoD.begin() + 1, tinyInfoD.end() - 1);
     _mesh2D->unserialization(d1, ti1, a1tmp, a2tmp, ls2);
     a1tmp->decrRef();
     a2tmp->decrRef();
     //
     ls2.clear();
-    ls2.insert(ls2.end(), littleStrings.begin() + ls1.size(), littleStrings.end() - 2);
+    ls2.insert(ls2.end(), littleStrings.begin() + ls1.size(), littleStrings.end() - 3);
     _mesh1D = MEDCouplingUMesh::New();
     a1tmp = DataArrayIdType::New();
     a2tmp = DataArrayDouble::New();
@@ -1126,7 +1137,7 @@ MEDCouplingMappedExtrudedMesh::unserialization(
     std::copy(a2Ptr, a2Ptr + a2tmp->getNbOfElems(), a2tmp->getPointer());
     std::copy(a1Ptr, a1Ptr + a1tmp->getNbOfElems(), a1tmp->getPointer());
     a1Ptr += a1tmp->getNbOfElems();
-    _mesh1D->unserialization(d1, ti2, a1tmp, a2tmp, ls2);
+    _mesh1D->unserialization(d2, ti2, a1tmp, a2tmp, ls2);
     a1tmp->decrRef();
     a2tmp->decrRef();
     //
-- 
2.43.0


From 5969c1c80f5916737b3f2ca172cc50b72b0cc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 10/50] fix: deserialization of two-array fields restores the
 infos of the end array; fields without array serialize

---
 src/MEDCoupling/MEDCouplingTimeDiscretization.cxx | 13 ++++++++++---
 src/MEDCoupling/MEDCouplingTimeDiscretization.txx |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingTimeDiscretization.cxx b/src/MEDCoupling/MEDCouplingTimeDiscretization.cxx
index 55550cc..2e5b145 100644
--- a/src/MEDCoupling/MEDCouplingTimeDiscretization.cxx
+++ b/src/MEDCoupling/MEDCouplingTimeDiscretization.cxx
@@ -2600,8 +2600,10 @@ MEDCouplingTwoTimeSteps::getTinySerializationDbleInformation(std::vector<double>
 void
 MEDCouplingTwoTimeSteps::getTinySerializationStrInformation(std::vector<std::string> &tinyInfo) const
 {
-    std::size_t nbOfCompo = _array->getNumberOfComponents();
-    for (std::size_t i = 0; i < nbOfCompo; i++) tinyInfo.push_back(_array->getInfoOnComponent(i));
+    MEDCouplingTimeDiscretization::getTinySerializationStrInformation(tinyInfo);
+    if (!_end_array)
+        return;
+    std::size_t nbOfCompo = _end_array->getNumberOfComponents();
     for (std::size_t i = 0; i < nbOfCompo; i++) tinyInfo.push_back(_end_array->getInfoOnComponent(i));
 }
 
@@ -2660,7 +2662,7 @@ MEDCouplingTwoTimeSteps::checkForUnserialization(
     {
         if (!arrays[1])
             throw INTERP_KERNEL::Exception(MSG);
-        arrays[1]->checkNbOfTuplesAndComp(tinyInfoI[0], tinyInfoI[1], MSG);
+        arrays[1]->checkNbOfTuplesAndComp(tinyInfoI[6], tinyInfoI[7], MSG);
         _end_array = arrays[1];
         _end_array->incrRef();
     }
@@ -2680,6 +2682,11 @@ MEDCouplingTwoTimeSteps::finishUnserialization(
     _start.setOrder(FromIdType<int>(tinyInfoI[3]));
     _end.setIteration(FromIdType<int>(tinyInfoI[4]));
     _end.setOrder(FromIdType<int>(tinyInfoI[5]));
+    if (!_end_array)
+        return;
+    std::size_t offset = _array ? _array->getNumberOfComponents() : 0;
+    std::size_t nbOfCompo = _end_array->getNumberOfComponents();
+    for (std::size_t i = 0; i < nbOfCompo; i++) _end_array->setInfoOnComponent(i, tinyInfoS[offset + i]);
 }
 
 /*!
diff --git a/src/MEDCoupling/MEDCouplingTimeDiscretization.txx b/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
index 850486a..aefafb1 100644
--- a/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
+++ b/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
@@ -284,6 +284,8 @@ template <class T>
 void
 MEDCouplingTimeDiscretizationTemplate<T>::getTinySerializationStrInformation(std::vector<std::string> &tinyInfo) const
 {
+    if (!_array)
+        return;
     std::size_t nbOfCompo(_array->getNumberOfComponents());
     for (std::size_t i = 0; i < nbOfCompo; i++) tinyInfo.push_back(_array->getInfoOnComponent(i));
 }
@@ -339,6 +341,8 @@ MEDCouplingTimeDiscretizationTemplate<T>::finishUnserialization(
 )
 {
     _time_tolerance = tinyInfoD[0];
+    if (!_array)
+        return;
     std::size_t nbOfCompo = _array->getNumberOfComponents();
     for (std::size_t i = 0; i < nbOfCompo; i++) _array->setInfoOnComponent(i, tinyInfoS[i]);
 }
-- 
2.43.0


From 5f2c26896737461e9df1ed17a057f667c96a1b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:59 +0000
Subject: [PATCH 11/50] fix: the memory accounting of integer and float fields
 covers their arrays, that of fields their quantity kind

---
 src/MEDCoupling/MEDCouplingFieldDouble.cxx |  8 +-------
 src/MEDCoupling/MEDCouplingFieldT.hxx      |  1 +
 src/MEDCoupling/MEDCouplingFieldT.txx      | 14 ++++++++++++++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDouble.cxx b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
index d11f06b..8beb1a5 100644
--- a/src/MEDCoupling/MEDCouplingFieldDouble.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDouble.cxx
@@ -1653,13 +1653,7 @@ MEDCouplingFieldDouble::getHeapMemorySizeWithoutChildren() const
 std::vector<const BigMemoryObject *>
 MEDCouplingFieldDouble::getDirectChildrenWithNull() const
 {
-    std::vector<const BigMemoryObject *> ret(MEDCouplingField::getDirectChildrenWithNull());
-    if (timeDiscr())
-    {
-        std::vector<const BigMemoryObject *> ret2(timeDiscr()->getDirectChildrenWithNull());
-        ret.insert(ret.end(), ret2.begin(), ret2.end());
-    }
-    return ret;
+    return MEDCouplingFieldT<double>::getDirectChildrenWithNull();
 }
 
 /*!
diff --git a/src/MEDCoupling/MEDCouplingFieldT.hxx b/src/MEDCoupling/MEDCouplingFieldT.hxx
index 328c627..051e818 100644
--- a/src/MEDCoupling/MEDCouplingFieldT.hxx
+++ b/src/MEDCoupling/MEDCouplingFieldT.hxx
@@ -50,6 +50,7 @@ class MEDCouplingFieldT : public MEDCouplingField
     MEDCOUPLING_EXPORT TypeOfTimeDiscretization getTimeDiscretization() const;
     MEDCOUPLING_EXPORT virtual typename Traits<T>::FieldType *clone(bool recDeepCpy) const = 0;
     MEDCOUPLING_EXPORT void updateTime() const;
+    MEDCOUPLING_EXPORT std::vector<const BigMemoryObject *> getDirectChildrenWithNull() const;
     MEDCOUPLING_EXPORT void checkConsistencyLight() const;
     MEDCOUPLING_EXPORT typename Traits<T>::FieldType *cloneWithMesh(bool recDeepCpy) const;
     MEDCOUPLING_EXPORT typename Traits<T>::FieldType *buildSubPart(const DataArrayIdType *part) const;
diff --git a/src/MEDCoupling/MEDCouplingFieldT.txx b/src/MEDCoupling/MEDCouplingFieldT.txx
index 4c2a96c..c07f0e1 100644
--- a/src/MEDCoupling/MEDCouplingFieldT.txx
+++ b/src/MEDCoupling/MEDCouplingFieldT.txx
@@ -32,6 +32,20 @@ MEDCouplingFieldT<T>::MEDCouplingFieldT(const MEDCouplingFieldT<T> &other, bool
 {
 }
 
+template <class T>
+std::vector<const BigMemoryObject *>
+MEDCouplingFieldT<T>::getDirectChildrenWithNull() const
+{
+    std::vector<const BigMemoryObject *> ret(MEDCouplingField::getDirectChildrenWithNull());
+    ret.push_back((const QuantityKindAbstract *)_quantity_kind);
+    if (_time_discr)
+    {
+        std::vector<const BigMemoryObject *> ret2(_time_discr->getDirectChildrenWithNull());
+        ret.insert(ret.end(), ret2.begin(), ret2.end());
+    }
+    return ret;
+}
+
 /*!
  * Checks if \a this field is correctly defined, else an exception is thrown.
  *  \throw If the mesh is not set.
-- 
2.43.0


From 23cf072ec0410736bccc08c7fe3eed23b5759d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:12 +0000
Subject: [PATCH 12/50] fix: the memory accounting of an AMR attribute covers
 its mesh

---
 src/MEDCoupling/MEDCouplingAMRAttribute.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MEDCoupling/MEDCouplingAMRAttribute.cxx b/src/MEDCoupling/MEDCouplingAMRAttribute.cxx
index 3b51def..44dd112 100644
--- a/src/MEDCoupling/MEDCouplingAMRAttribute.cxx
+++ b/src/MEDCoupling/MEDCouplingAMRAttribute.cxx
@@ -1851,6 +1851,7 @@ std::vector<const BigMemoryObject *>
 MEDCouplingAMRAttribute::getDirectChildrenWithNull() const
 {
     std::vector<const BigMemoryObject *> ret;
+    ret.push_back((const MEDCouplingCartesianAMRMesh *)_gf);
     for (std::vector<MCAuto<MEDCouplingGridCollection> >::const_iterator it = _levs.begin(); it != _levs.end(); it++)
         ret.push_back((const MEDCouplingGridCollection *)*it);
     return ret;
-- 
2.43.0


From 56fdd26326ee6871c9242714b231a286779b75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:21 +0000
Subject: [PATCH 13/50] fix: unserializing a Gauss discretization releases its
 previous localization ids

---
 src/MEDCoupling/MEDCouplingFieldDiscretization.cxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
index 7acc2d4..b18ddd1 100644
--- a/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
+++ b/src/MEDCoupling/MEDCouplingFieldDiscretization.cxx
@@ -2295,6 +2295,8 @@ MEDCouplingFieldDiscretizationGauss::resizeForUnserialization(
 )
 {
     mcIdType val = tinyInfo[0];
+    if (_discr_per_cell)
+        _discr_per_cell->decrRef();
     if (val >= 0)
     {
         _discr_per_cell = DataArrayIdType::New();
@@ -2319,11 +2321,11 @@ MEDCouplingFieldDiscretizationGauss::checkForUnserialization(
         if (!arr)
             throw INTERP_KERNEL::Exception(MSG);
         arr->checkNbOfTuplesAndComp(val, 1, MSG);
-        _discr_per_cell = const_cast<DataArrayIdType *>(arr);
-        _discr_per_cell->incrRef();
+        arr->incrRef();
     }
-    else
-        _discr_per_cell = 0;
+    if (_discr_per_cell)
+        _discr_per_cell->decrRef();
+    _discr_per_cell = val >= 0 ? const_cast<DataArrayIdType *>(arr) : 0;
     commonUnserialization(tinyInfo);
 }
 
-- 
2.43.0


From 0ef7644e42d69e59de35549c570a149a9301a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:22 +0000
Subject: [PATCH 14/50] fix: unserializing a single type mesh releases its
 previous coordinates

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 4c3bbd5..66169fc 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -1877,6 +1877,8 @@ MEDCoupling1SGTUMesh::unserialization(
     setTime(tinyInfoD[0], FromIdType<int>(tinyInfo[1]), FromIdType<int>(tinyInfo[2]));
     mcIdType sz0(tinyInfo[3]), sz1(tinyInfo[4]), sz2(tinyInfo[5]), sz3(tinyInfo[6]);
     //
+    if (_coords)
+        _coords->decrRef();
     _coords = DataArrayDouble::New();
     std::vector<mcIdType> tinyInfo2(tinyInfo.begin() + 7, tinyInfo.begin() + 7 + sz2);
     _coords->resizeForUnserialization(tinyInfo2);
@@ -3936,6 +3938,8 @@ MEDCoupling1DGTUMesh::unserialization(
     setTime(tinyInfoD[0], FromIdType<int>(tinyInfo[1]), FromIdType<int>(tinyInfo[2]));
     mcIdType sz0(tinyInfo[3]), sz1(tinyInfo[4]), sz2(tinyInfo[5]), sz3(tinyInfo[6]), sz4(tinyInfo[7]), sz5(tinyInfo[8]);
     //
+    if (_coords)
+        _coords->decrRef();
     _coords = DataArrayDouble::New();
     std::vector<mcIdType> tinyInfo2(tinyInfo.begin() + 9, tinyInfo.begin() + 9 + sz3);
     _coords->resizeForUnserialization(tinyInfo2);
-- 
2.43.0


From aa356e14077b94d69a6647f9c04ed506a6580af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:49 +0000
Subject: [PATCH 15/50] fix: Python owns the new objects returned by Max, Min,
 Modulus, MakePartition and other builders

---
 src/MEDCoupling_Swig/MEDCouplingCommon.i   | 4 ++++
 src/MEDCoupling_Swig/MEDCouplingMemArray.i | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index 523d85e..28db673 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -344,6 +344,7 @@ typedef long mcPyPtrType;
 %newobject MEDCoupling::MEDCouplingMesh::fillFromAnalyticCompo;
 %newobject MEDCoupling::MEDCouplingMesh::fillFromAnalyticNamedCompo;
 %newobject MEDCoupling::MEDCouplingMesh::getMeasureField;
+%newobject MEDCoupling::MEDCouplingMesh::getMeasureFieldOnNode;
 %newobject MEDCoupling::MEDCouplingMesh::simplexize;
 %newobject MEDCoupling::MEDCouplingMesh::buildUnstructured;
 %newobject MEDCoupling::MEDCouplingMesh::MergeMeshes;
@@ -401,6 +402,7 @@ typedef long mcPyPtrType;
 %newobject MEDCoupling::MEDCouplingUMesh::getSkewField;
 %newobject MEDCoupling::MEDCouplingUMesh::getPartBarycenterAndOwner;
 %newobject MEDCoupling::MEDCouplingUMesh::computePlaneEquationOf3DFaces;
+%newobject MEDCoupling::MEDCouplingUMesh::computeCellCenterOfMassWithPrecision;
 %newobject MEDCoupling::MEDCouplingUMesh::getPartMeasureField;
 %newobject MEDCoupling::MEDCouplingUMesh::buildPartOrthogonalField;
 %newobject MEDCoupling::MEDCouplingUMesh::keepCellIdsByType;
@@ -444,6 +446,7 @@ typedef long mcPyPtrType;
 %newobject MEDCoupling::MEDCoupling1DGTUMesh::computeEulerCharacteristic;
 %newobject MEDCoupling::MEDCoupling1DGTUMesh::Merge1DGTUMeshes;
 %newobject MEDCoupling::MEDCoupling1DGTUMesh::Merge1DGTUMeshesOnSameCoords;
+%newobject MEDCoupling::MEDCoupling1DGTUMesh::AggregateNodalConnAndShiftNodeIds;
 %newobject MEDCoupling::MEDCouplingMappedExtrudedMesh::New;
 %newobject MEDCoupling::MEDCouplingMappedExtrudedMesh::build3DUnstructuredMesh;
 %newobject MEDCoupling::MEDCouplingStructuredMesh::buildStructuredSubPart;
@@ -474,6 +477,7 @@ typedef long mcPyPtrType;
 %newobject MEDCoupling::MEDCouplingCartesianAMRMeshGen::extractGhostFrom;
 %newobject MEDCoupling::MEDCouplingCartesianAMRMeshGen::buildMeshFromPatchEnvelop;
 %newobject MEDCoupling::MEDCouplingCartesianAMRMeshGen::buildMeshOfDirectChildrenOnly;
+%newobject MEDCoupling::MEDCouplingCartesianAMRMeshGen::buildCellFieldOnRecurseWithoutOverlapWithoutGhost;
 %newobject MEDCoupling::MEDCouplingCartesianAMRMeshGen::getImageMesh;
 %newobject MEDCoupling::MEDCouplingCartesianAMRMeshGen::getGodFather;
 %newobject MEDCoupling::MEDCouplingCartesianAMRMeshGen::getFather;
diff --git a/src/MEDCoupling_Swig/MEDCouplingMemArray.i b/src/MEDCoupling_Swig/MEDCouplingMemArray.i
index 20d9517..1312c2d 100644
--- a/src/MEDCoupling_Swig/MEDCouplingMemArray.i
+++ b/src/MEDCoupling_Swig/MEDCouplingMemArray.i
@@ -124,6 +124,8 @@
 %newobject MEDCoupling::DataArrayInt32::Multiply;
 %newobject MEDCoupling::DataArrayInt32::Divide;
 %newobject MEDCoupling::DataArrayInt32::Pow;
+%newobject MEDCoupling::DataArrayInt32::Modulus;
+%newobject MEDCoupling::DataArrayInt32::MakePartition;
 %newobject MEDCoupling::DataArrayInt32::BuildUnion;
 %newobject MEDCoupling::DataArrayInt32::BuildIntersection;
 %newobject MEDCoupling::DataArrayInt32::Range;
@@ -201,6 +203,8 @@
 %newobject MEDCoupling::DataArrayInt64::Multiply;
 %newobject MEDCoupling::DataArrayInt64::Divide;
 %newobject MEDCoupling::DataArrayInt64::Pow;
+%newobject MEDCoupling::DataArrayInt64::Modulus;
+%newobject MEDCoupling::DataArrayInt64::MakePartition;
 %newobject MEDCoupling::DataArrayInt64::BuildUnion;
 %newobject MEDCoupling::DataArrayInt64::BuildIntersection;
 %newobject MEDCoupling::DataArrayInt64::Range;
@@ -251,6 +255,8 @@
 %newobject MEDCoupling::DataArrayChar::changeNbOfComponents;
 %newobject MEDCoupling::DataArrayChar::findIdsEqual;
 %newobject MEDCoupling::DataArrayChar::findIdsNotEqual;
+%newobject MEDCoupling::DataArrayChar::findIdsInRange;
+%newobject MEDCoupling::DataArrayChar::buildEmptySpecializedDAChar;
 %newobject MEDCoupling::DataArrayChar::Aggregate;
 %newobject MEDCoupling::DataArrayChar::Meld;
 %newobject MEDCoupling::DataArrayByte::New;
@@ -274,6 +280,8 @@
 %newobject MEDCoupling::DataArrayDouble::Multiply;
 %newobject MEDCoupling::DataArrayDouble::Divide;
 %newobject MEDCoupling::DataArrayDouble::Pow;
+%newobject MEDCoupling::DataArrayDouble::Max;
+%newobject MEDCoupling::DataArrayDouble::Min;
 %newobject MEDCoupling::DataArrayDouble::symmetry3DPlane;
 %newobject MEDCoupling::DataArrayDouble::subArray;
 %newobject MEDCoupling::DataArrayDouble::changeNbOfComponents;
@@ -325,6 +333,7 @@
 %newobject MEDCoupling::DataArrayDouble::__pow__;
 %newobject MEDCoupling::DataArrayDouble::__rpow__;
 %newobject MEDCoupling::DataArrayDoubleTuple::buildDADouble;
+%newobject MEDCoupling::DataArrayFloatTuple::buildDAFloat;
 
 %newobject MEDCoupling::PartDefinition::New;
 %newobject MEDCoupling::PartDefinition::toDAI;
-- 
2.43.0


From b2ba3b89e8eb86d4d709383c039b6172ccd239f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:32 +0000
Subject: [PATCH 16/50] fix: ICoCo fields keep the field they are given alive
 when it is the one they already hold, and Python's getMCField keeps it alive

---
 src/ICoCo/ICoCoMEDDoubleField.cxx | 10 ++++------
 src/ICoCo/ICoCoMEDIntField.cxx    | 10 ++++------
 src/ICoCo/Swig/ICoCoMEDField.i    |  8 ++++++++
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/ICoCo/ICoCoMEDDoubleField.cxx b/src/ICoCo/ICoCoMEDDoubleField.cxx
index b4089c1..69e98e5 100644
--- a/src/ICoCo/ICoCoMEDDoubleField.cxx
+++ b/src/ICoCo/ICoCoMEDDoubleField.cxx
@@ -51,12 +51,11 @@ MEDDoubleField::~MEDDoubleField()
 MEDDoubleField &
 MEDDoubleField::operator=(const MEDDoubleField &field)
 {
+    if (field.getMCField())
+        field.getMCField()->incrRef();
     if (_field)
         _field->decrRef();
-
     _field = field.getMCField();
-    if (_field)
-        _field->incrRef();
     setName(field.getName());
     return *this;
 }
@@ -70,14 +69,13 @@ MEDDoubleField::getMCField() const
 void
 MEDDoubleField::setMCField(MEDCoupling::MEDCouplingFieldDouble *f)
 {
+    if (f != nullptr)
+        f->incrRef();
     if (_field)
         _field->decrRef();
     _field = f;
     if (f != nullptr)
-    {
-        _field->incrRef();
         setName(_field->getName());
-    }
     else
         setName("");
 }
diff --git a/src/ICoCo/ICoCoMEDIntField.cxx b/src/ICoCo/ICoCoMEDIntField.cxx
index f86bfca..a584373 100644
--- a/src/ICoCo/ICoCoMEDIntField.cxx
+++ b/src/ICoCo/ICoCoMEDIntField.cxx
@@ -56,12 +56,11 @@ MEDIntField::~MEDIntField()
 MEDIntField &
 MEDIntField::operator=(const MEDIntField &field)
 {
+    if (field.getMCField())
+        field.getMCField()->incrRef();
     if (_field)
         _field->decrRef();
-
     _field = field.getMCField();
-    if (_field)
-        _field->incrRef();
     setName(field.getName());
     return *this;
 }
@@ -75,14 +74,13 @@ MEDIntField::getMCField() const
 void
 MEDIntField::setMCField(MEDCoupling::MEDCouplingFieldInt32 *f)
 {
+    if (f != nullptr)
+        f->incrRef();
     if (_field)
         _field->decrRef();
     _field = f;
     if (f != nullptr)
-    {
-        _field->incrRef();
         setName(_field->getName());
-    }
     else
         setName("");
 }
diff --git a/src/ICoCo/Swig/ICoCoMEDField.i b/src/ICoCo/Swig/ICoCoMEDField.i
index 06789a9..24edd94 100644
--- a/src/ICoCo/Swig/ICoCoMEDField.i
+++ b/src/ICoCo/Swig/ICoCoMEDField.i
@@ -32,5 +32,13 @@
 %rename (ICoCoMEDDoubleField) ICoCo::MEDDoubleField;
 %rename (ICoCoMEDIntField) ICoCo::MEDIntField;
 
+// the Python object returned by getMCField keeps the field alive
+%typemap(out) MEDCoupling::MEDCouplingFieldDouble *getMCField, MEDCoupling::MEDCouplingFieldInt32 *getMCField
+{
+  if($1)
+    $1->incrRef();
+  $result=SWIG_NewPointerObj(SWIG_as_voidptr($1),$1_descriptor,SWIG_POINTER_OWN | 0);
+}
+
 %include "ICoCoMEDDoubleField.hxx"
 %include "ICoCoMEDIntField.hxx"
-- 
2.43.0


From 767024c4b5efcdc12b9d5f27b87fd6b20cf52b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:32 +0000
Subject: [PATCH 17/50] fix: MEDCouplingCMesh::setCoords takes the new arrays
 before releasing the former ones

---
 src/MEDCoupling/MEDCouplingCMesh.cxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCMesh.cxx b/src/MEDCoupling/MEDCouplingCMesh.cxx
index 66dbff6..8d21fac 100644
--- a/src/MEDCoupling/MEDCouplingCMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCMesh.cxx
@@ -573,21 +573,21 @@ MEDCouplingCMesh::setCoords(
         coordsY->checkNbOfComps(1, "MEDCouplingCMesh::setCoords : coordsY");
     if (coordsZ)
         coordsZ->checkNbOfComps(1, "MEDCouplingCMesh::setCoords : coordsZ");
+    if (coordsX)
+        coordsX->incrRef();
+    if (coordsY)
+        coordsY->incrRef();
+    if (coordsZ)
+        coordsZ->incrRef();
     if (_x_array)
         _x_array->decrRef();
     _x_array = const_cast<DataArrayDouble *>(coordsX);
-    if (_x_array)
-        _x_array->incrRef();
     if (_y_array)
         _y_array->decrRef();
     _y_array = const_cast<DataArrayDouble *>(coordsY);
-    if (_y_array)
-        _y_array->incrRef();
     if (_z_array)
         _z_array->decrRef();
     _z_array = const_cast<DataArrayDouble *>(coordsZ);
-    if (_z_array)
-        _z_array->incrRef();
     declareAsNew();
 }
 
-- 
2.43.0


From 962d700ec365e5f58fa868b41e6f6ca286c98551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:32 +0000
Subject: [PATCH 18/50] fix: time discretizations take the unserialized arrays
 before releasing the former ones

---
 .../MEDCouplingTimeDiscretization.cxx         | 19 +++++++++----------
 .../MEDCouplingTimeDiscretization.txx         | 11 ++++++-----
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingTimeDiscretization.cxx b/src/MEDCoupling/MEDCouplingTimeDiscretization.cxx
index 2e5b145..0fbe6f1 100644
--- a/src/MEDCoupling/MEDCouplingTimeDiscretization.cxx
+++ b/src/MEDCoupling/MEDCouplingTimeDiscretization.cxx
@@ -2644,28 +2644,27 @@ MEDCouplingTwoTimeSteps::checkForUnserialization(
         "MEDCouplingTimeDiscretization::checkForUnserialization : arrays in input is expected to have size two !";
     if (arrays.size() != 2)
         throw INTERP_KERNEL::Exception(MSG);
-    if (_array != 0)
-        _array->decrRef();
-    if (_end_array != 0)
-        _end_array->decrRef();
-    _array = 0;
-    _end_array = 0;
+    MCAuto<DataArrayDouble> arr, endArr;
     if (tinyInfoI[0] != -1 && tinyInfoI[1] != -1)
     {
         if (!arrays[0])
             throw INTERP_KERNEL::Exception(MSG);
         arrays[0]->checkNbOfTuplesAndComp(tinyInfoI[0], tinyInfoI[1], MSG);
-        _array = arrays[0];
-        _array->incrRef();
+        arr.takeRef(arrays[0]);
     }
     if (tinyInfoI[6] != -1 && tinyInfoI[7] != -1)
     {
         if (!arrays[1])
             throw INTERP_KERNEL::Exception(MSG);
         arrays[1]->checkNbOfTuplesAndComp(tinyInfoI[6], tinyInfoI[7], MSG);
-        _end_array = arrays[1];
-        _end_array->incrRef();
+        endArr.takeRef(arrays[1]);
     }
+    if (_array != 0)
+        _array->decrRef();
+    if (_end_array != 0)
+        _end_array->decrRef();
+    _array = arr.retn();
+    _end_array = endArr.retn();
 }
 
 void
diff --git a/src/MEDCoupling/MEDCouplingTimeDiscretization.txx b/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
index aefafb1..f5fea7a 100644
--- a/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
+++ b/src/MEDCoupling/MEDCouplingTimeDiscretization.txx
@@ -319,17 +319,18 @@ MEDCouplingTimeDiscretizationTemplate<T>::checkForUnserialization(
         "MEDCouplingTimeDiscretization::checkForUnserialization : arrays in input is expected to have size one !";
     if (arrays.size() != 1)
         throw INTERP_KERNEL::Exception(MSG);
-    if (_array != 0)
-        _array->decrRef();
-    _array = 0;
+    typename Traits<T>::ArrayType *arr = 0;
     if (tinyInfoI[0] != -1 && tinyInfoI[1] != -1)
     {
         if (!arrays[0])
             throw INTERP_KERNEL::Exception(MSG);
         arrays[0]->checkNbOfTuplesAndComp(tinyInfoI[0], tinyInfoI[1], MSG);
-        _array = arrays[0];
-        _array->incrRef();
+        arr = arrays[0];
+        arr->incrRef();
     }
+    if (_array != 0)
+        _array->decrRef();
+    _array = arr;
 }
 
 template <class T>
-- 
2.43.0


From ef8c2a1d6690edc123ea2fba645acb665693cc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 19/50] fix: reference nodes and shape functions of TRI6
 element A: fourth node at (-1,0), function of the sixth node in both
 coordinates

---
 src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
index 8348a5c..c48193c 100644
--- a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
+++ b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
@@ -41,7 +41,7 @@ const double GaussInfo::TRIA3A_REF[6] = {-1.0, 1.0, -1.0, -1.0, 1.0, -1.0};
 
 const double GaussInfo::TRIA3B_REF[6] = {0.0, 0.0, 1.0, 0.0, 0.0, 1.0};
 
-const double GaussInfo::TRIA6A_REF[12] = {-1.0, 1.0, -1.0, -1.0, 1.0, -1.0, -1.0, 1.0, 0.0, -1.0, 0.0, 0.0};
+const double GaussInfo::TRIA6A_REF[12] = {-1.0, 1.0, -1.0, -1.0, 1.0, -1.0, -1.0, 0.0, 0.0, -1.0, 0.0, 0.0};
 
 const double GaussInfo::TRIA6B_REF[12] = {0.0, 0.0, 1.0, 0.0, 0.0, 1.0, 0.5, 0.0, 0.5, 0.5, 0.0, 0.5};
 
@@ -1325,7 +1325,7 @@ GaussInfo::tria6aInit()
         funValue[2] = 0.5 * (1.0 + gc[0]) * gc[0];
         funValue[3] = -1.0 * (1.0 + gc[1]) * (gc[0] + gc[1]);
         funValue[4] = -1.0 * (1.0 + gc[0]) * (gc[0] + gc[1]);
-        funValue[5] = (1.0 + gc[1]) * (1.0 + gc[1]);
+        funValue[5] = (1.0 + gc[0]) * (1.0 + gc[1]);
         SHAPE_FUN_MACRO_END;
 
         DEV_SHAPE_FUN_MACRO_BEGIN;
@@ -1345,8 +1345,8 @@ GaussInfo::tria6aInit()
         devFunValue[8] = -1.0 * (2 * gc[0] + gc[1] + 1.0);
         devFunValue[9] = -1.0 * (1.0 + gc[0]);
 
-        devFunValue[10] = 0.0;
-        devFunValue[11] = (2 * gc[1] + 2.0);
+        devFunValue[10] = 1.0 + gc[1];
+        devFunValue[11] = 1.0 + gc[0];
 
         DEV_SHAPE_FUN_MACRO_END;
 }
-- 
2.43.0


From b1561bc98cd695852625539a5a9e131c94731af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 20/50] fix: derivatives of the PYRA13 B shape functions at the
 apex: those of the sixth node are set, those of the fifth kept

---
 src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
index c48193c..20eac6e 100644
--- a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
+++ b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
@@ -2958,9 +2958,9 @@ GaussInfo::pyra13bInit()
             devFunValue[19] = 0.0;
             devFunValue[20] = 0.0;
 
-            devFunValue[14] = 0.0;
             devFunValue[15] = 0.0;
             devFunValue[16] = 0.0;
+            devFunValue[17] = 0.0;
 
             devFunValue[27] = 2.0;
             devFunValue[28] = 0.0;
-- 
2.43.0


From 79b2f41406578ec6df7df9c62d1a4186b21e8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 21/50] fix: GaussInfo::GetReferenceCoordinatesOfBarycenterOf
 gives the barycentre of the triangle of reference A, not a point of its
 border

---
 src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
index 20eac6e..b5a93f7 100644
--- a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
+++ b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
@@ -590,7 +590,7 @@ GaussInfo::GetReferenceCoordinatesOfBarycenterOf(NormalizedCellType ct, const do
         {
             if (refCoo[0] < -0.5)
             {
-                return std::vector<double>({0.0, 0.0});
+                return std::vector<double>({-1.0 / 3.0, -1.0 / 3.0});
             }
             return std::vector<double>({1.0 / 3.0, 1.0 / 3.0});
         }
-- 
2.43.0


From 8a154030951413cc52ac39a86bbb6616d2987107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 22/50] fix: GaussInfo::IsInOrOutForReference tells the points
 below the base of a pyramid are outside

---
 src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
index b5a93f7..dfd6892 100644
--- a/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
+++ b/src/INTERP_KERNEL/GaussPoints/InterpKernelGaussCoords.cxx
@@ -699,7 +699,7 @@ GaussInfo::IsInOrOutForReference(NormalizedCellType ct, const double *refCoo, co
             const double xi = ptInRefCoo[0];
             const double eta = ptInRefCoo[1];
             const double zeta = ptInRefCoo[2];
-            return (std::abs(xi) + std::abs(eta) + zeta < 1.0 + eps);
+            return (zeta > -eps) && (std::abs(xi) + std::abs(eta) + zeta < 1.0 + eps);
         }
         default:
             THROW_IK_EXCEPTION("IsInOrOutForReference : not implemented for this geo type !");
-- 
2.43.0


From 681e8d1c206ed4154e994a985fe20fca7fb9fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:12 +0000
Subject: [PATCH 23/50] fix: CellModel lists the edges of HEXA27: their number
 was left unset

---
 src/INTERP_KERNEL/CellModel.cxx | 37 +++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/INTERP_KERNEL/CellModel.cxx b/src/INTERP_KERNEL/CellModel.cxx
index 0532961..b2dfcf5 100644
--- a/src/INTERP_KERNEL/CellModel.cxx
+++ b/src/INTERP_KERNEL/CellModel.cxx
@@ -1459,6 +1459,43 @@ CellModel::CellModel(NormalizedCellType type) : _type(type)
             _sons_con[5][8] = 24;
             _nb_of_sons_con[5] = 9;
             _quadratic = true;
+            _little_sons_con[0][0] = 0;
+            _little_sons_con[0][1] = 1;
+            _little_sons_con[0][2] = 8;
+            _nb_of_little_sons = 12;
+            _little_sons_con[1][0] = 1;
+            _little_sons_con[1][1] = 2;
+            _little_sons_con[1][2] = 9;
+            _little_sons_con[2][0] = 2;
+            _little_sons_con[2][1] = 3;
+            _little_sons_con[2][2] = 10;
+            _little_sons_con[3][0] = 3;
+            _little_sons_con[3][1] = 0;
+            _little_sons_con[3][2] = 11;
+            _little_sons_con[4][0] = 4;
+            _little_sons_con[4][1] = 5;
+            _little_sons_con[4][2] = 12;
+            _little_sons_con[5][0] = 5;
+            _little_sons_con[5][1] = 6;
+            _little_sons_con[5][2] = 13;
+            _little_sons_con[6][0] = 6;
+            _little_sons_con[6][1] = 7;
+            _little_sons_con[6][2] = 14;
+            _little_sons_con[7][0] = 7;
+            _little_sons_con[7][1] = 4;
+            _little_sons_con[7][2] = 15;
+            _little_sons_con[8][0] = 0;
+            _little_sons_con[8][1] = 4;
+            _little_sons_con[8][2] = 16;
+            _little_sons_con[9][0] = 1;
+            _little_sons_con[9][1] = 5;
+            _little_sons_con[9][2] = 17;
+            _little_sons_con[10][0] = 2;
+            _little_sons_con[10][1] = 6;
+            _little_sons_con[10][2] = 18;
+            _little_sons_con[11][0] = 3;
+            _little_sons_con[11][1] = 7;
+            _little_sons_con[11][2] = 19;
         }
         break;
         case NORM_POLYGON:
-- 
2.43.0


From 1ea36452b894fd007f067ca2675354e946c1fb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:12 +0000
Subject: [PATCH 24/50] fix: CellModel::changeOrientationOf2D does not write
 before its buffer for TRI7 and QUAD9

---
 src/INTERP_KERNEL/CellModel.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/CellModel.cxx b/src/INTERP_KERNEL/CellModel.cxx
index b2dfcf5..2f118a7 100644
--- a/src/INTERP_KERNEL/CellModel.cxx
+++ b/src/INTERP_KERNEL/CellModel.cxx
@@ -1879,7 +1879,8 @@ CellModel::changeOrientationOf2D(mcIdType *nodalConn, unsigned int sz) const
         unsigned int sz2(sz / 2);
         std::vector<mcIdType> tmp0(sz2 - 1), tmp1(sz2);
         std::copy(nodalConn + 1, nodalConn + sz2, tmp0.rbegin());
-        std::copy(nodalConn + sz2, nodalConn + sz, tmp1.rbegin());
+        // the node in the middle of TRI7 and QUAD9 does not move
+        std::copy(nodalConn + sz2, nodalConn + 2 * sz2, tmp1.rbegin());
         std::copy(tmp0.begin(), tmp0.end(), nodalConn + 1);
         std::copy(tmp1.begin(), tmp1.end(), nodalConn + sz2);
     }
-- 
2.43.0


From 1bcb5687c153f60c349130bf57e8249fac566480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:53 +0000
Subject: [PATCH 25/50] fix: SplitterTetra2 gave the added node of a prism an
 identifier read past the end of the node list

---
 src/INTERP_KERNEL/SplitterTetra.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/SplitterTetra.hxx b/src/INTERP_KERNEL/SplitterTetra.hxx
index 960acba..23dad99 100644
--- a/src/INTERP_KERNEL/SplitterTetra.hxx
+++ b/src/INTERP_KERNEL/SplitterTetra.hxx
@@ -663,7 +663,7 @@ SplitterTetra2<MyMeshTypeT, MyMeshTypeS>::getCoordsOfSubNode2(
 )
 {
     const double *ret = _nodes.at(node);
-    if (node < 8)
+    if (node < static_cast<typename MyMeshTypeT::MyConnType>(_node_ids.size()))
         nodeId = _node_ids[node];
     else
         nodeId = -1;
-- 
2.43.0


From 2809679a60a281cdc4c5c6f73f8d8cecbaf9d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:01 +0000
Subject: [PATCH 26/50] fix: SplitterTetra2 wrote the nodes of hexagonal faces
 past the end of a table of four

---
 src/INTERP_KERNEL/SplitterTetra.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/SplitterTetra.txx b/src/INTERP_KERNEL/SplitterTetra.txx
index aeeb425..4308574 100644
--- a/src/INTERP_KERNEL/SplitterTetra.txx
+++ b/src/INTERP_KERNEL/SplitterTetra.txx
@@ -1382,7 +1382,7 @@ SplitterTetra2<MyMeshTypeT, MyMeshTypeS>::splitConvex(
     static std::vector<ConnType> allNodeIndices;  // == 0,1,2,...,nbOfCellNodes-1
     while (allNodeIndices.size() < (std::size_t)nbOfCellNodes)
         allNodeIndices.push_back(static_cast<ConnType>(allNodeIndices.size()));
-    std::vector<ConnType> classicFaceNodes(4);
+    std::vector<ConnType> classicFaceNodes(nbOfCellNodes);
     if (cellModelCell.isQuadratic())
         throw INTERP_KERNEL::Exception("SplitterTetra2::splitConvex : quadratic 3D cells are not implemented yet !");
     ConnType *faceNodes = cellModelCell.isDynamic() ? &allNodeIndices[0] : &classicFaceNodes[0];
-- 
2.43.0


From c30d54b3f8f36611e998850179887694c1c81564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:25 +0000
Subject: [PATCH 27/50] fix: the apex of a recognised cone changed from run to
 run (shuffle seeded by random_device)

---
 src/ShapeRecogn/Areas.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ShapeRecogn/Areas.cxx b/src/ShapeRecogn/Areas.cxx
index 039cd47..84e9924 100644
--- a/src/ShapeRecogn/Areas.cxx
+++ b/src/ShapeRecogn/Areas.cxx
@@ -416,8 +416,7 @@ Areas::computeConeProperties(mcIdType areaId)
         if (radiusNodes[idx] > q2)
             q2_indices.push_back(idx);
     }
-    std::random_device rd;
-    std::mt19937 g(rd());
+    std::mt19937 g;
     std::shuffle(q2_indices.begin(), q2_indices.end(), g);
     // Compute the height of the cone
     // std::vector<double> heights(q1_indices.size(), 0.0);
-- 
2.43.0


From 84d63288c3fbe66a5c5c6e5b933e6273fd276777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:08 +0000
Subject: [PATCH 28/50] fix: counters of cells and tuples were kept on 32 bits

---
 src/MEDCoupling/MEDCoupling1GTUMesh.cxx           | 10 +++++-----
 src/MEDCoupling/MEDCouplingCMesh.cxx              |  2 +-
 src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx |  6 +++---
 src/MEDCoupling/MEDCouplingMemArray.txx           |  8 ++++----
 src/MEDCoupling/MEDCouplingUMesh.cxx              |  2 +-
 src/ShapeRecogn/NodesBuilder.cxx                  |  2 +-
 6 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
index 66169fc..921da42 100644
--- a/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
+++ b/src/MEDCoupling/MEDCoupling1GTUMesh.cxx
@@ -579,7 +579,7 @@ MEDCoupling1GTUMesh::AggregateOnSameCoordsToUMesh(const std::vector<const MEDCou
         if (ps && !pd)
         {
             mcIdType nNodesPerCell(ps->getNumberOfNodesPerCell());
-            for (int i = 0; i < curNbCells; i++, ci++, cinPtr += nNodesPerCell)
+            for (mcIdType i = 0; i < curNbCells; i++, ci++, cinPtr += nNodesPerCell)
             {
                 *c++ = geoType;
                 c = std::copy(cinPtr, cinPtr + nNodesPerCell, c);
@@ -589,7 +589,7 @@ MEDCoupling1GTUMesh::AggregateOnSameCoordsToUMesh(const std::vector<const MEDCou
         else if (!ps && pd)
         {
             const mcIdType *ciinPtr(pd->getNodalConnectivityIndex()->begin());
-            for (int i = 0; i < curNbCells; i++, ci++, ciinPtr++)
+            for (mcIdType i = 0; i < curNbCells; i++, ci++, ciinPtr++)
             {
                 *c++ = geoType;
                 c = std::copy(cinPtr + ciinPtr[0], cinPtr + ciinPtr[1], c);
@@ -4247,7 +4247,7 @@ MEDCoupling1DGTUMesh::accumulateVTK93Arrays(
     const mcIdType *connPtr(this->getNodalConnectivity()->begin());
     if (this->getCellModelEnum() != INTERP_KERNEL::NORM_POLYHED)
     {
-        for (int i = 0; i < curNbCells; i++, connIPtr++)
+        for (mcIdType i = 0; i < curNbCells; i++, connIPtr++)
         {
             *dPtr++ = connIPtr[1] - connIPtr[0];
             dPtr = std::copy(connPtr + connIPtr[0], connPtr + connIPtr[1], dPtr);
@@ -4278,7 +4278,7 @@ MEDCoupling1DGTUMesh::accumulateVTK93Arrays(
         else
         {
             mcIdType kk(0);
-            for (int i = 0; i < curNbCells; i++, connIPtr++)
+            for (mcIdType i = 0; i < curNbCells; i++, connIPtr++)
             {
                 mcIdType nbFace(ToIdType(std::count(connPtr + connIPtr[0], connPtr + connIPtr[1], -1) + 1));
                 *fPtr++ = nbFace;
@@ -4312,7 +4312,7 @@ MEDCoupling1DGTUMesh::accumulateVTK94Arrays(
         *connIPtr(this->getNodalConnectivityIndex()->begin());
     if (this->getCellModelEnum() != INTERP_KERNEL::NORM_POLYHED)
     {
-        for (int i = 0; i < curNbCells; i++, connIPtr++)
+        for (mcIdType i = 0; i < curNbCells; i++, connIPtr++)
         {
             *dPtr++ = connIPtr[1] - connIPtr[0];
             dPtr = std::copy(connPtr + connIPtr[0], connPtr + connIPtr[1], dPtr);
diff --git a/src/MEDCoupling/MEDCouplingCMesh.cxx b/src/MEDCoupling/MEDCouplingCMesh.cxx
index 8d21fac..7abd9ea 100644
--- a/src/MEDCoupling/MEDCouplingCMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCMesh.cxx
@@ -846,7 +846,7 @@ MEDCouplingCMesh::computeCellCenterOfMass() const
         );
     }
     mcIdType tmp2[3];
-    for (int i = 0; i < nbCells; i++)
+    for (mcIdType i = 0; i < nbCells; i++)
     {
         GetPosFromId(i, spaceDim, tmp, tmp2);
         for (int j = 0; j < spaceDim; j++) pt[i * spaceDim + j] = tabsPtr[j][tmp2[j]];
diff --git a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
index 1d70908..21ffcef 100644
--- a/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingMappedExtrudedMesh.cxx
@@ -329,7 +329,7 @@ MEDCouplingMappedExtrudedMesh::giveCellsWithType(INTERP_KERNEL::NormalizedCellTy
     mcIdType nbOfTuples(tmp->getNumberOfTuples());
     ret->alloc(nbOfLevs * nbOfTuples, 1);
     mcIdType *pt(ret->getPointer());
-    for (int i = 0; i < nbOfLevs; i++, pt += nbOfTuples)
+    for (mcIdType i = 0; i < nbOfLevs; i++, pt += nbOfTuples)
         std::transform(
             tmp->begin(), tmp->end(), pt, std::bind(std::plus<mcIdType>(), std::placeholders::_1, i * nbOfCells2D)
         );
@@ -347,7 +347,7 @@ MEDCouplingMappedExtrudedMesh::computeNbOfNodesPerCell() const
     MCAuto<DataArrayIdType> ret3D(DataArrayIdType::New());
     ret3D->alloc(nbOfLevs * nbOfCells2D, 1);
     mcIdType *pt(ret3D->getPointer());
-    for (int i = 0; i < nbOfLevs; i++, pt += nbOfCells2D) std::copy(ret2D->begin(), ret2D->end(), pt);
+    for (mcIdType i = 0; i < nbOfLevs; i++, pt += nbOfCells2D) std::copy(ret2D->begin(), ret2D->end(), pt);
     ret3D->applyLin(2, 0, 0);
     return ret3D->renumberR(_mesh3D_ids->begin());
 }
@@ -361,7 +361,7 @@ MEDCouplingMappedExtrudedMesh::computeNbOfFacesPerCell() const
     MCAuto<DataArrayIdType> ret3D(DataArrayIdType::New());
     ret3D->alloc(nbOfLevs * nbOfCells2D, 1);
     mcIdType *pt(ret3D->getPointer());
-    for (int i = 0; i < nbOfLevs; i++, pt += nbOfCells2D) std::copy(ret2D->begin(), ret2D->end(), pt);
+    for (mcIdType i = 0; i < nbOfLevs; i++, pt += nbOfCells2D) std::copy(ret2D->begin(), ret2D->end(), pt);
     ret3D->applyLin(2, 2, 0);
     return ret3D->renumberR(_mesh3D_ids->begin());
 }
diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index e76f872..c18dc90 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -4508,7 +4508,7 @@ DataArrayDiscrete<T>::getHashCode2() const
     auto nbOfElems(this->getNbOfElems());
     TUnsigned ret(0);
     const T *pt(this->begin());
-    for (auto i = 0; i < nbOfElems; ++i)
+    for (mcIdType i = 0; i < nbOfElems; ++i)
     {
         ret ^= TUnsigned(pt[i]) + Traits<T>::ConstantForHash + (ret << 6) + (ret >> 2);
     }
@@ -5635,7 +5635,7 @@ DataArrayDiscrete<T>::locateComponentId(
     MCAuto<DataArrayIdType> ret = DataArrayIdType::New();
     ret->alloc(nbOfTuples, 1);
     mcIdType *retPtr(ret->getPointer());
-    for (auto i = 0; i < nbOfTuples; ++i)
+    for (mcIdType i = 0; i < nbOfTuples; ++i)
     {
         if (tHintPtr[i] >= 0 && tHintPtr[i] < thisNbTuples)
         {
@@ -8714,7 +8714,7 @@ DataArrayDiscrete<T>::FromVTKInternalReprOfPolyedra(
     T *arrOutPt(arrOut->getPointer());
     mcIdType *arrOutIdxPt(arrIndexOut->getPointer());
     *arrOutIdxPt = 0;
-    for (auto i = 0; i < nbCells; ++i)
+    for (mcIdType i = 0; i < nbCells; ++i)
     {
         T nbFaces = arrInPt[arrIndxInPt[i]];
         T *arrOutPtStart(arrOutPt);
@@ -8773,7 +8773,7 @@ DataArrayDiscrete<T>::FromVTK94InternalReprOfPolyedra(
     T *arrOutPt(arrOut->getPointer());
     mcIdType *arrOutIdxPt(arrIndexOut->getPointer());
     *arrOutIdxPt = 0;
-    for (auto i = 0; i < nbCells; ++i)
+    for (mcIdType i = 0; i < nbCells; ++i)
     {
         mcIdType nbFaces = arrIndx2InPt[i + 1] - arrIndx2InPt[i];
         T *arrOutPtStart(arrOutPt);
diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 0d7e9ad..7c60c4a 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -339,7 +339,7 @@ MEDCouplingUMesh::checkGeomConsistency(double eps) const
     this->checkConsistency(eps);
     auto nbOfCells(getNumberOfCells());
     const mcIdType *ptr(_nodal_connec->begin()), *ptrI(_nodal_connec_index->begin());
-    for (auto icell = 0; icell < nbOfCells; ++icell)
+    for (mcIdType icell = 0; icell < nbOfCells; ++icell)
     {
         std::set<mcIdType> s(ptr + ptrI[icell] + 1, ptr + ptrI[icell + 1]);
         if (ToIdType(s.size()) == ptrI[icell + 1] - ptrI[icell] - 1)
diff --git a/src/ShapeRecogn/NodesBuilder.cxx b/src/ShapeRecogn/NodesBuilder.cxx
index e45bd78..db66afe 100644
--- a/src/ShapeRecogn/NodesBuilder.cxx
+++ b/src/ShapeRecogn/NodesBuilder.cxx
@@ -47,7 +47,7 @@ NodesBuilder::computeNormals()
     cellNormal.fill(0.0);
     // product of normal AreaByCell
     std::vector<double> prodNormalAreaByCell(3 * nbCells, 0.0);
-    for (int cellId = 0; cellId < nbCells; cellId++)
+    for (mcIdType cellId = 0; cellId < nbCells; cellId++)
     {
         std::vector<mcIdType> nodeIds;
         mesh->getNodeIdsOfCell(cellId, nodeIds);
-- 
2.43.0


From a7e76840df1843c35b395c1ee4220cded757d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:25 +0000
Subject: [PATCH 29/50] fix: products of structured grids and the counts seen
 from Python were cut to 32 bits

---
 src/MEDCoupling/MEDCouplingIMesh.cxx          |  4 +--
 src/MEDCoupling/MEDCouplingStructuredMesh.cxx |  8 ++---
 src/MEDCoupling_Swig/DataArrayInt.i           | 12 +++----
 src/MEDCoupling_Swig/MEDCouplingCommon.i      | 32 +++++++++----------
 .../MEDCouplingDataArrayTypemaps.i            | 20 ++++++------
 .../MEDCouplingFieldDiscretization.i          |  6 ++--
 src/MEDCoupling_Swig/MEDCouplingMemArray.i    | 14 ++++----
 7 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index 13db0a9..9dab2b0 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -412,7 +412,7 @@ MEDCouplingIMesh::CondenseFineToCoarse(
         throw INTERP_KERNEL::Exception(
             "MEDCouplingIMesh::CondenseFineToCoarse : Invalid nb of tuples in fine DataArray regarding its structure !"
         );
-    mcIdType fact(std::accumulate(facts.begin(), facts.end(), 1, std::multiplies<mcIdType>()));
+    mcIdType fact(std::accumulate(facts.begin(), facts.end(), (mcIdType)1, std::multiplies<mcIdType>()));
     if (nbTuplesFine != fact * nbOfTuplesInFineExp)
     {
         std::ostringstream oss;
@@ -743,7 +743,7 @@ MEDCouplingIMesh::SpreadCoarseToFine(
         throw INTERP_KERNEL::Exception(
             "MEDCouplingIMesh::SpreadCoarseToFine : Invalid nb of tuples in fine DataArray regarding its structure !"
         );
-    mcIdType fact(std::accumulate(facts.begin(), facts.end(), 1, std::multiplies<mcIdType>()));
+    mcIdType fact(std::accumulate(facts.begin(), facts.end(), (mcIdType)1, std::multiplies<mcIdType>()));
     if (nbTuplesFine != fact * nbOfTuplesInFineExp)
     {
         std::ostringstream oss;
diff --git a/src/MEDCoupling/MEDCouplingStructuredMesh.cxx b/src/MEDCoupling/MEDCouplingStructuredMesh.cxx
index a8e6a2f..0f32d7b 100644
--- a/src/MEDCoupling/MEDCouplingStructuredMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingStructuredMesh.cxx
@@ -1535,7 +1535,7 @@ MEDCouplingStructuredMesh::getCellIdFromPos(mcIdType i, mcIdType j, mcIdType k)
     mcIdType meshDim(getMeshDimension());
     getSplitCellValues(tmp2);
     std::transform(tmp, tmp + meshDim, tmp2, tmp, std::multiplies<mcIdType>());
-    return std::accumulate(tmp, tmp + meshDim, 0);
+    return std::accumulate(tmp, tmp + meshDim, (mcIdType)0);
 }
 
 /*!
@@ -1553,7 +1553,7 @@ MEDCouplingStructuredMesh::getNodeIdFromPos(mcIdType i, mcIdType j, mcIdType k)
     mcIdType spaceDim(getSpaceDimension());
     getSplitNodeValues(tmp2);
     std::transform(tmp, tmp + spaceDim, tmp2, tmp, std::multiplies<mcIdType>());
-    return std::accumulate(tmp, tmp + spaceDim, 0);
+    return std::accumulate(tmp, tmp + spaceDim, (mcIdType)0);
 }
 
 mcIdType
@@ -1604,7 +1604,7 @@ MEDCouplingStructuredMesh::getLocationFromCellId(mcIdType cellId) const
     int meshDim(getMeshDimension());
     std::vector<mcIdType> ret(meshDim);
     std::vector<mcIdType> struc(getCellGridStructure());
-    mcIdType nbCells(std::accumulate(struc.begin(), struc.end(), 1, std::multiplies<mcIdType>()));
+    mcIdType nbCells(std::accumulate(struc.begin(), struc.end(), (mcIdType)1, std::multiplies<mcIdType>()));
     if (cellId < 0 || cellId >= nbCells)
     {
         std::ostringstream oss;
@@ -1630,7 +1630,7 @@ MEDCouplingStructuredMesh::getLocationFromNodeId(mcIdType nodeId) const
     int spaceDim(getSpaceDimension());
     std::vector<mcIdType> ret(spaceDim);
     std::vector<mcIdType> struc(getNodeGridStructure());
-    mcIdType nbNodes(std::accumulate(struc.begin(), struc.end(), 1, std::multiplies<mcIdType>()));
+    mcIdType nbNodes(std::accumulate(struc.begin(), struc.end(), (mcIdType)1, std::multiplies<mcIdType>()));
     if (nodeId < 0 || nodeId >= nbNodes)
     {
         std::ostringstream oss;
diff --git a/src/MEDCoupling_Swig/DataArrayInt.i b/src/MEDCoupling_Swig/DataArrayInt.i
index 7622be2..5736a0d 100644
--- a/src/MEDCoupling_Swig/DataArrayInt.i
+++ b/src/MEDCoupling_Swig/DataArrayInt.i
@@ -31,8 +31,8 @@
   public:
     static ARRAY *New();
     INT intValue() const;
-    INT getHashCode() const;
-    INT getHashCode2() const;
+    mcIdType getHashCode() const;
+    mcIdType getHashCode2() const;
     bool empty() const;
     void aggregate(const ARRAY *other);
     ARRAY *performCopyOrIncrRef(bool deepCopy) const;
@@ -885,7 +885,7 @@
               ret=self->selectByTupleIdSafe(&it1,&it1+1);
               mcIdType nbOfComp=DataArray::GetNumberOfItemGivenBESRelative(pc1.first,pc1.second.first,pc1.second.second,msg2);
               std::vector<std::size_t> v2(nbOfComp);
-              for(INT i=0;i<nbOfComp;i++)
+              for(mcIdType i=0;i<nbOfComp;i++)
                 v2[i]=pc1.first+i*pc1.second.second;
               return SWIG_NewPointerObj(SWIG_as_voidptr(ret->keepSelectedComponents(v2)),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 );
             }
@@ -894,7 +894,7 @@
               ret=self->selectByTupleIdSafe(&vt1[0],&vt1[0]+vt1.size());
               mcIdType nbOfComp=DataArray::GetNumberOfItemGivenBESRelative(pc1.first,pc1.second.first,pc1.second.second,msg2);
               std::vector<std::size_t> v2(nbOfComp);
-              for(INT i=0;i<nbOfComp;i++)
+              for(mcIdType i=0;i<nbOfComp;i++)
                 v2[i]=pc1.first+i*pc1.second.second;
               return SWIG_NewPointerObj(SWIG_as_voidptr(ret->keepSelectedComponents(v2)),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 );
             }
@@ -912,7 +912,7 @@
               ret=self->selectByTupleIdSafe(dt1->getConstPointer(),dt1->getConstPointer()+dt1->getNbOfElems());
               mcIdType nbOfComp=DataArray::GetNumberOfItemGivenBESRelative(pc1.first,pc1.second.first,pc1.second.second,msg2);
               std::vector<std::size_t> v2(nbOfComp);
-              for(INT i=0;i<nbOfComp;i++)
+              for(mcIdType i=0;i<nbOfComp;i++)
                 v2[i]=pc1.first+i*pc1.second.second;
               return SWIG_NewPointerObj(SWIG_as_voidptr(ret->keepSelectedComponents(v2)),SWIGTITraits<INT>::TI, SWIG_POINTER_OWN | 0 );
             }
@@ -2453,7 +2453,7 @@
             {
               mcIdType sz=DataArray::GetNumberOfItemGivenBES(slic.first,slic.second.first,slic.second.second,msg2);
               PyObject *t=PyTuple_New(sz);
-              for(INT j=0;j<sz;j++)
+              for(mcIdType j=0;j<sz;j++)
                 PyTuple_SetItem(t,j,PyInt_FromLong(pt[slic.first+j*slic.second.second]));
               return t;
             }
diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index 28db673..6e06abb 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -758,8 +758,8 @@ namespace MEDCoupling
     virtual void copyTinyInfoFrom(const MEDCouplingMesh *other);
     virtual void checkConsistencyLight() const;
     virtual void checkConsistency(double eps=1e-12) const;
-    virtual int getNumberOfCells() const;
-    virtual int getNumberOfNodes() const;
+    virtual mcIdType getNumberOfCells() const;
+    virtual mcIdType getNumberOfNodes() const;
     virtual int getSpaceDimension() const;
     virtual int getMeshDimension() const;
     virtual DataArrayDouble *getCoordinatesAndOwner() const;
@@ -770,7 +770,7 @@ namespace MEDCoupling
     virtual DataArrayIdType *computeNbOfFacesPerCell() const;
     virtual DataArrayIdType *computeEffectiveNbOfNodesPerCell() const;
     virtual MEDCouplingMesh *buildPartRange(int beginCellIds, int endCellIds, int stepCellIds) const;
-    virtual int getNumberOfCellsWithType(INTERP_KERNEL::NormalizedCellType type) const;
+    virtual mcIdType getNumberOfCellsWithType(INTERP_KERNEL::NormalizedCellType type) const;
     virtual INTERP_KERNEL::NormalizedCellType getTypeOfCell(int cellId) const;
     virtual std::string simpleRepr() const;
     virtual std::string advancedRepr() const;
@@ -1379,9 +1379,9 @@ namespace MEDCoupling
     void set( DataArrayIdType* index, DataArrayIdType* value );
     void set3( DataArrayIdType* superIndex, DataArrayIdType* index, DataArrayIdType* value );
 
-    int getSuperNumberOf() const;
-    int getNumberOf() const;
-    int getLength() const;
+    mcIdType getSuperNumberOf() const;
+    mcIdType getNumberOf() const;
+    mcIdType getLength() const;
 
     void deletePack(const int i, const int j);
 
@@ -2106,7 +2106,7 @@ namespace MEDCoupling
   {
   public:
     INTERP_KERNEL::NormalizedCellType getType() const;
-    int getNumberOfElems() const;
+    mcIdType getNumberOfElems() const;
     %extend
       {
         MEDCouplingUMeshCellIterator *__iter__()
@@ -2132,7 +2132,7 @@ namespace MEDCoupling
     void setConnectivity(DataArrayIdType *conn, DataArrayIdType *connIndex, bool isComputingTypes=true);
     INTERP_KERNEL::NormalizedCellType getTypeOfCell(int cellId) const;
     void setPartOfMySelfSlice(int start, int end, int step, const MEDCouplingUMesh& otherOnSameCoordsThanThis);
-    int getNodalConnectivityArrayLen() const;
+    mcIdType getNodalConnectivityArrayLen() const;
     void computeTypes();
     std::string reprConnectivityOfThis() const;
     MEDCouplingUMesh *buildSetInstanceFromThis(int spaceDim) const;
@@ -2189,7 +2189,7 @@ namespace MEDCoupling
     void orientCorrectly2DCells(const MEDCouplingUMesh *refFaces);
     void orientCorrectly3DCells();
     DataArrayDouble *computeCellCenterOfMassWithPrecision(double eps);
-    int split2DCells(const DataArrayIdType *desc, const DataArrayIdType *descI, const DataArrayIdType *subNodesInSeg, const DataArrayIdType *subNodesInSegI, const DataArrayIdType *midOpt=0, const DataArrayIdType *midOptI=0);
+    mcIdType split2DCells(const DataArrayIdType *desc, const DataArrayIdType *descI, const DataArrayIdType *subNodesInSeg, const DataArrayIdType *subNodesInSegI, const DataArrayIdType *midOpt=0, const DataArrayIdType *midOptI=0);
     static MEDCouplingUMesh *Build0DMeshFromCoords(DataArrayDouble *da);
     static MEDCouplingUMesh *MergeUMeshes(const MEDCouplingUMesh *mesh1, const MEDCouplingUMesh *mesh2);
     static MEDCouplingUMesh *MergeUMeshesOnSameCoords(const MEDCouplingUMesh *mesh1, const MEDCouplingUMesh *mesh2);
@@ -3215,7 +3215,7 @@ namespace MEDCoupling
     static MEDCoupling1GTUMesh *New(const std::string& name, INTERP_KERNEL::NormalizedCellType type);
     static MEDCoupling1GTUMesh *New(const MEDCouplingUMesh *m);
     INTERP_KERNEL::NormalizedCellType getCellModelEnum() const;
-    int getNodalConnectivityLength() const;
+    mcIdType getNodalConnectivityLength() const;
     virtual void allocateCells(int nbOfCells=0);
     virtual void checkConsistencyOfConnectivity() const;
     %extend
@@ -4259,8 +4259,8 @@ namespace MEDCoupling
     void applyLin(double a, double b, int compoId);
     void applyLin(double a, double b);
     int getNumberOfComponents() const;
-    int getNumberOfTuples() const;
-    int getNumberOfValues() const;
+    mcIdType getNumberOfTuples() const;
+    mcIdType getNumberOfValues() const;
     void setTimeTolerance(double val);
     double getTimeTolerance() const;
     void setIteration(int it);
@@ -4475,7 +4475,7 @@ namespace MEDCoupling
         double v0; MEDCoupling::DataArrayDouble *v1(0); MEDCoupling::DataArrayDoubleTuple *v2(0); std::vector<double> v3;
         const double *inp=convertObjToPossibleCpp5_Safe2(locs,sw,v0,v1,v2,v3,"wrap of MEDCouplingFieldDouble::getValueOnMulti",
                                                          mesh->getSpaceDimension(),true,nbPts);
-        return self->getValueOnMulti(inp,(int)nbPts);
+        return self->getValueOnMulti(inp,nbPts);
       }
 
       PyObject *getValueOn(PyObject *sl, double time) const
@@ -5829,8 +5829,8 @@ namespace MEDCoupling
   class MEDCouplingCartesianAMRPatchGen : public RefCountObject
   {
   public:
-    int getNumberOfCellsRecursiveWithOverlap() const;
-    int getNumberOfCellsRecursiveWithoutOverlap() const;
+    mcIdType getNumberOfCellsRecursiveWithOverlap() const;
+    mcIdType getNumberOfCellsRecursiveWithoutOverlap() const;
     int getMaxNumberOfLevelsRelativeToThis() const;
     %extend
     {
@@ -5847,7 +5847,7 @@ namespace MEDCoupling
   class MEDCouplingCartesianAMRPatch : public MEDCouplingCartesianAMRPatchGen
   {
   public:
-    int getNumberOfOverlapedCellsForFather() const;
+    mcIdType getNumberOfOverlapedCellsForFather() const;
     bool isInMyNeighborhood(const MEDCouplingCartesianAMRPatch *other, int ghostLev) const;
     std::vector<mcIdType> computeCellGridSt() const;
     %extend
diff --git a/src/MEDCoupling_Swig/MEDCouplingDataArrayTypemaps.i b/src/MEDCoupling_Swig/MEDCouplingDataArrayTypemaps.i
index cbc13c3..0a9660b 100644
--- a/src/MEDCoupling_Swig/MEDCouplingDataArrayTypemaps.i
+++ b/src/MEDCoupling_Swig/MEDCouplingDataArrayTypemaps.i
@@ -126,11 +126,11 @@ void GetIndicesOfSliceExplicitely(PyObject *slice, Py_ssize_t *start, Py_ssize_t
   throw INTERP_KERNEL::Exception(msgInCaseOfFailure);
 }
 
-int InterpreteNegativeInt(long val, mcIdType nbelem)
+mcIdType InterpreteNegativeInt(long val, mcIdType nbelem)
 {
   if(val<0)
     {
-      int newVal((int)(nbelem+val));
+      mcIdType newVal(nbelem+val);
       if(newVal<0)
         {
           std::ostringstream oss; oss << "interpreteNegativeInt : request for negative int=" << val << " but number of elems is equal to " << nbelem << " !";
@@ -139,7 +139,7 @@ int InterpreteNegativeInt(long val, mcIdType nbelem)
       return newVal;
     }
   else
-    return (int)val;
+    return val;
 }
 
 #ifdef WITH_NUMPY
@@ -496,7 +496,7 @@ template<class T>
 static PyObject *convertIntArrToPyList(const T *ptr, mcIdType size)
 {
   PyObject *ret=PyList_New(size);
-  for(T i=0;i<size;i++)
+  for(mcIdType i=0;i<size;i++)
     PyList_SetItem(ret,i,PyInt_FromLong(ptr[i]));
   return ret;
 }
@@ -564,10 +564,10 @@ template<class T>
 static PyObject *convertIntArrToPyListOfTuple(const T *vals, mcIdType nbOfComp, mcIdType nbOfTuples)
 {
   PyObject *ret=PyList_New(nbOfTuples);
-  for(T i=0;i<nbOfTuples;i++)
+  for(mcIdType i=0;i<nbOfTuples;i++)
     {
       PyObject *t=PyTuple_New(nbOfComp);
-      for(T j=0;j<nbOfComp;j++)
+      for(mcIdType j=0;j<nbOfComp;j++)
         PyTuple_SetItem(t,j,PyInt_FromLong(vals[i*nbOfComp+j]));
       PyList_SetItem(ret,i,t);
     }
@@ -3126,7 +3126,7 @@ PyObject *DataArrayT__getitem__internal(const typename MEDCoupling::Traits<T>::A
         ret=self->selectByTupleIdSafe(&vt1[0],&vt1[0]+vt1.size());
         mcIdType nbOfComp(MEDCoupling::DataArray::GetNumberOfItemGivenBESRelative(pc1.first,pc1.second.first,pc1.second.second,msg2));
         std::vector<std::size_t> v2(nbOfComp);
-        for(int i=0;i<nbOfComp;i++)
+        for(mcIdType i=0;i<nbOfComp;i++)
           v2[i]=pc1.first+i*pc1.second.second;
         return SWIG_NewPointerObj(SWIG_as_voidptr(ret->keepSelectedComponents(v2)),ti, SWIG_POINTER_OWN | 0 );
       }
@@ -3135,7 +3135,7 @@ PyObject *DataArrayT__getitem__internal(const typename MEDCoupling::Traits<T>::A
         ret=self->selectByTupleIdSafeSlice(pt1.first,pt1.second.first,pt1.second.second);
         mcIdType nbOfComp(MEDCoupling::DataArray::GetNumberOfItemGivenBESRelative(pc1.first,pc1.second.first,pc1.second.second,msg2));
         std::vector<std::size_t> v2(nbOfComp);
-        for(int i=0;i<nbOfComp;i++)
+        for(mcIdType i=0;i<nbOfComp;i++)
           v2[i]=pc1.first+i*pc1.second.second;
         return SWIG_NewPointerObj(SWIG_as_voidptr(ret->keepSelectedComponents(v2)),ti, SWIG_POINTER_OWN | 0 );
       }
@@ -3144,7 +3144,7 @@ PyObject *DataArrayT__getitem__internal(const typename MEDCoupling::Traits<T>::A
         ret=self->selectByTupleIdSafe(dt1->getConstPointer(),dt1->getConstPointer()+dt1->getNbOfElems());
         mcIdType nbOfComp(MEDCoupling::DataArray::GetNumberOfItemGivenBESRelative(pc1.first,pc1.second.first,pc1.second.second,msg2));
         std::vector<std::size_t> v2(nbOfComp);
-        for(int i=0;i<nbOfComp;i++)
+        for(mcIdType i=0;i<nbOfComp;i++)
           v2[i]=pc1.first+i*pc1.second.second;
         return SWIG_NewPointerObj(SWIG_as_voidptr(ret->keepSelectedComponents(v2)),ti, SWIG_POINTER_OWN | 0 );
       }
@@ -3184,7 +3184,7 @@ void convertCSR_MCDataToVectMapIntDouble(const MEDCoupling::DataArrayInt32 *indp
   auto indPtrCPtr(indptrPtr->begin());
   auto indicesCPtr(indicesPtr->begin());
   auto dataCPtr(dataPtr->begin());
-  for(auto i=0;i<nbOfRows;i++)
+  for(mcIdType i=0;i<nbOfRows;i++)
     {
       auto& line(mCpp[i]);
       for(auto j=indPtrCPtr[i];j<indPtrCPtr[i+1];j++)
diff --git a/src/MEDCoupling_Swig/MEDCouplingFieldDiscretization.i b/src/MEDCoupling_Swig/MEDCouplingFieldDiscretization.i
index 92dbc11..f94d7a1 100644
--- a/src/MEDCoupling_Swig/MEDCouplingFieldDiscretization.i
+++ b/src/MEDCoupling_Swig/MEDCouplingFieldDiscretization.i
@@ -48,8 +48,8 @@ namespace MEDCoupling
     virtual MEDCouplingFieldDiscretization *clonePartRange(int beginCellIds, int endCellIds, int stepCellIds) const;
     virtual std::string getStringRepr() const;
     virtual const char *getRepr() const;
-    virtual int getNumberOfTuples(const MEDCouplingMesh *mesh) const;
-    virtual int getNumberOfMeshPlaces(const MEDCouplingMesh *mesh) const;
+    virtual mcIdType getNumberOfTuples(const MEDCouplingMesh *mesh) const;
+    virtual mcIdType getNumberOfMeshPlaces(const MEDCouplingMesh *mesh) const;
     virtual DataArrayIdType *getOffsetArr(const MEDCouplingMesh *mesh) const;
     virtual DataArrayDouble *getLocalizationOfDiscValues(const MEDCouplingMesh *mesh) const;
     virtual void checkCompatibilityWithNature(NatureOfField nat) const;
@@ -61,7 +61,7 @@ namespace MEDCoupling
     virtual void clearGaussLocalizations();
     virtual MEDCouplingGaussLocalization& getGaussLocalization(int locId);
     virtual int getNbOfGaussLocalization() const;
-    virtual int getGaussLocalizationIdOfOneCell(int cellId) const;
+    virtual mcIdType getGaussLocalizationIdOfOneCell(int cellId) const;
     virtual int getGaussLocalizationIdOfOneType(INTERP_KERNEL::NormalizedCellType type) const;
     %extend
     {
diff --git a/src/MEDCoupling_Swig/MEDCouplingMemArray.i b/src/MEDCoupling_Swig/MEDCouplingMemArray.i
index 1312c2d..2f2dcef 100644
--- a/src/MEDCoupling_Swig/MEDCouplingMemArray.i
+++ b/src/MEDCoupling_Swig/MEDCouplingMemArray.i
@@ -391,7 +391,7 @@ typedef DataArrayInt64 DataArrayIdType;
     static PartDefinition *New(int start, int stop, int step);
     static PartDefinition *New(DataArrayIdType *listOfIds);
     virtual DataArrayIdType *toDAI() const;
-    virtual int getNumberOfElems() const;
+    virtual mcIdType getNumberOfElems() const;
     virtual std::string getRepr() const;
     virtual PartDefinition *composeWith(const PartDefinition *other) const;
     virtual void checkConsistencyLight() const;
@@ -455,7 +455,7 @@ typedef DataArrayInt64 DataArrayIdType;
   {
   public:
     static SlicePartDefinition *New(int start, int stop, int step);
-    int getEffectiveStop() const;
+    mcIdType getEffectiveStop() const;
     %extend
     {
       SlicePartDefinition(mcIdType start, mcIdType stop, mcIdType step)
@@ -511,7 +511,7 @@ typedef DataArrayInt64 DataArrayIdType;
     virtual bool isAllocated() const;
     virtual void checkAllocated() const;
     virtual void desallocate();
-    virtual int getNumberOfTuples() const;
+    virtual mcIdType getNumberOfTuples() const;
     virtual std::size_t getNbOfElems() const;
     virtual std::size_t getNbOfElemAllocated() const;
     virtual DataArray *deepCopy() const;
@@ -527,9 +527,9 @@ typedef DataArrayInt64 DataArrayIdType;
     void checkNbOfTuplesAndComp(const DataArray& other, const std::string& msg) const;
     void checkNbOfTuplesAndComp(int nbOfTuples, int nbOfCompo, const std::string& msg) const;
     void checkNbOfElems(mcIdType nbOfElems, const std::string& msg) const;
-    static int GetNumberOfItemGivenBES(int begin, int end, int step, const std::string& msg);
-    static int GetNumberOfItemGivenBESRelative(int begin, int end, int step, const std::string& msg);
-    static int GetPosOfItemGivenBESRelativeNoThrow(int value, int begin, int end, int step);
+    static mcIdType GetNumberOfItemGivenBES(int begin, int end, int step, const std::string& msg);
+    static mcIdType GetNumberOfItemGivenBESRelative(int begin, int end, int step, const std::string& msg);
+    static mcIdType GetPosOfItemGivenBESRelativeNoThrow(int value, int begin, int end, int step);
     static std::string GetVarNameFromInfo(const std::string& info);
     static std::string GetUnitFromInfo(const std::string& info);
     static std::string BuildInfoFromVarAndUnit(const std::string& var, const std::string& unit);
@@ -2421,7 +2421,7 @@ typedef DataArrayInt64 DataArrayIdType;
   {
   public:
     virtual DataArrayChar *buildEmptySpecializedDAChar() const;
-    int getHashCode() const;
+    mcIdType getHashCode() const;
     bool empty() const;
     void deepCopyFrom(const DataArrayChar& other);
     void reserve(std::size_t nbOfElems);
-- 
2.43.0


From c2b3c57c4dbff7c7d959bce514e5893f51913538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:58 +0000
Subject: [PATCH 30/50] fix: a counter of partitions and the 2D cell of an
 extruded mesh seen from Python were kept on 32 bits

---
 src/MEDCoupling/MEDCouplingMemArray.txx  | 2 +-
 src/MEDCoupling_Swig/MEDCouplingCommon.i | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index c18dc90..0e66bfb 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -9496,7 +9496,7 @@ DataArrayDiscrete<T>::MakePartition(
 
     mcIdType nextPartitionId(1);
 
-    for (int e = 0; e < N; ++e)
+    for (mcIdType e = 0; e < N; ++e)
     {
         auto it = partitionMap.find(signatures[e]);
         if (it == partitionMap.end())
diff --git a/src/MEDCoupling_Swig/MEDCouplingCommon.i b/src/MEDCoupling_Swig/MEDCouplingCommon.i
index 6e06abb..e87e3d2 100644
--- a/src/MEDCoupling_Swig/MEDCouplingCommon.i
+++ b/src/MEDCoupling_Swig/MEDCouplingCommon.i
@@ -3154,7 +3154,7 @@ namespace MEDCoupling
     static MEDCouplingMappedExtrudedMesh *New(const MEDCouplingUMesh *mesh3D, const MEDCouplingUMesh *mesh2D, int cell2DId);
     static MEDCouplingMappedExtrudedMesh *New(const MEDCouplingCMesh *mesh3D);
     MEDCouplingUMesh *build3DUnstructuredMesh() const;
-    int get2DCellIdForExtrusion() const;
+    mcIdType get2DCellIdForExtrusion() const;
     %extend {
       MEDCouplingMappedExtrudedMesh(const MEDCouplingUMesh *mesh3D, const MEDCouplingUMesh *mesh2D, mcIdType cell2DId)
       {
-- 
2.43.0


From 20aa5a1270dc41d6076da89c62e2ea538955b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:20 +0000
Subject: [PATCH 31/50] fix: height of a triangle whose first and third nodes
 are equal was written outside the result

---
 src/INTERP_KERNEL/VolSurfUser.txx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/VolSurfUser.txx b/src/INTERP_KERNEL/VolSurfUser.txx
index 7d4a305..3cdf096 100644
--- a/src/INTERP_KERNEL/VolSurfUser.txx
+++ b/src/INTERP_KERNEL/VolSurfUser.txx
@@ -630,7 +630,7 @@ ComputeTriangleHeight(const double *PA, const double *PB, const double *PC, doub
     if (BC / maxLength <= EPS)
         res[1] = CA;
     if (CA / maxLength <= EPS)
-        res[3] = AB;
+        res[2] = AB;
 }
 }  // namespace INTERP_KERNEL
 
-- 
2.43.0


From e70355093ccb666d6e901ee400b979ddacc9c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:32 +0000
Subject: [PATCH 32/50] fix: area in 3D of a cell that is not convex was too
 large

---
 src/INTERP_KERNEL/VolSurfFormulae.hxx | 50 ++++++++++++++++++---------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/src/INTERP_KERNEL/VolSurfFormulae.hxx b/src/INTERP_KERNEL/VolSurfFormulae.hxx
index d68711e..b52cfad 100644
--- a/src/INTERP_KERNEL/VolSurfFormulae.hxx
+++ b/src/INTERP_KERNEL/VolSurfFormulae.hxx
@@ -116,23 +116,23 @@ calculateAreaForQuad(const double *p1, const double *p2, const double *p3, const
     }
     else
     {
-        area = (sqrt(
-                    ((p2[1] - p1[1]) * (p4[2] - p1[2]) - (p4[1] - p1[1]) * (p2[2] - p1[2])) *
-                        ((p2[1] - p1[1]) * (p4[2] - p1[2]) - (p4[1] - p1[1]) * (p2[2] - p1[2])) +
-                    ((p4[0] - p1[0]) * (p2[2] - p1[2]) - (p2[0] - p1[0]) * (p4[2] - p1[2])) *
-                        ((p4[0] - p1[0]) * (p2[2] - p1[2]) - (p2[0] - p1[0]) * (p4[2] - p1[2])) +
-                    ((p2[0] - p1[0]) * (p4[1] - p1[1]) - (p4[0] - p1[0]) * (p2[1] - p1[1])) *
-                        ((p2[0] - p1[0]) * (p4[1] - p1[1]) - (p4[0] - p1[0]) * (p2[1] - p1[1]))
-                ) +
-                sqrt(
-                    ((p4[1] - p3[1]) * (p2[2] - p3[2]) - (p2[1] - p3[1]) * (p4[2] - p3[2])) *
-                        ((p4[1] - p3[1]) * (p2[2] - p3[2]) - (p2[1] - p3[1]) * (p4[2] - p3[2])) +
-                    ((p2[0] - p3[0]) * (p4[2] - p3[2]) - (p4[0] - p3[0]) * (p2[2] - p3[2])) *
-                        ((p2[0] - p3[0]) * (p4[2] - p3[2]) - (p4[0] - p3[0]) * (p2[2] - p3[2])) +
-                    ((p4[0] - p3[0]) * (p2[1] - p3[1]) - (p2[0] - p3[0]) * (p4[1] - p3[1])) *
-                        ((p4[0] - p3[0]) * (p2[1] - p3[1]) - (p2[0] - p3[0]) * (p4[1] - p3[1]))
-                )) /
-               2.0;
+        // the cell is cut along p2-p4; the two triangles have opposite orientations when the cell is not convex at p1 or p3
+        double n1[3] = {
+            (p2[1] - p1[1]) * (p4[2] - p1[2]) - (p4[1] - p1[1]) * (p2[2] - p1[2]),
+            (p4[0] - p1[0]) * (p2[2] - p1[2]) - (p2[0] - p1[0]) * (p4[2] - p1[2]),
+            (p2[0] - p1[0]) * (p4[1] - p1[1]) - (p4[0] - p1[0]) * (p2[1] - p1[1])
+        };
+        double n2[3] = {
+            (p4[1] - p3[1]) * (p2[2] - p3[2]) - (p2[1] - p3[1]) * (p4[2] - p3[2]),
+            (p2[0] - p3[0]) * (p4[2] - p3[2]) - (p4[0] - p3[0]) * (p2[2] - p3[2]),
+            (p4[0] - p3[0]) * (p2[1] - p3[1]) - (p2[0] - p3[0]) * (p4[1] - p3[1])
+        };
+        double a1 = sqrt(n1[0] * n1[0] + n1[1] * n1[1] + n1[2] * n1[2]);
+        double a2 = sqrt(n2[0] * n2[0] + n2[1] * n2[1] + n2[2] * n2[2]);
+        if (n1[0] * n2[0] + n1[1] * n2[1] + n1[2] * n2[2] < 0.)
+            area = fabs(a1 - a2) / 2.0;
+        else
+            area = (a1 + a2) / 2.0;
     }
 
     return area;
@@ -213,9 +213,25 @@ calculateAreaForPolyg(const double **coords, mcIdType nbOfPtsInPolygs, int space
     double coordOfBary[3];
 
     calculateBarycenterDyn(coords, nbOfPtsInPolygs, spaceDim, coordOfBary);
+    // in 3D triangles have no sign : it is given by the normal of the whole polygon, so that polygons may be non convex
+    double normal[3] = {0., 0., 0.}, normalOfTria[3];
+    if (spaceDim == 3)
+    {
+        for (mcIdType i = 0; i < nbOfPtsInPolygs; i++)
+        {
+            calculateNormalForTria(coords[i], coords[(i + 1) % nbOfPtsInPolygs], coordOfBary, normalOfTria);
+            for (int j = 0; j < 3; j++) normal[j] += normalOfTria[j];
+        }
+    }
     for (mcIdType i = 0; i < nbOfPtsInPolygs; i++)
     {
         double tmp = calculateAreaForTria(coords[i], coords[(i + 1) % nbOfPtsInPolygs], coordOfBary, spaceDim);
+        if (spaceDim == 3)
+        {
+            calculateNormalForTria(coords[i], coords[(i + 1) % nbOfPtsInPolygs], coordOfBary, normalOfTria);
+            if (normal[0] * normalOfTria[0] + normal[1] * normalOfTria[1] + normal[2] * normalOfTria[2] < 0.)
+                tmp = -tmp;
+        }
         ret += tmp;
     }
     return ret;
-- 
2.43.0


From 490eb9d5cc36854737c1fff03bdf17608f6c8756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:41 +0000
Subject: [PATCH 33/50] fix: centre of a polyhedron was lost when a face
 without area came before the others

---
 src/INTERP_KERNEL/VolSurfFormulae.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/INTERP_KERNEL/VolSurfFormulae.hxx b/src/INTERP_KERNEL/VolSurfFormulae.hxx
index b52cfad..2e19c2f 100644
--- a/src/INTERP_KERNEL/VolSurfFormulae.hxx
+++ b/src/INTERP_KERNEL/VolSurfFormulae.hxx
@@ -631,7 +631,10 @@ barycenterOfPolyhedron(const ConnType *connec, mcIdType lgth, const double *coor
         areaVectorOfPolygon<ConnType, numPol>(work, nbOfNodesOfCurFace, coords, normal);
         double normOfNormal = sqrt(normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2]);
         if (normOfNormal < std::numeric_limits<double>::min())
+        {
+            work = work2 + 1;
             continue;
+        }
         normal[0] /= normOfNormal;
         normal[1] /= normOfNormal;
         normal[2] /= normOfNormal;
@@ -705,7 +708,10 @@ barycenterOfPolyhedron(const ConnType *connec, mcIdType lgth, const double *coor
             areaVectorOfPolygon<ConnType, numPol>(work, nbOfNodesOfCurFace, coords, normal);
             double normOfNormal = sqrt(normal[0] * normal[0] + normal[1] * normal[1] + normal[2] * normal[2]);
             if (normOfNormal < std::numeric_limits<double>::min())
+            {
+                work = work2 + 1;
                 continue;
+            }
             sum += normOfNormal;
             double tmpBary[3];
             computePolygonBarycenter3D<ConnType, numPol>(work, nbOfNodesOfCurFace, coords, tmpBary);
-- 
2.43.0


From 56dfcc6ae32c54fa5b3a58e3a88bbf946230533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:41 +0000
Subject: [PATCH 34/50] fix: normals of 3D cells that are not convex could be
 turned the wrong way

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 29 +++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index 7c60c4a..ea55486 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -4469,6 +4469,21 @@ MEDCouplingUMesh::getMeasureFieldOnNode(bool isAbs) const
     return ret.retn();
 }
 
+namespace
+{
+/*!
+ * Area vector of the 2D cell in 3D space whose type and nodes are in [ \a begin , \a end ). Middle nodes are ignored.
+ * Contrary to the cross product of an edge with the center of the cell, it is right for non convex cells.
+ */
+void
+AreaVectorOfCell2D(const mcIdType *begin, const mcIdType *end, const double *coords, double *res)
+{
+    const INTERP_KERNEL::CellModel &cm(INTERP_KERNEL::CellModel::GetCellModel((INTERP_KERNEL::NormalizedCellType)*begin));
+    mcIdType nbOfCorners(ToIdType(cm.getNumberOfSons2(begin + 1, ToIdType(std::distance(begin, end)) - 1)));
+    INTERP_KERNEL::areaVectorOfPolygon<mcIdType, INTERP_KERNEL::ALL_C_MODE>(begin + 1, nbOfCorners, coords, res);
+}
+}  // namespace
+
 /*!
  * Returns a new MEDCouplingFieldDouble holding normal vectors to cells of \a this
  * mesh. The returned normal vectors to each cell have a norm2 equal to 1.
@@ -4506,14 +4521,9 @@ MEDCouplingUMesh::buildOrthogonalField() const
     {
         if (getSpaceDimension() == 3)
         {
-            MCAuto<DataArrayDouble> loc = computeCellCenterOfMass();
-            const double *locPtr = loc->getConstPointer();
             for (mcIdType i = 0; i < nbOfCells; i++, vals += 3)
             {
-                mcIdType offset = connI[i];
-                INTERP_KERNEL::crossprod<3>(
-                    locPtr + 3 * i, coords + 3 * conn[offset + 1], coords + 3 * conn[offset + 2], vals
-                );
+                AreaVectorOfCell2D(conn + connI[i], conn + connI[i + 1], coords, vals);
                 double n = INTERP_KERNEL::norm<3>(vals);
                 std::transform(
                     vals, vals + 3, vals, std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / n)
@@ -4602,12 +4612,9 @@ MEDCouplingUMesh::buildPartOrthogonalField(const mcIdType *begin, const mcIdType
     {
         if (getSpaceDimension() == 3)
         {
-            MCAuto<DataArrayDouble> loc = getPartBarycenterAndOwner(begin, end);
-            const double *locPtr = loc->getConstPointer();
-            for (const mcIdType *i = begin; i != end; i++, vals += 3, locPtr += 3)
+            for (const mcIdType *i = begin; i != end; i++, vals += 3)
             {
-                mcIdType offset = connI[*i];
-                INTERP_KERNEL::crossprod<3>(locPtr, coords + 3 * conn[offset + 1], coords + 3 * conn[offset + 2], vals);
+                AreaVectorOfCell2D(conn + connI[*i], conn + connI[*i + 1], coords, vals);
                 double n = INTERP_KERNEL::norm<3>(vals);
                 std::transform(
                     vals, vals + 3, vals, std::bind(std::multiplies<double>(), std::placeholders::_1, 1. / n)
-- 
2.43.0


From f0c40f828eef8d603dd2c44b6f54f51462a7b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:41 +0000
Subject: [PATCH 35/50] fix: normals of a part of a 2D mesh did not follow the
 orientation of the cells

---
 src/MEDCoupling/MEDCouplingUMesh.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingUMesh.cxx b/src/MEDCoupling/MEDCouplingUMesh.cxx
index ea55486..48af907 100644
--- a/src/MEDCoupling/MEDCouplingUMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingUMesh.cxx
@@ -4623,11 +4623,13 @@ MEDCouplingUMesh::buildPartOrthogonalField(const mcIdType *begin, const mcIdType
         }
         else
         {
+            MCAuto<DataArrayDouble> measure(getPartMeasureField(false, begin, end));
+            const double *measurePtr(measure->begin());
             for (std::size_t i = 0; i < nbelems; i++)
             {
                 vals[3 * i] = 0.;
                 vals[3 * i + 1] = 0.;
-                vals[3 * i + 2] = 1.;
+                vals[3 * i + 2] = measurePtr[i] > 0. ? 1. : -1.;
             }
         }
     }
-- 
2.43.0


From 070232f35f30248467762f96bce01d96491bd6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:09 +0000
Subject: [PATCH 36/50] fix: centre of small polygons in 3D was lost

---
 src/INTERP_KERNEL/VolSurfFormulae.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/INTERP_KERNEL/VolSurfFormulae.hxx b/src/INTERP_KERNEL/VolSurfFormulae.hxx
index 2e19c2f..5e94a71 100644
--- a/src/INTERP_KERNEL/VolSurfFormulae.hxx
+++ b/src/INTERP_KERNEL/VolSurfFormulae.hxx
@@ -535,7 +535,7 @@ computePolygonBarycenter3D(const ConnType *connec, mcIdType lgth, const double *
             ConnType tmpConn[3] = {connec[0], connec[i], connec[i + 1]};
             areaVectorOfPolygon<ConnType, numPol>(tmpConn, 3, coords, tmpArea);
             double norm2 = sqrt(tmpArea[0] * tmpArea[0] + tmpArea[1] * tmpArea[1] + tmpArea[2] * tmpArea[2]);
-            if (norm2 > 1e-12)
+            if (norm2 > std::numeric_limits<double>::min())
             {
                 tmpArea[0] /= norm2;
                 tmpArea[1] /= norm2;
-- 
2.43.0


From 45ec9aa355af678e819e49b878f8a9649001fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:11 +0000
Subject: [PATCH 37/50] fix: selectByTupleIdSafeSlice read outside the array
 when the slice left it

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 0e66bfb..840b0e6 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -1700,6 +1700,16 @@ DataArrayTemplate<T>::mySelectByTupleIdSafeSlice(mcIdType bg, mcIdType end2, mcI
     std::ostringstream oss;
     oss << Traits<T>::ArrayTypeName << "::selectByTupleIdSafeSlice : ";
     mcIdType newNbOfTuples(GetNumberOfItemGivenBESRelative(bg, end2, step, oss.str()));
+    if (newNbOfTuples > 0)
+    {
+        const mcIdType nbTuples(getNumberOfTuples()), last(bg + (newNbOfTuples - 1) * step);
+        if (bg < 0 || bg >= nbTuples || last < 0 || last >= nbTuples)
+        {
+            oss << "the slice (" << bg << "," << end2 << "," << step << ") selects tuples that are not in [0,"
+                << nbTuples << ") !";
+            throw INTERP_KERNEL::Exception(oss.str().c_str());
+        }
+    }
     ret->alloc(newNbOfTuples, nbComp);
     T *pt(ret->getPointer());
     const T *srcPt(getConstPointer() + bg * nbComp);
-- 
2.43.0


From af37ed190d39c94fb302cd6e9314c6b0f8671dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:11 +0000
Subject: [PATCH 38/50] fix: subArray with an end before the start wrote
 through a null pointer

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 840b0e6..d85dd0d 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -1665,6 +1665,13 @@ DataArrayTemplate<T>::subArray(mcIdType tupleIdBg, mcIdType tupleIdEnd) const
     }
     else
         trueEnd = nbt;
+    if (trueEnd < tupleIdBg)
+    {
+        std::ostringstream oss;
+        oss << Traits<T>::ArrayTypeName << "::subArray : last tuple requested (" << tupleIdEnd
+            << ") is before the first one (" << tupleIdBg << ") !";
+        throw INTERP_KERNEL::Exception(oss.str().c_str());
+    }
     std::size_t nbComp = getNumberOfComponents();
     MCAuto<DataArray> ret0(buildNewEmptyInstance());
     MCAuto<typename Traits<T>::ArrayType> ret(DynamicCastSafe<DataArray, typename Traits<T>::ArrayType>(ret0));
-- 
2.43.0


From 19c0452cd819ec840cb6e9338132ab19f450fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:11 +0000
Subject: [PATCH 39/50] fix: an array aggregated with itself read memory given
 back

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index d85dd0d..f5e5c76 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -3810,6 +3810,8 @@ DataArrayTemplateClassic<T>::aggregate(const typename Traits<T>::ArrayType *othe
         throw INTERP_KERNEL::Exception("DataArrayDouble::aggregate : null pointer !");
     if (this->getNumberOfComponents() != other->getNumberOfComponents())
         throw INTERP_KERNEL::Exception("DataArrayDouble::aggregate : mismatch number of components !");
+    if (other == this)
+        this->_mem.reserve(2 * this->getNbOfElems());  // the values to add must not move while they are read
     this->_mem.insertAtTheEnd(other->begin(), other->end());
     this->declareAsNew();
 }
-- 
2.43.0


From 1e164813a831dc3fae6658bee8d7ad154c01066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:11 +0000
Subject: [PATCH 40/50] fix: an array melded with itself threw after having
 been changed

---
 src/MEDCoupling/MEDCouplingMemArray.txx     | 5 ++---
 src/MEDCoupling/MEDCouplingMemArrayChar.cxx | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index f5e5c76..42e69de 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -3734,6 +3734,7 @@ DataArrayTemplateClassic<T>::meldWith(const typename Traits<T>::ArrayType *other
         throw INTERP_KERNEL::Exception("DataArrayDouble::meldWith : mismatch of number of tuples !");
     std::size_t nbOfComp1 = this->getNumberOfComponents();
     std::size_t nbOfComp2 = other->getNumberOfComponents();
+    const std::vector<std::string> otherInfo(other->getInfoOnComponents());  // other may be this
     T *newArr = (T *)malloc((nbOfTuples * (nbOfComp1 + nbOfComp2)) * sizeof(T));
     T *w = newArr;
     const T *inp1(this->begin()), *inp2(other->begin());
@@ -3743,9 +3744,7 @@ DataArrayTemplateClassic<T>::meldWith(const typename Traits<T>::ArrayType *other
         w = std::copy(inp2, inp2 + nbOfComp2, w);
     }
     this->useArray(newArr, true, DeallocType::C_DEALLOC, nbOfTuples, nbOfComp1 + nbOfComp2);
-    std::vector<std::size_t> compIds(nbOfComp2);
-    for (std::size_t i = 0; i < nbOfComp2; i++) compIds[i] = nbOfComp1 + i;
-    this->copyPartOfStringInfoFrom2(compIds, *other);
+    for (std::size_t i = 0; i < nbOfComp2; i++) this->setInfoOnComponent(nbOfComp1 + i, otherInfo[i]);
 }
 
 /*!
diff --git a/src/MEDCoupling/MEDCouplingMemArrayChar.cxx b/src/MEDCoupling/MEDCouplingMemArrayChar.cxx
index 7a0a767..7df2d41 100644
--- a/src/MEDCoupling/MEDCouplingMemArrayChar.cxx
+++ b/src/MEDCoupling/MEDCouplingMemArrayChar.cxx
@@ -187,6 +187,7 @@ DataArrayChar::meldWith(const DataArrayChar *other)
         throw INTERP_KERNEL::Exception("DataArrayChar::meldWith : mismatch of number of tuples !");
     std::size_t nbOfComp1 = getNumberOfComponents();
     std::size_t nbOfComp2 = other->getNumberOfComponents();
+    const std::vector<std::string> otherInfo(other->getInfoOnComponents());  // other may be this
     char *newArr = (char *)malloc(nbOfTuples * (nbOfComp1 + nbOfComp2) * sizeof(char));
     char *w = newArr;
     const char *inp1 = getConstPointer();
@@ -197,9 +198,7 @@ DataArrayChar::meldWith(const DataArrayChar *other)
         w = std::copy(inp2, inp2 + nbOfComp2, w);
     }
     useArray(newArr, true, DeallocType::C_DEALLOC, nbOfTuples, nbOfComp1 + nbOfComp2);
-    std::vector<std::size_t> compIds(nbOfComp2);
-    for (std::size_t i = 0; i < nbOfComp2; i++) compIds[i] = nbOfComp1 + i;
-    copyPartOfStringInfoFrom2(compIds, *other);
+    for (std::size_t i = 0; i < nbOfComp2; i++) setInfoOnComponent(nbOfComp1 + i, otherInfo[i]);
 }
 
 /*!
-- 
2.43.0


From d763c7c20c664eebf7619a15414667b4cf4c008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:11 +0000
Subject: [PATCH 41/50] fix: setContigPartOfSelectedValues and ...Slice wrote
 before the array for a negative position

---
 src/MEDCoupling/MEDCouplingMemArray.txx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingMemArray.txx b/src/MEDCoupling/MEDCouplingMemArray.txx
index 42e69de..50d2282 100644
--- a/src/MEDCoupling/MEDCouplingMemArray.txx
+++ b/src/MEDCoupling/MEDCouplingMemArray.txx
@@ -2389,7 +2389,7 @@ DataArrayTemplate<T>::setContigPartOfSelectedValues(
     mcIdType aNt(a->getNumberOfTuples());
     mcIdType nbOfTupleToWrite(tuplesSelec->getNumberOfTuples());
     T *valsToSet(getPointer() + tupleIdStart * nbOfComp);
-    if (tupleIdStart + nbOfTupleToWrite > thisNt)
+    if (tupleIdStart < 0 || tupleIdStart + nbOfTupleToWrite > thisNt)
         throw INTERP_KERNEL::Exception(
             "DataArrayTemplate::setContigPartOfSelectedValues : invalid number range of values to write !"
         );
@@ -2467,11 +2467,11 @@ DataArrayTemplate<T>::setContigPartOfSelectedValuesSlice(
     mcIdType thisNt(getNumberOfTuples());
     mcIdType aNt(a->getNumberOfTuples());
     T *valsToSet(getPointer() + tupleIdStart * nbOfComp);
-    if (tupleIdStart + nbOfTupleToWrite > thisNt)
+    if (tupleIdStart < 0 || tupleIdStart + nbOfTupleToWrite > thisNt)
         throw INTERP_KERNEL::Exception(
             "DataArrayTemplate::setContigPartOfSelectedValuesSlice : invalid number range of values to write !"
         );
-    if (end2 > aNt)
+    if (bg < 0 || end2 > aNt)
         throw INTERP_KERNEL::Exception(
             "DataArrayTemplate::setContigPartOfSelectedValuesSlice : invalid range of values to read !"
         );
-- 
2.43.0


From 6e206b3f44983d582e54004bc6a389eaaa960a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:16 +0000
Subject: [PATCH 42/50] fix: SpreadCoarseToFine wrote after the array when the
 factors along y and z differ

---
 src/MEDCoupling/MEDCouplingIMesh.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index 9dab2b0..b69a565 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -792,7 +792,7 @@ MEDCouplingIMesh::SpreadCoarseToFine(
                 fineLocInCoarse[0].first + coarseSt[0] * fineLocInCoarse[1].first +
                 coarseSt[0] * coarseSt[1] * fineLocInCoarse[2].first
             ),
-                fact0(facts[0]), fact1(facts[2]), fact2(facts[2]);
+                fact0(facts[0]), fact1(facts[1]), fact2(facts[2]);
             for (int k = 0; k < dims[2]; k++)
             {
                 for (mcIdType kfact = 0; kfact < fact2; kfact++)
-- 
2.43.0


From b2c393d7b24f1025969067ae68deb87dda6e8a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:16 +0000
Subject: [PATCH 43/50] fix: parts outside of a structured grid were read and
 written instead of refused

---
 src/MEDCoupling/MEDCouplingIMesh.cxx          |  5 ++++
 src/MEDCoupling/MEDCouplingStructuredMesh.cxx | 23 +++++++++++++++++++
 src/MEDCoupling/MEDCouplingStructuredMesh.hxx |  3 +++
 3 files changed, 31 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index b69a565..a69791c 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -390,6 +390,7 @@ MEDCouplingIMesh::CondenseFineToCoarse(
             "MEDCouplingIMesh::CondenseFineToCoarse : the size of fineLocInCoarse (4th param) and facts (5th param) "
             "must be equal to the sier of coarseSt (2nd param) !"
         );
+    CheckPartOfStructure(coarseSt, fineLocInCoarse);
     if (coarseDA->getNumberOfTuples() != nbOfTuplesInCoarseExp)
     {
         std::ostringstream oss;
@@ -565,6 +566,7 @@ MEDCouplingIMesh::CondenseFineToCoarseGhost(
             "MEDCouplingIMesh::CondenseFineToCoarseGhost : the size of fineLocInCoarse (4th param) and facts (5th "
             "param) must be equal to the sier of coarseSt (2nd param) !"
         );
+    CheckPartOfStructure(coarseSt, fineLocInCoarse);
     if (coarseDA->getNumberOfTuples() != nbOfTuplesInCoarseExp)
     {
         std::ostringstream oss;
@@ -731,6 +733,7 @@ MEDCouplingIMesh::SpreadCoarseToFine(
             "MEDCouplingIMesh::SpreadCoarseToFine : the size of fineLocInCoarse (4th param) and facts (5th param) must "
             "be equal to the sier of coarseSt (2nd param) !"
         );
+    CheckPartOfStructure(coarseSt, fineLocInCoarse);
     if (coarseDA->getNumberOfTuples() != nbOfTuplesInCoarseExp)
     {
         std::ostringstream oss;
@@ -875,6 +878,7 @@ MEDCouplingIMesh::SpreadCoarseToFineGhost(
             "MEDCouplingIMesh::SpreadCoarseToFineGhost : the size of fineLocInCoarse (4th param) and facts (5th param) "
             "must be equal to the sier of coarseSt (2nd param) !"
         );
+    CheckPartOfStructure(coarseSt, fineLocInCoarse);
     if (coarseDA->getNumberOfTuples() != nbOfTuplesInCoarseExp)
     {
         std::ostringstream oss;
@@ -1016,6 +1020,7 @@ MEDCouplingIMesh::SpreadCoarseToFineGhostZone(
             "MEDCouplingIMesh::SpreadCoarseToFineGhostZone : the size of fineLocInCoarse (4th param) and facts (5th "
             "param) must be equal to the sier of coarseSt (2nd param) !"
         );
+    CheckPartOfStructure(coarseSt, fineLocInCoarse);
     if (coarseDA->getNumberOfTuples() != nbOfTuplesInCoarseExp)
     {
         std::ostringstream oss;
diff --git a/src/MEDCoupling/MEDCouplingStructuredMesh.cxx b/src/MEDCoupling/MEDCouplingStructuredMesh.cxx
index 0f32d7b..7e1750a 100644
--- a/src/MEDCoupling/MEDCouplingStructuredMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingStructuredMesh.cxx
@@ -946,6 +946,26 @@ MEDCouplingStructuredMesh::ComputeCornersGhost(const std::vector<mcIdType> &st,
     return ret.retn();
 }
 
+/*!
+ * \throw if \a partCompactFormat is not included in the structure \a st. Both are expected to have the same size.
+ */
+void
+MEDCouplingStructuredMesh::CheckPartOfStructure(
+    const std::vector<mcIdType> &st, const std::vector<std::pair<mcIdType, mcIdType> > &partCompactFormat
+)
+{
+    for (std::size_t i = 0; i < st.size(); i++)
+        if (partCompactFormat[i].first < 0 || partCompactFormat[i].second > st[i] ||
+            partCompactFormat[i].first > partCompactFormat[i].second)
+        {
+            std::ostringstream oss;
+            oss << "MEDCouplingStructuredMesh::CheckPartOfStructure : along axis #" << i << " the range ["
+                << partCompactFormat[i].first << "," << partCompactFormat[i].second << ") is not included in [0,"
+                << st[i] << ") !";
+            throw INTERP_KERNEL::Exception(oss.str().c_str());
+        }
+}
+
 /*!
  * This method retrieves the number of entities (it can be cells or nodes) given a range in compact standard format
  * used in methods like BuildExplicitIdsFrom,IsPartStructured.
@@ -1975,6 +1995,7 @@ MEDCouplingStructuredMesh::SwitchOnIdsFrom(
             "MEDCouplingStructuredMesh::SwitchOnIdsFrom : invalid size of input vector of boolean regarding the "
             "structure !"
         );
+    CheckPartOfStructure(st, partCompactFormat);
     std::vector<mcIdType> dims(GetDimensionsFromCompactFrmt(partCompactFormat));
     switch (st.size())
     {
@@ -2043,6 +2064,7 @@ MEDCouplingStructuredMesh::ExtractFieldOfBoolFrom(
             "MEDCouplingStructuredMesh::ExtractFieldOfBoolFrom : invalid size of input field of boolean regarding the "
             "structure !"
         );
+    CheckPartOfStructure(st, partCompactFormat);
     std::vector<mcIdType> dims(GetDimensionsFromCompactFrmt(partCompactFormat));
     mcIdType nbOfTuplesOfOutField(DeduceNumberOfGivenStructure(dims));
     fieldOut.resize(nbOfTuplesOfOutField);
@@ -2116,6 +2138,7 @@ MEDCouplingStructuredMesh::ExtractFieldOfDoubleFrom(
             "MEDCouplingStructuredMesh::ExtractFieldOfDoubleFrom : invalid size of input array of double regarding the "
             "structure !"
         );
+    CheckPartOfStructure(st, partCompactFormat);
     std::vector<mcIdType> dims(GetDimensionsFromCompactFrmt(partCompactFormat));
     mcIdType nbOfTuplesOfOutField(DeduceNumberOfGivenStructure(dims));
     std::size_t nbComp(fieldOfDbl->getNumberOfComponents());
diff --git a/src/MEDCoupling/MEDCouplingStructuredMesh.hxx b/src/MEDCoupling/MEDCouplingStructuredMesh.hxx
index 2ffdd2f..f32dae6 100644
--- a/src/MEDCoupling/MEDCouplingStructuredMesh.hxx
+++ b/src/MEDCoupling/MEDCouplingStructuredMesh.hxx
@@ -229,6 +229,9 @@ class MEDCouplingStructuredMesh : public MEDCouplingMesh
     );
 
    protected:
+    static void CheckPartOfStructure(
+        const std::vector<mcIdType> &st, const std::vector<std::pair<mcIdType, mcIdType> > &partCompactFormat
+    );
     static int ZipNodeStructure(const mcIdType *nodeStBg, const mcIdType *nodeStEnd, mcIdType zipNodeSt[3]);
 
    protected:
-- 
2.43.0


From a4c1570ced6c0c82f682f0421e25e6469ea6217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:16 +0000
Subject: [PATCH 44/50] fix: getCellsContainingPoint of a cartesian or image
 mesh listed cell -1 for a point outside

---
 src/MEDCoupling/MEDCouplingCMesh.cxx | 3 ++-
 src/MEDCoupling/MEDCouplingIMesh.cxx | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCMesh.cxx b/src/MEDCoupling/MEDCouplingCMesh.cxx
index 7abd9ea..6e6768e 100644
--- a/src/MEDCoupling/MEDCouplingCMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCMesh.cxx
@@ -699,7 +699,8 @@ void
 MEDCouplingCMesh::getCellsContainingPoint(const double *pos, double eps, std::vector<mcIdType> &elts) const
 {
     mcIdType ret(getCellContainingPoint(pos, eps));
-    elts.push_back(ret);
+    if (ret >= 0)
+        elts.push_back(ret);
 }
 
 void
diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index a69791c..728380b 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -1463,7 +1463,8 @@ void
 MEDCouplingIMesh::getCellsContainingPoint(const double *pos, double eps, std::vector<mcIdType> &elts) const
 {
     mcIdType ret(getCellContainingPoint(pos, eps));
-    elts.push_back(ret);
+    if (ret >= 0)
+        elts.push_back(ret);
 }
 
 void
-- 
2.43.0


From 1504003011041380429b283ff0a5d66d18d57285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:16 +0000
Subject: [PATCH 45/50] fix: an image mesh found points before its origin in
 its first cells, and none on its last sides

---
 src/MEDCoupling/MEDCouplingCMesh.cxx |  2 ++
 src/MEDCoupling/MEDCouplingIMesh.cxx | 13 +++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCMesh.cxx b/src/MEDCoupling/MEDCouplingCMesh.cxx
index 6e6768e..1e1d52a 100644
--- a/src/MEDCoupling/MEDCouplingCMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCMesh.cxx
@@ -677,6 +677,8 @@ MEDCouplingCMesh::getCellContainingPoint(const double *pos, double eps) const
         const double *w =
             std::find_if(d, d + nbOfNodes, std::bind(std::greater_equal<double>(), std::placeholders::_1, ref));
         mcIdType w2 = ToIdType(std::distance(d, w));
+        if (w2 == nbOfNodes && nbOfNodes > 1 && ref < d[nbOfNodes - 1] + eps)
+            w2 = nbOfNodes - 1;
         if (w2 < nbOfNodes)
         {
             if (w2 == 0)
diff --git a/src/MEDCoupling/MEDCouplingIMesh.cxx b/src/MEDCoupling/MEDCouplingIMesh.cxx
index 728380b..79423cd 100644
--- a/src/MEDCoupling/MEDCouplingIMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingIMesh.cxx
@@ -1446,15 +1446,12 @@ MEDCouplingIMesh::getCellContainingPoint(const double *pos, double eps) const
     for (mcIdType i = 0; i < dim; i++)
     {
         mcIdType nbOfCells(_structure[i] - 1);
-        double ref(pos[i]);
-        mcIdType tmp(ToIdType((ref - _origin[i]) / _dxyz[i]));
-        if (tmp >= 0 && tmp < nbOfCells)
-        {
-            ret += coeff * tmp;
-            coeff *= nbOfCells;
-        }
-        else
+        double ref(pos[i] - _origin[i]);
+        if (nbOfCells < 1 || ref < -eps || ref > (double)nbOfCells * _dxyz[i] + eps)
             return -1;
+        mcIdType tmp(ToIdType(ref / _dxyz[i]));
+        ret += coeff * std::min(std::max(tmp, (mcIdType)0), nbOfCells - 1);
+        coeff *= nbOfCells;
     }
     return ret;
 }
-- 
2.43.0


From 8c48ee9ea2fac99f687c4101820a48fa446fba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:16 +0000
Subject: [PATCH 46/50] fix: a curvilinear mesh found points in wrong cells,
 and in its first cell when outside

---
 .../MEDCouplingCurveLinearMesh.cxx            | 255 +-----------------
 1 file changed, 6 insertions(+), 249 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
index bc64596..a4f51e0 100644
--- a/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
+++ b/src/MEDCoupling/MEDCouplingCurveLinearMesh.cxx
@@ -20,11 +20,11 @@
 
 #include "MEDCouplingCurveLinearMesh.hxx"
 #include "MEDCouplingPointSet.hxx"
+#include "MEDCouplingUMesh.hxx"
 #include "MEDCouplingMemArray.hxx"
 #include "MEDCouplingFieldDouble.hxx"
 
 #include "VolSurfUser.txx"
-#include "PointLocatorAlgos.txx"
 
 #include <functional>
 #include <algorithm>
@@ -605,263 +605,20 @@ MEDCouplingCurveLinearMesh::buildOrthogonalField() const
     return ret;
 }
 
-/// @cond INTERNAL
-
-namespace MEDCoupling
-{
-template <const int SPACEDIMM>
-class DummyClsMCL
-{
-   public:
-    static const int MY_SPACEDIM = SPACEDIMM;
-    static const int MY_MESHDIM = 8;
-    typedef mcIdType MyConnType;
-    static const INTERP_KERNEL::NumberingPolicy My_numPol = INTERP_KERNEL::ALL_C_MODE;
-    // begin
-    // useless, but for windows compilation ...
-    const double *getCoordinatesPtr() const { return 0; }
-    const mcIdType *getConnectivityPtr() const { return 0; }
-    const mcIdType *getConnectivityIndexPtr() const { return 0; }
-    INTERP_KERNEL::NormalizedCellType getTypeOfElement(mcIdType) const { return (INTERP_KERNEL::NormalizedCellType)0; }
-    // end
-};
-}  // namespace MEDCoupling
-
-/// @endcond
-
 mcIdType
 MEDCouplingCurveLinearMesh::getCellContainingPoint(const double *pos, double eps) const
 {
     checkConsistencyLight();
-    int spaceDim = getSpaceDimension();
-    const double *coords = _coords->getConstPointer();
-    mcIdType nodeId = -1;
-    _coords->distanceToTuple(pos, pos + spaceDim, nodeId);
-    if (nodeId < 0)
-        throw INTERP_KERNEL::Exception("MEDCouplingCurveLinearMesh::getCellContainingPoint : internal problem 1 !");
-    mcIdType conn[8];
-    mcIdType nbOfNodes = getNumberOfNodes();
-    if (nbOfNodes == 1)
-        throw INTERP_KERNEL::Exception("MEDCouplingCurveLinearMesh::getCellContainingPoint : No cells in this !");
-    switch (getMeshDimension())
-    {
-        case 1:
-            if (spaceDim == 1)
-            {
-                if (nodeId > 0)
-                {
-                    conn[0] = nodeId - 1;
-                    conn[1] = nodeId;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<1> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_SEG2, coords, conn, 2, eps
-                        ))
-                        return nodeId - 1;
-                }
-                if (nodeId < nbOfNodes - 1)
-                {
-                    conn[0] = nodeId;
-                    conn[1] = nodeId + 1;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<1> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_SEG2, coords, conn, 2, eps
-                        ))
-                        return nodeId;
-                }
-            }
-            break;
-        case 2:
-            if (spaceDim == 2)
-            {
-                mcIdType ny = nodeId / _structure[0], nx = nodeId - ny * _structure[0];
-                if (nx > 0 && ny > 0)
-                {
-                    conn[0] = nx - 1 + _structure[0] * (ny - 1);
-                    conn[1] = nx - 1 + _structure[0] * ny;
-                    conn[2] = nx + _structure[0] * ny;
-                    conn[3] = nx + _structure[0] * (ny - 1);
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx - 1 + (ny - 1) * _structure[0];
-                }
-                if (nx < _structure[0] - 1 && ny > 0)
-                {
-                    conn[0] = nx + _structure[0] * (ny - 1);
-                    conn[1] = nx + _structure[0] * ny;
-                    conn[2] = nx + 1 + _structure[0] * ny;
-                    conn[3] = nx + 1 + _structure[0] * (ny - 1);
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx + (ny - 1) * _structure[0];
-                }
-                if (nx > 0 && ny < _structure[1] - 1)
-                {
-                    conn[0] = nx - 1 + _structure[0] * ny;
-                    conn[1] = nx - 1 + _structure[0] * (ny + 1);
-                    conn[2] = nx + _structure[0] * (ny + 1);
-                    conn[3] = nx + _structure[0] * ny;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx - 1 + ny * _structure[0];
-                }
-                if (nx < _structure[0] - 1 && ny < _structure[1] - 1)
-                {
-                    conn[0] = nx + _structure[0] * ny;
-                    conn[1] = nx + _structure[0] * (ny + 1);
-                    conn[2] = nx + 1 + _structure[0] * (ny + 1);
-                    conn[3] = nx + 1 + _structure[0] * ny;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<2> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_QUAD4, coords, conn, 4, eps
-                        ))
-                        return nx + ny * _structure[0];
-                }
-            }
-            break;
-        case 3:
-        {
-            if (spaceDim == 3)
-            {
-                mcIdType nY = _structure[0] * _structure[1];
-                mcIdType nz = nodeId / _structure[1];
-                mcIdType ny = (nodeId - nz * nY) / _structure[0];
-                mcIdType nx = (nodeId - nz * nY) - _structure[0] * ny;
-                if (nx > 0 && ny > 0 && nz > 0)
-                {
-                    conn[0] = nx - 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[2] * ny + nY * (nz - 1);
-                    conn[2] = nx + _structure[2] * ny + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + (ny - 1) * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx < _structure[0] - 1 && ny > 0 && nz > 0)
-                {
-                    conn[0] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + (ny - 1) * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx > 0 && ny < _structure[1] - 1 && nz > 0)
-                {
-                    conn[0] = nx - 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + ny * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx < _structure[0] - 1 && ny < _structure[1] - 1 && nz > 0)
-                {
-                    conn[0] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * ny + nY * nz;
-                    conn[5] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + ny * _structure[0] + (nz - 1) * nY;
-                }
-                if (nx > 0 && ny > 0 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx - 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[2] * ny + nY * (nz - 1);
-                    conn[2] = nx + _structure[2] * ny + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + (ny - 1) * _structure[0] + nz * nY;
-                }
-                if (nx < _structure[0] - 1 && ny > 0 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * (ny - 1) + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * (ny - 1) + nY * nz;
-                    conn[5] = nx + _structure[0] * ny + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * ny + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * (ny - 1) + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + (ny - 1) * _structure[0] + nz * nY;
-                }
-                if (nx > 0 && ny < _structure[1] - 1 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx - 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx - 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx - 1 + _structure[0] * ny + nY * nz;
-                    conn[5] = nx - 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx - 1 + ny * _structure[0] + nz * nY;
-                }
-                if (nx < _structure[0] - 1 && ny < _structure[1] - 1 && nz < _structure[2] - 1)
-                {
-                    conn[0] = nx + _structure[0] * ny + nY * (nz - 1);
-                    conn[1] = nx + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[2] = nx + 1 + _structure[0] * (ny + 1) + nY * (nz - 1);
-                    conn[3] = nx + 1 + _structure[0] * ny + nY * (nz - 1);
-                    conn[4] = nx + _structure[0] * ny + nY * nz;
-                    conn[5] = nx + _structure[0] * (ny + 1) + nY * nz;
-                    conn[6] = nx + 1 + _structure[0] * (ny + 1) + nY * nz;
-                    conn[7] = nx + 1 + _structure[0] * ny + nY * nz;
-                    if (INTERP_KERNEL::PointLocatorAlgos<DummyClsMCL<3> >::isElementContainsPoint(
-                            pos, INTERP_KERNEL::NORM_HEXA8, coords, conn, 8, eps
-                        ))
-                        return nx + ny * _structure[0] + nz * nY;
-                }
-            }
-        }
-        break;
-        default:
-            throw INTERP_KERNEL::Exception(
-                "MEDCouplingCurveLinearMesh::getCellContainingPoint : mesh dimension managed are 1, 2 or 3 !"
-            );
-    }
-    return 0;
+    MCAuto<MEDCouplingUMesh> m(buildUnstructured());
+    return m->getCellContainingPoint(pos, eps);
 }
 
 void
 MEDCouplingCurveLinearMesh::getCellsContainingPoint(const double *pos, double eps, std::vector<mcIdType> &elts) const
 {
-    mcIdType ret(getCellContainingPoint(pos, eps));
-    elts.push_back(ret);
+    checkConsistencyLight();
+    MCAuto<MEDCouplingUMesh> m(buildUnstructured());
+    m->getCellsContainingPoint(pos, eps, elts);
 }
 
 void
-- 
2.43.0


From 1dcba1e57f56641034ecc81ee3cb437a30ea1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:17 +0000
Subject: [PATCH 47/50] fix: a remapper kept the denominators of the
 coefficients it had removed from its matrix

---
 src/MEDCoupling/MEDCouplingRemapper.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingRemapper.cxx b/src/MEDCoupling/MEDCouplingRemapper.cxx
index 1c41fbe..99cfbdd 100644
--- a/src/MEDCoupling/MEDCouplingRemapper.cxx
+++ b/src/MEDCoupling/MEDCouplingRemapper.cxx
@@ -1734,7 +1734,10 @@ MEDCouplingRemapper::nullifiedTinyCoeffInCrudeMatrixAbs(double maxValAbs)
         }
     }
     if (ret > 0)
+    {
         _matrix = matrixNew;
+        synchronizeSizeOfSideMatricesAfterMatrixComputation(getNumberOfColsOfMatrix());
+    }
     return ret;
 }
 
-- 
2.43.0


From 652e089fd65f28bc2d323bffa5a62b3ed8a77674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:17 +0000
Subject: [PATCH 48/50] fix: a remapper divided an intensive field by no
 measure for a mesh of dimension -1

---
 src/MEDCoupling/MEDCouplingRemapper.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MEDCoupling/MEDCouplingRemapper.cxx b/src/MEDCoupling/MEDCouplingRemapper.cxx
index 99cfbdd..11cdce7 100644
--- a/src/MEDCoupling/MEDCouplingRemapper.cxx
+++ b/src/MEDCoupling/MEDCouplingRemapper.cxx
@@ -1452,12 +1452,12 @@ MEDCouplingRemapper::computeDenoFromScratch(
                 srcField->getDiscretization()->getMeasureField(srcField->getMesh(), getMeasureAbsStatus());
             const double *denoPtr = deno->getArray()->getConstPointer();
             const double *denoRPtr = denoR->getArray()->getConstPointer();
-            if (trgField->getMesh()->getMeshDimension() == -1)
+            if (srcField->getMesh()->getMeshDimension() == -1)
             {
                 double *denoRPtr2 = denoR->getArray()->getPointer();
                 denoRPtr2[0] = std::accumulate(denoPtr, denoPtr + deno->getNumberOfTuples(), 0.);
             }
-            if (srcField->getMesh()->getMeshDimension() == -1)
+            if (trgField->getMesh()->getMeshDimension() == -1)
             {
                 double *denoPtr2 = deno->getArray()->getPointer();
                 denoPtr2[0] = std::accumulate(denoRPtr, denoRPtr + denoR->getNumberOfTuples(), 0.);
-- 
2.43.0


From 27c89ee2263bfc9a60e2a8b05bf5e3bcf39265e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:17 +0000
Subject: [PATCH 49/50] fix: a transfer to a field on a smaller mesh than the
 prepared one wrote after its array

---
 src/MEDCoupling/MEDCouplingRemapper.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingRemapper.cxx b/src/MEDCoupling/MEDCouplingRemapper.cxx
index 11cdce7..fbcd0fb 100644
--- a/src/MEDCoupling/MEDCouplingRemapper.cxx
+++ b/src/MEDCoupling/MEDCouplingRemapper.cxx
@@ -1356,6 +1356,11 @@ MEDCouplingRemapper::transferUnderground(
         oss << " ! It appears that the source support is not the same between the prepare and the transfer !";
         throw INTERP_KERNEL::Exception(oss.str().c_str());
     }
+    if (targetField->getNumberOfTuplesExpected() != _target_ft->getNumberOfTuplesExpected())
+        throw INTERP_KERNEL::Exception(
+            "MEDCouplingRemapper::transferUnderground : the number of tuples required by given target field is not the "
+            "one on prepare !"
+        );
     DataArrayDouble *array(targetField->getArray());
     std::size_t srcNbOfCompo(srcField->getNumberOfComponents());
     if (array)
-- 
2.43.0


From a03663af82ea4a8a89bccb8b54df27d1787db299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:17 +0000
Subject: [PATCH 50/50] fix: a reverse transfer to a field on a smaller mesh
 than the prepared one wrote after its array

---
 src/MEDCoupling/MEDCouplingRemapper.cxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MEDCoupling/MEDCouplingRemapper.cxx b/src/MEDCoupling/MEDCouplingRemapper.cxx
index fbcd0fb..d374ada 100644
--- a/src/MEDCoupling/MEDCouplingRemapper.cxx
+++ b/src/MEDCoupling/MEDCouplingRemapper.cxx
@@ -289,6 +289,11 @@ MEDCouplingRemapper::reverseTransfer(
         oss << " ! It appears that the target support is not the same between the prepare and the transfer !";
         throw INTERP_KERNEL::Exception(oss.str().c_str());
     }
+    if (srcField->getNumberOfTuplesExpected() != _src_ft->getNumberOfTuplesExpected())
+        throw INTERP_KERNEL::Exception(
+            "MEDCouplingRemapper::reverseTransfer : the number of tuples required by given source field is not the one "
+            "on prepare !"
+        );
     DataArrayDouble *array(srcField->getArray());
     std::size_t trgNbOfCompo = targetField->getNumberOfComponents();
     if (array)
-- 
2.43.0

