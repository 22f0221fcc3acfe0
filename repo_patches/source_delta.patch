From ff22a47217ab5b779a15677176ac6aaba426f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:02 +0000
Subject: [PATCH 001/110] fix: GetMultiArray of a one-dimensional array indexed
 dims[-1]

---
 src/SFile/SFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 669d152..b74e17c 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -100,6 +100,10 @@ void *SFile::GetMultiArray(const string& name, const sfilesize_t nndims, sfilesi
 	if (ptr == nullptr)
 		return nullptr;
 
+	// A one-dimensional array needs no further pointers
+	if (ndims <= 1)
+		return (void*)ptr;
+
 	// Convert to multidimensional pointer
 	sfilesize_t nel = 1;
 	for (sfilesize_t i = 0; i < ndims; i++)
-- 
2.43.0


From 83be84cd661b8ebd6df99493810599d646d767b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:02 +0000
Subject: [PATCH 002/110] fix: MAT multi-dimensional integer arrays re-created
 the variable as a string instead of tagging it

---
 src/SFile/SFile_MAT.HDF5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index e682640..8621f36 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -299,19 +299,19 @@ void SFile_MAT::WriteMultiArray(const string& name, const double *arr, const sfi
 }
 void SFile_MAT::WriteMultiInt32Array(const string& name, const int32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt32Array(name, arr, ndims, dims);
-    WriteString(name, "int32");
+    WriteMATLAB_class(name, "int32");
 }
 void SFile_MAT::WriteMultiInt64Array(const string& name, const int64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt64Array(name, arr, ndims, dims);
-    WriteString(name, "int64");
+    WriteMATLAB_class(name, "int64");
 }
 void SFile_MAT::WriteMultiUInt32Array(const string& name, const uint32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt32Array(name, arr, ndims, dims);
-    WriteString(name, "uint32");
+    WriteMATLAB_class(name, "uint32");
 }
 void SFile_MAT::WriteMultiUInt64Array(const string& name, const uint64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt64Array(name, arr, ndims, dims);
-    WriteString(name, "uint64");
+    WriteMATLAB_class(name, "uint64");
 }
 
 void SFile_MAT::WriteString(const string& name, const string& str) {
-- 
2.43.0


From 19e9ba38293ef7a21a090baafeb0777532fee9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:02 +0000
Subject: [PATCH 003/110] fix: month in the MAT header was one too low (out of
 bounds in January)

---
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 8621f36..1d3f2d3 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -73,7 +73,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
 
     int
         dayw = local_tm.tm_wday,
-        imon = local_tm.tm_mon-1,
+        imon = local_tm.tm_mon,
         iday = local_tm.tm_mday,
         hour = local_tm.tm_hour,
         minute = local_tm.tm_min,
-- 
2.43.0


From 4c6c0c1101c6b2c04ad623825de5e4fe828b14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:02 +0000
Subject: [PATCH 004/110] fix: SFile_HDF5 destroyed an uninitialised file
 pointer when opening failed

---
 src/SFile/SFile_HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 49a994b..fa8a54c 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -14,7 +14,7 @@
 using namespace H5;
 using namespace std;
 
-SFile_HDF5::SFile_HDF5() {
+SFile_HDF5::SFile_HDF5() : file(nullptr) {
     // Disable HDF5 error messages
     H5::Exception::dontPrint();
 }
-- 
2.43.0


From 4b3253dab28699824dbf77b8cf3eb249f942698c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:31 +0000
Subject: [PATCH 005/110] fix: HDF5 reads of non-numeric, higher-dimensional or
 missing data corrupted memory or leaked HDF5 exceptions

---
 src/SFile/SFile_HDF5.cpp | 54 ++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index fa8a54c..409048f 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -116,6 +116,22 @@ enum SFile::sfile_data_type SFile_HDF5::GetDataType(const string& name, enum sfi
 /*******************************
  ************ INPUT ************
  *******************************/
+/**
+ * Verifies that the given dataset contains numbers and
+ * returns the number of dimensions of its dataspace.
+ *
+ * dset:     Dataset to check.
+ * name:     Name of dataset.
+ * filename: Name of file containing the dataset.
+ */
+static sfilesize_t SFile_HDF5_NumericRank(DataSet &dset, const string& name, const string& filename) {
+    H5T_class_t cls = dset.getTypeClass();
+    if (cls != H5T_INTEGER && cls != H5T_FLOAT)
+        throw SFileException("The variable '%s' in the file '%s' is not numeric.", name.c_str(), filename.c_str());
+
+    return dset.getSpace().getSimpleExtentNdims();
+}
+
 /**
  * Reads a (real) scalar attribute from the dataset
  * named 'datasetname'.
@@ -128,13 +144,16 @@ double SFile_HDF5::GetAttributeScalar(const string& datasetname, const string& n
         double s;
         DataSet dataset = file->openDataSet(datasetname);
         Attribute attr = dataset.openAttribute(name);
-        DataType type = attr.getDataType();
+        H5T_class_t cls = attr.getTypeClass();
+
+        if ((cls != H5T_INTEGER && cls != H5T_FLOAT) || attr.getSpace().getSimpleExtentNpoints() != 1)
+            throw SFileException("The attribute '%s' of '%s' is not a scalar.", name.c_str(), datasetname.c_str());
 
-        attr.read(type, &s);
+        attr.read(PredType::NATIVE_DOUBLE, &s);
 
         return s;
-    } catch (FileIException &ex) {
-        throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
+    } catch (H5::Exception &ex) {
+        throw SFileException("Unable to read attribute '%s' of '%s'. HDF5 error: %s", name.c_str(), datasetname.c_str(), ex.getCDetailMsg());
     }
 }
 /**
@@ -152,10 +171,13 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
         Attribute attr = dataset.openAttribute(name);
         DataType type = attr.getDataType();
 
+        if (type.getClass() != H5T_STRING)
+            throw SFileException("The attribute '%s' of '%s' is not a string.", name.c_str(), datasetname.c_str());
+
         attr.read(type, s);
         return s;
-    } catch (FileIException &ex) {
-        throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
+    } catch (H5::Exception &ex) {
+        throw SFileException("Unable to read attribute '%s' of '%s'. HDF5 error: %s", name.c_str(), datasetname.c_str(), ex.getCDetailMsg());
     }
 }
 /**
@@ -176,6 +198,9 @@ string SFile_HDF5::GetString(const string& name) {
     DataType type = dataset.getDataType();
     DataSpace dspace = dataset.getSpace();
 
+    if (type.getClass() != H5T_STRING)
+        throw SFileException("The variable '%s' in the file '%s' is not a string.", name.c_str(), filename.c_str());
+
     dataset.read(s, type, dspace);
 
     return s;
@@ -207,7 +232,12 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 	DataSet dset = this->file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(dims);
+	ndims = SFile_HDF5_NumericRank(dset, name, filename);
+	if (ndims > 2)
+		throw SFileException("The variable '%s' in the file '%s' has more than two dimensions.", name.c_str(), filename.c_str());
+
+	dims[0] = dims[1] = 1;
+	dspace.getSimpleExtentDims(dims);
 	
 	if (ndims == 1) {
         dims[1] = dims[0];
@@ -257,7 +287,7 @@ uint64_t **SFile_HDF5::GetUInt64_2D(const string& name, sfilesize_t *dims) {
  */
 template<typename T>
 T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims, PredType p) {
-    sfilesize_t d[2];
+    sfilesize_t d[2] = {1, 1};
     if (!sf->HasVariable(name))
         throw SFileException("A variable with the name '%s' does not exist in the file '%s'.", name.c_str(), sf->filename.c_str());
 	
@@ -270,7 +300,11 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 	DataSet dset = sf->__GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(d);
+	ndims = SFile_HDF5_NumericRank(dset, name, sf->filename);
+	if (ndims > 2)
+		throw SFileException("The variable '%s' in the file '%s' has more than two dimensions.", name.c_str(), sf->filename.c_str());
+
+	dspace.getSimpleExtentDims(d);
 	
 	if (ndims == 1) {
         *dims = d[0];
@@ -311,7 +345,7 @@ double *SFile_HDF5::GetMultiArray_linear(const string& name, const sfilesize_t n
 	DataSet dset = file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentNdims();
+	ndims = SFile_HDF5_NumericRank(dset, name, filename);
 	if (ndims > nndims)
 		return nullptr;
 
-- 
2.43.0


From 51a87ac9bae36fae935b9c891a88750917795689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:31 +0000
Subject: [PATCH 006/110] fix: MAT strings were leaked and cut at NUL, and rank
 > 2 overflowed the dimensions

---
 src/SFile/SFile_MAT.HDF5.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 1d3f2d3..1461cf6 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -194,9 +194,12 @@ string SFile_MAT::GetString(const string& name) {
     DataSpace dspace = dataset.getSpace();
 
     sfilesize_t dims[2]={0,0};
-    sfilesize_t n = dspace.getSimpleExtentDims(dims);
+    sfilesize_t n = dspace.getSimpleExtentNdims();
     if (n != 1 && n != 2)
         throw SFileException("Invalid number of dimensions (%llu) for string: %s.", n, name.c_str());
+    dspace.getSimpleExtentDims(dims);
+    if (n == 2 && dims[0] > 1 && dims[1] > 1)
+        throw SFileException("The variable '%s' is a character matrix and not a string.", name.c_str());
     
     if (type == PredType::STD_U16LE) {
         sfilesize_t len;
@@ -209,14 +212,10 @@ string SFile_MAT::GetString(const string& name) {
         dataset.read(arr, type, dspace);
 
         // Convert to proper string
-        char *str = new char[len+1];
         for (sfilesize_t i = 0; i < len; i++)
-            str[i] = (char)arr[i];
-        str[len] = 0;
+            s += (char)arr[i];
 
         delete [] arr;
-
-        s = str;
     } else if (type.getClass() == H5T_STRING) {
         dataset.read(s, type, dspace);
     } else {
-- 
2.43.0


From 8ab1f8aa52442b81faf34aa258f61ac6700169d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:48 +0000
Subject: [PATCH 007/110] fix: SDT matrices handed out the file object's own
 storage, so a second read used freed memory

---
 src/SFile/SFile_SDT.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 2acaad7..ef6c7f5 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -141,7 +141,11 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
 
-    return it->second.value;
+    for (sfilesize_t i = 0; i < dims[0]; i++)
+        for (sfilesize_t j = 0; j < dims[1]; j++)
+            narr[i][j] = it->second.value[i][j];
+
+    return narr;
 }
 
 /**
-- 
2.43.0


From 29062e2e4c593752f88ed1695c2f9245f4b5a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:48 +0000
Subject: [PATCH 008/110] fix: SDT vector reader accepted matrices and rejected
 column vectors

---
 src/SFile/SFile_SDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index ef6c7f5..50427b7 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -217,7 +217,7 @@ double *SFile_SDT::GetDoubles1D(const string &name, sfilesize_t *dims) {
 
     if (it->second.nrows == 1)
         *dims = it->second.ncols;
-    else if (it->second.ncols != 1)
+    else if (it->second.ncols == 1)
         *dims = it->second.nrows;
     else
         throw SFileException("The requested variable is not a vector: '%s'.", name.c_str());
-- 
2.43.0


From d0aa398da7158be76de1903b871014da528a37ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 009/110] fix: opening an SDT file ignored errors, kept the
 previous file's variables and overwrote when updating

---
 src/SFile/SFile_SDT.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 50427b7..f67ba51 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -47,15 +47,26 @@ using namespace std;
  */
 void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     mode = openmode;
+    this->filename = filename;
+
+    // Forget about any previously opened file
+    if (sdtfile.is_open())
+        sdtfile.close();
+    sdtfile.clear();
+
+    for (auto &m : matrices) {
+        delete [] m.second.value[0];
+        delete [] m.second.value;
+    }
+    matrices.clear();
+    strings.clear();
 
     switch (mode) {
         case SFILE_MODE_READ:
             sdtfile.open(filename, ios::in);
-            Load();
-            Close();
             break;
         case SFILE_MODE_UPDATE:
-            sdtfile.open(filename, ios::in | ios::out);
+            sdtfile.open(filename, ios::in | ios::out | ios::ate);
             break;
         case SFILE_MODE_WRITE:
             sdtfile.open(filename, ios::out | ios::trunc);
@@ -63,6 +74,14 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
         default:
             throw SFileException("Unrecognized option for opening the SDT file: %d.", mode);
     }
+
+    if (!sdtfile)
+        throw SFileException("%s: Unable to open SDT file.", filename.c_str());
+
+    if (mode == SFILE_MODE_READ) {
+        Load();
+        Close();
+    }
 }
 
 /**
-- 
2.43.0


From cd1da628a000835e54d8768172f33ce7684e62ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 010/110] fix: SDT files stored real numbers with six digits
 only

---
 src/SFile/SFile_SDT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index f67ba51..ee5a96f 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -32,6 +32,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <softlib/SFile.h>
 #include <softlib/SFileException.h>
@@ -53,6 +54,8 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     if (sdtfile.is_open())
         sdtfile.close();
     sdtfile.clear();
+    // Write numbers such that they can be restored exactly
+    sdtfile.precision(numeric_limits<double>::max_digits10);
 
     for (auto &m : matrices) {
         delete [] m.second.value[0];
-- 
2.43.0


From e8217cfb312fed8504b5de1369ee1da9e604fde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:14 +0000
Subject: [PATCH 011/110] fix: damaged SDT files were read out of bounds or
 loaded with missing characters

---
 src/SFile/SFile_SDT.load.cpp | 37 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 928dff5..266444d 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -5,6 +5,7 @@
 #include <fstream>
 #include <sstream>
 #include <string>
+#include <vector>
 #include <softlib/SFileException.h>
 #include <softlib/SFile_SDT.h>
 
@@ -21,7 +22,8 @@ void SFile_SDT::Load() {
             continue;
 
         stringstream ss(line);
-        ss >> type;
+        if (!(ss >> type))  // Nothing but white space
+            continue;
 
         if (type == "@matrix") {
             string name;
@@ -59,23 +61,32 @@ void SFile_SDT::Load() {
  * ncols: Number of columns of matrix.
  */
 void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sfilesize_t ncols) {
-    slibreal_t **vals = new slibreal_t*[nrows];
-    vals[0] = new slibreal_t[nrows*ncols];
+    vector<slibreal_t> data;
+
+    if (nrows == 0)
+        throw SFileException("Matrix '%s' has no rows.", name.c_str());
 
     for (sfilesize_t i = 0; i < nrows; i++) {
         string line;
-        getline(sdtfile, line);
+        if (!getline(sdtfile, line))
+            throw SFileException("Unexpected end of file in matrix '%s' at row %llu.", name.c_str(), i);
         stringstream ss(line);
 
-        if (i > 0)
-            vals[i] = vals[i-1] + ncols;
-
         for (sfilesize_t j = 0; j < ncols; j++) {
-            if (!(ss >> vals[i][j]))
-                throw SFileException("Invalid format of matrix '%s' at index (%u, %u).", name.c_str(), i, j);
+            slibreal_t v;
+            if (!(ss >> v))
+                throw SFileException("Invalid format of matrix '%s' at index (%llu, %llu).", name.c_str(), i, j);
+            data.push_back(v);
         }
     }
 
+    slibreal_t **vals = new slibreal_t*[nrows];
+    vals[0] = new slibreal_t[nrows*ncols];
+    for (sfilesize_t i = 1; i < nrows; i++)
+        vals[i] = vals[i-1] + ncols;
+    for (size_t i = 0; i < data.size(); i++)
+        vals[0][i] = data[i];
+
     // Add variable
     SFile_SDT::matrix mat;
     mat.name = name;
@@ -91,10 +102,9 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
  * in the SDT file.
  *
  * name:   Name to give to string to load.
- * length: Length of string to load (this parameter is not
- *         used but is present to prevent compiler warnings).
+ * length: Length of string to load.
  */
-void SFile_SDT::LoadString(const string &name, const sfilesize_t) {
+void SFile_SDT::LoadString(const string &name, const sfilesize_t length) {
     string line, value;
     int c;
     getline(sdtfile, line);
@@ -103,6 +113,9 @@ void SFile_SDT::LoadString(const string &name, const sfilesize_t) {
     while (ss >> c)
         value += (char)c;
 
+    if (value.size() != length || !ss.eof())
+        throw SFileException("Invalid format of string '%s'. Expected %llu characters.", name.c_str(), length);
+
     // Add variable
     SFile_SDT::str str;
     str.name = name;
-- 
2.43.0


From 3d7b7c541f52be85534ad4950a5da210422940a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:52 +0000
Subject: [PATCH 012/110] fix: reading an empty HDF5 matrix as a list used a
 row pointer that does not exist

---
 src/SFile/SFile.cpp      | 2 +-
 src/SFile/SFile_HDF5.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index b74e17c..809559b 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -180,7 +180,7 @@ template<typename Tout, typename Tin>
 Tout **SFile::__Get2DAs(const string& name, sfilesize_t *dims, Tin** (SFile::*f)(const string&, sfilesize_t*), SFile *sf) {
     Tin **a = (sf->*f)(name, dims);
 
-    Tout **b = new Tout*[dims[0]];
+    Tout **b = new Tout*[dims[0] > 0 ? dims[0] : 1];
     b[0] = new Tout[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         b[i] = b[i-1] + dims[1];
diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 409048f..08a4513 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -247,7 +247,9 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 		pointers[0] = data;
 	} else {
 		data = new T[dims[0]*dims[1]];
-		pointers = new T*[dims[0]];
+		// The first pointer must exist, also for an empty array
+		pointers = new T*[dims[0] > 0 ? dims[0] : 1];
+		pointers[0] = data;
 		for (i = 0; i < dims[0]; i++) {
 			pointers[i] = data + (i*dims[1]);
 		}
-- 
2.43.0


From 548c6e370e3287101875c7d32fa1e418d20bd1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 013/110] fix: a comment ending the script without newline
 turned its last character into a token

---
 src/Configuration/Script/Lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index ee8a881..31f1976 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -45,12 +45,12 @@ char ConfigurationScript::nextc() {
 				// Ignore all characters til end-of-line (or file)
 				do {
 					if (this->cnfbufferpos >= this->cnfbufferlength)
-						break;
+						return 0;
 
 					c = this->cnfbuffer[this->cnfbufferpos++];
 				} while (c != 0 && c != '\n');
 
-				// Handle the newline or EOF in a new iteration
+				// Handle the newline in a new iteration
 				this->cnfbufferpos--;
 
 				break;
-- 
2.43.0


From 60a676f83ff685480e5482b72f2e1efdf4d3fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 014/110] fix: carriage returns in configuration scripts became
 part of names and values

---
 src/Configuration/Script/Lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 31f1976..00f891f 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -61,6 +61,7 @@ char ConfigurationScript::nextc() {
                 [[fallthrough]];
 			case ' ':
 			case '\t':
+			case '\r':
 				if (this->prevws) break;
 				else {
 					this->prevws = true;
-- 
2.43.0


From 0e03a95afcee8ab588242819d912f82291d80326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 015/110] fix: empty quoted strings were dropped and quoted
 punctuation was taken for syntax

---
 .../Configuration/ConfigurationScript.h        |  4 ++--
 src/Configuration/Script/Lexer.cpp             | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index e36c1bd..a79f99a 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -119,8 +119,8 @@ private:
 
 	void initbuffer(const std::string&);
 	char nextc();
-	ConfigToken *gettkn(std::string&, ConfigToken*);
-	void pushbuffer(std::string&, std::vector<ConfigToken*>&);
+	ConfigToken *gettkn(std::string&, ConfigToken*, bool quoted=false);
+	void pushbuffer(std::string&, std::vector<ConfigToken*>&, bool quoted=false);
 
 	/* Interpreter properties/methods */
 	std::vector<ConfigToken*>::iterator tknstream;
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 00f891f..86136b5 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -76,9 +76,10 @@ char ConfigurationScript::nextc() {
 
 	return 0;
 }
-ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
-	// First we check for simple tokens
-	if (s == "=") {
+ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev, bool quoted) {
+	// First we check for simple tokens (which cannot be quoted)
+	if (quoted) {
+	} else if (s == "=") {
 		return new ConfigToken(CTKN_EQUALS, s, prev, this->linecounter, this->charpos, this->file);
     } else if (s == "(") {
         return new ConfigToken(CTKN_LPAR, s, prev, this->linecounter, this->charpos, this->file);
@@ -110,16 +111,16 @@ ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev) {
 	// Else, it must be a name.
 	return new ConfigToken(CTKN_NAME, s, prev, this->linecounter, this->charpos, this->file);
 }
-void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns) {
-	if (buffer.empty()) return;
+void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns, bool quoted) {
+	if (buffer.empty() && !quoted) return;
 
     ConfigToken *ct;
 	if (tkns.empty())
 		//tkns.push_back(gettkn(buffer, NULL));
-        ct = gettkn(buffer, nullptr);
+        ct = gettkn(buffer, nullptr, quoted);
 	else
 		//tkns.push_back(gettkn(buffer, &(tkns.back())));
-        ct = gettkn(buffer, tkns.back());
+        ct = gettkn(buffer, tkns.back(), quoted);
 
     tkns.push_back(ct);
 }
@@ -200,7 +201,8 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 
 		switch (c) {
 			case '"': {
-				pushbuffer(buffer, tkns);
+				// When a string ends, it is pushed even if it is empty
+				pushbuffer(buffer, tkns, this->instring);
 				buffer.clear();
 				this->instring = !this->instring;
 			} break;
-- 
2.43.0


From 5df92341d6eef293534a3e4f6dd46a12db503d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 016/110] fix: a script without statements was reported as
 erroneous

---
 src/Configuration/Script/Interpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index efe6b18..0913266 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -140,6 +140,10 @@ ConfigBlock *ConfigurationScript::Interpret(vector<ConfigToken*>& tkns) {
 
 	blck = rootblock;
 
+	// An empty script is a valid script
+	if (tokent() == CTKN_EOF)
+		return rootblock;
+
 	do {
 		try {
 			switch (tokent()) {
-- 
2.43.0


From 58ffca39123136656f2021872394706079cfea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 017/110] fix: recovering from an error at the end of a script
 read past the end of the token stream

---
 src/Configuration/Script/Interpreter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index 0913266..d5b5af6 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -37,6 +37,10 @@ bool ConfigurationScript::advance() {
  */
 bool ConfigurationScript::advanceTo(std::initializer_list<conftoken_t> args) {
 	do {
+		// There is nothing after EOF
+		if (tokent() == CTKN_EOF)
+			return false;
+
 		ConfigToken *tkn = *(this->tknstream+1);
 
 		for (auto type : args) {
-- 
2.43.0


From 3f4a2a11b166bbdc0e44607282de90c31ccfa2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 018/110] fix: a configuration file including itself recursed
 until the stack overflowed

---
 include/softlib/Configuration/ConfigurationScript.h | 2 ++
 src/Configuration/Script/ConfigurationScript.cpp    | 1 +
 src/Configuration/Script/Lexer.cpp                  | 9 +++++++++
 3 files changed, 12 insertions(+)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index a79f99a..fcf5ab9 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -108,6 +108,8 @@ private:
 	size_t cnfbufferpos, cnfbufferlength,
 		   linecounter,		/* Line number */
 		   charpos;			/* Index of character on line */
+	size_t includedepth=0;	/* Number of files currently being included */
+	static const size_t MAX_INCLUDE_DEPTH=64;
 	std::string cnfbuffer;
     std::string file;       /* Name of file currently being read */
 	bool instring,			/* Currently in string (so all characters matter) */
diff --git a/src/Configuration/Script/ConfigurationScript.cpp b/src/Configuration/Script/ConfigurationScript.cpp
index 175ead4..4a78e00 100644
--- a/src/Configuration/Script/ConfigurationScript.cpp
+++ b/src/Configuration/Script/ConfigurationScript.cpp
@@ -65,6 +65,7 @@ void ConfigurationScript::FromStdin() {
  */
 ConfigBlock *ConfigurationScript::FromString(const string& config, const string& src) {
     this->file = src;
+    this->includedepth = 0;
 
 	// Convert the string to a stream of tokens
 	vector<ConfigToken*> tkns = Lex(config);
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 86136b5..2665633 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -146,7 +146,15 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
             name.c_str()
         );
 
+    if (this->includedepth >= MAX_INCLUDE_DEPTH)
+        throw ConfigurationException(
+            this->linecounter, this->charpos, this->filename,
+            "Too deeply nested (or recursive) inclusion of configuration file '%s'.",
+            name.c_str()
+        );
+
     // Save current state
+    this->includedepth++;
     oldname = this->filename;
     this->filename = name;
     
@@ -174,6 +182,7 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     this->cnfbufferpos = bufpos;
     this->cnfbuffer = oldbuf;
     this->filename = oldname;
+    this->includedepth--;
 
     return tkns;
 }
-- 
2.43.0


From 97e2f8bab2739ab1b5fd7ecc26097cf57bf42b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 019/110] fix: blocks of a copied configuration tree had the
 original tree as parent

---
 src/Configuration/ConfigBlock.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 563c66f..fea9359 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -14,13 +14,15 @@ ConfigBlock::ConfigBlock() { }
 ConfigBlock::ConfigBlock(const ConfigBlock *cb) {
     this->type = cb->GetType();
     this->name = cb->GetName();
-    this->secondary_type = cb->GetSecondaryType();
-    this->parent = cb->GetParent();
+    this->secondary_type = cb->secondary_type;
+    this->parent = nullptr;     // The copy is not part of the original tree
 
     // Copy sub-blocks
     vector<ConfigBlock*> sub = cb->GetAllSubBlocks();
-    for (unsigned int i = 0; i < sub.size(); i++)
+    for (unsigned int i = 0; i < sub.size(); i++) {
         subblocks.push_back(new ConfigBlock(sub.at(i)));
+        subblocks.back()->SetParent(this);
+    }
 
     // Copy settings
     vector<Setting*> set = cb->GetAllSettings();
@@ -82,6 +84,7 @@ ConfigBlock *ConfigBlock::AddSubBlock(ConfigBlock *cb) {
     if (HasSubBlock(cb->GetType(), cb->GetName())) {
         return GetConfigBlock(cb->GetType(), cb->GetName());
     } else {
+        cb->SetParent(this);
         this->subblocks.push_back(cb);
         return cb;
     }
-- 
2.43.0


From cc532e89e6b1118c805c5f6d35ce97963e47d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 020/110] fix: merging new settings shared them between both
 trees, so that they were freed twice

---
 src/Configuration/ConfigBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index fea9359..6918043 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -322,7 +322,7 @@ vector<string> *ConfigBlock::Merge(ConfigBlock *cb, bool allowNew) {
 		if (this->HasSetting(set[i]->GetName()))
 			this->MergeSetting(set[i]);
 		else if (allowNew) {
-			this->AddSetting(set[i]);
+			this->AddSetting(set[i]->Copy());
 		} else {
 			if (unknown == nullptr) unknown = new vector<string>();
 			unknown->push_back(set[i]->GetName());
-- 
2.43.0


From 464d734fe6ae03a985dcdbeb64a94dc35b925f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 021/110] fix: assigning a setting twice marked it as used

---
 src/Configuration/ConfigBlock.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 6918043..9bddf95 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -54,18 +54,19 @@ ConfigBlock::~ConfigBlock() {
  * values: List of values.
  */
 Setting *ConfigBlock::AddSetting(Setting *set) {
-    if (HasSetting(set->GetName())) {
-        // Replace setting
-        Setting *s = GetSetting(set->GetName());
-        s->OverwriteValues(set);
+    // Replace setting (which does not count as using it)
+    for (Setting *s : this->settings) {
+        if (s->HasName(set->GetName())) {
+            s->OverwriteValues(set);
 
-        delete set;
+            delete set;
 
-        return s;
-    } else {
-        this->settings.push_back(set);
-        return set;
+            return s;
+        }
     }
+
+    this->settings.push_back(set);
+    return set;
 }
 
 /**
-- 
2.43.0


From f5f71629cfca3a89b8b1b684d85b2e5db5d90ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:58 +0000
Subject: [PATCH 022/110] fix: default-constructed configuration blocks had an
 undefined type and parent

---
 src/Configuration/ConfigBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 9bddf95..71c8d48 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -10,7 +10,7 @@ using namespace std;
 /**
  * Constructor & Destructor
  */
-ConfigBlock::ConfigBlock() { }
+ConfigBlock::ConfigBlock() : type(0), parent(nullptr) { }
 ConfigBlock::ConfigBlock(const ConfigBlock *cb) {
     this->type = cb->GetType();
     this->name = cb->GetName();
-- 
2.43.0


From 25900212672a980d60865433f38f40bac3ab93c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:28 +0000
Subject: [PATCH 023/110] fix: text that only starts with a number, or
 overflows, was reported to be a number

---
 src/Configuration/Script/SettingScript.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 6af9591..99c9cdf 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -243,13 +243,17 @@ bool SettingScript::IsScalar() const {
 bool SettingScript::IsScalar(unsigned int i) const {
 	const string& value = this->values.at(i);
 
+	size_t end = 0;
+
 	try {
-		stod(value, NULL);
+		stod(value, &end);
 	} catch (invalid_argument& e) {
 		return false;
+	} catch (out_of_range& e) {
+		return false;
 	}
 
-	return true;
+	return (end == value.length());
 }
 
 /**
@@ -260,11 +264,8 @@ bool SettingScript::IsScalar(unsigned int i) const {
 bool SettingScript::IsNumericVector() const {
 	size_t l = this->values.size();
 	for (size_t i = 0; i < l; i++) {
-		try {
-			stod(this->values[i], NULL);
-		} catch (invalid_argument& e) {
+		if (!IsScalar(i))
 			return false;
-		}
 	}
 
 	return true;
-- 
2.43.0


From 99e1b2fa123b101194b2b64313acc19f52c26b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:28 +0000
Subject: [PATCH 024/110] fix: negative and too large values were reported to
 be unsigned integers

---
 src/Configuration/Script/SettingScript.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 99c9cdf..9a5fe56 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -1,4 +1,5 @@
 
+#include <limits>
 #include <string>
 #include <vector>
 #include <iostream>
@@ -182,8 +183,13 @@ bool SettingScript::IsUnsignedInteger32(unsigned int i) const {
     const string& value = this->values.at(i);
     size_t end = 0;
 
+    // Negative values would silently be wrapped around
+    if (value.find('-') != string::npos)
+        return false;
+
     try {
-        stoul(value, &end);
+        if (stoull(value, &end) > numeric_limits<uint32_t>::max())
+            return false;
     } catch (invalid_argument& e) {
         return false;
     } catch (out_of_range& e) {
@@ -218,6 +224,10 @@ bool SettingScript::IsUnsignedInteger64(unsigned int i) const {
     const string& value = this->values.at(i);
     size_t end = 0;
 
+    // Negative values would silently be wrapped around
+    if (value.find('-') != string::npos)
+        return false;
+
     try {
         stoull(value, &end);
     } catch (invalid_argument& e) {
-- 
2.43.0


From 495ce8a5b863046d4667083705911aac65bd0eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:28 +0000
Subject: [PATCH 025/110] fix: reading a setting as a number ignored trailing
 garbage or raised a foreign exception

---
 src/Configuration/Script/SettingScript.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 9a5fe56..52bdb3e 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -59,9 +59,15 @@ int64_t SettingScript::GetInteger(unsigned int index) const { return GetInteger6
  * Get the value as a 32-bit signed/unsigned integer.
  */
 int32_t SettingScript::GetInteger32(unsigned int index) const {
+    if (!IsInteger32(index))
+        throw ConfigurationException("The value of setting '%s' is not a 32-bit integer.", this->name.c_str());
+
     return stoi(this->values.at(index));
 }
 uint32_t SettingScript::GetUnsignedInteger32(unsigned int index) const {
+    if (!IsUnsignedInteger32(index))
+        throw ConfigurationException("The value of setting '%s' is not an unsigned 32-bit integer.", this->name.c_str());
+
     return stoul(this->values.at(index));
 }
 
@@ -69,9 +75,15 @@ uint32_t SettingScript::GetUnsignedInteger32(unsigned int index) const {
  * Get the value as a 64-bit signed integer.
  */
 int64_t SettingScript::GetInteger64(unsigned int index) const {
+    if (!IsInteger64(index))
+        throw ConfigurationException("The value of setting '%s' is not a 64-bit integer.", this->name.c_str());
+
     return stoll(this->values.at(index));
 }
 uint64_t SettingScript::GetUnsignedInteger64(unsigned int index) const {
+    if (!IsUnsignedInteger64(index))
+        throw ConfigurationException("The value of setting '%s' is not an unsigned 64-bit integer.", this->name.c_str());
+
     return stoull(this->values.at(index));
 }
 
@@ -79,6 +91,9 @@ uint64_t SettingScript::GetUnsignedInteger64(unsigned int index) const {
  * Get the value as a scalar
  */
 slibreal_t SettingScript::GetScalar(unsigned int index) const {
+    if (!IsScalar(index))
+        throw ConfigurationException("The value of setting '%s' is not a number.", this->name.c_str());
+
     if (is_same<slibreal_t, float>::value)
         return stof(this->values.at(index), NULL);
     else if (is_same<slibreal_t, double>::value)
@@ -102,7 +117,7 @@ vector<double> SettingScript::GetNumericVector() const {
 	vector<double> ret = vector<double>(l, 0.0);
 
 	for (size_t i = 0; i < l; i++) {
-		ret[i] = stod(this->values[i], NULL);
+		ret[i] = GetScalar(i);
 	}
 
 	return ret;
-- 
2.43.0


From 96e40172dc8b6db28801d93566ed96b67f40f85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:28 +0000
Subject: [PATCH 026/110] fix: overwriting, copying and vector reads of native
 settings returned wrong or duplicated values

---
 src/Configuration/SFile/SettingSFile.cpp | 40 ++++++++++++++----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 4cbf8c0..5723069 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -40,8 +40,8 @@ void SettingSFile::DeleteCurrent() {
  *    of this setting.
  */
 void SettingSFile::OverwriteValues(const Setting *s) {
-    if (typeid(s) == typeid(SettingSFile*)) {
-        const SettingSFile *ss = (SettingSFile*)s;
+    if (typeid(*s) == typeid(SettingSFile)) {
+        const SettingSFile *ss = (const SettingSFile*)s;
 
         switch (ss->dtype) {
             case DataType::BOOL:   this->SetValueBool(new vector<bool>(*(ss->data.b))); break;
@@ -57,45 +57,45 @@ void SettingSFile::OverwriteValues(const Setting *s) {
         }
     } else {
         if (s->IsBool()) {
-            vector<bool> *v = new vector<bool>(s->GetNumberOfValues());
+            vector<bool> *v = new vector<bool>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetBool(i));
 
             this->SetValueBool(v);
         } else if (s->IsInteger32()) {
-            vector<int32_t> *v = new vector<int32_t>(s->GetNumberOfValues());
+            vector<int32_t> *v = new vector<int32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger32(i));
 
             this->SetValueInt32(v);
         } else if (s->IsInteger64()) {
-            vector<int64_t> *v = new vector<int64_t>(s->GetNumberOfValues());
+            vector<int64_t> *v = new vector<int64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger64(i));
 
             this->SetValueInt64(v);
         } else if (s->IsUnsignedInteger32()) {
-            vector<uint32_t> *v = new vector<uint32_t>(s->GetNumberOfValues());
+            vector<uint32_t> *v = new vector<uint32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger32(i));
 
             this->SetValueUInt32(v);
         } else if (s->IsUnsignedInteger64()) {
-            vector<uint64_t> *v = new vector<uint64_t>(s->GetNumberOfValues());
+            vector<uint64_t> *v = new vector<uint64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger64(i));
 
             this->SetValueUInt64(v);
         } else if (s->IsNumericVector()) {
-            vector<slibreal_t> *v = new vector<slibreal_t>(s->GetNumberOfValues());
+            vector<slibreal_t> *v = new vector<slibreal_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetScalar(i));
 
             this->SetValueReal(v);
         } else { // String
-            vector<string> *v = new vector<string>(s->GetNumberOfValues());
+            vector<string> *v = new vector<string>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
-                v->push_back(s->GetString());
+                v->push_back(s->GetString(i));
 
             this->SetValueString(v);
         }
@@ -106,16 +106,24 @@ void SettingSFile::OverwriteValues(const Setting *s) {
  * Make a copy of this setting.
  */
 Setting *SettingSFile::Copy() {
+    SettingSFile *c;
+
     switch (this->dtype) {
-        case DataType::BOOL:   return new SettingSFile(new vector<bool>(*(this->data.b)));
-        case DataType::INT32:  return new SettingSFile(new vector<int32_t>(*(this->data.i32)));
-        case DataType::INT64:  return new SettingSFile(new vector<int64_t>(*(this->data.i64)));
-        case DataType::UINT32: return new SettingSFile(new vector<uint32_t>(*(this->data.u32)));
-        case DataType::UINT64: return new SettingSFile(new vector<uint64_t>(*(this->data.u64)));
+        case DataType::BOOL:   c = new SettingSFile(new vector<bool>(*(this->data.b))); break;
+        case DataType::INT32:  c = new SettingSFile(new vector<int32_t>(*(this->data.i32))); break;
+        case DataType::INT64:  c = new SettingSFile(new vector<int64_t>(*(this->data.i64))); break;
+        case DataType::UINT32: c = new SettingSFile(new vector<uint32_t>(*(this->data.u32))); break;
+        case DataType::UINT64: c = new SettingSFile(new vector<uint64_t>(*(this->data.u64))); break;
+        case DataType::REAL:   c = new SettingSFile(new vector<slibreal_t>(*(this->data.r))); break;
+        case DataType::STRING: c = new SettingSFile(new vector<string>(*(this->data.s))); break;
 
         default:
             throw ConfigurationException("The data in setting '%s' is of unrecognized type.", this->name.c_str());
     }
+
+    c->name = this->name;
+
+    return c;
 }
 
 /************************
@@ -162,7 +170,7 @@ string SettingSFile::GetString(unsigned int index) const {
         throw ConfigurationException("The data in setting '%s' is not of string type.", this->name.c_str());
 }
 vector<slibreal_t> SettingSFile::GetNumericVector() const {
-    vector<slibreal_t> v(GetNumberOfValues());
+    vector<slibreal_t> v;
 
     switch (this->dtype) {
         case DataType::INT32:
-- 
2.43.0


From aa17835d36717b0eb4e3a02fb8c6a47bda51d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:39 +0000
Subject: [PATCH 027/110] fix: native settings were reported to be integers
 regardless of value and number of values, and truncated when read

---
 src/Configuration/SFile/SettingSFile.cpp | 111 +++++++++++++++--------
 1 file changed, 74 insertions(+), 37 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 5723069..8090c66 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -2,7 +2,9 @@
  * Implementation of the SFile Setting.
  */
 
+#include <cmath>
 #include <limits>
+#include <typeinfo>
 #include <vector>
 #include <softlib/Configuration/ConfigurationSFile.h>
 
@@ -130,12 +132,15 @@ Setting *SettingSFile::Copy() {
  * GETTERS              *
  ************************/
 bool SettingSFile::GetBool(unsigned int index) const {
-    if (IsBool())
+    if (this->dtype == DataType::BOOL)
         return this->data.b->at(index);
     else
         throw ConfigurationException("The data in setting '%s' is not of boolean type.", this->name.c_str());
 }
 int64_t SettingSFile::GetInteger(unsigned int index) const  {
+    if (!IsInteger(index))
+        throw ConfigurationException("The data in setting '%s' is not of integer type.", this->name.c_str());
+
     switch (this->dtype) {
         case DataType::INT32:  return this->data.i32->at(index);
         case DataType::INT64:  return this->data.i64->at(index);
@@ -147,10 +152,29 @@ int64_t SettingSFile::GetInteger(unsigned int index) const  {
             throw ConfigurationException("The data in setting '%s' is not of integer type.", this->name.c_str());
     }
 }
-int32_t SettingSFile::GetInteger32(unsigned int index) const { return (int32_t)GetInteger(index); }
-uint32_t SettingSFile::GetUnsignedInteger32(unsigned int index) const {return (uint32_t)GetInteger(index); }
+int32_t SettingSFile::GetInteger32(unsigned int index) const {
+    if (!IsInteger32(index))
+        throw ConfigurationException("The data in setting '%s' is not a 32-bit integer.", this->name.c_str());
+
+    return (int32_t)GetInteger(index);
+}
+uint32_t SettingSFile::GetUnsignedInteger32(unsigned int index) const {
+    if (!IsUnsignedInteger32(index))
+        throw ConfigurationException("The data in setting '%s' is not an unsigned 32-bit integer.", this->name.c_str());
+
+    return (uint32_t)GetUnsignedInteger64(index);
+}
 int64_t SettingSFile::GetInteger64(unsigned int index) const { return GetInteger(index); }
-uint64_t SettingSFile::GetUnsignedInteger64(unsigned int index) const { return (uint64_t)GetInteger(index); }
+uint64_t SettingSFile::GetUnsignedInteger64(unsigned int index) const {
+    if (!IsUnsignedInteger64(index))
+        throw ConfigurationException("The data in setting '%s' is not an unsigned 64-bit integer.", this->name.c_str());
+
+    switch (this->dtype) {
+        case DataType::UINT64: return this->data.u64->at(index);
+        case DataType::REAL:   return (uint64_t)this->data.r->at(index);
+        default:               return (uint64_t)GetInteger(index);
+    }
+}
 slibreal_t SettingSFile::GetScalar(unsigned int index) const {
     switch (this->dtype) {
         case DataType::INT32:  return (slibreal_t)this->data.i32->at(index);
@@ -225,22 +249,14 @@ size_t SettingSFile::GetNumberOfValues() const {
 /************************
  * IS's                 *
  ************************/
-bool SettingSFile::IsBool() const { return (this->dtype == DataType::BOOL); }
-bool SettingSFile::IsBool(unsigned int) const { return IsBool(); }
-bool SettingSFile::IsInteger() const {
-    switch (this->dtype) {
-        case DataType::INT32: case DataType::INT64:
-        case DataType::UINT32: case DataType::UINT64:
-        case DataType::REAL:
-        return true;
-        
-        default: return false;
-    }
-}
-bool SettingSFile::IsInteger(unsigned int) const { return IsInteger(); }
-bool SettingSFile::IsInteger32() const {
-    if (IsInteger()) {
-        int64_t i = GetInteger();
+bool SettingSFile::IsBool() const { return (IsBool(0) && GetNumberOfValues() == 1); }
+bool SettingSFile::IsBool(unsigned int) const { return (this->dtype == DataType::BOOL); }
+bool SettingSFile::IsInteger() const { return IsInteger64(); }
+bool SettingSFile::IsInteger(unsigned int index) const { return IsInteger64(index); }
+bool SettingSFile::IsInteger32() const { return (IsInteger() && IsInteger32(0)); }
+bool SettingSFile::IsInteger32(unsigned int index) const {
+    if (IsInteger(index)) {
+        int64_t i = GetInteger(index);
         if (i <= std::numeric_limits<int32_t>::max() &&
             i >= std::numeric_limits<int32_t>::min())
             return true;
@@ -249,22 +265,32 @@ bool SettingSFile::IsInteger32() const {
     } else
         return false;
 }
-bool SettingSFile::IsInteger32(unsigned int) const { return IsInteger32(); }
-bool SettingSFile::IsInteger64() const { return (this->dtype == DataType::INT64); }
-bool SettingSFile::IsInteger64(unsigned int) const { return IsInteger64(); }
-bool SettingSFile::IsUnsignedInteger32() const { return IsUnsignedInteger32(0); }
+bool SettingSFile::IsInteger64() const { return (IsNumericVector(1) && IsInteger64(0)); }
+bool SettingSFile::IsInteger64(unsigned int index) const {
+    switch (this->dtype) {
+        case DataType::INT32: case DataType::INT64:
+        case DataType::UINT32:
+            return true;
+        case DataType::UINT64:
+            return (this->data.u64->at(index) <= (uint64_t)std::numeric_limits<int64_t>::max());
+        case DataType::REAL: {
+            // Integer-valued and in the range of int64_t
+            slibreal_t r = this->data.r->at(index);
+            return (r == std::floor(r) && r >= -9223372036854775808.0 && r < 9223372036854775808.0);
+        }
+
+        default: return false;
+    }
+}
+bool SettingSFile::IsUnsignedInteger32() const { return (IsNumericVector(1) && IsUnsignedInteger32(0)); }
 bool SettingSFile::IsUnsignedInteger32(unsigned int index) const {
     // Make sure data is >= 0
     if (!IsUnsignedInteger64(index))
         return false;
 
-    int64_t i = GetInteger(index);
-    if (i <= std::numeric_limits<uint32_t>::max())
-        return true;
-    else
-        return false;
+    return (GetUnsignedInteger64(index) <= std::numeric_limits<uint32_t>::max());
 }
-bool SettingSFile::IsUnsignedInteger64() const { return IsUnsignedInteger64(0); }
+bool SettingSFile::IsUnsignedInteger64() const { return (IsNumericVector(1) && IsUnsignedInteger64(0)); }
 bool SettingSFile::IsUnsignedInteger64(unsigned int index) const { 
     // Make sure data is >= 0
     switch (this->dtype) {
@@ -272,8 +298,10 @@ bool SettingSFile::IsUnsignedInteger64(unsigned int index) const {
             return (this->data.i32->at(index) >= 0);
         case DataType::INT64:
             return (this->data.i64->at(index) >= 0);
-        case DataType::REAL:
-            return (this->data.r->at(index) >= 0);
+        case DataType::REAL: {
+            slibreal_t r = this->data.r->at(index);
+            return (r == std::floor(r) && r >= 0 && r < 18446744073709551616.0);
+        }
 
         case DataType::UINT32:
         case DataType::UINT64:
@@ -283,12 +311,21 @@ bool SettingSFile::IsUnsignedInteger64(unsigned int index) const {
             return false;
     }
 }
-bool SettingSFile::IsScalar() const {
-    return (IsInteger() && this->GetNumberOfValues() == 1);
+bool SettingSFile::IsScalar() const { return IsNumericVector(1); }
+bool SettingSFile::IsScalar(unsigned int) const { return IsNumericVector(); }
+bool SettingSFile::IsNumericVector() const {
+    switch (this->dtype) {
+        case DataType::INT32: case DataType::INT64:
+        case DataType::UINT32: case DataType::UINT64:
+        case DataType::REAL:
+        return true;
+        
+        default: return false;
+    }
+}
+bool SettingSFile::IsNumericVector(unsigned int n) const {
+    return (IsNumericVector() && this->GetNumberOfValues() == n);
 }
-bool SettingSFile::IsScalar(unsigned int) const { return IsScalar(); }
-bool SettingSFile::IsNumericVector() const { return IsInteger(); }
-bool SettingSFile::IsNumericVector(unsigned int) const { return IsNumericVector(); }
 
 /************************
  * SETTERS              *
-- 
2.43.0


From 8bb22039acade04bb103d72cba0d2fa3076884ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:15 +0000
Subject: [PATCH 028/110] fix: an unterminated string ending in a symbol at the
 end of the script was accepted

---
 src/Configuration/Script/Lexer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 2665633..98715fe 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -249,6 +249,13 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 		}
 	}
 
+	// The end of a string or file name must not be missing
+	if (this->instring || this->ininclude)
+		throw ConfigurationException(
+			this->linecounter, this->charpos, this->filename,
+			"Unexpected end of file. Unterminated %s.", this->instring ? "string" : "file name"
+		);
+
 	// Push remaining buffer
     if (!buffer.empty())
         pushbuffer(buffer, tkns);
-- 
2.43.0


From 22c956b14b7b71d3155850416b7f67714987aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:15 +0000
Subject: [PATCH 029/110] fix: copying a configuration that has not read a
 script yet copied uninitialised flags

---
 include/softlib/Configuration/ConfigurationScript.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index fcf5ab9..1eb0c1f 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -105,17 +105,17 @@ public:
 	ConfigBlock *FromString(const std::string&, const std::string& src="<unknown>");
 private:
 	/* Lexer properties/methods */
-	size_t cnfbufferpos, cnfbufferlength,
-		   linecounter,		/* Line number */
-		   charpos;			/* Index of character on line */
+	size_t cnfbufferpos=0, cnfbufferlength=0,
+		   linecounter=1,	/* Line number */
+		   charpos=1;		/* Index of character on line */
 	size_t includedepth=0;	/* Number of files currently being included */
 	static const size_t MAX_INCLUDE_DEPTH=64;
 	std::string cnfbuffer;
     std::string file;       /* Name of file currently being read */
-	bool instring,			/* Currently in string (so all characters matter) */
-         ininclude,         /* Currently between '<' and '>', meaning the text contains the name
+	bool instring=false,	/* Currently in string (so all characters matter) */
+         ininclude=false,         /* Currently between '<' and '>', meaning the text contains the name
                                of a file to be "included". */
-		 prevws;			/* Previous character was whitespace, so any ws can be safely ignored */
+		 prevws=false;			/* Previous character was whitespace, so any ws can be safely ignored */
 
 	std::vector<ConfigToken*> Lex(const std::string&);
 
-- 
2.43.0


From f6abea28cbc6dc1c11eb2a589d1ee0fe6ac988a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:46 +0000
Subject: [PATCH 030/110] fix: matrix assignment, addition and multiplication
 by a vector from the left did not compile

---
 include/softlib/General/Matrix.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 0bcff02..eaa01b7 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -124,7 +124,7 @@ unsigned int Matrix<M,N,T>::Cols() const { return N; }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = mat[i];
+        elems[i] = mat(i);
 
     return *this;
 }
@@ -137,7 +137,7 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator+=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] += mat[i];
+        elems[i] += mat(i);
 
     return *this;
 }
@@ -351,7 +351,7 @@ Vector<N,T> operator*(const Vector<M,T>& l, const Matrix<M,N,T>& r) {
     for (unsigned int i = 0; i < N; i++) {
         T sum = 0;
         for (unsigned int j = 0; j < M; j++)
-            sum += l(j,i) * r[j];
+            sum += l[j] * r(j,i);
 
         vec[i] = sum;
     }
-- 
2.43.0


From a4a67110ac4bbdb754c02976ae57fb12ba37bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:46 +0000
Subject: [PATCH 031/110] fix: multiplying a matrix by a scalar added the
 scalar, and scalar minus matrix had the wrong sign

---
 include/softlib/General/Matrix.tcc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index eaa01b7..954363b 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -281,7 +281,8 @@ Matrix<M,N,T> operator-(const Matrix<M,N,T>& lhs, const T rhs) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator-(const T lhs, const Matrix<M,N,T>& rhs) {
     Matrix<M,N,T> C(rhs);
-    C -= lhs;
+    C *= -1;
+    C += lhs;
     return C;
 }
 
@@ -311,13 +312,13 @@ Matrix<M,K,T> operator*(const Matrix<M,N,T>& l, const Matrix<N,K,T>& r) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const Matrix<M,N,T>& l, const T r) {
     Matrix<M,N,T> C(l);
-    C += r;
+    C *= r;
     return C;
 }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const T l, const Matrix<M,N,T>& r) {
     Matrix<M,N,T> C(r);
-    C += l;
+    C *= l;
     return C;
 }
 
-- 
2.43.0


From c43f68ab268c758565c7ab964e222454f84676d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:46 +0000
Subject: [PATCH 032/110] fix: the matrix compound product overwrote elements
 it still needed, and negating a matrix changed it

---
 include/softlib/General/Matrix.tcc | 24 ++++++++----------------
 include/softlib/Matrix.h           |  4 ++--
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 954363b..f609c93 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -191,18 +191,9 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator-=(const T s) {
  * mat: Matrix to multiply with.
  */
 template<unsigned int M, unsigned int N, class T>
-Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const Matrix<N,M,T>& mat) {
-    for (unsigned int i = 0; i < M; i++) {
-        for (unsigned int j = 0; j < M; j++) {
-            T sum = 0;
-            for (unsigned k = 0; k < N; k++)
-                sum += elems[i*N+k] * mat(k,j);
-
-            elems[i*N+j] = sum;
-        }
-    }
-
-    return *this;
+Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const Matrix<N,N,T>& mat) {
+    // All elements are needed until the product is complete
+    return (*this = (*this) * mat);
 }
 
 /**
@@ -219,14 +210,15 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const T s) {
 }
 
 /**
- * Negate all elements of this matrix.
+ * Returns this matrix with all elements negated.
  */
 template<unsigned int M, unsigned int N, class T>
-Matrix<M,N,T>& Matrix<M,N,T>::operator-() {
+Matrix<M,N,T> Matrix<M,N,T>::operator-() const {
+    Matrix<M,N,T> C;
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = -elems[i];
+        C(i) = -elems[i];
 
-    return *this;
+    return C;
 }
 
 
diff --git a/include/softlib/Matrix.h b/include/softlib/Matrix.h
index a5b346f..f8cd391 100644
--- a/include/softlib/Matrix.h
+++ b/include/softlib/Matrix.h
@@ -32,9 +32,9 @@ class Matrix {
         Matrix<M,N,T>& operator+=(const T);
         Matrix<M,N,T>& operator-=(const Matrix<M,N,T>&);
         Matrix<M,N,T>& operator-=(const T);
-        Matrix<M,N,T>& operator*=(const Matrix<N,M,T>&);
+        Matrix<M,N,T>& operator*=(const Matrix<N,N,T>&);
         Matrix<M,N,T>& operator*=(const T);
-        Matrix<M,N,T>& operator-();
+        Matrix<M,N,T> operator-() const;
 
         unsigned int Rows() const;
         unsigned int Cols() const;
-- 
2.43.0


From 275a4103880f51b8da4ee78be7cfd3c1da1d7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:46 +0000
Subject: [PATCH 033/110] fix: scaling a vector by its own element and cross
 products into an operand used overwritten values

---
 include/softlib/General/Vector.tcc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/softlib/General/Vector.tcc b/include/softlib/General/Vector.tcc
index a819e18..7e0c579 100644
--- a/include/softlib/General/Vector.tcc
+++ b/include/softlib/General/Vector.tcc
@@ -102,8 +102,9 @@ Vector<N,T>& Vector<N,T>::operator+=(const Vector<N,T>& v) {
 }
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator+=(const T& s) {
+	const T a = s;	// (may be an element of this vector)
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] += s;
+		elems[i] += a;
 
 	return *this;
 }
@@ -124,8 +125,9 @@ Vector<N,T>& Vector<N,T>::operator-=(const Vector<N,T>& v) {
 }
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
+	const T a = s;	// (may be an element of this vector)
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] -= s;
+		elems[i] -= a;
 
 	return *this;
 }
@@ -137,8 +139,9 @@ Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
  */
 template<unsigned int N, class T>
 Vector<N,T>& Vector<N,T>::operator*=(const T& s) {
+	const T a = s;	// (may be an element of this vector)
 	for (unsigned int i = 0; i < N; i++)
-		elems[i] *= s;
+		elems[i] *= a;
 
 	return *this;
 }
@@ -306,9 +309,15 @@ Vector<N,T> &Vector<N,T>::Cross(const Vector<N,T> &a, const Vector<N,T> &b, Vect
     if (N != 3)
         throw SOFTLibException("Cross products are only defined for 3-vectors.");
     else {
-        c[0] = a[1]*b[2] - a[2]*b[1];
-        c[1] = a[2]*b[0] - a[0]*b[2];
-        c[2] = a[0]*b[1] - a[1]*b[0];
+        // 'c' may be the same vector as 'a' or 'b'
+        const T
+            c0 = a[1]*b[2] - a[2]*b[1],
+            c1 = a[2]*b[0] - a[0]*b[2],
+            c2 = a[0]*b[1] - a[1]*b[0];
+
+        c[0] = c0;
+        c[1] = c1;
+        c[2] = c2;
 
         return c;
     }
-- 
2.43.0


From 4ef08070788497156068d35fef4374c4ba8dc7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:46 +0000
Subject: [PATCH 034/110] fix: the located maximum was taken from the half of
 the bracket that does not contain it

---
 src/Integration/PeakedIntegration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Integration/PeakedIntegration.cpp b/src/Integration/PeakedIntegration.cpp
index 1044351..60ce020 100644
--- a/src/Integration/PeakedIntegration.cpp
+++ b/src/Integration/PeakedIntegration.cpp
@@ -128,7 +128,7 @@ slibreal_t PeakedIntegration::FindMaximum(
         }
     }
 
-    if (yc < yd)
+    if (yc > yd)
         return 0.5*(a+d);
     else
         return 0.5*(b+c);
-- 
2.43.0


From 28dda0465fedacf0e34c19e05597afb591174780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:46 +0000
Subject: [PATCH 035/110] fix: the integrand was evaluated outside of the
 integration interval

---
 .../softlib/Integration/PeakedIntegration.h   |  4 +++-
 src/Integration/PeakedIntegration.cpp         | 21 +++++++++----------
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/softlib/Integration/PeakedIntegration.h b/include/softlib/Integration/PeakedIntegration.h
index dd46f0d..dfe84e0 100644
--- a/include/softlib/Integration/PeakedIntegration.h
+++ b/include/softlib/Integration/PeakedIntegration.h
@@ -1,6 +1,7 @@
 #ifndef _SOFTLIB_PEAKED_INTEGRATION_H
 #define _SOFTLIB_PEAKED_INTEGRATION_H
 
+#include <cmath>
 #include <functional>
 #include <softlib/config.h>
 
@@ -20,7 +21,8 @@ class PeakedIntegration {
             const slibreal_t, const slibreal_t
         );
         slibreal_t FindMaximum(
-            std::function<slibreal_t(slibreal_t)>&, const slibreal_t tol=1e-2
+            std::function<slibreal_t(slibreal_t)>&, const slibreal_t tol=1e-2,
+            const slibreal_t amin=0.0, const slibreal_t bmax=2.0*M_PI
         );
 };
 
diff --git a/src/Integration/PeakedIntegration.cpp b/src/Integration/PeakedIntegration.cpp
index 60ce020..2bb2b08 100644
--- a/src/Integration/PeakedIntegration.cpp
+++ b/src/Integration/PeakedIntegration.cpp
@@ -32,7 +32,7 @@ slibreal_t PeakedIntegration::Evaluate(
     const slibreal_t a, const slibreal_t b,
     const slibreal_t falloff, const slibreal_t cutoff
 ) {
-    slibreal_t m = FindMaximum(f);
+    slibreal_t m = FindMaximum(f, 1e-2, a, b);
     slibreal_t fmax = f(m);
 
     return Evaluate(f, a, b, falloff, cutoff, m, fmax);
@@ -52,8 +52,8 @@ slibreal_t PeakedIntegration::Evaluate(
         throw SOFTLibException("PeakedIntegral: The fall-off must be non-zero.");
     
     delta = falloff;
-    fpval = f(maximum+delta);
-    fmval = f(maximum-delta);
+    fpval = (maximum+delta < b) ? f(maximum+delta) : 0;
+    fmval = (maximum-delta > a) ? f(maximum-delta) : 0;
 
     while (max(fpval, fmval) > cf) {
         if (fpval > fmax)
@@ -84,23 +84,22 @@ slibreal_t PeakedIntegration::Evaluate(
  * Locate the maximum of the given
  * unimodal function.
  *
- * f:   Unimodal function to find maximum of.
- * tol: Desired tolerance of the maximum.
+ * f:          Unimodal function to find maximum of.
+ * tol:        Desired tolerance of the maximum.
+ * amin, bmax: Interval in which to look for the maximum.
  *
  * RETURNS the location of the maximum of f.
  */
 slibreal_t PeakedIntegration::FindMaximum(
     function<slibreal_t(slibreal_t)> &f,
-    const slibreal_t tol
+    const slibreal_t tol, const slibreal_t amin, const slibreal_t bmax
 ) {
     const slibreal_t invphi = 0.5*(sqrt(5.0)-1.0), invphi2 = invphi*invphi;
     unsigned int i, nmax;
     slibreal_t a, b, c, d, h, yc, yd;
 
-    // To leading order, we expect
-    // a maximum at pi/2
-    a = 0.0;
-    b = 2.0*M_PI;
+    a = amin;
+    b = bmax;
     h = b-a;
 
     c  = a + invphi2 * h;
@@ -108,7 +107,7 @@ slibreal_t PeakedIntegration::FindMaximum(
     yc = f(c);
     yd = f(d);
 
-    nmax = (unsigned int)(log(tol/h) / log(invphi));
+    nmax = (h > tol) ? (unsigned int)(log(tol/h) / log(invphi)) : 0;
 
     for (i = 0; i < nmax; i++) {
         if (yc > yd) {
-- 
2.43.0


From cc45eb10ab128f7efc77f734f3f609cb46f06f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:02 +0000
Subject: [PATCH 036/110] fix: a re-used Runge-Kutta solver started with the
 step size of the previous problem

---
 include/softlib/Integrator/RungeKutta.tcc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index dce4ea0..2ef416b 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -74,6 +74,11 @@ void RungeKutta<N>::InitialValue(const Vector<N>& y0) {
 
     this->ntimesteps = 0;
 
+	/* Forget about the previous problem */
+	this->errold = 1.0e-4;
+	this->optimal_step = 1.0;
+	this->previous_step_rejected = false;
+
 	StoreSolution(0.0, y0, yp0);
 }
 
-- 
2.43.0


From 7c5c71e96fd8f1760e9721bdbee8f05238a69c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:02 +0000
Subject: [PATCH 037/110] fix: dense output read non-existing steps or
 extrapolated silently for non-increasing times

---
 include/softlib/Integrator/RKDP45.tcc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 6496e0c..9e45a62 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -95,9 +95,22 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
 	unsigned int it = 0, i, j, indx;
 	slibreal_t T, s, s1, stepsize;
 
+	if (!this->HasDenseOutput() || this->ntimesteps < 2)
+		throw SOFTLibException("No dense output is available from the integrator.");
+
 	for (i = 0; i < nt; i++) {
         T = time[i];
 
+		/* Start over if the times are not increasing */
+		if (T < this->time[it])
+			it = 0;
+
+		if (T < this->time[it])
+			throw SOFTLibException(
+                "The requested tmin requires extrapolation. T = %e, tmin = %e",
+                T, this->time[it]
+            );
+
 		/* Find next time */
 		while (it+2 < this->ntimesteps && this->time[it+1] < T)
 			it++;
-- 
2.43.0


From ada0276e84caee006eed9acdac01b4519426056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 038/110] fix: keep the last character of long exception
 messages and release the formatting buffer

---
 include/softlib/SOFTLibException.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/softlib/SOFTLibException.h b/include/softlib/SOFTLibException.h
index 4620bca..c75f9c7 100644
--- a/include/softlib/SOFTLibException.h
+++ b/include/softlib/SOFTLibException.h
@@ -1,6 +1,8 @@
 #ifndef _SOFTLIB_EXCEPTION_H
 #define _SOFTLIB_EXCEPTION_H
 
+#include <cstdio>
+#include <cstdlib>
 #include <exception>
 #include <string>
 
@@ -30,9 +32,11 @@ class SOFTLibException : public std::exception {
 				this->errormsg = msg;
 			} else if (n >= SOFTLIBEXCEPTION_BUFFER_SIZE) {
 				buffer = (char*)realloc(buffer, sizeof(char)*(n+1));
-				n = snprintf(buffer, n, msg.c_str(), std::forward<Args>(args) ...);
+				n = snprintf(buffer, n+1, msg.c_str(), std::forward<Args>(args) ...);
 				this->errormsg = buffer;
 			} else this->errormsg = buffer;
+
+			free(buffer);
         }
 
 		virtual const char* what() const throw();
-- 
2.43.0


From 87905a0cd3e18bb2d3a825819bc39ee4c1f71946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 039/110] fix: do not use the file name as a format string in
 verification vector errors

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 0eaba73..1ef8735 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -540,21 +540,21 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
     /* Verify magnetic fields (check along R dimension) */
     if (nverBr > this->nr)
-        throw SFileException(filename+": Verification vector 'verBr' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBr' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBr; i++) {
         if (_Br[0][i] != _verBr[i])
             throw SFileException(filename+": Magnetic field component 'Br' did not match its verification vector.");
     }
 
     if (nverBphi > this->nr)
-        throw SFileException(filename+": Verification vector 'verBphi' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBphi' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBphi; i++) {
         if (_Bphi[0][i] != _verBphi[i])
             throw SFileException(filename+": Magnetic field component 'Bphi' did not match its verification vector.");
     }
 
     if (nverBz > this->nr)
-        throw SFileException(filename+": Verification vector 'verBz' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBz' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBz; i++) {
         if (_Bz[0][i] != _verBz[i])
             throw SFileException(filename+": Magnetic field component 'Bz' did not match its verification vector.");
-- 
2.43.0


From 5af162fe7f5f2ec9779d58dbbafd8a19072031ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 040/110] fix: normalise colour map values with the width of
 the value range

---
 include/softlib/ImageGenerator/ImageColormap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/softlib/ImageGenerator/ImageColormap.h b/include/softlib/ImageGenerator/ImageColormap.h
index 55b8e2a..dc47f86 100644
--- a/include/softlib/ImageGenerator/ImageColormap.h
+++ b/include/softlib/ImageGenerator/ImageColormap.h
@@ -35,7 +35,7 @@ public:
         int l;
         slibreal_t i, f;
 
-        i = ((v-vmin)/vmax * (ncolors-1));
+        i = ((v-vmin)/(vmax-vmin) * (ncolors-1));
         l = floor(i);
 
         scolor_t clr;
-- 
2.43.0


From 5d364dbbe6c05bb2a4cd9b3b9f3d99ccd56426e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 041/110] fix: clamp values far outside of the colour map range
 before converting to an integer index

---
 include/softlib/ImageGenerator/ImageColormap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/ImageGenerator/ImageColormap.h b/include/softlib/ImageGenerator/ImageColormap.h
index dc47f86..af5a8f7 100644
--- a/include/softlib/ImageGenerator/ImageColormap.h
+++ b/include/softlib/ImageGenerator/ImageColormap.h
@@ -36,18 +36,18 @@ public:
         slibreal_t i, f;
 
         i = ((v-vmin)/(vmax-vmin) * (ncolors-1));
-        l = floor(i);
 
         scolor_t clr;
-        if (l >= ((int)ncolors)-1) {
+        if (i >= (slibreal_t)(ncolors-1)) {
             clr.red   = colors[ncolors-1].red;
             clr.green = colors[ncolors-1].green;
             clr.blue  = colors[ncolors-1].blue;
-        } else if (l < 0) {
+        } else if (!(i >= 0)) {
             clr.red   = colors[0].red;
             clr.green = colors[0].green;
             clr.blue  = colors[0].blue;
         } else {
+            l = (int)floor(i);
             f = i - (slibreal_t)l;
 
             // Linearly interpolate in colors
-- 
2.43.0


From 09001a8d53dcccefc97431def49086634b0eefe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:47 +0000
Subject: [PATCH 042/110] fix: report PPM files that cannot be created or
 written

---
 src/ImageGenerator/ImageGeneratorPPM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ImageGenerator/ImageGeneratorPPM.cpp b/src/ImageGenerator/ImageGeneratorPPM.cpp
index c993506..f0543b7 100644
--- a/src/ImageGenerator/ImageGeneratorPPM.cpp
+++ b/src/ImageGenerator/ImageGeneratorPPM.cpp
@@ -19,6 +19,8 @@ void ImageGeneratorPPM::SaveImage(
 ) {
     ofstream file;
     file.open(name);
+    if (!file.is_open())
+        throw SOFTLibException("Unable to create PPM file.");
 
     /********************
      * Write PPM header *
@@ -45,4 +47,6 @@ void ImageGeneratorPPM::SaveImage(
     }
 
     file.close();
+    if (file.fail())
+        throw SOFTLibException("Unable to write PPM file.");
 }
-- 
2.43.0


From 86bb24bc57a5305df76a53c055ec185076bfee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:48 +0000
Subject: [PATCH 043/110] fix: use the default colour map when an image is
 generated without one

---
 src/ImageGenerator/ImageGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ImageGenerator/ImageGenerator.cpp b/src/ImageGenerator/ImageGenerator.cpp
index b92871d..caf380b 100644
--- a/src/ImageGenerator/ImageGenerator.cpp
+++ b/src/ImageGenerator/ImageGenerator.cpp
@@ -35,7 +35,10 @@ void ImageGenerator::gen(
     const unsigned int nrows, const unsigned int ncols, ImageColormap *colormap
 ) {
     ImageGenerator *igen = GetImageGenerator(type);
-    igen->SaveImage(name, img, nrows, ncols, colormap);
+    if (colormap == nullptr)
+        igen->SaveImage(name, img, nrows, ncols, COLORMAP_GERIMAP);
+    else
+        igen->SaveImage(name, img, nrows, ncols, colormap);
     delete igen;
 }
 
-- 
2.43.0


From 6acf92ffc63da401e7406bec8ffc82e1174114b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:48 +0000
Subject: [PATCH 044/110] fix: decompose elapsed times of a day and longer
 correctly

---
 src/General/Timer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index 960a171..93b082d 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -71,11 +71,12 @@ struct Timer::time Timer::GetTimeStruct() const {
     t.tp = duration_cast<microseconds>(toc-tic+offset);
 
     t.days         = duration_cast<hours>(toc-tic+offset) / 24;
-    t.hours        = duration_cast<hours>((toc-t.days)-tic+offset);
-    t.minutes      = duration_cast<minutes>((toc-t.days-t.hours)-tic+offset);
-    t.seconds      = duration_cast<seconds>((toc-t.days-t.hours-t.minutes)-tic+offset);
-    t.milliseconds = duration_cast<milliseconds>((toc-t.days-t.hours-t.minutes-t.seconds)-tic+offset);
-    t.microseconds = duration_cast<microseconds>((toc-t.days-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
+    t.hours        = duration_cast<hours>((toc-t.days*24)-tic+offset);
+    t.minutes      = duration_cast<minutes>((toc-t.days*24-t.hours)-tic+offset);
+    t.seconds      = duration_cast<seconds>((toc-t.days*24-t.hours-t.minutes)-tic+offset);
+    t.milliseconds = duration_cast<milliseconds>((toc-t.days*24-t.hours-t.minutes-t.seconds)-tic+offset);
+    t.microseconds = duration_cast<microseconds>((toc-t.days*24-t.hours-t.minutes-t.seconds-t.milliseconds)-tic+offset);
+    t.total_sec    = duration_cast<seconds>(t.tp);
 
     return t;
 }
-- 
2.43.0


From b07510d8eeff060894214828a087326d8d4d2420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:48 +0000
Subject: [PATCH 045/110] fix: emit every progress report once and in order
 when called from several threads

---
 src/General/ProgressTracker.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/General/ProgressTracker.cpp b/src/General/ProgressTracker.cpp
index 0e67b6e..d3325ef 100644
--- a/src/General/ProgressTracker.cpp
+++ b/src/General/ProgressTracker.cpp
@@ -76,28 +76,22 @@ void ProgressTracker::UpdateNext() {
  * Print progress (if necessary).
  */
 void ProgressTracker::PrintProgress(const long long int i) {
-    const long long int index = this->nextindex;
-    bool returnImmediately = false;
-
 #ifdef _OPENMP
     #pragma omp critical (ProgressTracker_Print)
     {
 #endif
-        if (i < this->next)
-            returnImmediately = true;
-        else
+        if (i >= this->next) {
+            const long long int index = this->nextindex;
             this->UpdateNext();
+
+            if (this->type == PROGRESS_LINES)
+                PrintProgressLines(index);
+
+            this->last->Reset();
+        }
 #ifdef _OPENMP
     }
 #endif
-
-    if (returnImmediately)
-        return;
-
-    if (this->type == PROGRESS_LINES)
-        PrintProgressLines(index);
-
-    this->last->Reset();
 }
 
 /**
-- 
2.43.0


From a5d673f438e463ecc84bf987e26c91fd3c1239b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:55 +0000
Subject: [PATCH 046/110] fix: never report progress more often than requested,
 also when no reports are requested

---
 src/General/ProgressTracker.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/General/ProgressTracker.cpp b/src/General/ProgressTracker.cpp
index d3325ef..24d5eb8 100644
--- a/src/General/ProgressTracker.cpp
+++ b/src/General/ProgressTracker.cpp
@@ -41,14 +41,15 @@ ProgressTracker::ProgressTracker(
     this->colors = colors;
     this->estimate_remaining = estimate;
 
-    this->dprint = n / nprint;
-    this->modlevel = (n % nprint) * (this->dprint+1);
+    this->dprint   = (nprint > 0) ? n / nprint : 0;
+    this->modlevel = (nprint > 0) ? (n % nprint) * (this->dprint+1) : 0;
 
     this->start = new Timer();
     this->last = new Timer();
 
     this->next = 0;
     this->nextindex = 0;
+    this->dt1 = this->dt2 = 0;
     UpdateNext();
 }
 
@@ -80,7 +81,7 @@ void ProgressTracker::PrintProgress(const long long int i) {
     #pragma omp critical (ProgressTracker_Print)
     {
 #endif
-        if (i >= this->next) {
+        if (i >= this->next && this->nextindex <= this->nprint) {
             const long long int index = this->nextindex;
             this->UpdateNext();
 
-- 
2.43.0


From 83ef926093f929d55bffb62e305b715d2c1aed13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 047/110] fix: a clone of a logarithmic momentum-space
 distribution evaluated to the logarithm

---
 .../NumericMomentumSpaceDistributionFunction.cpp                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index 9cd74d7..b761787 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -138,6 +138,7 @@ NumericMomentumSpaceDistributionFunction *NumericMomentumSpaceDistributionFuncti
 
     df->Initialize(this->np, this->nxi, this->p, this->xi, this->f, this->interptype);
     df->FlipPitchSign(this->flipPitchSign);
+    df->SetLogarithmic(this->logarithmic);
     return df;
 }
 
-- 
2.43.0


From 159bcddbe0019cfb2e4d13283d8a8feb3ff5512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 048/110] fix: refuse momentum grids that are not strictly
 increasing instead of aborting

---
 .../NumericMomentumSpaceDistributionFunction.cpp    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index b761787..8c76004 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -76,11 +76,16 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     this->ximin = xi[0];
     this->ximax = xi[nxi-1];
 
-    if (this->pmin > this->pmax)
-        throw SOFTLibException("The p-grid must be strictly increasing.");
+    if (np < 2 || nxi < 2)
+        throw SOFTLibException("The momentum grid must have at least two points in each direction.");
 
-    if (this->ximin > this->ximax)
-        throw SOFTLibException("The xi-grid must be strictly increasing.");
+    for (unsigned int i = 1; i < np; i++)
+        if (!(p[i-1] < p[i]))
+            throw SOFTLibException("The p-grid must be strictly increasing.");
+
+    for (unsigned int i = 1; i < nxi; i++)
+        if (!(xi[i-1] < xi[i]))
+            throw SOFTLibException("The xi-grid must be strictly increasing.");
 
     // Initialize interpolation
     pa = gsl_interp_accel_alloc();
-- 
2.43.0


From 62d77b052439e7a2e5bbb5dea9c2aa7950ab409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 049/110] fix: radial evaluation was undefined at zero radius
 and extrapolated with the wrong slope

---
 .../NumericDistributionFunction.cpp           | 41 +++++++------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 1b4ee2a..ee10d55 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -40,33 +40,20 @@ slibreal_t NumericDistributionFunction::Eval(
     int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (nr == 1) {
-        r0 = rho;
-        r1 = 0;
-
-        f0 = this->msdf[0]->Eval(p, xi);
-        f1 = 0;
-    } else if (ir <= 0) {
-        r0 = 0;
-        r1 = this->r[0];
-        slibreal_t r2 = this->r[1], f2;
-
-        f1 = this->msdf[0]->Eval(p, xi);
-        f2 = this->msdf[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if ((size_t)ir >= nr-1) {
-        r0 = this->r[nr-1];
-        r1 = r0 + (2*r0 - this->r[nr-2]);
-
-        f0 = this->msdf[nr-1]->Eval(p, xi);
-        f1 = 2*f0 - this->msdf[nr-2]->Eval(p, xi);
-    } else {
-        r0 = this->r[ir];
-        r1 = this->r[ir+1];
-
-        f0 = this->msdf[ir]->Eval(p, xi);
-        f1 = this->msdf[ir+1]->Eval(p, xi);
-    }
+    if (nr == 1)
+        return this->msdf[0]->Eval(p, xi);
+
+    // Outside of the grid, extrapolate from the two outermost points
+    if (ir < 0)
+        ir = 0;
+    else if ((size_t)ir >= nr-1)
+        ir = (int)nr-2;
+
+    r0 = this->r[ir];
+    r1 = this->r[ir+1];
+
+    f0 = this->msdf[ir]->Eval(p, xi);
+    f1 = this->msdf[ir+1]->Eval(p, xi);
 
     return ((r1-rho)*f0 + (rho-r0)*f1)/(r1-r0);
 }
-- 
2.43.0


From f85d033d265e664c13f1c0860c4e660997713dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 050/110] fix: distributions inserted at smaller radii were
 placed at the wrong radius

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index ee10d55..0f2c9d6 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -73,7 +73,7 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
     int il, im, iu, nnr = (int)this->r.size();
 
     if (nnr == 0) return -1;
-    else if (nnr == 1) return 0;
+    else if (nnr == 1) return (r < this->r[0] ? -1 : 0);
     ascnd = (this->r[1] > this->r[0]);
     
     il = 0;
@@ -219,10 +219,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     slibreal_t r, NumericMomentumSpaceDistributionFunction *msdf
 ) {
     int ir = __FindNearestR(r);
-    if (ir == -1)
-        this->r.push_back(r);
-    else
-        this->r.insert(this->r.begin() + ir+1, r);
+    this->r.insert(this->r.begin() + ir+1, r);
 
     // Set radial grid limits
     if (this->r.size() == 1)
-- 
2.43.0


From 10fb4b85ae7478cd848a35d4074f91a90ecf8646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 051/110] fix: initialising a radial distribution dropped its
 first radius and mishandled decreasing grids

---
 .../NumericDistributionFunction.cpp           | 27 ++++---------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 0f2c9d6..d81f2fc 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -122,35 +122,18 @@ void NumericDistributionFunction::Initialize(
     bool ascnd = true;
 
     // Ensure that the radial grid is monotonically increasing or decreasing
-    if (nr > 2)
+    if (nr > 1)
         ascnd = (r[1] >= r[0]);
 
     for (unsigned int i = 1; i < nr; i++) {
         if ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i]))
             throw SOFTLibException("Numerical distribution function: The radial grid must be monotonically increasing or decreasing.");
-
-        // Copy radius to radial grid
-        this->r.push_back(r[i]);
     }
 
-    // Set radial grid limits
-    this->rmin = r[0];
-    this->rmax = r[nr-1];
-    if (this->rmin > this->rmax) {
-        slibreal_t t = this->rmin;
-        this->rmin = this->rmax;
-        this->rmax = t;
-    }
-
-    // Initialize momentum space distributions
-    for (unsigned int i = 0; i < nr; i++) {
-        this->msdf.push_back(new NumericMomentumSpaceDistributionFunction());
-
-        if (interptype == INTERPOLATION_LINEAR)
-            this->msdf[i]->Initialize(np, nxi, p, xi, f+i*(np*nxi), NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR);
-        else
-            this->msdf[i]->Initialize(np, nxi, p, xi, f+i*(np*nxi), NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC);
-    }
+    // Initialize momentum space distributions (the radial
+    // grid is always stored in increasing order)
+    for (unsigned int i = 0; i < nr; i++)
+        this->InsertMomentumSpaceDistribution(np, nxi, r[i], p, xi, f+i*(np*nxi), interptype);
 }
 
 /**
-- 
2.43.0


From 6c32ea79e4387bb6ca16877a356f028230e6be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 052/110] fix: logarithmic insertion into a newly allocated
 array used the original values

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index d81f2fc..f8cea17 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -165,11 +165,10 @@ void NumericDistributionFunction::InitializeLog(
 ) {
 	slibreal_t *tf;
 
-    if (alloc) {
+    if (alloc)
         tf = new slibreal_t[nr*np*nxi];
-        for (unsigned int i = 1; i < nr; i++)
-            tf[i] = tf[i-1] + np*nxi;
-    } else tf = f;
+    else
+        tf = f;
 
     for (unsigned int i = 0; i < nr*np*nxi; i++) {
 		if (f[i] <= 0)
@@ -260,7 +259,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistributionLog(
     }
 
     int idx = this->InsertMomentumSpaceDistribution(
-        np, nxi, r, p, xi, f, interptype
+        np, nxi, r, p, xi, tf, interptype
     );
 
     this->msdf[idx]->SetLogarithmic(true);
-- 
2.43.0


From 8286c77ca0724707208de2916d1b5dd58d0e5cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:00 +0000
Subject: [PATCH 053/110] fix: a clone of a radial distribution lost its
 extrapolation setting

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index f8cea17..2413dc6 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -280,6 +280,10 @@ NumericDistributionFunction *NumericDistributionFunction::MinClone() {
         );
     }
 
+    df->allowExtrapolation = this->allowExtrapolation;
+    df->logarithmic = this->logarithmic;
+    df->interptype = this->interptype;
+
     return df;
 }
 
-- 
2.43.0


From 9c89428b2c66cfc0bb8a3eb6d13d5ed9f788c70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:50 +0000
Subject: [PATCH 054/110] fix: Legendre-mode evaluation wrote outside of its
 buffers for few modes or few momentum points

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 1b6883d..c323a1b 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -188,7 +188,7 @@ void CODEDistributionFunction::ComputeLegendrePolynomials(
     slibreal_t n;
 
     legmodes[0] = 1.0;
-    if (Nleg >= 1)
+    if (Nleg >= 2)
         legmodes[1] = xi;
 
     for (i = 0; i < Nleg-2; i++) {
@@ -304,7 +304,7 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
-    this->interp = new gsl_interp*[this->np];
+    this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
         switch (interptype) {
             case INTERPOLATION_LINEAR:
-- 
2.43.0


From ecda57b11cf7dcdaac3f42c79996e5adc5e58927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:50 +0000
Subject: [PATCH 055/110] fix: evaluation after conversion to a gridded
 distribution used stale Legendre polynomials

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index c323a1b..bdb8762 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -376,6 +376,9 @@ NumericMomentumSpaceDistributionFunction *CODEDistributionFunction::ToMomentumSp
             txi[i] = -1.0 + 2*((slibreal_t)i)/((slibreal_t)nnxi-1.0);
     }
 
+    // The cached Legendre polynomials are overwritten below
+    this->xileg = nan("");
+
     // Generate f
     ff = new slibreal_t[nnxi*np];
     for (i = 0; i < nnxi; i++) {
-- 
2.43.0


From 74e497730aca53e85fa027ff296bf5e6150ba7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:50 +0000
Subject: [PATCH 056/110] fix: refuse unusable interpolation methods, momentum
 grids and mode numbers instead of aborting

---
 .../CODEDistributionFunction.cpp              | 60 +++++++++++--------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index bdb8762..9dac2e5 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -125,6 +125,8 @@ void CODEDistributionFunction::Load(SFile *sf, int time, int interptype, const s
         throw SOFTLibException("Invalid size of CODE distribution 'Nxi' variable: %llu x %llu.", fsize[0], fsize[1]);
 
     Nleg = (int)tNxi[0][0];
+    if (Nleg < 1)
+        throw SOFTLibException("Invalid number of Legendre modes in CODE distribution: %d.", Nleg);
 
     // Convert from y to p
     pp = new slibreal_t[nnp];
@@ -276,6 +278,18 @@ slibreal_t CODEDistributionFunction::GetPMin() {
  * from file.
  */
 void CODEDistributionFunction::Initialize(const unsigned int np, const unsigned int nleg, slibreal_t *p, slibreal_t *f, int interptype) {
+    // Release the interpolation of any previous distribution
+    if (this->interp_accel != nullptr) {
+        gsl_interp_accel_free(this->interp_accel);
+        this->interp_accel = nullptr;
+    }
+    if (this->interp != nullptr) {
+        for (unsigned int i = 0; i < this->nleg; i++)
+            gsl_interp_free(this->interp[i]);
+        delete [] this->interp;
+        this->interp = nullptr;
+    }
+
     this->np = np;
     this->nleg = nleg;
     this->p = p;
@@ -301,37 +315,31 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     if (this->f == nullptr || this->p == nullptr)
         throw SOFTLibException("CODE distribution function: f and p have not been initialized yet.");
 
+    const gsl_interp_type *type;
+    switch (interptype) {
+        case INTERPOLATION_LINEAR:           type = gsl_interp_linear; break;
+        case INTERPOLATION_POLYNOMIAL:       type = gsl_interp_polynomial; break;
+        case INTERPOLATION_CSPLINE:          type = gsl_interp_cspline; break;
+        case INTERPOLATION_CSPLINE_PERIODIC: type = gsl_interp_cspline_periodic; break;
+        case INTERPOLATION_AKIMA:            type = gsl_interp_akima; break;
+        case INTERPOLATION_AKIMA_PERIODIC:   type = gsl_interp_akima_periodic; break;
+        case INTERPOLATION_STEFFEN:          type = gsl_interp_steffen; break;
+        default:
+            throw SOFTLibException("CODE distribution function: Unrecognized interpolation method requested: %d.", interptype);
+    }
+
+    if (this->np < gsl_interp_type_min_size(type))
+        throw SOFTLibException("CODE distribution function: Too few momentum points (%u) for the requested interpolation method.", this->np);
+    for (i = 1; i < this->np; i++)
+        if (!(this->p[i-1] < this->p[i]))
+            throw SOFTLibException("CODE distribution function: The momentum grid must be strictly increasing.");
+
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
     this->interp = new gsl_interp*[this->nleg];
     for (i = 0; i < this->nleg; i++) {
-        switch (interptype) {
-            case INTERPOLATION_LINEAR:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_linear, this->np);
-                break;
-            case INTERPOLATION_POLYNOMIAL:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_polynomial, this->np);
-                break;
-            case INTERPOLATION_CSPLINE:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_cspline, this->np);
-                break;
-            case INTERPOLATION_CSPLINE_PERIODIC:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_cspline_periodic, this->np);
-                break;
-            case INTERPOLATION_AKIMA:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_akima, this->np);
-                break;
-            case INTERPOLATION_AKIMA_PERIODIC:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_akima_periodic, this->np);
-                break;
-            case INTERPOLATION_STEFFEN:
-                this->interp[i] = gsl_interp_alloc(gsl_interp_steffen, this->np);
-                break;
-            default:
-                throw SOFTLibException("CODE distribution function: Unrecognized interpolation method requested: %d.", interptype);
-        }
-
+        this->interp[i] = gsl_interp_alloc(type, this->np);
         gsl_interp_init(this->interp[i], this->p, this->f+(i*this->np), this->np);
     }
 }
-- 
2.43.0


From 6f59857781f9e898234b851fc96b6151b64d3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:50 +0000
Subject: [PATCH 057/110] fix: GO+CODE distributions read outside of their
 radial grid and extrapolated with the wrong slope

---
 .../GOCODEDistributionFunction.cpp            | 37 ++++++++-----------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index 668dc36..8c25b46 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -43,30 +43,23 @@ slibreal_t GOCODEDistributionFunction::Eval(
             throw SOFTLibException("GOCODEDistributionFunction: No data avilable for particle position. rho = %e, (shifted by %e from r = %e).", rho, drift_shift, r);
     }
 
-    unsigned int ir = (unsigned int)__FindNearestR(rho);
+    if (this->nr == 1)
+        return this->code[0]->Eval(p, xi);
+
+    int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (ir == 0) {
-        r0 = 0;
-        r1 = this->rho[0];
-        slibreal_t r2 = this->rho[1], f2;
-
-        f1 = this->code[0]->Eval(p, xi);
-        f2 = this->code[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if (ir >= this->nr-1) {
-        r0 = this->rho[this->nr-1];
-        r1 = r0 + (2*r0 - this->rho[nr-2]);
-
-        f0 = this->code[this->nr-1]->Eval(p, xi);
-        f1 = 2*f0 - this->code[this->nr-2]->Eval(p, xi);
-    } else {
-        r0 = this->rho[ir];
-        r1 = this->rho[ir+1];
-
-        f0 = this->code[ir]->Eval(p, xi);
-        f1 = this->code[ir+1]->Eval(p, xi);
-    }
+    // Outside of the grid, extrapolate from the two outermost points
+    if (ir < 0)
+        ir = 0;
+    else if (ir >= (int)this->nr-1)
+        ir = (int)this->nr-2;
+
+    r0 = this->rho[ir];
+    r1 = this->rho[ir+1];
+
+    f0 = this->code[ir]->Eval(p, xi);
+    f1 = this->code[ir+1]->Eval(p, xi);
 
     return ((r1-rho)*f0 + (rho-r0)*f1)/(r1-r0);
 }
-- 
2.43.0


From dfb6fe89efb36f339905bda8d1a3983863d08ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:50 +0000
Subject: [PATCH 058/110] fix: destroying an empty GO+CODE distribution
 released an uninitialised pointer

---
 .../DistributionFunction/GOCODEDistributionFunction.h       | 6 +++---
 src/DistributionFunction/GOCODEDistributionFunction.cpp     | 3 +++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
index 6535726..1c74cb8 100644
--- a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
+++ b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
@@ -8,9 +8,9 @@
 
 class GOCODEDistributionFunction : public DistributionFunction {
     private:
-        unsigned int nr;
-        slibreal_t *rho;
-        CODEDistributionFunction **code;
+        unsigned int nr=0;
+        slibreal_t *rho=nullptr;
+        CODEDistributionFunction **code=nullptr;
 
         slibreal_t rhomin, rhomax;
 
diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index 8c25b46..ee77bd9 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -109,6 +109,9 @@ void GOCODEDistributionFunction::Initialize(unsigned int nr, slibreal_t *rho, CO
     this->nr   = nr;
     this->rho  = rho;
     this->code = cdf;
+
+    this->rhomin = rho[0];
+    this->rhomax = rho[nr-1];
 }
 
 /**
-- 
2.43.0


From 7fea5e45871899b668b8e1c74a045019db6c1952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:32 +0000
Subject: [PATCH 059/110] fix: SOFT distribution data was released with the
 wrong operator

---
 src/DistributionFunction/SOFTDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index 3622d84..f7b2b5c 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -227,7 +227,7 @@ void SOFTDistributionFunction::__LoadRadius(
     // Distribution function
     double **ttf = sf->GetDoubles(groupname+"f", fsize);
 	double *tf = ttf[0];
-    delete ttf;
+    delete [] ttf;
 
     if (fsize[0] != nnxi || fsize[1] != nnp)
         throw SOFTLibException("Invalid size of SOFT distribution function '%sf' vector: %llu x %llu. Must have size nxi-by-np (%llu x %llu).", groupname.c_str(), fsize[0], fsize[1], nnxi, nnp);
-- 
2.43.0


From f7de5c480afa6646c26bb632fa667874635eb771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:32 +0000
Subject: [PATCH 060/110] fix: loading SOFT and DREAM distributions without a
 magnetic field crashed

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 3 ++-
 src/DistributionFunction/SOFTDistributionFunction.cpp  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index f8f7087..9710969 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -182,7 +182,8 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (sfilesize_t i = 0; i < nr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("DREAMDistributionFunction: The radial grid in the DREAM distribution function is not strictly increasing.");
diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index f7b2b5c..0c75b30 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -187,7 +187,8 @@ struct SOFTDistributionFunction::softdf_data *SOFTDistributionFunction::__Load(c
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
     for (unsigned int i = 0; i < nnr; i++) {
-        dat->r[i] += mf->GetMagneticAxisR();
+        if (mf != nullptr)
+            dat->r[i] += mf->GetMagneticAxisR();
 
         if (i > 0 && dat->r[i] <= dat->r[i-1])
             throw SOFTLibException("The radial grid in the SOFT distribution function is not strictly increasing.");
-- 
2.43.0


From 2daa4f53d90d0ffa43adfb4fbacb7d4df9388846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:32 +0000
Subject: [PATCH 061/110] fix: refuse time steps outside of DREAM distributions
 and inconsistent time grids

---
 .../DREAMDistributionFunction.cpp             | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 9710969..035713a 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -107,9 +107,9 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         throw SOFTLibException("DREAMDistributionFunction: No distribution function found in file '%s'. Try to explicitly give the name of the distribution function.", filename.c_str());
 
     size_t l = dname.length();
-    if (dname.substr(l-4) == "f_re")
+    if (l >= 4 && dname.substr(l-4) == "f_re")
         momgridname = "/grid/runaway";
-    else if (dname.substr(l-5) == "f_hot")
+    else if (l >= 5 && dname.substr(l-5) == "f_hot")
         momgridname = "/grid/hottail";
     else
         throw SOFTLibException("DREAMDistributionFunction: Unrecognized type of distribution function specified: '%s'. Unable to determine which momentum grid to use.", dname.c_str());
@@ -128,25 +128,26 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
     double *tp = sf->GetDoubles1D(momgridname + "/p1", &np);
     double *tx = sf->GetDoubles1D(momgridname + "/p2", &nxi);
     
-    if (ndims != 4 || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
+    if (tf == nullptr || ndims != 4 || fsize[0] != nt || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid dimensions of distribution functions (%llu). The grid has size %llux%llux%llu, but f has size %llux%llux%llu.",
             ndims, nr, nxi, np, fsize[1], fsize[2], fsize[3]
         );
 
-    sfilesize_t TIMEINDEX;
-    if (timestep < 0)
-        TIMEINDEX = (nt+timestep)*nr*np*nxi;
-    else
-        TIMEINDEX = timestep * nr*np*nxi;
+    // Negative time steps count from the end
+    long long int tidx = timestep;
+    if (tidx < 0)
+        tidx += (long long int)nt;
 
     // Bounds check
-    if (TIMEINDEX > nt*nr*np*nxi)
+    if (tidx < 0 || tidx >= (long long int)nt)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid time step specified. The distribution contains %llu time steps.",
             nt
         );
 
+    sfilesize_t TIMEINDEX = (sfilesize_t)tidx * nr*np*nxi;
+
     dat->nr  = nr;
     dat->np  = np;
     dat->nxi = nxi;
-- 
2.43.0


From f8121f4be3e99be48f56f28f36d6c3d3edf9492c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:32 +0000
Subject: [PATCH 062/110] fix: destroying a DREAM distribution released a
 pointer into the middle of its data

---
 .../DistributionFunction/DREAMDistributionFunction.h  |  5 +++--
 .../DREAMDistributionFunction.cpp                     | 11 ++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/softlib/DistributionFunction/DREAMDistributionFunction.h b/include/softlib/DistributionFunction/DREAMDistributionFunction.h
index 9017a20..2a8d116 100644
--- a/include/softlib/DistributionFunction/DREAMDistributionFunction.h
+++ b/include/softlib/DistributionFunction/DREAMDistributionFunction.h
@@ -13,11 +13,12 @@ private:
         std::string distname;
         unsigned int nr, nxi, np;
         slibreal_t *r, *xi, *p;
-        slibreal_t *f;
+        slibreal_t *f;      // Distribution function at the selected time
+        slibreal_t *fbase;  // Allocated array which f points into
     };
     static struct dreamdf_data *__Load(const std::string&, MagneticField2D *mf=nullptr, const std::string& distname="", int timestep=-1);
 
-    struct dreamdf_data *rawdata;
+    struct dreamdf_data *rawdata=nullptr;
 
 public:
     DREAMDistributionFunction(const std::string&, MagneticField2D *mf=nullptr, const std::string& distname="", int timestep=-1, bool logarithmic=false, int interptype=NumericDistributionFunction::INTERPOLATION_LINEAR);
diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 035713a..a0d377a 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -35,7 +35,10 @@ DREAMDistributionFunction::DREAMDistributionFunction(
  * Destructor.
  */
 DREAMDistributionFunction::~DREAMDistributionFunction() {
-    delete [] this->rawdata->f;
+    if (this->rawdata == nullptr)
+        return;
+
+    delete [] this->rawdata->fbase;
     delete [] this->rawdata->r;
     delete [] this->rawdata->p;
     delete [] this->rawdata->xi;
@@ -154,12 +157,14 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Convert to slibreal_t (if necessary)
     if (std::is_same<slibreal_t, double>::value) {
-        dat->f  = tf + TIMEINDEX;
+        dat->fbase = tf;
+        dat->f     = tf + TIMEINDEX;
         dat->r  = tr;
         dat->p  = tp;
         dat->xi = tx;
     } else {
-        dat->f  = new slibreal_t[nr*nxi*np];
+        dat->fbase = new slibreal_t[nr*nxi*np];
+        dat->f     = dat->fbase;
         dat->r  = new slibreal_t[nr];
         dat->p  = new slibreal_t[np];
         dat->xi = new slibreal_t[nxi];
-- 
2.43.0


From a0d330acb0e6b3dcc052b96db6929d641ccd1679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:50 +0000
Subject: [PATCH 063/110] fix: refuse grids with too few points for bicubic
 interpolation instead of aborting

---
 .../NumericMomentumSpaceDistributionFunction.cpp         | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index 8c76004..b8b6d9c 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -65,6 +65,12 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     slibreal_t *p, slibreal_t *xi, slibreal_t *f,
     int interp
 ) {
+    const gsl_interp2d_type *type =
+        (interp == INTERPOLATION_LINEAR) ? gsl_interp2d_bilinear : gsl_interp2d_bicubic;
+
+    if (np < gsl_interp2d_type_min_size(type) || nxi < gsl_interp2d_type_min_size(type))
+        throw SOFTLibException("The momentum grid has too few points for the requested interpolation method.");
+
     this->np = np;
     this->nxi = nxi;
     this->p = p;
@@ -76,9 +82,6 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     this->ximin = xi[0];
     this->ximax = xi[nxi-1];
 
-    if (np < 2 || nxi < 2)
-        throw SOFTLibException("The momentum grid must have at least two points in each direction.");
-
     for (unsigned int i = 1; i < np; i++)
         if (!(p[i-1] < p[i]))
             throw SOFTLibException("The p-grid must be strictly increasing.");
-- 
2.43.0


From 99555748689ca76394c3a8f65d95d673664e20c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:51 +0000
Subject: [PATCH 064/110] fix: a refused momentum-space distribution was left
 uninitialised in the radial distribution

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 2413dc6..13db24a 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -220,14 +220,14 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     const unsigned int np, const unsigned int nxi, slibreal_t r,
     slibreal_t *p, slibreal_t *xi, slibreal_t *f, int interptype
 ) {
-    int idx = this->InsertMomentumSpaceDistribution(r, new NumericMomentumSpaceDistributionFunction());
+    NumericMomentumSpaceDistributionFunction *nmsdf = new NumericMomentumSpaceDistributionFunction();
 
     if (interptype == INTERPOLATION_LINEAR)
-        this->msdf[idx]->Initialize(np, nxi, p, xi, f, NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR);
+        nmsdf->Initialize(np, nxi, p, xi, f, NumericMomentumSpaceDistributionFunction::INTERPOLATION_LINEAR);
     else
-        this->msdf[idx]->Initialize(np, nxi, p, xi, f, NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC);
+        nmsdf->Initialize(np, nxi, p, xi, f, NumericMomentumSpaceDistributionFunction::INTERPOLATION_CUBIC);
 
-    return idx;
+    return this->InsertMomentumSpaceDistribution(r, nmsdf);
 }
 /**
  * Same as 'InsertMomentumSpaceDistribution()', but first logarithmizes
-- 
2.43.0


From 21546b9799265ae9c739f091d22cb0e38e33fb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:41 +0000
Subject: [PATCH 065/110] fix: inserting the first radius formed a pointer
 before the start of an empty array

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 13db24a..0fff371 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -201,7 +201,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     slibreal_t r, NumericMomentumSpaceDistributionFunction *msdf
 ) {
     int ir = __FindNearestR(r);
-    this->r.insert(this->r.begin() + ir+1, r);
+    this->r.insert(this->r.begin() + (ir+1), r);
 
     // Set radial grid limits
     if (this->r.size() == 1)
@@ -212,7 +212,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistribution(
         this->rmin = r;
 
     // Initialize momentum space distributions
-    this->msdf.insert(this->msdf.begin() + ir+1, msdf);
+    this->msdf.insert(this->msdf.begin() + (ir+1), msdf);
 
     return (ir+1);
 }
-- 
2.43.0


From 0d0aeaa806fa994760bad3ed8a004129a6287519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:55 +0000
Subject: [PATCH 066/110] fix: refuse periodic cubic splines with two momentum
 points instead of aborting

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 9dac2e5..13a0a83 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -328,7 +328,9 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
             throw SOFTLibException("CODE distribution function: Unrecognized interpolation method requested: %d.", interptype);
     }
 
-    if (this->np < gsl_interp_type_min_size(type))
+    // (GSL claims to handle periodic cubic splines with two points, but aborts)
+    if (this->np < gsl_interp_type_min_size(type) ||
+        (type == gsl_interp_cspline_periodic && this->np < 3))
         throw SOFTLibException("CODE distribution function: Too few momentum points (%u) for the requested interpolation method.", this->np);
     for (i = 1; i < this->np; i++)
         if (!(this->p[i-1] < this->p[i]))
-- 
2.43.0


From 5d0346760d134783fd08c65408cb5f00b4a023a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:24 +0000
Subject: [PATCH 067/110] fix: extreme radii and heights were only found from
 two wall segments and written outside of a buffer

---
 src/MagneticField/MagneticField2D.cpp | 99 +++++++++++----------------
 1 file changed, 41 insertions(+), 58 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 3b83b87..ffb59b4 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -3,6 +3,7 @@
  * in the MagneticField2D class.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <softlib/MagneticField/MagneticField2D.h>
 #include <softlib/SOFTLibException.h>
@@ -195,6 +196,41 @@ slibreal_t MagneticField2D::FindMinRadius() {
 	return this->FindMinRadius(this->ndomain, this->rdomain, this->zdomain);
 }
 
+/**
+ * Find the minimum and maximum of 'x' among all points
+ * with 'y' = 'a' on the closed polygon (x, y).
+ *
+ * RETURNS false if no point on the polygon has 'y' = 'a'.
+ */
+static bool FindExtent(
+	unsigned int n, const slibreal_t *x, const slibreal_t *y,
+	const slibreal_t a, slibreal_t &mn, slibreal_t &mx
+) {
+	bool found = false;
+
+	for (unsigned int i = 0; i < n; i++) {
+		// The last point is connected to the first
+		unsigned int j = (i+1 < n) ? i+1 : 0;
+
+		if ((y[i] >= a && y[j] <= a) ||
+			(y[i] <= a && y[j] >= a)) {
+			slibreal_t x1 = x[i], x2 = x[j];
+			if (y[j] != y[i])
+				x1 = x2 = x[i] + (x[j]-x[i]) * (a-y[i])/(y[j]-y[i]);
+
+			if (!found) {
+				mn = mx = x1;
+				found = true;
+			}
+
+			mn = min(mn, min(x1, x2));
+			mx = max(mx, max(x1, x2));
+		}
+	}
+
+	return found;
+}
+
 /**
  * Finds the maximum and minimum allowed particle
  * radii, given a domain. Returns only the former.
@@ -208,42 +244,13 @@ slibreal_t MagneticField2D::FindMinRadius() {
  * magnetic axis.
  */
 slibreal_t MagneticField2D::FindMaxRadius(unsigned int n, slibreal_t *r, slibreal_t *z) {
-	#define MAGFIELD2D_MAXRPOINTS 2
-	unsigned int i, ir;
-	slibreal_t za = this->GetMagneticAxisZ();
-	slibreal_t rpoints[MAGFIELD2D_MAXRPOINTS];
-
-	for (i = ir = 0; i < n-1 && ir < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((z[i] >= za && z[i+1] <= za) ||
-			(z[i] <= za && z[i+1] >= za)) {
-			if (z[i+1] == z[i])
-				rpoints[ir++] = max(r[i], r[i+1]);
-			else
-				rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-		}
-	}
+	slibreal_t rmin, rmax;
 
-	// Handle last/first point
-	if ((z[n-1] >= za && z[0] <= za) ||
-		(z[n-1] <= za && z[0] >= za)) {
-		if (z[0] == z[n-1])
-			rpoints[ir++] = max(r[i], r[i+1]);
-		else
-			rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
-	}
-
-	if (ir == 0)
+	if (!FindExtent(n, r, z, this->GetMagneticAxisZ(), rmin, rmax))
 		throw SOFTLibException("Unable to find maximum allowed drop radius. Magnetic axis not within domain.");
 
-	// Find max & min radii
-	this->maxradius = rpoints[0];
-	this->minradius = rpoints[0];
-	for (i = 1; i < ir; i++) {
-		if (rpoints[i] > this->maxradius)
-			this->maxradius = rpoints[i];
-		else if (rpoints[i] < this->minradius)
-			this->minradius = rpoints[i];
-	}
+	this->maxradius = rmax;
+	this->minradius = rmin;
 
 	return this->maxradius;
 }
@@ -294,32 +301,8 @@ void MagneticField2D::FindMaxMin(
     unsigned int n, const slibreal_t *x, const slibreal_t *y,
     const slibreal_t a, slibreal_t &mn, slibreal_t &mx
 ) {
-	#define MAGFIELD2D_MAXXPOINTS 2
-	unsigned int i, ix;
-	slibreal_t xpoints[MAGFIELD2D_MAXXPOINTS];
-
-	for (i = ix = 0; i < n-1 && ix < MAGFIELD2D_MAXRPOINTS; i++) {
-		if ((y[i] >= a && y[i+1] <= a) ||
-			(y[i] <= a && y[i+1] >= a)) {
-			if (y[i+1] == y[i])
-				xpoints[ix++] = max(x[i], x[i+1]);
-			else
-				xpoints[ix++] = x[i] + (x[i+1]-x[i]) * (a-y[i])/(y[i+1]-y[i]);
-		}
-	}
-
-	if (ix == 0)
+	if (!FindExtent(n, x, y, a, mn, mx))
 		throw SOFTLibException("Unable to find maximum point. Requested point is not within the domain.");
-
-	// Find max & min radii
-	mx = xpoints[0];
-	mn = xpoints[0];
-	for (i = 1; i < ix; i++) {
-		if (xpoints[i] > mx)
-			mx = xpoints[i];
-		else if (xpoints[i] < mn)
-			mn = xpoints[i];
-	}
 }
 
 /**
-- 
2.43.0


From 0ea0ec6a96d0f457dd999c9de6e899a58f31bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:24 +0000
Subject: [PATCH 068/110] fix: paths parallel to any wall segment were reported
 to cross the wall, and the closing segment was ignored

---
 src/MagneticField/MagneticField2D.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index ffb59b4..8663fec 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -50,18 +50,28 @@ bool MagneticField2D::CrossesDomain(
         x10, y10, x11, y11, s, t, det;
 
     unsigned int i;
-    for (i = 0; i < ndomain-1; i++) {
+    for (i = 0; i < ndomain; i++) {
+        /* The last point is connected to the first */
+        unsigned int j = (i+1 < ndomain) ? i+1 : 0;
+
         x10 = rdomain[i];
-        x11 = rdomain[i+1] - x10;
+        x11 = rdomain[j] - x10;
         y10 = zdomain[i];
-        y11 = zdomain[i+1] - y10;
+        y11 = zdomain[j] - y10;
 
-        /* Check if matrix is zero */
-        if (x00-x10 == 0 && y00-y10 == 0) continue;
+        /* The path starts on the domain */
+        if (x00-x10 == 0 && y00-y10 == 0) return true;
         
         /* Compute determinant and check if zero */
         det = x11*y01 - x01*y11;
-        if (det == 0) return true;
+        if (det == 0) {
+            /* Parallel lines only intersect if they coincide and overlap */
+            if ((x00-x10)*y01 == (y00-y10)*x01 && (x00-x10)*y11 == (y00-y10)*x11 &&
+                max(min(x00, r), min(x10, rdomain[j])) <= min(max(x00, r), max(x10, rdomain[j])) &&
+                max(min(y00,z2), min(y10, zdomain[j])) <= min(max(y00,z2), max(y10, zdomain[j])))
+                return true;
+            continue;
+        }
 
         s = (1/det) * ((x00-x10)*y01 - (y00-y10)*x01);
         t =-(1/det) * ((y00-y10)*x11 - (x00-x10)*y11);
-- 
2.43.0


From 5062a94f6e333b065a0d991d261ab789f8732310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:24 +0000
Subject: [PATCH 069/110] fix: the line-of-sight query took the height of the
 first point from its y coordinate

---
 src/MagneticField/MagneticField2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 8663fec..259149f 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -352,7 +352,7 @@ slibreal_t  MagneticField2D::GetMagneticAxisZ() { return this->magnetic_axis[1];
  */
 bool MagneticField2D::IntersectsDomain3D(slibreal_t *xyz0, slibreal_t *xyz1, bool has_outer_wall) {
     return IntersectsDomain3D(
-        xyz0[0], xyz0[1], xyz0[1],
+        xyz0[0], xyz0[1], xyz0[2],
         xyz1[0], xyz1[1], xyz1[2],
         has_outer_wall
     );
-- 
2.43.0


From ee9d68634dd968601fd3409fbdc18c93c85826bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:24 +0000
Subject: [PATCH 070/110] fix: line-of-sight queries reported walls outside of
 the tile or sight line and every parallel tile

---
 src/MagneticField/MagneticField2D.cpp | 44 ++++++++++++++-------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 259149f..fb296ec 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -402,25 +402,21 @@ bool MagneticField2D::__IntersectsDomain3D(
     slibreal_t xc, slibreal_t yc, slibreal_t zc
 ) {
     slibreal_t t1=0, t2=0, s1=0, s2=0,
-        ic, term1, term2, square, sqr,
-        izn, kz, mz, a, b, c, m, abc, iabc, term, q;
+        term1, term2, square, sqr,
+        izn, kz, mz, a, b, c, m, abc, term, q;
 
     if (znp == zn) {
         /* Equation becomes singular => line if sight does not intersect domain */
         if (zc == zp) return false;
 
-        t1 = t2 = (zn-zp)/(zc-zp);
-        ic = 1/(xn-xnp);
+        t1 = (zn-zp)/(zc-zp);
+        if (t1 < 0 || t1 > 1) return false;
+
         term1 = xp + (xc-xp)*t1, term2 = yp + (yc-yp)*t1;
         square = term1*term1 + term2*term2;
         sqr = sqrt(square);
 
-        s1 = ic * (xn + sqr);
-        s2 = ic * (xn + sqr);
-
-        if ((s1 >= 0 && s1 <= 1) || (s2 >= 0 && s2 <= 1))
-            return true;
-        else return false;
+        return (sqr >= min(xn, xnp) && sqr <= max(xn, xnp));
     } else {
         izn = 1 / (znp-zn);
         kz = (zc-zp)*izn;
@@ -429,24 +425,30 @@ bool MagneticField2D::__IntersectsDomain3D(
         m = xn+mz*(xnp-xn);
 
         abc = a*a + b*b - c*c;
-        if (abc == 0) return true;
-        iabc = 1/abc;
 
-        term = (c*m - a*xp - b*yp) * iabc;
-        q = (m*m - xp*xp - yp*yp)*iabc;
-        square = term*term + q;
+        /* Solve abc*t^2 - 2*term*t - q = 0 */
+        term = c*m - a*xp - b*yp;
+        q = m*m - xp*xp - yp*yp;
+
+        if (abc == 0 && term == 0) {
+            /* Line of sight either lies in the (extended) tile surface, or never meets it */
+            return (q == 0 && max(mz, mz+kz) >= 0 && min(mz, mz+kz) <= 1);
+        }
 
+        square = term*term + q*abc;
         if (square < 0) return false;
 
         sqr = sqrt(square);
-        t1 = term + sqr, t2 = term - sqr;
-        s1 = kz*t1,      s2 = kz*t2;
+        sqr = (term < 0) ? term - sqr : term + sqr;
 
-        if ((t1 >= 0 && t1 <= 1) || (t2 >= 0 && t2 <= 1))
-            return true;
-    }
+        /* Avoid cancellation (and division by zero) when abc is small */
+        t1 = (abc == 0) ? -q / sqr : sqr / abc;
+        t2 = (sqr == 0) ? t1 : -q / sqr;
+        s1 = mz + kz*t1, s2 = mz + kz*t2;
 
-    return false;
+        return ((t1 >= 0 && t1 <= 1 && s1 >= 0 && s1 <= 1) ||
+                (t2 >= 0 && t2 <= 1 && s2 >= 0 && s2 <= 1));
+    }
 }
 
 void MagneticField2D::SetDomain(slibreal_t *rd, slibreal_t *zd, unsigned int nd) {
-- 
2.43.0


From a7c4b411951fc176c842354b618b78d1949a28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:24 +0000
Subject: [PATCH 071/110] fix: domain bounds were not updated when the domain
 was changed

---
 src/MagneticField/MagneticField2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index fb296ec..995d9de 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -455,6 +455,7 @@ void MagneticField2D::SetDomain(slibreal_t *rd, slibreal_t *zd, unsigned int nd)
     this->rdomain = rd;
     this->zdomain = zd;
     this->ndomain = nd;
+    this->bounds_set = false;
 
 	this->FindMaxRadius();
 }
-- 
2.43.0


From c082d7ed87dcfd319ca8279fa51f4b66f8dd46d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:05 +0000
Subject: [PATCH 072/110] fix: the gradient of the field strength neglected the
 local safety factor in the shear term

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 446b2c3..0fff682 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -159,7 +159,7 @@ struct magnetic_field_data& MagneticFieldAnalytical2D::EvalDerivatives(
 	r_qRm = r / (Rm * q);
 	sqr = sqrt(r_qRm*r_qRm + 1);
 
-	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr)/sqr + costheta * iR * sqr);
+	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr/q)/sqr + costheta * iR * sqr);
 	DB0 =-B0*Rm*sintheta * iR*iR * sqr;
 	ddr_rB0 = sigmaI * B0 * iR / q * (Rm*iR + 1 - rdq_dr/q);
 
-- 
2.43.0


From e102190c8442c5934d21a2fa79f60ecac5537f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:05 +0000
Subject: [PATCH 073/110] fix: the gradient of the field strength vanished on
 the magnetic axis

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 0fff682..2a6cc47 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -151,7 +151,7 @@ struct magnetic_field_data& MagneticFieldAnalytical2D::EvalDerivatives(
 		DBr, DB0, ddr_rB0, iR = 1.0 / R;
 	
 	if (r != 0) sintheta = Z / r, costheta = (Rm-R) / r;
-	else sintheta = 0, costheta = 0;
+	else sintheta = 0, costheta = 1;
 
 	sinphi = y * iR, cosphi = x * iR;
 	q = __GetSafetyFactor(r);
-- 
2.43.0


From 1fa5b04100a3574b5c109368378e40cb26c8e4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:05 +0000
Subject: [PATCH 074/110] fix: converting an analytical field to a numeric
 field left the flux uninitialised

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 2a6cc47..ae13af6 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -290,6 +290,7 @@ MagneticFieldNumeric2D *MagneticFieldAnalytical2D::ToNumeric2D(const unsigned in
             Br  [i + j*nr] = B[0];
             Bphi[i + j*nr] = B[1];
             Bz  [i + j*nr] = B[2];
+            Psi [i + j*nr] = EvalFlux(R[i], 0.0, Z[j]);
         }
     }
 
-- 
2.43.0


From 4ddc8b74df9747deffa402018403b69e21c8fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:05 +0000
Subject: [PATCH 075/110] fix: the numeric field was rescaled outside of its
 radial grid

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 1ef8735..4ee4415 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -298,7 +298,7 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t *xyz) {
 	return Eval(xyz[0], xyz[1], xyz[2]);
 }
 slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t z) {
-	slibreal_t r = hypot(x, y), br, bphi, bz, sin0, cos0;
+	slibreal_t r0 = hypot(x, y), r = r0, br, bphi, bz, sin0, cos0;
 
 	/* Make sure requested point is within domain */
 		 if (r < rmin) r = rmin;
@@ -311,7 +311,7 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t
     bphi = (slibreal_t)gsl_spline2d_eval(sBphi, r, z, ra, za);
     bz   = (slibreal_t)gsl_spline2d_eval(sBz,   r, z, ra, za);
 
-    if (r != 0) { sin0 = y/r, cos0 = x/r; }
+    if (r0 != 0) { sin0 = y/r0, cos0 = x/r0; }
     else { sin0 = 0, cos0 = 1; }
     interpval[0] = br * cos0 - bphi * sin0;
     interpval[1] = br * sin0 + bphi * cos0;
@@ -331,7 +331,7 @@ slibreal_t *MagneticFieldNumeric2D::Eval(slibreal_t x, slibreal_t y, slibreal_t
  *            to evaluate the magnetic field.
  */
 slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y, slibreal_t z) {
-    slibreal_t r = hypot(x, y),
+    slibreal_t r0 = hypot(x, y), r = r0,
         sin0, cos0, sin20, cos20, sc0,
         dsin0_dx, dcos0_dx, dsin0_dy, dcos0_dy,
         dBr_dr, dBr_dz, dB0_dr, dB0_dz, dBz_dr, dBz_dz,
@@ -359,13 +359,13 @@ slibreal_t **MagneticFieldNumeric2D::__EvalJacobian(slibreal_t x, slibreal_t y,
     b0 = gsl_spline2d_eval(sBphi, r, z, ra, za);
     bz = gsl_spline2d_eval(sBz,   r, z, ra, za);
 
-    if (r != 0) {
-        sin0 = y/r, cos0 = x/r;
+    if (r0 != 0) {
+        sin0 = y/r0, cos0 = x/r0;
         sin20 = sin0*sin0, cos20 = cos0*cos0;
         sc0 = sin0*cos0;
 
-        dsin0_dx = -sc0/r,  dcos0_dx = sin20/r;
-        dsin0_dy = cos20/r, dcos0_dy = -sc0/r;
+        dsin0_dx = -sc0/r0,  dcos0_dx = sin20/r0;
+        dsin0_dy = cos20/r0, dcos0_dy = -sc0/r0;
     } else {
         sin0 = sin20 = sc0 = 0;
         cos0 = cos20 = 1;
-- 
2.43.0


From 757b5fcb521805f60936fae673ecb42c2dbc2a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:05 +0000
Subject: [PATCH 076/110] fix: evaluating the numeric flux outside of the grid
 aborted

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 4ee4415..a77469f 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -443,6 +443,12 @@ slibreal_t MagneticFieldNumeric2D::EvalFlux(
         throw SOFTLibException("Trying to evaluate magnetic flux coordinates which have not been defined.");
 
     slibreal_t r = hypot(x, y);
+
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     return (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
 }
 
@@ -468,6 +474,11 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
 
     slibreal_t r = hypot(x, y);
 
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     flux_data.psi     = (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
     flux_data.dpsi_dR = (slibreal_t)gsl_spline2d_eval_deriv_x(sPsi, r, z, ra, za);
     flux_data.dpsi_dZ = (slibreal_t)gsl_spline2d_eval_deriv_y(sPsi, r, z, ra, za);
-- 
2.43.0


From 646d6b92d3c70de0d5540bc9c68a4dc4c692c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:05 +0000
Subject: [PATCH 077/110] fix: a clone of a numeric field without wall lost its
 domain

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index a77469f..158e07f 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -115,7 +115,7 @@ MagneticFieldNumeric2D::MagneticFieldNumeric2D(
 MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     unsigned int i, nB;
     slibreal_t *nR, *nZ, *nBr, *nBphi, *nBz, *nPsi=nullptr,
-        *nrsep, *nzsep, *nrwall, *nzwall;
+        *nrsep=nullptr, *nzsep=nullptr, *nrwall=nullptr, *nzwall=nullptr;
 
     nB     = this->nr*this->nz;
     nR     = new slibreal_t[this->nr];
@@ -123,10 +123,16 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     nBr    = new slibreal_t[nB];
     nBphi  = new slibreal_t[nB];
     nBz    = new slibreal_t[nB];
-    nrsep  = new slibreal_t[this->nsep];
-    nzsep  = new slibreal_t[this->nsep];
-    nrwall = new slibreal_t[this->nwall];
-    nzwall = new slibreal_t[this->nwall];
+
+    // Keep a missing separatrix or wall 'null'
+    if (this->nsep > 0) {
+        nrsep  = new slibreal_t[this->nsep];
+        nzsep  = new slibreal_t[this->nsep];
+    }
+    if (this->nwall > 0) {
+        nrwall = new slibreal_t[this->nwall];
+        nzwall = new slibreal_t[this->nwall];
+    }
 
     for (i = 0; i < this->nr; i++)
         nR[i] = this->R[i];
-- 
2.43.0


From e8c728debb1056c2c038d6b701045e25a8995a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:06 +0000
Subject: [PATCH 078/110] fix: saving a numeric field without flux crashed

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 158e07f..7a7b573 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -764,7 +764,8 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 
 	sf->WriteList("maxis", this->magnetic_axis, 2);
 
-	sf->WriteMultiArray("Psi", this->Psi, 2, dims);
+	if (this->Psi != nullptr)
+		sf->WriteMultiArray("Psi", this->Psi, 2, dims);
 
 	sf->WriteList("r", this->R, this->nr);
 	sf->WriteList("z", this->Z, this->nz);
-- 
2.43.0


From b1b86c7f580361a5dcc66e7ccf2fcf7decc7ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:06 +0000
Subject: [PATCH 079/110] fix: numeric fields that were not loaded had
 undefined sizes

---
 include/softlib/MagneticField/MagneticFieldNumeric2D.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/MagneticField/MagneticFieldNumeric2D.h b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
index b65a063..9710dc7 100644
--- a/include/softlib/MagneticField/MagneticFieldNumeric2D.h
+++ b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
@@ -18,11 +18,11 @@ class MagneticFieldNumeric2D : public MagneticField2D {
 		slibreal_t *R=nullptr, *Z=nullptr;
 		slibreal_t *rsep=nullptr, *zsep=nullptr;
 		slibreal_t *rwall=nullptr, *zwall=nullptr;
-		unsigned int nr, nz, nwall, nsep;
+		unsigned int nr=0, nz=0, nwall=0, nsep=0;
 
         /* Interpolated value storage */
-        slibreal_t *interpval;
-        slibreal_t **jacobian;
+        slibreal_t *interpval=nullptr;
+        slibreal_t **jacobian=nullptr;
         struct flux_diff flux_data;
 
 		slibreal_t rmin, rmax, zmin, zmax;
-- 
2.43.0


From cce28469528c98646709544ba8b83aa3013d5373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:06 +0000
Subject: [PATCH 080/110] fix: field, flux, wall and separatrix dimensions were
 not verified against the grid when loading

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 23 ++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 7a7b573..9438afc 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -492,6 +492,21 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
     return &flux_data;
 }
 
+/**
+ * Make sure that a matrix with dimensions 'fs' is defined
+ * on the R-Z grid (possibly transposed).
+ */
+static void CheckDimensions(
+	const string& filename, const char *var, const sfilesize_t *fs,
+	const sfilesize_t nr, const sfilesize_t nz
+) {
+	if (!(fs[0] == nz && fs[1] == nr) && !(fs[0] == nr && fs[1] == nz))
+		throw SOFTLibException(
+			"%s: Invalid dimensions of variable '%s': %zu x %zu. Expected %zu x %zu.",
+			filename.c_str(), var, (size_t)fs[0], (size_t)fs[1], (size_t)nz, (size_t)nr
+		);
+}
+
 /**
  * Loads a 2D numeric magnetic field from the
  * file named 'filename'.
@@ -525,18 +540,22 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	this->nz = fs[0];
 
 	_Br = sf->GetDoubles("Br", fs);
+	CheckDimensions(filename, "Br", fs, this->nr, this->nz);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Br = Transpose(_Br, fs[0], fs[1]);
 	_Bphi = sf->GetDoubles("Bphi", fs);
+	CheckDimensions(filename, "Bphi", fs, this->nr, this->nz);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bphi = Transpose(_Bphi, fs[0] ,fs[1]);
 	_Bz = sf->GetDoubles("Bz", fs);
+	CheckDimensions(filename, "Bz", fs, this->nr, this->nz);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bz = Transpose(_Bz, fs[0], fs[1]);
 
     /* Load magnetic flux */
     try {
         _Psi = sf->GetDoubles("Psi", fs);
+        CheckDimensions(filename, "Psi", fs, this->nr, this->nz);
         if (fs[0] != (sfilesize_t)this->nz)
             _Psi = Transpose(_Psi, fs[0], fs[1]);
     } catch (SFileException& ex) {}
@@ -583,6 +602,8 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
 	try {
 		_temp = sf->GetDoubles("wall", fs);
+		if (fs[0] != 2 && fs[1] != 2)
+			throw SOFTLibException(filename+": The wall must be given as a list of points with two coordinates.");
         if (fs[0] == 2) {
             _rwall = _temp[0];
             _zwall = _temp[1];
@@ -609,6 +630,8 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
 	try {
 		_temp = sf->GetDoubles("separatrix", fs);
+		if (fs[0] != 2 && fs[1] != 2)
+			throw SOFTLibException(filename+": The separatrix must be given as a list of points with two coordinates.");
         if (fs[0] == 2) {
             _rsep = _temp[0];
             _zsep = _temp[1];
-- 
2.43.0


From b822b5a7d4aaba1f9349f44db6c59d121b194567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:06 +0000
Subject: [PATCH 081/110] fix: refuse unusable magnetic field grids instead of
 aborting

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 9438afc..9103972 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -270,6 +270,15 @@ void MagneticFieldNumeric2D::InitInterpolation() {
 	/* Use SPLINTER for interpolation */
 #	error "SPLINTER support has not been implemented yet."
 #else
+	if (nr < 4 || nz < 4)
+		throw SOFTLibException("At least four grid points are required in each direction of a numeric magnetic field.");
+	for (unsigned int i = 1; i < nr; i++)
+		if (!(R[i] > R[i-1]))
+			throw SOFTLibException("The radial grid of the magnetic field must be strictly increasing.");
+	for (unsigned int i = 1; i < nz; i++)
+		if (!(Z[i] > Z[i-1]))
+			throw SOFTLibException("The vertical grid of the magnetic field must be strictly increasing.");
+
 	/* Use GSL for interpolation */
 	ra = gsl_interp_accel_alloc();
 	za = gsl_interp_accel_alloc();
-- 
2.43.0


From 3ee27043a6dba7fb8e85b7d7cfa9e64c6d045e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:06 +0000
Subject: [PATCH 082/110] fix: declared field accessors and short-hands were
 not defined

---
 include/softlib/MagneticField/MagneticFieldAnalytical2D.h | 4 ++--
 include/softlib/MagneticField/MagneticFieldNumeric2D.h    | 5 +----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/softlib/MagneticField/MagneticFieldAnalytical2D.h b/include/softlib/MagneticField/MagneticFieldAnalytical2D.h
index 814aef0..39c4727 100644
--- a/include/softlib/MagneticField/MagneticFieldAnalytical2D.h
+++ b/include/softlib/MagneticField/MagneticFieldAnalytical2D.h
@@ -42,9 +42,9 @@ class MagneticFieldAnalytical2D : public MagneticField2D {
         MagneticFieldAnalytical2D *Clone() override;
 
         void ConstructDomain(const slibreal_t, const slibreal_t, const slibreal_t);
-		slibreal_t *Eval(slibreal_t*);
+		using MagneticField2D::Eval;
 		slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override;
-		struct magnetic_field_data& EvalDerivatives(slibreal_t*);
+		using MagneticField2D::EvalDerivatives;
 		struct magnetic_field_data& EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
         virtual slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override;
         virtual struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
diff --git a/include/softlib/MagneticField/MagneticFieldNumeric2D.h b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
index 9710dc7..6eb3652 100644
--- a/include/softlib/MagneticField/MagneticFieldNumeric2D.h
+++ b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
@@ -57,15 +57,12 @@ class MagneticFieldNumeric2D : public MagneticField2D {
 		void BaseInit();
 		slibreal_t *Eval(slibreal_t*);
 		slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override;
-		struct magnetic_field_data& EvalDerivatives(slibreal_t*);
+		using MagneticField2D::EvalDerivatives;
 		struct magnetic_field_data& EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
         virtual slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override;
         virtual struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
 		slibreal_t FindMaxRadius() override;
 		slibreal_t FindMinRadius() override;
-		std::string& GetDescription();
-		std::string& GetName();
-        slibreal_t *GetMagneticAxis();
 		void Init(
 			const std::string& name, const std::string& description,
 			slibreal_t *R, slibreal_t *Z, unsigned int nr, unsigned int nz,
-- 
2.43.0


From f5a471232926973ddba33dddc298f701f6a13acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:06 +0000
Subject: [PATCH 083/110] fix: refuse unusable flux and angle grids in LUKE
 equilibria instead of aborting

---
 src/MagneticField/MagneticFieldLUKE.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/MagneticField/MagneticFieldLUKE.cpp b/src/MagneticField/MagneticFieldLUKE.cpp
index cfc1963..92189d2 100644
--- a/src/MagneticField/MagneticFieldLUKE.cpp
+++ b/src/MagneticField/MagneticFieldLUKE.cpp
@@ -166,6 +166,15 @@ void MagneticFieldLUKE::Load(const string& name, enum sfile_type type, const str
 	double *_tsig = sf->GetList("equil/theta", fs);
 	sfilesize_t ntsig = fs[0];
 
+	if (npsig < 2 || ntsig < 2)
+		throw SFileException(name+": At least two poloidal fluxes and angles are required.");
+	for (sfilesize_t i = 1; i < npsig; i++)
+		if (!(_psig[i] > _psig[i-1]))
+			throw SFileException(name+": The poloidal flux grid must be strictly increasing (in absolute value).");
+	for (sfilesize_t i = 1; i < ntsig; i++)
+		if (!(_tsig[i] > _tsig[i-1]))
+			throw SFileException(name+": The poloidal angle grid must be strictly increasing.");
+
 	double **_Br = sf->GetDoubles("equil/ptBx", fs);
 	if (npsig != fs[1] || ntsig != fs[0])
 		throw SFileException(
-- 
2.43.0


From 0f0fa9985ab049003c95f6949a115d9cd3110649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:30 +0000
Subject: [PATCH 084/110] fix: report a failed write of the end of a PNG image

---
 src/ImageGenerator/ImageGeneratorPNG.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ImageGenerator/ImageGeneratorPNG.cpp b/src/ImageGenerator/ImageGeneratorPNG.cpp
index ba59e96..53e024a 100644
--- a/src/ImageGenerator/ImageGeneratorPNG.cpp
+++ b/src/ImageGenerator/ImageGeneratorPNG.cpp
@@ -82,6 +82,7 @@ void ImageGeneratorPNG::SaveImage(
     png_free(png_ptr, row_pointers);
 
     png_destroy_write_struct(&png_ptr, &info_ptr);
-    fclose(f);
+    if (fclose(f) != 0)
+        throw SOFTLibException("Unable to write PNG.");
 }
 
-- 
2.43.0


From 5008559abc705d0cedd6d18924d6221f6cf20ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:09 +0000
Subject: [PATCH 085/110] fix: reading an HDF5 variable without a value
 returned uninitialised memory

---
 src/SFile/SFile_HDF5.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 08a4513..a458bba 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -128,6 +128,8 @@ static sfilesize_t SFile_HDF5_NumericRank(DataSet &dset, const string& name, con
     H5T_class_t cls = dset.getTypeClass();
     if (cls != H5T_INTEGER && cls != H5T_FLOAT)
         throw SFileException("The variable '%s' in the file '%s' is not numeric.", name.c_str(), filename.c_str());
+    if (dset.getSpace().getSimpleExtentType() == H5S_NULL)
+        throw SFileException("The variable '%s' in the file '%s' has no value.", name.c_str(), filename.c_str());
 
     return dset.getSpace().getSimpleExtentNdims();
 }
-- 
2.43.0


From 549454da6a57ead61d515a734564d40bba8e975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:40 +0000
Subject: [PATCH 086/110] fix: the field strength of a numeric field was
 undefined where the field vanishes

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 9103972..ff88256 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -427,7 +427,8 @@ struct magnetic_field_data& MagneticFieldNumeric2D::EvalDerivatives(slibreal_t x
 	else
 		r1 = aBx / aBz, r2 = aBy / aBz, m = aBz;
 	
-	Babs = m * sqrt(1.0 + r1*r1 + r2*r2);
+	// The ratios are undefined where the field vanishes
+	Babs = (m == 0) ? 0 : m * sqrt(1.0 + r1*r1 + r2*r2);
 	magdata.Babs = Babs;
 	magdata.B[0] = Bx;
 	magdata.B[1] = By;
-- 
2.43.0


From 62c0cfaf569cc76040ccb8a12d4d3a9511fde84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:34 +0000
Subject: [PATCH 087/110] fix: name the file being read in configuration
 errors, also inside of included files

---
 src/Configuration/Script/Lexer.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 98715fe..03975e3 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -136,27 +136,27 @@ void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns,
 vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     ifstream cfile(name);
     stringstream buf;
-    string oldname, oldbuf;
+    string oldfile, oldbuf;
     size_t bufpos, buflen, linec, charc;
 
     if (!cfile.is_open())
         throw ConfigurationException(
-            this->linecounter, this->charpos, this->filename,
+            this->linecounter, this->charpos, this->file,
             "Unable to open included configuration file '%s'.",
             name.c_str()
         );
 
     if (this->includedepth >= MAX_INCLUDE_DEPTH)
         throw ConfigurationException(
-            this->linecounter, this->charpos, this->filename,
+            this->linecounter, this->charpos, this->file,
             "Too deeply nested (or recursive) inclusion of configuration file '%s'.",
             name.c_str()
         );
 
     // Save current state
     this->includedepth++;
-    oldname = this->filename;
-    this->filename = name;
+    oldfile = this->file;
+    this->file = name;
     
     oldbuf = this->cnfbuffer;
     bufpos = this->cnfbufferpos;
@@ -181,7 +181,7 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     this->cnfbufferlength = buflen;
     this->cnfbufferpos = bufpos;
     this->cnfbuffer = oldbuf;
-    this->filename = oldname;
+    this->file = oldfile;
     this->includedepth--;
 
     return tkns;
@@ -252,7 +252,7 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 	// The end of a string or file name must not be missing
 	if (this->instring || this->ininclude)
 		throw ConfigurationException(
-			this->linecounter, this->charpos, this->filename,
+			this->linecounter, this->charpos, this->file,
 			"Unexpected end of file. Unterminated %s.", this->instring ? "string" : "file name"
 		);
 
-- 
2.43.0


From 5561fce5891678675dbb32ac12900e9dbc80e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:32 +0000
Subject: [PATCH 088/110] fix: report configuration errors at the line on which
 the offending token begins, counting lines inside of strings

---
 .../Configuration/ConfigurationScript.h       |  6 ++++-
 src/Configuration/Script/Lexer.cpp            | 22 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index 1eb0c1f..5592833 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -40,6 +40,7 @@ public:
     size_t GetCharpos() const { return this->charpos; }
     std::string GetFilename() const { return this->filename; }
     size_t GetLine() const { return this->line; }
+    void SetPosition(size_t line, size_t charpos) { this->line = line; this->charpos = charpos; }
 	conftoken_t GetType() const { return this->type; }
 	std::string GetValue() const { return this->value; }
 	ConfigToken *Next() const { return this->next; }
@@ -107,7 +108,9 @@ private:
 	/* Lexer properties/methods */
 	size_t cnfbufferpos=0, cnfbufferlength=0,
 		   linecounter=1,	/* Line number */
-		   charpos=1;		/* Index of character on line */
+		   charpos=1,		/* Index of character on line */
+		   tknline=1,		/* Line on which the current token begins */
+		   tkncharpos=1;	/* Character at which the current token begins */
 	size_t includedepth=0;	/* Number of files currently being included */
 	static const size_t MAX_INCLUDE_DEPTH=64;
 	std::string cnfbuffer;
@@ -121,6 +124,7 @@ private:
 
 	void initbuffer(const std::string&);
 	char nextc();
+	void marktkn();
 	ConfigToken *gettkn(std::string&, ConfigToken*, bool quoted=false);
 	void pushbuffer(std::string&, std::vector<ConfigToken*>&, bool quoted=false);
 
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 03975e3..91aea20 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -38,7 +38,13 @@ char ConfigurationScript::nextc() {
 		c = this->cnfbuffer[this->cnfbufferpos++];
 		this->charpos++;
 
-		if (this->instring) return c;
+		if (this->instring) {
+			if (c == '\n') {
+				this->linecounter++;
+				this->charpos = 1;
+			}
+			return c;
+		}
 		// Make sure whitespace and comments are ignored
 		switch (c) {
 			case '#':
@@ -76,6 +82,14 @@ char ConfigurationScript::nextc() {
 
 	return 0;
 }
+/**
+ * Remember the current position as the
+ * beginning of the next token.
+ */
+void ConfigurationScript::marktkn() {
+	this->tknline = this->linecounter;
+	this->tkncharpos = this->charpos;
+}
 ConfigToken *ConfigurationScript::gettkn(string& s, ConfigToken *prev, bool quoted) {
 	// First we check for simple tokens (which cannot be quoted)
 	if (quoted) {
@@ -122,6 +136,8 @@ void ConfigurationScript::pushbuffer(string& buffer, vector<ConfigToken*>& tkns,
 		//tkns.push_back(gettkn(buffer, &(tkns.back())));
         ct = gettkn(buffer, tkns.back(), quoted);
 
+    // The token began where its first character was read
+    ct->SetPosition(this->tknline, this->tkncharpos);
     tkns.push_back(ct);
 }
 
@@ -213,6 +229,7 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 				// When a string ends, it is pushed even if it is empty
 				pushbuffer(buffer, tkns, this->instring);
 				buffer.clear();
+				marktkn();
 				this->instring = !this->instring;
 			} break;
             case '<': {
@@ -235,6 +252,7 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 				pushbuffer(buffer, tkns);
 				// Clear buffer and replace with current character
 				buffer.assign(1, c);
+				marktkn();
 				pushbuffer(buffer, tkns);
 				buffer.clear();
 			} break;
@@ -244,6 +262,8 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 				buffer.clear();
             } break;
 			default: {
+				if (buffer.empty())
+					marktkn();
 				buffer += c;
             } break;
 		}
-- 
2.43.0


From 9f691bbe5c749f1218744b00bddd18866660d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:32 +0000
Subject: [PATCH 089/110] fix: data that could not be written to an SDT file
 (disk full, file opened for reading) was silently dropped

---
 include/softlib/SFile_SDT.h |  1 +
 src/SFile/SFile_SDT.cpp     | 20 ++++++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/include/softlib/SFile_SDT.h b/include/softlib/SFile_SDT.h
index 771a6dd..63bcfdb 100644
--- a/include/softlib/SFile_SDT.h
+++ b/include/softlib/SFile_SDT.h
@@ -24,6 +24,7 @@ class SFile_SDT : public SFile {
 	private:
 		std::fstream sdtfile;
 		std::string GetAttributeName(const std::string&, const std::string&);
+		void CheckWritten(const std::string&);
 
         mat_list_t matrices;
         str_list_t strings;
diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index ee5a96f..c9112dc 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -91,7 +91,13 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
  * Closes the SDT file.
  */
 void SFile_SDT::Close() {
+    if (!sdtfile.is_open())
+        return;
+
     sdtfile.close();
+
+    if (mode != SFILE_MODE_READ && !sdtfile)
+        throw SFileException("%s: Not all data could be written to the SDT file.", filename.c_str());
 }
 
 /**
@@ -349,6 +355,17 @@ string SFile_SDT::GetString(const string &name) {
  */
 void SFile_SDT::CreateStruct(const string&) { }
 
+/**
+ * Make sure that everything written so far
+ * has been accepted by the file.
+ *
+ * name: Name of the variable just written.
+ */
+void SFile_SDT::CheckWritten(const string& name) {
+    if (!sdtfile)
+        throw SFileException("%s: Unable to write variable '%s' to the SDT file.", filename.c_str(), name.c_str());
+}
+
 template<typename T>
 void SFile_SDT::WriteNumArray(const string& name, const T *const* arr, sfilesize_t nrows, sfilesize_t ncols) {
     // Definition string
@@ -363,6 +380,7 @@ void SFile_SDT::WriteNumArray(const string& name, const T *const* arr, sfilesize
     }
 
     sdtfile << endl;
+    CheckWritten(name);
 }
 
 void SFile_SDT::WriteArray(const string& name, const double *const* arr, sfilesize_t nrows, sfilesize_t ncols) {
@@ -398,6 +416,7 @@ void SFile_SDT::WriteAttribute_scalar(const string& datasetname, const string& n
     string att_name = GetAttributeName(datasetname, name);
 
     sdtfile << "@matrix " << att_name << " 1 1" << endl << val << endl << endl;
+    CheckWritten(att_name);
 }
 void SFile_SDT::WriteAttribute_string(const string& datasetname, const string& name, const string& val) {
     string att_name = GetAttributeName(datasetname, name);
@@ -448,5 +467,6 @@ void SFile_SDT::WriteString(const string& name, const string& val) {
         sdtfile << (int)c << " ";
 
     sdtfile << endl << endl;
+    CheckWritten(name);
 }
 
-- 
2.43.0


From 468bcb2a040e663509bd41117ddad125ad3bfd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:32 +0000
Subject: [PATCH 090/110] fix: failed writes to HDF5 and MAT files let foreign
 exceptions escape

---
 src/SFile/SFile_HDF5.cpp     | 97 +++++++++++++++++++++++++-----------
 src/SFile/SFile_MAT.HDF5.cpp | 49 +++++++++---------
 2 files changed, 93 insertions(+), 53 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index a458bba..c348c3b 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -56,8 +56,15 @@ void SFile_HDF5::Open(const string& filename, enum sfile_mode openmode) {
  * Close the currently open HDF5 file.
  */
 void SFile_HDF5::Close(void) {
-    this->file->flush(H5F_SCOPE_GLOBAL);
-	this->file->close();
+    try {
+        this->file->flush(H5F_SCOPE_GLOBAL);
+        this->file->close();
+    } catch (H5::Exception &ex) {
+        delete this->file;
+        this->file = nullptr;
+        throw SFileException("%s: Unable to close HDF5 file.\n%s", filename.c_str(), ex.getCDetailMsg());
+    }
+
 	delete this->file;
 
     this->file = nullptr;
@@ -374,8 +381,11 @@ double *SFile_HDF5::GetMultiArray_linear(const string& name, const sfilesize_t n
   * name: Name of struct to create.
   */
 void SFile_HDF5::CreateStruct(const string& name) {
-	Group *grp = new Group(file->createGroup(name));
-	delete grp;
+	try {
+		file->createGroup(name);
+	} catch (H5::Exception &ex) {
+		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 }
 
 /**
@@ -389,12 +399,17 @@ void SFile_HDF5::CreateStruct(const string& name) {
  */
 void SFile_HDF5::WriteString(const string& name, const string& str) {
 	hsize_t dim[] = {str.size()};
-	DataSpace dspace(1, dim);
-	//StrType tp(0, H5T_VARIABLE);
-	
-	DataSet dset = file->createDataSet(name, PredType::C_S1, dspace);
-	dset.write(str, PredType::C_S1);
-	dset.close();
+
+	try {
+		DataSpace dspace(1, dim);
+		//StrType tp(0, H5T_VARIABLE);
+		
+		DataSet dset = file->createDataSet(name, PredType::C_S1, dspace);
+		dset.write(str, PredType::C_S1);
+		dset.close();
+	} catch (H5::Exception &ex) {
+		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 }
 
 /**
@@ -412,10 +427,15 @@ void SFile_HDF5::WriteNumArray(
     sfilesize_t cols, PredType op, PredType ip
 ) {
 	hsize_t dims[] = {rows, cols};
-	DataSpace dspace(2, dims);
-	DataSet dset = file->createDataSet(name, op, dspace);
-	dset.write(arr[0], ip);
-	dset.close();
+
+	try {
+		DataSpace dspace(2, dims);
+		DataSet dset = file->createDataSet(name, op, dspace);
+		dset.write(arr[0], ip);
+		dset.close();
+	} catch (H5::Exception &ex) {
+		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 }
 
 void SFile_HDF5::WriteArray(const string& name, const double *const* arr, sfilesize_t rows, sfilesize_t cols) {
@@ -463,10 +483,15 @@ void SFile_HDF5::WriteNumList(
     PredType op, PredType ip
 ) {
 	hsize_t dims[] = {n};
-	DataSpace dspace(1, dims);
-	DataSet dset = file->createDataSet(name, op, dspace);
-	dset.write(arr, ip);
-	dset.close();
+
+	try {
+		DataSpace dspace(1, dims);
+		DataSet dset = file->createDataSet(name, op, dspace);
+		dset.write(arr, ip);
+		dset.close();
+	} catch (H5::Exception &ex) {
+		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 }
 void SFile_HDF5::WriteList(const string& name, const double *list, sfilesize_t n) {
 	WriteNumList<double>(name, list, n, PredType::IEEE_F64LE, PredType::NATIVE_DOUBLE);
@@ -501,10 +526,14 @@ void SFile_HDF5::WriteMultiNumArray(
     const string& name, const T *arr, const sfilesize_t ndims,
     const sfilesize_t *dims, PredType op, PredType ip
 ) {
-	DataSpace dspace(ndims, dims);
-	DataSet dset = file->createDataSet(name, op, dspace);
-	dset.write(arr, ip);
-	dset.close();
+	try {
+		DataSpace dspace(ndims, dims);
+		DataSet dset = file->createDataSet(name, op, dspace);
+		dset.write(arr, ip);
+		dset.close();
+	} catch (H5::Exception &ex) {
+		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 }
 void SFile_HDF5::WriteMultiArray(const string& name, const double *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     WriteMultiNumArray<double>(name, arr, ndims, dims, PredType::IEEE_F64LE, PredType::NATIVE_DOUBLE);
@@ -531,10 +560,14 @@ void SFile_HDF5::WriteMultiUInt64Array(const string& name, const uint64_t *arr,
  * val: Value to give the attribute
  */
 void SFile_HDF5::WriteAttribute_scalar(const string& dsetname, const string& name, const double val) {
-	DataSet dset = file->openDataSet(dsetname);
-	DataSpace dspace(H5S_SCALAR);
-	Attribute att = dset.createAttribute(name, PredType::IEEE_F64LE, dspace);
-	att.write(PredType::NATIVE_DOUBLE, &val);
+	try {
+		DataSet dset = file->openDataSet(dsetname);
+		DataSpace dspace(H5S_SCALAR);
+		Attribute att = dset.createAttribute(name, PredType::IEEE_F64LE, dspace);
+		att.write(PredType::NATIVE_DOUBLE, &val);
+	} catch (H5::Exception &ex) {
+		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 }
 
 /**
@@ -550,10 +583,14 @@ void SFile_HDF5::WriteAttribute_scalar(const string& dsetname, const string& nam
 void SFile_HDF5::WriteAttribute_string(const string& dsetname, const string& name, const string& str) {
 	sfilesize_t dims[] = {str.size()};
 
-	DataSet dset = file->openDataSet(dsetname);
-	DataSpace dspace(1, dims);
+	try {
+		DataSet dset = file->openDataSet(dsetname);
+		DataSpace dspace(1, dims);
 
-	Attribute att = dset.createAttribute(name, PredType::C_S1, dspace);
-	att.write(PredType::C_S1, str);
+		Attribute att = dset.createAttribute(name, PredType::C_S1, dspace);
+		att.write(PredType::C_S1, str);
+	} catch (H5::Exception &ex) {
+		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 }
 
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 1461cf6..813fd96 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -12,6 +12,7 @@
 #include <chrono>
 #include <ctime>
 #include <H5Cpp.h>
+#include <memory>
 #include <string>
 #include <softlib/SFile_MAT.HDF5.h>
 #include <softlib/SFileException.h>
@@ -235,10 +236,12 @@ string SFile_MAT::GetString(const string& name) {
  * name: Name of the struct to create.
  */
 void SFile_MAT::CreateStruct(const string& name) {
-	Group *grp = new Group(file->createGroup(name));
-	WriteMATLAB_class(name, "struct", grp);
-
-	delete grp;
+	try {
+		Group grp = file->createGroup(name);
+		WriteMATLAB_class(name, "struct", &grp);
+	} catch (H5::Exception &ex) {
+		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+	}
 }
 
 /**
@@ -315,23 +318,25 @@ void SFile_MAT::WriteMultiUInt64Array(const string& name, const uint64_t *arr, c
 
 void SFile_MAT::WriteString(const string& name, const string& str) {
     sfilesize_t dims[] = {str.size(),1};
-    DataSpace dspace(2, dims);
 
-    DataSet dset = file->createDataSet(name, PredType::STD_U16LE, dspace);
     // Convert string to array of shorts
-    unsigned short *arr = new unsigned short[dims[0]];
+    unique_ptr<unsigned short[]> arr(new unsigned short[dims[0]]);
     for (sfilesize_t i = 0; i < dims[0]; i++)
         arr[i] = (unsigned short)str.at(i);
 
-    dset.write(arr, PredType::STD_U16LE);
-
-    // Write attributes required by MATLAB
-    WriteMATLAB_class(name, "char", &dset);
-    WriteMATLAB_int_decode(name, &dset);
+    try {
+        DataSpace dspace(2, dims);
+        DataSet dset = file->createDataSet(name, PredType::STD_U16LE, dspace);
+        dset.write(arr.get(), PredType::STD_U16LE);
 
-    dset.close();
+        // Write attributes required by MATLAB
+        WriteMATLAB_class(name, "char", &dset);
+        WriteMATLAB_int_decode(name, &dset);
 
-    delete [] arr;
+        dset.close();
+    } catch (H5::Exception &ex) {
+        throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+    }
 }
 
 /**
@@ -344,15 +349,13 @@ void SFile_MAT::WriteString(const string& name, const string& str) {
  */
 void SFile_MAT::WriteMATLAB_class(const string& name, const string& cls, H5Object *obj) {
     if (obj == nullptr) {
-        DataSet ds = file->openDataSet(name);
-
-        DataSpace dspace_class(H5S_SCALAR);
-        StrType dtype(PredType::C_S1, cls.length());
-        Attribute att_class = ds.createAttribute(
-            "MATLAB_class", dtype, dspace_class
-        );
-        att_class.write(dtype, cls);
-        ds.close();
+        try {
+            DataSet ds = file->openDataSet(name);
+            WriteMATLAB_class(name, cls, &ds);
+            ds.close();
+        } catch (H5::Exception &ex) {
+            throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
+        }
     } else {
         DataSpace dspace_class(H5S_SCALAR);
         StrType dtype(PredType::C_S1, cls.length());
-- 
2.43.0


From e931b04d0af140e1eda668d8b18441c10328ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:32 +0000
Subject: [PATCH 091/110] fix: string attributes close to 64 kiB destroyed the
 dataset they were given to in HDF5 files

---
 src/SFile/SFile_HDF5.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index c348c3b..69533ca 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -583,6 +583,11 @@ void SFile_HDF5::WriteAttribute_scalar(const string& dsetname, const string& nam
 void SFile_HDF5::WriteAttribute_string(const string& dsetname, const string& name, const string& str) {
 	sfilesize_t dims[] = {str.size()};
 
+	// Attributes are stored in the header of the dataset, the parts
+	// of which cannot be larger than 64 kiB (including name and type)
+	if (str.size() + name.size() > 65000)
+		throw SFileException("%s: The attribute '%s' is too long for the HDF5 format.", filename.c_str(), name.c_str());
+
 	try {
 		DataSet dset = file->openDataSet(dsetname);
 		DataSpace dspace(1, dims);
-- 
2.43.0


From 1b5cca9d7b5d189033f18bc6959e50813f1423b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:56 +0000
Subject: [PATCH 092/110] fix: an SFile object opened on another HDF5 or MAT
 file kept the first one open

---
 src/SFile/SFile_HDF5.cpp     | 4 ++++
 src/SFile/SFile_MAT.HDF5.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 69533ca..f912c85 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -29,6 +29,10 @@ SFile_HDF5::~SFile_HDF5() {
  * openmode: SFile mode to open file in (read, write or update)
  */
 void SFile_HDF5::Open(const string& filename, enum sfile_mode openmode) {
+	// Close any previously opened file
+	if (this->file != nullptr)
+		Close();
+
 	mode = openmode;
 
 	try {
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 813fd96..33b0474 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -28,6 +28,10 @@ using namespace std::chrono;
  * openmode: SFile mode to open file in (read, write or update)
  */
 void SFile_MAT::Open(const string& filename, enum sfile_mode openmode) {
+	// Close any previously opened file
+	if (this->file != nullptr)
+		Close();
+
 	mode = openmode;
 
 	try {
-- 
2.43.0


From d47926cc4bdd5c379b6e935c6e1bf922f29e4248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:14 +0000
Subject: [PATCH 093/110] fix: names of included configuration files lost
 repeated white space and everything after '#'

---
 src/Configuration/Script/Lexer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 91aea20..d92809f 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -27,8 +27,8 @@ void ConfigurationScript::initbuffer(const string& buf) {
 }
 /**
  * Obtain the next non-whitespace character.
- * If 'instring == true', all characters are
- * returned, even whitespace.
+ * If 'instring == true' or 'ininclude == true',
+ * all characters are returned, even whitespace.
  */
 char ConfigurationScript::nextc() {
 	char c;
@@ -38,7 +38,7 @@ char ConfigurationScript::nextc() {
 		c = this->cnfbuffer[this->cnfbufferpos++];
 		this->charpos++;
 
-		if (this->instring) {
+		if (this->instring || this->ininclude) {
 			if (c == '\n') {
 				this->linecounter++;
 				this->charpos = 1;
-- 
2.43.0


From 5047d31c139804c2cfc048ae264299eb831370c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:18 +0000
Subject: [PATCH 094/110] fix: using a HDF5 or MAT file object that has no open
 file (closed, or opening failed) crashed

---
 include/softlib/SFile_HDF5.h |  2 +-
 src/SFile/SFile_HDF5.cpp     | 41 ++++++++++++++++++++++++------------
 src/SFile/SFile_MAT.HDF5.cpp | 10 ++++-----
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/include/softlib/SFile_HDF5.h b/include/softlib/SFile_HDF5.h
index 2bd0ec6..53d530c 100644
--- a/include/softlib/SFile_HDF5.h
+++ b/include/softlib/SFile_HDF5.h
@@ -68,7 +68,7 @@ class SFile_HDF5 : public SFile {
         virtual void WriteMultiUInt64Array(const std::string&, const uint64_t*, const sfilesize_t, const sfilesize_t*) override;
 
 		H5::Group __GetParentGroup(const std::string&, std::string&);
-        H5::H5File *__GetFile() { return this->file; }
+        H5::H5File *__GetFile();
 };
 
 #endif/*_SFILE_HDF5_H*/
diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index f912c85..5f3c598 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -60,6 +60,9 @@ void SFile_HDF5::Open(const string& filename, enum sfile_mode openmode) {
  * Close the currently open HDF5 file.
  */
 void SFile_HDF5::Close(void) {
+    if (this->file == nullptr)
+        return;
+
     try {
         this->file->flush(H5F_SCOPE_GLOBAL);
         this->file->close();
@@ -74,13 +77,23 @@ void SFile_HDF5::Close(void) {
     this->file = nullptr;
 }
 
+/**
+ * Returns the currently open HDF5 file.
+ */
+H5File *SFile_HDF5::__GetFile() {
+    if (this->file == nullptr)
+        throw SFileException("No HDF5 file is open.");
+
+    return this->file;
+}
+
 /**
  * Checks if a variable of the given name exists
  * in the file.
  */
 bool SFile_HDF5::HasVariable(const string& s) {
     try {
-        DataSet dset = file->openDataSet(s);
+        DataSet dset = __GetFile()->openDataSet(s);
         dset.close();
 
         return true;
@@ -100,7 +113,7 @@ bool SFile_HDF5::HasVariable(const string& s) {
  */
 enum SFile::sfile_data_type SFile_HDF5::GetDataType(const string& name, enum sfile_data_type) {
     try {
-        DataSet dset = file->openDataSet(name);
+        DataSet dset = __GetFile()->openDataSet(name);
         DataType type = dset.getDataType();
 
         if (type == PredType::STD_I32LE)
@@ -155,7 +168,7 @@ static sfilesize_t SFile_HDF5_NumericRank(DataSet &dset, const string& name, con
 double SFile_HDF5::GetAttributeScalar(const string& datasetname, const string& name) {
     try {
         double s;
-        DataSet dataset = file->openDataSet(datasetname);
+        DataSet dataset = __GetFile()->openDataSet(datasetname);
         Attribute attr = dataset.openAttribute(name);
         H5T_class_t cls = attr.getTypeClass();
 
@@ -180,7 +193,7 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
     try {
         string s;
 
-        DataSet dataset = file->openDataSet(datasetname);
+        DataSet dataset = __GetFile()->openDataSet(datasetname);
         Attribute attr = dataset.openAttribute(name);
         DataType type = attr.getDataType();
 
@@ -207,7 +220,7 @@ string SFile_HDF5::GetString(const string& name) {
 
     string s;
 
-    DataSet dataset = file->openDataSet(name);
+    DataSet dataset = __GetFile()->openDataSet(name);
     DataType type = dataset.getDataType();
     DataSpace dspace = dataset.getSpace();
 
@@ -242,7 +255,7 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 	sfilesize_t ndims;
 	unsigned int i;
 
-	DataSet dset = this->file->openDataSet(name);
+	DataSet dset = __GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
 	ndims = SFile_HDF5_NumericRank(dset, name, filename);
@@ -357,7 +370,7 @@ double *SFile_HDF5::GetMultiArray_linear(const string& name, const sfilesize_t n
     if (!HasVariable(name))
         throw SFileException("A variable with the name '%s' does not exist in the file '%s'.", name.c_str(), filename.c_str());
 
-	DataSet dset = file->openDataSet(name);
+	DataSet dset = __GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
 	ndims = SFile_HDF5_NumericRank(dset, name, filename);
@@ -386,7 +399,7 @@ double *SFile_HDF5::GetMultiArray_linear(const string& name, const sfilesize_t n
   */
 void SFile_HDF5::CreateStruct(const string& name) {
 	try {
-		file->createGroup(name);
+		__GetFile()->createGroup(name);
 	} catch (H5::Exception &ex) {
 		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
 	}
@@ -408,7 +421,7 @@ void SFile_HDF5::WriteString(const string& name, const string& str) {
 		DataSpace dspace(1, dim);
 		//StrType tp(0, H5T_VARIABLE);
 		
-		DataSet dset = file->createDataSet(name, PredType::C_S1, dspace);
+		DataSet dset = __GetFile()->createDataSet(name, PredType::C_S1, dspace);
 		dset.write(str, PredType::C_S1);
 		dset.close();
 	} catch (H5::Exception &ex) {
@@ -434,7 +447,7 @@ void SFile_HDF5::WriteNumArray(
 
 	try {
 		DataSpace dspace(2, dims);
-		DataSet dset = file->createDataSet(name, op, dspace);
+		DataSet dset = __GetFile()->createDataSet(name, op, dspace);
 		dset.write(arr[0], ip);
 		dset.close();
 	} catch (H5::Exception &ex) {
@@ -490,7 +503,7 @@ void SFile_HDF5::WriteNumList(
 
 	try {
 		DataSpace dspace(1, dims);
-		DataSet dset = file->createDataSet(name, op, dspace);
+		DataSet dset = __GetFile()->createDataSet(name, op, dspace);
 		dset.write(arr, ip);
 		dset.close();
 	} catch (H5::Exception &ex) {
@@ -532,7 +545,7 @@ void SFile_HDF5::WriteMultiNumArray(
 ) {
 	try {
 		DataSpace dspace(ndims, dims);
-		DataSet dset = file->createDataSet(name, op, dspace);
+		DataSet dset = __GetFile()->createDataSet(name, op, dspace);
 		dset.write(arr, ip);
 		dset.close();
 	} catch (H5::Exception &ex) {
@@ -565,7 +578,7 @@ void SFile_HDF5::WriteMultiUInt64Array(const string& name, const uint64_t *arr,
  */
 void SFile_HDF5::WriteAttribute_scalar(const string& dsetname, const string& name, const double val) {
 	try {
-		DataSet dset = file->openDataSet(dsetname);
+		DataSet dset = __GetFile()->openDataSet(dsetname);
 		DataSpace dspace(H5S_SCALAR);
 		Attribute att = dset.createAttribute(name, PredType::IEEE_F64LE, dspace);
 		att.write(PredType::NATIVE_DOUBLE, &val);
@@ -593,7 +606,7 @@ void SFile_HDF5::WriteAttribute_string(const string& dsetname, const string& nam
 		throw SFileException("%s: The attribute '%s' is too long for the HDF5 format.", filename.c_str(), name.c_str());
 
 	try {
-		DataSet dset = file->openDataSet(dsetname);
+		DataSet dset = __GetFile()->openDataSet(dsetname);
 		DataSpace dspace(1, dims);
 
 		Attribute att = dset.createAttribute(name, PredType::C_S1, dspace);
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 33b0474..1a6c7f2 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -194,7 +194,7 @@ string SFile_MAT::GetString(const string& name) {
         throw SFileException("A variable with the name '%s' does not exist in the file '%s'.", name.c_str(), filename.c_str());
 
     string s;
-    DataSet dataset = file->openDataSet(name);
+    DataSet dataset = __GetFile()->openDataSet(name);
     DataType type = dataset.getDataType();
     DataSpace dspace = dataset.getSpace();
 
@@ -241,7 +241,7 @@ string SFile_MAT::GetString(const string& name) {
  */
 void SFile_MAT::CreateStruct(const string& name) {
 	try {
-		Group grp = file->createGroup(name);
+		Group grp = __GetFile()->createGroup(name);
 		WriteMATLAB_class(name, "struct", &grp);
 	} catch (H5::Exception &ex) {
 		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
@@ -330,7 +330,7 @@ void SFile_MAT::WriteString(const string& name, const string& str) {
 
     try {
         DataSpace dspace(2, dims);
-        DataSet dset = file->createDataSet(name, PredType::STD_U16LE, dspace);
+        DataSet dset = __GetFile()->createDataSet(name, PredType::STD_U16LE, dspace);
         dset.write(arr.get(), PredType::STD_U16LE);
 
         // Write attributes required by MATLAB
@@ -354,7 +354,7 @@ void SFile_MAT::WriteString(const string& name, const string& str) {
 void SFile_MAT::WriteMATLAB_class(const string& name, const string& cls, H5Object *obj) {
     if (obj == nullptr) {
         try {
-            DataSet ds = file->openDataSet(name);
+            DataSet ds = __GetFile()->openDataSet(name);
             WriteMATLAB_class(name, cls, &ds);
             ds.close();
         } catch (H5::Exception &ex) {
@@ -379,7 +379,7 @@ void SFile_MAT::WriteMATLAB_class(const string& name, const string& cls, H5Objec
  */
 void SFile_MAT::WriteMATLAB_int_decode(const string& name, H5Object *obj, const int val) {
     if (obj == nullptr) {
-        DataSet ds = file->openDataSet(name);
+        DataSet ds = __GetFile()->openDataSet(name);
 
         DataSpace dspace_int_decode(H5S_SCALAR);
         Attribute att_int_decode = ds.createAttribute(
-- 
2.43.0


From 0fca85a356459e113f934b3276e1d98825d7c4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:46 +0000
Subject: [PATCH 095/110] fix: characters beyond ASCII were stored as codes
 above 65000 in MAT files

---
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 1a6c7f2..ea0616d 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -326,7 +326,7 @@ void SFile_MAT::WriteString(const string& name, const string& str) {
     // Convert string to array of shorts
     unique_ptr<unsigned short[]> arr(new unsigned short[dims[0]]);
     for (sfilesize_t i = 0; i < dims[0]; i++)
-        arr[i] = (unsigned short)str.at(i);
+        arr[i] = (unsigned char)str.at(i);
 
     try {
         DataSpace dspace(2, dims);
-- 
2.43.0


From 02287661aab6ea2a52af1568153fc0fc5469e8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:45 +0000
Subject: [PATCH 096/110] fix: arrays with an empty dimension crashed when
 written to HDF5/MAT files or read as multi-dimensional arrays

---
 src/SFile/SFile.cpp      | 12 ++++++------
 src/SFile/SFile_HDF5.cpp |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 809559b..7a5a9c5 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -105,17 +105,17 @@ void *SFile::GetMultiArray(const string& name, const sfilesize_t nndims, sfilesi
 		return (void*)ptr;
 
 	// Convert to multidimensional pointer
-	sfilesize_t nel = 1;
-	for (sfilesize_t i = 0; i < ndims; i++)
-		nel *= dims[i];
-
 	// Yes, this is horrible abuse of pointers...
 	double **arr;
 	for (sfilesize_t i = ndims-2; true; i--) {
 		sfilesize_t n = dims[i+1];
-		nel /= n;
+		sfilesize_t nel = 1;
+		for (sfilesize_t j = 0; j <= i; j++)
+			nel *= dims[j];
 
-		arr = new double*[nel];
+		// The first pointer must exist, also for an empty array
+		arr = new double*[nel > 0 ? nel : 1];
+		arr[0] = ptr;
 		for (sfilesize_t j = 0; j < nel; j++)
 			arr[j] = ptr + j * n;
 		
diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 5f3c598..97c9a63 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -448,7 +448,7 @@ void SFile_HDF5::WriteNumArray(
 	try {
 		DataSpace dspace(2, dims);
 		DataSet dset = __GetFile()->createDataSet(name, op, dspace);
-		dset.write(arr[0], ip);
+		dset.write(rows > 0 ? arr[0] : nullptr, ip);
 		dset.close();
 	} catch (H5::Exception &ex) {
 		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
-- 
2.43.0


From 6fdd6bcb6679ab8920a36ff96193b422eadb323f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:47 +0000
Subject: [PATCH 097/110] fix: a matrix without rows could be written to an SDT
 file, but made the whole file unreadable

---
 src/SFile/SFile_SDT.cpp      | 4 ++--
 src/SFile/SFile_SDT.load.cpp | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index c9112dc..9e014ec 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -164,7 +164,7 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     dims[0] = it->second.nrows;
     dims[1] = it->second.ncols;
 
-    double **narr = new double*[dims[0]];
+    double **narr = new double*[dims[0] > 0 ? dims[0] : 1];
     narr[0] = new double[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
@@ -189,7 +189,7 @@ T **SFile_SDT_Get_IntArray2D(SFile_SDT *s, const string& name, sfilesize_t *dims
     double **l = s->GetDoubles(name, dims);
 
     // Allocate new array
-    T **a = new T*[dims[0]];
+    T **a = new T*[dims[0] > 0 ? dims[0] : 1];
     a[0] = new T[dims[0]*dims[1]];
     for (sfilesize_t i = 1; i < dims[0]; i++)
         a[i] = a[i-1] + dims[1];
diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 266444d..b9cd2d7 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -63,9 +63,6 @@ void SFile_SDT::Load() {
 void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sfilesize_t ncols) {
     vector<slibreal_t> data;
 
-    if (nrows == 0)
-        throw SFileException("Matrix '%s' has no rows.", name.c_str());
-
     for (sfilesize_t i = 0; i < nrows; i++) {
         string line;
         if (!getline(sdtfile, line))
@@ -80,7 +77,8 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
         }
     }
 
-    slibreal_t **vals = new slibreal_t*[nrows];
+    // The first pointer must exist, also for an empty matrix
+    slibreal_t **vals = new slibreal_t*[nrows > 0 ? nrows : 1];
     vals[0] = new slibreal_t[nrows*ncols];
     for (sfilesize_t i = 1; i < nrows; i++)
         vals[i] = vals[i-1] + ncols;
-- 
2.43.0


From d0fe621fda7f75977aeb9e689e37730b88ef7476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:48 +0000
Subject: [PATCH 098/110] fix: evaluating a distribution function without
 radial points read out of bounds

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 0fff371..908023e 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -31,6 +31,9 @@ slibreal_t NumericDistributionFunction::Eval(
 ) {
     slibreal_t rho = r-drift_shift, f0, f1;
 
+    if (this->r.empty())
+        throw SOFTLibException("Numeric distribution function: The distribution function contains no radial points.");
+
 	if (!this->allowExtrapolation) {
 		if (rho < this->rmin || rho > this->rmax)
 			throw SOFTLibException("Numeric distribution function: No data available for particle position. rho = %e, (shifted by %e from r = %e).", rho, drift_shift, r);
-- 
2.43.0


From bee249af98be642071402ac18eea917a8cce0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:49 +0000
Subject: [PATCH 099/110] fix: GO+CODE files without radial points or with an
 impossible number of time steps were read out of bounds

---
 .../GOCODEDistributionFunction.cpp                   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index ee77bd9..8a5a908 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -2,6 +2,7 @@
  * Interface for loading GO+CODE distribution functions.
  */
 
+#include <limits>
 #include <string>
 #include "softlib/DistributionFunction/CODEDistributionFunction.h"
 #include "softlib/DistributionFunction/GOCODEDistributionFunction.h"
@@ -147,6 +148,9 @@ void GOCODEDistributionFunction::Load(const string& fname, MagneticField2D *mf,
     else if (fsize[1] == 1) nnr = fsize[0];
     else throw SOFTLibException("Invalid size of GO+CODE distribution function 'x_CODE' vector: %llu x %llu.", fsize[0], fsize[1]);
 
+    if (nnr == 0)
+        throw SOFTLibException("The GO+CODE distribution function contains no radial points.");
+
     this->nr = nnr;
     this->rho = new slibreal_t[nnr];
     for (unsigned int i = 0; i < nnr; i++)
@@ -170,8 +174,12 @@ void GOCODEDistributionFunction::Load(const string& fname, MagneticField2D *mf,
     // ///////////
     // nt
     // ///////////
-    int ntimes = (int)sf->GetScalar("nt");
-    
+    double nt = sf->GetScalar("nt");
+    if (!(nt >= 1 && nt <= numeric_limits<int>::max()))
+        throw SOFTLibException("Invalid number of time steps in GO+CODE distribution function: %e.", nt);
+
+    int ntimes = (int)nt;
+
     // Convert negative time idnex to
     // index relative to end. This way,
     //   -1  =>  end
-- 
2.43.0


From a5e3db0e0dfa927731e80817acb0bf225406d779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:26 +0000
Subject: [PATCH 100/110] fix: matrices whose rows do not follow each other in
 memory were written with other memory to HDF5 and MAT files

---
 src/SFile/SFile_HDF5.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 97c9a63..1a90d50 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -5,6 +5,7 @@
 //#include <hdf5.h>
 #include <H5Cpp.h>
 #include <string>
+#include <vector>
 #include <softlib/SFile.h>
 #include <softlib/SFile_HDF5.h>
 #include <softlib/SFileException.h>
@@ -445,10 +446,16 @@ void SFile_HDF5::WriteNumArray(
 ) {
 	hsize_t dims[] = {rows, cols};
 
+	// HDF5 wants the rows to follow each other in memory
+	vector<T> data;
+	data.reserve(rows*cols);
+	for (sfilesize_t i = 0; i < rows; i++)
+		data.insert(data.end(), arr[i], arr[i] + cols);
+
 	try {
 		DataSpace dspace(2, dims);
 		DataSet dset = __GetFile()->createDataSet(name, op, dspace);
-		dset.write(rows > 0 ? arr[0] : nullptr, ip);
+		dset.write(data.data(), ip);
 		dset.close();
 	} catch (H5::Exception &ex) {
 		throw SFileException("%s: Unable to write '%s'.\n%s", filename.c_str(), name.c_str(), ex.getCDetailMsg());
-- 
2.43.0


From 6723e183f5c8f4b1687d1e24d223d6e3f8a0306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:44 +0000
Subject: [PATCH 101/110] fix: logarithmic initialisation of a distribution
 which already contains radii marked the wrong radii as logarithmic

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 908023e..6a5701d 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -4,6 +4,7 @@
  * function.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <vector>
@@ -180,10 +181,14 @@ void NumericDistributionFunction::InitializeLog(
 			tf[i] = log(f[i]);
     }
 
+    // (radii that were present before keep their type)
+    const vector<NumericMomentumSpaceDistributionFunction*> old(this->msdf.begin(), this->msdf.end());
+
     this->Initialize(nr, np, nxi, r, p, xi, tf, interptype);
 
-    for (unsigned int i = 0; i < nr; i++)
-        this->msdf[i]->SetLogarithmic(true);
+    for (auto m : this->msdf)
+        if (find(old.begin(), old.end(), m) == old.end())
+            m->SetLogarithmic(true);
 }
 
 /**
-- 
2.43.0


From 3561491a783911fe30dc472bfff7266e54b81d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:45 +0000
Subject: [PATCH 102/110] fix: dense output of steps which were taken while
 dense output was switched off returned uninitialised memory

---
 include/softlib/Integrator/RKDP45.tcc     | 5 +++++
 include/softlib/Integrator/RungeKutta.tcc | 9 +++++++--
 include/softlib/RungeKutta.h              | 4 ++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 9e45a62..da288dc 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -121,6 +121,11 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
                 T, this->time[it+1], this->ntimesteps, it+1
             );
 
+		if (!this->dense_stored[it])
+			throw SOFTLibException(
+                "No dense output was stored for the requested time. T = %e", T
+            );
+
 		stepsize = this->time[it+1]-this->time[it];
 		
 		s = (T-this->time[it]) / stepsize;
diff --git a/include/softlib/Integrator/RungeKutta.tcc b/include/softlib/Integrator/RungeKutta.tcc
index 2ef416b..f70fc80 100644
--- a/include/softlib/Integrator/RungeKutta.tcc
+++ b/include/softlib/Integrator/RungeKutta.tcc
@@ -133,8 +133,13 @@ void RungeKutta<N>::StoreSolution(const slibreal_t t, const Vector<N>& y, const
 	/* Dense output coefficients should only be stored
 	 * when requested, and only after the first timestep
 	 * has been taken. */
-	if (HasDenseOutput() && this->ntimesteps > 1)
-		PrepareDense(this->timestep, yold, y, dydxold, yp);
+	if (this->ntimesteps > 1) {
+		dense_stored.resize(this->ntimesteps-1);
+		dense_stored.back() = HasDenseOutput();
+
+		if (HasDenseOutput())
+			PrepareDense(this->timestep, yold, y, dydxold, yp);
+	}
 }
 
 /**
diff --git a/include/softlib/RungeKutta.h b/include/softlib/RungeKutta.h
index aa12654..85d3928 100644
--- a/include/softlib/RungeKutta.h
+++ b/include/softlib/RungeKutta.h
@@ -1,6 +1,7 @@
 #ifndef _RUNGE_KUTTA_H
 #define _RUNGE_KUTTA_H
 
+#include <vector>
 #include <softlib/config.h>
 #include <softlib/Integrator.h>
 
@@ -15,6 +16,9 @@ class RungeKutta : public Integrator<N> {
 		   from the 'InnerStep' routine. */
 		Vector<N> yout, yerr, dydxout, y, dydx,
 			yold, dydxold;
+		/* Steps for which dense output coefficients
+		   have been stored. */
+		std::vector<bool> dense_stored;
 		/* Timestep to take in 'InnerStep' */
 		slibreal_t h;
 
-- 
2.43.0


From ea87c3d4810cef8588a9a1d426f0382910195561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:47 +0000
Subject: [PATCH 103/110] fix: SDT files containing NaN or infinite values
 could not be read back

---
 src/SFile/SFile_SDT.load.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index b9cd2d7..ba671d5 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -2,6 +2,9 @@
  * Routines for loading/reading SDT files.
  */
 
+#include <cerrno>
+#include <cmath>
+#include <cstdlib>
 #include <fstream>
 #include <sstream>
 #include <string>
@@ -52,6 +55,29 @@ void SFile_SDT::Load() {
     }
 }
 
+/**
+ * Read the next number from the given stream. In contrast
+ * to the stream operator, this also recognizes 'nan' and
+ * 'inf' (as written by 'SFile_SDT::WriteArray').
+ *
+ * ss: Stream to read from.
+ * v:  Contains the number read upon return.
+ *
+ * RETURNS true if a number was read.
+ */
+static bool ReadNumber(stringstream &ss, slibreal_t &v) {
+    string token;
+    char *end;
+
+    if (!(ss >> token))
+        return false;
+
+    errno = 0;
+    v = strtod(token.c_str(), &end);
+
+    return (end == token.c_str()+token.size() && !(errno == ERANGE && std::isinf(v)));
+}
+
 /**
  * Load the matrix with the given name from this point
  * in the SDT file.
@@ -71,7 +97,7 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
 
         for (sfilesize_t j = 0; j < ncols; j++) {
             slibreal_t v;
-            if (!(ss >> v))
+            if (!ReadNumber(ss, v))
                 throw SFileException("Invalid format of matrix '%s' at index (%llu, %llu).", name.c_str(), i, j);
             data.push_back(v);
         }
-- 
2.43.0


From 986be953e6401c390143fef60d6d9f8739cecc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:47 +0000
Subject: [PATCH 104/110] fix: strings containing null characters were cut off
 when read from HDF5 files

---
 src/SFile/SFile_HDF5.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 1a90d50..604b0af 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -201,7 +201,15 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
         if (type.getClass() != H5T_STRING)
             throw SFileException("The attribute '%s' of '%s' is not a string.", name.c_str(), datasetname.c_str());
 
-        attr.read(type, s);
+        // Strings written by this class are arrays of single
+        // characters, which may contain null characters
+        DataSpace dspace = attr.getSpace();
+        if (type.getSize() == 1 && dspace.getSimpleExtentNdims() == 1 && dspace.getSimpleExtentNpoints() > 0) {
+            s.resize(dspace.getSimpleExtentNpoints());
+            attr.read(type, &s[0]);
+        } else
+            attr.read(type, s);
+
         return s;
     } catch (H5::Exception &ex) {
         throw SFileException("Unable to read attribute '%s' of '%s'. HDF5 error: %s", name.c_str(), datasetname.c_str(), ex.getCDetailMsg());
@@ -228,7 +236,13 @@ string SFile_HDF5::GetString(const string& name) {
     if (type.getClass() != H5T_STRING)
         throw SFileException("The variable '%s' in the file '%s' is not a string.", name.c_str(), filename.c_str());
 
-    dataset.read(s, type, dspace);
+    // Strings written by this class are arrays of single
+    // characters, which may contain null characters
+    if (type.getSize() == 1 && dspace.getSimpleExtentNdims() == 1 && dspace.getSimpleExtentNpoints() > 0) {
+        s.resize(dspace.getSimpleExtentNpoints());
+        dataset.read(&s[0], type, dspace);
+    } else
+        dataset.read(s, type, dspace);
 
     return s;
 }
-- 
2.43.0


From 99bd661adefab6a27070124a6086220e638974a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:47 +0000
Subject: [PATCH 105/110] fix: timers counted the time between repeated stops,
 and lost their time when continued while running

---
 src/General/Timer.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/General/Timer.cpp b/src/General/Timer.cpp
index 93b082d..a787699 100644
--- a/src/General/Timer.cpp
+++ b/src/General/Timer.cpp
@@ -85,11 +85,11 @@ struct Timer::time Timer::GetTimeStruct() const {
  * Continue running the timer.
  */
 void Timer::Continue() {
-	if (this->stopped)
-		offset += toc-tic;
-	else
-		offset = high_resolution_clock::duration::zero();
-	
+	// A timer which is not stopped is already running
+	if (!this->stopped)
+		return;
+
+	offset += toc-tic;
 	tic = high_resolution_clock::now();
 	this->stopped = false;
 }
@@ -107,6 +107,10 @@ void Timer::Reset() {
  * Stop the timer.
  */
 void Timer::Stop() {
+	// Time passed since the timer was stopped does not count
+	if (this->stopped)
+		return;
+
 	toc = high_resolution_clock::now();
 	this->stopped = true;
 }
-- 
2.43.0


From 73ba06e51481d8b111c0397e2c7441fe994ad5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:47 +0000
Subject: [PATCH 106/110] fix: variables appended to an SDT file without a
 final line break were lost

---
 src/SFile/SFile_SDT.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 9e014ec..65cabd7 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -81,6 +81,16 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     if (!sdtfile)
         throw SFileException("%s: Unable to open SDT file.", filename.c_str());
 
+    // Make sure that new variables start on a new line
+    if (mode == SFILE_MODE_UPDATE && sdtfile.tellg() > 0) {
+        sdtfile.seekg(-1, ios::end);
+        bool newline = (sdtfile.get() == '\n');
+        sdtfile.seekp(0, ios::end);
+
+        if (!newline)
+            sdtfile << endl;
+    }
+
     if (mode == SFILE_MODE_READ) {
         Load();
         Close();
-- 
2.43.0


From 46da65951d3bccfeb9e778a294e1e02900e45c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:47 +0000
Subject: [PATCH 107/110] fix: variables with empty names or names containing
 white space were written to SDT files, which could not be read back

---
 include/softlib/SFile_SDT.h |  1 +
 src/SFile/SFile_SDT.cpp     | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/include/softlib/SFile_SDT.h b/include/softlib/SFile_SDT.h
index 63bcfdb..7187ec4 100644
--- a/include/softlib/SFile_SDT.h
+++ b/include/softlib/SFile_SDT.h
@@ -24,6 +24,7 @@ class SFile_SDT : public SFile {
 	private:
 		std::fstream sdtfile;
 		std::string GetAttributeName(const std::string&, const std::string&);
+		void CheckName(const std::string&);
 		void CheckWritten(const std::string&);
 
         mat_list_t matrices;
diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 65cabd7..6bfde00 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -376,8 +376,22 @@ void SFile_SDT::CheckWritten(const string& name) {
         throw SFileException("%s: Unable to write variable '%s' to the SDT file.", filename.c_str(), name.c_str());
 }
 
+/**
+ * Make sure that the given name can be read back,
+ * i.e. that it is not empty and does not contain any
+ * white space.
+ *
+ * name: Name of the variable to write.
+ */
+void SFile_SDT::CheckName(const string& name) {
+    if (name.empty() || name.find_first_of(" \t\n\v\f\r") != string::npos)
+        throw SFileException("%s: Invalid name of SDT variable: '%s'.", filename.c_str(), name.c_str());
+}
+
 template<typename T>
 void SFile_SDT::WriteNumArray(const string& name, const T *const* arr, sfilesize_t nrows, sfilesize_t ncols) {
+    CheckName(name);
+
     // Definition string
     sdtfile << "@matrix " << name << " " << nrows << " " << ncols << endl;
 
@@ -425,6 +439,7 @@ void SFile_SDT::WriteUInt64Array(const string& name, const uint64_t *const* arr,
 void SFile_SDT::WriteAttribute_scalar(const string& datasetname, const string& name, const double val) {
     string att_name = GetAttributeName(datasetname, name);
 
+    CheckName(att_name);
     sdtfile << "@matrix " << att_name << " 1 1" << endl << val << endl << endl;
     CheckWritten(att_name);
 }
@@ -470,6 +485,7 @@ void SFile_SDT::WriteUInt64List(const string& name, const uint64_t *list, sfiles
 }
 
 void SFile_SDT::WriteString(const string& name, const string& val) {
+    CheckName(name);
     sdtfile << "@string " << name << " " << val.size() << endl;
 
     // Encode and write string value
-- 
2.43.0


From bb858f420708e19f018e2be96e4c90893c53a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:47 +0000
Subject: [PATCH 108/110] fix: configuration text after a null character was
 silently ignored, and reading from an exhausted standard input crashed

---
 src/Configuration/Script/ConfigurationScript.cpp | 16 ++++------------
 src/Configuration/Script/Lexer.cpp               |  7 +++++++
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/Configuration/Script/ConfigurationScript.cpp b/src/Configuration/Script/ConfigurationScript.cpp
index 4a78e00..f0a60c4 100644
--- a/src/Configuration/Script/ConfigurationScript.cpp
+++ b/src/Configuration/Script/ConfigurationScript.cpp
@@ -41,20 +41,12 @@ void ConfigurationScript::FromFile(const string& filename) {
  * Load configuration from stdin.
  */
 void ConfigurationScript::FromStdin() {
-#	define _FROMSTDIN_BUFSIZE 1000
-	char *buf = NULL;
-	size_t bufl = 0;
-
-	while (!cin.eof()) {
-		buf = (char*)realloc(buf, sizeof(char)*(bufl+_FROMSTDIN_BUFSIZE+1));
-		cin.read(buf+bufl, _FROMSTDIN_BUFSIZE);
-		bufl += cin.gcount();
-	}
+	stringstream buffer;
 
-	buf[bufl] = 0;
+	buffer << cin.rdbuf();
 
-	string b = string(buf);
-	FromString(b, "stdin");
+	string contents = buffer.str();
+	FromString(contents, "stdin");
 }
 
 /**
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index d92809f..fa8d70e 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -269,6 +269,13 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 		}
 	}
 
+	// Reading stops at null characters, which have no place in a script
+	if (!this->instring && !this->ininclude && this->cnfbufferpos < this->cnfbufferlength)
+		throw ConfigurationException(
+			this->linecounter, this->charpos, this->file,
+			"Unexpected null character."
+		);
+
 	// The end of a string or file name must not be missing
 	if (this->instring || this->ininclude)
 		throw ConfigurationException(
-- 
2.43.0


From 849e6605334e490884f85834eae36f400efc1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:47 +0000
Subject: [PATCH 109/110] fix: directories were silently read as empty
 configuration files

---
 src/Configuration/Script/ConfigurationScript.cpp | 4 +++-
 src/Configuration/Script/Lexer.cpp               | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Configuration/Script/ConfigurationScript.cpp b/src/Configuration/Script/ConfigurationScript.cpp
index f0a60c4..39c1a8d 100644
--- a/src/Configuration/Script/ConfigurationScript.cpp
+++ b/src/Configuration/Script/ConfigurationScript.cpp
@@ -26,7 +26,9 @@ void ConfigurationScript::FromFile(const string& filename) {
 	ifstream cfile(filename);
 	stringstream buffer;
 
-	if (!cfile.is_open())
+	// Directories can be opened, but not read
+	cfile.peek();
+	if (!cfile.is_open() || cfile.bad())
 		throw ConfigurationException("Unable to open configuration file: " + filename);
 	else this->filename = filename;
 
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index fa8d70e..7837656 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -155,7 +155,9 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     string oldfile, oldbuf;
     size_t bufpos, buflen, linec, charc;
 
-    if (!cfile.is_open())
+    // Directories can be opened, but not read
+    cfile.peek();
+    if (!cfile.is_open() || cfile.bad())
         throw ConfigurationException(
             this->linecounter, this->charpos, this->file,
             "Unable to open included configuration file '%s'.",
-- 
2.43.0


From f3a4d7c2e146032298c05c5debb034e6e67952ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:36 +0000
Subject: [PATCH 110/110] fix: integer matrices in HDF5 files were returned as
 lists instead of being refused

---
 src/SFile/SFile_HDF5.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 604b0af..54ac282 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -349,6 +349,9 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 
 	dspace.getSimpleExtentDims(d);
 	
+	if (ndims == 2 && d[0] != 1 && d[1] != 1)
+		throw SFileException("%s: The requested variable is not a vector: '%s'.", sf->filename.c_str(), name.c_str());
+
 	if (ndims == 1) {
         *dims = d[0];
 		data = new T[d[0]];
-- 
2.43.0

