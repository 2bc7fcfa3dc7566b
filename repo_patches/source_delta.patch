From a6e0a6208135ec13cd1268119ff98b9eb9bb4e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:39 +0000
Subject: [PATCH 01/77] fix: SFile_HDF5 destructor deleted an uninitialised
 file pointer when Open failed

---
 src/SFile/SFile_HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index 49a994b..fa8a54c 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -14,7 +14,7 @@
 using namespace H5;
 using namespace std;
 
-SFile_HDF5::SFile_HDF5() {
+SFile_HDF5::SFile_HDF5() : file(nullptr) {
     // Disable HDF5 error messages
     H5::Exception::dontPrint();
 }
-- 
2.43.0


From dd2da689a6d5cc7504970619d04eb9d6dade725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:41 +0000
Subject: [PATCH 02/77] fix: SFile_HDF5::GetAttributeScalar read non-double
 attributes as raw bytes of a double

---
 src/SFile/SFile_HDF5.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index fa8a54c..ccca3c1 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -128,9 +128,8 @@ double SFile_HDF5::GetAttributeScalar(const string& datasetname, const string& n
         double s;
         DataSet dataset = file->openDataSet(datasetname);
         Attribute attr = dataset.openAttribute(name);
-        DataType type = attr.getDataType();
 
-        attr.read(type, &s);
+        attr.read(PredType::NATIVE_DOUBLE, &s);
 
         return s;
     } catch (FileIException &ex) {
-- 
2.43.0


From 277441c34a1dbcfb3b23cb5f9f6a0e858595c7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:42 +0000
Subject: [PATCH 03/77] fix: reading a missing HDF5 attribute let
 AttributeIException escape

---
 src/SFile/SFile_HDF5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index ccca3c1..d7f6d70 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -132,7 +132,7 @@ double SFile_HDF5::GetAttributeScalar(const string& datasetname, const string& n
         attr.read(PredType::NATIVE_DOUBLE, &s);
 
         return s;
-    } catch (FileIException &ex) {
+    } catch (H5::Exception &ex) {
         throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
     }
 }
@@ -153,7 +153,7 @@ string SFile_HDF5::GetAttributeString(const string& datasetname, const string& n
 
         attr.read(type, s);
         return s;
-    } catch (FileIException &ex) {
+    } catch (H5::Exception &ex) {
         throw SFileException("Unable to read attribute string '%s'. HDF5 error: %s", datasetname.c_str(), ex.getCDetailMsg());
     }
 }
-- 
2.43.0


From 7b6a92a924656b5ff37a4e1ff81a946fa43e5a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:44 +0000
Subject: [PATCH 04/77] fix: HDF5 array readers overran the extent array for
 datasets of rank above two

---
 src/SFile/SFile_HDF5.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_HDF5.cpp b/src/SFile/SFile_HDF5.cpp
index d7f6d70..0105fea 100644
--- a/src/SFile/SFile_HDF5.cpp
+++ b/src/SFile/SFile_HDF5.cpp
@@ -206,8 +206,12 @@ T **SFile_HDF5::GetArray2D(const string& name, sfilesize_t *dims, PredType p) {
 	DataSet dset = this->file->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(dims);
-	
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims != 1 && ndims != 2)
+		throw SFileException("%s: The requested variable is not one- or two-dimensional: '%s'.", filename.c_str(), name.c_str());
+
+	dspace.getSimpleExtentDims(dims);
+
 	if (ndims == 1) {
         dims[1] = dims[0];
         dims[0] = 1;
@@ -269,8 +273,12 @@ T *SFile_HDF5_GetArray1D(SFile_HDF5 *sf, const string& name, sfilesize_t *dims,
 	DataSet dset = sf->__GetFile()->openDataSet(name);
 	DataSpace dspace = dset.getSpace();
 
-	ndims = dspace.getSimpleExtentDims(d);
-	
+	ndims = dspace.getSimpleExtentNdims();
+	if (ndims != 1 && ndims != 2)
+		throw SFileException("%s: The requested variable is not one- or two-dimensional: '%s'.", sf->filename.c_str(), name.c_str());
+
+	dspace.getSimpleExtentDims(d);
+
 	if (ndims == 1) {
         *dims = d[0];
 		data = new T[d[0]];
-- 
2.43.0


From ac33d3b70d447ea5cb3029c9bd5a225bda0bd897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:45 +0000
Subject: [PATCH 05/77] fix: SFile_MAT integer multi-arrays created a second
 dataset instead of the class tag

---
 src/SFile/SFile_MAT.HDF5.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index e682640..8621f36 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -299,19 +299,19 @@ void SFile_MAT::WriteMultiArray(const string& name, const double *arr, const sfi
 }
 void SFile_MAT::WriteMultiInt32Array(const string& name, const int32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt32Array(name, arr, ndims, dims);
-    WriteString(name, "int32");
+    WriteMATLAB_class(name, "int32");
 }
 void SFile_MAT::WriteMultiInt64Array(const string& name, const int64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiInt64Array(name, arr, ndims, dims);
-    WriteString(name, "int64");
+    WriteMATLAB_class(name, "int64");
 }
 void SFile_MAT::WriteMultiUInt32Array(const string& name, const uint32_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt32Array(name, arr, ndims, dims);
-    WriteString(name, "uint32");
+    WriteMATLAB_class(name, "uint32");
 }
 void SFile_MAT::WriteMultiUInt64Array(const string& name, const uint64_t *arr, const sfilesize_t ndims, const sfilesize_t *dims) {
     SFile_HDF5::WriteMultiUInt64Array(name, arr, ndims, dims);
-    WriteString(name, "uint64");
+    WriteMATLAB_class(name, "uint64");
 }
 
 void SFile_MAT::WriteString(const string& name, const string& str) {
-- 
2.43.0


From 1069a3d5ee6ce1c00e98b71facc0a7f2793c29dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:46 +0000
Subject: [PATCH 06/77] fix: MAT header month was off by one (and read outside
 the table in January)

---
 src/SFile/SFile_MAT.HDF5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 8621f36..1d3f2d3 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -73,7 +73,7 @@ H5File *SFile_MAT::CreateMAT(const string& filename) {
 
     int
         dayw = local_tm.tm_wday,
-        imon = local_tm.tm_mon-1,
+        imon = local_tm.tm_mon,
         iday = local_tm.tm_mday,
         hour = local_tm.tm_hour,
         minute = local_tm.tm_min,
-- 
2.43.0


From 138bb8331647465afb19bd3fe415fcec6a7f82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:48 +0000
Subject: [PATCH 07/77] fix: lists and scalars in MAT files lacked the
 MATLAB_class tag

---
 include/softlib/SFile_MAT.HDF5.h |  6 ++++++
 src/SFile/SFile_MAT.HDF5.cpp     | 24 ++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/softlib/SFile_MAT.HDF5.h b/include/softlib/SFile_MAT.HDF5.h
index 5c56ec3..aece0ec 100644
--- a/include/softlib/SFile_MAT.HDF5.h
+++ b/include/softlib/SFile_MAT.HDF5.h
@@ -35,6 +35,12 @@ class SFile_MAT : public SFile_HDF5 {
         virtual void WriteUInt32Array(const std::string&, const uint32_t *const*, sfilesize_t, sfilesize_t) override;
         virtual void WriteUInt64Array(const std::string&, const uint64_t *const*, sfilesize_t, sfilesize_t) override;
 
+		virtual void WriteList(const std::string&, const double*, sfilesize_t) override;
+        virtual void WriteInt32List(const std::string&, const int32_t*, sfilesize_t) override;
+        virtual void WriteInt64List(const std::string&, const int64_t*, sfilesize_t) override;
+        virtual void WriteUInt32List(const std::string&, const uint32_t*, sfilesize_t) override;
+        virtual void WriteUInt64List(const std::string&, const uint64_t*, sfilesize_t) override;
+
         virtual void WriteMultiInt32Array(const std::string&, const int32_t*, const sfilesize_t, const sfilesize_t*) override;
         virtual void WriteMultiInt64Array(const std::string&, const int64_t*, const sfilesize_t, const sfilesize_t*) override;
         virtual void WriteMultiUInt32Array(const std::string&, const uint32_t*, const sfilesize_t, const sfilesize_t*) override;
diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 1d3f2d3..0cf48ec 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -272,6 +272,30 @@ void SFile_MAT::WriteUInt64Array(const string& name, const uint64_t *const* arr,
     WriteMATLAB_class(name, "uint64");
 }
 
+/**
+ * Write a list (1-D array) to the target file.
+ */
+void SFile_MAT::WriteList(const string& name, const double *list, sfilesize_t n) {
+    SFile_HDF5::WriteList(name, list, n);
+    WriteMATLAB_class(name, "double");
+}
+void SFile_MAT::WriteInt32List(const string& name, const int32_t *list, sfilesize_t n) {
+    SFile_HDF5::WriteInt32List(name, list, n);
+    WriteMATLAB_class(name, "int32");
+}
+void SFile_MAT::WriteInt64List(const string& name, const int64_t *list, sfilesize_t n) {
+    SFile_HDF5::WriteInt64List(name, list, n);
+    WriteMATLAB_class(name, "int64");
+}
+void SFile_MAT::WriteUInt32List(const string& name, const uint32_t *list, sfilesize_t n) {
+    SFile_HDF5::WriteUInt32List(name, list, n);
+    WriteMATLAB_class(name, "uint32");
+}
+void SFile_MAT::WriteUInt64List(const string& name, const uint64_t *list, sfilesize_t n) {
+    SFile_HDF5::WriteUInt64List(name, list, n);
+    WriteMATLAB_class(name, "uint64");
+}
+
 void SFile_MAT::WriteAttribute_scalar(const string& dsetname, const string& name, const double q) {
     string nname = GetAttributeName(dsetname, name);
     WriteList(nname, &q, 1);
-- 
2.43.0


From 642af49d51a1387d1ca6eb6378b98e0005d8b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:49 +0000
Subject: [PATCH 08/77] fix: SFile_MAT::GetString overran its buffers for char
 matrices and leaked the string

---
 src/SFile/SFile_MAT.HDF5.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/SFile/SFile_MAT.HDF5.cpp b/src/SFile/SFile_MAT.HDF5.cpp
index 0cf48ec..dbf65a1 100644
--- a/src/SFile/SFile_MAT.HDF5.cpp
+++ b/src/SFile/SFile_MAT.HDF5.cpp
@@ -194,16 +194,18 @@ string SFile_MAT::GetString(const string& name) {
     DataSpace dspace = dataset.getSpace();
 
     sfilesize_t dims[2]={0,0};
-    sfilesize_t n = dspace.getSimpleExtentDims(dims);
+    sfilesize_t n = dspace.getSimpleExtentNdims();
     if (n != 1 && n != 2)
         throw SFileException("Invalid number of dimensions (%llu) for string: %s.", n, name.c_str());
+
+    dspace.getSimpleExtentDims(dims);
     
     if (type == PredType::STD_U16LE) {
         sfilesize_t len;
         if (n == 1)
             len = dims[0];
         else
-            len = (dims[1]==1?dims[0]:dims[1]);
+            len = dims[0]*dims[1];
 
         unsigned short *arr = new unsigned short[len];
         dataset.read(arr, type, dspace);
@@ -217,6 +219,7 @@ string SFile_MAT::GetString(const string& name) {
         delete [] arr;
 
         s = str;
+        delete [] str;
     } else if (type.getClass() == H5T_STRING) {
         dataset.read(s, type, dspace);
     } else {
-- 
2.43.0


From 80666a71b38c9f3dc0c23573d83f601f3b4f4bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:21 +0000
Subject: [PATCH 09/77] fix: SFile_SDT::GetDoubles handed out its internal
 matrix (double free on re-read)

---
 src/SFile/SFile_SDT.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 2acaad7..ef6c7f5 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -141,7 +141,11 @@ double **SFile_SDT::GetDoubles(const string& name, sfilesize_t *dims) {
     for (sfilesize_t i = 1; i < dims[0]; i++)
         narr[i] = narr[i-1] + dims[1];
 
-    return it->second.value;
+    for (sfilesize_t i = 0; i < dims[0]; i++)
+        for (sfilesize_t j = 0; j < dims[1]; j++)
+            narr[i][j] = it->second.value[i][j];
+
+    return narr;
 }
 
 /**
-- 
2.43.0


From a0ca1c37b4fac1b786c796a9cea8dc44aa45b36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:23 +0000
Subject: [PATCH 10/77] fix: SFile_SDT::GetDoubles1D refused column vectors and
 accepted matrices

---
 src/SFile/SFile_SDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index ef6c7f5..50427b7 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -217,7 +217,7 @@ double *SFile_SDT::GetDoubles1D(const string &name, sfilesize_t *dims) {
 
     if (it->second.nrows == 1)
         *dims = it->second.ncols;
-    else if (it->second.ncols != 1)
+    else if (it->second.ncols == 1)
         *dims = it->second.nrows;
     else
         throw SFileException("The requested variable is not a vector: '%s'.", name.c_str());
-- 
2.43.0


From ed6f8babbf2e7c89b5b67a8e3d7a67c9ecdf865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:24 +0000
Subject: [PATCH 11/77] fix: SFile_SDT::Open ignored files that could not be
 opened

---
 src/SFile/SFile_SDT.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 50427b7..239b925 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -51,14 +51,20 @@ void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     switch (mode) {
         case SFILE_MODE_READ:
             sdtfile.open(filename, ios::in);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             Load();
             Close();
             break;
         case SFILE_MODE_UPDATE:
             sdtfile.open(filename, ios::in | ios::out);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             break;
         case SFILE_MODE_WRITE:
             sdtfile.open(filename, ios::out | ios::trunc);
+            if (!sdtfile.is_open())
+                throw SFileException("%s: Unable to open SDT file.", filename.c_str());
             break;
         default:
             throw SFileException("Unrecognized option for opening the SDT file: %d.", mode);
-- 
2.43.0


From 2dc0d041ef96cb643e7cb4a9069fa51650605600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:26 +0000
Subject: [PATCH 12/77] fix: SDT files stored only six significant digits

---
 src/SFile/SFile_SDT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SFile/SFile_SDT.cpp b/src/SFile/SFile_SDT.cpp
index 239b925..23ca17c 100644
--- a/src/SFile/SFile_SDT.cpp
+++ b/src/SFile/SFile_SDT.cpp
@@ -32,6 +32,7 @@
 #include <cstdlib>
 #include <iostream>
 #include <fstream>
+#include <limits>
 #include <string>
 #include <softlib/SFile.h>
 #include <softlib/SFileException.h>
@@ -47,6 +48,8 @@ using namespace std;
  */
 void SFile_SDT::Open(const string &filename, enum sfile_mode openmode) {
     mode = openmode;
+    // Write enough digits to restore every double exactly
+    sdtfile.precision(numeric_limits<double>::max_digits10);
 
     switch (mode) {
         case SFILE_MODE_READ:
-- 
2.43.0


From d30d3755d1a6609e849610a0e46dbdc936b82d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:28 +0000
Subject: [PATCH 13/77] fix: SFile::GetMultiArray indexed out of bounds for
 one-dimensional data

---
 src/SFile/SFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SFile/SFile.cpp b/src/SFile/SFile.cpp
index 669d152..cc73550 100644
--- a/src/SFile/SFile.cpp
+++ b/src/SFile/SFile.cpp
@@ -100,6 +100,9 @@ void *SFile::GetMultiArray(const string& name, const sfilesize_t nndims, sfilesi
 	if (ptr == nullptr)
 		return nullptr;
 
+	if (ndims < 2)
+		return (void*)ptr;
+
 	// Convert to multidimensional pointer
 	sfilesize_t nel = 1;
 	for (sfilesize_t i = 0; i < ndims; i++)
-- 
2.43.0


From 651807db701ba71e5f8578cf36924be2a70bac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:33 +0000
Subject: [PATCH 14/77] fix: SOFTLibException truncated long messages and
 leaked its buffer

---
 include/softlib/SOFTLibException.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/softlib/SOFTLibException.h b/include/softlib/SOFTLibException.h
index 4620bca..c75f9c7 100644
--- a/include/softlib/SOFTLibException.h
+++ b/include/softlib/SOFTLibException.h
@@ -1,6 +1,8 @@
 #ifndef _SOFTLIB_EXCEPTION_H
 #define _SOFTLIB_EXCEPTION_H
 
+#include <cstdio>
+#include <cstdlib>
 #include <exception>
 #include <string>
 
@@ -30,9 +32,11 @@ class SOFTLibException : public std::exception {
 				this->errormsg = msg;
 			} else if (n >= SOFTLIBEXCEPTION_BUFFER_SIZE) {
 				buffer = (char*)realloc(buffer, sizeof(char)*(n+1));
-				n = snprintf(buffer, n, msg.c_str(), std::forward<Args>(args) ...);
+				n = snprintf(buffer, n+1, msg.c_str(), std::forward<Args>(args) ...);
 				this->errormsg = buffer;
 			} else this->errormsg = buffer;
+
+			free(buffer);
         }
 
 		virtual const char* what() const throw();
-- 
2.43.0


From e772c9e8e9da3afde624624048a73a81bbf03fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:16 +0000
Subject: [PATCH 15/77] fix: Matrix assignment, += and vector*matrix did not
 compile

---
 include/softlib/General/Matrix.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 0bcff02..eaa01b7 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -124,7 +124,7 @@ unsigned int Matrix<M,N,T>::Cols() const { return N; }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = mat[i];
+        elems[i] = mat(i);
 
     return *this;
 }
@@ -137,7 +137,7 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator=(const Matrix<M,N,T>& mat) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T>& Matrix<M,N,T>::operator+=(const Matrix<M,N,T>& mat) {
     for (unsigned int i = 0; i < M*N; i++)
-        elems[i] += mat[i];
+        elems[i] += mat(i);
 
     return *this;
 }
@@ -351,7 +351,7 @@ Vector<N,T> operator*(const Vector<M,T>& l, const Matrix<M,N,T>& r) {
     for (unsigned int i = 0; i < N; i++) {
         T sum = 0;
         for (unsigned int j = 0; j < M; j++)
-            sum += l(j,i) * r[j];
+            sum += l[j] * r(j,i);
 
         vec[i] = sum;
     }
-- 
2.43.0


From 46aa57334b33fec7855e83ea8c759d427d241619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:16 +0000
Subject: [PATCH 16/77] fix: Matrix times scalar added the scalar instead of
 multiplying

---
 include/softlib/General/Matrix.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index eaa01b7..36ccf96 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -311,13 +311,13 @@ Matrix<M,K,T> operator*(const Matrix<M,N,T>& l, const Matrix<N,K,T>& r) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const Matrix<M,N,T>& l, const T r) {
     Matrix<M,N,T> C(l);
-    C += r;
+    C *= r;
     return C;
 }
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator*(const T l, const Matrix<M,N,T>& r) {
     Matrix<M,N,T> C(r);
-    C += l;
+    C *= l;
     return C;
 }
 
-- 
2.43.0


From 43e12bcfc22693588a93b375fa1d696b35602328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:17 +0000
Subject: [PATCH 17/77] fix: scalar minus Matrix had the wrong sign

---
 include/softlib/General/Matrix.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 36ccf96..954363b 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -281,7 +281,8 @@ Matrix<M,N,T> operator-(const Matrix<M,N,T>& lhs, const T rhs) {
 template<unsigned int M, unsigned int N, class T>
 Matrix<M,N,T> operator-(const T lhs, const Matrix<M,N,T>& rhs) {
     Matrix<M,N,T> C(rhs);
-    C -= lhs;
+    C *= -1;
+    C += lhs;
     return C;
 }
 
-- 
2.43.0


From 9d53158b686c2891a40ac5e72ad810fa96b168f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:17 +0000
Subject: [PATCH 18/77] fix: Matrix *= overwrote elements it still had to read
 and unary minus modified its operand

---
 include/softlib/General/Matrix.tcc | 23 +++++++----------------
 include/softlib/Matrix.h           |  4 ++--
 2 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/include/softlib/General/Matrix.tcc b/include/softlib/General/Matrix.tcc
index 954363b..19d1ae2 100644
--- a/include/softlib/General/Matrix.tcc
+++ b/include/softlib/General/Matrix.tcc
@@ -191,16 +191,8 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator-=(const T s) {
  * mat: Matrix to multiply with.
  */
 template<unsigned int M, unsigned int N, class T>
-Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const Matrix<N,M,T>& mat) {
-    for (unsigned int i = 0; i < M; i++) {
-        for (unsigned int j = 0; j < M; j++) {
-            T sum = 0;
-            for (unsigned k = 0; k < N; k++)
-                sum += elems[i*N+k] * mat(k,j);
-
-            elems[i*N+j] = sum;
-        }
-    }
+Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const Matrix<N,N,T>& mat) {
+    *this = (*this) * mat;
 
     return *this;
 }
@@ -219,14 +211,13 @@ Matrix<M,N,T>& Matrix<M,N,T>::operator*=(const T s) {
 }
 
 /**
- * Negate all elements of this matrix.
+ * Returns the negative of this matrix.
  */
 template<unsigned int M, unsigned int N, class T>
-Matrix<M,N,T>& Matrix<M,N,T>::operator-() {
-    for (unsigned int i = 0; i < M*N; i++)
-        elems[i] = -elems[i];
-
-    return *this;
+Matrix<M,N,T> Matrix<M,N,T>::operator-() const {
+    Matrix<M,N,T> C(*this);
+    C *= -1;
+    return C;
 }
 
 
diff --git a/include/softlib/Matrix.h b/include/softlib/Matrix.h
index a5b346f..f8cd391 100644
--- a/include/softlib/Matrix.h
+++ b/include/softlib/Matrix.h
@@ -32,9 +32,9 @@ class Matrix {
         Matrix<M,N,T>& operator+=(const T);
         Matrix<M,N,T>& operator-=(const Matrix<M,N,T>&);
         Matrix<M,N,T>& operator-=(const T);
-        Matrix<M,N,T>& operator*=(const Matrix<N,M,T>&);
+        Matrix<M,N,T>& operator*=(const Matrix<N,N,T>&);
         Matrix<M,N,T>& operator*=(const T);
-        Matrix<M,N,T>& operator-();
+        Matrix<M,N,T> operator-() const;
 
         unsigned int Rows() const;
         unsigned int Cols() const;
-- 
2.43.0


From 7ab8e7f9aeca3caabf3664302d18d8be98fd6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:21 +0000
Subject: [PATCH 19/77] fix: Vector operations gave wrong results when the
 destination aliased an operand

---
 include/softlib/General/Vector.tcc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/softlib/General/Vector.tcc b/include/softlib/General/Vector.tcc
index a819e18..047f1c0 100644
--- a/include/softlib/General/Vector.tcc
+++ b/include/softlib/General/Vector.tcc
@@ -69,7 +69,8 @@ Vector<N,T>& Vector<N,T>::operator=(const T *rhs) {
  * Assignment of scalar to 1D Vector.
  */
 template<unsigned int N, class T>
-Vector<N,T>& Vector<N,T>::operator=(const T& rhs) {
+Vector<N,T>& Vector<N,T>::operator=(const T& sc) {
+	const T rhs = sc;	// 'sc' may refer to an element of this vector
 	for (unsigned int i = 0; i < N; i++)
 		elems[i] = rhs;
 
@@ -101,7 +102,8 @@ Vector<N,T>& Vector<N,T>::operator+=(const Vector<N,T>& v) {
 	return *this;
 }
 template<unsigned int N, class T>
-Vector<N,T>& Vector<N,T>::operator+=(const T& s) {
+Vector<N,T>& Vector<N,T>::operator+=(const T& sc) {
+	const T s = sc;	// 'sc' may refer to an element of this vector
 	for (unsigned int i = 0; i < N; i++)
 		elems[i] += s;
 
@@ -123,7 +125,8 @@ Vector<N,T>& Vector<N,T>::operator-=(const Vector<N,T>& v) {
 	return *this;
 }
 template<unsigned int N, class T>
-Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
+Vector<N,T>& Vector<N,T>::operator-=(const T& sc) {
+	const T s = sc;	// 'sc' may refer to an element of this vector
 	for (unsigned int i = 0; i < N; i++)
 		elems[i] -= s;
 
@@ -136,7 +139,8 @@ Vector<N,T>& Vector<N,T>::operator-=(const T& s) {
  * s: Scalar value to multiply this vector with.
  */
 template<unsigned int N, class T>
-Vector<N,T>& Vector<N,T>::operator*=(const T& s) {
+Vector<N,T>& Vector<N,T>::operator*=(const T& sc) {
+	const T s = sc;	// 'sc' may refer to an element of this vector
 	for (unsigned int i = 0; i < N; i++)
 		elems[i] *= s;
 
@@ -306,9 +310,12 @@ Vector<N,T> &Vector<N,T>::Cross(const Vector<N,T> &a, const Vector<N,T> &b, Vect
     if (N != 3)
         throw SOFTLibException("Cross products are only defined for 3-vectors.");
     else {
-        c[0] = a[1]*b[2] - a[2]*b[1];
-        c[1] = a[2]*b[0] - a[0]*b[2];
+        // 'c' may be the same object as 'a' or 'b'
+        const T c0 = a[1]*b[2] - a[2]*b[1];
+        const T c1 = a[2]*b[0] - a[0]*b[2];
         c[2] = a[0]*b[1] - a[1]*b[0];
+        c[1] = c1;
+        c[0] = c0;
 
         return c;
     }
-- 
2.43.0


From 2433873f3ef1f5a529e36139338539c707b03aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 20/77] fix: unsigned type queries of settings accepted
 negative and 64-bit numbers

---
 src/Configuration/Script/SettingScript.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index 6af9591..f42bfe1 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -1,4 +1,5 @@
 
+#include <limits>
 #include <string>
 #include <vector>
 #include <iostream>
@@ -180,17 +181,20 @@ bool SettingScript::IsUnsignedInteger32() const {
 }
 bool SettingScript::IsUnsignedInteger32(unsigned int i) const {
     const string& value = this->values.at(i);
+    unsigned long v;
     size_t end = 0;
 
     try {
-        stoul(value, &end);
+        v = stoul(value, &end);
     } catch (invalid_argument& e) {
         return false;
     } catch (out_of_range& e) {
         return false;
     }
 
-    return (end == value.length());
+    // 'stoul' also accepts negative and 64-bit numbers
+    return (end == value.length() && value.find('-') == string::npos &&
+        v <= numeric_limits<uint32_t>::max());
 }
 bool SettingScript::IsInteger64() const {
     if (this->values.size() != 1) return false;
@@ -226,7 +230,8 @@ bool SettingScript::IsUnsignedInteger64(unsigned int i) const {
         return false;
     }
 
-    return (end == value.length());
+    // 'stoull' also accepts negative numbers
+    return (end == value.length() && value.find('-') == string::npos);
 }
 
 /**
-- 
2.43.0


From d2629a762e33461fe572c5817754c8583c86b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:39 +0000
Subject: [PATCH 21/77] fix: real-number type queries let out_of_range escape
 and accepted trailing garbage

---
 src/Configuration/Script/SettingScript.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Configuration/Script/SettingScript.cpp b/src/Configuration/Script/SettingScript.cpp
index f42bfe1..987084a 100644
--- a/src/Configuration/Script/SettingScript.cpp
+++ b/src/Configuration/Script/SettingScript.cpp
@@ -247,14 +247,17 @@ bool SettingScript::IsScalar() const {
 }
 bool SettingScript::IsScalar(unsigned int i) const {
 	const string& value = this->values.at(i);
+	size_t end = 0;
 
 	try {
-		stod(value, NULL);
+		stod(value, &end);
 	} catch (invalid_argument& e) {
 		return false;
+	} catch (out_of_range& e) {
+		return false;
 	}
 
-	return true;
+	return (end == value.length());
 }
 
 /**
@@ -265,11 +268,8 @@ bool SettingScript::IsScalar(unsigned int i) const {
 bool SettingScript::IsNumericVector() const {
 	size_t l = this->values.size();
 	for (size_t i = 0; i < l; i++) {
-		try {
-			stod(this->values[i], NULL);
-		} catch (invalid_argument& e) {
+		if (!IsScalar(i))
 			return false;
-		}
 	}
 
 	return true;
-- 
2.43.0


From aa89fe3c94c8cb7fdca535eca45cacb4b086befc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:24 +0000
Subject: [PATCH 22/77] fix: comment at end of configuration without newline
 re-read its last character

---
 src/Configuration/Script/Lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index ee8a881..1bc1f62 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -45,7 +45,7 @@ char ConfigurationScript::nextc() {
 				// Ignore all characters til end-of-line (or file)
 				do {
 					if (this->cnfbufferpos >= this->cnfbufferlength)
-						break;
+						return 0;
 
 					c = this->cnfbuffer[this->cnfbufferpos++];
 				} while (c != 0 && c != '\n');
-- 
2.43.0


From bf56708740c4b55b5e65d63a1898a846b5dc5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:26 +0000
Subject: [PATCH 23/77] fix: ConfigurationScript::advanceTo read past the
 end-of-file token

---
 src/Configuration/Script/Interpreter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Configuration/Script/Interpreter.cpp b/src/Configuration/Script/Interpreter.cpp
index efe6b18..76f6d47 100644
--- a/src/Configuration/Script/Interpreter.cpp
+++ b/src/Configuration/Script/Interpreter.cpp
@@ -36,6 +36,9 @@ bool ConfigurationScript::advance() {
  *   at the first match in this array.
  */
 bool ConfigurationScript::advanceTo(std::initializer_list<conftoken_t> args) {
+	// If current token is EOF, there is nothing ahead
+	if (tokent() == CTKN_EOF) return false;
+
 	do {
 		ConfigToken *tkn = *(this->tknstream+1);
 
-- 
2.43.0


From 133bedc1a42715b717a56b342a961dd1f330b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:28 +0000
Subject: [PATCH 24/77] fix: unterminated strings and stray include brackets
 were not reported

---
 src/Configuration/Script/Lexer.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 1bc1f62..0a2e41c 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -209,6 +209,12 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
                 this->ininclude = true;
             } break;
             case '>': {
+                if (!this->ininclude)
+                    throw ConfigurationException(
+                        this->linecounter, this->charpos, this->file,
+                        "Syntax error: Mismatched '>'."
+                    );
+
                 this->ininclude = false;
                 vector<ConfigToken*> t = include_file(buffer);
                 tkns.insert(tkns.end(), t.begin(), t.end());
@@ -237,6 +243,13 @@ vector<ConfigToken*> ConfigurationScript::Lex(const string& str) {
 		}
 	}
 
+    // Strings and include directives must be terminated
+    if (this->instring || this->ininclude)
+        throw ConfigurationException(
+            this->linecounter, this->charpos, this->file,
+            this->instring ? "Syntax error: Unterminated string." : "Syntax error: Unterminated '<'."
+        );
+
 	// Push remaining buffer
     if (!buffer.empty())
         pushbuffer(buffer, tkns);
-- 
2.43.0


From ee409ee1a5e1ba9cb4499804c9f1d6531148a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:29 +0000
Subject: [PATCH 25/77] fix: configuration files including themselves recursed
 endlessly

---
 include/softlib/Configuration/ConfigurationScript.h |  1 +
 src/Configuration/Script/ConfigurationScript.cpp    |  1 +
 src/Configuration/Script/Lexer.cpp                  | 10 ++++++++++
 3 files changed, 12 insertions(+)

diff --git a/include/softlib/Configuration/ConfigurationScript.h b/include/softlib/Configuration/ConfigurationScript.h
index e36c1bd..e08753f 100644
--- a/include/softlib/Configuration/ConfigurationScript.h
+++ b/include/softlib/Configuration/ConfigurationScript.h
@@ -108,6 +108,7 @@ private:
 	size_t cnfbufferpos, cnfbufferlength,
 		   linecounter,		/* Line number */
 		   charpos;			/* Index of character on line */
+	size_t includedepth=0;	/* Number of files currently being included */
 	std::string cnfbuffer;
     std::string file;       /* Name of file currently being read */
 	bool instring,			/* Currently in string (so all characters matter) */
diff --git a/src/Configuration/Script/ConfigurationScript.cpp b/src/Configuration/Script/ConfigurationScript.cpp
index 175ead4..4a78e00 100644
--- a/src/Configuration/Script/ConfigurationScript.cpp
+++ b/src/Configuration/Script/ConfigurationScript.cpp
@@ -65,6 +65,7 @@ void ConfigurationScript::FromStdin() {
  */
 ConfigBlock *ConfigurationScript::FromString(const string& config, const string& src) {
     this->file = src;
+    this->includedepth = 0;
 
 	// Convert the string to a stream of tokens
 	vector<ConfigToken*> tkns = Lex(config);
diff --git a/src/Configuration/Script/Lexer.cpp b/src/Configuration/Script/Lexer.cpp
index 0a2e41c..681e014 100644
--- a/src/Configuration/Script/Lexer.cpp
+++ b/src/Configuration/Script/Lexer.cpp
@@ -144,6 +144,15 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
             name.c_str()
         );
 
+    // Prevent files from including each other endlessly
+    if (this->includedepth >= 100)
+        throw ConfigurationException(
+            this->linecounter, this->charpos, this->filename,
+            "Too many nested inclusions of configuration file '%s'.",
+            name.c_str()
+        );
+    this->includedepth++;
+
     // Save current state
     oldname = this->filename;
     this->filename = name;
@@ -172,6 +181,7 @@ vector<ConfigToken*> ConfigurationScript::include_file(const string& name) {
     this->cnfbufferpos = bufpos;
     this->cnfbuffer = oldbuf;
     this->filename = oldname;
+    this->includedepth--;
 
     return tkns;
 }
-- 
2.43.0


From 7658f96f7a5653e9bd01f98c6c5ede4a202b9097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:39 +0000
Subject: [PATCH 26/77] fix: reading a configuration from an unreadable stdin
 never ended

---
 src/Configuration/Script/ConfigurationScript.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/Configuration/Script/ConfigurationScript.cpp b/src/Configuration/Script/ConfigurationScript.cpp
index 4a78e00..8a55f49 100644
--- a/src/Configuration/Script/ConfigurationScript.cpp
+++ b/src/Configuration/Script/ConfigurationScript.cpp
@@ -41,19 +41,10 @@ void ConfigurationScript::FromFile(const string& filename) {
  * Load configuration from stdin.
  */
 void ConfigurationScript::FromStdin() {
-#	define _FROMSTDIN_BUFSIZE 1000
-	char *buf = NULL;
-	size_t bufl = 0;
-
-	while (!cin.eof()) {
-		buf = (char*)realloc(buf, sizeof(char)*(bufl+_FROMSTDIN_BUFSIZE+1));
-		cin.read(buf+bufl, _FROMSTDIN_BUFSIZE);
-		bufl += cin.gcount();
-	}
-
-	buf[bufl] = 0;
+	stringstream buffer;
+	buffer << cin.rdbuf();
 
-	string b = string(buf);
+	string b = buffer.str();
 	FromString(b, "stdin");
 }
 
-- 
2.43.0


From 4ab3acd00ff729174c269ab77854a0f4445d5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:38 +0000
Subject: [PATCH 27/77] fix: pass the z coordinate of the line's origin to
 IntersectsDomain3D

---
 src/MagneticField/MagneticField2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 3b83b87..ee6cfdd 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -359,7 +359,7 @@ slibreal_t  MagneticField2D::GetMagneticAxisZ() { return this->magnetic_axis[1];
  */
 bool MagneticField2D::IntersectsDomain3D(slibreal_t *xyz0, slibreal_t *xyz1, bool has_outer_wall) {
     return IntersectsDomain3D(
-        xyz0[0], xyz0[1], xyz0[1],
+        xyz0[0], xyz0[1], xyz0[2],
         xyz1[0], xyz1[1], xyz1[2],
         has_outer_wall
     );
-- 
2.43.0


From b16310ef07992ecd77578203cd1eebe474661071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:40 +0000
Subject: [PATCH 28/77] fix: gradient of \|B\| of the analytical field for q
 different from one

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 446b2c3..0fff682 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -159,7 +159,7 @@ struct magnetic_field_data& MagneticFieldAnalytical2D::EvalDerivatives(
 	r_qRm = r / (Rm * q);
 	sqr = sqrt(r_qRm*r_qRm + 1);
 
-	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr)/sqr + costheta * iR * sqr);
+	DBr = B0*Rm * iR * (r_qRm/(Rm * q)*(1 - rdq_dr/q)/sqr + costheta * iR * sqr);
 	DB0 =-B0*Rm*sintheta * iR*iR * sqr;
 	ddr_rB0 = sigmaI * B0 * iR / q * (Rm*iR + 1 - rdq_dr/q);
 
-- 
2.43.0


From 986b417a61254ae0a42d0a434d8caba2fb180af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:55 +0000
Subject: [PATCH 29/77] fix: vector and array overloads of the concrete fields
 were declared but not defined

---
 include/softlib/MagneticField/MagneticFieldAnalytical2D.h | 4 ++--
 include/softlib/MagneticField/MagneticFieldNumeric2D.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/MagneticField/MagneticFieldAnalytical2D.h b/include/softlib/MagneticField/MagneticFieldAnalytical2D.h
index 814aef0..39c4727 100644
--- a/include/softlib/MagneticField/MagneticFieldAnalytical2D.h
+++ b/include/softlib/MagneticField/MagneticFieldAnalytical2D.h
@@ -42,9 +42,9 @@ class MagneticFieldAnalytical2D : public MagneticField2D {
         MagneticFieldAnalytical2D *Clone() override;
 
         void ConstructDomain(const slibreal_t, const slibreal_t, const slibreal_t);
-		slibreal_t *Eval(slibreal_t*);
+		using MagneticField2D::Eval;
 		slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override;
-		struct magnetic_field_data& EvalDerivatives(slibreal_t*);
+		using MagneticField2D::EvalDerivatives;
 		struct magnetic_field_data& EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
         virtual slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override;
         virtual struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
diff --git a/include/softlib/MagneticField/MagneticFieldNumeric2D.h b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
index b65a063..2a166a5 100644
--- a/include/softlib/MagneticField/MagneticFieldNumeric2D.h
+++ b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
@@ -57,7 +57,7 @@ class MagneticFieldNumeric2D : public MagneticField2D {
 		void BaseInit();
 		slibreal_t *Eval(slibreal_t*);
 		slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override;
-		struct magnetic_field_data& EvalDerivatives(slibreal_t*);
+		using MagneticField2D::EvalDerivatives;
 		struct magnetic_field_data& EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
         virtual slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override;
         virtual struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override;
-- 
2.43.0


From 2bcd62c4afc7559f4383ed0671932fac0e042b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:59 +0000
Subject: [PATCH 30/77] fix: clones of logarithmic momentum-space distributions
 forgot the exponential

---
 .../NumericMomentumSpaceDistributionFunction.cpp                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index 9cd74d7..b761787 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -138,6 +138,7 @@ NumericMomentumSpaceDistributionFunction *NumericMomentumSpaceDistributionFuncti
 
     df->Initialize(this->np, this->nxi, this->p, this->xi, this->f, this->interptype);
     df->FlipPitchSign(this->flipPitchSign);
+    df->SetLogarithmic(this->logarithmic);
     return df;
 }
 
-- 
2.43.0


From ce1bbe00e8c727653859fb1efd4f711277517369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:01 +0000
Subject: [PATCH 31/77] fix: clones of numeric distributions lost the
 extrapolation, logarithm and interpolation settings

---
 .../NumericDistributionFunction.cpp                | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 1b4ee2a..7c18029 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -308,11 +308,15 @@ int NumericDistributionFunction::InsertMomentumSpaceDistributionLog(
 NumericDistributionFunction *NumericDistributionFunction::MinClone() {
     NumericDistributionFunction *df = new NumericDistributionFunction();
 
-    for (unsigned int i = 0; i < this->r.size(); i++) {
-        df->InsertMomentumSpaceDistribution(
-            this->r[i], this->msdf[i]->MinClone()
-        );
-    }
+    df->r = this->r;
+    for (unsigned int i = 0; i < this->msdf.size(); i++)
+        df->msdf.push_back(this->msdf[i]->MinClone());
+
+    df->rmin = this->rmin;
+    df->rmax = this->rmax;
+    df->allowExtrapolation = this->allowExtrapolation;
+    df->logarithmic = this->logarithmic;
+    df->interptype = this->interptype;
 
     return df;
 }
-- 
2.43.0


From 41f4aafa8773e99fdadba51023ec036e7eb7851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:02 +0000
Subject: [PATCH 32/77] fix: the innermost radius was missing from the radial
 grid of numeric distributions

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 7c18029..990908c 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -138,6 +138,7 @@ void NumericDistributionFunction::Initialize(
     if (nr > 2)
         ascnd = (r[1] >= r[0]);
 
+    this->r.push_back(r[0]);
     for (unsigned int i = 1; i < nr; i++) {
         if ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i]))
             throw SOFTLibException("Numerical distribution function: The radial grid must be monotonically increasing or decreasing.");
-- 
2.43.0


From b4f85253d8f54cd4126e182e209d4e7c3d826292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:26 +0000
Subject: [PATCH 33/77] fix: momentum-space distributions were paired with the
 wrong radius when inserted before the first one

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 990908c..4769270 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -4,6 +4,7 @@
  * function.
  */
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <vector>
@@ -232,11 +233,9 @@ void NumericDistributionFunction::InitializeLog(
 int NumericDistributionFunction::InsertMomentumSpaceDistribution(
     slibreal_t r, NumericMomentumSpaceDistributionFunction *msdf
 ) {
-    int ir = __FindNearestR(r);
-    if (ir == -1)
-        this->r.push_back(r);
-    else
-        this->r.insert(this->r.begin() + ir+1, r);
+    // Keep the radial grid sorted
+    int ir = upper_bound(this->r.begin(), this->r.end(), r) - this->r.begin() - 1;
+    this->r.insert(this->r.begin() + ir+1, r);
 
     // Set radial grid limits
     if (this->r.size() == 1)
-- 
2.43.0


From 56f82903fae2a913660c13013f9e1dccc348a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:28 +0000
Subject: [PATCH 34/77] fix: use the separately allocated logarithm of f when
 one is requested

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 4769270..8e8f430 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -197,11 +197,10 @@ void NumericDistributionFunction::InitializeLog(
 ) {
 	slibreal_t *tf;
 
-    if (alloc) {
+    if (alloc)
         tf = new slibreal_t[nr*np*nxi];
-        for (unsigned int i = 1; i < nr; i++)
-            tf[i] = tf[i-1] + np*nxi;
-    } else tf = f;
+    else
+        tf = f;
 
     for (unsigned int i = 0; i < nr*np*nxi; i++) {
 		if (f[i] <= 0)
@@ -293,7 +292,7 @@ int NumericDistributionFunction::InsertMomentumSpaceDistributionLog(
     }
 
     int idx = this->InsertMomentumSpaceDistribution(
-        np, nxi, r, p, xi, f, interptype
+        np, nxi, r, p, xi, tf, interptype
     );
 
     this->msdf[idx]->SetLogarithmic(true);
-- 
2.43.0


From 80b8e9c5d2539091cb49ed6930039faf256272d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:30 +0000
Subject: [PATCH 35/77] fix: linear extrapolation of numeric distributions in
 radius

---
 .../NumericDistributionFunction.cpp                  | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 8e8f430..064cb5a 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -48,16 +48,14 @@ slibreal_t NumericDistributionFunction::Eval(
         f0 = this->msdf[0]->Eval(p, xi);
         f1 = 0;
     } else if (ir <= 0) {
-        r0 = 0;
-        r1 = this->r[0];
-        slibreal_t r2 = this->r[1], f2;
+        r0 = this->r[0];
+        r1 = this->r[1];
 
-        f1 = this->msdf[0]->Eval(p, xi);
-        f2 = this->msdf[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
+        f0 = this->msdf[0]->Eval(p, xi);
+        f1 = this->msdf[1]->Eval(p, xi);
     } else if ((size_t)ir >= nr-1) {
         r0 = this->r[nr-1];
-        r1 = r0 + (2*r0 - this->r[nr-2]);
+        r1 = r0 + (r0 - this->r[nr-2]);
 
         f0 = this->msdf[nr-1]->Eval(p, xi);
         f1 = 2*f0 - this->msdf[nr-2]->Eval(p, xi);
-- 
2.43.0


From bd781aa64002ca0fca317ac28addc8ff7fee691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:32 +0000
Subject: [PATCH 36/77] fix: evaluation of GO+CODE distributions below the
 first and above the last radius

---
 .../GOCODEDistributionFunction.cpp            | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index 668dc36..43b1a19 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -43,20 +43,20 @@ slibreal_t GOCODEDistributionFunction::Eval(
             throw SOFTLibException("GOCODEDistributionFunction: No data avilable for particle position. rho = %e, (shifted by %e from r = %e).", rho, drift_shift, r);
     }
 
-    unsigned int ir = (unsigned int)__FindNearestR(rho);
+    int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (ir == 0) {
-        r0 = 0;
-        r1 = this->rho[0];
-        slibreal_t r2 = this->rho[1], f2;
+    if (this->nr == 1)
+        return this->code[0]->Eval(p, xi);
+    else if (ir <= 0) {
+        r0 = this->rho[0];
+        r1 = this->rho[1];
 
-        f1 = this->code[0]->Eval(p, xi);
-        f2 = this->code[1]->Eval(p, xi);
-        f0 = (r2*f1 - r1*f2) / (r2-r1);
-    } else if (ir >= this->nr-1) {
+        f0 = this->code[0]->Eval(p, xi);
+        f1 = this->code[1]->Eval(p, xi);
+    } else if ((unsigned int)ir >= this->nr-1) {
         r0 = this->rho[this->nr-1];
-        r1 = r0 + (2*r0 - this->rho[nr-2]);
+        r1 = r0 + (r0 - this->rho[nr-2]);
 
         f0 = this->code[this->nr-1]->Eval(p, xi);
         f1 = 2*f0 - this->code[this->nr-2]->Eval(p, xi);
-- 
2.43.0


From 67a9c5ab17e98236898a04e7403d15b6c2c1a1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:34 +0000
Subject: [PATCH 37/77] fix: GO+CODE clones kept no radial limits; destroying
 an unloaded object released garbage

---
 .../softlib/DistributionFunction/GOCODEDistributionFunction.h | 2 +-
 src/DistributionFunction/GOCODEDistributionFunction.cpp       | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
index 6535726..8797af6 100644
--- a/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
+++ b/include/softlib/DistributionFunction/GOCODEDistributionFunction.h
@@ -10,7 +10,7 @@ class GOCODEDistributionFunction : public DistributionFunction {
     private:
         unsigned int nr;
         slibreal_t *rho;
-        CODEDistributionFunction **code;
+        CODEDistributionFunction **code=nullptr;
 
         slibreal_t rhomin, rhomax;
 
diff --git a/src/DistributionFunction/GOCODEDistributionFunction.cpp b/src/DistributionFunction/GOCODEDistributionFunction.cpp
index 43b1a19..06e23df 100644
--- a/src/DistributionFunction/GOCODEDistributionFunction.cpp
+++ b/src/DistributionFunction/GOCODEDistributionFunction.cpp
@@ -116,6 +116,9 @@ void GOCODEDistributionFunction::Initialize(unsigned int nr, slibreal_t *rho, CO
     this->nr   = nr;
     this->rho  = rho;
     this->code = cdf;
+
+    this->rhomin = rho[0];
+    this->rhomax = rho[nr-1];
 }
 
 /**
@@ -216,6 +219,7 @@ GOCODEDistributionFunction *GOCODEDistributionFunction::MinClone() {
     }
 
     gcdf->Initialize(this->nr, newr, cdf);
+    gcdf->allowExtrapolation = this->allowExtrapolation;
 
     return gcdf;
 }
-- 
2.43.0


From 95f06f7a41475afce17baece3f11be7c47ee4b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:35 +0000
Subject: [PATCH 38/77] fix: the table of interpolation objects is indexed by
 Legendre mode

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 1b6883d..d6ffd34 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -304,7 +304,7 @@ void CODEDistributionFunction::InitInterpolation(int interptype) {
     this->interptype = interptype;
 
     this->interp_accel = gsl_interp_accel_alloc();
-    this->interp = new gsl_interp*[this->np];
+    this->interp = new gsl_interp*[this->nleg]();
     for (i = 0; i < this->nleg; i++) {
         switch (interptype) {
             case INTERPOLATION_LINEAR:
-- 
2.43.0


From eea6a2172e48ba298c73f0a8f241ac1c1a51f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:37 +0000
Subject: [PATCH 39/77] fix: a single Legendre mode has no element for P1

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index d6ffd34..f812786 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -188,7 +188,7 @@ void CODEDistributionFunction::ComputeLegendrePolynomials(
     slibreal_t n;
 
     legmodes[0] = 1.0;
-    if (Nleg >= 1)
+    if (Nleg >= 2)
         legmodes[1] = xi;
 
     for (i = 0; i < Nleg-2; i++) {
-- 
2.43.0


From 74be49698f2789040333195208853b6f4a2ef0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:38 +0000
Subject: [PATCH 40/77] fix: remember the selected time step also when counted
 from the start

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index f812786..62b8c77 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -143,12 +143,13 @@ void CODEDistributionFunction::Load(SFile *sf, int time, int interptype, const s
      *   ... */
     if (time < 0) {
         time = ntimes+time;
-        this->timestep = time;
     }
 
     if (time >= ntimes || time < 0)
         throw SOFTLibException("Invalid time index selected for CODE distribution function: %d.", time);
 
+    this->timestep = time;
+
     // Copy to f
     ff = new slibreal_t[nnp*Nleg];
     double norm_div = 2*M_PI*ELECTRON_MASS*tTref[0][0];
-- 
2.43.0


From 65c636da49cde8f0f531133a5e694f57b4d18e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:40 +0000
Subject: [PATCH 41/77] fix: gridding a CODE distribution left stale Legendre
 polynomials behind

---
 src/DistributionFunction/CODEDistributionFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DistributionFunction/CODEDistributionFunction.cpp b/src/DistributionFunction/CODEDistributionFunction.cpp
index 62b8c77..2202300 100644
--- a/src/DistributionFunction/CODEDistributionFunction.cpp
+++ b/src/DistributionFunction/CODEDistributionFunction.cpp
@@ -378,6 +378,7 @@ NumericMomentumSpaceDistributionFunction *CODEDistributionFunction::ToMomentumSp
     }
 
     // Generate f
+    this->xileg = nan("");
     ff = new slibreal_t[nnxi*np];
     for (i = 0; i < nnxi; i++) {
         ComputeLegendrePolynomials(this->legendre, txi[i], this->nleg);
-- 
2.43.0


From a96d16115f75f971ae20deb09bb8491a67ab75cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:33 +0000
Subject: [PATCH 42/77] fix: domain limits missed crossings beyond the second
 and read outside the boundary

---
 src/MagneticField/MagneticField2D.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index ee6cfdd..4ad6c86 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -4,6 +4,7 @@
  */
 
 #include <cmath>
+#include <vector>
 #include <softlib/MagneticField/MagneticField2D.h>
 #include <softlib/SOFTLibException.h>
 
@@ -208,12 +209,11 @@ slibreal_t MagneticField2D::FindMinRadius() {
  * magnetic axis.
  */
 slibreal_t MagneticField2D::FindMaxRadius(unsigned int n, slibreal_t *r, slibreal_t *z) {
-	#define MAGFIELD2D_MAXRPOINTS 2
 	unsigned int i, ir;
 	slibreal_t za = this->GetMagneticAxisZ();
-	slibreal_t rpoints[MAGFIELD2D_MAXRPOINTS];
+	vector<slibreal_t> rpoints(n);
 
-	for (i = ir = 0; i < n-1 && ir < MAGFIELD2D_MAXRPOINTS; i++) {
+	for (i = ir = 0; i+1 < n; i++) {
 		if ((z[i] >= za && z[i+1] <= za) ||
 			(z[i] <= za && z[i+1] >= za)) {
 			if (z[i+1] == z[i])
@@ -224,12 +224,13 @@ slibreal_t MagneticField2D::FindMaxRadius(unsigned int n, slibreal_t *r, slibrea
 	}
 
 	// Handle last/first point
-	if ((z[n-1] >= za && z[0] <= za) ||
-		(z[n-1] <= za && z[0] >= za)) {
+	if (n > 0 &&
+		((z[n-1] >= za && z[0] <= za) ||
+		(z[n-1] <= za && z[0] >= za))) {
 		if (z[0] == z[n-1])
-			rpoints[ir++] = max(r[i], r[i+1]);
+			rpoints[ir++] = max(r[n-1], r[0]);
 		else
-			rpoints[ir++] = r[i] + (r[i+1]-r[i]) * (za-z[i])/(z[i+1]-z[i]);
+			rpoints[ir++] = r[n-1] + (r[0]-r[n-1]) * (za-z[n-1])/(z[0]-z[n-1]);
 	}
 
 	if (ir == 0)
@@ -294,11 +295,10 @@ void MagneticField2D::FindMaxMin(
     unsigned int n, const slibreal_t *x, const slibreal_t *y,
     const slibreal_t a, slibreal_t &mn, slibreal_t &mx
 ) {
-	#define MAGFIELD2D_MAXXPOINTS 2
 	unsigned int i, ix;
-	slibreal_t xpoints[MAGFIELD2D_MAXXPOINTS];
+	vector<slibreal_t> xpoints(n);
 
-	for (i = ix = 0; i < n-1 && ix < MAGFIELD2D_MAXRPOINTS; i++) {
+	for (i = ix = 0; i+1 < n; i++) {
 		if ((y[i] >= a && y[i+1] <= a) ||
 			(y[i] <= a && y[i+1] >= a)) {
 			if (y[i+1] == y[i])
-- 
2.43.0


From 8159c05b4cf1c85d5c49e1d4e9b68fe366810fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:51 +0000
Subject: [PATCH 43/77] fix: domain bounds were not recomputed after a new
 domain was set

---
 src/MagneticField/MagneticField2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index 4ad6c86..c981d3e 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -460,6 +460,7 @@ void MagneticField2D::SetDomain(slibreal_t *rd, slibreal_t *zd, unsigned int nd)
     this->rdomain = rd;
     this->zdomain = zd;
     this->ndomain = nd;
+    this->bounds_set = false;
 
 	this->FindMaxRadius();
 }
-- 
2.43.0


From 63fad134f89c949d3fc6e135dab453c300b21eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:54 +0000
Subject: [PATCH 44/77] fix: a magnetic field without domain or separatrix
 reported garbage for them

---
 include/softlib/MagneticField/MagneticField2D.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/MagneticField/MagneticField2D.h b/include/softlib/MagneticField/MagneticField2D.h
index 7aec4a1..b34ca0d 100644
--- a/include/softlib/MagneticField/MagneticField2D.h
+++ b/include/softlib/MagneticField/MagneticField2D.h
@@ -19,12 +19,12 @@ struct flux_diff {
 
 class MagneticField2D {
 	private:
-		slibreal_t *rdomain, *zdomain;
-        unsigned int ndomain;
+		slibreal_t *rdomain=nullptr, *zdomain=nullptr;
+        unsigned int ndomain=0;
 		slibreal_t maxradius=-1, minradius=-1;		// Maximum and minimum radius from which particles can be dropped
 
         slibreal_t *rseparatrix=nullptr, *zseparatrix=nullptr;
-        unsigned int nseparatrix;
+        unsigned int nseparatrix=0;
 
         bool bounds_set = false;
         struct {
-- 
2.43.0


From fd54f7440cdecb7cbfd45a4734be5a5d0b74d0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:29 +0000
Subject: [PATCH 45/77] fix: evaluating the numeric flux outside of the grid
 aborted the program

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 0eaba73..d86d938 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -443,6 +443,13 @@ slibreal_t MagneticFieldNumeric2D::EvalFlux(
         throw SOFTLibException("Trying to evaluate magnetic flux coordinates which have not been defined.");
 
     slibreal_t r = hypot(x, y);
+
+    /* Make sure requested point is within domain */
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     return (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
 }
 
@@ -468,6 +475,12 @@ struct flux_diff *MagneticFieldNumeric2D::EvalFluxDerivatives(
 
     slibreal_t r = hypot(x, y);
 
+    /* Make sure requested point is within domain */
+         if (r < rmin) r = rmin;
+    else if (r > rmax) r = rmax;
+         if (z < zmin) z = zmin;
+    else if (z > zmax) z = zmax;
+
     flux_data.psi     = (slibreal_t)gsl_spline2d_eval(sPsi, r, z, ra, za);
     flux_data.dpsi_dR = (slibreal_t)gsl_spline2d_eval_deriv_x(sPsi, r, z, ra, za);
     flux_data.dpsi_dZ = (slibreal_t)gsl_spline2d_eval_deriv_y(sPsi, r, z, ra, za);
-- 
2.43.0


From 1b1573919916e197460d27ec32ca6c312e11aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:31 +0000
Subject: [PATCH 46/77] fix: clones of numeric fields without wall lost their
 domain

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index d86d938..e732c3a 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -115,7 +115,7 @@ MagneticFieldNumeric2D::MagneticFieldNumeric2D(
 MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     unsigned int i, nB;
     slibreal_t *nR, *nZ, *nBr, *nBphi, *nBz, *nPsi=nullptr,
-        *nrsep, *nzsep, *nrwall, *nzwall;
+        *nrsep=nullptr, *nzsep=nullptr, *nrwall=nullptr, *nzwall=nullptr;
 
     nB     = this->nr*this->nz;
     nR     = new slibreal_t[this->nr];
@@ -123,10 +123,14 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
     nBr    = new slibreal_t[nB];
     nBphi  = new slibreal_t[nB];
     nBz    = new slibreal_t[nB];
-    nrsep  = new slibreal_t[this->nsep];
-    nzsep  = new slibreal_t[this->nsep];
-    nrwall = new slibreal_t[this->nwall];
-    nzwall = new slibreal_t[this->nwall];
+    if (this->nsep > 0) {
+        nrsep  = new slibreal_t[this->nsep];
+        nzsep  = new slibreal_t[this->nsep];
+    }
+    if (this->nwall > 0) {
+        nrwall = new slibreal_t[this->nwall];
+        nzwall = new slibreal_t[this->nwall];
+    }
 
     for (i = 0; i < this->nr; i++)
         nR[i] = this->R[i];
-- 
2.43.0


From 40ac83c8362cea5dd9b517f58699d8893d3cdd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:33 +0000
Subject: [PATCH 47/77] fix: saving a numeric field without flux dereferenced a
 null pointer

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index e732c3a..8a5d9c6 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -764,7 +764,8 @@ void MagneticFieldNumeric2D::Save(const string& filename, enum sfile_type ftype)
 
 	sf->WriteList("maxis", this->magnetic_axis, 2);
 
-	sf->WriteMultiArray("Psi", this->Psi, 2, dims);
+	if (HasMagneticFlux())
+		sf->WriteMultiArray("Psi", this->Psi, 2, dims);
 
 	sf->WriteList("r", this->R, this->nr);
 	sf->WriteList("z", this->Z, this->nz);
-- 
2.43.0


From e97f31204ed5bb3a81ccc331b9c3c6637fb8f8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:35 +0000
Subject: [PATCH 48/77] fix: numeric fields made from analytical ones had an
 uninitialised flux

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 0fff682..9f774e6 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -290,6 +290,7 @@ MagneticFieldNumeric2D *MagneticFieldAnalytical2D::ToNumeric2D(const unsigned in
             Br  [i + j*nr] = B[0];
             Bphi[i + j*nr] = B[1];
             Bz  [i + j*nr] = B[2];
+            Psi [i + j*nr] = EvalFlux(R[i], 0.0, Z[j]);
         }
     }
 
-- 
2.43.0


From 75baf051fecdf46eb720bf969f5c51561ee5df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:38 +0000
Subject: [PATCH 49/77] fix: destroying a numeric field that was never loaded
 read uninitialised members

---
 include/softlib/MagneticField/MagneticFieldNumeric2D.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/softlib/MagneticField/MagneticFieldNumeric2D.h b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
index 2a166a5..3e288eb 100644
--- a/include/softlib/MagneticField/MagneticFieldNumeric2D.h
+++ b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
@@ -18,11 +18,11 @@ class MagneticFieldNumeric2D : public MagneticField2D {
 		slibreal_t *R=nullptr, *Z=nullptr;
 		slibreal_t *rsep=nullptr, *zsep=nullptr;
 		slibreal_t *rwall=nullptr, *zwall=nullptr;
-		unsigned int nr, nz, nwall, nsep;
+		unsigned int nr=0, nz=0, nwall=0, nsep=0;
 
         /* Interpolated value storage */
-        slibreal_t *interpval;
-        slibreal_t **jacobian;
+        slibreal_t *interpval=nullptr;
+        slibreal_t **jacobian=nullptr;
         struct flux_diff flux_data;
 
 		slibreal_t rmin, rmax, zmin, zmax;
-- 
2.43.0


From 7a1d9789ddeb8e52aebfc4ff01e79fb4fa804f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:02 +0000
Subject: [PATCH 50/77] fix: magnetic field tables not matching their grids
 were read out of bounds

---
 .../MagneticField/MagneticFieldNumeric2D.h    |  1 +
 src/MagneticField/MagneticFieldNumeric2D.cpp  | 27 +++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/softlib/MagneticField/MagneticFieldNumeric2D.h b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
index 3e288eb..4e9d9c5 100644
--- a/include/softlib/MagneticField/MagneticFieldNumeric2D.h
+++ b/include/softlib/MagneticField/MagneticFieldNumeric2D.h
@@ -81,6 +81,7 @@ class MagneticFieldNumeric2D : public MagneticField2D {
 		void Save(const std::string&, enum sfile_type);
 		/* Transpose a matrix from SFile */
 		double **Transpose(double**, sfilesize_t, sfilesize_t);
+		void VerifyDimensions(const std::string&, const std::string&, const sfilesize_t*);
 
         virtual bool HasMagneticFlux() override { return hasFluxCoordinates; }
 };
diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 8a5d9c6..3a395b9 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -525,18 +525,22 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 	this->nz = fs[0];
 
 	_Br = sf->GetDoubles("Br", fs);
+	VerifyDimensions(filename, "Br", fs);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Br = Transpose(_Br, fs[0], fs[1]);
 	_Bphi = sf->GetDoubles("Bphi", fs);
+	VerifyDimensions(filename, "Bphi", fs);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bphi = Transpose(_Bphi, fs[0] ,fs[1]);
 	_Bz = sf->GetDoubles("Bz", fs);
+	VerifyDimensions(filename, "Bz", fs);
 	if (fs[0] != (sfilesize_t)this->nz)
 		_Bz = Transpose(_Bz, fs[0], fs[1]);
 
     /* Load magnetic flux */
     try {
         _Psi = sf->GetDoubles("Psi", fs);
+        VerifyDimensions(filename, "Psi", fs);
         if (fs[0] != (sfilesize_t)this->nz)
             _Psi = Transpose(_Psi, fs[0], fs[1]);
     } catch (SFileException& ex) {}
@@ -588,6 +592,9 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
             _zwall = _temp[1];
             this->nwall = fs[1];
             delete [] _temp;
+        } else if (fs[1] != 2) {
+            throw SOFTLibException("%s: Invalid dimensions of 'wall': %llu x %llu. Expected 2 x many.",
+                filename.c_str(), (unsigned long long)fs[0], (unsigned long long)fs[1]);
         } else {
             this->nwall = fs[0];
             _rwall = new slibreal_t[this->nwall];
@@ -614,6 +621,9 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
             _zsep = _temp[1];
             this->nsep = fs[1];
             delete [] _temp;
+        } else if (fs[1] != 2) {
+            throw SOFTLibException("%s: Invalid dimensions of 'separatrix': %llu x %llu. Expected 2 x many.",
+                filename.c_str(), (unsigned long long)fs[0], (unsigned long long)fs[1]);
         } else {
             this->nsep = fs[0];
             _rsep = new slibreal_t[this->nsep];
@@ -716,6 +726,23 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
     SetSeparatrix(this->rsep, this->zsep, this->nsep);
 }
 
+/**
+ * Verify that a table loaded from file is defined on
+ * the R/Z grid (or on the transposed grid).
+ *
+ * filename: Name of file from which the table was loaded.
+ * name:     Name of the table.
+ * fs:       Dimensions of the table.
+ */
+void MagneticFieldNumeric2D::VerifyDimensions(const string& filename, const string& name, const sfilesize_t *fs) {
+	if ((fs[0] != this->nz || fs[1] != this->nr) && (fs[0] != this->nr || fs[1] != this->nz))
+		throw SOFTLibException(
+			"%s: Invalid dimensions of variable '%s': %llu x %llu. Expected %u x %u.",
+			filename.c_str(), name.c_str(),
+			(unsigned long long)fs[0], (unsigned long long)fs[1], this->nz, this->nr
+		);
+}
+
 /**
  * Transpose the given matrix of size rows-by-cols.
  * The returned matrix will be of size cols-by-rows.
-- 
2.43.0


From 0ec0c98fda521093d420af7c90761285c6b51ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:04 +0000
Subject: [PATCH 51/77] fix: the file name was interpreted as a format in error
 messages of the numeric field

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 3a395b9..3bc8c46 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -561,21 +561,21 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
 
     /* Verify magnetic fields (check along R dimension) */
     if (nverBr > this->nr)
-        throw SFileException(filename+": Verification vector 'verBr' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBr' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBr; i++) {
         if (_Br[0][i] != _verBr[i])
             throw SFileException(filename+": Magnetic field component 'Br' did not match its verification vector.");
     }
 
     if (nverBphi > this->nr)
-        throw SFileException(filename+": Verification vector 'verBphi' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBphi' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBphi; i++) {
         if (_Bphi[0][i] != _verBphi[i])
             throw SFileException(filename+": Magnetic field component 'Bphi' did not match its verification vector.");
     }
 
     if (nverBz > this->nr)
-        throw SFileException(filename+": Verification vector 'verBz' has more than nr (= %u) elements.", this->nr);
+        throw SFileException("%s: Verification vector 'verBz' has more than nr (= %u) elements.", filename.c_str(), this->nr);
     for (i = 0; i < nverBz; i++) {
         if (_Bz[0][i] != _verBz[i])
             throw SFileException(filename+": Magnetic field component 'Bz' did not match its verification vector.");
-- 
2.43.0


From 133eba56bd166394df8ca280bd4ef2dd2fa07158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:01 +0000
Subject: [PATCH 52/77] fix: clones of magnetic fields keep a domain or
 separatrix set by the user

---
 src/MagneticField/MagneticFieldAnalytical2D.cpp |  8 +++++++-
 src/MagneticField/MagneticFieldNumeric2D.cpp    | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/MagneticField/MagneticFieldAnalytical2D.cpp b/src/MagneticField/MagneticFieldAnalytical2D.cpp
index 9f774e6..e07d395 100644
--- a/src/MagneticField/MagneticFieldAnalytical2D.cpp
+++ b/src/MagneticField/MagneticFieldAnalytical2D.cpp
@@ -65,13 +65,19 @@ MagneticFieldAnalytical2D::MagneticFieldAnalytical2D(
  * Deep-clones this magnetic field object.
  */
 MagneticFieldAnalytical2D *MagneticFieldAnalytical2D::Clone() {
-    return new MagneticFieldAnalytical2D(
+    MagneticFieldAnalytical2D *mf = new MagneticFieldAnalytical2D(
         this->B0, this->Rm, this->maxis_z, this->rminor,
 		((this->sigmaB>0)?MFAFS_CCW:MFAFS_CW),
 		((this->sigmaI>0)?MFAFS_CCW:MFAFS_CW),
         this->safety_factor_type, this->safety_factor_param1,
         this->safety_factor_param2, this->name, this->description
     );
+
+    // Domain and separatrix may have been replaced by the user
+    mf->SetDomain(GetRDomain(), GetZDomain(), GetNDomain());
+    mf->SetSeparatrix(GetRSeparatrix(), GetZSeparatrix(), GetNSeparatrix());
+
+    return mf;
 }
 
 /**
diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index 3bc8c46..b421ae9 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -158,7 +158,7 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
             nPsi[i] = this->Psi[i];
     }
 
-    return new MagneticFieldNumeric2D(
+    MagneticFieldNumeric2D *mf = new MagneticFieldNumeric2D(
         this->name, this->description,
         nR, nZ, this->nr, this->nz,
         nBr, nBphi, nBz, nPsi,
@@ -166,6 +166,18 @@ MagneticFieldNumeric2D *MagneticFieldNumeric2D::Clone() {
         nrsep, nzsep, this->nsep,
         nrwall, nzwall, this->nwall
     );
+
+    // Domain and separatrix may have been replaced by the user
+    if (GetRDomain() != this->rwall) {
+        if (GetRDomain() == this->rsep)
+            mf->SetDomain(nrsep, nzsep, this->nsep);
+        else
+            mf->SetDomain(GetRDomain(), GetZDomain(), GetNDomain());
+    }
+    if (GetRSeparatrix() != this->rsep)
+        mf->SetSeparatrix(GetRSeparatrix(), GetZSeparatrix(), GetNSeparatrix());
+
+    return mf;
 }
 
 /**
-- 
2.43.0


From dda11813613c747837da9091c7026c6348a916c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:51 +0000
Subject: [PATCH 53/77] fix: progress notifications from several threads raced
 on the point number, timer and estimate

---
 include/softlib/ProgressTracker.h |  2 +-
 src/General/ProgressTracker.cpp   | 22 ++++++++--------------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/softlib/ProgressTracker.h b/include/softlib/ProgressTracker.h
index 57443ac..a45af03 100644
--- a/include/softlib/ProgressTracker.h
+++ b/include/softlib/ProgressTracker.h
@@ -36,7 +36,7 @@ class ProgressTracker {
         // Running times of three previous blocks
         //   dt1 = t_{i-1} - t_{i-2}
         //   dt2 = t_{i-2} - t_{i-3}
-        long long int dt1, dt2;
+        long long int dt1=0, dt2=0;
 
         unsigned int ndigits;   // Number of digits in 'nprint'
 
diff --git a/src/General/ProgressTracker.cpp b/src/General/ProgressTracker.cpp
index 0e67b6e..d3325ef 100644
--- a/src/General/ProgressTracker.cpp
+++ b/src/General/ProgressTracker.cpp
@@ -76,28 +76,22 @@ void ProgressTracker::UpdateNext() {
  * Print progress (if necessary).
  */
 void ProgressTracker::PrintProgress(const long long int i) {
-    const long long int index = this->nextindex;
-    bool returnImmediately = false;
-
 #ifdef _OPENMP
     #pragma omp critical (ProgressTracker_Print)
     {
 #endif
-        if (i < this->next)
-            returnImmediately = true;
-        else
+        if (i >= this->next) {
+            const long long int index = this->nextindex;
             this->UpdateNext();
+
+            if (this->type == PROGRESS_LINES)
+                PrintProgressLines(index);
+
+            this->last->Reset();
+        }
 #ifdef _OPENMP
     }
 #endif
-
-    if (returnImmediately)
-        return;
-
-    if (this->type == PROGRESS_LINES)
-        PrintProgressLines(index);
-
-    this->last->Reset();
 }
 
 /**
-- 
2.43.0


From e2c01363749407a00538314a7091745577bb1a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:52 +0000
Subject: [PATCH 54/77] fix: conversions in error messages did not match the
 width of their arguments

---
 src/DistributionFunction/LUKEDistributionFunction.cpp | 2 +-
 src/DistributionFunction/SOFTDistributionFunction.cpp | 2 +-
 src/SFile/SFile_SDT.load.cpp                          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DistributionFunction/LUKEDistributionFunction.cpp b/src/DistributionFunction/LUKEDistributionFunction.cpp
index cbc0755..2931cb6 100644
--- a/src/DistributionFunction/LUKEDistributionFunction.cpp
+++ b/src/DistributionFunction/LUKEDistributionFunction.cpp
@@ -165,7 +165,7 @@ struct LUKEDistributionFunction::lukedf_data *LUKEDistributionFunction::__Load(c
 		throw SOFTLibException("Invalid number of dimensions in LUKE distribution function 'f': %llu.", ndims);
 	if (fsize3[0] != nnr || fsize3[1] != nnxi || fsize3[2] != nnp)
 		throw SOFTLibException(
-			"Invalid size of LUKE distribution function 'f': %llu x %llu x %llu. Expected %llu x %llu x %llu.",
+			"Invalid size of LUKE distribution function 'f': %llu x %llu x %llu. Expected %u x %u x %u.",
 			fsize3[0], fsize3[1], fsize3[2], nnr, nnxi, nnp
 		);
 
diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index 3622d84..ce26c59 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -230,7 +230,7 @@ void SOFTDistributionFunction::__LoadRadius(
     delete ttf;
 
     if (fsize[0] != nnxi || fsize[1] != nnp)
-        throw SOFTLibException("Invalid size of SOFT distribution function '%sf' vector: %llu x %llu. Must have size nxi-by-np (%llu x %llu).", groupname.c_str(), fsize[0], fsize[1], nnxi, nnp);
+        throw SOFTLibException("Invalid size of SOFT distribution function '%sf' vector: %llu x %llu. Must have size nxi-by-np (%u x %u).", groupname.c_str(), fsize[0], fsize[1], nnxi, nnp);
 
     dat->np = nnp;
     dat->nxi = nnxi;
diff --git a/src/SFile/SFile_SDT.load.cpp b/src/SFile/SFile_SDT.load.cpp
index 928dff5..a54f23a 100644
--- a/src/SFile/SFile_SDT.load.cpp
+++ b/src/SFile/SFile_SDT.load.cpp
@@ -72,7 +72,7 @@ void SFile_SDT::LoadMatrix(const string &name, const sfilesize_t nrows, const sf
 
         for (sfilesize_t j = 0; j < ncols; j++) {
             if (!(ss >> vals[i][j]))
-                throw SFileException("Invalid format of matrix '%s' at index (%u, %u).", name.c_str(), i, j);
+                throw SFileException("Invalid format of matrix '%s' at index (%llu, %llu).", name.c_str(), i, j);
         }
     }
 
-- 
2.43.0


From f6a6e5515e3d6b43d1ecb7f0079aaa47f602bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:31 +0000
Subject: [PATCH 55/77] fix: colours of values far outside the limits, and of
 colour maps not starting at zero, were wrong

---
 include/softlib/ImageGenerator/ImageColormap.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/softlib/ImageGenerator/ImageColormap.h b/include/softlib/ImageGenerator/ImageColormap.h
index 55b8e2a..e80f1fc 100644
--- a/include/softlib/ImageGenerator/ImageColormap.h
+++ b/include/softlib/ImageGenerator/ImageColormap.h
@@ -35,19 +35,19 @@ public:
         int l;
         slibreal_t i, f;
 
-        i = ((v-vmin)/vmax * (ncolors-1));
-        l = floor(i);
+        i = ((v-vmin)/(vmax-vmin) * (ncolors-1));
 
         scolor_t clr;
-        if (l >= ((int)ncolors)-1) {
+        if (i >= ncolors-1) {
             clr.red   = colors[ncolors-1].red;
             clr.green = colors[ncolors-1].green;
             clr.blue  = colors[ncolors-1].blue;
-        } else if (l < 0) {
+        } else if (!(i >= 0)) {     // Including NaN
             clr.red   = colors[0].red;
             clr.green = colors[0].green;
             clr.blue  = colors[0].blue;
         } else {
+            l = floor(i);
             f = i - (slibreal_t)l;
 
             // Linearly interpolate in colors
-- 
2.43.0


From a44f969946b6b42f8923761d0fd69dab2849d9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:33 +0000
Subject: [PATCH 56/77] fix: a PPM image that could not be created was lost
 silently

---
 src/ImageGenerator/ImageGeneratorPPM.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ImageGenerator/ImageGeneratorPPM.cpp b/src/ImageGenerator/ImageGeneratorPPM.cpp
index c993506..873d75f 100644
--- a/src/ImageGenerator/ImageGeneratorPPM.cpp
+++ b/src/ImageGenerator/ImageGeneratorPPM.cpp
@@ -19,6 +19,8 @@ void ImageGeneratorPPM::SaveImage(
 ) {
     ofstream file;
     file.open(name);
+    if (!file.is_open())
+        throw SOFTLibException("Unable to create PPM file.");
 
     /********************
      * Write PPM header *
-- 
2.43.0


From bc9f974c933c33d8632665fc2898362fd4189c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:34 +0000
Subject: [PATCH 57/77] fix: generating an image with the default colour map
 dereferenced a null pointer

---
 src/ImageGenerator/ImageGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ImageGenerator/ImageGenerator.cpp b/src/ImageGenerator/ImageGenerator.cpp
index b92871d..286f9b0 100644
--- a/src/ImageGenerator/ImageGenerator.cpp
+++ b/src/ImageGenerator/ImageGenerator.cpp
@@ -35,6 +35,9 @@ void ImageGenerator::gen(
     const unsigned int nrows, const unsigned int ncols, ImageColormap *colormap
 ) {
     ImageGenerator *igen = GetImageGenerator(type);
+    if (colormap == nullptr)
+        colormap = igen->cmap_gerimap;
+
     igen->SaveImage(name, img, nrows, ncols, colormap);
     delete igen;
 }
-- 
2.43.0


From 2662a226329df7275b972be99229c3797961524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:00 +0000
Subject: [PATCH 58/77] fix: loading an equilibrium without flux kept the flux
 of the previous one

---
 src/MagneticField/MagneticFieldNumeric2D.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MagneticField/MagneticFieldNumeric2D.cpp b/src/MagneticField/MagneticFieldNumeric2D.cpp
index b421ae9..f027ea8 100644
--- a/src/MagneticField/MagneticFieldNumeric2D.cpp
+++ b/src/MagneticField/MagneticFieldNumeric2D.cpp
@@ -694,8 +694,10 @@ void MagneticFieldNumeric2D::Load(const string& filename, enum sfile_type ftype)
                 this->Psi[i + j*this->nr] = (slibreal_t)_Psi[j][i];
         
         this->hasFluxCoordinates = true;
-    } else
+    } else {
         this->Psi = nullptr;
+        this->hasFluxCoordinates = false;
+    }
 	
 	delete [] _maxis;
 	delete [] _Rgrid, delete [] _Zgrid;
-- 
2.43.0


From 5168d7333372c201001552da5fc76d325cc86f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:47 +0000
Subject: [PATCH 59/77] fix: a DREAM distribution with a short name raised a
 standard exception

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index f8f7087..bbe2d4e 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -107,9 +107,9 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         throw SOFTLibException("DREAMDistributionFunction: No distribution function found in file '%s'. Try to explicitly give the name of the distribution function.", filename.c_str());
 
     size_t l = dname.length();
-    if (dname.substr(l-4) == "f_re")
+    if (l >= 4 && dname.substr(l-4) == "f_re")
         momgridname = "/grid/runaway";
-    else if (dname.substr(l-5) == "f_hot")
+    else if (l >= 5 && dname.substr(l-5) == "f_hot")
         momgridname = "/grid/hottail";
     else
         throw SOFTLibException("DREAMDistributionFunction: Unrecognized type of distribution function specified: '%s'. Unable to determine which momentum grid to use.", dname.c_str());
-- 
2.43.0


From 381535631f8169a3d7447dfe7c6f93c72c4de283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:49 +0000
Subject: [PATCH 60/77] fix: a DREAM distribution with fewer time steps than
 the time grid was read out of bounds

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index bbe2d4e..f29c391 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -128,10 +128,10 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
     double *tp = sf->GetDoubles1D(momgridname + "/p1", &np);
     double *tx = sf->GetDoubles1D(momgridname + "/p2", &nxi);
     
-    if (ndims != 4 || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
+    if (ndims != 4 || fsize[0] != nt || fsize[1] != nr || fsize[2] != nxi || fsize[3] != np)
         throw SOFTLibException(
-            "DREAMDistributionFunction: Invalid dimensions of distribution functions (%llu). The grid has size %llux%llux%llu, but f has size %llux%llux%llu.",
-            ndims, nr, nxi, np, fsize[1], fsize[2], fsize[3]
+            "DREAMDistributionFunction: Invalid dimensions of distribution functions (%llu). The grid has size %llux%llux%llux%llu, but f has size %llux%llux%llux%llu.",
+            ndims, nt, nr, nxi, np, fsize[0], fsize[1], fsize[2], fsize[3]
         );
 
     sfilesize_t TIMEINDEX;
-- 
2.43.0


From 674105b4a1425209d92047e0c0dcc81d058e17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:50 +0000
Subject: [PATCH 61/77] fix: the time step after the last one was accepted for
 DREAM distributions

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index f29c391..3dde200 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -141,7 +141,7 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         TIMEINDEX = timestep * nr*np*nxi;
 
     // Bounds check
-    if (TIMEINDEX > nt*nr*np*nxi)
+    if (TIMEINDEX >= nt*nr*np*nxi)
         throw SOFTLibException(
             "DREAMDistributionFunction: Invalid time step specified. The distribution contains %llu time steps.",
             nt
-- 
2.43.0


From 946f84870a6430418768bf2bf72aa9a2fb6183e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:11 +0000
Subject: [PATCH 62/77] fix: destroying a DREAM distribution released a pointer
 into the middle of its table

---
 src/DistributionFunction/DREAMDistributionFunction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/DREAMDistributionFunction.cpp b/src/DistributionFunction/DREAMDistributionFunction.cpp
index 3dde200..df514f3 100644
--- a/src/DistributionFunction/DREAMDistributionFunction.cpp
+++ b/src/DistributionFunction/DREAMDistributionFunction.cpp
@@ -153,7 +153,11 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
 
     // Convert to slibreal_t (if necessary)
     if (std::is_same<slibreal_t, double>::value) {
-        dat->f  = tf + TIMEINDEX;
+        // Own copy of the selected time step (this pointer is later released)
+        dat->f  = new slibreal_t[nr*nxi*np];
+        for (sfilesize_t i = 0; i < nr*nxi*np; i++)
+            dat->f[i]  = (slibreal_t)(tf+TIMEINDEX)[i];
+
         dat->r  = tr;
         dat->p  = tp;
         dat->xi = tx;
@@ -175,9 +179,9 @@ struct DREAMDistributionFunction::dreamdf_data *DREAMDistributionFunction::__Loa
         delete [] tx;
         delete [] tp;
         delete [] tr;
-        delete [] tf;
     }
 
+    delete [] tf;
     delete [] tt;
 
     // Shift radial grid (convert from normalized minor radius -> major radius)
-- 
2.43.0


From 307b143dc61e4abbadf7912be5f8a121ceb364fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:12 +0000
Subject: [PATCH 63/77] fix: the row table of SOFT distributions was released
 with the wrong operator

---
 src/DistributionFunction/SOFTDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/SOFTDistributionFunction.cpp b/src/DistributionFunction/SOFTDistributionFunction.cpp
index ce26c59..5837330 100644
--- a/src/DistributionFunction/SOFTDistributionFunction.cpp
+++ b/src/DistributionFunction/SOFTDistributionFunction.cpp
@@ -227,7 +227,7 @@ void SOFTDistributionFunction::__LoadRadius(
     // Distribution function
     double **ttf = sf->GetDoubles(groupname+"f", fsize);
 	double *tf = ttf[0];
-    delete ttf;
+    delete [] ttf;
 
     if (fsize[0] != nnxi || fsize[1] != nnp)
         throw SOFTLibException("Invalid size of SOFT distribution function '%sf' vector: %llu x %llu. Must have size nxi-by-np (%u x %u).", groupname.c_str(), fsize[0], fsize[1], nnxi, nnp);
-- 
2.43.0


From 27fcef2dbecf7e31fdf9b0b8f6216ae98e675dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:14 +0000
Subject: [PATCH 64/77] fix: a numeric distribution with a single radius was
 undefined at radius zero

---
 .../NumericDistributionFunction.cpp                    | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 064cb5a..56b92a9 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -41,13 +41,9 @@ slibreal_t NumericDistributionFunction::Eval(
     int ir = __FindNearestR(rho);
     slibreal_t r0, r1;
 
-    if (nr == 1) {
-        r0 = rho;
-        r1 = 0;
-
-        f0 = this->msdf[0]->Eval(p, xi);
-        f1 = 0;
-    } else if (ir <= 0) {
+    if (nr == 1)
+        return this->msdf[0]->Eval(p, xi);
+    else if (ir <= 0) {
         r0 = this->r[0];
         r1 = this->r[1];
 
-- 
2.43.0


From 86f587834b03e57a919069ecf345883c5dcbc615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:15 +0000
Subject: [PATCH 65/77] fix: radii beyond a decreasing radial grid were
 assigned to the wrong end

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 56b92a9..8994026 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -96,9 +96,9 @@ int NumericDistributionFunction::__FindNearestR(const slibreal_t r) {
 
     if (il > nnr-1)
         return nnr-1;
-    else if (r < this->r[0])
+    else if (ascnd ? (r < this->r[0]) : (r > this->r[0]))
         return -1;
-    else if (r > this->r[nnr-1])
+    else if (ascnd ? (r > this->r[nnr-1]) : (r < this->r[nnr-1]))
         return nnr-1;
     else
         return il;
-- 
2.43.0


From 09e3c92aba1b390606358dc00af079aaeacefb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:16 +0000
Subject: [PATCH 66/77] fix: a decreasing radial grid of two points was refused

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index 8994026..b42c495 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -130,7 +130,7 @@ void NumericDistributionFunction::Initialize(
     bool ascnd = true;
 
     // Ensure that the radial grid is monotonically increasing or decreasing
-    if (nr > 2)
+    if (nr > 1)
         ascnd = (r[1] >= r[0]);
 
     this->r.push_back(r[0]);
-- 
2.43.0


From aef6289875f395d455c30c9cef0692e8f377b45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:18 +0000
Subject: [PATCH 67/77] fix: initialising a numeric distribution again mixed
 old and new radii

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index b42c495..d8cfb29 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -133,6 +133,10 @@ void NumericDistributionFunction::Initialize(
     if (nr > 1)
         ascnd = (r[1] >= r[0]);
 
+    // Replace any previously set data
+    this->r.clear();
+    this->msdf.clear();
+
     this->r.push_back(r[0]);
     for (unsigned int i = 1; i < nr; i++) {
         if ((ascnd && r[i-1] >= r[i]) || (!ascnd && r[i-1] <= r[i]))
-- 
2.43.0


From 519fe4ac40f3b1fd97a961162dcad17ccd359789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:19 +0000
Subject: [PATCH 68/77] fix: plain data in a formerly logarithmic distribution
 was exponentiated

---
 .../NumericMomentumSpaceDistributionFunction.cpp               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
index b761787..635c039 100644
--- a/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericMomentumSpaceDistributionFunction.cpp
@@ -70,6 +70,7 @@ void NumericMomentumSpaceDistributionFunction::Initialize(
     this->p = p;
     this->xi = xi;
     this->f = f;
+    this->logarithmic = false;
 
     this->pmin = p[0];
     this->pmax = p[np-1];
@@ -125,8 +126,8 @@ void NumericMomentumSpaceDistributionFunction::InitializeLog(
         logf[i] = log(f[i]);
     }
 
-    this->logarithmic = true;
     this->Initialize(np, nxi, p, xi, logf, interp);
+    this->logarithmic = true;
 }
 
 /**
-- 
2.43.0


From 3204ba872d28461df9caa3954592c8c3d4f186cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:21 +0000
Subject: [PATCH 69/77] fix: numeric distributions initialised with logarithms
 did not report so

---
 src/DistributionFunction/NumericDistributionFunction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DistributionFunction/NumericDistributionFunction.cpp b/src/DistributionFunction/NumericDistributionFunction.cpp
index d8cfb29..422ffe9 100644
--- a/src/DistributionFunction/NumericDistributionFunction.cpp
+++ b/src/DistributionFunction/NumericDistributionFunction.cpp
@@ -155,6 +155,8 @@ void NumericDistributionFunction::Initialize(
         this->rmax = t;
     }
 
+    this->logarithmic = false;
+
     // Initialize momentum space distributions
     for (unsigned int i = 0; i < nr; i++) {
         this->msdf.push_back(new NumericMomentumSpaceDistributionFunction());
@@ -211,6 +213,7 @@ void NumericDistributionFunction::InitializeLog(
 
     for (unsigned int i = 0; i < nr; i++)
         this->msdf[i]->SetLogarithmic(true);
+    this->logarithmic = true;
 }
 
 /**
-- 
2.43.0


From acdd6d4f28651055f9d9ff79553199b0853e68d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:45 +0000
Subject: [PATCH 70/77] fix: segments parallel to an edge of the boundary were
 reported to cross it

---
 src/MagneticField/MagneticField2D.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/MagneticField/MagneticField2D.cpp b/src/MagneticField/MagneticField2D.cpp
index c981d3e..70eb07d 100644
--- a/src/MagneticField/MagneticField2D.cpp
+++ b/src/MagneticField/MagneticField2D.cpp
@@ -59,9 +59,10 @@ bool MagneticField2D::CrossesDomain(
         /* Check if matrix is zero */
         if (x00-x10 == 0 && y00-y10 == 0) continue;
         
-        /* Compute determinant and check if zero */
+        /* Compute determinant and check if zero (parallel
+         * segments never cross) */
         det = x11*y01 - x01*y11;
-        if (det == 0) return true;
+        if (det == 0) continue;
 
         s = (1/det) * ((x00-x10)*y01 - (y00-y10)*x01);
         t =-(1/det) * ((y00-y10)*x11 - (x00-x10)*y11);
-- 
2.43.0


From c804f2d149466fe72e52d93a4efab93971088423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:19 +0000
Subject: [PATCH 71/77] fix: sub-blocks of a copied configuration block
 referred to the original as their parent

---
 src/Configuration/ConfigBlock.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index 563c66f..a6ded96 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -19,8 +19,10 @@ ConfigBlock::ConfigBlock(const ConfigBlock *cb) {
 
     // Copy sub-blocks
     vector<ConfigBlock*> sub = cb->GetAllSubBlocks();
-    for (unsigned int i = 0; i < sub.size(); i++)
+    for (unsigned int i = 0; i < sub.size(); i++) {
         subblocks.push_back(new ConfigBlock(sub.at(i)));
+        subblocks.back()->SetParent(this);
+    }
 
     // Copy settings
     vector<Setting*> set = cb->GetAllSettings();
-- 
2.43.0


From deb7bf2d627fd395bead2dab30706a25fbe3e3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:20 +0000
Subject: [PATCH 72/77] fix: merging configuration blocks shared new settings
 between them and left the parent of new sub-blocks wrong

---
 src/Configuration/ConfigBlock.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index a6ded96..eafcd86 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -321,7 +321,7 @@ vector<string> *ConfigBlock::Merge(ConfigBlock *cb, bool allowNew) {
 		if (this->HasSetting(set[i]->GetName()))
 			this->MergeSetting(set[i]);
 		else if (allowNew) {
-			this->AddSetting(set[i]);
+			this->AddSetting(set[i]->Copy());
 		} else {
 			if (unknown == nullptr) unknown = new vector<string>();
 			unknown->push_back(set[i]->GetName());
@@ -346,7 +346,8 @@ vector<string> *ConfigBlock::Merge(ConfigBlock *cb, bool allowNew) {
 				}
 			}
 		} else if (allowNew) {
-			this->AddSubBlock(new ConfigBlock(sb[i]));
+			tb = this->AddSubBlock(new ConfigBlock(sb[i]));
+			tb->SetParent(this);
 		} else {
 			if (unknown == nullptr) unknown = new vector<string>();
 			unknown->push_back(sb[i]->GetName());
-- 
2.43.0


From 0e393847c17ccd37d3c1e4d09c5986f2ea559b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:22 +0000
Subject: [PATCH 73/77] fix: setting a configuration option again marked it as
 read

---
 src/Configuration/ConfigBlock.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/Configuration/ConfigBlock.cpp b/src/Configuration/ConfigBlock.cpp
index eafcd86..ecaf220 100644
--- a/src/Configuration/ConfigBlock.cpp
+++ b/src/Configuration/ConfigBlock.cpp
@@ -55,17 +55,20 @@ ConfigBlock::~ConfigBlock() {
  */
 Setting *ConfigBlock::AddSetting(Setting *set) {
     if (HasSetting(set->GetName())) {
-        // Replace setting
-        Setting *s = GetSetting(set->GetName());
-        s->OverwriteValues(set);
+        // Replace setting (without marking it as used)
+        for (Setting *s : this->settings) {
+            if (s->HasName(set->GetName())) {
+                s->OverwriteValues(set);
 
-        delete set;
+                delete set;
 
-        return s;
-    } else {
-        this->settings.push_back(set);
-        return set;
+                return s;
+            }
+        }
     }
+
+    this->settings.push_back(set);
+    return set;
 }
 
 /**
-- 
2.43.0


From 8e1f32374c068f6cc8b725c3a25f9e133b9e486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:23 +0000
Subject: [PATCH 74/77] fix: overwriting a data-file setting doubled its values
 and lost its type

---
 src/Configuration/SFile/SettingSFile.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 4cbf8c0..62f82ea 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -3,6 +3,7 @@
  */
 
 #include <limits>
+#include <typeinfo>
 #include <vector>
 #include <softlib/Configuration/ConfigurationSFile.h>
 
@@ -40,7 +41,7 @@ void SettingSFile::DeleteCurrent() {
  *    of this setting.
  */
 void SettingSFile::OverwriteValues(const Setting *s) {
-    if (typeid(s) == typeid(SettingSFile*)) {
+    if (typeid(*s) == typeid(SettingSFile)) {
         const SettingSFile *ss = (SettingSFile*)s;
 
         switch (ss->dtype) {
@@ -57,45 +58,45 @@ void SettingSFile::OverwriteValues(const Setting *s) {
         }
     } else {
         if (s->IsBool()) {
-            vector<bool> *v = new vector<bool>(s->GetNumberOfValues());
+            vector<bool> *v = new vector<bool>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetBool(i));
 
             this->SetValueBool(v);
         } else if (s->IsInteger32()) {
-            vector<int32_t> *v = new vector<int32_t>(s->GetNumberOfValues());
+            vector<int32_t> *v = new vector<int32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger32(i));
 
             this->SetValueInt32(v);
         } else if (s->IsInteger64()) {
-            vector<int64_t> *v = new vector<int64_t>(s->GetNumberOfValues());
+            vector<int64_t> *v = new vector<int64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetInteger64(i));
 
             this->SetValueInt64(v);
         } else if (s->IsUnsignedInteger32()) {
-            vector<uint32_t> *v = new vector<uint32_t>(s->GetNumberOfValues());
+            vector<uint32_t> *v = new vector<uint32_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger32(i));
 
             this->SetValueUInt32(v);
         } else if (s->IsUnsignedInteger64()) {
-            vector<uint64_t> *v = new vector<uint64_t>(s->GetNumberOfValues());
+            vector<uint64_t> *v = new vector<uint64_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetUnsignedInteger64(i));
 
             this->SetValueUInt64(v);
         } else if (s->IsNumericVector()) {
-            vector<slibreal_t> *v = new vector<slibreal_t>(s->GetNumberOfValues());
+            vector<slibreal_t> *v = new vector<slibreal_t>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
                 v->push_back(s->GetScalar(i));
 
             this->SetValueReal(v);
         } else { // String
-            vector<string> *v = new vector<string>(s->GetNumberOfValues());
+            vector<string> *v = new vector<string>();
             for (size_t i = 0; i < s->GetNumberOfValues(); i++)
-                v->push_back(s->GetString());
+                v->push_back(s->GetString(i));
 
             this->SetValueString(v);
         }
-- 
2.43.0


From 221df456a7122f8dc369c375e3495543211a4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:25 +0000
Subject: [PATCH 75/77] fix: copying a data-file setting lost its name and
 failed for reals and strings

---
 src/Configuration/SFile/SettingSFile.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Configuration/SFile/SettingSFile.cpp b/src/Configuration/SFile/SettingSFile.cpp
index 62f82ea..32a5f9c 100644
--- a/src/Configuration/SFile/SettingSFile.cpp
+++ b/src/Configuration/SFile/SettingSFile.cpp
@@ -107,16 +107,23 @@ void SettingSFile::OverwriteValues(const Setting *s) {
  * Make a copy of this setting.
  */
 Setting *SettingSFile::Copy() {
+    SettingSFile *c = nullptr;
+
     switch (this->dtype) {
-        case DataType::BOOL:   return new SettingSFile(new vector<bool>(*(this->data.b)));
-        case DataType::INT32:  return new SettingSFile(new vector<int32_t>(*(this->data.i32)));
-        case DataType::INT64:  return new SettingSFile(new vector<int64_t>(*(this->data.i64)));
-        case DataType::UINT32: return new SettingSFile(new vector<uint32_t>(*(this->data.u32)));
-        case DataType::UINT64: return new SettingSFile(new vector<uint64_t>(*(this->data.u64)));
+        case DataType::BOOL:   c = new SettingSFile(new vector<bool>(*(this->data.b))); break;
+        case DataType::INT32:  c = new SettingSFile(new vector<int32_t>(*(this->data.i32))); break;
+        case DataType::INT64:  c = new SettingSFile(new vector<int64_t>(*(this->data.i64))); break;
+        case DataType::UINT32: c = new SettingSFile(new vector<uint32_t>(*(this->data.u32))); break;
+        case DataType::UINT64: c = new SettingSFile(new vector<uint64_t>(*(this->data.u64))); break;
+        case DataType::REAL:   c = new SettingSFile(new vector<slibreal_t>(*(this->data.r))); break;
+        case DataType::STRING: c = new SettingSFile(new vector<string>(*(this->data.s))); break;
 
         default:
             throw ConfigurationException("The data in setting '%s' is of unrecognized type.", this->name.c_str());
     }
+
+    c->name = this->name;
+    return c;
 }
 
 /************************
-- 
2.43.0


From 0620ad75dbfac1f6f5f9e5d1f463336e7b2a67b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:44 +0000
Subject: [PATCH 76/77] fix: dense output refuses times before the first step,
 and requests made without any dense output

---
 include/softlib/Integrator/RKDP45.tcc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index 6496e0c..b31a101 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -95,9 +95,18 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
 	unsigned int it = 0, i, j, indx;
 	slibreal_t T, s, s1, stepsize;
 
+	if (!this->HasDenseOutput() || this->ntimesteps < 2)
+		throw SOFTLibException("No dense output is available: no time-step has been taken with dense output enabled.");
+
 	for (i = 0; i < nt; i++) {
         T = time[i];
 
+		if (T < this->time[0])
+			throw SOFTLibException(
+                "The requested tmin requires extrapolation. T = %e, tmin = %e",
+                T, this->time[0]
+            );
+
 		/* Find next time */
 		while (it+2 < this->ntimesteps && this->time[it+1] < T)
 			it++;
-- 
2.43.0


From a9f27bbb7a3979d4f1a19f7fcc1f8ccd0e1a68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:46 +0000
Subject: [PATCH 77/77] fix: dense output uses the step containing each time
 when times are not in increasing order

---
 include/softlib/Integrator/RKDP45.tcc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/softlib/Integrator/RKDP45.tcc b/include/softlib/Integrator/RKDP45.tcc
index b31a101..c46ee6c 100644
--- a/include/softlib/Integrator/RKDP45.tcc
+++ b/include/softlib/Integrator/RKDP45.tcc
@@ -107,7 +107,10 @@ void RKDP45<N>::OutputDense(const unsigned int nt, slibreal_t *time, slibreal_t
                 T, this->time[0]
             );
 
-		/* Find next time */
+		/* Find step containing the time (times
+		 * need not be given in increasing order) */
+		while (it > 0 && T < this->time[it])
+			it--;
 		while (it+2 < this->ntimesteps && this->time[it+1] < T)
 			it++;
 
-- 
2.43.0

