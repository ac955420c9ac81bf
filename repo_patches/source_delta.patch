From 4d793f963d0cff6366c0564ec0e7de3103aaf441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 01/44] fix: division by zero when pick_block_size() chooses
 not to split

---
 include/generic/gsb.h | 5 +++--
 include/matrix/csbr.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/generic/gsb.h b/include/generic/gsb.h
index f6bf3b3..f8bdc48 100644
--- a/include/generic/gsb.h
+++ b/include/generic/gsb.h
@@ -15,8 +15,9 @@ template <class T, class IT, class MATRIX,
           template <typename, typename> class COO>
 void Coo_to_Blocked(MATRIX * A, COO<T,IT> * B, IT br_size, IT bc_size)
 {
-    IT blockrows = B->rows / br_size;
-    IT blockcols = B->columns / bc_size;
+    // A block size of zero means "do not split" (see pick_block_size)
+    IT blockrows = br_size ? B->rows / br_size : 1;
+    IT blockcols = bc_size ? B->columns / bc_size : 1;
     if (blockrows == 0) blockrows = 1;
     if (blockcols == 0) blockcols = 1;
     IT * blockrow_offset = new IT[blockrows + 1];
diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index ffb094e..08bcd64 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -307,8 +307,9 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo3<T, IT> * B,
 template <class T, class IT, class COOTYPE>
 void Coo_to_Csbr(Csbr<T, IT> * A, COOTYPE * B, IT br_size, IT bc_size)
 {
-  IT blockrows = B->rows / br_size;
-  IT blockcols = B->columns / bc_size;
+  // A block size of zero means "do not split" (see pick_block_size)
+  IT blockrows = br_size ? B->rows / br_size : 1;
+  IT blockcols = bc_size ? B->columns / bc_size : 1;
 
   if(blockrows == 0) blockrows = 1;
   if(blockcols == 0) blockcols = 1;
-- 
2.43.0


From 033b9689e8b2ec4e9852435cc46caf672f75b612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 02/44] fix: count_blocks() read past an empty array and
 counted one block

---
 include/utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/utils.h b/include/utils.h
index ea1ea56..62275d5 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -334,6 +334,8 @@ void calculate_block_id(Element<T, IT> * elements, IT size,
 template <class T, class IT>
 IT count_blocks(Element<T, IT> * array, IT size)
 {
+  if (size == 0) return 0;
+
   IT current = array[0].block;
   IT count = 1;
 
-- 
2.43.0


From 043b6fa772cadad40e0b9eeb68dac98e75af25e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 03/44] fix: sort_triplets_blocks() scanned past the end of the
 array

---
 include/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index 62275d5..56eddb3 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -245,7 +245,7 @@ void sort_triplets_blocks(Triplet<T, IT> * array, IT size,
   brow_ptr[0] = 0;
   i = 0;
   for (IT br=0; br<blockrows; br++) {
-    while(array[i].row < brow_offset[br+1]) i++;
+    while(i < size && array[i].row < brow_offset[br+1]) i++;
     brow_ptr[br+1] = i;
   }
   brow_ptr[blockrows] = size;
-- 
2.43.0


From 828e350bb5dbca338dab11fa4f2caa64fad76d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 04/44] fix: CompRowCsr counted rows in uninitialised memory
 and failed on empty matrices

---
 include/matrix/crcsr.h | 6 +++---
 include/utils.h        | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index 6ef1753..bbe0edf 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -38,13 +38,13 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 
     A->nnz_rows_num = nnzrows;
     A->nnz_rows = new IT[nnzrows];
-    A->row_ptr = new IT[nnzrows + 1];
+    A->row_ptr = new IT[nnzrows + 1](); // Initialize to zero!
     A->col_ind = new IT[nnz];
     A->val = new T[nnz];
 
     sort_triplets(nonzeros, nnz);
 
-    A->nnz_rows[0] = nonzeros[0].row;
+    if (nnz > 0) A->nnz_rows[0] = nonzeros[0].row;
     cur_row_index = 0;
 
     for (IT i=0; i<nnz; i++)
@@ -60,7 +60,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
         A->row_ptr[cur_row_index+1]++;
     }
 
-    assert(cur_row_index == nnzrows - 1);
+    assert(nnz == 0 || cur_row_index == nnzrows - 1);
 
     for (IT r=0; r<nnzrows; r++)
     {
diff --git a/include/utils.h b/include/utils.h
index 56eddb3..f391659 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -353,12 +353,13 @@ IT count_blocks(Element<T, IT> * array, IT size)
 
 /*
  * Operates on a SORTED array of type NONZERO and returns the number of
- * non-zero rows. nnz has to be at greater or equal to 1. NNZERO type must have
- * a 'row' field
+ * non-zero rows. NONZERO type must have a 'row' field
  */
 template <class NONZERO, class IT>
 IT count_nnz_rows(NONZERO * source, IT nnz)
 {
+  if (nnz == 0) return 0;
+
   IT count=1;
   IT cur_row = source[0].row;
 
-- 
2.43.0


From d0d32f67884ec01b3c3630ebabad6d3f2eecf426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 05/44] fix: dense storage dropped duplicate entries instead of
 adding them up

---
 include/matrix/dense.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 76c052b..017c03f 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -28,7 +28,7 @@ struct DenseSerial : public BlockBase<T,IT>
         for (IT i=0; i<nnz; i++)
         {
             pos = array[i].row * columns + array[i].col;
-            val[pos] = array[i].val;
+            val[pos] += array[i].val;
         }
     }
 
@@ -108,7 +108,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
     for (IT i=0; i<nnz; i++)
     {
         pos = nonzeros[i].row * columns + nonzeros[i].col;
-        A->val[pos] = nonzeros[i].val;
+        A->val[pos] += nonzeros[i].val;
     }
 }
 
-- 
2.43.0


From a011ae7a0137ed07850d8c283b06a25a7fd8125d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 06/44] fix: Morton order of small indices compared only the
 low half of the key

---
 include/utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utils.h b/include/utils.h
index f391659..b19eadd 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -204,7 +204,9 @@ void sort_triplets_morton(Point_t<Value_t,SmallIndex_t> * array, Index_t size)
     auto compare = [](Point_t<Value_t,SmallIndex_t> const& first,
                       Point_t<Value_t,SmallIndex_t> const& second)
     {
-        return bit_interleave(first.row, first.col) < bit_interleave(second.row, second.col);
+        // The interleaved key has twice as many bits as a (small) index
+        return bit_interleave<uint32_t>(first.row, first.col) <
+               bit_interleave<uint32_t>(second.row, second.col);
     };
 
     // Sort
-- 
2.43.0


From 8b2bf84457cb236fb03a49e95445f5b29008fa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:42 +0000
Subject: [PATCH 07/44] fix: MatrixMarket headers could overflow the stack,
 wrap around or hang the reader

Tokens of the banner are limited to the buffers they are read into. A size
line that is not three numbers, or whose numbers do not fit, is an error
instead of an endless loop or a truncated value; blank lines before it are
skipped.
---
 dep/mm_io/mm_io.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/dep/mm_io/mm_io.c b/dep/mm_io/mm_io.c
index cfefd2e..49ccd16 100644
--- a/dep/mm_io/mm_io.c
+++ b/dep/mm_io/mm_io.c
@@ -2,6 +2,7 @@
 # include <string.h>
 # include <stdlib.h>
 # include <ctype.h>
+# include <limits.h>
 # include <time.h>
 
 # include "mm_io.h"
@@ -85,7 +86,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     return MM_PREMATURE_EOF;
   }
 
-  if ( sscanf ( line, "%s %s %s %s %s", banner, mtx, crd, data_type,
+  if ( sscanf ( line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type,
     storage_scheme ) != 5 )
   {
     return MM_PREMATURE_EOF;
@@ -431,7 +432,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
+  long m, n, k;
 /*
   set return null parameter values, in case we exit with errors
 */
@@ -447,25 +448,25 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     {
       return MM_PREMATURE_EOF;
     }
-  } while (line[0] == '%');
+    if (strchr(line,'\n') == NULL && !feof(f))
+    {
+      return MM_LINE_TOO_LONG;
+    }
+  } while (line[0] == '%' || line[strspn(line," \t\r\n")] == '\0');
 /*
-  line[] is either blank or has M,N, nz
+  line[] has M,N, nz
 */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
+  if (sscanf(line, "%ld %ld %ld", &m, &n, &k) != 3)
   {
-    return 0;
+    return MM_PREMATURE_EOF;
   }
-  else
+  if (m < 0 || m > INT_MAX || n < 0 || n > INT_MAX || k < 0 || k > INT_MAX)
   {
-    do
-    {
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz);
-      if (num_items_read == EOF)
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
+    return MM_UNSUPPORTED_TYPE;
   }
+  *M = m;
+  *N = n;
+  *nz = k;
   return 0;
 }
 /******************************************************************************/
-- 
2.43.0


From c21ede04c91adeee35458ae7b3259dc33b2cb497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 08/44] fix: MatrixMarket reader accepted incomplete, malformed
 and unsupported files

Truncated or malformed entries, indices outside the matrix and read errors
ended in a matrix with wrong or missing entries; pattern files took the next
row index for a value; skew-symmetric and hermitian files were read as general
ones. Error paths left the file open.
---
 include/io/input.h | 98 +++++++++++++++++++++++++++++++---------------
 1 file changed, 66 insertions(+), 32 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 57d400d..37ade27 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -2,6 +2,7 @@
 #define _INPUT_H_
 
 #include <cassert>
+#include <cctype>
 #include <cstdio>
 
 #include "mm_io/mm_io.h"
@@ -33,6 +34,28 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
   return 0;
 }
 
+/*
+ * Read the next entry of a MatrixMarket coordinate file. Entries of pattern
+ * files have no value, one is used instead. It returns 0 if a complete entry
+ * inside the matrix was read, a negative number otherwise.
+ */
+static inline int read_mm_entry(FILE * f, bool pattern, int rows, int columns,
+                                unsigned long * r, unsigned long * c, double * val)
+{
+  *val = 1.0;
+  if (fscanf(f, "%lu %lu", r, c) != 2) return -1;
+  if (!pattern && fscanf(f, " %lg", val) != 1) return -1;
+
+  // The last number has to end where the token ends
+  int next = fgetc(f);
+  if (next != EOF && !isspace(next)) return -1;
+  if (ferror(f)) return -1;
+
+  if (*r < 1 || *r > (unsigned long) rows) return -1;
+  if (*c < 1 || *c > (unsigned long) columns) return -1;
+  return 0;
+}
+
 /*
  * Function to read a COO matrix from a Matrix Market file. Makes use of the
  * library mm_io.c provided here :
@@ -47,8 +70,9 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Open file for reading
   MM_typecode matcode;
   FILE * f = fopen(filename, "r");
-  int symflag = 0, ret;
-  unsigned long r, c, counter, position;
+  int symflag = 0;
+  unsigned long r, c, counter;
+  long position;
   double val;
 
   if(f == NULL){
@@ -59,12 +83,17 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read header and perform type checks
   if (mm_read_banner(f, &matcode) != 0){
       fprintf(stderr, "Could not process Matrix Market banner.\n");
+      fclose(f);
       return -2;
   }
 
-  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ){
+  if (mm_is_complex(matcode) || !mm_is_coordinate(matcode) ||
+      mm_is_skew(matcode) || mm_is_hermitian(matcode) ){
+      char * type = mm_typecode_to_str(matcode);
       fprintf(stderr, "Sorry, this program does not support ");
-      fprintf(stderr, "Market Market type: [%s]\n", mm_typecode_to_str(matcode));
+      fprintf(stderr, "Market Market type: [%s]\n", type);
+      free(type);
+      fclose(f);
       return -3;
   }
 
@@ -73,52 +102,57 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   // Read size and allocate memory. Following function only works with ints
   int nr, nc, nnz;
   int ret_code = mm_read_mtx_crd_size(f, &nr, &nc, &nnz);
-  if (ret_code != 0) {
+  if (ret_code != 0 || (symflag && nr != nc)) {
     fprintf(stderr, "Error while reading size information.\n");
+    fclose(f);
     return -4;
   }
   A->rows = (IT) nr;
   A->columns = (IT) nc;
   A->nnz = (IT) nnz;
 
+  bool pattern = mm_is_pattern(matcode);
+
   if(symflag){
-    fflush(f);
     position = ftell(f);
     counter = 0;
-    for (IT i=0; i<2*nnz; i++){
-        ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-        if(ret == EOF){
-          break;
+    for (IT i=0; i<(IT) nnz; i++){
+        if(read_mm_entry(f, pattern, nr, nc, &r, &c, &val) != 0){
+          fprintf(stderr, "Error while reading entries.\n");
+          fclose(f);
+          return -5;
+        }
+        if(r==c){
+          counter += 1;
         }else{
-          if(r==c){
-            counter += 1;
-          }else{
-            counter += 2;
-          }
+          counter += 2;
         }
     }
-    nnz = counter;
-    A->nnz = (IT) nnz;
-    fseek(f,position,SEEK_SET);
+    A->nnz = (IT) counter;
+    if(position < 0 || A->nnz != counter || fseek(f,position,SEEK_SET) != 0){
+      fprintf(stderr, "Error while reading entries.\n");
+      fclose(f);
+      return -5;
+    }
   }
 
   // Allocate memory
-  allocate(A, (IT) nnz);
+  allocate(A, A->nnz);
 
   // Read everything as unsigned long and double. Convert to appropriate type later.
-  for (IT i=0; i<nnz; i++){
-      ret = fscanf(f, "%lu %lu %lg\n", &r, &c, &val);
-      if(ret == EOF){
-        A->nnz = i;
-        break;
-      }else{
-        set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
-
-        // If matrix is symmetric, add symmetric point
-        if(symflag && r!=c){
-          i++;
-          set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) val);
-        }
+  for (IT i=0; i<A->nnz; i++){
+      if(read_mm_entry(f, pattern, nr, nc, &r, &c, &val) != 0 ||
+         (symflag && r!=c && A->nnz - i < 2)){
+        fprintf(stderr, "Error while reading entries.\n");
+        fclose(f);
+        return -5;
+      }
+      set_point(A, (IT) i, (IT) (r-1), (IT) (c-1), (T) val);
+
+      // If matrix is symmetric, add symmetric point
+      if(symflag && r!=c){
+        i++;
+        set_point(A, (IT) i, (IT) (c-1), (IT) (r-1), (T) val);
       }
   }
 
-- 
2.43.0


From 3275095d7b42db77f3faf76c78e15cab4a2721d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 09/44] fix: binary coordinate reader accepted indices outside
 the matrix

It also left the file open when the file was incomplete and counted what it
read in the index type, where three times the number of non-zeros can wrap.
---
 include/io/input.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 37ade27..25399a4 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -308,7 +308,9 @@ template <typename T, typename IT,
           template <typename, typename> class COO>
 int read_bin_COO(COO<T,IT> * A, const char * filename)
 {
-    IT counter, buffer;
+    size_t counter;
+    bool inside = true;
+    IT buffer;
     T vbuffer;
     FILE * f;
 
@@ -325,6 +327,7 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     counter += fread(&(A->nnz), sizeof(IT), 1, f);
     if (counter != 3) {
         fprintf(stderr, "Failed to read matrix header.\n");
+        fclose(f);
         return -2;
     }
 
@@ -336,12 +339,14 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
     for (IT i=0; i<A->nnz; i++)
     {
         counter += fread(&buffer, sizeof(IT), 1, f);
+        inside = inside && buffer < A->rows;
         A->set_row_index(i, buffer);
     }
 
     for (IT i=0; i<A->nnz; i++)
     {
         counter += fread(&buffer, sizeof(IT), 1, f);
+        inside = inside && buffer < A->columns;
         A->set_column_index(i, buffer);
     }
 
@@ -351,9 +356,10 @@ int read_bin_COO(COO<T,IT> * A, const char * filename)
         A->set_value(i, vbuffer);
     }
 
-    if (counter != 3 * A->nnz)
+    if (counter != 3 * (size_t) A->nnz || !inside)
     {
         fprintf(stderr, "Failed to read matrix.\n");
+        fclose(f);
         return -4;
     }
 
-- 
2.43.0


From 3251967992832a694872121915af67deb0abc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 10/44] fix: three-array readers ignored short, missing and
 disagreeing files

Nothing that was read was checked, a missing value file was not noticed, the
column file was closed twice and the value file never, and the generic reader
took the shape of the matrix from uninitialised variables.
---
 include/io/input.h | 78 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 25399a4..5ef8389 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -160,6 +160,14 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
   return 0;
 }
 
+/*
+ * True if a file has been read to its end without an error.
+ */
+static inline bool fully_read(FILE * f)
+{
+  return fgetc(f) == EOF && !ferror(f);
+}
+
 /*
  * Read a Coo matrix from three binary files (one for values, one for row
  * indexes and one for column indexes). Files need to store their content as
@@ -169,13 +177,12 @@ int read_mm_COO(COO<T,IT> * A, const char * filename)
 template <class T, class IT>
 int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
-  T val;
-  IT size, r, c;
+  IT size;
   IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
   // Read row file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -187,7 +194,11 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->I, sizeof(IT), size, fr);
+  if (fread(A->I, sizeof(IT), size, fr) != size || !fully_read(fr)) {
+    fprintf(stderr, "Failed to read row file.\n");
+    fclose(fr);
+    return -2;
+  }
   for (IT i=0; i<size; i++){
     if(A->I[i] > max_row) max_row = A->I[i];
   }
@@ -201,7 +212,11 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
     return -1;
   }
 
-  fread(A->J, sizeof(IT), size, fc);
+  if (fread(A->J, sizeof(IT), size, fc) != size || !fully_read(fc)) {
+    fprintf(stderr, "Failed to read column file.\n");
+    fclose(fc);
+    return -2;
+  }
   for (IT i=0; i<size; i++){
     if(A->J[i] > max_col) max_col = A->J[i];
   }
@@ -210,15 +225,23 @@ int read_bin_COO(Coo<T,IT,IT> * A, const char * file_row, const char * file_col,
 
   // Read value file
   fv = fopen(file_val, "rb");
-  if (fc == NULL) {
+  if (fv == NULL) {
     fprintf(stderr, "Cannot open values file.\n");
     return -1;
   }
 
-  fread(A->val, sizeof(T), size, fv);
-  fclose(fc);
+  if (fread(A->val, sizeof(T), size, fv) != size || !fully_read(fv)) {
+    fprintf(stderr, "Failed to read values file.\n");
+    fclose(fv);
+    return -2;
+  }
+  fclose(fv);
 
   // Set number or rows and columns
+  if ((IT) (max_row + 1) == 0 || (IT) (max_col + 1) == 0) {
+    fprintf(stderr, "Index too large.\n");
+    return -3;
+  }
   A->rows = max_row + 1;
   A->columns = max_col + 1;
   A->nnz = size;
@@ -237,12 +260,13 @@ template <typename T, typename IT,
 int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, const char * file_val)
 {
   T vbuffer;
-  IT size, counter, buffer;
-  IT max_row, max_col;
+  IT size, buffer;
+  size_t counter;
+  IT max_row = 0, max_col = 0;
   FILE *fr, *fc, *fv;
 
   // Read values file to the end to get size
-  size = (IT) get_file_size(file_val) / sizeof(T);
+  size = (IT) (get_file_size(file_val) / sizeof(T));
 
   // Allocate memory
   allocate(A, size);
@@ -254,10 +278,19 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     return -1;
   }
 
+  counter = 0;
   for (IT i=0; i<size; i++)
   {
     counter += fread(&buffer, sizeof(IT), 1, fr);
     A->set_row_index(i, buffer);
+    if (buffer > max_row) max_row = buffer;
+  }
+
+  if (counter != size || !fully_read(fr))
+  {
+    fprintf(stderr, "Failed to read row file.\n");
+    fclose(fr);
+    return -2;
   }
 
   fclose(fr);
@@ -270,10 +303,19 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     return -1;
   }
 
+  counter = 0;
   for (IT i=0; i<size; i++)
   {
     counter += fread(&buffer, sizeof(IT), 1, fc);
     A->set_column_index(i, buffer);
+    if (buffer > max_col) max_col = buffer;
+  }
+
+  if (counter != size || !fully_read(fc))
+  {
+    fprintf(stderr, "Failed to read column file.\n");
+    fclose(fc);
+    return -2;
   }
 
   fclose(fc);
@@ -286,15 +328,27 @@ int read_bin_COO(COO<T, IT> * A, const char * file_row, const char * file_col, c
     return -1;
   }
 
+  counter = 0;
   for (IT i=0; i<size; i++)
   {
     counter += fread(&vbuffer, sizeof(T), 1, fv);
     A->set_value(i, vbuffer);
   }
 
-  fclose(fc);
+  if (counter != size || !fully_read(fv))
+  {
+    fprintf(stderr, "Failed to read values file.\n");
+    fclose(fv);
+    return -2;
+  }
+
+  fclose(fv);
 
   // Set number or rows and columns
+  if ((IT) (max_row + 1) == 0 || (IT) (max_col + 1) == 0) {
+    fprintf(stderr, "Index too large.\n");
+    return -3;
+  }
   A->rows = max_row + 1;
   A->columns = max_col + 1;
   A->nnz = size;
-- 
2.43.0


From adbf1e12996ec649c684fa3c58e6744eabe613ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 11/44] fix: binary CSR reader used whatever an incomplete or
 damaged file left behind

The number of items read was never checked and row indices outside the matrix
were used to index the row pointers.
---
 include/io/input.h | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 5ef8389..0ba3a90 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -448,6 +448,8 @@ template <class T, class IT>
 int read_bin_CSR(Csr<T, IT> * A, const char * filename)
 {
   IT current_row, nnz;
+  size_t counter;
+  bool inside = true;
 
   // Open file for reading
   FILE * f = fopen(filename, "rb");
@@ -457,27 +459,43 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   }
 
   // Read header
-  fread(&(A->rows), sizeof(IT), 1, f);
-  fread(&(A->columns), sizeof(IT), 1, f);
-  fread(&nnz, sizeof(IT), 1, f);
+  counter = fread(&(A->rows), sizeof(IT), 1, f);
+  counter += fread(&(A->columns), sizeof(IT), 1, f);
+  counter += fread(&nnz, sizeof(IT), 1, f);
+  if(counter != 3){
+    fprintf(stderr, "Failed to read matrix header.\n");
+    fclose(f);
+    return -2;
+  }
 
   DEBUG(puts("Reading header done"));
 
   // Allocate one memory block for all arrays
   A->val = new T[nnz];
   A->col_ind = new IT[nnz];
-  A->row_ptr = new IT[A->rows + 1]();
+  A->row_ptr = new IT[(size_t) A->rows + 1]();
 
   DEBUG(puts("Memory allocation done"));
 
   // Read data section
   for(IT i=0; i<nnz; i++){
-    fread(&current_row, sizeof(IT), 1, f);
+    if(fread(&current_row, sizeof(IT), 1, f) != 1 || current_row >= A->rows){
+      fprintf(stderr, "Failed to read matrix.\n");
+      fclose(f);
+      return -4;
+    }
     A->row_ptr[current_row+1]++;  // Count non-zeros per row
   }
-  fread(A->col_ind, sizeof(IT), nnz, f);
-  fread(A->val, sizeof(T), nnz, f);
+  counter = fread(A->col_ind, sizeof(IT), nnz, f);
+  for(IT i=0; i<counter; i++){
+    inside = inside && A->col_ind[i] < A->columns;
+  }
+  counter += fread(A->val, sizeof(T), nnz, f);
   fclose(f);
+  if(counter != 2 * (size_t) nnz || !inside){
+    fprintf(stderr, "Failed to read matrix.\n");
+    return -4;
+  }
 
   DEBUG(puts("Reading data done"));
 
-- 
2.43.0


From db05517e3100404d93f8645c18847f5fdbdb6311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 12/44] fix: read_bin_array() left incomplete files open and
 dropped partial elements

---
 include/io/input.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 0ba3a90..22708f1 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -17,7 +17,11 @@
 template <class T>
 int read_bin_array(const char * filename, T ** data, size_t * num )
 {
-  size_t size = get_file_size(filename) / sizeof(T);
+  size_t bytes = get_file_size(filename);
+  size_t size = bytes / sizeof(T);
+
+  // A file that ends inside an element is incomplete
+  if (bytes % sizeof(T) != 0) return -3;
 
   // Allocate memory
   *num = size;
@@ -28,9 +32,9 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
   FILE * f = fopen(filename, "rb");
   if (f==NULL) return -2;
   size_t ret = fread( *data, sizeof(T), size, f);
+  fclose(f);
   if (ret < size) return -3;
 
-  fclose(f);
   return 0;
 }
 
-- 
2.43.0


From 1cd5ce57fbb4b39c032d74149f30e72af6f6e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 13/44] fix: CSBR readers trusted block ids, columns and block
 counts of the file

Damaged files made them write outside the matrix, error paths left the file
open, and a CSBR matrix that was read had no partition.
---
 include/io/blocked.h | 48 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 98f371f..7ca4e52 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -57,6 +57,21 @@ FILE * read_bin_blocked_common(BLOCKEDTYPE * A, const char * filename, IT * bloc
   return f;
 }
 
+/*
+ * Check that a record read from a blocked file is inside its block and that
+ * the block is part of the matrix.
+ */
+template <class BLOCKEDTYPE, class IT>
+bool blocked_record_valid(BLOCKEDTYPE const * A, IT block, IT row, IT col)
+{
+  IT br = block / A->blockcols;
+  IT bc = block % A->blockcols;
+
+  return br < A->blockrows &&
+    row >= A->blockrow_offset[br] && row < A->blockrow_offset[br + 1] &&
+    col >= A->blockcol_offset[bc] && col < A->blockcol_offset[bc + 1];
+}
+
 /*
  * Read a blocked sparse matrix in CSBR format from a binary (.block) file.
  */
@@ -84,6 +99,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   if(A->blocks==NULL || A->blockcol_ind==NULL || A->blockrow_ptr==NULL || A->col_ind==NULL || A->val==NULL){
     fprintf(stderr, "Memory allocation failed.");
+    fclose(f);
     return -3;
   }
 
@@ -98,8 +114,9 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     fr += fread(&cur_row, sizeof(IT), 1, f);
     fr += fread(&cur_col, sizeof(IT), 1, f);
     fr += fread(&cur_val, sizeof(T), 1, f);
-    if(fr != 4){
+    if(fr != 4 || !blocked_record_valid(A, b, cur_row, cur_col)){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
 
@@ -110,6 +127,11 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       assert(b > prev_b || prev_b == UINT_MAX);
 
       block_index++;
+      if(block_index >= A->nnzblocks){
+        fprintf(stderr, "More blocks than the header announced.\n");
+        fclose(f);
+        return -4;
+      }
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
@@ -128,6 +150,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
       A->blocks[block_index].row_ptr = (IT *) calloc(br_size + 1, sizeof(IT));
       if(A->blocks[block_index].row_ptr == NULL){
         fprintf(stderr, "Could not allocate memory for block.\n");
+        fclose(f);
         return -5;
       }
     }
@@ -143,6 +166,11 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   fclose(f);
 
+  if((IT) (block_index + 1) != A->nnzblocks){
+    fprintf(stderr, "Fewer blocks than the header announced.\n");
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   // Get row pointers from row non-zero counters
@@ -157,6 +185,9 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   }
 
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
+
+  partition_init(A);
+
   return 0;
 }
 
@@ -186,6 +217,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   if(A->blockrow_ptr==NULL || A->col_ind==NULL || A->val==NULL || A->row_ptr==NULL){
     fprintf(stderr, "Memory allocation failed.");
+    fclose(f);
     return -3;
   }
 
@@ -200,8 +232,9 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     fr += fread(&cur_row, sizeof(IT), 1, f);
     fr += fread(&cur_col, sizeof(IT), 1, f);
     fr += fread(&cur_val, sizeof(T), 1, f);
-    if(fr != 4){
+    if(fr != 4 || !blocked_record_valid(A, b, cur_row, cur_col)){
       fprintf(stderr, "Error while reading data section.\n");
+      fclose(f);
       return -4;
     }
 
@@ -212,6 +245,11 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
       assert(b > prev_b || prev_b == UINT_MAX);
 
       block_index++;
+      if(block_index >= A->nnzblocks){
+        fprintf(stderr, "More blocks than the header announced.\n");
+        fclose(f);
+        return -4;
+      }
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
@@ -226,6 +264,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
       A->row_ptr[block_index] = (IT *) calloc(br_size + 1, sizeof(IT));
       if(A->row_ptr[block_index] == NULL){
         fprintf(stderr, "Could not allocate memory for block.\n");
+        fclose(f);
         return -5;
       }
     }
@@ -241,6 +280,11 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   fclose(f);
 
+  if((IT) (block_index + 1) != A->nnzblocks){
+    fprintf(stderr, "Fewer blocks than the header announced.\n");
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   // Accumulate block-row counters to get block-row pointers
-- 
2.43.0


From 32fac67a1123a1220e0ceb777c882cad53bca1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 14/44] fix: CGBR reader lost the first non-zero and never
 checked what it read

The first record of the file was not part of any block, records that could not
be read or do not belong to the matrix were used, and it was left to chance
whether the matrix was multiplied as a balanced one.
---
 include/io/blocked.h | 62 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 14 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 7ca4e52..73e8b5b 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -418,7 +418,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   IT b, prev_b;
   IT cur_row, cur_col;
   T cur_val;
-  size_t fr;
+  size_t fr, n;
 
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Cgbr<T, IT, SIT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
@@ -436,23 +436,45 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   DEBUG(puts("Memory allocation done"));
 
   block_index = 0;
-  block_start = 0;
-
-  fread(&prev_b, sizeof(IT), 1, f);
-  fread(&cur_row, sizeof(IT), 1, f);
-  fread(&cur_col, sizeof(IT), 1, f);
-  fread(&cur_val, sizeof(T), 1, f);
+  block_start = -1;  // Last record before the current block
 
-  // Read data section
-  for(IT i=0; i<A->nnz; i++){
-    fr =  fread(&b, sizeof(IT), 1, f);
+  fr = 4;
+  if(A->nnz > 0){
+    fr =  fread(&prev_b, sizeof(IT), 1, f);
     fr += fread(&cur_row, sizeof(IT), 1, f);
     fr += fread(&cur_col, sizeof(IT), 1, f);
     fr += fread(&cur_val, sizeof(T), 1, f);
+  }
+  if(fr != 4){
+    fprintf(stderr, "Error while reading data section.\n");
+    fclose(f);
+    return -4;
+  }
+
+  // Read data section
+  for(IT i=0; i<A->nnz; i++){
+    // Look at the next record, unless this is the last one
+    fr = 0;
+    if(i + 1 < A->nnz){
+      fr =  fread(&b, sizeof(IT), 1, f);
+      fr += fread(&cur_row, sizeof(IT), 1, f);
+      fr += fread(&cur_col, sizeof(IT), 1, f);
+      fr += fread(&cur_val, sizeof(T), 1, f);
+      if(fr != 4 || b < prev_b){
+        fprintf(stderr, "Error while reading data section.\n");
+        fclose(f);
+        return -4;
+      }
+    }
 
     // Check if this is the begining of a new block
     if( b != prev_b || fr == 0){
       br = prev_b / blockcols;
+      if(br >= blockrows || block_index >= A->nnzblocks){
+        fprintf(stderr, "Invalid block.\n");
+        fclose(f);
+        return -4;
+      }
       bc = prev_b % blockcols;
       br_offset = blockrow_offset[br];
       bc_offset = blockcol_offset[bc];
@@ -472,10 +494,16 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
         fseek(f, - ((long) (block_nnz * (3*sizeof(IT) + sizeof(T)))), SEEK_CUR);
 
       for(IT j=0; j<block_nnz; j++){
-        fread(&(temp_array[j].block), sizeof(IT), 1, f);
-        fread(&(temp_array[j].row), sizeof(IT), 1, f);
-        fread(&(temp_array[j].col), sizeof(IT), 1, f);
-        fread(&(temp_array[j].val), sizeof(T), 1, f);
+        n  = fread(&(temp_array[j].block), sizeof(IT), 1, f);
+        n += fread(&(temp_array[j].row), sizeof(IT), 1, f);
+        n += fread(&(temp_array[j].col), sizeof(IT), 1, f);
+        n += fread(&(temp_array[j].val), sizeof(T), 1, f);
+        if(n != 4 || !blocked_record_valid(A, temp_array[j].block, temp_array[j].row, temp_array[j].col)){
+          fprintf(stderr, "Error while reading data section.\n");
+          delete [] temp_array;
+          fclose(f);
+          return -4;
+        }
 
         assert(temp_array[j].block == prev_b);
         assert(temp_array[j].row   >= br_offset);
@@ -503,6 +531,11 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
 
   fclose(f);
 
+  if(block_index != A->nnzblocks){
+    fprintf(stderr, "Fewer blocks than the header announced.\n");
+    return -4;
+  }
+
   DEBUG(puts("Reading data section done"));
 
   for (br=0; br<A->blockrows; br++)
@@ -511,6 +544,7 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   }
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
 
+  A->balanced = A->is_balanced();
   partition_init(A);
 
   return 0;
-- 
2.43.0


From 05a40ea9e8fc85a50f563b6e1a49cd561635fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 15/44] fix: writers reported success when data did not reach
 the disk

Errors of fwrite(), fprintf() and fclose() were ignored, and files stayed open
when another one could not be opened or written.
---
 include/io/output.h | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/io/output.h b/include/io/output.h
index b728494..ce0effb 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -6,6 +6,20 @@
 #include "common.h"
 #include "matrix/coo.3.h"
 
+/*
+ * Close a file that was written. It returns 0 if everything reached storage, a
+ * negative number otherwise.
+ */
+static inline int close_written(FILE * f)
+{
+  int failed = ferror(f);
+  if (fclose(f) != 0 || failed) {
+    fprintf(stderr, "Could not write to file.\n");
+    return -2;
+  }
+  return 0;
+}
+
 /*
  * Write binary data to a file.
  */
@@ -19,9 +33,7 @@ int write_bin_array(const char * filename, T * data, size_t num )
   f = fopen(filename, "wb");
   if (f==NULL) return -1;
   ret = fwrite(data, sizeof(T), num, f);
-  if (ret < num) return -2;
-
-  fclose(f);
+  if (close_written(f) < 0 || ret < num) return -2;
   return 0;
 }
 
@@ -70,8 +82,7 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
   }
 
   // Close file
-  fclose(f);
-  return 0;
+  return close_written(f);
 }
 
 /*
@@ -85,7 +96,7 @@ template <typename T, typename IT,
 int write_bin_COO(COO<T,IT> * A,
         const char * file_row, const char * file_col, const char * file_val)
 {
-  int ret;
+  int ret = 0;
   T val;
   IT i, r, c;
   IT nrows = A->rows;
@@ -99,6 +110,9 @@ int write_bin_COO(COO<T,IT> * A,
 
   if (fv == NULL || fr == NULL || fc == NULL) {
     fprintf(stderr, "Cannot open one of the files.\n");
+    if (fv != NULL) fclose(fv);
+    if (fr != NULL) fclose(fr);
+    if (fc != NULL) fclose(fc);
     return -1;
   }
 
@@ -108,7 +122,7 @@ int write_bin_COO(COO<T,IT> * A,
     r = A->get_row_index(i);
     fwrite(&r, sizeof(IT), 1, fr);
   }
-  fclose(fr);
+  if (close_written(fr) < 0) ret = -2;
 
   // Write column file
   for (i=0; i<size; i++)
@@ -116,7 +130,7 @@ int write_bin_COO(COO<T,IT> * A,
     c = A->get_column_index(i);
     fwrite(&c, sizeof(IT), 1, fc);
   }
-  fclose(fc);
+  if (close_written(fc) < 0) ret = -2;
 
   // Write value file
   for (i=0; i<size; i++)
@@ -124,9 +138,9 @@ int write_bin_COO(COO<T,IT> * A,
     val = A->get_value(i);
     fwrite(&val, sizeof(T), 1, fv);
   }
-  fclose(fv);
+  if (close_written(fv) < 0) ret = -2;
 
-  return 0;
+  return ret;
 }
 
 /*
@@ -169,8 +183,7 @@ int write_bin_COO(COO<T,IT> A, const char * filename)
         fwrite(&vbuffer, sizeof(T), 1, f);
     }
 
-    fclose(f);
-    return 0;
+    return close_written(f);
 }
 
 /*
@@ -204,8 +217,7 @@ int write_bin_blocked(Coo3<T, IT> A, const char * filename)
     fwrite(&(A.elements[i].val) , sizeof(T), 1, f);
   }
 
-  fclose(f);
-  return 0;
+  return close_written(f);
 }
 
 #endif
-- 
2.43.0


From a8e3bc146ecfc152826dc8e087b2ca1b18a03142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 16/44] fix: MatrixMarket output lost digits of the values

Six decimals turn small values into zero. Seventeen significant digits are
enough to read the same value back.
---
 include/io/output.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/io/output.h b/include/io/output.h
index ce0effb..a387074 100644
--- a/include/io/output.h
+++ b/include/io/output.h
@@ -78,7 +78,7 @@ int write_mm_COO(COO<T,IT> * A, const char * filename)
     val = A->get_value(i);
 
     // MM uses 1-based indexing
-    fprintf(f, "%lu %lu %f\n", r+1, c+1, (double) val);
+    fprintf(f, "%lu %lu %.17g\n", r+1, c+1, (double) val);
   }
 
   // Close file
-- 
2.43.0


From 7268726b56d768f18fe20957889f36a9dddb9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 17/44] fix: durations were taken from a clock that can be set

std::chrono::high_resolution_clock is the wall clock with libstdc++, so a step
of the clock showed up in measured times, even as negative ones.
---
 src/common.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common.cpp b/src/common.cpp
index ebee359..cc581d3 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -9,16 +9,16 @@
 /*
  * Timer code
  */
-static std::chrono::time_point<std::chrono::high_resolution_clock> mark;
+static std::chrono::time_point<std::chrono::steady_clock> mark;
 
 void tick()
 {
-    mark = std::chrono::high_resolution_clock::now();
+    mark = std::chrono::steady_clock::now();
 }
 
 double tock()
 {
-    auto end = std::chrono::high_resolution_clock::now();
+    auto end = std::chrono::steady_clock::now();
     std::chrono::duration<double> diff = end - mark;
     return diff.count();
 }
-- 
2.43.0


From 68ee73cd08b84871207756c930e0eebcb301dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 18/44] fix: tools reported success after failed reads and
 writes

---
 src/tools/convert.cpp         |  6 ++++--
 src/tools/convert_blocked.cpp |  1 +
 src/tools/double2float.c      |  7 ++++++-
 src/tools/expanded.cpp        |  7 ++++++-
 src/tools/one2zero.c          | 15 ++++++++++++---
 src/tools/permute.cpp         |  2 ++
 src/tools/prepare.cpp         |  8 ++++++--
 src/tools/sort.cpp            |  1 +
 8 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index 31e89f7..d1fe713 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -22,7 +22,7 @@ int main(int argc, char * argv[])
 {
   Coo2<VALUETYPE, INDEXTYPE> A;
   char buf[FNBUFL];
-  int ret;
+  int ret, status = 0;
   double t;
   bool bin = false, mtx = false;
 
@@ -71,6 +71,7 @@ int main(int argc, char * argv[])
     t = tock();
     if(ret<0){
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      status = 1;
     }else{
       printf(" done in %.3f sec\n", t);
     }
@@ -86,11 +87,12 @@ int main(int argc, char * argv[])
     t = tock();
     if (ret<0) {
       fprintf(stderr, "Error while writing matrix to disk.\n");
+      status = 1;
     } else {
       printf(" done in %.3f sec\n", t);
     }
   }
 
   release(A);
-  return 0;
+  return status;
 }
diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 7eb6c51..678726b 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -94,6 +94,7 @@ int main(int argc, char * argv[]){
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    exit(1);
   }else{
     printf(" done in %.3f sec\n", t);
   }
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 33ef055..76e92c3 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -44,8 +44,13 @@ int main(int argc, char * argv[])
       fwrite(&v_new, sizeof(NEWTYPE), 1, f_out);
     }
 
+    int failed = ferror(f_in) || ftell(f_in) != (long) (size * sizeof(OLDTYPE));
+    failed = failed || ferror(f_out);
     fclose(f_in);
-    fclose(f_out);
+    if(fclose(f_out) != 0 || failed){
+      fprintf(stderr, "Conversion failed. Aborting.\n");
+      exit(1);
+    }
 
     printf("Conversion complete : %lu values\n", size);
   }
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 688c3f2..a64d7af 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -47,7 +47,11 @@ int main(int argc, char * argv[]){
           (unsigned long) A.blockrows);
 
   printf("Reading matrix from disk..."); fflush(stdout);
-  read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  ret = read_bin_COO(&A, argv[1], argv[2], argv[3]);
+  if(ret<0){
+    fprintf(stderr, "Error while reading matrix. Error : %d\n", ret);
+    return 1;
+  }
   printf(" done\n");
 
   printf("Calculating block ids... "); fflush(stdout);
@@ -81,6 +85,7 @@ int main(int argc, char * argv[]){
   ret = write_bin_COO(A, buf);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index 9b8520d..eeffb2b 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -39,8 +39,13 @@ int main (int argc, char * argv[])
     indeces = (INDEXTYPE *) malloc(n * sizeof(INDEXTYPE));
 
     fseek(f_in, 0, SEEK_SET);
-    fread(indeces, sizeof(INDEXTYPE), n, f_in);
+    INDEXTYPE count = fread(indeces, sizeof(INDEXTYPE), n, f_in);
     fclose(f_in);
+    if (count != n || size % sizeof(INDEXTYPE) != 0) {
+        fprintf(stderr, "Could not read file\n");
+        free(indeces);
+        return 1;
+    }
 
     // Convert and check
     for (INDEXTYPE j=0; j<n; j++) {
@@ -60,8 +65,12 @@ int main (int argc, char * argv[])
       return 1;
     }
 
-    fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
-    fclose(f_out);
+    count = fwrite(indeces, sizeof(INDEXTYPE), n, f_out);
+    if (fclose(f_out) != 0 || count != n) {
+      fprintf(stderr, "Cannot write output file. Aborting.\n");
+      free(indeces);
+      return 1;
+    }
 
     printf("Conversion complete : %lu values\n", (unsigned long ) n);
     free(indeces);
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index 8536b35..e5f5030 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -61,6 +61,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if (ret<0) {
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
@@ -86,6 +87,7 @@ int main(int argc, char * argv[])
   ret = write_bin_array(buf, I, size);
   if(ret<0){
     fprintf(stderr, "Error while writing result to disk.\n");
+    return 1;
   }else{
     printf("Writing complete.\n");
   }
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 3a4f9df..2df0019 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -19,7 +19,7 @@
 
 int main(int argc, char * argv[])
 {
-  int i, ret;
+  int i, ret, status = 0;
   char buf[FNBUFL], ext[FNBUFL];
   double t;
   size_t perm_size, index_size, blocks;
@@ -144,6 +144,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -171,6 +172,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -192,6 +194,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -216,6 +219,7 @@ int main(int argc, char * argv[])
   t = tock();
   if(ret<0){
     fprintf(stderr, "Error while writing matrix to disk.\n");
+    status = 1;
   }else{
     printf(" done in %.3f sec\n", t);
   }
@@ -228,5 +232,5 @@ int main(int argc, char * argv[])
   // Clean up temporary storage
   system("rm -rf /tmp/csbr_prepare");
 
-  return 0;
+  return status;
 }
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index e9e545e..bf90c0d 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -95,6 +95,7 @@ int main(int argc, char * argv[]){
   // Check write
   if(ret1<0){
     fprintf(stderr, "Error while writing resulting matrix to disk.\n");
+    exit(1);
   }
 
   release(A);
-- 
2.43.0


From 3e0ec74a7c135a638a1cce5eb7ebad6d0455a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 19/44] fix: blocked tools lost the shape given by the block
 sizes

read_bin_COO() replaced it with the smallest shape that contains the entries,
so a matrix that ends in empty rows or columns made a blocked file that no
reader accepts. Entries outside all blocks are reported.
---
 src/tools/convert_blocked.cpp | 8 ++++++++
 src/tools/expanded.cpp        | 4 ++++
 src/tools/prepare.cpp         | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/src/tools/convert_blocked.cpp b/src/tools/convert_blocked.cpp
index 678726b..d299a28 100644
--- a/src/tools/convert_blocked.cpp
+++ b/src/tools/convert_blocked.cpp
@@ -66,6 +66,14 @@ int main(int argc, char * argv[]){
   }
   printf(" done in %.3f sec\n", t);
 
+  // The shape is given by the blocks, the entries may not reach that far
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Matrix does not fit in the blocks.\n");
+    exit(1);
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
+
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
   printf("Calculating block ids..."); fflush(stdout);
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index a64d7af..0500611 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -53,6 +53,10 @@ int main(int argc, char * argv[]){
     return 1;
   }
   printf(" done\n");
+  if(A.rows > block_offset[blocks] || A.columns > block_offset[blocks]){
+    fprintf(stderr, "Matrix does not fit in the blocks.\n");
+    return 1;
+  }
 
   printf("Calculating block ids... "); fflush(stdout);
   tick();
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 2df0019..1715ae0 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -117,6 +117,13 @@ int main(int argc, char * argv[])
     fprintf(stderr, "Error while reading matrix.\n");
     exit(1);
   }
+  // The shape is given by the blocks, the entries may not reach that far
+  if(A.rows > block_offsets[A.blockrows] || A.columns > block_offsets[A.blockcols]){
+    fprintf(stderr, "Matrix does not fit in the blocks.\n");
+    return 1;
+  }
+  A.rows = block_offsets[A.blockrows];
+  A.columns = block_offsets[A.blockcols];
   printf("Matrix loaded to memory.\n");
   printf("Matrix info : %lux%lu matrix with %lu non-zeros\n", (unsigned long) A.rows, (unsigned long) A.columns, (unsigned long) A.nnz);
 
-- 
2.43.0


From eedf7e41a60810ec57910ab8330f7a39b8dca3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 20/44] fix: sort tool used block sizes as block offsets

It also looked for the block sizes of a MatrixMarket file in an argument that
does not exist.
---
 src/tools/sort.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index bf90c0d..c4abde1 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -15,7 +15,7 @@ int main(int argc, char * argv[]){
   Coo2<double, uint32_t> A;
   int i, ret1=0, ret2=0;
   size_t size;
-  uint32_t * block_sizes;
+  uint32_t * block_sizes, * block_offsets;
   char buf_row[FNBUFL], buf_col[FNBUFL], buf_val[FNBUFL], buf_mtx[FNBUFL];
 
   // Read files
@@ -27,7 +27,7 @@ int main(int argc, char * argv[]){
                             (&A, argv[1], argv[2], argv[3]);
       break;
     case 3 :
-      ret2 = read_bin_array(argv[4], &block_sizes, &size );
+      ret2 = read_bin_array(argv[2], &block_sizes, &size );
     case 2 :
       ret1 = read_mm_COO(&A, argv[1]);
       break;
@@ -50,8 +50,18 @@ int main(int argc, char * argv[]){
     case 5 :
     case 3 :
       // Sort according to blocks
+      block_offsets = (uint32_t *) malloc((size + 1) * sizeof(uint32_t));
+      if(block_offsets==NULL){
+        fprintf(stderr, "Error. Could not allocate memory for block offsets.\n");
+        exit(1);
+      }
+      size_to_offset(block_offsets, block_sizes, (uint32_t) size);
+      if(A.rows > block_offsets[size] || A.columns > block_offsets[size]){
+        fprintf(stderr, "Matrix does not fit in the blocks.\n");
+        exit(1);
+      }
       sort_triplets_blocks(A.triplets, A.nnz,
-            block_sizes, (uint32_t) size, block_sizes, (uint32_t) size);
+            block_offsets, (uint32_t) size, block_offsets, (uint32_t) size);
       break;
     case 4 :
     case 2 :
-- 
2.43.0


From c82dd31133cce1df19593bf90ec979e555b7e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 21/44] fix: long file names overflowed the buffers of the
 tools

---
 src/tools/convert.cpp    |  8 ++++++++
 src/tools/double2float.c |  4 ++++
 src/tools/expanded.cpp   |  4 ++++
 src/tools/one2zero.c     |  4 ++++
 src/tools/permute.cpp    |  8 ++++++++
 src/tools/prepare.cpp    | 16 ++++++++++++++++
 src/tools/sort.cpp       | 16 ++++++++++++++++
 7 files changed, 60 insertions(+)

diff --git a/src/tools/convert.cpp b/src/tools/convert.cpp
index d1fe713..f9d9011 100644
--- a/src/tools/convert.cpp
+++ b/src/tools/convert.cpp
@@ -63,6 +63,10 @@ int main(int argc, char * argv[])
 
   // Create a matrix market file
   if (mtx) {
+    if(strlen(argv[4]) >= FNBUFL-10){
+      fprintf(stderr, "File name too long.\n");
+      exit(1);
+    }
     strncpy(buf, argv[4], FNBUFL-10);
     strcat(buf, ".mtx");
     printf("Writing to file %s ...", buf); fflush(stdout);
@@ -79,6 +83,10 @@ int main(int argc, char * argv[])
 
   // Create a binary triplet file
   if (bin) {
+    if(strlen(argv[4]) >= FNBUFL-10){
+      fprintf(stderr, "File name too long.\n");
+      exit(1);
+    }
     strncpy(buf, argv[4], FNBUFL-10);
     strcat(buf, ".bin");
     printf("Writing to file %s ...", buf); fflush(stdout);
diff --git a/src/tools/double2float.c b/src/tools/double2float.c
index 76e92c3..d893c9d 100644
--- a/src/tools/double2float.c
+++ b/src/tools/double2float.c
@@ -25,6 +25,10 @@ int main(int argc, char * argv[])
   for(int i=1; i<argc; i++){
 
     // Create new filename for output
+    if(strlen(argv[i]) >= FNBUFL-7){
+      fprintf(stderr, "File name too long.\n");
+      exit(1);
+    }
     strncpy(buf, argv[i], FNBUFL-7);
     strcat(buf, SUFFIX);
     printf("Output file : %s\n", buf);
diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 0500611..68c4ac3 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -80,6 +80,10 @@ int main(int argc, char * argv[]){
   A.columns = new_block_size * A.blockcols;
 
   // Create new filename for output
+  if(strlen(argv[5]) >= FNBUFL-10){
+    fprintf(stderr, "File name too long.\n");
+    exit(1);
+  }
   strncpy(buf, argv[5], FNBUFL-10);
   sprintf(buf2, SUFFIX, (unsigned long) new_block_size);
   strcat(buf, buf2);
diff --git a/src/tools/one2zero.c b/src/tools/one2zero.c
index eeffb2b..fca3079 100644
--- a/src/tools/one2zero.c
+++ b/src/tools/one2zero.c
@@ -22,6 +22,10 @@ int main (int argc, char * argv[])
   for (int i=1; i<argc; i++) {
 
     // Create new filename for output
+    if(strlen(argv[i]) >= FNBUFL-7){
+      fprintf(stderr, "File name too long.\n");
+      exit(1);
+    }
     strncpy(buf, argv[i], FNBUFL-7);
     strcat(buf, SUFFIX);
     printf("Output file : %s\n", buf);
diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index e5f5030..a3afb59 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -53,6 +53,10 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
+  if(strlen(argv[2]) >= FNBUFL-10){
+    fprintf(stderr, "File name too long.\n");
+    exit(1);
+  }
   strncpy(buf, argv[2], FNBUFL-10);
   strcat(buf, SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
@@ -79,6 +83,10 @@ int main(int argc, char * argv[])
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
+  if(strlen(argv[1]) >= FNBUFL-10){
+    fprintf(stderr, "File name too long.\n");
+    exit(1);
+  }
   strncpy(buf, argv[1], FNBUFL-10);
   strcat(buf, SUFFIX);
   fprintf(stdout, "Output file : %s\n", buf);
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 1715ae0..0dbef71 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -142,6 +142,10 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted rows
+  if(strlen(argv[6]) >= FNBUFL-10){
+    fprintf(stderr, "File name too long.\n");
+    exit(1);
+  }
   strncpy(buf, argv[6], FNBUFL-10);
   strcat(buf, ".row");
   printf("Writing to file %s ...", buf); fflush(stdout);
@@ -170,6 +174,10 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write file in binary blocked format
+  if(strlen(argv[6]) >= FNBUFL-10){
+    fprintf(stderr, "File name too long.\n");
+    exit(1);
+  }
   strncpy(buf, argv[6], FNBUFL-10);
   strcat(buf, ".block");
 
@@ -192,6 +200,10 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns
+  if(strlen(argv[6]) >= FNBUFL-10){
+    fprintf(stderr, "File name too long.\n");
+    exit(1);
+  }
   strncpy(buf, argv[6], FNBUFL-10);
   strcat(buf, ".col");
 
@@ -214,6 +226,10 @@ int main(int argc, char * argv[])
   printf(" done in %.3f sec\n", t);
 
   // Write binary triples file with sorted columns and expanded indeces
+  if(strlen(argv[6]) >= FNBUFL-20){
+    fprintf(stderr, "File name too long.\n");
+    exit(1);
+  }
   strncpy(buf, argv[6], FNBUFL-20);
   snprintf(ext, FNBUFL, ".col.exp%lu", (unsigned long) new_block_size);
   strcat(buf, ext);
diff --git a/src/tools/sort.cpp b/src/tools/sort.cpp
index c4abde1..99ed6a3 100644
--- a/src/tools/sort.cpp
+++ b/src/tools/sort.cpp
@@ -75,14 +75,26 @@ int main(int argc, char * argv[]){
     case 5 :
     case 4 :
       // Create new filenames for output
+      if(strlen(argv[1]) >= FNBUFL-10){
+        fprintf(stderr, "File name too long.\n");
+        exit(1);
+      }
       strncpy(buf_row, argv[1], FNBUFL-10);
       strcat(buf_row, SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_row);
 
+      if(strlen(argv[2]) >= FNBUFL-10){
+        fprintf(stderr, "File name too long.\n");
+        exit(1);
+      }
       strncpy(buf_col, argv[2], FNBUFL-10);
       strcat(buf_col, SUFFIX);
       fprintf(stdout, "Output file for columns : %s\n", buf_col);
 
+      if(strlen(argv[3]) >= FNBUFL-10){
+        fprintf(stderr, "File name too long.\n");
+        exit(1);
+      }
       strncpy(buf_val, argv[3], FNBUFL-10);
       strcat(buf_val, SUFFIX);
       fprintf(stdout, "Output file for values : %s\n", buf_val);
@@ -93,6 +105,10 @@ int main(int argc, char * argv[]){
     case 3 :
     case 2 :
       // Create filename for output
+      if(strlen(argv[1]) >= FNBUFL-10){
+        fprintf(stderr, "File name too long.\n");
+        exit(1);
+      }
       strncpy(buf_mtx, argv[1], FNBUFL-10);
       strcat(buf_mtx, SUFFIX);
       fprintf(stdout, "Output file for rows : %s\n", buf_mtx);
-- 
2.43.0


From 2cffaf9bca7b1ba48a55586afeba5407308ae2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:05 +0000
Subject: [PATCH 22/44] fix: permutation tools used indices outside of the
 permutation vector

---
 src/tools/permute.cpp | 19 +++++++++++++++++++
 src/tools/prepare.cpp | 12 ++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/tools/permute.cpp b/src/tools/permute.cpp
index a3afb59..d8e98a9 100644
--- a/src/tools/permute.cpp
+++ b/src/tools/permute.cpp
@@ -31,6 +31,13 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : permutation vector of size %lu\n", perm_size);
 
+  for (size_t k=0; k<perm_size; k++) {
+    if (permutation[k] >= perm_size) {
+      fprintf(stderr, "Invalid permutation vector.\n");
+      return 1;
+    }
+  }
+
   #ifdef INVPERM
   inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
   if (inv_permutation == NULL) {
@@ -50,6 +57,12 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu column indeces\n", size);
 
+  for (size_t k=0; k<size; k++) {
+    if (I[k] >= perm_size) {
+      fprintf(stderr, "Index outside of the permutation vector.\n");
+      return 1;
+    }
+  }
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
@@ -80,6 +93,12 @@ int main(int argc, char * argv[])
   }
   printf("Reading complete : %lu row indeces\n", size);
 
+  for (size_t k=0; k<size; k++) {
+    if (I[k] >= perm_size) {
+      fprintf(stderr, "Index outside of the permutation vector.\n");
+      return 1;
+    }
+  }
   permute_indeces(I, permutation, (INDEXTYPE) size);
 
   // Create new filename for output
diff --git a/src/tools/prepare.cpp b/src/tools/prepare.cpp
index 0dbef71..054df1c 100644
--- a/src/tools/prepare.cpp
+++ b/src/tools/prepare.cpp
@@ -53,6 +53,12 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  for (size_t k=0; k<index_size; k++) {
+    if (indeces[k] >= perm_size) {
+      fprintf(stderr, "Index outside of the permutation vector.\n");
+      return 1;
+    }
+  }
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted row indeces to disk
@@ -74,6 +80,12 @@ int main(int argc, char * argv[])
     return 1;
   }
 
+  for (size_t k=0; k<index_size; k++) {
+    if (indeces[k] >= perm_size) {
+      fprintf(stderr, "Index outside of the permutation vector.\n");
+      return 1;
+    }
+  }
   permute_indeces(indeces, permutation_vec, (INDEXTYPE) index_size);
 
   // Write permuted column indeces to disk
-- 
2.43.0


From 1c2b6deab3e85ec2f868b6eff92aaa1204ed0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:16 +0000
Subject: [PATCH 23/44] fix: suffix of the expanded file could overflow its
 name buffer

---
 src/tools/expanded.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/expanded.cpp b/src/tools/expanded.cpp
index 68c4ac3..554c99f 100644
--- a/src/tools/expanded.cpp
+++ b/src/tools/expanded.cpp
@@ -80,7 +80,7 @@ int main(int argc, char * argv[]){
   A.columns = new_block_size * A.blockcols;
 
   // Create new filename for output
-  if(strlen(argv[5]) >= FNBUFL-10){
+  if(strlen(argv[5]) >= FNBUFL-20){
     fprintf(stderr, "File name too long.\n");
     exit(1);
   }
-- 
2.43.0


From 04e8c8c4410391eabd251c392a328baefa890569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 24/44] fix: MatrixMarket reader split a malformed number into
 two

---
 include/io/input.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/io/input.h b/include/io/input.h
index 22708f1..eba6620 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -38,6 +38,15 @@ int read_bin_array(const char * filename, T ** data, size_t * num )
   return 0;
 }
 
+/*
+ * True if the number that was just read ends where its token ends.
+ */
+static inline bool mm_token_ends(FILE * f)
+{
+  int next = fgetc(f);
+  return (next == EOF || isspace(next)) && !ferror(f);
+}
+
 /*
  * Read the next entry of a MatrixMarket coordinate file. Entries of pattern
  * files have no value, one is used instead. It returns 0 if a complete entry
@@ -47,13 +56,9 @@ static inline int read_mm_entry(FILE * f, bool pattern, int rows, int columns,
                                 unsigned long * r, unsigned long * c, double * val)
 {
   *val = 1.0;
-  if (fscanf(f, "%lu %lu", r, c) != 2) return -1;
-  if (!pattern && fscanf(f, " %lg", val) != 1) return -1;
-
-  // The last number has to end where the token ends
-  int next = fgetc(f);
-  if (next != EOF && !isspace(next)) return -1;
-  if (ferror(f)) return -1;
+  if (fscanf(f, "%lu", r) != 1 || !mm_token_ends(f)) return -1;
+  if (fscanf(f, "%lu", c) != 1 || !mm_token_ends(f)) return -1;
+  if (!pattern && (fscanf(f, "%lg", val) != 1 || !mm_token_ends(f))) return -1;
 
   if (*r < 1 || *r > (unsigned long) rows) return -1;
   if (*c < 1 || *c > (unsigned long) columns) return -1;
-- 
2.43.0


From 9e0c276603e0fb84dd763740cc202208a304296b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 25/44] fix: blocked drivers ignored the block sizes they were
 given

They looked for two files after the matrix but waited for five arguments. The
sizes are now used, and refused when they do not cover the matrix.
---
 src/drivers/blocked.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/drivers/blocked.cpp b/src/drivers/blocked.cpp
index de3c5ed..6797b81 100644
--- a/src/drivers/blocked.cpp
+++ b/src/drivers/blocked.cpp
@@ -13,6 +13,17 @@
 #include "common.h"
 #include "test/bench.h"
 
+/*
+ * Do the blocks cover the dimension exactly?
+ */
+static bool covers(ITYPE const * offsets, size_t blocks, ITYPE dimension)
+{
+    for (size_t i=0; i<blocks; i++) {
+        if (offsets[i] > offsets[i+1]) return false;
+    }
+    return blocks > 0 && offsets[blocks] == dimension;
+}
+
 int main(int argc, char * argv[])
 {
     int ret;
@@ -41,7 +52,7 @@ int main(int argc, char * argv[])
     }
     printf(" done in %.4f sec\n", t);
 
-    if (argc == 5) {
+    if (argc == 4) {
 
         // Reading block sizes for rows
         printf("Reading block-row sizes from disk..."); fflush(stdout);
@@ -79,6 +90,12 @@ int main(int argc, char * argv[])
 
         free(block_sizes);  // Block sizes not needed anymore
 
+        if (!covers(block_offsets_row, num_blocks_row, B.rows) ||
+            !covers(block_offsets_col, num_blocks_col, B.columns)) {
+            fprintf(stderr, "Block sizes do not match the matrix.\n");
+            return 1;
+        }
+
         printf("Converting to blocked format..."); fflush(stdout);
         tick();
         Coo_to_Blocked(&A, &B,
-- 
2.43.0


From 2a2280b0766e91d4601b2931d8b3b93daaf11a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 26/44] fix: cswr driver divided by zero when the width was not
 a number

---
 src/drivers/cswr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/drivers/cswr.cpp b/src/drivers/cswr.cpp
index dd78510..c33335a 100644
--- a/src/drivers/cswr.cpp
+++ b/src/drivers/cswr.cpp
@@ -28,6 +28,10 @@ int main(int argc, char * argv[])
       break;
     case 3:
       width = atoi(argv[2]);
+      if (width == 0) {
+        fprintf(stderr, "Invalid width.\n");
+        return 1;
+      }
       break;
     default:
       fprintf(stderr, "Usage: %s [matrix] [width (optional)]\n", argv[0]);
-- 
2.43.0


From b08c42a22dd64cc326e07802731d5ed41a2377de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:38 +0000
Subject: [PATCH 27/44] fix: pbench used permutations that do not fit the
 matrix

A short or damaged permutation file made it read and write outside of its
arrays.
---
 src/drivers/pbench.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/drivers/pbench.cpp b/src/drivers/pbench.cpp
index dfed47b..3874035 100644
--- a/src/drivers/pbench.cpp
+++ b/src/drivers/pbench.cpp
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <vector>
 
 #define INVPERM
 #define _NO_CSB_ALIGNED_MALLOC_
@@ -56,6 +57,18 @@ int main(int argc, char * argv[])
     }
     printf("Read permutation vector. Size : %lu\n", perm_size);
 
+    // Every index of the matrix must have exactly one image
+    std::vector<bool> seen(perm_size, false);
+    bool valid = perm_size >= coo.rows && perm_size >= coo.columns;
+    for (size_t i=0; i<perm_size && valid; i++) {
+        valid = permutation[i] < perm_size && !seen[permutation[i]];
+        if (valid) seen[permutation[i]] = true;
+    }
+    if (!valid) {
+        fprintf(stderr, "Invalid permutation vector.\n");
+        return 1;
+    }
+
     #ifdef INVPERM
     inv_permutation = invert_permutation(permutation, (INDEXTYPE) perm_size);
     if (inv_permutation == NULL) {
@@ -74,6 +87,12 @@ int main(int argc, char * argv[])
     t = tock();
     printf(" done in %.4f sec\n", t);
     delete [] permutation;
+    for (INDEXTYPE i=0; i<coo.nnz; i++) {
+        if (coo.elements[i].row >= coo.rows || coo.elements[i].col >= coo.columns) {
+            fprintf(stderr, "Permutation moves entries out of the matrix.\n");
+            return 1;
+        }
+    }
 
     // CSR - start
     printf("Converting to CSR format..."); fflush(stdout);
-- 
2.43.0


From 7af55d990e73e3072cd38c5ff14846b4bd8cfcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 28/44] fix: releasing a Csbr matrix kept its block-row
 partitions

---
 include/matrix/csbr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 08bcd64..422f77a 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -367,6 +367,8 @@ void print_info(Csbr<T, IT> const& A)
 template <class T, class IT>
 void release(Csbr<T, IT>& A)
 {
+    partition_destroy(&A);
+
     for (IT i=0; i<A.nnzblocks; i++) {
         delete [] A.blocks[i].row_ptr;
     }
-- 
2.43.0


From 9d7e1e5a88fc9c66aaf387072fda7cfcaa927001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 29/44] fix: values of dense blocks were never freed

---
 include/matrix/dense.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 017c03f..71fc32e 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -15,7 +15,7 @@
 template <typename T, typename IT>
 struct DenseSerial : public BlockBase<T,IT>
 {
-    T * val;
+    T * val {nullptr};
     IT rows, columns;
 
     DenseSerial(Element<T,IT> * array, IT _rows, IT _columns, IT nnz)
@@ -34,6 +34,14 @@ struct DenseSerial : public BlockBase<T,IT>
 
     DenseSerial() {} // For testing. Should go.
 
+    DenseSerial(DenseSerial const&) = delete;
+    DenseSerial& operator=(DenseSerial const&) = delete;
+
+    ~DenseSerial()
+    {
+        delete [] val;
+    }
+
     /*
      * Sparse matrix - vector multiplication. Result is stored in y. Memory for
      * y should already be allocated and initialized. In this case A, is not
-- 
2.43.0


From 3ed4ab878927d9d0997850ce0e5b1f6621ea936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:20 +0000
Subject: [PATCH 30/44] fix: offsets made for a constant block size were never
 freed

---
 include/io/blocked.h    | 2 ++
 include/matrix/cgbr.2.h | 8 ++++++++
 include/matrix/cgbr.h   | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 73e8b5b..c1f8448 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -423,6 +423,8 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   // Open file, read header and validate
   FILE * f = read_bin_blocked_common<Cgbr<T, IT, SIT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
 
+  A->own_offsets = false;
+
   // Allocate memory
   A->blocks = new MatrixBlock<T, IT, SIT>[A->nnzblocks];
   A->blockcol_ind = new IT[A->nnzblocks];
diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 6dca397..867f0ff 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -30,6 +30,7 @@ struct Cgbr2 : public BlockBase<T,IT>
     // Block size information
     IT * blockrow_offset;
     IT * blockcol_offset;
+    bool own_offsets;          // Offsets belong to the matrix, not to the caller
     IT blockrows;
     IT blockcols;
     IT nnzblocks;
@@ -93,6 +94,7 @@ int Cgbr2<T,IT,SIT>::create (
     blockcols =_blockcols;
     blockrow_offset = _blockrow_offset;
     blockcol_offset = _blockcol_offset;
+    own_offsets = false;
 
     IT br, br_offset, br_size;
     IT bc, bc_offset, bc_size;
@@ -212,6 +214,7 @@ template <typename T, typename IT, typename SIT>
 void Coo_to_Cgbr(Cgbr2<T,IT,SIT> * A, Coo3<T,IT> * B, IT br_size, IT bc_size)
 {
     Coo_to_Blocked(A, B, br_size, bc_size);
+    A->own_offsets = true;
 }
 
 template <typename T, typename IT, typename SIT>
@@ -240,6 +243,11 @@ void release(Cgbr2<T,IT,SIT>& A)
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
+
+    if (A.own_offsets) {
+        delete [] A.blockrow_offset;
+        delete [] A.blockcol_offset;
+    }
 }
 
 #endif
diff --git a/include/matrix/cgbr.h b/include/matrix/cgbr.h
index 65f4e97..1e096b5 100644
--- a/include/matrix/cgbr.h
+++ b/include/matrix/cgbr.h
@@ -114,6 +114,7 @@ struct Cgbr
     // Block size information
     IT * blockrow_offset;
     IT * blockcol_offset;
+    bool own_offsets;          // Offsets belong to the matrix, not to the caller
     IT blockrows;
     IT blockcols;
     IT nnzblocks;
@@ -269,6 +270,7 @@ void Coo_to_Cgbr(
   A->blockcols = blockcols;
   A->blockrow_offset = blockrow_offset;
   A->blockcol_offset = blockcol_offset;
+  A->own_offsets = false;
   A->nnzblocks = count_blocks(B->elements, B->nnz);
 
   for (IT i=0; i<MATRIX_TYPE_NUM; i++)
@@ -356,6 +358,7 @@ void Coo_to_Cgbr (
         IT br_size, IT bc_size)
 {
     Coo_to_Blocked(A, B, br_size, bc_size);
+    A->own_offsets = true;
 }
 
 template <typename T, typename IT, typename SIT>
@@ -407,6 +410,11 @@ void release(Cgbr<T,IT,SIT>& A)
     delete [] A.blocks;
     delete [] A.blockrow_ptr;
     delete [] A.blockcol_ind;
+
+    if (A.own_offsets) {
+        delete [] A.blockrow_offset;
+        delete [] A.blockcol_offset;
+    }
 }
 
 #endif
-- 
2.43.0


From 7a0ec6ec4d6f48f4fdbcefe2e61671fb9248e8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 31/44] fix: balance flag of Cgbr2 was never set

---
 include/matrix/cgbr.2.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/matrix/cgbr.2.h b/include/matrix/cgbr.2.h
index 867f0ff..81d3392 100644
--- a/include/matrix/cgbr.2.h
+++ b/include/matrix/cgbr.2.h
@@ -174,6 +174,7 @@ int Cgbr2<T,IT,SIT>::create (
     assert(blockrow_ptr[blockrows] == nnzblocks);
 
     // Now create block-row partitioning
+    balanced = false;
     partition_init(this);
     return 0;
 }
-- 
2.43.0


From a333bd0c56f5e66375b0e9e7edc2834f4de90a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 32/44] fix: CompRowCsr counted the non-empty rows of entries
 that were not sorted yet

---
 include/matrix/crcsr.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/matrix/crcsr.h b/include/matrix/crcsr.h
index bbe0edf..620f1bc 100644
--- a/include/matrix/crcsr.h
+++ b/include/matrix/crcsr.h
@@ -81,6 +81,7 @@ void Coo_to_CrCsr(CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz, IT nnzrows)
 template <class T, class IT, class NONZERO>
 void Coo_to_CrCsr (CompRowCsr<T, IT> * A, NONZERO * nonzeros, IT nnz)
 {
+    sort_triplets(nonzeros, nnz); // Rows can only be counted in order
     IT nnzrows = count_nnz_rows(nonzeros, nnz);
     Coo_to_CrCsr(A, nonzeros, nnz, nnzrows);
 }
-- 
2.43.0


From 11806d3c4552e4a4aa8b1ee099f865bae23372ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 33/44] fix: read_bin_blocked builds the partition of a Cgbr
 matrix only when release will free it

---
 include/io/blocked.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index c1f8448..211642d 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -547,7 +547,11 @@ int read_bin_blocked(Cgbr<T, IT, SIT> * A, const char * filename,
   assert(A->blockrow_ptr[blockrows] == A->nnzblocks);
 
   A->balanced = A->is_balanced();
-  partition_init(A);
+
+  if (!A->balanced) {
+    // Unbalanced block-rows. We need within-block-row parallelism.
+    partition_init(A);
+  }
 
   return 0;
 }
-- 
2.43.0


From f5e590dcbf9eb0f127e804838b7d7f04150ee200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 34/44] fix: constant block sizes respect the index type inside
 the blocks (a block size of zero gave wrong results beyond it)

---
 include/generic/gsb.h | 50 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/include/generic/gsb.h b/include/generic/gsb.h
index f8bdc48..e06a0ee 100644
--- a/include/generic/gsb.h
+++ b/include/generic/gsb.h
@@ -1,25 +1,63 @@
 #ifndef _GSB_H_
 #define _GSB_H_
 #include <cstdio>
+#include <limits>
 
 #include "spmv/omp/gsb.h"
 
+// ------------------------- Block sizes -------------------------
+
+/*
+ * Largest number of rows or columns that a block of the matrix can have. It is
+ * limited by the type of the indices inside a block.
+ */
+template <class T, class IT, template <typename, typename> class GSB>
+IT max_block_size(GSB<T,IT> const *)
+{
+    return std::numeric_limits<IT>::max();
+}
+
+template <class T, class IT, class SIT,
+          template <typename, typename, typename> class GSB>
+IT max_block_size(GSB<T,IT,SIT> const *)
+{
+    if (sizeof(SIT) >= sizeof(IT)) return std::numeric_limits<IT>::max();
+    return (IT) std::numeric_limits<SIT>::max() + 1;
+}
+
+/*
+ * Number of blocks of constant size in a dimension. Reduces the block size if
+ * the indices inside a block cannot address it.
+ */
+template <class IT>
+IT count_constant_blocks(IT dimension, IT * size, IT max_size)
+{
+    // A block size of zero means "do not split" (see pick_block_size)
+    if (*size == 0 || *size > max_size) *size = max_size;
+
+    IT blocks = dimension / *size;
+    if (blocks == 0) blocks = 1;
+
+    // Split the final block when it gets too large
+    if (dimension - (blocks - 1) * *size > max_size) blocks++;
+
+    return blocks;
+}
+
 // ------------------------- Constructors -------------------------
 
 /*
  * Additional constructor to create a GSB matrix with a constant block size.
  * Final blocks in each dimension will be a little larger when block size is
- * not a divisor of total number of rows/columns.
+ * not a divisor of total number of rows/columns, unless that makes them too
+ * large for the indices inside a block.
  */
 template <class T, class IT, class MATRIX,
           template <typename, typename> class COO>
 void Coo_to_Blocked(MATRIX * A, COO<T,IT> * B, IT br_size, IT bc_size)
 {
-    // A block size of zero means "do not split" (see pick_block_size)
-    IT blockrows = br_size ? B->rows / br_size : 1;
-    IT blockcols = bc_size ? B->columns / bc_size : 1;
-    if (blockrows == 0) blockrows = 1;
-    if (blockcols == 0) blockcols = 1;
+    IT blockrows = count_constant_blocks(B->rows, &br_size, max_block_size(A));
+    IT blockcols = count_constant_blocks(B->columns, &bc_size, max_block_size(A));
     IT * blockrow_offset = new IT[blockrows + 1];
     IT * blockcol_offset = new IT[blockcols + 1];
 
-- 
2.43.0


From d1f4679a6775e8083844ca5ae5862221aa4fb4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 35/44] fix: refuse indices that do not fit the index type of a
 block instead of truncating them

---
 include/matrix/block_csr.h |  1 +
 include/matrix/blocks.h    |  1 +
 include/matrix/coo.1.h     | 22 +++++++++++++++++-----
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/matrix/block_csr.h b/include/matrix/block_csr.h
index a5cd3d7..ec355b7 100644
--- a/include/matrix/block_csr.h
+++ b/include/matrix/block_csr.h
@@ -51,6 +51,7 @@ int Coo_to_Csr(BlockCsr<T,IT,SIT> * A, NONZERO * nonzeros,
   for (IT i=0; i<nnz; i++)
   {
     A->col_ind[i] = nonzeros[i].col;
+    assert((IT) A->col_ind[i] == nonzeros[i].col);      // Does it fit?
     A->val[i] = nonzeros[i].val;
     (A->row_ptr[nonzeros[i].row + 1])++;
   }
diff --git a/include/matrix/blocks.h b/include/matrix/blocks.h
index 050d317..3c82634 100644
--- a/include/matrix/blocks.h
+++ b/include/matrix/blocks.h
@@ -32,6 +32,7 @@ struct BlockCsrSerial : public BlockBase<T,IT>
 
         for (IT i=0; i<nnz; i++) {
             col_ind[i] = array[i].col;
+            assert((IT) col_ind[i] == array[i].col);    // Does it fit?
             val[i]  = array[i].val;
             row_ptr[array[i].row + 1]++;
         }
diff --git a/include/matrix/coo.1.h b/include/matrix/coo.1.h
index f649622..d124f24 100644
--- a/include/matrix/coo.1.h
+++ b/include/matrix/coo.1.h
@@ -1,6 +1,8 @@
 #ifndef _COO_1_H_
 #define _COO_1_H_
 
+#include <cassert>
+
 #include "typedefs.h"
 #include "generic/coo.h"
 #include "generic/base.h"
@@ -24,9 +26,9 @@ struct Coo : public BlockBase<T,IT>
 
         for (IT i=0; i<nnz; i++)
         {
-            I[i] = array[i].row;
-            J[i] = array[i].col;
-            val[i] = array[i].val;
+            set_row_index(i, array[i].row);
+            set_column_index(i, array[i].col);
+            set_value(i, array[i].val);
         }
     }
 
@@ -45,8 +47,18 @@ struct Coo : public BlockBase<T,IT>
     T get_value (IT i) const { return val[i]; }
 
     // Setters
-    void set_row_index (IT i, IT row) { I[i] = row; }
-    void set_column_index (IT i, IT column) { J[i] = column; }
+    void set_row_index (IT i, IT row)
+    {
+        I[i] = row;
+        assert((IT) I[i] == row);       // Does it fit?
+    }
+
+    void set_column_index (IT i, IT column)
+    {
+        J[i] = column;
+        assert((IT) J[i] == column);    // Does it fit?
+    }
+
     void set_value (IT i, T val_) { val[i] = val_; }
 
     /*
-- 
2.43.0


From bb38694d522d5946541a64af865bc512ab9e4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:02 +0000
Subject: [PATCH 36/44] fix: Cswr refuses widths its row indices cannot hold,
 and counts wide rows without overflow

---
 include/matrix/cswr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/cswr.h b/include/matrix/cswr.h
index 8c43ab3..b689c30 100644
--- a/include/matrix/cswr.h
+++ b/include/matrix/cswr.h
@@ -54,7 +54,7 @@ void Coo_to_Cswr (
     A->columns = columns;
     A->nnz = nnz;
     A->width = width;
-    A->nwrows = (rows + width - 1) / width;
+    A->nwrows = rows / width + (rows % width != 0);
     A->val = new T[nnz];
     A->row = new SIT[nnz];
     A->col = new IT[nnz];
@@ -73,7 +73,7 @@ void Coo_to_Cswr (
         A->col[i] = array[i].col;
         A->val[i] = array[i].val;
 
-        assert(A->row[i] < width);
+        assert(A->row[i] == array[i].row % width);   // Does it fit?
     }
 
     for (IT j=0; j<A->nwrows; j++) {
-- 
2.43.0


From 120dced9ec993c8bc198516a753eb71d6eac9140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:14 +0000
Subject: [PATCH 37/44] fix: refuse dense matrices whose number of cells
 overflows the index type

---
 include/matrix/dense.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index 71fc32e..fcf6e3e 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -109,7 +109,7 @@ void Coo_to_Dense(DENSE<T,IT> * A, NONZERO * nonzeros, IT rows, IT columns, IT n
 
     // Watch out for integer overflow
     N = rows * columns;
-    assert(N >= rows);
+    assert(columns == 0 || N / columns == rows);
 
     allocate(A, rows, columns);
 
-- 
2.43.0


From fa4b398979ba7335701f0814dc562772ab0388b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 38/44] fix: refuse block grids with more blocks than the index
 type can number

---
 include/matrix/csbr.h | 1 +
 include/utils.h       | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/include/matrix/csbr.h b/include/matrix/csbr.h
index 422f77a..f2abf88 100644
--- a/include/matrix/csbr.h
+++ b/include/matrix/csbr.h
@@ -114,6 +114,7 @@ void Coo_to_Csbr(Csbr<T, IT> * A, Coo2<T, IT> * B,
   DEBUG(puts("Sorting complete"));
 
   // Initialize non-zero counter to zero
+  assert(blockrows == 0 || blockcols <= std::numeric_limits<IT>::max() / blockrows);
   IT * counter = new IT[blockrows*blockcols]();
 
   // Count non-zeros of each block
diff --git a/include/utils.h b/include/utils.h
index b19eadd..24ee7b9 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -309,6 +309,9 @@ template <class T, class IT>
 void calculate_block_id(Element<T, IT> * elements, IT size,
         IT * blockrow_offset, IT blockrows, IT * blockcol_offset, IT blockcols)
 {
+    // Every block of the grid needs an id of its own
+    assert(blockrows == 0 || blockcols <= std::numeric_limits<IT>::max() / blockrows);
+
     for (IT i=0; i<size; i++)
     {
         IT br = index_to_blockindex(blockrow_offset, blockrows, elements[i].row );
-- 
2.43.0


From 107543459cc9dd98344c7ff954cf5381fa3cd0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:32 +0000
Subject: [PATCH 39/44] fix: refuse expansions whose indices do not fit the
 index type

---
 include/expand.h | 6 +++++-
 include/utils.h  | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/expand.h b/include/expand.h
index 60782c7..e809432 100644
--- a/include/expand.h
+++ b/include/expand.h
@@ -22,7 +22,11 @@ IT expand_block_size(IT * block_size, IT size)
     if(block_size[i] > max_block)
       max_block = block_size[i];
 
-  return (IT) next_power_of_two(max_block);
+  // The expanded indeces must fit the index type
+  uint64_t new_size = next_power_of_two(max_block);
+  assert(size == 0 || new_size <= std::numeric_limits<IT>::max() / size);
+
+  return (IT) new_size;
 }
 
 /*
diff --git a/include/utils.h b/include/utils.h
index 24ee7b9..e1f6092 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -126,6 +126,7 @@ void size_to_offset(IT * offsets, const IT * sizes, IT size)
 {
     offsets[0] = 0;
     std::partial_sum(sizes, sizes + size, offsets + 1);
+    assert(std::is_sorted(offsets, offsets + size + 1));    // Does it fit?
 }
 
 /*
-- 
2.43.0


From 5d1a79a998f931b4f5733bd0523d2cf1e7c23445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 40/44] fix: refuse dense blocks whose number of cells
 overflows the index type

---
 include/matrix/dense.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/matrix/dense.h b/include/matrix/dense.h
index fcf6e3e..de8c8cf 100644
--- a/include/matrix/dense.h
+++ b/include/matrix/dense.h
@@ -23,7 +23,11 @@ struct DenseSerial : public BlockBase<T,IT>
     {
         IT pos;
 
-        val = new T[rows * columns]();
+        // Watch out for integer overflow
+        pos = rows * columns;
+        assert(columns == 0 || pos / columns == rows);
+
+        val = new T[pos]();
 
         for (IT i=0; i<nnz; i++)
         {
-- 
2.43.0


From dada9dd8602ce9c47f17f26d5dc067100677417f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:51 +0000
Subject: [PATCH 41/44] fix: pick_block_size shifted wide index types out of an
 int

---
 include/utils.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/utils.h b/include/utils.h
index e1f6092..816cb0d 100644
--- a/include/utils.h
+++ b/include/utils.h
@@ -23,8 +23,8 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     IT colbits = highest_bit_set(roundcolup);
     bool sizereq;
     if (ispar) {
-    	sizereq = ( (1 << rowbits) > SLACKNESS * workers) &&
-    		      ( (1 << colbits) > SLACKNESS * workers);
+    	sizereq = ( ((IT) 1 << rowbits) > (IT) SLACKNESS * workers) &&
+    		      ( ((IT) 1 << colbits) > (IT) SLACKNESS * workers);
     } else {
     	sizereq = ((rowbits > 1) && (colbits > 1));
     }
@@ -48,7 +48,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that suby occupies in L2 cache
-    IT yL2 = (1 << rowlowbits) * val_size;
+    IT yL2 = ((IT) 1 << rowlowbits) * val_size;
     while(yL2 > L2SIZE)
     {
     	yL2 /= 2;
@@ -57,7 +57,7 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
 
     // calculate the space that subx occupies in L2 cache
-    IT xL2 = (1 << collowbits) * val_size;
+    IT xL2 = ((IT) 1 << collowbits) * val_size;
     while(xL2 > L2SIZE)
     {
     	xL2 /= 2;
@@ -91,18 +91,23 @@ IT pick_block_size(IT m, IT n, size_t val_size, int workers)
     }
     assert (collowbits == rowlowbits);
 
-    IT lowrowmask = (1 << rowlowbits) - 1;
-    IT lowcolmask = (1 << collowbits) - 1;
+    IT lowrowmask = ((IT) 1 << rowlowbits) - 1;
+    IT lowcolmask = ((IT) 1 << collowbits) - 1;
 
     double sqrtn = sqrt(sqrt(static_cast<double>(m) * static_cast<double>(n)));
     IT logbeta = static_cast<IT>(ceil(log2(sqrtn))) + 2;
     if(rowlowbits > logbeta)
     {
         rowlowbits = collowbits = logbeta;
-        lowrowmask = lowcolmask = ( 1 << logbeta) -1;
+        lowrowmask = lowcolmask = ((IT) 1 << logbeta) - 1;
         rowhighbits = rowbits-rowlowbits;
         colhighbits = colbits-collowbits;
     }
+
+    // Every block of the grid needs an id of its own
+    if (rowbits - rowlowbits + colbits - collowbits > maxbits) {
+    	return 0;
+    }
     return lowrowmask + 1;
 }
 
-- 
2.43.0


From 274cf44048123e525420f548e842decdbcb13c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:51 +0000
Subject: [PATCH 42/44] fix: blocked readers failed on every file with a wide
 index type

---
 include/io/blocked.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 211642d..1fdd4f7 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -105,8 +105,8 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = (IT) -1;  // Becomes zero with the first block
+  prev_b = (IT) -1;
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -124,7 +124,7 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == (IT) -1);
 
       block_index++;
       if(block_index >= A->nnzblocks){
@@ -223,8 +223,8 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   DEBUG(puts("Memory allocation done"));
 
-  block_index = UINT_MAX;  // Assuming UINT_MAX + 1 = 0
-  prev_b = UINT_MAX;
+  block_index = (IT) -1;  // Becomes zero with the first block
+  prev_b = (IT) -1;
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -242,7 +242,7 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
     if( b != prev_b){
 
       // Make sure blocks are sorted correctly
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == (IT) -1);
 
       block_index++;
       if(block_index >= A->nnzblocks){
@@ -349,7 +349,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
     A->blocks[i].rows = 0;
   }
 
-  prev_b = UINT_MAX;
+  prev_b = (IT) -1;
 
   // Read data section
   for(IT i=0; i<A->nnz; i++){
@@ -364,7 +364,7 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
     // Check if this is the begining of a new block
     if( b != prev_b){
-      assert(b > prev_b || prev_b == UINT_MAX);
+      assert(b > prev_b || prev_b == (IT) -1);
       prev_b = b;
       br = b / blockcols;
       bc = b % blockcols;
-- 
2.43.0


From 696dd0315078a8935447934e076e389d2d2e86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:51 +0000
Subject: [PATCH 43/44] fix: binary readers wrote beyond their arrays when the
 size of an array overflowed

---
 include/io/blocked.h | 18 +++++++++---------
 include/io/input.h   |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/io/blocked.h b/include/io/blocked.h
index 1fdd4f7..1aa8869 100644
--- a/include/io/blocked.h
+++ b/include/io/blocked.h
@@ -91,11 +91,11 @@ int read_bin_blocked(Csbr<T, IT> * A, const char * filename,
   FILE * f = read_bin_blocked_common<Csbr<T, IT>, IT>(A, filename, blockrow_offset, blockrows, blockcol_offset, blockcols);
 
   // Allocate memory
-  A->blocks = (Csr<T,IT> *) malloc( A->nnzblocks * sizeof(Csr<T,IT>));
-  A->blockcol_ind = (IT *) malloc( A->nnzblocks * sizeof(IT));
+  A->blocks = (Csr<T,IT> *) calloc( A->nnzblocks, sizeof(Csr<T,IT>));
+  A->blockcol_ind = (IT *) calloc( A->nnzblocks, sizeof(IT));
   A->blockrow_ptr = (IT *) calloc( A->blockrows + 1 , sizeof(IT));
-  A->val = (T *) malloc( A->nnz * sizeof(T));
-  A->col_ind = (IT *) malloc( A->nnz * sizeof(IT));
+  A->val = (T *) calloc( A->nnz, sizeof(T));
+  A->col_ind = (IT *) calloc( A->nnz, sizeof(IT));
 
   if(A->blocks==NULL || A->blockcol_ind==NULL || A->blockrow_ptr==NULL || A->col_ind==NULL || A->val==NULL){
     fprintf(stderr, "Memory allocation failed.");
@@ -211,9 +211,9 @@ int read_bin_blocked(Csbr2<T, IT> * A, const char * filename,
 
   // Allocate memory
   A->blockrow_ptr = (IT *) calloc( A->blockrows + 1 , sizeof(IT));
-  A->row_ptr = (IT **) malloc( A->nnzblocks * sizeof(IT *));
-  A->col_ind = (IT *) malloc( A->nnz * sizeof(IT));
-  A->val = (T *) malloc( A->nnz * sizeof(T));
+  A->row_ptr = (IT **) calloc( A->nnzblocks, sizeof(IT *));
+  A->col_ind = (IT *) calloc( A->nnz, sizeof(IT));
+  A->val = (T *) calloc( A->nnz, sizeof(T));
 
   if(A->blockrow_ptr==NULL || A->col_ind==NULL || A->val==NULL || A->row_ptr==NULL){
     fprintf(stderr, "Memory allocation failed.");
@@ -334,8 +334,8 @@ int read_bin_blocked(Bcsr<T, IT> * A, const char * filename,
 
   // Allocate memory
   A->blocks = (Csr<T, IT> *) malloc( A->blockrows * A->blockcols * sizeof(Csr<T, IT>));
-  A->col_ind = (IT *) malloc( A->nnz * sizeof(IT));
-  A->val = (T *) malloc( A->nnz * sizeof(T));
+  A->col_ind = (IT *) calloc( A->nnz, sizeof(IT));
+  A->val = (T *) calloc( A->nnz, sizeof(T));
 
   if(A->blocks==NULL || A->col_ind==NULL || A->val==NULL){
     fprintf(stderr, "Memory allocation failed.");
diff --git a/include/io/input.h b/include/io/input.h
index eba6620..e8307aa 100644
--- a/include/io/input.h
+++ b/include/io/input.h
@@ -471,7 +471,7 @@ int read_bin_CSR(Csr<T, IT> * A, const char * filename)
   counter = fread(&(A->rows), sizeof(IT), 1, f);
   counter += fread(&(A->columns), sizeof(IT), 1, f);
   counter += fread(&nnz, sizeof(IT), 1, f);
-  if(counter != 3){
+  if(counter != 3 || (size_t) A->rows + 1 == 0){
     fprintf(stderr, "Failed to read matrix header.\n");
     fclose(f);
     return -2;
-- 
2.43.0


From bb417015da07708a04c21eb1b2ccf96dd8c1aa7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:21 +0000
Subject: [PATCH 44/44] fix: compute the index limit of a coordinate block in
 the index type

With 64-bit indices and 32-bit indices inside a block, 1 << 32 was evaluated
as an int: matrices whose blocks fit were refused, or built wrong.
---
 include/matrix/block_coo.1.h | 2 +-
 include/matrix/block_coo.2.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/matrix/block_coo.1.h b/include/matrix/block_coo.1.h
index c41d9c0..f0f2fd8 100644
--- a/include/matrix/block_coo.1.h
+++ b/include/matrix/block_coo.1.h
@@ -48,7 +48,7 @@ int Coo_to_Coo(BlockCoo<T,IT,SIT> * A, NONZERO * array, IT nnz)
 
   if (sizeof(IT) > sizeof(SIT))
   {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = (IT) 1 << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++)
     {
         assert(array[i].row < max_index && array[i].col < max_index);
diff --git a/include/matrix/block_coo.2.h b/include/matrix/block_coo.2.h
index b6eea53..986b951 100644
--- a/include/matrix/block_coo.2.h
+++ b/include/matrix/block_coo.2.h
@@ -36,7 +36,7 @@ int Coo_to_Coo(BlockCoo2<T,IT,SIT> * A, NONZERO * array, IT nnz)
   allocate(A, nnz);
 
   if (sizeof(IT) > sizeof(SIT)) {
-    IT max_index = 1 << (8 * sizeof(SIT));
+    IT max_index = (IT) 1 << (8 * sizeof(SIT));
     for (IT i=0; i<nnz; i++) {
         assert(array[i].row < max_index && array[i].col < max_index);
     }
-- 
2.43.0

