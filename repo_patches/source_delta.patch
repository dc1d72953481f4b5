From 66eab2f0dc31fce3da519c14f5c657257cd78c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 01/60] fix: remove the temporary file when writing a file
 fails

The cleanup path freed the name of the temporary file and then passed it to
unlink(), so the file was left behind (and freed memory was read).
---
 src/pointless_create.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 4096504..a0af3eb 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -1321,9 +1321,6 @@ int pointless_create_output_and_end_f(pointless_create_t* c, const char* fname,
 
 cleanup:
 
-	pointless_free(temp_fname);
-	temp_fname = 0;
-
 	pointless_create_end(c);
 
 	if (f) {
-- 
2.43.0


From 3d55f71ff92473b0e094d2bd1ef8490d8d4d6214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 02/60] fix: hash and compare empty vectors as empty at
 create-time

An empty vector has no entry among the create-time vectors, but hashing and
comparing it used the items of vector 0, so an empty tuple used as a key got
the hash of another vector and the output could not be read back.
---
 src/pointless_cmp.c  | 16 ++++++++++++++--
 src/pointless_hash.c |  6 +++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 8c39b66..c263e4f 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -368,13 +368,25 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 	return SIMPLE_CMP(n_items_a, n_items_b);
 }
 
+static uint32_t pointless_cmp_create_vector_n_items(pointless_create_t* c, pointless_create_value_t* v)
+{
+	// empty vectors are in-line, and refer to no vector
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY)
+		return 0;
+
+	if (v->header.is_outside_vector)
+		return cv_get_outside_vector(v)->n_items;
+
+	return (uint32_t)pointless_dynarray_n_items(&cv_get_priv_vector(v)->vector);
+}
+
 static int32_t pointless_cmp_create_vector(pointless_create_t* c, pointless_complete_create_value_t* a, pointless_complete_create_value_t* b, uint32_t depth, const char** error)
 {
 	pointless_create_value_t _a = pointless_create_value_from_complete(a);
 	pointless_create_value_t _b = pointless_create_value_from_complete(b);
 
-	uint32_t n_items_a = a->header.is_outside_vector ? cv_get_outside_vector(&_a)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_a)->vector);
-	uint32_t n_items_b = b->header.is_outside_vector ? cv_get_outside_vector(&_b)->n_items : pointless_dynarray_n_items(&cv_get_priv_vector(&_b)->vector);
+	uint32_t n_items_a = pointless_cmp_create_vector_n_items(c, &_a);
+	uint32_t n_items_b = pointless_cmp_create_vector_n_items(c, &_b);
 	uint32_t i, n_items = (n_items_a < n_items_b ? n_items_a : n_items_b);
 	int32_t cc;
 
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 6ae3caf..410ef27 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -282,7 +282,11 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 	void* items;
 	pointless_create_value_t* vv;
 
-	if (v->header.is_outside_vector) {
+	if (v->header.type_29 == POINTLESS_VECTOR_EMPTY) {
+		// empty vectors are in-line, and refer to no vector
+		items = 0;
+		n_items = 0;
+	} else if (v->header.is_outside_vector) {
 		items = cv_get_outside_vector(v)->items;
 		n_items = cv_get_outside_vector(v)->n_items;
 	} else {
-- 
2.43.0


From efede314c9e50e56249abc6ead7bf1735fcfc872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 03/60] fix: pick the create-time comparison function of the
 second operand

Values of different types with the same hash (0 and None, for example) were
compared with the function of the first, and reported as duplicate keys.
---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index c263e4f..f65ac12 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -535,7 +535,7 @@ static int32_t pointless_cmp_create_rec_priv(pointless_create_t* c, pointless_co
 
 	// find the comparison func for these two
 	pointless_cmp_create_cb cmp_a = pointless_cmp_create_func(v_a->header.type_29);
-	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_a->header.type_29);
+	pointless_cmp_create_cb cmp_b = pointless_cmp_create_func(v_b->header.type_29);
 
 	// different type groups, just cmp on type ID
 	if (cmp_a != cmp_b)
-- 
2.43.0


From d557e30cee9285d5a5360959b94bb4841e7810c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 04/60] fix: an unsigned integer is greater than a negative one

---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index f65ac12..a973d2e 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -201,7 +201,7 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 			int64_t _b = pointless_int_value_signed(t_b, v_b);
 
 			if (_b < 0)
-				return -1;
+				return 1;
 
 			return SIMPLE_CMP(_a, (uint64_t)_b);
 		}
-- 
2.43.0


From 8c52897e59216a72ab166f6453d22c2361598b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 05/60] fix: compare items of 64-bit vectors at create-time

There was no comparison function for them, and the null pointer was called.
---
 src/pointless_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index a973d2e..32a9ce8 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -468,6 +468,8 @@ static pointless_cmp_create_cb pointless_cmp_create_func(uint32_t t)
 			return pointless_cmp_create_string_unicode;
 		case POINTLESS_I32:
 		case POINTLESS_U32:
+		case POINTLESS_I64:
+		case POINTLESS_U64:
 		case POINTLESS_BOOLEAN:
 		case POINTLESS_FLOAT:
 			return pointless_cmp_create_int_float;
-- 
2.43.0


From 768cfe892ed844acaf066f8b162981eb14c0e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 06/60] fix: pointless_cmp_reader_acyclic() on vectors

It passes no error pointer, which was dereferenced for every vector item.
---
 src/pointless_cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index 32a9ce8..d40e3eb 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -361,7 +361,7 @@ static int32_t pointless_cmp_reader_vector(pointless_t* p_a, pointless_complete_
 
 		cc = pointless_cmp_reader_rec(p_a, &c_a, p_b, &c_b, depth + 1, error);
 
-		if (cc != 0 || *error != 0)
+		if (cc != 0 || (error && *error != 0))
 			return cc;
 	}
 
-- 
2.43.0


From c43a96b58ff0a2c0ec93decc539eeb5e1e2099a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:01 +0000
Subject: [PATCH 07/60] fix: read the second bitvector by its own encoding when
 comparing

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index ad263cb..607ce02 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -163,7 +163,7 @@ int32_t pointless_bitvector_cmp_buffer_buffer(uint32_t t_a, pointless_value_data
 
 	for (i = 0; i < n_bits; i++) {
 		ba = pointless_bitvector_is_set(t_a, v_a, buffer_a, i);
-		bb = pointless_bitvector_is_set(t_a, v_b, buffer_b, i);
+		bb = pointless_bitvector_is_set(t_b, v_b, buffer_b, i);
 
 		if (ba != bb)
 			return SIMPLE_CMP(ba, bb);
-- 
2.43.0


From bfbe8bee2c2fc8e401c96e3f1e1849e98cabdedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 08/60] fix: write strings with characters outside the BMP as
 unicode

The two branches were swapped, so such strings were cut down to 8 bits per
character.
---
 python/pointless_create.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 0ae2302..f21540c 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -311,9 +311,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 				break;
 			case PyUnicode_4BYTE_KIND:
 				if (state->unwiden_strings && pointless_is_ucs4_ascii((uint32_t*)python_buffer))
-					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
-				else
 					handle = pointless_create_string_ucs4(&state->c, (uint32_t*)python_buffer);
+				else
+					handle = pointless_create_unicode_ucs4(&state->c, (uint32_t*)python_buffer);
 				break;
 			// will happen for PyUnicode_WCHAR_KIND on python versions < 3.12
 			default:
-- 
2.43.0


From 38d8b7a993585b06e1b4e80e1384d40ed796d3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 09/60] fix: free the create-time state when an object can not
 be serialized

create_end was never set.
---
 python/pointless_create.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index f21540c..d10a4b2 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -529,12 +529,14 @@ PyObject* pointless_write_object(PyObject* self, PyObject* args, PyObject* kwds)
 	state.normalize_bitvector = (normalize_bitvector == Py_True);
 
 	pointless_create_begin_64(&state.c);
+	create_end = 1;
 
 	pointless_export_py(&state, object);
 
 	if (state.is_error)
 		goto cleanup;
 
+	// the output function ends it, whether it succeeds or fails
 	create_end = 0;
 
 	if (!pointless_create_output_and_end_f(&state.c, fname, &error)) {
@@ -594,12 +596,14 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 	state.normalize_bitvector = (normalize_bitvector == Py_True);
 
 	pointless_create_begin_64(&state.c);
+	create_end = 1;
 
 	pointless_export_py(&state, object);
 
 	if (state.is_error)
 		goto cleanup;
 
+	// the output function ends it, whether it succeeds or fails
 	create_end = 0;
 
 	if (!pointless_create_output_and_end_b(&state.c, &buf, &buflen, &error)) {
-- 
2.43.0


From 28e588a4321dfd8c2ef817dc3e9686e2a31c7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 10/60] fix: free the output buffer copied by
 serialize_to_bytearray()

---
 python/pointless_create.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index d10a4b2..5a8615e 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -613,8 +613,11 @@ static PyObject* pointless_write_object_to(int buffer_type, PyObject* self, PyOb
 
 	if (buffer_type == 0)
 		retval = (PyObject*)PyPointlessPrimVector_from_buffer(buf, buflen);
-	else
+	else {
+		// this one makes a copy
 		retval = (PyObject*)PyByteArray_FromStringAndSize(buf, buflen);
+		pointless_free(buf);
+	}
 
 cleanup:
 
-- 
2.43.0


From 5570c753accdda2a43bbd942520b4d958ab53f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 11/60] fix: release the references to set items when
 serializing

---
 python/pointless_create.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/pointless_create.c b/python/pointless_create.c
index 5a8615e..eb0eb65 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -363,7 +363,9 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 	// set object
 	} else if (PySet_Check(py_object) || PyFrozenSet_Check(py_object)) {
-		PyObject* iterator = PyObject_GetIter(py_object);
+		// we iterate over the set itself, even if a subclass has its own iterator: our bookkeeping of
+		// seen objects needs the items to be kept alive by the set
+		PyObject* iterator = PySet_Type.tp_iter(py_object);
 		PyObject* item = 0;
 
 		if (iterator == 0) {
@@ -374,16 +376,17 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 
 		// get a handle
 		handle = pointless_create_set(&state->c);
-		RETURN_OOM_IF_FAIL(handle, state);
 
 		// cache object
-		if (!pointless_export_set_seen(state, py_object, handle)) {
+		if (handle == POINTLESS_CREATE_VALUE_FAIL || !pointless_export_set_seen(state, py_object, handle)) {
+			Py_DECREF(iterator);
 			RETURN_OOM(state);
 		}
 
 		// iterate over it
 		while ((item = PyIter_Next(iterator)) != 0) {
 			uint32_t item_handle = pointless_export_py_rec(state, item, depth + 1);
+			Py_DECREF(item);
 
 			if (item_handle == POINTLESS_CREATE_VALUE_FAIL)
 				break;
-- 
2.43.0


From 7d09db1fb4c58d0c0b2fd10a27432dee3eaf6194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:00 +0000
Subject: [PATCH 12/60] fix: serialize only the slice of a sliced value-vector

The whole vector behind the slice was written, unlike for slices of the
primitive vectors.
---
 include/pointless/pointless_recreate.h |  3 ++
 python/pointless_create.c              |  6 +++-
 src/pointless_recreate.c               | 43 ++++++++++++++++++++++++--
 3 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/include/pointless/pointless_recreate.h b/include/pointless/pointless_recreate.h
index 53a3c59..534e0d4 100644
--- a/include/pointless/pointless_recreate.h
+++ b/include/pointless/pointless_recreate.h
@@ -8,6 +8,9 @@
 
 uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error);
 
+// same, but only for the items [slice_i, slice_i + slice_n) of a value vector
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error);
+
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error);
 
 #endif
diff --git a/python/pointless_create.c b/python/pointless_create.c
index eb0eb65..15fe38b 100644
--- a/python/pointless_create.c
+++ b/python/pointless_create.c
@@ -147,7 +147,11 @@ static uint32_t pointless_export_py_rec(pointless_export_state_t* state, PyObjec
 		switch(v->v.type) {
 			case POINTLESS_VECTOR_VALUE:
 			case POINTLESS_VECTOR_VALUE_HASHABLE:
-				handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				// a slice is a vector of its own
+				if (v->slice_n == pointless_reader_vector_n_items(&v->pp->p, &v->v))
+					handle = pointless_recreate_value(&v->pp->p, &v->v, &state->c, &error);
+				else
+					handle = pointless_recreate_vector_slice(&v->pp->p, &v->v, v->slice_i, v->slice_n, &state->c, &error);
 
 				if (handle == POINTLESS_CREATE_VALUE_FAIL) {
 					state->is_error = 1;
diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index 977d0b9..b8da946 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -289,7 +289,33 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 	return POINTLESS_CREATE_VALUE_FAIL;
 }
 
-uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+static uint32_t pointless_recreate_convert_slice(pointless_recreate_state_t* state, pointless_value_t* v, uint32_t slice_i, uint32_t slice_n)
+{
+	uint32_t i, child_handle, handle = pointless_create_vector_value(state->c);
+
+	if (handle == POINTLESS_CREATE_VALUE_FAIL) {
+		*state->error = "pointless_create_vector_value() failure";
+		return POINTLESS_CREATE_VALUE_FAIL;
+	}
+
+	pointless_value_t* child_v = pointless_reader_vector_value(state->p, v);
+
+	for (i = slice_i; i < slice_i + slice_n; i++) {
+		child_handle = pointless_recreate_convert_rec(state, &child_v[i], 1);
+
+		if (child_handle == POINTLESS_CREATE_VALUE_FAIL)
+			return POINTLESS_CREATE_VALUE_FAIL;
+
+		if (pointless_create_vector_value_append(state->c, handle, child_handle) == POINTLESS_CREATE_VALUE_FAIL) {
+			*state->error = "pointless_create_vector_value_append() failure";
+			return POINTLESS_CREATE_VALUE_FAIL;
+		}
+	}
+
+	return handle;
+}
+
+static uint32_t pointless_recreate_value_priv(pointless_t* p_in, pointless_value_t* v_in, int is_slice, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
 {
 	pointless_recreate_state_t state;
 	uint32_t handle = POINTLESS_CREATE_VALUE_FAIL;
@@ -316,7 +342,10 @@ uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, po
 		goto error;
 	}
 
-	handle = pointless_recreate_convert_rec(&state, v_in, 0);
+	if (is_slice)
+		handle = pointless_recreate_convert_slice(&state, v_in, slice_i, slice_n);
+	else
+		handle = pointless_recreate_convert_rec(&state, v_in, 0);
 
 error:
 
@@ -329,6 +358,16 @@ error:
 	return handle;
 }
 
+uint32_t pointless_recreate_value(pointless_t* p_in, pointless_value_t* v_in, pointless_create_t* c_out, const char** error)
+{
+	return pointless_recreate_value_priv(p_in, v_in, 0, 0, 0, c_out, error);
+}
+
+uint32_t pointless_recreate_vector_slice(pointless_t* p_in, pointless_value_t* v_in, uint32_t slice_i, uint32_t slice_n, pointless_create_t* c_out, const char** error)
+{
+	return pointless_recreate_value_priv(p_in, v_in, 1, slice_i, slice_n, c_out, error);
+}
+
 int pointless_recreate_64(const char* fname_in, const char* fname_out, const char** error)
 {
 	// open source
-- 
2.43.0


From 8a0b1a5116e1e6a9f986972636a9b1b479332bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 13/60] fix: refuse files with 32-bit offsets

The error was set, but the file was then read as if it had 64-bit offsets.
---
 src/pointless_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 1c0bec6..4612536 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -17,7 +17,7 @@ static int pointless_init(pointless_t* p, void* buf, uint64_t buflen, int do_val
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "32-bit offset files no longer supported";
-			break;
+			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
-- 
2.43.0


From edffd1345fed9eab2b10635c792d001773f38a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 14/60] fix: do not use a pointless object which is not open

Calling a method of one that was never opened crashed, as did using the
values of one that was opened a second time.
---
 python/pointless_object.c | 52 +++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 3e64719..9ad833b 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -51,13 +51,29 @@ static PyObject* PyPointless_new(PyTypeObject* type, PyObject* args, PyObject* k
 	return (PyObject*)self;
 }
 
+static int PyPointless_check_open(PyPointless* self)
+{
+	if (!self->is_open) {
+		PyErr_SetString(PyExc_ValueError, "pointless object is not open");
+		return 0;
+	}
+
+	return 1;
+}
+
 static PyObject* PyPointless_GetRoot(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	return pypointless_value(self, &self->p.header->root);
 }
 
 static PyObject* PyPointless_GetINode(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -79,6 +95,9 @@ static PyObject* PyPointless_GetINode(PyPointless* self)
 
 static PyObject* PyPointless_GetFileNo(PyPointless* self)
 {
+	if (!PyPointless_check_open(self))
+		return 0;
+
 	if (self->p.fd == 0) {
 		PyErr_Format(PyExc_ValueError, "pointless object is buffer-based");
 		return 0;
@@ -107,6 +126,9 @@ static PyObject* PyPointless_GetRefs(PyPointless* self)
 
 static PyObject* PyPointless_sizeof(PyPointless* self)
 {
+	if (!self->is_open)
+		return PyLong_FromUnsignedLongLong(sizeof(PyPointless));
+
 	if (self->p.fd == 0)
 		return PyLong_FromUnsignedLongLong(sizeof(PyPointless) + self->p.buflen);
 	else
@@ -133,32 +155,24 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	const char* error = 0;
 	int i = 0;
 
-	if (self->is_open) {
-		Py_BEGIN_ALLOW_THREADS
-		pointless_close(&self->p);
-		Py_END_ALLOW_THREADS
-		self->is_open = 0;
-	}
-
-	self->allow_print = 1;
-
+	// the objects handed out point into the file or buffer
 	if (self->n_root_refs != 0 ||
 		self->n_vector_refs != 0 ||
 		self->n_bitvector_refs != 0 ||
 		self->n_map_refs != 0 ||
 		self->n_set_refs != 0) {
-		printf("_WTF A: %zu\n", self->n_root_refs);
-		printf("_WTF B: %zu\n", self->n_vector_refs);
-		printf("_WTF C: %zu\n", self->n_bitvector_refs);
-		printf("_WTF D: %zu\n", self->n_map_refs);
-		printf("_WTF E: %zu\n", self->n_set_refs);
+		PyErr_SetString(PyExc_ValueError, "pointless object is still referred to");
+		return -1;
 	}
 
-	self->n_root_refs = 0;
-	self->n_vector_refs = 0;
-	self->n_bitvector_refs = 0;
-	self->n_map_refs = 0;
-	self->n_set_refs = 0;
+	if (self->is_open) {
+		self->is_open = 0;
+		Py_BEGIN_ALLOW_THREADS
+		pointless_close(&self->p);
+		Py_END_ALLOW_THREADS
+	}
+
+	self->allow_print = 1;
 
 	PyObject* allow_print = Py_True;
 	PyObject* validate = Py_True;
-- 
2.43.0


From 280dafca7fda859c4db649c718c57b9a11d63201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 15/60] fix: open files under the name they were written

Names were encoded as UTF-8 when writing and as Latin-1 when reading, so
files with other than ASCII characters in their names were not found.
---
 python/pointless_object.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index 9ad833b..c278160 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -187,11 +187,18 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	int do_validate = (validate == Py_True);
 
 	if (PyUnicode_Check(fname_or_buffer)) {
-		string_of_unicode = PyUnicode_AsLatin1String(fname_or_buffer);
+		// same encoding as when serializing to a file
+		string_of_unicode = PyUnicode_AsUTF8String(fname_or_buffer);
 
 		if (string_of_unicode == 0)
 			return -1;
 
+		if (strlen(PyBytes_AS_STRING(string_of_unicode)) != (size_t)PyBytes_GET_SIZE(string_of_unicode)) {
+			Py_DECREF(string_of_unicode);
+			PyErr_SetString(PyExc_ValueError, "embedded null character");
+			return -1;
+		}
+
 		fname_ = PyBytes_AS_STRING(string_of_unicode);
 
 	} else if (PyPointlessPrimVector_Check(fname_or_buffer)) {
-- 
2.43.0


From ce6c7d124fc69f3ccf9c3e38e879c9a5cba75b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 16/60] fix: keep the buffer from being resized while it is
 opened

It is read without holding the GIL, so another thread could free it.
---
 python/pointless_object.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/pointless_object.c b/python/pointless_object.c
index c278160..f752ecd 100644
--- a/python/pointless_object.c
+++ b/python/pointless_object.c
@@ -149,6 +149,7 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 	PyObject* fname_or_buffer = 0;
 	PyObject* string_of_unicode = 0;
 	PyPointlessPrimVector* vector = 0;
+	Py_buffer view;
 	void* buf = 0;
 	size_t buflen = 0;
 	const char* fname_ = 0;
@@ -209,16 +210,20 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 			return -1;
 		}
 
-		buf = pointless_dynarray_buffer(&vector->array);
-		buflen = pointless_dynarray_n_items(&vector->array);
-	} else if (PyByteArray_Check(fname_or_buffer)) {
-		buf = PyByteArray_AS_STRING(fname_or_buffer);
-		buflen = (size_t)PyByteArray_GET_SIZE(fname_or_buffer);
-	} else {
+	} else if (!PyByteArray_Check(fname_or_buffer)) {
 		PyErr_SetString(PyExc_ValueError, "filename_or_buffer must be string/unicode/bytearray/primvector-with-uint-8");
 		return -1;
 	}
 
+	// the buffer must not be resized while we read it without the GIL
+	if (fname_ == 0) {
+		if (PyObject_GetBuffer(fname_or_buffer, &view, PyBUF_SIMPLE) == -1)
+			return -1;
+
+		buf = view.buf;
+		buflen = (size_t)view.len;
+	}
+
 	Py_BEGIN_ALLOW_THREADS
 
 	if (do_validate) {
@@ -235,6 +240,9 @@ static int PyPointless_init(PyPointless* self, PyObject* args, PyObject* kwds)
 
 	Py_END_ALLOW_THREADS
 
+	if (fname_ == 0)
+		PyBuffer_Release(&view);
+
 	if (!i) {
 		if (fname_)
 			PyErr_Format(PyExc_IOError, "error opening [%s]: %s", fname_, error);
-- 
2.43.0


From 00618c73d9894b9542b3bbbdb2f1962216dc5827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 17/60] fix: item deletion and negative indices when assigning
 to a prim-vector

---
 python/pointless_prim_vector.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 0d5ccfc..fc4ec8f 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -606,6 +606,11 @@ static int PyPointlessPrimVector_ass_item(PyPointlessPrimVector* self, Py_ssize_
 
 static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyObject* item, PyObject* value)
 {
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "PrimVector: items can not be deleted");
+		return -1;
+	}
+
 	if (PyIndex_Check(item)) {
 		Py_ssize_t i = PyNumber_AsSsize_t(item, PyExc_IndexError);
 
@@ -613,7 +618,7 @@ static int PyPointlessPrimVector_ass_subscript(PyPointlessPrimVector* self, PyOb
 			return -1;
 
 		if (i < 0)
-			i += PyList_GET_SIZE(self);
+			i += PyPointlessPrimVector_length(self);
 
 		return PyPointlessPrimVector_ass_item(self, i, value);
 	} else {
-- 
2.43.0


From d64f3b8e77ed155974d9153dd28b5becc792d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 18/60] fix: appending a prim-vector to itself, and items which
 fail to be appended

---
 python/pointless_prim_vector.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index fc4ec8f..8e2e56e 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -377,11 +377,14 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			PyObject* item = 0;
 
 			while ((item = PyIter_Next(iterator)) != 0) {
-				if (!PyPointlessPrimVector_append_item(self, item))
-					break;
-
+				PyObject* added = PyPointlessPrimVector_append_item(self, item);
 				Py_DECREF(item);
 				item = 0;
+
+				if (added == 0)
+					break;
+
+				Py_DECREF(added);
 			}
 
 			Py_DECREF(iterator);
@@ -769,9 +772,14 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		PyPointlessPrimVector* p_obj = (PyPointlessPrimVector*)obj;
 
 		if (p_obj->type == self->type) {
-			for (i = 0; i < pointless_dynarray_n_items(&p_obj->array); i++) {
-				void* v = pointless_dynarray_item_at(&p_obj->array, i);
-				if (!pointless_dynarray_push(&self->array, v)) {
+			// the source may be the vector itself, which is re-allocated and grows as we go
+			size_t n_source = pointless_dynarray_n_items(&p_obj->array);
+
+			for (i = 0; i < n_source; i++) {
+				pypointless_number_t number;
+				memcpy(&number, pointless_dynarray_item_at(&p_obj->array, i), p_obj->array.item_size);
+
+				if (!pointless_dynarray_push(&self->array, &number)) {
 					for (j = 0; j < n_append; j++)
 						pointless_dynarray_pop(&self->array);
 
@@ -867,19 +875,22 @@ static PyObject* PyPointlessPrimVector_append_bulk(PyPointlessPrimVector* self,
 		return 0;
 
 	while ((item = PyIter_Next(iterator)) != 0) {
-		if (!PyPointlessPrimVector_append_item(self, item))
+		PyObject* added = PyPointlessPrimVector_append_item(self, item);
+		Py_DECREF(item);
+		item = 0;
+
+		if (added == 0)
 			break;
 
 		n_append += 1;
-		Py_DECREF(item);
-		item = 0;
+		Py_DECREF(added);
 	}
 
 	Py_DECREF(iterator);
 	iterator = 0;
 
 	if (PyErr_Occurred()) {
-		for (i = 0; i < n_append; i++)
+		for (i = 0; i < n_append && pointless_dynarray_n_items(&self->array) > 0; i++)
 			pointless_dynarray_pop(&self->array);
 
 		return 0;
-- 
2.43.0


From 9b157b164625ba8b75759ab4ece0dc19550f5484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 19/60] fix: do not resize a prim-vector by pop_bulk() while
 its buffer is exported

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 8e2e56e..21ebe08 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -928,6 +928,9 @@ static PyObject* PyPointlessPrimVector_pop_bulk(PyPointlessPrimVector* self, PyO
 	if (!PyArg_ParseTuple(args, "L", &n))
 		return 0;
 
+	if (!PyPointlessPrimVector_can_resize(self))
+		return 0;
+
 	if (n > 0 && (size_t)n > pointless_dynarray_n_items(&self->array)) {
 		PyErr_SetString(PyExc_ValueError, "vector is not big enough");
 		return 0;
-- 
2.43.0


From 792b8aa968aba945a92968e75b96412649658bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 20/60] fix: initialize allow_print of prim-vectors which are
 not created by a constructor

---
 python/pointless_prim_vector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 21ebe08..9145a84 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -2028,6 +2028,7 @@ static PyObject* PyPointlessPrimVector_slice(PyPointlessPrimVector* self, Py_ssi
 	if (pv == 0)
 		return 0;
 
+	pv->allow_print = self->allow_print;
 	pv->ob_exports = 0;
 	pv->type = self->type;
 	pointless_dynarray_init(&pv->array, self->array.item_size);
@@ -2204,6 +2205,7 @@ PyPointlessPrimVector* PyPointlessPrimVector_from_T_vector(pointless_dynarray_t*
 		return 0;
 	}
 
+	pv->allow_print = 1;
 	pv->ob_exports = 0;
 	pv->type = t;
 	pv->array = *v;
-- 
2.43.0


From 6e42b7ab2a66c3afafbc40d316a404963d6dea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 21/60] fix: min(), max() and range() of prim-vectors

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 9145a84..e5d7ce3 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1934,6 +1934,9 @@ static int PyPointlessPrimVector_min_max(PyPointlessPrimVector* self, size_t* mi
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 5559588ef68b30f871776c49ebef4dbb72b7998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 22/60] fix: min(), max() and range() of vectors

---
 python/pointless_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a81c4a7..cd5badd 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -573,6 +573,9 @@ static int PyPointlessVector_min_max(PyPointlessVector* self, size_t* min_i_out,
 			return 0;
 	}
 
+	*min_i_out = min_i;
+	*max_i_out = max_i;
+
 	return 1;
 }
 
-- 
2.43.0


From 8e0c7597105f8eb124115b6dc7f892e3c44db261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 23/60] fix: export the contents of vectors as read-only
 buffers

---
 python/pointless_vector.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index cd5badd..a62cf73 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -498,8 +498,15 @@ static int PyPointlessVector_getbuffer(PyPointlessVector* self, Py_buffer* view,
 	if (view == 0)
 		return 0;
 
+	if (!pointless_is_prim_vector(&self->v)) {
+		view->obj = 0;
+		PyErr_SetString(PyExc_BufferError, "only primitive vectors support this operation");
+		return -1;
+	}
+
+	// the contents are a part of a file, or somebody elses buffer
 	void* ptr = pointless_prim_vector_base_ptr(self);
-	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 0, flags);
+	return PyBuffer_FillInfo(view, (PyObject*)self, ptr, pointless_vector_n_bytes(self), 1, flags);
 }
 
 static void PyPointlessVector_releasebuffer(PyPointlessVector* obj, Py_buffer *view)
-- 
2.43.0


From c8de063ac555d9fe45cda055a69482756c3d42e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 24/60] fix: upper bound of signed projection vectors

---
 python/pointless_prim_vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index e5d7ce3..6731ea9 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1595,6 +1595,7 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 			int64_t v_a = 0;
 			uint64_t v_b = 0;
 
+			// signed values are used for both bounds, negative ones fail the lower one
 			switch (state.p_t) {
 				case POINTLESS_PRIM_VECTOR_TYPE_I8:  v_a = ((int8_t*)state.p_b)[i]; break;
 				case POINTLESS_PRIM_VECTOR_TYPE_U8:  v_b = ((uint8_t*)state.p_b)[i]; break;
@@ -1606,6 +1607,9 @@ static PyObject* PyPointlessPrimVector_sort_proj(PyPointlessPrimVector* self, Py
 				case POINTLESS_PRIM_VECTOR_TYPE_U64: v_b = ((uint64_t*)state.p_b)[i]; break;
 			}
 
+			if (v_a > 0)
+				v_b = (uint64_t)v_a;
+
 			if (i == 0 || v_a < p_min)
 				p_min = v_a;
 
-- 
2.43.0


From 327cb3243e5dd26cdfd2e2a604899998eb5ecef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 25/60] fix: free the vector when FromRemap() fails

---
 python/pointless_prim_vector.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 6731ea9..aea17f9 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1851,17 +1851,20 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 		uint64_t index = 0;
 
 		if (PyPointlessPrimVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_prim((PyPointlessPrimVector*)v_, i, &index)) {
+			pointless_dynarray_destroy(&a_);
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
 			return 0;
 		}
 
 		if (PyPointlessVector_Check(v_) && !PyPointlessPrimVector_from_remap_index_vector_pointless((PyPointlessVector*)v_, i, &index)) {
+			pointless_dynarray_destroy(&a_);
 			PyErr_SetString(PyExc_ValueError, "index vector negative or of the wrong type");
 			return 0;
 		}
 
 		// check for bounds
 		if (index >= n_source) {
+			pointless_dynarray_destroy(&a_);
 			PyErr_SetString(PyExc_ValueError, "index vector out of bounds");
 			return 0;
 		}
-- 
2.43.0


From 9acafe08255cf321e4ce56e41e145fee153a9e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 26/60] fix: leave a prim-vector consistent when it can not be
 initialized

---
 python/pointless_prim_vector.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index aea17f9..f3f65a3 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -477,8 +477,12 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 
 cleanup:
 
-	if (retval == -1)
+	// a vector which could not be initialized is an empty one
+	if (retval == -1) {
 		pointless_dynarray_clear(&self->array);
+		pointless_dynarray_init(&self->array, sizeof(int8_t));
+		self->type = POINTLESS_PRIM_VECTOR_TYPE_I8;
+	}
 
 	if (buffer.obj)
 		PyBuffer_Release(&buffer);
-- 
2.43.0


From 10666836072ab69d42778b6b9a7eddca6c6d90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 27/60] fix: deletion of bitvector items

---
 python/pointless_bitvector.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index c1bda51..54e3d77 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -258,6 +258,11 @@ static int PyPointlessBitvector_ass_subscript(PyPointlessBitvector* self, PyObje
 		return -1;
 	}
 
+	if (value == 0) {
+		PyErr_SetString(PyExc_TypeError, "BitVector: items can not be deleted");
+		return -1;
+	}
+
 	// get the index
 	Py_ssize_t i;
 
-- 
2.43.0


From cfc9a2c8d4fb994e73b271f45041a899ad897987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 28/60] fix: count of set bits, and printing of copies, of
 bitvectors

---
 python/pointless_bitvector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 54e3d77..4918b4c 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -649,13 +649,17 @@ static PyObject* PyPointlessBitvector_append_bulk(PyPointlessBitvector* self, Py
 	}
 
 	size_t n_before = self->primitive_n_bits;
+	size_t n_other = (size_t)PyPointlessBitvector_length(other);
 
-	if (!PyPointlessBitvector_extend_by(self, PyPointlessBitvector_length(other), 0))
+	if (!PyPointlessBitvector_extend_by(self, (uint32_t)n_other, 0))
 		return 0;
 
-	for (size_t i = 0; i < PyPointlessBitvector_length(other); i++) {
-		if (PyPointlessBitvector_is_set(other, i))
+	// the other bitvector may be ourselves, in which case it has just been extended
+	for (size_t i = 0; i < n_other; i++) {
+		if (PyPointlessBitvector_is_set(other, i)) {
 			bm_set_(self->primitive_bits, n_before + i);
+			self->primitive_n_one += 1;
+		}
 	}
 
 	Py_INCREF(Py_None);
@@ -700,6 +704,7 @@ static PyObject* PyPointlessBitvector_pop(PyPointlessBitvector* self)
 	self->primitive_n_bits -= 1;
 
 	if (is_set) {
+		self->primitive_n_one -= 1;
 		Py_RETURN_TRUE;
 	} else {
 		Py_RETURN_FALSE;
@@ -747,6 +752,7 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 	}
 
 	pv->is_pointless = 0;
+	pv->allow_print = (self->is_pointless || self->allow_print);
 	pv->pp = 0;
 	pv->primitive_n_bytes_alloc = n_bytes;
 	pv->primitive_n_bits = n_bits;
-- 
2.43.0


From d2795332442f9c5cccca513f429f62babe8dfd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 29/60] fix: references and errors when creating a bitvector
 from a sequence

---
 python/pointless_bitvector.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index 4918b4c..e9d0897 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -150,9 +150,6 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 		while ((obj = PyIter_Next(sequence_iterator)) != 0) {
 			if (!PyPointlessBitvector_extend_by(self, 1, 0)) {
 				is_error = 1;
-			// 0) PyIter_Next() failure
-			} else if (obj == 0) {
-				is_error = 1;
 			// 1) boolean
 			} else if (PyBool_Check(obj)) {
 				if (obj == Py_True) {
@@ -175,7 +172,10 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 				is_error = 1;
 			}
 
+			Py_DECREF(obj);
+
 			if (is_error) {
+				Py_DECREF(sequence_iterator);
 				pointless_free(self->primitive_bits);
 				self->primitive_n_bits = 0;
 				self->primitive_bits = 0;
@@ -190,6 +190,18 @@ static int PyPointlessBitvector_init(PyPointlessBitvector* self, PyObject* args,
 
 			i += 1;
 		}
+
+		Py_DECREF(sequence_iterator);
+
+		// PyIter_Next() failure
+		if (PyErr_Occurred()) {
+			pointless_free(self->primitive_bits);
+			self->primitive_n_bits = 0;
+			self->primitive_bits = 0;
+			self->primitive_n_bytes_alloc = 0;
+			self->primitive_n_one = 0;
+			return -1;
+		}
 	}
 
 	return 0;
-- 
2.43.0


From 6cf007b24e691ffc1a9a06ae949c3aa032eff261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 30/60] fix: compare integers with floats exactly

---
 src/pointless_cmp.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index d40e3eb..e1aea14 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -165,15 +165,15 @@ static int32_t pointless_cmp_int_float(uint32_t t_a, pointless_complete_value_da
 	// float, int
 	} else if (t_a == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_b))
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_signed(t_b, v_b));
+			return SIMPLE_CMP((long double)v_a->data_f, (long double)pointless_int_value_signed(t_b, v_b));
 		else
-			return SIMPLE_CMP(v_a->data_f, (float)pointless_int_value_unsigned(t_b, v_b));
+			return SIMPLE_CMP((long double)v_a->data_f, (long double)pointless_int_value_unsigned(t_b, v_b));
 	// int, float
 	} else if (t_b == POINTLESS_FLOAT) {
 		if (pointless_is_signed(t_a))
-			return SIMPLE_CMP((float)pointless_int_value_signed(t_a, v_a), v_b->data_f);
+			return SIMPLE_CMP((long double)pointless_int_value_signed(t_a, v_a), (long double)v_b->data_f);
 		else
-			return SIMPLE_CMP((float)pointless_int_value_unsigned(t_a, v_a), v_b->data_f);
+			return SIMPLE_CMP((long double)pointless_int_value_unsigned(t_a, v_a), (long double)v_b->data_f);
 	// int, int
 	} else {
 		// ss
-- 
2.43.0


From 7622ca43024faabb876053ddc62b8fee8710ec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 31/60] fix: compare items of 64-bit vectors with Python
 objects

---
 python/pointless_pyobject_cmp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 37ae63f..6ee47a6 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -126,6 +126,8 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 		switch (*type) {
 			case POINTLESS_I32:
 			case POINTLESS_U32:
+			case POINTLESS_I64:
+			case POINTLESS_U64:
 			case POINTLESS_FLOAT:
 			case POINTLESS_BOOLEAN:
 				return pypointless_cmp_int_float_bool;
-- 
2.43.0


From c5857fa4958fc39c9aeda1c0c340c033cabac751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 32/60] fix: a key is different from one of another kind with
 the same hash

---
 python/pointless_pyobject_cmp.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 6ee47a6..225889b 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -21,6 +21,7 @@ typedef struct {
 	pointless_t* pointless;
 	const char* error;
 	uint32_t depth;
+	int32_t is_eq; // true iff: values of different kinds are different, and not an error
 } pypointless_cmp_state_t;
 
 // number values
@@ -560,6 +561,10 @@ static int32_t pypointless_cmp_rec(pypointless_cmp_value_t* a, pypointless_cmp_v
 	pypointless_cmp_cb cmp_b = pypointless_cmp_func(b, &t_b, state);
 	int32_t c;
 
+	// we're only testing for equality, and they can not be equal
+	if (state->is_eq && state->error == 0 && cmp_a != cmp_b)
+		return 1;
+
 	// we're going one deep
 	state->depth += 1;
 
@@ -589,6 +594,7 @@ uint32_t pypointless_cmp_eq(pointless_t* p, pointless_complete_value_t* v, PyObj
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 1;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -625,6 +631,7 @@ PyObject* pointless_cmp(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
@@ -661,6 +668,7 @@ PyObject* pointless_is_eq(PyObject* self, PyObject* args)
 
 	state.error = 0;
 	state.depth = 0;
+	state.is_eq = 0;
 
 	c = pypointless_cmp_rec(&v_a, &v_b, &state);
 
-- 
2.43.0


From 5ae303ca2ff0ed2a494b85a4624863dad2e95fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 33/60] fix: compare Python strings containing zeros by their
 whole length

---
 python/pointless_pyobject_cmp.c | 52 +++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 225889b..98e5e6d 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -268,6 +268,54 @@ static _var_string_t pypointless_cmp_extract_string(pypointless_cmp_value_t* v,
 	return s;
 }
 
+static uint32_t pypointless_cmp_string_char_at(_var_string_t* s, size_t i)
+{
+	switch (s->n_bits) {
+		case 8:
+			return s->string.string_8[i];
+		case 16:
+			return s->string.string_16[i];
+	}
+
+	return s->string.string_32[i];
+}
+
+static size_t pypointless_cmp_string_len(pypointless_cmp_value_t* v, _var_string_t* s)
+{
+	size_t n = 0;
+
+	if (!v->is_pointless)
+		return (size_t)PyUnicode_GET_LENGTH(v->value.py_object);
+
+	while (pypointless_cmp_string_char_at(s, n) != 0)
+		n += 1;
+
+	return n;
+}
+
+static int pypointless_cmp_has_zero(pypointless_cmp_value_t* v)
+{
+	if (v->is_pointless)
+		return 0;
+
+	return (PyUnicode_FindChar(v->value.py_object, 0, 0, PyUnicode_GET_LENGTH(v->value.py_object), 1) >= 0);
+}
+
+static int32_t pypointless_cmp_string_unicode_zero(_var_string_t* s_a, size_t n_a, _var_string_t* s_b, size_t n_b)
+{
+	size_t i;
+
+	for (i = 0; i < n_a && i < n_b; i++) {
+		uint32_t c_a = pypointless_cmp_string_char_at(s_a, i);
+		uint32_t c_b = pypointless_cmp_string_char_at(s_b, i);
+
+		if (c_a != c_b)
+			return SIMPLE_CMP(c_a, c_b);
+	}
+
+	return SIMPLE_CMP(n_a, n_b);
+}
+
 static int32_t pypointless_cmp_string_unicode(pypointless_cmp_value_t* a, pypointless_cmp_value_t* b, pypointless_cmp_state_t* state)
 {
 	_var_string_t s_a = pypointless_cmp_extract_string(a, state);
@@ -283,6 +331,10 @@ static int32_t pypointless_cmp_string_unicode(pypointless_cmp_value_t* a, pypoin
 	assert(s_a.n_bits == 8 || s_a.n_bits == 16 || s_a.n_bits == 32);
 	assert(s_b.n_bits == 8 || s_b.n_bits == 16 || s_b.n_bits == 32);
 
+	// Python strings can contain zeros, in which case they're not zero-terminated
+	if (pypointless_cmp_has_zero(a) || pypointless_cmp_has_zero(b))
+		return pypointless_cmp_string_unicode_zero(&s_a, pypointless_cmp_string_len(a, &s_a), &s_b, pypointless_cmp_string_len(b, &s_b));
+
 	if (s_a.n_bits == 8 && s_b.n_bits == 8)
 		return pointless_cmp_string_8_8(s_a.string.string_8, s_b.string.string_8);
 	if (s_a.n_bits == 8 && s_b.n_bits == 16)
-- 
2.43.0


From 49fd578c6e49c2a7cf6fac500c353e6a90d4a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 34/60] fix: look up and compare prim-vectors, which have a
 hash already

---
 python/pointless_pyobject_cmp.c | 44 +++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/python/pointless_pyobject_cmp.c b/python/pointless_pyobject_cmp.c
index 98e5e6d..33f3263 100644
--- a/python/pointless_pyobject_cmp.c
+++ b/python/pointless_pyobject_cmp.c
@@ -207,6 +207,11 @@ static pypointless_cmp_cb pypointless_cmp_func(pypointless_cmp_value_t* v, uint3
 			return pypointless_cmp_vector;
 		}
 
+		if (PyPointlessPrimVector_Check(py_object)) {
+			*type = POINTLESS_VECTOR_VALUE;
+			return pypointless_cmp_vector;
+		}
+
 		if (PyPointlessBitvector_Check(py_object)) {
 			*type = POINTLESS_BITVECTOR;
 			return pypointless_cmp_bitvector;
@@ -480,6 +485,9 @@ static uint32_t pypointless_cmp_vector_n_items(pypointless_cmp_value_t* a)
 		return a->value.pointless.vector_slice_n;
 	}
 
+	if (PyPointlessPrimVector_Check(a->value.py_object))
+		return (uint32_t)pointless_dynarray_n_items(&((PyPointlessPrimVector*)a->value.py_object)->array);
+
 	assert(PyList_Check(a->value.py_object) || PyTuple_Check(a->value.py_object));
 
 	if (PyList_Check(a->value.py_object)) {
@@ -489,6 +497,35 @@ static uint32_t pypointless_cmp_vector_n_items(pypointless_cmp_value_t* a)
 	return (uint32_t)PyTuple_GET_SIZE(a->value.py_object);
 }
 
+static pointless_complete_value_t pypointless_cmp_prim_vector_item_at(PyPointlessPrimVector* v, uint32_t i)
+{
+	void* item = pointless_dynarray_item_at(&v->array, i);
+
+	switch (v->type) {
+		case POINTLESS_PRIM_VECTOR_TYPE_I8:
+			return pointless_complete_value_create_as_read_i32((int32_t)(*((int8_t*)item)));
+		case POINTLESS_PRIM_VECTOR_TYPE_U8:
+			return pointless_complete_value_create_as_read_u32((uint32_t)(*((uint8_t*)item)));
+		case POINTLESS_PRIM_VECTOR_TYPE_I16:
+			return pointless_complete_value_create_as_read_i32((int32_t)(*((int16_t*)item)));
+		case POINTLESS_PRIM_VECTOR_TYPE_U16:
+			return pointless_complete_value_create_as_read_u32((uint32_t)(*((uint16_t*)item)));
+		case POINTLESS_PRIM_VECTOR_TYPE_I32:
+			return pointless_complete_value_create_as_read_i32(*((int32_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U32:
+			return pointless_complete_value_create_as_read_u32(*((uint32_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_I64:
+			return pointless_complete_value_create_as_read_i64(*((int64_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_U64:
+			return pointless_complete_value_create_as_read_u64(*((uint64_t*)item));
+		case POINTLESS_PRIM_VECTOR_TYPE_FLOAT:
+			return pointless_complete_value_create_as_read_float(*((float*)item));
+	}
+
+	assert(0);
+	return pointless_complete_value_create_as_read_null();
+}
+
 static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_value_t* v, uint32_t i)
 {
 	// our return value
@@ -508,6 +545,13 @@ static pypointless_cmp_value_t pypointless_cmp_vector_item_at(pypointless_cmp_va
 			r.value.pointless.vector_slice_i = 0;
 			r.value.pointless.vector_slice_n = pointless_reader_vector_n_items(v->value.pointless.p, &_v);
 		}
+	// inline numbers
+	} else if (PyPointlessPrimVector_Check(v->value.py_object)) {
+		r.is_pointless = 1;
+		r.value.pointless.p = 0;
+		r.value.pointless.v = pypointless_cmp_prim_vector_item_at((PyPointlessPrimVector*)v->value.py_object, i);
+		r.value.pointless.vector_slice_i = 0;
+		r.value.pointless.vector_slice_n = 0;
 	// PyObject
 	} else {
 		r.is_pointless = 0;
-- 
2.43.0


From fe07932ce22538c2ccaad45911f5136652dde037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 35/60] fix: hash items of 64-bit prim-vectors as those of
 64-bit vectors

---
 src/pointless_hash.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 410ef27..55df066 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -78,18 +78,13 @@ uint32_t pointless_hash_u32_32(uint32_t v)
 
 uint32_t pointless_hash_i64_32(int64_t v)
 {
-	union {
-		int64_t i;
-		uint64_t u;
-	} h;
-
-	h.i = v;
-	return (uint32_t)(h.u % UINT32_MAX);
+	// this must match the hash of the items of 64-bit vectors
+	return (uint32_t)v;
 }
 
 uint32_t pointless_hash_u64_32(uint64_t v)
 {
-	return (uint32_t)(v % UINT32_MAX);
+	return (uint32_t)v;
 }
 
 uint32_t pointless_hash_bool_true_32()
-- 
2.43.0


From 622b086817031f9614a8e00b382c23b12d419278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 36/60] fix: vectors with items which are not hashable are not
 hashable

---
 include/pointless/pointless_defs.h  |  5 ++++
 python/pointless_pyobject_hash.c    |  2 +-
 src/pointless_create.c              |  4 +--
 src/pointless_hash.c                | 41 +++++++++++++++++++++++++++++
 src/pointless_reader.c              |  4 +--
 src/pointless_validate_hash_table.c |  2 +-
 6 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/include/pointless/pointless_defs.h b/include/pointless/pointless_defs.h
index 8168f68..688c4ca 100644
--- a/include/pointless/pointless_defs.h
+++ b/include/pointless/pointless_defs.h
@@ -380,6 +380,11 @@ uint32_t pointless_vector_hash_end_32(pointless_vector_hash_state_32_t* state);
 
 uint32_t pointless_is_hashable(uint32_t type);
 
+// a vector is hashable only if all its items are hashable as well
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v);
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n);
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v);
+
 uint32_t pointless_hash_unicode_ucs4_v1_32(uint32_t* s);
 uint32_t pointless_hash_unicode_ucs2_v1_32(uint16_t* s);
 uint32_t pointless_hash_string_v1_32(uint8_t* s);
diff --git a/python/pointless_pyobject_hash.c b/python/pointless_pyobject_hash.c
index e5083d4..4fc95be 100644
--- a/python/pointless_pyobject_hash.c
+++ b/python/pointless_pyobject_hash.c
@@ -198,7 +198,7 @@ static uint32_t pyobject_hash_rec_32(PyObject* py_object, pyobject_hash_state_t*
 		p = &((PyPointlessVector*)py_object)->pp->p;
 		v = ((PyPointlessVector*)py_object)->v;
 
-		if (!pointless_is_hashable(v.type)) {
+		if (!pointless_is_hashable_reader_vector(p, &v, ((PyPointlessVector*)py_object)->slice_i, ((PyPointlessVector*)py_object)->slice_n)) {
 			*state->error = "pointless type is not hashable";
 			return 0;
 		}
diff --git a/src/pointless_create.c b/src/pointless_create.c
index a0af3eb..11fd8ea 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -114,8 +114,8 @@ static int pointless_hash_table_create(pointless_create_t* c, uint32_t hash_tabl
 
 	// compute all the key hashes
 	for (i = 0; i < n_keys; i++) {
-		if (!pointless_is_hashable(cv_value_type(keys_vector_ptr[i]))) {
-			*error = "pointless_hash_table_create(): internal error: key not hashable";
+		if (!pointless_is_hashable_create(c, cv_value_at(keys_vector_ptr[i]))) {
+			*error = "pointless_hash_table_create(): key not hashable";
 			goto cleanup;
 		}
 
diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 55df066..1599651 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -468,6 +468,47 @@ uint32_t pointless_is_hashable(uint32_t type)
 	return (pointless_hash_reader_func_32(type) != 0);
 }
 
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
+{
+	uint32_t j;
+
+	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		pointless_value_t* items = pointless_reader_vector_value(p, v);
+
+		for (j = i; j < i + n; j++) {
+			if (!pointless_is_hashable_reader(p, &items[j]))
+				return 0;
+		}
+	}
+
+	return pointless_is_hashable(v->type);
+}
+
+uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
+{
+	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE)
+		return pointless_is_hashable_reader_vector(p, v, 0, pointless_reader_vector_n_items(p, v));
+
+	return pointless_is_hashable(v->type);
+}
+
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v)
+{
+	uint32_t i;
+
+	// outside vectors hold no values
+	if (v->header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE && !v->header.is_outside_vector) {
+		pointless_dynarray_t* items = &cv_get_priv_vector(v)->vector;
+
+		for (i = 0; i < pointless_dynarray_n_items(items); i++) {
+			if (!pointless_is_hashable_create(c, cv_value_at(pointless_dynarray_ITEM_AT(uint32_t, items, i))))
+				return 0;
+		}
+	}
+
+	return pointless_is_hashable(v->header.type_29);
+}
+
 uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
 {
 	assert(pointless_is_hashable(v->type));
diff --git a/src/pointless_reader.c b/src/pointless_reader.c
index 4612536..0f2c21d 100644
--- a/src/pointless_reader.c
+++ b/src/pointless_reader.c
@@ -419,7 +419,7 @@ uint32_t pointless_reader_set_iter(pointless_t* p, pointless_value_t* s, pointle
 void pointless_reader_set_lookup(pointless_t* p, pointless_value_t* s, pointless_value_t* k, pointless_value_t** kk, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
@@ -607,7 +607,7 @@ uint32_t pointless_reader_set_iter_hash(pointless_t* p, pointless_value_t* s, ui
 void pointless_reader_map_lookup(pointless_t* p, pointless_value_t* m, pointless_value_t* k, pointless_value_t** kk, pointless_value_t** vv, const char** error)
 {
 	// value must be hashable
-	if (!pointless_is_hashable(k->type)) {
+	if (!pointless_is_hashable_reader(p, k)) {
 		*error = "value is not hashable";
 		return;
 	}
diff --git a/src/pointless_validate_hash_table.c b/src/pointless_validate_hash_table.c
index 9b3c5b6..286ff81 100644
--- a/src/pointless_validate_hash_table.c
+++ b/src/pointless_validate_hash_table.c
@@ -36,7 +36,7 @@ int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t
 	// make sure hashes match the given object
 	for (i = 0; i < n_buckets; i++) {
 		// make sure it is hashable
-		if (!pointless_is_hashable(key_vector[i].type)) {
+		if (!pointless_is_hashable_reader(p, &key_vector[i])) {
 			*error = "key in set/map is not hashable";
 			return 0;
 		}
-- 
2.43.0


From c2f72c8ce2b27b544e5b514b21b31aa0ed9b08fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 37/60] fix: mark all containers which are in a cycle

---
 src/pointless_cycle_marker.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pointless_cycle_marker.c b/src/pointless_cycle_marker.c
index 1823c1a..cf9a929 100644
--- a/src/pointless_cycle_marker.c
+++ b/src/pointless_cycle_marker.c
@@ -54,10 +54,13 @@ typedef struct {
 	Pvoid_t component_judy;
 	Pvoid_t root_judy;
 
+	// pre-order number of the next container
+	Word_t count;
+
 	pointless_dynarray_t stack;
 } pointless_cycle_marker_state_t;
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth);
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth);
 
 //static void print_depth(uint32_t depth)
 //{
@@ -66,7 +69,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 //		printf("   ");
 //}
 
-static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, Word_t count, uint32_t depth)
+static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id, uint64_t w, uint32_t depth)
 {
 	if (!(*state->cb_info->fn_is_container)(state->cb_info->user, w))
 		return;
@@ -80,7 +83,7 @@ static void process_child(pointless_cycle_marker_state_t* state, uint32_t v_id,
 	if (PValue == 0) {
 		//print_depth(depth); printf(" w is not in visited, so visit(w = %u, count = %llu)\n", (unsigned int)w_id, (unsigned long long)count);
 
-		pointless_cycle_marker_visit(state, w, count, depth + 1);
+		pointless_cycle_marker_visit(state, w, depth + 1);
 
 		if (state->error)
 			return;
@@ -137,7 +140,7 @@ static void _unpack_map_and_vector(uint64_t v, uint32_t* owner, uint32_t* value)
 //	return buffer;
 //}
 
-static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, Word_t count, uint32_t depth)
+static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state, uint64_t v, uint32_t depth)
 {
 	assert((*state->cb_info->fn_is_container)(state->cb_info->user, v));
 
@@ -146,6 +149,9 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 		return;
 	}
 
+	// each container gets its own number, in the order they are visited
+	Word_t count = state->count++;
+
 	if (count >= (Word_t)((*state->cb_info->fn_n_nodes)(state->cb_info->user))) {
 		//printf("B depth %u, count %u\n", depth, (unsigned int)count);
 		state->error = "internal error: pre-order count exceeds number of containers";
@@ -212,7 +218,7 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			}
 		}
 
-		process_child(state, v_id, child, count + 1, depth + 1);
+		process_child(state, v_id, child, depth + 1);
 
 		if (state->error)
 			return;
@@ -259,6 +265,9 @@ static void pointless_cycle_marker_visit(pointless_cycle_marker_state_t* state,
 			//printf("B marking %u\n", w_id);
 			bm_set_(state->cycle_marker, w_id);
 
+			// the root of the component is in the same cycle
+			bm_set_(state->cycle_marker, v_id);
+
 			// component[w] = root[v]
 			Word_t* PValue = (Word_t*)(Pvoid_t)JudyLIns(&state->component_judy, (Word_t)w_id, 0);
 
@@ -292,6 +301,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	state.visited_judy = 0;
 	state.component_judy = 0;
 	state.root_judy = 0;
+	state.count = 0;
 	pointless_dynarray_init(&state.stack, sizeof(uint32_t));
 
 	if (state.cycle_marker == 0) {
@@ -302,7 +312,7 @@ void* pointless_cycle_marker(cycle_marker_info_t* info, const char** error)
 	root = (*info->fn_get_root)(state.cb_info->user);
 
 	if ((*info->fn_is_container)(state.cb_info->user, root))
-		pointless_cycle_marker_visit(&state, root, 0, 0);
+		pointless_cycle_marker_visit(&state, root, 0);
 
 	if (state.error)
 		goto error_cleanup;
-- 
2.43.0


From eebe08587c7801b36579cf262fdb48e7ecbf32e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 38/60] fix: is_hashable of vectors, and vectors which are not
 created from a file

---
 pointless_ext.h           |  1 -
 python/pointless_vector.c | 24 ++++++++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/pointless_ext.h b/pointless_ext.h
index 19b185e..aa96326 100644
--- a/pointless_ext.h
+++ b/pointless_ext.h
@@ -33,7 +33,6 @@ typedef struct {
 	PyPointless* pp;
 	pointless_value_t v;
 	unsigned long container_id;
-	int is_hashable;
 
 	// slice params, must be respected at all times
 	uint32_t slice_i;
diff --git a/python/pointless_vector.c b/python/pointless_vector.c
index a62cf73..5dae6fc 100644
--- a/python/pointless_vector.c
+++ b/python/pointless_vector.c
@@ -30,8 +30,9 @@ static PyObject* PyPointlessVector_new(PyTypeObject* type, PyObject* args, PyObj
 
 	if (self) {
 		self->pp = 0;
+		self->v.type = POINTLESS_VECTOR_EMPTY;
+		self->v.data.data_u32 = 0;
 		self->container_id = 0;
-		self->is_hashable = 0;
 		self->slice_i = 0;
 		self->slice_n = 0;
 	}
@@ -699,14 +700,24 @@ static PyObject* PyPointlessVector_bisect_left(PyPointlessVector* self, PyObject
 	return PyLong_FromLongLong((PY_LONG_LONG)i);
 }
 
+static PyObject* PyPointlessVector_get_is_hashable(PyPointlessVector* self, void* closure)
+{
+	long is_hashable = 0;
+
+	if (self->pp)
+		is_hashable = (long)pointless_is_hashable_reader_vector(&self->pp->p, &self->v, self->slice_i, self->slice_n);
+
+	return PyLong_FromLong(is_hashable);
+}
+
 static PyGetSetDef PyPointlessVector_getsets [] = {
+	{"is_hashable", (getter)PyPointlessVector_get_is_hashable, 0, "1 if the vector can be a key in a set or map, otherwise 0"},
 	{"typecode", (getter)PyPointlessVector_get_typecode, 0, "the typecode character used to create the vector"},
 	{NULL}
 };
 
 static PyMemberDef PyPointlessVector_memberlist[] = {
 	{"container_id",  T_ULONG, offsetof(PyPointlessVector, container_id), READONLY},
-	{"is_hashable", T_INT, offsetof(PyPointlessVector, is_hashable), READONLY},
 	{NULL}
 };
 
@@ -821,15 +832,16 @@ PyPointlessVector* PyPointlessVector_New(
 	if (pv == 0)
 		return 0;
 
-	Py_INCREF(pp);
-	pp->n_vector_refs += 1;
+	Py_XINCREF(pp);
+
+	if (pp)
+		pp->n_vector_refs += 1;
 
 	pv->pp = pp;
 	pv->v = *v;
 
 	// the container ID is unique between all non-empty vectors, maps and sets
-	pv->container_id = (unsigned long)pointless_container_id(&pp->p, v);
-	pv->is_hashable = (int)pointless_is_hashable(v->type);
+	pv->container_id = pp ? (unsigned long)pointless_container_id(&pp->p, v) : 0;
 
 	pv->slice_i = slice_i;
 	pv->slice_n = slice_n;
-- 
2.43.0


From 6b7622194de17f6839e6d35a057428cb3ffd6ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 39/60] fix: do not instantiate sets directly

---
 python/pointless_set.c | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/python/pointless_set.c b/python/pointless_set.c
index ed590db..5351720 100644
--- a/python/pointless_set.c
+++ b/python/pointless_set.c
@@ -20,18 +20,6 @@ static void PyPointlessSetIter_dealloc(PyPointlessSetIter* self)
 	Py_TYPE(self)->tp_free(self);
 }
 
-PyObject* PyPointlessSet_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
-{
-	PyPointlessSet* self = (PyPointlessSet*)type->tp_alloc(type, 0);
-
-	if (self) {
-		self->pp = 0;
-		self->container_id = 0;
-	}
-
-	return (PyObject*)self;
-}
-
 PyObject* PyPointlessSetIter_new(PyTypeObject* type, PyObject* args, PyObject* kwds)
 {
 	PyPointlessSetIter* self = (PyPointlessSetIter*)type->tp_alloc(type, 0);
@@ -171,7 +159,7 @@ PyTypeObject PyPointlessSetType = {
 	0,                                   /*tp_dictoffset */
 	0,       /*tp_init */
 	0,                                   /*tp_alloc */
-	PyPointlessSet_new,                  /*tp_new */
+	0,                                   /*tp_new */
 };
 
 PyTypeObject PyPointlessSetIterType = {
-- 
2.43.0


From 04dc79a35d1b2c1ee2c5f5bbae20f51ea1ac7297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 40/60] fix: name of intop_u32_mult()

---
 src/pointless_int_ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 90a77bd..2d1ffec 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -32,7 +32,7 @@ intop_u64_t intop_u64_mult(intop_u64_t a, intop_u64_t b)
 	return c;
 }
 
-intop_u32_t uintop_32_mult(intop_u32_t a, intop_u32_t b)
+intop_u32_t intop_u32_mult(intop_u32_t a, intop_u32_t b)
 {
 	intop_u32_t c;
 
-- 
2.43.0


From e44c37ce893cc2f62c25600f188f27ad231eb9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 41/60] fix: order of operands in integer expressions

---
 src/pointless_int_ops.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index 2d1ffec..ff120e0 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -234,9 +234,13 @@ static void intop_eval_Em(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_T(c);
-		intop_eval_Em(c);
 
+		if (intop_check_error(c))
+			return;
+
+		// operators are left-associative
 		intop_eval_push(c, &c->tokens[i]);
+		intop_eval_Em(c);
 	}
 }
 
@@ -260,9 +264,12 @@ static void intop_eval_Tm(intop_eval_context_t* c)
 		int i = c->i;
 		c->i += 1;
 		intop_eval_F(c);
-		intop_eval_Tm(c);
+
+		if (intop_check_error(c))
+			return;
 
 		intop_eval_push(c, &c->tokens[i]);
+		intop_eval_Tm(c);
 	}
 }
 
@@ -476,8 +483,8 @@ int intop_eval_eval(intop_eval_context_t* c, uint64_t* r, const char** error, ..
 				assert(c->e_n >= 2);
 				assert(c->eval[c->e_n - 1].type == INTOP_EVAL_NUMBER);
 				assert(c->eval[c->e_n - 2].type == INTOP_EVAL_NUMBER);
-				a = c->eval[c->e_n - 1].number;
-				b = c->eval[c->e_n - 2].number;
+				a = c->eval[c->e_n - 2].number;
+				b = c->eval[c->e_n - 1].number;
 				c->eval[c->e_n - 2].type = INTOP_EVAL_NUMBER;
 
 				if (c->stack[i].type == INTOP_EVAL_SUB) {
-- 
2.43.0


From c5b655a72e25f82db61a90ca126d84cb6bdc1abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 42/60] fix: signed literals, and items of 64-bit vectors, in
 pointless_eval_get()

---
 src/pointless_eval.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pointless_eval.c b/src/pointless_eval.c
index d3406a5..eb2bccc 100644
--- a/src/pointless_eval.c
+++ b/src/pointless_eval.c
@@ -61,13 +61,12 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		// integer
 		case '-':
-			is_neg = 1;
-			break;
 		case '+':
+			is_neg = (*e == '-');
 			e += 1;
 			if (!('0' <= *e && *e  <= '9'))
 				return 0;
-			break;
+			// fall through
 		case '0':
 		case '1':
 		case '2':
@@ -163,6 +162,11 @@ static const char* pointless_eval_get_single(pointless_t* p, pointless_value_t*
 
 		if (pointless_is_vector_type(root->type)) {
 			pointless_complete_value_t v = pointless_reader_vector_value_case(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i);
+
+			// 64-bit integers do not fit in a value
+			if (v.type == POINTLESS_I64 || v.type == POINTLESS_U64)
+				return 0;
+
 			*root = pointless_value_from_complete(&v);
 		} else {
 			if (pointless_reader_bitvector_is_set(p, root, is_unsigned ? (uint32_t)v_u : (uint32_t)v_i))
-- 
2.43.0


From 2bbb88a8277d6ce7f20f9bd118cfd0e6a4e683ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 43/60] fix: hash unicode keys as unicode

---
 src/pointless_reader_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index f70553b..38651a4 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -290,13 +290,13 @@ int pointless_get_mapping_string_n_to_value(pointless_t* p, pointless_value_t* m
 
 int pointless_get_mapping_unicode_to_value(pointless_t* p, pointless_value_t* map, uint32_t* key, pointless_value_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, get_value, 0, (void*)value);
 }
 
 int pointless_get_mapping_unicode_to_u32(pointless_t* p, pointless_value_t* map, uint32_t* key, uint32_t* value)
 {
-	uint32_t hash = pointless_hash_string_v1_32((uint8_t*)key);
+	uint32_t hash = pointless_hash_unicode_ucs4_v1_32(key);
 	return pointless_get_map_(p, map, hash, check_unicode, (void*)key, check_and_get_u32, 0, (void*)value);
 }
 
-- 
2.43.0


From 24974cc7411503a98c585c364c5eae6ca528765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 44/60] fix: refuse sets and maps with too many items for their
 buckets

---
 src/pointless_validate_hash_table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pointless_validate_hash_table.c b/src/pointless_validate_hash_table.c
index 286ff81..9fd7250 100644
--- a/src/pointless_validate_hash_table.c
+++ b/src/pointless_validate_hash_table.c
@@ -2,7 +2,8 @@
 
 int32_t pointless_hash_table_validate(pointless_t* p, uint32_t n_items, uint32_t n_buckets, uint32_t* hash_vector, pointless_value_t* key_vector, pointless_value_t* value_vector, const char** error)
 {
-	if (pointless_hash_compute_n_buckets(n_items) != n_buckets) {
+	// there must be room for at least one empty slot, and the number of items may be anything
+	if (n_items >= n_buckets || pointless_hash_compute_n_buckets(n_items) != n_buckets) {
 		*error = "invalid number of buckets in hash table";
 		return 0;
 	}
-- 
2.43.0


From e46d480932996d7a004b8fdbddba29a97129c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 45/60] fix: check every reference to a vector in a cycle

---
 src/pointless_validate.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/pointless_validate.c b/src/pointless_validate.c
index 5ad869b..819cb08 100644
--- a/src/pointless_validate.c
+++ b/src/pointless_validate.c
@@ -73,6 +73,17 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 	if (state->pass == 1 && !pointless_validate_heap_ref(state->context, v, &state->error))
 		return POINTLESS_WALK_STOP;
 
+	// pass-2, cycle validation, only hashable vectors can not be in a cycle. the same vector might be
+	// referred to as hashable and non-hashable, so this is done for each reference
+	if (state->pass == 2 && v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		uint32_t container_id = pointless_container_id(p, v);
+
+		if (bm_is_set_(state->cycle_marker, container_id)) {
+			state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
+			return POINTLESS_WALK_STOP;
+		}
+	}
+
 	// if we have validate this container already, stop iterating downwards, otherwise, mark it as visited
 	switch (v->type) {
 		case POINTLESS_VECTOR_VALUE:
@@ -106,17 +117,6 @@ static uint32_t pointless_validate_pass_cb(pointless_t* p, pointless_value_t* v,
 
 		if (!pointless_validate_heap_value(state->context, v, &state->error))
 			return POINTLESS_WALK_STOP;
-	// pass-2, cycle validation
-	} else if (state->pass == 2) {
-		// only hashable vector can not be in a cycle
-		if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
-			uint32_t container_id = pointless_container_id(p, v);
-
-			if (bm_is_set_(state->cycle_marker, container_id)) {
-				state->error = "POINTLESS_VECTOR_VALUE_HASHABLE is in a cycle";
-				return POINTLESS_WALK_STOP;
-			}
-		}
 	// pass-3, hash test
 	} else if (state->pass == 3) {
 		if (v->type == POINTLESS_MAP_VALUE_VALUE && !pointless_validate_map_complicated(state, v))
-- 
2.43.0


From 2d27480f3c00970fe6b84124220e634dee88a7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 46/60] fix: check all of the type field of a serialized
 prim-vector

---
 python/pointless_prim_vector.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index f3f65a3..1dd0e97 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -405,12 +405,13 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			goto cleanup;
 		}
 
-		self->type = ((uint32_t*)buffer.buf)[0];
+		uint32_t buffer_type = ((uint32_t*)buffer.buf)[0];
 		uint32_t buffer_n_items = ((uint32_t*)buffer.buf)[1];
 		uint64_t expected_buffer_size = 0;
 
 		for (i = 0; i < POINTLESS_PRIM_VECTOR_N_TYPES; i++) {
-			if (pointless_prim_vector_type_map[i].type == self->type) {
+			if (pointless_prim_vector_type_map[i].type == buffer_type) {
+				self->type = (uint8_t)buffer_type;
 				expected_buffer_size += (uint64_t)pointless_prim_vector_type_map[i].typesize * (uint64_t)buffer_n_items;
 				pointless_dynarray_init(&self->array, pointless_prim_vector_type_map[i].typesize);
 				break;
-- 
2.43.0


From 84cff0dc10179e15f64f54fb25e81fc424cbd8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 47/60] fix: keep vectors hashable, whose integers need 33 bits

---
 src/pointless_create.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 11fd8ea..6c73c0a 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -676,9 +676,8 @@ static uint32_t pointless_create_vector_compression(pointless_create_t* c, uint3
 	else if (INT32_MIN <= min_int && max_int <= INT32_MAX)
 		return POINTLESS_VECTOR_I32;
 
-	// we must have hit something here already
-	assert(0);
-	return 0;
+	// negative integers along with ones which need 32 unsigned bits, no type holds both
+	return compression;
 }
 
 static int pointless_create_output_and_end_(pointless_create_t* c, pointless_create_cb_t* cb, const char** error)
-- 
2.43.0


From 937b4f70a13412c0cfd6f4303f3316c2c5c40910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:00 +0000
Subject: [PATCH 48/60] fix: reject NaN as a key of a set or map

---
 src/pointless_hash_table.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pointless_hash_table.c b/src/pointless_hash_table.c
index ddad488..2ac89b0 100644
--- a/src/pointless_hash_table.c
+++ b/src/pointless_hash_table.c
@@ -148,6 +148,17 @@ int pointless_hash_table_populate(pointless_create_t* c, uint32_t* hash_vector,
 		perturb = value_hash;
 		i = value_hash;
 
+		// a key which is not equal to itself, as NaN, could never be found, and would fail validation
+		cmp = pointless_cmp_create(c, keys_vector[j], keys_vector[j], error);
+
+		if (*error)
+			return 0;
+
+		if (cmp != 0) {
+			*error = "there is a key in the set/map, which is not equal to itself";
+			return 0;
+		}
+
 		// find an empty slot
 		while (1) {
 			bucket = i & mask;
-- 
2.43.0


From a3387f40b657787372847f539659927083c5ccce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 49/60] fix: limit the recursion on vectors nested through
 shared ones

---
 src/pointless_hash.c     | 27 +++++++++++++++++++++++----
 src/pointless_recreate.c |  5 +++++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 1599651..398af62 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -468,15 +468,21 @@ uint32_t pointless_is_hashable(uint32_t type)
 	return (pointless_hash_reader_func_32(type) != 0);
 }
 
-uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
+// vectors which are nested too deep are not hashable, hashing and comparing them is recursive
+static uint32_t pointless_is_hashable_reader_rec(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n, uint32_t depth)
 {
 	uint32_t j;
 
 	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE) {
+		if (depth >= POINTLESS_MAX_DEPTH)
+			return 0;
+
 		pointless_value_t* items = pointless_reader_vector_value(p, v);
 
 		for (j = i; j < i + n; j++) {
-			if (!pointless_is_hashable_reader(p, &items[j]))
+			uint32_t n_items = (items[j].type == POINTLESS_VECTOR_VALUE_HASHABLE) ? pointless_reader_vector_n_items(p, &items[j]) : 0;
+
+			if (!pointless_is_hashable_reader_rec(p, &items[j], 0, n_items, depth + 1))
 				return 0;
 		}
 	}
@@ -484,6 +490,11 @@ uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t*
 	return pointless_is_hashable(v->type);
 }
 
+uint32_t pointless_is_hashable_reader_vector(pointless_t* p, pointless_value_t* v, uint32_t i, uint32_t n)
+{
+	return pointless_is_hashable_reader_rec(p, v, i, n, 0);
+}
+
 uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
 {
 	if (v->type == POINTLESS_VECTOR_VALUE_HASHABLE)
@@ -492,16 +503,19 @@ uint32_t pointless_is_hashable_reader(pointless_t* p, pointless_value_t* v)
 	return pointless_is_hashable(v->type);
 }
 
-uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v)
+static uint32_t pointless_is_hashable_create_rec(pointless_create_t* c, pointless_create_value_t* v, uint32_t depth)
 {
 	uint32_t i;
 
 	// outside vectors hold no values
 	if (v->header.type_29 == POINTLESS_VECTOR_VALUE_HASHABLE && !v->header.is_outside_vector) {
+		if (depth >= POINTLESS_MAX_DEPTH)
+			return 0;
+
 		pointless_dynarray_t* items = &cv_get_priv_vector(v)->vector;
 
 		for (i = 0; i < pointless_dynarray_n_items(items); i++) {
-			if (!pointless_is_hashable_create(c, cv_value_at(pointless_dynarray_ITEM_AT(uint32_t, items, i))))
+			if (!pointless_is_hashable_create_rec(c, cv_value_at(pointless_dynarray_ITEM_AT(uint32_t, items, i)), depth + 1))
 				return 0;
 		}
 	}
@@ -509,6 +523,11 @@ uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_va
 	return pointless_is_hashable(v->header.type_29);
 }
 
+uint32_t pointless_is_hashable_create(pointless_create_t* c, pointless_create_value_t* v)
+{
+	return pointless_is_hashable_create_rec(c, v, 0);
+}
+
 uint32_t pointless_hash_reader_32(pointless_t* p, pointless_value_t* v)
 {
 	assert(pointless_is_hashable(v->type));
diff --git a/src/pointless_recreate.c b/src/pointless_recreate.c
index b8da946..2ed539e 100644
--- a/src/pointless_recreate.c
+++ b/src/pointless_recreate.c
@@ -88,6 +88,11 @@ static uint32_t pointless_recreate_convert_rec(pointless_recreate_state_t* state
 	if (handle != UINT32_MAX)
 		return handle;
 
+	if (depth >= POINTLESS_MAX_DEPTH) {
+		*state->error = "maximum depth exceeded";
+		return POINTLESS_CREATE_VALUE_FAIL;
+	}
+
 	handle = POINTLESS_CREATE_VALUE_FAIL;
 
 	uint32_t n_items = 0, i = 0, n_bits = 0;
-- 
2.43.0


From 04e337dfab40c9f0e6f033a4e226e7cfe8396b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 50/60] fix: hash 64-bit items like the floats they are equal
 to

---
 src/pointless_hash.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 398af62..358dc16 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -76,14 +76,24 @@ uint32_t pointless_hash_u32_32(uint32_t v)
 	return v;
 }
 
+// integers beyond 32 bits which equal a float must hash as that float
 uint32_t pointless_hash_i64_32(int64_t v)
 {
-	// this must match the hash of the items of 64-bit vectors
+	float f = (float)v;
+
+	if ((v < INT32_MIN || v > UINT32_MAX) && f < 9223372036854775808.0f && (int64_t)f == v)
+		return pointless_hash_float_32(f);
+
 	return (uint32_t)v;
 }
 
 uint32_t pointless_hash_u64_32(uint64_t v)
 {
+	float f = (float)v;
+
+	if (v > UINT32_MAX && f < 18446744073709551616.0f && (uint64_t)f == v)
+		return pointless_hash_float_32(f);
+
 	return (uint32_t)v;
 }
 
@@ -244,10 +254,10 @@ static uint32_t pointless_hash_reader_vector_32_priv(pointless_t* p, pointless_v
 				h = pointless_hash_u32_32(pointless_reader_vector_u32(p, v)[i]);
 				break;
 			case POINTLESS_VECTOR_I64:
-				h = pointless_hash_i32_32((int32_t)(pointless_reader_vector_i64(p, v)[i]));
+				h = pointless_hash_i64_32(pointless_reader_vector_i64(p, v)[i]);
 				break;
 			case POINTLESS_VECTOR_U64:
-				h = pointless_hash_u32_32((uint32_t)(pointless_reader_vector_u64(p, v)[i]));
+				h = pointless_hash_u64_32(pointless_reader_vector_u64(p, v)[i]);
 				break;
 			case POINTLESS_VECTOR_FLOAT:
 				h = pointless_hash_float_32(pointless_reader_vector_float(p, v)[i]);
@@ -348,10 +358,10 @@ static uint32_t pointless_hash_create_vector_32(pointless_create_t* c, pointless
 					h = pointless_hash_u32_32(((uint32_t*)items)[i]);
 					break;
 				case POINTLESS_VECTOR_I64:
-					h = pointless_hash_i32_32((int32_t)(((int64_t*)items)[i]));
+					h = pointless_hash_i64_32(((int64_t*)items)[i]);
 					break;
 				case POINTLESS_VECTOR_U64:
-					h = pointless_hash_u32_32((uint32_t)(((uint64_t*)items)[i]));
+					h = pointless_hash_u64_32(((uint64_t*)items)[i]);
 					break;
 				case POINTLESS_VECTOR_FLOAT:
 					h = pointless_hash_float_32(((float*)items)[i]);
-- 
2.43.0


From 124861d230c147ff6b210f38c5074b315f6ca064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:28 +0000
Subject: [PATCH 51/60] fix: do not take the length of a bitvector for its bits
 in IsAnySet

---
 src/pointless_bitvector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_bitvector.c b/src/pointless_bitvector.c
index 607ce02..ac536ff 100644
--- a/src/pointless_bitvector.c
+++ b/src/pointless_bitvector.c
@@ -41,7 +41,7 @@ uint32_t pointless_bitvector_is_any_set(uint32_t t, pointless_value_data_t* v, v
 	uint32_t n = pointless_bitvector_n_bits(t, v, bits);
 
 	for (i = 0; i < n; i++) {
-		if (pointless_bitvector_is_set_bits(t, v, bits, i))
+		if (pointless_bitvector_is_set(t, v, bits, i))
 			return 1;
 	}
 
-- 
2.43.0


From 78ca8123bd9c206359f50e3ff8356a216d34cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 52/60] fix: sorting fails when a comparison fails, wherever
 that happens

---
 src/custom_sort.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/custom_sort.c b/src/custom_sort.c
index da54f81..130b428 100644
--- a/src/custom_sort.c
+++ b/src/custom_sort.c
@@ -4,8 +4,10 @@ static int cmp_adapter(int a, int b, qsort_cmp_ cmp, void* user, int* is_error)
 {
 	int c = 0;
 
-	if (!(*cmp)(a, b, &c, user))
+	if (!(*cmp)(a, b, &c, user)) {
 		*is_error = 1;
+		c = 0;
+	}
 
 	return c;
 }
@@ -40,6 +42,9 @@ loop:
 
 				(*swap)(pl, pl - 1, user);
 			}
+
+			if (is_error)
+				return 0;
 		}
 
 		return 1;
@@ -55,6 +60,9 @@ loop:
 			presorted = 0;
 			break;
 		}
+
+		if (is_error)
+			return 0;
 	}
 
 	if (presorted)
-- 
2.43.0


From d7e927c45ee52160a2c0abd869240fc9cdea82af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:45 +0000
Subject: [PATCH 53/60] fix: an initialization of a prim-vector which fails no
 longer frees items which were exported in the meantime

---
 python/pointless_prim_vector.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 1dd0e97..6f8dc1e 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -391,7 +391,10 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 			iterator = 0;
 
 			if (PyErr_Occurred()) {
-				pointless_dynarray_destroy(&self->array);
+				// the iteration might have exported us
+				if (self->ob_exports == 0)
+					pointless_dynarray_destroy(&self->array);
+
 				goto cleanup;
 			}
 		}
@@ -478,8 +481,8 @@ static int PyPointlessPrimVector_init(PyPointlessPrimVector* self, PyObject* arg
 
 cleanup:
 
-	// a vector which could not be initialized is an empty one
-	if (retval == -1) {
+	// a vector which could not be initialized is an empty one, unless its items were exported in the meantime
+	if (retval == -1 && self->ob_exports == 0) {
 		pointless_dynarray_clear(&self->array);
 		pointless_dynarray_init(&self->array, sizeof(int8_t));
 		self->type = POINTLESS_PRIM_VECTOR_TYPE_I8;
-- 
2.43.0


From 311442e57aa89af28b22161c98b99c87d9df14ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 54/60] fix: copies of bitvectors of files and remapped
 prim-vectors whose printing is disallowed showed their contents

---
 python/pointless_bitvector.c   | 2 +-
 python/pointless_prim_vector.c | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/pointless_bitvector.c b/python/pointless_bitvector.c
index e9d0897..1230104 100644
--- a/python/pointless_bitvector.c
+++ b/python/pointless_bitvector.c
@@ -764,7 +764,7 @@ static PyObject* PyPointlessBitvector_copy(PyPointlessBitvector* self)
 	}
 
 	pv->is_pointless = 0;
-	pv->allow_print = (self->is_pointless || self->allow_print);
+	pv->allow_print = self->is_pointless ? self->pp->allow_print : self->allow_print;
 	pv->pp = 0;
 	pv->primitive_n_bytes_alloc = n_bytes;
 	pv->primitive_n_bits = n_bits;
diff --git a/python/pointless_prim_vector.c b/python/pointless_prim_vector.c
index 6f8dc1e..785fc54 100644
--- a/python/pointless_prim_vector.c
+++ b/python/pointless_prim_vector.c
@@ -1888,7 +1888,13 @@ static PyObject* PyPointlessPrimVector_from_remap(PyTypeObject* type, PyObject*
 		}
 	}
 
-	return (PyObject*)PyPointlessPrimVector_from_T_vector(&a_, r_->type);
+	PyPointlessPrimVector* pv = PyPointlessPrimVector_from_T_vector(&a_, r_->type);
+
+	// what must not be printed must not be printed in another order
+	if (pv)
+		pv->allow_print = r_->allow_print;
+
+	return (PyObject*)pv;
 }
 
 #define POINTLESS_PRIMVECTOR_MIN_MAX_LOOP(T, v, n) \
-- 
2.43.0


From 6a3c24efa945934998db3e3776d18481b77348ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 55/60] fix: the hash of no characters of a buffer depended on
 what follows, so the empty string was not found

---
 src/pointless_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointless_hash.c b/src/pointless_hash.c
index 358dc16..50c2822 100644
--- a/src/pointless_hash.c
+++ b/src/pointless_hash.c
@@ -6,7 +6,7 @@
 #include <pointless/pointless_bitvector.h>
 
 #define PYTHON_STRING_HASH_32(s, T)     { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (*p)        {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
-#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (uint32_t)(*p) << 7; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
+#define PYTHON_STRING_HASH_32_(s, n, T) { T* p = (s); size_t len = 0; uint32_t x = (n) ? (uint32_t)(*p) << 7 : 0; while (len < (n)) {x = (1000003 * x) ^ (uint32_t)(*p++); len++;} return x ^ len;}
 
 uint32_t pointless_hash_string_v1_32(uint8_t* s)
 {
-- 
2.43.0


From 69714baf86bd4eca0b945a9976c67b3ef572b3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:05 +0000
Subject: [PATCH 56/60] fix: asking whether a vector which is not hashable is
 in a set or a map called a null pointer

---
 src/pointless_reader_helpers.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pointless_reader_helpers.c b/src/pointless_reader_helpers.c
index 38651a4..9de7f5f 100644
--- a/src/pointless_reader_helpers.c
+++ b/src/pointless_reader_helpers.c
@@ -411,7 +411,11 @@ int pointless_has_same_keys_map_map(pointless_t* p, pointless_value_t* m_a, poin
 
 int pointless_is_in_set_acyclic(pointless_t* p, pointless_value_t* s, pointless_value_t* k)
 {
-	// get hash (guaranteed possible since value is acyclic)
+	// acyclic values need not be hashable, but keys are
+	if (!pointless_is_hashable_reader(p, k))
+		return 0;
+
+	// get hash
 	uint32_t hash = pointless_hash_reader_32(p, k);
 
 	// start the iteration
@@ -435,7 +439,11 @@ int pointless_is_in_set_acyclic(pointless_t* p, pointless_value_t* s, pointless_
 
 int pointless_is_in_map_acyclic(pointless_t* p, pointless_value_t* m, pointless_value_t* k)
 {
-	// get hash (guaranteed possible since value is acyclic)
+	// acyclic values need not be hashable, but keys are
+	if (!pointless_is_hashable_reader(p, k))
+		return 0;
+
+	// get hash
 	uint32_t hash = pointless_hash_reader_32(p, k);
 
 	// start the iteration
-- 
2.43.0


From fa196be0c261b609ce804a3b9311bc6a83ffb509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 57/60] fix: intop_eval_compile() reads tokens left over in its
 context

A context that was used before, or is not zeroed, made valid expressions
fail: the parser looked at tokens past the last one of the expression.
---
 src/pointless_int_ops.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pointless_int_ops.c b/src/pointless_int_ops.c
index ff120e0..f32a3b2 100644
--- a/src/pointless_int_ops.c
+++ b/src/pointless_int_ops.c
@@ -200,7 +200,8 @@ static int intop_check_error(intop_eval_context_t* c)
 
 static int intop_eval_check_bounds(intop_eval_context_t* c)
 {
-	return (c->i < INTOP_EVAL_MAX_N);
+	// not beyond the tokens of this expression, the context may have been used before
+	return (c->i < c->n);
 }
 
 static void intop_eval_push(intop_eval_context_t* c, intop_eval_token_t* token)
-- 
2.43.0


From 6fef350ff832b9837e0dd4e3c9ead5482bea71cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:48 +0000
Subject: [PATCH 58/60] fix: vectors leaked when memory runs out while their
 numbers are assigned

---
 src/pointless_create.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 6c73c0a..9fec5d6 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -727,6 +727,34 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 	// ignore those
 	n_priv_vectors = 0, n_outside_vectors = 0, n_sets = 0, n_maps = 0;
 
+	// collect the vectors we keep before any of them is renumbered, since the values are freed by number if we fail
+	for (i = 0; i < n_values; i++) {
+		switch (cv_value_type(i)) {
+			case POINTLESS_VECTOR_I8:
+			case POINTLESS_VECTOR_U8:
+			case POINTLESS_VECTOR_I16:
+			case POINTLESS_VECTOR_U16:
+			case POINTLESS_VECTOR_I32:
+			case POINTLESS_VECTOR_U32:
+			case POINTLESS_VECTOR_I64:
+			case POINTLESS_VECTOR_U64:
+			case POINTLESS_VECTOR_FLOAT:
+			case POINTLESS_VECTOR_VALUE:
+				if (cv_is_outside_vector(i))
+					break;
+
+				if (pointless_dynarray_n_items(&cv_priv_vector_at(i)->vector) == 0 && cv_is_set_map_vector(i) == 0)
+					break;
+
+				if (!pointless_dynarray_push(&new_priv_vector_values, cv_priv_vector_at(i))) {
+					*error = "out of memory I";
+					goto error_cleanup;
+				}
+
+				break;
+		}
+	}
+
 	for (i = 0; i < n_values; i++) {
 		switch (cv_value_type(i)) {
 			case POINTLESS_VECTOR_I8:
@@ -749,11 +777,6 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 					cv_value_at(i)->header.type_29 = POINTLESS_VECTOR_EMPTY;
 					cv_value_at(i)->data.data_u32 = 0;
 				} else {
-					if (!pointless_dynarray_push(&new_priv_vector_values, cv_priv_vector_at(i))) {
-						*error = "out of memory I";
-						goto error_cleanup;
-					}
-
 					cv_value_at(i)->data.data_u32 = n_priv_vectors++;
 				}
 
-- 
2.43.0


From 794d4078edb6a9a53dac60ed0d05b75bf9ed5b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:26 +0000
Subject: [PATCH 59/60] fix: compare the native items of our own typed vectors

A typed vector built with the create interface holds native items, yet the
comparison took them for value handles when such a vector was a set or map key.
---
 src/pointless_cmp.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/pointless_cmp.c b/src/pointless_cmp.c
index e1aea14..17a3a68 100644
--- a/src/pointless_cmp.c
+++ b/src/pointless_cmp.c
@@ -293,8 +293,15 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 	pointless_complete_create_value_t vi;
 	pointless_create_value_t _v = pointless_create_value_from_complete(v);
 
-	// outside vectors are the hardest
-	if (v->header.is_outside_vector) {
+	// typed vectors, be they ours or the caller's, hold native items, except for those we compressed ourselves
+	if (v->header.is_outside_vector || (pointless_is_vector_type(v->header.type_29) && v->header.type_29 != POINTLESS_VECTOR_VALUE && v->header.type_29 != POINTLESS_VECTOR_VALUE_HASHABLE && !v->header.is_compressed_vector)) {
+		void* items;
+
+		if (v->header.is_outside_vector)
+			items = cv_get_outside_vector(&_v)->items;
+		else
+			items = cv_get_priv_vector(&_v)->vector._data;
+
 		// reset the value
 		vi.header.type_29 = POINTLESS_NULL;
 		vi.header.is_outside_vector = v->header.is_outside_vector;
@@ -305,31 +312,31 @@ static pointless_complete_create_value_t pointless_cmp_vector_value_create(point
 
 		switch (v->header.type_29) {
 			case POINTLESS_VECTOR_I8:
-				vi = pointless_complete_value_create_i32(((int8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U8:
-				vi = pointless_complete_value_create_u32(((uint8_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint8_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I16:
-				vi = pointless_complete_value_create_i32(((int16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U16:
-				vi = pointless_complete_value_create_u32(((uint16_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint16_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I32:
-				vi = pointless_complete_value_create_i32(((int32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i32(((int32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U32:
-				vi = pointless_complete_value_create_u32(((uint32_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u32(((uint32_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_I64:
-				vi = pointless_complete_value_create_i64(((int64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_i64(((int64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_U64:
-				vi = pointless_complete_value_create_u64(((uint64_t*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_u64(((uint64_t*)items)[i]);
 				break;
 			case POINTLESS_VECTOR_FLOAT:
-				vi = pointless_complete_value_create_float(((float*)cv_get_outside_vector(&_v)->items)[i]);
+				vi = pointless_complete_value_create_float(((float*)items)[i]);
 				break;
 			default:
 				assert(0);
-- 
2.43.0


From bb8293f4f578aebffcd926c82203adc1e9e51900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:26 +0000
Subject: [PATCH 60/60] fix: end the creation when its version can not be
 written

---
 src/pointless_create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pointless_create.c b/src/pointless_create.c
index 9fec5d6..39f555d 100644
--- a/src/pointless_create.c
+++ b/src/pointless_create.c
@@ -689,11 +689,13 @@ static int pointless_create_output_and_end_(pointless_create_t* c, pointless_cre
 		case POINTLESS_FF_VERSION_OFFSET_32_OLDHASH:
 		case POINTLESS_FF_VERSION_OFFSET_32_NEWHASH:
 			*error = "unsupported version";
+			pointless_create_end(c);
 			return 0;
 		case POINTLESS_FF_VERSION_OFFSET_64_NEWHASH:
 			break;
 		default:
 			*error = "unsupported version";
+			pointless_create_end(c);
 			return 0;
 	}
 
-- 
2.43.0

