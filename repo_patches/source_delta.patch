From 6d32171279396e7996b9d71639cc618ab97a042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 01/44] fix: settle the CDF version for global attributes
 before the header is written

A 64-bit or unsigned global attribute raised the version to 5 after the
version byte and dimension list had been written, which made the file
unreadable. Unsupported attribute types are now refused by AddAttributes.
---
 netcdf/cdf/cdfwriter.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 09d0b64..7eb9b4c 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -386,10 +386,14 @@ func hasValidNames(am api.AttributeMap) bool {
 
 // AddAttributes adds attributes to be written out.
 // Use util.NewOrderedMap to create attribute maps.
-func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) error {
+func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
+	defer thrower.RecoverError(&err)
+
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
+	// The version must be known before the header is written.
+	cw.checkV5Attributes(attrs)
 	cw.globalAttrs = attrs
 	return nil
 }
@@ -594,7 +598,6 @@ func (cw *CDFWriter) checkV5Attributes(attrs api.AttributeMap) {
 
 		case []uint64, uint64, []int64, int64, []uint8, uint8, []uint16, uint16, []uint32, uint32:
 			cw.version = 5
-			return
 
 		default:
 			logger.Errorf("invalid attribute %#v", v)
@@ -909,7 +912,6 @@ func (cw *CDFWriter) writeAll() {
 		write32(cw.bf, 0)        // dimensions: absent
 		cw.writeNumber(int64(0)) // dimensions: absent
 	}
-	cw.checkV5Attributes(cw.globalAttrs)
 	cw.writeAttributes(cw.globalAttrs)
 	if len(cw.vars) > 0 {
 		write32(cw.bf, fieldVariable)
-- 
2.43.0


From b0b84de087523b45ae97d2ad1b1b1e2e91a5a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:48 +0000
Subject: [PATCH 02/44] fix: leave no dimensions behind when AddVar fails

AddVar registered dimensions one by one, so a rejected variable left some of
its dimensions in the file and could cause later, valid variables to be
rejected. An empty dimension name is now replaced in its own position instead
of being appended, and the caller's slice is no longer modified.
---
 netcdf/cdf/cdfwriter.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 7eb9b4c..45572b9 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -420,35 +420,43 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
-	for i := range dimLengths {
-		var dimName string
-		if i < len(vr.Dimensions) {
-			dimName = vr.Dimensions[i]
-		}
+	// The caller's slice is not modified, and no dimension is registered until
+	// the variable is known to be good.
+	dimNames := make([]string, len(dimLengths))
+	copy(dimNames, vr.Dimensions)
+	newLengths := make(map[string]int64)
+	var newNames []string
+	for i, dimName := range dimNames {
 		if dimName == "" {
 			if ty == typeChar && i == len(dimLengths)-1 {
 				dimName = fmt.Sprintf("_stringlen_%s", name)
 			} else {
-				dimName = fmt.Sprintf("_dimid_%d", cw.nextID)
+				dimName = fmt.Sprintf("_dimid_%d", cw.nextID+int64(len(newNames)))
 			}
-			vr.Dimensions = append(vr.Dimensions, dimName)
+			dimNames[i] = dimName
 		}
 
-		dimName = vr.Dimensions[i]
 		currentLength, has := cw.dimLengths[dimName]
+		if !has {
+			currentLength, has = newLengths[dimName]
+		}
 		if has {
 			if dimLengths[i] != currentLength {
 				thrower.Throw(ErrDimensionSize)
 			}
 		} else {
-			cw.dimLengths[dimName] = dimLengths[i]
-			cw.dimIds[dimName] = cw.nextID
-			cw.dimNames = append(cw.dimNames, dimName)
-			cw.nextID++
+			newLengths[dimName] = dimLengths[i]
+			newNames = append(newNames, dimName)
 		}
 	}
+	for _, dimName := range newNames {
+		cw.dimLengths[dimName] = newLengths[dimName]
+		cw.dimIds[dimName] = cw.nextID
+		cw.dimNames = append(cw.dimNames, dimName)
+		cw.nextID++
+	}
 	cw.vars = append(cw.vars, savedVar{name, vr.Values, ty, dimLengths,
-		vr.Dimensions, vr.Attributes, 0})
+		dimNames, vr.Attributes, 0})
 	return nil
 }
 
-- 
2.43.0


From dff68821d6cbd891db0449dcb8c30c83bf234fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 03/44] fix: refuse a second variable of the same name in CDF
 files

Such a file could not be opened again (duplicate variable).
---
 netcdf/cdf/cdfwriter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 45572b9..d1116e1 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -414,6 +414,11 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
+	for i := range cw.vars {
+		if cw.vars[i].name == name {
+			return ErrDuplicateVariable
+		}
+	}
 	cw.checkV5Attributes(vr.Attributes)
 	dimLengths, ty := cw.getDimLengths(vr.Values, vr.Dimensions)
 	switch ty {
-- 
2.43.0


From 5bc08e237ca3acf99455361ed08d2ed03de884fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 04/44] fix: refuse ragged arrays in CDF files and size strings
 by the longest of all

The shape was taken from the first row only, so other rows of another length,
or longer strings in later rows of a multi-dimensional array, shifted all the
data that followed them in the file.
---
 netcdf/cdf/cdfwriter.go | 59 ++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index d1116e1..b680e69 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -286,17 +286,8 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	switch t.Kind() {
 	case reflect.Array, reflect.Slice:
 		if t.Elem().Kind() == reflect.String {
-			// special case to longest string
-			maxLen := int64(0)
-			for i := range int(vLen) {
-				if int64(rv.Index(i).Len()) > maxLen {
-					maxLen = int64(rv.Index(i).Len())
-				}
-			}
-			if maxLen == 0 {
-				thrower.Throw(ErrEmptySlice)
-			}
-			dims = append(dims, maxLen)
+			// the length of the strings is filled in later
+			dims = append(dims, 0)
 			return dims, typeChar
 		}
 		if vLen == 0 {
@@ -322,7 +313,46 @@ func (cw *CDFWriter) getDimLengthsHelper(
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
 	v := reflect.ValueOf(val)
 	dims := make([]int64, 0)
-	return cw.getDimLengthsHelper(v, dims, dimNames)
+	dims, kind := cw.getDimLengthsHelper(v, dims, dimNames)
+	checkRectangular(v, dims)
+	if kind == typeChar && v.Kind() != reflect.String {
+		maxLen := longestString(v)
+		if maxLen == 0 {
+			thrower.Throw(ErrEmptySlice)
+		}
+		dims[len(dims)-1] = maxLen
+	}
+	return dims, kind
+}
+
+// longestString returns the length of the longest string in a slice of
+// any depth, because all the strings of a variable have the same length.
+func longestString(rv reflect.Value) int64 {
+	switch rv.Kind() {
+	case reflect.String:
+		return int64(rv.Len())
+	case reflect.Array, reflect.Slice:
+		maxLen := int64(0)
+		for i := range rv.Len() {
+			maxLen = max(maxLen, longestString(rv.Index(i)))
+		}
+		return maxLen
+	}
+	return 0
+}
+
+// checkRectangular throws an error if a slice doesn't have the same length
+// as its siblings.
+func checkRectangular(rv reflect.Value, dims []int64) {
+	if rv.Kind() != reflect.Array && rv.Kind() != reflect.Slice {
+		return
+	}
+	if int64(rv.Len()) != dims[0] {
+		thrower.Throw(ErrDimensionSize)
+	}
+	for i := range rv.Len() {
+		checkRectangular(rv.Index(i), dims[1:])
+	}
 }
 
 func (cw *CDFWriter) scalarKind(goKind reflect.Kind) int {
@@ -425,6 +455,11 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
+	for i := range dimLengths {
+		if dimLengths[i] == 0 && i != 0 {
+			thrower.Throw(ErrUnlimitedMustBeFirst)
+		}
+	}
 	// The caller's slice is not modified, and no dimension is registered until
 	// the variable is known to be good.
 	dimNames := make([]string, len(dimLengths))
-- 
2.43.0


From e013186bf390044be2112123a9c5cd4fdf5c8b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 05/44] fix: refuse unsupported value types in CDF AddVar
 instead of panicking

Values of unsupported types (int, bool, nil, structs) caused a panic in AddVar,
and arrays and named types were accepted and caused a panic in Close.
---
 netcdf/cdf/cdfwriter.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index b680e69..1076eda 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -310,7 +310,28 @@ func (cw *CDFWriter) getDimLengthsHelper(
 	panic("internal error") // should never happen
 }
 
+// isSupportedType returns true for the types that can be written: the basic
+// types and slices of them.
+func isSupportedType(t reflect.Type) bool {
+	for t != nil && t.Kind() == reflect.Slice && t.Name() == "" {
+		t = t.Elem()
+	}
+	if t == nil || t.PkgPath() != "" {
+		return false
+	}
+	switch t.Kind() {
+	case reflect.String, reflect.Float32, reflect.Float64,
+		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
+		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return true
+	}
+	return false
+}
+
 func (cw *CDFWriter) getDimLengths(val any, dimNames []string) ([]int64, int) {
+	if !isSupportedType(reflect.TypeOf(val)) {
+		thrower.Throw(ErrUnknownType)
+	}
 	v := reflect.ValueOf(val)
 	dims := make([]int64, 0)
 	dims, kind := cw.getDimLengthsHelper(v, dims, dimNames)
-- 
2.43.0


From 110ab63c90273c0b47c78380ba1bec067e7c6243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 06/44] fix: refuse more dimension names than the value has
 dimensions in CDF files

The surplus names were silently dropped.
---
 netcdf/cdf/cdfwriter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 1076eda..4f6f81a 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -476,6 +476,9 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	case typeUByte, typeUShort, typeUInt, typeUInt64, typeInt64:
 		cw.version = 5
 	}
+	if len(vr.Dimensions) > len(dimLengths) {
+		thrower.Throw(ErrTooManyDimensions)
+	}
 	for i := range dimLengths {
 		if dimLengths[i] == 0 && i != 0 {
 			thrower.Throw(ErrUnlimitedMustBeFirst)
-- 
2.43.0


From 9fbc9f54f4327610325ddcd81bef8789373934c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:53 +0000
Subject: [PATCH 07/44] fix: give zero-length CDF variables no space among the
 data

The size of one record of a zero-length (unlimited) variable was counted in
the offsets of the variables after it although nothing is stored for it, so
those read back shifted data. A second zero-length dimension, which the format
cannot represent, is refused.
---
 netcdf/cdf/cdfwriter.go | 43 ++++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 4f6f81a..4d5e086 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -48,6 +48,7 @@ type CDFWriter struct {
 
 var (
 	ErrUnlimitedMustBeFirst = errors.New("unlimited dimension must be first")
+	ErrOneUnlimited         = errors.New("only one unlimited dimension is possible")
 	ErrDimensionSize        = errors.New("dimension doesn't match size")
 	ErrInvalidName          = errors.New("invalid name")
 	ErrAttribute            = errors.New("invalid attribute")
@@ -513,6 +514,13 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			newNames = append(newNames, dimName)
 		}
 	}
+	for _, newName := range newNames {
+		for _, length := range cw.dimLengths {
+			if length == 0 && newLengths[newName] == 0 {
+				thrower.Throw(ErrOneUnlimited)
+			}
+		}
+	}
 	for _, dimName := range newNames {
 		cw.dimLengths[dimName] = newLengths[dimName]
 		cw.dimIds[dimName] = cw.nextID
@@ -690,6 +698,30 @@ func (cw *CDFWriter) writeVar(which int) {
 	cw.writeAttributes(saved.attrs)
 
 	write32(cw.bf, int32(saved.ty))
+	cw.writeNumber(saved.vsize)
+
+	// Variables with data are stored in order.  Zero-length (unlimited)
+	// variables have no records yet, they come after all of the data.
+	calcOffset := cw.begin
+	for i := range cw.vars {
+		precedes := i < which
+		if cw.vars[i].isUnlimited() != saved.isUnlimited() {
+			precedes = saved.isUnlimited()
+		}
+		if precedes {
+			calcOffset += cw.vars[i].vsize
+		}
+	}
+	write64(cw.bf, calcOffset)
+}
+
+func (saved *savedVar) isUnlimited() bool {
+	return len(saved.dimLengths) > 0 && saved.dimLengths[0] == 0
+}
+
+// computeVsize computes the size of the variable's data, including padding.
+// If the variable is unlimited, it is the size of one record.
+func computeVsize(saved *savedVar) int64 {
 	vsize := int64(0)
 	switch saved.ty {
 	case typeDouble, typeInt64, typeUInt64:
@@ -715,15 +747,7 @@ func (cw *CDFWriter) writeVar(which int) {
 		}
 	}
 	// pad vsize
-	vsize = 4 * ((vsize + 3) / 4)
-	cw.writeNumber(int64(vsize))
-	saved.vsize = vsize
-
-	calcOffset := cw.begin
-	for i := range which {
-		calcOffset += cw.vars[i].vsize
-	}
-	write64(cw.bf, calcOffset)
+	return 4 * ((vsize + 3) / 4)
 }
 
 func (cw *CDFWriter) computeAttributeSize(attrs api.AttributeMap) int64 {
@@ -994,6 +1018,7 @@ func (cw *CDFWriter) writeAll() {
 		cw.begin = cw.bf.Count()
 		for i := range cw.vars {
 			cw.begin += cw.computeVarSize(&cw.vars[i])
+			cw.vars[i].vsize = computeVsize(&cw.vars[i])
 		}
 
 		for i := range cw.vars {
-- 
2.43.0


From c4d4c1746c9c729a09c89ee3a573a26093523574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:18 +0000
Subject: [PATCH 08/44] fix: make a closed CDF writer refuse additions, and
 always close the file

Additions after Close were accepted and lost, a second Close failed, and the
file stayed open when writing it failed.
---
 netcdf/cdf/cdfwriter.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 4d5e086..5a49b4a 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -53,6 +53,7 @@ var (
 	ErrInvalidName          = errors.New("invalid name")
 	ErrAttribute            = errors.New("invalid attribute")
 	ErrEmptySlice           = errors.New("empty slice encountered")
+	ErrClosed               = errors.New("writer is closed")
 )
 
 func (c *countedWriter) Count() int64 {
@@ -441,6 +442,9 @@ func hasValidNames(am api.AttributeMap) bool {
 func (cw *CDFWriter) AddAttributes(attrs api.AttributeMap) (err error) {
 	defer thrower.RecoverError(&err)
 
+	if cw.file == nil {
+		return ErrClosed
+	}
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
@@ -460,6 +464,9 @@ func (cw *CDFWriter) CreateGroup(name string) (api.Writer, error) {
 func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	defer thrower.RecoverError(&err)
 
+	if cw.file == nil {
+		return ErrClosed
+	}
 	if !internal.IsValidNetCDFName(name) {
 		return ErrInvalidName
 	}
@@ -936,18 +943,23 @@ func (cw *CDFWriter) writeData(saved savedVar) {
 
 // Close writes all the data out and closes the file.
 func (cw *CDFWriter) Close() (err error) {
+	if cw.file == nil {
+		return nil // already closed
+	}
+	defer func() {
+		// The file gets closed even if it can't be written.
+		err2 := cw.file.Close()
+		if err == nil {
+			err = err2
+		} else if err2 != nil {
+			// return the first error, log the second
+			logger.Error(err2)
+		}
+		cw.file = nil
+	}()
 	defer thrower.RecoverError(&err)
 	cw.writeAll()
-	err = cw.bf.Flush()
-	err2 := cw.file.Close()
-	if err == nil {
-		err = err2
-	} else {
-		// return the first error, log the second
-		logger.Error(err2)
-	}
-	cw.file = nil
-	return err
+	return cw.bf.Flush()
 }
 
 func writeAny(w io.Writer, any any) {
-- 
2.43.0


From 6565e3612848bf6d0a94ea3ff801139238eaf276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 09/44] fix: list a key once when OrderedMap.Add is called
 again for it

A key added twice was listed twice, and both writers then wrote the attribute
twice, which makes the file invalid.
---
 netcdf/util/orderedmap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcdf/util/orderedmap.go b/netcdf/util/orderedmap.go
index ff9fe1f..7b270a6 100644
--- a/netcdf/util/orderedmap.go
+++ b/netcdf/util/orderedmap.go
@@ -61,8 +61,9 @@ func NewOrderedMap(keys []string, values map[string]any) (*OrderedMap, error) {
 }
 
 // Add adds a key/value pair to an ordered map at the end.
+// If the key is already in the map, it keeps its place and gets the new value.
 func (om *OrderedMap) Add(name string, val any) {
-	if !om.hiddenKeys[name] {
+	if _, has := om.values[name]; !has && !om.hiddenKeys[name] {
 		om.keys = append(om.keys, name)
 		om.visibleKeys = append(om.visibleKeys, name)
 	}
-- 
2.43.0


From b0b9d3d8a86d5a027d3672d9ae7849a4a9d8974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:14 +0000
Subject: [PATCH 10/44] fix: report the types of variable and group attributes

GetType and GetGoType looked among the attributes of the root group only, so
they panicked, or gave the type of an unrelated global attribute.
---
 netcdf/hdf5/hdf5.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 69bcdca..3cff000 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2906,7 +2906,11 @@ func (h5 *HDF5) findVariable(varName string) *object {
 }
 
 func (h5 *HDF5) findGlobalAttrType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+	return h5.findAttrType(h5.rootObject.attrlist, attrName)
+}
+
+func (h5 *HDF5) findAttrType(attrlist []*attribute, attrName string) string {
+	for _, attr := range attrlist {
 		if attr.name != attrName {
 			continue
 		}
@@ -2926,7 +2930,11 @@ func (h5 *HDF5) findGlobalAttrType(attrName string) string {
 }
 
 func (h5 *HDF5) findGlobalAttrGoType(attrName string) string {
-	for _, attr := range h5.rootObject.attrlist {
+	return h5.findAttrGoType(h5.rootObject.attrlist, attrName)
+}
+
+func (h5 *HDF5) findAttrGoType(attrlist []*attribute, attrName string) string {
+	for _, attr := range attrlist {
 		if attr.name != attrName {
 			continue
 		}
@@ -3126,6 +3134,16 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
+	// The types are those of these attributes, which may not be global.
+	om.SetTypeCallbacks(
+		func(key string) (string, bool) {
+			ret := h5.findAttrType(unfiltered, key)
+			return ret, ret != ""
+		},
+		func(key string) (string, bool) {
+			ret := h5.findAttrGoType(unfiltered, key)
+			return ret, ret != ""
+		})
 	om.Hide(ncpKey)
 	return om
 }
-- 
2.43.0


From 540e9f32aaa29f0072059104d569d23c6bb74247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 11/44] fix: list HDF5 attributes in their order in the file

The order was that of a Go map, random in every call.
---
 netcdf/hdf5/hdf5.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 3cff000..fa48e1d 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3107,6 +3107,7 @@ func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 }
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
+	keys := []string{}
 	filtered := make(map[string]any)
 	for i := range unfiltered {
 		val := unfiltered[i]
@@ -3125,13 +3126,12 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 				val.value = getDataAttr(h5, h5, val.df, *val)
 			}
 			value := undoScalarAttribute(val.value)
+			if _, has := filtered[val.name]; !has {
+				keys = append(keys, val.name)
+			}
 			filtered[val.name] = value
 		}
 	}
-	keys := []string{}
-	for key := range filtered {
-		keys = append(keys, key)
-	}
 	om, err := newTypedAttributeMap(h5, keys, filtered)
 	thrower.ThrowIfError(err)
 	// The types are those of these attributes, which may not be global.
@@ -3406,7 +3406,7 @@ func (h5 *HDF5) sortAttrList(obj *object) {
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 	}
-	sort.Slice(obj.attrlist, func(i, j int) bool {
+	sort.SliceStable(obj.attrlist, func(i, j int) bool {
 		return obj.attrlist[i].creationOrder < obj.attrlist[j].creationOrder
 	})
 	obj.attrListIsSorted = true
-- 
2.43.0


From 7247b2d04d1d19a6a4ae4f3c574b54b68a2f078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 12/44] fix: return errors for slices out of range, and slice
 scalars and strings

---
 internal/slicer.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/slicer.go b/internal/slicer.go
index 9939390..2cc750e 100644
--- a/internal/slicer.go
+++ b/internal/slicer.go
@@ -1,12 +1,15 @@
 package internal
 
 import (
+	"errors"
 	"reflect"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/api"
 	"github.com/batchatco/go-thrower"
 )
 
+var ErrSlice = errors.New("invalid slice parameters")
+
 type slice struct {
 	getSlice   func(begin, end int64) (any, error)
 	getSliceMD func(begin, end []int64) (any, error)
@@ -20,12 +23,23 @@ type slice struct {
 
 func (sl *slice) GetSlice(begin, end int64) (slice any, err error) {
 	defer thrower.RecoverError(&err)
+	if begin < 0 || end < begin || end > sl.length {
+		return nil, ErrSlice
+	}
 	slice, err = sl.getSlice(begin, end)
 	return slice, err
 }
 
 func (sl *slice) GetSliceMD(begin, end []int64) (slice any, err error) {
 	defer thrower.RecoverError(&err)
+	if len(begin) != len(sl.shape) || len(end) != len(sl.shape) {
+		return nil, ErrSlice
+	}
+	for i := range sl.shape {
+		if begin[i] < 0 || end[i] < begin[i] || end[i] > sl.shape[i] {
+			return nil, ErrSlice
+		}
+	}
 	slice, err = sl.getSliceMD(begin, end)
 	return slice, err
 }
@@ -86,6 +100,11 @@ func sliceRecursive(v reflect.Value, dims []uint64, begin, end []int64) reflect.
 		return v
 	}
 
+	// The last dimension of characters is in a string
+	if v.Kind() == reflect.String && len(dims) == 1 {
+		return v.Slice(int(begin[0]), int(end[0]))
+	}
+
 	// If it's a slice, we slice it
 	if v.Kind() == reflect.Slice {
 		b := int(begin[0])
-- 
2.43.0


From c4c8f602ea2637f3613730ead265a2ff102faa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:25 +0000
Subject: [PATCH 13/44] fix: read CDF slices from any record, whole elements
 only, and char fill values

---
 netcdf/cdf/cdf.go | 143 ++++++++++++++++++++++++++--------------------
 1 file changed, 81 insertions(+), 62 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 8700213..793b70f 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -679,14 +679,8 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 			thrower.Throw(ErrInternal)
 		}
 
-		var bf io.Reader
-		if unlimited && !cdf.specialCase {
-			bf = cdf.newRecordReader(&varFound, start, sizeInBytes)
-		} else {
-			seekTo(cdf.file, int64(varFound.begin)+start)
-			bf = io.LimitReader(makeFillValueReader(varFound,
-				io.Reader(bufio.NewReader(cdf.file))), sizeInBytes)
-		}
+		bf := bytes.NewReader(cdf.readData(&varFound, unlimited && !cdf.specialCase,
+			start, sizeInBytes))
 
 		// in case of unlimited, should read a record at a time, using cdf.recSize
 		var data any
@@ -746,6 +740,9 @@ func (cdf *CDF) getVarCommon(name string) (api.VarGetter, error) {
 		if len(begin) != len(dimLengths) || len(end) != len(dimLengths) {
 			return nil, ErrTooManyDimensions
 		}
+		if len(dimLengths) == 0 {
+			return getSlice(0, 1)
+		}
 		for i := range begin {
 			if end[i] < begin[i] {
 				return nil, errors.New("invalid slice parameters")
@@ -885,41 +882,41 @@ func (cdf *CDF) GetVariable(name string) (v *api.Variable, err error) {
 		Attributes: sl.Attributes()}, nil
 }
 
-// Seeks and read bytes
-type seekReader struct {
-	file   io.ReadSeeker
-	offset int64
-	reader io.Reader
-}
-
-func (sr *seekReader) Read(p []byte) (int, error) {
-	if sr.reader == nil {
-		seekTo(sr.file, sr.offset)
-		sr.reader = bufio.NewReader(sr.file)
+// readAt fills p from the file at the given offset, and returns the number of
+// bytes the file had: fewer than len(p) only if the file ends before that.
+func (cdf *CDF) readAt(p []byte, offset int64) int {
+	if len(p) == 0 {
+		return 0
 	}
-	return sr.reader.Read(p)
-}
-
-func newSeekReader(file io.ReadSeeker, offset int64) io.Reader {
-	return &seekReader{file: file, offset: offset, reader: nil}
+	seekTo(cdf.file, offset)
+	n, err := io.ReadFull(cdf.file, p)
+	if err != io.EOF && err != io.ErrUnexpectedEOF {
+		thrower.ThrowIfError(err)
+	}
+	return n
 }
 
-func (cdf *CDF) newRecordReader(v *variable, start int64, size int64) io.Reader {
-	readers := make([]io.Reader, cdf.numRecs)
-
-	for i := uint64(0); i < uint64(cdf.numRecs) && size > 0; i++ {
-		increment := int64(i) * int64(cdf.recSize)
-		if start > increment {
-			continue
+// readData returns size bytes of the variable's data, from start. The elements
+// that are missing from the file, in whole or in part, get the fill value.
+func (cdf *CDF) readData(v *variable, byRecord bool, start, size int64) []byte {
+	data := make([]byte, size)
+	fillValue := fillValueBytes(*v)
+	readPart := func(p []byte, offset int64) {
+		n := cdf.readAt(p, offset)
+		n -= n % len(fillValue)
+		for i := n; i < len(p); i += len(fillValue) {
+			copy(p[i:], fillValue)
 		}
-		offset := int64(v.begin) + increment
-		begin := offset + start
-		thisSize := v.vsize
-		readers[i] = io.LimitReader(newSeekReader(cdf.file, begin), thisSize)
-		size -= thisSize
-		start = 0
 	}
-	return io.MultiReader(readers...)
+	if !byRecord {
+		readPart(data, int64(v.begin)+start)
+		return data
+	}
+	for done := int64(0); done < size; done += v.vsize {
+		record := (start + done) / v.vsize
+		readPart(data[done:done+v.vsize], int64(v.begin)+record*int64(cdf.recSize))
+	}
+	return data
 }
 
 func emptySlice(v any, dimLengths []uint64) any {
@@ -1103,6 +1100,10 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 	v := reflect.ValueOf(data)
 	if v.Len() == 0 {
+		if vType == typeChar {
+			// the last dimension is the length of the strings
+			return emptySlice([]string{}, dimLengths[1:])
+		}
 		return emptySlice(data, dimLengths)
 	}
 	if len(dimLengths) == 0 {
@@ -1169,7 +1170,21 @@ func makeFillValueDouble(d float64) []byte {
 	return buf.Bytes()
 }
 
+// fillValue returns the user's fill value as a T, which is the type of the variable.
+func fillValue[T any](userFV any) T {
+	fv, ok := userFV.(T)
+	if !ok {
+		thrower.Throw(ErrFillValue)
+	}
+	return fv
+}
+
 func makeFillValueReader(v variable, bf io.Reader) io.Reader {
+	return io.MultiReader(bf, internal.NewFillValueReader(fillValueBytes(v)))
+}
+
+// fillValueBytes returns the fill value of the variable, as stored in the file.
+func fillValueBytes(v variable) []byte {
 	userFV, hasUserFV := v.attrs.Get("_FillValue")
 	if hasUserFV {
 		val := reflect.ValueOf(userFV)
@@ -1180,110 +1195,114 @@ func makeFillValueReader(v variable, bf io.Reader) io.Reader {
 			userFV = val.Index(0).Interface()
 		}
 	}
-	var fillValue []byte
+	var ret []byte
 	switch v.vType {
 	case typeFloat:
 		var fv float32
 		if hasUserFV {
-			fv = userFV.(float32)
+			fv = fillValue[float32](userFV)
 		} else {
 			fv = math.Float32frombits(internal.FillFloat)
 		}
-		fillValue = makeFillValueFloat(fv)
+		ret = makeFillValueFloat(fv)
 
 	case typeDouble:
 		var fv float64
 		if hasUserFV {
-			fv = userFV.(float64)
+			fv = fillValue[float64](userFV)
 		} else {
 			fv = math.Float64frombits(internal.FillDouble)
 		}
-		fillValue = makeFillValueDouble(fv)
+		ret = makeFillValueDouble(fv)
 
 	case typeByte:
 		var fv byte
 		if hasUserFV {
-			fv = byte(userFV.(int8))
+			fv = byte(fillValue[int8](userFV))
 		} else {
 			fb := internal.FillByte
 			fv = byte(fb)
 		}
-		fillValue = []byte{fv}
+		ret = []byte{fv}
 
 	case typeUByte:
 		var fv byte
 		if hasUserFV {
-			fv = byte(userFV.(uint8))
+			fv = byte(fillValue[uint8](userFV))
 		} else {
 			fv = internal.FillUByte
 		}
-		fillValue = []byte{fv}
+		ret = []byte{fv}
 
 	case typeShort:
 		var fv int16
 		if hasUserFV {
-			fv = userFV.(int16)
+			fv = fillValue[int16](userFV)
 		} else {
 			fv = internal.FillShort
 		}
-		fillValue = makeFillValueShort(fv)
+		ret = makeFillValueShort(fv)
 
 	case typeUShort:
 		var fv uint16
 		if hasUserFV {
-			fv = userFV.(uint16)
+			fv = fillValue[uint16](userFV)
 		} else {
 			fv = internal.FillUShort
 		}
-		fillValue = makeFillValueShort(int16(fv))
+		ret = makeFillValueShort(int16(fv))
 
 	case typeInt:
 		var fv int32
 		if hasUserFV {
-			fv = userFV.(int32)
+			fv = fillValue[int32](userFV)
 		} else {
 			fv = int32(internal.FillInt)
 		}
-		fillValue = makeFillValueInt(fv)
+		ret = makeFillValueInt(fv)
 
 	case typeUInt:
 		var fv uint32
 		if hasUserFV {
-			fv = userFV.(uint32)
+			fv = fillValue[uint32](userFV)
 		} else {
 			fv = internal.FillUInt
 		}
-		fillValue = makeFillValueInt(int32(fv))
+		ret = makeFillValueInt(int32(fv))
 
 	case typeInt64:
 		var fv int64
 		if hasUserFV {
-			fv = userFV.(int64)
+			fv = fillValue[int64](userFV)
 		} else {
 			fv = internal.FillInt64
 		}
-		fillValue = makeFillValueInt64(fv)
+		ret = makeFillValueInt64(fv)
 
 	case typeUInt64:
 		var fv uint64
 		if hasUserFV {
-			fv = userFV.(uint64)
+			fv = fillValue[uint64](userFV)
 		} else {
 			fv = internal.FillUInt64
 		}
-		fillValue = makeFillValueInt64(int64(fv))
+		ret = makeFillValueInt64(int64(fv))
 
 	case typeChar:
 		var fv byte
 		if hasUserFV {
-			fv = userFV.(byte)
+			if str, ok := userFV.(string); ok && len(str) == 1 {
+				// characters are read as strings
+				userFV = str[0]
+			}
+			fv = fillValue[byte](userFV)
 		} else {
 			fv = byte(internal.FillChar)
 		}
-		fillValue = []byte{fv}
+		ret = []byte{fv}
 
 	default:
 		thrower.Throw(ErrInternal)
 	}
-	return io.MultiReader(bf, internal.NewFillValueReader(fillValue))
+	return ret
 }
-- 
2.43.0


From bc2471ed0eed7244c8d69db7a2035a5630e88b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 14/44] fix: write the HDF5 heap before the dimension scales,
 in as many collections as needed

---
 netcdf/hdf5/hdf5writer.go   | 62 +++++++++++++++++++++++--------------
 netcdf/hdf5/writer_utils.go | 18 ++++-------
 2 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ddc9f2d..46e84ff 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -40,7 +40,7 @@ type h5Group struct {
 }
 
 type h5GlobalHeap struct {
-	addr    uint64
+	addrs   []uint64 // address of each collection
 	objects [][]byte
 	indices map[string]uint32
 }
@@ -56,6 +56,7 @@ type HDF5Writer struct {
 	buf             *bytes.Buffer
 	root            *h5Group
 	heap            *h5GlobalHeap
+	refHeap         *h5GlobalHeap // for the dimension references
 	closed          bool
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
 	byteOrder       binary.ByteOrder
@@ -78,19 +79,19 @@ func (hw *HDF5Writer) Close() (err error) {
 	// 1. Write Superblock V2 (48 bytes)
 	hw.writeSuperblockV2()
 
-	// 2. Write dimension scale variable data and OHs first,
-	//    so we know their addresses for DIMENSION_LIST references.
-	hw.writeDimScaleContents(hw.root)
-
-	// 3. Collect strings, vlen data, and dimension references, then write global heap
+	// 2. Collect strings and vlen data, then write global heap
 	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
+	hw.writeGlobalHeap(hw.heap)
+
+	// 3. Write dimension scale variable data and OHs, so we know their addresses
+	//    for DIMENSION_LIST references, and then a global heap of the references.
+	hw.writeDimScaleContents(hw.root)
+	hw.refHeap = &h5GlobalHeap{indices: make(map[string]uint32)}
 	hw.collectDimReferences(hw.root)
-	if len(hw.heap.objects) > 0 {
-		hw.writeGlobalHeap()
-	}
+	hw.writeGlobalHeap(hw.refHeap)
 
 	// 4. Write data variables and subgroups
 	hw.writeGroupContents(hw.root)
@@ -260,7 +261,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			if dname == "" {
 				continue
 			}
-			if _, ok := hw.heap.indices["__dimref:"+dname]; ok {
+			if _, ok := hw.refHeap.indices[dname]; ok {
 				continue
 			}
 			addr, ok := hw.dimAddrs[dname]
@@ -270,8 +271,8 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			// Store the 8-byte object reference in the global heap
 			ref := make([]byte, 8)
 			binary.LittleEndian.PutUint64(ref, addr)
-			hw.heap.objects = append(hw.heap.objects, ref)
-			hw.heap.indices["__dimref:"+dname] = uint32(len(hw.heap.objects))
+			hw.refHeap.objects = append(hw.refHeap.objects, ref)
+			hw.refHeap.indices[dname] = uint32(len(hw.refHeap.objects))
 		}
 	}
 	for _, sub := range g.groups {
@@ -408,7 +409,7 @@ func (hw *HDF5Writer) writeVarObjectHeaderV2(v *h5Var, dataAddr uint64, dataSize
 	}
 
 	// Add DIMENSION_LIST attribute for data variables (not dim scales)
-	if !v.isDimScale && len(v.dimensions) > 0 && hw.heap != nil {
+	if !v.isDimScale && len(v.dimensions) > 0 {
 		dimListMsg := hw.buildDimensionListAttribute(v.dimensions)
 		if dimListMsg != nil {
 			messages = append(messages, *dimListMsg)
@@ -535,8 +536,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 		if dimRemaining <= 0 {
 			idx := hw.vlenHeapIndices[hw.vlenPos]
 			util.MustWriteLE(hw.buf, uint32(rv.Len()))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.heap.writeID(hw.buf, idx)
 			hw.vlenPos++
 			return
 		}
@@ -558,8 +558,7 @@ func (hw *HDF5Writer) writeDataRecursive(rv reflect.Value, fixedLen int, dimRema
 			str := rv.String()
 			idx := hw.heap.indices[str]
 			util.MustWriteLE(hw.buf, uint32(len(str)))
-			util.MustWriteLE(hw.buf, hw.heap.addr)
-			util.MustWriteLE(hw.buf, idx)
+			hw.heap.writeID(hw.buf, idx)
 		}
 		return
 	}
@@ -941,15 +940,31 @@ func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
 	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
 }
 
-func (hw *HDF5Writer) writeGlobalHeap() {
-	gh := hw.heap
+// maxGCOLObjects is the number of objects that the 16-bit index can address.
+const maxGCOLObjects = 65535
+
+// writeID writes the global heap ID of the object with the given index.
+// The indices start at one, and continue from one collection to the next.
+func (gh *h5GlobalHeap) writeID(buf *bytes.Buffer, index uint32) {
+	util.MustWriteLE(buf, gh.addrs[(index-1)/maxGCOLObjects])
+	util.MustWriteLE(buf, (index-1)%maxGCOLObjects+1)
+}
+
+// writeGlobalHeap writes as many collections as the objects need.
+func (hw *HDF5Writer) writeGlobalHeap(gh *h5GlobalHeap) {
+	for objects := range slices.Chunk(gh.objects, maxGCOLObjects) {
+		gh.addrs = append(gh.addrs, hw.writeGlobalHeapCollection(objects))
+	}
+}
 
+// writeGlobalHeapCollection writes the objects and returns the collection's address.
+func (hw *HDF5Writer) writeGlobalHeapCollection(objects [][]byte) uint64 {
 	// Align to 8 bytes so that objects within the collection are
 	// properly aligned when using absolute buffer position for padding.
 	for (hw.buf.Len() % 8) != 0 {
 		util.MustWriteByte(hw.buf, 0)
 	}
-	gh.addr = uint64(hw.buf.Len())
+	addr := uint64(hw.buf.Len())
 
 	// Collection Header
 	util.MustWriteRaw(hw.buf, []byte("GCOL"))
@@ -959,7 +974,7 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	sizeAddr := hw.buf.Len()
 	util.MustWriteLE(hw.buf, uint64(0)) // placeholder for size
 
-	for i, obj := range gh.objects {
+	for i, obj := range objects {
 		util.MustWriteLE(hw.buf, uint16(i+1)) // index
 		util.MustWriteLE(hw.buf, uint16(0))   // ref count
 		util.MustWriteLE(hw.buf, uint32(0))   // reserved
@@ -977,7 +992,7 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	// header — it represents the total remaining bytes from the start of
 	// the entry to the end of the collection.
 	const minGCOLSize = 4096
-	currentSize := hw.buf.Len() - int(gh.addr)
+	currentSize := hw.buf.Len() - int(addr)
 	totalSize := currentSize + 16 // at least room for the free space header
 	if totalSize < minGCOLSize {
 		totalSize = minGCOLSize
@@ -992,9 +1007,10 @@ func (hw *HDF5Writer) writeGlobalHeap() {
 	}
 
 	// Final size
-	finalSize := uint64(hw.buf.Len()) - gh.addr
+	finalSize := uint64(hw.buf.Len()) - addr
 	data := hw.buf.Bytes()
 	binary.LittleEndian.PutUint64(data[sizeAddr:], finalSize)
+	return addr
 }
 
 func (hw *HDF5Writer) getDimensions(val any) []uint64 {
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index f67ac72..755b199 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -373,8 +373,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 		if dimRemaining <= 0 {
 			idx := hw.vlenHeapIndices[hw.vlenPos]
 			util.MustWriteLE(buf, uint32(rv.Len()))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.heap.writeID(buf, idx)
 			hw.vlenPos++
 			return
 		}
@@ -396,8 +395,7 @@ func (hw *HDF5Writer) writeAttributeDataRecursive(buf *bytes.Buffer, rv reflect.
 			str := rv.String()
 			idx := hw.heap.indices[str]
 			util.MustWriteLE(buf, uint32(len(str)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.heap.writeID(buf, idx)
 		}
 		return
 	}
@@ -423,8 +421,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			// Vlen string descriptor
 			idx := hw.heap.indices[v]
 			util.MustWriteLE(buf, uint32(len(v)))
-			util.MustWriteLE(buf, hw.heap.addr)
-			util.MustWriteLE(buf, idx)
+			hw.heap.writeID(buf, idx)
 		case compound:
 			hw.writeCompoundValue(buf, v)
 		case opaque:
@@ -437,8 +434,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 			if rv.Kind() == reflect.Slice {
 				idx := hw.vlenHeapIndices[hw.vlenPos]
 				util.MustWriteLE(buf, uint32(rv.Len()))
-				util.MustWriteLE(buf, hw.heap.addr)
-				util.MustWriteLE(buf, idx)
+				hw.heap.writeID(buf, idx)
 				hw.vlenPos++
 			} else {
 				thrower.Throw(ErrUnsupportedType)
@@ -601,10 +597,8 @@ func (hw *HDF5Writer) buildDimensionListAttribute(dimNames []string) *h5Message
 
 	// Write VLEN descriptors: for each dimension, one reference
 	for _, dname := range dimNames {
-		heapIdx := hw.heap.indices["__dimref:"+dname]
-		util.MustWriteLE(buf, uint32(1))       // length: 1 reference
-		util.MustWriteLE(buf, hw.heap.addr)    // global heap address
-		util.MustWriteLE(buf, heapIdx)         // global heap object index
+		util.MustWriteLE(buf, uint32(1)) // length: 1 reference
+		hw.refHeap.writeID(buf, hw.refHeap.indices[dname])
 	}
 
 	msg := h5Message{mType: 12, data: buf.Bytes()}
-- 
2.43.0


From eaa89d4e4c627db1a174488551a6f9fb50f4fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 15/44] fix: write HDF5 names over 255 bytes, and refuse
 messages that do not fit

---
 netcdf/hdf5/hdf5writer.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index 46e84ff..bbda95e 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -17,6 +17,7 @@ import (
 
 var (
 	ErrInvalidName = errors.New("invalid name")
+	ErrTooLarge    = errors.New("attribute or name too large")
 )
 
 type h5Var struct {
@@ -431,8 +432,13 @@ func (hw *HDF5Writer) buildLinkInfoMessage() h5Message {
 func (hw *HDF5Writer) buildLinkMessage(name string, addr uint64) h5Message {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 1) // version
-	util.MustWriteByte(buf, 0) // flags
-	util.MustWriteByte(buf, byte(len(name)))
+	if len(name) <= 255 {
+		util.MustWriteByte(buf, 0) // flags
+		util.MustWriteByte(buf, byte(len(name)))
+	} else {
+		util.MustWriteByte(buf, 2) // flags: 4-byte length of the name
+		util.MustWriteLE(buf, uint32(len(name)))
+	}
 	util.MustWriteRaw(buf, []byte(name))
 	util.MustWriteLE(buf, addr)
 
@@ -456,6 +462,10 @@ func (hw *HDF5Writer) writeObjectHeaderV2(messages []h5Message) {
 
 	msgBuf := new(bytes.Buffer)
 	for _, m := range messages {
+		if len(m.data) > 65535 {
+			// The size of a message has 16 bits.
+			thrower.Throw(ErrTooLarge)
+		}
 		util.MustWriteByte(msgBuf, byte(m.mType))
 		util.MustWriteLE(msgBuf, uint16(len(m.data)))
 		util.MustWriteByte(msgBuf, m.flags)
-- 
2.43.0


From f09f0d7d189fadfc7989453092b525eaed233038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:31 +0000
Subject: [PATCH 16/44] fix: close the HDF5 file when it cannot be written, and
 accept nil attributes

---
 netcdf/hdf5/hdf5writer.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index bbda95e..a8a34a9 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -71,6 +71,12 @@ func (hw *HDF5Writer) Close() (err error) {
 		return nil
 	}
 	hw.closed = true
+	defer func() {
+		closeErr := hw.file.Close()
+		if err == nil {
+			err = closeErr
+		}
+	}()
 
 	// 0. Add NetCDF4 metadata
 	hw.addNCProperties()
@@ -112,10 +118,6 @@ func (hw *HDF5Writer) Close() (err error) {
 	binary.LittleEndian.PutUint32(data[44:], sbChecksum)
 
 	_, err = hw.file.Write(data)
-	if err != nil {
-		return err
-	}
-	err = hw.file.Close()
 	return err
 }
 
@@ -1080,12 +1082,13 @@ func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
 	if !hasValidNames(attrs) {
 		return ErrInvalidName
 	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
+	if attrs == nil {
+		attrs, _ = util.NewOrderedMap(nil, nil)
+	}
+	for _, k := range attrs.Keys() {
+		v, _ := attrs.Get(k)
+		if !isSupportedType(v) {
+			return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 		}
 	}
 	hw.root.attributes = attrs
-- 
2.43.0


From 29f6a02d6bedb4f6e8fe169218f096373a3d0c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 17/44] fix: refuse invalid text in names, invalid dimension
 names, and dimensions the CDF reader refuses

---
 internal/validname.go   | 11 ++++++++++-
 netcdf/cdf/cdfwriter.go |  8 ++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/internal/validname.go b/internal/validname.go
index 783a858..cc9392f 100644
--- a/internal/validname.go
+++ b/internal/validname.go
@@ -2,6 +2,8 @@ package internal
 
 import (
 	"regexp"
+	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -32,5 +34,12 @@ func init() {
 
 // IsValidNetCDFName returns true if name is a valid NetCDF name.
 func IsValidNetCDFName(name string) bool {
-	return re.MatchString(name) && !antiRe.MatchString(name)
+	return utf8.ValidString(name) && re.MatchString(name) && !antiRe.MatchString(name)
+}
+
+// IsValidDimensionName returns true if name is a valid name for a dimension,
+// which follows the same rules except that it may start with underscores.
+func IsValidDimensionName(name string) bool {
+	return IsValidNetCDFName(strings.TrimLeft(name, "_")) ||
+		name != "" && strings.Trim(name, "_") == ""
 }
diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index 5a49b4a..b27b700 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -473,6 +473,11 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 	if !hasValidNames(vr.Attributes) {
 		return ErrInvalidName
 	}
+	for _, dimName := range vr.Dimensions {
+		if dimName != "" && !internal.IsValidDimensionName(dimName) {
+			return ErrInvalidName
+		}
+	}
 	for i := range cw.vars {
 		if cw.vars[i].name == name {
 			return ErrDuplicateVariable
@@ -528,6 +533,9 @@ func (cw *CDFWriter) AddVar(name string, vr api.Variable) (err error) {
 			}
 		}
 	}
+	if len(cw.dimNames)+len(newNames) > maxDimensions {
+		thrower.Throw(ErrTooManyDimensions)
+	}
 	for _, dimName := range newNames {
 		cw.dimLengths[dimName] = newLengths[dimName]
 		cw.dimIds[dimName] = cw.nextID
-- 
2.43.0


From c3f9d11c1e66510a80db1ffc5b6706214fed266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 18/44] fix: refuse HDF5 datasets that cannot be represented
 when they are added

---
 netcdf/hdf5/hdf5writer.go | 246 ++++++++++++++++++++++++++------------
 1 file changed, 169 insertions(+), 77 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index a8a34a9..ddb4933 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"maps"
 	"os"
 	"reflect"
 	"slices"
@@ -18,6 +19,15 @@ import (
 var (
 	ErrInvalidName = errors.New("invalid name")
 	ErrTooLarge    = errors.New("attribute or name too large")
+
+	ErrClosed        = errors.New("writer is closed")
+	ErrDuplicateName = errors.New("name already in use")
+	ErrDimensionSize = errors.New("dimension doesn't match size")
+)
+
+var (
+	compoundType   = reflect.TypeOf(compound{})
+	opaqueType     = reflect.TypeOf(opaque{})
 )
 
 type h5Var struct {
@@ -60,6 +70,7 @@ type HDF5Writer struct {
 	refHeap         *h5GlobalHeap // for the dimension references
 	closed          bool
 	dimAddrs        map[string]uint64 // dimension name → dim scale variable OH address
+	dimSizes        map[string]uint64 // dimension name → size, for the variables added so far
 	byteOrder       binary.ByteOrder
 	vlenHeapIndices []uint32 // per-variable vlen heap indices during data write
 	vlenPos         int      // counter into vlenHeapIndices during data write
@@ -910,7 +921,8 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 		dims = append(dims, uint64(rv.Len()))
 		nDims++
 		if rv.Len() == 0 {
-			break
+			rv = reflect.Zero(rv.Type().Elem()) // keep the rank when empty
+			continue
 		}
 		// Check if inner elements have varying lengths (= vlen boundary)
 		if rv.Len() > 1 && rv.Index(0).Kind() == reflect.Slice {
@@ -1058,6 +1070,9 @@ func getDimensionsRecursive(rv reflect.Value) []uint64 {
 // this function stops after maxDepth levels so the excess nesting can be
 // identified as vlen data.
 func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
+	if !rv.IsValid() {
+		return nil
+	}
 	if e, ok := rv.Interface().(enumerated); ok {
 		return getDimensionsLimited(reflect.ValueOf(e.values), maxDepth)
 	}
@@ -1069,141 +1084,212 @@ func getDimensionsLimited(rv reflect.Value, maxDepth int) []uint64 {
 			return nil
 		}
 		dims := []uint64{uint64(rv.Len())}
+		elem := reflect.Zero(rv.Type().Elem()) // keep the rank when empty
 		if rv.Len() > 0 {
-			inner := getDimensionsLimited(rv.Index(0), maxDepth-1)
-			dims = append(dims, inner...)
+			elem = rv.Index(0)
 		}
-		return dims
+		return append(dims, getDimensionsLimited(elem, maxDepth-1)...)
 	}
 	return nil
 }
 
 func (hw *HDF5Writer) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
+	return hw.addAttributes(hw.root, attrs)
+}
+
+func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
+	return hw.addVar(hw.root, name, vr)
+}
+
+func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
+	return hw.createGroup(hw.root, name)
+}
+
+type groupWriter struct {
+	hw    *HDF5Writer
+	group *h5Group
+}
+
+func (gw *groupWriter) Close() error {
+	return nil
+}
+
+func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
+	return gw.hw.addAttributes(gw.group, attrs)
+}
+
+func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
+	return gw.hw.addVar(gw.group, name, vr)
+}
+
+func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
+	return gw.hw.createGroup(gw.group, name)
+}
+
+// addAttributes sets the attributes of the group.
+func (hw *HDF5Writer) addAttributes(g *h5Group, attrs api.AttributeMap) error {
+	if hw.closed {
+		return ErrClosed
 	}
 	if attrs == nil {
 		attrs, _ = util.NewOrderedMap(nil, nil)
 	}
-	for _, k := range attrs.Keys() {
-		v, _ := attrs.Get(k)
-		if !isSupportedType(v) {
-			return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-		}
+	if err := checkAttributes(attrs); err != nil {
+		return err
 	}
-	hw.root.attributes = attrs
+	g.attributes = attrs
 	return nil
 }
 
-func (hw *HDF5Writer) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
+// addVar adds the variable to the group, if it is valid.
+func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) error {
+	if hw.closed {
+		return ErrClosed
 	}
-	if !hasValidNames(vr.Attributes) {
+	if !internal.IsValidNetCDFName(name) {
 		return ErrInvalidName
 	}
 	if !isSupportedType(vr.Values) {
 		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
 	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
+	if err := checkAttributes(vr.Attributes); err != nil {
+		return err
+	}
+	if g.vars[name] != nil || g.groups[name] != nil {
+		return ErrDuplicateName
+	}
+	rv := reflect.ValueOf(vr.Values)
+	shape := getDimensionsLimited(rv, len(vr.Dimensions))
+	if len(shape) != len(vr.Dimensions) || !hasShape(rv, shape) {
+		return ErrDimensionality
+	}
+	if levelsBelow(rv, len(shape)) > 1 {
+		// Only one-dimensional slices can be ragged rows.
+		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
+	}
+	dimSizes := make(map[string]uint64)
+	for i, dimName := range vr.Dimensions {
+		if dimName == "" {
+			continue
+		}
+		if !internal.IsValidDimensionName(dimName) {
+			return ErrInvalidName
+		}
+		for _, sizes := range []map[string]uint64{hw.dimSizes, dimSizes} {
+			if size, has := sizes[dimName]; has && size != shape[i] {
+				return ErrDimensionSize
 			}
 		}
+		dimSizes[dimName] = shape[i]
 	}
-	hw.root.vars[name] = &h5Var{
+	// The dimensions are stored in the root group.
+	for dimName := range dimSizes {
+		if v := hw.root.vars[dimName]; hw.root.groups[dimName] != nil ||
+			v != nil && !isCoordinate(dimName, v.dimensions) {
+			return ErrDuplicateName
+		}
+	}
+	if _, isDim := hw.dimSizes[name]; g == hw.root && !isCoordinate(name, vr.Dimensions) &&
+		(isDim || slices.Contains(vr.Dimensions, name)) {
+		return ErrDuplicateName
+	}
+	maps.Copy(hw.dimSizes, dimSizes)
+	g.vars[name] = &h5Var{
 		name:       name,
 		val:        vr.Values,
-		dimensions: vr.Dimensions,
+		dimensions: slices.Clone(vr.Dimensions),
 		attributes: vr.Attributes,
 	}
 	return nil
 }
 
-func (hw *HDF5Writer) CreateGroup(name string) (api.Writer, error) {
+// createGroup returns the subgroup of that name, which is created if need be.
+func (hw *HDF5Writer) createGroup(parent *h5Group, name string) (api.Writer, error) {
+	if hw.closed {
+		return nil, ErrClosed
+	}
 	if !internal.IsValidNetCDFName(name) {
 		return nil, ErrInvalidName
 	}
-	if g, ok := hw.root.groups[name]; ok {
+	if g, ok := parent.groups[name]; ok {
 		return &groupWriter{hw: hw, group: g}, nil
 	}
+	_, isDim := hw.dimSizes[name]
+	if parent.vars[name] != nil || parent == hw.root && isDim {
+		return nil, ErrDuplicateName
+	}
 	g := &h5Group{
 		name:   name,
 		groups: make(map[string]*h5Group),
 		vars:   make(map[string]*h5Var),
 	}
-	hw.root.groups[name] = g
+	parent.groups[name] = g
 	return &groupWriter{hw: hw, group: g}, nil
 }
 
-type groupWriter struct {
-	hw    *HDF5Writer
-	group *h5Group
-}
-
-func (gw *groupWriter) Close() error {
-	return nil
+// isCoordinate returns true if the name and dimensions are of a coordinate variable.
+func isCoordinate(name string, dimensions []string) bool {
+	return len(dimensions) == 1 && dimensions[0] == name
 }
 
-func (gw *groupWriter) AddAttributes(attrs api.AttributeMap) error {
-	if !hasValidNames(attrs) {
-		return ErrInvalidName
+// hasShape returns true if the value is rectangular, and of the given shape.
+func hasShape(rv reflect.Value, shape []uint64) bool {
+	if len(shape) == 0 {
+		return true
 	}
-	if attrs != nil {
-		for _, k := range attrs.Keys() {
-			v, _ := attrs.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
+	if e, ok := rv.Interface().(enumerated); ok {
+		return hasShape(reflect.ValueOf(e.values), shape)
+	}
+	if uint64(rv.Len()) != shape[0] {
+		return false
+	}
+	for i := range rv.Len() {
+		if !hasShape(rv.Index(i), shape[1:]) {
+			return false
 		}
 	}
-	gw.group.attributes = attrs
-	return nil
+	return true
 }
 
-func (gw *groupWriter) AddVar(name string, vr api.Variable) error {
-	if !internal.IsValidNetCDFName(name) {
-		return ErrInvalidName
-	}
-	if !hasValidNames(vr.Attributes) {
-		return ErrInvalidName
-	}
-	if !isSupportedType(vr.Values) {
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
+// levelsBelow returns how many levels of slices there are below the given depth.
+func levelsBelow(rv reflect.Value, depth int) int {
+	if e, ok := rv.Interface().(enumerated); ok {
+		return levelsBelow(reflect.ValueOf(e.values), depth)
 	}
-	if vr.Attributes != nil {
-		for _, k := range vr.Attributes.Keys() {
-			v, _ := vr.Attributes.Get(k)
-			if !isSupportedType(v) {
-				return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
-			}
+	levels := -depth
+	for t := rv.Type(); t.Kind() == reflect.Slice || t.Kind() == reflect.Array; t = t.Elem() {
+		if t == compoundType || t == opaqueType {
+			break
 		}
+		levels++
 	}
-	gw.group.vars[name] = &h5Var{
-		name:       name,
-		val:        vr.Values,
-		dimensions: vr.Dimensions,
-		attributes: vr.Attributes,
-	}
-	return nil
+	return levels
 }
 
-func (gw *groupWriter) CreateGroup(name string) (api.Writer, error) {
-	if !internal.IsValidNetCDFName(name) {
-		return nil, ErrInvalidName
+// checkAttributes returns an error if there is an attribute that cannot be written.
+func checkAttributes(attrs api.AttributeMap) error {
+	if attrs == nil {
+		return nil
 	}
-	if g, ok := gw.group.groups[name]; ok {
-		return &groupWriter{hw: gw.hw, group: g}, nil
+	if !hasValidNames(attrs) {
+		return ErrInvalidName
 	}
-	g := &h5Group{
-		name:   name,
-		groups: make(map[string]*h5Group),
-		vars:   make(map[string]*h5Var),
+	for _, k := range attrs.Keys() {
+		v, _ := attrs.Get(k)
+		if !isSupportedType(v) {
+			return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
+		}
+		// Ragged rows are possible only in two dimensions, and not for strings.
+		rv := reflect.ValueOf(v)
+		depth := levelsBelow(rv, 0)
+		if hasShape(rv, getDimensionsLimited(rv, depth)) {
+			continue
+		}
+		if depth != 2 || rv.Type().Elem().Elem().Kind() == reflect.String {
+			return fmt.Errorf("%w: ragged %T", ErrUnsupportedType, v)
+		}
 	}
-	gw.group.groups[name] = g
-	return &groupWriter{hw: gw.hw, group: g}, nil
+	return nil
 }
 
 // isSupportedType checks whether val is a type the HDF5/NetCDF4 writer can
@@ -1291,6 +1377,11 @@ func hasValidNames(am api.AttributeMap) bool {
 		if !internal.IsValidNetCDFName(key) {
 			return false
 		}
+		switch key {
+		case "CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST":
+			// Reserved for dimension scales
+			return false
+		}
 	}
 	return true
 }
@@ -1305,6 +1396,7 @@ func OpenWriter(fileName string) (api.Writer, error) {
 		file:      file,
 		buf:       new(bytes.Buffer),
 		byteOrder: util.NativeByteOrder,
+		dimSizes:  make(map[string]uint64),
 		root: &h5Group{
 			name:       "/",
 			groups:     make(map[string]*h5Group),
-- 
2.43.0


From 0fec152e604af6f4c5c0bae89c5f498239cc1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 19/44] fix: read slices and partial chunks of any shape, and
 verify every fletcher32 sum

---
 netcdf/hdf5/hdf5.go    |  91 ++++++++--------
 netcdf/hdf5/readers.go | 228 ++++++++++++++++++++++-------------------
 2 files changed, 167 insertions(+), 152 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index fa48e1d..f4a3d69 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2453,28 +2453,14 @@ func makeSlices(ty reflect.Type, dimLengths []uint64) reflect.Value {
 	return reflect.MakeSlice(sliceType, int(dimLengths[0]), int(dimLengths[0]))
 }
 
-func readAll(bf io.Reader, b []byte) (uint64, error) {
-	tot := uint64(0)
-	for {
-		n, err := bf.Read(b)
-		if n == 0 {
-			break
-		}
-		tot += uint64(n)
-		b = b[n:]
-		if err == io.EOF {
-			return tot, err
-		}
-		if err != nil {
-			logger.Error("Some other error", err)
-			return tot, err
+func (h5 *HDF5) newRecordReader(obj *object) remReader {
+	if layout := obj.objAttr.layout; len(layout) > 0 {
+		assertError(len(layout) == len(obj.objAttr.dimensions), ErrCorrupted,
+			"the chunks do not have the dimensions of the data")
+		for _, v := range layout {
+			assertError(v > 0, ErrCorrupted, "zero-length chunk")
 		}
 	}
-	return tot, nil
-}
-
-func (h5 *HDF5) newRecordReader(obj *object) remReader {
-	nBlocks := len(obj.dataBlocks)
 	size := uint64(calcAttrSize(obj.objAttr))
 	if size == 0 {
 		return newResetReaderFromBytes([]byte{})
@@ -2482,25 +2468,42 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 	logger.Info("size=", size, "dtlength=", obj.objAttr.length, "dims=", obj.objAttr.dimensions)
 	firstOffset := uint64(0)
 	lastOffset := uint64(size)
+	// offsets for finding chunks, which are as if there were no chunks
+	firstKey, lastKey := uint64(0), uint64(math.MaxUint64)
 	segments := newSegments()
-	if obj.objAttr.isSlice && !needsLayoutReader(obj.objAttr) {
+	switch {
+	case obj.objAttr.isSlice && needsLayoutReader(obj.objAttr):
+		firstSlab, endSlab := calcSlabs(obj.objAttr)
+		slabSize := calcSlabSize(obj.objAttr)
+		firstOffset = firstSlab * slabSize
+		lastOffset = endSlab * slabSize
+		size = lastOffset - firstOffset
+		slabRowSize := obj.objAttr.layout[0] * calcRowSize(obj.objAttr)
+		firstKey = firstSlab * slabRowSize
+		lastKey = endSlab * slabRowSize
+	case obj.objAttr.isSlice:
 		if len(obj.objAttr.dimensions) > 0 && obj.objAttr.dimensions[0] > 0 {
 			dimSize := size / obj.objAttr.dimensions[0]
 			firstOffset = uint64(obj.objAttr.firstDim) * dimSize
 			lastOffset = uint64(obj.objAttr.lastDim) * dimSize
 			size = lastOffset - firstOffset
+			firstKey, lastKey = firstOffset, lastOffset
 		}
 	}
-	if nBlocks == 0 && obj.btreeAddr != 0 {
-		h5.readBTreeNode(obj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstOffset, lastOffset)
-		nBlocks = len(obj.dataBlocks)
+	dataBlocks := obj.dataBlocks
+	if len(dataBlocks) == 0 && obj.btreeAddr != 0 {
+		// Don't save these blocks in the object, they may be for a slice only.
+		tmpObj := *obj
+		h5.readBTreeNode(&tmpObj, obj.btreeAddr, obj.chunkSize, obj.numberOfElements, obj.dimensionality, firstKey, lastKey)
+		dataBlocks = tmpObj.dataBlocks
 	}
+	nBlocks := len(dataBlocks)
 	if nBlocks == 0 {
 		logger.Info("No blocks, filling only", size, obj.objAttr.dimensions)
 		return makeFillValueReader(obj, nil, int64(size))
 	}
 	offset := uint64(0)
-	for _, val := range obj.dataBlocks {
+	for _, val := range dataBlocks {
 		dsLength := val.dsLength
 		skipBegin := uint64(0)
 		skipEnd := uint64(0)
@@ -2517,7 +2520,10 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			continue
 		}
 		if offset >= lastOffset {
-			break
+			if len(obj.objAttr.layout) == 0 {
+				break
+			}
+			continue // chunks are not necessarily in order
 		}
 		if firstOffset >= offset && firstOffset < offset+dsLength {
 			skipBegin = (firstOffset - offset)
@@ -2561,8 +2567,11 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 			}
 			switch f.kind {
 			case filterFletcher32:
-				bf = fletcher32Reader(bf, inputSize)
+				// Read all of it, because it can't be verified otherwise.
+				fbf := fletcher32Reader(bf, inputSize)
 				inputSize -= 4
+				bf = newResetReaderSave(fbf, int64(inputSize))
+				canSeek = false
 			case filterDeflate:
 				zbf, err := zlib.NewReader(bf)
 				if err != nil {
@@ -2616,11 +2625,11 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 		}
 		assert(seg.offset <= off, "discontiguous data")
 		logger.Infof("Reader at offset 0x%x length %d", seg.offset, seg.length)
-		readers = append(readers, newResetReader(r, int64(seg.length)))
+		readers = append(readers, newExactReader(r, int64(seg.length)))
 		off += seg.length
 	}
-	if size > off {
-		extra := size - off
+	if lastOffset > off {
+		extra := lastOffset - off
 		logger.Infof("Fill value reader at end offset 0x%x length %d",
 			off, extra)
 		readers = append(readers, makeFillValueReader(obj, nil, int64(extra)))
@@ -2634,7 +2643,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 func (h5 *HDF5) newMaybeLayoutRecordReader(obj *object) io.Reader {
 	r := h5.newRecordReader(obj)
 	if needsLayoutReader(obj.objAttr) {
-		return newLayoutReader(r, obj)
+		return newLayoutReader(r, obj.objAttr)
 	}
 	return r
 }
@@ -2692,7 +2701,7 @@ func makeFillValueReader(obj *object, bf io.Reader, length int64) remReader {
 
 func (h5 *HDF5) getData(obj *object) any {
 	attr := obj.objAttr
-	sz := calcAttrSize(obj.objAttr)
+	sz := calcDataSize(attr) * uint64(attr.length)
 	bf := h5.newMaybeLayoutRecordReader(obj)
 	logger.Info("about to getdataattr rem=", bf.(remReader).Rem(), "size=", sz)
 	if int64(sz) > bf.(remReader).Rem() {
@@ -2703,21 +2712,7 @@ func (h5 *HDF5) getData(obj *object) any {
 	var bff io.Reader
 	if attr.isSlice {
 		assert(attr.lastDim >= attr.firstDim, "bad slice params")
-		var chunkSize int64
-		switch {
-		case len(attr.dimensions) == 0:
-			chunkSize = 1
-		case attr.dimensions[0] == 0:
-			chunkSize = 0
-		default:
-			chunkSize = int64(sz) / int64(attr.dimensions[0])
-			if needsLayoutReader(attr) {
-				// The above calculation could be wrong due to layout chunks.
-				// The calculation is not simple and is a TODO.
-				logger.Info("var slices with chunked layout not fully implemented")
-			}
-		}
-		sliceSize := chunkSize * (attr.lastDim - attr.firstDim)
+		sliceSize := int64(calcRowSize(attr)) * (attr.lastDim - attr.firstDim)
 		bff = newResetReader(bf, sliceSize)
 	} else {
 		bff = newResetReader(bf, int64(sz))
@@ -3322,6 +3317,8 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 			return nil, errors.New("invalid slice parameters")
 		}
 		fakeObj := *found
+		fakeAttr := *found.objAttr
+		fakeObj.objAttr = &fakeAttr
 		fakeObj.objAttr.isSlice = true
 		fakeObj.objAttr.firstDim = begin
 		fakeObj.objAttr.lastDim = end
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index 28f222b..de96d76 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -101,9 +101,13 @@ func (fl *fletcher) Read(b []byte) (int, error) {
 	if err != nil && err != io.EOF {
 		return 0, err
 	}
+	// Ones' complement sums: they are zero only if everything added is zero.
+	fold := func(sum uint32) uint32 {
+		return (sum & 0xffff) + (sum >> 16)
+	}
 	addToSums := func(val uint16) {
-		fl.sum1 = (fl.sum1 + uint32(val)) % 65535
-		fl.sum2 = (fl.sum1 + fl.sum2) % 65535
+		fl.sum1 = fold(fl.sum1 + uint32(val))
+		fl.sum2 = fold(fl.sum1 + fl.sum2)
 	}
 	for i := 0; i < n; i++ {
 		var val uint16
@@ -188,6 +192,25 @@ func newResetReaderOffset(file *raFile, size int64, offset uint64) remReader {
 	return ret
 }
 
+// exactReader reads exactly the given size, it is an error if there is less.
+type exactReader struct {
+	r    io.Reader
+	size int64 // what remains to be read
+}
+
+func newExactReader(r io.Reader, size int64) io.Reader {
+	return &exactReader{io.LimitReader(r, size), size}
+}
+
+func (er *exactReader) Read(p []byte) (int, error) {
+	n, err := er.r.Read(p)
+	er.size -= int64(n)
+	if err == io.EOF && er.size > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	return n, err
+}
+
 func newRaFile(file io.ReadSeeker) *raFile {
 	return &raFile{
 		rcFile:      newRefCountedFile(file),
@@ -319,11 +342,9 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	var err error
 	if r.b == nil {
 		r.b = make([]byte, r.size)
-		tot, err := readAll(r.r, r.b)
-		unshuffle(r.b[:tot], r.shuffleParam)
-		if err != nil {
-			assert(err == io.EOF, err.Error())
-		}
+		_, err := io.ReadFull(r.r, r.b)
+		thrower.ThrowIfError(err)
+		unshuffle(r.b, r.shuffleParam)
 	}
 	copy(p, r.b[:thisLen])
 	r.b = r.b[thisLen:]
@@ -334,13 +355,17 @@ func (r *unshuffleReader) Read(p []byte) (int, error) {
 	return int(thisLen), err
 }
 
+// layoutReader puts the data of chunks into row-major order.
+// It reads one slab at a time: a slab is all of the chunks which have the same position
+// in the first dimension.
 type layoutReader struct {
-	r           remReader
-	obj         *object
-	buf         []byte
-	size        int64
-	count       uint64 // number bytes produced
-	stripeIndex int
+	r       remReader // the chunks, beginning with the first chunk of the first slab
+	attr    *attribute
+	buf     []byte
+	size    int64
+	count   uint64 // number bytes produced
+	slab    uint64 // next slab to read
+	endSlab uint64 // the slab after the last one
 }
 
 // calcChunkSize calculates the size of a chunk
@@ -398,125 +423,103 @@ func calculateFlatOffset(offsets []uint64, dims []uint64, layout []uint64, dtLen
 	return flatChunkIndex * chunkSize * dtLength
 }
 
-func (lr *layoutReader) fillrow() error {
-	attr := lr.obj.objAttr
-	dims := attr.dimensions
-	layout := attr.layout
-	dtLength := uint64(attr.length)
-	rank := len(dims)
-
-	// Grid dimensions
-	g := make([]int, rank)
-	totalStripes := 1
-	for i := range rank {
-		g[i] = int((dims[i] + layout[i] - 1) / layout[i])
-		if i < rank-1 {
-			totalStripes *= g[i]
-		}
+// calcSlabSize computes the size in bytes of a slab of chunks.
+func calcSlabSize(attr *attribute) uint64 {
+	size := calcChunkSize(attr) * uint64(attr.length)
+	for i := 1; i < len(attr.dimensions); i++ {
+		size *= (attr.dimensions[i] + attr.layout[i] - 1) / attr.layout[i]
 	}
+	return size
+}
 
-	if lr.stripeIndex >= totalStripes {
-		return io.EOF
+// calcRowSize computes the size in bytes of the data for one index of the first dimension.
+func calcRowSize(attr *attribute) uint64 {
+	size := uint64(attr.length)
+	for i := 1; i < len(attr.dimensions); i++ {
+		size *= attr.dimensions[i]
 	}
+	return size
+}
 
-	// Current stripe grid coordinates
-	stripeCoords := make([]int, rank-1)
-	tempIndex := lr.stripeIndex
-	for i := rank - 2; i >= 0; i-- {
-		stripeCoords[i] = tempIndex % g[i]
-		tempIndex /= g[i]
+// calcSlabs computes which slabs of chunks are needed to read the attribute or its slice.
+func calcSlabs(attr *attribute) (first, end uint64) {
+	firstRow, endRow := uint64(0), attr.dimensions[0]
+	if attr.isSlice {
+		firstRow, endRow = uint64(attr.firstDim), uint64(attr.lastDim)
 	}
+	return firstRow / attr.layout[0], (endRow + attr.layout[0] - 1) / attr.layout[0]
+}
 
-	// Calculate number of valid rows in this stripe
-	// A "row" here is the last dimension.
-	numRowsInStripe := 1
-	validCounts := make([]int, rank-1)
-	for i := range rank - 1 {
-		start := uint64(stripeCoords[i]) * layout[i]
-		end := start + layout[i]
-		if end > dims[i] {
-			end = dims[i]
-		}
-		validCounts[i] = int(end - start)
-		numRowsInStripe *= validCounts[i]
+func (lr *layoutReader) fillSlab() error {
+	if lr.slab >= lr.endSlab {
+		return io.EOF
 	}
+	dims := lr.attr.dimensions
+	layout := lr.attr.layout
+	dtLength := uint64(lr.attr.length)
+	rank := len(dims)
 
-	// Stripe buffer size
-	lineLen := dims[rank-1]
-	lr.buf = make([]byte, uint64(numRowsInStripe)*lineLen*dtLength)
-
-	// Read one stripe of chunks
-	numChunksInStripe := g[rank-1]
-	chunkSize := calcChunkSize(attr)
-	readBuf := make([]byte, chunkSize*dtLength)
-
-	for gc := range numChunksInStripe {
-		// Read one chunk
-		_, err := io.ReadFull(lr.r, readBuf)
+	rows := min(layout[0], dims[0]-lr.slab*layout[0])
+	buf := make([]byte, rows*calcRowSize(lr.attr))
+	chunk := make([]byte, calcChunkSize(lr.attr)*dtLength)
+	nChunks := calcSlabSize(lr.attr) / uint64(len(chunk))
+	lineLen := layout[rank-1]
+	nLines := calcChunkSize(lr.attr) / lineLen
+
+	start := make([]uint64, rank) // index in the slab of the chunk's first element
+	index := make([]uint64, rank) // index in the slab of the line's first element
+	for c := range nChunks {
+		_, err := io.ReadFull(lr.r, chunk)
 		if err != nil {
 			return err
 		}
-
-		// Interleave this chunk's rows into lr.buf
-		numRowsInChunk := 1
-		for i := range rank - 1 {
-			numRowsInChunk *= int(layout[i])
+		rem := c
+		for i := rank - 1; i > 0; i-- {
+			n := (dims[i] + layout[i] - 1) / layout[i]
+			start[i] = (rem % n) * layout[i]
+			rem /= n
 		}
-
-		chunkLineLen := layout[rank-1]
-		delta := make([]int, rank-1)
-
-		for rc := range numRowsInChunk {
-			// Decode rc into local relative coordinates
-			tempRC := rc
+		for l := range nLines {
+			// Lines are in the last dimension.
+			copy(index, start)
+			rem := l
 			for i := rank - 2; i >= 0; i-- {
-				delta[i] = tempRC % int(layout[i])
-				tempRC /= int(layout[i])
+				index[i] += rem % layout[i]
+				rem /= layout[i]
 			}
-
-			// Check if this row is valid in the dataset
+			// Don't copy what's outside of the dimensions.
 			isValid := true
-			for i := range rank - 1 {
-				if uint64(stripeCoords[i])*layout[i]+uint64(delta[i]) >= dims[i] {
+			dest := uint64(0)
+			for i := range rank {
+				length := dims[i]
+				if i == 0 {
+					length = rows
+				}
+				if index[i] >= length {
 					isValid = false
 					break
 				}
+				dest = dest*length + index[i]
 			}
-
 			if !isValid {
 				continue
 			}
-
-			destRowIndex := 0
-			stride := 1
-			for i := rank - 2; i >= 0; i-- {
-				destRowIndex += delta[i] * stride
-				stride *= validCounts[i]
-			}
-
-			srcOffset := uint64(rc) * chunkLineLen * dtLength
-			destColOffset := uint64(gc) * layout[rank-1]
-			if destColOffset >= lineLen {
-				continue
-			}
-
-			destOffset := (uint64(destRowIndex)*lineLen + destColOffset) * dtLength
-			copyLen := chunkLineLen
-			if destColOffset+copyLen > lineLen {
-				copyLen = lineLen - destColOffset
+			n := min(lineLen, dims[rank-1]-index[rank-1])
+			if rank == 1 {
+				n = min(lineLen, rows)
 			}
-
-			copy(lr.buf[destOffset:destOffset+copyLen*dtLength], readBuf[srcOffset:srcOffset+copyLen*dtLength])
+			src := l * lineLen
+			copy(buf[dest*dtLength:(dest+n)*dtLength], chunk[src*dtLength:(src+n)*dtLength])
 		}
 	}
-
-	lr.stripeIndex++
+	lr.buf = buf
+	lr.slab++
 	return nil
 }
 
 func (lr *layoutReader) Read(b []byte) (int, error) {
 	if len(lr.buf) == 0 {
-		err := lr.fillrow()
+		err := lr.fillSlab()
 		if err != nil {
 			return 0, err
 		}
@@ -536,7 +539,22 @@ func (lr *layoutReader) Count() int64 {
 	return int64(lr.count)
 }
 
-func newLayoutReader(r remReader, obj *object) io.Reader {
-	size := calcDataSize(obj.objAttr) * uint64(obj.objAttr.length)
-	return &layoutReader{r, obj, nil, int64(size), 0, 0}
+// newLayoutReader returns a reader for the data in row-major order.
+// If it is for a slice, then the reader begins with the slice's first index.
+func newLayoutReader(r remReader, attr *attribute) remReader {
+	first, end := calcSlabs(attr)
+	rowSize := calcRowSize(attr)
+	firstRow := first * attr.layout[0]
+	endRow := min(end*attr.layout[0], attr.dimensions[0])
+	lr := &layoutReader{
+		r:       r,
+		attr:    attr,
+		size:    int64((endRow - firstRow) * rowSize),
+		slab:    first,
+		endSlab: end,
+	}
+	if attr.isSlice {
+		skip(lr, int64((uint64(attr.firstDim)-firstRow)*rowSize))
+	}
+	return lr
 }
-- 
2.43.0


From 0fefa17f0e8b4cfaac8aa05a5144d009dbc5847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 20/44] fix: report nonzero padding as an error, and keep data
 read before an error

---
 netcdf/hdf5/assert.go  |  9 +++++++--
 netcdf/hdf5/readers.go | 21 +++++++--------------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/netcdf/hdf5/assert.go b/netcdf/hdf5/assert.go
index ad19e48..484d384 100644
--- a/netcdf/hdf5/assert.go
+++ b/netcdf/hdf5/assert.go
@@ -16,8 +16,8 @@ const (
 )
 
 var (
-	logFunc   = logger.Fatal // logging function for padBytesCheck()
-	maybeFail = fail         // fail function, can be disabled for testing
+	logFunc   = failPadding // logging function for padBytesCheck()
+	maybeFail = fail        // fail function, can be disabled for testing
 )
 
 // Panics if condition isn't met
@@ -64,6 +64,11 @@ func failError(err error, msg string) {
 	panic("never gets here")
 }
 
+// failPadding is called when padding or reserved bytes are not zero.
+func failPadding(v ...any) {
+	failError(ErrCorrupted, fmt.Sprint(v...))
+}
+
 // Check that pad bytes are zero up to byte boundary (pad32 = 1,3 or 7)
 func padBytes(bf io.Reader, pad32 int) {
 	padBytesCheck(bf, pad32, round, logFunc)
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index de96d76..e378c98 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"bytes"
 	"io"
+	"os"
 	"sync"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
@@ -245,6 +246,9 @@ func (f *raFile) Read(p []byte) (int, error) {
 }
 
 func (f *raFile) readNoLock(p []byte) (int, error) {
+	if f.rcFile.file == nil {
+		return 0, os.ErrClosed
+	}
 	thisLen := len(p)
 	_, err := f.rcFile.file.Seek(f.seekPointer, io.SeekStart)
 	if err != nil {
@@ -254,27 +258,16 @@ func (f *raFile) readNoLock(p []byte) (int, error) {
 	n, err := f.rcFile.file.Read(p[:thisLen])
 	if err != nil {
 		logger.Error("Read error in Read", err, io.SeekStart)
-		return 0, err
 	}
-	// Save position
+	// Save position. There can be data even if there is an error.
 	f.seekPointer += int64(n)
 	// Return read results
 	return n, err
 }
 
+// ReadAt reads all of b from the offset, or returns an error.
 func (f *raFile) ReadAt(b []byte, offset int64) (int, error) {
-	f.rcFile.Lock()
-	defer f.rcFile.Unlock()
-	save := f.seekPointer
-	_, err := f.rcFile.file.Seek(offset, io.SeekStart)
-	if err != nil {
-		logger.Error("Seek error in ReadAt", err, offset, io.SeekStart)
-		return 0, err
-	}
-	f.seekPointer = offset
-	n, retErr := f.readNoLock(b)
-	f.seekPointer = save
-	return n, retErr
+	return io.ReadFull(f.seekAt(offset), b)
 }
 
 func newRefCountedFile(file io.ReadSeeker) *refCountedFile {
-- 
2.43.0


From e10584929c24ae862c80a7e52e49ca6328b53d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 21/44] fix: read types with many members, opaque members and
 arrays read again

---
 netcdf/hdf5/array.go    | 6 +++---
 netcdf/hdf5/compound.go | 2 +-
 netcdf/hdf5/enum.go     | 2 +-
 netcdf/hdf5/opaque.go   | 6 +-----
 4 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index db710d0..cf99d8f 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -48,16 +48,16 @@ func (arrayManagerType) alloc(hr heapReader, c caster, bf io.Reader, attr *attri
 	logger.Info("orig dimensions=", attr.dimensions)
 	logger.Info("Array length=", attr.length)
 	logger.Info("Array dimensions=", dimensions)
-	arrayAttr := attr.children[0]
+	arrayAttr := *attr.children[0] // a copy, so that it can be read again
 	logger.Info("child dimensions=", arrayAttr.dimensions)
 	logger.Info("childlength=", arrayAttr.length)
-	newDimensions := append(dimensions, arrayAttr.dimensions...)
+	newDimensions := append(append([]uint64{}, dimensions...), arrayAttr.dimensions...)
 	arrayAttr.dimensions = newDimensions
 	logger.Info("new dimensions=", newDimensions)
 	cbf := bf.(remReader)
 	logger.Info(cbf.Count(), "child length", arrayAttr.length)
 	logger.Info(cbf.Count(), "array", "class", arrayAttr.class)
-	return getDataAttr(hr, c, cbf, *arrayAttr)
+	return getDataAttr(hr, c, cbf, arrayAttr)
 }
 
 func (arrayManagerType) defaultFillValue(obj *object, objFillValue []byte, undefinedFillValue bool) []byte {
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 02ac2a4..750dd76 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -68,7 +68,7 @@ func (compoundManagerType) parse(hr heapReader, c caster, attr *attribute, bitFi
 	logger.Info("attr.dtversion", attr.dtversion)
 	assert(attr.dtversion >= 1 && attr.dtversion <= maxDTVersion,
 		fmt.Sprintln("compound datatype version", attr.dtversion, "not supported"))
-	nmembers := bitFields & 0b11111111
+	nmembers := bitFields & 0xffff
 	logger.Info("* number of members:", nmembers)
 
 	padding := 7
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index 029142d..f064c95 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -114,7 +114,7 @@ func (enumManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields
 	var enumAttr attribute
 	printDatatype(hr, c, bf, nil, 0, &enumAttr)
 	logger.Info("blen now", bf.Count())
-	numberOfMembers := bitFields & 0b11111111
+	numberOfMembers := bitFields & 0xffff
 	logger.Info("number of members=", numberOfMembers)
 	names := make([]string, numberOfMembers)
 	padding := 7
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 50b9cfb..0d14d86 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -44,11 +44,7 @@ func (opaqueManagerType) defaultFillValue(obj *object, objFillValue []byte, unde
 }
 
 func (opaqueManagerType) parse(hr heapReader, c caster, attr *attribute, bitFields uint32, bf remReader, df remReader) {
-	if bf.Rem() == 0 {
-		logger.Info("No properties for opaque")
-		return
-	}
-	plen := int(bf.Rem())
+	plen := int(bitFields & 0xff)
 	tag := make([]byte, plen)
 	// The tag is a user-defined ASCII string describing the opaque data (per the HDF5 spec).
 	read(bf, tag)
-- 
2.43.0


From 86c0c4096bb2ca35f4aefc83415f45faa654ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 22/44] fix: read character arrays that were never written

---
 netcdf/hdf5/string.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/string.go b/netcdf/hdf5/string.go
index 4721ee1..53966c7 100644
--- a/netcdf/hdf5/string.go
+++ b/netcdf/hdf5/string.go
@@ -73,10 +73,15 @@ func allocRegularStrings(bf io.Reader, dimLengths []uint64, dtlen uint32) any {
 		}
 		return values
 	}
+	inner := dimLengths[1:]
 	ty := reflect.TypeOf("")
+	if dtlen == 1 {
+		// the last dimension is the string's
+		dimLengths = dimLengths[:len(dimLengths)-1]
+	}
 	vals := makeSlices(ty, dimLengths)
 	for i := uint64(0); i < thisDim; i++ {
-		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, dimLengths[1:], dtlen)))
+		vals.Index(int(i)).Set(reflect.ValueOf(allocRegularStrings(bf, inner, dtlen)))
 	}
 	return vals.Interface()
 }
-- 
2.43.0


From 9e37fed99bb3039a4b5322a7fe50e62aacc3c32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 23/44] fix: read zero-length float attributes and zero-length
 dimensions of ragged data

---
 netcdf/hdf5/floatingPoint.go |  5 +++--
 netcdf/hdf5/vlen.go          | 37 ++++++++++++++++++------------------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/netcdf/hdf5/floatingPoint.go b/netcdf/hdf5/floatingPoint.go
index 1951315..a1b3931 100644
--- a/netcdf/hdf5/floatingPoint.go
+++ b/netcdf/hdf5/floatingPoint.go
@@ -147,8 +147,9 @@ func (floatingPointManagerType) parse(hr heapReader, c caster, attr *attribute,
 		return
 	}
 	logger.Info("data len", df.Rem())
-	assert(df.Rem() >= int64(attr.length), "floating-point data short")
-	attr.df = newResetReaderSave(df, df.Rem())
+	if df.Rem() >= int64(attr.length) {
+		attr.df = newResetReaderSave(df, df.Rem())
+	}
 }
 
 func allocFloats(bf io.Reader, dimLengths []uint64, endian binary.ByteOrder) any {
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index bbf8091..01583f3 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -213,29 +213,15 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 		return sl.Interface()
 	}
 	thisDim := dimLengths[0]
-	if len(dimLengths) == 1 {
-		// For scalars, this can be faster using binary.Read
-		vals := make([]any, thisDim)
-		for i := range thisDim {
-			logger.Info("Alloc inner", i, "of", thisDim)
-			vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
-		}
-		assert(vals[0] != nil, "we never return nil")
-		t := reflect.ValueOf(vals[0]).Type()
-		vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
-		for i := range int(thisDim) {
-			vals2.Index(i).Set(reflect.ValueOf(vals[i]))
-		}
-		return vals2.Interface()
+	if thisDim == 0 {
+		return reflect.MakeSlice(variableType(hr, c, dimLengths, attr, cast), 0, 0).Interface()
 	}
-
-	// TODO: we sometimes know the type (float32) and can do something smarter here
-
 	vals := make([]any, thisDim)
 	for i := range thisDim {
-		logger.Info("Alloc outer", i, "of", thisDim)
+		logger.Info("Alloc inner", i, "of", thisDim)
 		vals[i] = allocVariable(hr, c, bf, dimLengths[1:], attr, cast)
 	}
+	assert(vals[0] != nil, "we never return nil")
 	t := reflect.ValueOf(vals[0]).Type()
 	vals2 := reflect.MakeSlice(reflect.SliceOf(t), int(thisDim), int(thisDim))
 	for i := range int(thisDim) {
@@ -243,3 +229,18 @@ func allocVariable(hr heapReader, c caster, bf io.Reader, dimLengths []uint64, a
 	}
 	return vals2.Interface()
 }
+
+// variableType returns the type of the values of allocVariable.
+func variableType(hr heapReader, c caster, dimLengths []uint64, attr attribute,
+	cast reflect.Type) reflect.Type {
+	// A zero-length value has the type of all the others.
+	empty := allocVariable(hr, c, newResetReaderFromBytes(make([]byte, 16)), nil, attr, cast)
+	t := reflect.TypeOf(convert(empty))
+	if cast != nil {
+		t = reflect.TypeOf(empty)
+	}
+	for range dimLengths {
+		t = reflect.SliceOf(t)
+	}
+	return t
+}
-- 
2.43.0


From 9a85dce5eecee7a2c55119eb98e75c4b92ec2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 24/44] fix: return an error when a closed CDF file is used

---
 netcdf/cdf/cdf.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 793b70f..5612e32 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -561,6 +561,9 @@ func (cdf *CDF) GetGroup(group string) (g api.Group, err error) {
 	if group != "" && group != "/" {
 		return nil, ErrNotFound
 	}
+	if cdf.file == nil {
+		return nil, os.ErrClosed
+	}
 	cdf.fileRefCount++
 	return api.Group(cdf), nil
 }
@@ -888,6 +891,9 @@ func (cdf *CDF) readAt(p []byte, offset int64) int {
 	if len(p) == 0 {
 		return 0
 	}
+	if cdf.file == nil {
+		thrower.Throw(os.ErrClosed)
+	}
 	seekTo(cdf.file, offset)
 	n, err := io.ReadFull(cdf.file, p)
 	if err != io.EOF && err != io.ErrUnexpectedEOF {
-- 
2.43.0


From 3e7a52bd82ec1d9d227eb1192cfa438dbf2e0146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 25/44] fix: HDF5 lookups that are complete, repeatable, and
 survive I/O errors

---
 netcdf/hdf5/hdf5.go | 333 ++++++++++++++++++++++++++++----------------
 1 file changed, 211 insertions(+), 122 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index f4a3d69..2b09f7f 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -24,6 +24,10 @@ import (
 // Magic number at the head of a valid HDF5 file
 const magic = "\211HDF\r\n\032\n"
 
+// Prefix that NetCDF4 uses for variables which have the name of a dimension, but
+// aren't its coordinate variable.
+const nonCoordPrefix = "_nc4_non_coord_"
+
 const (
 	invalidAddress = ^uint64(0)
 	unlimitedSize  = ^uint64(0)
@@ -285,6 +289,9 @@ func SetLogLevel(level int) int {
 
 func (h5 *HDF5) newSeek(addr uint64, size int64) remReader {
 	logger.Infof("Seek to 0x%x", addr)
+	if h5.file == nil {
+		thrower.Throw(os.ErrClosed)
+	}
 	assert(int64(addr)+size <= h5.fileSize,
 		fmt.Sprintf("bad seek addr=0x%x size=%d addr+size=0x%x fileSize=0x%x",
 			addr, size, int64(addr)+size, h5.fileSize))
@@ -326,6 +333,9 @@ func readEnc(r io.Reader, e uint8) uint64 {
 		return uint64(read8(r))
 	case 2:
 		return uint64(read16(r))
+	case 3:
+		low := uint64(read16(r))
+		return low | uint64(read8(r))<<16
 	case 4:
 		return uint64(read32(r))
 	case 8:
@@ -1142,15 +1152,11 @@ func checkVal(expected, actual any, comment string) {
 func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uint64) {
 	// Return from cache on subsequent calls to the same heap collection.
 	if cache, ok := h5.heapCache[heapAddress]; ok {
-		if data, ok := cache[index]; ok {
-			return newResetReaderFromBytes(data), uint64(len(data))
-		}
-		return nil, 0
+		return heapObject(cache, index)
 	}
 
 	// First visit: parse the entire collection and cache every object.
 	cache := make(map[uint32][]byte)
-	h5.heapCache[heapAddress] = cache
 
 	bf := h5.newSeek(heapAddress, 16) // header is 16 bytes
 	checkMagic(bf, 4, "GCOL")
@@ -1188,10 +1194,15 @@ func (h5 *HDF5) readGlobalHeap(heapAddress uint64, index uint32) (remReader, uin
 		}
 	}
 
-	if data, ok := cache[index]; ok {
-		return newResetReaderFromBytes(data), uint64(len(data))
-	}
-	return nil, 0
+	// It has been read successfully.
+	h5.heapCache[heapAddress] = cache
+	return heapObject(cache, index)
+}
+
+func heapObject(cache map[uint32][]byte, index uint32) (remReader, uint64) {
+	data, ok := cache[index]
+	assertError(ok, ErrCorrupted, "global heap object not found")
+	return newResetReaderFromBytes(data), uint64(len(data))
 }
 
 func (h5 *HDF5) readHeap(link *linkInfo) {
@@ -1331,7 +1342,7 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 		if h5.hasAddr(objectHeaderAddress) {
 			logger.Info("avoid link loop")
 			logger.Infof("done with name=%s", string(linkName))
-			return
+			continue
 		}
 		obj := newObject()
 		obj.addr = objectHeaderAddress
@@ -1350,6 +1361,10 @@ func (h5 *HDF5) readSymbolTableLeaf(parent *object, addr uint64, heapAddr uint64
 }
 
 func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
+	h5.readSymbolTableNode(parent, addr, heapAddr, true /*isTop*/, 0)
+}
+
+func (h5 *HDF5) readSymbolTableNode(parent *object, addr uint64, heapAddr uint64, isTop bool, level byte) {
 	bf := h5.newSeek(addr, 52) // adjust later
 
 	checkMagic(bf, 4, "TREE") // "SNOD"
@@ -1363,8 +1378,12 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	if nodeLevel > 0 {
 		logger.Infof("Start level %d", nodeLevel)
 	}
-	assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
-		"Siblings unexpected")
+	if isTop {
+		assert(leftAddress == invalidAddress && rightAddress == invalidAddress,
+			"Siblings unexpected")
+	} else {
+		assertError(nodeLevel == level, ErrCorrupted, "unexpected level in symbol table")
+	}
 	assert(nodeType == 0, "what we expect")
 	type keyAddr struct {
 		key  uint64
@@ -1381,6 +1400,10 @@ func (h5 *HDF5) readSymbolTable(parent *object, addr uint64, heapAddr uint64) {
 	lastKey := read64(bf)
 	logger.Infof("last key=%d", lastKey)
 	for _, v := range keyAddrs {
+		if nodeLevel > 0 {
+			h5.readSymbolTableNode(parent, v.addr, heapAddr, false /*not top*/, nodeLevel-1)
+			continue
+		}
 		h5.readSymbolTableLeaf(parent, v.addr, heapAddr)
 	}
 }
@@ -1553,8 +1576,9 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 	case 1:
 		logger.Infof("simple dataspace")
 	case 2:
+		// It has no elements
 		logger.Infof("null dataspace")
-		// let it go
+		return []uint64{0}, 0
 	default:
 		fail(fmt.Sprintf("unknown dstype %d", dstype))
 	}
@@ -1584,9 +1608,6 @@ func (h5 *HDF5) readDataspace(obf io.Reader) ([]uint64, int64) {
 		}
 		fail("permutation indices not supported")
 	}
-	if version == 2 && dstype == 2 && bf.Rem() > 0 {
-		logger.Info("Null v2 flags=", flags, "d=", d, "rem=", bf.Rem())
-	}
 	return ret, count
 }
 
@@ -2323,6 +2344,9 @@ func canonicalizePath(s string) string {
 // The group can start with "/" for absolute names, or relative.
 func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 	defer thrower.RecoverError(&err)
+	if h5.file == nil {
+		return nil, os.ErrClosed
+	}
 	var groupName string
 	group = canonicalizePath(group)
 	toDescend := h5.groupObject
@@ -2337,6 +2361,9 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 		}
 		toDescend = h5.rootObject
 		h5groupName = "/"
+	case group == "":
+		// This group
+		groupName = h5.groupName
 	default:
 		// Relative path
 		groupName = h5.groupName + group + "/"
@@ -2367,6 +2394,7 @@ func (h5 *HDF5) GetGroup(group string) (g api.Group, err error) {
 		return nil, ErrNotFound
 	}
 
+	h5.checkAttributes(o)
 	hg := *h5
 	hg.groupName = groupName
 	hg.groupObject = o
@@ -2424,9 +2452,24 @@ func New(file api.ReadSeekerCloser) (nc api.Group, err error) {
 	h5.groupObject = h5.rootObject
 	h5.groupObject.isGroup = true
 	h5.dumpObject(h5.rootObject)
+	h5.checkAttributes(h5.groupObject)
 	return api.Group(h5), nil
 }
 
+// checkAttributes reads what the attributes of a group need from elsewhere in the file,
+// because Attributes cannot return an error.
+func (h5 *HDF5) checkAttributes(obj *object) {
+	for _, a := range obj.attrlist {
+		if a.df == nil {
+			continue
+		}
+		data := make([]byte, calcAttrSize(a))
+		read(makeFillValueReader(obj, a.df, int64(len(data))), data)
+		a.df = newResetReaderFromBytes(data)
+		h5.attrData(a, data)
+	}
+}
+
 func newObject() *object {
 	var obj object
 	obj.objAttr = &attribute{}
@@ -2884,20 +2927,27 @@ func (k objectKind) isDimensionScale() bool {
 	return k.hasClass && !k.hasCoordinates && !k.hasName
 }
 
-func (h5 *HDF5) findVariable(varName string) *object {
-	obj, has := h5.groupObject.children[varName]
-	if !has {
-		return nil
-	}
-	logger.Info("Found variable", varName, "group", h5.groupName, "child=", obj.name)
+// isVariable returns false for types, groups and pure dimension scales.
+func (obj *object) isVariable() bool {
 	if classifyObject(obj.attrlist).isDimensionScale() {
-		return nil
+		return false
 	}
-	if obj.objAttr.dimensions == nil {
-		logger.Infof("variable %s datatype only", obj.name)
-		return nil
+	return obj.objAttr.dimensions != nil
+}
+
+func (h5 *HDF5) findVariable(varName string) *object {
+	// The name in the file is different if there's a dimension of the same name
+	// which isn't this variable's.
+	obj, has := h5.groupObject.children[nonCoordPrefix+varName]
+	if has && obj.isVariable() {
+		return obj
+	}
+	obj, has = h5.groupObject.children[varName]
+	if has && obj.isVariable() {
+		return obj
 	}
-	return obj
+	logger.Infof("variable %s not found", varName)
+	return nil
 }
 
 func (h5 *HDF5) findGlobalAttrType(attrName string) string {
@@ -2962,19 +3012,22 @@ func (h5 *HDF5) getTypeObj(typeName string) (*object, bool) {
 	if !has {
 		return nil, false
 	}
-	logger.Info("Found type", typeName, "group", h5.groupName, "child=", obj.name)
-	if obj.objAttr.dimensions != nil {
-		logger.Info("this is a variable")
+	if !obj.isType() {
+		logger.Info("this is not a type")
 		return nil, false
 	}
-	if obj.isGroup {
-		logger.Info("this is a group")
-		return nil, false
-	}
-	assert(len(obj.attrlist) == 0, "types don't have attributes")
+	logger.Info("Found type", typeName, "group", h5.groupName, "child=", obj.name)
 	return obj, true
 }
 
+// isType returns true for user-defined types.
+func (obj *object) isType() bool {
+	if obj.isGroup || classifyObject(obj.attrlist).isDimensionScale() {
+		return false
+	}
+	return obj.objAttr.dimensions == nil // otherwise, it's a variable
+}
+
 // GetType gets the CDL description of the type and sets the bool to true if found.
 func (h5 *HDF5) GetType(typeName string) (string, bool) {
 	obj, has := h5.getTypeObj(typeName)
@@ -3013,18 +3066,10 @@ func (h5 *HDF5) GetGoType(typeName string) (string, bool) {
 // ListTypes returns the user-defined type names.
 func (h5 *HDF5) ListTypes() []string {
 	var ret []string
-	for typeName, obj := range h5.groupObject.children {
-		if obj.isGroup {
-			continue
-		}
-		if classifyObject(obj.attrlist).isDimensionScale() {
-			continue
-		}
-		if obj.objAttr.dimensions != nil {
-			// this is a variable
-			continue
+	for _, obj := range h5.groupObject.sortChildren() {
+		if obj.isType() {
+			ret = append(ret, obj.name)
 		}
-		ret = append(ret, typeName)
 	}
 	return ret
 }
@@ -3054,6 +3099,9 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 		}
 		k := classifyObject(obj.attrlist)
 		if k.hasClass && (k.hasName || !k.hasCoordinates) && obj.name == name {
+			if len(obj.objAttr.dimensions) == 0 {
+				return 0, true
+			}
 			return obj.objAttr.dimensions[0], true
 		}
 	}
@@ -3064,41 +3112,65 @@ func (h5 *HDF5) findSignature(signature string, name string, origNames map[strin
 	if h5.groupObject == nil {
 		return ""
 	}
-	for varName, obj := range h5.groupObject.children {
-		if obj.isGroup || origNames[varName] {
-			continue
-		}
-		if classifyObject(obj.attrlist).isDimensionScale() {
-			continue
+	// Types are visible in the group that defines them and in the groups below it.
+	for _, group := range h5.enclosingGroups() {
+		for _, obj := range group.sortChildren() {
+			key := obj.name
+			if group != h5.groupObject {
+				key = fmt.Sprintf("0x%x/%s", group.addr, obj.name)
+			}
+			if !obj.isType() || origNames[key] {
+				continue
+			}
+			origNames[key] = true
+			sig := printer(obj.objAttr.class, h5, name, obj.objAttr, origNames)
+			origNames[key] = false
+			if sig != "" && sig == signature {
+				return obj.name
+			}
 		}
-		if obj.objAttr.dimensions != nil {
-			// this is a variable
+	}
+	return ""
+}
+
+// enclosingGroups returns this group, the one it is in, and so on up to the root group.
+func (h5 *HDF5) enclosingGroups() []*object {
+	obj := h5.rootObject
+	groups := []*object{obj}
+	for _, name := range strings.Split(h5.groupName, "/") {
+		if name == "" {
 			continue
 		}
-		origNames[varName] = true
-		sig := printer(obj.objAttr.class, h5, name, obj.objAttr, origNames)
-		origNames[varName] = false
-		if sig != "" && sig == signature {
-			return obj.name
-		}
+		obj = obj.children[name]
+		groups = append([]*object{obj}, groups...)
 	}
-	return ""
+	return groups
 }
 
 func (h5 *HDF5) parseAttr(obj *object, a *attribute) {
 	if a.df != nil {
-		a.df = makeFillValueReader(obj, a.df, int64(calcAttrSize(a)))
+		// Keep the data: it is needed again if there is an error.
+		data := make([]byte, calcAttrSize(a))
+		read(makeFillValueReader(obj, a.df, int64(len(data))), data)
+		a.df = newResetReaderFromBytes(data)
 		logger.Infof("Reparsing attribute %s %s %p", a.name, typeNames[a.class], a)
-		// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
-		save := h5.registrations
-		switch a.name {
-		case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
-			h5.registrations = nil
-		}
-		a.value = getDataAttr(h5, h5, a.df, *a)
+		a.value = h5.attrData(a, data)
 		a.df = nil
+	}
+}
+
+// attrData converts the data of an attribute to its value.
+func (h5 *HDF5) attrData(a *attribute, data []byte) any {
+	// Temporarily suppress registrations for internal HDF5 attributes to avoid side effects.
+	save := h5.registrations
+	defer func() {
 		h5.registrations = save
+	}()
+	switch a.name {
+	case "DIMENSION_LIST", "NAME", "REFERENCE_LIST", "CLASS":
+		h5.registrations = nil
 	}
+	return getDataAttr(h5, h5, newResetReaderFromBytes(data), *a)
 }
 
 func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
@@ -3112,13 +3184,14 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 			logger.Infof("Found a %v %v %T", val.name, val.value, val.value)
 		default:
 			if val.value == nil {
-				if val.df == nil {
+				df := val.df
+				if df == nil {
 					logger.Info("Need fill value reader", val.name)
 					fakeObj := newObject()
 					sz := calcAttrSize(val)
-					val.df = makeFillValueReader(fakeObj, nil, int64(sz))
+					df = makeFillValueReader(fakeObj, nil, int64(sz))
 				}
-				val.value = getDataAttr(h5, h5, val.df, *val)
+				val.value = getDataAttr(h5, h5, df, *val)
 			}
 			value := undoScalarAttribute(val.value)
 			if _, has := filtered[val.name]; !has {
@@ -3244,6 +3317,9 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 		}
 	}
 	f(h5.rootObject)
+	if names := h5.coordinateDimensions(obj); names != nil {
+		return names
+	}
 	for i := range obj.attrlist {
 		h5.parseAttr(obj, obj.attrlist[i])
 		a := obj.attrlist[i]
@@ -3258,6 +3334,52 @@ func (h5 *HDF5) getDimensions(obj *object) []string {
 	return nil
 }
 
+// coordinateDimensions returns the dimensions of a coordinate variable that has several.
+// These have a list of dimension IDs instead of a list of addresses.
+func (h5 *HDF5) coordinateDimensions(obj *object) []string {
+	intValues := func(obj *object, name string) []int32 {
+		for _, a := range obj.attrlist {
+			if a.name != name {
+				continue
+			}
+			h5.parseAttr(obj, a)
+			switch v := a.value.(type) {
+			case int32:
+				return []int32{v}
+			case []int32:
+				return v
+			}
+		}
+		return nil
+	}
+	ids := intValues(obj, "_Netcdf4Coordinates")
+	if len(ids) < 2 || len(ids) != len(obj.objAttr.dimensions) {
+		return nil
+	}
+	idToName := make(map[int32]string)
+	var walk func(*object)
+	walk = func(obj *object) {
+		if classifyObject(obj.attrlist).hasClass {
+			for _, id := range intValues(obj, "_Netcdf4Dimid") {
+				idToName[id] = obj.name
+			}
+		}
+		for _, child := range obj.children {
+			walk(child)
+		}
+	}
+	walk(h5.rootObject)
+	names := make([]string, len(ids))
+	for i, id := range ids {
+		name, has := idToName[id]
+		if !has {
+			return nil
+		}
+		names[i] = name
+	}
+	return names
+}
+
 // GetVariable returns the named variable or sets the error if not found.
 func (h5 *HDF5) GetVariable(varName string) (av *api.Variable, err error) {
 	err = ErrInternal
@@ -3354,6 +3476,10 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 		copy(newEnd, end)
 		newEnd[0] = end[0] - begin[0]
 
+		if e, has := partialData.(enumerated); has {
+			e.values, err = internal.SliceMD(e.values, newDims, newBegin, newEnd)
+			return e, err
+		}
 		return internal.SliceMD(partialData, newDims, newBegin, newEnd)
 	}
 	dims := h5.getDimensions(found)
@@ -3374,25 +3500,11 @@ func (h5 *HDF5) ListSubgroups() []string {
 	// entry point
 	// Only go one level down
 	var ret []string
-	var sgDescend func(obj *object, group string)
-	sgDescend = func(obj *object, group string) {
-		if !obj.isGroup {
-			return
-		}
-		if group != h5.groupName && strings.HasPrefix(group, h5.groupName) {
-			// Is a subgroup.  Get the basename of this child.
-			tail := group[len(h5.groupName):]
-			tail = tail[:len(tail)-1] // trim trailing slash
-			assertError(!strings.Contains(tail, "/"), ErrInternal, "trailing slash")
-			ret = append(ret, tail)
-			return
-		}
-		obj.sortChildren()
-		for _, o := range obj.children {
-			sgDescend(o, group+o.name+"/")
+	for _, o := range h5.groupObject.sortChildren() {
+		if o.isGroup {
+			ret = append(ret, o.name)
 		}
 	}
-	sgDescend(h5.rootObject, "/")
 	return ret
 }
 
@@ -3415,7 +3527,11 @@ func (obj *object) sortChildren() []*object {
 		children = append(children, child)
 	}
 	sort.Slice(children, func(i, j int) bool {
-		return children[i].creationOrder < children[j].creationOrder
+		if children[i].creationOrder != children[j].creationOrder {
+			return children[i].creationOrder < children[j].creationOrder
+		}
+		// the file doesn't have the order
+		return children[i].name < children[j].name
 	})
 	return children
 }
@@ -3424,42 +3540,15 @@ func (obj *object) sortChildren() []*object {
 func (h5 *HDF5) ListVariables() []string {
 	// entry point, panic can bubble up
 	var ret []string
-	var descend func(obj *object, group string)
-	descend = func(obj *object, group string) {
-		children := obj.sortChildren()
-		for _, o := range children {
-			if group == h5.groupName && o.name != "" {
-				if h5.findVariable(o.name) != nil {
-					logger.Info("append", o.name)
-					ret = append(ret, o.name)
-				}
-				continue
-			}
-			descend(o, group+o.name+"/")
+	for _, o := range h5.groupObject.sortChildren() {
+		if o.isVariable() {
+			logger.Info("append", o.name)
+			ret = append(ret, strings.TrimPrefix(o.name, nonCoordPrefix))
 		}
 	}
-	descend(h5.rootObject, "/")
 	return ret
 }
 
-func emptySlice(v any) reflect.Value {
-	top := reflect.ValueOf(v)
-	elemType := top.Type().Elem()
-	slices := 0
-	// count how many slices we need to make
-	for elemType.Kind() == reflect.Slice {
-		elemType = elemType.Elem()
-		slices++
-	}
-	// here's one slice
-	empty := reflect.MakeSlice(reflect.SliceOf(elemType), 0, 0)
-	// here are the rest
-	for i := 1; i < slices; i++ {
-		empty = reflect.MakeSlice(reflect.SliceOf(empty.Type()), 0, 0)
-	}
-	return empty
-}
-
 func undoInterfaces(v any) reflect.Value {
 	top := reflect.ValueOf(v)
 	if top.Kind() != reflect.Slice {
@@ -3473,7 +3562,7 @@ func undoInterfaces(v any) reflect.Value {
 	}
 	length := reflect.ValueOf(v).Len()
 	if length == 0 {
-		return emptySlice(v)
+		return reflect.MakeSlice(top.Type(), 0, 0)
 	}
 	underlying := undoInterfaces(top.Index(0).Interface())
 	val := reflect.MakeSlice(reflect.SliceOf(underlying.Type()), length, length)
-- 
2.43.0


From b76f38533b4904d7db4739baf7a9a34d043eb9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:21 +0000
Subject: [PATCH 26/44] fix: find the element type of an empty ragged variable
 below several empty dimensions

---
 netcdf/hdf5/writer_utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index 755b199..c70f028 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -170,7 +170,9 @@ func navigateToFirst(rv reflect.Value, depth int) reflect.Value {
 			break
 		}
 		if rv.Len() == 0 {
-			return reflect.Zero(rv.Type().Elem())
+			// There is none: a zero value has the type at least.
+			rv = reflect.Zero(rv.Type().Elem())
+			continue
 		}
 		rv = rv.Index(0)
 	}
-- 
2.43.0


From 8421595322d6e49cb072cbda9b7415e95239035a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 27/44] fix: keep the shape of attributes with more than one
 dimension, the first of length one

---
 netcdf/hdf5/hdf5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 2b09f7f..12d4231 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3193,7 +3193,10 @@ func (h5 *HDF5) getAttributes(unfiltered []*attribute) api.AttributeMap {
 				}
 				val.value = getDataAttr(h5, h5, df, *val)
 			}
-			value := undoScalarAttribute(val.value)
+			value := val.value
+			if len(val.dimensions) == 1 {
+				value = undoScalarAttribute(value)
+			}
 			if _, has := filtered[val.name]; !has {
 				keys = append(keys, val.name)
 			}
-- 
2.43.0


From 9519123e07267793b52257f688d8439e13720249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 28/44] fix: read complete CDF variables whatever their
 _FillValue attribute is

---
 netcdf/cdf/cdf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 5612e32..2ee0633 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -906,9 +906,12 @@ func (cdf *CDF) readAt(p []byte, offset int64) int {
 // that are missing from the file, in whole or in part, get the fill value.
 func (cdf *CDF) readData(v *variable, byRecord bool, start, size int64) []byte {
 	data := make([]byte, size)
-	fillValue := fillValueBytes(*v)
 	readPart := func(p []byte, offset int64) {
 		n := cdf.readAt(p, offset)
+		if n == len(p) {
+			return // nothing is missing, so the fill value doesn't matter
+		}
+		fillValue := fillValueBytes(*v)
 		n -= n % len(fillValue)
 		for i := n; i < len(p); i += len(fillValue) {
 			copy(p[i:], fillValue)
-- 
2.43.0


From 9b4ade8d1dfb005aa7cf1145814ff2436238a645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 29/44] fix: return the byte of a scalar char variable, not its
 UTF-8 encoding

---
 netcdf/cdf/cdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 2ee0633..4296b06 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -951,7 +951,7 @@ func (cdf *CDF) convert(data any, dimLengths []uint64, vType uint32) any {
 
 		case typeChar:
 			v := data.([]byte)
-			return string(v[0])
+			return string(v[:1])
 
 		case typeShort:
 			v := data.([]int16)
-- 
2.43.0


From 38b98a312e0de378485847d99ff67aa9b671810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 30/44] fix: accept dimension names with any valid character
 after an underscore

---
 internal/validname.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/validname.go b/internal/validname.go
index cc9392f..e78e61e 100644
--- a/internal/validname.go
+++ b/internal/validname.go
@@ -38,8 +38,8 @@ func IsValidNetCDFName(name string) bool {
 }
 
 // IsValidDimensionName returns true if name is a valid name for a dimension,
-// which follows the same rules except that it may start with underscores.
+// which follows the same rules except that it may start with an underscore.
 func IsValidDimensionName(name string) bool {
-	return IsValidNetCDFName(strings.TrimLeft(name, "_")) ||
-		name != "" && strings.Trim(name, "_") == ""
+	return IsValidNetCDFName(name) ||
+		strings.HasPrefix(name, "_") && IsValidNetCDFName("a"+name)
 }
-- 
2.43.0


From 5d33302e037f651d19eac02aab2aaf6c6543d057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:06 +0000
Subject: [PATCH 31/44] fix: keep the bytes that the shuffle filter does not
 shuffle

---
 netcdf/hdf5/readers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index e378c98..a26c4e0 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -321,6 +321,8 @@ func unshuffle(val []byte, n uint32) {
 			tmp[j*int(n)+i] = val[i*nelems+j]
 		}
 	}
+	// What is left over is not shuffled.
+	copy(tmp[nelems*int(n):], val[nelems*int(n):])
 	copy(val, tmp)
 }
 
-- 
2.43.0


From 1442430e7917b8075b90ab98b4dae8640cc73252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 32/44] fix: return the value of an HDF5 scalar from GetSliceMD
 without indices

---
 netcdf/hdf5/hdf5.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 12d4231..7e7838b 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -3462,6 +3462,9 @@ func (h5 *HDF5) GetVarGetter(varName string) (slicer api.VarGetter, err error) {
 				return nil, errors.New("invalid slice parameters")
 			}
 		}
+		if len(begin) == 0 {
+			return getSlice(0, 1) // a scalar
+		}
 		// Optimize: only read the required range of the first dimension from disk
 		partialData, err := getSlice(begin[0], end[0])
 		if err != nil {
-- 
2.43.0


From 29885ae5de7c8cda23dd61fc42e4cd5c2c8067b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 33/44] fix: verify the checksums of HDF5 headers and index
 nodes before using them

---
 netcdf/hdf5/hdf5.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 7e7838b..c938165 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -785,6 +785,7 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 	bsize := int64(4+2) + int64(nr)*int64(recordSize) + (int64(nr)+1)*int64(8+1+sub)
 	bf := h5.newSeek(bta, bsize)
 	checkMagic(bf, 4, "BTIN")
+	h5.checkChecksum(bta, int(bsize))
 	version := read8(bf)
 	checkVal(0, version, "version")
 	logger.Info("btin version=", version)
@@ -827,7 +828,6 @@ func (h5 *HDF5) readBTreeInternal(parent *object, bta uint64, numRec uint64, rec
 		}
 	}
 	checkVal(int64(len), bsize, "accounting problem")
-	h5.checkChecksum(bta, int(len))
 }
 
 func (h5 *HDF5) readRecords(obj *object, bf io.Reader, numRec uint64, ty byte) {
@@ -931,13 +931,13 @@ func (h5 *HDF5) readBTreeLeaf(parent *object, bta uint64, numRec uint64, recordS
 	nbytes := 4 + 2 + int(numRec)*int(recordSize)
 	bf := h5.newSeek(bta, int64(nbytes))
 	checkMagic(bf, 4, "BTLF")
+	h5.checkChecksum(bta, nbytes)
 	version := read8(bf)
 	logger.Info("btlf version=", version)
 	ty := read8(bf)
 	logger.Info("bt type=", ty)
 	h5.readRecords(parent, bf, numRec, ty)
 	logger.Infof("leaf node size=%d", nbytes)
-	h5.checkChecksum(bta, nbytes)
 }
 
 func calculateFlatOffsetFromKeys(offsets []uint64, dimensions []uint64, dtSize uint64) uint64 {
@@ -2159,6 +2159,7 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 	start := 0
 	if version > 1 {
 		checkMagic(bf, 4, "OCHK")
+		h5.checkChecksum(offset, int(size)-4)
 		chunkSize = size - 8 // minus magic & checksum
 		start = 4            // skip magic
 	}
@@ -2177,7 +2178,6 @@ func (h5 *HDF5) readContinuation(obj *object, obf io.Reader, version uint8, ohFl
 			}
 			checkZeroes(bf, int(gap))
 		}
-		h5.checkChecksum(offset, int(size)-4)
 	}
 }
 
@@ -2264,6 +2264,9 @@ func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
 	// we need chunkSize more bytes to read headers
 	addr += uint64(bf.Count())
 	assert(bf.Rem() == 0, "should use all bytes")
+	assert(chunkSize <= uint64(h5.fileSize), "object header is larger than the file")
+	// Nothing in the header can be trusted until the checksum is known to match.
+	h5.checkChecksum(origAddr, int(addr+chunkSize-origAddr))
 	bf = h5.newSeek(addr, int64(chunkSize)+bf.Rem())
 
 	// Read fields that object header and continuation blocks have in common
@@ -2275,10 +2278,6 @@ func (h5 *HDF5) readDataObjectHeaderV2(obj *object, addr uint64) {
 	assert(used == int64(chunkSize),
 		fmt.Sprintf("readCommon should read %d bytes, read %d, delta %d",
 			chunkSize, used, int64(chunkSize)-used))
-	addr += chunkSize
-
-	// Finally, compute the checksum
-	h5.checkChecksum(origAddr, int(addr-origAddr))
 	logger.Infof("obj %s at addr 0x%x\n", obj.name, origAddr)
 }
 
-- 
2.43.0


From 18254e26f3f692a36da22f147ade2849cca0c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 34/44] fix: verify the checksums of the direct blocks of
 fractal heaps

---
 netcdf/hdf5/hdf5.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c938165..c7ef1e0 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -233,6 +233,7 @@ type linkInfo struct {
 	blockSize        uint64
 	tableWidth       uint16
 	maximumBlockSize uint64
+	checked          map[uint64]bool // direct blocks whose checksums match; nil if they have none
 }
 
 type object struct {
@@ -665,6 +666,7 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 		}
 	}
 	if offset < blockSize && blockToUse != invalidAddress {
+		h5.checkDirectBlock(link, blockToUse, blockSize)
 		callback(obj, blockToUse, offset, length, creationOrder)
 		return
 	}
@@ -699,6 +701,24 @@ func (h5 *HDF5) doDoubling(obj *object, link *linkInfo, offset uint64, length ui
 	h5.readLinkData(obj, &nextLink, offset, length, creationOrder, callback)
 }
 
+// checkDirectBlock verifies the checksum of a direct block of a fractal heap, if it has one.
+func (h5 *HDF5) checkDirectBlock(link *linkInfo, addr uint64, blockSize uint64) {
+	if link.checked == nil || link.checked[addr] {
+		return
+	}
+	assert(blockSize <= uint64(h5.fileSize), "heap block is larger than the file")
+	block := make([]byte, blockSize)
+	read(h5.newSeek(addr, int64(blockSize)), block)
+	// The checksum follows the signature, version, heap address and block offset,
+	// and is calculated with its own bytes set to zero.
+	at := 4 + 1 + 8 + (link.maxHeapSize+7)/8
+	assert(at+4 <= len(block), "heap block is too small")
+	sum := binary.LittleEndian.Uint32(block[at:])
+	clear(block[at : at+4])
+	assert(checksum(block) == sum, "checksum mismatch")
+	link.checked[addr] = true
+}
+
 func (h5 *HDF5) readLinkData(obj *object, link *linkInfo, offset uint64, length uint16,
 	creationOrder uint64, callback doublerCallback) {
 	logger.Infof("offset=0x%x length=%d", offset, length)
@@ -1217,7 +1237,9 @@ func (h5 *HDF5) readHeap(link *linkInfo) {
 	checkVal(0, filterLen, "filterlen must be zero")
 	flags := read8(bf)
 	logger.Infof("flags=%s", binaryToString(uint64(flags)))
-	if !hasFlag8(flags, 1) {
+	if hasFlag8(flags, 1) {
+		link.checked = make(map[uint64]bool)
+	} else {
 		logger.Warn("not using checksums")
 	}
 	maxSizeObjects := read32(bf)
-- 
2.43.0


From 1f2b7dae330e0cc05d78d413e1a8cdd09f709e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 35/44] fix: verify the checksum of deflated chunks

---
 netcdf/hdf5/hdf5.go    |  2 +-
 netcdf/hdf5/readers.go | 23 +++++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index c7ef1e0..24b62b2 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2643,7 +2643,7 @@ func (h5 *HDF5) newRecordReader(obj *object) remReader {
 				}
 				// If there are more filters, we don't know the size yet.
 				// But shuffle usually needs it.
-				bf = newResetReader(zbf, int64(targetSize[j]))
+				bf = newResetReader(&inflateReader{r: zbf, size: int64(targetSize[j])}, int64(targetSize[j]))
 				inputSize = targetSize[j]
 				canSeek = false
 			case filterShuffle:
diff --git a/netcdf/hdf5/readers.go b/netcdf/hdf5/readers.go
index a26c4e0..b48e0ae 100644
--- a/netcdf/hdf5/readers.go
+++ b/netcdf/hdf5/readers.go
@@ -212,6 +212,29 @@ func (er *exactReader) Read(p []byte) (int, error) {
 	return n, err
 }
 
+// inflateReader reads everything when the first byte is needed, because the
+// checksum at the end can't be verified otherwise.
+type inflateReader struct {
+	r    io.Reader
+	size int64
+	data *bytes.Reader
+}
+
+func (ir *inflateReader) Read(p []byte) (int, error) {
+	if ir.data == nil {
+		b := make([]byte, ir.size)
+		if _, err := io.ReadFull(ir.r, b); err != nil {
+			return 0, err
+		}
+		// The end of the stream is where the checksum is.
+		if _, err := io.Copy(io.Discard, ir.r); err != nil {
+			return 0, err
+		}
+		ir.data = bytes.NewReader(b)
+	}
+	return ir.data.Read(p)
+}
+
 func newRaFile(file io.ReadSeeker) *raFile {
 	return &raFile{
 		rcFile:      newRefCountedFile(file),
-- 
2.43.0


From 410ab79b3b265b6aedb713f1f984de01a176070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 36/44] fix: find the name of an HDF5 type by comparing types,
 not descriptions

---
 netcdf/hdf5/array.go    |  4 +--
 netcdf/hdf5/compound.go |  4 +--
 netcdf/hdf5/enum.go     |  4 +--
 netcdf/hdf5/hdf5.go     | 68 ++++++++++++++++++++++++++++++++++-------
 netcdf/hdf5/opaque.go   |  4 +--
 netcdf/hdf5/types.go    |  6 +---
 netcdf/hdf5/vlen.go     |  4 +--
 7 files changed, 68 insertions(+), 26 deletions(-)

diff --git a/netcdf/hdf5/array.go b/netcdf/hdf5/array.go
index cf99d8f..505ae7a 100644
--- a/netcdf/hdf5/array.go
+++ b/netcdf/hdf5/array.go
@@ -23,7 +23,7 @@ func (arrayManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute
 	}
 	dims := strings.Join(dStr, ",")
 	signature := fmt.Sprintf("%s(%s)", ty, dims)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
@@ -38,7 +38,7 @@ func (arrayManagerType) goTypeString(sh sigHelper, typeName string, attr *attrib
 	}
 	dims := strings.Join(dStr, "")
 	signature := fmt.Sprintf("%s%s", dims, ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	assert(namedType == "", "arrays are not named types")
 	return signature
 }
diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index 750dd76..bff15be 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -30,7 +30,7 @@ func (compoundManagerType) cdlTypeString(sh sigHelper, name string, attr *attrib
 	}
 	interior := strings.Join(members, "")
 	signature := fmt.Sprintf("compound {\n%s}", interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	if namedType != "" {
 		return namedType
 	}
@@ -45,7 +45,7 @@ func (compoundManagerType) goTypeString(sh sigHelper, typeName string, attr *att
 	}
 	interior := strings.Join(members, "\n")
 	signature := fmt.Sprintf("struct {\n%s\n}\n", interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/enum.go b/netcdf/hdf5/enum.go
index f064c95..69d5d08 100644
--- a/netcdf/hdf5/enum.go
+++ b/netcdf/hdf5/enum.go
@@ -33,7 +33,7 @@ func (enumManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	}
 	interior := strings.Join(list, ",\n")
 	signature := fmt.Sprintf("%s enum {\n%s\n}", ty, interior)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	if namedType != "" {
 		return namedType
 	}
@@ -56,7 +56,7 @@ func (enumManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	}
 	interior := strings.Join(list, "\n")
 	signature := fmt.Sprintf("%s\nconst (\n%s\n)\n", ty, interior)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 24b62b2..d9791ca 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -10,6 +10,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"slices"
 	"sort"
 	"strconv"
 	"strings"
@@ -83,6 +84,8 @@ const (
 	typeReference
 	typeEnumerated
 	typeVariableLength
+	// 10
+	typeArray
 )
 
 // data type names
@@ -3129,29 +3132,72 @@ func (h5 *HDF5) GetDimension(name string) (uint64, bool) {
 	return 0, false
 }
 
-func (h5 *HDF5) findSignature(signature string, name string, origNames map[string]bool, printer printerType) string {
+// findSignature returns the name of the visible type that is the same as attr, if there
+// is one.  A type that is itself being described has no other name.
+func (h5 *HDF5) findSignature(attr *attribute, origNames map[string]bool) string {
 	if h5.groupObject == nil {
 		return ""
 	}
 	// Types are visible in the group that defines them and in the groups below it.
-	for _, group := range h5.enclosingGroups() {
+	groups := h5.enclosingGroups()
+	for _, group := range groups {
+		for _, obj := range group.children {
+			if obj.isType() && obj.objAttr == attr {
+				return ""
+			}
+		}
+	}
+	found := ""
+	for _, group := range groups {
 		for _, obj := range group.sortChildren() {
-			key := obj.name
-			if group != h5.groupObject {
-				key = fmt.Sprintf("0x%x/%s", group.addr, obj.name)
+			if !obj.isType() {
+				continue
 			}
-			if !obj.isType() || origNames[key] {
+			if group == h5.groupObject && origNames[obj.name] || !sameType(obj.objAttr, attr, false) {
 				continue
 			}
-			origNames[key] = true
-			sig := printer(obj.objAttr.class, h5, name, obj.objAttr, origNames)
-			origNames[key] = false
-			if sig != "" && sig == signature {
+			if sameType(obj.objAttr, attr, true) {
 				return obj.name
 			}
+			if found == "" {
+				found = obj.name
+			}
+		}
+	}
+	return found
+}
+
+// sameType returns true if both types would be described in the same way, and if asked,
+// also have the same layout.
+func sameType(a, b *attribute, layout bool) bool {
+	if a.class != b.class || a.vtType != b.vtType || a.signed != b.signed ||
+		len(a.children) != len(b.children) || !slices.Equal(a.enumNames, b.enumNames) ||
+		!slices.Equal(a.enumValues, b.enumValues) {
+		return false
+	}
+	switch a.class {
+	case typeFixedPoint, typeFloatingPoint, typeOpaque:
+		if a.length != b.length {
+			return false
+		}
+	default:
+		if layout && a.length != b.length {
+			return false
+		}
+	}
+	for i, ac := range a.children {
+		bc := b.children[i]
+		if a.class == typeCompound && (ac.name != bc.name || layout && ac.byteOffset != bc.byteOffset) {
+			return false
+		}
+		if (a.class == typeCompound || a.class == typeArray) && !slices.Equal(ac.dimensions, bc.dimensions) {
+			return false
+		}
+		if !sameType(ac, bc, layout) {
+			return false
 		}
 	}
-	return ""
+	return true
 }
 
 // enclosingGroups returns this group, the one it is in, and so on up to the root group.
diff --git a/netcdf/hdf5/opaque.go b/netcdf/hdf5/opaque.go
index 0d14d86..2e82a00 100644
--- a/netcdf/hdf5/opaque.go
+++ b/netcdf/hdf5/opaque.go
@@ -17,7 +17,7 @@ var (
 
 func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("opaque(%d)", attr.length)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	if namedType != "" {
 		return namedType
 	}
@@ -26,7 +26,7 @@ func (opaqueManagerType) cdlTypeString(sh sigHelper, name string, attr *attribut
 
 func (opaqueManagerType) goTypeString(sh sigHelper, typeName string, attr *attribute, origNames map[string]bool) string {
 	signature := fmt.Sprintf("[%d]uint8", attr.length)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	if namedType != "" {
 		return namedType
 	}
diff --git a/netcdf/hdf5/types.go b/netcdf/hdf5/types.go
index e1e8734..7c676ee 100644
--- a/netcdf/hdf5/types.go
+++ b/netcdf/hdf5/types.go
@@ -27,13 +27,9 @@ type caster interface {
 }
 
 type sigHelper interface {
-	findSignature(signature string, name string, origNames map[string]bool,
-		printer printerType) string
+	findSignature(attr *attribute, origNames map[string]bool) string
 }
 
-type printerType func(class uint8, helper sigHelper, name string, attr *attribute,
-	origNames map[string]bool) string
-
 var (
 	warnOnce sync.Once
 	dispatch = []typeManager{
diff --git a/netcdf/hdf5/vlen.go b/netcdf/hdf5/vlen.go
index 01583f3..2154171 100644
--- a/netcdf/hdf5/vlen.go
+++ b/netcdf/hdf5/vlen.go
@@ -24,7 +24,7 @@ func (vlenManagerType) cdlTypeString(sh sigHelper, name string, attr *attribute,
 	ty := cdlTypeString(vAttr.class, sh, name, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("%s(*)", ty)
-	namedType := sh.findSignature(signature, name, origNames, cdlTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	if namedType != "" {
 		return namedType
 	}
@@ -40,7 +40,7 @@ func (vlenManagerType) goTypeString(sh sigHelper, typeName string, attr *attribu
 	ty := goTypeString(vAttr.class, sh, typeName, vAttr, origNames)
 	assert(ty != "", "unable to parse vlen attr")
 	signature := fmt.Sprintf("[]%s", ty)
-	namedType := sh.findSignature(signature, typeName, origNames, goTypeString)
+	namedType := sh.findSignature(attr, origNames)
 	if namedType != "" {
 		return namedType
 	}
-- 
2.43.0


From b229d2288a15171bd60627be35356612b9fc7a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 37/44] fix: don't find HDF5 variables by the names that only
 the file has

---
 netcdf/hdf5/hdf5.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index d9791ca..5dbc7ab 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2967,7 +2967,7 @@ func (h5 *HDF5) findVariable(varName string) *object {
 		return obj
 	}
 	obj, has = h5.groupObject.children[varName]
-	if has && obj.isVariable() {
+	if has && obj.isVariable() && !strings.HasPrefix(varName, nonCoordPrefix) {
 		return obj
 	}
 	logger.Infof("variable %s not found", varName)
-- 
2.43.0


From 99dc8939377619b38eec4e3eda6627a6d05f928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 38/44] fix: list HDF5 attributes in the order of creation when
 the header has them in another

---
 netcdf/hdf5/hdf5.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 5dbc7ab..5f076f7 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -1969,12 +1969,13 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 			logger.Info("header message flag: must fail to open if you don't understand type")
 		}
 
+		co := uint16(0) // order of creation, if the header has it
 		if hasFlag8(ohFlags, 2) {
 			if bf.Rem() < 2 {
 				logger.Info("no chunks to read creation order")
 				break
 			}
-			co := read16(bf)
+			co = read16(bf)
 			logger.Infof("creation order = %d", co)
 		}
 		if size == 0 && version > 1 {
@@ -2072,7 +2073,7 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 
 		case typeAttribute:
 			logger.Infof("Attribute, obj addr=0x%x", obj.addr)
-			h5.readAttribute(obj, f, 0)
+			h5.readAttribute(obj, f, uint64(co))
 
 		case typeObjectComment:
 			comment := readNullTerminatedName(f, 0)
-- 
2.43.0


From 707c14956073a4b7e1a92fa52fa446a1212cbfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 39/44] fix: keep the chunk shape of an HDF5 dataset when its
 type comes after its layout

---
 netcdf/hdf5/hdf5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netcdf/hdf5/hdf5.go b/netcdf/hdf5/hdf5.go
index 5f076f7..2eb415c 100644
--- a/netcdf/hdf5/hdf5.go
+++ b/netcdf/hdf5/hdf5.go
@@ -2018,12 +2018,14 @@ func (h5 *HDF5) readCommon(obj *object, obf io.Reader, version uint8, ohFlags by
 		case typeDatatype:
 			obj.isGroup = false
 			logger.Info("Datatype")
-			// Preserve dimensions and noDf from the existing objAttr across the datatype re-read.
+			// Preserve dimensions, layout and noDf from the existing objAttr across the datatype re-read.
 			save := obj.objAttr.dimensions
+			layout := obj.objAttr.layout
 			noDf := obj.objAttr.noDf
 			obj.objAttr = h5.readDatatype(f)
 			logger.Info("dimensions are", obj.objAttr.dimensions)
 			obj.objAttr.dimensions = save
+			obj.objAttr.layout = layout
 			obj.objAttr.noDf = noDf
 
 		case typeDataStorageFillValueOld:
-- 
2.43.0


From 10d7cbce3ab6e636a5d578f42917686de38997fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 40/44] fix: write compounds and nested sequences with
 variable-length members, refuse values that do not tell their type

---
 netcdf/hdf5/hdf5writer.go   | 293 +++++++++++-------------------------
 netcdf/hdf5/writer_utils.go | 186 +++++++++++++----------
 2 files changed, 190 insertions(+), 289 deletions(-)

diff --git a/netcdf/hdf5/hdf5writer.go b/netcdf/hdf5/hdf5writer.go
index ddb4933..d48e8bb 100644
--- a/netcdf/hdf5/hdf5writer.go
+++ b/netcdf/hdf5/hdf5writer.go
@@ -52,6 +52,7 @@ type h5Group struct {
 
 type h5GlobalHeap struct {
 	addrs   []uint64 // address of each collection
+	end     uint64   // where the last collection ends, or the first begins
 	objects [][]byte
 	indices map[string]uint32
 }
@@ -98,7 +99,7 @@ func (hw *HDF5Writer) Close() (err error) {
 	hw.writeSuperblockV2()
 
 	// 2. Collect strings and vlen data, then write global heap
-	hw.heap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	hw.heap = hw.newGlobalHeap()
 	hw.collectStrings(hw.root)
 	hw.collectVlenData(hw.root)
 	hw.collectAttrVlenData(hw.root)
@@ -107,7 +108,7 @@ func (hw *HDF5Writer) Close() (err error) {
 	// 3. Write dimension scale variable data and OHs, so we know their addresses
 	//    for DIMENSION_LIST references, and then a global heap of the references.
 	hw.writeDimScaleContents(hw.root)
-	hw.refHeap = &h5GlobalHeap{indices: make(map[string]uint32)}
+	hw.refHeap = hw.newGlobalHeap()
 	hw.collectDimReferences(hw.root)
 	hw.writeGlobalHeap(hw.refHeap)
 
@@ -285,8 +286,7 @@ func (hw *HDF5Writer) collectDimReferences(g *h5Group) {
 			// Store the 8-byte object reference in the global heap
 			ref := make([]byte, 8)
 			binary.LittleEndian.PutUint64(ref, addr)
-			hw.refHeap.objects = append(hw.refHeap.objects, ref)
-			hw.refHeap.indices[dname] = uint32(len(hw.refHeap.objects))
+			hw.refHeap.indices[dname] = hw.refHeap.add(ref)
 		}
 	}
 	for _, sub := range g.groups {
@@ -697,94 +697,31 @@ func (hw *HDF5Writer) collectStringsActual(rv reflect.Value) {
 
 func (hw *HDF5Writer) addStringToHeap(s string) {
 	if _, ok := hw.heap.indices[s]; !ok {
-		hw.heap.objects = append(hw.heap.objects, []byte(s))
-		hw.heap.indices[s] = uint32(len(hw.heap.objects))
+		hw.heap.indices[s] = hw.heap.add([]byte(s))
 	}
 }
 
 // collectVlenData walks all variables and serializes vlen elements into the global heap.
 func (hw *HDF5Writer) collectVlenData(g *h5Group) {
 	for _, v := range g.vars {
-		nDims := len(v.dimensions)
 		rv := reflect.ValueOf(v.val)
 		for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
 			rv = rv.Elem()
 		}
-		// Check if this variable has vlen data (more nesting than declared dims)
-		if hw.hasVlenData(rv, nDims) {
-			hw.collectVlenElements(rv, nDims, v)
-		}
+		hw.collectVlenFromValue(rv, len(v.dimensions), &v.vlenHeapIndices)
 	}
 	for _, sub := range g.groups {
 		hw.collectVlenData(sub)
 	}
 }
 
-// hasVlenData checks if a value has more nesting levels than nDims,
-// meaning it contains vlen data.
-func (hw *HDF5Writer) hasVlenData(rv reflect.Value, nDims int) bool {
-	if e, ok := rv.Interface().(enumerated); ok {
-		return hw.hasVlenData(reflect.ValueOf(e.values), nDims)
-	}
-	for range nDims {
-		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
-			return false
-		}
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return false
-		}
-		if rv.Len() == 0 {
-			// Check type: if element type is still a slice, it's vlen
-			elemType := rv.Type().Elem()
-			return elemType.Kind() == reflect.Slice &&
-				elemType != reflect.TypeOf(compound{}) &&
-				elemType != reflect.TypeOf(opaque{})
-		}
-		rv = rv.Index(0)
-	}
-	// After consuming nDims, check if there's still a slice (= vlen)
-	if rv.Kind() == reflect.Slice && rv.Type() != reflect.TypeOf(compound{}) && rv.Type() != reflect.TypeOf(opaque{}) {
-		return true
-	}
-	// Also check within compound fields
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				return true
-			}
-		}
-	}
-	return false
-}
-
-// collectVlenElements walks through the array dimensions and serializes
-// each vlen element into the global heap.
-func (hw *HDF5Writer) collectVlenElements(rv reflect.Value, dimsLeft int, v *h5Var) {
-	if e, ok := rv.Interface().(enumerated); ok {
-		hw.collectVlenElements(reflect.ValueOf(e.values), dimsLeft, v)
-		return
-	}
-	if dimsLeft > 0 && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
-		for i := range rv.Len() {
-			hw.collectVlenElements(rv.Index(i), dimsLeft-1, v)
-		}
-		return
-	}
-	// At the vlen level: serialize this element's data
-	if rv.Kind() == reflect.Slice {
-		hw.serializeVlenElement(rv, v)
-		return
-	}
-	// Check compound fields for vlen
-	if c, ok := rv.Interface().(compound); ok {
-		for _, f := range c {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice && frv.Type() != reflect.TypeOf(compound{}) && frv.Type() != reflect.TypeOf(opaque{}) {
-				hw.serializeVlenElement(frv, v)
-			}
-		}
+// mayHaveVlen returns false if there cannot be vlen data below nDims array
+// dimensions of the type.
+func mayHaveVlen(t reflect.Type, nDims int) bool {
+	for ; nDims > 0 && t.Kind() == reflect.Slice && t != compoundType && t != opaqueType; nDims-- {
+		t = t.Elem()
 	}
+	return t.Kind() == reflect.Slice && t != opaqueType
 }
 
 // collectAttrVlenData walks all attributes (on variables and groups) and
@@ -795,7 +732,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 			for _, k := range v.attributes.Keys() {
 				val, _ := v.attributes.Get(k)
 				var indices []uint32
-				hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
+				_, nDims := hw.getAttributeDimensions(val)
+				hw.collectVlenFromValue(reflect.ValueOf(val), nDims, &indices)
 				if len(indices) > 0 {
 					if v.attrVlenIndices == nil {
 						v.attrVlenIndices = make(map[string][]uint32)
@@ -809,7 +747,8 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 		for _, k := range g.attributes.Keys() {
 			val, _ := g.attributes.Get(k)
 			var indices []uint32
-			hw.collectVlenFromValue(reflect.ValueOf(val), &indices)
+			_, nDims := hw.getAttributeDimensions(val)
+			hw.collectVlenFromValue(reflect.ValueOf(val), nDims, &indices)
 			if len(indices) > 0 {
 				if g.attrVlenIndices == nil {
 					g.attrVlenIndices = make(map[string][]uint32)
@@ -823,83 +762,40 @@ func (hw *HDF5Writer) collectAttrVlenData(g *h5Group) {
 	}
 }
 
-// collectVlenFromValue recursively walks a value and serializes any vlen
-// elements (varying-length slices) to the global heap.
-func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, indices *[]uint32) {
+// collectVlenFromValue walks through nDims array dimensions, and through
+// compounds, and serializes each vlen element into the global heap.
+func (hw *HDF5Writer) collectVlenFromValue(rv reflect.Value, nDims int, indices *[]uint32) {
 	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
 		rv = rv.Elem()
 	}
-
-	switch v := rv.Interface().(type) {
-	case compound:
-		for _, f := range v {
-			frv := reflect.ValueOf(f.Val)
-			if frv.Kind() == reflect.Slice &&
-				frv.Type() != reflect.TypeOf(compound{}) &&
-				frv.Type() != reflect.TypeOf(opaque{}) {
-				// Vlen field in compound: serialize it
-				hw.serializeVlenToHeap(frv, indices)
-			} else {
-				hw.collectVlenFromValue(frv, indices)
-			}
-		}
+	if !mayHaveVlen(rv.Type(), nDims) {
 		return
-	case opaque:
+	}
+	if c, ok := rv.Interface().(compound); ok {
+		for _, f := range c {
+			hw.collectVlenFromValue(reflect.ValueOf(f.Val), 0, indices)
+		}
 		return
-	case enumerated:
-		hw.collectVlenFromValue(reflect.ValueOf(v.values), indices)
+	}
+	if nDims == 0 {
+		hw.serializeVlenToHeap(rv, indices)
 		return
 	}
-
-	if rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			return
-		}
-		// Check if elements are slices with varying lengths (vlen)
-		if rv.Len() > 0 && rv.Index(0).Kind() == reflect.Slice {
-			isVlen := false
-			if rv.Len() > 1 {
-				firstLen := rv.Index(0).Len()
-				for i := 1; i < rv.Len(); i++ {
-					if rv.Index(i).Len() != firstLen {
-						isVlen = true
-						break
-					}
-				}
-			}
-			if isVlen {
-				for i := range rv.Len() {
-					hw.serializeVlenToHeap(rv.Index(i), indices)
-				}
-				return
-			}
-		}
-		// Regular array: recurse into elements
-		for i := range rv.Len() {
-			hw.collectVlenFromValue(rv.Index(i), indices)
-		}
+	for i := range rv.Len() {
+		hw.collectVlenFromValue(rv.Index(i), nDims-1, indices)
 	}
 }
 
 // serializeVlenToHeap serializes a single vlen slice and adds it to the heap.
 func (hw *HDF5Writer) serializeVlenToHeap(rv reflect.Value, indices *[]uint32) {
+	// What the elements refer to comes first.
+	var inner []uint32
+	hw.collectVlenFromValue(rv, 1, &inner)
+	hw.vlenHeapIndices = inner
+	hw.vlenPos = 0
 	buf := new(bytes.Buffer)
-	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
-	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	*indices = append(*indices, uint32(len(hw.heap.objects)))
+	hw.writeAttributeDataRecursive(buf, rv, 0, 1)
+	*indices = append(*indices, hw.heap.add(buf.Bytes()))
 }
 
 // getAttributeDimensions returns the array dimensions and effective nDims
@@ -912,56 +808,12 @@ func (hw *HDF5Writer) getAttributeDimensions(val any) ([]uint64, int) {
 	if e, ok := rv.Interface().(enumerated); ok {
 		return hw.getAttributeDimensions(e.values)
 	}
-	var dims []uint64
-	nDims := 0
-	for rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Type() == reflect.TypeOf(compound{}) || rv.Type() == reflect.TypeOf(opaque{}) {
-			break
-		}
-		dims = append(dims, uint64(rv.Len()))
-		nDims++
-		if rv.Len() == 0 {
-			rv = reflect.Zero(rv.Type().Elem()) // keep the rank when empty
-			continue
-		}
-		// Check if inner elements have varying lengths (= vlen boundary)
-		if rv.Len() > 1 && rv.Index(0).Kind() == reflect.Slice {
-			firstLen := rv.Index(0).Len()
-			isVlen := false
-			for i := 1; i < rv.Len(); i++ {
-				if rv.Index(i).Len() != firstLen {
-					isVlen = true
-					break
-				}
-			}
-			if isVlen {
-				break
-			}
-		}
-		rv = rv.Index(0)
+	// Where the value is no longer rectangular, it is vlen.
+	dims := getDimensionsLimited(rv, levelsBelow(rv, 0))
+	for !hasShape(rv, dims) {
+		dims = dims[:len(dims)-1]
 	}
-	return dims, nDims
-}
-
-// serializeVlenElement serializes a single vlen element and adds it to the heap.
-func (hw *HDF5Writer) serializeVlenElement(rv reflect.Value, v *h5Var) {
-	buf := new(bytes.Buffer)
-	for i := range rv.Len() {
-		elem := rv.Index(i)
-		switch val := elem.Interface().(type) {
-		case compound:
-			hw.writeCompoundValue(buf, val)
-		case opaque:
-			util.MustWriteRaw(buf, []byte(val))
-		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, val.values)
-		default:
-			util.MustWrite(buf, hw.byteOrder, val)
-		}
-	}
-	data := buf.Bytes()
-	hw.heap.objects = append(hw.heap.objects, data)
-	v.vlenHeapIndices = append(v.vlenHeapIndices, uint32(len(hw.heap.objects)))
+	return dims, len(dims)
 }
 
 // maxGCOLObjects is the number of objects that the 16-bit index can address.
@@ -974,15 +826,34 @@ func (gh *h5GlobalHeap) writeID(buf *bytes.Buffer, index uint32) {
 	util.MustWriteLE(buf, (index-1)%maxGCOLObjects+1)
 }
 
+// newGlobalHeap returns an empty heap, which must be the next thing written.
+func (hw *HDF5Writer) newGlobalHeap() *h5GlobalHeap {
+	return &h5GlobalHeap{
+		end:     (uint64(hw.buf.Len()) + 7) &^ 7,
+		indices: make(map[string]uint32),
+	}
+}
+
+// add adds an object, and returns its index.
+func (gh *h5GlobalHeap) add(obj []byte) uint32 {
+	if len(gh.objects)%maxGCOLObjects == 0 {
+		gh.addrs = append(gh.addrs, gh.end)
+		gh.end += 16 + 16 // the header and the free space
+	}
+	gh.objects = append(gh.objects, obj)
+	gh.end += 16 + (uint64(len(obj))+7)&^7
+	return uint32(len(gh.objects))
+}
+
 // writeGlobalHeap writes as many collections as the objects need.
 func (hw *HDF5Writer) writeGlobalHeap(gh *h5GlobalHeap) {
 	for objects := range slices.Chunk(gh.objects, maxGCOLObjects) {
-		gh.addrs = append(gh.addrs, hw.writeGlobalHeapCollection(objects))
+		hw.writeGlobalHeapCollection(objects)
 	}
 }
 
-// writeGlobalHeapCollection writes the objects and returns the collection's address.
-func (hw *HDF5Writer) writeGlobalHeapCollection(objects [][]byte) uint64 {
+// writeGlobalHeapCollection writes the objects.
+func (hw *HDF5Writer) writeGlobalHeapCollection(objects [][]byte) {
 	// Align to 8 bytes so that objects within the collection are
 	// properly aligned when using absolute buffer position for padding.
 	for (hw.buf.Len() % 8) != 0 {
@@ -1034,7 +905,6 @@ func (hw *HDF5Writer) writeGlobalHeapCollection(objects [][]byte) uint64 {
 	finalSize := uint64(hw.buf.Len()) - addr
 	data := hw.buf.Bytes()
 	binary.LittleEndian.PutUint64(data[sizeAddr:], finalSize)
-	return addr
 }
 
 func (hw *HDF5Writer) getDimensions(val any) []uint64 {
@@ -1134,7 +1004,7 @@ func (hw *HDF5Writer) addAttributes(g *h5Group, attrs api.AttributeMap) error {
 	if attrs == nil {
 		attrs, _ = util.NewOrderedMap(nil, nil)
 	}
-	if err := checkAttributes(attrs); err != nil {
+	if err := hw.checkAttributes(attrs); err != nil {
 		return err
 	}
 	g.attributes = attrs
@@ -1152,7 +1022,7 @@ func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) error {
 	if !isSupportedType(vr.Values) {
 		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
 	}
-	if err := checkAttributes(vr.Attributes); err != nil {
+	if err := hw.checkAttributes(vr.Attributes); err != nil {
 		return err
 	}
 	if g.vars[name] != nil || g.groups[name] != nil {
@@ -1163,9 +1033,8 @@ func (hw *HDF5Writer) addVar(g *h5Group, name string, vr api.Variable) error {
 	if len(shape) != len(vr.Dimensions) || !hasShape(rv, shape) {
 		return ErrDimensionality
 	}
-	if levelsBelow(rv, len(shape)) > 1 {
-		// Only one-dimensional slices can be ragged rows.
-		return fmt.Errorf("%w: %T", ErrUnsupportedType, vr.Values)
+	if err := hw.checkDatatype(vr.Values, len(shape)); err != nil {
+		return err
 	}
 	dimSizes := make(map[string]uint64)
 	for i, dimName := range vr.Dimensions {
@@ -1267,7 +1136,7 @@ func levelsBelow(rv reflect.Value, depth int) int {
 }
 
 // checkAttributes returns an error if there is an attribute that cannot be written.
-func checkAttributes(attrs api.AttributeMap) error {
+func (hw *HDF5Writer) checkAttributes(attrs api.AttributeMap) error {
 	if attrs == nil {
 		return nil
 	}
@@ -1279,19 +1148,27 @@ func checkAttributes(attrs api.AttributeMap) error {
 		if !isSupportedType(v) {
 			return fmt.Errorf("%w: %T", ErrUnsupportedType, v)
 		}
-		// Ragged rows are possible only in two dimensions, and not for strings.
-		rv := reflect.ValueOf(v)
-		depth := levelsBelow(rv, 0)
-		if hasShape(rv, getDimensionsLimited(rv, depth)) {
-			continue
-		}
-		if depth != 2 || rv.Type().Elem().Elem().Kind() == reflect.String {
-			return fmt.Errorf("%w: ragged %T", ErrUnsupportedType, v)
+		_, nDims := hw.getAttributeDimensions(v)
+		if err := hw.checkDatatype(v, nDims); err != nil {
+			return err
 		}
 	}
 	return nil
 }
 
+// checkDatatype returns an error if the value has no type that can be written,
+// or none that can be known because there are no elements.
+func (hw *HDF5Writer) checkDatatype(val any, nDims int) (err error) {
+	defer func() {
+		if err != nil {
+			err = fmt.Errorf("%w: %T", err, val)
+		}
+	}()
+	defer thrower.RecoverError(&err)
+	hw.buildDatatypeMessage(val, nDims)
+	return nil
+}
+
 // isSupportedType checks whether val is a type the HDF5/NetCDF4 writer can
 // handle. It recursively unwraps slices/arrays (stopping at compound/opaque)
 // and checks that the leaf type is one of the supported scalar types.
diff --git a/netcdf/hdf5/writer_utils.go b/netcdf/hdf5/writer_utils.go
index c70f028..c1c8022 100644
--- a/netcdf/hdf5/writer_utils.go
+++ b/netcdf/hdf5/writer_utils.go
@@ -3,6 +3,7 @@ package hdf5
 import (
 	"bytes"
 	"encoding/binary"
+	"iter"
 	"reflect"
 
 	"github.com/batchatco/go-native-netcdf/netcdf/util"
@@ -127,16 +128,8 @@ func calcFieldSize(val any) int {
 	case opaque:
 		return len(v)
 	case enumerated:
-		// Size of the underlying scalar
-		rv := reflect.ValueOf(v.values)
-		for rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-			if rv.Len() > 0 {
-				rv = rv.Index(0)
-			} else {
-				rv = reflect.Zero(rv.Type().Elem())
-			}
-		}
-		return calcFieldSize(rv.Interface())
+		// An array of enumerated values is not variable-length.
+		return enumArraySize(v) * calcFieldSize(reflect.Zero(leafType(v.values)).Interface())
 	}
 	// Slice = vlen descriptor
 	rv := reflect.ValueOf(val)
@@ -147,6 +140,24 @@ func calcFieldSize(val any) int {
 	return 0
 }
 
+// leafType returns the type of the elements of slices of any depth.
+func leafType(val any) reflect.Type {
+	t := reflect.TypeOf(val)
+	for t.Kind() == reflect.Slice || t.Kind() == reflect.Array {
+		t = t.Elem()
+	}
+	return t
+}
+
+// enumArraySize returns how many values there are.
+func enumArraySize(e enumerated) int {
+	n := 1
+	for _, d := range getDimensionsRecursive(reflect.ValueOf(e)) {
+		n *= int(d)
+	}
+	return n
+}
+
 // writeEnc writes a 1, 2, or 4 byte encoded integer for compound byte offsets.
 func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 	switch {
@@ -159,24 +170,30 @@ func writeEnc(buf *bytes.Buffer, val uint32, totalSize uint32) {
 	}
 }
 
-// navigateToFirst descends through slice levels to reach the first element
-// at the given depth. Returns a zero value if any slice along the way is empty.
-func navigateToFirst(rv reflect.Value, depth int) reflect.Value {
-	for rv.Kind() == reflect.Pointer || rv.Kind() == reflect.Interface {
-		rv = rv.Elem()
-	}
-	for range depth {
-		if rv.Kind() != reflect.Slice && rv.Kind() != reflect.Array {
-			break
+// elements returns the elements at the given depth of nested slices.
+func elements(rv reflect.Value, depth int) iter.Seq[reflect.Value] {
+	return func(yield func(reflect.Value) bool) {
+		if depth == 0 {
+			yield(rv)
+			return
 		}
-		if rv.Len() == 0 {
-			// There is none: a zero value has the type at least.
-			rv = reflect.Zero(rv.Type().Elem())
-			continue
+		for i := range rv.Len() {
+			for elem := range elements(rv.Index(i), depth-1) {
+				if !yield(elem) {
+					return
+				}
+			}
 		}
-		rv = rv.Index(0)
 	}
-	return rv
+}
+
+// first returns the first element, which tells its type.
+func first(elems iter.Seq[reflect.Value]) reflect.Value {
+	for elem := range elems {
+		return elem
+	}
+	thrower.Throw(ErrUnsupportedType)
+	return reflect.Value{}
 }
 
 func buildOpaqueDatatype(size int) []byte {
@@ -189,8 +206,10 @@ func buildOpaqueDatatype(size int) []byte {
 	return buf.Bytes()
 }
 
-func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
+// buildCompoundDatatype returns the type of compounds, of which there must be at least one.
+func (hw *HDF5Writer) buildCompoundDatatype(elems iter.Seq[reflect.Value]) []byte {
 	buf := new(bytes.Buffer)
+	val := first(elems).Interface().(compound)
 
 	// Compute total compound size
 	totalSize := 0
@@ -208,20 +227,19 @@ func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
 
 	// Members
 	offset := uint32(0)
-	for _, f := range val {
+	for i, f := range val {
 		// Name (null-terminated, no padding for version 3)
 		util.MustWriteRaw(buf, append([]byte(f.Name), 0))
 		// Byte offset (encoded)
 		writeEnc(buf, offset, uint32(totalSize))
 		// Member datatype
-		var dt []byte
-		if _, ok := f.Val.(string); ok {
-			// Strings in compounds are always vlen
-			dt = hw.buildVLenStringDatatype()
-		} else {
-			// For compound members, nDims=0: any remaining slice is vlen
-			dt = hw.buildDatatypeMessage(f.Val, 0)
-		}
+		dt := hw.buildElementDatatype(reflect.TypeOf(f.Val), func(yield func(reflect.Value) bool) {
+			for elem := range elems {
+				if !yield(reflect.ValueOf(elem.Interface().(compound)[i].Val)) {
+					return
+				}
+			}
+		})
 		util.MustWriteRaw(buf, dt)
 		offset += uint32(calcFieldSize(f.Val))
 	}
@@ -229,22 +247,26 @@ func (hw *HDF5Writer) buildCompoundDatatype(val compound) []byte {
 	return buf.Bytes()
 }
 
+func buildArrayDatatype(dims []uint64, size int, base []byte) []byte {
+	buf := new(bytes.Buffer)
+	util.MustWriteByte(buf, 0x3A) // version 3, class 10 (array)
+	util.MustWriteRaw(buf, []byte{0, 0, 0})
+	util.MustWriteLE(buf, uint32(size))
+	util.MustWriteByte(buf, byte(len(dims)))
+	for _, d := range dims {
+		util.MustWriteLE(buf, uint32(d))
+	}
+	util.MustWriteRaw(buf, base)
+	return buf.Bytes()
+}
+
 func (hw *HDF5Writer) buildEnumDatatype(e enumerated) []byte {
 	buf := new(bytes.Buffer)
 
 	// Determine base integer type from the inner values
-	rv := reflect.ValueOf(e.values)
-	for rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array {
-		if rv.Len() > 0 {
-			rv = rv.Index(0)
-		} else {
-			rv = reflect.Zero(rv.Type().Elem())
-		}
-	}
-
 	var baseSize int
 	var signed bool
-	switch rv.Interface().(type) {
+	switch reflect.Zero(leafType(e.values)).Interface().(type) {
 	case int8:
 		baseSize, signed = 1, true
 	case uint8:
@@ -289,28 +311,45 @@ func (hw *HDF5Writer) buildEnumDatatype(e enumerated) []byte {
 	return buf.Bytes()
 }
 
-func (hw *HDF5Writer) buildVlenSequenceDatatype(rv reflect.Value) []byte {
+// buildElementDatatype returns the type that elements have in a heap or a compound.
+func (hw *HDF5Writer) buildElementDatatype(t reflect.Type, elems iter.Seq[reflect.Value]) []byte {
+	switch {
+	case t == reflect.TypeOf(enumerated{}):
+		e := first(elems).Interface().(enumerated)
+		dims := getDimensionsRecursive(reflect.ValueOf(e))
+		if len(dims) > 0 {
+			return buildArrayDatatype(dims, calcFieldSize(e), hw.buildEnumDatatype(e))
+		}
+		return hw.buildEnumDatatype(e)
+	case t == compoundType:
+		return hw.buildCompoundDatatype(elems)
+	case t == opaqueType:
+		return buildOpaqueDatatype(first(elems).Len())
+	case t.Kind() == reflect.Slice:
+		return hw.buildVlenSequenceDatatype(t.Elem(), func(yield func(reflect.Value) bool) {
+			for elem := range elems {
+				for i := range elem.Len() {
+					if !yield(elem.Index(i)) {
+						return
+					}
+				}
+			}
+		})
+	case t.Kind() == reflect.String:
+		// Strings in compounds are always vlen
+		return hw.buildVLenStringDatatype()
+	}
+	return hw.buildDatatypeMessage(reflect.Zero(t).Interface(), 0)
+}
+
+func (hw *HDF5Writer) buildVlenSequenceDatatype(t reflect.Type, elems iter.Seq[reflect.Value]) []byte {
 	buf := new(bytes.Buffer)
 	util.MustWriteByte(buf, 0x19) // version 1, class 9
 	util.MustWriteByte(buf, 0x00) // type=0 (sequence), padding=0, cset=0
 	util.MustWriteByte(buf, 0x00)
 	util.MustWriteByte(buf, 0x00)
 	util.MustWriteLE(buf, uint32(16)) // vlen descriptor size
-
-	// Build element datatype: all nesting within the element is array dimensions
-	var elemVal any
-	if rv.Len() > 0 {
-		elemVal = rv.Index(0).Interface()
-	} else {
-		elemVal = reflect.Zero(rv.Type().Elem()).Interface()
-	}
-	elemRv := reflect.ValueOf(elemVal)
-	for elemRv.Kind() == reflect.Pointer || elemRv.Kind() == reflect.Interface {
-		elemRv = elemRv.Elem()
-	}
-	allDims := getDimensionsRecursive(elemRv)
-	elemDt := hw.buildDatatypeMessage(elemVal, len(allDims))
-	util.MustWriteRaw(buf, elemDt)
+	util.MustWriteRaw(buf, hw.buildElementDatatype(t, elems))
 	return buf.Bytes()
 }
 
@@ -429,7 +468,7 @@ func (hw *HDF5Writer) writeCompoundValue(buf *bytes.Buffer, val compound) {
 		case opaque:
 			util.MustWriteRaw(buf, []byte(v))
 		case enumerated:
-			util.MustWrite(buf, hw.byteOrder, v.values)
+			hw.writeAttributeDataRecursive(buf, reflect.ValueOf(v), 0, len(getDimensionsRecursive(reflect.ValueOf(v))))
 		default:
 			// Vlen sequence descriptor
 			rv := reflect.ValueOf(v)
@@ -468,25 +507,10 @@ func (hw *HDF5Writer) buildDatatypeMessage(val any, nDims int) []byte {
 		dimsStripped++
 	}
 
-	// Check for special types at element level
-	if t == reflect.TypeOf(enumerated{}) {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildEnumDatatype(elem.Interface().(enumerated))
-	}
-	if t == reflect.TypeOf(compound{}) {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildCompoundDatatype(elem.Interface().(compound))
-	}
-	if t == reflect.TypeOf(opaque{}) {
-		elem := navigateToFirst(rv, dimsStripped)
-		o := elem.Interface().(opaque)
-		return buildOpaqueDatatype(len(o))
-	}
-
-	// If still a slice after consuming declared dims, it's vlen
-	if t.Kind() == reflect.Slice {
-		elem := navigateToFirst(rv, dimsStripped)
-		return hw.buildVlenSequenceDatatype(elem)
+	// Special types at element level; if still a slice after consuming
+	// declared dims, it's vlen
+	if t.Kind() == reflect.Slice || t == reflect.TypeOf(enumerated{}) {
+		return hw.buildElementDatatype(t, elements(rv, dimsStripped))
 	}
 
 	// Scalar types
-- 
2.43.0


From b9968bcf134c056fcf2a533c49a3793067c9d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 41/44] fix: place CDF records by the sizes of the variables,
 not the vsize fields

---
 netcdf/cdf/cdf.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index 4296b06..fe48748 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -425,7 +425,9 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 		default:
 			thrower.Throw(ErrUnknownType)
 		}
-		cdf.recSize += uint64(vsize)
+		// The vsize in the header can't be used for this, because it doesn't
+		// tell the size of large variables.
+		cdf.recSize += roundInt32(n)
 		usedVsize = n
 	}
 	var offset uint64
-- 
2.43.0


From 2b962f6949a7c8edf470ded8ebf1843455c575ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:37 +0000
Subject: [PATCH 42/44] fix: read compound members at their offsets, whatever
 their order

---
 netcdf/hdf5/compound.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/netcdf/hdf5/compound.go b/netcdf/hdf5/compound.go
index bff15be..a94db33 100644
--- a/netcdf/hdf5/compound.go
+++ b/netcdf/hdf5/compound.go
@@ -169,24 +169,16 @@ func allocCompounds(hr heapReader, cstr caster, bf io.Reader, dimLengths []uint6
 		} else {
 			rem = length
 		}
-		cbf := newResetReader(bf, rem)
+		data := make([]byte, rem)
+		read(bf, data)
 		varray := make([]compoundField, len(attr.children))
 		for i, c := range attr.children {
-			byteOffset := c.byteOffset
-			clen := uint64(calcAttrSize(c))
-			if int64(byteOffset) > cbf.Count() {
-				skipLen := int64(byteOffset) - cbf.Count()
-				logger.Info("skip to offset", skipLen)
-				skip(cbf, int64(skipLen))
-			}
-			ccbf := newResetReader(cbf, int64(clen))
-			varray[i].Val = getDataAttr(hr, cstr, ccbf, *c)
+			// The members are not always in the order of their offsets.
+			begin, clen := uint64(c.byteOffset), calcAttrSize(c)
+			assertError(begin+clen <= uint64(len(data)), ErrCorrupted, "member outside of its compound")
+			varray[i].Val = getDataAttr(hr, cstr, newResetReaderFromBytes(data[begin:begin+clen]), *c)
 			varray[i].Name = c.name
 		}
-		if cbf.Count() < length {
-			rem := length - cbf.Count()
-			skip(cbf, int64(rem))
-		}
 		if cast != nil {
 			fields := make([]reflect.StructField, len(attr.children))
 			for i := range fields {
-- 
2.43.0


From acfef31af471050200232e10541140a34379a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:42 +0000
Subject: [PATCH 43/44] fix: write a CDF-5 file if a dimension or variable is
 too large for CDF-2

---
 netcdf/cdf/cdfwriter.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/netcdf/cdf/cdfwriter.go b/netcdf/cdf/cdfwriter.go
index b27b700..d0c5065 100644
--- a/netcdf/cdf/cdfwriter.go
+++ b/netcdf/cdf/cdfwriter.go
@@ -1011,7 +1011,25 @@ func (cw *CDFWriter) writeNumber(n int64) {
 	}
 }
 
+// needsV5 returns true if there is a dimension or variable that is too large for version 2.
+func (cw *CDFWriter) needsV5() bool {
+	for i := range cw.vars {
+		for _, length := range cw.vars[i].dimLengths {
+			if length > math.MaxInt32 {
+				return true
+			}
+		}
+		if computeVsize(&cw.vars[i]) > math.MaxUint32 {
+			return true
+		}
+	}
+	return false
+}
+
 func (cw *CDFWriter) writeAll() {
+	if cw.needsV5() {
+		cw.version = 5
+	}
 	writeBytes(cw.bf, []byte("CDF"))
 	write8(cw.bf, cw.version) // version 2 to handle big files
 	numRecs := int64(0)       // 0: not unlimited
-- 
2.43.0


From 4ad2e0d886da33361209909fca9002ce50d71527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:46 +0000
Subject: [PATCH 44/44] fix: read lengths of 2 GiB and more in CDF-2 files

---
 netcdf/cdf/cdf.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netcdf/cdf/cdf.go b/netcdf/cdf/cdf.go
index fe48748..059d694 100644
--- a/netcdf/cdf/cdf.go
+++ b/netcdf/cdf/cdf.go
@@ -445,8 +445,10 @@ func (cdf *CDF) getVar(bf io.Reader) variable {
 func (cdf *CDF) readNumber(bf io.Reader) uint64 {
 	if cdf.version < 5 {
 		n := read32(bf)
-		// Sign-extend the 32-bit value to 64-bit before returning as uint64.
-		return uint64(int64(int32(n)))
+		if n == math.MaxUint32 {
+			return math.MaxUint64 // sign-extend -1, which has a special meaning
+		}
+		return uint64(n)
 	}
 	return read64(bf)
 }
-- 
2.43.0

