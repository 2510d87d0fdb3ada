From 55452d00603038f87c95c3cc2c09dc7d802ff0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 01/31] fix: report a failure to close a file instead of
 terminating the process

---
 node.go  | 28 ++++++++--------------------
 parse.go | 54 ++++++++++++++++++++----------------------------------
 2 files changed, 28 insertions(+), 54 deletions(-)

diff --git a/node.go b/node.go
index 728ab77..9739160 100644
--- a/node.go
+++ b/node.go
@@ -4,7 +4,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"log"
 	"path/filepath"
 	"strings"
 
@@ -39,7 +38,7 @@ func (n *Node) String() string {
 	return fmt.Sprintf("%v", n.Value)
 }
 
-func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error) {
+func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (n *Node, err error) {
 	baseDir := filepath.Dir(location)
 	fragmentPath := filepath.Join(baseDir, node.Value)
 	rdr, err := ReadRawFile(fragmentPath)
@@ -47,12 +46,7 @@ func (r *RAML) makeIncludedNode(node *yaml.Node, location string) (*Node, error)
 		return nil, StacktraceNewWrapped("include: read raw file", err, location, WithNodePosition(node),
 			stacktrace.WithInfo("path", fragmentPath))
 	}
-	defer func(rdr io.ReadCloser) {
-		err = rdr.Close()
-		if err != nil {
-			log.Fatal(fmt.Errorf("close file error: %w", err))
-		}
-	}(rdr)
+	defer closeFile(rdr, fragmentPath, &err)
 	var value any
 	ext := filepath.Ext(node.Value)
 	switch ext {
@@ -123,11 +117,10 @@ func (r *RAML) makeYamlNode(node *yaml.Node, location string) (*Node, error) {
 	}, nil
 }
 
-func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any, error) {
+func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (val any, err error) {
 	switch node.Tag {
 	default:
-		var val any
-		if err := node.Decode(&val); err != nil {
+		if err = node.Decode(&val); err != nil {
 			return nil, StacktraceNewWrapped("decode scalar node", err, location)
 		}
 		return val, nil
@@ -145,17 +138,12 @@ func scalarNodeToDataNode(node *yaml.Node, location string, isInclude bool) (any
 		baseDir := filepath.Dir(location)
 		fragmentPath := filepath.Join(baseDir, node.Value)
 		// TODO: Need to refactor and move out IO logic from this function.
-		r, err := ReadRawFile(filepath.Join(baseDir, node.Value))
-		if err != nil {
-			return nil, StacktraceNewWrapped("include: read raw file", err, location, WithNodePosition(node),
+		r, errOpen := ReadRawFile(filepath.Join(baseDir, node.Value))
+		if errOpen != nil {
+			return nil, StacktraceNewWrapped("include: read raw file", errOpen, location, WithNodePosition(node),
 				stacktrace.WithInfo("path", fragmentPath))
 		}
-		defer func(r io.ReadCloser) {
-			err = r.Close()
-			if err != nil {
-				log.Fatal(fmt.Errorf("close file error: %w", err))
-			}
-		}(r)
+		defer closeFile(r, fragmentPath, &err)
 		// TODO: This logic should be more complex because content type may depend on the header reported
 		//  by remote server.
 		ext := filepath.Ext(node.Value)
diff --git a/parse.go b/parse.go
index a50be10..51ab85e 100644
--- a/parse.go
+++ b/parse.go
@@ -5,7 +5,6 @@ import (
 	"context"
 	"fmt"
 	"io"
-	"log"
 	"os"
 	"path/filepath"
 	"strings"
@@ -120,8 +119,8 @@ func CheckFragmentKind(f *os.File, kind FragmentKind) error {
 
 const HookBeforeParseDataType = "before:RAML.parseDataType"
 
-func (r *RAML) parseDataType(path string) (*DataType, error) {
-	if err := r.callHooks(HookBeforeParseDataType, path); err != nil {
+func (r *RAML) parseDataType(path string) (dt *DataType, err error) {
+	if err = r.callHooks(HookBeforeParseDataType, path); err != nil {
 		return nil, err
 	}
 	// IMPORTANT: May generate recursive structure.
@@ -140,19 +139,14 @@ func (r *RAML) parseDataType(path string) (*DataType, error) {
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	defer func(f *os.File) {
-		err = f.Close()
-		if err != nil {
-			log.Fatalf("close file error: %v", err)
-		}
-	}(f)
+	defer closeFile(f, path, &err)
 
 	if err = CheckFragmentKind(f, FragmentDataType); err != nil {
 		return nil, StacktraceNewWrapped("check fragment kind", err, path,
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	dt, err := r.decodeDataType(f, path)
+	dt, err = r.decodeDataType(f, path)
 	if err != nil {
 		return nil, StacktraceNewWrapped("decode data type", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -178,6 +172,14 @@ func openFragmentFile(path string) (*os.File, error) {
 	return f, nil
 }
 
+// closeFile closes a file that was read from and, unless the caller already fails, reports a failure to close it.
+func closeFile(c io.Closer, location string, err *error) {
+	if errClose := c.Close(); errClose != nil && *err == nil {
+		*err = StacktraceNewWrapped("close file", errClose, location,
+			stacktrace.WithType(StacktraceTypeReading))
+	}
+}
+
 func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	decoder := yaml.NewDecoder(f)
 
@@ -214,13 +216,12 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	return lib, nil
 }
 
-func (r *RAML) parseLibrary(path string) (*Library, error) {
+func (r *RAML) parseLibrary(path string) (lib *Library, err error) {
 	// IMPORTANT: May generate recursive structure.
 	// Consumers (resolvers, validators, external clients) must implement recursion detection when traversing links.
 
 	// Fragment paths must be normalized to absolute paths to simplify dependent libraries resolution.
 	// TODO: Add support for URI
-	var err error
 
 	if lib := r.GetFragment(path); lib != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
@@ -233,19 +234,14 @@ func (r *RAML) parseLibrary(path string) (*Library, error) {
 			stacktrace.WithType(StacktraceTypeLoading))
 	}
 
-	defer func(f *os.File) {
-		err = f.Close()
-		if err != nil {
-			log.Fatalf("close file error: %v", err)
-		}
-	}(f)
+	defer closeFile(f, path, &err)
 
 	if err = CheckFragmentKind(f, FragmentLibrary); err != nil {
 		return nil, StacktraceNewWrapped("check fragment kind", err, path,
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	lib, err := r.decodeLibrary(f, path)
+	lib, err = r.decodeLibrary(f, path)
 	if err != nil {
 		return nil, StacktraceNewWrapped("decode library", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -268,7 +264,7 @@ func (r *RAML) decodeNamedExample(f io.Reader, path string) (*NamedExample, erro
 	return ne, nil
 }
 
-func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
+func (r *RAML) parseNamedExample(path string) (ne *NamedExample, err error) {
 	// Library paths must be normalized to simplify dependent libraries resolution.
 	// Convert rel to abs relative to current workdir if necessary.
 
@@ -282,19 +278,14 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 		return nil, fmt.Errorf("open fragment file: %w", err)
 	}
 
-	defer func(f *os.File) {
-		err = f.Close()
-		if err != nil {
-			log.Fatalf("close file error: %v", err)
-		}
-	}(f)
+	defer closeFile(f, path, &err)
 
 	if err = CheckFragmentKind(f, FragmentNamedExample); err != nil {
 		return nil, StacktraceNewWrapped("check fragment kind", err, path,
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	ne, err := r.decodeNamedExample(f, path)
+	ne, err = r.decodeNamedExample(f, path)
 	if err != nil {
 		return nil, StacktraceNewWrapped("decode named example", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -303,7 +294,7 @@ func (r *RAML) parseNamedExample(path string) (*NamedExample, error) {
 	return ne, nil
 }
 
-func (r *RAML) ParseFromPath(path string, opts ...ParseOpt) error {
+func (r *RAML) ParseFromPath(path string, opts ...ParseOpt) (err error) {
 	// Library paths must be normalized to simplify dependent libraries resolution.
 	// Convert rel to abs relative to current workdir if necessary.
 
@@ -318,12 +309,7 @@ func (r *RAML) ParseFromPath(path string, opts ...ParseOpt) error {
 			stacktrace.WithType(StacktraceTypeReading))
 	}
 
-	defer func(f *os.File) {
-		err = f.Close()
-		if err != nil {
-			log.Fatalf("close file error: %v", err)
-		}
-	}(f)
+	defer closeFile(f, path, &err)
 
 	return r.parseFragment(f, f.Name(), pOpts)
 }
-- 
2.43.0


From 5bc324cd87578d6e1e8e7c9c25afe20e099402d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 02/31] fix: terminate when a fragment includes itself through
 a data type

---
 parse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 51ab85e..0d2b260 100644
--- a/parse.go
+++ b/parse.go
@@ -77,13 +77,13 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 	decoder := yaml.NewDecoder(f)
 
 	dt := r.MakeDataType(path)
+	// The fragment must be known before its content is decoded since the content may include the same fragment.
+	r.PutFragment(path, dt)
 	if err := decoder.Decode(&dt); err != nil {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 
-	r.PutFragment(path, dt)
-
 	baseDir := filepath.Dir(dt.Location)
 	for pair := dt.Uses.Oldest(); pair != nil; pair = pair.Next() {
 		include := pair.Value
@@ -184,6 +184,8 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 	decoder := yaml.NewDecoder(f)
 
 	lib := r.MakeLibrary(path)
+	// The fragment must be known before its content is decoded since the content may include the same fragment.
+	r.PutFragment(path, lib)
 	if err := decoder.Decode(&lib); err != nil {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
@@ -191,8 +193,6 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 
 	var st *stacktrace.StackTrace
 
-	r.PutFragment(path, lib)
-
 	// Resolve included libraries in a separate stage.
 	baseDir := filepath.Dir(lib.Location)
 	for pair := lib.Uses.Oldest(); pair != nil; pair = pair.Next() {
-- 
2.43.0


From 4ae335e51034f104bab54d05fcf39339028cdf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 03/31] fix: report a fragment of an unexpected kind instead of
 panicking

---
 parse.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/parse.go b/parse.go
index 0d2b260..b332257 100644
--- a/parse.go
+++ b/parse.go
@@ -128,9 +128,15 @@ func (r *RAML) parseDataType(path string) (dt *DataType, err error) {
 
 	// Fragment paths must be normalized to absolute paths to simplify dependent libraries resolution.
 
-	if dt := r.GetFragment(path); dt != nil {
+	if frag := r.GetFragment(path); frag != nil {
 		// log.Printf("reusing fragment %s", path)
-		return dt.(*DataType), nil
+		dt, ok := frag.(*DataType)
+		if !ok {
+			return nil, StacktraceNew("unexpected fragment kind", path,
+				stacktrace.WithInfo("expected", "data type"), stacktrace.WithInfo("actual", fmt.Sprintf("%T", frag)),
+				stacktrace.WithType(StacktraceTypeReading))
+		}
+		return dt, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -223,9 +229,15 @@ func (r *RAML) parseLibrary(path string) (lib *Library, err error) {
 	// Fragment paths must be normalized to absolute paths to simplify dependent libraries resolution.
 	// TODO: Add support for URI
 
-	if lib := r.GetFragment(path); lib != nil {
+	if frag := r.GetFragment(path); frag != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*Library), nil
+		lib, ok := frag.(*Library)
+		if !ok {
+			return nil, StacktraceNew("unexpected fragment kind", path,
+				stacktrace.WithInfo("expected", "library"), stacktrace.WithInfo("actual", fmt.Sprintf("%T", frag)),
+				stacktrace.WithType(StacktraceTypeReading))
+		}
+		return lib, nil
 	}
 
 	f, err := openFragmentFile(path)
@@ -268,9 +280,15 @@ func (r *RAML) parseNamedExample(path string) (ne *NamedExample, err error) {
 	// Library paths must be normalized to simplify dependent libraries resolution.
 	// Convert rel to abs relative to current workdir if necessary.
 
-	if lib := r.GetFragment(path); lib != nil {
+	if frag := r.GetFragment(path); frag != nil {
 		// slog.Debug("reusing fragment", slog.String("path", path))
-		return lib.(*NamedExample), nil
+		ne, ok := frag.(*NamedExample)
+		if !ok {
+			return nil, StacktraceNew("unexpected fragment kind", path,
+				stacktrace.WithInfo("expected", "named example"), stacktrace.WithInfo("actual", fmt.Sprintf("%T", frag)),
+				stacktrace.WithType(StacktraceTypeReading))
+		}
+		return ne, nil
 	}
 
 	f, err := openFragmentFile(path)
-- 
2.43.0


From 32a99dc8c614f48f281448b245692be952591540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:29 +0000
Subject: [PATCH 04/31] fix: report a fragment that holds no document instead
 of dereferencing nil

---
 parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parse.go b/parse.go
index b332257..343b6f2 100644
--- a/parse.go
+++ b/parse.go
@@ -83,6 +83,9 @@ func (r *RAML) decodeDataType(f io.Reader, path string) (*DataType, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	if dt == nil {
+		return nil, StacktraceNew("fragment must be map", path, stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	baseDir := filepath.Dir(dt.Location)
 	for pair := dt.Uses.Oldest(); pair != nil; pair = pair.Next() {
@@ -196,6 +199,9 @@ func (r *RAML) decodeLibrary(f io.Reader, path string) (*Library, error) {
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	if lib == nil {
+		return nil, StacktraceNew("fragment must be map", path, stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	var st *stacktrace.StackTrace
 
@@ -270,6 +276,9 @@ func (r *RAML) decodeNamedExample(f io.Reader, path string) (*NamedExample, erro
 		return nil, StacktraceNewWrapped("decode fragment", err, path,
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
+	if ne == nil {
+		return nil, StacktraceNew("fragment must be map", path, stacktrace.WithType(StacktraceTypeParsing))
+	}
 
 	r.PutFragment(path, ne)
 
-- 
2.43.0


From 4f600accb59d443870270f0787ca182506a3b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:32 +0000
Subject: [PATCH 05/31] fix: do not keep partially loaded fragments in the
 store after a failed load

---
 parse.go | 45 +++++++++++++++++++++++++++++----------------
 raml.go  | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/parse.go b/parse.go
index 343b6f2..0649ad9 100644
--- a/parse.go
+++ b/parse.go
@@ -353,6 +353,35 @@ func (r *RAML) ParseFromString(content string, fileName string, baseDir string,
 }
 
 func (r *RAML) parseFragment(f io.ReadSeeker, fragmentPath string, pOpts *parserOptions) error {
+	restore := r.saveFragments()
+	err := r.loadFragment(f, fragmentPath)
+	if err != nil {
+		// Fragments that are loaded partially must not be reused by the following calls.
+		restore()
+		return err
+	}
+
+	if pOpts.withUnwrapOpt {
+		err = r.UnwrapShapes()
+		if err != nil {
+			return StacktraceNewWrapped("unwrap shapes", err, fragmentPath,
+				stacktrace.WithType(StacktraceTypeParsing))
+		}
+	}
+
+	if pOpts.withValidateOpt {
+		err = r.ValidateShapes()
+		if err != nil {
+			return StacktraceNewWrapped("validate shapes", err, fragmentPath,
+				stacktrace.WithType(StacktraceTypeParsing))
+		}
+	}
+
+	return nil
+}
+
+// loadFragment decodes a fragment with everything it refers to and resolves their shapes.
+func (r *RAML) loadFragment(f io.ReadSeeker, fragmentPath string) error {
 	head, err := ReadHead(f)
 	if err != nil {
 		return StacktraceNewWrapped("read head", err, fragmentPath,
@@ -404,22 +433,6 @@ func (r *RAML) parseFragment(f io.ReadSeeker, fragmentPath string, pOpts *parser
 			stacktrace.WithType(StacktraceTypeParsing))
 	}
 
-	if pOpts.withUnwrapOpt {
-		err = r.UnwrapShapes()
-		if err != nil {
-			return StacktraceNewWrapped("unwrap shapes", err, fragmentPath,
-				stacktrace.WithType(StacktraceTypeParsing))
-		}
-	}
-
-	if pOpts.withValidateOpt {
-		err = r.ValidateShapes()
-		if err != nil {
-			return StacktraceNewWrapped("validate shapes", err, fragmentPath,
-				stacktrace.WithType(StacktraceTypeParsing))
-		}
-	}
-
 	return nil
 }
 
diff --git a/raml.go b/raml.go
index 683fc5e..896236d 100644
--- a/raml.go
+++ b/raml.go
@@ -208,6 +208,40 @@ func (r *RAML) PutFragment(location string, fragment Fragment) {
 	}
 }
 
+// saveFragments remembers loaded fragments, shapes and annotations and returns a function that restores them.
+func (r *RAML) saveFragments() func() {
+	fragmentsCache := copyMap(r.fragmentsCache)
+	fragmentTypes := copyMap(r.fragmentTypes)
+	for location, types := range fragmentTypes {
+		fragmentTypes[location] = copyMap(types)
+	}
+	fragmentAnnotationTypes := copyMap(r.fragmentAnnotationTypes)
+	for location, types := range fragmentAnnotationTypes {
+		fragmentAnnotationTypes[location] = copyMap(types)
+	}
+	shapes, domainExtensions := r.shapes, r.domainExtensions
+
+	return func() {
+		r.fragmentsCache = fragmentsCache
+		r.fragmentTypes = fragmentTypes
+		r.fragmentAnnotationTypes = fragmentAnnotationTypes
+		r.shapes = shapes
+		r.domainExtensions = domainExtensions
+		r.unresolvedShapes.Init()
+	}
+}
+
+func copyMap[K comparable, V any](m map[K]V) map[K]V {
+	if m == nil {
+		return nil
+	}
+	c := make(map[K]V, len(m))
+	for k, v := range m {
+		c[k] = v
+	}
+	return c
+}
+
 func (r *RAML) GetReferencedType(refName string, location string) (*BaseShape, error) {
 	frag := r.GetFragment(location)
 	if frag == nil {
-- 
2.43.0


From 1e04fd8cd6e3d518ac6daacb5ab404801e3250a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 06/31] fix: unwrap and validate fragments in a fixed order

---
 common.go   | 11 +++++++++++
 unwrap.go   |  8 ++++----
 validate.go |  4 ++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/common.go b/common.go
index 7f8c458..d4a4209 100644
--- a/common.go
+++ b/common.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/acronis/go-stacktrace"
@@ -20,3 +21,13 @@ type Value[T any] struct {
 }
 
 var ErrNil error
+
+// sortedKeys returns keys of the map in a sorted order.
+func sortedKeys[V any](m map[string]V) []string {
+	keys := make([]string, 0, len(m))
+	for k := range m {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
diff --git a/unwrap.go b/unwrap.go
index 13c6410..dd5058c 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -76,8 +76,8 @@ func (r *RAML) unwrapDataType(f *DataType) *stacktrace.StackTrace {
 
 func (r *RAML) unwrapFragments() *stacktrace.StackTrace {
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
-		switch f := frag.(type) {
+	for _, location := range sortedKeys(r.fragmentsCache) {
+		switch f := r.fragmentsCache[location].(type) {
 		case *Library:
 			se := r.unwrapLibrary(f)
 			if se != nil {
@@ -146,8 +146,8 @@ func (r *RAML) UnwrapShapes() error {
 // markShapeRecursions marks recursive shapes by replacing the beginning of recursion with RecursiveShape in the RAML.
 func (r *RAML) markShapeRecursions() error {
 	// TODO: Maybe count shapes here?
-	for _, frag := range r.fragmentsCache {
-		switch f := frag.(type) {
+	for _, location := range sortedKeys(r.fragmentsCache) {
+		switch f := r.fragmentsCache[location].(type) {
 		case *Library:
 			for pair := f.AnnotationTypes.Oldest(); pair != nil; pair = pair.Next() {
 				if _, err := r.FindAndMarkRecursion(pair.Value); err != nil {
diff --git a/validate.go b/validate.go
index 9275a5e..22c8e35 100644
--- a/validate.go
+++ b/validate.go
@@ -136,8 +136,8 @@ func (r *RAML) validateFragments(unwrapCache map[int64]*BaseShape) *stacktrace.S
 		return StacktraceNewWrapped("handle step", err, r.GetLocation())
 	}
 	var st *stacktrace.StackTrace
-	for _, frag := range r.fragmentsCache {
-		switch f := frag.(type) {
+	for _, location := range sortedKeys(r.fragmentsCache) {
+		switch f := r.fragmentsCache[location].(type) {
 		case *Library:
 			if err := r.validateLibrary(f, unwrapCache); err != nil {
 				if st == nil {
-- 
2.43.0


From e784d51a910ad9de71e544ec713f0bb46954a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:03 +0000
Subject: [PATCH 07/31] fix: report the same violation first regardless of the
 order of map iteration

---
 complex.go  | 3 ++-
 validate.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/complex.go b/complex.go
index d1537b8..89528e4 100644
--- a/complex.go
+++ b/complex.go
@@ -450,7 +450,8 @@ func (s *ObjectShape) validateProperties(ctxPath string, props map[string]interf
 	}
 
 	restrictedAdditionalProperties := s.AdditionalProperties != nil && !*s.AdditionalProperties
-	for k, item := range props {
+	for _, k := range sortedKeys(props) {
+		item := props[k]
 		// Explicitly defined properties have priority over pattern properties.
 		ctxPathK := ctxPath + "." + k
 
diff --git a/validate.go b/validate.go
index 22c8e35..ee91554 100644
--- a/validate.go
+++ b/validate.go
@@ -356,7 +356,8 @@ func (r *RAML) validateShapeFacets(base *BaseShape) error {
 
 	// Validate all unknown facets against facet definitions
 	shapeFacets := base.CustomShapeFacets
-	for k, facetDef := range validationFacetDefs {
+	for _, k := range sortedKeys(validationFacetDefs) {
+		facetDef := validationFacetDefs[k]
 		f, ok := shapeFacets.Get(k)
 		if !ok {
 			if facetDef.Required {
-- 
2.43.0


From b190a438a3c6d4deb5ae1bb3e6083cff8636324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 08/31] fix: name the facet instead of memory addresses in
 integer facet errors

---
 scalars.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 2d39039..943a47e 100644
--- a/scalars.go
+++ b/scalars.go
@@ -281,7 +281,7 @@ func (s *IntegerShape) unmarshalYAMLNodes(v []*yaml.Node) error {
 		node := v[i]
 		valueNode := v[i+1]
 		if err := s.unmarshalYAMLNode(node, valueNode); err != nil {
-			return fmt.Errorf("unmarshal %v: %v: %w", node, valueNode, err)
+			return fmt.Errorf("unmarshal %s: %w", node.Value, err)
 		}
 	}
 	return nil
-- 
2.43.0


From 656d1181ee8e7cec1053f98353c32e5647876638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 09/31] fix: do not leave a source shape marked as visited
 after inheritance

---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 09e7252..cb483aa 100644
--- a/shape.go
+++ b/shape.go
@@ -134,6 +134,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return sourceBase, nil
 	}
 	sourceBase.ShapeVisited = true
+	defer func() { sourceBase.ShapeVisited = false }()
 
 	source := sourceBase.Shape
 	target := s.Shape
@@ -175,7 +176,6 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return nil, StacktraceNewWrapped("merge shapes", err, target.Base().Location,
 			stacktrace.WithPosition(&target.Base().Position))
 	}
-	sourceBase.ShapeVisited = false
 	return s, nil
 }
 
-- 
2.43.0


From ff71e27fb1f5a7c5d1eae822e6bc1cbddc224a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 10/31] fix: do not change hook lists that are shared through
 the context

---
 raml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raml.go b/raml.go
index 896236d..17d9ffd 100644
--- a/raml.go
+++ b/raml.go
@@ -57,7 +57,8 @@ func (r *RAML) setHooks(key HookKey, hooks []HookFunc) {
 
 func (r *RAML) AppendHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
-	hooks = append(hooks, hook)
+	// Hooks may be shared with other users of the context, so the list must be copied before it is changed.
+	hooks = append(hooks[:len(hooks):len(hooks)], hook)
 	r.setHooks(key, hooks)
 }
 
@@ -71,7 +72,7 @@ func (r *RAML) RemoveHook(key HookKey, hook HookFunc) {
 	hooks := r.getHooks(key)
 	for i, h := range hooks {
 		if reflect.ValueOf(h).Pointer() == reflect.ValueOf(hook).Pointer() {
-			hooks = append(hooks[:i], hooks[i+1:]...)
+			hooks = append(hooks[:i:i], hooks[i+1:]...)
 			break
 		}
 	}
-- 
2.43.0


From 7447ffb630c0b8169db4d5c01a419724334c4dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 11/31] fix: return errors of hooks that are called while union
 members are filtered or expressions are visited

---
 complex.go     |  5 +++++
 raml.go        |  3 +++
 rdt_visitor.go | 20 ++++++++++++++++----
 shape.go       |  5 +++++
 4 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/complex.go b/complex.go
index 89528e4..346338f 100644
--- a/complex.go
+++ b/complex.go
@@ -893,8 +893,13 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 				cs := targetMember.CloneDetached()
 				// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
 				cs.ID = s.raml.generateShapeID()
+				hookFailures := s.raml.hookFailures
 				ms, err := cs.Inherit(sourceMember)
 				if err != nil {
+					if s.raml.hookFailures != hookFailures {
+						// Hook failure does not make the member incompatible.
+						return nil, err
+					}
 					// TODO: Collect errors
 					// StacktraceNewWrapped("merge union member", err, s.Location)
 					continue
diff --git a/raml.go b/raml.go
index 17d9ffd..06b2b69 100644
--- a/raml.go
+++ b/raml.go
@@ -28,6 +28,8 @@ type RAML struct {
 
 	// idCounter is a counter for generating unique IDs per raml
 	idCounter int64
+	// hookFailures is a number of errors returned by hooks.
+	hookFailures int
 	// ctx is a context of the RAML, for future use.
 	ctx context.Context
 }
@@ -94,6 +96,7 @@ func (r *RAML) callHooks(key HookKey, params ...any) error {
 		}
 		err := hook(r.ctx, r, params...)
 		if err != nil {
+			r.hookFailures++
 			return err
 		}
 	}
diff --git a/rdt_visitor.go b/rdt_visitor.go
index 9d235e8..289d6fd 100644
--- a/rdt_visitor.go
+++ b/rdt_visitor.go
@@ -52,7 +52,10 @@ func (visitor *RdtVisitor) VisitUnionMembers(node antlr.RuleNode, target *Unknow
 	// ^     ^ ^     ^ ^
 	// 0     1 2     3 4
 	for i := 0; i < len(children); i += 2 {
-		baseResolved, implicitAnonShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		baseResolved, implicitAnonShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+		if err != nil {
+			return nil, fmt.Errorf("make new shape: %w", err)
+		}
 		s, err := visitor.Visit(children[i].(antlr.ParseTree), implicitAnonShape.(*UnknownShape))
 		if err != nil {
 			return nil, fmt.Errorf("visit children: %w", err)
@@ -94,7 +97,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	unionShape := shape.(*UnionShape)
 
 	// Create new anonymous shape for union member and continue resolving the expression for it.
-	baseResolved, anonResolvedShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	baseResolved, anonResolvedShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make new shape: %w", err)
+	}
 	s, err := visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), anonResolvedShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
@@ -103,7 +109,10 @@ func (visitor *RdtVisitor) VisitOptional(ctx *rdt.OptionalContext, target *Unkno
 	baseResolved.SetShape(s)
 
 	// Nil shape is also anonymous here and doesn't share the base shape with the target.
-	baseNil, _, _ := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	baseNil, _, err := visitor.raml.MakeNewShape("", TypeNil, target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make new shape: %w", err)
+	}
 
 	unionShape.UnionFacets.AnyOf = []*BaseShape{baseResolved, baseNil}
 	return unionShape, nil
@@ -119,7 +128,10 @@ func (visitor *RdtVisitor) VisitArray(ctx *rdt.ArrayContext, target *UnknownShap
 	arrayShape := shape.(*ArrayShape)
 
 	// Create new anonymous shape for items and continue resolving the expression for it.
-	itemsBase, itemsShape, _ := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	itemsBase, itemsShape, err := visitor.raml.MakeNewShape("", "", target.Location, target.Position)
+	if err != nil {
+		return nil, fmt.Errorf("make new shape: %w", err)
+	}
 	itemsShape, err = visitor.Visit(ctx.GetChildren()[0].(antlr.ParseTree), itemsShape.(*UnknownShape))
 	if err != nil {
 		return nil, fmt.Errorf("visit: %w", err)
diff --git a/shape.go b/shape.go
index cb483aa..c51597c 100644
--- a/shape.go
+++ b/shape.go
@@ -198,8 +198,13 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 			tc.ID = s.raml.generateShapeID()
 			// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
 			// tc.ID = generateShapeID()
+			hookFailures := s.raml.hookFailures
 			is, err := tc.Inherit(source)
 			if err != nil {
+				if s.raml.hookFailures != hookFailures {
+					// Hook failure does not make the member incompatible.
+					return nil, err
+				}
 				se := StacktraceNewWrapped("merge shapes", err, s.Location,
 					stacktrace.WithPosition(&s.Position))
 				if st == nil {
-- 
2.43.0


From 88d59e46543cd3bdefd93f59a48719a13c139cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 12/31] fix: report types that depend on themselves instead of
 overflowing the stack

---
 resolve.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/resolve.go b/resolve.go
index 7a5869a..3815f4e 100644
--- a/resolve.go
+++ b/resolve.go
@@ -152,6 +152,14 @@ func (r *RAML) resolveShape(base *BaseShape) error {
 		return nil
 	}
 
+	// Shape is unknown until it is resolved, so coming back to it means that its type depends on itself.
+	if base.ShapeVisited {
+		return StacktraceNew("circular type reference", base.Location,
+			stacktrace.WithPosition(&base.Position), stacktrace.WithInfo("type", base.Name))
+	}
+	base.ShapeVisited = true
+	defer func() { base.ShapeVisited = false }()
+
 	if base.Link != nil {
 		err := r.resolveLink(base, unknownShape)
 		if err != nil {
-- 
2.43.0


From 3e569c9f6f0bf6ed3692070246473911a4bcaeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:33 +0000
Subject: [PATCH 13/31] fix: report unions that are members of themselves
 instead of overflowing the stack during validation

---
 unwrap.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/unwrap.go b/unwrap.go
index dd5058c..76e750d 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -277,12 +277,38 @@ func (r *RAML) findAndMarkRecursionInUnionShape(t *UnionShape) error {
 			return fmt.Errorf("find and mark recursion: %w", err)
 		}
 		if rs != nil {
+			if isUnionMember(t, item, make(map[*UnionShape]struct{})) {
+				return StacktraceNew("union is a member of itself", item.Location,
+					stacktrace.WithPosition(&item.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
+			}
 			t.AnyOf[i] = rs
 		}
 	}
 	return nil
 }
 
+// isUnionMember returns true if the union is the given shape or can be reached from it through members of unions only.
+// Such union has no value to descend into, so it cannot be recursive.
+func isUnionMember(t *UnionShape, base *BaseShape, visited map[*UnionShape]struct{}) bool {
+	u, ok := base.Shape.(*UnionShape)
+	if !ok {
+		return false
+	}
+	if u == t {
+		return true
+	}
+	if _, ok = visited[u]; ok {
+		return false
+	}
+	visited[u] = struct{}{}
+	for _, item := range u.AnyOf {
+		if isUnionMember(t, item, visited) {
+			return true
+		}
+	}
+	return false
+}
+
 func (r *RAML) unwrapObjShape(objShape *ObjectShape) error {
 	if objShape.Properties != nil {
 		for pair := objShape.Properties.Oldest(); pair != nil; pair = pair.Next() {
-- 
2.43.0


From 21eed83cedc55e0452e59c9363d8d347de7916ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 14/31] fix: clone the head of a recursive shape so that a
 detached clone is independent

---
 complex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 346338f..310806d 100644
--- a/complex.go
+++ b/complex.go
@@ -1060,9 +1060,12 @@ func (s *RecursiveShape) cloneShallow(base *BaseShape) Shape {
 	return &c
 }
 
-func (s *RecursiveShape) clone(base *BaseShape, _ map[int64]*BaseShape) Shape {
+func (s *RecursiveShape) clone(base *BaseShape, clonedMap map[int64]*BaseShape) Shape {
 	c := *s
 	c.BaseShape = base
+	if s.Head != nil {
+		c.Head = s.Head.clone(clonedMap)
+	}
 	return &c
 }
 
-- 
2.43.0


From c85dbffd1d60760559ec58adf7ac7d74324ae8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 15/31] fix: do not add temporary shapes to the RAML while it
 is validated

---
 validate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/validate.go b/validate.go
index ee91554..6943e69 100644
--- a/validate.go
+++ b/validate.go
@@ -205,6 +205,10 @@ func (r *RAML) ValidateShapes() error {
 	if err := r.callHooks(HookBeforeValidateShapes); err != nil {
 		return err
 	}
+	// Shapes that are created to validate types that are not unwrapped are not a part of the RAML.
+	shapes := r.shapes[:len(r.shapes):len(r.shapes)]
+	defer func() { r.shapes = shapes }()
+
 	// Unwrap cache stores the mapping of original IDs to unwrapped shapes
 	// to ensure the original references (aliases and links) match.
 	unwrapCache := make(map[int64]*BaseShape)
-- 
2.43.0


From 5d0dc14372f2c98db108c1727190dac6e1c8b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 16/31] fix: fail the validate command when any of the files is
 invalid

---
 cmd/raml/validate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmd/raml/validate.go b/cmd/raml/validate.go
index b20bdb9..898977a 100644
--- a/cmd/raml/validate.go
+++ b/cmd/raml/validate.go
@@ -27,21 +27,22 @@ func NewValidateCmd(opts ValidateOptions, args []string) *ValidateCommand {
 }
 
 func (v ValidateCommand) Execute(ctx context.Context) error {
-	var err error
+	var failed bool
 	var stOpts []stacktrace.TracesOpt
 	if v.Opts.EnsureDuplicates {
 		stOpts = append(stOpts, stacktrace.WithEnsureDuplicates())
 	}
 	for _, arg := range v.Args {
 		slog.Info("Validating RAML...", slog.String("path", arg))
-		_, err = raml.ParseFromPathCtx(ctx, arg, raml.OptWithUnwrap(), raml.OptWithValidate())
+		_, err := raml.ParseFromPathCtx(ctx, arg, raml.OptWithUnwrap(), raml.OptWithValidate())
 		if err != nil {
+			failed = true
 			slog.Error("RAML is invalid", slogex.ErrToSlogAttr(err, stOpts...))
 		} else {
 			slog.Info("RAML is valid", slog.String("path", arg))
 		}
 	}
-	if err != nil {
+	if failed {
 		return fmt.Errorf("errors have been found in the RAML files")
 	}
 	return nil
-- 
2.43.0


From 4989e1a76a19f21e87e1ccffba176ea54d3e1ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 17/31] fix: do not load the entry fragment twice when its path
 is not clean

---
 parse.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse.go b/parse.go
index 0649ad9..436a049 100644
--- a/parse.go
+++ b/parse.go
@@ -174,6 +174,8 @@ func openFragmentFile(path string) (*os.File, error) {
 		}
 		path = filepath.Join(workdir, path)
 	}
+	// References to the fragment from other fragments are clean, so must be the path of the fragment itself.
+	path = filepath.Clean(path)
 	f, err := os.OpenFile(path, os.O_RDONLY, os.ModePerm)
 	if err != nil {
 		return nil, fmt.Errorf("open file: %w", err)
-- 
2.43.0


From 6fd99915442bbef19a9441a66b410f9c17a3b651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:48 +0000
Subject: [PATCH 18/31] fix: keep the entry point when a later load fails

---
 raml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raml.go b/raml.go
index 06b2b69..2341e62 100644
--- a/raml.go
+++ b/raml.go
@@ -212,7 +212,7 @@ func (r *RAML) PutFragment(location string, fragment Fragment) {
 	}
 }
 
-// saveFragments remembers loaded fragments, shapes and annotations and returns a function that restores them.
+// saveFragments remembers loaded fragments, shapes, annotations and the entry point and returns a function that restores them.
 func (r *RAML) saveFragments() func() {
 	fragmentsCache := copyMap(r.fragmentsCache)
 	fragmentTypes := copyMap(r.fragmentTypes)
@@ -223,7 +223,7 @@ func (r *RAML) saveFragments() func() {
 	for location, types := range fragmentAnnotationTypes {
 		fragmentAnnotationTypes[location] = copyMap(types)
 	}
-	shapes, domainExtensions := r.shapes, r.domainExtensions
+	shapes, domainExtensions, entryPoint := r.shapes, r.domainExtensions, r.entryPoint
 
 	return func() {
 		r.fragmentsCache = fragmentsCache
@@ -231,6 +231,7 @@ func (r *RAML) saveFragments() func() {
 		r.fragmentAnnotationTypes = fragmentAnnotationTypes
 		r.shapes = shapes
 		r.domainExtensions = domainExtensions
+		r.entryPoint = entryPoint
 		r.unresolvedShapes.Init()
 	}
 }
-- 
2.43.0


From 5a610be94a3979e10077db7680b6ecfcb4a116b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:02 +0000
Subject: [PATCH 19/31] fix: report an empty list of types instead of panicking

---
 resolve.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resolve.go b/resolve.go
index 3815f4e..0d8c6bf 100644
--- a/resolve.go
+++ b/resolve.go
@@ -86,6 +86,9 @@ func (r *RAML) resolveDomainExtension(de *DomainExtension) error {
 
 func (r *RAML) resolveMultipleInheritance(base *BaseShape, shape *UnknownShape) error {
 	inherits := base.Inherits
+	if len(inherits) == 0 {
+		return fmt.Errorf("list of types is empty")
+	}
 	for _, inherit := range inherits {
 		if err := r.resolveShape(inherit); err != nil {
 			return fmt.Errorf("resolve inherit: %w", err)
-- 
2.43.0


From 6317fd2d9036ac334b2564876ec13b5a9ae85f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:15 +0000
Subject: [PATCH 20/31] fix: do not multiply union members when a type inherits
 from itself

---
 shape.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/shape.go b/shape.go
index c51597c..707584e 100644
--- a/shape.go
+++ b/shape.go
@@ -128,6 +128,11 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return nil, err
 	}
 
+	// Shape has everything it could inherit from itself.
+	if s == sourceBase {
+		return s, nil
+	}
+
 	// Avoid recursion caused by inheritance chain
 	if sourceBase.ShapeVisited {
 		// NOTE: We do not mark any recursions here. External code must handle this case.
-- 
2.43.0


From 067da59b025651e67778cbd9d106f1a02bc63e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 21/31] fix: report facets and uses that are no maps instead of
 panicking

---
 fragment.go | 4 ++++
 shape.go    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/fragment.go b/fragment.go
index 05e1a1d..05750a4 100644
--- a/fragment.go
+++ b/fragment.go
@@ -345,6 +345,10 @@ func (dt *DataType) UnmarshalYAML(value *yaml.Node) error {
 				break
 			}
 
+			if valueNode.Kind != yaml.MappingNode {
+				return StacktraceNew("uses must be map", dt.Location, WithNodePosition(valueNode))
+			}
+
 			dt.Uses = orderedmap.New[string, *LibraryLink](len(valueNode.Content) / 2)
 			// Map nodes come in pairs in order [key, value]
 			for j := 0; j != len(valueNode.Content); j += 2 {
diff --git a/shape.go b/shape.go
index 707584e..59d59c9 100644
--- a/shape.go
+++ b/shape.go
@@ -813,6 +813,9 @@ func (s *BaseShape) decodeExamples(valueNode *yaml.Node) error {
 
 // decodeFacets decodes the facet: "facets" from the YAML node.
 func (s *BaseShape) decodeFacets(valueNode *yaml.Node) error {
+	if valueNode.Tag != TagNull && valueNode.Kind != yaml.MappingNode {
+		return StacktraceNew("facets must be map", s.Location, WithNodePosition(valueNode))
+	}
 	s.CustomShapeFacetDefinitions = orderedmap.New[string, Property](len(valueNode.Content) / 2)
 	for j := 0; j != len(valueNode.Content); j += 2 {
 		nodeName := valueNode.Content[j].Value
-- 
2.43.0


From d2aafc1acb79404b43761d6d5d824cff141ed87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 22/31] fix: do not panic when a file shape without usable file
 types is converted

---
 jsonschemaconv.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 97f747a..76723dc 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -253,12 +253,11 @@ func (c *JSONSchemaConverter[T]) VisitFileShape(s *FileShape) T {
 	schema.ContentEncoding = "base64"
 
 	// TODO: JSON Schema allows for only one content media type
-	if s.FileTypes != nil {
-		maybeStr, ok := s.FileTypes[0].Value.(string)
-		if !ok {
-			panic("file type must be a string")
+	if len(s.FileTypes) > 0 {
+		// A file type that is not a string is reported by the check of the shape.
+		if mediaType, ok := s.FileTypes[0].Value.(string); ok {
+			schema.ContentMediaType = mediaType
 		}
-		schema.ContentMediaType = maybeStr
 	}
 	return node
 }
-- 
2.43.0


From a9393cc97176800246916e902eb26474fbced932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:20 +0000
Subject: [PATCH 23/31] fix: compare enum values of any kind without panicking

---
 scalars.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scalars.go b/scalars.go
index 943a47e..00d92c6 100644
--- a/scalars.go
+++ b/scalars.go
@@ -3,6 +3,7 @@ package raml
 import (
 	"fmt"
 	"math/big"
+	"reflect"
 	"regexp"
 	"time"
 
@@ -41,7 +42,7 @@ func isCompatibleEnum(source Nodes, target Nodes) bool {
 	for _, v := range target {
 		found := false
 		for _, e := range source {
-			if v.Value == e.Value {
+			if reflect.DeepEqual(v.Value, e.Value) {
 				found = true
 				break
 			}
-- 
2.43.0


From edcd9dd0964583e5ec8f93d9bd526568ef802655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 24/31] fix: let a converter without wrapper convert instead of
 panicking

---
 jsonschemaconv.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/jsonschemaconv.go b/jsonschemaconv.go
index 76723dc..96026e4 100644
--- a/jsonschemaconv.go
+++ b/jsonschemaconv.go
@@ -81,7 +81,7 @@ func (c *JSONSchemaConverter[T]) Convert(s Shape) (T, error) {
 		return c.opts.wrap(c, core, nil), nil
 	}
 
-	return any(core).(T), nil
+	return c.makePlain(core), nil
 }
 
 func (c *JSONSchemaConverter[T]) Visit(s Shape) T {
@@ -475,7 +475,7 @@ func (c *JSONSchemaConverter[T]) recast(src *JSONSchema) T {
 	if c.opts.wrap != nil {
 		return c.opts.wrap(c, core, nil)
 	}
-	return any(core).(T)
+	return c.makePlain(core)
 }
 
 func (c *JSONSchemaConverter[T]) makeEmptySchema() T {
@@ -483,7 +483,7 @@ func (c *JSONSchemaConverter[T]) makeEmptySchema() T {
 	if c.opts.wrap != nil {
 		return c.opts.wrap(c, core, nil)
 	}
-	return any(core).(T)
+	return c.makePlain(core)
 }
 
 func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
@@ -509,5 +509,15 @@ func (c *JSONSchemaConverter[T]) makeSchemaFromBaseShape(base *BaseShape) T {
 	if c.opts.wrap != nil {
 		return c.opts.wrap(c, core, base)
 	}
-	return any(core).(T)
+	return c.makePlain(core)
+}
+
+// makePlain makes a schema without dialect. The constructor ensures that T is *JSONSchema if there is no wrapper.
+func (c *JSONSchemaConverter[T]) makePlain(core *JSONSchemaGeneric[T]) T {
+	plain, ok := any(core).(*JSONSchemaGeneric[*JSONSchema])
+	if !ok {
+		var zero T
+		return zero
+	}
+	return any(&JSONSchema{JSONSchemaGeneric: *plain}).(T)
 }
-- 
2.43.0


From 0948b915b891484327e69c49bbd40a6a890f6c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:38 +0000
Subject: [PATCH 25/31] fix: give all shapes of a copied union member new IDs

---
 complex.go |  4 +---
 shape.go   | 23 +++++++++++++++++++----
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/complex.go b/complex.go
index 310806d..025ea1c 100644
--- a/complex.go
+++ b/complex.go
@@ -890,9 +890,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 		for _, targetMember := range s.AnyOf {
 			if sourceMember.Type == targetMember.Type {
 				// Clone is required to avoid modifying the original target member shape.
-				cs := targetMember.CloneDetached()
-				// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-				cs.ID = s.raml.generateShapeID()
+				cs := s.raml.cloneAsNew(targetMember)
 				hookFailures := s.raml.hookFailures
 				ms, err := cs.Inherit(sourceMember)
 				if err != nil {
diff --git a/shape.go b/shape.go
index 59d59c9..93c529a 100644
--- a/shape.go
+++ b/shape.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"path/filepath"
+	"sort"
 	"sync/atomic"
 
 	orderedmap "github.com/wk8/go-ordered-map/v2"
@@ -199,10 +200,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		}
 		if source.Type == s.Type {
 			// Deep copy with ID change is required since we create new union members from source members
-			tc := s.CloneDetached()
-			tc.ID = s.raml.generateShapeID()
-			// TODO: Probably all copied shapes must change IDs since these are actually new shapes.
-			// tc.ID = generateShapeID()
+			tc := s.raml.cloneAsNew(s)
 			hookFailures := s.raml.hookFailures
 			is, err := tc.Inherit(source)
 			if err != nil {
@@ -339,6 +337,23 @@ func (s *BaseShape) CloneDetached() *BaseShape {
 	return s.clone(make(map[int64]*BaseShape))
 }
 
+// cloneAsNew creates a detached deep copy of the shape that consists of new shapes.
+//
+// The original remains in the model, so its copies must not be taken for it when shapes are identified by ID.
+func (r *RAML) cloneAsNew(s *BaseShape) *BaseShape {
+	clonedMap := make(map[int64]*BaseShape)
+	c := s.clone(clonedMap)
+	ids := make([]int64, 0, len(clonedMap))
+	for id := range clonedMap {
+		ids = append(ids, id)
+	}
+	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
+	for _, id := range ids {
+		clonedMap[id].ID = r.generateShapeID()
+	}
+	return c
+}
+
 func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	if shape, ok := clonedMap[s.ID]; ok {
 		return shape
-- 
2.43.0


From 23a3d5eb8ca6b31462523b5158b3719c340203f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:34 +0000
Subject: [PATCH 26/31] fix: inherit union members from the source of the
 inheritance

A union that inherited from a type that is no union inherited its members
from the union itself, which multiplied the members with every step.
---
 shape.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index 93c529a..f632320 100644
--- a/shape.go
+++ b/shape.go
@@ -174,7 +174,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return s.inheritUnionSource(sourceUnion)
 
 	case isTargetUnion && !isSourceUnion:
-		return s.inheritUnionTarget(targetUnion)
+		return sourceBase.inheritUnionTarget(targetUnion)
 	}
 	// Homogenous types produce same type
 	_, err := target.inherit(source)
-- 
2.43.0


From 7561f6752f05236ed57e8e31e03c1572fb129922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:59 +0000
Subject: [PATCH 27/31] fix: do not change the types that overriding
 declarations refer to

A declaration that overrides an inherited one (property, pattern property,
items or union member) and refers to another type, and the first of several
parents, inherited in place. This silently changed the type referred to for
all other users of it, depending on the order of unwrapping.
---
 complex.go |  6 ++++++
 shape.go   | 38 +++++++++++++++++++++++++++++++++++++-
 unwrap.go  |  2 ++
 3 files changed, 45 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index 025ea1c..c39de63 100644
--- a/complex.go
+++ b/complex.go
@@ -130,6 +130,7 @@ func (s *ArrayShape) inherit(source Shape) (Shape, error) {
 	if s.Items == nil {
 		s.Items = ss.Items
 	} else if ss.Items != nil {
+		s.Items = s.Items.cloneToInherit(ss.Items)
 		_, err := s.Items.Inherit(ss.Items)
 		if err != nil {
 			return nil, StacktraceNewWrapped("merge array items", err, s.Location,
@@ -553,6 +554,8 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 					stacktrace.WithInfo("target", targetProp.Required),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
+			// Clone is required to avoid modifying the type that the property refers to.
+			targetProp.Base = targetProp.Base.cloneToInherit(sourceProp.Base)
 			_, err := targetProp.Base.Inherit(sourceProp.Base)
 			if err != nil {
 				return StacktraceNewWrapped("inherit property", err, s.Location,
@@ -560,6 +563,7 @@ func (s *ObjectShape) inheritProperties(source *ObjectShape) error {
 					stacktrace.WithInfo("property", k),
 					stacktrace.WithType(StacktraceTypeUnwrapping))
 			}
+			s.Properties.Set(k, targetProp)
 		} else {
 			s.Properties.Set(k, sourceProp)
 		}
@@ -576,6 +580,7 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 		for pair := source.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
 			k, sourceProp := pair.Key, pair.Value
 			if targetProp, present := s.PatternProperties.Get(k); present {
+				targetProp.Base = targetProp.Base.cloneToInherit(sourceProp.Base)
 				_, err := targetProp.Base.Inherit(sourceProp.Base)
 				if err != nil {
 					return StacktraceNewWrapped("inherit pattern property", err, s.Location,
@@ -583,6 +588,7 @@ func (s *ObjectShape) inheritPatternProperties(source *ObjectShape) error {
 						stacktrace.WithInfo("property", k),
 						stacktrace.WithType(StacktraceTypeUnwrapping))
 				}
+				s.PatternProperties.Set(k, targetProp)
 			} else {
 				s.PatternProperties.Set(k, sourceProp)
 			}
diff --git a/shape.go b/shape.go
index f632320..c25b238 100644
--- a/shape.go
+++ b/shape.go
@@ -251,8 +251,9 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 		return nil, err
 	}
 	var st *stacktrace.StackTrace
-	for _, item := range targetUnion.AnyOf {
+	for i, item := range targetUnion.AnyOf {
 		// Merge will raise an error in case any of union members has incompatible type
+		item = item.cloneToInherit(s)
 		_, err := item.Inherit(s)
 		if err != nil {
 			se := StacktraceNewWrapped("merge shapes", err, targetUnion.Base().Location,
@@ -264,6 +265,7 @@ func (s *BaseShape) inheritUnionTarget(targetUnion *UnionShape) (*BaseShape, err
 			}
 			continue
 		}
+		targetUnion.AnyOf[i] = item
 	}
 	if st != nil {
 		return nil, st
@@ -350,6 +352,7 @@ func (r *RAML) cloneAsNew(s *BaseShape) *BaseShape {
 	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
 	for _, id := range ids {
 		clonedMap[id].ID = r.generateShapeID()
+		clonedMap[id].ShapeVisited = false
 	}
 	return c
 }
@@ -400,6 +403,39 @@ func (s *BaseShape) clone(clonedMap map[int64]*BaseShape) *BaseShape {
 	return &c
 }
 
+// cloneToInherit creates a shallow copy of the shape that can inherit from the source without changing the shapes
+// that share their content with the original, such as the shape that it is an alias of.
+func (s *BaseShape) cloneToInherit(source *BaseShape) *BaseShape {
+	if s == source {
+		return s
+	}
+	c := s.CloneShallow()
+	c.ShapeVisited = false
+	if s.raml != nil {
+		c.ID = s.raml.generateShapeID()
+	}
+	switch t := c.Shape.(type) {
+	case *ObjectShape:
+		if t.Properties != nil {
+			props := orderedmap.New[string, Property](t.Properties.Len())
+			for pair := t.Properties.Oldest(); pair != nil; pair = pair.Next() {
+				props.Set(pair.Key, pair.Value)
+			}
+			t.Properties = props
+		}
+		if t.PatternProperties != nil {
+			props := orderedmap.New[string, PatternProperty](t.PatternProperties.Len())
+			for pair := t.PatternProperties.Oldest(); pair != nil; pair = pair.Next() {
+				props.Set(pair.Key, pair.Value)
+			}
+			t.PatternProperties = props
+		}
+	case *UnionShape:
+		t.AnyOf = append([]*BaseShape(nil), t.AnyOf...)
+	}
+	return c
+}
+
 // Check returns an error if type shape is invalid.
 func (s *BaseShape) Check() error {
 	return s.Shape.check()
diff --git a/unwrap.go b/unwrap.go
index 76e750d..bd868fc 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -387,6 +387,8 @@ func (r *RAML) unwrapParents(base *BaseShape) (*BaseShape, error) {
 			if errUnwrap != nil {
 				return nil, errUnwrap
 			}
+			// Clone is required to avoid modifying the first parent.
+			ss = ss.cloneToInherit(us)
 			us, errUnwrap = ss.Inherit(us)
 			if errUnwrap != nil {
 				return nil, StacktraceNewWrapped("multiple parents unwrap", errUnwrap, base.Location,
-- 
2.43.0


From 5454d480a2596a2c52bb97c5bcc75397eda92c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:03 +0000
Subject: [PATCH 28/31] fix: unwrap aliases from the end of the chain

An alias of an alias that takes part in recursion was completed from a shape
that was not complete yet and lost its properties.
---
 unwrap.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/unwrap.go b/unwrap.go
index bd868fc..efaa972 100644
--- a/unwrap.go
+++ b/unwrap.go
@@ -419,6 +419,21 @@ func (r *RAML) UnwrapTarget(target Shape) error {
 	return nil
 }
 
+// aliasSource returns the shape at the end of the chain of aliases that starts with the given alias.
+// Aliases on the way may be not complete yet if the chain is a part of recursion.
+func aliasSource(base *BaseShape) *BaseShape {
+	visited := map[*BaseShape]struct{}{base: {}}
+	source := base.Alias
+	for source.Alias != nil {
+		if _, ok := visited[source]; ok {
+			break
+		}
+		visited[source] = struct{}{}
+		source = source.Alias
+	}
+	return source
+}
+
 const HookBeforeUnwrapShape HookKey = "RAML.UnwrapShape"
 
 // UnwrapShape recursively copies and unwraps a shape in-place. Use Clone() to create a copy of a shape if necessary.
@@ -440,7 +455,7 @@ func (r *RAML) UnwrapShape(base *BaseShape) (*BaseShape, error) {
 
 	// NOTE: Type aliasing is not inheritance and is not used as a source. It must be unwrapped and returned as is.
 	if base.Alias != nil {
-		us, err := r.UnwrapShape(base.Alias)
+		us, err := r.UnwrapShape(aliasSource(base))
 		if err != nil {
 			return nil, StacktraceNewWrapped("alias unwrap", err, base.Location,
 				stacktrace.WithPosition(&base.Position), stacktrace.WithType(StacktraceTypeUnwrapping))
-- 
2.43.0


From e49bfe9149dd52bcd9818acc510108b789f4e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:39 +0000
Subject: [PATCH 29/31] fix: keep what is inherited from the only compatible
 member of a union

The result was a copy of the declaration that callers ignored and that
aliases of the declaration did not see: overriding properties and types used
by other types lost what they inherited from the member.
---
 shape.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shape.go b/shape.go
index c25b238..8240869 100644
--- a/shape.go
+++ b/shape.go
@@ -192,6 +192,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		return nil, err
 	}
 	var filtered []*BaseShape
+	var compatible *BaseShape
 	var st *stacktrace.StackTrace
 	for _, source := range sourceUnion.AnyOf {
 		// If at least one union member has any type, the whole union is considered as any type.
@@ -219,6 +220,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 				continue
 			}
 			filtered = append(filtered, is)
+			compatible = source
 		}
 	}
 	if len(filtered) == 0 {
@@ -231,7 +233,8 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 	}
 	// If only one union member remains - simplify to target type
 	if len(filtered) == 1 {
-		return filtered[0], nil
+		// NOTE: Target must be updated in-place since other shapes may refer to it.
+		return s.Inherit(compatible)
 	}
 	// Convert target to union
 	s.Type = TypeUnion
-- 
2.43.0


From f7dc29a61b7833ab3b8afe2381345a7cf5dae030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:43 +0000
Subject: [PATCH 30/31] fix: let copies of recursive types inherit from the
 types they are copied from

---
 complex.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/complex.go b/complex.go
index c39de63..b5deea9 100644
--- a/complex.go
+++ b/complex.go
@@ -1093,7 +1093,12 @@ func (s *RecursiveShape) validate(v interface{}, ctxPath string) error {
 }
 
 // Inherit merges the source shape into the target shape.
-func (s *RecursiveShape) inherit(_ Shape) (Shape, error) {
+func (s *RecursiveShape) inherit(source Shape) (Shape, error) {
+	// A copy of the recursion has everything it could inherit from the recursion to the same type.
+	if ss, ok := source.(*RecursiveShape); ok && s.Head != nil && ss.Head != nil &&
+		s.Head.Location == ss.Head.Location && s.Head.Position == ss.Head.Position && s.Head.Name == ss.Head.Name {
+		return s, nil
+	}
 	return nil, StacktraceNew("cannot inherit from recursive shape", s.Location, stacktrace.WithPosition(&s.Position))
 }
 
-- 
2.43.0


From 884fc735a24539c532bb7d14012108aecea2638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:34 +0000
Subject: [PATCH 31/31] fix: let arrays and unions inherit from recursive types

---
 complex.go |  2 +-
 shape.go   | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/complex.go b/complex.go
index b5deea9..f458edd 100644
--- a/complex.go
+++ b/complex.go
@@ -894,7 +894,7 @@ func (s *UnionShape) inherit(source Shape) (Shape, error) {
 	for _, sourceMember := range ss.AnyOf {
 		var filtered []*BaseShape
 		for _, targetMember := range s.AnyOf {
-			if sourceMember.Type == targetMember.Type {
+			if sourceMember.recursionHead().Type == targetMember.Type {
 				// Clone is required to avoid modifying the original target member shape.
 				cs := s.raml.cloneAsNew(targetMember)
 				hookFailures := s.raml.hookFailures
diff --git a/shape.go b/shape.go
index 8240869..4a6488b 100644
--- a/shape.go
+++ b/shape.go
@@ -142,8 +142,12 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 	sourceBase.ShapeVisited = true
 	defer func() { sourceBase.ShapeVisited = false }()
 
-	source := sourceBase.Shape
 	target := s.Shape
+	inherited := sourceBase
+	if _, ok := target.(*RecursiveShape); !ok {
+		inherited = sourceBase.recursionHead()
+	}
+	source := inherited.Shape
 
 	if s.Description == nil {
 		s.Description = sourceBase.Description
@@ -174,7 +178,7 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 		return s.inheritUnionSource(sourceUnion)
 
 	case isTargetUnion && !isSourceUnion:
-		return sourceBase.inheritUnionTarget(targetUnion)
+		return inherited.inheritUnionTarget(targetUnion)
 	}
 	// Homogenous types produce same type
 	_, err := target.inherit(source)
@@ -185,6 +189,14 @@ func (s *BaseShape) Inherit(sourceBase *BaseShape) (*BaseShape, error) {
 	return s, nil
 }
 
+// recursionHead returns the shape that the recursion points to or the shape itself if it is not a recursion.
+func (s *BaseShape) recursionHead() *BaseShape {
+	if rs, ok := s.Shape.(*RecursiveShape); ok && rs.Head != nil {
+		return rs.Head
+	}
+	return s
+}
+
 const HookBeforeBaseShapeInheritUnionSource = "BaseShape.inheritUnionSource"
 
 func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, error) {
@@ -199,7 +211,7 @@ func (s *BaseShape) inheritUnionSource(sourceUnion *UnionShape) (*BaseShape, err
 		if _, ok := source.Shape.(*AnyShape); ok {
 			return s, nil
 		}
-		if source.Type == s.Type {
+		if source.recursionHead().Type == s.Type {
 			// Deep copy with ID change is required since we create new union members from source members
 			tc := s.raml.cloneAsNew(s)
 			hookFailures := s.raml.hookFailures
-- 
2.43.0

