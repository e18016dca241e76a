From abc0a58c9abdce8e6c631d3156068174f7e0a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:24 +0000
Subject: [PATCH 01/28] fix: do not panic on facets whose name is the empty
 string

The annotation and resource prefix tests indexed the first byte of the key
without checking that the key has one.
---
 v0/gen/example-m.tpl                      | 2 +-
 v0/internal/raml/APISpec.go               | 5 +++--
 v0/internal/raml/Library.go               | 2 +-
 v0/internal/raml/in-components.go         | 9 ++++++++-
 v0/internal/raml/x-gen-ex-any.go          | 2 +-
 v0/internal/raml/x-gen-ex-array.go        | 2 +-
 v0/internal/raml/x-gen-ex-bool.go         | 2 +-
 v0/internal/raml/x-gen-ex-custom.go       | 2 +-
 v0/internal/raml/x-gen-ex-dateonly.go     | 2 +-
 v0/internal/raml/x-gen-ex-datetime.go     | 2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go         | 2 +-
 v0/internal/raml/x-gen-ex-integer.go      | 2 +-
 v0/internal/raml/x-gen-ex-number.go       | 2 +-
 v0/internal/raml/x-gen-ex-object.go       | 2 +-
 v0/internal/raml/x-gen-ex-string.go       | 2 +-
 v0/internal/raml/x-gen-ex-timeonly.go     | 2 +-
 v0/internal/raml/x-gen-ex-union.go        | 2 +-
 18 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index e2d59fa..dcd1fb8 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -157,7 +157,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index c361b69..2541584 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 	"io"
+	"strings"
 )
 
 func NewApiSpec() *APISpec {
@@ -379,7 +380,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '(' {
+	if isAnnotationKey(k.Value) {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
@@ -388,7 +389,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '/' {
+	if strings.HasPrefix(k.Value, "/") {
 		a.resources.Put(k.Value, v)
 		return nil
 	}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index dc1be5e..c5972bd 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -227,7 +227,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 		return UnmarshalUntypedMapRAML(l.securitySchemes, v)
 	}
 
-	if xyml.IsString(k) && k.Value[0] == '(' {
+	if xyml.IsString(k) && isAnnotationKey(k.Value) {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 62b84b1..e718a4b 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -3,8 +3,15 @@ package raml
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
+// isAnnotationKey returns whether the given facet name is an annotation
+// reference.  Facet names may be any string, including the empty string.
+func isAnnotationKey(k string) bool {
+	return strings.HasPrefix(k, "(")
+}
+
 /******************************************************************************/
 
 func makeAnnotations() hasAnnotations {
@@ -24,7 +31,7 @@ func (h *hasAnnotations) out(out raml.AnyMap) {
 }
 
 func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
-	if k[0] != '(' {
+	if !isAnnotationKey(k) {
 		return false, nil
 	}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f6f00e3..979ed84 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -151,7 +151,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b2b7c78..9a6d521 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -151,7 +151,7 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 57d54a0..51804eb 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -151,7 +151,7 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1b2921e..592a0d7 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -151,7 +151,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 978a154..b4064f7 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -151,7 +151,7 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 41892ba..6463b19 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -151,7 +151,7 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index ea01bed..741778d 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -151,7 +151,7 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 06f99d5..9e3ab70 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -151,7 +151,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index cd98696..72434fb 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -151,7 +151,7 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 5c644a6..608bf8d 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -151,7 +151,7 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 28d8833..877c6ab 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -151,7 +151,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 6b7ae17..c5305e1 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -151,7 +151,7 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index c499f36..da2b911 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -151,7 +151,7 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 6a23242..ac2b279 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -151,7 +151,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if isAnnotationKey(key.Value) {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
-- 
2.43.0


From bde43504b536373374bbdf18fcfc5acd1e3ef777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:05 +0000
Subject: [PATCH 02/28] fix: accept nil and include types as object properties

Property declarations are required to provide Required(), which the nil and
include types did not, so parsing an object property of either type panicked.
---
 v0/gen/type-m/base.tpl                 | 38 ++++++++++++++++++++------
 v0/internal/raml/x-gen-type-include.go | 24 ++++++++++++++--
 v0/internal/raml/x-gen-type-nil.go     | 32 +++++++++++++++++++++-
 3 files changed, 83 insertions(+), 11 deletions(-)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index b8f4413..38cacd6 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -3,12 +3,10 @@ package raml
 
 {{define "base" -}}
 import (
-	{{if eq .Name "Include" -}}
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
-
-{{- end}}
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"gopkg.in/yaml.v3"
 )
 
 // New{{.Name}}Type returns a new internal implementation of
@@ -16,7 +14,7 @@ import (
 //
 // Generated @ {{.Time}}
 func New{{.Name}}Type() *{{.Name}}Type {
-	out := &{{.Name}}Type{}
+	out := &{{.Name}}Type{required: true}
 
 	out.DataType = NewDataType(rmeta.Type{{.Name}}, out)
 
@@ -29,17 +27,41 @@ func New{{.Name}}Type() *{{.Name}}Type {
 // Generated @ {{.Time}}
 type {{.Name}}Type struct {
 	*DataType
+
+	required bool
+}
+
+// Required allows {{.Name}}Type to be used as a raml.Property.
+func (a *{{.Name}}Type) Required() bool {
+	return a.required
 }
-{{if eq .Name "Include"}}
-func (a {{.Name}}Type) marshal(out raml.AnyMap) error {
+
+func (a *{{.Name}}Type) marshal(out raml.AnyMap) error {
+	{{if eq .Name "Include" -}}
 	out.Put(rmeta.KeyType, &yaml.Node{
 		Kind: yaml.ScalarNode,
 		Tag: "!include",
 		Value: a.DataType.schema,
 	})
 	a.DataType.hasExtra.out(out)
+	{{- else -}}
+	if err := a.DataType.marshal(out); err != nil {
+		return err
+	}
+	{{- end}}
+
+	if !a.required {
+		out.Put(rmeta.KeyRequired, a.required)
+	}
 
 	return nil
 }
-{{end}}
+
+func (a *{{.Name}}Type) assign(key, val *yaml.Node) error {
+	if key.Value == rmeta.KeyRequired {
+		return assign.AsBool(val, &a.required)
+	}
+
+	return a.DataType.assign(key, val)
+}
 {{end}}
\ No newline at end of file
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index f559966..79d4746 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"gopkg.in/yaml.v3"
@@ -11,7 +12,7 @@ import (
 //
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewIncludeType() *IncludeType {
-	out := &IncludeType{}
+	out := &IncludeType{required: true}
 
 	out.DataType = NewDataType(rmeta.TypeInclude, out)
 
@@ -24,9 +25,16 @@ func NewIncludeType() *IncludeType {
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 type IncludeType struct {
 	*DataType
+
+	required bool
+}
+
+// Required allows IncludeType to be used as a raml.Property.
+func (a *IncludeType) Required() bool {
+	return a.required
 }
 
-func (a IncludeType) marshal(out raml.AnyMap) error {
+func (a *IncludeType) marshal(out raml.AnyMap) error {
 	out.Put(rmeta.KeyType, &yaml.Node{
 		Kind:  yaml.ScalarNode,
 		Tag:   "!include",
@@ -34,5 +42,17 @@ func (a IncludeType) marshal(out raml.AnyMap) error {
 	})
 	a.DataType.hasExtra.out(out)
 
+	if !a.required {
+		out.Put(rmeta.KeyRequired, a.required)
+	}
+
 	return nil
 }
+
+func (a *IncludeType) assign(key, val *yaml.Node) error {
+	if key.Value == rmeta.KeyRequired {
+		return assign.AsBool(val, &a.required)
+	}
+
+	return a.DataType.assign(key, val)
+}
diff --git a/v0/internal/raml/x-gen-type-nil.go b/v0/internal/raml/x-gen-type-nil.go
index 5570dac..899e1d7 100644
--- a/v0/internal/raml/x-gen-type-nil.go
+++ b/v0/internal/raml/x-gen-type-nil.go
@@ -1,7 +1,10 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
+	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"gopkg.in/yaml.v3"
 )
 
 // NewNilType returns a new internal implementation of
@@ -9,7 +12,7 @@ import (
 //
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 func NewNilType() *NilType {
-	out := &NilType{}
+	out := &NilType{required: true}
 
 	out.DataType = NewDataType(rmeta.TypeNil, out)
 
@@ -22,4 +25,31 @@ func NewNilType() *NilType {
 // Generated @ 2023-01-17T10:02:54.294844187-05:00
 type NilType struct {
 	*DataType
+
+	required bool
+}
+
+// Required allows NilType to be used as a raml.Property.
+func (a *NilType) Required() bool {
+	return a.required
+}
+
+func (a *NilType) marshal(out raml.AnyMap) error {
+	if err := a.DataType.marshal(out); err != nil {
+		return err
+	}
+
+	if !a.required {
+		out.Put(rmeta.KeyRequired, a.required)
+	}
+
+	return nil
+}
+
+func (a *NilType) assign(key, val *yaml.Node) error {
+	if key.Value == rmeta.KeyRequired {
+		return assign.AsBool(val, &a.required)
+	}
+
+	return a.DataType.assign(key, val)
 }
-- 
2.43.0


From 83ca170cd1b161a3b03d1214bc4ac5d0307cec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:08 +0000
Subject: [PATCH 03/28] fix: accept an include as the type facet of an expanded
 type

The type detection resolves an expanded declaration whose type is an !include
to an include type, but the facet itself was then rejected for not being a
string.
---
 v0/gen/type-m/base.tpl                 | 7 +++++++
 v0/internal/raml/x-gen-type-include.go | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/v0/gen/type-m/base.tpl b/v0/gen/type-m/base.tpl
index 38cacd6..9cf5b2f 100644
--- a/v0/gen/type-m/base.tpl
+++ b/v0/gen/type-m/base.tpl
@@ -61,6 +61,13 @@ func (a *{{.Name}}Type) assign(key, val *yaml.Node) error {
 	if key.Value == rmeta.KeyRequired {
 		return assign.AsBool(val, &a.required)
 	}
+	{{- if eq .Name "Include"}}
+
+	if (key.Value == rmeta.KeyType || key.Value == rmeta.KeySchema) && val.Tag == "!include" {
+		a.schema = val.Value
+		return nil
+	}
+	{{- end}}
 
 	return a.DataType.assign(key, val)
 }
diff --git a/v0/internal/raml/x-gen-type-include.go b/v0/internal/raml/x-gen-type-include.go
index 79d4746..671e9f3 100644
--- a/v0/internal/raml/x-gen-type-include.go
+++ b/v0/internal/raml/x-gen-type-include.go
@@ -54,5 +54,10 @@ func (a *IncludeType) assign(key, val *yaml.Node) error {
 		return assign.AsBool(val, &a.required)
 	}
 
+	if (key.Value == rmeta.KeyType || key.Value == rmeta.KeySchema) && val.Tag == "!include" {
+		a.schema = val.Value
+		return nil
+	}
+
 	return a.DataType.assign(key, val)
 }
-- 
2.43.0


From 21df4c58dade98cc0d618ac36ed6bb8d43b5903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:21 +0000
Subject: [PATCH 04/28] fix: accept empty type declarations

An empty declaration was meant to be a string type, but the test looked for a
nil node instead of a YAML null and so rejected it.
---
 v0/internal/raml/fn-sorting-hat-type.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index a7b0b8b..8700d11 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -2,7 +2,6 @@ package raml
 
 import (
 	"fmt"
-	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -50,7 +49,7 @@ func TypeSortingHat(val *yaml.Node) (out raml.DataType, err error) {
 		return out, nil
 	}
 
-	if util.IsNil(val) {
+	if xyml.IsNilType(val) {
 		return NewStringType(), nil
 	}
 
-- 
2.43.0


From ddd16b34933d905390c67717f4e3d1fe98453b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 05/28] fix: accept an example on a type of kind any

---
 v0/internal/raml/fn-sorting-hat-example.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0/internal/raml/fn-sorting-hat-example.go b/v0/internal/raml/fn-sorting-hat-example.go
index 7c85223..ecc6054 100644
--- a/v0/internal/raml/fn-sorting-hat-example.go
+++ b/v0/internal/raml/fn-sorting-hat-example.go
@@ -13,6 +13,8 @@ func ExampleSortingHat(kind rmeta.DataTypeKind) (raml.Example, error) {
 	logrus.Trace("internal.ExampleSortingHat")
 
 	switch kind {
+	case rmeta.TypeAny:
+		return NewAnyExample(), nil
 	case rmeta.TypeString:
 		return NewStringExample(), nil
 	case rmeta.TypeObject:
-- 
2.43.0


From 2d35489eb285c1a5525f949f15af45aba921c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:00 +0000
Subject: [PATCH 06/28] fix: accept integer literals, infinities and NaN for
 number facets

---
 v0/gen/example-m.tpl                  |  2 +-
 v0/gen/type-m/extended.tpl            |  2 +-
 v0/internal/raml/x-gen-ex-number.go   |  2 +-
 v0/internal/raml/x-gen-type-number.go |  2 +-
 v0/internal/util/assign/float64.go    | 16 +++++++++++++++-
 5 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index dcd1fb8..a7dceac 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -213,7 +213,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		e.value = &tmp
 	}
 	{{- else if eq .Type "float64" -}}
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 221fcfd..74aa070 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -287,7 +287,7 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			{{else if eq .DefTypeName "Int64" -}}
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
-				if val, err := xyml.ToFloat(cur); err != nil {
+				if val, err := assign.ToFloat64(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 608bf8d..72519a9 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -189,7 +189,7 @@ func (e *NumberExample) expand() bool {
 }
 
 func (e *NumberExample) assignVal(val *yaml.Node) error {
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 85f9df8..fcc1a38 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -278,7 +278,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return UnmarshalNumberExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToFloat(cur); err != nil {
+			if val, err := assign.ToFloat64(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/util/assign/float64.go b/v0/internal/util/assign/float64.go
index 0289d91..e748823 100644
--- a/v0/internal/util/assign/float64.go
+++ b/v0/internal/util/assign/float64.go
@@ -5,8 +5,22 @@ import (
 	"gopkg.in/yaml.v3"
 )
 
+// ToFloat64 parses the given node as a number.
+//
+// Numbers may be written in YAML as a float or as an integer.
+func ToFloat64(v *yaml.Node) (val float64, err error) {
+	if !xyml.IsInt(v) {
+		if err = xyml.RequireFloat(v); err != nil {
+			return
+		}
+	}
+
+	err = v.Decode(&val)
+	return
+}
+
 func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
-	if val, err := xyml.ToFloat(v); err != nil {
+	if val, err := ToFloat64(v); err != nil {
 		return err
 	} else {
 		*ptr = &val
-- 
2.43.0


From fe5417837964d204ad52cf1fe09522ffd5a9ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:45 +0000
Subject: [PATCH 07/28] fix: write number facets without losing precision

Float facets were written with ten significant digits, and infinities and NaN
in a spelling that is not YAML.
---
 v0/gen/example-m.tpl                   |  2 +-
 v0/gen/type-m/extended.tpl             |  4 +--
 v0/gen/type-m/integer.tpl              |  2 +-
 v0/gen/type-m/number.tpl               |  6 ++--
 v0/internal/raml/in-float.go           | 44 ++++++++++++++++++++++++++
 v0/internal/raml/x-gen-ex-number.go    |  2 +-
 v0/internal/raml/x-gen-type-integer.go |  2 +-
 v0/internal/raml/x-gen-type-number.go  | 10 +++---
 8 files changed, 58 insertions(+), 14 deletions(-)
 create mode 100644 v0/internal/raml/in-float.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index a7dceac..1ba266f 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -131,7 +131,7 @@ func (e *{{.Name}}Example) MarshalRAML(out raml.AnyMap) (bool, error) {
 	if e.expand() {
 		out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 			PutIfNotNil(rmeta.KeyDescription, e.description).
-			PutIfNotNil(rmeta.KeyValue, e.value)
+			PutIfNotNil(rmeta.KeyValue, {{if eq .Type "float64"}}(*yamlFloat)(e.value){{else}}e.value{{end}})
 
 		if e.strict != rmeta.ExampleDefaultStrict {
 			out.Put(rmeta.KeyStrict, e.strict)
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 74aa070..a4e8f3e 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -235,7 +235,7 @@ func (o *{{.Name}}Type) SetRequired(b bool) raml.{{.Name}}Type {
 
 func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 	logrus.Trace("internal.{{.Name}}Type.marshal")
-	out.PutIfNotNil(rmeta.KeyDefault, o.def)
+	out.PutIfNotNil(rmeta.KeyDefault, {{if eq .EnumType "float64"}}(*yamlFloat)(o.def){{else}}o.def{{end}})
 
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
@@ -255,7 +255,7 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 	{{- else if eq .Name "Datetime" -}}
 	{{template "datetime-marshal" $}}
 	{{- end}}
-	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
+	out.PutIfNotNil(rmeta.KeyEnum, {{if eq .EnumType "float64"}}yamlFloats(o.enum){{else}}o.enum{{end}}).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
 	if o.examples.Len() > 0 {
diff --git a/v0/gen/type-m/integer.tpl b/v0/gen/type-m/integer.tpl
index 5d14b40..681be2e 100644
--- a/v0/gen/type-m/integer.tpl
+++ b/v0/gen/type-m/integer.tpl
@@ -30,7 +30,7 @@ func (o {{.Name}}Type) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
 		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
 		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
+		PutIfNotNil(rmeta.KeyMultipleOf, (*yamlFloat)(o.multipleOf))
 	{{- end}}
 }
 
diff --git a/v0/gen/type-m/number.tpl b/v0/gen/type-m/number.tpl
index 6472793..2b1da1f 100644
--- a/v0/gen/type-m/number.tpl
+++ b/v0/gen/type-m/number.tpl
@@ -28,9 +28,9 @@ type Bar struct {
 func (o {{.Name}}Type) marshal(out raml.AnyMap) error {
 	{{define "number-marshal" -}}
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
-		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
+		PutIfNotNil(rmeta.KeyMinimum, (*yamlFloat)(o.minimum)).
+		PutIfNotNil(rmeta.KeyMaximum, (*yamlFloat)(o.maximum)).
+		PutIfNotNil(rmeta.KeyMultipleOf, (*yamlFloat)(o.multipleOf))
 	{{- end}}
 }
 
diff --git a/v0/internal/raml/in-float.go b/v0/internal/raml/in-float.go
new file mode 100644
index 0000000..7980ba6
--- /dev/null
+++ b/v0/internal/raml/in-float.go
@@ -0,0 +1,44 @@
+package raml
+
+import (
+	"gopkg.in/yaml.v3"
+	"math"
+
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+)
+
+// yamlFloat is a float value that is written to YAML without losing precision.
+type yamlFloat float64
+
+func (f yamlFloat) ToYAML() (*yaml.Node, error) {
+	val := float64(f)
+	out := xyml.NewFloatNode(val, 'g', -1)
+
+	switch {
+	case math.IsNaN(val):
+		out.Value = ".nan"
+	case math.IsInf(val, 1):
+		out.Value = ".inf"
+	case math.IsInf(val, -1):
+		out.Value = "-.inf"
+	}
+
+	return out, nil
+}
+
+func (f yamlFloat) MarshalYAML() (interface{}, error) {
+	return f.ToYAML()
+}
+
+func yamlFloats(vals []float64) []yamlFloat {
+	if vals == nil {
+		return nil
+	}
+
+	out := make([]yamlFloat, len(vals))
+	for i := range vals {
+		out[i] = yamlFloat(vals[i])
+	}
+
+	return out
+}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 72519a9..dd7c529 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -125,7 +125,7 @@ func (e *NumberExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 	if e.expand() {
 		out.PutIfNotNil(rmeta.KeyDisplayName, e.displayName).
 			PutIfNotNil(rmeta.KeyDescription, e.description).
-			PutIfNotNil(rmeta.KeyValue, e.value)
+			PutIfNotNil(rmeta.KeyValue, (*yamlFloat)(e.value))
 
 		if e.strict != rmeta.ExampleDefaultStrict {
 			out.Put(rmeta.KeyStrict, e.strict)
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index a0e6346..6761215 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -251,7 +251,7 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
 		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
 		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
+		PutIfNotNil(rmeta.KeyMultipleOf, (*yamlFloat)(o.multipleOf))
 	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index fcc1a38..538cad0 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -243,16 +243,16 @@ func (o *NumberType) UnsetMultipleOf() raml.NumberType {
 
 func (o *NumberType) marshal(out raml.AnyMap) error {
 	logrus.Trace("internal.NumberType.marshal")
-	out.PutIfNotNil(rmeta.KeyDefault, o.def)
+	out.PutIfNotNil(rmeta.KeyDefault, (*yamlFloat)(o.def))
 
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
 	}
 	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
-		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
-		PutIfNotNil(rmeta.KeyMultipleOf, o.multipleOf)
-	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
+		PutIfNotNil(rmeta.KeyMinimum, (*yamlFloat)(o.minimum)).
+		PutIfNotNil(rmeta.KeyMaximum, (*yamlFloat)(o.maximum)).
+		PutIfNotNil(rmeta.KeyMultipleOf, (*yamlFloat)(o.multipleOf))
+	out.PutIfNotNil(rmeta.KeyEnum, yamlFloats(o.enum)).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
 	if o.examples.Len() > 0 {
-- 
2.43.0


From caed62fa833772d0d7e4686b789da1a1c7ea9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:16 +0000
Subject: [PATCH 08/28] fix: accept unquoted dates for date type examples and
 enums

Unquoted dates are timestamps in YAML and so were rejected for not being
strings.
---
 v0/gen/example-m.tpl                         |  8 +++++++-
 v0/gen/type-m/extended.tpl                   |  2 ++
 v0/internal/raml/x-gen-ex-dateonly.go        |  5 +++--
 v0/internal/raml/x-gen-ex-datetime.go        |  5 +++--
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  5 +++--
 v0/internal/raml/x-gen-ex-timeonly.go        |  5 +++--
 v0/internal/raml/x-gen-type-date-only.go     |  3 +--
 v0/internal/raml/x-gen-type-datetime-only.go |  3 +--
 v0/internal/raml/x-gen-type-datetime.go      |  3 +--
 v0/internal/raml/x-gen-type-number.go        |  1 +
 v0/internal/raml/x-gen-type-time-only.go     |  3 +--
 v0/internal/util/assign/string.go            | 13 +++++++++++++
 12 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 1ba266f..d10a9b6 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -195,7 +195,13 @@ func (e *{{.Name}}Example) expand() bool {
 }
 
 func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
-	{{if eq .Type "string" -}}
+	{{if eq .Name "DateOnly" "TimeOnly" "DatetimeOnly" "Datetime" -}}
+	if tmp, err := assign.ToDateString(val); err != nil {
+		return err
+	} else {
+		e.value = &tmp
+	}
+	{{- else if eq .Type "string" -}}
 	if err := xyml.RequireString(val); err != nil {
 		return err
 	}
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index a4e8f3e..80a4f48 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -288,6 +288,8 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
 				if val, err := assign.ToFloat64(cur); err != nil {
+			{{else if eq .Name "DateOnly" "TimeOnly" "DatetimeOnly" "Datetime" -}}
+				if val, err := assign.ToDateString(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index b4064f7..cdc3b8c 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -189,10 +189,11 @@ func (e *DateOnlyExample) expand() bool {
 }
 
 func (e *DateOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 6463b19..23f33d7 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -189,10 +189,11 @@ func (e *DatetimeExample) expand() bool {
 }
 
 func (e *DatetimeExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 741778d..21cdcd3 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -189,10 +189,11 @@ func (e *DatetimeOnlyExample) expand() bool {
 }
 
 func (e *DatetimeOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index da2b911..e5e3303 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -189,10 +189,11 @@ func (e *TimeOnlyExample) expand() bool {
 }
 
 func (e *TimeOnlyExample) assignVal(val *yaml.Node) error {
-	if err := xyml.RequireString(val); err != nil {
+	if tmp, err := assign.ToDateString(val); err != nil {
 		return err
+	} else {
+		e.value = &tmp
 	}
-	e.value = &val.Value
 
 	return nil
 }
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4475886..dba9391 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -215,8 +215,7 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDateOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
-
+			if val, err := assign.ToDateString(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 201b68a..e20edcd 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -215,8 +215,7 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
-
+			if val, err := assign.ToDateString(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 4b4e9b0..da111fa 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -230,8 +230,7 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 		return UnmarshalDatetimeExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
-
+			if val, err := assign.ToDateString(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 538cad0..132604a 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -279,6 +279,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := assign.ToFloat64(cur); err != nil {
+
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 8cf5323..9600540 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -215,8 +215,7 @@ func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 		return UnmarshalTimeOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToString(cur); err != nil {
-
+			if val, err := assign.ToDateString(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/util/assign/string.go b/v0/internal/util/assign/string.go
index 24d7389..1a31b72 100644
--- a/v0/internal/util/assign/string.go
+++ b/v0/internal/util/assign/string.go
@@ -25,3 +25,16 @@ func AsStringPtr(v *yaml.Node, ptr **string) error {
 
 	return nil
 }
+
+// ToDateString returns the text of a date or time value.
+//
+// An unquoted date is a timestamp in YAML rather than a string.
+func ToDateString(v *yaml.Node) (string, error) {
+	if !xyml.IsTimestamp(v) {
+		if err := xyml.RequireString(v); err != nil {
+			return "", err
+		}
+	}
+
+	return v.Value, nil
+}
-- 
2.43.0


From d8f42b5926a10932928ea6f2fe6e7555c0546e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:40 +0000
Subject: [PATCH 09/28] fix: write the documentation section of an API
 specification

Documentation entries could not be converted to YAML, so writing any API
specification that has documentation failed.
---
 v0/internal/raml/Documentation.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index f4e5858..898aa00 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -46,6 +46,14 @@ func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
 	return false, nil
 }
 
+func (d Documentation) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(2 + d.extra.Len()).SerializeOrdered(false)
+	if _, err := d.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
-- 
2.43.0


From e2f2db10c77d1b6aa084a7d325fb90547cbc00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:56 +0000
Subject: [PATCH 10/28] fix: keep includes and reject non-scalars in
 documentation entries

A documentation entry whose content is an !include was written back as a plain
string, and a title or content that is not a scalar was silently dropped.
---
 v0/internal/raml/Documentation.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index 898aa00..dccac7b 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -14,6 +14,7 @@ func NewDocumentation() *Documentation {
 type Documentation struct {
 	title   string
 	content string
+	include *yaml.Node
 	extra   raml.AnyMap
 }
 
@@ -32,6 +33,7 @@ func (d *Documentation) Content() string {
 
 func (d *Documentation) SetContent(content string) raml.Documentation {
 	d.content = content
+	d.include = nil
 	return d
 }
 
@@ -40,8 +42,12 @@ func (d *Documentation) ExtraFacets() raml.AnyMap {
 }
 
 func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
-	out.Put(rmeta.KeyTitle, d.title).
-		Put(rmeta.KeyContent, d.content)
+	out.Put(rmeta.KeyTitle, d.title)
+	if d.include != nil {
+		out.Put(rmeta.KeyContent, d.include)
+	} else {
+		out.Put(rmeta.KeyContent, d.content)
+	}
 	d.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
 	return false, nil
 }
@@ -58,9 +64,19 @@ func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
 		case rmeta.KeyTitle:
+			if err := xyml.RequireScalar(v); err != nil {
+				return err
+			}
 			d.title = v.Value
 		case rmeta.KeyContent:
+			if err := xyml.RequireScalar(v); err != nil {
+				return err
+			}
 			d.content = v.Value
+			d.include = nil
+			if v.Tag == "!include" {
+				d.include = v
+			}
 		default:
 			if key, err := xyml.ToScalarValue(k); err != nil {
 				return err
-- 
2.43.0


From cc89dbf100ddeded356d74b62396e23e10cfde5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 11/28] fix: write the xml facet of a data type

The XML facet could not be converted to YAML, so writing any data type that has
one failed, and its custom facets were not written at all.
---
 v0/internal/raml/type-xml.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 869366c..78a0e8b 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -11,7 +11,7 @@ import (
 
 func NewXML() *XML {
 	return &XML{
-		extra: make(map[interface{}]interface{}),
+		extra: raml.NewAnyMap(0).SerializeOrdered(false),
 	}
 }
 
@@ -21,7 +21,7 @@ type XML struct {
 	name   *string
 	ns     *string
 	pref   *string
-	extra  map[interface{}]interface{}
+	extra  raml.AnyMap
 }
 
 func (x *XML) IsAttribute() option.Bool {
@@ -105,9 +105,19 @@ func (x XML) MarshalRAML(out raml.AnyMap) (bool, error) {
 		PutIfNotNil(rmeta.KeyNamespace, x.ns).
 		PutIfNotNil(rmeta.KeyPrefix, x.pref)
 
+	x.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
+
 	return false, nil
 }
 
+func (x XML) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(5 + x.extra.Len()).SerializeOrdered(false)
+	if _, err := x.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (x *XML) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyAttribute:
@@ -124,7 +134,7 @@ func (x *XML) assign(key, val *yaml.Node) error {
 		if k, err := xyml.ToScalarValue(key); err != nil {
 			return err
 		} else {
-			x.extra[k] = val
+			x.extra.Put(k, val)
 		}
 	}
 
-- 
2.43.0


From 5ad282d29f5651abf52a1c9ca0b30310753f5ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 12/28] fix: write annotation values as maps

Annotation values were written as ordered map sequences, which are not what was
parsed and cannot be parsed again.
---
 v0/internal/raml/APISpec.go       | 2 +-
 v0/internal/raml/Library.go       | 2 +-
 v0/internal/raml/annotation.go    | 2 +-
 v0/internal/raml/in-components.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index 2541584..a3c6b0d 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -381,7 +381,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 	}
 
 	if isAnnotationKey(k.Value) {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index c5972bd..0fc329c 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -228,7 +228,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 	}
 
 	if xyml.IsString(k) && isAnnotationKey(k.Value) {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/annotation.go b/v0/internal/raml/annotation.go
index 9c66206..a940194 100644
--- a/v0/internal/raml/annotation.go
+++ b/v0/internal/raml/annotation.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewAnnotation() raml.Annotation {
-	return raml.Annotation(raml.NewUntypedMap(1))
+	return raml.Annotation(raml.NewUntypedMap(1).SerializeOrdered(false))
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index e718a4b..abbf685 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -35,7 +35,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 		return false, nil
 	}
 
-	tmp := raml.NewUntypedMap(0)
+	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)
 
 	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 		return false, err
-- 
2.43.0


From 56a67f6e37316ec5b77c1151f75108fcc4657ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 13/28] fix: write facet definitions as maps

Facet definitions were written as ordered map sequences, which are not what was
parsed and cannot be parsed again.
---
 v0/internal/raml/type-datatype-ext.go | 2 +-
 v0/internal/raml/type-facet.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 57053df..706f931 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -13,7 +13,7 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 	return &ExtendedDataType{
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
-		facets:         raml.NewFacetMap(0),
+		facets:         raml.NewFacetMap(0).SerializeOrdered(false),
 		required:       true,
 	}
 }
diff --git a/v0/internal/raml/type-facet.go b/v0/internal/raml/type-facet.go
index ab032bd..8de6136 100644
--- a/v0/internal/raml/type-facet.go
+++ b/v0/internal/raml/type-facet.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewFacet() raml.Facet {
-	return raml.NewDataTypeMap(0)
+	return raml.NewDataTypeMap(0).SerializeOrdered(false)
 }
-- 
2.43.0


From a15b50699392669619033625fd881758aba0f84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:47 +0000
Subject: [PATCH 14/28] fix: unset sections are replaced with maps that are
 written as maps

The maps that replaced an unset section were in ordered serialization mode,
unlike the ones a new element starts with, so anything put in them afterwards
was written as an ordered map sequence which cannot be parsed again.
---
 v0/gen/example-m.tpl                         |  2 +-
 v0/gen/type-m/extended.tpl                   |  8 ++++----
 v0/gen/type-m/object.tpl                     |  2 +-
 v0/internal/raml/APISpec.go                  | 16 ++++++++--------
 v0/internal/raml/Library.go                  | 10 +++++-----
 v0/internal/raml/x-gen-ex-any.go             |  2 +-
 v0/internal/raml/x-gen-ex-array.go           |  2 +-
 v0/internal/raml/x-gen-ex-bool.go            |  2 +-
 v0/internal/raml/x-gen-ex-custom.go          |  2 +-
 v0/internal/raml/x-gen-ex-dateonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetime.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  2 +-
 v0/internal/raml/x-gen-ex-file.go            |  2 +-
 v0/internal/raml/x-gen-ex-integer.go         |  2 +-
 v0/internal/raml/x-gen-ex-number.go          |  2 +-
 v0/internal/raml/x-gen-ex-object.go          |  2 +-
 v0/internal/raml/x-gen-ex-string.go          |  2 +-
 v0/internal/raml/x-gen-ex-timeonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-union.go           |  2 +-
 v0/internal/raml/x-gen-type-any.go           |  8 ++++----
 v0/internal/raml/x-gen-type-array.go         |  8 ++++----
 v0/internal/raml/x-gen-type-bool.go          |  8 ++++----
 v0/internal/raml/x-gen-type-custom.go        |  8 ++++----
 v0/internal/raml/x-gen-type-date-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-datetime-only.go |  8 ++++----
 v0/internal/raml/x-gen-type-datetime.go      |  8 ++++----
 v0/internal/raml/x-gen-type-file.go          |  8 ++++----
 v0/internal/raml/x-gen-type-integer.go       |  8 ++++----
 v0/internal/raml/x-gen-type-number.go        |  8 ++++----
 v0/internal/raml/x-gen-type-object.go        | 10 +++++-----
 v0/internal/raml/x-gen-type-string.go        |  8 ++++----
 v0/internal/raml/x-gen-type-time-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-union.go         |  8 ++++----
 33 files changed, 90 insertions(+), 90 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index d10a9b6..a830800 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -75,7 +75,7 @@ func (e *{{.Name}}Example) SetAnnotations(ann raml.AnnotationMap) raml.{{.Name}}
 }
 
 func (e *{{.Name}}Example) UnsetAnnotations() raml.{{.Name}}Example {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 80a4f48..3397e4a 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -122,7 +122,7 @@ func (o *{{.Name}}Type) SetExamples(examples raml.{{.Name}}ExampleMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetExamples() raml.{{.Name}}Type {
-	o.examples = raml.New{{.Name}}ExampleMap(0)
+	o.examples = raml.New{{.Name}}ExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -156,7 +156,7 @@ func (o *{{.Name}}Type) SetAnnotations(annotations raml.AnnotationMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetAnnotations() raml.{{.Name}}Type {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -170,7 +170,7 @@ func (o *{{.Name}}Type) SetFacetDefinitions(facets raml.FacetMap) raml.{{.Name}}
 }
 
 func (o *{{.Name}}Type) UnsetFacetDefinitions() raml.{{.Name}}Type {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -208,7 +208,7 @@ func (o *{{.Name}}Type) SetExtraFacets(facets raml.AnyMap) raml.{{.Name}}Type {
 }
 
 func (o *{{.Name}}Type) UnsetExtraFacets() raml.{{.Name}}Type {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/gen/type-m/object.tpl b/v0/gen/type-m/object.tpl
index ea1bdaf..bbeba8a 100644
--- a/v0/gen/type-m/object.tpl
+++ b/v0/gen/type-m/object.tpl
@@ -64,7 +64,7 @@ func (o *{{.Name}}Type) SetProperties(props raml.PropertyMap) raml.{{.Name}}Type
 }
 
 func (o *{{.Name}}Type) UnsetProperties() raml.{{.Name}}Type {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index a3c6b0d..bfaac61 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -158,7 +158,7 @@ func (a *APISpec) SetTypes(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTypes() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -175,7 +175,7 @@ func (a *APISpec) SetSchemas(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSchemas() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -192,7 +192,7 @@ func (a *APISpec) SetTraits(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTraits() raml.APISpec {
-	a.traits = raml.NewUntypedMap(0)
+	a.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -209,7 +209,7 @@ func (a *APISpec) SetResourceTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetResourceTypes() raml.APISpec {
-	a.resourceTypes = raml.NewUntypedMap(0)
+	a.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -226,7 +226,7 @@ func (a *APISpec) SetAnnotationTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotationTypes() raml.APISpec {
-	a.annotationTypes = raml.NewUntypedMap(0)
+	a.annotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -243,7 +243,7 @@ func (a *APISpec) SetAnnotations(t raml.AnnotationMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotations() raml.APISpec {
-	a.annotations = raml.NewAnnotationMap(0)
+	a.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -260,7 +260,7 @@ func (a *APISpec) SetSecuritySchemes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSecuritySchemes() raml.APISpec {
-	a.securitySchemes = raml.NewUntypedMap(0)
+	a.securitySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -291,7 +291,7 @@ func (a *APISpec) SetUses(s raml.StringMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetUses() raml.APISpec {
-	a.uses = raml.NewStringMap(0)
+	a.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return a
 }
 
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 0fc329c..5aeb968 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -48,7 +48,7 @@ func (l *Library) SetAnnotations(a raml.AnnotationMap) raml.Library {
 }
 
 func (l *Library) UnsetAnnotations() raml.Library {
-	l.annotations = raml.NewAnnotationMap(0)
+	l.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -73,7 +73,7 @@ func (l *Library) SetUses(uses raml.StringMap) raml.Library {
 }
 
 func (l *Library) UnsetUses() raml.Library {
-	l.uses = raml.NewStringMap(0)
+	l.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -90,7 +90,7 @@ func (l *Library) SetResourceTypes(resTypes raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetResourceTypes() raml.Library {
-	l.resourceTypes = raml.NewUntypedMap(0)
+	l.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -111,7 +111,7 @@ func (l *Library) SetTraits(traits raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetTraits() raml.Library {
-	l.traits = raml.NewUntypedMap(0)
+	l.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -128,7 +128,7 @@ func (l *Library) SetTypes(types raml.DataTypeMap) raml.Library {
 }
 
 func (l *Library) UnsetTypes() raml.Library {
-	l.types = raml.NewDataTypeMap(0)
+	l.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return l
 }
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 979ed84..c2d1fcf 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -73,7 +73,7 @@ func (e *AnyExample) SetAnnotations(ann raml.AnnotationMap) raml.AnyExample {
 }
 
 func (e *AnyExample) UnsetAnnotations() raml.AnyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 9a6d521..ba6119c 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -73,7 +73,7 @@ func (e *ArrayExample) SetAnnotations(ann raml.AnnotationMap) raml.ArrayExample
 }
 
 func (e *ArrayExample) UnsetAnnotations() raml.ArrayExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 51804eb..02b20e9 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -73,7 +73,7 @@ func (e *BoolExample) SetAnnotations(ann raml.AnnotationMap) raml.BoolExample {
 }
 
 func (e *BoolExample) UnsetAnnotations() raml.BoolExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 592a0d7..f38b087 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -73,7 +73,7 @@ func (e *CustomExample) SetAnnotations(ann raml.AnnotationMap) raml.CustomExampl
 }
 
 func (e *CustomExample) UnsetAnnotations() raml.CustomExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index cdc3b8c..8bb4901 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -73,7 +73,7 @@ func (e *DateOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.DateOnlyEx
 }
 
 func (e *DateOnlyExample) UnsetAnnotations() raml.DateOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 23f33d7..0ae69e7 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -73,7 +73,7 @@ func (e *DatetimeExample) SetAnnotations(ann raml.AnnotationMap) raml.DatetimeEx
 }
 
 func (e *DatetimeExample) UnsetAnnotations() raml.DatetimeExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 21cdcd3..d6ff38f 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -73,7 +73,7 @@ func (e *DatetimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.Dateti
 }
 
 func (e *DatetimeOnlyExample) UnsetAnnotations() raml.DatetimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 9e3ab70..c88d168 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -73,7 +73,7 @@ func (e *FileExample) SetAnnotations(ann raml.AnnotationMap) raml.FileExample {
 }
 
 func (e *FileExample) UnsetAnnotations() raml.FileExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 72434fb..87f721b 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -73,7 +73,7 @@ func (e *IntegerExample) SetAnnotations(ann raml.AnnotationMap) raml.IntegerExam
 }
 
 func (e *IntegerExample) UnsetAnnotations() raml.IntegerExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index dd7c529..811362f 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -73,7 +73,7 @@ func (e *NumberExample) SetAnnotations(ann raml.AnnotationMap) raml.NumberExampl
 }
 
 func (e *NumberExample) UnsetAnnotations() raml.NumberExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 877c6ab..f45b149 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -73,7 +73,7 @@ func (e *ObjectExample) SetAnnotations(ann raml.AnnotationMap) raml.ObjectExampl
 }
 
 func (e *ObjectExample) UnsetAnnotations() raml.ObjectExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index c5305e1..80f1b2e 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -73,7 +73,7 @@ func (e *StringExample) SetAnnotations(ann raml.AnnotationMap) raml.StringExampl
 }
 
 func (e *StringExample) UnsetAnnotations() raml.StringExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index e5e3303..b1c98d5 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -73,7 +73,7 @@ func (e *TimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.TimeOnlyEx
 }
 
 func (e *TimeOnlyExample) UnsetAnnotations() raml.TimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index ac2b279..a41a06d 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -73,7 +73,7 @@ func (e *UnionExample) SetAnnotations(ann raml.AnnotationMap) raml.UnionExample
 }
 
 func (e *UnionExample) UnsetAnnotations() raml.UnionExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 390e11b..9c06d25 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -86,7 +86,7 @@ func (o *AnyType) SetExamples(examples raml.AnyExampleMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExamples() raml.AnyType {
-	o.examples = raml.NewAnyExampleMap(0)
+	o.examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *AnyType) SetAnnotations(annotations raml.AnnotationMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetAnnotations() raml.AnyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *AnyType) SetFacetDefinitions(facets raml.FacetMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetFacetDefinitions() raml.AnyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *AnyType) SetExtraFacets(facets raml.AnyMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExtraFacets() raml.AnyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index 7c03efb..aa686dc 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -93,7 +93,7 @@ func (o *ArrayType) SetExamples(examples raml.ArrayExampleMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExamples() raml.ArrayType {
-	o.examples = raml.NewArrayExampleMap(0)
+	o.examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -127,7 +127,7 @@ func (o *ArrayType) SetAnnotations(annotations raml.AnnotationMap) raml.ArrayTyp
 }
 
 func (o *ArrayType) UnsetAnnotations() raml.ArrayType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -141,7 +141,7 @@ func (o *ArrayType) SetFacetDefinitions(facets raml.FacetMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetFacetDefinitions() raml.ArrayType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -179,7 +179,7 @@ func (o *ArrayType) SetExtraFacets(facets raml.AnyMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExtraFacets() raml.ArrayType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 171755a..01c67cb 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -86,7 +86,7 @@ func (o *BoolType) SetExamples(examples raml.BoolExampleMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExamples() raml.BoolType {
-	o.examples = raml.NewBoolExampleMap(0)
+	o.examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *BoolType) SetAnnotations(annotations raml.AnnotationMap) raml.BoolType
 }
 
 func (o *BoolType) UnsetAnnotations() raml.BoolType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *BoolType) SetFacetDefinitions(facets raml.FacetMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetFacetDefinitions() raml.BoolType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *BoolType) SetExtraFacets(facets raml.AnyMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExtraFacets() raml.BoolType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 4a9d881..d37a22c 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -86,7 +86,7 @@ func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType
 }
 
 func (o *CustomType) UnsetExamples() raml.CustomType {
-	o.examples = raml.NewCustomExampleMap(0)
+	o.examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *CustomType) SetAnnotations(annotations raml.AnnotationMap) raml.CustomT
 }
 
 func (o *CustomType) UnsetAnnotations() raml.CustomType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *CustomType) SetFacetDefinitions(facets raml.FacetMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetFacetDefinitions() raml.CustomType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *CustomType) SetExtraFacets(facets raml.AnyMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetExtraFacets() raml.CustomType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index dba9391..52d3db4 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -86,7 +86,7 @@ func (o *DateOnlyType) SetExamples(examples raml.DateOnlyExampleMap) raml.DateOn
 }
 
 func (o *DateOnlyType) UnsetExamples() raml.DateOnlyType {
-	o.examples = raml.NewDateOnlyExampleMap(0)
+	o.examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DateOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.DateO
 }
 
 func (o *DateOnlyType) UnsetAnnotations() raml.DateOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DateOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.DateOnlyTy
 }
 
 func (o *DateOnlyType) UnsetFacetDefinitions() raml.DateOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DateOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DateOnlyType {
 }
 
 func (o *DateOnlyType) UnsetExtraFacets() raml.DateOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index e20edcd..fc6566f 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -86,7 +86,7 @@ func (o *DatetimeOnlyType) SetExamples(examples raml.DatetimeOnlyExampleMap) ram
 }
 
 func (o *DatetimeOnlyType) UnsetExamples() raml.DatetimeOnlyType {
-	o.examples = raml.NewDatetimeOnlyExampleMap(0)
+	o.examples = raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DatetimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.D
 }
 
 func (o *DatetimeOnlyType) UnsetAnnotations() raml.DatetimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DatetimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.Dateti
 }
 
 func (o *DatetimeOnlyType) UnsetFacetDefinitions() raml.DatetimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DatetimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeOnlyT
 }
 
 func (o *DatetimeOnlyType) UnsetExtraFacets() raml.DatetimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index da111fa..b6a0f2d 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -87,7 +87,7 @@ func (o *DatetimeType) SetExamples(examples raml.DatetimeExampleMap) raml.Dateti
 }
 
 func (o *DatetimeType) UnsetExamples() raml.DatetimeType {
-	o.examples = raml.NewDatetimeExampleMap(0)
+	o.examples = raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -121,7 +121,7 @@ func (o *DatetimeType) SetAnnotations(annotations raml.AnnotationMap) raml.Datet
 }
 
 func (o *DatetimeType) UnsetAnnotations() raml.DatetimeType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -135,7 +135,7 @@ func (o *DatetimeType) SetFacetDefinitions(facets raml.FacetMap) raml.DatetimeTy
 }
 
 func (o *DatetimeType) UnsetFacetDefinitions() raml.DatetimeType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -173,7 +173,7 @@ func (o *DatetimeType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeType {
 }
 
 func (o *DatetimeType) UnsetExtraFacets() raml.DatetimeType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index f5faa94..b509697 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -92,7 +92,7 @@ func (o *FileType) SetExamples(examples raml.FileExampleMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExamples() raml.FileType {
-	o.examples = raml.NewFileExampleMap(0)
+	o.examples = raml.NewFileExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -126,7 +126,7 @@ func (o *FileType) SetAnnotations(annotations raml.AnnotationMap) raml.FileType
 }
 
 func (o *FileType) UnsetAnnotations() raml.FileType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -140,7 +140,7 @@ func (o *FileType) SetFacetDefinitions(facets raml.FacetMap) raml.FileType {
 }
 
 func (o *FileType) UnsetFacetDefinitions() raml.FileType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -178,7 +178,7 @@ func (o *FileType) SetExtraFacets(facets raml.AnyMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExtraFacets() raml.FileType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index 6761215..6676d2f 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -90,7 +90,7 @@ func (o *IntegerType) SetExamples(examples raml.IntegerExampleMap) raml.IntegerT
 }
 
 func (o *IntegerType) UnsetExamples() raml.IntegerType {
-	o.examples = raml.NewIntegerExampleMap(0)
+	o.examples = raml.NewIntegerExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *IntegerType) SetAnnotations(annotations raml.AnnotationMap) raml.Intege
 }
 
 func (o *IntegerType) UnsetAnnotations() raml.IntegerType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *IntegerType) SetFacetDefinitions(facets raml.FacetMap) raml.IntegerType
 }
 
 func (o *IntegerType) UnsetFacetDefinitions() raml.IntegerType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *IntegerType) SetExtraFacets(facets raml.AnyMap) raml.IntegerType {
 }
 
 func (o *IntegerType) UnsetExtraFacets() raml.IntegerType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 132604a..a33550e 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -90,7 +90,7 @@ func (o *NumberType) SetExamples(examples raml.NumberExampleMap) raml.NumberType
 }
 
 func (o *NumberType) UnsetExamples() raml.NumberType {
-	o.examples = raml.NewNumberExampleMap(0)
+	o.examples = raml.NewNumberExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *NumberType) SetAnnotations(annotations raml.AnnotationMap) raml.NumberT
 }
 
 func (o *NumberType) UnsetAnnotations() raml.NumberType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *NumberType) SetFacetDefinitions(facets raml.FacetMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetFacetDefinitions() raml.NumberType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *NumberType) SetExtraFacets(facets raml.AnyMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetExtraFacets() raml.NumberType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 2f0f0c6..203b5ce 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -95,7 +95,7 @@ func (o *ObjectType) SetExamples(examples raml.ObjectExampleMap) raml.ObjectType
 }
 
 func (o *ObjectType) UnsetExamples() raml.ObjectType {
-	o.examples = raml.NewObjectExampleMap(0)
+	o.examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -129,7 +129,7 @@ func (o *ObjectType) SetAnnotations(annotations raml.AnnotationMap) raml.ObjectT
 }
 
 func (o *ObjectType) UnsetAnnotations() raml.ObjectType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -143,7 +143,7 @@ func (o *ObjectType) SetFacetDefinitions(facets raml.FacetMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetFacetDefinitions() raml.ObjectType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -181,7 +181,7 @@ func (o *ObjectType) SetExtraFacets(facets raml.AnyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetExtraFacets() raml.ObjectType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -204,7 +204,7 @@ func (o *ObjectType) SetProperties(props raml.PropertyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetProperties() raml.ObjectType {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 20554a2..6611bb6 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -91,7 +91,7 @@ func (o *StringType) SetExamples(examples raml.StringExampleMap) raml.StringType
 }
 
 func (o *StringType) UnsetExamples() raml.StringType {
-	o.examples = raml.NewStringExampleMap(0)
+	o.examples = raml.NewStringExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -125,7 +125,7 @@ func (o *StringType) SetAnnotations(annotations raml.AnnotationMap) raml.StringT
 }
 
 func (o *StringType) UnsetAnnotations() raml.StringType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -139,7 +139,7 @@ func (o *StringType) SetFacetDefinitions(facets raml.FacetMap) raml.StringType {
 }
 
 func (o *StringType) UnsetFacetDefinitions() raml.StringType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -177,7 +177,7 @@ func (o *StringType) SetExtraFacets(facets raml.AnyMap) raml.StringType {
 }
 
 func (o *StringType) UnsetExtraFacets() raml.StringType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 9600540..51691e0 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -86,7 +86,7 @@ func (o *TimeOnlyType) SetExamples(examples raml.TimeOnlyExampleMap) raml.TimeOn
 }
 
 func (o *TimeOnlyType) UnsetExamples() raml.TimeOnlyType {
-	o.examples = raml.NewTimeOnlyExampleMap(0)
+	o.examples = raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *TimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.TimeO
 }
 
 func (o *TimeOnlyType) UnsetAnnotations() raml.TimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *TimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.TimeOnlyTy
 }
 
 func (o *TimeOnlyType) UnsetFacetDefinitions() raml.TimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *TimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.TimeOnlyType {
 }
 
 func (o *TimeOnlyType) UnsetExtraFacets() raml.TimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index db1a389..7b0527c 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -86,7 +86,7 @@ func (o *UnionType) SetExamples(examples raml.UnionExampleMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExamples() raml.UnionType {
-	o.examples = raml.NewUnionExampleMap(0)
+	o.examples = raml.NewUnionExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *UnionType) SetAnnotations(annotations raml.AnnotationMap) raml.UnionTyp
 }
 
 func (o *UnionType) UnsetAnnotations() raml.UnionType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *UnionType) SetFacetDefinitions(facets raml.FacetMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetFacetDefinitions() raml.UnionType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *UnionType) SetExtraFacets(facets raml.AnyMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExtraFacets() raml.UnionType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
-- 
2.43.0


From e486dc25f75b6955a978baa50094af0665453908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:07 +0000
Subject: [PATCH 15/28] fix: parse unsigned facets as unsigned values

Negative values silently wrapped around to huge ones, and values over the
largest int64, which can be set and are written, could not be parsed.
---
 v0/internal/util/assign/uint.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/v0/internal/util/assign/uint.go b/v0/internal/util/assign/uint.go
index 98a2d8c..f592551 100644
--- a/v0/internal/util/assign/uint.go
+++ b/v0/internal/util/assign/uint.go
@@ -1,29 +1,47 @@
 package assign
 
 import (
+	"fmt"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strconv"
 )
 
 // Helper function for uint values in assign functions
 func ToUint(v *yaml.Node, ptr *uint) error {
-	if val, err := xyml.ToInt(v, 10); err != nil {
+	if err := xyml.RequireInt(v); err != nil {
 		return err
-	} else {
+	}
+
+	// Values larger than the largest int64 are still valid unsigned values.
+	if val, err := strconv.ParseUint(v.Value, 10, strconv.IntSize); err == nil {
 		*ptr = uint(val)
+		return nil
 	}
 
+	val, err := xyml.ToInt(v, 10)
+	if err != nil {
+		return err
+	}
+	if val < 0 {
+		return fmt.Errorf("expected an unsigned integer, instead got %d @ %d:%d",
+			val, v.Line, v.Column)
+	}
+
+	*ptr = uint(val)
+
 	return nil
 }
 
 // Helper function for uint values in assign functions
 func AsUintPtr(v *yaml.Node, ptr **uint) error {
-	if val, err := xyml.ToInt(v, 10); err != nil {
+	var tmp uint
+
+	if err := ToUint(v, &tmp); err != nil {
 		return err
-	} else {
-		tmp := uint(val)
-		*ptr = &tmp
 	}
 
+	*ptr = &tmp
+
 	return nil
 }
-- 
2.43.0


From 7fa6d1ffe7a2ea4e38a142abb40c85932298eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:51 +0000
Subject: [PATCH 16/28] fix: write untyped example values

Example values of any, object, custom, file and union types were stored as YAML
node structs instead of node pointers, so writing an expanded one failed.
---
 v0/gen/example-m.tpl                | 2 +-
 v0/internal/raml/x-gen-ex-any.go    | 2 +-
 v0/internal/raml/x-gen-ex-custom.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go   | 2 +-
 v0/internal/raml/x-gen-ex-object.go | 2 +-
 v0/internal/raml/x-gen-ex-union.go  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index a830800..8d3de41 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -231,7 +231,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		return nil
 	})
 	{{- else -}}
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 	{{- end}}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index c2d1fcf..a0aba2d 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -189,7 +189,7 @@ func (e *AnyExample) expand() bool {
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index f38b087..e3e681b 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -189,7 +189,7 @@ func (e *CustomExample) expand() bool {
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index c88d168..054982b 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -189,7 +189,7 @@ func (e *FileExample) expand() bool {
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index f45b149..7072074 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -189,7 +189,7 @@ func (e *ObjectExample) expand() bool {
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index a41a06d..5092cd1 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -189,7 +189,7 @@ func (e *UnionExample) expand() bool {
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
-- 
2.43.0


From d881ed4e3190b18551fcd46638ce8be00ea0b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 17/28] fix: write the short form of examples

An example consisting of only a value was written as a map with an empty key
instead of as the bare value.
---
 v0/gen/example-m.tpl                      | 20 +++++++++++++++++---
 v0/internal/raml/x-gen-ex-any.go          | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-array.go        | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-bool.go         | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-custom.go       | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-dateonly.go     | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-datetime.go     | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-datetimeonly.go | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-file.go         | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-integer.go      | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-number.go       | 20 +++++++++++++++++---
 v0/internal/raml/x-gen-ex-object.go       | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-string.go       | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-timeonly.go     | 18 ++++++++++++++++--
 v0/internal/raml/x-gen-ex-union.go        | 18 ++++++++++++++++--
 15 files changed, 242 insertions(+), 32 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 8d3de41..23e19cb 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -112,9 +112,22 @@ func (e *{{.Name}}Example) ExtraFacets() raml.AnyMap {
 
 func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -143,7 +156,7 @@ func (e *{{.Name}}Example) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.Put("", {{if eq .Type "float64"}}(*yamlFloat)(e.value){{else}}e.value{{end}})
 	return true, nil
 }
 
@@ -187,7 +200,8 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 }
 
 func (e *{{.Name}}Example) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index a0aba2d..648782a 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -106,9 +106,22 @@ func (e *AnyExample) ExtraFacets() raml.AnyMap {
 
 func (e AnyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *AnyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index ba6119c..d107c43 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -106,9 +106,22 @@ func (e *ArrayExample) ExtraFacets() raml.AnyMap {
 
 func (e ArrayExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *ArrayExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 02b20e9..0314f18 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -106,9 +106,22 @@ func (e *BoolExample) ExtraFacets() raml.AnyMap {
 
 func (e BoolExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *BoolExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index e3e681b..39ba6b7 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -106,9 +106,22 @@ func (e *CustomExample) ExtraFacets() raml.AnyMap {
 
 func (e CustomExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *CustomExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 8bb4901..6c5f24b 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -106,9 +106,22 @@ func (e *DateOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DateOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DateOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 0ae69e7..e87fd6d 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -106,9 +106,22 @@ func (e *DatetimeExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DatetimeExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index d6ff38f..3794216 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -106,9 +106,22 @@ func (e *DatetimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *DatetimeOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 054982b..fd86a70 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -106,9 +106,22 @@ func (e *FileExample) ExtraFacets() raml.AnyMap {
 
 func (e FileExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *FileExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 87f721b..7c422f8 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -106,9 +106,22 @@ func (e *IntegerExample) ExtraFacets() raml.AnyMap {
 
 func (e IntegerExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *IntegerExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 811362f..9d7237e 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -106,9 +106,22 @@ func (e *NumberExample) ExtraFacets() raml.AnyMap {
 
 func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -137,7 +150,7 @@ func (e *NumberExample) MarshalRAML(out raml.AnyMap) (bool, error) {
 		return false, nil
 	}
 
-	out.Put("", e.value)
+	out.Put("", (*yamlFloat)(e.value))
 	return true, nil
 }
 
@@ -181,7 +194,8 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *NumberExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 7072074..d916104 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -106,9 +106,22 @@ func (e *ObjectExample) ExtraFacets() raml.AnyMap {
 
 func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *ObjectExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 80f1b2e..e65bbd3 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -106,9 +106,22 @@ func (e *StringExample) ExtraFacets() raml.AnyMap {
 
 func (e StringExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *StringExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index b1c98d5..44ea746 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -106,9 +106,22 @@ func (e *TimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e TimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *TimeOnlyExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 5092cd1..07a6737 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -106,9 +106,22 @@ func (e *UnionExample) ExtraFacets() raml.AnyMap {
 
 func (e UnionExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
+	if short {
+		val, _ := out.Get("")
+		node, err := xyml.ToYamlNode(val)
+		if err != nil {
+			return nil, err
+		}
+		// A bare map would be read as the facets of the example.
+		if node.Kind != yaml.MappingNode {
+			return node, nil
+		}
+		out = raml.NewAnyMap(1).SerializeOrdered(false).Put(rmeta.KeyValue, node)
+	}
 	return out.ToYAML()
 }
 
@@ -181,7 +194,8 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 }
 
 func (e *UnionExample) expand() bool {
-	return e.displayName != nil ||
+	return e.value == nil ||
+		e.displayName != nil ||
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-- 
2.43.0


From 24ee5550e8a264298f48c5d7d7d8ca6a944a045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:06 +0000
Subject: [PATCH 18/28] fix: parse the annotation types of a library as
 annotation types

They were put in the annotations of the library instead, from which they were
written as top level facets.
---
 v0/internal/raml/Library.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 5aeb968..c21da48 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -212,7 +212,7 @@ func (l Library) MarshalYAML() (interface{}, error) {
 func (l *Library) assign(k, v *yaml.Node) error {
 	switch k.Value {
 	case rmeta.KeyAnnotationTypes:
-		return UnmarshalAnnotationMapRAML(l.annotations, v)
+		return UnmarshalUntypedMapRAML(l.annotationTypes, v)
 	case rmeta.KeyResourceTypes:
 		return UnmarshalUntypedMapRAML(l.resourceTypes, v)
 	case rmeta.KeyTypes, rmeta.KeySchemas:
-- 
2.43.0


From 558257a4f205eff5b34ed664afa9a189532be4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:31 +0000
Subject: [PATCH 19/28] fix: parse the default facet of data types

The default facet was put in the extra facets, so it was missing from the parsed
type, and a default that was set later was overridden by it on write.
---
 v0/gen/type-m/extended.tpl                   | 22 ++++++++++++++++++++
 v0/internal/raml/x-gen-type-any.go           |  4 ++++
 v0/internal/raml/x-gen-type-array.go         |  6 ++++++
 v0/internal/raml/x-gen-type-bool.go          |  2 ++
 v0/internal/raml/x-gen-type-custom.go        |  4 ++++
 v0/internal/raml/x-gen-type-date-only.go     |  8 +++++++
 v0/internal/raml/x-gen-type-datetime-only.go |  8 +++++++
 v0/internal/raml/x-gen-type-datetime.go      |  8 +++++++
 v0/internal/raml/x-gen-type-file.go          |  4 ++++
 v0/internal/raml/x-gen-type-integer.go       |  2 ++
 v0/internal/raml/x-gen-type-number.go        |  2 ++
 v0/internal/raml/x-gen-type-object.go        |  4 ++++
 v0/internal/raml/x-gen-type-string.go        |  2 ++
 v0/internal/raml/x-gen-type-time-only.go     |  8 +++++++
 v0/internal/raml/x-gen-type-union.go         |  4 ++++
 15 files changed, 88 insertions(+)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 3397e4a..01b129d 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -267,6 +267,28 @@ func (o *{{.Name}}Type) marshal(out raml.AnyMap) error {
 
 func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		{{if eq .Name "DateOnly" "TimeOnly" "DatetimeOnly" "Datetime" -}}
+		if tmp, err := assign.ToDateString(val); err != nil {
+			return err
+		} else {
+			o.def = &tmp
+		}
+
+		return nil
+		{{- else if eq .DefTypeName "Bool" "Float64" "Int64" "String" -}}
+		return assign.As{{.DefTypeName}}Ptr(val, &o.def)
+		{{- else if eq .DefType "[]interface{}" -}}
+		o.def = make([]interface{}, 0, len(val.Content))
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+			return nil
+		})
+		{{- else -}}
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
+		{{- end}}
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 9c06d25..b3df470 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -201,6 +201,10 @@ func (o *AnyType) marshal(out raml.AnyMap) error {
 
 func (o *AnyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index aa686dc..d72c8d2 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -263,6 +263,12 @@ func (o *ArrayType) marshal(out raml.AnyMap) error {
 
 func (o *ArrayType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		o.def = make([]interface{}, 0, len(val.Content))
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+			return nil
+		})
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 01c67cb..d0bd813 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -201,6 +201,8 @@ func (o *BoolType) marshal(out raml.AnyMap) error {
 
 func (o *BoolType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsBoolPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index d37a22c..9651574 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -201,6 +201,10 @@ func (o *CustomType) marshal(out raml.AnyMap) error {
 
 func (o *CustomType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 52d3db4..dcbf906 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -201,6 +201,14 @@ func (o *DateOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		if tmp, err := assign.ToDateString(val); err != nil {
+			return err
+		} else {
+			o.def = &tmp
+		}
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index fc6566f..e22e706 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -201,6 +201,14 @@ func (o *DatetimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		if tmp, err := assign.ToDateString(val); err != nil {
+			return err
+		} else {
+			o.def = &tmp
+		}
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index b6a0f2d..03bbf7a 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -216,6 +216,14 @@ func (o *DatetimeType) marshal(out raml.AnyMap) error {
 
 func (o *DatetimeType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		if tmp, err := assign.ToDateString(val); err != nil {
+			return err
+		} else {
+			o.def = &tmp
+		}
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index b509697..fc68c6e 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -247,6 +247,10 @@ func (o *FileType) marshal(out raml.AnyMap) error {
 
 func (o *FileType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index 6676d2f..9b925b2 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -264,6 +264,8 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 
 func (o *IntegerType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsInt64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index a33550e..792bd6c 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -264,6 +264,8 @@ func (o *NumberType) marshal(out raml.AnyMap) error {
 
 func (o *NumberType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsFloat64Ptr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 203b5ce..a2450d7 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -304,6 +304,10 @@ func (o *ObjectType) marshal(out raml.AnyMap) error {
 
 func (o *ObjectType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 6611bb6..c0c0866 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -247,6 +247,8 @@ func (o *StringType) marshal(out raml.AnyMap) error {
 
 func (o *StringType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 51691e0..a7adfa7 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -201,6 +201,14 @@ func (o *TimeOnlyType) marshal(out raml.AnyMap) error {
 
 func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		if tmp, err := assign.ToDateString(val); err != nil {
+			return err
+		} else {
+			o.def = &tmp
+		}
+
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index 7b0527c..1d9b1da 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -201,6 +201,10 @@ func (o *UnionType) marshal(out raml.AnyMap) error {
 
 func (o *UnionType) assign(key, val *yaml.Node) error {
 	switch key.Value {
+	case rmeta.KeyDefault:
+		var tmp interface{} = val
+		o.def = &tmp
+		return nil
 	case rmeta.KeyExample:
 		if ex, err := ExampleSortingHat(o.kind); err != nil {
 			return err
-- 
2.43.0


From e65831ae307ad5618bd933ad8dae470686d6a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:15 +0000
Subject: [PATCH 20/28] fix: render a data type with ToRAML instead of
 panicking

---
 v0/internal/raml/DataType.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 70c3338..4c0c649 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"github.com/sirupsen/logrus"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 func NewDataType(kind rmeta.DataTypeKind, self concreteType) *DataType {
@@ -44,7 +45,15 @@ func (d *DataType) Kind() rmeta.DataTypeKind {
 }
 
 func (d *DataType) ToRAML() (string, error) {
-	panic("implement me")
+	out := strings.Builder{}
+	enc := yaml.NewEncoder(&out)
+	enc.SetIndent(2)
+
+	if err := enc.Encode(d); err != nil {
+		return "", err
+	}
+
+	return out.String(), nil
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0


From 1bf1aacd6196d55ccd9e1ae4feccfe83f0b79e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:01 +0000
Subject: [PATCH 21/28] fix: write formats that are not the internal
 implementation

The formats of number, integer and datetime types are interfaces, but writing
any implementation other than the internal ones panicked or failed.
---
 v0/gen/type-m/datetime.tpl              | 5 ++++-
 v0/gen/type-m/integer.tpl               | 7 +++++--
 v0/gen/type-m/number.tpl                | 7 +++++--
 v0/internal/raml/x-gen-type-datetime.go | 4 +++-
 v0/internal/raml/x-gen-type-integer.go  | 7 +++++--
 v0/internal/raml/x-gen-type-number.go   | 7 +++++--
 6 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/v0/gen/type-m/datetime.tpl b/v0/gen/type-m/datetime.tpl
index abc0b0b..5cf6756 100644
--- a/v0/gen/type-m/datetime.tpl
+++ b/v0/gen/type-m/datetime.tpl
@@ -41,7 +41,10 @@ func (o *{{.Name}}Type) UnsetFormat() raml.{{.Name}}Type {
 
 func (o {{.Name}}Type) marshal(out raml.AnyMap) error {
 	{{define "datetime-marshal" -}}
-	out.PutIfNotNil(rmeta.KeyFormat, o.format)
+	if o.format != nil {
+		out.Put(rmeta.KeyFormat, o.format.String())
+	}
+
 	{{- end}}
 }
 
diff --git a/v0/gen/type-m/integer.tpl b/v0/gen/type-m/integer.tpl
index 681be2e..1ae13e9 100644
--- a/v0/gen/type-m/integer.tpl
+++ b/v0/gen/type-m/integer.tpl
@@ -27,8 +27,11 @@ type Bar struct {
 
 func (o {{.Name}}Type) marshal(out raml.AnyMap) error {
 	{{define "integer-marshal" -}}
-	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
+	if o.format != nil {
+		out.Put(rmeta.KeyFormat, o.format.String())
+	}
+
+	out.PutIfNotNil(rmeta.KeyMinimum, o.minimum).
 		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
 		PutIfNotNil(rmeta.KeyMultipleOf, (*yamlFloat)(o.multipleOf))
 	{{- end}}
diff --git a/v0/gen/type-m/number.tpl b/v0/gen/type-m/number.tpl
index 2b1da1f..3988b6c 100644
--- a/v0/gen/type-m/number.tpl
+++ b/v0/gen/type-m/number.tpl
@@ -27,8 +27,11 @@ type Bar struct {
 
 func (o {{.Name}}Type) marshal(out raml.AnyMap) error {
 	{{define "number-marshal" -}}
-	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, (*yamlFloat)(o.minimum)).
+	if o.format != nil {
+		out.Put(rmeta.KeyFormat, o.format.String())
+	}
+
+	out.PutIfNotNil(rmeta.KeyMinimum, (*yamlFloat)(o.minimum)).
 		PutIfNotNil(rmeta.KeyMaximum, (*yamlFloat)(o.maximum)).
 		PutIfNotNil(rmeta.KeyMultipleOf, (*yamlFloat)(o.multipleOf))
 	{{- end}}
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 03bbf7a..d8a1c16 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -203,7 +203,9 @@ func (o *DatetimeType) marshal(out raml.AnyMap) error {
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
 	}
-	out.PutIfNotNil(rmeta.KeyFormat, o.format)
+	if o.format != nil {
+		out.Put(rmeta.KeyFormat, o.format.String())
+	}
 	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
 		PutIfNotNil(rmeta.KeyExample, o.example)
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index 9b925b2..c7ba947 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -248,8 +248,11 @@ func (o *IntegerType) marshal(out raml.AnyMap) error {
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
 	}
-	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, o.minimum).
+	if o.format != nil {
+		out.Put(rmeta.KeyFormat, o.format.String())
+	}
+
+	out.PutIfNotNil(rmeta.KeyMinimum, o.minimum).
 		PutIfNotNil(rmeta.KeyMaximum, o.maximum).
 		PutIfNotNil(rmeta.KeyMultipleOf, (*yamlFloat)(o.multipleOf))
 	out.PutIfNotNil(rmeta.KeyEnum, o.enum).
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 792bd6c..5e2da58 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -248,8 +248,11 @@ func (o *NumberType) marshal(out raml.AnyMap) error {
 	if err := o.ExtendedDataType.marshal(out); err != nil {
 		return err
 	}
-	out.PutIfNotNil(rmeta.KeyFormat, o.format).
-		PutIfNotNil(rmeta.KeyMinimum, (*yamlFloat)(o.minimum)).
+	if o.format != nil {
+		out.Put(rmeta.KeyFormat, o.format.String())
+	}
+
+	out.PutIfNotNil(rmeta.KeyMinimum, (*yamlFloat)(o.minimum)).
 		PutIfNotNil(rmeta.KeyMaximum, (*yamlFloat)(o.maximum)).
 		PutIfNotNil(rmeta.KeyMultipleOf, (*yamlFloat)(o.multipleOf))
 	out.PutIfNotNil(rmeta.KeyEnum, yamlFloats(o.enum)).
-- 
2.43.0


From f9b2f049c29c9764f30f447dca889a847df0efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:51 +0000
Subject: [PATCH 22/28] fix: keep the sign of a negative zero

---
 v0/internal/raml/in-float.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0/internal/raml/in-float.go b/v0/internal/raml/in-float.go
index 7980ba6..89fa035 100644
--- a/v0/internal/raml/in-float.go
+++ b/v0/internal/raml/in-float.go
@@ -21,6 +21,9 @@ func (f yamlFloat) ToYAML() (*yaml.Node, error) {
 		out.Value = ".inf"
 	case math.IsInf(val, -1):
 		out.Value = "-.inf"
+	case val == 0 && math.Signbit(val):
+		// YAML reads -0 as the integer zero, which has no sign.
+		out.Value = "-0.0"
 	}
 
 	return out, nil
-- 
2.43.0


From c10e857757addfb2daec5ee4445658c126671ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:45 +0000
Subject: [PATCH 23/28] fix: report a failing reader instead of panicking

The YAML library may panic when the reader it parses from fails part way
through a document.  Read the input before it is decoded, so that the error of
the reader is what the caller gets.
---
 v0/pkg/raml/rparse/decode.go    | 23 +++++++++++++++++++++++
 v0/pkg/raml/rparse/parse-api.go |  4 +---
 v0/pkg/raml/rparse/parse-lib.go |  4 +---
 3 files changed, 25 insertions(+), 6 deletions(-)
 create mode 100644 v0/pkg/raml/rparse/decode.go

diff --git a/v0/pkg/raml/rparse/decode.go b/v0/pkg/raml/rparse/decode.go
new file mode 100644
index 0000000..35ef99c
--- /dev/null
+++ b/v0/pkg/raml/rparse/decode.go
@@ -0,0 +1,23 @@
+package rparse
+
+import (
+	"bytes"
+	"io"
+	"io/ioutil"
+
+	"gopkg.in/yaml.v3"
+)
+
+// decode reads all of the given reader and decodes the first YAML document found
+// into the given target.
+//
+// The input is read up front as the YAML library may panic when its reader fails
+// part way through a document.
+func decode(red io.Reader, out yaml.Unmarshaler) error {
+	raw, err := ioutil.ReadAll(red)
+	if err != nil {
+		return err
+	}
+
+	return yaml.NewDecoder(bytes.NewReader(raw)).Decode(out)
+}
diff --git a/v0/pkg/raml/rparse/parse-api.go b/v0/pkg/raml/rparse/parse-api.go
index cf1e7bd..10b9dc5 100644
--- a/v0/pkg/raml/rparse/parse-api.go
+++ b/v0/pkg/raml/rparse/parse-api.go
@@ -2,7 +2,6 @@ package rparse
 
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
 
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
@@ -10,9 +9,8 @@ import (
 
 func ParseApiDoc(red io.Reader) (raml.APISpec, error) {
 	out := impl.NewApiSpec()
-	dec := yaml.NewDecoder(red)
 
-	if err := dec.Decode(out); err != nil {
+	if err := decode(red, out); err != nil {
 		return nil, err
 	}
 
diff --git a/v0/pkg/raml/rparse/parse-lib.go b/v0/pkg/raml/rparse/parse-lib.go
index e4262fc..23ef193 100644
--- a/v0/pkg/raml/rparse/parse-lib.go
+++ b/v0/pkg/raml/rparse/parse-lib.go
@@ -3,15 +3,13 @@ package rparse
 import (
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
 )
 
 func ParseLibrary(red io.Reader) (raml.Library, error) {
 	out := impl.NewLibrary()
-	dec := yaml.NewDecoder(red)
 
-	if err := dec.Decode(out); err != nil && err != io.EOF {
+	if err := decode(red, out); err != nil && err != io.EOF {
 		return nil, err
 	}
 
-- 
2.43.0


From ea422843f9f6dd79210cc6ecce3f7660f62f1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 24/28] fix: report malformed YAML as an error instead of
 panicking

The YAML library panics instead of returning an error on some malformed inputs,
such as invalid UTF-8 right after a token.  Parse the input on its own first, and
return such a panic as an error.  Panics while the parsed document is decoded are
not recovered from.
---
 v0/pkg/raml/rparse/decode.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/v0/pkg/raml/rparse/decode.go b/v0/pkg/raml/rparse/decode.go
index 35ef99c..6b98b3c 100644
--- a/v0/pkg/raml/rparse/decode.go
+++ b/v0/pkg/raml/rparse/decode.go
@@ -2,6 +2,7 @@ package rparse
 
 import (
 	"bytes"
+	"fmt"
 	"io"
 	"io/ioutil"
 
@@ -19,5 +20,29 @@ func decode(red io.Reader, out yaml.Unmarshaler) error {
 		return err
 	}
 
-	return yaml.NewDecoder(bytes.NewReader(raw)).Decode(out)
+	doc, err := parse(raw)
+	if err != nil {
+		return err
+	}
+
+	return doc.Decode(out)
+}
+
+// parse parses the first YAML document in the given input.
+//
+// The YAML library panics on some malformed inputs, for which an error is
+// returned here.
+func parse(raw []byte) (doc *yaml.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			doc, err = nil, fmt.Errorf("malformed yaml: %v", e)
+		}
+	}()
+
+	doc = new(yaml.Node)
+	if err = yaml.NewDecoder(bytes.NewReader(raw)).Decode(doc); err != nil {
+		return nil, err
+	}
+
+	return doc, nil
 }
-- 
2.43.0


From dd7ca3d9e7c39b0c8505fdad8bfe02f7196270da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 25/28] fix: write aliases after their anchors

Writing a document changes the order of its facets and drops the anchors of
typed facets.  An alias in an untyped value could end up before its anchor or
without one, and what was written could not be read back.
---
 v0/internal/raml/APISpec.go    |  7 ++-
 v0/internal/raml/DataType.go   |  7 ++-
 v0/internal/raml/Library.go    |  7 ++-
 v0/internal/raml/util-alias.go | 89 ++++++++++++++++++++++++++++++++++
 4 files changed, 107 insertions(+), 3 deletions(-)
 create mode 100644 v0/internal/raml/util-alias.go

diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index bfaac61..1fa4b66 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -347,7 +347,12 @@ func (a APISpec) MarshalYAML() (interface{}, error) {
 		out.Put(rmeta.KeyTypes, a.types)
 	}
 
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil {
+		return nil, err
+	}
+
+	return resolveAliases(node), nil
 }
 
 func (a *APISpec) UnmarshalYAML(raw *yaml.Node) error {
diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 4c0c649..9411987 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -70,7 +70,12 @@ func (d DataType) ToYAML() (*yaml.Node, error) {
 }
 
 func (d DataType) MarshalYAML() (interface{}, error) {
-	return d.ToYAML()
+	node, err := d.ToYAML()
+	if err != nil {
+		return nil, err
+	}
+
+	return resolveAliases(node), nil
 }
 
 func (d *DataType) MarshalRAML(out raml.AnyMap) (bool, error) {
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index c21da48..418074b 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -206,7 +206,12 @@ func (l Library) MarshalYAML() (interface{}, error) {
 		out.Put(rmeta.KeyTypes, l.types)
 	}
 
-	return out, nil
+	node, err := out.ToYAML()
+	if err != nil {
+		return nil, err
+	}
+
+	return resolveAliases(node), nil
 }
 
 func (l *Library) assign(k, v *yaml.Node) error {
diff --git a/v0/internal/raml/util-alias.go b/v0/internal/raml/util-alias.go
new file mode 100644
index 0000000..31f104a
--- /dev/null
+++ b/v0/internal/raml/util-alias.go
@@ -0,0 +1,89 @@
+package raml
+
+import (
+	"gopkg.in/yaml.v3"
+)
+
+// resolveAliases returns the given YAML tree with every alias in it preceded by
+// the anchor it refers to.
+//
+// Facets are not written in the order in which they were read and typed values
+// are written without their anchors, so an alias in an untyped value may have
+// lost its anchor or come before it.  The first alias to such an anchor is
+// replaced with what it refers to.
+//
+// The given nodes are not changed.
+func resolveAliases(root *yaml.Node) *yaml.Node {
+	if !hasAlias(root) {
+		return root
+	}
+
+	a := aliases{
+		done:  make(map[*yaml.Node]*yaml.Node),
+		names: make(map[string]bool),
+	}
+
+	return a.copy(root)
+}
+
+func hasAlias(n *yaml.Node) bool {
+	if n.Kind == yaml.AliasNode {
+		return true
+	}
+
+	for _, c := range n.Content {
+		if hasAlias(c) {
+			return true
+		}
+	}
+
+	return false
+}
+
+type aliases struct {
+	// done holds the copies of the anchored nodes that were seen so far.
+	done  map[*yaml.Node]*yaml.Node
+	names map[string]bool
+}
+
+func (a *aliases) copy(n *yaml.Node) *yaml.Node {
+	out := *n
+
+	anchor := n.Anchor
+
+	if n.Kind == yaml.AliasNode && n.Alias != nil {
+		if target, ok := a.done[n.Alias]; ok {
+			out.Value = target.Anchor
+			out.Alias = target
+			return &out
+		}
+
+		anchor = n.Value
+		n = n.Alias
+		out = *n
+	}
+
+	out.Anchor = ""
+	if _, ok := a.done[n]; !ok && anchor != "" {
+		out.Anchor = a.name(anchor)
+		a.done[n] = &out
+	}
+
+	out.Content = make([]*yaml.Node, len(n.Content))
+	for i := range n.Content {
+		out.Content[i] = a.copy(n.Content[i])
+	}
+
+	return &out
+}
+
+// name returns an anchor name that was not used before.
+func (a *aliases) name(name string) string {
+	for a.names[name] {
+		name += "_"
+	}
+
+	a.names[name] = true
+
+	return name
+}
-- 
2.43.0


From 9649987bfd6ac4e24ac366de84889235977db075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 26/28] fix: keep what replaces an alias out of flow
 collections

---
 v0/internal/raml/util-alias.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/v0/internal/raml/util-alias.go b/v0/internal/raml/util-alias.go
index 31f104a..c26b5e1 100644
--- a/v0/internal/raml/util-alias.go
+++ b/v0/internal/raml/util-alias.go
@@ -44,6 +44,9 @@ type aliases struct {
 	// done holds the copies of the anchored nodes that were seen so far.
 	done  map[*yaml.Node]*yaml.Node
 	names map[string]bool
+
+	// replaced is the number of aliases that were replaced so far.
+	replaced int
 }
 
 func (a *aliases) copy(n *yaml.Node) *yaml.Node {
@@ -61,8 +64,11 @@ func (a *aliases) copy(n *yaml.Node) *yaml.Node {
 		anchor = n.Value
 		n = n.Alias
 		out = *n
+		a.replaced++
 	}
 
+	replaced := a.replaced
+
 	out.Anchor = ""
 	if _, ok := a.done[n]; !ok && anchor != "" {
 		out.Anchor = a.name(anchor)
@@ -74,6 +80,13 @@ func (a *aliases) copy(n *yaml.Node) *yaml.Node {
 		out.Content[i] = a.copy(n.Content[i])
 	}
 
+	// What replaces an alias need not have a form that a flow collection can
+	// hold, an empty null for example.  A block collection has no line comment.
+	if a.replaced != replaced && out.Style&yaml.FlowStyle != 0 {
+		out.Style &^= yaml.FlowStyle
+		out.LineComment = ""
+	}
+
 	return &out
 }
 
-- 
2.43.0


From e679d453841508a1b5015c6388aaa010e98f0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 27/28] fix: leave comments behind when an alias is replaced

What replaces an alias took the comments of the anchored node along, the
header of the document for example.
---
 v0/internal/raml/util-alias.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/util-alias.go b/v0/internal/raml/util-alias.go
index c26b5e1..aa9d35d 100644
--- a/v0/internal/raml/util-alias.go
+++ b/v0/internal/raml/util-alias.go
@@ -62,8 +62,10 @@ func (a *aliases) copy(n *yaml.Node) *yaml.Node {
 		}
 
 		anchor = n.Value
+		out = *n.Alias
+		// Comments are about a place, not about what is there.
+		out.HeadComment, out.LineComment, out.FootComment = n.HeadComment, n.LineComment, n.FootComment
 		n = n.Alias
-		out = *n
 		a.replaced++
 	}
 
-- 
2.43.0


From dbcc539f04764775d3afca445d79b505df387cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:45 +0000
Subject: [PATCH 28/28] fix: leave the line comments of aliases that are
 replaced out

An alias may have a line comment where the block that replaces it cannot:
the YAML library made the comment a part of the text, or wrote it at the
next scalar, and the document could not be read any more.
---
 v0/internal/raml/util-alias.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/util-alias.go b/v0/internal/raml/util-alias.go
index aa9d35d..a8fcb2a 100644
--- a/v0/internal/raml/util-alias.go
+++ b/v0/internal/raml/util-alias.go
@@ -63,8 +63,9 @@ func (a *aliases) copy(n *yaml.Node) *yaml.Node {
 
 		anchor = n.Value
 		out = *n.Alias
-		// Comments are about a place, not about what is there.
-		out.HeadComment, out.LineComment, out.FootComment = n.HeadComment, n.LineComment, n.FootComment
+		// Comments are about a place, not about what is there.  Blocks have no line
+		// comments.
+		out.HeadComment, out.LineComment, out.FootComment = n.HeadComment, "", n.FootComment
 		n = n.Alias
 		a.replaced++
 	}
-- 
2.43.0

