From 527ba005692933a9fba732607634816ceecb4cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:48 +0000
Subject: [PATCH 01/24] fix: do not panic on empty mapping keys while parsing

---
 v0/gen/example-m.tpl                      | 2 +-
 v0/internal/raml/APISpec.go               | 4 ++--
 v0/internal/raml/Library.go               | 2 +-
 v0/internal/raml/in-components.go         | 2 +-
 v0/internal/raml/x-gen-ex-any.go          | 2 +-
 v0/internal/raml/x-gen-ex-array.go        | 2 +-
 v0/internal/raml/x-gen-ex-bool.go         | 2 +-
 v0/internal/raml/x-gen-ex-custom.go       | 2 +-
 v0/internal/raml/x-gen-ex-dateonly.go     | 2 +-
 v0/internal/raml/x-gen-ex-datetime.go     | 2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go         | 2 +-
 v0/internal/raml/x-gen-ex-integer.go      | 2 +-
 v0/internal/raml/x-gen-ex-number.go       | 2 +-
 v0/internal/raml/x-gen-ex-object.go       | 2 +-
 v0/internal/raml/x-gen-ex-string.go       | 2 +-
 v0/internal/raml/x-gen-ex-timeonly.go     | 2 +-
 v0/internal/raml/x-gen-ex-union.go        | 2 +-
 18 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index e2d59fa..224b623 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -157,7 +157,7 @@ func (e *{{.Name}}Example) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index c361b69..76dadd5 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -379,7 +379,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '(' {
+	if len(k.Value) > 0 && k.Value[0] == '(' {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
@@ -388,7 +388,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 		return nil
 	}
 
-	if k.Value[0] == '/' {
+	if len(k.Value) > 0 && k.Value[0] == '/' {
 		a.resources.Put(k.Value, v)
 		return nil
 	}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index dc1be5e..656ed53 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -227,7 +227,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 		return UnmarshalUntypedMapRAML(l.securitySchemes, v)
 	}
 
-	if xyml.IsString(k) && k.Value[0] == '(' {
+	if xyml.IsString(k) && len(k.Value) > 0 && k.Value[0] == '(' {
 		tmp := raml.NewUntypedMap(len(v.Content) / 2)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index 62b84b1..aca3195 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -24,7 +24,7 @@ func (h *hasAnnotations) out(out raml.AnyMap) {
 }
 
 func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
-	if k[0] != '(' {
+	if len(k) == 0 || k[0] != '(' {
 		return false, nil
 	}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index f6f00e3..82c1962 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -151,7 +151,7 @@ func (e *AnyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index b2b7c78..70a3972 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -151,7 +151,7 @@ func (e *ArrayExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 57d54a0..b5374cc 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -151,7 +151,7 @@ func (e *BoolExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 1b2921e..45cdb62 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -151,7 +151,7 @@ func (e *CustomExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 978a154..efd0e53 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -151,7 +151,7 @@ func (e *DateOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 41892ba..785a030 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -151,7 +151,7 @@ func (e *DatetimeExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index ea01bed..4485726 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -151,7 +151,7 @@ func (e *DatetimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 06f99d5..e2f9600 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -151,7 +151,7 @@ func (e *FileExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index cd98696..968e66a 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -151,7 +151,7 @@ func (e *IntegerExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 5c644a6..a4015f1 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -151,7 +151,7 @@ func (e *NumberExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 28d8833..30bdf11 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -151,7 +151,7 @@ func (e *ObjectExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 6b7ae17..7620fed 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -151,7 +151,7 @@ func (e *StringExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index c499f36..993ca69 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -151,7 +151,7 @@ func (e *TimeOnlyExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 6a23242..4a007e9 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -151,7 +151,7 @@ func (e *UnionExample) assign(key, val *yaml.Node) error {
 		return nil
 	}
 
-	if key.Value[0] == '(' {
+	if len(key.Value) > 0 && key.Value[0] == '(' {
 		tmp := NewAnnotation()
 		if err := UnmarshalUntypedMapRAML(tmp, val); err != nil {
 			return err
-- 
2.43.0


From 125905c51a7f26dcb14ca12b75965c70bdc11ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:12 +0000
Subject: [PATCH 02/24] fix: make documentation items writable

---
 v0/internal/raml/Documentation.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index f4e5858..3c448aa 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -46,6 +46,15 @@ func (d *Documentation) MarshalRAML(out raml.AnyMap) (simple bool, err error) {
 	return false, nil
 }
 
+// ToYAML converts the documentation item to a YAML mapping.
+func (d Documentation) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(2 + d.extra.Len()).SerializeOrdered(false)
+	if _, err := d.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
-- 
2.43.0


From 29faacf8bda2f6ba26f78a78a67b83a5c2efbbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 03/24] fix: reject documentation titles and contents that are
 not strings

---
 v0/internal/raml/Documentation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/Documentation.go b/v0/internal/raml/Documentation.go
index 3c448aa..295fa75 100644
--- a/v0/internal/raml/Documentation.go
+++ b/v0/internal/raml/Documentation.go
@@ -1,6 +1,7 @@
 package raml
 
 import (
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
@@ -59,9 +60,9 @@ func (d *Documentation) UnmarshalRAML(val *yaml.Node) error {
 	return xyml.MapForEach(val, func(k, v *yaml.Node) error {
 		switch k.Value {
 		case rmeta.KeyTitle:
-			d.title = v.Value
+			return assign.AsString(v, &d.title)
 		case rmeta.KeyContent:
-			d.content = v.Value
+			return assign.AsString(v, &d.content)
 		default:
 			if key, err := xyml.ToScalarValue(k); err != nil {
 				return err
-- 
2.43.0


From 304eef23c8ccedbd1670b014b63898445a4a17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 04/24] fix: read library annotation types into the annotation
 types

---
 v0/internal/raml/Library.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 656ed53..396f198 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -212,7 +212,7 @@ func (l Library) MarshalYAML() (interface{}, error) {
 func (l *Library) assign(k, v *yaml.Node) error {
 	switch k.Value {
 	case rmeta.KeyAnnotationTypes:
-		return UnmarshalAnnotationMapRAML(l.annotations, v)
+		return UnmarshalUntypedMapRAML(l.annotationTypes, v)
 	case rmeta.KeyResourceTypes:
 		return UnmarshalUntypedMapRAML(l.resourceTypes, v)
 	case rmeta.KeyTypes, rmeta.KeySchemas:
-- 
2.43.0


From d0034818fc975b4665ab3b04c73c9e8a81564cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:22 +0000
Subject: [PATCH 05/24] fix: support examples on types of kind any

---
 v0/internal/raml/fn-sorting-hat-example.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0/internal/raml/fn-sorting-hat-example.go b/v0/internal/raml/fn-sorting-hat-example.go
index 7c85223..ecc6054 100644
--- a/v0/internal/raml/fn-sorting-hat-example.go
+++ b/v0/internal/raml/fn-sorting-hat-example.go
@@ -13,6 +13,8 @@ func ExampleSortingHat(kind rmeta.DataTypeKind) (raml.Example, error) {
 	logrus.Trace("internal.ExampleSortingHat")
 
 	switch kind {
+	case rmeta.TypeAny:
+		return NewAnyExample(), nil
 	case rmeta.TypeString:
 		return NewStringExample(), nil
 	case rmeta.TypeObject:
-- 
2.43.0


From bd07170a1a66c8488c5cae967877861b20910a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:58 +0000
Subject: [PATCH 06/24] fix: treat an empty type declaration as a string type

---
 v0/internal/raml/fn-sorting-hat-type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index a7b0b8b..ec01c09 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -50,7 +50,7 @@ func TypeSortingHat(val *yaml.Node) (out raml.DataType, err error) {
 		return out, nil
 	}
 
-	if util.IsNil(val) {
+	if util.IsNil(val) || xyml.IsNilType(val) {
 		return NewStringType(), nil
 	}
 
-- 
2.43.0


From 8dc59dca881c2f5dbc34017854e11f1784693047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 07/24] fix: read and write type facets that are includes

---
 v0/internal/raml/DataType.go            | 7 +++++++
 v0/internal/raml/fn-sorting-hat-type.go | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 70c3338..aac04a6 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -7,6 +7,7 @@ import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"github.com/sirupsen/logrus"
 	"gopkg.in/yaml.v3"
+	"strings"
 )
 
 func NewDataType(kind rmeta.DataTypeKind, self concreteType) *DataType {
@@ -100,8 +101,14 @@ func (d *DataType) marshal(out raml.AnyMap) error {
 func (d *DataType) assign(key, val *yaml.Node) error {
 	switch key.Value {
 	case rmeta.KeyType, rmeta.KeySchema:
+		if d.kind == rmeta.TypeInclude && xyml.IsScalar(val) && val.Tag == "!include" {
+			d.schema = val.Value
+			return nil
+		}
 		if err := xyml.RequireString(val); err != nil {
 			return err
+		} else if d.kind == rmeta.TypeInclude {
+			d.schema = strings.TrimPrefix(val.Value, includePrefix)
 		} else {
 			d.schema = val.Value
 		}
diff --git a/v0/internal/raml/fn-sorting-hat-type.go b/v0/internal/raml/fn-sorting-hat-type.go
index ec01c09..da22634 100644
--- a/v0/internal/raml/fn-sorting-hat-type.go
+++ b/v0/internal/raml/fn-sorting-hat-type.go
@@ -10,6 +10,8 @@ import (
 	"strings"
 )
 
+const includePrefix = "!include "
+
 const (
 	multiTypeNotAllowed = "multi-type definitions are not currently supported " +
 		"%d:%d"
@@ -89,9 +91,9 @@ func typeToKind(val string) concreteType {
 		return NewTimeOnlyType()
 	}
 
-	if strings.HasPrefix(val, "!include ") {
+	if strings.HasPrefix(val, includePrefix) {
 		out := NewIncludeType()
-		out.schema = val
+		out.schema = strings.TrimPrefix(val, includePrefix)
 		return out
 	}
 
-- 
2.43.0


From 7dd96cb1440c6c18745a7cfc362ea1b7e580ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 08/24] fix: implement ToRAML for data types

---
 v0/internal/raml/DataType.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index aac04a6..33842dc 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -45,7 +45,13 @@ func (d *DataType) Kind() rmeta.DataTypeKind {
 }
 
 func (d *DataType) ToRAML() (string, error) {
-	panic("implement me")
+	node, err := d.ToYAML()
+	if err != nil {
+		return "", err
+	}
+
+	out, err := yaml.Marshal(node)
+	return string(out), err
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0


From ddcfa70b3b7ad39add2f3472f4ea78c9a281f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 09/24] fix: do not panic on properties of type nil or include

---
 v0/internal/raml/DataType.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 33842dc..4e6c0fb 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -44,6 +44,23 @@ func (d *DataType) Kind() rmeta.DataTypeKind {
 	return d.kind
 }
 
+// Required returns the value of the required facet of types that have no such
+// facet of their own.
+func (d *DataType) Required() bool {
+	if raw, ok := d.ExtraFacets().Get(rmeta.KeyRequired); ok {
+		if val, ok := raw.(bool); ok {
+			return val
+		}
+		if node, ok := raw.(*yaml.Node); ok {
+			if val, err := xyml.ToBoolean(node); err == nil {
+				return val
+			}
+		}
+	}
+
+	return true
+}
+
 func (d *DataType) ToRAML() (string, error) {
 	node, err := d.ToYAML()
 	if err != nil {
-- 
2.43.0


From e08fce3e8645f048d774f326f65dbacba56a0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 10/24] fix: do not write library-created collections as tagged
 ordered maps

---
 v0/gen/example-m.tpl                         |  2 +-
 v0/gen/type-m/extended.tpl                   |  8 ++++----
 v0/gen/type-m/object.tpl                     |  2 +-
 v0/internal/raml/APISpec.go                  | 18 +++++++++---------
 v0/internal/raml/Library.go                  | 12 ++++++------
 v0/internal/raml/annotation.go               |  2 +-
 v0/internal/raml/in-components.go            |  2 +-
 v0/internal/raml/type-datatype-ext.go        |  2 +-
 v0/internal/raml/type-facet.go               |  2 +-
 v0/internal/raml/x-gen-ex-any.go             |  2 +-
 v0/internal/raml/x-gen-ex-array.go           |  2 +-
 v0/internal/raml/x-gen-ex-bool.go            |  2 +-
 v0/internal/raml/x-gen-ex-custom.go          |  2 +-
 v0/internal/raml/x-gen-ex-dateonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetime.go        |  2 +-
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  2 +-
 v0/internal/raml/x-gen-ex-file.go            |  2 +-
 v0/internal/raml/x-gen-ex-integer.go         |  2 +-
 v0/internal/raml/x-gen-ex-number.go          |  2 +-
 v0/internal/raml/x-gen-ex-object.go          |  2 +-
 v0/internal/raml/x-gen-ex-string.go          |  2 +-
 v0/internal/raml/x-gen-ex-timeonly.go        |  2 +-
 v0/internal/raml/x-gen-ex-union.go           |  2 +-
 v0/internal/raml/x-gen-type-any.go           |  8 ++++----
 v0/internal/raml/x-gen-type-array.go         |  8 ++++----
 v0/internal/raml/x-gen-type-bool.go          |  8 ++++----
 v0/internal/raml/x-gen-type-custom.go        |  8 ++++----
 v0/internal/raml/x-gen-type-date-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-datetime-only.go |  8 ++++----
 v0/internal/raml/x-gen-type-datetime.go      |  8 ++++----
 v0/internal/raml/x-gen-type-file.go          |  8 ++++----
 v0/internal/raml/x-gen-type-integer.go       |  8 ++++----
 v0/internal/raml/x-gen-type-number.go        |  8 ++++----
 v0/internal/raml/x-gen-type-object.go        | 10 +++++-----
 v0/internal/raml/x-gen-type-string.go        |  8 ++++----
 v0/internal/raml/x-gen-type-time-only.go     |  8 ++++----
 v0/internal/raml/x-gen-type-union.go         |  8 ++++----
 37 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 224b623..3846a28 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -75,7 +75,7 @@ func (e *{{.Name}}Example) SetAnnotations(ann raml.AnnotationMap) raml.{{.Name}}
 }
 
 func (e *{{.Name}}Example) UnsetAnnotations() raml.{{.Name}}Example {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 221fcfd..d2aabe9 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -122,7 +122,7 @@ func (o *{{.Name}}Type) SetExamples(examples raml.{{.Name}}ExampleMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetExamples() raml.{{.Name}}Type {
-	o.examples = raml.New{{.Name}}ExampleMap(0)
+	o.examples = raml.New{{.Name}}ExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -156,7 +156,7 @@ func (o *{{.Name}}Type) SetAnnotations(annotations raml.AnnotationMap) raml.{{.N
 }
 
 func (o *{{.Name}}Type) UnsetAnnotations() raml.{{.Name}}Type {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -170,7 +170,7 @@ func (o *{{.Name}}Type) SetFacetDefinitions(facets raml.FacetMap) raml.{{.Name}}
 }
 
 func (o *{{.Name}}Type) UnsetFacetDefinitions() raml.{{.Name}}Type {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -208,7 +208,7 @@ func (o *{{.Name}}Type) SetExtraFacets(facets raml.AnyMap) raml.{{.Name}}Type {
 }
 
 func (o *{{.Name}}Type) UnsetExtraFacets() raml.{{.Name}}Type {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/gen/type-m/object.tpl b/v0/gen/type-m/object.tpl
index ea1bdaf..bbeba8a 100644
--- a/v0/gen/type-m/object.tpl
+++ b/v0/gen/type-m/object.tpl
@@ -64,7 +64,7 @@ func (o *{{.Name}}Type) SetProperties(props raml.PropertyMap) raml.{{.Name}}Type
 }
 
 func (o *{{.Name}}Type) UnsetProperties() raml.{{.Name}}Type {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index 76dadd5..814e2ae 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -157,7 +157,7 @@ func (a *APISpec) SetTypes(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTypes() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -174,7 +174,7 @@ func (a *APISpec) SetSchemas(t raml.DataTypeMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSchemas() raml.APISpec {
-	a.types = raml.NewDataTypeMap(0)
+	a.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -191,7 +191,7 @@ func (a *APISpec) SetTraits(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetTraits() raml.APISpec {
-	a.traits = raml.NewUntypedMap(0)
+	a.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -208,7 +208,7 @@ func (a *APISpec) SetResourceTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetResourceTypes() raml.APISpec {
-	a.resourceTypes = raml.NewUntypedMap(0)
+	a.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -225,7 +225,7 @@ func (a *APISpec) SetAnnotationTypes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotationTypes() raml.APISpec {
-	a.annotationTypes = raml.NewUntypedMap(0)
+	a.annotationTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -242,7 +242,7 @@ func (a *APISpec) SetAnnotations(t raml.AnnotationMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetAnnotations() raml.APISpec {
-	a.annotations = raml.NewAnnotationMap(0)
+	a.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -259,7 +259,7 @@ func (a *APISpec) SetSecuritySchemes(t raml.UntypedMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetSecuritySchemes() raml.APISpec {
-	a.securitySchemes = raml.NewUntypedMap(0)
+	a.securitySchemes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -290,7 +290,7 @@ func (a *APISpec) SetUses(s raml.StringMap) raml.APISpec {
 }
 
 func (a *APISpec) UnsetUses() raml.APISpec {
-	a.uses = raml.NewStringMap(0)
+	a.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return a
 }
 
@@ -380,7 +380,7 @@ func (a *APISpec) assign(k, v *yaml.Node) error {
 	}
 
 	if len(k.Value) > 0 && k.Value[0] == '(' {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index 396f198..f0cf4ca 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -48,7 +48,7 @@ func (l *Library) SetAnnotations(a raml.AnnotationMap) raml.Library {
 }
 
 func (l *Library) UnsetAnnotations() raml.Library {
-	l.annotations = raml.NewAnnotationMap(0)
+	l.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -73,7 +73,7 @@ func (l *Library) SetUses(uses raml.StringMap) raml.Library {
 }
 
 func (l *Library) UnsetUses() raml.Library {
-	l.uses = raml.NewStringMap(0)
+	l.uses = raml.NewStringMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -90,7 +90,7 @@ func (l *Library) SetResourceTypes(resTypes raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetResourceTypes() raml.Library {
-	l.resourceTypes = raml.NewUntypedMap(0)
+	l.resourceTypes = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -111,7 +111,7 @@ func (l *Library) SetTraits(traits raml.UntypedMap) raml.Library {
 }
 
 func (l *Library) UnsetTraits() raml.Library {
-	l.traits = raml.NewUntypedMap(0)
+	l.traits = raml.NewUntypedMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -128,7 +128,7 @@ func (l *Library) SetTypes(types raml.DataTypeMap) raml.Library {
 }
 
 func (l *Library) UnsetTypes() raml.Library {
-	l.types = raml.NewDataTypeMap(0)
+	l.types = raml.NewDataTypeMap(0).SerializeOrdered(false)
 	return l
 }
 
@@ -228,7 +228,7 @@ func (l *Library) assign(k, v *yaml.Node) error {
 	}
 
 	if xyml.IsString(k) && len(k.Value) > 0 && k.Value[0] == '(' {
-		tmp := raml.NewUntypedMap(len(v.Content) / 2)
+		tmp := raml.NewUntypedMap(len(v.Content) / 2).SerializeOrdered(false)
 		if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 			return err
 		}
diff --git a/v0/internal/raml/annotation.go b/v0/internal/raml/annotation.go
index 9c66206..a940194 100644
--- a/v0/internal/raml/annotation.go
+++ b/v0/internal/raml/annotation.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewAnnotation() raml.Annotation {
-	return raml.Annotation(raml.NewUntypedMap(1))
+	return raml.Annotation(raml.NewUntypedMap(1).SerializeOrdered(false))
 }
diff --git a/v0/internal/raml/in-components.go b/v0/internal/raml/in-components.go
index aca3195..52b5f48 100644
--- a/v0/internal/raml/in-components.go
+++ b/v0/internal/raml/in-components.go
@@ -28,7 +28,7 @@ func (h *hasAnnotations) in(k string, v *yaml.Node) (bool, error) {
 		return false, nil
 	}
 
-	tmp := raml.NewUntypedMap(0)
+	tmp := raml.NewUntypedMap(0).SerializeOrdered(false)
 
 	if err := UnmarshalUntypedMapRAML(tmp, v); err != nil {
 		return false, err
diff --git a/v0/internal/raml/type-datatype-ext.go b/v0/internal/raml/type-datatype-ext.go
index 57053df..706f931 100644
--- a/v0/internal/raml/type-datatype-ext.go
+++ b/v0/internal/raml/type-datatype-ext.go
@@ -13,7 +13,7 @@ func NewExtendedDataType(kind rmeta.DataTypeKind, self concreteType) *ExtendedDa
 	return &ExtendedDataType{
 		DataType:       NewDataType(kind, self),
 		hasAnnotations: makeAnnotations(),
-		facets:         raml.NewFacetMap(0),
+		facets:         raml.NewFacetMap(0).SerializeOrdered(false),
 		required:       true,
 	}
 }
diff --git a/v0/internal/raml/type-facet.go b/v0/internal/raml/type-facet.go
index ab032bd..8de6136 100644
--- a/v0/internal/raml/type-facet.go
+++ b/v0/internal/raml/type-facet.go
@@ -5,5 +5,5 @@ import (
 )
 
 func NewFacet() raml.Facet {
-	return raml.NewDataTypeMap(0)
+	return raml.NewDataTypeMap(0).SerializeOrdered(false)
 }
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 82c1962..9e0281a 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -73,7 +73,7 @@ func (e *AnyExample) SetAnnotations(ann raml.AnnotationMap) raml.AnyExample {
 }
 
 func (e *AnyExample) UnsetAnnotations() raml.AnyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index 70a3972..cbb6b6e 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -73,7 +73,7 @@ func (e *ArrayExample) SetAnnotations(ann raml.AnnotationMap) raml.ArrayExample
 }
 
 func (e *ArrayExample) UnsetAnnotations() raml.ArrayExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index b5374cc..840a041 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -73,7 +73,7 @@ func (e *BoolExample) SetAnnotations(ann raml.AnnotationMap) raml.BoolExample {
 }
 
 func (e *BoolExample) UnsetAnnotations() raml.BoolExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 45cdb62..5f9cbe1 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -73,7 +73,7 @@ func (e *CustomExample) SetAnnotations(ann raml.AnnotationMap) raml.CustomExampl
 }
 
 func (e *CustomExample) UnsetAnnotations() raml.CustomExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index efd0e53..0714646 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -73,7 +73,7 @@ func (e *DateOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.DateOnlyEx
 }
 
 func (e *DateOnlyExample) UnsetAnnotations() raml.DateOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 785a030..9d4aa04 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -73,7 +73,7 @@ func (e *DatetimeExample) SetAnnotations(ann raml.AnnotationMap) raml.DatetimeEx
 }
 
 func (e *DatetimeExample) UnsetAnnotations() raml.DatetimeExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 4485726..2a1ff77 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -73,7 +73,7 @@ func (e *DatetimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.Dateti
 }
 
 func (e *DatetimeOnlyExample) UnsetAnnotations() raml.DatetimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index e2f9600..0b4da40 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -73,7 +73,7 @@ func (e *FileExample) SetAnnotations(ann raml.AnnotationMap) raml.FileExample {
 }
 
 func (e *FileExample) UnsetAnnotations() raml.FileExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index 968e66a..d1e8333 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -73,7 +73,7 @@ func (e *IntegerExample) SetAnnotations(ann raml.AnnotationMap) raml.IntegerExam
 }
 
 func (e *IntegerExample) UnsetAnnotations() raml.IntegerExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index a4015f1..f0e7200 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -73,7 +73,7 @@ func (e *NumberExample) SetAnnotations(ann raml.AnnotationMap) raml.NumberExampl
 }
 
 func (e *NumberExample) UnsetAnnotations() raml.NumberExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 30bdf11..82f9c7a 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -73,7 +73,7 @@ func (e *ObjectExample) SetAnnotations(ann raml.AnnotationMap) raml.ObjectExampl
 }
 
 func (e *ObjectExample) UnsetAnnotations() raml.ObjectExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index 7620fed..b92f117 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -73,7 +73,7 @@ func (e *StringExample) SetAnnotations(ann raml.AnnotationMap) raml.StringExampl
 }
 
 func (e *StringExample) UnsetAnnotations() raml.StringExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 993ca69..83b8d2e 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -73,7 +73,7 @@ func (e *TimeOnlyExample) SetAnnotations(ann raml.AnnotationMap) raml.TimeOnlyEx
 }
 
 func (e *TimeOnlyExample) UnsetAnnotations() raml.TimeOnlyExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 4a007e9..a26e790 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -73,7 +73,7 @@ func (e *UnionExample) SetAnnotations(ann raml.AnnotationMap) raml.UnionExample
 }
 
 func (e *UnionExample) UnsetAnnotations() raml.UnionExample {
-	e.annotations = raml.NewAnnotationMap(0)
+	e.annotations = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return e
 }
 
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 390e11b..9c06d25 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -86,7 +86,7 @@ func (o *AnyType) SetExamples(examples raml.AnyExampleMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExamples() raml.AnyType {
-	o.examples = raml.NewAnyExampleMap(0)
+	o.examples = raml.NewAnyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *AnyType) SetAnnotations(annotations raml.AnnotationMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetAnnotations() raml.AnyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *AnyType) SetFacetDefinitions(facets raml.FacetMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetFacetDefinitions() raml.AnyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *AnyType) SetExtraFacets(facets raml.AnyMap) raml.AnyType {
 }
 
 func (o *AnyType) UnsetExtraFacets() raml.AnyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index 7c03efb..aa686dc 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -93,7 +93,7 @@ func (o *ArrayType) SetExamples(examples raml.ArrayExampleMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExamples() raml.ArrayType {
-	o.examples = raml.NewArrayExampleMap(0)
+	o.examples = raml.NewArrayExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -127,7 +127,7 @@ func (o *ArrayType) SetAnnotations(annotations raml.AnnotationMap) raml.ArrayTyp
 }
 
 func (o *ArrayType) UnsetAnnotations() raml.ArrayType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -141,7 +141,7 @@ func (o *ArrayType) SetFacetDefinitions(facets raml.FacetMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetFacetDefinitions() raml.ArrayType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -179,7 +179,7 @@ func (o *ArrayType) SetExtraFacets(facets raml.AnyMap) raml.ArrayType {
 }
 
 func (o *ArrayType) UnsetExtraFacets() raml.ArrayType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 171755a..01c67cb 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -86,7 +86,7 @@ func (o *BoolType) SetExamples(examples raml.BoolExampleMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExamples() raml.BoolType {
-	o.examples = raml.NewBoolExampleMap(0)
+	o.examples = raml.NewBoolExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *BoolType) SetAnnotations(annotations raml.AnnotationMap) raml.BoolType
 }
 
 func (o *BoolType) UnsetAnnotations() raml.BoolType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *BoolType) SetFacetDefinitions(facets raml.FacetMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetFacetDefinitions() raml.BoolType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *BoolType) SetExtraFacets(facets raml.AnyMap) raml.BoolType {
 }
 
 func (o *BoolType) UnsetExtraFacets() raml.BoolType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index 4a9d881..d37a22c 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -86,7 +86,7 @@ func (o *CustomType) SetExamples(examples raml.CustomExampleMap) raml.CustomType
 }
 
 func (o *CustomType) UnsetExamples() raml.CustomType {
-	o.examples = raml.NewCustomExampleMap(0)
+	o.examples = raml.NewCustomExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *CustomType) SetAnnotations(annotations raml.AnnotationMap) raml.CustomT
 }
 
 func (o *CustomType) UnsetAnnotations() raml.CustomType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *CustomType) SetFacetDefinitions(facets raml.FacetMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetFacetDefinitions() raml.CustomType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *CustomType) SetExtraFacets(facets raml.AnyMap) raml.CustomType {
 }
 
 func (o *CustomType) UnsetExtraFacets() raml.CustomType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 4475886..2e16e06 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -86,7 +86,7 @@ func (o *DateOnlyType) SetExamples(examples raml.DateOnlyExampleMap) raml.DateOn
 }
 
 func (o *DateOnlyType) UnsetExamples() raml.DateOnlyType {
-	o.examples = raml.NewDateOnlyExampleMap(0)
+	o.examples = raml.NewDateOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DateOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.DateO
 }
 
 func (o *DateOnlyType) UnsetAnnotations() raml.DateOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DateOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.DateOnlyTy
 }
 
 func (o *DateOnlyType) UnsetFacetDefinitions() raml.DateOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DateOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DateOnlyType {
 }
 
 func (o *DateOnlyType) UnsetExtraFacets() raml.DateOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 201b68a..6acefcc 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -86,7 +86,7 @@ func (o *DatetimeOnlyType) SetExamples(examples raml.DatetimeOnlyExampleMap) ram
 }
 
 func (o *DatetimeOnlyType) UnsetExamples() raml.DatetimeOnlyType {
-	o.examples = raml.NewDatetimeOnlyExampleMap(0)
+	o.examples = raml.NewDatetimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *DatetimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.D
 }
 
 func (o *DatetimeOnlyType) UnsetAnnotations() raml.DatetimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *DatetimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.Dateti
 }
 
 func (o *DatetimeOnlyType) UnsetFacetDefinitions() raml.DatetimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *DatetimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeOnlyT
 }
 
 func (o *DatetimeOnlyType) UnsetExtraFacets() raml.DatetimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 4b4e9b0..7b5eb42 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -87,7 +87,7 @@ func (o *DatetimeType) SetExamples(examples raml.DatetimeExampleMap) raml.Dateti
 }
 
 func (o *DatetimeType) UnsetExamples() raml.DatetimeType {
-	o.examples = raml.NewDatetimeExampleMap(0)
+	o.examples = raml.NewDatetimeExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -121,7 +121,7 @@ func (o *DatetimeType) SetAnnotations(annotations raml.AnnotationMap) raml.Datet
 }
 
 func (o *DatetimeType) UnsetAnnotations() raml.DatetimeType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -135,7 +135,7 @@ func (o *DatetimeType) SetFacetDefinitions(facets raml.FacetMap) raml.DatetimeTy
 }
 
 func (o *DatetimeType) UnsetFacetDefinitions() raml.DatetimeType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -173,7 +173,7 @@ func (o *DatetimeType) SetExtraFacets(facets raml.AnyMap) raml.DatetimeType {
 }
 
 func (o *DatetimeType) UnsetExtraFacets() raml.DatetimeType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index f5faa94..b509697 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -92,7 +92,7 @@ func (o *FileType) SetExamples(examples raml.FileExampleMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExamples() raml.FileType {
-	o.examples = raml.NewFileExampleMap(0)
+	o.examples = raml.NewFileExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -126,7 +126,7 @@ func (o *FileType) SetAnnotations(annotations raml.AnnotationMap) raml.FileType
 }
 
 func (o *FileType) UnsetAnnotations() raml.FileType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -140,7 +140,7 @@ func (o *FileType) SetFacetDefinitions(facets raml.FacetMap) raml.FileType {
 }
 
 func (o *FileType) UnsetFacetDefinitions() raml.FileType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -178,7 +178,7 @@ func (o *FileType) SetExtraFacets(facets raml.AnyMap) raml.FileType {
 }
 
 func (o *FileType) UnsetExtraFacets() raml.FileType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index a0e6346..5eca6bd 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -90,7 +90,7 @@ func (o *IntegerType) SetExamples(examples raml.IntegerExampleMap) raml.IntegerT
 }
 
 func (o *IntegerType) UnsetExamples() raml.IntegerType {
-	o.examples = raml.NewIntegerExampleMap(0)
+	o.examples = raml.NewIntegerExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *IntegerType) SetAnnotations(annotations raml.AnnotationMap) raml.Intege
 }
 
 func (o *IntegerType) UnsetAnnotations() raml.IntegerType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *IntegerType) SetFacetDefinitions(facets raml.FacetMap) raml.IntegerType
 }
 
 func (o *IntegerType) UnsetFacetDefinitions() raml.IntegerType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *IntegerType) SetExtraFacets(facets raml.AnyMap) raml.IntegerType {
 }
 
 func (o *IntegerType) UnsetExtraFacets() raml.IntegerType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 85f9df8..59bb066 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -90,7 +90,7 @@ func (o *NumberType) SetExamples(examples raml.NumberExampleMap) raml.NumberType
 }
 
 func (o *NumberType) UnsetExamples() raml.NumberType {
-	o.examples = raml.NewNumberExampleMap(0)
+	o.examples = raml.NewNumberExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -124,7 +124,7 @@ func (o *NumberType) SetAnnotations(annotations raml.AnnotationMap) raml.NumberT
 }
 
 func (o *NumberType) UnsetAnnotations() raml.NumberType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -138,7 +138,7 @@ func (o *NumberType) SetFacetDefinitions(facets raml.FacetMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetFacetDefinitions() raml.NumberType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -176,7 +176,7 @@ func (o *NumberType) SetExtraFacets(facets raml.AnyMap) raml.NumberType {
 }
 
 func (o *NumberType) UnsetExtraFacets() raml.NumberType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 2f0f0c6..203b5ce 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -95,7 +95,7 @@ func (o *ObjectType) SetExamples(examples raml.ObjectExampleMap) raml.ObjectType
 }
 
 func (o *ObjectType) UnsetExamples() raml.ObjectType {
-	o.examples = raml.NewObjectExampleMap(0)
+	o.examples = raml.NewObjectExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -129,7 +129,7 @@ func (o *ObjectType) SetAnnotations(annotations raml.AnnotationMap) raml.ObjectT
 }
 
 func (o *ObjectType) UnsetAnnotations() raml.ObjectType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -143,7 +143,7 @@ func (o *ObjectType) SetFacetDefinitions(facets raml.FacetMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetFacetDefinitions() raml.ObjectType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -181,7 +181,7 @@ func (o *ObjectType) SetExtraFacets(facets raml.AnyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetExtraFacets() raml.ObjectType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -204,7 +204,7 @@ func (o *ObjectType) SetProperties(props raml.PropertyMap) raml.ObjectType {
 }
 
 func (o *ObjectType) UnsetProperties() raml.ObjectType {
-	o.properties = raml.NewPropertyMap(3)
+	o.properties = raml.NewPropertyMap(3).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 20554a2..6611bb6 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -91,7 +91,7 @@ func (o *StringType) SetExamples(examples raml.StringExampleMap) raml.StringType
 }
 
 func (o *StringType) UnsetExamples() raml.StringType {
-	o.examples = raml.NewStringExampleMap(0)
+	o.examples = raml.NewStringExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -125,7 +125,7 @@ func (o *StringType) SetAnnotations(annotations raml.AnnotationMap) raml.StringT
 }
 
 func (o *StringType) UnsetAnnotations() raml.StringType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -139,7 +139,7 @@ func (o *StringType) SetFacetDefinitions(facets raml.FacetMap) raml.StringType {
 }
 
 func (o *StringType) UnsetFacetDefinitions() raml.StringType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -177,7 +177,7 @@ func (o *StringType) SetExtraFacets(facets raml.AnyMap) raml.StringType {
 }
 
 func (o *StringType) UnsetExtraFacets() raml.StringType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 8cf5323..83e337c 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -86,7 +86,7 @@ func (o *TimeOnlyType) SetExamples(examples raml.TimeOnlyExampleMap) raml.TimeOn
 }
 
 func (o *TimeOnlyType) UnsetExamples() raml.TimeOnlyType {
-	o.examples = raml.NewTimeOnlyExampleMap(0)
+	o.examples = raml.NewTimeOnlyExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *TimeOnlyType) SetAnnotations(annotations raml.AnnotationMap) raml.TimeO
 }
 
 func (o *TimeOnlyType) UnsetAnnotations() raml.TimeOnlyType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *TimeOnlyType) SetFacetDefinitions(facets raml.FacetMap) raml.TimeOnlyTy
 }
 
 func (o *TimeOnlyType) UnsetFacetDefinitions() raml.TimeOnlyType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *TimeOnlyType) SetExtraFacets(facets raml.AnyMap) raml.TimeOnlyType {
 }
 
 func (o *TimeOnlyType) UnsetExtraFacets() raml.TimeOnlyType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index db1a389..7b0527c 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -86,7 +86,7 @@ func (o *UnionType) SetExamples(examples raml.UnionExampleMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExamples() raml.UnionType {
-	o.examples = raml.NewUnionExampleMap(0)
+	o.examples = raml.NewUnionExampleMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -120,7 +120,7 @@ func (o *UnionType) SetAnnotations(annotations raml.AnnotationMap) raml.UnionTyp
 }
 
 func (o *UnionType) UnsetAnnotations() raml.UnionType {
-	o.hasAnnotations.mp = raml.NewAnnotationMap(0)
+	o.hasAnnotations.mp = raml.NewAnnotationMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -134,7 +134,7 @@ func (o *UnionType) SetFacetDefinitions(facets raml.FacetMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetFacetDefinitions() raml.UnionType {
-	o.facets = raml.NewFacetMap(0)
+	o.facets = raml.NewFacetMap(0).SerializeOrdered(false)
 	return o
 }
 
@@ -172,7 +172,7 @@ func (o *UnionType) SetExtraFacets(facets raml.AnyMap) raml.UnionType {
 }
 
 func (o *UnionType) UnsetExtraFacets() raml.UnionType {
-	o.hasExtra.mp = raml.NewAnyMap(0)
+	o.hasExtra.mp = raml.NewAnyMap(0).SerializeOrdered(false)
 	return o
 }
 
-- 
2.43.0


From 0e57a58915a7e5a022e792ca64df8c079fa9a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 11/24] fix: reject negative values for unsigned facets

---
 v0/internal/util/assign/uint.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v0/internal/util/assign/uint.go b/v0/internal/util/assign/uint.go
index 98a2d8c..2cbc1b6 100644
--- a/v0/internal/util/assign/uint.go
+++ b/v0/internal/util/assign/uint.go
@@ -1,14 +1,19 @@
 package assign
 
 import (
+	"fmt"
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
 )
 
+const negativeValue = "expected a non-negative value, got %d at %d:%d"
+
 // Helper function for uint values in assign functions
 func ToUint(v *yaml.Node, ptr *uint) error {
 	if val, err := xyml.ToInt(v, 10); err != nil {
 		return err
+	} else if val < 0 {
+		return fmt.Errorf(negativeValue, val, v.Line, v.Column)
 	} else {
 		*ptr = uint(val)
 	}
@@ -20,6 +25,8 @@ func ToUint(v *yaml.Node, ptr *uint) error {
 func AsUintPtr(v *yaml.Node, ptr **uint) error {
 	if val, err := xyml.ToInt(v, 10); err != nil {
 		return err
+	} else if val < 0 {
+		return fmt.Errorf(negativeValue, val, v.Line, v.Column)
 	} else {
 		tmp := uint(val)
 		*ptr = &tmp
-- 
2.43.0


From a0f08bbd09a92ca73941d7cd11262a3f3339d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 12/24] fix: accept integers where numbers are expected

---
 v0/gen/example-m.tpl                  |  2 +-
 v0/gen/type-m/extended.tpl            |  2 +-
 v0/internal/raml/x-gen-ex-number.go   |  2 +-
 v0/internal/raml/x-gen-type-number.go |  2 +-
 v0/internal/util/assign/float64.go    | 12 +++++++++++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 3846a28..62c6b7a 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -213,7 +213,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		e.value = &tmp
 	}
 	{{- else if eq .Type "float64" -}}
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index d2aabe9..8376e95 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -287,7 +287,7 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 			{{else if eq .DefTypeName "Int64" -}}
 				if val, err := xyml.ToInt(cur, 10); err != nil {
 			{{else if eq .DefTypeName "Float64" -}}
-				if val, err := xyml.ToFloat(cur); err != nil {
+				if val, err := assign.ToFloat64(cur); err != nil {
 			{{- else -}}
 				if val, err := xyml.To{{.DefTypeName}}(cur); err != nil {
 			{{end}}
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index f0e7200..919a3a5 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -189,7 +189,7 @@ func (e *NumberExample) expand() bool {
 }
 
 func (e *NumberExample) assignVal(val *yaml.Node) error {
-	if tmp, err := xyml.ToFloat(val); err != nil {
+	if tmp, err := assign.ToFloat64(val); err != nil {
 		return err
 	} else {
 		e.value = &tmp
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 59bb066..5d12ebe 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -278,7 +278,7 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return UnmarshalNumberExampleMapRAML(o.examples, val)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
-			if val, err := xyml.ToFloat(cur); err != nil {
+			if val, err := assign.ToFloat64(cur); err != nil {
 				return err
 			} else {
 				o.enum = append(o.enum, val)
diff --git a/v0/internal/util/assign/float64.go b/v0/internal/util/assign/float64.go
index 0289d91..e7116bb 100644
--- a/v0/internal/util/assign/float64.go
+++ b/v0/internal/util/assign/float64.go
@@ -3,10 +3,20 @@ package assign
 import (
 	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
 	"gopkg.in/yaml.v3"
+	"strconv"
 )
 
+// ToFloat64 converts the given YAML number, an int or a float, to a float64.
+func ToFloat64(v *yaml.Node) (float64, error) {
+	if xyml.IsInt(v) {
+		return strconv.ParseFloat(v.Value, 64)
+	}
+
+	return xyml.ToFloat(v)
+}
+
 func AsFloat64Ptr(v *yaml.Node, ptr **float64) error {
-	if val, err := xyml.ToFloat(v); err != nil {
+	if val, err := ToFloat64(v); err != nil {
 		return err
 	} else {
 		*ptr = &val
-- 
2.43.0


From a2e055bf64b2f5f369e2d8fae46650c537905cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 13/24] fix: read the default facet of data types

---
 v0/gen/type-m/extended.tpl                   | 20 ++++++++++++++++++++
 v0/internal/raml/x-gen-type-any.go           |  4 ++++
 v0/internal/raml/x-gen-type-array.go         |  6 ++++++
 v0/internal/raml/x-gen-type-bool.go          |  2 ++
 v0/internal/raml/x-gen-type-custom.go        |  4 ++++
 v0/internal/raml/x-gen-type-date-only.go     |  2 ++
 v0/internal/raml/x-gen-type-datetime-only.go |  2 ++
 v0/internal/raml/x-gen-type-datetime.go      |  2 ++
 v0/internal/raml/x-gen-type-file.go          |  4 ++++
 v0/internal/raml/x-gen-type-integer.go       |  2 ++
 v0/internal/raml/x-gen-type-number.go        |  2 ++
 v0/internal/raml/x-gen-type-object.go        |  4 ++++
 v0/internal/raml/x-gen-type-string.go        |  2 ++
 v0/internal/raml/x-gen-type-time-only.go     |  2 ++
 v0/internal/raml/x-gen-type-union.go         |  4 ++++
 15 files changed, 62 insertions(+)

diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 8376e95..61d755c 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -279,6 +279,26 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return Unmarshal{{.Name}}ExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		{{if eq .DefTypeName "Bool" -}}
+		return assign.AsBoolPtr(val, &o.def)
+		{{- else if eq .DefTypeName "Int64" -}}
+		return assign.AsInt64Ptr(val, &o.def)
+		{{- else if eq .DefTypeName "Float64" -}}
+		return assign.AsFloat64Ptr(val, &o.def)
+		{{- else if eq .DefTypeName "String" -}}
+		return assign.AsStringPtr(val, &o.def)
+		{{- else if eq .DefTypeName "Untyped" -}}
+		var def interface{} = val
+		o.def = &def
+		return nil
+		{{- else -}}
+		o.def = make([]interface{}, 0, len(val.Content))
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+			return nil
+		})
+		{{- end}}
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			{{if eq .DefTypeName "Bool" "Float64" "Int64" "String" -}}
diff --git a/v0/internal/raml/x-gen-type-any.go b/v0/internal/raml/x-gen-type-any.go
index 9c06d25..7ccbfb7 100644
--- a/v0/internal/raml/x-gen-type-any.go
+++ b/v0/internal/raml/x-gen-type-any.go
@@ -213,6 +213,10 @@ func (o *AnyType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalAnyExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			o.enum = append(o.enum, cur)
diff --git a/v0/internal/raml/x-gen-type-array.go b/v0/internal/raml/x-gen-type-array.go
index aa686dc..c89f1b1 100644
--- a/v0/internal/raml/x-gen-type-array.go
+++ b/v0/internal/raml/x-gen-type-array.go
@@ -275,6 +275,12 @@ func (o *ArrayType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalArrayExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		o.def = make([]interface{}, 0, len(val.Content))
+		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			o.def = append(o.def, cur)
+			return nil
+		})
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			o.enum = append(o.enum, cur)
diff --git a/v0/internal/raml/x-gen-type-bool.go b/v0/internal/raml/x-gen-type-bool.go
index 01c67cb..2acb20d 100644
--- a/v0/internal/raml/x-gen-type-bool.go
+++ b/v0/internal/raml/x-gen-type-bool.go
@@ -213,6 +213,8 @@ func (o *BoolType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalBoolExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		return assign.AsBoolPtr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := xyml.ToBoolean(cur); err != nil {
diff --git a/v0/internal/raml/x-gen-type-custom.go b/v0/internal/raml/x-gen-type-custom.go
index d37a22c..282a762 100644
--- a/v0/internal/raml/x-gen-type-custom.go
+++ b/v0/internal/raml/x-gen-type-custom.go
@@ -213,6 +213,10 @@ func (o *CustomType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalCustomExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			o.enum = append(o.enum, cur)
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index 2e16e06..b9b1b9b 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -213,6 +213,8 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalDateOnlyExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := xyml.ToString(cur); err != nil {
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 6acefcc..03b4eef 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -213,6 +213,8 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalDatetimeOnlyExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := xyml.ToString(cur); err != nil {
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 7b5eb42..1fa3239 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -228,6 +228,8 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalDatetimeExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := xyml.ToString(cur); err != nil {
diff --git a/v0/internal/raml/x-gen-type-file.go b/v0/internal/raml/x-gen-type-file.go
index b509697..19072f1 100644
--- a/v0/internal/raml/x-gen-type-file.go
+++ b/v0/internal/raml/x-gen-type-file.go
@@ -259,6 +259,10 @@ func (o *FileType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalFileExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			o.enum = append(o.enum, cur)
diff --git a/v0/internal/raml/x-gen-type-integer.go b/v0/internal/raml/x-gen-type-integer.go
index 5eca6bd..5f65fe1 100644
--- a/v0/internal/raml/x-gen-type-integer.go
+++ b/v0/internal/raml/x-gen-type-integer.go
@@ -276,6 +276,8 @@ func (o *IntegerType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalIntegerExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		return assign.AsInt64Ptr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := xyml.ToInt(cur, 10); err != nil {
diff --git a/v0/internal/raml/x-gen-type-number.go b/v0/internal/raml/x-gen-type-number.go
index 5d12ebe..1a84b97 100644
--- a/v0/internal/raml/x-gen-type-number.go
+++ b/v0/internal/raml/x-gen-type-number.go
@@ -276,6 +276,8 @@ func (o *NumberType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalNumberExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		return assign.AsFloat64Ptr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := assign.ToFloat64(cur); err != nil {
diff --git a/v0/internal/raml/x-gen-type-object.go b/v0/internal/raml/x-gen-type-object.go
index 203b5ce..21b122d 100644
--- a/v0/internal/raml/x-gen-type-object.go
+++ b/v0/internal/raml/x-gen-type-object.go
@@ -316,6 +316,10 @@ func (o *ObjectType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalObjectExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			o.enum = append(o.enum, cur)
diff --git a/v0/internal/raml/x-gen-type-string.go b/v0/internal/raml/x-gen-type-string.go
index 6611bb6..db133cb 100644
--- a/v0/internal/raml/x-gen-type-string.go
+++ b/v0/internal/raml/x-gen-type-string.go
@@ -259,6 +259,8 @@ func (o *StringType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalStringExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := xyml.ToString(cur); err != nil {
diff --git a/v0/internal/raml/x-gen-type-time-only.go b/v0/internal/raml/x-gen-type-time-only.go
index 83e337c..da0d649 100644
--- a/v0/internal/raml/x-gen-type-time-only.go
+++ b/v0/internal/raml/x-gen-type-time-only.go
@@ -213,6 +213,8 @@ func (o *TimeOnlyType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalTimeOnlyExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			if val, err := xyml.ToString(cur); err != nil {
diff --git a/v0/internal/raml/x-gen-type-union.go b/v0/internal/raml/x-gen-type-union.go
index 7b0527c..cc7b367 100644
--- a/v0/internal/raml/x-gen-type-union.go
+++ b/v0/internal/raml/x-gen-type-union.go
@@ -213,6 +213,10 @@ func (o *UnionType) assign(key, val *yaml.Node) error {
 		return nil
 	case rmeta.KeyExamples:
 		return UnmarshalUnionExampleMapRAML(o.examples, val)
+	case rmeta.KeyDefault:
+		var def interface{} = val
+		o.def = &def
+		return nil
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
 			o.enum = append(o.enum, cur)
-- 
2.43.0


From 1e2fac2d5bdf6b06b710b9d272cb08ba8f8a8c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 14/24] fix: do not panic on optional lookups of nil values

---
 v0/pkg/raml/AnyExampleMap.go | 2 +-
 v0/pkg/raml/AnyMap.go        | 2 +-
 v0/pkg/raml/UntypedMap.go    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index 9fcc3c4..d2252e6 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -197,7 +197,7 @@ func (i *implAnyExampleMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implAnyExampleMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index 660c472..e31a51a 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -197,7 +197,7 @@ func (i *implAnyMap) Get(k interface{}) (value interface{}, exists bool) {
 
 func (i *implAnyMap) GetOpt(k interface{}) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index ca9844f..654b327 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -197,7 +197,7 @@ func (i *implUntypedMap) Get(k string) (value interface{}, exists bool) {
 
 func (i *implUntypedMap) GetOpt(k string) option.Untyped {
 	if v, ok := i.index[k]; ok {
-		return option.NewUntyped(v)
+		return option.NewMaybeUntyped(&v)
 	}
 
 	return option.NewEmptyUntyped()
-- 
2.43.0


From 7b7a4e6eebc160bca3e34012cdd84d0efd9175b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:49 +0000
Subject: [PATCH 15/24] fix: make XML settings writable and keep their unknown
 facets

---
 v0/internal/raml/type-xml.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/v0/internal/raml/type-xml.go b/v0/internal/raml/type-xml.go
index 869366c..e86a8de 100644
--- a/v0/internal/raml/type-xml.go
+++ b/v0/internal/raml/type-xml.go
@@ -11,7 +11,7 @@ import (
 
 func NewXML() *XML {
 	return &XML{
-		extra: make(map[interface{}]interface{}),
+		extra: raml.NewAnyMap(0).SerializeOrdered(false),
 	}
 }
 
@@ -21,7 +21,7 @@ type XML struct {
 	name   *string
 	ns     *string
 	pref   *string
-	extra  map[interface{}]interface{}
+	extra  raml.AnyMap
 }
 
 func (x *XML) IsAttribute() option.Bool {
@@ -98,12 +98,22 @@ func (x *XML) UnmarshalRAML(v *yaml.Node) error {
 	return xyml.MapForEach(v, x.assign)
 }
 
+// ToYAML converts the XML settings to a YAML mapping.
+func (x XML) ToYAML() (*yaml.Node, error) {
+	out := raml.NewAnyMap(5 + x.extra.Len()).SerializeOrdered(false)
+	if _, err := x.MarshalRAML(out); err != nil {
+		return nil, err
+	}
+	return out.ToYAML()
+}
+
 func (x XML) MarshalRAML(out raml.AnyMap) (bool, error) {
 	out.PutIfNotNil(rmeta.KeyAttribute, x.isAttr).
 		PutIfNotNil(rmeta.KeyWrapped, x.isWrap).
 		PutIfNotNil(rmeta.KeyName, x.name).
 		PutIfNotNil(rmeta.KeyNamespace, x.ns).
 		PutIfNotNil(rmeta.KeyPrefix, x.pref)
+	x.extra.ForEach(func(k, v interface{}) { out.Put(k, v) })
 
 	return false, nil
 }
@@ -124,7 +134,7 @@ func (x *XML) assign(key, val *yaml.Node) error {
 		if k, err := xyml.ToScalarValue(key); err != nil {
 			return err
 		} else {
-			x.extra[k] = val
+			x.extra.Put(k, val)
 		}
 	}
 
-- 
2.43.0


From 4f56e99450f9d5264db33626f08d6e7e863c72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 16/24] fix: accept unquoted dates as values of date types

---
 v0/gen/example-m.tpl                         |  6 ++++++
 v0/gen/type-m/extended.tpl                   | 12 ++++++++++++
 v0/internal/raml/x-gen-ex-dateonly.go        |  4 ++++
 v0/internal/raml/x-gen-ex-datetime.go        |  4 ++++
 v0/internal/raml/x-gen-ex-datetimeonly.go    |  4 ++++
 v0/internal/raml/x-gen-type-date-only.go     |  8 ++++++++
 v0/internal/raml/x-gen-type-datetime-only.go |  8 ++++++++
 v0/internal/raml/x-gen-type-datetime.go      |  8 ++++++++
 8 files changed, 54 insertions(+)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 62c6b7a..79502a5 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -196,6 +196,12 @@ func (e *{{.Name}}Example) expand() bool {
 
 func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 	{{if eq .Type "string" -}}
+	{{if eq .Name "DateOnly" "DatetimeOnly" "Datetime" -}}
+	if xyml.IsTimestamp(val) {
+		e.value = &val.Value
+		return nil
+	}
+	{{end -}}
 	if err := xyml.RequireString(val); err != nil {
 		return err
 	}
diff --git a/v0/gen/type-m/extended.tpl b/v0/gen/type-m/extended.tpl
index 61d755c..71f139f 100644
--- a/v0/gen/type-m/extended.tpl
+++ b/v0/gen/type-m/extended.tpl
@@ -287,6 +287,12 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 		{{- else if eq .DefTypeName "Float64" -}}
 		return assign.AsFloat64Ptr(val, &o.def)
 		{{- else if eq .DefTypeName "String" -}}
+		{{if eq .Name "DateOnly" "DatetimeOnly" "Datetime" -}}
+		if xyml.IsTimestamp(val) {
+			o.def = &val.Value
+			return nil
+		}
+		{{end -}}
 		return assign.AsStringPtr(val, &o.def)
 		{{- else if eq .DefTypeName "Untyped" -}}
 		var def interface{} = val
@@ -301,6 +307,12 @@ func (o *{{.Name}}Type) assign(key, val *yaml.Node) error {
 		{{- end}}
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			{{if eq .Name "DateOnly" "DatetimeOnly" "Datetime" -}}
+			if xyml.IsTimestamp(cur) {
+				o.enum = append(o.enum, cur.Value)
+				return nil
+			}
+			{{end -}}
 			{{if eq .DefTypeName "Bool" "Float64" "Int64" "String" -}}
 			{{if eq .DefTypeName "Bool" -}}
 				if val, err := xyml.ToBoolean(cur); err != nil {
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 0714646..957f003 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -189,6 +189,10 @@ func (e *DateOnlyExample) expand() bool {
 }
 
 func (e *DateOnlyExample) assignVal(val *yaml.Node) error {
+	if xyml.IsTimestamp(val) {
+		e.value = &val.Value
+		return nil
+	}
 	if err := xyml.RequireString(val); err != nil {
 		return err
 	}
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index 9d4aa04..d7b97c6 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -189,6 +189,10 @@ func (e *DatetimeExample) expand() bool {
 }
 
 func (e *DatetimeExample) assignVal(val *yaml.Node) error {
+	if xyml.IsTimestamp(val) {
+		e.value = &val.Value
+		return nil
+	}
 	if err := xyml.RequireString(val); err != nil {
 		return err
 	}
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 2a1ff77..434ae57 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -189,6 +189,10 @@ func (e *DatetimeOnlyExample) expand() bool {
 }
 
 func (e *DatetimeOnlyExample) assignVal(val *yaml.Node) error {
+	if xyml.IsTimestamp(val) {
+		e.value = &val.Value
+		return nil
+	}
 	if err := xyml.RequireString(val); err != nil {
 		return err
 	}
diff --git a/v0/internal/raml/x-gen-type-date-only.go b/v0/internal/raml/x-gen-type-date-only.go
index b9b1b9b..7e72506 100644
--- a/v0/internal/raml/x-gen-type-date-only.go
+++ b/v0/internal/raml/x-gen-type-date-only.go
@@ -214,9 +214,17 @@ func (o *DateOnlyType) assign(key, val *yaml.Node) error {
 	case rmeta.KeyExamples:
 		return UnmarshalDateOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyDefault:
+		if xyml.IsTimestamp(val) {
+			o.def = &val.Value
+			return nil
+		}
 		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			if xyml.IsTimestamp(cur) {
+				o.enum = append(o.enum, cur.Value)
+				return nil
+			}
 			if val, err := xyml.ToString(cur); err != nil {
 
 				return err
diff --git a/v0/internal/raml/x-gen-type-datetime-only.go b/v0/internal/raml/x-gen-type-datetime-only.go
index 03b4eef..c6cf68b 100644
--- a/v0/internal/raml/x-gen-type-datetime-only.go
+++ b/v0/internal/raml/x-gen-type-datetime-only.go
@@ -214,9 +214,17 @@ func (o *DatetimeOnlyType) assign(key, val *yaml.Node) error {
 	case rmeta.KeyExamples:
 		return UnmarshalDatetimeOnlyExampleMapRAML(o.examples, val)
 	case rmeta.KeyDefault:
+		if xyml.IsTimestamp(val) {
+			o.def = &val.Value
+			return nil
+		}
 		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			if xyml.IsTimestamp(cur) {
+				o.enum = append(o.enum, cur.Value)
+				return nil
+			}
 			if val, err := xyml.ToString(cur); err != nil {
 
 				return err
diff --git a/v0/internal/raml/x-gen-type-datetime.go b/v0/internal/raml/x-gen-type-datetime.go
index 1fa3239..1a76dec 100644
--- a/v0/internal/raml/x-gen-type-datetime.go
+++ b/v0/internal/raml/x-gen-type-datetime.go
@@ -229,9 +229,17 @@ func (o *DatetimeType) assign(key, val *yaml.Node) error {
 	case rmeta.KeyExamples:
 		return UnmarshalDatetimeExampleMapRAML(o.examples, val)
 	case rmeta.KeyDefault:
+		if xyml.IsTimestamp(val) {
+			o.def = &val.Value
+			return nil
+		}
 		return assign.AsStringPtr(val, &o.def)
 	case rmeta.KeyEnum:
 		return xyml.SequenceForEach(val, func(cur *yaml.Node) error {
+			if xyml.IsTimestamp(cur) {
+				o.enum = append(o.enum, cur.Value)
+				return nil
+			}
 			if val, err := xyml.ToString(cur); err != nil {
 
 				return err
-- 
2.43.0


From f563cf02aeaf8663cedc4942912802027e616eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:53 +0000
Subject: [PATCH 17/24] fix: write floats in full and Go maps in a fixed order

---
 v0/pkg/raml/AnyExampleMap.go   |  4 +-
 v0/pkg/raml/AnyMap.go          |  4 +-
 v0/pkg/raml/UntypedMap.go      |  4 +-
 v0/pkg/raml/util-yaml-value.go | 75 ++++++++++++++++++++++++++++++++++
 4 files changed, 81 insertions(+), 6 deletions(-)
 create mode 100644 v0/pkg/raml/util-yaml-value.go

diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index d2252e6..1b6918e 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -134,7 +134,7 @@ func (i implAnyExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := xyml.MapAppend(tmp, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +148,7 @@ func (i implAnyExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := xyml.MapAppend(out, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index e31a51a..f84f9d3 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -134,7 +134,7 @@ func (i implAnyMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := xyml.MapAppend(tmp, yamlValue(i.ordered[j].Key), yamlValue(i.ordered[j].Val)); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +148,7 @@ func (i implAnyMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := xyml.MapAppend(out, yamlValue(i.ordered[j].Key), yamlValue(i.ordered[j].Val)); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index 654b327..772bed4 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -134,7 +134,7 @@ func (i implUntypedMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := xyml.MapAppend(tmp, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +148,7 @@ func (i implUntypedMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := xyml.MapAppend(out, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/util-yaml-value.go b/v0/pkg/raml/util-yaml-value.go
new file mode 100644
index 0000000..1898df5
--- /dev/null
+++ b/v0/pkg/raml/util-yaml-value.go
@@ -0,0 +1,75 @@
+package raml
+
+import (
+	"fmt"
+	"math"
+	"reflect"
+	"sort"
+	"strconv"
+	"strings"
+
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// yamlValue prepares an untyped value for its conversion to YAML.
+//
+// Floats keep all of their digits and plain Go maps are given a fixed key
+// order, at any depth.  All other values are returned as they are.
+func yamlValue(val interface{}) interface{} {
+	switch v := val.(type) {
+	case nil, *yaml.Node, xyml.Marshaler:
+		return val
+	case float64:
+		return yamlFloat(v, 64)
+	case float32:
+		return yamlFloat(float64(v), 32)
+	}
+
+	ref := reflect.ValueOf(val)
+
+	switch ref.Kind() {
+	case reflect.Ptr:
+		if !ref.IsNil() {
+			return yamlValue(ref.Elem().Interface())
+		}
+	case reflect.Slice, reflect.Array:
+		out := make([]interface{}, ref.Len())
+		for i := range out {
+			out[i] = yamlValue(ref.Index(i).Interface())
+		}
+		return out
+	case reflect.Map:
+		keys := ref.MapKeys()
+		sort.Slice(keys, func(a, b int) bool {
+			return fmt.Sprint(keys[a].Interface()) < fmt.Sprint(keys[b].Interface())
+		})
+		out := NewAnyMap(len(keys)).SerializeOrdered(false)
+		for _, key := range keys {
+			out.Put(key.Interface(), ref.MapIndex(key).Interface())
+		}
+		return out
+	}
+
+	return val
+}
+
+func yamlFloat(val float64, bits int) *yaml.Node {
+	out := &yaml.Node{Kind: yaml.ScalarNode, Tag: xyml.TagFloat}
+
+	switch {
+	case math.IsNaN(val):
+		out.Value = ".nan"
+	case math.IsInf(val, 1):
+		out.Value = ".inf"
+	case math.IsInf(val, -1):
+		out.Value = "-.inf"
+	default:
+		out.Value = strconv.FormatFloat(val, 'g', -1, bits)
+		if !strings.ContainsAny(out.Value, ".e") {
+			out.Value += ".0"
+		}
+	}
+
+	return out
+}
-- 
2.43.0


From e08f7f00d490dc0f3f77e55659e9fff7d9131f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 18/24] fix: write examples with nothing but a value in their
 short form

---
 v0/gen/example-m.tpl                      | 9 +++++++--
 v0/internal/raml/x-gen-ex-any.go          | 9 +++++++--
 v0/internal/raml/x-gen-ex-array.go        | 9 +++++++--
 v0/internal/raml/x-gen-ex-bool.go         | 9 +++++++--
 v0/internal/raml/x-gen-ex-custom.go       | 9 +++++++--
 v0/internal/raml/x-gen-ex-dateonly.go     | 9 +++++++--
 v0/internal/raml/x-gen-ex-datetime.go     | 9 +++++++--
 v0/internal/raml/x-gen-ex-datetimeonly.go | 9 +++++++--
 v0/internal/raml/x-gen-ex-file.go         | 9 +++++++--
 v0/internal/raml/x-gen-ex-integer.go      | 9 +++++++--
 v0/internal/raml/x-gen-ex-number.go       | 9 +++++++--
 v0/internal/raml/x-gen-ex-object.go       | 9 +++++++--
 v0/internal/raml/x-gen-ex-string.go       | 9 +++++++--
 v0/internal/raml/x-gen-ex-timeonly.go     | 9 +++++++--
 v0/internal/raml/x-gen-ex-union.go        | 9 +++++++--
 15 files changed, 105 insertions(+), 30 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 79502a5..d5d68b6 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -112,10 +112,15 @@ func (e *{{.Name}}Example) ExtraFacets() raml.AnyMap {
 
 func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *{{.Name}}Example) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 9e0281a..81b089f 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -106,10 +106,15 @@ func (e *AnyExample) ExtraFacets() raml.AnyMap {
 
 func (e AnyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *AnyExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-array.go b/v0/internal/raml/x-gen-ex-array.go
index cbb6b6e..341a585 100644
--- a/v0/internal/raml/x-gen-ex-array.go
+++ b/v0/internal/raml/x-gen-ex-array.go
@@ -106,10 +106,15 @@ func (e *ArrayExample) ExtraFacets() raml.AnyMap {
 
 func (e ArrayExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *ArrayExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-bool.go b/v0/internal/raml/x-gen-ex-bool.go
index 840a041..2f5253b 100644
--- a/v0/internal/raml/x-gen-ex-bool.go
+++ b/v0/internal/raml/x-gen-ex-bool.go
@@ -106,10 +106,15 @@ func (e *BoolExample) ExtraFacets() raml.AnyMap {
 
 func (e BoolExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *BoolExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 5f9cbe1..7a56bcf 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -106,10 +106,15 @@ func (e *CustomExample) ExtraFacets() raml.AnyMap {
 
 func (e CustomExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *CustomExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-dateonly.go b/v0/internal/raml/x-gen-ex-dateonly.go
index 957f003..f8afe34 100644
--- a/v0/internal/raml/x-gen-ex-dateonly.go
+++ b/v0/internal/raml/x-gen-ex-dateonly.go
@@ -106,10 +106,15 @@ func (e *DateOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DateOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *DateOnlyExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-datetime.go b/v0/internal/raml/x-gen-ex-datetime.go
index d7b97c6..608b45a 100644
--- a/v0/internal/raml/x-gen-ex-datetime.go
+++ b/v0/internal/raml/x-gen-ex-datetime.go
@@ -106,10 +106,15 @@ func (e *DatetimeExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *DatetimeExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-datetimeonly.go b/v0/internal/raml/x-gen-ex-datetimeonly.go
index 434ae57..8c25da5 100644
--- a/v0/internal/raml/x-gen-ex-datetimeonly.go
+++ b/v0/internal/raml/x-gen-ex-datetimeonly.go
@@ -106,10 +106,15 @@ func (e *DatetimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e DatetimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *DatetimeOnlyExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 0b4da40..4939a97 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -106,10 +106,15 @@ func (e *FileExample) ExtraFacets() raml.AnyMap {
 
 func (e FileExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *FileExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-integer.go b/v0/internal/raml/x-gen-ex-integer.go
index d1e8333..eb70b18 100644
--- a/v0/internal/raml/x-gen-ex-integer.go
+++ b/v0/internal/raml/x-gen-ex-integer.go
@@ -106,10 +106,15 @@ func (e *IntegerExample) ExtraFacets() raml.AnyMap {
 
 func (e IntegerExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *IntegerExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-number.go b/v0/internal/raml/x-gen-ex-number.go
index 919a3a5..a1e05d6 100644
--- a/v0/internal/raml/x-gen-ex-number.go
+++ b/v0/internal/raml/x-gen-ex-number.go
@@ -106,10 +106,15 @@ func (e *NumberExample) ExtraFacets() raml.AnyMap {
 
 func (e NumberExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *NumberExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index 82f9c7a..a703ed4 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -106,10 +106,15 @@ func (e *ObjectExample) ExtraFacets() raml.AnyMap {
 
 func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *ObjectExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-string.go b/v0/internal/raml/x-gen-ex-string.go
index b92f117..b766f10 100644
--- a/v0/internal/raml/x-gen-ex-string.go
+++ b/v0/internal/raml/x-gen-ex-string.go
@@ -106,10 +106,15 @@ func (e *StringExample) ExtraFacets() raml.AnyMap {
 
 func (e StringExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *StringExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-timeonly.go b/v0/internal/raml/x-gen-ex-timeonly.go
index 83b8d2e..213fdd6 100644
--- a/v0/internal/raml/x-gen-ex-timeonly.go
+++ b/v0/internal/raml/x-gen-ex-timeonly.go
@@ -106,10 +106,15 @@ func (e *TimeOnlyExample) ExtraFacets() raml.AnyMap {
 
 func (e TimeOnlyExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *TimeOnlyExample) UnmarshalRAML(value *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index a26e790..2214344 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -106,10 +106,15 @@ func (e *UnionExample) ExtraFacets() raml.AnyMap {
 
 func (e UnionExample) ToYAML() (*yaml.Node, error) {
 	out := raml.NewAnyMap(4 + e.annotations.Len() + e.extra.Len()).SerializeOrdered(false)
-	if _, err := e.MarshalRAML(out); err != nil {
+	short, err := e.MarshalRAML(out)
+	if err != nil {
 		return nil, err
 	}
-	return out.ToYAML()
+	node, err := out.ToYAML()
+	if err != nil || !short {
+		return node, err
+	}
+	return node.Content[1], nil
 }
 
 func (e *UnionExample) UnmarshalRAML(value *yaml.Node) error {
-- 
2.43.0


From b175c3136bf4dfddd96916230f68d023008d5d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:02 +0000
Subject: [PATCH 19/24] fix: make examples with untyped values writable

---
 v0/gen/example-m.tpl                | 2 +-
 v0/internal/raml/x-gen-ex-any.go    | 2 +-
 v0/internal/raml/x-gen-ex-custom.go | 2 +-
 v0/internal/raml/x-gen-ex-file.go   | 2 +-
 v0/internal/raml/x-gen-ex-object.go | 2 +-
 v0/internal/raml/x-gen-ex-union.go  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index d5d68b6..7ed423a 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -236,7 +236,7 @@ func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
 		return nil
 	})
 	{{- else -}}
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 	{{- end}}
 
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index 81b089f..e9255b2 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -194,7 +194,7 @@ func (e *AnyExample) expand() bool {
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 7a56bcf..663225e 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -194,7 +194,7 @@ func (e *CustomExample) expand() bool {
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index 4939a97..decfdfd 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -194,7 +194,7 @@ func (e *FileExample) expand() bool {
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index a703ed4..c3bab06 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -194,7 +194,7 @@ func (e *ObjectExample) expand() bool {
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 2214344..9d94da1 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -194,7 +194,7 @@ func (e *UnionExample) expand() bool {
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-	var tmp interface{} = *val
+	var tmp interface{} = val
 	e.value = &tmp
 
 	return nil
-- 
2.43.0


From 138b0e7ec3b9099ef378fe5768e292772100c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 20/24] fix: read plain map examples as values instead of
 facets

---
 v0/gen/example-m.tpl                |  5 +++-
 v0/internal/raml/util-ex-value.go   | 36 +++++++++++++++++++++++++++++
 v0/internal/raml/x-gen-ex-any.go    |  5 ++--
 v0/internal/raml/x-gen-ex-custom.go |  5 ++--
 v0/internal/raml/x-gen-ex-file.go   |  5 ++--
 v0/internal/raml/x-gen-ex-object.go |  5 ++--
 v0/internal/raml/x-gen-ex-union.go  |  5 ++--
 7 files changed, 55 insertions(+), 11 deletions(-)
 create mode 100644 v0/internal/raml/util-ex-value.go

diff --git a/v0/gen/example-m.tpl b/v0/gen/example-m.tpl
index 7ed423a..c15a032 100644
--- a/v0/gen/example-m.tpl
+++ b/v0/gen/example-m.tpl
@@ -125,7 +125,7 @@ func (e {{.Name}}Example) ToYAML() (*yaml.Node, error) {
 
 func (e *{{.Name}}Example) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if {{if eq .Type "interface{}"}}isExpandedExample(value){{else}}xyml.IsMap(value){{end}} {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -197,6 +197,9 @@ func (e *{{.Name}}Example) expand() bool {
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
 		e.strict != rmeta.ExampleDefaultStrict
+		{{- if eq .Type "interface{}"}} ||
+		looksExpanded(e.value)
+		{{- end}}
 }
 
 func (e *{{.Name}}Example) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/util-ex-value.go b/v0/internal/raml/util-ex-value.go
new file mode 100644
index 0000000..6b90891
--- /dev/null
+++ b/v0/internal/raml/util-ex-value.go
@@ -0,0 +1,36 @@
+package raml
+
+import (
+	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
+	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
+	"github.com/Foxcapades/lib-go-yaml/v1/pkg/xyml"
+	"gopkg.in/yaml.v3"
+)
+
+// isExpandedExample returns whether the given node is the expanded form of an
+// example, that is a mapping with a value entry.
+func isExpandedExample(node *yaml.Node) bool {
+	if !xyml.IsMap(node) {
+		return false
+	}
+
+	for i := 0; i < len(node.Content); i += 2 {
+		if node.Content[i].Value == rmeta.KeyValue {
+			return true
+		}
+	}
+
+	return false
+}
+
+// looksExpanded returns whether the given example value, when written on its
+// own, would be taken for the expanded form of an example.
+func looksExpanded(val *interface{}) bool {
+	if val == nil {
+		return false
+	}
+
+	node, err := raml.NewAnyMap(1).SerializeOrdered(false).Put("", *val).ToYAML()
+
+	return err == nil && isExpandedExample(node.Content[1])
+}
diff --git a/v0/internal/raml/x-gen-ex-any.go b/v0/internal/raml/x-gen-ex-any.go
index e9255b2..817fa5c 100644
--- a/v0/internal/raml/x-gen-ex-any.go
+++ b/v0/internal/raml/x-gen-ex-any.go
@@ -119,7 +119,7 @@ func (e AnyExample) ToYAML() (*yaml.Node, error) {
 
 func (e *AnyExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +190,8 @@ func (e *AnyExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		looksExpanded(e.value)
 }
 
 func (e *AnyExample) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-custom.go b/v0/internal/raml/x-gen-ex-custom.go
index 663225e..ebcf124 100644
--- a/v0/internal/raml/x-gen-ex-custom.go
+++ b/v0/internal/raml/x-gen-ex-custom.go
@@ -119,7 +119,7 @@ func (e CustomExample) ToYAML() (*yaml.Node, error) {
 
 func (e *CustomExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +190,8 @@ func (e *CustomExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		looksExpanded(e.value)
 }
 
 func (e *CustomExample) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-file.go b/v0/internal/raml/x-gen-ex-file.go
index decfdfd..eafa236 100644
--- a/v0/internal/raml/x-gen-ex-file.go
+++ b/v0/internal/raml/x-gen-ex-file.go
@@ -119,7 +119,7 @@ func (e FileExample) ToYAML() (*yaml.Node, error) {
 
 func (e *FileExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +190,8 @@ func (e *FileExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		looksExpanded(e.value)
 }
 
 func (e *FileExample) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-object.go b/v0/internal/raml/x-gen-ex-object.go
index c3bab06..cee2919 100644
--- a/v0/internal/raml/x-gen-ex-object.go
+++ b/v0/internal/raml/x-gen-ex-object.go
@@ -119,7 +119,7 @@ func (e ObjectExample) ToYAML() (*yaml.Node, error) {
 
 func (e *ObjectExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +190,8 @@ func (e *ObjectExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		looksExpanded(e.value)
 }
 
 func (e *ObjectExample) assignVal(val *yaml.Node) error {
diff --git a/v0/internal/raml/x-gen-ex-union.go b/v0/internal/raml/x-gen-ex-union.go
index 9d94da1..b1003a4 100644
--- a/v0/internal/raml/x-gen-ex-union.go
+++ b/v0/internal/raml/x-gen-ex-union.go
@@ -119,7 +119,7 @@ func (e UnionExample) ToYAML() (*yaml.Node, error) {
 
 func (e *UnionExample) UnmarshalRAML(value *yaml.Node) error {
 
-	if xyml.IsMap(value) {
+	if isExpandedExample(value) {
 		return xyml.MapForEach(value, e.assign)
 	}
 
@@ -190,7 +190,8 @@ func (e *UnionExample) expand() bool {
 		e.description != nil ||
 		e.annotations.Len() > 0 ||
 		e.extra.Len() > 0 ||
-		e.strict != rmeta.ExampleDefaultStrict
+		e.strict != rmeta.ExampleDefaultStrict ||
+		looksExpanded(e.value)
 }
 
 func (e *UnionExample) assignVal(val *yaml.Node) error {
-- 
2.43.0


From 501a752086082178e2505748e65318a67747ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 21/24] fix: resolve aliases while parsing so that what is
 written is complete

---
 v0/internal/raml/APISpec.go |  8 +++++-
 v0/internal/raml/Library.go |  6 +++++
 v0/internal/util/aliases.go | 50 +++++++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+), 1 deletion(-)
 create mode 100644 v0/internal/util/aliases.go

diff --git a/v0/internal/raml/APISpec.go b/v0/internal/raml/APISpec.go
index 814e2ae..663aecb 100644
--- a/v0/internal/raml/APISpec.go
+++ b/v0/internal/raml/APISpec.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -350,7 +351,12 @@ func (a APISpec) MarshalYAML() (interface{}, error) {
 }
 
 func (a *APISpec) UnmarshalYAML(raw *yaml.Node) error {
-	return xyml.MapForEach(raw, a.assign)
+	root, err := util.ResolveAliases(raw)
+	if err != nil {
+		return err
+	}
+
+	return xyml.MapForEach(root, a.assign)
 }
 
 func (a *APISpec) WriteRAML(w io.Writer) error {
diff --git a/v0/internal/raml/Library.go b/v0/internal/raml/Library.go
index f0cf4ca..b082102 100644
--- a/v0/internal/raml/Library.go
+++ b/v0/internal/raml/Library.go
@@ -2,6 +2,7 @@ package raml
 
 import (
 	"github.com/Foxcapades/goop/v1/pkg/option"
+	"github.com/Foxcapades/lib-go-raml/v0/internal/util"
 	"github.com/Foxcapades/lib-go-raml/v0/internal/util/assign"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml/rmeta"
@@ -168,6 +169,11 @@ func (l *Library) WriteRAML(w io.Writer) error {
 }
 
 func (l *Library) UnmarshalYAML(root *yaml.Node) error {
+	root, err := util.ResolveAliases(root)
+	if err != nil {
+		return err
+	}
+
 	return xyml.MapForEach(root, l.assign)
 }
 
diff --git a/v0/internal/util/aliases.go b/v0/internal/util/aliases.go
new file mode 100644
index 0000000..192be6d
--- /dev/null
+++ b/v0/internal/util/aliases.go
@@ -0,0 +1,50 @@
+package util
+
+import (
+	"errors"
+	"fmt"
+
+	"gopkg.in/yaml.v3"
+)
+
+// maxAliasedNodes limits the number of nodes that aliases may expand to.
+const maxAliasedNodes = 1000000
+
+// ResolveAliases returns a copy of the given YAML node in which all aliases are
+// replaced by copies of the nodes they refer to.
+func ResolveAliases(node *yaml.Node) (*yaml.Node, error) {
+	aliased := 0
+	return resolveAliases(node, map[*yaml.Node]bool{}, &aliased)
+}
+
+func resolveAliases(node *yaml.Node, active map[*yaml.Node]bool, aliased *int) (*yaml.Node, error) {
+	if node.Kind == yaml.AliasNode {
+		if active[node.Alias] {
+			return nil, fmt.Errorf("anchor %s contains itself at %d:%d", node.Value, node.Line, node.Column)
+		}
+
+		active[node.Alias] = true
+		defer delete(active, node.Alias)
+		return resolveAliases(node.Alias, active, aliased)
+	}
+
+	if len(active) > 0 {
+		if *aliased++; *aliased > maxAliasedNodes {
+			return nil, errors.New("document contains excessive aliasing")
+		}
+	}
+
+	out := *node
+	out.Anchor = ""
+	out.Content = nil
+
+	for _, child := range node.Content {
+		tmp, err := resolveAliases(child, active, aliased)
+		if err != nil {
+			return nil, err
+		}
+		out.Content = append(out.Content, tmp)
+	}
+
+	return &out, nil
+}
-- 
2.43.0


From de9473e877253ff909edb7a34b14ebf381dc6165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 22/24] fix: report malformed input that makes the YAML parser
 panic as an error

---
 v0/pkg/raml/rparse/parse-api.go |  9 ++++++---
 v0/pkg/raml/rparse/parse-lib.go | 12 +++++++++---
 v0/pkg/raml/rparse/read.go      | 26 ++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 6 deletions(-)
 create mode 100644 v0/pkg/raml/rparse/read.go

diff --git a/v0/pkg/raml/rparse/parse-api.go b/v0/pkg/raml/rparse/parse-api.go
index cf1e7bd..977e0c6 100644
--- a/v0/pkg/raml/rparse/parse-api.go
+++ b/v0/pkg/raml/rparse/parse-api.go
@@ -2,7 +2,6 @@ package rparse
 
 import (
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
 
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
@@ -10,9 +9,13 @@ import (
 
 func ParseApiDoc(red io.Reader) (raml.APISpec, error) {
 	out := impl.NewApiSpec()
-	dec := yaml.NewDecoder(red)
 
-	if err := dec.Decode(out); err != nil {
+	doc, err := readDocument(red)
+	if err != nil {
+		return nil, err
+	}
+
+	if err := doc.Decode(out); err != nil {
 		return nil, err
 	}
 
diff --git a/v0/pkg/raml/rparse/parse-lib.go b/v0/pkg/raml/rparse/parse-lib.go
index e4262fc..7fa2b47 100644
--- a/v0/pkg/raml/rparse/parse-lib.go
+++ b/v0/pkg/raml/rparse/parse-lib.go
@@ -3,15 +3,21 @@ package rparse
 import (
 	impl "github.com/Foxcapades/lib-go-raml/v0/internal/raml"
 	"github.com/Foxcapades/lib-go-raml/v0/pkg/raml"
-	"gopkg.in/yaml.v3"
 	"io"
 )
 
 func ParseLibrary(red io.Reader) (raml.Library, error) {
 	out := impl.NewLibrary()
-	dec := yaml.NewDecoder(red)
 
-	if err := dec.Decode(out); err != nil && err != io.EOF {
+	doc, err := readDocument(red)
+	if err == io.EOF {
+		return out, nil
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	if err := doc.Decode(out); err != nil {
 		return nil, err
 	}
 
diff --git a/v0/pkg/raml/rparse/read.go b/v0/pkg/raml/rparse/read.go
new file mode 100644
index 0000000..f251329
--- /dev/null
+++ b/v0/pkg/raml/rparse/read.go
@@ -0,0 +1,26 @@
+package rparse
+
+import (
+	"fmt"
+	"gopkg.in/yaml.v3"
+	"io"
+)
+
+// readDocument reads the first YAML document from the given reader.
+//
+// The YAML parser panics on some malformed inputs (such as a tag followed by
+// invalid UTF-8), these are reported as errors here.
+func readDocument(red io.Reader) (doc *yaml.Node, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			doc, err = nil, fmt.Errorf("malformed YAML input: %v", e)
+		}
+	}()
+
+	doc = new(yaml.Node)
+	if err = yaml.NewDecoder(red).Decode(doc); err != nil {
+		return nil, err
+	}
+
+	return doc, nil
+}
-- 
2.43.0


From f266b9a87a5d62af2f991c54704df4de004f6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 23/24] fix: write types on their own with the indentation of
 documents

---
 v0/internal/raml/DataType.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 4e6c0fb..613cca7 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -67,8 +67,12 @@ func (d *DataType) ToRAML() (string, error) {
 		return "", err
 	}
 
-	out, err := yaml.Marshal(node)
-	return string(out), err
+	// The default indentation breaks list items that begin with a newline.
+	out := new(strings.Builder)
+	enc := yaml.NewEncoder(out)
+	enc.SetIndent(2)
+	err = enc.Encode(node)
+	return out.String(), err
 }
 
 func (d DataType) ToYAML() (*yaml.Node, error) {
-- 
2.43.0


From 792bda4201f57b6703d436cba9b46456031b5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:04 +0000
Subject: [PATCH 24/24] fix: quote strings that would be read as merge keys

---
 v0/internal/raml/DataType.go          |  6 +++++-
 v0/pkg/raml/AnnotationMap.go          |  4 ++--
 v0/pkg/raml/AnyExampleMap.go          |  4 ++--
 v0/pkg/raml/AnyMap.go                 |  4 ++--
 v0/pkg/raml/ArrayExampleMap.go        |  4 ++--
 v0/pkg/raml/BoolExampleMap.go         |  4 ++--
 v0/pkg/raml/CustomExampleMap.go       |  4 ++--
 v0/pkg/raml/DataTypeMap.go            |  4 ++--
 v0/pkg/raml/DateOnlyExampleMap.go     |  4 ++--
 v0/pkg/raml/DatetimeExampleMap.go     |  4 ++--
 v0/pkg/raml/DatetimeOnlyExampleMap.go |  4 ++--
 v0/pkg/raml/FacetMap.go               |  4 ++--
 v0/pkg/raml/FileExampleMap.go         |  4 ++--
 v0/pkg/raml/IntegerExampleMap.go      |  4 ++--
 v0/pkg/raml/NumberExampleMap.go       |  4 ++--
 v0/pkg/raml/ObjectExampleMap.go       |  4 ++--
 v0/pkg/raml/PropertyMap.go            |  4 ++--
 v0/pkg/raml/StringExampleMap.go       |  4 ++--
 v0/pkg/raml/StringMap.go              |  4 ++--
 v0/pkg/raml/TimeOnlyExampleMap.go     |  4 ++--
 v0/pkg/raml/UnionExampleMap.go        |  4 ++--
 v0/pkg/raml/UntypedMap.go             |  4 ++--
 v0/pkg/raml/util-yaml-value.go        | 17 +++++++++++++++++
 23 files changed, 64 insertions(+), 43 deletions(-)

diff --git a/v0/internal/raml/DataType.go b/v0/internal/raml/DataType.go
index 613cca7..6e5be6d 100644
--- a/v0/internal/raml/DataType.go
+++ b/v0/internal/raml/DataType.go
@@ -82,7 +82,11 @@ func (d DataType) ToYAML() (*yaml.Node, error) {
 	} else if short {
 		schema, _ := out.Get(rmeta.KeyType)
 		logrus.Debug("Printing RAML type short form ", schema)
-		return xyml.ToYamlNode(schema)
+		node, err := out.ToYAML()
+		if err != nil {
+			return nil, err
+		}
+		return node.Content[1], nil
 	}
 	logrus.Debug("Printing RAML type long form")
 	return out.ToYAML()
diff --git a/v0/pkg/raml/AnnotationMap.go b/v0/pkg/raml/AnnotationMap.go
index b3b56f4..7e47c8a 100644
--- a/v0/pkg/raml/AnnotationMap.go
+++ b/v0/pkg/raml/AnnotationMap.go
@@ -128,7 +128,7 @@ func (i implAnnotationMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implAnnotationMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/AnyExampleMap.go b/v0/pkg/raml/AnyExampleMap.go
index 1b6918e..6276819 100644
--- a/v0/pkg/raml/AnyExampleMap.go
+++ b/v0/pkg/raml/AnyExampleMap.go
@@ -134,7 +134,7 @@ func (i implAnyExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +148,7 @@ func (i implAnyExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/AnyMap.go b/v0/pkg/raml/AnyMap.go
index f84f9d3..c30c6e8 100644
--- a/v0/pkg/raml/AnyMap.go
+++ b/v0/pkg/raml/AnyMap.go
@@ -134,7 +134,7 @@ func (i implAnyMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, yamlValue(i.ordered[j].Key), yamlValue(i.ordered[j].Val)); e != nil {
+			if e := mapAppend(tmp, yamlValue(i.ordered[j].Key), yamlValue(i.ordered[j].Val)); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +148,7 @@ func (i implAnyMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, yamlValue(i.ordered[j].Key), yamlValue(i.ordered[j].Val)); e != nil {
+		if e := mapAppend(out, yamlValue(i.ordered[j].Key), yamlValue(i.ordered[j].Val)); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/ArrayExampleMap.go b/v0/pkg/raml/ArrayExampleMap.go
index f1b1d2d..023d0c5 100644
--- a/v0/pkg/raml/ArrayExampleMap.go
+++ b/v0/pkg/raml/ArrayExampleMap.go
@@ -128,7 +128,7 @@ func (i implArrayExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implArrayExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/BoolExampleMap.go b/v0/pkg/raml/BoolExampleMap.go
index c0785a0..087f416 100644
--- a/v0/pkg/raml/BoolExampleMap.go
+++ b/v0/pkg/raml/BoolExampleMap.go
@@ -128,7 +128,7 @@ func (i implBoolExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implBoolExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/CustomExampleMap.go b/v0/pkg/raml/CustomExampleMap.go
index 14ea0a2..bd205b7 100644
--- a/v0/pkg/raml/CustomExampleMap.go
+++ b/v0/pkg/raml/CustomExampleMap.go
@@ -128,7 +128,7 @@ func (i implCustomExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implCustomExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/DataTypeMap.go b/v0/pkg/raml/DataTypeMap.go
index a8117fd..f91c643 100644
--- a/v0/pkg/raml/DataTypeMap.go
+++ b/v0/pkg/raml/DataTypeMap.go
@@ -128,7 +128,7 @@ func (i implDataTypeMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implDataTypeMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/DateOnlyExampleMap.go b/v0/pkg/raml/DateOnlyExampleMap.go
index 860cf02..aecbbd1 100644
--- a/v0/pkg/raml/DateOnlyExampleMap.go
+++ b/v0/pkg/raml/DateOnlyExampleMap.go
@@ -128,7 +128,7 @@ func (i implDateOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implDateOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/DatetimeExampleMap.go b/v0/pkg/raml/DatetimeExampleMap.go
index 202135b..28356fa 100644
--- a/v0/pkg/raml/DatetimeExampleMap.go
+++ b/v0/pkg/raml/DatetimeExampleMap.go
@@ -128,7 +128,7 @@ func (i implDatetimeExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implDatetimeExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/DatetimeOnlyExampleMap.go b/v0/pkg/raml/DatetimeOnlyExampleMap.go
index 76a39dc..0c7ebcb 100644
--- a/v0/pkg/raml/DatetimeOnlyExampleMap.go
+++ b/v0/pkg/raml/DatetimeOnlyExampleMap.go
@@ -128,7 +128,7 @@ func (i implDatetimeOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implDatetimeOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/FacetMap.go b/v0/pkg/raml/FacetMap.go
index 2547d84..e502c19 100644
--- a/v0/pkg/raml/FacetMap.go
+++ b/v0/pkg/raml/FacetMap.go
@@ -128,7 +128,7 @@ func (i implFacetMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implFacetMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/FileExampleMap.go b/v0/pkg/raml/FileExampleMap.go
index ad621fb..9606415 100644
--- a/v0/pkg/raml/FileExampleMap.go
+++ b/v0/pkg/raml/FileExampleMap.go
@@ -128,7 +128,7 @@ func (i implFileExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implFileExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/IntegerExampleMap.go b/v0/pkg/raml/IntegerExampleMap.go
index 9a34848..70ddcc7 100644
--- a/v0/pkg/raml/IntegerExampleMap.go
+++ b/v0/pkg/raml/IntegerExampleMap.go
@@ -128,7 +128,7 @@ func (i implIntegerExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implIntegerExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/NumberExampleMap.go b/v0/pkg/raml/NumberExampleMap.go
index e36980a..83a33ca 100644
--- a/v0/pkg/raml/NumberExampleMap.go
+++ b/v0/pkg/raml/NumberExampleMap.go
@@ -128,7 +128,7 @@ func (i implNumberExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implNumberExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/ObjectExampleMap.go b/v0/pkg/raml/ObjectExampleMap.go
index a88a001..6276b20 100644
--- a/v0/pkg/raml/ObjectExampleMap.go
+++ b/v0/pkg/raml/ObjectExampleMap.go
@@ -128,7 +128,7 @@ func (i implObjectExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implObjectExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/PropertyMap.go b/v0/pkg/raml/PropertyMap.go
index 1bdfa99..32521a4 100644
--- a/v0/pkg/raml/PropertyMap.go
+++ b/v0/pkg/raml/PropertyMap.go
@@ -128,7 +128,7 @@ func (i implPropertyMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implPropertyMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/StringExampleMap.go b/v0/pkg/raml/StringExampleMap.go
index 712f67d..cc5f322 100644
--- a/v0/pkg/raml/StringExampleMap.go
+++ b/v0/pkg/raml/StringExampleMap.go
@@ -128,7 +128,7 @@ func (i implStringExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implStringExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/StringMap.go b/v0/pkg/raml/StringMap.go
index d6b7024..c48e478 100644
--- a/v0/pkg/raml/StringMap.go
+++ b/v0/pkg/raml/StringMap.go
@@ -134,7 +134,7 @@ func (i implStringMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +148,7 @@ func (i implStringMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/TimeOnlyExampleMap.go b/v0/pkg/raml/TimeOnlyExampleMap.go
index cb942b2..8b342bf 100644
--- a/v0/pkg/raml/TimeOnlyExampleMap.go
+++ b/v0/pkg/raml/TimeOnlyExampleMap.go
@@ -128,7 +128,7 @@ func (i implTimeOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implTimeOnlyExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/UnionExampleMap.go b/v0/pkg/raml/UnionExampleMap.go
index b9b5e38..79769b3 100644
--- a/v0/pkg/raml/UnionExampleMap.go
+++ b/v0/pkg/raml/UnionExampleMap.go
@@ -128,7 +128,7 @@ func (i implUnionExampleMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -142,7 +142,7 @@ func (i implUnionExampleMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, i.ordered[j].Val); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/UntypedMap.go b/v0/pkg/raml/UntypedMap.go
index 772bed4..7e63521 100644
--- a/v0/pkg/raml/UntypedMap.go
+++ b/v0/pkg/raml/UntypedMap.go
@@ -134,7 +134,7 @@ func (i implUntypedMap) ToYAML() (*yaml.Node, error) {
 
 		for j := range i.ordered {
 			tmp := xyml.NewMapNode(1)
-			if e := xyml.MapAppend(tmp, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
+			if e := mapAppend(tmp, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
 				return nil, e
 			}
 			if err := xyml.SequenceAppend(out, tmp); err != nil {
@@ -148,7 +148,7 @@ func (i implUntypedMap) ToYAML() (*yaml.Node, error) {
 	out := xyml.NewMapNode(i.Len())
 
 	for j := range i.ordered {
-		if e := xyml.MapAppend(out, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
+		if e := mapAppend(out, i.ordered[j].Key, yamlValue(i.ordered[j].Val)); e != nil {
 			return nil, e
 		}
 	}
diff --git a/v0/pkg/raml/util-yaml-value.go b/v0/pkg/raml/util-yaml-value.go
index 1898df5..6cf9758 100644
--- a/v0/pkg/raml/util-yaml-value.go
+++ b/v0/pkg/raml/util-yaml-value.go
@@ -29,6 +29,8 @@ func yamlValue(val interface{}) interface{} {
 	ref := reflect.ValueOf(val)
 
 	switch ref.Kind() {
+	case reflect.String:
+		return yamlString(val)
 	case reflect.Ptr:
 		if !ref.IsNil() {
 			return yamlValue(ref.Elem().Interface())
@@ -54,6 +56,21 @@ func yamlValue(val interface{}) interface{} {
 	return val
 }
 
+// mapAppend appends the given key and value to a YAML mapping.
+func mapAppend(node *yaml.Node, key, val interface{}) error {
+	return xyml.MapAppend(node, yamlString(key), yamlString(val))
+}
+
+// yamlString quotes the one string that the YAML encoder does not quote even
+// though it means something else without quotes: the merge key.
+func yamlString(val interface{}) interface{} {
+	if ref := reflect.ValueOf(val); ref.Kind() == reflect.String && ref.String() == "<<" {
+		return &yaml.Node{Kind: yaml.ScalarNode, Tag: xyml.TagString, Value: "<<", Style: yaml.DoubleQuotedStyle}
+	}
+
+	return val
+}
+
 func yamlFloat(val float64, bits int) *yaml.Node {
 	out := &yaml.Node{Kind: yaml.ScalarNode, Tag: xyml.TagFloat}
 
-- 
2.43.0

