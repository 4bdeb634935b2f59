From c6f52805c7a5d7f709788606ed8cc98476be63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:19 +0000
Subject: [PATCH 01/13] fix: do not reverse the stored instructions when
 transforming with method last

---
 transform/transform.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index fe1ed7c..5791e6f 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -256,21 +256,22 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 // transform runs the instructions in this object returning the new transformed value or nil if none is found.
 // It handles the logic for concatenation, first or last methods.
 func (tis *transformInstructions) transform(in interface{}, fieldType string, modifier pathModifier, format inputFormat) (interface{}, error) {
+	// The instructions are shared by all documents, they are reversed in a copy.
+	instructions := tis.From
 	var concatResult bool
 	switch tis.Method {
 	case last:
-		var newFrom []*transformInstruction
+		instructions = nil
 		for i := len(tis.From) - 1; i >= 0; i-- {
-			newFrom = append(newFrom, tis.From[i])
+			instructions = append(instructions, tis.From[i])
 		}
-		tis.From = newFrom
 	case concatenate:
 		concatResult = true
 	}
 
 	var result interface{}
 
-	for _, from := range tis.From {
+	for _, from := range instructions {
 		value, err := from.transform(in, fieldType, modifier, format)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From fe4ff28a2dda4f05ad68ba1db2cb3ce0544562fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:19 +0000
Subject: [PATCH 02/13] fix: build objects in a copy of the input value or
 schema default

---
 transform/instance.go | 16 +++++-----------
 transform/utils.go    |  9 +++++++++
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index 8310396..ad15295 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -340,12 +340,10 @@ func (ot *objectTransformer) objectTransformJSON(in interface{}, modifier pathMo
 		}
 	}
 	if newValue == nil {
-		if ot.defaultValue == nil {
-			newValue = make(map[string]interface{})
-		} else {
-			newValue = ot.defaultValue
-		}
+		newValue = ot.defaultValue
 	}
+	// The base belongs to the input or the schema default, the child values are added to a copy.
+	newValue = copyMap(newValue)
 
 	// Add each child value to the paren
 	for _, child := range ot.children {
@@ -410,12 +408,8 @@ func (ot *objectTransformer) objectTransformXML(in interface{}, modifier pathMod
 		}
 	}
 
-	var newValue map[string]interface{}
-	if ot.defaultValue == nil {
-		newValue = make(map[string]interface{})
-	} else {
-		newValue = ot.defaultValue
-	}
+	// The default is shared by all documents, the child values are added to a copy.
+	newValue := copyMap(ot.defaultValue)
 
 	// Add each child value to the parent if there is no object transform or if the object transform node is found
 	for _, child := range ot.children {
diff --git a/transform/utils.go b/transform/utils.go
index 2d3a096..2bd46f1 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -214,6 +214,15 @@ func schemaDefault(schema json.RawMessage) (interface{}, error) {
 	return nil, nil
 }
 
+// copyMap returns a new map with the entries of in, which may be nil.
+func copyMap(in map[string]interface{}) map[string]interface{} {
+	out := make(map[string]interface{}, len(in))
+	for k, v := range in {
+		out[k] = v
+	}
+	return out
+}
+
 // replaceIndex takes a path which may include array index values like `a[0].b.c[23].d` with the index values replaced
 // with "*", ie `a[*].b.c[*].d`.
 func replaceIndex(path string) string {
-- 
2.43.0


From a2b8963e17c681a7b065821b74e703dad60fa208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:19 +0000
Subject: [PATCH 03/13] fix: save array bases for the children only and without
 a panic on other kinds of values

---
 transform/instance.go    |  3 +++
 transform/transformer.go | 25 +++++++++++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/transform/instance.go b/transform/instance.go
index ad15295..24cd6d6 100644
--- a/transform/instance.go
+++ b/transform/instance.go
@@ -182,6 +182,9 @@ func (at *arrayTransformer) arrayTransformJSON(in interface{}, modifier pathModi
 			if !ok {
 				return nil, errors.New("input is neither a JSON array nor object")
 			}
+			// The input is shared with the other fields of the document, the array is only saved for the children.
+			inMap = copyMap(inMap)
+			in = inMap
 			if err := saveInTree(inMap, path, base); err != nil {
 				return nil, fmt.Errorf("failed to save array transform to input data: %v", err)
 			}
diff --git a/transform/transformer.go b/transform/transformer.go
index 7e8c715..823f1fb 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -245,6 +245,7 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 }
 
 // saveInTree is used recursively to add values the tree based on the path even if the parents are nil.
+// Only the given map is modified, any maps and slices within it on the path are replaced with modified copies.
 func saveInTree(tree map[string]interface{}, path string, value interface{}) error {
 	if value == nil {
 		return nil
@@ -263,8 +264,11 @@ func saveInTree(tree map[string]interface{}, path string, value interface{}) err
 	arraySplits := strings.Split(splits[0], "[")
 	if len(arraySplits) != 1 { // the case of an array or nested arrays with an object in them
 		var sValue []interface{}
-		if rawSlice, ok := tree[arraySplits[0]]; ok {
-			sValue = rawSlice.([]interface{})
+		if rawSlice := tree[arraySplits[0]]; rawSlice != nil {
+			var ok bool
+			if sValue, ok = rawSlice.([]interface{}); !ok {
+				return fmt.Errorf("value at %q is not an array", arraySplits[0])
+			}
 		}
 
 		newTreeMap := make(map[string]interface{})
@@ -286,6 +290,7 @@ func saveInTree(tree map[string]interface{}, path string, value interface{}) err
 		if !ok {
 			return fmt.Errorf("value at %q is not a map[string]interface{}", splits[0])
 		}
+		newTreeMap = copyMap(newTreeMap)
 	}
 	tree[splits[0]] = newTreeMap
 	return saveInTree(newTreeMap, strings.Join(splits[1:], "."), value)
@@ -302,8 +307,11 @@ func saveLeaf(tree map[string]interface{}, path string, value interface{}) error
 	}
 
 	var sValue []interface{}
-	if rawSlice, ok := tree[arraySplits[0]]; ok {
-		sValue = rawSlice.([]interface{})
+	if rawSlice := tree[arraySplits[0]]; rawSlice != nil {
+		var ok bool
+		if sValue, ok = rawSlice.([]interface{}); !ok {
+			return fmt.Errorf("value at %q is not an array", arraySplits[0])
+		}
 	}
 
 	newValue, err := saveInSlice(sValue, arraySplits[1:], value)
@@ -316,13 +324,11 @@ func saveLeaf(tree map[string]interface{}, path string, value interface{}) error
 
 func saveInSlice(current []interface{}, arraySplits []string, value interface{}) ([]interface{}, error) {
 	index, err := strconv.Atoi(strings.Trim(arraySplits[0], "]"))
-	if err != nil {
+	if err != nil || index < 0 {
 		return nil, fmt.Errorf("failed to determine index of %q", arraySplits[0])
 	}
 
-	if current == nil {
-		current = make([]interface{}, 0, index)
-	}
+	current = append(make([]interface{}, 0, index+1), current...)
 
 	// fill up the slice slots with nil if the slice isn't the right size
 	for j := len(current); j <= index; j++ {
@@ -352,6 +358,9 @@ func saveInSlice(current []interface{}, arraySplits []string, value interface{})
 	}
 
 	newValue, err := saveInSlice(nested, arraySplits[1:], value)
+	if err != nil {
+		return nil, err
+	}
 	current[index] = newValue
 	return current, nil
 }
-- 
2.43.0


From e1d77a286cb5c4c4edadc88334262dc781149be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:19 +0000
Subject: [PATCH 04/13] fix: max of an empty array is an error and negative
 numbers compare correctly

---
 transform/operations.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transform/operations.go b/transform/operations.go
index 0e978b8..e631d69 100644
--- a/transform/operations.go
+++ b/transform/operations.go
@@ -159,6 +159,9 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 	if !ok {
 		return nil, errors.New("input must be an array")
 	}
+	if len(inArray) == 0 {
+		return nil, errors.New("input must not be an empty array")
+	}
 	byArg := strings.Replace(m.args["by"], "@", "$", 1)
 	returnArg := strings.Replace(m.args["return"], "@", "$", 1)
 
@@ -177,7 +180,7 @@ func (m *max) transform(in interface{}) (interface{}, error) {
 			}
 			by = float64(byInt)
 		}
-		if by > largest {
+		if i == 0 || by > largest {
 			largest = by
 			largestIndex = i
 		}
-- 
2.43.0


From f870a632d729fde1056c1676ee6dd163f081c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:19 +0000
Subject: [PATCH 05/13] fix: a string which is not a boolean has no value when
 converted

---
 transform/utils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transform/utils.go b/transform/utils.go
index 2bd46f1..6717a88 100644
--- a/transform/utils.go
+++ b/transform/utils.go
@@ -82,7 +82,11 @@ func convertBoolean(raw interface{}) (interface{}, error) {
 		if t == "" {
 			return false, nil
 		}
-		return strconv.ParseBool(t)
+		value, err := strconv.ParseBool(t)
+		if err != nil {
+			return nil, err
+		}
+		return value, nil
 	case int:
 		return t > 0, nil
 	case float32:
-- 
2.43.0


From 59ee4da100dea1cf51ba74361a836484816f78da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:19 +0000
Subject: [PATCH 06/13] fix: report a path without parent as an error when
 building a transformer

---
 transform/transformer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 823f1fb..6f9e21c 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -195,10 +195,12 @@ func (tr *Transformer) findParent(path string) (instanceTransformer, error) {
 	for _, sp := range parentSplits {
 		if sp == "[*]" {
 			parent = parent.child()
-			continue
+		} else {
+			parent = parent.selectChild(sp)
+		}
+		if parent == nil {
+			return nil, fmt.Errorf("no parent found for path %q", path)
 		}
-
-		parent = parent.selectChild(sp)
 	}
 
 	return parent, nil
-- 
2.43.0


From 550feac79e29c1f93f2349c412cce09d7545ffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:19 +0000
Subject: [PATCH 07/13] fix: reject null transform instructions

---
 transform/transform.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transform/transform.go b/transform/transform.go
index 5791e6f..d1d5b9e 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -234,6 +234,11 @@ func (tis *transformInstructions) UnmarshalJSON(data []byte) error {
 		return fmt.Errorf("failed to extract transform from JSON: %v", err)
 	}
 
+	for _, from := range jtis.From {
+		if from == nil {
+			return errors.New("null is not a transform instruction")
+		}
+	}
 	tis.From = jtis.From
 	tis.MethodOptions = jtis.MethodOptions
 
-- 
2.43.0


From 5a981bebe9b47f4f96e8e70bc8f8ee869eef495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:13 +0000
Subject: [PATCH 08/13] fix: return an error for an invalid xmlPath instead of
 a panic

---
 transform/transform.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/transform/transform.go b/transform/transform.go
index d1d5b9e..9aadd20 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -102,6 +102,17 @@ func (ti *transformInstruction) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// findNodes returns the nodes an XPath expression selects or nil if there are none.
+// The xpath package reports some invalid expressions with a panic when they are evaluated, it is returned as an error.
+func findNodes(top *xmlquery.Node, path string) (nodes []*xmlquery.Node, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			nodes, err = nil, fmt.Errorf("%v", r)
+		}
+	}()
+	return xmlquery.QueryAll(top, path)
+}
+
 func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, modifier pathModifier) (interface{}, error) {
 	path := ti.xmlPath
 	if modifier != nil {
@@ -113,21 +124,29 @@ func (ti *transformInstruction) xmlTransform(in interface{}, fieldType string, m
 		return nil, errors.New("Error converting input to *xmlquery.Node")
 	}
 
-	xmlNode := xmlquery.Find(node, path)
+	xmlNode, err := findNodes(node, path)
+	if err != nil {
+		return nil, fmt.Errorf("failed to evaluate xmlPath %q: %v", path, err)
+	}
 	if xmlNode == nil {
 		return nil, nil
 	}
 
-	var (
-		value interface{}
-		err   error
-	)
+	var value interface{}
 
 	// num elements that have a child element
-	numElementsWithChild := len(xmlquery.Find(node, path+"[*]"))
+	withChild, err := findNodes(node, path+"[*]")
+	if err != nil {
+		return nil, fmt.Errorf("failed to evaluate xmlPath %q: %v", path, err)
+	}
+	numElementsWithChild := len(withChild)
 
 	// num elements without child
-	numElementsWithoutChild := len(xmlquery.Find(node, path+"[not(*)]"))
+	withoutChild, err := findNodes(node, path+"[not(*)]")
+	if err != nil {
+		return nil, fmt.Errorf("failed to evaluate xmlPath %q: %v", path, err)
+	}
+	numElementsWithoutChild := len(withoutChild)
 
 	// if only numElementsWithoutChild has results then the nodes are leaf nodes and can extract value
 	if numElementsWithChild == 0 && numElementsWithoutChild == 1 {
-- 
2.43.0


From 6f89308e6d16cf53d4b058b8c6dca922d33d1b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:46 +0000
Subject: [PATCH 09/13] fix: AvroTime and AvroOptionalTime of times outside the
 range of UnixNano

---
 generate/avro_helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generate/avro_helpers.go b/generate/avro_helpers.go
index c3dbdc0..e58b5f3 100644
--- a/generate/avro_helpers.go
+++ b/generate/avro_helpers.go
@@ -56,7 +56,7 @@ type AvroCFDeleter interface {
 // AvroTime converts the given time.Time into an int64 compatible with an Avro timestamp.millis logical type.
 // http://avro.apache.org/docs/current/spec.html#Date
 func AvroTime(t time.Time) int64 {
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime.
@@ -75,7 +75,7 @@ func AvroOptionalTime(t *time.Time) int64 {
 	if t == nil {
 		return 0
 	}
-	return t.UnixNano() / (int64(time.Millisecond) / int64(time.Nanosecond))
+	return t.UnixMilli()
 }
 
 // AvroOptionalTimeSlice converts the given []time.Time into a []int64 leveraging AvroTime
-- 
2.43.0


From 545f6b7d94a389f356c471a5c2c680a12a3ef10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:15 +0000
Subject: [PATCH 10/13] fix: keep the nullability of GraphQL lists

---
 generate/graphql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/graphql.go b/generate/graphql.go
index 9965b3d..4cbf4cc 100644
--- a/generate/graphql.go
+++ b/generate/graphql.go
@@ -643,9 +643,9 @@ func (gen *gqlExtractedField) addField(tree []string, gqlTypeName []string, inst
 		switch f.jsonType {
 		case "array":
 			f.jsonType = ""
-			f.nullable = false
 			f.array = true
 			f.arrayNullable = f.nullable
+			f.nullable = false
 
 			totalDescription := fmt.Sprintf("The total length of the %s list at this same level in the data, this number is unaffected by filtering.", fieldName)
 			// If the field this is a total of is deprecated then also use its deprecation message (first line of description).
-- 
2.43.0


From 85a363a59309a32308324de6d929a9d2b8c4042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:40 +0000
Subject: [PATCH 11/13] fix: report malformed transforms and defaults of
 objects when building a transformer

---
 transform/transformer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transform/transformer.go b/transform/transformer.go
index 6f9e21c..ee39f81 100644
--- a/transform/transformer.go
+++ b/transform/transformer.go
@@ -217,9 +217,9 @@ func (tr *Transformer) walker(path string, value json.RawMessage) error {
 	var iTransformer instanceTransformer
 	switch instanceType {
 	case "object":
-		properties, _, _, err := jsonparser.Get(value, "properties")
-		if err != nil {
-			return fmt.Errorf("failed to extract properties: %v", err)
+		properties, _, _, propErr := jsonparser.Get(value, "properties")
+		if propErr != nil {
+			return fmt.Errorf("failed to extract properties: %v", propErr)
 		}
 		if string(properties) == "{}" { // Checks for empty "properties"
 			iTransformer, err = newScalarTransformer(path, tr.transformIdentifier, value, instanceType, tr.format)
-- 
2.43.0


From 3bc7fe42a69c1bb0f470e573df1c4f4d35d2b6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 12/13] fix: merge every allOf part into a schema without
 properties

When not flattening only the first allOf part was merged, because its
properties were then taken for properties of the schema itself.
---
 jsonschema/schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonschema/schema.go b/jsonschema/schema.go
index ed62891..04e9fa5 100644
--- a/jsonschema/schema.go
+++ b/jsonschema/schema.go
@@ -132,10 +132,11 @@ func schemaFromFile(schemaLoadPath string, oneOfType string, flatten bool) (*Sch
 		// TODO this behavior is not spec compatible, according to the spec it is possible to have multiple allOf instances
 		// that conflict. The legit use case for that is rare but it is in the spec. Rather than merge these the walk
 		// should go through each set of files but this makes the raw walking much more complicated.
+		hasProperties := s.Properties != nil
 		for _, all := range sj.AllOf {
 			// If not flattening, check that the schema also has properties in order to avoid issues with schemas that only
 			// contain oneOf/allOf references.
-			if !flatten && s.Properties != nil {
+			if !flatten && hasProperties {
 				continue
 			}
 			s.Properties = mergeProperties(s.Properties, all.Properties)
-- 
2.43.0


From 72b425c2bbeca7e62f70e840f868d6a749ea3ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 13/13] fix: declare no pointer to the missing struct of an
 object without fields

Without nested structs an optional or nullable object without properties
was given a pointer to a struct type which is not generated.
---
 generate/struct.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generate/struct.go b/generate/struct.go
index c0adea1..4a5111f 100644
--- a/generate/struct.go
+++ b/generate/struct.go
@@ -433,8 +433,13 @@ func (ef *extractedField) goType(required, pointers bool, nestedStructs map[stri
 	default:
 		// TODO: use additionalProperties JSON schema value to more intelligently create the target type\
 		// when no nested struct
-		if ns := nestedStructs[ef.jsonType]; ns != nil && len(ns.fields) == 0 && !ns.array {
+		typeName := strings.TrimPrefix(ef.jsonType, "*")
+		if ns := nestedStructs[typeName]; ns != nil && len(ns.fields) == 0 && !ns.array {
 			goType = "map[string]string"
+			if typeName != ef.jsonType {
+				goType = "*" + goType
+				customType = true
+			}
 		} else {
 			goType = ef.jsonType
 			customType = true
-- 
2.43.0

