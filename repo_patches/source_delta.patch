From 98ef18d6a183c55e161ffa822cdce55b5f67ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:55 +0000
Subject: [PATCH 01/27] fix: keep exclusiveMaximum/exclusiveMinimum bound in
 OpenAPI 3.0 schema conversion

---
 openapi3/jsonschema.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 1cf4b82..55c6e05 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -260,16 +260,16 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 		os.Items.FromJSONSchema(*js.Items.SchemaOrBool)
 	}
 
-	if js.ExclusiveMaximum != nil {
+	if js.ExclusiveMaximum != nil && (js.Maximum == nil || *js.ExclusiveMaximum <= *js.Maximum) {
 		os.WithExclusiveMaximum(true)
-		os.Maximum = js.Maximum
+		os.Maximum = js.ExclusiveMaximum
 	} else if js.Maximum != nil {
 		os.Maximum = js.Maximum
 	}
 
-	if js.ExclusiveMinimum != nil {
+	if js.ExclusiveMinimum != nil && (js.Minimum == nil || *js.ExclusiveMinimum >= *js.Minimum) {
 		os.WithExclusiveMinimum(true)
-		os.Minimum = js.Minimum
+		os.Minimum = js.ExclusiveMinimum
 	} else if js.Minimum != nil {
 		os.Minimum = js.Minimum
 	}
-- 
2.43.0


From a9b3cfbc8b93e36038ed6b6e4dd18522cba10f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:21 +0000
Subject: [PATCH 02/27] fix: detect duplicate operation when path placeholder
 has a pattern

---
 openapi3/helper.go  | 9 ++++++++-
 openapi31/helper.go | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/openapi3/helper.go b/openapi3/helper.go
index b215205..1676b48 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -99,7 +99,14 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
 	method = strings.ToLower(method)
-	pathItem := s.Paths.MapOfPathItemValues[path]
+
+	// Placeholder patterns are not a part of a registered path.
+	_, cleanPath, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
+
+	pathItem := s.Paths.MapOfPathItemValues[cleanPath]
 
 	if _, found := pathItem.MapOfOperationValues[method]; found {
 		return fmt.Errorf("operation already exists: %s %s", method, path)
diff --git a/openapi31/helper.go b/openapi31/helper.go
index 533a613..fe88d78 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -155,7 +155,13 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
 	method = strings.ToLower(method)
 
-	pathItem := s.PathsEns().MapOfPathItemValues[path]
+	// Placeholder patterns are not a part of a registered path.
+	_, cleanPath, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
+
+	pathItem := s.PathsEns().MapOfPathItemValues[cleanPath]
 
 	op, err := pathItem.Operation(method)
 	if err != nil {
-- 
2.43.0


From 335b0d8dab2460f11ab54aa6752cb397b24dc1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 03/27] fix: keep OpenAPI 3.1 operation intact when
 SetupOperation fails

---
 openapi31/helper.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openapi31/helper.go b/openapi31/helper.go
index fe88d78..a632fca 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -83,10 +83,14 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 		return err
 	}
 
-	if operation == nil {
-		operation = &Operation{}
+	// Setting up a copy to keep registered operation intact in case of a failure.
+	op := Operation{}
+	if operation != nil {
+		op = *operation
 	}
 
+	operation = &op
+
 	for _, f := range setup {
 		if err := f(operation); err != nil {
 			return err
-- 
2.43.0


From ffcf704e5ffa5fe5bc32a57450c6a6aff4f7bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:24 +0000
Subject: [PATCH 04/27] fix: walk schemas of default and referenced responses
 without panic

---
 openapi3/walk_schema.go  | 9 +++++++++
 openapi31/walk_schema.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 877a252..b9c2969 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -34,10 +34,19 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 	var resp *Response
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
 	for _, r := range op.Responses.MapOfResponseOrRefValues {
 		resp = r.Response
 	}
 
+	// Response can be a reference, there are no inline schemas then.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 55aa781..862f85c 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -34,10 +34,19 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 	var resp *Response
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
 	for _, r := range op.Responses.MapOfResponseOrReferenceValues {
 		resp = r.Response
 	}
 
+	// Response can be a reference, there are no inline schemas then.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
-- 
2.43.0


From afc468a12e707e254e7a01cb02ac59ac1034a97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 05/27] fix: keep existing OpenAPI 3.1 response content when
 contentType field tag matches it

---
 openapi31/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4be25f9..3f4db10 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -623,7 +623,7 @@ func (r *Reflector) parseRawResponseBody(resp *Response, cu openapi.ContentUnit)
 	}
 
 	refl.WalkTaggedFields(reflect.ValueOf(cu.Structure), func(_ reflect.Value, _ reflect.StructField, tag string) {
-		resp.WithContentItem(tag, mediaType(""))
+		r.ensureResponseContentType(resp, tag, "")
 	}, tagContentType)
 }
 
-- 
2.43.0


From 5279755b97cc56fd276d8a8f78ccb8f67c163a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 06/27] fix: keep headers of other content units of the same
 response

---
 openapi3/reflect.go  | 5 ++++-
 openapi31/reflect.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 8f9d147..6d4ed14 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -638,7 +638,10 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	// Several content units can contribute headers to the same response.
+	for name, header := range res {
+		resp.WithHeadersItem(name, header)
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 3f4db10..543a7c5 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -608,7 +608,10 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	// Several content units can contribute headers to the same response.
+	for name, header := range res {
+		resp.WithHeadersItem(name, header)
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
-- 
2.43.0


From bdac1a461748b3b464b8c106137b15db6b2884e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 07/27] fix: resolve references in all OpenAPI 3.1 subschemas
 when exporting JSON schema

---
 openapi31/jsonschema.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 62429f7..9234dd8 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -121,4 +121,31 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 	if jso.AdditionalProperties != nil {
 		findReferences(*jso.AdditionalProperties, ctx)
 	}
+
+	findApplicatorReferences(jso, ctx)
+}
+
+// findApplicatorReferences processes subschemas that are not available in OpenAPI 3.0.
+func findApplicatorReferences(jso *jsonschema.Schema, ctx toJSONSchemaContext) {
+	for _, s := range []*jsonschema.SchemaOrBool{
+		jso.If, jso.Then, jso.Else, jso.Contains, jso.PropertyNames, jso.AdditionalItems,
+	} {
+		if s != nil {
+			findReferences(*s, ctx)
+		}
+	}
+
+	for _, s := range jso.PatternProperties {
+		findReferences(s, ctx)
+	}
+
+	for _, s := range jso.Definitions {
+		findReferences(s, ctx)
+	}
+
+	for _, d := range jso.Dependencies {
+		if d.SchemaOrBool != nil {
+			findReferences(*d.SchemaOrBool, ctx)
+		}
+	}
 }
-- 
2.43.0


From b7f240eafebf88168b666e59a2e30363601d8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 08/27] fix: do not overflow stack on recursive query parameter
 structures

---
 openapi3/reflect.go  | 2 +-
 openapi31/reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 6d4ed14..731700a 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -517,9 +517,9 @@ func (r *Reflector) parseParametersIn(
 				p.Schema = nil
 				p.WithContentItem("application/json", MediaType{Schema: &openapiSchema})
 			} else {
+				// Only root type is checked, inlining references would not terminate on recursive types.
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 543a7c5..18c4e5d 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -482,9 +482,9 @@ func (r *Reflector) parseParametersIn(
 				p.Schema = nil
 				p.WithContentItem("application/json", MediaType{Schema: sm})
 			} else {
+				// Only root type is checked, inlining references would not terminate on recursive types.
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
-- 
2.43.0


From 869e76c3adf8125b76d32aee3a85fcbea006960e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 09/27] fix: reject repeated registration before changing
 already registered operation

---
 openapi3/reflect.go  |  5 +++++
 openapi31/reflect.go | 24 +++++++++++++++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 731700a..dd37706 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -270,6 +270,11 @@ func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
 		return fmt.Errorf("wrong operation context %T received, %T expected", oc, operationContext{})
 	}
 
+	// Context that was already added shares data with registered operation, it should not be set up again.
+	if _, found := r.SpecEns().Paths.MapOfPathItemValues[oc.PathPattern()].MapOfOperationValues[oc.Method()]; found {
+		return fmt.Errorf("operation already exists: %s %s", oc.Method(), oc.PathPattern())
+	}
+
 	if err := r.setupRequest(c.op, oc); err != nil {
 		return fmt.Errorf("setup request %s %s: %w", oc.Method(), oc.PathPattern(), err)
 	}
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 18c4e5d..4a5cc57 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -212,7 +212,14 @@ func (o operationContext) Operation() *Operation {
 
 // AddOperation configures operation request and response schema.
 func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
-	c, err := r.setupOC(oc)
+	c, err := r.setupOC(oc, func() error {
+		op, err := r.SpecEns().PathsEns().MapOfPathItemValues[oc.PathPattern()].Operation(oc.Method())
+		if err == nil && op != nil {
+			return fmt.Errorf("operation already exists: %s %s", oc.Method(), oc.PathPattern())
+		}
+
+		return err
+	})
 	if err != nil {
 		return err
 	}
@@ -222,7 +229,13 @@ func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
 
 // AddWebhook configures webhook request and response schema.
 func (r *Reflector) AddWebhook(oc openapi.OperationContext) error {
-	c, err := r.setupOC(oc)
+	c, err := r.setupOC(oc, func() error {
+		if _, found := r.SpecEns().Webhooks[oc.PathPattern()]; found {
+			return fmt.Errorf("duplicate webhook name: %s", oc.PathPattern())
+		}
+
+		return nil
+	})
 	if err != nil {
 		return err
 	}
@@ -230,12 +243,17 @@ func (r *Reflector) AddWebhook(oc openapi.OperationContext) error {
 	return r.SpecEns().AddWebhook(oc.Method(), c.PathPattern(), *c.op)
 }
 
-func (r *Reflector) setupOC(oc openapi.OperationContext) (operationContext, error) {
+func (r *Reflector) setupOC(oc openapi.OperationContext, checkExisting func() error) (operationContext, error) {
 	c, ok := oc.(operationContext)
 	if !ok {
 		return c, fmt.Errorf("wrong operation context %T received, %T expected", oc, operationContext{})
 	}
 
+	// Context that was already added shares data with registered operation, it should not be set up again.
+	if err := checkExisting(); err != nil {
+		return c, err
+	}
+
 	if err := r.setupRequest(c.op, oc); err != nil {
 		return c, fmt.Errorf("setup request %s %s: %w", oc.Method(), oc.PathPattern(), err)
 	}
-- 
2.43.0


From 3438a989a78a90b1ec6600d0b0546e71ae7b8b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:30 +0000
Subject: [PATCH 10/27] fix: do not panic when response header schema is a
 reference

---
 openapi3/reflect.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index dd37706..14134c7 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -597,6 +597,14 @@ func (r *Reflector) collectDefinition() func(name string, schema jsonschema.Sche
 	}
 }
 
+func isDeprecated(s SchemaOrRef) *bool {
+	if s.Schema == nil { // Schema is a reference.
+		return nil
+	}
+
+	return s.Schema.Deprecated
+}
+
 func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationContext, cu openapi.ContentUnit) error {
 	if cu.Structure == nil {
 		return nil
@@ -619,7 +627,7 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 
 			header := Header{
 				Description:   propertySchema.Description,
-				Deprecated:    s.Schema.Deprecated,
+				Deprecated:    isDeprecated(s),
 				Schema:        &s,
 				Content:       nil,
 				Example:       nil,
-- 
2.43.0


From c55a89a91c8bf660fa4d496527ea72f593d01020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:33 +0000
Subject: [PATCH 11/27] fix: keep changes of decoded OpenAPI 3.0 parameter
 schema and do not encode members twice

---
 openapi3/entities.go |  9 +++++++--
 openapi3/yaml.go     | 46 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 356433a..e5ff31e 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -1659,7 +1659,12 @@ func (p *Parameter) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (p Parameter) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalParameter(p), p.MapOfAnything, p.SchemaXORContent, p.Location)
+	// Decoding keeps a copy of schema or content, members of parameter itself take precedence.
+	if p.Schema != nil || p.Content != nil {
+		p.SchemaXORContent = nil
+	}
+
+	return uniqueMembers(marshalUnion(marshalParameter(p), p.MapOfAnything, p.SchemaXORContent, p.Location))
 }
 
 // Schema structure is generated from "#/definitions/Schema".
@@ -6744,7 +6749,7 @@ var constHTTPSecurityScheme = json.RawMessage(`{"type":"http"}`)
 
 // MarshalJSON encodes JSON.
 func (h HTTPSecurityScheme) MarshalJSON() ([]byte, error) {
-	return marshalUnion(constHTTPSecurityScheme, marshalHTTPSecurityScheme(h), h.MapOfAnything, h.Bearer, h.NonBearer)
+	return uniqueMembers(marshalUnion(constHTTPSecurityScheme, marshalHTTPSecurityScheme(h), h.MapOfAnything, h.Bearer, h.NonBearer))
 }
 
 // Bearer structure is generated from "#/definitions/HTTPSecurityScheme/oneOf/0".
diff --git a/openapi3/yaml.go b/openapi3/yaml.go
index 458e378..2332eac 100644
--- a/openapi3/yaml.go
+++ b/openapi3/yaml.go
@@ -70,6 +70,52 @@ func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// uniqueMembers removes repeated members of JSON object, the last value of a member is kept.
+func uniqueMembers(data []byte, err error) ([]byte, error) {
+	if err != nil {
+		return nil, err
+	}
+
+	var values map[string]json.RawMessage
+
+	if err := json.Unmarshal(data, &values); err != nil {
+		return nil, err
+	}
+
+	keys, err := objectKeys(data)
+	if err != nil {
+		return nil, err
+	}
+
+	if len(keys) == len(values) {
+		return data, nil
+	}
+
+	result := []byte("{")
+
+	for _, key := range keys {
+		value, ok := values[key]
+		if !ok {
+			continue
+		}
+
+		delete(values, key)
+
+		if len(result) > 1 {
+			result = append(result, ',')
+		}
+
+		k, err := json.Marshal(key)
+		if err != nil {
+			return nil, err
+		}
+
+		result = append(append(append(result, k...), ':'), value...)
+	}
+
+	return append(result, '}'), nil
+}
+
 func objectKeys(b []byte) ([]string, error) {
 	d := json.NewDecoder(bytes.NewReader(b))
 
-- 
2.43.0


From 1a2c2bfaa608e558f38bc762e9af00ac0edf10c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:39 +0000
Subject: [PATCH 12/27] fix: keep schema traits of a type first used in a
 pointer JSON parameter

---
 openapi3/reflect.go  | 2 +-
 openapi31/reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 14134c7..97310d6 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -501,7 +501,7 @@ func (r *Reflector) parseParametersIn(
 			}
 
 			// Check if parameter is an JSON encoded object.
-			property := reflect.New(field.Type).Interface()
+			property := reflect.New(refl.DeepIndirect(field.Type)).Interface()
 
 			if collectionFormat == "json" ||
 				(refl.HasTaggedFields(property, tagJSON) && !refl.HasTaggedFields(property, string(in))) {
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4a5cc57..a550f44 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -478,7 +478,7 @@ func (r *Reflector) parseParametersIn(
 			}
 
 			// Check if parameter is an JSON encoded object.
-			property := reflect.New(field.Type).Interface()
+			property := reflect.New(refl.DeepIndirect(field.Type)).Interface()
 			if collectionFormat == "json" || //nolint:nestif
 				(refl.HasTaggedFields(property, tagJSON) && !refl.HasTaggedFields(property, string(in))) {
 				propertySchema, err := r.Reflect(property,
-- 
2.43.0


From e529bc1ab027bfe128aa24972b75f907f6254c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 13/27] fix: make order of YAML keys independent of map
 iteration

---
 internal/yaml_order.go | 120 +++++++++++++++++++++++++++++++++++++++++
 openapi3/yaml.go       |   3 +-
 openapi31/yaml.go      |   3 +-
 3 files changed, 124 insertions(+), 2 deletions(-)
 create mode 100644 internal/yaml_order.go

diff --git a/internal/yaml_order.go b/internal/yaml_order.go
new file mode 100644
index 0000000..bf1730f
--- /dev/null
+++ b/internal/yaml_order.go
@@ -0,0 +1,120 @@
+package internal
+
+import (
+	"sort"
+	"unicode"
+
+	"gopkg.in/yaml.v2"
+)
+
+// OrderedYAML replaces maps with ordered maps, recursively.
+//
+// Order of keys is the natural one used by yaml.v2, but it does not depend on map iteration,
+// comparison of yaml.v2 is not transitive for keys like "200", "404", "4XX".
+func OrderedYAML(v interface{}) interface{} {
+	switch x := v.(type) {
+	case map[string]interface{}:
+		keys := make([]string, 0, len(x))
+		for k := range x {
+			keys = append(keys, k)
+		}
+
+		sort.Slice(keys, func(i, j int) bool {
+			return keyLess([]rune(keys[i]), []rune(keys[j]))
+		})
+
+		om := make(yaml.MapSlice, 0, len(keys))
+		for _, k := range keys {
+			om = append(om, yaml.MapItem{Key: k, Value: OrderedYAML(x[k])})
+		}
+
+		return om
+	case []interface{}:
+		items := make([]interface{}, len(x))
+		for i := range x {
+			items[i] = OrderedYAML(x[i])
+		}
+
+		return items
+	}
+
+	return v
+}
+
+// keyLess compares keys by numbers and characters, letters go last.
+func keyLess(a, b []rune) bool {
+	i, j := 0, 0
+
+	for i < len(a) && j < len(b) {
+		if unicode.IsDigit(a[i]) && unicode.IsDigit(b[j]) {
+			na, nb := digits(a[i:]), digits(b[j:])
+
+			if c := compareDigits(na, nb); c != 0 {
+				return c < 0
+			}
+
+			i += len(na)
+			j += len(nb)
+
+			continue
+		}
+
+		if ra, rb := rank(a[i]), rank(b[j]); ra != rb {
+			return ra < rb
+		}
+
+		if a[i] != b[j] {
+			return a[i] < b[j]
+		}
+
+		i++
+		j++
+	}
+
+	return len(a)-i < len(b)-j
+}
+
+func rank(r rune) int {
+	switch {
+	case unicode.IsLetter(r):
+		return 2
+	case unicode.IsDigit(r):
+		return 1
+	default:
+		return 0
+	}
+}
+
+func digits(s []rune) []rune {
+	n := 0
+	for n < len(s) && unicode.IsDigit(s[n]) {
+		n++
+	}
+
+	return s[:n]
+}
+
+// compareDigits compares values of numbers, then their lengths.
+func compareDigits(a, b []rune) int {
+	ta, tb := a, b
+
+	for len(ta) > 1 && ta[0] == '0' {
+		ta = ta[1:]
+	}
+
+	for len(tb) > 1 && tb[0] == '0' {
+		tb = tb[1:]
+	}
+
+	if len(ta) != len(tb) {
+		return len(ta) - len(tb)
+	}
+
+	for i := range ta {
+		if ta[i] != tb[i] {
+			return int(ta[i]) - int(tb[i])
+		}
+	}
+
+	return len(a) - len(b)
+}
diff --git a/openapi3/yaml.go b/openapi3/yaml.go
index 2332eac..c9ac7e7 100644
--- a/openapi3/yaml.go
+++ b/openapi3/yaml.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 
+	"github.com/swaggest/openapi-go/internal"
 	"gopkg.in/yaml.v2"
 )
 
@@ -63,7 +64,7 @@ func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	for _, key := range keys {
 		*om = append(*om, yaml.MapItem{
 			Key:   key,
-			Value: mapData[key],
+			Value: internal.OrderedYAML(mapData[key]),
 		})
 	}
 
diff --git a/openapi31/yaml.go b/openapi31/yaml.go
index 4e9bb9e..30dbe21 100644
--- a/openapi31/yaml.go
+++ b/openapi31/yaml.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 
+	"github.com/swaggest/openapi-go/internal"
 	"gopkg.in/yaml.v2"
 )
 
@@ -63,7 +64,7 @@ func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	for _, key := range keys {
 		*om = append(*om, yaml.MapItem{
 			Key:   key,
-			Value: mapData[key],
+			Value: internal.OrderedYAML(mapData[key]),
 		})
 	}
 
-- 
2.43.0


From 9177457620d82947adb4294867d4afdea9f87121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:53 +0000
Subject: [PATCH 14/27] fix: keep keywords next to references when exporting
 3.1 schemas to JSON Schema

---
 openapi31/jsonschema.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 9234dd8..d7e8372 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -38,8 +38,8 @@ func ToJSONSchema(s map[string]interface{}, spec *Spec) jsonschema.SchemaOrBool
 
 	findReferences(js, ctx)
 
-	// Inline root reference without recursions.
-	if js.TypeObjectEns().Ref != nil {
+	// Inline root reference without recursions and without sibling keywords.
+	if js.TypeObjectEns().Ref != nil && len(s) == 1 {
 		dstName := strings.TrimPrefix(*js.TypeObjectEns().Ref, componentsSchemas)
 		if ctx.refsCount[dstName] == 1 {
 			js = ctx.refsProcessed[dstName]
@@ -84,8 +84,6 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 
 			ctx.refsCount[dstName]++
 		}
-
-		return
 	}
 
 	if jso.Not != nil {
-- 
2.43.0


From a38df3d59f241ad042cc2e42cc1d07d676b80834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:54 +0000
Subject: [PATCH 15/27] fix: follow references under JSON Schema 2020-12
 keywords when exporting 3.1 schemas

---
 openapi31/jsonschema.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index d7e8372..7c32f1f 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -146,4 +146,38 @@ func findApplicatorReferences(jso *jsonschema.Schema, ctx toJSONSchemaContext) {
 			findReferences(*d.SchemaOrBool, ctx)
 		}
 	}
+
+	for name, val := range jso.ExtraProperties {
+		switch name {
+		case "unevaluatedItems", "unevaluatedProperties", "contentSchema":
+			findUntypedReferences(val, ctx)
+		case "prefixItems":
+			if items, ok := val.([]interface{}); ok {
+				for _, item := range items {
+					findUntypedReferences(item, ctx)
+				}
+			}
+		case "$defs", "dependentSchemas":
+			if defs, ok := val.(map[string]interface{}); ok {
+				for _, def := range defs {
+					findUntypedReferences(def, ctx)
+				}
+			}
+		}
+	}
+}
+
+// findUntypedReferences processes subschemas of keywords that are not available in JSON Schema Draft 7.
+func findUntypedReferences(val interface{}, ctx toJSONSchemaContext) {
+	m, ok := val.(map[string]interface{})
+	if !ok {
+		return
+	}
+
+	js := jsonschema.SchemaOrBool{}
+	if err := js.FromSimpleMap(m); err != nil {
+		return // Not a schema.
+	}
+
+	findReferences(js, ctx)
 }
-- 
2.43.0


From 592efd2dc19913a41347ef3749db7eb4e5d69353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 16/27] fix: decode examples of OpenAPI 3.1

---
 openapi31/entities.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index e84efa5..aa52a10 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1884,12 +1884,6 @@ var knownKeysExample = []string{
 func (e *Example) UnmarshalJSON(data []byte) error {
 	var err error
 
-	var not interface{}
-
-	if json.Unmarshal(data, &not) == nil {
-		return errors.New("not constraint failed for Example")
-	}
-
 	me := marshalExample(*e)
 
 	err = json.Unmarshal(data, &me)
@@ -1904,6 +1898,13 @@ func (e *Example) UnmarshalJSON(data []byte) error {
 		rawMap = nil
 	}
 
+	_, valueExists := rawMap["value"]
+	_, externalValueExists := rawMap["externalValue"]
+
+	if valueExists && externalValueExists {
+		return errors.New("both value and externalValue are set, only one of them is allowed")
+	}
+
 	if me.Value == nil {
 		if _, ok := rawMap["value"]; ok {
 			var v interface{}
-- 
2.43.0


From dda3fe453120503efc9cd6353047e30d31566572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 17/27] fix: decode OpenAPI 3.1 references to objects without
 required members

---
 openapi31/entities.go | 67 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index aa52a10..e051187 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1991,6 +1991,12 @@ func (e *ExampleOrReference) ExampleEns() *Example {
 func (e *ExampleOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if isReference(data) {
+		e.Example = nil
+
+		return json.Unmarshal(data, &e.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -2062,6 +2068,12 @@ func (h *HeaderOrReference) HeaderEns() *Header {
 func (h *HeaderOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if isReference(data) {
+		h.Header = nil
+
+		return json.Unmarshal(data, &h.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -2228,6 +2240,12 @@ func (p *ParameterOrReference) ParameterEns() *Parameter {
 func (p *ParameterOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if isReference(data) {
+		p.Parameter = nil
+
+		return json.Unmarshal(data, &p.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -2758,6 +2776,12 @@ func (r *RequestBodyOrReference) RequestBodyEns() *RequestBody {
 func (r *RequestBodyOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if isReference(data) {
+		r.RequestBody = nil
+
+		return json.Unmarshal(data, &r.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -3283,6 +3307,12 @@ func (l *LinkOrReference) LinkEns() *Link {
 func (l *LinkOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if isReference(data) {
+		l.Link = nil
+
+		return json.Unmarshal(data, &l.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -3354,6 +3384,12 @@ func (r *ResponseOrReference) ResponseEns() *Response {
 func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if isReference(data) {
+		r.Response = nil
+
+		return json.Unmarshal(data, &r.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -3524,6 +3560,12 @@ func (p *PathItemOrReference) PathItemEns() *PathItem {
 func (p *PathItemOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if isReference(data) {
+		p.PathItem = nil
+
+		return json.Unmarshal(data, &p.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -3595,6 +3637,12 @@ func (c *CallbacksOrReference) CallbacksEns() *Callbacks {
 func (c *CallbacksOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if isReference(data) {
+		c.Callbacks = nil
+
+		return json.Unmarshal(data, &c.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -5260,6 +5308,12 @@ func (s *SecuritySchemeOrReference) SecuritySchemeEns() *SecurityScheme {
 func (s *SecuritySchemeOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if isReference(data) {
+		s.SecurityScheme = nil
+
+		return json.Unmarshal(data, &s.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -5623,6 +5677,19 @@ func (i *SecuritySchemeAPIKeyIn) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// isReference tells if JSON data is an object with $ref.
+func isReference(data []byte) bool {
+	var rawMap map[string]json.RawMessage
+
+	if err := json.Unmarshal(data, &rawMap); err != nil {
+		return false
+	}
+
+	_, found := rawMap["$ref"]
+
+	return found
+}
+
 func marshalUnion(maps ...interface{}) ([]byte, error) {
 	result := []byte("{")
 	isObject := true
-- 
2.43.0


From 24c2905d0ea31b6f8f60a14e61fc7595fef7905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:06 +0000
Subject: [PATCH 18/27] fix: allow matrix, label and simple styles of OpenAPI
 3.1 parameters

---
 openapi31/entities.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index e051187..6896b15 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -5585,6 +5585,9 @@ const (
 	ParameterStyleSpaceDelimited = ParameterStyle("spaceDelimited")
 	ParameterStylePipeDelimited  = ParameterStyle("pipeDelimited")
 	ParameterStyleDeepObject     = ParameterStyle("deepObject")
+	ParameterStyleMatrix         = ParameterStyle("matrix")
+	ParameterStyleLabel          = ParameterStyle("label")
+	ParameterStyleSimple         = ParameterStyle("simple")
 )
 
 // MarshalJSON encodes JSON.
@@ -5594,6 +5597,9 @@ func (i ParameterStyle) MarshalJSON() ([]byte, error) {
 	case ParameterStyleSpaceDelimited:
 	case ParameterStylePipeDelimited:
 	case ParameterStyleDeepObject:
+	case ParameterStyleMatrix:
+	case ParameterStyleLabel:
+	case ParameterStyleSimple:
 
 	default:
 		return nil, fmt.Errorf("unexpected ParameterStyle value: %v", i)
@@ -5618,6 +5624,9 @@ func (i *ParameterStyle) UnmarshalJSON(data []byte) error {
 	case ParameterStyleSpaceDelimited:
 	case ParameterStylePipeDelimited:
 	case ParameterStyleDeepObject:
+	case ParameterStyleMatrix:
+	case ParameterStyleLabel:
+	case ParameterStyleSimple:
 
 	default:
 		return fmt.Errorf("unexpected ParameterStyle value: %v", v)
-- 
2.43.0


From f0735f858e6d8d1728e41708f487fd96c4c6c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 19/27] fix: keep allowEmptyValue and allowReserved of OpenAPI
 3.1 parameters

---
 openapi31/entities.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 6896b15..3075131 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1188,18 +1188,20 @@ func (r *Reference) UnmarshalJSON(data []byte) error {
 
 // Parameter structure is generated from "#/$defs/parameter".
 type Parameter struct {
-	Name          string                        `json:"name"` // Required.
-	In            ParameterIn                   `json:"in"`   // Required.
-	Description   *string                       `json:"description,omitempty"`
-	Required      *bool                         `json:"required,omitempty"`
-	Deprecated    *bool                         `json:"deprecated,omitempty"`
-	Schema        map[string]interface{}        `json:"schema,omitempty"`
-	Content       map[string]MediaType          `json:"content,omitempty"`
-	Style         *ParameterStyle               `json:"style,omitempty"`
-	Explode       *bool                         `json:"explode,omitempty"`
-	Example       *interface{}                  `json:"example,omitempty"`
-	Examples      map[string]ExampleOrReference `json:"examples,omitempty"`
-	MapOfAnything map[string]interface{}        `json:"-"` // Key must match pattern: `^x-`.
+	Name            string                        `json:"name"` // Required.
+	In              ParameterIn                   `json:"in"`   // Required.
+	Description     *string                       `json:"description,omitempty"`
+	Required        *bool                         `json:"required,omitempty"`
+	Deprecated      *bool                         `json:"deprecated,omitempty"`
+	Schema          map[string]interface{}        `json:"schema,omitempty"`
+	Content         map[string]MediaType          `json:"content,omitempty"`
+	Style           *ParameterStyle               `json:"style,omitempty"`
+	Explode         *bool                         `json:"explode,omitempty"`
+	Example         *interface{}                  `json:"example,omitempty"`
+	Examples        map[string]ExampleOrReference `json:"examples,omitempty"`
+	AllowEmptyValue *bool                         `json:"allowEmptyValue,omitempty"`
+	AllowReserved   *bool                         `json:"allowReserved,omitempty"`
+	MapOfAnything   map[string]interface{}        `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithName sets Name value.
@@ -1301,6 +1303,18 @@ func (p *Parameter) WithExamplesItem(key string, val ExampleOrReference) *Parame
 	return p
 }
 
+// WithAllowEmptyValue sets AllowEmptyValue value.
+func (p *Parameter) WithAllowEmptyValue(val bool) *Parameter {
+	p.AllowEmptyValue = &val
+	return p
+}
+
+// WithAllowReserved sets AllowReserved value.
+func (p *Parameter) WithAllowReserved(val bool) *Parameter {
+	p.AllowReserved = &val
+	return p
+}
+
 // WithMapOfAnything sets MapOfAnything value.
 func (p *Parameter) WithMapOfAnything(val map[string]interface{}) *Parameter {
 	p.MapOfAnything = val
@@ -1332,6 +1346,8 @@ var knownKeysParameter = []string{
 	"explode",
 	"example",
 	"examples",
+	"allowEmptyValue",
+	"allowReserved",
 }
 
 var requireKeysParameter = []string{
-- 
2.43.0


From 07876b9204cf2f1587aa8b91651886164fcc7773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 20/27] fix: allow and keep extensions of encodings

---
 openapi3/entities.go  | 58 ++++++++++++++++++++++++++---
 openapi31/entities.go | 85 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 138 insertions(+), 5 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index e5ff31e..08f0334 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -2954,11 +2954,12 @@ func (e ExampleOrRef) MarshalJSON() ([]byte, error) {
 
 // Encoding structure is generated from "#/definitions/Encoding".
 type Encoding struct {
-	ContentType   *string           `json:"contentType,omitempty"`
-	Headers       map[string]Header `json:"headers,omitempty"`
-	Style         *EncodingStyle    `json:"style,omitempty"`
-	Explode       *bool             `json:"explode,omitempty"`
-	AllowReserved *bool             `json:"allowReserved,omitempty"`
+	ContentType   *string                `json:"contentType,omitempty"`
+	Headers       map[string]Header      `json:"headers,omitempty"`
+	Style         *EncodingStyle         `json:"style,omitempty"`
+	Explode       *bool                  `json:"explode,omitempty"`
+	AllowReserved *bool                  `json:"allowReserved,omitempty"`
+	MapOfAnything map[string]interface{} `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithContentType sets ContentType value.
@@ -3002,6 +3003,23 @@ func (e *Encoding) WithAllowReserved(val bool) *Encoding {
 	return e
 }
 
+// WithMapOfAnything sets MapOfAnything value.
+func (e *Encoding) WithMapOfAnything(val map[string]interface{}) *Encoding {
+	e.MapOfAnything = val
+	return e
+}
+
+// WithMapOfAnythingItem sets MapOfAnything item value.
+func (e *Encoding) WithMapOfAnythingItem(key string, val interface{}) *Encoding {
+	if e.MapOfAnything == nil {
+		e.MapOfAnything = make(map[string]interface{}, 1)
+	}
+
+	e.MapOfAnything[key] = val
+
+	return e
+}
+
 type marshalEncoding Encoding
 
 var knownKeysEncoding = []string{
@@ -3034,6 +3052,31 @@ func (e *Encoding) UnmarshalJSON(data []byte) error {
 		delete(rawMap, key)
 	}
 
+	for key, rawValue := range rawMap {
+		matched := false
+
+		if regexX.MatchString(key) {
+			matched = true
+
+			if me.MapOfAnything == nil {
+				me.MapOfAnything = make(map[string]interface{}, 1)
+			}
+
+			var val interface{}
+
+			err = json.Unmarshal(rawValue, &val)
+			if err != nil {
+				return err
+			}
+
+			me.MapOfAnything[key] = val
+		}
+
+		if matched {
+			delete(rawMap, key)
+		}
+	}
+
 	if len(rawMap) != 0 {
 		offendingKeys := make([]string, 0, len(rawMap))
 
@@ -3049,6 +3092,11 @@ func (e *Encoding) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// MarshalJSON encodes JSON.
+func (e Encoding) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalEncoding(e), e.MapOfAnything)
+}
+
 // Header structure is generated from "#/definitions/Header".
 type Header struct {
 	Description     *string                 `json:"description,omitempty"`
diff --git a/openapi31/entities.go b/openapi31/entities.go
index 3075131..d705a40 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1588,6 +1588,7 @@ type Encoding struct {
 	Style         *EncodingStyle               `json:"style,omitempty"`
 	Explode       *bool                        `json:"explode,omitempty"`
 	AllowReserved *bool                        `json:"allowReserved,omitempty"`
+	MapOfAnything map[string]interface{}       `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithContentType sets ContentType value.
@@ -1631,6 +1632,90 @@ func (e *Encoding) WithAllowReserved(val bool) *Encoding {
 	return e
 }
 
+// WithMapOfAnything sets MapOfAnything value.
+func (e *Encoding) WithMapOfAnything(val map[string]interface{}) *Encoding {
+	e.MapOfAnything = val
+	return e
+}
+
+// WithMapOfAnythingItem sets MapOfAnything item value.
+func (e *Encoding) WithMapOfAnythingItem(key string, val interface{}) *Encoding {
+	if e.MapOfAnything == nil {
+		e.MapOfAnything = make(map[string]interface{}, 1)
+	}
+
+	e.MapOfAnything[key] = val
+
+	return e
+}
+
+type marshalEncoding Encoding
+
+var knownKeysEncoding = []string{
+	"contentType",
+	"headers",
+	"style",
+	"explode",
+	"allowReserved",
+}
+
+// UnmarshalJSON decodes JSON.
+func (e *Encoding) UnmarshalJSON(data []byte) error {
+	var err error
+
+	me := marshalEncoding(*e)
+
+	err = json.Unmarshal(data, &me)
+	if err != nil {
+		return err
+	}
+
+	var rawMap map[string]json.RawMessage
+
+	err = json.Unmarshal(data, &rawMap)
+	if err != nil {
+		rawMap = nil
+	}
+
+	for _, key := range knownKeysEncoding {
+		delete(rawMap, key)
+	}
+
+	for key, rawValue := range rawMap {
+		matched := false
+
+		if regexX.MatchString(key) {
+			matched = true
+
+			if me.MapOfAnything == nil {
+				me.MapOfAnything = make(map[string]interface{}, 1)
+			}
+
+			var val interface{}
+
+			err = json.Unmarshal(rawValue, &val)
+			if err != nil {
+				return err
+			}
+
+			me.MapOfAnything[key] = val
+		}
+
+		if matched {
+			delete(rawMap, key)
+		}
+	}
+
+	*e = Encoding(me)
+
+	return nil
+}
+
+// MarshalJSON encodes JSON.
+func (e Encoding) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalEncoding(e), e.MapOfAnything)
+}
+
 // Header structure is generated from "#/$defs/header".
 type Header struct {
 	Description   *string                       `json:"description,omitempty"`
-- 
2.43.0


From 1278da7afa2aa2036ac2f76e4111b76dd7895fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 21/27] fix: keep extensions of OpenAPI 3.1 components

---
 openapi31/entities.go | 90 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 90 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index d705a40..590ad5f 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -3888,6 +3888,7 @@ type Components struct {
 	Links           map[string]LinkOrReference           `json:"links,omitempty"`
 	Callbacks       map[string]CallbacksOrReference      `json:"callbacks,omitempty"`
 	PathItems       map[string]PathItemOrReference       `json:"pathItems,omitempty"`
+	MapOfAnything   map[string]interface{}               `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithSchemas sets Schemas value.
@@ -4060,6 +4061,95 @@ func (c *Components) WithPathItemsItem(key string, val PathItemOrReference) *Com
 	return c
 }
 
+// WithMapOfAnything sets MapOfAnything value.
+func (c *Components) WithMapOfAnything(val map[string]interface{}) *Components {
+	c.MapOfAnything = val
+	return c
+}
+
+// WithMapOfAnythingItem sets MapOfAnything item value.
+func (c *Components) WithMapOfAnythingItem(key string, val interface{}) *Components {
+	if c.MapOfAnything == nil {
+		c.MapOfAnything = make(map[string]interface{}, 1)
+	}
+
+	c.MapOfAnything[key] = val
+
+	return c
+}
+
+type marshalComponents Components
+
+var knownKeysComponents = []string{
+	"schemas",
+	"responses",
+	"parameters",
+	"examples",
+	"requestBodies",
+	"headers",
+	"securitySchemes",
+	"links",
+	"callbacks",
+	"pathItems",
+}
+
+// UnmarshalJSON decodes JSON.
+func (c *Components) UnmarshalJSON(data []byte) error {
+	var err error
+
+	mc := marshalComponents(*c)
+
+	err = json.Unmarshal(data, &mc)
+	if err != nil {
+		return err
+	}
+
+	var rawMap map[string]json.RawMessage
+
+	err = json.Unmarshal(data, &rawMap)
+	if err != nil {
+		rawMap = nil
+	}
+
+	for _, key := range knownKeysComponents {
+		delete(rawMap, key)
+	}
+
+	for key, rawValue := range rawMap {
+		matched := false
+
+		if regexX.MatchString(key) {
+			matched = true
+
+			if mc.MapOfAnything == nil {
+				mc.MapOfAnything = make(map[string]interface{}, 1)
+			}
+
+			var val interface{}
+
+			err = json.Unmarshal(rawValue, &val)
+			if err != nil {
+				return err
+			}
+
+			mc.MapOfAnything[key] = val
+		}
+
+		if matched {
+			delete(rawMap, key)
+		}
+	}
+
+	*c = Components(mc)
+
+	return nil
+}
+
+// MarshalJSON encodes JSON.
+func (c Components) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalComponents(c), c.MapOfAnything)
+}
+
 // SecurityScheme structure is generated from "#/$defs/security-scheme".
 type SecurityScheme struct {
 	Description   *string                   `json:"description,omitempty"`
-- 
2.43.0


From 7401a28fa23fd57d715ea719bda64db25906ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:12 +0000
Subject: [PATCH 22/27] fix: keep server of OpenAPI 3.1 links

---
 openapi31/entities.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 590ad5f..4057828 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -3217,6 +3217,7 @@ type Link struct {
 	RequestBody   *interface{}           `json:"requestBody,omitempty"`
 	Description   *string                `json:"description,omitempty"`
 	Body          *Server                `json:"body,omitempty"`
+	Server        *Server                `json:"server,omitempty"`
 	MapOfAnything map[string]interface{} `json:"-"` // Key must match pattern: `^x-`.
 }
 
@@ -3276,6 +3277,21 @@ func (l *Link) BodyEns() *Server {
 	return l.Body
 }
 
+// WithServer sets Server value.
+func (l *Link) WithServer(val Server) *Link {
+	l.Server = &val
+	return l
+}
+
+// ServerEns ensures returned Server is not nil.
+func (l *Link) ServerEns() *Server {
+	if l.Server == nil {
+		l.Server = new(Server)
+	}
+
+	return l.Server
+}
+
 // WithMapOfAnything sets MapOfAnything value.
 func (l *Link) WithMapOfAnything(val map[string]interface{}) *Link {
 	l.MapOfAnything = val
@@ -3302,6 +3318,7 @@ var knownKeysLink = []string{
 	"requestBody",
 	"description",
 	"body",
+	"server",
 }
 
 // UnmarshalJSON decodes JSON.
-- 
2.43.0


From 518152290f1036880b5a457dca325fe4a1f386d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:14 +0000
Subject: [PATCH 23/27] fix: keep references of OpenAPI 3.1 path items

---
 openapi31/entities.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 4057828..d9035f9 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -874,6 +874,7 @@ func (s ServerVariable) MarshalJSON() ([]byte, error) {
 
 // PathItem structure is generated from "#/$defs/path-item".
 type PathItem struct {
+	Ref           *string                `json:"$ref,omitempty"` // Format: uri-reference.
 	Summary       *string                `json:"summary,omitempty"`
 	Description   *string                `json:"description,omitempty"`
 	Servers       []Server               `json:"servers,omitempty"`
@@ -889,6 +890,12 @@ type PathItem struct {
 	MapOfAnything map[string]interface{} `json:"-"` // Key must match pattern: `^x-`.
 }
 
+// WithRef sets Ref value.
+func (p *PathItem) WithRef(val string) *PathItem {
+	p.Ref = &val
+	return p
+}
+
 // WithSummary sets Summary value.
 func (p *PathItem) WithSummary(val string) *PathItem {
 	p.Summary = &val
@@ -1053,6 +1060,7 @@ func (p *PathItem) WithMapOfAnythingItem(key string, val interface{}) *PathItem
 type marshalPathItem PathItem
 
 var knownKeysPathItem = []string{
+	"$ref",
 	"summary",
 	"description",
 	"servers",
-- 
2.43.0


From 0025df08340b614234e86bf4da4043b0090a45b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 24/27] fix: reject paths, callbacks and components that are
 not objects

---
 openapi3/entities.go  | 22 +++++++++++-----------
 openapi31/entities.go |  4 ++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 08f0334..5e18de8 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -5524,7 +5524,7 @@ func (c *Callback) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -5694,7 +5694,7 @@ func (p *Paths) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6034,7 +6034,7 @@ func (c *ComponentsSchemas) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6100,7 +6100,7 @@ func (c *ComponentsResponses) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6166,7 +6166,7 @@ func (c *ComponentsParameters) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6232,7 +6232,7 @@ func (c *ComponentsExamples) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6298,7 +6298,7 @@ func (c *ComponentsRequestBodies) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6364,7 +6364,7 @@ func (c *ComponentsHeaders) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8096,7 +8096,7 @@ func (c *ComponentsSecuritySchemes) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8162,7 +8162,7 @@ func (c *ComponentsLinks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8228,7 +8228,7 @@ func (c *ComponentsCallbacks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
diff --git a/openapi31/entities.go b/openapi31/entities.go
index d9035f9..fb41598 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -3595,7 +3595,7 @@ func (c *Callbacks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -3848,7 +3848,7 @@ func (p *Paths) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
-- 
2.43.0


From 3825a8c257b39d7a1645ec07dc13ef2aa06bf929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:29 +0000
Subject: [PATCH 25/27] fix: keep empty schema of OpenAPI 3.1 headers

---
 openapi31/entities.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index fb41598..750f3f1 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1927,6 +1927,11 @@ var constHeader = json.RawMessage(`{"style":"simple"}`)
 
 // MarshalJSON encodes JSON.
 func (h Header) MarshalJSON() ([]byte, error) {
+	if h.Schema != nil && len(h.Schema) == 0 {
+		// Schema that allows any value is not to be omitted, header must have schema or content.
+		return marshalUnion(constHeader, marshalHeader(h), map[string]interface{}{"schema": h.Schema}, h.MapOfAnything)
+	}
+
 	return marshalUnion(constHeader, marshalHeader(h), h.MapOfAnything)
 }
 
-- 
2.43.0


From d6a43ced2748f3b9295da99d448966032644de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:09 +0000
Subject: [PATCH 26/27] fix: JSON bodies of pointers to structures that embed a
 virtual structure

---
 internal/json_schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index f19d55f..bc97772 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -69,7 +69,7 @@ func ReflectRequestBody(
 	hasJSONSchemaStruct := false
 
 	refl.WalkFieldsRecursively(reflect.ValueOf(input), func(v reflect.Value, _ reflect.StructField, _ []reflect.StructField) {
-		if v.Type() == reflect.TypeOf(jsonschema.Struct{}) {
+		if refl.DeepIndirect(v.Type()) == reflect.TypeOf(jsonschema.Struct{}) {
 			hasJSONSchemaStruct = true
 		}
 	})
-- 
2.43.0


From e57763f8f01babd22c57dd81972c81f62f0a74b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:09 +0000
Subject: [PATCH 27/27] fix: JSON bodies of virtual structures

---
 internal/json_schema.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index bc97772..ac7147d 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -74,6 +74,13 @@ func ReflectRequestBody(
 		}
 	})
 
+	switch s := input.(type) {
+	case jsonschema.Struct:
+		hasJSONSchemaStruct = hasVirtualField(s, tagJSON)
+	case *jsonschema.Struct:
+		hasJSONSchemaStruct = s != nil && hasVirtualField(*s, tagJSON)
+	}
+
 	// Form data can not have map or array as body.
 	if !hasTaggedFields && len(mapping) == 0 && tag != tagJSON {
 		return nil, false, nil
@@ -190,6 +197,17 @@ func ReflectRequestBody(
 	return &sch, hasFileUpload, nil
 }
 
+// hasVirtualField checks if virtual struct has a field with tag.
+func hasVirtualField(s jsonschema.Struct, tag string) bool {
+	for _, f := range s.Fields {
+		if _, found := f.Tag.Lookup(tag); found {
+			return true
+		}
+	}
+
+	return false
+}
+
 // ReflectJSONResponse reflects JSON schema of response.
 func ReflectJSONResponse(
 	r *jsonschema.Reflector,
-- 
2.43.0

