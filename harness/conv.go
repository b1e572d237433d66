package main

import (
	"encoding/json"

	"github.com/swaggest/jsonschema-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

func init() {
	modes["conv"] = runConv
}

type convItem struct {
	K     string                     `json:"k"`
	S     json.RawMessage            `json:"s"`
	Comps map[string]json.RawMessage `json:"comps"`
	Refs  []string                   `json:"refs"`
}

type convScenario struct {
	Sc    string     `json:"sc"`
	Items []convItem `json:"items"`
}

// runConv records conversions between JSON Schema and OpenAPI 3.0 schemas and
// exports of document schemas as JSON Schema.
func runConv(t *tracer, raw []byte) {
	s := convScenario{}
	unjson(raw, &s)

	t.emit(M{"ev": "begin", "sc": s.Sc})

	for n, it := range s.Items {
		rec := M{"ev": it.K, "n": n, "pan": ""}
		for k, v := range map[string]interface{}{"in": M{}, "out": M{}, "back": M{}, "after": M{}, "comps": M{}, "outcomps": M{}} {
			rec[k] = mustTagged(v)
		}

		rec["same"], rec["looks"] = true, []interface{}{}

		rec["pan"] = guard(func() {
			switch it.K {
			case "export31":
				export31(it, rec)
			case "oas":
				oas(it, rec)
			default:
				conv3(it, rec)
			}
		})

		t.emit(rec)
	}
}

func tagJSON(v interface{}) interface{} {
	b, err := json.Marshal(v)
	check(err)

	// Decoded JSON Schemas write some members twice.
	r, err := taggedLoose(b)
	check(err)

	return r
}

// conv3 converts a schema and components to OpenAPI 3.0 and exports them.
func conv3(it convItem, rec M) {
	in := jsonschema.SchemaOrBool{}
	unjson(it.S, &in)

	rec["in"] = tagJSON(in)

	spec := &openapi3.Spec{}
	spec.WithComponents(openapi3.Components{})
	spec.Components.SchemasEns()

	comps, outcomps := M{}, M{}

	for _, n := range sortedRaw(it.Comps) {
		js := jsonschema.SchemaOrBool{}
		unjson(it.Comps[n], &js)

		comps[n] = js
		os := openapi3.SchemaOrRef{}
		os.FromJSONSchema(js)

		outcomps[n] = os

		spec.Components.Schemas.WithMapOfSchemaOrRefValuesItem(n, os)
	}

	rec["comps"], rec["outcomps"] = tagJSON(comps), tagJSON(outcomps)

	os := openapi3.SchemaOrRef{}
	os.FromJSONSchema(in)

	rec["out"] = tagJSON(os)

	before, err := json.Marshal(spec)
	check(err)

	rec["back"] = tagJSON(os.ToJSONSchema(spec))
	rec["after"] = tagJSON(in)

	r := openapi3.NewReflector()
	r.Spec = spec

	looks := []interface{}{}

	for _, ref := range it.Refs {
		s, found := r.ResolveJSONSchemaRef(ref)
		looks = append(looks, look(ref, s, found))
	}

	rec["looks"] = looks

	after, err := json.Marshal(spec)
	check(err)

	rec["same"] = string(before) == string(after)
}

func look(ref string, s jsonschema.SchemaOrBool, found bool) M {
	m := M{"ref": ref, "found": found, "schema": mustTagged(M{})}
	if found {
		m["schema"] = tagJSON(s)
	}

	return m
}

// oas exports a decoded OpenAPI 3.0 schema and loads the result.
func oas(it convItem, rec M) {
	spec := &openapi3.Spec{}
	spec.WithComponents(openapi3.Components{})
	spec.Components.SchemasEns()

	comps := map[string]interface{}{}

	for _, n := range sortedRaw(it.Comps) {
		os := openapi3.SchemaOrRef{}
		unjson(it.Comps[n], &os)

		comps[n] = it.Comps[n]

		spec.Components.Schemas.WithMapOfSchemaOrRefValuesItem(n, os)
	}

	os := openapi3.SchemaOrRef{}
	unjson(it.S, &os)

	rec["in"], rec["comps"] = tagJSON(it.S), tagJSON(comps)
	rec["outcomps"] = rec["comps"]

	before, err := json.Marshal(spec)
	check(err)

	js := os.ToJSONSchema(spec)
	rec["back"] = tagJSON(js)

	again := openapi3.SchemaOrRef{}
	again.FromJSONSchema(js)

	rec["out"], rec["after"] = tagJSON(again), tagJSON(os)

	r := openapi3.NewReflector()
	r.Spec = spec

	looks := []interface{}{}

	for _, ref := range it.Refs {
		s, found := r.ResolveJSONSchemaRef(ref)
		looks = append(looks, look(ref, s, found))
	}

	rec["looks"] = looks

	after, err := json.Marshal(spec)
	check(err)

	rec["same"] = string(before) == string(after)
}

// export31 exports a schema of a 3.1 document with given components.
func export31(it convItem, rec M) {
	spec := &openapi31.Spec{}
	comps := M{}

	for _, n := range sortedRaw(it.Comps) {
		m := map[string]interface{}{}
		unjson(it.Comps[n], &m)

		comps[n] = m
		spec.ComponentsEns().WithSchemasItem(n, m)
	}

	if spec.Components == nil {
		spec.ComponentsEns()
	}

	root := map[string]interface{}{}
	unjson(it.S, &root)

	rec["in"], rec["comps"] = tagJSON(root), tagJSON(comps)
	rec["outcomps"] = rec["comps"]

	before, err := json.Marshal(spec)
	check(err)

	rec["back"] = tagJSON(openapi31.ToJSONSchema(root, spec))
	rec["out"], rec["after"] = rec["in"], tagJSON(root)

	r := openapi31.NewReflector()
	r.Spec = spec

	looks := []interface{}{}

	for _, ref := range it.Refs {
		s, found := r.ResolveJSONSchemaRef(ref)
		looks = append(looks, look(ref, s, found))
	}

	rec["looks"] = looks

	after, err := json.Marshal(spec)
	check(err)

	rec["same"] = string(before) == string(after)
}

func sortedRaw(m map[string]json.RawMessage) []string {
	x := make(map[string]interface{}, len(m))
	for k := range m {
		x[k] = nil
	}

	return sortedKeys(x)
}
