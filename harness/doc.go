package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"

	yaml2 "gopkg.in/yaml.v2"

	jsonschema "github.com/swaggest/jsonschema-go"
	openapi "github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

func init() { modes["doc"] = runDoc }

// unit describes a content unit of a scenario.
type unit struct {
	G      string                       `json:"g"`
	T      interface{}                  `json:"t"`
	CT     string                       `json:"ct"`
	Fmt    string                       `json:"fmt"`
	Desc   string                       `json:"desc"`
	Map    map[string]map[string]string `json:"map"`
	Status int                          `json:"status"`
	Dflt   bool                         `json:"dflt"`
	Ref    string                       `json:"ref"`
	Prep   bool                         `json:"prep"`
	Cust   string                       `json:"cust"`
}

// Structures with tags that can not be read, by location.
var broken = map[string]interface{}{
	"!query0": struct {
		A string `query:"a"`
		B int    `query:"b" minimum:"x"`
	}{},
	"!query1": &struct {
		A string `query:"a" explode:"maybe"`
		B int    `query:"b"`
	}{},
	"!path0": struct {
		ID int `path:"id" maximum:"x"`
	}{},
	"!path1": &struct {
		ID int `path:"id" deprecated:"maybe"`
	}{},
	"!header0": struct {
		A string `header:"X-A"`
		B int    `header:"X-B" multipleOf:"x"`
	}{},
	"!header1": &struct {
		A string `header:"X-A" explode:"maybe"`
		B int    `header:"X-B"`
	}{},
	"!cookie0": struct {
		A string `cookie:"a" maxLength:"x"`
	}{},
	"!cookie1": &struct {
		A string `cookie:"a" required:"maybe"`
	}{},
	"!json0": struct {
		A string `json:"a"`
		B int    `json:"b" minimum:"x"`
	}{},
	"!json1": &struct {
		A string   `json:"a"`
		B chan int `json:"b"`
	}{},
	"!formData0": struct {
		A string `formData:"a" minLength:"x"`
	}{},
	"!formData1": &struct {
		A string   `formData:"a"`
		B chan int `formData:"b"`
	}{},
	"!form0": struct {
		A string `form:"a"`
		B int    `form:"b" minimum:"x"`
	}{},
	"!form1": &struct {
		A string   `form:"a"`
		B chan int `form:"b"`
	}{},
}

type handParam struct {
	Name string `json:"name"`
	In   string `json:"in"`
}

type handOp struct {
	Params  []handParam `json:"params"`
	Summary string      `json:"summary"`
	Resps   []string    `json:"resps"`
}

type edit struct {
	K    string `json:"k"`
	Name string `json:"name"`
	In   string `json:"in"`
	S    string `json:"s"`
}

type cmd struct {
	Ev     string          `json:"ev"`
	C      string          `json:"c"`
	M      string          `json:"m"`
	P      string          `json:"p"`
	F      string          `json:"f"`
	V      json.RawMessage `json:"v"`
	Name   string          `json:"name"`
	Scopes []string        `json:"scopes"`
	U      *unit           `json:"u"`
	O      *handOp         `json:"o"`
	Edits  []edit          `json:"edits"`
	K      string          `json:"k"`
	Desc   string          `json:"desc"`
	Format string          `json:"format"`
	Field  string          `json:"field"`
	In     string          `json:"in"`
	Ref    string          `json:"ref"`
	FailAt int             `json:"failat"`
	NoDone bool            `json:"nodone"`
	Nil    bool            `json:"nil"`
	Req    *unit           `json:"req"`
	Resps  []unit          `json:"resps"`
	How    string          `json:"how"`
	Again  bool            `json:"again"`
}

func makeValue(g string) interface{} {
	if g == "" {
		return nil
	}

	if v, ok := broken[g]; ok {
		return v
	}

	f, ok := values[g]
	if !ok {
		panic("no such value: " + g)
	}

	return f()
}

// prepared delivers everything about a content unit on its own.
type prepared struct{ f func(cu *openapi.ContentUnit) }

func (p prepared) SetupContentUnit(cu *openapi.ContentUnit) { p.f(cu) }

// fill sets up a content unit, with options where the library has them.
func (u unit) options() []openapi.ContentOption {
	var o []openapi.ContentOption

	if u.CT != "" {
		o = append(o, openapi.WithContentType(u.CT))
	}

	if u.Status != 0 {
		o = append(o, openapi.WithHTTPStatus(u.Status))
	}

	if u.Ref != "" {
		o = append(o, openapi.WithReference(u.Ref))
	}

	if u.Cust != "" {
		o = append(o, openapi.WithCustomize(u.customize))
	}

	o = append(o, func(cu *openapi.ContentUnit) {
		cu.Format = u.Fmt
		cu.IsDefault = u.Dflt
		cu.Description = u.Desc

		for in, m := range u.Map {
			cu.SetFieldMapping(openapi.In(in), m)
		}
	})

	return o
}

func (u unit) customize(cor openapi.ContentOrReference) {
	switch v := cor.(type) {
	case *openapi3.RequestBodyOrRef:
		if v.RequestBody != nil {
			v.RequestBody.WithDescription(u.Cust)
		}
	case *openapi31.RequestBodyOrReference:
		if v.RequestBody != nil {
			v.RequestBody.WithDescription(u.Cust)
		}
	case *openapi3.ResponseOrRef:
		v.Response.WithDescription(u.Cust)
	case *openapi31.ResponseOrReference:
		v.Response.WithDescription(u.Cust)
	default:
		panic(fmt.Sprintf("%T", cor))
	}
}

func (u unit) contentUnit() openapi.ContentUnit {
	cu := openapi.ContentUnit{Structure: makeValue(u.G)}

	for _, o := range u.options() {
		o(&cu)
	}

	return cu
}

func (u unit) addTo(add func(i interface{}, options ...openapi.ContentOption)) {
	if u.Prep {
		add(prepared{func(cu *openapi.ContentUnit) { *cu = u.contentUnit() }})

		return
	}

	add(makeValue(u.G), u.options()...)
}

// lib is one version of the library.
type lib struct {
	v         string
	r         openapi.Reflector
	json      func() ([]byte, error)
	yaml      func() ([]byte, error)
	fresh     func() (fromJSON func([]byte) error, fromYAML func([]byte) error, toJSON func() ([]byte, error))
	opParam   func(oc openapi.OperationContext, p handParam)
	specAdd   func(m, p string, o handOp) error
	specHook  func(m, name string, o handOp) error
	addHook   func(oc openapi.OperationContext) error
	specSetup func(m, p string, edits []edit) error
	resolve   func(ref string) (jsonschema.SchemaOrBool, bool)
	export    func(name string) jsonschema.SchemaOrBool
	legacy    func(c cmd) error
	reload    func(asYAML bool) error
}

var errEdit = errors.New("edit failed")

func strSchema3() *openapi3.SchemaOrRef {
	return &openapi3.SchemaOrRef{Schema: (&openapi3.Schema{}).WithType(openapi3.SchemaTypeString)}
}

func param3(p handParam) openapi3.ParameterOrRef {
	if p.In == "ref" {
		return openapi3.ParameterOrRef{ParameterReference: &openapi3.ParameterReference{Ref: "#/components/parameters/" + p.Name}}
	}

	pp := openapi3.Parameter{Name: p.Name, In: openapi3.ParameterIn(p.In), Schema: strSchema3()}
	if p.In == "path" {
		pp.WithRequired(true)
	}

	return pp.ToParameterOrRef()
}

func param31(p handParam) openapi31.ParameterOrReference {
	if p.In == "ref" {
		return openapi31.ParameterOrReference{Reference: &openapi31.Reference{Ref: "#/components/parameters/" + p.Name}}
	}

	pp := openapi31.Parameter{Name: p.Name, In: openapi31.ParameterIn(p.In), Schema: map[string]interface{}{"type": "string"}}
	if p.In == "path" {
		pp.WithRequired(true)
	}

	return pp.ToParameterOrRef()
}

func resp3(op *openapi3.Operation, s string) {
	ror := openapi3.ResponseOrRef{Response: &openapi3.Response{Description: "R" + s}}
	if s == "default" {
		op.Responses.Default = &ror
	} else {
		op.Responses.WithMapOfResponseOrRefValuesItem(s, ror)
	}
}

func resp31(op *openapi31.Operation, s string) {
	ror := openapi31.ResponseOrReference{Response: &openapi31.Response{Description: "R" + s}}
	if s == "default" {
		op.ResponsesEns().Default = &ror
	} else {
		op.ResponsesEns().WithMapOfResponseOrReferenceValuesItem(s, ror)
	}
}

func newLib(v string) *lib {
	if v == "3" {
		return newLib3()
	}

	return newLib31()
}

// options are those of the reflector, given with the types.
func options() (os []func(*jsonschema.ReflectContext)) {
	if withoutTags {
		os = append(os, jsonschema.ProcessWithoutTags)
	}

	if inPlace {
		os = append(os, jsonschema.InlineRefs)
	}

	if namePrefix != "" {
		os = append(os, jsonschema.InterceptDefName(func(_ reflect.Type, name string) string { return namePrefix + name }))
	}

	return os
}

func newLib3() *lib {
	r := openapi3.NewReflector()
	r.DefaultOptions = append(r.DefaultOptions, options()...)

	l := &lib{v: "3", r: r}

	op3 := func(o handOp) openapi3.Operation {
		op := openapi3.Operation{}
		for _, p := range o.Params {
			op.Parameters = append(op.Parameters, param3(p))
		}

		if o.Summary != "" {
			op.WithSummary(o.Summary)
		}

		for _, s := range o.Resps {
			resp3(&op, s)
		}

		return op
	}

	l.json = func() ([]byte, error) { return r.Spec.MarshalJSON() }
	l.yaml = func() ([]byte, error) { return r.Spec.MarshalYAML() }
	l.fresh = func() (func([]byte) error, func([]byte) error, func() ([]byte, error)) {
		s := &openapi3.Spec{}

		return s.UnmarshalJSON, s.UnmarshalYAML, func() ([]byte, error) { return s.MarshalJSON() }
	}
	l.reload = func(asYAML bool) error {
		s := &openapi3.Spec{}

		if asYAML {
			y, err := r.Spec.MarshalYAML()
			if err == nil {
				err = s.UnmarshalYAML(y)
			}

			if err != nil {
				return err
			}
		} else {
			j, err := r.Spec.MarshalJSON()
			if err == nil {
				err = s.UnmarshalJSON(j)
			}

			if err != nil {
				return err
			}
		}

		r.Spec = s

		return nil
	}
	l.opParam = func(oc openapi.OperationContext, p handParam) {
		op := oc.(openapi3.OperationExposer).Operation()
		op.Parameters = append(op.Parameters, param3(p))
	}
	l.specAdd = func(m, p string, o handOp) error { return r.Spec.AddOperation(m, p, op3(o)) }
	l.specSetup = func(m, p string, edits []edit) error {
		var fs []func(op *openapi3.Operation) error

		for _, e := range edits {
			e := e

			fs = append(fs, func(op *openapi3.Operation) error {
				switch e.K {
				case "param":
					op.Parameters = append(op.Parameters, param3(handParam{e.Name, e.In}))
				case "summary":
					op.WithSummary(e.S)
				case "resp":
					resp3(op, e.S)
				case "noparams":
					op.Parameters = nil
				case "fail":
					return errEdit
				}

				return nil
			})
		}

		return r.Spec.SetupOperation(m, p, fs...)
	}
	l.resolve = r.ResolveJSONSchemaRef
	l.export = func(name string) jsonschema.SchemaOrBool {
		s := openapi3.SchemaOrRef{SchemaReference: &openapi3.SchemaReference{Ref: "#/components/schemas/" + name}}

		return s.ToJSONSchema(r.Spec)
	}
	l.legacy = func(c cmd) error { return legacy3(r, c) }

	return l
}

func newLib31() *lib {
	r := openapi31.NewReflector()
	r.DefaultOptions = append(r.DefaultOptions, options()...)

	l := &lib{v: "31", r: r}

	op31 := func(o handOp) openapi31.Operation {
		op := openapi31.Operation{}
		for _, p := range o.Params {
			op.Parameters = append(op.Parameters, param31(p))
		}

		if o.Summary != "" {
			op.WithSummary(o.Summary)
		}

		for _, s := range o.Resps {
			resp31(&op, s)
		}

		return op
	}

	l.json = func() ([]byte, error) { return r.Spec.MarshalJSON() }
	l.yaml = func() ([]byte, error) { return r.Spec.MarshalYAML() }
	l.fresh = func() (func([]byte) error, func([]byte) error, func() ([]byte, error)) {
		s := &openapi31.Spec{}

		return s.UnmarshalJSON, s.UnmarshalYAML, func() ([]byte, error) { return s.MarshalJSON() }
	}
	l.reload = func(asYAML bool) error {
		s := &openapi31.Spec{}

		if asYAML {
			y, err := r.Spec.MarshalYAML()
			if err == nil {
				err = s.UnmarshalYAML(y)
			}

			if err != nil {
				return err
			}
		} else {
			j, err := r.Spec.MarshalJSON()
			if err == nil {
				err = s.UnmarshalJSON(j)
			}

			if err != nil {
				return err
			}
		}

		r.Spec = s

		return nil
	}
	l.opParam = func(oc openapi.OperationContext, p handParam) {
		op := oc.(openapi31.OperationExposer).Operation()
		op.Parameters = append(op.Parameters, param31(p))
	}
	l.specAdd = func(m, p string, o handOp) error { return r.Spec.AddOperation(m, p, op31(o)) }
	l.specHook = func(m, name string, o handOp) error { return r.Spec.AddWebhook(m, name, op31(o)) }
	l.addHook = r.AddWebhook
	l.specSetup = func(m, p string, edits []edit) error {
		var fs []func(op *openapi31.Operation) error

		for _, e := range edits {
			e := e

			fs = append(fs, func(op *openapi31.Operation) error {
				switch e.K {
				case "param":
					op.Parameters = append(op.Parameters, param31(handParam{e.Name, e.In}))
				case "summary":
					op.WithSummary(e.S)
				case "resp":
					resp31(op, e.S)
				case "noparams":
					op.Parameters = nil
				case "fail":
					return errEdit
				}

				return nil
			})
		}

		return r.Spec.SetupOperation(m, p, fs...)
	}
	l.resolve = r.ResolveJSONSchemaRef
	l.export = func(name string) jsonschema.SchemaOrBool {
		return openapi31.ToJSONSchema(map[string]interface{}{"$ref": "#/components/schemas/" + name}, r.Spec)
	}

	return l
}

// legacy3 registers an operation with the deprecated functions.
func legacy3(r *openapi3.Reflector, c cmd) error {
	op := openapi3.Operation{}

	if c.Req != nil && (c.Req.G != "" || c.How == "setup") {
		if c.How == "set" && len(c.Req.Map) == 0 {
			if err := r.SetRequest(&op, makeValue(c.Req.G), c.M); err != nil {
				return err
			}
		} else if err := r.SetupRequest(openapi3.OperationContext{
			Operation:          &op,
			Input:              makeValue(c.Req.G),
			HTTPMethod:         c.M,
			ReqQueryMapping:    c.Req.Map["query"],
			ReqPathMapping:     c.Req.Map["path"],
			ReqCookieMapping:   c.Req.Map["cookie"],
			ReqHeaderMapping:   c.Req.Map["header"],
			ReqFormDataMapping: c.Req.Map["formData"],
		}); err != nil {
			return err
		}
	}

	for _, u := range c.Resps {
		var err error

		switch {
		case c.How == "set" && u.G == "" && len(u.Map) == 0:
			err = r.SetStringResponse(&op, u.Status, u.CT)
		case c.How == "set" && u.CT == "" && len(u.Map) == 0:
			err = r.SetJSONResponse(&op, makeValue(u.G), u.Status)
		default:
			err = r.SetupResponse(openapi3.OperationContext{
				Operation:         &op,
				Output:            makeValue(u.G),
				HTTPStatus:        u.Status,
				RespContentType:   u.CT,
				RespHeaderMapping: u.Map["header"],
				HTTPMethod:        c.M,
			})
		}

		if err != nil {
			return err
		}
	}

	return r.Spec.AddOperation(c.M, c.P, op)
}

func runDoc(t *tracer, raw []byte) {
	s := scenario{}
	unjson(raw, &s)

	reps := 1
	if n, ok := s.Opt["reps"].(float64); ok {
		reps = int(n)
	}

	for _, v := range s.V {
		var prints [][][]string

		for i := 1; i < reps; i++ {
			x := newRun(v, s)
			x.bytes = true

			for j, c := range s.Cmds {
				x.step(j, c)
			}

			prints = append(prints, x.prints)
		}

		x := newRun(v, s)
		x.bytes = reps > 1

		t.emit(M{"ev": "begin", "sc": s.Sc, "v": v, "opt": s.Opt})

		for j, c := range s.Cmds {
			ev := x.step(j, c)
			if ev == nil {
				continue
			}

			if reps > 1 {
				hs := [][]string{x.prints[j]}
				for _, p := range prints {
					hs = append(hs, p[j])
				}

				ev["prints"] = hs
			}

			t.emit(ev)
		}

		if boolOpt(s, "codec") {
			t.emit(x.codec())
		}
	}

	if boolOpt(s, "pair") && len(s.V) == 2 {
		t.emit(pairEvent(s))
	}
}

func boolOpt(s scenario, k string) bool {
	b, _ := s.Opt[k].(bool)

	return b
}

type run struct {
	*lib
	s       scenario
	ctxs    map[string]openapi.OperationContext
	added   map[string]bool
	ops     int
	last    []byte
	bytes   bool
	prints  [][]string
	hooks   []interface{}
	collect bool
	quiet   bool   // do not encode after every step
	yield   func() // called inside of steps
}

func newRun(v string, s scenario) *run {
	x := newQuiet(v, s)
	x.quiet = false
	x.last, _ = x.json()

	return x
}

// newQuiet is a run that does not look at its document.
func newQuiet(v string, s scenario) *run {
	x := &run{lib: newLib(v), s: s, ctxs: map[string]openapi.OperationContext{}, added: map[string]bool{}, quiet: true}

	if boolOpt(s, "hooks") {
		r := x.r.JSONSchemaReflector()
		r.DefaultOptions = append(r.DefaultOptions, jsonschema.InterceptSchema(func(p jsonschema.InterceptSchemaParams) (bool, error) {
			if x.collect {
				x.hook(p)

				if x.yield != nil {
					x.yield()
				}
			}

			return false, nil
		}))
	}

	return x
}

// hook records what a schema hook sees.
func (x *run) hook(p jsonschema.InterceptSchemaParams) {
	tp := p.Value.Type()
	for tp.Kind().String() == "ptr" {
		tp = tp.Elem()
	}

	name := tp.Name()
	if p.Value.CanInterface() {
		name = typeName(p.Value.Interface())
	}

	rec := M{"t": name, "known": false, "in": "", "resp": false, "m": "", "p": ""}

	if old, ok := openapi3.OperationCtx(p.Context); ok && x.v == "3" {
		rec["old"] = M{
			"m": old.HTTPMethod, "in": old.ProcessingIn, "resp": old.ProcessingResponse,
			"input": typeName(old.Input), "output": typeName(old.Output), "ct": old.RespContentType, "status": old.HTTPStatus,
			"query": mapJ(old.ReqQueryMapping), "path": mapJ(old.ReqPathMapping), "header": mapJ(old.ReqHeaderMapping),
			"cookie": mapJ(old.ReqCookieMapping), "formData": mapJ(old.ReqFormDataMapping), "rheader": mapJ(old.RespHeaderMapping),
		}
	}

	if oc, ok := openapi.OperationCtx(p.Context); ok {
		rec["known"] = true
		rec["in"] = string(oc.ProcessingIn())
		rec["resp"] = oc.IsProcessingResponse()
		rec["m"] = oc.Method()
		rec["p"] = oc.PathPattern()
	}

	x.hooks = append(x.hooks, rec)
}

func typeName(v interface{}) string {
	switch s := v.(type) {
	case jsonschema.Struct:
		return s.DefName
	case *jsonschema.Struct:
		return s.DefName
	}

	t := reflect.TypeOf(v)
	for t != nil && t.Kind() == reflect.Ptr {
		t = t.Elem()
	}

	if t == nil {
		return ""
	}

	return t.Name()
}

func mapJ(m map[string]string) map[string]string {
	if m == nil {
		return map[string]string{}
	}

	return m
}

var errStop = errors.New("stop walking")

func schemaJ(s *jsonschema.SchemaOrBool) interface{} {
	if s == nil {
		return []interface{}{"z"}
	}

	return mustTagged(s)
}

func (x *run) walk(c cmd, ev M) error {
	var (
		reports []interface{}
		done    int
		info    = M{}
		stopped bool
	)

	cb := func(in openapi.In, name string, s *jsonschema.SchemaOrBool, required bool) error {
		reports = append(reports, M{"in": string(in), "name": name, "schema": schemaJ(s), "required": required})

		if c.FailAt > 0 && len(reports) == c.FailAt {
			return errStop
		}

		return nil
	}
	fin := func(oc openapi.OperationContext) {
		done++

		if oc != nil {
			info["m"], info["reqs"], info["resps"] = oc.Method(), len(oc.Request()), len(oc.Response())
		}
	}

	defer func() {
		if reports == nil {
			reports = []interface{}{}
		}

		ev["out"] = M{"reports": reports, "done": done, "stopped": stopped, "oc": info}
	}()

	if c.NoDone {
		fin = nil
	}

	var err error
	if c.Ev == "walkreq" {
		err = x.r.WalkRequestJSONSchemas(c.M, c.U.contentUnit(), cb, fin)
	} else {
		err = x.r.WalkResponseJSONSchemas(c.U.contentUnit(), cb, fin)
	}

	stopped = errors.Is(err, errStop)

	return err
}

func getters(oc openapi.OperationContext) M {
	tags := []interface{}{}
	for _, t := range oc.Tags() {
		tags = append(tags, t)
	}

	return M{
		"tags": mustTagged(tags), "summary": mustTagged(oc.Summary()), "description": mustTagged(oc.Description()),
		"id": mustTagged(oc.ID()), "deprecated": mustTagged(oc.IsDeprecated()),
	}
}

// step executes one command.
func (x *run) step(n int, raw json.RawMessage) M {
	var (
		c  cmd
		ev M
	)

	unjson(raw, &c)
	unjson(raw, &ev)

	ev["n"] = n
	ev["out"] = M{}

	skip := false

	var err error

	x.hooks, x.collect = nil, true

	pan := guard(func() { err, skip = x.exec(c, ev) })

	x.collect = false

	if boolOpt(x.s, "hooks") {
		hs := x.hooks
		if hs == nil {
			hs = []interface{}{}
		}

		ev["hooks"] = uniq(hs)
	}

	ev["ok"] = err == nil && pan == ""
	ev["pan"] = pan
	ev["err"] = ""

	if err != nil {
		ev["err"] = ascii(err.Error())
	}

	if skip {
		x.prints = append(x.prints, []string{"skip"})

		return nil
	}

	if x.quiet {
		ev["same"] = true

		return ev
	}

	var now []byte

	if p := guard(func() {
		var err error
		if now, err = x.json(); err != nil {
			panic("encode document: " + err.Error())
		}

		if _, err = tagged(now); err != nil {
			panic("encoded document: " + err.Error())
		}
	}); p != "" {
		ev["pan"] = ascii(pan + " " + p)
		ev["same"] = true
	} else if bytes.Equal(now, x.last) {
		ev["same"] = true
	} else {
		ev["same"] = false
		ev["doc"] = splitDoc(now)
		x.last = now
	}

	if x.bytes {
		y, yerr := x.yaml()
		x.prints = append(x.prints, []string{fmt.Sprint(ev["ok"]), digest(now), digest(y), fmt.Sprint(yerr)})
	}

	return ev
}

func ascii(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c < 32 || c > 126 {
			b[i] = '?'
		}
	}

	if len(b) > 300 {
		b = b[:300]
	}

	return string(b)
}

func digest(b []byte) string {
	h := sha256.Sum256(b)

	return hex.EncodeToString(h[:8])
}

func uniq(hs []interface{}) []interface{} {
	seen := map[string]bool{}
	res := []interface{}{}

	for _, h := range hs {
		b, _ := json.Marshal(h)
		if !seen[string(b)] {
			seen[string(b)] = true
			res = append(res, h)
		}
	}

	return res
}

// splitDoc cuts a document into the parts the specification has.
func splitDoc(b []byte) M {
	o, err := tagged(b)
	if err != nil {
		panic(err)
	}

	comps := pick(o, "components")
	paths := pick(o, "paths")

	res := M{
		"paths": paths, "hooks": pick(o, "webhooks"), "info": pick(o, "info"),
		"comps": pick(comps, "schemas"), "secs": pick(comps, "securitySchemes"),
	}

	if m := comps.([]interface{})[1].(map[string]interface{}); len(m) > 0 {
		o.([]interface{})[1].(map[string]interface{})["components"] = comps
	}

	res["rest"] = o

	return res
}

// exec runs a command, skip means that it does not apply.
func (x *run) exec(c cmd, ev M) (err error, skip bool) {
	oc := x.ctxs[c.C]
	needCtx := map[string]bool{"set": true, "addsec": true, "req": true, "resp": true, "opparam": true, "add": true, "hook": true}

	if needCtx[c.Ev] && oc == nil {
		return nil, true
	}

	switch c.Ev {
	case "new":
		oc, err := x.r.NewOperationContext(c.M, c.P)
		if err != nil {
			return err, false
		}

		x.ctxs[c.C] = oc
		ev["out"] = M{"method": oc.Method(), "path": oc.PathPattern()}
	case "set":
		x.set(oc, c)
		ev["out"] = getters(oc)
	case "addsec":
		if c.Nil && len(c.Scopes) == 0 {
			oc.AddSecurity(c.Name)
		} else {
			oc.AddSecurity(c.Name, c.Scopes...)
		}
	case "req":
		c.U.addTo(oc.AddReqStructure)
		ev["out"] = M{"count": len(oc.Request())}
	case "resp":
		c.U.addTo(oc.AddRespStructure)
		ev["out"] = M{"count": len(oc.Response())}
	case "opparam":
		x.opParam(oc, handParam{c.Name, c.In})
	case "add":
		// A context is offered again only after it was accepted.
		if c.Again && !x.added[c.C] {
			return nil, true
		}

		err = x.r.AddOperation(oc)
		x.added[c.C] = x.added[c.C] || err == nil
		ev["out"] = M{"forbid": forbids(oc)}
	case "hook":
		if x.addHook == nil {
			return nil, true
		}

		err = x.addHook(oc)
		ev["out"] = M{"forbid": forbids(oc)}
	case "foreign":
		var other openapi.Reflector = openapi3.NewReflector()
		if x.v == "3" {
			other = openapi31.NewReflector()
		}

		oc, err := other.NewOperationContext(c.M, c.P)
		if err != nil {
			return err, false
		}

		if c.Again && x.addHook != nil {
			return x.addHook(oc), false
		}

		return x.r.AddOperation(oc), false
	case "drop":
		delete(x.ctxs, c.C)

		return nil, true
	case "specadd":
		err = x.specAdd(c.M, c.P, *c.O)
	case "spechook":
		if x.specHook == nil {
			return nil, true
		}

		err = x.specHook(c.M, c.Name, *c.O)
	case "specsetup":
		err = x.specSetup(c.M, c.P, c.Edits)
	case "reload":
		err = x.reload(c.How == "yaml")
	case "info":
		ss := x.r.SpecSchema()

		var v string

		unjson(c.V, &v)

		switch c.F {
		case "title":
			ss.SetTitle(v)
		case "version":
			ss.SetVersion(v)
		case "description":
			ss.SetDescription(v)
		}

		ev["out"] = M{"title": mustTagged(ss.Title()), "version": mustTagged(ss.Version()), "description": mustTagged(ss.Description())}
	case "sec":
		ss := x.r.SpecSchema()

		switch c.K {
		case "basic":
			ss.SetHTTPBasicSecurity(c.Name, c.Desc)
		case "bearer":
			ss.SetHTTPBearerTokenSecurity(c.Name, c.Format, c.Desc)
		case "apikey":
			ss.SetAPIKeySecurity(c.Name, c.Field, openapi.In(c.In), c.Desc)
		}
	case "resolve":
		s, found := x.resolve(c.Ref)
		if !found {
			return errors.New("not found"), false
		}

		ev["out"] = M{"schema": schemaJ(&s)}
	case "export":
		// Only what is there can be exported.
		if !x.has(c.Name) {
			return nil, true
		}

		s := x.export(c.Name)
		ev["out"] = M{"schema": schemaJ(&s)}
	case "walkreq", "walkresp":
		return x.walk(c, ev), false
	case "legacy":
		if x.legacy == nil {
			return nil, true
		}

		return x.legacy(c), false
	case "reflect":
		// Reflection that does not belong to an operation.
		_, err = x.r.JSONSchemaReflector().Reflect(makeValue(c.U.G))

		return err, false
	default:
		panic("unknown command " + c.Ev)
	}

	return err, false
}

// has tells whether the document has a component.
func (x *run) has(name string) bool {
	b, err := x.json()
	check(err)

	var doc struct {
		Components struct {
			Schemas map[string]json.RawMessage `json:"schemas"`
		} `json:"components"`
	}

	check(json.Unmarshal(b, &doc))

	_, ok := doc.Components.Schemas[name]

	return ok
}

func forbids(oc openapi.OperationContext) M {
	r := M{}
	for _, in := range []openapi.In{openapi.InQuery, openapi.InPath, openapi.InCookie, openapi.InHeader} {
		r[string(in)] = oc.UnknownParamsAreForbidden(in)
	}

	return r
}

func (x *run) set(oc openapi.OperationContext, c cmd) {
	var tv interface{}

	unjson(c.V, &tv)

	v := []byte(untag(tv))

	switch c.F {
	case "tags":
		var tags []string

		unjson(v, &tags)
		oc.SetTags(tags...)
	case "summary", "description", "id":
		var s string

		unjson(v, &s)

		switch c.F {
		case "summary":
			oc.SetSummary(s)
		case "description":
			oc.SetDescription(s)
		case "id":
			oc.SetID(s)
		}
	case "deprecated":
		var b bool

		unjson(v, &b)
		oc.SetIsDeprecated(b)
	}
}

// codec sends the finished document through the encoders and decoders.
func (x *run) codec() M {
	ev := M{"ev": "codec", "n": len(x.s.Cmds), "pan": ""}

	var once, twice, viaYAML, yamlAsJSON interface{} = emptyObj, emptyObj, emptyObj, emptyObj

	ev["pan"] = guard(func() {
		orig, err := x.json()
		check(err)

		fromJSON, _, toJSON := x.fresh()
		check(fromJSON(orig))

		b1, err := toJSON()
		check(err)

		once, err = tagged(b1)
		check(err)

		fromJSON, _, toJSON = x.fresh()
		check(fromJSON(b1))

		b2, err := toJSON()
		check(err)

		twice, err = tagged(b2)
		check(err)

		y, err := x.yaml()
		check(err)

		_, fromYAML, toJSON := x.fresh()
		check(fromYAML(y))

		b3, err := toJSON()
		check(err)

		viaYAML, err = tagged(b3)
		check(err)

		yamlAsJSON = mustTagged(plainYAML(y))

		t, err := tagged(orig)
		check(err)

		ev["orig"] = t
	})

	ev["once"], ev["twice"], ev["viayaml"], ev["yaml"] = once, twice, viaYAML, yamlAsJSON
	if _, ok := ev["orig"]; !ok {
		ev["orig"] = emptyObj
	}

	return ev
}

func check(err error) {
	if err != nil {
		panic(err.Error())
	}
}

// plainYAML reads YAML without the library.
func plainYAML(y []byte) interface{} {
	var v interface{}

	check(yaml2.Unmarshal(y, &v))

	return plain(v)
}

func plain(v interface{}) interface{} {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		r := map[string]interface{}{}
		for k, e := range x {
			r[fmt.Sprint(k)] = plain(e)
		}

		return r
	case []interface{}:
		r := make([]interface{}, len(x))
		for i := range x {
			r[i] = plain(x[i])
		}

		return r
	}

	return v
}

// pairEvent has outcomes and documents of both versions side by side.
func pairEvent(s scenario) M {
	ev := M{"ev": "pair", "n": len(s.Cmds), "pan": ""}

	for _, v := range []string{"3", "31"} {
		x := newRun(v, s)
		oks := []interface{}{}
		outs := []interface{}{}

		for j, c := range s.Cmds {
			e := x.step(j, c)
			if e == nil {
				oks = append(oks, "skip")

				continue
			}

			if e["pan"].(string) != "" {
				ev["pan"] = e["pan"]
			}

			oks = append(oks, fmt.Sprint(e["ok"]))
			outs = append(outs, e["out"])
		}

		ev["oks"+v] = oks
		ev["doc"+v] = splitDoc(x.last)
	}

	return ev
}

func sortedKeys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}
