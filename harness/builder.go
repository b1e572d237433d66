package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
)

func init() { modes["builder"] = runBuilder }

// builderTypes are the structures of both packages that have builder methods:
// all that can be reached from documents and reflectors, and the rest by name.
var builderTypes = func() map[string]reflect.Type {
	res := map[string]reflect.Type{}

	var visit func(v string, t reflect.Type)

	visit = func(v string, t reflect.Type) {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Array:
			visit(v, t.Elem())

			return
		case reflect.Struct:
		default:
			return
		}

		if !strings.HasSuffix(t.PkgPath(), map[string]string{"3": "openapi-go/openapi3", "31": "openapi-go/openapi31"}[v]) || t.Name() == "" {
			return
		}

		if _, ok := res[v+"."+t.Name()]; ok {
			return
		}

		res[v+"."+t.Name()] = t

		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() && !t.Field(i).Anonymous {
				visit(v, t.Field(i).Type)
			}
		}

		p := reflect.PtrTo(t)
		for i := 0; i < p.NumMethod(); i++ {
			m := p.Method(i).Type
			for k := 1; k < m.NumIn(); k++ {
				visit(v, m.In(k))
			}

			for k := 0; k < m.NumOut(); k++ {
				visit(v, m.Out(k))
			}
		}
	}

	for v, ks := range codecKinds {
		for _, t := range ks {
			visit(v, t)
		}
	}

	for _, x := range []interface{}{
		openapi3.Reflector{}, openapi3.ParameterLocation{}, openapi3.PathParameter{}, openapi3.QueryParameter{}, openapi3.HeaderParameter{}, openapi3.CookieParameter{},
		openapi3.SchemaXORContent{}, openapi3.SchemaXORContentNot{}, openapi3.LinkNot{},
	} {
		visit("3", reflect.TypeOf(x))
	}

	for _, x := range []interface{}{openapi31.Reflector{}, openapi31.EncodingAllOf0{}, openapi31.Examples{}} {
		visit("31", reflect.TypeOf(x))
	}

	return res
}()

func builderNames() []string {
	ns := make([]string, 0, len(builderTypes))
	for n := range builderTypes {
		ns = append(ns, n)
	}

	sort.Strings(ns)

	return ns
}

func builderFields(t reflect.Type) []reflect.StructField {
	fs := []reflect.StructField{}

	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		// Of a reflector only the document is looked at.
		if f.IsExported() && !f.Anonymous && (t.Name() != "Reflector" || f.Name == "Spec") {
			fs = append(fs, f)
		}
	}

	return fs
}

// state is a value as a tree, pointers are part of it, empty collections are not.
func state(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return []interface{}{"z"}
		}

		return []interface{}{"p", state(v.Elem())}
	case reflect.Interface:
		if v.IsNil() {
			return []interface{}{"z"}
		}

		if t, ok := v.Interface().(reflect.Type); ok {
			return []interface{}{"s", t.String()}
		}

		return state(v.Elem())
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			return []interface{}{"z"}
		}

		q := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			q = append(q, state(v.Index(i)))
		}

		return []interface{}{"a", q}
	case reflect.Map:
		if v.Len() == 0 {
			return []interface{}{"z"}
		}

		o := M{}
		for _, k := range v.MapKeys() {
			o[fmt.Sprint(k.Interface())] = state(v.MapIndex(k))
		}

		return []interface{}{"o", o}
	case reflect.Struct:
		o := M{}
		for _, f := range builderFields(v.Type()) {
			o[f.Name] = state(v.FieldByIndex(f.Index))
		}

		return []interface{}{"o", o}
	case reflect.String:
		return []interface{}{"s", v.String()}
	case reflect.Bool:
		return []interface{}{"b", v.Bool()}
	}

	return []interface{}{"n", fmt.Sprint(v.Interface())}
}

var typeOfType = reflect.TypeOf((*reflect.Type)(nil)).Elem()

// some makes a value of a type.
func some(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()

	switch t.Kind() {
	case reflect.Ptr:
		if depth > 0 && r.Intn(4) > 0 {
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(some(r, t.Elem(), depth-1))
		}
	case reflect.Interface:
		if t == typeOfType {
			v.Set(reflect.ValueOf([]reflect.Type{reflect.TypeOf(0), reflect.TypeOf(""), typeOfType}[r.Intn(3)]))

			break
		}

		switch r.Intn(5) {
		case 0:
		case 1:
			v.Set(reflect.ValueOf(r.Intn(1000)))
		case 2:
			v.Set(reflect.ValueOf(map[string]interface{}{"k": r.Intn(1000)}))
		default:
			v.Set(reflect.ValueOf(fmt.Sprint("i", r.Intn(1000))))
		}
	case reflect.Slice:
		if depth > 0 {
			for n := []int{0, 1, 1, 2, 3, 6}[r.Intn(6)]; n > 0; n-- {
				v.Set(reflect.Append(v, some(r, t.Elem(), depth-1)))
			}
		}
	case reflect.Map:
		if depth > 0 {
			v.Set(reflect.MakeMap(t))

			for n := r.Intn(3); n > 0; n-- {
				v.SetMapIndex(reflect.ValueOf([]string{"a", "b", "x-a", "get", "200", "k", ""}[r.Intn(7)]).Convert(t.Key()), some(r, t.Elem(), depth-1))
			}
		}
	case reflect.Struct:
		dens := r.Intn(4)
		for _, f := range builderFields(t) {
			if r.Intn(4) < dens {
				v.FieldByIndex(f.Index).Set(some(r, f.Type, depth-1))
			}
		}
	case reflect.String:
		v.SetString([]string{"", "a", "A b", "x-a", "#/a", "get", "simple", fmt.Sprint("s", r.Intn(1000)), fmt.Sprint("s", r.Intn(1000))}[r.Intn(9)])
	case reflect.Bool:
		v.SetBool(r.Intn(3) > 0)
	case reflect.Int, reflect.Int64:
		v.SetInt([]int64{0, 1, -1, 1 << 40, int64(r.Intn(1000)), -int64(r.Intn(1000))}[r.Intn(6)])
	case reflect.Float64:
		v.SetFloat([]float64{0, 1, -1, .5, 1e20, float64(r.Intn(1000)), -float64(r.Intn(1000)) / 8}[r.Intn(7)])
	default:
		panic("cannot make " + t.String())
	}

	return v
}

type builderCall struct {
	M    string `json:"m"`
	Seed int64  `json:"seed"`
	Key  string `json:"key"`
}

func runBuilder(t *tracer, raw []byte) {
	s := struct {
		Sc    string        `json:"sc"`
		Table bool          `json:"table"`
		Type  string        `json:"type"`
		Init  int64         `json:"init"`
		Calls []builderCall `json:"calls"`
	}{}
	unjson(raw, &s)

	if s.Table {
		builderTable(t)

		return
	}

	typ, ok := builderTypes[s.Type]
	if !ok {
		// A type that no longer exists has no methods to check.
		return
	}

	x := reflect.New(typ)
	if s.Init != 0 {
		x.Elem().Set(some(rand.New(rand.NewSource(s.Init)), typ, 3))
	}

	t.emit(M{"ev": "begin", "sc": s.Sc, "type": s.Type, "state": state(x.Elem())})

	for n, c := range s.Calls {
		m := x.MethodByName(c.M)
		if !m.IsValid() {
			continue
		}

		rec := M{"ev": "call", "n": n, "m": c.M, "pan": "", "self": false, "same": false, "ret": []interface{}{"z"}, "args": []interface{}{}, "args2": []interface{}{}}
		r := rand.New(rand.NewSource(c.Seed))
		args := []reflect.Value{}

		for i := 0; i < m.Type().NumIn(); i++ {
			a := some(r, m.Type().In(i), 3)
			if c.Key != "" && i == 0 && m.Type().NumIn() == 2 && a.Kind() == reflect.String {
				a.SetString(c.Key)
			}

			args = append(args, a)
		}

		list := func() []interface{} {
			q := []interface{}{}
			for _, a := range args {
				q = append(q, state(a))
			}

			return q
		}

		rec["args"] = list()
		rec["pan"] = guard(func() {
			var out []reflect.Value
			if m.Type().IsVariadic() {
				out = m.CallSlice(args)
			} else {
				out = m.Call(args)
			}

			rec["args2"] = list()

			if len(out) == 1 && out[0].Kind() == reflect.Ptr {
				rec["self"] = out[0].Pointer() == x.Pointer() && out[0].Type() == x.Type()
				if out[0].Type() != x.Type() || !rec["self"].(bool) {
					rec["ret"] = state(out[0])
				}

				if f := strings.TrimSuffix(c.M, "Ens"); f != c.M && len(args) == 0 {
					if g := x.Elem().FieldByName(f); g.IsValid() && g.Kind() == reflect.Ptr && g.Type() == out[0].Type() {
						rec["same"] = g.Pointer() == out[0].Pointer()
					}
				}
			}
		})
		rec["state"] = state(x.Elem())
		t.emit(rec)
	}
}

// builderTable tells which methods and members there are.
func builderTable(t *tracer) {
	for _, n := range builderNames() {
		typ := builderTypes[n]
		ms := []string{}
		p := reflect.PtrTo(typ)

		for i := 0; i < p.NumMethod(); i++ {
			m := p.Method(i)
			if strings.HasPrefix(m.Name, "With") || strings.HasSuffix(m.Name, "Ens") {
				ms = append(ms, m.Name)
			}
		}

		if len(ms) == 0 {
			continue
		}

		fs := M{}

		for _, f := range builderFields(typ) {
			k := f.Type.Kind().String()
			z := M{"k": k, "zero": state(reflect.Zero(f.Type))}

			if f.Type.Kind() == reflect.Ptr {
				z["zero"] = state(reflect.Zero(f.Type.Elem()))
			}

			fs[f.Name] = z
		}

		t.emit(M{"ev": "type", "type": n, "methods": ms, "fields": fs})
	}
}
