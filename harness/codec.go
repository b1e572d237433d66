package main

import (
	"bytes"
	"encoding/json"
	"reflect"

	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"
	yaml2 "gopkg.in/yaml.v2"
)

func init() {
	modes["codec"] = runCodec
}

type codecItem struct {
	V    string          `json:"v"`
	Kind string          `json:"kind"`
	In   json.RawMessage `json:"in"`
	// YAML text of the same document.
	YAML string `json:"yaml"`
}

// runCodec records what decoders accept and what encoders make of it.
func runCodec(t *tracer, raw []byte) {
	s := struct {
		Sc    string      `json:"sc"`
		Items []codecItem `json:"items"`
	}{}
	unjson(raw, &s)

	t.emit(M{"ev": "begin", "sc": s.Sc})

	for n, it := range s.Items {
		in, err := tagged(it.In)
		check(err)

		rec := M{
			"ev": "codec", "n": n, "v": it.V, "kind": it.Kind, "in": in, "ok": false, "err": "", "pan": "", "out": emptyObj, "again": emptyObj,
			"y": false, "yok": false, "yin": emptyObj, "yout": emptyObj, "yback": emptyObj, "ykeys": []string{}, "jkeys": []string{},
		}

		rec["pan"] = guard(func() { codecOne(it, rec) })

		t.emit(rec)
	}
}

type document interface {
	json.Marshaler
	UnmarshalYAML(data []byte) error
	MarshalYAML() ([]byte, error)
}

func codecOne(it codecItem, rec M) {
	typ, ok := codecKinds[it.V][it.Kind]
	if !ok {
		panic("unknown kind " + it.Kind)
	}

	x := reflect.New(typ)

	if err := json.Unmarshal(it.In, x.Interface()); err != nil {
		rec["err"] = err.Error()
	} else {
		rec["ok"] = true

		b, err := json.Marshal(x.Elem().Interface())
		check(err)

		rec["out"], err = tagged(b)
		check(err)

		x2 := reflect.New(typ)
		check(json.Unmarshal(b, x2.Interface()))

		b2, err := json.Marshal(x2.Interface())
		check(err)

		rec["again"], err = tagged(b2)
		check(err)
	}

	if it.YAML == "" {
		return
	}

	rec["y"] = true

	fresh := func() document {
		if it.V == "31" {
			return &openapi31.Spec{}
		}

		return &openapi3.Spec{}
	}

	d := fresh()
	if err := d.UnmarshalYAML([]byte(it.YAML)); err != nil {
		rec["err"] = err.Error()

		return
	}

	rec["yok"] = true
	rec["yin"] = encoded(d)

	y, err := d.MarshalYAML()
	check(err)

	rec["yout"] = mustTagged(plainYAML(y))

	order := yaml2.MapSlice{}
	check(yaml2.Unmarshal(y, &order))

	keys := []string{}
	for _, i := range order {
		keys = append(keys, i.Key.(string))
	}

	rec["ykeys"] = keys

	j, err := json.Marshal(d)
	check(err)

	rec["jkeys"] = topKeys(j)

	d = fresh()
	check(d.UnmarshalYAML(y))

	rec["yback"] = encoded(d)
}

func encoded(v interface{}) interface{} {
	b, err := json.Marshal(v)
	check(err)

	r, err := tagged(b)
	check(err)

	return r
}

func topKeys(b []byte) []string {
	keys := []string{}
	d := json.NewDecoder(bytes.NewReader(b))

	_, err := d.Token()
	check(err)

	for d.More() {
		k, err := d.Token()
		check(err)

		var v json.RawMessage

		check(d.Decode(&v))

		keys = append(keys, k.(string))
	}

	return keys
}
