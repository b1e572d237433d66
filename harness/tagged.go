package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
)

// tagged converts JSON bytes into the tagged form the specification reads.
func tagged(b []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()

	v, err := tagNext(d)
	if err != nil {
		return nil, err
	}

	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}

	return v, nil
}

// taggedLoose lets the last one of repeated members win.
func taggedLoose(b []byte) (interface{}, error) {
	var m json.RawMessage

	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()

	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}

	m, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}

	return tagged(m)
}

// tagNext reads one value, a member that is written twice gets a mark.
func tagNext(d *json.Decoder) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}

	switch x := t.(type) {
	case nil:
		return []interface{}{"z"}, nil
	case bool:
		return []interface{}{"b", x}, nil
	case string:
		return []interface{}{"s", x}, nil
	case json.Number:
		return []interface{}{"n", canonNum(string(x))}, nil
	case json.Delim:
		if x == '[' {
			r := []interface{}{}

			for d.More() {
				v, err := tagNext(d)
				if err != nil {
					return nil, err
				}

				r = append(r, v)
			}

			_, err := d.Token()

			return []interface{}{"a", r}, err
		}

		r := map[string]interface{}{}

		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}

			v, err := tagNext(d)
			if err != nil {
				return nil, err
			}

			key := k.(string)
			if _, ok := r[key]; ok {
				r["<repeated> "+key] = []interface{}{"b", true}
			}

			r[key] = v
		}

		_, err := d.Token()

		return []interface{}{"o", r}, err
	}

	return nil, fmt.Errorf("unexpected token %v", t)
}

// canonNum is the text of a number independent of its notation.
func canonNum(s string) string {
	if !strings.ContainsAny(s, ".eE") {
		return s
	}

	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return s
	}

	r := strconv.FormatFloat(f, 'f', -1, 64)
	if len(r) > 25 {
		return strconv.FormatFloat(f, 'g', -1, 64)
	}

	return r
}

// untag is the inverse of tag, the result is JSON.
func untag(v interface{}) string {
	a := v.([]interface{})

	switch a[0].(string) {
	case "z":
		return "null"
	case "b":
		if a[1].(bool) {
			return "true"
		}

		return "false"
	case "n":
		return a[1].(string)
	case "s":
		b, _ := json.Marshal(a[1].(string))

		return string(b)
	case "a":
		var p []string
		if a[1] != nil {
			for _, x := range a[1].([]interface{}) {
				p = append(p, untag(x))
			}
		}

		return "[" + strings.Join(p, ",") + "]"
	case "o":
		m, _ := a[1].(map[string]interface{})
		ks := make([]string, 0, len(m))

		for k := range m {
			ks = append(ks, k)
		}

		sort.Strings(ks)

		var p []string

		for _, k := range ks {
			b, _ := json.Marshal(k)
			p = append(p, string(b)+":"+untag(m[k]))
		}

		return "{" + strings.Join(p, ",") + "}"
	}

	panic("unexpected tag")
}

func mustTagged(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic("encode: " + err.Error())
	}

	// Schemas of jsonschema-go may have repeated members, that is not judged here.
	t, err := taggedLoose(b)
	if err != nil {
		panic("encoded JSON is invalid: " + err.Error())
	}

	return t
}

var emptyObj = []interface{}{"o", map[string]interface{}{}}

// pick removes a member of a tagged object and returns it.
func pick(o interface{}, key string) interface{} {
	m := o.([]interface{})[1].(map[string]interface{})
	v, ok := m[key]

	if !ok {
		return emptyObj
	}

	delete(m, key)

	return v
}
