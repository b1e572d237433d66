package main

import (
	openapi "github.com/swaggest/openapi-go"
)

func init() {
	modes["path"] = runPath
}

type pathScenario struct {
	Sc    string     `json:"sc"`
	Chars []string   `json:"chars"`
	Len   int        `json:"len"`
	M     string     `json:"m"`
	Items [][]string `json:"items"`
}

const pathBlock = 400

// runPath records how methods and path patterns are read: given pairs, or
// one method with all strings over an alphabet up to a length.
func runPath(t *tracer, raw []byte) {
	s := pathScenario{}
	unjson(raw, &s)

	t.emit(M{"ev": "begin", "sc": s.Sc})

	var rs []interface{}

	flush := func() {
		if len(rs) > 0 {
			t.emit(M{"ev": "paths", "rs": rs, "n": len(rs)})
		}

		rs = nil
	}
	one := func(m, p string) {
		rec := M{"m": m, "p": p, "ok": false, "method": "", "clean": "", "names": []string{}, "pan": "", "again": ""}

		rec["pan"] = guard(func() {
			cm, cp, names, err := openapi.SanitizeMethodPath(m, p)
			if err != nil {
				return
			}

			rec["ok"], rec["method"], rec["clean"] = true, cm, cp

			if names != nil {
				rec["names"] = names
			}

			_, again, _, err := openapi.SanitizeMethodPath(m, cp)
			check(err)

			rec["again"] = again
		})

		rs = append(rs, rec)
		if len(rs) == pathBlock {
			flush()
		}
	}

	for _, it := range s.Items {
		one(it[0], it[1])
	}

	var rec func(p string, n int)

	rec = func(p string, n int) {
		one(s.M, p)

		if n == s.Len {
			return
		}

		for _, c := range s.Chars {
			rec(p+c, n+1)
		}
	}

	if s.Len > 0 {
		rec("", 0)
	}

	flush()
}
