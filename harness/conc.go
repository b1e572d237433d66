package main

import (
	"encoding/json"
	"math/rand"
	"sort"
	"sync"
)

func init() { modes["conc"] = runConc }

type concScenario struct {
	Sc      string     `json:"sc"`
	Parts   []scenario `json:"parts"`
	Sched   []int      `json:"sched"`
	Readers int        `json:"readers"`
	Seed    int64      `json:"seed"`
}

// turns lets one of several processes run at a time.
type turns struct {
	give []chan bool
	back chan bool
}

func (q *turns) wait(i int) {
	q.back <- true
	<-q.give[i]
}

// play runs processes, each gets a turn when the schedule names it and in
// rotation when the schedule is over.
func (q *turns) play(sched []int, procs []func(i int)) {
	var (
		mu   sync.Mutex
		done = make([]bool, len(procs))
	)

	for range procs {
		q.give = append(q.give, make(chan bool))
	}

	for i := range procs {
		go func(i int) {
			<-q.give[i]

			defer func() {
				mu.Lock()
				done[i] = true
				mu.Unlock()
				q.back <- true
			}()

			procs[i](i)
		}(i)
	}

	turn := func(i int) bool {
		mu.Lock()
		d := done[i]
		mu.Unlock()

		if !d {
			q.give[i] <- true
			<-q.back
		}

		return !d
	}

	for _, i := range sched {
		turn(i)
	}

	for more := true; more; {
		more = false

		for i := range procs {
			more = turn(i) || more
		}
	}
}

// obsOf is what a step shows.
func obsOf(x *run, ev M) M {
	o := M{"doc": digest(x.last)}

	for _, k := range []string{"ok", "pan", "out", "hooks"} {
		if v, ok := ev[k]; ok {
			o[k] = v
		}
	}

	// Callbacks come in no particular order.
	if out, ok := o["out"].(M); ok {
		sorted(out["reports"])
	}

	sorted(o["hooks"])

	return o
}

func sorted(v interface{}) {
	q, _ := v.([]interface{})
	key := func(i int) string { b, _ := json.Marshal(q[i]); return string(b) }

	sort.Slice(q, func(i, j int) bool { return key(i) < key(j) })
}

func finalObs(x *run) M {
	o := M{}
	o["pan"] = guard(func() {
		b, err := x.json()
		check(err)

		o["doc"], err = tagged(b)
		check(err)

		y, err := x.yaml()
		check(err)

		o["yaml"] = digest(y)
	})

	return o
}

// part builds one document and hands over what is seen.
func part(s scenario, yield func(), see func(n int, obs M)) *run {
	x := newRun(s.V[0], s)
	x.yield = yield

	for j, c := range s.Cmds {
		if yield != nil {
			yield()
		}

		if ev := x.step(j, c); ev != nil {
			see(j, obsOf(x, ev))
		}
	}

	see(len(s.Cmds), finalObs(x))

	return x
}

func runConc(t *tracer, raw []byte) {
	s := concScenario{}
	unjson(raw, &s)

	t.emit(M{"ev": "begin", "sc": s.Sc})

	alone := make([]*run, len(s.Parts))

	for i, p := range s.Parts {
		i := i
		alone[i] = part(p, nil, func(n int, obs M) { t.emit(M{"ev": "alone", "part": i, "n": n, "obs": obs}) })
	}

	if len(s.Sched) > 0 {
		q := &turns{back: make(chan bool)}

		procs := make([]func(i int), len(s.Parts))
		for i := range procs {
			procs[i] = func(i int) {
				part(s.Parts[i], func() { q.wait(i) }, func(n int, obs M) { t.emit(M{"ev": "step", "part": i, "n": n, "obs": obs}) })
			}
		}

		q.play(s.Sched, procs)
	} else {
		var (
			wg    sync.WaitGroup
			start = make(chan bool)
			seen  = make([][]M, len(s.Parts))
		)

		for i := range s.Parts {
			wg.Add(1)

			go func(i int) {
				defer wg.Done()
				<-start

				part(s.Parts[i], nil, func(n int, obs M) { seen[i] = append(seen[i], M{"ev": "step", "part": i, "n": n, "obs": obs}) })
			}(i)
		}

		close(start)
		wg.Wait()

		for _, evs := range seen {
			for _, ev := range evs {
				t.emit(ev)
			}
		}
	}

	if s.Readers > 0 {
		for i := range s.Parts {
			readers(t, s, i, alone[i])
		}
	}
}

// readings are all ways to look at a finished document.
func readings(x *run) map[string]func() M {
	rs := map[string]func() M{
		"json": func() M { b, err := x.json(); return M{"doc": digest(b), "err": err != nil} },
		"yaml": func() M { b, err := x.yaml(); return M{"doc": digest(b), "err": err != nil} },
		"info": func() M {
			ss := x.r.SpecSchema()

			return M{"title": mustTagged(ss.Title()), "version": mustTagged(ss.Version()), "description": mustTagged(ss.Description())}
		},
	}

	b, err := x.json()
	check(err)

	rs["decode"] = func() M {
		fromJSON, _, toJSON := x.fresh()
		if err := fromJSON(b); err != nil {
			return M{"err": true}
		}

		c, err := toJSON()

		return M{"doc": digest(c), "err": err != nil}
	}

	var doc struct {
		Components struct {
			Schemas map[string]json.RawMessage `json:"schemas"`
		} `json:"components"`
	}

	check(json.Unmarshal(b, &doc))

	for n := range doc.Components.Schemas {
		n := n
		rs["export "+n] = func() M { s := x.export(n); return M{"schema": schemaJ(&s)} }
		rs["resolve "+n] = func() M {
			s, found := x.resolve("#/components/schemas/" + n)

			return M{"schema": schemaJ(&s), "found": found}
		}
	}

	rs["resolve nothing"] = func() M {
		_, found := x.resolve("#/components/schemas/NoSuchThing")

		return M{"found": found}
	}

	return rs
}

func readers(t *tracer, s concScenario, i int, x *run) {
	// The same document again, not encoded yet.
	y := newQuiet(s.Parts[i].V[0], s.Parts[i])

	for j, c := range s.Parts[i].Cmds {
		y.step(j, c)
	}

	first := readings(x)
	keys := []string{}

	for k := range first {
		keys = append(keys, k)
	}

	for _, k := range keys {
		k, o := k, M{}
		o["pan"] = guard(func() { o["res"] = first[k]() })
		t.emit(M{"ev": "read0", "part": i, "k": k, "obs": o})
	}

	var (
		wg    sync.WaitGroup
		start = make(chan bool)
		seen  = make([][]M, s.Readers)
	)

	// The second document is not looked at before the readers start.
	second := map[string]func() M{}
	for k, f := range readingsOf(x, y) {
		second[k] = f
	}

	for g := 0; g < s.Readers; g++ {
		wg.Add(1)

		go func(g int) {
			defer wg.Done()

			order := rand.New(rand.NewSource(s.Seed + int64(g))).Perm(len(keys))
			<-start

			for _, n := range order {
				k, o := keys[n], M{}
				o["pan"] = guard(func() { o["res"] = second[k]() })
				seen[g] = append(seen[g], M{"ev": "read", "part": i, "k": k, "by": g, "obs": o})
			}
		}(g)
	}

	close(start)
	wg.Wait()

	for _, evs := range seen {
		for _, ev := range evs {
			t.emit(ev)
		}
	}

	t.emit(M{"ev": "after", "part": i, "obs": finalObs(y)})
}

// readingsOf are the readings of y, prepared by looking at x only.
func readingsOf(x, y *run) map[string]func() M {
	z := *x
	rs := readings(&z)
	z.lib = y.lib

	return rs
}
