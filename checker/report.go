package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// An Obl is one obligation: a rule applied to a construct of the program.
type Obl struct {
	Rule   string `json:"rule"`
	Key    string `json:"construct"` // stable name of the construct (no line numbers)
	Pos    string `json:"pos"`
	OK     bool   `json:"ok"`
	Undec  bool   `json:"undecided,omitempty"`
	Detail string `json:"detail,omitempty"`
}

func (o *Obl) id() string { return o.Rule + "|" + o.Key }

// Report collects the obligations of one property.
type Report struct {
	prop     string
	tier     string
	obs      []*Obl
	seen     map[string]*Obl
	mins     map[string]int
	analysed map[string]bool
	notes    []string
	stats    map[string]int
	mu       sync.Mutex
}

func newReport(prop, tier string) *Report {
	return &Report{prop: prop, tier: tier, seen: map[string]*Obl{}, mins: map[string]int{}, analysed: map[string]bool{}, stats: map[string]int{}}
}

// add records an obligation; a failing record of the same construct wins.
func (r *Report) add(rule, key, pos string, ok bool, detail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	id := rule + "|" + key
	if o := r.seen[id]; o != nil {
		if (o.OK || o.Undec) && !ok {
			o.OK, o.Undec, o.Detail, o.Pos = false, false, detail, pos
		}
		return
	}
	o := &Obl{Rule: rule, Key: key, Pos: pos, OK: ok, Detail: detail}
	r.seen[id] = o
	r.obs = append(r.obs, o)
}

func (r *Report) ok(rule, key, pos, detail string)   { r.add(rule, key, pos, true, detail) }
func (r *Report) fail(rule, key, pos, detail string) { r.add(rule, key, pos, false, detail) }

// undecided records an obligation the analysis has no answer for: it is not an
// alarm, but it is neither discharged, and says so in the output and evidence.
func (r *Report) undecided(rule, key, pos, detail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if o := r.seen[rule+"|"+key]; o != nil {
		if o.OK {
			o.OK, o.Undec, o.Detail, o.Pos = false, true, detail, pos
		}
		return
	}
	o := &Obl{Rule: rule, Key: key, Pos: pos, Undec: true, Detail: detail}
	r.seen[rule+"|"+key] = o
	r.obs = append(r.obs, o)
}

// min demands at least n instances of a rule: fewer means that the checker
// no longer finds what it is meant to judge.
func (r *Report) min(rule string, n int) { r.mins[rule] = n }

func (r *Report) fn(name string) {
	r.mu.Lock()
	r.analysed[name] = true
	r.mu.Unlock()
}

func (r *Report) note(f string, a ...interface{}) { r.notes = append(r.notes, fmt.Sprintf(f, a...)) }

type checkFn func(p *Program, r *Report)

type checkInfo struct {
	run         checkFn
	level       string
	rule        string
	assumptions []string
}

var checks = map[string]*checkInfo{}

func register(id, level, rule string, fn checkFn, assumptions ...string) {
	checks[id] = &checkInfo{fn, level, rule, assumptions}
}

type knownFinding struct{ prop, key, what string }

// readKnown reads KNOWN lines: "KNOWN property=<id> key=<rule|construct> :: <what>".
func readKnown(file string) (l []knownFinding) {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		t := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(t, "KNOWN ") {
			continue
		}
		t = strings.TrimPrefix(t, "KNOWN ")
		parts := strings.SplitN(t, " :: ", 2)
		if len(parts) != 2 {
			continue
		}
		k := knownFinding{what: parts[1]}
		hd := strings.SplitN(parts[0], " key=", 2)
		if len(hd) != 2 {
			continue
		}
		k.prop = strings.TrimPrefix(hd[0], "property=")
		k.key = strings.TrimSpace(hd[1])
		l = append(l, k)
	}
	return l
}

func runCheck(verif, prop, tier string) int {
	start := time.Now()
	ci := checks[prop]
	if ci == nil {
		fatalf("unknown property %s", prop)
	}
	r := newReport(prop, tier)
	var prog atomic.Pointer[Program]
	go watchdog(r, start, func() {
		if p := prog.Load(); p != nil {
			p.Close()
		}
		os.Exit(finishCheck(verif, prop, tier, ci, r, start))
	})
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.undecided("checker", "internal", "?", fmt.Sprintf("the analysis did not finish, so nothing is decided: %v\n%s", e, debug.Stack()))
			}
		}()
		p, err := Load(verif)
		if p != nil {
			prog.Store(p)
			defer p.Close()
		}
		if err != nil {
			r.fail("checker", "load", "?", "the tree does not load, so nothing is decided: "+err.Error())
			return
		}
		ci.run(p, r)
		cnt := map[string]int{}
		for _, o := range r.obs {
			cnt[o.Rule]++
		}
		var ms []string
		for m := range r.mins {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			if cnt[m] < r.mins[m] {
				r.fail("checker", "instances of "+m, "?", fmt.Sprintf("found %d constructs to judge, expected at least %d: the anchors of the rule are gone", cnt[m], r.mins[m]))
			}
		}
		if len(r.obs) == 0 {
			r.fail("checker", "no obligations", "?", "nothing was found to judge")
		}
	}()
	r.mu.Lock() // nothing is added any more
	return finishCheck(verif, prop, tier, ci, r, start)
}

// watchdog ends a check that has used up its time or memory: what was found
// until then is reported, the rest is undecided.
func watchdog(r *Report, start time.Time, finish func()) {
	const maxMem = 16 << 30
	debug.SetMemoryLimit(maxMem - 2<<30)
	for {
		time.Sleep(250 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		why := ""
		if ms.HeapAlloc > maxMem {
			why = "memory"
		} else if time.Since(start) > 800*time.Second {
			why = "time"
		}
		if why == "" {
			continue
		}
		r.undecided("checker", "limits", "?", "the analysis ran out of "+why+", so what is not listed here is not decided")
		r.mu.Lock() // stops the analysis at its next report
		finish()
	}
}

func finishCheck(verif, prop, tier string, ci *checkInfo, r *Report, start time.Time) int {
	known := readKnown(filepath.Join(verif, "known-findings.txt"))
	var viol, kn, und []*Obl
	okN := 0
	rules := map[string][2]int{}
	for _, o := range r.obs {
		c := rules[o.Rule]
		c[0]++
		if o.OK {
			c[1]++
			okN++
			rules[o.Rule] = c
			continue
		}
		rules[o.Rule] = c
		if o.Undec {
			und = append(und, o)
			fmt.Printf("UNDECIDED property=%s %s [%s] %s: %s\n", prop, o.Rule, o.Key, o.Pos, o.Detail)
			continue
		}
		isK := false
		for _, k := range known {
			if k.prop == prop && k.key == o.id() {
				isK = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.what)
			}
		}
		if isK {
			kn = append(kn, o)
		} else {
			viol = append(viol, o)
		}
	}
	evDir := filepath.Join(verif, "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, prop+".violations.txt")
	os.Remove(replay)
	ev := map[string]interface{}{}
	cov := map[string]interface{}{}
	var ruleList []map[string]interface{}
	var rn []string
	for k := range rules {
		rn = append(rn, k)
	}
	sort.Strings(rn)
	for _, k := range rn {
		ruleList = append(ruleList, map[string]interface{}{"rule": k, "obligations": rules[k][0], "discharged": rules[k][1]})
	}
	var fns []string
	for f := range r.analysed {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	samples := []interface{}{}
	for i, o := range r.obs {
		if i < 200 {
			samples = append(samples, o)
		}
	}
	cov["explanation"] = ci.rule
	cov["obligations"] = len(r.obs)
	cov["discharged"] = okN
	cov["undecided"] = len(und)
	cov["rules"] = ruleList
	cov["functions_analysed"] = len(fns)
	cov["functions"] = fns
	cov["samples"] = samples
	cov["checker_cmd"] = "./run.sh " + prop + " " + tier
	cov["trusted_base"] = []string{"go/types and golang.org/x/tools/go/ssa", "the checker in /verif/checker", "the library models listed under assumptions"}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	if len(r.stats) > 0 {
		cov["stats"] = r.stats
	}
	ev["property"] = prop
	ev["tier"] = tier
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev["seed"] = seed
	ev["level"] = ci.level
	ev["coverage"] = cov
	as := ci.assumptions
	if as == nil {
		as = []string{}
	}
	ev["assumptions"] = as
	ev["wall_s"] = time.Since(start).Seconds()
	if len(viol) > 0 {
		var sb strings.Builder
		for _, o := range viol {
			fmt.Fprintf(&sb, "%s\t%s\t%s\t%s\n", o.Rule, o.Key, o.Pos, o.Detail)
		}
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	ev["violations"] = len(viol)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644)
	for _, o := range kn {
		fmt.Printf("  (known) %s %s: %s\n", o.id(), o.Pos, o.Detail)
	}
	if len(viol) > 0 {
		for _, o := range viol {
			fmt.Printf("%s [%s] %s: %s\n", o.Rule, o.Key, o.Pos, o.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	fmt.Printf("ok property=%s: %d obligations discharged, %d undecided, %d known findings (%.1fs)\n", prop, okN, len(und), len(kn), time.Since(start).Seconds())
	return 0
}
