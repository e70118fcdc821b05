// vfcheck runs the suites that decide one property, in child processes, and
// reports violations, known findings and evidence.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"vf/h"
	"vf/suites"
)

var (
	prop     = flag.String("property", "", "property id")
	tier     = flag.String("tier", "quick", "quick or thorough")
	seed     = flag.Int64("seed", 1, "seed")
	plainBin = flag.String("plain", "", "plain binary")
	raceBin  = flag.String("race", "", "race binary")
	recBin   = flag.String("rec", "", "binary with access to the recorder")
	overlay  = flag.String("inpkg", "", "in-package test binary")
	scratch  = flag.String("scratch", "", "scratch directory")
	root     = flag.String("root", "", "verif root")
	only     = flag.String("only", "", "run only this case")
	onlyS    = flag.String("suite", "", "run only this suite")
	child    = flag.Bool("child", false, "run suites in this process")
	out      = flag.String("out", "", "child: result file")
	needs    = flag.Bool("needs", false, "print which binaries the property needs")
	limitS   = flag.Int("limit", 840, "overall seconds for quick")
)

func main() {
	flag.Parse()
	if *needs {
		var n []string
		seen := map[string]bool{}
		for _, s := range suites.For(*prop) {
			k := "plain"
			if s.Race {
				k = "race"
			} else if s.Rec {
				k = "rec"
			}
			if !seen[k] {
				seen[k] = true
				n = append(n, k)
			}
		}
		fmt.Println(strings.Join(n, " "))
		return
	}
	if *child {
		runChild()
		return
	}
	os.Exit(supervise())
}

func runChild() {
	c := h.NewCtx(*prop, *tier, *seed, *out+".slots")
	c.Only = *only
	for _, s := range suites.All {
		if s.Name != *onlyS {
			continue
		}
		if s.Rlim {
			lim := syscall.Rlimit{Cur: 10 << 30, Max: 10 << 30}
			syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
		}
		s.Run(c)
	}
	c.Write(*out, true)
}

type suiteRun struct {
	name    string
	res     h.Result
	crashed string
	cases   []string
	races   []string
	wall    float64
	noAns   string
}

func runSuite(s suites.Suite, limit time.Duration) suiteRun {
	r := suiteRun{name: s.Name}
	bin := *plainBin
	if s.Race {
		bin = *raceBin
	}
	if s.Rec {
		bin = *recBin
	}
	res := filepath.Join(*scratch, s.Name+".json")
	args := []string{"-child", "-property", *prop, "-tier", *tier, "-seed", fmt.Sprint(*seed), "-suite", s.Name, "-out", res, "-scratch", *scratch, "-root", *root}
	if *only != "" {
		args = append(args, "-only", *only)
	}
	cmd := exec.Command(bin, args...)
	raceLog := filepath.Join(*scratch, s.Name+".race")
	cmd.Env = append(os.Environ(), "GORACE=log_path="+raceLog+" halt_on_error=0 exitcode=0 history_size=3", "VERIF_ROOT="+*root, "GOTRACEBACK=all")
	var errb bytes.Buffer
	cmd.Stderr = &limited{b: &errb, n: 4 << 20}
	cmd.Stdout = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	t0 := time.Now()
	err := cmd.Start()
	if err != nil {
		r.noAns = err.Error()
		return r
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		r.noAns = fmt.Sprintf("suite %s did not finish in %s", s.Name, limit)
	}
	r.wall = time.Since(t0).Seconds()
	if b, e := ioutil.ReadFile(res); e == nil {
		json.Unmarshal(b, &r.res)
	}
	if b, e := ioutil.ReadFile(res + ".slots"); e == nil {
		for i := 0; i+256 <= len(b); i += 256 {
			n := bytes.IndexByte(b[i:i+256], 0)
			if n > 0 {
				r.cases = append(r.cases, string(b[i:i+n]))
			}
		}
	}
	logs, _ := filepath.Glob(raceLog + ".*")
	for _, l := range logs {
		b, _ := ioutil.ReadFile(l)
		for _, rep := range strings.Split(string(b), "==================") {
			if strings.Contains(rep, "DATA RACE") && strings.Contains(rep, "golang-neo4j-bolt-driver") {
				r.races = append(r.races, rep)
			}
		}
	}
	if !r.res.Done && r.noAns == "" {
		r.crashed = errb.String()
	}
	if os.Getenv("VF_VERBOSE") != "" && errb.Len() > 0 {
		os.Stderr.Write(errb.Bytes())
	}
	return r
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// driverCrash tells whether the fatal error happened with the driver on the
// crashing goroutine's stack.
func driverCrash(s string) bool {
	i := strings.Index(s, "fatal error:")
	if j := strings.Index(s, "panic:"); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if j := strings.Index(s, "runtime: out of memory"); i < 0 && j >= 0 {
		i = j
	}
	if i < 0 {
		return false
	}
	t := s[i:]
	if k := strings.Index(t, "\ngoroutine "); k >= 0 {
		// the first goroutine printed is the one that crashed
		g := t[k+1:]
		if e := strings.Index(g, "\n\n"); e >= 0 {
			g = g[:e]
		}
		if strings.Contains(g, "johnnadratowski/golang-neo4j-bolt-driver") {
			return true
		}
		if strings.Contains(t[:k], "stack overflow") || strings.Contains(t[:k], "out of memory") || strings.Contains(t[:k], "cannot allocate memory") {
			return strings.Contains(t, "johnnadratowski/golang-neo4j-bolt-driver")
		}
	}
	return false
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' || r == 0x7F {
			return '.'
		}
		return r
	}, strings.Join(ls, "\n"))
}

func supervise() int {
	t0 := time.Now()
	list := suites.For(*prop)
	if len(list) == 0 {
		fmt.Fprintln(os.Stderr, "no suites for", *prop)
		return 2
	}
	budget := time.Duration(*limitS) * time.Second
	if *tier == "thorough" {
		budget = 6 * time.Hour
	}
	var runs []suiteRun
	for _, s := range list {
		if *onlyS != "" && s.Name != *onlyS {
			continue
		}
		left := budget - time.Since(t0)
		if left < time.Second {
			runs = append(runs, suiteRun{name: s.Name, noAns: "no time left for suite " + s.Name})
			continue
		}
		r := runSuite(s, left)
		fmt.Fprintf(os.Stderr, "suite %-22s %6.1fs evals=%d distinct=%d violations=%d inconclusive=%d\n", s.Name, r.wall, r.res.Evals, r.res.Distinct, len(r.res.Violations), len(r.res.Inconclusive))
		for _, x := range r.res.Inconclusive {
			fmt.Fprintln(os.Stderr, "  inconclusive:", firstLines(x, 3))
		}
		runs = append(runs, r)
		if *prop == "ALL" && (len(r.res.Violations) > 0 || len(r.races) > 0 || r.crashed != "" || r.noAns != "") {
			break
		}
	}

	var mine []h.Violation
	other := 0
	noAnswer := ""
	evals, distinct := int64(0), int64(0)
	counters := map[string]int64{}
	var samples []interface{}
	rules := []string{}
	known := map[string]bool{}
	var inconclusive []string
	suiteStats := map[string]interface{}{}
	for i, r := range runs {
		evals += r.res.Evals
		distinct += r.res.Distinct
		for k, v := range r.res.Counters {
			counters[k] += v
		}
		ns := 0
		for _, s := range r.res.Samples {
			if ns < 3 {
				samples = append(samples, s)
			}
			ns++
		}
		for _, k := range sortedKeys(r.res.Rules) {
			rules = append(rules, k+": "+r.res.Rules[k])
		}
		for _, k := range r.res.Known {
			known[k] = true
		}
		inconclusive = append(inconclusive, r.res.Inconclusive...)
		suiteStats[r.name] = map[string]interface{}{"evaluations": r.res.Evals, "distinct": r.res.Distinct, "wall_s": r.wall}
		for _, v := range r.res.Violations {
			if contains(v.Props, *prop) {
				mine = append(mine, v)
			} else {
				other++
				fmt.Fprintf(os.Stderr, "  (other property %v) %s: %s\n", v.Props, v.Case, firstLines(v.What, 3))
			}
		}
		for _, rep := range r.races {
			v := h.Violation{Props: raceProps(*prop), Suite: r.name, Case: r.name, What: "data race in the driver:\n" + rep}
			if contains(v.Props, *prop) {
				mine = append(mine, v)
			} else {
				other++
			}
		}
		if r.crashed != "" {
			if driverCrash(r.crashed) {
				mine = append(mine, h.Violation{Props: []string{*prop}, Suite: r.name, Case: strings.Join(r.cases, ", "), What: "the process died inside the driver: " + firstLines(r.crashed, 40)})
			} else {
				noAnswer = "suite " + r.name + " crashed: " + firstLines(r.crashed, 60)
			}
		}
		if r.noAns != "" {
			noAnswer = r.noAns
		}
		_ = i
	}
	level := "exploration"
	for _, p := range []string{"C11", "C12", "C06", "C26"} {
		if p == *prop {
			level = "fault_enumeration"
		}
	}
	ks := []string{}
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	if *only == "" && *onlyS == "" && *prop != "ALL" {
		if len(samples) == 0 {
			samples = append(samples, "none")
		}
		ev := map[string]interface{}{
			"property": *prop, "tier": *tier, "seed": *seed, "level": level,
			"coverage": map[string]interface{}{
				"evaluations": evals, "distinct_nontrivial": distinct,
				"rule": strings.Join(rules, " | "), "samples": samples,
				"observed": counters, "suites": suiteStats, "known_findings": ks, "inconclusive": len(inconclusive),
			},
			"assumptions": []string{"the independent PackStream codec and the Bolt v1 server model in /verif/gopath/src/vf state the protocol correctly", "coverage is of the executions run, not of all executions"},
			"wall_s":      time.Since(t0).Seconds(), "violations": len(mine),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*root, "evidence"), 0755)
		ioutil.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(b, '\n'), 0644)
	}
	for _, k := range ks {
		if strings.HasPrefix(k, "property="+*prop+" ") {
			fmt.Println("KNOWN-FINDING: " + k)
		}
	}
	if len(mine) > 0 {
		dir := filepath.Join(*root, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		for i, v := range mine {
			if i >= 10 {
				fmt.Printf("... %d more\n", len(mine)-i)
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", *prop, i))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "violation": v, "seed": *seed, "tier": *tier,
				"replay": fmt.Sprintf("VERIF_SEED=%d bash run.sh %s %s -suite %s -only '%s'", *seed, *prop, *tier, v.Suite, v.Case)}, "", " ")
			ioutil.WriteFile(p, append(b, '\n'), 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, p)
			fmt.Printf("  [%s %s] %s\n", v.Suite, v.Case, firstLines(v.What, 12))
		}
		return 1
	}
	if noAnswer != "" {
		fmt.Fprintln(os.Stderr, "NO ANSWER:", noAnswer)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", *prop, *tier, evals, distinct, time.Since(t0).Seconds())
	return 0
}

func raceProps(p string) []string { return []string{"C18", "C15", "C17"} }

func sortedKeys(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func contains(l []string, s string) bool {
	if s == "ALL" {
		return true
	}
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
