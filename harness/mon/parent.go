package mon

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"
)

const lib = "younglifestyle/secs4go"

// Known is one line of known_findings.txt:
//
//	open: property=<id> key=<key> <what fails>
//	fixed: property=<id> <commit> <what failed>       (suppresses nothing)
type Known struct{ Prop, Key, Text string }

func loadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^open: property=(\S+) key=(\S+) (.*)$`)
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			ks = append(ks, Known{m[1], m[2], m[3]})
		}
	}
	return ks
}

// Parent supervises the worker and decides. It returns the exit status.
func Parent(ck *Check, tier string, seed int64, root, only string) int {
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "verif-"+ck.ID+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(scratch)
	out := filepath.Join(scratch, "report.json")
	raceLog := filepath.Join(scratch, "race")
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	self, _ := os.Executable()
	args := []string{"-worker", "-prop", ck.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-out", out}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GORACE=log_path="+raceLog+" exitcode=0 halt_on_error=0 history_size=3", "GOTRACEBACK=all", "TMPDIR="+scratch)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Dir = scratch
	stderrF, _ := os.Create(filepath.Join(scratch, "stderr"))
	cmd.Stdout, cmd.Stderr = stderrF, stderrF
	if err := cmd.Start(); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	var werr error
	select {
	case werr = <-done:
	case <-time.After(limit):
		timedOut = true
		cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case werr = <-done:
		case <-time.After(20 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			werr = <-done
		}
	}
	stderrF.Close()
	rep := Report{}
	if b, err := os.ReadFile(out); err == nil {
		json.Unmarshal(b, &rep)
	}
	text := tail(filepath.Join(scratch, "stderr"), 4<<20)
	viol := rep.Violations
	harnessErr := ""
	if timedOut {
		// The worker's own watchdogs decide hangs; reaching this bound with a lot of library
		// goroutines blocked gives no verdict.
		harnessErr = "worker exceeded its time limit; active: " + strings.Join(rep.Active, ", ")
	} else if werr != nil || !rep.Done {
		if v, ok := crashViolation(text, rep.Active); ok {
			viol = append(viol, v)
		} else {
			harnessErr = fmt.Sprintf("worker ended abnormally (%v) without a panic in the code under test", werr)
		}
	}
	if ck.Race {
		races := parseRaces(scratch)
		rep.addCount("race_reports_in_code_under_test", int64(len(races)))
		if ck.ID == RaceProp {
			viol = append(viol, races...)
		}
	}

	known := loadKnown(filepath.Join(root, "known_findings.txt"))
	var fresh []Violation
	seenKnown := map[string]bool{}
	for _, v := range viol {
		matched := false
		for _, k := range known {
			if k.Prop == ck.ID && k.Key == v.Key {
				matched = true
				if !seenKnown[k.Key] {
					seenKnown[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", ck.ID, k.Text, k.Key)
				}
			}
		}
		if !matched {
			fresh = append(fresh, v)
		}
	}

	ev := map[string]any{
		"property": ck.ID, "tier": tier, "seed": seed, "level": ck.Level,
		"assumptions": ck.Assume, "wall_s": time.Since(t0).Seconds(), "violations": len(fresh),
	}
	if ck.Assume == nil {
		ev["assumptions"] = []string{}
	}
	cov := map[string]any{"evaluations": rep.Evals, "distinct_nontrivial": rep.Distinct, "rule": ck.Rule, "observed": rep.Counters}
	if rep.Samples == nil {
		rep.Samples = []any{}
	}
	cov["samples"] = rep.Samples
	if len(rep.Inconcl) > 0 {
		cov["inconclusive"] = rep.Inconcl
	}
	ev["coverage"] = cov
	evDir := filepath.Join(root, "evidence")
	os.MkdirAll(evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evDir, ck.ID+".json"), append(b, '\n'), 0o644)

	if len(fresh) > 0 {
		rp := filepath.Join(evDir, fmt.Sprintf("replay-%s.json", ck.ID))
		rb, _ := json.MarshalIndent(map[string]any{
			"property": ck.ID, "tier": tier, "seed": seed,
			"rerun":      fmt.Sprintf("VERIF_SEED=%d /verif/run.sh %s %s", seed, ck.ID, tier),
			"violations": fresh, "active_cases": rep.Active,
		}, "", " ")
		os.WriteFile(rp, append(rb, '\n'), 0o644)
		keys := map[string]bool{}
		for _, v := range fresh {
			if !keys[v.Key] && len(keys) < 12 {
				keys[v.Key] = true
				d := v.Detail
				if len(d) > 1500 {
					d = d[:1500] + "..."
				}
				fmt.Printf("[%s] %s\n", v.Key, d)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, rp)
		return 1
	}
	if harnessErr != "" {
		fmt.Println("ERROR:", harnessErr)
		fmt.Println(lastLines(text, 60))
		return 2
	}
	fmt.Printf("%s held: %d cases, %d distinct non-trivial, %.1fs\n", ck.ID, rep.Evals, rep.Distinct, time.Since(t0).Seconds())
	var ks []string
	for k := range rep.Counters {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("  %s=%d", k, rep.Counters[k])
	}
	fmt.Println()
	for _, s := range rep.Inconcl {
		fmt.Println("  inconclusive:", s)
	}
	return 0
}

// RaceProp is the property whose oracle is the race detector.
var RaceProp = ""

func (r *Report) addCount(k string, n int64) {
	if r.Counters == nil {
		r.Counters = map[string]int64{}
	}
	r.Counters[k] += n
}

func tail(path string, n int64) string {
	f, err := os.Open(path)
	if err != nil {
		return ""
	}
	defer f.Close()
	st, _ := f.Stat()
	if st.Size() > n {
		f.Seek(st.Size()-n, 0)
	}
	var b bytes.Buffer
	b.ReadFrom(f)
	return b.String()
}

func lastLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

var frameRe = regexp.MustCompile(`(?m)^([\w./\-]+` + lib + `[^\s(]*(?:\(\*?\w+\)[^\s(]*)?)\(`)

// crashViolation classifies an abnormal end: a Go panic or fatal error whose crashing goroutine
// runs code under test is an observation about that code.
func crashViolation(text string, active []string) (Violation, bool) {
	i := -1
	for _, mark := range []string{"\npanic: ", "\nfatal error: ", "runtime: goroutine stack exceeds", "SIGSEGV"} {
		if j := strings.Index("\n"+text, mark); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 {
		return Violation{}, false
	}
	rest := ("\n" + text)[i:]
	head := rest
	// first goroutine block after the message
	if j := strings.Index(rest, "\ngoroutine "); j >= 0 {
		blk := rest[j+1:]
		if k := strings.Index(blk, "\n\n"); k >= 0 {
			blk = blk[:k]
		}
		head = rest[:j] + "\n" + blk
	}
	m := frameRe.FindStringSubmatch(head)
	if m == nil {
		return Violation{}, false
	}
	fn := m[1]
	if k := strings.LastIndex(fn, "/"); k >= 0 {
		fn = fn[k+1:]
	}
	if len(head) > 5000 {
		head = head[:5000]
	}
	return Violation{Key: "crash:" + fn, Detail: "the process running the code under test crashed; active cases " + strings.Join(active, "; ") + "\n" + head}, true
}

func parseRaces(dir string) []Violation {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	var out []Violation
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			key, ok := raceKey(blk)
			if !ok || seen[key] {
				continue
			}
			seen[key] = true
			d := blk
			if len(d) > 5000 {
				d = d[:5000]
			}
			out = append(out, Violation{Key: key, Detail: d})
		}
	}
	return out
}

// raceKey names the first frame of the code under test in each of the two access stacks; a race
// in which an access has no such frame is the harness's own and is not counted.
func raceKey(blk string) (string, bool) {
	secs := regexp.MustCompile(`(?m)^(?:Previous |)(?i:read|write|atomic read|atomic write) at .*$`).FindAllStringIndex(blk, -1)
	if len(secs) < 2 {
		return "", false
	}
	var names []string
	for i, s := range secs {
		end := len(blk)
		if i+1 < len(secs) {
			end = secs[i+1][0]
		}
		part := blk[s[1]:end]
		if k := strings.Index(part, "\n\n"); k >= 0 {
			part = part[:k]
		}
		m := regexp.MustCompile(`(?m)^\s+(\S*` + lib + `\S*)\(`).FindStringSubmatch(part)
		if m == nil {
			return "", false
		}
		fn := m[1]
		if k := strings.LastIndex(fn, "/"); k >= 0 {
			fn = fn[k+1:]
		}
		names = append(names, fn)
	}
	sort.Strings(names)
	return "race:" + strings.Join(names, "|"), true
}
