// Command harness searches seeded simulated executions of anansi for property
// violations.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	simlog "github.com/jcorbin/anansi/zz/shim/log"
	"github.com/jcorbin/anansi/zz/sim"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetTraceback("all")
	simlog.SimReset()
	simSnapshotAll()
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range scenarios {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "check":
		os.Exit(check(os.Args[2]))
	case "worker":
		worker(os.Args[2:])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "run":
		runMain(os.Args[2:])
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness check ID | replay FILE | run ID SEED RUN [-v] | list")
	os.Exit(2)
}

func scenario(id string) *Scenario {
	sc := scenarios[id]
	if sc == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		os.Exit(2)
	}
	return sc
}

// Replay is a replay file.
type Replay struct {
	Property string           `json:"property"`
	Class    string           `json:"class"`
	Message  string           `json:"message"`
	Seed     uint64           `json:"seed"`
	Run      uint64           `json:"run"`
	Fatal    bool             `json:"fatal,omitempty"`
	Choices  []uint32         `json:"choices"`
	Original int              `json:"original_choices"`
	Hash     string           `json:"execution_hash"`
	Faults   map[string]int64 `json:"faults"`
	Desc     []string         `json:"description"`
	Trace    []string         `json:"trace"`
}

// ---- worker

type workerMsg struct {
	Type    string            `json:"t"`
	Run     uint64            `json:"run,omitempty"`
	Msg     string            `json:"msg,omitempty"`
	Replay  *Replay           `json:"replay,omitempty"`
	Runs    int64             `json:"runs,omitempty"`
	Steps   int64             `json:"steps,omitempty"`
	SimNs   int64             `json:"simns,omitempty"`
	Switch  int64             `json:"switches,omitempty"`
	Trivial int64             `json:"trivial,omitempty"`
	Rechk   int64             `json:"rechk,omitempty"`
	Faults  map[string]int64  `json:"faults,omitempty"`
	Probes  map[string]int64  `json:"probes,omitempty"`
	Known   map[string]int64  `json:"known,omitempty"`
	KnownEx map[string]string `json:"knownex,omitempty"`
	Sample  *sampleT          `json:"sample,omitempty"`
	Hashes  string            `json:"hashes,omitempty"`
}

type sampleT struct {
	Run    uint64           `json:"run"`
	Desc   []string         `json:"description"`
	Faults map[string]int64 `json:"faults"`
	Trace  []string         `json:"trace"`
	Hash   string           `json:"execution_hash"`
}

// worker ID seed start stride count deadline-seconds scratch
func worker(args []string) {
	sc := scenario(args[0])
	num := func(i int) uint64 { v, _ := strconv.ParseUint(args[i], 10, 64); return v }
	seed, start, stride, count := num(1), num(2), num(3), num(4)
	deadline := time.Now().Add(time.Duration(num(5)) * time.Millisecond)
	scratch := args[6]
	runtime.GOMAXPROCS(2)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	emit := func(m *workerMsg) {
		enc.Encode(m)
		out.Flush()
	}
	status, err := os.OpenFile(filepath.Join(scratch, fmt.Sprintf("w%d.status", start)), os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var sb [8]byte
	known := loadKnown(sc.ID)
	runOnce(sc, newChooser(sc, 12345, 0), false) // warm up process-global caches

	tot := &workerMsg{Type: "done", Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}, KnownEx: map[string]string{}}
	hashes := make(map[uint64]bool)
	scheds := make(map[uint64]bool)
	for i := start; i < count; i += stride {
		binary.LittleEndian.PutUint64(sb[:], i+1)
		status.WriteAt(sb[:], 0)
		o := runOnce(sc, newChooser(sc, seed, i), false)
		s := o.S
		if s.Trouble != "" {
			emit(&workerMsg{Type: "trouble", Run: i, Msg: s.Trouble})
			os.Exit(0)
		}
		tot.Runs++
		tot.Steps += s.Steps
		tot.SimNs += s.Elapsed()
		tot.Switch += s.Switches
		for k, v := range s.Faults {
			tot.Faults[k] += v
		}
		for k, v := range s.Probes {
			tot.Probes[k] += v
		}
		if o.R.Trivial {
			tot.Trivial++
		} else {
			hashes[s.Hash()] = true
		}
		scheds[s.SchedHash()] = true
		if s.Violation != nil {
			if id := matchKnown(known, s.Violation); id != "" {
				tot.Known[id]++
				if tot.KnownEx[id] == "" {
					tot.KnownEx[id] = firstLine(s.Violation.Msg)
				}
			} else {
				emit(&workerMsg{Type: "found", Run: i, Msg: s.Violation.Class + ": " + firstLine(s.Violation.Msg)})
				rp := minimise(sc, o, seed, i, 20*time.Second)
				emit(&workerMsg{Type: "violation", Run: i, Replay: rp})
				os.Exit(0)
			}
		}
		if i/stride%97 == 5 {
			// the same choices must give the same execution
			o2 := runOnce(sc, sim.NewReplay(o.Choices), i/stride%2 == 0)
			tot.Rechk++
			if o2.S.Hash() != s.Hash() || (o2.S.Violation == nil) != (s.Violation == nil) {
				emit(&workerMsg{Type: "trouble", Run: i, Msg: "replaying a run's choices gave a different execution"})
				os.Exit(0)
			}
		}
		if start == 0 && (i == 0 || i == 8*stride || i == 40*stride) {
			o2 := runOnce(sc, sim.NewReplay(o.Choices), true)
			tr := o2.S.Log
			if len(tr) > 60 {
				tr = append(append([]string(nil), tr[:40]...), append([]string{fmt.Sprintf("... %d lines ...", len(tr)-60)}, tr[len(tr)-20:]...)...)
			}
			emit(&workerMsg{Type: "sample", Sample: &sampleT{i, o2.R.Desc, o2.S.Faults, tr, fmt.Sprintf("%016x", o2.S.Hash())}})
		}
		if time.Now().After(deadline) {
			break
		}
	}
	hf := filepath.Join(scratch, fmt.Sprintf("w%d.hashes", start))
	writeHashes(hf+".exec", hashes)
	writeHashes(hf+".sched", scheds)
	tot.Hashes = hf
	emit(tot)
}

func writeHashes(path string, m map[uint64]bool) {
	f, err := os.Create(path)
	if err != nil {
		return
	}
	w := bufio.NewWriter(f)
	var b [8]byte
	for h := range m {
		binary.LittleEndian.PutUint64(b[:], h)
		w.Write(b[:])
	}
	w.Flush()
	f.Close()
}

func readHashes(path string, m map[uint64]bool) {
	b, _ := os.ReadFile(path)
	for len(b) >= 8 {
		m[binary.LittleEndian.Uint64(b)] = true
		b = b[8:]
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---- known findings

// Known is one line of known_findings.jsonl.
type Known struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Class    string `json:"class"`
	Match    string `json:"match"` // substring of the message; identifies the history
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(prop string) []Known {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var r []Known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var k Known
		if json.Unmarshal(sc.Bytes(), &k) == nil && k.Property == prop && k.Status == "known" {
			r = append(r, k)
		}
	}
	return r
}

func matchKnown(ks []Known, v *sim.Violation) string {
	for _, k := range ks {
		if k.Class == v.Class && strings.Contains(v.Msg, k.Match) {
			return k.ID
		}
	}
	return ""
}

// ---- minimiser

func minimise(sc *Scenario, o *runOutcome, seed, run uint64, budget time.Duration) *Replay {
	class := o.S.Violation.Class
	known := loadKnown(sc.ID)
	best := append([]uint32(nil), o.Choices...)
	orig := len(best)
	end := time.Now().Add(budget)
	tries := 0
	try := func(c []uint32) bool {
		if tries > 20000 || time.Now().After(end) {
			return false
		}
		tries++
		ch := sim.NewReplay(c)
		o2 := runOnce(sc, ch, false)
		if o2.S.Violation == nil || o2.S.Violation.Class != class || o2.S.Trouble != "" {
			return false
		}
		if matchKnown(known, o2.S.Violation) != "" {
			return false
		}
		if u := ch.Used(); u < len(c) {
			c = c[:u]
		}
		for len(c) > 0 && c[len(c)-1] == 0 {
			c = c[:len(c)-1]
		}
		best = append([]uint32(nil), c...)
		return true
	}
	try(best)
	for pass := 0; pass < 6; pass++ {
		before := fmt.Sprint(best)
		// delete spans
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); {
				c := append(append([]uint32(nil), best[:i]...), best[i+size:]...)
				if !try(c) {
					i += size
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		// zero spans
		for size := len(best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(best); i += size {
				zero := true
				for _, v := range best[i : i+size] {
					if v != 0 {
						zero = false
					}
				}
				if zero {
					continue
				}
				c := append([]uint32(nil), best...)
				for j := i; j < i+size; j++ {
					c[j] = 0
				}
				try(c)
				if time.Now().After(end) {
					break
				}
			}
		}
		// lower single values
		for i := 0; i < len(best); i++ {
			for best[i] > 0 {
				c := append([]uint32(nil), best...)
				c[i] /= 2
				if try(c) {
					if i >= len(best) {
						break
					}
					continue
				}
				c = append([]uint32(nil), best...)
				c[i]--
				if !try(c) || i >= len(best) {
					break
				}
			}
			if time.Now().After(end) {
				break
			}
		}
		if fmt.Sprint(best) == before || time.Now().After(end) {
			break
		}
	}
	return makeReplay(sc, best, seed, run, orig)
}

func makeReplay(sc *Scenario, choices []uint32, seed, run uint64, orig int) *Replay {
	o := runOnce(sc, sim.NewReplay(choices), true)
	rp := &Replay{Property: sc.ID, Seed: seed, Run: run, Choices: choices, Original: orig,
		Hash: fmt.Sprintf("%016x", o.S.Hash()), Faults: o.S.Faults, Desc: o.R.Desc, Trace: o.S.Log}
	if o.S.Violation != nil {
		rp.Class, rp.Message = o.S.Violation.Class, o.S.Violation.Msg
	}
	if n := len(rp.Trace); n > 2000 {
		rp.Trace = append(rp.Trace[:1000:1000], rp.Trace[n-1000:]...)
	}
	return rp
}

// ---- replay

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sc := scenario(rp.Property)
	runOnce(sc, newChooser(sc, 12345, 0), false)
	var o *runOutcome
	if rp.Fatal {
		o = runOnce(sc, newChooser(sc, rp.Seed, rp.Run), true)
	} else {
		o = runOnce(sc, sim.NewReplay(rp.Choices), true)
	}
	for _, l := range o.S.Log {
		fmt.Println(l)
	}
	if o.S.Violation == nil {
		fmt.Println("no violation on replay")
		return 0
	}
	fmt.Printf("%s: %s\n", o.S.Violation.Class, o.S.Violation.Msg)
	if o.S.Violation.Class != rp.Class {
		fmt.Printf("replay differs: recorded class %s\n", rp.Class)
	} else if h := fmt.Sprintf("%016x", o.S.Hash()); h != rp.Hash && rp.Hash != "" {
		fmt.Printf("replay differs: execution hash %s, recorded %s\n", h, rp.Hash)
	} else {
		fmt.Println("reproduced exactly")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	return 1
}

func runMain(args []string) {
	sc := scenario(args[0])
	seed, _ := strconv.ParseUint(args[1], 10, 64)
	run, _ := strconv.ParseUint(args[2], 10, 64)
	v := len(args) > 3
	if v {
		runOnce(sc, newChooser(sc, 12345, 0), false)
	}
	o := runOnce(sc, newChooser(sc, seed, run), v)
	for _, l := range o.S.Log {
		fmt.Println(l)
	}
	fmt.Printf("hash=%016x steps=%d time=%v switches=%d choices=%d faults:%s probes:%s trouble=%q\n", o.S.Hash(), o.S.Steps,
		time.Duration(o.S.Elapsed()), o.S.Switches, len(o.Choices), fmtCounts(o.S.Faults), fmtCounts(o.S.Probes), o.S.Trouble)
	if o.S.Violation != nil {
		fmt.Printf("VIOLATION %s: %s\n", o.S.Violation.Class, o.S.Violation.Msg)
		os.Exit(1)
	}
}

// ---- check

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

func check(id string) int {
	sc := scenario(id)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(envInt("VERIF_SEED", 1))
	count, limit := sc.Quick, 45*time.Second
	if tier == "thorough" {
		count, limit = sc.Thorough, 13*time.Minute
	}
	if n := envInt("VERIF_RUNS", 0); n > 0 {
		count = n
	}
	if n := envInt("VERIF_SECONDS", 0); n > 0 {
		limit = time.Duration(n) * time.Second
	}
	nw := envInt("VERIF_WORKERS", 0)
	if nw <= 0 {
		nw = runtime.NumCPU()
		if nw > 8 {
			nw = 8
		}
	}
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		d, err := os.MkdirTemp("", "harness")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		defer os.RemoveAll(d)
		scratch = d
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	var mu sync.Mutex
	tot := &workerMsg{Faults: map[string]int64{}, Probes: map[string]int64{}, Known: map[string]int64{}, KnownEx: map[string]string{}}
	var samples []*sampleT
	var violations []*Replay
	var trouble []string
	hashes, scheds := map[uint64]bool{}, map[uint64]bool{}
	var cmds []*exec.Cmd
	var wg sync.WaitGroup
	stop := func() { // with mu held
		for _, c := range cmds {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
	}
	stopping := false
	finding := 0
	for w := 0; w < nw; w++ {
		w := w
		cmd := exec.Command(self, "worker", id, fmt.Sprint(seed), fmt.Sprint(w), fmt.Sprint(nw), fmt.Sprint(count),
			fmt.Sprint(limit.Milliseconds()), scratch)
		cmd.Env = append(os.Environ(), "GODEBUG=gcshrinkstackoff=1")
		stderr := &tailBuf{}
		cmd.Stderr = stderr
		stdout, err := cmd.StdoutPipe()
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		mu.Lock()
		cmds = append(cmds, cmd)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			finished := false
			hung := false
			timer := time.AfterFunc(limit+90*time.Second, func() { hung = true; cmd.Process.Kill() })
			wdone := make(chan struct{})
			go watchStatus(filepath.Join(scratch, fmt.Sprintf("w%d.status", w)), wdone, func() bool {
				mu.Lock()
				defer mu.Unlock()
				return finding > 0
			}, func() { hung = true; cmd.Process.Kill() })
			rd := bufio.NewReaderSize(stdout, 1<<20)
			for {
				line, err := rd.ReadBytes('\n')
				if err != nil {
					break
				}
				var m workerMsg
				if json.Unmarshal(line, &m) != nil {
					continue
				}
				mu.Lock()
				switch m.Type {
				case "sample":
					samples = append(samples, m.Sample)
				case "found":
					finding++
				case "trouble":
					trouble = append(trouble, fmt.Sprintf("run %d: %s", m.Run, m.Msg))
					finished = true
				case "violation":
					violations = append(violations, m.Replay)
					finished = true
					if !stopping {
						stopping = true
						// the other workers may be minimising too: let them not
						stop()
					}
				case "done":
					finished = true
					tot.Runs += m.Runs
					tot.Steps += m.Steps
					tot.SimNs += m.SimNs
					tot.Switch += m.Switch
					tot.Trivial += m.Trivial
					tot.Rechk += m.Rechk
					for k, v := range m.Faults {
						tot.Faults[k] += v
					}
					for k, v := range m.Probes {
						tot.Probes[k] += v
					}
					for k, v := range m.Known {
						tot.Known[k] += v
					}
					for k, v := range m.KnownEx {
						tot.KnownEx[k] = v
					}
					readHashes(m.Hashes+".exec", hashes)
					readHashes(m.Hashes+".sched", scheds)
				}
				mu.Unlock()
			}
			err := cmd.Wait()
			timer.Stop()
			close(wdone)
			mu.Lock()
			defer mu.Unlock()
			if finished || stopping {
				return
			}
			// the worker died: find out whether the run it was in does that
			run := readStatus(filepath.Join(scratch, fmt.Sprintf("w%d.status", w)))
			if run == 0 {
				trouble = append(trouble, fmt.Sprintf("worker %d died before its first run: %v\n%s", w, err, stderr))
				return
			}
			rp := confirmFatal(self, sc, seed, run-1, hung)
			if rp == nil {
				trouble = append(trouble, fmt.Sprintf("worker %d died (%v) at run %d, not reproducible alone\n%s", w, err, run-1, stderr))
				return
			}
			violations = append(violations, rp)
		}()
	}
	wg.Wait()

	code := 0
	var vio *Replay
	if len(violations) > 0 {
		sort.Slice(violations, func(i, j int) bool { return violations[i].Run < violations[j].Run })
		vio = violations[0]
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", id, seed, vio.Run))
		b, _ := json.MarshalIndent(vio, "", " ")
		os.WriteFile(path, b, 0644)
		ok := vio.Fatal
		if !ok {
			out, _ := exec.Command(self, "replay", path).CombinedOutput()
			ok = strings.Contains(string(out), "reproduced exactly")
			if !ok {
				// fall back to the unshortened run
				out2, _ := exec.Command(self, "run", id, fmt.Sprint(seed), fmt.Sprint(vio.Run)).CombinedOutput()
				if strings.Contains(string(out2), "VIOLATION "+vio.Class+":") || vio.Class == "" && strings.Contains(string(out2), "VIOLATION ") {
					vio.Fatal, vio.Choices, vio.Trace, vio.Hash = true, nil, nil, ""
					b, _ := json.MarshalIndent(vio, "", " ")
					os.WriteFile(path, b, 0644)
					ok = true
				}
				trouble = append(trouble, fmt.Sprintf("replay in a fresh process differs:\n%s\n%s", lastLines(string(out), 20), lastLines(string(out2), 20)))
			}
		}
		if ok {
			fmt.Printf("%s: %s\n", vio.Class, vio.Message)
			fmt.Printf("seed=%d run=%d choices=%d (of %d) faults:%s\n", vio.Seed, vio.Run, len(vio.Choices), vio.Original, fmtCounts(vio.Faults))
			for _, d := range vio.Desc {
				fmt.Println("  " + d)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			code = 1
		}
	}
	if code == 0 && len(trouble) > 0 {
		for _, t := range trouble {
			fmt.Fprintln(os.Stderr, "TROUBLE:", t)
		}
		code = 2
	}
	if code == 0 && tot.Runs == 0 {
		fmt.Fprintln(os.Stderr, "TROUBLE: no runs")
		code = 2
	}
	for _, k := range loadKnown(id) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d runs)\n", id, k.What, tot.Known[k.ID])
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(sc, tier, seed, tot, samples, len(hashes), len(scheds), len(violations), wall, count)
	if code == 0 {
		fmt.Printf("%s: held on %d runs (%d distinct non-trivial executions, %d interleavings), %.1f s simulated, %.1f s wall; faults:%s\n",
			id, tot.Runs, len(hashes), len(scheds), float64(tot.SimNs)/1e9, wall, fmtCounts(tot.Faults))
	}
	return code
}

func lastLines(s string, n int) string {
	ls := strings.Split(strings.TrimRight(s, "\n"), "\n")
	if len(ls) > n {
		ls = ls[len(ls)-n:]
	}
	return strings.Join(ls, "\n")
}

func readStatus(path string) uint64 {
	b, _ := os.ReadFile(path)
	if len(b) < 8 {
		return 0
	}
	return binary.LittleEndian.Uint64(b)
}

// watchStatus calls hang when a worker makes no progress for a long time.
func watchStatus(path string, done chan struct{}, busy func() bool, hang func()) {
	last, since := uint64(0), time.Now()
	tick := time.NewTicker(2 * time.Second)
	defer tick.Stop()
	for {
		select {
		case <-done:
			return
		case <-tick.C:
		}
		if v := readStatus(path); v != last || busy() {
			last, since = v, time.Now()
		} else if time.Since(since) > 60*time.Second {
			hang()
			return
		}
	}
}

// confirmFatal reruns one run alone; if that kills or hangs the process too,
// the run is a violation.
func confirmFatal(self string, sc *Scenario, seed, run uint64, hung bool) *Replay {
	cmd := exec.Command(self, "run", sc.ID, fmt.Sprint(seed), fmt.Sprint(run))
	out := &tailBuf{}
	cmd.Stdout, cmd.Stderr = out, out
	if cmd.Start() != nil {
		return nil
	}
	timedOut := false
	t := time.AfterFunc(40*time.Second, func() { timedOut = true; cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	rp := &Replay{Property: sc.ID, Seed: seed, Run: run, Fatal: true}
	switch {
	case timedOut:
		rp.Class, rp.Message = "hang", "the program computes forever without reaching a scheduling point"
	case err != nil && cmd.ProcessState.ExitCode() != 1:
		rp.Class, rp.Message = "fatal", "the process died: "+out.String()
	default:
		return nil
	}
	return rp
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 8192 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

var _ io.Writer = (*tailBuf)(nil)

func writeEvidence(sc *Scenario, tier string, seed uint64, tot *workerMsg, samples []*sampleT, distinct, scheds, violations int, wall float64, planned int) {
	perHour := 0.0
	if wall > 0 {
		perHour = float64(tot.Runs) / wall * 3600
	}
	cov := map[string]interface{}{
		"evaluations":             tot.Runs,
		"distinct_nontrivial":     distinct,
		"rule":                    sc.Rule,
		"samples":                 samples,
		"planned_runs":            planned,
		"runs_per_hour":           int64(perHour),
		"simulated_seconds":       float64(tot.SimNs) / 1e9,
		"schedule_points":         tot.Steps,
		"task_switches":           tot.Switch,
		"distinct_interleavings":  scheds,
		"interleaving_measure":    "hash of the sequence of task switches, signal deliveries and injected faults",
		"trivial_runs":            tot.Trivial,
		"faults_injected":         tot.Faults,
		"rare_conditions_reached": tot.Probes,
		"determinism_rechecks":    tot.Rechk,
		"components_real":         sc.Real,
		"components_simulated":    sc.Stub,
		"known_findings_met":      tot.Known,
	}
	if samples == nil {
		cov["samples"] = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": sc.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": assumptions, "wall_s": wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	os.WriteFile(filepath.Join(dir, sc.ID+".json"), b, 0644)
}

var assumptions = []string{
	"the source rewriting (schedule points, shimmed packages) preserves the meaning of anansi's code",
	"the simulated kernel, terminal, signals, clock, channels and locks behave like Linux and the Go runtime in the modelled respects (DESIGN.md)",
	"interleavings are explored at statement granularity with sequentially consistent memory; data races below that are not modelled",
	"search is seeded random sampling, not exhaustive",
}
