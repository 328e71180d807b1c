package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// stallTicks is the number of seconds without any progress after which the worker is
// taken to hang. The slowest step between two progress reports takes well below 2 s.
const stallTicks = 75

// Main runs the check named on the command line: PROP [--replay FILE].
//
// The check itself runs in a worker process. This process watches it: if it is killed
// by the runtime (fatal error, panic in a goroutine that the monitors do not own) or
// makes no progress at all, twice, the property is violated.
func Main(checks map[string]func(r *Run)) {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: PROP [--replay FILE]")
		os.Exit(2)
	}
	prop := os.Args[1]
	fn := checks[prop]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	r := newRun(prop)
	if len(os.Args) >= 4 && os.Args[2] == "--replay" {
		var f replayFile
		b, err := os.ReadFile(os.Args[3])
		if err == nil {
			err = json.Unmarshal(b, &f)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		r.Seed, r.Tier, r.only, r.scale = f.Seed, f.Tier, f.Case, 50
	}
	if os.Getenv("VERIF_WORKER") == "" {
		os.Exit(supervise(r))
	}
	beats := os.NewFile(3, "beats")
	if _, err := beats.Stat(); err == nil {
		go func() {
			var last uint64
			for {
				time.Sleep(200 * time.Millisecond)
				if p := atomic.LoadUint64(&r.progress); p != last {
					last = p
					beats.Write([]byte{'.'})
				}
			}
		}()
	}
	fn(r)
	r.writeEvidence()
	if r.Failed() {
		os.Exit(1)
	}
	if r.evals == 0 && r.only == "" {
		fmt.Fprintln(os.Stderr, "nothing was observed")
		os.Exit(3)
	}
	fmt.Printf("%s: held on %d evaluations, %d distinct (%s, seed %d, %.1fs)\n", prop, r.evals, len(r.distinct), r.Tier, r.Seed, time.Since(r.start).Seconds())
	os.Exit(0)
}

func newRun(prop string) *Run {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(n)
		}
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	return &Run{Prop: prop, Tier: tier, Seed: seed, dir: dir, start: time.Now(), scale: 1,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, maxes: map[string]float64{}, sampleKeys: map[string]int{}}
}

type outcome struct {
	code    int  // exit code, -1 if killed
	stalled bool // killed by the watchdog
	viol    bool // printed a VIOLATION line
	done    bool // got to the end
	stderr  []byte
}

func supervise(r *Run) int {
	os.Remove(filepath.Join(r.dir, "evidence", r.Prop+".json"))
	old, _ := filepath.Glob(filepath.Join(r.dir, "replay", r.Prop+"-*"))
	for _, f := range old {
		if len(os.Args) < 4 || f != os.Args[3] {
			os.Remove(f)
		}
	}
	var o outcome
	for attempt := 0; attempt < 2; attempt++ {
		o = worker(r)
		if o.viol {
			return 1
		}
		if !o.stalled {
			break
		}
		fmt.Printf("no progress for %d ticks (attempt %d)\n", stallTicks, attempt+1)
	}
	if n, first := raceReports(r); n > 0 {
		r.violations = append(r.violations, "data race")
		r.failed = 1
		log := filepath.Join(r.dir, "replay", r.Prop+"-race.txt")
		os.MkdirAll(filepath.Dir(log), 0755)
		os.WriteFile(log, first, 0644)
		fmt.Printf("%d data race reports; the first:\n%s\n", n, clip(string(first), 2500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, log)
		r.patchEvidence()
		return 1
	}
	if o.code == 0 {
		return 0
	}
	if o.code == 66 && o.done {
		// the race detector's exit code without a report in the log cannot happen
		return 2
	}
	if o.code == 2 && bytes.Contains(o.stderr, []byte("nothing was observed")) || o.code == 3 {
		os.Stderr.Write(tail(o.stderr, 4000))
		return 2
	}
	what := fmt.Sprintf("the process died (exit code %d)", o.code)
	if o.stalled {
		what = "operations never complete (no progress in two attempts)"
	}
	path := WriteReplay(r.dir, r.Prop, 9, replayFile{Property: r.Prop, Seed: r.Seed, Tier: r.Tier, What: what, Log: strings.Split(string(tail(o.stderr, 60000)), "\n")})
	fmt.Printf("%s\n%s\n", what, head(o.stderr, 3000))
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, path)
	r.violations = append(r.violations, what)
	r.evals++
	r.Rule = "the worker process died or hung before it wrote its evidence"
	r.writeEvidence()
	return 1
}

// patchEvidence sets the number of violations in the evidence written by the worker.
func (r *Run) patchEvidence() {
	p := filepath.Join(r.dir, "evidence", r.Prop+".json")
	b, err := os.ReadFile(p)
	var ev map[string]interface{}
	if err != nil || json.Unmarshal(b, &ev) != nil {
		r.evals++
		r.Rule = "the worker process did not write its evidence"
		r.writeEvidence()
		return
	}
	ev["violations"] = len(r.violations)
	b, _ = json.MarshalIndent(ev, "", " ")
	os.WriteFile(p, append(b, '\n'), 0644)
}

func raceLog() string { return os.Getenv("VERIF_RACE_LOG") }

// raceReports counts the reports of the race detector, if the worker was built with it.
func raceReports(r *Run) (int, []byte) {
	if raceLog() == "" {
		return 0, nil
	}
	files, _ := filepath.Glob(raceLog() + ".*")
	n := 0
	var first []byte
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		n += bytes.Count(b, []byte("WARNING: DATA RACE"))
		if first == nil && len(b) > 0 {
			first = b
		}
	}
	return n, first
}

func worker(r *Run) outcome {
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_WORKER=1", "GOTRACEBACK=all")
	if raceLog() != "" {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 log_path="+raceLog())
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	var o outcome
	stdout, _ := cmd.StdoutPipe()
	var stderr lockedBuf
	cmd.Stderr = &stderr
	br, bw, err := os.Pipe()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		o.code = 3
		return o
	}
	cmd.ExtraFiles = []*os.File{bw}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		o.code = 3
		return o
	}
	bw.Close()
	var beats int64
	go func() {
		var b [64]byte
		for {
			n, err := br.Read(b[:])
			if err != nil {
				return
			}
			atomic.AddInt64(&beats, int64(n))
		}
	}()
	outDone := make(chan struct{})
	go func() {
		defer close(outDone)
		rd := bufio.NewReader(stdout)
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				os.Stdout.WriteString(l)
				if strings.HasPrefix(l, "VIOLATION property=") {
					o.viol = true
				}
				if strings.Contains(l, ": held on ") {
					o.done = true
				}
			}
			if err != nil {
				return
			}
		}
	}()
	stop := make(chan struct{})
	var wd sync.WaitGroup
	wd.Add(1)
	go func() {
		defer wd.Done()
		last, ticks := int64(-1), 0
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Second):
			}
			if n := atomic.LoadInt64(&beats); n != last {
				last, ticks = n, 0
				continue
			}
			ticks++
			if ticks == stallTicks {
				o.stalled = true
				cmd.Process.Signal(syscall.SIGQUIT)
			}
			if ticks >= stallTicks+10 {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			}
		}
	}()
	<-outDone
	cmd.Wait()
	close(stop)
	wd.Wait()
	br.Close()
	// nothing that the worker started may outlive it
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	o.code = cmd.ProcessState.ExitCode()
	o.stderr = stderr.bytes()
	if os.Getenv("VERIF_TIMING") != "" {
		os.Stderr.Write(o.stderr)
	}
	return o
}

type lockedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	if len(l.b) < 4<<20 {
		l.b = append(l.b, p...)
	}
	l.mu.Unlock()
	return len(p), nil
}

func (l *lockedBuf) bytes() []byte {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b
}

var _ io.Writer = (*lockedBuf)(nil)

func tail(b []byte, n int) []byte {
	if len(b) > n {
		return b[len(b)-n:]
	}
	return b
}

func head(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}
