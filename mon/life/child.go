package main

import (
	"bufio"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/iand/starbow/internal/bufmap"
	"github.com/iand/starbow/internal/collation"
	"github.com/iand/starbow/internal/server"
	"github.com/iand/starbow/internal/storage"
	"github.com/iand/starbow/internal/yield"
)

type linelog struct{}

func (linelog) Printf(format string, v ...interface{}) {
	say("LOG " + strings.Replace(fmt.Sprintf(format, v...), "\n", " ", -1))
}

func say(s string) { os.Stdout.WriteString(s + "\n") }

// peak is the most memory the process has had, in bytes.
func peak() int {
	b, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "VmHWM:" {
			n, _ := strconv.Atoi(f[1])
			return n * 1024
		}
	}
	return 0
}

// child runs a server as told by the arguments and reports on standard output what it
// does: net, addr, milliseconds to hold the server after it has asked for signals, and
// whether to supply a logger.
func child(args []string) {
	hold, _ := strconv.Atoi(args[2])
	yield.Fn = func(p yield.Point) {
		if p == yield.ServerNotified {
			say("NOTIFIED")
			time.Sleep(time.Duration(hold) * time.Millisecond)
		}
	}
	sch := collation.Schema{
		Name:           "c",
		Keys:           []collation.KeySpec{{Field: collation.FieldSpec{Pattern: "k"}}},
		RecordMeasures: []collation.RowMeasure{collation.Count{}},
		Measures:       []collation.MeasureSpec{{Field: collation.FieldSpec{Pattern: "x"}, Measures: []collation.Measure{collation.Sum{}}}, {Field: collation.FieldSpec{Pattern: "u"}, Measures: []collation.Measure{collation.Cardinality{Precision: 8}}}},
	}
	coll, err := sch.Compile()
	if err != nil {
		say("FATAL " + err.Error())
		os.Exit(9)
	}
	s := &server.Server{Net: args[0], Addr: args[1]}
	if args[3] == "log" {
		s.Logger = linelog{}
	}
	s.Stores = append(s.Stores, storage.Store{Backend: bufmap.New(4096, coll.Size()), Collator: coll})
	go func() {
		in := bufio.NewScanner(os.Stdin)
		for in.Scan() {
			fds, _ := os.ReadDir("/proc/self/fd")
			runtime.GC()
			runtime.GC() // also empties pools
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			say(fmt.Sprintf("STAT %d %d %d %d", runtime.NumGoroutine(), len(fds), ms.HeapAlloc, peak()))
		}
		os.Exit(8) // the monitor is gone
	}()
	say("START")
	if err := s.Serve(); err != nil {
		say("RETURNED " + strings.Replace(err.Error(), "\n", " ", -1))
	} else {
		say("RETURNED")
	}
}
