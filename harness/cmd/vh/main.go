// Command vh drives the real Thema code and records traces.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"time"

	"verif/harness/gen"
	"verif/harness/run"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh fuzz|exec|gen ...")
		os.Exit(3)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	profile := fs.String("profile", "core", "kind of scenarios")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "number of scenarios, over all shards")
	shard := fs.Int("shard", 0, "")
	of := fs.Int("of", 1, "")
	in := fs.String("i", "", "scenarios to execute (ndjson)")
	out := fs.String("out", "", "directory for traces")
	opT := fs.Duration("opt", 90*time.Second, "an operation that takes longer hangs")
	tag := fs.String("tag", "", "prefix of scenario names")
	maxT := fs.Duration("t", 0, "stop after this long")
	_ = fs.Parse(os.Args[2:])

	var next func() *run.Scenario
	switch cmd {
	case "fuzz", "gen":
		i := *shard
		next = func() *run.Scenario {
			if i >= *n {
				return nil
			}
			s := gen.Make(*profile, *seed, i)
			i += *of
			return s
		}
	case "statics":
		fmt.Print(gen.Statics(*n, *seed))
		return
	case "exec":
		f, err := os.Open(*in)
		check(err)
		rd := bufio.NewReaderSize(f, 1<<20)
		k := 0
		next = func() *run.Scenario {
			for {
				b, err := rd.ReadBytes('\n')
				if len(b) == 0 && err != nil {
					return nil
				}
				k++
				if len(b) < 3 || (k-1)%*of != *shard {
					continue
				}
				s := new(run.Scenario)
				check(json.Unmarshal(b, s))
				return s
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "no such command", cmd)
		os.Exit(3)
	}
	if cmd == "gen" {
		for s := next(); s != nil; s = next() {
			b, err := json.Marshal(s)
			check(err)
			fmt.Println(string(b))
		}
		return
	}

	check(os.MkdirAll(*out, 0o755))
	tf, err := os.Create(filepath.Join(*out, fmt.Sprintf("trace-%d.ndjson", *shard)))
	check(err)
	sf, err := os.Create(filepath.Join(*out, fmt.Sprintf("scen-%d.ndjson", *shard)))
	check(err)
	w, sw := bufio.NewWriterSize(tf, 1<<20), bufio.NewWriterSize(sf, 1<<20)
	emit := func(ev run.Event) {
		b, err := json.Marshal(ev)
		check(err)
		w.Write(b)
		w.WriteByte('\n')
	}
	if run.Raced {
		run.Dawn(*opT)
	}
	start := time.Now()
	var env *run.Env
	done := 0
	for s := next(); s != nil; s = next() {
		if *maxT > 0 && time.Since(start) > *maxT {
			break
		}
		if env == nil || done%20 == 0 {
			if env != nil {
				env.Close()
			}
			env = run.NewEnv()
			env.Emit = emit
			go env.Watch(*opT, func(ev run.Event) {
				emit(ev)
				w.Flush()
				fmt.Println("hung")
				os.Exit(0)
			})
		}
		s.ID = *tag + s.ID
		b, err := json.Marshal(s)
		check(err)
		sw.Write(b)
		sw.WriteByte('\n')
		// what is written down survives a crash of the code under test
		check(sw.Flush())
		check(w.Flush())
		emit(run.Event{"e": "begin", "sid": s.ID})
		done++
		if !env.Run(s) {
			// whatever was going on, the environment may be in any state
			env.Close()
			env = nil
		}
	}
	check(w.Flush())
	check(sw.Flush())
	check(tf.Close())
	check(sf.Close())
	fmt.Printf("done %d scenarios in %.1fs\n", done, time.Since(start).Seconds())
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vh:", err)
		os.Exit(3)
	}
}
