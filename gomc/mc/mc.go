// Package mc is the exploration driver of the Go checks: the same command
// line, progress file and result files as harness/mc.h.
//
// A driver enumerates a finite space of cases, numbered in enumeration order,
// and runs the real code on every one of them.
package mc

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

type violation struct {
	Sig   string `json:"sig"`
	Msg   string `json:"msg"`
	Desc  string `json:"desc"`
	Group string `json:"group"`
	Case  uint64 `json:"case"`
}

type failure struct{ sig, msg string }

var (
	prop, tier, out     string
	only                       = ^uint64(0)
	shard, shards       uint64 = 0, 1
	ordinal, executed   uint64
	transitions, traces uint64
	checks              uint64
	exhaustive          = true
	group               = "main"
	groups              = map[string]uint64{}
	states              = map[uint64]struct{}{}
	bounds              = map[string]string{}
	counters            = map[string]uint64{}
	samples             []string
	violations          = map[string][]violation{}
	firstViolation      time.Time
	progress            []byte
	current             atomic.Uint64
	tty                 *os.File
)

const hangLimit = 30.0

// Init reads the command line; what the code under test prints goes nowhere.
func Init() {
	for i := 1; i+1 < len(os.Args); i += 2 {
		v := os.Args[i+1]
		switch os.Args[i] {
		case "--prop":
			prop = v
		case "--tier":
			tier = v
		case "--out":
			out = v
		case "--case":
			only, _ = strconv.ParseUint(v, 10, 64)
		case "--shard":
			p := strings.Split(v, "/")
			shard, _ = strconv.ParseUint(p[0], 10, 64)
			shards, _ = strconv.ParseUint(p[1], 10, 64)
		default:
			fmt.Fprintln(os.Stderr, "unknown option", os.Args[i])
			os.Exit(2)
		}
	}
	tty = os.Stdout
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	os.Stdout = null
	f, err := os.OpenFile(fmt.Sprintf("%s/progress.%d", out, shard), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f.Truncate(16)
	progress, err = syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	binary.LittleEndian.PutUint64(progress, ^uint64(0))
	current.Store(^uint64(0))
	go watch()
}

func cpu() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)*1e-6
}

func watch() {
	last, since := ^uint64(0), cpu()
	for {
		time.Sleep(500 * time.Millisecond)
		if c := current.Load(); c != last {
			last, since = c, cpu()
		} else if c != ^uint64(0) && cpu()-since > hangLimit {
			fmt.Fprintln(os.Stderr, "\nMC-HANG: case exceeded its cpu-time limit")
			os.Exit(97)
		}
	}
}

func Thorough() bool { return tier == "thorough" }
func Tier[T any](quick, thorough T) T {
	if Thorough() {
		return thorough
	}
	return quick
}
func Group(g string)           { group = g }
func Bound(k string, v ...any) { bounds[k] = fmt.Sprint(v...) }
func Counter(k string)         { counters[k]++ }
func Step(n int)               { transitions += uint64(n) }
func Trace()                   { traces++ }
func State(v ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, group)
	fmt.Fprintln(h, v...)
	states[h.Sum64()] = struct{}{}
}

func Fail(sig string, msg ...any) { panic(failure{sig, fmt.Sprintln(msg...)}) }
func Require(ok bool, sig string, msg ...any) {
	checks++
	if !ok {
		Fail(sig, msg...)
	}
}
func Eq[T comparable](got, want T, sig string, more ...any) {
	checks++
	if got != want {
		Fail(sig, append([]any{"got", got, "expected", want}, more...)...)
	}
}

func h64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func record(sig, msg, desc string) {
	if firstViolation.IsZero() {
		firstViolation = time.Now()
	}
	if len(violations[sig]) < 3 {
		violations[sig] = append(violations[sig], violation{sig, msg, desc, group, ordinal - 1})
	}
}

// Run runs one case; desc is only evaluated when needed.
func Run(desc func() string, fn func()) {
	id := ordinal
	ordinal++
	if only != ^uint64(0) {
		if id != only {
			return
		}
	} else if shards > 1 && h64(id)%shards != shard {
		return
	}
	if !firstViolation.IsZero() && time.Since(firstViolation) > 15*time.Second {
		exhaustive = false
		return
	}
	binary.LittleEndian.PutUint64(progress, id)
	current.Store(id)
	if only != ^uint64(0) {
		fmt.Fprintf(tty, "case %d [%s]: %s\n", id, group, desc())
	}
	executed++
	groups[group]++
	if groups[group] <= 2 && shard == 0 && len(samples) < 24 {
		s := group + ": " + desc()
		if len(s) > 600 {
			s = s[:600]
		}
		samples = append(samples, s)
	}
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				record(f.sig, f.msg, desc())
			} else {
				record("panic", fmt.Sprint(r, "\n", string(debug.Stack())), desc())
			}
		}
	}()
	fn()
	traces++
}

// Finish writes the results and ends the program.
func Finish() {
	binary.LittleEndian.PutUint64(progress[8:], 1)
	current.Store(^uint64(0))
	base := fmt.Sprintf("%s/result.%d", out, shard)
	b := make([]byte, 0, 8*len(states))
	for s := range states {
		b = binary.LittleEndian.AppendUint64(b, s)
	}
	os.WriteFile(base+".states", b, 0600)
	vs := []violation{}
	for _, v := range violations {
		vs = append(vs, v...)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Case < vs[j].Case })
	if samples == nil {
		samples = []string{}
	}
	j, err := json.Marshal(map[string]any{
		"cases": ordinal, "executed": executed, "transitions": transitions, "traces": traces, "checks": checks,
		"exhaustive": exhaustive, "capped": false, "bounds": bounds, "counters": counters, "groups": groups,
		"samples": samples, "violations": vs,
	})
	if err != nil {
		panic(err)
	}
	os.WriteFile(base+".json", j, 0600)
	if only != ^uint64(0) {
		for _, v := range vs {
			fmt.Fprintf(tty, "FAILED [%s] %s\n", v.Sig, v.Msg)
		}
	}
	if len(vs) > 0 {
		os.Exit(1)
	}
	os.Exit(0)
}

// Odometer calls fn with every digit vector below the radices.
func Odometer(radix []int, fn func([]int)) {
	for _, r := range radix {
		if r <= 0 {
			return
		}
	}
	d := make([]int, len(radix))
	for {
		fn(d)
		i := 0
		for ; i < len(d); i++ {
			d[i]++
			if d[i] < radix[i] {
				break
			}
			d[i] = 0
		}
		if i == len(d) {
			return
		}
	}
}

// Sequences calls fn with every sequence over 0..k-1 of length lo..hi.
func Sequences(k, lo, hi int, fn func([]int)) {
	for n := lo; n <= hi; n++ {
		r := make([]int, n)
		for i := range r {
			r[i] = k
		}
		Odometer(r, fn)
	}
}
