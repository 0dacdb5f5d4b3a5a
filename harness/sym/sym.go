// Package sym is the interface between harnesses and the symbolic executor.
// The executor replaces every function here; the bodies below are used when a
// harness is compiled natively to replay a concrete assignment.
package sym

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"
)

// RuntimeError is the dynamic type of runtime panics inside the executor.
type RuntimeError struct{ Msg string }

func (e RuntimeError) Error() string { return e.Msg }
func (e RuntimeError) RuntimeError() {}

type replayFile struct {
	Entry  string            `json:"entry"`
	Values map[string]uint64 `json:"values"`
	Params map[string]int    `json:"params"`
}

var (
	mu    sync.Mutex
	calls = map[string]int{}
	rf    replayFile
	tmp   string
)

func key(name string) string {
	k := calls[name]
	calls[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func val(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	return rf.Values[key(name)]
}

// Symbolic reports whether the harness runs inside the executor.
func Symbolic() bool { return false }

func Byte(name string) byte     { return byte(val(name)) }
func Bool(name string) bool     { return val(name) != 0 }
func Uint64(name string) uint64 { return val(name) }
func Int64(name string) int64   { return int64(val(name)) }

// Int is an integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(val(name))
	if v < lo || v > hi {
		v = lo
	}
	return v
}

// Choice is a nondeterministic choice in [0,n); every value is explored.
func Choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := int(val(name))
	if v >= n {
		v = 0
	}
	return v
}

// String is a string of exactly n arbitrary bytes.
func String(name string, n int) string {
	mu.Lock()
	defer mu.Unlock()
	k := key(name)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(rf.Values[fmt.Sprintf("%s[%d]", k, i)])
	}
	return string(b)
}

// StringIn is a string of n bytes out of alphabet.
func StringIn(name string, n int, alphabet string) string {
	s := []byte(String(name, n))
	for i := range s {
		if strings.IndexByte(alphabet, s[i]) < 0 {
			s[i] = alphabet[0]
		}
	}
	return string(s)
}

func Assume(c bool) {
	if !c {
		fmt.Println("ASSUME-FAILED")
		exit(4)
	}
}

func Assert(c bool, msg string) {
	if !c {
		fmt.Println("ASSERT-FAILED " + msg)
		exit(3)
	}
}

func Cover(string) {}

func Observe(label string, v any) { fmt.Printf("OBS %s=%s\n", label, render(v)) }

func render(v any) string {
	if v == nil {
		return `"<nil>"`
	}
	return renderV(reflect.ValueOf(v))
}

func renderV(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += " "
			}
			s += renderV(v.Index(i))
		}
		return s + "]"
	case reflect.Interface:
		if v.IsNil() {
			return "<nil>"
		}
		return renderV(v.Elem())
	}
	return "?" + v.Type().String()
}

// Param is a bound set by the check configuration.
func Param(name string, def int) int {
	if v, ok := rf.Params[name]; ok {
		return v
	}
	return def
}

func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Ite selects without branching.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Known tells if a number is concrete; models use it to avoid case splits.
func Known(n int) bool { return true }

// Field is a field of a struct or pointer to one.
func Field(v any, name string) (any, bool) {
	r := reflect.ValueOf(v)
	for r.Kind() == reflect.Pointer {
		r = r.Elem()
	}
	if r.Kind() != reflect.Struct {
		return nil, false
	}
	f := r.FieldByName(name)
	if !f.IsValid() || !f.CanInterface() {
		return nil, false
	}
	return f.Interface(), true
}

// DeepEqual compares without branching.
func DeepEqual(a, b any) bool { return reflect.DeepEqual(a, b) }

// FoldEq is ASCII case-insensitive equality.
func FoldEq(a, b string) bool { return lower(a) == lower(b) }

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

// Lower is ASCII lower-casing.
func Lower(s string) string { return lower(s) }

// Yield is a scheduling point.
func Yield() {}

// Sched switches symbolic scheduling on or off.
func Sched(bool) {}

func SchedOn() bool { return false }

func Goid() int { return 0 }

// Stop ends the path successfully.
func Stop() { exit(0) }

// Drain waits until all other goroutines are blocked or finished.
func Drain() { time.Sleep(30 * time.Millisecond) }

func Abandon(string) {}

// Died reports the end of the process.
func Died(code int) { os.Exit(code) }

// ExitCode is the panic value of an exit inside Exits, in the executor.
type ExitCode int

var Catch bool

// Exits runs a function and tells if it ended the process; natively it then
// really does.
func Exits(f func()) (code int, exited bool) {
	Catch = true
	defer func() {
		Catch = false
		if v := recover(); v != nil {
			c, ok := v.(ExitCode)
			if !ok {
				panic(v)
			}
			code, exited = int(c), true
		}
	}()
	f()
	return 0, false
}

// Hooks of the storage model; only present inside the executor.
var (
	armFn    func(bool)
	faultFn  func() bool
	crashFn  func(any) bool
	reopenFn func(string)
)

// RegisterFaults is called by the storage model.
func RegisterFaults(a func(bool), f func() bool, c func(any) bool, r func(string)) {
	armFn, faultFn, crashFn, reopenFn = a, f, c, r
}

// ArmFaults enables or disables injected storage faults.
func ArmFaults(on bool) {
	if armFn != nil {
		armFn(on)
	}
}

// Faulted reports whether a fault was injected.
func Faulted() bool { return faultFn != nil && faultFn() }

// IsCrash reports whether a recovered value is an injected crash.
func IsCrash(v any) bool { return crashFn != nil && crashFn(v) }

// Reopen drops the file locks of a crashed process.
func Reopen(path string) {
	if reopenFn != nil {
		reopenFn(path)
	}
}

// TempDir is a scratch directory removed at exit.
func TempDir() string {
	if tmp == "" {
		d, err := os.MkdirTemp("", "idmverif")
		if err != nil {
			panic(err)
		}
		tmp = d
	}
	return tmp
}

func exit(c int) {
	if tmp != "" {
		os.RemoveAll(tmp)
	}
	os.Exit(c)
}

// Main runs one entry with the assignment in the file named by the argument.
func Main(entries map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &rf)
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(9)
	}
	f := entries[rf.Entry]
	if f == nil {
		fmt.Println("no entry", rf.Entry)
		os.Exit(9)
	}
	go func() {
		time.Sleep(20 * time.Second)
		fmt.Println("HANG")
		exit(5)
	}()
	defer func() {
		if tmp != "" {
			os.RemoveAll(tmp)
		}
	}()
	f()
	exit(0)
}
