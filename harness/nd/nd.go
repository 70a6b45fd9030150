// Package nd is the nondeterminism API of the harnesses. Under the symbolic
// executor every function here is intercepted; the bodies below are the native
// side, used to replay a concrete input against the real code.
package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"
)

type input struct {
	N string `json:"n"`
	I int64  `json:"i"`
	S []int  `json:"s"`
}

type job struct {
	Inputs []input `json:"inputs"`
	Deep   bool    `json:"deep"`
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Reach  []string `json:"reach"`
}

type runRes struct {
	Code int
	Out  []byte
}

var (
	cur   job
	pos   int
	res   result
	cnt   = map[string]int{}
	runNo int
	prev  []runRes
	child = 0
	stdin = ""
)

// Main runs f on the job described by the environment.
func Main(fns map[string]func()) {
	debug.SetGCPercent(-1) // no finalizer closes a file that the code left open
	b, err := os.ReadFile(os.Getenv("ZZ_IN"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(90)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(90)
	}
	if c := os.Getenv("ZZ_RUN"); c != "" {
		fmt.Sscan(c, &child)
		_ = json.Unmarshal([]byte(os.Getenv("ZZ_PREV")), &prev)
	}
	f := fns[os.Getenv("ZZ_H")]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no such harness")
		os.Exit(90)
	}
	defer func() {
		if r := recover(); r != nil {
			if child > 0 {
				panic(r)
			}
			res.Status, res.Msg = "panic", fmt.Sprint(r)
			finish()
		}
	}()
	f()
	res.Status = "ok"
	finish()
}

func finish() {
	if child > 0 {
		os.Exit(91)
	}
	b, _ := json.Marshal(res)
	asRoot(func() { _ = os.WriteFile(os.Getenv("ZZ_OUT"), b, 0600) })
	os.Exit(0)
}

func end(status, msg string) {
	res.Status, res.Msg = status, msg
	finish()
}

func next(name string) input {
	cnt[name]++
	if k := cnt[name]; k > 1 {
		name = fmt.Sprintf("%s~%d", name, k)
	}
	if pos >= len(cur.Inputs) {
		end("diverged", "no input left for "+name)
	}
	in := cur.Inputs[pos]
	pos++
	if in.N != name {
		end("diverged", "expected input "+in.N+", harness asks for "+name)
	}
	return in
}

func (in input) str() string {
	b := make([]byte, len(in.S))
	for i, x := range in.S {
		b[i] = byte(x)
	}
	return string(b)
}

// Bool is a symbolic boolean.
func Bool(name string) bool { return next(name).I != 0 }

// Int is a symbolic integer in [lo,hi].
func Int(name string, lo, hi int) int { return int(next(name).I) }

// Choice is an explicit n-way case split.
func Choice(name string, n int) int { return int(next(name).I) }

// Byte is a symbolic byte.
func Byte(name string) byte { return byte(next(name).I) }

// Bytes is a string of exactly n arbitrary bytes.
func Bytes(name string, n int) string { return next(name).str() }

// BytesOf is a string of exactly n bytes from the alphabet.
func BytesOf(name string, n int, alphabet string) string { return next(name).str() }

// Str is a string of 0..max arbitrary bytes (symbolic length).
func Str(name string, max int) string { return next(name).str() }

// StrOf is a string of min..max bytes from the alphabet (symbolic length).
func StrOf(name string, min, max int, alphabet string) string { return next(name).str() }

// Name is a GraphQL name of 1..max bytes (symbolic length).
func Name(name string, max int) string { return next(name).str() }

// Pick is one of the given strings, chosen symbolically (no case split).
func Pick(name string, opts ...string) string { return opts[next(name).I] }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		end("assume", "")
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		end("assert", msg)
	}
}

// Fail is Assert(false).
func Fail(msg string) { end("assert", msg) }

// Reach is a vacuity witness.
func Reach(label string) { res.Reach = append(res.Reach, label) }

// Obs records an observation, compared between the symbolic and the native run.
func Obs(label string, v interface{}) {
	switch x := v.(type) {
	case string:
		res.Obs = append(res.Obs, fmt.Sprintf("%s=%q", label, x))
	default:
		res.Obs = append(res.Obs, fmt.Sprintf("%s=%v", label, x))
	}
}

// Known marks the inputs of a recorded finding.
func Known(id string, c bool) {}

// MapOrders makes map iteration order nondeterministic.
func MapOrders(on bool) {}

// Deep tells the thorough tier.
func Deep() bool { return cur.Deep }

// Symbolic is true under the symbolic executor.
func Symbolic() bool { return false }

// Concrete splits cases over the value of x.
func Concrete(x int) int { return x }

// Capture returns what f prints.
func Capture(f func()) string {
	var tmp *os.File
	var err error
	asRoot(func() { tmp, err = os.CreateTemp(os.Getenv("ZZ_DIR"), "out") })
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = tmp
	defer func() { os.Stdout = old }()
	f()
	var b []byte
	asRoot(func() { b, err = os.ReadFile(tmp.Name()) })
	if err != nil {
		panic(err)
	}
	tmp.Close()
	return string(b)
}

// lowered is set when this process has given up root's right to open any file.
var lowered bool

// asRoot runs f with the rights the process started with.
func asRoot(f func()) {
	if lowered {
		_ = syscall.Setresuid(-1, 0, -1)
		defer func() { _ = syscall.Setresuid(-1, 65534, -1) }()
	}
	f()
}

// File creates a file in the (scratch) working directory.
func File(name, content string) {
	asRoot(func() {
		if d := filepath.Dir(name); d != "." {
			if err := os.MkdirAll(d, 0755); err != nil {
				panic(err)
			}
		}
		if err := os.WriteFile(name, []byte(content), 0644); err != nil {
			panic(err)
		}
	})
}

// BadFile creates a file that matches a pattern but is gone (1), cannot be read (2) or may not be opened (3).
func BadFile(name string, mode int) {
	asRoot(func() {
		_ = os.Remove(name)
		if d := filepath.Dir(name); d != "." {
			if err := os.MkdirAll(d, 0755); err != nil {
				panic(err)
			}
		}
		var err error
		switch mode {
		case 1:
			err = os.Symlink("does-not-exist", name)
		case 2:
			if fi, e := os.Stat(name); e != nil || !fi.IsDir() {
				err = os.Mkdir(name, 0755)
			}
		case 3:
			err = os.WriteFile(name, nil, 0)
		}
		if err != nil {
			panic(err)
		}
	})
	if mode == 3 && os.Geteuid() == 0 {
		if err := os.Chmod(".", 0755); err != nil {
			panic(err)
		}
		if err := syscall.Setresuid(-1, 65534, -1); err != nil {
			panic(err)
		}
		lowered = true
	}
}

// OpenFiles is how many files of the working directory this process has open.
func OpenFiles() int {
	n := 0
	asRoot(func() {
		wd, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		l, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			panic(err)
		}
		for _, e := range l {
			if to, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(to, wd+"/") {
				n++
			}
		}
	})
	return n
}

// Stdin sets the standard input of Run.
func Stdin(content string) { stdin = content }

// Run runs f as a process of its own with the given command line.
func Run(f func(), args ...string) (int, string) {
	runNo++
	if child > 0 {
		if runNo < child {
			return prev[runNo-1].Code, string(prev[runNo-1].Out)
		}
		os.Args = append([]string{"gql"}, args...)
		f()
		os.Exit(0)
	}
	cmd := exec.Command(os.Args[0])
	pj, _ := json.Marshal(prev)
	cmd.Env = append(os.Environ(), fmt.Sprintf("ZZ_RUN=%d", runNo), "ZZ_PREV="+string(pj))
	cmd.Stdin = strings.NewReader(stdin)
	var out, er strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &er
	var err error
	asRoot(func() { err = cmd.Run() })
	code := 0
	if err != nil {
		code = -1
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
	}
	if code == 2 && strings.Contains(er.String(), "goroutine ") {
		end("panic", strings.SplitN(er.String(), "\n", 2)[0])
	}
	if code == 90 || code == 91 {
		end("diverged", fmt.Sprintf("child exit %d: %s", code, er.String()))
	}
	prev = append(prev, runRes{code, []byte(out.String())})
	return code, out.String()
}

// Itoa formats an integer.
func Itoa(i int) string { return fmt.Sprint(i) }

// And, Or, If and IfStr evaluate all operands (no case split).
func And(a, b bool) bool { return a && b }

// Or is disjunction without a case split.
func Or(a, b bool) bool { return a || b }

// If is selection without a case split.
func If(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// IfStr is selection without a case split.
func IfStr(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// At is byte i of s, or 0 beyond its end, without a case split.
func At(s string, i int) byte {
	if i < len(s) {
		return s[i]
	}
	return 0
}
