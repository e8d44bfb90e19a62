// Package verifspec holds the primitives contracts are written with.  The
// verification engine interprets them symbolically; compiled natively they
// evaluate a contract on one concrete input (used to replay failures).
package verifspec

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/urfave/cli/v2"
)

// RequiresFailed is the panic value of an input outside the precondition.
type RequiresFailed struct{}

// Failures lists the postconditions that failed since the last Reset.
var Failures []string

var diff string
var steps int

// Reset clears recorded failures.
func Reset() { Failures = nil; diff = ""; reached = 0 }

var reached int

// Reached counts the postconditions evaluated since the last Reset.
func Reached() int { return reached }

// Requires states a precondition.
func Requires(ok bool) {
	if !ok {
		panic(RequiresFailed{})
	}
}

// Ensures states a named postcondition.
func Ensures(name string, ok bool) {
	reached++
	if !ok {
		Failures = append(Failures, name+diff)
	}
	diff = ""
}

// Provides states, inside a contract callers use, a further postcondition of it.
func Provides(name string, ok bool) { Ensures(name, ok) }

// Assert states an intermediate lemma.
func Assert(name string, ok bool) { Ensures(name, ok) }

// Eq is structural equality (nil and empty slices are equal).
func Eq(a, b interface{}) bool {
	if eqv(reflect.ValueOf(a), reflect.ValueOf(b)) {
		return true
	}
	if diff == "" {
		diff = fmt.Sprintf(": %s  vs  %s", Show(a), Show(b))
	}
	return false
}

func eqv(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return isNilish(a) && isNilish(b)
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !eqv(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			w := b.MapIndex(k)
			if !w.IsValid() || !eqv(a.MapIndex(k), w) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return eqv(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !eqv(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.Float64, reflect.Float32:
		return a.Float() == b.Float()
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	}
	return false
}

func isNilish(v reflect.Value) bool {
	if !v.IsValid() {
		return true
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
		return v.IsNil()
	}
	return false
}

// Show renders a value for reports.
func Show(v interface{}) string {
	var b bytes.Buffer
	show(&b, reflect.ValueOf(v), 0)
	s := b.String()
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

func show(b *bytes.Buffer, v reflect.Value, d int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if d > 12 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		show(b, v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		show(b, v.Elem(), d+1)
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			if !first {
				b.WriteString(", ")
			}
			first = false
			b.WriteString(v.Type().Field(i).Name + ": ")
			show(b, v.Field(i), d+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			fmt.Fprintf(b, "%q", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			show(b, v.Index(i), d+1)
		}
		b.WriteString("]")
	case reflect.Map:
		b.WriteString("map[")
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for i, k := range ks {
			if i > 0 {
				b.WriteString(", ")
			}
			show(b, k, d+1)
			b.WriteString(": ")
			show(b, v.MapIndex(k), d+1)
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// Forall quantifies over lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists quantifies over lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Implies is implication; both sides are evaluated.
func Implies(a, b bool) bool { return !a || b }

// ErrText is the text of an error ("" for none).
func ErrText(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

// Sorted is a sorted copy.
func Sorted(xs []string) []string {
	r := append([]string{}, xs...)
	sort.Strings(r)
	return r
}

// SortedKeys are the keys of a set, sorted.
func SortedKeys(m interface{}) []string {
	var r []string
	for _, k := range reflect.ValueOf(m).MapKeys() {
		r = append(r, k.String())
	}
	sort.Strings(r)
	return r
}

// JoinTo is the join of the first k elements.
func JoinTo(xs []string, sep string, k int) string {
	if k <= 0 {
		return ""
	}
	if k == 1 {
		return xs[0]
	}
	return JoinTo(xs, sep, k-1) + sep + xs[k-1]
}

// RepeatTo is n copies of s.
func RepeatTo(s string, n int) string {
	if n <= 0 {
		return ""
	}
	return RepeatTo(s, n-1) + s
}

// File is a file written by the code under contract.
type File struct {
	Name    string
	Content string
}

// Files lists the files written (below the working directory when native).
func Files() []File {
	var out []File
	filepath.Walk(".", func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return nil
		}
		if p == "in" || strings.HasPrefix(p, "in/") {
			return nil
		}
		b, _ := os.ReadFile(p)
		out = append(out, File{p, string(b)})
		return nil
	})
	return out
}

// Input provides a file for the code under contract to read.
func Input(name string, data []byte) {
	if name == missing {
		return
	}
	os.MkdirAll(filepath.Dir(name), 0755)
	os.WriteFile(name, data, 0644)
}

const missing = "in/missing"

// InFile is the name of an input file (any name for the verifier; native runs
// keep it inside the scratch directory).
func InFile(name string) string {
	if len(name)%2 == 0 { // the same file for several options is a case of its own
		return "in/f"
	}
	if len(name)%8 == 5 { // no such file
		return missing
	}
	return "in/" + OutFile(name)
}

// OutFile is the name of an output file (any name for the verifier; native
// runs keep it inside the scratch directory).
func OutFile(name string) string {
	var b []byte
	for i := 0; i < len(name) && i < 40; i++ {
		c := name[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' {
			b = append(b, c)
		}
	}
	if s := strings.TrimLeft(string(b), "."); s != "" {
		return "f" + string(b)
	}
	return "f"
}

// panicked: which of the Runs of this evaluation panicked.
var panicked []bool

// Run gives the files written by f, and its error.
func Run(f func() error) ([]File, error) {
	base, _ := os.Getwd()
	dir, _ := os.MkdirTemp(base, "run")
	os.Symlink(filepath.Join(base, "in"), filepath.Join(dir, "in"))
	os.Chdir(dir)
	defer func() {
		os.Chdir(base)
		os.RemoveAll(dir)
	}()
	err := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(RequiresFailed); ok {
					panic(r)
				}
				err = fmt.Errorf("panic: %v", r)
				panicked[len(panicked)-1] = true
			}
		}()
		panicked = append(panicked, false)
		return f()
	}()
	return Files(), err
}

// CLI runs the action of a command with the options given (name, value, ...).
func CLI(flags []cli.Flag, action func(c *cli.Context) error, options ...interface{}) error {
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "OCTOPUS_") {
			os.Unsetenv(strings.SplitN(e, "=", 2)[0])
		}
	}
	app := cli.NewApp()
	app.Writer, app.ErrWriter = io.Discard, io.Discard
	app.ExitErrHandler = func(*cli.Context, error) {}
	app.Flags, app.Action = flags, action
	args := []string{"oct"}
	for i := 0; i+1 < len(options); i += 2 {
		args = append(args, fmt.Sprintf("--%v=%v", options[i], options[i+1]))
	}
	return app.Run(args)
}

// JSONKeys lists the JSON keys and options of a struct's fields.
func JSONKeys(v interface{}) string {
	t := reflect.TypeOf(v)
	var out []string
	for i := 0; i < t.NumField(); i++ {
		out = append(out, t.Field(i).Name+"="+t.Field(i).Tag.Get("json"))
	}
	return strings.Join(out, " ")
}
