package verifspec

// Native runner: evaluates contracts on generated inputs.  Only used to
// replay failures on the real code and to search for failing inputs.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// Dict is the vocabulary for generated values.
type Dict struct {
	Strs    []string // string literals of the code under contract
	NewStrs []string // literals the recorded baseline does not have
	Ints    []int
	NewInts []int
}

var dict Dict

// Harness is one contract in the registry of the generated main program.
type Harness struct {
	Name string
	Fn   interface{}
}

// Found is a failing input.
type Found struct {
	Harness string
	Seed    int64
	Iter    int
	What    string
	Input   string
	Shrunk  bool
}

// Main runs the registry: <cmd> <conf.json>.
func Main(hs []Harness) {
	var conf struct {
		Dict    Dict
		Seed    int64
		Secs    float64
		MaxIter int
		Only    map[string]int // harness -> single iteration (replay)
		Out     string
		Scratch string
		Select  []string // harnesses to run (all when empty)
	}
	b, err := ioutil.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &conf)
	}
	if err != nil {
		fmt.Println("bad configuration", err)
		os.Exit(3)
	}
	dict = conf.Dict
	log.SetOutput(ioutil.Discard)
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	out, err := os.OpenFile(conf.Out, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0666)
	if err != nil {
		os.Exit(3)
	}
	emit := func(kind string, v interface{}) {
		j, _ := json.Marshal(v)
		fmt.Fprintf(out, "%s %s\n", kind, j)
	}
	for _, h := range hs {
		if conf.Only != nil {
			if _, ok := conf.Only[h.Name]; !ok {
				continue
			}
		}
		if len(conf.Select) > 0 {
			sel := false
			for _, n := range conf.Select {
				sel = sel || n == h.Name
			}
			if !sel {
				continue
			}
		}
		deadline := time.Now().Add(time.Duration(conf.Secs * float64(time.Second)))
		ran, rejected := 0, 0
		for it := 0; it < conf.MaxIter && time.Now().Before(deadline); it++ {
			if o, ok := conf.Only[h.Name]; ok {
				it = o
			}
			// position log: survives a process exit inside the code under contract
			out.WriteString(fmt.Sprintf("AT %q %d\n", h.Name, it))
			ok, what := runOnce(h, conf.Seed, it, conf.Scratch)
			if what != "" {
				f := Found{Harness: h.Name, Seed: conf.Seed, Iter: it, What: what}
				args := genArgs(h, conf.Seed, it)
				small, what2 := shrink(h, args, conf.Scratch)
				if what2 != "" {
					f.What = what2
					f.Input = showArgs(h, small)
					f.Shrunk = true
				} else {
					f.Input = showArgs(h, genArgs(h, conf.Seed, it))
				}
				emit("FOUND", f)
				break
			}
			if ok {
				ran++
			} else {
				rejected++
			}
			if _, ok := conf.Only[h.Name]; ok {
				break
			}
		}
		emit("DONE", map[string]interface{}{"Harness": h.Name, "Ran": ran, "Rejected": rejected})
	}
	out.WriteString("END\n")
}

func showArgs(h Harness, args []reflect.Value) string {
	var s []string
	for i, a := range args {
		_ = i
		s = append(s, Show(a.Interface()))
	}
	return strings.Join(s, ", ")
}

func runOnce(h Harness, seed int64, it int, scratch string) (bool, string) {
	return runArgs(h, genArgs(h, seed, it), scratch)
}

func runArgs(h Harness, args []reflect.Value, scratch string) (ok bool, what string) {
	type res struct {
		ok   bool
		what string
	}
	ch := make(chan res, 1)
	Reset()
	panicked = nil
	if scratch != "" {
		clean(scratch)
		os.Chdir(scratch)
	}
	go func() {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(RequiresFailed); is {
					ch <- res{false, ""}
					return
				}
				ch <- res{true, fmt.Sprintf("panic: %v%s", e, where())}
			}
		}()
		reflect.ValueOf(h.Fn).Call(args)
		for _, p := range panicked {
			if p != panicked[0] && strings.Contains(h.Name, "_K01_") {
				ch <- res{true, "one of the runs compared panics"}
				return
			}
		}
		if len(Failures) > 0 {
			ch <- res{true, strings.Join(Failures, "\n")}
			return
		}
		ch <- res{true, ""}
	}()
	select {
	case r := <-ch:
		return r.ok, r.what
	case <-time.After(20 * time.Second):
		return true, "does not return within 20 s"
	}
}

func clean(dir string) {
	es, _ := ioutil.ReadDir(dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

func where() string {
	pc := make([]uintptr, 40)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "octopus-db-tools") && !strings.Contains(f.Function, "verifspec") && !strings.Contains(f.File, "zz_verif") {
			return fmt.Sprintf(" in %s (%s:%d)", filepath.Base(f.Function), filepath.Base(f.File), f.Line)
		}
		if !more {
			return ""
		}
	}
}

// ---------------------------------------------------------------- generation

type gen struct {
	r     *rand.Rand
	size  int
	names []string // shared identifiers of this input
	strs  []string
}

func genArgs(h Harness, seed int64, it int) []reflect.Value {
	hs := fnv.New64a()
	hs.Write([]byte(h.Name))
	r := rand.New(rand.NewSource(seed*1000003 + int64(it)*7919 + int64(hs.Sum64()&0xffffffff)))
	g := &gen{r: r, size: 1 + it%4}
	for i := 0; i < 5; i++ {
		g.names = append(g.names, g.ident())
	}
	t := reflect.TypeOf(h.Fn)
	var out []reflect.Value
	for i := 0; i < t.NumIn(); i++ {
		v := reflect.New(t.In(i)).Elem()
		g.fill(v, "", 0, "")
		if v.Kind() == reflect.Ptr && v.IsNil() {
			v.Set(reflect.New(t.In(i).Elem()))
			g.fill(v.Elem(), "", 0, "")
		}
		out = append(out, v)
	}
	return out
}

var idents = []string{"id", "name", "user", "user_id", "userId", "group", "users", "created_at", "updated_at", "a", "b", "c", "t1", "t2", "seq", "order", "order_item", "category", "x", "User", "UserGroup", "value", "is_active", "a1b2", "_x", "col_1", "HTTPServer", "deleted_at", "ID", "person", "people", "status", "data"}

var colTypes = []string{"binary", "bit", "blob16", "blob24", "blob32", "blob8", "boolean", "char", "date", "datetime", "decimal", "double", "enum", "float", "geometry", "int16", "int24", "int32", "int64", "int8", "json", "point", "set", "text16", "text24", "text32", "text8", "time", "varbinary", "varchar", "year"}

var aliasTypes = []string{"string", "tinyint", "smallint", "mediumint", "int", "integer", "bigint", "long", "numeric", "real", "timestamp", "tinyblob", "blob", "mediumblob", "longblob", "tinytext", "text", "mediumtext", "longtext", "VARCHAR", "Int", "BIGINT", "Bool", "unknown", "number", "nvarchar"}

func (g *gen) pick(xs []string) string {
	if len(xs) == 0 {
		return ""
	}
	return xs[g.r.Intn(len(xs))]
}

func (g *gen) ident() string {
	s := g.pick(idents)
	if g.r.Intn(4) == 0 {
		s += "_" + g.pick(idents)
	}
	return s
}

func (g *gen) raw() string {
	n := g.r.Intn(6)
	b := ""
	chars := []string{"a", "b", "Z", "_", " ", "1", "0", ",", ":", "'", "\"", "\\", "(", ")", "@", "\n", "é", "-", ">", ".", "`", "\t", "/", ";", "%", "\u0130"}
	for i := 0; i < n; i++ {
		b += g.pick(chars)
	}
	return b
}

func (g *gen) anyInt() int {
	if len(dict.NewInts) > 0 && g.r.Intn(3) == 0 {
		return dict.NewInts[g.r.Intn(len(dict.NewInts))] + g.r.Intn(3) - 1
	}
	switch g.r.Intn(8) {
	case 0, 1, 2:
		return 0
	case 3:
		return 1
	case 4:
		return g.r.Intn(12)
	case 5:
		return g.r.Intn(300)
	case 6:
		if len(dict.Ints) > 0 {
			return dict.Ints[g.r.Intn(len(dict.Ints))] + g.r.Intn(3) - 1
		}
	}
	return g.r.Intn(70000)
}

func (g *gen) str(field, owner string) string {
	if len(dict.NewStrs) > 0 && g.r.Intn(6) == 0 {
		s := g.pick(dict.NewStrs)
		switch g.r.Intn(6) {
		case 0:
			return s + g.pick(g.names)
		case 1:
			return g.pick(g.names) + s
		case 2:
			return strings.ToUpper(s)
		}
		return s
	}
	if len(dict.NewInts) > 0 && g.r.Intn(30) == 0 {
		n := dict.NewInts[g.r.Intn(len(dict.NewInts))] + g.r.Intn(3) - 1
		if n >= 0 && n < 400 {
			return strings.Repeat("x", n)
		}
	}
	k := g.r.Intn(100)
	lf := strings.ToLower(field)
	switch {
	case field == "Type" || lf == "coltype" || lf == "typ":
		if k < 72 {
			return g.pick(colTypes)
		}
		if k < 92 {
			return g.pick(aliasTypes)
		}
		if k < 96 {
			return strings.ToUpper(g.pick(colTypes))
		}
	case field == "DefaultValue" || field == "OnUpdate":
		switch {
		case k < 40:
			return ""
		case k < 55:
			return "fn::" + g.pick([]string{"CURRENT_TIMESTAMP", "now()", "uuid", ""})
		case k < 70:
			return strconv.Itoa(g.anyInt())
		case k < 78:
			return g.pick([]string{"true", "false", "null", "NULL", "0", "1", "0.5", "2020-01-01", "'a'", "b'1'", "current_timestamp"})
		}
	case strings.HasSuffix(lf, "group"):
		if k < 70 {
			return g.pick([]string{"", "common", "Common", "g1", "g2", "admin"})
		}
	case strings.HasSuffix(lf, "groups"):
		if k < 25 {
			return ""
		}
		if k < 85 {
			n := 1 + g.r.Intn(3)
			var s []string
			for i := 0; i < n; i++ {
				s = append(s, g.pick([]string{"", "common", "Common", "g1", "g2", "admin"}))
			}
			return strings.Join(s, ",")
		}
	case field == "Relationship":
		if k < 90 {
			return g.pick([]string{"n:1", "1:1", "1:n", ""})
		}
	case field == "Description":
		if k < 35 {
			return ""
		}
		if k < 60 {
			return g.pick(g.names) + " " + g.pick(g.names)
		}
	case field == "ClassName":
		if k < 50 {
			return ""
		}
	case field == "Name" || field == "Table" || field == "Column" || field == "Columns":
		if k < 86 {
			return g.pick(g.names)
		}
		if k < 90 {
			return g.ident()
		}
	}
	k = g.r.Intn(100)
	switch {
	case k < 35:
		return g.pick(g.names)
	case k < 45:
		return ""
	case k < 55:
		return g.ident()
	case k < 65:
		return g.pick(dict.Strs)
	case k < 72:
		return g.pick(colTypes)
	case k < 80:
		return g.pick(g.names) + g.pick([]string{"_", ",", ":", " ", "-", ".", "/", "@", "(", ",,"}) + g.pick(g.names)
	case k < 86:
		var s []string
		n := 1 + g.r.Intn(3)
		sep := g.pick([]string{",", ";"})
		for i := 0; i < n; i++ {
			s = append(s, g.pick(g.names)+g.pick([]string{":", ":", ""})+g.pick(g.names))
		}
		return strings.Join(s, sep)
	case k < 92:
		return g.pick(dict.Strs) + g.pick(g.names)
	}
	return g.raw()
}

func (g *gen) length(depth int) int {
	if len(dict.NewInts) > 0 && g.r.Intn(25) == 0 {
		n := dict.NewInts[g.r.Intn(len(dict.NewInts))] + g.r.Intn(3) - 1
		if n >= 0 && n <= 200 {
			return n
		}
	}
	if g.r.Intn(400) == 0 && depth <= 4 {
		return 60 + g.r.Intn(12)
	}
	n := g.r.Intn(g.size + 2)
	if g.r.Intn(10) == 0 {
		n += 3
	}
	return n
}

func (g *gen) fill(v reflect.Value, field string, depth int, owner string) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(g.str(field, owner))
	case reflect.Func:
		// a pure function: its results depend only on its arguments
		if g.r.Intn(4) == 0 {
			return
		}
		t, seed, size, names := v.Type(), g.r.Int63(), g.size, g.names
		v.Set(reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
			hs := fnv.New64a()
			for _, a := range args {
				hs.Write([]byte(Show(a.Interface())))
			}
			f := &gen{r: rand.New(rand.NewSource(seed ^ int64(hs.Sum64()))), size: size, names: names}
			var out []reflect.Value
			for i := 0; i < t.NumOut(); i++ {
				o := reflect.New(t.Out(i)).Elem()
				f.fill(o, "", 3, "")
				out = append(out, o)
			}
			return out
		}))
	case reflect.Bool:
		v.SetBool(g.r.Intn(3) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if depth == 0 {
			v.SetInt(int64(g.r.Intn(7)))
			if len(dict.NewInts) > 0 && g.r.Intn(3) == 0 {
				v.SetInt(int64(g.anyInt()))
			}
		} else {
			v.SetInt(int64(g.anyInt()))
		}
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n := g.anyInt()
		if n < 0 {
			n = 0
		}
		if g.r.Intn(60) == 0 {
			n = 65535
		}
		v.SetUint(uint64(n) & 0xffff)
	case reflect.Uint8:
		v.SetUint(uint64(g.r.Intn(256)))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(float64(g.anyInt()) / 2)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			g.fill(f, t.Field(i).Name, depth+1, t.Name())
		}
	case reflect.Ptr:
		nilP := 40
		if depth > 0 && owner == "[]" {
			nilP = 1
		}
		if depth == 0 {
			nilP = 0
		}
		if depth > 12 || g.r.Intn(100) < nilP {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		g.fill(v.Elem(), field, depth+1, "")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(g.str(field, owner)))
			return
		}
		n := g.length(depth)
		if depth > 10 {
			n = 0
		}
		if n == 0 && g.r.Intn(2) == 0 {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), field, depth+1, "[]")
		}
		v.Set(s)
	case reflect.Map:
		n := g.length(depth)
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			g.fill(k, "Name", depth+1, "[]")
			g.fill(e, field, depth+1, "[]")
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Interface:
		if v.NumMethod() == 0 {
			switch g.r.Intn(4) {
			case 0:
				v.Set(reflect.ValueOf(g.str(field, owner)))
			case 1:
				v.Set(reflect.ValueOf(g.anyInt()))
			case 2:
				v.Set(reflect.ValueOf(g.r.Intn(2) == 0))
			}
		} else if ts := impls[v.Type()]; len(ts) > 0 && g.r.Intn(12) > 0 {
			e := reflect.New(ts[g.r.Intn(len(ts))]).Elem()
			g.fill(e, field, depth, "")
			v.Set(e)
		}
	}
}

// ---------------------------------------------------------------- shrinking

func deepCopy(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	cp(n, v)
	return n
}

func cp(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.New(src.Type().Elem()))
		cp(dst.Elem(), src.Elem())
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			cp(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			if dst.Field(i).CanSet() {
				cp(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeMap(src.Type()))
		for _, k := range src.MapKeys() {
			dst.SetMapIndex(k, src.MapIndex(k))
		}
	case reflect.Interface:
		if src.IsNil() || !dst.CanSet() {
			return
		}
		e := reflect.New(src.Elem().Type()).Elem()
		cp(e, src.Elem())
		dst.Set(e)
	default:
		if dst.CanSet() {
			dst.Set(src)
		}
	}
}

var impls = map[reflect.Type][]reflect.Type{}

// Impl names the types native execution draws values of an interface from
// (no effect on the proof).
func Impl(iface interface{}, vs ...interface{}) {
	t := reflect.TypeOf(iface).Elem()
	for _, v := range vs {
		impls[t] = append(impls[t], reflect.TypeOf(v))
	}
}

// Clone is a deep copy (contracts use it to keep the entry state).
func Clone(v interface{}) interface{} {
	return deepCopy(reflect.ValueOf(v)).Interface()
}

// NilEmpty replaces the empty slices v holds by nil ones, where the code under
// test tells them apart and the contract does not (no effect on the proof).
func NilEmpty(v interface{}) { nilEmpty(reflect.ValueOf(v), 0) }

func nilEmpty(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			nilEmpty(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.Len() == 0 && !v.IsNil() && v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
		for i := 0; i < v.Len(); i++ {
			nilEmpty(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				nilEmpty(v.Field(i), depth+1)
			}
		}
	}
}

func shrink(h Harness, args []reflect.Value, scratch string) ([]reflect.Value, string) {
	best := args
	fresh := func(a []reflect.Value) []reflect.Value {
		var r []reflect.Value
		for _, v := range a {
			r = append(r, deepCopy(v))
		}
		return r
	}
	try := func(a []reflect.Value) string {
		ok, w := runArgs(h, fresh(a), scratch)
		if !ok {
			return ""
		}
		return w
	}
	what := try(best)
	if what == "" || strings.HasPrefix(what, "does not return") {
		return best, ""
	}
	limit := time.Now().Add(3 * time.Second)
	for pass := 0; pass < 3; pass++ {
		changed := false
		n := 0
		for {
			cand := fresh(best)
			cnt := 0
			done := false
			for _, a := range cand {
				if a.Kind() == reflect.Ptr {
					a = a.Elem()
				}
				mutate(a, &cnt, n, &done)
			}
			if !done || time.Now().After(limit) {
				break
			}
			if w := try(cand); w != "" {
				best, what = cand, w
				changed = true
			} else {
				n++
			}
		}
		if !changed {
			break
		}
	}
	return best, what
}

// mutate applies the n-th possible simplification to v.
func mutate(v reflect.Value, cnt *int, n int, done *bool) {
	if *done {
		return
	}
	hit := func() bool {
		*cnt++
		if *cnt-1 == n {
			*done = true
			return true
		}
		return false
	}
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			if hit() {
				ns := reflect.MakeSlice(v.Type(), 0, v.Len())
				ns = reflect.AppendSlice(ns, v.Slice(0, i))
				ns = reflect.AppendSlice(ns, v.Slice(i+1, v.Len()))
				v.Set(ns)
				return
			}
		}
		for i := 0; i < v.Len(); i++ {
			mutate(v.Index(i), cnt, n, done)
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.CanSet() && hit() {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		mutate(v.Elem(), cnt, n, done)
	case reflect.Interface:
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr {
			mutate(v.Elem(), cnt, n, done)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				mutate(v.Field(i), cnt, n, done)
			}
		}
	case reflect.String, reflect.Bool, reflect.Int, reflect.Uint16:
		if v.CanSet() && !v.IsZero() && hit() {
			v.Set(reflect.Zero(v.Type()))
		}
	}
}
