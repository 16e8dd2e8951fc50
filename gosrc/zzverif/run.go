package zzverif

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unsafe"
)

type root struct {
	fn    reflect.Value
	names []string
	gen   reflect.Value
}

var roots = map[string]*root{}
var constfns = map[string]func() interface{}{}
var setups []func()

// Register a contract or lemma
func Register(name string, fn interface{}, names []string) {
	r := roots[name]
	if r == nil {
		r = &root{}
		roots[name] = r
	}
	r.fn, r.names = reflect.ValueOf(fn), names
}

// RegisterGen registers a generator of arguments
func RegisterGen(name string, gen interface{}) {
	r := roots[name]
	if r == nil {
		r = &root{}
		roots[name] = r
	}
	r.gen = reflect.ValueOf(gen)
}

// RegisterConst registers a global whose value after loading the shipped configuration is a constant for the verifier
func RegisterConst(name string, f func() interface{}) { constfns[name] = f }

// RegisterSetup registers what has to run before any contract is evaluated
func RegisterSetup(f func()) { setups = append(setups, f) }

// R is the source of random arguments
type R struct {
	*rand.Rand
	Pkg string
}

// Pick one of the strings
func (r *R) Bool() bool { return r.Intn(2) == 0 }

func (r *R) Pick(xs ...string) string { return xs[r.Intn(len(xs))] }

// Bytes - random bytes, boundary values preferred
func (r *R) Bytes(n int) []byte {
	b := make([]byte, n)
	switch r.Intn(4) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	default:
		r.Read(b)
	}
	return b
}

// Len - a small length, now and then a larger one
func (r *R) Len() int {
	switch r.Intn(8) {
	case 0:
		return 0
	case 1:
		return r.Intn(300)
	case 2, 3:
		return r.Intn(40)
	}
	return r.Intn(8)
}

// U64 - boundary values preferred
func (r *R) U64() uint64 {
	switch r.Intn(9) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return uint64(r.Intn(100))
	case 2:
		return uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(2))
	case 3:
		return 0xffff + uint64(r.Intn(3)) - 1
	case 4:
		return 0xffffffff + uint64(r.Intn(3)) - 1
	case 5:
		return ^uint64(0) - uint64(r.Intn(3))
	case 6:
		return uint64(r.Intn(1 << 16))
	case 7:
		return uint64(r.Uint32())
	}
	return r.Uint64()
}

// Str - a random string
func (r *R) Str() string {
	switch r.Intn(6) {
	case 0:
		return ""
	case 1:
		return string(r.Bytes(r.Len()))
	}
	n := r.Intn(10)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcxyz0189/._-AZ"[r.Intn(16)]
	}
	return string(b)
}

// Value - a random value of a type
func (r *R) Value(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	r.fill(v, depth)
	return v
}

func (r *R) fill(v reflect.Value, depth int) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := r.U64()
		if r.Intn(2) == 0 {
			x = uint64(r.Intn(20))
		}
		v.SetInt(int64(x) << (64 - v.Type().Bits()) >> (64 - v.Type().Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(r.U64() & (^uint64(0) >> (64 - v.Type().Bits())))
	case reflect.String:
		v.SetString(r.Str())
	case reflect.Slice:
		if depth > 5 || r.Intn(8) == 0 {
			return
		}
		n := r.Len()
		if v.Type().Elem().Kind() != reflect.Uint8 {
			n = r.Intn(7)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			r.fill(s.Index(i), depth+1)
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			r.fill(v.Index(i), depth+1)
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			var s int64
			switch r.Intn(4) {
			case 0:
				s = int64(r.U64()) >> 20
			case 1:
				s = r.Int63n(1 << 33)
			default:
				s = r.Int63n(1 << 32)
			}
			v.Set(reflect.ValueOf(time.Unix(s, r.Int63n(1000000000)).UTC()))
			return
		}
		if strings.HasPrefix(v.Type().String(), "sync.") {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			r.fill(v.Field(i), depth+1)
		}
	case reflect.Ptr:
		switch v.Type().String() {
		case "*os.File", "*net.UDPConn", "*gocui.Gui", "*gocui.View":
			return
		}
		p := reflect.New(v.Type().Elem())
		r.fill(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for i := r.Intn(4); i > 0; i-- {
			m.SetMapIndex(r.Value(v.Type().Key(), depth+1), r.Value(v.Type().Elem(), depth+1))
		}
		v.Set(m)
	}
}

func (r *R) args(name string, rt *root) []reflect.Value {
	if rt.gen.IsValid() {
		return rt.gen.Call([]reflect.Value{reflect.ValueOf(r)})
	}
	var out []reflect.Value
	t := rt.fn.Type()
	for i := 0; i < t.NumIn(); i++ {
		out = append(out, r.Value(t.In(i), 0))
	}
	return out
}

// dump a value as JSON data that load() reads back
func dump(v reflect.Value, depth int) interface{} {
	if depth > 8 {
		return nil
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.String:
		return "hex:" + hex.EncodeToString([]byte(v.String()))
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return "hex:" + hex.EncodeToString(v.Bytes())
		}
		out := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, dump(v.Index(i), depth+1))
		}
		return out
	case reflect.Array:
		out := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, dump(v.Index(i), depth+1))
		}
		return out
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			t := reflect.New(v.Type()).Elem()
			t.Set(v)
			x := t.Interface().(time.Time)
			return map[string]interface{}{"sec": strconv.FormatInt(x.Unix(), 10), "nsec": strconv.Itoa(x.Nanosecond())}
		}
		m := map[string]interface{}{}
		for i := 0; i < v.NumField(); i++ {
			m[v.Type().Field(i).Name] = dump(v.Field(i), depth+1)
		}
		return m
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		switch v.Type().String() {
		case "*net.UDPConn":
			if a := v.Interface().(*net.UDPConn).RemoteAddr(); a != nil {
				return a.String()
			}
			return nil
		case "*os.File", "*gocui.Gui", "*gocui.View":
			return nil
		}
		return dump(v.Elem(), depth+1)
	case reflect.Map:
		m := map[string]interface{}{}
		it := v.MapRange()
		for it.Next() {
			m[fmt.Sprint(it.Key().Interface())] = dump(it.Value(), depth+1)
		}
		return m
	}
	return nil
}

func load(v reflect.Value, j interface{}) {
	if !v.CanSet() {
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if j == nil {
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		b, _ := j.(bool)
		v.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, _ := strconv.ParseInt(j.(string), 10, 64)
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, _ := strconv.ParseUint(j.(string), 10, 64)
		v.SetUint(x)
	case reflect.String:
		b, _ := hex.DecodeString(strings.TrimPrefix(j.(string), "hex:"))
		v.SetString(string(b))
	case reflect.Slice:
		if s, ok := j.(string); ok {
			b, _ := hex.DecodeString(strings.TrimPrefix(s, "hex:"))
			v.Set(reflect.MakeSlice(v.Type(), len(b), len(b)))
			reflect.Copy(v, reflect.ValueOf(b))
			return
		}
		l := j.([]interface{})
		s := reflect.MakeSlice(v.Type(), len(l), len(l))
		for i := range l {
			load(s.Index(i), l[i])
		}
		v.Set(s)
	case reflect.Array:
		l := j.([]interface{})
		for i := range l {
			if i < v.Len() {
				load(v.Index(i), l[i])
			}
		}
	case reflect.Struct:
		m := j.(map[string]interface{})
		if v.Type() == reflect.TypeOf(time.Time{}) {
			s, _ := strconv.ParseInt(m["sec"].(string), 10, 64)
			n, _ := strconv.ParseInt(m["nsec"].(string), 10, 64)
			v.Set(reflect.ValueOf(time.Unix(s, n).UTC()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if x, ok := m[v.Type().Field(i).Name]; ok {
				load(v.Field(i), x)
			}
		}
	case reflect.Ptr:
		if a, ok := j.(string); ok && v.Type().String() == "*net.UDPConn" {
			if ua, err := net.ResolveUDPAddr("udp", a); err == nil {
				if c, err := net.DialUDP("udp", nil, ua); err == nil {
					v.Set(reflect.ValueOf(c))
				}
			}
			return
		}
		switch v.Type().String() {
		case "*os.File", "*net.UDPConn", "*gocui.Gui", "*gocui.View":
			return
		}
		p := reflect.New(v.Type().Elem())
		load(p.Elem(), j)
		v.Set(p)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		for k, x := range j.(map[string]interface{}) {
			if v.Type().Key().Kind() != reflect.String {
				continue
			}
			e := reflect.New(v.Type().Elem()).Elem()
			load(e, x)
			m.SetMapIndex(reflect.ValueOf(k).Convert(v.Type().Key()), e)
		}
		v.Set(m)
	}
}

type job struct {
	Mode  string
	Root  string
	Args  map[string]interface{}
	Seed  int64
	From  int
	N     int
	Ms    int
	Tags  string
	State string // file that names the case being run
}

func emit(x interface{}) {
	b, _ := json.Marshal(x)
	os.Stdout.Write(append([]byte("ZZ "), append(b, '\n')...))
}

func call(fn reflect.Value, args []reflect.Value) (fails []Failure, skipped bool, hits map[string]int) {
	failures, reached, universe = nil, map[string]int{}, map[string]bool{}
	p, sk := guard(func() { fn.Call(args) })
	if sk && len(failures) == 0 {
		return nil, true, reached
	}
	if p != "" {
		failures = append(failures, Failure{"panic", p})
	}
	return failures, false, reached
}

func hash(s string) int64 {
	h := int64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h = (h ^ int64(s[i])) * 1099511628211
	}
	return h
}

// Main runs the job named by $ZZRUN
func Main() {
	spec := os.Getenv("ZZRUN")
	if spec == "" {
		return
	}
	b, err := os.ReadFile(spec)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var j job
	if err := json.Unmarshal(b, &j); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	out := os.Stdout
	_ = null
	if j.Tags != "" {
		re := regexp.MustCompile(j.Tags)
		wanted = func(tag string) bool { return re.MatchString(tag) }
	}
	for _, f := range setups {
		f()
	}
	os.Stdout = out
	switch j.Mode {
	case "consts":
		m := map[string]interface{}{}
		for n, f := range constfns {
			m[n] = f()
		}
		emit(m)
	case "list":
		var l []string
		for n, r := range roots {
			if r.fn.IsValid() {
				l = append(l, n)
			}
		}
		sort.Strings(l)
		emit(l)
	case "replay":
		r := roots[j.Root]
		if r == nil || !r.fn.IsValid() {
			emit(map[string]interface{}{"error": "no such contract " + j.Root})
			os.Exit(3)
		}
		var args []reflect.Value
		t := r.fn.Type()
		for i := 0; i < t.NumIn(); i++ {
			v := reflect.New(t.In(i)).Elem()
			if x, ok := j.Args[r.names[i]]; ok {
				load(v, x)
			}
			args = append(args, v)
		}
		f, sk, hits := call(r.fn, args)
		emit(map[string]interface{}{"fails": f, "skipped": sk, "reached": hits})
	case "search":
		r := roots[j.Root]
		if r == nil || !r.fn.IsValid() {
			emit(map[string]interface{}{"error": "no such contract " + j.Root})
			os.Exit(3)
		}
		var sf *os.File
		if j.State != "" {
			sf, _ = os.OpenFile(j.State, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0600)
		}
		end := time.Now().Add(time.Duration(j.Ms) * time.Millisecond)
		ran, skips := 0, 0
		hits := map[string]int{}
		i := j.From
		for ; i < j.From+j.N && time.Now().Before(end); i++ {
			rr := &R{Rand: rand.New(rand.NewSource(j.Seed*1000003 + hash(j.Root) + int64(i)*7919))}
			args := rr.args(j.Root, r)
			if sf != nil {
				sf.WriteAt([]byte(fmt.Sprintf("%-12d", i)), 0)
			}
			f, sk, h := call(r.fn, args)
			for k, n := range h {
				hits[k] += n
			}
			ran++
			if sk {
				skips++
				continue
			}
			if len(f) > 0 {
				rr = &R{Rand: rand.New(rand.NewSource(j.Seed*1000003 + hash(j.Root) + int64(i)*7919))}
				dumped := map[string]interface{}{}
				for k, a := range rr.args(j.Root, r) {
					dumped[r.names[k]] = dump(a, 0)
				}
				emit(map[string]interface{}{"fails": f, "index": i, "args": dumped})
				break
			}
		}
		emit(map[string]interface{}{"done": true, "ran": ran, "skipped": skips, "reached": hits})
	case "dumpcase":
		r := roots[j.Root]
		rr := &R{Rand: rand.New(rand.NewSource(j.Seed*1000003 + hash(j.Root) + int64(j.From)*7919))}
		args := rr.args(j.Root, r)
		dumped := map[string]interface{}{}
		for k, a := range args {
			dumped[r.names[k]] = dump(a, 0)
		}
		emit(map[string]interface{}{"args": dumped})
	}
	os.Exit(0)
}
