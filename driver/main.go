// Command verifdriver executes scripts of library calls and reports what each call did.
// One line of JSON in (a list of operations), one line of JSON out per operation, then a
// line "END". It only uses the library's public API.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
)

type val struct {
	T string `json:"T"`
	V any    `json:"V"`
}

// ---------------------------------------------------------------- encoding of values

func numHex(v reflect.Value) (string, bool) {
	switch v.Kind() {
	case reflect.Int8:
		return fmt.Sprintf("%02x", uint8(v.Int())), true
	case reflect.Int16:
		return fmt.Sprintf("%04x", uint16(v.Int())), true
	case reflect.Int32:
		return fmt.Sprintf("%08x", uint32(v.Int())), true
	case reflect.Int64, reflect.Int:
		return fmt.Sprintf("%016x", uint64(v.Int())), true
	case reflect.Uint8:
		return fmt.Sprintf("%02x", v.Uint()), true
	case reflect.Uint16:
		return fmt.Sprintf("%04x", v.Uint()), true
	case reflect.Uint32:
		return fmt.Sprintf("%08x", v.Uint()), true
	case reflect.Uint64, reflect.Uint:
		return fmt.Sprintf("%016x", v.Uint()), true
	case reflect.Float32:
		// Interface() keeps the bits of a signalling NaN; Float() would quiet it.
		if f, ok := v.Interface().(float32); ok {
			return fmt.Sprintf("%08x", math.Float32bits(f)), true
		}
		return fmt.Sprintf("%08x", math.Float32bits(float32(v.Float()))), true
	case reflect.Float64:
		return fmt.Sprintf("%016x", math.Float64bits(v.Float())), true
	}
	return "", false
}

func isNum(k reflect.Kind) bool {
	switch k {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int,
		reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint,
		reflect.Float32, reflect.Float64:
		return true
	}
	return false
}

func encv(v reflect.Value) any {
	if !v.IsValid() {
		return nil
	}
	if s, ok := numHex(v); ok {
		return s
	}
	switch v.Kind() {
	case reflect.String:
		return "s:" + hex.EncodeToString([]byte(v.String()))
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return enc(v.Elem())
	case reflect.Slice, reflect.Array:
		et := v.Type().Elem()
		if isNum(et.Kind()) {
			var b strings.Builder
			for i := 0; i < v.Len(); i++ {
				s, _ := numHex(v.Index(i))
				b.WriteString(s)
			}
			return b.String()
		}
		if et.Kind() == reflect.Struct && et.NumField() == 2 && et.Field(0).Type.Kind() == reflect.String &&
			et.Field(1).Type.Kind() == reflect.Interface {
			// fields of a compound: name and value
			out := []any{}
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				out = append(out, []any{e.Field(0).String(), encv(e.Field(1))})
			}
			return map[string]any{"compound": out}
		}
		out := make([]any, v.Len())
		for i := range out {
			out[i] = encv(v.Index(i))
		}
		return out
	case reflect.Struct:
		// an enumeration: the first field that is not a list of names or of member values
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		for i := 0; i < c.NumField(); i++ {
			f := c.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			if f.Kind() == reflect.Interface {
				return map[string]any{"enum": encv(f)}
			}
		}
		return fmt.Sprintf("%v", v)
	case reflect.Bool:
		return v.Bool()
	}
	return "?" + v.Kind().String()
}

func enc(v reflect.Value) any {
	if !v.IsValid() {
		return nil
	}
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	return val{v.Type().String(), encv(v)}
}

func encAny(x any) any {
	if x == nil {
		return nil
	}
	if f, ok := x.(float32); ok {
		return val{"float32", fmt.Sprintf("%08x", math.Float32bits(f))}
	}
	return enc(reflect.ValueOf(x))
}

// ---------------------------------------------------------------- decoding of values

var basic = map[string]reflect.Type{
	"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)),
	"int64": reflect.TypeOf(int64(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)),
	"uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"string": reflect.TypeOf(""), "int": reflect.TypeOf(int(0)), "uint": reflect.TypeOf(uint(0)),
	"bool": reflect.TypeOf(true), "complex128": reflect.TypeOf(complex128(0)), "any": reflect.TypeOf((*any)(nil)).Elem(),
	"struct": reflect.TypeOf(struct{ A int32 }{}), "map": reflect.TypeOf(map[string]int32{}),
	"chan": reflect.TypeOf(make(chan int)), "func": reflect.TypeOf(func() {}), "uintptr": reflect.TypeOf(uintptr(0)),
	"myint32": reflect.TypeOf(myint32(0)), "mystring": reflect.TypeOf(mystring("")),
}

type myint32 int32
type mystring string

func parseType(t string) reflect.Type {
	if strings.HasPrefix(t, "[]") {
		return reflect.SliceOf(parseType(t[2:]))
	}
	if strings.HasPrefix(t, "*") {
		return reflect.PointerTo(parseType(t[1:]))
	}
	if strings.HasPrefix(t, "[") {
		i := strings.Index(t, "]")
		var n int
		fmt.Sscanf(t[1:i], "%d", &n)
		return reflect.ArrayOf(n, parseType(t[i+1:]))
	}
	b, ok := basic[t]
	if !ok {
		panic("verifdriver: bad type " + t)
	}
	return b
}

func setNum(v reflect.Value, h string) {
	var u uint64
	fmt.Sscanf(h, "%x", &u)
	switch v.Kind() {
	case reflect.Int8:
		v.SetInt(int64(int8(u)))
	case reflect.Int16:
		v.SetInt(int64(int16(u)))
	case reflect.Int32:
		v.SetInt(int64(int32(u)))
	case reflect.Int64, reflect.Int:
		v.SetInt(int64(u))
	case reflect.Float32:
		*(*uint32)(v.Addr().UnsafePointer()) = uint32(u)
	case reflect.Float64:
		*(*uint64)(v.Addr().UnsafePointer()) = u
	default:
		v.SetUint(u)
	}
}

func fill(v reflect.Value, x any) {
	if isNum(v.Kind()) {
		if x != nil {
			setNum(v, x.(string))
		}
		return
	}
	switch v.Kind() {
	case reflect.String:
		if x != nil {
			s := x.(string)
			b, err := hex.DecodeString(strings.TrimPrefix(s, "s:"))
			if err != nil {
				panic("verifdriver: bad string " + s)
			}
			v.SetString(string(b))
		}
	case reflect.Slice:
		if x == nil {
			return // nil slice
		}
		et := v.Type().Elem()
		if isNum(et.Kind()) {
			if s, ok := x.(string); ok {
				w := int(et.Size()) * 2
				n := len(s) / w
				v.Set(reflect.MakeSlice(v.Type(), n, n))
				for i := 0; i < n; i++ {
					setNum(v.Index(i), s[i*w:i*w+w])
				}
				return
			}
		}
		l := x.([]any)
		v.Set(reflect.MakeSlice(v.Type(), len(l), len(l)))
		for i := range l {
			fill(v.Index(i), l[i])
		}
	case reflect.Array:
		if s, ok := x.(string); ok && isNum(v.Type().Elem().Kind()) {
			w := int(v.Type().Elem().Size()) * 2
			for i := 0; i < v.Len(); i++ {
				setNum(v.Index(i), s[i*w:i*w+w])
			}
		}
	case reflect.Interface:
		if m, ok := x.(map[string]any); ok {
			if d := dec(m); d != nil {
				v.Set(reflect.ValueOf(d))
			}
		}
	case reflect.Pointer:
		if x != nil {
			v.Set(reflect.New(v.Type().Elem()))
			fill(v.Elem(), x)
		}
	}
}

func zeros(v reflect.Value, shape []int64) {
	if len(shape) == 0 {
		return
	}
	n := int(shape[0])
	if len(shape) == 2 && shape[1] > 0 { // rows of one array, which is much smaller than arrays of their own
		w := int(shape[1])
		all := reflect.MakeSlice(v.Type().Elem(), n*w, n*w)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := range n {
			v.Index(i).Set(all.Slice3(i*w, i*w+w, i*w+w))
		}
		return
	}
	v.Set(reflect.MakeSlice(v.Type(), n, n))
	for i := range n {
		zeros(v.Index(i), shape[1:])
	}
}

func dec(m any) any {
	if m == nil {
		return nil
	}
	mm := m.(map[string]any)
	if r, ok := mm["ref"]; ok { // a value read earlier
		return stash[r.(string)]
	}
	t := mm["T"].(string)
	if t == "nil" {
		return nil
	}
	v := reflect.New(parseType(t)).Elem()
	if sh, ok := mm["shape"]; ok { // zeros, except for some elements
		zeros(v, nums(sh))
		for _, c := range mm["cells"].([]any) {
			e := v
			for _, i := range nums(c.([]any)[0]) {
				e = e.Index(int(i))
			}
			setNum(e, c.([]any)[1].(string))
		}
		return v.Interface()
	}
	fill(v, mm["V"])
	return v.Interface()
}

// ---------------------------------------------------------------- a file that can fail

var errInjected = errors.New("injected failure")

type plan struct {
	FailAt   int    `json:"fail_at"`   // number of the operation that fails (1 is the first), 0 for none
	FailTo   int    `json:"fail_to"`   // last one that fails; 0 means only FailAt, -1 all after
	Partial  bool   `json:"partial"`   // a failing read returns some bytes as well
	Err      string `json:"err"`       // "", "eof", "unexpected"
	Short    []int  `json:"short"`     // sizes of successive reads, repeated
	FailSeek bool   `json:"only_seek"` // count only seeks
	FailRead bool   `json:"only_read"` // count only reads
	EOFData  bool   `json:"eof_with_data"`
	Armed    bool   `json:"armed"` // counting starts right away
}

type pfile struct {
	f      *os.File
	data   []byte
	pos    int64
	ops    int
	reads  int
	nshort int
	closes int
	after  int // operations after a close
	plan   plan
	fails  int
}

func (p *pfile) fail(isRead bool) bool {
	if !p.plan.Armed {
		return false
	}
	if p.plan.FailSeek && isRead || p.plan.FailRead && !isRead {
		return false
	}
	p.ops++
	if p.plan.FailAt == 0 {
		return false
	}
	to := p.plan.FailTo
	if to == 0 {
		to = p.plan.FailAt
	}
	if p.ops >= p.plan.FailAt && (to < 0 || p.ops <= to) {
		p.fails++
		return true
	}
	return false
}

func (p *pfile) Read(b []byte) (int, error) {
	if p.closes > 0 {
		p.after++
		return 0, os.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if len(p.plan.Short) > 0 {
		k := p.plan.Short[p.nshort%len(p.plan.Short)]
		p.nshort++
		if n > k {
			n = k
		}
	}
	if p.fail(true) {
		m := 0
		if p.plan.Partial && p.pos < int64(len(p.data)) {
			m = copy(b[:(n+1)/2], p.data[p.pos:])
			p.pos += int64(m)
		}
		switch p.plan.Err {
		case "eof":
			return m, io.EOF
		case "unexpected":
			return m, io.ErrUnexpectedEOF
		}
		return m, errInjected
	}
	if p.pos >= int64(len(p.data)) {
		return 0, io.EOF
	}
	m := copy(b[:n], p.data[p.pos:])
	p.pos += int64(m)
	if p.plan.EOFData && p.pos == int64(len(p.data)) {
		return m, io.EOF
	}
	return m, nil
}

func (p *pfile) Seek(off int64, wh int) (int64, error) {
	if p.closes > 0 {
		p.after++
		return 0, os.ErrClosed
	}
	if p.fail(false) {
		return 0, errInjected
	}
	switch wh {
	case io.SeekStart:
	case io.SeekCurrent:
		off += p.pos
	case io.SeekEnd:
		off += int64(len(p.data))
	}
	if off < 0 {
		return 0, errors.New("negative seek")
	}
	p.pos = off
	return off, nil
}

func (p *pfile) Close() error {
	p.closes++
	return nil
}

// ---------------------------------------------------------------- state

var (
	writers = map[string]api.Writer{}
	groups  = map[string]api.Group{}
	getters = map[string]api.VarGetter{}
	files   = map[string]*pfile{}
	maps    = map[string]*util.OrderedMap{}
	stash   = map[string]any{}
	amaps   = map[string]api.AttributeMap{}
)

type op = map[string]any

func str(o op, k string) string {
	s, _ := o[k].(string)
	return s
}

// names travel as hex when they may not be valid UTF-8
func name(o op, k string) string {
	if s, ok := o[k+"_hex"].(string); ok {
		b, _ := hex.DecodeString(s)
		return string(b)
	}
	return str(o, k)
}

func num(x any) int64 {
	switch n := x.(type) {
	case float64:
		return int64(n)
	case json.Number:
		i, err := n.Int64()
		if err != nil {
			panic("verifdriver: bad number")
		}
		return i
	}
	return 0
}

func nums(x any) []int64 {
	if x == nil {
		return nil
	}
	l := x.([]any)
	r := make([]int64, len(l))
	for i := range l {
		r[i] = num(l[i])
	}
	return r
}

func strs(x any) []string {
	if x == nil {
		return nil
	}
	l := x.([]any)
	r := make([]string, len(l))
	for i := range l {
		s := l[i].(string)
		if h, ok := strings.CutPrefix(s, "\x00hex:"); ok {
			b, _ := hex.DecodeString(h)
			s = string(b)
		}
		r[i] = s
	}
	return r
}

func outs(l []string) []string {
	r := make([]string, len(l))
	for i, s := range l {
		r[i] = outStr(s)
	}
	return r
}

// names that are not valid UTF-8 would be changed by the JSON encoder
func outStr(s string) string {
	if strings.ToValidUTF8(s, "") != s {
		return "\x00hex:" + hex.EncodeToString([]byte(s))
	}
	return s
}

func decAttrs(x any) api.AttributeMap {
	if x == nil {
		return nil
	}
	if m, ok := x.(map[string]any); ok {
		if r, ok := m["ref"]; ok {
			return amaps[r.(string)]
		}
		if r, ok := m["om"]; ok {
			return maps[r.(string)]
		}
	}
	l := x.([]any)
	om, err := util.NewOrderedMap([]string{}, map[string]any{})
	if err != nil {
		panic(err)
	}
	for _, e := range l {
		kv := e.([]any)
		k := kv[0].(string)
		if h, ok := strings.CutPrefix(k, "\x00hex:"); ok {
			b, _ := hex.DecodeString(h)
			k = string(b)
		}
		om.Add(k, dec(kv[1]))
	}
	return om
}

func encAttrs(m api.AttributeMap) any {
	if m == nil || reflect.ValueOf(m).Kind() == reflect.Pointer && reflect.ValueOf(m).IsNil() {
		return nil
	}
	out := []any{}
	for _, k := range m.Keys() {
		v, has := m.Get(k)
		t, ok1 := m.GetType(k)
		g, ok2 := m.GetGoType(k)
		e := map[string]any{"name": outStr(k), "has": has, "val": encAny(v), "type": t, "gotype": g}
		if !ok1 || !ok2 {
			e["notype"] = []bool{ok1, ok2}
		}
		out = append(out, e)
	}
	return out
}

func errStr(err error) any {
	if err == nil {
		return nil
	}
	return err.Error()
}

func groupOf(o op) api.Group {
	g, ok := groups[str(o, "g")]
	if !ok {
		panic(noHandle{"group " + str(o, "g")})
	}
	return g
}

func getterOf(o op) api.VarGetter {
	g, ok := getters[str(o, "vg")]
	if !ok {
		panic(noHandle{"getter " + str(o, "vg")})
	}
	return g
}

func writerOf(o op) api.Writer {
	g, ok := writers[str(o, "w")]
	if !ok {
		panic(noHandle{"writer " + str(o, "w")})
	}
	return g
}

// an attribute map built here ("om:NAME") or read from a file
func amapOf(o op) api.AttributeMap {
	n := str(o, "am")
	if k, ok := strings.CutPrefix(n, "om:"); ok {
		if m := maps[k]; m != nil {
			return m
		}
	} else if m := amaps[n]; m != nil {
		return m
	}
	panic(noHandle{"map " + n})
}

type noHandle struct{ s string }

type result struct {
	R     any    `json:"r"`
	Err   any    `json:"err"`
	Panic any    `json:"panic,omitempty"`
	NoH   string `json:"nohandle,omitempty"`
}

func isNil(x any) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

func exec(o op) (res result) {
	defer func() {
		if r := recover(); r != nil {
			if nh, ok := r.(noHandle); ok {
				res = result{NoH: nh.s}
				return
			}
			res = result{Panic: fmt.Sprint(r)}
		}
	}()
	switch str(o, "op") {
	// ------------------------------------------------ writers
	case "openw":
		k := netcdf.KindCDF
		if str(o, "kind") == "hdf5" {
			k = netcdf.KindHDF5
		}
		if n, ok := o["kindnum"]; ok {
			k = netcdf.FileKind(num(n))
		}
		w, err := netcdf.OpenWriter(str(o, "path"), k)
		if err == nil {
			writers[str(o, "w")] = w
		}
		return result{Err: errStr(err)}
	case "addvar":
		v := api.Variable{Values: dec(o["val"]), Dimensions: strs(o["dims"]), Attributes: decAttrs(o["attrs"])}
		return result{Err: errStr(writerOf(o).AddVar(name(o, "name"), v))}
	case "addattrs":
		return result{Err: errStr(writerOf(o).AddAttributes(decAttrs(o["attrs"])))}
	case "creategroup":
		w, err := writerOf(o).CreateGroup(name(o, "name"))
		if err == nil {
			writers[str(o, "as")] = w
		}
		return result{Err: errStr(err)}
	case "closew":
		return result{Err: errStr(writerOf(o).Close())}
	case "forgetw":
		delete(writers, str(o, "w"))
		return result{}
	// ------------------------------------------------ opening and closing
	case "open":
		g, err := netcdf.Open(str(o, "path"))
		if err == nil {
			groups[str(o, "as")] = g
		} else if !isNil(g) {
			return result{R: "handle and error", Err: errStr(err)}
		}
		return result{Err: errStr(err)}
	case "file":
		f := &pfile{}
		if d, ok := o["data"].(string); ok {
			b, err := hex.DecodeString(d)
			if err != nil {
				panic(err)
			}
			f.data = b
		} else {
			b, err := os.ReadFile(str(o, "path"))
			if err != nil {
				panic(err)
			}
			f.data = b
		}
		if n, ok := o["cut"]; ok {
			f.data = f.data[:num(n)]
		}
		if l, ok := o["patch"].([]any); ok {
			for _, e := range l {
				p := nums(e)
				f.data[p[0]] = byte(p[1])
			}
		}
		setPlan(f, o)
		files[str(o, "as")] = f
		return result{R: len(f.data)}
	case "plan":
		f := files[str(o, "f")]
		f.ops, f.nshort, f.fails = 0, 0, 0
		if o["rewind"] != nil {
			f.pos = 0
		}
		setPlan(f, o)
		return result{}
	case "fstat":
		f := files[str(o, "f")]
		return result{R: map[string]any{"closes": f.closes, "after": f.after, "ops": f.ops, "fails": f.fails}}
	case "fclose":
		files[str(o, "f")].closes++
		return result{}
	case "new":
		g, err := netcdf.New(files[str(o, "f")])
		if err == nil {
			groups[str(o, "as")] = g
		} else if !isNil(g) {
			return result{R: "handle and error", Err: errStr(err)}
		}
		return result{Err: errStr(err)}
	case "closeg":
		groupOf(o).Close()
		return result{}
	case "forgetg":
		delete(groups, str(o, "g"))
		return result{}
	case "try":
		return result{R: try(o)}
	case "tryall":
		return result{R: tryAll(o)}
	case "fsize": // the files that are written cannot become longer than this
		signal.Ignore(syscall.SIGXFSZ)
		var l syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			panic(err)
		}
		l.Cur = l.Max
		if n := num(o["n"]); n >= 0 {
			l.Cur = uint64(n)
		}
		return result{Err: errStr(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))}
	case "sum":
		b, err := os.ReadFile(str(o, "path"))
		return result{R: fmt.Sprintf("%x", sha256.Sum256(b)), Err: errStr(err)}
	case "fds":
		n := 0
		want := str(o, "path")
		es, _ := os.ReadDir("/proc/self/fd")
		for _, e := range es {
			t, err := os.Readlink(filepath.Join("/proc/self/fd", e.Name()))
			if err == nil && t == want {
				n++
			}
		}
		return result{R: n}
	// ------------------------------------------------ reading
	case "listvars":
		return result{R: outs(groupOf(o).ListVariables())}
	case "listgroups":
		return result{R: outs(groupOf(o).ListSubgroups())}
	case "listdims":
		return result{R: outs(groupOf(o).ListDimensions())}
	case "listtypes":
		return result{R: outs(groupOf(o).ListTypes())}
	case "getdim":
		n, ok := groupOf(o).GetDimension(name(o, "name"))
		return result{R: []any{n, ok}}
	case "gettype":
		n, ok := groupOf(o).GetType(name(o, "name"))
		return result{R: []any{n, ok}}
	case "getgotype":
		n, ok := groupOf(o).GetGoType(name(o, "name"))
		return result{R: []any{n, ok}}
	case "attrs":
		return result{R: encAttrs(groupOf(o).Attributes())}
	case "getgroup":
		g, err := groupOf(o).GetGroup(name(o, "name"))
		if err == nil {
			groups[str(o, "as")] = g
		} else if !isNil(g) {
			return result{R: "handle and error", Err: errStr(err)}
		}
		return result{Err: errStr(err)}
	case "getvar":
		v, err := groupOf(o).GetVariable(name(o, "name"))
		if err != nil {
			if v != nil {
				return result{R: "value and error", Err: errStr(err)}
			}
			return result{Err: errStr(err)}
		}
		if s := str(o, "stash"); s != "" {
			stash[s] = v.Values
			amaps[s] = v.Attributes
		}
		r := map[string]any{"val": encAny(v.Values), "dims": v.Dimensions}
		if o["noattrs"] == nil {
			r["attrs"] = encAttrs(v.Attributes)
		}
		return result{R: r}
	case "stashattrs":
		amaps[str(o, "stash")] = groupOf(o).Attributes()
		return result{}
	case "getter":
		g, err := groupOf(o).GetVarGetter(name(o, "name"))
		if err != nil {
			if !isNil(g) {
				return result{R: "getter and error", Err: errStr(err)}
			}
			return result{Err: errStr(err)}
		}
		getters[str(o, "as")] = g
		return result{}
	case "ginfo":
		g := getterOf(o)
		r := map[string]any{"len": g.Len(), "shape": g.Shape(), "dims": g.Dimensions(), "type": g.Type(), "gotype": g.GoType()}
		if o["noattrs"] == nil {
			r["attrs"] = encAttrs(g.Attributes())
		}
		return result{R: r}
	case "gvalues":
		v, err := getterOf(o).Values()
		return valueResult(o, v, err)
	case "gslice":
		v, err := getterOf(o).GetSlice(num(o["b"]), num(o["e"]))
		return valueResult(o, v, err)
	case "gslicemd":
		v, err := getterOf(o).GetSliceMD(nums(o["b"]), nums(o["e"]))
		return valueResult(o, v, err)
	case "dump":
		return result{R: dump(groupOf(o), o["notypes"] != nil)}
	// ------------------------------------------------ attribute maps
	case "om_new":
		var vals map[string]any
		if l, ok := o["vals"].([]any); ok {
			vals = map[string]any{}
			for _, e := range l {
				kv := e.([]any)
				vals[kv[0].(string)] = dec(kv[1])
			}
		}
		var keys []string
		if o["keys"] != nil {
			keys = strs(o["keys"])
		}
		m, err := util.NewOrderedMap(keys, vals)
		if err == nil {
			maps[str(o, "as")] = m
		} else if m != nil {
			return result{R: "map and error", Err: errStr(err)}
		}
		return result{Err: errStr(err)}
	case "om_add":
		maps[str(o, "om")].Add(name(o, "key"), dec(o["val"]))
		return result{}
	case "om_hide":
		maps[str(o, "om")].Hide(name(o, "key"))
		return result{}
	case "om_get":
		v, has := maps[str(o, "om")].Get(name(o, "key"))
		return result{R: []any{encAny(v), has}}
	case "om_keys":
		return result{R: outs(maps[str(o, "om")].Keys())}
	case "am_keys":
		return result{R: outs(amapOf(o).Keys())}
	case "am_get":
		v, has := amapOf(o).Get(name(o, "key"))
		return result{R: []any{encAny(v), has}}
	case "am_type":
		v, has := amapOf(o).GetType(name(o, "key"))
		return result{R: []any{v, has}}
	case "am_gotype":
		v, has := amapOf(o).GetGoType(name(o, "key"))
		return result{R: []any{v, has}}
	case "om_keys_mutate": // what the caller does with a returned list is its own affair
		ks := maps[str(o, "om")].Keys()
		sort.Sort(sort.Reverse(sort.StringSlice(ks)))
		for i := range ks {
			ks[i] = "zz"
		}
		return result{}
	case "om_type":
		v, has := maps[str(o, "om")].GetType(name(o, "key"))
		return result{R: []any{v, has}}
	case "om_gotype":
		v, has := maps[str(o, "om")].GetGoType(name(o, "key"))
		return result{R: []any{v, has}}
	}
	panic("verifdriver: unknown op " + str(o, "op"))
}

func setPlan(f *pfile, o op) {
	f.plan = plan{}
	if p, ok := o["plan"]; ok {
		b, _ := json.Marshal(p)
		if err := json.Unmarshal(b, &f.plan); err != nil {
			panic(err)
		}
	}
}

// try attempts an operation on a new handle while the file fails, and again when it does not.
func try(o op) any {
	list := func(k string) []op {
		var r []op
		if l, ok := o[k].([]any); ok {
			for _, e := range l {
				r = append(r, e.(map[string]any))
			}
		}
		return r
	}
	inner := o["inner"].(map[string]any)
	start := func() *pfile {
		exec(op{"op": "file", "as": "try", "path": o["path"], "plan": map[string]any{"short": o["short"]}})
		for _, x := range list("setup") {
			exec(x)
		}
		return files["try"]
	}
	plan := map[string]any{"armed": true, "short": o["short"]}
	if m, ok := o["plan"].(map[string]any); ok {
		for k, v := range m {
			plan[k] = v
		}
	}
	end := func() {
		for _, n := range []string{"ti", "tg", "th"} {
			if g, ok := groups[n]; ok {
				g.Close()
				delete(groups, n)
			}
		}
		delete(getters, "tv")
	}
	f := start()
	exec(op{"op": "plan", "f": "try", "plan": plan})
	exec(inner)
	n := f.ops
	end()
	if n == 0 {
		return map[string]any{"n": 0}
	}
	k := 1 + int(num(o["at"]))*n/1000
	if x, ok := o["k"]; ok {
		k = int(num(x))
	}
	f = start()
	plan["fail_at"] = k
	exec(op{"op": "plan", "f": "try", "plan": plan})
	r := map[string]any{"n": n, "k": k}
	r["first"] = exec(inner)
	r["fails"] = f.fails
	r["closes"] = f.closes
	if g, ok := groups["ti"]; ok {
		g.Close()
		delete(groups, "ti")
	}
	r["made"] = f.closes
	if f.closes == 0 {
		exec(op{"op": "plan", "f": "try", "rewind": true, "plan": map[string]any{"short": o["short"]}})
		r["second"] = exec(inner)
	}
	end()
	r["end"] = f.closes
	return r
}

// tryAll attempts each operation with a failure at every point, and tells which attempts
// ended neither with an error nor like an attempt without failures.
func tryAll(o op) any {
	limit := int(num(o["limit"]))
	bad := []any{}
	tries, errs, rights := 0, 0, 0
	js := func(x any) string {
		b, _ := json.Marshal(x)
		return string(b)
	}
	for _, inner := range o["inners"].([]any) {
		for _, m := range o["modes"].([]any) {
			n := -1
			for i := 0; n < 0 || i < min(n, limit); i++ {
				k := i + 1
				if n > limit {
					k = 1 + i*n/limit
				}
				x := op{"path": o["path"], "short": o["short"], "setup": o["setup"], "inner": inner, "plan": m, "k": json.Number(fmt.Sprint(k))}
				r := try(x).(map[string]any)
				n = r["n"].(int)
				if n == 0 {
					break
				}
				tries++
				what := ""
				first := r["first"].(result)
				second, again := r["second"].(result)
				switch {
				case first.Panic != nil:
					what = "panic"
				case again && (second.Panic != nil || second.Err != nil):
					what = "fails afterwards"
				case first.Err != nil && first.R != nil:
					what = "value and error"
				case first.Err != nil:
					errs++
				case again && js(first.R) != js(second.R):
					what = "no error"
				default:
					rights++
				}
				if r["end"].(int) != 1 {
					what = "closes"
				}
				if what != "" {
					bad = append(bad, map[string]any{"what": what, "inner": inner, "plan": m, "try": r})
					if len(bad) > 3 {
						return map[string]any{"tries": tries, "errors": errs, "rights": rights, "bad": bad}
					}
				}
			}
		}
	}
	return map[string]any{"tries": tries, "errors": errs, "rights": rights, "bad": bad}
}

func valueResult(o op, v any, err error) result {
	if err != nil {
		if v != nil {
			return result{R: "value and error", Err: errStr(err)}
		}
		return result{Err: errStr(err)}
	}
	if s := str(o, "stash"); s != "" {
		stash[s] = v
	}
	return result{R: encAny(v)}
}

// dump reads everything a group offers; errors are part of the result.
func dump(g api.Group, notypes bool) any {
	out := map[string]any{}
	out["attrs"] = encAttrs(g.Attributes())
	dims := []any{}
	for _, d := range g.ListDimensions() {
		n, ok := g.GetDimension(d)
		if !ok {
			dims = append(dims, []any{outStr(d), nil})
			continue
		}
		dims = append(dims, []any{outStr(d), n})
	}
	out["dims"] = dims
	vars := []any{}
	for _, n := range g.ListVariables() {
		e := map[string]any{"name": outStr(n)}
		v, err := g.GetVariable(n)
		if err != nil {
			e["err"] = err.Error()
		} else {
			e["val"] = encAny(v.Values)
			e["dims"] = v.Dimensions
			e["attrs"] = encAttrs(v.Attributes)
		}
		vg, err := g.GetVarGetter(n)
		if err != nil {
			e["gerr"] = err.Error()
		} else {
			e["shape"] = vg.Shape()
			e["len"] = vg.Len()
			e["type"] = vg.Type()
			e["gotype"] = vg.GoType()
			e["gdims"] = vg.Dimensions()
		}
		vars = append(vars, e)
	}
	out["vars"] = vars
	if !notypes {
		types := []any{}
		for _, t := range g.ListTypes() {
			a, ok1 := g.GetType(t)
			b, ok2 := g.GetGoType(t)
			types = append(types, []any{outStr(t), a, b, ok1 && ok2})
		}
		out["types"] = types
	}
	subs := []any{}
	for _, s := range g.ListSubgroups() {
		sg, err := g.GetGroup(s)
		if err != nil {
			subs = append(subs, map[string]any{"name": outStr(s), "err": err.Error()})
			continue
		}
		d := dump(sg, notypes).(map[string]any)
		d["name"] = outStr(s)
		sg.Close()
		subs = append(subs, d)
	}
	out["groups"] = subs
	return out
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	// the library may print; keep our channel separate
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	os.Stdout = os.Stderr
	e := json.NewEncoder(out)
	e.SetEscapeHTML(false)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			return
		}
		var ops []op
		d := json.NewDecoder(strings.NewReader(string(line)))
		d.UseNumber()
		if err := d.Decode(&ops); err != nil {
			fmt.Fprintln(os.Stderr, "verifdriver: bad script:", err)
			os.Exit(97)
		}
		clear(writers)
		for _, g := range groups {
			func() {
				defer func() { _ = recover() }()
				_ = g
			}()
		}
		clear(groups)
		clear(getters)
		clear(files)
		clear(maps)
		clear(stash)
		clear(amaps)
		for _, o := range ops {
			r := exec(o)
			if err := e.Encode(r); err != nil {
				fmt.Fprintln(os.Stderr, "verifdriver: cannot encode:", err)
				os.Exit(97)
			}
			out.Flush()
		}
		out.WriteString("END\n")
		out.Flush()
	}
}
