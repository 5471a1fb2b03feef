package hx

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Opaque values are not part of a dumped state.
type Opaque interface{ Opaque() }

var opaqueT = reflect.TypeOf((*Opaque)(nil)).Elem()

type dumper struct {
	b      []byte
	seen   map[uintptr]int
	rename func(string) string
}

// Dump renders everything reachable from v (unexported fields included) canonically: pointers are numbered in order
// of first visit, maps are sorted, synchronisation objects, functions, channels and foreign packages are left out.
// rename maps every string (to canonicalise generated identifiers); nil keeps them.
func Dump(rename func(string) string, vs ...any) string {
	d := &dumper{seen: map[uintptr]int{}, rename: rename}
	for _, v := range vs {
		d.val(reflect.ValueOf(v))
		d.b = append(d.b, ';')
	}
	return string(d.b)
}

// DumpSkip leaves more types out, DumpAlso are further packages to render.
var (
	DumpSkip func(t reflect.Type) bool
	DumpAlso []string
)

const modPath = "github.com/DanLavine/willow"

func skipType(t reflect.Type) bool {
	p := t.PkgPath()
	if p == "" {
		return false
	}
	if DumpSkip != nil && DumpSkip(t) {
		return true
	}
	for _, a := range DumpAlso {
		if p == a {
			return false
		}
	}
	if strings.HasPrefix(p, modPath+"/verifmc/h/") {
		return false
	}
	if strings.HasPrefix(p, modPath+"/verifmc/") {
		return !strings.HasSuffix(p, "/vatomic")
	}
	return !strings.HasPrefix(p, modPath) && p != "main" && p != "time"
}

func (d *dumper) val(v reflect.Value) {
	if !v.IsValid() {
		d.b = append(d.b, '_')
		return
	}
	t := v.Type()
	if t.Implements(opaqueT) || skipType(t) {
		d.b = append(d.b, '~')
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		d.b = strconv.AppendBool(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b = strconv.AppendInt(d.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		d.b = strconv.AppendUint(d.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		d.b = strconv.AppendFloat(d.b, v.Float(), 'g', -1, 64)
	case reflect.Complex64, reflect.Complex128:
		d.b = append(d.b, fmt.Sprint(v.Complex())...)
	case reflect.String:
		s := v.String()
		if d.rename != nil {
			s = d.rename(s)
		}
		d.b = strconv.AppendQuote(d.b, s)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			d.b = append(d.b, '_')
		} else {
			d.b = append(d.b, '~')
		}
	case reflect.Pointer:
		if v.IsNil() {
			d.b = append(d.b, '_')
			return
		}
		if skipType(t.Elem()) {
			d.b = append(d.b, '~')
			return
		}
		p := v.Pointer()
		if n, ok := d.seen[p]; ok && t.Elem().Size() > 0 {
			d.b = append(d.b, '#')
			d.b = strconv.AppendInt(d.b, int64(n), 10)
			return
		}
		d.seen[p] = len(d.seen)
		d.b = append(d.b, '&')
		d.val(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.b = append(d.b, '_')
			return
		}
		e := v.Elem()
		d.b = append(d.b, e.Type().String()...)
		d.b = append(d.b, ':')
		d.val(e)
	case reflect.Slice:
		if v.IsNil() {
			d.b = append(d.b, '_')
			return
		}
		fallthrough
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			var bs []byte
			for i := 0; i < v.Len(); i++ {
				bs = append(bs, byte(v.Index(i).Uint()))
			}
			s := string(bs)
			if d.rename != nil {
				s = d.rename(s)
			}
			d.b = strconv.AppendQuote(d.b, s)
			return
		}
		d.b = append(d.b, '[')
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
			d.b = append(d.b, ',')
		}
		d.b = append(d.b, ']')
	case reflect.Map:
		if v.IsNil() {
			d.b = append(d.b, '_')
			return
		}
		type kv struct {
			k string
			v reflect.Value
		}
		var l []kv
		it := v.MapRange()
		for it.Next() {
			kd := &dumper{seen: map[uintptr]int{}, rename: d.rename}
			kd.val(it.Key())
			l = append(l, kv{string(kd.b), it.Value()})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		d.b = append(d.b, '{')
		for _, e := range l {
			d.b = append(d.b, e.k...)
			d.b = append(d.b, ':')
			d.val(e.v)
			d.b = append(d.b, ',')
		}
		d.b = append(d.b, '}')
	case reflect.Struct:
		d.b = append(d.b, '{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if t.Field(i).Name == "_" || skipType(f.Type()) || (f.Kind() == reflect.Pointer && skipType(f.Type().Elem())) {
				continue
			}
			if t.PkgPath() == "time" && f.Kind() == reflect.Pointer {
				continue
			}
			d.val(f)
			d.b = append(d.b, ',')
		}
		d.b = append(d.b, '}')
	}
}
