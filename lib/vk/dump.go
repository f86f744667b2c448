package vk

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Dump writes the complete contents of a value, unexported fields included and
// pointers followed, so that two values with equal dumps have the same
// future. Functions are identified by their code pointer only.
func Dump(v any) string {
	var b strings.Builder
	d := dumper{b: &b, seen: map[uintptr]int{}}
	d.dump(reflect.ValueOf(v), 0)
	return b.String()
}

type dumper struct {
	b    *strings.Builder
	seen map[uintptr]int
}

func (d *dumper) dump(v reflect.Value, depth int) {
	b := d.b
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 40 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(b, v.Complex())
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("[]")
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			d.dump(v.Index(i), depth+1)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Map:
		b.WriteString("map{")
		var es []string
		it := v.MapRange()
		for it.Next() {
			var sb strings.Builder
			dd := dumper{b: &sb, seen: d.seen}
			dd.dump(it.Key(), depth+1)
			sb.WriteByte(':')
			dd.dump(it.Value(), depth+1)
			es = append(es, sb.String())
		}
		sort.Strings(es)
		b.WriteString(strings.Join(es, ","))
		b.WriteByte('}')
	case reflect.Struct:
		switch v.Type().String() {
		case "sync.Pool", "os.File": // keep nothing that may matter here
			return
		case "bufio.Writer": // only what is waiting, not what was written
			n := int(v.FieldByName("n").Int())
			d.dump(v.FieldByName("err"), depth+1)
			d.dump(v.FieldByName("buf").Slice(0, n), depth+1)
			fmt.Fprint(b, "/", v.FieldByName("buf").Len())
			d.dump(v.FieldByName("wr"), depth+1)
			return
		}
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			d.dump(v.Field(i), depth+1)
			b.WriteByte(';')
		}
		b.WriteByte('}')
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		p := v.Pointer()
		if n, ok := d.seen[p]; ok && v.Elem().Kind() == reflect.Struct {
			fmt.Fprintf(b, "&%d", n)
			return
		}
		d.seen[p] = len(d.seen)
		b.WriteByte('&')
		d.dump(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String())
		d.dump(v.Elem(), depth+1)
	case reflect.Func:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			fmt.Fprintf(b, "func%x", v.Pointer())
		}
	case reflect.Chan, reflect.UnsafePointer:
		b.WriteString("chan")
	}
}
