// Package vdump prints values without addresses.  It is not rewritten, so
// nothing is scheduled inside it.
package vdump

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
)

// Dump prints i in full.
func Dump(i interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(i), 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, d int) {
	if d > 12 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dump(b, v.Elem(), d+1)
	case reflect.Interface:
		dump(b, v.Elem(), d+1)
	case reflect.Struct:
		fmt.Fprintf(b, "%s{", v.Type())
		for i := 0; i < v.NumField(); i++ {
			fmt.Fprintf(b, "%s:", v.Type().Field(i).Name)
			dump(b, v.Field(i), d+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%x", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), d+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString(v.Type().String())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// Clean replaces addresses.
func Clean(s string) string { return addr.ReplaceAllString(s, "0x..") }

var addr = regexp.MustCompile("0x[0-9a-f]{8,}")
