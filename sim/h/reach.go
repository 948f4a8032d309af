package main

import (
	"reflect"
	"sort"
	"unsafe"
)

// reachableBytes adds up the lengths of all byte slices and strings reachable from v,
// counting overlapping memory once; simulated files and library globals end the walk.
func reachableBytes(v interface{}) int64 {
	type iv struct{ lo, hi uintptr }
	var ivs []iv
	seen := map[unsafe.Pointer]bool{}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 20 || !v.IsValid() {
			return
		}
		if pk := v.Type().PkgPath(); pk == "verifsim/rt" {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[v.UnsafePointer()] {
				return
			}
			seen[v.UnsafePointer()] = true
			walk(v.Elem(), depth+1)
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), depth+1)
			}
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				if v.Len() > 0 {
					p := uintptr(v.UnsafePointer())
					ivs = append(ivs, iv{p, p + uintptr(v.Len())})
				}
				return
			}
			for i := 0; i < v.Len() && i < 100000; i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Array:
			for i := 0; i < v.Len() && i < 1000; i++ {
				walk(v.Index(i), depth+1)
			}
		case reflect.Map:
			it := v.MapRange()
			for it.Next() {
				walk(it.Key(), depth+1)
				walk(it.Value(), depth+1)
			}
		case reflect.String:
			s := v.String()
			if len(s) > 0 {
				p := uintptr(unsafe.Pointer(unsafe.StringData(s)))
				ivs = append(ivs, iv{p, p + uintptr(len(s))})
			}
		}
	}
	walk(reflect.ValueOf(v), 0)
	sort.Slice(ivs, func(i, j int) bool { return ivs[i].lo < ivs[j].lo })
	var total int64
	var end uintptr
	for _, x := range ivs {
		lo := x.lo
		if lo < end {
			lo = end
		}
		if x.hi > lo {
			total += int64(x.hi - lo)
			end = x.hi
		}
	}
	return total
}
