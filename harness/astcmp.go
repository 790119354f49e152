package main

import (
	"fmt"
	"reflect"
)

// diffAST compares two values structurally: exported fields only, nil and
// empty slices are the same, pointers are followed, interface values must
// have the same concrete type. It returns "" or the first difference.
func diffAST(x, y interface{}) string {
	return diffVal(reflect.ValueOf(x), reflect.ValueOf(y), "")
}

func diffVal(x, y reflect.Value, path string) string {
	if x.IsValid() != y.IsValid() {
		return fmt.Sprintf("%s: %v vs %v", path, show(x), show(y))
	}
	if !x.IsValid() {
		return ""
	}
	if x.Type() != y.Type() {
		return fmt.Sprintf("%s: type %v vs %v", path, x.Type(), y.Type())
	}
	switch x.Kind() {
	case reflect.Ptr, reflect.Interface:
		if x.IsNil() || y.IsNil() {
			if x.IsNil() != y.IsNil() {
				return fmt.Sprintf("%s: %v vs %v", path, show(x), show(y))
			}
			return ""
		}
		return diffVal(x.Elem(), y.Elem(), path)
	case reflect.Struct:
		t := x.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" && !t.Field(i).Anonymous {
				continue
			}
			if d := diffVal(x.Field(i), y.Field(i), path+"."+t.Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if x.Len() != y.Len() {
			return fmt.Sprintf("%s: length %d vs %d: %v vs %v", path, x.Len(), y.Len(), show(x), show(y))
		}
		for i := 0; i < x.Len(); i++ {
			if d := diffVal(x.Index(i), y.Index(i), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Int, reflect.Int64, reflect.Int32:
		if x.Int() != y.Int() {
			return fmt.Sprintf("%s: %v vs %v", path, x.Int(), y.Int())
		}
		return ""
	case reflect.Float64:
		if x.Float() != y.Float() {
			return fmt.Sprintf("%s: %v vs %v", path, x.Float(), y.Float())
		}
		return ""
	case reflect.Bool:
		if x.Bool() != y.Bool() {
			return fmt.Sprintf("%s: %v vs %v", path, x.Bool(), y.Bool())
		}
		return ""
	case reflect.String:
		if x.String() != y.String() {
			return fmt.Sprintf("%s: %q vs %q", path, x.String(), y.String())
		}
		return ""
	}
	return fmt.Sprintf("%s: unexpected kind %v", path, x.Kind())
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	return clip(fmt.Sprintf("%+v", v), 200)
}
