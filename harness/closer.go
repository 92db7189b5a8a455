package main

import (
	"reflect"
	"strings"
	"unsafe"

	zanzi "github.com/sourcenetwork/zanzi"
)

// An instance cannot be closed, so an on-disk one keeps its memory for the life of the process.
// closeDisk looks for the database inside it and closes it, only to let a long run go on; no
// verdict depends on it, and nothing happens if it finds none. The instance is not used afterwards.
func closeDisk(zs ...*zanzi.Zanzi) {
	for _, z := range zs {
		func() {
			defer func() { recover() }()
			findDisk(reflect.ValueOf(z).Elem(), map[unsafe.Pointer]bool{}, 0)
		}()
	}
}

func findDisk(v reflect.Value, seen map[unsafe.Pointer]bool, depth int) {
	if depth > 20 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			findDisk(v.Elem(), seen, depth+1)
		}
	case reflect.Pointer:
		if v.IsNil() || seen[v.UnsafePointer()] {
			return
		}
		seen[v.UnsafePointer()] = true
		if strings.HasSuffix(v.Type().String(), "GoLevelDB") {
			if c, ok := reflect.NewAt(v.Type().Elem(), v.UnsafePointer()).Interface().(interface{ Close() error }); ok {
				c.Close()
			}
			return
		}
		findDisk(v.Elem(), seen, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			findDisk(v.Field(i), seen, depth+1)
		}
	}
}
