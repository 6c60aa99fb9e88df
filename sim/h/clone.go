package h

import (
	"fmt"
	"reflect"
	"unsafe"

	"www.velocidex.com/golang/vfilter"
)

// Parsing takes longer than most runs: a program is parsed once, never
// evaluated, and every run gets a deep copy.

var parsedText string
var parsedAST []*vfilter.VQL

func parseProg(text string) []*vfilter.VQL {
	if text != parsedText || parsedAST == nil {
		v, err := vfilter.MultiParse(text)
		if err != nil {
			panic(fmt.Sprintf("harness: generated program does not parse: %v\n%s", err, text))
		}
		parsedText, parsedAST = text, v
	}
	res := reflect.New(reflect.TypeOf(parsedAST))
	(&cloner{map[clonePtr]reflect.Value{}}).copy(res.Elem(), reflect.ValueOf(&parsedAST).Elem())
	return res.Elem().Interface().([]*vfilter.VQL)
}

type clonePtr struct {
	p unsafe.Pointer
	t reflect.Type
}

type cloner struct{ seen map[clonePtr]reflect.Value }

var plainTypes = map[reflect.Type]bool{}

// plain: values of the type hold no reference to something mutable.
func plain(t reflect.Type) bool {
	if v, ok := plainTypes[t]; ok {
		return v
	}
	r := true
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
		r = false
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			r = r && plain(t.Field(i).Type)
		}
	case reflect.Array:
		r = plain(t.Elem())
	}
	plainTypes[t] = r
	return r
}

// copy: both are addressable, dst is zero.
func (c *cloner) copy(dst, src reflect.Value) {
	t := src.Type()
	if plain(t) {
		dst.Set(src)
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		k := clonePtr{src.UnsafePointer(), t}
		n, ok := c.seen[k]
		if !ok {
			n = reflect.New(t.Elem())
			c.seen[k] = n
			c.copy(n.Elem(), src.Elem())
		}
		dst.Set(n.Convert(t))
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		s := reflect.MakeSlice(t, src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			c.copy(s.Index(i), src.Index(i))
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			c.copy(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			c.copy(open(dst.Field(i)), open(src.Field(i)))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		m := reflect.MakeMap(t)
		it := src.MapRange()
		for it.Next() {
			v := reflect.New(t.Elem()).Elem()
			s := reflect.New(t.Elem()).Elem()
			s.Set(it.Value())
			c.copy(v, s)
			m.SetMapIndex(it.Key(), v)
		}
		dst.Set(m)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		s := reflect.New(src.Elem().Type()).Elem()
		s.Set(src.Elem())
		v := reflect.New(s.Type()).Elem()
		c.copy(v, s)
		dst.Set(v)
	default:
		dst.Set(src)
	}
}

func open(v reflect.Value) reflect.Value {
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}
