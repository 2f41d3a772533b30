package wwcheck

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// val is a serialisable description of a nested value
type val struct {
	K string         `json:",omitempty"` // kind
	S string         `json:",omitempty"`
	N float64        `json:",omitempty"`
	L []val          `json:",omitempty"`
	M map[string]val `json:",omitempty"`
}

var jsonKinds = []string{"nil", "str", "num", "bool", "list", "map", "list", "map"}
var goKinds = append([]string{"strs", "ints", "strmap", "bytes", "maps", "lists", "nilmap", "nilslice", "int",
	"cap", "mapslice", "intmap", "named", "namedmap", "time", "array", "uint64", "nilmaps", "lists2", "lists3", "struct"}, jsonKinds...)

// parserKinds can't be encoded in every case
var parserKinds = append([]string{"anymap", "nilkey", "func", "complex", "deep", "longlist", "bigmap"}, goKinds...)

// valStruct holds values by its fields
type valStruct struct {
	List   []string
	V      interface{}
	Nested [1]struct{ M map[string]interface{} }
	at     time.Time
}

type namedList []string
type namedMap map[namedKey]interface{}
type namedKey string

func genVal(t *rapid.T, depth int, kinds []string) (v val) {
	v.K = rapid.SampledFrom(kinds).Draw(t, "kind")
	if depth < 1 && (v.K == "list" || v.K == "map" || v.K == "maps" || v.K == "lists" || v.K == "mapslice" ||
		v.K == "intmap" || v.K == "namedmap" || v.K == "anymap" || v.K == "lists2" || v.K == "lists3" || v.K == "struct") {
		v.K = "str"
	}
	switch v.K {
	case "str":
		v.S = rapid.OneOf(rapid.SampledFrom([]string{"", "a", "<&>\"\\", "\u0000\u2028", "日本", "\U0001F600",
			"null"}), rapid.StringN(0, 12, 24)).Draw(t, "str")
	case "num":
		v.N = rapid.OneOf(rapid.SampledFrom([]float64{0, 1, -1, 0.1, 1e300, -1e-300, 1 << 53, 1<<53 + 2, -1 << 60, 1e15, 1e21, math.MaxFloat64}),
			rapid.Map(rapid.IntRange(-1000, 1000), func(n int) float64 { return float64(n) })).Draw(t, "num")
	case "bool", "int":
		v.N = float64(rapid.IntRange(0, 1).Draw(t, "bool"))
	case "list", "maps", "lists", "intmap", "namedmap", "anymap", "lists2", "lists3", "struct":
		v.L = genVals(t, depth, kinds)
	case "map", "mapslice":
		v.M = genFields(t, depth, kinds, 3)
	case "strs", "ints", "strmap", "bytes", "cap":
		v.N = float64(rapid.IntRange(0, 3).Draw(t, "len"))
	case "deep":
		v.N = float64(rapid.SampledFrom([]int{4, 10, 20, 33, 70, 130, 300}).Draw(t, "depth"))
	case "longlist", "bigmap":
		v.N = float64(rapid.SampledFrom([]int{2, 20, 70, 130, 256, 257, 300, 1100}).Draw(t, "manyElems"))
	}
	return
}

func genVals(t *rapid.T, depth int, kinds []string) (l []val) {
	n := rapid.IntRange(0, 3).Draw(t, "n")
	for i := 0; i < n; i++ {
		l = append(l, genVal(t, depth-1, kinds))
	}
	return
}

func genFields(t *rapid.T, depth int, kinds []string, max int) map[string]val {
	m := map[string]val{}
	n := rapid.IntRange(0, max).Draw(t, "fields")
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]string{"a", "b", "k", "c", "i", "", "field", "ä<", "A"}).Draw(t, "name")
		m[k] = genVal(t, depth-1, kinds)
	}
	return m
}

func (v val) build() interface{} {
	n := int(v.N)
	switch v.K {
	case "str":
		return v.S
	case "num":
		return v.N
	case "int":
		return n
	case "bool":
		return n == 1
	case "list":
		l := make([]interface{}, 0, len(v.L)+1)
		for _, e := range v.L {
			l = append(l, e.build())
		}
		return l
	case "map":
		return buildMap(v.M)
	case "lists":
		l := make([][]interface{}, len(v.L))
		for i, e := range v.L {
			l[i] = []interface{}{e.build(), nil}
		}
		return l
	case "maps":
		l := make([]map[string]interface{}, len(v.L))
		for i, e := range v.L {
			l[i] = map[string]interface{}{"x": e.build()}
		}
		return l
	case "mapslice":
		m := map[string][]interface{}{}
		for k, e := range v.M {
			m[k] = []interface{}{e.build()}
		}
		return m
	case "strs":
		l := make([]string, n)
		for i := range l {
			l[i] = fmt.Sprint("s", i)
		}
		return l
	case "ints":
		l := make([]int, n)
		for i := range l {
			l[i] = i + 7
		}
		return l
	case "bytes":
		l := make([]byte, n)
		for i := range l {
			l[i] = byte(i + 9)
		}
		return l
	case "cap":
		return append(make([]string, 0, n+4), "x")
	case "strmap":
		m := map[string]string{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = fmt.Sprint(i)
		}
		return m
	case "intmap":
		m := map[int]interface{}{}
		for i, e := range v.L {
			m[i-1] = e.build()
		}
		return m
	case "anymap":
		m := map[interface{}]interface{}{}
		for i, e := range v.L {
			m[[]interface{}{"k", 7, [2]string{"a", "b"}}[i%3]] = e.build()
		}
		return m
	case "nilkey":
		return map[interface{}]string{nil: "nil", "nil": ""}
	case "namedmap":
		m := namedMap{}
		for i, e := range v.L {
			m[namedKey(fmt.Sprint(i))] = e.build()
		}
		return m
	case "lists2":
		l := [][][]interface{}{}
		for _, e := range v.L {
			l = append(l, [][]interface{}{{e.build()}, nil, {}})
		}
		return l
	case "lists3":
		l := [2][]interface{}{nil, {"x"}}
		for _, e := range v.L {
			l[0] = append(l[0], e.build())
		}
		return l
	case "struct":
		s := valStruct{List: []string{"x", "y"}, at: time.Unix(7, 7)}
		s.Nested[0].M = map[string]interface{}{"k": "v"}
		for _, e := range v.L {
			s.V = e.build()
		}
		return s
	case "named":
		return namedList{"x", "y"}
	case "time":
		return time.Unix(1e9, 5).UTC()
	case "array":
		return [2]int{3, 4}
	case "uint64":
		return uint64(math.MaxUint64)
	case "nilmaps":
		return []map[string]interface{}{nil, {}, {"a": nil}}
	case "complex":
		return []complex64{1 + 2i}
	case "func":
		return (func())(nil)
	case "chan":
		return make(chan int)
	case "deep":
		var x interface{} = []string{"x", "y"}
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				x = []interface{}{"a", x}
			case 1:
				x = map[string]interface{}{"a": x, "b": "c"}
			case 2:
				x = [][]interface{}{{x}}
			}
		}
		return x
	case "longlist":
		l := make([]interface{}, n)
		for i := range l {
			if l[i] = i; i%7 == 2 || i > n-3 {
				l[i] = []string{"x", fmt.Sprint(i)}
			}
		}
		return l
	case "bigmap":
		m := map[string][]int{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint(i)] = []int{i, i + 1}
		}
		return m
	case "huge":
		return strings.Repeat("h", n)
	case "big":
		return strings.Repeat("big", 10000)
	case "nilmap":
		return map[string]interface{}(nil)
	case "nilslice":
		return []string(nil)
	}
	return nil
}

func buildMap(m map[string]val) map[string]interface{} {
	out := map[string]interface{}{}
	for k, v := range m {
		out[k] = v.build()
	}
	return out
}

// depth returns the nesting depth of containers
func (v val) depth() int {
	d := 0
	for _, e := range v.L {
		if x := e.depth(); x > d {
			d = x
		}
	}
	for _, e := range v.M {
		if x := e.depth(); x > d {
			d = x
		}
	}
	switch v.K {
	case "list", "map", "maps", "lists", "mapslice", "strs", "ints", "strmap", "bytes", "cap", "intmap", "anymap", "nilkey",
		"namedmap", "lists2", "lists3", "struct", "named", "nilmaps", "complex", "longlist":
		d++
	case "bigmap":
		d += 2
	case "deep":
		d += int(v.N)
	}
	return d
}

// wreck overwrites everything that's reachable from the value
func wreck(x interface{}) { wreckValue(reflect.ValueOf(x)) }

func wreckValue(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			wreckValue(v.Elem())
		}
	case reflect.Slice:
		// Including what's beyond its length
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			wreckValue(v.Index(i))
			v.Index(i).Set(junk(v.Type().Elem()))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			wreckValue(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				wreckValue(v.Field(i))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for i, k := range keys {
			wreckValue(v.MapIndex(k))
			if i%2 == 0 {
				v.SetMapIndex(k, junk(v.Type().Elem()))
			} else {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("junk").Convert(v.Type().Key()), junk(v.Type().Elem()))
		}
	}
}

func junk(t reflect.Type) reflect.Value {
	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf("junk").Convert(t)
	case reflect.Interface:
		return reflect.ValueOf("junk")
	case reflect.Int, reflect.Uint8:
		return reflect.ValueOf(77).Convert(t)
	}
	return reflect.Zero(t)
}
