package shim

import (
	"fmt"
	"iter"
	"reflect"
	"sort"
	"strings"
)

// MapRun is the map-order side of an execution: every dynamic range over a map with at least two elements is a site
// instance; Dev selects other orders for some instances.
type MapRun struct {
	Dev   map[int]int // instance -> alternative order (0 is the base order)
	Sizes []int       // sizes of the instances seen
	Where []string
}

var maps *MapRun

// SetMaps installs the run (nil switches exploration off).
func SetMaps(m *MapRun) { maps = m }

func keyText(k any) string {
	switch x := k.(type) {
	case string:
		return x
	case int:
		return fmt.Sprintf("%020d", x)
	}
	v := reflect.ValueOf(k)
	if v.IsValid() && v.Kind() == reflect.Struct {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		v = p
	}
	if !v.IsValid() || v.Kind() != reflect.Ptr || v.IsNil() {
		return fmt.Sprintf("%T %v", k, k)
	}
	out := fmt.Sprintf("%T", k)
	call := func(v reflect.Value, name string) (r reflect.Value, ok bool) {
		m := v.MethodByName(name)
		if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 {
			return r, false
		}
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		return m.Call(nil)[0], true
	}
	if r, ok := call(v, "Pos"); ok {
		out += fmt.Sprintf(" %012d", r.Interface())
	}
	if r, ok := call(v, "Parent"); ok && r.Kind() == reflect.Ptr && !r.IsNil() {
		if x, ok := call(r, "String"); ok {
			out += " " + x.String()
		}
	}
	if r, ok := call(v, "Block"); ok && r.Kind() == reflect.Ptr && !r.IsNil() {
		if f := r.Elem().FieldByName("Index"); f.IsValid() {
			out += fmt.Sprintf(" %06d", f.Int())
		}
	}
	if r, ok := call(v, "String"); ok {
		out += " " + r.String()
	}
	return out
}

// Alternatives is the number of orders explored for a range over n elements.
func Alternatives(n int) int {
	switch {
	case n < 2:
		return 1
	case n == 2:
		return 2
	case n == 3:
		return 6
	}
	return n + 1 // base, reversed, every other element first
}

func permute(n, alt int) []int {
	ix := make([]int, n)
	for i := range ix {
		ix[i] = i
	}
	switch {
	case alt == 0:
	case n <= 3:
		var out []int
		rest := append([]int{}, ix...)
		f := []int{1, 1, 2, 6}
		for len(rest) > 0 {
			k := alt / f[len(rest)-1] % len(rest)
			out = append(out, rest[k])
			rest = append(rest[:k:k], rest[k+1:]...)
		}
		return out
	case alt == 1:
		for i := range ix {
			ix[i] = n - 1 - i
		}
	default:
		f := alt - 1
		ix = append([]int{f}, append(append([]int{}, ix[:f]...), ix[f+1:]...)...)
	}
	return ix
}

func orderedKeys[M ~map[K]V, K comparable, V any](m M, where string) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	txt := make(map[K]string, len(keys))
	for _, k := range keys {
		txt[k] = keyText(k)
	}
	sort.SliceStable(keys, func(i, j int) bool { return txt[keys[i]] < txt[keys[j]] })
	if maps == nil {
		initEnvMaps()
	}
	if maps == nil {
		return keys
	}
	inst := len(maps.Sizes)
	maps.Sizes = append(maps.Sizes, len(keys))
	maps.Where = append(maps.Where, where)
	if envLog != nil {
		fmt.Fprintf(envLog, "%d %s\n", len(keys), strings.ReplaceAll(where, "\n", " "))
	}
	alt := maps.Dev[inst]
	if maps.Dev[-1] > 0 { // every instance deviates the same way
		alt = maps.Dev[-1]
		if alt >= Alternatives(len(keys)) {
			alt = Alternatives(len(keys)) - 1
		}
	}
	if alt == 0 {
		return keys
	}
	out := make([]K, 0, len(keys))
	for _, i := range permute(len(keys), alt) {
		out = append(out, keys[i])
	}
	return out
}

// Range replaces ranging over a map.
func Range[M ~map[K]V, K comparable, V any](where string, m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range orderedKeys(m, where) {
			v, ok := m[k]
			if !ok {
				continue // deleted while iterating
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapsKeys, MapsValues and MapsAll replace the functions of package maps.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Range("maps.Keys", m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapsValues is maps.Values.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Range("maps.Values", m) {
			if !yield(v) {
				return
			}
		}
	}
}

// MapsAll is maps.All.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return Range("maps.All", m) }
