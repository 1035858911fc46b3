package asn

import (
	"reflect"
	"runtime"
	"sync"
	"unsafe"
)

// Verification primitives. The verifier gives them their logical meaning; the
// bodies below are their meaning in the concrete replay harness.

type zvFailure struct {
	Name string
	A, B interface{}
}
type zvSkipped struct{}

func zvAssume(c bool) {
	if !c {
		panic(zvSkipped{})
	}
}

func zvRequire(c bool) {
	if !c {
		panic(zvSkipped{})
	}
}

// zvOnly restricts the harness to the assertions of one property.
var zvOnly string

func zvMine(name string) bool {
	return zvOnly == "" || len(name) < 4 || name[0] != 'C' || name[3] != ':' || name[:3] == zvOnly
}

func zvAssert(name string, c bool) {
	if !c && zvMine(name) {
		panic(zvFailure{Name: name})
	}
}

func zvAssertEq(name string, a, b interface{}) {
	if zvMine(name) && !zvDeepEq(reflect.ValueOf(a), reflect.ValueOf(b)) {
		panic(zvFailure{name, a, b})
	}
}

func zvReveal(name string) {}

// zvRewrites lets the proof use the rules zr_.
func zvRewrites() {}

// zvInline: calls of the function are verified against its body, not its contract.
func zvInline(name string) {}

// zvCase splits the proof into the cases x == 0, ..., x == n-1 and x >= n.
func zvCase(x, n int) int { return x }

// zvDeepEq is equality of values, nil and empty slices being equal.
func zvDeepEq(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !zvDeepEq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !zvDeepEq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() {
			return true
		}
		return zvDeepEq(a.Elem(), b.Elem())
	default:
		return a.Interface() == b.Interface()
	}
}

// zvSnap keeps a copy of everything that can be reached from x.
func zvSnap(x interface{}) interface{} {
	v := reflect.New(reflect.TypeOf(&x).Elem()).Elem()
	v.Set(zvCopy(reflect.ValueOf(&x).Elem()))
	return v.Interface()
}

func zvCopy(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return c
		}
		// including the unused capacity
		w := v.Slice(0, v.Cap())
		n := reflect.MakeSlice(v.Type(), w.Len(), w.Len())
		for i := 0; i < w.Len(); i++ {
			n.Index(i).Set(zvCopy(w.Index(i)))
		}
		c.Set(n.Slice(0, v.Len()))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(zvCopy(v.Index(i)))
		}
	case reflect.Struct:
		c.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() {
				c.Field(i).Set(zvCopy(v.Field(i)))
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			c.Set(zvCopy(v.Elem()))
		}
	default:
		c.Set(v)
	}
	return c
}

func zvSame(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() || a.Cap() != b.Cap() && a.Cap() < b.Cap() {
			return false
		}
		a, b = a.Slice(0, a.Cap()), b.Slice(0, b.Cap())
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			if !zvSame(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !zvSame(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !zvSame(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Elem().Type() == b.Elem().Type() && zvSame(a.Elem(), b.Elem())
	}
	return zvDeepEq(a, b)
}

// zvUnchanged: x and everything reachable from it are as when the snapshot was taken.
func zvUnchanged(name string, snap, x interface{}) {
	if zvMine(name) && !zvSame(reflect.ValueOf(&x).Elem(), reflect.ValueOf(&snap).Elem()) {
		panic(zvFailure{name, x, snap})
	}
}

type zvMem struct {
	a, b uintptr
	str  bool
}

func zvMems(v reflect.Value, out []zvMem) []zvMem {
	switch v.Kind() {
	case reflect.Slice:
		if n := v.Cap() * int(v.Type().Elem().Size()); n > 0 {
			out = append(out, zvMem{v.Pointer(), v.Pointer() + uintptr(n), false})
		}
		for i := 0; i < v.Len(); i++ {
			switch v.Type().Elem().Kind() {
			case reflect.Uint8, reflect.Uint32:
				i = v.Len()
			default:
				out = zvMems(v.Index(i), out)
			}
		}
	case reflect.String:
		if n := v.Len(); n > 0 {
			p := *(*uintptr)(unsafe.Pointer(&[]string{v.String()}[0]))
			out = append(out, zvMem{p, p + uintptr(n), true})
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out = zvMems(v.Index(i), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out = zvMems(v.Field(i), out)
		}
	case reflect.Interface:
		if !v.IsNil() {
			out = zvMems(v.Elem(), out)
		}
	}
	return out
}

// zvDisjoint: the value shares no memory with the others (strings may share with strings).
func zvDisjoint(name string, res interface{}, others ...interface{}) {
	if !zvMine(name) {
		return
	}
	for _, x := range zvMems(reflect.ValueOf(&res).Elem(), nil) {
		for _, o := range others {
			for _, y := range zvMems(reflect.ValueOf(&o).Elem(), nil) {
				if x.a < y.b && y.a < x.b && !(x.str && y.str) {
					panic(zvFailure{name, res, o})
				}
			}
		}
	}
}

// zvAllocBound: no allocation since the start was larger than a constant multiple of the
// size of the arguments (concretely: zvAllocs).
func zvAllocBound(name string) {}

var zvAllocLock sync.Mutex

// zvAllocs returns the bytes f allocates (the least of some runs).
func zvAllocs(f func()) uint64 {
	zvAllocLock.Lock()
	defer zvAllocLock.Unlock()
	best := ^uint64(0)
	for i := 0; i < 12; i++ {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		if n := b.TotalAlloc - a.TotalAlloc; n < best {
			best = n
		}
		if best < 1<<16 {
			break
		}
	}
	return best
}
