package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is the representation of a Go value inside the symbolic executor:
//
//	bool            bool | *Term (boolean)
//	integers        int64 (uint64 and uintptr as their bit pattern) | *Term
//	float64/32      float64 | *FInt (symbolic, integral)
//	string          string | *SStr
//	pointer         *Value (nil pointer: (*Value)(nil)) | *DataPtr
//	slice           Slice
//	array, struct   Array, Struct (copied on load and store)
//	map             *MapV (nil map: (*MapV)(nil))
//	chan            *ChanV
//	func            *Closure | *Native | nil closure (*Closure)(nil)
//	interface       Iface (nil: Iface{})
//	tuple           Tuple
type Value = any

type Slice struct{ a []Value }
type Struct []Value
type Array []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Native struct {
	name string
	f    func(it *Interp, fr *Frame, args []Value) Value
}

// FInt is a floating point value known to be the exact integer t.
type FInt struct{ t *Term }

// Opaque is a value of a stubbed-out package (metrics, logging).
type Opaque struct{ what string }

// Poison is the result of an operation that could not be executed during the
// initialisation of a package; any use of it is reported as unsupported.
type Poison struct{ why string }

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct {
	sl  []Value
	str Value
}

// NativeObj wraps a host object (compiled regexp ...).
type NativeObj struct {
	kind string
	o    any
}

type mapEnt struct {
	k, v Value
	dead bool
	cell *Value
}

type MapV struct {
	ents []*mapEnt
	idx  map[string]*mapEnt // concrete keys
	nsym int                // live entries with symbolic keys
	n    int
	shad *shadow
}

func newMap() *MapV { return &MapV{idx: map[string]*mapEnt{}} }

type ChanV struct {
	cap    int
	buf    []chanMsg
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	clk    vclock
	clkRcv vclock
}
type chanMsg struct {
	v   Value
	clk vclock
}

// ---- zero values ----

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(t.Len())
		a := make(Array, n)
		if n == 0 {
			return a
		}
		z := zero(t.Elem())
		switch z.(type) {
		case Struct, Array:
			a[0] = z
			for i := 1; i < n; i++ {
				a[i] = zero(t.Elem())
			}
		default:
			for i := range a {
				a[i] = z
			}
		}
		return a
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.TypeParam:
		return nil
	}
	panic(fmt.Sprintf("zero: %s", t))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		s := make(Struct, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				x = copyVal(x)
			}
			s[i] = x
		}
		return s
	case Array:
		s := make(Array, len(v))
		for i, x := range v {
			switch x.(type) {
			case Struct, Array:
				x = copyVal(x)
			}
			s[i] = x
		}
		return s
	}
	return v
}

// storeInto writes v into the cell p, keeping the identity of nested cells.
func storeInto(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeInto(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// ---- integer kinds ----

type ikind struct {
	bits   uint8
	signed bool
}

func intKind(t types.Type) (ikind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return ikind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return ikind{64, true}, true
	case types.Int8:
		return ikind{8, true}, true
	case types.Int16:
		return ikind{16, true}, true
	case types.Int32, types.UntypedRune:
		return ikind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return ikind{64, false}, true
	case types.Uint8:
		return ikind{8, false}, true
	case types.Uint16:
		return ikind{16, false}, true
	case types.Uint32:
		return ikind{32, false}, true
	}
	return ikind{}, false
}

func (k ikind) norm(v int64) int64 {
	switch k.bits {
	case 8:
		if k.signed {
			return int64(int8(v))
		}
		return int64(uint8(v))
	case 16:
		if k.signed {
			return int64(int16(v))
		}
		return int64(uint16(v))
	case 32:
		if k.signed {
			return int64(int32(v))
		}
		return int64(uint32(v))
	}
	return v
}

func (k ikind) rng() (lo, hi *big.Int) {
	if k.signed {
		h := new(big.Int).Lsh(bigOne, uint(k.bits-1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)
	}
	return bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, uint(k.bits)), bigOne)
}

var ikCache [65][2][2]*big.Int

func init() {
	for _, b := range []uint8{8, 16, 32, 64} {
		for s := 0; s < 2; s++ {
			lo, hi := ikind{b, s == 1}.rng()
			ikCache[b][s] = [2]*big.Int{lo, hi}
		}
	}
}

func (k ikind) bounds() (lo, hi *big.Int) {
	s := 0
	if k.signed {
		s = 1
	}
	x := ikCache[k.bits][s]
	return x[0], x[1]
}

// ---- type helpers ----

var hasher = typeutil.MakeHasher()

type typeKeyer struct {
	m typeutil.Map
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---- describing values (reports, keys) ----

func showVal(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case bool, int64, float64:
		return fmt.Sprint(v)
	case string:
		if len(v) > 200 {
			v = v[:200] + "..."
		}
		return fmt.Sprintf("%q", v)
	case *Term:
		return "sym:" + ref(v)
	case *SStr:
		return v.show()
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", v.t, showVal(v.v))
	case *Value:
		if v == nil {
			return "nil"
		}
		return fmt.Sprintf("&%T", *v)
	case Struct:
		var b strings.Builder
		b.WriteString("{")
		for i, x := range v {
			if i > 0 {
				b.WriteString(" ")
			}
			if i > 6 {
				b.WriteString("..")
				break
			}
			b.WriteString(showVal(x))
		}
		return b.String() + "}"
	case Slice:
		return fmt.Sprintf("slice[%d]", len(v.a))
	case *Closure:
		if v == nil {
			return "nil func"
		}
		return v.fn.String()
	}
	return fmt.Sprintf("%T", v)
}
