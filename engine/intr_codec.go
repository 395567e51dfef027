package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// deepCopy copies everything reachable from v.
func deepCopy(v Value, seen map[any]Value) Value {
	switch v := v.(type) {
	case Struct:
		s := make(Struct, len(v))
		for i, x := range v {
			s[i] = deepCopy(x, seen)
		}
		return s
	case Array:
		s := make(Array, len(v))
		for i, x := range v {
			s[i] = deepCopy(x, seen)
		}
		return s
	case Slice:
		if v.a == nil {
			return v
		}
		a := make([]Value, len(v.a))
		for i, x := range v.a {
			a[i] = deepCopy(x, seen)
		}
		return Slice{a}
	case *Value:
		if v == nil {
			return v
		}
		if c, ok := seen[v]; ok {
			return c
		}
		n := new(Value)
		seen[v] = n
		*n = deepCopy(*v, seen)
		return n
	case *MapV:
		if v == nil {
			return v
		}
		if c, ok := seen[v]; ok {
			return c
		}
		n := newMap()
		seen[v] = n
		for _, e := range v.ents {
			if e.dead {
				continue
			}
			ne := &mapEnt{k: e.k, v: deepCopy(e.v, seen)}
			n.ents = append(n.ents, ne)
			for k, x := range v.idx {
				if x == e {
					n.idx[k] = ne
				}
			}
			n.n++
		}
		n.nsym = v.nsym
		return n
	case Iface:
		return Iface{v.t, deepCopy(v.v, seen)}
	}
	return v
}

type blob struct {
	kind string
	t    types.Type
	v    Value
}

const blobLen = 64

func (it *Interp) blobPut(kind string, t types.Type, v Value) Slice {
	p := it.p
	p.blobs++
	id := fmt.Sprintf("\x01VFBLOB%08d:%s:", p.blobs, kind)
	id += strings.Repeat("\x02", blobLen-len(id))
	p.side["blob:"+id] = &blob{kind, t, deepCopy(v, map[any]Value{})}
	return Slice{strVals(id)}
}

func (it *Interp) blobGet(bs []Value) *blob {
	s, ok := concBytes(bs)
	if !ok || len(s) != blobLen {
		return nil
	}
	b, _ := it.p.side["blob:"+s].(*blob)
	return b
}

// readAll drains an io.Reader.
func (it *Interp) readAll(fr *Frame, r Iface) ([]Value, Iface) {
	res := it.callFn(fr, it.e.stdFunc("io", "ReadAll"), []Value{r}, nil).(Tuple)
	return res[0].(Slice).a, res[1].(Iface)
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	{
		reg("(*net/http.Response).Write", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			if it.p.realCodec {
				return it.runBody(fr, fn, a)
			}
			return it.callFn(fr, it.e.stdFunc(vfPkg, "ModelRespWrite"), a, nil)
		})
		reg("net/http.ReadResponse", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			if it.p.realCodec || it.p.side["real"] != nil {
				return it.runBody(fr, fn, a)
			}
			rd := Iface{fn.Signature.Params().At(0).Type(), a[0]}
			return it.callFn(fr, it.e.stdFunc(vfPkg, "ModelReadResponse"), []Value{rd, a[1]}, nil)
		})
		reg("net/http.readMIMEHeader", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			return it.callFn(fr, it.e.stdFunc("net/textproto", "readMIMEHeader"), a, nil) // linkname
		})
		reg("net/http.knownRoundTripperImpl", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			rt, ok := a[0].(Iface)
			return ok && rt.t != nil && (rt.t.String() == "*net/http.Transport" || strings.HasSuffix(rt.t.String(), "http2.Transport"))
		})
		// Random numbers only spread polling intervals here.
		reg("math/rand/v2.IntN", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return int64(0) })
		// Only an optimisation: saying no has io.Copy read through the wrapper.
		reg("net/http.unwrapNopCloser", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			return Tuple{Iface{}, false}
		})
		reg(vfPkg+".realReadResponse", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			br := it.callFn(fr, it.e.stdFunc("bytes", "NewReader"), []Value{a[0]}, nil)
			rt := it.e.stdFunc("bytes", "NewReader").Signature.Results().At(0).Type()
			bb := it.callFn(fr, it.e.stdFunc("bufio", "NewReader"), []Value{Iface{rt, br}}, nil)
			it.p.side["real"] = true
			defer delete(it.p.side, "real")
			return it.callFn(fr, it.e.stdFunc("net/http", "ReadResponse"), []Value{bb, a[1]}, nil)
		})
		reg(vfPkg+".blobPut", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			x := a[0].(Iface)
			return it.blobPut("msg", x.t, x.v)
		})
		reg(vfPkg+".blobGet", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			b := it.blobGet(a[0].(Slice).a)
			if b == nil || b.kind != "msg" {
				return Tuple{Iface{}, false}
			}
			return Tuple{Iface{b.t, deepCopy(b.v, map[any]Value{})}, true}
		})

		// encoding/gob: a value goes in and the same value comes out; anything
		// else than the complete encoding is an error.
		mk := func(kind string) intrinsic {
			return func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
				p := new(Value)
				*p = &NativeObj{kind, a[0]}
				return p
			}
		}
		reg("encoding/gob.NewEncoder", mk("gobenc"))
		reg("encoding/gob.NewDecoder", mk("gobdec"))
		nop := func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return nil }
		reg("encoding/gob.Register", nop)
		reg("encoding/gob.RegisterName", nop)
		reg("(*encoding/gob.Encoder).Encode", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			w := (*pv(a[0])).(*NativeObj).o.(Iface)
			x := a[1].(Iface)
			if x.t == nil {
				panic(targetPanic{it.rtErrorPlain("gob: cannot encode nil pointer of type <nil>"), it.where(fr)})
			}
			t, v := x.t, x.v
			for {
				pt, ok := t.Underlying().(*types.Pointer)
				if !ok {
					break
				}
				p := pv(v)
				if p == nil {
					panic(targetPanic{it.rtErrorPlain("gob: cannot encode nil pointer of type " + t.String()), it.where(fr)})
				}
				t, v = pt.Elem(), *p
			}
			b := it.blobPut("gob", t, v)
			r := it.callMethod(fr, w, "Write", b).(Tuple)
			return r[1]
		})
		reg("(*encoding/gob.Decoder).Decode", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			rd := (*pv(a[0])).(*NativeObj).o.(Iface)
			data, err := it.readAll(fr, rd)
			if err.t != nil {
				return err
			}
			if len(data) == 0 {
				return *it.global(fr, it.e.std["io"].Var("EOF"))
			}
			b := it.blobGet(data)
			if b == nil || b.kind != "gob" {
				return it.errVal(fr, "gob: bad data: undefined type or corrupted stream")
			}
			x := a[1].(Iface)
			pt, ok := x.t.Underlying().(*types.Pointer)
			if !ok || pv(x.v) == nil {
				return it.errVal(fr, "gob: attempt to decode into a non-pointer")
			}
			t, p := pt.Elem(), pv(x.v)
			for {
				q, ok := t.Underlying().(*types.Pointer)
				if !ok {
					break
				}
				t = q.Elem()
				if pv(*p) == nil {
					n := new(Value)
					*n = zero(t)
					*p = n
				}
				p = pv(*p)
			}
			v := deepCopy(b.v, map[any]Value{})
			if !it.gobAssign(p, t, b.t, v) {
				return it.errVal(fr, "gob: type mismatch")
			}
			return Iface{}
		})
	}
}

// gobAssign stores v (of type st) into *p (of type t) by field name; zero
// values are not transmitted.
func (it *Interp) gobAssign(p *Value, t, st types.Type, v Value) bool {
	a, ok1 := t.Underlying().(*types.Struct)
	b, ok2 := st.Underlying().(*types.Struct)
	if !ok1 || !ok2 {
		if types.Identical(t.Underlying(), st.Underlying()) {
			storeInto(p, v)
			return true
		}
		return false
	}
	dst := (*p).(Struct)
	src := v.(Struct)
	n := 0
	for i := 0; i < b.NumFields(); i++ {
		f := b.Field(i)
		if !f.Exported() {
			continue
		}
		for j := 0; j < a.NumFields(); j++ {
			if a.Field(j).Name() != f.Name() {
				continue
			}
			n++
			if !types.Identical(a.Field(j).Type().Underlying(), f.Type().Underlying()) {
				return false
			}
			if sl, ok := src[i].(Slice); ok && len(sl.a) == 0 {
				continue
			}
			storeInto(&dst[j], src[i])
		}
	}
	return n > 0 || b.NumFields() == 0
}
