package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"gopkg.in/yaml.v3"
)

// Conversion between values of the executed program and values of this
// process, so that the real encoding/json and yaml.v3 do the encoding and
// decoding. Struct types are rebuilt with reflect.StructOf from the current
// source: exported fields with their tags.

var rtypes sync.Map // types.Type -> reflect.Type

var basicR = map[types.BasicKind]reflect.Type{
	types.Bool: reflect.TypeOf(false), types.Int: reflect.TypeOf(int(0)), types.Int8: reflect.TypeOf(int8(0)),
	types.Int16: reflect.TypeOf(int16(0)), types.Int32: reflect.TypeOf(int32(0)), types.Int64: reflect.TypeOf(int64(0)),
	types.Uint: reflect.TypeOf(uint(0)), types.Uint8: reflect.TypeOf(uint8(0)), types.Uint16: reflect.TypeOf(uint16(0)),
	types.Uint32: reflect.TypeOf(uint32(0)), types.Uint64: reflect.TypeOf(uint64(0)), types.Uintptr: reflect.TypeOf(uintptr(0)),
	types.Float32: reflect.TypeOf(float32(0)), types.Float64: reflect.TypeOf(float64(0)), types.String: reflect.TypeOf(""),
}

var anyR = reflect.TypeOf((*any)(nil)).Elem()

type reflectConv struct {
	it   *Interp
	fr   *Frame
	what string
	hold map[string][]Value // placeholders for symbolic digits
	held map[string]bool    // placeholders found in decoded strings
}

// placeholders replaces runs of symbolic decimal digits in b by unique digit
// strings: inside of a value for a string they make no difference to the
// decoder. It fails if there are other symbolic bytes.
func (c *reflectConv) placeholders(b []Value) (string, bool) {
	c.hold, c.held = map[string][]Value{}, map[string]bool{}
	var out []byte
	for i := 0; i < len(b); i++ {
		t, ok := b[i].(*Term)
		if !ok {
			out = append(out, byte(b[i].(int64)))
			continue
		}
		lo, hi := c.it.ts.interval(t, c.it.p.bounds)
		if lo == nil || hi == nil || lo.Cmp(bigI('0')) < 0 || hi.Cmp(bigI('9')) > 0 {
			return "", false
		}
		tok := fmt.Sprintf("9071%04d5823", len(c.hold))
		c.hold[tok] = []Value{t}
		out = append(out, tok...)
	}
	return string(out), len(c.hold) > 0
}

// unhold puts the symbolic digits back.
func (c *reflectConv) unhold(s string) Value {
	var out []Value
	found := false
	for i := 0; i < len(s); {
		if i+12 <= len(s) {
			if v, ok := c.hold[s[i:i+12]]; ok {
				c.held[s[i:i+12]] = true
				out = append(out, v...)
				found = true
				i += 12
				continue
			}
		}
		out = append(out, int64(s[i]))
		i++
	}
	if !found {
		return s
	}
	return mkSStr([]Seg{{b: out}})
}

// noCodec: methods that would change how a type is encoded.
var noCodec = []string{"MarshalJSON", "UnmarshalJSON", "MarshalYAML", "UnmarshalYAML", "MarshalText", "UnmarshalText"}

func (c *reflectConv) rtype(t types.Type) reflect.Type {
	if r, ok := rtypes.Load(t); ok {
		return r.(reflect.Type)
	}
	r := c.rtype1(t, 0)
	rtypes.Store(t, r)
	return r
}

func (c *reflectConv) rtype1(t types.Type, depth int) reflect.Type {
	if depth > 20 {
		c.it.unsupported(c.fr, "%s of the recursive type %s", c.what, t)
	}
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Duration" {
			return reflect.TypeOf(time.Duration(0))
		}
		if st, ok := n.Underlying().(*types.Struct); ok {
			exported := false
			for i := 0; i < st.NumFields(); i++ {
				exported = exported || st.Field(i).Exported()
			}
			if !exported {
				return reflect.TypeOf(struct{}{})
			}
		}
		for _, ty := range []types.Type{t, types.NewPointer(t)} {
			ms := types.NewMethodSet(ty)
			for _, m := range noCodec {
				if ms.Lookup(nil, m) != nil {
					c.it.unsupported(c.fr, "%s of %s, which has a method %s", c.what, t, m)
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if r, ok := basicR[u.Kind()]; ok {
			return r
		}
	case *types.Pointer:
		return reflect.PointerTo(c.rtype1(u.Elem(), depth+1))
	case *types.Slice:
		return reflect.SliceOf(c.rtype1(u.Elem(), depth+1))
	case *types.Array:
		return reflect.ArrayOf(int(u.Len()), c.rtype1(u.Elem(), depth+1))
	case *types.Map:
		return reflect.MapOf(c.rtype1(u.Key(), depth+1), c.rtype1(u.Elem(), depth+1))
	case *types.Interface:
		if u.Empty() {
			return anyR
		}
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: c.rtype1(f.Type(), depth+1), Tag: reflect.StructTag(u.Tag(i)), Anonymous: f.Embedded()})
		}
		return reflect.StructOf(fs)
	}
	c.it.unsupported(c.fr, "%s of %s", c.what, t)
	return nil
}

func (c *reflectConv) str(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	b := c.it.strBytes(c.fr, v)
	return c.bytes(b)
}

func (c *reflectConv) bytes(b []Value) string {
	s := make([]byte, len(b))
	for i, x := range b {
		if t, ok := x.(*Term); ok {
			s[i] = byte(c.it.concretize(t))
		} else {
			s[i] = byte(x.(int64))
		}
	}
	return string(s)
}

// out converts a value of type t into r.
func (c *reflectConv) out(v Value, t types.Type, r reflect.Value) {
	it := c.it
	if p, ok := v.(Poison); ok {
		it.unsupported(c.fr, "%s of a poison value (%s)", c.what, p.why)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			r.SetString(c.str(v))
		case u.Info()&types.IsBoolean != 0:
			r.SetBool(it.truth(v))
		case u.Info()&types.IsFloat != 0:
			r.SetFloat(it.pinF(v))
		default:
			var n int64
			if tm, ok := v.(*Term); ok {
				n = it.concretize(tm)
			} else {
				n = v.(int64)
			}
			if r.CanUint() {
				r.SetUint(uint64(n))
			} else {
				r.SetInt(n)
			}
		}
	case *types.Pointer:
		p := pv(v)
		if p == nil {
			return
		}
		if it.p.race != nil {
			it.p.race.access(it, c.fr, p, false)
		}
		r.Set(reflect.New(r.Type().Elem()))
		c.out(*p, u.Elem(), r.Elem())
	case *types.Slice:
		a := v.(Slice).a
		if a == nil {
			return
		}
		r.Set(reflect.MakeSlice(r.Type(), len(a), len(a)))
		for i := range a {
			if it.p.race != nil {
				it.p.race.access(it, c.fr, &a[i], false)
			}
			c.out(a[i], u.Elem(), r.Index(i))
		}
	case *types.Array:
		for i, x := range v.(Array) {
			c.out(x, u.Elem(), r.Index(i))
		}
	case *types.Map:
		m := v.(*MapV)
		if m == nil {
			return
		}
		if it.p.race != nil {
			it.p.race.accessMap(it, c.fr, m, false)
		}
		r.Set(reflect.MakeMap(r.Type()))
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			k, x := reflect.New(r.Type().Key()).Elem(), reflect.New(r.Type().Elem()).Elem()
			c.out(e.k, u.Key(), k)
			c.out(e.v, u.Elem(), x)
			r.SetMapIndex(k, x)
		}
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			return
		}
		y := reflect.New(c.rtype(x.t)).Elem()
		c.out(x.v, x.t, y)
		r.Set(y)
	case *types.Struct:
		if r.NumField() == 0 {
			return
		}
		s := v.(Struct)
		for i, n := 0, 0; i < u.NumFields(); i++ {
			if !u.Field(i).Exported() {
				continue
			}
			if it.p.race != nil {
				it.p.race.access(it, c.fr, &s[i], false)
			}
			c.out(s[i], u.Field(i).Type(), r.Field(n))
			n++
		}
	default:
		it.unsupported(c.fr, "%s of %s", c.what, t)
	}
}

// in converts r back; old is the value it replaces (its unexported fields and
// the identity of what its pointers point to are kept).
func (c *reflectConv) in(r reflect.Value, t types.Type, old Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if len(c.hold) > 0 {
				return c.unhold(r.String())
			}
			return r.String()
		case u.Info()&types.IsBoolean != 0:
			return r.Bool()
		case u.Info()&types.IsFloat != 0:
			return r.Float()
		case r.CanUint():
			return int64(r.Uint())
		}
		return r.Int()
	case *types.Pointer:
		if r.IsNil() {
			return (*Value)(nil)
		}
		if p := pv(old); p != nil {
			storeInto(p, c.in(r.Elem(), u.Elem(), *p))
			return p
		}
		p := new(Value)
		*p = c.in(r.Elem(), u.Elem(), zero(u.Elem()))
		return p
	case *types.Slice:
		if r.IsNil() {
			return Slice{}
		}
		a := make([]Value, r.Len())
		for i := range a {
			a[i] = c.in(r.Index(i), u.Elem(), zero(u.Elem()))
		}
		return Slice{a}
	case *types.Array:
		a := old.(Array)
		for i := range a {
			a[i] = c.in(r.Index(i), u.Elem(), a[i])
		}
		return a
	case *types.Map:
		if r.IsNil() {
			return (*MapV)(nil)
		}
		m := newMap()
		keys := r.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			c.it.mapSet(c.fr, m, c.in(k, u.Key(), zero(u.Key())), c.in(r.MapIndex(k), u.Elem(), zero(u.Elem())))
		}
		return m
	case *types.Interface:
		if r.IsNil() {
			return Iface{}
		}
		c.it.unsupported(c.fr, "%s into an interface value", c.what)
	case *types.Struct:
		s := old.(Struct)
		if r.NumField() == 0 {
			return s
		}
		n := make(Struct, len(s))
		copy(n, s)
		for i, k := 0, 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				n[i] = c.in(r.Field(k), u.Field(i).Type(), s[i])
				k++
			}
		}
		return n
	}
	c.it.unsupported(c.fr, "%s into %s", c.what, t)
	return nil
}

// encode converts an interface value for the real encoder.
func (c *reflectConv) encode(x Iface) any {
	if x.t == nil {
		return nil
	}
	r := reflect.New(c.rtype(x.t)).Elem()
	c.out(x.v, x.t, r)
	return r.Interface()
}

// decode lets f decode into a copy of *x and stores the result, even a partial
// one, like the real decoders do.
func (c *reflectConv) decode(x Iface, f func(any) error) Value {
	it := c.it
	pt, ok := types.Type(nil), false
	if x.t != nil {
		var p *types.Pointer
		if p, ok = x.t.Underlying().(*types.Pointer); ok {
			pt = p.Elem()
		}
	}
	if !ok || pv(x.v) == nil {
		return it.errVal(c.fr, c.what+": decoding into a non-pointer")
	}
	p := pv(x.v)
	r := reflect.New(c.rtype(pt))
	c.out(*p, pt, r.Elem())
	err := f(r.Interface())
	if it.p.race != nil {
		it.p.race.access(it, c.fr, p, true)
	}
	storeInto(p, c.in(r.Elem(), pt, *p))
	if err != nil {
		if err.Error() == "EOF" {
			return *it.global(c.fr, it.e.std["io"].Var("EOF"))
		}
		return it.errVal(c.fr, err.Error())
	}
	return Iface{}
}

type codecState struct {
	io             Iface
	known          bool
	prefix, indent string
	noEscape       bool
	dec            *yaml.Decoder
	jdec           *json.Decoder
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	mk := func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = &NativeObj{"codec", &codecState{io: a[0].(Iface)}}
		return p
	}
	st := func(v Value) *codecState { return (*pv(v)).(*NativeObj).o.(*codecState) }
	conv := func(it *Interp, fr *Frame, what string) *reflectConv { return &reflectConv{it: it, fr: fr, what: what} }

	reg("encoding/json.NewEncoder", mk)
	reg("encoding/json.NewDecoder", mk)
	reg("(*encoding/json.Encoder).SetIndent", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := st(a[0])
		s.prefix, s.indent = a[1].(string), a[2].(string)
		return nil
	})
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		st(a[0]).noEscape = !it.truth(a[1])
		return nil
	})
	reg("(*encoding/json.Encoder).Encode", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := st(a[0])
		var buf bytes.Buffer
		e := json.NewEncoder(&buf)
		e.SetIndent(s.prefix, s.indent)
		e.SetEscapeHTML(!s.noEscape)
		if err := e.Encode(conv(it, fr, "json.Encode").encode(a[1].(Iface))); err != nil {
			return it.errVal(fr, err.Error())
		}
		return it.callMethod(fr, s.io, "Write", Slice{strVals(buf.String())}).(Tuple)[1]
	})
	reg("encoding/json.Marshal", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		b, err := json.Marshal(conv(it, fr, "json.Marshal").encode(a[0].(Iface)))
		if err != nil {
			return Tuple{Slice{}, it.errVal(fr, err.Error())}
		}
		return Tuple{Slice{strVals(string(b))}, Iface{}}
	})
	reg("encoding/json.MarshalIndent", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		b, err := json.MarshalIndent(conv(it, fr, "json.Marshal").encode(a[0].(Iface)), a[1].(string), a[2].(string))
		if err != nil {
			return Tuple{Slice{}, it.errVal(fr, err.Error())}
		}
		return Tuple{Slice{strVals(string(b))}, Iface{}}
	})
	reg("encoding/json.Unmarshal", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := conv(it, fr, "json.Unmarshal")
		s := c.bytes(a[0].(Slice).a)
		return c.decode(a[1].(Iface), func(x any) error { return json.Unmarshal([]byte(s), x) })
	})
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		st(a[0]).known = true
		return nil
	})
	reg("(*encoding/json.Decoder).Decode", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := st(a[0])
		c := conv(it, fr, "json.Decode")
		if s.jdec == nil {
			b, err := it.readAll(fr, s.io)
			if err.t != nil {
				return err
			}
			s.jdec = json.NewDecoder(strings.NewReader(c.bytes(b)))
		}
		if s.known {
			s.jdec.DisallowUnknownFields()
		}
		return c.decode(a[1].(Iface), s.jdec.Decode)
	})

	const y = "gopkg.in/yaml.v3"
	reg(y+".NewDecoder", mk)
	reg("(*"+y+".Decoder).KnownFields", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		st(a[0]).known = it.truth(a[1])
		return nil
	})
	reg("(*"+y+".Decoder).Decode", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := st(a[0])
		c := conv(it, fr, "yaml.Decode")
		if s.dec == nil {
			b, err := it.readAll(fr, s.io)
			if err.t != nil {
				return err
			}
			if text, ok := c.placeholders(b); ok {
				// Try with placeholders; valid if all of them end up in strings.
				var old Value
				if p := pv(a[1].(Iface).v); p != nil {
					old = deepCopy(*p, map[any]Value{})
				}
				q := new(Value)
				*q = old
				d := yaml.NewDecoder(strings.NewReader(text))
				d.KnownFields(s.known)
				r, ok := c.decode(Iface{a[1].(Iface).t, q}, d.Decode).(Iface)
				if ok && r.t == nil && len(c.held) == len(c.hold) {
					s.dec = d
					storeInto(pv(a[1].(Iface).v), *q)
					return Iface{}
				}
			}
			c.hold, c.held = nil, nil
			s.dec = yaml.NewDecoder(strings.NewReader(c.bytes(b)))
		}
		s.dec.KnownFields(s.known)
		return c.decode(a[1].(Iface), s.dec.Decode)
	})
	reg(y+".Unmarshal", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		c := conv(it, fr, "yaml.Unmarshal")
		s := c.bytes(a[0].(Slice).a)
		return c.decode(a[1].(Iface), func(x any) error { return yaml.Unmarshal([]byte(s), x) })
	})
	reg(y+".Marshal", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		b, err := yaml.Marshal(conv(it, fr, "yaml.Marshal").encode(a[0].(Iface)))
		if err != nil {
			return Tuple{Slice{}, it.errVal(fr, err.Error())}
		}
		return Tuple{Slice{strVals(string(b))}, Iface{}}
	})

	// Hashes are modelled as collision-free: equal inputs have equal hashes,
	// different inputs different ones.
	hash := func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := a[0].(Slice).a
		key := "hash:" + fn.String()
		old, _ := it.p.side[key].([][2]any)
		conc := true
		for _, x := range b {
			if _, ok := x.(*Term); ok {
				conc = false
			}
		}
		for _, o := range old {
			if ob := o[0].([]Value); len(ob) == len(b) && it.truth(it.equal(fr, mkSStr([]Seg{{b: ob}}), mkSStr([]Seg{{b: b}}))) {
				return copyVal(o[1])
			}
		}
		c := make([]Value, len(b))
		copy(c, b)
		if !conc {
			for i, x := range c {
				if _, ok := x.(*Term); ok {
					c[i] = int64(0)
				}
			}
			c = append(c, strVals(fmt.Sprintf("\x00sym%d", len(old)))...)
		}
		h := it.runBody(fr, fn, []Value{Slice{c}})
		cp := make([]Value, len(b))
		copy(cp, b)
		it.p.side[key] = append(old[:len(old):len(old)], [2]any{cp, copyVal(h)})
		return h
	}
	for _, n := range []string{"crypto/md5.Sum", "crypto/sha1.Sum", "crypto/sha256.Sum256"} {
		reg(n, hash)
	}

	for n, m := range map[string]string{"os.ReadFile": "ModelReadFile", "os.Open": "ModelOpen", "os.NewFile": "ModelNewFile", "(*os.File).Write": "ModelFileWrite", "(*os.File).WriteString": "ModelFileWriteString", "os.OpenFile": "ModelOpenFile",
		"os.Stat": "ModelStat", "os.Lstat": "ModelStat", "(*os.File).Read": "ModelFileRead", "(*os.File).WriteTo": "ModelFileWriteTo",
		"(*os.File).Stat": "ModelFileStat", "(*os.File).Name": "ModelFileName", "(*os.File).Close": "ModelFileClose"} {
		m := m
		reg(n, func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			return it.callFn(fr, it.e.stdFunc(vfPkg, m), a, nil)
		})
	}
	// A hash for tables; any hash will do.
	for _, m := range []string{"Reset", "Write", "WriteString", "Sum64"} {
		m := m
		reg("(*github.com/cespare/xxhash/v2.Digest)."+m, func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			args := append([]Value{Iface{fn.Signature.Recv().Type(), a[0]}}, a[1:]...)
			return it.callFn(fr, it.e.stdFunc(vfPkg, "ModelHash"+m), args, nil)
		})
	}
	for n, m := range map[string]string{"Sum64": "ModelSum64", "Sum64String": "ModelSum64String"} {
		m := m
		reg("github.com/cespare/xxhash/v2."+n, func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
			return it.callFn(fr, it.e.stdFunc(vfPkg, m), a, nil)
		})
	}
	reg("(*errors.joinError).Error", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.callFn(fr, it.e.stdFunc(vfPkg, "ModelJoin"), []Value{(*a[0].(*Value)).(Struct)[0]}, nil)
	})
	reg(vfPkg+".fileGet", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		name := conv(it, fr, "file name").str(a[0])
		if !strings.HasPrefix(name, "/") {
			name = "/vf/" + name // the working directory.
		}
		v, ok := it.p.files[name]
		if !ok {
			return Tuple{"", timeVal(int64(0), int64(0)), false}
		}
		return Tuple{v, copyVal(it.p.files["at:"+name]), true}
	})
}
