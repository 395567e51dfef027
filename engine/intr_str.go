package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"go/token"
	"html"
	"math"
	"math/big"
	"mime"
	"net/http"
	"net/textproto"
	"net/url"
	"path"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// nativeFns are side-effect free standard functions executed natively when
// every argument is concrete and no error is returned; otherwise their Go
// body is executed symbolically.
var nativeFns = map[string]any{
	"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace,
	"strings.Index": strings.Index, "strings.IndexByte": strings.IndexByte, "strings.Contains": strings.Contains,
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Split": strings.Split,
	"strings.SplitN": strings.SplitN, "strings.Fields": strings.Fields, "strings.Join": strings.Join,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Trim": strings.Trim,
	"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix,
	"strings.TrimSuffix": strings.TrimSuffix, "strings.Repeat": strings.Repeat, "strings.EqualFold": strings.EqualFold,
	"strings.LastIndex": strings.LastIndex, "strings.LastIndexByte": strings.LastIndexByte, "strings.Count": strings.Count,
	"strings.Compare": strings.Compare, "strings.ContainsRune": strings.ContainsRune, "strings.IndexRune": strings.IndexRune,
	"strings.ContainsAny": strings.ContainsAny, "strings.IndexAny": strings.IndexAny, "strings.Title": strings.Title,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
	"strings.SplitAfter": strings.SplitAfter, "strings.LastIndexAny": strings.LastIndexAny,
	"strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint,
	"strconv.ParseBool": strconv.ParseBool, "strconv.ParseFloat": strconv.ParseFloat, "strconv.Itoa": strconv.Itoa,
	"strconv.FormatInt": strconv.FormatInt, "strconv.FormatUint": strconv.FormatUint, "strconv.Quote": strconv.Quote,
	"strconv.FormatFloat": strconv.FormatFloat, "strconv.Unquote": strconv.Unquote, "strconv.FormatBool": strconv.FormatBool,
	"path.Clean": path.Clean, "path.Join": path.Join, "path.Base": path.Base, "path.Dir": path.Dir, "path.IsAbs": path.IsAbs, "path.Match": path.Match,
	"net/url.QueryEscape": url.QueryEscape, "net/url.PathEscape": url.PathEscape, "net/url.QueryUnescape": url.QueryUnescape,
	"net/url.PathUnescape":        url.PathUnescape,
	"net/http.CanonicalHeaderKey": http.CanonicalHeaderKey, "net/textproto.CanonicalMIMEHeaderKey": textproto.CanonicalMIMEHeaderKey,
	"net/textproto.TrimString": textproto.TrimString,
	"html.EscapeString":        html.EscapeString, "html.UnescapeString": html.UnescapeString,
	"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.RuneCountInString": utf8.RuneCountInString,
	"unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit,
	"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper,
	"regexp.QuoteMeta": regexp.QuoteMeta, "net/http.StatusText": http.StatusText, "mime.TypeByExtension": mime.TypeByExtension,
	"encoding/hex.EncodeToString": hex.EncodeToString,
	"bytes.Equal":                 bytes.Equal, "bytes.Index": bytes.Index, "bytes.IndexByte": bytes.IndexByte, "bytes.HasPrefix": bytes.HasPrefix,
	"bytes.Contains": bytes.Contains, "bytes.Compare": bytes.Compare,
	"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Abs": math.Abs, "math.Sqrt": math.Sqrt, "math.Pow": math.Pow,
	"math.Round": math.Round, "math.Float64bits": math.Float64bits, "math.Float64frombits": math.Float64frombits, "math.IsNaN": math.IsNaN, "math.IsInf": math.IsInf,
	"math.Mod": math.Mod, "math.Log": math.Log, "math.Log2": math.Log2, "math.Exp": math.Exp, "math.Inf": math.Inf, "math.NaN": math.NaN,
	"math.Float32bits": math.Float32bits, "math.Float32frombits": math.Float32frombits,
}

var _ = base64.StdEncoding

// toReflect converts a concrete value to a host value of type rt.
func toReflect(v Value, rt reflect.Type) (reflect.Value, bool) {
	switch rt.Kind() {
	case reflect.String:
		if s, ok := v.(string); ok {
			return reflect.ValueOf(s).Convert(rt), true
		}
	case reflect.Bool:
		if b, ok := v.(bool); ok {
			return reflect.ValueOf(b), true
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if i, ok := v.(int64); ok {
			return reflect.ValueOf(i).Convert(rt), true
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if i, ok := v.(int64); ok {
			return reflect.ValueOf(uint64(i)).Convert(rt), true
		}
	case reflect.Float64, reflect.Float32:
		if f, ok := v.(float64); ok {
			return reflect.ValueOf(f).Convert(rt), true
		}
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return reflect.Value{}, false
		}
		if s.a == nil {
			return reflect.Zero(rt), true
		}
		out := reflect.MakeSlice(rt, len(s.a), len(s.a))
		for i, x := range s.a {
			r, ok := toReflect(x, rt.Elem())
			if !ok {
				return reflect.Value{}, false
			}
			out.Index(i).Set(r)
		}
		return out, true
	}
	return reflect.Value{}, false
}

func fromReflect(r reflect.Value) (Value, bool) {
	switch r.Kind() {
	case reflect.String:
		return r.String(), true
	case reflect.Bool:
		return r.Bool(), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(r.Uint()), true
	case reflect.Float64, reflect.Float32:
		return r.Float(), true
	case reflect.Slice:
		if r.IsNil() {
			return Slice{}, true
		}
		a := make([]Value, r.Len())
		for i := range a {
			x, ok := fromReflect(r.Index(i))
			if !ok {
				return nil, false
			}
			a[i] = x
		}
		return Slice{a}, true
	}
	return nil, false
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

// callNative runs a host function; ok is false when an argument is symbolic
// or the call returned an error.
func callNative(f reflect.Value, args []Value) (res Value, ok bool) {
	t := f.Type()
	in := make([]reflect.Value, 0, len(args))
	for i, a := range args {
		var at reflect.Type
		if t.IsVariadic() && i == t.NumIn()-1 {
			at = t.In(i)
		} else {
			at = t.In(i)
		}
		r, ok := toReflect(a, at)
		if !ok {
			return nil, false
		}
		in = append(in, r)
	}
	var out []reflect.Value
	func() {
		defer func() {
			if r := recover(); r != nil {
				ok = false
				out = nil
			}
		}()
		if t.IsVariadic() {
			out = f.CallSlice(in)
		} else {
			out = f.Call(in)
		}
		ok = true
	}()
	if !ok {
		return nil, false
	}
	var vs Tuple
	for _, o := range out {
		if o.Type() == errType {
			if !o.IsNil() {
				return nil, false
			}
			vs = append(vs, Iface{})
			continue
		}
		v, ok := fromReflect(o)
		if !ok {
			return nil, false
		}
		vs = append(vs, v)
	}
	switch len(vs) {
	case 0:
		return nil, true
	case 1:
		return vs[0], true
	}
	return vs, true
}

func nativeIntrinsic(name string, f any) intrinsic {
	rv := reflect.ValueOf(f)
	sym := symFns[name]
	return func(it *Interp, fr *Frame, fn *ssa.Function, args []Value) Value {
		if v, ok := callNative(rv, args); ok {
			return v
		}
		if sym != nil {
			if v, ok := sym(it, fr, args); ok {
				return v
			}
		}
		return it.runBody(fr, fn, args)
	}
}

// symFns are contracts for standard string functions on symbolic strings;
// they decline (ok=false) when the Go body should be executed instead.
type symFn func(it *Interp, fr *Frame, a []Value) (Value, bool)

var symFns map[string]symFn

type builderSt struct{ v Value }

func lazyStartsWithSpace(g Seg) bool { return false }

func (it *Interp) splitConc(fr *Frame, s Value, sep string, n int64) (Value, bool) {
	if len(sep) != 1 || n == 0 {
		return nil, false
	}
	var out []Value
	rest := s
	for n < 0 || int64(len(out)) < n-1 {
		b, a, found := it.cutByte(rest, sep[0])
		if !found {
			break
		}
		out = append(out, b)
		rest = a
	}
	out = append(out, rest)
	return Slice{out}, true
}

func isASCII(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func anyLazyHas(v Value, set string) bool {
	for _, g := range segsOf(v) {
		if g.l == nil {
			continue
		}
		for i := 0; i < len(set); i++ {
			if lazyMayContain(g.l, set[i]) {
				return true
			}
		}
	}
	return false
}

const asciiSpace = "\t\n\v\f\r "

// prefixEq compares the first len(pat) bytes of s with a concrete pattern.
func (it *Interp) hasPrefix(s Value, pat string) Value {
	c := &segCur{segsOf(s), 0}
	var cs []*Term
	for i := 0; i < len(pat); i++ {
		l, b, end := c.head()
		if end {
			return false
		}
		if l != nil {
			if !lazyMayContain(l, pat[i]) {
				return false
			}
			// materialise
			return it.hasPrefix(&SStr{[]Seg{{b: it.flat(s)}}}, pat)
		}
		switch r := it.byteEq(b, int64(pat[i])).(type) {
		case bool:
			if !r {
				return false
			}
		case *Term:
			cs = append(cs, r)
		}
		c.adv()
	}
	return it.simp(it.ts.And(cs...))
}

func (it *Interp) hasSuffix(s Value, pat string) Value {
	segs := segsOf(s)
	var cs []*Term
	k := len(pat) - 1
	for i := len(segs) - 1; i >= 0 && k >= 0; i-- {
		g := segs[i]
		if g.l != nil {
			if !lazyMayContain(g.l, pat[k]) {
				return false
			}
			return it.hasSuffix(&SStr{[]Seg{{b: it.flat(s)}}}, pat)
		}
		for j := len(g.b) - 1; j >= 0 && k >= 0; j-- {
			switch r := it.byteEq(g.b[j], int64(pat[k])).(type) {
			case bool:
				if !r {
					return false
				}
			case *Term:
				cs = append(cs, r)
			}
			k--
		}
	}
	if k >= 0 {
		return false
	}
	return it.simp(it.ts.And(cs...))
}

// dropPrefix removes n leading bytes that are not part of a lazy piece.
func dropFront(s Value, n int) (Value, bool) {
	segs := append([]Seg{}, segsOf(s)...)
	for n > 0 {
		if len(segs) == 0 || segs[0].l != nil {
			return nil, false
		}
		k := min(n, len(segs[0].b))
		segs[0] = Seg{b: segs[0].b[k:]}
		n -= k
		if len(segs[0].b) == 0 {
			segs = segs[1:]
		}
	}
	return mkSStr(segs), true
}

func dropBack(s Value, n int) (Value, bool) {
	segs := append([]Seg{}, segsOf(s)...)
	for n > 0 {
		if len(segs) == 0 || segs[len(segs)-1].l != nil {
			return nil, false
		}
		e := len(segs) - 1
		k := min(n, len(segs[e].b))
		segs[e] = Seg{b: segs[e].b[:len(segs[e].b)-k]}
		n -= k
		if len(segs[e].b) == 0 {
			segs = segs[:e]
		}
	}
	return mkSStr(segs), true
}

// containsConc decides whether s contains the concrete pattern.
func (it *Interp) containsConc(s Value, pat string) Value {
	if len(pat) == 0 {
		return true
	}
	if hasLazy(s) {
		for i := 0; i < len(pat); i++ {
			if anyLazyHas(s, pat[i:i+1]) {
				s = &SStr{[]Seg{{b: it.flat(s)}}}
				break
			}
		}
	}
	var ors []*Term
	var run []Value
	flush := func() bool {
		for i := 0; i+len(pat) <= len(run); i++ {
			switch r := it.bytesEq(run[i:i+len(pat)], strVals(pat)).(type) {
			case bool:
				if r {
					return true
				}
			case *Term:
				ors = append(ors, r)
			}
		}
		run = nil
		return false
	}
	for _, g := range segsOf(s) {
		if g.l != nil {
			if flush() {
				return true
			}
			continue
		}
		run = append(run, g.b...)
	}
	if flush() {
		return true
	}
	return it.simp(it.ts.Or(ors...))
}

func (it *Interp) foldEq(a, b Value) (Value, bool) {
	if !it.allASCII(a) || !it.allASCII(b) {
		return nil, false
	}
	return it.strEq(nil, it.mapCase(a, false), it.mapCase(b, false)), true
}

func init() {
	symFns = map[string]symFn{
		"strings.ToLower": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if !it.allASCII(a[0]) {
				return nil, false
			}
			return it.mapCase(a[0], false), true
		},
		"strings.ToUpper": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if !it.allASCII(a[0]) {
				return nil, false
			}
			return it.mapCase(a[0], true), true
		},
		"strings.TrimSpace": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if !it.allASCII(a[0]) {
				return nil, false
			}
			return it.trimSet(a[0], asciiSpace, true, true), true
		},
		"net/textproto.TrimString": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			return it.trimSet(a[0], "\t\n\r ", true, true), true
		},
		"strings.Trim": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			set, ok := a[1].(string)
			if !ok || !isASCII(set) || anyLazyHas(a[0], set) || !it.allASCII(a[0]) {
				return nil, false
			}
			return it.trimSet(a[0], set, true, true), true
		},
		"strings.TrimLeft": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			set, ok := a[1].(string)
			if !ok || !isASCII(set) || anyLazyHas(a[0], set) || !it.allASCII(a[0]) {
				return nil, false
			}
			return it.trimSet(a[0], set, true, false), true
		},
		"strings.TrimRight": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			set, ok := a[1].(string)
			if !ok || !isASCII(set) || anyLazyHas(a[0], set) || !it.allASCII(a[0]) {
				return nil, false
			}
			return it.trimSet(a[0], set, false, true), true
		},
		"strings.Split": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			sep, ok := a[1].(string)
			if !ok {
				return nil, false
			}
			return it.splitConc(fr, a[0], sep, -1)
		},
		"strings.SplitN": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			sep, ok := a[1].(string)
			n, ok2 := a[2].(int64)
			if !ok || !ok2 {
				return nil, false
			}
			return it.splitConc(fr, a[0], sep, n)
		},
		"strings.Cut": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			sep, ok := a[1].(string)
			if !ok || len(sep) != 1 {
				return nil, false
			}
			b, af, f := it.cutByte(a[0], sep[0])
			if !f {
				return Tuple{a[0], "", false}, true
			}
			return Tuple{b, af, true}, true
		},
		"strings.HasPrefix": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if p, ok := a[1].(string); ok {
				return it.hasPrefix(a[0], p), true
			}
			return nil, false
		},
		"strings.HasSuffix": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if p, ok := a[1].(string); ok {
				return it.hasSuffix(a[0], p), true
			}
			return nil, false
		},
		"strings.TrimPrefix": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if p, ok := a[1].(string); ok {
				if it.truth(it.hasPrefix(a[0], p)) {
					return dropFront(a[0], len(p))
				}
				return a[0], true
			}
			return nil, false
		},
		"strings.TrimSuffix": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if p, ok := a[1].(string); ok {
				if it.truth(it.hasSuffix(a[0], p)) {
					return dropBack(a[0], len(p))
				}
				return a[0], true
			}
			return nil, false
		},
		"strings.CutPrefix": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if p, ok := a[1].(string); ok {
				if it.truth(it.hasPrefix(a[0], p)) {
					r, ok := dropFront(a[0], len(p))
					return Tuple{r, true}, ok
				}
				return Tuple{a[0], false}, true
			}
			return nil, false
		},
		"strings.Contains": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if p, ok := a[1].(string); ok {
				return it.containsConc(a[0], p), true
			}
			return nil, false
		},
		"strings.ContainsRune": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if r, ok := a[1].(int64); ok && r >= 0 && r < 128 {
				return it.containsConc(a[0], string(rune(r))), true
			}
			return nil, false
		},
		"strings.EqualFold": func(it *Interp, fr *Frame, a []Value) (Value, bool) { return it.foldEq(a[0], a[1]) },
		"strings.Join": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			var r Value = ""
			for i, x := range a[0].(Slice).a {
				if i > 0 {
					r = it.concat(r, a[1])
				}
				r = it.concat(r, x)
			}
			return r, true
		},
		"strings.Index": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if len(it.flat(a[1])) == 0 {
				return int64(0), true
			}
			return int64(it.strIndexOf(a[0], it.flat(a[1]), 0)), true
		},
		"strings.LastIndex": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			p := it.flat(a[1])
			if len(p) == 0 {
				return it.strLen(a[0]), true
			}
			return int64(it.strLastIndexOf(a[0], p)), true
		},
		"strings.IndexByte": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			return int64(it.strIndexOf(a[0], []Value{a[1]}, 0)), true
		},
		"strings.LastIndexByte": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			return int64(it.strLastIndexOf(a[0], []Value{a[1]})), true
		},
		"strings.IndexRune": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if r, ok := a[1].(int64); ok && r >= 0 && r < 128 {
				return int64(it.strIndexOf(a[0], []Value{r}, 0)), true
			}
			return nil, false
		},
		"strings.Compare": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if it.truth(it.strEq(fr, a[0], a[1])) {
				return int64(0), true
			}
			if it.truth(it.strCmp(fr, token.LSS, a[0], a[1])) {
				return int64(-1), true
			}
			return int64(1), true
		},
		"strings.Count": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			p := it.flat(a[1])
			if len(p) != 1 {
				return nil, false
			}
			n := int64(0)
			for _, b := range it.flat(a[0]) {
				if it.truth(it.byteEq(b, p[0])) {
					n++
				}
			}
			return n, true
		},
		"strings.Replace": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			n, ok := a[3].(int64)
			if !ok {
				return nil, false
			}
			return it.replaceAll(a[0], a[1], a[2], n)
		},
		"strings.ReplaceAll": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			return it.replaceAll(a[0], a[1], a[2], -1)
		},
		"strconv.Itoa": func(it *Interp, fr *Frame, a []Value) (Value, bool) { return it.decStr(a[0]), true },
		"strconv.FormatInt": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if b, ok := a[1].(int64); ok && b == 10 {
				return it.decStr(a[0]), true
			}
			return nil, false
		},
		"strconv.FormatUint": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if b, ok := a[1].(int64); ok && b == 10 {
				return it.decStr(a[0]), true
			}
			return nil, false
		},
		"strconv.Atoi": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			if l := single(a[0]); l != nil && l.kind == 'd' && within(it, l.t, kI64) {
				return Tuple{l.t, Iface{}}, true
			}
			return nil, false
		},
		"strconv.ParseInt": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			b, ok := a[1].(int64)
			bits, ok2 := a[2].(int64)
			if l := single(a[0]); ok && ok2 && (b == 10 || b == 0) && l != nil && l.kind == 'd' {
				if bits == 0 {
					bits = 64
				}
				k := ikind{uint8(bits), true}
				if bits == 8 || bits == 16 || bits == 32 || bits == 64 {
					if b == 0 { // base 0 accepts the same decimal digits
					}
					if within(it, l.t, k) {
						return Tuple{l.t, Iface{}}, true
					}
				}
			}
			return nil, false
		},
		"strconv.ParseUint": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			b, ok := a[1].(int64)
			bits, ok2 := a[2].(int64)
			if l := single(a[0]); ok && ok2 && b == 10 && l != nil && l.kind == 'd' {
				if bits == 0 {
					bits = 64
				}
				k := ikind{uint8(bits), false}
				if (bits == 32 || bits == 64) && within(it, l.t, k) {
					return Tuple{l.t, Iface{}}, true
				}
			}
			return nil, false
		},
		"bytes.Equal": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			return it.bytesEq(a[0].(Slice).a, a[1].(Slice).a), true
		},
		"bytes.IndexByte": func(it *Interp, fr *Frame, a []Value) (Value, bool) {
			return int64(it.strIndexOf(bytesToStr(a[0].(Slice).a), []Value{a[1]}, 0)), true
		},
		"path.Clean": nil, "net/url.QueryEscape": nil,
	}

	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	// bytealg
	bv := func(v Value) []Value {
		switch v := v.(type) {
		case Slice:
			return v.a
		}
		return nil
	}
	reg("internal/bytealg.IndexByte", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		for i, b := range bv(a[0]) {
			if it.truth(it.byteEq(b, a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	})
	reg("internal/bytealg.IndexByteString", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(string); ok {
			if c, ok := a[1].(int64); ok {
				return int64(strings.IndexByte(s, byte(c)))
			}
		}
		return int64(it.strIndexOf(a[0], []Value{a[1]}, 0))
	})
	reg("internal/bytealg.LastIndexByte", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(it.strLastIndexOf(bytesToStr(bv(a[0])), []Value{a[1]}))
	})
	reg("internal/bytealg.LastIndexByteString", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(it.strLastIndexOf(a[0], []Value{a[1]}))
	})
	reg("internal/bytealg.Count", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := int64(0)
		for _, b := range bv(a[0]) {
			if it.truth(it.byteEq(b, a[1])) {
				n++
			}
		}
		return n
	})
	reg("internal/bytealg.CountString", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := int64(0)
		for _, b := range it.flat(a[0]) {
			if it.truth(it.byteEq(b, a[1])) {
				n++
			}
		}
		return n
	})
	reg("internal/bytealg.Equal", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.bytesEq(bv(a[0]), bv(a[1]))
	})
	reg("internal/bytealg.Compare", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		v, _ := symFns["strings.Compare"](it, fr, []Value{bytesToStr(bv(a[0])), bytesToStr(bv(a[1]))})
		return v
	})
	reg("internal/bytealg.CompareString", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		v, _ := symFns["strings.Compare"](it, fr, a)
		return v
	})
	reg("internal/bytealg.Index", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(it.strIndexOf(bytesToStr(bv(a[0])), bv(a[1]), 0))
	})
	reg("internal/bytealg.IndexString", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(it.strIndexOf(a[0], it.flat(a[1]), 0))
	})
	reg("internal/bytealg.MakeNoZero", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := it.concInt(a[0])
		s := make([]Value, n)
		for i := range s {
			s[i] = int64(0)
		}
		return Slice{s}
	})
	intrinsics["internal/stringslite.Index"] = nil
	delete(intrinsics, "internal/stringslite.Index")
	intrinsics["internal/stringslite.IndexByte"] = intrinsics["internal/bytealg.IndexByteString"]

	// strings.Builder
	bld := func(it *Interp, fr *Frame, v Value) *builderSt {
		p := it.nilDeref(fr, pv(v))
		b := it.p.builders[p]
		if b == nil {
			b = &builderSt{v: ""}
			it.p.builders[p] = b
		}
		return b
	}
	reg("(*strings.Builder).WriteString", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bld(it, fr, a[0])
		b.v = it.concat(b.v, a[1])
		if hasLazy(a[1]) {
			return Tuple{int64(0), Iface{}} // the count of a lazy piece is never used
		}
		return Tuple{it.strLen(a[1]), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bld(it, fr, a[0])
		b.v = it.concat(b.v, bytesToStr([]Value{a[1]}))
		return Iface{}
	})
	reg("(*strings.Builder).WriteRune", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bld(it, fr, a[0])
		s := it.runeToStr(fr, a[1])
		b.v = it.concat(b.v, s)
		return Tuple{it.strLen(s), Iface{}}
	})
	reg("(*strings.Builder).Write", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bld(it, fr, a[0])
		s := a[1].(Slice)
		b.v = it.concat(b.v, bytesToStr(s.a))
		return Tuple{int64(len(s.a)), Iface{}}
	})
	reg("(*strings.Builder).String", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value { return bld(it, fr, a[0]).v })
	reg("(*strings.Builder).Len", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		return it.strLen(bld(it, fr, a[0]).v)
	})
	reg("(*strings.Builder).Cap", intrinsics["(*strings.Builder).Len"])
	reg("(*strings.Builder).Grow", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		if n, ok := a[1].(int64); ok && n < 0 {
			panic(targetPanic{it.rtErrorPlain("strings.Builder.Grow: negative count"), it.where(fr)})
		}
		return nil
	})
	reg("(*strings.Builder).Reset", func(it *Interp, fr *Frame, fn *ssa.Function, a []Value) Value {
		bld(it, fr, a[0]).v = ""
		return nil
	})
	// strings.Reader.WriteTo etc. run from their Go bodies.
}

func within(it *Interp, t *Term, k ikind) bool {
	lo, hi := k.bounds()
	c := it.ts.And(it.ts.Le(it.ts.Big(lo), t), it.ts.Le(t, it.ts.Big(hi)))
	return it.branch(c)
}

func (it *Interp) replaceAll(s, old, nw Value, n int64) (Value, bool) {
	p := it.flat(old)
	if len(p) == 0 || n == 0 {
		return nil, false
	}
	if len(p) == 1 {
		if c, ok := p[0].(int64); ok {
			var out Value = ""
			rest := s
			for k := int64(0); n < 0 || k < n; k++ {
				b, a, f := it.cutByte(rest, byte(c))
				if !f {
					break
				}
				out = it.concat(it.concat(out, b), nw)
				rest = a
			}
			return it.concat(out, rest), true
		}
	}
	b := it.flat(s)
	var out Value = ""
	start := 0
	for i := 0; i+len(p) <= len(b); {
		if (n < 0 || n > 0) && it.truth(it.bytesEq(b[i:i+len(p)], p)) {
			out = it.concat(it.concat(out, bytesToStr(b[start:i])), nw)
			i += len(p)
			start = i
			if n > 0 {
				n--
				if n == 0 {
					break
				}
			}
			continue
		}
		i++
	}
	return it.concat(out, bytesToStr(b[start:])), true
}

var _ = fmt.Sprint
var _ = big.NewInt
