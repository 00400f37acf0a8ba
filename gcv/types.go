package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
	"sync"
)

type Leaf struct {
	Path string // e.g. ".MinEntry" or ".Leaf.Timestamp" or ".#len"
	Sort Sort
	T    types.Type // Go type of the leaf (for ranges, refs); nil for slice parts other than ref
	Ref  bool       // nullable reference (pointer, map, chan, slice base)
	Part string     // "", "ref", "off", "len", "cap"
}

const modulePath = "github.com/mozilla/crlite/go"

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}
func shortKey(s string) string {
	return strings.ReplaceAll(strings.ReplaceAll(s, modulePath+"/", ""), modulePath+".", "types.")
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByteArray(t types.Type) (int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if ok && isByte(a.Elem()) {
		return a.Len(), true
	}
	return 0, false
}
func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

var leafMu sync.Mutex
var leafMemo = map[types.Type][]Leaf{}

const maxLeaves = 80

// leaves flattens a Go type into SMT-sorted components.
func leaves(t types.Type) []Leaf {
	leafMu.Lock()
	l, ok := leafMemo[t]
	leafMu.Unlock()
	if ok {
		return l
	}
	l = leaves0(t)
	if len(l) > maxLeaves {
		l = []Leaf{{Path: "", Sort: SOpq, T: t}}
	}
	leafMu.Lock()
	leafMemo[t] = l
	leafMu.Unlock()
	return l
}

func leaves0(t types.Type) []Leaf {
	if isTime(t) {
		return []Leaf{{Path: ".ns", Sort: SInt, T: t}, {Path: ".loc", Sort: SInt, Part: "loc"}}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []Leaf{{Sort: SBool, T: t}}
		case u.Info()&types.IsInteger != 0:
			return []Leaf{{Sort: SInt, T: t}}
		case u.Info()&types.IsString != 0:
			return []Leaf{{Sort: SStr, T: t}}
		case u.Kind() == types.UnsafePointer:
			return []Leaf{{Sort: SInt, T: t, Ref: true}}
		case u.Kind() == types.UntypedNil:
			return []Leaf{{Sort: SIface, T: t}}
		}
		return []Leaf{{Sort: SFlt, T: t}}
	case *types.Pointer, *types.Map, *types.Chan:
		return []Leaf{{Sort: SInt, T: t, Ref: true}}
	case *types.Slice:
		return []Leaf{{Path: ".#ref", Sort: SInt, T: t, Ref: true, Part: "ref"}, {Path: ".#off", Sort: SInt, Part: "off"}, {Path: ".#len", Sort: SInt, Part: "len"}, {Path: ".#cap", Sort: SInt, Part: "cap"}}
	case *types.Array:
		if isByte(u.Elem()) {
			return []Leaf{{Sort: SStr, T: t}}
		}
		el := leaves(u.Elem())
		if int(u.Len())*len(el) <= 16 {
			var out []Leaf
			for i := 0; i < int(u.Len()); i++ {
				for _, e := range el {
					e.Path = fmt.Sprintf("[%d]%s", i, e.Path)
					out = append(out, e)
				}
			}
			return out
		}
		return []Leaf{{Sort: SOpq, T: t}}
	case *types.Struct:
		var out []Leaf
		if u.NumFields() == 0 {
			return []Leaf{}
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				l.Path = "." + f.Name() + l.Path
				out = append(out, l)
			}
		}
		return out
	case *types.Interface:
		return []Leaf{{Sort: SIface, T: t}}
	case *types.Signature:
		return []Leaf{{Sort: SFn, T: t}}
	case *types.Tuple:
		var out []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.Path = fmt.Sprintf("#%d%s", i, l.Path)
				out = append(out, l)
			}
		}
		return out
	}
	return []Leaf{{Sort: SOpq, T: t}}
}

// structRange gives the leaf index range of a struct field.
func fieldRange(t types.Type, idx int) (int, int, types.Type) {
	st := t.Underlying().(*types.Struct)
	f := st.Field(idx)
	off := 0
	for i := 0; i < idx; i++ {
		off += len(leaves(st.Field(i).Type()))
	}
	return off, off + len(leaves(f.Type())), f.Type()
}

func tupleRange(t *types.Tuple, idx int) (int, int, types.Type) {
	off := 0
	for i := 0; i < idx; i++ {
		off += len(leaves(t.At(i).Type()))
	}
	return off, off + len(leaves(t.At(idx).Type())), t.At(idx).Type()
}

var (
	bigOne = big.NewInt(1)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

// intRange returns min, max of a Go integer type.
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits := map[types.BasicKind]uint{types.Int: 64, types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64,
		types.Uint: 64, types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uintptr: 64, types.UntypedInt: 64, types.UntypedRune: 32}[b.Kind()]
	if bits == 0 {
		return nil, nil, false
	}
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(pow2(bits), bigOne), true
	}
	return new(big.Int).Neg(pow2(bits - 1)), new(big.Int).Sub(pow2(bits-1), bigOne), true
}

func zeroLeaf(l Leaf) *Term {
	switch l.Sort {
	case SInt:
		if l.T != nil && isTime(l.T) {
			return TimeZero
		}
		return IntC(0)
	case SBool:
		return False
	case SStr:
		if l.T != nil {
			if n, ok := isByteArray(l.T); ok {
				return zeroBytes(n)
			}
		}
		return StrC("")
	case SIface:
		return NilIface
	case SFn:
		return Sym("nilFn", SFn)
	case SFlt:
		return Sym("zeroFlt", SFlt)
	}
	return UF("zeroOpq:"+typeKey(l.T), SOpq)
}

func zeroBytes(n int64) *Term {
	if n <= 64 {
		return StrC(strings.Repeat("\x00", int(n)))
	}
	return UF("zeroBytes", SStr, IntC(n))
}

// TimeZero is the zero time.Time in nanoseconds relative to the Unix epoch.
var TimeZero = func() *Term {
	v := new(big.Int).Mul(big.NewInt(-62135596800), big.NewInt(1000000000))
	return IntBig(v)
}()
