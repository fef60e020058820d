// Package zzv holds the specifications that the analyser interprets abstractly together with the
// code of /repo. Nothing in this package is ever executed: the analyser loads it through an overlay.
package zzv

// The bodies below are placeholders; the analyser gives these functions their meaning:
// Any* yields an arbitrary value, Assume restricts the states considered, Check is a proof obligation.

func AnyBool() bool              { return false }
func AnyInt() int                { return 0 }
func AnyByte() byte              { return 0 }
func AnyU16() uint16             { return 0 }
func AnyU32() uint32             { return 0 }
func AnyI32() int32              { return 0 }
func AnyU64() uint64             { return 0 }
func AnyI64() int64             { return 0 }
func AnyF64() float64            { return 0 }
func AnyLen() int                { return 0 } // a possible length: 0 <= n
func AnyBytes() []byte           { return nil }
func AnyString() string          { return "" }
func AnyValue() interface{}      { return nil }
func AnyError() error            { return nil } // some non-nil error
func AnyInts() []int             { return nil }
func AnyValues() []interface{}   { return nil }
func Check(ok bool, what string) {}
func Assume(ok bool)             {}

// Coarse: the caller's specification does not depend on how a state was reached, so equal states are joined.
func Coarse() {}

// Recurse: a function may be entered again up to n times by the calls it makes.
func Recurse(n int) {}

// Part is the field of the structure x that has the type of like.
func Part(x, like interface{}) interface{} { return nil }

// Budget: from here on, memory reserved at once is limited to a constant and a multiple of the bytes read from r.
func Budget(r interface{}) {}

// Grow forgets the contents of the object p points to, as calls that only add to its slices and maps may
// have left it.
func Grow(p interface{}) {}

// Pieces: r delivers its data in pieces of any size, and any read of it may fail: torn is set then.
func Pieces(r interface{}, torn *bool) {}

// Short: a read of r that asks for more than there is sets short.
func Short(r interface{}, short *bool) {}

// Level is the value of the only int field of the structure x points to, SetLevel sets it.
func Level(x interface{}) int       { return 0 }
func SetLevel(x interface{}, n int) {}

// Peel: the first pass through every loop is followed apart from the others.
func Peel() {}
