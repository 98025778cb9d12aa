package mc

import (
	"encoding/binary"
	"math"
	"math/bits"
	"reflect"
	"sort"
)

// Label is an element type for containers that never look at their elements
// (list, queue, rope, ...). Labels are renamed in order of first encounter
// during canonicalisation; since the reference model is walked first, states
// that differ only by a renaming of labels coincide. Merging them is sound
// because the code under test is parametric in the element type and cannot
// inspect a label (data independence).
type Label int32

var labelType = reflect.TypeOf(Label(0))

// Key identifies a canonical state (128 bits of hash over the exact encoding).
type Key [2]uint64

type typeInfo struct {
	ptrs   bool // contains pointers (or slices, maps, ...)
	fields []reflect.Type
}

type seenKey struct {
	p uintptr
	t reflect.Type
	n int
}

type extent struct {
	lo, hi uintptr
	num    int
}

// Canon computes canonical keys. Not safe for concurrent use.
//
// The encoding describes everything reachable from the roots: struct fields
// (exported or not), the shape of the pointer graph, aliasing between slices
// (region number and offset, length, capacity, and the contents up to
// capacity), map contents, strings, scalars, dynamic types of interfaces and
// code pointers of functions. Addresses never enter the encoding: memory
// regions are numbered in order of first encounter.
type Canon struct {
	buf    []byte
	seen   map[seenKey]bool
	emit   map[seenKey]bool
	ext    []extent
	next   int
	rename map[int64]int
	info   map[reflect.Type]bool
}

func NewCanon() *Canon {
	return &Canon{
		seen:   map[seenKey]bool{},
		emit:   map[seenKey]bool{},
		rename: map[int64]int{},
		info:   map[reflect.Type]bool{},
	}
}

// Encode returns the canonical encoding of the roots. Roots must be pointers,
// maps, slices or plain values. The result is valid until the next call.
func (c *Canon) Encode(roots ...any) []byte {
	c.buf = c.buf[:0]
	clear(c.seen)
	clear(c.emit)
	clear(c.rename)
	c.ext = c.ext[:0]
	c.next = 0
	for _, r := range roots {
		if r == nil {
			continue
		}
		c.scan(reflect.ValueOf(r))
	}
	sort.Slice(c.ext, func(i, j int) bool {
		if c.ext[i].lo != c.ext[j].lo {
			return c.ext[i].lo < c.ext[j].lo
		}
		return c.ext[i].hi > c.ext[j].hi
	})
	out := c.ext[:0]
	for _, e := range c.ext {
		if n := len(out); n > 0 && e.lo < out[n-1].hi {
			if e.hi > out[n-1].hi {
				out[n-1].hi = e.hi
			}
			continue
		}
		out = append(out, e)
	}
	c.ext = out
	for _, r := range roots {
		if r == nil {
			c.byte(0xEE)
			continue
		}
		c.value(reflect.ValueOf(r))
		c.byte(0xEF)
	}
	return c.buf
}

// Key hashes the canonical encoding of the roots.
func (c *Canon) Key(roots ...any) Key { return HashBytes(c.Encode(roots...)) }

// HashBytes hashes b to 128 bits.
func HashBytes(b []byte) Key {
	h1 := uint64(0x9E3779B97F4A7C15) ^ uint64(len(b))
	h2 := uint64(0xD1B54A32D192ED03) + uint64(len(b))
	step := func(w uint64) {
		hi, lo := bits.Mul64(h1^w, 0xA0761D6478BD642F)
		h1 = hi ^ lo + 0x632BE59BD9B4E019
		hi, lo = bits.Mul64(bits.RotateLeft64(h2, 29)+w, 0xE7037ED1A0B428DB)
		h2 = (hi ^ lo) + h2*0x8EBC6AF09C88C6E3
	}
	for len(b) >= 8 {
		step(binary.LittleEndian.Uint64(b))
		b = b[8:]
	}
	var last [8]byte
	copy(last[:], b)
	step(binary.LittleEndian.Uint64(last[:]))
	step(0x589965CC75374CC3)
	return Key{h1, h2}
}

func (c *Canon) hasPtr(t reflect.Type) bool {
	if v, ok := c.info[t]; ok {
		return v
	}
	c.info[t] = false // recursion only goes through pointers
	r := false
	switch t.Kind() {
	case reflect.Pointer, reflect.Slice, reflect.Map, reflect.Interface:
		r = true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if c.hasPtr(t.Field(i).Type) {
				r = true
				break
			}
		}
	case reflect.Array:
		r = t.Len() > 0 && c.hasPtr(t.Elem())
	}
	c.info[t] = r
	return r
}

func (c *Canon) addExtent(p, size uintptr) {
	if size > 0 {
		c.ext = append(c.ext, extent{lo: p, hi: p + size})
	}
}

func (c *Canon) scan(v reflect.Value) {
	t := v.Type()
	if !c.hasPtr(t) {
		return
	}
	switch t.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		k := seenKey{v.Pointer(), t, 0}
		if c.seen[k] {
			return
		}
		c.seen[k] = true
		c.addExtent(k.p, t.Elem().Size())
		c.scan(v.Elem())
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		k := seenKey{v.Pointer(), t, v.Cap()}
		if c.seen[k] {
			return
		}
		c.seen[k] = true
		c.addExtent(k.p, uintptr(v.Cap())*t.Elem().Size())
		if c.hasPtr(t.Elem()) {
			w := v.Slice(0, v.Cap())
			for i := 0; i < w.Len(); i++ {
				c.scan(w.Index(i))
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c.scan(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			c.scan(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := seenKey{v.Pointer(), t, 0}
		if c.seen[k] {
			return
		}
		c.seen[k] = true
		c.addExtent(k.p, 1)
		if c.hasPtr(t.Elem()) || c.hasPtr(t.Key()) {
			it := v.MapRange()
			for it.Next() {
				c.scan(it.Key())
				c.scan(it.Value())
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			c.scan(v.Elem())
		}
	}
}

func (c *Canon) byte(b byte) { c.buf = append(c.buf, b) }
func (c *Canon) uint(u uint64) {
	c.buf = binary.AppendUvarint(c.buf, u)
}
func (c *Canon) int(i int64) { c.buf = binary.AppendVarint(c.buf, i) }

func (c *Canon) region(p uintptr) {
	lo, hi := 0, len(c.ext)
	for lo < hi {
		m := (lo + hi) / 2
		if c.ext[m].hi <= p {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo == len(c.ext) || c.ext[lo].lo > p {
		c.byte(0xFD) // zero-size object
		return
	}
	e := &c.ext[lo]
	if e.num == 0 {
		c.next++
		e.num = c.next
	}
	c.uint(uint64(e.num))
	c.uint(uint64(p - e.lo))
}

func (c *Canon) value(v reflect.Value) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Bool:
		if v.Bool() {
			c.byte(1)
		} else {
			c.byte(0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		i := v.Int()
		if t == labelType && i != 0 {
			n, ok := c.rename[i]
			if !ok {
				n = len(c.rename) + 1
				c.rename[i] = n
			}
			i = int64(n)
		}
		c.int(i)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		c.uint(v.Uint())
	case reflect.Float32, reflect.Float64:
		c.uint(math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		c.uint(math.Float64bits(real(v.Complex())))
		c.uint(math.Float64bits(imag(v.Complex())))
	case reflect.String:
		c.uint(uint64(v.Len()))
		c.buf = append(c.buf, v.String()...)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			c.byte(0)
		} else {
			c.byte(1)
			c.uint(uint64(v.Pointer()))
		}
	case reflect.Pointer:
		if v.IsNil() {
			c.byte(0)
			return
		}
		p := v.Pointer()
		k := seenKey{p, t, 0}
		if c.emit[k] {
			c.byte(2)
			c.region(p)
			return
		}
		c.emit[k] = true
		c.byte(1)
		c.region(p)
		c.value(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			c.byte(0)
			return
		}
		n := v.Cap()
		c.byte(1)
		c.uint(uint64(v.Len()))
		c.uint(uint64(n))
		if n == 0 {
			return
		}
		p := v.Pointer()
		c.region(p)
		k := seenKey{p, t, n}
		if c.emit[k] {
			c.byte(2)
			return
		}
		c.emit[k] = true
		w := v.Slice(0, n)
		for i := 0; i < n; i++ {
			c.value(w.Index(i))
		}
	case reflect.Struct:
		for i, n := 0, v.NumField(); i < n; i++ {
			c.value(v.Field(i))
		}
	case reflect.Array:
		for i, n := 0, v.Len(); i < n; i++ {
			c.value(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			c.byte(0)
			return
		}
		c.byte(1)
		p := v.Pointer()
		k := seenKey{p, t, 0}
		c.region(p)
		if c.emit[k] {
			c.byte(2)
			return
		}
		c.emit[k] = true
		c.mapValue(v)
	case reflect.Interface:
		if v.IsNil() {
			c.byte(0)
			return
		}
		c.byte(1)
		s := v.Elem().Type().String()
		c.uint(uint64(len(s)))
		c.buf = append(c.buf, s...)
		c.value(v.Elem())
	}
}

func (c *Canon) mapValue(v reflect.Value) {
	type ent struct {
		key string
		val reflect.Value
	}
	es := make([]ent, 0, v.Len())
	it := v.MapRange()
	for it.Next() {
		mark := len(c.buf)
		c.value(it.Key())
		es = append(es, ent{string(c.buf[mark:]), it.Value()})
		c.buf = c.buf[:mark]
	}
	sort.Slice(es, func(i, j int) bool { return es[i].key < es[j].key })
	c.uint(uint64(len(es)))
	for _, e := range es {
		c.buf = append(c.buf, e.key...)
		c.value(e.val)
	}
}
