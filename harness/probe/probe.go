// Package probe receives what code compiled with -d=libfuzzer tells: which edges were
// taken, and what was compared with what.  It is linked with -checklinkname=0.
package probe

import (
	"math/bits"
	"unsafe"
)

//go:linkname _counters internal/fuzz._counters
var _counters [0]byte

//go:linkname _ecounters internal/fuzz._ecounters
var _ecounters [0]byte

//go:linkname libfuzzerTraceCmp1 runtime.libfuzzerTraceCmp1
//go:linkname libfuzzerTraceCmp2 runtime.libfuzzerTraceCmp2
//go:linkname libfuzzerTraceCmp4 runtime.libfuzzerTraceCmp4
//go:linkname libfuzzerTraceCmp8 runtime.libfuzzerTraceCmp8
//go:linkname libfuzzerTraceConstCmp1 runtime.libfuzzerTraceConstCmp1
//go:linkname libfuzzerTraceConstCmp2 runtime.libfuzzerTraceConstCmp2
//go:linkname libfuzzerTraceConstCmp4 runtime.libfuzzerTraceConstCmp4
//go:linkname libfuzzerTraceConstCmp8 runtime.libfuzzerTraceConstCmp8
//go:linkname libfuzzerHookStrCmp runtime.libfuzzerHookStrCmp
//go:linkname libfuzzerHookEqualFold runtime.libfuzzerHookEqualFold

func libfuzzerTraceCmp1(a, b uint8, pc uint)       {}
func libfuzzerTraceCmp2(a, b uint16, pc uint)      {}
func libfuzzerTraceCmp4(a, b uint32, pc uint)      { compared(int64(int32(a)), int64(int32(b)), pc, false) }
func libfuzzerTraceCmp8(a, b uint64, pc uint)      { compared(int64(a), int64(b), pc, false) }
func libfuzzerTraceConstCmp1(a, b uint8, pc uint)  {}
func libfuzzerTraceConstCmp2(a, b uint16, pc uint) {}
func libfuzzerTraceConstCmp4(a, b uint32, pc uint) { compared(int64(int32(a)), int64(int32(b)), pc, true) }
func libfuzzerTraceConstCmp8(a, b uint64, pc uint) { compared(int64(a), int64(b), pc, true) }
func libfuzzerHookStrCmp(a, b string, pc uint)     { texts(a, b, pc) }
func libfuzzerHookEqualFold(a, b string, pc uint)  { texts(a, b, pc) }

// Seen is what the run since Reset did; On says whether to look (one goroutine only).
var (
	On   bool
	Seen = map[uint32]struct{}{}
	// never equal so far: the constant side of comparisons, by place
	Ints = map[uint]int64{}
	Strs = map[uint]string{}
	met  = map[uint]bool{}
)

const mask = 1<<22 - 1

func compared(a, b int64, pc uint, konst bool) {
	if !On {
		return
	}
	d := a - b
	var k uint64
	switch {
	case d == 0:
		met[pc] = true
		delete(Ints, pc)
	case d > 0:
		k = 1 + uint64(min(bits.Len64(uint64(d)), 12))
	default:
		k = 20 + uint64(min(bits.Len64(uint64(-d)), 12))
	}
	Seen[id(uint64(pc), k)] = struct{}{}
	if konst && d != 0 && !met[pc] && len(Ints) < 4096 {
		Ints[pc] = a
	}
}

func texts(a, b string, pc uint) {
	if !On {
		return
	}
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	k := uint64(40 + min(n, 20))
	if a == b {
		k = 70
		met[pc] = true
		delete(Strs, pc)
	}
	Seen[id(uint64(pc), k)] = struct{}{}
	if a != b && !met[pc] && len(Strs) < 4096 && len(a) < 80 {
		Strs[pc] = a
	}
}

func id(pc, k uint64) uint32 {
	h := (pc*0x9E3779B97F4A7C15 ^ k) * 0xD6E8FEB86659FD93
	return 1<<22 | uint32(h>>40)&mask
}

// Reset forgets the edges and comparisons so far.
func Reset() {
	clear(counters())
	clear(Seen)
}

// Features are the edges, with how often they were taken, and comparisons since Reset.
func Features(f func(uint32)) {
	for i, c := range counters() {
		if c != 0 {
			f(uint32(i)<<3 | uint32(min(bits.Len8(c)-1, 7)))
		}
	}
	for k := range Seen {
		f(k)
	}
}

func counters() []byte {
	addr := unsafe.Pointer(&_counters)
	return unsafe.Slice((*byte)(addr), int(uintptr(unsafe.Pointer(&_ecounters))-uintptr(addr)))
}
