// Package zzvf is laid over the repository by the verification harnesses: input generation and
// an executable oracle for SECS-II items, independent of the code under test.
package zzvf

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

var (
	R      *rand.Rand
	Ints   []int64
	Strs   []string
	Thor   bool
	mu     sync.Mutex
	evals  int
	dist   = map[string]bool{}
	failed int
	nsamp  int
)

func init() {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	R = rand.New(rand.NewSource(seed*7919 + 17))
	Thor = os.Getenv("VERIF_TIER") == "thorough"
	var c struct {
		Ints []string
		Strs []string
	}
	b, _ := os.ReadFile(os.Getenv("VERIF_CONSTS"))
	json.Unmarshal(b, &c)
	s := map[int64]bool{}
	for _, x := range c.Ints {
		if n, err := strconv.ParseInt(x, 10, 64); err == nil {
			for _, d := range []int64{-1, 0, 1} {
				s[n+d] = true
			}
		}
	}
	for _, x := range []int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 1 << 24, 1<<24 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64, math.MinInt64} {
		s[x] = true
	}
	for k := range s {
		Ints = append(Ints, k)
	}
	sort.Slice(Ints, func(i, j int) bool { return Ints[i] < Ints[j] })
	Strs = c.Strs
}

// N scales an iteration count with the tier.
func N(n int) int {
	if Thor {
		return n * 10
	}
	return n
}

// Case counts one executed case; sig identifies it up to what makes it distinct ("" if trivial).
func Case(sig string) {
	mu.Lock()
	defer mu.Unlock()
	evals++
	if sig != "" && len(dist) < 2000000 {
		dist[sig] = true
	}
	if nsamp < 4 && evals%37 == 5 {
		nsamp++
		fmt.Printf("VERIF-SAMPLE %s\n", Cut(sig, 300))
	}
}

func Cut(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", "\\n")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Fail reports a concrete failing input.
func Fail(key, f string, a ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	failed++
	if failed <= 12 {
		fmt.Printf("VERIF-FAIL key=%s %s\n", key, Cut(fmt.Sprintf(f, a...), 900))
	}
}

func Failed() int { mu.Lock(); defer mu.Unlock(); return failed }

func Done(rule string) {
	fmt.Printf("VERIF-STAT evaluations=%d distinct=%d\nVERIF-RULE %s\n", evals, len(dist), rule)
}

// Try runs f and returns the recovered panic value, nil if there was none.
func Try(f func()) (p interface{}) {
	defer func() {
		if r := recover(); r != nil {
			p = r
			if p == nil {
				p = "panic"
			}
		}
	}()
	f()
	return nil
}

// Item is the harness's own item tree.
type Item struct {
	K    string // L A B BOOLEAN I U F  V (list variable) E (empty)
	W    int
	I    []int64
	U    []uint64
	F    []float64
	O    []bool
	S    string
	L    []*Item
	Vars map[int]string // position -> name (I U F B BOOLEAN)
	Name string         // V, or A variable
	Min  int
	Max  int
	IsV  bool // A variable
}

func (it *Item) Size() int {
	switch it.K {
	case "A":
		return len(it.S)
	case "B", "I":
		return len(it.I)
	case "U":
		return len(it.U)
	case "F":
		return len(it.F)
	case "BOOLEAN":
		return len(it.O)
	case "L":
		return len(it.L)
	}
	return 0
}

func (it *Item) String() string {
	if it == nil {
		return "nil"
	}
	switch it.K {
	case "A":
		if it.IsV {
			return fmt.Sprintf("A[%d..%d] var %s", it.Min, it.Max, it.Name)
		}
		return fmt.Sprintf("A[%d]%q", len(it.S), Cut(it.S, 60))
	case "B":
		return fmt.Sprintf("B[%d]%v%v", len(it.I), Cut(fmt.Sprint(it.I), 80), it.Vars)
	case "I":
		return fmt.Sprintf("I%d[%d]%v%v", it.W, len(it.I), Cut(fmt.Sprint(it.I), 120), it.Vars)
	case "U":
		return fmt.Sprintf("U%d[%d]%v%v", it.W, len(it.U), Cut(fmt.Sprint(it.U), 120), it.Vars)
	case "F":
		return fmt.Sprintf("F%d[%d]%v%v", it.W, len(it.F), Cut(fmt.Sprint(it.F), 120), it.Vars)
	case "BOOLEAN":
		return fmt.Sprintf("BOOLEAN[%d]%v%v", len(it.O), Cut(fmt.Sprint(it.O), 80), it.Vars)
	case "V":
		return "var " + it.Name
	case "E":
		return "empty"
	}
	s := fmt.Sprintf("L[%d]<", len(it.L))
	for i, c := range it.L {
		if i > 6 {
			s += "..."
			break
		}
		s += c.String() + " "
	}
	return s + ">"
}

// Args are the constructor arguments for a numeric/boolean/binary/list item.
func (it *Item) Args() []interface{} {
	n := it.Size()
	a := make([]interface{}, n)
	for i := 0; i < n; i++ {
		if nm, ok := it.Vars[i]; ok {
			a[i] = nm
			continue
		}
		switch it.K {
		case "B":
			a[i] = int(it.I[i])
		case "I":
			a[i] = it.I[i]
		case "U":
			a[i] = it.U[i]
		case "F":
			a[i] = it.F[i]
		case "BOOLEAN":
			a[i] = it.O[i]
		case "L":
			if it.L[i].K == "V" {
				a[i] = it.L[i].Name
			} else {
				a[i] = it.L[i].Build()
			}
		}
	}
	return a
}

func (it *Item) Build() ast.ItemNode {
	switch it.K {
	case "A":
		if it.IsV {
			return ast.NewASCIINodeVariable(it.Name, it.Min, it.Max)
		}
		return ast.NewASCIINode(it.S)
	case "B":
		return ast.NewBinaryNode(it.Args()...)
	case "I":
		return ast.NewIntNode(it.W, it.Args()...)
	case "U":
		return ast.NewUintNode(it.W, it.Args()...)
	case "F":
		return ast.NewFloatNode(it.W, it.Args()...)
	case "BOOLEAN":
		return ast.NewBooleanNode(it.Args()...)
	case "L":
		return ast.NewListNode(it.Args()...)
	}
	return ast.NewEmptyItemNode()
}

func (it *Item) HasVar() bool {
	if it.K == "V" || it.K == "E" || it.IsV || len(it.Vars) > 0 {
		return true
	}
	for _, c := range it.L {
		if c.HasVar() {
			return true
		}
	}
	return false
}

func (it *Item) VarNames() (r []string) {
	if it.K == "V" || it.IsV {
		return []string{it.Name}
	}
	ps := []int{}
	for p := range it.Vars {
		ps = append(ps, p)
	}
	sort.Ints(ps)
	for _, p := range ps {
		r = append(r, it.Vars[p])
	}
	for _, c := range it.L {
		r = append(r, c.VarNames()...)
	}
	return
}

func hdr(fc, n int) []byte {
	switch {
	case n < 1<<8:
		return []byte{byte(fc<<2 | 1), byte(n)}
	case n < 1<<16:
		return []byte{byte(fc<<2 | 2), byte(n >> 8), byte(n)}
	}
	return []byte{byte(fc<<2 | 3), byte(n >> 16), byte(n >> 8), byte(n)}
}

func put(b []byte, v uint64, w int) []byte {
	for i := w - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

// Encode is the SEMI E5 encoding, nil for an incomplete item.
func (it *Item) Encode() []byte {
	if it.HasVar() {
		return nil
	}
	var b []byte
	switch it.K {
	case "L":
		b = hdr(0, len(it.L))
		for _, c := range it.L {
			b = append(b, c.Encode()...)
		}
	case "A":
		b = append(hdr(16, len(it.S)), it.S...)
	case "B":
		b = hdr(8, len(it.I))
		for _, v := range it.I {
			b = append(b, byte(v))
		}
	case "BOOLEAN":
		b = hdr(9, len(it.O))
		for _, v := range it.O {
			if v {
				b = append(b, 1)
			} else {
				b = append(b, 0)
			}
		}
	case "I":
		b = hdr(map[int]int{1: 25, 2: 26, 4: 28, 8: 24}[it.W], len(it.I)*it.W)
		for _, v := range it.I {
			b = put(b, uint64(v), it.W)
		}
	case "U":
		b = hdr(map[int]int{1: 41, 2: 42, 4: 44, 8: 40}[it.W], len(it.U)*it.W)
		for _, v := range it.U {
			b = put(b, v, it.W)
		}
	case "F":
		b = hdr(map[int]int{4: 36, 8: 32}[it.W], len(it.F)*it.W)
		for _, v := range it.F {
			if it.W == 4 {
				b = put(b, uint64(math.Float32bits(float32(v))), 4)
			} else {
				b = put(b, math.Float64bits(v), 8)
			}
		}
	}
	return b
}

// Decode is a strict decoder: the item that b encodes exactly, or nil.
func Decode(b []byte) *Item {
	it, n := decode(b, 0)
	if it == nil || n != len(b) {
		return nil
	}
	return it
}

func decode(b []byte, depth int) (*Item, int) {
	if len(b) < 2 {
		return nil, 0
	}
	fc, nl := int(b[0]>>2), int(b[0]&3)
	if nl == 0 || len(b) < 1+nl {
		return nil, 0
	}
	n := 0
	for i := 0; i < nl; i++ {
		n = n<<8 | int(b[1+i])
	}
	p := 1 + nl
	if fc == 0 {
		if depth >= 4096 { // the documented limit on nesting
			return nil, 0
		}
		it := &Item{K: "L", L: []*Item{}}
		for i := 0; i < n; i++ {
			c, k := decode(b[p:], depth+1)
			if c == nil {
				return nil, 0
			}
			it.L = append(it.L, c)
			p += k
		}
		return it, p
	}
	if len(b) < p+n {
		return nil, 0
	}
	d := b[p : p+n]
	get := func(i, w int) (v uint64) {
		for j := 0; j < w; j++ {
			v = v<<8 | uint64(d[i*w+j])
		}
		return
	}
	num := func(w int) bool { return n%w == 0 }
	it := &Item{}
	switch fc {
	case 8:
		it.K = "B"
		it.I = []int64{}
		for _, x := range d {
			it.I = append(it.I, int64(x))
		}
	case 9:
		it.K = "BOOLEAN"
		it.O = []bool{}
		for _, x := range d {
			it.O = append(it.O, x != 0)
		}
	case 16:
		it.K = "A"
		it.S = string(d)
		for _, x := range d {
			if x > 127 {
				return nil, 0
			}
		}
	case 24, 25, 26, 28:
		it.K = "I"
		it.W = map[int]int{24: 8, 25: 1, 26: 2, 28: 4}[fc]
		if !num(it.W) {
			return nil, 0
		}
		it.I = []int64{}
		for i := 0; i < n/it.W; i++ {
			v := get(i, it.W)
			sh := uint(64 - 8*it.W)
			it.I = append(it.I, int64(v<<sh)>>sh)
		}
	case 40, 41, 42, 44:
		it.K = "U"
		it.W = map[int]int{40: 8, 41: 1, 42: 2, 44: 4}[fc]
		if !num(it.W) {
			return nil, 0
		}
		it.U = []uint64{}
		for i := 0; i < n/it.W; i++ {
			it.U = append(it.U, get(i, it.W))
		}
	case 32, 36:
		it.K = "F"
		it.W = map[int]int{32: 8, 36: 4}[fc]
		if !num(it.W) {
			return nil, 0
		}
		it.F = []float64{}
		for i := 0; i < n/it.W; i++ {
			var f float64
			if it.W == 4 {
				f = float64(math.Float32frombits(uint32(get(i, 4))))
			} else {
				f = math.Float64frombits(get(i, 8))
			}
			if math.IsInf(f, 0) || math.IsNaN(f) {
				return nil, 0
			}
			it.F = append(it.F, f)
		}
	default:
		return nil, 0
	}
	return it, p + n
}

// Same compares an ast item with the harness item; "" when equal.
func Same(n ast.ItemNode, it *Item) string {
	if n == nil {
		return "nil item"
	}
	switch it.K {
	case "E":
		if n.Type() != "empty" {
			return "want empty, got " + n.Type()
		}
		return ""
	case "A":
		if it.IsV {
			vs := n.Variables()
			if len(vs) != 1 || vs[0] != it.Name {
				return fmt.Sprintf("want variable %s, got %v", it.Name, vs)
			}
			return ""
		}
		v, ok := n.Values().(string)
		if !ok || n.Type() != "ascii" || v != it.S || len(n.Variables()) != 0 {
			return fmt.Sprintf("want text %q, got %s %q", Cut(it.S, 80), n.Type(), Cut(fmt.Sprint(n.Values()), 80))
		}
		return ""
	}
	if n.Size() != it.Size() {
		return fmt.Sprintf("want %d elements, got %d (%s)", it.Size(), n.Size(), n.Type())
	}
	if it.K == "L" {
		vs, ok := n.Values().([]ast.ItemNode)
		if !ok || n.Type() != "list" {
			return "want list, got " + n.Type()
		}
		for i, c := range it.L {
			if c.K == "V" {
				if vs[i].Type() != "empty" {
					return fmt.Sprintf("element %d is not a variable", i)
				}
				continue
			}
			if s := Same(vs[i], c); s != "" {
				return fmt.Sprintf("element %d: %s", i, s)
			}
		}
		if a, b := fmt.Sprint(n.Variables()), fmt.Sprint(it.VarNames()); a != b && len(it.VarNames())+len(n.Variables()) > 0 {
			return "variables " + a + " want " + b
		}
		return ""
	}
	want := map[string]string{"B": "binary", "BOOLEAN": "boolean"}[it.K]
	if want == "" {
		want = fmt.Sprintf("%s%d", strings.ToLower(it.K), it.W)
	}
	if n.Type() != want {
		return "want type " + want + ", got " + n.Type()
	}
	if a, b := fmt.Sprint(n.Variables()), fmt.Sprint(it.VarNames()); a != b {
		return "variables " + a + " want " + b
	}
	nv := n.Values()
	for i := 0; i < it.Size(); i++ {
		if _, ok := it.Vars[i]; ok {
			continue
		}
		bad := false
		switch it.K {
		case "B":
			v, ok := nv.([]int)
			bad = !ok || int64(v[i]) != it.I[i]
		case "I":
			v, ok := nv.([]int64)
			bad = !ok || v[i] != it.I[i]
		case "U":
			v, ok := nv.([]uint64)
			bad = !ok || v[i] != it.U[i]
		case "F":
			v, ok := nv.([]float64)
			bad = !ok || math.Float64bits(v[i]) != math.Float64bits(it.F[i])
			if bad && ok && it.W == 4 && math.Float32bits(float32(v[i])) == math.Float32bits(float32(it.F[i])) {
				bad = false
			}
		case "BOOLEAN":
			v, ok := nv.([]bool)
			bad = !ok || v[i] != it.O[i]
		}
		if bad {
			return fmt.Sprintf("element %d of %s differs: got %s", i, it, Cut(fmt.Sprint(nv), 200))
		}
	}
	return ""
}

// Sizes are interesting element counts.
func RandSize(max int) int {
	switch R.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1
	case 2, 3:
		c := []int{2, 3, 4, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513}
		for k := 0; k < 4; k++ {
			if n := c[R.Intn(len(c))]; n <= max {
				return n
			}
		}
	case 4:
		for k := 0; k < 6; k++ {
			n := Ints[R.Intn(len(Ints))]
			if n >= 0 && n <= int64(max) {
				return int(n)
			}
		}
	}
	m := 6
	if m > max {
		m = max
	}
	return R.Intn(m + 1)
}

func RandInt64() int64 {
	switch R.Intn(4) {
	case 0:
		return Ints[R.Intn(len(Ints))]
	case 1:
		return int64(R.Intn(600)) - 300
	case 2:
		return int64(R.Uint64()) >> uint(R.Intn(64))
	}
	return int64(1)<<uint(R.Intn(63)) - int64(R.Intn(3)-1)
}

func FitInt(v int64, w int) int64 { s := uint(64 - 8*w); return v << s >> s }

func RandFloat() float64 {
	switch R.Intn(5) {
	case 0:
		return float64(RandInt64())
	case 1:
		return []float64{0, math.Copysign(0, -1), 1, -1, 0.5, math.Pi, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, math.SmallestNonzeroFloat64, 1e-40, 16777217}[R.Intn(12)]
	case 2:
		return R.NormFloat64()
	}
	for {
		f := math.Float64frombits(R.Uint64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

var ctr int

func FreshName() string {
	ctr++
	return []string{"v", "var", "X_", "abc", "n"}[R.Intn(5)] + strconv.Itoa(ctr)
}

func RandText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(R.Intn(128))
	}
	if n > 0 && R.Intn(3) == 0 {
		for i := range b {
			b[i] = byte(32 + R.Intn(95))
		}
	}
	return string(b)
}

// Gen makes a random item; vars: probability (percent) that a leaf has variables.
func Gen(depth, vars, maxSize int) *Item {
	k := R.Intn(9)
	if depth > 0 && R.Intn(3) == 0 {
		k = 8
	}
	it := &Item{Vars: map[int]string{}}
	n := RandSize(maxSize)
	switch k {
	case 0:
		it.K = "A"
		if R.Intn(100) < vars {
			it.IsV, it.Name, it.Min, it.Max = true, FreshName(), 0, -1
			return it
		}
		it.S = RandText(n)
		return it
	case 1:
		it.K = "B"
		it.I = make([]int64, n)
		for i := range it.I {
			it.I[i] = int64(R.Intn(256))
		}
	case 2:
		it.K = "BOOLEAN"
		it.O = make([]bool, n)
		for i := range it.O {
			it.O[i] = R.Intn(2) == 0
		}
	case 3, 4:
		it.K, it.W = "I", []int{1, 2, 4, 8}[R.Intn(4)]
		it.I = make([]int64, n)
		for i := range it.I {
			it.I[i] = FitInt(RandInt64(), it.W)
		}
	case 5, 6:
		it.K, it.W = "U", []int{1, 2, 4, 8}[R.Intn(4)]
		it.U = make([]uint64, n)
		for i := range it.U {
			it.U[i] = uint64(RandInt64()) << uint(64-8*it.W) >> uint(64-8*it.W)
		}
	case 7:
		it.K, it.W = "F", []int{4, 8}[R.Intn(2)]
		it.F = make([]float64, n)
		for i := range it.F {
			f := RandFloat()
			if it.W == 4 {
				for math.Abs(f) > math.MaxFloat32 {
					f = RandFloat()
				}
				if R.Intn(2) == 0 {
					f = float64(float32(f))
				}
			}
			it.F[i] = f
		}
	case 8:
		it.K = "L"
		m := n
		if depth <= 0 {
			m = 0
		} else if m > 12 && R.Intn(6) != 0 {
			m = R.Intn(12)
		}
		it.L = make([]*Item, m)
		ms := maxSize
		if m > 12 {
			ms = 2
		}
		for i := range it.L {
			d := depth - 1
			if m > 12 {
				d = 0
			}
			if R.Intn(100) < vars/4 {
				it.L[i] = &Item{K: "V", Name: FreshName()}
			} else {
				it.L[i] = Gen(d, vars, ms)
			}
		}
		return it
	}
	if n > 0 && R.Intn(100) < vars {
		for k := 0; k < 1+R.Intn(3); k++ {
			p := R.Intn(n)
			if it.Vars[p] == "" {
				it.Vars[p] = FreshName()
				switch it.K {
				case "B", "I":
					it.I[p] = 0
				case "U":
					it.U[p] = 0
				case "F":
					it.F[p] = 0
				case "BOOLEAN":
					it.O[p] = false
				}
			}
		}
	}
	return it
}

// Big makes one item per kind with exactly n payload elements.
func Big(kind string, w, n int) *Item {
	it := &Item{K: kind, W: w, Vars: map[int]string{}}
	switch kind {
	case "A":
		it.S = RandText(n)
	case "B":
		it.I = make([]int64, n)
		for i := range it.I {
			it.I[i] = int64(R.Intn(256))
		}
	case "BOOLEAN":
		it.O = make([]bool, n)
		for i := range it.O {
			it.O[i] = R.Intn(2) == 0
		}
	case "I":
		it.I = make([]int64, n)
		for i := range it.I {
			it.I[i] = FitInt(RandInt64(), w)
		}
	case "U":
		it.U = make([]uint64, n)
		for i := range it.U {
			it.U[i] = uint64(RandInt64()) << uint(64-8*w) >> uint(64-8*w)
		}
	case "F":
		it.F = make([]float64, n)
		for i := range it.F {
			it.F[i] = float64(float32(R.NormFloat64()))
		}
	case "L":
		it.L = make([]*Item, n)
		e := &Item{K: "U", W: 1, U: []uint64{7}}
		for i := range it.L {
			it.L[i] = e
		}
	}
	return it
}

// Kinds lists (kind, width) pairs.
var Kinds = []struct {
	K string
	W int
}{{"A", 1}, {"B", 1}, {"BOOLEAN", 1}, {"I", 1}, {"I", 2}, {"I", 4}, {"I", 8}, {"U", 1}, {"U", 2}, {"U", 4}, {"U", 8}, {"F", 4}, {"F", 8}, {"L", 1}}
