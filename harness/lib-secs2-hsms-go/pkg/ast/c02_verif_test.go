package ast_test

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	vf "github.com/younglifestyle/secs4go/zzvf"
)

var c02Name = regexp.MustCompile(`\A[A-Za-z_][A-Za-z0-9_]*(\[[0-9]+\])*\z`)
var c02Ell = regexp.MustCompile(`\A\.\.\.(\[[0-9]+\])?\z`)

func c02Int(v interface{}) *big.Int {
	switch v := v.(type) {
	case int:
		return big.NewInt(int64(v))
	case int8:
		return big.NewInt(int64(v))
	case int16:
		return big.NewInt(int64(v))
	case int32:
		return big.NewInt(int64(v))
	case int64:
		return big.NewInt(v)
	case uint:
		return new(big.Int).SetUint64(uint64(v))
	case uint8:
		return new(big.Int).SetUint64(uint64(v))
	case uint16:
		return new(big.Int).SetUint64(uint64(v))
	case uint32:
		return new(big.Int).SetUint64(uint64(v))
	case uint64:
		return new(big.Int).SetUint64(v)
	}
	return nil
}

// c02Arg makes an argument: mostly usable by the kind, sometimes not.
func c02Arg(kind string) interface{} {
	switch vf.R.Intn(12) {
	case 0:
		return []interface{}{"v1", "v2", "abc", "_x", "a[0]", "a[1][22]", "V", "var", "zz9"}[vf.R.Intn(9)]
	case 1:
		if vf.R.Intn(4) == 0 {
			return []interface{}{"", " ", "1a", "a b", "a[", "a[]", "a[x]", "...", "...[0]", "....", "a-b", "0b", "0b2", "0b101", "0b100000000", "0b11111111", "0b-1", "0b1_0", "ä", "a\n", "0B1"}[vf.R.Intn(21)]
		}
	case 2:
		if vf.R.Intn(4) == 0 {
			return []interface{}{nil, true, false, 1.5, float32(2.5), []int{1}, int64(1), struct{}{}, math.NaN(), math.Inf(1), math.Inf(-1), "x"}[vf.R.Intn(12)]
		}
	case 3:
		if kind == "F" {
			return vf.RandFloat()
		}
		if kind == "B" {
			return []interface{}{"0b1", "0b0", "0b11111111", "0b100000000", "0b10", "0b", "0b1_1"}[vf.R.Intn(7)]
		}
	case 4:
		if kind == "F" {
			return float32(vf.RandFloat())
		}
	}
	if kind == "BOOLEAN" {
		return vf.R.Intn(2) == 0
	}
	v := vf.RandInt64()
	if vf.R.Intn(3) > 0 {
		v = int64(vf.R.Intn(300)) - 20
	}
	if kind == "B" {
		if vf.R.Intn(2) > 0 {
			v = int64(vf.R.Intn(258)) - 1
		}
		return []interface{}{int(v), uint8(v), int8(v)}[vf.R.Intn(3)]
	}
	if kind == "I" || kind == "U" || kind == "F" {
		return []interface{}{int(v), int8(v), int16(v), int32(v), v, uint(v), uint8(v), uint16(v), uint32(v), uint64(v), uint64(v) ^ 1<<63}[vf.R.Intn(11)]
	}
	return v
}

// c02Want: want is the list of values ("nil" for a variable) if construction must succeed.
func c02Want(kind string, w int, args []interface{}) (want []interface{}, vars []string, ok bool) {
	switch kind {
	case "I", "U":
		if w != 1 && w != 2 && w != 4 && w != 8 {
			return nil, nil, false
		}
	case "F":
		if w != 4 && w != 8 {
			return nil, nil, false
		}
	}
	if w*len(args) > 1<<24-1 {
		return nil, nil, false
	}
	seen := map[string]bool{}
	for _, a := range args {
		if s, isS := a.(string); isS && !(kind == "B" && strings.HasPrefix(s, "0b")) {
			if !c02Name.MatchString(s) || seen[s] {
				return nil, nil, false
			}
			seen[s] = true
			vars = append(vars, s)
			want = append(want, nil)
			continue
		}
		n := c02Int(a)
		switch kind {
		case "I":
			if n == nil || n.Cmp(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), uint(8*w-1)))) < 0 || n.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(8*w-1))) >= 0 {
				return nil, nil, false
			}
			want = append(want, n.Int64())
		case "U":
			if n == nil || n.Sign() < 0 || n.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(8*w))) >= 0 {
				return nil, nil, false
			}
			want = append(want, n.Uint64())
		case "F":
			var f float64
			switch v := a.(type) {
			case float32:
				f = float64(v)
			case float64:
				f = v
			default:
				if n == nil {
					return nil, nil, false
				}
				f, _ = strconv.ParseFloat(n.String(), 64)
			}
			if math.IsNaN(f) || math.IsInf(f, 0) || w == 4 && math.Abs(f) > math.MaxFloat32 {
				return nil, nil, false
			}
			want = append(want, f)
		case "B":
			if s, isS := a.(string); isS {
				// the digits as Go reads a literal of base 2 (underscores only between digits)
				x, err := strconv.ParseInt(s, 0, 0)
				if err != nil || x < 0 || x > 255 {
					return nil, nil, false
				}
				want = append(want, int(x))
				break
			}
			switch a.(type) {
			case int, int8, uint8:
			default:
				return nil, nil, false
			}
			if n.Sign() < 0 || n.Cmp(big.NewInt(256)) >= 0 {
				return nil, nil, false
			}
			want = append(want, int(n.Int64()))
		case "BOOLEAN":
			b, isB := a.(bool)
			if !isB {
				return nil, nil, false
			}
			want = append(want, b)
		}
	}
	return want, vars, true
}

func c02Desc(kind string, w int, args []interface{}) string {
	s := fmt.Sprintf("%s%d(", kind, w)
	for i, a := range args {
		if i > 12 {
			return s + fmt.Sprintf("... %d arguments)", len(args))
		}
		s += fmt.Sprintf("%T:%v ", a, a)
	}
	return s + ")"
}

func c02Check(key, kind string, w int, args []interface{}) {
	want, vars, ok := c02Want(kind, w, args)
	desc := c02Desc(kind, w, args)
	vf.Case(desc)
	var n ast.ItemNode
	p := vf.Try(func() {
		switch kind {
		case "I":
			n = ast.NewIntNode(w, args...)
		case "U":
			n = ast.NewUintNode(w, args...)
		case "F":
			n = ast.NewFloatNode(w, args...)
		case "B":
			n = ast.NewBinaryNode(args...)
		case "BOOLEAN":
			n = ast.NewBooleanNode(args...)
		}
	})
	if !ok {
		if p == nil {
			vf.Fail(key, "%s is accepted, it must be refused", desc)
		}
		return
	}
	if p != nil {
		vf.Fail(key, "%s panics (%v), it must be accepted", desc, p)
		return
	}
	var got []interface{}
	switch v := n.Values().(type) {
	case []int64:
		for _, x := range v {
			got = append(got, x)
		}
	case []uint64:
		for _, x := range v {
			got = append(got, x)
		}
	case []float64:
		for _, x := range v {
			got = append(got, x)
		}
	case []int:
		for _, x := range v {
			got = append(got, x)
		}
	case []bool:
		for _, x := range v {
			got = append(got, x)
		}
	}
	if len(got) != len(want) || n.Size() != len(want) {
		vf.Fail(key, "%s holds %d values (Size %d)", desc, len(got), n.Size())
		return
	}
	for i := range want {
		if want[i] != nil && (got[i] != want[i]) {
			vf.Fail(key, "%s holds %v at %d, want %v", desc, got[i], i, want[i])
			return
		}
	}
	if a, b := fmt.Sprint(n.Variables()), fmt.Sprint(vars); a != b {
		vf.Fail(key, "%s lists variables %s, want %s", desc, a, b)
	}
}

func c02Text(s string) {
	vf.Case("text " + vf.Cut(s, 60))
	ok := len(s) < 1<<24
	for i := 0; i < len(s); i++ {
		ok = ok && s[i] < 128
	}
	var n ast.ItemNode
	p := vf.Try(func() { n = ast.NewASCIINode(s) })
	if (p == nil) != ok {
		vf.Fail("text", "NewASCIINode(%q, %d bytes): panic %v, want success %v", vf.Cut(s, 60), len(s), p, ok)
		return
	}
	if ok && (n.Values() != s || n.Size() != len(s)) {
		vf.Fail("text", "NewASCIINode(%q) holds %q", vf.Cut(s, 60), vf.Cut(fmt.Sprint(n.Values()), 60))
	}
}

// c02List: a random list of items and names; returns what Variables must be, or ok=false.
func c02List() {
	n := vf.R.Intn(5)
	var args []interface{}
	var vars, desc []string
	ok := true
	ell := false
	seen := map[string]bool{}
	use := func(s string) {
		if seen[s] {
			ok = false
		}
		seen[s] = true
		vars = append(vars, s)
	}
	names := []string{"a", "b", "c", "v", "v[0]", "x_1"}
	for i := 0; i < n; i++ {
		switch vf.R.Intn(10) {
		case 0, 1:
			s := names[vf.R.Intn(len(names))]
			args, desc = append(args, s), append(desc, s)
			use(s)
		case 2:
			s := []string{"...", "...[0]", "...[12]"}[vf.R.Intn(3)]
			args, desc = append(args, s), append(desc, s)
			if i == 0 || ell {
				ok = false
			}
			ell = true
			use(s)
		case 3:
			if vf.R.Intn(4) == 0 {
				bad := []interface{}{"", "1", "a b", "....", "...[", nil, 5, true, []int{1}}[vf.R.Intn(9)]
				args, desc = append(args, bad), append(desc, fmt.Sprintf("%v", bad))
				ok = false
				break
			}
			fallthrough
		case 4:
			s := names[vf.R.Intn(len(names))]
			s2 := names[vf.R.Intn(len(names))]
			if s == s2 {
				args, desc = append(args, ast.NewUintNode(1, s, 3)), append(desc, "<U1 "+s+" 3>")
				use(s)
			} else {
				args, desc = append(args, ast.NewIntNode(2, s, 1, s2)), append(desc, "<I2 "+s+" 1 "+s2+">")
				use(s)
				use(s2)
			}
		case 5:
			s := names[vf.R.Intn(len(names))]
			args, desc = append(args, ast.NewListNode(ast.NewUintNode(1, 1), ast.NewListNode(s))), append(desc, "<L <U1 1> <L "+s+">>")
			use(s)
		case 6:
			s := names[vf.R.Intn(len(names))]
			args, desc = append(args, ast.NewASCIINodeVariable(s, 0, -1)), append(desc, "<A "+s+">")
			use(s)
		default:
			args, desc = append(args, ast.NewUintNode(1, i)), append(desc, fmt.Sprintf("<U1 %d>", i))
		}
	}
	d := "L(" + strings.Join(desc, ", ") + ")"
	vf.Case(d)
	var l ast.ItemNode
	p := vf.Try(func() { l = ast.NewListNode(args...) })
	if !ok {
		if p == nil {
			vf.Fail("list", "%s is accepted, it must be refused", d)
		}
		return
	}
	if p != nil {
		vf.Fail("list", "%s panics (%v), it must be accepted", d, p)
		return
	}
	if l.Size() != n || fmt.Sprint(l.Variables()) != fmt.Sprint(vars) && len(vars)+len(l.Variables()) > 0 {
		vf.Fail("list", "%s: size %d, variables %v, want %d %v", d, l.Size(), l.Variables(), n, vars)
		return
	}
	for i, c := range l.Values().([]ast.ItemNode) {
		if a, isItem := args[i].(ast.ItemNode); isItem && c != a {
			vf.Fail("list", "%s: element %d is not the one given", d, i)
		}
	}
}

func TestVerifC02(t *testing.T) {
	type kw struct {
		k string
		w int
	}
	var kws []kw
	for _, w := range []int{1, 2, 4, 8} {
		kws = append(kws, kw{"I", w}, kw{"U", w})
	}
	kws = append(kws, kw{"F", 4}, kw{"F", 8}, kw{"B", 1}, kw{"BOOLEAN", 1})
	// single values: every constant and boundary, in every Go integer type
	for _, x := range kws {
		for _, v := range vf.Ints {
			for _, a := range []interface{}{int(v), int8(v), int16(v), int32(v), v, uint(v), uint8(v), uint16(v), uint32(v), uint64(v), uint64(v) + 1<<63} {
				c02Check("single", x.k, x.w, []interface{}{a})
				if vf.R.Intn(8) == 0 {
					c02Check("single", x.k, x.w, []interface{}{"v", a, "w"})
				}
			}
		}
		if x.k == "F" {
			for i := 0; i < 4000; i++ {
				c02Check("single", x.k, x.w, []interface{}{vf.RandFloat()})
				c02Check("single", x.k, x.w, []interface{}{float32(vf.RandFloat())})
			}
			for _, f := range []float64{math.MaxFloat32, math.Nextafter(math.MaxFloat32, math.Inf(1)), -math.MaxFloat32, -math.Nextafter(math.MaxFloat32, math.Inf(1)), math.MaxFloat64, -math.MaxFloat64, math.NaN(), math.Inf(1), math.Inf(-1), 5e-324} {
				c02Check("single", x.k, x.w, []interface{}{f})
			}
		}
		if x.k == "I" || x.k == "U" || x.k == "F" {
			for w := -9; w < 20; w++ {
				c02Check("width", x.k, w, []interface{}{1})
				c02Check("width", x.k, w, nil)
			}
		}
		// limit
		for _, d := range []int{-1, 0, 1} {
			n := (1<<24-1)/x.w + d
			args := make([]interface{}, n)
			for i := range args {
				args[i] = 1
				if x.k == "BOOLEAN" {
					args[i] = true
				}
			}
			var p interface{}
			p = vf.Try(func() {
				switch x.k {
				case "I":
					ast.NewIntNode(x.w, args...)
				case "U":
					ast.NewUintNode(x.w, args...)
				case "F":
					ast.NewFloatNode(x.w, args...)
				case "B":
					ast.NewBinaryNode(args...)
				case "BOOLEAN":
					ast.NewBooleanNode(args...)
				}
			})
			vf.Case(fmt.Sprintf("limit %v %d", x, n))
			if (p == nil) != (x.w*n <= 1<<24-1) {
				vf.Fail("limit", "%s%d with %d values: panic %v", x.k, x.w, n, p)
			}
		}
	}
	for i := 0; i < vf.N(60000); i++ {
		x := kws[vf.R.Intn(len(kws))]
		if x.k != "B" && x.k != "BOOLEAN" && vf.R.Intn(40) == 0 {
			x.w = vf.R.Intn(12) - 1
		}
		n := vf.R.Intn(5)
		if vf.R.Intn(30) == 0 {
			n = vf.R.Intn(300)
		}
		args := make([]interface{}, n)
		for j := range args {
			args[j] = c02Arg(x.k)
			if n > 20 {
				args[j] = 1
				if x.k == "BOOLEAN" {
					args[j] = true
				}
				if vf.R.Intn(20) == 0 {
					args[j] = vf.FreshName()
				}
			}
		}
		if n > 20 && vf.R.Intn(2) == 0 {
			args[vf.R.Intn(n)] = c02Arg(x.k)
		}
		c02Check("random", x.k, x.w, args)
	}
	// long lists with one unusual value anywhere
	for i := 0; i < vf.N(1500); i++ {
		x := kws[vf.R.Intn(len(kws))]
		n := 20 + vf.R.Intn(1000)
		args := make([]interface{}, n)
		for j := range args {
			args[j] = 1
			if x.k == "BOOLEAN" {
				args[j] = true
			}
		}
		p := vf.R.Intn(n)
		if vf.R.Intn(2) == 0 {
			p = n - 1 - vf.R.Intn(3)
		}
		for k := 0; k < 6; k++ {
			if args[p] = c02Arg(x.k); vf.R.Intn(2) == 0 {
				args[p] = vf.Ints[vf.R.Intn(len(vf.Ints))]
			}
			c02Check("long", x.k, x.w, args)
		}
	}
	for _, s := range vf.Strs {
		c02Text(s)
	}
	for b := 0; b < 256; b++ {
		for n := 1; n < 6; n++ {
			for p := 0; p < n; p++ {
				x := []byte(strings.Repeat("a", n))
				x[p] = byte(b)
				c02Text(string(x))
			}
		}
	}
	for _, n := range []int{1<<24 - 2, 1<<24 - 1, 1 << 24, 1<<24 + 1} {
		c02Text(strings.Repeat("z", n))
	}
	for i := 0; i < vf.N(3000); i++ {
		b := []byte(vf.RandText(vf.R.Intn(40)))
		if len(b) > 0 && vf.R.Intn(2) == 0 {
			b[vf.R.Intn(len(b))] = byte(vf.R.Intn(256))
		}
		c02Text(string(b))
	}
	for mn := -3; mn < 5; mn++ {
		for mx := -3; mx < 5; mx++ {
			for _, name := range []string{"v", "a_1[3]", "", "1", "a b", "...", "a[", "v\n"} {
				ok := c02Name.MatchString(name) && mn >= 0 && mx >= -1 && (mx == -1 || mn <= mx)
				var n ast.ItemNode
				p := vf.Try(func() { n = ast.NewASCIINodeVariable(name, mn, mx) })
				vf.Case(fmt.Sprintf("textvar %q %d %d", name, mn, mx))
				if (p == nil) != ok {
					vf.Fail("textvar", "NewASCIINodeVariable(%q,%d,%d): panic %v, want success %v", name, mn, mx, p, ok)
				}
				if p == nil && ok && (len(n.Variables()) != 1 || n.Variables()[0] != name) {
					vf.Fail("textvar", "NewASCIINodeVariable(%q,%d,%d) lists %v", name, mn, mx, n.Variables())
				}
			}
		}
	}
	for i := 0; i < vf.N(20000); i++ {
		c02List()
	}
	many := make([]interface{}, 1<<24)
	one := ast.NewBooleanNode()
	for i := range many {
		many[i] = one
	}
	for n := 1<<24 - 2; n <= 1<<24; n++ {
		p := vf.Try(func() { ast.NewListNode(many[:n]...) })
		vf.Case(fmt.Sprintf("list limit %d", n))
		if (p == nil) != (n <= 1<<24-1) {
			vf.Fail("limit", "list of %d items: panic %v", n, p)
		}
	}
	_ = c02Ell
	vf.Done("each constructor with every source constant and width boundary in every Go integer type, random argument lists (bad types, names, duplicates), size limits; distinct by the printed argument list")
}
