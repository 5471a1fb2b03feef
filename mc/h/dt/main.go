// Typed values, key-values and queries: order, encoding and validation (P19).
package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/DanLavine/willow/verifmc/h/hx"
	"github.com/DanLavine/willow/verifmc/vs"

	v1common "github.com/DanLavine/willow/pkg/models/api/common/v1"
	queryassociatedaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_associated_action"
	querymatchaction "github.com/DanLavine/willow/pkg/models/api/common/v1/query_match_action"
	"github.com/DanLavine/willow/pkg/models/datatypes"
)

func main() { hx.Main() }

type val = datatypes.EncapsulatedValue
type typ = datatypes.DataType

var types = []typ{datatypes.T_uint8, datatypes.T_uint16, datatypes.T_uint32, datatypes.T_uint64, datatypes.T_uint, datatypes.T_int8, datatypes.T_int16,
	datatypes.T_int32, datatypes.T_int64, datatypes.T_int, datatypes.T_float32, datatypes.T_float64, datatypes.T_string, datatypes.T_any}

func bits(t typ) uint {
	switch t {
	case datatypes.T_uint8, datatypes.T_int8:
		return 8
	case datatypes.T_uint16, datatypes.T_int16:
		return 16
	case datatypes.T_uint32, datatypes.T_int32, datatypes.T_float32:
		return 32
	}
	return 64
}

func unsigned(t typ) bool { return t >= datatypes.T_uint8 && t <= datatypes.T_uint }
func signed(t typ) bool   { return t >= datatypes.T_int8 && t <= datatypes.T_int }
func float(t typ) bool    { return t == datatypes.T_float32 || t == datatypes.T_float64 }

func lo(t typ) *big.Int {
	if unsigned(t) {
		return new(big.Int)
	}
	return new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), bits(t)-1))
}

func hi(t typ) *big.Int {
	n := bits(t)
	if signed(t) {
		n--
	}
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), n), big.NewInt(1))
}

// whole builds the value of an integer type
func whole(t typ, i *big.Int) val {
	u, s := i.Uint64(), i.Int64()
	switch t {
	case datatypes.T_uint8:
		return datatypes.Uint8(uint8(u))
	case datatypes.T_uint16:
		return datatypes.Uint16(uint16(u))
	case datatypes.T_uint32:
		return datatypes.Uint32(uint32(u))
	case datatypes.T_uint64:
		return datatypes.Uint64(u)
	case datatypes.T_uint:
		return datatypes.Uint(uint(u))
	case datatypes.T_int8:
		return datatypes.Int8(int8(s))
	case datatypes.T_int16:
		return datatypes.Int16(int16(s))
	case datatypes.T_int32:
		return datatypes.Int32(int32(s))
	case datatypes.T_int64:
		return datatypes.Int64(s)
	}
	return datatypes.Int(int(s))
}

var texts = []string{"", "a", "b", "aa", "A", "1", "10", "9", "-1", "1E+00", " ", "é", "e\u0301", "\u2028", "<&>\"'\\/", "\x00", "\x7f", "\U0010ffff", "\ufffd", "null", "true", "{}", "a\nb", strings.Repeat("x", 300)}

// universe lists values of a type: the ends of its range, powers of two and ten and their neighbours
func universe(t typ, deep bool) (out []val) {
	switch {
	case t == datatypes.T_any:
		return []val{datatypes.Any()}
	case t == datatypes.T_string:
		for _, s := range texts {
			out = append(out, datatypes.String(s))
		}
	case float(t):
		for _, b := range floatBits(t, deep) {
			out = append(out, ofBits(t, b))
		}
	case deep && bits(t) <= 16:
		for i, one := lo(t), big.NewInt(1); i.Cmp(hi(t)) <= 0; i = new(big.Int).Add(i, one) {
			out = append(out, whole(t, i))
		}
	default:
		seen := map[string]bool{}
		add := func(i *big.Int) {
			for d := int64(-1); d <= 1; d++ {
				x := new(big.Int).Add(i, big.NewInt(d))
				if x.Cmp(lo(t)) >= 0 && x.Cmp(hi(t)) <= 0 && !seen[x.String()] {
					seen[x.String()] = true
					out = append(out, whole(t, x))
				}
			}
		}
		add(lo(t))
		add(hi(t))
		step := uint(8)
		if deep {
			step = 1
		}
		for b := uint(0); b < bits(t); b += step {
			p := new(big.Int).Lsh(big.NewInt(1), b)
			add(p)
			add(new(big.Int).Neg(p))
		}
		for p := big.NewInt(1); deep && p.Cmp(hi(t)) < 0; p = new(big.Int).Mul(p, big.NewInt(10)) {
			add(p)
			add(new(big.Int).Neg(p))
		}
	}
	return out
}

func ofBits(t typ, b uint64) val {
	if t == datatypes.T_float32 {
		return datatypes.Float32(math.Float32frombits(uint32(b)))
	}
	return datatypes.Float64(math.Float64frombits(b))
}

func floatBits(t typ, deep bool) (out []uint64) {
	eb, mb := uint(8), uint(23)
	if t == datatypes.T_float64 {
		eb, mb = 11, 52
	}
	var exps []uint64
	top := uint64(1)<<eb - 1
	if deep {
		for e := uint64(0); e <= top; e++ {
			exps = append(exps, e)
		}
	} else {
		mid := top >> 1
		exps = []uint64{0, 1, mid - 1, mid, mid + 1, mid + 4, mid + uint64(mb), top - 1, top}
	}
	all := uint64(1)<<mb - 1
	mants := []uint64{0, 1, all, 1 << (mb - 1)}
	if deep {
		for b := uint(1); b < mb; b++ {
			mants = append(mants, 1<<b, all>>b, all&^(1<<b), 0x5555555555555555&all>>b)
		}
	}
	for s := uint64(0); s < 2; s++ {
		for _, e := range exps {
			for _, m := range mants {
				out = append(out, s<<(eb+mb)|e<<mb|m)
			}
		}
	}
	return out
}

func isNaN(v val) bool {
	switch d := v.Data.(type) {
	case float32:
		return d != d
	case float64:
		return d != d
	}
	return false
}

// order is the reference: types first, then the value. NaN has no place of its own in it.
func order(a, b val) int {
	if a.Type != b.Type {
		if a.Type < b.Type {
			return -1
		}
		return 1
	}
	sign := func(less, more bool) int {
		switch {
		case less:
			return -1
		case more:
			return 1
		}
		return 0
	}
	x, y := reflect.ValueOf(a.Data), reflect.ValueOf(b.Data)
	switch {
	case a.Type == datatypes.T_any:
		return 0
	case a.Type == datatypes.T_string:
		return strings.Compare(x.String(), y.String())
	case unsigned(a.Type):
		return sign(x.Uint() < y.Uint(), x.Uint() > y.Uint())
	case signed(a.Type):
		return sign(x.Int() < y.Int(), x.Int() > y.Int())
	}
	return sign(x.Float() < y.Float(), x.Float() > y.Float())
}

func show(v val) string { return fmt.Sprintf("%s(%#v)", v.Type.ToString(), v.Data) }

// pair checks both comparisons of two values against the reference
func pair(a, b val) {
	vs.Progress()
	want := order(a, b) < 0
	if got := a.LessMatchType(b); got != want {
		hx.Fail("strict order", "%s.LessMatchType(%s) = %v", show(a), show(b), got)
	}
	if a.Type == datatypes.T_any || b.Type == datatypes.T_any {
		want = false
	}
	if got := a.Less(b); got != want {
		hx.Fail("order", "%s.Less(%s) = %v", show(a), show(b), got)
	}
}

// total checks the axioms of a strict total order on any values, NaN included: where neither is less they are one value
func total(vals []val, less func(a, b val) bool, name string) {
	n := len(vals)
	m := make([][]bool, n)
	for i := range m {
		m[i] = make([]bool, n)
		vs.Progress()
		for j := range m[i] {
			m[i][j] = less(vals[i], vals[j])
		}
	}
	same := func(a, b val) bool {
		return a.Type == b.Type && (isNaN(a) && isNaN(b) || order(a, b) == 0 && !isNaN(a) && !isNaN(b))
	}
	for i := range vals {
		vs.Progress()
		for j := range vals {
			switch {
			case m[i][j] && m[j][i]:
				hx.Fail(name+" is asymmetric", "%s and %s are less than each other", show(vals[i]), show(vals[j]))
			case !m[i][j] && !m[j][i] && !same(vals[i], vals[j]):
				hx.Fail(name+" tells different values apart", "neither of %s and %s is less", show(vals[i]), show(vals[j]))
			case m[i][j] && same(vals[i], vals[j]):
				hx.Fail(name+" is irreflexive", "%s is less than %s", show(vals[i]), show(vals[j]))
			}
			if !m[i][j] {
				continue
			}
			for k := range vals {
				if m[j][k] && !m[i][k] {
					hx.Fail(name+" is transitive", "%s < %s < %s", show(vals[i]), show(vals[j]), show(vals[k]))
				}
			}
		}
	}
	vs.Account(int64(n*n), int64(n*n*n), true, 3)
}

// same is the identity of a value: its type and every bit of its data (all NaNs are one value)
func identical(a, b val) bool {
	if a.Type != b.Type {
		return false
	}
	if isNaN(a) && isNaN(b) {
		return true
	}
	switch x := a.Data.(type) {
	case float32:
		y, ok := b.Data.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.Data.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return a.Data == b.Data
}

func identicalSets(a, b datatypes.KeyValues) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !identical(v, w) {
			return false
		}
	}
	return true
}

func trip(v val) {
	vs.Progress()
	if err := v.Validate(datatypes.MinDataType, datatypes.MaxDataType); err != nil {
		hx.Fail("every value of the types is valid", "%s: %s", show(v), err.Error())
	}
	b, err := json.Marshal(v)
	if err != nil {
		hx.Fail("a valid value encodes", "%s: %v", show(v), err)
	}
	back := val{Type: datatypes.T_string, Data: "old"}
	if err := json.Unmarshal(b, &back); err != nil {
		hx.Fail("an encoded value decodes", "%s as %s: %v", show(v), b, err)
	}
	if !identical(v, back) {
		hx.Fail("a value survives encoding", "%s encoded as %s decodes as %s", show(v), b, show(back))
	}
}

func tripSet(kv datatypes.KeyValues) {
	vs.Progress()
	if err := kv.Validate(datatypes.MinDataType, datatypes.MaxDataType); err != nil {
		hx.Fail("key-values of valid values are valid", "%v: %s", kv, err.Error())
	}
	b, err := json.Marshal(kv)
	if err != nil {
		hx.Fail("valid key-values encode", "%v: %v", kv, err)
	}
	var back datatypes.KeyValues
	if err := json.Unmarshal(b, &back); err != nil {
		hx.Fail("encoded key-values decode", "%v as %s: %v", kv, b, err)
	}
	if !identicalSets(kv, back) {
		hx.Fail("key-values survive encoding", "%v encoded as %s decode as %v", kv, b, back)
	}
	var want []string
	for k := range kv {
		want = append(want, k)
	}
	sort.Strings(want)
	got := back.Keys()
	sort.Strings(got)
	if fmt.Sprintf("%q", back.SortedKeys()) != fmt.Sprintf("%q", want) || fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		hx.Fail("keys of a set", "%v: keys %q, sorted %q", kv, got, back.SortedKeys())
	}
}

// denotes is the value a text stands for in a type: must says whether decoding has to accept it
var intText = regexp.MustCompile(`^[+-]?[0-9]+$`)
var plainInt = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)
var floatText = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
var otherFloat = regexp.MustCompile(`(?i)^[+-]?(inf|infinity|nan|0x.*p.*|.*_.*)$`)

func denotes(t typ, s string) (v val, may, must bool) {
	switch {
	case t == datatypes.T_any:
		return v, false, false
	case t == datatypes.T_string:
		return datatypes.String(s), true, true
	case unsigned(t) || signed(t):
		i, ok := new(big.Int).SetString(s, 10)
		if !intText.MatchString(s) || !ok || i.Cmp(lo(t)) < 0 || i.Cmp(hi(t)) > 0 {
			return v, false, false
		}
		return whole(t, i), true, plainInt.MatchString(s)
	}
	if !floatText.MatchString(s) {
		return v, false, false
	}
	f, _, err := big.ParseFloat(s, 10, 4000, big.ToNearestEven)
	if err != nil {
		panic(err)
	}
	if t == datatypes.T_float32 {
		x, _ := f.Float32()
		if math.IsInf(float64(x), 0) {
			return v, false, false
		}
		return datatypes.Float32(x), true, true
	}
	x, _ := f.Float64()
	if math.IsInf(x, 0) {
		return v, false, false
	}
	return datatypes.Float64(x), true, true
}

func accepts(t typ, s string) {
	vs.Progress()
	want, may, must := denotes(t, s)
	data, err := datatypes.StringDecoding(t, s)
	if err != nil {
		if must {
			hx.Fail("a text of the type is accepted", "%s %q: %v", t.ToString(), s, err)
		}
		return
	}
	got := val{Type: t, Data: data}
	if float(t) && otherFloat.MatchString(s) {
		// a hexadecimal number, an infinity or not-a-number: accepted or not, it has to be usable
		trip(got)
		return
	}
	if !may {
		hx.Fail("a text that is no value of the type is refused", "%s %q decodes as %s", t.ToString(), s, show(got))
	}
	if !identical(got, want) {
		hx.Fail("a text decodes as the value it denotes", "%s %q decodes as %s", t.ToString(), s, show(got))
	}
}

// wire is a JSON text for a value: whether it may be accepted, and as what
func wire(body string, want *val) {
	vs.Progress()
	got := val{}
	err := json.Unmarshal([]byte(body), &got)
	var set datatypes.KeyValues
	setErr := json.Unmarshal([]byte(`{"k":`+body+`}`), &set)
	if (err == nil) != (setErr == nil) {
		hx.Fail("a value decodes alike alone and in a set", "%s: alone %v, in a set %v", body, err, setErr)
	}
	switch {
	case want == nil && err == nil:
		hx.Fail("a malformed value is refused", "%s decodes as %s", body, show(got))
	case want != nil && err != nil:
		hx.Fail("a well-formed value is accepted", "%s: %v", body, err)
	case want != nil && (!identical(got, *want) || !identical(set["k"], *want) || len(set) != 1):
		hx.Fail("a value decodes as sent", "%s decodes as %s and in a set as %v", body, show(got), set)
	}
}

type text string
type small uint8

func init() {
	long := func(s *hx.Scen) *hx.Scen { s.MaxSteps, s.Horizon = 1<<50, 1<<60; return s }
	seq := func(name string, f func()) { long(hx.Seq("P19", name, f)) }

	seq("dt/order-axioms", func() {
		var vals []val
		if c := vs.Choose(3); c == 0 {
			for _, t := range types {
				u := universe(t, false)
				if hx.Thorough {
					vals = append(vals, u...)
					continue
				}
				step := 1
				if len(u) > 24 {
					step = len(u)/24 + 1
				}
				for i := 0; i < len(u); i += step {
					vals = append(vals, u[i])
				}
				if float(t) {
					vals = append(vals, ofBits(t, math.Float64bits(math.NaN())))
					if t == datatypes.T_float32 {
						vals[len(vals)-1] = datatypes.Float32(float32(math.NaN()))
					}
					vals = append(vals, u[0], u[len(u)/2])
				}
			}
		} else {
			vals = append(universe(types[9+c], false), datatypes.Any(), datatypes.Int(1), datatypes.String("1"))
		}
		total(vals, val.LessMatchType, "the strict order")
		var typed []val
		for _, v := range vals {
			if v.Type != datatypes.T_any {
				typed = append(typed, v)
			}
		}
		total(typed, val.Less, "the order")
		for _, v := range vals {
			if v.Less(datatypes.Any()) || datatypes.Any().Less(v) {
				hx.Fail("any", "%s compares with any", show(v))
			}
		}
	})
	seq("dt/order-pairs", func() {
		t := types[vs.Choose(len(types))]
		u := universe(t, bits(t) == 8 || !float(t) && bits(t) != 16 && hx.Thorough)
		var others []val
		for _, o := range types {
			if o != t {
				x := universe(o, false)
				others = append(others, x[0], x[len(x)-1], x[len(x)/2])
			}
		}
		n := 0
		for _, a := range u {
			if isNaN(a) {
				continue
			}
			for _, b := range append(others[:len(others):len(others)], u...) {
				if !isNaN(b) {
					pair(a, b)
					pair(b, a)
					n += 2
				}
			}
		}
		vs.Account(int64(len(u)), int64(n), true, 2)
	})
	seq("dt/types", func() {
		// the data types themselves
		for _, a := range types {
			for _, b := range types {
				if a.LessMatchType(b) != (a < b) {
					hx.Fail("order of types", "%v LessMatchType %v = %v", a, b, a.LessMatchType(b))
				}
				if a.Less(b) != (a < b && b != datatypes.T_any) {
					hx.Fail("order of types", "%v Less %v = %v", a, b, a.Less(b))
				}
			}
		}
		for t := typ(-2); t < 1100; t++ {
			known := t >= 1 && t <= 13 || t == 1024
			for _, r := range [][2]typ{{1, 1024}, {1, 13}, {5, 5}, {6, 10}, {13, 1024}, {1024, 1024}} {
				if err := t.Validate(r[0], r[1]); (err == nil) != (known && r[0] <= t && t <= r[1]) {
					hx.Fail("validation of a type", "%d within %v: %v", t, r, err)
				}
				if in := (v1common.TypeRestrictions{MinDataType: r[0], MaxDataType: r[1]}).TypeWithinRange(t); known && in != (r[0] <= t && t <= r[1]) {
					hx.Fail("types of a range", "%d within %v: %v", t, r, in)
				}
			}
			if (t.ToString() == "unknown") == known {
				hx.Fail("name of a type", "%d is %s", t, t.ToString())
			}
			for _, o := range []typ{0, 1, 5, 13, 14, 1024, 1025} {
				oKnown := o >= 1 && o <= 13 || o == 1024
				if err := (v1common.TypeRestrictions{MinDataType: t, MaxDataType: o}).Validate(); (err == nil) != (known && oKnown && t <= o) {
					hx.Fail("validation of a restriction", "[%d:%d]: %v", t, o, err)
				}
			}
		}
	})
	seq("dt/encoding", func() {
		t := types[vs.Choose(len(types))]
		u := universe(t, true)
		if t == datatypes.T_float64 && !hx.Thorough {
			w := u[:0:0]
			for i := 0; i < len(u); i += 13 {
				w = append(w, u[i])
			}
			u = w
		}
		for _, v := range u {
			trip(v)
		}
		vs.Account(int64(len(u)), int64(len(u)), true, 1)
	})
	seq("dt/key-values", func() {
		var vals []val
		for _, t := range types {
			u := universe(t, false)
			vals = append(vals, u[0], u[len(u)-1], u[len(u)/3])
		}
		i, n := vs.Choose(len(texts)), 0
		for _, k := range texts[i+1:] {
			for a := range vals {
				tripSet(datatypes.KeyValues{texts[i]: vals[a]})
				for b := range vals {
					tripSet(datatypes.KeyValues{texts[i]: vals[a], k: vals[b]})
					if i == 0 || hx.Thorough {
						tripSet(datatypes.KeyValues{texts[i]: vals[a], k: vals[b], "third": vals[(a+b)%len(vals)]})
					}
					n++
				}
			}
		}
		vs.Account(int64(n), int64(n), true, 3)
	})
	seq("dt/texts", func() {
		// every text over an alphabet up to a length, for every type
		alphabet := []string{"0", "1", "2", "9", "-", "+", ".", "e", "E", "_", " ", "x", "a", "\x00", "٣", "p", "I", "n", "f", "N"}
		first := vs.Choose(len(alphabet) + 1)
		n := 0
		var rec func(s string, depth int)
		rec = func(s string, depth int) {
			for _, t := range types[:13] {
				accepts(t, s)
				n++
			}
			if depth == 0 {
				return
			}
			for _, a := range alphabet {
				rec(s+a, depth-1)
			}
		}
		if first == len(alphabet) {
			rec("", 0)
		} else {
			rec(alphabet[first], hx.Pick(4, 5))
		}
		vs.Account(int64(n), int64(n), true, 5)
	})
	seq("dt/range-texts", func() {
		// numbers around the ends of every type, decorated
		t := types[vs.Choose(13)]
		n := 0
		var nums []*big.Int
		for _, o := range types[:10] {
			for d := int64(-2); d <= 2; d++ {
				for _, e := range []*big.Int{lo(o), hi(o), new(big.Int).Mul(hi(o), big.NewInt(10)), new(big.Int).Lsh(hi(o), 64)} {
					nums = append(nums, new(big.Int).Add(e, big.NewInt(d)))
				}
			}
		}
		for _, i := range nums {
			s := i.String()
			for _, x := range []string{s, "0" + s, "+" + s, "-" + s, " " + s, s + " ", s + ".0", s + ".", s + "e0", s + "E1", s + "_0", s + "\n", s + "\x00", s + "u", "0x" + s, s + "," + s, "." + s, s + "e+300", s + "e-300", s + "e-340", s + "e38", s + "e-46", "1e" + s} {
				if len(x) > 18 && strings.HasPrefix(x, "1e") {
					continue // the reference would need the number itself
				}
				if f := strings.IndexByte(x, 'e'); f >= 0 && strings.HasPrefix(x, "1e") && len(x) > 6 {
					continue
				}
				accepts(t, x)
				n++
			}
		}
		for _, x := range []string{"NaN", "nan", "Inf", "-Inf", "+inf", "infinity", "Infinit", "0x1p-2", "1e", "1e+", ".", "-", "+", "e1", "1_000", "1__0", "0x_1p0", "3.4028235e38", "3.4028236e38", "3.40282357e38", "1.7976931348623157e308", "1.7976931348623159e308", "5e-324", "2e-324", "1e-45", "7e-46", "0.1", "16777217", "9007199254740993", "true", "null", "one", "½"} {
			accepts(t, x)
			n++
		}
		vs.Account(int64(n), int64(n), true, 2)
	})
	seq("dt/json", func() {
		// values as JSON texts: every kind of type and of data
		str := func(s string) *val { v := datatypes.String(s); return &v }
		kinds := []string{`"5"`, `5`, `5.0`, `true`, `null`, `["5"]`, `[]`, `{"a":"5"}`, `{}`, `""`, `"x"`, `5e0`, ``}
		n := 0
		for t := typ(-1); t < 1030; t++ {
			for _, k := range kinds {
				for _, form := range []string{`{"Type":%s,"Data":%s}`, `{"Data":%[2]s,"Type":%[1]s}`, `{"Type":%s,"Data":%s,"Other":1}`, `{"type":%s,"data":%s}`} {
					n++
					body := fmt.Sprintf(form, fmt.Sprint(int(t)), k)
					if k == `` {
						body = fmt.Sprintf(`{"Type":%d}`, t)
					}
					var want *val
					switch {
					case t == datatypes.T_any && (k == `null` || k == ``):
						a := datatypes.Any()
						want = &a
					case t == datatypes.T_string && k[:min(1, len(k))] == `"`:
						want = str(strings.Trim(k, `"`))
					case t >= 1 && t <= 10 && k == `"5"`:
						w := whole(t, big.NewInt(5))
						want = &w
					case t == datatypes.T_float32 && k == `"5"`:
						w := datatypes.Float32(5)
						want = &w
					case t == datatypes.T_float64 && k == `"5"`:
						w := datatypes.Float64(5)
						want = &w
					}
					wire(body, want)
				}
			}
		}
		for _, ty := range []string{`"10"`, `"int"`, `10.5`, `null`, `true`, `[10]`, `{}`, `99999999999999999999`, `-1`, `0`} {
			wire(`{"Type":`+ty+`,"Data":"5"}`, nil)
			n++
		}
		for _, body := range []string{`null`, `5`, `"5"`, `[]`, `{}`, `true`, `{"Data":"5"}`, `[{"Type":10,"Data":"5"}]`} {
			wire(body, nil)
			n++
		}
		vs.Account(int64(n), int64(n), true, 1)
	})
	seq("dt/validate", func() {
		// data of every kind under every type and range of types
		datas := []any{nil, uint8(1), uint16(1), uint32(1), uint64(1), uint(1), int8(1), int16(1), int32(1), int64(1), int(1), float32(1), float64(1), "1",
			true, complex64(1), []byte("1"), []string{"1"}, map[string]string{}, struct{}{}, new(int), uintptr(1), text("1"), small(1), "\xff", "a\xc3", "\xed\xa0\x80"}
		fits := []typ{1024, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
		n := 0
		for t := typ(-1); t < 1030; t++ {
			for i, d := range datas {
				vs.Progress()
				for lo := range types {
					for hi := range types {
						a, b := types[lo], types[hi]
						v := val{Type: t, Data: d}
						err := v.Validate(a, b)
						want := i < len(fits) && fits[i] == t && a <= t && t <= b
						if (err == nil) != want {
							hx.Fail("validation of data", "type %d data %#v within [%d:%d]: %v", t, d, a, b, err)
						}
						if err != nil && err.Error() == "" {
							hx.Fail("validation errors speak", "type %d data %#v", t, d)
						}
						n++
						if lo == 0 && hi == 13 {
							kv := datatypes.KeyValues{"a": datatypes.Int(1), "k": v}
							if err := kv.Validate(a, b); (err == nil) != want {
								hx.Fail("validation of a set", "type %d data %#v: %v", t, d, err)
							}
						}
					}
				}
			}
		}
		if (datatypes.KeyValues{}).Validate(1, 1024) == nil || (datatypes.KeyValues)(nil).Validate(1, 1024) == nil {
			hx.Fail("validation of a set", "no key-values are valid")
		}
		if kv := (datatypes.KeyValues{"\xff": datatypes.Int(1)}); kv.Validate(1, 1024) == nil {
			tripSet(kv)
		}
		vs.Account(int64(n), int64(n), true, 1)
	})
	seq("dt/queries", queries)
	seq("dt/match-queries", matchQueries)
}

type vq = queryassociatedaction.ValueQuery

// valueQueries lists value queries and whether they are valid
func valueQueries(f func(q vq, ok bool)) {
	vals := []val{datatypes.Int(1), datatypes.Uint8(255), datatypes.Float32(0.1), datatypes.Float64(math.Inf(-1)), datatypes.String("\u2028\""), datatypes.Any(),
		{Type: datatypes.T_int, Data: "1"}, {Type: datatypes.T_any, Data: 1}, {Type: 14, Data: 1}, {}}
	okVal := []bool{true, true, true, true, true, true, false, false, false, false}
	rs := []typ{0, 1, 5, 10, 13, 14, 1024, 1025}
	okT := []bool{false, true, true, true, true, false, true, false}
	for i, v := range vals {
		for _, c := range []v1common.DataComparison{"=", "!=", "<", "<=", ">", ">=", "", "==", "=<", "!", " ="} {
			okC := len(c) > 0 && (c == "=" || c == "!=" || c == "<" || c == "<=" || c == ">" || c == ">=")
			for a := range rs {
				for b := range rs {
					ok := okVal[i] && okC && okT[a] && okT[b] && rs[a] <= rs[b]
					if v.Type == datatypes.T_any && c != "=" && c != "!=" {
						ok = false
					}
					f(vq{Value: v, Comparison: c, TypeRestrictions: v1common.TypeRestrictions{MinDataType: rs[a], MaxDataType: rs[b]}}, ok)
				}
			}
		}
	}
}

var tags = []datatypes.KeyValues{{"a": datatypes.Int(1)}, {"a": datatypes.String("x"), "b": datatypes.Any()}, {"b": datatypes.Float64(1)}, {"a": datatypes.Any()},
	{"a": datatypes.Uint8(255), "b": datatypes.Int(1), "c": datatypes.Int(2)}}

func judge(q *queryassociatedaction.AssociatedActionQuery, ok bool) {
	vs.Progress()
	err := q.Validate()
	if (err == nil) != ok {
		b, _ := json.MarshalIndent(q, "", " ")
		hx.Fail("validation of a query", "%s: %v", b, err)
	}
	if err != nil {
		if err.Error() == "" {
			hx.Fail("validation errors speak", "a query")
		}
		return
	}
	if q == nil {
		return
	}
	b, e := json.Marshal(q)
	if e != nil {
		hx.Fail("a valid query encodes", "%v", e)
	}
	var back queryassociatedaction.AssociatedActionQuery
	if e := json.Unmarshal(b, &back); e != nil {
		hx.Fail("an encoded query decodes", "%s: %v", b, e)
	}
	if err := back.Validate(); err != nil {
		hx.Fail("a decoded query stays valid", "%s: %v", b, err)
	}
	if !reflect.DeepEqual(norm(q), norm(&back)) {
		b2, _ := json.Marshal(back)
		hx.Fail("a query survives encoding", "%s became %s", b, b2)
	}
	for _, t := range tags {
		if q.MatchTags(t) != back.MatchTags(t) {
			hx.Fail("a decoded query selects the same", "%s on %v", b, t)
		}
	}
}

// norm drops the difference between empty and missing parts
func norm(q *queryassociatedaction.AssociatedActionQuery) *queryassociatedaction.AssociatedActionQuery {
	o := &queryassociatedaction.AssociatedActionQuery{}
	if q.Selection != nil {
		s := *q.Selection
		if len(s.IDs) == 0 {
			s.IDs = nil
		}
		if len(s.KeyValues) == 0 {
			s.KeyValues = nil
		}
		o.Selection = &s
	}
	for _, x := range q.And {
		o.And = append(o.And, norm(x))
	}
	for _, x := range q.Or {
		o.Or = append(o.Or, norm(x))
	}
	return o
}

func queries() {
	type Q = queryassociatedaction.AssociatedActionQuery
	type S = queryassociatedaction.Selection
	ip := func(i int) *int { return &i }
	n := 0
	try := func(q *Q, ok bool) { judge(q, ok); n++ }
	part := vs.Choose(4)
	if part == 0 {
		try(nil, true)
		try(&Q{}, true)
		try(&Q{Selection: &S{}}, false)
		try(&Q{Selection: &S{KeyValues: queryassociatedaction.SelectionKeyValues{}}}, false)
		try(&Q{Selection: &S{IDs: []string{}}}, false)
		try(&Q{Or: []*Q{nil}}, false)
		try(&Q{And: []*Q{nil}}, false)
		try(&Q{And: []*Q{{}, {Or: []*Q{nil}}}}, false)
		for _, k := range []string{"", "a", "\"<", "\u2028"} {
			for _, ids := range [][]string{nil, {"x"}, {"", "\"", "é"}} {
				for _, lo := range []*int{nil, ip(-1), ip(0), ip(1), ip(2)} {
					for _, hi := range []*int{nil, ip(-1), ip(0), ip(1), ip(2)} {
						ok := lo == nil || hi == nil || *lo <= *hi
						some := len(ids) > 0 || lo != nil || hi != nil
						try(&Q{Selection: &S{IDs: ids, MinNumberOfKeyValues: lo, MaxNumberOfKeyValues: hi}}, ok && some)
						kv := queryassociatedaction.SelectionKeyValues{k: vq{Value: datatypes.Int(1), Comparison: "=", TypeRestrictions: v1common.TypeRestrictions{MinDataType: 1, MaxDataType: 1024}}}
						try(&Q{Selection: &S{IDs: ids, KeyValues: kv, MinNumberOfKeyValues: lo, MaxNumberOfKeyValues: hi}}, ok)
					}
				}
			}
		}
	}
	var all []vq
	var oks []bool
	valueQueries(func(q vq, ok bool) { all, oks = append(all, q), append(oks, ok) })
	one := func(k string, i int) *Q {
		return &Q{Selection: &S{KeyValues: queryassociatedaction.SelectionKeyValues{k: all[i]}}}
	}
	for i := range all {
		j := (i*131 + 7) % len(all)
		switch part {
		case 0:
			try(one("a", i), oks[i])
		case 1:
			try(&Q{Selection: &S{KeyValues: queryassociatedaction.SelectionKeyValues{"a": all[i], "b": all[j]}}}, oks[i] && oks[j])
		case 2:
			try(&Q{And: []*Q{one("a", i)}, Or: []*Q{one("b", j)}}, oks[i] && oks[j])
			try(&Q{Selection: one("c", i).Selection, And: []*Q{one("a", j)}}, oks[i] && oks[j])
		case 3:
			try(&Q{Or: []*Q{one("b", i), {And: []*Q{one("a", j), {}}}}}, oks[i] && oks[j])
		}
	}
	vs.Account(int64(n), int64(n), true, 3)
}

func matchQueries() {
	type Q = querymatchaction.MatchActionQuery
	ip := func(i int) *int { return &i }
	n := 0
	for _, lo := range []*int{nil, ip(0), ip(2)} {
		for _, hi := range []*int{nil, ip(0), ip(2)} {
			valueQueries(func(v vq, _ bool) {
				if v.Comparison != "=" {
					return
				}
				okV := v.Value.Validate(datatypes.MinDataType, datatypes.MaxDataType) == nil
				okT := v.TypeRestrictions.Validate() == nil
				q := &Q{KeyValues: querymatchaction.MatchKeyValues{"a": {Value: v.Value, TypeRestrictions: v.TypeRestrictions}, "": {Value: datatypes.Int(1), TypeRestrictions: v1common.TypeRestrictions{MinDataType: 1, MaxDataType: 13}}}, MinNumberOfPermutationKeyValues: lo, MaxNumberOfPermutationKeyValues: hi}
				err := q.Validate()
				if (err == nil) != (okV && okT) {
					hx.Fail("validation of a match", "%+v: %v", q, err)
				}
				n++
				if err != nil {
					return
				}
				b, e := json.Marshal(q)
				if e != nil {
					hx.Fail("a valid match encodes", "%v", e)
				}
				var back Q
				if e := json.Unmarshal(b, &back); e != nil {
					hx.Fail("an encoded match decodes", "%s: %v", b, e)
				}
				if !reflect.DeepEqual(q, &back) {
					b2, _ := json.Marshal(back)
					hx.Fail("a match survives encoding", "%s became %s", b, b2)
				}
			})
		}
	}
	if (&Q{}).Validate() == nil {
		hx.Fail("validation of a match", "no key-values are valid")
	}
	vs.Account(int64(n), int64(n), true, 1)
}
