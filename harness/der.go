package main

// ASN.1 values, a reference DER encoder (X.690) over the AST, and the bridge
// from generated Go types to reflect types.

import (
	"bytes"
	"encoding/asn1"
	"errors"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	a "github.com/chemikadze/asn1go"
)

// av is an ASN.1 value.
type av struct {
	absent bool
	b      bool
	i      *big.Int
	s      []byte
	bits   int
	oid    []int
	t      time.Time
	list   []*av // elements, or components in order
	alt    int   // CHOICE alternative or ANY kind; the value is list[0]
}

func (v *av) String() string {
	switch {
	case v == nil:
		return "nil"
	case v.absent:
		return "absent"
	case v.i != nil:
		return v.i.String()
	case v.s != nil:
		return fmt.Sprintf("%q/%d", v.s, v.bits)
	case v.oid != nil:
		return fmt.Sprint(v.oid)
	case !v.t.IsZero():
		return v.t.Format(time.RFC3339)
	case v.list != nil:
		return fmt.Sprintf("%v#%d", v.list, v.alt)
	}
	return fmt.Sprint(v.b)
}

type der struct {
	m     *a.ModuleDefinition
	loose bool // generated types that reflection can not build are passed over
}

type tlv struct {
	class, tag  int
	constructed bool
	content     []byte
}

func (t tlv) bytes() []byte {
	var out []byte
	id := byte(t.class << 6)
	if t.constructed {
		id |= 0x20
	}
	if t.tag < 31 {
		out = append(out, id|byte(t.tag))
	} else {
		out = append(out, id|31)
		var d []byte
		for n := t.tag; ; n >>= 7 {
			d = append([]byte{byte(n & 127)}, d...)
			if n < 128 {
				break
			}
		}
		for i := range d {
			if i < len(d)-1 {
				d[i] |= 128
			}
		}
		out = append(out, d...)
	}
	if n := len(t.content); n < 128 {
		out = append(out, byte(n))
	} else {
		var d []byte
		for ; n > 0; n >>= 8 {
			d = append([]byte{byte(n)}, d...)
		}
		out = append(out, 128|byte(len(d)))
		out = append(out, d...)
	}
	return append(out, t.content...)
}

// def follows references (definitions are untagged in the explored modules).
func (d *der) def(t a.Type) a.Type {
	g := cgModel{m: d.m}
	for {
		switch x := t.(type) {
		case a.ConstraintedType:
			t = x.Type
			continue
		case a.TypeReference:
			n, lt := g.leaf(x)
			if lt == nil {
				return a.TypeReference(n)
			}
			t = stripWrap(lt)
			continue
		}
		return t
	}
}

func intContent(z *big.Int) []byte {
	if z.Sign() == 0 {
		return []byte{0}
	}
	if z.Sign() > 0 {
		b := z.Bytes()
		if b[0]&128 != 0 {
			b = append([]byte{0}, b...)
		}
		return b
	}
	n := 1
	for {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
		if new(big.Int).Neg(lim).Cmp(z) <= 0 {
			break
		}
		n++
	}
	b := new(big.Int).Add(z, new(big.Int).Lsh(big.NewInt(1), uint(8*n))).Bytes()
	for len(b) < n {
		b = append([]byte{0}, b...)
	}
	return b
}

var stringTags = map[int]int{a.UTF8String: 12, a.NumericString: 18, a.PrintableString: 19, a.IA5String: 22}

// enc is the encoding of a value of a type.
func (d *der) enc(t a.Type, v *av) tlv {
	switch x := d.def(t).(type) {
	case a.TaggedType:
		explicit := d.m.TagDefault != a.TAGS_IMPLICIT
		if x.HasTagType {
			explicit = x.TagType != a.TAGS_IMPLICIT
		} else {
			switch d.def(x.Type).(type) {
			case a.ChoiceType, a.AnyType:
				explicit = true
			}
		}
		class := map[int]int{a.CLASS_APPLICATION: 1, a.CLASS_CONTEXT_SPECIFIC: 2, a.CLASS_PRIVATE: 3}[x.Tag.Class]
		in := d.enc(x.Type, v)
		n := int(x.Tag.ClassNumber.(a.Number))
		if explicit {
			return tlv{class, n, true, in.bytes()}
		}
		return tlv{class, n, in.constructed, in.content}
	case a.BooleanType:
		if v.b {
			return tlv{0, 1, false, []byte{255}}
		}
		return tlv{0, 1, false, []byte{0}}
	case a.IntegerType:
		return tlv{0, 2, false, intContent(v.i)}
	case a.EnumeratedType:
		return tlv{0, 10, false, intContent(v.i)}
	case a.OctetStringType:
		return tlv{0, 4, false, v.s}
	case a.BitStringType:
		return tlv{0, 3, false, append([]byte{byte((8 - v.bits%8) % 8)}, v.s...)}
	case a.ObjectIdentifierType:
		var c []byte
		arc := func(n int) {
			var d []byte
			for ; ; n >>= 7 {
				d = append([]byte{byte(n & 127)}, d...)
				if n < 128 {
					break
				}
			}
			for i := range d {
				if i < len(d)-1 {
					d[i] |= 128
				}
			}
			c = append(c, d...)
		}
		arc(v.oid[0]*40 + v.oid[1])
		for _, n := range v.oid[2:] {
			arc(n)
		}
		return tlv{0, 6, false, c}
	case a.RestrictedStringType:
		return tlv{0, stringTags[x.LexType], false, v.s}
	case a.TypeReference:
		if x == "UTCTime" {
			return tlv{0, 23, false, []byte(v.t.Format("060102150405Z"))}
		}
		return tlv{0, 24, false, []byte(v.t.Format("20060102150405Z"))}
	case a.SequenceType:
		return tlv{0, 16, true, bytes.Join(d.components(x.Components, x.ExtensionAdditions, v), nil)}
	case a.SetType:
		parts := d.components(x.Components, x.ExtensionAdditions, v)
		sort.SliceStable(parts, func(i, j int) bool { return tagKey(parts[i]) < tagKey(parts[j]) })
		return tlv{0, 17, true, bytes.Join(parts, nil)}
	case a.SequenceOfType:
		var out []byte
		for _, e := range v.list {
			out = append(out, d.enc(x.Type, e).bytes()...)
		}
		return tlv{0, 16, true, out}
	case a.SetOfType:
		var parts [][]byte
		for _, e := range v.list {
			parts = append(parts, d.enc(x.Type, e).bytes())
		}
		sort.SliceStable(parts, func(i, j int) bool { return bytes.Compare(parts[i], parts[j]) < 0 })
		return tlv{0, 17, true, bytes.Join(parts, nil)}
	case a.ChoiceType:
		return d.enc(x.AlternativeTypeList[v.alt].Type, v.list[0])
	case a.AnyType:
		return d.enc(anyTypes[v.alt], v.list[0])
	}
	panic(fmt.Sprintf("harness: no encoding of %#v", t))
}

var anyTypes = []a.Type{a.IntegerType{}, a.RestrictedStringType{LexType: a.PrintableString}, a.ObjectIdentifierType{}}

func tagKey(b []byte) int {
	n := int(b[0] & 31)
	if n == 31 {
		n = 0
		for _, x := range b[1:] {
			n = n<<7 | int(x&127)
			if x < 128 {
				break
			}
		}
	}
	return int(b[0]>>6)<<40 | n
}

func comps(cs a.ComponentTypeList, ext a.ExtensionAdditions) []a.NamedComponentType {
	var out []a.NamedComponentType
	for _, c := range cs {
		out = append(out, c.(a.NamedComponentType))
	}
	for _, c := range ext {
		out = append(out, c.(a.NamedComponentType))
	}
	return out
}

func (d *der) components(cs a.ComponentTypeList, ext a.ExtensionAdditions, v *av) [][]byte {
	var out [][]byte
	for i, c := range comps(cs, ext) {
		e := v.list[i]
		if e.absent {
			continue
		}
		if c.Default != nil {
			if n, ok := (*c.Default).(a.Number); ok && e.i != nil && e.i.Cmp(big.NewInt(int64(n))) == 0 {
				continue
			}
		}
		out = append(out, d.enc(c.NamedType.Type, e).bytes())
	}
	return out
}

// values lists the explored values of a type; nonzero leaves out those whose Go value is the zero value.
func (d *der) values(t a.Type, bigInt, nonzero bool, max int) []*av {
	var out []*av
	switch x := d.def(t).(type) {
	case a.TaggedType:
		return d.values(x.Type, bigInt, nonzero, max)
	case a.BooleanType:
		out = []*av{{b: true}}
		if !nonzero {
			out = append(out, &av{})
		}
	case a.IntegerType:
		for _, n := range []int64{5, 0, -129, 128, 1 << 62, -1, 127, 65536, -32768, -9223372036854775808} {
			if n != 0 || !nonzero {
				out = append(out, &av{i: big.NewInt(n)})
			}
		}
		if bigInt {
			out = append(out, &av{i: new(big.Int).Lsh(big.NewInt(-3), 80)})
		}
	case a.EnumeratedType:
		for _, n := range []int64{1, 0, 300} {
			if n != 0 || !nonzero {
				out = append(out, &av{i: big.NewInt(n)})
			}
		}
	case a.OctetStringType:
		out = []*av{{s: []byte{1, 0, 255}}, {s: bytes.Repeat([]byte("x"), 200)}}
		if !nonzero {
			out = append(out, &av{s: []byte{}})
		}
	case a.BitStringType:
		out = []*av{{s: []byte{0xA5, 0x80}, bits: 9}, {s: []byte{1}, bits: 8}}
		if !nonzero {
			out = append(out, &av{s: []byte{}})
		}
	case a.ObjectIdentifierType:
		out = []*av{{oid: []int{1, 2, 840, 113549}}, {oid: []int{2, 999, 3}}, {oid: []int{0, 0}}}
	case a.RestrictedStringType:
		switch x.LexType {
		case a.UTF8String:
			out = []*av{{s: []byte("Plain 1")}, {s: []byte("h\u00e9\u4e16*")}}
		case a.NumericString:
			out = []*av{{s: []byte("12 30")}}
		case a.IA5String:
			out = []*av{{s: []byte("Plain 1")}, {s: []byte("a@b&c*")}}
		default:
			out = []*av{{s: []byte("Plain 1")}, {s: []byte("12")}}
		}
		if !nonzero {
			out = append(out, &av{s: []byte{}})
		}
	case a.TypeReference:
		out = []*av{{t: time.Date(2019, 2, 3, 4, 5, 6, 0, time.UTC)}}
		if x == "GeneralizedTime" {
			out = append(out, &av{t: time.Date(2051, 12, 31, 23, 59, 59, 0, time.UTC)})
		} else {
			out = append(out, &av{t: time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC)})
		}
	case a.SequenceType:
		out = d.structValues(comps(x.Components, x.ExtensionAdditions), bigInt, max)
	case a.SetType:
		out = d.structValues(comps(x.Components, x.ExtensionAdditions), bigInt, max)
	case a.SequenceOfType:
		out = d.listValues(x.Type, bigInt, nonzero)
	case a.SetOfType:
		out = d.listValues(x.Type, bigInt, nonzero)
	case a.ChoiceType:
		for i, alt := range x.AlternativeTypeList {
			for _, v := range d.values(alt.Type, bigInt, nonzero, 2) {
				out = append(out, &av{alt: i, list: []*av{v}})
			}
		}
	case a.AnyType:
		out = []*av{{alt: 0, list: []*av{{i: big.NewInt(-129)}}}, {alt: 1, list: []*av{{s: []byte("Any 1")}}}, {alt: 2, list: []*av{{oid: []int{1, 3, 6}}}}}
	default:
		panic(fmt.Sprintf("harness: no values of %#v", t))
	}
	if len(out) > max {
		out = out[:max]
	}
	return out
}

func (d *der) listValues(t a.Type, bigInt, nonzero bool) []*av {
	es := d.values(t, bigInt, false, 4)
	out := []*av{{list: es}, {list: es[:1]}}
	var rev []*av
	for i := len(es) - 1; i >= 0; i-- {
		rev = append(rev, es[i])
	}
	out = append(out, &av{list: append(rev, es[0])})
	if !nonzero {
		out = append(out, &av{list: []*av{}})
	}
	return out
}

// compValues are the explored values of a component.
func (d *der) compValues(c a.NamedComponentType, bigInt bool, max int) []*av {
	if c.IsOptional {
		out := d.values(c.NamedType.Type, bigInt, true, max)
		if d.iface(c.NamedType.Type) || d.untaggedChoice(c.NamedType.Type) {
			return out // encoding/asn1 can not leave an interface out
		}
		if e := d.empty(c.NamedType.Type); e != nil {
			out = append(out, e) // present and empty, other than absent
		}
		return append([]*av{{absent: true}}, out...)
	}
	if c.Default != nil {
		out := d.values(c.NamedType.Type, bigInt, false, max+1)
		if n, ok := (*c.Default).(a.Number); ok && n != 5 && len(out) > 0 && out[0].i != nil {
			out = append([]*av{{i: big.NewInt(int64(n))}}, out...) // 5 is among the values
		}
		return out
	}
	return d.values(c.NamedType.Type, bigInt, false, max)
}

// empty is the empty value of a type whose Go value is a slice, which is not the zero value; nil for other types.
func (d *der) empty(t a.Type) *av {
	switch x := d.stripAll(t).(type) {
	case a.SequenceOfType, a.SetOfType:
		return &av{list: []*av{}}
	case a.OctetStringType, a.BitStringType:
		return &av{s: []byte{}}
	case a.ChoiceType:
		if len(x.AlternativeTypeList) == 1 && !d.rawChoice(x) {
			if e := d.empty(x.AlternativeTypeList[0].Type); e != nil {
				return &av{list: []*av{e}}
			}
		}
	}
	return nil
}

func (d *der) stripAll(t a.Type) a.Type {
	for {
		x, ok := d.def(t).(a.TaggedType)
		if !ok {
			return d.def(t)
		}
		t = x.Type
	}
}

func (d *der) untaggedChoice(t a.Type) bool {
	ch, ok := d.stripAll(t).(a.ChoiceType)
	if !ok || len(ch.AlternativeTypeList) == 1 {
		return false
	}
	return !d.rawChoice(ch)
}

func (d *der) rawChoice(ch a.ChoiceType) bool {
	for _, alt := range ch.AlternativeTypeList {
		if (&cgModel{m: d.m}).tagged(alt.Type) {
			return true
		}
	}
	return false
}

// structValues: every combination of component values for small structures, else diagonals.
func (d *der) structValues(cs []a.NamedComponentType, bigInt bool, max int) []*av {
	var vs [][]*av
	total := 1
	for _, c := range cs {
		x := d.compValues(c, bigInt, 3)
		vs = append(vs, x)
		total = min(total*len(x), 64)
	}
	var out []*av
	for n := 0; n < total; n++ {
		k := n
		v := &av{list: []*av{}}
		for _, x := range vs {
			v.list = append(v.list, x[k%len(x)])
			k /= len(x)
		}
		out = append(out, v)
	}
	return out
}

// allStructValues is every combination.
func (d *der) allStructValues(cs []a.NamedComponentType, bigInt bool, max int) []*av {
	if len(cs) > 5 {
		return d.oneAtATime(cs, bigInt, max)
	}
	out := []*av{{list: []*av{}}}
	for _, c := range cs {
		var next []*av
		for _, p := range out {
			for _, x := range d.compValues(c, bigInt, max) {
				next = append(next, &av{list: append(append([]*av{}, p.list...), x)})
			}
		}
		out = next
	}
	return out
}

// oneAtATime: first and second values of all components, and every other value of each of the first, middle and last four.
func (d *der) oneAtATime(cs []a.NamedComponentType, bigInt bool, max int) []*av {
	var vs [][]*av
	for _, c := range cs {
		vs = append(vs, d.compValues(c, bigInt, max))
	}
	with := func(k, at, n int) *av {
		v := &av{list: []*av{}}
		for i, x := range vs {
			if i == at {
				v.list = append(v.list, x[n])
			} else {
				v.list = append(v.list, x[min(k, len(x)-1)])
			}
		}
		return v
	}
	out := []*av{with(0, -1, 0), with(1, -1, 0)}
	for i := range vs {
		if i < 4 || i >= len(vs)-4 || i >= len(vs)/2-2 && i < len(vs)/2+2 {
			for n := range vs[i] {
				out = append(out, with(1, i, n))
			}
		}
	}
	return out
}

// ---------------------------------------------------------------- Go values

var (
	tBig  = reflect.TypeOf((*big.Int)(nil))
	tTime = reflect.TypeOf(time.Time{})
	tBits = reflect.TypeOf(asn1.BitString{})
	tRaw  = reflect.TypeOf(asn1.RawValue{})
	tOID  = reflect.TypeOf(asn1.ObjectIdentifier{})
)

// errZero: encoding/asn1 takes the zero value of an OPTIONAL component for absent, and has no default values of *big.Int.
var errZero = errors.New("zero value of an OPTIONAL component")

// toGo sets a Go value of the generated type to an ASN.1 value.
func (d *der) toGo(rv reflect.Value, t a.Type, v *av) error {
	if v.absent {
		return nil
	}
	if ch, ok := d.stripAll(t).(a.ChoiceType); ok && len(ch.AlternativeTypeList) == 1 && rv.Type() != tRaw && rv.Kind() != reflect.Interface {
		return d.toGo(rv, ch.AlternativeTypeList[0].Type, v.list[0])
	}
	mismatch := func() error { return fmt.Errorf("Go type %v can not hold %v", rv.Type(), v) }
	switch rv.Type() {
	case tBig:
		if v.i == nil {
			return mismatch()
		}
		rv.Set(reflect.ValueOf(new(big.Int).Set(v.i)))
		return nil
	case tTime:
		if v.t.IsZero() {
			return mismatch()
		}
		rv.Set(reflect.ValueOf(v.t))
		return nil
	case tBits:
		rv.Set(reflect.ValueOf(asn1.BitString{Bytes: v.s, BitLength: v.bits}))
		return nil
	case tOID:
		rv.Set(reflect.ValueOf(asn1.ObjectIdentifier(v.oid)))
		return nil
	case tRaw:
		ch, ok := d.stripAll(t).(a.ChoiceType)
		if !ok {
			return mismatch()
		}
		e := d.enc(ch, v)
		rv.Set(reflect.ValueOf(asn1.RawValue{Class: e.class, Tag: e.tag, IsCompound: e.constructed, Bytes: e.content, FullBytes: e.bytes()}))
		return nil
	}
	st := d.stripAll(t)
	if ch, ok := st.(a.ChoiceType); ok {
		if rv.Kind() != reflect.Interface {
			return d.toGo(rv, ch.AlternativeTypeList[0].Type, v.list[0])
		}
		return d.toIface(rv, ch.AlternativeTypeList[v.alt].Type, v.list[0])
	}
	if _, ok := st.(a.AnyType); ok {
		if rv.Kind() != reflect.Interface {
			return mismatch()
		}
		return d.toIface(rv, anyTypes[v.alt], v.list[0])
	}
	switch rv.Kind() {
	case reflect.Bool:
		rv.SetBool(v.b)
	case reflect.Int, reflect.Int64:
		if v.i == nil {
			return mismatch()
		}
		rv.SetInt(v.i.Int64())
	case reflect.String:
		rv.SetString(string(v.s))
	case reflect.Struct:
		var cs []a.NamedComponentType
		switch x := st.(type) {
		case a.SequenceType:
			cs = comps(x.Components, x.ExtensionAdditions)
		case a.SetType:
			cs = comps(x.Components, x.ExtensionAdditions)
		default:
			return mismatch()
		}
		if len(cs) != rv.NumField() {
			return mismatch()
		}
		for i, c := range cs {
			if err := d.toGo(rv.Field(i), c.NamedType.Type, v.list[i]); err != nil {
				return err
			}
			if c.IsOptional && !v.list[i].absent && reflect.DeepEqual(rv.Field(i).Interface(), reflect.Zero(rv.Field(i).Type()).Interface()) {
				return errZero
			}
			if c.Default != nil && rv.Field(i).Type() == tBig {
				if n, ok := (*c.Default).(a.Number); ok && v.list[i].i != nil && v.list[i].i.Cmp(big.NewInt(int64(n))) == 0 {
					return errZero
				}
			}
		}
	case reflect.Slice:
		if rv.Type().Elem().Kind() == reflect.Uint8 {
			if v.s == nil {
				return mismatch()
			}
			rv.SetBytes(v.s)
			return nil
		}
		var et a.Type
		switch x := st.(type) {
		case a.SequenceOfType:
			et = x.Type
		case a.SetOfType:
			et = x.Type
		default:
			return mismatch()
		}
		s := reflect.MakeSlice(rv.Type(), len(v.list), len(v.list))
		for i, e := range v.list {
			if err := d.toGo(s.Index(i), et, e); err != nil {
				return err
			}
		}
		rv.Set(s)
	default:
		return mismatch()
	}
	return nil
}

func (d *der) toIface(rv reflect.Value, t a.Type, v *av) error {
	switch x := d.stripAll(t).(type) {
	case a.ChoiceType:
		return d.toIface(rv, x.AlternativeTypeList[v.alt].Type, v.list[0])
	case a.AnyType:
		return d.toIface(rv, anyTypes[v.alt], v.list[0])
	case a.IntegerType:
		rv.Set(reflect.ValueOf(v.i.Int64()))
	case a.BooleanType:
		rv.Set(reflect.ValueOf(v.b))
	case a.RestrictedStringType:
		rv.Set(reflect.ValueOf(string(v.s)))
	case a.OctetStringType:
		rv.Set(reflect.ValueOf(v.s))
	case a.ObjectIdentifierType:
		rv.Set(reflect.ValueOf(asn1.ObjectIdentifier(v.oid)))
	default:
		panic("harness: interface alternative")
	}
	return nil
}

// fromGo compares a decoded Go value with an ASN.1 value; "" if it is that value.
func (d *der) fromGo(rv reflect.Value, t a.Type, v *av) string {
	diff := func() string { return fmt.Sprintf("decoded %#v instead of %v", rv.Interface(), v) }
	if v.absent {
		if !rv.IsZero() {
			return diff()
		}
		return ""
	}
	ok := true
	st := d.stripAll(t)
	if ch, is := st.(a.ChoiceType); is && len(ch.AlternativeTypeList) == 1 && rv.Type() != tRaw && rv.Kind() != reflect.Interface {
		return d.fromGo(rv, ch.AlternativeTypeList[0].Type, v.list[0])
	}
	if rv.Kind() == reflect.Interface {
		if rv.IsNil() {
			return diff()
		}
		switch x := st.(type) {
		case a.ChoiceType:
			switch d.stripAll(x.AlternativeTypeList[v.alt].Type).(type) {
			case a.ChoiceType, a.AnyType:
				return d.fromGo(rv, x.AlternativeTypeList[v.alt].Type, v.list[0])
			}
			return d.fromGo(rv.Elem(), x.AlternativeTypeList[v.alt].Type, v.list[0])
		case a.AnyType:
			return d.fromGo(rv.Elem(), anyTypes[v.alt], v.list[0])
		}
		return diff()
	}
	switch x := rv.Interface().(type) {
	case *big.Int:
		ok = x != nil && x.Cmp(v.i) == 0
	case time.Time:
		ok = x.Equal(v.t)
	case asn1.BitString:
		ok = x.BitLength == v.bits && bytes.Equal(x.Bytes, v.s)
	case asn1.ObjectIdentifier:
		ok = x.Equal(v.oid)
	case asn1.RawValue:
		ok = bytes.Equal(x.FullBytes, d.enc(st, v).bytes())
	default:
		switch rv.Kind() {
		case reflect.Bool:
			ok = rv.Bool() == v.b
		case reflect.Int, reflect.Int64:
			ok = v.i != nil && v.i.IsInt64() && rv.Int() == v.i.Int64()
		case reflect.String:
			ok = rv.String() == string(v.s)
		case reflect.Struct:
			var cs []a.NamedComponentType
			switch x := st.(type) {
			case a.SequenceType:
				cs = comps(x.Components, x.ExtensionAdditions)
			case a.SetType:
				cs = comps(x.Components, x.ExtensionAdditions)
			}
			for i, c := range cs {
				if m := d.fromGo(rv.Field(i), c.NamedType.Type, v.list[i]); m != "" {
					return string(c.NamedType.Identifier) + ": " + m
				}
			}
		case reflect.Slice:
			if rv.Type().Elem().Kind() == reflect.Uint8 {
				ok = bytes.Equal(rv.Bytes(), v.s)
				break
			}
			es := v.list
			var et a.Type
			switch x := st.(type) {
			case a.SequenceOfType:
				et = x.Type
			case a.SetOfType:
				et = x.Type
				es = append([]*av{}, es...)
				sort.SliceStable(es, func(i, j int) bool { return bytes.Compare(d.enc(et, es[i]).bytes(), d.enc(et, es[j]).bytes()) < 0 })
			}
			if rv.Len() != len(es) {
				return diff()
			}
			for i, e := range es {
				if m := d.fromGo(rv.Index(i), et, e); m != "" {
					return m
				}
			}
		default:
			ok = false
		}
	}
	if !ok {
		return diff()
	}
	return ""
}

// ---------------------------------------------------------------- types

type i64SET []int64
type bigSET []*big.Int
type boolSET []bool
type strSET []string
type bytesSET [][]byte
type bitsSET []asn1.BitString
type enumSET []asn1.Enumerated
type oidSET []asn1.ObjectIdentifier
type rawSET []asn1.RawValue
type timeSET []time.Time
type seqSET []struct {
	A int64
	B bool
}
type bseqSET []struct {
	A *big.Int
	B bool
}

type (
	intsSET   [][]int64
	setsSET   []i64SET
	strsSET   [][]string
	timesSET  [][]time.Time
	rawsSET   [][]asn1.RawValue
	octetsSET [][][]byte
)

// errNoSet: reflection can not make named types, they have to be there.
var errNoSet = errors.New("no set type")

var namedSets = func() map[reflect.Type]reflect.Type {
	m := map[reflect.Type]reflect.Type{}
	for _, x := range []interface{}{i64SET{}, bigSET{}, boolSET{}, strSET{}, bytesSET{}, bitsSET{}, enumSET{}, oidSET{}, rawSET{}, timeSET{}, seqSET{}, bseqSET{}, intsSET{}, setsSET{}, strsSET{}, timesSET{}, rawsSET{}, octetsSET{}} {
		t := reflect.TypeOf(x)
		m[t.Elem()] = t
	}
	return m
}()

var foreign = map[string]reflect.Type{
	"math/big.Int": reflect.TypeOf(big.Int{}), "time.Time": tTime, "encoding/asn1.BitString": tBits, "encoding/asn1.RawValue": tRaw,
	"encoding/asn1.ObjectIdentifier": tOID, "encoding/asn1.Enumerated": reflect.TypeOf(asn1.Enumerated(0)),
}

var basics = map[types.BasicKind]reflect.Type{
	types.Bool: reflect.TypeOf(false), types.Int64: reflect.TypeOf(int64(0)), types.Int: reflect.TypeOf(0), types.String: reflect.TypeOf(""),
	types.Float64: reflect.TypeOf(0.0), types.Uint8: reflect.TypeOf(byte(0)), types.Int32: reflect.TypeOf(int32(0)), types.Float32: reflect.TypeOf(float32(0)),
}

// reflectType builds the Go type that go/types describes.
func reflectType(t types.Type) (reflect.Type, error) {
	switch x := types.Unalias(t).(type) {
	case *types.Basic:
		if r, ok := basics[x.Kind()]; ok {
			return r, nil
		}
	case *types.Named:
		o := x.Obj()
		if o.Pkg() != nil && o.Pkg().Path() != "gen" {
			if r, ok := foreign[o.Pkg().Path()+"."+o.Name()]; ok {
				return r, nil
			}
			break
		}
		r, err := reflectType(x.Underlying())
		if err != nil {
			return nil, err
		}
		if r.Kind() == reflect.Slice && strings.HasSuffix(o.Name(), "SET") {
			s, ok := namedSets[r.Elem()]
			if !ok {
				return nil, fmt.Errorf("%w of %v", errNoSet, r.Elem())
			}
			return s, nil
		}
		return r, nil
	case *types.Pointer:
		r, err := reflectType(x.Elem())
		if err != nil {
			return nil, err
		}
		return reflect.PointerTo(r), nil
	case *types.Slice:
		r, err := reflectType(x.Elem())
		if err != nil {
			return nil, err
		}
		return reflect.SliceOf(r), nil
	case *types.Interface:
		return reflect.TypeOf((*interface{})(nil)).Elem(), nil
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < x.NumFields(); i++ {
			r, err := reflectType(x.Field(i).Type())
			if err != nil {
				return nil, err
			}
			fs = append(fs, reflect.StructField{Name: x.Field(i).Name(), Type: r, Tag: reflect.StructTag(x.Tag(i))})
		}
		return reflect.StructOf(fs), nil
	}
	return nil, fmt.Errorf("no Go type for %v", t)
}
