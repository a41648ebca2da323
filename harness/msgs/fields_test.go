package msgs

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ M01

type val struct {
	T string  `json:"t"`
	S string  `json:"s,omitempty"`
	B bool    `json:"b,omitempty"`
	I int64   `json:"i,omitempty"`
	F float64 `json:"f,omitempty"`
}

var kinds = []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}

func bounds(t string) (int64, int64) {
	const b53 = 1 << 53
	switch t {
	case "int8":
		return math.MinInt8, math.MaxInt8
	case "int16":
		return math.MinInt16, math.MaxInt16
	case "int32":
		return math.MinInt32, math.MaxInt32
	case "uint8":
		return 0, math.MaxUint8
	case "uint16":
		return 0, math.MaxUint16
	case "uint32":
		return 0, math.MaxUint32
	case "uint", "uint64":
		return 0, b53
	}
	return -b53, b53
}

func genVal(rt *rapid.T) val {
	v := val{T: rapid.SampledFrom(kinds).Draw(rt, "t")}
	switch v.T {
	case "string":
		if rapid.IntRange(0, 15).Draw(rt, "big") == 0 {
			v.S = strings.Repeat("z", rapid.SampledFrom([]int{300, 5000, 70000}).Draw(rt, "len"))
			break
		}
		v.S = rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "0", "true", "null", "1.5", "<&>", "\u2028\"\\", "x"})).Draw(rt, "s")
	case "bool":
		v.B = rapid.Bool().Draw(rt, "b")
	case "float32":
		v.F = float64(rapid.OneOf(rapid.Float32(), rapid.SampledFrom([]float32{0.1, -2.5, math.MaxFloat32, math.SmallestNonzeroFloat32, 16777216})).Draw(rt, "f"))
		if math.IsInf(v.F, 0) || math.IsNaN(v.F) {
			v.F = 1
		}
	case "float64":
		v.F = rapid.OneOf(rapid.Float64(), rapid.SampledFrom([]float64{0.1, 3, 1e21, -1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64})).Draw(rt, "f")
		if math.IsInf(v.F, 0) || math.IsNaN(v.F) {
			v.F = 1
		}
	default:
		lo, hi := bounds(v.T)
		v.I = rapid.OneOf(rapid.Int64Range(lo, hi), rapid.SampledFrom([]int64{lo, hi, 0, 1})).Draw(rt, "i")
	}
	return v
}

func (v val) any() any {
	switch v.T {
	case "string":
		return v.S
	case "bool":
		return v.B
	case "int":
		return int(v.I)
	case "int8":
		return int8(v.I)
	case "int16":
		return int16(v.I)
	case "int32":
		return int32(v.I)
	case "int64":
		return v.I
	case "uint":
		return uint(v.I)
	case "uint8":
		return uint8(v.I)
	case "uint16":
		return uint16(v.I)
	case "uint32":
		return uint32(v.I)
	case "uint64":
		return uint64(v.I)
	case "float32":
		return float32(v.F)
	}
	return v.F
}

// read reads key as kind t through the typed accessor.
func read(mw *msg.Wrapper, res bool, key, t string) any {
	switch t {
	case "string":
		return get[string](mw, res, key)
	case "bool":
		return get[bool](mw, res, key)
	case "int":
		return get[int](mw, res, key)
	case "int8":
		return get[int8](mw, res, key)
	case "int16":
		return get[int16](mw, res, key)
	case "int32":
		return get[int32](mw, res, key)
	case "int64":
		return get[int64](mw, res, key)
	case "uint":
		return get[uint](mw, res, key)
	case "uint8":
		return get[uint8](mw, res, key)
	case "uint16":
		return get[uint16](mw, res, key)
	case "uint32":
		return get[uint32](mw, res, key)
	case "uint64":
		return get[uint64](mw, res, key)
	case "float32":
		return get[float32](mw, res, key)
	}
	return get[float64](mw, res, key)
}

func get[T any](mw *msg.Wrapper, res bool, key string) any {
	if res {
		return msg.GetResCustomField[T](mw, key)
	}
	return msg.GetReqCustomField[T](mw, key)
}

func zero(t string) any { return val{T: t}.any() }

func class(t string) string {
	switch t {
	case "string", "bool":
		return t
	}
	return "number"
}

type fieldOp struct {
	Op    string            `json:"op"` // set, map, wire, rebuild, swap
	Res   bool              `json:"res,omitempty"`
	Keys  []string          `json:"keys,omitempty"`
	Vals  []val             `json:"vals,omitempty"`
	Wrong map[string]string `json:"-"`
}
type fieldSc struct {
	Own    bool      `json:"own,omitempty"` // the message has a map serialiser of the user's own
	Ops    []fieldOp `json:"ops"`
	Failed bool      `json:"failed,omitempty"` // the message carries an error while it is read
	Absent string    `json:"absent"`
	As     string    `json:"as"`
}

// framed is JSON in a frame of its own.
type framed struct{}

func (f *framed) Encode(v any) ([]byte, error) {
	raw, err := json.Marshal(v)
	return append([]byte("\x01v1:"), raw...), err
}

func (f *framed) Decode(data []byte, v any) error {
	raw, ok := bytes.CutPrefix(data, []byte("\x01v1:"))
	if !ok {
		return errors.New("no frame")
	}
	return json.Unmarshal(raw, v)
}

func genFields(rt *rapid.T) fieldSc {
	sc := fieldSc{Own: rapid.IntRange(0, 3).Draw(rt, "own") == 2}
	key := rapid.OneOf(rapid.SampledFrom([]string{"a", "b", "c", "ActorID", ""}), rapid.String())
	n := rapid.IntRange(1, 7).Draw(rt, "n")
	for i := 0; i < n; i++ {
		op := fieldOp{Op: rapid.SampledFrom([]string{"set", "set", "set", "map", "wire", "rebuild", "swap"}).Draw(rt, "op")}
		op.Res = rapid.Bool().Draw(rt, "res")
		if op.Op == "set" || op.Op == "map" {
			for j, k := 0, rapid.IntRange(0, 4).Draw(rt, "k"); j < k; j++ {
				op.Keys = append(op.Keys, key.Draw(rt, "key"))
				op.Vals = append(op.Vals, genVal(rt))
			}
		}
		sc.Ops = append(sc.Ops, op)
	}
	sc.Failed = rapid.IntRange(0, 3).Draw(rt, "failed") == 0
	sc.Absent = key.Draw(rt, "absent")
	sc.As = rapid.SampledFrom(kinds).Draw(rt, "as")
	return sc
}

func runFields(_ *testing.T, sc fieldSc) hx.Out {
	l := hx.Labels{}
	var opts []msg.WrapperOption
	if sc.Own {
		l["serialiser-of-its-own"] = true
		opts = append(opts, func(p *msg.WrapperParm) { p.CustomMapSerialize = &framed{} })
	}
	b := msg.NewBuilder(context.Background(), opts...)
	model := [2]map[string]val{{}, {}}
	written := [2]bool{}
	nt := false
	for i, op := range sc.Ops {
		side := 0
		if op.Res {
			side = 1
		}
		switch op.Op {
		case "set", "map":
			var attrs []msg.Attr
			m := map[string]any{}
			if op.Op == "map" {
				model[side] = map[string]val{}
			} else if len(model[side]) > 0 && len(op.Keys) > 0 {
				nt = true
				l["merge"] = true
			}
			for j, k := range op.Keys {
				if _, ok := model[side][k]; ok && op.Op == "set" {
					l["replace"] = true
				}
				attrs = append(attrs, msg.Attr{Key: k, Value: op.Vals[j].any()})
				m[k] = op.Vals[j].any()
				model[side][k] = op.Vals[j]
			}
			written[side] = true
			switch {
			case op.Op == "set" && op.Res:
				b = b.WithResCustomFields(attrs...)
			case op.Op == "set":
				b = b.WithReqCustomFields(attrs...)
			case op.Res:
				b = b.WithResCustomFieldsMap(m)
			default:
				b = b.WithReqCustomFieldsMap(m)
			}
		case "wire":
			l["wire"] = true
			mw := b.Build()
			for _, mp := range []**router.Message{&mw.Req, &mw.Res} {
				raw, err := (*mp).Marshal()
				if err != nil {
					return hx.Fail("step %d: marshal: %v", i, err)
				}
				n := &router.Message{}
				if err := n.Unmarshal(raw); err != nil {
					return hx.Fail("step %d: unmarshal: %v", i, err)
				}
				*mp = n
			}
		case "rebuild":
			b = b.Build().ToBuilder()
		case "swap":
			b = msg.Swap(b.Build()).ToBuilder()
		}
		mw := b.Build()
		if mw.Err != nil {
			return hx.Fail("step %d (%s): error on the message: %v", i, op.Op, mw.Err)
		}
		if sc.Failed {
			mw.Err = errors.New("a handler has failed")
		}
		for side := 0; side < 2; side++ {
			res := side == 1
			for k, v := range model[side] {
				if got := read(mw, res, k, v.T); got != v.any() {
					return hx.Fail("step %d: side %d field %q written as %s %v reads %v", i, side, k, v.T, v.any(), got)
				}
				if class(v.T) != class(sc.As) {
					if got := read(mw, res, k, sc.As); got != zero(sc.As) {
						return hx.Fail("step %d: side %d field %q (%s) read as %s gives %v", i, side, k, v.T, sc.As, got)
					}
				}
			}
			if _, ok := model[side][sc.Absent]; !ok {
				if got := read(mw, res, sc.Absent, sc.As); got != zero(sc.As) {
					return hx.Fail("step %d: absent field %q as %s gives %v", i, sc.Absent, sc.As, got)
				}
			}
			var m map[string]any
			var err error
			if res {
				m, err = mw.GetResCustomMap()
			} else {
				m, err = mw.GetReqCustomMap()
			}
			if written[side] && err != nil {
				return hx.Fail("step %d: side %d map: %v", i, side, err)
			}
			if len(m) != len(model[side]) {
				return hx.Fail("step %d: side %d has %d fields, want %d: %v", i, side, len(m), len(model[side]), m)
			}
			for k := range m {
				if _, ok := model[side][k]; !ok {
					return hx.Fail("step %d: side %d has unwritten field %q", i, side, k)
				}
			}
		}
		mw.Err = nil
	}
	return hx.Out{NonTrivial: nt, Labels: l.List()}
}

func TestM01(t *testing.T) {
	hx.Check(t, "M01", "1-7 writes of typed fields to request or response (merging or whole map), wire crossings and rebuilds, every field read back after every step, also as another type; non-trivial: fields are merged into existing ones", genFields, runFields)
}

// ------------------------------------------------------------------ M03

type hdr struct {
	S  [8]string `json:"s"`
	Ts int64     `json:"ts"`
	C  []byte    `json:"c"`
}

func (h hdr) pb() *router.Header {
	return &router.Header{ID: h.S[0], OrgActorID: h.S[1], OrgActorType: h.S[2], PrevActorType: h.S[3], TargetActorID: h.S[4], TargetActorType: h.S[5], Event: h.S[6], Token: h.S[7], Timestamp: h.Ts, Custom: h.C}
}

func hdrDiff(a *router.Header, b *router.Header) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("nil header: %v / %v", a, b)
	}
	for _, f := range [][3]any{{"ID", a.ID, b.ID}, {"OrgActorID", a.OrgActorID, b.OrgActorID}, {"OrgActorType", a.OrgActorType, b.OrgActorType}, {"PrevActorType", a.PrevActorType, b.PrevActorType},
		{"TargetActorID", a.TargetActorID, b.TargetActorID}, {"TargetActorType", a.TargetActorType, b.TargetActorType}, {"Event", a.Event, b.Event}, {"Token", a.Token, b.Token}, {"Timestamp", a.Timestamp, b.Timestamp}, {"Custom", string(a.Custom), string(b.Custom)}} {
		if f[1] != f[2] {
			return fmt.Sprintf("%s: %v, want %v", f[0], f[1], f[2])
		}
	}
	return ""
}

type obj struct {
	Name string
	Gold int64
	P    float64
	Ok   bool
	Lst  []string
	M    map[string]int64
	Sub  *obj
}

type buildOp struct {
	Op   string `json:"op"`
	Hdr  hdr    `json:"hdr"`
	Body []byte `json:"body,omitempty"`
	Obj  *obj   `json:"obj,omitempty"`
	Sm   int    `json:"sm,omitempty"` // see small
}
type buildSc struct {
	Json bool      `json:"json"` // object serialiser chosen by option
	Ctx  bool      `json:"ctx"`  // built from a context that already belongs to a call tree
	Ops  []buildOp `json:"ops"`
}

func genObj(rt *rapid.T, depth int) *obj {
	o := &obj{Name: rapid.String().Draw(rt, "name"), Gold: rapid.Int64().Draw(rt, "gold"), P: rapid.Float64Range(-1e300, 1e300).Draw(rt, "p"), Ok: rapid.Bool().Draw(rt, "ok")}
	for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "lst"); i < n; i++ {
		o.Lst = append(o.Lst, rapid.String().Draw(rt, "l"))
	}
	if n := rapid.IntRange(0, 2).Draw(rt, "m"); n > 0 {
		o.M = map[string]int64{}
		for i := 0; i < n; i++ {
			o.M[rapid.StringMatching("[a-c]").Draw(rt, "k")] = rapid.Int64().Draw(rt, "v")
		}
	}
	if depth > 0 && rapid.Bool().Draw(rt, "sub") {
		o.Sub = genObj(rt, depth-1)
	}
	return o
}

func genBuild(rt *rapid.T) buildSc {
	sc := buildSc{Json: rapid.Bool().Draw(rt, "json"), Ctx: rapid.Bool().Draw(rt, "ctx")}
	n := rapid.IntRange(1, 7).Draw(rt, "n")
	for i := 0; i < n; i++ {
		op := buildOp{Op: rapid.SampledFrom([]string{"reqheader", "reqheader", "resheader", "reqbody", "resbody", "reqobj", "resobj", "reqsmall", "ressmall", "badobj", "badresobj", "swap", "rebuild"}).Draw(rt, "op")}
		switch op.Op {
		case "reqheader", "resheader":
			for j := range op.Hdr.S {
				op.Hdr.S[j] = rapid.OneOf(rapid.SampledFrom([]string{"", "x"}), rapid.StringN(0, 6, -1)).Draw(rt, "s")
			}
			op.Hdr.Ts = rapid.Int64().Draw(rt, "ts")
			op.Hdr.C = rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(rt, "c")
		case "reqbody", "resbody":
			op.Body = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "body")
		case "reqobj", "resobj":
			op.Obj = genObj(rt, 2)
		case "reqsmall", "ressmall":
			op.Sm = rapid.IntRange(0, len(small)-1).Draw(rt, "sm")
		}
		sc.Ops = append(sc.Ops, op)
	}
	return sc
}

// objects with short encodings
var small = []any{int64(0), int64(5), int64(-1), true, false, "", "x", map[string]int64{}, []string{}, int64(70000), 1.5}

type ctxKey struct{}

func runBuild(_ *testing.T, sc buildSc) hx.Out {
	l := hx.Labels{}
	ctx := context.WithValue(context.Background(), ctxKey{}, "value")
	outer := msg.NewBuilder(ctx).Build()
	if sc.Ctx {
		ctx = outer.Ctx
	}
	var opts []msg.WrapperOption
	if sc.Json {
		l["serialiser-option"] = true
		opts = append(opts, func(p *msg.WrapperParm) { p.CustomObjSerialize = &msg.CustomJsonSerialize{} })
	}
	b := msg.NewBuilder(ctx, opts...)
	mw := b.Build()
	if (mw.GetWg() == outer.GetWg()) != sc.Ctx {
		return hx.Fail("built from a tree's context: %v, same tree: %v", sc.Ctx, mw.GetWg() == outer.GetWg())
	}
	if mw.GetWg() == nil || mw.Req.Header.ID == "" || mw.Req.Header.ID != mw.Res.Header.ID {
		return hx.Fail("new message lacks call tree or id: %+v", mw)
	}
	if other := msg.NewBuilder(ctx).Build(); other.Req.Header.ID == mw.Req.Header.ID {
		return hx.Fail("two messages have one id")
	}
	want := [2]*router.Header{{ID: mw.Req.Header.ID}, {ID: mw.Req.Header.ID}}
	body := [2][]byte{}
	var objs [2]any
	var given, kept [][]byte
	give := func(x []byte) []byte {
		g := append([]byte(nil), x...)
		given, kept = append(given, g), append(kept, x)
		return g
	}
	wantErr := false
	wg := mw.GetWg()
	nt := false
	for i, op := range sc.Ops {
		l[op.Op] = true
		switch op.Op {
		case "reqheader":
			b = b.WithReqHeader(op.Hdr.pb())
			want[0] = op.Hdr.pb()
			objs[0] = nil
		case "resheader":
			b = b.WithResHeader(op.Hdr.pb())
			want[1] = op.Hdr.pb()
			objs[1] = nil
		case "reqbody":
			b = b.WithReqBody(give(op.Body))
			body[0] = op.Body
		case "resbody":
			b = b.WithResBody(give(op.Body))
			body[1] = op.Body
		case "reqobj", "resobj", "reqsmall", "ressmall":
			side := 0
			o := any(op.Obj)
			if op.Obj == nil {
				o = small[op.Sm]
			}
			if strings.HasPrefix(op.Op, "res") {
				side = 1
				b = b.WithResCustomObject(o)
			} else {
				b = b.WithReqCustomObject(o)
			}
			objs[side] = o
			ser := msg.ICustomSerialize(&msg.CustomObjectSerialize{})
			if sc.Json {
				ser = &msg.CustomJsonSerialize{}
			}
			raw, err := ser.Encode(o)
			if err != nil {
				return hx.Fail("step %d: encode: %v", i, err)
			}
			// the bytes of an object with a map are not unique: compare what they decode to
			got := b.Build().Req.Header.Custom
			if side == 1 {
				got = b.Build().Res.Header.Custom
			}
			if w := reads(func(v any) error { return ser.Decode(got, v) }, o); w != "" {
				return hx.Fail("step %d: header bytes %x do not decode with the chosen serialiser (%v); its own encoding is %x", i, got, w, raw)
			}
			want[side].Custom = got
		case "badobj", "badresobj":
			if op.Op == "badobj" {
				b = b.WithReqCustomObject(make(chan int))
				want[0].Custom = b.Build().Req.Header.Custom
				objs[0] = nil
			} else {
				b = b.WithResCustomObject(func() {})
				want[1].Custom = b.Build().Res.Header.Custom
				objs[1] = nil
			}
			wantErr = true
			nt = true
		case "swap":
			nt = true
			old := b.Build()
			sw := msg.Swap(old)
			if sw.Req != old.Req || sw.Res != old.Res {
				return hx.Fail("step %d: swap does not keep request and response", i)
			}
			if sw.GetWg() == nil || sw.GetWg() == old.GetWg() || sw.GetWg() == outer.GetWg() {
				return hx.Fail("step %d: swapped message has no call tree of its own", i)
			}
			if old.GetWg() != wg {
				return hx.Fail("step %d: swap changed the call tree of the original", i)
			}
			if sw.Err != nil {
				return hx.Fail("step %d: the swapped message starts with an error: %v", i, sw.Err)
			}
			sw.Err = old.Err // errors are reported on the message they occurred on
			wg = sw.GetWg()
			b = sw.ToBuilder()
		case "rebuild":
			nt = true
			b = b.Build().ToBuilder()
		}
		mw := b.Build()
		if mw.Ctx.Value(ctxKey{}) != "value" {
			return hx.Fail("step %d: context value lost", i)
		}
		if mw.GetWg() != wg {
			return hx.Fail("step %d (%s): call tree changed", i, op.Op)
		}
		if wantErr != (mw.Err != nil) {
			return hx.Fail("step %d (%s): error on the message: %v, expected %v", i, op.Op, mw.Err, wantErr)
		}
		if d := hdrDiff(mw.Req.Header, want[0]); d != "" {
			return hx.Fail("step %d (%s): request header %s", i, op.Op, d)
		}
		if d := hdrDiff(mw.Res.Header, want[1]); d != "" {
			return hx.Fail("step %d (%s): response header %s", i, op.Op, d)
		}
		if string(mw.Req.Body) != string(body[0]) || string(mw.Res.Body) != string(body[1]) {
			return hx.Fail("step %d (%s): bodies %q %q, want %q %q", i, op.Op, mw.Req.Body, mw.Res.Body, body[0], body[1])
		}
		for _, x := range [][]byte{mw.Req.Body, mw.Res.Body} { // a body that was read stays as it was
			given, kept = append(given, x), append(kept, []byte(string(x)))
		}
		for side, get := range []func(any) error{b.GetReqCustomObject, b.GetResCustomObject} {
			got := &obj{}
			if objs[side] != nil {
				if w := reads(get, objs[side]); w != "" {
					return hx.Fail("step %d (%s): object of side %d: %s", i, op.Op, side, w)
				}
			} else if len(want[side].Custom) == 0 {
				if err := get(got); err == nil {
					return hx.Fail("step %d (%s): absent object of side %d reads %+v without error", i, op.Op, side, got)
				}
			}
		}
	}
	for i := range given {
		if string(given[i]) != string(kept[i]) {
			return hx.Fail("a body handed to the builder or read from the message was changed from %q to %q", kept[i], given[i])
		}
	}
	if (*msg.Wrapper)(nil).ToBuilder().Build().GetWg() == nil {
		return hx.Fail("builder of a nil wrapper has no call tree")
	}
	return hx.Out{NonTrivial: nt || len(sc.Ops) > 2, Labels: l.List()}
}

// reads says what is wrong with the object read back.
func reads(get func(any) error, want any) string {
	if o, ok := want.(*obj); ok {
		got := &obj{}
		if err := get(got); err != nil || !sameObj(got, o) {
			return fmt.Sprintf("reads %+v, %v, want %+v", got, err, o)
		}
		return ""
	}
	got := reflect.New(reflect.TypeOf(want))
	if err := get(got.Interface()); err != nil || !reflect.DeepEqual(got.Elem().Interface(), want) {
		return fmt.Sprintf("reads %v, %v, want %v", got.Elem().Interface(), err, want)
	}
	return ""
}

func sameObj(a, b *obj) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Name != b.Name || a.Gold != b.Gold || a.P != b.P || a.Ok != b.Ok || len(a.Lst) != len(b.Lst) || len(a.M) != len(b.M) {
		return false
	}
	for i := range a.Lst {
		if a.Lst[i] != b.Lst[i] {
			return false
		}
	}
	for k, v := range a.M {
		if w, ok := b.M[k]; !ok || w != v {
			return false
		}
	}
	return sameObj(a.Sub, b.Sub)
}

func TestM03(t *testing.T) {
	hx.Check(t, "M03", "1-7 builder calls (headers, bodies, objects good and bad, swap, rebuild), all parts compared with a model after each; non-trivial: a swap, rebuild or bad object, or at least 3 calls", genBuild, runBuild)
}
