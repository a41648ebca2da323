package msgs

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"testing"

	"github.com/pojol/braid/router"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// An independent codec of the four message types, written from the protocol
// buffer encoding rules and router.proto.

type rField struct {
	Num   int      `json:"num"`
	Wire  int      `json:"wire"`
	U     uint64   `json:"u,omitempty"`
	B     []byte   `json:"b,omitempty"`
	Sub   []rField `json:"sub,omitempty"` // known sub-message or group content
	IsSub bool     `json:"is_sub,omitempty"`
	Pad   int      `json:"pad,omitempty"` // extra bytes in varints
}

func appendVarint(b []byte, v uint64, pad int) []byte {
	n := len(b)
	b = binary.AppendUvarint(b, v)
	for i := 0; i < pad && len(b)-n < 9; i++ {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

func encodeFields(fs []rField) []byte {
	var b []byte
	for _, f := range fs {
		b = appendVarint(b, uint64(f.Num)<<3|uint64(f.Wire), 0)
		switch f.Wire {
		case 0:
			b = appendVarint(b, f.U, f.Pad)
		case 1:
			b = binary.LittleEndian.AppendUint64(b, f.U)
		case 5:
			b = binary.LittleEndian.AppendUint32(b, uint32(f.U))
		case 2:
			body := f.B
			if f.IsSub {
				body = encodeFields(f.Sub)
			}
			b = appendVarint(b, uint64(len(body)), f.Pad)
			b = append(b, body...)
		case 3:
			b = append(b, encodeFields(f.Sub)...)
			b = appendVarint(b, uint64(f.Num)<<3|4, 0)
		}
	}
	return b
}

var errRef = errors.New("rejected by the reference decoder")

func refVarint(b []byte) (uint64, []byte, error) {
	var v uint64
	for i := 0; i < 10; i++ {
		if i >= len(b) {
			return 0, nil, errRef
		}
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, b[i+1:], nil
		}
	}
	return 0, nil, errRef
}

func refBytes(b []byte) ([]byte, []byte, error) {
	n, rest, err := refVarint(b)
	if err != nil || n > uint64(len(rest)) {
		return nil, nil, errRef
	}
	return rest[:n], rest[n:], nil
}

// refSkip skips one field value; groups nest.
func refSkip(b []byte, wire int, depth int) ([]byte, error) {
	var err error
	switch wire {
	case 0:
		_, b, err = refVarint(b)
		return b, err
	case 1, 5:
		n := 8
		if wire == 5 {
			n = 4
		}
		if len(b) < n {
			return nil, errRef
		}
		return b[n:], nil
	case 2:
		_, b, err = refBytes(b)
		return b, err
	case 3:
		for {
			var tag uint64
			if tag, b, err = refVarint(b); err != nil {
				return nil, err
			}
			if tag&7 == 4 {
				return b, nil
			}
			if b, err = refSkip(b, int(tag&7), depth+1); err != nil {
				return nil, err
			}
		}
	}
	return nil, errRef
}

// refWalk calls f for each field; f reports whether it knows the field.
func refWalk(b []byte, f func(num, wire int, b []byte) (known bool, rest []byte, err error)) error {
	for len(b) > 0 {
		tag, rest, err := refVarint(b)
		if err != nil {
			return err
		}
		num, wire := int(int32(tag>>3)), int(tag&7)
		if wire == 4 || num <= 0 {
			return errRef
		}
		known, after, err := f(num, wire, rest)
		if err != nil {
			return err
		}
		if !known {
			if after, err = refSkip(rest, wire, 0); err != nil {
				return err
			}
		}
		b = after
	}
	return nil
}

func refHeader(h *router.Header, b []byte) error {
	return refWalk(b, func(num, wire int, b []byte) (bool, []byte, error) {
		str := map[int]*string{1: &h.ID, 2: &h.OrgActorID, 3: &h.OrgActorType, 4: &h.PrevActorType, 7: &h.TargetActorID, 8: &h.TargetActorType, 9: &h.Event, 10: &h.Token}
		switch {
		case str[num] != nil || num == 12:
			if wire != 2 {
				return true, nil, errRef
			}
			v, rest, err := refBytes(b)
			if err != nil {
				return true, nil, err
			}
			if num == 12 {
				h.Custom = append([]byte{}, v...)
			} else {
				*str[num] = string(v)
			}
			return true, rest, nil
		case num == 11:
			if wire != 0 {
				return true, nil, errRef
			}
			v, rest, err := refVarint(b)
			h.Timestamp = int64(v)
			return true, rest, err
		}
		return false, nil, nil
	})
}

func refMessage(m *router.Message, b []byte) error {
	return refWalk(b, func(num, wire int, b []byte) (bool, []byte, error) {
		if num != 1 && num != 2 {
			return false, nil, nil
		}
		if wire != 2 {
			return true, nil, errRef
		}
		v, rest, err := refBytes(b)
		if err != nil {
			return true, nil, err
		}
		if num == 2 {
			m.Body = append([]byte{}, v...)
			return true, rest, nil
		}
		if m.Header == nil {
			m.Header = &router.Header{}
		}
		return true, rest, refHeader(m.Header, v)
	})
}

func refRoute(field int, m **router.Message, b []byte) error {
	return refWalk(b, func(num, wire int, b []byte) (bool, []byte, error) {
		if num != field {
			return false, nil, nil
		}
		if wire != 2 {
			return true, nil, errRef
		}
		v, rest, err := refBytes(b)
		if err != nil {
			return true, nil, err
		}
		if *m == nil {
			*m = &router.Message{}
		}
		return true, rest, refMessage(*m, v)
	})
}

// a uniform view of the four types

type codec interface {
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	MarshalToSizedBuffer([]byte) (int, error)
	Unmarshal([]byte) error
	Size() int
}

var typeNames = []string{"header", "message", "req", "res"}

func fresh(ty string) codec {
	switch ty {
	case "header":
		return &router.Header{}
	case "message":
		return &router.Message{}
	case "req":
		return &router.RouteReq{}
	}
	return &router.RouteRes{}
}

func refDecode(ty string, b []byte) (codec, error) {
	c := fresh(ty)
	var err error
	switch m := c.(type) {
	case *router.Header:
		err = refHeader(m, b)
	case *router.Message:
		err = refMessage(m, b)
	case *router.RouteReq:
		err = refRoute(1, &m.Msg, b)
	case *router.RouteRes:
		err = refRoute(2, &m.Msg, b)
	}
	return c, err
}

func msgDiff(a, b *router.Message) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("message nil: %v/%v", a == nil, b == nil)
	}
	if a == nil {
		return ""
	}
	if !bytes.Equal(a.Body, b.Body) {
		return fmt.Sprintf("body %q, want %q", a.Body, b.Body)
	}
	if (a.Header == nil) != (b.Header == nil) {
		return fmt.Sprintf("header nil: %v/%v", a.Header == nil, b.Header == nil)
	}
	return hdrDiff(a.Header, b.Header)
}

func diff(a, b codec) string {
	switch x := a.(type) {
	case *router.Header:
		return hdrDiff(x, b.(*router.Header))
	case *router.Message:
		return msgDiff(x, b.(*router.Message))
	case *router.RouteReq:
		return msgDiff(x.Msg, b.(*router.RouteReq).Msg)
	case *router.RouteRes:
		return msgDiff(x.Msg, b.(*router.RouteRes).Msg)
	}
	return "?"
}

type mut struct {
	Kind string `json:"kind"`
	Pos  int    `json:"pos"`
	B    byte   `json:"b"`
	N    int    `json:"n"`
}

type wireSc struct {
	Ty     string   `json:"ty"`
	HasMsg bool     `json:"has_msg"`
	HasHdr bool     `json:"has_hdr"`
	Hdr    hdr      `json:"hdr"`
	Body   []byte   `json:"body"`
	BodyN  int      `json:"body_n"` // body repeated
	Fields []rField `json:"fields"`
	Muts   [][]mut  `json:"muts"`
	Raw    []byte   `json:"raw"`
}

func genFieldsFor(rt *rapid.T, ty string, depth int) []rField {
	n := rapid.IntRange(0, 5).Draw(rt, "nf")
	var fs []rField
	for i := 0; i < n; i++ {
		f := rField{Wire: 2}
		if rapid.IntRange(0, 2).Draw(rt, "unknown") == 0 {
			f.Num = rapid.OneOf(rapid.IntRange(13, 2000), rapid.SampledFrom([]int{5, 6, 15, 16, 536870911})).Draw(rt, "num")
			if ty == "header" && rapid.Bool().Draw(rt, "low") {
				f.Num = 5 + rapid.IntRange(0, 1).Draw(rt, "56")
			}
			f.Wire = rapid.SampledFrom([]int{0, 1, 2, 3, 5}).Draw(rt, "wire")
			f.U = rapid.Uint64().Draw(rt, "u")
			f.B = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(rt, "b")
			if f.Wire == 3 {
				f.B = nil
				if depth > 0 {
					f.Sub = genFieldsFor(rt, "group", depth-1)
				}
			}
		} else {
			switch ty {
			case "header":
				f.Num = rapid.SampledFrom([]int{1, 2, 3, 4, 7, 8, 9, 10, 11, 12}).Draw(rt, "num")
				f.B = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(rt, "b")
				if f.Num == 11 {
					f.Wire, f.U, f.B = 0, rapid.Uint64().Draw(rt, "u"), nil
				}
			case "message":
				f.Num = rapid.IntRange(1, 2).Draw(rt, "num")
				if f.Num == 1 {
					f.IsSub, f.Sub = true, genFieldsFor(rt, "header", depth-1)
				} else {
					f.B = rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(rt, "b")
				}
			case "req", "res":
				f.Num = 1
				if ty == "res" {
					f.Num = 2
				}
				f.IsSub, f.Sub = true, genFieldsFor(rt, "message", depth-1)
			default:
				f.Num = 1
			}
		}
		f.Pad = rapid.SampledFrom([]int{0, 0, 0, 1, 5}).Draw(rt, "pad")
		fs = append(fs, f)
	}
	return fs
}

func genWire(rt *rapid.T) wireSc {
	sc := wireSc{Ty: rapid.SampledFrom(typeNames).Draw(rt, "ty"), HasMsg: rapid.IntRange(0, 9).Draw(rt, "hm") > 0, HasHdr: rapid.IntRange(0, 9).Draw(rt, "hh") > 0}
	for i := range sc.Hdr.S {
		sc.Hdr.S[i] = rapid.OneOf(rapid.Just(""), rapid.StringN(0, 12, -1), rapid.Map(rapid.IntRange(120, 135), func(n int) string { return string(bytes.Repeat([]byte("h"), n)) })).Draw(rt, "s")
	}
	sc.Hdr.Ts = rapid.OneOf(rapid.Int64(), rapid.SampledFrom([]int64{0, 1, -1, 127, 128, 1 << 62, -1 << 63})).Draw(rt, "ts")
	sc.Hdr.C = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "c")
	sc.Body = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "body")
	sc.BodyN = rapid.SampledFrom([]int{1, 1, 1, 11, 140, 2000}).Draw(rt, "bodyn")
	sc.Fields = genFieldsFor(rt, sc.Ty, 3)
	for i, n := 0, rapid.IntRange(0, 6).Draw(rt, "nm"); i < n; i++ {
		var ms []mut
		for j, k := 0, rapid.IntRange(1, 3).Draw(rt, "k"); j < k; j++ {
			ms = append(ms, mut{Kind: rapid.SampledFrom([]string{"set", "trunc", "trunc", "insert", "delete", "huge", "xor"}).Draw(rt, "kind"),
				Pos: rapid.IntRange(0, 300).Draw(rt, "pos"), N: rapid.IntRange(0, 1).Draw(rt, "on"),
				B: rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 0x80, 0xff, 0x7f, 0x0a, 0x12, 0x58, 0x62, 0x0b, 0x0c})).Draw(rt, "b")})
		}
		sc.Muts = append(sc.Muts, ms)
	}
	sc.Raw = rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0x0a, 0x12, 0x58, 0x62, 0x0b, 0x0c, 0x80, 0xff, 1, 2, 3})), 0, 24).Draw(rt, "raw")
	return sc
}

func build(sc wireSc) codec {
	h := sc.Hdr.pb()
	m := &router.Message{Body: bytes.Repeat(sc.Body, sc.BodyN)}
	if sc.HasHdr {
		m.Header = h
	}
	if !sc.HasMsg {
		m = nil
	}
	switch sc.Ty {
	case "header":
		return h
	case "message":
		if m == nil {
			m = &router.Message{}
		}
		return m
	case "req":
		return &router.RouteReq{Msg: m}
	}
	return &router.RouteRes{Msg: m}
}

// decode gives the code under test a slice with poison behind its end.
func decode(ty string, raw []byte) (codec, error) {
	buf := make([]byte, len(raw)+64)
	copy(buf, raw)
	for i := len(raw); i < len(buf); i++ {
		buf[i] = 0xA5
	}
	c := fresh(ty)
	err := c.Unmarshal(buf[:len(raw)])
	return c, err
}

func compare(ty string, raw []byte) (accepted bool, err error) {
	want, werr := refDecode(ty, raw)
	got, gerr := decode(ty, raw)
	if (werr == nil) != (gerr == nil) {
		return false, fmt.Errorf("%s: bytes %x: decoder says %v, the encoding rules say %v", ty, raw, gerr, werr)
	}
	if gerr != nil {
		return false, nil
	}
	if d := diff(got, want); d != "" {
		return true, fmt.Errorf("%s: bytes %x decode with %s", ty, raw, d)
	}
	again, err := got.Marshal()
	if err != nil {
		return true, fmt.Errorf("%s: decoded value does not encode: %v", ty, err)
	}
	back, err := decode(ty, again)
	if err != nil || diff(back, got) != "" {
		return true, fmt.Errorf("%s: re-encoded value decodes differently: %v %s", ty, err, diff(back, got))
	}
	return true, nil
}

func runWire(_ *testing.T, sc wireSc) hx.Out {
	l := hx.Labels{}
	v := build(sc)
	raw, err := v.Marshal()
	if err != nil {
		return hx.Fail("marshal: %v", err)
	}
	if v.Size() != len(raw) {
		return hx.Fail("%s: Size() %d, encoded length %d", sc.Ty, v.Size(), len(raw))
	}
	for slack := 0; slack < 8; slack += 7 {
		buf := bytes.Repeat([]byte{0xEE}, len(raw)+slack)
		n, err := v.MarshalTo(buf)
		if err != nil || n != len(raw) || !bytes.Equal(buf[:n], raw) || bytes.Count(buf[n:], []byte{0xEE}) != slack {
			return hx.Fail("%s: MarshalTo a buffer with %d spare bytes: n %d err %v", sc.Ty, slack, n, err)
		}
	}
	buf := make([]byte, len(raw)+5)
	if n, err := v.MarshalToSizedBuffer(buf); err != nil || n != len(raw) || !bytes.Equal(buf[5:], raw) {
		return hx.Fail("%s: MarshalToSizedBuffer: n %d err %v", sc.Ty, n, err)
	}
	ref, err := refDecode(sc.Ty, raw)
	if err != nil {
		return hx.Fail("%s: encoding %x is not a protocol buffer message: %v", sc.Ty, raw, err)
	}
	if d := diff(ref, v); d != "" {
		return hx.Fail("%s: encoding %x means %s", sc.Ty, raw, d)
	}
	if min := encodeLen(v); min != len(raw) {
		return hx.Fail("%s: encoding has %d bytes, the standard form %d", sc.Ty, len(raw), min)
	}
	if ok, err := compare(sc.Ty, raw); err != nil || !ok {
		return hx.Fail("own encoding: accepted %v, %v", ok, err)
	}
	// any valid form: fields in any order, repeated, unknown, over-long varints
	alt := encodeFields(sc.Fields)
	ok, err := compare(sc.Ty, alt)
	if err != nil {
		return hx.Out{Err: err}
	}
	if !ok {
		return hx.Fail("%s: valid encoding %x rejected", sc.Ty, alt)
	}
	l.Add(len(sc.Fields) > 1, "reordered-or-unknown")
	for _, ms := range sc.Muts {
		b := append([]byte(nil), raw...)
		if ms[0].N == 1 {
			b = append([]byte(nil), alt...)
		}
		for _, m := range ms {
			if len(b) == 0 {
				break
			}
			p := m.Pos % len(b)
			switch m.Kind {
			case "set":
				b[p] = m.B
			case "xor":
				b[p] ^= 1 << (m.B % 8)
			case "trunc":
				b = b[:p]
			case "insert":
				b = append(b[:p], append([]byte{m.B}, b[p:]...)...)
			case "delete":
				b = append(b[:p], b[p+1:]...)
			case "huge":
				b = append(b[:p], append(bytes.Repeat([]byte{0xff}, 8), append([]byte{m.B & 0x7f}, b[p:]...)...)...)
			}
		}
		ok, err := compare(sc.Ty, b)
		if err != nil {
			return hx.Out{Err: fmt.Errorf("mutated: %w", err)}
		}
		l.Add(ok, "mutant-accepted")
		l.Add(!ok, "mutant-rejected")
	}
	for _, ty := range typeNames {
		if _, err := compare(ty, sc.Raw); err != nil {
			return hx.Out{Err: fmt.Errorf("raw: %w", err)}
		}
	}
	return hx.Out{NonTrivial: len(raw) > 8 || len(sc.Fields) > 1, Labels: l.List()}
}

// encodeLen is the length of the standard encoding: every non-default field once.
func encodeLen(c codec) int {
	uv := func(n uint64) int { return len(binary.AppendUvarint(nil, n)) }
	bl := func(n int) int {
		if n == 0 {
			return 0
		}
		return 1 + uv(uint64(n)) + n
	}
	hl := func(h *router.Header) int {
		n := 0
		for _, s := range []string{h.ID, h.OrgActorID, h.OrgActorType, h.PrevActorType, h.TargetActorID, h.TargetActorType, h.Event, h.Token, string(h.Custom)} {
			n += bl(len(s))
		}
		if h.Timestamp != 0 {
			n += 1 + uv(uint64(h.Timestamp))
		}
		return n
	}
	ml := func(m *router.Message) int {
		n := bl(len(m.Body))
		if m.Header != nil {
			k := hl(m.Header)
			n += 1 + uv(uint64(k)) + k
		}
		return n
	}
	rl := func(m *router.Message) int {
		if m == nil {
			return 0
		}
		k := ml(m)
		return 1 + uv(uint64(k)) + k
	}
	switch x := c.(type) {
	case *router.Header:
		return hl(x)
	case *router.Message:
		return ml(x)
	case *router.RouteReq:
		return rl(x.Msg)
	case *router.RouteRes:
		return rl(x.Msg)
	}
	return -1
}

func TestM02(t *testing.T) {
	hx.Check(t, "M02", "one message of the four wire types, one list of fields in arbitrary valid form, up to 6 mutated encodings and one raw byte string, each compared with an independent codec; non-trivial: an encoding longer than 8 bytes or at least two free-form fields", genWire, runWire)
}
