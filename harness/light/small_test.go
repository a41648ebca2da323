package light

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/golang-jwt/jwt"
	pkgerrors "github.com/pkg/errors"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/errcode"
	"github.com/pojol/braid/lib/token"
	"github.com/pojol/braid/utils/algorithms"
	"github.com/pojol/braid/utils/file"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ T01

type tokAlter struct {
	Kind string `json:"kind"`
	Seg  int    `json:"seg,omitempty"`
	Pos  int    `json:"pos,omitempty"`
	Ch   string `json:"ch,omitempty"`
	Str  string `json:"str,omitempty"`
}
type tokSc struct {
	ID    string     `json:"id"`
	Other string     `json:"other"`
	Age   int        `json:"age,omitempty"` // hours between making and reading
	Alts  []tokAlter `json:"alts"`
}

func genText() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z0-9_.:-]{1,40}`),
		rapid.StringN(1, 40, 200),
		rapid.SampledFrom([]string{"a", " ", "\"", "\\", "0", "null", "<>&", "\u2028", "日本", "x y", "\x00", "{}", "\u0130", "%s", strings.Repeat("long", 300)}),
	)
}

func genTok(rt *rapid.T) tokSc {
	sc := tokSc{ID: genText().Draw(rt, "id"), Other: genText().Draw(rt, "other")}
	sc.Age = rapid.SampledFrom([]int{0, 0, 1, 25, 24 * 8, 24 * 400, 24 * 4000}).Draw(rt, "age")
	n := rapid.IntRange(1, 6).Draw(rt, "n")
	for i := 0; i < n; i++ {
		a := tokAlter{Kind: rapid.SampledFrom([]string{"char", "char", "drop", "insert", "trunc", "append", "swapseg", "mixpayload", "mixsig", "otherkey", "none", "nosig", "otheralg", "garbage", "segments", "bits"}).Draw(rt, "kind")}
		a.Seg = rapid.IntRange(0, 2).Draw(rt, "seg")
		a.Pos = rapid.IntRange(0, 400).Draw(rt, "pos")
		a.Ch = rapid.SampledFrom(strings.Split("ABCZabcz0129-_=.+/ \n", "")).Draw(rt, "ch")
		if a.Kind == "garbage" {
			a.Str = rapid.OneOf(rapid.String(), rapid.StringMatching(`[A-Za-z0-9_-]{0,20}\.[A-Za-z0-9_-]{0,20}\.[A-Za-z0-9_-]{0,20}`)).Draw(rt, "str")
		}
		if a.Kind == "segments" {
			a.Str = rapid.SampledFrom([]string{`{"alg":"HS256"}`, `{"alg":"none"}`, `{"alg":1}`, `{}`, `[]`, `null`, `{"alg":"RS256"}`, `{"alg":"ES256"}`, `{"alg":"HS256","typ":"JWT"}`}).Draw(rt, "hdr")
		}
		sc.Alts = append(sc.Alts, a)
	}
	return sc
}

// seg decodes leniently: line breaks and padding do not carry content.
func seg(s string) (string, bool) {
	s = strings.NewReplacer("\r", "", "\n", "").Replace(s)
	b, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(s, "="))
	return string(b), err == nil
}

func sameContent(a, b string) bool {
	x, y := strings.Split(a, "."), strings.Split(b, ".")
	if len(x) != 3 || len(y) != 3 {
		return false
	}
	for i := range x {
		p, ok1 := seg(x[i])
		q, ok2 := seg(y[i])
		if !ok1 || !ok2 || p != q {
			return false
		}
	}
	return true
}

func alter(t, other string, id string, a tokAlter) string {
	parts := strings.Split(t, ".")
	oparts := strings.Split(other, ".")
	if len(parts) != 3 || len(oparts) != 3 {
		return t + "x"
	}
	pos := func(s string) int {
		if len(s) == 0 {
			return 0
		}
		return a.Pos % len(s)
	}
	s := parts[a.Seg]
	switch a.Kind {
	case "char":
		p := pos(s)
		parts[a.Seg] = s[:p] + a.Ch + s[p+1:]
	case "drop":
		p := pos(s)
		parts[a.Seg] = s[:p] + s[p+1:]
	case "insert":
		p := pos(s)
		parts[a.Seg] = s[:p] + a.Ch + s[p:]
	case "trunc":
		return t[:pos(t)]
	case "append":
		return t + a.Ch
	case "swapseg":
		parts[a.Seg], parts[(a.Seg+1)%3] = parts[(a.Seg+1)%3], parts[a.Seg]
	case "mixpayload":
		parts[1] = oparts[1]
	case "mixsig":
		parts[2] = oparts[2]
	case "bits":
		b, ok := seg(s)
		if ok && len(b) > 0 {
			bb := []byte(b)
			bb[a.Pos%len(bb)] ^= 1 << (a.Pos % 8)
			parts[a.Seg] = base64.RawURLEncoding.EncodeToString(bb)
		}
	case "otherkey":
		key := "token" + a.Ch
		if a.Pos%3 == 0 {
			key = ""
		}
		x, _ := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"EntityID": id}).SignedString([]byte(key))
		return x
	case "otheralg":
		x, _ := jwt.NewWithClaims(jwt.SigningMethodHS512, jwt.MapClaims{"EntityID": id}).SignedString([]byte(a.Ch))
		return x
	case "none":
		x, _ := jwt.NewWithClaims(jwt.SigningMethodNone, jwt.MapClaims{"EntityID": id}).SignedString(jwt.UnsafeAllowNoneSignatureType)
		return x
	case "nosig":
		parts[2] = ""
		if a.Pos%2 == 0 {
			return parts[0] + "." + parts[1]
		}
	case "garbage":
		return a.Str
	case "segments":
		parts[0] = base64.RawURLEncoding.EncodeToString([]byte(a.Str))
	}
	return strings.Join(parts, ".")
}

func runTok(t *testing.T, sc tokSc) hx.Out {
	return hx.Bubble(t, func() hx.Out { return tokens(sc) })
}

func tokens(sc tokSc) hx.Out {
	l := hx.Labels{}
	tk, err := token.Create(sc.ID)
	if err != nil {
		return hx.Fail("Create(%q) refused: %v", sc.ID, err)
	}
	time.Sleep(time.Duration(sc.Age) * time.Hour)
	l.Add(sc.Age > 0, "read later")
	got, err := token.Parse(tk)
	if err != nil || got != sc.ID {
		return hx.Fail("%d hours later: Parse(Create(%q)) = %q, %v", sc.Age, sc.ID, got, err)
	}
	other, err := token.Create(sc.Other)
	if err != nil {
		return hx.Fail("Create(%q) refused: %v", sc.Other, err)
	}
	if g, err := token.Parse(other); err != nil || g != sc.Other {
		return hx.Fail("second token: Parse(Create(%q)) = %q, %v", sc.Other, g, err)
	}
	if e, err := token.Create(""); err == nil {
		return hx.Fail("Create of an empty id gave %q", e)
	}
	nt := false
	for _, a := range sc.Alts {
		x := alter(tk, other, sc.ID, a)
		got, err := token.Parse(x)
		same := sameContent(x, tk)
		if sameContent(x, other) && !same {
			continue // it is the other valid token
		}
		if !same {
			nt = true
			l[a.Kind] = true
			if err == nil {
				return hx.Fail("altered token (%+v) %q of %q accepted as %q", a, x, sc.ID, got)
			}
			if got != "" {
				return hx.Fail("rejected token %q still yields id %q", x, got)
			}
		} else if err == nil && got != sc.ID {
			return hx.Fail("equivalent token %q of %q parses as %q", x, sc.ID, got)
		}
	}
	return hx.Out{NonTrivial: nt, Labels: l.List()}
}

func TestT01(t *testing.T) {
	hx.Check(t, "T01", "a text id, a second id and 1-6 alterations of the token; non-trivial: at least one alteration changes the signed content", genTok, runTok)
}

// ------------------------------------------------------------------ T02

type codeSc struct {
	N     []int    `json:"n"`
	Msg   []string `json:"msg"`
	Wraps []int    `json:"wraps"`
	Text  string   `json:"text"`
	Bad   int      `json:"bad"`
}

func genCode(rt *rapid.T) codeSc {
	sc := codeSc{}
	k := rapid.IntRange(1, 4).Draw(rt, "k")
	for i := 0; i < k; i++ {
		sc.N = append(sc.N, rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 1<<31), rapid.IntRange(1, 1<<62)).Draw(rt, "code"))
		sc.Msg = append(sc.Msg, rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "%d %s", "x"})).Draw(rt, "msg"))
		sc.Wraps = append(sc.Wraps, rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(0, 40)).Draw(rt, "wraps"))
	}
	sc.Text = rapid.String().Draw(rt, "text")
	sc.Bad = rapid.IntRange(-1000, 0).Draw(rt, "bad")
	return sc
}

func wrap(e error, n int, txt string) error {
	for i := 0; i < n; i++ {
		switch i % 3 {
		case 0:
			e = pkgerrors.Wrap(e, txt)
		case 1:
			e = pkgerrors.WithStack(e)
		case 2:
			e = pkgerrors.WithMessage(e, txt)
		}
	}
	return e
}

// numbered is an error of somebody else's, which has a number but is no code.
type numbered struct{ s string }

func (n numbered) Error() string { return n.s }
func (n numbered) Code() int     { return 5 }

func runCode(_ *testing.T, sc codeSc) (o hx.Out) {
	codes := []errcode.Code{}
	for i, n := range sc.N {
		c := errcode.New(n, sc.Msg[i])
		if c.Code() != n || c.Message() != sc.Msg[i] || c.Error() != sc.Msg[i] {
			return hx.Fail("New(%d,%q) reports %d %q %q", n, sc.Msg[i], c.Code(), c.Message(), c.Error())
		}
		w := wrap(c, sc.Wraps[i], sc.Text)
		cc := errcode.Cause(w)
		if cc.Code() != n || cc.Message() != sc.Msg[i] {
			return hx.Fail("Cause of code %d wrapped %d times is %d %q", n, sc.Wraps[i], cc.Code(), cc.Message())
		}
		codes = append(codes, c)
	}
	l := hx.Labels{}
	nt := false
	for i, a := range codes {
		if errcode.Equal(a, nil) || errcode.Equal(nil, a) || a.Equal(nil) || errcode.EqualError(a, nil) {
			return hx.Fail("code %d equals nil", sc.N[i])
		}
		if !errcode.Equal(a, a) {
			return hx.Fail("code %d does not equal itself", sc.N[i])
		}
		for j, b := range codes {
			want := sc.N[i] == sc.N[j]
			if i != j {
				nt = true
				l.Add(want, "equal-pair")
				l.Add(!want, "unequal-pair")
			}
			wb := wrap(b, sc.Wraps[j], sc.Text)
			if errcode.Equal(a, b) != want || a.Equal(b) != want || a.Equal(wb) != want || errcode.EqualError(a, wb) != want {
				return hx.Fail("comparing %d (%q) with %d (%q): Equal %v, method %v, wrapped %v %v, want %v", sc.N[i], sc.Msg[i], sc.N[j], sc.Msg[j],
					errcode.Equal(a, b), a.Equal(b), a.Equal(wb), errcode.EqualError(a, wb), want)
			}
		}
	}
	if !errcode.Equal(nil, nil) || !errcode.Equal(errcode.OK, nil) || !errcode.Equal(nil, errcode.OK) || !errcode.EqualError(errcode.OK, nil) || errcode.OK.Code() != 0 {
		return hx.Fail("nil does not count as OK")
	}
	if c := errcode.Cause(nil); c.Code() != 0 {
		return hx.Fail("Cause(nil) is %d", c.Code())
	}
	for _, e := range []error{errors.New(sc.Text), wrap(errors.New(sc.Text), 1, ""), wrap(errors.New(sc.Text), 2, "w"), numbered{sc.Text}, wrap(numbered{sc.Text}, 2, "w")} {
		c := errcode.Cause(e)
		if e.Error() == "" {
			if c.Code() != 0 {
				return hx.Fail("empty text maps to %d", c.Code())
			}
		} else if c.Code() != errcode.Unknow().Code() || c.Message() != e.Error() {
			return hx.Fail("plain error %q maps to %d %q", e.Error(), c.Code(), c.Message())
		}
	}
	s := errcode.String(sc.Text)
	if (sc.Text == "") != (s.Code() == 0) || s.Message() != sc.Text || (sc.Text != "" && s.Code() != -1) {
		return hx.Fail("String(%q) is %d %q", sc.Text, s.Code(), s.Message())
	}
	if func() (p bool) {
		defer func() { p = recover() != nil }()
		errcode.New(sc.Bad, "x")
		return
	}() == false {
		return hx.Fail("New(%d) was not refused", sc.Bad)
	}
	return hx.Out{NonTrivial: nt, Labels: l.List()}
}

func TestT02(t *testing.T) {
	hx.Check(t, "T02", "1-4 codes with messages and wrapping depths, a plain text and a non-positive number; non-trivial: two codes are compared", genCode, runCode)
}

// ------------------------------------------------------------------ T06

type fileOp struct {
	Op   string `json:"op"`
	Name int    `json:"name"`
	Data []byte `json:"data,omitempty"`
	Rep  int    `json:"rep,omitempty"` // the data is written so many times over
}
type fileSc struct {
	Ops   []fileOp `json:"ops"`
	Names []string `json:"names"`
	Items []string `json:"items"`
	Item  string   `json:"item"`
}

func genFile(rt *rapid.T) fileSc {
	sc := fileSc{}
	n := rapid.IntRange(1, 8).Draw(rt, "n")
	for i := 0; i < n; i++ {
		op := fileOp{Op: rapid.SampledFrom([]string{"save", "json", "json", "remove"}).Draw(rt, "op"), Name: rapid.IntRange(0, 1).Draw(rt, "name")}
		if op.Op != "remove" {
			op.Data = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "data")
			switch rapid.IntRange(0, 63).Draw(rt, "big") {
			case 11, 12, 13, 14, 15:
				op.Data, op.Rep = append(op.Data, 'x'), 2000
			case 37:
				op.Data, op.Rep = append(op.Data, 'x', '\n'), rapid.SampledFrom([]int{30000, 300000}).Draw(rt, "rep")
			}
		}
		sc.Ops = append(sc.Ops, op)
	}
	sc.Names = rapid.SliceOfN(rapid.OneOf(rapid.StringMatching(`[a-c./]{0,8}`), rapid.String()), 1, 4).Draw(rt, "names")
	sc.Items = rapid.SliceOfN(rapid.StringMatching(`[abA]{0,2}`), 0, 6).Draw(rt, "items")
	sc.Item = rapid.StringMatching(`[abA]{0,2}`).Draw(rt, "item")
	return sc
}

func runFile(_ *testing.T, sc fileSc) hx.Out {
	dir, err := os.MkdirTemp("", "t06-")
	if err != nil {
		return hx.Out{Infra: err}
	}
	defer os.RemoveAll(dir)
	model := map[int][]byte{}
	nt := false
	l := hx.Labels{}
	for i, op := range sc.Ops {
		if op.Rep > 0 {
			op.Data = bytes.Repeat(op.Data, op.Rep)
		}
		path := filepath.Join(dir, fmt.Sprintf("f%d.json", op.Name))
		old, existed := model[op.Name]
		switch op.Op {
		case "save":
			if err := file.SaveFile(op.Data, filepath.Join(dir, "none", "f")); err == nil || file.Exist(filepath.Join(dir, "none", "f")) {
				return hx.Fail("step %d: SaveFile into a folder that is not there: %v", i, err)
			}
			if err := file.SaveFile(op.Data, path); err != nil {
				return hx.Fail("step %d: SaveFile: %v", i, err)
			}
			model[op.Name] = op.Data
		case "json":
			file.WriteJSON(path, op.Data)
			model[op.Name] = op.Data
		case "remove":
			os.Remove(path)
			delete(model, op.Name)
		}
		if op.Op != "remove" && existed {
			nt = true
			l.Add(len(old) > len(op.Data), "shorter-over-longer")
		}
		for name := 0; name < 2; name++ {
			p := filepath.Join(dir, fmt.Sprintf("f%d.json", name))
			want, ok := model[name]
			if file.Exist(p) != ok {
				return hx.Fail("step %d: Exist(f%d) = %v", i, name, !ok)
			}
			got, err := file.ReadFile(p)
			if ok != (err == nil) {
				return hx.Fail("step %d: ReadFile(f%d): %v, exists %v", i, name, err, ok)
			}
			if ok && !bytes.Equal(got, want) {
				return hx.Fail("step %d (%s): f%d contains %q, want %q", i, op.Op, name, clip(got), clip(want))
			}
			if ok {
				if raw, _ := os.ReadFile(p); !bytes.Equal(raw, want) {
					return hx.Fail("step %d (%s): f%d contains %q, want %q", i, op.Op, name, clip(raw), clip(want))
				}
			}
		}
	}
	for _, n := range sc.Names {
		ext, base := file.GetFileExt(n), file.GetFileRealName(n)
		if i := strings.LastIndexByte(n, '.'); i < 0 {
			if ext != "" || base != "" {
				return hx.Fail("name %q without a dot: ext %q base %q", n, ext, base)
			}
		} else if base != n[:i] || ext != n[i:] {
			return hx.Fail("name %q: base %q ext %q", n, base, ext)
		}
	}
	want := false
	for _, x := range sc.Items {
		want = want || x == sc.Item
	}
	if algorithms.ContainsInSlice(sc.Items, sc.Item) != want {
		return hx.Fail("ContainsInSlice(%q,%q) != %v", sc.Items, sc.Item, want)
	}
	return hx.Out{NonTrivial: nt, Labels: l.List()}
}

func clip(b []byte) []byte {
	if len(b) > 120 {
		return b[:120]
	}
	return b
}

func TestT06(t *testing.T) {
	hx.Check(t, "T06", "1-8 writes (plain, JSON) and removals of two files, 1-4 names; non-trivial: an existing file is overwritten", genFile, runFile)
}

// ------------------------------------------------------------------ T07

type verSc struct {
	Gaps  []int `json:"gaps"`
	Start int   `json:"start"`
	Query []int `json:"query"`
	Bare  []int `json:"bare,omitempty"` // of these there is nothing to be done
}

func genVer(rt *rapid.T) verSc {
	return verSc{
		Gaps:  rapid.SliceOfN(rapid.IntRange(1, 6), 1, 7).Draw(rt, "gaps"),
		Start: rapid.IntRange(-3, 3).Draw(rt, "start"),
		Query: rapid.SliceOfN(rapid.IntRange(-4, 30), 1, 6).Draw(rt, "query"),
		Bare:  rapid.SliceOfN(rapid.IntRange(0, 6), 0, 2).Draw(rt, "bare"),
	}
}

var verBase = -20 // versions registered by former cases of this process all lie below
var verPrev = -1 << 60
var verBare = map[int]bool{}

func runVer(_ *testing.T, sc verSc) hx.Out {
	base := verBase
	v := base
	vers := []int{}
	for i, g := range sc.Gaps {
		v += g
		vv := v
		st := core.VerStrategy{Version: vv, Reason: fmt.Sprint("r", vv), Func: func(e interface{}) error { *(e.(*int)) = vv; return nil }}
		if slices.Contains(sc.Bare, i) {
			st.Func, verBare[vv] = nil, true
		}
		core.RegisterVersionStrategy(st)
		vers = append(vers, vv)
	}
	prev := verPrev
	verPrev, verBase = v, v
	next := func(q int) int {
		for _, x := range vers {
			if x > q {
				return x
			}
		}
		return q
	}
	for _, q := range append([]int{0}, sc.Query...) {
		q += base
		if q < prev {
			q = prev
		}
		if got := core.GetNextVersion(q); got != next(q) {
			return hx.Fail("versions %v: next of %d is %d, want %d", vers, q, got, next(q))
		}
		s, err := core.GetVerStrategy(q)
		reg := q == prev
		for _, x := range vers {
			reg = reg || x == q
		}
		if reg {
			e := 0
			if s.Func == nil && verBare[q] {
				s.Func = func(interface{}) error { e = q; return nil }
			}
			if err != nil || s.Version != q || s.Func == nil || s.Func(&e) != nil || e != q || s.Reason != fmt.Sprint("r", q) {
				return hx.Fail("versions %v: strategy of %d is %d %v", vers, q, s.Version, err)
			}
		} else if !errors.Is(err, core.ErrNotfoundVersion) {
			return hx.Fail("versions %v: strategy of unregistered %d: %v %v", vers, q, s.Version, err)
		}
	}
	// stepping visits every higher version once, in order, and stays at the end
	at := base + sc.Start
	if at < prev {
		at = prev
	}
	seen := []int{}
	want := []int{}
	for _, x := range vers {
		if x > at {
			want = append(want, x)
		}
	}
	for i := 0; i < len(vers)+2; i++ {
		n := core.GetNextVersion(at)
		if n == at {
			break
		}
		seen = append(seen, n)
		at = n
	}
	if fmt.Sprint(seen) != fmt.Sprint(want) {
		return hx.Fail("versions %v: stepping from %d visits %v", vers, base+sc.Start, seen)
	}
	return hx.Out{NonTrivial: len(want) > 1}
}

func TestT07(t *testing.T) {
	hx.Check(t, "T07", "an ascending list of 1-7 version gaps registered on top of all earlier ones, look-ups and a walk; non-trivial: the walk visits at least two versions", genVer, runVer)
}
