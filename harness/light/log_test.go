package light

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/lib/log"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ T11

type logLine struct {
	Kind  string `json:"kind"` // plain, system, request
	Level int    `json:"level"`
	Text  int    `json:"text"`
	Long  int    `json:"long,omitempty"` // and so many characters more
}

type scnT11 struct {
	Tag    string      `json:"tag"`
	Level  int         `json:"level"` // -9: default
	Out    bool        `json:"out"`   // to the standard output as well
	File   bool        `json:"file"`
	Rotate int         `json:"rotate,omitempty"` // bytes
	Keep   int         `json:"keep,omitempty"`   // files
	Link   bool        `json:"link,omitempty"`
	Caller int         `json:"caller,omitempty"` // 1: place, 2: function too, 3: of who called the log, not of the log itself
	Depth  int         `json:"depth,omitempty"`  // (with 3) the program logs through so many functions of its own, which are to be skipped
	ExTag  string      `json:"extag,omitempty"`
	Codes  []int32     `json:"codes,omitempty"`
	Infos  []string    `json:"infos,omitempty"`  // account, path, token, address
	Export int         `json:"export,omitempty"` // another logger takes over after so many rounds
	By     [][]logLine `json:"by"`               // one list per goroutine
	Flow   []int       `json:"flow,omitempty"`
	Common int         `json:"common"`
	Sub    []int       `json:"sub,omitempty"`
}

var logTexts = []struct {
	format string
	args   []any
}{
	{"plain", nil}, {"100%% sure", nil}, {"", nil}, {"%v and %d", []any{"one", 2}}, {"quotes \" and \\ and \t", nil}, {"two\nlines", nil}, {"文字 %s", []any{"é{}"}}, {"{\"Msg\":\"no\"}", nil}, {"%05.1f|%x|%q", []any{2.25, []byte("ab"), "q"}}, {"%v", []any{nil}}, {"%s", []any{fmt.Errorf("an error")}}, {"ends the line\n", nil}, {"%s", []any{"\n\n"}}, {" blanks \r\n \n", nil},
}

func genT11(rt *rapid.T) scnT11 {
	sc := scnT11{Tag: rapid.SampledFrom([]string{"", "tag", "a \"b\""}).Draw(rt, "tag"), Level: rapid.SampledFrom([]int{-9, -1, -1, 0, 0, 1, 2, 3}).Draw(rt, "level"), Out: rapid.Bool().Draw(rt, "out"), File: rapid.IntRange(0, 4).Draw(rt, "file") > 0}
	if sc.File && rapid.IntRange(0, 2).Draw(rt, "rot") == 0 {
		sc.Rotate = rapid.SampledFrom([]int{100, 300, 2000}).Draw(rt, "rotate")
		sc.Keep = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4}).Draw(rt, "keep")
	}
	sc.Link = sc.File && rapid.Bool().Draw(rt, "link")
	sc.Caller = rapid.IntRange(0, 3).Draw(rt, "caller")
	if sc.Caller == 3 {
		sc.Depth = rapid.IntRange(0, 6).Draw(rt, "depth")
	}
	sc.Codes = rapid.SliceOfN(rapid.OneOf(rapid.Int32(), rapid.Int32Range(-9, 9)), 1, 4).Draw(rt, "codes")
	sc.Infos = rapid.SliceOfN(rapid.SampledFrom([]string{"", "acc", "/p/q?x=1", "1.2.3.4", "::1", "a \"quoted\" text", "文字", strings.Repeat("long", 60)}), 4, 4).Draw(rt, "infos")
	g := rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(rt, "by")
	for ; g > 0; g-- {
		var ls []logLine
		for k := rapid.IntRange(1, 12).Draw(rt, "lines"); k > 0; k-- {
			l := logLine{Kind: rapid.SampledFrom([]string{"plain", "plain", "system", "request"}).Draw(rt, "kind"), Level: rapid.IntRange(-1, 2).Draw(rt, "lv"), Text: rapid.IntRange(0, len(logTexts)-1).Draw(rt, "text")}
			if l.Kind == "plain" && rapid.IntRange(0, 9).Draw(rt, "panic") == 7 {
				l.Level = 4
			}
			if rapid.IntRange(0, 9).Draw(rt, "islong") == 3 {
				l.Long = rapid.SampledFrom([]int{200, 5000, 70000}).Draw(rt, "long")
			}
			ls = append(ls, l)
		}
		sc.By = append(sc.By, ls)
	}
	if len(sc.By) == 1 && rapid.IntRange(0, 2).Draw(rt, "isexp") == 0 {
		sc.Export = rapid.IntRange(0, len(sc.By[0])).Draw(rt, "export") + 1
		sc.ExTag = rapid.SampledFrom([]string{"exported", "", "tag"}).Draw(rt, "extag")
	}
	sc.Flow = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 5).Draw(rt, "flow")
	sc.Common = rapid.IntRange(-1, len(sc.Flow)).Draw(rt, "common")
	sc.Sub = rapid.SliceOfN(rapid.IntRange(0, 6), 0, 3).Draw(rt, "sub")
	return sc
}

func codeT11(sc scnT11, by, n int) int32 { return sc.Codes[(by+n)%len(sc.Codes)] }

func TestT11(t *testing.T) {
	hx.Check(t, "T11", "some lines were to be written and the level kept others out, or several goroutines wrote, or the file was rotated", genT11, func(_ *testing.T, sc scnT11) hx.Out { return runT11(sc) })
}

type wline struct {
	by, n int
	l     logLine
	msg   string
}

func runT11(sc scnT11) (out hx.Out) {
	dir, err := os.MkdirTemp("", "t11")
	if err != nil {
		return hx.Out{Infra: err}
	}
	defer os.RemoveAll(dir)
	std, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		return hx.Out{Infra: err}
	}
	defer std.Close()
	level := zapcore.InfoLevel
	var opts []log.Option
	if sc.Level > -9 {
		level = zapcore.Level(sc.Level)
		opts = append(opts, log.WithLevel(level))
	}
	opts = append(opts, log.WithOutStd(sc.Out))
	if sc.File {
		opts = append(opts, log.WithGlobPattern(filepath.Join(dir, "log.%Y")))
	}
	if sc.Rotate > 0 {
		opts = append(opts, log.WithRotationSize(int64(sc.Rotate)))
	}
	if sc.Keep > 0 {
		opts = append(opts, log.WithRotationCount(uint(sc.Keep)))
	}
	if sc.Link {
		opts = append(opts, log.WithLinkName(filepath.Join(dir, "current")))
	}
	if sc.Caller > 0 {
		opts = append(opts, log.WithCaller(true), log.WithCallerFunc(sc.Caller > 1))
	}
	if sc.Caller > 2 {
		skip := 2
		if sc.Depth > 0 {
			skip += sc.Depth + 1
		}
		opts = append(opts, log.WithCallerSkip(skip))
	}
	keep := os.Stdout
	os.Stdout = std
	lg, err := log.NewServerLogger(sc.Tag, opts...)
	if err != nil {
		os.Stdout = keep
		return hx.Fail("the logger cannot be made: %v", err)
	}
	log.SetSLog(lg)
	var exported bytes.Buffer
	restore := func() {
		os.Stdout = keep
		q, _ := log.NewServerLogger("", log.WithLevel(zapcore.FatalLevel))
		log.SetSLog(q)
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bad error
	for by, ls := range sc.By {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n, l := range ls {
				if sc.Export == n+1 {
					enc := zap.NewProductionEncoderConfig()
					enc.MessageKey, enc.LevelKey, enc.EncodeLevel = "Msg", "Level", zapcore.CapitalLevelEncoder
					log.ExportSLog(zap.New(zapcore.NewCore(zapcore.NewJSONEncoder(enc), zapcore.AddSync(&exported), level)), sc.ExTag)
				}
				t := logTexts[l.Text]
				format := fmt.Sprintf("%d.%d ", by, n) + t.format + strings.Repeat("x", l.Long)
				id, path, tok, ip := log.LogAccID(sc.Infos[0]), log.LogPath(sc.Infos[1]), log.LogToken(sc.Infos[2]), log.LogRealIP(sc.Infos[3])
				code := log.LogECode(codeT11(sc, by, n))
				func() {
					defer func() {
						if r := recover(); (r != nil) != (l.Level == 4 && l.Kind == "plain" && level <= zapcore.PanicLevel) {
							mu.Lock()
							bad = fmt.Errorf("logging %v panics with %v", l, r)
							mu.Unlock()
						}
					}()
					line := func() {
						switch l.Kind {
						case "plain":
							map[int]func(string, ...any){-1: log.DebugF, 0: log.InfoF, 1: log.WarnF, 2: log.ErrorF, 4: log.PanicF}[l.Level](format, t.args...)
						case "system":
							map[int]func(log.LogECode, log.LogAccID, log.LogPath, log.LogToken, log.LogRealIP, string, ...any){-1: log.SystemDebug, 0: log.SystemInfo, 1: log.SystemWarn, 2: log.SystemError}[l.Level](code, id, path, tok, ip, format, t.args...)
						case "request":
							log.SystemReqInfo(id, path, tok, ip, format, t.args...)
						}
					}
					if sc.Depth > 0 {
						through(sc.Depth, line)
					} else {
						line()
					}
				}()
			}
		}()
	}
	wg.Wait()
	log.Sync()
	restore()
	if bad != nil {
		return hx.Out{Err: bad, NonTrivial: true}
	}
	// what was written
	parse := func(where string, data []byte, strict bool) ([]map[string]any, error) {
		var r []map[string]any
		for _, line := range strings.Split(string(data), "\n") {
			m := map[string]any{}
			if json.Unmarshal([]byte(line), &m) != nil || m[log.ServerTagKey] == nil {
				if strict && line != "" {
					return nil, fmt.Errorf("%s contains something that is no line of the log: %.100q", where, line)
				}
				continue
			}
			r = append(r, m)
		}
		return r, nil
	}
	check := func(where, tag string, got []map[string]any, from, to int) error {
		next := map[int]int{}
		total := 0
		for _, m := range got {
			text, _ := m["Msg"].(string)
			var by, n int
			if _, err := fmt.Sscanf(text, "%d.%d ", &by, &n); err != nil || by >= len(sc.By) || n >= len(sc.By[by]) {
				return fmt.Errorf("%s: a line nobody wrote: %.100q", where, text)
			}
			if k, ok := next[by]; ok && n <= k {
				return fmt.Errorf("%s: line %d of writer %d comes after its line %d", where, n, by, k)
			}
			next[by] = n
			l := sc.By[by][n]
			lv := zapcore.Level(l.Level)
			if l.Kind == "request" {
				lv = zapcore.InfoLevel
			}
			if n < from || n >= to || lv < level {
				return fmt.Errorf("%s: line %d of writer %d (%+v) does not belong there", where, n, by, l)
			}
			total++
			want := fmt.Sprintf("%d.%d ", by, n) + fmt.Sprintf(logTexts[l.Text].format+strings.Repeat("x", l.Long), logTexts[l.Text].args...)
			if text != want {
				return fmt.Errorf("%s: line %d of writer %d reads %.200q, want %.200q", where, n, by, text, want)
			}
			if m["Level"] != lv.CapitalString() {
				return fmt.Errorf("%s: line %d of writer %d has level %v, want %v", where, n, by, m["Level"], lv.CapitalString())
			}
			if m[log.ServerTagKey] != tag {
				return fmt.Errorf("%s: line %d of writer %d has tag %v, want %v", where, n, by, m[log.ServerTagKey], tag)
			}
			fields := map[string]any{}
			if l.Kind != "plain" {
				fields = map[string]any{log.AccIDKey: sc.Infos[0], log.PathKey: sc.Infos[1], log.TokenKey: sc.Infos[2], log.RealIPKey: sc.Infos[3]}
			}
			if l.Kind == "system" {
				fields[log.ECodeKey] = float64(codeT11(sc, by, n))
			}
			for _, k := range []string{log.AccIDKey, log.PathKey, log.TokenKey, log.RealIPKey, log.ECodeKey} {
				if fields[k] != m[k] {
					return fmt.Errorf("%s: line %d of writer %d (%+v) has %s %v, want %v", where, n, by, l, k, m[k], fields[k])
				}
			}
			_, st := m["stack_trace"]
			if st != (l.Kind == "plain" && (lv == zapcore.WarnLevel || lv == zapcore.ErrorLevel)) {
				return fmt.Errorf("%s: line %d of writer %d (%+v): with a stack trace: %v", where, n, by, l, st)
			}
			if where == "the exported logger" {
				continue
			}
			c, has := m["Caller"].(string)
			if has != (sc.Caller > 0) || has && !strings.Contains(c, ".go:") || strings.HasSuffix(c, "()") != (sc.Caller > 1) || sc.Caller > 2 && !strings.HasPrefix(c, "log_test.go:") {
				return fmt.Errorf("%s: line %d of writer %d: its caller is %q (option %d)", where, n, by, c, sc.Caller)
			}
		}
		want := 0
		for _, ls := range sc.By {
			for n, l := range ls {
				lv := zapcore.Level(l.Level)
				if l.Kind == "request" {
					lv = zapcore.InfoLevel
				}
				if n >= from && n < to && lv >= level {
					want++
				}
			}
		}
		if total != want && (where != "the file" || sc.Keep == 0 || total > want) {
			return fmt.Errorf("%s has %d lines, %d were written", where, total, want)
		}
		return nil
	}
	to, from := 1<<30, 1<<30
	if sc.Export > 0 {
		to, from = sc.Export-1, sc.Export-1
	}
	files := 0
	var fileLines []map[string]any
	if sc.File {
		names, _ := filepath.Glob(filepath.Join(dir, "log.*"))
		for n := 0; sc.Keep > 0 && n < 400; n++ { // what is too much goes a little later
			names, _ = filepath.Glob(filepath.Join(dir, "log.*[0-9]"))
			if len(names) <= sc.Keep {
				break
			}
			time.Sleep(5 * time.Millisecond)
		}
		sort.Slice(names, func(a, b int) bool {
			return len(names[a]) < len(names[b]) || len(names[a]) == len(names[b]) && names[a] < names[b]
		})
		for _, n := range names {
			if strings.HasSuffix(n, "_lock") || strings.HasSuffix(n, "_symlink") {
				continue
			}
			data, err := os.ReadFile(n)
			if err != nil {
				return hx.Out{Infra: err}
			}
			ls, err := parse("the file", data, true)
			if err != nil {
				return hx.Out{Err: err, NonTrivial: true}
			}
			files++
			fileLines = append(fileLines, ls...)
		}
		if sc.Keep > 0 && files > sc.Keep {
			return hx.Fail("%d files were kept, %d were asked for", files, sc.Keep)
		}
		if err := check("the file", sc.Tag, fileLines, 0, to); err != nil {
			return hx.Out{Err: err, NonTrivial: true}
		}
		if sc.Link && files > 0 && sc.Keep == 0 {
			if tgt, err := filepath.EvalSymlinks(filepath.Join(dir, "current")); err != nil || !strings.HasPrefix(filepath.Base(tgt), "log.") {
				return hx.Fail("the link to the current file leads to %q (%v)", tgt, err)
			}
		}
	}
	data, err := os.ReadFile(filepath.Join(dir, "stdout"))
	if err != nil {
		return hx.Out{Infra: err}
	}
	ls, _ := parse("the standard output", data, false)
	if sc.Out || !sc.File {
		err = check("the standard output", sc.Tag, ls, 0, to)
	} else if len(ls) > 0 {
		err = fmt.Errorf("the standard output has %d lines of the log", len(ls))
	}
	if err != nil {
		return hx.Out{Err: err, NonTrivial: true}
	}
	ls, _ = parse("the exported logger", exported.Bytes(), true)
	if err := check("the exported logger", sc.ExTag, ls, from, 1<<30); err != nil {
		return hx.Out{Err: err, NonTrivial: true}
	}
	if err := flowT11(sc); err != nil {
		return hx.Out{Err: err, NonTrivial: true}
	}
	l := hx.Labels{}
	l.Add(files > 1, "rotated")
	l.Add(sc.Keep > 0 && files == sc.Keep, "old files removed")
	l.Add(len(sc.By) > 1, "several writers")
	l.Add(sc.Export > 0, "another logger takes over")
	l.Add(!sc.File, "standard output only")
	return hx.Out{NonTrivial: files > 1 || len(sc.By) > 1 || len(fileLines) > 0 && len(fileLines) < len(sc.By[0]), Labels: l.List()}
}

// flowT11 checks the fields of a flow: the common ones, then its own, and some of them grouped.
func flowT11(sc scnT11) error {
	f := &log.BaseFlow{}
	var want []string
	c := &log.CommonFlow{Fields: make([]zap.Field, 0, 2*len(sc.Sub))}
	for i, k := range sc.Flow {
		fl := zap.Int(fmt.Sprint("f", k), i)
		if i < sc.Common {
			c.Fields = append(c.Fields, fl)
		} else {
			f.BaseFields = append(f.BaseFields, fl)
		}
		want = append(want, fmt.Sprint(fl.Key, "=", i))
	}
	other := &log.BaseFlow{BaseFields: []zap.Field{zap.Int("o", 1), zap.Int("o", 2)}} // the common fields are of both
	if sc.Common >= 0 {
		f.SetCommon(c)
		other.SetCommon(c)
	}
	show := func(fs []zap.Field) (r []string) {
		for _, x := range fs {
			r = append(r, fmt.Sprint(x.Key, "=", x.Integer))
		}
		return
	}
	for range 2 { // the flow stays as it is
		own := f.ZapFields()
		other.ZapFields()
		if g := show(own); fmt.Sprint(g) != fmt.Sprint(want) {
			return fmt.Errorf("fields of a flow: %v, want %v", g, want)
		}
		if g := show(f.TaDataFields("", func(string) bool { return true })); fmt.Sprint(g) != fmt.Sprint(want) {
			return fmt.Errorf("fields of a flow without grouping: %v, want %v", g, want)
		}
		sub := map[string]bool{}
		for _, s := range sc.Sub {
			sub[fmt.Sprint("f", s)] = true
		}
		group := map[string]string{}
		var rest []string
		for i, k := range sc.Flow {
			if sub[fmt.Sprint("f", k)] {
				group[fmt.Sprint("f", k)] = fmt.Sprint(i)
			} else {
				rest = append(rest, fmt.Sprint("f", k, "=", i))
			}
		}
		got := f.TaDataFields("sub", func(k string) bool { return sub[k] })
		if len(group) > 0 {
			if len(got) == 0 {
				return fmt.Errorf("the group is missing")
			}
			last := got[len(got)-1]
			got = got[:len(got)-1]
			enc := zapcore.NewMapObjectEncoder()
			last.AddTo(enc)
			m, _ := enc.Fields["sub"].(map[string]any)
			g := map[string]string{}
			for k, v := range m {
				g[k] = fmt.Sprint(v)
			}
			if last.Key != "sub" || fmt.Sprint(g) != fmt.Sprint(group) {
				return fmt.Errorf("the group %q of a flow holds %v, want %v", last.Key, g, group)
			}
		}
		if g := show(got); fmt.Sprint(g) != fmt.Sprint(rest) {
			return fmt.Errorf("beside the group a flow has %v, want %v", g, rest)
		}
	}
	return nil
}
