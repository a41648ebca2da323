// Package red checks the store client wrapper against the client it wraps.
package red

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/alicebob/miniredis/v2/server"
	bredis "github.com/pojol/braid/3rd/redis"
	"github.com/redis/go-redis/v9"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

// hook notes what a client sends.
type hook struct {
	mu   sync.Mutex
	sent []string
}

type ctxKey struct{}

func (h *hook) note(ctx context.Context, cmds ...redis.Cmder) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, c := range cmds {
		s := fmt.Sprintf("%d/%v:", len(cmds), ctx.Value(ctxKey{}))
		for _, a := range c.Args() {
			s += fmt.Sprintf(" %T(%v)", a, a)
		}
		h.sent = append(h.sent, s)
	}
}

func (h *hook) take() []string {
	h.mu.Lock()
	defer h.mu.Unlock()
	s := h.sent
	h.sent = nil
	return s
}

func (h *hook) DialHook(next redis.DialHook) redis.DialHook { return next }
func (h *hook) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		h.note(ctx, cmd)
		return next(ctx, cmd)
	}
}
func (h *hook) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		h.note(ctx, cmds...)
		return next(ctx, cmds)
	}
}

// side is a server with a client.
type side struct {
	mr  *miniredis.Miniredis
	cli *redis.Client
	hk  *hook
}

func newSide() *side {
	mr, err := miniredis.Run()
	if err != nil {
		panic(err)
	}
	mr.SetTime(time.Unix(1700000000, 0))
	// compare and delete, which the wrapper uses and miniredis lacks
	s := &side{mr: mr, hk: &hook{}}
	mr.Server().Register("CAD", func(c *server.Peer, cmd string, args []string) {
		if len(args) != 2 {
			c.WriteError("ERR wrong number of arguments for 'cad' command")
			return
		}
		v, err := mr.Get(args[0])
		switch {
		case err != nil:
			c.WriteInt(-1)
		case v != args[1]:
			c.WriteInt(0)
		default:
			mr.Del(args[0])
			c.WriteInt(1)
		}
	})
	s.cli = redis.NewClient(&redis.Options{Addr: mr.Addr(), PoolSize: 4, MaxRetries: -1})
	s.cli.AddHook(s.hk)
	return s
}

var (
	once     sync.Once
	wrap, rf *side // the wrapper's store and the reference
)

func TestMain(m *testing.M) { os.Exit(m.Run()) }

// ------------------------------------------------------------------ T05

type val struct {
	K string `json:"k"` // s, i, f, b (bytes)
	S string `json:"s"`
	N int    `json:"n"`
}

func (v val) any() any {
	switch v.K {
	case "i":
		return v.N
	case "f":
		return float64(v.N) / 4
	case "b":
		return []byte(v.S)
	}
	return v.S
}

type rop struct {
	Op    string   `json:"op"`
	Key   string   `json:"key"`
	Key2  string   `json:"key2"`
	F     string   `json:"f"`
	F2    string   `json:"f2"`
	Vals  []val    `json:"vals"`
	N     int64    `json:"n"`
	M     int64    `json:"m"`
	Strs  []string `json:"strs"`
	Flag  bool     `json:"flag"`
	Err   bool     `json:"err"`  // the store answers this one with an error
	Part  []rop    `json:"part"` // of a pipeline
	Fails bool     `json:"fails"`
}

type scnT05 struct {
	Ops  []rop `json:"ops"`
	Seed int   `json:"seed"`
	Opts []opt `json:"opts"` // of a client built last
}

type opt struct {
	Name string `json:"name"`
	N    int    `json:"n"`
}

func (o rop) anys() []any {
	var r []any
	for _, v := range o.Vals {
		r = append(r, v.any())
	}
	return r
}

func (o rop) pairs() []any {
	var r []any
	for i, v := range o.Vals {
		r = append(r, fmt.Sprintf("%s%d", o.F, i), v.any())
	}
	return r
}

func (o rop) zs() []redis.Z {
	var r []redis.Z
	for i, v := range o.Vals {
		r = append(r, redis.Z{Score: float64(v.N), Member: fmt.Sprintf("%s%d", o.F, i%3)})
	}
	return r
}

func (o rop) zby() redis.ZRangeBy {
	b := redis.ZRangeBy{Min: fmt.Sprint(o.N), Max: fmt.Sprint(o.M)}
	if o.Flag {
		b.Min, b.Offset, b.Count = "-inf", 1, 2
	}
	return b
}

func (o rop) dur() time.Duration {
	d := time.Duration(o.N%90+1) * time.Second
	if o.Flag {
		d = time.Duration(o.N%900+1) * time.Millisecond
	}
	return d
}

func (o rop) xread() *redis.XReadGroupArgs {
	id := ">"
	if o.Flag {
		id = "0"
	}
	return &redis.XReadGroupArgs{Group: o.F, Consumer: o.F2, Streams: []string{o.Key, id}, Count: o.N%3 + 1, Block: -1, NoAck: o.M%2 == 0}
}

func (o rop) xadd() *redis.XAddArgs {
	a := &redis.XAddArgs{Stream: o.Key, Values: o.pairs(), NoMkStream: o.Flag}
	if o.N%2 == 0 {
		a.ID = fmt.Sprintf("%d-%d", 1700000000000+o.N, o.M)
	}
	if o.M%3 == 0 {
		a.MaxLen = 3
	}
	return a
}

var scripts = []*redis.Script{
	redis.NewScript(`return ARGV[1]`),
	redis.NewScript(`return redis.call('INCRBY', KEYS[1], 3)`),
	redis.NewScript(`return {#KEYS, #ARGV, 7}`),
	redis.NewScript(`return redis.error_reply('no way')`),
	redis.NewScript(`return false`),
}

// pair is one wrapped command and the method it names.
type pair struct {
	wrap func(ctx context.Context, o rop) any
	raw  func(ctx context.Context, c redis.Cmdable, o rop) any
}

var cmds = map[string]pair{
	"Get": {func(x context.Context, o rop) any { return bredis.Get(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.Get(x, o.Key) }},
	"Set": {func(x context.Context, o rop) any { return bredis.Set(x, o.Key, o.F) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.Set(x, o.Key, o.F, 0) }},
	"Del": {func(x context.Context, o rop) any { return bredis.Del(x, o.Strs...) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.Del(x, o.Strs...) }},
	"SetEx": {func(x context.Context, o rop) any { return bredis.SetEx(x, o.Key, o.Vals[0].any(), o.dur()) }, func(x context.Context, c redis.Cmdable, o rop) any {
		return c.SetEx(x, o.Key, o.Vals[0].any(), o.dur())
	}},
	"SetNx": {func(x context.Context, o rop) any { return bredis.SetNx(x, o.Key, o.Vals[0].any(), o.dur()) }, func(x context.Context, c redis.Cmdable, o rop) any {
		return c.SetNX(x, o.Key, o.Vals[0].any(), o.dur())
	}},
	"SAdd": {func(x context.Context, o rop) any { return bredis.SAdd(x, o.Key, o.anys()...) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.SAdd(x, o.Key, o.anys()...) }},
	"SIsMember": {func(x context.Context, o rop) any { return bredis.SIsMember(x, o.Key, o.Vals[0].any()) }, func(x context.Context, c redis.Cmdable, o rop) any {
		return c.SIsMember(x, o.Key, o.Vals[0].any())
	}},
	"SMembers":     {func(x context.Context, o rop) any { return bredis.SMembers(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.SMembers(x, o.Key) }},
	"SRandMember":  {func(x context.Context, o rop) any { return bredis.SRandMember(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.SRandMember(x, o.Key) }},
	"SRandMemberN": {func(x context.Context, o rop) any { return bredis.SRandMemberN(x, o.Key, o.N%5-1) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.SRandMemberN(x, o.Key, o.N%5-1) }},
	"SPop":         {func(x context.Context, o rop) any { return bredis.SPop(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.SPop(x, o.Key) }},
	"SCard":        {func(x context.Context, o rop) any { return bredis.SCard(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.SCard(x, o.Key) }},
	"ZScore":       {func(x context.Context, o rop) any { return bredis.ZScore(x, o.Key, o.F+"0") }, func(x context.Context, c redis.Cmdable, o rop) any { return c.ZScore(x, o.Key, o.F+"0") }},
	"ZAdd":         {func(x context.Context, o rop) any { return bredis.ZAdd(x, o.Key, o.zs()...) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.ZAdd(x, o.Key, o.zs()...) }},
	"ZRevRank":     {func(x context.Context, o rop) any { return bredis.ZRevRank(x, o.Key, o.F+"1") }, func(x context.Context, c redis.Cmdable, o rop) any { return c.ZRevRank(x, o.Key, o.F+"1") }},
	"ZRevRange":    {func(x context.Context, o rop) any { return bredis.ZRevRange(x, o.Key, o.N, o.M) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.ZRevRange(x, o.Key, o.N, o.M) }},
	"ZCard":        {func(x context.Context, o rop) any { return bredis.ZCard(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.ZCard(x, o.Key) }},
	"ZRangeByScore": {func(x context.Context, o rop) any { return bredis.ZRangeByScore(x, o.Key, o.zby()) }, func(x context.Context, c redis.Cmdable, o rop) any {
		b := o.zby()
		return c.ZRangeByScore(x, o.Key, &b)
	}},
	"ZRem":        {func(x context.Context, o rop) any { return bredis.ZRem(x, o.Key, o.F+"0", o.F2+"1") }, func(x context.Context, c redis.Cmdable, o rop) any { return c.ZRem(x, o.Key, o.F+"0", o.F2+"1") }},
	"HGet":        {func(x context.Context, o rop) any { return bredis.HGet(x, o.Key, o.F+"0") }, func(x context.Context, c redis.Cmdable, o rop) any { return c.HGet(x, o.Key, o.F+"0") }},
	"HGetAll":     {func(x context.Context, o rop) any { return bredis.HGetAll(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.HGetAll(x, o.Key) }},
	"HSet":        {func(x context.Context, o rop) any { return bredis.HSet(x, o.Key, o.pairs()...) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.HSet(x, o.Key, o.pairs()...) }},
	"HDel":        {func(x context.Context, o rop) any { return bredis.HDel(x, o.Key, o.F+"0", o.F2+"1") }, func(x context.Context, c redis.Cmdable, o rop) any { return c.HDel(x, o.Key, o.F+"0", o.F2+"1") }},
	"HLen":        {func(x context.Context, o rop) any { return bredis.HLen(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.HLen(x, o.Key) }},
	"HIncrBy":     {func(x context.Context, o rop) any { return bredis.HIncrBy(x, o.Key, o.F+"0", o.N) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.HIncrBy(x, o.Key, o.F+"0", o.N) }},
	"HKeys":       {func(x context.Context, o rop) any { return bredis.HKeys(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.HKeys(x, o.Key) }},
	"Exists":      {func(x context.Context, o rop) any { return bredis.Exists(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.Exists(x, o.Key) }},
	"HExists":     {func(x context.Context, o rop) any { return bredis.HExists(x, o.Key, o.F+"0") }, func(x context.Context, c redis.Cmdable, o rop) any { return c.HExists(x, o.Key, o.F+"0") }},
	"XInfoGroups": {func(x context.Context, o rop) any { return bredis.XInfoGroups(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.XInfoGroups(x, o.Key) }},
	"XGroupCreate": {func(x context.Context, o rop) any { return bredis.XGroupCreate(x, o.Key, o.F, "0") }, func(x context.Context, c redis.Cmdable, o rop) any {
		return c.XGroupCreate(x, o.Key, o.F, "0")
	}},
	"XGroupDelConsumer": {func(x context.Context, o rop) any { return bredis.XGroupDelConsumer(x, o.Key, o.F, o.F2) }, func(x context.Context, c redis.Cmdable, o rop) any {
		return c.XGroupDelConsumer(x, o.Key, o.F, o.F2)
	}},
	"XInfoConsumers": {func(x context.Context, o rop) any { return bredis.XInfoConsumers(x, o.Key, o.F) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.XInfoConsumers(x, o.Key, o.F) }},
	"XReadGroup":     {func(x context.Context, o rop) any { return bredis.XReadGroup(x, o.xread()) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.XReadGroup(x, o.xread()) }},
	"XGroupDestroy":  {func(x context.Context, o rop) any { return bredis.XGroupDestroy(x, o.Key, o.F) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.XGroupDestroy(x, o.Key, o.F) }},
	"XLen":           {func(x context.Context, o rop) any { return bredis.XLen(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.XLen(x, o.Key) }},
	"XDel": {func(x context.Context, o rop) any {
		return bredis.XDel(x, o.Key, fmt.Sprintf("%d-%d", 1700000000000+o.N, o.M))
	}, func(x context.Context, c redis.Cmdable, o rop) any {
		return c.XDel(x, o.Key, fmt.Sprintf("%d-%d", 1700000000000+o.N, o.M))
	}},
	"LRange":   {func(x context.Context, o rop) any { return bredis.LRange(x, o.Key, o.N, o.M) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.LRange(x, o.Key, o.N, o.M) }},
	"Expire":   {func(x context.Context, o rop) any { return bredis.Expire(x, o.Key, o.dur()) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.Expire(x, o.Key, o.dur()) }},
	"RPush":    {func(x context.Context, o rop) any { return bredis.RPush(x, o.Key, o.anys()...) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.RPush(x, o.Key, o.anys()...) }},
	"FlushDB":  {func(x context.Context, o rop) any { return bredis.FlushDB(x) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.FlushDB(x) }},
	"FlushAll": {func(x context.Context, o rop) any { return bredis.FlushAll(x) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.FlushAll(x) }},
	"XAdd":     {func(x context.Context, o rop) any { return bredis.XAdd(x, o.xadd()) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.XAdd(x, o.xadd()) }},
	"Incr":     {func(x context.Context, o rop) any { return bredis.Incr(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.Incr(x, o.Key) }},
	"Keys":     {func(x context.Context, o rop) any { return bredis.Keys(x, o.Key[:1]+"*") }, func(x context.Context, c redis.Cmdable, o rop) any { return c.Keys(x, o.Key[:1]+"*") }},
	// those with results of their own
	"CAD": {func(x context.Context, o rop) any { return fmt.Sprint(bredis.CAD(x, o.Key, o.F)) }, func(x context.Context, c redis.Cmdable, o rop) any {
		b, _ := c.(*redis.Client).Do(x, "CAD", o.Key, o.F).Bool()
		return fmt.Sprint(b)
	}},
	"ScriptRun": {func(x context.Context, o rop) any {
		v, err := bredis.ScriptRun(x, scripts[int(o.N)%len(scripts)], []string{o.Key}, o.anys()...)
		return fmt.Sprintf("%T %v %v", v, v, err)
	}, func(x context.Context, c redis.Cmdable, o rop) any {
		v, err := scripts[int(o.N)%len(scripts)].Run(x, c, []string{o.Key}, o.anys()...).Result()
		return fmt.Sprintf("%T %v %v", v, v, err)
	}},
	"ScriptRunInt64s": {func(x context.Context, o rop) any {
		v, err := bredis.ScriptRunInt64s(x, scripts[int(o.N)%len(scripts)], []string{o.Key}, o.anys()...)
		return fmt.Sprintf("%v %v", v, err)
	}, func(x context.Context, c redis.Cmdable, o rop) any {
		v, err := scripts[int(o.N)%len(scripts)].Run(x, c, []string{o.Key}, o.anys()...).Int64Slice()
		return fmt.Sprintf("%v %v", v, err)
	}},
	"PoolStats": {func(x context.Context, o rop) any { return fmt.Sprintf("%T", bredis.PoolStats(x)) }, func(x context.Context, c redis.Cmdable, o rop) any {
		return fmt.Sprintf("%T", c.(*redis.Client).PoolStats())
	}},
	"GetClient": {func(x context.Context, o rop) any { return bredis.GetClient().Get(x, o.Key) }, func(x context.Context, c redis.Cmdable, o rop) any { return c.Get(x, o.Key) }},
	"ConnHGet": {func(x context.Context, o rop) any {
		cn := wrap.cli.Conn()
		cn.AddHook(wrap.hk)
		defer cn.Close()
		v, err := bredis.ConnHGet(cn, x, o.Key, o.F+"0")
		return fmt.Sprintf("%q %v", v, err)
	}, func(x context.Context, c redis.Cmdable, o rop) any {
		cn := c.(*redis.Client).Conn()
		cn.AddHook(rf.hk)
		defer cn.Close()
		v, err := cn.HGet(x, o.Key, o.F+"0").Result()
		return fmt.Sprintf("%q %v", v, err)
	}},
}

var names = func() []string {
	var ns []string
	for n := range cmds {
		ns = append(ns, n)
	}
	for a := range ns {
		for b := a; b > 0 && ns[b] < ns[b-1]; b-- {
			ns[b], ns[b-1] = ns[b-1], ns[b]
		}
	}
	return ns
}()

// inPipe are the commands that go into pipelines: those of the plain client.
var inPipe = []string{"Get", "Get", "Get", "Set", "Incr", "HSet", "HGet", "HGet", "Del", "SAdd", "RPush", "LRange", "ZAdd", "Exists", "HGetAll"}

func genRop(rt *rapid.T, pipe bool) rop {
	key := rapid.SampledFrom([]string{"s1", "s2", "h1", "h2", "l1", "t1", "z1", "z2", "x1", "x2", "k/ä:1"})
	f := rapid.SampledFrom([]string{"a", "b", "", "1", "g1"})
	o := rop{Key: key.Draw(rt, "key"), F: f.Draw(rt, "f"), F2: f.Draw(rt, "f2"), N: int64(rapid.IntRange(0, 6).Draw(rt, "n")), M: int64(rapid.IntRange(0, 6).Draw(rt, "m")),
		Flag: rapid.Bool().Draw(rt, "flag")}
	for k := rapid.IntRange(1, 3).Draw(rt, "vals"); k > 0; k-- {
		o.Vals = append(o.Vals, val{K: rapid.SampledFrom([]string{"s", "i", "f", "b"}).Draw(rt, "kind"), S: rapid.SampledFrom([]string{"", "a", "v\n\r", "ü", "12"}).Draw(rt, "s"), N: rapid.IntRange(-4, 9).Draw(rt, "vn")})
		o.Strs = append(o.Strs, key.Draw(rt, "str"))
	}
	if pipe {
		o.Op = rapid.SampledFrom(inPipe).Draw(rt, "op")
		return o
	}
	switch rapid.IntRange(0, 9).Draw(rt, "sort") {
	case 0, 1:
		o.Op = rapid.SampledFrom([]string{"TxPipelined", "Pipelined", "Pipeline"}).Draw(rt, "op")
		o.Fails = rapid.IntRange(0, 7).Draw(rt, "fails") == 0
		gets := rapid.Bool().Draw(rt, "gets")
		for k := rapid.IntRange(0, 5).Draw(rt, "part"); k > 0; k-- {
			p := genRop(rt, true)
			if gets {
				p.Op = rapid.SampledFrom([]string{"Get", "HGet", "SPop"}).Draw(rt, "gop")
			}
			o.Part = append(o.Part, p)
		}
	case 2:
		o.Op = "forward"
	default:
		o.Op = rapid.SampledFrom(names).Draw(rt, "op")
		// keys are of a type by their first letter; most commands get one that fits
		want := map[string]string{"X": "x", "Z": "z", "H": "h", "S": "t", "L": "l", "R": "l"}[o.Op[:1]]
		switch o.Op {
		case "Set", "SetEx", "SetNx", "Incr", "CAD", "ScriptRun", "ScriptRunInt64s":
			want = "s"
		case "ConnHGet":
			want = "h"
		}
		if want != "" && rapid.IntRange(0, 9).Draw(rt, "fit") > 0 {
			o.Key = want + "1"
		}
		if o.Op == "FlushAll" || o.Op == "FlushDB" {
			if rapid.IntRange(0, 3).Draw(rt, "really") > 0 {
				o.Op = "HSet"
			}
		}
	}
	// the client itself gets out of step when the store refuses MULTI
	o.Err = rapid.IntRange(0, 11).Draw(rt, "err") == 0 && o.Op != "TxPipelined"
	return o
}

var optNames = []string{"user", "pass", "read", "write", "idle", "maxidle", "minidle", "pool", "pooltimeout"}

func genT05(rt *rapid.T) scnT05 {
	sc := scnT05{Seed: rapid.IntRange(1, 1000).Draw(rt, "seed")}
	for k := rapid.IntRange(1, 40).Draw(rt, "ops"); k > 0; k-- {
		sc.Ops = append(sc.Ops, genRop(rt, false))
	}
	if rapid.IntRange(0, 5).Draw(rt, "build") == 0 {
		sc.Opts = []opt{{Name: rapid.SampledFrom([]string{"addr", "domain"}).Draw(rt, "where")}}
		for k := rapid.IntRange(0, 5).Draw(rt, "opts"); k > 0; k-- {
			sc.Opts = append(sc.Opts, opt{rapid.SampledFrom(optNames).Draw(rt, "opt"), rapid.IntRange(1, 9).Draw(rt, "n")})
		}
	}
	return sc
}

func TestT05(t *testing.T) {
	hx.Check(t, "T05", "a command found data or failed, or several ran as one pipeline", genT05, runT05)
}

// show is everything a result tells.
func show(r any) string {
	c, ok := r.(redis.Cmder)
	if !ok {
		return fmt.Sprint(r)
	}
	if reflect.ValueOf(r).IsNil() {
		return "nil"
	}
	res := reflect.ValueOf(r).MethodByName("Result").Call(nil)
	return fmt.Sprintf("%T args %q: %#v, %v", r, c.Args(), res[0].Interface(), c.Err())
}

func shows(cs []redis.Cmder) string {
	var s []string
	for _, c := range cs {
		s = append(s, show(c))
	}
	return strings.Join(s, "; ")
}

var errFn = errors.New("not this one")

// part queues the commands of a pipeline.
func (o rop) fill(p redis.Pipeliner) error {
	for _, q := range o.Part {
		cmds[q.Op].raw(ctxOf(q), p, q)
	}
	if o.Fails {
		return errFn
	}
	return nil
}

func ctxOf(o rop) context.Context { return context.WithValue(context.Background(), ctxKey{}, o.F) }

func runT05(t *testing.T, sc scnT05) hx.Out {
	once.Do(func() {
		miniredis.DumpMaxLineLen = 1000
		wrap, rf = newSide(), newSide()
	})
	bredis.MockClient(wrap.cli)
	for _, s := range []*side{wrap, rf} {
		s.mr.SetError("")
		s.mr.FlushAll()
		s.mr.Seed(sc.Seed)
		s.hk.take()
	}
	lab := hx.Labels{}
	nt := false
	for i, o := range sc.Ops {
		if o.Op == "forward" {
			wrap.mr.FastForward(o.dur())
			rf.mr.FastForward(o.dur())
			continue
		}
		if o.Err {
			wrap.mr.SetError("LOADING come back later")
			rf.mr.SetError("LOADING come back later")
			lab["store error"] = true
		}
		ctx := context.WithValue(context.Background(), ctxKey{}, i)
		var got, want string
		switch o.Op {
		case "TxPipelined", "Pipelined", "Pipeline":
			var gc, wc []redis.Cmder
			var ge, we error
			switch o.Op {
			case "TxPipelined":
				gc, ge = bredis.TxPipelined(ctx, "here", o.fill)
				wc, we = rf.cli.TxPipelined(ctx, o.fill)
			case "Pipelined":
				gc, ge = bredis.Pipelined(ctx, "here", o.fill)
				wc, we = rf.cli.Pipelined(ctx, o.fill)
			default:
				gp, wp := bredis.Pipeline(), rf.cli.Pipeline()
				o.fill(gp)
				o.fill(wp)
				gc, ge = gp.Exec(ctx)
				wc, we = wp.Exec(ctx)
			}
			got, want = fmt.Sprintf("%s | %v", shows(gc), ge), fmt.Sprintf("%s | %v", shows(wc), we)
			strs := len(gc) > 0
			var bs []string
			var first error
			for _, c := range gc {
				sc, ok := c.(*redis.StringCmd)
				if strs = strs && ok; !strs {
					break
				}
				if first == nil {
					if first = sc.Err(); first == nil {
						bs = append(bs, sc.Val())
					}
				}
			}
			if len(gc) > 1 {
				nt = true
				lab[o.Op] = true
			}
			if strs && got == want {
				lab["decoded pipeline"] = true
				vs, err := bredis.GetCmdsByteSlice(gc)
				if first != nil {
					lab["decoded failed pipeline"] = true
				}
				if fmt.Sprint(err) != fmt.Sprint(first) || first == nil && fmt.Sprintf("%q", vs) != fmt.Sprintf("%q", bs) {
					return hx.Fail("GetCmdsByteSlice of %s: %q, %v", got, vs, err)
				}
			}
		default:
			p := cmds[o.Op]
			got, want = show(p.wrap(ctx, o)), show(p.raw(ctx, rf.cli, o))
			if strings.HasSuffix(want, "<nil>") && !strings.Contains(want, "{}") || o.Err {
				nt = true
				lab[o.Op] = true
			}
		}
		if o.Err {
			wrap.mr.SetError("")
			rf.mr.SetError("")
		}
		if got != want {
			return hx.Fail("%s %+v: got %s, the client itself %s", o.Op, o, got, want)
		}
		if g, w := wrap.hk.take(), rf.hk.take(); fmt.Sprint(g) != fmt.Sprint(w) {
			return hx.Fail("%s %+v: sent %q, the client itself %q", o.Op, o, g, w)
		}
	}
	if g, w := wrap.dump(), rf.dump(); g != w {
		return hx.Fail("the stores differ: %q, %q", g, w)
	}
	if len(sc.Opts) > 0 {
		lab["client built"] = true
		if err := build(sc.Opts); err != nil {
			return hx.Fail("%v", err)
		}
	}
	return hx.Out{NonTrivial: nt, Labels: lab.List()}
}

func (s *side) dump() string {
	d := s.mr.Dump()
	for _, k := range s.mr.Keys() {
		d += fmt.Sprintf("%s expires in %v\n", k, s.mr.TTL(k))
	}
	return d
}

// build makes a client with the options and compares what it was made with.
func build(opts []opt) error {
	var os []bredis.Option
	want := redis.Options{ReadTimeout: 10 * time.Second, WriteTimeout: 10 * time.Second, MinIdleConns: 128, PoolSize: 1024, Addr: wrap.mr.Addr()}
	for _, o := range opts {
		d := time.Duration(o.N) * time.Second
		switch o.Name {
		case "addr":
			os = append(os, bredis.WithAddr("redis://"+wrap.mr.Addr()))
			p, err := redis.ParseURL("redis://" + wrap.mr.Addr())
			if err != nil {
				return err
			}
			want = *p
		case "domain":
			os = append(os, bredis.WithDomain(wrap.mr.Addr()))
		case "user":
			os = append(os, bredis.WithUsername(fmt.Sprint("u", o.N)))
			want.Username = fmt.Sprint("u", o.N)
		case "pass":
			os = append(os, bredis.WithPassword(fmt.Sprint("p", o.N)))
			want.Password = fmt.Sprint("p", o.N)
		case "read":
			os = append(os, bredis.WithReadTimeOut(d))
			want.ReadTimeout = d
		case "write":
			os = append(os, bredis.WithWriteTimeOut(d))
			want.WriteTimeout = d
		case "idle":
			os = append(os, bredis.WithIdleTimeout(d))
			want.ConnMaxIdleTime = d
		case "maxidle":
			os = append(os, bredis.WithMaxIdle(o.N))
			want.MaxIdleConns = o.N
		case "minidle":
			os = append(os, bredis.WithMinIdle(o.N))
			want.MinIdleConns = o.N
		case "pool":
			os = append(os, bredis.WithPoolSize(o.N))
			want.PoolSize = o.N
		case "pooltimeout":
			os = append(os, bredis.WithPoolTimeout(d))
			want.PoolTimeout = d
		}
	}
	if want.Username != "" && want.Password == "" {
		want.Password = "x"
		os = append(os, bredis.WithPassword("x"))
	}
	if want.Password != "" {
		if want.Username == "" {
			wrap.mr.RequireAuth(want.Password)
		} else {
			wrap.mr.RequireUserAuth(want.Username, want.Password)
		}
	}
	defer func() {
		wrap.mr.RequireAuth("")
		wrap.mr.RequireUserAuth(want.Username, "")
	}()
	var cli *redis.Client
	var pan any
	func() {
		defer func() { pan = recover() }()
		cli = bredis.BuildClientWithOption(os...)
	}()
	if pan != nil {
		return fmt.Errorf("building a client with %v: %v", opts, pan)
	}
	defer cli.Close()
	if bredis.GetClient() != cli {
		return errors.New("the client built is not the one used")
	}
	g := cli.Options()
	// what the client fills in itself
	ref := redis.NewClient(&want)
	defer ref.Close()
	w := ref.Options()
	show := func(o *redis.Options) string {
		_, port, _ := net.SplitHostPort(o.Addr)
		return fmt.Sprint(port, o.Username, o.Password, o.DB, o.ReadTimeout, o.WriteTimeout, o.ConnMaxIdleTime, o.MaxIdleConns, o.MinIdleConns, o.PoolSize, o.PoolTimeout, o.MaxRetries)
	}
	if show(g) != show(w) {
		return fmt.Errorf("built with %v: options %s, want %s", opts, show(g), show(w))
	}
	if err := cli.Set(context.Background(), "built", "1", 0).Err(); err != nil {
		return err
	}
	return nil
}
