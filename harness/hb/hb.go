// Package hb builds braid nodes inside a test case: an in-process store, a
// client whose commands can be watched, delayed or failed, factories, loaders
// and actors.
package hb

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alicebob/miniredis/v2"
	trd "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/redis/go-redis/v9"
)

var (
	mrOnce sync.Once
	mr     *miniredis.Miniredis
)

// Store returns the process-wide in-process redis server. The first call must
// happen outside of any bubble.
func Store() *miniredis.Miniredis {
	mrOnce.Do(func() {
		mr = miniredis.NewMiniRedis()
		for i := 0; ; i++ {
			if err := mr.Start(); err == nil {
				break
			} else if i > 20 {
				panic(err)
			}
			time.Sleep(50 * time.Millisecond)
		}
	})
	return mr
}

// Hook sees every store command of the case. The pipeline's commands arrive
// together. Returning an error with handled=true answers without (further)
// execution.
type Hook struct {
	// Cmd, if set, wraps the execution of one command.
	Cmd func(ctx context.Context, cmd redis.Cmder, next func() error) error
	// Pipe, if set, wraps the execution of a pipeline.
	Pipe func(ctx context.Context, cmds []redis.Cmder, next func() error) error

	stop atomic.Bool
	mu   sync.Mutex
	rd   map[string]map[string]bool // stream/group -> consumers that have read
	dead map[string]bool            // consumers that are gone
}

// Kill ends the reader goroutines of a channel as the end of their process
// would, between two reads.
func (h *Hook) Kill(stream, group string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.dead == nil {
		h.dead = map[string]bool{}
	}
	for c := range h.rd[stream+"/"+group] {
		h.dead[c] = true
	}
}

// Readers are the live consumers of a channel that have read.
func (h *Hook) Readers(stream, group string) (res []string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for c := range h.rd[stream+"/"+group] {
		if !h.dead[c] {
			res = append(res, c)
		}
	}
	return
}

// KillOnly ends the reader goroutines of the given consumers.
func (h *Hook) KillOnly(names []string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.dead == nil {
		h.dead = map[string]bool{}
	}
	for _, c := range names {
		h.dead[c] = true
	}
}

func (h *Hook) isDead(args []any) bool {
	var stream, group, cons string
	for i := 0; i+2 < len(args); i++ {
		switch s, _ := args[i].(string); strings.ToLower(s) {
		case "group":
			group, _ = args[i+1].(string)
			cons, _ = args[i+2].(string)
		case "streams":
			stream, _ = args[i+1].(string)
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.rd == nil {
		h.rd = map[string]map[string]bool{}
	}
	k := stream + "/" + group
	if h.rd[k] == nil {
		h.rd[k] = map[string]bool{}
	}
	h.rd[k][cons] = true
	return h.dead[cons]
}

func (h *Hook) DialHook(next redis.DialHook) redis.DialHook { return next }

func (h *Hook) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		if cmd.Name() == "xreadgroup" {
			return h.readGroup(ctx, cmd, next)
		}
		if h.Cmd != nil {
			return h.Cmd(ctx, cmd, func() error { return next(ctx, cmd) })
		}
		return next(ctx, cmd)
	}
}

func (h *Hook) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		if h.Pipe != nil {
			return h.Pipe(ctx, cmds, func() error { return next(ctx, cmds) })
		}
		return next(ctx, cmds)
	}
}

// readGroup turns the blocking read of a subscriber into a poll with virtual
// pauses, so that virtual time can pass while it waits, and ends the endless
// reader goroutine at the end of a case.
func (h *Hook) readGroup(ctx context.Context, cmd redis.Cmder, next redis.ProcessHook) error {
	args := cmd.Args()
	if h.stop.Load() || h.isDead(args) {
		runtime.Goexit()
	}
	var a []any
	for i := 0; i < len(args); i++ {
		if s, ok := args[i].(string); ok && strings.EqualFold(s, "block") {
			i++
			continue
		}
		a = append(a, args[i])
	}
	c := redis.NewXStreamSliceCmd(ctx, a...)
	err := next(ctx, c)
	if err == redis.Nil || (err == nil && len(c.Val()) == 0) {
		time.Sleep(10 * time.Millisecond)
		if h.stop.Load() {
			runtime.Goexit()
		}
		cmd.SetErr(redis.Nil)
		return redis.Nil
	}
	if err != nil {
		time.Sleep(10 * time.Millisecond)
		if h.stop.Load() {
			runtime.Goexit()
		}
		cmd.SetErr(err)
		return err
	}
	cmd.(*redis.XStreamSliceCmd).SetVal(c.Val())
	return nil
}

// World is the environment of one case.
type World struct {
	MR   *miniredis.Miniredis
	Cli  *redis.Client
	Raw  *redis.Client // the same store without the hook
	Hook *Hook
	Fac  *Fac
	Pick func(ctx context.Context, b core.IActorBuilder) error // what the nodes' loaders do when asked to pick a node
	nods []*Nod
	ctl  []*redis.Client
}

// Nod is a node of a World.
type Nod struct {
	core.INode
	Sys  core.ISystem
	Gone bool
	w    *World
}

// New starts a case. Call Close at its end, inside of the bubble if there is one.
func New(specs ...Spec) *World {
	w := &World{MR: Store(), Hook: &Hook{}, Fac: NewFac(specs...)}
	w.MR.FlushAll()
	w.MR.SetError("")
	mk := func() *redis.Client {
		c := redis.NewClient(&redis.Options{Addr: w.MR.Addr(), MaxRetries: -1, PoolSize: 200,
			DialTimeout: time.Minute, ReadTimeout: -1, WriteTimeout: -1, PoolTimeout: time.Hour,
			ConnMaxIdleTime: -1, ContextTimeoutEnabled: false,
			Dialer: func(ctx context.Context, n, a string) (net.Conn, error) { return net.Dial(n, a) }})
		return c
	}
	w.Cli, w.Raw = mk(), mk()
	w.Cli.AddHook(w.Hook)
	trd.MockClient(w.Cli)
	return w
}

// Node starts a node of the world. A zero port means it listens nowhere.
func (w *World) Node(id, ip string, port int, opts ...core.NodeOption) *Nod {
	o := append([]core.NodeOption{core.NodeWithID(id), core.NodeWithIP(ip), core.NodeWithPort(port),
		core.NodeWithLoader(&Ldr{w.Fac, w}), core.NodeWithFactory(w.Fac)}, opts...)
	n := node.BuildProcessWithOption(o...)
	x := &Nod{INode: n, Sys: n.System(), w: w}
	w.nods = append(w.nods, x)
	return x
}

// Reg registers an actor of type ty.
func (n *Nod) Reg(ty, id string) (core.IActor, error) {
	return n.Sys.Loader(ty).WithID(id).Register(context.Background())
}

// Exit shuts the node down and waits for it.
func (n *Nod) Exit() {
	var wg sync.WaitGroup
	n.Sys.Exit(&wg)
	wg.Wait()
	n.Gone = true
}

// Close ends the case: every node still there is shut down and every
// subscriber's reader ended.
func (w *World) Close() {
	w.Hook.Cmd, w.Hook.Pipe = nil, nil
	for _, n := range w.nods {
		if !n.Gone {
			n.Exit()
		}
	}
	w.Hook.stop.Store(true)
	w.Hook.mu.Lock()
	readers := len(w.Hook.rd) > 0
	w.Hook.mu.Unlock()
	if readers {
		time.Sleep(25 * time.Millisecond)
	}
	w.Cli.Close()
	w.Raw.Close()
}

// ErrStore is the injected store failure.
var ErrStore = errors.New("injected store failure")

// ---------------------------------------------------------------- factory

// Spec describes an actor type.
type Spec struct {
	Ty     string
	Weight int
	Limit  int
	Unique bool
	Opts   map[string]string
	New    func(b core.IActorBuilder) core.IActor
}

// Fac is the actor factory.
type Fac struct {
	mu sync.Mutex
	m  map[string]*core.ActorConstructor
}

func NewFac(specs ...Spec) *Fac {
	f := &Fac{m: map[string]*core.ActorConstructor{}}
	for _, s := range specs {
		f.Add(s)
	}
	return f
}

func (f *Fac) Add(s Spec) {
	f.mu.Lock()
	defer f.mu.Unlock()
	nw := s.New
	if nw == nil {
		nw = func(b core.IActorBuilder) core.IActor { return Plain(b) }
	}
	f.m[s.Ty] = &core.ActorConstructor{Name: s.Ty, Weight: s.Weight, GlobalQuantityLimit: s.Limit,
		NodeUnique: s.Unique, Constructor: nw, Options: s.Opts, Dynamic: true}
}

func (f *Fac) Get(ty string) *core.ActorConstructor {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.m[ty]
}

func (f *Fac) GetActors() []*core.ActorConstructor {
	f.mu.Lock()
	defer f.mu.Unlock()
	var r []*core.ActorConstructor
	for _, c := range f.m {
		r = append(r, c)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

// Ldr is the actor loader.
type Ldr struct {
	F *Fac
	W *World
}

func (l *Ldr) Builder(ty string, sys core.ISystem) core.IActorBuilder {
	ac := l.F.Get(ty)
	if ac == nil {
		return nil
	}
	return &actor.ActorLoaderBuilder{ISystem: sys, ActorConstructor: *ac, IActorLoader: l}
}

func (l *Ldr) Pick(ctx context.Context, b core.IActorBuilder) error {
	if l.W != nil && l.W.Pick != nil {
		return l.W.Pick(ctx, b)
	}
	return errors.New("not supported")
}

func (l *Ldr) AssignToNode(core.INode) {}

// ---------------------------------------------------------------- actors

// Act is an actor whose handlers are installed by a function.
type Act struct {
	*actor.Runtime
	Setup func(a *Act)
	B     core.IActorBuilder
}

func (a *Act) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	if a.Setup != nil {
		a.Setup(a)
	}
}

// Plain makes an actor without handlers.
func Plain(b core.IActorBuilder) *Act { return With(b, nil) }

// With makes an actor whose Init runs setup.
func With(b core.IActorBuilder, setup func(*Act)) *Act {
	return &Act{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, Setup: setup, B: b}
}

var (
	portMu   sync.Mutex
	portOwn  net.Listener // marks the block of ports as this process's
	portBase int
	portNext int
)

// FreePorts returns n ports nothing listens on and no other process of the
// harness will use. They lie outside of the range the system hands out.
func FreePorts(n int) []int {
	portMu.Lock()
	defer portMu.Unlock()
	for b := 0; portOwn == nil; b++ {
		if b >= 180 {
			panic("no free block of ports")
		}
		portBase = 12000 + (b+os.Getpid())%180*100
		portOwn, _ = net.Listen("tcp", fmt.Sprintf(":%d", portBase))
	}
	var r []int
	for try := 0; len(r) < n; try++ {
		if try > 500 {
			panic("no free port")
		}
		p := portBase + 1 + portNext%99
		portNext++
		l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
		if err != nil {
			continue
		}
		l.Close()
		r = append(r, p)
	}
	return r
}

// Must panics on an unexpected set-up error.
func Must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness set-up: %v", err))
	}
}

// Styles is the number of styles of names.
const Styles = 8

// Styled is the i-th name: plain, or such that the names are close to each other.
func Styled(style int, p string, i int) string {
	switch style {
	case 1: // each is a prefix of the next
		return strings.Repeat(p, i+1)
	case 2: // equal but for case
		b := []byte(p + "bcdefgh")
		b = append(b, strconv.Itoa(i>>4)...)
		for k := range b[:min(4, len(b))] {
			if i>>k&1 == 1 {
				b[k] -= 'a' - 'A'
			}
		}
		return string(b)
	case 3:
		return fmt.Sprintf("%s.玩家 é%d", p, i)
	case 4:
		return fmt.Sprintf("%s%s%d", p, strings.Repeat("0123456789", 40), i)
	case 5: // symbols and separators within
		return fmt.Sprintf("%s/?#*~:{%d}[x]%%s\\'\"", p, i)
	case 6: // equal but for spaces around
		return strings.Repeat(" ", i) + p + " "
	case 7: // numbers
		return fmt.Sprint(i)
	}
	return fmt.Sprintf("%s%d", p, i)
}
