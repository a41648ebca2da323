package act

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	hb.Store()
	os.Exit(m.Run())
}

// Op is one message, and what its handler does.
type Op struct {
	At    int    `json:"at,omitempty"`    // ms after the start of the case (of the handler, for nested ones)
	To    int    `json:"to"`              // index of the target actor
	Kind  string `json:"kind"`            // call, send, pub
	Ev    int    `json:"ev"`              // index of the event; beyond the known ones: no chain
	Dur   int    `json:"dur,omitempty"`   // ms the handler takes
	ADur  int    `json:"adur,omitempty"`  // ms the after-function takes
	Fault string `json:"fault,omitempty"` // berr bpanic err panic aerr apanic
	N     int    `json:"n,omitempty"`     // copies sent at once, each by its own goroutine
	Fresh bool   `json:"fresh,omitempty"` // nested: not part of the caller's call tree
	Fwd   bool   `json:"fwd,omitempty"`   // nested: pass the very same message on
	Ctx   int    `json:"ctx,omitempty"`   // ms until the caller's context ends (0: never)
	Via   string `json:"via,omitempty"`   // the target is found by its type: any, first
	Tgt   string `json:"tgt,omitempty"`   // undeliverable target: empty unknown wild local self org
	Retry bool   `json:"retry,omitempty"` // after a refusal the same message goes to actor To
	Again []int  `json:"again,omitempty"` // after a success the same message is used to call these
	Reuse bool   `json:"reuse,omitempty"` // that is such a call
	Size  int    `json:"size,omitempty"`  // bytes the body is padded with
	Sub   []Op   `json:"sub,omitempty"`   // what the handler sends on
}

// Tmr is a timer of an actor.
type Tmr struct {
	Actor int    `json:"actor"`
	Due   int    `json:"due"`
	Int   int    `json:"int"`
	Dur   int    `json:"dur,omitempty"`
	Fault string `json:"fault,omitempty"` // err, panic, or alternating "mix"
}

// Scn is a workload.
type Scn struct {
	Actors int    `json:"actors"`
	Events int    `json:"events"`
	Prods  [][]Op `json:"prods"`
	Timers []Tmr  `json:"timers,omitempty"`
	Subs   bool   `json:"subs,omitempty"`
	Many   int    `json:"many,omitempty"` // events that are registered and not sent
	Tail   int    `json:"tail,omitempty"` // ms to go on after everything has been sent
	Style  int    `json:"style,omitempty"`
	IDs    string `json:"ids,omitempty"`    // message ids: all different, or same, empty, few
	Guests []int  `json:"guests,omitempty"` // ms at which another actor is registered, called and unregistered
}

// run of one copy of one op
type inst struct {
	id       int
	op       *Op
	prod     int // producer, -1 nested
	seq      int // position within its sender's order
	par      *inst
	kids     []*inst
	offered  time.Duration
	returned time.Duration
	err      error
	mwErr    error
	mw       *msg.Wrapper
	started  int
	start    time.Duration
	end      time.Duration
	ended    bool
	handler  int // handler runs
	after    int
	res      string // response body when the call returned
	retried  *inst
}

type rec struct {
	t     time.Duration
	actor int
	what  string
	start bool
	in    *inst
}

type eng struct {
	mu    sync.Mutex
	t0    time.Time
	w     *hb.World
	n     *hb.Nod
	sc    *Scn
	all   []*inst
	log   []rec
	acts  []*hb.Act
	busy  []atomic.Int32
	cur   []string
	curIn []*inst
	viol  []string
	nops  atomic.Int64
	tix   []int
	tims  []core.ITimer
	temp  int // if set, only the first temp actors are registered at the start
}

func (e *eng) now() time.Duration { return time.Since(e.t0) }

func (e *eng) bad(f string, a ...any) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.viol = append(e.viol, fmt.Sprintf(f, a...))
}

// enter and leave bracket a user callback of an actor.
func (e *eng) enter(a int, what string, in *inst) {
	if n := e.busy[a].Add(1); n != 1 {
		e.mu.Lock()
		c := e.cur[a]
		e.mu.Unlock()
		e.bad("actor %d began %s at %v while %s was still running", a, what, e.now(), c)
	}
	e.mu.Lock()
	e.cur[a] = what
	e.log = append(e.log, rec{e.now(), a, what, true, in})
	e.mu.Unlock()
}

func (e *eng) leave(a int, what string, in *inst) {
	e.mu.Lock()
	e.log = append(e.log, rec{e.now(), a, what, false, in})
	e.mu.Unlock()
	e.busy[a].Add(-1)
}

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }

func (e *eng) add(op *Op, prod, seq int, par *inst) *inst {
	e.mu.Lock()
	defer e.mu.Unlock()
	in := &inst{id: len(e.all), op: op, prod: prod, seq: seq, par: par}
	e.all = append(e.all, in)
	if par != nil {
		par.kids = append(par.kids, in)
	}
	return in
}

func (e *eng) body(in *inst) []byte {
	b := []byte(fmt.Sprintf("m%d/%s", in.id, in.op.Kind))
	return append(b, bytes.Repeat([]byte{byte(in.id)}, in.op.Size)...)
}

// msgID is the id in the header of a message.
func (e *eng) msgID(in *inst) string {
	switch e.sc.IDs {
	case "same":
		return "id"
	case "empty":
		return ""
	case "few":
		return fmt.Sprint(in.id % 3)
	}
	return fmt.Sprint(in.id)
}

func (e *eng) find(mw *msg.Wrapper) *inst {
	s := string(mw.Req.Body)
	if !strings.HasPrefix(s, "m") {
		return nil
	}
	s = s[1:]
	if i := strings.IndexByte(s, '/'); i >= 0 {
		s = s[:i]
	}
	id, err := strconv.Atoi(s)
	e.mu.Lock()
	defer e.mu.Unlock()
	if err != nil || id < 0 || id >= len(e.all) {
		return nil
	}
	return e.all[id]
}

// style of the names in the running scenario
var style int

func aid(i int) string { return hb.Styled(style, "a", i) }
func ev(i int) string  { return hb.Styled(style, "e", i) }
func aty(i int) string { return hb.Styled(style, "t", i) }

// actorIndex is the inverse of aid.
func actorIndex(id string) int {
	for i := 0; i < 64; i++ {
		if aid(i) == id {
			return i
		}
	}
	panic("harness: actor id " + id)
}

// chain is the chain of event name of actor a.
func (e *eng) chain(a int, name string) func(core.ActorContext) core.IChain {
	return func(ctx core.ActorContext) core.IChain {
		return &actor.DefaultChain{
			Before: []actor.EventHandler{func(mw *msg.Wrapper) error {
				in := e.find(mw)
				if in == nil {
					e.bad("actor %d ran %s with a body nobody sent: %q", a, name, mw.Req.Body)
					return nil
				}
				e.enter(a, fmt.Sprintf("m%d", in.id), in)
				e.mu.Lock()
				e.curIn[a] = in
				in.started++
				in.start = e.now()
				e.mu.Unlock()
				e.verify(a, name, in, mw)
				switch in.op.Fault {
				case "berr":
					time.Sleep(ms(in.op.Dur))
					e.finish(a, in)
					return errors.New("before fails")
				case "bpanic":
					time.Sleep(ms(in.op.Dur))
					e.finish(a, in)
					panic("before panics")
				}
				return nil
			}},
			Handler: func(mw *msg.Wrapper) error {
				e.mu.Lock()
				in := e.curIn[a]
				if in == nil {
					e.mu.Unlock()
					return nil
				}
				in.handler++
				e.mu.Unlock()
				time.Sleep(ms(in.op.Dur))
				mw.Res.Body = append(mw.Res.Body, []byte(fmt.Sprintf("[%d]", in.id))...)
				e.nested(a, ctx, mw, in)
				switch in.op.Fault {
				case "err":
					e.finish(a, in)
					return errors.New("handler fails")
				case "panic":
					e.finish(a, in)
					panic("handler panics")
				}
				return nil
			},
			After: []actor.EventHandler{func(mw *msg.Wrapper) error {
				e.mu.Lock()
				in := e.curIn[a]
				if in == nil {
					e.mu.Unlock()
					return nil
				}
				in.after++
				e.mu.Unlock()
				time.Sleep(ms(in.op.ADur))
				e.finish(a, in)
				switch in.op.Fault {
				case "aerr":
					return errors.New("after fails")
				case "apanic":
					panic(fmt.Errorf("after panics"))
				}
				return nil
			}},
		}
	}
}

func (e *eng) finish(a int, in *inst) {
	e.mu.Lock()
	in.end = e.now()
	in.ended = true
	e.mu.Unlock()
	e.leave(a, fmt.Sprintf("m%d", in.id), in)
}

// verify compares what the handler sees with what was sent.
func (e *eng) verify(a int, name string, in *inst, mw *msg.Wrapper) {
	if in.op.Fwd {
		return
	}
	want := ev(in.op.Ev)
	if in.op.Kind == "pub" {
		want = "sub"
	}
	if name != want {
		e.bad("m%d was sent as event %q but ran the chain of %q", in.id, want, name)
	}
	if a != in.op.To {
		e.bad("m%d was sent to actor %d but ran on actor %d", in.id, in.op.To, a)
	}
	if string(mw.Req.Body) != string(e.body(in)) {
		e.bad("m%d: body %.100q, sent %.100q", in.id, mw.Req.Body, e.body(in))
	}
	if in.op.Kind != "pub" && !in.op.Reuse {
		if tok := fmt.Sprintf("tok%d", in.id); mw.Req.Header.Token != tok {
			e.bad("m%d: token %q, sent %q", in.id, mw.Req.Header.Token, tok)
		}
		if v := msg.GetReqCustomField[int](mw, "k"); v != in.id {
			e.bad("m%d: custom field %d, sent %d", in.id, v, in.id)
		}
		if mw.Req.Header.Event != want {
			e.bad("m%d: event %q, sent %q", in.id, mw.Req.Header.Event, want)
		}
	}
}

func (e *eng) nested(a int, ctx core.ActorContext, mw *msg.Wrapper, in *inst) {
	for i := range in.op.Sub {
		op := &in.op.Sub[i]
		if op.At > 0 {
			time.Sleep(ms(op.At))
		}
		k := e.add(op, -1, i, in)
		e.one(k, ctx, mw)
	}
}

// one offers one message and records the outcome.
func (e *eng) one(in *inst, actx core.ActorContext, parent *msg.Wrapper) {
	op := in.op
	ctx := context.Background()
	if parent != nil && !op.Fresh && !op.Fwd && !op.Reuse {
		ctx = parent.Ctx
	}
	if op.Ctx > 0 {
		c, cancel := context.WithTimeout(ctx, ms(op.Ctx))
		defer cancel()
		ctx = c
	}
	mw := msg.NewBuilder(ctx).WithReqHeader(&router.Header{ID: e.msgID(in), Token: fmt.Sprintf("tok%d", in.id)}).
		WithReqBody(e.body(in)).WithReqCustomFields(msg.Attr{Key: "k", Value: in.id}).Build()
	if op.Fwd || op.Reuse {
		// the very same message goes on, only its body changes
		mw = parent
		mw.Req.Body = e.body(in)
	}
	target, ty := aid(op.To), aty(op.To)
	switch op.Via {
	case "any":
		target = def.SymbolWildcard
	case "first":
		target = def.SymbolLocalFirst
	}
	switch op.Tgt {
	case "empty":
		target = ""
	case "unknown":
		target = "nobody"
	case "wild":
		target, ty = def.SymbolWildcard, "nosuchtype"
	case "local":
		target, ty = def.SymbolLocalFirst, "nosuchtype"
	}
	e.mu.Lock()
	in.mw = mw
	in.offered = e.now()
	e.mu.Unlock()
	var err error
	switch op.Kind {
	case "call":
		if actx != nil {
			err = actx.Call(target, ty, ev(op.Ev), mw)
		} else {
			err = e.n.Sys.Call(target, ty, ev(op.Ev), mw)
		}
	case "send":
		if actx != nil {
			err = actx.Send(target, ty, ev(op.Ev), mw)
		} else {
			err = e.n.Sys.Send(target, ty, ev(op.Ev), mw)
		}
	case "pub":
		err = e.n.Sys.Pub("tp"+aid(op.To), "sub", e.body(in))
	default:
		panic("harness: kind " + op.Kind)
	}
	e.mu.Lock()
	in.returned = e.now()
	in.err = err
	if op.Kind == "call" && !op.Fwd {
		in.mwErr = mw.Err
	}
	if op.Kind == "call" && in.prod == -2 {
		in.mwErr = mw.Err
	}
	if op.Kind == "call" && !op.Fwd {
		if (parent == nil || op.Reuse) && err == nil && mw.Err == nil {
			in.res = string(mw.Res.Body)
		}
	}
	e.mu.Unlock()
	if err == nil && mw.Err == nil && parent == nil && op.Kind == "call" && op.Ctx == 0 {
		for _, to := range op.Again {
			r := &Op{To: to, Kind: "call", Ev: op.Ev, Dur: op.Dur, ADur: op.ADur, Reuse: true}
			k := e.add(r, -2, 0, nil)
			e.one(k, nil, mw)
			if k.err != nil || mw.Err != nil {
				break
			}
		}
	}
	if op.Retry && err != nil {
		r := &Op{To: op.To, Kind: op.Kind, Ev: op.Ev, Fwd: true}
		if op.Tgt == "" { // the actor was gone
			r.To = 0
		}
		k := e.add(r, -2, 0, nil)
		in.retried = k
		e.one(k, actx, mw)
	}
}

// start builds the node and the actors of the scenario.
func (e *eng) start(sc *Scn) {
	e.sc = sc
	style = sc.Style
	e.busy = make([]atomic.Int32, sc.Actors)
	e.cur = make([]string, sc.Actors)
	e.curIn = make([]*inst, sc.Actors)
	e.acts = make([]*hb.Act, sc.Actors)
	e.tix = make([]int, len(sc.Timers))
	e.tims = make([]core.ITimer, len(sc.Timers))
	make := func(b core.IActorBuilder) core.IActor {
		return hb.With(b, func(a *hb.Act) {
			i := actorIndex(a.Id)
			e.mu.Lock()
			e.acts[i] = a
			e.mu.Unlock()
			for k := sc.Many; k > 0; k-- { // events nobody sends
				hb.Must(a.OnEvent(fmt.Sprintf("other%d", k), e.chain(i, "other")))
			}
			for k := 0; k < sc.Events; k++ {
				hb.Must(a.OnEvent(ev(k), e.chain(i, ev(k))))
			}
			if sc.Subs {
				hb.Must(a.Sub("tp"+a.Id, "sub", e.chain(i, "sub")))
			}
		})
	}
	specs := []hb.Spec{{Ty: "guest", Weight: 1, New: func(b core.IActorBuilder) core.IActor {
		return hb.With(b, func(a *hb.Act) {
			a.OnEvent("hello", func(core.ActorContext) core.IChain {
				return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error { mw.Res.Body = []byte(a.Id); return nil }}
			})
		})
	}}}
	for i := 0; i < sc.Actors; i++ {
		specs = append(specs, hb.Spec{Ty: aty(i), Weight: 1, New: make})
	}
	e.w = hb.New(specs...)
	e.n = e.w.Node("n1", "127.0.0.1", 0)
	for i := 0; i < sc.Actors && (e.temp == 0 || i < e.temp); i++ {
		_, err := e.n.Reg(aty(i), aid(i))
		hb.Must(err)
	}
	e.t0 = time.Now()
	for k := range sc.Timers {
		tm := sc.Timers[k]
		e.tims[k] = e.acts[tm.Actor].OnTimer(int64(tm.Due), int64(tm.Int), func(arg any) error { return e.tick(k, arg) }, fmt.Sprintf("arg%d", k))
	}
}

func (e *eng) tick(k int, arg any) error {
	tm := e.sc.Timers[k]
	what := fmt.Sprintf("timer%d", k)
	e.enter(tm.Actor, what, nil)
	if arg != fmt.Sprintf("arg%d", k) {
		e.bad("timer %d got argument %v", k, arg)
	}
	e.mu.Lock()
	e.tix[k]++
	n := e.tix[k]
	e.mu.Unlock()
	time.Sleep(ms(tm.Dur))
	e.leave(tm.Actor, what, nil)
	switch {
	case tm.Fault == "err" || tm.Fault == "mix" && n%3 == 1:
		return errors.New("timer fails")
	case tm.Fault == "panic" || tm.Fault == "mix" && n%3 == 2:
		panic("timer panics")
	}
	return nil
}

// produce runs the producers and waits until they have finished.
func (e *eng) produce() {
	var wg sync.WaitGroup
	for i := range e.sc.Guests {
		wg.Add(1)
		go func() { defer wg.Done(); e.guest(i) }()
	}
	for p := range e.sc.Prods {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := range e.sc.Prods[p] {
				op := &e.sc.Prods[p][k]
				// a microsecond of its own keeps operations apart
				at := ms(op.At) + time.Duration(1+p*100+k)*time.Microsecond
				if d := at - e.now(); d > 0 {
					time.Sleep(d)
				}
				if op.N <= 1 {
					e.one(e.add(op, p, k, nil), nil, nil)
					continue
				}
				var bw sync.WaitGroup
				ins := make([]*inst, op.N)
				for i := range ins {
					ins[i] = e.add(op, p*1000+i+100000, k, nil)
				}
				for _, in := range ins {
					bw.Add(1)
					go func() { defer bw.Done(); e.one(in, nil, nil) }()
				}
				bw.Wait()
			}
		}()
	}
	wg.Wait()
}

// guest registers another actor, calls it and unregisters it, whatever the
// others are doing: nothing here waits for them.
func (e *eng) guest(i int) {
	time.Sleep(ms(e.sc.Guests[i]) + time.Duration(5001+i)*time.Microsecond/10)
	id := fmt.Sprint("guest", i)
	step := func(what string, max time.Duration, f func() error) {
		t := e.now()
		if err := f(); err != nil {
			e.bad("%s of an actor of its own at %v: %v", what, t, err)
		}
		if d := e.now() - t; d > max {
			e.bad("%s of an actor of its own at %v took %v", what, t, d)
		}
	}
	step("registration", 0, func() error { _, err := e.n.Reg("guest", id); return err })
	for _, to := range []string{id, def.SymbolWildcard, def.SymbolLocalFirst} {
		step("call ("+to+")", 0, func() error {
			mw := msg.NewBuilder(context.Background()).Build()
			err := e.n.Sys.Call(to, "guest", "hello", mw)
			if err == nil && mw.Err == nil && !strings.HasPrefix(string(mw.Res.Body), "guest") {
				err = fmt.Errorf("answered %q", mw.Res.Body)
			}
			if to != id && len(e.sc.Guests) > 1 {
				return nil // it may have found a guest that is leaving
			}
			return err
		})
	}
	time.Sleep(time.Millisecond)
	step("unregistration", 100*time.Millisecond, func() error { return e.n.Sys.Unregister(id, "guest") })
}

// settle waits until every message that was accepted has been handled, or the
// time this can take is over.
func (e *eng) settle() {
	total := ms(e.sc.Tail + 100)
	var sum func(ops []Op) time.Duration
	sum = func(ops []Op) time.Duration {
		var s time.Duration
		for _, o := range ops {
			n := o.N
			if n < 1 {
				n = 1
			}
			s += time.Duration(n*(1+len(o.Again))) * (ms(o.At+o.Dur+o.ADur) + sum(o.Sub))
			if o.Fresh {
				s += 5 * time.Second // it may wait for its own caller
			}
		}
		return s
	}
	for _, p := range e.sc.Prods {
		total += 2 * sum(p)
	}
	for _, tm := range e.sc.Timers {
		if tm.Dur > 1000 {
			total += ms(tm.Due + tm.Int + 2*tm.Dur)
		}
	}
	time.Sleep(total)
}

// gaveUp tells that the call reported an error when its time was over.
func (in *inst) gaveUp() bool {
	return in.op.Kind == "call" && in.returned > in.offered &&
		(in.returned-in.offered == 5*time.Second || in.op.Ctx > 0 && in.returned-in.offered == ms(in.op.Ctx))
}

// sound checks what holds in every case: bodies, chains, exactly-once, order,
// and that an actor with work to do is never idle.
func (e *eng) sound() error {
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.viol) > 0 {
		return errors.New(e.viol[0])
	}
	for _, in := range e.all {
		known := in.op.Ev < e.sc.Events || in.op.Kind == "pub"
		switch {
		case in.err != nil && in.gaveUp():
			// the caller stopped waiting: the message was accepted, unless it ended
			// before it could be
			if known && in.started > 1 {
				return fmt.Errorf("m%d ran %d times", in.id, in.started)
			}
		case in.err != nil && in.started > 0:
			return fmt.Errorf("m%d was refused (%v) but its handler ran", in.id, in.err)
		case in.err == nil && known && in.started != 1:
			return fmt.Errorf("m%d (%s to actor %d at %v) was accepted but ran %d times", in.id, in.op.Kind, in.op.To, in.offered, in.started)
		case in.err == nil && !known && in.started != 0:
			return fmt.Errorf("m%d has no chain but ran", in.id)
		}
		if in.started == 1 && !in.ended {
			return fmt.Errorf("m%d started but its chain never came to its end", in.id)
		}
		if in.started == 1 {
			wh, wa := 1, 1
			switch in.op.Fault {
			case "berr", "bpanic":
				wh, wa = 0, 0
			case "err", "panic":
				wa = 0
			}
			if in.handler != wh || in.after != wa {
				return fmt.Errorf("m%d (fault %q): handler ran %d times, after-function %d times", in.id, in.op.Fault, in.handler, in.after)
			}
		}
	}
	return nil
}

// order checks that what one sender sent to one actor was executed in that
// order, and published messages in order of publication.
func (e *eng) order() error {
	type key struct{ prod, to int }
	last := map[key]*inst{}
	for _, in := range e.all {
		if in.prod < 0 || in.started == 0 || in.op.Kind == "pub" {
			continue
		}
		k := key{in.prod, in.op.To}
		if p := last[k]; p != nil && (in.start < p.start || in.start < p.end) {
			return fmt.Errorf("m%d was sent after m%d by the same sender to the same actor, but ran at %v, the other at %v..%v", in.id, p.id, in.start, p.start, p.end)
		}
		last[k] = in
	}
	return nil
}

// conserving checks that a waiting message is started as soon as its actor is
// free: at the moment it was offered, or when an earlier callback ended.
func (e *eng) conserving() error {
	ends := map[int]map[time.Duration]bool{}
	for _, r := range e.log {
		if !r.start {
			if ends[r.actor] == nil {
				ends[r.actor] = map[time.Duration]bool{}
			}
			ends[r.actor][r.t] = true
		}
	}
	for _, in := range e.all {
		if in.started == 0 || in.op.Kind == "pub" || in.op.Fwd {
			continue
		}
		if in.start != in.offered && !ends[in.op.To][in.start] {
			return fmt.Errorf("m%d was offered to actor %d at %v and started at %v, although nothing ended then", in.id, in.op.To, in.offered, in.start)
		}
	}
	return nil
}

// treeEnd is when the last part of in's call tree that ran had finished.
func (e *eng) treeEnd(in *inst) time.Duration {
	t := in.offered
	if in.started > 0 {
		t = in.end
	}
	for _, k := range in.kids {
		if k.op.Fresh || k.op.Kind == "pub" || k.err != nil {
			continue
		}
		if kt := e.treeEnd(k); kt > t {
			t = kt
		}
	}
	return t
}

// calls checks the outcome of every call made from outside.
func (e *eng) calls() error {
	for _, in := range e.all {
		if in.op.Kind != "call" || (in.prod < 0 && !in.op.Fresh && !in.op.Reuse) || in.op.Fwd {
			continue
		}
		if in.op.To >= e.sc.Actors || in.op.Tgt != "" || e.temp > 0 && in.op.To >= e.temp {
			continue
		}
		fin := e.treeEnd(in)
		if in.started == 0 && in.err == nil && in.op.Ev >= e.sc.Events {
			// no chain: released as soon as its turn has come, which the trace does not show
			continue
		}
		limit, why := in.offered+5*time.Second, "five seconds"
		if in.op.Ctx > 0 && in.offered+ms(in.op.Ctx) < limit {
			limit, why = in.offered+ms(in.op.Ctx), "its context"
		}
		failed := in.err != nil || in.mwErr != nil
		if fin == limit {
			continue
		}
		if fin < limit {
			if failed {
				return fmt.Errorf("m%d finished at %v, before %s was over at %v, but the call reported %v / %v", in.id, fin, why, limit, in.err, in.mwErr)
			}
			if in.returned != fin {
				return fmt.Errorf("m%d: its call tree was finished at %v but the call returned at %v", in.id, fin, in.returned)
			}
		} else {
			if !failed {
				return fmt.Errorf("m%d: the call returned success at %v but its call tree finished only at %v", in.id, in.returned, fin)
			}
			if in.returned != limit {
				return fmt.Errorf("m%d: %s was over at %v but the call returned at %v", in.id, why, limit, in.returned)
			}
		}
	}
	return nil
}

// dropped checks that a caller whose message has no chain is released as soon
// as the actor has nothing else to do.
func (e *eng) dropped() error {
	type span struct{ beg, end time.Duration }
	busy := map[int][]span{}
	open := map[int]time.Duration{}
	for _, r := range e.log {
		if r.start {
			open[r.actor] = r.t
		} else {
			busy[r.actor] = append(busy[r.actor], span{open[r.actor], r.t})
		}
	}
	for _, in := range e.all {
		if in.op.Kind != "call" || in.op.Ev < e.sc.Events || in.op.Tgt != "" || in.started != 0 || in.op.Fwd {
			continue
		}
		if in.prod < 0 && !in.op.Fresh && !in.op.Reuse || in.op.To >= e.sc.Actors || e.temp > 0 && in.op.To >= e.temp {
			continue
		}
		idle := in.offered
		for _, b := range busy[in.op.To] {
			if b.beg <= idle && b.end > idle {
				idle = b.end
			}
		}
		limit := in.offered + 5*time.Second
		if in.op.Ctx > 0 {
			limit = min(limit, in.offered+ms(in.op.Ctx))
		}
		if idle < limit && (in.err != nil || in.mwErr != nil || in.returned > idle) {
			return fmt.Errorf("m%d has no chain and actor %d had nothing else to do at %v, but the call (made at %v) returned at %v with %v / %v", in.id, in.op.To, idle, in.offered, in.returned, in.err, in.mwErr)
		}
	}
	return nil
}

// ---------------------------------------------------------------- generators

type genCfg struct {
	actors, prods, ops int
	kinds              []string
	faults             []string
	unknown            bool
	burst              int
	maxDur             int
	gap                int
	guests             int
	long               bool // now and then a handler takes seconds
	crowd              int  // now and then that many copies at once
}

// genFlavor draws what has nothing to do with what happens: names, message ids
// and sizes of bodies.
func genFlavor(t *rapid.T, sc *Scn) {
	if rapid.IntRange(0, 2).Draw(t, "styled") == 1 {
		sc.Style = rapid.IntRange(1, hb.Styles-1).Draw(t, "style")
	}
	sc.IDs = rapid.SampledFrom([]string{"", "", "same", "empty", "few"}).Draw(t, "ids")
	if rapid.IntRange(0, 5).Draw(t, "sized") == 3 {
		for p := range sc.Prods {
			for i := range sc.Prods[p] {
				if sc.Prods[p][i].N <= 1 {
					sc.Prods[p][i].Size = rapid.SampledFrom([]int{0, 0, 1, 100, 1024, 5000, 70000}).Draw(t, "size")
				}
			}
		}
	}
}

func genOps(t *rapid.T, c genCfg, sc *Scn) {
	sc.Actors = rapid.IntRange(1, c.actors).Draw(t, "actors")
	sc.Events = rapid.IntRange(1, 3).Draw(t, "events")
	np := rapid.IntRange(1, c.prods).Draw(t, "prods")
	for p := 0; p < np; p++ {
		n := rapid.IntRange(1, c.ops).Draw(t, "ops")
		at := 0
		var ops []Op
		for i := 0; i < n; i++ {
			at += rapid.IntRange(0, c.gap).Draw(t, "gap")
			o := Op{At: at, To: rapid.IntRange(0, sc.Actors-1).Draw(t, "to"),
				Kind: rapid.SampledFrom(c.kinds).Draw(t, "kind"),
				Ev:   rapid.IntRange(0, sc.Events-1).Draw(t, "ev"),
				Dur:  rapid.IntRange(0, c.maxDur).Draw(t, "dur")}
			if c.unknown && rapid.IntRange(0, 7).Draw(t, "unk") == 0 {
				o.Ev = sc.Events
			}
			if rapid.IntRange(0, 3).Draw(t, "ad") == 0 {
				o.ADur = rapid.IntRange(0, 5).Draw(t, "adur")
			}
			if len(c.faults) > 0 && rapid.IntRange(0, 2).Draw(t, "f") == 0 {
				o.Fault = rapid.SampledFrom(c.faults).Draw(t, "fault")
			}
			if o.Kind == "pub" {
				sc.Subs = true
			} else if c.burst > 0 && rapid.IntRange(0, 5).Draw(t, "b") == 0 {
				o.N = rapid.IntRange(2, c.burst).Draw(t, "n")
				o.Dur = o.Dur % 3
			}
			ops = append(ops, o)
		}
		sc.Prods = append(sc.Prods, ops)
	}
	pick := func() *Op {
		p := sc.Prods[rapid.IntRange(0, len(sc.Prods)-1).Draw(t, "pp")]
		return &p[rapid.IntRange(0, len(p)-1).Draw(t, "pi")]
	}
	if c.long && rapid.IntRange(0, 9).Draw(t, "long") == 7 {
		for i := rapid.IntRange(1, 3).Draw(t, "longs"); i > 0; i-- {
			if o := pick(); o.N <= 1 {
				o.Dur = rapid.IntRange(1000, 12000).Draw(t, "ldur")
			}
		}
	}
	if c.crowd > 0 && rapid.IntRange(0, 63).Draw(t, "crowded") == 37 {
		for i := rapid.IntRange(1, 2).Draw(t, "crowds"); i > 0; i-- {
			if o := pick(); o.Kind != "pub" && o.Dur < 1000 {
				o.N, o.Dur, o.ADur = rapid.IntRange(c.crowd/8, c.crowd).Draw(t, "crowd"), rapid.IntRange(0, 1).Draw(t, "cdur"), 0
			}
		}
	}
	genFlavor(t, sc)
	if rapid.IntRange(0, 3).Draw(t, "byty") == 2 {
		for p := range sc.Prods {
			for i := range sc.Prods[p] {
				if o := &sc.Prods[p][i]; o.Kind != "pub" {
					o.Via = rapid.SampledFrom([]string{"", "any", "first"}).Draw(t, "via")
				}
			}
		}
	}
	if c.guests > 0 && rapid.IntRange(0, 3).Draw(t, "guests?") == 2 {
		sc.Guests = rapid.SliceOfN(rapid.IntRange(0, 150), 1, c.guests).Draw(t, "guests")
	}
}

// genAgain lets some calls be made several times with the same message.
func genAgain(t *rapid.T, sc *Scn) {
	for p := range sc.Prods {
		for i := range sc.Prods[p] {
			o := &sc.Prods[p][i]
			if o.Kind == "call" && o.N <= 1 && o.Tgt == "" && o.Ev < sc.Events && rapid.IntRange(0, 5).Draw(t, "again") == 2 {
				if slices.ContainsFunc(o.Sub, func(s Op) bool { return s.Fwd }) {
					continue // passed on, it has an origin
				}
				o.Again = rapid.SliceOfN(rapid.IntRange(0, sc.Actors-1), 1, 4).Draw(t, "agains")
			}
		}
	}
}

func genTimers(t *rapid.T, sc *Scn, max int, faults bool) {
	per := map[int]int{}
	for i := rapid.IntRange(0, max).Draw(t, "timers"); i > 0; i-- {
		tm := Tmr{Actor: rapid.IntRange(0, sc.Actors-1).Draw(t, "ta"), Due: rapid.IntRange(0, 40).Draw(t, "due"), Int: rapid.IntRange(1, 50).Draw(t, "int")}
		if per[tm.Actor]++; per[tm.Actor] > 2 {
			continue
		}
		tm.Dur = rapid.IntRange(0, tm.Int/4).Draw(t, "tdur")
		if faults && rapid.Bool().Draw(t, "tf") {
			tm.Fault = rapid.SampledFrom([]string{"err", "panic", "mix"}).Draw(t, "tfault")
		}
		sc.Timers = append(sc.Timers, tm)
	}
	sc.Tail = rapid.IntRange(0, 200).Draw(t, "tail")
}

// genSlowTimers makes some callbacks of timers take seconds.
func genSlowTimers(t *rapid.T, sc *Scn) {
	if len(sc.Timers) == 0 || rapid.IntRange(0, 9).Draw(t, "slowt") != 7 {
		return
	}
	tm := &sc.Timers[rapid.IntRange(0, len(sc.Timers)-1).Draw(t, "which")]
	tm.Dur = rapid.IntRange(1000, 12000).Draw(t, "sdur")
	tm.Int = 0
	if rapid.Bool().Draw(t, "again") {
		tm.Int = tm.Dur * rapid.IntRange(4, 6).Draw(t, "sint")
		if tm.Due == 0 {
			tm.Due = 1
		}
	}
}

// waited tells how many messages found their actor busy.
func (e *eng) waited() int {
	n := 0
	for _, in := range e.all {
		if in.started > 0 && in.start > in.offered {
			n++
		}
	}
	return n
}

func (e *eng) dump() string {
	e.mu.Lock()
	defer e.mu.Unlock()
	var b strings.Builder
	sort.SliceStable(e.log, func(i, j int) bool { return e.log[i].t < e.log[j].t })
	for i, r := range e.log {
		if i > 60 {
			break
		}
		fmt.Fprintf(&b, "\n  %v actor %d %s start=%v", r.t, r.actor, r.what, r.start)
	}
	return b.String()
}

func firstErr(fs ...func() error) error {
	for _, f := range fs {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func (e *eng) out(err error, nt bool, l hx.Labels) hx.Out {
	if err != nil {
		err = fmt.Errorf("%w\n timeline:%s", err, e.dump())
	}
	return hx.Out{Err: err, NonTrivial: nt, Labels: l.List()}
}
