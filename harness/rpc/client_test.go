// Package rpc checks the RPC client and server.
package rpc

import (
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	bgrpc "github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/router"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
	"google.golang.org/grpc/test/bufconn"
	"pgregory.net/rapid"
	"verif/harness/hx"
)

func TestMain(m *testing.M) {
	if os.Getenv("VH_VERBOSE") == "" {
		if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = f
		}
	}
	os.Exit(m.Run())
}

// ------------------------------------------------------------------ G01

type rcall struct {
	At   int    `json:"at"` // ms
	Wait bool   `json:"wait"`
	Addr int    `json:"addr"`
	Dur  int    `json:"dur"`
	Code int    `json:"code"` // 0 answers
	TO   int    `json:"to"`   // ms after At, 0 never
	Canc bool   `json:"canc"`
	Opts string `json:"opts"` // per option: v valid, x not an option
	Meth string `json:"meth"` // routing or nothing known
	Pre  bool   `json:"pre"`  // the context has ended before
	Sync bool   `json:"sync"` // at the same instant as others
}

type scnG01 struct {
	Limit int     `json:"limit"`
	Addrs int     `json:"addrs"` // the first Conn of them are given to the client at the start
	Conn  int     `json:"conn"`
	Down  []int   `json:"down"` // addresses that cannot be connected
	Ics   int     `json:"ics"`
	Split bool    `json:"split"` // the interceptors come in two options
	Calls []rcall `json:"calls"`
	Cuts  []rcut  `json:"cuts,omitempty"`
}

// rcut ends all connections to an address. It goes on listening, or does so again after a while.
type rcut struct {
	At   int `json:"at"`
	Addr int `json:"addr"`
	Back int `json:"back,omitempty"` // ms until the server is back
}

func genG01(rt *rapid.T) scnG01 {
	sc := scnG01{Limit: rapid.IntRange(1, 4).Draw(rt, "limit"), Addrs: rapid.IntRange(1, 3).Draw(rt, "addrs"), Ics: rapid.IntRange(0, 3).Draw(rt, "ics"), Split: rapid.Bool().Draw(rt, "split")}
	sc.Conn = rapid.IntRange(0, sc.Addrs).Draw(rt, "conn")
	if rapid.Bool().Draw(rt, "allconn") {
		sc.Conn = sc.Addrs
	}
	if rapid.IntRange(0, 3).Draw(rt, "hasdown") == 0 {
		sc.Down = append(sc.Down, rapid.IntRange(0, sc.Addrs-1).Draw(rt, "down"))
	}
	wait := rapid.SampledFrom([]int{0, 1, 4}).Draw(rt, "waitshare")
	for k := rapid.IntRange(1, 14).Draw(rt, "calls"); k > 0; k-- {
		c := rcall{At: rapid.IntRange(0, 30).Draw(rt, "at"), Wait: rapid.IntRange(0, 4).Draw(rt, "wait") < wait, Addr: rapid.IntRange(0, sc.Addrs-1).Draw(rt, "addr"),
			Dur: rapid.SampledFrom([]int{0, 1, 5, 20, 20, 40}).Draw(rt, "dur"), Opts: rapid.SampledFrom([]string{"", "", "", "v", "vv", "x", "vx"}).Draw(rt, "opts"), Meth: "routing"}
		if rapid.IntRange(0, 3).Draw(rt, "bad") == 0 {
			c.Code = rapid.IntRange(1, 16).Draw(rt, "code")
		}
		if rapid.IntRange(0, 2).Draw(rt, "lim") == 0 {
			c.TO, c.Canc = rapid.IntRange(1, 60).Draw(rt, "to"), rapid.Bool().Draw(rt, "canc")
		}
		if rapid.IntRange(0, 15).Draw(rt, "nm") == 0 {
			c.Meth = rapid.SampledFrom([]string{"nothing", ""}).Draw(rt, "meth")
		}
		c.Pre = rapid.IntRange(0, 15).Draw(rt, "pre") == 0
		sc.Calls = append(sc.Calls, c)
	}
	if rapid.IntRange(0, 7).Draw(rt, "long") == 3 { // slots are held for long
		for k := rapid.IntRange(1, 6).Draw(rt, "nlong"); k > 0; k-- {
			c := rcall{At: rapid.IntRange(0, 5).Draw(rt, "lat"), Addr: rapid.IntRange(0, sc.Addrs-1).Draw(rt, "laddr"), Dur: rapid.SampledFrom([]int{2100, 3500, 7000, 31000, 70000}).Draw(rt, "ldur"), Meth: "routing"}
			if rapid.IntRange(0, 3).Draw(rt, "llim") == 0 {
				c.TO, c.Canc = rapid.IntRange(1000, 9000).Draw(rt, "lto"), rapid.Bool().Draw(rt, "lcanc")
			}
			sc.Calls = append(sc.Calls, c)
		}
	}
	if rapid.IntRange(0, 63).Draw(rt, "crowded") == 37 {
		sc.Limit = rapid.SampledFrom([]int{1, 5, 20, 50}).Draw(rt, "climit")
		for k := rapid.SampledFrom([]int{30, 120}).Draw(rt, "crowd"); k > 0; k-- {
			sc.Calls = append(sc.Calls, rcall{At: rapid.IntRange(0, 30).Draw(rt, "qat"), Addr: rapid.IntRange(0, sc.Addrs-1).Draw(rt, "qaddr"), Dur: rapid.SampledFrom([]int{0, 5, 20}).Draw(rt, "qdur"), Meth: "routing"})
		}
	}
	if rapid.IntRange(0, 7).Draw(rt, "meet") == 5 { // several want a new connection at once
		sc.Conn = rapid.IntRange(0, sc.Addrs-1).Draw(rt, "mconn")
		at, n := rapid.IntRange(0, 3).Draw(rt, "mat"), rapid.IntRange(2, 12).Draw(rt, "nmeet")
		for ; n > 0; n-- {
			sc.Calls = append(sc.Calls, rcall{At: at, Wait: true, Addr: sc.Addrs - 1, Dur: rapid.SampledFrom([]int{0, 5, 20}).Draw(rt, "mdur"), Meth: "routing", Sync: true})
		}
	}
	if rapid.IntRange(0, 2).Draw(rt, "hascut") == 1 {
		for k := rapid.IntRange(1, 3).Draw(rt, "cuts"); k > 0; k-- {
			c := rcut{At: rapid.IntRange(0, 70).Draw(rt, "cat"), Addr: rapid.IntRange(0, sc.Addrs-1).Draw(rt, "caddr")}
			if rapid.IntRange(0, 2).Draw(rt, "gone") == 1 {
				c.Back = rapid.SampledFrom([]int{5, 40, 500, 3000, 20000, 200000}).Draw(rt, "back")
			}
			sc.Cuts = append(sc.Cuts, c)
		}
	}
	return sc
}

type cres struct {
	c              rcall
	t0, t1         time.Duration
	in, out        time.Duration // innermost interceptor, in < 0: never
	path           []string      // interceptors in and out
	peak           int           // in flight when it was passed on
	err            error
	ctxErr         error // at the moment the call returned
	body           string
	handled        int
	panicked       any
	hdr            bool // the option took effect
	hdrWanted      bool
	handlerAt      time.Duration
	handlerReplied bool
}

type svc struct {
	router.UnimplementedAcceptorServer
	f func(ctx context.Context, r *router.RouteReq) (*router.RouteRes, error)
}

func (s *svc) Routing(ctx context.Context, r *router.RouteReq) (*router.RouteRes, error) {
	return s.f(ctx, r)
}

func TestG01(t *testing.T) {
	hx.Check(t, "G01", "a limited call had to wait for a slot, or a call failed or was given up and others followed", genG01, func(t *testing.T, sc scnG01) hx.Out {
		return hx.Bubble(t, func() hx.Out { return runG01(sc) })
	})
}

type keyCtx struct{}

func runG01(sc scnG01) hx.Out {
	var mu sync.Mutex
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }
	byKey := map[string]*cres{}
	s := &svc{f: func(ctx context.Context, q *router.RouteReq) (*router.RouteRes, error) {
		mu.Lock()
		r := byKey[string(q.Msg.Body)]
		r.handled++
		r.handlerAt = now()
		mu.Unlock()
		grpc.SetHeader(ctx, metadata.Pairs("who", string(q.Msg.Body)))
		select {
		case <-time.After(time.Duration(r.c.Dur)*time.Millisecond + 300*time.Nanosecond):
		case <-ctx.Done():
			return nil, ctx.Err()
		}
		mu.Lock()
		r.handlerReplied = true
		mu.Unlock()
		if r.c.Code != 0 {
			return nil, status.Error(codes.Code(r.c.Code), "no "+string(q.Msg.Body))
		}
		return &router.RouteRes{Msg: &router.Message{Body: []byte("re " + string(q.Msg.Body))}}, nil
	}}
	lis := map[string]*bufconn.Listener{}
	links := map[string][]net.Conn{}
	back := map[string]time.Duration{} // not there until then
	var srvs []*grpc.Server
	isDown := map[int]bool{}
	for _, d := range sc.Down {
		isDown[d] = true
	}
	addr := func(i int) string { return fmt.Sprintf("peer%d", i) }
	for i := 0; i < sc.Addrs; i++ {
		if isDown[i] {
			continue
		}
		l := bufconn.Listen(1 << 20)
		g := grpc.NewServer()
		router.RegisterAcceptorServer(g, s)
		go g.Serve(l)
		lis[addr(i)] = l
		srvs = append(srvs, g)
	}
	defer func() {
		for _, g := range srvs {
			g.Stop()
		}
	}()
	inflight := 0 // through the limited path
	var ics []grpc.UnaryClientInterceptor
	for i := 0; i <= sc.Ics; i++ { // the last one keeps the time
		ics = append(ics, func(ctx context.Context, method string, req, reply any, cc *grpc.ClientConn, inv grpc.UnaryInvoker, opts ...grpc.CallOption) error {
			r, _ := ctx.Value(keyCtx{}).(*cres)
			if r == nil {
				return errors.New("the context is not the caller's")
			}
			mu.Lock()
			r.path = append(r.path, fmt.Sprintf("in%d", i))
			if i == sc.Ics {
				r.in = now()
				if !r.c.Wait {
					inflight++
					r.peak = inflight
				}
			}
			mu.Unlock()
			err := inv(ctx, method, req, reply, cc, opts...)
			mu.Lock()
			r.path = append(r.path, fmt.Sprintf("out%d", i))
			if i == sc.Ics {
				r.out = now()
				if !r.c.Wait {
					inflight--
				}
			}
			mu.Unlock()
			return err
		})
	}
	opts := []bgrpc.ClientOption{bgrpc.WithMaxConcurrentCalls(sc.Limit),
		bgrpc.WithDialOptions(grpc.WithContextDialer(func(ctx context.Context, a string) (net.Conn, error) {
			mu.Lock()
			away := now() < back[a]
			mu.Unlock()
			if l := lis[a]; l != nil && !away {
				c, err := l.DialContext(ctx)
				if err == nil {
					mu.Lock()
					links[a] = append(links[a], c)
					mu.Unlock()
				}
				return c, err
			}
			return nil, errors.New("nobody there")
		}))}
	var conns []string
	for i := 0; i < sc.Conn; i++ {
		conns = append(conns, addr(i))
	}
	opts = append(opts, bgrpc.WithClientConns(conns))
	if sc.Split {
		k := len(ics) / 2
		opts = append(opts, bgrpc.ClientAppendUnaryInterceptors(ics[:k]...), bgrpc.ClientAppendUnaryInterceptors(ics[k:]...))
	} else {
		opts = append(opts, bgrpc.ClientAppendUnaryInterceptors(ics...))
	}
	cl := bgrpc.BuildClientWithOption(opts...)
	if err := cl.Init(); err != nil {
		return hx.Fail("init: %v", err)
	}
	known := map[int]bool{}
	for i := 0; i < sc.Conn; i++ {
		known[i] = true
	}
	do := func(r *cres, key string) {
		c := r.c
		mu.Lock()
		byKey[key] = r
		mu.Unlock()
		r.in = -1
		ctx := context.WithValue(context.Background(), keyCtx{}, r)
		cancel := func() {}
		if c.TO > 0 {
			d := time.Duration(c.TO)*time.Millisecond + 100*time.Nanosecond
			if c.Canc {
				ctx, cancel = context.WithCancel(ctx)
				defer time.AfterFunc(d, cancel).Stop()
			} else {
				ctx, cancel = context.WithTimeout(ctx, d)
			}
		}
		defer func() { cancel() }()
		if c.Pre {
			ctx, cancel = context.WithCancel(ctx)
			cancel()
		}
		var hd metadata.MD
		var os []any
		for _, o := range c.Opts {
			if o == 'v' {
				os = append(os, grpc.Header(&hd))
				r.hdrWanted = true
			} else {
				os = append(os, "not an option")
			}
		}
		r.t0 = now()
		res := &router.RouteRes{}
		q := &router.RouteReq{Msg: &router.Message{Body: []byte(key)}}
		func() {
			defer func() { r.panicked = recover() }()
			if c.Wait {
				r.err = cl.CallWait(ctx, addr(c.Addr), "/router.Acceptor/"+c.Meth, q, res, os...)
			} else {
				r.err = cl.Call(ctx, addr(c.Addr), "/router.Acceptor/"+c.Meth, q, res, os...)
			}
		}()
		r.t1 = now()
		r.ctxErr = ctx.Err()
		if c.TO > 0 && r.t1-r.t0 >= time.Duration(c.TO)*time.Millisecond { // at the same instant the server may be first to tell
			r.ctxErr = context.DeadlineExceeded
		}
		if res.Msg != nil {
			r.body = string(res.Msg.Body)
		}
		r.hdr = len(hd.Get("who")) == 1 && hd.Get("who")[0] == key
	}
	var rs []*cres
	var wg sync.WaitGroup
	for i, c := range sc.Calls {
		r := &cres{c: c}
		rs = append(rs, r)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if c.Sync {
				time.Sleep(time.Duration(c.At) * time.Millisecond)
			} else {
				time.Sleep(time.Duration(c.At)*time.Millisecond + time.Duration(i+1)*time.Microsecond)
			}
			do(r, fmt.Sprintf("c%d", i))
		}()
	}
	for _, c := range sc.Cuts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(time.Duration(c.At)*time.Millisecond + 500*time.Microsecond)
			mu.Lock()
			ls := links[addr(c.Addr)]
			links[addr(c.Addr)] = nil
			if c.Back > 0 {
				back[addr(c.Addr)] = max(back[addr(c.Addr)], now()+time.Duration(c.Back)*time.Millisecond)
			}
			mu.Unlock()
			for _, x := range ls {
				x.Close()
			}
		}()
	}
	wg.Wait()
	time.Sleep(time.Millisecond)
	mu.Lock()
	defer mu.Unlock()
	lab := hx.Labels{}
	nt := false
	var fails bool
	sort.SliceStable(rs, func(i, j int) bool { return rs[i].t0 < rs[j].t0 })
	for i, r := range rs {
		c := r.c
		what := fmt.Sprintf("call %+v started %v ended %v (passed on %v..%v): error %v, reply %q, handled %d", c, r.t0, r.t1, r.in, r.out, r.err, r.body, r.handled)
		if r.panicked != nil {
			return hx.Fail("panic: %v; %s", r.panicked, what)
		}
		if r.handled > 1 {
			return hx.Fail("%s", what)
		}
		bad := strings.Contains(c.Opts, "x")
		noconn := !c.Wait && !known[c.Addr]
		if !c.Wait && !known[c.Addr] { // perhaps a waiting call has connected it, or does so just now
			for _, o := range rs {
				if o.c.Wait && o.c.Addr == c.Addr && o.t0 <= r.t1 {
					noconn = false
				}
			}
		}
		cut := false
		for _, k := range sc.Cuts {
			at := time.Duration(k.At)*time.Millisecond + 500*time.Microsecond
			cut = cut || k.Addr == c.Addr && (r.t0 < at+time.Microsecond || k.Back > 0) && r.t1 >= at
		}
		lab.Add(cut && r.handled > 0, "cut off")
		ok := !bad && !noconn && !isDown[c.Addr] && c.Meth == "routing" && c.Code == 0
		if r.err == nil {
			if !ok || !r.handlerReplied {
				return hx.Fail("success although it cannot be: %s", what)
			}
			if want := fmt.Sprintf("re c%d", index(sc, r, byKey)); r.body != want {
				return hx.Fail("reply %q, want %q: %s", r.body, want, what)
			}
			if r.hdrWanted != r.hdr {
				return hx.Fail("the call option had no effect: %s", what)
			}
		} else {
			fails = true
			if r.ctxErr == nil && cut {
				lab["failed by a cut"] = true
			} else if r.ctxErr == nil {
				if ok && (known[c.Addr] || c.Wait) {
					return hx.Fail("error without a reason: %s", what)
				}
				if !bad && !noconn && !isDown[c.Addr] && c.Meth == "routing" && c.Code != 0 && (known[c.Addr] || c.Wait) {
					var st interface{ GRPCStatus() *status.Status }
					if !errors.As(r.err, &st) || st.GRPCStatus().Code() != codes.Code(c.Code) {
						return hx.Fail("the server's status is %v: %s", codes.Code(c.Code), what)
					}
					lab["status"] = true
				}
			} else {
				lab["context ended"] = true
			}
			if bad {
				lab["invalid option"] = true
				if r.handled > 0 {
					return hx.Fail("carried out in spite of an invalid option: %s", what)
				}
			}
			if noconn {
				lab["unknown connection"] = true
			}
		}
		if c.TO > 0 && r.t1 > r.t0+time.Duration(c.TO)*time.Millisecond+time.Microsecond {
			return hx.Fail("did not end with its context: %s", what)
		}
		if c.Pre && r.t1 != r.t0 {
			return hx.Fail("did not end with its context: %s", what)
		}
		// interceptors
		if r.in >= 0 || len(r.path) > 0 {
			var want []string
			for k := 0; k <= sc.Ics; k++ {
				want = append(want, fmt.Sprintf("in%d", k))
			}
			for k := sc.Ics; k >= 0; k-- {
				want = append(want, fmt.Sprintf("out%d", k))
			}
			if fmt.Sprint(r.path) != fmt.Sprint(want) {
				return hx.Fail("interceptors ran as %v: %s", r.path, what)
			}
		} else if r.handled > 0 {
			return hx.Fail("interceptors did not run: %s", what)
		}
		if c.Wait && r.in > r.t0 {
			return hx.Fail("a call outside of the limit had to wait: %s", what)
		}
		// the limit
		if r.peak > sc.Limit {
			return hx.Fail("%d calls in flight, the limit is %d: %s", r.peak, sc.Limit, what)
		}
		// a free slot is used at once
		to := r.in
		if to < 0 {
			to = r.t1
		}
		if !c.Wait && to > r.t0 {
			nt = true
			lab["waited for a slot"] = true
			if r.in < 0 {
				lab["gave up waiting"] = true
			}
			points := []time.Duration{r.t0}
			for _, o := range rs {
				if o.out > r.t0 && o.out < to {
					points = append(points, o.out)
				}
			}
			for _, p := range points {
				n := 0
				for _, o := range rs {
					if o != r && !o.c.Wait && o.in >= 0 && o.in <= p && p+time.Nanosecond < o.out {
						n++
					}
				}
				if n < sc.Limit {
					return hx.Fail("waits at %v although only %d of %d slots are in use: %s", p, n, sc.Limit, what)
				}
			}
		}
		if i > 0 && fails {
			nt = true
		}
		if r.err == nil {
			lab[map[bool]string{true: "waiting path", false: "limited path"}[c.Wait]] = true
		}
	}
	// afterwards every slot is free
	var last []*cres
	target := -1
	for i := 0; i < sc.Conn; i++ {
		if !isDown[i] {
			target = i
		}
	}
	if target >= 0 {
		mu.Unlock()
		for k, c := range sc.Cuts { // who was away can be called again
			if c.Back == 0 || isDown[c.Addr] || !known[c.Addr] {
				continue
			}
			time.Sleep(max(0, back[addr(c.Addr)]-now()))
			var err error
			for n := 0; n < 12; n++ {
				r := &cres{c: rcall{Addr: c.Addr, Dur: 1, Meth: "routing", Wait: k%2 == 1}}
				do(r, fmt.Sprintf("back%d/%d", k, n))
				if err = r.err; err == nil {
					break
				}
				time.Sleep(time.Second)
			}
			if err != nil {
				mu.Lock()
				return hx.Fail("peer%d is back since %v and cannot be called: %v", c.Addr, back[addr(c.Addr)], err)
			}
			lab["called again after it was away"] = true
		}
		for i := 0; i <= sc.Limit; i++ {
			r := &cres{c: rcall{Addr: target, Dur: 10, Meth: "routing"}}
			last = append(last, r)
			wg.Add(1)
			go func() { defer wg.Done(); do(r, fmt.Sprintf("last%d", i)) }()
		}
		wg.Wait()
		mu.Lock()
		at := map[time.Duration]int{}
		for _, r := range last {
			if r.err != nil {
				return hx.Fail("afterwards a call fails: %v", r.err)
			}
			at[r.in-r.t0]++
		}
		if at[0] != sc.Limit || len(at) != 2 {
			return hx.Fail("afterwards %d calls begin after %v, the limit is %d", sc.Limit+1, at, sc.Limit)
		}
	}
	return hx.Out{NonTrivial: nt, Labels: lab.List()}
}

func index(sc scnG01, r *cres, m map[string]*cres) int {
	for k, x := range m {
		if x == r {
			n := -1
			fmt.Sscanf(k, "c%d", &n)
			return n
		}
	}
	return -1
}
