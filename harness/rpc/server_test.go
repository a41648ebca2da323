package rpc

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"testing"
	"time"

	bgrpc "github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/router"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials/insecure"
	"google.golang.org/grpc/status"
	"pgregory.net/rapid"
	"verif/harness/hb"
	"verif/harness/hx"
)

// ------------------------------------------------------------------ G02

type sreq struct {
	At   int    `json:"at"` // units of 200 us
	Srv  int    `json:"srv"`
	Dur  int    `json:"dur"`
	Code int    `json:"code"`
	Ic   int    `json:"ic"`  // -1 or the interceptor that does something
	Act  string `json:"act"` // refuse, replace, replace-req
}

type srvConf struct {
	Ics     int    `json:"ics"`
	Split   bool   `json:"split"`
	Grace   bool   `json:"grace"`
	Close   int    `json:"close"`   // units, -1: at the end
	SameAs  bool   `json:"same"`    // another server tries the same address meanwhile
	Opts    string `json:"opts"`    // order of the options
	Clients int    `json:"clients"` // connections
}

type scnG02 struct {
	Srvs []srvConf `json:"srvs"`
	Reqs []sreq    `json:"reqs"`
}

func genG02(rt *rapid.T) scnG02 {
	var sc scnG02
	for i := rapid.IntRange(1, 2).Draw(rt, "srvs"); i > 0; i-- {
		c := srvConf{Ics: rapid.IntRange(0, 3).Draw(rt, "ics"), Split: rapid.Bool().Draw(rt, "split"), Grace: rapid.IntRange(0, 2).Draw(rt, "grace") > 0, Close: -1,
			SameAs: rapid.IntRange(0, 3).Draw(rt, "same") == 0, Opts: rapid.SampledFrom([]string{"lghi", "ihgl", "gilh"}).Draw(rt, "opts"), Clients: rapid.IntRange(1, 2).Draw(rt, "clients")}
		if rapid.IntRange(0, 3).Draw(rt, "hasclose") > 0 {
			c.Close = rapid.IntRange(5, 60).Draw(rt, "close")
		}
		sc.Srvs = append(sc.Srvs, c)
	}
	durs := []int{0, 0, 10, 40, 80}
	if rapid.IntRange(0, 63).Draw(rt, "slow") == 37 { // some requests take seconds
		c := &sc.Srvs[0]
		c.Grace, c.Close = true, rapid.IntRange(20, 60).Draw(rt, "slowclose")
		sc.Reqs = append(sc.Reqs, sreq{At: rapid.IntRange(0, 15).Draw(rt, "slowat"), Ic: -1, Dur: rapid.SampledFrom([]int{2500, 3000, 4000, 6000, 12000, 27000}).Draw(rt, "slowest")})
	}
	for k := rapid.IntRange(1, 12).Draw(rt, "reqs"); k > 0; k-- {
		q := sreq{At: rapid.IntRange(0, 60).Draw(rt, "at"), Srv: rapid.IntRange(0, len(sc.Srvs)-1).Draw(rt, "srv"), Dur: rapid.SampledFrom(durs).Draw(rt, "dur"), Ic: -1}
		if rapid.IntRange(0, 3).Draw(rt, "bad") == 0 {
			q.Code = rapid.IntRange(1, 16).Draw(rt, "code")
		}
		if n := sc.Srvs[q.Srv].Ics; n > 0 && rapid.IntRange(0, 2).Draw(rt, "acts") == 0 {
			q.Ic, q.Act = rapid.IntRange(0, n-1).Draw(rt, "ic"), rapid.SampledFrom([]string{"refuse", "replace", "replace-req"}).Draw(rt, "act")
		}
		sc.Reqs = append(sc.Reqs, q)
	}
	return sc
}

type sres struct {
	q          sreq
	path       []string
	body       string
	err        error
	sent       time.Duration
	t1         time.Duration
	began      time.Duration // at the outermost of interceptors and handler, -1 never
	handled    int
	handledEnd time.Duration
}

func TestG02(t *testing.T) {
	hx.Check(t, "G02", "a request passed two interceptors or more, or was in progress when its server was closed", genG02, func(t *testing.T, sc scnG02) hx.Out { return runG02(sc) })
}

func runG02(sc scnG02) hx.Out {
	unit := func(n int) time.Duration { return time.Duration(n) * 200 * time.Microsecond }
	var mu sync.Mutex
	t0 := time.Now()
	now := func() time.Duration { return time.Since(t0) }
	byKey := map[string]*sres{}
	get := func(q *router.RouteReq) *sres {
		var k string
		if q.Msg != nil {
			k = q.Msg.Header.GetID()
		}
		mu.Lock()
		defer mu.Unlock()
		r := byKey[k]
		return r
	}
	type server struct {
		s      *bgrpc.Server
		conf   srvConf
		port   int
		conns  []*grpc.ClientConn
		c0, c1 time.Duration // close called, returned
	}
	var srvs []*server
	ports := hb.FreePorts(len(sc.Srvs))
	mk := func(si int, conf srvConf, port int, s *svc) *bgrpc.Server {
		var ics []grpc.UnaryServerInterceptor
		for i := 0; i < conf.Ics; i++ {
			ics = append(ics, func(ctx context.Context, req any, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (any, error) {
				q := req.(*router.RouteReq)
				r := get(q)
				if r == nil {
					return nil, errors.New("unknown request")
				}
				mu.Lock()
				r.path = append(r.path, fmt.Sprintf("in%d.%d", si, i))
				if r.began < 0 {
					r.began = now()
				}
				act := ""
				if r.q.Ic == i {
					act = r.q.Act
				}
				mu.Unlock()
				defer func() {
					mu.Lock()
					r.path = append(r.path, fmt.Sprintf("out%d.%d", si, i))
					mu.Unlock()
				}()
				switch act {
				case "refuse":
					return nil, status.Error(codes.PermissionDenied, "refused")
				case "replace-req":
					q = &router.RouteReq{Msg: &router.Message{Header: q.Msg.Header, Body: []byte("other")}}
				}
				res, err := h(ctx, q)
				if act == "replace" {
					return &router.RouteRes{Msg: &router.Message{Body: []byte("replaced")}}, nil
				}
				return res, err
			})
		}
		var opts []bgrpc.ServerOption
		for _, o := range conf.Opts {
			switch o {
			case 'l':
				opts = append(opts, bgrpc.WithServerListen(fmt.Sprintf("127.0.0.1:%d", port)))
			case 'g':
				if conf.Grace {
					opts = append(opts, bgrpc.WithServerGracefulStop())
				}
			case 'h':
				opts = append(opts, bgrpc.ServerRegisterHandler(func(g *grpc.Server) { router.RegisterAcceptorServer(g, s) }))
			case 'i':
				k := 0
				if conf.Split {
					k = len(ics) / 2
				}
				opts = append(opts, bgrpc.ServerAppendUnaryInterceptors(ics[:k]...), bgrpc.ServerAppendUnaryInterceptors(ics[k:]...))
			}
		}
		return bgrpc.BuildServerWithOption(opts...)
	}
	for i, conf := range sc.Srvs {
		s := &svc{f: func(ctx context.Context, q *router.RouteReq) (*router.RouteRes, error) {
			r := get(q)
			if r == nil {
				return nil, errors.New("unknown request")
			}
			mu.Lock()
			r.handled++
			r.path = append(r.path, fmt.Sprintf("handler%d", i))
			if r.began < 0 {
				r.began = now()
			}
			mu.Unlock()
			time.Sleep(unit(r.q.Dur))
			mu.Lock()
			r.handledEnd = now()
			mu.Unlock()
			if r.q.Code != 0 {
				return nil, status.Error(codes.Code(r.q.Code), "no")
			}
			return &router.RouteRes{Msg: &router.Message{Body: append([]byte("re "), q.Msg.Body...)}}, nil
		}}
		srv := &server{s: mk(i, conf, ports[i], s), conf: conf, port: ports[i], c0: -1}
		if err := srv.s.Init(); err != nil {
			return hx.Out{Infra: err}
		}
		srv.s.Run()
		if conf.SameAs {
			other := mk(9, srvConf{Opts: "lghi"}, ports[i], &svc{f: func(context.Context, *router.RouteReq) (*router.RouteRes, error) {
				return nil, errors.New("the wrong server")
			}})
			if err := other.Init(); err == nil {
				return hx.Fail("no error although the address is in use")
			}
		}
		for k := 0; k < conf.Clients; k++ {
			cc, err := grpc.NewClient(fmt.Sprintf("passthrough:///127.0.0.1:%d", ports[i]), grpc.WithTransportCredentials(insecure.NewCredentials()))
			hb.Must(err)
			defer cc.Close()
			srv.conns = append(srv.conns, cc)
		}
		srvs = append(srvs, srv)
	}
	defer func() {
		for _, s := range srvs {
			if s.c0 < 0 {
				s.s.Close()
			}
		}
	}()
	ask := func(r *sres, key string, cc *grpc.ClientConn) {
		ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
		defer cancel()
		mu.Lock()
		byKey[key] = r
		r.sent = now()
		mu.Unlock()
		res, err := router.NewAcceptorClient(cc).Routing(ctx, &router.RouteReq{Msg: &router.Message{Header: &router.Header{ID: key}, Body: []byte(key)}})
		mu.Lock()
		defer mu.Unlock()
		r.err, r.t1 = err, now()
		if err == nil {
			r.body = string(res.Msg.GetBody())
		}
	}
	var wg sync.WaitGroup
	var rs []*sres
	for i, q := range sc.Reqs {
		r := &sres{q: q, began: -1}
		rs = append(rs, r)
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(unit(q.At))
			ask(r, fmt.Sprintf("q%d", i), srvs[q.Srv].conns[i%len(srvs[q.Srv].conns)])
		}()
	}
	for _, s := range srvs {
		if s.conf.Close >= 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(unit(s.conf.Close))
				c := now()
				s.s.Close()
				e := now()
				mu.Lock()
				s.c0, s.c1 = c, e
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	// after the close nobody is served
	for i, s := range srvs {
		if s.c0 < 0 {
			continue
		}
		for k, cc := range s.conns {
			r := &sres{q: sreq{Srv: i, Ic: -1}, began: -1}
			ask(r, fmt.Sprintf("late%d.%d", i, k), cc)
			if r.err == nil || r.began >= 0 {
				return hx.Fail("server %d is closed but still serves: %v %q", i, r.err, r.body)
			}
		}
	}
	mu.Lock()
	defer mu.Unlock()
	lab := hx.Labels{}
	nt := false
	for i, r := range rs {
		q, s := r.q, srvs[r.q.Srv]
		what := fmt.Sprintf("request %d %+v sent %v began %v ended %v, server %+v closed %v..%v: error %v, reply %q, path %v", i, q, r.sent, r.began, r.t1, s.conf, s.c0, s.c1, r.err, r.body, r.path)
		if r.handled > 1 {
			return hx.Fail("%s", what)
		}
		// what has to come of it
		var want []string
		code, body := codes.Code(q.Code), fmt.Sprintf("re q%d", i)
		stop := s.conf.Ics
		if q.Act == "refuse" {
			stop = q.Ic
			code = codes.PermissionDenied
		}
		for k := 0; k < s.conf.Ics && k <= stop; k++ {
			want = append(want, fmt.Sprintf("in%d.%d", q.Srv, k))
		}
		if q.Act != "refuse" {
			want = append(want, fmt.Sprintf("handler%d", q.Srv))
		}
		for k := min(stop, s.conf.Ics-1); k >= 0; k-- {
			want = append(want, fmt.Sprintf("out%d.%d", q.Srv, k))
		}
		switch q.Act {
		case "replace":
			code, body = 0, "replaced"
		case "replace-req":
			body = "re other"
		}
		closed := s.c0 >= 0
		must := !closed || r.began >= 0 && s.conf.Grace || r.t1 < s.c0
		if r.began >= 0 && closed && (s.conf.Grace && r.began > s.c1 || r.sent > s.c1) {
			return hx.Fail("began after its server had been closed: %s", what)
		}
		if r.began >= 0 && fmt.Sprint(r.path) != fmt.Sprint(want) && (must || len(r.path) >= len(want)) {
			return hx.Fail("wanted path %v: %s", want, what)
		}
		if must {
			if code != 0 && (r.err == nil || status.Code(r.err) != code) || code == 0 && (r.err != nil || r.body != body) {
				return hx.Fail("wanted %v %q: %s", code, body, what)
			}
		} else if r.err == nil && (code != 0 || r.body != body || r.began < 0) {
			return hx.Fail("neither the result nor an error: %s", what)
		}
		if closed && s.conf.Grace && r.handled > 0 && r.handledEnd > s.c1 {
			return hx.Fail("the graceful close did not wait for it: %s", what)
		}
		if closed && r.began >= 0 && r.began < s.c0 && r.t1 > s.c0 {
			nt = true
			lab[map[bool]string{true: "in progress at a graceful close", false: "in progress at a hard close"}[s.conf.Grace]] = true
			if s.conf.Grace && q.Dur >= 2500 {
				lab["seconds left at a graceful close"] = true
			}
		}
		if closed && r.sent > s.c1 {
			lab["sent after the close"] = true
		}
		if len(want) > 4 {
			nt = true
			lab["several interceptors"] = true
		}
		if q.Act != "" && r.began >= 0 {
			lab["interceptor: "+q.Act] = true
		}
	}
	return hx.Out{NonTrivial: nt, Labels: lab.List()}
}
