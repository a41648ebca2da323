package ps

import (
	"fmt"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
	"verif/harness/hb"
	"verif/harness/hx"
)

// deliveries runs f with a function that registers a subscriber, and returns
// how many messages each subscriber has handled.
func deliveries(t *testing.T, f func(n *hb.Nod, sub func(id, channel string))) map[string]int {
	got := map[string]int{}
	hx.Bubble(t, func() hx.Out {
		chans := map[string]string{}
		w := hb.New(hb.Spec{Ty: "s", New: func(b core.IActorBuilder) core.IActor {
			return hb.With(b, func(a *hb.Act) {
				hb.Must(a.Sub("topic", chans[a.Id], func(core.ActorContext) core.IChain {
					return &actor.DefaultChain{Handler: func(*msg.Wrapper) error { got[a.Id]++; return nil }}
				}))
				if chans[a.Id] != "ev" {
					a.OnEvent("ev", func(core.ActorContext) core.IChain {
						return &actor.DefaultChain{Handler: func(*msg.Wrapper) error { got[a.Id]++; return nil }}
					})
				}
			})
		}})
		n := w.Node("n", "127.0.0.1", 0)
		f(n, func(id, channel string) {
			chans[id] = channel
			_, err := n.Reg("s", id)
			hb.Must(err)
			time.Sleep(3 * time.Millisecond) // the readers poll at different times
		})
		for i := 0; i < 20; i++ {
			hb.Must(n.Sys.Pub("topic", "ev", []byte(fmt.Sprint(i))))
			time.Sleep(17 * time.Millisecond)
		}
		time.Sleep(time.Second)
		w.Close()
		return hx.Out{}
	})
	return got
}

// Two channels on one topic: whichever acknowledges first deletes the message
// under the other one.
func twoChannels(t *testing.T) (bool, string) {
	got := deliveries(t, func(n *hb.Nod, sub func(id, channel string)) {
		sub("a", "ch1")
		sub("b", "ch2")
	})
	return got["a"] < 20 || got["b"] < 20, fmt.Sprintf("of 20 messages published to a topic with two channels one channel got %d, the other %d", got["a"], got["b"])
}

// The reader of an exited subscriber goes on consuming.
func exitedReader(t *testing.T) (bool, string) {
	got := deliveries(t, func(n *hb.Nod, sub func(id, channel string)) {
		sub("a", "ev")
		hb.Must(n.Sys.Unregister("a", "s"))
		sub("b", "ev")
	})
	return got["b"] < 20, fmt.Sprintf("after its first subscriber had exited, a channel's next subscriber got %d of 20 messages", got["b"])
}
