package main

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/smart-core-os/sc-golang/internal/minibus"
	"github.com/smart-core-os/sc-golang/internal/verif/sched"
	"github.com/smart-core-os/sc-golang/internal/verif/vlib"
)

type event struct{ p, n int }

type listener struct {
	k      string
	most   int // stops receiving after this many, -1: never stops
	ctx    context.Context
	cancel context.CancelFunc
	done   chan struct{} // the receiver has seen the channel close
	was    bool
}

type busRun struct {
	log
	bus  *minibus.Bus
	lmu  sync.Mutex
	ls   []*listener
	shut bool // whoever comes now must not hold up anybody
	over bool // nobody comes any more
	quit map[event]context.CancelFunc
}

func newBus() *busRun { return &busRun{bus: &minibus.Bus{}, quit: map[event]context.CancelFunc{}} }

func (b *busRun) listen(most int) *listener {
	l := &listener{most: most, done: make(chan struct{})}
	l.ctx, l.cancel = context.WithCancel(context.Background())
	b.lmu.Lock()
	if b.over {
		b.lmu.Unlock()
		return nil
	}
	if b.shut && l.most >= 0 {
		l.most = -1
	}
	l.k = fmt.Sprint("k", len(b.ls))
	b.ls = append(b.ls, l)
	b.add(M{"e": "listen", "k": l.k})
	b.lmu.Unlock()
	var ch <-chan any
	b.call(func() { ch = b.bus.Listen(l.ctx) })
	b.add(M{"e": "listened", "k": l.k})
	go func() {
		n := 0
		for {
			if l.most >= 0 && n >= l.most {
				<-l.ctx.Done()
			}
			x, ok := <-ch
			if !ok {
				break
			}
			n++
			e := x.(event)
			b.add(M{"e": "recv", "k": l.k, "p": e.p, "n": e.n})
		}
		b.add(M{"e": "closed", "k": l.k})
		close(l.done)
	}()
	return l
}

func (b *busRun) stop(l *listener) {
	b.lmu.Lock()
	was := l.was
	l.was = true
	b.lmu.Unlock()
	if was {
		return
	}
	b.add(M{"e": "cancel", "k": l.k})
	l.cancel()
}

func (b *busRun) send(p, n int) {
	e := event{p, n}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	b.lmu.Lock()
	b.quit[e] = cancel
	b.lmu.Unlock()
	b.add(M{"e": "send", "p": p, "n": n})
	ok := false
	b.call(func() { ok = b.bus.Send(ctx, e) })
	b.lmu.Lock()
	delete(b.quit, e)
	b.lmu.Unlock()
	b.add(M{"e": "sent", "p": p, "n": n, "ok": ok})
}

func (b *busRun) giveUp() {
	b.lmu.Lock()
	defer b.lmu.Unlock()
	for e, c := range b.quit {
		b.add(M{"e": "quit", "p": e.p, "n": e.n})
		c()
		return
	}
}

// finish: senders must be able to finish once whoever does not receive has been cancelled
func (b *busRun) finish(out *vlib.Out, id string, senders <-chan struct{}) {
	all := func() []*listener {
		b.lmu.Lock()
		defer b.lmu.Unlock()
		b.shut = true
		return append([]*listener{}, b.ls...)
	}
	if !wait(senders, 3*time.Millisecond) {
		for _, l := range all() {
			if l.most >= 0 {
				b.stop(l)
			}
		}
		if !wait(senders, limit) {
			b.add(M{"e": "senders stuck"})
			bad.Add(1)
		}
	}
	b.lmu.Lock()
	b.over = true
	ls := append([]*listener{}, b.ls...)
	b.lmu.Unlock()
	for _, l := range ls {
		b.stop(l)
	}
	for _, l := range ls {
		if !wait(l.done, limit) {
			bad.Add(1)
		}
	}
	wait(senders, limit)
	b.end(out, id)
}

// busWindows: something happens at every point of many small scenarios
func busWindows(out *vlib.Out, seed int64, scenarios int) {
	for i := 0; i < scenarios && !tooMany(); i++ {
		r := rand.New(rand.NewSource(seed*15485863 + int64(i)))
		nl, ns, each := 1+r.Intn(3), 1+r.Intn(2), 1+r.Intn(2)
		mosts := make([]int, nl)
		for j := range mosts {
			mosts[j] = []int{-1, -1, 0, 1}[r.Intn(4)]
		}
		what := []string{"cancel", "cancel", "cancel", "quit", "listen"}[i%5]
		sweep(r, 120, func(k, hold int) bool {
			b := newBus()
			in := newInject(k, hold, func() {
				switch what {
				case "cancel":
					b.lmu.Lock()
					l := b.ls[0]
					b.lmu.Unlock()
					b.stop(l)
				case "quit":
					b.giveUp()
				case "listen":
					b.listen(mosts[0])
				}
			})
			// the first listener is the one that gets cancelled: it may be in the middle of Listen
			for _, m := range mosts {
				b.listen(m)
			}
			var wg sync.WaitGroup
			for p := 0; p < ns; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for n := 0; n < each; n++ {
						b.send(p, n)
					}
				}()
			}
			b.finish(out, fmt.Sprintf("bus-%s-%d", what, i), group(&wg))
			p := in.passed()
			in.c.Finish(time.Second)
			return p
		})
	}
}

// busStress: listeners come and go while senders send
func busStress(out *vlib.Out, seed int64, n int) {
	for i := 0; i < n && !tooMany(); i++ {
		r := rand.New(rand.NewSource(seed*32452843 + int64(i)))
		b := newBus()
		c := sched.New()
		c.OnPoint = sched.Jitter(r.Int63())
		for j := r.Intn(3); j >= 0; j-- {
			b.listen(-1)
		}
		var wg, lg sync.WaitGroup
		for p := 0; p < 1+r.Intn(4); p++ {
			each := 3 + r.Intn(8)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < each; n++ {
					b.send(p, n)
				}
			}()
		}
		for j := 0; j < 2+r.Intn(6); j++ {
			most := []int{-1, 0, 1, 2, 3}[r.Intn(5)]
			before, during := time.Duration(r.Intn(120))*time.Microsecond, time.Duration(r.Intn(200))*time.Microsecond
			stay := most < 0 && r.Intn(2) == 0
			q := r.Intn(4) == 0
			lg.Add(1)
			go func() {
				defer lg.Done()
				time.Sleep(before)
				l := b.listen(most) // finish comes after this
				time.Sleep(during)
				if q {
					b.giveUp()
				}
				if !stay {
					b.stop(l)
				}
			}()
		}
		if !wait(group(&lg), limit) {
			b.add(M{"e": "listen stuck"})
			bad.Add(1)
		}
		b.finish(out, fmt.Sprintf("busstress-%d", i), group(&wg))
		c.Finish(time.Second)
	}
}
