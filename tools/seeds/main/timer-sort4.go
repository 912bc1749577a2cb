package main

import (
	"math/rand"
	"sync"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

type tm struct {
	t    iproto.Timer
	at   time.Time
	late *time.Duration
	m    *sync.Mutex
	wg   *sync.WaitGroup
}

func (t *tm) Timer() *iproto.Timer { return &t.t }
func (t *tm) Expire() {
	d := time.Since(t.at)
	t.m.Lock()
	if d > *t.late {
		*t.late = d
	}
	t.m.Unlock()
	t.wg.Done()
}

func main() {
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 4; round++ {
		var late time.Duration
		var m sync.Mutex
		var wg sync.WaitGroup
		wg.Add(800)
		for i := 0; i < 800; i++ {
			d := time.Duration(200+rnd.Intn(4)*700+rnd.Intn(40)) * time.Millisecond
			t := &tm{at: time.Now().Add(d), late: &late, m: &m, wg: &wg}
			t.t.After(d, t)
		}
		if !within(20*time.Second, wg.Wait) {
			fail("a timer did not fire")
		}
		if late > 400*time.Millisecond {
			fail("a timer fired %v late", late)
		}
	}
	ok()
}
