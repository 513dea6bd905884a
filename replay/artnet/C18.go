package artnet

import (
	"fmt"
	"time"
)

func H_C18_tick(g *vGen) (f []string) {
	c := gUniverses(g)
	fps := 20
	interval := time.Second / time.Duration(fps)
	type st struct{ stale, must, never bool }
	want := map[Address]st{}
	now := time.Now()
	for a, n := range c.OutputAddress {
		b := n.DMXBuffer[a]
		var w st
		w.stale = g.Intn(2) == 0
		switch g.Intn(6) {
		case 0: // about half an interval old at the tick
			b.LastUpdate = now.Add(interval / 2)
			w.never = !w.stale
		case 1: // 120 to 160 ms
			b.LastUpdate = now.Add(interval - 120*time.Millisecond)
			w.must, w.never = w.stale, !w.stale
		case 2: // 200 to 240 ms
			b.LastUpdate = now.Add(interval - 200*time.Millisecond)
			w.must, w.never = w.stale, !w.stale
		case 3: // 260 to 300 ms
			b.LastUpdate = now.Add(interval - 260*time.Millisecond)
			w.must = true
		case 5: // 60 to 100 ms
			b.LastUpdate = now.Add(interval - 60*time.Millisecond)
			w.must, w.never = w.stale, !w.stale
		case 4:
			b.LastUpdate = time.Time{}
			w.must = true
		}
		b.Stale = w.stale
		if g.Intn(12) == 0 { // never buffered
			delete(n.DMXBuffer, a)
			w = st{must: true}
			g.note("universe %v has no buffer", a)
			want[a] = w
			continue
		}
		g.note("universe %v pending %v, last sent %v before the tick", a, w.stale, now.Add(interval).Sub(b.LastUpdate))
		want[a] = w
	}
	ok, stuck := gTick(c, fps)
	t1 := time.Now()
	if stuck {
		return []string{"the update task did not get through one tick and a shutdown in 5 s"}
	}
	if !ok {
		return nil
	}
	sent := map[Address]int{}
	fr := gDrain(c)
	if len(fr) == 0 {
		return nil // the task may not have seen a tick at all
	}
	for _, x := range fr {
		if len(x.data) > 15 {
			sent[Address{Net: x.data[15], SubUni: x.data[14]}]++
		}
	}
	var last time.Time
	for a, w := range want {
		b := c.OutputAddress[a].DMXBuffer[a]
		k := sent[a]
		if b == nil {
			f = append(f, fmt.Sprintf("universe %v, which had no buffer, was not served", a))
			continue
		}
		if k > 1 {
			f = append(f, fmt.Sprintf("%d frames for universe %v at one tick", k, a))
		}
		if w.must && k == 0 {
			f = append(f, fmt.Sprintf("no frame for universe %v, which was due", a))
		}
		if w.never && k > 0 {
			f = append(f, fmt.Sprintf("a frame for universe %v, which was not due", a))
		}
		if k > 0 && b.Stale {
			f = append(f, fmt.Sprintf("universe %v is still pending after its transmission", a))
		}
		if k > 0 && (b.LastUpdate.Before(now) || b.LastUpdate.After(t1)) {
			f = append(f, fmt.Sprintf("universe %v: the last-sent time is not the tick's time", a))
		}
		if k > 0 && !last.IsZero() && !b.LastUpdate.Equal(last) {
			f = append(f, fmt.Sprintf("universe %v: the last-sent time differs from that of another universe served at the same tick", a))
		}
		if k > 0 {
			last = b.LastUpdate
		}
		if k == 0 && b.Stale != w.stale {
			f = append(f, fmt.Sprintf("universe %v: pending mark changed without a transmission", a))
		}
	}
	return f
}
