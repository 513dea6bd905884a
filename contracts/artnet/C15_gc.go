package artnet

import "time"

func vGCInvs15(c *Controller, t0 time.Time) {
	vGCShared(c)
	vInv("order", func() bool { return vOrdered(c) })
	vInv("checked so far", func(i int) bool {
		return vForall(0, i, func(j int) bool { return !vExpired(c.Nodes[j], t0) })
	})
	vInv("checked from here on", func(i int) bool {
		return vForall(i, len(c.Nodes), func(j int) bool { return !vExpired(c.Nodes[j], t0) })
	})
	vInv("kept checked", func(kept []*ControlledNode) bool { return vNoneExpired(kept, t0) })
}

// vOrdered: the listed nodes are in the order they had at the beginning.
func vOrdered(c *Controller) bool { return vOrderedIn(c.Nodes) }

func vNoneExpired(l []*ControlledNode, t0 time.Time) bool {
	return vForall(0, len(l), func(j int) bool { return !vExpired(l[j], t0) })
}

// vNow15 is the last time that was read.
func vNow() time.Time { return time.Now() }

// Clean-up and a node at any position k; b is any universe.
func C15_gc_expired(c *Controller, k int, b Address) {
	vAssumeInv(c)
	vRequire(0 <= k && k < len(c.Nodes))
	n := c.Nodes[k]
	t0 := time.Now()
	vGCInvs15(c, t0)
	vProgress(func() int { return len(c.Nodes) })
	vRequire(vExpired(n, t0))
	c.gcNode()
	vEnsure("no expired node stays", vForall(0, len(c.Nodes), func(i int) bool { return !vExpired(c.Nodes[i], t0) }))
	vEnsure("the order stays", vOrdered(c))
	vEnsure("no universe leads to an expired node", c.OutputAddress[b] != n && c.InputAddress[b] != n)
	vReach("end")
}

func C15_gc_kept(c *Controller, k int, b Address, x *dmxBuffer) {
	vAssumeInv(c)
	vRequire(0 <= k && k < len(c.Nodes) && x != nil)
	n := c.Nodes[k]
	t0 := time.Now()
	vGCInvs15(c, t0)
	vInv("listed", func() bool { return vListed(c, n) || vExpired(n, vNow()) })
	vInv("kept listed", func(kept []*ControlledNode, i int) bool {
		return vKeptOrAhead(c, kept, i, n) || vExpired(n, vNow())
	})
	on, ox := vSnapCN15(n), vSnapBuf15(x)
	c.gcNode()
	t1 := time.Now()
	vEnsure("a node seen within 7 seconds stays", vExpired(on, t1) || vListed(c, n))
	vEnsure("the order stays", vOrdered(c))
	vEnsure("it is not touched", vExpired(on, t1) || vUntouched15(n, on, b))
	vEnsure("no stored frame changes", x.Data == ox.Data && x.Stale == ox.Stale && x.LastUpdate.Equal(ox.LastUpdate))
	vReach("end")
}

// The routes of a node that stays, for universes no other node announces.
func C15_gc_routes(c *Controller, k int, b Address) {
	vAssumeInv(c)
	vRequire(0 <= k && k < len(c.Nodes))
	n := c.Nodes[k]
	t0 := time.Now()
	vGCInvs15(c, t0)
	out, in := c.OutputAddress[b] == n, c.InputAddress[b] == n
	vRequire(vForall(0, len(c.Nodes), func(i int) bool {
		return c.Nodes[i] == n || !vAnnouncesOut(c.Nodes[i], b) && !vAnnouncesIn(c.Nodes[i], b)
	}))
	vInv("sole announcer", func() bool {
		return vForall(0, len(c.Nodes), func(i int) bool {
			return c.Nodes[i] == n || !vAnnouncesOut(c.Nodes[i], b) && !vAnnouncesIn(c.Nodes[i], b)
		})
	})
	vInv("output route", func() bool { return !out || c.OutputAddress[b] == n || vExpired(n, vNow()) })
	vInv("input route", func() bool { return !in || c.InputAddress[b] == n || vExpired(n, vNow()) })
	c.gcNode()
	t1 := time.Now()
	vEnsure("its output routes stay", !out || vExpired(n, t1) || c.OutputAddress[b] == n)
	vEnsure("its input routes stay", !in || vExpired(n, t1) || c.InputAddress[b] == n)
	vReach("end")
}
