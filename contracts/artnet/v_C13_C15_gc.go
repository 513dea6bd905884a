package artnet

// Candidate invariants of the loops of gcNode (the verifier drops those that do not hold). The first group is about
// a list that shrinks while it is walked; the second about one that is filtered into another slice (in place or
// not): the nodes kept so far, then those still to be visited, which are where they were at the beginning.
func vGCShared(c *Controller) {
	vInv("well formed", func() bool { return vNodesShape(c) })
	vInv("owned", func() bool { return vOwned(c) })
	vInv("output routes", func() bool { return vOutRoutes(c) })
	vInv("input routes", func() bool { return vInRoutes(c) })
	vInv("inside", func(i int) bool { return i < len(c.Nodes) })

	vInv("still to be visited", func(i int) bool {
		return vForall(i, len(c.Nodes), func(j int) bool { return vPos(c.Nodes[j]) == j })
	})
	vInv("kept length", func(kept []*ControlledNode, i int) bool { return len(kept) <= i && i <= len(c.Nodes) })
	vInv("kept in place", func(kept []*ControlledNode) bool {
		return vSame(kept[:0], c.Nodes[:0]) && cap(kept) == cap(c.Nodes)
	})
	vInv("kept elsewhere", func(kept []*ControlledNode) bool { return vApart(kept, c.Nodes) })
	vInv("kept well formed", func(kept []*ControlledNode) bool { return vShape(kept) })
	vInv("kept owned", func(kept []*ControlledNode) bool { return vOwnedIn(kept) })
	vInv("kept visited", func(kept []*ControlledNode, i int) bool {
		return vForall(0, len(kept), func(j int) bool { return vPos(kept[j]) < i })
	})
	vInv("kept order", func(kept []*ControlledNode) bool { return vOrderedIn(kept) })
	vInv("kept output routes", func(kept []*ControlledNode, i int) bool {
		return vForallAddr(func(a Address) bool {
			n, ok := c.OutputAddress[a]
			return !ok || n != nil && vAnnouncesOut(n, a) && n.DMXBuffer[a] != nil && vKeptOrAhead(c, kept, i, n)
		})
	})
	vInv("kept input routes", func(kept []*ControlledNode, i int) bool {
		return vForallAddr(func(a Address) bool {
			n, ok := c.InputAddress[a]
			return !ok || n != nil && vAnnouncesIn(n, a) && vKeptOrAhead(c, kept, i, n)
		})
	})
}

func vKeptOrAhead(c *Controller, kept []*ControlledNode, i int, n *ControlledNode) bool {
	return vListedIn(kept, n) || vPos(n) >= i && vPos(n) < len(c.Nodes) && c.Nodes[vPos(n)] == n
}

func vOrderedIn(l []*ControlledNode) bool {
	return vForall(0, len(l), func(i int) bool {
		return vForall(0, len(l), func(j int) bool { return i >= j || vPos(l[i]) < vPos(l[j]) })
	})
}
