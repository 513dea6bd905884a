package artnet

func C13_gc(c *Controller) {
	vAssumeInv(c)
	vGCShared(c)
	vInv("distinct", func() bool { return vPosDistinct(c) })
	c.gcNode()
	vReach("end")
	vCheckInv(c)
}
