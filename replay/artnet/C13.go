package artnet

func H_C13_history(g *vGen) (f []string) {
	c := gController()
	for k := 0; k < 14 && len(f) == 0; k++ {
		gStep(g, c)
		f = gInv(c)
	}
	return f
}
