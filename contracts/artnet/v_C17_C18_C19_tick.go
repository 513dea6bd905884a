package artnet

import "time"

// vRangeKey: the universe an iteration over a table of universes is at. vVisited: it was visited.
func vRangeKey() Address      { panic(vSkip{}) }
func vVisited(a Address) bool { panic(vSkip{}) }
func vNow() time.Time         { panic(vSkip{}) }

// vTickRoutes: what C13 guarantees about the routes, in the form the update loop needs; buffers may be missing.
func vTickRoutes(c *Controller) bool {
	return c.OutputAddress != nil && vForallAddr(func(a Address) bool {
		n, ok := c.OutputAddress[a]
		return !ok || n != nil && n.DMXBuffer != nil && !vHeld(&n.nodeLock)
	}) && vForallAddr(func(a Address) bool {
		return vForallAddr(func(b Address) bool {
			x, y := vBufferAt(c, a), vBufferAt(c, b)
			return a == b || x == nil || x != y
		})
	})
}

// vBufferAt: the frame buffer of a routed universe, nil if there is none.
func vBufferAt(c *Controller, a Address) *dmxBuffer {
	n, ok := c.OutputAddress[a]
	if !ok {
		return nil
	}
	return n.DMXBuffer[a]
}

const vTickKeys = "Controller.Nodes Controller.OutputAddress Controller.InputAddress ControlledNode dmxBuffer M:Address>*ControlledNode M:Address>*dmxBuffer"

func vTickReady(c *Controller) bool {
	return c != nil && c.log != nil && c.cNode != nil && !vHeld(&c.nodeLock) && 1 <= c.maxFPS && c.maxFPS <= int(time.Second)
}
