//go:build !race

package runtime

func simRaceInit()                  {}
func simRaceOver(b *synctestBubble) {}

// SimRaceSync does nothing without the race detector (see zrace.go).
func SimRaceSync() {}

func SimNetEnter() {}
func SimNetExit()  {}
