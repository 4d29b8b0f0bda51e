package updater

// ZZRing exports the workers' ring of buffers to the verification harness.
type ZZRing struct{ rc ringCache[*int] }

func ZZNewRing(n int) *ZZRing        { return &ZZRing{newRingCache[*int](n)} }
func (z *ZZRing) Current() []*int    { return z.rc.current() }
func (z *ZZRing) CurrLength() int    { return z.rc.currLength() }
func (z *ZZRing) Add(p *int)         { z.rc.addElem(p) }
func (z *ZZRing) Rotate()            { z.rc.rotate() }
func ZZRingN() int                   { return ringCacheN }
