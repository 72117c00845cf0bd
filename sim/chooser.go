package sim

// Chooser is the single source of randomness of a run: a recorded sequence of
// small choices. In generation mode values come from a seeded PRNG and are
// recorded; in replay mode they come from the recording, with 0 after its end.
// By convention choice 0 is always the most boring alternative, so that
// shrinking a recording towards zeros and towards a shorter list simplifies
// the execution.
type Chooser struct {
	state   uint64
	replay  bool
	Rec     []uint32
	pos     int
	maxRec  int
	Overrun bool
}

const maxChoices = 1 << 20

// NewRandom returns a generating chooser for the given run.
func NewRandom(seed, run uint64) *Chooser {
	c := &Chooser{state: seed*0x9E3779B97F4A7C15 ^ (run+1)*0xD1B54A32D192ED03}
	c.next()
	c.next()
	return c
}

// NewReplay returns a replaying chooser.
func NewReplay(rec []uint32) *Chooser {
	return &Chooser{replay: true, Rec: rec}
}

func (c *Chooser) next() uint64 {
	c.state += 0x9E3779B97F4A7C15
	z := c.state
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Choose returns a value in [0, n).
func (c *Chooser) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if c.replay {
		if c.pos >= len(c.Rec) {
			c.pos++
			return 0
		}
		v := c.Rec[c.pos]
		c.pos++
		return int(v % uint32(n))
	}
	v := int(c.next() % uint64(n))
	if len(c.Rec) < maxChoices {
		c.Rec = append(c.Rec, uint32(v))
	} else {
		c.Overrun = true
	}
	return v
}

// Used returns how many choices were consumed.
func (c *Chooser) Used() int {
	if c.replay {
		return c.pos
	}
	return len(c.Rec)
}
