package monitoring

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

func vgenTargetPattern(g *vp.Gen) *TargetPattern {
	n := g.Intn(5)
	phases := make([]float64, n)
	freqs := make([]time.Duration, n)
	for i := range phases {
		phases[i] = (g.Unit()*3 - 1) * 2 * math.Pi
		freqs[i] = time.Duration(1 + g.Intn(1000))
	}
	if n > 0 && g.Intn(4) == 0 {
		freqs = freqs[1:]
	}
	return NewTargetPattern(phases, freqs)
}

// shaped: a pattern with an amplitude and a period.
func shaped(p *TargetPattern) bool {
	return p != nil && p.Amplitude > 0 && p.Period > 0
}

//gvc:prop C21
//gvc:use core.ctPhaseDifference
//gvc:target (*emerge/monitoring.TargetPattern).Similarity
func ctSimilarity(p, q *TargetPattern) {
	vp.Requires(shaped(p))
	vp.Requires(q == nil || shaped(q))
	vp.LoopInv("a sum of fractions", func(i int, t float64) bool { return t >= 0 && t <= float64(i) })
	vp.LoopInv("one more fraction", func(i int, t float64) bool { return t >= 0 && t <= float64(i)+1 })
	vp.LoopInv("a maximum", func(t float64) bool { return t >= 0 })
	s := p.Similarity(q)
	vp.Ensures("similarity is in [0, 1]", vp.LeF(0, s) && vp.LeF(s, 1))
	vp.Ensures("nothing is like no pattern", q != nil && len(q.Phases) > 0 && len(p.Phases) > 0 || s == 0)
}

//gvc:prop C21
//gvc:use core.ctPhaseDifference
func ctSimilaritySelf(p *TargetPattern) {
	vp.Requires(shaped(p) && len(p.Phases) > 0)
	vp.LoopInv("all alike so far", func(i int, t float64) bool { return t == float64(i) })
	vp.LoopInv("one more alike", func(i int, t float64) bool { return t == float64(i)+1 })
	vp.LoopInv("the same maximum", func(t, u float64) bool { return t == u && t >= 0 })
	vp.Ensures("a pattern is like itself", vp.EqF(p.Similarity(p), 1))
}

//gvc:prop C21
//gvc:mode bits
//gvc:noreplay
func ctSimilarityFlat(a float64) {
	vp.Requires(a >= 0 && a <= 1)
	p := NewTargetPattern([]float64{1}, []time.Duration{time.Second})
	p.Amplitude = a
	s := p.Similarity(p)
	vp.Ensures("similarity is a number also without an amplitude", !vp.IsNaN(s))
}

//gvc:prop C21
//gvc:use core.ctPhaseDifference
//gvc:target (*emerge/monitoring.PatternTemplate).Matches
func ctMatches(t *PatternTemplate, p *TargetPattern) {
	vp.Requires(t != nil && p == nil && t.Tolerance < 1)
	vp.Ensures("no pattern matches nothing", !t.Matches(p))
}

func jump(p *TargetPattern, i int) bool {
	return math.Abs(core.PhaseDifference(p.Phases[i+1], p.Phases[i])) > math.Pi/2
}

// Gaps are the jumps of more than a quarter turn, each reported once, in order.
//
//gvc:prop C21
//gvc:target (*emerge/monitoring.TargetPattern).Detect
func ctDetect(p *TargetPattern) {
	vp.Requires(p != nil)
	vp.LoopInv("in range", func(i int, g []PatternGap) bool {
		return i >= 1 && (i <= len(p.Phases) || i == 1) && len(g) <= i-1 && vp.Forall(0, len(g), func(k int) bool {
			return g[k].StartIdx >= k && g[k].EndIdx == g[k].StartIdx+1 && g[k].EndIdx < i && g[k].EndIdx < len(p.Phases)
		})
	})
	vp.LoopInv("in order", func(g []PatternGap) bool {
		return vp.Forall(1, len(g), func(k int) bool { return g[k-1].StartIdx < g[k].StartIdx })
	})
	vp.LoopInv("as many as there are jumps", func(i int, g []PatternGap) bool {
		return len(g) == vp.Count(0, i-1, func(k int) bool { return jump(p, k) })
	})
	vp.LoopInv("only jumps", func(g []PatternGap) bool {
		return vp.Forall(0, len(g), func(k int) bool { return jump(p, g[k].StartIdx) })
	})
	gaps := p.Detect()
	vp.Ensures("every gap is a jump", vp.Forall(0, len(gaps), func(k int) bool { return jump(p, gaps[k].StartIdx) }))
	vp.Ensures("every jump is a gap", len(p.Phases) == 0 && len(gaps) == 0 || len(gaps) == vp.Count(0, len(p.Phases)-1, func(k int) bool { return jump(p, k) }))
	vp.Ensures("gaps lie within the pattern", vp.Forall(0, len(gaps), func(k int) bool {
		return gaps[k].StartIdx >= 0 && gaps[k].EndIdx == gaps[k].StartIdx+1 && gaps[k].EndIdx < len(p.Phases)
	}))
	vp.Ensures("gaps are in order, none twice", vp.Forall(1, len(gaps), func(k int) bool { return gaps[k-1].StartIdx < gaps[k].StartIdx }))
}

// A gap is filled with phases that lead from one end to the other.
//
//gvc:prop C21
//gvc:use core.ctPhaseDifference core.ctWrapPhaseCongruent
//gvc:target (*emerge/monitoring.TargetPattern).Complete
func ctComplete(p *TargetPattern, gap PatternGap) {
	vp.Requires(p != nil)
	ok := gap.StartIdx >= 0 && gap.EndIdx < len(p.Phases) && gap.StartIdx < gap.EndIdx
	vp.LoopInv("filled so far", func(i int, r []float64) bool {
		return vp.Forall(0, i, func(k int) bool { return r[k] >= 0 && r[k] <= 2*math.Pi })
	})
	c := p.Complete(gap)
	vp.Ensures("nothing is filled outside the pattern", ok || c == nil)
	vp.Ensures("every missing phase is filled", !ok || len(c) == gap.EndIdx-gap.StartIdx-1)
	vp.Ensures("filled phases are phases", vp.Forall(0, len(c), func(k int) bool { return c[k] >= 0 && c[k] <= 2*math.Pi }))
}

//gvc:prop C21
//gvc:use core.ctWrapPhaseCongruent
//gvc:target emerge/monitoring.NewTargetPattern
func ctNewTargetPattern(phases []float64, freqs []time.Duration, lo, hi time.Duration) {
	n := len(freqs)
	vp.Requires(lo >= 0 && hi < 1<<30 && n < 1<<30 && vp.Forall(0, n, func(i int) bool { return freqs[i] >= lo && freqs[i] <= hi }))
	vp.LoopInv("not negative", func(t float64) bool { return t >= 0 })
	vp.LoopInv("a sum in range", func(i int, t time.Duration) bool { return t >= lo*time.Duration(i) && t <= hi*time.Duration(i) })
	vp.LoopInv("one more in range", func(i int, t time.Duration) bool { return t >= lo*time.Duration(i+1) && t <= hi*time.Duration(i+1) })
	p := NewTargetPattern(phases, freqs)
	vp.Ensures("the pattern is what was given", p != nil && len(p.Phases) == len(phases) && len(p.Frequencies) == n && p.Confidence == 1)
	vp.Ensures("the amplitude is not negative", vp.LeF(0, p.Amplitude))
	vp.Ensures("the period is an average", n == 0 && p.Period == 0 || n > 0 && p.Period >= lo && p.Period <= hi)
}
