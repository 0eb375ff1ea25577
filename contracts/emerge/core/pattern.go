package core

import (
	"math"

	"github.com/carlisia/bio-adapt/internal/vp"
)

func vgenTargetPattern(g *vp.Gen) *TargetPattern {
	p := vp.Fill[TargetPattern](g)
	return &p
}

// The distance between two patterns is in [0, 1] for coherences in [0, 1], and zero between equal patterns.
//
//gvc:prop C21
//gvc:target emerge/core.PatternDistance
//gvc:use core.ctPhaseDifference
func ctPatternDistance(a, b *TargetPattern) {
	vp.Requires(a != nil && b != nil)
	vp.Requires(a.Coherence >= 0 && a.Coherence <= 1 && b.Coherence >= 0 && b.Coherence <= 1)
	vp.Requires(a.Frequency >= 0 && b.Frequency >= 0)
	d := PatternDistance(a, b)
	vp.Ensures("a distance is in [0, 1]", vp.LeF(0, d) && vp.LeF(d, 1))
	vp.Ensures("equal patterns are at distance 0", !(a.Phase == b.Phase && a.Frequency == b.Frequency && a.Coherence == b.Coherence) || vp.EqF(d, 0))
	vp.Ensures("a coherence difference counts at its weight", vp.LeF(0.3*math.Abs(a.Coherence-b.Coherence), d))
}

//gvc:prop C21
func ctPatternDistanceNil(a, b *TargetPattern) {
	vp.Requires(a == nil || b == nil)
	vp.Ensures("a missing pattern is infinitely far", PatternDistance(a, b) == math.MaxFloat64)
}

func gapAt(gaps []PatternGap, k int, typ string) bool {
	return gaps[k].Type == typ
}

func hasGap(gaps []PatternGap, typ string) bool {
	return vp.Exists(0, len(gaps), func(k int) bool { return gapAt(gaps, k, typ) })
}

// Gaps are reported exactly where the current pattern falls short, with severities that are never negative.
//
//gvc:prop C21
//gvc:target emerge/core.IdentifyGaps
//gvc:use core.ctPhaseDifference
func ctIdentifyGaps(cur, tgt *TargetPattern) {
	vp.Requires(cur != nil && tgt != nil)
	gaps := IdentifyGaps(cur, tgt)
	d := math.Abs(PhaseDifference(tgt.Phase, cur.Phase))
	vp.Ensures("a phase gap is reported exactly when the phases differ by more than the tolerance", hasGap(gaps, "phase") == (d > 0.1))
	fr := math.Abs(float64(cur.Frequency)/float64(tgt.Frequency) - 1.0)
	vp.Ensures("a frequency gap is reported exactly when the periods differ by more than the tolerance", hasGap(gaps, "frequency") == (tgt.Frequency > 0 && cur.Frequency > 0 && fr > 0.05))
	vp.Ensures("a coherence gap is reported exactly when coherence falls short by more than the tolerance", hasGap(gaps, "coherence") == (cur.Coherence < tgt.Coherence-0.05))
	vp.Ensures("severities are not negative", vp.Forall(0, len(gaps), func(k int) bool { return gaps[k].Severity >= 0 }))
	ok := cur.Coherence >= 0 && tgt.Coherence <= 1
	vp.Ensures("severities are at most 1", !ok || vp.Forall(0, len(gaps), func(k int) bool { return vp.LeF(gaps[k].Severity, 1) }))
	vp.Ensures("each kind of gap is reported once", vp.Forall(0, len(gaps), func(k int) bool {
		return vp.Forall(k+1, len(gaps), func(j int) bool { return gaps[j].Type != gaps[k].Type })
	}))
}

//gvc:prop C21
//gvc:target emerge/core.GenerateSineWave
func ctGenerateSineWave(points int) {
	vp.Requires(points >= 0 && points <= 1<<40)
	vp.LoopInv("samples so far are in [-1, 1]", func(i int, w []float64) bool {
		return vp.Forall(0, i, func(k int) bool { return vp.LeF(-1, w[k]) && vp.LeF(w[k], 1) })
	})
	w := GenerateSineWave(points)
	vp.Ensures("a waveform has the requested number of samples", len(w) == points)
	vp.Ensures("samples are in [-1, 1]", vp.Forall(0, points, func(k int) bool { return vp.LeF(-1, w[k]) && vp.LeF(w[k], 1) }))
}
