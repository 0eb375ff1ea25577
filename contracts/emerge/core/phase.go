package core

import (
	"math"

	"github.com/carlisia/bio-adapt/internal/vp"
)

const twoPi = 2 * math.Pi

// A finite phase wraps into [0, 2π), exactly, for every float64.
//
//gvc:prop C01
//gvc:mode bits
//gvc:target emerge/core.WrapPhase
func ctWrapPhase(p float64) {
	vp.Requires(vp.Finite(p))
	r := WrapPhase(p)
	vp.Ensures("the wrapped phase is in [0, 2π)", r >= 0 && r < twoPi)
}

// Over the reals: wrapping moves a phase by whole turns.
//
//gvc:prop C01
//gvc:target emerge/core.WrapPhase
func ctWrapPhaseCongruent(p float64) {
	r := WrapPhase(p)
	vp.Ensures("the wrapped phase is in [0, 2π)", vp.LeF(0, r) && vp.LtF(r, twoPi))
	vp.Ensures("wrapping moves a phase by whole turns", vp.Congruent(p, r, twoPi))
	vp.Ensures("wrapping keeps a phase already in range", !(p >= 0 && p < twoPi) || vp.EqF(r, p))
}

//gvc:prop C01
func ctWrapPhaseIdempotent(p float64) {
	r := WrapPhase(p)
	vp.Ensures("wrapping twice is wrapping once", vp.EqF(WrapPhase(r), r))
}

//gvc:prop C01
//gvc:mode bits
//gvc:target emerge/core.PhaseDifference
func ctPhaseDifferenceRange(a, b float64) {
	vp.Requires(vp.Finite(a) && vp.Finite(b) && vp.Finite(a-b))
	d := PhaseDifference(a, b)
	vp.Ensures("the difference is in [-π, π]", d >= -math.Pi && d <= math.Pi)
}

// Over the reals: the difference is the shortest signed way from the second phase to the first.
//
//gvc:prop C01
//gvc:target emerge/core.PhaseDifference
func ctPhaseDifference(a, b float64) {
	d := PhaseDifference(a, b)
	vp.Ensures("the difference is in [-π, π]", vp.LeF(-math.Pi, d) && vp.LeF(d, math.Pi))
	vp.Ensures("the second phase plus the difference is the first phase, up to whole turns", vp.Congruent(a-b, d, twoPi))
	vp.Ensures("a difference shorter than half a turn is exact", !(a-b > -math.Pi && a-b < math.Pi) || vp.EqF(d, a-b))
}

//gvc:prop C01
func ctPhaseDifferenceSelf(a float64) {
	vp.Ensures("a phase is at distance zero from itself", vp.EqF(PhaseDifference(a, a), 0))
}

// The Kuramoto order parameter of any population, over the reals.
//
//gvc:prop C02
//gvc:target emerge/core.MeasureCoherence
func ctMeasureCoherence(phases []float64) {
	vp.LoopInv("norm of the partial sums is at most their number", func(i int, a, b float64) bool {
		return a*a+b*b <= float64(i)*float64(i)
	})
	vp.LoopInv("partial sum of cosines", func(i int, a float64) bool {
		return vp.EqF(a, vp.Sum(0, i, func(k int) float64 { return math.Cos(phases[k]) }))
	})
	vp.LoopInv("partial sum of sines", func(i int, a float64) bool {
		return vp.EqF(a, vp.Sum(0, i, func(k int) float64 { return math.Sin(phases[k]) }))
	})
	r := MeasureCoherence(phases)
	n := len(phases)
	vp.Ensures("coherence is in [0, 1]", vp.LeF(0, r) && vp.LeF(r, 1))
	vp.Ensures("an empty population has coherence 0", n > 0 || r == 0)
	sc := vp.Sum(0, n, func(k int) float64 { return math.Cos(phases[k]) })
	ss := vp.Sum(0, n, func(k int) float64 { return math.Sin(phases[k]) })
	vp.Ensures("coherence is the length of the mean phase vector", n == 0 || vp.EqF(r*r*float64(n)*float64(n), sc*sc+ss*ss))
}

// A population in perfect step has coherence 1.
//
//gvc:prop C02
func ctMeasureCoherenceSync(phases []float64, p float64) {
	vp.Requires(len(phases) > 0)
	vp.Requires(vp.Forall(0, len(phases), func(k int) bool { return phases[k] == p }))
	vp.LoopInv("partial sum of cosines", func(i int, a float64) bool { return vp.EqF(a, float64(i)*math.Cos(p)) })
	vp.LoopInv("partial sum of sines", func(i int, a float64) bool { return vp.EqF(a, float64(i)*math.Sin(p)) })
	r := MeasureCoherence(phases)
	vp.Ensures("identical phases have coherence 1", vp.EqF(r, 1))
}

//gvc:prop C02
//gvc:target emerge/core.MeasureCoherenceWeighted
func ctMeasureCoherenceWeighted(phases, weights []float64) {
	vp.Requires(vp.Forall(0, len(weights), func(k int) bool { return weights[k] >= 0 }))
	vp.LoopInv("norm of the partial sums is at most the weight so far", func(w, a, b float64) bool {
		return w >= 0 && a*a+b*b <= w*w
	})
	vp.LoopInv("partial sum of cosines", func(i int, a float64) bool {
		return vp.EqF(a, vp.Sum(0, i, func(k int) float64 { return weights[k] * math.Cos(phases[k]) }))
	})
	vp.LoopInv("partial sum of sines", func(i int, a float64) bool {
		return vp.EqF(a, vp.Sum(0, i, func(k int) float64 { return weights[k] * math.Sin(phases[k]) }))
	})
	vp.LoopInv("partial sum of weights", func(i int, a float64) bool {
		return vp.EqF(a, vp.Sum(0, i, func(k int) float64 { return weights[k] }))
	})
	r := MeasureCoherenceWeighted(phases, weights)
	vp.Ensures("weighted coherence is in [0, 1]", vp.LeF(0, r) && vp.LeF(r, 1))
	n := min(len(phases), len(weights))
	sc := vp.Sum(0, n, func(k int) float64 { return weights[k] * math.Cos(phases[k]) })
	ss := vp.Sum(0, n, func(k int) float64 { return weights[k] * math.Sin(phases[k]) })
	sw := vp.Sum(0, n, func(k int) float64 { return weights[k] })
	vp.Ensures("weighted coherence is the length of the weighted mean phase vector", n == 0 || sw == 0 || vp.EqF(r*r*sw*sw, sc*sc+ss*ss))
}
