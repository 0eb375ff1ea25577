package goal

import (
	"math"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

const twoPi = 2 * math.Pi

func clamp01(w float64) float64 {
	if w < 0 {
		return 0
	}
	if w > 1 {
		return 1
	}
	return w
}

// A blend lies on the shortest arc between the two goals, at the (clamped) weight.
//
//gvc:prop C10
//gvc:target (*emerge/goal.WeightedManager).Blend
//gvc:use core.ctPhaseDifference core.ctWrapPhaseCongruent
func ctBlend(m *WeightedManager, local, global core.State, weight float64) {
	s := m.Blend(local, global, weight)
	w := clamp01(weight)
	d := core.PhaseDifference(global.Phase, local.Phase)
	vp.Ensures("the blended phase is in [0, 2π)", vp.LeF(0, s.Phase) && vp.LtF(s.Phase, twoPi))
	vp.Ensures("the blended phase is the given fraction of the shortest arc away from the local goal", vp.Congruent(local.Phase+w*d, s.Phase, twoPi))
	vp.Ensures("full weight gives the global phase", weight < 1 || vp.Congruent(global.Phase, s.Phase, twoPi))
	vp.Ensures("no weight gives the local phase", weight > 0 || vp.Congruent(local.Phase, s.Phase, twoPi))
	vp.Ensures("the coherence is the weighted mean", vp.EqF(s.Coherence, (1-w)*local.Coherence+w*global.Coherence))
	vp.Ensures("the coherence lies between the two goals", vp.LeF(math.Min(local.Coherence, global.Coherence), s.Coherence) && vp.LeF(s.Coherence, math.Max(local.Coherence, global.Coherence)))
	vp.Ensures("the period is the local one", s.Frequency == local.Frequency)
}

// In machine arithmetic the blended phase is never out of range or NaN.
//
//gvc:prop C10
//gvc:mode bits
//gvc:use core.ctPhaseDifferenceRange core.ctWrapPhase
func ctBlendBits(m *WeightedManager, local, global core.State, weight float64) {
	vp.Requires(vp.Finite(local.Phase) && vp.Finite(global.Phase) && math.Abs(local.Phase) < 1e300 && math.Abs(global.Phase) < 1e300 && !vp.IsNaN(weight))
	s := m.Blend(local, global, weight)
	vp.Ensures("the blended phase is a number in [0, 2π)", s.Phase >= 0 && s.Phase < twoPi)
	vp.Ensures("the period is the local one", s.Frequency == local.Frequency)
}
