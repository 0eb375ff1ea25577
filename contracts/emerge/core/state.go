package core

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/internal/vp"
)

func validState(s *State) bool {
	return s.Frequency > 0 && s.Coherence >= 0 && s.Coherence <= 1 && vp.Finite(s.Phase)
}

// Validation accepts exactly the usable targets and changes nothing.
//
//gvc:prop C11
//gvc:mode bits
//gvc:target (*emerge/core.State).Validate
func ctValidate(s *State) {
	vp.Requires(s != nil)
	before := *s
	err := s.Validate()
	vp.Ensures("a target is accepted exactly when period, coherence and phase are usable", (err == nil) == validState(s))
	vp.Ensures("validation changes nothing", vp.SameF(s.Phase, before.Phase) && vp.SameF(s.Coherence, before.Coherence) && s.Frequency == before.Frequency)
}

// Normalisation terminates on every target; a nil error means a valid target, and numbers are never rejected.
//
//gvc:prop C11
//gvc:mode bits
//gvc:terminates
//gvc:target (*emerge/core.State).NormalizeAndValidate
//gvc:use core.ctWrapPhase
func ctNormalizeAndValidate(s *State) {
	vp.Requires(s != nil)
	before := *s
	err := s.NormalizeAndValidate()
	vp.Ensures("a normalised target is valid", err != nil || validState(s))
	vp.Ensures("a normalised phase is in [0, 2π)", err != nil || (s.Phase >= 0 && s.Phase < twoPi))
	vp.Ensures("only an unrepairable number is rejected", err == nil || math.IsNaN(before.Coherence) || !vp.Finite(before.Phase))
	vp.Ensures("an unrepairable number is rejected", !(math.IsNaN(before.Coherence) || !vp.Finite(before.Phase)) || err != nil)
	vp.Ensures("a usable coherence is kept", !(before.Coherence >= 0 && before.Coherence <= 1) || s.Coherence == before.Coherence)
	vp.Ensures("a coherence above the range is clamped to 1", !(before.Coherence > 1) || s.Coherence == 1)
	vp.Ensures("a coherence below the range is clamped to 0", !(before.Coherence < 0) || s.Coherence == 0)
	vp.Ensures("a usable period is kept", before.Frequency <= 0 || s.Frequency == before.Frequency)
	vp.Ensures("an unusable period becomes the default", before.Frequency > 0 || s.Frequency == 100*time.Millisecond)
}

// Over the reals: the normalised phase is the same angle.
//
//gvc:prop C11
//gvc:use core.ctWrapPhaseCongruent
func ctNormalizePhase(s *State) {
	vp.Requires(s != nil)
	before := *s
	err := s.NormalizeAndValidate()
	vp.Ensures("normalising keeps the angle", err != nil || vp.Congruent(before.Phase, s.Phase, twoPi))
}
