package random

import (
	"math"

	"github.com/carlisia/bio-adapt/internal/vp"
)

// Every random draw is in its documented half-open range, whatever bytes the source yields.
//
//gvc:prop C20
//gvc:mode bits
//gvc:locks
//gvc:target (*internal/random.SecureRandom).Float64
func ctFloat64(r *SecureRandom) {
	vp.Requires(r != nil)
	x := r.Float64()
	vp.Ensures("a random float is in [0, 1)", x >= 0 && x < 1)
}

//gvc:prop C20
//gvc:mode bits
//gvc:target internal/random.Float64
func ctDefaultFloat64() {
	x := Float64()
	vp.Ensures("a random float is in [0, 1)", x >= 0 && x < 1)
}

//gvc:prop C20
//gvc:target internal/random.Float64
//gvc:noreplay
func ctDefaultFloat64Real() {
	x := Float64()
	vp.Ensures("a random float is in [0, 1)", x >= 0 && x < 1)
}

//gvc:prop C20
//gvc:mode bits
//gvc:locks
//gvc:target (*internal/random.SecureRandom).Int31n
func ctInt31n(r *SecureRandom) {
	vp.Requires(r != nil)
	x := r.Int31n()
	vp.Ensures("a random 31-bit integer is not negative", x >= 0)
}

//gvc:prop C20
//gvc:mode bits
//gvc:locks
//gvc:target (*internal/random.SecureRandom).Intn
//gvc:use random.ctInt31n
func ctIntn(r *SecureRandom, n int) {
	vp.Requires(r != nil && n >= 1 && n <= math.MaxInt32)
	x := r.Intn(n)
	vp.Ensures("a random index is in [0, n)", x >= 0 && x < n)
}

//gvc:prop C20
//gvc:mode bits
//gvc:target internal/random.Phase
//gvc:use random.ctDefaultFloat64
func ctPhase() {
	x := Phase()
	vp.Ensures("a random phase is in [0, 2π)", x >= 0 && x < 2*math.Pi)
}

//gvc:prop C20
//gvc:target internal/random.Phase
//gvc:use random.ctDefaultFloat64Real
//gvc:noreplay
func ctPhaseReal() {
	x := Phase()
	vp.Ensures("a random phase is in [0, 2π)", x >= 0 && x < 2*math.Pi)
}
