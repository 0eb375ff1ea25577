package swarm

import (
	"math"

	"github.com/carlisia/bio-adapt/internal/vp"
)

// Limits are ordered fractions, and more agents never lower them.
//
//gvc:prop C14
//gvc:mode bits
func ctLimits(n, m int) {
	l := GetCoherenceLimits(n)
	vp.Ensures("limits are ordered fractions", 0 <= l.Recommended && l.Recommended <= l.Practical && l.Practical <= l.Theoretical && l.Theoretical <= 1)
	vp.Ensures("any real swarm can reach some coherence", n < 1 || l.Recommended > 0)
	vp.Ensures("nothing is reachable without agents", n >= 1 || l.Theoretical == 0)
	g := GetCoherenceLimits(m)
	vp.Ensures("more agents never lower the limits", !(2 <= n && n <= m) ||
		l.Theoretical <= g.Theoretical && l.Practical <= g.Practical && l.Recommended <= g.Recommended)
}

// The minimum size for a target can practically reach it, and grows with the target.
//
//gvc:prop C14
//gvc:mode bits
func ctMinimumSize(t, u float64) {
	n := GetMinimumSwarmSize(t)
	vp.Ensures("a minimum swarm has neighbors", n >= 2)
	vp.Ensures("the minimum size can practically reach the target", !(t <= 0.99) || GetCoherenceLimits(n).Practical >= t)
	vp.Ensures("higher targets never need fewer agents", !(t <= u) || n <= GetMinimumSwarmSize(u))
	vp.Ensures("the minimum size is expected to converge in finite time", !(t <= 0.99) || !math.IsInf(GetConvergenceTimeFactor(n, t), 1))
}

// The time factor is infinite exactly beyond the practical limit, at least 1, and never falls with the target.
//
//gvc:prop C14
//gvc:mode bits
func ctTimeFactor(n int, t float64) {
	vp.Requires(!vp.IsNaN(t))
	f := GetConvergenceTimeFactor(n, t)
	vp.Ensures("the factor is at least 1", f >= 1)
	vp.Ensures("the factor is infinite exactly beyond the practical limit", math.IsInf(f, 1) == (t > GetCoherenceLimits(n).Practical))
	vp.Ensures("a finite factor is at most 8", math.IsInf(f, 1) || f <= 8)
}

// Over the reals: the factor never falls with the target.
//
//gvc:prop C14
func ctTimeFactorOrder(n int, t, u float64) {
	p := GetCoherenceLimits(n).Practical
	vp.Requires(t <= u && u <= p)
	vp.Ensures("higher targets never converge faster", GetConvergenceTimeFactor(n, t) <= GetConvergenceTimeFactor(n, u))
}

// A validated target never exceeds what is possible, is kept when possible, and silent exactly when recommended.
//
//gvc:prop C14
//gvc:mode bits
func ctValidateTarget(n int, t float64) {
	vp.Requires(!vp.IsNaN(t))
	l := GetCoherenceLimits(n)
	a, w := ValidateCoherenceTarget(n, t)
	vp.Ensures("the adjusted target is theoretically possible", a <= l.Theoretical)
	vp.Ensures("a possible target is kept", !(t <= l.Theoretical) || a == t)
	vp.Ensures("an impossible target becomes the theoretical limit", t <= l.Theoretical || a == l.Theoretical)
	vp.Ensures("there is a warning exactly above the recommended target", (w == "") == (t <= l.Recommended))
}

// Recovery thresholds are ordered fractions, and tighter for higher targets.
//
//gvc:prop C14
//gvc:mode bits
func ctRecoveryConfig(t, u float64) {
	vp.Requires(!vp.IsNaN(t) && !vp.IsNaN(u))
	c := DefaultRecoveryConfig(t)
	vp.Ensures("thresholds are fractions", 0 < c.MinimumViableCoherence && c.MinimumViableCoherence < 1 && 0 < c.TargetMarginRatio && c.TargetMarginRatio <= 1)
	vp.Ensures("a small drop is smaller than a large one", 0 < c.SmallDropRatio && c.SmallDropRatio < c.LargeDropRatio && c.LargeDropRatio < 1)
	vp.Ensures("checks happen, and patience ends", c.CheckInterval > 0 && c.StuckThreshold > 0)
	d := DefaultRecoveryConfig(u)
	vp.Ensures("higher targets are held more tightly", !(t <= u) || c.MinimumViableCoherence <= d.MinimumViableCoherence && c.TargetMarginRatio <= d.TargetMarginRatio &&
		c.SmallDropRatio >= d.SmallDropRatio && c.LargeDropRatio >= d.LargeDropRatio)
}

// Resynchronisation starts whenever a documented threshold is crossed, and never for a swarm that is fine.
//
//gvc:prop C14
//gvc:target (*emerge/swarm.Swarm).needsResync
func ctNeedsResync(s *Swarm, st *monitorState, cur float64) {
	vp.Requires(s != nil && st != nil)
	cfg, target := s.recoveryConfig, s.goalState.Coherence
	vp.Requires(frac(cur) && frac(target) && frac(st.lastCoherence) && frac(st.peakCoherence))
	vp.Requires(frac(cfg.SmallDropRatio) && cfg.SmallDropRatio <= cfg.LargeDropRatio && frac(cfg.LargeDropRatio) && frac(cfg.TargetMarginRatio))
	vp.Requires(st.stableCount < 1<<40)
	last, peak := st.lastCoherence, st.peakCoherence
	need := s.needsResync(st, cur)
	vp.Ensures("below the minimum viable coherence it resynchronises", need || !(cur < cfg.MinimumViableCoherence))
	vp.Ensures("below the acceptable margin of the target it resynchronises", need || !(cur < target*cfg.TargetMarginRatio))
	vp.Ensures("after a large drop from the peak it resynchronises", need || !(peak-cur > peak*cfg.LargeDropRatio))
	vp.Ensures("after a small drop below the target it resynchronises", need || !(peak-cur > peak*cfg.SmallDropRatio && cur < target))
	vp.Ensures("after a rapid degradation it resynchronises", need || !(cur < last-last*cfg.SmallDropRatio))
	vp.Ensures("a viable swarm at its target that has not dropped is left alone", !need || cur < cfg.MinimumViableCoherence || cur < target || peak-cur > peak*cfg.LargeDropRatio || cur < last)
	vp.Ensures("deciding does not touch the history", st.lastCoherence == last && st.peakCoherence == peak)
}
