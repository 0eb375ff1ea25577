package scale

import "github.com/carlisia/bio-adapt/internal/vp"

// Size categories partition the agent counts in order, and their defaults scale the documented way.
//
//gvc:prop C13
//gvc:mode bits
func ctFromCount(n, m int) {
	s, t := FromCount(n), FromCount(m)
	vp.Ensures("every count has a category", s >= Tiny && s <= Huge)
	vp.Ensures("more agents never get a smaller category", !(n <= m) || s <= t)
	vp.Ensures("a count is at most the default count of its category, unless huge", s == Huge || n <= s.DefaultAgentCount())
	vp.Ensures("a category's default count belongs to it", FromCount(s.DefaultAgentCount()) == s)
}

//gvc:prop C13
//gvc:mode bits
func ctDefaults(s, t Size) {
	vp.Ensures("every category has usable defaults", s.DefaultAgentCount() >= 2 && s.DefaultUpdateIntervalMs() > 0 && s.UpdateInterval() > 0 && s.MaxNeighbors() >= 1 &&
		s.MaxNeighbors() < s.DefaultAgentCount() && s.DefaultTargetCoherence() > 0 && s.DefaultTargetCoherence() < 1 && s.DefaultConvergenceTimeFactor() >= 1)
	ordered := Tiny <= s && s <= t && t <= Huge
	vp.Ensures("larger swarms have more agents", !ordered || s.DefaultAgentCount() <= t.DefaultAgentCount())
	vp.Ensures("larger swarms aim for no more coherence", !ordered || s.DefaultTargetCoherence() >= t.DefaultTargetCoherence())
	vp.Ensures("larger swarms update no more often and take no less time", !ordered || s.DefaultUpdateIntervalMs() <= t.DefaultUpdateIntervalMs() && s.DefaultConvergenceTimeFactor() <= t.DefaultConvergenceTimeFactor())
	vp.Ensures("the two update intervals agree", s < Tiny || s > Huge || s.UpdateInterval() == s.DefaultUpdateIntervalMs())
}
