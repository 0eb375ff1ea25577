package strategy

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

func vgenPhaseNudge(g *vp.Gen) *PhaseNudge       { return &PhaseNudge{Rate: g.Unit()} }
func vgenFrequencyLock(g *vp.Gen) *FrequencyLock { return &FrequencyLock{SyncRate: g.Unit()} }
func vgenPulse(g *vp.Gen) *Pulse {
	return &Pulse{Period: time.Duration(g.Intn(3)-1) * time.Hour, Amplitude: g.Unit()}
}

func unit(x float64) bool { return x >= 0 && x <= 1 }

// towards: moving by v along the circle from cur approaches tgt on the shortest arc without overshooting it.
func towards(v, cur, tgt float64) bool {
	d := core.PhaseDifference(tgt, cur)
	if d >= 0 {
		return vp.LeF(0, v) && vp.LeF(v, d)
	}
	return vp.LeF(d, v) && vp.LeF(v, 0)
}

//gvc:prop C09
//gvc:target (*emerge/strategy.PhaseNudge).Propose
//gvc:use core.ctPhaseDifference
func ctPhaseNudge(s *PhaseNudge, cur, tgt core.State, ctx core.Context) {
	vp.Requires(s != nil && unit(s.Rate) && unit(ctx.LocalCoherence))
	a, conf := s.Propose(cur, tgt, ctx)
	vp.Ensures("a nudge moves towards the target and does not overshoot", towards(a.Value, cur.Phase, tgt.Phase))
	vp.Ensures("a nudge covers its rate of the shortest arc", vp.EqF(a.Value, s.Rate*core.PhaseDifference(tgt.Phase, cur.Phase)))
	vp.Ensures("a nudge costs in proportion to its size", vp.LeF(0, a.Cost) && vp.EqF(a.Cost, 2*math.Abs(a.Value)))
	vp.Ensures("the benefit is in [0, 1.5]", vp.LeF(0, a.Benefit) && vp.LeF(a.Benefit, 1.5))
	vp.Ensures("the confidence is in [0.5, 1]", vp.LeF(0.5, conf) && vp.LeF(conf, 1))
	vp.Ensures("the confidence grows with incoherence", vp.LeF(1-ctx.LocalCoherence, conf))
	vp.Ensures("the action is a phase nudge", a.Type == "phase_nudge")
}

//gvc:prop C09
//gvc:target (*emerge/strategy.FrequencyLock).Propose
//gvc:use core.ctPhaseDifference
func ctFrequencyLock(s *FrequencyLock, cur, tgt core.State, ctx core.Context) {
	vp.Requires(s != nil && unit(s.SyncRate) && unit(ctx.LocalCoherence))
	a, conf := s.Propose(cur, tgt, ctx)
	vp.Ensures("a lock moves towards the target and does not overshoot", towards(a.Value, cur.Phase, tgt.Phase))
	vp.Ensures("a lock covers its rate of the shortest arc", vp.EqF(a.Value, s.SyncRate*core.PhaseDifference(tgt.Phase, cur.Phase)))
	vp.Ensures("a lock costs in proportion to its size", vp.LeF(0, a.Cost) && vp.EqF(a.Cost, 3*math.Abs(a.Value)))
	vp.Ensures("the benefit is not negative", vp.LeF(0, a.Benefit))
	vp.Ensures("the confidence is in [0, 1]", vp.LeF(0, conf) && vp.LeF(conf, 1))
	vp.Ensures("the action is a frequency lock", a.Type == "frequency_lock")
}

//gvc:prop C09
//gvc:target (*emerge/strategy.EnergyAware).Propose
//gvc:use core.ctPhaseDifference
func ctEnergyAware(s *EnergyAware, cur, tgt core.State, ctx core.Context) {
	a, conf := s.Propose(cur, tgt, ctx)
	d := math.Abs(core.PhaseDifference(tgt.Phase, cur.Phase))
	vp.Ensures("a saving step moves towards the target and does not overshoot", towards(a.Value, cur.Phase, tgt.Phase))
	vp.Ensures("a saving step is small", vp.LeF(math.Abs(a.Value), 0.1*d))
	vp.Ensures("it acts exactly when the difference is significant", (a.Type == "energy_save") == (d >= 0.1) && (a.Type == "maintain") == (d < 0.1))
	vp.Ensures("maintaining does not move", a.Type != "maintain" || a.Value == 0)
	vp.Ensures("the cost covers the movement", vp.LeF(0, a.Cost) && vp.LeF(math.Abs(a.Value), a.Cost))
	vp.Ensures("the confidence is in [0, 1]", vp.LeF(0, conf) && vp.LeF(conf, 1))
}

//gvc:prop C09
//gvc:target (*emerge/strategy.Pulse).Propose
//gvc:use core.ctPhaseDifference
func ctPulse(s *Pulse, cur, tgt core.State, ctx core.Context) {
	vp.Requires(s != nil && unit(s.Amplitude))
	amp, period := s.Amplitude, s.Period
	a, conf := s.Propose(cur, tgt, ctx)
	vp.Ensures("a pulse moves towards the target and does not overshoot", towards(a.Value, cur.Phase, tgt.Phase))
	vp.Ensures("it pulses or maintains", a.Type == "pulse" || a.Type == "maintain")
	vp.Ensures("maintaining does not move", a.Type != "maintain" || a.Value == 0)
	vp.Ensures("a pulse covers its amplitude of the shortest arc", a.Type != "pulse" || vp.EqF(a.Value, amp*core.PhaseDifference(tgt.Phase, cur.Phase)))
	vp.Ensures("the cost is not negative and covers the movement", vp.LeF(0, a.Cost) && vp.LeF(4*math.Abs(a.Value), a.Cost))
	vp.Ensures("the confidence is in [0, 1]", vp.LeF(0, conf) && vp.LeF(conf, 1))
	vp.Ensures("the pulse parameters do not change", s.Amplitude == amp && s.Period == period)
}

// fixed is a strategy with a recognisable proposal.
type fixed struct{ n int }

func (f fixed) Propose(current, target core.State, context core.Context) (core.Action, float64) {
	return core.Action{Type: "pick", Value: float64(f.n)}, 1
}
func (fixed) Name() string { return "fixed" }

// The adaptive strategy always answers with a member's proposal, whatever the selector returns.
//
//gvc:prop C09
func ctAdaptive(a, b, c fixed, n, pick int, cur, tgt core.State, ctx core.Context) {
	vp.Requires(n >= 0 && n <= 3)
	all := []core.SyncStrategy{a, b, c}
	s := NewAdaptiveStrategy(all[:n]).WithSelector(func(core.Context) int { return pick })
	act, conf := s.Propose(cur, tgt, ctx)
	vp.Ensures("with no members it maintains", n > 0 || (act.Type == "maintain" && act.Value == 0 && act.Cost == 0))
	want := a.n
	if pick == 1 && n > 1 {
		want = b.n
	}
	if pick == 2 && n > 2 {
		want = c.n
	}
	vp.Ensures("it answers with the selected member, or the first one when the selection is out of range", n == 0 || (act.Type == "pick" && act.Value == float64(want)))
	vp.Ensures("the confidence is in [0, 1]", conf >= 0 && conf <= 1)
}

// The default selector never picks outside the members.
//
//gvc:prop C09
func ctAdaptiveDefault(a, b, c fixed, n int, cur, tgt core.State, ctx core.Context) {
	vp.Requires(n >= 1 && n <= 3)
	all := []core.SyncStrategy{a, b, c}
	act, _ := NewAdaptiveStrategy(all[:n]).Propose(cur, tgt, ctx)
	vp.Ensures("a stable agent uses the first strategy", !(ctx.Stability > 0.7) || act.Value == float64(a.n))
	vp.Ensures("a locally coherent agent uses the second strategy", ctx.Stability > 0.7 || !(ctx.LocalCoherence > 0.5) || n < 2 || act.Value == float64(b.n))
	vp.Ensures("otherwise the third strategy is used", ctx.Stability > 0.7 || ctx.LocalCoherence > 0.5 || n < 3 || act.Value == float64(c.n))
}

// Constructors clamp their rates.
//
//gvc:prop C09
//gvc:mode bits
func ctConstructors(rate, sync, threshold, amplitude float64, period time.Duration) {
	vp.Requires(!vp.IsNaN(rate) && !vp.IsNaN(sync) && !vp.IsNaN(threshold) && !vp.IsNaN(amplitude))
	pn, fl, ea, pu := NewPhaseNudge(rate), NewFrequencyLock(sync), NewEnergyAware(threshold), NewPulse(period, amplitude)
	vp.Ensures("a nudge rate is the given one clamped to [0, 1]", clamped(rate, pn.Rate))
	vp.Ensures("a lock rate is the given one clamped to [0, 1]", clamped(sync, fl.SyncRate))
	vp.Ensures("an amplitude is the given one clamped to [0, 1]", clamped(amplitude, pu.Amplitude) && pu.Period == period)
	vp.Ensures("a threshold is not negative", ea.Threshold >= 0 && (threshold < 0 || ea.Threshold == threshold))
}

func clamped(x, got float64) bool {
	if x < 0 {
		return got == 0
	}
	if x > 1 {
		return got == 1
	}
	return got == x
}
