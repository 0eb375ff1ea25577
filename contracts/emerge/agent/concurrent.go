package agent

import (
	"math"
	"sync"
	"sync/atomic"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

// While other goroutines replace the state at any moment, every update is one atomic step: what is written is the
// value found at that very moment, with only the requested fields changed. So no concurrent update is ever lost.
// A state once published is never modified in place (w is any state object in existence).

// stateStep is this call's one write to the state: what it replaced and by what.
func stateStep(a *Agent) (before, after StateData, ok bool) {
	p, ok1 := vp.PrevValue(&a.state.value).(*StateData)
	q, ok2 := vp.NewValue(&a.state.value).(*StateData)
	if !ok1 || !ok2 || p == nil || q == nil || p == q {
		return StateData{}, StateData{}, false
	}
	return *p, *q, vp.WriteCount(&a.state.value) == 1
}

func behaviorStep(a *Agent) (before, after BehaviorData, ok bool) {
	p, ok1 := vp.PrevValue(&a.behavior.value).(*BehaviorData)
	q, ok2 := vp.NewValue(&a.behavior.value).(*BehaviorData)
	if !ok1 || !ok2 || p == nil || q == nil || p == q {
		return BehaviorData{}, BehaviorData{}, false
	}
	return *p, *q, vp.WriteCount(&a.behavior.value) == 1
}

// otherState is what other goroutines may put in place of the state.
func otherState(v any) bool {
	s, ok := v.(*StateData)
	return ok && s != nil && s.Phase >= 0 && s.Phase < twoPi && s.LocalGoal >= 0 && s.LocalGoal < twoPi && s.Energy >= 0
}

func otherBehavior(v any) bool {
	b, ok := v.(*BehaviorData)
	return ok && b != nil && b.Influence >= 0 && b.Influence <= 1 && b.Stubbornness >= 0 && b.Stubbornness <= 1
}

//gvc:prop C06
//gvc:stress ctStressUpdates
//gvc:use core.ctWrapPhaseCongruent
func ctSetPhaseShared(a *Agent, p float64, w *StateData) {
	vp.Requires(agentOK(a) && w != nil)
	seen := *w
	vp.LoopInv("nothing is written before the update succeeds", func() bool { return vp.WriteCount(&a.state.value) == 0 && *w == seen })
	vp.Interfere(&a.state.value, otherState)
	a.SetPhase(p)
	o, n, ok := stateStep(a)
	vp.Ensures("the update is one atomic step", ok)
	vp.Ensures("the phase is the one given", vp.Congruent(n.Phase, p, twoPi))
	vp.Ensures("concurrent changes of the other fields are kept", n.Energy == o.Energy && n.LocalGoal == o.LocalGoal && n.Frequency == o.Frequency)
	vp.Ensures("no published state is modified", *w == seen)
}

//gvc:prop C06
//gvc:stress ctStressUpdates
//gvc:use core.ctWrapPhaseCongruent
func ctSetLocalGoalShared(a *Agent, p float64, w *StateData) {
	vp.Requires(agentOK(a) && w != nil)
	seen := *w
	vp.LoopInv("nothing is written before the update succeeds", func() bool { return vp.WriteCount(&a.state.value) == 0 && *w == seen })
	vp.Interfere(&a.state.value, otherState)
	a.SetLocalGoal(p)
	o, n, ok := stateStep(a)
	vp.Ensures("the update is one atomic step", ok)
	vp.Ensures("the local goal is the one given", vp.Congruent(n.LocalGoal, p, twoPi))
	vp.Ensures("concurrent changes of the other fields are kept", n.Energy == o.Energy && n.Phase == o.Phase && n.Frequency == o.Frequency)
	vp.Ensures("no published state is modified", *w == seen)
}

//gvc:prop C06
//gvc:stress ctStressUpdates
func ctSetEnergyShared(a *Agent, e float64, w *StateData) {
	vp.Requires(agentOK(a) && w != nil)
	seen := *w
	vp.LoopInv("nothing is written before the update succeeds", func() bool { return vp.WriteCount(&a.state.value) == 0 && *w == seen })
	vp.Interfere(&a.state.value, otherState)
	a.SetEnergy(e)
	o, n, ok := stateStep(a)
	vp.Ensures("the update is one atomic step", ok)
	vp.Ensures("the energy is the one given", n.Energy == max(0, e))
	vp.Ensures("concurrent changes of the other fields are kept", n.LocalGoal == o.LocalGoal && n.Phase == o.Phase && n.Frequency == o.Frequency)
	vp.Ensures("no published state is modified", *w == seen)
}

//gvc:prop C06
//gvc:stress ctStressUpdates
func ctSetFrequencyShared(a *Agent, f time.Duration, w *StateData) {
	vp.Requires(agentOK(a) && w != nil)
	seen := *w
	vp.LoopInv("nothing is written before the update succeeds", func() bool { return vp.WriteCount(&a.state.value) == 0 && *w == seen })
	vp.Interfere(&a.state.value, otherState)
	a.SetFrequency(f)
	o, n, ok := stateStep(a)
	vp.Ensures("the update is one atomic step", ok)
	vp.Ensures("the period is the one given", n.Frequency == f)
	vp.Ensures("concurrent changes of the other fields are kept", n.LocalGoal == o.LocalGoal && n.Phase == o.Phase && n.Energy == o.Energy)
	vp.Ensures("no published state is modified", *w == seen)
}

//gvc:prop C06
//gvc:stress ctStressBehavior
func ctSetInfluenceShared(a *Agent, x float64, w *BehaviorData) {
	vp.Requires(agentOK(a) && w != nil)
	seen := *w
	vp.LoopInv("nothing is written before the update succeeds", func() bool { return vp.WriteCount(&a.behavior.value) == 0 && *w == seen })
	vp.Interfere(&a.behavior.value, otherBehavior)
	a.SetInfluence(x)
	o, n, ok := behaviorStep(a)
	vp.Ensures("the update is one atomic step", ok)
	vp.Ensures("the influence is the one given", n.Influence == min(1, max(0, x)))
	vp.Ensures("a concurrent change of stubbornness is kept", n.Stubbornness == o.Stubbornness)
	vp.Ensures("no published behavior is modified", *w == seen)
}

//gvc:prop C06
//gvc:stress ctStressBehavior
func ctSetStubbornnessShared(a *Agent, x float64, w *BehaviorData) {
	vp.Requires(agentOK(a) && w != nil)
	seen := *w
	vp.LoopInv("nothing is written before the update succeeds", func() bool { return vp.WriteCount(&a.behavior.value) == 0 && *w == seen })
	vp.Interfere(&a.behavior.value, otherBehavior)
	a.SetStubbornness(x)
	o, n, ok := behaviorStep(a)
	vp.Ensures("the update is one atomic step", ok)
	vp.Ensures("the stubbornness is the one given", n.Stubbornness == min(1, max(0, x)))
	vp.Ensures("a concurrent change of influence is kept", n.Influence == o.Influence)
	vp.Ensures("no published behavior is modified", *w == seen)
}

// The energy found at the moment of the update pays for the action: the same energy is never spent twice.
//
//gvc:prop C06
//gvc:stress ctStressActions
//gvc:use core.ctWrapPhaseCongruent
func ctApplyActionShared(a *Agent, act core.Action, w *StateData) {
	vp.Requires(agentOK(a) && w != nil && a.resources == nil && act.Cost >= 0)
	seen := *w
	vp.LoopInv("nothing is written before the update succeeds", func() bool { return vp.WriteCount(&a.state.value) == 0 && *w == seen })
	vp.Interfere(&a.state.value, otherState)
	success, _, err := a.ApplyAction(act)
	o, n, ok := stateStep(a)
	vp.Ensures("an error is reported exactly on failure", (err == nil) == success)
	vp.Ensures("the state is written at most once", vp.WriteCount(&a.state.value) <= 1)
	vp.Ensures("a successful action is one atomic step", !success || ok)
	vp.Ensures("the energy at that moment pays for it", !success || o.Energy >= act.Cost && n.Energy == o.Energy-act.Cost)
	vp.Ensures("the phase at that moment is turned", !success || act.Type == "maintain" && n.Phase == o.Phase || vp.Congruent(n.Phase, o.Phase+act.Value, twoPi))
	vp.Ensures("concurrent changes of the other fields are kept", !success || n.LocalGoal == o.LocalGoal && n.Frequency == o.Frequency)
	vp.Ensures("a failed action writes nothing new", success || vp.WriteCount(&a.state.value) == 0 || ok && o == n)
	vp.Ensures("no published state is modified", *w == seen)
}

// Perceiving replaces the local goal only.
//
//gvc:prop C06
//gvc:stress ctStressUpdates
//gvc:use core.ctWrapPhaseCongruent agent.ctNeighborAll
//gvc:nosafety nil
func ctUpdateContextShared(a *Agent, w *StateData) {
	vp.Requires(agentOK(a) && company(a) && w != nil)
	seen := *w
	vp.LoopInv("nothing is written before the update succeeds", func() bool { return vp.WriteCount(&a.state.value) == 0 && *w == seen })
	vp.Interfere(&a.state.value, otherState)
	a.UpdateContext()
	o, n, ok := stateStep(a)
	wrote := vp.WriteCount(&a.state.value)
	vp.Ensures("the update is at most one atomic step", wrote == 0 || ok)
	vp.Ensures("concurrent changes of the other fields are kept", wrote == 0 || n.Phase == o.Phase && n.Energy == o.Energy && n.Frequency == o.Frequency)
	vp.Ensures("no published state is modified", *w == seen)
}

// The runs below look for a failing schedule when one of the obligations above fails.

// stays counts a loss when a value only the caller writes does not stay what it was set to.
func stays(lost *atomic.Int64, same func() bool) {
	for range 25 {
		if !same() {
			lost.Add(1)
			return
		}
	}
}

//gvc:dynamic
//gvc:prop C06
//gvc:replay 400
func ctStressUpdates(seed int) {
	a := New("a")
	b := New("b")
	a.ConnectTo("b", b)
	var wg sync.WaitGroup
	var lost [4]atomic.Int64
	var left atomic.Int64
	perceive := seed%2 == 0
	for f := range 5 {
		wg.Add(1)
		if f < 3 {
			left.Add(1)
		}
		go func() {
			defer wg.Done()
			switch f {
			case 0:
				for i := range 600 {
					p := float64(i%600) / 100
					a.SetPhase(p)
					stays(&lost[0], func() bool { return math.Abs(a.Phase()-p) <= 1e-9 })
				}
			case 1:
				for i := range 600 {
					a.SetEnergy(float64(i))
					stays(&lost[1], func() bool { return a.Energy() == float64(i) })
				}
			case 2:
				for i := range 600 {
					a.SetFrequency(time.Duration(i + 1))
					stays(&lost[2], func() bool { return a.Frequency() == time.Duration(i+1) })
				}
			case 3:
				for i := 0; left.Load() > 0; i++ {
					p := float64(i%600) / 100
					a.SetLocalGoal(p)
					if !perceive {
						stays(&lost[3], func() bool { return math.Abs(a.LocalGoal()-p) <= 1e-9 })
					}
				}
			case 4:
				for perceive && left.Load() > 0 {
					a.UpdateContext()
				}
			}
			if f < 3 {
				left.Add(-1)
			}
		}()
	}
	wg.Wait()
	vp.Ensures("no phase update is lost", lost[0].Load() == 0)
	vp.Ensures("no energy update is lost", lost[1].Load() == 0)
	vp.Ensures("no period update is lost", lost[2].Load() == 0)
	vp.Ensures("no local goal update is lost", lost[3].Load() == 0)
}

//gvc:dynamic
//gvc:prop C06
//gvc:replay 400
func ctStressBehavior(seed int) {
	a := New("a")
	var wg sync.WaitGroup
	var lost [2]atomic.Int64
	for f := range 2 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range 3000 {
				x := float64(i%100) / 100
				if f == 0 {
					a.SetInfluence(x)
					stays(&lost[0], func() bool { return a.Influence() == x })
				} else {
					a.SetStubbornness(x)
					stays(&lost[1], func() bool { return a.Stubbornness() == x })
				}
			}
		}()
	}
	wg.Wait()
	vp.Ensures("no influence update is lost", lost[0].Load() == 0)
	vp.Ensures("no stubbornness update is lost", lost[1].Load() == 0)
}

//gvc:dynamic
//gvc:prop C06
//gvc:replay 400
func ctStressActions(seed int) {
	a := New("a")
	a.resources = nil
	total := 1000.0
	a.SetEnergy(total)
	var wg sync.WaitGroup
	var paid atomic.Int64
	for g := range 4 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range 400 {
				t := "phase_nudge"
				if (i+g)%3 == 0 {
					t = "maintain"
				}
				if ok, _, _ := a.ApplyAction(core.Action{Type: t, Cost: 1, Value: 0.01}); ok {
					paid.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	vp.Ensures("every action is paid from energy of its own", float64(paid.Load())+a.Energy() == total)
}

// Connects and disconnects of different ids do not disturb each other.
//
//gvc:dynamic
//gvc:prop C07
//gvc:replay 3000
func ctStressNeighbors(seed int) {
	ns := NewNeighborStorage(16)
	as := make([]*Agent, 16)
	ids := make([]string, 16)
	for i := range as {
		ids[i] = string(rune('a' + i))
		as[i] = &Agent{ID: ids[i]}
		if i < 12 {
			ns.Store(ids[i], as[i])
		}
	}
	var wg sync.WaitGroup
	var bad atomic.Int64
	start := make(chan struct{})
	for i := range 8 {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			switch {
			case i < 4:
				ns.Delete(ids[i])
			case i < 6:
				ns.Store(ids[8+i], as[8+i])
			case i == 6:
				for _, n := range ns.All() {
					if n == nil {
						bad.Add(1)
					}
				}
			default:
				ns.Range(func(id string, n *Agent) bool {
					if n == nil || n.ID != id {
						bad.Add(1)
					}
					return true
				})
			}
		}()
	}
	close(start)
	wg.Wait()
	for i := range ids {
		n, ok := ns.Load(ids[i])
		want := i >= 4 && i < 14
		if ok != want || ok && n != as[i] {
			bad.Add(1)
		}
	}
	vp.Ensures("concurrent connects and disconnects of different ids all take effect", bad.Load() == 0 && ns.Count() == 10)
}
