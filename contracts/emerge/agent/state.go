package agent

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/config"
	"github.com/carlisia/bio-adapt/internal/resource"
	"github.com/carlisia/bio-adapt/internal/vp"
)

const twoPi = 2 * math.Pi

func stateOK(s StateData) bool {
	return s.Phase >= 0 && s.Phase < twoPi && s.LocalGoal >= 0 && s.LocalGoal < twoPi && s.Energy >= 0 && vp.Finite(s.Energy)
}

func behaviorOK(b BehaviorData) bool {
	return b.Influence >= 0 && b.Influence <= 1 && b.Stubbornness >= 0 && b.Stubbornness <= 1
}

func stateHolds(a *AtomicState) bool {
	if a == nil {
		return false
	}
	d, ok := a.value.Load().(*StateData)
	return ok && d != nil
}

func behaviorHolds(a *AtomicBehavior) bool {
	if a == nil {
		return false
	}
	d, ok := a.value.Load().(*BehaviorData)
	return ok && d != nil
}

// made: the agent was built by a constructor.
func made(a *Agent) bool {
	return a != nil && stateHolds(a.state) && behaviorHolds(a.behavior)
}

// agentOK is the invariant of every agent over every history.
func agentOK(a *Agent) bool {
	return made(a) && stateOK(a.state.Load()) && behaviorOK(a.behavior.Load())
}

// poolOK: the agent has no pool, or a token pool in good order.
func poolOK(a *Agent) bool {
	if a.resources == nil {
		return true
	}
	t, ok := a.resources.(*resource.TokenManager)
	return ok && resource.VPool(t)
}

// level is what is left in the agent's pool.
func level(a *Agent) float64 {
	if t, ok := a.resources.(*resource.TokenManager); ok {
		return t.Available()
	}
	return 0
}

func sameState(a, b StateData) bool {
	return a.Phase == b.Phase && a.LocalGoal == b.LocalGoal && a.Energy == b.Energy && a.Frequency == b.Frequency
}

// whim proposes and decides anything (only in the search for a failing input).
type whim struct {
	intn func(int) int
	unit func() float64
}

func (w whim) Propose(_, _ core.State, _ core.Context) (core.Action, float64) {
	t := []string{"adjust_phase", "maintain", "pulse"}
	return core.Action{Type: t[w.intn(3)], Cost: w.unit(), Value: w.unit(), Benefit: w.unit()}, 1
}

func (w whim) Name() string { return "whim" }

func (w whim) Decide(_ core.State, options []core.Action) (core.Action, float64) {
	return options[w.intn(len(options))], 1
}

func vgenAgent(g *vp.Gen) *Agent {
	a := New(g.Str())
	a.state.Store(StateData{Phase: g.Unit() * 6.28, Energy: g.Unit() * 100, LocalGoal: g.Unit() * 6.28, Frequency: time.Duration(1 + g.Intn(1000))})
	a.behavior.Store(BehaviorData{Influence: g.Unit(), Stubbornness: g.Unit()})
	if g.Bool() {
		a.resources = nil
	} else if g.Bool() {
		a.resources = resource.NewTokenManager(g.Unit() * 3)
	}
	if g.Bool() {
		WithSwarmInfo(g.Intn(30)-1, g.Intn(30)-1)(a)
	}
	if g.Intn(3) == 0 {
		a.SetStubbornness(g.Unit() / 4)
		a.SetEnergy(g.Unit())
		a.strategy, a.decider = whim{g.Intn, g.Unit}, whim{g.Intn, g.Unit}
	}
	if g.Bool() {
		a.context.Store(core.Context{Neighbors: g.Intn(5), Density: g.Unit(), LocalCoherence: g.Unit(), Stability: g.Unit()})
	}
	a.useOptimizedNeighbors = g.Intn(3) > 0
	for range g.Intn(4) {
		b := New(g.Str())
		b.SetPhase(g.Unit() * 6.28)
		a.ConnectTo(b.ID, b)
	}
	return a
}

// A new agent is in range, whatever its id.
//
//gvc:prop C03
//gvc:mode bits
//gvc:use random.ctPhase random.ctDefaultFloat64
func ctNew(id string) {
	a := New(id)
	vp.Ensures("a new agent is in range", agentOK(a))
	vp.Ensures("a new agent keeps its id", a.ID == id)
	vp.Ensures("a new agent has a positive period", a.Frequency() > 0)
	vp.Ensures("a new agent has a full energy budget", a.Energy() == 100)
}

//gvc:prop C03
//gvc:mode bits
//gvc:use core.ctWrapPhase
func ctSetPhase(a *Agent, p float64) {
	vp.Requires(agentOK(a) && vp.Finite(p))
	before := a.state.Load()
	a.SetPhase(p)
	after := a.state.Load()
	vp.Ensures("the agent stays in range", agentOK(a))
	before.Phase = after.Phase
	vp.Ensures("only the phase changes", sameState(before, after))
}

//gvc:prop C03
//gvc:use core.ctWrapPhaseCongruent
func ctSetPhaseAngle(a *Agent, p float64) {
	vp.Requires(agentOK(a))
	a.SetPhase(p)
	vp.Ensures("the phase is the given angle", vp.Congruent(p, a.Phase(), twoPi))
}

//gvc:prop C03
//gvc:mode bits
//gvc:use core.ctWrapPhase
func ctSetLocalGoal(a *Agent, p float64) {
	vp.Requires(agentOK(a) && vp.Finite(p))
	before := a.state.Load()
	a.SetLocalGoal(p)
	after := a.state.Load()
	vp.Ensures("the agent stays in range", agentOK(a))
	before.LocalGoal = after.LocalGoal
	vp.Ensures("only the local goal changes", sameState(before, after))
}

//gvc:prop C03
//gvc:use core.ctWrapPhaseCongruent
func ctSetLocalGoalAngle(a *Agent, p float64) {
	vp.Requires(agentOK(a))
	a.SetLocalGoal(p)
	vp.Ensures("the local goal is the given angle", vp.Congruent(p, a.LocalGoal(), twoPi))
}

//gvc:prop C03
//gvc:mode bits
func ctSetEnergy(a *Agent, e float64) {
	vp.Requires(agentOK(a) && vp.Finite(e))
	before := a.state.Load()
	a.SetEnergy(e)
	after := a.state.Load()
	vp.Ensures("the agent stays in range", agentOK(a))
	vp.Ensures("a non-negative energy is kept", e < 0 || after.Energy == e)
	vp.Ensures("a negative energy becomes zero", e >= 0 || after.Energy == 0)
	before.Energy = after.Energy
	vp.Ensures("only the energy changes", sameState(before, after))
}

//gvc:prop C03
//gvc:mode bits
func ctSetFrequency(a *Agent, f time.Duration) {
	vp.Requires(agentOK(a))
	before := a.state.Load()
	a.SetFrequency(f)
	after := a.state.Load()
	vp.Ensures("the frequency is the given one", a.Frequency() == f)
	before.Frequency = after.Frequency
	vp.Ensures("only the frequency changes", sameState(before, after))
}

func clamped(x, got float64) bool {
	if x < 0 {
		return got == 0
	}
	if x > 1 {
		return got == 1
	}
	return got == x
}

//gvc:prop C03
//gvc:mode bits
func ctSetInfluence(a *Agent, x float64) {
	vp.Requires(agentOK(a) && !vp.IsNaN(x))
	st := a.state.Load()
	before := a.behavior.Load()
	a.SetInfluence(x)
	after := a.behavior.Load()
	vp.Ensures("influence is the given value clamped to [0, 1]", clamped(x, after.Influence))
	vp.Ensures("the agent stays in range", agentOK(a))
	vp.Ensures("stubbornness is unchanged", before.Stubbornness == after.Stubbornness)
	vp.Ensures("the oscillator is unchanged", sameState(st, a.state.Load()))
}

//gvc:prop C03
//gvc:mode bits
func ctSetStubbornness(a *Agent, x float64) {
	vp.Requires(agentOK(a) && !vp.IsNaN(x))
	st := a.state.Load()
	before := a.behavior.Load()
	a.SetStubbornness(x)
	after := a.behavior.Load()
	vp.Ensures("stubbornness is the given value clamped to [0, 1]", clamped(x, after.Stubbornness))
	vp.Ensures("the agent stays in range", agentOK(a))
	vp.Ensures("influence is unchanged", before.Influence == after.Influence)
	vp.Ensures("the oscillator is unchanged", sameState(st, a.state.Load()))
}

// Construction options keep the agent in range.
//
//gvc:prop C03
//gvc:mode bits
//gvc:use core.ctWrapPhase random.ctPhase random.ctDefaultFloat64
func ctOptions(a *Agent, which int, x float64, f time.Duration) {
	vp.Requires(agentOK(a) && vp.Finite(x))
	before := a.state.Load()
	beh := a.behavior.Load()
	switch which {
	case 0:
		WithPhase(x)(a)
		before.Phase = a.Phase()
	case 1:
		WithRandomPhase()(a)
		before.Phase = a.Phase()
	case 2:
		WithLocalGoal(x)(a)
		before.LocalGoal = a.LocalGoal()
	case 3:
		WithRandomLocalGoal()(a)
		before.LocalGoal = a.LocalGoal()
	case 4:
		WithEnergy(x)(a)
		before.Energy = a.Energy()
		vp.Ensures("a non-negative initial energy is kept", x < 0 || a.Energy() == x)
	case 5:
		WithFrequency(f)(a)
		before.Frequency = f
	case 6:
		WithRandomFrequency()(a)
		before.Frequency = a.Frequency()
		vp.Ensures("a random period is in [100ms, 150ms)", a.Frequency() >= 100*time.Millisecond && a.Frequency() < 150*time.Millisecond)
	case 7:
		WithInfluence(x)(a)
		beh.Influence = a.Influence()
		vp.Ensures("an initial influence is the given value clamped to [0, 1]", clamped(x, a.Influence()))
	case 8:
		WithStubbornness(x)(a)
		beh.Stubbornness = a.Stubbornness()
		vp.Ensures("an initial stubbornness is the given value clamped to [0, 1]", clamped(x, a.Stubbornness()))
	}
	vp.Ensures("options keep the agent in range", agentOK(a))
	vp.Ensures("an option changes only its own field", sameState(before, a.state.Load()) && beh == a.behavior.Load())
}

func okConfig(cfg config.Agent) bool {
	return vp.Finite(cfg.Phase) && vp.Finite(cfg.LocalGoal) && vp.Finite(cfg.InitialEnergy) && vp.Finite(cfg.MaxTokens) &&
		!vp.IsNaN(cfg.Influence) && !vp.IsNaN(cfg.Stubbornness)
}

// Every agent built from a configuration is in range.
//
//gvc:prop C03
//gvc:mode bits
//gvc:use core.ctWrapPhase random.ctPhase random.ctDefaultFloat64 resource.ctNewTokenManager
func ctNewFromConfig(id string, cfg config.Agent) {
	vp.Requires(okConfig(cfg))
	a, err := NewFromConfig(id, cfg)
	vp.Ensures("an agent comes without an error, or an error without an agent", (err == nil) == (a != nil))
	if err != nil {
		return
	}
	vp.Ensures("an agent is built", made(a))
	vp.Ensures("its phase is in range", a.Phase() >= 0 && a.Phase() < twoPi)
	vp.Ensures("its local goal is in range", a.LocalGoal() >= 0 && a.LocalGoal() < twoPi)
	vp.Ensures("its energy is in range", a.Energy() >= 0 && vp.Finite(a.Energy()))
	vp.Ensures("its behavior is in range", behaviorOK(a.behavior.Load()))
	vp.Ensures("an agent built from a configuration has its components", err != nil || (a.decider != nil && a.goalManager != nil && a.resources != nil && a.strategy != nil))
}

// An agent starts with what its configuration says.
//
//gvc:prop C03
//gvc:use core.ctWrapPhaseCongruent random.ctPhaseReal random.ctDefaultFloat64Real
func ctNewFromConfigGiven(id string, cfg config.Agent) {
	a, err := NewFromConfig(id, cfg)
	if err != nil {
		return
	}
	vp.Ensures("an agent is built", made(a) && a.ID == id)
	vp.Ensures("a given phase is the initial phase", cfg.RandomizePhase || vp.Congruent(cfg.Phase, a.Phase(), twoPi))
	vp.Ensures("a given local goal is the initial local goal", cfg.RandomizeLocalGoal || cfg.LocalGoal == 0 || vp.Congruent(cfg.LocalGoal, a.LocalGoal(), twoPi))
	vp.Ensures("a given energy is the initial energy", err != nil || !(cfg.InitialEnergy > 0) || a.Energy() == cfg.InitialEnergy)
	vp.Ensures("a given influence is the initial influence", err != nil || !(cfg.Influence > 0 && cfg.Influence <= 1) || a.Influence() == cfg.Influence)
	vp.Ensures("a given stubbornness is the initial stubbornness", err != nil || !(cfg.Stubbornness > 0 && cfg.Stubbornness <= 1) || a.Stubbornness() == cfg.Stubbornness)
	vp.Ensures("a given period is the initial period", err != nil || cfg.RandomizeFrequency || cfg.Frequency == 0 || a.Frequency() == cfg.Frequency)
}

//gvc:prop C03
//gvc:mode bits
//gvc:use core.ctWrapPhase random.ctPhase random.ctDefaultFloat64 resource.ctNewTokenManager
func ctNewOptimizedFromConfig(id string, cfg config.Agent) {
	vp.Requires(okConfig(cfg))
	a, err := NewOptimizedFromConfig(id, cfg)
	vp.Ensures("a configuration always gives an agent", err == nil && made(a))
	vp.Ensures("its phase is in range", a.Phase() >= 0 && a.Phase() < twoPi)
	vp.Ensures("its local goal is in range", a.LocalGoal() >= 0 && a.LocalGoal() < twoPi)
	vp.Ensures("its energy is in range", a.Energy() >= 0 && vp.Finite(a.Energy()))
	vp.Ensures("its behavior is in range", behaviorOK(a.behavior.Load()))
	vp.Ensures("a given energy is the initial energy", (cfg.ResourceManagerType == "token" && cfg.MaxTokens > 0) || !(cfg.InitialEnergy > 0) || a.Energy() == cfg.InitialEnergy)
}

// Actions are charged exactly, or leave the agent alone.
//
//gvc:prop C05
//gvc:mode bits
//gvc:use core.ctWrapPhase resource.ctRequest
//gvc:target (*emerge/agent.Agent).ApplyAction
func ctApplyAction(a *Agent, act core.Action) {
	vp.Requires(agentOK(a) && poolOK(a))
	vp.Requires(act.Cost >= 0 && vp.Finite(act.Cost) && vp.Finite(act.Value) && math.Abs(act.Value) < 1e300)
	before := a.state.Load()
	beh := a.behavior.Load()
	pool := level(a)
	ok, cost, err := a.ApplyAction(act)
	after := a.state.Load()
	known := act.Type == "adjust_phase" || act.Type == "phase_nudge" || act.Type == "frequency_lock" || act.Type == "energy_save" || act.Type == "pulse" || act.Type == "maintain"
	vp.Ensures("an action succeeds exactly when it is known and affordable", ok == (known && act.Cost <= before.Energy))
	vp.Ensures("an error is reported exactly on failure", (err == nil) == ok)
	vp.Ensures("a successful action costs what it says", !ok || cost == act.Cost)
	vp.Ensures("a failed action costs nothing", ok || cost == 0)
	vp.Ensures("a failed action changes nothing", ok || sameState(before, after))
	vp.Ensures("a successful action is charged exactly", !ok || after.Energy == before.Energy-act.Cost)
	vp.Ensures("an action never changes the local goal or the period", after.LocalGoal == before.LocalGoal && after.Frequency == before.Frequency)
	vp.Ensures("maintaining keeps the phase", act.Type != "maintain" || after.Phase == before.Phase)
	vp.Ensures("a failed action draws nothing from the pool", ok || level(a) == pool)
	vp.Ensures("a successful action draws its cost from the pool", !ok || a.resources == nil || act.Cost > pool || level(a) == pool-act.Cost)
	vp.Ensures("a successful action empties a pool that is short", !ok || a.resources == nil || act.Cost <= pool || level(a) == 0)
	vp.Ensures("the pool stays within bounds", poolOK(a))
	vp.Ensures("an action keeps the behavior", beh == a.behavior.Load())
	vp.Ensures("the agent keeps a state and a behavior", made(a))
	vp.Ensures("the phase stays in range", after.Phase >= 0 && after.Phase < twoPi)
	vp.Ensures("the energy stays in range", after.Energy >= 0 && vp.Finite(after.Energy))
	vp.Ensures("the behavior stays in range", behaviorOK(a.behavior.Load()))
}

// Over the reals: a phase action turns the phase by its value.
//
//gvc:prop C05
//gvc:use core.ctWrapPhaseCongruent
func ctApplyActionPhase(a *Agent, act core.Action) {
	vp.Requires(agentOK(a) && poolOK(a) && act.Cost >= 0)
	before := a.state.Load()
	ok, _, _ := a.ApplyAction(act)
	after := a.state.Load()
	vp.Ensures("a phase action turns the phase by its value", !ok || act.Type == "maintain" || vp.Congruent(before.Phase+act.Value, after.Phase, twoPi))
}

// VMade and VOK let the contracts of other packages speak about agents.
func VMade(a *Agent) bool { return made(a) }

func VOK(a *Agent) bool { return agentOK(a) }

// Built agents work, carry the given ID and are new.
//
//gvc:prop C16
//gvc:target emerge/agent.NewOptimizedFromConfig
func ctBuildOptimized(id string, cfg config.Agent) {
	a, err := NewOptimizedFromConfig(id, cfg)
	vp.Ensures("an agent is always built", err == nil && made(a))
	vp.Ensures("it has the given ID", a.ID == id)
	vp.Ensures("it is a new one", vp.Fresh(a))
}

//gvc:prop C16
//gvc:target emerge/agent.NewFromConfig
func ctBuild(id string, cfg config.Agent) {
	a, err := NewFromConfig(id, cfg)
	vp.Ensures("an agent comes without an error, or an error without an agent", (err == nil) == (a != nil))
	vp.Ensures("the known component types are accepted", err == nil || !(cfg.DecisionMakerType == "simple" && cfg.GoalManagerType == "weighted" && cfg.ResourceManagerType == "token" && cfg.StrategyType == "phase_nudge"))
	if err != nil {
		return
	}
	vp.Ensures("an agent is built", made(a))
	vp.Ensures("it has the given ID", a.ID == id)
	vp.Ensures("it is a new one", vp.Fresh(a))
}

// Struck counts the calls of SetPhase.
var Struck int

//gvc:prop C16
//gvc:target (*emerge/agent.Agent).SetPhase
//gvc:use core.ctWrapPhaseCongruent
//gvc:noreplay
func ctStrike(a *Agent, p float64) {
	vp.Requires(made(a))
	Struck++
	vp.Modifies(&a.state.value)
	a.SetPhase(p)
	vp.Ensures("the agent still works", made(a))
	vp.Ensures("the phase is in range", a.Phase() >= 0 && a.Phase() < twoPi)
}

//gvc:prop C16
//gvc:target emerge/agent.New
func ctBuildPlain(id string) {
	a := New(id)
	vp.Ensures("an agent is built", made(a))
	vp.Ensures("it has the given ID", a.ID == id)
	vp.Ensures("it is a new one", vp.Fresh(a))
}

//gvc:prop C15
//gvc:target (*emerge/agent.Agent).SetPhase
//gvc:use core.ctWrapPhaseCongruent
func ctTurn(a *Agent, p float64) {
	vp.Requires(made(a))
	before := a.state.Load()
	vp.Modifies(&a.state.value)
	a.SetPhase(p)
	vp.Ensures("the agent still works", made(a))
	vp.Ensures("the phase is in range", a.Phase() >= 0 && a.Phase() < twoPi)
	after := a.state.Load()
	before.Phase = after.Phase
	vp.Ensures("only the phase changes", sameState(before, after))
}

//gvc:prop C15
//gvc:target (*emerge/agent.Agent).SetFrequency
func ctRetune(a *Agent, f time.Duration) {
	vp.Requires(made(a))
	before := a.state.Load()
	vp.Modifies(&a.state.value)
	a.SetFrequency(f)
	vp.Ensures("the agent still works", made(a))
	vp.Ensures("the period is the given one", a.Frequency() == f)
	after := a.state.Load()
	before.Frequency = after.Frequency
	vp.Ensures("only the period changes", sameState(before, after))
}
