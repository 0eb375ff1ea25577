package completion

import (
	"math"
	"time"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

//gvc:guard Engine.templatesMu: templates

func vgenEngine(g *vp.Gen) *Engine {
	e := NewEngine()
	if g.Bool() {
		e.LoadDefaultTemplates()
	}
	for range g.Intn(3) {
		e.AddTemplate(g.Str(), vgenTargetPattern(g))
	}
	return e
}

func vgenTargetPattern(g *vp.Gen) *core.TargetPattern {
	p := vp.Fill[core.TargetPattern](g)
	if p.Frequency < 0 || p.Frequency > time.Hour {
		p.Frequency = time.Duration(g.Intn(1000))
	}
	return &p
}

// Blending moves the phase the short way round, by the given share of the distance.
//
//gvc:prop C21
//gvc:use core.ctPhaseDifference core.ctWrapPhaseCongruent
//gvc:target (*emerge/completion.Engine).blendPhase
func ctBlendPhase(e *Engine, cur, tpl, w float64) {
	vp.Requires(e != nil && w >= 0 && w <= 1)
	vp.Requires(math.Abs(cur) <= 100 && math.Abs(tpl) <= 100)
	r := e.blendPhase(cur, tpl, w)
	vp.Ensures("the blend is a phase", vp.LeF(0, r) && vp.LeF(r, 2*math.Pi))
	d := core.PhaseDifference(tpl, cur)
	vp.Ensures("the phase moves by its share of the distance", vp.EqF(math.Abs(core.PhaseDifference(r, cur)), w*math.Abs(d)))
}

//gvc:prop C21
//gvc:target (*emerge/completion.Engine).blendFrequency
func ctBlendFrequency(e *Engine, cur, tpl time.Duration, w float64) {
	vp.Requires(e != nil && w >= 0 && w <= 1 && cur >= 0 && tpl >= 0)
	vp.Requires(cur < 1<<50 && tpl < 1<<50)
	r := e.blendFrequency(cur, tpl, w)
	vp.Ensures("the blend lies between the two", r >= min(cur, tpl) && r <= max(cur, tpl))
	vp.Ensures("weight 0 keeps the current value", w != 0 || r == cur)
	vp.Ensures("weight 1 takes the template's value", w != 1 || r == tpl)
}

//gvc:prop C21
//gvc:target (*emerge/completion.Engine).morphWaveform
func ctMorphWaveform(e *Engine, cur, tpl []float64, w, lo, hi float64) {
	vp.Requires(e != nil && w >= 0 && w <= 1 && len(cur) < 1<<20 && len(tpl) < 1<<20)
	vp.Requires(vp.Forall(0, len(cur), func(i int) bool { return cur[i] >= lo && cur[i] <= hi }))
	vp.Requires(vp.Forall(0, len(tpl), func(i int) bool { return tpl[i] >= lo && tpl[i] <= hi }))
	vp.LoopInv("within range so far", func(i int, r []float64) bool {
		return vp.Forall(0, i, func(k int) bool { return r[k] >= lo && r[k] <= hi })
	})
	vp.LoopInv("within range up to here", func(i int, r []float64) bool {
		return vp.Forall(0, i+1, func(k int) bool { return r[k] >= lo && r[k] <= hi })
	})
	r := e.morphWaveform(cur, tpl, w)
	vp.Ensures("the result has the longer length", len(r) == max(len(cur), len(tpl)))
	vp.Ensures("every point lies within the two waveforms", vp.Forall(0, len(r), func(k int) bool { return vp.LeF(lo, r[k]) && vp.LeF(r[k], hi) }))
}

// The template chosen is near enough and one of the known ones.
//
//gvc:prop C21
//gvc:locks
//gvc:target (*emerge/completion.Engine).findBestTemplate
func ctFindBestTemplate(e *Engine, cur *core.TargetPattern) {
	vp.Requires(e != nil && cur != nil && e.matchThreshold <= 1)
	vp.LoopInv("near enough so far", func(t *core.TargetPattern, d float64) bool {
		return t == nil && d == math.MaxFloat64 || t != nil && d == core.PatternDistance(cur, t) && d < e.matchThreshold
	})
	t := e.findBestTemplate(cur)
	vp.OneCritical()
	vp.Ensures("a chosen template is near enough", t == nil || core.PatternDistance(cur, t) < e.matchThreshold)
}

func filledPhase(c *CompletedPattern) bool {
	v, ok := c.Filled["phase"]
	if !ok {
		return true
	}
	f, ok := v.(float64)
	return ok && vp.LeF(0, f) && vp.LeF(f, 2*math.Pi)
}

func vgenGaps(g *vp.Gen) []core.PatternGap {
	l := make([]core.PatternGap, g.Intn(4))
	for i := range l {
		l[i] = core.PatternGap{Type: []string{"phase", "frequency", "coherence", "waveform", "?"}[g.Intn(5)], Current: g.Unit() * 1000, Target: g.Unit() * 1000, Severity: g.Unit()}
	}
	return l
}

// A phase that is filled in is within one turn and at most half a turn away, for any gaps with severities in [0, 1].
//
//gvc:prop C21
//gvc:locks
//gvc:use core.ctPhaseDifference core.ctWrapPhaseCongruent emerge/completion.ctBlendFrequency
//gvc:opaque (*emerge/completion.Engine).morphWaveform
//gvc:target (*emerge/completion.Engine).CompletePattern
func ctCompletePattern(e *Engine, cur *core.TargetPattern, gaps []core.PatternGap) {
	vp.Requires(e != nil && cur != nil && cur.Frequency >= 0 && cur.Frequency < 1<<50)
	vp.Requires(vp.ForallStr(func(n string) bool {
		t, ok := e.templates[n]
		return !ok || t == nil || t.Frequency >= 0 && t.Frequency < 1<<50
	}))
	vp.Requires(vp.Forall(0, len(gaps), func(i int) bool {
		return gaps[i].Severity >= 0 && gaps[i].Severity <= 1 && (gaps[i].Type != "frequency" || gaps[i].Current >= 0 && gaps[i].Target >= 0)
	}))
	vp.LoopInv("a usable template", func(t *core.TargetPattern) bool { return t == nil || t.Frequency >= 0 && t.Frequency < 1<<50 })
	vp.LoopInv("for this pattern", func(c *CompletedPattern) bool { return c.Base == cur && c.Filled != nil })
	vp.LoopInv("usable phase so far", filledPhase)
	c := e.CompletePattern(cur, gaps)
	vp.Ensures("there is a result for this pattern", c != nil && c.Base == cur)
	vp.Ensures("a filled phase is a phase", filledPhase(c))
	vp.Ensures("the phase moves by at most half a turn", math.Abs(c.GetPhaseAdjustment()) <= math.Pi+1e-9)
}
