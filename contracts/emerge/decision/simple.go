package decision

import (
	"math"

	"github.com/carlisia/bio-adapt/emerge/core"
	"github.com/carlisia/bio-adapt/internal/vp"
)

func score(a core.Action) float64 { return a.Benefit / math.Max(a.Cost, 0.1) }

func sameAction(a, b core.Action) bool {
	return a.Type == b.Type && a.Value == b.Value && a.Cost == b.Cost && a.Benefit == b.Benefit
}

func clean(options []core.Action) bool {
	return vp.Forall(0, len(options), func(k int) bool {
		o := options[k]
		return vp.Finite(o.Value) && vp.Finite(o.Cost) && vp.Finite(o.Benefit) && math.Abs(o.Benefit) < 1e300
	})
}

// The chosen action is one of the options, none of the others has a better benefit/cost ratio, and the
// confidence is a probability that grows with the ratio.
//
//gvc:prop C08
//gvc:target (*emerge/decision.SimpleDecisionMaker).Decide
func ctDecide(d *SimpleDecisionMaker, state core.State, options []core.Action) {
	vp.Requires(clean(options))
	vp.Requires(len(options) > 0)
	vp.LoopInv("the best so far is one of the options seen", func(i int, best core.Action, sc float64) bool {
		return (i == 0 && sameAction(best, options[0]) && sc == -math.MaxFloat64) ||
			(vp.EqF(sc, score(best)) && sc > -math.MaxFloat64 && vp.Exists(0, i, func(k int) bool { return sameAction(options[k], best) }))
	})
	vp.LoopInv("no option seen is better", func(i int, sc float64) bool {
		return vp.Forall(0, i, func(k int) bool { return score(options[k]) <= sc })
	})
	a, conf := d.Decide(state, options)
	vp.Ensures("the decision is one of the options", vp.Exists(0, len(options), func(k int) bool { return sameAction(options[k], a) }))
	vp.Ensures("no option has a better benefit/cost ratio", vp.Forall(0, len(options), func(k int) bool { return vp.LeF(score(options[k]), score(a)) }))
	vp.Ensures("the confidence is in [0, 1]", vp.LeF(0, conf) && vp.LeF(conf, 1))
	vp.Ensures("the confidence is half the ratio, clamped", vp.EqF(conf, math.Min(math.Max(score(a)/2, 0), 1)))
}

//gvc:prop C08
func ctDecideNothing(d *SimpleDecisionMaker, state core.State, options []core.Action) {
	vp.Requires(len(options) == 0)
	a, conf := d.Decide(state, options)
	vp.Ensures("with no options the agent maintains at no cost", a.Type == "maintain" && a.Cost == 0 && a.Value == 0)
	vp.Ensures("the confidence is the coherence", vp.SameF(conf, state.Coherence))
}
