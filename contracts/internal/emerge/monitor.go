package emerge

import (
	"github.com/carlisia/bio-adapt/internal/vp"
)

//gvc:guard Monitor.mu: history

// windowed is the representation invariant: at most a hundred samples are kept.
func windowed(m *Monitor) bool {
	return m != nil && m.history != nil && m.history.Len() <= 100
}

func vgenMonitor(g *vp.Gen) *Monitor {
	m := NewMonitor()
	n := g.Intn(8)
	if g.Bool() {
		n += 96
	}
	for range n {
		m.RecordSample(g.Unit())
	}
	return m
}

//gvc:prop C18
//gvc:mode bits
//gvc:target internal/emerge.NewMonitor
func ctNewMonitor() {
	m := NewMonitor()
	vp.Ensures("a monitor is created", windowed(m) && vp.Fresh(m))
	vp.Ensures("a new monitor is empty", m.history.Len() == 0)
}

// The monitor keeps the latest hundred samples, in order.
//
//gvc:prop C18
//gvc:mode bits
//gvc:locks
//gvc:target (*internal/emerge.Monitor).RecordSample
func ctMonitorRecord(m *Monitor, coherence float64, k int) {
	vp.Requires(windowed(m))
	n := m.history.Len()
	vp.Requires(k >= 0 && k < n)
	old := m.history.At(k)
	m.RecordSample(coherence)
	vp.OneCritical()
	l := m.history.Len()
	vp.Ensures("never more than a hundred samples", windowed(m))
	vp.Ensures("one sample more, until there are a hundred", n < 100 && l == n+1 || n == 100 && l == 100)
	vp.Ensures("the latest sample is the one recorded", vp.SameF(m.history.At(l-1), coherence))
	vp.Ensures("earlier samples stay in order", n == 100 || vp.SameF(m.history.At(k), old))
	vp.Ensures("only the oldest sample is dropped", n < 100 || k == 0 || vp.SameF(m.history.At(k-1), old))
}

//gvc:prop C18
//gvc:mode bits
func ctMonitorRecordFirst(m *Monitor, coherence float64) {
	vp.Requires(windowed(m) && m.history.Len() == 0)
	m.RecordSample(coherence)
	vp.Ensures("the first sample is kept", m.history.Len() == 1 && vp.SameF(m.history.At(0), coherence))
}

//gvc:prop C18
//gvc:mode bits
//gvc:locks
//gvc:target (*internal/emerge.Monitor).History
func ctMonitorHistory(m *Monitor) {
	vp.Requires(windowed(m))
	vp.LoopInv("copied so far", func(i int, r []float64) bool {
		return i <= len(r) && vp.Forall(0, i, func(k int) bool { return vp.SameF(r[k], m.history.At(k)) })
	})
	h := m.History()
	vp.OneCritical()
	vp.Ensures("all samples are listed", len(h) == m.history.Len())
	vp.Ensures("in order", vp.Forall(0, len(h), func(k int) bool { return vp.SameF(h[k], m.history.At(k)) }))
	vp.Ensures("the list is the caller's own", len(h) == 0 || vp.Fresh(&h[0]))
}

//gvc:prop C18
//gvc:mode bits
//gvc:locks
//gvc:target (*internal/emerge.Monitor).Latest
func ctMonitorLatest(m *Monitor) {
	vp.Requires(windowed(m))
	c := m.Latest()
	vp.OneCritical()
	n := m.history.Len()
	vp.Ensures("the latest sample is reported", n == 0 && c == 0 || n > 0 && vp.SameF(c, m.history.At(n-1)))
}

// The average is the sum of the samples divided by their number, and lies within their range.
//
//gvc:prop C18
//gvc:locks
//gvc:target (*internal/emerge.Monitor).Average
func ctMonitorAverage(m *Monitor) {
	vp.Requires(windowed(m))
	n := m.history.Len()
	vp.LoopInv("a partial sum", func(i int, t float64) bool { return t == vp.Sum(0, i, func(k int) float64 { return m.history.At(k) }) })
	r := m.Average()
	vp.OneCritical()
	vp.Ensures("nothing to average", n > 0 || r == 0)
	vp.Ensures("the average is the sum over the number", n == 0 || vp.EqF(r*float64(n), vp.Sum(0, n, func(k int) float64 { return m.history.At(k) })))
}

//gvc:prop C18
func ctMonitorAverageWithin(m *Monitor, lo, hi float64) {
	vp.Requires(windowed(m) && m.history.Len() > 0)
	n := m.history.Len()
	vp.Requires(vp.Forall(0, n, func(k int) bool { return m.history.At(k) >= lo && m.history.At(k) <= hi }))
	vp.LoopInv("a partial sum in range", func(i int, t float64) bool { return t >= lo*float64(i) && t <= hi*float64(i) })
	r := m.Average()
	vp.Ensures("the average lies within the samples", vp.LeF(lo, r) && vp.LeF(r, hi))
}
