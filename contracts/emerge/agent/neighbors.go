package agent

import (
	"github.com/carlisia/bio-adapt/internal/vp"
)

//gvc:guard NeighborStorage.mu: neighbors ids

// No memory holds more slots than this; the count is a 32-bit number.
const maxSlots = 1 << 30

// storageOK is the representation invariant: as many slots as the capacity, used ones first, no id twice.
func storageOK(ns *NeighborStorage) bool {
	return ns != nil && ns.capacity >= 1 && ns.capacity <= maxSlots && len(ns.neighbors) == ns.capacity && len(ns.ids) == ns.capacity &&
		ns.count >= 0 && int(ns.count) <= ns.capacity &&
		vp.Forall(0, int(ns.count), func(i int) bool {
			return vp.Forall(0, i, func(j int) bool { return ns.ids[i] != ns.ids[j] })
		})
}

func vgenNeighborStorage(g *vp.Gen) *NeighborStorage {
	ns := NewNeighborStorage(g.Intn(5))
	for range g.Intn(6) {
		ns.Store(g.Str(), New(g.Str()))
	}
	return ns
}

// holds: the storage has this id.
func holds(ns *NeighborStorage, id string) bool {
	return vp.Exists(0, int(ns.count), func(k int) bool { return ns.ids[k] == id })
}

// pairs: id is stored with exactly this agent.
func pairs(ns *NeighborStorage, id string, a *Agent) bool {
	return vp.Exists(0, int(ns.count), func(k int) bool { return ns.ids[k] == id && ns.neighbors[k] == a })
}

//gvc:prop C07
//gvc:target emerge/agent.NewNeighborStorage
func ctNewNeighborStorage(capacity int) {
	vp.Requires(capacity <= maxSlots)
	ns := NewNeighborStorage(capacity)
	vp.Ensures("a storage is created", ns != nil && vp.Fresh(ns))
	vp.Ensures("a new storage is in order", storageOK(ns))
	vp.Ensures("a new storage is empty", ns.Count() == 0)
	vp.Ensures("a positive capacity is kept", capacity <= 0 || ns.capacity == capacity)
}

//gvc:prop C07
//gvc:locks
//gvc:schedule ctStressNeighbors
//gvc:target (*emerge/agent.NeighborStorage).Load
func ctNeighborLoad(ns *NeighborStorage, id string) {
	vp.Requires(storageOK(ns))
	vp.LoopInv("not among the first i", func(i int) bool {
		return vp.Forall(0, i, func(k int) bool { return ns.ids[k] != id })
	})
	a, ok := ns.Load(id)
	vp.OneCritical()
	vp.Ensures("an id is found exactly when it is stored", ok == holds(ns, id))
	vp.Ensures("the agent stored under the id is returned", !ok || pairs(ns, id, a))
	vp.Ensures("nothing is returned for an unknown id", ok || a == nil)
}

//gvc:prop C07
//gvc:locks
//gvc:schedule ctStressNeighbors
//gvc:target (*emerge/agent.NeighborStorage).Store
func ctNeighborStore(ns *NeighborStorage, id string, a *Agent, other string, b *Agent) {
	vp.Requires(storageOK(ns) && other != id)
	had := holds(ns, id)
	n := ns.count
	hadOther := holds(ns, other)
	pairOther := pairs(ns, other, b)
	full := int(n) == ns.capacity
	vp.LoopInv("not among the first i", func(i int) bool {
		return vp.Forall(0, i, func(k int) bool { return ns.ids[k] != id })
	})
	ok := ns.Store(id, a)
	vp.OneCritical()
	vp.Ensures("storing fails exactly when there is no room for a new id", ok == (had || !full))
	vp.Ensures("a new id is found afterwards", !ok || had || ns.count > 0 && ns.ids[int(ns.count)-1] == id || holds(ns, id))
	vp.Ensures("a known id is found afterwards", !had || holds(ns, id))
	vp.Ensures("whatever is found under the id is the stored agent", !ok || vp.Forall(0, int(ns.count), func(k int) bool {
		return ns.ids[k] != id || ns.neighbors[k] == a
	}))
	vp.Ensures("a refused id is not stored", ok || !holds(ns, id))
	vp.Ensures("the count grows by one exactly for a new id", ns.count == n && (had || !ok) || ns.count == n+1 && !had && ok)
	vp.Ensures("other ids stay as they are", hadOther == holds(ns, other) && pairOther == pairs(ns, other, b))
	vp.Ensures("the storage stays in order", storageOK(ns))
}

//gvc:prop C07
//gvc:locks
//gvc:schedule ctStressNeighbors
//gvc:target (*emerge/agent.NeighborStorage).Delete
func ctNeighborDelete(ns *NeighborStorage, id string, other string, b *Agent) {
	vp.Requires(storageOK(ns) && other != id)
	had := holds(ns, id)
	n := ns.count
	hadOther := holds(ns, other)
	pairOther := pairs(ns, other, b)
	vp.LoopInv("not among the first i", func(i int) bool {
		return vp.Forall(0, i, func(k int) bool { return ns.ids[k] != id })
	})
	ns.Delete(id)
	vp.OneCritical()
	vp.Ensures("a deleted id is gone", !holds(ns, id))
	vp.Ensures("the count drops by one exactly for a known id", ns.count == n && !had || ns.count == n-1 && had)
	vp.Ensures("other ids stay as they are", hadOther == holds(ns, other) && pairOther == pairs(ns, other, b))
	vp.Ensures("the storage stays in order", storageOK(ns))
	vp.Ensures("freed slots keep no agent alive", !had || ns.neighbors[int(ns.count)] == nil)
}

//gvc:prop C07
//gvc:locks
//gvc:schedule ctStressNeighbors
//gvc:target (*emerge/agent.NeighborStorage).All
func ctNeighborAll(ns *NeighborStorage) {
	vp.Requires(storageOK(ns))
	l := ns.All()
	vp.OneCritical()
	vp.Ensures("every neighbor is listed once", len(l) == int(ns.count))
	vp.Ensures("the list is what is stored", vp.Forall(0, len(l), func(k int) bool { return l[k] == ns.neighbors[k] }))
	vp.Ensures("the list is the caller's own", len(l) == 0 || vp.Fresh(&l[0]))
}

//gvc:prop C07
//gvc:locks
//gvc:schedule ctStressNeighbors
//gvc:target (*emerge/agent.NeighborStorage).Clear
func ctNeighborClear(ns *NeighborStorage) {
	vp.Requires(storageOK(ns))
	n := int(ns.count)
	vp.LoopInv("the first i are empty", func(i int) bool {
		return vp.Forall(0, i, func(k int) bool { return ns.neighbors[k] == nil })
	})
	ns.Clear()
	vp.OneCritical()
	vp.Ensures("nothing is left", ns.Count() == 0)
	vp.Ensures("freed slots keep no agent alive", vp.Forall(0, n, func(k int) bool { return ns.neighbors[k] == nil }))
	vp.Ensures("the storage stays in order", storageOK(ns))
}

// linked: the agent keeps its connections in order.
func linked(a *Agent) bool {
	return a != nil && (!a.useOptimizedNeighbors || storageOK(a.optimizedNeighbors))
}

//gvc:prop C07
//gvc:target (*emerge/agent.Agent).IsConnectedTo
func ctIsConnectedTo(a *Agent, id string) {
	vp.Requires(linked(a) && a.useOptimizedNeighbors)
	vp.LoopInv("not among the first i", func(i int) bool {
		return vp.Forall(0, i, func(k int) bool { return a.optimizedNeighbors.ids[k] != id })
	})
	vp.Ensures("connected means stored", a.IsConnectedTo(id) == holds(a.optimizedNeighbors, id))
}

//gvc:prop C07
//gvc:target (*emerge/agent.Agent).ConnectTo
func ctConnectTo(a *Agent, id string, other *Agent, third string) {
	vp.Requires(linked(a) && a.useOptimizedNeighbors && third != id)
	ns := a.optimizedNeighbors
	had, hadThird := holds(ns, id), holds(ns, third)
	full := int(ns.count) == ns.capacity
	n := ns.count
	vp.LoopInv("not among the first i", func(i int) bool {
		return vp.Forall(0, i, func(k int) bool { return ns.ids[k] != id })
	})
	a.ConnectTo(id, other)
	vp.Ensures("an agent never connects to nobody or to itself", other != nil && id != a.ID || holds(ns, id) == had && ns.count == n)
	vp.Ensures("a connected agent is a neighbor", other == nil || id == a.ID || full || ns.count > 0 && ns.ids[int(ns.count)-1] == id || holds(ns, id))
	vp.Ensures("the neighbor is the one given", other == nil || id == a.ID || vp.Forall(0, int(ns.count), func(k int) bool {
		return ns.ids[k] != id || ns.neighbors[k] == other
	}))
	vp.Ensures("other connections stay", holds(ns, third) == hadThird)
	vp.Ensures("connections stay in order", linked(a) && a.useOptimizedNeighbors && a.optimizedNeighbors == ns)
}

//gvc:prop C07
//gvc:target (*emerge/agent.Agent).DisconnectFrom
func ctDisconnectFrom(a *Agent, id string, third string) {
	vp.Requires(linked(a) && a.useOptimizedNeighbors && third != id)
	ns := a.optimizedNeighbors
	hadThird := holds(ns, third)
	vp.LoopInv("not among the first i", func(i int) bool {
		return vp.Forall(0, i, func(k int) bool { return ns.ids[k] != id })
	})
	a.DisconnectFrom(id)
	vp.Ensures("a disconnected agent is no neighbor", !holds(ns, id))
	vp.Ensures("other connections stay", holds(ns, third) == hadThird)
	vp.Ensures("connections stay in order", linked(a) && a.useOptimizedNeighbors && a.optimizedNeighbors == ns)
}

// With the plain map the same holds.
//
//gvc:prop C07
func ctConnectMap(a *Agent, id string, other *Agent, third string) {
	vp.Requires(a != nil && !a.useOptimizedNeighbors && third != id)
	had, hadThird := a.IsConnectedTo(id), a.IsConnectedTo(third)
	a.ConnectTo(id, other)
	vp.Ensures("connecting connects, unless to nobody or to itself", a.IsConnectedTo(id) == (had || other != nil && id != a.ID))
	vp.Ensures("other connections stay", a.IsConnectedTo(third) == hadThird)
	a.DisconnectFrom(id)
	vp.Ensures("disconnecting disconnects", !a.IsConnectedTo(id))
	vp.Ensures("other connections stay", a.IsConnectedTo(third) == hadThird)
}

//gvc:prop C07
//gvc:target (*emerge/agent.Agent).NeighborCount
func ctNeighborCount(a *Agent) {
	vp.Requires(linked(a))
	vp.LoopInv("visited so far", func(n, c int) bool { return n == c })
	opt := 0
	if a.useOptimizedNeighbors {
		opt = a.optimizedNeighbors.Count()
	}
	vp.Ensures("the number of neighbors is that of the fuller storage", a.NeighborCount() == max(opt, vp.SyncMapLen(&a.neighbors)))
}

// A new agent has no neighbors and room for some.
//
//gvc:prop C07
//gvc:mode bits
//gvc:use random.ctPhase random.ctDefaultFloat64
func ctNewLinked(id string) {
	a := New(id)
	vp.Ensures("a new agent has its connections in order", linked(a) && a.useOptimizedNeighbors)
	vp.Ensures("a new agent has no neighbors", a.optimizedNeighbors.Count() == 0)
}
