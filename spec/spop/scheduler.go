package spop

import "sync"

// ---- the work queue

// invQueue: the queue is well-formed whenever nobody holds its lock.
//
//@ monitor queue.lock prop=C11 guard=elems,head,tail,size
func invQueue(q *queue) bool {
	n := len(q.elems)
	return n > 0 && n < 1<<40 && q.size >= 0 && q.size <= n && q.head >= 0 && q.head < n && q.tail == spWrap(q.head+q.size, n) &&
		q.notEmptyCond != nil && q.notFullCond != nil && q.notEmptyCond != q.notFullCond &&
		q.notEmptyCond.L == sync.Locker(&q.lock) && q.notFullCond.L == sync.Locker(&q.lock)
}

//@ monitormod queue.lock
func modQueue(q *queue) {
	vMod(&q.head)
	vMod(&q.tail)
	vMod(&q.size)
	vModElems(q.elems)
}

// spWrap is x modulo n, for x below 2n.
func spWrap(x, n int) int {
	if x >= n {
		return x - n
	}
	return x
}

// spQueued is what waits at position i of the queue.
func spQueued(q *queue, i int) queueElem { return q.elems[spWrap(q.head+i, len(q.elems))] }

//@ requires newQueue
func reqNewQueue(cap int) bool { return cap > 0 && cap < 1<<40 }

//@ ensures newQueue prop=C11
func ensNewQueue(cap int, q *queue) bool {
	return q != nil && invQueue(q) && q.size == 0 && len(q.elems) == cap
}

//@ requires (*queue).Put
func reqPut(q *queue, f *frame, pc *protocolClient) bool {
	return q.notEmptyCond != nil && q.notFullCond != nil
}

//@ modifies (*queue).Put
func modPut(q *queue, f *frame, pc *protocolClient) {
	modQueue(q)
	vModGhost("signals", q.notEmptyCond)
	vModGhost("signals", q.notFullCond)
}

// One more element waits, at the back; a consumer is woken.
//
//@ ensures (*queue).Put prop=C11
func ensPut(q *queue, f *frame, pc *protocolClient) bool {
	n := vAcq(func() int { return q.size })
	cap := vAcq(func() int { return len(q.elems) })
	return n < cap && len(q.elems) == cap && q.size == n+1 && spQueued(q, n) == queueElem{f, pc} &&
		vForall(0, n, func(i int) bool { return spQueued(q, i) == vAcq(func() queueElem { return spQueued(q, i) }) }) &&
		vGhost("signals", q.notEmptyCond) != vOld(func() int { return vGhost("signals", q.notEmptyCond) })
}

//@ requires (*queue).Get
func reqGet(q *queue) bool { return q.notEmptyCond != nil && q.notFullCond != nil }

//@ modifies (*queue).Get
func modGet(q *queue) {
	modQueue(q)
	vModGhost("signals", q.notEmptyCond)
	vModGhost("signals", q.notFullCond)
}

// The front element is taken, the others stay; a producer is woken.
//
//@ ensures (*queue).Get prop=C11
func ensGet(q *queue, e queueElem) bool {
	n := vAcq(func() int { return q.size })
	cap := vAcq(func() int { return len(q.elems) })
	return n > 0 && len(q.elems) == cap && q.size == n-1 && e == vAcq(func() queueElem { return spQueued(q, 0) }) &&
		vForall(0, n-1, func(i int) bool { return spQueued(q, i) == vAcq(func() queueElem { return spQueued(q, i+1) }) }) &&
		vGhost("signals", q.notFullCond) != vOld(func() int { return vGhost("signals", q.notFullCond) })
}
