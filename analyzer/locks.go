package main

import (
	"fmt"
	"sort"
)

// Lock-set analysis: every location reachable from package-level variables (the chip registry and
// the chips it holds) that is written after publication must be guarded by a common lock, and a
// read-modify-write of a map or list must happen inside one critical section.

type heldLock struct {
	c    *Cell
	read bool
	cs   int
}

type access struct {
	write bool
	locks []heldLock
	pos   string
	inMap bool // read that is part of a map store
}

type lockTrace struct {
	acc map[*Cell][]*access
}

func (it *Interp) initSpecLocks(M func(string, intrinsic), str func(V) string) {
	M("WatchShared", func(c *callCtx) V {
		it.markGlobals()
		it.locks = &lockTrace{acc: map[*Cell][]*access{}}
		it.watch = func(cell *Cell, write bool) {
			if it.locks == nil {
				return
			}
			a := &access{write: write, locks: append(append([]heldLock{}, it.held...), it.passed...), pos: it.where(), inMap: it.inMapSet && !write}
			it.locks.acc[cell] = append(it.locks.acc[cell], a)
		}
		return nil
	})
	M("Publish", func(c *callCtx) V {
		w := it.watch
		it.watch = nil
		it.markGlobals()
		it.watch = w
		return nil
	})
	M("LockReport", func(c *callCtx) V {
		it.watch = nil
		tag := str(c.args[0])
		tr := it.locks
		it.locks = nil
		var cells []*Cell
		for cell, l := range tr.acc {
			for _, a := range l {
				if a.write {
					cells = append(cells, cell)
					break
				}
			}
		}
		sort.Slice(cells, func(i, j int) bool { return cells[i].id < cells[j].id })
		n := 0
		for _, cell := range cells {
			n++
			it.run.checks++
			l := tr.acc[cell]
			var common map[*Cell]bool
			bad := ""
			for _, a := range l {
				cur := map[*Cell]bool{}
				for _, h := range a.locks {
					if !a.write || !h.read {
						cur[h.c] = true
					}
				}
				if common == nil {
					common = cur
				} else {
					for k := range common {
						if !cur[k] {
							delete(common, k)
						}
					}
				}
				if len(common) == 0 && bad == "" {
					bad = a.pos
				}
			}
			name := cell.name
			if name == "" {
				name = cell.t.String()
			}
			if len(common) == 0 {
				it.violateAt(tag, fmt.Sprintf("shared state %s is written without a lock that guards all its accesses", name), bad)
				continue
			}
			// read-modify-write inside one critical section
			for i, a := range l {
				if !a.write {
					continue
				}
				ok, anyRead := false, false
				for j := 0; j < i; j++ {
					b := l[j]
					if b.write || b.inMap {
						continue
					}
					anyRead = true
					for _, h := range a.locks {
						for _, g := range b.locks {
							if h.c == g.c && h.cs == g.cs && common[h.c] {
								ok = true
							}
						}
					}
				}
				if anyRead && !ok && isContainer(cell) {
					it.violateAt(tag, fmt.Sprintf("shared state %s is updated in a critical section that did not read it (check and update are not atomic)", name), a.pos)
					break
				}
			}
		}
		return I(n)
	})
}

// dropOnce forgets which sync.Once values were passed: the next entry into the repository may
// happen on another goroutine.
func (it *Interp) dropOnce() { it.passed = nil }

func isContainer(c *Cell) bool {
	switch c.val.(type) {
	case *mapVal, Slice:
		return true
	}
	return false
}
