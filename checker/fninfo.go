package main

import (
	"fmt"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// FnInfo is what the interpreter knows about the shape of a function:
// register numbers, liveness, and the forest of natural loops.
type FnInfo struct {
	fn      *ssa.Function
	num     map[ssa.Value]int
	vals    []ssa.Value
	rpo     []*ssa.BasicBlock
	rpoIdx  []int
	liveIn  []bitset
	liveAft map[ssa.Instruction]bitset
	loopOf  []*Loop // innermost loop of a block
	loops   []*Loop
	irred   bool
}

type Loop struct {
	id     int
	head   *ssa.BasicBlock
	blocks map[int]bool
	parent *Loop
}

type bitset []uint64

func (b bitset) has(i int) bool { return b[i/64]&(1<<(i%64)) != 0 }
func (b bitset) set(i int)      { b[i/64] |= 1 << (i % 64) }
func (b bitset) clr(i int)      { b[i/64] &^= 1 << (i % 64) }
func (b bitset) clone() bitset  { return append(bitset(nil), b...) }
func (b bitset) or(c bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | c[i]
		if n != b[i] {
			ch = true
			b[i] = n
		}
	}
	return ch
}

func newFnInfo(fn *ssa.Function) *FnInfo {
	f := &FnInfo{fn: fn, num: map[ssa.Value]int{}, liveAft: map[ssa.Instruction]bitset{}}
	add := func(v ssa.Value) {
		f.num[v] = len(f.vals)
		f.vals = append(f.vals, v)
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// reverse post order from the entry and the recover block
	n := len(fn.Blocks)
	seen := make([]bool, n)
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if n == 0 {
		return f
	}
	if fn.Recover != nil {
		dfs(fn.Recover)
	}
	if !seen[0] {
		dfs(fn.Blocks[0])
	}
	f.rpoIdx = make([]int, n)
	for i := range f.rpoIdx {
		f.rpoIdx[i] = -1
	}
	for i := len(post) - 1; i >= 0; i-- {
		f.rpoIdx[post[i].Index] = len(f.rpo)
		f.rpo = append(f.rpo, post[i])
	}
	f.findLoops()
	f.liveness()
	return f
}

func (f *FnInfo) findLoops() {
	n := len(f.fn.Blocks)
	f.loopOf = make([]*Loop, n)
	byHead := map[int]*Loop{}
	for _, b := range f.rpo {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				if f.rpoIdx[s.Index] <= f.rpoIdx[b.Index] {
					f.irred = true
				}
				continue
			}
			l := byHead[s.Index]
			if l == nil {
				l = &Loop{head: s, blocks: map[int]bool{s.Index: true}}
				byHead[s.Index] = l
			}
			st := []*ssa.BasicBlock{b}
			for len(st) > 0 {
				x := st[len(st)-1]
				st = st[:len(st)-1]
				if l.blocks[x.Index] {
					continue
				}
				l.blocks[x.Index] = true
				st = append(st, x.Preds...)
			}
		}
	}
	for _, l := range byHead {
		f.loops = append(f.loops, l)
	}
	sort.Slice(f.loops, func(i, j int) bool {
		if len(f.loops[i].blocks) != len(f.loops[j].blocks) {
			return len(f.loops[i].blocks) > len(f.loops[j].blocks)
		}
		return f.loops[i].head.Index < f.loops[j].head.Index
	})
	for i, l := range f.loops {
		l.id = i
		l.parent = f.loopOf[l.head.Index]
		for b := range l.blocks {
			f.loopOf[b] = l
		}
	}
}

func (f *FnInfo) liveness() {
	w := (len(f.vals) + 63) / 64
	n := len(f.fn.Blocks)
	f.liveIn = make([]bitset, n)
	for i := range f.liveIn {
		f.liveIn[i] = make(bitset, w)
	}
	use := func(l bitset, v ssa.Value) {
		if i, ok := f.num[v]; ok {
			l.set(i)
		}
	}
	liveOut := func(b *ssa.BasicBlock) bitset {
		l := make(bitset, w)
		for _, s := range b.Succs {
			x := f.liveIn[s.Index].clone()
			// phis of s are defined on the edge
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				x.clr(f.num[ph])
			}
			l.or(x)
			for _, in := range s.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range s.Preds {
					if p == b {
						use(l, ph.Edges[k])
					}
				}
			}
		}
		return l
	}
	var ops []*ssa.Value
	walk := func(b *ssa.BasicBlock, rec bool) bitset {
		l := liveOut(b)
		for i := len(b.Instrs) - 1; i >= 0; i-- {
			in := b.Instrs[i]
			if rec {
				f.liveAft[in] = l.clone()
			}
			if ph, ok := in.(*ssa.Phi); ok {
				// live at the block's entry if used: phis count as entry values
				_ = ph
				continue
			}
			if v, ok := in.(ssa.Value); ok {
				l.clr(f.num[v])
			}
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if *o != nil {
					use(l, *o)
				}
			}
		}
		return l
	}
	for changed := true; changed; {
		changed = false
		for i := len(f.rpo) - 1; i >= 0; i-- {
			b := f.rpo[i]
			if f.liveIn[b.Index].or(walk(b, false)) {
				changed = true
			}
		}
	}
	// results named by the recover block live throughout
	if f.fn.Recover != nil {
		for _, b := range f.rpo {
			f.liveIn[b.Index].or(f.liveIn[f.fn.Recover.Index])
		}
	}
	for _, b := range f.rpo {
		walk(b, true)
		if f.fn.Recover != nil {
			for _, in := range b.Instrs {
				f.liveAft[in].or(f.liveIn[f.fn.Recover.Index])
			}
		}
	}
}

// prune drops registers that are not live.
func (st *State) prune(l bitset) {
	f := st.fr
	dirty := false
	for i, r := range f.regs {
		if r != nil && !l.has(i) {
			dirty = true
			break
		}
	}
	if !dirty {
		return
	}
	f = st.wFrame()
	for i := range f.regs {
		if f.regs[i] != nil && !l.has(i) {
			f.regs[i] = nil
		}
	}
}

func (l *Loop) String() string {
	return fmt.Sprintf("loop@%s#%d", l.head.Parent().Name(), l.head.Index)
}
