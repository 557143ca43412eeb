// Package vrt is the run-time of instrumented code: a scheduler that lets exactly one goroutine
// of a controlled session run at a time and decides at every instrumented operation who goes on,
// and a recorder of what the goroutines do. Outside a session all operations behave as the plain
// ones.
package vrt

import (
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"testing/synctest"
	"unsafe"

	"vh/gen"
)

// Used keeps imports used
var Used int

// Ev is one recorded event: A is interpreted according to K, see spec/TraceGor.tla
type Ev struct {
	T int // order
	K string
	A []int
}

const (
	stReady = iota // waits for the token
	stRun          // has the token
	stBlocked
	stDone
)

// G is a goroutine of the session
type G struct {
	id, call  int
	st        int
	park      chan struct{}
	depth     int
	maxDepth  int
	working   bool
	lastAcc   int
	prio      int
	seg       *segment
	accessed  bool
	shielded  bool // inside callback of the harness: no yields
	soloDepth int
	raw       bool // has written pointers as numbers
	lead      bool // calls the library
}

type segment struct {
	kind  []uint8 // 1 read, 2 write, 4 atomic, by location
	locs  []int32
	other map[uintptr]uint8
}

type region struct {
	lo, hi uintptr
	size   uintptr
	base   int // location of first element
	call   int
	ptrs   []uintptr // offsets of pointers in an element
}

// Config of a session
type Config struct {
	Seed     int64
	Strategy string // random, rr, pct, starve, sync, script, solo
	Switch   int    // random: mean steps between switches
	Depth    int    // pct: number of change points
	Steps    int    // pct: estimate of steps
	Budget   int    // maximum number of steps
	Record   bool   // record accesses
	Script   []int  // script: choices at synchronising operations
	ByID     bool   // script: goroutines in the order of their synchronising operations
	Uses     bool   // record uses of synchronisation objects
	MGTimes  []int  // steps at which MG is set
	MGVals   []uint64
	SetMG    func(uint64)
	Ignore   []string // global variables written by the harness
}

// S is a controlled session
type S struct {
	cfg      Config
	rng      *rand.Rand
	mu       sync.Mutex
	gs       []*G
	cur      *G
	ctl      chan struct{}
	abort    chan struct{}
	aborting bool
	evs      []Ev
	t        int
	step     int
	next     int // steps till the next decision
	regions  []region
	nloc     int
	objs     map[any]int
	chans    map[any]*chanInfo
	other    map[uintptr]*otherLoc
	keep     []any // so that addresses are not reused
	changeAt map[int]bool
	script   int
	followed int
	starved  int
	lowPrio  int
	mgi      int
	budget   int
	fair     bool
	Stuck    []int // goroutines that cannot go on
	Over     bool  // budget exhausted
	Panics   []string
	Choices  []Choice // script: what was possible at each synchronising operation
	unclean  bool
	syncStep bool
	touches  int
	running  bool
}

// Choice is a scheduling decision at a synchronising operation
type Choice struct {
	Ready []int
	Took  int
}

type chanInfo struct {
	id       int
	snd, rcv int
	fuzzy    bool
	cap      int
	ref      any
}

type otherLoc struct {
	loc   int
	first int
	multi bool
	ref   unsafe.Pointer // keeps the address from being reused
}

var s *S // the session, nil if none
var globs []globVar

type globVar struct {
	lo, hi uintptr
	name   string
	p      unsafe.Pointer
}

// Glob registers a package-level variable
func Glob[T any](p *T, name string) int {
	globs = append(globs, globVar{uintptr(unsafe.Pointer(p)), uintptr(unsafe.Pointer(p)) + unsafe.Sizeof(*p), name, unsafe.Pointer(p)})
	return 0
}

// New creates a session. To be called in a synctest bubble by the controlling goroutine.
func New(cfg Config) *S {
	n := &S{cfg: cfg, rng: gen.Rng(cfg.Seed), ctl: make(chan struct{}), abort: make(chan struct{}),
		objs: map[any]int{}, chans: map[any]*chanInfo{}, other: map[uintptr]*otherLoc{}, nloc: 1, starved: -1, budget: cfg.Budget}
	if cfg.Strategy == "pct" {
		n.changeAt = map[int]bool{}
		for i := 0; i < cfg.Depth; i++ {
			n.changeAt[1+n.rng.Intn(cfg.Steps)] = true
		}
	}
	if cfg.Strategy == "starve" {
		n.starved = n.rng.Intn(5)
	}
	n.newStretch()
	s = n
	return n
}

// Region registers memory of n elements that belongs to call, returns location of the first
func (s *S) Region(p unsafe.Pointer, size uintptr, n, call int, elem reflect.Type) int {
	b := s.nloc
	s.nloc += n
	if n > 0 {
		s.regions = append(s.regions, region{uintptr(p), uintptr(p) + size*uintptr(n), size, b, call, pointers(elem, 0, nil)})
	}
	return b
}

// pointers lists the offsets of pointers in a value of type t
func pointers(t reflect.Type, at uintptr, l []uintptr) []uintptr {
	switch t.Kind() {
	case reflect.Pointer, reflect.UnsafePointer, reflect.String, reflect.Slice, reflect.Chan, reflect.Map, reflect.Func:
		l = append(l, at)
	case reflect.Interface:
		l = append(l, at, at+unsafe.Sizeof(at))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			l = pointers(t.Field(i).Type, at+t.Field(i).Offset, l)
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			l = pointers(t.Elem(), at+uintptr(i)*t.Elem().Size(), l)
		}
	}
	return l
}

// raw notes that a T is written to a, where there are pointers, and whether it has none at the same
// places: the garbage collector does not see such a write
func raw[T any](p *T) {
	if s == nil || !s.running {
		return
	}
	a := uintptr(unsafe.Pointer(p))
	for i := range s.regions {
		r := &s.regions[i]
		if a < r.lo || a >= r.hi {
			continue
		}
		if len(r.ptrs) == 0 || s.cur.raw {
			return
		}
		switch any(p).(type) {
		case *string, *[]byte, *unsafe.Pointer:
			return
		}
		t := reflect.TypeFor[T]()
		has := pointers(t, 0, nil)
		at := (a - r.lo) % r.size
	next:
		for _, o := range r.ptrs {
			if o < at || o >= at+t.Size() {
				continue
			}
			for _, h := range has {
				if at+h == o {
					continue next
				}
			}
			s.cur.raw = true
			s.ev("raw", s.cur.id)
			return
		}
		return
	}
}

// Locs reserves n locations without memory (collections only accessed through callbacks)
func (s *S) Locs(n int) int {
	b := s.nloc
	s.nloc += n
	return b
}

func (s *S) ev(k string, a ...int) {
	s.t += 2
	s.evs = append(s.evs, Ev{s.t, k, a})
}

// Event records an event of the harness
func (s *S) Event(k string, a ...int) { s.ev(k, a...) }

func (s *S) newG(call int) *G {
	g := &G{id: len(s.gs) + 1, call: call, park: make(chan struct{}, 1), prio: s.rng.Intn(1 << 20)}
	if s.cfg.Record {
		g.seg = &segment{}
	}
	s.gs = append(s.gs, g)
	return g
}

// Call makes a new goroutine that runs f as call c. To be called before Run.
func (s *S) Call(c int, f func()) {
	g := s.newG(c)
	g.lead = true
	s.ev("root", g.id, c)
	s.start(g, f)
}

type abortSig struct{}

func (s *S) start(g *G, f func()) {
	go func() {
		<-g.park
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(abortSig); !ok {
					s.panicked(g, x)
				}
			}
			s.flush(g)
			s.idle(g)
			s.ev("exit", g.id, g.maxDepth)
			g.st = stDone
			s.ctl <- struct{}{}
		}()
		s.check(g)
		f()
	}()
}

func (s *S) panicked(g *G, x any) {
	buf := make([]byte, 4096)
	n := runtime.Stack(buf, false)
	s.Panics = append(s.Panics, fmt.Sprintf("%v\n%s", x, buf[:n]))
	s.ev("panic", g.id)
}

// check ends the goroutine if the session is being aborted
func (s *S) check(g *G) {
	if s.aborting {
		panic(abortSig{})
	}
}

// Run runs all goroutines till the end, to be called by the controlling goroutine
func (s *S) Run() {
	s.running = true
	for {
		synctest.Wait()
		var ready []*G
		var blocked []int
		for _, g := range s.gs {
			switch g.st {
			case stReady:
				ready = append(ready, g)
			case stBlocked:
				blocked = append(blocked, g.id)
			}
		}
		if len(ready) == 0 {
			if len(blocked) == 0 {
				break
			}
			if s.aborting {
				s.unclean = true
				break
			}
			s.Stuck = blocked
			s.ev("stuck", blocked...)
			s.aborting = true
			close(s.abort)
			continue
		}
		if len(s.Panics) > 0 && !s.aborting {
			s.aborting = true
			close(s.abort)
			continue
		}
		g := s.pick(ready, nil)
		g.st = stRun
		s.cur = g
		g.park <- struct{}{}
		<-s.ctl
	}
	s.ev("end")
	s.running = false
}

// Close ends the session
func (s_ *S) Close() { s = nil }

// Unclean is true if goroutines could not be ended
func (s *S) Unclean() bool { return s.unclean }

func (s *S) readyList() []*G {
	var r []*G
	for _, g := range s.gs {
		if g.st == stReady || g.st == stRun {
			r = append(r, g)
		}
	}
	return r
}

func (s *S) newStretch() {
	switch s.cfg.Strategy {
	case "random":
		s.next = 1 + int(s.rng.ExpFloat64()*float64(s.cfg.Switch))
	case "rr":
		s.next = 1
	case "starve":
		s.next = 1 + s.rng.Intn(1+s.cfg.Switch)
	default:
		s.next = 1 << 30
	}
	if s.fair {
		s.next = 3
	}
}

// pick chooses who goes on among the ready ones, cur (which may be nil) is one of them if it can
func (s *S) pick(ready []*G, cur *G) *G {
	if len(ready) == 1 && s.cfg.Strategy != "script" {
		s.newStretch()
		return ready[0]
	}
	defer s.newStretch()
	strat := s.cfg.Strategy
	if s.fair {
		strat = "rr"
	}
	switch strat {
	case "rr":
		// next one in cyclic order
		id := 0
		if s.cur != nil {
			id = s.cur.id
		}
		for _, g := range ready {
			if g.id > id {
				return g
			}
		}
		return ready[0]
	case "pct":
		b := ready[0]
		for _, g := range ready {
			if g.prio > b.prio {
				b = g
			}
		}
		return b
	case "starve":
		var o []*G
		for _, g := range ready {
			if g.id%5 != s.starved {
				o = append(o, g)
			}
		}
		if len(o) == 0 {
			o = ready
		}
		return o[s.rng.Intn(len(o))]
	case "script":
		if len(ready) == 1 {
			return ready[0]
		}
		c := Choice{}
		k := 0
		for i, g := range ready {
			c.Ready = append(c.Ready, g.id)
			if g == cur {
				k = i
			}
		}
		if s.cfg.ByID { // whoever comes first in the rest of the script
		first:
			for _, w := range s.cfg.Script {
				for i, g := range ready {
					if g.id == w {
						k = i
						break first
					}
				}
			}
		} else if s.script < len(s.cfg.Script) { // index among the ready ones
			k = (-1 - s.cfg.Script[s.script]) % len(ready)
		}
		s.script++
		c.Took = k
		s.Choices = append(s.Choices, c)
		return ready[k]
	case "lead": // the caller if possible, or who started last
		if ready[0].lead {
			return ready[0]
		}
		return ready[len(ready)-1]
	case "solo":
		if cur != nil {
			return cur
		}
		return ready[0]
	}
	return ready[s.rng.Intn(len(ready))]
}

// yield is called by the token holder before each operation
func (s *S) yield(syncOp bool) {
	s.step++
	g := s.cur
	if s.step > s.budget {
		s.overBudget(g)
	}
	for s.mgi < len(s.cfg.MGTimes) && s.cfg.MGTimes[s.mgi] <= s.step {
		v := s.cfg.MGVals[s.mgi]
		s.mgi++
		s.cfg.SetMG(v)
		s.ev("setmg", clampMG(v), s.touches)
	}
	s.next--
	if s.next > 0 && s.changeAt == nil && !(syncOp && (s.cfg.Strategy == "sync" || s.cfg.Strategy == "script")) {
		return
	}
	if s.changeAt != nil {
		if s.fair {
			if s.next > 0 {
				return
			}
		} else {
			if !s.changeAt[s.step] && !syncOp {
				return
			}
			if s.changeAt[s.step] {
				s.lowPrio--
				g.prio = s.lowPrio
			}
		}
	}
	s.switchTo(s.pick(s.readyList(), g), g)
	if syncOp && s.cfg.ByID {
		for i, w := range s.cfg.Script {
			if w == g.id {
				s.cfg.Script = append(s.cfg.Script[:i:i], s.cfg.Script[i+1:]...)
				s.followed++
				break
			}
		}
	}
}

func clampMG(v uint64) int {
	if v > 1000000 {
		return 1000000
	}
	return int(v)
}

func (s *S) switchTo(n, g *G) {
	if n == g {
		return
	}
	g.st = stReady
	n.st = stRun
	s.cur = n
	n.park <- struct{}{}
	<-g.park
	s.check(g)
}

func (s *S) overBudget(g *G) {
	if s.aborting {
		return
	}
	if !s.fair { // an unfair schedule may starve somebody for ever: be fair for a while
		s.fair = true
		s.budget = s.step + s.cfg.Budget
		s.newStretch()
		return
	}
	s.Over = true
	s.ev("over", g.id)
	s.aborting = true
	close(s.abort)
	panic(abortSig{})
}

// release gives the token to the controller, g goes on when chosen
func (s *S) settle(g *G) {
	g.st = stReady
	s.ctl <- struct{}{}
	<-g.park
	s.check(g)
}

// block runs op, which may block, without the token
func (s *S) block(g *G, op func()) {
	s.idle(g)
	g.st = stBlocked
	s.ctl <- struct{}{}
	op()
	s.mu.Lock()
	g.st = stReady
	s.mu.Unlock()
	<-g.park
	s.check(g)
}

// ---- recording ----

func (s *S) idle(g *G) {
	if g.working {
		g.working = false
		s.evs = append(s.evs, Ev{g.lastAcc + 1, "idle", []int{g.id}})
	}
}

func (s *S) work(g *G) {
	if !g.working {
		g.working = true
		s.ev("work", g.id)
	}
	s.t += 2
	g.lastAcc = s.t
}

// flush ends the current segment of g
func (s *S) flush(g *G) {
	sg := g.seg
	if sg == nil || (len(sg.locs) == 0 && len(sg.other) == 0) {
		return
	}
	e := Ev{K: "seg", A: []int{g.id}}
	for _, l := range sg.locs {
		e.A = append(e.A, int(l), int(sg.kind[l]))
		sg.kind[l] = 0
	}
	sg.locs = sg.locs[:0]
	for a, k := range sg.other {
		e.A = append(e.A, -int(s.other[a].loc), int(k))
	}
	sg.other = nil
	s.t += 2
	e.T = s.t
	s.evs = append(s.evs, e)
}

func (s *S) access(g *G, loc int, k uint8) {
	s.touches++
	if s.cfg.Record {
		sg := g.seg
		if loc >= len(sg.kind) {
			n := make([]uint8, s.nloc+1)
			copy(n, sg.kind)
			sg.kind = n
		}
		if sg.kind[loc] == 0 {
			sg.locs = append(sg.locs, int32(loc))
		}
		sg.kind[loc] |= k
	}
	s.work(g)
}

func (s *S) accessOther(g *G, p unsafe.Pointer, k uint8) {
	if !s.cfg.Record {
		return
	}
	a := uintptr(p)
	o := s.other[a]
	if o == nil {
		o = &otherLoc{loc: len(s.other) + 1, first: g.id, ref: p}
		s.other[a] = o
	}
	if o.first != g.id {
		o.multi = true
	}
	if g.seg.other == nil {
		g.seg.other = map[uintptr]uint8{}
	}
	g.seg.other[a] |= k
}

var sink unsafe.Pointer // makes what is accessed escape, so that addresses are not reused

func acc(p unsafe.Pointer, k uint8) {
	if s == nil || !s.running {
		return
	}
	sink = p
	a := uintptr(p)
	for i := range s.regions {
		r := &s.regions[i]
		if a >= r.lo && a < r.hi {
			s.yield(false)
			s.access(s.cur, r.base+int((a-r.lo)/r.size), k)
			return
		}
	}
	s.yield(false)
	for _, n := range globs {
		if a >= n.lo && a < n.hi {
			gacc(n.p, n.name, k)
			return
		}
	}
	s.accessOther(s.cur, p, k)
}

func gacc(p unsafe.Pointer, name string, k uint8) {
	for _, n := range s.cfg.Ignore {
		if n == name {
			if k&2 != 0 {
				s.ev("setting", s.cur.id)
			}
			return
		}
	}
	s.accessOther(s.cur, p, k)
}

// Access is called by callbacks of the harness: an access to a location of the collection
func (s *S) Access(loc int, write bool) {
	k := uint8(1)
	if write {
		k = 2
	}
	s.access(s.cur, loc, k)
}

// Ret records the return of call c with the given results
func (s *S) Ret(c int, a ...int) {
	g := s.cur
	s.flush(g)
	s.idle(g)
	s.ev("ret", append([]int{g.id, c}, a...)...)
}

// Finish returns the events in order and, by number, the locations outside the regions that were
// accessed by several goroutines
func (s *S) Finish() []Ev {
	multi := map[int]bool{}
	for _, o := range s.other {
		if o.multi {
			multi[o.loc] = true
		}
	}
	sort.SliceStable(s.evs, func(i, k int) bool { return s.evs[i].T < s.evs[k].T })
	out := s.evs[:0]
	for _, e := range s.evs {
		if e.K == "seg" {
			a := e.A[:1]
			for i := 1; i < len(e.A); i += 2 {
				if e.A[i] > 0 || multi[-e.A[i]] {
					a = append(a, e.A[i], e.A[i+1])
				}
			}
			if len(a) == 1 {
				continue
			}
			e.A = a
		}
		out = append(out, e)
	}
	return out
}

// Yield is called by callbacks of the harness
func (s *S) Yield() {
	if s.running {
		s.yield(false)
	}
}

// Cur returns the running goroutine
func (s *S) Cur() int { return s.cur.id }

// Objs returns the number of synchronisation objects
func (s *S) Objs() int { return len(s.objs) }

// Touches returns the number of element accesses so far
func (s *S) Touches() int { return s.touches }

// Steps returns the number of steps so far
func (s *S) Steps() int { return s.step }

// obj returns the number of a synchronisation object
func (s *S) obj(k any) int {
	n := s.objs[k]
	if n == 0 {
		n = len(s.objs) + 1
		s.objs[k] = n
	}
	return n
}

func (s *S) rel(g *G, o int) { s.flush(g); s.ev("rel", g.id, o) }
func (s *S) acq(g *G, o int) { s.flush(g); s.ev("acq", g.id, o) }

// ---- operations ----

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// R is s[i] as a value
func R[T any, I integer](x []T, i I) T {
	p := &x[i]
	acc(unsafe.Pointer(p), 1)
	return *p
}

// W is &s[i], about to be written
func W[T any, I integer](x []T, i I) *T {
	p := &x[i]
	acc(unsafe.Pointer(p), 2)
	raw(p)
	return p
}

// RW is &s[i], about to be updated
func RW[T any, I integer](x []T, i I) *T {
	p := &x[i]
	acc(unsafe.Pointer(p), 3)
	raw(p)
	return p
}

// PR is *p
func PR[T any](p *T) T {
	acc(unsafe.Pointer(p), 1)
	return *p
}

// PW is p, *p is about to be written
func PW[T any](p *T) *T {
	acc(unsafe.Pointer(p), 2)
	raw(p)
	return p
}

// Range reads all elements
func Range[T any](x []T) []T {
	for i := range x {
		acc(unsafe.Pointer(&x[i]), 1)
	}
	return x
}

// Clear writes all elements
func Clear[T any](x []T) []T {
	for i := range x {
		raw(&x[i])
		acc(unsafe.Pointer(&x[i]), 2)
	}
	return x
}

// WriteAll is for copy
func WriteAll[T any, U any](x []T, y U) []T {
	n := reflect.ValueOf(y).Len()
	for i := 0; i < len(x) && i < n; i++ {
		raw(&x[i])
		acc(unsafe.Pointer(&x[i]), 2)
	}
	if v, ok := any(y).([]T); ok {
		for i := 0; i < len(x) && i < n; i++ {
			acc(unsafe.Pointer(&v[i]), 1)
		}
	}
	return x
}

func gfield(p unsafe.Pointer, name string, k uint8) {
	if s == nil || !s.running {
		return
	}
	sink = p
	s.yield(false)
	gacc(p, name, k)
}

// GR reads a package-level variable or a field
func GR[T any](p *T, name string) T { gfield(unsafe.Pointer(p), name, 1); return *p }

// GW is about to write it
func GW[T any](p *T, name string) *T { gfield(unsafe.Pointer(p), name, 2); return p }

// GRW is about to update it
func GRW[T any](p *T, name string) *T { gfield(unsafe.Pointer(p), name, 3); return p }

// Pre comes before an atomic operation on p
func Pre[P any](p *P) *P {
	if s == nil || !s.running {
		return p
	}
	s.yield(true)
	change := true
	switch any(p).(type) {
	case *sync.Once, *sync.Pool: // are meant to be shared
		change = false
	}
	s.atomicOn(unsafe.Pointer(p), change)
	return p
}

// PreLoad comes before an atomic operation on p that changes nothing
func PreLoad[P any](p *P) *P {
	if s == nil || !s.running {
		return p
	}
	s.yield(true)
	s.atomicOn(unsafe.Pointer(p), false)
	return p
}

// use notes that g uses synchronisation object o
func (s *S) use(g *G, o int, change bool) {
	if s.cfg.Uses {
		c := 0
		if change {
			c = 1
		}
		s.ev("use", g.id, o, c)
	}
}

func (s *S) atomicOn(p unsafe.Pointer, change bool) {
	sink = p
	g := s.cur
	o := s.obj(uintptr(p))
	s.accessOther(g, p, 4)
	s.use(g, o, change)
	s.acq(g, o)
	s.rel(g, o)
}

// Sync is an operation of a synchronisation object in progress
type Sync struct {
	s *S
	g *G
	o int
}

// SyncPre comes before an operation that may block
func SyncPre[P any](p *P) Sync {
	if s == nil || !s.running {
		return Sync{}
	}
	s.yield(true)
	g := s.cur
	o := s.obj(uintptr(unsafe.Pointer(p)))
	s.keep = append(s.keep, p)
	s.use(g, o, true)
	s.rel(g, o)
	s.idle(g)
	g.st = stBlocked
	s.ctl <- struct{}{}
	return Sync{s, g, o}
}

// Done comes after it
func (y Sync) Done() {
	if y.s == nil {
		return
	}
	y.g.st = stReady
	<-y.g.park
	y.s.check(y.g)
	y.s.acq(y.g, y.o)
	y.s.rel(y.g, y.o)
}

type tryLocker interface{ TryLock() bool }
type tryRLocker interface{ TryRLock() bool }

func lock(p any, try func() bool, real func()) {
	if s == nil || !s.running {
		real()
		return
	}
	s.yield(true)
	g := s.cur
	o := s.obj(reflect.ValueOf(p).Pointer())
	s.keep = append(s.keep, p)
	s.use(g, o, true)
	s.rel(g, o)
	for n := 0; !try(); n++ {
		s.idle(g)
		// somebody else has to go on
		var r []*G
		for _, x := range s.gs {
			if x.st == stReady {
				r = append(r, x)
			}
		}
		s.step++
		if s.step > s.budget {
			s.overBudget(g)
		}
		if len(r) == 0 {
			s.settle(g)
			continue
		}
		s.switchTo(r[s.rng.Intn(len(r))], g)
	}
	s.acq(g, o)
}

// Lock locks a mutex
func Lock(p interface{ Lock() }) {
	if t, ok := p.(tryLocker); ok {
		lock(p, t.TryLock, p.Lock)
		return
	}
	p.Lock()
}

// RLock locks a mutex for reading
func RLock(p interface{ RLock() }) {
	if t, ok := p.(tryRLocker); ok {
		lock(p, t.TryRLock, p.RLock)
		return
	}
	p.RLock()
}

// Go starts a goroutine
func Go(f func()) {
	if s == nil || !s.running {
		go f()
		return
	}
	s.yield(true)
	p := s.cur
	s.flush(p)
	g := s.newG(p.call)
	s.ev("spawn", p.id, g.id)
	s.start(g, f)
	s.yield(true)
}

// WgGo is (*sync.WaitGroup).Go
func WgGo(w *sync.WaitGroup, f func()) {
	w.Add(1)
	Go(func() {
		defer func() {
			t := SyncPre(w)
			w.Done()
			t.Done()
		}()
		f()
	})
}

// MakeChan notes the creation of a channel
func MakeChan[T any](ch chan T) chan T {
	if s != nil && s.running {
		s.ev("chan", s.cur.id)
		s.info(ch, cap(ch))
	}
	return ch
}

func (s *S) info(ch any, c int) *chanInfo {
	k := reflect.ValueOf(ch).Pointer()
	i := s.chans[k]
	if i == nil {
		i = &chanInfo{id: len(s.chans) + 1, cap: c, ref: ch}
		s.chans[k] = i
	}
	return i
}

type chanKey struct {
	ch, k int
	back  bool
}

// Send sends v
func Send[T any](ch chan<- T, v T) {
	if s == nil || !s.running {
		ch <- v
		return
	}
	s.yield(true)
	s, g := s, s.cur
	i := s.info(ch, cap(ch))
	i.snd++
	k := i.snd
	s.use(g, s.obj(chanKey{i.id, 0, false}), true)
	s.rel(g, s.obj(chanKey{i.id, k, false}))
	s.rel(g, s.obj(chanKey{i.id, 0, false}))
	select {
	case ch <- v:
		s.settle(g)
	default:
		s.block(g, func() {
			select {
			case ch <- v:
			case <-s.abort:
			}
		})
	}
	if k > i.cap {
		s.acq(g, s.obj(chanKey{i.id, k - i.cap, true}))
	}
	if i.fuzzy {
		s.acq(g, s.obj(chanKey{i.id, 0, false}))
	}
}

// Recv2 receives
func Recv2[T any](ch <-chan T) (v T, ok bool) {
	if s == nil || !s.running {
		v, ok = <-ch
		return
	}
	s.yield(true)
	s, g := s, s.cur
	i := s.info(ch, cap(ch))
	i.rcv++
	k := i.rcv
	s.use(g, s.obj(chanKey{i.id, 0, false}), true)
	s.rel(g, s.obj(chanKey{i.id, k, true}))
	s.rel(g, s.obj(chanKey{i.id, 0, false}))
	select {
	case v, ok = <-ch:
		s.settle(g)
	default:
		s.block(g, func() {
			select {
			case v, ok = <-ch:
			case <-s.abort:
			}
		})
	}
	s.acq(g, s.obj(chanKey{i.id, k, false}))
	if i.fuzzy || !ok {
		s.acq(g, s.obj(chanKey{i.id, 0, false}))
	}
	return
}

// Recv receives
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close closes ch
func Close[T any](ch chan<- T) {
	if s == nil || !s.running {
		close(ch)
		return
	}
	s.yield(true)
	g := s.cur
	i := s.info(ch, cap(ch))
	s.rel(g, s.obj(chanKey{i.id, 0, false}))
	close(ch)
	s.settle(g)
}

// Sel is a select statement in progress
type Sel struct {
	s *S
	g *G
	o []int
}

// Select comes before a select statement
func Select(chs ...any) Sel {
	if s == nil || !s.running {
		return Sel{}
	}
	s.yield(true)
	x := Sel{s: s, g: s.cur}
	for _, ch := range chs {
		v := reflect.ValueOf(ch)
		if v.IsNil() {
			continue
		}
		i := s.info(ch, v.Cap())
		i.fuzzy = true
		o := s.obj(chanKey{i.id, 0, false})
		s.use(x.g, o, true)
		x.o = append(x.o, o)
		s.rel(x.g, o)
	}
	s.idle(x.g)
	x.g.st = stBlocked
	s.ctl <- struct{}{}
	return x
}

// Done comes first in each of its branches
func (x Sel) Done() {
	if x.s == nil {
		return
	}
	x.g.st = stReady
	<-x.g.park
	x.s.check(x.g)
	for _, o := range x.o {
		x.s.acq(x.g, o)
	}
}

// Enter comes first in each function, its result last
func Enter() func() {
	if s == nil || !s.running {
		return nop
	}
	g := s.cur
	g.depth++
	if g.depth > g.maxDepth {
		g.maxDepth = g.depth
	}
	return g.leave
}

func (g *G) leave() { g.depth-- }

func nop() {}

// ResetDepth starts a new depth measurement on the running goroutine
func (s *S) ResetDepth() { s.cur.maxDepth = s.cur.depth }

// Depth of the running goroutine since then
func (s *S) Depth() int { return s.cur.maxDepth }
