// Package zzsched is put into the instrumented copy of the module under test.
// Every statement of the copy calls P first, every package variable is
// registered with Reg, and sync is replaced by zzsched/zsync.
//
// Outside an exploration P only counts. In an exploration it is a scheduling
// point: exactly one thread runs at a time, and who runs next is decided by
// the prefix of choices being replayed, then by "go on with the same thread".
package zzsched

import (
	"fmt"
	"reflect"
	"runtime"
	"unsafe"
)

// ---- counting ----

// Steps counts executed statements, Work bytes moved by copy.
var Steps int64

// Limit, if not 0, is the number of steps after which P panics with ErrLimit.
var Limit int64

type limitError struct{}

func (limitError) Error() string { return "too many steps" }

// ErrLimit is the panic of a run that exceeds Limit.
var ErrLimit error = limitError{}

// Counting turns on Steps; only for one goroutine.
var Counting bool

// W adds the size of a copy to the work done.
func W(n int) int {
	if Counting {
		Steps += int64(n) / 8
	}
	return n
}

// Z adds the size of an append to the work done, and is 0.
func Z(n int) int {
	W(n)
	return 0
}

// Hook, if set, is called at every statement outside an exploration.
var Hook func(id int32)

// ---- exploration ----

// Visits is how often one thread may stop at the same point during one op.
var Visits int64 = 3

// Point is one scheduling point of an execution.
type Point struct {
	Enabled  []int // threads that could go on, the running one first if it can
	Choice   int   // index into Enabled
	Running  int   // who ran, -1 at the start
	CanGoOn  bool  // the running thread was enabled
	ID       int32 // where it stands
	Preempts int   // preemptions before this point
}

type thread struct {
	id     int
	turn   chan struct{}
	done   bool
	wait   func() bool // nil, or the condition it waits for
	visits []int64     // per point: the op and how often it stopped there in it
	op     int64
	spin   int64
}

type exec struct {
	threads []*thread
	cur     *thread
	prefix  []int
	points  []Point
	fin     chan struct{}
	steps   int64
	pre     int
	dead    bool
	why     string
	diverge bool
}

var ex *exec // nil outside an exploration

// Horizon is the number of steps after which an execution counts as endless.
var Horizon int64 = 20000000

// ForceAfter is how many steps a thread may make without stopping before it
// has to let others run (a loop waiting for another thread).
var ForceAfter int64 = 3000000

// P is called before every statement.
func P(id int32) {
	if ex == nil {
		if Hook != nil {
			Hook(id)
		}
		if Counting {
			Steps++
			if Limit > 0 && Steps > Limit {
				panic(ErrLimit)
			}
		}
		return
	}
	x := ex
	t := x.cur
	x.steps++
	t.spin++
	if x.steps > Horizon {
		x.kill("no end after so many steps: livelock")
	}
	if t.spin > ForceAfter {
		t.spin = 0
		x.point(t, id, true)
		return
	}
	n := t.visits[id]
	if n>>8 != t.op {
		n = t.op << 8
	}
	if n&0xFF >= Visits {
		return
	}
	t.visits[id] = n + 1
	x.point(t, id, false)
}

// kill ends the execution: every thread stays where it is for ever.
func (x *exec) kill(why string) {
	if !x.dead {
		x.dead = true
		x.why = why
		close(x.fin)
	}
	runtime.Goexit()
}

func (x *exec) enabled(first *thread) (l []int, firstOn bool) {
	if first != nil && !first.done && (first.wait == nil || first.wait()) {
		l = append(l, first.id)
		firstOn = true
	}
	for _, t := range x.threads {
		if t != first && !t.done && (t.wait == nil || t.wait()) {
			l = append(l, t.id)
		}
	}
	return
}

// point decides who runs next.
func (x *exec) point(t *thread, id int32, force bool) {
	l, on := x.enabled(t)
	if len(l) == 0 {
		all := true
		for _, o := range x.threads {
			all = all && o.done
		}
		if all {
			x.dead = true
			close(x.fin)
			return
		}
		x.kill("deadlock: every thread waits")
	}
	if force && len(l) > 1 && on {
		l = append(l[1:], l[0])
		on = false
	}
	k := 0
	if len(l) > 1 {
		i := len(x.points)
		if i < len(x.prefix) {
			k = x.prefix[i]
			if k >= len(l) {
				x.diverge = true
				x.kill("replaying a prefix of choices took another course")
			}
		}
		run := -1
		if t != nil {
			run = t.id
		}
		x.points = append(x.points, Point{Enabled: l, Choice: k, Running: run, CanGoOn: on, ID: id, Preempts: x.pre})
		if on && k > 0 {
			x.pre++
		}
	}
	next := x.threads[l[k]]
	if next == t {
		return
	}
	x.cur = next
	next.spin = 0
	next.turn <- struct{}{}
	if t != nil && !t.done {
		<-t.turn
		if x.dead {
			runtime.Goexit()
		}
	}
}

// Wait blocks the running thread until cond holds. Outside an exploration it
// must hold already.
func Wait(cond func() bool) {
	if ex == nil {
		if !cond() {
			panic("zzsched: wait without an exploration")
		}
		return
	}
	t := ex.cur
	if !cond() {
		t.wait = cond
		ex.point(t, -1, false)
		t.wait = nil
	}
}

// NewOp starts the next op of the running thread: its points count afresh.
func NewOp() {
	if ex == nil {
		return
	}
	t := ex.cur
	t.op++
	ex.point(t, -2, false)
}

// Result of one execution.
type Result struct {
	Points  []Point
	Bad     string // deadlock, livelock
	Diverge bool
	Steps   int64
}

// Run executes the bodies under the schedule that starts with prefix.
func Run(prefix []int, bodies []func()) Result {
	x := &exec{prefix: prefix, fin: make(chan struct{})}
	for i, b := range bodies {
		t := &thread{id: i, turn: make(chan struct{}, 1), visits: make([]int64, len(Pos)), op: 1}
		x.threads = append(x.threads, t)
		b := b
		go func() {
			<-t.turn
			if x.dead {
				return
			}
			b()
			t.done = true
			x.point(t, -3, false)
		}()
	}
	ex = x
	x.point(nil, -4, false)
	<-x.fin
	ex = nil
	return Result{Points: x.points, Bad: x.why, Diverge: x.diverge, Steps: x.steps}
}

// Self is the running thread, -1 outside an exploration.
func Self() int {
	if ex == nil {
		return -1
	}
	return ex.cur.id
}

// ---- package variables ----

type regVar struct {
	name string
	v    reflect.Value // the variable
	snap reflect.Value // a deep copy of its first value
	big  int
}

var vars []*regVar

// Reg registers a package variable; p points to it.
func Reg(name string, p interface{}) {
	vars = append(vars, &regVar{name: name, v: reflect.ValueOf(p).Elem()})
}

// Vars names the registered variables.
func Vars() (l []string) {
	for _, r := range vars {
		l = append(l, fmt.Sprintf("%s %s (%d parts)", r.name, r.v.Type(), r.big))
	}
	return
}

// Snapshot remembers the value of every registered variable.
func Snapshot() {
	for _, r := range vars {
		c := &copier{seen: map[ptrKey]reflect.Value{}}
		// a value of its own: copy gives nil, numbers and the like back as
		// they are, which would be the variable itself
		n := reflect.New(r.v.Type()).Elem()
		n.Set(c.copy(r.v))
		r.snap = n
		r.big = c.n
	}
}

const bigVar = 2000

// Restore sets every registered variable to its first value; big ones only if
// all is set. It says how much that was.
func Restore(all bool) (n int) {
	for _, r := range vars {
		if r.big > bigVar && !all {
			continue
		}
		c := &copier{seen: map[ptrKey]reflect.Value{}}
		access(r.v).Set(c.copy(r.snap))
		n += c.n
	}
	return
}

// SmallChanged names a variable that is not big and differs from its first
// value.
func SmallChanged() string {
	for _, r := range vars {
		if r.big <= bigVar && !same(r.v, r.snap, map[ptrKey]bool{}) {
			return r.name
		}
	}
	return ""
}

// BigChanged names a big variable that differs from its first value.
func BigChanged() string {
	for _, r := range vars {
		if r.big > bigVar && !same(r.v, r.snap, map[ptrKey]bool{}) {
			return r.name
		}
	}
	return ""
}

type ptrKey struct {
	p uintptr
	t reflect.Type
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

type copier struct {
	seen map[ptrKey]reflect.Value
	n    int
}

// access makes a value usable though it came through unexported fields.
func access(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if v.CanInterface() {
		return v
	}
	// not addressable and unexported: go through a copy
	return v
}

func (c *copier) copy(v reflect.Value) reflect.Value {
	c.n++
	v = access(v)
	t := v.Type()
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		k := ptrKey{v.Pointer(), t}
		if o, ok := c.seen[k]; ok {
			return o
		}
		if foreign(t.Elem()) {
			return v
		}
		n := reflect.New(t.Elem())
		c.seen[k] = n
		n.Elem().Set(c.copy(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		if t.Implements(errType) {
			return v // compared by identity
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr && foreign(e.Type().Elem()) {
			return v
		}
		n := reflect.New(t).Elem()
		n.Set(c.copy(e))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		k := ptrKey{v.Pointer() ^ uintptr(v.Cap())<<48, t}
		if o, ok := c.seen[k]; ok && o.Cap() >= v.Len() && o.Cap() == v.Cap() {
			return o.Slice(0, v.Len())
		}
		// up to the capacity, which a scratch buffer reuses
		full := v.Slice(0, v.Cap())
		n := reflect.MakeSlice(t, v.Cap(), v.Cap())
		if plain(t.Elem()) {
			reflect.Copy(n, full)
			c.n += v.Cap()
		} else {
			for i := 0; i < v.Cap(); i++ {
				n.Index(i).Set(c.copy(full.Index(i)))
			}
		}
		c.seen[k] = n
		return n.Slice(0, v.Len())
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		k := ptrKey{v.Pointer(), t}
		if o, ok := c.seen[k]; ok {
			return o
		}
		n := reflect.MakeMapWithSize(t, v.Len())
		c.seen[k] = n
		it := v.MapRange()
		for it.Next() {
			n.SetMapIndex(it.Key(), c.copy(it.Value()))
		}
		return n
	case reflect.Struct:
		n := reflect.New(t).Elem()
		n.Set(v)
		if plain(t) {
			return n
		}
		if !v.CanAddr() {
			a := reflect.New(t).Elem()
			a.Set(v)
			v = a
		}
		for i := 0; i < t.NumField(); i++ {
			access(n.Field(i)).Set(c.copy(v.Field(i)))
		}
		return n
	case reflect.Array:
		n := reflect.New(t).Elem()
		n.Set(v)
		if plain(t.Elem()) {
			c.n += v.Len()
			return n
		}
		if !v.CanAddr() {
			a := reflect.New(t).Elem()
			a.Set(v)
			v = a
		}
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(c.copy(v.Index(i)))
		}
		return n
	}
	return v // plain, func, chan
}

// plain types hold no references (strings do not count, they never change).
func plain(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
		return false
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if !plain(t.Field(i).Type) {
				return false
			}
		}
		return true
	case reflect.Array:
		return plain(t.Elem())
	}
	return true
}

// foreign types belong to other modules: what they point to is not copied,
// as identity may matter (errors).
func foreign(t reflect.Type) bool {
	p := t.PkgPath()
	return p != "" && !own(p)
}

func own(p string) bool {
	const m = "github.com/suapapa/go_hangul"
	return len(p) >= len(m) && p[:len(m)] == m
}

func same(a, b reflect.Value, seen map[ptrKey]bool) bool {
	a, b = access(a), access(b)
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if foreign(a.Type().Elem()) {
			return a.Pointer() == b.Pointer()
		}
		k := ptrKey{a.Pointer(), a.Type()}
		if seen[k] {
			return true
		}
		seen[k] = true
		return same(a.Elem(), b.Elem(), seen)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Type().Implements(errType) {
			return true
		}
		if a.Elem().Type() != b.Elem().Type() {
			return false
		}
		return same(a.Elem(), b.Elem(), seen)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), seen) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), seen) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		it := a.MapRange()
		for it.Next() {
			o := b.MapIndex(it.Key())
			if !o.IsValid() || !same(it.Value(), o, seen) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), seen) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	}
	return true
}
