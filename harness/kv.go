package main

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	rcdb "github.com/sourcenetwork/raccoondb"
)

// ---------------------------------------------------------------- map store

// mapKV is a plain ordered key-value store whose contents can be snapshotted and cloned.
// Iterators work on the snapshot taken when they were created.
type mapKV struct {
	mu     sync.RWMutex
	m      map[string][]byte
	sorted atomic.Pointer[[]string] // the keys in order; nil after a key came or went
}

func newMapKV() *mapKV { return &mapKV{m: map[string][]byte{}} }

func (k *mapKV) clone() *mapKV { return &mapKV{m: k.snapshot()} }

func (k *mapKV) snapshot() map[string][]byte {
	k.mu.RLock()
	defer k.mu.RUnlock()
	c := make(map[string][]byte, len(k.m))
	for a, b := range k.m {
		c[a] = append([]byte(nil), b...)
	}
	return c
}

func (k *mapKV) Get(key []byte) ([]byte, error) {
	k.mu.RLock()
	defer k.mu.RUnlock()
	v, ok := k.m[string(key)]
	if !ok {
		return nil, nil
	}
	return append([]byte{}, v...), nil
}

func (k *mapKV) Has(key []byte) (bool, error) {
	k.mu.RLock()
	defer k.mu.RUnlock()
	_, ok := k.m[string(key)]
	return ok, nil
}

func (k *mapKV) Set(key, val []byte) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	if _, ok := k.m[string(key)]; !ok {
		k.sorted.Store(nil)
	}
	k.m[string(key)] = append([]byte{}, val...)
	return nil
}

func (k *mapKV) Delete(key []byte) error {
	k.mu.Lock()
	defer k.mu.Unlock()
	if _, ok := k.m[string(key)]; ok {
		k.sorted.Store(nil)
	}
	delete(k.m, string(key))
	return nil
}

func (k *mapKV) Iterator(start, end []byte) rcdb.Iterator {
	k.mu.RLock()
	defer k.mu.RUnlock()
	keys := k.sorted.Load()
	if keys == nil {
		ks := make([]string, 0, len(k.m))
		for key := range k.m {
			ks = append(ks, key)
		}
		sort.Strings(ks)
		keys = &ks
		k.sorted.Store(keys)
	}
	from, to := 0, len(*keys)
	if start != nil {
		from = sort.SearchStrings(*keys, string(start))
	}
	if end != nil {
		to = sort.SearchStrings(*keys, string(end))
	}
	it := &mapIter{}
	for i := from; i < to; i++ {
		it.kv = append(it.kv, [2][]byte{[]byte((*keys)[i]), k.m[(*keys)[i]]})
	}
	return it
}

type mapIter struct {
	kv     [][2][]byte
	i      int
	closed bool
}

func (i *mapIter) Valid() bool   { return i.i < len(i.kv) }
func (i *mapIter) Next()         { i.i++ }
func (i *mapIter) Key() []byte   { return append([]byte{}, i.kv[i.i][0]...) }
func (i *mapIter) Value() []byte { return append([]byte{}, i.kv[i.i][1]...) }
func (i *mapIter) Error() error  { return nil }
func (i *mapIter) Close() error  { i.closed = true; return nil }

func sameSnapshot(a, b map[string][]byte) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return fmt.Sprintf("key %q removed", k)
		}
		if !bytes.Equal(v, w) {
			return fmt.Sprintf("value of key %q changed from %q to %q", k, v, w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("key %q added", k)
		}
	}
	return ""
}

// ---------------------------------------------------------------- monitor store

type kvEvent int

const (
	evGet kvEvent = iota
	evHas
	evSet
	evDelete
	evIter
	evIterStep
)

func (e kvEvent) String() string {
	return [...]string{"Get", "Has", "Set", "Delete", "Iterator", "IteratorStep"}[e]
}

var errInjected = errors.New("injected store failure")

type crashed struct{}
type budgetExceeded struct{ reads int64 }

// monKV sits between zanzi and a store: it counts and observes every store call and injects
// delays, failures and crashes.
type monKV struct {
	base rcdb.KVStore

	reads, writes atomic.Int64
	events        atomic.Int64
	openIters     atomic.Int64
	steps         atomic.Int64

	readBudget int64 // >0: a read beyond it panics with budgetExceeded

	// fault decides, for the n-th event (from 1), whether it fails. nil iterators are asked
	// for with faultNilIter.
	fault func(n int64, e kvEvent) faultKind

	// applyThenFail makes failing writes take effect all the same
	applyThenFail bool

	// delay is called before every event
	delay func(e kvEvent)

	// writesLeft >= 0: the store dies after that many more writes
	crashOn    bool
	writesLeft int64
	dead       atomic.Bool
	// observation of keys
	onWrite func(e kvEvent, key, val []byte)
}

type faultKind int

const (
	faultNone faultKind = iota
	faultErr
	faultNilIter
)

func (m *monKV) event(e kvEvent) faultKind {
	if m.dead.Load() {
		panic(crashed{})
	}
	n := m.events.Add(1)
	switch e {
	case evGet, evHas, evIter:
		r := m.reads.Add(1)
		if m.readBudget > 0 && r > m.readBudget {
			panic(budgetExceeded{r})
		}
	case evSet, evDelete:
		m.writes.Add(1)
	case evIterStep:
		m.steps.Add(1)
	}
	if m.delay != nil {
		m.delay(e)
	}
	if m.fault != nil {
		return m.fault(n, e)
	}
	return faultNone
}

func (m *monKV) write(e kvEvent) {
	if m.crashOn {
		if m.writesLeft <= 0 {
			m.dead.Store(true)
			panic(crashed{})
		}
		m.writesLeft--
	}
}

func (m *monKV) Get(key []byte) ([]byte, error) {
	if m.event(evGet) != faultNone {
		return nil, errInjected
	}
	return m.base.Get(key)
}

func (m *monKV) Has(key []byte) (bool, error) {
	if m.event(evHas) != faultNone {
		return false, errInjected
	}
	return m.base.Has(key)
}

func (m *monKV) Set(key, val []byte) error {
	if m.event(evSet) != faultNone {
		if m.applyThenFail {
			m.base.Set(key, val)
		}
		return errInjected
	}
	m.write(evSet)
	if m.onWrite != nil {
		m.onWrite(evSet, key, val)
	}
	return m.base.Set(key, val)
}

func (m *monKV) Delete(key []byte) error {
	if m.event(evDelete) != faultNone {
		if m.applyThenFail {
			m.base.Delete(key)
		}
		return errInjected
	}
	m.write(evDelete)
	if m.onWrite != nil {
		m.onWrite(evDelete, key, nil)
	}
	return m.base.Delete(key)
}

func (m *monKV) Iterator(start, end []byte) rcdb.Iterator {
	switch m.event(evIter) {
	case faultNilIter:
		return nil
	case faultErr:
		m.openIters.Add(1)
		return &monIter{m: m, err: errInjected}
	}
	it := m.base.Iterator(start, end)
	m.openIters.Add(1)
	return &monIter{m: m, it: it}
}

type monIter struct {
	m      *monKV
	it     rcdb.Iterator
	err    error
	closed bool
}

func (i *monIter) Valid() bool {
	if i.err != nil || i.closed {
		return false
	}
	return i.it.Valid()
}

func (i *monIter) Next() {
	if i.m.event(evIterStep) != faultNone {
		i.err = errInjected
		return
	}
	i.it.Next()
}

func (i *monIter) Key() []byte {
	if i.err != nil {
		return nil
	}
	return i.it.Key()
}

func (i *monIter) Value() []byte {
	if i.err != nil {
		return nil
	}
	return i.it.Value()
}

func (i *monIter) Error() error {
	if i.err != nil {
		return i.err
	}
	return i.it.Error()
}

func (i *monIter) Close() error {
	if !i.closed {
		i.closed = true
		i.m.openIters.Add(-1)
		if i.it != nil {
			return i.it.Close()
		}
	}
	return nil
}

// jitter returns a delay function that perturbs the schedule. State is a cheap xorshift shared
// between callers on purpose (atomically).
func jitter(seed int64, sleepPct int) func(kvEvent) {
	var st atomic.Uint64
	st.Store(uint64(seed)*2654435761 + 88172645463325252)
	return func(kvEvent) {
		x := st.Add(0x9E3779B97F4A7C15)
		x ^= x >> 30
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		x *= 0x94D049BB133111EB
		x ^= x >> 31
		switch v := int(x % 100); {
		case v < sleepPct:
			time.Sleep(time.Duration(x>>32%120) * time.Microsecond)
		case v < 70:
			runtime.Gosched()
		}
	}
}

// restore puts the store back to a snapshot.
func (k *mapKV) restore(s map[string][]byte) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.m = map[string][]byte{}
	k.sorted.Store(nil)
	for a, b := range s {
		k.m[a] = append([]byte(nil), b...)
	}
}
